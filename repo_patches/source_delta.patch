From d5a121a956fc6e0370a224ff074759b0bb5634e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/32] fix: reject an empty node as a proof of inclusion

The hash of an empty node doesn't cover the commitment, so an inclusion
proof whose leaf is marked empty bound the name to any value under the
same tree root.
---
 merkletree/proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..8bb6b4a 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -123,7 +123,11 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 			return ErrBindingsDiffer
 		}
 	} else {
-		// Verify the key-value binding returned in the ProofNode
+		// Verify the key-value binding returned in the ProofNode.
+		// An empty node doesn't commit to any value.
+		if ap.Leaf.IsEmpty {
+			return ErrUnverifiableCommitment
+		}
 		if !bytes.Equal(ap.Leaf.Value, value) {
 			return ErrBindingsDiffer
 		}
-- 
2.43.0


From 4fbb62432e962917590a689396841f86ba53b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/32] fix: check the sizes of the hashed fields of an
 authentication path

A node hash is taken over the plain concatenation of the nonce, the index,
the level and the commitment. Without size checks bytes could be moved
between them: one root proved both the inclusion and the absence of a name,
and an index or a pruned tree shorter than the level made Verify panic.
---
 merkletree/proof.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 8bb6b4a..80f4f8f 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -108,6 +108,9 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if err := ap.checkFormat(); err != nil {
+		return err
+	}
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
@@ -142,6 +145,39 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 	return nil
 }
 
+// checkFormat checks the sizes of the fields which are hashed into the
+// tree root. The hashes of the proof nodes don't include the lengths of
+// these fields, so a node hash determines its fields only when each
+// of them has the size it has in the tree.
+func (ap *AuthenticationPath) checkFormat() error {
+	leaf := ap.Leaf
+	if leaf == nil || len(ap.LookupIndex) != crypto.HashSizeByte {
+		return ErrIndicesMismatch
+	}
+	if leaf.Level > crypto.HashSizeByte*8 {
+		return ErrIndicesMismatch
+	}
+	if leaf.IsEmpty {
+		// the index of an empty node is its prefix
+		if len(leaf.Index) != (int(leaf.Level)+7)/8 {
+			return ErrIndicesMismatch
+		}
+	} else {
+		if len(leaf.Index) != crypto.HashSizeByte {
+			return ErrIndicesMismatch
+		}
+		if leaf.Commitment == nil ||
+			len(leaf.Commitment.Value) != crypto.HashSizeByte {
+			return ErrUnverifiableCommitment
+		}
+	}
+	if len(ap.TreeNonce) > crypto.HashSizeByte ||
+		len(ap.PrunedTree) != int(leaf.Level) {
+		return ErrUnequalTreeHashes
+	}
+	return nil
+}
+
 // ProofType returns the type of ap. It does a comparison
 // between the leaf index and the lookup index to determine
 // the proof type, and sets ap's proof type the first time this
-- 
2.43.0


From 6de743d5579c89efb2c231df62c8221c0bcfd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/32] fix: check the salt size when opening a commitment

salt, key and value are hashed as one string, so a commitment could be
opened to a different value by moving bytes between them and the salt.
---
 crypto/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..aa374ec 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -70,6 +70,11 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
+// The salt must have the size NewCommit() gives it: otherwise bytes could be
+// moved between the salt and the committed values.
 func (c *Commit) Verify(stuff ...[]byte) bool {
+	if len(c.Salt) != HashSizeByte {
+		return false
+	}
 	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From 53947e142070005ecef954b9280a9e997345cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 04/32] fix: reject responses and STRs with missing parts
 instead of crashing

A response or an initial STR in which an authentication path, its leaf, an
STR or its policies was null made the client, the auditor or the config
loader dereference nil, as did a response of the wrong kind.
---
 application/config.go                |  3 +++
 protocol/auditlog/auditlog.go        | 10 +++++++++-
 protocol/auditor/auditor.go          |  8 ++++++--
 protocol/client/consistencychecks.go |  5 ++++-
 protocol/message.go                  | 22 ++++++++++++++++++----
 protocol/str.go                      |  9 +++++++++
 6 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..97487c1 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if err := initSTR.Validate(); err != nil {
+		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..91b2a43 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
@@ -126,6 +129,11 @@ func (l ConiksAuditLog) get(dirInitHash [crypto.HashSizeByte]byte) (*directoryHi
 func (l ConiksAuditLog) InitHistory(addr string, signKey sign.PublicKey,
 	snaps []*protocol.DirSTR) error {
 	// make sure we're getting an initial STR at the very least
+	for _, str := range snaps {
+		if err := str.Validate(); err != nil {
+			return err
+		}
+	}
 	if len(snaps) < 1 || snaps[0].Epoch != 0 {
 		return protocol.ErrMalformedMessage
 	}
diff --git a/protocol/auditor/auditor.go b/protocol/auditor/auditor.go
index d6e2f0b..cd20cfb 100644
--- a/protocol/auditor/auditor.go
+++ b/protocol/auditor/auditor.go
@@ -90,6 +90,10 @@ func (a *AudState) CheckSTRAgainstVerified(str *protocol.DirSTR) error {
 	// FIXME: check whether the STR was issued on time and whatnot.
 	// Maybe it has something to do w/ #81 and client
 	// transitioning between epochs.
+	if err := str.Validate(); err != nil {
+		return err
+	}
+
 	// Try to verify w/ what's been saved
 	switch {
 	case str.Epoch == a.verifiedSTR.Epoch:
@@ -117,8 +121,8 @@ func (a *AudState) VerifySTRRange(prevSTR *protocol.DirSTR, strs []*protocol.Dir
 	prev := prevSTR
 	for i := 0; i < len(strs); i++ {
 		str := strs[i]
-		if str == nil {
-			return protocol.ErrMalformedMessage
+		if err := str.Validate(); err != nil {
+			return err
 		}
 
 		// verify the consistency of each STR in the range
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1816d5f 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..0e1f1a1 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,20 +278,34 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || len(df.STR) == 0 || len(df.AP) == 0 {
 			return ErrMalformedMessage
 		}
-		return nil
+		for _, ap := range df.AP {
+			if ap == nil || ap.Leaf == nil {
+				return ErrMalformedMessage
+			}
+		}
+		return validateSTRs(df.STR)
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || len(df.STR) == 0 {
 			return ErrMalformedMessage
 		}
-		return nil
+		return validateSTRs(df.STR)
 	default:
 		panic("[coniks] Malformed response")
 	}
 }
 
+func validateSTRs(strs []*DirSTR) error {
+	for _, str := range strs {
+		if err := str.Validate(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
diff --git a/protocol/str.go b/protocol/str.go
index db92f96..36d249c 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -26,3 +26,12 @@ func (str *DirSTR) Serialize() []byte {
 func (str *DirSTR) VerifyHashChain(savedSTR *DirSTR) bool {
 	return str.SignedTreeRoot.VerifyHashChain(savedSTR.SignedTreeRoot)
 }
+
+// Validate checks that no part of the STR is missing, which can be the case
+// if it was decoded from a message or a file. It doesn't verify the STR.
+func (str *DirSTR) Validate() error {
+	if str == nil || str.SignedTreeRoot == nil || str.Policies == nil {
+		return ErrMalformedMessage
+	}
+	return nil
+}
-- 
2.43.0


From 61af5b6516e3d94cabc9f5f982621dbf0da8f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 05/32] fix: answer ErrDirectory when the STR history has been
 evicted

GetSTRHistory() dereferenced nil if the range started at an epoch whose
snapshot is no longer in memory.
---
 protocol/directory/directory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..c468fda 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -323,6 +323,8 @@ func (d *ConiksDirectory) Monitor(req *protocol.MonitoringRequest) *protocol.Res
 // and endEpoch are the epoch range endpoints indicated in the client's
 // request. If req.endEpoch is greater than d.LatestSTR().Epoch,
 // the end of the range will be set to d.LatestSTR().Epoch.
+// If a snapshot in the range has been removed from memory,
+// it returns a message.NewErrorResponse(ErrDirectory).
 func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protocol.Response {
 	// make sure the request is well-formed
 	if req.StartEpoch > d.LatestSTR().Epoch ||
@@ -337,8 +339,11 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From bdcfcad4e14750b964393e0d05021c35405a6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/32] fix: let the client learn the key a verified response
 contains

GetKey() always returned nil, so the client never saved a binding: every
lookup was trust-on-first-use and accepted a changed key.
---
 protocol/client/consistencychecks.go | 10 ++++++++--
 protocol/message.go                  | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1816d5f..64df71b 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -124,8 +124,14 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	recvKey, err := msg.GetKey()
+	if err != nil {
+		return err
+	}
+	// a proof of absence doesn't contain a key
+	if recvKey != nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
diff --git a/protocol/message.go b/protocol/message.go
index 0e1f1a1..941d966 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -316,7 +316,23 @@ func validateSTRs(strs []*DirSTR) error {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
+//
+// The key is nil if the response doesn't contain one, i.e., if it proves
+// that the name isn't registered.
 func (msg *Response) GetKey() ([]byte, error) {
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+	ap := df.AP[len(df.AP)-1]
+	switch {
+	case ap.ProofType() == merkletree.ProofOfInclusion:
+		return ap.Leaf.Value, nil
+	case df.TB != nil && msg.Error != ReqNameNotFound:
+		return df.TB.Value, nil
+	}
 	return nil, nil
 }
-- 
2.43.0


From 6fb1447c38affd788e26b4b42b453ce8e5d0639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 07/32] fix: detect a promise the directory doesn't keep

A client holding a temporary binding accepted a proof that the name isn't
registered, or another promise instead of the promised inclusion, so a
directory could drop or replace a promised binding unnoticed.
---
 protocol/client/consistencychecks.go | 37 +++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 64df71b..b2f52d9 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -250,12 +250,16 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 	case protocol.RegistrationType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
 		if df.AP[0].ProofType() == merkletree.ProofOfAbsence {
+			if err := cc.verifyPendingPromise(uname, df); err != nil {
+				return err
+			}
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
 			cc.TBs[uname] = df.TB
+			return nil
 		}
-		return nil
+		return cc.verifyFulfilledPromise(uname, df.STR[0], df.AP[0])
 
 	case protocol.KeyLookupType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
@@ -270,10 +274,22 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			delete(cc.TBs, uname)
 
 		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence:
+			if err := cc.verifyPendingPromise(uname, df); err != nil {
+				return err
+			}
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
 			cc.TBs[uname] = df.TB
+
+		case msg.Error == protocol.ReqNameNotFound:
+			if _, ok := cc.TBs[uname]; ok {
+				return protocol.CheckBrokenPromise
+			}
+			if _, ok := cc.Bindings[uname]; ok {
+				// bindings are never removed from the directory
+				return protocol.CheckBindingsDiffer
+			}
 		}
 
 	default:
@@ -296,6 +312,25 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyPendingPromise verifies a proof of absence against the promise
+// the client already has for the name, if any. Such a promise can only be
+// pending in the epoch it was issued for, and the directory issues only
+// one promise for a name in an epoch.
+func (cc *ConsistencyChecks) verifyPendingPromise(uname string,
+	df *protocol.DirectoryProof) error {
+	tb, ok := cc.TBs[uname]
+	if !ok {
+		return nil
+	}
+	if df.TB == nil ||
+		!cc.Verify(tb.Serialize(df.STR[0].Signature), tb.Signature) ||
+		!bytes.Equal(df.TB.Index, tb.Index) ||
+		!bytes.Equal(df.TB.Value, tb.Value) {
+		return protocol.CheckBrokenPromise
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From 475d691dca75a75c6ee3fde5f377b9ce239557b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 08/32] fix: verify the signature of the first STR an auditor
 returns

Only the STRs after it were verified, so the contents of the first STR of
a range could be forged.
---
 protocol/client/consistencychecks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index b2f52d9..aba547c 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -78,6 +78,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
 	if len(strs.STR) > 1 {
+		// the hash chain only covers the signature of the first STR
+		if !cc.Verify(strs.STR[0].Serialize(), strs.STR[0].Signature) {
+			return protocol.CheckBadSignature
+		}
 		if err := cc.VerifySTRRange(strs.STR[0], strs.STR[1:]); err != nil {
 			return err
 		}
-- 
2.43.0


From 088dae58234bc98ea8acb41b210779e00e770b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 09/32] fix: don't read the listen verb concurrently with its
 update

Run() sets Verb for the next address while the goroutine started for the
previous one reads it.
---
 application/serverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..8200d36 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -93,9 +93,10 @@ func NewServerBase(conf *CommonConfig, listenVerb string,
 func (sb *ServerBase) ListenAndHandle(addr *ServerAddress,
 	reqHandler func(req *protocol.Request) *protocol.Response) {
 	ln, tlsConfig := addr.resolveAndListen()
+	verb := sb.Verb // the caller may change it for the next address
 	sb.waitStop.Add(1)
 	go func() {
-		sb.logger.Info(sb.Verb, "address", addr.Address)
+		sb.logger.Info(verb, "address", addr.Address)
 		sb.acceptRequests(addr, ln, tlsConfig, reqHandler)
 		sb.waitStop.Done()
 	}()
-- 
2.43.0


From 1ce4413e7aa6413c96c0ef85b5b3b9600b0c724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 10/32] fix: report missing sections of the server config
 instead of crashing

A config without policies or logger made Load() dereference nil, which also
crashed a running server when it reloaded its policies.
---
 application/server/config.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..94848b6 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -59,6 +59,18 @@ func (conf *Config) Load(file, encoding string) error {
 		return err
 	}
 
+	if conf.Policies == nil {
+		return fmt.Errorf("Missing policies in %s", file)
+	}
+	if conf.Logger == nil {
+		return fmt.Errorf("Missing logger configuration in %s", file)
+	}
+	for _, addr := range conf.Addresses {
+		if addr == nil || addr.ServerAddress == nil {
+			return fmt.Errorf("Missing address in %s", file)
+		}
+	}
+
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
 	signKey, err := ioutil.ReadFile(signPath)
-- 
2.43.0


From 4d0a5b5cfbe7b342b12017b82fd240c139d8cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/32] fix: update the directory at the announced epoch
 deadline

The epoch timer used a config value that init and NewConfig() never set
instead of the deadline in the policies: a server run from a generated
config updated its directory continuously.
---
 application/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/application/server/server.go b/application/server/server.go
index 89050e7..0b6286a 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -62,7 +62,7 @@ func NewConiksServer(conf *Config) *ConiksServer {
 			conf.Policies.signKey,
 			conf.LoadedHistoryLength,
 			true),
-		epochTimer: application.NewEpochTimer(conf.EpochDeadline),
+		epochTimer: application.NewEpochTimer(conf.Policies.EpochDeadline),
 	}
 
 	// save the initial STR to be used for initializing auditors
-- 
2.43.0


From e8f61a39cc98ac81375564c880ce165b884d74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/32] fix: resolve paths against the config file that was
 actually loaded

The path the file was created with was stored in it and replaced the path it
is loaded from: a server created with init -d DIR and run from inside DIR
looked for DIR/DIR, silently didn't write its initial STR and couldn't reload
its policies.
---
 application/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/application/config.go b/application/config.go
index 97487c1..7b41f85 100644
--- a/application/config.go
+++ b/application/config.go
@@ -26,9 +26,9 @@ type AppConfig interface {
 // values including the file path, logger configuration, and config
 // loader.
 type CommonConfig struct {
-	Path     string
+	Path     string        `toml:"-"`
 	Logger   *LoggerConfig `toml:"logger"`
-	Encoding string
+	Encoding string        `toml:"-"`
 	loader   ConfigLoader
 }
 
-- 
2.43.0


From f942a5911318481456597bb9a87d848e3dd84769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 13/32] fix: truncate the pid file

A longer pid left over from an earlier run showed through.
---
 cli/coniksserver/internal/cmd/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/run.go b/cli/coniksserver/internal/cmd/run.go
index 36fb2fe..3308a78 100644
--- a/cli/coniksserver/internal/cmd/run.go
+++ b/cli/coniksserver/internal/cmd/run.go
@@ -50,7 +50,7 @@ func run(cmd *cobra.Command, args []string) {
 }
 
 func writePID() {
-	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_WRONLY, 0666)
+	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
 	if err != nil {
 		log.Printf("Cannot create coniks.pid: %v", err)
 		return
-- 
2.43.0


From 19cb1ecc1ef04c7d4e4cd9fbce9f80c5628b316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 14/32] fix: relay the whole response to a registration

The bot cut the response off after 8192 bytes, so the response to a
registration of a long key was not even valid JSON.
---
 application/bots/bot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 4621e1e..83d74a4 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -46,7 +46,7 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 
 	conn.CloseWrite()
 	var buf bytes.Buffer
-	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
+	if _, err := io.Copy(&buf, conn); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From c148abb10dc90343c1d8ee07d3f981f840acc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 15/32] fix: wait for the connections of each listener
 separately

A listener that is still accepting connections while another one already
waits for its connections to end used the same wait group concurrently
with Wait, which is a data race and may panic.
---
 application/serverbase.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 8200d36..880e96a 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -60,9 +60,8 @@ type ServerBase struct {
 	logger *Logger
 	sync.RWMutex
 
-	stop          chan struct{}
-	waitStop      sync.WaitGroup
-	waitCloseConn sync.WaitGroup
+	stop     chan struct{}
+	waitStop sync.WaitGroup
 
 	configFilePath string
 	configEncoding string
@@ -144,6 +143,9 @@ func (sb *ServerBase) acceptRequests(addr *ServerAddress, ln net.Listener,
 	tlsConfig *tls.Config,
 	handler func(req *protocol.Request) *protocol.Response) {
 	defer ln.Close()
+	// connections of this listener only: another listener may still accept
+	// connections while this one waits
+	var waitCloseConn sync.WaitGroup
 	go func() {
 		<-sb.stop
 		if l, ok := ln.(interface {
@@ -156,7 +158,7 @@ func (sb *ServerBase) acceptRequests(addr *ServerAddress, ln net.Listener,
 	for {
 		select {
 		case <-sb.stop:
-			sb.waitCloseConn.Wait()
+			waitCloseConn.Wait()
 			return
 		default:
 		}
@@ -171,10 +173,10 @@ func (sb *ServerBase) acceptRequests(addr *ServerAddress, ln net.Listener,
 		if _, ok := ln.(*net.TCPListener); ok {
 			conn = tls.Server(conn, tlsConfig)
 		}
-		sb.waitCloseConn.Add(1)
+		waitCloseConn.Add(1)
 		go func() {
 			sb.acceptClient(addr, conn, handler)
-			sb.waitCloseConn.Done()
+			waitCloseConn.Done()
 		}()
 	}
 }
-- 
2.43.0


From fe4c1c49279084398c7d7255ce90c1fe69b11723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 16/32] fix: reject a lookup or registration answer with
 several proofs

Only the first authentication path was verified, but the key the client
remembers came from the last one.
---
 protocol/client/consistencychecks.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index aba547c..abb2de6 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -178,8 +178,10 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	// the answer is about the latest epoch only
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -198,8 +200,10 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	// the answer is about the latest epoch only
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
-- 
2.43.0


From 93e0754903fc9b90ce46cfe4f36b4d00c6a7cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 17/32] fix: reject STRs whose signed bytes could be split in
 another way

---
 protocol/str.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/protocol/str.go b/protocol/str.go
index 36d249c..641f6d1 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -1,6 +1,10 @@
 package protocol
 
-import "github.com/coniks-sys/coniks-go/merkletree"
+import (
+	"github.com/coniks-sys/coniks-go/crypto"
+	"github.com/coniks-sys/coniks-go/crypto/vrf"
+	"github.com/coniks-sys/coniks-go/merkletree"
+)
 
 // DirSTR disambiguates merkletree.SignedTreeRoot's AssocData interface,
 // for the purpose of exporting and unmarshalling.
@@ -28,10 +32,26 @@ func (str *DirSTR) VerifyHashChain(savedSTR *DirSTR) bool {
 }
 
 // Validate checks that no part of the STR is missing, which can be the case
-// if it was decoded from a message or a file. It doesn't verify the STR.
+// if it was decoded from a message or a file, and that the fields of an STR
+// that extends another one can be concatenated to the signed bytes in only
+// one way: the hashes and the VRF public-key have a fixed size and the hash
+// algorithm is known. The first STR, whose previous epoch isn't signed, has
+// none. Validate doesn't verify the STR.
 func (str *DirSTR) Validate() error {
 	if str == nil || str.SignedTreeRoot == nil || str.Policies == nil {
 		return ErrMalformedMessage
 	}
+	if len(str.Policies.VrfPublicKey) != vrf.PublicKeySize ||
+		str.Policies.HashID != crypto.HashID {
+		return ErrMalformedMessage
+	}
+	if str.Epoch == 0 {
+		if str.PreviousEpoch != 0 {
+			return ErrMalformedMessage
+		}
+	} else if len(str.TreeHash) != crypto.HashSizeByte ||
+		len(str.PreviousSTRHash) != crypto.HashSizeByte {
+		return ErrMalformedMessage
+	}
 	return nil
 }
-- 
2.43.0


From 0d2a6a033fa72e8303d4f072b0f32b42ad3f12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 18/32] fix: follow a changed epoch deadline

---
 application/server/server.go | 6 +++++-
 application/serverbase.go    | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/application/server/server.go b/application/server/server.go
index 0b6286a..3257ec3 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -105,7 +105,11 @@ func (server *ConiksServer) HandleRequests(req *protocol.Request) *protocol.Resp
 // permissions.
 func (server *ConiksServer) Run(addrs []*Address) {
 	server.RunInBackground(func() {
-		server.EpochUpdate(server.epochTimer, server.dir.Update)
+		server.EpochUpdate(server.epochTimer, func() {
+			server.dir.Update()
+			// the new epoch lasts as long as its STR announces
+			server.epochTimer.SetDeadline(server.dir.EpochDeadline())
+		})
 	})
 
 	hasRegistrationPerm := false
diff --git a/application/serverbase.go b/application/serverbase.go
index 880e96a..80bdad5 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -30,6 +30,12 @@ func NewEpochTimer(epDeadline protocol.Timestamp) *EpochTimer {
 	}
 }
 
+// SetDeadline changes the interval of an epoch timer to the given epoch
+// deadline. It takes effect when the timer is started for the next epoch.
+func (timer *EpochTimer) SetDeadline(epDeadline protocol.Timestamp) {
+	timer.duration = time.Duration(epDeadline) * time.Second
+}
+
 // A ServerAddress describes a server's connection.
 // It supports two types of connections: a TCP connection ("tcp")
 // and a Unix socket connection ("unix").
-- 
2.43.0


From 3dad8da517a8a10448c7d59817d91dc685667458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 19/32] fix: don't let a long epoch deadline overflow

---
 application/serverbase.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 80bdad5..d945692 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/tls"
 	"io"
+	"math"
 	"net"
 	"net/url"
 	"os"
@@ -24,16 +25,26 @@ type EpochTimer struct {
 // NewEpochTimer initializes an epoch timer for running regular
 // update procedures every epoch.
 func NewEpochTimer(epDeadline protocol.Timestamp) *EpochTimer {
+	duration := epochDuration(epDeadline)
 	return &EpochTimer{
-		Timer:    time.NewTimer(time.Duration(epDeadline) * time.Second),
-		duration: time.Duration(epDeadline) * time.Second,
+		Timer:    time.NewTimer(duration),
+		duration: duration,
 	}
 }
 
+// epochDuration converts an epoch deadline, which is too long for a
+// `time.Duration` above about 292 years.
+func epochDuration(epDeadline protocol.Timestamp) time.Duration {
+	if epDeadline > protocol.Timestamp(math.MaxInt64/time.Second) {
+		return math.MaxInt64
+	}
+	return time.Duration(epDeadline) * time.Second
+}
+
 // SetDeadline changes the interval of an epoch timer to the given epoch
 // deadline. It takes effect when the timer is started for the next epoch.
 func (timer *EpochTimer) SetDeadline(epDeadline protocol.Timestamp) {
-	timer.duration = time.Duration(epDeadline) * time.Second
+	timer.duration = epochDuration(epDeadline)
 }
 
 // A ServerAddress describes a server's connection.
-- 
2.43.0


From 62e8810ee65aab6dc3a022cd34dd25e7e05b79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 20/32] fix: accept a configuration without a log file

---
 application/server/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/application/server/config.go b/application/server/config.go
index 94848b6..caed8e3 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -99,7 +99,9 @@ func (conf *Config) Load(file, encoding string) error {
 		addr.TLSKeyPath = utils.ResolvePath(addr.TLSKeyPath, file)
 	}
 	// logger config
-	conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	if conf.Logger.Path != "" {
+		conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	}
 
 	return nil
 }
-- 
2.43.0


From 64120e3760eb5d58263d86b492f976a4878032e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 21/32] fix: create files exclusively

---
 utils/utils.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index fe18400..4b3953b 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,7 +3,6 @@ package utils
 import (
 	"encoding/binary"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 )
@@ -41,17 +40,22 @@ func UInt32ToBytes(num uint32) []byte {
 	return buf
 }
 
-// WriteFile writes buf to a file whose path is indicated by filename.
+// WriteFile writes buf to a new file whose path is indicated by filename.
+// It returns an error if the file already exists.
 func WriteFile(filename string, buf []byte, perm os.FileMode) error {
-	if _, err := os.Stat(filename); err == nil {
+	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if os.IsExist(err) {
 		return fmt.Errorf("Can't write file. File '%s' already exists\n",
 			filename)
 	}
-
-	if err := ioutil.WriteFile(filename, buf, perm); err != nil {
+	if err != nil {
+		return err
+	}
+	if _, err := file.Write(buf); err != nil {
+		file.Close()
 		return err
 	}
-	return nil
+	return file.Close()
 }
 
 // ResolvePath returns the absolute path of file.
-- 
2.43.0


From 066435c38cda991dde53ad4cb3a1d7d217160f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 22/32] fix: keep an existing TLS certificate and key

---
 cli/coniksserver/internal/cmd/init.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 198f9cc..fdefc0e 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"log"
+	"os"
 	"path"
 	"strconv"
 
@@ -32,7 +33,21 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 
 	cert, err := strconv.ParseBool(cmd.Flag("cert").Value.String())
 	if err == nil && cert {
-		testutil.CreateTLSCert(dir)
+		mkTLSCert(dir)
+	}
+}
+
+func mkTLSCert(dir string) {
+	// CreateTLSCert overwrites existing files
+	for _, name := range []string{"server.pem", "server.key"} {
+		file := path.Join(dir, name)
+		if _, err := os.Lstat(file); !os.IsNotExist(err) {
+			log.Printf("Can't write file. File '%s' already exists\n", file)
+			return
+		}
+	}
+	if err := testutil.CreateTLSCert(dir); err != nil {
+		log.Println(err)
 	}
 }
 
-- 
2.43.0


From e3fc27a5da46bc7f370369bc51e3c01d8e609fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 23/32] fix: reject negative numbers in the server's
 configuration

---
 application/server/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/application/server/config.go b/application/server/config.go
index caed8e3..da13142 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -3,6 +3,7 @@ package server
 import (
 	"fmt"
 	"io/ioutil"
+	"math"
 
 	"github.com/coniks-sys/coniks-go/application"
 	"github.com/coniks-sys/coniks-go/crypto/sign"
@@ -62,6 +63,13 @@ func (conf *Config) Load(file, encoding string) error {
 	if conf.Policies == nil {
 		return fmt.Errorf("Missing policies in %s", file)
 	}
+	// TOML integers have 63 bits and a sign: larger values were negative
+	if conf.Policies.EpochDeadline > math.MaxInt64 {
+		return fmt.Errorf("Epoch deadline must not be negative in %s", file)
+	}
+	if conf.LoadedHistoryLength > math.MaxInt64 {
+		return fmt.Errorf("Loaded history length must not be negative in %s", file)
+	}
 	if conf.Logger == nil {
 		return fmt.Errorf("Missing logger configuration in %s", file)
 	}
-- 
2.43.0


From 956cf5f004e228d3c95cd764578f882bd14cc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 24/32] fix: make ResolvePath return the absolute path it
 promises

---
 utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 4b3953b..9c02486 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -64,5 +64,9 @@ func ResolvePath(file, other string) string {
 	if !filepath.IsAbs(file) {
 		file = filepath.Join(filepath.Dir(other), file)
 	}
+	// other may itself be relative to the current working directory
+	if abs, err := filepath.Abs(file); err == nil {
+		return abs
+	}
 	return file
 }
-- 
2.43.0


From 65e53a8daa3816d935cf83e719d3be5512178fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 25/32] fix: report a missing answer of the key server to the
 bot as an error

---
 application/bots/bot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 83d74a4..799a98e 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -49,6 +49,10 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 	if _, err := io.Copy(&buf, conn); err != nil {
 		return nil, err
 	}
+	if buf.Len() == 0 {
+		// the server hung up without answering
+		return nil, io.ErrUnexpectedEOF
+	}
 
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From 5918508901b1e172714adae198ced75dd77fabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 26/32] fix: don't write to a proof while verifying it

---
 merkletree/proof.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 80f4f8f..3adf3eb 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -62,7 +62,7 @@ func (n *ProofNode) hash(treeNonce []byte) []byte {
 type ProofType int
 
 const (
-	undeterminedProof ProofType = iota
+	_ ProofType = iota
 	ProofOfAbsence
 	ProofOfInclusion
 )
@@ -79,7 +79,6 @@ type AuthenticationPath struct {
 	LookupIndex []byte
 	VrfProof    []byte
 	Leaf        *ProofNode
-	proofType   ProofType
 }
 
 func (ap *AuthenticationPath) authPathHash() []byte {
@@ -180,15 +179,11 @@ func (ap *AuthenticationPath) checkFormat() error {
 
 // ProofType returns the type of ap. It does a comparison
 // between the leaf index and the lookup index to determine
-// the proof type, and sets ap's proof type the first time this
-// method called, memoizing the proof type for subsequent calls.
+// the proof type. ap isn't changed, so it can be verified by several
+// goroutines at once.
 func (ap *AuthenticationPath) ProofType() ProofType {
-	if ap.proofType == undeterminedProof {
-		if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
-			ap.proofType = ProofOfInclusion
-		} else {
-			ap.proofType = ProofOfAbsence
-		}
+	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+		return ProofOfInclusion
 	}
-	return ap.proofType
+	return ProofOfAbsence
 }
-- 
2.43.0


From da29df9a87c2036a5a763084b4bfa69d796385a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 27/32] fix: keep all entries of large batches

---
 storage/kv/leveldbkv/leveldbkv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 6091727..7db74a2 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -27,8 +27,12 @@ import (
 type leveldbkv leveldb.DB
 
 func OpenDB(path string) kv.DB {
+	// Batches larger than the write buffer must go through the journal like
+	// any other write: in leveldb's large batch transactions entries of the
+	// batch, or written shortly before it, can get lost.
+	opts := &opt.Options{DisableLargeBatchTransaction: true}
 	// open db & keep it open
-	db, err := leveldb.OpenFile(path, nil)
+	db, err := leveldb.OpenFile(path, opts)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From adad7713f7c54e9867607823f511555416b5e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 28/32] fix: iterate over nothing if a range ends before it
 starts

---
 storage/kv/leveldbkv/leveldbkv.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 7db74a2..8717e86 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -16,10 +16,12 @@
 package leveldbkv
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/coniks-sys/coniks-go/storage/kv"
 	"github.com/syndtr/goleveldb/leveldb"
+	"github.com/syndtr/goleveldb/leveldb/iterator"
 	"github.com/syndtr/goleveldb/leveldb/opt"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
@@ -72,6 +74,10 @@ func (db *leveldbkv) NewIterator(rg *kv.Range) kv.Iterator {
 	if rg == nil {
 		return (*leveldb.DB)(db).NewIterator(nil, nil)
 	}
+	if rg.Limit != nil && bytes.Compare(rg.Start, rg.Limit) >= 0 {
+		// leveldb panics if a range ends before it starts
+		return iterator.NewEmptyIterator(nil)
+	}
 	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: rg.Limit}, nil)
 }
 
-- 
2.43.0


From 42015cb17b177fc56909ade4208bfc8597f241b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 29/32] fix: stop cleanly on an interrupt that arrives while
 the server starts

The interrupt handler was installed after the server had begun to serve its
addresses, so that an interrupt in between killed the process without a
shutdown and left its socket files behind.
---
 cli/coniksserver/internal/cmd/run.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/coniksserver/internal/cmd/run.go b/cli/coniksserver/internal/cmd/run.go
index 3308a78..83026be 100644
--- a/cli/coniksserver/internal/cmd/run.go
+++ b/cli/coniksserver/internal/cmd/run.go
@@ -41,10 +41,11 @@ func run(cmd *cobra.Command, args []string) {
 	}
 	serv := server.NewConiksServer(conf)
 
-	// run the server until receiving an interrupt signal
-	serv.Run(conf.Addresses)
+	// run the server until receiving an interrupt signal; one that arrives
+	// while the server is starting counts, too
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt)
+	serv.Run(conf.Addresses)
 	<-ch
 	serv.Shutdown()
 }
-- 
2.43.0


From 3caefae094d1bf3b53e40b298019ea4d894b8d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 30/32] fix: keep a copy of the key in temporary bindings

---
 protocol/directory/directory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index c468fda..daf53b4 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -99,7 +99,7 @@ func (d *ConiksDirectory) NewTB(name string, key []byte) *protocol.TemporaryBind
 	index := d.pad.Index(name)
 	return &protocol.TemporaryBinding{
 		Index:     index,
-		Value:     key,
+		Value:     append([]byte{}, key...), // make a copy of key
 		Signature: d.pad.Sign(d.LatestSTR().Signature, index, key),
 	}
 }
-- 
2.43.0


From c010fa6fd06a898593fe3706f1c54fe8a498ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 31/32] fix: don't allocate the whole configured history up
 front

---
 merkletree/pad.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/merkletree/pad.go b/merkletree/pad.go
index 2754263..e7d6ea6 100644
--- a/merkletree/pad.go
+++ b/merkletree/pad.go
@@ -26,6 +26,7 @@ type PAD struct {
 	tree         *MerkleTree // will be used to create the next STR
 	snapshots    map[uint64]*SignedTreeRoot
 	loadedEpochs []uint64 // slice of epochs in snapshots
+	capacity     uint64   // maximum number of cached snapshots
 	latestSTR    *SignedTreeRoot
 	ad           AssocData
 }
@@ -46,8 +47,12 @@ func NewPAD(ad AssocData, signKey sign.PrivateKey, vrfKey vrf.PrivateKey, len ui
 		return nil, err
 	}
 	pad.ad = ad
-	pad.snapshots = make(map[uint64]*SignedTreeRoot, len)
-	pad.loadedEpochs = make([]uint64, 0, len)
+	pad.snapshots = make(map[uint64]*SignedTreeRoot)
+	pad.capacity = len
+	if pad.capacity < 2 {
+		// the latest snapshot and its predecessor
+		pad.capacity = 2
+	}
 	pad.updateInternal(nil, 0)
 	return pad, nil
 }
@@ -89,10 +94,10 @@ func (pad *PAD) updateInternal(ad AssocData, epoch uint64) {
 // ad should be nil if the PAD's associated data ad do not change.
 func (pad *PAD) Update(ad AssocData) {
 	// delete older str(s) as needed
-	if len(pad.loadedEpochs) == cap(pad.loadedEpochs) {
-		n := cap(pad.loadedEpochs) / 2
-		for i := 0; i < n; i++ {
-			delete(pad.snapshots, pad.loadedEpochs[i])
+	if uint64(len(pad.loadedEpochs)) >= pad.capacity {
+		n := pad.capacity / 2
+		for _, epoch := range pad.loadedEpochs[:n] {
+			delete(pad.snapshots, epoch)
 		}
 		pad.loadedEpochs = append(pad.loadedEpochs[:0], pad.loadedEpochs[n:]...)
 	}
-- 
2.43.0


From c1c721aa6326932208ccbd8058a1fa73be6c12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:46 +0000
Subject: [PATCH 32/32] fix: report an unparsable address instead of crashing
 in coniksclient

The error of url.Parse was ignored, so that a command crashed the client
when its configuration contained an address that isn't a URL.
---
 cli/coniksclient/internal/cmd/run.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/coniksclient/internal/cmd/run.go b/cli/coniksclient/internal/cmd/run.go
index 7531844..b181e41 100644
--- a/cli/coniksclient/internal/cmd/run.go
+++ b/cli/coniksclient/internal/cmd/run.go
@@ -120,7 +120,10 @@ func register(cc *client.ConsistencyChecks, conf *clientapp.Config, name string,
 		// fallback to conf.Address if empty
 		regAddress = conf.Address
 	}
-	u, _ := url.Parse(regAddress)
+	u, err := url.Parse(regAddress)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, regAddress)
@@ -173,7 +176,10 @@ func keyLookup(cc *client.ConsistencyChecks, conf *clientapp.Config, name string
 	}
 
 	var res []byte
-	u, _ := url.Parse(conf.Address)
+	u, err := url.Parse(conf.Address)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, conf.Address)
-- 
2.43.0

