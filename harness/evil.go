package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

// An evil directory is built from the reference code. It holds the signing
// and index keys and can sign and prove whatever it likes.

type evilDir struct {
	r      *rand.Rand
	signSK sign.PrivateKey
	signPK sign.PublicKey
	vrfSK  vrf.PrivateKey
	vrfPK  vrf.PublicKey
	idxs   map[string][]byte
	proofs map[string][]byte
}

func newEvil(r *rand.Rand) *evilDir {
	e := &evilDir{r: r, idxs: map[string][]byte{}, proofs: map[string][]byte{}}
	e.signSK, e.signPK, e.vrfSK, e.vrfPK = newKeys(r)
	return e
}

func (e *evilDir) idx(name string) []byte {
	if i, ok := e.idxs[name]; ok {
		return i
	}
	i, p := e.vrfSK.Prove([]byte(name))
	e.idxs[name], e.proofs[name] = i, p
	return i
}

func (e *evilDir) vrfProof(name string) []byte { e.idx(name); return e.proofs[name] }

// evilTree is a set of bindings and the reference tree over them.
type evilTree struct {
	e     *evilDir
	nonce []byte
	keys  map[string][]byte
	salts map[string][]byte
	order []string
	t     *refTree
	hash  []byte
}

func (e *evilDir) tree(nonce []byte) *evilTree {
	return &evilTree{e: e, nonce: nonce, keys: map[string][]byte{}, salts: map[string][]byte{}}
}

func (t *evilTree) clone() *evilTree {
	o := t.e.tree(t.nonce)
	for _, n := range t.order {
		o.keys[n], o.salts[n] = t.keys[n], t.salts[n]
	}
	o.order = append([]string(nil), t.order...)
	return o
}

func (t *evilTree) set(name string, key []byte) {
	if _, ok := t.keys[name]; !ok {
		t.order = append(t.order, name)
	}
	t.keys[name], t.salts[name] = append([]byte(nil), key...), randBytes(t.e.r, 32)
	t.t, t.hash = nil, nil
}

func (t *evilTree) del(name string) {
	delete(t.keys, name)
	delete(t.salts, name)
	for i, n := range t.order {
		if n == name {
			t.order = append(append([]string(nil), t.order[:i]...), t.order[i+1:]...)
			break
		}
	}
	t.t, t.hash = nil, nil
}

func (t *evilTree) commit(name string) []byte {
	return refDigest(t.salts[name], []byte(name), t.keys[name])
}

func (t *evilTree) build() *refTree {
	if t.t == nil {
		var ls []refLeaf
		for _, n := range t.order {
			ls = append(ls, refLeaf{t.e.idx(n), t.commit(n)})
		}
		t.t = newRefTree(t.nonce, ls)
		t.hash = t.t.root()
	}
	return t.t
}

func (t *evilTree) root() []byte { t.build(); return t.hash }

func (t *evilTree) nameOf(idx []byte) string {
	for _, n := range t.order {
		if bytes.Equal(t.e.idx(n), idx) {
			return n
		}
	}
	panic("harness: no such leaf")
}

// path is the honest path for the name in this tree.
func (t *evilTree) path(name string) *merkletree.AuthenticationPath {
	idx := t.e.idx(name)
	level, sib, leaf := t.build().proof(idx)
	ap := &merkletree.AuthenticationPath{TreeNonce: dup(t.nonce), LookupIndex: dup(idx), VrfProof: dup(t.e.vrfProof(name))}
	for _, s := range sib {
		var h [crypto.HashSizeByte]byte
		copy(h[:], s)
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	n := &merkletree.ProofNode{Level: uint32(level)}
	if leaf == nil {
		n.IsEmpty, n.Index = true, prefixBytes(idx, level)
	} else {
		n.Index = dup(leaf.index)
		n.Commitment = &crypto.Commit{Value: dup(leaf.commit)}
		if bytes.Equal(leaf.index, idx) {
			n.Value = dup(t.keys[name])
			n.Commitment.Salt = dup(t.salts[name])
		}
	}
	ap.Leaf = n
	return ap
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func copyAP(ap *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	if ap == nil {
		return nil
	}
	o := &merkletree.AuthenticationPath{TreeNonce: dup(ap.TreeNonce), LookupIndex: dup(ap.LookupIndex), VrfProof: dup(ap.VrfProof),
		PrunedTree: append([][crypto.HashSizeByte]byte(nil), ap.PrunedTree...)}
	if ap.Leaf != nil {
		l := *ap.Leaf
		l.Index, l.Value = dup(l.Index), dup(l.Value)
		if l.Commitment != nil {
			l.Commitment = &crypto.Commit{Salt: dup(l.Commitment.Salt), Value: dup(l.Commitment.Value)}
		}
		o.Leaf = &l
	}
	return o
}

func copyTB(tb *protocol.TemporaryBinding) *protocol.TemporaryBinding {
	if tb == nil {
		return nil
	}
	return &protocol.TemporaryBinding{Index: dup(tb.Index), Value: dup(tb.Value), Signature: dup(tb.Signature)}
}

// node is a root of the evil directory with its tree.
type evilNode struct {
	tree *evilTree
	str  *protocol.DirSTR
}

func (e *evilDir) policies(deadline uint64) *protocol.Policies {
	return &protocol.Policies{Version: protocol.Version, HashID: crypto.HashID, VrfPublicKey: e.vrfPK,
		EpochDeadline: protocol.Timestamp(deadline)}
}

func (e *evilDir) sign(str *protocol.DirSTR, sk sign.PrivateKey) *protocol.DirSTR {
	str.Signature = sk.Sign(refSTRBytes(str))
	return str
}

// str makes a signed root.
func (e *evilDir) str(epoch, prevEpoch uint64, hash, prevHash []byte, pol *protocol.Policies) *protocol.DirSTR {
	return e.sign(&protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: dup(hash), Epoch: epoch,
		PreviousEpoch: prevEpoch, PreviousSTRHash: dup(prevHash)}, Policies: pol}, e.signSK)
}

func (e *evilDir) first(t *evilTree) *evilNode {
	return &evilNode{t, e.str(0, 0, t.root(), randBytes(e.r, 32), e.policies(60))}
}

// next extends prev by a root over t.
func (e *evilDir) next(prev *evilNode, t *evilTree) *evilNode {
	return &evilNode{t, e.str(prev.str.Epoch+1, prev.str.Epoch, t.root(), refDigest(prev.str.Signature), e.policies(60))}
}

func (e *evilDir) tb(str *protocol.DirSTR, name string, key []byte) *protocol.TemporaryBinding {
	tb := &protocol.TemporaryBinding{Index: dup(e.idx(name)), Value: dup(key)}
	msg := append(append(append([]byte(nil), str.Signature...), tb.Index...), tb.Value...)
	tb.Signature = e.signSK.Sign(msg)
	return tb
}

// ---- specification of a client ----

// refClient is the specification of what a client may accept.
type refClient struct {
	e        *evilDir
	verified *protocol.DirSTR
	promises map[string]*heldPromise // accepted promises not yet seen fulfilled
	known    map[string][]byte
}

type heldPromise struct {
	value []byte
	epoch uint64
	sig   []byte // signature of the root it was issued under
}

func newRefClient(e *evilDir, pinned *protocol.DirSTR) *refClient {
	return &refClient{e: e, verified: copySTR(pinned), promises: map[string]*heldPromise{}, known: map[string][]byte{}}
}

type answer struct {
	status protocol.ErrorCode
	ap     *merkletree.AuthenticationPath
	str    *protocol.DirSTR
	tb     *protocol.TemporaryBinding
}

func (a *answer) copy() *answer {
	return &answer{a.status, copyAP(a.ap), copySTR(a.str), copyTB(a.tb)}
}

// response makes a fresh message, as if it had just been decoded.
func (a *answer) response() *protocol.Response {
	b := a.copy()
	return &protocol.Response{Error: b.status, DirectoryResponse: &protocol.DirectoryProof{
		AP: []*merkletree.AuthenticationPath{b.ap}, STR: []*protocol.DirSTR{b.str}, TB: b.tb}}
}

// strOK tells whether a client at verified may move to str.
func (rc *refClient) strOK(str *protocol.DirSTR) bool {
	if sameSTR(str, rc.verified) {
		return true
	}
	return str.Epoch == rc.verified.Epoch+1 && refLinks(rc.verified, str) && refSTRSigned(str, rc.e.signPK)
}

// apply updates the model after the real client accepted.
func (rc *refClient) apply(a *answer, name string, value []byte, incl bool) {
	rc.verified = copySTR(a.str)
	if value != nil {
		rc.known[name] = dup(value)
	}
	if incl {
		delete(rc.promises, name)
	} else if value != nil {
		rc.promises[name] = &heldPromise{dup(value), a.str.Epoch, dup(a.str.Signature)}
	}
}

func apString(ap *merkletree.AuthenticationPath) string {
	if ap == nil || ap.Leaf == nil {
		return "<nil>"
	}
	return fmt.Sprintf("{lookup %x leaf{level %d index %x empty %v value %x commit %v} nonce %dB siblings %d}",
		clipB(ap.LookupIndex), ap.Leaf.Level, clipB(ap.Leaf.Index), ap.Leaf.IsEmpty, clipB(ap.Leaf.Value), ap.Leaf.Commitment != nil,
		len(ap.TreeNonce), len(ap.PrunedTree))
}

func (a *answer) String() string {
	return fmt.Sprintf("status %d ap %s str %s tb %v", a.status, apString(a.ap), strString(a.str), a.tb != nil)
}
