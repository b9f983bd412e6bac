package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() {
	register(&Property{ID: "C01", Level: "exploration", Run: runC01,
		Rule: "random histories of registrations, lookups, past lookups, monitoring, root ranges, epoch and policy changes on one directory (in memory and through the wire format), every answer compared with a map-based model; a case is non-trivial if its history has both accepted registrations and answers about an earlier epoch, distinct by the whole operation list",
		Need: map[string]int64{"registered": 300, "inclusions": 500, "absences": 300, "promises": 200, "past lookups": 200, "monitored": 100, "refused": 50}})
	register(&Property{ID: "C02", Level: "exploration", Run: runC02,
		Rule: "random honest histories followed epoch by epoch by several clients and auditors; every answer is fed to the real client/auditor and to the reference verifier; non-trivial: a history in which some client accepted both an inclusion and a promise, distinct by operation list",
		Need: map[string]int64{"accepted by client": 1000, "accepted by auditor": 200, "reference verified": 1000, "key known": 300}})
	register(&Property{ID: "C03", Level: "exploration", Run: runC03,
		Rule: "random binding sets inserted in random order and epochs; every root and every returned path compared with an independent prefix tree over the opened commitments; non-trivial: a tree with at least two bindings, distinct by root hash",
		Need: map[string]int64{"roots compared": 150, "paths compared": 1500}})
	register(&Property{ID: "C05", Level: "exploration", Run: runC05,
		Rule: "random histories; answers recorded when an epoch is published are asked again after every later change and compared byte for byte, together with the still-held original answers; non-trivial: a re-read after at least one later registration and epoch, distinct by (root, name)",
		Need: map[string]int64{"re-reads": 2000, "held answers compared": 500, "unchanged roots": 20}})
	register(&Property{ID: "C06", Level: "exploration", Run: runC06,
		Rule: "random histories; every published root checked against the reference signature and chain rules, and every signed field of it altered; non-trivial: a root with epoch > 0, distinct by signature",
		Need: map[string]int64{"roots": 500, "alterations": 4000}})
	register(&Property{ID: "C07", Level: "exploration", Run: runC07,
		Rule: "every history length 0..20 and some larger ones, run for several times that many epochs; after every epoch the set of answerable epochs is determined by asking for each, and ranges of all kinds compared with the model; non-trivial: a state with evicted epochs, distinct by (length, epoch, kept)",
		Need: map[string]int64{"states": 500, "evicted": 500}})
	register(&Property{ID: "C13", Level: "fault_enumeration", Run: runC13,
		Rule: "competing registrations in random order within and across epochs, and every read of randomness in a registration made to fail in turn; non-trivial: a name with at least two attempts, or an injected fault that made a registration fail, distinct by operation list",
		Need: map[string]int64{"competing attempts": 500, "faults injected": 36, "retried after fault": 30}})
}

// ---- C01 ----

func runC01(c *Ctx) {
	for i := 0; i < c.N(60, 600); i++ {
		c.Case(fmt.Sprintf("rand-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 5000, protocol.Timestamp(r.Intn(100)), i%2 == 0)
			n := 60 + r.Intn(120)
			for j := 0; j < n; j++ {
				s.randomOp(false)
			}
			s.finalSweep(false)
			c.Distinct(strings.Join(s.ops, ";"))
			c.Sample("history", "%s", s.trace())
		})
	}
	for i := 0; i < c.N(4, 30); i++ {
		// many epochs, few bindings: every byte of an epoch number matters
		c.Case(fmt.Sprintf("long-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 5000, 1, i%2 == 0)
			for j := 0; j < c.N(300, 1100); j++ {
				if r.Intn(12) == 0 {
					name, key := fmt.Sprintf("n%d", j), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
				}
				s.update()
			}
			s.finalSweep(false)
			c.Distinct(strings.Join(s.ops, ";"))
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(2, 10); i++ {
		// many bindings
		c.Case(fmt.Sprintf("wide-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 100, 1, i%2 == 0)
			for j := 0; j < c.N(800, 4000); j++ {
				name, key := fmt.Sprintf("u%d-%d", i, j), []byte(fmt.Sprintf("key%d", j))
				s.expectRegister(s.register(name, key), name, key)
				if r.Intn(150) == 0 {
					s.update()
				}
			}
			s.update()
			for _, g := range s.order {
				s.expectLookup(s.lookup(g.name), g.name)
				if r.Intn(4) == 0 {
					k := genKey(r)
					s.expectRegister(s.register(g.name, k), g.name, k)
				}
				if r.Intn(4) == 0 {
					s.expectLookup(s.lookup(g.name+"x"), g.name+"x")
				}
			}
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(2, 10); i++ {
		// many promises at once
		c.Case(fmt.Sprintf("mass-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 100, 1, i%2 == 0)
			s.update()
			for e := 0; e < 2; e++ {
				s.mass(fmt.Sprintf("m%d-", e), c.N(330, 2200))
			}
			s.finalSweep(false)
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(12, 120); i++ {
		// with eviction: answers about evicted epochs may be errors
		c.Case(fmt.Sprintf("evict-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, uint64(r.Intn(9)), 1, r.Intn(2) == 0)
			for j := 0; j < 150; j++ {
				s.randomOp(true)
			}
			c.Distinct(strings.Join(s.ops, ";"))
		})
	}
}

// mass registers many names in one epoch and asks for all of them, within the
// epoch and after it.
func (s *sim) mass(prefix string, n int) {
	for j := 0; j < n; j++ {
		name, key := fmt.Sprintf("%s%d", prefix, j), []byte(fmt.Sprintf("key %d", j))
		s.expectRegister(s.register(name, key), name, key)
	}
	ask := func() {
		for j := 0; j < n; j++ {
			name := fmt.Sprintf("%s%d", prefix, j)
			s.expectLookup(s.lookup(name), name)
			if j%3 == 0 {
				k := genKey(s.r)
				s.expectRegister(s.register(name, k), name, k)
			}
		}
	}
	ask()
	s.update()
	ask()
	s.c.Count("registered in one epoch", n)
}

// finalSweep asks everything about every name once more.
func (s *sim) finalSweep(mayEvict bool) {
	s.update()
	names := s.order
	if len(names) > 40 {
		names = names[:40]
	}
	for _, g := range names {
		s.expectLookup(s.lookup(g.name), g.name)
		for _, ep := range []uint64{0, g.epoch, g.epoch + 1, s.epoch} {
			s.expectLookupIn(s.lookupIn(g.name, ep), g.name, ep, mayEvict)
		}
		if s.epoch < 60 || s.r.Intn(8) == 0 {
			s.expectMonitor(s.monitor(g.name, 0, s.epoch), g.name, 0, s.epoch, mayEvict)
		}
		a := g.epoch
		s.expectMonitor(s.monitor(g.name, a, a+1), g.name, a, a+1, mayEvict)
		s.c.Eval(6)
	}
	s.expectHistory(s.history(0, s.epoch), 0, s.epoch, mayEvict)
}

// ---- C02 ----

type follower struct {
	cc   *client.ConsistencyChecks
	keys map[string][]byte
}

func runC02(c *Ctx) {
	for i := 0; i < c.N(40, 400); i++ {
		c.Case(fmt.Sprintf("follow-%d", i), func(r *rand.Rand) { c02case(c, r, i%3 != 0, 10+r.Intn(25), 1+r.Intn(8)) })
	}
	for i := 0; i < c.N(1, 4); i++ {
		c.Case(fmt.Sprintf("long-%d", i), func(r *rand.Rand) { c02case(c, r, true, c.N(300, 700), 2) })
	}
	c.Case("busy", func(r *rand.Rand) { c02case(c, r, true, 3, c.N(250, 1500)) })
	c.Case("deep", func(r *rand.Rand) { c02deep(c, r) })
}

// wireSTR is a root after a trip over the wire.
func wireSTR(str *protocol.DirSTR) *protocol.DirSTR {
	return wireRange([]*protocol.DirSTR{str})[0]
}

func c02case(c *Ctx, r *rand.Rand, wire bool, epochs, perEpoch int) {
	s := newSim(c, r, 5000, protocol.Timestamp(r.Intn(3600)), wire)
	initSTR := func() *protocol.DirSTR {
		if wire {
			return wireSTR(s.d.LatestSTR())
		}
		return s.d.LatestSTR()
	}
	fs := []*follower{}
	for k := 0; k < 3; k++ {
		fs = append(fs, &follower{client.New(initSTR(), true, s.signPK), map[string][]byte{}})
	}
	aud := auditor.New(s.signPK, initSTR())
	log := auditlog.New()
	c.Must(log.InitHistory("dir", s.signPK, []*protocol.DirSTR{initSTR()}))
	dirID := auditor.ComputeDirectoryIdentity(initSTR())
	lastAudited := uint64(0)
	incl, prom := false, false
	for e := 0; e < epochs; e++ {
		for _, f := range fs {
			n := 1 + r.Intn(perEpoch)
			for j := 0; j < n; j++ {
				name := s.pickName()
				if r.Intn(2) == 0 {
					key := genKey(r)
					if g := s.regs[name]; g != nil && r.Intn(2) == 0 {
						key = g.key
					}
					res := s.register(name, key)
					s.expectRegister(res, name, key)
					held := s.regs[name].key
					err := f.cc.HandleResponse(protocol.RegistrationType, res, name, key)
					if !bytes.Equal(held, key) {
						s.check(err == protocol.CheckBindingsDiffer, "client of an honest directory",
							"registering a taken name with another key: %v", err)
						c.Count("taken", 1)
						continue
					}
					s.check(err == nil, "client rejects an honest answer", "registration of %q: %v", name, err)
					f.accepted(s, name)
					if proofOf(res).TB != nil {
						prom = true
					}
				} else {
					var key []byte
					if k, ok := f.cc.Bindings[name]; ok {
						key = k
					} else if g := s.regs[name]; g != nil && r.Intn(3) == 0 {
						key = g.key // known from elsewhere
					}
					res := s.lookup(name)
					s.expectLookup(res, name)
					err := f.cc.HandleResponse(protocol.KeyLookupType, res, name, key)
					s.check(err == nil, "client rejects an honest answer", "lookup of %q: %v", name, err)
					f.accepted(s, name)
					if s.boundAt(name, s.epoch) != nil {
						incl = true
					}
				}
				c.Eval(1)
			}
		}
		// answers the client does not handle yet, checked by its building blocks
		for j := 0; j < 2; j++ {
			name := s.pickName()
			a, b := uint64(r.Int63n(int64(s.epoch+1))), s.epoch
			if s.epoch > 20 {
				a = s.epoch - uint64(r.Intn(20))
			}
			var p *protocol.DirectoryProof
			if j == 0 {
				res := s.monitor(name, a, b)
				s.expectMonitor(res, name, a, b, false)
				p = proofOf(res)
			} else {
				res := s.lookupIn(name, a)
				s.expectLookupIn(res, name, a, false)
				p = proofOf(res)
			}
			for i, str := range p.STR {
				s.verifySTR(str, a+uint64(i))
				if i < len(p.AP) {
					s.verifyAP(p.AP[i], name, a+uint64(i), str)
				}
			}
		}
		if r.Intn(3) == 0 || e == epochs-1 {
			from := lastAudited
			if r.Intn(2) == 0 && s.epoch > lastAudited {
				from++
			}
			res := s.history(from, s.epoch)
			s.expectHistory(res, from, s.epoch, false)
			strs := res.DirectoryResponse.(*protocol.STRHistoryRange).STR
			err := aud.AuditDirectory(strs)
			s.check(err == nil, "auditor rejects an honest range", "%d..%d: %v", from, s.epoch, err)
			aud.Update(strs[len(strs)-1])
			err = log[dirID].Audit(res)
			s.check(err == nil, "audit log rejects an honest range", "%d..%d: %v", from, s.epoch, err)
			lastAudited = s.epoch
			c.Count("accepted by auditor", len(strs))
			// and clients compare with the auditor
			ar := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: dirID,
				StartEpoch: uint64(r.Int63n(int64(s.epoch + 1))), EndEpoch: s.epoch})
			for _, f := range fs {
				if f.cc.VerifiedSTR().Epoch == s.epoch {
					err := f.cc.CheckEquivocation(ar)
					s.check(err == nil, "client reports equivocation of an honest directory", "%v", err)
					c.Count("equivocation checks", 1)
				}
			}
		}
		if r.Intn(5) == 0 {
			s.setPolicies(protocol.Timestamp(r.Intn(5000)))
		}
		s.update()
	}
	if incl && prom {
		c.Distinct(strings.Join(s.ops, ";"))
	}
	c.Sample("history", "%s", s.trace())
}

func (f *follower) accepted(s *sim, name string) {
	s.c.Count("accepted by client", 1)
	got, ok := f.cc.Bindings[name]
	if g := s.regs[name]; g != nil {
		s.check(ok && bytes.Equal(got, g.key), "client's key after a verified answer",
			"%q: client has %x (known: %v), directory has %x", name, clipB(got), ok, clipB(g.key))
		s.c.Count("key known", 1)
	} else {
		s.check(!ok, "client's key after a verified answer", "%q is unregistered, the client has %x", name, clipB(got))
	}
	s.check(f.cc.VerifiedSTR().Epoch == s.epoch && bytes.Equal(f.cc.VerifiedSTR().Signature, s.strs[s.epoch].Signature),
		"client's verified root", "is %s", strString(f.cc.VerifiedSTR()))
}

// verifySTR checks a root with the code's verification and the reference.
func (s *sim) verifySTR(str *protocol.DirSTR, ep uint64) {
	s.check(s.signPK.Verify(str.Serialize(), str.Signature), "signature of an honest root does not verify", "%s", strString(str))
	s.check(refSTRSigned(str, s.signPK), "signature of an honest root does not verify (reference)", "%s", strString(str))
	if ep > 0 {
		s.check(str.VerifyHashChain(s.strs[ep-1]), "hash chain of honest roots does not verify", "%s", strString(str))
		s.check(refLinks(s.strs[ep-1], str), "hash chain of honest roots does not verify (reference)", "%s", strString(str))
	}
	s.c.Count("reference verified", 1)
}

func (s *sim) verifyAP(ap *merkletree.AuthenticationPath, name string, ep uint64, str *protocol.DirSTR) {
	s.check(str.Policies.VrfPublicKey.Verify([]byte(name), ap.LookupIndex, ap.VrfProof),
		"index proof of an honest answer does not verify", "%q", name)
	var key []byte
	if g := s.boundAt(name, ep); g != nil {
		key = g.key
	}
	err := ap.Verify([]byte(name), key, str.TreeHash)
	s.check(err == nil, "honest path does not verify", "%q in %d: %v", name, ep, err)
	ok, incl, val := refVerify(ap, s.idx(name), name, str.TreeHash)
	s.check(ok && incl == (key != nil) && bytes.Equal(val, key), "honest path does not verify (reference)", "%q in %d", name, ep)
	s.c.Count("reference verified", 1)
}

// c02deep uses names whose private indices share long prefixes.
func c02deep(c *Ctx, r *rand.Rand) {
	for k, fx := range deepFixtures() {
		s := fx.sim(c, r, true)
		cc := client.New(wireSTR(s.d.LatestSTR()), true, s.signPK)
		for round := 0; round < 2; round++ {
			for i, n := range fx.names {
				if i%2 == round {
					key := []byte(fmt.Sprintf("key of %s", n))
					res := s.register(n, key)
					s.expectRegister(res, n, key)
					s.check(cc.HandleResponse(protocol.RegistrationType, res, n, key) == nil, "client rejects an honest answer", "register %q", n)
				}
			}
			s.update()
			for _, n := range fx.names {
				res := s.lookup(n)
				s.expectLookup(res, n)
				err := cc.HandleResponse(protocol.KeyLookupType, res, n, cc.Bindings[n])
				s.check(err == nil, "client rejects an honest answer", "lookup %q: %v", n, err)
				s.verifyAP(proofOf(res).AP[0], n, s.epoch, s.strs[s.epoch])
				c.Eval(1)
			}
		}
		_ = k
	}
}

// ---- C03 ----

func runC03(c *Ctx) {
	for i := 0; i < c.N(40, 400); i++ {
		c.Case(fmt.Sprintf("rand-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 1000, 1, false)
			epochs := 1 + r.Intn(6)
			per := []int{0, 1, 2, 3, 8, 30}[r.Intn(6)]
			s.c03compare()
			for e := 0; e < epochs; e++ {
				for j := 0; j < per; j++ {
					name, key := s.pickName(), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
					if r.Intn(5) == 0 { // reads between writes
						n := s.pickName()
						s.expectLookup(s.lookup(n), n)
					}
				}
				s.update()
				s.c03compare()
			}
			s.c03old()
		})
	}
	for i := 0; i < c.N(2, 12); i++ {
		c.Case(fmt.Sprintf("wide-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 100, 1, false)
			n := c.N(1000, 5000)
			for j := 0; j < n; j++ {
				name, key := fmt.Sprintf("w%d", j), []byte{byte(j), byte(j >> 8)}
				s.expectRegister(s.register(name, key), name, key)
				if j%(n/3) == 1 {
					s.update()
				}
			}
			s.update()
			s.c03compare()
		})
	}
	for k, fx := range deepFixtures() {
		for i := 0; i < c.N(4, 20); i++ {
			c.Case(fmt.Sprintf("deep-%d-%d", k, i), func(r *rand.Rand) {
				s := fx.sim(c, r, false)
				names := append([]string(nil), fx.names...)
				r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
				for j, n := range names {
					key := genKey(r)
					s.expectRegister(s.register(n, key), n, key)
					if r.Intn(4) == 0 || j == len(names)-1 {
						s.update()
						s.c03compare(names...)
					}
				}
			})
		}
	}
	c03crafted(c)
}

// c03compare compares the latest root and paths with the reference tree.
func (s *sim) c03compare(extra ...string) {
	leaves, nonce := s.leaves(s.epoch)
	s.check(len(nonce) == 32, "tree nonce", "has %d bytes", len(nonce))
	t := newRefTree(nonce, leaves)
	root := t.root()
	s.check(bytes.Equal(root, s.strs[s.epoch].TreeHash), "root differs from the specified tree",
		"epoch %d with %d bindings: %x, specified %x", s.epoch, len(leaves), s.strs[s.epoch].TreeHash, root)
	s.c.Count("roots compared", 1)
	if len(leaves) > 1 {
		s.c.Distinct(root)
	}
	names := append([]string(nil), extra...)
	for i := 0; i < 12; i++ {
		names = append(names, s.pickName())
	}
	for i := 0; i < 20 && len(s.order) > 0; i++ {
		names = append(names, s.order[s.r.Intn(len(s.order))].name)
	}
	for i := 0; i < 10; i++ {
		names = append(names, fmt.Sprintf("absent%d", s.r.Int()))
	}
	for _, n := range names {
		if n == "" {
			continue
		}
		p := proofOf(dispatch(s.d, 0, &protocol.KeyLookupRequest{Username: n}))
		s.check(p != nil && len(p.AP) == 1, "lookup fails", "%q", n)
		s.comparePath(t, nonce, n, p.AP[0])
		s.c.Eval(1)
	}
	if len(leaves) > 0 {
		s.c.Sample("tree", "epoch %d, %d bindings, depth %d, root %x", s.epoch, len(leaves), t.depth, root[:8])
	}
}

func (s *sim) comparePath(t *refTree, nonce []byte, n string, ap *merkletree.AuthenticationPath) {
	idx := s.idx(n)
	level, sib, leaf := t.proof(idx)
	s.compareIdx(t, nonce, idx, ap, level, sib, leaf)
}

func (s *sim) compareIdx(t *refTree, nonce, idx []byte, ap *merkletree.AuthenticationPath, level int, sib [][]byte, leaf *refLeaf) {
	const what = "path differs from the specified tree"
	n := fmt.Sprintf("index %x", clipB(idx))
	s.check(bytes.Equal(ap.TreeNonce, nonce), what, "nonce")
	s.check(ap.Leaf != nil && int(ap.Leaf.Level) == level, what, "%s: level %d, specified %d", n, ap.Leaf.Level, level)
	s.check(len(ap.PrunedTree) == level, what, "%s: %d siblings at level %d", n, len(ap.PrunedTree), level)
	for i := range sib {
		s.check(bytes.Equal(ap.PrunedTree[i][:], sib[i]), what, "%s: sibling %d of %d", n, i, level)
	}
	if leaf == nil {
		s.check(ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, prefixBytes(idx, level)), what,
			"%s: expected an empty branch with prefix %x, got empty=%v %x", n, prefixBytes(idx, level), ap.Leaf.IsEmpty, ap.Leaf.Index)
		s.check(ap.Leaf.Commitment == nil && ap.Leaf.Value == nil, what, "%s: an empty branch with contents", n)
	} else {
		s.check(!ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, leaf.index) && ap.Leaf.Commitment != nil &&
			bytes.Equal(ap.Leaf.Commitment.Value, leaf.commit), what, "%s: another leaf", n)
		if !bytes.Equal(idx, leaf.index) {
			s.check(ap.Leaf.Value == nil && ap.Leaf.Commitment.Salt == nil, what, "%s: proof of absence opens the leaf", n)
		}
	}
	s.c.Count("paths compared", 1)
}

// c03old compares every epoch's root again, at the end.
func (s *sim) c03old() {
	for ep := uint64(0); ep <= s.epoch; ep++ {
		leaves, nonce := s.leaves(ep)
		root := newRefTree(nonce, leaves).root()
		s.check(bytes.Equal(root, s.strs[ep].TreeHash), "root of an earlier epoch differs from its tree", "epoch %d", ep)
		s.c.Count("roots compared", 1)
	}
}

// ---- C05 ----

type heldAnswer struct {
	ep   uint64
	name string
	res  *protocol.Response
	json string
}

func stripVRF(p *protocol.DirectoryProof) string {
	q := &protocol.DirectoryProof{STR: p.STR, TB: p.TB}
	for _, ap := range p.AP {
		a := &merkletree.AuthenticationPath{TreeNonce: ap.TreeNonce, PrunedTree: ap.PrunedTree, LookupIndex: ap.LookupIndex, Leaf: ap.Leaf}
		q.AP = append(q.AP, a)
	}
	return jsonOf(q)
}

func runC05(c *Ctx) {
	for i := 0; i < c.N(30, 300); i++ {
		c.Case(fmt.Sprintf("rand-%d", i), func(r *rand.Rand) {
			hist := uint64(1000)
			if i%3 == 0 {
				hist = uint64(3 + r.Intn(6))
			}
			s := newSim(c, r, hist, 1, false)
			s.c05(c, r, 8+r.Intn(8), nil)
		})
	}
	for k, fx := range deepFixtures() {
		c.Case(fmt.Sprintf("deep-%d", k), func(r *rand.Rand) {
			s := fx.sim(c, r, false)
			s.c05(c, r, 10, fx.names)
		})
	}
}

func (s *sim) c05(c *Ctx, r *rand.Rand, epochs int, pool []string) {
	type key struct {
		ep   uint64
		name string
	}
	recorded := map[key]string{}
	var held []heldAnswer
	commits := map[string]string{}
	pick := func() string {
		if len(pool) > 0 && r.Intn(2) == 0 {
			return pool[r.Intn(len(pool))]
		}
		return s.pickName()
	}
	read := func(name string, ep uint64) (string, bool) {
		res := dispatch(s.d, 0, &protocol.KeyLookupInEpochRequest{Username: name, Epoch: ep})
		if res.Error == protocol.ErrDirectory {
			return "", false // evicted
		}
		p := proofOf(res)
		s.check(p != nil && len(p.AP) == 1 && len(p.STR) > 0, "past lookup fails", "%q in %d: %d", name, ep, res.Error)
		ap := p.AP[0]
		if g := s.boundAt(name, ep); g != nil {
			s.check(ap.Leaf != nil && bytes.Equal(ap.Leaf.Value, g.key), "a binding disappears or changes",
				"%q registered in %d, asked in %d", name, g.epoch, ep)
			cm := jsonOf(ap.Leaf.Commitment)
			if old, ok := commits[name]; ok {
				s.check(cm == old, "the commitment of a binding changes", "%q: %s, was %s", name, cm, old)
			}
			commits[name] = cm
		} else {
			s.check(ap.Leaf != nil && !bytes.Equal(ap.LookupIndex, ap.Leaf.Index), "a binding appears in an earlier epoch", "%q in %d", name, ep)
		}
		return stripVRF(&protocol.DirectoryProof{AP: p.AP, STR: p.STR[:1]}), true
	}
	hold := func(name string, res *protocol.Response) {
		if len(held) < 60 || r.Intn(10) == 0 {
			held = append(held, heldAnswer{s.epoch, name, res, jsonOf(res)})
		}
	}
	verify := func(full bool) {
		for k, old := range recorded {
			if !full && r.Intn(4) > 0 {
				continue
			}
			now, ok := read(k.name, k.ep)
			if !ok {
				continue
			}
			s.check(now == old, "the answer about a published epoch changes", "%q in epoch %d:\nwas %s\nnow %s", k.name, k.ep, clip(old, 1200), clip(now, 1200))
			c.Count("re-reads", 1)
			c.Distinct(s.strs[k.ep].TreeHash, k.name, len(s.order), s.epoch)
		}
		for _, h := range held {
			s.check(jsonOf(h.res) == h.json, "an answer already given changes", "%q asked in epoch %d", h.name, h.ep)
			c.Count("held answers compared", 1)
		}
		for ep, str := range s.strs {
			res := dispatch(s.d, 0, &protocol.STRHistoryRequest{StartEpoch: uint64(ep), EndEpoch: uint64(ep)})
			if h, ok := res.DirectoryResponse.(*protocol.STRHistoryRange); ok && h != nil {
				s.check(len(h.STR) == 1 && sameSTR(h.STR[0], str), "a published root changes", "epoch %d", ep)
			}
		}
		c.Eval(1)
	}
	for e := 0; e < epochs; e++ {
		changed := false
		n := r.Intn(10)
		quiet := r.Intn(3) == 0 // an epoch with only reads and failures
		if e > 0 {
			for j := 0; j < n; j++ {
				name, k := pick(), genKey(r)
				if quiet {
					switch {
					case r.Intn(3) == 0 && len(s.order) > 0:
						name = s.order[r.Intn(len(s.order))].name
					case r.Intn(2) == 0:
						k = nil
					default:
						name = ""
					}
				}
				fresh := s.regs[name] == nil && name != "" && len(k) > 0
				res := s.register(name, k)
				s.expectRegister(res, name, k)
				hold(name, res)
				changed = changed || fresh
				s.logf("reads")
				for q := 0; q < 3; q++ {
					nm := pick()
					hold(nm, s.lookup(nm))
					s.monitor(nm, s.pickEpoch(), s.pickEpoch())
					s.lookupIn(nm, s.pickEpoch())
				}
				if r.Intn(6) == 0 {
					entropy.setFail(func(int64) bool { return true })
					nm := fmt.Sprintf("fails%d-%d", e, j)
					res := s.register(nm, []byte("k"))
					entropy.setFail(nil)
					s.check(res.Error != protocol.ReqSuccess, "registration without randomness", "succeeds")
				}
				if j%3 == 0 {
					verify(false)
				}
			}
		}
		if r.Intn(6) == 0 {
			s.setPolicies(protocol.Timestamp(r.Intn(100)))
		}
		before := s.strs[s.epoch].TreeHash
		s.update()
		if !changed {
			s.check(bytes.Equal(before, s.strs[s.epoch].TreeHash), "a failed or reading request changes the root",
				"epoch %d had no accepted registration", s.epoch-1)
			c.Count("unchanged roots", 1)
		}
		// record the new epoch
		for j := 0; j < 10; j++ {
			name := pick()
			if len(s.order) > 0 && r.Intn(2) == 0 {
				name = s.order[r.Intn(len(s.order))].name
			}
			if name == "" {
				continue
			}
			if v, ok := read(name, s.epoch); ok {
				if old, have := recorded[key{s.epoch, name}]; have {
					s.check(old == v, "two reads of one epoch differ", "%q", name)
				}
				recorded[key{s.epoch, name}] = v
			}
			hold(name, dispatch(s.d, 0, &protocol.KeyLookupRequest{Username: name}))
		}
		verify(e == epochs-1)
	}
	c.Sample("history", "%s", s.trace())
}

// ---- C06 ----

func runC06(c *Ctx) {
	for i := 0; i < c.N(30, 300); i++ {
		c.Case(fmt.Sprintf("rand-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, []uint64{1000, 3, 0}[i%3], protocol.Timestamp(r.Uint64()), false)
			n := 15 + r.Intn(15)
			s.c06root(r, 0, nil)
			for e := 0; e < n; e++ {
				for j := r.Intn(4); j > 0; j-- {
					name, key := s.pickName(), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
					s.c06stable()
				}
				if r.Intn(3) == 0 {
					s.setPolicies(protocol.Timestamp(r.Uint64()))
					s.c06stable()
				}
				if r.Intn(4) == 0 {
					s.lookup(s.pickName())
					s.monitor(s.pickName(), 0, s.epoch)
					s.c06stable()
				}
				prev := s.strs[s.epoch]
				s.update()
				s.c06root(r, s.epoch, prev)
			}
			c.Sample("history", "%s", s.trace())
		})
	}
	c.Case("long", func(r *rand.Rand) {
		s := newSim(c, r, 40, 1, false)
		for e := 0; e < c.N(700, 70000); e++ {
			prev := s.strs[s.epoch]
			s.update()
			if len(s.ops) > 500 {
				s.ops = s.ops[:0]
			}
			if e%50 == 0 || e > 250 && e < 260 {
				s.c06root(r, s.epoch, prev)
			} else {
				str := s.strs[s.epoch]
				s.check(str.Epoch == s.epoch && refLinks(prev, str) && refSTRSigned(str, s.signPK), "root does not extend its predecessor",
					"%s after %s", strString(str), strString(prev))
				c.Count("roots", 1)
				c.Eval(1)
			}
		}
	})
}

// c06stable: between epochs, the latest root is the one published.
func (s *sim) c06stable() {
	s.check(sameSTR(s.d.LatestSTR(), s.strs[s.epoch]), "one epoch has two roots", "%s and %s",
		strString(s.d.LatestSTR()), strString(s.strs[s.epoch]))
	s.c.Count("stable", 1)
}

func (s *sim) c06root(r *rand.Rand, ep uint64, prev *protocol.DirSTR) {
	str := s.strs[ep]
	const what = "published root breaks the chain"
	s.check(str != nil && str.Epoch == ep, what, "epoch %d after %d", str.Epoch, ep)
	s.check(refSTRSigned(str, s.signPK), what, "bad signature: %s", strString(str))
	s.check(len(str.TreeHash) == 32 && len(str.Signature) == 64 && len(str.PreviousSTRHash) == 32, what, "sizes: %s", strString(str))
	if prev != nil {
		s.check(refLinks(prev, str), what, "%s does not link to %s", strString(str), strString(prev))
		s.check(str.VerifyHashChain(prev), what, "VerifyHashChain refuses %s after %s", strString(str), strString(prev))
	} else {
		s.check(str.PreviousEpoch == 0, what, "first root has previous epoch %d", str.PreviousEpoch)
	}
	s.check(bytes.Equal(str.Policies.VrfPublicKey, s.vrfPK) && str.Policies.HashID == crypto.HashID, what, "policies %+v", str.Policies)
	live := s.d.LatestSTR()
	s.check(s.signPK.Verify(live.Serialize(), live.Signature), what, "Serialize differs from what was signed")
	s.check(bytes.Equal(live.Serialize(), refSTRBytes(live)), what, "Serialize differs from the specified encoding")
	s.check(bytes.Equal(live.SignedTreeRoot.Serialize(), refSTRBytes(live)), what, "SignedTreeRoot.Serialize differs from the specified encoding")
	s.c.Count("roots", 1)
	s.c.Eval(1)
	if ep > 0 {
		s.c.Distinct(str.Signature)
	}
	// alterations
	if prev == nil {
		prev = str
	}
	for _, m := range alterSTR(r, str) {
		// What an altered root verifies as: its parts are checked, then the
		// signature.
		verifies := m.str.Validate() == nil && s.signPK.Verify(m.str.Serialize(), m.str.Signature)
		if ep == 0 && m.moved {
			if verifies {
				s.c.Finding("first-root-boundaries", "%s of %s: now %s", m.what, strString(str), strString(m.str))
			}
			continue
		}
		s.check(!verifies, "an altered root verifies", "%s of %s", m.what, strString(str))
		aud := auditor.New(s.signPK, copySTR(prev))
		err := aud.AuditDirectory([]*protocol.DirSTR{m.str})
		s.check(err != nil, "an altered root is accepted", "%s of %s", m.what, strString(str))
		s.c.Count("alterations", 1)
	}
	if _, other, _, _ := newKeys(r); refSTRSigned(str, other) {
		s.fail(what, "verifies under another key")
	}
}

type alteredSTR struct {
	what  string
	str   *protocol.DirSTR
	moved bool // bytes moved across the boundary of two hashes
}

func flip(r *rand.Rand, b []byte) []byte {
	if len(b) == 0 {
		return []byte{1}
	}
	o := append([]byte(nil), b...)
	o[r.Intn(len(o))] ^= 1 << uint(r.Intn(8))
	return o
}

// alterSTR returns copies with one signed field (or the signature) altered.
func alterSTR(r *rand.Rand, str *protocol.DirSTR) []alteredSTR {
	var out []alteredSTR
	add := func(what string, f func(s *protocol.DirSTR)) {
		s := copySTR(str)
		f(s)
		out = append(out, alteredSTR{what, s, strings.HasPrefix(what, "moved hash")})
	}
	add("Epoch", func(s *protocol.DirSTR) { s.Epoch ^= 1 << uint(r.Intn(64)) })
	add("PreviousEpoch", func(s *protocol.DirSTR) { s.PreviousEpoch ^= 1 << uint(r.Intn(64)) })
	add("TreeHash", func(s *protocol.DirSTR) { s.TreeHash = flip(r, s.TreeHash) })
	add("TreeHash truncated", func(s *protocol.DirSTR) { s.TreeHash = s.TreeHash[:31] })
	add("PreviousSTRHash", func(s *protocol.DirSTR) { s.PreviousSTRHash = flip(r, s.PreviousSTRHash) })
	add("PreviousSTRHash empty", func(s *protocol.DirSTR) { s.PreviousSTRHash = nil })
	add("Signature", func(s *protocol.DirSTR) { s.Signature = flip(r, s.Signature) })
	add("Signature truncated", func(s *protocol.DirSTR) { s.Signature = s.Signature[:63] })
	add("Signature empty", func(s *protocol.DirSTR) { s.Signature = nil })
	add("Version", func(s *protocol.DirSTR) { s.Policies.Version += "x" })
	add("HashID", func(s *protocol.DirSTR) { s.Policies.HashID = "SHA3" })
	add("HashID case", func(s *protocol.DirSTR) { s.Policies.HashID = strings.ToLower(s.Policies.HashID) })
	add("VrfPublicKey", func(s *protocol.DirSTR) { s.Policies.VrfPublicKey = flip(r, s.Policies.VrfPublicKey) })
	add("EpochDeadline", func(s *protocol.DirSTR) { s.Policies.EpochDeadline ^= 1 << uint(r.Intn(64)) })
	// bytes moved across the boundary of two neighbouring fields, so that
	// their concatenation stays the same
	add("moved from Version to HashID", func(s *protocol.DirSTR) {
		n := 1 + r.Intn(len(s.Policies.Version))
		s.Policies.HashID = s.Policies.Version[len(s.Policies.Version)-n:] + s.Policies.HashID
		s.Policies.Version = s.Policies.Version[:len(s.Policies.Version)-n]
	})
	add("moved from HashID to Version", func(s *protocol.DirSTR) {
		n := 1 + r.Intn(len(s.Policies.HashID))
		s.Policies.Version += s.Policies.HashID[:n]
		s.Policies.HashID = s.Policies.HashID[n:]
	})
	add("moved from HashID to VrfPublicKey", func(s *protocol.DirSTR) {
		n := len(s.Policies.HashID) - 1
		s.Policies.VrfPublicKey = append([]byte(s.Policies.HashID[n:]), s.Policies.VrfPublicKey...)
		s.Policies.HashID = s.Policies.HashID[:n]
	})
	add("moved from VrfPublicKey to HashID", func(s *protocol.DirSTR) {
		s.Policies.HashID += string(s.Policies.VrfPublicKey[:1])
		s.Policies.VrfPublicKey = s.Policies.VrfPublicKey[1:]
	})
	add("moved hash: TreeHash to PreviousSTRHash", func(s *protocol.DirSTR) {
		n := r.Intn(32)
		s.PreviousSTRHash = append(dup(s.TreeHash[n:]), s.PreviousSTRHash...)
		s.TreeHash = s.TreeHash[:n]
	})
	add("moved hash: PreviousSTRHash to TreeHash", func(s *protocol.DirSTR) {
		n := 1 + r.Intn(32)
		s.TreeHash = append(s.TreeHash, s.PreviousSTRHash[:n]...)
		s.PreviousSTRHash = s.PreviousSTRHash[n:]
	})
	add("moved hash: PreviousSTRHash to Version", func(s *protocol.DirSTR) {
		n := r.Intn(32)
		s.Policies.Version = string(s.PreviousSTRHash[n:]) + s.Policies.Version
		s.PreviousSTRHash = s.PreviousSTRHash[:n]
	})
	// the concatenation of all fields cut in other places
	for i := 0; i < 6; i++ {
		add("moved hash: other cuts", func(s *protocol.DirSTR) {
			fields := [][]byte{s.TreeHash, s.PreviousSTRHash, []byte(s.Policies.Version), []byte(s.Policies.HashID), s.Policies.VrfPublicKey}
			all := bytes.Join(fields, nil)
			var cuts [4]int
			at := 0
			for k := range cuts {
				at += len(fields[k])
				cuts[k] = at
			}
			old := cuts
			for cuts == old {
				shift := 1 + r.Intn(40)
				if r.Intn(2) == 0 {
					shift = -shift
				}
				for k := range cuts {
					if r.Intn(2) == 0 {
						cuts[k] = old[k] + shift
					}
					if cuts[k] < 0 || cuts[k] > len(all) {
						cuts[k] = old[k]
					}
				}
				sort.Ints(cuts[:])
			}
			s.TreeHash, s.PreviousSTRHash = dup(all[:cuts[0]]), dup(all[cuts[0]:cuts[1]])
			s.Policies.Version, s.Policies.HashID = string(all[cuts[1]:cuts[2]]), string(all[cuts[2]:cuts[3]])
			s.Policies.VrfPublicKey = dup(all[cuts[3]:])
		})
	}
	add("swapped hashes", func(s *protocol.DirSTR) { s.TreeHash, s.PreviousSTRHash = s.PreviousSTRHash, s.TreeHash })
	return out
}

// ---- C07 ----

func runC07(c *Ctx) {
	lengths := []uint64{}
	for h := uint64(0); h <= 20; h++ {
		lengths = append(lengths, h)
	}
	lengths = append(lengths, 31, 64)
	if c.Thorough() {
		for h := uint64(21); h <= 80; h++ {
			lengths = append(lengths, h)
		}
		lengths = append(lengths, 255, 256, 257, 1000)
	}
	for _, h := range lengths {
		c.Case(fmt.Sprintf("len-%d", h), func(r *rand.Rand) {
			s := newSim(c, r, h, 1, h%2 == 0)
			n := int(3*h) + 12
			for e := 0; e < n; e++ {
				if r.Intn(2) == 0 && len(s.order) < 60 {
					name, key := fmt.Sprintf("e%d", e), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
				}
				s.update()
				s.c07state(e%5 == 0)
			}
			for _, g := range s.order {
				s.expectLookup(s.lookup(g.name), g.name)
			}
			c.Sample("length", "%d: %s", h, s.trace())
		})
	}
	for _, h := range []uint64{1 << 59, 1<<60 + 1, math.MaxInt64, math.MaxUint64} {
		// lengths that can't be allocated up front
		c.Case(fmt.Sprintf("huge-%d", h), func(r *rand.Rand) {
			s := newSim(c, r, h, 1, h%2 == 0)
			for e := 0; e < 40; e++ {
				if r.Intn(2) == 0 {
					name, key := fmt.Sprintf("e%d", e), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
				}
				s.update()
				s.c07state(e%5 == 0)
			}
		})
	}
	for _, h := range []uint64{300, 600} {
		// long histories, where epoch numbers and lengths of ranges need
		// more than a byte
		c.Case(fmt.Sprintf("long-%d", h), func(r *rand.Rand) {
			s := newSim(c, r, h, 1, false)
			marks := map[uint64]bool{h / 2: true, h - 1: true, h: true, h + 1: true, h + h/2: true, 2*h + 5: true, 255: true, 256: true, 257: true}
			for e := uint64(0); e < 2*h+5; e++ {
				if e%97 == 3 {
					name, key := fmt.Sprintf("e%d", e), genKey(r)
					s.expectRegister(s.register(name, key), name, key)
				}
				s.update()
				if marks[s.epoch] {
					s.c07long()
				}
			}
			c.Sample("length", "%d: %s", h, s.trace())
		})
	}
}

// c07long finds the oldest epoch kept by the answers about single roots and
// compares wide ranges.
func (s *sim) c07long() {
	const what = "kept history"
	oldest := s.epoch + 1
	for ep := s.epoch + 1; ep > 0; ep-- {
		if s.expectHistory(s.history(ep-1, ep-1), ep-1, ep-1, true) {
			s.check(oldest == ep, what, "epoch %d is answered, %d is not", ep-1, oldest-1)
			oldest = ep - 1
		}
	}
	kept := s.epoch - oldest + 1
	s.check(kept <= s.hist, what, "%d epochs are kept, %d configured", kept, s.hist)
	s.check(kept >= min(s.hist/2, s.epoch+1), what, "only %d of %d epochs are kept with %d configured", kept, s.epoch+1, s.hist)
	name := "nobody"
	if len(s.order) > 0 {
		name = s.order[s.r.Intn(len(s.order))].name
	}
	for _, a := range []uint64{oldest, oldest + 1, (oldest + s.epoch) / 2} {
		if a > s.epoch {
			continue
		}
		for _, b := range []uint64{s.epoch, s.epoch + 9, (a + s.epoch) / 2} {
			ok := s.expectHistory(s.history(a, b), a, b, true)
			s.check(ok, what, "history %d..%d isn't answered, oldest kept is %d", a, b, oldest)
		}
	}
	ok := s.expectMonitor(s.monitor(name, oldest, s.epoch), name, oldest, s.epoch, true)
	s.check(ok, what, "monitoring %d..%d isn't answered", oldest, s.epoch)
	ok = s.expectLookupIn(s.lookupIn(name, oldest), name, oldest, true)
	s.check(ok, what, "a lookup in %d isn't answered", oldest)
	if oldest > 0 {
		s.check(!s.expectHistory(s.history(oldest-1, s.epoch), oldest-1, s.epoch, true), what, "a range from before %d is answered", oldest)
		s.c.Distinct(s.hist, s.epoch, kept)
	}
	s.c.Count("states", 1)
	s.c.Eval(1)
}

func (s *sim) c07state(full bool) {
	const what = "kept history"
	s.check(sameSTR(s.d.LatestSTR(), s.strs[s.epoch]), what, "the latest root changed")
	oldest := s.epoch + 1
	name := "nobody"
	if len(s.order) > 0 {
		name = s.order[s.r.Intn(len(s.order))].name
	}
	lo := uint64(0)
	if s.hist < 1<<32 && s.epoch > 3*s.hist+30 {
		lo = s.epoch - 3*s.hist - 30
	}
	for ep := s.epoch + 1; ep > lo; ep-- {
		e := ep - 1
		ok := s.expectLookupIn(s.lookupIn(name, e), name, e, true)
		if ok {
			s.check(oldest == e+1, what, "epoch %d is answered, %d is not", e, oldest-1)
			oldest = e
		}
	}
	kept := s.epoch - oldest + 1
	max := s.hist
	if max < 2 {
		max = 2
	}
	s.check(kept >= 1 && kept <= max, what, "%d epochs are kept, %d configured", kept, s.hist)
	min := s.hist / 2
	if s.epoch+1 < min {
		min = s.epoch + 1
	}
	s.check(kept >= min, what, "only %d of %d epochs are kept with %d configured", kept, s.epoch+1, s.hist)
	s.c.Count("states", 1)
	s.c.Eval(1)
	if oldest > 0 {
		s.c.Distinct(s.hist, s.epoch, kept)
	}
	// ranges
	n := 6
	if full {
		n = 25
	}
	for i := 0; i < n; i++ {
		a, b := s.pickEpoch(), s.pickEpoch()
		switch s.r.Intn(4) {
		case 0:
			a = oldest
		case 1:
			if oldest > 0 {
				a = oldest - 1
			}
		}
		valid := a <= s.epoch && a <= b
		okM := s.expectMonitor(s.monitor(name, a, b), name, a, b, true)
		okH := s.expectHistory(s.history(a, b), a, b, true)
		if valid {
			s.check(okM == (a >= oldest), what, "monitoring %d..%d: answered=%v, oldest kept is %d", a, b, okM, oldest)
			s.check(okH == (a >= oldest), what, "history %d..%d: answered=%v, oldest kept is %d", a, b, okH, oldest)
		}
	}
	s.expectLookup(s.lookup(name), name)
}

// ---- C13 ----

func runC13(c *Ctx) {
	for i := 0; i < c.N(40, 400); i++ {
		c.Case(fmt.Sprintf("compete-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 1000, 1, i%2 == 0)
			names := []string{}
			for j := 0; j < 6; j++ {
				names = append(names, genName(r, s.wire))
			}
			names = append(names, names[0]+"\x00", names[0]+" ", strings.ToUpper(names[0]))
			tried := map[string]int{}
			for e := 0; e < 4+r.Intn(5); e++ {
				for j := 0; j < r.Intn(25); j++ {
					n, k := names[r.Intn(len(names))], genKey(r)
					res := s.register(n, k)
					tried[n]++
					if tried[n] > 1 {
						c.Count("competing attempts", 1)
					}
					s.expectRegister(res, n, k)
					if r.Intn(3) == 0 {
						s.c13sweep(names)
					}
					c.Eval(1)
				}
				s.update()
				s.c13sweep(names)
				s.c13only()
			}
			c.Distinct(strings.Join(s.ops, ";"))
			c.Sample("history", "%s", s.trace())
		})
	}
	for i := 0; i < c.N(1, 6); i++ {
		c.Case(fmt.Sprintf("mass-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 1000, 1, i%2 == 0)
			for e := 0; e < 2; e++ {
				s.mass(fmt.Sprintf("m%d-", e), c.N(300, 1500))
				s.c13only()
				s.update()
				s.c13only()
			}
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(20, 200); i++ {
		c.Case(fmt.Sprintf("fault-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 1000, 1, i%2 == 0)
			for j := r.Intn(5); j > 0; j-- {
				n, k := fmt.Sprintf("before%d", j), genKey(r)
				s.expectRegister(s.register(n, k), n, k)
			}
			if r.Intn(2) == 0 {
				s.update()
			}
			// the number of reads a registration needs
			probe, pk := "probe@"+fmt.Sprint(i), genKey(r)
			before := entropy.count()
			s.expectRegister(s.register(probe, pk), probe, pk)
			reads := int(entropy.count() - before)
			c.Count("reads per registration", reads)
			for k := 0; k < reads; k++ {
				for variant := 0; variant < 3; variant++ {
					name, key := fmt.Sprintf("victim%d-%d", k, variant), genKey(r)
					base := entropy.count()
					failed := false
					s.logf("read %d fails", k)
					entropy.setFail(func(n int64) bool {
						if n == base+int64(k)+1 || variant == 1 && n > base+int64(k) {
							failed = true
							return true
						}
						return false
					})
					res := s.register(name, key)
					entropy.setFail(nil)
					if failed {
						c.Count("faults injected", 1)
					}
					s.check(res.Error == protocol.ErrDirectory || res.Error == protocol.ReqSuccess, "registration under a fault", "status %d", res.Error)
					if res.Error == protocol.ReqSuccess {
						s.accepted(name, key)
						s.check(proofOf(res) != nil && proofOf(res).TB != nil, "registration under a fault", "succeeds without a promise")
					} else {
						s.check(isNilResponse(res), "registration under a fault", "an error with contents: %s", clip(jsonOf(res), 200))
					}
					s.c13sweep([]string{name, probe})
					if variant == 2 {
						// leave it, another user registers in between
						n2, k2 := fmt.Sprintf("other%d-%d", k, variant), genKey(r)
						s.expectRegister(s.register(n2, k2), n2, k2)
						s.update()
						s.c13sweep([]string{name, probe, n2})
						s.c13only()
					}
					if s.regs[name] == nil {
						k2 := genKey(r)
						s.expectRegister(s.register(name, k2), name, k2)
						c.Count("retried after fault", 1)
					}
					s.c13sweep([]string{name})
					c.Eval(1)
					c.Distinct(strings.Join(s.ops, ";"))
				}
				s.update()
				s.c13only()
			}
			s.update()
			s.c13only()
			s.finalSweep(false)
		})
	}
}

func (s *sim) c13sweep(names []string) {
	for _, n := range names {
		s.expectLookup(s.lookup(n), n)
		if n != "" {
			s.expectLookupIn(s.lookupIn(n, s.epoch), n, s.epoch, false)
		}
	}
}

// c13only: the root contains exactly the accepted registrations.
func (s *sim) c13only() {
	leaves, nonce := s.leaves(s.epoch)
	s.check(bytes.Equal(newRefTree(nonce, leaves).root(), s.strs[s.epoch].TreeHash),
		"the root binds something that no successful registration asked for (or lacks one)", "epoch %d, %d accepted bindings", s.epoch, len(leaves))
	s.c.Count("roots compared", 1)
}

func (e *seededEntropy) count() int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.reads
}

var _ = sign.PublicKeySize
