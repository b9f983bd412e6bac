package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() {
	const rule = "long sessions of a real client with a malicious directory that holds the keys: answers for the current, forked, skipped, old or altered root, paths and promises mixed, replayed or altered, any status and expected key, each judged by the specification of a client; "
	register(&Property{ID: "C10", Level: "exploration", Run: func(c *Ctx) { runClient(c, "C10") },
		Rule: rule + "non-trivial: an answer or auditor range whose root the client must refuse, distinct by (kind of root, request, lengths, state)",
		Need: map[string]int64{"accepted": 3000, "must refuse: root": 4000, "auditor accepted": 500, "auditor refused": 2000, "forks": 300, "advances": 800}})
	register(&Property{ID: "C11", Level: "exploration", Run: func(c *Ctx) { runClient(c, "C11") },
		Rule: rule + "non-trivial: an answer that must be refused for exactly one reason other than its root, distinct by (reason, alteration, request, state)",
		Need: map[string]int64{"names of one client": 450, "accepted": 3000, "must refuse: path": 3000, "must refuse: index": 300, "must refuse: status": 800, "must refuse: another key": 500, "must refuse: known name absent": 50, "keys remembered": 2000}})
	register(&Property{ID: "C12", Level: "exploration", Run: func(c *Ctx) { runClient(c, "C12"); runC12dir(c) },
		Rule: rule + "and histories of the honest directory whose promises are compared with each other and with the next root; non-trivial: an answer with, or lacking, a promise for a name with a pending registration, distinct by (reason, alteration, request, state)",
		Need: map[string]int64{"names of one client": 450, "accepted": 3000, "must refuse: no promise": 120, "must refuse: promise signature": 60, "must refuse: promise index": 50,
			"broken promises": 500, "promises accepted": 1000, "promises of one client": 150, "directory promises": 500, "promises kept": 300}})
}

var reasonsOf = map[string][]string{
	"C10": {"root"},
	"C11": {"missing part", "index", "path", "status", "another key", "known name absent"},
	"C12": {"no promise", "promise signature", "promise index", "broken promise: other key", "broken promise: replaced",
		"broken promise: not included", "broken promise: withdrawn"},
}

// worldNode is a root the directory may show, with the registrations
// pending in its epoch.
type worldNode struct {
	*evilNode
	pending map[string][]byte
	prev    *worldNode
	kind    string
}

type clientWorld struct {
	c     *Ctx
	r     *rand.Rand
	e     *evilDir
	prop  string
	cc    *client.ConsistencyChecks
	rc    *refClient
	names []string
	at    *worldNode   // the client's verified root
	alt   []*worldNode // other roots the directory made
	ops   []string
	far   int // how many more roots auditors may have seen
	calm  int // if not 0, how rarely the root changes
}

func (w *clientWorld) logf(f string, a ...interface{}) {
	w.ops = append(w.ops, clip(fmt.Sprintf(f, a...), 200))
	if len(w.ops) > 40 {
		w.ops = w.ops[1:]
	}
}

func newClientWorld(c *Ctx, r *rand.Rand, prop string) *clientWorld {
	return newSizedWorld(c, r, prop, 7)
}

func newSizedWorld(c *Ctx, r *rand.Rand, prop string, names int) *clientWorld {
	w := &clientWorld{c: c, r: r, e: newEvil(r), prop: prop}
	for len(w.names) < names {
		n := genName(r, false)
		dupl := false
		for _, o := range w.names {
			dupl = dupl || o == n
		}
		if !dupl {
			w.names = append(w.names, n)
		}
	}
	t := w.e.tree(randBytes(r, 32))
	for j := r.Intn(4); j > 0; j-- {
		t.set(w.names[r.Intn(len(w.names))], genKey(r))
	}
	w.at = &worldNode{evilNode: w.e.first(t), pending: map[string][]byte{}, kind: "pinned"}
	w.cc = client.New(copySTR(w.at.str), true, w.e.signPK)
	w.rc = newRefClient(w.e, w.at.str)
	return w
}

// honestNext is the successor an honest directory publishes.
func (w *clientWorld) honestNext(n *worldNode) *worldNode {
	t := n.tree.clone()
	var ks []string
	for k := range n.pending {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if _, ok := t.keys[k]; !ok {
			t.set(k, n.pending[k])
		}
	}
	return &worldNode{evilNode: w.e.next(n.evilNode, t), pending: map[string][]byte{}, prev: n, kind: "next"}
}

// otherRoot makes a root of some kind relative to the client's.
func (w *clientWorld) otherRoot() *worldNode {
	r, n := w.r, w.at
	mk := func(kind string, tree *evilTree, str *protocol.DirSTR) *worldNode {
		return &worldNode{evilNode: &evilNode{tree, str}, pending: map[string][]byte{}, prev: n, kind: kind}
	}
	changed := func(t *evilTree) *evilTree {
		t = t.clone()
		nm := w.names[r.Intn(len(w.names))]
		if _, ok := t.keys[nm]; ok && r.Intn(2) == 0 {
			t.del(nm)
		} else {
			t.set(nm, genKey(r))
		}
		return t
	}
	switch k := r.Intn(22); k {
	case 0: // a fork: same epoch, same predecessor, other tree
		t := changed(n.tree)
		s := copySTR(n.str)
		s.TreeHash = t.root()
		w.c.Count("forks", 1)
		return mk("fork of the verified epoch", t, w.e.sign(s, w.e.signSK))
	case 1:
		s := copySTR(n.str)
		s.Policies.EpochDeadline++
		w.c.Count("forks", 1)
		return mk("fork with other policies", n.tree, w.e.sign(s, w.e.signSK))
	case 2:
		if n.prev != nil {
			w.c.Count("forks", 1)
			f := w.honestNext(n.prev)
			f.kind = "fork by a second successor of the predecessor"
			return f
		}
		fallthrough
	case 3:
		if n.prev != nil {
			return &worldNode{evilNode: n.prev.evilNode, pending: n.prev.pending, prev: n.prev.prev, kind: "old root"}
		}
		fallthrough
	case 4:
		h := w.honestNext(w.honestNext(n))
		h.kind = "skips an epoch"
		return h
	case 5: // epoch + 2, linked to the verified root
		h := w.honestNext(n)
		h.str.Epoch++
		w.e.sign(h.str, w.e.signSK)
		h.kind = "epoch + 2, linked"
		return h
	case 6:
		h := w.honestNext(n)
		h.str.PreviousEpoch = uint64(r.Intn(4)) + h.str.Epoch
		w.e.sign(h.str, w.e.signSK)
		h.kind = "next with another previous epoch"
		return h
	case 7:
		h := w.honestNext(n)
		h.str.PreviousSTRHash = randBytes(r, 32)
		w.e.sign(h.str, w.e.signSK)
		h.kind = "next, not linked"
		return h
	case 8:
		h := w.honestNext(n)
		otherEvil.sign(h.str, otherEvil.signSK)
		h.kind = "next, signed by another key"
		return h
	case 9:
		h := w.honestNext(n)
		h.str.Signature = flip(r, h.str.Signature)
		h.kind = "next, signature altered"
		return h
	case 10:
		h := w.honestNext(n)
		t := changed(h.tree)
		h.tree = t
		h.str.TreeHash = t.root()
		h.kind = "next, tree hash not signed"
		return h
	case 11:
		h := w.honestNext(n)
		h.str.Policies.EpochDeadline += 5
		h.kind = "next, policies not signed"
		return h
	case 12: // verified root with altered fields
		s := copySTR(n.str)
		t := changed(n.tree)
		s.TreeHash = t.root()
		return mk("verified root with another tree hash, not signed", t, s)
	case 13:
		s := copySTR(n.str)
		s.Signature = flip(r, s.Signature)
		return mk("verified root with another signature", n.tree, s)
	case 14: // a fork continued
		t := changed(n.tree)
		s := copySTR(n.str)
		s.TreeHash = t.root()
		f := mk("fork", t, w.e.sign(s, w.e.signSK))
		h := w.honestNext(f)
		h.kind = "next of a fork"
		w.c.Count("forks", 1)
		return h
	case 15:
		t := changed(n.tree)
		h := &worldNode{evilNode: &evilNode{t, w.e.str(0, 0, t.root(), randBytes(r, 32), w.e.policies(60))}, pending: map[string][]byte{}, prev: n,
			kind: "another first root"}
		return h
	case 16:
		if len(w.alt) > 0 {
			return w.alt[r.Intn(len(w.alt))]
		}
		fallthrough
	case 17: // validly signed next root over a dishonest tree
		h := w.honestNext(n)
		t := changed(h.tree)
		x := &worldNode{evilNode: w.e.next(n.evilNode, t), pending: map[string][]byte{}, prev: n, kind: "next over an altered tree"}
		return x
	case 18, 19: // next root that breaks promises
		t := n.tree.clone()
		for nm, k := range n.pending {
			if r.Intn(2) == 0 {
				if _, ok := t.keys[nm]; !ok {
					if r.Intn(3) > 0 {
						k = genKey(r)
					}
					t.set(nm, k)
				}
			}
		}
		return &worldNode{evilNode: w.e.next(n.evilNode, t), pending: map[string][]byte{}, prev: n, kind: "next without the promised bindings"}
	case 20: // same epoch number modulo 2^32 or 2^8
		h := w.honestNext(n)
		h.str.Epoch += 1 << uint([]int{8, 16, 32}[r.Intn(3)])
		w.e.sign(h.str, w.e.signSK)
		h.kind = "epoch equal modulo a power of two"
		return h
	default:
		h := w.honestNext(n)
		return h
	}
}

// base is an answer of honest shape for the root.
func (w *clientWorld) base(t int, name string, key []byte, n *worldNode) *answer {
	a := &answer{ap: n.tree.path(name), str: copySTR(n.str)}
	if _, in := n.tree.keys[name]; in {
		a.status = protocol.ReqSuccess
		if t == protocol.RegistrationType {
			a.status = protocol.ReqNameExisted
		}
		return a
	}
	if k, ok := n.pending[name]; ok {
		a.tb = w.e.tb(n.str, name, k)
		a.status = protocol.ReqSuccess
		if t == protocol.RegistrationType {
			a.status = protocol.ReqNameExisted
		}
		return a
	}
	if t == protocol.RegistrationType {
		n.pending[name] = dup(key)
		a.tb = w.e.tb(n.str, name, key)
		a.status = protocol.ReqSuccess
	} else {
		a.status = protocol.ReqNameNotFound
	}
	return a
}

func (w *clientWorld) anyNode() *worldNode {
	switch w.r.Intn(4) {
	case 0:
		if w.at.prev != nil {
			return w.at.prev
		}
	case 1:
		if len(w.alt) > 0 {
			return w.alt[w.r.Intn(len(w.alt))]
		}
	}
	return w.at
}

// spoil alters one aspect of an answer.
func (w *clientWorld) spoil(a *answer, t int, name string, n *worldNode) string {
	r := w.r
	other := w.names[r.Intn(len(w.names))]
	k := r.Intn(20)
	if w.prop == "C12" && r.Intn(2) == 0 {
		k = 9 + r.Intn(8)
	}
	switch k {
	case 0:
		st := []protocol.ErrorCode{protocol.ReqSuccess, protocol.ReqNameExisted, protocol.ReqNameNotFound, protocol.ReqUnknownDirectory, 0, 99, 107, 200, -1}
		a.status = st[r.Intn(len(st))]
		return "status"
	case 1:
		a.ap.VrfProof = flip(r, a.ap.VrfProof)
		return "index proof"
	case 2:
		a.ap.VrfProof = dup(w.e.vrfProof(other))
		return "index proof of another name"
	case 3:
		a.ap.LookupIndex = dup(w.e.idx(other))
		return "index of another name"
	case 4: // everything of another name
		a.ap = n.tree.path(other)
		return "path and index of another name"
	case 5: // a path of another root
		a.ap = w.anyNode().tree.path(name)
		return "path of another root"
	case 6, 7, 8:
		m, what := mutateAP(r, a.ap, w.anyNode().tree.path(other))
		if m.Leaf != nil {
			a.ap = m
		}
		return "path: " + what
	case 9:
		a.tb = nil
		return "promise removed"
	case 10:
		if a.tb != nil {
			a.tb.Signature = flip(r, a.tb.Signature)
		}
		return "promise signature"
	case 11:
		key := genKey(r)
		if a.tb != nil {
			a.tb.Value = key
		}
		return "promise value, not signed"
	case 12:
		a.tb = w.e.tb(a.str, name, genKey(r))
		return "promise for another key, signed"
	case 13:
		v := genKey(r)
		if a.tb != nil {
			v = a.tb.Value
		}
		a.tb = w.e.tb(w.anyNode().str, name, v)
		return "promise for another root"
	case 14:
		v := genKey(r)
		if a.tb != nil {
			v = a.tb.Value
		}
		a.tb = w.e.tb(a.str, other, v)
		return "promise for another name, signed"
	case 15: // bytes moved between index and value keep the signature valid
		if a.tb != nil && len(a.tb.Value) > 1 {
			if r.Intn(2) == 0 {
				a.tb.Index, a.tb.Value = append(a.tb.Index, a.tb.Value[0]), a.tb.Value[1:]
			} else {
				a.tb.Index, a.tb.Value = a.tb.Index[:31], append([]byte{a.tb.Index[31]}, a.tb.Value...)
			}
		}
		return "promise bytes moved"
	case 16:
		if a.tb != nil {
			msg := append(append(append([]byte(nil), a.str.Signature...), a.tb.Index...), a.tb.Value...)
			a.tb.Signature = otherEvil.signSK.Sign(msg)
		}
		return "promise signed by another key"
	case 17: // absence instead of inclusion: the tree without the name
		t2 := n.tree.clone()
		t2.del(name)
		a.ap = t2.path(name)
		if r.Intn(2) == 0 {
			a.status = protocol.ReqNameNotFound
		}
		return "absence under another tree"
	case 18: // inclusion of another key: the tree with another key
		t2 := n.tree.clone()
		t2.set(name, genKey(r))
		a.ap = t2.path(name)
		a.status = protocol.ReqSuccess
		if t == protocol.RegistrationType {
			a.status = protocol.ReqNameExisted
		}
		return "another key under another tree"
	default: // root of another node, path of this one
		a.str = copySTR(w.anyNode().str)
		return "root of another answer"
	}
}

func cloneMap(m map[string][]byte) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = fmt.Sprintf("%v/%x", v == nil, v)
	}
	return o
}

func cloneTBs(m map[string]*protocol.TemporaryBinding) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = jsonOf(v)
	}
	return o
}

func diffMap(a, b map[string]string, except string) string {
	for k, v := range a {
		if k != except && b[k] != v {
			return fmt.Sprintf("%q: %s became %s", k, v, b[k])
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && k != except {
			return fmt.Sprintf("%q: appeared as %s", k, v)
		}
	}
	return ""
}

// step does one request.
func (w *clientWorld) step() {
	r := w.r
	w.c.Eval(1)
	name := w.names[r.Intn(len(w.names))]
	t := protocol.KeyLookupType
	var key []byte
	if r.Intn(5) < 2 {
		t = protocol.RegistrationType
		key = genKey(r)
		if k, ok := w.rc.known[name]; ok && r.Intn(2) == 0 {
			key = k
		}
	} else {
		switch k, ok := w.rc.known[name]; {
		case ok && r.Intn(3) > 0:
			key = k
		case r.Intn(12) == 0:
			key = genKey(r)
		}
	}
	rootWeight := 4
	if w.prop == "C10" {
		rootWeight = 2
	}
	n := w.at
	switch x := r.Intn(12); {
	case w.calm > 0:
		if r.Intn(w.calm) == 0 {
			n = w.honestNext(w.at)
		}
	case x == 0:
		n = w.honestNext(w.at)
	case r.Intn(rootWeight) == 0:
		n = w.otherRoot()
		if len(w.alt) < 8 {
			w.alt = append(w.alt, n)
		} else {
			w.alt[r.Intn(8)] = n
		}
	}
	// the name may be bound to the very key the client expects, whatever was
	// promised or known before
	if v, ok := n.tree.keys[name]; ok && r.Intn(4) == 0 && (t == protocol.RegistrationType || key != nil) {
		key = dup(v)
	} else if v, ok := n.pending[name]; ok && r.Intn(4) == 0 && (t == protocol.RegistrationType || key != nil) {
		key = dup(v)
	}
	a := w.base(t, name, key, n)
	spoiled := ""
	p := 2
	if w.prop == "C10" {
		p = 6
	}
	if r.Intn(p) == 0 {
		spoiled = w.spoil(a, t, name, n)
	}
	w.judge(t, name, key, a, n, spoiled, true)
	if w.prop == "C11" && spoiled == "" && r.Intn(6) == 0 {
		// many alterations of one acceptable answer
		for j := 0; j < 12; j++ {
			b := w.base(t, name, key, n)
			what := w.spoil(b, t, name, n)
			w.judge(t, name, key, b, n, what, false)
		}
	}
}

func (w *clientWorld) judge(t int, name string, key []byte, a *answer, n *worldNode, spoiled string, main bool) {
	c := w.c
	reasons, value := w.rc.reasons(t, a, name, key)
	incl := value != nil && a.ap != nil && a.ap.Leaf != nil && bytes.Equal(a.ap.LookupIndex, a.ap.Leaf.Index)
	desc := func() string {
		return fmt.Sprintf("request %d for %q (known key %x, expected %x, promise held %v), answer %s, root is %q, alteration %q; specification: %v\nclient at %s\nhistory: %s",
			t, clip(name, 30), clipB(w.rc.known[name]), clipB(key), w.rc.promises[name] != nil, a, n.kind, spoiled, reasons, strString(w.rc.verified), strings.Join(w.ops, "; "))
	}
	bindings, tbs := cloneMap(w.cc.Bindings), cloneTBs(w.cc.TBs)
	res := a.response()
	if w.r.Intn(2) == 0 && a.status >= protocol.ReqSuccess {
		res = wireResponse(t, res)
	}
	var err error
	if p, st := Guard(func() { err = w.cc.HandleResponse(t, res, name, key) }); p != nil {
		c.Fail("the client crashes", "%v: %s\n%s", p, desc(), clip(st, 1500))
	}
	w.logf("%d %q %s/%s -> %v %v", t, clip(name, 8), n.kind, spoiled, err, reasons)
	for _, x := range reasons {
		if strings.HasPrefix(x, "broken promise") {
			c.Count("broken promises", 1)
		} else {
			c.Count("must refuse: "+x, 1)
		}
	}
	mine := w.relevant(reasons)
	if mine != "" {
		if w.prop == "C10" || len(reasons) == 1 {
			c.Distinct(mine, spoiled, n.kind, t, len(w.rc.known), w.rc.promises[name] != nil, key != nil, w.rc.verified.Epoch)
		}
		c.Sample(mine, "request %d, root %q, alteration %q: %v", t, n.kind, spoiled, err)
	}
	if err == nil {
		if len(reasons) > 0 {
			if mine != "" {
				c.Fail("the client accepts an answer it must refuse: "+mine, "%s", desc())
			}
			// another property's business; follow the client
			w.rc.verified = copySTR(w.cc.VerifiedSTR())
			w.resync(name)
			return
		}
		c.Count("accepted", 1)
		if t == protocol.RegistrationType || a.tb != nil {
			c.Count("promises accepted", 1)
		}
		moved := !sameSTR(w.rc.verified, a.str)
		w.rc.apply(a, name, value, incl)
		c.Check(sameSTR(w.cc.VerifiedSTR(), a.str), "verified root after an accepted answer", "%s is %s", desc(), strString(w.cc.VerifiedSTR()))
		if value != nil {
			got, ok := w.cc.Bindings[name]
			c.Check(ok && bytes.Equal(got, value), "key remembered after an accepted answer", "%x (%v), proved %x: %s", clipB(got), ok, clipB(value), desc())
			c.Count("keys remembered", 1)
		} else {
			c.Check(diffMap(bindings, cloneMap(w.cc.Bindings), "") == "", "keys after an answer without a key", "%s: %s", diffMap(bindings, cloneMap(w.cc.Bindings), ""), desc())
		}
		d := diffMap(bindings, cloneMap(w.cc.Bindings), name)
		c.Check(d == "", "an answer changes the key of another name", "%s: %s", d, desc())
		d = diffMap(tbs, cloneTBs(w.cc.TBs), name)
		c.Check(d == "", "an answer changes the promise of another name", "%s: %s", d, desc())
		if moved {
			c.Count("advances", 1)
			w.at = n
		}
		return
	}
	// A promise the client still holds although the specification no longer
	// does (kept after it was fulfilled, or after an answer another property
	// forbids) may only matter to a directory that changes its mind, so that
	// the client is free to refuse.
	held, p := w.cc.TBs[name], w.rc.promises[name]
	if len(reasons) == 0 && spoiled == "" && (held == nil || p != nil && bytes.Equal(held.Value, p.value)) {
		c.Fail("the client refuses an answer it can verify", "%v: %s", err, desc())
	}
	c.Count("refused", 1)
	if w.prop == "C12" && len(reasons) > 0 {
		all := true
		for _, x := range reasons {
			all = all && strings.HasPrefix(x, "broken promise")
		}
		c.Check(!all || err == protocol.CheckBrokenPromise, "a broken promise is not reported as such", "%v: %s", err, desc())
	}
	// nothing unverified is stored
	d := diffMap(bindings, cloneMap(w.cc.Bindings), "")
	c.Check(d == "", "a refused answer changes the remembered keys", "%s: %s", d, desc())
	d = diffMap(tbs, cloneTBs(w.cc.TBs), "")
	c.Check(d == "", "a refused answer changes the remembered promises", "%s: %s", d, desc())
	now := w.cc.VerifiedSTR()
	if !sameSTR(now, w.rc.verified) {
		c.Check(a.str != nil && sameSTR(now, a.str) && w.rc.strOK(a.str), "an unacceptable root is adopted", "now %s: %s", strString(now), desc())
		w.rc.verified = copySTR(now)
		if sameSTR(now, n.str) {
			w.at = n
		} else {
			w.find(now)
		}
		c.Count("advances", 1)
	}
}

// find makes the client's root the current one.
func (w *clientWorld) find(str *protocol.DirSTR) {
	for n := w.at; n != nil; n = n.prev {
		if sameSTR(n.str, str) {
			w.at = n
			return
		}
	}
	for _, n := range w.alt {
		if sameSTR(n.str, str) {
			w.at = n
			return
		}
	}
	w.at = &worldNode{evilNode: &evilNode{w.at.tree, copySTR(str)}, pending: map[string][]byte{}, prev: w.at, kind: "adopted"}
}

func (w *clientWorld) resync(name string) {
	w.find(w.cc.VerifiedSTR())
	w.rc.known = map[string][]byte{}
	for k, v := range w.cc.Bindings {
		w.rc.known[k] = dup(v)
	}
	delete(w.rc.promises, name)
}

func (w *clientWorld) relevant(reasons []string) string {
	for _, x := range reasons {
		for _, y := range reasonsOf[w.prop] {
			if x == y {
				return x
			}
		}
	}
	return ""
}

// reasons lists everything that makes the answer unacceptable.
func (rc *refClient) reasons(t int, a *answer, name string, key []byte) (why []string, value []byte) {
	if a.ap == nil || a.ap.Leaf == nil || a.str == nil {
		return []string{"missing part"}, nil
	}
	if !rc.strOK(a.str) {
		why = append(why, "root")
	}
	if !bytes.Equal(a.str.Policies.VrfPublicKey, rc.e.vrfPK) || !bytes.Equal(a.ap.LookupIndex, rc.e.idx(name)) ||
		!rc.e.vrfPK.Verify([]byte(name), a.ap.LookupIndex, a.ap.VrfProof) {
		why = append(why, "index")
	}
	okp, incl, val := refVerify(a.ap, rc.e.idx(name), name, a.str.TreeHash)
	if !okp {
		why = append(why, "path")
		incl = bytes.Equal(a.ap.LookupIndex, a.ap.Leaf.Index)
		val = a.ap.Leaf.Value
	}
	promise := false
	switch {
	case t == protocol.RegistrationType && a.status == protocol.ReqNameExisted && incl:
	case t == protocol.RegistrationType && (a.status == protocol.ReqNameExisted || a.status == protocol.ReqSuccess) && !incl:
		promise = true
	case t == protocol.KeyLookupType && a.status == protocol.ReqNameNotFound && !incl:
	case t == protocol.KeyLookupType && a.status == protocol.ReqSuccess && incl:
	case t == protocol.KeyLookupType && a.status == protocol.ReqSuccess && !incl:
		promise = true
	default:
		why = append(why, "status")
		return why, nil
	}
	if incl {
		value = val
	}
	if promise {
		if a.tb == nil {
			why = append(why, "no promise")
			return why, nil
		}
		if !refTBSigned(a.tb, a.str, rc.e.signPK) {
			why = append(why, "promise signature")
		}
		if !bytes.Equal(a.tb.Index, rc.e.idx(name)) {
			why = append(why, "promise index")
		}
		value = a.tb.Value
	}
	if key != nil && (incl || promise) && !bytes.Equal(key, value) {
		why = append(why, "another key")
	}
	if p := rc.promises[name]; p != nil {
		switch {
		case incl && !bytes.Equal(val, p.value):
			why = append(why, "broken promise: other key")
		case promise && !bytes.Equal(a.tb.Value, p.value):
			why = append(why, "broken promise: replaced")
		case promise && !bytes.Equal(a.str.Signature, p.sig):
			why = append(why, "broken promise: not included")
		case !incl && !promise:
			why = append(why, "broken promise: withdrawn")
		}
	} else if _, known := rc.known[name]; known && !incl && !promise {
		why = append(why, "known name absent")
	}
	return why, value
}

// ---- comparing with an auditor ----

func (w *clientWorld) auditorStep() {
	r, c := w.r, w.c
	c.Eval(1)
	var line []*protocol.DirSTR // the client's history, oldest first
	for n := w.at; n != nil; n = n.prev {
		line = append([]*protocol.DirSTR{n.str}, line...)
		if n.str.Epoch == 0 {
			break
		}
	}
	kind := "same history"
	switch r.Intn(5) {
	case 4: // the client can't tell whether these are the roots it would see
		h := w.at
		for k := 2 + r.Intn(4) + w.far; k > 0; k-- {
			h = w.honestNext(h)
			line = append(line, h.str)
		}
		kind = "several further"
	case 0:
		line = append(line, w.honestNext(w.at).str)
		kind = "one further"
	case 1:
		n := w.otherRoot()
		kind = n.kind
		if r.Intn(2) == 0 {
			line[len(line)-1] = n.str
		} else {
			line = append(line, n.str)
		}
	}
	from := r.Intn(len(line))
	if r.Intn(4) == 0 {
		from = len(line) - 1
	}
	batch := copySTRs(line[from:])
	if r.Intn(3) == 0 {
		var what string
		batch, what = w.e.spoil(batch, line, r.Intn(spoilKinds), r.Intn(len(batch)))
		kind += ", " + what
	}
	if r.Intn(12) == 0 { // only the first root's signature is bad
		batch[0].Signature = flip(r, batch[0].Signature)
		for i := 1; i < len(batch); i++ {
			batch[i].PreviousSTRHash = refDigest(batch[i-1].Signature)
			w.e.sign(batch[i], w.e.signSK)
		}
		kind += ", first signature"
	}
	want := len(batch) > 0
	for i, s := range batch {
		want = want && refSTRSigned(s, w.e.signPK) && (i == 0 || refLinks(batch[i-1], s))
	}
	want = want && w.rc.strOK(batch[len(batch)-1])
	bindings, tbs := cloneMap(w.cc.Bindings), cloneTBs(w.cc.TBs)
	var err error
	res := protocol.NewSTRHistoryRange(batch)
	if r.Intn(2) == 0 {
		res = wireResponse(protocol.STRType, res)
	}
	desc := func() string {
		s := fmt.Sprintf("%s; client at %s; auditor:", kind, strString(w.rc.verified))
		for _, b := range batch {
			s += " " + strString(b)
		}
		return s
	}
	if p, st := Guard(func() { err = w.cc.CheckEquivocation(res) }); p != nil {
		c.Fail("the client crashes", "%v: %s\n%s", p, desc(), clip(st, 1500))
	}
	if want {
		c.Check(err == nil, "comparing with an honest auditor fails", "%v: %s", err, desc())
		c.Count("auditor accepted", 1)
	} else {
		c.Check(err != nil, "comparing with an inconsistent auditor succeeds", "%s", desc())
		c.Count("auditor refused", 1)
		c.Distinct("auditor", kind, len(batch), from)
		c.Sample("auditor", "%s: %v", clip(kind, 80), err)
	}
	c.Check(sameSTR(w.cc.VerifiedSTR(), w.rc.verified) && diffMap(bindings, cloneMap(w.cc.Bindings), "") == "" && diffMap(tbs, cloneTBs(w.cc.TBs), "") == "",
		"comparing with an auditor changes the client", "%s", desc())
}

func runClient(c *Ctx, prop string) {
	for i := 0; i < c.N(160, 3000); i++ {
		c.Case(fmt.Sprintf("session-%d", i), func(r *rand.Rand) {
			w := newClientWorld(c, r, prop)
			for j := 0; j < 150; j++ {
				w.step()
				if prop == "C10" && r.Intn(2) == 0 {
					w.auditorStep()
				}
			}
		})
	}
	// a client that knows many names
	for i := 0; i < c.N(12, 200); i++ {
		c.Case(fmt.Sprintf("many-%d", i), func(r *rand.Rand) {
			w := newSizedWorld(c, r, prop, 40+r.Intn(80))
			for j := 0; j < 500; j++ {
				w.step()
			}
			c.Count("names of one client", len(w.rc.known))
		})
	}
	// a client that holds many promises at once
	for i := 0; i < c.N(6, 100); i++ {
		c.Case(fmt.Sprintf("crowd-%d", i), func(r *rand.Rand) {
			w := newSizedWorld(c, r, prop, 60+r.Intn(80))
			w.calm = 150
			most := 0
			for j := 0; j < 500; j++ {
				w.step()
				if len(w.rc.promises) > most {
					most = len(w.rc.promises)
				}
			}
			c.Count("promises of one client", most)
		})
	}
	if prop == "C10" {
		for i := 0; i < c.N(14, 120); i++ {
			c.Case(fmt.Sprintf("far-%d", i), func(r *rand.Rand) {
				w := newClientWorld(c, r, prop)
				if i%2 == 0 {
					w.far = 60 + r.Intn(60)
				} else { // the client itself has come far
					for k := 80 + r.Intn(100); k > 0; k-- {
						w.at = w.honestNext(w.at)
					}
					w.cc = client.New(copySTR(w.at.str), true, w.e.signPK)
					w.rc = newRefClient(w.e, w.at.str)
				}
				for j := 0; j < 30; j++ {
					w.step()
					w.auditorStep()
				}
			})
		}
	}
	if prop == "C12" {
		c.Case("other-index", func(r *rand.Rand) { c12otherIndex(c, r) })
	}
	if prop == "C11" {
		c.Case("several-proofs", func(r *rand.Rand) { c11several(c, r) })
	}
}

// c12otherIndex: a directory that changes its key for indices binds the
// promised key, but not at the promised index.
func c12otherIndex(c *Ctx, r *rand.Rand) {
	for i := 0; i < 40; i++ {
		e := newEvil(r)
		e2 := newEvil(r)
		e2.signSK, e2.signPK = e.signSK, e.signPK
		name, key := genName(r, false), genKey(r)
		t := e.tree(randBytes(r, 32))
		at := e.first(t)
		cc := client.New(copySTR(at.str), true, e.signPK)
		a := &answer{status: protocol.ReqSuccess, ap: t.path(name), str: copySTR(at.str), tb: e.tb(at.str, name, key)}
		if err := cc.HandleResponse(protocol.RegistrationType, a.response(), name, key); err != nil {
			c.Fail("the client refuses an honest answer", "%v", err)
		}
		t2 := e2.tree(randBytes(r, 32))
		t2.set(name, key)
		str := e2.str(1, 0, t2.root(), refDigest(at.str.Signature), e2.policies(60))
		typ, b := protocol.KeyLookupType, &answer{status: protocol.ReqSuccess, ap: t2.path(name), str: str}
		if i%2 == 1 {
			typ, b.status = protocol.RegistrationType, protocol.ReqNameExisted
		}
		err := cc.HandleResponse(typ, b.response(), name, key)
		c.Eval(1)
		c.Check(err != nil, "the client accepts an answer it must refuse", "the promised key is bound at another index; request %d for %q", typ, clip(name, 30))
		c.Count("promises for another index", 1)
	}
}

// c11several: answers with more parts than asked for.
func c11several(c *Ctx, r *rand.Rand) {
	for i := 0; i < 60; i++ {
		w := newClientWorld(c, r, "C11")
		name := w.names[0]
		w.at.tree.set(name, []byte("right key"))
		w.at = &worldNode{evilNode: w.e.first(w.at.tree), pending: map[string][]byte{}}
		w.cc = client.New(copySTR(w.at.str), true, w.e.signPK)
		good := w.base(protocol.KeyLookupType, name, nil, w.at)
		t2 := w.at.tree.clone()
		t2.set(name, []byte("wrong key"))
		other := w.at.tree.path(w.names[1])
		bad := t2.path(name)
		res := good.response()
		p := proofOf(res)
		switch i % 6 {
		case 0:
			p.AP = append(p.AP, bad)
		case 1:
			p.AP = append(p.AP, other, bad)
		case 2:
			p.AP[0] = bad
			p.AP = append(p.AP, good.ap)
		case 3:
			p.AP = append(p.AP, bad)
			p.STR = append(p.STR, copySTR(w.honestNext(w.at).str))
		case 4:
			p.STR = append(p.STR, w.e.str(1, 0, t2.root(), randBytes(r, 32), w.e.policies(1)))
			p.AP[0] = bad
		case 5:
			p.TB = w.e.tb(w.at.str, name, []byte("wrong key"))
		}
		if i%2 == 0 {
			res = wireResponse(protocol.KeyLookupType, res)
		}
		err := w.cc.HandleResponse(protocol.KeyLookupType, res, name, nil)
		got, ok := w.cc.Bindings[name]
		c.Check(!ok || string(got) == "right key", "an unverified key is remembered", "%q after an answer with %d proofs and %d roots: %v", got, len(p.AP), len(p.STR), err)
		if i%6 == 2 || i%6 == 4 {
			c.Check(err != nil, "an answer whose proof doesn't verify is accepted", "variant %d", i%6)
		}
		c.Eval(1)
	}
}

// ---- C12, the directory's side ----

// c12mass: many promises in one epoch, all of them kept in the next.
func c12mass(c *Ctx, r *rand.Rand, wire bool, n int) {
	s := newSim(c, r, 100, 1, wire)
	s.update()
	cc := client.New(copySTR(s.strs[1]), true, s.signPK)
	trip := func(res *protocol.Response) *protocol.Response {
		if wire {
			return res
		}
		return wireResponse(protocol.KeyLookupType, res)
	}
	for e := 0; e < 2; e++ {
		var names []string
		promised := map[string]string{}
		for j := 0; j < n; j++ {
			name, key := fmt.Sprintf("m%d-%d", e, j), []byte(fmt.Sprintf("key %d", j))
			res := s.register(name, key)
			s.expectRegister(res, name, key)
			s.check(refTBSigned(proofOf(res).TB, s.strs[s.epoch], s.signPK), "signature of a promise", "%q", name)
			promised[name] = jsonOf(proofOf(res).TB)
			names = append(names, name)
			c.Count("directory promises", 1)
		}
		for _, name := range names { // repeated as they were given
			res := s.lookup(name)
			s.expectLookup(res, name)
			s.check(jsonOf(proofOf(res).TB) == promised[name], "two promises for one registration", "%q: %s and %s", name, promised[name], jsonOf(proofOf(res).TB))
			err := cc.HandleResponse(protocol.KeyLookupType, trip(res), name, nil)
			s.check(err == nil, "client of an honest directory", "%q: %v", name, err)
			k := genKey(r)
			res = s.register(name, k)
			s.expectRegister(res, name, k)
			s.check(jsonOf(proofOf(res).TB) == promised[name], "two promises for one registration", "%q: %s and %s", name, promised[name], jsonOf(proofOf(res).TB))
		}
		s.update()
		for _, name := range names {
			res := s.lookup(name)
			s.expectLookup(res, name)
			s.check(proofOf(res).TB == nil, "promise after the binding is included", "%q", name)
			err := cc.HandleResponse(protocol.KeyLookupType, trip(res), name, nil)
			s.check(err == nil, "client of an honest directory", "fulfilled promise for %q: %v", name, err)
			c.Count("promises kept", 1)
		}
		c.Eval(1)
	}
}

func runC12dir(c *Ctx) {
	for i := 0; i < c.N(2, 10); i++ {
		c.Case(fmt.Sprintf("mass-%d", i), func(r *rand.Rand) { c12mass(c, r, i%2 == 0, c.N(300, 2000)) })
	}
	for i := 0; i < c.N(32, 300); i++ {
		c.Case(fmt.Sprintf("directory-%d", i), func(r *rand.Rand) {
			s := newSim(c, r, 100, 1, i%2 == 0)
			cc := client.New(copySTR(s.strs[0]), true, s.signPK)
			for e := 0; e < 6; e++ {
				promised := map[string]string{}
				for j := 0; j < 10; j++ {
					name, key := s.pickName(), genKey(r)
					var res *protocol.Response
					reg := r.Intn(2) == 0
					if reg {
						res = s.register(name, key)
						s.expectRegister(res, name, key)
					} else {
						res = s.lookup(name)
						s.expectLookup(res, name)
					}
					p := proofOf(res)
					if p == nil || p.TB == nil {
						continue
					}
					s.check(refTBSigned(p.TB, s.strs[s.epoch], s.signPK), "signature of a promise", "%q: %s", name, jsonOf(p.TB))
					s.check(s.signPK.Verify(p.TB.Serialize(s.strs[s.epoch].Signature), p.TB.Signature), "Serialize of a promise", "differs from what was signed")
					js := jsonOf(p.TB)
					if old, ok := promised[name]; ok {
						s.check(old == js, "two promises for one registration", "%q: %s and %s", name, old, js)
					}
					promised[name] = js
					c.Count("directory promises", 1)
					if !reg {
						// a client keeps it (and later sees it fulfilled)
						err := cc.HandleResponse(protocol.KeyLookupType, wireResponse(protocol.KeyLookupType, res), name, nil)
						s.check(err == nil, "client of an honest directory", "%v", err)
					}
				}
				s.update()
				// the very next root includes exactly the promised bindings
				var ns []string
				for n := range promised {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range ns {
					res := s.lookup(n)
					s.expectLookup(res, n)
					s.check(proofOf(res).TB == nil, "promise after the binding is included", "%q", n)
					err := cc.HandleResponse(protocol.KeyLookupType, wireResponse(protocol.KeyLookupType, res), n, nil)
					s.check(err == nil, "client of an honest directory", "fulfilled promise for %q: %v", n, err)
					k := genKey(r)
					res = s.register(n, k)
					s.expectRegister(res, n, k)
					s.check(proofOf(res).TB == nil, "promise after the binding is included", "%q", n)
					c.Count("promises kept", 1)
				}
				// any client at this root moves on
				res := s.lookup("nobody")
				cc.HandleResponse(protocol.KeyLookupType, wireResponse(protocol.KeyLookupType, res), "nobody", nil)
				c.Eval(1)
			}
		})
	}
}
