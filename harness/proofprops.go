package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
)

func init() {
	register(&Property{ID: "C04", Level: "exploration", Run: runC04,
		Rule: "paths from honest and malicious trees with every field altered, exchanged between paths, moved across field boundaries or built to exploit the hashed encoding; each is verified for a name and judged against the bindings the tree really contains; non-trivial: an altered path that differs from every path the tree produces, distinct by its contents and name",
		Need: map[string]int64{"deep accepted": 450, "unaltered accepted": 800, "altered": 20000, "crafted": 200, "rejected": 20000, "re-verified": 2000}})
}

// mutateAP returns an altered copy; other is a path of another name or tree.
func mutateAP(r *rand.Rand, ap, other *merkletree.AuthenticationPath) (*merkletree.AuthenticationPath, string) {
	a := copyAP(ap)
	o := copyAP(other)
	l := a.Leaf
	pick := r.Intn(40)
	switch pick {
	case 0:
		l.Value = flip(r, l.Value)
		return a, "value bit"
	case 1:
		l.Value = append(l.Value, byte(r.Intn(256)))
		return a, "value longer"
	case 2:
		if len(l.Value) > 0 {
			l.Value = l.Value[:len(l.Value)-1]
		}
		return a, "value shorter"
	case 3:
		l.Value = nil
		return a, "value nil"
	case 4:
		l.Value = o.Leaf.Value
		return a, "value of another"
	case 5:
		l.Level = uint32(r.Intn(260))
		return a, "level"
	case 6:
		l.Level += uint32(r.Intn(3)) - 1
		return a, "level +-1"
	case 7:
		l.Level = 0
		a.PrunedTree = nil
		return a, "level 0"
	case 8:
		l.IsEmpty = !l.IsEmpty
		return a, "kind"
	case 9:
		l.IsEmpty = !l.IsEmpty
		if l.IsEmpty {
			l.Index = prefixBytes(a.LookupIndex, int(l.Level)%257)
			l.Commitment, l.Value = nil, nil
		} else {
			l.Index = a.LookupIndex
			l.Commitment = o.Leaf.Commitment
		}
		return a, "kind, consistent"
	case 10:
		l.Index = flip(r, l.Index)
		return a, "leaf index bit"
	case 11:
		l.Index = dup(a.LookupIndex)
		return a, "leaf index = lookup index"
	case 12:
		l.Index = dup(o.Leaf.Index)
		return a, "leaf index of another"
	case 13:
		if len(l.Index) > 0 {
			l.Index = l.Index[:r.Intn(len(l.Index))]
		}
		return a, "leaf index truncated"
	case 14:
		l.Index = append(l.Index, 0)
		return a, "leaf index longer"
	case 15:
		if l.Commitment != nil {
			l.Commitment.Value = flip(r, l.Commitment.Value)
		}
		return a, "commitment bit"
	case 16:
		if l.Commitment != nil {
			l.Commitment.Salt = flip(r, l.Commitment.Salt)
		}
		return a, "salt bit"
	case 17:
		l.Commitment = o.Leaf.Commitment
		return a, "commitment of another"
	case 18:
		l.Commitment = nil
		return a, "no commitment"
	case 19:
		l.Value = randBytes(r, 1+r.Intn(20))
		l.Commitment = &crypto.Commit{Salt: randBytes(r, 32), Value: randBytes(r, 32)}
		return a, "new commitment"
	case 20:
		if n := len(a.PrunedTree); n > 0 {
			a.PrunedTree[r.Intn(n)][r.Intn(32)] ^= 1 << uint(r.Intn(8))
		}
		return a, "sibling bit"
	case 21:
		if n := len(a.PrunedTree); n > 0 {
			a.PrunedTree = a.PrunedTree[:n-1]
		}
		return a, "sibling dropped"
	case 22:
		a.PrunedTree = append(a.PrunedTree, [32]byte{})
		return a, "sibling added"
	case 23:
		a.PrunedTree = o.PrunedTree
		return a, "siblings of another"
	case 24:
		if n := len(a.PrunedTree); n > 1 {
			i, j := r.Intn(n), r.Intn(n)
			a.PrunedTree[i], a.PrunedTree[j] = a.PrunedTree[j], a.PrunedTree[i]
		}
		return a, "siblings swapped"
	case 25:
		a.TreeNonce = flip(r, a.TreeNonce)
		return a, "nonce bit"
	case 26:
		a.TreeNonce = o.TreeNonce
		return a, "nonce of another"
	case 27:
		a.TreeNonce = nil
		return a, "no nonce"
	case 28: // the other path under this lookup index
		o.LookupIndex, o.VrfProof = a.LookupIndex, a.VrfProof
		return o, "path of another"
	case 29:
		o.LookupIndex, o.VrfProof = a.LookupIndex, a.VrfProof
		if o.Leaf != nil {
			o.Leaf.Value = nil
			if o.Leaf.Commitment != nil {
				o.Leaf.Commitment.Salt = nil
			}
		}
		return o, "path of another as absence"
	case 30:
		o.LookupIndex, o.VrfProof = a.LookupIndex, a.VrfProof
		o.Leaf.Index = dup(a.LookupIndex)
		return o, "path of another with this index"
	case 31: // claim absence of this leaf
		l.Value = nil
		if l.Commitment != nil {
			l.Commitment.Salt = nil
		}
		return a, "opening removed"
	case 32: // claim absence by another index with the same prefix
		l.Value = nil
		if len(l.Index) == 32 {
			i := int(l.Level) % 256
			l.Index[31] ^= 1
			_ = i
		}
		return a, "absence by a neighbour index"
	case 33: // empty branch on the way to the leaf
		d := 0
		if n := len(a.PrunedTree); n > 0 {
			d = 1 + r.Intn(n)
		}
		a.PrunedTree = a.PrunedTree[:d]
		a.Leaf = &merkletree.ProofNode{Level: uint32(d), IsEmpty: true, Index: prefixBytes(a.LookupIndex, d)}
		return a, "empty branch at a prefix"
	case 34: // a leaf at a shorter prefix
		d := 0
		if n := len(a.PrunedTree); n > 0 {
			d = 1 + r.Intn(n)
		}
		a.PrunedTree = a.PrunedTree[:d]
		l.Level = uint32(d)
		return a, "leaf at a shorter prefix"
	case 35: // deeper
		for i := 0; i < 1+r.Intn(8); i++ {
			var h [32]byte
			r.Read(h[:])
			a.PrunedTree = append(a.PrunedTree, h)
		}
		l.Level = uint32(len(a.PrunedTree))
		return a, "deeper"
	case 36:
		a.TreeNonce, l.Index = shift(r, a.TreeNonce, l.Index)
		return a, "bytes moved between nonce and index"
	case 37:
		if l.Commitment != nil {
			lv := le32(l.Level)
			l.Index = append(l.Index, lv...)
			k := 4
			if len(l.Commitment.Value) >= k {
				lv = l.Commitment.Value[:k]
				l.Commitment.Value = l.Commitment.Value[k:]
				l.Level = uint32(lv[0]) | uint32(lv[1])<<8 | uint32(lv[2])<<16 | uint32(lv[3])<<24
				if r.Intn(2) == 0 {
					l.Level %= 257
				}
			}
		}
		return a, "bytes moved across level"
	case 38:
		if l.Commitment != nil && len(l.Value) > 0 {
			k := 1 + r.Intn(len(l.Value))
			l.Commitment.Salt = append(l.Commitment.Salt, l.Value[:k]...)
			l.Value = l.Value[k:]
		}
		return a, "bytes moved from value to salt"
	default:
		for i := r.Intn(4) + 2; i > 0; i-- {
			if a.Leaf == nil {
				break
			}
			a, _ = mutateAP(r, a, other)
		}
		return a, "several"
	}
}

func shift(r *rand.Rand, a, b []byte) ([]byte, []byte) {
	all := append(append([]byte{}, a...), b...)
	k := r.Intn(len(all) + 1)
	if r.Intn(2) == 0 && len(a) > 0 {
		k = len(a) - 1
	} else if len(b) > 0 {
		k = len(a) + 1
	}
	return dup(all[:k]), dup(all[k:])
}

// c04judge verifies the path for the name as a client does after having
// checked the index and compares with what the tree contains.
func c04judge(c *Ctx, t *evilTree, ap *merkletree.AuthenticationPath, name, what string, root []byte) bool {
	c.Eval(1)
	idx := t.e.idx(name)
	if ap == nil || ap.Leaf == nil || !bytes.Equal(ap.LookupIndex, idx) {
		return false
	}
	probe := copyAP(ap)
	want, registered := t.keys[name]
	detail := func() string {
		return fmt.Sprintf("%s; name %q registered=%v key %x; %s; tree of %d bindings, root %x", what, clip(name, 40), registered, clipB(want),
			apString(ap), len(t.order), clipB(root))
	}
	var err error
	if p, st := Guard(func() { err = probe.Verify([]byte(name), probe.Leaf.Value, root) }); p != nil {
		c.Fail("verification crashes", "%v: %s\n%s", p, detail(), clip(st, 2000))
	}
	if err != nil {
		c.Count("rejected", 1)
		return false
	}
	c.Count("accepted", 1)
	if bytes.Equal(probe.Leaf.Index, idx) {
		c.Check(probe.ProofType() == merkletree.ProofOfInclusion, "kind of an accepted proof", "%s", detail())
		c.Check(registered, "inclusion of an unregistered name is accepted", "%s", detail())
		c.Check(bytes.Equal(probe.Leaf.Value, want), "another key is accepted", "accepted %x: %s", clipB(probe.Leaf.Value), detail())
		// the caller's expectation counts
		for _, v := range [][]byte{nil, {}, append(dup(want), 0), flip(c.rnd(want), want)} {
			if !bytes.Equal(v, want) {
				c.Check(copyAP(ap).Verify([]byte(name), v, root) != nil, "a proof is accepted for another key than its own", "%x: %s", clipB(v), detail())
			}
		}
	} else {
		c.Check(probe.ProofType() == merkletree.ProofOfAbsence, "kind of an accepted proof", "%s", detail())
		c.Check(!registered, "absence of a registered name is accepted", "%s", detail())
	}
	return true
}

func (c *Ctx) rnd(b []byte) *rand.Rand {
	var s int64
	for _, x := range b {
		s = s*31 + int64(x)
	}
	return rand.New(rand.NewSource(s))
}

func runC04(c *Ctx) {
	for i := 0; i < c.N(48, 600); i++ {
		c.Case(fmt.Sprintf("mutate-%d", i), func(r *rand.Rand) {
			e := newEvil(r)
			t := e.tree(randBytes(r, 32))
			n := []int{0, 1, 2, 3, 5, 12, 40}[i%7]
			for j := 0; j < n; j++ {
				t.set(genName(r, false), genKey(r))
			}
			t2 := t.clone() // another epoch of the same directory
			for j := 0; j < 3; j++ {
				t2.set(genName(r, false), genKey(r))
			}
			var names []string
			names = append(names, t2.order...)
			for j := 0; j < 6; j++ {
				names = append(names, genName(r, false))
			}
			c04tree(c, r, t, t2, names)
		})
	}
	for k, fx := range deepFixtures() {
		c.Case(fmt.Sprintf("deep-%d", k), func(r *rand.Rand) {
			e := newEvil(r)
			s := fx.sim(c, r, false)
			e.vrfSK, e.vrfPK = s.vrfSK, s.vrfPK
			t := e.tree(randBytes(r, 32))
			for j, n := range fx.names {
				if j%2 == 0 {
					t.set(n, genKey(r))
				}
			}
			t2 := t.clone()
			t2.set(fx.names[1], genKey(r))
			c04tree(c, r, t, t2, fx.names)
		})
	}
	for i := 0; i < c.N(24, 200); i++ {
		c.Case(fmt.Sprintf("honest-%d", i), func(r *rand.Rand) { c04honest(c, r) })
	}
	for i := 0; i < c.N(60, 600); i++ {
		c.Case(fmt.Sprintf("crafted-%d", i), func(r *rand.Rand) { c04crafted(c, r) })
	}
}

func c04tree(c *Ctx, r *rand.Rand, t, t2 *evilTree, names []string) {
	root, root2 := t.root(), t2.root()
	type item struct {
		ap   *merkletree.AuthenticationPath
		name string
		root []byte
		t    *evilTree
		ok   bool
	}
	var seen []item
	aps := map[string]*merkletree.AuthenticationPath{}
	for _, n := range names {
		aps[n] = t.path(n)
	}
	rounds := c.N(40, 120)
	for _, n := range names {
		ap := aps[n]
		c.Check(c04judge(c, t, ap, n, "unaltered", root), "an unaltered path is rejected", "%q: %s", n, apString(ap))
		c.Count("unaltered accepted", 1)
		// under the other root: only if it contains the same binding
		c04judge(c, t2, ap, n, "path of another epoch", root2)
		for j := 0; j < rounds; j++ {
			other := aps[names[r.Intn(len(names))]]
			if r.Intn(3) == 0 {
				other = t2.path(names[r.Intn(len(names))])
			}
			m, what := mutateAP(r, ap, other)
			ok := c04judge(c, t, m, n, what, root)
			c.Count("altered", 1)
			if m.Leaf != nil {
				c.Distinct(jsonOf(m), n)
			}
			if r.Intn(20) == 0 {
				seen = append(seen, item{m, n, root, t, ok})
			}
			if j == 0 {
				c.Sample(what, "%q: %s accepted=%v", clip(n, 20), apString(m), ok)
			}
		}
	}
	// the result doesn't depend on what was verified before
	r.Shuffle(len(seen), func(i, j int) { seen[i], seen[j] = seen[j], seen[i] })
	for k := 0; k < 3; k++ {
		for _, s := range seen {
			ok := c04judge(c, s.t, s.ap, s.name, "again", s.root)
			c.Check(ok == s.ok, "verification depends on earlier verifications", "%s: %v, then %v", apString(s.ap), s.ok, ok)
			c.Count("re-verified", 1)
		}
	}
}

// c04honest: paths of the real directory, altered, against its real roots.
func c04honest(c *Ctx, r *rand.Rand) {
	s := newSim(c, r, 100, 1, true)
	for e := 0; e < 3; e++ {
		for j := r.Intn(8); j >= 0; j-- {
			name, key := s.pickName(), genKey(r)
			s.expectRegister(s.register(name, key), name, key)
		}
		s.update()
	}
	e := &evilDir{r: r, signSK: s.signSK, signPK: s.signPK, vrfSK: s.vrfSK, vrfPK: s.vrfPK, idxs: map[string][]byte{}, proofs: map[string][]byte{}}
	for ep := uint64(1); ep <= s.epoch; ep++ {
		t := e.tree(nil)
		for n, k := range s.leafKeys(ep) {
			t.keys[n] = k
		}
		var names []string
		for _, g := range s.order {
			names = append(names, g.name)
		}
		names = append(names, "absent", "nobody", genName(r, true))
		get := func(n string) *merkletree.AuthenticationPath {
			return proofOf(s.lookupIn(n, ep)).AP[0]
		}
		for _, n := range names {
			if n == "" {
				continue
			}
			ap := get(n)
			c.Check(c04judge(c, t, ap, n, "unaltered", s.strs[ep].TreeHash), "an honest path is rejected", "%q in %d: %s", n, ep, apString(ap))
			c.Count("unaltered accepted", 1)
			for j := 0; j < 20; j++ {
				other := get(names[r.Intn(len(names))])
				m, what := mutateAP(r, ap, other)
				c04judge(c, t, m, n, what, s.strs[ep].TreeHash)
				c.Count("altered", 1)
				c.Distinct(jsonOf(m), n)
			}
		}
	}
}

// pathRoot folds a leaf hash up a path of given siblings.
func foldUp(h, idx []byte, sib [][32]byte) []byte {
	for d := len(sib) - 1; d >= 0; d-- {
		if bit(idx, d) == 1 {
			h = refDigest(sib[d][:], h)
		} else {
			h = refDigest(h, sib[d][:])
		}
	}
	return h
}

func sibs(r *rand.Rand, n int) [][32]byte {
	out := make([][32]byte, n)
	for i := range out {
		r.Read(out[i][:])
	}
	return out
}

// c04crafted: two proofs with different meanings built for one root by a
// directory that chooses nonce, salts and keys. At most one may be accepted.
func c04crafted(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	both := func(what, name string, root []byte, a, b *merkletree.AuthenticationPath) {
		c.Eval(1)
		c.Count("crafted", 1)
		c.Distinct(jsonOf(a), jsonOf(b))
		var acc []string
		for _, ap := range []*merkletree.AuthenticationPath{a, b} {
			ap.LookupIndex, ap.VrfProof = dup(e.idx(name)), dup(e.vrfProof(name))
			p := copyAP(ap)
			var err error
			if pn, st := Guard(func() { err = p.Verify([]byte(name), p.Leaf.Value, root) }); pn != nil {
				c.Fail("verification crashes", "%s: %v\n%s", what, pn, clip(st, 2000))
			}
			if err == nil {
				if p.ProofType() == merkletree.ProofOfInclusion {
					acc = append(acc, fmt.Sprintf("inclusion of %x", p.Leaf.Value))
				} else {
					acc = append(acc, "absence")
				}
			}
		}
		c.Check(len(acc) < 2 || acc[0] == acc[1], "one root proves two things about a name", "%s: name %q root %x: %v", what, name, clipB(root), acc)
		c.Sample(what, "%s / %s", apString(a), apString(b))
	}
	name := genName(r, false)
	idx := e.idx(name)
	leaf := func(nonce []byte, level int, index, value, salt, cv []byte) *merkletree.AuthenticationPath {
		return &merkletree.AuthenticationPath{TreeNonce: nonce, Leaf: &merkletree.ProofNode{Level: uint32(level), Index: index, Value: value,
			Commitment: &crypto.Commit{Salt: salt, Value: cv}}}
	}
	// 1. a key that contains the name: the salt takes a part of it
	{
		x, y := randBytes(r, r.Intn(20)), randBytes(r, 1+r.Intn(20))
		key := append(append(dup(x), name...), y...)
		salt, nonce := randBytes(r, 32), randBytes(r, 32)
		cv := refDigest(salt, []byte(name), key)
		level := 1 + r.Intn(20)
		sib := sibs(r, level)
		root := foldUp(refDigest([]byte{'L'}, nonce, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(nonce, level, dup(idx), key, salt, cv)
		b := leaf(nonce, level, dup(idx), y, append(append(dup(salt), name...), x...), cv)
		a.PrunedTree, b.PrunedTree = sib, sib
		both("value split by the name", name, root, a, b)
	}
	// 1b. the same with a short salt
	{
		y := randBytes(r, 1+r.Intn(20))
		salt := append(append(randBytes(r, r.Intn(20)), name...), randBytes(r, 1+r.Intn(9))...)
		full := append(append(dup(salt), name...), y...)
		cv := refDigest(full)
		i := bytes.Index(full, []byte(name))
		level := 1 + r.Intn(20)
		nonce := randBytes(r, 32)
		sib := sibs(r, level)
		root := foldUp(refDigest([]byte{'L'}, nonce, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(nonce, level, dup(idx), y, salt, cv)
		b := leaf(nonce, level, dup(idx), dup(full[i+len(name):]), dup(full[:i]), cv)
		a.PrunedTree, b.PrunedTree = sib, sib
		both("short salt", name, root, a, b)
	}
	// 2. a long nonce that contains another leaf
	{
		level := 1 + r.Intn(20)
		key, salt := genKey(r), randBytes(r, 32)
		cv := refDigest(salt, []byte(name), key)
		other := dup(idx)
		other[31] ^= 1 + byte(r.Intn(255))
		A := randBytes(r, r.Intn(33))
		long := append(append(dup(A), other...), le32(uint32(level))...)
		sib := sibs(r, level)
		root := foldUp(refDigest([]byte{'L'}, long, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(long, level, dup(idx), key, salt, cv)
		b := leaf(A, level, other, nil, nil, append(append(dup(idx), le32(uint32(level))...), cv...))
		a.PrunedTree, b.PrunedTree = sib, sib
		both("leaf within the nonce", name, root, a, b)
	}
	// 3. the leaf of an inclusion, read as an empty branch, and vice versa
	{
		level := 1 + r.Intn(255)
		nonce := randBytes(r, r.Intn(40))
		sib := sibs(r, level)
		pre := prefixBytes(idx, level)
		root := foldUp(refDigest([]byte{'E'}, nonce, pre, le32(uint32(level))), idx, sib)
		a := &merkletree.AuthenticationPath{TreeNonce: nonce, PrunedTree: sib,
			Leaf: &merkletree.ProofNode{Level: uint32(level), IsEmpty: true, Index: pre}}
		all := append(dup(nonce), pre...)
		if len(all) >= 32 { // the same bytes with a full index
			b := &merkletree.AuthenticationPath{TreeNonce: dup(all[:len(all)-32]), PrunedTree: sib,
				Leaf: &merkletree.ProofNode{Level: uint32(level), IsEmpty: true, Index: dup(all[len(all)-32:]), Value: []byte("k")}}
			b.Leaf.Commitment = &crypto.Commit{Salt: randBytes(r, 32)}
			b.Leaf.Commitment.Value = refDigest(b.Leaf.Commitment.Salt, []byte(name), b.Leaf.Value)
			both("empty branch with a full index", name, root, a, b)
		}
	}
	// 4. an empty branch at full depth, "including" any key
	{
		level := 249 + r.Intn(8)
		for n := 0; ; n++ { // a name whose index ends in the zero bits of the prefix
			name = fmt.Sprintf("%s#%d", clip(name, 10), n)
			if bytes.Equal(prefixBytes(e.vrfSK.Compute([]byte(name)), level), e.vrfSK.Compute([]byte(name))) {
				break
			}
			if n > 40 {
				level = 256
			}
		}
		idx := e.idx(name)
		nonce := randBytes(r, 32)
		sib := sibs(r, level)
		root := foldUp(refDigest([]byte{'E'}, nonce, idx, le32(uint32(level))), idx, sib)
		mk := func(v []byte) *merkletree.AuthenticationPath {
			ap := &merkletree.AuthenticationPath{TreeNonce: nonce, PrunedTree: sib,
				Leaf: &merkletree.ProofNode{Level: uint32(level), IsEmpty: true, Index: dup(idx), Value: v}}
			ap.Leaf.Commitment = &crypto.Commit{Salt: randBytes(r, 32)}
			ap.Leaf.Commitment.Value = refDigest(ap.Leaf.Commitment.Salt, []byte(name), v)
			return ap
		}
		both("empty branch includes keys", name, root, mk([]byte("one")), mk([]byte("two")))
	}
	// 5. a leaf index that is longer or shorter than the lookup index
	{
		level := 1 + r.Intn(20)
		nonce := randBytes(r, 32)
		key, salt := genKey(r), randBytes(r, 32)
		cv := refDigest(salt, []byte(name), key)
		sib := sibs(r, level)
		idx := e.idx(name)
		root := foldUp(refDigest([]byte{'L'}, nonce, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(nonce, level, dup(idx), key, salt, cv)
		b := leaf(dup(nonce[:31]), level, append(dup(nonce[31:]), idx...), nil, nil, cv)
		a.PrunedTree, b.PrunedTree = sib, sib
		both("index of 33 bytes", name, root, a, b)
		// built so that the long index has the prefix of the lookup index
		n2 := append(randBytes(r, 31), idx[0])
		i2 := append([]byte{idx[0]}, idx...)
		_ = i2
		root = foldUp(refDigest([]byte{'L'}, n2, idx, le32(uint32(min(level, 8))), cv), idx, sib[:min(level, 8)])
		a = leaf(n2, min(level, 8), dup(idx), key, salt, cv)
		b = leaf(dup(n2[:31]), min(level, 8), append([]byte{n2[31]}, idx...), nil, nil, cv)
		a.PrunedTree, b.PrunedTree = sib[:min(level, 8)], sib[:min(level, 8)]
		both("index of 33 bytes with the prefix", name, root, a, b)
	}
	// 6. a short index takes the place of the other fields
	{
		level := 1 + r.Intn(8)
		key, salt := genKey(r), randBytes(r, 32)
		cv := refDigest(salt, []byte(name), key)
		nonce := append(randBytes(r, 20), byte(idx[0]))
		nonce = append(nonce, le32(uint32(level))...)
		sib := sibs(r, level)
		idx := e.idx(name)
		nonce[20] = idx[0]
		root := foldUp(refDigest([]byte{'L'}, nonce, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(nonce, level, dup(idx), key, salt, cv)
		b := leaf(dup(nonce[:20]), level, []byte{idx[0]}, nil, nil, append(append(dup(idx), le32(uint32(level))...), cv...))
		a.PrunedTree, b.PrunedTree = sib, sib
		both("index of one byte", name, root, a, b)
	}
	// 7. an interior node read as something else, a leaf read as interior
	{
		level := 1 + r.Intn(6)
		nonce := randBytes(r, 32)
		key, salt := genKey(r), randBytes(r, 32)
		idx := e.idx(name)
		cv := refDigest(salt, []byte(name), key)
		sib := sibs(r, level)
		root := foldUp(refDigest([]byte{'L'}, nonce, idx, le32(uint32(level)), cv), idx, sib)
		a := leaf(nonce, level, dup(idx), key, salt, cv)
		a.PrunedTree = sib
		// absence by the very same leaf with an index that has equal bits
		o := dup(idx)
		o[31] ^= 1
		b := leaf(nonce, level, o, nil, nil, cv)
		b.PrunedTree = sib
		both("neighbour index", name, root, a, b)
		// the same leaf, claimed at another position
		d := leaf(nonce, level, dup(idx), nil, nil, cv)
		d.Leaf.Index[0] ^= 0x80
		d.PrunedTree = sib
		both("leaf of another branch", name, root, a, d)
		// absence without comparing bits: another registered leaf elsewhere
		x := dup(idx)
		x[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		h1, h2 := refDigest([]byte{'L'}, nonce, idx, le32(1), cv), []byte(nil)
		far := dup(idx)
		far[0] ^= 0x80
		cv2 := randBytes(r, 32)
		h2 = refDigest([]byte{'L'}, nonce, far, le32(1), cv2)
		var s1, s2 [32]byte
		copy(s1[:], h2)
		copy(s2[:], h1)
		root = foldUp(h1, idx, [][32]byte{s1})
		a = leaf(nonce, 1, dup(idx), key, salt, cv)
		a.PrunedTree = [][32]byte{s1}
		b = leaf(nonce, 1, far, nil, nil, cv2)
		b.PrunedTree = [][32]byte{s2}
		both("absence by a leaf elsewhere", name, root, a, b)
		// empty branch elsewhere
		hE := refDigest([]byte{'E'}, nonce, prefixBytes(far, 1), le32(1))
		copy(s1[:], hE)
		root = foldUp(h1, idx, [][32]byte{s1})
		a = leaf(nonce, 1, dup(idx), key, salt, cv)
		a.PrunedTree = [][32]byte{s1}
		b = &merkletree.AuthenticationPath{TreeNonce: nonce, PrunedTree: [][32]byte{s2},
			Leaf: &merkletree.ProofNode{Level: 1, IsEmpty: true, Index: prefixBytes(far, 1)}}
		both("absence by an empty branch elsewhere", name, root, a, b)
		// an empty branch in an empty position, and an inclusion at another
		f := leaf(nonce, 1, dup(idx), []byte("other"), randBytes(r, 32), nil)
		f.Leaf.Commitment.Value = refDigest(f.Leaf.Commitment.Salt, []byte(name), []byte("other"))
		f.PrunedTree = [][32]byte{s1}
		both("another commitment", name, root, a, f)
	}
	// 8. deep trees: two branches that part after p bits, the name's leaf in
	// one of them
	for _, p := range []int{r.Intn(32), 32 + r.Intn(32), 64 + r.Intn(64), 128 + r.Intn(127), 255 - r.Intn(3)} {
		name := genName(r, false)
		idx := e.idx(name)
		l1, l2 := p+1+r.Intn(256-p), p+1+r.Intn(256-p)
		if r.Intn(3) == 0 {
			l1, l2 = p+1, p+1
		}
		nonce, key, salt := randBytes(r, 32), genKey(r), randBytes(r, 32)
		cv, cv2 := refDigest(salt, []byte(name), key), randBytes(r, 32)
		far := dup(idx)
		far[p>>3] ^= 0x80 >> uint(p&7)
		for i := p + 1; i < 256; i++ { // the bits below are free
			if r.Intn(4) == 0 {
				far[i>>3] ^= 0x80 >> uint(i&7)
			}
		}
		shared, s1, s2 := sibs(r, p), sibs(r, l1), sibs(r, l2)
		h1 := refDigest([]byte{'L'}, nonce, idx, le32(uint32(l1)), cv)
		join := func(h2 []byte, far []byte) []byte {
			copy(s1, shared)
			copy(s2, shared)
			sub := func(h, idx []byte, sib [][32]byte, l int) []byte {
				for d := l - 1; d > p; d-- {
					if bit(idx, d) == 1 {
						h = refDigest(sib[d][:], h)
					} else {
						h = refDigest(h, sib[d][:])
					}
				}
				return h
			}
			copy(s2[p][:], sub(h1, idx, s1, l1))
			copy(s1[p][:], sub(h2, far, s2, l2))
			return foldUp(h1, idx, s1)
		}
		accepts := func(ap *merkletree.AuthenticationPath, root []byte) bool {
			ap = copyAP(ap)
			ap.LookupIndex, ap.VrfProof = dup(idx), dup(e.vrfProof(name))
			var err error
			if pn, st := Guard(func() { err = ap.Verify([]byte(name), ap.Leaf.Value, root) }); pn != nil {
				c.Fail("verification crashes", "deep path: %v\n%s", pn, clip(st, 2000))
			}
			return err == nil
		}
		root := join(refDigest([]byte{'L'}, nonce, far, le32(uint32(l2)), cv2), far)
		a := leaf(nonce, l1, dup(idx), key, salt, cv)
		a.PrunedTree = append([][32]byte(nil), s1...)
		b := leaf(nonce, l2, dup(far), nil, nil, cv2)
		b.PrunedTree = append([][32]byte(nil), s2...)
		c.Check(accepts(a, root), "an unaltered path is rejected", "%q at level %d: %s", name, l1, apString(a))
		c.Count("deep accepted", 1)
		both("absence by a deep leaf elsewhere", name, root, copyAP(a), copyAP(b))
		for i := 0; i < 12; i++ { // every part of the path is bound to the root
			m := copyAP(a)
			what := ""
			switch d := r.Intn(l1); i % 6 {
			case 0, 1:
				m.PrunedTree[d][r.Intn(32)] ^= 1 << uint(r.Intn(8))
				what = fmt.Sprintf("sibling %d altered", d)
			case 2:
				m.PrunedTree[l1-1][r.Intn(32)] ^= 1 << uint(r.Intn(8))
				what = "lowest sibling altered"
			case 3:
				m.PrunedTree = m.PrunedTree[:l1-1]
				what = "lowest sibling missing"
			case 4:
				m.Leaf.Level--
				m.PrunedTree = m.PrunedTree[:l1-1]
				what = "one level less"
			case 5:
				d2 := r.Intn(l1)
				if m.PrunedTree[d] == m.PrunedTree[d2] {
					continue
				}
				m.PrunedTree[d], m.PrunedTree[d2] = m.PrunedTree[d2], m.PrunedTree[d]
				what = fmt.Sprintf("siblings %d and %d exchanged", d, d2)
			}
			c.Check(!accepts(m, root), "an altered path is accepted", "level %d: %s", l1, what)
			c.Count("deep altered", 1)
		}
		root = join(refDigest([]byte{'E'}, nonce, prefixBytes(far, l2), le32(uint32(l2))), far)
		a = leaf(nonce, l1, dup(idx), key, salt, cv)
		a.PrunedTree = append([][32]byte(nil), s1...)
		b = &merkletree.AuthenticationPath{TreeNonce: nonce, PrunedTree: append([][32]byte(nil), s2...),
			Leaf: &merkletree.ProofNode{Level: uint32(l2), IsEmpty: true, Index: prefixBytes(far, l2)}}
		c.Check(accepts(a, root), "an unaltered path is rejected", "%q at level %d: %s", name, l1, apString(a))
		both("absence by a deep empty branch elsewhere", name, root, copyAP(a), copyAP(b))
		// absence, by a leaf or an empty branch that has the name's prefix
		o := dup(idx)
		if l1 < 256 {
			for i := l1; i < 256; i++ {
				if r.Intn(2) == 0 {
					o[i>>3] ^= 0x80 >> uint(i&7)
				}
			}
		}
		if !bytes.Equal(o, idx) {
			a = leaf(nonce, l1, o, nil, nil, cv2)
			a.PrunedTree = append([][32]byte(nil), s1...)
			root = foldUp(refDigest([]byte{'L'}, nonce, o, le32(uint32(l1)), cv2), o, s1)
			c.Check(accepts(a, root), "an unaltered path is rejected", "absence of %q at level %d: %s", name, l1, apString(a))
			c.Count("deep accepted", 1)
		}
		a = &merkletree.AuthenticationPath{TreeNonce: nonce, PrunedTree: append([][32]byte(nil), s1...),
			Leaf: &merkletree.ProofNode{Level: uint32(l1), IsEmpty: true, Index: prefixBytes(idx, l1)}}
		if !bytes.Equal(a.Leaf.Index, idx) {
			root = foldUp(refDigest([]byte{'E'}, nonce, a.Leaf.Index, le32(uint32(l1))), idx, s1)
			c.Check(accepts(a, root), "an unaltered path is rejected", "absence of %q at level %d: %s", name, l1, apString(a))
			c.Count("deep accepted", 1)
		}
	}
}
