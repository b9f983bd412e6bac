package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	appclient "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/utils"
)

func init() {
	register(&Property{ID: "C22", Level: "exploration", Run: runC22,
		Rule: "commitments, digests, salts and signatures compared with independent implementations, altered in every field and made under failing or replayed randomness; non-trivial: an altered commitment or signature, or a fault, distinct by (kind, sizes)",
		Need: map[string]int64{"large values": 30, "commitments": 1500, "altered commitments rejected": 15000, "salts": 3000, "faults": 200, "digests": 4000, "signatures": 500, "altered signatures rejected": 15000}})
	register(&Property{ID: "C24", Level: "exploration", Run: runC24,
		Rule: "messages encoded and decoded, field by field compared, signed encodings split again into their fields by an independent decoder, conversions compared with their definition; non-trivial: a message with a boundary value (number, length, unicode), distinct by its encoding",
		Need: map[string]int64{"requests": 3000, "responses": 2000, "signed encodings": 4000, "conversions": 50000, "verified after decoding": 400, "mismatched kinds": 1000}})
}

// ---- C22 ----

// roomy copies b into a longer backing array whose rest is watched.
type roomy struct {
	b    []byte
	full []byte
	want []byte
}

func mkRoomy(r *rand.Rand, b []byte) *roomy {
	full := append(append([]byte{}, b...), randBytes(r, 80)...)
	return &roomy{b: full[:len(b)], full: full, want: dup(full)}
}

func parts(r *rand.Rand) []*roomy {
	var ps []*roomy
	n := r.Intn(5)
	if r.Intn(8) == 0 {
		n = 5 + r.Intn(20)
	}
	for ; n >= 0; n-- {
		l := []int{0, 1, 31, 32, 33, 64, 136, 168, 200, r.Intn(1000)}[r.Intn(10)]
		ps = append(ps, mkRoomy(r, randBytes(r, l)))
	}
	if r.Intn(10) == 0 {
		return nil
	}
	return ps
}

func bytesOf(ps []*roomy) [][]byte {
	var o [][]byte
	for _, p := range ps {
		o = append(o, p.b)
	}
	return o
}

func untouched(c *Ctx, ps []*roomy, what string) {
	for _, p := range ps {
		c.Check(bytes.Equal(p.full, p.want), "an argument is modified: "+what, "%x became %x", p.want, p.full)
	}
}

func runC22(c *Ctx) {
	for i := 0; i < c.N(40, 1000); i++ {
		c.Case(fmt.Sprintf("digest-%d", i), func(r *rand.Rand) { c22digest(c, r) })
		c.Case(fmt.Sprintf("commit-%d", i), func(r *rand.Rand) { c22commit(c, r) })
		c.Case(fmt.Sprintf("sign-%d", i), func(r *rand.Rand) { c22sign(c, r, i) })
	}
	for i := 0; i < c.N(16, 200); i++ {
		c.Case(fmt.Sprintf("random-%d", i), func(r *rand.Rand) { c22random(c, r) })
		c.Case(fmt.Sprintf("salts-%d", i), func(r *rand.Rand) { c22salts(c, r) })
	}
	for i := 0; i < c.N(8, 40); i++ {
		c.Case(fmt.Sprintf("large-%d", i), func(r *rand.Rand) { c22large(c, r, i) })
	}
}

// c22large hashes, commits to and signs values of many sizes: around powers of
// two, in one part and in several. Every byte counts, the last ones too.
func c22large(c *Ctx, r *rand.Rand, i int) {
	sk, err := sign.GenerateKey(nil)
	c.Must(err)
	pk, _ := sk.Public()
	sizes := []int{1<<12 + 1, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 18, 1<<20 + r.Intn(1000)}
	if i%4 == 0 {
		sizes = append(sizes, 1<<21+3, 3<<20+r.Intn(1<<20))
	}
	for _, n := range sizes {
		all := randBytes(r, n)
		var in [][]byte
		switch r.Intn(3) {
		case 0:
			in = [][]byte{all}
		case 1: // large after small
			for k := 0; k < 6; k++ {
				in = append(in, all[k:k+1])
			}
			in = append(in, all[6:])
		default:
			for k := 0; k < n; {
				l := min(n-k, 1+r.Intn(n))
				in = append(in, all[k:k+l])
				k += l
			}
		}
		c.Check(bytes.Equal(crypto.Digest(in...), refDigest(all)), "digest", "of %d bytes in %d parts", n, len(in))
		cm, err := crypto.NewCommit(in...)
		c.Check(err == nil && cm.Verify(in...) && cm.Verify(all), "a commitment doesn't verify", "%d bytes in %d parts: %v", n, len(in), err)
		c.Check(bytes.Equal(cm.Value, refDigest(cm.Salt, all)), "commitment", "to %d bytes", n)
		sig := sk.Sign(all)
		_, want := refSign(sk[:32], all)
		c.Check(pk.Verify(all, sig) && bytes.Equal(sig, want), "a signature doesn't verify", "%d bytes", n)
		for _, at := range []int{0, n - 1, n / 2, r.Intn(n), n - 1 - r.Intn(64)} {
			x := dup(all)
			x[at] ^= 1 << uint(r.Intn(8))
			c.Check(!cm.Verify(x), "a commitment verifies for other values: byte of a large value", "byte %d of %d", at, n)
			c.Check(!pk.Verify(x, sig), "another signature, message or key verifies: byte of a large message", "byte %d of %d", at, n)
		}
		c.Count("large values", 1)
		c.Eval(1)
	}
}

func c22digest(c *Ctx, r *rand.Rand) {
	for j := 0; j < 120; j++ {
		ps := parts(r)
		for many := 400; j%12 == 0 && many > 0; {
			more := parts(r)
			ps = append(ps, more...)
			many -= 1 + len(more)
		}
		in := bytesOf(ps)
		d := crypto.Digest(in...)
		c.Check(bytes.Equal(d, refDigest(in...)), "digest", "of %d parts: %x, specified %x", len(in), d, refDigest(in...))
		untouched(c, ps, "Digest")
		d2 := crypto.Digest(in...)
		d[0]++
		c.Check(bytes.Equal(d2, refDigest(in...)) && bytes.Equal(crypto.Digest(in...), d2), "digest", "two results share memory")
		c.Count("digests", 1)
	}
	c.Eval(1)
}

func c22commit(c *Ctx, r *rand.Rand) {
	for j := 0; j < 60; j++ {
		c.Eval(1)
		ps := parts(r)
		vals := bytesOf(ps)
		cm, err := crypto.NewCommit(vals...)
		c.Check(err == nil && cm != nil, "commitment", "%v", err)
		untouched(c, ps, "NewCommit")
		c.Check(len(cm.Salt) == 32 && bytes.Equal(cm.Value, refDigest(append([][]byte{cm.Salt}, vals...)...)), "commitment", "salt %x value %x over %d parts", cm.Salt, cm.Value, len(vals))
		all := bytes.Join(vals, nil)
		rs, rv := mkRoomy(r, cm.Salt), mkRoomy(r, cm.Value)
		cl := &crypto.Commit{Salt: rs.b, Value: rv.b}
		vs := append(make([][]byte, 0, len(vals)+4), vals...)
		c.Check(cl.Verify(vs...) && cm.Verify(vals...), "a commitment doesn't verify", "%d parts", len(vals))
		untouched(c, append([]*roomy{rs, rv}, ps...), "Verify")
		one := mkRoomy(r, cm.Salt)
		(&crypto.Commit{Salt: one.b, Value: cm.Value}).Verify(all)
		untouched(c, []*roomy{one}, "Verify")
		c.Check(bytes.Equal(cl.Salt, cm.Salt) && bytes.Equal(cl.Value, cm.Value), "an argument is modified: Verify", "%x %x", cl.Salt, cl.Value)
		c.Count("commitments", 1)
		reject := func(kind string, salt, value []byte, vals ...[]byte) {
			var got bool
			if p, st := Guard(func() { got = (&crypto.Commit{Salt: salt, Value: value}).Verify(vals...) }); p != nil {
				c.Fail("verification of a commitment crashes", "%s: %v %s", kind, p, clip(st, 1000))
			}
			c.Check(!got, "a commitment verifies for other values: "+kind, "made for %x: salt %x value %x verifies for %x", clipB(all), salt, value, clipB(bytes.Join(vals, nil)))
			c.Count("altered commitments rejected", 1)
			c.Distinct(kind, len(all))
		}
		reject("value bit", cm.Salt, cm.Value, flip(r, all))
		reject("longer value", cm.Salt, cm.Value, all, []byte{byte(r.Intn(256))})
		reject("longer value by zero", cm.Salt, cm.Value, all, []byte{0})
		if len(all) > 0 {
			reject("shorter value", cm.Salt, cm.Value, all[:len(all)-1])
			reject("value without its first byte", cm.Salt, cm.Value, all[1:])
			reject("no value", cm.Salt, cm.Value)
			reject("value twice", cm.Salt, cm.Value, all, all)
			// bytes moved between salt and value
			k := 1 + r.Intn(len(all))
			reject("bytes moved to the salt", append(dup(cm.Salt), all[:k]...), cm.Value, all[k:])
		}
		k := 1 + r.Intn(32)
		reject("bytes moved from the salt", cm.Salt[:32-k], cm.Value, append(dup(cm.Salt[32-k:]), all...))
		reject("no salt, all in the value", nil, cm.Value, append(dup(cm.Salt), all...))
		reject("salt bit", flip(r, cm.Salt), cm.Value, all)
		reject("commitment bit", cm.Salt, flip(r, cm.Value), all)
		for _, l := range []int{0, 1, 31} {
			reject("short commitment", cm.Salt, cm.Value[:l], all)
			reject("short salt", cm.Salt[:l], cm.Value, all)
		}
		reject("long commitment", cm.Salt, append(dup(cm.Value), 0), all)
		reject("long salt", append(dup(cm.Salt), 0), cm.Value, all)
		reject("nothing", nil, nil, all)
		if len(vals) > 1 && !bytes.Equal(bytes.Join([][]byte{vals[1], vals[0]}, nil), bytes.Join(vals[:2], nil)) {
			sw := append([][]byte{vals[1], vals[0]}, vals[2:]...)
			reject("values swapped", cm.Salt, cm.Value, sw...)
		}
		other, err := crypto.NewCommit(vals...)
		c.Check(err == nil && !bytes.Equal(other.Salt, cm.Salt) && !bytes.Equal(other.Value, cm.Value), "a salt is used twice", "%x", cm.Salt)
		reject("salt of another commitment", other.Salt, cm.Value, all)
	}
}

// short delivers its bytes in small pieces.
type short struct{ r io.Reader }

func (s short) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	return s.r.Read(p)
}

func c22random(c *Ctx, r *rand.Rand) {
	// record what one call consumes, then replay it altered
	var log [][]byte
	entropy.mu.Lock()
	entropy.log = &log
	entropy.mu.Unlock()
	v, err := crypto.MakeRand()
	entropy.mu.Lock()
	entropy.log = nil
	entropy.mu.Unlock()
	c.Check(err == nil && len(v) == 32, "randomness", "%x %v", v, err)
	used := bytes.Join(log, nil)
	c.Check(len(used) >= 32, "too little of the system's randomness is used", "%d bytes", len(used))
	for i := 0; i+8 <= len(v); i += 4 {
		c.Check(!bytes.Contains(used, v[i:i+8]), "the system's randomness is revealed", "%x in %x", v, used)
	}
	c.Check(bytes.Equal(v, crypto.Digest(used)) || len(used) != 32, "randomness isn't hashed", "%x from %x", v, used)
	replay := func(b []byte, f func() []byte) []byte {
		entropy.mu.Lock()
		old := entropy.src
		entropy.src = bytes.NewReader(b)
		entropy.mu.Unlock()
		o := f()
		entropy.mu.Lock()
		entropy.src = old
		entropy.mu.Unlock()
		return o
	}
	mk := func() []byte { v, _ := crypto.MakeRand(); return v }
	salt := func() []byte {
		cm, err := crypto.NewCommit([]byte("x"))
		if err != nil {
			return nil
		}
		return cm.Salt
	}
	c.Check(bytes.Equal(replay(used, mk), v), "randomness doesn't come from the system's", "other output for the same input")
	s0 := replay(used, salt)
	for i := range used {
		b := dup(used)
		b[i] ^= 1 << uint(r.Intn(8))
		c.Check(!bytes.Equal(replay(b, mk), v), "a part of the randomness is ignored", "byte %d", i)
		c.Check(!bytes.Equal(replay(b, salt), s0), "a part of the randomness is ignored", "byte %d of a salt", i)
		c.Count("faults", 1)
	}
	seen := map[string]bool{}
	for i := 0; i < 100; i++ {
		v, err := crypto.MakeRand()
		c.Check(err == nil && !seen[string(v)], "randomness repeats", "%x", v)
		seen[string(v)] = true
	}
	// failures: at once, after some bytes, short
	type fault struct {
		name string
		src  io.Reader
	}
	fresh := func() []fault {
		fs := []fault{{"error", errReader{}}}
		for _, n := range []int{1, 8, 16, 31} {
			fs = append(fs, fault{fmt.Sprintf("error after %d bytes", n), io.MultiReader(bytes.NewReader(randBytes(r, n)), errReader{})},
				fault{fmt.Sprintf("end after %d bytes", n), bytes.NewReader(randBytes(r, n))})
		}
		return fs
	}
	ops := []struct {
		name string
		f    func() (bool, error)
	}{
		{"MakeRand", func() (bool, error) { v, err := crypto.MakeRand(); return v == nil, err }},
		{"NewCommit", func() (bool, error) { v, err := crypto.NewCommit([]byte("v")); return v == nil, err }},
		{"NewMerkleTree", func() (bool, error) { v, err := merkletree.NewMerkleTree(); return v == nil, err }},
		{"NewPAD", func() (bool, error) {
			sk, _, vk, vpk := newKeys(r)
			v, err := merkletree.NewPAD(protocol.NewPolicies(1, vpk), sk, vk, 3)
			return v == nil, err
		}},
		{"vrf.GenerateKey", func() (bool, error) { _, err := vrf.GenerateKey(nil); return err != nil, err }},
		{"sign.GenerateKey", func() (bool, error) { _, err := sign.GenerateKey(nil); return err != nil, err }},
	}
	for _, op := range ops {
		n := len(fresh())
		for k := 0; k < n; k++ {
			f := fresh()[k]
			entropy.mu.Lock()
			entropy.src = f.src
			entropy.mu.Unlock()
			var none bool
			var err error
			p, _ := Guard(func() { none, err = op.f() })
			entropy.mu.Lock()
			entropy.src = nil
			entropy.mu.Unlock()
			// a panic reports the failure, too, where there is no error to return
			c.Check(p != nil || err != nil, "failing randomness is used", "%s with %s", op.name, f.name)
			c.Check(p != nil || none, "a value is returned in spite of failing randomness", "%s with %s", op.name, f.name)
			c.Count("faults", 1)
			c.Distinct("fault", op.name, f.name)
		}
		// small pieces are no failure
		entropy.mu.Lock()
		entropy.src = short{sub(r)}
		entropy.mu.Unlock()
		_, err := op.f()
		entropy.mu.Lock()
		entropy.src = nil
		entropy.mu.Unlock()
		c.Check(err == nil, "randomness in small pieces fails", "%s: %v", op.name, err)
	}
	// the tree: a failing insertion is reported
	m, err := merkletree.NewMerkleTree()
	c.Must(err)
	idx := randBytes(r, 32)
	entropy.setFail(func(int64) bool { return true })
	err = m.Set(idx, "k", []byte("v"))
	entropy.setFail(nil)
	c.Check(err != nil, "failing randomness is used", "insertion into the tree")
	c.Eval(1)
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("injected: no entropy") }

// c22salts: the commitments and nonces a directory makes.
func c22salts(c *Ctx, r *rand.Rand) {
	seen := map[string]string{}
	add := func(b []byte, what string) {
		c.Check(len(b) == 32, "size of a salt", "%s: %d bytes", what, len(b))
		old, ok := seen[string(b)]
		c.Check(!ok, "a salt is used twice", "%s and %s: %x", old, what, b)
		seen[string(b)] = what
		c.Count("salts", 1)
	}
	for d := 0; d < 3; d++ {
		s := newSim(c, r, 100, 1, false)
		key := genKey(r) // the same key for everyone
		for i := 0; i < 70; i++ {
			name := fmt.Sprintf("user %d", i)
			s.expectRegister(s.register(name, key), name, key)
		}
		s.update()
		for i := 0; i < 70; i++ {
			name := fmt.Sprintf("user %d", i)
			p := proofOf(s.lookup(name))
			if i == 0 {
				add(p.AP[0].TreeNonce, "tree nonce")
			}
			cm := p.AP[0].Leaf.Commitment
			add(cm.Salt, fmt.Sprintf("salt in directory %d for %s", d, name))
			c.Check(!bytes.Equal(cm.Salt, cm.Value), "a salt is the commitment", "%x", cm.Salt)
			c.Check(bytes.Equal(cm.Value, refDigest(cm.Salt, []byte(name), key)), "commitment of a binding", "%s", name)
			// nothing that is public determines it
			for k, v := range map[string][]byte{"name": []byte(name), "key": key, "index": p.AP[0].LookupIndex, "nonce": p.AP[0].TreeNonce} {
				c.Check(!bytes.Equal(cm.Salt, refDigest(v)) && !bytes.Equal(cm.Salt, v), "a salt is derived from "+k, "%x", cm.Salt)
			}
		}
	}
	// twin directories: same keys, same requests, other randomness
	seed := r.Int63()
	twin := func() []byte {
		s := newSim(c, rand.New(rand.NewSource(seed)), 100, 1, false)
		s.expectRegister(s.register("a", []byte("k")), "a", []byte("k"))
		s.update()
		return proofOf(s.lookup("a")).AP[0].Leaf.Commitment.Salt
	}
	a, b := twin(), twin()
	c.Check(!bytes.Equal(a, b), "a salt doesn't depend on the system's randomness", "%x", a)
	c.Eval(1)
}

// refSign is RFC 8032 on big integers.
func refSign(seed, msg []byte) (pk, sig []byte) {
	h := sha512.Sum512(seed)
	x := dup(h[:32])
	x[0] &= 248
	x[31] = x[31]&127 | 64
	a := leInt(x)
	pk = basePoint.mul(a).bytes()
	rh := sha512.Sum512(append(dup(h[32:]), msg...))
	rr := new(big.Int).Mod(leInt(rh[:]), groupL)
	rb := basePoint.mul(rr).bytes()
	kh := sha512.Sum512(append(append(dup(rb), pk...), msg...))
	k := new(big.Int).Mod(leInt(kh[:]), groupL)
	s := new(big.Int).Mul(k, a)
	s.Add(s, rr).Mod(s, groupL)
	return pk, append(rb, leBytes(s, 32)...)
}

func c22sign(c *Ctx, r *rand.Rand, i int) {
	seed := randBytes(r, 32)
	switch i {
	case 0:
		seed = make([]byte, 32)
	case 1:
		seed = bytes.Repeat([]byte{0xff}, 32)
	}
	sk, err := sign.GenerateKey(bytes.NewReader(seed))
	c.Must(err)
	pk, ok := sk.Public()
	otherSK, err := sign.GenerateKey(r)
	c.Must(err)
	otherPK, _ := otherSK.Public()
	wantPK, _ := refSign(seed, nil)
	c.Check(ok && bytes.Equal(pk, wantPK) && len(sk) == sign.PrivateKeySize && len(pk) == sign.PublicKeySize, "public key", "seed %x: %x", seed, pk)
	var prev []byte
	for j := 0; j < 15; j++ {
		c.Eval(1)
		m := mkRoomy(r, vrfMessages(r))
		rk := mkRoomy(r, sk)
		sig := sign.PrivateKey(rk.b).Sign(m.b)
		untouched(c, []*roomy{m, rk}, "Sign")
		if j < 4 {
			_, want := refSign(seed, m.b)
			c.Check(bytes.Equal(sig, want), "signature", "seed %x m %x: %x, specified %x", seed, m.b, sig, want)
		}
		c.Check(pk.Verify(m.b, sig) && len(sig) == sign.SignatureSize, "a signature doesn't verify", "seed %x m %x", seed, m.b)
		rk, rs := mkRoomy(r, pk), mkRoomy(r, sig)
		c.Check(sign.PublicKey(rk.b).Verify(m.b, rs.b), "a signature doesn't verify", "seed %x m %x", seed, m.b)
		untouched(c, []*roomy{m, rk, rs}, "Verify")
		c.Count("signatures", 1)
		reject := func(kind string, pk sign.PublicKey, m, sig []byte) {
			var got bool
			if p, st := Guard(func() { got = pk.Verify(m, sig) }); p != nil {
				c.Fail("verification of a signature crashes", "%s: %v %s", kind, p, clip(st, 1000))
			}
			c.Check(!got, "another signature, message or key verifies: "+kind, "pk %x m %x sig %x", pk, clipB(m), sig)
			c.Count("altered signatures rejected", 1)
			c.Distinct(kind, len(m), len(sig))
		}
		for k := 0; k < 16; k++ {
			reject("signature bit", pk, m.b, flip(r, sig))
		}
		reject("message bit", pk, flip(r, m.b), sig)
		reject("longer message", pk, append(dup(m.b), 0), sig)
		if len(m.b) > 0 {
			reject("shorter message", pk, m.b[:len(m.b)-1], sig)
			reject("no message", pk, nil, sig)
		}
		reject("another key", otherPK, m.b, sig)
		if p := flip(r, pk); true {
			reject("key bit", p, m.b, sig)
		}
		for _, l := range []int{0, 1, 32, 63} {
			reject("short signature", pk, m.b, sig[:l])
		}
		reject("long signature", pk, m.b, append(dup(sig), 0))
		s := new(big.Int).Add(leInt(sig[32:]), groupL)
		reject("scalar plus the order", pk, m.b, append(dup(sig[:32]), leBytes(s, 32)...))
		reject("zero signature", pk, m.b, make([]byte, 64))
		if prev != nil && len(m.b) > 0 {
			reject("signature of another message", pk, append([]byte("x"), m.b...), prev)
		}
		prev = sig
	}
}

// ---- C24 ----

func boundary64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(300))
	case 1:
		return math.MaxUint64 - uint64(r.Intn(300))
	case 2:
		return 1<<53 + uint64(r.Intn(5)) - 2
	case 3:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))
	default:
		return r.Uint64()
	}
}

func nilOrBytes(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return genKey(r)
}

// sameBytes treats no bytes as equal, whether nil or empty.
func norm(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return strings.ReplaceAll(string(b), ":null", `:""`)
}

func runC24(c *Ctx) {
	for i := 0; i < c.N(40, 1000); i++ {
		c.Case(fmt.Sprintf("requests-%d", i), func(r *rand.Rand) { c24requests(c, r) })
		c.Case(fmt.Sprintf("responses-%d", i), func(r *rand.Rand) { c24responses(c, r) })
		c.Case(fmt.Sprintf("signed-%d", i), func(r *rand.Rand) { c24signed(c, r) })
		c.Case(fmt.Sprintf("convert-%d", i), func(r *rand.Rand) { c24convert(c, r) })
	}
	for i := 0; i < c.N(16, 200); i++ {
		c.Case(fmt.Sprintf("answers-%d", i), func(r *rand.Rand) { c24answers(c, r) })
	}
}

func c24requests(c *Ctx, r *rand.Rand) {
	for j := 0; j < 100; j++ {
		name := genName(r, true)
		if r.Intn(20) == 0 {
			name = ""
		}
		var t int
		var in interface{}
		switch r.Intn(4) {
		case 0:
			t, in = protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: nilOrBytes(r), AllowUnsignedKeychange: r.Intn(2) == 0, AllowPublicLookup: r.Intn(2) == 0}
		case 1:
			t, in = protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name}
		case 2:
			t, in = protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: name, Epoch: boundary64(r)}
		case 3:
			t, in = protocol.MonitoringType, &protocol.MonitoringRequest{Username: name, StartEpoch: boundary64(r), EndEpoch: boundary64(r)}
		}
		b, err := application.MarshalRequest(t, in)
		c.Check(err == nil, "a request can't be encoded", "%s: %v", norm(in), err)
		req, err := application.UnmarshalRequest(b)
		c.Check(err == nil && req != nil, "a request can't be decoded", "%s: %v", b, err)
		c.Check(req.Type == t && reflect.TypeOf(req.Request) == reflect.TypeOf(in), "a request is decoded as another kind", "%s: type %d, %T instead of %T", b, req.Type, req.Request, in)
		c.Check(equalRequest(in, req.Request), "a request changes on the wire", "%s became %s", norm(in), norm(req.Request))
		c.Count("requests", 1)
		c.Eval(1)
		c.Distinct(string(b))
		// what the client sends
		switch q := in.(type) {
		case *protocol.RegistrationRequest:
			b, err := appclient.CreateRegistrationMsg(name, q.Key)
			c.Check(err == nil, "a request can't be encoded", "%v", err)
			req, err := application.UnmarshalRequest(b)
			c.Check(err == nil && req.Type == t, "a request can't be decoded", "%s: %v", b, err)
			got, ok := req.Request.(*protocol.RegistrationRequest)
			c.Check(ok && got.Username == name && bytes.Equal(got.Key, q.Key) && !got.AllowPublicLookup && !got.AllowUnsignedKeychange, "a request changes on the wire", "%s", b)
		case *protocol.KeyLookupRequest:
			b, err := appclient.CreateKeyLookupMsg(name)
			c.Check(err == nil, "a request can't be encoded", "%v", err)
			req, err := application.UnmarshalRequest(b)
			c.Check(err == nil && req.Type == t, "a request can't be decoded", "%s: %v", b, err)
			got, ok := req.Request.(*protocol.KeyLookupRequest)
			c.Check(ok && got.Username == name, "a request changes on the wire", "%s", b)
		}
		// a type that doesn't exist never becomes one that does
		for _, bad := range []int{-1, 4, 5, 6, 100, math.MaxInt32} {
			b, err := application.MarshalRequest(bad, in)
			c.Check(err == nil, "a request can't be encoded", "%v", err)
			req, err := application.UnmarshalRequest(b)
			if err == nil {
				c.Check(req.Type == bad, "a request is decoded as another kind", "type %d became %d", bad, req.Type)
				switch req.Request.(type) {
				case *protocol.RegistrationRequest, *protocol.KeyLookupRequest, *protocol.KeyLookupInEpochRequest, *protocol.MonitoringRequest:
					c.Fail("a request is decoded as another kind", "type %d as %T", bad, req.Request)
				}
			}
			c.Count("mismatched kinds", 1)
		}
	}
}

func equalRequest(a, b interface{}) bool {
	switch x := a.(type) {
	case *protocol.RegistrationRequest:
		y := b.(*protocol.RegistrationRequest)
		return x.Username == y.Username && bytes.Equal(x.Key, y.Key) && x.AllowPublicLookup == y.AllowPublicLookup && x.AllowUnsignedKeychange == y.AllowUnsignedKeychange
	case *protocol.KeyLookupRequest:
		return *x == *b.(*protocol.KeyLookupRequest)
	case *protocol.KeyLookupInEpochRequest:
		return *x == *b.(*protocol.KeyLookupInEpochRequest)
	case *protocol.MonitoringRequest:
		return *x == *b.(*protocol.MonitoringRequest)
	}
	return false
}

func anySTR(r *rand.Rand) *protocol.DirSTR {
	return &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: randBytes(r, 32), Epoch: boundary64(r), PreviousEpoch: boundary64(r),
		PreviousSTRHash: randBytes(r, 32), Signature: randBytes(r, 64)},
		Policies: &protocol.Policies{Version: genName(r, true), HashID: crypto.HashID, VrfPublicKey: randBytes(r, 32), EpochDeadline: protocol.Timestamp(boundary64(r))}}
}

func anyAP(r *rand.Rand) *merkletree.AuthenticationPath {
	ap := &merkletree.AuthenticationPath{TreeNonce: randBytes(r, 32), LookupIndex: randBytes(r, 32), VrfProof: randBytes(r, 96)}
	for n := r.Intn(6) * r.Intn(50); n > 0; n-- {
		var h [32]byte
		r.Read(h[:])
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	ap.Leaf = &merkletree.ProofNode{Level: uint32(boundary64(r)), Index: randBytes(r, r.Intn(40)), Value: nilOrBytes(r), IsEmpty: r.Intn(2) == 0}
	switch r.Intn(4) {
	case 0:
	case 1:
		ap.Leaf.Commitment = &crypto.Commit{Value: randBytes(r, 32)}
	default:
		ap.Leaf.Commitment = &crypto.Commit{Salt: randBytes(r, 32), Value: randBytes(r, 32)}
	}
	return ap
}

func sameAP(a, b *merkletree.AuthenticationPath) bool {
	if a == nil || b == nil || a.Leaf == nil || b.Leaf == nil {
		return a == nil && b == nil || a != nil && b != nil && a.Leaf == nil && b.Leaf == nil
	}
	if len(a.PrunedTree) != len(b.PrunedTree) {
		return false
	}
	for i := range a.PrunedTree {
		if a.PrunedTree[i] != b.PrunedTree[i] {
			return false
		}
	}
	x, y := a.Leaf, b.Leaf
	if (x.Commitment == nil) != (y.Commitment == nil) {
		return false
	}
	if x.Commitment != nil && !(bytes.Equal(x.Commitment.Salt, y.Commitment.Salt) && bytes.Equal(x.Commitment.Value, y.Commitment.Value)) {
		return false
	}
	return bytes.Equal(a.TreeNonce, b.TreeNonce) && bytes.Equal(a.LookupIndex, b.LookupIndex) && bytes.Equal(a.VrfProof, b.VrfProof) &&
		x.Level == y.Level && x.IsEmpty == y.IsEmpty && bytes.Equal(x.Index, y.Index) && bytes.Equal(x.Value, y.Value)
}

func sameTB(a, b *protocol.TemporaryBinding) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return bytes.Equal(a.Index, b.Index) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.Signature, b.Signature)
}

func c24responses(c *Ctx, r *rand.Rand) {
	codes := []protocol.ErrorCode{protocol.ReqSuccess, protocol.ReqNameExisted, protocol.ReqNameNotFound}
	var kept *protocol.Response
	var keptDoc string
	for j := 0; j < 60; j++ {
		c.Eval(1)
		st := codes[r.Intn(len(codes))]
		t := r.Intn(4)
		p := &protocol.DirectoryProof{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			p.AP = append(p.AP, anyAP(r))
			p.STR = append(p.STR, anySTR(r))
		}
		if r.Intn(2) == 0 {
			p.TB = &protocol.TemporaryBinding{Index: randBytes(r, 32), Value: genKey(r), Signature: randBytes(r, 64)}
		}
		b, err := application.MarshalResponse(&protocol.Response{Error: st, DirectoryResponse: p})
		c.Check(err == nil, "a response can't be encoded", "%v", err)
		res := application.UnmarshalResponse(t, b)
		c.Check(res != nil && res.Error == st, "a response changes on the wire", "status %d: %s", st, clip(string(b), 300))
		q, ok := res.DirectoryResponse.(*protocol.DirectoryProof)
		c.Check(ok && len(q.AP) == len(p.AP) && len(q.STR) == len(p.STR) && sameTB(p.TB, q.TB), "a response changes on the wire", "%s", clip(string(b), 600))
		// the previous one stays what it was
		c.Check(kept == nil || jsonOf(kept) == keptDoc, "a decoded response changes when another is decoded", "%s", clip(keptDoc, 600))
		kept, keptDoc = res, jsonOf(res)
		for k := range p.AP {
			c.Check(sameAP(p.AP[k], q.AP[k]) && sameSTR(p.STR[k], q.STR[k]), "a response changes on the wire", "%s", clip(string(b), 1500))
		}
		c.Count("responses", 1)
		c.Distinct(string(b))
		// histories
		b, err = application.MarshalResponse(protocol.NewSTRHistoryRange(p.STR))
		c.Check(err == nil, "a response can't be encoded", "%v", err)
		res = application.UnmarshalResponse(protocol.STRType, b)
		h, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
		c.Check(ok && res.Error == protocol.ReqSuccess && len(h.STR) == len(p.STR), "a response changes on the wire", "%s", clip(string(b), 600))
		for k := range p.STR {
			c.Check(sameSTR(h.STR[k], p.STR[k]), "a response changes on the wire", "%s", clip(string(b), 1500))
		}
		c.Count("responses", 1)
		// a history has no proof: it isn't an answer about a name
		res = application.UnmarshalResponse(t, b)
		c.Check(res.Validate() != nil, "a response is decoded as another kind", "history as %d: %s", t, clip(string(b), 200))
		c.Count("mismatched kinds", 1)
		// errors
		for _, e := range []protocol.ErrorCode{protocol.ErrMalformedMessage, protocol.ErrDirectory, protocol.ErrAuditLog} {
			b, err := application.MarshalResponse(protocol.NewErrorResponse(e))
			c.Check(err == nil, "a response can't be encoded", "%v", err)
			for _, t := range []int{0, 1, 2, 3, protocol.STRType} {
				res := application.UnmarshalResponse(t, b)
				c.Check(res.Error == e && res.DirectoryResponse == nil && res.Validate() == e, "an error changes on the wire", "%v became %v", e, res.Error)
				c.Count("mismatched kinds", 1)
			}
		}
	}
}

// c24answers: a decoded answer verifies exactly when the original does.
func c24answers(c *Ctx, r *rand.Rand) {
	w := newClientWorld(c, r, "C11")
	for j := 0; j < 50; j++ {
		c.Eval(1)
		name := w.names[r.Intn(len(w.names))]
		t := []int{protocol.KeyLookupType, protocol.RegistrationType}[r.Intn(2)]
		a := w.base(t, name, genKey(r), w.at)
		if r.Intn(2) == 0 {
			w.spoil(a, t, name, w.at)
		}
		mem := a.response()
		if e := mem.Validate(); e != nil && mem.Error != protocol.ReqSuccess {
			continue
		}
		wire := wireResponse(t, a.response())
		p := proofOf(wire)
		if p == nil || mem.Validate() != nil {
			c.Check(mem.Validate() == wire.Validate(), "an answer verifies only before or after decoding", "%v, decoded %v", mem.Validate(), wire.Validate())
			continue
		}
		k1, e1 := mem.GetKey()
		k2, e2 := wire.GetKey()
		c.Check(bytes.Equal(k1, k2) && (e1 == nil) == (e2 == nil), "the key of an answer changes on the wire", "%x %v, decoded %x %v", k1, e1, k2, e2)
		for _, key := range [][]byte{k1, genKey(r), nil} {
			v1 := proofOf(mem).AP[0].Verify([]byte(name), key, a.str.TreeHash)
			v2 := p.AP[0].Verify([]byte(name), key, p.STR[0].TreeHash)
			c.Check(v1 == v2, "an answer verifies only before or after decoding", "%v, decoded %v: %s", v1, v2, a)
		}
		c.Check(bytes.Equal(p.STR[0].Serialize(), refSTRBytes(a.str)) && bytes.Equal(proofOf(mem).STR[0].Serialize(), refSTRBytes(a.str)), "the signed bytes of a root change on the wire", "%s", a)
		if a.tb != nil {
			c.Check(bytes.Equal(p.TB.Serialize(a.str.Signature), append(append(dup(a.str.Signature), a.tb.Index...), a.tb.Value...)), "the signed bytes of a promise change on the wire", "%s", a)
		}
		c.Count("verified after decoding", 1)
		if r.Intn(8) == 0 {
			w.at = w.honestNext(w.at)
		}
	}
}

// c24signed: the signed bytes determine the message.
func c24signed(c *Ctx, r *rand.Rand) {
	seen := map[string]string{}
	for j := 0; j < 60; j++ {
		c.Eval(1)
		s := anySTR(r)
		if r.Intn(3) == 0 {
			s.Epoch = uint64(r.Intn(2))
		}
		if s.Epoch == 0 {
			s.PreviousEpoch = 0
		}
		if j > 0 && r.Intn(2) == 0 { // near an earlier one
			s.Policies.Version = "0.3"
		}
		variants := []*protocol.DirSTR{s}
		for k := 0; k < 6; k++ {
			v := copySTR(s)
			switch k {
			case 0:
				v.Epoch, v.PreviousEpoch = v.PreviousEpoch, v.Epoch
			case 1:
				v.Epoch++
			case 2:
				v.TreeHash, v.PreviousSTRHash = v.PreviousSTRHash, v.TreeHash
			case 3:
				v.Policies.EpochDeadline = protocol.Timestamp(v.Epoch)
			case 4:
				v.Policies.Version += string(rune('0' + r.Intn(10)))
			case 5:
				v.Policies.EpochDeadline ^= 1 << uint(r.Intn(64))
			}
			if v.Epoch == 0 {
				v.PreviousEpoch = 0
			}
			variants = append(variants, v)
		}
		for _, v := range variants {
			before := copySTR(v)
			room := []*roomy{mkRoomy(r, v.TreeHash), mkRoomy(r, v.PreviousSTRHash), mkRoomy(r, v.Signature), mkRoomy(r, v.Policies.VrfPublicKey)}
			v.TreeHash, v.PreviousSTRHash, v.Signature, v.Policies.VrfPublicKey = room[0].b, room[1].b, room[2].b, room[3].b
			b := v.Serialize()
			c.Check(sameSTR(before, v), "encoding modifies the root", "%s", strString(v))
			for i := range b { // the encoding is the caller's
				b[i] ^= 0xff
			}
			untouched(c, room, "DirSTR.Serialize")
			b = v.Serialize()
			untouched(c, room, "DirSTR.Serialize")
			c.Check(bytes.Equal(b, refSTRBytes(v)), "signed encoding of a root", "%s: %x, specified %x", strString(v), b, refSTRBytes(v))
			c.Check(bytes.Equal(b[:len(b)-len(v.Policies.Serialize())], v.SerializeInternal()), "signed encoding of a root", "SerializeInternal")
			id := norm(struct {
				E, P uint64
				T, H []byte
				Pol  *protocol.Policies
			}{v.Epoch, v.PreviousEpoch, v.TreeHash, v.PreviousSTRHash, v.Policies})
			if old, ok := seen[string(b)]; ok {
				c.Check(old == id, "two roots have the same signed encoding", "%s and %s", old, id)
			}
			seen[string(b)] = id
			// split it again
			d := splitSTR(b)
			c.Check(d != nil, "the signed bytes of a root can't be split", "%s: %x", strString(v), b)
			if d != nil {
				d.Signature = v.Signature
				c.Check(sameSTR(d, v), "the signed bytes of a root stand for another root", "%s and %s", strString(v), strString(d))
			}
			c.Count("signed encodings", 1)
		}
		// promises
		tb := &protocol.TemporaryBinding{Index: randBytes(r, 32), Value: genKey(r)}
		sig := mkRoomy(r, randBytes(r, 64))
		room := []*roomy{sig, mkRoomy(r, tb.Index), mkRoomy(r, tb.Value)}
		tb.Index, tb.Value = room[1].b, room[2].b
		b := tb.Serialize(sig.b)
		for i := range b {
			b[i] ^= 0xff
		}
		b = tb.Serialize(sig.b)
		untouched(c, room, "TemporaryBinding.Serialize")
		c.Check(len(b) == 96+len(tb.Value) && bytes.Equal(b[:64], sig.b) && bytes.Equal(b[64:96], tb.Index) && bytes.Equal(b[96:], tb.Value), "signed encoding of a promise", "%x", b)
		c.Count("signed encodings", 1)
	}
	// every field of a tree node matters, whatever moves between them
	c24nodes(c, r)
}

// splitSTR decodes the signed bytes of a root with hashes of 32 bytes.
func splitSTR(b []byte) *protocol.DirSTR {
	u := func() (n uint64) {
		for i := 7; i >= 0; i-- {
			n = n<<8 | uint64(b[i])
		}
		b = b[8:]
		return
	}
	if len(b) < 8+64+8+32+8 {
		return nil
	}
	s := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{}, Policies: &protocol.Policies{}}
	if s.Epoch = u(); s.Epoch > 0 {
		s.PreviousEpoch = u()
	}
	s.TreeHash, s.PreviousSTRHash, b = b[:32], b[32:64], b[64:]
	rest := b[:len(b)-8]
	b = b[len(b)-8:]
	s.Policies.EpochDeadline = protocol.Timestamp(u())
	s.Policies.VrfPublicKey = rest[len(rest)-32:]
	rest = rest[:len(rest)-32]
	if !strings.HasSuffix(string(rest), crypto.HashID) {
		return nil
	}
	s.Policies.HashID = crypto.HashID
	s.Policies.Version = strings.TrimSuffix(string(rest), crypto.HashID)
	return s
}

// c24nodes: one-leaf and empty trees whose nodes differ in a single field
// have different roots.
func c24nodes(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	nonce := randBytes(r, 32)
	seen := map[string]string{}
	for j := 0; j < 10; j++ {
		t := e.tree(nonce)
		var d string
		for k := 0; k < j%4; k++ {
			n := fmt.Sprintf("n%d", r.Intn(50))
			t.set(n, []byte(n))
			d += n + " "
		}
		p := t.path(fmt.Sprintf("n%d", r.Intn(50)))
		// the same path with another level, kind or index has another hash
		root := t.root()
		for k := 0; k < 6; k++ {
			q := copyAP(p)
			switch k {
			case 0:
				q.Leaf.Level++
				q.PrunedTree = append(q.PrunedTree, [32]byte{})
				if q.Leaf.IsEmpty {
					q.Leaf.Index = prefixBytes(q.LookupIndex, int(q.Leaf.Level))
				}
			case 1:
				q.Leaf.Index = flip(r, q.Leaf.Index)
			case 2:
				q.TreeNonce = flip(r, q.TreeNonce)
			case 3:
				if q.Leaf.Commitment == nil {
					continue
				}
				q.Leaf.Commitment.Value = flip(r, q.Leaf.Commitment.Value)
			case 4:
				if q.Leaf.IsEmpty {
					q.Leaf.IsEmpty, q.Leaf.Commitment = false, &crypto.Commit{Value: nil}
				} else {
					q.Leaf.IsEmpty = true
				}
			case 5:
				if len(q.PrunedTree) > 0 {
					q.PrunedTree[r.Intn(len(q.PrunedTree))][r.Intn(32)]++
				} else {
					continue
				}
			}
			err := q.Verify(nil, nil, root)
			c.Check(err != nil, "two tree nodes have the same hashed encoding", "change %d of %s", k, apString(p))
			c.Count("signed encodings", 1)
		}
		if old, ok := seen[string(root)]; ok && len(t.order) > 0 {
			_ = old
		}
		seen[string(root)] = d
	}
}

func c24convert(c *Ctx, r *rand.Rand) {
	for j := 0; j < 300; j++ {
		n := boundary64(r)
		c.Check(bytes.Equal(utils.ULongToBytes(n), le64(n)) && bytes.Equal(utils.LongToBytes(int64(n)), le64(n)), "conversion of a number", "%d: %x", n, utils.ULongToBytes(n))
		c.Check(bytes.Equal(utils.UInt32ToBytes(uint32(n)), le32(uint32(n))), "conversion of a number", "%d: %x", uint32(n), utils.UInt32ToBytes(uint32(n)))
		bs := mkRoomy(r, randBytes(r, r.Intn(40)))
		bits := utils.ToBits(bs.b)
		c.Check(len(bits) == 8*len(bs.b), "conversion to bits", "%d bits of %d bytes", len(bits), len(bs.b))
		for i := range bits {
			c.Check(bits[i] == (bit(bs.b, i) == 1) && utils.GetNthBit(bs.b, uint32(i)) == bits[i], "conversion to bits", "bit %d of %x", i, bs.b)
		}
		k := 0
		if len(bits) > 0 {
			k = r.Intn(len(bits) + 1)
		}
		cp := append([]bool{}, bits...)
		back := utils.ToBytes(bits[:k])
		c.Check(bytes.Equal(back, prefixBytes(bs.b, k)), "conversion from bits", "first %d bits of %x: %x", k, bs.b, back)
		c.Check(reflect.DeepEqual(cp, bits), "an argument is modified: ToBytes", "%x", bs.b)
		untouched(c, []*roomy{bs}, "ToBits")
		c.Count("conversions", 5)
	}
	c.Eval(1)
}
