package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

func init() {
	register(&Property{ID: "C21", Level: "exploration", Run: runC21,
		Rule: "each index, proof and verdict compared with an independent implementation on big integers, plus forgeries made with the secret key (points of small order added to index point or key, other encodings, other scalars); non-trivial: an altered or forged proof offered to Verify, distinct by (kind of alteration, position)",
		Need: map[string]int64{"indices compared": 700, "proofs accepted": 1500, "altered: rejected": 15000, "forgeries": 900, "group checks": 900}})
}

func vrfMessages(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{0}
	case 2:
		return randBytes(r, 1+r.Intn(5000))
	case 3: // around the rate of the hash
		return randBytes(r, 130+r.Intn(12))
	case 4:
		return bytes.Repeat([]byte{0xff}, r.Intn(40))
	default:
		return []byte(genName(r, false))
	}
}

func runC21(c *Ctx) {
	for i := 0; i < c.N(96, 2000); i++ {
		c.Case(fmt.Sprintf("key-%d", i), func(r *rand.Rand) { c21key(c, r, i) })
	}
	for i := 0; i < c.N(32, 400); i++ {
		c.Case(fmt.Sprintf("forge-%d", i), func(r *rand.Rand) { c21forge(c, r, i) })
	}
	for i := 0; i < 8; i++ {
		c.Case(fmt.Sprintf("encodings-%d", i), func(r *rand.Rand) { c21encodings(c, r, i) })
	}
	c.Case("long-messages", func(r *rand.Rand) { c21long(c, r) })
	c21arith(c)
}

// c21long: messages that are much longer than names.
func c21long(c *Ctx, r *rand.Rand) {
	seed := randBytes(r, 32)
	ref := newRefVRF(seed)
	sk, err := vrf.GenerateKey(bytes.NewReader(seed))
	c.Must(err)
	pk, _ := sk.Public()
	for _, n := range []int{1023, 1025, 4095, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 100000, 131073, 300000, 1 << 20} {
		c.Eval(1)
		m := randBytes(r, n)
		idx, proof := sk.Prove(m)
		_, wp := ref.prove(m)
		c.Check(bytes.Equal(idx, ref.compute(m)) && bytes.Equal(idx, sk.Compute(m)), "the index is not the specified function", "%d bytes", n)
		c.Check(bytes.Equal(proof, wp), "the proof is not the specified one", "%d bytes", n)
		c.Check(pk.Verify(m, idx, proof), "an honest proof is rejected", "%d bytes", n)
		for _, at := range []int{0, n / 2, n - 1} {
			o := dup(m)
			o[at] ^= 1
			c.Check(!pk.Verify(o, idx, proof), "another message, key or index verifies: long message", "%d bytes, byte %d altered", n, at)
		}
		c.Check(!pk.Verify(m[:n-1], idx, proof) && !pk.Verify(append(dup(m), 0), idx, proof), "another message, key or index verifies: long message", "%d bytes, one more or less", n)
		c.Count("long messages", 1)
	}
}

func c21key(c *Ctx, r *rand.Rand, i int) {
	seed := randBytes(r, 32)
	switch i {
	case 0:
		seed = make([]byte, 32)
	case 1:
		seed = bytes.Repeat([]byte{0xff}, 32)
	}
	// the generator must take the secret from the given source, exactly
	src := bytes.NewReader(append(dup(seed), 1, 2, 3))
	sk, err := vrf.GenerateKey(src)
	c.Must(err)
	ref := newRefVRF(seed)
	pk, ok := sk.Public()
	c.Check(ok && bytes.Equal(sk[:32], seed) && bytes.Equal(pk, ref.pk), "public key", "seed %x: %x, specified %x", seed, pk, ref.pk)
	if _, err := vrf.GenerateKey(bytes.NewReader(seed[:31])); err == nil {
		c.Fail("a key is made from too little randomness", "31 bytes")
	}
	otherSK, err := vrf.GenerateKey(r)
	c.Must(err)
	otherPK, _ := otherSK.Public()
	var prevIdx, prevProof, prevM []byte
	for j := 0; j < 10; j++ {
		c.Eval(1)
		rm, rsk, rpk := mkRoomy(r, vrfMessages(r)), mkRoomy(r, sk), mkRoomy(r, pk)
		m, sk, pk := rm.b, vrf.PrivateKey(rsk.b), vrf.PublicKey(rpk.b)
		idx := sk.Compute(m)
		pidx, proof := sk.Prove(m)
		c.Check(bytes.Equal(idx, pidx), "indices with and without proof differ", "m %x: %x and %x", m, idx, pidx)
		if j < 8 || c.Thorough() {
			want := ref.compute(m)
			c.Check(bytes.Equal(idx, want), "the index is not the specified function", "seed %x m %x: %x, specified %x", seed, m, idx, want)
			_, wp := ref.prove(m)
			c.Check(bytes.Equal(proof, wp), "the proof is not the specified one", "seed %x m %x: %x, specified %x", seed, m, proof, wp)
			c.Count("indices compared", 1)
		}
		again, proof2 := sk.Prove(m)
		c.Check(bytes.Equal(again, idx) && len(proof) == vrf.ProofSize && bytes.Equal(sk.Compute(m), idx), "the index is not a function", "m %x", m)
		c.Check(pk.Verify(m, idx, proof) && pk.Verify(m, idx, proof2), "an honest proof is rejected", "seed %x m %x", seed, m)
		c.Count("proofs accepted", 2)
		ri, rp := mkRoomy(r, idx), mkRoomy(r, proof)
		c.Check(pk.Verify(m, ri.b, rp.b), "an honest proof is rejected", "seed %x m %x", seed, m)
		untouched(c, []*roomy{rm, rsk, rpk, ri, rp}, "vrf")

		reject := func(kind string, pk vrf.PublicKey, m, idx, proof []byte) {
			var got bool
			if p, st := Guard(func() { got = pk.Verify(m, idx, proof) }); p != nil {
				c.Fail("verification crashes", "%v: pk %x m %x idx %x proof %x\n%s", p, pk, m, idx, proof, clip(st, 1500))
			}
			c.Check(!got, "another message, key or index verifies: "+kind, "seed %x: pk %x m %x idx %x proof %x", seed, pk, clipB(m), idx, proof)
			c.Count("altered: rejected", 1)
			c.Distinct(kind, len(m), len(idx), len(proof), len(pk))
		}
		// index altered
		for k := 0; k < 3; k++ {
			reject("index bit", pk, m, flip(r, idx), proof)
		}
		reject("random index", pk, m, randBytes(r, 32), proof)
		reject("index zero", pk, m, make([]byte, 32), proof)
		for _, l := range []int{0, 1, 31, 33, 64} {
			reject("index length", pk, m, append(dup(idx), randBytes(r, 40)...)[:l], proof)
		}
		reject("no index", pk, m, nil, proof)
		// message altered
		reject("message longer", pk, append(dup(m), byte(r.Intn(256))), idx, proof)
		reject("message longer by zero", pk, append(dup(m), 0), idx, proof)
		if len(m) > 0 {
			reject("message bit", pk, flip(r, m), idx, proof)
			reject("message shorter", pk, m[:len(m)-1], idx, proof)
			reject("message without first byte", pk, m[1:], idx, proof)
		}
		if prevM != nil && !bytes.Equal(prevM, m) {
			reject("index and proof of another message", pk, m, prevIdx, prevProof)
			reject("index of another message", pk, m, prevIdx, proof)
			reject("proof of another message", pk, m, idx, prevProof)
			// the index point of another message with this proof's scalars
			x := append(dup(proof[:64]), prevProof[64:]...)
			reject("index point of another message", pk, m, prevIdx, x)
			reject("index point of another message, index recomputed", pk, m, shake256(32, x[64:], m), x)
		}
		// key altered
		reject("another key", otherPK, m, idx, proof)
		if p := flip(r, pk); !bytes.Equal(p, pk) {
			reject("key bit", p, m, idx, proof)
		}
		for _, l := range []int{0, 1, 31, 33, 64} {
			reject("key length", vrf.PublicKey(append(dup(pk), make([]byte, 40)...)[:l]), m, idx, proof)
		}
		// proof altered: the index point changes, with and without the index
		// being recomputed to fit
		for k := 0; k < 4; k++ {
			x := dup(proof)
			x[64+r.Intn(32)] ^= 1 << uint(r.Intn(8))
			reject("index point bit", pk, m, idx, x)
			reject("index point bit, index recomputed", pk, m, shake256(32, x[64:], m), x)
		}
		x := append(dup(proof[:64]), otherSKpoint(otherSK, m)...)
		reject("index point of another key", pk, m, shake256(32, x[64:], m), x)
		oi, op := otherSK.Prove(m)
		reject("index and proof of another key", pk, m, oi, op)
		reject("index of another key", pk, m, oi, proof)
		for _, l := range []int{0, 1, 32, 64, 95, 97, 128, 200} {
			reject("proof length", pk, m, idx, append(dup(proof), randBytes(r, 200)...)[:l])
		}
		reject("no proof", pk, m, idx, nil)
		// scalars altered: may not make another index verify, and the
		// challenge is fixed by the rest
		y := dup(proof)
		y[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		reject("challenge bit", pk, m, idx, y)
		z := dup(proof)
		z[32+r.Intn(31)] ^= 1 << uint(r.Intn(8)) // not the top byte
		reject("response bit", pk, m, idx, z)
		s2 := new(big.Int).Add(leInt(proof[:32]), groupL)
		reject("challenge plus the order", pk, m, idx, append(leBytes(s2, 32), proof[32:]...))
		swap := append(append(dup(proof[32:64]), proof[:32]...), proof[64:]...)
		reject("scalars swapped", pk, m, idx, swap)
		reject("zero proof", pk, m, shake256(32, make([]byte, 32), m), make([]byte, 96))
		reject("zero scalars", pk, m, idx, append(make([]byte, 64), proof[64:]...))
		// anything at all
		for k := 0; k < 6; k++ {
			junk := randBytes(r, 96)
			reject("random proof", pk, m, shake256(32, junk[64:], m), junk)
			reject("random key", randBytes(r, 32), m, idx, proof)
		}
		prevIdx, prevProof, prevM = idx, proof, m
	}
	c.Sample("key", "seed %x public key %x", seed, pk)
}

// otherSKpoint is the index point of the other key.
func otherSKpoint(sk vrf.PrivateKey, m []byte) []byte {
	_, p := sk.Prove(m)
	return p[64:96]
}

// c21forge: with the secret key and points of small order, one can make
// proofs for other indices that only the checks of the group reject.
func c21forge(c *Ctx, r *rand.Rand, i int) {
	seed := randBytes(r, 32)
	v := newRefVRF(seed)
	sk, err := vrf.GenerateKey(bytes.NewReader(seed))
	c.Must(err)
	pk, _ := sk.Public()
	m := vrfMessages(r)
	idx := sk.Compute(m)
	h := refHashToCurve(m)
	hx := h.mul(v.x)
	reject := func(kind string, pk, idx, proof []byte) {
		c.Eval(1)
		var got bool
		if p, st := Guard(func() { got = vrf.PublicKey(pk).Verify(m, idx, proof) }); p != nil {
			c.Fail("verification crashes", "%v\n%s", p, clip(st, 1500))
		}
		c.Check(!got, "a forged index verifies: "+kind, "seed %x m %x pk %x forged index %x proof %x", seed, m, pk, idx, proof)
		c.Count("forgeries", 1)
		c.Distinct("forgery", kind)
		c.Sample(kind, "m %x forged index %x", clipB(m), idx)
	}
	// the reference's proof must verify, so that the forgeries are near misses
	gi, gp := v.prove(m)
	c.Check(vrf.PublicKey(pk).Verify(m, gi, gp) && bytes.Equal(gi, idx), "an honest proof is rejected", "seed %x m %x", seed, m)
	grind := func(point point, pk []byte, want int64) ([]byte, []byte) {
		for {
			k := new(big.Int).Rand(r, groupL)
			fi, fp := vrfProof(v, m, h, k, point, pk, basePoint.mul(k))
			if new(big.Int).Mod(leInt(fp[:32]), big.NewInt(8)).Int64() == want {
				return fi, fp
			}
		}
	}
	for k, t := range torsion() {
		if k == 0 {
			continue
		}
		// h^x + T with a challenge divisible by eight
		p := hx.add(t)
		fi, fp := grind(p, pk, 0)
		reject(fmt.Sprintf("index point plus a point of small order %d", k), pk, fi, fp)
		// public key + T: a key outside the group
		pt := v.pkPoint.add(t).bytes()
		fi, fp = grind(hx, pt, 0)
		reject(fmt.Sprintf("key plus a point of small order %d", k), pt, fi, fp)
		fi, fp = grind(p, pt, 0)
		reject(fmt.Sprintf("key and index point plus a point of small order %d", k), pt, fi, fp)
		// a key of small order and an index point of small order
		for k2, t2 := range torsion()[:3] {
			for {
				x := new(big.Int).Rand(r, groupL)
				pkb, ib := t.bytes(), t2.bytes()
				sH := shake256(64, basePoint.bytes(), h.bytes(), pkb, ib, basePoint.mul(x).bytes(), h.mul(x).bytes(), m)
				s := new(big.Int).Mod(leInt(sH), groupL)
				if new(big.Int).Mod(s, big.NewInt(8)).Sign() != 0 {
					continue
				}
				reject(fmt.Sprintf("key and index point of small order %d %d", k, k2), pkb,
					shake256(32, ib, m), append(append(leBytes(s, 32), leBytes(x, 32)...), ib...))
				break
			}
		}
	}
	// the identity as key and index point, every encoding of it
	for _, e := range identityEncodings() {
		for _, e2 := range identityEncodings() {
			x := new(big.Int).Rand(r, groupL)
			sH := shake256(64, basePoint.bytes(), h.bytes(), e, e2, basePoint.mul(x).bytes(), h.mul(x).bytes(), m)
			s := new(big.Int).Mod(leInt(sH), groupL)
			reject("identity as key and index point", e, shake256(32, e2, m), append(append(leBytes(s, 32), leBytes(x, 32)...), e2...))
		}
	}
	// the negative of the index point, and multiples of it
	for _, f := range []int64{-1, 2, 3, 8} {
		q := hx
		if f < 0 {
			q = hx.neg()
		} else {
			q = hx.mul(big.NewInt(f))
		}
		k := new(big.Int).Rand(r, groupL)
		fi, fp := vrfProof(v, m, h, k, q, pk, basePoint.mul(k))
		reject(fmt.Sprintf("%d times the index point", f), pk, fi, fp)
	}
	// two different nonces: proves only g^x or only h^y
	{
		k := new(big.Int).Rand(r, groupL)
		y := new(big.Int).Rand(r, groupL)
		q := h.mul(y)
		hB, qB := h.bytes(), q.bytes()
		// consistent for the key only
		s := new(big.Int).Mod(leInt(shake256(64, basePoint.bytes(), hB, pk, qB, basePoint.mul(k).bytes(), h.mul(k).bytes(), m)), groupL)
		t := new(big.Int).Mul(v.x, s)
		t.Sub(k, t).Mod(t, groupL)
		reject("proof for the key only", pk, shake256(32, qB, m), append(append(leBytes(s, 32), leBytes(t, 32)...), qB...))
		// consistent for the index point only
		t.Mul(y, s)
		t.Sub(k, t).Mod(t, groupL)
		reject("proof for the index point only", pk, shake256(32, qB, m), append(append(leBytes(s, 32), leBytes(t, 32)...), qB...))
		// challenges that leave something out: what the index point is
		// chosen as a function of, if it isn't hashed
		for mask := 0; mask < 7; mask++ {
			parts := [][]byte{basePoint.bytes(), hB, pk, qB, basePoint.mul(k).bytes(), h.mul(k).bytes(), m}
			parts = append(append([][]byte{}, parts[:mask]...), parts[mask+1:]...)
			s := new(big.Int).Mod(leInt(shake256(64, parts...)), groupL)
			t := new(big.Int).Mul(v.x, s)
			t.Sub(k, t).Mod(t, groupL)
			hxB := hx.bytes()
			reject("weaker challenge", pk, shake256(32, hxB, m), append(append(leBytes(s, 32), leBytes(t, 32)...), hxB...))
		}
		// if the challenge didn't cover the index point: for any s and t one
		// can solve for it
		k2 := new(big.Int).Rand(r, groupL)
		s = new(big.Int).Mod(leInt(shake256(64, basePoint.bytes(), hB, pk, basePoint.mul(k).bytes(), h.mul(k2).bytes(), m)), groupL)
		t.Mul(v.x, s)
		t.Sub(k, t).Mod(t, groupL)
		// s*q = k2*h - t*h
		e := new(big.Int).Sub(k2, t)
		e.Mul(e, new(big.Int).ModInverse(s, groupL)).Mod(e, groupL)
		qB = h.mul(e).bytes()
		reject("index point solved for", pk, shake256(32, qB, m), append(append(leBytes(s, 32), leBytes(t, 32)...), qB...))
		// the same if only the second commitment isn't covered
		s = new(big.Int).Mod(leInt(shake256(64, basePoint.bytes(), hB, pk, q.bytes(), basePoint.mul(k).bytes(), m)), groupL)
		t.Mul(v.x, s)
		t.Sub(k, t).Mod(t, groupL)
		reject("second commitment not covered", pk, shake256(32, q.bytes(), m), append(append(leBytes(s, 32), leBytes(t, 32)...), q.bytes()...))
	}
}

// identityEncodings: 1, p+1, and both with the sign bit.
func identityEncodings() [][]byte {
	a := leBytes(bigOne, 32)
	b := leBytes(new(big.Int).Add(fieldP, bigOne), 32)
	c, d := dup(a), dup(b)
	c[31] |= 0x80
	d[31] |= 0x80
	return [][]byte{a, b, c, d}
}

// c21encodings: every small and every non-canonical y, both signs, as key and
// as index point.
func c21encodings(c *Ctx, r *rand.Rand, shard int) {
	seed := randBytes(r, 32)
	sk, err := vrf.GenerateKey(bytes.NewReader(seed))
	c.Must(err)
	pk, _ := sk.Public()
	var ys []*big.Int
	for y := int64(0); y < 40; y++ {
		ys = append(ys, big.NewInt(y), new(big.Int).Sub(fieldP, big.NewInt(y+1)))
		if y < 19 {
			ys = append(ys, new(big.Int).Add(fieldP, big.NewInt(y)))
		}
	}
	for j, y := range ys {
		if j%8 != shard {
			continue
		}
		for sign := 0; sign < 2; sign++ {
			b := leBytes(y, 32)
			b[31] |= byte(sign) << 7
			m := vrfMessages(r)
			idx, proof := sk.Prove(m)
			for k := 0; k < 3; k++ {
				p, i, pr := []byte(pk), idx, dup(proof)
				if k != 1 {
					p = b
				}
				if k != 0 {
					copy(pr[64:], b)
					i = shake256(32, b, m)
				}
				var got bool
				if e, st := Guard(func() { got = vrf.PublicKey(p).Verify(m, i, pr) }); e != nil {
					c.Fail("verification crashes", "%v: point %x\n%s", e, b, clip(st, 1500))
				}
				c.Check(!got, "another message, key or index verifies: crafted point", "pk %x idx %x proof %x", p, i, pr)
				c.Count("forgeries", 1)
			}
			c.Eval(1)
			c.Distinct("encoding", b)
		}
	}
}
