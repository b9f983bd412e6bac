//go:build overlay

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto/verifx"
)

func arr(b []byte) (a [32]byte) { copy(a[:], b); return }

// feValue makes a field value, often a boundary case of the representation.
func feValue(r *rand.Rand) [32]byte {
	p255 := new(big.Int).Lsh(bigOne, 255)
	var z *big.Int
	switch r.Intn(9) {
	case 0:
		z = big.NewInt(int64(r.Intn(40)))
	case 1:
		z = new(big.Int).Sub(fieldP, big.NewInt(int64(r.Intn(40))))
	case 2: // not reduced
		z = new(big.Int).Add(fieldP, big.NewInt(int64(r.Intn(19))))
	case 3: // around a limb boundary
		b := []uint{26, 51, 77, 102, 128, 153, 179, 204, 230, 254}[r.Intn(10)]
		z = new(big.Int).Lsh(bigOne, b)
		z.Add(z, big.NewInt(int64(r.Intn(5)-2)))
	case 4: // all limbs at a boundary
		z = new(big.Int)
		for i, b := range []uint{25, 50, 76, 101, 127, 152, 178, 203, 229, 254} {
			_ = i
			if r.Intn(2) == 0 {
				z.SetBit(z, int(b), 1)
			}
		}
	case 5: // long runs of ones
		a, b := uint(r.Intn(255)), uint(r.Intn(255))
		if a > b {
			a, b = b, a
		}
		z = new(big.Int).Sub(new(big.Int).Lsh(bigOne, b+1), new(big.Int).Lsh(bigOne, a))
	default:
		z = leInt(randBytes(r, 32))
	}
	z.Mod(z, p255)
	return arr(leBytes(z, 32))
}

func scValue(r *rand.Rand) [32]byte {
	var z *big.Int
	switch r.Intn(6) {
	case 0:
		z = big.NewInt(int64(r.Intn(20)))
	case 1:
		z = new(big.Int).Sub(groupL, big.NewInt(int64(1+r.Intn(20))))
	case 2:
		z = new(big.Int).Lsh(bigOne, uint(r.Intn(253)))
		z.Sub(z, big.NewInt(int64(r.Intn(2))))
	default:
		z = new(big.Int).Rand(r, groupL)
	}
	z.Mod(z, groupL)
	return arr(leBytes(z, 32))
}

func randPoint(r *rand.Rand, tor []point) point {
	p := basePoint.mul(new(big.Int).Rand(r, groupL))
	switch r.Intn(5) {
	case 0:
		p = p.add(tor[r.Intn(8)])
	case 1:
		p = tor[r.Intn(8)]
	case 2:
		p = basePoint.mul(big.NewInt(int64(r.Intn(20))))
	}
	return p
}

// c21arith compares the arithmetic underneath with big integers.
func c21arith(c *Ctx) {
	for i := 0; i < c.N(16, 400); i++ {
		c.Case(fmt.Sprintf("field-%d", i), func(r *rand.Rand) {
			for j := 0; j < 2000; j++ {
				a, b := feValue(r), feValue(r)
				x, y := new(big.Int).Mod(leInt(a[:]), fieldP), new(big.Int).Mod(leInt(b[:]), fieldP)
				op := r.Intn(8)
				var w *big.Int
				switch op {
				case 0:
					w = fadd(x, y)
				case 1:
					w = fsub(x, y)
				case 2:
					w = fmul(x, y)
				case 3:
					w = fmul(x, x)
				case 4:
					w = fmul(big.NewInt(2), fmul(x, x))
				case 5:
					w = finv(x)
				case 6:
					w = fsub(new(big.Int), x)
				case 7:
					w = x
				}
				got := verifx.FeOp(op, a, b)
				c.Check(bytes.Equal(got[:], leBytes(w, 32)), "field arithmetic", "operation %d of %x and %x: %x, should be %x", op, a, b, got, leBytes(w, 32))
				c.Check(verifx.FeIsNonZero(a) == (x.Sign() != 0), "field arithmetic", "zero test of %x", a)
				c.Check(verifx.FeIsNegative(a) == (x.Bit(0) == 1), "field arithmetic", "sign of %x", a)
				cc, d := feValue(r), feValue(r)
				z, v := new(big.Int).Mod(leInt(cc[:]), fieldP), new(big.Int).Mod(leInt(d[:]), fieldP)
				s, t := fadd(x, y), fsub(z, v)
				op = r.Intn(9)
				switch op {
				case 0:
					w = fmul(s, t)
				case 1:
					w = fmul(s, s)
				case 2:
					w = fmul(t, t)
				case 3:
					w = fmul(big.NewInt(2), fmul(t, t))
				case 4:
					w = fmul(big.NewInt(2), fmul(s, s))
				case 5:
					s = fmul(s, s)
					w = fmul(fsub(t, s), s)
				case 6:
					w = fsub(new(big.Int), t)
				case 7:
					w = s
				case 8:
					w = finv(t)
				}
				got = verifx.FeChain(op, a, b, cc, d)
				c.Check(bytes.Equal(got[:], leBytes(w, 32)), "field arithmetic", "chain %d of %x %x %x %x: %x, should be %x", op, a, b, cc, d, got, leBytes(w, 32))
			}
			c.Count("field operations", 4000)
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(16, 400); i++ {
		c.Case(fmt.Sprintf("scalar-%d", i), func(r *rand.Rand) {
			for j := 0; j < 1000; j++ {
				var w [64]byte
				var z *big.Int
				switch r.Intn(5) {
				case 0:
					copy(w[:], randBytes(r, 64))
				case 1: // near a multiple of the order
					z = new(big.Int).Mul(groupL, new(big.Int).Rand(r, new(big.Int).Lsh(bigOne, uint(r.Intn(258)+1))))
					z.Add(z, big.NewInt(int64(r.Intn(5)-2)))
				case 2:
					z = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 512), big.NewInt(int64(1+r.Intn(4))))
				case 3:
					z = new(big.Int).Lsh(bigOne, uint(r.Intn(512)))
				case 4: // limbs at their boundaries
					z = new(big.Int)
					for k := 0; k < 24; k++ {
						if r.Intn(2) == 0 {
							z.Or(z, new(big.Int).Lsh(big.NewInt(int64(1<<21-r.Intn(2))), uint(21*k)))
						}
					}
				}
				if z != nil {
					if z.Sign() < 0 {
						z.Neg(z)
					}
					z.Mod(z, new(big.Int).Lsh(bigOne, 512))
					copy(w[:], leBytes(z, 64))
				}
				got := verifx.ScReduce(w)
				want := leBytes(new(big.Int).Mod(leInt(w[:]), groupL), 32)
				c.Check(bytes.Equal(got[:], want), "scalar reduction", "%x: %x, should be %x", w, got, want)
				a, b, d := scValue(r), scValue(r), scValue(r)
				got = verifx.ScMulAdd(a, b, d)
				v := new(big.Int).Mul(leInt(a[:]), leInt(b[:]))
				v.Add(v, leInt(d[:])).Mod(v, groupL)
				c.Check(bytes.Equal(got[:], leBytes(v, 32)), "scalar multiplication and addition", "%x * %x + %x: %x, should be %x", a, b, d, got, leBytes(v, 32))
				// the secret scalar is not reduced
				x := randBytes(r, 32)
				x[0] &= 248
				x[31] = x[31]&127 | 64
				got = verifx.ScMulAdd(arr(x), b, d)
				v.Mul(leInt(x), leInt(b[:]))
				v.Add(v, leInt(d[:])).Mod(v, groupL)
				c.Check(bytes.Equal(got[:], leBytes(v, 32)), "scalar multiplication and addition", "%x * %x + %x: %x, should be %x", x, b, d, got, leBytes(v, 32))
				got = verifx.ScNeg(a)
				v.Neg(leInt(a[:])).Mod(v, groupL)
				c.Check(new(big.Int).Mod(leInt(got[:]), groupL).Cmp(v) == 0, "scalar negation", "%x: %x", a, got)
			}
			c.Count("scalar operations", 4000)
			c.Eval(1)
		})
	}
	for i := 0; i < c.N(32, 400); i++ {
		c.Case(fmt.Sprintf("curve-%d", i), func(r *rand.Rand) {
			tor := torsion()
			for j := 0; j < 20; j++ {
				p, q := randPoint(r, tor), randPoint(r, tor)
				pb, qb := arr(p.bytes()), arr(q.bytes())
				k, l := scValue(r), scValue(r)
				got, ok := verifx.Add(pb, qb)
				c.Check(ok && bytes.Equal(got[:], p.add(q).bytes()), "addition of points", "%x + %x: %x %v", pb, qb, got, ok)
				got, ok = verifx.Double(pb)
				c.Check(ok && bytes.Equal(got[:], p.add(p).bytes()), "doubling of points", "%x: %x %v", pb, got, ok)
				got, ok = verifx.ScalarMult(k, pb)
				c.Check(ok && bytes.Equal(got[:], p.mul(leInt(k[:])).bytes()), "multiplication of a point", "%x * %x: %x %v", k, pb, got, ok)
				got = verifx.ScalarMultBase(k)
				c.Check(bytes.Equal(got[:], basePoint.mul(leInt(k[:])).bytes()), "multiplication of the base point", "%x: %x", k, got)
				got, ok = verifx.DoubleScalarMult(k, pb, l)
				want := p.mul(leInt(k[:])).add(basePoint.mul(leInt(l[:])))
				c.Check(ok && bytes.Equal(got[:], want.bytes()), "double multiplication", "%x * %x + %x * B: %x %v", k, pb, l, got, ok)
				c.Check(verifx.FromBytesBaseGroup(pb) == p.primeOrder(), "check of the group", "%x: %v", pb, !p.primeOrder())
				// any bytes at all
				b := feValue(r)
				b[31] |= byte(r.Intn(2)) << 7
				d, dok := decodePoint(b[:])
				c.Check(verifx.FromBytesBaseGroup(b) == (dok && d.primeOrder()), "check of the group", "%x: decodes %v", b, dok)
				// the base point's multiples near the low end of y, with p added
				c.Count("group checks", 2)
				h := feValue(r)
				h[31] |= byte(r.Intn(2)) << 7
				var out [32]byte
				hp, hok := refHashToEdwards(h[:])
				if e, st := Guard(func() { out = verifx.HashToEdwards(h) }); e != nil {
					c.Check(!hok, "hashing to the curve crashes", "%x: %v %s", h, e, clip(st, 1000))
				} else {
					c.Check(hok && bytes.Equal(out[:], hp.bytes()), "hashing to the curve", "%x: %x (%v)", h, out, hok)
				}
				c.Count("curve operations", 6)
			}
			c.Eval(1)
		})
	}
	c.Case("small-encodings", func(r *rand.Rand) {
		for y := int64(0); y < 300; y++ {
			for v := 0; v < 3; v++ {
				z := big.NewInt(y)
				if v == 1 {
					if y >= 19 {
						continue
					}
					z.Add(z, fieldP)
				} else if v == 2 {
					z.Sub(fieldP, z)
				}
				for s := 0; s < 2; s++ {
					b := leBytes(z, 32)
					b[31] |= byte(s) << 7
					d, ok := decodePoint(b)
					want := ok && d.primeOrder()
					c.Check(verifx.FromBytesBaseGroup(arr(b)) == want, "check of the group", "%x: should be %v", b, want)
					c.Count("group checks", 1)
				}
			}
		}
		c.Eval(1)
	})
}
