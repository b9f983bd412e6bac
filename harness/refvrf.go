package main

import (
	"bytes"
	"math/big"

	"golang.org/x/crypto/sha3"
)

// Independent implementation of the specified verifiable random function on
// math/big, written from the formulas (Edwards25519, Elligator 2, SHAKE256).

var (
	bigOne = big.NewInt(1)
	fieldP = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 255), big.NewInt(19))
	groupL = func() *big.Int {
		l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return l.Add(l, new(big.Int).Lsh(bigOne, 252))
	}()
	curveD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, fieldP)
	}()
	montA  = big.NewInt(486662)
	sqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Div(new(big.Int).Sub(fieldP, bigOne), big.NewInt(4)), fieldP)
)

func fmul(a, b *big.Int) *big.Int { z := new(big.Int).Mul(a, b); return z.Mod(z, fieldP) }
func fadd(a, b *big.Int) *big.Int { z := new(big.Int).Add(a, b); return z.Mod(z, fieldP) }
func fsub(a, b *big.Int) *big.Int { z := new(big.Int).Sub(a, b); return z.Mod(z, fieldP) }

// finv is the inverse, 0 for 0.
func finv(a *big.Int) *big.Int {
	a = new(big.Int).Mod(a, fieldP)
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return a.ModInverse(a, fieldP)
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func leBytes(z *big.Int, n int) []byte {
	b := z.Bytes()
	o := make([]byte, n)
	for i := range b {
		o[i] = b[len(b)-1-i]
	}
	return o
}

// point is a curve point in extended coordinates.
type point struct{ X, Y, Z, T *big.Int }

func affine(x, y *big.Int) point {
	return point{x, y, big.NewInt(1), fmul(x, y)}
}

func zeroPoint() point { return affine(big.NewInt(0), big.NewInt(1)) }

func (p point) add(q point) point {
	a := fmul(p.X, q.X)
	b := fmul(p.Y, q.Y)
	c := fmul(fmul(p.T, curveD), q.T)
	d := fmul(p.Z, q.Z)
	e := fsub(fsub(fmul(fadd(p.X, p.Y), fadd(q.X, q.Y)), a), b)
	f := fsub(d, c)
	g := fadd(d, c)
	h := fadd(b, a)
	return point{fmul(e, f), fmul(g, h), fmul(f, g), fmul(e, h)}
}

func (p point) neg() point { return point{fsub(new(big.Int), p.X), p.Y, p.Z, fsub(new(big.Int), p.T)} }

func (p point) mul(k *big.Int) point {
	r := zeroPoint()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p point) xy() (x, y *big.Int) {
	zi := finv(p.Z)
	return fmul(p.X, zi), fmul(p.Y, zi)
}

func (p point) bytes() []byte {
	x, y := p.xy()
	b := leBytes(y, 32)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

func (p point) isZero() bool { return bytes.Equal(p.bytes(), leBytes(bigOne, 32)) }

// xFromY recovers x with the given parity.
func xFromY(y *big.Int, bit uint) (*big.Int, bool) {
	yy := fmul(y, y)
	x2 := fmul(fsub(yy, bigOne), finv(fadd(fmul(curveD, yy), bigOne)))
	x := new(big.Int).ModSqrt(x2, fieldP)
	if x == nil {
		return nil, false
	}
	if x.Bit(0) != bit {
		x = fsub(new(big.Int), x)
	}
	return x, true
}

// decodePoint tells whether b is the canonical encoding of a point.
func decodePoint(b []byte) (point, bool) {
	y := leInt(b)
	bit := y.Bit(255)
	y.SetBit(y, 255, 0)
	if y.Cmp(fieldP) >= 0 {
		return point{}, false
	}
	x, ok := xFromY(y, bit)
	if !ok || x.Bit(0) != bit {
		return point{}, false
	}
	return affine(x, y), true
}

// primeOrder tells whether the point generates the group of prime order.
func (p point) primeOrder() bool { return !p.isZero() && p.mul(groupL).isZero() }

var basePoint = func() point {
	y := fmul(big.NewInt(4), finv(big.NewInt(5)))
	x, _ := xFromY(y, 0)
	return affine(x, y)
}()

// refHashToEdwards is Elligator 2 followed by the map to the Edwards curve.
func refHashToEdwards(h []byte) (point, bool) {
	b := dup(h)
	bit := uint(b[31] >> 7)
	b[31] &= 127
	r := new(big.Int).Mod(leInt(b), fieldP)
	w := finv(fadd(fmul(big.NewInt(2), fmul(r, r)), bigOne))
	w = fsub(new(big.Int), fmul(montA, w))
	e := fadd(fadd(fmul(w, fmul(w, w)), fmul(montA, fmul(w, w))), w)
	if e.Sign() != 0 && big.Jacobi(e, fieldP) == -1 {
		w = fsub(fsub(new(big.Int), w), montA)
	}
	y := fmul(fsub(w, bigOne), finv(fadd(w, bigOne)))
	x, ok := xFromY(y, bit)
	if !ok {
		return point{}, false
	}
	return affine(x, y), true
}

func shake256(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	o := make([]byte, n)
	h.Read(o)
	return o
}

func refHashToCurve(m []byte) point {
	p, ok := refHashToEdwards(shake256(32, m))
	if !ok {
		panic("harness: hash not on the curve")
	}
	return p.mul(big.NewInt(8))
}

type refVRF struct {
	x       *big.Int
	r       []byte
	pk      []byte
	pkPoint point
}

func newRefVRF(seed []byte) *refVRF {
	h := shake256(64, seed)
	x := h[:32]
	x[0] &= 248
	x[31] &= 127
	x[31] |= 64
	v := &refVRF{x: leInt(x), r: h[32:]}
	v.pkPoint = basePoint.mul(v.x)
	v.pk = v.pkPoint.bytes()
	return v
}

func (v *refVRF) compute(m []byte) []byte {
	return shake256(32, refHashToCurve(m).mul(v.x).bytes(), m)
}

// prove is the specified proof.
func (v *refVRF) prove(m []byte) (idx, proof []byte) {
	r := new(big.Int).Mod(leInt(shake256(64, v.r, v.pk, m)), groupL)
	h := refHashToCurve(m)
	return vrfProof(v, m, h, r, h.mul(v.x), v.pk, basePoint.mul(r))
}

func vrfProof(v *refVRF, m []byte, h point, r *big.Int, hx point, pk []byte, gr point) (idx, proof []byte) {
	hxB := hx.bytes()
	sH := shake256(64, basePoint.bytes(), h.bytes(), pk, hxB, gr.bytes(), h.mul(r).bytes(), m)
	s := new(big.Int).Mod(leInt(sH), groupL)
	t := new(big.Int).Mul(v.x, s)
	t.Sub(r, t).Mod(t, groupL)
	proof = append(append(leBytes(s, 32), leBytes(t, 32)...), hxB...)
	return shake256(32, hxB, m), proof
}

// torsion returns the points of order dividing 8.
func torsion() []point {
	// a point times L has an order dividing 8
	var g point
	for y := int64(2); ; y++ {
		x, ok := xFromY(big.NewInt(y), 0)
		if !ok {
			continue
		}
		g = affine(x, big.NewInt(y)).mul(groupL)
		if !g.mul(big.NewInt(4)).isZero() {
			break
		}
	}
	var out []point
	for i := int64(0); i < 8; i++ {
		out = append(out, g.mul(big.NewInt(i)))
	}
	return out
}
