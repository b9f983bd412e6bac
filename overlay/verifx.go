// Package verifx gives the verification harness access to the internal
// curve arithmetic.
package verifx

import (
	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/edwards25519"
	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/extra25519"
)

type fe = edwards25519.FieldElement

func fromB(a [32]byte) (f fe) { edwards25519.FeFromBytes(&f, &a); return }
func toB(f *fe) (b [32]byte)  { edwards25519.FeToBytes(&b, f); return }

// FeOp applies a field operation.
func FeOp(op int, a, b [32]byte) [32]byte {
	x, y := fromB(a), fromB(b)
	var z fe
	switch op {
	case 0:
		edwards25519.FeAdd(&z, &x, &y)
	case 1:
		edwards25519.FeSub(&z, &x, &y)
	case 2:
		edwards25519.FeMul(&z, &x, &y)
	case 3:
		edwards25519.FeSquare(&z, &x)
	case 4:
		edwards25519.FeSquare2(&z, &x)
	case 5:
		edwards25519.FeInvert(&z, &x)
	case 6:
		edwards25519.FeNeg(&z, &x)
	case 7:
		z = x
	}
	return toB(&z)
}

// FeChain applies an operation to sums and differences that have not been
// reduced.
func FeChain(op int, a, b, c, d [32]byte) [32]byte {
	w, x, y, z := fromB(a), fromB(b), fromB(c), fromB(d)
	var s, t, r fe
	edwards25519.FeAdd(&s, &w, &x)
	edwards25519.FeSub(&t, &y, &z)
	switch op {
	case 0:
		edwards25519.FeMul(&r, &s, &t)
	case 1:
		edwards25519.FeSquare(&r, &s)
	case 2:
		edwards25519.FeSquare(&r, &t)
	case 3:
		edwards25519.FeSquare2(&r, &t)
	case 4:
		edwards25519.FeSquare2(&r, &s)
	case 5:
		edwards25519.FeMul(&s, &s, &s)
		edwards25519.FeSub(&t, &t, &s)
		edwards25519.FeMul(&r, &t, &s)
	case 6:
		edwards25519.FeNeg(&t, &t)
		r = t
	case 7:
		r = s
	case 8:
		edwards25519.FeInvert(&r, &t)
	}
	return toB(&r)
}

func FeIsNonZero(a [32]byte) bool { x := fromB(a); return edwards25519.FeIsNonZero(&x) != 0 }
func FeIsNegative(a [32]byte) bool {
	x := fromB(a)
	return edwards25519.FeIsNegative(&x) != 0
}

func ScReduce(s [64]byte) (out [32]byte) { edwards25519.ScReduce(&out, &s); return }
func ScMulAdd(a, b, c [32]byte) (s [32]byte) {
	edwards25519.ScMulAdd(&s, &a, &b, &c)
	return
}
func ScNeg(a [32]byte) (r [32]byte) { edwards25519.ScNeg(&r, &a); return }

func ScalarMultBase(a [32]byte) (out [32]byte) {
	var p edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&p, &a)
	p.ToBytes(&out)
	return
}

func ScalarMult(a, pt [32]byte) (out [32]byte, ok bool) {
	var p, r edwards25519.ExtendedGroupElement
	if !p.FromBytes(&pt) {
		return out, false
	}
	edwards25519.GeScalarMult(&r, &a, &p)
	r.ToBytes(&out)
	return out, true
}

func DoubleScalarMult(a, pt, b [32]byte) (out [32]byte, ok bool) {
	var p edwards25519.ExtendedGroupElement
	if !p.FromBytes(&pt) {
		return out, false
	}
	var r edwards25519.ProjectiveGroupElement
	edwards25519.GeDoubleScalarMultVartime(&r, &a, &p, &b)
	r.ToBytes(&out)
	return out, true
}

func Add(a, b [32]byte) (out [32]byte, ok bool) {
	var p, q, r edwards25519.ExtendedGroupElement
	if !p.FromBytes(&a) || !q.FromBytes(&b) {
		return out, false
	}
	edwards25519.GeAdd(&r, &p, &q)
	r.ToBytes(&out)
	return out, true
}

func Double(a [32]byte) (out [32]byte, ok bool) {
	var p, r edwards25519.ExtendedGroupElement
	if !p.FromBytes(&a) {
		return out, false
	}
	edwards25519.GeDouble(&r, &p)
	r.ToBytes(&out)
	return out, true
}

func FromBytesBaseGroup(a [32]byte) bool {
	var p edwards25519.ExtendedGroupElement
	return p.FromBytesBaseGroup(&a)
}

func HashToEdwards(h [32]byte) (out [32]byte) {
	var p edwards25519.ExtendedGroupElement
	extra25519.HashToEdwards(&p, &h)
	p.ToBytes(&out)
	return
}
