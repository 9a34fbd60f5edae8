package main

import (
	"fmt"
	"math/big"
	"math/bits"
)

// N is a saturating 128-bit signed integer. Values of magnitude >= 2^126 are
// treated as plus or minus infinity.
type N struct {
	hi int64
	lo uint64
}

var (
	nInf    = N{1 << 62, 0}
	nNegInf = N{-(1 << 62), 0}
	n0      = N{}
	n1      = N{0, 1}
	nm1     = N{-1, ^uint64(0)}
)

func ni(x int64) N {
	if x < 0 {
		return N{-1, uint64(x)}
	}
	return N{0, uint64(x)}
}
func nu(x uint64) N { return N{0, x} }

func nbig(b *big.Int) N {
	if b.BitLen() >= 126 {
		if b.Sign() < 0 {
			return nNegInf
		}
		return nInf
	}
	var m big.Int
	m.Abs(b)
	lo := new(big.Int).And(&m, new(big.Int).SetUint64(^uint64(0))).Uint64()
	hi := new(big.Int).Rsh(&m, 64).Uint64()
	r := N{int64(hi), lo}
	if b.Sign() < 0 {
		return r.neg()
	}
	return r
}

func (a N) big() *big.Int {
	neg := a.hi < 0
	m := a
	if neg {
		m = N{^a.hi, ^a.lo}
		lo, c := bits.Add64(m.lo, 1, 0)
		m = N{m.hi + int64(c), lo}
	}
	r := new(big.Int).SetInt64(m.hi)
	r.Lsh(r, 64)
	r.Or(r, new(big.Int).SetUint64(m.lo))
	if neg {
		r.Neg(r)
	}
	return r
}

func (a N) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}
func (a N) cmp(b N) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a N) lt(b N) bool  { return a.cmp(b) < 0 }
func (a N) le(b N) bool  { return a.cmp(b) <= 0 }
func (a N) isInf() bool  { return a.hi >= 1<<62 || a.hi <= -(1<<62) }
func (a N) finite() bool { return !a.isInf() }
func (a N) sat() N {
	if a.hi >= 1<<62 {
		return nInf
	}
	if a.hi <= -(1 << 62) {
		return nNegInf
	}
	return a
}
func (a N) neg() N {
	if a.isInf() {
		if a.hi > 0 {
			return nNegInf
		}
		return nInf
	}
	lo, c := bits.Add64(^a.lo, 1, 0)
	return N{^a.hi + int64(c), lo}
}
func (a N) add(b N) N {
	if a.isInf() {
		return a.sat()
	}
	if b.isInf() {
		return b.sat()
	}
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return N{a.hi + b.hi + int64(c), lo}.sat()
}
func (a N) sub(b N) N { return a.add(b.neg()) }
func (a N) abs() N {
	if a.sign() < 0 {
		return a.neg()
	}
	return a
}
func (a N) mul(b N) N {
	if a.sign() == 0 || b.sign() == 0 {
		return n0
	}
	neg := (a.sign() < 0) != (b.sign() < 0)
	x, y := a.abs(), b.abs()
	var r N
	switch {
	case x.isInf() || y.isInf():
		r = nInf
	case x.hi != 0 && y.hi != 0:
		r = nInf
	default:
		if x.hi != 0 {
			x, y = y, x
		}
		// x.hi == 0
		h, l := bits.Mul64(x.lo, y.lo)
		h2, l2 := bits.Mul64(x.lo, uint64(y.hi))
		if h2 != 0 {
			r = nInf
			break
		}
		hh, c := bits.Add64(h, l2, 0)
		if c != 0 || hh >= 1<<62 {
			r = nInf
			break
		}
		r = N{int64(hh), l}
	}
	if neg {
		return r.neg()
	}
	return r
}

// floorDiv divides rounding towards minus infinity; b must be non-zero.
func (a N) floorDiv(b N) N {
	if a.isInf() {
		if b.sign() < 0 {
			return a.neg()
		}
		return a.sat()
	}
	if b.isInf() {
		if (a.sign() < 0) != (b.sign() < 0) && a.sign() != 0 {
			return nm1
		}
		return n0
	}
	if a.hi == 0 && b.hi == 0 {
		return N{0, a.lo / b.lo}
	}
	q, m := new(big.Int).DivMod(a.big(), b.big(), new(big.Int))
	if b.sign() < 0 && m.Sign() != 0 { // Euclid -> floor
		q.Sub(q, big.NewInt(1))
	}
	return nbig(q)
}
func (a N) ceilDiv(b N) N { return a.neg().floorDiv(b).neg() }

// quo truncates towards zero.
func (a N) quo(b N) N {
	neg := (a.sign() < 0) != (b.sign() < 0)
	r := a.abs().floorDiv(b.abs())
	if neg {
		return r.neg()
	}
	return r
}
func (a N) mod(b N) N   { return a.sub(a.floorDiv(b).mul(b)) }
func (a N) isU64() bool { return a.hi == 0 }
func (a N) u64() uint64 { return a.lo }
func (a N) i64() int64  { return int64(a.lo) }
func (a N) isI64() bool {
	return (a.hi == 0 && a.lo < 1<<63) || (a.hi == -1 && a.lo >= 1<<63)
}
func nmin(a, b N) N {
	if a.le(b) {
		return a
	}
	return b
}
func nmax(a, b N) N {
	if a.le(b) {
		return b
	}
	return a
}
func pow2(k int) N {
	if k >= 126 {
		return nInf
	}
	if k < 64 {
		return N{0, 1 << uint(k)}
	}
	return N{1 << uint(k-64), 0}
}
func (a N) bitLen() int {
	if a.sign() <= 0 {
		return 0
	}
	if a.hi != 0 {
		return 64 + bits.Len64(uint64(a.hi))
	}
	return bits.Len64(a.lo)
}
func (a N) String() string {
	if a.isInf() {
		if a.hi > 0 {
			return "+inf"
		}
		return "-inf"
	}
	if a.isI64() {
		return fmt.Sprint(a.i64())
	}
	return a.big().String()
}

// Iv is a closed interval.
type Iv struct{ lo, hi N }

var ivTop = Iv{nNegInf, nInf}

func (v Iv) isConst() bool     { return v.lo == v.hi && v.lo.finite() }
func (v Iv) empty() bool       { return v.hi.lt(v.lo) }
func (v Iv) meet(w Iv) Iv      { return Iv{nmax(v.lo, w.lo), nmin(v.hi, w.hi)} }
func (v Iv) hull(w Iv) Iv      { return Iv{nmin(v.lo, w.lo), nmax(v.hi, w.hi)} }
func (v Iv) contains(x N) bool { return v.lo.le(x) && x.le(v.hi) }
func (v Iv) within(w Iv) bool  { return w.lo.le(v.lo) && v.hi.le(w.hi) }
func (v Iv) add(w Iv) Iv       { return Iv{v.lo.add(w.lo), v.hi.add(w.hi)} }
func (v Iv) scale(c N) Iv {
	a, b := v.lo.mul(c), v.hi.mul(c)
	if c.sign() < 0 {
		a, b = b, a
	}
	return Iv{a, b}
}
func (v Iv) mul(w Iv) Iv {
	a, b, c, d := v.lo.mul(w.lo), v.lo.mul(w.hi), v.hi.mul(w.lo), v.hi.mul(w.hi)
	return Iv{nmin(nmin(a, b), nmin(c, d)), nmax(nmax(a, b), nmax(c, d))}
}
func (v Iv) String() string { return "[" + v.lo.String() + "," + v.hi.String() + "]" }
