package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Op is the head of a term. A term denotes a mathematical integer (booleans are
// 0 and 1); terms are hash-consed, so equal terms are the same pointer. They
// are the value numbers of the analysis.
type Op uint8

const (
	OConst Op = iota
	OLeaf     // named unknown
	OLin      // k + sum co[i]*args[i]
	OWire     // concatenation of bit segments, least significant first
	OXor      // args xor k (k >= 0)
	OAnd
	OOr
	OMul
	ODiv // floor
	OQuo // truncated, operands may be negative
	OMod // floor, divisor > 0
	ORem // truncated remainder
	OShl
	OShr
	OTrunc // args[0] mod 2^w
	OSext  // args[0] (in [0,2^w)) read as signed
	OGE0   // args[0] >= 0
	OEQ0   // args[0] == 0
	ONot
	OIte
	OApp // uninterpreted function name(args), value range iv
)

type Seg struct {
	src     *Term // nil for constant bits
	from, w int
	val     uint64 // constant bits (low 64; w may exceed 64 only if val is 0)
}

type Term struct {
	id   int
	op   Op
	args []*Term
	co   []N
	k    N
	segs []Seg
	w    int
	name string
	iv   Iv
	dep  *Dep
	dpt  int32 // depth
	ws   []Seg // cached toWire
	wsOK int8
	aux  interface{}
}

type Terms struct {
	bitIvs map[*Term]Iv
	flat   bool // relate every term to a few others only
	quick  bool // spend no effort on the ranges of large terms
	tab    map[string]*Term
	deps   *depTab
	kbuf   []byte
	zero   *Term
	one    *Term
	count  int
	budget int // proof search limit
	undec  [4]undecKey
	undecN int
	byID   []*Term
}

func newTerms() *Terms {
	T := &Terms{budget: 400, tab: map[string]*Term{}, deps: newDepTab(), byID: make([]*Term, 1)}
	T.zero = T.Const(n0)
	T.one = T.Const(n1)
	return T
}

func (T *Terms) mk(op Op, args []*Term, co []N, k N, segs []Seg, w int, name string, iv Iv, extra *Dep) *Term {
	b := T.kbuf[:0]
	b = append(b, byte(op))
	b = binary.AppendVarint(b, int64(w))
	b = binary.AppendVarint(b, k.hi)
	b = binary.AppendUvarint(b, k.lo)
	for _, a := range args {
		b = binary.AppendUvarint(b, uint64(a.id)+1)
	}
	b = append(b, 0)
	for _, c := range co {
		b = binary.AppendVarint(b, c.hi)
		b = binary.AppendUvarint(b, c.lo)
	}
	for _, s := range segs {
		if s.src != nil {
			b = binary.AppendUvarint(b, uint64(s.src.id)+1)
		} else {
			b = append(b, 0)
			b = binary.AppendUvarint(b, s.val)
		}
		b = binary.AppendVarint(b, int64(s.from))
		b = binary.AppendVarint(b, int64(s.w))
	}
	if op == OLeaf || op == OApp {
		b = binary.AppendVarint(b, iv.lo.hi)
		b = binary.AppendUvarint(b, iv.lo.lo)
		b = binary.AppendVarint(b, iv.hi.hi)
		b = binary.AppendUvarint(b, iv.hi.lo)
		if extra != nil {
			b = binary.AppendVarint(b, int64(extra.id))
		}
		b = append(b, name...)
	}
	T.kbuf = b
	if t, ok := T.tab[string(b)]; ok {
		return t
	}
	T.count++
	t := &Term{id: T.count, op: op, args: args, co: co, k: k, segs: segs, w: w, name: name, iv: iv}
	d := T.deps.empty
	if extra != nil {
		d = extra
	}
	for _, a := range args {
		d = T.deps.or(d, a.dep)
	}
	for _, s := range segs {
		if s.src != nil {
			d = T.deps.or(d, s.src.dep)
		}
	}
	t.dep = d
	for _, a := range args {
		if a.dpt >= t.dpt {
			t.dpt = a.dpt + 1
		}
	}
	for _, s := range segs {
		if s.src != nil && s.src.dpt >= t.dpt {
			t.dpt = s.src.dpt + 1
		}
	}
	T.tab[string(b)] = t
	T.byID = append(T.byID, t)
	return t
}

func (T *Terms) Const(k N) *Term {
	return T.mk(OConst, nil, nil, k, nil, 0, "", Iv{k, k}, nil)
}
func (T *Terms) Int(x int64) *Term { return T.Const(ni(x)) }
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.one
	}
	return T.zero
}
func (T *Terms) Leaf(name string, iv Iv, dep *Dep) *Term {
	if iv.isConst() {
		return T.Const(iv.lo)
	}
	if dep == nil {
		dep = T.deps.empty
	}
	return T.mk(OLeaf, nil, nil, n0, nil, 0, name, iv, dep)
}
func (T *Terms) App(name string, iv Iv, args ...*Term) *Term {
	return T.mk(OApp, args, nil, n0, nil, 0, name, iv, nil)
}

func (T *Terms) AppD(name string, iv Iv, dep *Dep, args ...*Term) *Term {
	return T.mk(OApp, args, nil, n0, nil, 0, name, iv, dep)
}

// BigConst builds a constant of any size.
func (T *Terms) BigConst(b *big.Int) *Term {
	if b.Sign() < 0 || b.BitLen() <= 120 {
		return T.Const(nbig(b))
	}
	var segs []Seg
	x := new(big.Int).Set(b)
	m := new(big.Int).SetUint64(^uint64(0))
	for x.Sign() > 0 {
		segs = append(segs, Seg{w: 64, val: new(big.Int).And(x, m).Uint64()})
		x.Rsh(x, 64)
	}
	return T.Wire(segs)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constVal() (N, bool) {
	if t.op == OConst {
		return t.k, true
	}
	return n0, false
}
func (t *Term) isTrue() bool  { return t.op == OConst && t.k == n1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.k == n0 }

// width is the number of bits of a non-negative term, or -1.
func (t *Term) width() int {
	if t.iv.lo.sign() < 0 {
		return -1
	}
	if t.op == OWire {
		n := 0
		for _, s := range t.segs {
			n += s.w
		}
		return n
	}
	if t.w > 0 && t.op == OApp {
		return t.w
	}
	if t.iv.hi.isInf() {
		return -1
	}
	return t.iv.hi.bitLen()
}

// AppW is an uninterpreted function with a result of w bits (w may be large).
func (T *Terms) AppW(name string, w int, dep *Dep, args ...*Term) *Term {
	return T.mk(OApp, args, nil, n0, nil, w, name, Iv{n0, pow2(w).sub(n1)}, dep)
}

/* linear terms */

type linB struct {
	m map[*Term]N
	k N
}

func (T *Terms) linAdd(b *linB, t *Term, c N) {
	switch t.op {
	case OConst:
		b.k = b.k.add(t.k.mul(c))
	case OLin:
		b.k = b.k.add(t.k.mul(c))
		for i, a := range t.args {
			T.linAtom(b, a, t.co[i].mul(c))
		}
	default:
		T.linAtom(b, t, c)
	}
}
func (T *Terms) linAtom(b *linB, t *Term, c N) {
	if b.m == nil {
		b.m = map[*Term]N{}
	}
	n := b.m[t].add(c)
	if n.sign() == 0 {
		delete(b.m, t)
	} else {
		b.m[t] = n
	}
}

func (T *Terms) rawLin(args []*Term, co []N, k N) *Term {
	if len(args) == 0 {
		return T.Const(k)
	}
	if len(args) == 1 && co[0] == n1 && k.sign() == 0 {
		return args[0]
	}
	iv := Iv{k, k}
	for i, a := range args {
		iv = iv.add(a.iv.scale(co[i]))
	}
	if iv.isConst() {
		return T.Const(iv.lo)
	}
	return T.mk(OLin, args, co, k, nil, 0, "", iv, nil)
}

func (T *Terms) linDone(b *linB) *Term {
	args := make([]*Term, 0, len(b.m))
	for t := range b.m {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	co := make([]N, len(args))
	wireish := false
	for i, a := range args {
		co[i] = b.m[a]
		if co[i].isInf() {
			// give up on exactness
			return T.App("sat", ivTop, args...)
		}
		if a.op == OWire || (a.op == OXor) {
			wireish = true
		}
	}
	if b.k.isInf() {
		return T.App("sat", ivTop, args...)
	}
	t := T.rawLin(args, co, b.k)
	if wireish && t.op == OLin {
		if segs := T.linWire(t); segs != nil {
			return T.Wire(segs)
		}
	}
	return t
}

func (T *Terms) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return T.Const(a.k.add(b.k))
	}
	var l linB
	T.linAdd(&l, a, n1)
	T.linAdd(&l, b, n1)
	return T.linDone(&l)
}
func (T *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return T.zero
	}
	var l linB
	T.linAdd(&l, a, n1)
	T.linAdd(&l, b, nm1)
	return T.linDone(&l)
}
func (T *Terms) Scale(a *Term, c N) *Term {
	if c == n1 {
		return a
	}
	if c.sign() == 0 {
		return T.zero
	}
	var l linB
	T.linAdd(&l, a, c)
	return T.linDone(&l)
}
func (T *Terms) AddK(a *Term, k N) *Term {
	if k.sign() == 0 {
		return a
	}
	return T.Add(a, T.Const(k))
}
func (T *Terms) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return T.Scale(b, a.k)
	}
	if b.op == OConst {
		return T.Scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OMul, []*Term{a, b}, nil, n0, nil, 0, "", a.iv.mul(b.iv), nil)
}

/* bit segments */

// linWire views a linear term as disjoint bit segments, or returns nil.
func (T *Terms) linWire(t *Term) []Seg {
	if t.k.sign() < 0 {
		return nil
	}
	type piece struct {
		off, w int
		t      *Term
	}
	var ps []piece
	for i, a := range t.args {
		c := t.co[i]
		if c.sign() <= 0 || c.isInf() {
			return nil
		}
		bl := c.bitLen()
		if pow2(bl-1) != c {
			return nil
		}
		w := a.width()
		if w < 0 {
			return nil
		}
		ps = append(ps, piece{bl - 1, w, a})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].off < ps[j].off })
	var segs []Seg
	pos := 0
	kb := t.k.big()
	kbits := func(from, w int) ([]Seg, bool) { // constant bits of k in [from, from+w)
		var out []Seg
		for w > 0 {
			n := w
			if n > 64 {
				n = 64
			}
			x := new(big.Int).Rsh(kb, uint(from))
			v := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))).Uint64()
			out = append(out, Seg{w: n, val: v})
			from += n
			w -= n
		}
		return out, true
	}
	for _, p := range ps {
		if p.off < pos {
			return nil
		}
		if p.off > pos {
			s, _ := kbits(pos, p.off-pos)
			segs = append(segs, s...)
		}
		// k must be zero under the piece
		for i := 0; i < p.w; i++ {
			if kb.Bit(p.off+i) != 0 {
				return nil
			}
		}
		segs = append(segs, Seg{src: p.t, w: p.w})
		pos = p.off + p.w
	}
	if kb.BitLen() > pos {
		s, _ := kbits(pos, kb.BitLen()-pos)
		segs = append(segs, s...)
	}
	return segs
}

// toWire views a term as segments; ok is false for possibly negative or
// unbounded terms.
func (T *Terms) toWire(t *Term) ([]Seg, bool) {
	switch t.wsOK {
	case 1:
		return t.ws, true
	case 2:
		return nil, false
	}
	segs, ok := T.toWire1(t)
	t.ws = segs
	t.wsOK = 2
	if ok {
		t.wsOK = 1
	}
	return segs, ok
}

func constSegs(k N) []Seg {
	var out []Seg
	if k.hi != 0 {
		out = append(out, Seg{w: 64, val: k.lo}, Seg{w: nu(uint64(k.hi)).bitLen(), val: uint64(k.hi)})
	} else if k.lo != 0 {
		out = append(out, Seg{w: k.bitLen(), val: k.lo})
	}
	return out
}

func (T *Terms) toWire1(t *Term) ([]Seg, bool) {
	switch t.op {
	case OConst:
		if t.k.sign() < 0 || t.k.isInf() {
			return nil, false
		}
		return constSegs(t.k), true
	case OWire:
		return t.segs, true
	case OLin:
		if s := T.linWire(t); s != nil {
			return s, true
		}
	}
	w := t.width()
	if w < 0 {
		return nil, false
	}
	if w == 0 {
		return nil, true
	}
	return []Seg{{src: t, w: w}}, true
}

func sliceSegs(segs []Seg, from, w int) []Seg {
	var out []Seg
	pos := 0
	for _, s := range segs {
		if w <= 0 {
			break
		}
		end := pos + s.w
		if end <= from {
			pos = end
			continue
		}
		lo := from - pos
		if lo < 0 {
			lo = 0
		}
		n := s.w - lo
		if n > w {
			n = w
		}
		ns := s
		ns.w = n
		if s.src != nil {
			ns.from += lo
		} else {
			if lo >= 64 {
				ns.val = 0
			} else {
				ns.val = s.val >> uint(lo)
			}
			if n < 64 {
				ns.val &= 1<<uint(n) - 1
			}
		}
		out = append(out, ns)
		from += n
		w -= n
		pos = end
	}
	if w > 0 {
		out = append(out, Seg{w: w})
	}
	return out
}

func (T *Terms) normSeg(s Seg, out []Seg) []Seg {
	if s.w <= 0 {
		return out
	}
	if s.src == nil {
		return append(out, s)
	}
	t := s.src
	switch t.op {
	case OConst, OWire:
		ws, _ := T.toWire(t)
		for _, x := range sliceSegs(ws, s.from, s.w) {
			if t.op == OWire {
				out = append(out, x) // already normal
			} else {
				out = append(out, x)
			}
		}
		return out
	case OLin:
		if ws := T.linWire(t); ws != nil {
			for _, x := range sliceSegs(ws, s.from, s.w) {
				out = T.normSeg(x, out)
			}
			return out
		}
	}
	wd := t.width()
	if wd >= 0 {
		if s.from >= wd {
			return append(out, Seg{w: s.w})
		}
		if s.from+s.w > wd {
			rest := s.from + s.w - wd
			s.w = wd - s.from
			out = T.normSeg(s, out)
			return append(out, Seg{w: rest})
		}
		if s.from == 0 && s.w == wd {
			return append(out, s)
		}
	}
	switch t.op {
	case ODiv:
		if d, x := t.args[1], t.args[0]; wd < 0 && d.op == OConst && x.iv.lo.sign() >= 0 && d.k.sign() > 0 && pow2(d.k.bitLen()-1) == d.k {
			return T.normSeg(Seg{src: x, from: s.from + d.k.bitLen() - 1, w: s.w}, out)
		}
	case OXor:
		if len(t.args) <= 64 {
			var r *Term = T.constBits(t.k, s.from, s.w)
			for _, a := range t.args {
				r = T.xorAtom(r, T.Ext(a, s.from, s.w))
			}
			return append(out, T.padSegs(r, s.w)...)
		}
	case OTrunc:
		if s.from == 0 && s.w < t.w && !(T.flat && t.args[0].op == OLin && len(t.args[0].args) > 4) {
			r := T.Trunc(t.args[0], s.w)
			return append(out, T.padSegs(r, s.w)...)
		}
	case OIte:
		// slice through
		if T.flat && iteDepth(t) > 3 {
			break
		}
		a, b := T.Ext(t.args[1], s.from, s.w), T.Ext(t.args[2], s.from, s.w)
		r := T.Ite(t.args[0], a, b)
		return append(out, T.padSegs(r, s.w)...)
	}
	return append(out, s)
}

// iteDepth is the length of the longest chain of choices at the top of t, up
// to 4.
func iteDepth(t *Term) int {
	n := 0
	for t.op == OIte && n < 4 {
		n++
		if t.args[1].op == OIte {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return n
}

// padSegs gives exactly w bits of t (t must fit).
func (T *Terms) padSegs(t *Term, w int) []Seg {
	ws, ok := T.toWire(t)
	if !ok {
		return []Seg{{src: t, w: w}}
	}
	return sliceSegs(ws, 0, w)
}

func (T *Terms) constBits(k N, from, w int) *Term {
	if k.sign() == 0 {
		return T.zero
	}
	return T.Wire(sliceSegs(constSegs(k), from, w))
}

func allOnes(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(n) - 1
}

// Wire builds the normal form of a concatenation of segments.
func (T *Terms) Wire(in []Seg) *Term {
	var segs []Seg
	for _, s := range in {
		segs = T.normSeg(s, segs)
	}
	// merge neighbours
	var out []Seg
	for _, s := range segs {
		if s.w <= 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.src != nil && s.src == p.src && s.from == p.from+p.w {
				p.w += s.w
				continue
			}
			if p.src == nil && s.src == nil {
				if p.w+s.w <= 64 {
					p.val |= s.val << uint(p.w)
					p.w += s.w
					continue
				}
				if p.val == 0 && s.val == 0 {
					p.w += s.w
					continue
				}
				if p.w < 64 {
					// fill p up to 64 bits, keep the rest
					n := 64 - p.w
					p.val |= s.val << uint(p.w)
					p.w = 64
					if n < 64 {
						s.val >>= uint(n)
					} else {
						s.val = 0
					}
					s.w -= n
				}
			}
		}
		out = append(out, s)
	}
	for len(out) > 0 {
		s := &out[len(out)-1]
		if s.src == nil {
			if s.val == 0 {
				out = out[:len(out)-1]
				continue
			}
			s.w = nu(s.val).bitLen()
		}
		break
	}
	if len(out) == 0 {
		return T.zero
	}
	if len(out) == 1 && out[0].src != nil && out[0].from == 0 && out[0].w == out[0].src.width() {
		return out[0].src
	}
	total := 0
	full, cons := true, true
	for _, s := range out {
		total += s.w
		if s.src != nil {
			cons = false
			if s.from != 0 || s.w != s.src.width() {
				full = false
			}
		}
	}
	if (full || cons) && total <= 120 {
		k := n0
		off := 0
		var args []*Term
		cm := map[*Term]N{}
		dup := false
		for _, s := range out {
			if s.src == nil {
				k = k.add(nu(s.val).mul(pow2(off)))
			} else {
				if _, ok := cm[s.src]; ok {
					dup = true
				}
				cm[s.src] = cm[s.src].add(pow2(off))
				args = append(args, s.src)
			}
			off += s.w
		}
		if !dup {
			sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
			co := make([]N, len(args))
			for i, a := range args {
				co[i] = cm[a]
			}
			return T.rawLin(args, co, k)
		}
	}
	// interval
	lo, hi := n0, n0
	off := 0
	for _, s := range out {
		if s.src == nil {
			v := nu(s.val).mul(pow2(off))
			lo, hi = lo.add(v), hi.add(v)
		} else {
			m := pow2(s.w).sub(n1)
			if s.from == 0 {
				m = nmin(m, s.src.iv.hi)
			}
			hi = hi.add(m.mul(pow2(off)))
		}
		off += s.w
	}
	return T.mk(OWire, nil, nil, n0, out, 0, "", Iv{lo, hi}, nil)
}

// Ext extracts bits [from, from+w).
func (T *Terms) Ext(t *Term, from, w int) *Term {
	if w <= 0 {
		return T.zero
	}
	segs, ok := T.toWire(t)
	if !ok {
		if t.iv.lo.sign() >= 0 {
			return T.Wire([]Seg{{src: t, from: from, w: w}})
		}
		if from == 0 {
			return T.Trunc(t, w)
		}
		return T.Ext(T.Trunc(t, from+w), from, w)
	}
	return T.Wire(sliceSegs(segs, from, w))
}

// ShrC shifts a non-negative term right by a constant.
func (T *Terms) ShrC(t *Term, c int) *Term {
	if c == 0 {
		return t
	}
	w := t.width()
	if w < 0 {
		return T.mk(ODiv, []*Term{t, T.Const(pow2(c))}, nil, n0, nil, 0, "", Iv{t.iv.lo.floorDiv(pow2(c)), t.iv.hi.floorDiv(pow2(c))}, nil)
	}
	if c >= w {
		return T.zero
	}
	return T.Ext(t, c, w-c)
}

// ShlC multiplies by 2^c.
func (T *Terms) ShlC(t *Term, c int) *Term {
	if c == 0 || t == T.zero {
		return t
	}
	segs, ok := T.toWire(t)
	if !ok {
		return T.Scale(t, pow2(c))
	}
	return T.Wire(append([]Seg{{w: c}}, segs...))
}

type triple struct{ a, b Seg }

// align splits two segment lists at common boundaries.
func align(a, b []Seg) []triple {
	var out []triple
	i, j := 0, 0
	var x, y Seg
	for {
		if x.w == 0 && i < len(a) {
			x = a[i]
			i++
			continue
		}
		if y.w == 0 && j < len(b) {
			y = b[j]
			j++
			continue
		}
		if x.w == 0 && y.w == 0 {
			return out
		}
		n := x.w
		if n == 0 || (y.w != 0 && y.w < n) {
			n = y.w
		}
		if n > 64 && ((x.w > 0 && x.src == nil && x.val != 0) || (y.w > 0 && y.src == nil && y.val != 0)) {
			n = 64
		}
		cut := func(s *Seg) Seg {
			if s.w == 0 {
				return Seg{w: n}
			}
			h := sliceSegs([]Seg{*s}, 0, n)[0]
			if s.w == n {
				*s = Seg{}
			} else {
				*s = sliceSegs([]Seg{*s}, n, s.w-n)[0]
			}
			return h
		}
		p, q := cut(&x), cut(&y)
		out = append(out, triple{p, q})
	}
}

func (T *Terms) segTerm(s Seg) *Term { return T.Wire([]Seg{s}) }

const maxPieces = 24
const maxDpt = 40

// deepBit is a bit operation on large terms, kept uninterpreted.
func (T *Terms) deepBit(op Op, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	if op == OAnd {
		return T.App("and", Iv{n0, nmin(a.iv.hi, b.iv.hi)}, a, b)
	}
	name, lo := "xor", n0
	if op == OOr {
		name, lo = "or", nmax(a.iv.lo, b.iv.lo)
	}
	w, x := a.width(), b.width()
	if w < 0 || x < 0 {
		return T.App(name, Iv{lo, nInf}, a, b)
	}
	if x > w {
		w = x
	}
	if w > 120 {
		return T.AppW(name, w, nil, a, b)
	}
	return T.App(name, Iv{lo, pow2(w).sub(n1)}, a, b)
}

const maxXor = 16

// fixedBits tells whether t is a constant, of any size.
func (t *Term) fixedBits() bool {
	if t.op != OWire {
		return t.op == OConst
	}
	for _, s := range t.segs {
		if s.src != nil {
			return false
		}
	}
	return true
}

// bigVal is the value of a constant of any size; nil for other terms.
func (t *Term) bigVal() *big.Int {
	if t.op == OConst {
		return t.k.big()
	}
	if !t.fixedBits() {
		return nil
	}
	r := new(big.Int)
	n := uint(0)
	for _, s := range t.segs {
		x := new(big.Int).SetUint64(s.val)
		r.Or(r, x.Lsh(x, n))
		n += uint(s.w)
	}
	return r
}

// wideXor tells whether a term is, or has a piece that is, an exclusive or of many terms.
func wideXor(t *Term) bool {
	switch t.op {
	case OXor:
		return len(t.args) > maxXor
	case OWire:
		for _, s := range t.segs {
			if s.src != nil && s.src.op == OXor && len(s.src.args) > maxXor {
				return true
			}
		}
	}
	return false
}

// disjoint tells whether no bit can be set in both terms.
func (T *Terms) disjoint(a, b *Term) bool {
	sa, oka := T.toWire(a)
	sb, okb := T.toWire(b)
	if m := 6; !oka || !okb || len(sa) > m && !T.flat || len(sb) > m && !T.flat {
		return false
	}
	for _, p := range align(sa, sb) {
		if !(p.a.src == nil && p.a.val == 0) && !(p.b.src == nil && p.b.val == 0) {
			return false
		}
	}
	return true
}

// bitop applies a bitwise operation to two non-negative terms.
func (T *Terms) bitop(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && a.k.sign() >= 0 && b.k.sign() >= 0 {
		x, y := a.k.big(), b.k.big()
		r := new(big.Int)
		switch op {
		case OXor:
			r.Xor(x, y)
		case OAnd:
			r.And(x, y)
		case OOr:
			r.Or(x, y)
		}
		return T.BigConst(r)
	}
	if a == b {
		if op == OXor {
			return T.zero
		}
		return a
	}
	if a.dpt > maxDpt || b.dpt > maxDpt || T.quick && op == OXor && (wideXor(a) || wideXor(b)) {
		if !a.fixedBits() && !b.fixedBits() && a.iv.lo.sign() >= 0 && b.iv.lo.sign() >= 0 && !((T.quick || T.flat) && op != OAnd && T.disjoint(a, b)) {
			return T.deepBit(op, a, b)
		}
	}
	if op == OAnd { // the mask bounds the width
		if a.fixedBits() {
			a, b = b, a
		}
		if k := b.bigVal(); k != nil && a.width() < 0 && a.iv.lo.sign() >= 0 && k.Sign() > 0 {
			a = T.Ext(a, 0, k.BitLen())
		}
	}
	sa, oka := T.toWire(a)
	sb, okb := T.toWire(b)
	if !oka || !okb {
		return T.bitopRaw(op, a, b)
	}
	ps := align(sa, sb)
	if len(ps) > maxPieces && !(op == OAnd && (a.op == OConst || b.op == OConst)) {
		triv := 0
		for _, p := range ps {
			if p.a.src == nil || p.b.src == nil {
				triv++
			}
		}
		if len(ps)-triv > maxPieces {
			return T.bitopRaw(op, a, b)
		}
	}
	var out []Seg
	for _, p := range ps {
		w := p.a.w
		ca, cb := p.a.src == nil, p.b.src == nil
		if ca && cb {
			var v uint64
			switch op {
			case OXor:
				v = p.a.val ^ p.b.val
			case OAnd:
				v = p.a.val & p.b.val
			case OOr:
				v = p.a.val | p.b.val
			}
			out = append(out, Seg{w: w, val: v})
			continue
		}
		if ca {
			p.a, p.b = p.b, p.a
			ca, cb = cb, ca
		}
		if cb {
			v := p.b.val
			switch {
			case op == OXor && v == 0, op == OOr && v == 0, op == OAnd && w <= 64 && v == allOnes(w):
				out = append(out, p.a)
				continue
			case op == OAnd && v == 0:
				out = append(out, Seg{w: w})
				continue
			case op == OOr && w <= 64 && v == allOnes(w):
				out = append(out, Seg{w: w, val: v})
				continue
			case op == OAnd || op == OOr:
				// runs of ones and zeroes
				runs := 0
				prev := 2
				for i := 0; i < w; i++ {
					bt := int(v >> uint(i) & 1)
					if bt != prev {
						runs++
						prev = bt
					}
				}
				if runs <= 24 {
					i := 0
					for i < w {
						bt := v >> uint(i) & 1
						j := i
						for j < w && v>>uint(j)&1 == bt {
							j++
						}
						if (bt == 1) == (op == OAnd) {
							s := p.a
							s.from += i
							s.w = j - i
							out = append(out, s)
						} else {
							out = append(out, Seg{w: j - i, val: bt * allOnes(j-i)})
						}
						i = j
					}
					continue
				}
			}
		}
		x, y := T.segTerm(p.a), T.segTerm(p.b)
		var r *Term
		if op == OXor {
			r = T.xorAtom(x, y)
		} else {
			r = T.bitopRaw(op, x, y)
		}
		out = append(out, T.padSegs(r, w)...)
	}
	return T.Wire(out)
}

func (T *Terms) bitopRaw(op Op, a, b *Term) *Term {
	if a == b {
		if op == OXor {
			return T.zero
		}
		return a
	}
	if op == OXor {
		return T.xorAtom(a, b)
	}
	if a == T.zero || b == T.zero {
		if op == OAnd {
			return T.zero
		}
		if a == T.zero {
			return b
		}
		return a
	}
	// flatten, sort, dedupe
	set := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == op && len(t.args) < 16 {
			for _, x := range t.args {
				add(x)
			}
			return
		}
		set[t] = true
	}
	add(a)
	add(b)
	var args []*Term
	for t := range set {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 {
		return args[0]
	}
	iv := ivTop
	if a.iv.lo.sign() >= 0 && b.iv.lo.sign() >= 0 {
		if op == OAnd {
			iv = Iv{n0, nmin(a.iv.hi, b.iv.hi)}
		} else {
			m := a.iv.hi.bitLen()
			if x := b.iv.hi.bitLen(); x > m {
				m = x
			}
			if a.iv.hi.isInf() || b.iv.hi.isInf() {
				iv = Iv{nmax(a.iv.lo, b.iv.lo), nInf}
			} else {
				iv = Iv{nmax(a.iv.lo, b.iv.lo), pow2(m).sub(n1)}
			}
		}
	} else if op == OAnd && a.iv.lo.sign() >= 0 {
		iv = Iv{n0, a.iv.hi}
	} else if op == OAnd && b.iv.lo.sign() >= 0 {
		iv = Iv{n0, b.iv.hi}
	} else {
		m := nmax(a.iv.hi, b.iv.hi)
		l := nmin(a.iv.lo, b.iv.lo)
		bl := m.bitLen()
		if x := l.neg().bitLen(); x > bl {
			bl = x
		}
		iv = Iv{pow2(bl).neg(), pow2(bl)}
	}
	return T.mk(op, args, nil, n0, nil, 0, "", iv, nil)
}

// xorAtom xors two terms without splitting them into pieces.
func (T *Terms) xorAtom(a, b *Term) *Term {
	if a == b {
		return T.zero
	}
	if a == T.zero {
		return b
	}
	if b == T.zero {
		return a
	}
	set := map[*Term]bool{}
	k := new(big.Int)
	neg := false
	add := func(t *Term) {
		if set[t] {
			delete(set, t)
		} else {
			set[t] = true
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.op == OConst && t.k.sign() >= 0:
			k.Xor(k, t.k.big())
		case t.op == OXor:
			k.Xor(k, t.k.big())
			for _, x := range t.args {
				add(x)
			}
		default:
			add(t)
		}
	}
	walk(a)
	walk(b)
	var args []*Term
	w := k.BitLen()
	for t := range set {
		args = append(args, t)
		tw := t.width()
		if tw < 0 {
			neg = true
		}
		if tw > w {
			w = tw
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 0 {
		return T.BigConst(k)
	}
	if len(args) == 1 && k.Sign() == 0 {
		return args[0]
	}
	iv := Iv{n0, pow2(w).sub(n1)}
	if neg {
		iv = ivTop
	}
	if k.BitLen() > 120 { // never in practice
		return T.App("xorbig", Iv{n0, nInf}, args...)
	}
	return T.mk(OXor, args, nil, nbig(k), nil, 0, "", iv, nil)
}

func (T *Terms) Xor(a, b *Term) *Term { return T.bitop(OXor, a, b) }
func (T *Terms) And(a, b *Term) *Term { return T.bitop(OAnd, a, b) }
func (T *Terms) Or(a, b *Term) *Term  { return T.bitop(OOr, a, b) }

// Trunc is t mod 2^w.
func (T *Terms) Trunc(t *Term, w int) *Term {
	m := pow2(w)
	if t.iv.lo.sign() >= 0 && t.iv.hi.lt(m) {
		return t
	}
	if t.op == OConst {
		return T.Const(t.k.mod(m))
	}
	if segs, ok := T.toWire(t); ok && !(len(segs) == 1 && segs[0].src == t) {
		return T.Wire(sliceSegs(segs, 0, w))
	}
	if t.op == OTrunc && t.w >= w {
		return T.Trunc(t.args[0], w)
	}
	if t.op == OSext && t.w >= w {
		return T.Trunc(t.args[0], w)
	}
	if t.op == OLin && w <= 64 {
		var b linB
		changed := false
		var add func(x *Term, c N, top bool)
		add = func(x *Term, c N, top bool) {
			c = c.mod(m)
			if c.lt(m.sub(c)) == false {
				c = c.sub(m)
			}
			if (x.op == OTrunc || x.op == OSext) && x.w >= w {
				changed = true
				in := x.args[0]
				if in.op == OLin {
					b.k = b.k.add(in.k.mul(c)).mod(m)
					for i, a := range in.args {
						add(a, in.co[i].mul(c), false)
					}
					return
				}
				if in.op == OConst {
					b.k = b.k.add(in.k.mul(c))
					return
				}
				x = in
			}
			if x.op == OWire && x.segs[0].src != nil && x.segs[0].from == 0 && x.segs[0].w >= w {
				x = x.segs[0].src // the same low bits
			}
			T.linAtom(&b, x, c)
		}
		b.k = t.k.mod(m)
		for i, a := range t.args {
			add(a, t.co[i], true)
		}
		// renormalise
		var b2 linB
		b2.k = b.k.mod(m)
		for x, c := range b.m {
			c = c.mod(m)
			if !c.lt(m.sub(c)) {
				c = c.sub(m)
			}
			if c.sign() != 0 {
				T.linAtom(&b2, x, c)
			}
		}
		_ = changed
		if !(m.sub(b2.k)).lt(b2.k) {
		} else {
			b2.k = b2.k.sub(m)
		}
		nt := T.linDone(&b2)
		if nt != t {
			return T.Trunc(nt, w)
		}
	}
	if t.iv.lo.sign() >= 0 && t.op != OLin && t.op != OMul {
		if wd := t.width(); wd >= 0 {
			return T.Wire([]Seg{{src: t, w: w}})
		}
	}
	return T.mk(OTrunc, []*Term{t}, nil, n0, nil, w, "", Iv{n0, m.sub(n1)}, nil)
}

// Sext reads t mod 2^w as a signed w-bit number.
func (T *Terms) Sext(t *Term, w int) *Term {
	h := pow2(w - 1)
	if h.neg().le(t.iv.lo) && t.iv.hi.lt(h) {
		return t
	}
	if t.op == OConst {
		v := t.k.mod(pow2(w))
		if !v.lt(h) {
			v = v.sub(pow2(w))
		}
		return T.Const(v)
	}
	u := T.Trunc(t, w)
	if u.iv.hi.lt(h) {
		return u
	}
	return T.mk(OSext, []*Term{u}, nil, n0, nil, w, "", Iv{h.neg(), h.sub(n1)}, nil)
}

func isPow2(k N) (int, bool) {
	if k.sign() <= 0 || k.isInf() {
		return 0, false
	}
	bl := k.bitLen()
	return bl - 1, pow2(bl-1) == k
}

// linSplit writes t = c*q + r with r a linear term whose coefficients are not
// multiples of c.
func (T *Terms) linSplit(t *Term, c N) (q, r *Term) {
	var lq, lr linB
	kq := t.k.floorDiv(c)
	lq.k = kq
	lr.k = t.k.sub(kq.mul(c))
	switch t.op {
	case OLin:
		for i, a := range t.args {
			if t.co[i].mod(c).sign() == 0 {
				T.linAtom(&lq, a, t.co[i].floorDiv(c))
			} else {
				T.linAtom(&lr, a, t.co[i])
			}
		}
	case OConst:
	default:
		lq.k, lr.k = n0, n0
		T.linAtom(&lr, t, n1)
	}
	return T.linDone(&lq), T.linDone(&lr)
}

// Div is floor division of x by y > 0. xnn says x is known to be non-negative.
func (T *Terms) Div(x, y *Term, xnn bool) *Term {
	if y.op == OConst {
		c := y.k
		if c == n1 {
			return x
		}
		if x.op == OConst {
			return T.Const(x.k.floorDiv(c))
		}
		if x.op == OLin {
			q, r := T.linSplit(x, c)
			if r.iv.lo.sign() >= 0 && r.iv.hi.lt(c) {
				return q
			}
			if q.op != OConst || q.k.sign() != 0 {
				if r.op == OConst {
					// r in [0,c)
					return q
				}
			}
		}
		if x.iv.lo.sign() >= 0 && x.iv.hi.lt(c) {
			return T.zero
		}
		if p, ok := isPow2(c); ok && x.iv.lo.sign() >= 0 {
			return T.ShrC(x, p)
		}
		// (x / a) / b = x / (a*b)
		if x.op == ODiv && x.args[1].op == OConst {
			return T.Div(x.args[0], T.Const(x.args[1].k.mul(c)), xnn)
		}
		iv := Iv{x.iv.lo.floorDiv(c), x.iv.hi.floorDiv(c)}
		return T.mk(ODiv, []*Term{x, y}, nil, n0, nil, 0, "", iv, nil)
	}
	iv := ivTop
	if x.iv.lo.sign() >= 0 && y.iv.lo.sign() > 0 {
		iv = Iv{x.iv.lo.floorDiv(y.iv.hi), x.iv.hi.floorDiv(y.iv.lo)}
	} else if x.iv.lo.sign() >= 0 && y.iv.lo.sign() >= 0 {
		iv = Iv{n0, x.iv.hi}
	}
	return T.mk(ODiv, []*Term{x, y}, nil, n0, nil, 0, "", iv, nil)
}

// Mod is x mod y in [0,y), y > 0.
func (T *Terms) Mod(x, y *Term) *Term {
	if y.op == OConst {
		c := y.k
		if x.op == OConst {
			return T.Const(x.k.mod(c))
		}
		if x.iv.lo.sign() >= 0 && x.iv.hi.lt(c) {
			return x
		}
		if x.op == OLin {
			_, r := T.linSplit(x, c)
			if r != x {
				return T.Mod(r, y)
			}
		}
		if p, ok := isPow2(c); ok && x.iv.lo.sign() >= 0 {
			return T.Ext(x, 0, p)
		} else if ok && p <= 64 {
			return T.Trunc(x, p)
		}
		return T.mk(OMod, []*Term{x, y}, nil, n0, nil, 0, "", Iv{n0, c.sub(n1)}, nil)
	}
	hi := y.iv.hi.sub(n1)
	if x.iv.lo.sign() >= 0 {
		hi = nmin(hi, x.iv.hi)
	}
	return T.mk(OMod, []*Term{x, y}, nil, n0, nil, 0, "", Iv{n0, nmax(hi, n0)}, nil)
}

/* predicates */

func (t *Term) isPred() bool {
	return t.op == OGE0 || t.op == OEQ0 || t.op == ONot || (t.iv.lo.sign() >= 0 && t.iv.hi.le(n1))
}

func (T *Terms) Not(p *Term) *Term {
	switch p.op {
	case OConst:
		return T.Bool(p.k.sign() == 0)
	case ONot:
		return p.args[0]
	}
	return T.mk(ONot, []*Term{p}, nil, n0, nil, 0, "", Iv{n0, n1}, nil)
}

func leadNeg(l *Term) bool {
	if l.op == OLin {
		return l.co[0].sign() < 0
	}
	return false
}

func (T *Terms) GE0(l *Term) *Term {
	if l.iv.lo.sign() >= 0 {
		return T.one
	}
	if l.iv.hi.sign() < 0 {
		return T.zero
	}
	if leadNeg(l) {
		return T.Not(T.GE0(T.Sub(T.Const(nm1), l)))
	}
	return T.mk(OGE0, []*Term{l}, nil, n0, nil, 0, "", Iv{n0, n1}, nil)
}
func (T *Terms) LE(a, b *Term) *Term { return T.GE0(T.Sub(b, a)) }
func (T *Terms) LT(a, b *Term) *Term { return T.GE0(T.AddK(T.Sub(b, a), nm1)) }

func (T *Terms) EQ0(l *Term) *Term {
	if !l.iv.contains(n0) {
		return T.zero
	}
	if l.op == OConst {
		return T.one
	}
	if l.op == OLin && len(l.args) == 1 {
		q := l.k.neg().floorDiv(l.co[0])
		if q.mul(l.co[0]) != l.k.neg() {
			return T.zero
		}
		if !l.args[0].iv.contains(q) {
			return T.zero
		}
		if q.sign() == 0 {
			return T.EQ0(l.args[0])
		}
		if l.co[0] != n1 {
			return T.EQ0(T.AddK(l.args[0], q.neg()))
		}
		if l.args[0].isPred() && q == n1 {
			return l.args[0]
		}
	}
	if l.op == OLin && leadNeg(l) {
		l = T.Scale(l, nm1)
	}
	switch l.op {
	case OGE0, OEQ0, ONot:
		return T.Not(l)
	case OXor:
		if len(l.args) == 2 && l.k.sign() == 0 {
			return T.EQ0(T.Sub(l.args[0], l.args[1]))
		}
		if len(l.args) == 1 {
			return T.EQ0(T.AddK(l.args[0], l.k.neg()))
		}
	case OLeaf, OApp, OIte:
		if l.isPred() {
			return T.Not(l)
		}
	}
	return T.mk(OEQ0, []*Term{l}, nil, n0, nil, 0, "", Iv{n0, n1}, nil)
}
func (T *Terms) EQ(a, b *Term) *Term {
	if a == b {
		return T.one
	}
	sa, oka := T.toWire(a)
	sb, okb := T.toWire(b)
	// differing constant bits decide; a wide comparison stays an xor-zero test
	if oka && okb && (a.width() > 120 || b.width() > 120) {
		_ = sa
		_ = sb
		return T.EQ0(T.Xor(a, b))
	}
	return T.EQ0(T.Sub(a, b))
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return T.Ite(c.args[0], b, a)
	}
	if a.isTrue() && b.isFalse() {
		return c
	}
	if a.isFalse() && b.isTrue() {
		return T.Not(c)
	}
	if T.quick && c.op == OGE0 && leadNeg(c.args[0]) {
		// continuous at 0: the sides agree where the condition turns
		l := c.args[0]
		if d := T.Sub(a, b); d == l || d == T.Scale(l, nm1) {
			c, a, b = T.GE0(T.Scale(l, nm1)), b, a
		}
	}
	return T.mk(OIte, []*Term{c, a, b}, nil, n0, nil, 0, "", a.iv.hull(b.iv), nil)
}

/* printing */

func (t *Term) String() string { return t.str(3) }
func (t *Term) str(d int) string {
	if d == 0 && t.op != OConst && t.op != OLeaf {
		return fmt.Sprintf("#%d", t.id)
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case OLeaf:
		return t.name
	case OLin:
		var s []string
		for i, a := range t.args {
			s = append(s, fmt.Sprintf("%s*%s", t.co[i], a.str(d-1)))
		}
		if t.k.sign() != 0 {
			s = append(s, t.k.String())
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OWire:
		var s []string
		for _, g := range t.segs {
			if g.src == nil {
				s = append(s, fmt.Sprintf("%x'%d", g.val, g.w))
			} else {
				s = append(s, fmt.Sprintf("%s[%d+%d]", g.src.str(d-1), g.from, g.w))
			}
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	names := map[Op]string{OXor: "xor", OAnd: "and", OOr: "or", OMul: "mul", ODiv: "div", OQuo: "quo", OMod: "mod", ORem: "rem", OShl: "shl", OShr: "shr", OTrunc: "trunc", OSext: "sext", OGE0: "ge0", OEQ0: "eq0", ONot: "not", OIte: "ite", OApp: t.name}
	var s []string
	for i, a := range t.args {
		if i > 6 {
			s = append(s, "...")
			break
		}
		s = append(s, a.str(d-1))
	}
	n := names[t.op]
	if t.op == OTrunc || t.op == OSext {
		n = fmt.Sprintf("%s%d", n, t.w)
	}
	return n + "(" + strings.Join(s, ",") + ")"
}
