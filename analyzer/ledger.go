package main

import (
	"encoding/binary"
	"math/big"
	"sort"
)

// The conditions of a path as a set of facts: comparisons between index terms
// and equations between bits (linear over GF(2)).

type lit struct {
	t   *Term
	pos bool
}

// ledger is a path condition taken apart.
type ledger struct {
	in     *Interp
	lits   map[*Term]bool // value of each predicate
	list   []lit
	zero   []*Term // terms known to be zero
	opaque []*Term // conjuncts that could not be taken apart
	open   []undone
	clash  bool // the conjuncts contradict each other
	lost   bool
	seen   map[lit]bool
}

func (in *Interp) ledger(st *State) *ledger { return in.ledgerWith(st, nil) }

func (in *Interp) ledgerWith(st *State, forced []lit) *ledger {
	l := &ledger{in: in, lits: map[*Term]bool{}, seen: map[lit]bool{}}
	for _, f := range forced {
		l.add(f.t, f.pos)
	}
	g := st.g
	for ; g != nil && g != gLost; g = g.up {
		l.node(g.c)
	}
	l.lost = g == gLost
	// what was too early to take apart
	for len(l.open) > 0 {
		o := l.open
		l.open = nil
		for _, x := range o {
			if x.n != nil {
				l.node(x.n)
			} else {
				delete(l.seen, lit{x.t, x.pos})
				l.add(x.t, x.pos)
			}
		}
		if len(l.open) >= len(o) {
			break
		}
	}
	for _, x := range l.open {
		l.opaque = append(l.opaque, x.on)
	}
	return l
}

// ledgers is the path condition as a disjunction, if it is a small one.
func (in *Interp) ledgers(st *State) []*ledger {
	base := in.ledger(st)
	if len(base.open) == 0 {
		return []*ledger{base}
	}
	var out []*ledger
	n := 0
	var rec func(st *State, forced []lit, l *ledger) bool
	rec = func(st *State, forced []lit, l *ledger) bool {
		if l.clash {
			return true
		}
		var v *Term
		for _, x := range l.open {
			if x.on != nil {
				v = x.on
				break
			}
		}
		if v == nil {
			out = append(out, l)
			return true
		}
		if n++; n > 24 {
			return false
		}
		for _, b := range []bool{true, false} {
			s := st.clone()
			if !in.T.assume(s, v, b) {
				continue
			}
			f := append(forced[:len(forced):len(forced)], lit{v, b})
			if !rec(s, f, in.ledgerWith(s, f)) {
				return false
			}
		}
		return true
	}
	if !rec(st, nil, base) {
		return []*ledger{base}
	}
	return out
}

// undone is a conjunct that could not be taken apart; its first open choice is on.
type undone struct {
	n   *gnode
	t   *Term
	pos bool
	on  *Term
}

func (l *ledger) node(n *gnode) {
	for n.v != nil {
		switch {
		case n.hi == gZero:
			l.add(n.v, false)
			n = n.lo
		case n.lo == gZero:
			l.add(n.v, true)
			n = n.hi
		default:
			v, ok := l.lits[n.v]
			if !ok {
				l.open = append(l.open, undone{n: n, on: n.v})
				return
			}
			if v {
				n = n.hi
			} else {
				n = n.lo
			}
		}
	}
	if n == gZero {
		l.clash = true
	}
}

func (l *ledger) add(t *Term, pos bool) {
	for t.op == ONot {
		t, pos = t.args[0], !pos
	}
	k := lit{t, pos}
	if t.op == OConst && (t.k.sign() != 0) != pos {
		l.clash = true
	}
	if t.op == OConst || l.seen[k] {
		return
	}
	if v, ok := l.lits[t]; ok && v != pos {
		l.clash = true
	}
	l.seen[k] = true
	l.lits[t] = pos
	l.list = append(l.list, k)
	switch t.op {
	case OIte:
		c, a, b := t.args[0], t.args[1], t.args[2]
		is := func(x *Term, v bool) bool { return x.op == OConst && (x.k.sign() != 0) == v }
		switch {
		case is(a, !pos):
			l.add(c, false)
			l.add(b, pos)
		case is(b, !pos):
			l.add(c, true)
			l.add(a, pos)
		case a.op == OConst && b.op == OConst:
		default:
			if v, ok := l.lits[c]; ok {
				if v {
					l.add(a, pos)
				} else {
					l.add(b, pos)
				}
				return
			}
			l.open = append(l.open, undone{t: t, pos: pos, on: c})
		}
	case OAnd, OOr:
		switch {
		case !t.isPred():
			l.opaque = append(l.opaque, t)
		case pos == (t.op == OAnd):
			for _, a := range t.args {
				l.add(a, pos)
			}
		default: // one of them
			var left []*Term
			for _, a := range t.args {
				b, want := a, pos
				for b.op == ONot {
					b, want = b.args[0], !want
				}
				if v, ok := l.lits[b]; ok {
					if v == want {
						return
					}
				} else if b.op != OConst {
					left = append(left, a)
				} else if (b.k.sign() != 0) == want {
					return
				}
			}
			switch len(left) {
			case 0:
				l.clash = true
			case 1:
				l.add(left[0], pos)
			default:
				c := left[0]
				for c.op == ONot {
					c = c.args[0]
				}
				l.open = append(l.open, undone{t: t, pos: pos, on: c})
			}
		}
	case OGE0:
	case OApp, OLeaf:
		l.opaque = append(l.opaque, t)
	case OEQ0:
		if a := t.args[0]; pos && a.op == OIte && nonzero(a.args[2]) {
			l.add(a.args[0], true)
			l.add(l.in.T.EQ0(a.args[1]), true)
		} else if pos && a.op == OIte && nonzero(a.args[1]) {
			l.add(a.args[0], false)
			l.add(l.in.T.EQ0(a.args[2]), true)
		} else if pos {
			l.zero = append(l.zero, t.args[0])
		} else if a := t.args[0]; a.op == OIte {
			// x != 0 with one arm zero
			if a.args[1].op == OConst && a.args[1].k.sign() == 0 {
				l.add(a.args[0], false)
				l.add(l.in.T.EQ0(a.args[2]), false)
			} else if a.args[2].op == OConst && a.args[2].k.sign() == 0 {
				l.add(a.args[0], true)
				l.add(l.in.T.EQ0(a.args[1]), false)
			}
		}
	}
}

// nonzero tells whether every value t can take is a constant other than 0.
func nonzero(t *Term) bool {
	switch t.op {
	case OConst:
		return t.k.sign() != 0
	case OIte:
		return nonzero(t.args[1]) && nonzero(t.args[2])
	}
	return t.iv.lo.sign() > 0 || t.iv.hi.sign() < 0
}

// lf is a linear form over bits: sorted atoms, and a constant.
type lf struct {
	a []int64
	k bool
}

func (x lf) xor(y lf) lf {
	r := lf{k: x.k != y.k}
	i, j := 0, 0
	r.a = make([]int64, 0, len(x.a)+len(y.a))
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j == len(y.a) || i < len(x.a) && x.a[i] < y.a[j]:
			r.a = append(r.a, x.a[i])
			i++
		case i == len(x.a) || y.a[j] < x.a[i]:
			r.a = append(r.a, y.a[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

// bitForms turns terms into linear forms of their bits.
type bitForms struct {
	in   *Interp
	memo map[*Term][]lf
	atom func(t *Term, bit int) lf
	ids  map[[2]int]int64
	n    int64
	name [][2]int
}

func newBitForms(in *Interp) *bitForms {
	b := &bitForms{in: in, memo: map[*Term][]lf{}, ids: map[[2]int]int64{}}
	return b
}

func (b *bitForms) atomID(id, bit int) int64 {
	k := [2]int{id, bit}
	n, ok := b.ids[k]
	if !ok {
		n = b.n
		b.n++
		b.ids[k] = n
		b.name = append(b.name, k)
	}
	return n
}

func (b *bitForms) mkAtom(t *Term, bit int) lf {
	if b.atom != nil {
		return b.atom(t, bit)
	}
	return lf{a: []int64{b.atomID(t.id, bit)}}
}

const maxForm = 1 << 12

// bits gives the bits of a nonnegative term, least significant first; nil if
// it is not a number of limited width.
func (b *bitForms) bits(t *Term) []lf {
	if r, ok := b.memo[t]; ok {
		return r
	}
	r := b.bits1(t)
	b.memo[t] = r
	return r
}

func bitAt(r []lf, i int) lf {
	if i < len(r) {
		return r[i]
	}
	return lf{}
}

func (b *bitForms) bits1(t *Term) []lf {
	if t.iv.lo.sign() < 0 {
		return nil
	}
	switch t.op {
	case OConst:
		x := t.k.big()
		if x == nil {
			return nil
		}
		r := make([]lf, x.BitLen())
		for i := range r {
			r[i].k = x.Bit(i) == 1
		}
		return append(r, lf{})
	case OWire:
		var r []lf
		for _, s := range t.segs {
			if s.src == nil {
				for i := 0; i < s.w; i++ {
					r = append(r, lf{k: i < 64 && s.val>>uint(i)&1 == 1})
				}
				continue
			}
			x := b.bits(s.src)
			if x == nil {
				for i := 0; i < s.w; i++ {
					r = append(r, b.mkAtom(s.src, s.from+i))
				}
				continue
			}
			for i := 0; i < s.w; i++ {
				r = append(r, bitAt(x, s.from+i))
			}
		}
		return r
	case OXor:
		return b.xorAll(t.args, t.k)
	case OApp:
		if t.name == "xor" || t.name == "bigxor" || t.name == "xorbig" {
			return b.xorAll(t.args, n0)
		}
	case OTrunc:
		if x := b.bits(t.args[0]); x != nil {
			if len(x) > t.w {
				x = x[:t.w]
			}
			return x
		}
	case OLin:
		if r, ok := b.disjoint(t.args, t.co, t.k, 1, true); ok {
			return r
		}
	}
	w := t.width()
	if t.op == OTrunc {
		w = t.w
	}
	if w < 0 || w > maxForm {
		return nil
	}
	r := make([]lf, w)
	for i := range r {
		r[i] = b.mkAtom(t, i)
	}
	return r
}

func (b *bitForms) xorAll(args []*Term, k N) []lf {
	var r []lf
	kb := k.big()
	if kb != nil && kb.Sign() != 0 {
		r = make([]lf, kb.BitLen())
		for i := range r {
			r[i].k = kb.Bit(i) == 1
		}
	}
	// collect atoms per bit, then cancel
	var cols [][]int64
	var ks []bool
	for i := range r {
		cols = append(cols, nil)
		ks = append(ks, r[i].k)
	}
	for _, a := range args {
		x := b.bits(a)
		if x == nil {
			return nil
		}
		for i, f := range x {
			if i == len(cols) {
				cols = append(cols, nil)
				ks = append(ks, false)
			}
			cols[i] = append(cols[i], f.a...)
			ks[i] = ks[i] != f.k
		}
	}
	r = make([]lf, len(cols))
	for i, c := range cols {
		sort.Slice(c, func(x, y int) bool { return c[x] < c[y] })
		o := c[:0]
		for j := 0; j < len(c); {
			m := j
			for m < len(c) && c[m] == c[j] {
				m++
			}
			if (m-j)%2 == 1 {
				o = append(o, c[j])
			}
			j = m
		}
		r[i] = lf{a: o, k: ks[i]}
	}
	return r
}

// disjoint adds the terms of one sign whose bits do not overlap.
func (b *bitForms) disjoint(args []*Term, co []N, k N, sign int, strict bool) ([]lf, bool) {
	var r []lf
	var used []bool
	put := func(pos int, x []lf) bool {
		for i, f := range x {
			if len(f.a) == 0 && !f.k {
				continue
			}
			for pos+i >= len(r) {
				r = append(r, lf{})
				used = append(used, false)
			}
			if used[pos+i] {
				return false
			}
			used[pos+i] = true
			r[pos+i] = f
		}
		return true
	}
	if k.sign()*sign > 0 {
		x := new(big.Int).Abs(k.big())
		var f []lf
		for i := 0; i < x.BitLen(); i++ {
			f = append(f, lf{k: x.Bit(i) == 1})
		}
		if !put(0, f) {
			return nil, false
		}
	} else if strict && k.sign() != 0 {
		return nil, false
	}
	for i, a := range args {
		if co[i].sign() != sign {
			if strict {
				return nil, false
			}
			continue
		}
		c := new(big.Int).Abs(co[i].big())
		sh := int(c.TrailingZeroBits())
		if c.BitLen() != sh+1 {
			return nil, false
		}
		x := b.bits(a)
		if x == nil || !put(sh, x) {
			return nil, false
		}
	}
	return r, true
}

// zeros gives forms that are zero when the term is; false if only some of them are known.
func (b *bitForms) zeros(t *Term) ([]lf, bool) {
	var out []lf
	keep := func(x []lf) {
		for _, f := range x {
			if len(f.a) > 0 || f.k {
				out = append(out, f)
			}
		}
	}
	switch t.op {
	case OOr:
		all := true
		for _, a := range t.args {
			x, ok := b.zeros(a)
			keep(x)
			all = all && ok
		}
		return out, all
	case OApp:
		if t.name == "or" {
			all := true
			for _, a := range t.args {
				x, ok := b.zeros(a)
				keep(x)
				all = all && ok
			}
			return out, all
		}
	case OLin:
		pos, neg, signed := t.k.sign() > 0, t.k.sign() < 0, false
		for i, a := range t.args {
			if a.iv.lo.sign() < 0 {
				signed = true
			}
			if t.co[i].sign() > 0 {
				pos = true
			} else {
				neg = true
			}
		}
		if signed {
			return nil, false
		}
		if !(pos && neg) { // a sum of nonnegative numbers
			all := true
			for _, a := range t.args {
				x, ok := b.zeros(a)
				keep(x)
				all = all && ok
			}
			return out, all
		}
		x, ok1 := b.disjoint(t.args, t.co, t.k, 1, false)
		y, ok2 := b.disjoint(t.args, t.co, t.k, -1, false)
		if !ok1 || !ok2 {
			return nil, false
		}
		n := len(x)
		if len(y) > n {
			n = len(y)
		}
		for i := 0; i < n; i++ {
			keep([]lf{bitAt(x, i).xor(bitAt(y, i))})
		}
		return out, true
	}
	x := b.bits(t)
	if x == nil {
		return nil, false
	}
	keep(x)
	return out, true
}

// span is a row space over GF(2), kept per connected component of atoms.
type span struct {
	comp  map[int64]int64 // union-find
	forms []lf
	sys   map[int64]*dense
}

type dense struct {
	col  map[int64]int
	rows [][]uint64
	piv  []int
	at   map[int]int // pivot column to row
}

func newSpan(eqs []lf) *span {
	s := &span{comp: map[int64]int64{}, forms: eqs, sys: map[int64]*dense{}}
	for _, f := range eqs {
		for _, a := range f.a {
			s.join(f.a[0], a)
		}
	}
	for _, f := range eqs {
		if len(f.a) == 0 {
			continue
		}
		c := s.find(f.a[0])
		d := s.sys[c]
		if d == nil {
			d = &dense{col: map[int64]int{}, at: map[int]int{}}
			s.sys[c] = d
		}
		for _, a := range f.a {
			if _, ok := d.col[a]; !ok {
				d.col[a] = len(d.col) + 1 // column 0 is the constant
			}
		}
	}
	for _, f := range eqs {
		if len(f.a) > 0 {
			s.sys[s.find(f.a[0])].insert(f)
		}
	}
	return s
}

func (s *span) find(a int64) int64 {
	p, ok := s.comp[a]
	if !ok {
		s.comp[a] = a
		return a
	}
	if p == a {
		return a
	}
	r := s.find(p)
	s.comp[a] = r
	return r
}

func (s *span) join(a, b int64) {
	x, y := s.find(a), s.find(b)
	if x != y {
		s.comp[x] = y
	}
}

func (d *dense) row(f lf) ([]uint64, bool) {
	r := make([]uint64, len(d.col)/64+1)
	if f.k {
		r[0] |= 1
	}
	for _, a := range f.a {
		c, ok := d.col[a]
		if !ok {
			return nil, false
		}
		r[c/64] |= 1 << uint(c%64)
	}
	return r, true
}

func (d *dense) reduce(r []uint64) int {
	for w := len(r) - 1; w >= 0; w-- {
		for r[w] != 0 {
			top := 63
			for r[w]>>uint(top)&1 == 0 {
				top--
			}
			c := w*64 + top
			if c == 0 {
				return 0
			}
			k, ok := d.at[c]
			if !ok {
				return c
			}
			for i, x := range d.rows[k] {
				r[i] ^= x
			}
		}
	}
	return -1
}

func (d *dense) insert(f lf) {
	r, ok := d.row(f)
	if !ok {
		return
	}
	if c := d.reduce(r); c > 0 {
		d.at[c] = len(d.rows)
		d.rows = append(d.rows, r)
	}
}

// has tells whether the form is zero whenever the equations hold.
func (s *span) has(f lf) bool {
	if len(f.a) == 0 {
		return !f.k
	}
	by := map[int64]lf{}
	for _, a := range f.a {
		if _, ok := s.comp[a]; !ok {
			return false
		}
		c := s.find(a)
		x := by[c]
		x.a = append(x.a, a)
		by[c] = x
	}
	k := f.k
	for c, x := range by {
		d := s.sys[c]
		if d == nil {
			return false
		}
		r, ok := d.row(x)
		if !ok {
			return false
		}
		switch d.reduce(r) {
		case -1:
		case 0:
			k = !k
		default:
			return false
		}
	}
	return !k
}

// signatures names bits by their values under many interpretations, so that
// equal functions get equal names however they are written.
type signatures struct {
	in  *Interp
	es  []*interpT
	ids map[string]int64
	by  map[[2]int]lf
	why string
	val map[*Term][]*big.Int
}

func (in *Interp) newSignatures(st *State, n int) *signatures {
	s := &signatures{in: in, ids: map[string]int64{}, by: map[[2]int]lf{}, val: map[*Term][]*big.Int{}}
	for i := 0; i < n; i++ {
		s.es = append(s.es, newInterpT(in, st, uint64(1000+i), 0))
	}
	return s
}

func (s *signatures) vals(t *Term) []*big.Int {
	if v, ok := s.val[t]; ok {
		return v
	}
	var out []*big.Int
	for _, e := range s.es {
		var x *big.Int
		if why := e.try(func() { x = e.eval(t) }); why != "" {
			s.why = why
			out = nil
			break
		}
		out = append(out, x)
	}
	s.val[t] = out
	return out
}

func (s *signatures) atom(t *Term, bit int) lf {
	k := [2]int{t.id, bit}
	if f, ok := s.by[k]; ok {
		return f
	}
	var key []byte
	vs := s.vals(t)
	if vs == nil {
		key = binary.AppendVarint(binary.AppendVarint([]byte{1}, int64(t.id)), int64(bit))
	} else {
		key = make([]byte, len(vs)/8+2)
		zero := true
		for i, v := range vs {
			if v.Bit(bit) == 1 {
				key[1+i/8] |= 1 << uint(i%8)
				zero = false
			}
		}
		if zero {
			s.by[k] = lf{}
			return lf{}
		}
	}
	id, ok := s.ids[string(key)]
	if !ok {
		id = int64(len(s.ids))
		s.ids[string(key)] = id
	}
	f := lf{a: []int64{id}}
	s.by[k] = f
	return f
}
