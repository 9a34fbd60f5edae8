package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// pn is a path name, rendered only when a symbol must be made.
type pn struct {
	up *pn
	k  string
	i  int
}

func (p *pn) String() string {
	if p == nil {
		return ""
	}
	return p.up.String() + p.k + fmt.Sprint(p.i)
}

type jref struct {
	t  *Term
	iv Iv
}

type jpair struct{ a, b, j *Term }

// joiner merges two states. With lp set it is the merge at a loop header, where
// a is the entry state and b the state at the end of the body.
type joiner struct {
	cheap bool
	in    *Interp
	a, b  *State
	site  string
	pairs map[[2]*Term]*Term
	list  []jpair
	taint *Dep
	lp    *loopJoin
	tr    bool   // some value was tainted
	sel   *gnode // condition of the first state
	later []jref // ranges of merged values
}

// lcell is a loop-carried integer cell.
type lcell struct {
	cand  bool // t0 + c*K
	c     N
	t0    *Term
	h     *Term // value at the header
	fail  bool  // the induction hypothesis failed
	r     Iv
	seen  bool
	moves bool
}

type loopJoin struct {
	cells  map[string]*lcell
	k      *Term // iteration counter
	pass   int
	narrow bool
	prev   *State // previous header state
	born   func(*Term) bool
}

func (j *joiner) term(a, b *Term, p *pn) *Term {
	T := j.in.T
	if a == nil || b == nil {
		if a == b {
			return a
		}
		return T.Leaf(j.site+p.String()+"?", ivTop, j.taint)
	}
	if j.lp != nil {
		return j.loopTerm(a, b, p)
	}
	if a == b {
		return a
	}
	key := [2]*Term{a, b}
	if t, ok := j.pairs[key]; ok {
		return t
	}
	ra, rb := T.rng(j.a, a), T.rng(j.b, b)
	var t *Term
	if ra.isConst() && ra == rb {
		t = T.Const(ra.lo)
	}
	if t == nil && !j.cheap && len(j.taint.bits) == 0 && (ra.lo.finite() || ra.hi.finite()) && a.op != OWire && b.op != OWire {
		// the same value under this branch's facts?
		if !a.isConst() {
			if e := T.EQ(a, b); !e.isConst() {
				if v, ok := T.decideD(j.b, e, 3); ok && v {
					t = a
				}
			}
		}
		if t == nil && !b.isConst() {
			if e := T.EQ(a, b); !e.isConst() {
				if v, ok := T.decideD(j.a, e, 3); ok && v {
					t = b
				}
			}
		}
	}
	if t == nil && j.sel != nil {
		t = T.choose(j.sel, a, b, map[*gnode]*Term{})
		j.later = append(j.later, jref{t, ra.hull(rb)})
		j.list = append(j.list, jpair{a, b, t})
	}
	if t == nil {
		d := T.deps.or(T.deps.or(a.dep, b.dep), j.taint)
		t = T.Leaf(j.site+p.String(), ra.hull(rb), d)
		j.list = append(j.list, jpair{a, b, t})
	}
	j.pairs[key] = t
	return t
}

var widenHi = []N{ni(0), ni(1), ni(255), ni(65535), ni(1<<31 - 1), ni(1<<32 - 1), ni(1<<63 - 1), nu(1<<64 - 1)}
var widenLo = []N{ni(1), ni(0), ni(-1), ni(-1 << 31), ni(-1 << 63)}

func widen(old, n Iv) Iv {
	r := n
	if n.hi.le(old.hi) {
		r.hi = old.hi
	} else {
		r.hi = nInf
		for _, h := range widenHi {
			if n.hi.le(h) {
				r.hi = h
				break
			}
		}
	}
	if old.lo.le(n.lo) {
		r.lo = old.lo
	} else {
		r.lo = nNegInf
		for _, l := range widenLo {
			if l.le(n.lo) {
				r.lo = l
				break
			}
		}
	}
	return r
}

func (j *joiner) loopTerm(a, b *Term, p *pn) *Term {
	T := j.in.T
	lp := j.lp
	name := p.String()
	c := lp.cells[name]
	if c == nil {
		if a == b {
			return a
		}
		if v, ok := T.rng(j.b, b), true; ok && v.isConst() && a.op == OConst && a.k == v.lo {
			return a
		}
		c = &lcell{h: a, t0: a}
		lp.cells[name] = c
		d := T.Sub(b, a)
		if d.op == OConst && d.k.sign() != 0 && d.k.finite() && a.iv.lo.finite() && a.iv.hi.finite() {
			c.cand = true
			c.c = d.k
		}
	} else if c.cand && !c.fail {
		d := T.Sub(b, c.h)
		if !(d.op == OConst && d.k == c.c) || c.t0 != a {
			c.fail = true
		}
	}
	if c.cand && !c.fail {
		c.h = T.Add(a, T.Scale(lp.k, c.c))
		return c.h
	}
	ra, rb := T.rng(j.a, a), T.rng(j.b, b)
	n := ra.hull(rb)
	if c.seen && !lp.narrow {
		if n.within(c.r) {
			n = c.r
		} else if lp.pass <= 3 {
			n = n.hull(c.r)
		} else {
			n = widen(c.r, n)
		}
	}
	c.seen = true
	c.r = n
	d := T.deps.or(T.deps.or(a.dep, b.dep), j.taint)
	if c.h != nil && c.h.op == OLeaf { // dependencies accumulate
		d = T.deps.or(d, c.h.dep)
	}
	c.h = T.Leaf(j.site+name, n, d)
	if n.isConst() && len(d.bits) > 0 {
		c.h = T.Const(n.lo)
	}
	j.list = append(j.list, jpair{a, b, c.h})
	return c.h
}

func nilTerm(T *Terms, null int8, nt *Term) *Term {
	switch null {
	case nilNo:
		return T.zero
	case nilYes:
		return T.one
	}
	return nt
}

func (j *joiner) null(an int8, ant *Term, bn int8, bnt *Term, p *pn) (int8, *Term) {
	T := j.in.T
	x, y := nilTerm(T, an, ant), nilTerm(T, bn, bnt)
	if x == nil {
		x = T.Leaf(j.site+p.String()+".nilA", Iv{n0, n1}, nil)
	}
	if y == nil {
		y = T.Leaf(j.site+p.String()+".nilB", Iv{n0, n1}, nil)
	}
	if v, ok := T.decideD(j.a, x, 2); ok {
		x = T.Bool(v)
	}
	if v, ok := T.decideD(j.b, y, 2); ok {
		y = T.Bool(v)
	}
	t := x
	if x != y {
		if j.lp != nil {
			t = T.Leaf(j.site+p.String()+".nil", Iv{n0, n1}, j.taint)
		} else {
			t = j.term(x, y, &pn{p, ".nil", 0})
		}
	}
	switch {
	case t.isTrue():
		return nilYes, nil
	case t.isFalse():
		return nilNo, nil
	}
	return nilMaybe, t
}

func pathShape(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].f != b[i].f || a[i].esz != b[i].esz {
			return false
		}
	}
	return true
}

// sels gives the conditions of merged alternatives; sa and sb are those of the
// two sides (nil for unknown), m maps the alternatives of the second side to
// merged ones, n is their number.
func (j *joiner) sels(sa, sb []*Term, m []int, n int) []*Term {
	if j.sel == nil || j.lp != nil || n < 2 {
		return nil
	}
	T := j.in.T
	one := func(s []*Term) bool {
		if len(s) == 1 {
			s[0] = T.one
		}
		for _, x := range s {
			if x == nil {
				return false
			}
		}
		return true
	}
	if !one(sa) || !one(sb) {
		return nil
	}
	xa, xb := make([]*Term, n), make([]*Term, n)
	for i := range xa {
		xa[i], xb[i] = T.zero, T.zero
	}
	copy(xa, sa)
	for k, i := range m {
		if xb[i] != T.zero {
			return nil
		}
		xb[i] = sb[k]
	}
	memo := map[*gnode]*Term{}
	for i := range xa {
		if xa[i] != xb[i] {
			xa[i] = T.choose(j.sel, xa[i], xb[i], memo)
			memo = map[*gnode]*Term{}
		}
	}
	return xa
}

func (j *joiner) locs(as, bs []Loc, p *pn) []Loc {
	r, _ := j.locsM(as, bs, p)
	return r
}

func (j *joiner) locsM(as, bs []Loc, p *pn) ([]Loc, []int) {
	out := append([]Loc(nil), as...)
	m := make([]int, len(bs))
next:
	for bi, y := range bs {
		for i, x := range out {
			if x.eq(y) {
				m[bi] = i
				continue next
			}
			if x.obj == y.obj && pathShape(x.path, y.path) && i < len(as) {
				np := append([]PE(nil), x.path...)
				for k := range np {
					if np[k].idx != y.path[k].idx {
						np[k].idx = j.term(np[k].idx, y.path[k].idx, &pn{p, fmt.Sprintf(".o%d.i", x.obj), k})
					}
				}
				out[i] = Loc{x.obj, np}
				m[bi] = i
				continue next
			}
		}
		m[bi] = len(out)
		out = append(out, y)
	}
	return out, m
}

func altSels(as []SAlt) []*Term {
	r := make([]*Term, len(as))
	for i, a := range as {
		r[i] = a.sel
	}
	return r
}

func (j *joiner) val(a, b Val, t types.Type, p *pn) Val {
	in := j.in
	T := in.T
	if j.lp == nil && sameVal(a, b) {
		return a
	}
	if a == nil || b == nil {
		if a == nil && b == nil {
			return nil
		}
		if t != nil && j.lp == nil {
			return in.havoc(t, j.site+p.String(), j.taint)
		}
		return nil
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return j.term(x, y, p)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if sameVal(a, b) {
				return a
			}
			r := &PtrV{top: x.top || y.top}
			r.null, r.nt = j.null(x.null, x.nt, y.null, y.nt, p)
			var m []int
			r.alts, m = j.locsM(x.alts, y.alts, p)
			if len(r.alts) > 1 && j.sel != nil && j.lp == nil {
				sa, sb := make([]*Term, len(x.alts)), make([]*Term, len(y.alts))
				copy(sa, x.sel)
				copy(sb, y.sel)
				r.sel = j.sels(sa, sb, m, len(r.alts))
			}
			if x.mem == y.mem && x.memv == y.memv {
				r.mem, r.memv = x.mem, x.memv
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if sameVal(a, b) && j.lp == nil {
				return a
			}
			r := &SliceV{top: x.top || y.top}
			r.null, r.nt = j.null(x.null, x.nt, y.null, y.nt, p)
			r.len = j.term(x.len, y.len, &pn{p, ".len", 0})
			r.cap = j.term(x.cap, y.cap, &pn{p, ".cap", 0})
			r.alts = append(r.alts, x.alts...)
			m := make([]int, len(y.alts))
		next:
			for bi, s := range y.alts {
				for i, q := range r.alts {
					if q.loc.eq(s.loc) && q.esz == s.esz {
						m[bi] = i
						r.alts[i].off = j.term(q.off, s.off, &pn{p, fmt.Sprintf(".o%d.off", q.loc.obj), 0})
						continue next
					}
					if q.loc.obj == s.loc.obj && q.esz == s.esz && pathShape(q.loc.path, s.loc.path) {
						l := j.locs([]Loc{q.loc}, []Loc{s.loc}, p)
						m[bi] = i
						r.alts[i].loc = l[0]
						r.alts[i].off = j.term(q.off, s.off, &pn{p, fmt.Sprintf(".o%d.off", q.loc.obj), 0})
						continue next
					}
				}
				m[bi] = len(r.alts)
				r.alts = append(r.alts, s)
			}
			var sel []*Term
			if len(r.alts) > 1 && j.sel != nil && j.lp == nil {
				sel = j.sels(altSels(x.alts), altSels(y.alts), m, len(r.alts))
			}
			for i := range r.alts {
				r.alts[i].sel = nil
				if sel != nil {
					r.alts[i].sel = sel[i]
				}
			}
			if sameVal(a, r) {
				return a
			}
			return r
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			if sameVal(a, b) {
				return a
			}
			d := T.deps.or(T.deps.or(x.dep, y.dep), j.taint)
			if len(x.parts) == len(y.parts) {
				same := true
				for i := range x.parts {
					if x.parts[i].lit != y.parts[i].lit || x.parts[i].how != y.parts[i].how || (x.parts[i].t == nil) != (y.parts[i].t == nil) {
						same = false
					}
				}
				if same {
					r := &StrV{dep: d}
					for i := range x.parts {
						q := x.parts[i]
						if q.t != nil && q.t != y.parts[i].t {
							q.t = j.term(q.t, y.parts[i].t, &pn{p, ".s", i})
						}
						r.parts = append(r.parts, q)
					}
					return r
				}
			}
			return &StrV{parts: []StrPart{{t: T.Leaf(j.site+p.String(), ivTop, d), how: "str"}}, dep: d}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if sameVal(a, b) {
				return a
			}
			nl, nt := j.null(x.null, x.nt, y.null, y.nt, p)
			if x.null == nilYes {
				c := *y
				c.null, c.nt = nl, nt
				return &c
			}
			if y.null == nilYes {
				c := *x
				c.null, c.nt = nl, nt
				return &c
			}
			if x.fn == y.fn && x.bi == y.bi && len(x.binds) == len(y.binds) && len(x.alts) == 0 && len(y.alts) == 0 {
				r := &FuncV{null: nl, nt: nt, fn: x.fn, bi: x.bi, top: x.top || y.top}
				for i := range x.binds {
					r.binds = append(r.binds, j.val(x.binds[i], y.binds[i], nil, &pn{p, ".b", i}))
				}
				if x.recv != nil || y.recv != nil {
					r.recv = j.val(x.recv, y.recv, nil, &pn{p, ".rc", 0})
				}
				return r
			}
			r := &FuncV{null: nl, nt: nt, top: x.top || y.top}
			add := func(f *FuncV) {
				if f.fn != nil || f.bi != nil {
					c := *f
					c.null, c.nt, c.alts = nilNo, nil, nil
					for _, o := range r.alts {
						if sameVal(o, &c) {
							return
						}
					}
					r.alts = append(r.alts, &c)
				}
				for _, q := range f.alts {
					dup := false
					for _, o := range r.alts {
						if sameVal(o, q) {
							dup = true
						}
					}
					if !dup {
						r.alts = append(r.alts, q)
					}
				}
			}
			add(x)
			add(y)
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if sameVal(a, b) {
				return a
			}
			r := &IfaceV{}
			r.null, r.nt = j.null(x.null, x.nt, y.null, y.nt, p)
			if x.tag == y.tag {
				r.tag = x.tag
			}
			switch {
			case x.null == nilYes:
				r.typ, r.v, r.tag = y.typ, y.v, y.tag
			case y.null == nilYes:
				r.typ, r.v, r.tag = x.typ, x.v, x.tag
			case x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ):
				r.typ = x.typ
				r.v = j.val(x.v, y.v, x.typ, &pn{p, ".v", 0})
			}
			return r
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			if sameVal(a, b) {
				return a
			}
			nl, nt := j.null(x.null, x.nt, y.null, y.nt, p)
			o := x.obj
			if o == 0 {
				o = y.obj
			}
			if x.obj != 0 && y.obj != 0 && x.obj != y.obj {
				in.unsupported("maps merged")
			}
			return &MapV{null: nl, nt: nt, obj: o}
		}
	case *StructC:
		if y, ok := b.(*StructC); ok && len(x.f) == len(y.f) {
			if sameVal(a, b) && j.lp == nil {
				return a
			}
			r := &StructC{f: make([]Val, len(x.f))}
			st, _ := under(t).(*types.Struct)
			ch := false
			for i := range x.f {
				var ft types.Type
				if st != nil && i < st.NumFields() {
					ft = st.Field(i).Type()
				}
				r.f[i] = j.val(x.f[i], y.f[i], ft, &pn{p, ".f", i})
				if r.f[i] != x.f[i] {
					ch = true
				}
			}
			if !ch {
				return a
			}
			return r
		}
	case *ArrC:
		if y, ok := b.(*ArrC); ok {
			if x == y && j.lp == nil {
				return a
			}
			if x.n != y.n {
				return &ArrC{n: j.term(x.n, y.n, &pn{p, ".n", 0}), sum: j.val(in.arrSum(x), in.arrSum(y), x.et, &pn{p, ".*", 0}), ver: j.tag(in.arrVer(x), in.arrVer(y), &pn{p, ".ver", 0}), et: x.et}
			}
			if x.sum != nil || y.sum != nil {
				s := j.val(in.arrSum(x), in.arrSum(y), x.et, &pn{p, ".*", 0})
				ver := j.tag(in.arrVer(x), in.arrVer(y), &pn{p, ".ver", 0})
				if x.sum != nil && sameVal(s, x.sum) && x.elems == nil && ver == in.arrVer(x) {
					return a
				}
				return &ArrC{n: x.n, sum: s, ver: ver, et: x.et}
			}
			if x.elems == y.elems && sameVal(x.def, y.def) {
				return a
			}
			r := &ArrC{n: x.n, et: x.et, def: x.def}
			ch := false
			if !sameVal(x.def, y.def) || (j.lp != nil && x.def != nil) {
				r.def = j.val(x.def, y.def, x.et, &pn{p, ".d", 0})
				if !sameVal(r.def, x.def) {
					ch = true
				}
			}
			r.elems = merge(x.elems, y.elems, func(k uint64, av Val, aok bool, bv Val, bok bool) (Val, bool) {
				if !aok {
					av = x.def
				}
				if !bok {
					bv = y.def
				}
				v := j.val(av, bv, x.et, &pn{p, ".", int(k)})
				if !aok || v != av {
					ch = true
				}
				return v, true
			})
			if !ch {
				return a
			}
			return r
		}
	case *BlobC:
		if y, ok := b.(*BlobC); ok {
			if *x == *y && j.lp == nil {
				return a
			}
			r := *x
			r.size = j.term(x.size, y.size, &pn{p, ".sz", 0})
			r.tag = j.tag(x.tag, y.tag, &pn{p, ".tag", 0})
			r.dep = T.deps.or(T.deps.or(x.dep, y.dep), T.deps.empty)
			if x.mapped != y.mapped || x.file != y.file || x.rw != y.rw {
				if y.mapped > r.mapped {
					r.mapped = y.mapped
				}
				r.rw = x.rw && y.rw
			}
			if r == *x {
				return a
			}
			return &r
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			if sameVal(a, b) && j.lp == nil {
				return a
			}
			r := &MapC{open: x.open || y.open, kt: x.kt, vt: x.vt, lab: x.lab}
			r.len = j.term(x.len, y.len, &pn{p, ".len", 0})
			r.ver = x.ver
			if y.ver > r.ver {
				r.ver = y.ver
			}
			if x.ver != y.ver {
				r.ver++
			}
			same := len(x.ents) == len(y.ents)
			if same {
				for i := range x.ents {
					if !sameVal(x.ents[i].k, y.ents[i].k) {
						same = false
					}
				}
			}
			if same {
				for i := range x.ents {
					r.ents = append(r.ents, MapEnt{x.ents[i].k, j.val(x.ents[i].v, y.ents[i].v, x.vt, &pn{p, ".m", i})})
				}
			} else {
				r.open = true
				// entries present in both stay known
				for _, e := range x.ents {
					for _, f := range y.ents {
						if sameVal(e.k, f.k) && sameVal(e.v, f.v) {
							r.ents = append(r.ents, e)
						}
					}
				}
			}
			return r
		}
	case *NatC:
		if y, ok := b.(*NatC); ok && x.kind == y.kind {
			if sameVal(a, b) {
				return a
			}
			r := *x
			r.dep = T.deps.or(x.dep, y.dep)
			r.t = j.term(x.t, y.t, &pn{p, ".t", 0})
			if len(x.b) == len(y.b) {
				r.b = make([]Val, len(x.b))
				for i := range x.b {
					r.b[i] = j.val(x.b[i], y.b[i], nil, &pn{p, ".c", i})
				}
			} else {
				d := r.dep
				for _, l := range [][]Val{x.b, y.b} {
					for _, e := range l {
						d = T.deps.or(d, in.valDep(e))
					}
				}
				r.b = []Val{T.Leaf(j.site+p.String(), ivTop, d)}
			}
			if x.s != nil || y.s != nil {
				if x.s != nil && y.s != nil {
					r.s = j.val(x.s, y.s, nil, &pn{p, ".s", 0}).(*StrV)
				} else {
					r.s = nil
				}
			}
			return &r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.vs) == len(y.vs) {
			r := &TupleV{}
			for i := range x.vs {
				r.vs = append(r.vs, j.val(x.vs[i], y.vs[i], nil, &pn{p, ".t", i}))
			}
			return r
		}
	case *DataPtr:
		if y, ok := b.(*DataPtr); ok {
			if sameVal(x, y) {
				return x
			}
			return &DataPtr{j.val(x.s, y.s, nil, &pn{p, ".dp", 0}).(*SliceV)}
		}
	case *IterV:
		if y, ok := b.(*IterV); ok && x.mapObj == y.mapObj {
			if y.started {
				return b
			}
			return a
		}
	case *ChanV:
		return a
	}
	if sameVal(a, b) {
		return a
	}
	if t != nil {
		return in.havoc(t, j.site+p.String(), j.taint)
	}
	in.unsupported(fmt.Sprintf("merge of %T and %T", a, b))
	return nil
}

func (j *joiner) tag(a, b *Term, p *pn) *Term {
	if a == b && j.lp == nil {
		return a
	}
	T := j.in.T
	if a == nil {
		a = T.zero
	}
	if b == nil {
		b = T.zero
	}
	if a == b {
		if j.lp == nil || j.lp.cells[p.String()] == nil {
			return a
		}
	}
	if j.lp != nil {
		c := j.lp.cells[p.String()]
		if c == nil {
			c = &lcell{fail: true}
			j.lp.cells[p.String()] = c
		}
		d := T.deps.or(T.deps.or(a.dep, b.dep), j.taint)
		if c.h != nil {
			d = T.deps.or(d, c.h.dep)
		}
		c.h = T.Leaf(j.site+p.String(), ivTop, d)
		return c.h
	}
	key := [2]*Term{a, b}
	if t, ok := j.pairs[key]; ok {
		return t
	}
	var t *Term
	if j.sel != nil {
		t = T.choose(j.sel, a, b, map[*gnode]*Term{})
	} else {
		t = T.Leaf(j.site+p.String(), ivTop, T.deps.or(T.deps.or(a.dep, b.dep), j.taint))
	}
	j.pairs[key] = t
	return t
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// join merges b into a at a control-flow merge.
func (in *Interp) join(a, b *State, site string, regTypes []types.Type) *State {
	T := in.T
	j := &joiner{in: in, a: a, b: b, site: site, pairs: map[[2]*Term]*Term{}, taint: T.deps.empty}
	if a.pc != b.pc {
		j.taint = T.deps.or(a.pc, b.pc)
	}
	out := &State{regs: make([]Val, len(a.regs)), up: a.up, defers: a.defers}
	out.pc = in.depMeet(a.pc, b.pc)
	j.sel = in.selector(a, b)
	out.g = in.joinGuard(a, b)
	j.joinInto(out, regTypes)
	j.refs(out)
	for _, r := range j.later {
		T.setRef(out, r.t, r.iv)
	}
	return out
}

func (j *joiner) joinInto(out *State, regTypes []types.Type) {
	a, b := j.a, j.b
	in := j.in
	for i := range a.regs {
		x, y := a.regs[i], b.regs[i]
		if x == nil || y == nil {
			continue
		}
		out.regs[i] = j.val(x, y, regTypes[i], &pn{nil, "r", i})
	}
	out.mem = merge(a.mem, b.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) (*Obj, bool) {
		if !xok {
			return y, true
		}
		if !yok {
			return x, true
		}
		if x == y && j.lp == nil {
			return x, true
		}
		c := j.val(x.c, y.c, x.typ, &pn{nil, "o", int(k)})
		if c == x.c && x.weak == y.weak && x.shared == y.shared && x.input == y.input && x.fin == y.fin {
			return x, true
		}
		n := *x
		n.c = c
		n.weak = x.weak || y.weak
		n.shared = x.shared || y.shared
		n.input = x.input || y.input
		if n.fin == nil {
			n.fin = y.fin
		}
		return &n, true
	})
	out.ts = merge(a.ts, b.ts, func(k uint64, x int8, xok bool, y int8, yok bool) (int8, bool) {
		if !xok {
			return y, true
		}
		if !yok || x == y {
			return x, true
		}
		in.tsConflict(int(k), x, y)
		if x < y { // keep the more demanding (lower) state
			return x, true
		}
		return y, true
	})
	out.pend = merge(a.pend, b.pend, func(k uint64, x int32, xok bool, y int32, yok bool) (int32, bool) {
		if xok {
			return x, true
		}
		return y, true
	})
}

func (in *Interp) depMeet(a, b *Dep) *Dep {
	if a == b {
		return a
	}
	var out []int32
	for _, x := range a.bits {
		if b.has(x) {
			out = append(out, x)
		}
	}
	return in.T.deps.intern(out)
}

// refs merges what is known about terms and derives facts about new symbols.
func (j *joiner) refs(out *State) {
	T := j.in.T
	a, b := j.a, j.b
	only := 0
	diff(a.ref, b.ref, func(k uint64, x Iv, xok bool, y Iv, yok bool) {
		if xok != yok {
			only++
		}
	})
	one := func(s *State, k uint64, v Iv) (Iv, bool) {
		t := T.byID[k]
		var r Iv
		if only > 24 || j.in.coarse {
			// many facts known on one side only: those that are not plain ranges are dropped
			if t.isPred() || j.in.coarse {
				return v, false
			}
			r = T.rngD(s, t, 2)
			h := v.hull(r)
			return h, h != t.iv
		}
		if t.isPred() && (t.op == OGE0 || t.op == OEQ0) {
			if x, ok := T.decideD(s, t, 3); ok && v.isConst() && x == (v.lo.sign() != 0) {
				return v, true
			}
			return v, false
		}
		r = T.rngD(s, t, 4)
		if t.op == OLin {
			if v.lo.finite() && r.lo.lt(v.lo) && T.prove(s, T.AddK(t, v.lo.neg()), 3, map[*Term]bool{}) {
				r.lo = v.lo
			}
			if v.hi.finite() && v.hi.lt(r.hi) && T.prove(s, T.Sub(T.Const(v.hi), t), 3, map[*Term]bool{}) {
				r.hi = v.hi
			}
		}
		h := v.hull(r)
		return h, h != t.iv
	}
	out.ref = merge(a.ref, b.ref, func(k uint64, x Iv, xok bool, y Iv, yok bool) (Iv, bool) {
		switch {
		case xok && yok:
			h := x.hull(y)
			return h, h != T.byID[k].iv
		case xok:
			return one(b, k, x)
		default:
			return one(a, k, y)
		}
	})
	out.rel = merge(a.rel, b.rel, func(k uint64, x []*Term, xok bool, y []*Term, yok bool) ([]*Term, bool) {
		if !xok {
			return y, true
		}
		if !yok {
			return x, true
		}
		if j.in.coarse { // facts of one side are dropped
			if len(y) < len(x) {
				return y, true
			}
			return x, true
		}
		r := x
		for _, t := range y {
			dup := false
			for _, u := range x {
				if u == t {
					dup = true
					break
				}
			}
			if !dup {
				r = append(r[:len(r):len(r)], t)
			}
		}
		return r, true
	})
	// drop shapes without facts
	if j.lp != nil {
		out.rel = mapTree(out.rel, func(k uint64, v []*Term) ([]*Term, bool) {
			var r []*Term
			for _, t := range v {
				if _, ok := out.ref.Get(uint64(t.id)); ok {
					r = append(r, t)
				}
			}
			return r, len(r) > 0
		})
	}
	j.transfer(out)
}

// transfer derives linear facts about the joined symbols.
func (j *joiner) transfer(out *State) {
	T := j.in.T
	list := j.list
	if j.lp != nil {
		list = append([]jpair{{T.zero, T.AddK(j.lp.k, n1), j.lp.k}}, list...)
	}
	if len(list) == 0 || len(list) > 400 {
		return
	}
	type inst struct {
		x, y, z *Term // source, other, joined
	}
	for side := 0; side < 2; side++ {
		S, O := j.a, j.b
		if side == 1 {
			S, O = j.b, j.a
		}
		byAtom := map[*Term][]inst{}
		for _, p := range list {
			x, y := p.a, p.b
			if side == 1 {
				x, y = y, x
			}
			args, co, _ := linParts(x)
			if len(args) == 1 && co[0].abs() == n1 {
				byAtom[args[0]] = append(byAtom[args[0]], inst{x, y, p.j})
			}
		}
		atoms := make([]*Term, 0, len(byAtom))
		for a := range byAtom {
			atoms = append(atoms, a)
		}
		sort.Slice(atoms, func(i, k int) bool { return atoms[i].id < atoms[k].id })
		done := map[*Term]bool{}
		for _, at := range atoms {
			shapes, _ := S.rel.Get(uint64(at.id))
			for _, sh := range shapes {
				r, ok := S.ref.Get(uint64(sh.id))
				if !ok || (r.lo.isInf() && r.hi.isInf()) {
					continue
				}
				if len(sh.args) > 5 {
					continue
				}
				// replace every paired atom
				for vi, in := range byAtom[at] {
					if vi > 3 {
						break
					}
					z, y := T.Const(n0), T.Const(n0)
					ok := true
					for i, a := range sh.args {
						ins := byAtom[a]
						if a == at {
							ins = []inst{in}
						}
						if len(ins) == 0 {
							if j.lp != nil && side == 1 && j.lp.born(a) {
								ok = false
								break
							}
							z = T.Add(z, T.Scale(a, sh.co[i]))
							y = T.Add(y, T.Scale(a, sh.co[i]))
							continue
						}
						q := ins[0]
						_, co, k := linParts(q.x)
						// a = (x-k)*co  (co = +-1)
						c := sh.co[i].mul(co[0])
						z = T.Add(z, T.Scale(T.AddK(q.z, k.neg()), c))
						y = T.Add(y, T.Scale(T.AddK(q.y, k.neg()), c))
					}
					if !ok || done[z] || z.op != OLin {
						continue
					}
					done[z] = true
					nr := ivTop
					ry := T.rngD(O, y, 4)
					if r.lo.finite() {
						if r.lo.le(ry.lo) || T.prove(O, T.AddK(y, r.lo.neg()), 4, map[*Term]bool{}) {
							nr.lo = r.lo
						} else if ry.lo.finite() {
							nr.lo = nmin(ry.lo, r.lo)
						}
					}
					if r.hi.finite() {
						if ry.hi.le(r.hi) || T.prove(O, T.Sub(T.Const(r.hi), y), 4, map[*Term]bool{}) {
							nr.hi = r.hi
						} else if ry.hi.finite() {
							nr.hi = nmax(ry.hi, r.hi)
						}
					}
					if nr.lo.isInf() && nr.hi.isInf() {
						continue
					}
					T.refine(out, z, nr, 1)
				}
			}
		}
	}
}

func (in *Interp) arrSum(a *ArrC) Val {
	if a.sum != nil {
		return a.sum
	}
	if s, ok := in.sumCache[a]; ok {
		return s
	}
	var r Val = a.def
	n, isC := a.n.constVal()
	if isC && n.isU64() && uint64(a.elems.Len()) == n.u64() && n.sign() > 0 {
		r = nil
	}
	var d *Dep = in.T.deps.empty
	var iv Iv
	allTerms := true
	first := true
	if t, ok := r.(*Term); ok {
		iv, first = t.iv, false
		d = t.dep
	} else if r != nil {
		allTerms = false
	}
	if allTerms {
		var one *Term
		same := true
		if r != nil {
			one = r.(*Term)
		}
		a.elems.Each(func(_ uint64, v Val) bool {
			t, ok := v.(*Term)
			if !ok {
				allTerms = false
				return false
			}
			if one == nil {
				one = t
			} else if one != t {
				same = false
			}
			if first {
				iv, first = t.iv, false
			} else {
				iv = iv.hull(t.iv)
			}
			d = in.T.deps.or(d, t.dep)
			return true
		})
		if allTerms && !first {
			var res Val
			if same && one.isConst() {
				res = one
			} else {
				res = in.T.Leaf("Σ", iv, d)
			}
			in.sumCache[a] = res
			return res
		}
	}
	s0 := &State{pc: in.T.deps.empty}
	a.elems.Each(func(k uint64, v Val) bool {
		if r == nil {
			r = v
			return true
		}
		j := &joiner{in: in, a: s0, b: s0, cheap: true, site: "Σ", pairs: map[[2]*Term]*Term{}, taint: in.T.deps.empty}
		r = j.val(r, v, a.et, &pn{nil, "e", 0})
		return true
	})
	in.sumCache[a] = r
	return r
}

func depString(T *Terms, d *Dep) string { return strings.Join(T.deps.names(d), ",") }
