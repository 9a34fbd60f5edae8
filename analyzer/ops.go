package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// norm reduces a mathematical value to a machine type.
func (in *Interp) norm(st *State, t *Term, w int, signed bool) *Term {
	T := in.T
	if t.op == OConst {
		if signed {
			return T.Sext(t, w)
		}
		return T.Trunc(t, w)
	}
	iv := typeIv(w, signed)
	if t.iv.within(iv) {
		return t
	}
	r := T.rng(st, t)
	if r.within(iv) {
		return t
	}
	if t.op == OLin && len(t.args) <= 5 || t.op == OMul {
		okLo := iv.lo.le(r.lo) || T.proveGE0(st, T.Sub(t, T.Const(iv.lo)))
		if okLo && (r.hi.le(iv.hi) || T.proveGE0(st, T.Sub(T.Const(iv.hi), t))) {
			return t
		}
	}
	var u *Term
	if signed {
		u = T.Sext(t, w)
	} else {
		u = T.Trunc(t, w)
	}
	in.wrapFacts(st, t, u, r, w, signed)
	return u
}

// wrapFacts relates a wrapped value to its unwrapped one.
func (in *Interp) wrapFacts(st *State, t, u *Term, r Iv, w int, signed bool) {
}

func (in *Interp) shift(st *State, op token.Token, x, n *Term, w int, signed bool) *Term {
	T := in.T
	rn := T.rng(st, n)
	if k, ok := n.constVal(); ok {
		c := 200
		if k.lt(ni(200)) {
			c = int(k.i64())
		}
		if op == token.SHL {
			if c >= w {
				return T.zero
			}
			if !signed || T.rng(st, x).lo.sign() >= 0 {
				if x.iv.lo.sign() >= 0 {
					return in.norm(st, T.ShlC(x, c), w, signed)
				}
			}
			return in.norm(st, T.Scale(x, pow2(c)), w, signed)
		}
		if c >= w {
			c = w
			if !signed {
				return T.zero
			}
			c = w - 1
		}
		if x.iv.lo.sign() >= 0 {
			return T.ShrC(x, c)
		}
		return T.Div(x, T.Const(pow2(c)), false)
	}
	rx := T.rng(st, x)
	var iv Iv
	if op == token.SHL {
		iv = typeIv(w, signed)
		if rx.lo.sign() >= 0 && rn.hi.lt(ni(100)) {
			s := Iv{rx.lo.mul(pow2(int(rn.lo.i64()))), rx.hi.mul(pow2(int(rn.hi.i64())))}
			if s.within(iv) {
				iv = s
				t := T.App("shl", typeIv(120, false), x, n)
				T.setRef(st, t, iv)
				return t
			}
		}
		return T.App(fmt.Sprintf("shl%d", w), typeIv(w, signed), x, n)
	}
	if rx.lo.sign() >= 0 {
		hi := rx.hi
		if rn.lo.sign() > 0 && rn.lo.lt(ni(100)) {
			hi = hi.floorDiv(pow2(int(rn.lo.i64())))
		} else if rn.lo.sign() > 0 {
			hi = n0
		}
		t := T.App("shr", Iv{n0, nmax(x.iv.hi, n0)}, x, n)
		if x.iv.lo.sign() < 0 {
			t = T.App("shr", typeIv(w, signed), x, n)
		}
		T.setRef(st, t, Iv{n0, hi})
		return t
	}
	return T.App(fmt.Sprintf("sar%d", w), typeIv(w, signed), x, n)
}

func (in *Interp) binop(st *State, op token.Token, xv, yv Val, xt, yt types.Type) (Val, bool) {
	T := in.T
	// comparisons
	switch op {
	case token.EQL, token.NEQ:
		p := in.equal(st, xv, yv, xt)
		if op == token.NEQ {
			p = T.Not(p)
		}
		return p, true
	}
	x, okx := xv.(*Term)
	y, oky := yv.(*Term)
	if !okx || !oky {
		if a, ok := xv.(*StrV); ok {
			b := yv.(*StrV)
			switch op {
			case token.ADD:
				return catStr(T, a, b), true
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if la, ok := a.lit(); ok {
					if lb, ok := b.lit(); ok {
						switch op {
						case token.LSS:
							return T.Bool(la < lb), true
						case token.LEQ:
							return T.Bool(la <= lb), true
						case token.GTR:
							return T.Bool(la > lb), true
						}
						return T.Bool(la >= lb), true
					}
				}
				return T.App("scmp"+op.String(), Iv{n0, n1}, in.strTerm(a), in.strTerm(b)), true
			}
		}
		in.unsupported(fmt.Sprintf("operation %s on %T", op, xv))
		return T.Leaf(in.uniq("op"), ivTop, nil), true
	}
	if isFloat(xt) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return T.App("f"+op.String(), Iv{n0, n1}, x, y), true
		}
		return T.App("f"+op.String(), ivTop, x, y), true
	}
	x, y = T.sv(st, x), T.sv(st, y)
	switch op {
	case token.LSS:
		return in.predSv(st, T.LT(x, y)), true
	case token.LEQ:
		return in.predSv(st, T.LE(x, y)), true
	case token.GTR:
		return in.predSv(st, T.LT(y, x)), true
	case token.GEQ:
		return in.predSv(st, T.LE(y, x)), true
	}
	w, signed, ok := in.intInfo(xt)
	if !ok {
		if isBool(xt) {
			switch op {
			case token.AND:
				return T.And(x, y), true
			case token.OR:
				return T.Or(x, y), true
			case token.XOR:
				return T.Xor(x, y), true
			}
		}
		in.unsupported("operation " + op.String())
		return T.Leaf(in.uniq("op"), ivTop, nil), true
	}
	switch op {
	case token.ADD:
		return in.norm(st, T.Add(x, y), w, signed), true
	case token.SUB:
		return in.norm(st, T.Sub(x, y), w, signed), true
	case token.MUL:
		return in.norm(st, T.Mul(x, y), w, signed), true
	case token.QUO, token.REM:
		nz := T.Not(T.EQ0(y))
		if !in.require(st, "div0", nz, "divisor is not zero") {
			return nil, false
		}
		y = T.sv(st, y)
		rx, ry := T.rng(st, x), T.rng(st, y)
		if rx.lo.sign() >= 0 && ry.lo.sign() > 0 {
			if op == token.QUO {
				return T.Div(x, y, true), true
			}
			if rx.hi.lt(ry.lo) || x.op != OConst && y.op != OConst && T.proveGE0(st, T.AddK(T.Sub(y, x), nm1)) {
				return x, true
			}
			return T.Mod(x, y), true
		}
		if op == token.QUO {
			if x.op == OConst && y.op == OConst {
				return in.norm(st, T.Const(x.k.quo(y.k)), w, signed), true
			}
			m := nmax(rx.hi.abs(), rx.lo.abs())
			t := T.App("quo", typeIv(w, signed), x, y)
			T.setRef(st, t, Iv{m.neg(), m})
			return t, true
		}
		if x.op == OConst && y.op == OConst {
			return T.Const(x.k.sub(x.k.quo(y.k).mul(y.k))), true
		}
		m := nmax(ry.hi.abs(), ry.lo.abs()).sub(n1)
		t := T.App("rem", typeIv(w, signed), x, y)
		iv := Iv{m.neg(), m}
		if rx.lo.sign() >= 0 {
			iv.lo = n0
		}
		T.setRef(st, t, iv)
		return t, true
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		neg := T.rng(st, x).lo.sign() < 0 || T.rng(st, y).lo.sign() < 0
		if x.iv.lo.sign() < 0 || y.iv.lo.sign() < 0 {
			// work on the unsigned representation
			if !neg && op != token.AND_NOT {
				x, y = T.Trunc(x, w), T.Trunc(y, w)
			} else {
				x, y = T.Trunc(x, w), T.Trunc(y, w)
			}
		}
		var r *Term
		switch op {
		case token.AND:
			r = T.And(x, y)
		case token.OR:
			r = T.Or(x, y)
		case token.XOR:
			r = T.Xor(x, y)
		default:
			r = T.And(x, T.Sub(T.Const(pow2(w).sub(n1)), y))
			if y.op == OConst {
				r = T.And(x, T.Const(pow2(w).sub(n1).sub(y.k)))
			} else {
				r = T.App("andnot", typeIv(w, false), x, y)
				T.setRef(st, r, Iv{n0, nmax(T.rng(st, x).hi, n0)})
			}
		}
		if signed {
			r = T.Sext(r, w)
		}
		return r, true
	case token.SHL, token.SHR:
		if _, ys, ok := in.intInfo(yt); ok && ys {
			if !in.require(st, "shift", T.GE0(y), "shift count is not negative") {
				return nil, false
			}
		}
		return in.shift(st, op, x, y, w, signed), true
	}
	in.unsupported("operator " + op.String())
	return T.Leaf(in.uniq("op"), typeIv(w, signed), nil), true
}

func (in *Interp) predSv(st *State, p *Term) *Term {
	if p.op == OConst {
		return p
	}
	if v, ok := in.T.decide(st, p); ok {
		return in.T.Bool(v)
	}
	return p
}

func (in *Interp) strTerm(s *StrV) *Term {
	T := in.T
	var args []*Term
	name := "str:"
	for _, p := range s.parts {
		if p.t == nil {
			name += fmt.Sprintf("%q", p.lit)
		} else {
			name += "<" + p.how + ">"
			args = append(args, p.t)
		}
	}
	return T.AppD(name, ivTop, s.dep, args...)
}

// equal is the predicate x == y.
func (in *Interp) equal(st *State, xv, yv Val, t types.Type) *Term {
	T := in.T
	un := func() *Term {
		return T.Leaf(in.uniq("eq"), Iv{n0, n1}, T.deps.or(in.valDep(xv), in.valDep(yv)))
	}
	if t != nil && isFloat(t) {
		if x, ok := xv.(*Term); ok {
			if y, ok := yv.(*Term); ok {
				return T.App("feq", Iv{n0, n1}, x, y)
			}
		}
	}
	// nil comparison
	xn, xnt, okx := nullOf(xv)
	yn, ynt, oky := nullOf(yv)
	if okx && oky {
		if yn == nilYes || xn == nilYes {
			n, nt := xn, xnt
			if xn == nilYes {
				n, nt = yn, ynt
			}
			switch n {
			case nilNo:
				return T.zero
			case nilYes:
				return T.one
			}
			if nt == nil {
				return un()
			}
			if v, ok := T.decide(st, nt); ok {
				return T.Bool(v)
			}
			return nt
		}
	}
	switch x := xv.(type) {
	case *Term:
		if y, ok := yv.(*Term); ok {
			x, y = T.sv(st, x), T.sv(st, y)
			return in.predSv(st, T.EQ(x, y))
		}
	case *StrV:
		if y, ok := yv.(*StrV); ok {
			if sameVal(x, y) {
				return T.one
			}
			if a, ok := x.lit(); ok {
				if b, ok := y.lit(); ok {
					return T.Bool(a == b)
				}
			}
			return T.App("seq", Iv{n0, n1}, in.strTerm(x), in.strTerm(y))
		}
	case *PtrV:
		y, ok := yv.(*PtrV)
		if !ok || x.top || y.top {
			return un()
		}
		if len(x.alts) == 1 && len(y.alts) == 1 && x.null == nilNo && y.null == nilNo {
			if x.alts[0].eq(y.alts[0]) {
				if o := st.obj(x.alts[0].obj); o != nil && !o.weak {
					return T.one
				}
			}
		}
		common := false
		for _, a := range x.alts {
			for _, b := range y.alts {
				if a.obj == b.obj {
					common = true
				}
			}
		}
		if !common && (x.null == nilNo || y.null == nilNo) {
			return T.zero
		}
		return un()
	case *IfaceV:
		if y, ok := yv.(*IfaceV); ok {
			if x.typ != nil && y.typ != nil {
				if !types.Identical(x.typ, y.typ) {
					return T.zero
				}
				if x.null == nilNo && y.null == nilNo {
					return in.equal(st, x.v, y.v, x.typ)
				}
			}
		}
	case *StructC:
		if y, ok := yv.(*StructC); ok && len(x.f) == len(y.f) {
			r := T.one
			u, _ := under(t).(*types.Struct)
			for i := range x.f {
				var ft types.Type
				if u != nil {
					ft = u.Field(i).Type()
				}
				r = T.And(r, in.equal(st, x.f[i], y.f[i], ft))
			}
			return r
		}
	case *ArrC:
		if y, ok := yv.(*ArrC); ok && x.sum == nil && y.sum == nil {
			if n, ok := x.n.constVal(); ok && n.le(ni(256)) {
				r := T.one
				for i := 0; i < int(n.i64()); i++ {
					r = T.And(r, in.equal(st, in.elem(x, i), in.elem(y, i), x.et))
				}
				return r
			}
		}
	}
	return un()
}

func (in *Interp) convert(st *State, v Val, from, to types.Type, fr *Frame, site ssa.Instruction) Val {
	T := in.T
	fw, _, fok := in.intInfo(from)
	tw, ts, tok := in.intInfo(to)
	switch {
	case fok && tok:
		x, ok := v.(*Term)
		if !ok { // a data pointer
			return v
		}
		_ = fw
		return in.norm(st, T.sv(st, x), tw, ts)
	case fok && isFloat(to):
		return T.App("i2f", ivTop, v.(*Term))
	case isFloat(from) && tok:
		return T.App(fmt.Sprintf("f2i%d", tw), typeIv(tw, ts), v.(*Term))
	case isFloat(from) && isFloat(to):
		return v
	}
	fu, tu := under(from), under(to)
	if isUnsafePtr(to) || isUnsafePtr(from) {
		if tok {
			if _, ok := v.(*PtrV); ok {
				return T.Leaf(in.uniq("addr"), typeIv(tw, ts), T.deps.label("addr"))
			}
		}
		if fok {
			if _, ok := v.(*Term); ok {
				return &PtrV{top: true}
			}
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if isString(to) {
		switch x := v.(type) {
		case *SliceV:
			sl := fu.(*types.Slice)
			if vs, ok := in.sliceElems(st, x, sl.Elem(), 512); ok && in.sizeof(sl.Elem()) == 1 {
				buf := make([]byte, 0, len(vs))
				for _, e := range vs {
					t, ok := e.(*Term)
					if !ok || !t.isConst() {
						buf = nil
						break
					}
					buf = append(buf, byte(t.k.i64()))
				}
				if buf != nil {
					return litStr(string(buf), T.deps.empty)
				}
			}
			c := in.contentTerm(normRuns(T, in.sliceRuns(st, x, sl.Elem())))
			return &StrV{parts: []StrPart{{t: c, how: "bytes"}}, dep: c.dep}
		case *Term:
			return &StrV{parts: []StrPart{{t: x, how: "rune"}}, dep: x.dep}
		}
		return v
	}
	if isString(from) {
		s := v.(*StrV)
		sl, ok := tu.(*types.Slice)
		if ok && in.sizeof(sl.Elem()) == 1 {
			if l, ok := s.lit(); ok {
				arr := &ArrC{n: T.Int(int64(len(l))), def: T.zero, et: sl.Elem()}
				for i := 0; i < len(l); i++ {
					arr.elems = arr.elems.Set(uint64(i), T.Int(int64(l[i])))
				}
				p := in.alloc(st, fr.ctx, site, "str", types.NewSlice(sl.Elem()), arr)
				return &SliceV{alts: []SAlt{{loc: p.alts[0], off: T.zero, esz: 1}}, len: arr.n, cap: arr.n}
			}
		}
		t := in.strTerm(s)
		n := T.App("strlen", Iv{n0, in.inputLen}, t)
		p := in.alloc(st, fr.ctx, site, "str", to, &BlobC{size: n, dep: s.dep, tag: t})
		return &SliceV{alts: []SAlt{{loc: p.alts[0], off: T.zero, esz: 1}}, len: n, cap: n}
	}
	return v
}

// log2 helpers for models
func bitsLen(n N) int { return bits.Len64(n.lo) }
