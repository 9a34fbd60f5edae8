package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) uniq(what string) string {
	if in.cur == nil || in.curInstr == nil {
		return what
	}
	return what + "@" + in.siteName(in.cur, in.curInstr)
}

// elemSize of the array content's own elements.
func (in *Interp) arrEsz(a *ArrC) int { return in.sizeof(a.et) }

func mergeVals(in *Interp, st *State, a, b Val, t types.Type, name string) Val {
	if sameVal(a, b) {
		return a
	}
	j := &joiner{in: in, a: st, b: st, site: name, pairs: map[[2]*Term]*Term{}, taint: in.T.deps.empty}
	return j.val(a, b, t, nil)
}

// fresh renames the integer parts of a value that is only known up to its range.
func (in *Interp) fresh(st *State, v Val, name string, t types.Type) Val {
	T := in.T
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return x
		}
		return T.Leaf(name, T.rng(st, x), x.dep)
	case *StructC:
		r := &StructC{f: make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = in.fresh(st, x.f[i], fmt.Sprintf("%s.%d", name, i), nil)
		}
		return r
	case *SliceV:
		r := *x
		r.len = in.fresh(st, x.len, name+".len", nil).(*Term)
		r.cap = in.fresh(st, x.cap, name+".cap", nil).(*Term)
		if r.nt != nil {
			r.nt = T.Leaf(name+".nil", Iv{n0, n1}, r.nt.dep)
		}
		r.alts = append([]SAlt(nil), x.alts...)
		for i := range r.alts {
			r.alts[i].sel = nil
			r.alts[i].off = in.fresh(st, r.alts[i].off, fmt.Sprintf("%s.off%d", name, i), nil).(*Term)
		}
		return &r
	case *PtrV:
		if x.nt != nil {
			r := *x
			r.nt = T.Leaf(name+".nil", Iv{n0, n1}, x.nt.dep)
			return &r
		}
	case *IfaceV:
		if x.nt != nil {
			r := *x
			r.nt = T.Leaf(name+".nil", Iv{n0, n1}, x.nt.dep)
			return &r
		}
	case *ArrC:
		return &ArrC{n: x.n, et: x.et, sum: in.fresh(st, in.arrSum(x), name+"[]", x.et), ver: T.Leaf(name+".ver", ivTop, in.valDep(x))}
	}
	return v
}

func (in *Interp) load(st *State, loc Loc, t types.Type) Val {
	o := st.obj(loc.obj)
	if o == nil {
		in.unsupported("load from a missing object " + loc.String())
		return in.havoc(t, in.uniq("miss"), nil)
	}
	if in.onAccess != nil {
		in.onAccess(st, in.cur, in.curInstr, o, loc, false, false)
	}
	v := in.loadC(st, o, o.c, loc.path, t)
	if o.weak {
		v = in.fresh(st, v, in.uniq("wk"), t)
	}
	return v
}

func (in *Interp) sliceHeaderOf(c Val) *StructC {
	switch x := c.(type) {
	case *StructC:
		return x
	case *SliceV:
		return &StructC{f: []Val{&DataPtr{x}, x.len, x.cap}}
	}
	return nil
}

// view reinterprets slice s as elements of size esz with the given length and capacity.
func (in *Interp) view(st *State, s *SliceV, esz int, ln, cp *Term) *SliceV {
	T := in.T
	r := &SliceV{null: s.null, nt: s.nt, top: s.top, len: ln, cap: cp}
	for _, a := range s.alts {
		n := a
		if a.esz != esz {
			n.esz = esz
			b := T.Scale(a.off, ni(int64(a.esz)))
			n.off = T.Div(b, T.Int(int64(esz)), true)
			if !T.Scale(n.off, ni(int64(esz))).sameAs(b) {
				in.unsupported("misaligned view of memory")
			}
		}
		if in.T.proveGE0(st, T.Sub(T.Scale(s.cap, ni(int64(a.esz))), T.Scale(cp, ni(int64(esz))))) {
			n.raw = a.raw
		} else {
			n.raw = true
		}
		r.alts = append(r.alts, n)
	}
	return r
}

func (t *Term) sameAs(u *Term) bool { return t == u }

func (in *Interp) loadC(st *State, o *Obj, c Val, path []PE, t types.Type) Val {
	T := in.T
	if len(path) == 0 {
		if sl, ok := under(t).(*types.Slice); ok {
			esz := in.sizeof(sl.Elem())
			switch x := c.(type) {
			case *SliceV:
				if len(x.alts) > 0 && x.alts[0].esz != esz {
					return in.view(st, x, esz, x.len, x.cap)
				}
				return x
			case *StructC:
				if len(x.f) == 3 {
					if d, ok := x.f[0].(*DataPtr); ok {
						return in.view(st, d.s, esz, x.f[1].(*Term), x.f[2].(*Term))
					}
				}
				in.unsupported("slice built from an unknown address")
				return in.havoc(t, in.uniq("hdr"), nil)
			}
		}
		if _, ok := c.(*BlobC); ok {
			in.unsupported("load of a whole memory region")
			return in.havoc(t, in.uniq("blob"), nil)
		}
		if c == nil {
			in.unsupported("load of an undefined value")
			return in.havoc(t, in.uniq("undef"), nil)
		}
		return c
	}
	p := path[0]
	if p.f >= 0 {
		switch x := c.(type) {
		case *StructC:
			if p.f < len(x.f) {
				return in.loadC(st, o, x.f[p.f], path[1:], t)
			}
		case *SliceV:
			h := in.sliceHeaderOf(x)
			return in.loadC(st, o, h.f[p.f], path[1:], t)
		case *NatC:
			in.unsupported("field of library object " + x.kind)
			return in.havoc(t, in.uniq("nat"), x.dep)
		}
		in.unsupported(fmt.Sprintf("field of %T", c))
		return in.havoc(t, in.uniq("fld"), nil)
	}
	idx := T.sv(st, p.idx)
	switch x := c.(type) {
	case *ArrC:
		es := in.arrEsz(x)
		if p.esz != 0 && es != p.esz && len(path) == 1 {
			if k, ok := idx.constVal(); ok && x.sum == nil && p.esz%es == 0 {
				n := p.esz / es
				var segs []Seg
				for i := 0; i < n; i++ {
					e, ok := in.elem(x, int(k.i64())*n+i).(*Term)
					if !ok {
						segs = nil
						break
					}
					segs = append(segs, T.padSegs(e, es*8)...)
				}
				if segs != nil {
					return T.Wire(segs)
				}
			}
			w, s, ok := in.intInfo(t)
			if !ok {
				return in.havoc(t, in.uniq("view"), nil)
			}
			return T.App(fmt.Sprintf("ld%d", p.esz), typeIv(w, s), in.arrVer(x), T.Scale(idx, ni(int64(p.esz))))
		}
		if k, ok := idx.constVal(); ok && x.sum == nil {
			return in.loadC(st, o, in.elem(x, int(k.i64())), path[1:], t)
		}
		return in.loadC(st, o, in.symElem(st, x, idx), path[1:], t)
	case *BlobC:
		if x.mapped == 2 {
			in.oblig("unmapped", false, "memory is read after being unmapped")
		}
		w, s, ok := in.intInfo(t)
		if !ok || len(path) > 1 {
			in.unsupported("typed access to raw memory")
			return in.havoc(t, in.uniq("blob"), x.dep)
		}
		esz := p.esz
		if esz == 0 {
			esz = w / 8
		}
		off := T.Scale(idx, ni(int64(esz)))
		v := in.blobLoad(st, x, off, esz)
		if s {
			return T.Sext(v, w)
		}
		return v
	case *MapC, *NatC:
	}
	in.unsupported(fmt.Sprintf("element of %T", c))
	return in.havoc(t, in.uniq("elt"), nil)
}

func (in *Interp) elem(x *ArrC, k int) Val {
	if x.sum != nil {
		return x.sum
	}
	if v, ok := x.elems.Get(uint64(k)); ok {
		return v
	}
	return x.def
}

// symElem reads an array at an index that is not constant.
func (in *Interp) symElem(st *State, x *ArrC, idx *Term) Val {
	T := in.T
	r := T.rng(st, idx)
	var s Val
	if x.sum != nil {
		s = x.sum
	} else if n, ok := x.n.constVal(); ok && r.lo.sign() >= 0 && r.hi.lt(n) && r.hi.sub(r.lo).lt(ni(16)) && r.hi.sub(r.lo).lt(n.sub(n1)) {
		// only part of the array
		for k := r.lo.i64(); k <= r.hi.i64(); k++ {
			e := in.elem(x, int(k))
			if s == nil {
				s = e
			} else {
				s = mergeVals(in, st, s, e, x.et, in.uniq("ix"))
			}
		}
	} else {
		s = in.arrSum(x)
	}
	if t, ok := s.(*Term); ok {
		if t.isConst() {
			return t
		}
		w, sg, isInt := in.intInfo(x.et)
		iv := T.rng(st, t)
		if isInt {
			iv = iv.meet(typeIv(w, sg))
		}
		return T.AppD("sel", iv, T.deps.or(t.dep, idx.dep), in.arrVer(x), idx)
	}
	return in.fresh(st, s, in.uniq("ix"), x.et)
}

// blobLoad reads esz bytes at byte offset off.
func (in *Interp) blobLoad(st *State, x *BlobC, off *Term, esz int) *Term {
	T := in.T
	tag := x.tag
	budget := 24
	near := func(l *Term) bool {
		if budget <= 0 {
			return T.rngD(st, l, 3).lo.sign() >= 0
		}
		budget--
		return T.prove(st, l, 2, map[*Term]bool{})
	}
	limit := 400
	if in.gt != nil {
		limit = 20000
	}
	for n := 0; n < limit && tag != nil; n++ {
		if tag == T.zero {
			return T.zero
		}
		if tag.op == OApp && tag.name == "st" && len(tag.args) == 4 {
			so, sv := tag.args[1], tag.args[2]
			se, _ := tag.args[3].constVal()
			if so == off && se == ni(int64(esz)) {
				return sv
			}
			d := T.Sub(off, so)
			if k, ok := d.constVal(); ok {
				if !k.lt(se) || k.add(ni(int64(esz))).le(n0) {
					tag = tag.args[0]
					continue
				}
				if k.sign() >= 0 && k.add(ni(int64(esz))).le(se) {
					return T.Ext(sv, int(k.i64())*8, esz*8)
				}
				if esz > 1 && esz <= 8 { // the load straddles the store
					y := &BlobC{tag: tag, size: x.size, dep: x.dep}
					var segs []Seg
					for i := 0; i < esz; i++ {
						segs = append(segs, Seg{src: in.blobLoad(st, y, T.AddK(off, ni(int64(i))), 1), w: 8})
					}
					return T.Wire(segs)
				}
			} else if near(T.Sub(d, T.Const(se))) || near(T.Sub(T.Scale(d, nm1), T.Int(int64(esz)))) {
				tag = tag.args[0]
				continue
			}
		}
		if tag.op == OApp && tag.name == "cp" && len(tag.args) == 4 {
			co, cn, ct := tag.args[1], tag.args[2], tag.args[3]
			d := T.Sub(off, co)
			if near(T.Sub(d, cn)) || near(T.Sub(T.Scale(d, nm1), T.Int(int64(esz)))) {
				tag = tag.args[0]
				continue
			}
			if near(d) && near(T.Sub(T.Sub(cn, d), T.Int(int64(esz)))) {
				if ct.op == OApp && ct.name == "region" {
					return in.blobLoad(st, &BlobC{tag: ct.args[0], size: x.size, dep: x.dep}, T.Add(ct.args[1], d), esz)
				}
				if k, ok := d.constVal(); ok && ct.op == OApp && ct.name == "bytes" && len(ct.args) == 2 {
					return T.Ext(ct.args[1], int(k.i64())*8, esz*8)
				}
			}
		}
		if tag.op == OApp && tag.name == "cat" {
			// runs: (tag, off, len)*
			pos := T.zero
			hit := false
			for i := 0; i+2 < len(tag.args); i += 3 {
				end := T.Add(pos, tag.args[i+2])
				if near(T.Sub(off, pos)) && near(T.Sub(T.Sub(end, off), T.Int(int64(esz)))) {
					b := &BlobC{tag: tag.args[i], size: x.size, dep: x.dep}
					return in.blobLoad(st, b, T.Add(tag.args[i+1], T.Sub(off, pos)), esz)
				}
				if !near(T.Sub(off, end)) {
					break
				}
				pos = end
			}
			_ = hit
		}
		break
	}
	return T.AppD(fmt.Sprintf("ld%d", esz), typeIv(esz*8, false), x.dep, tag, off)
}

func (in *Interp) store(st *State, loc Loc, v Val, strong bool) {
	o := st.obj(loc.obj)
	if o == nil {
		in.unsupported("store to a missing object")
		return
	}
	if in.onAccess != nil {
		in.onAccess(st, in.cur, in.curInstr, o, loc, true, strong)
	}
	nc := in.storeC(st, o, o.c, loc.path, v, o.typ)
	if o.weak || !strong {
		nc = mergeVals(in, st, o.c, nc, o.typ, in.uniq("ws"))
	}
	n := *o
	n.c = nc
	st.setObj(&n)
	if in.shareOn && (o.shared || o.global) {
		in.share(st, v)
	}
}

// share marks what v reaches as reachable by other goroutines.
func (in *Interp) share(st *State, v Val) {
	if _, ok := v.(*Term); ok {
		return
	}
	for id := range in.reach(&State{mem: st.mem}, []Val{v}) {
		if o := st.obj(id); o != nil && !o.shared {
			n := *o
			n.shared = true
			st.setObj(&n)
		}
	}
}

func (in *Interp) storeC(st *State, o *Obj, c Val, path []PE, v Val, t types.Type) Val {
	T := in.T
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.f >= 0 {
		s := in.sliceHeaderOf(c)
		if s == nil || p.f >= len(s.f) {
			in.unsupported(fmt.Sprintf("store to a field of %T", c))
			return c
		}
		r := &StructC{f: append([]Val(nil), s.f...)}
		var ft types.Type
		if u, ok := under(t).(*types.Struct); ok && p.f < u.NumFields() {
			ft = u.Field(p.f).Type()
		}
		r.f[p.f] = in.storeC(st, o, s.f[p.f], path[1:], v, ft)
		return r
	}
	idx := T.sv(st, p.idx)
	switch x := c.(type) {
	case *ArrC:
		es := in.arrEsz(x)
		if p.esz != 0 && es != p.esz && len(path) == 1 {
			tv, isT := v.(*Term)
			if k, ok := idx.constVal(); ok && x.sum == nil && isT && p.esz%es == 0 {
				r := *x
				n := p.esz / es
				for i := 0; i < n; i++ {
					r.elems = r.elems.Set(uint64(int(k.i64())*n+i), T.Ext(tv, i*es*8, es*8))
				}
				return &r
			}
			if !isT {
				in.unsupported("store through a view")
				return x
			}
			return in.symStore(st, x, T.Scale(idx, ni(int64(p.esz))), T.Leaf(in.uniq("vw"), typeIv(es*8, false), tv.dep))
		}
		if k, ok := idx.constVal(); ok && x.sum == nil {
			r := *x
			r.elems = x.elems.Set(uint64(k.i64()), in.storeC(st, o, in.elem(x, int(k.i64())), path[1:], v, x.et))
			return &r
		}
		if len(path) > 1 {
			old := in.symElem(st, x, idx)
			v = in.storeC(st, o, old, path[1:], v, x.et)
		}
		return in.symStore(st, x, idx, v)
	case *BlobC:
		if x.mapped == 2 {
			in.oblig("unmapped", false, "memory is written after being unmapped")
		}
		if x.mapped == 1 && !x.rw {
			in.oblig("romap", false, "read-only mapping is written")
		}
		tv, ok := v.(*Term)
		if !ok || len(path) > 1 {
			in.unsupported("typed store to raw memory")
			return c
		}
		esz := p.esz
		if esz == 0 {
			esz = 1
		}
		return in.blobStore(x, T.Scale(idx, ni(int64(esz))), tv, esz)
	}
	in.unsupported(fmt.Sprintf("store to an element of %T", c))
	return c
}

func (in *Interp) blobStore(x *BlobC, off *Term, v *Term, esz int) *BlobC {
	T := in.T
	r := *x
	if x.tag.dpt > 2000 {
		r.tag = T.Leaf(in.uniq("blobtag"), ivTop, T.deps.or(T.deps.or(x.tag.dep, v.dep), off.dep))
		return &r
	}
	r.tag = T.App("st", ivTop, x.tag, off, v, T.Int(int64(esz)))
	return &r
}

// symStore writes v at an index that is not constant.
func (in *Interp) symStore(st *State, x *ArrC, idx *Term, v Val) Val {
	T := in.T
	r := T.rng(st, idx)
	n, isC := x.n.constVal()
	tv, isT := v.(*Term)
	ver := T.AppD("wr", ivTop, in.valDep(v), in.arrVer(x), idx)
	if isT {
		ver = T.App("wr", ivTop, in.arrVer(x), idx, tv)
	}
	if x.sum == nil && isC && (isT && n.le(ni(512)) || n.le(ni(8))) {
		lo, hi := n0, n.sub(n1)
		lo, hi = nmax(lo, r.lo), nmin(hi, r.hi)
		res := *x
		res.ver = ver
		for k := lo.i64(); k <= hi.i64(); k++ {
			old := in.elem(x, int(k))
			var nv Val
			if ot, ok := old.(*Term); ok && isT {
				if ot == tv {
					nv = ot
				} else {
					iv := T.rng(st, ot).hull(T.rng(st, tv))
					nv = T.App("upd", iv, ot, T.Sub(idx, T.Int(k)), tv)
				}
			} else {
				nv = mergeVals(in, st, old, v, x.et, in.uniq(fmt.Sprintf("up%d", k)))
			}
			res.elems = res.elems.Set(uint64(k), nv)
		}
		res.ver = nil
		return &res
	}
	s := in.arrSum(x)
	var ns Val
	if st0, ok := s.(*Term); ok && isT {
		ns = T.Leaf("Σ", T.rng(st, st0).hull(T.rng(st, tv)), T.deps.or(T.deps.or(st0.dep, tv.dep), idx.dep))
		if st0 == tv && tv.isConst() {
			ns = tv
		}
	} else {
		ns = mergeVals(in, st, s, v, x.et, in.uniq("sm"))
	}
	return &ArrC{n: x.n, sum: ns, ver: ver, et: x.et}
}

/* pointers */

// loadPtr loads through a pointer value known not to be nil.
func (in *Interp) loadPtr(st *State, p *PtrV, t types.Type) Val {
	if p.top || len(p.alts) == 0 {
		in.unsupported("load through an unknown pointer")
		return in.havoc(t, in.uniq("top"), nil)
	}
	var v Val
	if in.gt != nil && p.selKnown() {
		for i := len(p.alts) - 1; i >= 0; i-- {
			x := in.load(st, p.alts[i], t)
			if v == nil {
				v = x
				continue
			}
			v = in.chooseVal(st, p.sel[i], x, v, t)
		}
		return v
	}
	for i, l := range p.alts {
		x := in.load(st, l, t)
		if i == 0 {
			v = x
		} else {
			v = mergeVals(in, st, v, x, t, in.uniq("pm"))
		}
	}
	if len(p.alts) > 1 {
		v = in.fresh(st, v, in.uniq("pa"), t)
	}
	return v
}

func (in *Interp) storePtr(st *State, p *PtrV, v Val) { in.storePtrT(st, p, v, nil) }

func (in *Interp) storePtrT(st *State, p *PtrV, v Val, t types.Type) {
	if p.top || len(p.alts) == 0 {
		in.unsupported("store through an unknown pointer")
		return
	}
	if _, isT := v.(*Term); isT && t != nil && in.gt != nil && p.selKnown() {
		for i, l := range p.alts {
			if x, ok := v.(*Term); ok {
				if old, ok := in.load(st, l, t).(*Term); ok {
					in.store(st, l, in.T.Ite(p.sel[i], x, old), true)
					continue
				}
			}
			in.store(st, l, v, false)
		}
		return
	}
	for _, l := range p.alts {
		in.store(st, l, v, len(p.alts) == 1)
	}
}

// chooseVal is x under the condition and y otherwise.
func (in *Interp) chooseVal(st *State, c *Term, x, y Val, t types.Type) Val {
	if sameVal(x, y) || c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	j := &joiner{in: in, a: st, b: st, site: in.uniq("ch"), pairs: map[[2]*Term]*Term{}, taint: in.T.deps.empty, sel: in.gt.lit(c, true)}
	return j.val(x, y, t, nil)
}

// notNil emits the obligation that v is not nil; false if the path ends.
func (in *Interp) notNil(st *State, v Val, what string) bool {
	n, nt, ok := nullOf(v)
	if !ok || n == nilNo {
		return true
	}
	if x, ok := in.isNil(st, n, nt); ok && !x {
		return true
	}
	in.oblig("nil", false, what+" may be nil")
	if n == nilYes {
		return false
	}
	if nt != nil {
		return in.T.assume(st, nt, false)
	}
	return true
}

// require emits an obligation and continues under it.
func (in *Interp) require(st *State, kind string, p *Term, msg string) bool {
	v, ok := in.T.decide(st, p)
	if ok && v {
		in.oblig(kind, true, msg)
		return true
	}
	in.emit(Event{kind: kind, ok: false, msg: msg, data: p})
	if ok {
		return false
	}
	return in.T.assume(st, p, true)
}

func (in *Interp) sliceElem(st *State, s *SliceV, idx *Term) *PtrV {
	T := in.T
	p := &PtrV{top: s.top}
	for _, a := range s.alts {
		i := T.Add(a.off, idx)
		if a.raw {
			in.rawCheck(st, a, i)
		}
		p.alts = append(p.alts, a.loc.ext(PE{-1, i, a.esz}))
	}
	if len(s.alts) > 1 {
		p.sel = altSels(s.alts)
	}
	return p
}

func (in *Interp) rawCheck(st *State, a SAlt, i *Term) {
	T := in.T
	o := st.obj(a.loc.obj)
	if o == nil {
		return
	}
	c := in.contentAt(st, o, a.loc.path)
	var size *Term
	switch x := c.(type) {
	case *BlobC:
		size = x.size
	case *ArrC:
		size = T.Scale(x.n, ni(int64(in.arrEsz(x))))
	default:
		in.unsupported("raw view")
		return
	}
	end := T.Scale(T.AddK(i, n1), ni(int64(a.esz)))
	in.oblig("mem", T.proveGE0(st, T.Sub(size, end)) && T.proveGE0(st, i), "access through a reinterpreted slice stays inside the memory")
}

func (in *Interp) contentAt(st *State, o *Obj, path []PE) Val {
	c := o.c
	for _, p := range path {
		switch x := c.(type) {
		case *StructC:
			if p.f < 0 || p.f >= len(x.f) {
				return nil
			}
			c = x.f[p.f]
		case *ArrC:
			if p.f >= 0 {
				return nil
			}
			if k, ok := in.T.sv(st, p.idx).constVal(); ok && x.sum == nil {
				c = in.elem(x, int(k.i64()))
			} else {
				c = in.symElem(st, x, p.idx)
			}
		default:
			return nil
		}
	}
	return c
}

/* bulk operations */

// sliceBytes gives the elements of a slice of constant length (at most max), or false.
func (in *Interp) sliceElems(st *State, s *SliceV, et types.Type, max int64) ([]Val, bool) {
	n, ok := in.T.sv(st, s.len).constVal()
	if !ok || !n.le(ni(max)) || s.top {
		return nil, false
	}
	out := make([]Val, n.i64())
	if n.sign() == 0 {
		return out, true
	}
	if len(s.alts) == 0 {
		return nil, false
	}
	for i := range out {
		p := in.sliceElem(st, s, in.T.Int(int64(i)))
		out[i] = in.loadPtr(st, p, et)
	}
	return out, true
}

// region describes the content of a slice as runs of (tag, byte offset, byte length).
type run struct {
	tag, off, n *Term
	bytes       []*Term // known bytes instead
}

func (in *Interp) sliceRuns(st *State, s *SliceV, et types.Type) []run {
	T := in.T
	es := in.sizeof(et)
	if n, ok := in.T.sv(st, s.len).constVal(); ok && n.sign() == 0 {
		return nil
	}
	if s.top || len(s.alts) != 1 {
		d := in.deepDep(st, s)
		return []run{{tag: T.Leaf(in.uniq("anymem"), ivTop, d), off: T.zero, n: T.Scale(s.len, ni(int64(es)))}}
	}
	a := s.alts[0]
	o := st.obj(a.loc.obj)
	if o != nil {
		if b, ok := in.contentAt(st, o, a.loc.path).(*BlobC); ok && !o.weak {
			if in.onAccess != nil {
				in.onAccess(st, in.cur, in.curInstr, o, a.loc, false, false)
			}
			if b.mapped == 2 {
				in.oblig("unmapped", false, "memory is read after being unmapped")
			}
			off := T.Scale(a.off, ni(int64(a.esz)))
			n := T.Scale(s.len, ni(int64(a.esz)))
			if b.tag.op == OApp && b.tag.name == "cat" {
				pos := T.zero
				var out []run
				for i := 0; i+2 < len(b.tag.args); i += 3 {
					if off == T.zero && out == nil || len(out) > 0 {
						out = append(out, run{tag: b.tag.args[i], off: b.tag.args[i+1], n: b.tag.args[i+2]})
						pos = T.Add(pos, b.tag.args[i+2])
						if pos == n {
							return out
						}
					}
				}
			}
			if k, ok := T.sv(st, n).constVal(); ok && k.le(ni(512)) {
				var bs []*Term
				for i := int64(0); i < k.i64(); i++ {
					bs = append(bs, in.blobLoad(st, b, T.AddK(off, ni(i)), 1))
				}
				return []run{{bytes: bs, n: T.Const(k)}}
			}
			return []run{{tag: b.tag, off: off, n: n}}
		}
	}
	if es2 := int64(16384); true {
		if vs, ok := in.sliceElems(st, s, et, es2); ok {
			var bs []*Term
			for _, v := range vs {
				t, ok := v.(*Term)
				if !ok {
					t = T.Leaf(in.uniq("elt"), typeIv(es*8, false), in.valDep(v))
				}
				for i := 0; i < es; i++ {
					bs = append(bs, T.Ext(T.Trunc(t, es*8), i*8, 8))
				}
			}
			return []run{{bytes: bs, n: T.Int(int64(len(bs)))}}
		}
	}
	var tag *Term
	if o != nil {
		if in.onAccess != nil {
			in.onAccess(st, in.cur, in.curInstr, o, a.loc, false, false)
		}
		if x, ok := in.contentAt(st, o, a.loc.path).(*ArrC); ok && !o.weak {
			tag = in.arrVer(x)
		}
	}
	if tag == nil {
		tag = T.Leaf(in.uniq("anymem"), ivTop, in.deepDep(st, s))
	}
	return []run{{tag: tag, off: T.Scale(a.off, ni(int64(es))), n: T.Scale(s.len, ni(int64(es)))}}
}

// contentTerm packs runs into one term.
func (in *Interp) contentTerm(rs []run) *Term {
	T := in.T
	var args []*Term
	for _, r := range rs {
		if r.bytes != nil {
			var segs []Seg
			for _, b := range r.bytes {
				segs = append(segs, T.padSegs(b, 8)...)
			}
			// the leading marker keeps the length
			args = append(args, T.App("bytes", ivTop, T.Int(int64(len(r.bytes))), T.Wire(segs)))
			continue
		}
		args = append(args, T.App("region", ivTop, r.tag, r.off, r.n))
	}
	if len(args) == 1 {
		return args[0]
	}
	return T.App("seq", ivTop, args...)
}

// normRuns joins adjacent known bytes.
func normRuns(T *Terms, rs []run) []run {
	var out, in []run
	for _, r := range rs {
		if r.bytes == nil && r.tag.op == OApp {
			in = append(in, T.peel(r, 0)...)
		} else {
			in = append(in, r)
		}
	}
	for _, r := range in {
		if r.bytes != nil && len(out) > 0 && out[len(out)-1].bytes != nil {
			l := &out[len(out)-1]
			l.bytes = append(l.bytes[:len(l.bytes):len(l.bytes)], r.bytes...)
			l.n = T.Int(int64(len(l.bytes)))
			continue
		}
		if k, ok := r.n.constVal(); ok && k.sign() == 0 {
			continue
		}
		out = append(out, r)
	}
	return out
}

// peel writes a region of written memory as the pieces that were written there.
func (T *Terms) peel(r run, d int) []run {
	var head, tail []run
	octets := func(v *Term, n int) run {
		x := run{n: T.Int(int64(n))}
		for i := 0; i < n; i++ {
			x.bytes = append(x.bytes, T.Ext(v, 8*i, 8))
		}
		return x
	}
	done := func(mid []run) []run {
		out := append(head, mid...)
		for i := len(tail) - 1; i >= 0; i-- {
			out = append(out, tail[i])
		}
		return out
	}
	if d > 6 {
		return []run{r}
	}
	for k := 0; k < 4096; k++ {
		t := r.tag
		if t.op != OApp {
			break
		}
		switch t.name {
		case "st":
			sz, ok := t.args[3].constVal()
			if !ok || !sz.le(ni(8)) {
				return done([]run{r})
			}
			end, ok1 := T.Sub(T.Add(r.off, r.n), T.Add(t.args[1], t.args[3])).constVal()
			beg, ok2 := T.Sub(t.args[1], r.off).constVal()
			n := int(sz.i64())
			switch {
			case ok1 && end.sign() == 0:
				tail = append(tail, octets(t.args[2], n))
				r.n = T.Sub(r.n, t.args[3])
			case ok2 && beg.sign() == 0:
				head = append(head, octets(t.args[2], n))
				r.off, r.n = T.Add(r.off, t.args[3]), T.Sub(r.n, t.args[3])
			case ok1 && end.add(sz).sign() <= 0 || ok2 && beg.add(sz).sign() <= 0:
			default:
				return done([]run{r})
			}
			r.tag = t.args[0]
		case "cp":
			beg, ok2 := T.Sub(t.args[1], r.off).constVal()
			end, ok1 := T.Sub(T.Add(r.off, r.n), T.Add(t.args[1], t.args[2])).constVal()
			switch {
			case ok1 && ok2 && beg.sign() == 0 && end.sign() == 0:
				var mid []run
				for _, x := range T.runsOf(t.args[3]) {
					if x.bytes == nil {
						mid = append(mid, T.peel(x, d+1)...)
					} else {
						mid = append(mid, x)
					}
				}
				return done(mid)
			case ok1 && ok2 && beg.sign() <= 0 && end.sign() <= 0 && t.args[3].op == OApp && t.args[3].name == "region":
				x := t.args[3]
				return done(T.peel(run{tag: x.args[0], off: T.Add(x.args[1], T.Sub(r.off, t.args[1])), n: r.n}, d+1))
			default:
				return done([]run{r})
			}
		case "cat":
			if r.off != T.zero {
				return done([]run{r})
			}
			total := T.zero
			for i := 2; i < len(t.args); i += 3 {
				total = T.Add(total, t.args[i])
			}
			if total != r.n {
				return done([]run{r})
			}
			var mid []run
			for i := 0; i+2 < len(t.args); i += 3 {
				mid = append(mid, T.peel(run{tag: t.args[i], off: t.args[i+1], n: t.args[i+2]}, d+1)...)
			}
			return done(mid)
		default:
			return done([]run{r})
		}
		if c, ok := r.n.constVal(); ok && c.sign() == 0 {
			return done(nil)
		}
	}
	return done([]run{r})
}

// runsOf reads a content term back.
func (T *Terms) runsOf(t *Term) []run {
	if t.op == OApp {
		switch t.name {
		case "region":
			return []run{{tag: t.args[0], off: t.args[1], n: t.args[2]}}
		case "bytes":
			n, ok := t.args[0].constVal()
			if ok {
				r := run{n: t.args[0]}
				for i := int64(0); i < n.i64(); i++ {
					r.bytes = append(r.bytes, T.Ext(t.args[1], int(8*i), 8))
				}
				return []run{r}
			}
		case "seq":
			var out []run
			for _, a := range t.args {
				out = append(out, T.runsOf(a)...)
			}
			return out
		}
	}
	n := T.App("contentlen", Iv{n0, nInf}, t)
	return []run{{tag: t, off: T.zero, n: n}}
}

// copySlice implements copy; n elements (already min of the lengths).
func (in *Interp) copyElems(st *State, dst, src *SliceV, et types.Type, n *Term) {
	T := in.T
	n = T.sv(st, n)
	if k, ok := n.constVal(); ok && k.sign() == 0 {
		return
	}
	if dst.top || len(dst.alts) == 0 {
		in.unsupported("copy to an unknown destination")
		return
	}
	if k, ok := n.constVal(); ok && k.le(ni(in.blobLimit)) {
		s2 := *src
		s2.len = n
		if vs, ok := in.sliceElems(st, &s2, et, in.blobLimit); ok {
			for i, v := range vs {
				in.storePtrT(st, in.sliceElem(st, dst, T.Int(int64(i))), v, et)
			}
			return
		}
	}
	s2 := *src
	s2.len = n
	rs := in.sliceRuns(st, &s2, et)
	d := in.deepDep(st, src)
	for _, a := range dst.alts {
		o := st.obj(a.loc.obj)
		if o == nil {
			continue
		}
		if in.onAccess != nil {
			in.onAccess(st, in.cur, in.curInstr, o, a.loc, true, len(dst.alts) == 1)
		}
		c := in.contentAt(st, o, a.loc.path)
		var nc Val
		switch x := c.(type) {
		case *BlobC:
			if x.mapped == 2 {
				in.oblig("unmapped", false, "memory is written after being unmapped")
			}
			r := *x
			args := []*Term{x.tag, T.Scale(a.off, ni(int64(a.esz))), T.Scale(n, ni(int64(a.esz))), in.contentTerm(rs)}
			r.tag = T.App("cp", ivTop, args...)
			if T.Scale(a.off, ni(int64(a.esz))) == T.zero && T.Scale(n, ni(int64(a.esz))) == x.size && len(dst.alts) == 1 {
				r.tag = in.catTag(rs)
			}
			r.dep = T.deps.or(x.dep, d)
			nc = &r
		case *ArrC:
			s := in.arrSum(x)
			var e Val = T.zero
			if w, sg, ok := in.intInfo(et); ok {
				e = T.Leaf("Σ", typeIv(w, sg), d)
				if st0, ok := s.(*Term); ok {
					ns := T.Leaf("Σ", T.rng(st, st0).hull(typeIv(w, sg)), T.deps.or(d, st0.dep))
					e = ns
				}
			} else if src.top || len(src.alts) == 0 {
				e = in.havoc(et, in.uniq("cp"), d)
			} else {
				e = mergeVals(in, st, s, in.loadPtr(st, in.sliceElem(st, src, T.Leaf(in.uniq("cpi"), Iv{n0, nInf}, nil)), et), et, in.uniq("cpm"))
			}
			nc = &ArrC{n: x.n, et: x.et, sum: e, ver: T.App("cp", ivTop, in.arrVer(x), a.off, n, in.contentTerm(rs))}
		default:
			in.unsupported("copy destination")
			continue
		}
		no := *o
		no.c = in.storeC(st, o, o.c, a.loc.path, nc, o.typ)
		if o.weak || len(dst.alts) > 1 {
			no.c = mergeVals(in, st, o.c, no.c, o.typ, in.uniq("cw"))
		}
		st.setObj(&no)
	}
}

func (in *Interp) catTag(rs []run) *Term {
	T := in.T
	var args []*Term
	for _, r := range rs {
		if r.bytes != nil {
			tag := T.zero
			for i, b := range r.bytes {
				tag = T.App("st", ivTop, tag, T.Int(int64(i)), b, T.one)
			}
			args = append(args, tag, T.zero, r.n)
			continue
		}
		args = append(args, r.tag, r.off, r.n)
	}
	if len(args) == 3 && args[1] == T.zero {
		return args[0]
	}
	return T.App("cat", ivTop, args...)
}

func (in *Interp) minTerm(st *State, a, b *Term) *Term {
	T := in.T
	if a == b {
		return a
	}
	if v, ok := T.decide(st, T.LE(a, b)); ok {
		if v {
			return a
		}
		return b
	}
	return T.Ite(T.LE(a, b), a, b)
}

// appendSlice implements append(dst, src...). It may return several outcomes.
func (in *Interp) appendSlice(st *State, fr *Frame, dst, src *SliceV, et types.Type, site ssa.Instruction) []Outcome {
	T := in.T
	// an empty source leaves the slice alone
	sl := T.sv(st, src.len)
	if k, ok := sl.constVal(); ok && k.sign() == 0 {
		return []Outcome{{st, []Val{dst}}}
	}
	nl := T.Add(dst.len, sl)
	nilD := dst.null == nilYes
	if v, ok := in.isNil(st, dst.null, dst.nt); ok {
		nilD = v
	}
	// in place?
	inPlace, ok := T.decide(st, T.LE(nl, dst.cap))
	if nilD {
		inPlace, ok = T.proveGE0(st, T.Scale(sl, nm1)), true
	}
	if ok && inPlace {
		st2 := st
		r := *dst
		r.len = nl
		view := *dst
		view.alts = nil
		for _, a := range dst.alts {
			a.off = T.Add(a.off, dst.len)
			view.alts = append(view.alts, a)
		}
		view.len, view.cap = sl, T.Sub(dst.cap, dst.len)
		in.copyElems(st2, &view, src, et, sl)
		r.null, r.nt = nilNo, nil
		return []Outcome{{st2, []Val{&r}}}
	}
	var outs []Outcome
	if !ok {
		// the spare capacity of caller-visible memory must not be written
		for _, a := range dst.alts {
			if o := st.obj(a.loc.obj); o != nil {
				if in.onAccess != nil && (o.input || o.shared || o.global) {
					in.onAccess(st, in.cur, in.curInstr, o, a.loc, true, false)
				}
			}
		}
	}
	// fresh array
	es := int64(in.sizeof(et))
	_, _, isInt := in.intInfo(et)
	kl, constLen := T.sv(st, nl).constVal()
	capT := T.Leaf(in.uniq("cap"), Iv{n0, nInf}, nil)
	if constLen {
		capT = T.Leaf(in.uniq("cap"), Iv{kl, nInf}, nil)
	} else {
		T.refine(st, T.Sub(capT, nl), Iv{n0, nInf}, 1)
	}
	var loc Loc
	if constLen && kl.le(ni(in.blobLimit)) {
		dv, ok1 := in.sliceElems(st, dst, et, in.blobLimit)
		sv, ok2 := in.sliceElems(st, src, et, in.blobLimit)
		if ok1 && ok2 {
			arr := &ArrC{n: T.Const(kl), def: in.zero(et), et: et}
			for i, v := range append(dv[:len(dv):len(dv)], sv...) {
				arr.elems = arr.elems.Set(uint64(i), v)
			}
			// spare capacity is never looked at: treat the capacity as the length
			p := in.alloc(st, fr.ctx, site, "append", types.NewSlice(et), arr)
			loc = p.alts[0]
			outs = append(outs, Outcome{st, []Val{&SliceV{alts: []SAlt{{loc: loc, off: T.zero, esz: int(es)}}, len: T.Const(kl), cap: T.Const(kl)}}})
			return outs
		}
	}
	if isInt {
		rs := append(in.sliceRuns(st, dst, et), in.sliceRuns(st, src, et)...)
		rs = normRuns(T, rs)
		d := T.deps.or(in.deepDep(st, dst), in.deepDep(st, src))
		b := &BlobC{size: T.Scale(nl, ni(es)), dep: d, tag: in.catTag(rs)}
		p := in.alloc(st, fr.ctx, site, "append", types.NewSlice(et), b)
		loc = p.alts[0]
	} else {
		var e Val
		get := func(s *SliceV) {
			if k, ok := T.sv(st, s.len).constVal(); ok && k.sign() == 0 {
				return
			}
			if s.top || len(s.alts) == 0 {
				if n, _ := in.isNil(st, s.null, s.nt); n {
					return
				}
				e = in.havoc(et, in.uniq("apx"), nil)
				return
			}
			var v Val
			if vs, ok := in.sliceElems(st, s, et, 64); ok {
				for _, x := range vs {
					if v == nil {
						v = x
					} else {
						v = mergeVals(in, st, v, x, et, in.uniq("ape"))
					}
				}
			} else {
				v = in.loadPtr(st, in.sliceElem(st, s, T.Leaf(in.uniq("api"), Iv{n0, nInf}, nil)), et)
			}
			if v == nil {
				return
			}
			if e == nil {
				e = v
			} else {
				e = mergeVals(in, st, e, v, et, in.uniq("apm"))
			}
		}
		get(dst)
		get(src)
		if e == nil {
			e = in.zero(et)
		}
		arr := &ArrC{n: nl, sum: e, et: et, ver: T.Leaf(in.uniq("apv"), ivTop, in.valDep(e))}
		p := in.alloc(st, fr.ctx, site, "append", types.NewSlice(et), arr)
		loc = p.alts[0]
	}
	_ = capT
	// the array is modelled without spare room; a later append copies
	outs = append(outs, Outcome{st, []Val{&SliceV{alts: []SAlt{{loc: loc, off: T.zero, esz: int(es)}}, len: nl, cap: nl}}})
	return outs
}
