package main

import (
	"fmt"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pushFn func(from, to *ssa.BasicBlock, succ int, st *State)

// execBlock executes the instructions of b from idx on.
func (in *Interp) execBlock(fr *Frame, st *State, b *ssa.BasicBlock, idx int, push pushFn) {
	for i := idx; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		in.steps++
		if in.debug && in.steps%20000 == 0 {
			in.trace()
		}
		if in.steps&63 == 0 && (outOfMemory.Load() || time.Now().After(in.deadline) || stopEarly() || in.T.count > 14e6) {
			in.abort("time or memory limit of the analysis reached")
		}
		if in.steps > in.maxSteps {
			in.abort("step limit exceeded in " + fr.fn.String())
		}
		in.cur = fr
		in.curInstr = ins
		in.instrs[ins] = true
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			push(b, b.Succs[0], 0, st)
			return
		case *ssa.If:
			in.execIf(fr, st, b, x, push)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				v := in.get(st, fr, r)
				if t, ok := v.(*Term); ok {
					v = in.T.sv(st, t)
				}
				res = append(res, v)
			}
			fr.rets = append(fr.rets, ret{st, res})
			return
		case *ssa.Panic:
			in.emit(Event{kind: "panic", ok: false, msg: "explicit panic reached"})
			return
		}
		outs := in.step(fr, st, ins)
		if len(outs) == 0 {
			return
		}
		if len(outs) == 1 {
			st = outs[0]
			continue
		}
		for _, o := range outs {
			in.execBlock(fr, o, b, i+1, push)
		}
		return
	}
}

func (in *Interp) execIf(fr *Frame, st *State, b *ssa.BasicBlock, x *ssa.If, push pushFn) {
	T := in.T
	cond, ok := in.get(st, fr, x.Cond).(*Term)
	if !ok {
		in.abort("branch on a non-boolean")
	}
	if in.onBranch != nil {
		in.onBranch(st, fr, x, cond)
	}
	// loop exits decided by constants are unrolled
	if len(in.iters) > 0 {
		ls := in.iters[len(in.iters)-1]
		l := ls.loop
		if l.blocks[b] && fr.info.inner[b] == l && l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]] {
			if cond.isConst() && !fromNext(x.Cond) {
				ls.constExit = true
			}
			if bo, ok := x.Cond.(*ssa.BinOp); ok {
				p, okp := in.get(st, fr, bo.X).(*Term)
				q, okq := in.get(st, fr, bo.Y).(*Term)
				if okp && okq && !isFloat(bo.X.Type()) {
					p, q = T.sv(st, p), T.sv(st, q)
					if p.isConst() && q.isConst() {
						ls.constExit = true
						ls.diff = q.k.sub(p.k).abs()
						ls.hasDiff = true
					} else if in.coarse {
						d := T.rng(st, T.Sub(q, p))
						ls.short = d.lo.finite() && d.hi.finite() && d.hi.sub(d.lo).le(ni(64)) && d.hi.abs().le(ni(128))
					}
				}
			}
		}
	}
	if v, ok := T.decide(st, cond); ok {
		if v {
			push(b, b.Succs[0], 0, st)
		} else {
			push(b, b.Succs[1], 1, st)
		}
		return
	}
	st2 := st.clone()
	st.g, st2.g = in.split(st, cond)
	if kb := in.keepBad(cond.dep); len(kb.bits) > 0 {
		st.pc = T.deps.or(st.pc, kb)
		st2.pc = st.pc
	}
	if T.assume(st, cond, true) {
		push(b, b.Succs[0], 0, st)
	}
	if T.assume(st2, cond, false) {
		push(b, b.Succs[1], 1, st2)
	}
}

// fromNext tells whether a condition is the "more" result of a range step.
func fromNext(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	_, ok = e.Tuple.(*ssa.Next)
	return ok
}

// one is a single-outcome result.
func (in *Interp) ret1(fr *Frame, st *State, v ssa.Value, x Val) []*State {
	in.set(st, fr, v, x)
	return []*State{st}
}

func (in *Interp) outcomes(fr *Frame, v ssa.Value, outs []Outcome) []*State {
	var r []*State
	for _, o := range outs {
		if v != nil {
			var x Val
			switch t := v.Type().(type) {
			case *types.Tuple:
				tv := &TupleV{vs: o.res}
				_ = t
				x = tv
			default:
				if len(o.res) > 0 {
					x = o.res[0]
				} else {
					x = &TupleV{}
				}
			}
			in.set(o.st, fr, v, x)
		}
		r = append(r, o.st)
	}
	return r
}

func (in *Interp) step(fr *Frame, st *State, ins ssa.Instruction) []*State {
	T := in.T
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		var c Val
		if a, ok := t.Underlying().(*types.Array); ok {
			_, _, isInt := in.intInfo(a.Elem())
			if isInt && a.Len() > 1<<16 {
				c = &BlobC{size: T.Int(a.Len() * int64(in.sizeof(a.Elem()))), dep: T.deps.empty, tag: T.zero}
			}
		}
		if c == nil {
			c = in.zero(t)
		}
		if !x.Heap {
			// a local is a fresh variable each time it is reached
			id := in.newID(fr.ctx, ssa.Instruction(x), "local")
			if old := st.obj(id); old == nil || !old.weak {
				st.setObj(&Obj{id: id, typ: t, c: c, site: in.posStr(x.Pos()), label: x.Comment})
				return in.ret1(fr, st, x, &PtrV{alts: []Loc{{obj: id}}})
			}
			return in.ret1(fr, st, x, &PtrV{alts: []Loc{{obj: id}}})
		}
		return in.ret1(fr, st, x, in.alloc(st, fr.ctx, ssa.Instruction(x), "new", t, c))
	case *ssa.BinOp:
		v, ok := in.binop(st, x.Op, in.get(st, fr, x.X), in.get(st, fr, x.Y), x.X.Type(), x.Y.Type())
		if !ok {
			return nil
		}
		return in.ret1(fr, st, x, v)
	case *ssa.UnOp:
		return in.unop(fr, st, x)
	case *ssa.ChangeType:
		return in.ret1(fr, st, x, in.get(st, fr, x.X))
	case *ssa.ChangeInterface:
		return in.ret1(fr, st, x, in.get(st, fr, x.X))
	case *ssa.Convert:
		return in.ret1(fr, st, x, in.convert(st, in.get(st, fr, x.X), x.X.Type(), x.Type(), fr, x))
	case *ssa.MultiConvert:
		return in.ret1(fr, st, x, in.convert(st, in.get(st, fr, x.X), x.X.Type(), x.Type(), fr, x))
	case *ssa.MakeInterface:
		return in.ret1(fr, st, x, &IfaceV{typ: x.X.Type(), v: in.get(st, fr, x.X)})
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, in.get(st, fr, b))
		}
		return in.ret1(fr, st, x, f)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		p := in.alloc(st, fr.ctx, ssa.Instruction(x), "map", x.Type(), &MapC{len: T.zero, kt: mt.Key(), vt: mt.Elem()})
		return in.ret1(fr, st, x, &MapV{obj: p.alts[0].obj})
	case *ssa.MakeChan:
		in.unsupported("channel")
		return in.ret1(fr, st, x, &ChanV{})
	case *ssa.MakeSlice:
		ln := in.get(st, fr, x.Len).(*Term)
		cp := in.get(st, fr, x.Cap).(*Term)
		et := x.Type().Underlying().(*types.Slice).Elem()
		es := int64(in.sizeof(et))
		if !in.require(st, "makeslice", T.GE0(ln), "make: length is not negative") {
			return nil
		}
		if cp != ln {
			if !in.require(st, "makeslice", T.LE(ln, cp), "make: length is at most the capacity") {
				return nil
			}
		}
		if !in.require(st, "makeslice", T.LE(cp, T.Const(pow2(47).floorDiv(ni(es)))), "make: length fits the address space") {
			return nil
		}
		loc := in.allocArr(st, fr.ctx, ssa.Instruction(x), "make", et, cp)
		return in.ret1(fr, st, x, &SliceV{alts: []SAlt{{loc: loc, off: T.zero, esz: int(es)}}, len: T.sv(st, ln), cap: T.sv(st, cp)})
	case *ssa.Field:
		s, ok := in.get(st, fr, x.X).(*StructC)
		if !ok {
			in.unsupported("field of an opaque value")
			return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("fld"), nil))
		}
		return in.ret1(fr, st, x, s.f[x.Field])
	case *ssa.FieldAddr:
		v := in.get(st, fr, x.X)
		if !in.notNil(st, v, "pointer") {
			return nil
		}
		p, ok := v.(*PtrV)
		if !ok {
			in.unsupported("field address")
			return nil
		}
		r := &PtrV{top: p.top, sel: p.sel}
		for _, l := range p.alts {
			r.alts = append(r.alts, l.ext(PE{f: x.Field}))
		}
		if p.mem != 0 {
			r.mem, r.memv = p.mem, p.memv
		}
		return in.ret1(fr, st, x, r)
	case *ssa.IndexAddr:
		return in.indexAddr(fr, st, x)
	case *ssa.Index:
		return in.index(fr, st, x)
	case *ssa.Slice:
		return in.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		s := in.get(st, fr, x.X).(*SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !in.require(st, "slice2arr", T.LE(T.Int(at.Len()), s.len), "slice is long enough for the array conversion") {
			return nil
		}
		// the array location is only exact when it starts at the backing array
		r := &PtrV{top: s.top}
		for _, a := range s.alts {
			if a.off != T.zero {
				in.unsupported("array pointer into the middle of an array")
				r.top = true
			}
			r.alts = append(r.alts, a.loc)
		}
		return in.ret1(fr, st, x, r)
	case *ssa.Store:
		v := in.get(st, fr, x.Addr)
		if !in.notNil(st, v, "pointer") {
			return nil
		}
		val := in.get(st, fr, x.Val)
		if t, ok := val.(*Term); ok {
			val = T.sv(st, t)
		}
		in.storePtrT(st, v.(*PtrV), val, x.Val.Type())
		return []*State{st}
	case *ssa.Lookup:
		return in.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m := in.get(st, fr, x.Map).(*MapV)
		if !in.notNil(st, m, "map written") {
			return nil
		}
		in.mapUpdate(st, m, in.get(st, fr, x.Key), in.get(st, fr, x.Value))
		return []*State{st}
	case *ssa.Range:
		switch m := in.get(st, fr, x.X).(type) {
		case *MapV:
			return in.ret1(fr, st, x, &IterV{mapObj: m.obj})
		}
		return in.ret1(fr, st, x, &IterV{})
	case *ssa.Next:
		return in.next(fr, st, x)
	case *ssa.Extract:
		tv, ok := in.get(st, fr, x.Tuple).(*TupleV)
		if !ok || x.Index >= len(tv.vs) {
			in.unsupported("extract")
			return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("xt"), nil))
		}
		return in.ret1(fr, st, x, tv.vs[x.Index])
	case *ssa.TypeAssert:
		return in.typeAssert(fr, st, x)
	case *ssa.Call:
		return in.outcomes(fr, x, in.call(st, fr, &x.Call, x))
	case *ssa.Defer:
		d := deferred{inst: x}
		if x.Call.IsInvoke() {
			d.fn = in.get(st, fr, x.Call.Value)
		} else {
			d.fn = in.get(st, fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.get(st, fr, a))
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
		return []*State{st}
	case *ssa.RunDefers:
		sts := []*State{st}
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range sts {
				for _, o := range in.callValues(s, fr, &ds[i].inst.Call, ds[i].fn, ds[i].args, ds[i].inst) {
					next = append(next, o.st)
				}
			}
			sts = next
		}
		return sts
	case *ssa.Go:
		f := in.get(st, fr, x.Call.Value)
		var args []Val
		for _, a := range x.Call.Args {
			args = append(args, in.get(st, fr, a))
		}
		if in.shareOn {
			in.share(st, f)
			for _, a := range args {
				in.share(st, a)
			}
		}
		if in.onGo != nil {
			if fv, ok := f.(*FuncV); ok {
				in.onGo(st, fr, fv, args, x)
			}
		}
		// the goroutine is followed for its own obligations; its effects on
		// shared objects are those of the same code run by any caller
		s2 := st.clone()
		for id := range in.locks { // locks are not inherited
			if s2.getTS(id) != 0 {
				s2.setTS(id, 0)
			}
		}
		outs := in.callValues(s2, fr, &x.Call, f, args, x)
		if in.onGoEnd != nil {
			in.onGoEnd(fr, outs, x)
		}
		return []*State{st}
	case *ssa.Send, *ssa.Select:
		in.unsupported(fmt.Sprintf("%T", ins))
		if v, ok := ins.(ssa.Value); ok {
			return in.ret1(fr, st, v, in.havoc(v.Type(), in.uniq("sel"), nil))
		}
		return []*State{st}
	}
	in.unsupported(fmt.Sprintf("instruction %T", ins))
	if v, ok := ins.(ssa.Value); ok {
		return in.ret1(fr, st, v, in.havoc(v.Type(), in.uniq("ins"), nil))
	}
	return []*State{st}
}

func (in *Interp) unop(fr *Frame, st *State, x *ssa.UnOp) []*State {
	T := in.T
	v := in.get(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		if !in.notNil(st, v, "pointer") {
			return nil
		}
		p, ok := v.(*PtrV)
		if !ok {
			in.unsupported("load")
			return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("ld"), nil))
		}
		r := in.loadPtr(st, p, x.Type())
		if t, ok := r.(*Term); ok {
			r = T.sv(st, t)
		}
		return in.ret1(fr, st, x, r)
	case token.NOT:
		return in.ret1(fr, st, x, T.Not(v.(*Term)))
	case token.SUB:
		t := v.(*Term)
		if isFloat(x.X.Type()) {
			return in.ret1(fr, st, x, T.App("fneg", ivTop, t))
		}
		w, s, _ := in.intInfo(x.X.Type())
		return in.ret1(fr, st, x, in.norm(st, T.Scale(t, nm1), w, s))
	case token.XOR:
		t := v.(*Term)
		w, s, _ := in.intInfo(x.X.Type())
		if s {
			return in.ret1(fr, st, x, T.Sub(T.Const(nm1), t))
		}
		return in.ret1(fr, st, x, T.Xor(t, T.Const(pow2(w).sub(n1))))
	case token.ARROW:
		in.unsupported("channel receive")
		return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("recv"), nil))
	}
	in.unsupported("unary " + x.Op.String())
	return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("un"), nil))
}

func (in *Interp) boundsOK(st *State, idx, n *Term) bool {
	T := in.T
	a, b := T.GE0(idx), T.LT(idx, n)
	va, oka := T.decide(st, a)
	vb, okb := T.decide(st, b)
	if oka && va && okb && vb {
		in.oblig("index", true, "")
		return true
	}
	msg := fmt.Sprintf("index %s may be outside 0..%s-1 (index in %s, length in %s)", idx, n, T.rng(st, idx), T.rng(st, n))
	in.emit(Event{kind: "index", ok: false, msg: msg})
	if oka && !va || okb && !vb {
		return false
	}
	return T.assume(st, a, true) && T.assume(st, b, true)
}

func (in *Interp) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) []*State {
	T := in.T
	idx := T.sv(st, in.get(st, fr, x.Index).(*Term))
	switch v := in.get(st, fr, x.X).(type) {
	case *SliceV:
		if !in.boundsOK(st, idx, v.len) {
			return nil
		}
		return in.ret1(fr, st, x, in.sliceElem(st, v, T.sv(st, idx)))
	case *PtrV:
		if !in.notNil(st, v, "array pointer") {
			return nil
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !in.boundsOK(st, idx, T.Int(at.Len())) {
			return nil
		}
		idx = T.sv(st, idx)
		r := &PtrV{top: v.top, sel: v.sel}
		es := in.sizeof(at.Elem())
		for _, l := range v.alts {
			r.alts = append(r.alts, l.ext(PE{-1, idx, es}))
		}
		return in.ret1(fr, st, x, r)
	}
	in.unsupported("index address")
	return nil
}

func (in *Interp) strLen(s *StrV) *Term {
	if l, ok := s.lit(); ok {
		return in.T.Int(int64(len(l)))
	}
	return in.T.App("strlen", Iv{n0, in.inputLen}, in.strTerm(s))
}

func (in *Interp) index(fr *Frame, st *State, x *ssa.Index) []*State {
	T := in.T
	idx := T.sv(st, in.get(st, fr, x.Index).(*Term))
	switch v := in.get(st, fr, x.X).(type) {
	case *ArrC:
		if !in.boundsOK(st, idx, v.n) {
			return nil
		}
		idx = T.sv(st, idx)
		if k, ok := idx.constVal(); ok && v.sum == nil {
			return in.ret1(fr, st, x, in.elem(v, int(k.i64())))
		}
		return in.ret1(fr, st, x, in.symElem(st, v, idx))
	case *StrV:
		if !in.boundsOK(st, idx, in.strLen(v)) {
			return nil
		}
		if l, ok := v.lit(); ok {
			if k, ok := idx.constVal(); ok {
				return in.ret1(fr, st, x, T.Int(int64(l[k.i64()])))
			}
		}
		return in.ret1(fr, st, x, T.App("strat", typeIv(8, false), in.strTerm(v), idx))
	}
	in.unsupported("index of an opaque value")
	return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("idx"), nil))
}

func (in *Interp) slice(fr *Frame, st *State, x *ssa.Slice) []*State {
	T := in.T
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return T.sv(st, in.get(st, fr, v).(*Term))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = T.zero
	}
	check := func(ln, cp *Term) bool {
		if hi == nil {
			hi = ln
		}
		lim := cp
		if mx != nil {
			if !in.require(st, "slice", T.LE(mx, cp), fmt.Sprintf("slice max %s within capacity %s", mx, cp)) {
				return false
			}
			lim = mx
		}
		if !in.require(st, "slice", T.LE(hi, lim), fmt.Sprintf("slice end %s within capacity %s", hi, lim)) {
			return false
		}
		if !in.require(st, "slice", T.LE(lo, hi), fmt.Sprintf("slice start %s at most end %s", lo, hi)) {
			return false
		}
		if !in.require(st, "slice", T.GE0(lo), fmt.Sprintf("slice start %s not negative", lo)) {
			return false
		}
		if mx == nil {
			mx = cp
		}
		return true
	}
	switch v := in.get(st, fr, x.X).(type) {
	case *SliceV:
		if !check(v.len, v.cap) {
			return nil
		}
		r := &SliceV{null: v.null, nt: v.nt, top: v.top, len: T.Sub(hi, lo), cap: T.Sub(mx, lo)}
		if r.null == nilMaybe {
			// a nil slice can only be sliced to nil
		}
		for _, a := range v.alts {
			a.off = T.Add(a.off, lo)
			r.alts = append(r.alts, a)
		}
		r.len, r.cap = T.sv(st, r.len), T.sv(st, r.cap)
		return in.ret1(fr, st, x, r)
	case *PtrV:
		if !in.notNil(st, v, "array pointer") {
			return nil
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := T.Int(at.Len())
		if !check(n, n) {
			return nil
		}
		r := &SliceV{top: v.top, len: T.Sub(hi, lo), cap: T.Sub(mx, lo)}
		for i, l := range v.alts {
			r.alts = append(r.alts, SAlt{loc: l, off: lo, esz: in.sizeof(at.Elem()), sel: v.selAt(i)})
		}
		return in.ret1(fr, st, x, r)
	case *StrV:
		n := in.strLen(v)
		if !check(n, n) {
			return nil
		}
		if l, ok := v.lit(); ok {
			if a, ok := lo.constVal(); ok {
				if b, ok := hi.constVal(); ok {
					return in.ret1(fr, st, x, litStr(l[a.i64():b.i64()], v.dep))
				}
			}
		}
		return in.ret1(fr, st, x, &StrV{parts: []StrPart{{t: T.App("substr", ivTop, in.strTerm(v), lo, hi), how: "str"}}, dep: v.dep})
	}
	in.unsupported("slice of an opaque value")
	return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("sl"), nil))
}

/* maps */

func (in *Interp) lookup(fr *Frame, st *State, x *ssa.Lookup) []*State {
	T := in.T
	if s, ok := in.get(st, fr, x.X).(*StrV); ok {
		idx := T.sv(st, in.get(st, fr, x.Index).(*Term))
		if !in.boundsOK(st, idx, in.strLen(s)) {
			return nil
		}
		if l, ok := s.lit(); ok {
			if k, ok := idx.constVal(); ok {
				return in.ret1(fr, st, x, T.Int(int64(l[k.i64()])))
			}
		}
		return in.ret1(fr, st, x, T.App("strat", typeIv(8, false), in.strTerm(s), idx))
	}
	m, ok := in.get(st, fr, x.X).(*MapV)
	mt := x.X.Type().Underlying().(*types.Map)
	if !ok {
		in.unsupported("lookup")
		return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("lk"), nil))
	}
	key := in.get(st, fr, x.Index)
	res := func(s *State, v Val, found bool) *State {
		if x.CommaOk {
			in.set(s, fr, x, &TupleV{vs: []Val{v, T.Bool(found)}})
		} else {
			in.set(s, fr, x, v)
		}
		return s
	}
	if m.null == nilYes {
		return []*State{res(st, in.zero(mt.Elem()), false)}
	}
	o := st.obj(m.obj)
	if o == nil {
		in.unsupported("lookup in an unknown map")
		return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("lk"), nil))
	}
	if in.onAccess != nil {
		in.onAccess(st, fr, x, o, Loc{obj: o.id}, false, false)
	}
	mc := o.c.(*MapC)
	var out []*State
	cur := st
	if m.null == nilMaybe && m.nt != nil {
		s2 := cur.clone()
		s2.g, cur.g = in.split(cur, m.nt)
		if T.assume(s2, m.nt, true) {
			out = append(out, res(s2, in.zero(mt.Elem()), false))
		}
		if !T.assume(cur, m.nt, false) {
			return out
		}
	}
	if in.gt != nil && !mc.open {
		// the value as a choice, without splitting the state
		v, f := Val(in.zero(mt.Elem())), T.zero
		for i := len(mc.ents) - 1; i >= 0; i-- {
			e := mc.ents[i]
			p := in.equal(cur, key, e.k, mt.Key())
			if d, ok := T.decide(cur, p); ok {
				p = T.Bool(d)
			}
			v, f = in.chooseVal(cur, p, e.v, v, mt.Elem()), T.Ite(p, T.one, f)
		}
		if x.CommaOk {
			return append(out, in.ret1(fr, cur, x, &TupleV{vs: []Val{v, f}})...)
		}
		return append(out, in.ret1(fr, cur, x, v)...)
	}
	for _, e := range mc.ents {
		p := in.equal(cur, key, e.k, mt.Key())
		v, ok := T.decide(cur, p)
		if ok && v {
			return append(out, res(cur, e.v, true))
		}
		if ok {
			continue
		}
		s2 := cur.clone()
		s2.g, cur.g = in.split(cur, p)
		if T.assume(s2, p, true) {
			out = append(out, res(s2, e.v, true))
		}
		if !T.assume(cur, p, false) {
			return out
		}
	}
	if mc.open {
		s2 := cur.clone()
		if v, ok := in.materialize(s2, m.obj, key); ok {
			out = append(out, res(s2, v, true))
		}
	}
	return append(out, res(cur, in.zero(mt.Elem()), false))
}

// materialize names an unknown element of an open map.
func (in *Interp) materialize(st *State, obj int, key Val) (Val, bool) {
	if in.onMaterialize != nil {
		return in.onMaterialize(st, obj, key)
	}
	o := st.obj(obj)
	mc := o.c.(*MapC)
	v := in.havoc(mc.vt, in.uniq("mapv"), in.T.deps.label("history"))
	n := *o
	nm := *mc
	nm.ents = append(nm.ents[:len(nm.ents):len(nm.ents)], MapEnt{key, v})
	n.c = &nm
	st.setObj(&n)
	return v, true
}

func (in *Interp) mapUpdate(st *State, m *MapV, key, val Val) {
	T := in.T
	o := st.obj(m.obj)
	if o == nil {
		in.unsupported("update of an unknown map")
		return
	}
	if in.onAccess != nil {
		in.onAccess(st, in.cur, in.curInstr, o, Loc{obj: o.id}, true, false)
	}
	mc := o.c.(*MapC)
	nm := *mc
	nm.ver++
	nm.ents = nil
	found := false
	may := false
	for _, e := range mc.ents {
		p := in.equal(st, key, e.k, mc.kt)
		v, ok := T.decide(st, p)
		if ok && v {
			found = true
			nm.ents = append(nm.ents, MapEnt{e.k, val})
			continue
		}
		if !ok {
			may = true
			if in.gt != nil {
				e.v = in.chooseVal(st, p, val, e.v, mc.vt)
			} else {
				e.v = mergeVals(in, st, e.v, val, mc.vt, in.uniq("mu"))
			}
		}
		nm.ents = append(nm.ents, e)
	}
	if !found {
		nm.ents = append(nm.ents, MapEnt{key, val})
		grow := T.AddK(mc.len, n1)
		if may || mc.open && !in.absent(st, mc, key) {
			nl := T.Leaf(in.uniq("maplen"), Iv{n0, nInf}, mc.len.dep)
			T.refine(st, T.Sub(nl, mc.len), Iv{n0, n1}, 1)
			grow = nl
			if r := T.rng(st, mc.len); r.hi.finite() {
				T.refine(st, nl, Iv{n1, r.hi.add(n1)}, 1)
			}
		}
		nm.len = grow
		if max := 24; len(nm.ents) > max && !(in.coarse && len(nm.ents) <= 1024) {
			in.unsupported("map with many entries")
			nm.ents = nm.ents[len(nm.ents)-24:]
			nm.open = true
		}
	}
	n := *o
	n.c = &nm
	st.setObj(&n)
	if in.shareOn && (o.shared || o.global) {
		in.share(st, key)
		in.share(st, val)
	}
	if in.onMapSet != nil {
		in.onMapSet(st, m.obj, key, val)
	}
}

func (in *Interp) absent(st *State, mc *MapC, key Val) bool { return false }

func (in *Interp) mapDelete(st *State, m *MapV, key Val) {
	T := in.T
	if m.null == nilYes {
		return
	}
	o := st.obj(m.obj)
	if o == nil {
		in.unsupported("delete from an unknown map")
		return
	}
	if in.onAccess != nil {
		in.onAccess(st, in.cur, in.curInstr, o, Loc{obj: o.id}, true, false)
	}
	mc := o.c.(*MapC)
	nm := *mc
	nm.ver++
	nm.ents = nil
	found, may := false, mc.open
	for _, e := range mc.ents {
		v, ok := T.decide(st, in.equal(st, key, e.k, mc.kt))
		if ok && v {
			found = true
			continue
		}
		if !ok {
			may = true
			nm.open = true
			continue // it may still be there: covered by open
		}
		nm.ents = append(nm.ents, e)
	}
	if found {
		nm.len = T.AddK(mc.len, nm1)
	} else if may {
		nl := T.Leaf(in.uniq("maplen"), Iv{n0, nInf}, mc.len.dep)
		T.refine(st, T.Sub(mc.len, nl), Iv{n0, n1}, 1)
		if r := T.rng(st, mc.len); r.hi.finite() {
			T.refine(st, nl, Iv{n0, r.hi}, 1)
		}
		nm.len = nl
	}
	n := *o
	n.c = &nm
	st.setObj(&n)
}

func (in *Interp) next(fr *Frame, st *State, x *ssa.Next) []*State {
	T := in.T
	it, ok := in.get(st, fr, x.Iter).(*IterV)
	tt := x.Type().(*types.Tuple)
	zeroAt := func(i int) Val {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return T.zero
		}
		return in.zero(tt.At(i).Type())
	}
	done := func(s *State) *State {
		in.set(s, fr, x, &TupleV{vs: []Val{T.zero, zeroAt(1), zeroAt(2)}})
		return s
	}
	if !ok || x.IsString {
		lab := T.deps.empty
		s2 := st.clone()
		in.set(s2, fr, x, &TupleV{vs: []Val{T.one, T.Leaf(in.uniq("ri"), typeIv(63, false), lab), T.Leaf(in.uniq("rr"), typeIv(21, false), lab)}})
		return []*State{done(st), s2}
	}
	if it.mapObj == 0 {
		return []*State{done(st)}
	}
	o := st.obj(it.mapObj)
	if o == nil {
		in.unsupported("range over an unknown map")
		return []*State{done(st)}
	}
	if in.onAccess != nil {
		in.onAccess(st, fr, x, o, Loc{obj: o.id}, false, false)
	}
	mc := o.c.(*MapC)
	lab := T.deps.label("maporder")
	// which element comes next depends on the iteration order
	var outs []*State
	pick := func(s *State, k, v Val) {
		if t, ok := k.(*Term); ok {
			k = T.AppD("ord", T.rng(s, t), lab, t)
			T.refine(s, T.Sub(k.(*Term), t), Iv{n0, n0}, 1)
		}
		if t, ok := v.(*Term); ok {
			v = T.AppD("ord", T.rng(s, t), lab, t)
		}
		in.set(s, fr, x, &TupleV{vs: []Val{T.one, k, v}})
		s.pc = T.deps.or(s.pc, in.keepBad(lab))
		outs = append(outs, s)
	}
	for _, e := range mc.ents {
		pick(st.clone(), e.k, e.v)
	}
	if mc.open {
		s2 := st.clone()
		var key Val
		if in.iterKey != nil {
			key = in.iterKey(s2, it.mapObj)
		}
		if key == nil {
			key = in.havoc(mc.kt, in.uniq("mapk"), lab)
		}
		named := false
		for _, e := range mc.ents {
			if sameVal(e.k, key) {
				named = true // one symbolic entry stands for all of them
			}
		}
		if named {
		} else if v, ok := in.materialize(s2, it.mapObj, key); ok {
			pick(s2, key, v)
		}
	}
	started := it.started
	if !started {
		ni := *it
		ni.started = true
		for _, s := range append(outs[:len(outs):len(outs)], st) {
			in.set(s, fr, x.Iter, &ni)
		}
		if r := T.rng(st, mc.len); r.lo.sign() > 0 {
			return outs // a non-empty map gives an element first
		}
	}
	return append(outs, done(st))
}

func (in *Interp) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []*State {
	T := in.T
	v, ok := in.get(st, fr, x.X).(*IfaceV)
	if !ok {
		in.unsupported("type assertion")
		return in.ret1(fr, st, x, in.havoc(x.Type(), in.uniq("ta"), nil))
	}
	set := func(s *State, val Val, ok bool) *State {
		if x.CommaOk {
			in.set(s, fr, x, &TupleV{vs: []Val{val, T.Bool(ok)}})
		} else {
			in.set(s, fr, x, val)
		}
		return s
	}
	zero := in.zero(x.AssertedType)
	if n, ok := in.isNil(st, v.null, v.nt); ok && n {
		if x.CommaOk {
			return []*State{set(st, zero, false)}
		}
		in.oblig("assert", false, "type assertion on a nil interface")
		return nil
	}
	if v.typ != nil && v.null == nilNo {
		match := false
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(v.typ, it)
		} else {
			match = types.Identical(v.typ, x.AssertedType)
		}
		if match {
			in.oblig("assert", true, "")
			if types.IsInterface(x.AssertedType) {
				return []*State{set(st, v, true)}
			}
			return []*State{set(st, v.v, true)}
		}
		if x.CommaOk {
			return []*State{set(st, zero, false)}
		}
		in.oblig("assert", false, fmt.Sprintf("%s is not %s", v.typ, x.AssertedType))
		return nil
	}
	// unknown dynamic type
	if !x.CommaOk {
		in.oblig("assert", false, "type assertion on an unknown type")
	}
	var outs []*State
	s2 := st.clone()
	var val Val
	if types.IsInterface(x.AssertedType) {
		c := *v
		c.null, c.nt = nilNo, nil
		val = &c
	} else {
		val = in.havoc(x.AssertedType, in.uniq("ta"), in.valDep(v))
	}
	outs = append(outs, set(s2, val, true))
	if x.CommaOk {
		outs = append(outs, set(st, zero, false))
	}
	return outs
}

/* calls */

func (in *Interp) call(st *State, fr *Frame, c *ssa.CallCommon, site ssa.Instruction) []Outcome {
	f := in.get(st, fr, c.Value)
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.get(st, fr, a)
		if t, ok := args[i].(*Term); ok {
			args[i] = in.T.sv(st, t)
		}
	}
	return in.callValues(st, fr, c, f, args, site)
}

func (in *Interp) callValues(st *State, fr *Frame, c *ssa.CallCommon, f Val, args []Val, site ssa.Instruction) []Outcome {
	if c.IsInvoke() {
		iv, ok := f.(*IfaceV)
		if !ok {
			in.unsupported("method call on an opaque value")
			return in.havocSig(st, fr, c.Signature(), args, site, "method")
		}
		if !in.notNil(st, iv, "interface "+c.Method.Name()+" is called on") {
			return nil
		}
		if iv.typ == nil {
			return in.invokeUnknown(st, fr, iv, c.Method, args, site)
		}
		m := in.P.SSA.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			in.unsupported("method " + c.Method.Name() + " of " + iv.typ.String())
			return in.havocSig(st, fr, c.Signature(), args, site, c.Method.Name())
		}
		return in.callFn(st, fr, m, append([]Val{iv.v}, args...), nil, site)
	}
	fv, ok := f.(*FuncV)
	if !ok {
		in.unsupported("call of an opaque value")
		return in.havocSig(st, fr, c.Signature(), args, site, "opaque")
	}
	if fv.bi != nil {
		return in.builtin(st, fr, fv.bi, c, args, site)
	}
	if !in.notNil(st, fv, "function") {
		return nil
	}
	if len(fv.alts) > 0 {
		var outs []Outcome
		for _, a := range fv.alts {
			outs = append(outs, in.callFn(st.clone(), fr, a.fn, args, a.binds, site)...)
		}
		return outs
	}
	if fv.fn == nil {
		in.unsupported("call through an unknown function value")
		return in.havocSig(st, fr, c.Signature(), args, site, "unknown")
	}
	return in.callFn(st, fr, fv.fn, args, fv.binds, site)
}

func (in *Interp) havocSig(st *State, fr *Frame, sig *types.Signature, args []Val, site ssa.Instruction, name string) []Outcome {
	d := in.T.deps.label("ext:" + name)
	for _, a := range args {
		d = in.T.deps.or(d, in.deepDep(st, a))
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, in.havoc(sig.Results().At(i).Type(), fmt.Sprintf("%s.%d", in.uniq("x:"+name), i), d))
	}
	return []Outcome{{st, res}}
}

func (in *Interp) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.Instruction) []Outcome {
	T := in.T
	one := func(v Val) []Outcome { return []Outcome{{st, []Val{v}}} }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			t := x.len
			if b.Name() == "cap" {
				t = x.cap
			}
			return one(T.sv(st, t))
		case *StrV:
			return one(in.strLen(x))
		case *MapV:
			if x.null == nilYes {
				return one(T.zero)
			}
			if o := st.obj(x.obj); o != nil {
				if in.onAccess != nil {
					in.onAccess(st, fr, site, o, Loc{obj: o.id}, false, false)
				}
				l := o.c.(*MapC).len
				if x.null == nilMaybe && x.nt != nil {
					l = T.Ite(x.nt, T.zero, l)
				}
				return one(T.sv(st, l))
			}
		case *ArrC:
			return one(x.n)
		case *PtrV:
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(T.Int(a.Len()))
				}
			}
		}
		in.unsupported(b.Name())
		return one(T.Leaf(in.uniq("len"), Iv{n0, in.inputLen}, nil))
	case "append":
		dst, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		src, ok := args[1].(*SliceV)
		if !ok {
			if s, isS := args[1].(*StrV); isS {
				src = in.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), fr, site).(*SliceV)
			} else {
				break
			}
		}
		return in.appendSlice(st, fr, dst, src, et, site)
	case "copy":
		dst, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		src, ok := args[1].(*SliceV)
		if !ok {
			if s, isS := args[1].(*StrV); isS {
				src = in.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), fr, site).(*SliceV)
			} else {
				break
			}
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := in.minTerm(st, T.sv(st, dst.len), T.sv(st, src.len))
		in.copyElems(st, dst, src, et, n)
		return one(n)
	case "delete":
		in.mapDelete(st, args[0].(*MapV), args[1])
		return []Outcome{{st, nil}}
	case "print", "println":
		return []Outcome{{st, nil}}
	case "recover":
		return one(&IfaceV{null: nilYes})
	case "panic":
		in.emit(Event{kind: "panic", ok: false, msg: "explicit panic reached"})
		return nil
	case "ssa:wrapnilchk":
		if !in.notNil(st, args[0], "receiver") {
			return nil
		}
		return one(args[0])
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y, ok := a.(*Term)
			if !ok || isFloat(c.Args[0].Type()) {
				in.unsupported(b.Name())
				return one(in.havoc(c.Args[0].Type(), in.uniq("mm"), nil))
			}
			if b.Name() == "min" {
				r = in.minTerm(st, r, y)
			} else if v, ok := T.decide(st, T.LE(r, y)); ok {
				if v {
					r = y
				}
			} else {
				r = T.Ite(T.LE(r, y), y, r)
			}
		}
		return one(r)
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if n, ok := T.sv(st, s.len).constVal(); ok && n.le(ni(in.blobLimit)) {
				for i := int64(0); i < n.i64(); i++ {
					in.storePtr(st, in.sliceElem(st, s, T.Int(i)), in.zero(et))
				}
				return []Outcome{{st, nil}}
			}
		}
	case "String", "StringData", "Slice", "SliceData", "Add":
	}
	in.unsupported("builtin " + b.Name())
	sig := c.Signature()
	return in.havocSig(st, fr, sig, args, site, b.Name())
}
