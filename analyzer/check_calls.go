package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07 and C08: what a call does with memory that outlives it.

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
}

// callRuns analyses every entry with the client shared and hands the run over.
func callRuns(p *Program, rep *Report, prop string, cfg func(e entry) RunCfg, acc func(cr *cacheRun, st *State, fr *Frame, ins ssa.Instruction, o *Obj, loc Loc, write bool), f func(cr *cacheRun)) {
	expectEntries(p, rep)
	js := jobs(p, cfg)
	parallel(len(js), func(i int) {
		c := js[i].cfg
		var self *cacheRun
		cr := p.clientRunW(js[i].e, c, prop, func(cr *cacheRun) {
			self = cr
			cr.also = func(st *State, fr *Frame, ins ssa.Instruction, o *Obj, loc Loc, write bool) {
				acc(cr, st, fr, ins, o, loc, write)
			}
		})
		_ = self
		if cr.abort == "" && len(cr.outs) > 0 {
			cr.abort = cr.in.guard(func() { f(cr) })
		}
		cr.cover(rep)
		rep.count("runs", 1)
		if len(cr.outs) == 0 && cr.abort == "" {
			rep.undecided(cr.e.String() + ": no outcome")
		}
	})
}

// instances of findings at an instruction
func (cr *cacheRun) at(key string, fr *Frame, ins ssa.Instruction, what string) Finding {
	f := Finding{Key: key, Func: "?", What: what}
	var ctx *Ctx
	if fr != nil {
		f.Func, ctx = fnName(fr.fn), fr.ctx
		f.Key = key + " " + fnKey(fr.fn)
		f.Where = cr.in.posStr(fr.fn.Pos())
	}
	if ins != nil && ins.Pos() != 0 {
		f.Where = cr.in.posStr(ins.Pos())
	}
	f.Trace = cr.trace(Event{ctx: ctx})
	return f
}

// kept lists the objects that outlive the call: what the client, package-level
// variables and other goroutines reach.
func (cr *cacheRun) kept(st *State) map[int]bool {
	var roots []Val
	st.mem.Each(func(k uint64, o *Obj) bool {
		if (o.global || o.shared) && !o.input {
			roots = append(roots, &PtrV{alts: []Loc{{obj: int(k)}}})
		}
		return true
	})
	bare := &State{mem: st.mem}
	return cr.in.reach(bare, append(roots, cr.client))
}

func argName(r *Run, id int) string {
	for i, a := range r.args {
		if s, ok := a.(*SliceV); ok && len(s.alts) == 1 && s.alts[0].loc.obj == id {
			return fmt.Sprintf("argument %d", i)
		}
	}
	return "an argument"
}

func checkC07(p *Program, rep *Report) {
	rep.Rule = "Points-to and effect analysis by abstract interpretation of every entry point with slices of arbitrary length, capacity and contents: every store, copy, append in place and library write reachable from the entry is checked against the memory of the arguments (spare capacity included); after the call no argument memory may be reachable from the client, a package-level variable or a goroutine; the memory behind every returned slice must be allocated by the call, be unreachable from everything that outlives the call, and be disjoint (up to its capacity) from the other results and the arguments."
	rep.Assume = commonAssumptions
	callRuns(p, rep, "C07", func(e entry) RunCfg { return RunCfg{} },
		func(cr *cacheRun, st *State, fr *Frame, ins ssa.Instruction, o *Obj, loc Loc, write bool) {
			if !o.input {
				return
			}
			if !write {
				rep.count("reads of argument memory", 1)
				return
			}
			rep.fail("argument written", cr.at("argument written", fr, ins, argName(cr.Run, o.id)+" (or the spare capacity behind it) is written"))
		},
		func(cr *cacheRun) {
			in := cr.in
			sh := shapeOfResults(cr.Run)
			fr := &Frame{fn: cr.fn}
			for _, ev := range in.events {
				if !ev.ok && ev.kind == "romap" {
					rep.undecided("write to read-only memory")
				}
			}
			for _, o := range cr.outs {
				live := cr.kept(o.st)
				bad := ""
				for id := range live {
					if x := o.st.obj(id); x != nil && x.input {
						bad = argName(cr.Run, id)
					}
				}
				rep.check("no argument retained", bad == "", cr.at("argument retained", fr, nil, bad+" is still referenced by the client, a package variable or a goroutine after the call"))
				type res struct {
					i int
					s *SliceV
				}
				var rs []res
				for _, d := range sh.digests {
					s, ok := o.res[d].(*SliceV)
					if !ok {
						continue
					}
					if s.top {
						rep.undecided(fmt.Sprintf("%s: the memory of result %d is not tracked", cr.e, d))
						continue
					}
					if good := in.condNil(o.st, s, false); good == nil {
						continue
					}
					rs = append(rs, res{d, s})
					for _, a := range s.alts {
						x := o.st.obj(a.loc.obj)
						if x == nil {
							continue
						}
						rep.check("result is not an argument", !x.input, cr.at("result aliases argument", fr, nil, fmt.Sprintf("result %d shares memory with %s", d, argName(cr.Run, x.id))))
						rep.check("result is fresh", !live[x.id] && !x.shared && !x.global, cr.at("result retained", fr, nil, fmt.Sprintf("result %d shares memory with state the library keeps (%s allocated at %s)", d, x.label, x.site)))
					}
				}
				for i, a := range rs {
					for _, b := range rs[:i] {
						what := ""
						for _, x := range a.s.alts {
							for _, y := range b.s.alts {
								if x.loc.obj == y.loc.obj && !in.disjoint(o.st, a.s, x, b.s, y) {
									what = o.st.obj(x.loc.obj).site
								}
							}
						}
						rep.check("results are disjoint", what == "", cr.at("results share memory", fr, nil, fmt.Sprintf("results %d and %d share the memory allocated at %s", b.i, a.i, what)))
					}
				}
			}
			rep.sample("%s: %d outcomes", cr.e, len(cr.outs))
		})
}

// disjoint tells whether two views of the same object cannot overlap.
func (in *Interp) disjoint(st *State, a *SliceV, x SAlt, b *SliceV, y SAlt) bool {
	if len(x.loc.path) != 0 || len(y.loc.path) != 0 {
		if len(x.loc.path) > 0 && len(y.loc.path) > 0 && x.loc.path[0].f != y.loc.path[0].f {
			return true
		}
		if !x.loc.eq(y.loc) {
			return false
		}
	}
	T := in.T
	sa, sb := ni(int64(x.esz)), ni(int64(y.esz))
	ao, bo := T.Scale(x.off, sa), T.Scale(y.off, sb)
	before := func(o, c *Term, s N, o2 *Term) bool {
		v, ok := T.decide(st, T.LE(T.Add(o, T.Scale(c, s)), o2))
		return ok && v
	}
	return before(ao, a.cap, sa, bo) || before(bo, b.cap, sb, ao)
}

// plainLabel tells whether a provenance label names an argument of the call
// under analysis, or something fixed.
func plainLabel(l string) bool {
	return strings.HasPrefix(l, "in:") || strings.HasPrefix(l, "len:") || l == "config"
}

// impure labels are sources of variation between calls with equal arguments.
var impure = map[string]string{
	"time": "the time", "rand": "random numbers", "env": "the environment or machine",
	"history": "earlier calls", "maporder": "the iteration order of a map", "file": "file contents",
}

func checkC08(p *Program, rep *Report) {
	rep.Rule = "Non-interference by data and control provenance: in the abstract interpretation of every entry point each value carries the set of sources it was computed from (including sources that decided a branch it depends on): arguments, configuration, time, randomness, environment, file contents, map order, earlier calls. Memory that outlives a call and that any call writes (client fields, package variables, what they reach) is given arbitrary contents labelled 'earlier calls', repeatedly until no further written memory is found. No returned value may carry a source other than arguments and configuration. The cache a DAG client obtains is a function of the epoch alone (C11)."
	rep.Assume = append(append([]string{}, commonAssumptions...), "goroutine scheduling is covered by C10 (no unsynchronised shared memory) and C11 (cache contents)")
	callRuns(p, rep, "C08", func(e entry) RunCfg { return RunCfg{} },
		func(cr *cacheRun, st *State, fr *Frame, ins ssa.Instruction, o *Obj, l Loc, write bool) {
			if !write || !(o.shared || o.global) || o.input {
				return
			}
			if cr.wrote == nil {
				cr.wrote, cr.wroteF = map[int]bool{}, map[[2]int]bool{}
			}
			cr.wrote[o.id] = true
			f := -1
			if len(l.path) > 0 {
				f = l.path[0].f
			}
			cr.wroteF[[2]int{o.id, f}] = true
		},
		func(cr *cacheRun) {
			in := cr.in
			cr.pure(rep)
			first := cr.outs
			for round := 0; len(cr.wrote) > 0 && round < 3; round++ {
				n := len(cr.wrote)
				for i, o := range first {
					if i >= 6 {
						break
					}
					// a later call in arbitrary written state
					st := o.st.clone()
					args := cr.newArgs(st, round*100+i)
					for id := range cr.wrote {
						in.forget(st, id, cr)
					}
					rep.list("memory written across calls", in.locNames(st, cr.wrote))
					fr := &Frame{fn: cr.p.pkg(cr.e.pkg).Func("init"), ctx: in.ctx(nil, "later call", round*100+i)}
					cr.outs = in.callFn(st, fr, cr.fn, args, nil, nil)
					if len(cr.outs) > 0 && round == 0 && i == 0 {
						defer func(o []Outcome) { cr.outs = o }(cr.outs)
					}
					cr.pure(rep)
				}
				if len(cr.wrote) == n {
					break
				}
			}
			rep.sample("%s: %d written shared objects", cr.e, len(cr.wrote))
		})
}

func (in *Interp) locNames(st *State, ids map[int]bool) string {
	m := map[string]bool{}
	for id := range ids {
		if o := st.obj(id); o != nil {
			m[in.locName(o, Loc{obj: id})] = true
		}
	}
	return strings.Join(sortedKeys(m), ", ")
}

// pure checks the provenance of the results.
func (cr *cacheRun) pure(rep *Report) {
	in := cr.in
	fr := &Frame{fn: cr.fn}
	for _, o := range cr.outs {
		d := in.keepBad(o.st.pc)
		for _, v := range o.res {
			if iv, ok := v.(*IfaceV); ok {
				d = in.T.deps.or(d, in.keepBad(in.valDep(iv)))
				continue
			}
			d = in.T.deps.or(d, in.keepBad(in.deepDep(o.st, v)))
		}
		var bad []string
		for _, l := range in.T.deps.names(d) {
			if s, ok := impure[l]; ok {
				bad = append(bad, s)
			} else {
				rep.undecided(fmt.Sprintf("%s: a result depends on %s", cr.e, l))
			}
		}
		rep.check("results depend on arguments and configuration only", len(bad) == 0, cr.at("impure", fr, nil, "a result may depend on "+strings.Join(bad, " and ")))
	}
}

// newArgs makes arguments for a later call: other memory with the same
// symbolic contents; the memory of the first call belongs to the history.
func (cr *cacheRun) newArgs(st *State, n int) []Val {
	in := cr.in
	var out []Val
	for i, a := range cr.args {
		if s, ok := a.(*SliceV); ok && len(s.alts) == 1 {
			if o := st.obj(s.alts[0].loc.obj); o != nil && o.input {
				id := in.newID(nil, fmt.Sprintf("later input %d", i), fmt.Sprint(n))
				no := *cr.st0.obj(o.id)
				no.id = id
				st.setObj(&no)
				old := *o
				old.input, old.shared = false, true
				st.setObj(&old)
				if cr.wrote != nil && cr.kept(st)[o.id] {
					cr.wrote[o.id] = true
				}
				r := *s
				r.alts = []SAlt{s.alts[0]}
				r.alts[0].loc = Loc{obj: id}
				out = append(out, &r)
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

// forget replaces the contents of an object that calls write by arbitrary
// contents labelled as history, and so for everything the calls put there.
func (in *Interp) forget(st *State, id int, cr *cacheRun) {
	T := in.T
	lab := T.deps.label("history")
	seen := map[int]bool{}
	var obj func(id int)
	var val func(v Val, t types.Type, name string) Val
	obj = func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o == nil || o.input {
			return
		}
		n := *o
		name := fmt.Sprintf("hist%d", id)
		n.c = val(o.c, o.typ, name)
		if sc, ok := o.c.(*StructC); ok && in.existed(cr, id) && !cr.wroteF[[2]int{id, -1}] {
			// only the fields that calls write
			r := *sc
			r.f = append([]Val{}, sc.f...)
			for i := range r.f {
				if cr.wroteF[[2]int{id, i}] {
					r.f[i] = n.c.(*StructC).f[i]
				}
			}
			n.c = &r
		}
		n.shared = n.shared || !n.global
		st.setObj(&n)
	}
	val = func(v Val, t types.Type, name string) Val {
		switch x := v.(type) {
		case *Term:
			return T.Leaf(name, x.iv.hull(typeRange(in, t)), lab)
		case *StrV:
			return &StrV{parts: []StrPart{{t: T.Leaf(name, ivTop, lab), how: "str"}}, dep: lab}
		case *PtrV:
			r := *x
			for _, a := range x.alts {
				if !cr.owner[a.obj] && !in.before(cr, a.obj) {
					obj(a.obj)
				}
			}
			if r.null != nilNo {
				r.null, r.nt = nilMaybe, T.Leaf(name+".nil", Iv{n0, n1}, lab)
			}
			return &r
		case *SliceV:
			r := *x
			for _, a := range x.alts {
				if !in.before(cr, a.loc.obj) {
					obj(a.loc.obj)
				}
			}
			r.len = T.Leaf(name+".len", Iv{n0, in.inputLen}, lab)
			r.cap = T.Leaf(name+".cap", Iv{n0, in.inputLen}, lab)
			T.assume(st, T.LE(r.len, r.cap), true)
			if r.null != nilNo {
				r.null, r.nt = nilMaybe, T.Leaf(name+".nil", Iv{n0, n1}, lab)
			}
			return &r
		case *MapV:
			obj(x.obj)
			return x
		case *IfaceV:
			r := *x
			if x.v != nil && x.typ != nil {
				r.v = val(x.v, x.typ, name)
			}
			return &r
		case *StructC:
			if !in.structIn(t) {
				return x
			}
			s, _ := under(t).(*types.Struct)
			r := &StructC{}
			for i, f := range x.f {
				var ft types.Type
				if s != nil && i < s.NumFields() {
					ft = s.Field(i).Type()
				}
				r.f = append(r.f, val(f, ft, fmt.Sprintf("%s.%d", name, i)))
			}
			return r
		case *ArrC:
			if n, ok := x.n.constVal(); ok && n.le(ni(4096)) {
				r := &ArrC{n: x.n, et: x.et, def: x.def}
				if r.def == nil {
					r.def = in.zero(x.et)
				}
				for i := uint64(0); i < uint64(n.i64()); i++ {
					e, ok := x.elems.Get(i)
					if !ok {
						e = in.arrSum(x)
					}
					r.elems = r.elems.Set(i, val(e, x.et, fmt.Sprintf("%s[%d]", name, i)))
				}
				return r
			}
			return &ArrC{n: x.n, et: x.et, sum: val(in.arrSum(x), x.et, name+"[]"), ver: T.Leaf(name+".ver", ivTop, lab)}
		case *BlobC:
			r := *x
			r.tag, r.dep = T.Leaf(name+".data", ivTop, lab), lab
			return &r
		case *MapC:
			return &MapC{open: true, len: T.Leaf(name+".maplen", Iv{n0, nInf}, lab), kt: x.kt, vt: x.vt, ver: x.ver + 1}
		case *NatC:
			if x.kind == "hash" {
				r := *x
				r.dep = lab
				tag := T.Leaf(name+".state", ivTop, lab)
				n := T.Leaf(name+".n", Iv{n0, nInf}, lab)
				r.b = encRuns(in, []run{{tag: tag, off: T.zero, n: n}})
				return &r
			}
			r := *x
			r.dep = lab
			if r.t != nil {
				r.t = T.Leaf(name+".nat", ivTop, lab)
			}
			return &r
		}
		return v
	}
	obj(id)
}

// before tells whether an object existed before the call and was not written.
func (in *Interp) before(cr *cacheRun, id int) bool {
	return in.existed(cr, id) && !cr.wrote[id]
}

func (in *Interp) existed(cr *cacheRun, id int) bool { return cr.st0.obj(id) != nil }

// structIn is false for structs of the sync packages, whose state is tracked.
func (in *Interp) structIn(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	return true
}

func typeRange(in *Interp, t types.Type) Iv {
	if t != nil {
		if w, s, ok := in.intInfo(t); ok {
			return typeIv(w, s)
		}
		if isBool(t) {
			return Iv{n0, n1}
		}
	}
	return ivTop
}
