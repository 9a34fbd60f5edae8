package main

import (
	"fmt"
	"math/big"
)

func init() { checks["C17"] = checkC17 }

// dagRun constructs a client and calls a method of its DAG with the given arguments.
func (p *Program) dagRun(e entry, cfg RunCfg, method string, mk func(in *Interp, st *State) []Val) *Run {
	in := newInterp(p)
	r := &Run{e: e, p: p, in: in}
	if cfg.unroll > 0 {
		in.unroll = cfg.unroll
	}
	r.abort = in.guard(func() {
		st, cl, _ := in.construct(e)
		r.client = cl
		r.nInit = len(in.events)
		d := in.dagOf(st, cl, r)
		r.fn = p.dagFn(method)
		if d == nil || r.fn == nil {
			in.abort("no DAG method " + method)
		}
		if cfg.setup != nil {
			cfg.setup(in)
		}
		in.dagV = d
		r.args = append([]Val{d}, mk(in, st)...)
		r.st0 = st.clone()
		r.outs = in.callFn(st, nil, r.fn, r.args, nil, nil)
	})
	return r
}

// recall calls a DAG method again from the constructed state; it returns the
// outcomes and the events of the call.
func (r *Run) recall(fn string, mk func(st *State) []Val) (outs []Outcome, evs []Event, abort string) {
	in := r.in
	n := len(in.events)
	st := r.st0.clone()
	abort = in.guard(func() {
		outs = in.callFn(st, nil, r.p.dagFn(fn), append([]Val{r.args[0]}, mk(st)...), nil, nil)
	})
	evs = append(evs, in.events[n:]...)
	in.events = in.events[:n]
	return
}

type sizeSpec struct {
	cacheInit, cacheGrowth, dataInit, dataGrowth, mix int64
}

// sizeSpecs are the published size parameters, independent of the code.
var sizeSpecs = map[string]sizeSpec{
	"NewEthereum":        {1 << 24, 1 << 17, 1 << 30, 1 << 23, 128},
	"NewEthereumClassic": {1 << 24, 1 << 17, 1 << 30, 1 << 23, 128},
	"NewRavencoin":       {1 << 24, 1 << 17, 1 << 30, 1 << 23, 128},
	"NewFiro":            {1 << 24, 1 << 17, 3 << 29, 1 << 23, 128},
	"NewConflux":         {1 << 24, 1 << 16, 1 << 32, 1 << 24, 256},
}

// sizeOracle computes the formula for one epoch.
func sizeOracle(init, growth, unit, epoch int64) int64 {
	n := (init+growth*epoch)/unit - 1
	for !big.NewInt(n).ProbablyPrime(0) {
		n -= 2
	}
	return n * unit
}

// subst replaces one leaf by a term in a linear term or a quotient of one.
func (T *Terms) subst(t, h, v *Term) (*Term, bool) {
	if t == h {
		return v, true
	}
	switch t.op {
	case OConst:
		return t, true
	case OLin:
		args, co, k := linParts(t)
		out := T.Const(k)
		for i, a := range args {
			x, ok := T.subst(a, h, v)
			if !ok {
				return nil, false
			}
			out = T.Add(out, T.Scale(x, co[i]))
		}
		return out, true
	}
	found := false
	closure([]*Term{t}, func(x *Term) { found = found || x == h })
	return t, !found
}

// summary decides whether the result of an outcome is what the formula's loop
// computes: the value starts at start, goes down by two rows while the number
// of rows is not prime, and is returned once it is.
func (r *Run) summary(o Outcome, evs []Event, start *Term, unit int64) bool {
	in, T := r.in, r.in.T
	res, ok := o.res[0].(*Term)
	if !ok {
		return false
	}
	pr := T.App("prime", Iv{n0, n1}, T.Div(res, T.Int(unit), true))
	if v, ok := T.decide(o.st, pr); !ok || !v {
		return false
	}
	for _, ev := range evs {
		li, ok := ev.data.(*loopInfo)
		if !ok {
			continue
		}
		names := map[string]bool{}
		for n := range li.lp.cells {
			names[n] = true
		}
		type cand struct{ h, e, b *Term }
		cs := []cand{{li.lp.k, T.zero, T.AddK(li.lp.k, n1)}}
		for _, n := range sortedKeys(names) {
			c := li.lp.cells[n]
			if c.h == nil || c.h.op != OLeaf || c.h == li.lp.k {
				continue
			}
			if e, b := in.cellAt(li.E, n), in.cellAt(li.B, n); e != nil && b != nil {
				cs = append(cs, cand{c.h, e, b})
			}
		}
		for _, c := range cs {
			used := false
			closure([]*Term{res}, func(x *Term) { used = used || x == c.h })
			if !used {
				continue
			}
			re, ok1 := T.subst(res, c.h, c.e)
			rb, ok2 := T.subst(res, c.h, c.b)
			if !ok1 || !ok2 || re != start {
				continue
			}
			next := T.AddK(res, ni(-2*unit))
			if rb != next && rb != in.norm(li.B, next, 64, false) {
				continue
			}
			if v, ok := T.decide(li.B, pr); ok && !v {
				return true
			}
		}
	}
	return false
}

func checkC17(p *Program, rep *Report) {
	rep.Rule = "CacheSize and DatasetSize of every shipped DAG configuration are evaluated abstractly on the state the constructor leaves. Over ranges of epochs the loop is summarised symbolically: the returned value must be the loop variable that starts at init + growth*epoch - unit, decreases by 2*unit exactly while the row count is not prime, and is returned when it is. Ranges for which that does not hold (the tables) are split down to single epochs, whose value is found by constant propagation through the lookup and compared with an independent computation of the formula; every index must be proved inside the table."
	rep.Assume = append(commonAssumptions, "big.Int.ProbablyPrime is exact below 2^64 (documented)")
	type job struct {
		e      entry
		method string
		spec   [3]int64
	}
	var js []job
	for _, e := range p.entries() {
		if !isDag(e) {
			continue
		}
		s, ok := sizeSpecs[e.ctor]
		if !ok {
			rep.undecided(e.String() + ": no published size parameters")
			continue
		}
		js = append(js, job{e, "CacheSize", [3]int64{s.cacheInit, s.cacheGrowth, 64}}, job{e, "DatasetSize", [3]int64{s.dataInit, s.dataGrowth, s.mix}})
	}
	if len(js) < 10 {
		rep.fail("entry points", Finding{Key: "entries", Where: p.Repo, Func: "?", What: fmt.Sprintf("only %d DAG clients found", len(js)/2)})
	}
	parallel(len(js), func(i int) {
		j := js[i]
		init, growth, unit := j.spec[0], j.spec[1], j.spec[2]
		r := p.dagRun(j.e, RunCfg{}, j.method, func(in *Interp, st *State) []Val { return []Val{in.T.Int(0)} })
		r.cover(rep)
		if r.abort != "" {
			return
		}
		in, T := r.in, r.in.T
		fn, pos := fnName(r.fn), in.posStr(r.fn.Pos())
		what := j.e.pkg + "." + j.e.ctor + " " + j.method
		consts, sym := 0, 0
		limit := 7000
		if rep.Tier == "thorough" {
			limit = 100000
		}
		symbolic := func(lo, hi int64) bool {
			in.noPeel = true
			var ep *Term
			outs, evs, abort := r.recall(j.method, func(st *State) []Val {
				ep = T.Leaf("epoch", Iv{ni(lo), ni(hi)}, nil)
				return []Val{ep}
			})
			in.noPeel = false
			start := T.AddK(T.Scale(ep, ni(growth)), ni(init-unit))
			good := abort == "" && len(outs) > 0
			for _, ev := range evs {
				if !ev.ok && ev.kind != "loop" || ev.kind == "unsupported" {
					good = false
				}
			}
			for _, o := range outs {
				good = good && r.summary(o, evs, start, unit)
			}
			if good {
				sym++
				rep.count("epochs covered by a symbolic summary", int(hi-lo+1))
				rep.okN("symbolic range", 1)
				rep.list("symbolic ranges", fmt.Sprintf("%s [%d,%d]", what, lo, hi))
			}
			return good
		}
		single := func(epoch int64) {
			consts++
			if consts > limit {
				rep.undecided(what + ": not every epoch was evaluated")
				return
			}
			outs, evs, abort := r.recall(j.method, func(st *State) []Val { return []Val{T.Int(epoch)} })
			want := sizeOracle(init, growth, unit, epoch)
			for _, ev := range evs {
				if !ev.ok && (ev.kind == "index" || ev.kind == "nil") {
					rep.fail("entry", Finding{Key: what + " entry", Where: in.posStr(ev.pos), Func: fnName(ev.fn), What: fmt.Sprintf("%s: epoch %d has no entry: %s", what, epoch, ev.msg)})
				}
			}
			if abort != "" || len(outs) != 1 {
				rep.undecided(fmt.Sprintf("%s: epoch %d: %d outcomes %s", what, epoch, len(outs), abort))
				return
			}
			got, ok := n0, false
			if t, k := outs[0].res[0].(*Term); k {
				got, ok = t.constVal()
			}
			if !ok {
				if !symbolic(epoch, epoch) {
					rep.undecided(fmt.Sprintf("%s: epoch %d: the size is not a constant", what, epoch))
				}
				return
			}
			rep.check("size of a single epoch", got == ni(want), Finding{Key: what, Where: pos, Func: fn, What: fmt.Sprintf("%s: epoch %d has size %s, the formula says %d", what, epoch, got, want)})
			if epoch == 2044 || epoch == 2045 {
				rep.sample("%s(%d) = %s", what, epoch, got)
			}
		}
		var rangeOK func(lo, hi int64)
		rangeOK = func(lo, hi int64) {
			if hi-lo < 16 {
				for e := lo; e <= hi; e++ {
					single(e)
				}
				return
			}
			if symbolic(lo, hi) {
				return
			}
			mid := (lo + hi) / 2
			rangeOK(lo, mid)
			rangeOK(mid+1, hi)
		}
		rangeOK(0, maxEpochs-1)
		rep.count("epochs covered singly", consts)
	})
}
