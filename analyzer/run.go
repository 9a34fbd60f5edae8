package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunCfg selects how an entry point is analysed.
type RunCfg struct {
	fixed   map[string]int64 // parameter name or index ("#0") -> exact slice length
	rng     map[string]Iv    // parameter ranges
	prep    func(r *Run)     // before the call
	unroll  int
	unrollP int
	unrollS int64
	free    bool
	blob    int64
	setup   func(in *Interp) // after construction of the interpreter
}

// Run is the analysis of one entry point.
type Run struct {
	e      entry
	p      *Program
	in     *Interp
	st0    *State // state after construction of the client (before the call)
	client Val
	fn     *ssa.Function
	args   []Val
	names  []string
	outs   []Outcome
	abort  string
	dur    time.Duration
	nInit  int // events of the construction
}

func (p *Program) run(e entry, cfg RunCfg) *Run {
	t0 := time.Now()
	in := newInterp(p)
	in.debug = os.Getenv("POWLINT_DEBUG") != ""
	if cfg.unroll > 0 {
		in.unroll = cfg.unroll
	}
	if cfg.unrollP > 0 {
		in.unrollP = cfg.unrollP
	}
	if cfg.unrollS > 0 {
		in.unrollSteps = cfg.unrollS
	}
	in.freeOuter = cfg.free
	if cfg.blob > 0 {
		in.blobLimit = cfg.blob
	}
	r := &Run{e: e, p: p, in: in}
	r.abort = in.guard(func() {
		st, cl, m := in.construct(e)
		r.client, r.fn = cl, m
		r.nInit = len(in.events)
		if cfg.setup != nil {
			cfg.setup(in)
		}
		r.args = []Val{cl}
		r.names = []string{"client"}
		for i, prm := range m.Params[1:] {
			n, fixed := cfg.fixed[prm.Name()]
			if !fixed {
				n, fixed = cfg.fixed[fmt.Sprintf("#%d", i)]
			}
			nm := fmt.Sprintf("arg%d", i)
			r.names = append(r.names, nm)
			if fixed {
				r.args = append(r.args, in.inputN(st, prm.Type(), nm, n))
			} else {
				r.args = append(r.args, in.input(st, prm.Type(), nm))
			}
			if iv, ok := cfg.rng[fmt.Sprintf("#%d", i)]; ok {
				in.T.setRef(st, r.args[i+1].(*Term), iv)
			}
		}
		r.st0 = st
		if cfg.prep != nil {
			cfg.prep(r)
		}
		r.st0 = st.clone()
		r.outs = in.callFn(st, nil, m, r.args, nil, nil)
	})
	r.dur = time.Since(t0)
	if os.Getenv("POWLINT_TIME") != "" {
		fmt.Fprintln(os.Stderr, "time", e, cfg.rng, r.dur)
	}
	return r
}

// fails lists the failed events of the kinds given.
func (r *Run) fails(kinds ...string) []Event {
	var out []Event
	for _, e := range r.in.events {
		if e.ok {
			continue
		}
		for _, k := range kinds {
			if e.kind == k {
				out = append(out, e)
			}
		}
	}
	return out
}

var memKinds = []string{"index", "slice", "nil", "div0", "shift", "makeslice", "slice2arr", "assert", "panic", "mem", "unmapped", "romap", "blake2b"}

// finding makes a finding of an event.
func (r *Run) finding(ev Event, prefix string) Finding {
	return Finding{Key: prefix + ev.kind + " " + fnKey(ev.fn), Where: r.in.posStr(ev.pos), Func: fnName(ev.fn), What: strings.TrimSpace(ev.kind + ": " + ev.msg), Trace: r.trace(ev)}
}

func (r *Run) trace(ev Event) []string {
	out := []string{"entry " + r.e.String()}
	for c := ev.ctx; c != nil; c = c.parent {
		switch x := c.at.(type) {
		case ssa.Instruction:
			out = append(out, "called at "+r.in.posStr(x.Pos())+" in "+fnName(x.Parent()))
		case *Loop:
			it := "any later iteration"
			if c.iter >= 0 {
				it = fmt.Sprintf("iteration %d", c.iter)
			}
			out = append(out, it+" of the loop at "+r.in.posStr(loopPos(x)))
		}
		if len(out) > 12 {
			break
		}
	}
	return out
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.String()
}

// fnKey names the outermost declared function a construct belongs to.
func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.String()
}

// parallel runs f for every index on all cores.
func parallel(n int, f func(i int)) { parallelN(n, 8, f) }

func parallelN(n, width int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, width)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// cover records what a run analysed.
func (r *Run) cover(rep *Report) {
	rep.list("entries", r.e.String())
	n := 0
	for f := range r.in.fnsSeen {
		if f.Pkg != nil && r.in.inRepo(f.Pkg.Pkg.Path()) {
			rep.list("functions", f.String())
		}
		n++
	}
	rep.count("steps", int(r.in.steps))
	for m := range r.in.modelHits {
		rep.list("library models", m)
	}
	seen := map[string]bool{}
	for _, ev := range r.in.events {
		if ev.kind == "unsupported" {
			s := fmt.Sprintf("%s: %s (%s)", r.in.posStr(ev.pos), ev.msg, r.e)
			if !seen[s] {
				seen[s] = true
				rep.undecided(s)
			}
		}
	}
	if r.abort != "" {
		rep.undecided(fmt.Sprintf("%s: analysis stopped: %s", r.e, r.abort))
	}
	_ = n
}

// structVal loads the struct a pointer value points to, with field access by name.
func (in *Interp) field(st *State, v Val, t types.Type, name string) Val {
	if p, ok := v.(*PtrV); ok {
		et := under(t).(*types.Pointer).Elem()
		v = in.loadPtr(st, p, et)
		t = et
	}
	s, ok := under(t).(*types.Struct)
	sv, ok2 := v.(*StructC)
	if !ok || !ok2 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return sv.f[i]
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if x := in.field(st, sv.f[i], s.Field(i).Type(), name); x != nil {
				return x
			}
		}
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
