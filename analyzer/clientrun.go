package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clientRun analyses a Compute or Verify method with everything the
// constructor made shared between goroutines, and a contract for GetCache: it
// returns a completely generated cache of the epoch it is called with, which
// other goroutines use too (what GetCache really does is analysed by getCache).
func (p *Program) clientRun(e entry, cfg RunCfg, prop string) *cacheRun {
	return p.clientRunW(e, cfg, prop, nil)
}

func (p *Program) clientRunW(e entry, cfg RunCfg, prop string, with func(cr *cacheRun)) *cacheRun {
	cr := newCacheRun(e)
	if with != nil {
		with(cr)
	}
	var epochs []*Term
	sh, why := p.dagShape()
	cr.sh = sh
	setup, prep := cfg.setup, cfg.prep
	cfg.setup = func(in *Interp) {
		if why != "" {
			in.abort(why)
		}
		in.shareOn = !cr.plain
		in.badAll = prop == "C08"
		if setup != nil {
			setup(in)
		}
		if cr.setupW != nil {
			cr.setupW(in)
		}
	}
	cfg.prep = func(r *Run) {
		cr.Run = r
		in, st := r.in, r.st0
		var args = map[int]bool{}
		st.mem.Each(func(k uint64, o *Obj) bool {
			if !o.input {
				args[int(k)] = true
			}
			return true
		})
		for id := range args {
			o := *st.obj(id)
			o.shared = true
			st.setObj(&o)
		}
		if prep != nil {
			prep(r)
		}
		if !cr.plain {
			in.onAccess = cr.onAccess
			in.onCall = cr.onCall
		}
		in.onMapSet = func(st *State, obj int, key, val Val) {
			o := st.obj(obj)
			if o != nil && in.onAccess != nil {
				in.onAccess(st, in.cur, in.curInstr, o, Loc{obj: obj}, true, false)
			}
		}
		cr.gocnt = in.newID(nil, "gocount", "")
		cr.dirty = in.newID(nil, "mapped-dirty", "")
		cr.owner = map[int]bool{}
		if isDag(e) {
			cr.dag = in.dagOf(st, r.client, r)
			if cr.dag == nil {
				in.abort("no DAG reachable from the client")
			}
			in.hooks[p.dagName("GetCache")] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
				ep, ok := args[1].(*Term)
				if !ok {
					return nil, false
				}
				ep = in.T.sv(st, ep)
				epochs = append(epochs, ep)
				cr.wantEpoch(st, ep, fr, site, "GetCache is called for")
				v := cr.history(st, fmt.Sprintf("cache:%d", ep.id), ep)
				id := v.alts[0].obj
				st.setTS(in.onceID(Loc{obj: id, path: []PE{{f: sh.onceF}}}), 1)
				o := *st.obj(id)
				o.fin = &FuncV{}
				st.setObj(&o)
				cr.owner[id] = true
				if cr.onCache != nil {
					cr.onCache(st, v)
				}
				return []Outcome{{st, []Val{v}}}, true
			}
			in.hooks["runtime.KeepAlive"] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
				if iv, ok := args[0].(*IfaceV); ok {
					if pv, ok := iv.v.(*PtrV); ok && !pv.top && len(pv.alts) == 1 && cr.owner[pv.alts[0].obj] {
						st.setTS(cr.dirty, 0)
					}
				}
				return []Outcome{{st, nil}}, true
			}
		}
	}
	r := p.run(e, cfg)
	if cr.Run == nil {
		cr.Run = r
	}
	if cr.abort != "" || len(cr.outs) == 0 {
		return cr
	}
	in := cr.in
	fr := &Frame{fn: cr.fn}
	for _, o := range cr.outs {
		held := in.heldLocks(o.st)
		cr.ob("C21", "locks released", len(held) == 0, fr, nil, "a path ends while "+strings.Join(held, ", ")+" is held")
		if !isDag(e) {
			continue
		}
		cr.ob("C12", "cache kept alive past the last read", o.st.getTS(cr.dirty) == 0, fr, nil, "mapped cache memory may be read after the last use of the cache object: the garbage collector may run its finalizer, which unmaps the memory, before the read")
		shp := shapeOfResults(cr.Run)
		good := o.st
		if shp.err >= 0 {
			good = in.condNil(o.st, o.res[shp.err], true)
		}
		if good == nil {
			continue
		}
		var roots []*Term
		for _, d := range shp.digests {
			roots = append(roots, in.digestTerms(good, o.res[d])...)
		}
		used := map[string]bool{}
		closure(roots, func(t *Term) {
			if t.op != OApp {
				return
			}
			switch t.name {
			case "validcache", "validl1":
				used[t.name] = true
				cr.wantEpoch(good, t.args[0], fr, nil, "the digest depends on cached data of")
			case "datasetRows", "cacheRows":
				used[t.name] = true
				cr.wantEpoch(good, t.args[0], fr, nil, "the digest depends on the size for")
			case "seed":
				if h, ok := cr.height(); ok {
					want := cr.chain(good, in.T.Div(h, in.T.Const(cr.el()), true))
					cr.ob("C11", "seed of the height's epoch", cr.same(good, t.args[0], want), fr, nil, "the digest depends on the seed of another epoch: "+short(t.args[0]))
				}
			case "filedata":
				cr.ob("C11", "data from validated caches only", false, fr, nil, "the digest depends on file data that no cache object validated")
			}
		})
		for _, n := range []string{"validcache", "datasetRows"} {
			if len(roots) > 0 {
				if !used[n] {
					cr.und("C11", "the digest does not visibly depend on "+n)
				} else {
					cr.ob("C11", "digest uses "+n+" of its epoch", true, fr, nil, "")
				}
			}
		}
	}
	return cr
}

func (cr *cacheRun) height() (*Term, bool) {
	if len(cr.args) < 3 {
		return nil, false
	}
	h, ok := cr.args[2].(*Term)
	return h, ok
}

func (cr *cacheRun) el() N {
	n, ok := cr.in.cfgInt(cr.st0, cr.dag, "EpochLength")
	if !ok || n.sign() <= 0 {
		cr.in.abort("the epoch length is not a constant")
	}
	return n
}

// wantEpoch requires a term to be the epoch of the height argument.
func (cr *cacheRun) wantEpoch(st *State, e *Term, fr *Frame, site ssa.Instruction, what string) {
	h, ok := cr.height()
	if !ok {
		return
	}
	T := cr.in.T
	want := T.Div(h, T.Const(cr.el()), true)
	cr.ob("C11", "epoch of the height", cr.same(st, e, want) || T.sv(st, want) == e, fr, site, fmt.Sprintf("%s epoch %s instead of the height's epoch %s", what, short(e), short(want)))
}

// track follows reads of mapped memory and uses of the object that owns it.
func (cr *cacheRun) track(st *State, o *Obj) {
	if cr.dirty == 0 {
		return
	}
	if b, ok := o.c.(*BlobC); ok && b.mapped == 1 {
		st.setTS(cr.dirty, 1)
	} else if cr.owner[o.id] {
		st.setTS(cr.dirty, 0)
	}
}
