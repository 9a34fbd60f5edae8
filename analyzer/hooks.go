package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Contracts that stand for functions analysed on their own (see DESIGN.md,
// "modular analysis"). Each is checked against the function's body by the
// check named next to it.

func (p *Program) dagName(m string) string { return "(*" + p.Mod + "/internal/dag.DAG)." + m }

func (p *Program) dagFn(m string) *ssa.Function {
	t := p.pkg("internal/dag").Type("DAG")
	if t == nil {
		return nil
	}
	return p.method(types.NewPointer(t.Type()), m)
}

const maxEpochs = 50000

func (in *Interp) cfgInt(st *State, d Val, name string) (N, bool) {
	t := in.P.pkg("internal/dag").Type("DAG")
	if t == nil {
		return n0, false
	}
	v, ok := in.field(st, d, types.NewPointer(t.Type()), name).(*Term)
	if !ok {
		return n0, false
	}
	return in.T.sv(st, v).constVal()
}

// seedTerm is the i-th half of the seed of a chain of n hashes.
func (in *Interp) seedWord(n *Term, i int) *Term {
	return in.T.AppW("seed", 64, nil, n, in.T.Int(int64(i)))
}

// hookSeed: SeedHash(height) returns fresh 32 bytes that depend on
// floor(height/SeedEpochLength) alone (checked by C11).
func hookSeed(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	T := in.T
	sl, ok := in.cfgInt(st, args[0], "SeedEpochLength")
	if !ok || sl.sign() <= 0 {
		in.unsupported("seed epoch length is not constant")
		return nil, false
	}
	n := T.Div(args[1].(*Term), T.Const(sl), true)
	n = T.sv(st, n)
	c := &mcall{in: in, st: st, fr: fr, fn: fn, args: args, site: site}
	var bs []*Term
	for i := 0; i < 32; i++ {
		bs = append(bs, T.Ext(in.seedWord(n, i/8), 8*(i%8), 8))
	}
	return []Outcome{{st, []Val{c.tmp("seed", bs)}}}, true
}

func (in *Interp) sizeHook(init, growth, unit, what string) Hook {
	return func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
		T := in.T
		i, ok1 := in.cfgInt(st, args[0], init)
		g, ok2 := in.cfgInt(st, args[0], growth)
		u, ok3 := ni(64), true
		if unit != "" {
			u, ok3 = in.cfgInt(st, args[0], unit)
		}
		if !ok1 || !ok2 || !ok3 || u.sign() <= 0 {
			in.unsupported("size configuration is not constant")
			return nil, false
		}
		e := args[1].(*Term)
		r := T.rng(st, e)
		lo := i.sub(u.mul(ni(2000)))
		if r.lo.sign() > 0 {
			lo = lo.add(g.mul(r.lo))
		}
		hi := nmin(r.hi, ni(maxEpochs))
		rows := T.App(what, Iv{lo.floorDiv(u), i.add(g.mul(hi)).floorDiv(u)}, e)
		return []Outcome{{st, []Val{T.Scale(rows, u)}}}, true
	}
}

// hookGenerate: generateCache(dest, epoch, seed) overwrites all of dest with
// data that depends on the seed, the length and the configuration alone.
func hookGenerate(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	T := in.T
	c := &mcall{in: in, st: st, fr: fr, fn: fn, args: args, site: site}
	dst, ok := args[1].(*SliceV)
	if !ok {
		return nil, false
	}
	seed := in.contentTerm(normRuns(T, c.bytes(args[3])))
	n := T.Scale(T.sv(st, dst.len), ni(4))
	in.emit(Event{kind: "generate", ok: true, data: &genInfo{st: st.clone(), dst: dst, epoch: args[2].(*Term), seed: seed, size: n}})
	c.putRegionE(dst, T.App("cachegen", ivTop, seed, n), n, types.Typ[types.Uint32])
	return []Outcome{{st, nil}}, true
}

// hookL1: generateL1Cache(dest, cache) overwrites all of dest with data that
// depends on the cache and the length alone.
func hookL1(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	T := in.T
	if len(args) != 3 {
		return nil, false
	}
	c := &mcall{in: in, st: st, fr: fr, fn: fn, args: args, site: site}
	dst, ok1 := args[1].(*SliceV)
	src, ok2 := args[2].(*SliceV)
	if !ok1 || !ok2 {
		return nil, false
	}
	in.require(st, "index", T.LE(T.Int(16), src.len), "the cache has at least one row")
	content := in.contentTerm(normRuns(T, in.sliceRuns(st, src, types.Typ[types.Uint32])))
	n := T.Scale(T.sv(st, dst.len), ni(4))
	in.emit(Event{kind: "generate", ok: true, data: &genInfo{st: st.clone(), dst: dst, seed: content, size: n}})
	c.putRegionE(dst, T.App("l1gen", ivTop, content, n), n, types.Typ[types.Uint32])
	return []Outcome{{st, nil}}, true
}

type genInfo struct {
	st    *State
	dst   *SliceV
	epoch *Term
	seed  *Term
	size  *Term
}

// putRegionE writes n bytes of generated content to dst, a slice of et.
func (c *mcall) putRegionE(dst *SliceV, tag, n *Term, et types.Type) {
	T := c.in.T
	es := int64(c.in.sizeof(et))
	b := &BlobC{size: n, dep: tag.dep, tag: tag}
	p := c.in.alloc(c.st, c.fr.ctx, c.site, "tmpr", types.NewSlice(et), b)
	o := *c.st.obj(p.alts[0].obj)
	o.c = b
	c.st.setObj(&o)
	ln := T.Div(n, T.Int(es), true)
	src := &SliceV{alts: []SAlt{{loc: p.alts[0], off: T.zero, esz: int(es)}}, len: ln, cap: ln}
	c.in.copyElems(c.st, dst, src, et, ln)
}

// hookItem: generateDatasetItem(cache, index, hasher) returns fresh 64 bytes.
func hookItem(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	T := in.T
	c := &mcall{in: in, st: st, fr: fr, fn: fn, args: args, site: site}
	ca, ok := args[1].(*SliceV)
	if !ok {
		return nil, false
	}
	in.require(st, "index", T.LE(T.Int(16), ca.len), "the cache has at least one row")
	content := in.contentTerm(normRuns(T, in.sliceRuns(st, ca, types.Typ[types.Uint32])))
	// the hasher is used: its state is written
	if in.onAccess != nil && len(args) > 3 {
		for id := range in.reach(&State{mem: st.mem}, []Val{args[3]}) {
			if o := st.obj(id); o != nil && in.reachArg(st, args[3], id) {
				in.onAccess(st, fr, site, o, Loc{obj: id}, true, true)
			}
		}
	}
	var bs []*Term
	for i := 0; i < 64; i++ {
		w := T.AppW("item", 64, nil, content, args[2].(*Term), T.Int(int64(i/8)))
		bs = append(bs, T.Ext(w, 8*(i%8), 8))
	}
	return []Outcome{{st, []Val{c.tmp("item", bs)}}}, true
}

// reachArg tells whether a modelled hash object is reachable from a value.
func (in *Interp) reachArg(st *State, v Val, id int) bool {
	o := st.obj(id)
	if n, ok := o.c.(*NatC); !ok || n.kind != "hash" {
		return false
	}
	live := in.reach(&State{}, []Val{v})
	for k := range live {
		if k == id || in.reachObj(st, k)[id] {
			return true
		}
	}
	return false
}

// dagHooks installs the contracts used when a digest method is analysed.
func (in *Interp) dagHooks() {
	p := in.P
	in.mergeAll[p.dagName("GetCache")] = true
	in.hooks[p.dagName("SeedHash")] = hookSeed
	in.hooks[p.dagName("CacheSize")] = in.sizeHook("CacheInitBytes", "CacheGrowthBytes", "", "cacheRows")
	in.hooks[p.dagName("DatasetSize")] = in.sizeHook("DatasetInitBytes", "DatasetGrowthBytes", "MixBytes", "datasetRows")
	in.hooks[p.dagName("generateCache")] = hookGenerate
	in.hooks[p.dagName("generateDatasetItem")] = hookItem
}

// dagOf finds the DAG a client refers to: the only *dag.DAG reachable from it.
func (in *Interp) dagOf(st *State, client Val, r *Run) Val {
	dt := in.P.pkg("internal/dag").Type("DAG")
	if dt == nil {
		return nil
	}
	live := in.reach(&State{mem: st.mem}, []Val{client})
	var ids []int
	for id := range live {
		if o := st.obj(id); o != nil && types.Identical(o.typ, dt.Type()) {
			ids = append(ids, id)
		}
	}
	if len(ids) != 1 {
		return nil
	}
	return &PtrV{alts: []Loc{{obj: ids[0]}}}
}
