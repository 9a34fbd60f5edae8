package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dagShape locates the parts of the DAG and cache types by their types.
type dagShape struct {
	dag, cache          *types.Named
	dagS, cacheS        *types.Struct
	mapF, futureF       int   // DAG: map of caches, pre-generated cache
	epochF, onceF       int   // cache
	files               []int // cache: fields that hold file-backed data
	dataT               types.Type
	dataF, mmapF, fileF int
	main, l1            int // which of files
}

func (p *Program) dagShape() (*dagShape, string) {
	s := &dagShape{mapF: -1, futureF: -1, epochF: -1, onceF: -1, main: -1, l1: -1, dataF: -1, mmapF: -1, fileF: -1}
	sp := p.pkg("internal/dag")
	if sp == nil || sp.Type("DAG") == nil {
		return nil, "no dag.DAG type"
	}
	s.dag = sp.Type("DAG").Type().(*types.Named)
	var ok bool
	if s.dagS, ok = under(s.dag).(*types.Struct); !ok {
		return nil, "dag.DAG is not a struct"
	}
	for i := 0; i < s.dagS.NumFields(); i++ {
		if m, ok := under(s.dagS.Field(i).Type()).(*types.Map); ok {
			if pt, ok := under(m.Elem()).(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok {
					if cs, ok := under(n).(*types.Struct); ok && s.mapF < 0 {
						s.mapF, s.cache, s.cacheS = i, n, cs
					}
				}
			}
		}
	}
	if s.cache == nil {
		return nil, "the DAG has no map of caches"
	}
	for i := 0; i < s.dagS.NumFields(); i++ {
		if pt, ok := under(s.dagS.Field(i).Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), s.cache) {
			s.futureF = i
		}
	}
	for i := 0; i < s.cacheS.NumFields(); i++ {
		f := s.cacheS.Field(i)
		if f.Type().String() == "sync.Once" {
			s.onceF = i
			continue
		}
		if b, ok := under(f.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (s.epochF < 0 || f.Name() == "epoch") {
			s.epochF = i
			continue
		}
		if fs, ok := under(f.Type()).(*types.Struct); ok {
			d, m, fi := -1, -1, -1
			for k := 0; k < fs.NumFields(); k++ {
				switch fs.Field(k).Type().String() {
				case "[]uint32":
					d = k
				case "github.com/edsrzf/mmap-go.MMap":
					m = k
				case "*os.File":
					fi = k
				}
			}
			if d >= 0 {
				s.files = append(s.files, i)
				s.dataT, s.dataF, s.mmapF, s.fileF = f.Type(), d, m, fi
				if f.Name() == "cache" {
					s.main = i
				} else if f.Name() == "l1" {
					s.l1 = i
				}
			}
		}
	}
	if s.main < 0 && len(s.files) > 0 {
		s.main = s.files[0]
	}
	if s.l1 < 0 && len(s.files) > 1 {
		s.l1 = s.files[1]
	}
	if s.epochF < 0 || s.onceF < 0 || s.main < 0 || s.l1 < 0 || s.mmapF < 0 || s.fileF < 0 {
		return nil, "the cache type does not have the expected fields"
	}
	return s, ""
}

// access is one access to memory that other goroutines can reach.
type access struct {
	class string
	write bool
	prot  string // sorted protections, comma separated
	fn    *ssa.Function
	pos   string
	trace []string
}

// cacheRun is the analysis of GetCache for an arbitrary history of the client.
type cacheRun struct {
	onCache func(st *State, c Val) // GetCache returned c
	setupW  func(in *Interp)
	plain   bool
	*Run
	sh      *dagShape
	dag     Val
	epoch   *Term
	storage bool
	future  int
	acc     []access
	accSet  map[string]bool
	goEnds  []goEnd
	known   map[int]bool // shared cache objects of unknown age
	obsv    []obs
	gocnt   int // typestate: goroutines started
	mapID   int
	excl    map[string]bool // names created exclusively by this call
	order   map[string]string
	pats    map[string]map[string]bool // kind of file -> name patterns
	name    Val
	rev     *Term
	finMode bool
	dirty   int // typestate: mapped memory read since the owner was used
	owner   map[int]bool
	prop    string
	slices  map[int]*Term   // slices the DAG keeps: length before the call
	extra   bool            // memory other than the known shared state is written
	wrote   map[int]bool    // shared objects written
	wroteF  map[[2]int]bool // ... and the fields (-1: all)
	second  bool            // the outcomes are those of a second call
	also    func(st *State, fr *Frame, ins ssa.Instruction, o *Obj, loc Loc, write bool)
}

// obs is one obligation of a property.
type obs struct {
	prop, kind string
	ok         bool
	f          Finding
}

// ob records an obligation at an instruction.
func (cr *cacheRun) ob(prop, kind string, ok bool, fr *Frame, site ssa.Instruction, what string) bool {
	o := obs{prop: prop, kind: kind, ok: ok}
	if !ok {
		fn := "?"
		key := "?"
		where := ""
		var ctx *Ctx
		if fr != nil {
			fn, key, ctx = fnName(fr.fn), fnKey(fr.fn), fr.ctx
			where = cr.in.posStr(fr.fn.Pos())
		}
		if site != nil && site.Pos() != 0 {
			where = cr.in.posStr(site.Pos())
		}
		o.f = Finding{Key: kind + " " + key, Where: where, Func: fn, What: what, Trace: cr.trace(Event{ctx: ctx})}
		o.f.Trace = append(o.f.Trace, fmt.Sprintf("configuration: storage directory set: %v, pre-generated cache present: %v", cr.storage, cr.future == 1))
	}
	cr.obsv = append(cr.obsv, o)
	return ok
}

type goEnd struct {
	outs []Outcome
	site ssa.Instruction
	fr   *Frame
}

const tsUnknown = 3

// sharedReach lists the objects other goroutines can reach.
func (in *Interp) sharedReach(st *State) map[int]bool {
	return in.reach(&State{mem: st.mem}, nil)
}

// doneContent gives a cache object the content a completed generation leaves.
func (cr *cacheRun) doneContent(st *State, id int, epoch *Term) *StructC {
	in, T, sh := cr.in, cr.in.T, cr.sh
	lab := T.deps.label("history")
	sc := in.zero(sh.cache).(*StructC)
	sc = &StructC{f: append([]Val(nil), sc.f...)}
	for i := 0; i < sh.cacheS.NumFields(); i++ {
		t := sh.cacheS.Field(i).Type()
		switch {
		case i == sh.epochF:
			sc.f[i] = epoch
		case i == sh.onceF:
		case i == sh.main || i == sh.l1:
			if i == sh.l1 {
				if v, ok := in.cfgInt(st, cr.dag, "L1Enabled"); !ok || v.sign() == 0 {
					continue
				}
			}
			name := "validcache"
			var size *Term
			if i == sh.l1 {
				name = "validl1"
				n, _ := in.cfgInt(st, cr.dag, "L1CacheSize")
				size = T.Const(n)
			} else {
				r, ok := in.hooks[cr.p.dagName("CacheSize")](in, st, nil, nil, []Val{cr.dag, epoch}, nil)
				if !ok {
					in.abort("no cache size")
				}
				size = r[0].res[0].(*Term)
			}
			bid := in.newID(nil, fmt.Sprintf("done:%d:%d", id, i), "")
			tag := T.AppD(name, ivTop, T.deps.empty, epoch)
			st.setObj(&Obj{id: bid, typ: types.NewSlice(types.Typ[types.Uint32]), c: &BlobC{size: T.Add(size, T.Int(8)), tag: tag, dep: tag.dep, mapped: 1}, label: name, shared: true})
			ln := T.Div(size, T.Int(4), true)
			dc := in.zero(sh.dataT).(*StructC)
			dc = &StructC{f: append([]Val(nil), dc.f...)}
			dc.f[sh.dataF] = &SliceV{alts: []SAlt{{loc: Loc{obj: bid}, off: T.Int(2), esz: 4}}, len: ln, cap: ln}
			ml := T.Add(size, T.Int(8))
			dc.f[sh.mmapF] = &SliceV{alts: []SAlt{{loc: Loc{obj: bid}, off: T.zero, esz: 1}}, len: ml, cap: ml}
			fid := in.newID(nil, fmt.Sprintf("donefile:%d:%d", id, i), "")
			st.setObj(&Obj{id: fid, typ: in.typeOf("os", "File"), c: &NatC{kind: "file", t: ml, s: litStr("?retained", T.deps.empty), dep: T.deps.empty}, shared: true, label: "file"})
			st.setTS(fid, fOpen|fMapped)
			dc.f[sh.fileF] = &PtrV{alts: []Loc{{obj: fid}}}
			sc.f[i] = dc
		default:
			sc.f[i] = in.havoc(t, fmt.Sprintf("hist:%d:%d", id, i), lab)
		}
	}
	return sc
}

// known cache: an object an earlier call (or a background generation) made.
func (cr *cacheRun) history(st *State, name string, epoch *Term) *PtrV {
	in, sh := cr.in, cr.sh
	id := in.newID(nil, "history:"+name, "")
	if st.obj(id) == nil {
		o := &Obj{id: id, typ: sh.cache, shared: true, label: name}
		st.setObj(o)
		no := *o
		no.c = cr.doneContent(st, id, epoch)
		st.setObj(&no)
		st.setTS(in.onceID(Loc{obj: id, path: []PE{{f: sh.onceF}}}), tsUnknown)
		cr.known[id] = true
	}
	return &PtrV{alts: []Loc{{obj: id}}}
}

func newCacheRun(e entry) *cacheRun {
	return &cacheRun{accSet: map[string]bool{}, known: map[int]bool{}, excl: map[string]bool{}, order: map[string]string{}, pats: map[string]map[string]bool{}}
}

// getCache analyses GetCache. future: 0 none, 1 some pre-generated cache.
func (p *Program) getCache(e entry, storage bool, future int, prop string, prep func(cr *cacheRun)) *cacheRun {
	cr := newCacheRun(e)
	cr.prop, cr.slices = prop, map[int]*Term{}
	cr.storage, cr.future = storage, future
	sh, why := p.dagShape()
	cr.sh = sh
	cfg := RunCfg{setup: func(in *Interp) {
		if why != "" {
			in.abort(why)
		}
		in.dagHooks()
		delete(in.mergeAll, p.dagName("GetCache"))
		in.hooks[p.dagName("generateL1Cache")] = hookL1
		in.maxPart = 240
		in.shareOn = true
	}}
	cr.Run = p.dagRun(e, cfg, "GetCache", func(in *Interp, st *State) []Val {
		T := in.T
		r := &Run{e: e, p: p, in: in}
		cr.Run = r
		r.fn = p.dagFn("GetCache")
		cr.epoch = T.Leaf("in:epoch", Iv{n0, ni(maxEpochs - 1)}, T.deps.label("in:epoch"))
		// everything the constructor made is shared
		var root []Val
		st.mem.Each(func(k uint64, o *Obj) bool { root = append(root, &PtrV{alts: []Loc{{obj: int(k)}}}); return true })
		for _, v := range root {
			o := *st.obj(v.(*PtrV).alts[0].obj)
			o.shared = true
			st.setObj(&o)
		}
		var dobj *Obj
		st.mem.Each(func(k uint64, o *Obj) bool {
			if types.Identical(o.typ, sh.dag) {
				dobj = o
			}
			return true
		})
		if dobj == nil {
			in.abort("no DAG object")
		}
		cr.dag = &PtrV{alts: []Loc{{obj: dobj.id}}}
		dc := dobj.c.(*StructC)
		nc := &StructC{f: append([]Val(nil), dc.f...)}
		if !storage {
			in.setCfg(nc, sh.dagS, "StorageDir", litStr("", T.deps.empty))
		}
		// any name and revision: file names must carry both
		cr.name = &StrV{parts: []StrPart{{t: T.Leaf("config.Name", ivTop, T.deps.label("config")), how: "name"}}, dep: T.deps.empty}
		cr.rev = T.Leaf("config.Revision", Iv{n0, pow2(31)}, T.deps.label("config"))
		in.setCfg(nc, sh.dagS, "Name", cr.name)
		in.setCfg(nc, sh.dagS, "Revision", cr.rev)
		mt := under(sh.dagS.Field(sh.mapF).Type()).(*types.Map)
		mid := 0
		if mv, ok := nc.f[sh.mapF].(*MapV); ok && mv.null != nilYes {
			mid = mv.obj
		} else {
			mid = in.newID(nil, "history:map", "")
			nc.f[sh.mapF] = &MapV{obj: mid}
		}
		cnt, ok := in.cfgInt(st, cr.dag, "CachesCount")
		if !ok || cnt.sign() <= 0 {
			in.abort("the number of retained caches is not a positive constant")
		}
		ln := T.Leaf("len(caches)", Iv{n0, cnt}, T.deps.label("history"))
		st.setObj(&Obj{id: mid, typ: sh.dagS.Field(sh.mapF).Type(), c: &MapC{open: true, len: ln, kt: mt.Key(), vt: mt.Elem()}, shared: true, label: "caches"})
		do := *dobj
		do.c = nc
		st.setObj(&do)
		cr.mapID = mid
		cr.gocnt = in.newID(nil, "gocount", "")
		in.onMaterialize = func(st *State, obj int, key Val) (Val, bool) {
			k, ok := key.(*Term)
			if obj != mid || !ok {
				return in.havoc(mt.Elem(), in.uniq("mapv"), T.deps.label("history")), true
			}
			name := "entry:" + fmt.Sprint(k.id)
			v := cr.history(st, name, k)
			o := *st.obj(obj)
			nm := *(o.c.(*MapC))
			nm.ents = append(nm.ents[:len(nm.ents):len(nm.ents)], MapEnt{key, v})
			o.c = &nm
			st.setObj(&o)
			return v, true
		}
		in.iterKey = func(st *State, obj int) Val {
			if obj != mid {
				return nil
			}
			return T.Leaf("entrykey", Iv{n0, ni(maxEpochs)}, T.deps.label("maporder"))
		}
		if sh.futureF >= 0 && future == 1 {
			fe := T.Leaf("future.epoch", Iv{n0, ni(maxEpochs)}, T.deps.label("history"))
			v := cr.history(st, "future", fe)
			o := *st.obj(dobj.id)
			nc := &StructC{f: append([]Val(nil), o.c.(*StructC).f...)}
			nc.f[sh.futureF] = v
			o.c = nc
			st.setObj(&o)
		}
		if cr.prop == "C23" {
			// slices the DAG keeps may have any length
			o := *st.obj(dobj.id)
			nc := &StructC{f: append([]Val(nil), o.c.(*StructC).f...)}
			for i := range nc.f {
				if _, ok := nc.f[i].(*SliceV); !ok || i >= sh.dagS.NumFields() {
					continue
				}
				et := under(sh.dagS.Field(i).Type()).(*types.Slice).Elem()
				ln := T.Leaf(fmt.Sprintf("len(field%d)", i), Iv{n0, in.inputLen}, T.deps.label("history"))
				bid := in.newID(nil, fmt.Sprintf("history:slice:%d", i), "")
				st.setObj(&Obj{id: bid, typ: types.NewArray(et, 1), c: &ArrC{n: ln, sum: in.havoc(et, fmt.Sprintf("elem%d", i), T.deps.label("history")), et: et}, shared: true})
				nc.f[i] = &SliceV{alts: []SAlt{{loc: Loc{obj: bid}, off: T.zero, esz: in.sizeof(et)}}, len: ln, cap: ln}
				cr.slices[i] = ln
			}
			o.c = nc
			st.setObj(&o)
		}
		in.hooks["(*sync.Once).Do"] = cr.hookOnce
		if prep != nil {
			prep(cr)
		}
		return []Val{cr.epoch}
	})
	return cr
}

// setCfg changes a (possibly embedded) field of a struct value.
func (in *Interp) setCfg(sc *StructC, s *types.Struct, name string, v Val) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			sc.f[i] = v
			return true
		}
		if s.Field(i).Embedded() {
			if es, ok := under(s.Field(i).Type()).(*types.Struct); ok {
				if x, ok := sc.f[i].(*StructC); ok {
					y := &StructC{f: append([]Val(nil), x.f...)}
					if in.setCfg(y, es, name, v) {
						sc.f[i] = y
						return true
					}
				}
			}
		}
	}
	return false
}

// hookOnce splits on whether an object of unknown age was generated already.
func (cr *cacheRun) hookOnce(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	p, ok := args[0].(*PtrV)
	if !ok || p.top || len(p.alts) != 1 {
		return nil, false
	}
	l := p.alts[0]
	id := in.onceID(l)
	if st.getTS(id) != tsUnknown || !cr.known[l.obj] {
		return nil, false
	}
	s2 := st.clone()
	st.setTS(id, 1)
	// not yet generated
	o := *s2.obj(l.obj)
	sc := o.c.(*StructC)
	nc := &StructC{f: append([]Val(nil), sc.f...)}
	for _, f := range cr.sh.files {
		nc.f[f] = in.zero(cr.sh.cacheS.Field(f).Type())
	}
	o.c = nc
	s2.setObj(&o)
	s2.setTS(id, 0)
	out := in.callFn(s2, fr, fn, args, nil, site)
	return append([]Outcome{{st, nil}}, out...), true
}

/* shared accesses */

// locName describes a location by types: the root type and the field path.
func (in *Interp) locName(o *Obj, loc Loc) string {
	var b strings.Builder
	t := o.typ
	if o.global {
		b.WriteString("global " + o.label)
	} else {
		b.WriteString(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	for _, pe := range loc.path {
		switch u := under(t).(type) {
		case *types.Struct:
			if pe.f >= 0 && pe.f < u.NumFields() {
				b.WriteString("." + u.Field(pe.f).Name())
				t = u.Field(pe.f).Type()
				continue
			}
		case *types.Array:
			b.WriteString("[]")
			t = u.Elem()
			continue
		}
		break
	}
	return b.String()
}

func (in *Interp) heldLocks(st *State) []string {
	var out []string
	for id, l := range in.locks {
		if v := st.getTS(id); v != 0 {
			o := st.obj(l.obj)
			n := locKey(l)
			if o != nil {
				n = in.locName(o, l)
			}
			if v == 2 {
				n += " (read)"
			}
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
