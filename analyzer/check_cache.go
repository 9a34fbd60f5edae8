package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rules about the shared DAG state, the cache objects and their files. They
// are evaluated on the analysis of GetCache for an arbitrary history of the
// client (cacherun.go) and, for C10-C12 and C21, on that of every Compute and
// Verify method with a contract in place of GetCache.

func init() {
	for _, c := range []struct{ id, rule string }{
		{"C10", "Lockset and typestate analysis: every access to memory that other goroutines can reach (objects reachable from the client, from package variables, or handed to a go statement), found by the abstract interpretation of GetCache for an arbitrary history and of every Compute/Verify method, is recorded with the locks held and the state of the owner's sync.Once. Each pair of accesses to the same field of which one writes must share a lock or be ordered by the Once (write inside, access inside or after)."},
		{"C11", "Value analysis: GetCache for an arbitrary epoch and history returns a cache of that epoch whose data, on every path, was generated from the epoch's seed (chain length = epoch*epochLength/seedEpochLength) with the epoch's size, or comes from the file named after that seed; every Compute passes height/epochLength to GetCache, and all cached data, sizes and seeds in the data-dependency closure of the digests belong to that epoch. SeedHash's body is compared with the keccak-256 chain."},
		{"C12", "Typestate over Compute: after the last read of memory that belongs to a file-backed cache (on every path), the cache object is used again or passed to runtime.KeepAlive, so its finalizer cannot have run before. Unmap is applied only to mappings of a failed generation or in the finalizer, which clears what it released; no path reads, writes or unmaps a mapping after Unmap."},
		{"C13", "Typestate of the file objects along every path of cache generation: nothing is opened for writing, truncated, mapped for writing or written except a file this call created exclusively under a temporary name in the same directory; at each rename the source is such a file, its mapping holds the magic and the complete generated data, was flushed after the last write and is unmapped, and the file is closed."},
		{"C14", "On every path on which the data of a finished cache comes from a file found on disk, the path's facts must imply that the mapping is exactly 8 bytes longer than the epoch's size and that both magic words match; all reads of the mapping lie inside it."},
		{"C15", "Every combination of failing storage operations is followed. On every path out of generation the cache data (and L1 data) is complete, of the epoch's size and generated from the epoch's seed or validated; no temporary file is left, and each descriptor and mapping is released or owned by the cache object with a finalizer, which releases both."},
		{"C16", "Symbolic file names: with an arbitrary coin name, revision and epoch, every path given to the file system is compared with the pattern directory/kind-name-revision-seed; creation and renaming is restricted to the epoch being generated, removal to files created by this call and to epochs at least the retention count older."},
		{"C21", "Lock typestate on every path of GetCache (including its goroutine) and of every Compute/Verify: no lock is taken twice or released when not held, none is held when a call or goroutine ends; generation, hashing, file operations and waiting for a sync.Once never happen while a lock other than the cache's own is held; the lock-order graph has no cycle."},
		{"C23", "For any set of at most the configured number of retained caches and any pre-generated one, the set has at most that size after GetCache on every path; at most one goroutine is started per call that inserts an epoch and none otherwise; no other container reachable from the client grows."},
	} {
		c := c
		checks[c.id] = func(p *Program, rep *Report) {
			rep.Rule = c.rule
			rep.Assume = commonAssumptions
			cacheCheck(p, rep, c.id)
		}
	}
}

type cacheJob struct {
	e       entry
	storage bool
	future  int
}

// cacheCheck runs the analyses one of the properties needs.
func cacheCheck(p *Program, rep *Report, prop string) {
	expectEntries(p, rep)
	if _, why := p.dagShape(); why != "" {
		rep.undecided("internal/dag: " + why)
		return
	}
	var js []cacheJob
	for _, e := range p.entries() {
		if !isDag(e) {
			continue
		}
		for _, st := range []bool{true, false} {
			if !st && (prop == "C13" || prop == "C14" || prop == "C16") {
				continue
			}
			js = append(js, cacheJob{e, st, 0}, cacheJob{e, st, 1})
		}
	}
	var mu sync.Mutex
	var acc []access
	coins := map[string]string{}
	order := map[string]string{}
	pats := map[string]map[string]bool{}
	var comp []job
	switch prop {
	case "C10", "C11", "C12", "C21":
		for _, j := range jobs(p, func(e entry) RunCfg { return RunCfg{} }) {
			if isDag(j.e) || prop == "C10" || prop == "C21" {
				comp = append(comp, j)
			}
		}
	}
	parallel(len(comp)+len(js), func(i int) {
		var cr *cacheRun
		if i < len(comp) {
			cr = p.clientRun(comp[i].e, comp[i].cfg, prop)
		} else {
			j := js[i-len(comp)]
			cr = p.getCache(j.e, j.storage, j.future, prop, func(cr *cacheRun) { cr.install(prop) })
			if cr.abort == "" {
				cr.abort = cr.in.guard(func() {
					cr.finishGetCache()
					cr.secondCall()
				})
			}
		}
		cr.cover(rep)
		rep.count("runs", 1)
		if len(cr.outs) == 0 && cr.abort == "" {
			rep.undecided(cr.e.String() + ": no outcome")
		}
		for _, o := range cr.obsv {
			if o.prop == prop {
				rep.check(o.kind, o.ok, o.f)
			} else if o.prop == "?"+prop {
				rep.undecided(o.f.What)
			}
		}
		for _, ev := range cr.in.events {
			if ev.ok {
				if prop == "C14" && (ev.kind == "index" || ev.kind == "slice") && i >= len(comp) {
					rep.ok("access in bounds")
				}
				continue
			}
			switch {
			case ev.kind == "lock" && prop == "C21",
				ev.kind == "unmapped" && prop == "C12",
				(ev.kind == "index" || ev.kind == "slice" || ev.kind == "mem" || ev.kind == "romap") && prop == "C14" && i >= len(comp),
				(ev.kind == "nil" || ev.kind == "panic" || ev.kind == "makeslice" || ev.kind == "index" || ev.kind == "slice") && prop == "C15" && i >= len(comp):
				rep.fail(ev.kind, cr.finding(ev, ""))
			}
		}
		mu.Lock()
		defer mu.Unlock()
		acc = append(acc, cr.acc...)
		for k, v := range cr.order {
			order[k] = v
		}
		for k, v := range cr.pats {
			if pats[k] == nil {
				pats[k] = map[string]bool{}
			}
			for x := range v {
				pats[k][x] = true
			}
		}
		if prop == "C16" && i >= len(comp) {
			coins[cr.e.ctor] = cr.coin()
		}
	})
	switch prop {
	case "C11":
		for _, e := range p.entries() {
			if isDag(e) {
				for _, k := range p.seedKernels(e, rep.Tier) {
					k.run(rep, 6)
				}
			}
		}
	case "C10":
		racePairs(rep, acc)
	case "C21":
		lockOrder(rep, order)
	case "C16":
		seen := map[string]string{}
		for _, c := range sortedKeys(keys(coins)) {
			n := coins[c]
			if n == "" {
				rep.undecided(c + ": name and revision are not constants")
				continue
			}
			rep.check("coin name without a separator", !strings.ContainsAny(n, "/\\."), Finding{Key: "coin name " + c, Where: c, Func: c, What: c + ": the name contains a path separator or dot: " + n})
			rep.check("coins have distinct file names", seen[n] == "", Finding{Key: "coin name " + c, Where: c, Func: c, What: fmt.Sprintf("%s and %s use the same name and revision (%s) for their files", c, seen[n], n)})
			seen[n] = c
			rep.sample("%s: files are named %s", c, n)
		}
		for a := range pats["cache"] {
			for b := range pats["l1"] {
				rep.check("kinds have distinct file names", a != b && !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a), Finding{Key: "kinds", Where: "internal/dag", Func: "internal/dag", What: "a cache file and an L1 file may have the same name: " + a})
			}
			rep.sample("cache files: %s", a)
		}
		for b := range pats["l1"] {
			rep.sample("L1 files: %s", b)
		}
	}
}

func keys(m map[string]string) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

// coin is the name and revision the constructor chose.
func (cr *cacheRun) coin() string {
	in := newInterp(cr.p)
	out := ""
	in.guard(func() {
		st, cl, _ := in.construct(cr.e)
		d := in.dagOf(st, cl, nil)
		if d == nil {
			return
		}
		t := in.P.pkg("internal/dag").Type("DAG")
		n, ok := in.field(st, d, types.NewPointer(t.Type()), "Name").(*StrV)
		r, ok2 := in.cfgInt(st, d, "Revision")
		if !ok || !ok2 {
			return
		}
		if s, ok := n.lit(); ok {
			out = fmt.Sprintf("%q revision %s", s, r)
		}
	})
	return out
}

// install sets the hooks of a property.
func (cr *cacheRun) install(prop string) {
	in := cr.in
	in.onAccess = cr.onAccess
	in.onCall = cr.onCall
	in.onMapSet = func(st *State, obj int, key, val Val) {
		if obj != cr.mapID {
			o := st.obj(obj)
			cr.ob("C23", "no other container grows", o == nil || !o.shared && !o.global, in.cur, in.curInstr, "a map that outlives the call gets a new entry")
			return
		}
		p, ok := val.(*PtrV)
		k, ok2 := key.(*Term)
		if !ok || !ok2 {
			return
		}
		for _, l := range p.alts {
			e := cr.objEpoch(st, l)
			v, dec := in.T.decide(st, in.T.EQ(e, k))
			cr.ob("C11", "cache stored under its own epoch", dec && v, in.cur, in.curInstr, fmt.Sprintf("a cache of epoch %s may be stored under key %s", short(e), short(k)))
		}
	}
	in.onGo = func(st *State, fr *Frame, fn *FuncV, args []Val, site ssa.Instruction) {
		n := st.getTS(cr.gocnt)
		if n < 3 {
			st.setTS(cr.gocnt, n+1)
		}
		cr.ob("C23", "one background generation per call", n == 0, fr, site, "a call may start more than one goroutine")
	}
	in.onGoEnd = func(fr *Frame, outs []Outcome, site ssa.Instruction) {
		for _, o := range outs {
			cr.ob("C23", "background generation starts no further one", o.st.getTS(cr.gocnt) <= 1, fr, site, "background work starts further goroutines")
			cr.endState(o.st, fr, site)
			for _, ob := range cr.cacheObjs(o.st) {
				if !cr.known[ob.id] && o.st.getTS(in.onceID(Loc{obj: ob.id, path: []PE{{f: cr.sh.onceF}}})) == 1 {
					cr.complete(o.st, ob, fr, site)
				}
			}
		}
	}
	in.onOS = cr.onOS
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func (cr *cacheRun) objEpoch(st *State, l Loc) *Term {
	if t, ok := cr.in.load(st, l.ext(PE{f: cr.sh.epochF}), cr.sh.cacheS.Field(cr.sh.epochF).Type()).(*Term); ok {
		return cr.in.T.sv(st, t)
	}
	return cr.in.T.Leaf(cr.in.uniq("noepoch"), ivTop, nil)
}

func (cr *cacheRun) cacheObjs(st *State) (out []*Obj) {
	st.mem.Each(func(k uint64, o *Obj) bool {
		if types.Identical(o.typ, cr.sh.cache) {
			out = append(out, o)
		}
		return true
	})
	return
}

func (cr *cacheRun) once(st *State, id int) int8 {
	return st.getTS(cr.in.onceID(Loc{obj: id, path: []PE{{f: cr.sh.onceF}}}))
}

/* C10 */

func (cr *cacheRun) prots(st *State, o *Obj) string {
	in := cr.in
	ps := in.heldLocks(st)
	var owners []*Obj
	if types.Identical(o.typ, cr.sh.cache) {
		owners = []*Obj{o}
	} else {
		for _, c := range cr.cacheObjs(st) {
			if c.id != o.id && in.reachObj(st, c.id)[o.id] {
				owners = append(owners, c)
			}
		}
	}
	if len(owners) > 0 {
		in2, after := true, true
		for _, c := range owners {
			switch cr.once(st, c.id) {
			case 2:
				after = false
			case 1:
				in2 = false
			default:
				in2, after = false, false
			}
		}
		if in2 {
			ps = append(ps, "once:in")
		} else if after {
			ps = append(ps, "once:after")
		}
	}
	sort.Strings(ps)
	return strings.Join(ps, ",")
}

// reachObj is what an object's own content reaches.
func (in *Interp) reachObj(st *State, id int) map[int]bool {
	live := map[int]bool{}
	var visit func(id int)
	visit = func(id int) {
		if live[id] {
			return
		}
		live[id] = true
		o := st.obj(id)
		if o == nil {
			return
		}
		switch o.c.(type) {
		case *StructC, *PtrV, *IfaceV, *FuncV, *SliceV, *MapV:
			for k := range in.reach(&State{}, []Val{o.c}) {
				visit(k)
			}
		}
	}
	visit(id)
	return live
}

func (cr *cacheRun) onAccess(st *State, fr *Frame, ins ssa.Instruction, o *Obj, loc Loc, write, full bool) {
	cr.track(st, o)
	if cr.also != nil {
		cr.also(st, fr, ins, o, loc, write)
	}
	if !(o.shared || o.global) || o.input {
		return
	}
	in := cr.in
	cl := in.locName(o, loc)
	if b, ok := o.c.(*BlobC); ok {
		cl = "cache contents"
		_ = b
	} else if _, ok := o.c.(*ArrC); ok && !o.global {
		if s, ok := o.typ.(*types.Slice); ok {
			cl = "elements of " + s.String()
		}
	}
	if !write && o.global {
		// constant unless someone writes
		if in.cur != nil && in.cur.fn.Name() == "init" {
			return
		}
	}
	if write && !cr.knownState(o, loc) {
		cr.extra = true
	}
	pr := cr.prots(st, o)
	pos := ""
	fn := "?"
	var f *ssa.Function
	if ins != nil {
		pos = in.posStr(ins.Pos())
		if ins.Pos() == 0 && fr != nil {
			pos = in.posStr(fr.fn.Pos())
		}
	}
	if fr != nil {
		f = fr.fn
		fn = fnName(f)
	}
	k := fmt.Sprintf("%s|%v|%s|%s|%s", cl, write, pr, fn, pos)
	if cr.accSet[k] {
		return
	}
	cr.accSet[k] = true
	var ctx *Ctx
	if fr != nil {
		ctx = fr.ctx
	}
	cr.acc = append(cr.acc, access{class: cl, write: write, prot: pr, fn: f, pos: pos, trace: cr.trace(Event{ctx: ctx})})
}

// knownState tells whether a location belongs to the state for which the
// analysis assumes an arbitrary history.
func (cr *cacheRun) knownState(o *Obj, loc Loc) bool {
	switch o.c.(type) {
	case *BlobC, *NatC, *MapC, *ArrC:
		return !o.global
	}
	if types.Identical(o.typ, cr.sh.cache) {
		return true
	}
	if types.Identical(o.typ, cr.sh.dag) && len(loc.path) > 0 {
		f := loc.path[0].f
		return f == cr.sh.mapF || f == cr.sh.futureF
	}
	return false
}

// secondCall analyses a second call of GetCache, for another arbitrary epoch,
// when the first one changes state outside the caches: what it remembers must
// not influence later calls wrongly.
func (cr *cacheRun) secondCall() {
	if !cr.extra || cr.second || cr.prop != "C11" && cr.prop != "C15" {
		return
	}
	in, T := cr.in, cr.in.T
	cr.second = true
	cr.epoch = T.Leaf("in:epoch2", Iv{n0, ni(maxEpochs - 1)}, T.deps.label("in:epoch"))
	first := cr.outs
	cr.outs = nil
	for i, o := range first {
		if n := (len(first) + 9) / 10; i%n != 0 {
			continue
		}
		st := o.st
		st.setTS(cr.gocnt, 0)
		fr := &Frame{fn: cr.p.pkg("internal/dag").Func("init"), ctx: in.ctx(nil, "second call", i)}
		cr.outs = append(cr.outs, in.callFn(st, fr, cr.fn, []Val{cr.args[0], cr.epoch}, nil, nil)...)
	}
	cr.finishGetCache()
}

// ordered tells whether two accesses can never run at the same time.
func ordered(a, b access) bool {
	pa, pb := strings.Split(a.prot, ","), strings.Split(b.prot, ",")
	for _, x := range pa {
		for _, y := range pb {
			if x == "" || y == "" {
				continue
			}
			rx, ry := strings.TrimSuffix(x, " (read)"), strings.TrimSuffix(y, " (read)")
			if rx == ry && !strings.HasPrefix(rx, "once:") && (rx == x || ry == y) {
				return true
			}
			if strings.HasPrefix(x, "once:") && strings.HasPrefix(y, "once:") && (x == "once:in" || y == "once:in") {
				return true
			}
		}
	}
	return false
}

func racePairs(rep *Report, acc []access) {
	by := map[string][]access{}
	for _, a := range acc {
		by[a.class] = append(by[a.class], a)
	}
	var cs []string
	for c := range by {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		l := by[c]
		w := false
		for _, a := range l {
			w = w || a.write
			rep.list("shared memory", c)
		}
		if !w {
			rep.okN("read-only shared memory", len(l))
			continue
		}
		rep.sample("%s: %d accesses, protections %s", c, len(l), protSet(l))
		for i, a := range l {
			if !a.write {
				continue
			}
			for k, b := range l {
				if b.write && k < i {
					continue
				}
				f := Finding{}
				if !ordered(a, b) {
					d := func(x access) string {
						s := "reads"
						if x.write {
							s = "writes"
						}
						p := x.prot
						if p == "" {
							p = "nothing"
						}
						return fmt.Sprintf("%s %s at %s holding %s", fnName(x.fn), s, x.pos, p)
					}
					f = Finding{Key: "race " + c + " " + fnKey(a.fn) + " " + fnKey(b.fn), Where: a.pos, Func: fnName(a.fn), What: fmt.Sprintf("unsynchronised accesses to %s: %s; %s", c, d(a), d(b)), Trace: append(append([]string{}, a.trace...), b.trace...)}
				}
				rep.check("conflicting accesses are ordered", ordered(a, b), f)
			}
		}
	}
}

func protSet(l []access) string {
	m := map[string]bool{}
	for _, a := range l {
		s := a.prot
		if s == "" {
			s = "none"
		}
		m[s] = true
	}
	return strings.Join(sortedKeys(m), " | ")
}

/* C21 */

var slowMethods = map[string]bool{"generateCache": true, "generateL1Cache": true, "generateDatasetItem": true}

func (cr *cacheRun) onCall(st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) {
	in := cr.in
	name := fn.String()
	if strings.HasPrefix(name, "(*sync.") && strings.HasSuffix(name, ".Lock") || strings.HasSuffix(name, ".RLock") {
		if p, ok := args[0].(*PtrV); ok && len(p.alts) == 1 {
			o := st.obj(p.alts[0].obj)
			if o != nil {
				to := in.locName(o, p.alts[0])
				for _, h := range in.heldLocks(st) {
					cr.order[h+" -> "+to] = in.posStr(site.Pos())
				}
				for _, c := range cr.cacheObjs(st) {
					if cr.once(st, c.id) == 2 {
						cr.order["once -> "+to] = in.posStr(site.Pos())
					}
				}
			}
		}
		return
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	slow := ""
	switch {
	case name == "(*sync.Once).Do":
		slow = "waits for a cache to be generated"
	case name == "(*sync.WaitGroup).Wait" || name == "time.Sleep" || name == "(*sync.Cond).Wait":
		slow = "waits"
	case strings.HasPrefix(name, "(*"+cr.p.Mod+"/internal/dag.DAG).") && slowMethods[fn.Name()]:
		slow = "generates cache data"
	case pkg == "os" && fn.Name() != "init" || strings.HasPrefix(pkg, "github.com/edsrzf/mmap-go"):
		slow = "uses the file system"
	case strings.HasPrefix(pkg, "golang.org/x/crypto") || strings.HasPrefix(pkg, "github.com/dchest/blake2b"):
		slow = "hashes"
	}
	if slow == "" || fn.Synthetic != "" {
		return
	}
	var held []string
	for id, l := range in.locks {
		if st.getTS(id) == 0 {
			continue
		}
		o := st.obj(l.obj)
		if o != nil && types.Identical(o.typ, cr.sh.cache) {
			continue // per-epoch lock
		}
		if o != nil {
			held = append(held, in.locName(o, l))
		} else {
			held = append(held, "a lock")
		}
	}
	if name == "(*sync.Once).Do" && len(held) > 0 {
		for _, h := range held {
			cr.order[h+" -> once"] = in.posStr(site.Pos())
		}
	}
	sort.Strings(held)
	cr.ob("C21", "no lock held during slow work", len(held) == 0, fr, site, fmt.Sprintf("%s %s while %s is held", name, slow, strings.Join(held, ", ")))
}

// lockOrder looks for a cycle among the orders in which locks are taken.
func lockOrder(rep *Report, order map[string]string) {
	next := map[string][]string{}
	for _, k := range sortedKeys(keys(order)) {
		ab := strings.SplitN(k, " -> ", 2)
		a, b := strings.TrimSuffix(ab[0], " (read)"), ab[1]
		next[a] = append(next[a], b)
		rep.list("lock order", a+" before "+b)
	}
	for _, a := range sortedKeys(keys(order)) {
		ab := strings.SplitN(a, " -> ", 2)
		from, to := strings.TrimSuffix(ab[0], " (read)"), ab[1]
		seen := map[string]bool{}
		var visit func(n string) bool
		visit = func(n string) bool {
			if n == from {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range next[n] {
				if visit(m) {
					return true
				}
			}
			return false
		}
		rep.check("lock order", !visit(to), Finding{Key: "lock order " + from + " " + to, Where: order[a], Func: "internal/dag", What: fmt.Sprintf("%s is taken while %s is held, and elsewhere the other way round", to, from)})
	}
}

// endState checks what must hold when a call or a goroutine ends.
func (cr *cacheRun) endState(st *State, fr *Frame, site ssa.Instruction) {
	in := cr.in
	held := in.heldLocks(st)
	cr.ob("C21", "locks released", len(held) == 0, fr, site, "a path ends while "+strings.Join(held, ", ")+" is held")
	owned := map[int]bool{}
	for _, c := range cr.cacheObjs(st) {
		if cr.known[c.id] && cr.once(st, c.id) == tsUnknown {
			continue
		}
		for _, fi := range cr.sh.files {
			sc, ok := in.contentAt(st, c, []PE{{f: fi}}).(*StructC)
			if !ok {
				continue
			}
			id := 0
			if p, ok := sc.f[cr.sh.fileF].(*PtrV); ok && len(p.alts) == 1 && p.null == nilNo {
				id = p.alts[0].obj
			}
			if id == 0 || !in.fileIDs[id] {
				continue
			}
			m := false
			if s, ok := sc.f[cr.sh.mmapF].(*SliceV); ok && len(s.alts) == 1 && s.null == nilNo {
				if o := st.obj(s.alts[0].loc.obj); o != nil {
					if b, ok := o.c.(*BlobC); ok && b.file == id && b.mapped == 1 {
						m = true
					}
				}
			}
			if m && c.fin != nil {
				owned[id] = true
			} else if c.fin == nil {
				cr.ob("C15", "mapping has a finalizer", false, fr, site, "a cache object keeps a mapped file without a finalizer that releases it")
			}
		}
		if c.fin != nil && !cr.finDone(c) {
			cr.runFinalizer(st, c, fr, site)
		}
	}
	for id := range in.fileIDs {
		v := st.getTS(id)
		if v == 0 {
			continue
		}
		name := "?"
		if o := st.obj(id); o != nil {
			if n, ok := o.c.(*NatC); ok && n.s != nil {
				name = n.s.String()
			}
		}
		name = cutS(name)
		cr.ob("C15", "temporary file removed", v&fTemp == 0, fr, site, "a path leaves the temporary file "+name)
		if !owned[id] {
			cr.ob("C15", "descriptor closed", v&fOpen == 0, fr, site, "a path leaves the descriptor of "+name+" open and unowned")
			cr.ob("C15", "mapping released", v&fMapped == 0, fr, site, "a path leaves "+name+" mapped and unowned")
		} else {
			cr.ob("C15", "descriptor and mapping owned", v&(fOpen|fMapped) == fOpen|fMapped, fr, site, "the cache object keeps a mapping or descriptor that is already released: "+name)
		}
	}
}

func cutS(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func (cr *cacheRun) finDone(o *Obj) bool { return false }

// runFinalizer follows the finalizer of a cache object that keeps mappings.
func (cr *cacheRun) runFinalizer(st *State, c *Obj, fr *Frame, site ssa.Instruction) {
	in := cr.in
	if c.fin.fn == nil || c.weak {
		return
	}
	s := st.clone()
	saveA, saveC := in.onAccess, in.onCall
	in.onAccess, in.onCall = nil, nil
	cr.finMode = true
	n := len(in.events)
	outs := in.callFn(s, fr, c.fin.fn, []Val{&PtrV{alts: []Loc{{obj: c.id}}}}, c.fin.binds, site)
	_ = n
	cr.finMode = false
	in.onAccess, in.onCall = saveA, saveC
	reach := in.reachObj(st, c.id)
	for _, o := range outs {
		for id := range in.fileIDs {
			if !reach[id] {
				continue
			}
			v := o.st.getTS(id)
			cr.ob("C15", "finalizer releases descriptor and mapping", v&(fOpen|fMapped) == 0, fr, site, "the finalizer leaves a descriptor open or a mapping in place")
		}
	}
}

/* files */

func toks(s *StrV) []string {
	var out []string
	if s == nil {
		return nil
	}
	for _, p := range s.parts {
		if p.t != nil {
			out = append(out, fmt.Sprintf("\x00%s:%d", p.how, p.t.id))
			continue
		}
		for i := 0; i < len(p.lit); i++ {
			out = append(out, p.lit[i:i+1])
		}
	}
	return out
}

func cutPrefix(a, p []string) ([]string, bool) {
	if len(a) < len(p) {
		return nil, false
	}
	for i := range p {
		if a[i] != p[i] {
			return nil, false
		}
	}
	return a[len(p):], true
}

// inDir returns the name of a path directly inside the storage directory.
func (cr *cacheRun) inDir(st *State, path *StrV) ([]string, bool) {
	in := cr.in
	t := cr.p.pkg("internal/dag").Type("DAG")
	d, ok := in.field(st, cr.dag, types.NewPointer(t.Type()), "StorageDir").(*StrV)
	if !ok {
		return nil, false
	}
	rest, ok := cutPrefix(toks(path), toks(d))
	if !ok || len(rest) < 2 || rest[0] != "/" {
		return nil, false
	}
	for _, x := range rest[1:] {
		if x == "/" || strings.HasPrefix(x, "\x00str") && x != cr.nameTok() {
			return nil, false
		}
	}
	return rest[1:], true
}

func (cr *cacheRun) nameTok() string { return toks(cr.name.(*StrV))[0] }

// fileName analyses the final name of a cache file: it must carry the coin's
// name, the revision and at least 8 bytes of an epoch seed. n is the number of
// hashes of that seed, pat the name with the seed left out, rest what follows.
func (cr *cacheRun) fileName(st *State, path *StrV) (n *Term, pat string, rest []string, ok bool) {
	in := cr.in
	name, ok := cr.inDir(st, path)
	if !ok {
		return nil, "", nil, false
	}
	byID := map[string]*Term{}
	for _, p := range path.parts {
		if p.t != nil {
			byID[fmt.Sprintf("\x00%s:%d", p.how, p.t.id)] = p.t
		}
	}
	hasName, hasRev := false, false
	var b strings.Builder
	for i, t := range name {
		if len(t) == 1 {
			b.WriteString(t)
			continue
		}
		term := byID[t]
		switch {
		case t == cr.nameTok():
			hasName = true
			b.WriteString("<name>")
		case term == cr.rev:
			hasRev = true
			b.WriteString("<revision>")
		default:
			n = cr.seedCount(term)
			how := strings.SplitN(t[1:], ":", 2)[0]
			if n == nil || how != "xb" && how != "Xb" {
				return nil, b.String(), nil, false
			}
			b.WriteString("<seed>")
			_ = in
			return n, b.String(), name[i+1:], hasName && hasRev
		}
	}
	return nil, b.String(), nil, false
}

// seedCount recognises the content of (the beginning of) an epoch seed.
func (cr *cacheRun) seedCount(t *Term) *Term {
	T := cr.in.T
	if t == nil || t.op != OApp || t.name != "bytes" || len(t.args) != 2 {
		return nil
	}
	k, ok := t.args[0].constVal()
	if !ok || k.lt(ni(8)) || ni(32).lt(k) {
		return nil
	}
	var n *Term
	closure([]*Term{t.args[1]}, func(x *Term) {
		if x.op == OApp && x.name == "seed" && n == nil {
			n = x.args[0]
		}
	})
	if n == nil {
		return nil
	}
	for i := 0; i < int(k.i64())/8; i++ {
		if T.Ext(t.args[1], 64*i, 64) != cr.in.seedWord(n, i) {
			return nil
		}
	}
	return n
}

// chain is the number of hashes of an epoch's seed.
func (cr *cacheRun) chain(st *State, e *Term) *Term {
	in, T := cr.in, cr.in.T
	el, ok1 := in.cfgInt(st, cr.dag, "EpochLength")
	sl, ok2 := in.cfgInt(st, cr.dag, "SeedEpochLength")
	if !ok1 || !ok2 || sl.sign() <= 0 {
		in.abort("epoch lengths are not constant")
	}
	return T.sv(st, T.Div(T.Scale(e, el), T.Const(sl), true))
}

// generating is the epoch of the cache whose generation is under way.
func (cr *cacheRun) generating(st *State) *Term {
	for _, c := range cr.cacheObjs(st) {
		if cr.once(st, c.id) == 2 {
			return cr.objEpoch(st, Loc{obj: c.id})
		}
	}
	return nil
}

func (cr *cacheRun) same(st *State, a, b *Term) bool {
	v, ok := cr.in.T.decide(st, cr.in.T.EQ(a, b))
	return ok && v
}

func (cr *cacheRun) onOS(op *osOp) {
	in, T, st := cr.in, cr.in.T, op.st
	what := func(f string, a ...interface{}) string { return cutS(fmt.Sprintf(f, a...)) }
	if cr.finMode {
		if op.op == "Close" {
			cr.ob("C12", "descriptor closed once", st.getTS(op.file)&fOpen != 0, op.fr, op.site, "the finalizer closes a descriptor that is already closed")
		}
		return
	}
	if cr.dag == nil {
		return
	}
	E := cr.generating(st)
	ownTemp := func(id int) bool { return st.getTS(id)&fTemp != 0 }
	switch op.op {
	case "open":
		k, ok := op.flags.constVal()
		if !ok {
			cr.und("C13", "open flags are not constant at "+in.posStr(op.site.Pos()))
			return
		}
		fl := k.i64()
		n, pat, rest, good := cr.fileName(st, op.path)
		wr := fl&(1|2|0x40|0x200|0x400) != 0
		cr.ob("C16", "file name carries kind, coin, revision and seed", good, op.fr, op.site, what("the name of an opened file does not consist of the storage directory, the kind, the coin's name, revision and seed: %s", op.path))
		if good && E != nil {
			cr.ob("C16", "file of the epoch being generated", cr.same(st, n, cr.chain(st, E)), op.fr, op.site, what("a file of another epoch is opened: %s while generating epoch %s", op.path, short(E)))
			_ = pat
		}
		if wr {
			cr.ob("C13", "only exclusive temporary files are written", fl&0xc0 == 0xc0 && (!good || len(rest) > 0), op.fr, op.site, what("%s is opened for writing without creating it exclusively under a temporary name (flags %#x)", op.path, fl))
			if fl&0xc0 == 0xc0 {
				cr.excl[strings.Join(toks(op.path), "")] = true
			}
			if good {
				cr.ob("C16", "temporary names differ from final names", len(rest) > 0, op.fr, op.site, what("a final name is created: %s", op.path))
			}
		} else if good {
			cr.ob("C16", "final name", len(rest) == 0, op.fr, op.site, what("a file is loaded from an unexpected name: %s", op.path))
		}
	case "Truncate", "write", "writefile":
		okT := op.file != 0 && ownTemp(op.file)
		cr.ob("C13", "only own temporary files are written", okT, op.fr, op.site, what("%s is modified but is not a temporary file created by this call", op.path))
	case "map":
		if k, ok := T.sv(st, op.flags).constVal(); ok && k.i64()&6 != 0 {
			cr.ob("C13", "only own temporary files are mapped for writing", ownTemp(op.file), op.fr, op.site, what("%s is mapped for writing but is not a temporary file created by this call", op.path))
		}
	case "Close":
		cr.ob("C12", "descriptor closed once", st.getTS(op.file)&fOpen != 0, op.fr, op.site, what("the descriptor of %s is closed twice", op.path))
	case "unmap":
		ownTempOrLocal := true
		for _, c := range cr.cacheObjs(st) {
			if cr.known[c.id] && in.reachObj(st, c.id)[op.file] && cr.once(st, c.id) != 2 {
				ownTempOrLocal = false
			}
		}
		for _, a := range op.maps {
			if o := st.obj(a); o != nil && o.shared && cr.sharedMap(st, a) {
				ownTempOrLocal = false
			}
		}
		cr.ob("C12", "only private mappings are unmapped", ownTempOrLocal, op.fr, op.site, "memory of a cache other callers may be reading is unmapped outside its finalizer")
	case "rename":
		cr.onRename(op, E)
	case "remove":
		if cr.excl[strings.Join(toks(op.path), "")] {
			cr.ob("C16", "own temporary file removed", true, op.fr, op.site, "")
			return
		}
		n, _, rest, good := cr.fileName(st, op.path)
		if !cr.ob("C16", "removal is confined to cache files", good && len(rest) == 0, op.fr, op.site, what("a file that is neither a temporary file of this call nor a cache file of this coin and revision is removed: %s", op.path)) {
			return
		}
		if E == nil {
			cr.ob("C16", "removal of stale epochs", false, op.fr, op.site, what("cache file %s is removed outside generation", op.path))
			return
		}
		cnt, _ := in.cfgInt(st, cr.dag, "CachesCount")
		old := cr.chain(st, T.AddK(E, cnt.neg()))
		v, ok := T.decide(st, T.LE(n, old))
		cr.ob("C16", "removal of stale epochs", ok && v, op.fr, op.site, what("a cache file of an epoch less than %s epochs older than the generated one may be removed: seed after %s hashes, generated epoch %s", cnt, short(n), short(E)))
	case "mkdir":
		t := cr.p.pkg("internal/dag").Type("DAG")
		d, _ := in.field(st, cr.dag, types.NewPointer(t.Type()), "StorageDir").(*StrV)
		a, b := toks(op.path), toks(d)
		cr.ob("C16", "only the storage directory is created", len(a) <= len(b) && strings.Join(a, "") == strings.Join(b[:len(a)], ""), op.fr, op.site, what("directory %s is created", op.path))
	}
}

// sharedMap tells whether a mapping belongs to a finished shared cache.
func (cr *cacheRun) sharedMap(st *State, id int) bool {
	for _, c := range cr.cacheObjs(st) {
		if s := cr.once(st, c.id); s != 2 && cr.in.reachObj(st, c.id)[id] && (c.shared || cr.known[c.id]) {
			return true
		}
	}
	return false
}

func (cr *cacheRun) und(prop, msg string) {
	cr.obsv = append(cr.obsv, obs{prop: "?" + prop, f: Finding{What: cr.e.String() + ": " + cutS(msg)}})
}

func (cr *cacheRun) onRename(op *osOp, E *Term) {
	in, T, st := cr.in, cr.in.T, op.st
	what := func(f string, a ...interface{}) string { return cutS(fmt.Sprintf(f, a...)) }
	n2, _, r2, good2 := cr.fileName(st, op.path2)
	cr.ob("C16", "renamed to a correct final name", good2 && len(r2) == 0 && E != nil && cr.same(st, n2, cr.chain(st, E)), op.fr, op.site, what("a file is renamed to %s, which is not the name of the epoch being generated", op.path2))
	src, ok1 := cr.inDir(st, op.path)
	_, ok2 := cr.inDir(st, op.path2)
	cr.ob("C13", "renamed inside one directory", ok1 && ok2 && len(src) > 0, op.fr, op.site, what("%s is renamed to %s", op.path, op.path2))
	id := 0
	for f := range in.fileIDs {
		if o := st.obj(f); o != nil {
			if nc, ok := o.c.(*NatC); ok && nc.s != nil && sameVal(nc.s, op.path) {
				id = f
			}
		}
	}
	if !cr.ob("C13", "renamed file is an own temporary file", id != 0 && st.getTS(id)&fTemp != 0, op.fr, op.site, what("%s, which is renamed, is not a temporary file created exclusively by this call", op.path)) {
		return
	}
	v := st.getTS(id)
	cr.ob("C13", "flushed before publication", v&fSynced != 0 && v&fDirty == 0, op.fr, op.site, "the data is not flushed between the last write and the rename")
	cr.ob("C13", "unmapped before publication", v&fMapped == 0, op.fr, op.site, "the file is still mapped for writing when it is renamed")
	cr.ob("C13", "closed before publication", v&fOpen == 0, op.fr, op.site, "the file is still open when it is renamed")
	// content
	var blob *BlobC
	st.mem.Each(func(k uint64, o *Obj) bool {
		if b, ok := o.c.(*BlobC); ok && b.file == id {
			blob = b
		}
		return true
	})
	if !cr.ob("C13", "content written before publication", blob != nil, op.fr, op.site, "nothing was written to the file before the rename") {
		return
	}
	magic := true
	for i, m := range []int64{0xbaddcafe, 0xfee1dead} {
		w := in.blobLoad(st, &BlobC{size: blob.size, dep: blob.dep, tag: blob.tag}, T.Int(int64(4*i)), 4)
		magic = magic && cr.same(st, w, T.Int(m))
	}
	cr.ob("C13", "magic written before publication", magic, op.fr, op.site, "the file is published without the two magic words at its start")
	// the last write of the region after the magic must be the generated data
	tag := blob.tag
	for tag.op == OApp && tag.name == "st" {
		off, okc := tag.args[1].constVal()
		if !okc || !off.lt(ni(8)) {
			break
		}
		tag = tag.args[0]
	}
	if tag.op == OLeaf {
		cr.und("C13", "the content of the published file at "+in.posStr(op.site.Pos())+" is not tracked")
		return
	}
	okd := false
	if tag.op == OApp && tag.name == "cp" && len(tag.args) == 4 {
		off, n, ct := tag.args[1], tag.args[2], tag.args[3]
		okd = off == T.Int(8) && cr.same(st, T.Add(n, T.Int(8)), blob.size)
		gen := ct
		if ct.op == OApp && ct.name == "region" {
			gen = ct.args[0]
			okd = okd && ct.args[1] == T.zero
		}
		if E != nil && gen.op == OApp {
			kind, bad := cr.genContent(st, E, gen)
			cr.ob("C11", "published data belongs to the epoch", kind != "" && bad == "", op.fr, op.site, "the file is published with data of another epoch: "+bad)
			if kind != "" {
				_, pat, _, g := cr.fileName(st, op.path2)
				if g {
					cr.pat(kind, pat)
				}
				want := cr.size(st, E, kind)
				okd = okd && want != nil && cr.same(st, n, want)
			} else {
				okd = false
			}
		} else {
			okd = false
		}
	}
	cr.ob("C13", "complete data written before publication", okd, op.fr, op.site, "the file is published before all of the epoch's data was written to it")
}

func (cr *cacheRun) pat(kind, p string) {
	if cr.pats[kind] == nil {
		cr.pats[kind] = map[string]bool{}
	}
	cr.pats[kind][p] = true
}

// size is the number of bytes a cache or L1 cache of the epoch has.
func (cr *cacheRun) size(st *State, E *Term, kind string) *Term {
	in := cr.in
	if kind == "l1" {
		n, ok := in.cfgInt(st, cr.dag, "L1CacheSize")
		if !ok {
			return nil
		}
		return in.T.Const(n)
	}
	r, ok := in.hooks[cr.p.dagName("CacheSize")](in, st, nil, nil, []Val{cr.dag, E}, nil)
	if !ok {
		return nil
	}
	return r[0].res[0].(*Term)
}

// genContent recognises generated data: its kind, and why it is not the epoch's.
func (cr *cacheRun) genContent(st *State, E *Term, g *Term) (kind, bad string) {
	T := cr.in.T
	if g.op == OApp && g.name == "region" && g.args[1] == T.zero {
		g = g.args[0]
	}
	if g.op != OApp {
		return "", "unknown data"
	}
	switch g.name {
	case "cachegen":
		n := cr.seedCount(g.args[0])
		if n == nil {
			return "cache", "generated from something other than an epoch seed"
		}
		if !cr.same(st, n, cr.chain(st, E)) {
			return "cache", fmt.Sprintf("generated from the seed after %s hashes for epoch %s", short(n), short(E))
		}
		if k, _ := g.args[0].args[0].constVal(); k != ni(32) {
			return "cache", "generated from a part of the seed"
		}
		if w := cr.size(st, E, "cache"); w == nil || !cr.same(st, g.args[1], w) {
			return "cache", fmt.Sprintf("%s bytes generated for epoch %s", short(g.args[1]), short(E))
		}
		return "cache", ""
	case "validcache":
		if !cr.same(st, g.args[0], E) {
			return "cache", fmt.Sprintf("cache of epoch %s used for epoch %s", short(g.args[0]), short(E))
		}
		return "cache", ""
	case "validl1":
		if !cr.same(st, g.args[0], E) {
			return "l1", fmt.Sprintf("L1 cache of epoch %s used for epoch %s", short(g.args[0]), short(E))
		}
		return "l1", ""
	case "l1gen":
		src := g.args[0]
		if src.op == OApp && src.name == "region" {
			src = src.args[0]
		}
		if src.op == OApp {
			k, b := cr.genContent(st, E, src)
			if k != "cache" {
				b = "generated from something other than the epoch's cache"
			}
			return "l1", b
		}
		// data read from a file: which file is checked where it is stored
		if strings.HasPrefix(src.name, "filedata") {
			return "l1", ""
		}
		return "l1", "generated from unknown data"
	}
	return "", "unknown data"
}

// complete checks a cache object whose generation has ended.
func (cr *cacheRun) complete(st *State, c *Obj, fr *Frame, site ssa.Instruction) {
	in, T, sh := cr.in, cr.in.T, cr.sh
	if c.weak {
		return
	}
	E := cr.objEpoch(st, Loc{obj: c.id})
	l1on, okl := in.cfgInt(st, cr.dag, "L1Enabled")
	for _, fi := range []int{sh.main, sh.l1} {
		kind := "cache"
		if fi == sh.l1 {
			kind = "l1"
			if okl && l1on.sign() == 0 {
				continue
			}
		}
		sc, ok := in.contentAt(st, c, []PE{{f: fi}}).(*StructC)
		if !ok {
			cr.und("C15", "content of a cache object is not tracked")
			continue
		}
		s, ok := sc.f[sh.dataF].(*SliceV)
		if !ok {
			continue
		}
		if !cr.ob("C15", kind+" data present", in.condNil(st, s, true) == nil && !s.top, fr, site, "generation may end without "+kind+" data") {
			continue
		}
		want := cr.size(st, E, kind)
		ln := T.Scale(s.len, ni(4))
		cr.ob("C15", kind+" data has the epoch's size", want != nil && cr.same(st, ln, want), fr, site, fmt.Sprintf("%s data of epoch %s has %s bytes instead of %s", kind, short(E), short(ln), short(want)))
		cr.ob("C11", kind+" data has the epoch's size", want != nil && cr.same(st, ln, want), fr, site, fmt.Sprintf("%s data of epoch %s has %s bytes instead of %s", kind, short(E), short(ln), short(want)))
		for _, a := range s.alts {
			one := *s
			one.alts = []SAlt{a}
			o := st.obj(a.loc.obj)
			if o == nil {
				continue
			}
			b, ok := in.contentAt(st, o, a.loc.path).(*BlobC)
			if !ok {
				cr.und("C15", fmt.Sprintf("%s data is kept in %T", kind, o.c))
				continue
			}
			if !cr.ob("C12", kind+" data is mapped", b.mapped != 2, fr, site, "a finished cache refers to unmapped memory") {
				continue
			}
			off := T.Scale(a.off, ni(int64(a.esz)))
			if b.file != 0 {
				cr.fileContent(st, c, E, kind, b, off, ln, fr, site)
				continue
			}
			tag := b.tag
			if tag.op == OLeaf {
				cr.und("C15", kind+" data is not tracked")
				continue
			}
			g, bad := cr.genContent(st, E, tag)
			if g == "" {
				cr.ob("C15", kind+" data is completely generated", false, fr, site, fmt.Sprintf("generation may end with %s data that was not (completely) generated: %s", kind, short(tag)))
				continue
			}
			cr.ob("C15", kind+" data is completely generated", g == kind, fr, site, g+" data is used as "+kind+" data")
			wo := T.zero
			if strings.HasPrefix(tag.name, "valid") {
				wo = T.Int(8)
			}
			cr.ob("C15", kind+" data starts at its beginning", cr.same(st, off, wo), fr, site, kind+" data is used from a wrong offset")
			cr.ob("C11", kind+" data belongs to the epoch", bad == "", fr, site, bad)
			cr.ob("C15", kind+" data is that of the epoch", bad == "", fr, site, bad)
		}
	}
}

// fileContent checks data that comes from a file found on disk.
func (cr *cacheRun) fileContent(st *State, c *Obj, E *Term, kind string, b *BlobC, off, ln *Term, fr *Frame, site ssa.Instruction) {
	in, T := cr.in, cr.in.T
	if b.tag.op != OLeaf || !strings.HasPrefix(b.tag.name, "filedata") {
		if b.rw {
			cr.ob("C14", "file data", false, fr, site, "a writable mapping is used as cache data")
		}
		return
	}
	want := cr.size(st, E, kind)
	if want == nil {
		return
	}
	cr.ob("C14", kind+" file has the exact size", cr.same(st, b.size, T.Add(want, T.Int(8))), fr, site, fmt.Sprintf("a %s file is used whose size is not known to be 8 + %s bytes", kind, short(want)))
	for i, m := range []int64{0xbaddcafe, 0xfee1dead} {
		w := in.blobLoad(st, b, T.Int(int64(4*i)), 4)
		cr.ob("C14", kind+" file magic", cr.same(st, w, T.Int(m)), fr, site, fmt.Sprintf("a %s file is used without magic word %d having been verified", kind, i))
	}
	cr.ob("C14", kind+" data follows the magic", cr.same(st, off, T.Int(8)) && cr.same(st, ln, want), fr, site, "the data taken from the file is not what follows the magic")
	o := st.obj(b.file)
	if o == nil {
		return
	}
	nc, ok := o.c.(*NatC)
	if !ok || nc.s == nil {
		return
	}
	n, pat, rest, good := cr.fileName(st, nc.s)
	if !good || len(rest) > 0 {
		cr.ob("C16", "data loaded from a correctly named file", false, fr, site, cutS("cache data is loaded from "+nc.s.String()))
		return
	}
	cr.pat(kind, pat)
	cr.ob("C11", kind+" file belongs to the epoch", cr.same(st, n, cr.chain(st, E)), fr, site, fmt.Sprintf("the file of the seed after %s hashes is used for epoch %s", short(n), short(E)))
}

// finishGetCache checks the outcomes of GetCache.
func (cr *cacheRun) finishGetCache() {
	in, T, sh := cr.in, cr.in.T, cr.sh
	for _, o := range cr.outs {
		st := o.st
		fr := &Frame{fn: cr.fn}
		cr.endState(st, fr, nil)
		if in.condNil(st, o.res[0], true) != nil {
			cr.ob("C15", "a cache is returned", false, fr, nil, "GetCache may return nil")
			continue
		}
		p, ok := o.res[0].(*PtrV)
		if !ok || p.top {
			cr.und("C11", "the result of GetCache is not tracked")
			continue
		}
		for _, l := range p.alts {
			e := cr.objEpoch(st, l)
			cr.ob("C11", "the returned cache is of the requested epoch", cr.same(st, e, cr.epoch), fr, nil, fmt.Sprintf("GetCache(%s) may return the cache of epoch %s", short(cr.epoch), short(e)))
			c := st.obj(l.obj)
			if c == nil || len(l.path) > 0 {
				continue
			}
			cr.ob("C10", "generated before use", cr.once(st, c.id) == 1, fr, nil, "GetCache may return a cache whose generation has not finished")
			cr.complete(st, c, fr, nil)
			found := strings.HasPrefix(c.label, "entry:")
			n := st.getTS(cr.gocnt)
			if found {
				cr.ob("C23", "no background generation for a retained epoch", n == 0, fr, nil, "a goroutine is started although the epoch is retained already")
			}
		}
		m := st.obj(cr.mapID)
		if m == nil {
			continue
		}
		if mc, ok := m.c.(*MapC); ok {
			cnt, _ := in.cfgInt(st, cr.dag, "CachesCount")
			v, dec := T.decide(st, T.LE(mc.len, T.Const(cnt)))
			cr.ob("C23", "retained epochs are bounded", dec && v, fr, nil, fmt.Sprintf("more than %s caches may be retained after the call (%s)", cnt, in.rngStr(st, mc.len)))
		}
		// which other caches does the DAG keep?
		var dobj *Obj
		if dp, ok := cr.dag.(*PtrV); ok {
			dobj = st.obj(dp.alts[0].obj)
		}
		if dobj == nil {
			continue
		}
		sc, ok := dobj.c.(*StructC)
		if !ok {
			continue
		}
		extra := 0
		kept := map[int]bool{}
		if mc, ok := m.c.(*MapC); ok {
			for _, e := range mc.ents {
				if p, ok := e.v.(*PtrV); ok && len(p.alts) == 1 {
					kept[p.alts[0].obj] = true
				}
			}
		}
		for i, f := range sc.f {
			if i == sh.mapF {
				if mv, ok := f.(*MapV); ok && mv.obj != cr.mapID {
					cr.ob("C23", "the set of caches stays in place", false, fr, nil, "the map of caches is replaced")
				}
				continue
			}
			ids := in.reach(&State{mem: in.only(st, sh.cache)}, []Val{f})
			for id := range ids {
				if x := st.obj(id); x != nil && types.Identical(x.typ, sh.cache) && !kept[id] {
					kept[id] = true
					extra++
				}
			}
			if s, ok := f.(*SliceV); ok && i < sh.dagS.NumFields() {
				r := T.rng(st, s.len)
				good := r.hi.finite() && r.hi.le(ni(16))
				if old := cr.slices[i]; old != nil && !good {
					v, dec := T.decide(st, T.LE(s.len, old))
					good = dec && v
				}
				cr.ob("C23", "no other container grows", good, fr, nil, "field "+sh.dagS.Field(i).Name()+" may grow with every call")
			}
		}
		cr.ob("C23", "one pre-generated epoch", extra <= 1, fr, nil, fmt.Sprintf("%d caches are kept besides the retained ones", extra))
	}
}

// only keeps the objects of one type, without marking any as a root.
func (in *Interp) only(st *State, t types.Type) *PMap[*Obj] {
	var m *PMap[*Obj]
	st.mem.Each(func(k uint64, o *Obj) bool {
		if types.Identical(o.typ, t) {
			n := *o
			n.shared, n.global = false, false
			m = m.Set(k, &n)
		}
		return true
	})
	return m
}
