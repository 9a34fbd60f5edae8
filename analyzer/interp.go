package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx identifies a dynamic context: the chain of call sites and loop iterations.
type Ctx struct {
	id     int
	parent *Ctx
	at     interface{} // ssa.Instruction or *Loop
	iter   int         // iteration; -1 for the generic iteration of a loop
}

type ctxKey struct {
	parent int
	at     interface{}
	iter   int
}

type Frame struct {
	fn   *ssa.Function
	info *FnInfo
	ctx  *Ctx
	rets []ret
	up   *Frame
	site ssa.Instruction
}

type ret struct {
	st  *State
	res []Val
}

type Outcome struct {
	st  *State
	res []Val
}

// Event is a fact found during analysis; events of superseded passes are dropped.
type Event struct {
	kind string
	ok   bool
	fn   *ssa.Function
	pos  token.Pos
	msg  string
	ctx  *Ctx
	data interface{}
}

type objKey struct {
	ctx int
	at  interface{}
	sub string
}

type Hook func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool)

type Interp struct {
	dagV          Val // the DAG of the entry under analysis
	P             *Program
	T             *Terms
	infos         map[*ssa.Function]*FnInfo
	ctxs          map[ctxKey]*Ctx
	objIDs        map[objKey]int
	nobj          int
	globals       map[*ssa.Global]int
	sumCache      map[*ArrC]Val
	hashes        map[*ArrC]string
	buf           [][]Event
	events        []Event
	hooks         map[string]Hook // by function name; consulted before models
	iters         []*loopStat
	steps         int64
	maxSteps      int64
	deadline      time.Time
	maxPart       int
	unroll        int
	unrollP       int
	mergeAll      map[string]bool
	unrollSteps   int64
	prod          int
	cur           *Frame
	curInstr      ssa.Instruction
	depth         int
	rec           map[*ssa.Function]*recSummary
	badDeps       map[int32]bool // labels whose control flow is tracked
	badAll        bool           // track all labels but those of arguments and parameters
	onAccess      func(st *State, fr *Frame, instr ssa.Instruction, o *Obj, loc Loc, write bool, full bool)
	onCall        func(st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction)
	onRet         func(st *State, fr *Frame, fn *ssa.Function, res []Val)
	onBranch      func(st *State, fr *Frame, ins *ssa.If, cond *Term)
	onGo          func(st *State, fr *Frame, fn *FuncV, args []Val, site ssa.Instruction)
	onGoEnd       func(fr *Frame, outs []Outcome, site ssa.Instruction)
	tsName        func(id int) string
	onMaterialize func(st *State, obj int, key Val) (Val, bool)
	onOS          func(e *osOp)
	iterKey       func(st *State, obj int) Val // names the arbitrary key an iteration meets
	onMapSet      func(st *State, obj int, key, val Val)
	onInvoke      func(st *State, fr *Frame, iv *IfaceV, m *types.Func, args []Val, site ssa.Instruction) ([]Outcome, bool)
	debug         bool
	inputLen      N
	aborted       string
	fnsSeen       map[*ssa.Function]bool
	instrs        map[ssa.Instruction]bool
	noInline      map[string]bool
	opaqueGlobals bool
	loopsSeen     map[*Loop]bool
	mapIterN      map[int]int
	modelHits     map[string]bool
	asm           map[string]*asmFn // bodies of assembly functions to interpret
	asmArch       string
	wordBits      int // size of int and uintptr, 64 unless set
	fileIDs       map[int]bool
	locks         map[int]Loc
	fnCosts       map[*ssa.Function]int
	euclidMemo    map[*ssa.Function]int8
	callKeys      map[*ssa.Function]int
	loopCalls     map[*Loop]bool
	blobLimit     int64
	gt            *gates          // track guards and merge by selection
	arrs          map[*Term]*ArrC // contents behind array versions
	shareOn       bool            // track which objects other goroutines can reach
	coarse        bool            // merges drop facts known on one side only
	noPeel        bool            // summarise every loop from its entry state
	freeOuter     bool            // unroll loops that call repository functions completely
}

// runDeadline bounds the analysis as a whole.
var runDeadline time.Time

type loopStat struct {
	loop      *Loop
	constExit bool
	diff      N
	hasDiff   bool
	short     bool // few iterations are left whatever the values
}

type abortPanic struct{ msg string }

func newInterp(p *Program) *Interp {
	in := &Interp{P: p, T: newTerms(), infos: map[*ssa.Function]*FnInfo{}, ctxs: map[ctxKey]*Ctx{}, objIDs: map[objKey]int{}, globals: map[*ssa.Global]int{}, sumCache: map[*ArrC]Val{}, hashes: map[*ArrC]string{}, hooks: map[string]Hook{}, rec: map[*ssa.Function]*recSummary{}, badDeps: map[int32]bool{}, maxSteps: 400e6, maxPart: 16, unroll: 260, unrollP: 2100, unrollSteps: 600000, prod: 1, fnsSeen: map[*ssa.Function]bool{}, instrs: map[ssa.Instruction]bool{}, loopsSeen: map[*Loop]bool{}, mapIterN: map[int]int{}, modelHits: map[string]bool{}, fileIDs: map[int]bool{}, locks: map[int]Loc{}, fnCosts: map[*ssa.Function]int{}, euclidMemo: map[*ssa.Function]int8{}, callKeys: map[*ssa.Function]int{}, mergeAll: map[string]bool{}, loopCalls: map[*Loop]bool{}}
	in.blobLimit = defBlobLimit
	in.inputLen = pow2(40)
	in.deadline = runDeadline
	if runDeadline.IsZero() {
		in.deadline = time.Now().Add(time.Hour)
	}
	return in
}

func (in *Interp) abort(msg string) { panic(abortPanic{msg}) }

func (in *Interp) info(fn *ssa.Function) *FnInfo {
	fi := in.infos[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		in.infos[fn] = fi
	}
	return fi
}

func (in *Interp) ctx(parent *Ctx, at interface{}, iter int) *Ctx {
	k := ctxKey{0, at, iter}
	if parent != nil {
		k.parent = parent.id
	}
	c := in.ctxs[k]
	if c == nil {
		c = &Ctx{id: len(in.ctxs) + 1, parent: parent, at: at, iter: iter}
		in.ctxs[k] = c
	}
	return c
}

func (in *Interp) newID(ctx *Ctx, at interface{}, sub string) int {
	k := objKey{0, at, sub}
	if ctx != nil {
		k.ctx = ctx.id
	}
	id, ok := in.objIDs[k]
	if !ok {
		in.nobj++
		id = in.nobj
		in.objIDs[k] = id
	}
	return id
}

func (in *Interp) emit(e Event) {
	if e.ctx == nil && in.cur != nil {
		e.ctx = in.cur.ctx
	}
	if e.fn == nil && in.cur != nil {
		e.fn = in.cur.fn
	}
	if e.pos == token.NoPos && in.curInstr != nil {
		e.pos = in.curInstr.Pos()
		if e.pos == token.NoPos {
			e.pos = nearPos(in.curInstr)
		}
	}
	if n := len(in.buf); n > 0 {
		in.buf[n-1] = append(in.buf[n-1], e)
		return
	}
	in.events = append(in.events, e)
}

func (in *Interp) pushBuf() { in.buf = append(in.buf, nil) }
func (in *Interp) popBuf(commit bool) {
	n := len(in.buf) - 1
	b := in.buf[n]
	in.buf = in.buf[:n]
	if commit {
		if n > 0 {
			in.buf[n-1] = append(in.buf[n-1], b...)
		} else {
			in.events = append(in.events, b...)
		}
	}
}

func nearPos(i ssa.Instruction) token.Pos {
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	last := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos() != token.NoPos {
			last = x.Pos()
		}
		if x == i && last != token.NoPos {
			return last
		}
	}
	if last != token.NoPos {
		return last
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		for k := len(d.Instrs) - 1; k >= 0; k-- {
			if p := d.Instrs[k].Pos(); p != token.NoPos {
				return p
			}
		}
	}
	return i.Parent().Pos()
}

func (in *Interp) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := in.P.SSA.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(in.P.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (in *Interp) unsupported(msg string) {
	in.emit(Event{kind: "unsupported", msg: msg})
}

func (in *Interp) oblig(kind string, ok bool, msg string) {
	in.emit(Event{kind: kind, ok: ok, msg: msg})
}

/* types */

func (in *Interp) intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	if in.wordBits == 32 {
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return 32, true, true
		case types.Uint, types.Uintptr:
			return 32, false, true
		}
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeIv(w int, signed bool) Iv {
	if signed {
		return Iv{pow2(w - 1).neg(), pow2(w - 1).sub(n1)}
	}
	return Iv{n0, pow2(w).sub(n1)}
}

func (in *Interp) sizeof(t types.Type) int {
	if w, _, ok := in.intInfo(t); ok {
		return w / 8
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Float32:
			return 4
		case types.Float64:
			return 8
		case types.String:
			return 16
		}
	case *types.Array:
		return int(u.Len()) * in.sizeof(u.Elem())
	}
	return 8
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsafePtr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (in *Interp) zero(t types.Type) Val {
	T := in.T
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return litStr("", T.deps.empty)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilPtr()
		}
		return T.zero
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return &SliceV{null: nilYes, len: T.zero, cap: T.zero}
	case *types.Map:
		return &MapV{null: nilYes}
	case *types.Chan:
		return &ChanV{null: nilYes}
	case *types.Signature:
		return &FuncV{null: nilYes}
	case *types.Interface:
		return &IfaceV{null: nilYes}
	case *types.Struct:
		s := &StructC{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrC{n: T.Int(u.Len()), def: in.zero(u.Elem()), et: u.Elem()}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, in.zero(u.At(i).Type()))
		}
		return tv
	}
	in.unsupported("zero value of " + fmt.Sprint(t))
	return T.zero
}

// havoc makes an unknown value of a type.
func (in *Interp) havoc(t types.Type, name string, d *Dep) Val {
	T := in.T
	if d == nil {
		d = T.deps.empty
	}
	nt := func() *Term { return T.Leaf(name+".nil", Iv{n0, n1}, d) }
	if w, s, ok := in.intInfo(t); ok {
		return T.Leaf(name, typeIv(w, s), d)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.Leaf(name, Iv{n0, n1}, d)
		case u.Info()&types.IsString != 0:
			return &StrV{parts: []StrPart{{t: T.Leaf(name, ivTop, d), how: "str"}}, dep: d}
		case u.Kind() == types.UnsafePointer:
			return &PtrV{null: nilMaybe, nt: nt(), top: true}
		}
		return T.Leaf(name, ivTop, d)
	case *types.Pointer:
		return &PtrV{null: nilMaybe, nt: nt(), top: true}
	case *types.Slice:
		l := T.Leaf(name+".len", Iv{n0, in.inputLen}, d)
		return &SliceV{null: nilMaybe, nt: nt(), top: true, len: l, cap: T.Leaf(name+".cap", Iv{n0, in.inputLen}, d)}
	case *types.Map:
		return &MapV{null: nilMaybe, nt: nt()}
	case *types.Chan:
		return &ChanV{null: nilMaybe, nt: nt()}
	case *types.Signature:
		return &FuncV{null: nilMaybe, nt: nt(), top: true}
	case *types.Interface:
		return &IfaceV{null: nilMaybe, nt: nt()}
	case *types.Struct:
		s := &StructC{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.havoc(u.Field(i).Type(), fmt.Sprintf("%s.%d", name, i), d)
		}
		return s
	case *types.Array:
		return &ArrC{n: T.Int(u.Len()), sum: in.havoc(u.Elem(), name+"[]", d), et: u.Elem()}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, in.havoc(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), d))
		}
		return tv
	}
	return T.Leaf(name, ivTop, d)
}

// valDep collects the provenance of a value (not through memory).
func (in *Interp) valDep(v Val) *Dep {
	T := in.T
	d := T.deps.empty
	switch x := v.(type) {
	case nil:
	case *Term:
		return x.dep
	case *StrV:
		return x.dep
	case *SliceV:
		d = T.deps.or(x.len.dep, x.cap.dep)
		for _, a := range x.alts {
			d = T.deps.or(d, a.off.dep)
		}
		if x.nt != nil {
			d = T.deps.or(d, x.nt.dep)
		}
	case *PtrV:
		if x.nt != nil {
			d = x.nt.dep
		}
	case *IfaceV:
		d = in.valDep(x.v)
		if x.nt != nil {
			d = T.deps.or(d, x.nt.dep)
		}
	case *StructC:
		for _, f := range x.f {
			d = T.deps.or(d, in.valDep(f))
		}
	case *ArrC:
		d = in.valDep(in.arrSum(x))
	case *TupleV:
		for _, f := range x.vs {
			d = T.deps.or(d, in.valDep(f))
		}
	case *FuncV:
		for _, f := range x.binds {
			d = T.deps.or(d, in.valDep(f))
		}
	case *BlobC:
		d = x.dep
		if x.tag != nil {
			d = T.deps.or(d, x.tag.dep)
		}
	}
	return d
}

// deepDep collects the provenance of everything reachable from a value.
func (in *Interp) deepDep(st *State, v Val) *Dep {
	d := in.T.deps.empty
	seen := map[int]bool{}
	var walk func(v Val)
	visit := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		if o := st.obj(id); o != nil {
			walk(o.c)
		}
	}
	walk = func(v Val) {
		d = in.T.deps.or(d, in.valDep(v))
		switch x := v.(type) {
		case *PtrV:
			for _, a := range x.alts {
				visit(a.obj)
			}
		case *SliceV:
			for _, a := range x.alts {
				visit(a.loc.obj)
			}
		case *IfaceV:
			walk(x.v)
		case *StructC:
			for _, f := range x.f {
				walk(f)
			}
		case *ArrC:
			if x.sum != nil {
				walk(x.sum)
			}
			walk(x.def)
			x.elems.Each(func(_ uint64, e Val) bool { walk(e); return true })
		case *TupleV:
			for _, f := range x.vs {
				walk(f)
			}
		case *FuncV:
			for _, f := range x.binds {
				walk(f)
			}
		case *NatC:
			d = in.T.deps.or(d, x.dep)
			for _, f := range x.b {
				walk(f)
			}
		}
	}
	walk(v)
	return d
}

/* objects */

func (in *Interp) alloc(st *State, ctx *Ctx, at interface{}, sub string, typ types.Type, c Val) *PtrV {
	id := in.newID(ctx, at, sub)
	if old := st.obj(id); old != nil {
		if _, isNat := c.(*NatC); !isNat {
			j := &joiner{in: in, a: st, b: st, site: fmt.Sprintf("w%d", id), pairs: map[[2]*Term]*Term{}, taint: in.T.deps.empty}
			n := *old
			n.weak = true
			n.c = j.val(old.c, c, typ, &pn{nil, "w", 0})
			st.setObj(&n)
			return &PtrV{alts: []Loc{{obj: id}}}
		}
	}
	site := ""
	if i, ok := at.(ssa.Instruction); ok {
		site = in.posStr(i.Pos())
	}
	st.setObj(&Obj{id: id, typ: typ, c: c, site: site, label: sub})
	return &PtrV{alts: []Loc{{obj: id}}}
}

// default of Interp.blobLimit: arrays up to this many elements are tracked one by one
const defBlobLimit = 2048

// allocArr makes a backing array of n elements.
func (in *Interp) allocArr(st *State, ctx *Ctx, at interface{}, sub string, et types.Type, n *Term) Loc {
	n = in.T.sv(st, n)
	_, _, isInt := in.intInfo(et)
	var c Val
	if k, ok := n.constVal(); ok && (!isInt || k.le(ni(in.blobLimit))) && k.le(ni(1<<20)) {
		c = &ArrC{n: n, def: in.zero(et), et: et}
	} else if isInt {
		c = &BlobC{size: in.T.Scale(n, ni(int64(in.sizeof(et)))), dep: in.T.deps.empty, tag: in.T.zero}
	} else {
		c = &ArrC{n: n, sum: in.zero(et), et: et}
	}
	p := in.alloc(st, ctx, at, sub, types.NewSlice(et), c)
	return p.alts[0]
}

func (in *Interp) arrHash(a *ArrC) string {
	if h, ok := in.hashes[a]; ok {
		return h
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d;", a.n.id)
	if t, ok := a.def.(*Term); ok {
		fmt.Fprintf(&b, "d%d;", t.id)
	}
	if t, ok := a.sum.(*Term); ok {
		fmt.Fprintf(&b, "s%d;", t.id)
	}
	if a.ver != nil {
		fmt.Fprintf(&b, "v%d;", a.ver.id)
	}
	a.elems.Each(func(k uint64, v Val) bool {
		if t, ok := v.(*Term); ok {
			fmt.Fprintf(&b, "%d=%d;", k, t.id)
		}
		return true
	})
	h := fmt.Sprintf("%x", fnv64(b.String()))
	in.hashes[a] = h
	return h
}

// arrVer is a term standing for the content of an array.
func (in *Interp) arrVer(a *ArrC) *Term {
	if a.ver != nil && a.elems == nil {
		return a.ver
	}
	t := in.T.Leaf("arr#"+in.arrHash(a), ivTop, in.valDep(in.arrSum(a)))
	if in.arrs != nil && in.arrs[t] == nil {
		in.arrs[t] = a
	}
	return t
}

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

/* expressions */

func (in *Interp) constVal(c *ssa.Const) Val {
	T := in.T
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if w, s, ok := in.intInfo(c.Type()); ok {
		v := constant.ToInt(c.Value)
		b, okb := new(big.Int).SetString(v.ExactString(), 10)
		if !okb {
			in.unsupported("constant")
			return T.zero
		}
		_ = w
		_ = s
		return T.Const(nbig(b))
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return T.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return litStr(constant.StringVal(c.Value), T.deps.empty)
	}
	return T.App("float:"+c.Value.ExactString(), ivTop)
}

func (in *Interp) get(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return in.globalPtr(st, x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	r := st.regs[fr.info.reg[v]]
	if r == nil {
		in.abort(fmt.Sprintf("register %s of %s undefined", v.Name(), fr.fn))
	}
	return r
}

func (in *Interp) set(st *State, fr *Frame, v ssa.Value, x Val) { st.regs[fr.info.reg[v]] = x }

func (in *Interp) globalPtr(st *State, g *ssa.Global) *PtrV {
	id, ok := in.globals[g]
	if !ok {
		in.nobj++
		id = in.nobj
		in.globals[g] = id
	}
	if st.obj(id) == nil {
		et := g.Type().(*types.Pointer).Elem()
		var c Val
		if g.Pkg != nil && in.inRepo(g.Pkg.Pkg.Path()) {
			c = in.zero(et)
		} else if _, isI := under(et).(*types.Interface); isI {
			c = &IfaceV{tag: g.String()}
		} else if s, isS := under(et).(*types.Struct); isS && s.NumFields() == 0 {
			c = in.zero(et)
		} else {
			c = in.havoc(et, "global:"+g.String(), in.T.deps.label("env"))
		}
		st.setObj(&Obj{id: id, typ: et, c: c, global: true, site: g.String(), label: g.String()})
	}
	return &PtrV{alts: []Loc{{obj: id}}}
}

func (in *Interp) inRepo(path string) bool {
	return path == in.P.Mod || strings.HasPrefix(path, in.P.Mod+"/")
}

func (in *Interp) isNil(st *State, null int8, nt *Term) (val, ok bool) {
	switch null {
	case nilNo:
		return false, true
	case nilYes:
		return true, true
	}
	if nt == nil {
		return false, false
	}
	return in.T.decide(st, nt)
}

func nullOf(v Val) (int8, *Term, bool) {
	switch x := v.(type) {
	case *PtrV:
		return x.null, x.nt, true
	case *SliceV:
		return x.null, x.nt, true
	case *IfaceV:
		return x.null, x.nt, true
	case *MapV:
		return x.null, x.nt, true
	case *FuncV:
		return x.null, x.nt, true
	case *ChanV:
		return x.null, x.nt, true
	}
	return 0, nil, false
}

/* running */

func (in *Interp) siteName(fr *Frame, at ssa.Instruction) string {
	n := 0
	if at != nil && at.Block() != nil {
		for i, x := range at.Block().Instrs {
			if x == at {
				n = at.Block().Index*10000 + i
				break
			}
		}
	}
	return fmt.Sprintf("%s#%d@%d", fr.fn.Name(), n, fr.ctx.id)
}

// partition key of a state over its live registers
func (in *Interp) key(st *State, vals []Val, ints bool) string {
	var b strings.Builder
	for i, v := range vals {
		if v == nil {
			continue
		}
		if n, nt, ok := nullOf(v); ok {
			if n == nilMaybe {
				if x, ok := in.isNil(st, n, nt); ok {
					if x {
						n = nilYes
					} else {
						n = nilNo
					}
				}
			}
			fmt.Fprintf(&b, "%d:%d", i, n)
			if n != nilYes {
				switch x := v.(type) {
				case *PtrV:
					for _, l := range x.alts {
						fmt.Fprintf(&b, "p%d", l.obj)
					}
				case *SliceV:
					for _, l := range x.alts {
						fmt.Fprintf(&b, "s%d", l.loc.obj)
					}
				case *IfaceV:
					if x.typ != nil {
						b.WriteString(x.typ.String())
					}
				case *FuncV:
					fmt.Fprintf(&b, "%p", x.fn)
				}
			}
			b.WriteByte(';')
			continue
		}
		if t, ok := v.(*Term); ok && t.op == OConst {
			if t.iv.hi.le(n1) && t.iv.lo.sign() >= 0 || ints {
				fmt.Fprintf(&b, "%d=%s;", i, t.k)
			}
		} else if t, ok := v.(*TupleV); ok {
			fmt.Fprintf(&b, "%d(%s);", i, in.key(st, t.vs, ints))
		}
	}
	return b.String()
}

func (in *Interp) tsKey(st *State) string {
	var b strings.Builder
	st.ts.Each(func(k uint64, v int8) bool {
		if v != 0 {
			fmt.Fprintf(&b, "t%d=%d;", k, v)
		}
		return true
	})
	return b.String()
}

// mergeStates partitions states and joins each class.
func (in *Interp) mergeStates(fr *Frame, b *ssa.BasicBlock, sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	for _, s := range sts {
		fr.info.prune(s, b)
	}
	for mode := 0; ; mode++ {
		groups := map[string][]*State{}
		var order []string
		for _, s := range sts {
			k := ""
			switch mode {
			case 0:
				k = in.key(s, s.regs, true) + in.tsKey(s)
			case 1:
				k = in.key(s, s.regs, false) + in.tsKey(s)
			case 2:
				k = in.tsKey(s)
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		lim := in.maxPart
		if mode == 0 {
			lim = 6
		}
		if len(order) > lim && mode < 3 {
			if mode == 2 && in.debug {
				fmt.Fprintln(os.Stderr, "PARTITIONS", fr.fn.Name(), b.Index, len(order), order)
			}
			continue
		}
		var out []*State
		for _, k := range order {
			g := groups[k]
			s := g[0]
			for i := 1; i < len(g); i++ {
				s = in.join(s, g[i], fmt.Sprintf("J%d.%d.%d.%d.", fr.ctx.id, b.Index, len(out), i), fr.info.regTypes)
			}
			out = append(out, s)
		}
		return out
	}
}

type exitEdge struct {
	to *ssa.BasicBlock
	st *State
}

// edge evaluates the phis of to for the edge from->to (n-th such edge).
func (in *Interp) edge(fr *Frame, st *State, from *ssa.BasicBlock, to *ssa.BasicBlock, succ int) *State {
	occ := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, in.get(st, fr, phi.Edges[pi]))
	}
	for i, p := range phis {
		v := vals[i]
		if t, ok := v.(*Term); ok {
			v = in.T.sv(st, t)
		}
		in.set(st, fr, p, v)
	}
	return st
}

func (in *Interp) execRegion(fr *Frame, loop *Loop, entry []*State, start *ssa.BasicBlock) (exits []exitEdge, backs []*State) {
	pending := map[*ssa.BasicBlock][]*State{start: entry}
	push := func(from, to *ssa.BasicBlock, succ int, st *State) {
		st = in.edge(fr, st, from, to, succ)
		if loop != nil && to == loop.header {
			backs = append(backs, st)
			return
		}
		if loop != nil && !loop.blocks[to] {
			exits = append(exits, exitEdge{to, st})
			return
		}
		pending[to] = append(pending[to], st)
		if l := pending[to]; len(l) > 48 {
			pending[to] = in.mergeStates(fr, to, l)
		}
	}
	for _, b := range fr.info.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		inn := fr.info.inner[b]
		if inn == loop || (loop != nil && b == loop.header) || (loop == nil && inn == nil) {
			sts = in.mergeStates(fr, b, sts)
			for _, st := range sts {
				in.execBlock(fr, st, b, 0, push)
			}
			continue
		}
		l := fr.info.loops[b]
		if l == nil || l.parent != loop {
			in.abort("irreducible control flow in " + fr.fn.String())
		}
		for _, e := range in.execLoop(fr, l, sts) {
			// phis already evaluated
			if loop != nil && e.to == loop.header {
				backs = append(backs, e.st)
			} else if loop != nil && !loop.blocks[e.to] {
				exits = append(exits, e)
			} else {
				pending[e.to] = append(pending[e.to], e.st)
				if l := pending[e.to]; len(l) > 48 {
					pending[e.to] = in.mergeStates(fr, e.to, l)
				}
			}
		}
	}
	return
}

func (in *Interp) compactExits(fr *Frame, ex []exitEdge) []exitEdge {
	lim := 160
	if in.coarse {
		lim = 1500
	}
	if len(ex) < lim {
		return ex
	}
	by := map[*ssa.BasicBlock][]*State{}
	var order []*ssa.BasicBlock
	for _, e := range ex {
		if by[e.to] == nil {
			order = append(order, e.to)
		}
		by[e.to] = append(by[e.to], e.st)
	}
	var out []exitEdge
	for _, b := range order {
		// newest first: neighbouring states share most facts
		l := by[b]
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		for _, s := range in.mergeStates(fr, b, l) {
			out = append(out, exitEdge{b, s})
		}
	}
	return out
}

func (in *Interp) execLoop(fr *Frame, l *Loop, entry []*State) (exits []exitEdge) {
	saved := fr.ctx
	savedProd := in.prod
	defer func() { fr.ctx = saved; in.prod = savedProd }()
	in.loopsSeen[l] = true
	cur := in.mergeStates(fr, l.header, entry)
	var lastDiff N
	haveDiff := false
	bigLoop := false
	free := in.freeOuter && in.callsRepo(fr.info, l)
	if in.noPeel {
		return in.execLoopFixAll(fr, l, cur)
	}
	if !free && l.trip > 3 && (l.trip > in.unroll || mulSat(in.prod, in.loopCost(fr.info, l)) > in.unrollP) {
		return in.execLoopFixAll(fr, l, cur)
	}
	if l.trip > 4 {
		in.prod = mulSat(savedProd, l.trip)
	}
	if free {
		in.prod = 1
	}
	steps0 := in.steps
	for iter := 0; ; iter++ {
		fr.ctx = in.ctx(saved, l, iter)
		ls := &loopStat{loop: l}
		in.iters = append(in.iters, ls)
		ex, backs := in.execRegion(fr, l, cur, l.header)
		in.iters = in.iters[:len(in.iters)-1]
		exits = in.compactExits(fr, append(exits, ex...))
		if len(backs) == 0 {
			in.emit(Event{kind: "loop", ok: true, pos: loopPos(l), msg: "unrolled", data: l})
			return exits
		}
		cur = in.mergeStates(fr, l.header, backs)
		if !free && ls.constExit && ls.hasDiff && haveDiff && iter >= 1 {
			step := ls.diff.sub(lastDiff).abs()
			if step.sign() > 0 {
				est := ls.diff.abs().floorDiv(step).add(n1)
				if iter == 1 {
					tot := est.add(ni(int64(iter + 1)))
					if tot.lt(ni(1 << 30)) {
						in.prod = savedProd * int(tot.i64())
					} else {
						in.prod = 1 << 30
					}
					if tot.lt(ni(5)) {
						in.prod = savedProd
					}
				}
				if est.le(ni(1<<20)) && est.i64() > 2 && (in.steps-steps0)/int64(iter+1)*est.i64() > in.unrollSteps {
					bigLoop = true
				}
				if !est.le(ni(int64(in.unroll))) || (in.prod > in.unrollP && est.i64() > 4) {
					bigLoop = true
				}
			}
		}
		if ls.hasDiff {
			lastDiff, haveDiff = ls.diff, true
		}
		if !ls.constExit && !(ls.short && iter < 130) || bigLoop || iter > in.unroll {
			if in.debug && free {
				fmt.Fprintln(os.Stderr, "free loop not unrolled", in.posStr(loopPos(l)), ls.constExit, iter)
			}
			in.prod = savedProd
			fr.ctx = saved
			exits = append(exits, in.execLoopFixAll(fr, l, cur)...)
			return exits
		}
	}
}

// callsRepo tells whether a loop calls functions of the repository.
func (in *Interp) callsRepo(fi *FnInfo, l *Loop) bool {
	if v, ok := in.loopCalls[l]; ok {
		return v
	}
	r := false
	for b := range l.blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && in.inRepo(f.Pkg.Pkg.Path()) {
				r = true
			}
		}
	}
	in.loopCalls[l] = r
	return r
}

func loopPos(l *Loop) token.Pos {
	for _, i := range l.header.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	p := token.NoPos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if q := i.Pos(); q != token.NoPos && (p == token.NoPos || q < p) {
				p = q
			}
		}
	}
	return p
}

// execLoopFixAll handles states with different typestates one by one.
func (in *Interp) execLoopFixAll(fr *Frame, l *Loop, cur []*State) (exits []exitEdge) {
	if len(cur) > 1 {
		groups := map[string][]*State{}
		var order []string
		for _, s := range cur {
			k := in.tsKey(s)
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		if len(order) > 1 && len(order) <= in.maxPart {
			for _, k := range order {
				exits = append(exits, in.execLoopFix(fr, l, groups[k])...)
			}
			return exits
		}
	}
	return in.execLoopFix(fr, l, cur)
}

// execLoopFix summarises a loop. The guard of the entry carries over to its
// exit if there is only one; otherwise it is lost.
func (in *Interp) execLoopFix(fr *Frame, l *Loop, entry []*State) []exitEdge {
	if in.gt == nil {
		return in.execLoopFix1(fr, l, entry)
	}
	g := entry[0]
	for _, e := range entry[1:] {
		g = &State{g: in.joinGuard(g, e)}
	}
	gg, nr := g.g, len(fr.rets)
	ex := in.execLoopFix1(fr, l, entry)
	if len(ex)+len(fr.rets)-nr != 1 {
		gg = gLost
	}
	for _, e := range ex {
		e.st.g = gg
	}
	for _, r := range fr.rets[nr:] {
		r.st.g = gg
	}
	return ex
}

func (in *Interp) execLoopFix1(fr *Frame, l *Loop, entry []*State) []exitEdge {
	T := in.T
	saved := fr.ctx
	defer func() { fr.ctx = saved }()
	fr.ctx = in.ctx(saved, l, -1)
	E := in.joinAll(fr, l.header, entry, "E")
	fr.info.prune(E, l.header)
	lp := &loopJoin{cells: map[string]*lcell{}, prev: E}
	lp.k = T.Leaf(fmt.Sprintf("K@%d", fr.ctx.id), Iv{n0, nInf}, nil)
	bornMax := T.count
	lp.born = func(t *Term) bool { return t.id > bornMax || t == lp.k }
	run := func(H *State) ([]exitEdge, []*State, []ret) {
		in.pushBuf()
		nr := len(fr.rets)
		ex, b := in.execRegion(fr, l, []*State{H.clone()}, l.header)
		r := append([]ret(nil), fr.rets[nr:]...)
		fr.rets = fr.rets[:nr]
		return ex, b, r
	}
	H := E
	ex, backs, rets := run(H)
	if len(backs) == 0 {
		in.popBuf(true)
		fr.rets = append(fr.rets, rets...)
		in.emit(Event{kind: "loop", ok: true, pos: loopPos(l), msg: "at most one more iteration", data: l})
		return ex
	}
	narrowed := false
	for pass := 1; ; pass++ {
		B := in.joinAll(fr, l.header, backs, fmt.Sprintf("B%d", pass))
		fr.info.prune(B, l.header)
		lp.pass = pass
		lp.narrow = false
		N := in.loopHeader(fr, lp, E, B)
		if pass > 1 && in.sameState(N, H) {
			if !narrowed && in.canNarrow(lp, E, B) {
				narrowed = true
				lp.narrow = true
				N2 := in.loopHeader(fr, lp, E, B)
				lp.narrow = false
				if !in.sameState(N2, H) {
					in.popBuf(false)
					H = N2
					lp.prev = H
					ex, backs, rets = run(H)
					if len(backs) == 0 {
						break
					}
					continue
				}
			}
			in.popBuf(true)
			fr.rets = append(fr.rets, rets...)
			in.loopEvent(fr, l, lp, E, H, B)
			return ex
		}
		in.popBuf(false)
		if pass > 40 {
			if in.debug {
				in.diffState(N, H)
			}
			in.unsupported(fmt.Sprintf("loop at %s does not stabilise", in.posStr(loopPos(l))))
			in.pushBuf()
			break
		}
		H = N
		lp.prev = H
		ex, backs, rets = run(H)
		if len(backs) == 0 {
			break
		}
	}
	in.popBuf(true)
	fr.rets = append(fr.rets, rets...)
	return ex
}

func (in *Interp) canNarrow(lp *loopJoin, E, B *State) bool { return lp.pass >= 4 }

func (in *Interp) joinAll(fr *Frame, b *ssa.BasicBlock, sts []*State, tag string) *State {
	for _, s := range sts {
		fr.info.prune(s, b)
	}
	s := sts[0]
	for i := 1; i < len(sts); i++ {
		s = in.join(s, sts[i], fmt.Sprintf("%s%d.%d.%d.", tag, fr.ctx.id, b.Index, i), fr.info.regTypes)
	}
	return s
}

func (in *Interp) loopHeader(fr *Frame, lp *loopJoin, E, B *State) *State {
	T := in.T
	B = in.gc(B, E)
	j := &joiner{in: in, a: E, b: B, site: fmt.Sprintf("H%d.", fr.ctx.id), pairs: map[[2]*Term]*Term{}, taint: T.deps.empty, lp: lp}
	if E.pc != B.pc {
		j.taint = in.keepBad(T.deps.or(E.pc, B.pc))
	}
	out := &State{regs: make([]Val, len(E.regs)), up: E.up, defers: E.defers}
	out.pc = T.deps.or(E.pc, B.pc)
	out.g = E.g
	j.joinInto(out, fr.info.regTypes)
	// objects made by earlier iterations stand for several
	if out.mem != E.mem {
		var weak []*Obj
		diff(E.mem, out.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) {
			if !xok && yok && !y.weak {
				weak = append(weak, y)
			}
		})
		for _, o := range weak {
			n := *o
			n.weak = true
			out.setObj(&n)
		}
	}
	j.refs(out)
	// range of the counter
	rk := T.rng(B, T.AddK(lp.k, n1)).hull(Iv{n0, n0})
	if lp.pass == 1 {
		rk = Iv{n0, nInf}
	} else if lp.prev != nil && !lp.narrow {
		if old, ok := lp.prev.ref.Get(uint64(lp.k.id)); ok {
			if rk.within(old) {
				rk = old
			} else if lp.pass > 3 {
				rk = Iv{n0, nInf}
			}
		} else if lp.pass > 3 {
			rk = Iv{n0, nInf}
		}
	}
	T.setRef(out, lp.k, rk)
	// facts only get weaker after the second pass
	if lp.pass > 2 && !lp.narrow && lp.prev != nil {
		out.ref = merge(out.ref, lp.prev.ref, func(k uint64, x Iv, xok bool, y Iv, yok bool) (Iv, bool) {
			if xok && yok {
				if x.within(y) {
					return y, true
				}
				if lp.pass <= 4 {
					return x.hull(y), true
				}
				return x, false
			}
			if xok { // new fact about an old term: not accepted; about a new symbol: keep early
				return x, lp.pass <= 6
			}
			return y, false
		})
	}
	return out
}

func (in *Interp) keepBad(d *Dep) *Dep {
	var out []int32
	for _, x := range d.bits {
		if in.badDeps[x] || in.badAll && !plainLabel(in.T.deps.labels[x]) {
			out = append(out, x)
		}
	}
	if len(out) == len(d.bits) {
		return d
	}
	return in.T.deps.intern(out)
}

func (in *Interp) sameState(a, b *State) bool {
	for i := range a.regs {
		if !sameVal(a.regs[i], b.regs[i]) {
			return false
		}
	}
	same := a.pc == b.pc
	if a.mem != b.mem {
		diff(a.mem, b.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) {
			if !xok || !yok {
				same = false
				return
			}
			if x != y && (x.weak != y.weak || x.shared != y.shared || !sameVal(x.c, y.c)) {
				same = false
			}
		})
	}
	if a.ref != b.ref {
		diff(a.ref, b.ref, func(k uint64, x Iv, xok bool, y Iv, yok bool) {
			if xok != yok || x != y {
				same = false
			}
		})
	}
	if a.ts != b.ts {
		diff(a.ts, b.ts, func(k uint64, x int8, xok bool, y int8, yok bool) {
			if x != y {
				same = false
			}
		})
	}
	return same
}

func (in *Interp) diffState(a, b *State) {
	for i := range a.regs {
		if !sameVal(a.regs[i], b.regs[i]) {
			fmt.Fprintf(os.Stderr, "reg %d: %s / %s\n", i, in.vstr(a.regs[i]), in.vstr(b.regs[i]))
		}
	}
	diff(a.mem, b.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) {
		if !xok || !yok {
			fmt.Fprintf(os.Stderr, "obj %d present %v %v\n", k, xok, yok)
			return
		}
		if !sameVal(x.c, y.c) {
			fmt.Fprintf(os.Stderr, "obj %d (%s): %s / %s\n", k, x.site, in.vstr(x.c), in.vstr(y.c))
		}
	})
	diff(a.ref, b.ref, func(k uint64, x Iv, xok bool, y Iv, yok bool) {
		if xok != yok || x != y {
			fmt.Fprintf(os.Stderr, "ref %s: %v%s %v%s\n", in.T.byID[k], xok, x, yok, y)
		}
	})
}

func (in *Interp) vstr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.String()
	case *PtrV:
		return fmt.Sprintf("ptr{n%d %v}", x.null, x.alts)
	case *SliceV:
		s := ""
		for _, a := range x.alts {
			s += fmt.Sprintf(" %s+%s/%d", a.loc, a.off, a.esz)
		}
		return fmt.Sprintf("slice{n%d%s len %s cap %s}", x.null, s, x.len, x.cap)
	case *StrV:
		return fmt.Sprintf("%q", x.String())
	case *StructC:
		var o []string
		for _, f := range x.f {
			o = append(o, in.vstr(f))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case *ArrC:
		var o []string
		x.elems.Each(func(k uint64, e Val) bool {
			o = append(o, fmt.Sprintf("%d:%s", k, in.vstr(e)))
			return len(o) < 12
		})
		return fmt.Sprintf("[%s]{def %s sum %s; %s}", x.n, in.vstr(x.def), in.vstr(x.sum), strings.Join(o, ", "))
	case *BlobC:
		return fmt.Sprintf("blob{%s tag %s}", x.size, x.tag)
	case *IfaceV:
		return fmt.Sprintf("iface{n%d %v %s %s}", x.null, x.typ, in.vstr(x.v), x.tag)
	case *FuncV:
		return fmt.Sprintf("func{n%d %v}", x.null, x.fn)
	case *TupleV:
		var o []string
		for _, f := range x.vs {
			o = append(o, in.vstr(f))
		}
		return "(" + strings.Join(o, ", ") + ")"
	case *NatC:
		return "nat:" + x.kind
	case *MapC:
		return fmt.Sprintf("map{%d open %v len %s}", len(x.ents), x.open, x.len)
	}
	return fmt.Sprintf("%T", v)
}

// loopEvent records how the number of iterations is bounded.
func (in *Interp) loopEvent(fr *Frame, l *Loop, lp *loopJoin, E, H, B *State) {
	T := in.T
	info := ""
	ok := false
	if r := T.rng(B, lp.k); r.hi.finite() {
		ok = true
		info = "at most " + r.hi.add(n1).String() + " iterations"
	} else if ub := T.upperBounds(B, lp.k); len(ub) > 0 {
		ok = true
		info = "at most " + ub[0].String() + " iterations"
	} else {
		var names []string
		for n := range lp.cells {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := lp.cells[n]
			if c.h == nil || c.cand && !c.fail || c.h.op != OLeaf {
				continue
			}
			b := in.cellAt(B, n)
			if b == nil {
				continue
			}
			if T.rng(H, c.h).lo.finite() && T.proveGE0(B, T.AddK(T.Sub(c.h, b), nm1)) {
				ok = true
				info = "a bounded value strictly decreases: " + n
				break
			}
			if T.rng(H, c.h).hi.finite() && T.proveGE0(B, T.AddK(T.Sub(b, c.h), nm1)) {
				ok = true
				info = "a bounded value strictly increases: " + n
				break
			}
		}
	}
	in.emit(Event{kind: "loop", ok: ok, pos: loopPos(l), msg: info, data: &loopInfo{l, lp, E, H, B}})
}

type loopInfo struct {
	l       *Loop
	lp      *loopJoin
	E, H, B *State
}

// cellAt finds the term of a register cell.
func (in *Interp) cellAt(st *State, name string) *Term {
	var i int
	if n, _ := fmt.Sscanf(name, "r%d", &i); n == 1 && name == fmt.Sprintf("r%d", i) && i < len(st.regs) {
		if t, ok := st.regs[i].(*Term); ok {
			return t
		}
	}
	var o, f int
	if n, _ := fmt.Sscanf(name, "o%d.f%d", &o, &f); n == 2 && name == fmt.Sprintf("o%d.f%d", o, f) {
		if ob := st.obj(o); ob != nil {
			if s, ok := ob.c.(*StructC); ok && f < len(s.f) {
				if t, ok := s.f[f].(*Term); ok {
					return t
				}
			}
		}
	}
	if n, _ := fmt.Sscanf(name, "o%d", &o); n == 1 && name == fmt.Sprintf("o%d", o) {
		if ob := st.obj(o); ob != nil {
			if t, ok := ob.c.(*Term); ok {
				return t
			}
		}
	}
	return nil
}

// gc drops objects of st that E does not have and nothing reaches.
func (in *Interp) gc(st, E *State) *State {
	if st.mem == E.mem {
		return st
	}
	extra := false
	diff(E.mem, st.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) {
		if !xok {
			extra = true
		}
	})
	if !extra {
		return st
	}
	live := in.reach(st, nil)
	n := *st
	var dead []uint64
	diff(E.mem, st.mem, func(k uint64, x *Obj, xok bool, y *Obj, yok bool) {
		if !xok && !live[int(k)] && !y.global {
			if _, isTS := st.ts.Get(k); isTS {
				if v, _ := st.ts.Get(k); v != 0 {
					return
				}
			}
			dead = append(dead, k)
		}
	})
	for _, k := range dead {
		n.mem = n.mem.Del(k)
		n.ts = n.ts.Del(k)
	}
	return &n
}

// dropDead removes the objects nothing reaches, with their typestate.
func (in *Interp) dropDead(st *State, extra []Val) *State {
	saved := st.regs
	st.regs = nil
	live := in.reach(st, extra)
	st.regs = saved
	n := *st
	st.mem.Each(func(k uint64, o *Obj) bool {
		if !live[int(k)] && !o.global {
			n.mem = n.mem.Del(k)
			n.ts = n.ts.Del(k)
		}
		return true
	})
	return &n
}

// reach computes the objects reachable from the state's roots.
func (in *Interp) reach(st *State, extra []Val) map[int]bool {
	live := map[int]bool{}
	var walk func(v Val)
	visit := func(id int) {
		if id == 0 || live[id] {
			return
		}
		live[id] = true
		if o := st.obj(id); o != nil {
			walk(o.c)
			if o.fin != nil {
				walk(o.fin)
			}
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case *PtrV:
			for _, a := range x.alts {
				visit(a.obj)
			}
		case *SliceV:
			for _, a := range x.alts {
				visit(a.loc.obj)
			}
		case *MapV:
			visit(x.obj)
		case *IfaceV:
			walk(x.v)
		case *StructC:
			for _, f := range x.f {
				walk(f)
			}
		case *ArrC:
			walk(x.def)
			walk(x.sum)
			x.elems.Each(func(_ uint64, e Val) bool { walk(e); return true })
		case *TupleV:
			for _, f := range x.vs {
				walk(f)
			}
		case *FuncV:
			for _, f := range x.binds {
				walk(f)
			}
			walk(x.recv)
			for _, f := range x.alts {
				walk(f)
			}
		case *NatC:
			for _, f := range x.b {
				walk(f)
			}
			visit(x.aux)
		case *BlobC:
			visit(x.file)
		case *MapC:
			for _, e := range x.ents {
				walk(e.k)
				walk(e.v)
			}
		case *DataPtr:
			walk(x.s)
		case *IterV:
			visit(x.mapObj)
			visit(x.obj)
		}
	}
	for _, r := range st.regs {
		walk(r)
	}
	for u := st.up; u != nil; u = u.up {
		for _, r := range u.regs {
			walk(r)
		}
	}
	for _, d := range st.defers {
		walk(d.fn)
		for _, a := range d.args {
			walk(a)
		}
	}
	for _, e := range extra {
		walk(e)
	}
	st.mem.Each(func(k uint64, o *Obj) bool {
		if o.global || o.shared {
			visit(int(k))
		}
		return true
	})
	return live
}

/* calls */

type recSummary struct {
	args []Val
	st   *State
	res  []Val
	used bool
}

const maxDepth = 120

func (in *Interp) callFn(st *State, fr *Frame, fn *ssa.Function, args, binds []Val, site ssa.Instruction) []Outcome {
	if in.onCall != nil {
		in.onCall(st, fr, fn, args, site)
	}
	name := fn.String()
	if h := in.hooks[name]; h != nil {
		if out, ok := h(in, st, fr, fn, args, site); ok {
			return out
		}
	}
	if out, ok := in.model(st, fr, fn, name, args, site); ok {
		return out
	}
	if len(fn.Blocks) == 0 {
		return in.external(st, fr, fn, args, site)
	}
	// recursion
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	if n > 0 {
		if out, ok := in.recurse(st, fr, fn, args, binds, site, n); ok {
			return out
		}
	}
	if in.depth > maxDepth {
		in.abort("call depth exceeded at " + fn.String())
	}
	return in.runFn(st, fr, fn, args, binds, site)
}

func (in *Interp) runFn(st *State, fr *Frame, fn *ssa.Function, args, binds []Val, site ssa.Instruction) []Outcome {
	in.depth++
	defer func() { in.depth-- }()
	in.fnsSeen[fn] = true
	fi := in.info(fn)
	if !fi.reducible {
		in.unsupported("irreducible control flow in " + fn.String())
		return in.havocCall(st, fr, fn, args, site)
	}
	var pctx *Ctx
	if fr != nil {
		pctx = fr.ctx
	}
	var at interface{} = site
	if site == nil {
		at = fn
	}
	nf := &Frame{fn: fn, info: fi, ctx: in.ctx(pctx, at, in.callKey(fn)), up: fr, site: site}
	callerRegs, callerUp, callerDefers := st.regs, st.up, st.defers
	st.up = &upRegs{regs: callerRegs, up: callerUp}
	st.defers = nil
	st.regs = make([]Val, len(fi.regTypes))
	if len(args) != len(fn.Params) {
		in.abort(fmt.Sprintf("bad call of %s", fn))
	}
	for i := range args {
		st.regs[i] = args[i]
	}
	for i := range binds {
		st.regs[len(args)+i] = binds[i]
	}
	saveCur, saveInstr := in.cur, in.curInstr
	in.cur = nf
	in.execRegion(nf, nil, []*State{st}, fn.Blocks[0])
	in.cur, in.curInstr = saveCur, saveInstr
	rets := in.mergeRets(nf, nf.rets)
	var out []Outcome
	for _, r := range rets {
		if in.onRet != nil {
			in.onRet(r.st, nf, fn, r.res)
		}
		r.st.regs = append([]Val(nil), callerRegs...)
		r.st.up = callerUp
		r.st.defers = callerDefers
		out = append(out, Outcome{r.st, r.res})
	}
	return out
}

func (in *Interp) callKey(fn *ssa.Function) int {
	k, ok := in.callKeys[fn]
	if !ok {
		k = 1000000 + len(in.callKeys)
		in.callKeys[fn] = k
	}
	return k
}

func (in *Interp) mergeRets(fr *Frame, rets []ret) []ret {
	if len(rets) <= 1 {
		return rets
	}
	mode := 0
	if in.mergeAll[fr.fn.String()] {
		// one state per combination of nil results; unreachable objects are dropped first
		mode = 4
		for i := range rets {
			rets[i].st = in.dropDead(rets[i].st, rets[i].res)
		}
	}
	for ; ; mode++ {
		groups := map[string][]ret{}
		var order []string
		for _, r := range rets {
			k := ""
			switch mode {
			case 0:
				k = in.key(r.st, r.res, true) + in.tsKey(r.st)
			case 1:
				k = in.key(r.st, r.res, false) + in.tsKey(r.st)
			case 2:
				k = in.tsKey(r.st)
			case 4:
				for _, v := range r.res {
					if n, nt, ok := nullOf(v); ok {
						if v, ok := in.isNil(r.st, n, nt); ok {
							k += fmt.Sprint(v)
						}
						k += ";"
					}
				}
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], r)
		}
		lim := in.maxPart
		if mode == 0 {
			lim = 6
		}
		if len(order) > lim && mode < 3 {
			if mode == 2 && in.debug {
				fmt.Fprintln(os.Stderr, "PARTITIONS ret", fr.fn.Name(), len(order), order)
			}
			continue
		}
		var out []ret
		for _, k := range order {
			g := groups[k]
			types_ := make([]types.Type, fr.fn.Signature.Results().Len())
			for i := range types_ {
				types_[i] = fr.fn.Signature.Results().At(i).Type()
			}
			// carry the results in the registers
			for i := range g {
				g[i].st.regs = g[i].res
			}
			s := g[0].st
			for i := 1; i < len(g); i++ {
				s = in.join(s, g[i].st, fmt.Sprintf("R%d.%d.%d.", fr.ctx.id, len(out), i), types_)
			}
			res := s.regs
			s.regs = nil
			out = append(out, ret{s, res})
		}
		return out
	}
}

// external is a function without Go body.
func (in *Interp) external(st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome {
	in.emit(Event{kind: "external", ok: true, msg: fn.String()})
	if o, ok := in.asmCall(st, fr, fn, args); ok {
		return o
	}
	if isXorKernel(fn) {
		if in.xorContract(st, args) {
			return []Outcome{{st, nil}}
		}
		in.unsupported(fn.String() + " on a block of unknown length")
	} else if fn.Pkg != nil && in.inRepo(fn.Pkg.Pkg.Path()) {
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if _, _, ok := in.intInfo(fn.Signature.Params().At(i).Type()); !ok {
				in.unsupported("no contract for the assembly function " + fn.String())
				break
			}
		}
	}
	return in.havocCall(st, fr, fn, args, site)
}

// isXorKernel recognises the assembly kernels of XORBytes (C19 decides their bodies).
func isXorKernel(fn *ssa.Function) bool {
	if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/internal/common/bitutil") || len(fn.Blocks) != 0 {
		return false
	}
	s := fn.Signature
	if s.Params().Len() != 4 || s.Results().Len() != 0 {
		return false
	}
	for i := 0; i < 3; i++ {
		if !types.Identical(s.Params().At(i).Type(), types.NewPointer(byteT)) {
			return false
		}
	}
	return types.Identical(s.Params().At(3).Type(), types.Typ[types.Int])
}

// xorContract: dst[i] = a[i] ^ b[i] for i < n.
func (in *Interp) xorContract(st *State, args []Val) bool {
	T := in.T
	var s [3]*SliceV
	for i := range s {
		p, ok := args[i].(*PtrV)
		if !ok || p.top || len(p.alts) == 0 {
			return false
		}
		s[i] = &SliceV{len: args[3].(*Term), cap: args[3].(*Term)}
		for _, a := range p.alts {
			k := len(a.path) - 1
			if k < 0 || a.path[k].f >= 0 || a.path[k].esz > 1 {
				return false
			}
			s[i].alts = append(s[i].alts, SAlt{loc: Loc{obj: a.obj, path: a.path[:k]}, off: a.path[k].idx, esz: 1})
		}
	}
	n, ok := T.sv(st, args[3].(*Term)).constVal()
	if !ok || !n.le(ni(1<<16)) {
		return false
	}
	x, ok1 := in.sliceElems(st, s[1], byteT, 1<<16)
	y, ok2 := in.sliceElems(st, s[2], byteT, 1<<16)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x {
		a, ok1 := x[i].(*Term)
		b, ok2 := y[i].(*Term)
		if !ok1 || !ok2 {
			return false
		}
		in.storePtr(st, in.sliceElem(st, s[0], T.Int(int64(i))), T.Xor(a, b))
	}
	return true
}

func (in *Interp) havocCall(st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome {
	d := in.T.deps.label("ext:" + fn.String())
	for _, a := range args {
		d = in.T.deps.or(d, in.deepDep(st, a))
	}
	rs := fn.Signature.Results()
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		res = append(res, in.havoc(rs.At(i).Type(), fmt.Sprintf("x:%s.%s.%d", fn.Name(), in.siteName(fr, site), i), d))
	}
	return []Outcome{{st, res}}
}
