package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: *Term (integers, booleans, floats), *PtrV,
// *SliceV, *StrV, *FuncV, *IfaceV, *MapV, *StructC, *ArrC, *TupleV, *DataPtr,
// *ChanV or *IterV.
type Val interface{}

const (
	nilNo int8 = iota
	nilYes
	nilMaybe
)

// PE is one step of an access path: a field or an array index.
type PE struct {
	f   int // field number, or -1
	idx *Term
	esz int // element size of the view in bytes
}

type Loc struct {
	obj  int
	path []PE
}

func (l Loc) eq(m Loc) bool {
	if l.obj != m.obj || len(l.path) != len(m.path) {
		return false
	}
	for i := range l.path {
		if l.path[i] != m.path[i] {
			return false
		}
	}
	return true
}
func (l Loc) ext(p PE) Loc {
	np := make([]PE, len(l.path)+1)
	copy(np, l.path)
	np[len(l.path)] = p
	return Loc{l.obj, np}
}
func (l Loc) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "o%d", l.obj)
	for _, p := range l.path {
		if p.f >= 0 {
			fmt.Fprintf(&b, ".%d", p.f)
		} else {
			fmt.Fprintf(&b, "[%s]", p.idx)
		}
	}
	return b.String()
}

type PtrV struct {
	null int8
	nt   *Term // for nilMaybe: true iff nil

	alts []Loc
	sel  []*Term // if known: the condition of each alternative
	top  bool    // may also point anywhere
	mem  int     // if non-zero: the target is currently an element of this map object (version in memv)
	memv int
}

func (p *PtrV) selAt(i int) *Term {
	if i < len(p.sel) {
		return p.sel[i]
	}
	return nil
}

// selKnown tells whether the conditions of all alternatives are known.
func (p *PtrV) selKnown() bool {
	if len(p.sel) != len(p.alts) || len(p.alts) < 2 || p.top {
		return false
	}
	for _, s := range p.sel {
		if s == nil {
			return false
		}
	}
	return true
}

type SAlt struct {
	loc Loc   // the backing array (an array-typed location)
	off *Term // first element
	esz int   // element size of this view in bytes
	raw bool  // the length of the view is not known to lie inside the memory
	sel *Term // if known: the condition of this alternative
}

type SliceV struct {
	null int8
	nt   *Term // for nilMaybe: true iff nil

	alts []SAlt
	top  bool
	len  *Term
	cap  *Term
}

type StrPart struct {
	lit string
	t   *Term // value rendered ...
	how string
}

type StrV struct {
	parts []StrPart
	dep   *Dep
}

type FuncV struct {
	null  int8
	nt    *Term
	fn    *ssa.Function
	binds []Val
	bi    *ssa.Builtin
	top   bool
	recv  Val // bound method receiver for model methods
	alts  []*FuncV
}

type IfaceV struct {
	null int8
	nt   *Term // for nilMaybe: true iff nil

	typ types.Type // dynamic type; nil if unknown
	v   Val
	tag string // provenance of opaque values (e.g. which operation failed)
}

type MapV struct {
	null int8
	nt   *Term // for nilMaybe: true iff nil

	obj int
}

type ChanV struct {
	null int8
	nt   *Term
}

type TupleV struct{ vs []Val }

// DataPtr is the uintptr in a slice header.
type DataPtr struct{ s *SliceV }

// IterV is a map or string iterator.
type IterV struct {
	started bool
	mapObj  int
	obj     int // state object
}

// StructC is a struct value or the content of a struct location.
type StructC struct{ f []Val }

// ArrC is the content of an array. Elements not in elems have value def.
// If sum is non-nil the array is smashed: every element may be sum.
type ArrC struct {
	n     *Term // number of elements
	elems *PMap[Val]
	def   Val
	sum   Val
	ver   *Term // version of the content, for symbolic accesses
	et    types.Type
}

// BlobC is a large raw memory region, tracked only by provenance.
type BlobC struct {
	size   *Term // bytes
	dep    *Dep
	tag    *Term // what generated the content (nil: zero/unknown)
	ntags  int
	mapped int8 // 0: heap, 1: mapped, 2: unmapped
	file   int  // file object behind the mapping
	rw     bool
}

type MapEnt struct {
	k, v Val
}

// MapC is the content of a map: known entries plus, if open, unknown ones.
type MapC struct {
	ents []MapEnt
	open bool
	len  *Term
	ver  int
	kt   types.Type
	vt   types.Type
	lab  string
}

// NatC is the content of a modelled library object.
type NatC struct {
	kind string
	st   int8  // typestate
	t    *Term // state term
	b    []Val // accumulated content (bytes as terms, or runs)
	s    *StrV // e.g. a file name
	aux  int
	aux2 int
	dep  *Dep
}

type Obj struct {
	id     int
	typ    types.Type
	c      Val
	site   string
	input  bool // caller-owned memory
	shared bool // reachable by other goroutines / later calls
	global bool
	weak   bool // stands for several concrete objects
	fin    *FuncV
	inst   string // class for materialised shared objects
	label  string
}

func nilPtr() *PtrV { return &PtrV{null: nilYes} }

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.null != y.null || x.nt != y.nt || x.top != y.top || len(x.alts) != len(y.alts) || x.mem != y.mem || x.memv != y.memv {
			return false
		}
		for i := range x.alts {
			if !x.alts[i].eq(y.alts[i]) || x.selAt(i) != y.selAt(i) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.null != y.null || x.nt != y.nt || x.top != y.top || len(x.alts) != len(y.alts) || x.len != y.len || x.cap != y.cap {
			return false
		}
		for i := range x.alts {
			if !x.alts[i].loc.eq(y.alts[i].loc) || x.alts[i].off != y.alts[i].off || x.alts[i].esz != y.alts[i].esz || x.alts[i].raw != y.alts[i].raw || x.alts[i].sel != y.alts[i].sel {
				return false
			}
		}
		return true
	case *StrV:
		y, ok := b.(*StrV)
		if !ok || len(x.parts) != len(y.parts) || x.dep != y.dep {
			return false
		}
		for i := range x.parts {
			if x.parts[i] != y.parts[i] {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.null != y.null || x.nt != y.nt || x.fn != y.fn || x.bi != y.bi || x.top != y.top || len(x.binds) != len(y.binds) || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		for i := range x.alts {
			if !sameVal(x.alts[i], y.alts[i]) {
				return false
			}
		}
		return sameVal(x.recv, y.recv)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || x.null != y.null || x.nt != y.nt || x.tag != y.tag {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) || (x.typ != nil && !types.Identical(x.typ, y.typ)) {
			return false
		}
		return sameVal(x.v, y.v)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && *x == *y
	case *ChanV:
		y, ok := b.(*ChanV)
		return ok && *x == *y
	case *IterV:
		y, ok := b.(*IterV)
		return ok && *x == *y
	case *DataPtr:
		y, ok := b.(*DataPtr)
		return ok && sameVal(x.s, y.s)
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !sameVal(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *StructC:
		y, ok := b.(*StructC)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrC:
		y, ok := b.(*ArrC)
		if !ok || x.n != y.n || x.ver != y.ver || !sameVal(x.def, y.def) || !sameVal(x.sum, y.sum) {
			return false
		}
		if x.elems == y.elems {
			return true
		}
		eq := true
		diff(x.elems, y.elems, func(k uint64, av Val, aok bool, bv Val, bok bool) {
			if !eq {
				return
			}
			if !aok {
				av = x.def
			}
			if !bok {
				bv = y.def
			}
			if !sameVal(av, bv) {
				eq = false
			}
		})
		return eq
	case *BlobC:
		y, ok := b.(*BlobC)
		return ok && *x == *y
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || x.open != y.open || x.len != y.len || len(x.ents) != len(y.ents) || x.ver != y.ver {
			return false
		}
		for i := range x.ents {
			if !sameVal(x.ents[i].k, y.ents[i].k) || !sameVal(x.ents[i].v, y.ents[i].v) {
				return false
			}
		}
		return true
	case *NatC:
		y, ok := b.(*NatC)
		if !ok || x.kind != y.kind || x.st != y.st || x.t != y.t || len(x.b) != len(y.b) || x.aux != y.aux || x.aux2 != y.aux2 || x.dep != y.dep {
			return false
		}
		for i := range x.b {
			if !sameVal(x.b[i], y.b[i]) {
				return false
			}
		}
		if (x.s == nil) != (y.s == nil) || (x.s != nil && !sameVal(x.s, y.s)) {
			return false
		}
		return true
	}
	return false
}

func litStr(s string, d *Dep) *StrV {
	if s == "" {
		return &StrV{dep: d}
	}
	return &StrV{parts: []StrPart{{lit: s}}, dep: d}
}

func (s *StrV) lit() (string, bool) {
	var b strings.Builder
	for _, p := range s.parts {
		if p.t != nil {
			return "", false
		}
		b.WriteString(p.lit)
	}
	return b.String(), true
}

func (s *StrV) String() string {
	var b strings.Builder
	for _, p := range s.parts {
		if p.t != nil {
			fmt.Fprintf(&b, "<%s:%s>", p.how, p.t)
		} else {
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

func catStr(T *Terms, ss ...*StrV) *StrV {
	out := &StrV{dep: T.deps.empty}
	for _, s := range ss {
		out.dep = T.deps.or(out.dep, s.dep)
		for _, p := range s.parts {
			if n := len(out.parts); n > 0 && p.t == nil && out.parts[n-1].t == nil {
				out.parts[n-1].lit += p.lit
				continue
			}
			out.parts = append(out.parts, p)
		}
	}
	return out
}
