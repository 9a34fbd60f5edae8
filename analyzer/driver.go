package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newState is an empty initial state.
func (in *Interp) newState() *State {
	return &State{pc: in.T.deps.empty}
}

var rootBlock = &ssa.BasicBlock{}

// guard runs f and turns an abort into a message.
func (in *Interp) guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPanic); ok {
				msg = a.msg
				in.aborted = msg
				in.buf = nil
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

// runInits executes the package initialisers the given package depends on
// (repository packages only; initialisers of other packages are not followed).
func (in *Interp) runInits(st *State, pkg *ssa.Package) *State {
	init := pkg.Func("init")
	if init == nil {
		return st
	}
	out := in.callFn(st, nil, init, nil, nil, nil)
	if len(out) != 1 {
		in.unsupported(fmt.Sprintf("package initialisation has %d outcomes", len(out)))
		if len(out) == 0 {
			return st
		}
	}
	return out[0].st
}

// input makes an arbitrary caller-supplied value of type t.
func (in *Interp) input(st *State, t types.Type, name string) Val {
	T := in.T
	d := T.deps.label("in:" + name)
	if w, s, ok := in.intInfo(t); ok {
		return T.Leaf("in:"+name, typeIv(w, s), d)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if _, _, ok := in.intInfo(u.Elem()); ok {
			es := in.sizeof(u.Elem())
			n := T.Leaf("len("+name+")", Iv{n0, in.inputLen}, T.deps.label("len:"+name))
			id := in.newID(nil, "input:"+name, "")
			cp := T.Leaf("cap("+name+")", Iv{n0, in.inputLen}, T.deps.label("len:"+name))
			st.setObj(&Obj{id: id, typ: t, c: &BlobC{size: T.Scale(cp, ni(int64(es))), dep: d, tag: T.Leaf("data("+name+")", ivTop, d)}, input: true, label: name})
			T.assume(st, T.LE(n, cp), true)
			return &SliceV{alts: []SAlt{{loc: Loc{obj: id}, off: T.zero, esz: es}}, len: n, cap: cp}
		}
	}
	return in.havoc(t, "in:"+name, d)
}

// inputN makes a caller-supplied slice of exactly n elements.
func (in *Interp) inputN(st *State, t types.Type, name string, n int64) Val {
	v := in.input(st, t, name).(*SliceV)
	in.T.assume(st, in.T.EQ(v.len, in.T.Int(n)), true)
	r := *v
	r.len = in.T.Int(n)
	return &r
}

func (in *Interp) inputs(st *State, fn *ssa.Function, skip int) []Val {
	var out []Val
	for _, p := range fn.Params[skip:] {
		out = append(out, in.input(st, p.Type(), p.Name()))
	}
	return out
}

// entry describes one public verification entry point.
type entry struct {
	pkg, ctor, method string
}

func (e entry) String() string { return e.pkg + "." + e.ctor + "." + e.method }

func (p *Program) pkg(rel string) *ssa.Package { return p.ByPkg[p.Mod+"/"+rel] }

func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// entries lists the exported constructors New* without arguments that return
// a client pointer, with the client's exported Compute/Verify method.
func (p *Program) entries() []entry {
	var out []entry
	var paths []string
	for path := range p.ByPkg {
		if strings.HasPrefix(path, p.Mod+"/") && !strings.Contains(path, "/internal/") && !strings.Contains(path, "/cmd/") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := p.ByPkg[path]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := sp.Members[n].(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			for _, m := range []string{"Compute", "Verify"} {
				if p.method(f.Signature.Results().At(0).Type(), m) != nil {
					out = append(out, entry{strings.TrimPrefix(path, p.Mod+"/"), n, m})
				}
			}
		}
	}
	return out
}

// construct runs a constructor and returns the state and the client value.
func (in *Interp) construct(e entry) (*State, Val, *ssa.Function) {
	sp := in.P.pkg(e.pkg)
	if sp == nil {
		in.abort("no package " + e.pkg)
	}
	f := sp.Func(e.ctor)
	if f == nil {
		in.abort("no constructor " + e.ctor)
	}
	st := in.runInits(in.newState(), sp)
	out := in.callFn(st, nil, f, nil, nil, nil)
	if len(out) != 1 {
		in.abort(fmt.Sprintf("constructor %s has %d outcomes", e, len(out)))
	}
	m := in.P.method(f.Signature.Results().At(0).Type(), e.method)
	return out[0].st, out[0].res[0], m
}

func (in *Interp) trace() {
	var b strings.Builder
	for f := in.cur; f != nil; f = f.up {
		fmt.Fprintf(&b, " < %s", f.fn.Name())
		for c := f.ctx; c != nil; c = c.parent {
			if l, ok := c.at.(*Loop); ok {
				fmt.Fprintf(&b, "[b%d:%d]", l.header.Index, c.iter)
			} else {
				break
			}
		}
	}
	pos := "?"
	if in.curInstr != nil {
		pos = in.posStr(in.curInstr.Pos())
	}
	fmt.Fprintln(os.Stderr, in.steps, pos, b.String())
}
