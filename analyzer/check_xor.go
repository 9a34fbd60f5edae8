package main

import (
	"fmt"
	"go/build"
	"go/types"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C19: XORBytes on every architecture, Go code and assembly alike.

func init() { checks["C19"] = checkC19 }

type xorVariant struct {
	goos, goarch string
	gofiles      []string
	sfiles       []string
	others       []string // further platforms with the same files
}

func (v xorVariant) String() string { return v.goos + "/" + v.goarch }

func checkC19(p *Program, rep *Report) {
	rep.Rule = "XORBytes is interpreted for every architecture's own file set: the Go source from its SSA form, type-checked with that GOARCH, the assembly kernels from the assembler's listing, over one abstract memory. For constant slice lengths and symbolic bytes the destination must hold exactly a[i] xor b[i] below the shorter input and be unchanged above, the inputs must be unchanged, every load and store must stay inside the slice it was given, the result must be the shorter input length, and a destination that is too short must panic. The destination may be one of the inputs."
	rep.Assume = []string{
		"instructions behave as the architecture manuals say; the listing is the assembler's",
		"word accesses of the generic code are byte order neutral (exclusive or acts on each byte alone)",
		"lengths up to the bound reported; longer blocks repeat the same loops",
	}
	pk := xorPackage(p)
	if pk == nil {
		rep.fail("anchor", Finding{Key: "anchor XORBytes", What: "no package of the repository declares XORBytes(dst, a, b []byte) int"})
		return
	}
	dir := filepath.Dir(pk.GoFiles[0])
	vs, err := xorVariants(dir)
	if err != nil {
		rep.undecided("platforms: " + err.Error())
		return
	}
	for _, v := range vs {
		rep.sample("%s: %s (also %s)", v, strings.Join(append(append([]string(nil), v.gofiles...), v.sfiles...), " "), strings.Join(v.others, " "))
	}
	parallelN(len(vs), 4, func(i int) {
		p.xorVariant(rep, vs[i], dir, pk.PkgPath)
	})
}

func xorPackage(p *Program) *packages.Package {
	for _, pk := range p.Pkgs {
		o := pk.Types.Scope().Lookup("XORBytes")
		if f, ok := o.(*types.Func); ok && isXorSig(f.Type().(*types.Signature)) && len(pk.GoFiles) > 0 {
			return pk
		}
	}
	return nil
}

func isXorSig(s *types.Signature) bool {
	bs := types.NewSlice(types.Typ[types.Uint8])
	if s.Params().Len() != 3 || s.Results().Len() != 1 || !types.Identical(s.Results().At(0).Type(), types.Typ[types.Int]) {
		return false
	}
	for i := 0; i < 3; i++ {
		if !types.Identical(s.Params().At(i).Type(), bs) {
			return false
		}
	}
	return true
}

// xorVariants groups the platforms Go supports by architecture and file set.
func xorVariants(dir string) ([]xorVariant, error) {
	out, err := exec.Command("go", "tool", "dist", "list").Output()
	if err != nil {
		return nil, err
	}
	groups := map[string]*xorVariant{}
	var keys []string
	ps := strings.Fields(string(out))
	sort.SliceStable(ps, func(i, j int) bool { return strings.HasPrefix(ps[i], "linux/") && !strings.HasPrefix(ps[j], "linux/") })
	for _, s := range ps {
		pl := strings.SplitN(s, "/", 2)
		ctx := build.Default
		ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = pl[0], pl[1], false
		bp, err := ctx.ImportDir(dir, 0)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", s, err)
		}
		k := pl[1] + " " + strings.Join(bp.GoFiles, " ") + " " + strings.Join(bp.SFiles, " ")
		if g := groups[k]; g != nil {
			g.others = append(g.others, s)
			continue
		}
		groups[k] = &xorVariant{goos: pl[0], goarch: pl[1], gofiles: bp.GoFiles, sfiles: bp.SFiles}
		keys = append(keys, k)
	}
	var vs []xorVariant
	for _, k := range keys {
		vs = append(vs, *groups[k])
	}
	return vs, nil
}

func (p *Program) xorVariant(rep *Report, v xorVariant, dir, path string) {
	rep.list("platforms", v.String())
	q, err := loadProgram(p.Repo, []string{"GOOS=" + v.goos, "GOARCH=" + v.goarch}, nil, dir)
	if err != nil {
		rep.fail("build", Finding{Key: "build " + v.goarch, Where: dir, What: v.String() + ": " + err.Error()})
		return
	}
	sp := q.ByPkg[path]
	if sp == nil || sp.Func("XORBytes") == nil {
		rep.fail("anchor", Finding{Key: "anchor XORBytes " + v.goarch, Where: dir, What: v.String() + ": XORBytes is not declared"})
		return
	}
	fn := sp.Func("XORBytes")
	asm := map[string]*asmFn{}
	for _, f := range v.sfiles {
		if v.goarch != "amd64" && v.goarch != "arm64" {
			rep.undecided(v.String() + ": assembly of this architecture is not modelled: " + f)
			return
		}
		fs, err := assemble(build.Default.GOROOT, filepath.Join(dir, f), v.goarch, v.goos)
		if err != nil {
			rep.undecided(v.String() + ": " + f + ": " + err.Error())
			return
		}
		for k, x := range fs {
			asm[k] = x
			rep.list("functions", v.goarch+" "+k+" (assembly)")
			rep.count("assembly instructions", len(x.ins))
		}
	}
	var ns []int64
	hi, step := int64(200), int64(61)
	top := int64(700)
	if rep.Tier == "thorough" {
		hi, step, top = 600, 29, 4200
	}
	for n := int64(0); n <= hi; n++ {
		ns = append(ns, n)
	}
	for n := hi + 1; n <= top; n += step {
		ns = append(ns, n)
	}
	rep.list("lengths", fmt.Sprintf("0..%d, then every %d up to %d", hi, step, top))
	if len(asm) > 0 || rep.Tier == "thorough" {
		ns = append(ns, 1<<16+25, 1<<16+80)
		rep.list("lengths", "65561 and 65616 (assembly; thorough: all)")
	}
	for i := 0; i < len(ns); i += 50 {
		j := i + 50
		if j > len(ns) {
			j = len(ns)
		}
		q.xorLengths(rep, v, fn, asm, ns[i:j])
	}
}

func (q *Program) xorLengths(rep *Report, v xorVariant, fn *ssa.Function, asm map[string]*asmFn, ns []int64) {
	in := newInterp(q)
	in.asm, in.asmArch = asm, v.goarch
	switch v.goarch {
	case "386", "arm", "mips", "mipsle":
		in.wordBits = 32
	}
	in.unroll, in.unrollP = 1<<20, 1<<20
	in.noPeel = false
	T := in.T
	st0 := in.newState()
	msg := in.guard(func() { st0 = in.runInits(st0, fn.Pkg) })
	if msg != "" {
		rep.undecided(v.String() + ": " + msg)
		return
	}
	mk := func(st *State, name string, n int64) *SliceV {
		if n == 0 {
			return &SliceV{null: nilYes, len: T.zero, cap: T.zero}
		}
		arr := &ArrC{n: T.Int(n), def: T.zero, et: byteT}
		for i := int64(0); i < n; i++ {
			arr.elems = arr.elems.Set(uint64(i), T.Leaf(fmt.Sprintf("in:%s[%d]", name, i), typeIv(8, false), nil))
		}
		id := in.newID(nil, "xor", name)
		st.setObj(&Obj{id: id, c: arr, typ: types.NewSlice(byteT), input: true})
		return &SliceV{alts: []SAlt{{loc: Loc{obj: id}, off: T.zero, esz: 1}}, len: T.Int(n), cap: T.Int(n)}
	}
	type shape struct {
		d, a, b int64
		alias   int // 0 none, 1 dst is a, 2 dst is b, 3 all the same
	}
	for _, n := range ns {
		shapes := []shape{{n, n, n, 0}, {n, n, n + 5, 0}, {n + 3, n + 9, n, 0}, {n, n, n, 1}, {n, n, n, 2}, {n, n, n, 3}}
		if n > 0 {
			shapes = append(shapes, shape{n - 1, n, n, 0}, shape{0, n, n + 1, 0})
		}
		if n > 1<<16 {
			shapes = shapes[:1]
		}
		for _, sh := range shapes {
			ev0 := len(in.events)
			st := st0.clone()
			a := mk(st, "a", sh.a)
			b := mk(st, "b", sh.b)
			if sh.alias == 3 {
				b = a
			}
			d := a
			switch sh.alias {
			case 0:
				d = mk(st, "d", sh.d)
			case 2:
				d = b
			}
			wa, wb, wd := in.digestTermsN(st, a, sh.a), in.digestTermsN(st, b, sh.b), in.digestTermsN(st, d, sh.d)
			var outs []Outcome
			msg := in.guard(func() { outs = in.callFn(st, nil, fn, []Val{d, a, b}, nil, nil) })
			what := fmt.Sprintf("%s: XORBytes with lengths %d, %d, %d", v.goarch, sh.d, sh.a, sh.b)
			if sh.alias != 0 {
				what += " and dst " + []string{"", "= a", "= b", "= a = b"}[sh.alias]
			}
			if msg != "" {
				rep.undecided(what + ": " + msg)
				return
			}
			und := false
			var bad []Event
			for _, e := range in.events[ev0:] {
				switch {
				case e.ok:
				case e.kind == "unsupported":
					rep.undecided(what + ": " + e.msg)
					und = true
				default:
					for _, k := range memKinds {
						if e.kind == k {
							bad = append(bad, e)
						}
					}
				}
			}
			if und {
				return
			}
			fail := func(key, txt string) {
				rep.fail("xor", Finding{Key: key + " " + v.goarch, Where: in.posStr(fn.Pos()), Func: fnName(fn), What: what + ": " + txt, Trace: []string{"platform " + v.String()}})
			}
			if sh.d < n {
				// must panic, and only in the bounds checks
				asmBad := false
				for _, e := range bad {
					if e.kind == "mem" || e.kind == "unmapped" {
						fail("access", e.kind+": "+e.msg)
						asmBad = true
					}
				}
				if !asmBad {
					rep.check("short destination panics", len(outs) == 0 && len(bad) > 0, Finding{Key: "short " + v.goarch, Where: in.posStr(fn.Pos()), Func: fnName(fn), What: what + ": returns although the destination is too short"})
				}
				continue
			}
			if len(bad) > 0 {
				fail("access", bad[0].kind+": "+bad[0].msg+" at "+in.posStr(bad[0].pos))
				continue
			}
			if len(outs) == 0 {
				fail("noreturn", "does not return")
				continue
			}
			for _, o := range outs {
				rt, ok := o.res[0].(*Term)
				k, isK := N{}, false
				if ok {
					k, isK = T.sv(o.st, rt).constVal()
				}
				rep.check("result", isK && k == ni(n), Finding{Key: "result " + v.goarch, Where: in.posStr(fn.Pos()), Func: fnName(fn), What: what + ": the result is not the shorter input length"})
				for i, s := range []*SliceV{d, a, b} {
					want := [][]*Term{wd, wa, wb}[i]
					if s == d {
						w := append([]*Term(nil), want...)
						for j := int64(0); j < n; j++ {
							w[j] = T.Xor(wa[j], wb[j])
						}
						want = w
					}
					got := in.digestTermsN(o.st, s, int64(len(want)))
					if got == nil && len(want) > 0 {
						rep.undecided(what + ": contents of a slice")
						continue
					}
					j := 0
					for j < len(want) && got[j] == want[j] {
						j++
					}
					if j == len(want) {
						rep.ok("slice contents")
						continue
					}
					if in.differ(o.st, got[j], want[j]) {
						fail("content", fmt.Sprintf("byte %d of %s is wrong", j, []string{"dst", "a", "b"}[i]))
					} else {
						rep.undecided(what + fmt.Sprintf(": byte %d of %s", j, []string{"dst", "a", "b"}[i]))
					}
				}
			}
		}
	}
	rep.count("length triples", len(ns)*8)
	for f := range in.fnsSeen {
		if f.Pkg != nil && q.Mod != "" && strings.HasPrefix(f.Pkg.Pkg.Path(), q.Mod) {
			rep.list("functions", v.goarch+" "+f.String())
		}
	}
	rep.count("steps", int(in.steps))
}

func (in *Interp) digestTermsN(st *State, s *SliceV, n int64) []*Term {
	if n == 0 {
		return nil
	}
	vs, ok := in.sliceElems(st, s, byteT, 1<<18)
	if !ok || int64(len(vs)) < n {
		return nil
	}
	out := make([]*Term, n)
	for i := range out {
		t, ok := vs[i].(*Term)
		if !ok {
			return nil
		}
		out[i] = t
	}
	return out
}

// differ: the two terms differ under an interpretation of the unknowns.
func (in *Interp) differ(st *State, x, y *Term) bool {
	for seed := uint64(1); seed <= 3; seed++ {
		e := newInterpT(in, st, seed, 0)
		ne := false
		why := e.try(func() { ne = e.eval(x).Cmp(e.eval(y)) != 0 })
		if why == "" && ne && !e.opaq {
			return true
		}
	}
	return false
}
