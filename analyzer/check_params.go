package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// params are the published parameters of each coin: integers, booleans,
// strings and functions by field name.
type params map[string]interface{}

func dagParams(s sizeSpec, parents, epochLen, seedLen int64, l1 bool) params {
	p := params{
		"DatasetInitBytes": s.dataInit, "DatasetGrowthBytes": s.dataGrowth, "CacheInitBytes": s.cacheInit, "CacheGrowthBytes": s.cacheGrowth,
		"MixBytes": s.mix, "DatasetParents": parents, "EpochLength": epochLen, "SeedEpochLength": seedLen, "CacheRounds": int64(3), "L1Enabled": l1,
	}
	if l1 {
		p["L1CacheSize"] = int64(16384)
		p["L1CacheNumItems"] = int64(4096)
	}
	return p
}

func coinParams(e entry) params {
	switch e.ctor {
	case "NewEthereum":
		return dagParams(sizeSpecs[e.ctor], 256, 30000, 30000, false)
	case "NewEthereumClassic":
		return dagParams(sizeSpecs[e.ctor], 256, 60000, 30000, false)
	case "NewRavencoin":
		return dagParams(sizeSpecs[e.ctor], 512, 7500, 7500, true)
	case "NewFiro":
		return dagParams(sizeSpecs[e.ctor], 512, 1300, 1300, true)
	case "NewConflux":
		return dagParams(sizeSpecs[e.ctor], 256, 1<<19, 1<<19, false)
	case "NewAeternity":
		return params{"variant": "Cuckoo", "edgeBits": int64(29), "edgeMask": int64(1<<29 - 1), "proofSize": int64(42), "sipnode": "SipNode24Legacy"}
	case "NewCortex":
		return params{"variant": "Cuckaroo", "edgeBits": int64(30), "edgeMask": int64(1<<30 - 1), "proofSize": int64(42), "sipblock": "SipBlock48"}
	case "NewNervos":
		return params{"rounds": int64(43), "capacity": int64(32), "rate": int64(256), "length": int64(32), "delim": int64(6)}
	case "NewErgo":
		return params{"k": int64(32), "n": int64(26), "nBase": int64(1 << 26)}
	case "NewBeam":
		return params{"n": int64(150), "k": int64(5), "personal": "Beam-PoW"}
	}
	if s, ok := equihashSpec[e.ctor]; ok {
		return params{"n": s.n, "k": s.k, "personal": s.personal, "twist": s.twist}
	}
	return nil
}

var progpowParams = map[string]params{
	"kawpow":  {"PeriodLength": int64(3), "DagLoads": int64(4), "CacheBytes": int64(16384), "LaneCount": int64(16), "RegisterCount": int64(32), "RoundCount": int64(64), "RoundCacheAccesses": int64(11), "RoundMathOperations": int64(18)},
	"firopow": {"PeriodLength": int64(1), "DagLoads": int64(4), "CacheBytes": int64(16384), "LaneCount": int64(16), "RegisterCount": int64(32), "RoundCount": int64(64), "RoundCacheAccesses": int64(11), "RoundMathOperations": int64(18)},
}

// checkParams compares the fields of a configuration value with the published ones.
func (r *Run) checkParams(rep *Report, st *State, v Val, t types.Type, want params, pos, fn string) {
	in, T := r.in, r.in.T
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x := in.field(st, v, t, n)
		id := r.e.pkg + "." + r.e.ctor + " " + n
		if x == nil {
			rep.undecided(id + ": no such configuration field")
			continue
		}
		got, known := "", false
		wantS := fmt.Sprint(want[n])
		switch w := want[n].(type) {
		case int64, bool:
			if b, ok := w.(bool); ok {
				wantS = "0"
				if b {
					wantS = "1"
				}
			}
			if t, ok := x.(*Term); ok {
				if k, ok := T.sv(st, t).constVal(); ok {
					got, known = k.String(), true
				}
			}
		case string:
			switch y := x.(type) {
			case *SliceV:
				if vs, ok := in.sliceElems(st, y, byteT, 64); ok {
					known = true
					for _, b := range vs {
						k, ok := b.(*Term)
						if !ok {
							known = false
							break
						}
						c, ok := T.sv(st, k).constVal()
						known = known && ok
						got += string(rune(byte(c.i64())))
					}
				}
			case *StrV:
				got, known = y.lit()
			case *FuncV:
				if y.null == nilYes {
					got, known = "nil", true
				} else if y.fn != nil && len(y.binds) == 0 && y.fn.Pkg != nil && y.fn.Pkg.Pkg.Path() == r.p.Mod+"/internal/crypto" {
					got, known = y.fn.Name(), true
				}
			case *Term: // an enumeration constant
				if c := r.p.pkg(r.e.pkg).Const(w); c != nil {
					wantS = c.Value.Value.ExactString()
				}
				if k, ok := T.sv(st, y).constVal(); ok {
					got, known = k.String(), true
				}
			}
		}
		if !known {
			rep.undecided(id + ": the value is not known statically")
			continue
		}
		rep.check("parameter", got == wantS, Finding{Key: id, Where: pos, Func: fn, What: fmt.Sprintf("%s is %s, the published value is %s", id, got, wantS), Trace: []string{"entry " + r.e.String()}})
		rep.list("parameters", id+" = "+wantS)
	}
}

var genFlag = regexp.MustCompile(`-(\w+)[ =](\S+)`)

// genFlags finds the go:generate directive of a package.
func (p *Program) genFlags(rel string) (map[string]string, string) {
	for _, pk := range p.Pkgs {
		if pk.PkgPath != p.Mod+"/"+rel {
			continue
		}
		for _, f := range pk.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:generate") && strings.Contains(c.Text, "gen-lookup") {
						out := map[string]string{}
						for _, m := range genFlag.FindAllStringSubmatch(c.Text, -1) {
							out[m[1]] = m[2]
						}
						q := p.SSA.Fset.Position(c.Pos())
						return out, fmt.Sprintf("%s/%s:%d", rel, q.Filename[strings.LastIndex(q.Filename, "/")+1:], q.Line)
					}
				}
			}
		}
	}
	return nil, ""
}

func checkC18(p *Program, rep *Report) {
	rep.Rule = "Every coin constructor is evaluated by constant propagation over its abstract state; each configuration field of the client (and of its DAG) is compared with an independently written table of the published parameters. The ProgPow shape is read at the call of progpow.Hash in the coin's Compute, whose height argument must be the caller's. The flags of each go:generate directive are compared with the run-time configuration of every client of the package."
	rep.Assume = commonAssumptions
	expectEntries(p, rep)
	es := p.entries()
	parallel(len(es), func(i int) {
		e := es[i]
		want := coinParams(e)
		if want == nil {
			if e.pkg != "heavyhash" {
				rep.undecided(e.String() + ": no published parameters")
			}
			return
		}
		pow := progpowParams[e.pkg]
		var hits int
		in := newInterp(p)
		r := &Run{e: e, p: p, in: in}
		r.abort = in.guard(func() {
			st, cl, m := in.construct(e)
			r.client, r.fn = cl, m
			ct := m.Signature.Recv().Type()
			ctor := p.pkg(e.pkg).Func(e.ctor)
			pos, fn := in.posStr(ctor.Pos()), fnName(ctor)
			v, t := cl, ct
			if isDag(e) {
				d := in.dagOf(st, cl, r)
				if d == nil {
					in.abort("the client has no DAG")
				}
				v, t = d, types.NewPointer(p.pkg("internal/dag").Type("DAG").Type())
			}
			r.checkParams(rep, st, v, t, want, pos, fn)
			if isDag(e) {
				flags, where := p.genFlags(e.pkg)
				if flags == nil {
					rep.undecided(e.pkg + ": no go:generate directive for the size tables")
				} else {
					for _, x := range [][3]string{{"mixBytes", "MixBytes", "128"}, {"cacheInit", "CacheInitBytes", "0"}, {"cacheGrowth", "CacheGrowthBytes", "0"}, {"datasetInit", "DatasetInitBytes", "0"}, {"datasetGrowth", "DatasetGrowthBytes", "0"}} {
						fv, ok := flags[x[0]]
						if !ok {
							fv = x[2]
						}
						n, err := strconv.ParseUint(fv, 0, 64)
						run, ok := in.cfgInt(st, v, x[1])
						if !ok {
							rep.undecided(e.String() + ": " + x[1] + " is not known")
							continue
						}
						rep.check("generator flag", err == nil && run == nu(n), Finding{Key: "flag " + e.pkg + " " + x[0], Where: where, Func: "go:generate", What: fmt.Sprintf("the generator flag -%s %s disagrees with %s = %s used by %s", x[0], fv, x[1], run, e.ctor)})
					}
				}
			}
			if pow != nil {
				in.dagHooks()
				h := p.pkg("internal/progpow").Func("Hash")
				if h == nil {
					in.abort("no progpow.Hash")
				}
				in.hooks[h.String()] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
					hits++
					where := in.posStr(site.Pos())
					r.checkParams(rep, st, args[0], h.Signature.Params().At(0).Type(), pow, where, fnName(fr.fn))
					c := &mcall{in: in, st: st, fr: fr, fn: fn, args: args, site: site}
					var bs []*Term
					for i := 0; i < 32; i++ {
						bs = append(bs, in.T.AppW("mix", 8, nil, in.T.Int(int64(i))))
					}
					return []Outcome{{st, []Val{c.tmp("mix", bs)}}}, true
				}
				r.args = []Val{cl}
				for i, prm := range m.Params[1:] {
					r.args = append(r.args, in.input(st, prm.Type(), fmt.Sprintf("arg%d", i)))
				}
				d := in.dagOf(st, cl, r)
				if el, ok := in.cfgInt(st, d, "EpochLength"); ok {
					in.T.setRef(st, r.args[2].(*Term), Iv{n0, el.mul(ni(maxEpochs)).sub(n1)})
				}
				in.callFn(st, nil, m, r.args, nil, nil)
				if hits == 0 {
					rep.undecided(e.String() + ": progpow.Hash is not called")
				}
			}
		})
		r.cover(rep)
	})
}
