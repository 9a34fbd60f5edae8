package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C24: the digest of every Compute method against a reference, by value
// numbering both in one universe of terms.

func init() { checks["C24"] = checkC24 }

// gated turns on selection at merges.
func (in *Interp) gated() {
	in.gt = newGates()
	in.arrs = map[*Term]*ArrC{}
	in.maxPart = 6
	in.T.quick = true
	in.unroll, in.unrollP, in.unrollSteps = 2100, 500000, 50e6
}

// refItem gives zzref.Item the contract dataset items have.
func (in *Interp) refItem() {
	if f := in.P.refFn("Item"); f != nil {
		in.hooks[f.String()] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
			return hookItem(in, st, fr, fn, []Val{nil, args[0], args[1]}, site)
		}
	}
}

// f800Hook stands for keccak-f[800] on an array of 25 words, whose body is
// compared with the reference on its own.
func f800Hook(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	T := in.T
	p, ok := args[0].(*PtrV)
	if !ok {
		return nil, false
	}
	at := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
	a, ok := in.loadPtr(st, p, at).(*ArrC)
	if !ok {
		return nil, false
	}
	var lanes []*Term
	for i := 0; i < 25; i++ {
		t, ok := in.elem(a, i).(*Term)
		if !ok {
			return nil, false
		}
		lanes = append(lanes, t)
	}
	r := &ArrC{n: T.Int(25), def: T.zero, et: types.Typ[types.Uint32]}
	for i := 0; i < 25; i++ {
		r.elems = r.elems.Set(uint64(i), Val(T.AppW("f800", 32, nil, append([]*Term{T.Int(int64(i))}, lanes...)...)))
	}
	in.storePtr(st, p, r)
	return []Outcome{{st, nil}}, true
}

func isF800(f *ssa.Function) bool {
	if f == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 0 {
		return false
	}
	return f.Signature.Params().At(0).Type().String() == "*[25]uint32"
}

// callRef value-numbers a function of the reference package.
func (in *Interp) callRef(st *State, name string, args ...Val) (outs []Outcome, why string) {
	f := in.P.refFn(name)
	if f == nil {
		return nil, "no reference " + name
	}
	n := len(in.events)
	why = in.guard(func() {
		s := st.clone()
		s.g = nil
		s = in.runInits(s, in.P.pkg(refPkg))
		outs = in.callFn(s, nil, f, args, nil, nil)
	})
	in.events = in.events[:n]
	if why == "" && len(outs) != 1 {
		why = fmt.Sprintf("reference %s has %d outcomes", name, len(outs))
	}
	return
}

// cmp is a pair of values that have to be equal.
type cmp struct {
	what string
	got  []Outcome // of the code
	pick func(o Outcome) (*State, []*Term)
	want []*Term
	wst  *State
}

// verdict of a comparison
type cmpRes struct {
	proved  bool
	differ  bool
	witness string
	why     string
	pts     int
}

// same decides whether the code's terms equal the reference's: by identity of
// value numbers, or else refuted by an interpretation of the unknowns.
func (in *Interp) compare(c cmp, points int) cmpRes {
	type side struct {
		st *State
		ts []*Term
	}
	var sides []side
	proved := true
	for _, o := range c.got {
		st, ts := c.pick(o)
		if st == nil {
			continue
		}
		if len(ts) != len(c.want) {
			if ts == nil {
				return cmpRes{why: "the value is not tracked byte by byte"}
			}
			return cmpRes{differ: true, witness: fmt.Sprintf("%d bytes instead of %d", len(ts), len(c.want))}
		}
		for i := range ts {
			if in.T.sv(st, ts[i]) != in.T.sv(st, c.want[i]) && ts[i] != c.want[i] {
				if proved && os.Getenv("POWLINT_DIFF") != "" {
					in.nearMiss(st, ts[i:i+1], c.want[i:i+1])
				}
				proved = false
			}
		}
		sides = append(sides, side{st, ts})
	}
	if len(sides) == 0 {
		return cmpRes{why: "no outcome to compare"}
	}
	if proved {
		return cmpRes{proved: true}
	}
	r := cmpRes{}
	if n := 3000000 / (len(in.T.byID) + 1); n > points {
		points = n // small functions are tried at more points
		if points > 4000 {
			points = 4000
		}
	}
	for k := 0; k < points; k++ {
		bias := []int{0, 12, 4}[k%3]
		for _, s := range sides {
			e := newInterpT(in, s.st, uint64(k+1), bias)
			diff := ""
			why := e.try(func() {
				if len(sides) > 1 && !e.guardVal(s.st.g) {
					return
				}
				for i := range s.ts {
					a, b := e.eval(s.ts[i]), e.eval(c.want[i])
					if a.Cmp(b) != 0 {
						diff = fmt.Sprintf("byte %d is %s, the reference has %s", i, a, b)
						return
					}
				}
				r.pts++
			})
			if why != "" {
				if r.why == "" {
					r.why = why
				}
				continue
			}
			if diff != "" {
				r.differ, r.witness = true, diff+" for "+e.inputs()
				return r
			}
		}
	}
	if r.pts > 0 {
		r.why = fmt.Sprintf("the value numbers differ, but agree under %d interpretations", r.pts)
	}
	return r
}

// inputs describes the values an interpretation gave the scalar inputs.
func (e *interpT) inputs() string {
	s, n := "", 0
	for id, v := range e.val {
		if v == nil || n > 4 || id >= len(e.in.T.byID) {
			continue
		}
		t := e.in.T.byID[id]
		if t.op == OLeaf && e.known(t) {
			s += fmt.Sprintf(" %s=%s", t.name, v)
			n++
		}
	}
	if s == "" {
		s = " any input"
	}
	return "the interpretation" + s
}

// put records a comparison in the report.
func (rep *Report) cmp(p *Program, r *Run, fn *ssa.Function, c cmp, res cmpRes) {
	f := Finding{Key: c.what, Func: fnName(fn), What: c.what + " differs from the reference: " + res.witness, Trace: []string{"entry " + r.e.String()}}
	if fn != nil {
		f.Where = r.in.posStr(fn.Pos())
	}
	switch {
	case res.proved:
		rep.okN("equal value numbers", 1)
		rep.list("proved equal", c.what)
	case res.differ:
		rep.fail("equal to the reference", f)
	case res.pts > 0:
		rep.okN("not refuted by random interpretation", 1)
		rep.list("not refuted (value numbers differ)", fmt.Sprintf("%s (%d interpretations)", c.what, res.pts))
	default:
		rep.undecided(c.what + ": " + res.why)
	}
}

// digestJob is one comparison run.
type digestJob struct {
	e      entry
	height int64 // constant height, or -1
	nonce  func(in *Interp) *Term
	rng    map[string]Iv
	length int64 // eaglesong
	name   string
	full   bool
}

func digestJobs(p *Program, tier string) []digestJob {
	var slow, out []digestJob
	heights := []int64{0, 1219736, 9000001}
	residues := []int64{0, 1, 31}
	lens := []int64{0, 1, 31, 32, 33, 48, 63, 64}
	if tier == "thorough" {
		heights = []int64{0, 1, 2, 3, 7499, 7500, 1219736, 2190307, 9000001, 374999999}
		residues = nil
		for i := int64(0); i < 32; i++ {
			residues = append(residues, i)
		}
		lens = nil
		for i := int64(0); i < 130; i++ {
			lens = append(lens, i)
		}
	}
	for _, e := range p.entries() {
		switch e.pkg {
		case "kawpow", "firopow":
			for _, h := range heights {
				slow = append(slow, digestJob{e: e, height: h, name: fmt.Sprintf("%s at height %d", e, h)})
			}
		case "octopus":
			for _, r := range residues {
				r := r
				slow = append(slow, digestJob{e: e, height: -1, name: fmt.Sprintf("%s, nonce %% 32 = %d", e, r), nonce: func(in *Interp) *Term {
					q := in.T.Leaf("in:nonce/32", Iv{n0, pow2(59).sub(n1)}, in.T.deps.label("in:arg2"))
					return in.T.AddK(in.T.Scale(q, ni(32)), ni(r))
				}})
			}
		case "ethash", "heavyhash":
			out = append(out, digestJob{e: e, height: -1, name: e.String()})
		case "autolykos2":
			ivs := ergoIntervals()
			for i, iv := range ivs {
				if tier != "thorough" && i != 0 && i != 1 && i != len(ivs)-1 && i != len(ivs)-2 {
					continue
				}
				out = append(out, digestJob{e: e, height: -1, name: fmt.Sprintf("%s, heights %s..%s", e, iv.lo, iv.hi), rng: map[string]Iv{"#1": iv}})
			}
		case "eaglesong":
			for _, n := range lens {
				out = append(out, digestJob{e: e, height: -1, length: n, name: fmt.Sprintf("%s, %d input bytes", e, n)})
			}
		}
	}
	return append(slow, out...)
}

func checkC24(p *Program, rep *Report) {
	rep.Rule = "Global value numbering of each Compute method together with an independent reference written from the published algorithms (analyzer/ref): both are evaluated over the same symbolic inputs in one hash-consed universe of terms, with selection by the branch condition at merges. A digest whose value number is the reference's is proved equal for every input; different value numbers are a violation when a random interpretation of the unknowns and uninterpreted functions (Gulwani and Necula) gives them different values."
	rep.Assume = append(append([]string{}, commonAssumptions...), "the library hash functions compute the hashes they are named after")
	expectEntries(p, rep)
	js := digestJobs(p, rep.Tier)
	points := 6
	if rep.Tier == "thorough" {
		points = 60
	}
	var jobs []kernel
	for _, j := range js {
		j := j
		jobs = append(jobs, kernel{j.name, func(rep *Report, points int) { p.digestJob(rep, j, points) }})
	}
	jobs = append(jobs, p.kernels(rep.Tier)...)
	for _, e := range p.entries() {
		e := e
		switch {
		case e.pkg == "heavyhash" && e.ctor == "NewKaspa":
			for n := 1; n < 3; n++ {
				n := n
				jobs = append(jobs, kernel{fmt.Sprintf("newMatrix %d", n), func(rep *Report, points int) { p.matrixJob(rep, e, n, points) }})
			}
		case e.pkg == "octopus":
			jobs = append(jobs, kernel{"octopus field functions", func(rep *Report, points int) { p.fieldJob(rep, e, rep.Tier) }})
		}
	}
	if only := os.Getenv("POWLINT_ONLY"); only != "" { // debugging
		var k []kernel
		for _, j := range jobs {
			if strings.Contains(j.name, only) {
				k = append(k, j)
			}
		}
		jobs = k
	}
	parallelN(len(jobs), 4, func(i int) {
		t0 := time.Now()
		jobs[i].run(rep, points)
		if os.Getenv("POWLINT_TIME") != "" {
			fmt.Fprintln(os.Stderr, "job", jobs[i].name, time.Since(t0))
		}
	})
}

func (p *Program) digestJob(rep *Report, j digestJob, points int) {
	e := j.e
	var cs []cmp
	var r *Run
	err := -1
	cfg := clientCfg(e, RunCfg{fixed: map[string]int64{"#0": 32}, rng: j.rng})
	if e.pkg == "eaglesong" {
		cfg.fixed["#0"] = j.length
	}
	if e.pkg == "autolykos2" {
		cfg.blob, cfg.unroll, cfg.unrollP, cfg.unrollS = 16384, 1100, 9000, 5000000
	}
	if e.pkg == "octopus" {
		cfg.unroll, cfg.unrollP, cfg.unrollS = 1100, 50000, 50000000
	}
	setup, prep := cfg.setup, cfg.prep
	cfg.setup = func(in *Interp) {
		if setup != nil {
			setup(in)
		}
		in.gated()
		in.refItem()
	}
	if e.pkg == "kawpow" || e.pkg == "firopow" {
		s3 := cfg.setup
		cfg.setup = func(in *Interp) {
			s3(in)
			a, b := p.pkg("internal/crypto").Func("KeccakF800"), p.refFn("f800")
			if isF800(a) && isF800(b) {
				in.hooks[a.String()], in.hooks[b.String()] = f800Hook, f800Hook
			}
		}
	}
	cfg.prep = func(r *Run) {
		if prep != nil {
			prep(r)
		}
		if j.height >= 0 {
			r.args[2] = r.in.T.Int(j.height)
		}
		if j.nonce != nil {
			r.args[3] = j.nonce(r.in)
		}
	}
	var rst *State
	var cacheV, l1V Val
	var size Val
	capture := func(in *Interp, st *State, c Val) {
		if rst != nil {
			in.abort("GetCache is called again")
		}
		ct := in.P.dagFn("GetCache").Signature.Results().At(0).Type()
		s := st.clone()
		call := func(f *ssa.Function, args ...Val) Val {
			if f == nil {
				in.abort("no accessor of cached data")
			}
			o := in.callFn(s, nil, f, args, nil, nil)
			if len(o) != 1 || len(o[0].res) != 1 {
				in.abort("accessor of cached data")
			}
			s = o[0].st
			return o[0].res[0]
		}
		cacheV = call(in.P.method(ct, "Cache"), c)
		if f := in.P.method(ct, "L1"); f != nil {
			l1V = call(f, c)
		}
		rst = s
	}
	var hv *heavyHooks
	var oh *octHooks
	if isDag(e) {
		cr := p.clientRunW(e, cfg, "C24", func(cr *cacheRun) {
			cr.plain = true
			cr.onCache = func(st *State, c Val) {
				r = cr.Run
				capture(cr.in, st, c)
			}
			cr.setupW = func(in *Interp) {
				if e.pkg == "octopus" {
					oh = in.octopusHooks()
				}
			}
		})
		r = cr.Run
		if r.abort == "" && rst != nil {
			r.abort = r.in.guard(func() {
				T := r.in.T
				el, ok := r.in.cfgInt(r.st0, cr.dag, "EpochLength")
				if !ok || el.sign() <= 0 {
					r.in.abort("epoch length")
				}
				ep := T.sv(rst, T.Div(r.args[2].(*Term), T.Const(el), true))
				o := r.in.callFn(rst.clone(), nil, p.dagFn("DatasetSize"), []Val{cr.dag, ep}, nil, nil)
				if len(o) != 1 {
					r.in.abort("dataset size")
				}
				size = o[0].res[0]
			})
		}
	} else {
		if e.pkg == "heavyhash" {
			s2 := cfg.setup
			cfg.setup = func(in *Interp) {
				s2(in)
				hv = in.heavyHooks(p)
			}
		}
		r = p.run(e, cfg)
		rst = r.st0
	}
	r.cover(rep)
	rep.count("runs", 1)
	in := r.in
	if r.abort != "" {
		return
	}
	if rst == nil {
		rep.undecided(j.name + ": no cache is obtained")
		return
	}
	sh := shapeOfResults(r)
	err = sh.err
	good := func(k int) func(o Outcome) (*State, []*Term) {
		return func(o Outcome) (*State, []*Term) {
			st := o.st
			if err >= 0 {
				st = in.condNil(o.st, o.res[err], true)
			}
			if st == nil {
				return nil, nil
			}
			return st, in.digestTerms(st, o.res[k])
		}
	}
	add := func(what string, k int, o Outcome, v Val) {
		cs = append(cs, cmp{what: j.name + ": " + what, got: r.outs, pick: good(k), want: in.digestTerms(o.st, v), wst: o.st})
	}
	var ro []Outcome
	var why string
	switch e.pkg {
	case "ethash":
		ro, why = in.callRef(rst, "Ethash", r.args[1], r.args[3], size, cacheV)
	case "kawpow":
		ro, why = in.callRef(rst, "KawPow", r.args[1], r.args[2], r.args[3], size, cacheV, l1V)
	case "firopow":
		ro, why = in.callRef(rst, "FiroPow", r.args[1], r.args[2], r.args[3], size, cacheV, l1V)
	case "octopus":
		var args []Val
		args, why = oh.roles(r)
		if why == "" {
			ro, why = in.callRef(rst, "Octopus", append([]Val{r.args[1], r.args[3], size, cacheV}, args...)...)
		}
	case "heavyhash":
		var m Val
		m, why = hv.matrix(r, rep, j, points)
		if why == "" {
			ro, why = in.callRef(hv.st, "HeavyHash", m, r.args[1], r.args[2], r.args[3])
		}
	case "autolykos2":
		n := int64(2143944600)
		if iv := j.rng["#1"]; iv.lo.le(ni(4198400)) {
			n = ergoN(iv.lo.i64())
		}
		ro, why = in.callRef(rst, "Autolykos", r.args[1], r.args[3], r.args[2], in.T.Int(n))
	case "eaglesong":
		var g Val
		g, why = p.eagleConstants(r, rep)
		if why == "" {
			ro, why = in.callRef(rst, "Eaglesong", r.args[1], g)
		}
	}
	if why != "" {
		rep.undecided(j.name + ": " + why)
		return
	}
	if len(sh.digests) != len(ro[0].res) {
		rep.undecided(j.name + ": unexpected results")
		return
	}
	for k, d := range sh.digests {
		add(fmt.Sprintf("result %d", d), d, ro[0], ro[0].res[k])
	}
	for _, c := range cs {
		in.decide(rep, r, r.fn, c, points)
	}
}

// eagleDigest is the SHA-256 digest of the 688 round constants, the
// little-endian words of SHAKE256 of the sentence the specification names.
const eagleDigest = "ae20b7a6e9fba3d681d5d931233ec2d0f41f3e59fb984e118db468f557c42483"

// eagleConstants finds the 688 round constants of the code.
func (p *Program) eagleConstants(r *Run, rep *Report) (Val, string) {
	in := r.in
	for _, m := range p.pkg("eaglesong").Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		et := g.Type().(*types.Pointer).Elem()
		v := in.loadPtr(r.st0, in.globalPtr(r.st0, g), et)
		if s, ok := v.(*SliceV); ok && types.Identical(under(et).(*types.Slice).Elem(), types.Typ[types.Uint32]) {
			if n, ok := in.T.sv(r.st0, s.len).constVal(); ok && n == ni(43*16) {
				vs, ok := in.sliceElems(r.st0, s, types.Typ[types.Uint32], 43*16)
				if !ok {
					return nil, "the round constants are not tracked"
				}
				h := sha256.New()
				for _, v := range vs {
					k, ok := v.(*Term).constVal()
					if !ok {
						return nil, "the round constants are not constant"
					}
					binary.Write(h, binary.LittleEndian, uint32(k.u64()))
				}
				rep.check("round constants", fmt.Sprintf("%x", h.Sum(nil)) == eagleDigest, Finding{Key: "eaglesong constants", Where: in.posStr(g.Pos()), Func: "eaglesong." + g.Name(),
					What: "the round constants differ from the SHAKE256 stream they are defined by"})
				return s, ""
			}
		}
	}
	return nil, "the round constants were not found"
}

// heavyHooks stands for newMatrix, whose body is compared on its own.
type heavyHooks struct {
	st   *State
	m    Val
	args []*Term
	n    int
}

// matrixFn finds newMatrix and the type of the matrix.
func (p *Program) matrixFn() (*ssa.Function, types.Type) {
	f := p.pkg("heavyhash").Func("newMatrix")
	if f == nil || f.Signature.Params().Len() != 4 || f.Signature.Results().Len() != 1 {
		return nil, nil
	}
	pt, ok := under(f.Signature.Results().At(0).Type()).(*types.Pointer)
	if !ok || !isMatrix(pt.Elem()) {
		return nil, nil
	}
	for i := 0; i < 4; i++ {
		if !types.Identical(under(f.Signature.Params().At(i).Type()), types.Typ[types.Uint64]) {
			return nil, nil
		}
	}
	return f, pt.Elem()
}

func isMatrix(t types.Type) bool {
	return types.Identical(under(t), types.NewArray(types.NewArray(types.Typ[types.Uint16], 64), 64))
}

func (in *Interp) heavyHooks(p *Program) *heavyHooks {
	h := &heavyHooks{}
	f, mt := p.matrixFn()
	if f == nil {
		in.abort("newMatrix(s0, s1, s2, s3 uint64) *[64][64]uint16 not found")
	}
	in.hooks[f.String()] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
		T := in.T
		if h.n++; h.n > 1 {
			in.abort("newMatrix is called more than once")
		}
		for _, a := range args {
			h.args = append(h.args, a.(*Term))
		}
		u16 := types.Typ[types.Uint16]
		d := T.deps.empty
		for _, a := range h.args {
			d = T.deps.or(d, a.dep)
		}
		m := &ArrC{n: T.Int(64), def: in.zero(types.NewArray(u16, 64)), et: types.NewArray(u16, 64)}
		for i := 0; i < 64; i++ {
			r := &ArrC{n: T.Int(64), def: T.zero, et: u16}
			for j := 0; j < 64; j++ {
				r.elems = r.elems.Set(uint64(j), Val(T.Leaf(fmt.Sprintf("in:m.%d.%d", i, j), Iv{n0, ni(15)}, d)))
			}
			m.elems = m.elems.Set(uint64(i), Val(r))
		}
		v := in.alloc(st, nil, nil, "matrix", mt, m)
		h.m = v
		h.st = st.clone()
		return []Outcome{{st, []Val{v}}}, true
	}
	return h
}

// matrix compares the arguments and the body of newMatrix, and gives the
// matrix the digest was computed with.
func (h *heavyHooks) matrix(r *Run, rep *Report, j digestJob, points int) (Val, string) {
	if h.m == nil {
		return nil, "newMatrix is not called"
	}
	in := r.in
	ro, why := in.callRef(h.st, "LE64s", r.args[1])
	if why != "" {
		return nil, why
	}
	var want []*Term
	for _, v := range ro[0].res {
		want = append(want, v.(*Term))
	}
	in.decide(rep, r, r.fn, cmp{what: j.name + ": the matrix seed", got: r.outs[:1], want: want, wst: ro[0].st,
		pick: func(o Outcome) (*State, []*Term) { return h.st, h.args }}, points)
	return h.m, ""
}

// matrixJob compares newMatrix when the n-th matrix filled is regular.
func (p *Program) matrixJob(rep *Report, e entry, n int, points int) {
	f, mt := p.matrixFn()
	if f == nil {
		return
	}
	in := newInterp(p)
	r := &Run{e: e, p: p, in: in, fn: f}
	r.abort = in.guard(func() {
		st := in.runInits(in.newState(), p.pkg("heavyhash"))
		in.gated()
		cnt := in.newID(nil, "matrices", "")
		ranks := 0
		for _, m := range p.fnsOf("heavyhash") {
			if s := m.Signature; s.Params().Len() == 1 && s.Recv() == nil && s.Results().Len() == 1 {
				pt, ok := under(s.Params().At(0).Type()).(*types.Pointer)
				if _, _, isInt := in.intInfo(s.Results().At(0).Type()); ok && isInt && isMatrix(pt.Elem()) {
					ranks++
					in.hooks[m.String()] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
						a, ok := in.loadPtr(st, args[0].(*PtrV), mt).(*ArrC)
						if !ok {
							return nil, false
						}
						if row, ok := in.elem(a, 0).(*ArrC); ok {
							if t, ok := in.elem(row, 0).(*Term); ok && t == in.T.zero {
								return []Outcome{{st, []Val{in.T.zero}}}, true
							}
						}
						st.setTS(cnt, st.getTS(cnt)+1)
						k := int64(64)
						if int(st.getTS(cnt)) < n {
							k = 63
						}
						return []Outcome{{st, []Val{in.T.Int(k)}}}, true
					}
				}
			}
		}
		if ranks == 0 {
			in.abort("no function gives the rank of a matrix")
		}
		r.args = in.inputs(st, f, 0)
		r.st0 = st.clone()
		r.outs = in.callFn(st, nil, f, r.args, nil, nil)
	})
	r.cover(rep)
	if r.abort != "" {
		return
	}
	ro, why := in.callRef(r.st0, "MatrixN", append(append([]Val{}, r.args...), in.T.Int(int64(n)))...)
	if why != "" {
		rep.undecided("newMatrix: " + why)
		return
	}
	all := func(v Val) (out []*Term) {
		a, ok := v.(*ArrC)
		if !ok {
			return nil
		}
		for i := 0; i < 64; i++ {
			row, ok := in.elem(a, i).(*ArrC)
			if !ok {
				return nil
			}
			for j := 0; j < 64; j++ {
				t, ok := in.elem(row, j).(*Term)
				if !ok {
					return nil
				}
				out = append(out, t)
			}
		}
		return
	}
	in.decide(rep, r, f, cmp{what: fmt.Sprintf("newMatrix, matrix %d regular", n), got: r.outs, want: all(ro[0].res[0]), wst: ro[0].st,
		pick: func(o Outcome) (*State, []*Term) {
			return o.st, all(in.loadPtr(o.st, o.res[0].(*PtrV), mt))
		}}, points)
}

// decide compares and records.
func (in *Interp) decide(rep *Report, r *Run, fn *ssa.Function, c cmp, points int) {
	var res cmpRes
	if why := in.guard(func() { res = in.compare(c, points) }); why != "" {
		res = cmpRes{why: why}
	}
	rep.cmp(in.P, r, fn, c, res)
}

// fnsOf lists the functions declared in a package.
func (p *Program) fnsOf(rel string) []*ssa.Function {
	var names []string
	pk := p.pkg(rel)
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*ssa.Function
	for _, n := range names {
		if f, ok := pk.Members[n].(*ssa.Function); ok && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

// octHooks stands for the functions of octopus on field elements that loop on
// data: they are uninterpreted in the comparison of the digest, and compared
// with the reference under constants.
type octHooks struct {
	remap, third *ssa.Function
	why          string
}

// loopsOnData tells whether a function, or a function of the package it calls, loops.
func (in *Interp) loopsOnData(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true // recursion
	}
	if f.Blocks == nil {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	if len(in.info(f).loops) > 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg && in.loopsOnData(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) octopusHooks() *octHooks {
	h := &octHooks{}
	for _, f := range in.P.fnsOf("octopus") {
		s := f.Signature
		n := s.Params().Len()
		ok := s.Results().Len() == 1 && types.Identical(under(s.Results().At(0).Type()), types.Typ[types.Uint64]) && (n == 1 || n == 3)
		for i := 0; i < n; i++ {
			ok = ok && types.Identical(under(s.Params().At(i).Type()), types.Typ[types.Uint64])
		}
		if !ok || !in.loopsOnData(f, map[*ssa.Function]bool{}) {
			continue
		}
		name := "remap"
		if n == 3 {
			name = "third"
		}
		if n == 1 {
			if h.remap != nil {
				h.why = "several functions of one word loop"
			}
			h.remap = f
		} else {
			if h.third != nil {
				h.why = "several functions of three words loop"
			}
			h.third = f
		}
		in.hooks[f.String()] = func(in *Interp, st *State, fr *Frame, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, in.T.sv(st, a.(*Term)))
			}
			return []Outcome{{st, []Val{in.fieldApp(name, ts...)}}}, true
		}
	}
	if h.why == "" && (h.remap == nil || h.third == nil) {
		h.why = "the functions of field elements were not found"
	}
	return h
}

func (in *Interp) fieldApp(name string, ts ...*Term) *Term {
	return in.T.App(name, Iv{n0, ni(1032192)}, ts...)
}

// roles gives the four field elements derived from the hash.
func (h *octHooks) roles(r *Run) ([]Val, string) {
	if h.why != "" {
		return nil, h.why
	}
	ro, why := r.in.callRef(r.st0, "LE64s", r.args[1])
	if why != "" {
		return nil, why
	}
	var v [4]*Term
	for i := range v {
		v[i] = ro[0].res[i].(*Term)
	}
	a, b, w := r.in.fieldApp("remap", v[0]), r.in.fieldApp("remap", v[1]), r.in.fieldApp("remap", v[3])
	return []Val{a, b, r.in.fieldApp("third", a, b, v[2]), w}, ""
}

// fieldJob compares the functions of field elements with the reference by
// constant propagation.
func (p *Program) fieldJob(rep *Report, e entry, tier string) {
	in := newInterp(p)
	r := &Run{e: e, p: p, in: in}
	h := in.octopusHooks()
	if h.why != "" {
		rep.undecided("octopus: " + h.why)
		return
	}
	in.hooks = map[string]Hook{}
	in.unroll, in.unrollP, in.unrollSteps = 2000, 20000, 50000000
	const m = 1032193
	us := []uint64{0, 1, 2, 6, 7, 13, 127, 128, 16127, m - 4, m - 3, m - 2, m - 1, m, m + 1, 2*m - 4, 2*m - 5, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2}
	x := uint64(88172645463325252)
	n := 8
	if tier == "thorough" {
		n = 1500
	}
	for i := 0; i < n; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		us = append(us, x)
	}
	pow := func(a, k uint64) uint64 {
		v := uint64(1)
		for ; k > 0; k >>= 1 {
			if k&1 == 1 {
				v = v * a % m
			}
			a = a * a % m
		}
		return v
	}
	eval := func(f *ssa.Function, args ...uint64) (uint64, string) {
		var got uint64
		why := in.guard(func() {
			st := in.runInits(in.newState(), p.pkg("octopus"))
			var vs []Val
			for _, a := range args {
				vs = append(vs, in.T.Const(nbig(new(big.Int).SetUint64(a))))
			}
			o := in.callFn(st, nil, f, vs, nil, nil)
			if len(o) != 1 {
				in.abort("constants do not decide " + f.Name())
			}
			k, ok := o[0].res[0].(*Term).constVal()
			if !ok {
				in.abort("constants do not decide " + f.Name())
			}
			got = k.big().Uint64()
		})
		return got, why
	}
	one := func(f *ssa.Function, ref string, args ...uint64) uint64 {
		got, why1 := eval(f, args...)
		want, why2 := eval(p.refFn(ref), args...)
		switch {
		case why1+why2 != "":
			rep.undecided(fmt.Sprintf("octopus %s%v: %s", ref, args, why1+why2))
		case got != want:
			rep.fail("equal to the reference", Finding{Key: "octopus " + ref, Func: fnName(f), Where: in.posStr(f.Pos()),
				What: fmt.Sprintf("%s%v is %d, the reference has %d", f.Name(), args, got, want)})
		default:
			rep.okN("equal under constant propagation", 1)
		}
		return want
	}
	for _, u := range us {
		one(h.remap, "Remap", u)
	}
	// computeC, where the discriminant vanishes for the first and for the first two candidates too
	for i, u := range us {
		if i%3 != 0 && tier != "thorough" {
			continue
		}
		a := one(h.remap, "Remap", u)
		for k := uint64(0); k < 2; k++ {
			hh := us[(i+7)%len(us)]
			c, why := eval(p.refFn("Remap"), hh+k)
			if why != "" {
				continue
			}
			b := uint64(5)
			if k == 0 { // b*b = 4*a*c, if that is a square: a power of 11 squared
				b = pow(4*a%m*c%m, (m-1)/2)
				if b == 1 {
					b = sqrtMod(4*a%m*c%m, m)
				}
			}
			one(h.third, "Third", a, b, hh)
		}
	}
	r.fn = h.remap
	r.cover(rep)
}

// sqrtMod is a square root by search.
func sqrtMod(x, m uint64) uint64 {
	for b := uint64(1); b < m; b++ {
		if b*b%m == x {
			return b
		}
	}
	return 1
}

// nearMiss finds small subterms that agree under interpretations but have
// different value numbers (debugging of the normal forms).
func (in *Interp) nearMiss(st *State, as, bs []*Term) {
	type key struct{ x, y string }
	e1, e2 := newInterpT(in, st, 77, 0), newInterpT(in, st, 78, 0)
	collect := func(ts []*Term) map[*Term]bool {
		m := map[*Term]bool{}
		closure(ts, func(t *Term) { m[t] = true })
		return m
	}
	sa, sb := collect(as), collect(bs)
	val := func(t *Term) (k key, ok bool) {
		why := e1.try(func() { k.x = e1.eval(t).String() })
		why += e2.try(func() { k.y = e2.eval(t).String() })
		return k, why == "" && len(k.x) > 5
	}
	best := map[key]*Term{}
	for t := range sa {
		if !sb[t] {
			if k, ok := val(t); ok {
				best[k] = t
			}
		}
	}
	type pair struct{ a, b *Term }
	var ps []pair
	for t := range sb {
		if !sa[t] {
			if k, ok := val(t); ok && best[k] != nil {
				ps = append(ps, pair{best[k], t})
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].a.dpt+ps[i].b.dpt < ps[j].a.dpt+ps[j].b.dpt })
	for i, p := range ps {
		if i > 5 {
			break
		}
		fmt.Fprintf(os.Stderr, "NEAR %.300s\n   ||| %.300s\n", p.a.str(4), p.b.str(4))
	}
}
