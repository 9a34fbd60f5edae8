package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// C04, C05: the tree verifiers. The path condition of every accepting return
// is collected; every condition of the specification has to follow from it.

func init() { checks["C04"] = checkC04 }

// stopAt ends the remaining runs some time after a violation is found.
var stopAt atomic.Int64

func stopEarly() bool {
	t := stopAt.Load()
	return t != 0 && time.Now().Unix() > t
}

func (in *Interp) verifyMode() {
	in.gated()
	in.coarse, in.T.flat, in.gt.deep = true, true, 300
}

// accepts lists the states in which the verifier may return true and no error,
// with the verdict assumed.
func (r *Run) accepts() (out []*State) {
	in := r.in
	for _, o := range r.outs {
		if len(o.res) != 2 {
			continue
		}
		v, ok := o.res[0].(*Term)
		if !ok {
			continue
		}
		v = in.T.sv(o.st, v)
		if v.op == OConst && v.k.sign() == 0 {
			continue
		}
		st := in.condNil(o.st, o.res[1], true)
		if st == nil {
			continue
		}
		st = st.clone()
		if _, nt, ok := nullOf(o.res[1]); ok && nt != nil {
			st.g = st.g.push(in.gt.lit(nt, true))
		}
		st.g = st.g.push(in.gt.lit(v, true))
		if in.T.assume(st, v, true) {
			out = append(out, st)
		}
	}
	return
}

// need is a condition of the specification.
type need struct {
	kind string // for the report
	what string
	form *lf      // this bit form is zero
	lo   *Term    // this index does not exceed hi
	hi   *Term    //
	ne   [2]*Term // these indices differ
	pos  [2]int   // leaves concerned
}

// treeSpec is what a tree verifier has to check for one solution.
type treeSpec struct {
	name   string
	idx    []*Term // indices in solution order
	needs  func(b *bitForms) ([]need, string)
	soln   func(ix []int64) []byte // packs indices
	limit  int64
	solnIn string
	leaf   func(i int) []*Term
}

func treeOrder(n int) (out [][2]int) {
	for s := 1; s < n; s *= 2 {
		for i := 0; i < n; i += 2 * s {
			out = append(out, [2]int{i, i + s})
		}
	}
	return
}

// indexNeeds are the order and distinctness conditions of the tree.
func indexNeeds(idx []*Term) (out []need) {
	for _, p := range treeOrder(len(idx)) {
		out = append(out, need{kind: "order of subtrees", what: fmt.Sprintf("the first index of the subtree at leaf %d may exceed that of the subtree at leaf %d", p[0], p[1]), lo: idx[p[0]], hi: idx[p[1]], pos: p})
	}
	for i := range idx {
		for j := 0; j < i; j++ {
			out = append(out, need{kind: "distinct indices", what: fmt.Sprintf("leaves %d and %d may have the same index", j, i), ne: [2]*Term{idx[j], idx[i]}, pos: [2]int{j, i}})
		}
	}
	return
}

func (l *ledger) holds(T *Terms, st *State, n *need) bool {
	pred := func(p *Term, want bool) bool {
		for p.op == ONot {
			p, want = p.args[0], !want
		}
		if p.op == OConst {
			return (p.k.sign() != 0) == want
		}
		if v, ok := l.lits[p]; ok {
			return v == want
		}
		v, ok := T.decide(st, p)
		return ok && v == want
	}
	if n.lo != nil {
		return pred(T.GE0(T.Sub(n.hi, n.lo)), true) || pred(T.GE0(T.AddK(T.Sub(n.lo, n.hi), nm1)), false)
	}
	return pred(T.EQ(n.ne[0], n.ne[1]), false)
}

// equations are the forms the ledger says are zero.
func (l *ledger) equations(b *bitForms) (eqs []lf, partial int) {
	for _, t := range l.zero {
		x, ok := b.zeros(t)
		if !ok {
			partial++
		}
		eqs = append(eqs, x...)
	}
	return
}

func (p *Program) treeCheck(rep *Report, r *Run, spec *treeSpec) {
	in := r.in
	T := in.T
	fn := r.fn
	accs := r.accepts()
	rep.count("accepting paths", len(accs))
	if len(accs) == 0 {
		rep.undecided(spec.name + ": no accepting path is found")
		return
	}
	fail := func(n *need, how string) {
		stopAt.CompareAndSwap(0, time.Now().Add(30*time.Second).Unix())
		rep.fail(n.kind, Finding{Key: spec.name + " " + n.kind, Where: in.posStr(fn.Pos()), Func: fnName(fn), What: spec.name + ": an accepting path does not imply: " + n.kind + " (" + n.what + "); " + how, Trace: []string{"entry " + r.e.String()}})
	}
	vagueRun := false
	for _, ev := range in.events {
		vagueRun = vagueRun || ev.kind == "unsupported"
	}
	type acc struct {
		st *State
		l  *ledger
	}
	var as []acc
	for _, st := range accs {
		for _, l := range in.ledgers(st) {
			as = append(as, acc{st, l})
		}
	}
	for _, x := range as {
		st, l := x.st, x.l
		rep.count("conjuncts of accepting paths", len(l.list))
		// index conditions
		var open []need
		done := map[string]int{}
		for _, n := range indexNeeds(spec.idx) {
			n := n
			if l.holds(T, st, &n) {
				done[n.kind]++
			} else {
				open = append(open, n)
			}
		}
		// bit conditions
		b := newBitForms(in)
		eqs, partial := l.equations(b)
		sp := newSpan(eqs)
		needs, why := spec.needs(b)
		if why != "" {
			rep.undecided(spec.name + ": " + why)
			return
		}
		var bad []need
		for _, n := range needs {
			if sp.has(*n.form) {
				done[n.kind]++
			} else {
				bad = append(bad, n)
			}
		}
		rep.count("bit equations of accepting paths", len(eqs))
		for k, v := range done {
			rep.okN(k, v)
		}
		if len(bad) > 0 {
			bad = in.signed(l, st, spec, bad, rep, done)
		}
		vague := vagueRun || l.lost || len(l.opaque) > 0 || partial > 0
		if os.Getenv("POWLINT_DEBUG") != "" {
			fmt.Println("open", len(open), "bad", len(bad), "lost", l.lost, "opaque", len(l.opaque), "partial", partial)
			for i, o := range l.zero {
				if _, ok := b.zeros(o); !ok && i < 64 {
					fmt.Println("  partial", o.str(3))
				}
			}
			for i, o := range l.opaque {
				if i < 4 {
					fmt.Println("  opaque", o.str(3))
				}
			}
			for i, n := range append(append([]need{}, open...), bad...) {
				if i < 8 {
					fmt.Println("  ", n.kind, n.what)
				}
			}
		}
		by := map[string][]need{}
		for _, n := range bad {
			by[n.kind] = append(by[n.kind], n)
		}
		for k, ns := range by {
			if vague {
				rep.undecided(fmt.Sprintf("%s: %d conditions of kind %q do not follow from the part of the path condition that is understood", spec.name, len(ns), k))
				continue
			}
			fail(&ns[0], fmt.Sprintf("%d such conditions are not in the span of the equations on the path", len(ns)))
		}
		by = map[string][]need{}
		for _, n := range open {
			by[n.kind] = append(by[n.kind], n)
		}
		for k, ns := range by {
			if w := in.refuteIndex(l, st, spec, ns); w != nil && !vagueRun {
				fail(w, fmt.Sprintf("the index conditions on the path hold for a solution that violates it (%d such conditions are not on the path)", len(ns)))
			} else {
				rep.undecided(fmt.Sprintf("%s: %d conditions of kind %q are neither on the accepting path nor refuted", spec.name, len(ns), k))
			}
		}
	}
}

// signed decides the conditions again with bits named by their values.
func (in *Interp) signed(l *ledger, st *State, spec *treeSpec, bad []need, rep *Report, done map[string]int) []need {
	sg := in.newSignatures(st, 64)
	b := newBitForms(in)
	b.atom = sg.atom
	eqs, _ := l.equations(b)
	sp := newSpan(eqs)
	needs, why := spec.needs(b)
	if why != "" {
		return bad
	}
	still := map[string]bool{}
	for _, n := range bad {
		still[n.kind+n.what] = true
	}
	var out []need
	n2 := 0
	for _, n := range needs {
		if !still[n.kind+n.what] {
			continue
		}
		if sp.has(*n.form) {
			n2++
		} else {
			out = append(out, n)
		}
	}
	if n2 > 0 {
		rep.okN("equations identified by random interpretation", n2)
	}
	if sg.why != "" {
		l.opaque = append(l.opaque, in.T.zero)
		rep.list("not interpreted", spec.name+": "+sg.why)
	}
	return out
}

// refuteIndex looks for indices that satisfy the index conditions of the path
// but not the condition needed.
func (in *Interp) refuteIndex(l *ledger, st *State, spec *treeSpec, ns []need) *need {
	hashy := map[*Term]bool{}
	var isHashy func(t *Term) bool
	isHashy = func(t *Term) bool {
		if v, ok := hashy[t]; ok {
			return v
		}
		hashy[t] = false
		v := t.op == OApp && (strings.HasPrefix(t.name, "blake2b") || t.name == "sel")
		for _, a := range t.args {
			v = v || isHashy(a)
		}
		for _, s := range t.segs {
			v = v || s.src != nil && isHashy(s.src)
		}
		hashy[t] = v
		return v
	}
	var idx []lit
	for _, x := range l.list {
		if !isHashy(x.t) {
			idx = append(idx, x)
		}
	}
	if l.lost || len(l.opaque) > 0 {
		return nil
	}
	rng := rand.New(rand.NewSource(1))
	n := len(spec.idx)
	le := diffs(spec.idx, idx)
	tries := 0
	for k := range ns {
		nd := &ns[k]
		if len(ns) > 12 && k%(len(ns)/12) != 0 {
			continue
		}
		for try := 0; try < 4 && tries < 60; try++ {
			ix := indexModel(n, nd, spec.limit, le, try != 3, rng)
			if ix == nil {
				break
			}
			tries++
			e := newInterpT(in, st, uint64(try+1), 0)
			e.over = map[string]*big.Int{}
			for i, x := range spec.soln(ix) {
				e.over[fmt.Sprintf("Ldata(%s)#%d", spec.solnIn, i)] = big.NewInt(int64(x))
			}
			ok := true
			why := e.try(func() {
				for _, x := range idx {
					if (e.eval(x.t).Sign() != 0) != x.pos {
						ok = false
						if os.Getenv("POWLINT_DEBUG") != "" {
							fmt.Println("  model", nd.what, ix, "fails", x.pos, x.t.str(3))
						}
						return
					}
				}
			})
			if why == "" && ok {
				return nd
			}
			if why != "" && os.Getenv("POWLINT_DEBUG") != "" {
				fmt.Println("  model not evaluated:", why)
			}
		}
	}
	return nil
}

// diffs are the comparisons between two indices among the literals: pairs
// (a, b) with index a at most index b less s.
func diffs(idx []*Term, ls []lit) (le [][3]int) {
	at := map[*Term]int{}
	for i, t := range idx {
		at[t] = i
	}
	for _, x := range ls {
		if x.t.op != OGE0 || x.t.args[0].op != OLin {
			continue
		}
		l := x.t.args[0]
		if len(l.args) != 2 || !l.k.isI64() {
			continue
		}
		a, oka := at[l.args[0]]
		b, okb := at[l.args[1]]
		if !oka || !okb {
			continue
		}
		k := int(l.k.i64())
		switch {
		case l.co[0] == n1 && l.co[1] == nm1:
		case l.co[0] == nm1 && l.co[1] == n1:
			a, b = b, a
		default:
			continue
		}
		// a - b + k >= 0, or not
		if x.pos {
			le = append(le, [3]int{b, a, -k})
		} else {
			le = append(le, [3]int{a, b, k + 1})
		}
	}
	return
}

// indexModel gives indices that satisfy the comparisons given and as many of
// the tree's order conditions as possible, but not nd.
func indexModel(n int, nd *need, limit int64, le [][3]int, soft bool, rng *rand.Rand) []int64 {
	rep := make([]int, n)
	for i := range rep {
		rep[i] = i
	}
	next := make([]map[int]bool, n)
	for i := range next {
		next[i] = map[int]bool{}
	}
	reach := func(a, b int) bool {
		seen := map[int]bool{a: true}
		q := []int{a}
		for len(q) > 0 {
			x := q[len(q)-1]
			q = q[:len(q)-1]
			if x == b {
				return true
			}
			for y := range next[x] {
				if !seen[y] {
					seen[y] = true
					q = append(q, y)
				}
			}
		}
		return false
	}
	edge := func(a, b int) bool {
		a, b = rep[a], rep[b]
		if a == b {
			return true
		}
		if reach(b, a) {
			return false
		}
		next[a][b] = true
		return true
	}
	if nd.lo != nil {
		edge(nd.pos[1], nd.pos[0])
	} else {
		rep[nd.pos[1]] = nd.pos[0]
	}
	for _, c := range le {
		if rep[c[0]] == rep[c[1]] && c[2] > 0 || !edge(c[0], c[1]) {
			return nil
		}
	}
	if soft {
		if p := nd.pos[0]; nd.lo != nil && p != 0 {
			edge(p&(p-1), nd.pos[1])
		}
		for _, p := range treeOrder(n) {
			edge(p[0], p[1])
		}
	}
	indeg := make([]int, n)
	for a := range next {
		for b := range next[a] {
			indeg[b]++
		}
	}
	vals := map[int64]bool{}
	for len(vals) < n {
		vals[rng.Int63n(limit)] = true
	}
	var s []int64
	for v := range vals {
		s = append(s, v)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	out := make([]int64, n)
	var q []int
	for p := 0; p < n; p++ {
		if rep[p] == p && indeg[p] == 0 {
			q = append(q, p)
		}
	}
	c := 0
	for len(q) > 0 {
		k := rng.Intn(len(q))
		p := q[k]
		q = append(q[:k], q[k+1:]...)
		out[p] = s[c]
		c++
		var bs []int
		for b := range next[p] {
			bs = append(bs, b)
		}
		sort.Ints(bs)
		for _, b := range bs {
			if indeg[b]--; indeg[b] == 0 {
				q = append(q, b)
			}
		}
	}
	for p := range out {
		out[p] = out[rep[p]]
	}
	return out
}

func checkC04(p *Program, rep *Report) {
	rep.Rule = "Path-condition analysis of the Equihash verifiers: abstract interpretation with all trees unrolled collects the conjunction of branch conditions on every path that returns true. Every Wagner condition of the specification (collision of every bit of every level at every node, order and distinctness at every node, all remaining bits zero) must follow from it: index conditions as facts on the path, bit conditions by membership in the GF(2) span of the path's equations over the bits of the leaf hashes, which are value-numbered together with a reference. A condition that is not in the span, or whose negation is consistent with the index conditions of the path, is a violation."
	rep.Assume = append(append([]string{}, commonAssumptions...), "bits of different blake2b outputs are independent of each other")
	expectEntries(p, rep)
	var es []entry
	for _, e := range p.entries() {
		if e.pkg == "equihash" {
			if o := os.Getenv("POWLINT_ONLY"); o == "" || strings.Contains(o, e.ctor) {
				es = append(es, e)
			}
		}
	}
	sort.Slice(es, func(i, j int) bool { return equihashSpec[es[i].ctor].k > equihashSpec[es[j].ctor].k })
	parallel(len(es), func(i int) { p.equihashTree(rep, es[i]) })
}

func (p *Program) equihashTree(rep *Report, e entry) {
	t0 := time.Now()
	s, ok := equihashSpec[e.ctor]
	if !ok {
		rep.undecided(e.String() + ": no specification of its parameters")
		return
	}
	w := s.n / (s.k + 1)
	size := int64(1) << s.k * (w + 1) / 8
	cfg := RunCfg{fixed: map[string]int64{"#1": size}, setup: func(in *Interp) { in.verifyMode() }}
	r := p.run(e, cfg)
	r.cover(rep)
	rep.count("runs", 1)
	if r.abort != "" {
		return
	}
	in, T := r.in, r.in.T
	if os.Getenv("POWLINT_DEBUG") != "" {
		fmt.Println(e, "run", time.Since(t0))
	}
	bad := func(why string) { rep.undecided(e.String() + ": reference: " + why) }
	ro, why := in.callRef(r.st0, "EquiIndices", r.args[2], T.Int(w+1))
	if why != "" {
		bad(why)
		return
	}
	vs, ok := in.sliceElems(ro[0].st, ro[0].res[0].(*SliceV), types.Typ[types.Uint32], 4096)
	if !ok || int64(len(vs)) != 1<<s.k {
		bad("indices")
		return
	}
	spec := &treeSpec{name: e.String(), solnIn: "arg1", limit: 1 << (w + 1)}
	for _, v := range vs {
		spec.idx = append(spec.idx, v.(*Term))
	}
	spec.soln = func(ix []int64) []byte {
		x := new(big.Int)
		for _, v := range ix {
			x.Lsh(x, uint(w+1)).Or(x, big.NewInt(v))
		}
		out := make([]byte, size)
		b := x.Bytes()
		copy(out[int(size)-len(b):], b)
		return out
	}
	twist := T.zero
	if s.twist {
		twist = T.one
	}
	var leaves [][]*Term
	for _, ix := range spec.idx {
		o, why := in.callRef(r.st0, "EquiLeaf", r.args[1], litStr(s.personal, T.deps.empty), T.Int(s.n), T.Int(s.k), ix, twist)
		if why != "" {
			bad(why)
			return
		}
		ts := in.digestTerms(o[0].st, o[0].res[0])
		if int64(len(ts)) != (s.n+7)/8 {
			bad("leaf")
			return
		}
		leaves = append(leaves, ts)
	}
	if os.Getenv("POWLINT_DEBUG") != "" {
		fmt.Println(e, "leaves", time.Since(t0))
	}
	spec.needs = func(b *bitForms) ([]need, string) {
		bit := make([][]lf, len(leaves)) // leaf, bit of the string
		for i, ts := range leaves {
			for _, t := range ts {
				x := b.bits(t)
				if x == nil {
					return nil, "leaf bits"
				}
				for k := 7; k >= 0; k-- {
					bit[i] = append(bit[i], bitAt(x, k))
				}
			}
		}
		var out []need
		sum := func(from, n, p int) *lf {
			var r lf
			for i := from; i < from+n; i++ {
				r = r.xor(bit[i][p])
			}
			return &r
		}
		for l := int64(0); l < s.k; l++ {
			g := 2 << l
			for i := 0; i < len(leaves); i += g {
				for p := l * w; p < (l+1)*w; p++ {
					out = append(out, need{kind: "collision at every level", what: fmt.Sprintf("level %d, node at leaf %d, bit %d of the leaf hashes", l+1, i, p), form: sum(i, g, int(p))})
				}
			}
		}
		for p := s.k * w; p < s.n; p++ {
			out = append(out, need{kind: "remaining bits are zero", what: fmt.Sprintf("bit %d of the leaf hashes", p), form: sum(0, len(leaves), int(p))})
		}
		return out, ""
	}
	p.treeCheck(rep, r, spec)
	if os.Getenv("POWLINT_DEBUG") != "" {
		fmt.Println(e, "done", time.Since(t0))
	}
}

func init() { checks["C05"] = checkC05 }

func checkC05(p *Program, rep *Report) {
	rep.Rule = "Path-condition analysis of the BeamHash III verifier: abstract interpretation with the tree unrolled collects the conjunction of branch conditions on every path that returns true. Every condition of the specification (collision of the low 24 mixed bits at each of the 31 nodes, order and distinctness at every node, the combined work bits after the last round zero) must follow from it: index conditions as facts on the path, bit conditions by membership in the GF(2) span of the path's equations, whose atoms (the mixed words, siphash of personalised header hash and index) are value-numbered together with an independent reference. A condition that is not in the span, or whose negation is consistent with the index conditions of the path, is a violation."
	rep.Assume = append(append([]string{}, commonAssumptions...), "the mixed words of different subtrees are independent of each other")
	expectEntries(p, rep)
	for _, e := range p.entries() {
		if e.pkg == "beamhashiii" {
			p.beamTree(rep, e)
		}
	}
}

func (p *Program) beamTree(rep *Report, e entry) {
	r := p.run(e, RunCfg{fixed: map[string]int64{"#0": 40, "#1": 104}, setup: func(in *Interp) { in.verifyMode() }})
	r.cover(rep)
	rep.count("runs", 1)
	if r.abort != "" {
		return
	}
	in := r.in
	bad := func(why string) { rep.undecided(e.String() + ": reference: " + why) }
	ro, why := in.callRef(r.st0, "BeamIndices", r.args[2])
	if why != "" {
		bad(why)
		return
	}
	vs, ok := in.sliceElems(ro[0].st, ro[0].res[0].(*SliceV), types.Typ[types.Uint32], 4096)
	if !ok || len(vs) != 32 {
		bad("indices")
		return
	}
	spec := &treeSpec{name: e.String(), solnIn: "arg1", limit: 1 << 25}
	for _, v := range vs {
		spec.idx = append(spec.idx, v.(*Term))
	}
	spec.soln = func(ix []int64) []byte {
		x := new(big.Int)
		for i := len(ix) - 1; i >= 0; i-- {
			x.Lsh(x, 25).Or(x, big.NewInt(ix[i]))
		}
		b := x.Bytes()
		out := make([]byte, 104)
		for i := range b {
			out[i] = b[len(b)-1-i]
		}
		return out
	}
	to, why := in.callRef(ro[0].st, "BeamTree", r.args[1], r.args[2], ro[0].res[0])
	if why != "" {
		bad(why)
		return
	}
	ws, ok := in.sliceElems(to[0].st, to[0].res[0].(*SliceV), types.Typ[types.Uint64], 4096)
	if !ok || len(ws) != 69 {
		bad("tree")
		return
	}
	spec.needs = func(b *bitForms) ([]need, string) {
		var out []need
		k := 0
		for l := 1; l <= 5; l++ {
			for i := 0; i < 32>>uint(l); i++ {
				x, y := b.bits(ws[k].(*Term)), b.bits(ws[k+1].(*Term))
				k += 2
				if x == nil || y == nil {
					return nil, "bits of a mixed word"
				}
				for j := 0; j < 24; j++ {
					f := bitAt(x, j).xor(bitAt(y, j))
					out = append(out, need{kind: "collision at every level", what: fmt.Sprintf("round %d, pair %d, bit %d of the mixed words", l, i, j), form: &f})
				}
			}
		}
		for w := 0; w < 7; w++ {
			x := b.bits(ws[k+w].(*Term))
			if x == nil {
				return nil, "combined work bits"
			}
			for j := range x {
				f := x[j]
				if len(f.a) > 0 || f.k {
					out = append(out, need{kind: "remaining bits are zero", what: fmt.Sprintf("bit %d of the combined work bits", 64*w+j), form: &f})
				}
			}
		}
		return out, ""
	}
	p.treeCheck(rep, r, spec)
}
