package main

import (
	"fmt"
	"go/types"
)

// The functions replaced by contracts elsewhere, compared with the reference
// one by one: dataset items, the cache, the level 1 cache, the seed chain and
// keccak-f[800].

type kernel struct {
	name string
	run  func(rep *Report, points int)
}

// words of a caller's slice of bytes of constant or symbolic length
func (in *Interp) wordInput(st *State, name string, rows *Term) *SliceV {
	v := in.input(st, types.NewSlice(types.Typ[types.Uint32]), name).(*SliceV)
	n := in.T.Scale(rows, ni(16))
	o := *st.obj(v.alts[0].loc.obj)
	b := *o.c.(*BlobC)
	b.size = in.T.Scale(n, ni(4))
	o.c = &b
	st.setObj(&o)
	r := *v
	r.len, r.cap = n, n
	return &r
}

// blank makes an input slice fresh zeroed memory.
func (in *Interp) blank(st *State, s *SliceV, size int64) {
	o := *st.obj(s.alts[0].loc.obj)
	o.input = false
	b := *o.c.(*BlobC)
	b.size, b.tag = in.T.Int(size), in.T.zero
	o.c = &b
	st.setObj(&o)
}

func (p *Program) kernels(tier string) []kernel {
	var ks []kernel
	quickSetup := func(in *Interp) { in.gated() }
	rows := func(in *Interp, hi int64) *Term {
		return in.T.Leaf("in:rows", Iv{n1, ni(hi)}, in.T.deps.label("in:rows"))
	}
	cmpBytes := func(rep *Report, r *Run, what string, ref string, args []Val, points int, result func(o Outcome) (*State, []*Term), want func(o Outcome) []*Term) {
		if r.abort != "" {
			return
		}
		ro, why := r.in.callRef(r.st0, ref, args...)
		if why != "" {
			rep.undecided(what + ": " + why)
			return
		}
		r.in.decide(rep, r, r.fn, cmp{what: what, got: r.outs, pick: result, want: want(ro[0]), wst: ro[0].st}, points)
	}
	first := func(in *Interp) func(o Outcome) (*State, []*Term) {
		return func(o Outcome) (*State, []*Term) { return o.st, in.digestTerms(o.st, o.res[0]) }
	}
	for _, e := range p.entries() {
		e := e
		if !isDag(e) {
			continue
		}
		ks = append(ks, kernel{e.String() + ": dataset items", func(rep *Report, points int) {
			r := p.dagRun(e, RunCfg{setup: quickSetup}, "generateDatasetItem", func(in *Interp, st *State) []Val {
				mk := p.pkg("internal/crypto").Func("NewKeccak512Hasher")
				if mk == nil {
					in.abort("no NewKeccak512Hasher")
				}
				o := in.callFn(st, nil, mk, nil, nil, nil)
				if len(o) != 1 {
					in.abort("NewKeccak512Hasher")
				}
				return []Val{in.wordInput(st, "cache", rows(in, 1<<26)), in.input(st, types.Typ[types.Uint32], "index"), o[0].res[0]}
			})
			r.cover(rep)
			if r.abort != "" {
				return
			}
			par, ok := r.in.cfgInt(r.st0, r.args[0], "DatasetParents")
			if !ok {
				rep.undecided(e.String() + ": the number of parents is not constant")
				return
			}
			want := int64(256)
			if e.pkg == "kawpow" || e.pkg == "firopow" {
				want = 512
			}
			rep.check("number of parents", par == ni(want), Finding{Key: e.String() + " parents", Func: e.String(), What: fmt.Sprintf("dataset items have %s parents instead of %d", par, want)})
			cmpBytes(rep, r, e.String()+": dataset item", "ItemN", []Val{r.args[1], r.args[2], r.in.T.Int(want)}, points, first(r.in), func(o Outcome) []*Term { return r.in.digestTerms(o.st, o.res[0]) })
		}})
		sizes := []int64{1, 2, 5}
		if tier == "thorough" {
			sizes = []int64{1, 2, 3, 4, 5, 8, 13, 20}
		}
		for _, n := range sizes {
			n := n
			ks = append(ks, kernel{fmt.Sprintf("%s: cache of %d rows", e, n), func(rep *Report, points int) {
				var ref *SliceV
				r := p.dagRun(e, RunCfg{setup: quickSetup}, "generateCache", func(in *Interp, st *State) []Val {
					ref = in.inputN(st, types.NewSlice(byteT), "ref", n*64).(*SliceV)
					ref.cap = ref.len
					in.blank(st, ref, n*64)
					d := in.wordInput(st, "dest", in.T.Int(n))
					in.blank(st, d, n*64)
					return []Val{d, in.input(st, types.Typ[types.Uint64], "epoch"), in.inputN(st, types.NewSlice(byteT), "seed", 32)}
				})
				r.cover(rep)
				if r.abort != "" {
					return
				}
				in := r.in
				cr, ok := in.cfgInt(r.st0, r.args[0], "CacheRounds")
				if !ok || cr != ni(3) {
					rep.check("number of rounds", !ok, Finding{Key: e.String() + " rounds", Func: e.String(), What: fmt.Sprintf("the cache is generated with %s rounds instead of 3", cr)})
					return
				}
				dst := *r.args[1].(*SliceV)
				cmpBytes(rep, r, fmt.Sprintf("%s: generated cache of %d rows", e, n), "Cache", []Val{ref, r.args[3], in.T.Int(3)}, points,
					func(o Outcome) (*State, []*Term) { return o.st, in.wordBytes(o.st, &dst) },
					func(o Outcome) []*Term { return in.digestTerms(o.st, ref) })
			}})
		}
		if l1, _ := p.hasL1(e); l1 {
			ks = append(ks, kernel{e.String() + ": level 1 cache", func(rep *Report, points int) {
				var ref *SliceV
				setup := func(in *Interp) {
					in.gated()
					in.refItem()
					in.hooks[p.dagName("generateDatasetItem")] = hookItem
				}
				r := p.dagRun(e, RunCfg{setup: setup}, "generateL1Cache", func(in *Interp, st *State) []Val {
					mk := func(name string) *SliceV {
						d := in.wordInput(st, name, in.T.Int(5))
						in.blank(st, d, 5*64)
						return d
					}
					ref = mk("ref")
					return []Val{mk("dest"), in.wordInput(st, "cache", rows(in, 1<<26))}
				})
				r.cover(rep)
				if r.abort != "" {
					return
				}
				in := r.in
				dst := *r.args[1].(*SliceV)
				cmpBytes(rep, r, e.String()+": generated level 1 cache", "L1", []Val{ref, r.args[2]}, points,
					func(o Outcome) (*State, []*Term) { return o.st, in.wordBytes(o.st, &dst) },
					func(o Outcome) []*Term { return in.wordBytes(o.st, ref) })
			}})
		}
		ks = append(ks, p.seedKernels(e, tier)...)
	}
	u32 := types.Typ[types.Uint32]
	scalar := func(name, ref string, classes int64, class int64) {
		title := name
		if class >= 0 {
			title = fmt.Sprintf("%s, selector %% %d = %d", name, classes, class)
		}
		ks = append(ks, kernel{"progpow " + title, func(rep *Report, points int) {
			f := p.pkg("internal/progpow").Func(name)
			if f == nil || f.Signature.Params().Len() != 3 {
				rep.undecided("progpow." + name + "(a, b, selector) not found")
				return
			}
			in := newInterp(p)
			r := &Run{p: p, in: in, fn: f, e: entry{"internal/progpow", "", name}}
			r.abort = in.guard(func() {
				st := in.runInits(in.newState(), p.pkg("internal/progpow"))
				in.gated()
				r.args = []Val{in.input(st, u32, "a"), in.input(st, u32, "b"), in.input(st, u32, "selector")}
				if class >= 0 {
					q := in.T.Leaf("in:selector/n", Iv{n0, ni((1<<32 - 1 - class) / classes)}, nil)
					r.args[2] = in.T.AddK(in.T.Scale(q, ni(classes)), ni(class))
				}
				r.st0 = st.clone()
				r.outs = in.callFn(st, nil, f, r.args, nil, nil)
			})
			r.cover(rep)
			cmpBytes(rep, r, "progpow."+title, ref, r.args, points*50,
				func(o Outcome) (*State, []*Term) { return o.st, []*Term{o.res[0].(*Term)} },
				func(o Outcome) []*Term { return []*Term{o.res[0].(*Term)} })
		}})
	}
	scalar("randomMath", "math11", 0, -1)
	for k := int64(0); k < 11; k++ {
		scalar("randomMath", "math11", 11, k)
	}
	scalar("randomMerge", "merge", 0, -1)
	ks = append(ks, kernel{"keccak-f[800]", func(rep *Report, points int) {
		f := p.pkg("internal/crypto").Func("KeccakF800")
		if !isF800(f) {
			return
		}
		in := newInterp(p)
		r := &Run{p: p, in: in, fn: f, e: entry{"internal/crypto", "", "KeccakF800"}}
		at := types.NewArray(types.Typ[types.Uint32], 25)
		var a, b *PtrV
		r.abort = in.guard(func() {
			st := in.runInits(in.newState(), p.pkg("internal/crypto"))
			in.gated()
			c := &ArrC{n: in.T.Int(25), def: in.T.zero, et: types.Typ[types.Uint32]}
			for i := 0; i < 25; i++ {
				c.elems = c.elems.Set(uint64(i), Val(in.input(st, types.Typ[types.Uint32], fmt.Sprintf("lane%d", i))))
			}
			a, b = in.alloc(st, nil, nil, "lanes", at, c), in.alloc(st, nil, nil, "reflanes", at, c)
			r.st0 = st.clone()
			r.outs = in.callFn(st, nil, f, []Val{a}, nil, nil)
		})
		r.cover(rep)
		lanes := func(st *State, p *PtrV) (out []*Term) {
			c := in.loadPtr(st, p, at).(*ArrC)
			for i := 0; i < 25; i++ {
				out = append(out, in.elem(c, i).(*Term))
			}
			return
		}
		cmpBytes(rep, r, "keccak-f[800]", "f800", []Val{b}, points,
			func(o Outcome) (*State, []*Term) { return o.st, lanes(o.st, a) },
			func(o Outcome) []*Term { return lanes(o.st, b) })
	}})
	return ks
}

// wordBytes gives the bytes of a slice of words.
func (in *Interp) wordBytes(st *State, s *SliceV) []*Term {
	b := *s
	b.alts = append([]SAlt{}, s.alts...)
	for i := range b.alts {
		if k, ok := b.alts[i].off.constVal(); !ok || k != n0 {
			return nil
		}
		b.alts[i].esz = 1
	}
	b.len, b.cap = in.T.Scale(s.len, ni(4)), in.T.Scale(s.cap, ni(4))
	return in.digestTerms(st, &b)
}

// hasL1 tells whether the configuration of an entry enables the level 1 cache.
func (p *Program) hasL1(e entry) (bool, string) {
	in := newInterp(p)
	on := false
	why := in.guard(func() {
		st, cl, _ := in.construct(e)
		d := in.dagOf(st, cl, nil)
		if d == nil {
			in.abort("no DAG")
		}
		v, ok := in.cfgInt(st, d, "L1Enabled")
		on = ok && v != n0
	})
	return on, why
}

// seedKernels compare SeedHash with the chain of keccak-256.
func (p *Program) seedKernels(e entry, tier string) []kernel {
	ns := []int64{0, 1, 2, 7}
	if tier == "thorough" {
		ns = nil
		for i := int64(0); i < 40; i++ {
			ns = append(ns, i)
		}
	}
	var ks []kernel
	for _, n := range ns {
		n := n
		ks = append(ks, kernel{fmt.Sprintf("%s: seed %d", e, n), func(rep *Report, points int) {
			r := p.dagRun(e, RunCfg{setup: func(in *Interp) { in.gated() }}, "SeedHash", func(in *Interp, st *State) []Val {
				d := in.dagV
				el, ok := in.cfgInt(st, d, "SeedEpochLength")
				if !ok || el.sign() <= 0 {
					in.abort("the seed epoch length is not constant")
				}
				k := in.T.Leaf("in:blocks", Iv{n0, el.sub(n1)}, in.T.deps.label("in:blocks"))
				return []Val{in.T.AddK(k, el.mul(ni(n)))}
			})
			r.cover(rep)
			if r.abort != "" {
				return
			}
			ro, why := r.in.callRef(r.st0, "Seed", r.in.T.Int(n))
			if why != "" {
				rep.undecided(why)
				return
			}
			want := r.in.digestTerms(ro[0].st, ro[0].res[0])
			r.in.decide(rep, r, r.fn, cmp{what: fmt.Sprintf("%s: seed after %d seed epochs", e, n), got: r.outs, want: want, wst: ro[0].st,
				pick: func(o Outcome) (*State, []*Term) { return o.st, r.in.digestTerms(o.st, o.res[0]) }}, points)
		}})
	}
	return ks
}
