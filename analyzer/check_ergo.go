package main

import (
	"fmt"
	"strings"
)

func init() { checks["C22"] = checkC22 }

// ergoN is the growth schedule, written down independently of the code.
func ergoN(height int64) int64 {
	const start, period, last, final = 614400, 51200, 4198400, 2143944600
	if height > last {
		return final
	}
	n := int64(1) << 26
	for h := int64(start); h <= height; h += period {
		n = n / 100 * 105
	}
	return n
}

// hashInputs lists the contents of all hash applications below the terms.
func hashInputs(ts []*Term, prefix string) map[*Term]int {
	out := map[*Term]int{}
	closure(ts, func(t *Term) {
		if t.op == OApp && strings.HasPrefix(t.name, prefix) && len(t.args) > 0 {
			c := t.args[0]
			if c.op == OApp && c.name == "bytes" && len(c.args) == 2 {
				if n, ok := c.args[0].constVal(); ok {
					out[c] = int(n.i64())
				}
			} else {
				out[c] = -1
			}
		}
	})
	return out
}

// beWord reads n bytes of a content term as a big-endian number.
func (T *Terms) beWord(content *Term, off, n int) *Term {
	var segs []Seg
	for i := n - 1; i >= 0; i-- {
		segs = append(segs, T.padSegs(T.Ext(content.args[1], 8*(off+i), 8), 8)...)
	}
	return T.Wire(segs)
}

func checkC22(p *Program, rep *Report) {
	rep.Rule = "All 2^64 heights are split at the 71 steps of the schedule. For each piece the abstract interpreter evaluates NewErgo().Compute symbolically (constant propagation through the growth loop, whose trip count is decided from the interval alone) and the check reads off, from every table lookup hash(index || height || M) in the symbolic digest, the modulus its index was reduced by; it must be the table size of an independently written schedule."
	rep.Assume = commonAssumptions
	e := entry{"autolykos2", "NewErgo", "Compute"}
	ivs := ergoIntervals()
	parallel(len(ivs), func(i int) {
		iv := ivs[i]
		r := p.run(e, clientCfg(e, RunCfg{blob: 16384, unroll: 1100, unrollP: 9000, unrollS: 5000000, rng: map[string]Iv{"#1": iv}, fixed: map[string]int64{"#0": 32}}))
		r.cover(rep)
		in, T := r.in, r.in.T
		want := int64(2143944600)
		if iv.lo.le(ni(4198400)) {
			want = ergoN(iv.lo.i64())
		}
		what := fmt.Sprintf("heights %s..%s", iv.lo, iv.hi)
		rep.list("height intervals", what)
		if r.abort != "" {
			return
		}
		for _, o := range r.outs {
			good := in.condNil(o.st, o.res[1], true)
			if good == nil {
				continue
			}
			ts := in.digestTerms(good, o.res[0])
			fn := fnName(r.fn)
			pos := in.posStr(r.fn.Pos())
			if calc := p.pkg("autolykos2").Func("calcN"); calc != nil {
				fn, pos = fnName(calc), in.posStr(calc.Pos())
			}
			n := 0
			for c, size := range hashInputs(ts, "blake2b-32") {
				if size != 8200 {
					continue
				}
				n++
				idx := T.beWord(c, 0, 4)
				got := n0
				if idx.op == OMod {
					got, _ = idx.args[1].constVal()
				} else if idx.op == OWire && idx.iv.lo.sign() == 0 && idx.iv.hi.finite() {
					got = idx.iv.hi.add(n1)
				}
				if rep.check("index reduced modulo the table size", got == ni(want), Finding{Key: "size " + what, Where: pos, Func: fn, What: fmt.Sprintf("%s: an index is reduced modulo %s, the schedule says %d (%s)", what, got, want, idx.str(1)), Trace: []string{"entry " + e.String()}}) {
					rep.count("indexes", 1)
				}
			}
			rep.check("33 lookups", n == 33, Finding{Key: "lookups", Where: in.posStr(r.fn.Pos()), Func: fn, What: fmt.Sprintf("%s: the digest contains %d table lookups, not 33", what, n)})
			if want%1000 == 0 || iv.lo.sign() == 0 {
				rep.sample("%s: N = %d", what, want)
			}
		}
	})
}
