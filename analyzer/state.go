package main

import (
	"golang.org/x/tools/go/ssa"
)

// upRegs keeps the registers of suspended callers (roots for reachability).
type upRegs struct {
	regs []Val
	up   *upRegs
}

type deferred struct {
	fn   Val
	args []Val
	inst *ssa.Defer
}

// State is one abstract state.
type State struct {
	regs   []Val
	mem    *PMap[*Obj]
	ref    *PMap[Iv]      // refined ranges, by term
	rel    *PMap[[]*Term] // linear shapes with a refined range, by atom
	ts     *PMap[int8]    // typestates of modelled objects
	defers []deferred
	up     *upRegs
	pc     *Dep
	g      *gcell       // condition of the state (nil: true), with in.gt
	pend   *PMap[int32] // mapped memory read since its owner was last known reachable
}

func (s *State) clone() *State {
	n := *s
	n.regs = append([]Val(nil), s.regs...)
	return &n
}

func (s *State) obj(id int) *Obj {
	o, _ := s.mem.Get(uint64(id))
	return o
}
func (s *State) setObj(o *Obj) { s.mem = s.mem.Set(uint64(o.id), o) }
func (s *State) getTS(id int) int8 {
	v, _ := s.ts.Get(uint64(id))
	return v
}
func (s *State) setTS(id int, v int8) { s.ts = s.ts.Set(uint64(id), v) }

/* ranges */

func shapeOf(T *Terms, l *Term) (shape *Term, k N, sign int) {
	// l = sign*shape + k with shape having no constant and positive leading coefficient
	if l.op != OLin {
		return l, n0, 1
	}
	co := l.co
	sg := 1
	if co[0].sign() < 0 {
		sg = -1
		nc := make([]N, len(co))
		for i := range co {
			nc[i] = co[i].neg()
		}
		co = nc
	}
	if l.k.sign() == 0 && sg == 1 {
		return l, n0, 1
	}
	return T.rawLin(l.args, co, n0), l.k, sg
}

func ivNeg(v Iv) Iv      { return Iv{v.hi.neg(), v.lo.neg()} }
func ivK(v Iv, k N) Iv   { return Iv{v.lo.add(k), v.hi.add(k)} }
func ivNonNeg(v Iv) bool { return v.lo.sign() >= 0 }

func (T *Terms) rng(s *State, t *Term) Iv { return T.rngD(s, t, 6) }

func (T *Terms) rngD(s *State, t *Term, d int) Iv {
	if t.op == OConst {
		return t.iv
	}
	iv := t.iv
	if r, ok := s.ref.Get(uint64(t.id)); ok {
		iv = iv.meet(r)
	}
	if d == 0 || iv.isConst() || T.quick && t.dpt > maxDpt {
		return iv
	}
	switch t.op {
	case OLin:
		sum := Iv{t.k, t.k}
		for i, a := range t.args {
			sum = sum.add(T.rngD(s, a, d-1).scale(t.co[i]))
		}
		iv = iv.meet(sum)
		if len(t.args) > 1 && len(t.args) <= 10 {
			iv = iv.meet(T.bitIv(t))
		}
		if len(t.args) > 1 {
			sh, k, sg := shapeOf(T, t)
			if sh != t {
				if r, ok := s.ref.Get(uint64(sh.id)); ok {
					if sg < 0 {
						r = ivNeg(r)
					}
					iv = iv.meet(ivK(r, k))
				}
			}
		}
	case OMul:
		iv = iv.meet(T.rngD(s, t.args[0], d-1).mul(T.rngD(s, t.args[1], d-1)))
	case ODiv:
		x, y := T.rngD(s, t.args[0], d-1), T.rngD(s, t.args[1], d-1)
		if y.lo.sign() > 0 {
			if x.lo.sign() >= 0 {
				iv = iv.meet(Iv{x.lo.floorDiv(y.hi), x.hi.floorDiv(y.lo)})
			} else if y.isConst() {
				iv = iv.meet(Iv{x.lo.floorDiv(y.lo), x.hi.floorDiv(y.lo)})
			}
		}
	case OMod:
		x, y := T.rngD(s, t.args[0], d-1), T.rngD(s, t.args[1], d-1)
		if y.lo.sign() > 0 {
			iv = iv.meet(Iv{n0, y.hi.sub(n1)})
			if x.lo.sign() >= 0 {
				iv = iv.meet(Iv{n0, x.hi})
				if x.hi.lt(y.lo) {
					iv = iv.meet(x)
				}
			}
		}
	case OTrunc:
		x := T.rngD(s, t.args[0], d-1)
		if x.lo.sign() >= 0 && x.hi.lt(pow2(t.w)) {
			iv = iv.meet(x)
		}
	case OSext:
		x := T.rngD(s, t.args[0], d-1)
		if x.hi.lt(pow2(t.w - 1)) {
			iv = iv.meet(x)
		} else if !x.lo.lt(pow2(t.w - 1)) {
			iv = iv.meet(ivK(x, pow2(t.w).neg()))
		}
	case OWire:
		if len(t.segs) <= 8 {
			lo, hi := n0, n0
			off := 0
			for _, g := range t.segs {
				if g.src == nil {
					v := nu(g.val).mul(pow2(off))
					lo, hi = lo.add(v), hi.add(v)
				} else {
					m := pow2(g.w).sub(n1)
					r := T.rngD(s, g.src, d-1)
					if ivNonNeg(r) && r.hi.finite() {
						h := r.hi.floorDiv(pow2(g.from))
						if h.le(m) {
							m = h
							lo = lo.add(r.lo.floorDiv(pow2(g.from)).mul(pow2(off)))
						}
					}
					hi = hi.add(m.mul(pow2(off)))
				}
				off += g.w
			}
			iv = iv.meet(Iv{lo, hi})
		}
	case OAnd:
		hi := nInf
		for _, a := range t.args {
			r := T.rngD(s, a, d-1)
			if ivNonNeg(r) {
				hi = nmin(hi, r.hi)
			}
		}
		if hi.finite() {
			iv = iv.meet(Iv{n0, hi})
		}
	case OOr, OXor:
		if len(t.args) <= 4 {
			w := t.k.bitLen()
			ok := t.k.sign() >= 0
			lo := n0
			for _, a := range t.args {
				r := T.rngD(s, a, d-1)
				if !ivNonNeg(r) || r.hi.isInf() {
					ok = false
					break
				}
				lo = nmax(lo, r.lo)
				if b := r.hi.bitLen(); b > w {
					w = b
				}
			}
			if ok && w < 120 {
				if t.op == OXor {
					lo = n0
				}
				iv = iv.meet(Iv{lo, pow2(w).sub(n1)})
			}
		}
	case OIte:
		if v, ok := T.decideD(s, t.args[0], d-1); ok {
			if v {
				iv = iv.meet(T.rngD(s, t.args[1], d-1))
			} else {
				iv = iv.meet(T.rngD(s, t.args[2], d-1))
			}
		} else {
			iv = iv.meet(T.rngD(s, t.args[1], d-1).hull(T.rngD(s, t.args[2], d-1)))
		}
	case OGE0, OEQ0, ONot:
		if v, ok := T.decideD(s, t, d-1); ok {
			if v {
				iv = Iv{n1, n1}
			} else {
				iv = Iv{n0, n0}
			}
		}
	}
	return iv
}

// sv replaces a term by a constant when its range is a single value.
func (T *Terms) sv(s *State, t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if r := T.rngD(s, t, 3); r.isConst() {
		return T.Const(r.lo)
	}
	return t
}

/* proofs */

func linParts(t *Term) (args []*Term, co []N, k N) {
	switch t.op {
	case OLin:
		return t.args, t.co, t.k
	case OConst:
		return nil, nil, t.k
	}
	return []*Term{t}, []N{n1}, n0
}

// proveGE0 tries to show l >= 0 in s.
func (T *Terms) proveGE0(s *State, l *Term) bool { return T.prove(s, l, 5, map[*Term]bool{}) }

// proveD is proveGE0 with an effort that depends on d.
func (T *Terms) proveD(s *State, d int, l *Term) bool {
	if d >= 5 {
		return T.prove(s, l, 5, map[*Term]bool{})
	}
	return T.prove(s, l, d-1, map[*Term]bool{})
}

func (T *Terms) prove(s *State, l *Term, d int, seen map[*Term]bool) bool {
	if T.rngD(s, l, 4).lo.sign() >= 0 {
		return true
	}
	if d == 0 || seen[l] || l.op == OConst || len(seen) > T.budget || T.quick && l.dpt > maxDpt {
		return false
	}
	seen[l] = true
	args, co, k := linParts(l)
	if len(args) > 8 {
		return false
	}
	// subtracting a known-non-negative term e from l
	try := func(e *Term) bool {
		r := T.Sub(l, e)
		return T.prove(s, r, d-1, seen)
	}
	for i, a := range args {
		c := co[i]
		if c.sign() < 0 {
			// need an upper bound of a: find e = (|c|*B - |c|*a) >= 0
			m := c.neg()
			up := func(b *Term) bool { return try(T.Scale(T.Sub(b, a), m)) }
			switch a.op {
			case OMod:
				y := T.rngD(s, a.args[1], 3)
				if y.lo.sign() > 0 {
					if a.args[1].op != OConst && up(T.AddK(a.args[1], nm1)) {
						return true
					}
					if T.rngD(s, a.args[0], 3).lo.sign() >= 0 && up(a.args[0]) {
						return true
					}
				}
			case ODiv:
				x, y := a.args[0], a.args[1]
				if y.op == OConst {
					// c0*a <= x
					if m.mod(y.k).sign() == 0 {
						q := m.floorDiv(y.k)
						if try(T.Scale(T.Sub(x, T.Scale(a, y.k)), q)) {
							return true
						}
					}
				}
				if T.rngD(s, x, 3).lo.sign() >= 0 && T.rngD(s, y, 3).lo.sign() > 0 && up(x) {
					return true
				}
			case OWire:
				if len(a.segs) == 1 && a.segs[0].src != nil && T.rngD(s, a.segs[0].src, 3).lo.sign() >= 0 {
					f := a.segs[0].from
					if f == 0 {
						if up(a.segs[0].src) {
							return true
						}
					} else if m.mod(pow2(f)).sign() == 0 {
						q := m.floorDiv(pow2(f))
						if try(T.Scale(T.Sub(a.segs[0].src, T.Scale(a, pow2(f))), q)) {
							return true
						}
					} else if up(a.segs[0].src) {
						return true
					}
				} else if len(a.segs) == 2 && a.segs[0].src == nil && a.segs[0].val == 0 && a.segs[1].src != nil {
					// 2^z * (src >> from) <= 2^(z-from) * src
					g := a.segs[1]
					z := a.segs[0].w
					if T.rngD(s, g.src, 3).lo.sign() >= 0 && z >= g.from && up(T.Scale(g.src, pow2(z-g.from))) {
						return true
					}
				}
			case OTrunc:
				if T.rngD(s, a.args[0], 3).lo.sign() >= 0 && up(a.args[0]) {
					return true
				}
			case OAnd:
				for _, x := range a.args {
					if T.rngD(s, x, 3).lo.sign() >= 0 && up(x) {
						return true
					}
				}
			case OIte:
				// both arms must do: l with a replaced by either arm
				r0 := T.Add(T.Sub(l, T.Scale(a, c)), T.Scale(a.args[1], c))
				r1 := T.Add(T.Sub(l, T.Scale(a, c)), T.Scale(a.args[2], c))
				if T.prove(s, r0, d-1, seen) && T.prove(s, r1, d-1, seen) {
					return true
				}
			case OMul:
				x, y := a.args[0], a.args[1]
				rx, ry := T.rngD(s, x, 3), T.rngD(s, y, 3)
				if rx.lo.sign() >= 0 && rx.hi.finite() && ry.lo.sign() >= 0 && up(T.Scale(y, rx.hi)) {
					return true
				}
				if ry.lo.sign() >= 0 && ry.hi.finite() && rx.lo.sign() >= 0 && up(T.Scale(x, ry.hi)) {
					return true
				}
				// x <= U (a symbolic bound) gives x*y <= U*y
				for _, p := range [][2]*Term{{x, y}, {y, x}} {
					if T.rngD(s, p[1], 3).lo.sign() < 0 {
						continue
					}
					for _, u := range T.upperBounds(s, p[0]) {
						if up(T.Mul(u, p[1])) {
							return true
						}
					}
				}
			}
		} else {
			m := c
			low := func(b *Term) bool { return try(T.Scale(T.Sub(a, b), m)) }
			switch a.op {
			case ODiv:
				x, y := a.args[0], a.args[1]
				if y.op == OConst && m.mod(y.k).sign() == 0 {
					// y*a >= x-(y-1)
					q := m.floorDiv(y.k)
					if try(T.Scale(T.Sub(T.Scale(a, y.k), T.AddK(x, y.k.sub(n1).neg())), q)) {
						return true
					}
				}
			case OWire:
				if len(a.segs) == 1 && a.segs[0].src != nil {
					g := a.segs[0]
					r := T.rngD(s, g.src, 3)
					if ivNonNeg(r) && r.hi.finite() && r.hi.lt(pow2(g.from+g.w)) {
						if g.from == 0 {
							if low(g.src) {
								return true
							}
						} else if m.mod(pow2(g.from)).sign() == 0 {
							q := m.floorDiv(pow2(g.from))
							if try(T.Scale(T.Sub(T.Scale(a, pow2(g.from)), T.AddK(g.src, pow2(g.from).sub(n1).neg())), q)) {
								return true
							}
						}
					}
				}
			case OMul:
				x, y := a.args[0], a.args[1]
				rx, ry := T.rngD(s, x, 3), T.rngD(s, y, 3)
				if rx.lo.sign() > 0 && ry.lo.sign() >= 0 && low(T.Scale(y, rx.lo)) {
					return true
				}
				if ry.lo.sign() > 0 && rx.lo.sign() >= 0 && low(T.Scale(x, ry.lo)) {
					return true
				}
			case OOr:
				for _, x := range a.args {
					if T.rngD(s, a, 2).lo.sign() >= 0 && T.rngD(s, x, 3).lo.sign() >= 0 && low(x) {
						return true
					}
				}
			}
		}
		// facts mentioning a
		shapes, _ := s.rel.Get(uint64(a.id))
		n := 0
		for _, sh := range shapes {
			r, ok := s.ref.Get(uint64(sh.id))
			if !ok {
				continue
			}
			n++
			if n > 24 {
				break
			}
			sa, sc, _ := linParts(sh)
			var ca N
			for j := range sa {
				if sa[j] == a {
					ca = sc[j]
				}
			}
			if ca.sign() == 0 {
				continue
			}
			// inequalities: sh - lo >= 0, hi - sh >= 0
			if r.lo.finite() && ca.sign() == c.sign() && c.mod(ca.abs()).sign() == 0 {
				q := c.abs().floorDiv(ca.abs())
				if try(T.Scale(T.AddK(sh, r.lo.neg()), q)) {
					return true
				}
			}
			if r.hi.finite() && ca.sign() == -c.sign() && c.mod(ca.abs()).sign() == 0 {
				q := c.abs().floorDiv(ca.abs())
				if try(T.Scale(T.Sub(T.Const(r.hi), sh), q)) {
					return true
				}
			}
		}
	}
	_ = k
	return false
}

// upperBounds lists terms known to be at least t.
func (T *Terms) upperBounds(s *State, t *Term) []*Term {
	var out []*Term
	if t.op == OMod {
		out = append(out, T.AddK(t.args[1], nm1))
	}
	args, co, k := linParts(t)
	if len(args) != 1 || co[0] != n1 {
		return out
	}
	a := args[0]
	if a.op == OMod {
		out = append(out, T.AddK(T.AddK(a.args[1], nm1), k))
	}
	shapes, _ := s.rel.Get(uint64(a.id))
	for _, sh := range shapes {
		r, ok := s.ref.Get(uint64(sh.id))
		if !ok {
			continue
		}
		sa, sc, _ := linParts(sh)
		for j := range sa {
			if sa[j] != a {
				continue
			}
			if sc[j] == n1 && r.hi.finite() { // a + rest <= hi
				out = append(out, T.AddK(T.Sub(T.Const(r.hi), T.Sub(sh, a)), k))
			}
			if sc[j] == nm1 && r.lo.finite() { // rest - a >= lo
				out = append(out, T.AddK(T.AddK(T.Add(sh, a), r.lo.neg()), k))
			}
		}
		if len(out) > 6 {
			break
		}
	}
	return out
}

func (T *Terms) decide(s *State, p *Term) (bool, bool) {
	if p.op == OConst {
		return p.k.sign() != 0, true
	}
	k := undecKey{p, s.ref, s.rel}
	for i := range T.undec {
		if T.undec[i] == k {
			return false, false
		}
	}
	v, ok := T.decideD(s, p, 5)
	if !ok {
		T.undec[T.undecN%len(T.undec)] = k
		T.undecN++
	}
	return v, ok
}

// undecKey identifies a predicate that could not be decided in a state.
type undecKey struct {
	p   *Term
	ref *PMap[Iv]
	rel *PMap[[]*Term]
}

// unitDiff tells whether l is a - b + k.
func unitDiff(l *Term) (a, b *Term, k N, ok bool) {
	if l.op != OLin || len(l.args) != 2 {
		return
	}
	switch {
	case l.co[0] == n1 && l.co[1] == nm1:
		return l.args[0], l.args[1], l.k, true
	case l.co[0] == nm1 && l.co[1] == n1:
		return l.args[1], l.args[0], l.k, true
	}
	return
}

func plainAtom(a *Term) bool {
	switch a.op {
	case OLeaf, OApp:
		return true
	case OWire:
		return len(a.segs) > 1 || a.segs[0].src == nil || plainAtom(a.segs[0].src)
	}
	return false
}

// minDiff is the largest provable lower bound of a-b from difference facts.
func (T *Terms) minDiff(s *State, a, b *Term) (N, bool) {
	type nd struct {
		t *Term
		d N // a - t >= d
	}
	best := map[*Term]N{a: n0}
	q := []nd{{a, n0}}
	for i := 0; i < len(q) && i < 48; i++ {
		c := q[i]
		shapes, _ := s.rel.Get(uint64(c.t.id))
		for j, sh := range shapes {
			if j > 24 {
				break
			}
			x, y, k, ok := unitDiff(sh)
			if !ok {
				continue
			}
			r, ok := s.ref.Get(uint64(sh.id))
			if !ok {
				continue
			}
			var o *Term
			var d N
			if x == c.t && r.lo.finite() { // x - y >= lo - k
				o, d = y, r.lo.sub(k)
			} else if y == c.t && r.hi.finite() { // y - x >= k - hi
				o, d = x, k.sub(r.hi)
			} else {
				continue
			}
			d = d.add(c.d)
			if old, ok := best[o]; ok && d.le(old) {
				continue
			}
			best[o] = d
			if o != b {
				q = append(q, nd{o, d})
			}
		}
	}
	d, ok := best[b]
	return d, ok
}

// bitIv bounds a sum by its bits: bits that occur with both signs cancel.
func (T *Terms) bitIv(t *Term) Iv {
	wire, pos, neg := false, false, false
	for i, a := range t.args {
		wire = wire || a.op == OWire
		pos = pos || t.co[i].sign() > 0
		neg = neg || t.co[i].sign() < 0
		if a.iv.lo.sign() < 0 {
			return ivTop
		}
	}
	if !wire || !pos || !neg {
		return ivTop
	}
	if iv, ok := T.bitIvs[t]; ok {
		return iv
	}
	iv := T.bitIv1(t)
	if T.bitIvs == nil {
		T.bitIvs = map[*Term]Iv{}
	}
	T.bitIvs[t] = iv
	return iv
}

func (T *Terms) bitIv1(t *Term) Iv {
	type bit struct {
		src *Term
		at  int
	}
	w := map[bit]N{}
	k := t.k
	for i, a := range t.args {
		n := a.width()
		if n < 0 || n > 64 {
			return ivTop
		}
		p := 0
		for _, g := range T.padSegs(a, n) {
			for j := 0; j < g.w; j++ {
				c := t.co[i].mul(pow2(p))
				if g.src != nil {
					b := bit{g.src, g.from + j}
					x, ok := w[b]
					if !ok {
						x = n0
					}
					w[b] = x.add(c)
				} else if j < 64 && g.val>>uint(j)&1 == 1 {
					k = k.add(c)
				}
				p++
			}
		}
	}
	lo, hi := k, k
	for _, c := range w {
		if c.sign() < 0 {
			lo = lo.add(c)
		} else {
			hi = hi.add(c)
		}
	}
	return Iv{lo, hi}
}

func (T *Terms) decideD(s *State, p *Term, d int) (val, ok bool) {
	if p.op == OConst {
		return p.k.sign() != 0, true
	}
	if r, ok := s.ref.Get(uint64(p.id)); ok {
		if r.lo.sign() > 0 {
			return true, true
		}
		if r.hi.sign() <= 0 && r.lo.sign() >= 0 {
			return false, true
		}
	}
	switch p.op {
	case ONot:
		v, ok := T.decideD(s, p.args[0], d)
		return !v, ok
	case OGE0:
		l := p.args[0]
		r := T.rngD(s, l, 5)
		if r.lo.sign() >= 0 {
			return true, true
		}
		if r.hi.sign() < 0 {
			return false, true
		}
		if d <= 2 {
			return false, false
		}
		if T.proveD(s, d, l) {
			return true, true
		}
		if T.proveD(s, d, T.Sub(T.Const(nm1), l)) {
			return false, true
		}
	case OEQ0:
		l := p.args[0]
		r := T.rngD(s, l, 5)
		if !r.contains(n0) {
			return false, true
		}
		if r.isConst() {
			return true, true
		}
		if d <= 2 {
			return false, false
		}
		if T.flat {
			return false, false
		}
		if a, b, k, ok := unitDiff(l); ok && plainAtom(a) && plainAtom(b) {
			lo, okl := T.minDiff(s, a, b)
			hi, okh := T.minDiff(s, b, a)
			if okl && lo.add(k).sign() > 0 || okh && hi.sub(k).sign() > 0 {
				return false, true
			}
			if okl && okh && lo.add(k).sign() == 0 && hi.sub(k).sign() == 0 {
				return true, true
			}
			if v, ok := T.eqClosure(s, l, 3, map[*Term]bool{}); ok {
				return v, true
			}
		} else if l.op == OLin {
			old := T.budget
			T.budget = 40
			defer func() { T.budget = old }()
			a := T.proveD(s, d, l)
			b := T.proveD(s, d, T.Scale(l, nm1))
			if a && b {
				return true, true
			}
			if T.proveD(s, d, T.AddK(l, nm1)) || T.proveD(s, d, T.Sub(T.Const(nm1), l)) {
				return false, true
			}
			if v, ok := T.eqClosure(s, l, 3, map[*Term]bool{}); ok {
				return v, true
			}
		}
	case OAnd, OOr:
		if p.isPred() {
			all := true
			for _, a := range p.args {
				v, ok := T.decideD(s, a, d-1)
				if !ok {
					all = false
				} else if v == (p.op == OOr) {
					return v, true
				}
			}
			if all {
				return p.op == OAnd, true
			}
		}
	case OXor:
		if p.isPred() {
			acc := p.k.sign() != 0
			for _, a := range p.args {
				v, ok := T.decideD(s, a, d-1)
				if !ok {
					return false, false
				}
				acc = acc != v
			}
			return acc, true
		}
	case OIte:
		if v, ok := T.decideD(s, p.args[0], d-1); ok {
			if v {
				return T.decideD(s, p.args[1], d-1)
			}
			return T.decideD(s, p.args[2], d-1)
		}
		v1, ok1 := T.decideD(s, p.args[1], d-1)
		v2, ok2 := T.decideD(s, p.args[2], d-1)
		if ok1 && ok2 && v1 == v2 {
			return v1, true
		}
	default:
		if r := T.rngD(s, p, 3); r.isConst() {
			return r.lo.sign() != 0, true
		}
	}
	return false, false
}

// shiftOf recognises x>>k of a plain term x.
func (T *Terms) shiftOf(a *Term) (*Term, int) {
	if a.op == OWire && len(a.segs) == 1 && a.segs[0].src != nil && a.segs[0].from > 0 {
		g := a.segs[0]
		if w := g.src.width(); w >= 0 && w <= g.from+g.w {
			return g.src, g.from
		}
	}
	return nil, 0
}

// eqClosure looks for a known (dis)equality equivalent to l == 0 modulo the
// known equalities between atoms.
func (T *Terms) eqClosure(s *State, l *Term, d int, seen map[*Term]bool) (bool, bool) {
	if seen[l] || len(seen) > 200 {
		return false, false
	}
	seen[l] = true
	e := T.EQ0(l)
	if e.op == OConst {
		return e.isTrue(), true
	}
	if r, ok := s.ref.Get(uint64(e.id)); ok && r.isConst() {
		return r.lo.sign() != 0, true
	}
	if e.op == ONot {
		if r, ok := s.ref.Get(uint64(e.args[0].id)); ok && r.isConst() {
			return r.lo.sign() == 0, true
		}
	}
	if d == 0 {
		return false, false
	}
	args, co, _ := linParts(l)
	if len(args) > 4 {
		return false, false
	}
	// congruence: equal arguments give equal results
	for i, a := range args {
		for k := i + 1; k < len(args) && a.op == OApp; k++ {
			b := args[k]
			if b.op != OApp || b.name != a.name || len(a.args) != len(b.args) || len(a.args) == 0 || co[i].add(co[k]).sign() != 0 {
				continue
			}
			same := true
			for m := range a.args {
				if a.args[m] == b.args[m] {
					continue
				}
				v, ok := T.eqClosure(s, T.Sub(a.args[m], b.args[m]), d-1, map[*Term]bool{})
				if !ok || !v {
					same = false
					break
				}
			}
			if same {
				if v, ok := T.eqClosure(s, T.Sub(l, T.Scale(T.Sub(a, b), co[i])), d-1, seen); ok {
					return v, true
				}
			}
		}
	}
	// quotients by powers of two of terms with a known value
	for i, a := range args {
		x, sh := T.shiftOf(a)
		if x == nil {
			continue
		}
		shapes, _ := s.rel.Get(uint64(x.id))
		for _, shp := range shapes {
			r, ok := s.ref.Get(uint64(shp.id))
			if !ok || !r.isConst() {
				continue
			}
			sa, sc, _ := linParts(shp)
			for j := range sa {
				if sa[j] != x || sc[j].abs() != n1 {
					continue
				}
				// x = q with x = sc*(lo - rest)
				q := T.Sub(x, T.Scale(T.AddK(shp, r.lo.neg()), sc[j]))
				qa, qc, qk := linParts(q)
				div := true
				p2 := pow2(sh)
				res := T.zero
				for m := range qa {
					div = div && qc[m].mod(p2).sign() == 0 && qa[m] != x
					if div {
						res = T.Add(res, T.Scale(qa[m], qc[m].quo(p2)))
					}
				}
				if !div {
					continue
				}
				res = T.AddK(res, qk.floorDiv(p2))
				if v, ok := T.eqClosure(s, T.Add(l, T.Scale(T.Sub(res, a), co[i])), d-1, seen); ok {
					return v, true
				}
			}
		}
	}
	for i, a := range args {
		shapes, _ := s.rel.Get(uint64(a.id))
		for _, sh := range shapes {
			r, ok := s.ref.Get(uint64(sh.id))
			if !ok || !r.isConst() {
				continue
			}
			sa, sc, _ := linParts(sh)
			for j := range sa {
				if sa[j] == a && co[i].mod(sc[j].abs()).sign() == 0 {
					q := co[i].quo(sc[j])
					n := T.Sub(l, T.Scale(T.AddK(sh, r.lo.neg()), q))
					if v, ok := T.eqClosure(s, n, d-1, seen); ok {
						return v, true
					}
				}
			}
		}
	}
	return false, false
}

/* assumptions */

func (T *Terms) setRef(s *State, t *Term, iv Iv) bool {
	old, ok := s.ref.Get(uint64(t.id))
	if ok {
		iv = iv.meet(old)
		if iv == old {
			return true
		}
	}
	iv = iv.meet(t.iv)
	if iv.empty() {
		return false
	}
	if iv == t.iv {
		return true
	}
	s.ref = s.ref.Set(uint64(t.id), iv)
	return true
}

func (T *Terms) addRel(s *State, sh *Term) {
	for _, a := range sh.args {
		l, _ := s.rel.Get(uint64(a.id))
		if T.flat && len(l) >= 8 {
			continue
		}
		found := false
		for _, x := range l {
			if x == sh {
				found = true
				break
			}
		}
		if !found {
			s.rel = s.rel.Set(uint64(a.id), append(l[:len(l):len(l)], sh))
		}
	}
}

// refine records t in iv.
func (T *Terms) refine(s *State, t *Term, iv Iv, d int) bool {
	if t.op == OConst {
		return iv.contains(t.k)
	}
	cur := T.rngD(s, t, 3)
	iv = iv.meet(cur)
	if iv.empty() {
		return false
	}
	if iv == cur {
		if cur != t.iv && t.op == OLin && len(t.args) > 1 { // keep it explicit
		}
		return true
	}
	if t.op == OLin {
		if len(t.args) == 1 {
			c := t.co[0]
			x := ivK(iv, t.k.neg())
			var r Iv
			if c.sign() > 0 {
				r = Iv{x.lo.ceilDiv(c), x.hi.floorDiv(c)}
			} else {
				r = Iv{x.hi.ceilDiv(c), x.lo.floorDiv(c)}
			}
			return T.refine(s, t.args[0], r, d)
		}
		sh, k, sg := shapeOf(T, t)
		b := ivK(iv, k.neg())
		if sg < 0 {
			b = ivNeg(b)
		}
		if !T.setRef(s, sh, b) {
			return false
		}
		T.addRel(s, sh)
		if d > 0 && len(t.args) <= 12 {
			// bounds of the atoms
			rs := make([]Iv, len(sh.args))
			for i, a := range sh.args {
				rs[i] = T.rngD(s, a, 3).scale(sh.co[i])
			}
			for i, a := range sh.args {
				rest := Iv{n0, n0}
				for j := range rs {
					if j != i {
						rest = rest.add(rs[j])
					}
				}
				// co*a = sh - rest
				x := Iv{b.lo.sub(rest.hi), b.hi.sub(rest.lo)}
				c := sh.co[i]
				var r Iv
				if c.sign() > 0 {
					r = Iv{x.lo.ceilDiv(c), x.hi.floorDiv(c)}
				} else {
					r = Iv{x.hi.ceilDiv(c), x.lo.floorDiv(c)}
				}
				if r.lo.isInf() {
					r.lo = nNegInf
				}
				if r.hi.isInf() {
					r.hi = nInf
				}
				if !T.refine(s, a, r, d-1) {
					return false
				}
			}
		}
		return true
	}
	if !T.setRef(s, t, iv) {
		return false
	}
	if d == 0 {
		return true
	}
	switch t.op {
	case OTrunc:
		x := T.rngD(s, t.args[0], 3)
		if x.lo.sign() >= 0 && x.hi.lt(pow2(t.w)) {
			return T.refine(s, t.args[0], iv, d-1)
		}
	case OSext:
		x := T.rngD(s, t.args[0], 3)
		if iv.lo.sign() >= 0 {
			return T.refine(s, t.args[0], iv, d-1)
		}
		_ = x
	case ODiv:
		if y := t.args[1]; y.op == OConst {
			return T.refine(s, t.args[0], Iv{iv.lo.mul(y.k), iv.hi.mul(y.k).add(y.k.sub(n1))}, d-1)
		}
	case OMod:
		x, y := T.rngD(s, t.args[0], 3), T.rngD(s, t.args[1], 3)
		if x.lo.sign() >= 0 && x.hi.lt(y.lo) {
			return T.refine(s, t.args[0], iv, d-1)
		}
	case OWire:
		if len(t.segs) == 1 {
			g := t.segs[0]
			x := T.rngD(s, g.src, 3)
			if x.lo.sign() >= 0 && x.hi.lt(pow2(g.from+g.w)) {
				return T.refine(s, g.src, Iv{iv.lo.mul(pow2(g.from)), iv.hi.mul(pow2(g.from)).add(pow2(g.from).sub(n1))}, d-1)
			}
			if g.from == 0 && iv.lo.sign() > 0 {
				return T.refine(s, g.src, Iv{iv.lo, nInf}, d-1)
			}
		}
		if iv.hi.sign() == 0 {
			for _, g := range t.segs {
				if g.src == nil {
					if g.val != 0 {
						return false
					}
					continue
				}
				if !T.assumeZero(s, T.segTerm(g), d-1) {
					return false
				}
			}
		}
	case OIte:
		a, b := T.rngD(s, t.args[1], 3), T.rngD(s, t.args[2], 3)
		if a.meet(iv).empty() {
			return T.assumeD(s, t.args[0], false, d-1)
		}
		if b.meet(iv).empty() {
			return T.assumeD(s, t.args[0], true, d-1)
		}
	case OGE0, OEQ0, ONot:
		if iv.isConst() {
			return T.assumeD(s, t, iv.lo.sign() != 0, d)
		}
	case OAnd, OOr, OXor:
		if t.isPred() && iv.isConst() {
			return T.assumeD(s, t, iv.lo.sign() != 0, d)
		}
	}
	return true
}

// assumeZero records t == 0.
func (T *Terms) assumeZero(s *State, t *Term, d int) bool {
	return T.assumeD(s, T.EQ0(t), true, d)
}

func (T *Terms) assume(s *State, p *Term, v bool) bool { return T.assumeD(s, p, v, 4) }

func bIv(v bool) Iv {
	if v {
		return Iv{n1, n1}
	}
	return Iv{n0, n0}
}

func (T *Terms) assumeD(s *State, p *Term, v bool, d int) bool {
	if p.op == OConst {
		return (p.k.sign() != 0) == v
	}
	if p.op == ONot {
		return T.assumeD(s, p.args[0], !v, d)
	}
	if known, ok := T.decideD(s, p, 2); ok {
		if known != v {
			return false
		}
		if _, ok := s.ref.Get(uint64(p.id)); ok {
			return true
		}
	}
	if !T.setRef(s, p, bIv(v)) {
		return false
	}
	if d <= 0 {
		return true
	}
	switch p.op {
	case OGE0:
		l := p.args[0]
		iv := Iv{n0, nInf}
		if !v {
			iv = Iv{nNegInf, nm1}
		}
		if !T.refine(s, l, iv, d-1) {
			return false
		}
		if l.op == OLin {
			T.neShrink(s, l, d)
		}
		return true
	case OEQ0:
		l := p.args[0]
		if v {
			if !T.refine(s, l, Iv{n0, n0}, d-1) {
				return false
			}
			switch l.op {
			case OOr:
				if l.iv.lo.sign() >= 0 {
					for _, a := range l.args {
						if a.iv.lo.sign() < 0 {
							continue
						}
						if !T.assumeZero(s, a, d-1) {
							return false
						}
					}
				}
			case OXor:
				if len(l.args) == 1 {
					return T.refine(s, l.args[0], Iv{l.k, l.k}, d-1)
				}
				if len(l.args) == 2 && l.k.sign() == 0 && l.width() <= 120 {
					return T.refine(s, T.Sub(l.args[0], l.args[1]), Iv{n0, n0}, d-1)
				}
			}
			return true
		}
		// l != 0
		r := T.rngD(s, l, 4)
		if r.isConst() && r.lo.sign() == 0 {
			return false
		}
		if r.lo.sign() == 0 {
			return T.refine(s, l, Iv{n1, nInf}, d-1)
		}
		if r.hi.sign() == 0 {
			return T.refine(s, l, Iv{nNegInf, nm1}, d-1)
		}
		if l.op == OLin && len(l.args) > 1 {
			sh, _, _ := shapeOf(T, l)
			T.addRel(s, sh)
		}
		return true
	case OAnd:
		if p.isPred() && v {
			for _, a := range p.args {
				if !T.assumeD(s, a, true, d-1) {
					return false
				}
			}
		}
	case OOr:
		if p.isPred() && !v {
			for _, a := range p.args {
				if !T.assumeD(s, a, false, d-1) {
					return false
				}
			}
		}
	case OIte:
		if a, ok := T.decideD(s, p.args[1], 2); ok && a != v {
			return T.assumeD(s, p.args[0], false, d-1) && T.assumeD(s, p.args[2], v, d-1)
		}
		if b, ok := T.decideD(s, p.args[2], 2); ok && b != v {
			return T.assumeD(s, p.args[0], true, d-1) && T.assumeD(s, p.args[1], v, d-1)
		}
	case OXor:
		if p.isPred() && len(p.args) == 1 {
			return T.assumeD(s, p.args[0], v != (p.k.sign() != 0), d-1)
		}
	}
	return true
}

// neShrink applies a known disequality to a freshly bounded linear term.
func (T *Terms) neShrink(s *State, l *Term, d int) {
	sh, _, _ := shapeOf(T, l)
	r, ok := s.ref.Get(uint64(sh.id))
	if !ok {
		return
	}
	for _, edge := range []int{0, 1} {
		b := r.lo
		if edge == 1 {
			b = r.hi
		}
		if b.isInf() {
			continue
		}
		e := T.EQ0(T.AddK(sh, b.neg()))
		if v, ok := s.ref.Get(uint64(e.id)); ok && v.hi.sign() == 0 {
			if edge == 0 {
				T.refine(s, sh, Iv{b.add(n1), nInf}, d-1)
			} else {
				T.refine(s, sh, Iv{nNegInf, b.sub(n1)}, d-1)
			}
		}
	}
}
