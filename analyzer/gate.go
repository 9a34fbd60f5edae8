package main

// Guards: with in.gated set every state carries the condition under which it
// is reached, as a reduced ordered decision diagram over branch conditions,
// and a merge of two states selects between their values by that condition
// (gated value numbering) instead of introducing an unknown.

type gnode struct {
	v      *Term
	hi, lo *gnode
	id     int
}

var (
	gOne  = &gnode{id: 1}
	gZero = &gnode{id: 2}
)

const gateLimit = 4000

type gates struct {
	tab  map[[3]int]*gnode
	memo map[[3]int]*gnode
	n    int
	lost bool
	deep int // conjuncts considered at a merge
}

func newGates() *gates {
	return &gates{tab: map[[3]int]*gnode{}, memo: map[[3]int]*gnode{}, n: 2, deep: 1 << 30}
}

func (g *gates) mk(v *Term, hi, lo *gnode) *gnode {
	if hi == lo {
		return hi
	}
	k := [3]int{v.id, hi.id, lo.id}
	if n, ok := g.tab[k]; ok {
		return n
	}
	g.n++
	n := &gnode{v, hi, lo, g.n}
	g.tab[k] = n
	return n
}

func (g *gates) lit(v *Term, pos bool) *gnode {
	for v.op == ONot {
		v, pos = v.args[0], !pos
	}
	if v.isConst() {
		if v.isTrue() == pos {
			return gOne
		}
		return gZero
	}
	if pos {
		return g.mk(v, gOne, gZero)
	}
	return g.mk(v, gZero, gOne)
}

func top(a, b *gnode) *Term {
	if a.v == nil {
		return b.v
	}
	if b.v == nil || a.v.id <= b.v.id {
		return a.v
	}
	return b.v
}

func (n *gnode) cof(v *Term) (hi, lo *gnode) {
	if n.v == v {
		return n.hi, n.lo
	}
	return n, n
}

// op: 0 and, 1 or, 2 constrain
func (g *gates) apply(op int, a, b *gnode) *gnode {
	switch op {
	case 0:
		if a == gZero || b == gZero {
			return gZero
		}
		if a == gOne {
			return b
		}
		if b == gOne || a == b {
			return a
		}
	case 1:
		if a == gOne || b == gOne {
			return gOne
		}
		if a == gZero {
			return b
		}
		if b == gZero || a == b {
			return a
		}
	case 2:
		if b == gOne || a == gOne || a == gZero {
			return a
		}
		if a == b {
			return gOne
		}
		if b == gZero {
			return gZero
		}
	}
	k := [3]int{op, a.id, b.id}
	if r, ok := g.memo[k]; ok {
		return r
	}
	v := top(a, b)
	ah, al := a.cof(v)
	bh, bl := b.cof(v)
	var r *gnode
	if op == 2 && bh == gZero {
		r = g.apply(2, al, bl)
	} else if op == 2 && bl == gZero {
		r = g.apply(2, ah, bh)
	} else {
		r = g.mk(v, g.apply(op, ah, bh), g.apply(op, al, bl))
	}
	g.memo[k] = r
	return r
}

func (g *gates) not(a *gnode) *gnode {
	switch a {
	case gOne:
		return gZero
	case gZero:
		return gOne
	}
	k := [3]int{3, a.id, 0}
	if r, ok := g.memo[k]; ok {
		return r
	}
	r := g.mk(a.v, g.not(a.hi), g.not(a.lo))
	g.memo[k] = r
	return r
}

// gcell is the condition of a state: a conjunction, newest conjunct first; nil
// is true. Merging two states keeps the conjuncts they have in common.
type gcell struct {
	up *gcell
	c  *gnode
	n  int
}

var gLost = &gcell{n: -1}

func (g *gcell) depth() int {
	if g == nil {
		return 0
	}
	return g.n
}

func (g *gcell) push(c *gnode) *gcell {
	if g == gLost || c == gOne {
		return g
	}
	return &gcell{g, c, g.depth() + 1}
}

func common(a, b *gcell) *gcell {
	for a != b {
		if a.depth() >= b.depth() {
			a = a.up
		} else {
			b = b.up
		}
	}
	return a
}

// since is the conjunction of the conjuncts added after anc; nil if too large.
func (g *gates) since(a, anc *gcell) *gnode {
	r := gOne
	if a.depth()-anc.depth() > g.deep {
		return nil
	}
	for ; a != anc; a = a.up {
		r = g.apply(0, r, a.c)
		if a.n&63 == 0 && r.size(map[*gnode]bool{}) >= gateLimit {
			return nil
		}
	}
	return r
}

// split gives the guards of the two sides of a branch.
func (in *Interp) split(st *State, cond *Term) (t, f *gcell) {
	if in.gt == nil {
		return nil, nil
	}
	return st.g.push(in.gt.lit(cond, true)), st.g.push(in.gt.lit(cond, false))
}

// rivals gives the conditions of two merged states relative to what they have in common.
func (in *Interp) rivals(a, b *gcell) (anc *gcell, x, y *gnode) {
	if a == gLost || b == gLost {
		return
	}
	anc = common(a, b)
	x, y = in.gt.since(a, anc), in.gt.since(b, anc)
	if x == nil || y == nil {
		return nil, nil, nil
	}
	return
}

// selector is the condition under which the first of two merged states was
// taken, given that one of them was; nil if it cannot be told.
func (in *Interp) selector(a, b *State) *gnode {
	if in.gt == nil {
		return nil
	}
	anc, x, y := in.rivals(a.g, b.g)
	if x == nil {
		return nil
	}
	if xy := in.gt.apply(0, x, y); xy != gZero {
		if anc.depth() > 500 {
			return nil
		}
		full := in.gt.since(anc, nil)
		if full == nil || in.gt.apply(0, xy, full) != gZero {
			return nil
		}
	}
	return in.gt.apply(2, x, in.gt.apply(1, x, y))
}

// joinGuard is the guard of the merged state.
func (in *Interp) joinGuard(a, b *State) *gcell {
	if in.gt == nil {
		return nil
	}
	anc, x, y := in.rivals(a.g, b.g)
	if x == nil {
		return gLost
	}
	r := in.gt.apply(1, x, y)
	if r.size(map[*gnode]bool{}) > gateLimit {
		return gLost
	}
	return anc.push(r)
}

func (n *gnode) size(seen map[*gnode]bool) int {
	if n.v == nil || seen[n] || len(seen) > gateLimit {
		return 0
	}
	seen[n] = true
	return 1 + n.hi.size(seen) + n.lo.size(seen)
}

// choose builds the value that is x under the condition and y otherwise.
func (T *Terms) choose(c *gnode, x, y *Term, memo map[*gnode]*Term) *Term {
	switch c {
	case gOne:
		return x
	case gZero:
		return y
	}
	if t, ok := memo[c]; ok {
		return t
	}
	t := T.Ite(c.v, T.choose(c.hi, x, y, memo), T.choose(c.lo, x, y, memo))
	memo[c] = t
	return t
}
