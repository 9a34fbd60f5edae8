package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
	id     int
	trip   int // statically evident iteration count (0: unknown)
	nest   int // product with the loops inside, calls included
	kids   []*Loop
}

// FnInfo holds the control structure and register numbering of a function.
type FnInfo struct {
	fn        *ssa.Function
	reg       map[ssa.Value]int
	regTypes  []types.Type
	rpo       []*ssa.BasicBlock
	loops     map[*ssa.BasicBlock]*Loop // by header
	inner     map[*ssa.BasicBlock]*Loop // innermost loop of a block
	live      []map[int]bool            // registers live at block entry (phis of the block included)
	reducible bool
	tailrec   bool
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, reducible: true}
	add := func(v ssa.Value) {
		fi.reg[v] = len(fi.regTypes)
		fi.regTypes = append(fi.regTypes, v.Type())
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	onst := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var back [][2]*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onst[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			} else if onst[s] {
				back = append(back, [2]*ssa.BasicBlock{b, s})
			}
		}
		onst[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, e := range back {
		t, h := e[0], e[1]
		if !h.Dominates(t) {
			fi.reducible = false
			continue
		}
		l := fi.loops[h]
		if l == nil {
			l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, id: h.Index}
			fi.loops[h] = l
		}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if l.blocks[b] || !seen[b] {
				return
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				walk(p)
			}
		}
		walk(t)
	}
	for _, b := range fi.rpo {
		var best *Loop
		for _, l := range fi.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		if best != nil {
			fi.inner[b] = best
		}
	}
	for _, l := range fi.loops {
		var best *Loop
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) && (best == nil || len(m.blocks) < len(best.blocks)) {
				best = m
			}
		}
		l.parent = best
		if best != nil {
			best.kids = append(best.kids, l)
		}
		l.trip = staticTrip(l)
	}
	fi.liveness()
	return fi
}

func (fi *FnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.live = make([]map[int]bool, n)
	for i := range fi.live {
		fi.live[i] = map[int]bool{}
	}
	var ops [8]*ssa.Value
	changed := true
	for changed {
		changed = false
		for k := len(fi.rpo) - 1; k >= 0; k-- {
			b := fi.rpo[k]
			live := map[int]bool{}
			for si, s := range b.Succs {
				_ = si
				for r := range fi.live[s.Index] {
					live[r] = true
				}
				// phi definitions are made on the edge; their operands are used there
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, fi.reg[phi])
				}
			}
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if r, ok := fi.reg[phi.Edges[pi]]; ok {
								live[r] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phi registers stay live at entry if used
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, fi.reg[v])
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						if r, ok := fi.reg[*o]; ok {
							live[r] = true
						}
					}
				}
			}
			if len(live) != len(fi.live[b.Index]) {
				fi.live[b.Index] = live
				changed = true
			}
		}
	}
}

// prune clears registers that are dead at the entry of b.
func (fi *FnInfo) prune(s *State, b *ssa.BasicBlock) {
	l := fi.live[b.Index]
	for i := range s.regs {
		if s.regs[i] != nil && !l[i] {
			s.regs[i] = nil
		}
	}
}

// staticTrip is the iteration count of a loop counting by a constant from a
// constant to a constant, 0 if that is not evident.
func staticTrip(l *Loop) int {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	bound, ok := constInt(cmp.Y)
	if !ok {
		return 0
	}
	v := cmp.X
	phi, ok := v.(*ssa.Phi)
	if !ok {
		add, ok := v.(*ssa.BinOp)
		if !ok || add.Op != token.ADD && add.Op != token.SUB {
			return 0
		}
		phi, ok = add.X.(*ssa.Phi)
		if !ok {
			return 0
		}
	}
	if phi.Block() != l.header {
		return 0
	}
	var init, step int64
	hi, hs := false, false
	for i, p := range l.header.Preds {
		e := phi.Edges[i]
		if l.blocks[p] {
			add, ok := e.(*ssa.BinOp)
			if !ok || add.X != ssa.Value(phi) {
				return 0
			}
			k, ok := constInt(add.Y)
			if !ok || k == 0 {
				return 0
			}
			if add.Op == token.SUB {
				k = -k
			} else if add.Op != token.ADD {
				return 0
			}
			step, hs = k, true
		} else {
			k, ok := constInt(e)
			if !ok {
				return 0
			}
			init, hi = k, true
		}
	}
	if !hi || !hs {
		return 0
	}
	n := (bound - init) / step
	if n <= 0 || n > 1<<30 {
		return 0
	}
	return int(n)
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func mulSat(a, b int) int {
	if a > 0 && b > (1<<30)/a {
		return 1 << 30
	}
	return a * b
}

// loopCost is the statically evident number of innermost iterations.
func (in *Interp) loopCost(fi *FnInfo, l *Loop) int {
	if l.nest != 0 {
		return l.nest
	}
	l.nest = 1
	body := 0
	for _, k := range l.kids {
		if c := in.loopCost(fi, k); c > body {
			body = c
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					if x := in.fnCost(g); x > body {
						body = x
					}
				}
			}
		}
	}
	l.nest = mulSat(max(1, l.trip), max(1, body))
	return l.nest
}

func (in *Interp) fnCost(fn *ssa.Function) int {
	if c, ok := in.fnCosts[fn]; ok {
		return c
	}
	in.fnCosts[fn] = 1
	if fn.Pkg == nil || !in.inRepo(fn.Pkg.Pkg.Path()) || len(fn.Blocks) == 0 || in.hooks[fn.String()] != nil {
		return 1
	}
	fi := in.info(fn)
	c := 1
	for _, l := range fi.loops {
		c = max(c, in.loopCost(fi, l))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					c = max(c, in.fnCost(g))
				}
			}
		}
	}
	in.fnCosts[fn] = c
	return c
}
