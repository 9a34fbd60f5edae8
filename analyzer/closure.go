package main

// closure visits every subterm of the given terms once.
func closure(roots []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	stack := append([]*Term(nil), roots...)
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		f(t)
		stack = append(stack, t.args...)
		for _, g := range t.segs {
			if g.src != nil {
				stack = append(stack, g.src)
			}
		}
	}
}

// digestTerms gives the terms of a returned byte slice of constant length.
func (in *Interp) digestTerms(st *State, v Val) []*Term {
	s, ok := v.(*SliceV)
	if !ok {
		return nil
	}
	vs, ok := in.sliceElems(st, s, byteT, 4096)
	if !ok {
		return nil
	}
	var out []*Term
	for _, x := range vs {
		if t, ok := x.(*Term); ok {
			out = append(out, t)
		}
	}
	return out
}
