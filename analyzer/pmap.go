package main

import "math/bits"

// PMap is a persistent big-endian Patricia map from uint64 keys. The zero
// pointer is the empty map. Merging exploits pointer sharing.
type PMap[V any] struct {
	key  uint64 // leaf key or prefix
	bit  uint64 // branching bit; 0 for a leaf
	l, r *PMap[V]
	val  V
	n    int
}

func (m *PMap[V]) Len() int {
	if m == nil {
		return 0
	}
	return m.n
}

func maskAbove(k, bit uint64) uint64 { return k &^ (bit<<1 - 1) } // bits above `bit`

func (m *PMap[V]) Get(k uint64) (v V, ok bool) {
	for m != nil {
		if m.bit == 0 {
			if m.key == k {
				return m.val, true
			}
			return
		}
		if maskAbove(k, m.bit) != m.key {
			return
		}
		if k&m.bit == 0 {
			m = m.l
		} else {
			m = m.r
		}
	}
	return
}

func branch[V any](key, bit uint64, l, r *PMap[V]) *PMap[V] {
	if l == nil {
		return r
	}
	if r == nil {
		return l
	}
	return &PMap[V]{key: key, bit: bit, l: l, r: r, n: l.n + r.n}
}

func joinTrees[V any](ka uint64, a *PMap[V], kb uint64, b *PMap[V]) *PMap[V] {
	bit := uint64(1) << (63 - bits.LeadingZeros64(ka^kb))
	p := maskAbove(ka, bit)
	if ka&bit == 0 {
		return branch(p, bit, a, b)
	}
	return branch(p, bit, b, a)
}

func (m *PMap[V]) Set(k uint64, v V) *PMap[V] {
	if m == nil {
		return &PMap[V]{key: k, val: v, n: 1}
	}
	if m.bit == 0 {
		nl := &PMap[V]{key: k, val: v, n: 1}
		if m.key == k {
			return nl
		}
		return joinTrees(k, nl, m.key, m)
	}
	if maskAbove(k, m.bit) != m.key {
		return joinTrees(k, &PMap[V]{key: k, val: v, n: 1}, m.key, m)
	}
	if k&m.bit == 0 {
		return branch(m.key, m.bit, m.l.Set(k, v), m.r)
	}
	return branch(m.key, m.bit, m.l, m.r.Set(k, v))
}

func (m *PMap[V]) Del(k uint64) *PMap[V] {
	if m == nil {
		return nil
	}
	if m.bit == 0 {
		if m.key == k {
			return nil
		}
		return m
	}
	if maskAbove(k, m.bit) != m.key {
		return m
	}
	if k&m.bit == 0 {
		l := m.l.Del(k)
		if l == m.l {
			return m
		}
		return branch(m.key, m.bit, l, m.r)
	}
	r := m.r.Del(k)
	if r == m.r {
		return m
	}
	return branch(m.key, m.bit, m.l, r)
}

func (m *PMap[V]) Each(f func(k uint64, v V) bool) bool {
	if m == nil {
		return true
	}
	if m.bit == 0 {
		return f(m.key, m.val)
	}
	return m.l.Each(f) && m.r.Each(f)
}

func (m *PMap[V]) Keys() []uint64 {
	out := make([]uint64, 0, m.Len())
	m.Each(func(k uint64, _ V) bool { out = append(out, k); return true })
	return out
}

// merge combines two maps. f is called for keys whose subtrees are not shared,
// with presence flags; returning keep=false drops the key. Shared subtrees are
// kept as they are.
func merge[V any](a, b *PMap[V], f func(k uint64, av V, aok bool, bv V, bok bool) (V, bool)) *PMap[V] {
	if a == b {
		return a
	}
	var zero V
	if a == nil {
		return mapTree(b, func(k uint64, v V) (V, bool) { return f(k, zero, false, v, true) })
	}
	if b == nil {
		return mapTree(a, func(k uint64, v V) (V, bool) { return f(k, v, true, zero, false) })
	}
	if a.bit == 0 && b.bit == 0 && a.key == b.key {
		v, keep := f(a.key, a.val, true, b.val, true)
		if !keep {
			return nil
		}
		return &PMap[V]{key: a.key, val: v, n: 1}
	}
	switch {
	case a.bit == b.bit && a.key == b.key && a.bit != 0:
		return branch(a.key, a.bit, merge(a.l, b.l, f), merge(a.r, b.r, f))
	case a.bit > b.bit && maskAbove(b.key, a.bit) == a.key:
		if b.key&a.bit == 0 {
			return branch(a.key, a.bit, merge(a.l, b, f), merge(a.r, nil, f))
		}
		return branch(a.key, a.bit, merge(a.l, nil, f), merge(a.r, b, f))
	case b.bit > a.bit && maskAbove(a.key, b.bit) == b.key:
		if a.key&b.bit == 0 {
			return branch(b.key, b.bit, merge(a, b.l, f), merge(nil, b.r, f))
		}
		return branch(b.key, b.bit, merge(nil, b.l, f), merge(a, b.r, f))
	}
	x := merge(a, nil, f)
	y := merge(nil, b, f)
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	return joinTrees(x.key, x, y.key, y)
}

func mapTree[V any](m *PMap[V], f func(k uint64, v V) (V, bool)) *PMap[V] {
	if m == nil {
		return nil
	}
	if m.bit == 0 {
		v, keep := f(m.key, m.val)
		if !keep {
			return nil
		}
		return &PMap[V]{key: m.key, val: v, n: 1}
	}
	return branch(m.key, m.bit, mapTree(m.l, f), mapTree(m.r, f))
}

// diff calls f for keys whose subtrees are not shared (either side may be absent).
func diff[V any](a, b *PMap[V], f func(k uint64, av V, aok bool, bv V, bok bool)) {
	merge(a, b, func(k uint64, av V, aok bool, bv V, bok bool) (V, bool) {
		f(k, av, aok, bv, bok)
		var z V
		return z, false
	})
}
