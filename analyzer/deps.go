package main

import (
	"encoding/binary"
	"sort"
)

// Dep is an interned set of provenance labels.
type Dep struct {
	id   int
	bits []int32
}

type depTab struct {
	byKey  map[string]*Dep
	union  map[[2]int]*Dep
	labels []string
	byName map[string]int32
	empty  *Dep
}

func newDepTab() *depTab {
	d := &depTab{byKey: map[string]*Dep{}, union: map[[2]int]*Dep{}, byName: map[string]int32{}}
	d.empty = d.intern(nil)
	return d
}

func (d *depTab) intern(bits []int32) *Dep {
	key := make([]byte, 0, len(bits)*4)
	for _, b := range bits {
		key = binary.LittleEndian.AppendUint32(key, uint32(b))
	}
	if x, ok := d.byKey[string(key)]; ok {
		return x
	}
	x := &Dep{id: len(d.byKey), bits: bits}
	d.byKey[string(key)] = x
	return x
}

func (d *depTab) label(name string) *Dep {
	l, ok := d.byName[name]
	if !ok {
		l = int32(len(d.labels))
		d.labels = append(d.labels, name)
		d.byName[name] = l
	}
	return d.intern([]int32{l})
}

func (d *depTab) or(a, b *Dep) *Dep {
	if a == b || len(b.bits) == 0 {
		return a
	}
	if len(a.bits) == 0 {
		return b
	}
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	if x, ok := d.union[k]; ok {
		return x
	}
	out := make([]int32, 0, len(a.bits)+len(b.bits))
	i, j := 0, 0
	for i < len(a.bits) || j < len(b.bits) {
		switch {
		case j >= len(b.bits) || (i < len(a.bits) && a.bits[i] < b.bits[j]):
			out = append(out, a.bits[i])
			i++
		case i >= len(a.bits) || b.bits[j] < a.bits[i]:
			out = append(out, b.bits[j])
			j++
		default:
			out = append(out, a.bits[i])
			i++
			j++
		}
	}
	x := d.intern(out)
	d.union[k] = x
	return x
}

func (d *depTab) names(a *Dep) []string {
	var out []string
	for _, b := range a.bits {
		out = append(out, d.labels[b])
	}
	sort.Strings(out)
	return out
}

func (a *Dep) has(l int32) bool {
	i := sort.Search(len(a.bits), func(i int) bool { return a.bits[i] >= l })
	return i < len(a.bits) && a.bits[i] == l
}
