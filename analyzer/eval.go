package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Random interpretation of value numbers (after Gulwani and Necula): every
// unknown and every uninterpreted function gets a value from a seeded pseudo
// random function, everything else its arithmetic meaning. Two terms whose
// values differ under one interpretation are different functions of the
// unknowns; it refutes equality where normalisation does not prove it.
type interpT struct {
	in    *Interp
	st    *State
	seed  uint64
	bias  int // share of special values, in 1/16
	val   []*big.Int
	bytes map[*Term][]byte
	opaq  bool // an unknown introduced by the analysis was met
	why   string
	free  func(t *Term) bool
	over  map[string]*big.Int // values fixed by the caller
}

type evalStop struct{ why string }

func newInterpT(in *Interp, st *State, seed uint64, bias int) *interpT {
	return &interpT{in: in, st: st, seed: seed, bias: bias, val: make([]*big.Int, len(in.T.byID)+1), bytes: map[*Term][]byte{}}
}

var bigOne = big.NewInt(1)

func maskB(w int) *big.Int {
	x := new(big.Int).Lsh(bigOne, uint(w))
	return x.Sub(x, bigOne)
}

// draw gives a value in the range for a key.
func (e *interpT) draw(key string, iv Iv, w int) *big.Int {
	if x, ok := e.over[key]; ok {
		return x
	}
	h := sha256.Sum256([]byte(strconv.FormatUint(e.seed, 16) + key))
	lo, hi := iv.lo, iv.hi
	if w > 64 || w > 0 && (hi.isInf() || lo.isInf()) {
		n := new(big.Int)
		for i := 0; i*256 < w; i++ {
			b := sha256.Sum256(append(h[:], byte(i), byte(i>>8)))
			n.Lsh(n, 256).Or(n, new(big.Int).SetBytes(b[:]))
		}
		return n.And(n, maskB(w))
	}
	var l, size *big.Int
	switch {
	case lo.finite() && hi.finite():
		l = lo.big()
		size = new(big.Int).Sub(hi.big(), l)
		size.Add(size, bigOne)
	case lo.finite():
		l, size = lo.big(), new(big.Int).Lsh(bigOne, 64)
	case hi.finite():
		size = new(big.Int).Lsh(bigOne, 64)
		l = new(big.Int).Sub(hi.big(), size)
	default:
		l, size = new(big.Int), new(big.Int).Lsh(bigOne, 128)
	}
	if size.Sign() <= 0 {
		return new(big.Int).Set(l)
	}
	r := new(big.Int).SetBytes(h[2:])
	if int(h[0]&15) < e.bias {
		switch h[1] % 6 {
		case 0:
			return new(big.Int).Set(l)
		case 1:
			return new(big.Int).Sub(new(big.Int).Add(l, size), bigOne)
		case 2:
			r = new(big.Int).SetBytes(h[2:3])
			if r.Cmp(size) >= 0 {
				r.Mod(r, size)
			}
			return r.Add(r, l)
		case 3: // many ones
			b := size.BitLen() - 1
			if b > 1 {
				x := new(big.Int).Sub(size, bigOne)
				x.Sub(x, new(big.Int).SetBytes(h[2:3]))
				if x.Sign() >= 0 {
					return x.Add(x, l)
				}
			}
		case 4: // around a power of two
			b := size.BitLen()
			x := new(big.Int).Lsh(bigOne, uint(int(h[3])%b))
			x.Add(x, big.NewInt(int64(h[4]%3)-1))
			if x.Sign() >= 0 && x.Cmp(size) < 0 {
				return x.Add(x, l)
			}
		}
	}
	r.Mod(r, size)
	return r.Add(r, l)
}

func (e *interpT) eval(t *Term) *big.Int {
	if t.id < len(e.val) {
		if v := e.val[t.id]; v != nil {
			return v
		}
	} else {
		n := make([]*big.Int, len(e.in.T.byID)+1)
		copy(n, e.val)
		e.val = n
	}
	v := e.eval1(t)
	e.val[t.id] = v
	return v
}

func boolB(b bool) *big.Int {
	if b {
		return bigOne
	}
	return new(big.Int)
}

func floorDivB(x, y *big.Int) (q, r *big.Int) {
	if y.Sign() == 0 {
		panic(evalStop{"division by zero"})
	}
	q, r = new(big.Int), new(big.Int)
	q.QuoRem(x, y, r)
	if r.Sign() != 0 && (r.Sign() < 0) != (y.Sign() < 0) {
		q.Sub(q, bigOne)
		r.Add(r, y)
	}
	return
}

// known tells unknowns of the program from those the analysis introduces.
func (e *interpT) known(t *Term) bool {
	n := t.name
	for _, p := range []string{"in:", "len(", "data(", "cap("} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return e.free != nil && e.free(t)
}

func (e *interpT) eval1(t *Term) *big.Int {
	a := func(i int) *big.Int { return e.eval(t.args[i]) }
	switch t.op {
	case OConst:
		return t.k.big()
	case OLeaf:
		if !e.known(t) {
			panic(evalStop{"unknown " + t.name})
		}
		iv := t.iv
		if r, ok := e.st.ref.Get(uint64(t.id)); ok {
			iv = iv.meet(r)
		}
		return e.draw(t.name, iv, 0)
	case OLin:
		s := t.k.big()
		if s == nil {
			panic(evalStop{"saturated"})
		}
		s = new(big.Int).Set(s)
		m := new(big.Int)
		for i := range t.args {
			s.Add(s, m.Mul(t.co[i].big(), a(i)))
		}
		return s
	case OWire:
		r := new(big.Int)
		pos := uint(0)
		if len(t.segs) > 64 {
			return e.bigWire(t)
		}
		for _, s := range t.segs {
			var x *big.Int
			if s.src == nil {
				x = new(big.Int).SetUint64(s.val)
			} else {
				x = new(big.Int).Rsh(e.eval(s.src), uint(s.from))
				x.And(x, maskB(s.w))
			}
			r.Or(r, x.Lsh(x, pos))
			pos += uint(s.w)
		}
		return r
	case OXor, OAnd, OOr:
		r := new(big.Int)
		for i := range t.args {
			x := a(i)
			switch {
			case i == 0:
				r.Set(x)
			case t.op == OXor:
				r.Xor(r, x)
			case t.op == OAnd:
				r.And(r, x)
			default:
				r.Or(r, x)
			}
		}
		if k := t.k.big(); t.op == OXor && k != nil && k.Sign() != 0 {
			r.Xor(r, k)
		}
		return r
	case OMul:
		return new(big.Int).Mul(a(0), a(1))
	case ODiv:
		q, _ := floorDivB(a(0), a(1))
		return q
	case OMod:
		_, r := floorDivB(a(0), a(1))
		return r
	case OQuo:
		return new(big.Int).Quo(a(0), a(1))
	case ORem:
		return new(big.Int).Rem(a(0), a(1))
	case OTrunc:
		return new(big.Int).And(a(0), maskB(t.w))
	case OSext:
		x := new(big.Int).And(a(0), maskB(t.w))
		if x.Bit(t.w-1) == 1 {
			x.Sub(x, new(big.Int).Lsh(bigOne, uint(t.w)))
		}
		return x
	case OGE0:
		return boolB(a(0).Sign() >= 0)
	case OEQ0:
		return boolB(a(0).Sign() == 0)
	case ONot:
		return boolB(a(0).Sign() == 0)
	case OIte:
		if a(0).Sign() != 0 {
			return a(1)
		}
		return a(2)
	case OApp:
		return e.app(t)
	}
	panic(evalStop{fmt.Sprintf("operator %d", t.op)})
}

func (e *interpT) bigWire(t *Term) *big.Int {
	n := t.width()
	buf := make([]byte, n/8+9)
	pos := 0
	for _, s := range t.segs {
		var x *big.Int
		if s.src == nil {
			x = new(big.Int).SetUint64(s.val)
		} else {
			x = new(big.Int).Rsh(e.eval(s.src), uint(s.from))
			x.And(x, maskB(s.w))
		}
		if pos%8 == 0 && s.w <= 64 {
			v := x.Uint64()
			for k := 0; k*8 < s.w; k++ {
				buf[pos/8+k] |= byte(v >> (8 * k))
			}
		} else {
			x.Lsh(x, uint(pos%8))
			for k, b := range x.Bytes() {
				buf[pos/8+len(x.Bytes())-1-k] |= b
			}
		}
		pos += s.w
	}
	for i, j := 0, len(buf)-1; i < j; i, j = i+1, j-1 {
		buf[i], buf[j] = buf[j], buf[i]
	}
	return new(big.Int).SetBytes(buf)
}

func leBytes(x *big.Int, n int) []byte {
	b := x.Bytes()
	out := make([]byte, n)
	for i := 0; i < len(b) && i < n; i++ {
		out[i] = b[len(b)-1-i]
	}
	return out
}

const maxContent = 1 << 17

// content evaluates the content of memory: its bytes, or a key for it.
func (e *interpT) content(t *Term) ([]byte, string) {
	if t.op == OApp {
		switch t.name {
		case "bytes":
			n := int(e.eval(t.args[0]).Int64())
			return leBytes(e.eval(t.args[1]), n), ""
		case "region":
			off, n := e.eval(t.args[1]), e.eval(t.args[2])
			if n.Sign() == 0 {
				return nil, ""
			}
			if n.IsInt64() && n.Int64() <= maxContent && off.IsInt64() {
				if b, ok := e.read(t.args[0], off.Int64(), n.Int64()); ok {
					return b, ""
				}
			}
			return nil, "R" + e.tagKey(t.args[0]) + "@" + off.String() + "+" + n.String()
		case "seq":
			var out []byte
			key := ""
			for _, x := range t.args {
				b, k := e.content(x)
				if k == "" && key == "" {
					out = append(out, b...)
					continue
				}
				if key == "" {
					key = "B" + string(out)
				}
				key += "|" + k + string(b)
			}
			if key != "" {
				return nil, key
			}
			return out, ""
		}
	}
	return nil, e.tagKey(t)
}

// read evaluates n bytes of tagged memory.
func (e *interpT) read(tag *Term, off, n int64) ([]byte, bool) {
	out := make([]byte, n)
	done := make([]bool, n)
	left := n
	put := func(pos int64, b []byte) { // b lies at pos of the memory
		for i, x := range b {
			k := pos + int64(i) - off
			if k >= 0 && k < n && !done[k] {
				done[k] = true
				out[k] = x
				left--
			}
		}
	}
	for left > 0 {
		switch {
		case tag == e.in.T.zero:
			for k := range done {
				done[k] = true
			}
			return out, true
		case tag.op == OIte:
			if e.eval(tag.args[0]).Sign() != 0 {
				tag = tag.args[1]
			} else {
				tag = tag.args[2]
			}
			continue
		case tag.op == OApp && tag.name == "st":
			o, sz := e.eval(tag.args[1]), e.eval(tag.args[3])
			if o.IsInt64() {
				p, s := o.Int64(), sz.Int64()
				if p < off+n && p+s > off {
					put(p, leBytes(new(big.Int).And(e.eval(tag.args[2]), maskB(int(8*s))), int(s)))
				}
			}
			tag = tag.args[0]
			continue
		case tag.op == OApp && tag.name == "cp":
			o, cn := e.eval(tag.args[1]), e.eval(tag.args[2])
			if !o.IsInt64() || !cn.IsInt64() {
				return nil, false
			}
			if o.Int64() < off+n && o.Int64()+cn.Int64() > off {
				b, key := e.content(tag.args[3])
				if key != "" {
					return nil, false
				}
				if int64(len(b)) > cn.Int64() {
					b = b[:cn.Int64()]
				}
				put(o.Int64(), b)
			}
			tag = tag.args[0]
			continue
		case tag.op == OApp && tag.name == "cat":
			pos := int64(0)
			for i := 0; i+2 < len(tag.args); i += 3 {
				cn := e.eval(tag.args[i+2])
				if !cn.IsInt64() {
					return nil, false
				}
				m := cn.Int64()
				lo, hi := off, off+n
				if lo < pos {
					lo = pos
				}
				if hi > pos+m {
					hi = pos + m
				}
				if lo < hi {
					o := e.eval(tag.args[i+1])
					b, ok := e.read(tag.args[i], o.Int64()+lo-pos, hi-lo)
					if !ok {
						return nil, false
					}
					put(lo, b)
				}
				pos += m
			}
			for k := range done {
				if !done[k] {
					done[k] = true
					left--
				}
			}
		case tag.op == OApp && tag.name == "bigbytes":
			b := e.eval(tag.args[0]).Bytes()
			put(0, b)
			for k := range done {
				if !done[k] {
					done[k] = true
					left--
				}
			}
		default:
			if a := e.in.arrs[tag]; a != nil {
				return e.arrBytes(a, off, n)
			}
			if tag.op == OLeaf && !e.known(tag) {
				panic(evalStop{"unknown memory " + tag.name})
			}
			k0 := e.tagKey(tag)
			for k := int64(0); k < n; k++ {
				if !done[k] {
					done[k] = true
					left--
					out[k] = byte(e.draw(k0+"#"+strconv.FormatInt(off+k, 10), Iv{n0, ni(255)}, 0).Int64())
				}
			}
		}
	}
	return out, true
}

func (e *interpT) arrBytes(a *ArrC, off, n int64) ([]byte, bool) {
	es := int64(e.in.arrEsz(a))
	if a.sum != nil || es <= 0 {
		panic(evalStop{"summarised array"})
	}
	out := make([]byte, 0, n)
	for k := off; k < off+n; k++ {
		v, ok := e.in.elem(a, int(k/es)).(*Term)
		if !ok {
			panic(evalStop{"array of other values"})
		}
		x := new(big.Int).And(e.eval(v), maskB(int(8*es)))
		out = append(out, byte(x.Rsh(x, uint(8*(k%es))).Uint64()))
	}
	return out, true
}

// tagKey names a memory history by the values in it.
func (e *interpT) tagKey(t *Term) string {
	if t.op == OLeaf {
		if a := e.in.arrs[t]; a != nil {
			if n, ok := a.n.constVal(); ok && n.le(ni(maxContent)) {
				b, _ := e.arrBytes(a, 0, n.i64()*int64(e.in.arrEsz(a)))
				return "A" + string(b)
			}
		}
		if !e.known(t) {
			panic(evalStop{"unknown memory " + t.name})
		}
		return "L" + t.name
	}
	if t.op == OApp {
		switch t.name {
		case "st", "cp", "cat":
			// written memory that is not read byte by byte
			h := sha256.New()
			for x := t; ; {
				if x.op == OApp && (x.name == "st" || x.name == "cp") {
					for _, a := range x.args[1:3] {
						fmt.Fprintf(h, "%s,", e.eval(a))
					}
					if x.name == "cp" {
						b, k := e.content(x.args[3])
						fmt.Fprintf(h, "%x%s;", b, k)
					}
					x = x.args[0]
					continue
				}
				if x.op == OApp && x.name == "cat" {
					for i, a := range x.args {
						if i%3 == 0 {
							fmt.Fprint(h, e.tagKey(a))
						} else {
							fmt.Fprintf(h, "%s,", e.eval(a))
						}
					}
					break
				}
				fmt.Fprint(h, e.tagKey(x))
				break
			}
			return "H" + string(h.Sum(nil))
		case "bytes", "region", "seq":
			b, k := e.content(t)
			if k == "" {
				return "B" + string(b)
			}
			return k
		}
	}
	return "V" + e.eval(t).String()
}

func (e *interpT) app(t *Term) *big.Int {
	switch t.name {
	case "shl", "shl8", "shl16", "shl32", "shl64":
		n := e.eval(t.args[1])
		if !n.IsInt64() || n.Int64() > 4096 {
			return new(big.Int)
		}
		r := new(big.Int).Lsh(e.eval(t.args[0]), uint(n.Int64()))
		if w, err := strconv.Atoi(t.name[3:]); err == nil {
			r.And(r, maskB(w))
			if t.iv.lo.sign() < 0 && r.Bit(w-1) == 1 {
				r.Sub(r, new(big.Int).Lsh(bigOne, uint(w)))
			}
		}
		return r
	case "shr", "sar8", "sar16", "sar32", "sar64":
		n := e.eval(t.args[1])
		x := e.eval(t.args[0])
		if !n.IsInt64() || n.Int64() > 4096 {
			if x.Sign() < 0 {
				return big.NewInt(-1)
			}
			return new(big.Int)
		}
		return new(big.Int).Rsh(x, uint(n.Int64()))
	case "quo":
		y := e.eval(t.args[1])
		if y.Sign() == 0 {
			panic(evalStop{"division by zero"})
		}
		return new(big.Int).Quo(e.eval(t.args[0]), y)
	case "rem":
		y := e.eval(t.args[1])
		if y.Sign() == 0 {
			panic(evalStop{"division by zero"})
		}
		return new(big.Int).Rem(e.eval(t.args[0]), y)
	case "andnot":
		return new(big.Int).AndNot(e.eval(t.args[0]), e.eval(t.args[1]))
	case "and":
		return new(big.Int).And(e.eval(t.args[0]), e.eval(t.args[1]))
	case "or":
		return new(big.Int).Or(e.eval(t.args[0]), e.eval(t.args[1]))
	case "xor":
		return new(big.Int).Xor(e.eval(t.args[0]), e.eval(t.args[1]))
	case "xorbig", "bigxor":
		r := new(big.Int)
		for _, a := range t.args {
			r.Xor(r, e.eval(a))
		}
		return r
	case "bitlen", "bitslen":
		return big.NewInt(int64(e.eval(t.args[0]).BitLen()))
	case "popcount":
		n := 0
		for _, w := range e.eval(t.args[0]).Bits() {
			n += bits.OnesCount(uint(w))
		}
		return big.NewInt(int64(n))
	case "ctz":
		x := e.eval(t.args[0])
		if x.Sign() == 0 {
			return e.eval(t.args[1])
		}
		return big.NewInt(int64(x.TrailingZeroBits()))
	case "biglen":
		return big.NewInt(int64(len(e.eval(t.args[0]).Bytes())))
	case "bigu64":
		x := new(big.Int).Abs(e.eval(t.args[0]))
		return x.And(x, maskB(64))
	case "gcd":
		return new(big.Int).GCD(nil, nil, new(big.Int).Abs(e.eval(t.args[0])), new(big.Int).Abs(e.eval(t.args[1])))
	case "prime":
		return boolB(primeBig(e.eval(t.args[0])))
	case "upd":
		if e.eval(t.args[1]).Sign() == 0 {
			return e.eval(t.args[2])
		}
		return e.eval(t.args[0])
	case "sel":
		idx := e.eval(t.args[1])
		ver := t.args[0]
		for ver.op == OApp && ver.name == "wr" && len(ver.args) == 3 {
			if e.eval(ver.args[1]).Cmp(idx) == 0 {
				return e.eval(ver.args[2])
			}
			ver = ver.args[0]
		}
		if ver.op == OIte {
			// not expected
			panic(evalStop{"selected array"})
		}
		if a := e.in.arrs[ver]; a != nil && a.sum == nil && idx.IsInt64() {
			if v, ok := e.in.elem(a, int(idx.Int64())).(*Term); ok {
				return e.eval(v)
			}
		}
		panic(evalStop{"array content"})
	case "bigof":
		b, k := e.content(t.args[0])
		if k == "" {
			return new(big.Int).SetBytes(b)
		}
		return e.draw("bigof"+k, Iv{n0, nInf}, 0)
	case "ld1", "ld2", "ld4", "ld8":
		n, _ := strconv.Atoi(t.name[2:])
		off := e.eval(t.args[1])
		if !off.IsInt64() {
			panic(evalStop{"offset"})
		}
		b, ok := e.read(t.args[0], off.Int64(), int64(n))
		if !ok {
			// too large a copy below: name the place instead
			return e.draw("ld"+e.tagKey(t.args[0])+off.String(), typeIv(8*n, false), 8*n)
		}
		var x [8]byte
		copy(x[:], b)
		r := new(big.Int).SetUint64(binary.LittleEndian.Uint64(x[:]))
		if t.iv.lo.sign() < 0 && r.Bit(8*n-1) == 1 {
			r.Sub(r, new(big.Int).Lsh(bigOne, uint(8*n)))
		}
		return r
	case "sat":
		panic(evalStop{"saturated"})
	}
	// an uninterpreted function of its arguments
	var key strings.Builder
	key.WriteString(t.name)
	for _, a := range t.args {
		key.WriteByte('(')
		if a.op == OApp && (a.name == "bytes" || a.name == "region" || a.name == "seq" || a.name == "st" || a.name == "cp" || a.name == "cat") {
			b, k := e.content(a)
			if k == "" {
				key.WriteByte('B')
				key.Write(b)
			} else {
				key.WriteString(k)
			}
		} else if a.op == OLeaf && (!e.known(a) || strings.HasPrefix(a.name, "data(")) {
			key.WriteString(e.tagKey(a))
		} else {
			key.WriteString(e.eval(a).String())
		}
	}
	iv := t.iv
	if r, ok := e.st.ref.Get(uint64(t.id)); ok {
		iv = iv.meet(r)
	}
	return e.draw(key.String(), iv, t.w)
}

// guardVal evaluates the condition of a state.
func (e *interpT) guardVal(g *gcell) bool {
	for ; g != nil && g != gLost; g = g.up {
		if !e.nodeVal(g.c) {
			return false
		}
	}
	return g == nil
}

func (e *interpT) nodeVal(g *gnode) bool {
	for g.v != nil {
		if e.eval(g.v).Sign() != 0 {
			g = g.hi
		} else {
			g = g.lo
		}
	}
	return g == gOne
}

// try runs f and reports why it could not be evaluated.
func (e *interpT) try(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(evalStop)
			if !ok {
				panic(r)
			}
			why = s.why
		}
	}()
	f()
	return ""
}
