package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: what they guarantee about their results, what
// they write, and how they may fail.

type mcall struct {
	in   *Interp
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []Val
	site ssa.Instruction
}

type modelFn func(c *mcall) ([]Outcome, bool)

var models map[string]modelFn

func init() { modelsInit() }

func nilErr() *IfaceV { return &IfaceV{null: nilYes} }
func errVal(tag string) *IfaceV {
	return &IfaceV{null: nilNo, tag: tag}
}

func (c *mcall) one(vs ...Val) ([]Outcome, bool) { return []Outcome{{c.st, vs}}, true }

// try returns a success and a failure outcome.
func (c *mcall) try(tag string, ok func(st *State) []Val, fail func(st *State) []Val) ([]Outcome, bool) {
	s2 := c.st.clone()
	var out []Outcome
	if r := ok(c.st); r != nil {
		out = append(out, Outcome{c.st, r})
	}
	out = append(out, Outcome{s2, fail(s2)})
	return out, true
}

var byteT = types.Typ[types.Byte]

func (c *mcall) bytes(v Val) []run {
	s, ok := v.(*SliceV)
	if !ok {
		return nil
	}
	if n, ok := c.in.isNil(c.st, s.null, s.nt); ok && n {
		return nil
	}
	return c.in.sliceRuns(c.st, s, byteT)
}

func (c *mcall) tmp(sub string, bs []*Term) *SliceV {
	T := c.in.T
	a := &ArrC{n: T.Int(int64(len(bs))), def: T.zero, et: byteT}
	for i, b := range bs {
		a.elems = a.elems.Set(uint64(i), Val(b))
	}
	p := c.in.alloc(c.st, c.fr.ctx, c.site, sub, types.NewSlice(byteT), a)
	n := T.Int(int64(len(bs)))
	return &SliceV{alts: []SAlt{{loc: p.alts[0], off: T.zero, esz: 1}}, len: n, cap: n}
}

// put writes bytes to the beginning of dst.
func (c *mcall) put(dst *SliceV, bs []*Term) {
	T := c.in.T
	src := c.tmp("tmp", bs)
	c.in.copyElems(c.st, dst, src, byteT, c.in.minTerm(c.st, T.sv(c.st, dst.len), src.len))
}

func encRuns(in *Interp, rs []run) []Val {
	var out []Val
	for _, r := range normRuns(in.T, rs) {
		out = append(out, in.contentTerm([]run{r}))
	}
	return out
}

func decRuns(in *Interp, b []Val) []run {
	T := in.T
	var out []run
	for _, v := range b {
		t := v.(*Term)
		switch {
		case t.op == OApp && t.name == "bytes":
			n, _ := t.args[0].constVal()
			r := run{n: t.args[0]}
			for i := int64(0); i < n.i64(); i++ {
				r.bytes = append(r.bytes, T.Ext(t.args[1], int(8*i), 8))
			}
			out = append(out, r)
		case t.op == OApp && t.name == "region":
			out = append(out, run{tag: t.args[0], off: t.args[1], n: t.args[2]})
		default:
			out = append(out, run{tag: t, off: T.zero, n: T.App("len", Iv{n0, in.inputLen}, t)})
		}
	}
	return out
}

func (c *mcall) nat(v Val, kind string) (*Obj, Loc, *NatC) {
	p, ok := v.(*PtrV)
	if !ok || p.top || len(p.alts) != 1 {
		return nil, Loc{}, nil
	}
	o := c.st.obj(p.alts[0].obj)
	if o == nil {
		return nil, Loc{}, nil
	}
	n, _ := c.in.contentAt(c.st, o, p.alts[0].path).(*NatC)
	if n != nil && n.kind != kind {
		n = nil
	}
	return o, p.alts[0], n
}

func (c *mcall) access(o *Obj, loc Loc, write bool) {
	if c.in.onAccess != nil {
		c.in.onAccess(c.st, c.fr, c.site, o, loc, write, true)
	}
}

func (c *mcall) setNat(o *Obj, loc Loc, n *NatC) {
	if o.weak {
		old, _ := c.in.contentAt(c.st, o, loc.path).(*NatC)
		if old != nil {
			n = mergeVals(c.in, c.st, old, n, nil, c.in.uniq("nw")).(*NatC)
		}
	}
	no := *o
	if len(loc.path) == 0 {
		no.c = n
	} else {
		no.c = c.in.storeC(c.st, o, o.c, loc.path, n, o.typ)
	}
	c.st.setObj(&no)
}

/* sponge hashes */

func (in *Interp) typeOf(pkg, name string) types.Type {
	p := in.P.ByPkg[pkg]
	if p == nil {
		return nil
	}
	m, ok := p.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return m.Type()
}

const sha3Pkg = "golang.org/x/crypto/sha3"

func hashNew(pkg, typ, variant string, outLen, block int) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		t := c.in.typeOf(pkg, typ)
		if t == nil {
			return nil, false
		}
		p := c.in.alloc(c.st, c.fr.ctx, c.site, "hash", t, &NatC{kind: "hash", s: litStr(variant, c.in.T.deps.empty), aux: outLen, aux2: block, t: c.in.T.zero, dep: c.in.T.deps.empty})
		// a new object even if the site was reached before
		o := c.st.obj(p.alts[0].obj)
		if n, ok := o.c.(*NatC); ok && !(len(n.b) == 0 && n.st == 0) {
			no := *o
			no.c = &NatC{kind: "hash", s: litStr(variant, c.in.T.deps.empty), aux: outLen, aux2: block, t: c.in.T.zero, dep: c.in.T.deps.empty}
			c.st.setObj(&no)
		}
		return c.one(&IfaceV{typ: types.NewPointer(t), v: p})
	}
}

// digestBytes returns n output bytes of a hash of the given content.
func (in *Interp) digestBytes(variant string, content *Term, from, n int) []*Term {
	T := in.T
	var out []*Term
	for i := from; i < from+n; i++ {
		w := T.AppW(variant, 256, nil, content, T.Int(int64(i/32)))
		out = append(out, T.Ext(w, 8*(i%32), 8))
	}
	return out
}

func (c *mcall) variant(n *NatC) string {
	if n.s == nil {
		return "hash?"
	}
	s, _ := n.s.lit()
	return s
}

func hashWrite(c *mcall) ([]Outcome, bool) {
	o, loc, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	if n.st != 0 {
		c.in.oblig("panic", false, "write to a sponge after read")
	}
	c.access(o, loc, true)
	rs := append(decRuns(c.in, n.b), c.bytes(c.args[1])...)
	nn := *n
	nn.b = encRuns(c.in, rs)
	c.setNat(o, loc, &nn)
	return c.one(c.args[1].(*SliceV).len, nilErr())
}

func hashReset(c *mcall) ([]Outcome, bool) {
	o, loc, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	c.access(o, loc, true)
	nn := *n
	nn.b, nn.st, nn.t = nil, 0, c.in.T.zero
	nn.dep = c.in.T.deps.empty
	if n.aux < 0 { // key or prefix kept
		nn.b = n.b
	}
	c.setNat(o, loc, &nn)
	return c.one()
}

func hashRead(c *mcall) ([]Outcome, bool) {
	in, T := c.in, c.in.T
	o, loc, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	c.access(o, loc, true)
	dst := c.args[1].(*SliceV)
	content := in.contentTerm(decRuns(in, n.b))
	pos := n.t
	ln := T.sv(c.st, dst.len)
	if k, ok := ln.constVal(); ok && k.le(ni(1<<16)) {
		if p, ok := pos.constVal(); ok {
			c.put(dst, in.digestBytes(c.variant(n), content, int(p.i64()), int(k.i64())))
		} else {
			var bs []*Term
			for i := int64(0); i < k.i64(); i++ {
				bs = append(bs, T.AppW("xofbyte", 8, T.deps.or(content.dep, pos.dep), content, pos, T.Int(i)))
			}
			c.put(dst, bs)
		}
	} else {
		c.putRegion(dst, T.App("xof:"+c.variant(n), ivTop, content, pos), ln)
	}
	nn := *n
	nn.st = 1
	nn.t = T.Add(pos, ln)
	c.setNat(o, loc, &nn)
	return c.one(ln, nilErr())
}

// putRegion writes n bytes of the content named by tag to dst.
func (c *mcall) putRegion(dst *SliceV, tag, n *Term) {
	T := c.in.T
	b := &BlobC{size: n, dep: tag.dep, tag: tag}
	p := c.in.alloc(c.st, c.fr.ctx, c.site, "tmpr", types.NewSlice(byteT), b)
	src := &SliceV{alts: []SAlt{{loc: p.alts[0], off: T.zero, esz: 1}}, len: n, cap: n}
	c.in.copyElems(c.st, dst, src, byteT, n)
}

func hashSum(c *mcall) ([]Outcome, bool) {
	in := c.in
	o, loc, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	c.access(o, loc, false)
	if n.st != 0 && c.variant(n) != "blake2b" {
		in.oblig("panic", false, "Sum after Read")
	}
	content := in.contentTerm(decRuns(in, n.b))
	dig := in.digestBytes(c.variant(n), content, 0, n.aux)
	src := c.tmp("sum", dig)
	dst, _ := c.args[1].(*SliceV)
	if dst == nil {
		return nil, false
	}
	if isn, ok := in.isNil(c.st, dst.null, dst.nt); ok && isn {
		return c.one(src)
	}
	return in.appendSlice(c.st, c.fr, dst, src, byteT, c.site), true
}

func hashSize(c *mcall) ([]Outcome, bool) {
	_, _, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	return c.one(c.in.T.Int(int64(n.aux)))
}

func hashBlock(c *mcall) ([]Outcome, bool) {
	_, _, n := c.nat(c.args[0], "hash")
	if n == nil {
		return nil, false
	}
	return c.one(c.in.T.Int(int64(n.aux2)))
}

func hashSumN(variant string, n int) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		in, T := c.in, c.in.T
		dig := in.digestBytes(variant, in.contentTerm(normRuns(T, c.bytes(c.args[0]))), 0, n)
		a := &ArrC{n: T.Int(int64(n)), def: T.zero, et: byteT}
		for i, b := range dig {
			a.elems = a.elems.Set(uint64(i), Val(b))
		}
		return c.one(a)
	}
}

func shakeSum(variant string) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		in, T := c.in, c.in.T
		dst := c.args[0].(*SliceV)
		content := in.contentTerm(normRuns(T, c.bytes(c.args[1])))
		ln := T.sv(c.st, dst.len)
		if k, ok := ln.constVal(); ok && k.le(ni(1<<16)) {
			c.put(dst, in.digestBytes(variant, content, 0, int(k.i64())))
		} else {
			c.putRegion(dst, T.App("xof:"+variant, ivTop, content, T.zero), ln)
		}
		return c.one()
	}
}

func (c *mcall) litBytes(v Val) (string, bool) {
	rs := c.bytes(v)
	var b []byte
	for _, r := range rs {
		if r.bytes == nil {
			return "", false
		}
		for _, x := range r.bytes {
			k, ok := x.constVal()
			if !ok {
				return "", false
			}
			b = append(b, byte(k.u64()))
		}
	}
	return string(b), true
}

func newCShake(bits int) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		n, ok1 := c.litBytes(c.args[0])
		s, ok2 := c.litBytes(c.args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		v, typ := fmt.Sprintf("cshake%d(%q,%q)", bits, n, s), "cshakeState"
		if n == "" && s == "" {
			v, typ = fmt.Sprintf("shake%d", bits), "state"
		}
		rate := 168
		if bits == 256 {
			rate = 136
		}
		return hashNew(sha3Pkg, typ, v, bits/4, rate)(c)
	}
}

func blake2bNew(c *mcall) ([]Outcome, bool) {
	in, T := c.in, c.in.T
	p, ok := c.args[0].(*PtrV)
	if !ok {
		return nil, false
	}
	size, key, salt, person := 64, "", "", ""
	if n, ok := in.isNil(c.st, p.null, p.nt); !(ok && n) {
		cfgT := in.typeOf("github.com/dchest/blake2b", "Config")
		if cfgT == nil {
			return nil, false
		}
		cfg, ok := in.loadPtr(c.st, p, cfgT).(*StructC)
		if !ok {
			return nil, false
		}
		st := under(cfgT).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Size":
				k, ok := T.sv(c.st, cfg.f[i].(*Term)).constVal()
				if !ok {
					iv := T.rng(c.st, cfg.f[i].(*Term))
					if iv.lo.lt(n1) || ni(64).lt(iv.hi) {
						in.oblig("blake2b", false, "blake2b output size may be out of range")
					}
					size = 0
					break
				}
				size = int(k.i64())
			case "Key", "Salt", "Person":
				s, ok := c.litBytes(cfg.f[i])
				if !ok {
					in.unsupported("blake2b parameter is not constant")
					return nil, false
				}
				switch st.Field(i).Name() {
				case "Key":
					key = s
				case "Salt":
					salt = s
				case "Person":
					person = s
				}
			case "Tree":
				if n, _, ok := nullOf(cfg.f[i]); !ok || n != nilYes {
					return nil, false
				}
			}
		}
	}
	dt := in.typeOf("github.com/dchest/blake2b", "digest")
	// verifyConfig: Size ≤ 64, Key ≤ 64, Salt ≤ 16, Person ≤ 16; Size 0 means 64
	if size > 64 || size < 0 || len(key) > 64 || len(salt) > 16 || len(person) > 16 {
		return c.one(&IfaceV{null: nilYes}, errVal("blake2b.New"))
	}
	if size == 0 {
		size = 64
	}
	v := fmt.Sprintf("blake2b-%d", size)
	if key != "" || salt != "" || person != "" {
		v += fmt.Sprintf("(%q,%q,%x)", key, salt, person)
	}
	out, ok := hashNew("github.com/dchest/blake2b", "digest", v, size, 128)(c)
	if !ok || dt == nil {
		return nil, false
	}
	out[0].res = append(out[0].res, nilErr())
	return out, true
}

/* math/big.Int as a mathematical integer */

func (c *mcall) bigGet(v Val) (*Term, bool) {
	in, T := c.in, c.in.T
	p, ok := v.(*PtrV)
	if !ok {
		return nil, false
	}
	if !in.notNil(c.st, p, "big.Int") {
		return nil, false
	}
	if p.top || len(p.alts) == 0 {
		return T.Leaf(in.uniq("big"), ivTop, T.deps.label("ext:big")), true
	}
	var r *Term
	for _, l := range p.alts {
		o := c.st.obj(l.obj)
		if o == nil {
			return nil, false
		}
		c.access(o, l, false)
		var t *Term
		switch x := in.contentAt(c.st, o, l.path).(type) {
		case *NatC:
			t = x.t
		case *StructC:
			t = T.zero
		default:
			return nil, false
		}
		if r != nil && r != t || o.weak && !t.isConst() {
			r = T.Leaf(in.uniq("bigm"), T.rng(c.st, t).hull(ivTop), T.deps.or(t.dep, T.deps.empty))
		} else {
			r = t
		}
	}
	return r, true
}

func (c *mcall) bigSet(v Val, t *Term) bool {
	in := c.in
	p, ok := v.(*PtrV)
	if !ok || p.top {
		return false
	}
	if !in.notNil(c.st, p, "big.Int") {
		return false
	}
	for _, l := range p.alts {
		o := c.st.obj(l.obj)
		if o == nil {
			return false
		}
		c.access(o, l, true)
		n := &NatC{kind: "big", t: t, dep: c.in.T.deps.empty}
		no := *o
		if len(l.path) == 0 {
			no.c = n
		} else {
			no.c = in.storeC(c.st, o, o.c, l.path, n, o.typ)
		}
		if o.weak || len(p.alts) > 1 {
			old := in.T.Leaf(in.uniq("bigw"), ivTop, t.dep)
			n.t = old
		}
		c.st.setObj(&no)
	}
	return true
}

func bigOp(f func(c *mcall, a []*Term) *Term) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		var ts []*Term
		for _, a := range c.args[1:] {
			if t, ok := a.(*Term); ok {
				ts = append(ts, t)
				continue
			}
			t, ok := c.bigGet(a)
			if !ok {
				return nil, true
			}
			ts = append(ts, t)
		}
		r := f(c, ts)
		if r == nil {
			return nil, true
		}
		if !c.bigSet(c.args[0], c.in.T.sv(c.st, r)) {
			return nil, false
		}
		return c.one(c.args[0])
	}
}

func (c *mcall) nonneg(ts ...*Term) bool {
	for _, t := range ts {
		if c.in.T.rng(c.st, t).lo.sign() < 0 {
			return false
		}
	}
	return true
}

func bytesToTerm(in *Interp, rs []run, bigEndian bool) *Term {
	T := in.T
	var bs []*Term
	for _, r := range rs {
		if r.bytes == nil {
			return T.AppD("bigof", Iv{n0, nInf}, nil, in.contentTerm(rs))
		}
		bs = append(bs, r.bytes...)
	}
	var segs []Seg
	for i := range bs {
		b := bs[i]
		if bigEndian {
			b = bs[len(bs)-1-i]
		}
		segs = append(segs, T.padSegs(b, 8)...)
	}
	return T.Wire(segs)
}

func modelsInit() {
	m := map[string]modelFn{}
	models = m
	bitsModels(m)
	s3 := "(*" + sha3Pkg + ".state)."
	for _, recv := range []string{"(*" + sha3Pkg + ".state).", "(*" + sha3Pkg + ".cshakeState).", "(" + sha3Pkg + ".cshakeState).", "(*github.com/dchest/blake2b.digest)."} {
		m[recv+"Write"] = hashWrite
		m[recv+"Sum"] = hashSum
		m[recv+"Size"] = hashSize
		m[recv+"BlockSize"] = hashBlock
		m[recv+"Reset"] = hashReset
		m[recv+"Read"] = hashRead
	}
	_ = s3
	m[sha3Pkg+".NewLegacyKeccak256"] = hashNew(sha3Pkg, "state", "keccak256", 32, 136)
	m[sha3Pkg+".NewLegacyKeccak512"] = hashNew(sha3Pkg, "state", "keccak512", 64, 72)
	for _, k := range []struct{ b, rate int }{{224, 144}, {256, 136}, {384, 104}, {512, 72}} {
		m[fmt.Sprintf("%s.New%d", sha3Pkg, k.b)] = hashNew(sha3Pkg, "state", fmt.Sprintf("sha3-%d", k.b), k.b/8, k.rate)
		m[fmt.Sprintf("%s.Sum%d", sha3Pkg, k.b)] = hashSumN(fmt.Sprintf("sha3-%d", k.b), k.b/8)
	}
	m[sha3Pkg+".NewShake128"] = hashNew(sha3Pkg, "state", "shake128", 32, 168)
	m[sha3Pkg+".NewShake256"] = hashNew(sha3Pkg, "state", "shake256", 64, 136)
	m[sha3Pkg+".NewCShake128"] = newCShake(128)
	m[sha3Pkg+".NewCShake256"] = newCShake(256)
	m[sha3Pkg+".ShakeSum128"] = shakeSum("shake128")
	m[sha3Pkg+".ShakeSum256"] = shakeSum("shake256")
	b2 := "github.com/dchest/blake2b"
	m[b2+".New"] = blake2bNew
	m[b2+".New256"] = hashNew(b2, "digest", "blake2b-32", 32, 128)
	m[b2+".New512"] = hashNew(b2, "digest", "blake2b-64", 64, 128)
	m[b2+".Sum256"] = hashSumN("blake2b-32", 32)
	m[b2+".Sum512"] = hashSumN("blake2b-64", 64)

	// big integers
	bi := "(*math/big.Int)."
	T := func(c *mcall) *Terms { return c.in.T }
	m[bi+"Set"] = bigOp(func(c *mcall, a []*Term) *Term { return a[0] })
	m[bi+"SetUint64"] = m[bi+"Set"]
	m[bi+"SetInt64"] = m[bi+"Set"]
	arith := func(f func(t *Terms, a, b *Term) *Term, g func(z, x, y *big.Int) *big.Int) modelFn {
		return bigOp(func(c *mcall, a []*Term) *Term {
			if x, y := a[0].bigVal(), a[1].bigVal(); x != nil && y != nil {
				if z := g(new(big.Int), x, y); z.Sign() >= 0 {
					return T(c).BigConst(z)
				}
			}
			return f(T(c), a[0], a[1])
		})
	}
	m[bi+"Add"] = arith((*Terms).Add, (*big.Int).Add)
	m[bi+"Sub"] = arith((*Terms).Sub, (*big.Int).Sub)
	m[bi+"Mul"] = arith((*Terms).Mul, (*big.Int).Mul)
	bitw := func(f func(t *Terms, a, b *Term) *Term, name string) modelFn {
		return bigOp(func(c *mcall, a []*Term) *Term {
			if c.nonneg(a...) {
				return f(T(c), a[0], a[1])
			}
			return T(c).App("big"+name, ivTop, a...)
		})
	}
	m[bi+"And"] = bitw((*Terms).And, "and")
	m[bi+"Or"] = bitw((*Terms).Or, "or")
	m[bi+"Xor"] = bitw((*Terms).Xor, "xor")
	sh := func(left bool) modelFn {
		return bigOp(func(c *mcall, a []*Term) *Term {
			t := T(c)
			k, ok := t.sv(c.st, a[1]).constVal()
			if ok && c.nonneg(a[0]) && k.le(ni(1<<14)) {
				if left {
					return t.ShlC(a[0], int(k.i64()))
				}
				return t.ShrC(a[0], int(k.i64()))
			}
			iv := ivTop
			if c.nonneg(a[0]) {
				iv = Iv{n0, nInf}
			}
			if left {
				return t.App("bigshl", iv, a...)
			}
			return t.App("bigshr", iv, a...)
		})
	}
	m[bi+"Lsh"] = sh(true)
	m[bi+"Rsh"] = sh(false)
	divm := func(mod bool) modelFn {
		return bigOp(func(c *mcall, a []*Term) *Term {
			t := T(c)
			if !c.in.require(c.st, "div0", t.Not(t.EQ0(a[1])), "big.Int division by zero") {
				return nil
			}
			if c.nonneg(a...) {
				if mod {
					return t.Mod(a[0], a[1])
				}
				return t.Div(a[0], a[1], true)
			}
			return t.App(fmt.Sprintf("bigdiv%v", mod), ivTop, a...)
		})
	}
	m[bi+"Mod"], m[bi+"Rem"] = divm(true), divm(true)
	m[bi+"Div"], m[bi+"Quo"] = divm(false), divm(false)
	m["bytes.Equal"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.args[0].(*SliceV)
		b, ok2 := c.args[1].(*SliceV)
		t := c.in.T
		if c.in.gt == nil || !ok1 || !ok2 {
			return nil, false
		}
		if d := t.EQ(a.len, b.len); d.isFalse() {
			return c.one(t.zero)
		} else if !d.isTrue() {
			return nil, false
		}
		et := types.Typ[types.Byte]
		x, ok1 := c.in.sliceElems(c.st, a, et, 4096)
		y, ok2 := c.in.sliceElems(c.st, b, et, 4096)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := t.one
		for i := len(x) - 1; i >= 0; i-- {
			p, ok1 := x[i].(*Term)
			q, ok2 := y[i].(*Term)
			if !ok1 || !ok2 {
				return nil, false
			}
			r = t.Ite(t.EQ(p, q), r, t.zero)
		}
		return c.one(r)
	}
	m["math/big.NewInt"] = func(c *mcall) ([]Outcome, bool) {
		bt := c.in.typeOf("math/big", "Int")
		p := c.in.alloc(c.st, c.fr.ctx, c.site, "big", bt, c.in.zero(bt))
		c2 := *c
		if !c2.bigSet(p, c.args[0].(*Term)) {
			return nil, false
		}
		return c.one(p)
	}
	m[bi+"SetBytes"] = func(c *mcall) ([]Outcome, bool) {
		if !c.bigSet(c.args[0], bytesToTerm(c.in, c.bytes(c.args[1]), true)) {
			return nil, false
		}
		return c.one(c.args[0])
	}
	m[bi+"Cmp"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.bigGet(c.args[0])
		b, ok2 := c.bigGet(c.args[1])
		if !ok1 || !ok2 {
			return nil, true
		}
		t := T(c)
		// equal ↔ 0
		return c.one(t.Ite(t.EQ(a, b), t.zero, t.Ite(t.LT(a, b), t.Int(-1), t.one)))
	}
	m[bi+"Sign"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		t := T(c)
		return c.one(t.Ite(t.EQ0(a), t.zero, t.Ite(t.LT(a, t.zero), t.Int(-1), t.one)))
	}
	m[bi+"Uint64"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		if c.nonneg(a) {
			return c.one(T(c).Trunc(a, 64))
		}
		return c.one(T(c).App("bigu64", typeIv(64, false), a))
	}
	m[bi+"IsUint64"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		t := T(c)
		return c.one(t.And(t.LE(t.zero, a), t.LT(a, t.Const(pow2(64)))))
	}
	m[bi+"BitLen"] = func(c *mcall) ([]Outcome, bool) {
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		hi := ni(1 << 30)
		if w := a.width(); w > 0 {
			hi = ni(int64(w))
		}
		return c.one(T(c).App("bitlen", Iv{n0, hi}, a))
	}
	m[bi+"Bytes"] = func(c *mcall) ([]Outcome, bool) {
		t := T(c)
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		hi := ni(1 << 20)
		if w := a.width(); w > 0 {
			hi = ni(int64(w+7) / 8)
		} else if iv := t.rng(c.st, a); iv.hi.finite() && iv.lo.sign() >= 0 {
			hi = ni(int64(iv.hi.bitLen()+7) / 8)
		}
		if k, ok := a.constVal(); ok {
			bb := k.big().Bytes()
			var bs []*Term
			for _, x := range bb {
				bs = append(bs, t.Int(int64(x)))
			}
			return c.one(c.tmp("bigb", bs))
		}
		n := t.App("biglen", Iv{n0, hi}, a)
		b := &BlobC{size: n, dep: a.dep, tag: t.App("bigbytes", ivTop, a)}
		p := c.in.alloc(c.st, c.fr.ctx, c.site, "bigbytes", types.NewSlice(byteT), b)
		return c.one(&SliceV{alts: []SAlt{{loc: p.alts[0], off: t.zero, esz: 1}}, len: n, cap: n})
	}
	m[bi+"FillBytes"] = func(c *mcall) ([]Outcome, bool) {
		t := T(c)
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		dst := c.args[1].(*SliceV)
		k, ok := t.sv(c.st, dst.len).constVal()
		if !ok || !k.le(ni(1<<12)) || !c.nonneg(a) {
			return nil, false
		}
		n := int(k.i64())
		if w := a.width(); w == 0 || w > 8*n {
			if iv := t.rng(c.st, a); !iv.hi.finite() || iv.hi.bitLen() > 8*n {
				c.in.oblig("panic", false, "FillBytes: value may not fit")
			}
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[n-1-i] = t.Ext(a, 8*i, 8)
		}
		c.put(dst, bs)
		return c.one(dst)
	}
	m[bi+"ProbablyPrime"] = func(c *mcall) ([]Outcome, bool) {
		t := T(c)
		a, ok1 := c.bigGet(c.args[0])
		if !ok1 {
			return nil, true
		}
		a = t.sv(c.st, a)
		n := t.sv(c.st, c.args[1].(*Term))
		if !c.in.require(c.st, "panic", t.LE(t.zero, n), "ProbablyPrime needs a nonnegative round count") {
			return nil, true
		}
		if k, ok := a.constVal(); ok {
			return c.one(t.Bool(primeBig(k.big())))
		}
		return c.one(t.App("prime", Iv{n0, n1}, a))
	}

	modelsSys(m)
	modelsText(m)
}

func primeBig(b *big.Int) bool {
	if b.BitLen() > 64 {
		return b.ProbablyPrime(20)
	}
	return b.ProbablyPrime(0) // exact below 2^64
}

func bitsModels(m map[string]modelFn) {
	fn := func(name string, w int, f func(t *Terms, x *Term, n *Term) *Term, k func(x *big.Int) int) {
		m["math/bits."+name] = func(c *mcall) ([]Outcome, bool) {
			x, ok := c.args[0].(*Term)
			if !ok {
				return nil, false
			}
			if v, ok := c.in.T.sv(c.st, x).constVal(); ok {
				return c.one(c.in.T.Int(int64(k(v.big()))))
			}
			return c.one(f(c.in.T, x, c.in.T.Int(int64(w))))
		}
	}
	for _, s := range []struct {
		n string
		w int
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}, {"", 64}} {
		iv := Iv{n0, ni(int64(s.w))}
		fn("Len"+s.n, s.w, func(t *Terms, x, n *Term) *Term { return t.App("bitslen", iv, x) }, (*big.Int).BitLen)
		w := s.w
		fn("LeadingZeros"+s.n, s.w, func(t *Terms, x, n *Term) *Term { return t.Sub(n, t.App("bitslen", iv, x)) }, func(x *big.Int) int { return w - x.BitLen() })
		fn("TrailingZeros"+s.n, s.w, func(t *Terms, x, n *Term) *Term { return t.App("ctz", iv, x, n) }, func(x *big.Int) int {
			if x.Sign() == 0 {
				return w
			}
			return int(x.TrailingZeroBits())
		})
		fn("OnesCount"+s.n, s.w, func(t *Terms, x, n *Term) *Term { return t.App("popcount", iv, x) }, func(x *big.Int) int {
			n := 0
			for _, b := range x.Bits() {
				n += bits.OnesCount(uint(b))
			}
			return n
		})
	}
}

/* dispatch */

func (in *Interp) model(st *State, fr *Frame, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if fn.Pkg != nil && in.inRepo(fn.Pkg.Pkg.Path()) {
		if f := models[name]; f != nil {
			return f(&mcall{in, st, fr, fn, args, site})
		}
		if in.euclid(fn) {
			return in.gcdModel(st, args), true
		}
		return nil, false
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return []Outcome{{st, nil}}, true
	}
	c := &mcall{in, st, fr, fn, args, site}
	if f := models[name]; f != nil {
		if out, ok := f(c); ok {
			in.modelHits[name] = true
			return out, true
		}
		if name == "bytes.Equal" {
			return nil, false
		}
		in.unsupported("call of " + name + " with unrecognised arguments")
		return in.havocCall(st, fr, fn, args, site), true
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 && (pkg == "" || in.inRepo(pkg) || pkg == sha3Pkg || pkg == "github.com/dchest/blake2b") {
		return nil, false // wrappers and bound methods
	}
	switch pkg {
	case "encoding/binary", "math/bits", "bytes", "sort", "slices", "maps", "cmp", "hash", "internal/byteorder", "unicode/utf8", "encoding/hex", "strings", "internal/bytealg", "crypto/subtle", "crypto/internal/fips140/subtle":
		if len(fn.Blocks) > 0 && pkg != "strings" {
			return nil, false
		}
	}
	lab := ""
	switch {
	case pkg == "time":
		if fn.Signature.Recv() == nil {
			switch fn.Name() {
			case "Now", "Since", "Until", "After", "Tick", "NewTimer":
				lab = "time"
			}
		}
	case strings.HasPrefix(pkg, "math/rand"), pkg == "crypto/rand":
		lab = "rand"
	case pkg == "os" || pkg == "os/user" || pkg == "syscall" || pkg == "runtime" || pkg == "net":
		lab = "env"
	case pkg == "math" || pkg == "strconv" || pkg == "strings" || pkg == "unicode" || pkg == "path/filepath" || pkg == "path" || pkg == "errors":
	default:
		in.emit(Event{kind: "external", ok: true, msg: name})
		in.unsupported("no model for " + name)
		return in.havocCall(st, fr, fn, args, site), true
	}
	d := in.T.deps.empty
	if lab != "" {
		d = in.T.deps.label(lab)
	}
	for _, a := range args {
		d = in.T.deps.or(d, in.deepDep(st, a))
	}
	in.modelHits[pkg+" (pure result)"] = true
	rs := fn.Signature.Results()
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		res = append(res, in.havoc(rs.At(i).Type(), fmt.Sprintf("x:%s.%s.%d", fn.Name(), in.siteName(fr, site), i), d))
	}
	return []Outcome{{st, res}}, true
}

func (in *Interp) invokeUnknown(st *State, fr *Frame, iv *IfaceV, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	if in.onInvoke != nil {
		if out, ok := in.onInvoke(st, fr, iv, m, args, site); ok {
			return out
		}
	}
	sig := m.Type().(*types.Signature)
	if m.Name() == "Error" && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		return []Outcome{{st, []Val{&StrV{parts: []StrPart{{t: in.T.Leaf(in.uniq("errs"), ivTop, nil), how: "str"}}, dep: in.T.deps.empty}}}}
	}
	// encoding/binary.ByteOrder variables that are not constants of the program
	in.unsupported("method " + m.Name() + " of an unknown dynamic type")
	return in.havocSig(st, fr, sig, args, site, m.Name())
}

func (in *Interp) tsConflict(id int, x, y int8) {
	in.emit(Event{kind: "tsconflict", ok: true, msg: fmt.Sprintf("%d: %d/%d", id, x, y)})
}

/* recursion and Euclid's algorithm */

// euclid recognises f(a, b) computing the greatest common divisor by repeated
// remainders, written recursively or as a loop: the only arithmetic is %, the
// only comparisons are against zero, and every returned value is a parameter,
// a phi of the same kind, or the result of the recursive call.
func (in *Interp) euclid(fn *ssa.Function) bool {
	if r, ok := in.euclidMemo[fn]; ok {
		return r == 1
	}
	in.euclidMemo[fn] = 0
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 || len(fn.FreeVars) > 0 {
		return false
	}
	for i := 0; i < 2; i++ {
		if _, signed, ok := in.intInfo(sig.Params().At(i).Type()); !ok || signed {
			return false
		}
	}
	rems, calls, loops := 0, 0, 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op.String() {
				case "%":
					rems++
					// a % b where the result replaces b and b replaces a
				case "==", "!=", ">":
					k, ok := x.Y.(*ssa.Const)
					if !ok || k.Uint64() != 0 {
						return false
					}
				default:
					return false
				}
			case *ssa.Call:
				if x.Call.StaticCallee() != fn {
					return false
				}
				calls++
				// f(b, a%b)
				rem, ok := x.Call.Args[1].(*ssa.BinOp)
				if !ok || rem.Op.String() != "%" || rem.X != ssa.Value(fn.Params[0]) || rem.Y != ssa.Value(fn.Params[1]) || x.Call.Args[0] != ssa.Value(fn.Params[1]) {
					return false
				}
			case *ssa.Phi:
				loops++
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	if rems != 1 {
		return false
	}
	if calls == 1 && loops == 0 {
		// b == 0 must return a
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if _, isCall := r.Results[0].(*ssa.Call); !isCall && r.Results[0] != ssa.Value(fn.Params[0]) {
					return false
				}
			}
		}
		in.euclidMemo[fn] = 1
		return true
	}
	if calls == 0 && loops == 2 {
		var a, b *ssa.Phi
		var ret ssa.Value
		for _, bl := range fn.Blocks {
			for _, ins := range bl.Instrs {
				switch x := ins.(type) {
				case *ssa.Return:
					ret = x.Results[0]
				}
			}
		}
		a, _ = ret.(*ssa.Phi)
		if a == nil {
			return false
		}
		for _, ins := range a.Block().Instrs {
			if p, ok := ins.(*ssa.Phi); ok && p != a {
				b = p
			}
		}
		if b == nil || len(a.Edges) != 2 || len(b.Edges) != 2 {
			return false
		}
		for i := 0; i < 2; i++ {
			j := 1 - i
			if a.Edges[i] == ssa.Value(fn.Params[0]) && b.Edges[i] == ssa.Value(fn.Params[1]) && a.Edges[j] == ssa.Value(b) {
				if rem, ok := b.Edges[j].(*ssa.BinOp); ok && rem.Op.String() == "%" && rem.X == ssa.Value(a) && rem.Y == ssa.Value(b) {
					in.euclidMemo[fn] = 1
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) gcdModel(st *State, args []Val) []Outcome {
	T := in.T
	a, b := args[0].(*Term), args[1].(*Term)
	ra, rb := T.rng(st, a), T.rng(st, b)
	lo := n0
	hi := nmax(ra.hi, rb.hi)
	if n0.lt(ra.lo) {
		lo, hi = n1, ra.hi
	}
	if n0.lt(rb.lo) {
		lo = n1
		if n0.lt(ra.lo) {
			hi = nmin(hi, rb.hi)
		}
	}
	if ka, ok := T.sv(st, a).constVal(); ok {
		if kb, ok := T.sv(st, b).constVal(); ok && (ka.sign() != 0 || kb.sign() != 0) {
			return []Outcome{{st, []Val{T.BigConst(new(big.Int).GCD(nil, nil, ka.big(), kb.big()))}}}
		}
	}
	g := T.App("gcd", Iv{lo, hi}, a, b)
	if n0.lt(ra.lo) {
		T.assume(st, T.LE(g, a), true)
	}
	return []Outcome{{st, []Val{g}}}
}

// recurse handles a call of a function that is already active: the arguments
// are generalised to their types until they repeat, then the result is unknown.
func (in *Interp) recurse(st *State, fr *Frame, fn *ssa.Function, args, binds []Val, site ssa.Instruction, n int) ([]Outcome, bool) {
	in.emit(Event{kind: "recursion", ok: true, fn: fn, msg: fn.String()})
	if n < 40 {
		// unroll while some argument is a constant that drives the recursion
		for _, a := range args {
			if t, ok := a.(*Term); ok && t.isConst() {
				return nil, false
			}
			if s, ok := a.(*SliceV); ok && in.T.sv(st, s.len).isConst() {
				return nil, false
			}
		}
	}
	if n < 2 {
		return nil, false
	}
	in.emit(Event{kind: "recursion", ok: false, fn: fn, msg: fn.String() + " recurses without a bound that is known"})
	return in.havocCall(st, fr, fn, args, site), true
}
