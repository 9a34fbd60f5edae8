package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assembly functions: the assembler's own listing (macros expanded, jump
// targets resolved) is interpreted over the same abstract memory as the SSA
// code. Registers hold abstract bytes or a pointer (object, byte offset);
// control must depend on constants only, anything else is undecided.

type asmIns struct {
	pc   int64
	pos  string
	op   string
	args []string
}

type asmFn struct {
	name string
	ins  []asmIns
	at   map[int64]int
}

var asmLine = regexp.MustCompile(`^\t0x[0-9a-f]+ (\d+) \(([^)]*)\)\t(\S+)(?:\t(.*))?$`)
var asmText = regexp.MustCompile(`^(?:x\.)?(\S+) STEXT `)

// assemble lists the functions of an assembly file.
func assemble(goroot, file, goarch, goos string) (map[string]*asmFn, error) {
	dir, err := os.MkdirTemp("", "asm")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command("go", "tool", "asm", "-p", "x", "-S", "-I", filepath.Join(goroot, "pkg", "include"), "-D", "GOOS_"+goos, "-D", "GOARCH_"+goarch, "-o", filepath.Join(dir, "x.o"), file)
	cmd.Dir = filepath.Dir(file)
	cmd.Env = append(os.Environ(), "GOARCH="+goarch, "GOOS="+goos, "GOTOOLCHAIN=local")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, se.String())
	}
	fns := map[string]*asmFn{}
	var cur *asmFn
	for _, l := range strings.Split(string(out), "\n") {
		if m := asmText.FindStringSubmatch(l); m != nil {
			cur = &asmFn{name: m[1], at: map[int64]int{}}
			fns[m[1]] = cur
			continue
		}
		m := asmLine.FindStringSubmatch(l)
		if m == nil || cur == nil {
			continue
		}
		pc, _ := strconv.ParseInt(m[1], 10, 64)
		switch m[3] {
		case "TEXT", "FUNCDATA", "PCDATA", "PCALIGN":
			continue
		}
		if _, ok := cur.at[pc]; !ok {
			cur.at[pc] = len(cur.ins)
		}
		cur.ins = append(cur.ins, asmIns{pc, m[2], m[3], splitArgs(m[4])})
	}
	return fns, nil
}

func splitArgs(s string) []string {
	var out []string
	d, j := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[j:i]))
				j = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[j:]); t != "" {
		out = append(out, t)
	}
	return out
}

// aval is a register: bytes, or a pointer.
type aval struct {
	b []*Term
	p *asmPtr
}

type asmPtr struct {
	kind byte // 'o' object, 's' stack
	loc  Loc  // of the array or block of bytes
	off  int64
}

func (p *asmPtr) same(q *asmPtr) bool {
	return p.kind == q.kind && p.off == q.off && p.loc.eq(q.loc)
}

type asmStop struct{ msg string }

type asmCtx struct {
	in   *Interp
	st   *State
	fr   *Frame
	fn   *ssa.Function
	f    *asmFn
	arch string
	regs map[string]aval // "AX" 8 bytes, "X0" 16/32 bytes
	stk  map[int64]*Term // stack bytes by offset from the entry stack pointer
	stkP map[int64]aval  // pointers stored on the stack
	arg0 int64           // offset of the arguments
	argN int64
	// flags: the comparison value, when known
	fz, fs, fc, fv bool
	fok            bool
	cur            asmIns
	bad            bool
}

func (c *asmCtx) stop(f string, a ...interface{}) {
	panic(asmStop{fmt.Sprintf(f, a...)})
}

// runAsm interprets fn's assembly body.
func (in *Interp) runAsm(st *State, fr *Frame, fn *ssa.Function, f *asmFn, arch string, args []Val) (res []Val, err string) {
	c := &asmCtx{in: in, st: st, fr: fr, fn: fn, f: f, arch: arch, regs: map[string]aval{}, stk: map[int64]*Term{}, stkP: map[int64]aval{}}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(asmStop); ok {
				err = fmt.Sprintf("%s: %s %s: %s", c.cur.pos, c.cur.op, strings.Join(c.cur.args, ", "), s.msg)
				return
			}
			panic(r)
		}
	}()
	c.arg0 = 8
	off := c.arg0
	put := func(v aval, n int64) {
		off = (off + n - 1) / n * n
		c.stkPut(off, v)
		off += n
	}
	word := func(t *Term) aval { return aval{b: c.bytesOf(t, 8)} }
	ptr := func(a Loc, idx *Term, esz int) aval {
		k, ok := in.T.sv(st, idx).constVal()
		if !ok {
			c.stop("pointer at an offset that is not constant")
		}
		if esz == 0 {
			esz = 1
		}
		return aval{p: &asmPtr{'o', a, k.i64() * int64(esz)}}
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		switch x := args[i].(type) {
		case *Term:
			w, _, _ := in.intInfo(fn.Signature.Params().At(i).Type())
			put(aval{b: c.bytesOf(x, w/8)}, int64(w/8))
		case *PtrV:
			if x.top || len(x.alts) != 1 {
				c.stop("pointer argument is not a single location")
			}
			l := x.alts[0]
			k := len(l.path) - 1
			if k < 0 || l.path[k].f >= 0 {
				c.stop("pointer argument is not an element")
			}
			put(ptr(Loc{obj: l.obj, path: l.path[:k]}, l.path[k].idx, l.path[k].esz), 8)
		case *SliceV:
			if x.top || len(x.alts) != 1 {
				c.stop("slice argument is not a single location")
			}
			put(ptr(x.alts[0].loc, x.alts[0].off, x.alts[0].esz), 8)
			put(word(x.len), 8)
			put(word(x.cap), 8)
		default:
			c.stop("argument of kind %T", x)
		}
	}
	off = (off + 7) / 8 * 8
	type rslot struct{ off, n int64 }
	var rs []rslot
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		w, _, ok := in.intInfo(fn.Signature.Results().At(i).Type())
		if !ok {
			c.stop("result type")
		}
		n := int64(w / 8)
		off = (off + n - 1) / n * n
		rs = append(rs, rslot{off, n})
		off += n
	}
	c.argN = off
	sp := "SP"
	if arch == "arm64" {
		sp = "RSP"
	}
	c.regs[sp] = aval{p: &asmPtr{kind: 's', off: 0}}
	c.exec()
	if v, ok := c.regs[sp]; !ok || v.p == nil || v.p.kind != 's' || v.p.off != 0 {
		c.violate("the stack pointer is not restored")
	}
	for i, r := range rs {
		w, sg, _ := in.intInfo(fn.Signature.Results().At(i).Type())
		b := c.stkGet(r.off, r.n)
		if b.p != nil {
			c.stop("pointer result")
		}
		t := c.termOf(b.b)
		if sg {
			t = in.T.Sext(t, w)
		}
		res = append(res, t)
	}
	return res, ""
}

func (c *asmCtx) violate(msg string) {
	c.bad = true
	c.in.emit(Event{kind: "mem", ok: false, msg: fmt.Sprintf("%s at %s (%s %s): %s", c.fn.Name(), filepath.Base(c.cur.pos), c.cur.op, strings.Join(c.cur.args, ", "), msg)})
}

// bytesOf splits an integer term into n bytes (little endian).
func (c *asmCtx) bytesOf(t *Term, n int) []*Term {
	T := c.in.T
	out := make([]*Term, n)
	if k, ok := T.sv(c.st, t).constVal(); ok {
		u := k.u64()
		for i := range out {
			out[i] = T.Int(int64(u >> uint(8*i) & 0xff))
		}
		return out
	}
	for i := range out {
		out[i] = T.And(T.ShrC(t, 8*i), T.Int(255))
	}
	return out
}

func (c *asmCtx) termOf(b []*Term) *Term {
	T := c.in.T
	if k, ok := constBytes(b); ok && len(b) <= 8 {
		return T.Const(nu(k))
	}
	var segs []Seg
	for _, x := range b {
		segs = append(segs, T.padSegs(x, 8)...)
	}
	return T.Wire(segs)
}

func constBytes(b []*Term) (uint64, bool) {
	var u uint64
	for i, x := range b {
		k, ok := x.constVal()
		if !ok || i >= 8 {
			return 0, false
		}
		u |= k.u64() << uint(8*i)
	}
	return u, true
}

/* memory */

func (c *asmCtx) stkPut(off int64, v aval) {
	if v.p != nil {
		c.stkP[off] = v
		for i := int64(0); i < 8; i++ {
			delete(c.stk, off+i)
		}
		return
	}
	for i, x := range v.b {
		c.stk[off+int64(i)] = x
		for j := off + int64(i) - 7; j <= off+int64(i); j++ {
			delete(c.stkP, j)
		}
	}
}

func (c *asmCtx) stkGet(off, n int64) aval {
	if v, ok := c.stkP[off]; ok && n == 8 {
		return v
	}
	var b []*Term
	for i := int64(0); i < n; i++ {
		x := c.stk[off+i]
		if x == nil {
			x = c.in.T.Leaf(c.in.uniq("stk"), typeIv(8, false), nil)
			c.stk[off+i] = x
		}
		b = append(b, x)
	}
	return aval{b: b}
}

func (c *asmCtx) size(p *asmPtr) int64 {
	o := c.st.obj(p.loc.obj)
	if o == nil {
		c.stop("missing object")
	}
	switch x := c.in.contentAt(c.st, o, p.loc.path).(type) {
	case *BlobC:
		if k, ok := c.in.T.sv(c.st, x.size).constVal(); ok {
			return k.i64()
		}
	case *ArrC:
		if k, ok := c.in.T.sv(c.st, x.n).constVal(); ok && c.in.arrEsz(x) == 1 {
			return k.i64()
		}
	}
	c.stop("access to memory whose size is not known or whose elements are not bytes")
	return 0
}

func (c *asmCtx) elem(p *asmPtr, i int64) *PtrV {
	return &PtrV{alts: []Loc{p.loc.ext(PE{-1, c.in.T.Int(p.off + i), 1})}}
}

func (c *asmCtx) load(p *asmPtr, n int64) aval {
	if p.kind == 's' {
		return c.stkGet(p.off, n)
	}
	if p.off < 0 || p.off+n > c.size(p) {
		c.violate(fmt.Sprintf("reads bytes %d to %d of a block of %d bytes", p.off, p.off+n, c.size(p)))
		b := make([]*Term, n)
		for i := range b {
			b[i] = c.in.T.Leaf(c.in.uniq("oob"), typeIv(8, false), nil)
		}
		return aval{b: b}
	}
	b := make([]*Term, n)
	for i := range b {
		v, ok := c.in.loadPtr(c.st, c.elem(p, int64(i)), byteT).(*Term)
		if !ok {
			c.stop("load")
		}
		b[i] = v
	}
	return aval{b: b}
}

func (c *asmCtx) store(p *asmPtr, v aval) {
	if p.kind == 's' {
		n := int64(8)
		if v.p == nil {
			n = int64(len(v.b))
		}
		if p.off+n > 0 && p.off < c.arg0 {
			c.violate("overwrites the return address")
		}
		if p.off+n > c.argN {
			c.violate("writes the caller's frame")
		}
		c.stkPut(p.off, v)
		return
	}
	if v.p != nil {
		c.stop("pointer stored to memory")
	}
	n := int64(len(v.b))
	if p.off < 0 || p.off+n > c.size(p) {
		c.violate(fmt.Sprintf("writes bytes %d to %d of a block of %d bytes", p.off, p.off+n, c.size(p)))
		return
	}
	for i, x := range v.b {
		c.in.storePtr(c.st, c.elem(p, int64(i)), x)
	}
}

/* operands */

var memArg = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_·.]*)?([+-]?\d+)?\((\w+)\)(?:\((\w+)\*(\d+)\))?$`)

func parseImm(s string) (int64, bool) {
	if !strings.HasPrefix(s, "$") {
		return 0, false
	}
	k, err := strconv.ParseInt(s[1:], 0, 64)
	if err != nil {
		u, err := strconv.ParseUint(s[1:], 0, 64)
		if err != nil {
			return 0, false
		}
		k = int64(u)
	}
	return k, true
}

// addr resolves a memory operand; the displacement and base register for write-back.
func (c *asmCtx) addr(s string) (p *asmPtr, disp int64, base string, ok bool) {
	m := memArg.FindStringSubmatch(s)
	if m == nil {
		return nil, 0, "", false
	}
	if m[2] != "" {
		disp, _ = strconv.ParseInt(m[2], 10, 64)
	}
	base = m[3]
	sym := m[1]
	switch {
	case base == "FP" && c.arch == "arm64":
		return &asmPtr{kind: 's', off: c.arg0 + disp}, disp, base, true
	case base == "FP":
		// listed relative to the current stack pointer
		sp := c.reg("SP")
		if sp.p == nil {
			c.stop("stack pointer")
		}
		return &asmPtr{kind: 's', off: sp.p.off + disp}, disp, base, true
	case base == "SB" || sym != "" && base != "SP" && base != "RSP":
		c.stop("static data")
	}
	b := c.reg(base)
	var q asmPtr
	idx := int64(0)
	if m[4] != "" {
		i := c.reg(m[4])
		sc, _ := strconv.ParseInt(m[5], 10, 64)
		if i.p != nil && b.p == nil && sc == 1 {
			i, b = b, i
		}
		k, isK := constBytes(i.b)
		if i.p != nil || !isK {
			c.stop("index register is not constant")
		}
		idx = int64(k) * sc
	}
	if b.p == nil {
		if _, isK := constBytes(b.b); isK {
			c.violate("address is not derived from an argument")
		}
		c.stop("address is not a pointer")
	}
	q = *b.p
	q.off += disp + idx
	return &q, disp, base, true
}

/* registers */

var amdByte = map[string]string{"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX", "SIB": "SI", "DIB": "DI", "BPB": "BP", "SPB": "SP"}

func (c *asmCtx) canon(r string) string {
	if c.arch == "amd64" {
		if k, ok := amdByte[r]; ok {
			return k
		}
		if len(r) > 2 && r[0] == 'R' && r[len(r)-1] == 'B' {
			return r[:len(r)-1]
		}
		if len(r) > 1 && r[0] == 'Y' {
			return "X" + r[1:]
		}
		switch r {
		case "AH", "BH", "CH", "DH":
			c.stop("high byte register")
		}
		return r
	}
	if len(r) > 1 && r[0] == 'F' {
		return "V" + r[1:]
	}
	if i := strings.IndexByte(r, '.'); i > 0 {
		return r[:i]
	}
	return r
}

var amdReg = regexp.MustCompile(`^(AX|BX|CX|DX|SI|DI|BP|SP|R\d+|[XY]\d+|AL|BL|CL|DL|SIB|DIB|BPB|R\d+B)$`)
var armReg = regexp.MustCompile(`^(R\d+|RSP|ZR|[VF]\d+(\.\w+)?|g)$`)

func (c *asmCtx) isReg(s string) bool {
	if c.arch == "amd64" {
		return amdReg.MatchString(s)
	}
	return armReg.MatchString(s)
}

func isVec(r string) bool { return len(r) > 1 && (r[0] == 'X' || r[0] == 'V') }

func (c *asmCtx) reg(r string) aval {
	if c.arch == "arm64" && r == "ZR" {
		return c.konst(0, 8)
	}
	r = c.canon(r)
	v, ok := c.regs[r]
	if !ok {
		n := 8
		if isVec(r) {
			n = 32
		}
		b := make([]*Term, n)
		for i := range b {
			b[i] = c.in.T.Leaf(c.in.uniq("reg"+r), typeIv(8, false), nil)
		}
		v = aval{b: b}
		c.regs[r] = v
	}
	return v
}

func (c *asmCtx) konst(k int64, n int) aval {
	b := make([]*Term, n)
	for i := range b {
		x := int64(0)
		if i < 8 {
			x = k >> uint(8*i) & 0xff
		} else if k < 0 {
			x = 0xff
		}
		b[i] = c.in.T.Int(x)
	}
	return aval{b: b}
}

// setReg writes n bytes; the rest is cleared or kept.
func (c *asmCtx) setReg(r string, v aval, n int) {
	if c.arch == "arm64" {
		switch r {
		case "ZR":
			return
		case "g", "R28", "R29", "R30", "R18":
			c.stop("writes a reserved register")
		}
	}
	r = c.canon(r)
	if c.arch == "amd64" && (r == "BP" || r == "R14" && false) {
		c.stop("writes the frame pointer")
	}
	if v.p != nil {
		c.regs[r] = v
		return
	}
	old := c.reg(r)
	full := 8
	if isVec(r) {
		full = 32
	}
	b := make([]*Term, full)
	for i := range b {
		switch {
		case i < n:
			b[i] = v.b[i]
		case isVec(r) && c.arch == "amd64" || c.arch == "amd64" && n < 4:
			if old.p != nil {
				c.stop("partial write of a pointer")
			}
			b[i] = old.b[i]
		default:
			b[i] = c.in.T.zero
		}
	}
	c.regs[r] = aval{b: b}
}

// get evaluates an operand to n bytes (or a pointer when n is 8).
func (c *asmCtx) get(s string, n int) aval {
	if k, ok := parseImm(s); ok {
		return c.konst(k, n)
	}
	if c.isReg(s) {
		v := c.reg(s)
		if v.p != nil {
			if n != 8 {
				c.stop("part of a pointer")
			}
			return v
		}
		return aval{b: v.b[:n]}
	}
	if p, _, _, ok := c.addr(s); ok {
		return c.load(p, int64(n))
	}
	c.stop("operand %s", s)
	return aval{}
}

func (c *asmCtx) put(s string, v aval, n int) {
	if c.isReg(s) {
		c.setReg(s, v, n)
		return
	}
	if p, _, _, ok := c.addr(s); ok {
		if v.p == nil {
			v.b = v.b[:n]
		}
		c.store(p, v)
		return
	}
	c.stop("operand %s", s)
}

func (c *asmCtx) jump(s string) int {
	pc, err := strconv.ParseInt(s, 10, 64)
	i, ok := c.f.at[pc]
	if err != nil || !ok {
		c.stop("jump target %s", s)
	}
	return i
}

/* arithmetic */

func (c *asmCtx) xorBytes(a, b []*Term) []*Term {
	out := make([]*Term, len(a))
	for i := range a {
		out[i] = c.in.T.Xor(a[i], b[i])
	}
	return out
}

// flags of the subtraction a - b of n bytes
func (c *asmCtx) subFlags(a, b uint64, n int) {
	m := ^uint64(0) >> uint(64-8*n)
	sb := uint(8*n - 1)
	a, b = a&m, b&m
	r := (a - b) & m
	c.fz = r == 0
	c.fs = r>>sb&1 == 1
	c.fc = a < b // borrow
	c.fv = ((a^b)&(a^r))>>sb&1 == 1
	c.fok = true
}

func (c *asmCtx) addFlags(a, b uint64, n int) {
	m := ^uint64(0) >> uint(64-8*n)
	sb := uint(8*n - 1)
	a, b = a&m, b&m
	r := (a + b) & m
	c.fz = r == 0
	c.fs = r>>sb&1 == 1
	c.fc = r < a
	c.fv = (^(a^b)&(a^r))>>sb&1 == 1
	c.fok = true
}

func (c *asmCtx) logicFlags(r uint64, n int) {
	m := ^uint64(0) >> uint(64-8*n)
	r &= m
	c.fz, c.fs, c.fc, c.fv, c.fok = r == 0, r>>uint(8*n-1)&1 == 1, false, false, true
}

// alu computes d op s; kinds of operands: constants, pointer +- constant, xor of bytes.
func (c *asmCtx) alu(op string, d, s aval, n int, flags bool) aval {
	if flags {
		c.fok = false
	}
	if d.p != nil || s.p != nil {
		switch {
		case op == "ADD" && d.p != nil && s.p == nil, op == "ADD" && d.p == nil && s.p != nil:
			if d.p == nil {
				d, s = s, d
			}
			k, ok := constBytes(s.b)
			if !ok {
				c.stop("pointer plus a value that is not constant")
			}
			q := *d.p
			q.off += int64(k)
			return aval{p: &q}
		case op == "SUB" && d.p != nil && s.p == nil:
			k, ok := constBytes(s.b)
			if !ok {
				c.stop("pointer minus a value that is not constant")
			}
			q := *d.p
			q.off -= int64(k)
			return aval{p: &q}
		case op == "SUB" && d.p != nil && s.p != nil && d.p.kind == s.p.kind && d.p.loc.eq(s.p.loc):
			if flags {
				// a < b as addresses: same block, so as offsets
				c.subFlags(uint64(d.p.off), uint64(s.p.off), 8)
				c.fc = d.p.off < s.p.off
			}
			return c.konst(d.p.off-s.p.off, 8)
		case op == "XOR" && d.p != nil && s.p != nil && d.p.same(s.p):
			return c.konst(0, 8)
		}
		c.stop("arithmetic on a pointer")
	}
	x, okx := constBytes(d.b)
	y, oky := constBytes(s.b)
	if okx && oky && n <= 8 {
		var r uint64
		switch op {
		case "ADD":
			r = x + y
			if flags {
				c.addFlags(x, y, n)
			}
		case "SUB":
			r = x - y
			if flags {
				c.subFlags(x, y, n)
			}
		case "AND", "OR", "XOR", "BIC":
			r = map[string]uint64{"AND": x & y, "OR": x | y, "XOR": x ^ y, "BIC": x &^ y}[op]
			if flags {
				c.logicFlags(r, n)
			}
		case "SHL", "SHR", "SAR":
			k := y & uint64(8*n-1)
			if n < 4 {
				k = y & 31
			}
			switch op {
			case "SHL":
				r = x << k
			case "SHR":
				r = x & (^uint64(0) >> uint(64-8*n)) >> k
			case "SAR":
				r = uint64(int64(x<<uint(64-8*n)) >> uint(64-8*n) >> k)
			}
			if flags && k != 0 {
				c.logicFlags(r, n)
				c.fok = false
			}
		default:
			c.stop("arithmetic")
		}
		return c.konst(int64(r), n)
	}
	switch op {
	case "XOR":
		return aval{b: c.xorBytes(d.b[:n], s.b[:n])}
	case "AND", "OR":
		out := make([]*Term, n)
		for i := range out {
			if op == "AND" {
				out[i] = c.in.T.And(d.b[i], s.b[i])
			} else {
				a, b := d.b[i], s.b[i]
				if k, ok := a.constVal(); ok && k.sign() == 0 {
					out[i] = b
				} else if k, ok := b.constVal(); ok && k.sign() == 0 {
					out[i] = a
				} else {
					c.stop("or of data")
				}
			}
		}
		return aval{b: out}
	case "SHL", "SHR":
		if oky && y%8 == 0 && y < uint64(8*n) {
			k := int(y / 8)
			out := make([]*Term, n)
			for i := range out {
				j := i - k
				if op == "SHR" {
					j = i + k
				}
				out[i] = c.in.T.zero
				if j >= 0 && j < n {
					out[i] = d.b[j]
				}
			}
			return aval{b: out}
		}
	}
	c.stop("arithmetic on data")
	return aval{}
}

func (c *asmCtx) cond(name string) bool {
	if !c.fok {
		c.stop("branch on a condition that is not constant")
	}
	switch name {
	case "EQ", "E", "Z":
		return c.fz
	case "NE", "NZ":
		return !c.fz
	case "LT":
		return c.fs != c.fv
	case "GE":
		return c.fs == c.fv
	case "LE":
		return c.fz || c.fs != c.fv
	case "GT":
		return !c.fz && c.fs == c.fv
	case "MI":
		return c.fs
	case "PL":
		return !c.fs
	case "CS", "LO": // carry = borrow
		return c.fc
	case "CC", "HS":
		return !c.fc
	case "LS":
		return c.fc || c.fz
	case "HI":
		return !c.fc && !c.fz
	case "OS", "VS":
		return c.fv
	case "OC", "VC":
		return !c.fv
	}
	c.stop("condition %s", name)
	return false
}

func (c *asmCtx) exec() {
	i := 0
	for steps := 0; ; steps++ {
		if i >= len(c.f.ins) {
			c.stop("runs past the end")
		}
		if steps > 2000000 {
			c.violate("does not terminate")
			return
		}
		c.in.steps++
		c.cur = c.f.ins[i]
		var next int
		var done bool
		if c.arch == "amd64" {
			next, done = c.amd64(i)
		} else {
			next, done = c.arm64(i)
		}
		if done || c.bad {
			return
		}
		i = next
	}
}

/* amd64 */

var amdALU = map[string]string{"ADD": "ADD", "SUB": "SUB", "AND": "AND", "OR": "OR", "XOR": "XOR", "SHL": "SHL", "SHR": "SHR", "SAR": "SAR", "SAL": "SHL"}
var widths = map[byte]int{'Q': 8, 'L': 4, 'W': 2, 'B': 1}

func (c *asmCtx) amd64(i int) (int, bool) {
	op, a := c.cur.op, c.cur.args
	next := i + 1
	need := func(n int) {
		if len(a) != n {
			c.stop("operands")
		}
	}
	vecMem := func(aligned bool, n int) {
		need(2)
		for _, s := range a {
			if !c.isReg(s) && aligned {
				c.violate("requires an alignment that the slices do not have")
			}
		}
		c.put(a[1], c.get(a[0], n), n)
	}
	switch op {
	case "RET":
		return 0, true
	case "NOP", "VZEROUPPER", "NOPL", "NOPW", "XCHGL":
		return next, false
	case "JMP":
		need(1)
		return c.jump(a[0]), false
	case "MOVOU", "MOVUPS", "MOVUPD", "MOVDQU":
		vecMem(false, 16)
		return next, false
	case "MOVO", "MOVOA", "MOVAPS", "MOVAPD":
		vecMem(true, 16)
		return next, false
	case "VMOVDQU", "VMOVUPS", "VMOVUPD":
		n := 16
		for _, s := range a {
			if strings.HasPrefix(s, "Y") {
				n = 32
			}
			if strings.HasPrefix(s, "Z") {
				c.stop("512-bit register")
			}
		}
		vecMem(false, n)
		return next, false
	case "PXOR", "XORPS", "XORPD":
		need(2)
		if !c.isReg(a[0]) {
			c.violate("requires an alignment that the slices do not have")
		}
		c.put(a[1], aval{b: c.xorBytes(c.get(a[1], 16).b, c.get(a[0], 16).b)}, 16)
		return next, false
	case "VPXOR", "VXORPS", "VXORPD":
		need(3)
		n := 16
		if strings.HasPrefix(a[2], "Y") {
			n = 32
		}
		c.put(a[2], aval{b: c.xorBytes(c.get(a[1], n).b, c.get(a[0], n).b)}, n)
		return next, false
	case "MOVBLZX", "MOVBQZX", "MOVWLZX", "MOVWQZX", "MOVLQZX", "MOVBWZX":
		need(2)
		n := widths[op[3]]
		v := c.get(a[0], n)
		if v.p != nil {
			c.stop("part of a pointer")
		}
		w := widths[op[4]]
		b := append(append([]*Term(nil), v.b...), c.konst(0, 8).b...)
		if w == 4 {
			w = 8
		}
		c.put(a[1], aval{b: b[:8]}, w)
		return next, false
	case "LEAQ":
		need(2)
		m := memArg.FindStringSubmatch(a[0])
		if m == nil || m[3] == "SB" || m[3] == "FP" {
			c.stop("address")
		}
		b := c.reg(m[3])
		disp := int64(0)
		if m[2] != "" {
			disp, _ = strconv.ParseInt(m[2], 10, 64)
		}
		r := c.alu("ADD", b, c.konst(disp, 8), 8, false)
		if m[4] != "" {
			x := c.reg(m[4])
			sc, _ := strconv.ParseInt(m[5], 10, 64)
			if sc != 1 {
				k, ok := constBytes(x.b)
				if x.p != nil || !ok {
					c.stop("index register is not constant")
				}
				x = c.konst(int64(k)*sc, 8)
			}
			r = c.alu("ADD", r, x, 8, false)
		}
		c.put(a[1], r, 8)
		return next, false
	case "PUSHQ":
		need(1)
		sp := c.reg("SP")
		q := *sp.p
		q.off -= 8
		v := c.getAny(a[0])
		c.regs["SP"] = aval{p: &q}
		c.store(&q, v)
		return next, false
	case "POPQ":
		need(1)
		sp := c.reg("SP")
		q := *sp.p
		v := c.load(&q, 8)
		q.off += 8
		c.regs["SP"] = aval{p: &q}
		c.regs[a[0]] = v
		return next, false
	}
	if len(op) > 1 && op[0] == 'J' {
		need(1)
		if op == "JCXZQ" || op == "JCXZL" {
			c.stop("instruction not modelled")
		}
		if c.cond(op[1:]) {
			return c.jump(a[0]), false
		}
		return next, false
	}
	n, isW := widths[op[len(op)-1]]
	base := op[:len(op)-1]
	if !isW {
		c.stop("instruction not modelled")
	}
	switch base {
	case "MOV":
		need(2)
		for _, s := range a {
			if c.isReg(s) && isVec(c.canon(s)) {
				// between a vector register and a general register or memory
				v := c.get(a[0], n)
				if v.p != nil {
					c.stop("pointer in a vector register")
				}
				if c.isReg(a[1]) && isVec(c.canon(a[1])) {
					b := append(append([]*Term(nil), v.b...), c.konst(0, 16).b...)
					c.put(a[1], aval{b: b[:16]}, 16)
				} else {
					c.put(a[1], v, n)
				}
				return next, false
			}
		}
		c.put(a[1], c.get(a[0], n), n)
		return next, false
	case "CMP":
		need(2)
		c.alu("SUB", c.get(a[0], n), c.get(a[1], n), n, true)
		return next, false
	case "TEST":
		need(2)
		c.fok = false
		x, y := c.get(a[0], n), c.get(a[1], n)
		if x.p != nil || y.p != nil {
			if x.p != nil && y.p != nil && x.p.same(y.p) {
				c.logicFlags(1, 1) // not null
				return next, false
			}
			c.stop("test of an address")
		}
		kx, ok1 := constBytes(x.b)
		ky, ok2 := constBytes(y.b)
		if ok1 && ok2 {
			c.logicFlags(kx&ky, n)
		}
		return next, false
	case "INC", "DEC":
		need(1)
		fc := c.fc
		o := map[string]string{"INC": "ADD", "DEC": "SUB"}[base]
		c.put(a[0], c.alu(o, c.get(a[0], n), c.konst(1, n), n, true), n)
		c.fc = fc
		return next, false
	case "NEG":
		need(1)
		c.put(a[0], c.alu("SUB", c.konst(0, n), c.get(a[0], n), n, true), n)
		return next, false
	}
	if o, ok := amdALU[base]; ok {
		need(2)
		if o == "XOR" && a[0] == a[1] {
			c.put(a[1], c.konst(0, n), n)
			c.logicFlags(0, n)
			return next, false
		}
		s := c.get(a[0], func() int {
			if strings.HasPrefix(o, "S") && o != "SUB" {
				return 1
			}
			return n
		}())
		c.put(a[1], c.alu(o, c.get(a[1], n), s, n, true), n)
		return next, false
	}
	c.stop("instruction not modelled")
	return 0, false
}

func (c *asmCtx) getAny(s string) aval {
	if c.isReg(s) {
		return c.reg(s)
	}
	return c.get(s, 8)
}

/* arm64 */

var armALU = map[string]string{"ADD": "ADD", "SUB": "SUB", "AND": "AND", "ORR": "OR", "EOR": "XOR", "BIC": "BIC", "LSL": "SHL", "LSR": "SHR", "ASR": "SAR"}
var armMov = map[string]int{"MOVD": 8, "MOVWU": 4, "MOVW": 4, "MOVHU": 2, "MOVH": 2, "MOVBU": 1, "MOVB": 1, "FMOVD": 8, "FMOVS": 4, "FMOVQ": 16}

func splitList(s string) []string {
	s = strings.Trim(s, "()[]")
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if i := strings.IndexByte(x, '-'); i > 0 && x[0] == 'V' {
			// a range V0.B16-V3.B16
			lo, hi := x[:i], strings.TrimSpace(x[i+1:])
			var l, h int
			fmt.Sscanf(lo, "V%d", &l)
			fmt.Sscanf(hi, "V%d", &h)
			sfx := ""
			if j := strings.IndexByte(lo, '.'); j > 0 {
				sfx = lo[j:]
			}
			for k := l; k <= h; k++ {
				out = append(out, fmt.Sprintf("V%d%s", k, sfx))
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func arrangement(s string) int {
	switch {
	case strings.HasSuffix(s, ".B16"), strings.HasSuffix(s, ".H8"), strings.HasSuffix(s, ".S4"), strings.HasSuffix(s, ".D2"):
		return 16
	case strings.HasSuffix(s, ".B8"), strings.HasSuffix(s, ".H4"), strings.HasSuffix(s, ".S2"), strings.HasSuffix(s, ".D1"):
		return 8
	}
	return 0
}

func (c *asmCtx) arm64(i int) (int, bool) {
	op, a := c.cur.op, c.cur.args
	next := i + 1
	mode := byte(0)
	if strings.HasSuffix(op, ".P") || strings.HasSuffix(op, ".W") {
		mode = op[len(op)-1]
		op = op[:len(op)-2]
	}
	need := func(n int) {
		if len(a) != n {
			c.stop("operands")
		}
	}
	// mem resolves a memory operand of n bytes with write-back.
	mem := func(s string) *asmPtr {
		p, disp, base, ok := c.addr(s)
		if !ok {
			c.stop("operand %s", s)
		}
		if mode != 0 {
			b := c.reg(base)
			q := *b.p
			q.off += disp
			c.regs[c.canon(base)] = aval{p: &q}
			if mode == 'P' {
				r := *b.p
				return &r
			}
		}
		return p
	}
	isMem := func(s string) bool { return memArg.MatchString(s) }
	switch op {
	case "RET":
		return 0, true
	case "NOP", "NOOP", "HINT":
		return next, false
	case "JMP", "B":
		need(1)
		return c.jump(a[0]), false
	case "CBZ", "CBNZ", "CBZW", "CBNZW":
		need(2)
		n := 8
		if strings.HasSuffix(op, "W") {
			n = 4
		}
		v := c.reg(a[0])
		if v.p != nil {
			c.stop("test of an address")
		}
		k, ok := constBytes(v.b[:n])
		if !ok {
			c.stop("branch on a condition that is not constant")
		}
		if (k == 0) == strings.HasPrefix(op, "CBZ") {
			return c.jump(a[1]), false
		}
		return next, false
	case "TBZ", "TBNZ":
		need(3)
		bit, ok1 := parseImm(a[0])
		v := c.reg(a[1])
		if v.p != nil || !ok1 {
			c.stop("test of an address")
		}
		k, ok := constBytes(v.b)
		if !ok {
			c.stop("branch on a condition that is not constant")
		}
		if (k>>uint(bit)&1 == 0) == (op == "TBZ") {
			return c.jump(a[2]), false
		}
		return next, false
	case "CMP", "CMPW", "CMN", "TST", "TSTW":
		need(2)
		n := 8
		if strings.HasSuffix(op, "W") {
			n = 4
		}
		o := map[string]string{"CMP": "SUB", "CMN": "ADD", "TST": "AND"}[strings.TrimSuffix(op, "W")]
		c.alu(o, c.get(a[1], n), c.get(a[0], n), n, true)
		if o == "ADD" {
			c.fc = !c.fc
		}
		return next, false
	case "VLD1", "VST1":
		need(2)
		l, m := a[1], a[0]
		if op == "VST1" {
			l, m = a[0], a[1]
		}
		p := mem(m)
		for _, r := range splitList(l) {
			n := arrangement(r)
			if n == 0 || strings.Contains(r, "[") {
				c.stop("arrangement")
			}
			q := *p
			if op == "VLD1" {
				v := c.load(&q, int64(n))
				c.setReg(r, v, n)
			} else {
				c.store(&q, aval{b: c.reg(r).b[:n]})
			}
			p.off += int64(n)
		}
		return next, false
	case "VEOR":
		need(3)
		n := arrangement(a[2])
		if n == 0 {
			c.stop("arrangement")
		}
		c.setReg(a[2], aval{b: c.xorBytes(c.reg(a[1]).b[:n], c.reg(a[0]).b[:n])}, n)
		return next, false
	case "LDP", "LDPW", "FLDPQ", "FLDPD", "FLDPS":
		need(2)
		n := map[string]int{"LDP": 8, "LDPW": 4, "FLDPQ": 16, "FLDPD": 8, "FLDPS": 4}[op]
		p := mem(a[0])
		rs := splitList(a[1])
		q := *p
		q.off += int64(n)
		x, y := c.load(p, int64(n)), c.load(&q, int64(n))
		c.setReg(rs[0], x, n)
		c.setReg(rs[1], y, n)
		return next, false
	case "STP", "STPW", "FSTPQ", "FSTPD", "FSTPS":
		need(2)
		n := map[string]int{"STP": 8, "STPW": 4, "FSTPQ": 16, "FSTPD": 8, "FSTPS": 4}[op]
		rs := splitList(a[0])
		x, y := c.get(rs[0], n), c.get(rs[1], n)
		p := mem(a[1])
		q := *p
		q.off += int64(n)
		c.store(p, x)
		c.store(&q, y)
		return next, false
	}
	if n, ok := armMov[op]; ok {
		need(2)
		var v aval
		src := a[0]
		switch {
		case isMem(src):
			v = c.load(mem(src), int64(n))
		default:
			v = c.get(src, n)
		}
		if isMem(a[1]) {
			c.store(mem(a[1]), v)
			return next, false
		}
		if v.p == nil && (op == "MOVW" || op == "MOVH" || op == "MOVB") {
			k, ok := constBytes(v.b)
			if !ok {
				// the sign-extended part is unknown
				b := append([]*Term(nil), v.b...)
				for len(b) < 8 {
					b = append(b, c.in.T.Leaf(c.in.uniq("sx"), typeIv(8, false), nil))
				}
				c.setReg(a[1], aval{b: b}, 8)
				return next, false
			}
			v = c.konst(int64(k<<uint(64-8*n))>>uint(64-8*n), 8)
			n = 8
		}
		c.setReg(a[1], v, n)
		return next, false
	}
	if op[0] == 'B' && len(op) > 2 && op != "BIC" && op != "BICW" && op != "BICS" {
		need(1)
		if c.cond(op[1:]) {
			return c.jump(a[0]), false
		}
		return next, false
	}
	n := 8
	base := op
	flags := false
	if armALU[base] == "" && strings.HasSuffix(base, "W") {
		n = 4
		base = base[:len(base)-1]
	}
	if armALU[base] == "" && strings.HasSuffix(base, "S") {
		flags = true
		base = base[:len(base)-1]
	}
	o, ok := armALU[base]
	if !ok || len(a) < 2 || len(a) > 3 {
		c.stop("instruction not modelled")
	}
	x := a[1]
	d := a[len(a)-1]
	c.setReg(d, c.alu(o, c.get(x, n), c.get(a[0], n), n, flags), n)
	return next, false
}

/* use by the interpreter */

// asmCall interprets the assembly body of fn, when in.asm provides one.
func (in *Interp) asmCall(st *State, fr *Frame, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	f := in.asm[fn.Name()]
	if f == nil || fn.Pkg == nil || fn.Signature.Recv() != nil {
		return nil, false
	}
	res, err := in.runAsm(st, fr, fn, f, in.asmArch, args)
	if err != "" {
		in.unsupported("assembly " + err)
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			res = append(res, in.havoc(fn.Signature.Results().At(i).Type(), in.uniq("asm"), nil))
		}
	}
	return []Outcome{{st, res}}, true
}
