package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the operating system, locks, memory maps and text formatting.

// osOp is recorded for each file-system operation, with the state before it.
type osOp struct {
	op    string
	path  *StrV
	path2 *StrV
	file  int // file object
	flags *Term
	ok    int8 // 1: success outcome exists, -1: failure outcome
	st    *State
	site  ssa.Instruction
	fr    *Frame
	args  []Val
	maps  []int // unmap: the memory objects
}

// progress bits of an open file (typestate of the file object)
const (
	fOpen   = 1
	fDirty  = 2  // mapped memory written since the last flush
	fMapped = 4  // currently mapped
	fTemp   = 8  // created exclusively under a temporary name, not yet published or removed
	fSynced = 16 // contents flushed
	fWrite  = 32 // opened for writing
)

// settle forgets the history of a file that is neither open, mapped nor temporary.
func settle(v int8) int8 {
	if v&(fOpen|fMapped|fTemp) == 0 {
		return 0
	}
	return v
}

func (c *mcall) osEvent(op string, e *osOp) {
	e.op = op
	e.st = c.st.clone()
	e.site = c.site
	e.fr = c.fr
	e.args = c.args
	c.in.emit(Event{kind: "os", ok: true, msg: op, data: e})
	if c.in.onOS != nil {
		c.in.onOS(e)
	}
}

func (c *mcall) file(v Val) (*Obj, *NatC) {
	p, ok := v.(*PtrV)
	if !ok || p.top || len(p.alts) != 1 {
		return nil, nil
	}
	o := c.st.obj(p.alts[0].obj)
	if o == nil {
		return nil, nil
	}
	n, _ := o.c.(*NatC)
	return o, n
}

func (c *mcall) newFile(st *State, name *StrV, flags *Term, tag string) *PtrV {
	in, T := c.in, c.in.T
	ft := in.typeOf("os", "File")
	size := T.Leaf(in.uniq("fsize"), Iv{n0, in.inputLen}, T.deps.label("file"))
	p := in.alloc(st, c.fr.ctx, c.site, "file", ft, &NatC{kind: "file", t: size, s: name, dep: T.deps.empty})
	o := *st.obj(p.alts[0].obj)
	o.c = &NatC{kind: "file", t: size, s: name, dep: T.deps.empty}
	st.setObj(&o)
	v := int8(fOpen)
	if k, ok := flags.constVal(); ok {
		f := k.i64()
		if f&0xc0 == 0xc0 {
			v |= fTemp
			no := *st.obj(p.alts[0].obj)
			no.c = &NatC{kind: "file", t: T.zero, s: name, dep: T.deps.empty}
			st.setObj(&no)
		}
		if f&3 != 0 {
			v |= fWrite
		}
		if f&0x200 != 0 { // O_TRUNC
			no := *st.obj(p.alts[0].obj)
			no.c = &NatC{kind: "file", t: T.zero, s: name, dep: T.deps.empty}
			st.setObj(&no)
		}
	} else {
		v |= fWrite
	}
	st.setTS(o.id, v)
	in.fileIDs[o.id] = true
	return p
}

func strArg(v Val) *StrV {
	if s, ok := v.(*StrV); ok {
		return s
	}
	return &StrV{}
}

func openModel(flags int64, withFlags bool, name string) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		T := c.in.T
		fl := T.Int(flags)
		if withFlags {
			fl = T.sv(c.st, c.args[1].(*Term))
		}
		path := strArg(c.args[0])
		c.osEvent("open", &osOp{path: path, flags: fl})
		return c.try("open", func(st *State) []Val {
			return []Val{c.newFile(st, path, fl, "open"), nilErr()}
		}, func(st *State) []Val { return []Val{nilPtr(), errVal("os." + name)} })
	}
}

func (c *mcall) fileUse(op string) (*Obj, *NatC, bool) {
	in := c.in
	p, ok := c.args[0].(*PtrV)
	if !ok {
		return nil, nil, false
	}
	if n, ok := in.isNil(c.st, p.null, p.nt); ok && n {
		return nil, nil, true // (*File)(nil) methods return ErrInvalid
	}
	o, n := c.file(p)
	if n == nil || n.kind != "file" {
		return nil, nil, false
	}
	return o, n, true
}

func simpleFileOp(name string, nres int, onOK func(c *mcall, st *State, o *Obj, n *NatC)) modelFn {
	return func(c *mcall) ([]Outcome, bool) {
		o, n, ok := c.fileUse(name)
		if !ok {
			return nil, false
		}
		if o == nil {
			return c.one(errVal(name + " on a nil file"))
		}
		c.osEvent(name, &osOp{file: o.id, path: n.s})
		return c.try(name, func(st *State) []Val {
			if onOK != nil {
				onOK(c, st, st.obj(o.id), n)
			}
			return []Val{nilErr()}
		}, func(st *State) []Val { return []Val{errVal("(*os.File)." + name)} })
	}
}

// mapMem is the memory object of a mapping of file o.
func (c *mcall) mapFile(st *State, o *Obj, n *NatC, rw bool) *SliceV {
	in, T := c.in, c.in.T
	tag := T.Leaf(fmt.Sprintf("filedata%d", o.id), ivTop, T.deps.label("file"))
	size := T.sv(st, n.t)
	b := &BlobC{size: size, dep: tag.dep, tag: tag, mapped: 1, file: o.id, rw: rw}
	id := in.newID(c.fr.ctx, c.site, "map")
	st.setObj(&Obj{id: id, typ: types.NewSlice(byteT), c: b, site: in.posStr(c.site.Pos()), label: "map"})
	st.setTS(o.id, st.getTS(o.id)|fMapped)
	T.assume(st, T.LE(T.one, size), true) // an empty file cannot be mapped
	return &SliceV{alts: []SAlt{{loc: Loc{obj: id}, off: T.zero, esz: 1}}, len: size, cap: size}
}

func (c *mcall) mapObj(v Val) *Obj {
	s, ok := v.(*SliceV)
	if !ok || s.top || len(s.alts) != 1 {
		return nil
	}
	return c.st.obj(s.alts[0].loc.obj)
}

func modelsSys(m map[string]modelFn) {
	m["os.OpenFile"] = openModel(0, true, "OpenFile")
	m["os.Open"] = openModel(0, false, "Open")
	m["os.Create"] = openModel(0x242, false, "Create")
	m["os.CreateTemp"] = func(c *mcall) ([]Outcome, bool) {
		T := c.in.T
		rnd := &StrV{parts: []StrPart{{t: T.Leaf(c.in.uniq("tmpname"), Iv{n0, pow2(32)}, T.deps.label("rand")), how: "d"}}, dep: T.deps.label("rand")}
		dir, pat := strArg(c.args[0]), strArg(c.args[1])
		ps, ok := pat.lit()
		pre, post := pat, &StrV{dep: T.deps.empty}
		if ok {
			if i := strings.LastIndex(ps, "*"); i >= 0 {
				pre, post = litStr(ps[:i], pat.dep), litStr(ps[i+1:], pat.dep)
			}
		}
		path := catStr(T, dir, litStr("/", T.deps.empty), pre, rnd, post)
		fl := T.Int(0xc2)
		c.osEvent("open", &osOp{path: path, flags: fl})
		return c.try("open", func(st *State) []Val {
			return []Val{c.newFile(st, path, fl, "open"), nilErr()}
		}, func(st *State) []Val { return []Val{nilPtr(), errVal("os.CreateTemp")} })
	}
	m["io/ioutil.TempFile"] = m["os.CreateTemp"]
	m["(*os.File).Name"] = func(c *mcall) ([]Outcome, bool) {
		_, n, ok := c.fileUse("Name")
		if !ok || n == nil || n.s == nil {
			return nil, false
		}
		return c.one(n.s)
	}
	m["(*os.File).Close"] = simpleFileOp("Close", 1, func(c *mcall, st *State, o *Obj, n *NatC) {
		st.setTS(o.id, st.getTS(o.id)&^fOpen)
	})
	// a failed close still releases the descriptor
	m["(*os.File).Close"] = func(c *mcall) ([]Outcome, bool) {
		o, n, ok := c.fileUse("Close")
		if !ok {
			return nil, false
		}
		if o == nil {
			return c.one(errVal("Close on a nil file"))
		}
		c.osEvent("Close", &osOp{file: o.id, path: n.s})
		c.st.setTS(o.id, settle(c.st.getTS(o.id)&^fOpen))
		return c.try("Close", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("(*os.File).Close")} })
	}
	m["(*os.File).Sync"] = simpleFileOp("Sync", 1, func(c *mcall, st *State, o *Obj, n *NatC) {
		// msync is what makes mapped pages durable; fsync writes the page cache, shared mappings included
		st.setTS(o.id, st.getTS(o.id)&^fDirty|fSynced)
	})
	m["(*os.File).Truncate"] = func(c *mcall) ([]Outcome, bool) {
		o, n, ok := c.fileUse("Truncate")
		if !ok {
			return nil, false
		}
		if o == nil {
			return c.one(errVal("Truncate on a nil file"))
		}
		c.osEvent("Truncate", &osOp{file: o.id, path: n.s})
		return c.try("Truncate", func(st *State) []Val {
			nn := *n
			nn.t = c.in.T.sv(st, c.args[1].(*Term))
			no := *st.obj(o.id)
			no.c = &nn
			st.setObj(&no)
			if !c.in.T.assume(st, c.in.T.LE(c.in.T.zero, nn.t), true) {
				return nil
			}
			return []Val{nilErr()}
		}, func(st *State) []Val { return []Val{errVal("(*os.File).Truncate")} })
	}
	m["(*os.File).Stat"] = func(c *mcall) ([]Outcome, bool) {
		o, n, ok := c.fileUse("Stat")
		if !ok || o == nil {
			return nil, false
		}
		return c.try("Stat", func(st *State) []Val {
			ft := c.in.typeOf("os", "fileStat")
			p := c.in.alloc(st, c.fr.ctx, c.site, "stat", ft, &NatC{kind: "stat", t: n.t, dep: c.in.T.deps.empty})
			return []Val{&IfaceV{typ: types.NewPointer(ft), v: p}, nilErr()}
		}, func(st *State) []Val { return []Val{&IfaceV{null: nilYes}, errVal("(*os.File).Stat")} })
	}
	m["(*os.fileStat).Size"] = func(c *mcall) ([]Outcome, bool) {
		_, n := c.file(c.args[0])
		if n == nil || n.kind != "stat" {
			return nil, false
		}
		return c.one(c.in.T.sv(c.st, n.t))
	}
	for _, k := range []string{"Remove", "RemoveAll"} {
		m["os."+k] = func(c *mcall) ([]Outcome, bool) {
			p := strArg(c.args[0])
			c.osEvent("remove", &osOp{path: p})
			c.in.unTemp(c.st, p)
			return c.try("remove", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("os.Remove")} })
		}
	}
	m["os.Rename"] = func(c *mcall) ([]Outcome, bool) {
		p, q := strArg(c.args[0]), strArg(c.args[1])
		c.osEvent("rename", &osOp{path: p, path2: q})
		return c.try("rename", func(st *State) []Val {
			c.in.unTemp(st, p)
			return []Val{nilErr()}
		}, func(st *State) []Val { return []Val{errVal("os.Rename")} })
	}
	for _, k := range []string{"MkdirAll", "Mkdir"} {
		m["os."+k] = func(c *mcall) ([]Outcome, bool) {
			c.osEvent("mkdir", &osOp{path: strArg(c.args[0])})
			return c.try("mkdir", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("os.MkdirAll")} })
		}
	}
	for _, k := range []string{"Stat", "Lstat"} {
		m["os."+k] = func(c *mcall) ([]Outcome, bool) {
			c.osEvent("stat", &osOp{path: strArg(c.args[0])})
			return c.try("stat", func(st *State) []Val {
				ft := c.in.typeOf("os", "fileStat")
				p := c.in.alloc(st, c.fr.ctx, c.site, "stat", ft, &NatC{kind: "stat", t: c.in.T.Leaf(c.in.uniq("statsz"), Iv{n0, c.in.inputLen}, c.in.T.deps.label("file")), dep: c.in.T.deps.empty})
				return []Val{&IfaceV{typ: types.NewPointer(ft), v: p}, nilErr()}
			}, func(st *State) []Val { return []Val{&IfaceV{null: nilYes}, errVal("os.Stat")} })
		}
	}
	for _, k := range []string{"WriteFile"} {
		f := func(c *mcall) ([]Outcome, bool) {
			c.osEvent("writefile", &osOp{path: strArg(c.args[0])})
			return c.try("writefile", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("os.WriteFile")} })
		}
		m["os."+k] = f
		m["io/ioutil."+k] = f
	}
	for _, k := range []string{"Write", "WriteAt", "WriteString"} {
		k := k
		m["(*os.File)."+k] = func(c *mcall) ([]Outcome, bool) {
			o, n, ok := c.fileUse(k)
			if !ok || o == nil {
				return nil, false
			}
			c.osEvent("write", &osOp{file: o.id, path: n.s})
			c.st.setTS(o.id, c.st.getTS(o.id)|fDirty)
			T := c.in.T
			return c.try("write", func(st *State) []Val {
				return []Val{T.Leaf(c.in.uniq("wn"), Iv{n0, c.in.inputLen}, nil), nilErr()}
			}, func(st *State) []Val { return []Val{T.zero, errVal("(*os.File)." + k)} })
		}
	}

	mm := "github.com/edsrzf/mmap-go"
	m[mm+".Map"] = func(c *mcall) ([]Outcome, bool) {
		o, n := c.file(c.args[0])
		if n == nil || n.kind != "file" {
			return nil, false
		}
		prot, _ := c.in.T.sv(c.st, c.args[1].(*Term)).constVal()
		rw := prot.i64()&6 != 0 // RDWR or COPY
		c.osEvent("map", &osOp{file: o.id, path: n.s, flags: c.args[1].(*Term)})
		return c.try("map", func(st *State) []Val {
			return []Val{c.mapFile(st, o, n, rw), nilErr()}
		}, func(st *State) []Val {
			return []Val{&SliceV{null: nilYes, len: c.in.T.zero, cap: c.in.T.zero}, errVal("mmap.Map")}
		})
	}
	for _, k := range []string{"Lock", "Unlock"} {
		k := k
		m["("+mm+".MMap)."+k] = func(c *mcall) ([]Outcome, bool) {
			return c.try("mlock", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("mmap." + k)} })
		}
	}
	m["("+mm+".MMap).Flush"] = func(c *mcall) ([]Outcome, bool) {
		o := c.mapObj(c.args[0])
		if o == nil {
			return nil, false
		}
		b, _ := o.c.(*BlobC)
		if b == nil {
			return nil, false
		}
		c.osEvent("flush", &osOp{file: b.file})
		return c.try("flush", func(st *State) []Val {
			st.setTS(b.file, st.getTS(b.file)&^fDirty|fSynced)
			return []Val{nilErr()}
		}, func(st *State) []Val { return []Val{errVal("mmap.Flush")} })
	}
	m["(*"+mm+".MMap).Unmap"] = func(c *mcall) ([]Outcome, bool) {
		in, T := c.in, c.in.T
		p, ok := c.args[0].(*PtrV)
		if !ok || p.top || len(p.alts) != 1 {
			return nil, false
		}
		v, ok := in.loadPtr(c.st, p, in.typeOf(mm, "MMap")).(*SliceV)
		if !ok {
			return nil, false
		}
		// unmap writes nil whatever happens
		defer func() {}()
		nilS := &SliceV{null: nilYes, len: T.zero, cap: T.zero}
		if n, ok := in.isNil(c.st, v.null, v.nt); ok && n {
			in.storePtr(c.st, p, nilS)
			return c.one(errVal("mmap.Unmap of nil"))
		}
		for _, a := range v.alts {
			o := c.st.obj(a.loc.obj)
			if o == nil {
				continue
			}
			if b, ok := o.c.(*BlobC); ok {
				if b.mapped == 2 && len(v.alts) == 1 && !o.weak {
					in.oblig("unmapped", false, "memory is unmapped twice")
				}
				c.osEvent("unmap", &osOp{file: b.file, maps: []int{o.id}})
				nb := *b
				nb.mapped = 2
				no := *o
				no.c = &nb
				c.st.setObj(&no)
				if b.file != 0 {
					c.st.setTS(b.file, settle(c.st.getTS(b.file)&^fMapped))
				}
			}
		}
		in.storePtr(c.st, p, nilS)
		return c.try("unmap", func(st *State) []Val { return []Val{nilErr()} }, func(st *State) []Val { return []Val{errVal("mmap.Unmap")} })
	}

	// locks
	lock := func(want []int8, to int8, name string) modelFn {
		return func(c *mcall) ([]Outcome, bool) {
			in := c.in
			p, ok := c.args[0].(*PtrV)
			if !ok || p.top || len(p.alts) != 1 {
				return nil, false
			}
			if !in.notNil(c.st, p, "mutex") {
				return nil, true
			}
			id := in.lockID(p.alts[0])
			cur := c.st.getTS(id)
			good := false
			for _, w := range want {
				good = good || cur == w
			}
			in.emit(Event{kind: "lock", ok: good, msg: fmt.Sprintf("%s while %s", name, [...]string{"not held", "held", "read-held"}[cur]), data: id})
			if !good {
				if to == 0 {
					in.oblig("panic", false, name+" of a mutex that is not held")
				}
				return nil, true
			}
			c.st.setTS(id, to)
			return c.one()
		}
	}
	m["(*sync.Mutex).Lock"] = lock([]int8{0}, 1, "Lock")
	m["(*sync.Mutex).Unlock"] = lock([]int8{1}, 0, "Unlock")
	m["(*sync.RWMutex).Lock"] = lock([]int8{0}, 1, "Lock")
	m["(*sync.RWMutex).Unlock"] = lock([]int8{1}, 0, "Unlock")
	m["(*sync.RWMutex).RLock"] = lock([]int8{0}, 2, "RLock")
	m["(*sync.RWMutex).RUnlock"] = lock([]int8{2}, 0, "RUnlock")
	m["(*sync.Once).Do"] = func(c *mcall) ([]Outcome, bool) {
		in := c.in
		p, ok := c.args[0].(*PtrV)
		if !ok || p.top || len(p.alts) != 1 {
			return nil, false
		}
		if !in.notNil(c.st, p, "sync.Once") {
			return nil, true
		}
		f, ok := c.args[1].(*FuncV)
		if !ok || f.fn == nil {
			return nil, false
		}
		id := in.onceID(p.alts[0])
		switch c.st.getTS(id) {
		case 1:
			return c.one()
		case 2:
			in.emit(Event{kind: "lock", ok: false, msg: "sync.Once.Do re-entered"})
			return nil, true
		}
		c.st.setTS(id, 2)
		out := in.callFn(c.st, c.fr, f.fn, nil, f.binds, c.site)
		for i := range out {
			out[i].st.setTS(id, 1)
			out[i].res = nil
		}
		return out, true
	}
	m["runtime.SetFinalizer"] = func(c *mcall) ([]Outcome, bool) {
		c.in.emit(Event{kind: "finalizer", ok: true, msg: "runtime.SetFinalizer", data: c})
		if iv, ok := c.args[0].(*IfaceV); ok {
			if p, ok := iv.v.(*PtrV); ok {
				for _, l := range p.alts {
					if o := c.st.obj(l.obj); o != nil {
						no := *o
						no.fin = nil
						if fi, ok := c.args[1].(*IfaceV); ok {
							no.fin, _ = fi.v.(*FuncV)
						}
						c.st.setObj(&no)
					}
				}
			}
		}
		return c.one()
	}
	m["runtime.KeepAlive"] = func(c *mcall) ([]Outcome, bool) {
		c.in.emit(Event{kind: "keepalive", ok: true})
		return c.one()
	}
	m["runtime.GC"] = func(c *mcall) ([]Outcome, bool) { return c.one() }
	m["runtime.Gosched"] = m["runtime.GC"]
	m["log.Fatalf"] = func(c *mcall) ([]Outcome, bool) {
		c.in.oblig("panic", false, "log.Fatal exits the process")
		return nil, true
	}
	m["log.Fatal"], m["log.Panic"], m["log.Panicf"] = m["log.Fatalf"], m["log.Fatalf"], m["log.Fatalf"]
	m["os.Exit"] = func(c *mcall) ([]Outcome, bool) {
		c.in.oblig("panic", false, "os.Exit ends the process")
		return nil, true
	}
	m["log.Printf"] = func(c *mcall) ([]Outcome, bool) { return c.one() }
	m["log.Println"] = m["log.Printf"]
	m["log.Print"] = m["log.Printf"]
}

func (in *Interp) lockID(l Loc) int {
	id := in.newID(nil, "lock:"+locKey(l), "lock")
	in.locks[id] = l
	return id
}

func (in *Interp) onceID(l Loc) int {
	return in.newID(nil, "once:"+locKey(l), "once")
}

func locKey(l Loc) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.obj)
	for _, p := range l.path {
		if p.f >= 0 {
			fmt.Fprintf(&b, ".%d", p.f)
		} else {
			fmt.Fprintf(&b, "[%d]", p.idx.id)
		}
	}
	return b.String()
}

// unTemp marks the temporary file of that name as published or removed.
func (in *Interp) unTemp(st *State, p *StrV) {
	for id := range in.fileIDs {
		o := st.obj(id)
		if o == nil {
			continue
		}
		n, _ := o.c.(*NatC)
		if n != nil && n.s != nil && sameVal(n.s, p) {
			st.setTS(id, settle(st.getTS(id)&^fTemp))
		}
	}
}

/* text */

func (c *mcall) fmtArg(v Val, verb byte) *StrV {
	in, T := c.in, c.in.T
	opaque := func(v Val, how string) *StrV {
		d := in.deepDep(c.st, v)
		t := T.Leaf(in.uniq("fmt"), ivTop, d)
		return &StrV{parts: []StrPart{{t: t, how: how}}, dep: d}
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		return opaque(v, string(verb))
	}
	switch x := iv.v.(type) {
	case *StrV:
		if verb == 's' || verb == 'v' {
			return x
		}
	case *Term:
		how := string(verb)
		if verb == 'v' {
			how = "d"
		}
		x = T.sv(c.st, x)
		if k, ok := x.constVal(); ok && how == "d" {
			return litStr(k.String(), T.deps.empty)
		}
		return &StrV{parts: []StrPart{{t: x, how: how}}, dep: x.dep}
	case *SliceV:
		if t, ok := iv.typ.Underlying().(*types.Slice); ok && in.sizeof(t.Elem()) == 1 && (verb == 'x' || verb == 'X' || verb == 's') {
			ct := in.contentTerm(normRuns(T, c.bytes(x)))
			return &StrV{parts: []StrPart{{t: ct, how: string(verb) + "b"}}, dep: ct.dep}
		}
	}
	if iv.v == nil {
		return opaque(v, string(verb))
	}
	return opaque(iv.v, string(verb))
}

func (c *mcall) sprintf(f *StrV, va Val) (*StrV, bool) {
	in, T := c.in, c.in.T
	format, ok := f.lit()
	s, ok2 := va.(*SliceV)
	if !ok || !ok2 {
		return nil, false
	}
	var args []Val
	if n, ok := in.isNil(c.st, s.null, s.nt); !(ok && n) {
		anyT := types.NewInterfaceType(nil, nil)
		args, ok = in.sliceElems(c.st, s, anyT, 64)
		if !ok {
			return nil, false
		}
	}
	out := &StrV{dep: T.deps.empty}
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = catStr(T, out, litStr(format[i:j], T.deps.empty))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil, false
		}
		if format[j] == '%' {
			out = catStr(T, out, litStr("%", T.deps.empty))
			i = j
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		p := c.fmtArg(args[ai], format[j])
		if fl := format[i+1 : j]; fl != "" {
			q := *p
			q.parts = append([]StrPart(nil), p.parts...)
			for k := range q.parts {
				if q.parts[k].t != nil {
					q.parts[k].how = fl + q.parts[k].how
				}
			}
			p = &q
		}
		out = catStr(T, out, p)
		ai++
		i = j
	}
	return out, true
}

func modelsText(m map[string]modelFn) {
	opaqueStr := func(c *mcall) *StrV {
		d := c.in.T.deps.empty
		for _, a := range c.args {
			d = c.in.T.deps.or(d, c.in.deepDep(c.st, a))
		}
		return &StrV{parts: []StrPart{{t: c.in.T.Leaf(c.in.uniq("s"), ivTop, d), how: "str"}}, dep: d}
	}
	m["fmt.Sprintf"] = func(c *mcall) ([]Outcome, bool) {
		if s, ok := c.sprintf(strArg(c.args[0]), c.args[1]); ok {
			return c.one(s)
		}
		return c.one(opaqueStr(c))
	}
	m["fmt.Sprint"] = func(c *mcall) ([]Outcome, bool) { return c.one(opaqueStr(c)) }
	newErr := func(c *mcall) ([]Outcome, bool) {
		c.in.emit(Event{kind: "newerr", ok: true, msg: strArg(c.args[0]).String()})
		return c.one(errVal("new error"))
	}
	m["fmt.Errorf"], m["errors.New"] = newErr, newErr
	m["errors.Is"] = func(c *mcall) ([]Outcome, bool) {
		return c.one(c.in.T.Leaf(c.in.uniq("errIs"), Iv{n0, n1}, c.in.T.deps.label("file")))
	}
	for _, k := range []string{"os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.As"} {
		m[k] = m["errors.Is"]
	}
	for _, k := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln"} {
		m[k] = func(c *mcall) ([]Outcome, bool) {
			return c.one(c.in.T.zero, nilErr())
		}
	}
	m["os/user.Current"] = func(c *mcall) ([]Outcome, bool) {
		in := c.in
		pt := c.fn.Signature.Results().At(0).Type()
		et := under(pt).(*types.Pointer).Elem()
		return c.try("user", func(st *State) []Val {
			p := in.alloc(st, c.fr.ctx, c.site, "user", et, in.havoc(et, "user.Current", in.T.deps.label("env")))
			return []Val{p, nilErr()}
		}, func(st *State) []Val { return []Val{nilPtr(), errVal("user.Current")} })
	}
	m["strconv.Itoa"] = func(c *mcall) ([]Outcome, bool) {
		t := c.in.T.sv(c.st, c.args[0].(*Term))
		if k, ok := t.constVal(); ok {
			return c.one(litStr(k.String(), c.in.T.deps.empty))
		}
		return c.one(&StrV{parts: []StrPart{{t: t, how: "d"}}, dep: t.dep})
	}
	fmtInt := func(c *mcall) ([]Outcome, bool) {
		t := c.in.T.sv(c.st, c.args[0].(*Term))
		b, ok := c.in.T.sv(c.st, c.args[1].(*Term)).constVal()
		if !ok {
			return c.one(opaqueStr(c))
		}
		how := map[int64]string{10: "d", 16: "x", 8: "o", 2: "b"}[b.i64()]
		if how == "" {
			return c.one(opaqueStr(c))
		}
		if k, ok := t.constVal(); ok && how == "d" {
			return c.one(litStr(k.String(), c.in.T.deps.empty))
		}
		return c.one(&StrV{parts: []StrPart{{t: t, how: how}}, dep: t.dep})
	}
	m["strconv.FormatInt"], m["strconv.FormatUint"] = fmtInt, fmtInt
	m["encoding/hex.EncodeToString"] = func(c *mcall) ([]Outcome, bool) {
		ct := c.in.contentTerm(normRuns(c.in.T, c.bytes(c.args[0])))
		return c.one(&StrV{parts: []StrPart{{t: ct, how: "xb"}}, dep: ct.dep})
	}
	m["path/filepath.Join"] = func(c *mcall) ([]Outcome, bool) {
		in, T := c.in, c.in.T
		s, ok := c.args[0].(*SliceV)
		if !ok {
			return nil, false
		}
		es, ok := in.sliceElems(c.st, s, types.Typ[types.String], 64)
		if !ok {
			return c.one(opaqueStr(c))
		}
		out := &StrV{dep: T.deps.empty}
		for i, e := range es {
			x, ok := e.(*StrV)
			if !ok {
				return c.one(opaqueStr(c))
			}
			if l, isLit := x.lit(); isLit && l == "" {
				continue
			}
			if i > 0 && len(out.parts) > 0 {
				out = catStr(T, out, litStr("/", T.deps.empty))
			}
			out = catStr(T, out, x)
		}
		return c.one(out)
	}
	m["path.Join"] = m["path/filepath.Join"]
	m["path/filepath.Dir"] = func(c *mcall) ([]Outcome, bool) {
		T := c.in.T
		s := strArg(c.args[0])
		// cut at the last separator in a literal part
		for i := len(s.parts) - 1; i >= 0; i-- {
			p := s.parts[i]
			if p.t == nil {
				if k := strings.LastIndex(p.lit, "/"); k >= 0 {
					o := &StrV{dep: s.dep}
					o.parts = append(o.parts, s.parts[:i]...)
					if k > 0 {
						o.parts = append(o.parts, StrPart{lit: p.lit[:k]})
					}
					return c.one(o)
				}
			} else if p.how == "str" {
				break
			}
		}
		_ = T
		return c.one(opaqueStr(c))
	}
	m["path.Dir"] = m["path/filepath.Dir"]
	m["time.Now"] = func(c *mcall) ([]Outcome, bool) {
		return c.one(c.in.havoc(c.fn.Signature.Results().At(0).Type(), c.in.uniq("now"), c.in.T.deps.label("time")))
	}
	m["(time.Time).After"] = func(c *mcall) ([]Outcome, bool) {
		d := c.in.T.deps.empty
		for _, a := range c.args {
			d = c.in.T.deps.or(d, c.in.deepDep(c.st, a))
		}
		return c.one(c.in.T.Leaf(c.in.uniq("after"), Iv{n0, n1}, d))
	}
	m["(time.Time).Before"] = m["(time.Time).After"]
	m["(time.Time).Equal"] = m["(time.Time).After"]
	m["(time.Time).IsZero"] = m["(time.Time).After"]
	// assembly: word-wise xor of n bytes
	m["github.com/sencha-dev/powkit/internal/common/bitutil.xorBytesSSE2"] = nil
	delete(m, "github.com/sencha-dev/powkit/internal/common/bitutil.xorBytesSSE2")
}
