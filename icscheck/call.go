package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction.
func (e *Engine) call(fn *ssa.Function, b *ssa.BasicBlock, idx int, x *ssa.Call, s *State) []*State {
	e.Sites[x] = true
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		var r []*State
		for _, o := range e.builtin(s, x, bi.Name()) {
			o.st.env[x] = o.v
			r = append(r, o.st)
		}
		return r
	}
	c := &Call{e: e, st: s, site: x, in: fn, sig: cc.Signature()}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(s, a))
	}
	if _, ok := cc.Value.(*ssa.Function); !ok {
		c.recv = e.val(s, cc.Value)
	}
	// forget what is not needed afterwards
	live := e.liveAfter(e.fnInfo(fn), b, idx)
	for v := range s.env {
		if v.Parent() == fn && !live[v] {
			delete(s.env, v)
		}
	}
	var outs []Out
	if cc.IsInvoke() {
		outs = e.invoke(c, cc.Value.Type(), c.recv, cc.Method)
	} else {
		var f Value
		switch v := cc.Value.(type) {
		case *ssa.Function:
			f = VFn{Fn: v}
		default:
			f = c.recv
		}
		outs = e.apply(c, f)
	}
	var r []*State
	for _, o := range outs {
		if o.st == nil || o.st.dead || o.st.zone.bot {
			continue
		}
		v := o.v
		if v == nil {
			v = VTuple{}
		}
		o.st.env[x] = v
		r = append(r, o.st)
	}
	return r
}

// apply calls a function value.
func (e *Engine) apply(c *Call, f Value) []Out {
	switch x := f.(type) {
	case VFn:
		return e.callFn(c, x)
	case VNil:
		e.obligation("nil", c.site, false, "call of a function value", "function is nil")
		return nil
	case VAlt:
		var r []Out
		for _, a := range x {
			d := *c
			d.st = c.st.clone()
			r = append(r, e.apply(&d, a)...)
		}
		return r
	}
	c.name = "dynamic"
	for _, h := range e.hooks {
		if o, ok := h(c); ok {
			return o
		}
	}
	e.undecided("%s: call of unknown function %s", e.p.pos(c.site.Pos()), vkey(f))
	return e.unknownCall(c)
}

func (e *Engine) callFn(c *Call, f VFn) []Out {
	c.fn = f.Fn
	c.name = f.Fn.String()
	if i := strings.IndexByte(c.name, '['); i > 0 && f.Fn.Origin() != nil {
		c.name = f.Fn.Origin().String()
	}
	for _, h := range e.hooks {
		if o, ok := h(c); ok {
			return o
		}
	}
	if h, ok := intrinsics[c.name]; ok {
		return h(c)
	}
	if e.inlinable(f.Fn) {
		return e.run(f.Fn, c.args, f.Bind, c.st)
	}
	return e.external(c)
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if e.p.inPkg(fn) {
		return true
	}
	if fn.Pkg == nil && fn.Synthetic != "" && fn.Origin() == nil {
		return true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == parserPath {
		return true
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		switch o.Pkg.Pkg.Path() {
		case "slices", "maps", "cmp":
			return true
		}
	}
	return false
}

// invoke calls method m of interface value recv.
func (e *Engine) invoke(c *Call, T types.Type, recv Value, m *types.Func) []Out {
	switch x := recv.(type) {
	case VAlt:
		var r []Out
		for _, a := range x {
			d := *c
			d.st = c.st.clone()
			d.recv = nil
			r = append(r, e.invoke(&d, T, a, m)...)
		}
		return r
	case VNil:
		e.obligation("nil", c.site, false, "method call on an interface", "interface value is nil")
		return nil
	case VIface:
		e.obligation("nil", c.site, true, "method call on an interface", "")
		f := e.p.SSA.LookupMethod(x.T, m.Pkg(), m.Name())
		if f == nil {
			e.undecided("%s: no method %s on %s", e.p.pos(c.site.Pos()), m.Name(), typeKey(x.T))
			return e.unknownCall(c)
		}
		c.args = append([]Value{x.V}, c.args...)
		return e.callFn(c, VFn{Fn: f})
	}
	u, isU := recv.(VUnk)
	if isU {
		n := c.st.nilness(u)
		if n == 1 {
			e.obligation("nil", c.site, false, "method call on an interface", "interface value is nil")
			return nil
		}
		if f := c.st.fact(u.ID); f.Ty != "" {
			if ct := e.p.typeByKey(f.Ty); ct != nil {
				e.obligation("nil", c.site, true, "method call on an interface", "")
				v := c.st.mk(ct, u.ID+".("+typeKey(ct)+")")
				return e.invoke(c, T, VIface{ct, v}, m)
			}
		}
	}
	c.name = "invoke." + m.Name()
	c.iface = T
	c.args = append([]Value{recv}, c.args...)
	for _, h := range e.hooks {
		if o, ok := h(c); ok {
			return o
		}
	}
	if isU {
		e.obligation("nil", c.site, c.st.nilness(u) == 2, "method call on an interface", "interface value "+u.ID+" may be nil")
		if strings.HasPrefix(u.ID, "b64enc") {
			return e.b64(c, u, m.Name())
		}
	}
	return e.unknownCall(c)
}

// fresh returns the token of the call site, unused in the state.
func (c *Call) fresh() string {
	tok := siteTok(c.site)
	c.args = []Value(c.e.withHeld(c.st, VTuple(c.args), func() { c.st.fresh(tok) }).(VTuple))
	return tok
}

func (p *Prog) typeByKey(k string) types.Type {
	p.once.Do(func() {
		p.typesBy = map[string]types.Type{}
		for _, n := range p.Named() {
			p.typesBy[typeKey(n)] = n
			pt := types.NewPointer(n)
			p.typesBy[typeKey(pt)] = pt
		}
	})
	return p.typesBy[k]
}

// external handles functions of other packages without a specific model.
func (e *Engine) external(c *Call) []Out {
	pkg := ""
	if c.fn.Pkg != nil {
		pkg = c.fn.Pkg.Pkg.Path()
	} else if c.fn.Object() != nil && c.fn.Object().Pkg() != nil {
		pkg = c.fn.Object().Pkg().Path()
	}
	pure := false
	switch pkg {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "time", "bytes", "errors", "net/url", "math/bits", "path", "encoding/base64", "fmt", "cmp", "unicode/utf16":
		pure = true
	}
	for _, a := range c.args {
		switch x := a.(type) {
		case VPtr:
			pure = false
		case VSlice:
			if _, ok := x.B.(VPtr); ok && pkg != "strings" && pkg != "bytes" && pkg != "fmt" {
				pure = false
			}
		case VFn, VIface:
			if pkg != "fmt" {
				pure = false
			}
		}
	}
	if !pure {
		return e.unknownCall(c)
	}
	var ks []string
	var d []string
	for _, a := range c.args {
		ks = append(ks, e.argKey(c.st, a))
		d = unionStr(d, c.st.deps(a))
	}
	id := c.name + "(" + strings.Join(ks, ",") + ")"
	return []Out{{c.st, e.mkDeps(c.st, resultType(c.sig), id, d)}}
}

// argKey names an argument by its contents.
func (e *Engine) argKey(s *State, a Value) string {
	switch x := a.(type) {
	case VSlice:
		if p, ok := x.B.(VPtr); ok {
			return "slice{" + vkey(s.load(p)) + "," + x.Off.key() + "," + x.Len.key() + "}"
		}
	case VPtr:
		return "&" + vkey(s.load(x))
	}
	return vkey(a)
}

func (e *Engine) mkDeps(s *State, T types.Type, id string, d []string) Value {
	if t, ok := T.(*types.Tuple); ok {
		r := make(VTuple, t.Len())
		for i := range r {
			r[i] = e.mkDeps(s, t.At(i).Type(), fmt.Sprintf("%s.%d", id, i), d)
		}
		return r
	}
	v := s.mk(T, id)
	s.setDeps(id, d)
	return v
}

// unknownCall havocs what the callee can reach and returns unknown results.
func (e *Engine) unknownCall(c *Call) []Out {
	tok := c.fresh()
	var d []string
	for i, a := range c.args {
		d = unionStr(d, c.st.deps(a))
		e.havoc(c.st, a, fmt.Sprintf("hv%s%d", tok, i))
	}
	return []Out{{c.st, e.mkDeps(c.st, resultType(c.sig), "r"+tok, d)}}
}

func (e *Engine) havoc(s *State, a Value, name string) {
	switch x := a.(type) {
	case VPtr:
		o, ok := s.obj(x.Obj)
		if !ok || strings.HasPrefix(x.Obj, "G:") {
			return
		}
		if len(x.Path) == 0 {
			if o.T != nil {
				s.heap[x.Obj] = Obj{o.T, s.mk(o.T, name)}
			}
			return
		}
		old := s.load(x)
		if l, ok := old.(VLin); ok {
			_ = l
		}
		s.store(x, VUnkLike(s, old, name))
	case VSlice:
		if p, ok := x.B.(VPtr); ok {
			if q, ok := s.load(p).(VBytes); ok {
				n := s.seqLen(q.S)
				s.lenSym(name)
				s.z().assumeEQ(linSym(lenID(name)).sub(n))
				s.store(p, VBytes{opaqueSeq(name)})
			}
		}
	case VIface:
		e.havoc(s, x.V, name)
	}
}

// VUnkLike returns an unknown of the same kind as v.
func VUnkLike(s *State, v Value, name string) Value {
	switch x := v.(type) {
	case VStruct:
		return VUnk{name, x.T}
	case VUnk:
		return VUnk{name, x.T}
	case VBool, VAtom, VCmp, VEq, VPred:
		return VAtom{ID: name}
	case VSeq:
		s.lenSym(name)
		return opaqueSeq(name)
	case VLin:
		return VLin{linSym(name)}
	}
	return VOpaque{"havoc " + name}
}

// ---- builtins

func (e *Engine) builtin(s *State, x *ssa.Call, name string) []Out {
	args := x.Common().Args
	v := make([]Value, len(args))
	for i, a := range args {
		v[i] = e.val(s, a)
	}
	one := func(r Value) []Out { return []Out{{s, r}} }
	switch name {
	case "len":
		return one(VLin{e.lenOf(s, v[0], args[0].Type())})
	case "cap":
		tok := siteTok(x)
		s.fresh(tok)
		n := e.lenOf(s, v[0], args[0].Type())
		id := "cap" + tok
		s.z().sym(id)
		s.z().assumeLE(n.sub(linSym(id)))
		return one(VLin{linSym(id)})
	case "append":
		return one(e.appendTo(s, x, v[0], v[1], args[0].Type(), args[1].Type()))
	case "copy":
		return e.copyTo(s, x, v[0], v[1], args[0].Type())
	case "min", "max":
		outs := one(v[0])
		for _, w := range v[1:] {
			var n []Out
			for _, o := range outs {
				a, ok1 := o.v.(VLin)
				b, ok2 := w.(VLin)
				if !ok1 || !ok2 {
					n = append(n, Out{o.st, o.st.mk(x.Type(), name+"("+vkey(o.v)+","+vkey(w)+")")})
					continue
				}
				for _, t := range []bool{true, false} {
					st := o.st.clone()
					if st.assume(VCmp{"<=", a.Lin.sub(b.Lin)}, t) {
						r := a
						if t != (name == "min") {
							r = b
						}
						n = append(n, Out{st, r})
					}
				}
			}
			outs = n
		}
		return outs
	case "delete":
		if p, ok := v[0].(VPtr); ok {
			if m, ok := s.load(p).(VMap); ok {
				r := VMap{Other: m.Other}
				for _, c := range m.Keys {
					t, ok := s.decide(eqCond(c.K, v[1]))
					if ok && t {
						if m.Other != nil {
							r.Keys = append(r.Keys, MapCell{c.K, absent})
						}
						continue
					}
					if !ok {
						c.V = mkAlt(absent, c.V)
					}
					r.Keys = append(r.Keys, c)
				}
				s.store(p, r)
			}
		}
		return one(nil)
	case "clear":
		e.havoc(s, v[0], "clear"+siteTok(x))
		return one(nil)
	case "print", "println":
		return one(nil)
	case "recover":
		return one(VNil{})
	case "ssa:wrapnilchk":
		return one(v[0])
	}
	e.undecided("%s: builtin %s", e.p.pos(x.Pos()), name)
	return one(s.mk(x.Type(), "v"+siteTok(x)))
}

func (e *Engine) lenOf(s *State, v Value, T types.Type) Lin {
	switch x := v.(type) {
	case VSeq:
		return s.seqLen(x)
	case VSlice:
		return x.Len
	case VNil:
		return Lin{}
	case VPtr:
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return linConst(at.Len())
			}
		}
		if m, ok := s.load(x).(VMap); ok && m.Other == nil {
			n := int64(0)
			exact := true
			for _, c := range m.Keys {
				alts := altsOf(c.V)
				has := false
				for _, a := range alts {
					if vkey(a) == absent.key() {
						has = true
					}
				}
				if has && len(alts) > 1 {
					exact = false
				}
				if !has {
					n++
				}
			}
			if exact {
				return linConst(n)
			}
		}
	case VArr:
		return x.N
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		return linConst(at.Len())
	}
	id := "len(" + vkey(v) + ")"
	if u, ok := v.(VUnk); ok {
		id = lenID(u.ID)
	}
	if !s.zone.has(id) {
		z := s.z()
		z.le(0, z.sym(id), 0)
	}
	return linSym(id)
}

func (e *Engine) appendTo(s *State, in ssa.Instruction, dst, src Value, dt, st types.Type) Value {
	tok := siteTok(in)
	if isByteSlice(dt) && !(isNumbers(dt) && e.holdsNumbers(s, dst, src)) {
		a := s.seqOf(dst)
		b := s.seqOf(src)
		if e.onAppend != nil {
			e.onAppend(s, in, a, b)
		}
		e.overwritten(s, dst, in)
		// content of the source may mention the token; it is renamed with the state
		hold := VTuple{a, b}
		h := e.withHeld(s, hold, func() { s.fresh(tok) }).(VTuple)
		q := h[0].(VSeq).concat(h[1].(VSeq))
		if len(q.P) > e.maxSeq {
			q = e.summarise(s, q, "sum"+tok)
		}
		if len(q.P) == 0 {
			if _, ok := dst.(VNil); ok {
				return VNil{}
			}
		}
		o := "ap" + tok
		s.heap[o] = Obj{dt, VBytes{q}}
		return VSlice{VPtr{Obj: o}, Lin{}, s.seqLen(q)}
	}
	if d, ok := src.(VNil); ok {
		_ = d
		return dst
	}
	sl, ok := src.(VSlice)
	if !ok {
		e.undecided("%s: append of %s", e.p.pos(in.Pos()), vkey(src))
		return s.mk(dt, "v"+tok)
	}
	if sl.Len.isConst() && sl.Len.C == 0 {
		return dst
	}
	if e.mergeHeads {
		// only the length matters
		n, ok := lengthOf(s, dst)
		if !ok {
			e.undecided("%s: append to %s", e.p.pos(in.Pos()), vkey(dst))
			return s.mk(dt, "v"+tok)
		}
		if e.onElems != nil {
			e.onElems(s, in, sl)
		}
		h := e.withHeld(s, VLin{n.add(sl.Len)}, func() { s.fresh(tok) }).(VLin)
		v, ok := s.mk(dt, "v"+tok).(VSlice)
		if !ok {
			return s.mk(dt, "v"+tok)
		}
		v.Len = h.Lin
		return v
	}
	var elems []Value
	if sl.Len.isConst() && sl.Len.C <= 16 {
		for i := int64(0); i < sl.Len.C; i++ {
			elems = append(elems, e.elem(s, sl, linConst(i)))
		}
	}
	e.overwritten(s, dst, in)
	hold := VTuple{dst, VTuple(elems), sl}
	h := e.withHeld(s, hold, func() { s.fresh(tok) }).(VTuple)
	dst, elems, sl = h[0], []Value(h[1].(VTuple)), h[2].(VSlice)
	o := "ap" + tok
	var a VArr
	var n Lin
	switch d := dst.(type) {
	case VNil:
		a = VArr{Def: zero(elemType(dt))}
	case VSlice:
		n = d.Len
		var ok bool
		a, ok = s.sliceArr(d)
		if !ok {
			if d.Len.isConst() && d.Len.C <= 32 {
				a = VArr{Def: zero(elemType(dt))}
				for i := int64(0); i < d.Len.C; i++ {
					a.Cells = append(a.Cells, Cell{linConst(i), e.elem(s, d, linConst(i))})
				}
			} else {
				a = VArr{Def: VUnk{"cp" + tok, dt}}
			}
		}
	default:
		e.undecided("%s: append to %s", e.p.pos(in.Pos()), vkey(dst))
		return s.mk(dt, "v"+tok)
	}
	a.N = n.add(sl.Len)
	if elems == nil {
		if n.isConst() && n.C == 0 {
			if c, ok := s.sliceArr(sl); ok {
				c.N = sl.Len
				s.heap[o] = Obj{dt, c}
				return VSlice{VPtr{Obj: o}, Lin{}, sl.Len}
			}
		}
		s.heap[o] = Obj{dt, VArr{N: a.N, Def: VUnk{"cat" + tok, dt}}}
		return VSlice{VPtr{Obj: o}, Lin{}, a.N}
	}
	for i, v := range elems {
		a = s.arrPut(a, n.addC(int64(i)), v).(VArr)
	}
	a.N = n.add(sl.Len)
	s.heap[o] = Obj{dt, a}
	if e.onAppendElem != nil {
		e.onAppendElem(s, in, n, elems)
	}
	return VSlice{VPtr{Obj: o}, Lin{}, a.N}
}

// withHeld keeps v consistent with renamings of the state made by f.
func (e *Engine) withHeld(s *State, v Value, f func()) Value {
	slot := heldSlot
	old, had := s.env[slot]
	s.env[slot] = v
	f()
	v = s.env[slot]
	if t, ok := v.(VTuple); ok && t == nil {
		v = VTuple{}
	}
	if had {
		s.env[slot] = old
	} else {
		delete(s.env, slot)
	}
	return v
}

var heldSlot ssa.Value = &ssa.Parameter{}
var resSlot ssa.Value = &ssa.FreeVar{}

func init() {
	slotNames.Store(heldSlot, "held")
	slotNames.Store(resSlot, "res")
}

// overwritten: appending to a slice that ends before its backing array does
// overwrites the elements behind it.
func (e *Engine) overwritten(s *State, dst Value, in ssa.Instruction) {
	d, ok := dst.(VSlice)
	if !ok {
		return
	}
	p, ok := d.B.(VPtr)
	if !ok {
		return
	}
	var n Lin
	switch c := s.load(p).(type) {
	case VBytes:
		n = s.seqLen(c.S)
	case VArr:
		n = c.N
	default:
		return
	}
	if s.provLE(n, d.Off.add(d.Len)) {
		return
	}
	tok := siteTok(in)
	switch c := s.load(p).(type) {
	case VBytes:
		id := "ow" + tok
		s.lenSym(id)
		s.z().assumeEQ(linSym(lenID(id)).sub(n))
		s.store(p, VBytes{opaqueSeq(id)})
	case VArr:
		s.store(p, VArr{N: c.N, Def: VUnk{"ow" + tok, e.typeOfObj(s, p)}})
	}
}

func (e *Engine) typeOfObj(s *State, p VPtr) types.Type {
	o, _ := s.obj(p.Obj)
	return o.T
}

func (e *Engine) elem(s *State, sl VSlice, i Lin) Value {
	var p VPtr
	switch b := sl.B.(type) {
	case VUnk:
		p = s.backing(b)
	case VPtr:
		p = b
	}
	return s.load(VPtr{p.Obj, pathAdd(p.Path, PE{F: -1, I: sl.Off.add(i)})})
}

// isNumbers tells whether a slice is declared as one of numbers, not of bytes.
func isNumbers(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().(*types.Basic)
	return ok && b.Name() == "uint8"
}

// holdsNumbers tells whether slices are kept element by element.
func (e *Engine) holdsNumbers(s *State, vs ...Value) bool {
	for _, v := range vs {
		sl, ok := v.(VSlice)
		if !ok {
			if _, ok := v.(VNil); !ok {
				return false
			}
			continue
		}
		p, ok := sl.B.(VPtr)
		if !ok {
			return false
		}
		switch c := s.load(p).(type) {
		case VArr:
		case VBytes:
			if len(c.S.P) > 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// summarise replaces a long sequence by one unknown with the same characters.
func (e *Engine) summarise(s *State, q VSeq, id string) VSeq {
	s.setCs(id, s.seqCs(q))
	s.setDeps(id, s.deps(q))
	s.lenSym(id)
	s.z().define(lenID(id), s.seqLen(q))
	return opaqueSeq(id)
}

func (e *Engine) copyTo(s *State, x *ssa.Call, dst, src Value, dt types.Type) []Out {
	dl, sl := e.lenOf(s, dst, dt), e.lenOf(s, src, dt)
	var outs []Out
	for _, t := range []bool{true, false} {
		st := s.clone()
		if !st.assume(VCmp{"<=", dl.sub(sl)}, t) {
			continue
		}
		n := sl
		if t {
			n = dl
		}
		if d, ok := dst.(VSlice); ok {
			if p, ok := d.B.(VPtr); ok {
				if isByteSlice(dt) && d.Off.isConst() && d.Off.C == 0 {
					q := st.seqOf(src)
					whole := st.seqOf(VSlice{p, Lin{}, contentLen(st, p)})
					c := st.subSeq(q, Lin{}, n).concat(st.subSeq(whole, n, st.seqLen(whole).sub(n)))
					if st.provEQ(n, st.seqLen(whole)) {
						c = st.subSeq(q, Lin{}, n)
					}
					st.store(p, VBytes{c})
				} else {
					name := "copy" + siteTok(x)
					h := e.withHeld(st, VTuple{dst, src, VLin{n}, p}, func() { st.fresh(siteTok(x)) }).(VTuple)
					dst, src, n, p := h[0], h[1], h[2].(VLin).Lin, h[3].(VPtr)
					if a, ok := st.load(p).(VArr); ok {
						if so, ok := src.(VSlice); ok && d.Off.isConst() && d.Off.C == 0 && st.provEQ(n, a.N) {
							if sa, ok := st.sliceArr(so); ok {
								sa.N = a.N
								st.store(p, sa)
								outs = append(outs, Out{st, VLin{n}})
								continue
							}
						}
						st.store(p, VArr{N: a.N, Def: VUnk{name, dt}})
					} else {
						e.havoc(st, dst, name)
					}
				}
			} else {
				e.undecided("%s: copy into %s", e.p.pos(x.Pos()), vkey(dst))
			}
		}
		outs = append(outs, Out{st, VLin{n}})
	}
	return outs
}

func contentLen(s *State, p VPtr) Lin {
	switch c := s.load(p).(type) {
	case VBytes:
		return s.seqLen(c.S)
	case VArr:
		return c.N
	}
	return Lin{}
}
