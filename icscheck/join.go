package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// coarse, added to widen, forgets what the elements of slices are.
const coarse = 8

type joiner struct {
	a, b, c  *State
	tag      string // token, e.g. ⟨12.5⟩
	widen    int
	coarse   bool
	pairs    map[string]Lin
	las, lbs []linPair
	tokA     map[string]bool
	tokB     map[string]bool
	newFact  map[string]bool
}

type linPair struct {
	j string
	l Lin
}

func tokensOf(id string, f func(string)) {
	for {
		i := strings.Index(id, "⟨")
		if i < 0 {
			return
		}
		id = id[i:]
		j := strings.Index(id, "⟩")
		if j < 0 {
			return
		}
		f(id[:j+len("⟩")])
		id = id[len("⟨"):]
	}
}

func (s *State) tokens() map[string]bool {
	m := map[string]bool{}
	add := func(t string) { m[t] = true }
	f := func(id string) { tokensOf(id, add) }
	for k := range s.facts {
		f(k)
	}
	for _, k := range s.zone.syms {
		f(k)
	}
	for k, o := range s.heap {
		f(k)
		symsOf(o.V, f, f)
	}
	for _, v := range s.env {
		symsOf(v, f, f)
	}
	return m
}

// retireTok renames uses of tok in s to a generation unused in s and other.
func (s *State) retireTok(tok string, other *State) {
	if !s.mentions(tok) {
		return
	}
	for i := 1; ; i++ {
		n := strings.TrimSuffix(tok, "⟩") + strings.Repeat("~", i) + "⟩"
		if !s.mentions(n) && (other == nil || !other.mentions(n)) {
			s.rename(func(id string) string { return strings.ReplaceAll(id, tok, n) })
			return
		}
	}
}

// joinStates returns the least upper bound approximation of a and b, which
// must have the same ghost state. Values that differ become symbols named by
// tag and slot.
func joinStates(a, b *State, tag string, widen int) *State {
	b = b.clone()
	b.retireTok(tag, a)
	a = a.clone()
	j := &joiner{a: a, b: b, tag: tag, widen: widen &^ coarse, coarse: widen&coarse != 0, pairs: map[string]Lin{}, newFact: map[string]bool{}}
	j.tokA, j.tokB = a.tokens(), b.tokens()
	c := newState()
	c.q = a.q
	c.base = a.base
	c.basef = a.basef
	c.trace = a.trace
	j.c = c

	var ks []ssa.Value
	for k := range a.env {
		if _, ok := b.env[k]; ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(x, y int) bool { return slotName(ks[x]) < slotName(ks[y]) })
	for _, k := range ks {
		c.env[k] = j.val(slotName(k), a.env[k], b.env[k])
	}
	names := map[string]bool{}
	for k := range a.heap {
		names[k] = true
	}
	for k := range b.heap {
		names[k] = true
	}
	for _, k := range sortedKeys(names) {
		oa, ina := a.heap[k]
		ob, inb := b.heap[k]
		if !ina {
			oa, ina = a.base[k]
		}
		if !inb {
			ob, inb = b.base[k]
		}
		switch {
		case ina && inb:
			c.heap[k] = Obj{oa.T, j.val("h:"+k, oa.V, ob.V)}
		case ina:
			if v, ok := b.defaultObj(k, oa); ok && !j.vacuous(k, j.tokB, b) {
				c.heap[k] = Obj{oa.T, j.val("h:"+k, oa.V, v)}
			} else {
				c.heap[k] = oa
			}
		default:
			if v, ok := a.defaultObj(k, ob); ok && !j.vacuous(k, j.tokA, a) {
				c.heap[k] = Obj{ob.T, j.val("h:"+k, v, ob.V)}
			} else {
				c.heap[k] = ob
			}
		}
	}
	j.facts()
	j.zone()
	return c
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var slotNames sync.Map

func slotName(v ssa.Value) string {
	if s, ok := slotNames.Load(v); ok {
		return s.(string)
	}
	s := v.Name()
	if p := v.Parent(); p != nil {
		s = fnIndex(p) + "." + s
	}
	slotNames.Store(v, s)
	return s
}

var (
	fnIdx sync.Map
	fnNum atomic.Int64
)

func fnIndex(f *ssa.Function) string {
	if s, ok := fnIdx.Load(f); ok {
		return s.(string)
	}
	s, _ := fnIdx.LoadOrStore(f, fmt.Sprint("f", fnNum.Add(1)))
	return s.(string)
}

// defaultObj returns the unmodified contents of the lazily created object k.
func (s *State) defaultObj(k string, o Obj) (Value, bool) {
	if strings.HasSuffix(k, "^") {
		return s.mk(o.T, k), true
	}
	if strings.HasSuffix(k, "#") {
		return VUnk{k, o.T}, true
	}
	return nil, false
}

// vacuous reports whether name cannot denote anything in state s, either
// because the program point that creates it has not been passed or because it
// lies behind a pointer that is nil there.
func (j *joiner) vacuous(name string, toks map[string]bool, s *State) bool {
	v := false
	tokensOf(name, func(t string) {
		if !toks[t] && t != j.tag {
			v = true
		}
	})
	if v {
		return true
	}
	if strings.HasPrefix(name, "len(") {
		name = strings.TrimSuffix(name[4:], ")")
	}
	for i, r := range name {
		if r == '^' {
			if f := s.facts[name[:i]]; f != nil && f.Nil == 1 {
				return true
			}
		}
	}
	return false
}

func (j *joiner) sym(slot string) string { return "J" + j.tag + slot }

func (j *joiner) lin(slot string, la, lb Lin) Lin {
	if la.key() == lb.key() {
		return la
	}
	own := j.sym(slot)
	if len(la.T) == 1 && la.C == 0 && la.T[0].K == 1 && la.T[0].Sym == own {
		if _, done := j.pairs[la.key()+"|"+lb.key()]; !done {
			j.pairs[la.key()+"|"+lb.key()] = la
		}
		if !j.newFact[own] {
			j.newFact[own] = true
			j.lbs = append(j.lbs, linPair{own, lb})
			j.linFact(own, la, lb)
		}
		return la
	}
	// normalise by the constant so that values moving together share a symbol
	na, nb := la.addC(-la.C), lb.addC(-la.C)
	if l, ok := j.pairs[na.key()+"|"+nb.key()]; ok {
		return l.addC(la.C)
	}
	if l, ok := j.pairs[la.key()+"|"+lb.key()]; ok {
		return l
	}
	j.pairs[na.key()+"|"+nb.key()] = linSym(own).addC(-la.C)
	j.las = append(j.las, linPair{own, la})
	j.lbs = append(j.lbs, linPair{own, lb})
	j.newFact[own] = true
	j.linFact(own, la, lb)
	return linSym(own)
}

func (j *joiner) linFact(own string, la, lb Lin) {
	var f Fact
	f.Deps = unionStr(j.a.depsLin(la), j.b.depsLin(lb))
	ca, oka := charLike(j.a, la)
	cb, okb := charLike(j.b, lb)
	if oka && okb {
		c := ca.or(cb)
		f.Cs = &c
	}
	cand := map[int64]bool{}
	for _, x := range []struct {
		s *State
		l Lin
	}{{j.a, la}, {j.b, lb}} {
		if len(x.l.T) == 1 && x.l.T[0].K == 1 {
			if g := x.s.facts[x.l.T[0].Sym]; g != nil {
				for _, n := range g.INe {
					cand[n+x.l.C] = true
				}
			}
		}
	}
	for n := range cand {
		if j.a.provNE(la, linConst(n)) && j.b.provNE(lb, linConst(n)) {
			f.INe = append(f.INe, n)
		}
	}
	sort.Slice(f.INe, func(x, y int) bool { return f.INe[x] < f.INe[y] })
	if len(f.Deps) > 0 || f.Cs != nil || len(f.INe) > 0 {
		j.c.setFact(own, f)
	}
}

// charLike: a constant character or a symbol with a known character set.
func charLike(s *State, l Lin) (Charset, bool) {
	if l.isConst() {
		return csRange(l.C, l.C), l.C >= -1 && l.C < 128
	}
	if len(l.T) == 1 && l.T[0].K == 1 && l.C == 0 {
		if f := s.facts[l.T[0].Sym]; f != nil && f.Cs != nil {
			return s.linCs(l), true
		}
	}
	return csAny, false
}

func (j *joiner) seq(slot string, x, y VSeq) VSeq {
	if x.key() == y.key() {
		return x
	}
	own := j.sym(slot)
	if j.newFact[own] {
		return opaqueSeq(own)
	}
	j.newFact[own] = true
	var f Fact
	c := j.a.seqCs(x).or(j.b.seqCs(y))
	f.Cs = &c
	f.Deps = unionStr(j.a.deps(x), j.b.deps(y))
	ne := map[string]bool{}
	for _, w := range []struct {
		s *State
		q VSeq
	}{{j.a, x}, {j.b, y}} {
		if id, ok := w.q.single(); ok {
			for _, n := range w.s.fact(id).Ne {
				ne[n] = true
			}
		}
	}
	for _, n := range sortedKeys(ne) {
		if t, ok := j.a.decideEqSeq(x, lit(n)); ok && !t {
			if t, ok := j.b.decideEqSeq(y, lit(n)); ok && !t {
				f.Ne = append(f.Ne, n)
			}
		}
	}
	j.c.setFact(own, f)
	// the length symbol of the joined sequence
	la, lb := j.a.seqLen(x), j.b.seqLen(y)
	n := lenID(own)
	if !(len(la.T) == 1 && la.C == 0 && la.T[0].Sym == n) {
		j.las = append(j.las, linPair{n, la})
	}
	j.lbs = append(j.lbs, linPair{n, lb})
	return opaqueSeq(own)
}

func (j *joiner) val(slot string, x, y Value) Value {
	if x == nil || y == nil {
		if x == nil && y == nil {
			return nil
		}
		return VOpaque{"half " + slot}
	}
	if vkey(x) == vkey(y) {
		return x
	}
	// alternatives
	_, xalt := x.(VAlt)
	_, yalt := y.(VAlt)
	if xalt || yalt {
		return j.alts(slot, altsOf(x), altsOf(y))
	}
	switch p := x.(type) {
	case VLin:
		if r, ok := y.(VLin); ok {
			return VLin{j.lin(slot, p.Lin, r.Lin)}
		}
	case VBool, VAtom, VCmp, VEq, VPred:
		switch y.(type) {
		case VBool, VAtom, VCmp, VEq, VPred:
			own := j.sym(slot)
			ta, oka := j.a.decide(x)
			tb, okb := j.b.decide(y)
			if oka && okb && ta == tb {
				return VBool(ta)
			}
			f := Fact{Deps: unionStr(j.a.deps(x), j.b.deps(y))}
			if f.Deps != nil {
				j.c.setFact(own, f)
			}
			return VAtom{ID: own}
		}
	case VSeq:
		if r, ok := y.(VSeq); ok {
			return j.seq(slot, p, r)
		}
	case VBytes:
		switch r := y.(type) {
		case VBytes:
			return VBytes{j.seq(slot, p.S, r.S)}
		case VArr:
			return VBytes{j.seq(slot, p.S, j.b.arrSeq(r, Lin{}, r.N, slot))}
		case VUnk:
			return VBytes{j.seq(slot, p.S, opaqueSeq(strings.TrimSuffix(r.ID, "#")))}
		}
	case VSlice:
		switch r := y.(type) {
		case VSlice:
			return j.slice(slot, p, r)
		case VNil:
			if j.byteSlice(p, j.a) {
				return j.slice(slot, p, VSlice{Len: Lin{}})
			}
		}
	case VNil:
		if r, ok := y.(VSlice); ok && j.byteSlice(r, j.b) {
			return j.slice(slot, VSlice{Len: Lin{}}, r)
		}
	case VPtr:
		if r, ok := y.(VPtr); ok && r.Obj == p.Obj && len(r.Path) == len(p.Path) {
			n := VPtr{Obj: p.Obj}
			same := true
			for i := range p.Path {
				if p.Path[i].F != r.Path[i].F {
					same = false
					break
				}
				e := p.Path[i]
				if e.F < 0 {
					e.I = j.lin(fmt.Sprintf("%s@%d", slot, i), p.Path[i].I, r.Path[i].I)
				}
				n.Path = append(n.Path, e)
			}
			if same {
				return n
			}
		}
	case VStruct:
		switch r := y.(type) {
		case VStruct:
			if len(p.F) == len(r.F) {
				return j.strct(slot, p, r)
			}
		case VUnk:
			if r.T != nil && typeKey(r.T.Underlying()) == typeKey(p.T.Underlying()) {
				return j.strct(slot, p, j.b.expand(r))
			}
		}
	case VUnk:
		switch r := y.(type) {
		case VStruct:
			if p.T != nil && typeKey(p.T.Underlying()) == typeKey(r.T.Underlying()) {
				return j.strct(slot, j.a.expand(p), r)
			}
		case VUnk:
			return j.unk(slot, p, r)
		case VArr:
			if isIndexableUnk(p) {
				return j.arr(slot, VArr{N: r.N, Def: p}, r)
			}
		case VBytes:
			return VBytes{j.seq(slot, opaqueSeq(strings.TrimSuffix(p.ID, "#")), r.S)}
		}
	case VArr:
		switch r := y.(type) {
		case VArr:
			return j.arr(slot, p, r)
		case VUnk:
			if isIndexableUnk(r) {
				return j.arr(slot, p, VArr{N: p.N, Def: r})
			}
		case VBytes:
			return VBytes{j.seq(slot, j.a.arrSeq(p, Lin{}, p.N, slot), r.S)}
		}
	case VIface:
		if r, ok := y.(VIface); ok && typeKey(r.T) == typeKey(p.T) {
			return VIface{p.T, j.val(slot+"!", p.V, r.V)}
		}
	case VErr:
		if r, ok := y.(VErr); ok {
			return VErr{j.sym(slot), interStr(p.Causes, r.Causes)}
		}
	case VTuple:
		if r, ok := y.(VTuple); ok && len(r) == len(p) {
			n := make(VTuple, len(p))
			for i := range p {
				n[i] = j.val(fmt.Sprintf("%s:%d", slot, i), p[i], r[i])
			}
			return n
		}
	case VMap:
		if r, ok := y.(VMap); ok {
			return j.maps(slot, p, r)
		}
	case VTok:
		if r, ok := y.(VTok); ok {
			return VTok{j.seq(slot+":p", p.Pend, r.Pend), j.seq(slot+":n", p.Src, r.Src)}
		}
	case VIter:
		if r, ok := y.(VIter); ok && r.ID == p.ID {
			return VIter{p.ID, j.seq(slot+":s", p.Src, r.Src), j.seq(slot+":d", p.Done, r.Done)}
		}
	case VOpaque:
		if _, ok := y.(VOpaque); ok {
			return VOpaque{"mixed " + slot}
		}
	}
	return mkAlt(x, y)
}

func altsOf(v Value) []Value {
	if a, ok := v.(VAlt); ok {
		return a
	}
	return []Value{v}
}

// alts joins two sets of alternatives: members of the same kind are merged
// where that loses little.
func (j *joiner) alts(slot string, xs, ys []Value) Value {
	kind := func(v Value) string {
		switch t := v.(type) {
		case VSlice:
			return "slice"
		case VNil:
			return "nil"
		case VUnk:
			return "unk"
		case VErr:
			return "err"
		case VIface:
			return "iface" + typeKey(t.T)
		case VPtr:
			return "ptr" + t.Obj
		case VFn:
			return "fn" + t.Fn.String()
		}
		return vkey(v)
	}
	m := map[string][2]Value{}
	for _, v := range xs {
		k := kind(v)
		p := m[k]
		if p[0] == nil {
			p[0] = v
		} else {
			p[0] = mkAlt(p[0], v)
		}
		m[k] = p
	}
	for _, v := range ys {
		k := kind(v)
		p := m[k]
		if p[1] == nil {
			p[1] = v
		} else {
			p[1] = mkAlt(p[1], v)
		}
		m[k] = p
	}
	var r Value
	for _, k := range sortedKeys(m) {
		p := m[k]
		var v Value
		_, a0 := p[0].(VAlt)
		_, a1 := p[1].(VAlt)
		switch {
		case p[0] == nil:
			v = p[1]
		case p[1] == nil:
			v = p[0]
		case a0 || a1:
			v = mkAlt(p[0], p[1])
		default:
			v = j.val(slot+"|"+strings.SplitN(k, "⟨", 2)[0], p[0], p[1])
		}
		if r == nil {
			r = v
		} else {
			r = mkAlt(r, v)
		}
	}
	if l, ok := r.(VAlt); ok && len(l) > 12 {
		return VOpaque{"mixed " + slot}
	}
	return r
}

func (j *joiner) byteSlice(x VSlice, s *State) bool {
	switch b := x.B.(type) {
	case VUnk:
		return b.T != nil && isByteSlice(b.T)
	case VPtr:
		o, ok := s.obj(b.Obj)
		if !ok || len(b.Path) > 0 {
			return false
		}
		switch o.V.(type) {
		case VBytes:
			return true
		}
		if o.T != nil && isIndexable(o.T) {
			return isByte(elemType(o.T))
		}
	}
	return false
}

func (j *joiner) slice(slot string, x, y VSlice) Value {
	if x.B != nil && y.B != nil && vkey(x.B) == vkey(y.B) {
		return VSlice{x.B, j.lin(slot+":o", x.Off, y.Off), j.lin(slot+":l", x.Len, y.Len)}
	}
	bytes := x.B == nil && j.byteSlice(y, j.b) || y.B == nil && j.byteSlice(x, j.a) || x.B != nil && y.B != nil && j.byteSlice(x, j.a) && j.byteSlice(y, j.b)
	if bytes {
		qx, qy := VSeq{}, VSeq{}
		if x.B != nil {
			qx = j.a.seqOf(x)
		}
		if y.B != nil {
			qy = j.b.seqOf(y)
		}
		q := j.seq(slot+":c", qx, qy)
		o := j.sym(slot) + ":o"
		j.c.heap[o] = Obj{nil, VBytes{q}}
		// the length is that of the contents
		var l Lin
		for _, p := range q.P {
			if p.ID == "" {
				l.C += int64(len(p.Lit))
			} else {
				l = l.add(linSym(lenID(p.ID)))
			}
		}
		return VSlice{VPtr{Obj: o}, Lin{}, l}
	}
	if x.B == nil || y.B == nil {
		return VOpaque{"mixed slice " + slot}
	}
	ux, okx := x.B.(VUnk)
	uy, oky := y.B.(VUnk)
	if okx && oky {
		return VSlice{j.unk(slot+":b", ux, uy), j.lin(slot+":o", x.Off, y.Off), j.lin(slot+":l", x.Len, y.Len)}
	}
	ax, okx := j.a.sliceArr(x)
	ay, oky := j.b.sliceArr(y)
	if okx && oky {
		o := j.sym(slot) + ":o"
		v := j.arr(slot+":c", ax, ay)
		var T = j.a.sliceElemHolder(x)
		j.c.heap[o] = Obj{T, v}
		return VSlice{VPtr{Obj: o}, Lin{}, j.lin(slot+":l", x.Len, y.Len)}
	}
	return mkAlt(x, y)
}

func (j *joiner) strct(slot string, x, y VStruct) Value {
	r := VStruct{x.T, make([]Value, len(x.F))}
	for i := range x.F {
		r.F[i] = j.val(fmt.Sprintf("%s.%d", slot, i), x.F[i], y.F[i])
	}
	return r
}

func (j *joiner) unk(slot string, x, y VUnk) Value {
	if x.ID == y.ID {
		return x
	}
	own := j.sym(slot)
	fa, fb := j.a.fact(x.ID), j.b.fact(y.ID)
	f := Fact{Deps: unionStr(j.a.depsID(x.ID), j.b.depsID(y.ID))}
	if fa.Nil == fb.Nil {
		f.Nil = fa.Nil
	}
	if fa.Ty == fb.Ty {
		f.Ty = fa.Ty
	}
	f.TyNe = interStr(fa.TyNe, fb.TyNe)
	j.c.setFact(own, f)
	j.newFact[own] = true
	return VUnk{own, x.T}
}

func (j *joiner) arr(slot string, x, y VArr) Value {
	r := VArr{N: j.lin(slot+":n", x.N, y.N)}
	ux, okx := x.Def.(VUnk)
	uy, oky := y.Def.(VUnk)
	if okx && oky && isIndexable(ux.T) && isIndexable(uy.T) {
		r.Def = j.unk(slot+":d", ux, uy)
	} else if okx && isIndexable(ux.T) {
		r.Def = VUnk{j.sym(slot + ":d"), ux.T}
	} else if oky && isIndexable(uy.T) {
		r.Def = VUnk{j.sym(slot + ":d"), uy.T}
	} else {
		r.Def = j.val(slot+":d", x.Def, y.Def)
	}
	if j.coarse && (okx && isIndexable(ux.T) || oky && isIndexable(uy.T)) {
		T := ux.T
		if !okx || !isIndexable(T) {
			T = uy.T
		}
		r.Def = VUnk{j.sym(slot + ":d"), T}
		return r
	}
	idx := map[string]Lin{}
	for _, c := range x.Cells {
		idx[c.I.key()] = c.I
	}
	for _, c := range y.Cells {
		idx[c.I.key()] = c.I
	}
	for _, k := range sortedKeys(idx) {
		i := idx[k]
		r.Cells = append(r.Cells, Cell{i, j.val(slot+"["+k+"]", j.a.arrGet(x, i), j.b.arrGet(y, i))})
	}
	switch {
	case x.Seg != nil && y.Seg != nil:
		r.Seg = &Seg{j.lin(slot+":lo", x.Seg.Lo, y.Seg.Lo), j.lin(slot+":hi", x.Seg.Hi, y.Seg.Hi), j.val(slot+":sv", x.Seg.V, y.Seg.V)}
	case x.Seg != nil:
		// an empty segment anchored at the end that is constant
		r.Seg = j.emptySeg(slot, x.Seg, true)
	case y.Seg != nil:
		r.Seg = j.emptySeg(slot, y.Seg, false)
	}
	return r
}

func (j *joiner) emptySeg(slot string, s *Seg, inA bool) *Seg {
	anchor := s.Hi
	if !s.Hi.isConst() {
		if !s.Lo.isConst() {
			return nil
		}
		anchor = s.Lo
	}
	if inA {
		return &Seg{j.lin(slot+":lo", s.Lo, anchor), j.lin(slot+":hi", s.Hi, anchor), j.val(slot+":sv", s.V, j.xfer(s.V, j.a))}
	}
	return &Seg{j.lin(slot+":lo", anchor, s.Lo), j.lin(slot+":hi", anchor, s.Hi), j.val(slot+":sv", j.xfer(s.V, j.b), s.V)}
}

// xfer makes a value of one state usable in both (empty segment): constants and
// opaque symbols keep their meaning since nothing is claimed in the other.
func (j *joiner) xfer(v Value, from *State) Value {
	other := j.a
	if from == j.a {
		other = j.b
	}
	symsOf(v, func(id string) {
		if f := from.facts[id]; f != nil && other.facts[id] == nil {
			other.facts[id] = f
		}
		if from.zone.has(id) && !other.zone.has(id) {
			z := other.z()
			i := z.sym(id)
			if u := from.zone.ub(linSym(id)); u < inf {
				z.le(i, 0, u)
			}
			if l := from.zone.lb(linSym(id)); l > -inf {
				z.le(0, i, -l)
			}
		}
	}, func(string) {})
	return v
}

func (j *joiner) maps(slot string, x, y VMap) Value {
	keys := map[string]Value{}
	for _, c := range x.Keys {
		keys[vkey(c.K)] = c.K
	}
	for _, c := range y.Keys {
		keys[vkey(c.K)] = c.K
	}
	var r VMap
	for _, k := range sortedKeys(keys) {
		va, vb := x.get(k), y.get(k)
		r.Keys = append(r.Keys, MapCell{keys[k], j.val(slot+"{"+k+"}", va, vb)})
	}
	switch {
	case x.Other == nil && y.Other == nil:
	case x.Other == nil:
		r.Other = y.Other
	case y.Other == nil:
		r.Other = x.Other
	default:
		r.Other = j.val(slot+":other", x.Other, y.Other)
	}
	if len(r.Keys) > 24 {
		r.Keys = nil
		r.Other = VOpaque{"mixed map " + slot}
	}
	return r
}

var absent = VOpaque{"absent"}

func (m VMap) get(k string) Value {
	for _, c := range m.Keys {
		if vkey(c.K) == k {
			return c.V
		}
	}
	if m.Other != nil {
		return mkAlt(absent, m.Other)
	}
	return absent
}

func (j *joiner) facts() {
	ids := map[string]bool{}
	for k := range j.a.facts {
		ids[k] = true
	}
	for k := range j.b.facts {
		ids[k] = true
	}
	for id := range ids {
		if j.newFact[id] {
			continue
		}
		fa, fb := j.a.facts[id], j.b.facts[id]
		if fb == nil || fa == nil {
			if fb == nil && j.vacuous(id, j.tokB, j.b) {
				j.c.facts[id] = fa
				continue
			}
			if fa == nil && j.vacuous(id, j.tokA, j.a) {
				j.c.facts[id] = fb
				continue
			}
			g := fa
			if g == nil {
				g = fb
			}
			if g.Deps != nil {
				// provenance survives unless it is the default
				j.c.setFact(id, Fact{Deps: g.Deps})
			}
			continue
		}
		if fa == fb {
			j.c.facts[id] = fa
			continue
		}
		var f Fact
		if fa.Nil == fb.Nil {
			f.Nil = fa.Nil
		}
		if fa.B == fb.B {
			f.B = fa.B
		}
		if fa.Eq != nil && fb.Eq != nil && *fa.Eq == *fb.Eq {
			f.Eq = fa.Eq
		}
		ne := func(f *Fact) []string { return f.Ne }
		f.Ne = interStr(ne(fa), ne(fb))
		for _, w := range [][2]*Fact{{fa, fb}, {fb, fa}} {
			if w[0].Eq != nil {
				for _, n := range w[1].Ne {
					if n != *w[0].Eq {
						f.Ne = insStr(f.Ne, n)
					}
				}
			}
		}
		ca, cb := fa.Cs, fb.Cs
		if fa.Eq != nil {
			c := csOf(*fa.Eq)
			ca = &c
		}
		if fb.Eq != nil {
			c := csOf(*fb.Eq)
			cb = &c
		}
		if ca != nil && cb != nil {
			c := ca.or(*cb)
			f.Cs = &c
		}
		for _, n := range fa.INe {
			if hasInt(fb.INe, n) || j.b.provNE(linSym(id), linConst(n)) {
				f.INe = append(f.INe, n)
			}
		}
		for _, n := range fb.INe {
			if !hasInt(fa.INe, n) && j.a.provNE(linSym(id), linConst(n)) {
				f.INe = append(f.INe, n)
			}
		}
		sort.Slice(f.INe, func(x, y int) bool { return f.INe[x] < f.INe[y] })
		if fa.Ty == fb.Ty {
			f.Ty = fa.Ty
		}
		f.TyNe = interStr(fa.TyNe, fb.TyNe)
		for _, w := range [][2]*Fact{{fa, fb}, {fb, fa}} {
			if w[0].Ty != "" {
				for _, n := range w[1].TyNe {
					if n != w[0].Ty {
						f.TyNe = insStr(f.TyNe, n)
					}
				}
			}
		}
		f.Deps = unionStr(fa.Deps, fb.Deps)
		if f.key() != "n0b0" {
			j.c.setFact(id, f)
		}
	}
}

func (j *joiner) zone() {
	za, zb := j.a.zone.clone(), j.b.zone.clone()
	va, vb := map[string]bool{}, map[string]bool{}
	for _, s := range za.syms[1:] {
		if !zb.has(s) && j.vacuous(s, j.tokB, j.b) {
			va[s] = true
		}
	}
	for _, s := range zb.syms[1:] {
		if !za.has(s) && j.vacuous(s, j.tokA, j.a) {
			vb[s] = true
		}
	}
	for _, p := range j.las {
		za.define(p.j, p.l)
	}
	// symbols of b's expressions must not be confused with j's
	for _, p := range j.lbs {
		zb.define(p.j, p.l)
	}
	used := map[string]bool{}
	f := func(id string) { used[id] = true }
	for _, v := range j.c.env {
		symsOf(v, f, f)
	}
	for k, o := range j.c.heap {
		used[k] = true
		symsOf(o.V, f, f)
	}
	if r, ok := j.c.q.(interface{ Syms(sym, obj func(string)) }); ok {
		r.Syms(f, f)
	}
	// what is only known about values of earlier turns is forgotten in time
	old := func(id string) bool { return j.widen > 0 && !used[id] && strings.Contains(id, "~⟩") }
	for id := range j.c.facts {
		if old(id) {
			delete(j.c.facts, id)
		}
	}
	for id := range j.c.facts {
		used[id] = true
	}
	for _, z := range []*Zone{za, zb} {
		for _, s := range z.syms[1:] {
			if !used[s] && !old(s) && keepFact(s, used, used) {
				used[s] = true
			}
		}
	}
	// type bounds of symbols missing on one side
	ext := func(from, to *Zone, set map[string]bool) {
		for s := range set {
			if !used[s] {
				continue
			}
			i := to.sym(s)
			if u := from.bound(s, ""); u < inf {
				to.le(i, 0, u)
			}
			if u := from.bound("", s); u < inf {
				to.le(0, i, u)
			}
		}
	}
	// lengths are never negative, whichever side mentions them
	for _, z := range []*Zone{za, zb} {
		o := zb
		if z == zb {
			o = za
		}
		for _, s := range z.syms[1:] {
			if strings.HasPrefix(s, "len(") && !o.has(s) {
				o.le(0, o.sym(s), 0)
			}
		}
	}
	ext(za, zb, va)
	ext(zb, za, vb)
	za.keep(used)
	zb.keep(used)
	j.c.zone = joinZone(za, zb, j.widen)
	j.c.zown = true
}

// sameState reports whether two states are identical.
func sameState(a, b *State) bool {
	if len(a.env) != len(b.env) || len(a.heap) != len(b.heap) || len(a.facts) != len(b.facts) || a.q.Key() != b.q.Key() {
		return false
	}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok || vkey(v) != vkey(w) {
			return false
		}
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok || vkey(v.V) != vkey(w.V) {
			return false
		}
	}
	for k, v := range a.facts {
		w, ok := b.facts[k]
		if !ok || v != w && v.key() != w.key() {
			return false
		}
	}
	return a.zone.leq(b.zone) && b.zone.leq(a.zone)
}
