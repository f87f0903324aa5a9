package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ghost is the state of a check-specific automaton that accompanies a State.
type Ghost interface{ Key() string }

type GNone struct{}

func (GNone) Key() string { return "" }

type Obj struct {
	T types.Type
	V Value
}

// State is one abstract state.
type State struct {
	env   map[ssa.Value]Value
	heap  map[string]Obj
	base  map[string]Obj // globals, shared and never modified
	basef map[string]*Fact
	facts map[string]*Fact
	zone  *Zone
	zown  bool // zone is exclusively owned
	q     Ghost
	dead  bool
	trace []string
}

func newState() *State {
	return &State{env: map[ssa.Value]Value{}, heap: map[string]Obj{}, facts: map[string]*Fact{}, zone: newZone(), zown: true, q: GNone{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]Value, len(s.env)), heap: make(map[string]Obj, len(s.heap)), facts: make(map[string]*Fact, len(s.facts)), base: s.base, basef: s.basef, zone: s.zone, q: s.q, dead: s.dead, trace: s.trace}
	s.zown = false
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

// z returns the zone for modification.
func (s *State) z() *Zone {
	if !s.zown {
		s.zone = s.zone.clone()
		s.zown = true
	}
	return s.zone
}

func (s *State) fact(id string) Fact {
	if f := s.facts[id]; f != nil {
		return *f
	}
	if f := s.basef[id]; f != nil {
		return *f
	}
	return Fact{}
}

func (s *State) setFact(id string, f Fact) { s.facts[id] = &f }

// ---- construction of unknown values

func intRange(t types.Type) (lo, hi int64, bounded bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf, true
	case types.Int, types.Int64, types.UntypedInt:
		return -inf, inf, true
	}
	return 0, 0, false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isByte(sl.Elem())
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// mk returns an unknown value of type T named id.
func (s *State) mk(T types.Type, id string) Value {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			s.intSym(T, id)
			return VLin{linSym(id)}
		case u.Info()&types.IsBoolean != 0:
			switch s.fact(id).B {
			case 1:
				return VBool(false)
			case 2:
				return VBool(true)
			}
			return VAtom{ID: id}
		case u.Info()&types.IsString != 0:
			if f := s.facts[id]; f != nil && f.Eq != nil {
				return lit(*f.Eq)
			}
			s.lenSym(id)
			return opaqueSeq(id)
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
	case *types.Slice:
		if s.fact(id).Nil == 1 {
			return VNil{}
		}
		return VSlice{VUnk{id, T}, Lin{}, s.lenSym(id)}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		if s.fact(id).Nil == 1 {
			return VNil{}
		}
	case *types.Tuple:
		r := make(VTuple, u.Len())
		for i := range r {
			r[i] = s.mk(u.At(i).Type(), fmt.Sprintf("%s.%d", id, i))
		}
		return r
	}
	return VUnk{id, T}
}

func (s *State) intSym(T types.Type, id string) {
	if s.zone.has(id) {
		return
	}
	if lo, hi, ok := intRange(T); ok && (lo > -inf || hi < inf) {
		z := s.z()
		i := z.sym(id)
		if lo > -inf {
			z.le(0, i, -lo)
		}
		if hi < inf {
			z.le(i, 0, hi)
		}
	}
}

func (s *State) lenSym(id string) Lin {
	n := lenID(id)
	if !s.zone.has(n) {
		z := s.z()
		z.le(0, z.sym(n), 0)
	}
	return linSym(n)
}

func (s *State) seqLen(q VSeq) Lin {
	var l Lin
	for _, p := range q.P {
		if p.ID == "" {
			l.C += int64(len(p.Lit))
		} else {
			l = l.add(s.lenSym(p.ID))
		}
	}
	return l
}

// norm replaces parts known to equal a constant by it.
func (s *State) norm(q VSeq) VSeq {
	need := false
	for _, p := range q.P {
		if p.ID != "" {
			if f := s.facts[p.ID]; f != nil && f.Eq != nil || s.zone.has(lenID(p.ID)) && s.zone.ub(linSym(lenID(p.ID))) <= 0 {
				need = true
			}
		}
	}
	if !need {
		return q
	}
	var r VSeq
	for _, p := range q.P {
		if p.ID != "" {
			if f := s.facts[p.ID]; f != nil && f.Eq != nil {
				r = r.concat(lit(*f.Eq))
				continue
			}
			if s.zone.has(lenID(p.ID)) && s.zone.ub(linSym(lenID(p.ID))) <= 0 {
				continue
			}
		}
		r = r.concat(VSeq{[]Part{p}})
	}
	return r
}

// charset of all characters that may occur in q.
func (s *State) seqCs(q VSeq) Charset {
	var c Charset
	for _, p := range q.P {
		if p.ID == "" {
			c = c.or(csOf(p.Lit))
		} else if z := s.zone; z.has(lenID(p.ID)) && z.ub(linSym(lenID(p.ID))) <= 0 {
			continue
		} else if f := s.facts[p.ID]; f != nil && f.Eq != nil {
			c = c.or(csOf(*f.Eq))
		} else if f != nil && f.Cs != nil {
			c = c.or(f.Cs.and(s.runeCs(p.ID)))
		} else {
			c = c.or(s.runeCs(p.ID))
		}
	}
	return c
}

// runeCs returns the characters a part that is a single character can be.
func (s *State) runeCs(id string) Charset {
	sym, ok := runePartSym(id)
	if !ok {
		return csAll
	}
	c := s.linCs(linSym(sym))
	if c.EOF {
		c.EOF, c.Non = false, true
	}
	return c
}

// linCs returns the set of characters an integer may stand for.
func (s *State) linCs(l Lin) Charset {
	if l.isConst() {
		return csRange(l.C, l.C)
	}
	lo, hi := s.zone.lb(l), s.zone.ub(l)
	c := csRange(lo, hi)
	if len(l.T) == 1 && l.T[0].K == 1 {
		if f := s.facts[l.T[0].Sym]; f != nil {
			if f.Cs != nil && l.C == 0 {
				c = c.and(*f.Cs)
			}
			for _, n := range f.INe {
				if v := n + l.C; v < 128 {
					c = c.minus(csRange(v, v))
				}
			}
		}
	}
	return c
}

func (s *State) depsLin(l Lin) []string {
	var d []string
	for _, t := range l.T {
		d = unionStr(d, s.depsID(t.Sym))
	}
	return d
}

// depsID returns the data sources that the symbol is computed from. A symbol
// whose name starts with § is a source itself.
func (s *State) depsID(id string) []string {
	if f := s.facts[id]; f != nil && f.Deps != nil {
		return f.Deps
	}
	if strings.HasPrefix(id, "§") {
		return []string{id}
	}
	if strings.HasPrefix(id, "len(") {
		return s.depsID(strings.TrimSuffix(id[4:], ")"))
	}
	return nil
}

func (s *State) deps(v Value) []string {
	switch x := v.(type) {
	case VLin:
		return s.depsLin(x.Lin)
	case VSeq:
		var d []string
		for _, p := range x.P {
			if p.ID != "" {
				d = unionStr(d, s.depsID(p.ID))
			}
		}
		return d
	case VBytes:
		return s.deps(x.S)
	case VSlice:
		if isByteLike(x) {
			return s.deps(s.seqOf(x))
		}
		if u, ok := x.B.(VUnk); ok {
			return s.depsID(u.ID)
		}
	case VUnk:
		return s.depsID(x.ID)
	case VAtom:
		return s.depsID(x.ID)
	case VStruct:
		var d []string
		for _, f := range x.F {
			d = unionStr(d, s.deps(f))
		}
		return d
	case VIface:
		return s.deps(x.V)
	case VPtr:
		if o, ok := s.obj(x.Obj); ok && len(x.Path) == 0 {
			return s.deps(o.V)
		}
	case VAlt:
		var d []string
		for _, f := range x {
			d = unionStr(d, s.deps(f))
		}
		return d
	}
	return nil
}

func (s *State) setDeps(id string, d []string) {
	if len(d) == 0 {
		return
	}
	f := s.fact(id)
	f.Deps = d
	s.setFact(id, f)
}

func (s *State) setCs(id string, c Charset) {
	f := s.fact(id)
	if f.Cs != nil {
		c = c.and(*f.Cs)
	}
	f.Cs = &c
	s.setFact(id, f)
}

func isByteLike(x VSlice) bool { return true }

// seqOf returns the contents of a byte slice as a sequence.
func (s *State) seqOf(v Value) VSeq {
	switch x := v.(type) {
	case VSeq:
		return x
	case VNil:
		return VSeq{}
	case VSlice:
		if x.Len.isConst() && x.Len.C == 0 {
			return VSeq{}
		}
		switch b := x.B.(type) {
		case VUnk:
			if o, ok := s.heap[b.ID+"#"]; ok {
				return s.subSeq(s.contentSeq(o.V, b.ID), x.Off, x.Len)
			}
			return s.subSeq(opaqueSeq(b.ID), x.Off, x.Len)
		case VPtr:
			o, _ := s.obj(b.Obj)
			c := s.get(o.V, b.Path)
			switch a := c.(type) {
			case VBytes:
				return s.subSeq(a.S, x.Off, x.Len)
			case VArr:
				return s.arrSeq(a, x.Off, x.Len, b.key())
			case VUnk:
				return s.subSeq(opaqueSeq(a.ID), x.Off, x.Len)
			}
		}
	case VAlt:
		var c Charset
		var d []string
		var l []Lin
		k := "seqalt"
		for _, a := range x {
			q := s.seqOf(a)
			c = c.or(s.seqCs(q))
			d = unionStr(d, s.deps(q))
			l = append(l, s.seqLen(q))
			k += "|" + q.key()
		}
		s.setCs(k, c)
		s.setDeps(k, d)
		s.lenSym(k)
		return opaqueSeq(k)
	case VUnk:
		return opaqueSeq(x.ID)
	}
	return opaqueSeq("seq?" + vkey(v))
}

func (s *State) contentSeq(v Value, id string) VSeq {
	switch a := v.(type) {
	case VBytes:
		return a.S
	case VUnk:
		return opaqueSeq(id)
	case VArr:
		return s.arrSeq(a, Lin{}, a.N, id)
	}
	return opaqueSeq("content?" + vkey(v))
}

// arrSeq turns part of an array of bytes into a sequence.
func (s *State) arrSeq(a VArr, off, n Lin, name string) VSeq {
	if n.isConst() && off.isConst() && n.C <= 64 {
		var r VSeq
		for i := int64(0); i < n.C; i++ {
			v := s.arrGet(a, linConst(off.C+i))
			l, ok := v.(VLin)
			if !ok {
				r = r.concat(opaqueSeq(fmt.Sprintf("elem(%s,%d)", name, off.C+i)))
				continue
			}
			if l.isConst() && l.C >= 0 && l.C < 128 {
				r = r.concat(lit(string(rune(l.C))))
			} else if l.isConst() {
				r = r.concat(VSeq{[]Part{{Lit: string([]byte{byte(l.C)})}}})
			} else {
				id := "byte(" + l.key() + ")"
				if s.zone.lb(l.Lin) >= 0 && s.zone.ub(l.Lin) < 128 {
					id = "rune(" + l.key() + ")"
				}
				s.setCs(id, s.linCs(l.Lin))
				s.setDeps(id, s.depsLin(l.Lin))
				s.z().assumeEQ(linSym(lenID(id)).addC(-1))
				r = r.concat(opaqueSeq(id))
			}
		}
		return r
	}
	// general: union of what may be there
	id := "arr(" + name + "," + off.key() + "," + n.key() + ")"
	var c Charset
	var d []string
	add := func(v Value) {
		if l, ok := v.(VLin); ok {
			c = c.or(s.linCs(l.Lin))
			d = unionStr(d, s.depsLin(l.Lin))
		} else {
			c = csAll
		}
	}
	if a.Seg != nil && s.provLE(a.Seg.Lo, off) && s.provLE(off.add(n), a.Seg.Hi) {
		add(a.Seg.V)
	} else {
		add(a.Def)
		for _, x := range a.Cells {
			add(x.V)
		}
		if a.Seg != nil {
			add(a.Seg.V)
		}
	}
	c.EOF = false
	s.setCs(id, c)
	s.setDeps(id, d)
	s.lenSym(id)
	s.z().assumeEQ(linSym(lenID(id)).sub(n))
	return opaqueSeq(id)
}

func (s *State) provLE(a, b Lin) bool { return s.zone.ub(a.sub(b)) <= 0 }
func (s *State) provEQ(a, b Lin) bool {
	d := a.sub(b)
	return s.zone.ub(d) <= 0 && s.zone.lb(d) >= 0
}
func (s *State) provNE(a, b Lin) bool {
	d := a.sub(b)
	if s.zone.ub(d) < 0 || s.zone.lb(d) > 0 {
		return true
	}
	if len(d.T) == 1 {
		k, c := d.T[0].K, d.C
		if k == -1 {
			k, c = 1, -c
		}
		if k == 1 {
			if f := s.facts[d.T[0].Sym]; f != nil {
				if hasInt(f.INe, -c) || f.Cs != nil && !f.Cs.has(-c) {
					return true
				}
			}
		}
	}
	return false
}

// subSeq returns n characters of q starting at off.
func (s *State) subSeq(q VSeq, off, n Lin) VSeq {
	if off.isConst() && off.C == 0 && s.provEQ(n, s.seqLen(q)) {
		return q
	}
	// cut within literals where positions are constant
	if off.isConst() {
		if c, ok := q.constant(); ok && n.isConst() && off.C >= 0 && n.C >= 0 && off.C+n.C <= int64(len(c)) {
			return lit(c[off.C : off.C+n.C])
		}
		// drop a leading literal
		if off.C > 0 && len(q.P) > 0 && q.P[0].ID == "" && off.C <= int64(len(q.P[0].Lit)) {
			r := lit(q.P[0].Lit[off.C:]).concat(VSeq{q.P[1:]})
			return s.subSeq(r, Lin{}, n)
		}
	}
	// whole tail: off + n == len
	if n.isConst() && n.C == 0 {
		return VSeq{}
	}
	if off.isConst() && off.C == 0 {
		// a prefix that ends exactly at a part boundary
		var l Lin
		for i, p := range q.P {
			if p.ID == "" {
				l.C += int64(len(p.Lit))
			} else {
				l = l.add(s.lenSym(p.ID))
			}
			if s.provEQ(l, n) {
				return VSeq{q.P[:i+1]}
			}
		}
	}
	if _, t, ok := s.splitAt(q, off); ok {
		if h, _, ok := s.splitAt(t, n); ok {
			return h
		}
	}
	var id string
	if b, ok := q.single(); ok {
		id = "sub(" + b + "," + off.key() + "," + n.key() + ")"
	} else {
		id = "sub(" + q.key() + "," + off.key() + "," + n.key() + ")"
	}
	if s.facts[id] == nil {
		s.setCs(id, s.seqCs(q))
		s.setDeps(id, s.deps(q))
	}
	if !s.zone.has(lenID(id)) {
		s.lenSym(id)
		s.z().define(lenID(id), n)
	}
	return opaqueSeq(id)
}

// splitAt cuts a sequence at a position that lies at the edge of a part or
// within a literal.
func (s *State) splitAt(q VSeq, pos Lin) (VSeq, VSeq, bool) {
	if len(q.P) > 64 {
		return VSeq{}, VSeq{}, false
	}
	var l Lin
	for i := 0; ; i++ {
		d := pos.sub(l)
		if !d.isConst() {
			if lo := s.zone.lb(d); lo > -inf && lo == s.zone.ub(d) {
				d = linConst(lo)
			}
		}
		if d.isConst() && d.C == 0 {
			return VSeq{q.P[:i:i]}, VSeq{q.P[i:]}, true
		}
		if i == len(q.P) {
			return VSeq{}, VSeq{}, false
		}
		p := q.P[i]
		if p.ID != "" {
			l = l.add(s.lenSym(p.ID))
			continue
		}
		if d.isConst() && d.C > 0 && d.C < int64(len(p.Lit)) {
			return VSeq{q.P[:i:i]}.concat(lit(p.Lit[:d.C])), lit(p.Lit[d.C:]).concat(VSeq{q.P[i+1:]}), true
		}
		l = l.addC(int64(len(p.Lit)))
	}
}

// ---- heap access

func (s *State) arrGet(a VArr, i Lin) Value {
	unsure := false
	for _, c := range a.Cells {
		if s.provEQ(c.I, i) {
			return c.V
		}
		if !s.provNE(c.I, i) {
			unsure = true
		}
	}
	if a.Seg != nil {
		if s.provLE(a.Seg.Lo, i) && s.provLE(i.addC(1), a.Seg.Hi) {
			return a.Seg.V
		}
		if !(s.provLE(i.addC(1), a.Seg.Lo) || s.provLE(a.Seg.Hi, i)) {
			unsure = true
		}
	}
	d := a.Def
	if u, ok := d.(VUnk); ok && isIndexable(u.T) {
		if unsure {
			return s.mkElem(u, "any("+u.ID+","+i.key()+")")
		}
		return s.mkElem(u, u.ID+"["+i.key()+"]")
	}
	if unsure {
		r := d
		for _, c := range a.Cells {
			if !s.provNE(c.I, i) {
				r = s.loose(r, c.V, "arrget"+i.key())
			}
		}
		if a.Seg != nil {
			r = s.loose(r, a.Seg.V, "arrget"+i.key())
		}
		return r
	}
	return d
}

// mkElem returns an element of an unknown array; the array's character set and
// provenance apply to its elements.
func (s *State) mkElem(u VUnk, id string) Value {
	v := s.mk(elemType(u.T), id)
	f := s.fact(strings.TrimSuffix(u.ID, "#"))
	if (f.Cs != nil || f.Deps != nil) && s.facts[id] == nil {
		s.setFact(id, Fact{Cs: f.Cs, Deps: f.Deps})
	}
	return v
}

// loose joins two values within one state (both are possible).
func (s *State) loose(a, b Value, name string) Value {
	if vkey(a) == vkey(b) {
		return a
	}
	switch x := a.(type) {
	case VLin:
		if y, ok := b.(VLin); ok {
			id := "either(" + x.key() + "," + y.key() + ")"
			z := s.z()
			i := z.sym(id)
			if u := max(z.ub(x.Lin), z.ub(y.Lin)); u < inf {
				z.le(i, 0, u)
			}
			if l := min(z.lb(x.Lin), z.lb(y.Lin)); l > -inf {
				z.le(0, i, -l)
			}
			s.setCs(id, s.linCs(x.Lin).or(s.linCs(y.Lin)))
			s.setDeps(id, unionStr(s.depsLin(x.Lin), s.depsLin(y.Lin)))
			return VLin{linSym(id)}
		}
	case VSeq:
		if y, ok := b.(VSeq); ok {
			id := "either(" + x.key() + "," + y.key() + ")"
			s.setCs(id, s.seqCs(x).or(s.seqCs(y)))
			s.setDeps(id, unionStr(s.deps(x), s.deps(y)))
			s.lenSym(id)
			return opaqueSeq(id)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			r := VStruct{x.T, make([]Value, len(x.F))}
			for i := range x.F {
				r.F[i] = s.loose(x.F[i], y.F[i], name+fmt.Sprint(i))
			}
			return r
		}
	case VBool, VAtom, VCmp, VEq, VPred:
		return VAtom{ID: "either(" + vkey(a) + "," + vkey(b) + ")"}
	}
	return mkAlt(a, b)
}

func mkAlt(a, b Value) Value {
	var r VAlt
	add := func(v Value) {
		for _, e := range r {
			if vkey(e) == vkey(v) {
				return
			}
		}
		r = append(r, v)
	}
	for _, v := range []Value{a, b} {
		if l, ok := v.(VAlt); ok {
			for _, e := range l {
				add(e)
			}
		} else {
			add(v)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	sort.Slice(r, func(i, j int) bool { return vkey(r[i]) < vkey(r[j]) })
	return r
}

func isIndexable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Array, *types.Slice:
		return true
	}
	return false
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

// get projects a value along a path.
func (s *State) get(v Value, path []PE) Value {
	for _, e := range path {
		switch x := v.(type) {
		case VStruct:
			if e.F < 0 || e.F >= len(x.F) {
				return VOpaque{"badpath"}
			}
			v = x.F[e.F]
		case VUnk:
			if e.F >= 0 {
				st, ok := x.T.Underlying().(*types.Struct)
				if !ok {
					return VOpaque{"badfield " + x.ID}
				}
				f := st.Field(e.F)
				v = s.mk(f.Type(), x.ID+"."+f.Name())
			} else {
				v = s.mkElem(x, x.ID+"["+e.I.key()+"]")
			}
		case VArr:
			v = s.arrGet(x, e.I)
		case VBytes:
			v = s.byteAt(x.S, e.I)
		default:
			return VOpaque{"path into " + vkey(v)}
		}
	}
	return v
}

func (s *State) byteAt(q VSeq, i Lin) Value {
	if i.isConst() {
		n := i.C
		for _, p := range q.P {
			if p.ID != "" {
				// length one parts can be stepped over
				if l := linSym(lenID(p.ID)); s.provEQ(l, linConst(1)) {
					if n == 0 && strings.HasPrefix(p.ID, "byte(") {
						break
					}
					n--
					if n >= 0 {
						continue
					}
				}
				break
			}
			if n < int64(len(p.Lit)) {
				return VLin{linConst(int64(p.Lit[n]))}
			}
			n -= int64(len(p.Lit))
		}
	}
	if _, t, ok := s.splitAt(q, i); ok && len(t.P) > 0 {
		if p := t.P[0]; p.ID == "" {
			return VLin{linConst(int64(p.Lit[0]))}
		} else if c, ok := runePartSym(p.ID); ok && !s.seqCs(VSeq{[]Part{p}}).Non {
			return VLin{linSym(c)}
		} else if c, ok := strings.CutPrefix(p.ID, "byte(+1*"); ok {
			return VLin{linSym(strings.TrimSuffix(c, ")"))}
		} else if _, ok := runePartSym(p.ID); ok {
			// the first byte of a character that may have several
			q, i = VSeq{[]Part{p}}, Lin{}
		}
	}
	id := "ch(" + q.key() + "," + i.key() + ")"
	if b, ok := q.single(); ok {
		id = "ch(" + b + "," + i.key() + ")"
	}
	if !s.zone.has(id) {
		z := s.z()
		k := z.sym(id)
		z.le(0, k, 0)
		z.le(k, 0, 255)
		s.setCs(id, s.seqCs(q))
		s.setDeps(id, s.deps(q))
	}
	return VLin{linSym(id)}
}

// put stores nv at path within v.
func (s *State) put(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	if e.F >= 0 {
		x, ok := v.(VStruct)
		if !ok {
			if u, isu := v.(VUnk); isu {
				x = s.expand(u)
			} else {
				return VOpaque{"put into " + vkey(v)}
			}
		}
		r := VStruct{x.T, append([]Value(nil), x.F...)}
		r.F[e.F] = s.put(r.F[e.F], path[1:], nv)
		return r
	}
	var a VArr
	switch x := v.(type) {
	case VArr:
		a = x
	case VUnk:
		a = VArr{Def: x}
		if at, ok := x.T.Underlying().(*types.Array); ok {
			a.N = linConst(at.Len())
		} else {
			a.N = s.lenSym(strings.TrimSuffix(x.ID, "#"))
		}
	case VBytes:
		if l, ok := nv.(VLin); ok && len(path) == 1 {
			// weak: any character may have been replaced
			id := "mod(" + x.S.key() + "," + e.I.key() + "," + l.key() + ")"
			s.setCs(id, s.seqCs(x.S).or(s.linCs(l.Lin)))
			s.setDeps(id, unionStr(s.deps(x.S), s.depsLin(l.Lin)))
			n := s.seqLen(x.S)
			s.lenSym(id)
			s.z().assumeEQ(linSym(lenID(id)).sub(n))
			return VBytes{opaqueSeq(id)}
		}
		return VOpaque{"put into bytes"}
	default:
		return VOpaque{"put into " + vkey(v)}
	}
	old := s.arrGet(a, e.I)
	n := s.put(old, path[1:], nv)
	return s.arrPut(a, e.I, n)
}

func (s *State) arrPut(a VArr, i Lin, n Value) Value {
	r := VArr{N: a.N, Def: a.Def, Seg: a.Seg}
	done := false
	for _, c := range a.Cells {
		switch {
		case s.provEQ(c.I, i):
			r.Cells = append(r.Cells, Cell{c.I, n})
			done = true
		case s.provNE(c.I, i):
			r.Cells = append(r.Cells, c)
		default:
			r.Cells = append(r.Cells, Cell{c.I, s.loose(c.V, n, "cell")})
		}
	}
	// segment
	if sg := a.Seg; sg != nil {
		switch {
		case s.provEQ(i.addC(1), sg.Lo):
			r.Seg = &Seg{i, sg.Hi, s.loose(sg.V, n, "seg")}
		case s.provEQ(i, sg.Hi):
			r.Seg = &Seg{sg.Lo, i.addC(1), s.loose(sg.V, n, "seg")}
		case s.provLE(i.addC(1), sg.Lo) || s.provLE(sg.Hi, i):
		default:
			r.Seg = &Seg{sg.Lo, sg.Hi, s.loose(sg.V, n, "seg")}
		}
	}
	if done {
		return r
	}
	if stableIndex(i) && len(a.Cells) < 64 {
		r.Cells = append(r.Cells, Cell{i, n})
		sort.Slice(r.Cells, func(x, y int) bool { return r.Cells[x].I.key() < r.Cells[y].I.key() })
		if u, ok := r.Def.(VUnk); !ok || !isIndexable(u.T) {
			return r
		}
		return r
	}
	if a.Seg == nil && !isIndexableUnk(a.Def) {
		r.Seg = &Seg{i, i.addC(1), n}
	} else if isIndexableUnk(a.Def) {
		// contents at unknown positions become unknown
		u := a.Def.(VUnk)
		if !strings.HasPrefix(u.ID, "mut:") {
			r.Def = VUnk{"mut:" + u.ID, u.T}
		}
	}
	if !isIndexableUnk(r.Def) {
		r.Def = s.loose(a.Def, n, "def")
	}
	return r
}

func isIndexableUnk(v Value) bool {
	u, ok := v.(VUnk)
	return ok && isIndexable(u.T)
}

// stableIndex reports whether an index expression keeps its meaning while the
// analysis proceeds: constants and ghost indexes.
func stableIndex(i Lin) bool {
	for _, t := range i.T {
		if !strings.HasPrefix(t.Sym, "κ") && !strings.HasPrefix(t.Sym, "len(§") {
			return false
		}
	}
	return true
}

func (s *State) expand(u VUnk) VStruct {
	st := u.T.Underlying().(*types.Struct)
	r := VStruct{u.T, make([]Value, st.NumFields())}
	for i := range r.F {
		f := st.Field(i)
		r.F[i] = s.mk(f.Type(), u.ID+"."+f.Name())
	}
	return r
}

// zero returns the zero value of T.
func zero(T types.Type) Value {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VLin{}
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsString != 0:
			return VSeq{}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return VOpaque{"0.0"}
		}
		return VNil{}
	case *types.Struct:
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != modPath && n.Obj().Pkg().Path() != parserPath {
			return VUnk{"zero:" + typeKey(T), T}
		}
		r := VStruct{T, make([]Value, u.NumFields())}
		for i := range r.F {
			r.F[i] = zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		return VArr{N: linConst(u.Len()), Def: zero(u.Elem())}
	}
	return VNil{}
}

// objFor returns the object an unknown pointer points to, creating it.
func (s *State) objFor(u VUnk) VPtr {
	o := derefObj(u.ID)
	if _, ok := s.heap[o]; !ok {
		et := elemType(u.T)
		s.heap[o] = Obj{et, s.mk(et, o)}
	}
	return VPtr{Obj: o}
}

func (s *State) backing(u VUnk) VPtr {
	o := u.ID + "#"
	if _, ok := s.heap[o]; !ok {
		s.heap[o] = Obj{u.T, VUnk{o, u.T}}
	}
	return VPtr{Obj: o}
}

func (s *State) obj(name string) (Obj, bool) {
	o, ok := s.heap[name]
	if !ok {
		o, ok = s.base[name]
	}
	return o, ok
}

// sliceArr returns the contents of a slice starting at its backing's start.
func (s *State) sliceArr(x VSlice) (VArr, bool) {
	if !x.Off.isConst() || x.Off.C != 0 {
		return VArr{}, false
	}
	switch b := x.B.(type) {
	case VUnk:
		if o, ok := s.heap[b.ID+"#"]; ok {
			if a, ok := o.V.(VArr); ok {
				return a, true
			}
		}
		return VArr{N: x.Len, Def: VUnk{b.ID + "#", b.T}}, true
	case VPtr:
		if len(b.Path) > 0 {
			return VArr{}, false
		}
		if o, ok := s.obj(b.Obj); ok {
			switch a := o.V.(type) {
			case VArr:
				a.N = x.Len
				return a, true
			case VUnk:
				if isIndexable(a.T) {
					return VArr{N: x.Len, Def: a}, true
				}
			}
		}
	}
	return VArr{}, false
}

// sliceElemHolder returns an indexable type with the slice's element type.
func (s *State) sliceElemHolder(x VSlice) types.Type {
	switch b := x.B.(type) {
	case VUnk:
		return b.T
	case VPtr:
		if o, ok := s.obj(b.Obj); ok {
			return o.T
		}
	}
	return nil
}

func (s *State) load(p VPtr) Value {
	o, ok := s.obj(p.Obj)
	if !ok {
		return VOpaque{"no object " + p.Obj}
	}
	return s.get(o.V, p.Path)
}

func (s *State) store(p VPtr, v Value) {
	o, _ := s.obj(p.Obj)
	s.heap[p.Obj] = Obj{o.T, s.put(o.V, p.Path, v)}
}

// rename maps all symbol names in the state.
func (s *State) rename(f func(string) string) {
	for k, v := range s.env {
		s.env[k] = renameVal(v, f)
	}
	h := make(map[string]Obj, len(s.heap))
	for k, o := range s.heap {
		h[f(k)] = Obj{o.T, renameVal(o.V, f)}
	}
	s.heap = h
	fs := make(map[string]*Fact, len(s.facts))
	for k, v := range s.facts {
		fs[f(k)] = v
	}
	s.facts = fs
	s.z().rename(f)
	if r, ok := s.q.(interface {
		Rename(func(string) string) Ghost
	}); ok {
		s.q = r.Rename(f)
	}
}

// mentions reports whether any name in the state contains the token.
func (s *State) mentions(tok string) bool {
	for k := range s.facts {
		if strings.Contains(k, tok) {
			return true
		}
	}
	for _, k := range s.zone.syms {
		if strings.Contains(k, tok) {
			return true
		}
	}
	for k := range s.heap {
		if strings.Contains(k, tok) {
			return true
		}
	}
	found := false
	f := func(id string) {
		if !found && strings.Contains(id, tok) {
			found = true
		}
	}
	for _, v := range s.env {
		symsOf(v, f, f)
		if found {
			return true
		}
	}
	for _, o := range s.heap {
		symsOf(o.V, f, f)
		if found {
			return true
		}
	}
	return false
}

// fresh makes the token unused in the state by renaming existing uses to a
// generation not otherwise in use. Tokens have the form ⟨name⟩.
func (s *State) fresh(tok string) {
	if !s.mentions(tok) {
		return
	}
	for i := 1; ; i++ {
		n := strings.TrimSuffix(tok, "⟩") + strings.Repeat("~", i) + "⟩"
		if !s.mentions(n) {
			s.rename(func(id string) string { return strings.ReplaceAll(id, tok, n) })
			return
		}
	}
}

// prune removes what is no longer reachable from env, q and the roots.
func (s *State) prune(live func(ssa.Value) bool, roots map[string]bool) {
	if live != nil {
		for k := range s.env {
			if !live(k) {
				delete(s.env, k)
			}
		}
	}
	used := map[string]bool{}
	objs := map[string]bool{}
	var work []string
	sym := func(id string) { used[id] = true }
	obj := func(id string) {
		if !objs[id] {
			objs[id] = true
			work = append(work, id)
		}
	}
	for _, v := range s.env {
		symsOf(v, sym, obj)
	}
	if r, ok := s.q.(interface{ Syms(sym, obj func(string)) }); ok {
		r.Syms(sym, obj)
	}
	for o := range s.heap {
		if roots[o] {
			obj(o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if ob, ok := s.heap[o]; ok {
			symsOf(ob.V, sym, obj)
		}
		if strings.HasSuffix(o, "#") {
			continue
		}
		if _, ok := s.heap[strings.TrimSuffix(o, "^")+"#"]; ok {
			obj(strings.TrimSuffix(o, "^") + "#")
		}
	}
	// objects belonging to unknown inputs that were modified are kept
	toks := map[string]bool{}
	addTok := func(t string) { toks[t] = true }
	drain := func() {
		for len(work) > 0 {
			o := work[len(work)-1]
			work = work[:len(work)-1]
			if ob, ok := s.heap[o]; ok {
				symsOf(ob.V, sym, obj)
			}
		}
		for id := range used {
			tokensOf(id, addTok)
		}
		for id := range objs {
			tokensOf(id, addTok)
		}
	}
	drain()
	liveToks := func(id string) bool {
		ok := true
		tokensOf(id, func(t string) { ok = ok && toks[t] })
		return ok
	}
	for again := true; again; {
		again = false
		for o := range s.heap {
			if objs[o] {
				continue
			}
			if strings.HasSuffix(o, "#") && used[strings.TrimSuffix(o, "#")] || keepFact(o, used, objs) && liveToks(o) {
				obj(o)
				again = true
			}
		}
		drain()
	}
	for o := range s.heap {
		if !objs[o] {
			delete(s.heap, o)
		}
	}
	// facts: keep those of used symbols and of symbols derived from unknown inputs
	for id := range s.facts {
		if strings.HasPrefix(id, "eq{") || strings.HasPrefix(id, "p:") || strings.HasPrefix(id, "ok:") || strings.HasPrefix(id, "has:") || strings.HasPrefix(id, "m:") {
			keep := false
			for u := range used {
				if len(u) > 1 && strings.Contains(id, u) {
					keep = true
					break
				}
			}
			if keep {
				continue
			}
		}
		if used[id] || keepFact(id, used, objs) && liveToks(id) {
			if strings.HasPrefix(id, "len(") {
				used[id] = true
			}
			continue
		}
		delete(s.facts, id)
	}
	for _, id := range s.zone.syms {
		if id != "" && !used[id] && keepFact(id, used, objs) && liveToks(id) {
			used[id] = true
		}
	}
	need := false
	for _, id := range s.zone.syms {
		if id != "" && !used[id] {
			need = true
		}
	}
	if need {
		s.z().keep(used)
	}
}

// keepFact: facts about lazily created parts of an unknown input stay relevant
// as long as the input is: the id is an input id extended by a projection.
func keepFact(id string, used, objs map[string]bool) bool {
	if strings.HasPrefix(id, "κ") {
		return true
	}
	base := id
	for _, w := range []string{"upper(", "lower("} {
		if strings.HasPrefix(base, w) && strings.HasSuffix(base, ")") && used[base[len(w):len(base)-1]] {
			return true
		}
	}
	if c, ok := strings.CutPrefix(base, "ch(rune(+1*"); ok {
		if c, _, ok = strings.Cut(c, ")"); ok && used[c] {
			return true
		}
	}
	if strings.HasPrefix(base, "len(") && strings.HasSuffix(base, ")") {
		base = base[4 : len(base)-1]
		if used[base] {
			return true
		}
	}
	for i := 1; i < len(base); i++ {
		switch base[i] {
		case '.', '[', '^', '#':
			p := base[:i]
			if strings.Count(p, "(") != strings.Count(p, ")") || strings.Count(p, "[") != strings.Count(p, "]") {
				continue
			}
			if used[p] || objs[p] || objs[p+"^"] || objs[p+"#"] {
				return true
			}
		}
	}
	return false
}

func (s *State) String() string {
	var sb strings.Builder
	var ks []string
	for k, v := range s.env {
		ks = append(ks, fmt.Sprintf("  %s = %s", slotName(k), vkey(v)))
	}
	for k, v := range s.heap {
		if !strings.HasPrefix(k, "G:") {
			ks = append(ks, fmt.Sprintf("  heap %s = %s", k, vkey(v.V)))
		}
	}
	for k, v := range s.facts {
		ks = append(ks, fmt.Sprintf("  fact %s %s", k, v.key()))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, "\n"))
	sb.WriteString("\n  zone " + s.zone.String())
	sb.WriteString("\n  q " + s.q.Key())
	return sb.String()
}
