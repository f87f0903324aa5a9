package main

import (
	"go/types"
	"strings"
)

func notCond(c Value) Value {
	switch x := c.(type) {
	case VBool:
		return !x
	case VAtom:
		return VAtom{x.ID, !x.Neg}
	case VEq:
		return VEq{x.A, x.B, !x.Neg}
	case VPred:
		x.Neg = !x.Neg
		return x
	case VCmp:
		switch x.Op {
		case "==":
			return VCmp{"!=", x.L}
		case "!=":
			return VCmp{"==", x.L}
		case "<=": // not L<=0: L>0: -L<0
			return VCmp{"<", x.L.neg()}
		case "<":
			return VCmp{"<=", x.L.neg()}
		}
	}
	return VAtom{ID: "not(" + vkey(c) + ")"}
}

// decide evaluates a condition if its truth is known.
func (s *State) decide(c Value) (bool, bool) {
	switch x := c.(type) {
	case VBool:
		return bool(x), true
	case VAtom:
		switch s.fact(x.ID).B {
		case 1:
			return x.Neg, true
		case 2:
			return !x.Neg, true
		}
	case VCmp:
		switch x.Op {
		case "==", "!=":
			if s.provEQ(x.L, Lin{}) {
				return x.Op == "==", true
			}
			if s.provNE(x.L, Lin{}) {
				return x.Op == "!=", true
			}
		case "<=":
			if s.zone.ub(x.L) <= 0 {
				return true, true
			}
			if s.zone.lb(x.L) > 0 {
				return false, true
			}
			return s.decideByChars(x)
		case "<":
			if s.zone.ub(x.L) < 0 {
				return true, true
			}
			if s.zone.lb(x.L) >= 0 {
				return false, true
			}
			return s.decideByChars(x)
		}
	case VEq:
		if t, ok := s.decideEq(x.A, x.B); ok {
			return t != x.Neg, true
		}
	case VPred:
		if t, ok := s.decidePred(x); ok {
			return t != x.Neg, true
		}
	}
	return false, false
}

// decideByChars evaluates an order comparison of one symbol with a constant
// using the set of characters it may stand for.
func (s *State) decideByChars(x VCmp) (bool, bool) {
	if len(x.L.T) != 1 || abs64(x.L.T[0].K) != 1 {
		return false, false
	}
	f := s.facts[x.L.T[0].Sym]
	if f == nil || f.Cs == nil {
		return false, false
	}
	var t, n bool
	l := linSym(x.L.T[0].Sym)
	lo, hi := s.zone.lb(l), s.zone.ub(l)
	vs := []int64{max(lo, 128), min(hi, 0x10ffff)}
	if !f.Cs.Non || hi < 128 {
		vs = nil
	}
	for v := max(lo, -1); v <= min(hi, 127); v++ {
		if f.Cs.has(v) {
			vs = append(vs, v)
		}
	}
	for _, v := range vs {
		e := x.L.T[0].K*v + x.L.C
		if x.Op == "<=" && e <= 0 || x.Op == "<" && e < 0 {
			t = true
		} else {
			n = true
		}
	}
	if t != n {
		return t, true
	}
	return false, false
}

func (s *State) decideEqSeq(a, b VSeq) (bool, bool) {
	if a.key() == b.key() {
		return true, true
	}
	ca, oka := a.constant()
	cb, okb := b.constant()
	if oka && okb {
		return ca == cb, true
	}
	if oka {
		a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
	}
	if !okb {
		// both unknown: compare leading literals
		if len(a.P) > 0 && len(b.P) > 0 && a.P[0].ID == "" && b.P[0].ID == "" {
			x, y := a.P[0].Lit, b.P[0].Lit
			n := min(len(x), len(y))
			if x[:n] != y[:n] {
				return false, true
			}
		}
		return false, false
	}
	// a unknown, b constant
	if id, ok := a.single(); ok {
		f := s.fact(id)
		if f.Eq != nil {
			return *f.Eq == cb, true
		}
		if hasStr(f.Ne, cb) {
			return false, true
		}
		if f.Cs != nil && !csOf(cb).subset(*f.Cs) {
			return false, true
		}
	}
	l := s.seqLen(a).addC(-int64(len(cb)))
	if s.zone.ub(l) < 0 || s.zone.lb(l) > 0 {
		return false, true
	}
	if len(a.P) > 0 && a.P[0].ID == "" && !strings.HasPrefix(cb, a.P[0].Lit) {
		return false, true
	}
	if n := len(a.P); n > 0 && a.P[n-1].ID == "" && !strings.HasSuffix(cb, a.P[n-1].Lit) {
		return false, true
	}
	// parts of known length from the front
	for i, at := 0, 0; i < len(a.P) && at <= len(cb); i++ {
		p := a.P[i]
		if p.ID == "" {
			if !strings.HasPrefix(cb[at:], p.Lit) {
				return false, true
			}
			at += len(p.Lit)
			continue
		}
		pl := s.seqLen(VSeq{[]Part{p}})
		n := s.zone.ub(pl)
		if n != s.zone.lb(pl) || n < 0 {
			break
		}
		if at+int(n) > len(cb) {
			return false, true
		}
		sub := cb[at : at+int(n)]
		f := s.fact(p.ID)
		if f.Eq != nil && *f.Eq != sub || hasStr(f.Ne, sub) || f.Cs != nil && !csOf(sub).subset(*f.Cs) {
			return false, true
		}
		at += int(n)
	}
	// bytes read from it that are known to differ
	if id, ok := a.single(); ok {
		for i := 0; i < len(cb) && i < 4; i++ {
			ch := "ch(" + id + "," + linConst(int64(i)).key() + ")"
			if s.zone.has(ch) && s.provNE(linSym(ch), linConst(int64(cb[i]))) {
				return false, true
			}
		}
	}
	return false, false
}

// nilness: 1 nil, 2 not nil, 0 unknown
func (s *State) nilness(v Value) int8 {
	switch x := v.(type) {
	case VNil:
		return 1
	case VPtr, VErr, VIface, VFn, VMap:
		return 2
	case VUnk:
		f := s.fact(x.ID)
		if f.Nil == 0 && f.Ty != "" {
			return 2
		}
		return f.Nil
	case VSlice:
		if u, ok := x.B.(VUnk); ok {
			if n := s.fact(u.ID).Nil; n != 0 {
				return n
			}
			if s.zone.lb(x.Len) > 0 {
				return 2
			}
			return 0
		}
		return 2
	case VAlt:
		n := int8(-1)
		for _, a := range x {
			m := s.nilness(a)
			if n == -1 {
				n = m
			} else if n != m {
				return 0
			}
		}
		return n
	}
	return 0
}

func (s *State) decideEq(a, b Value) (bool, bool) {
	if _, ok := a.(VNil); ok {
		a, b = b, a
	}
	if _, ok := b.(VNil); ok {
		switch s.nilness(a) {
		case 1:
			return true, true
		case 2:
			return false, true
		}
		return false, false
	}
	switch x := a.(type) {
	case VSeq:
		if y, ok := b.(VSeq); ok {
			return s.decideEqSeq(x, y)
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			if x.Obj != y.Obj {
				return false, true
			}
			if x.key() == y.key() {
				return true, true
			}
		case VUnk:
			if s.fact(y.ID).Nil == 1 {
				return false, true
			}
			return s.decideUnkEq(a, b)
		}
	case VUnk:
		switch y := b.(type) {
		case VUnk:
			if x.ID == y.ID {
				return true, true
			}
			if ownPointer(x.ID) && ownPointer(y.ID) {
				return false, true
			}
			return s.decideUnkEq(a, b)
		case VPtr, VErr, VIface:
			if s.fact(x.ID).Nil == 1 {
				return false, true
			}
			return s.decideUnkEq(a, b)
		}
	case VErr:
		if y, ok := b.(VErr); ok {
			if x.ID == y.ID {
				return true, true
			}
			if strings.HasPrefix(x.ID, "G:") && strings.HasPrefix(y.ID, "G:") {
				return false, true
			}
		}
		if _, ok := b.(VUnk); ok {
			return s.decideUnkEq(a, b)
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if typeKey(x.T) != typeKey(y.T) {
				return false, true
			}
			return s.decideEq(x.V, y.V)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			all := true
			for i := range x.F {
				t, ok := s.decide(eqCond(x.F[i], y.F[i]))
				if ok && !t {
					return false, true
				}
				all = all && ok
			}
			if all {
				return true, true
			}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return x == y, true
		}
	case VLin:
		if y, ok := b.(VLin); ok {
			return s.decide(VCmp{"==", x.Lin.sub(y.Lin)})
		}
	case VOpaque:
		if y, ok := b.(VOpaque); ok && x.K == y.K && !strings.HasPrefix(x.K, "mixed") {
			return true, true
		}
	}
	return false, false
}

func eqCond(a, b Value) Value {
	x, ok1 := a.(VLin)
	y, ok2 := b.(VLin)
	if ok1 && ok2 {
		return VCmp{"==", x.Lin.sub(y.Lin)}
	}
	return VEq{a, b, false}
}

// identities of opaque references known (un)equal by an earlier comparison
func pairID(a, b Value) string {
	x, y := vkey(a), vkey(b)
	if y < x {
		x, y = y, x
	}
	return "eq{" + x + "," + y + "}"
}

// ownPointer: pointers known to differ from each other
func ownPointer(id string) bool {
	return id == "G:time.UTC" || id == "G:time.Local" || strings.HasPrefix(id, "§zone")
}

func (s *State) decideUnkEq(a, b Value) (bool, bool) {
	switch s.fact(pairID(a, b)).B {
	case 1:
		return false, true
	case 2:
		return true, true
	}
	return false, false
}

func (s *State) decidePred(p VPred) (bool, bool) {
	switch p.Name {
	case "containsany":
		set := csOf(p.Arg)
		some := false
		for _, q := range p.S.P {
			if q.ID == "" {
				if strings.ContainsAny(q.Lit, p.Arg) {
					return true, true
				}
			} else if cs := s.seqCs(VSeq{[]Part{q}}); cs.and(set).empty() {
				// cannot contain it
			} else if _, ok := runePartSym(q.ID); ok && !cs.Non && cs.subset(set) {
				return true, true
			} else if !set.Non && s.zone.ub(s.seqLen(VSeq{[]Part{q}})) <= 0 {
			} else if s.hasMark(q.ID, "contains", p.Arg) {
				return true, true
			} else {
				some = true
			}
		}
		if !some {
			return false, true
		}
	case "hasprefix", "hassuffix":
		if t, ok := s.affix(p.S, p.Arg, p.Name == "hassuffix"); ok {
			return t, true
		}
	case "regex":
		if c, ok := p.S.constant(); ok {
			return regexMatch(p.Arg, c), true
		}
	case "equalfold":
		if c, ok := p.S.constant(); ok {
			return strings.EqualFold(c, p.Arg), true
		}
		if id, ok := p.S.single(); ok {
			f := s.fact(id)
			if f.Eq != nil {
				return strings.EqualFold(*f.Eq, p.Arg), true
			}
			if f.Cs != nil && csOf(p.Arg).and(f.Cs.fold()) != csOf(p.Arg) {
				return false, true
			}
		}
	}
	switch s.fact("p:" + VPred{p.Name, p.S, p.Arg, false}.key()).B {
	case 1:
		return false, true
	case 2:
		return true, true
	}
	return false, false
}

// affix decides whether q begins or ends with a constant.
func (s *State) affix(q VSeq, k string, end bool) (bool, bool) {
	ps := append([]Part(nil), s.norm(q).P...)
	if end {
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	for k != "" {
		if len(ps) == 0 {
			return false, true
		}
		c := k[0]
		if end {
			c = k[len(k)-1]
		}
		p := ps[0]
		if p.ID == "" {
			l := p.Lit
			n := min(len(l), len(k))
			if end {
				if l[len(l)-n:] != k[len(k)-n:] {
					return false, true
				}
				k = k[:len(k)-n]
			} else {
				if l[:n] != k[:n] {
					return false, true
				}
				k = k[n:]
			}
			ps = ps[1:]
			continue
		}
		cs := s.seqCs(VSeq{[]Part{p}})
		no := c < 128 && !cs.has(int64(c))
		n := s.zone.lb(s.seqLen(VSeq{[]Part{p}}))
		if _, ok := runePartSym(p.ID); ok && !no && c < 128 && !cs.Non && cs.subset(csOf(string(rune(c)))) {
			if end {
				k = k[:len(k)-1]
			} else {
				k = k[1:]
			}
			ps = ps[1:]
			continue
		}
		if no && n >= 1 {
			return false, true
		}
		if !no {
			return false, false
		}
		// it may be empty
		var rest VSeq
		for _, p := range ps[1:] {
			if end {
				rest.P = append([]Part{p}, rest.P...)
			} else {
				rest.P = append(rest.P, p)
			}
		}
		if t, ok := s.affix(rest, k, end); ok && !t {
			return false, true
		}
		return false, false
	}
	return true, true
}

func (s *State) hasMark(id, what, arg string) bool {
	return s.fact("m:"+what+":"+arg+":"+id).B == 2
}

// assume restricts the state to those where c has the given truth. It returns
// false if there are none.
func (s *State) assume(c Value, truth bool) bool {
	if !truth {
		c = notCond(c)
	}
	if t, ok := s.decide(c); ok {
		return t
	}
	switch x := c.(type) {
	case VAtom:
		f := s.fact(x.ID)
		f.B = 2
		if x.Neg {
			f.B = 1
		}
		s.setFact(x.ID, f)
	case VCmp:
		return s.assumeCmp(x)
	case VEq:
		return s.assumeEq(x.A, x.B, !x.Neg)
	case VPred:
		return s.assumePred(x)
	}
	return true
}

func (s *State) assumeCmp(x VCmp) bool {
	switch x.Op {
	case "==":
		s.z().assumeEQ(x.L)
		if s.zone.bot {
			return false
		}
	case "<=":
		s.z().assumeLE(x.L)
		s.trimChars(x)
	case "<":
		s.z().assumeLE(x.L.addC(1))
		s.trimChars(x)
	case "!=":
		if len(x.L.T) == 1 && abs64(x.L.T[0].K) == 1 {
			t := x.L.T[0]
			c := -x.L.C * t.K
			// tighten a bound that equals the excluded constant
			z := s.z()
			if z.lb(linSym(t.Sym)) == c {
				z.assumeLE(linConst(c + 1).sub(linSym(t.Sym)))
			} else if z.ub(linSym(t.Sym)) == c {
				z.assumeLE(linSym(t.Sym).addC(1 - c))
			}
			f := s.fact(t.Sym)
			if !hasInt(f.INe, c) {
				n := append([]int64(nil), f.INe...)
				n = append(n, c)
				for i := len(n) - 1; i > 0 && n[i] < n[i-1]; i-- {
					n[i], n[i-1] = n[i-1], n[i]
				}
				f.INe = n
			}
			if f.Cs != nil && c >= -1 && c < 128 {
				cs := f.Cs.minus(csRange(c, c))
				f.Cs = &cs
				if cs.empty() {
					return false
				}
			}
			s.setFact(t.Sym, f)
		} else {
			z := s.z()
			if z.lb(x.L) == 0 {
				z.assumeLE(linConst(1).sub(x.L))
			} else if z.ub(x.L) == 0 {
				z.assumeLE(x.L.addC(1))
			}
		}
	}
	return !s.zone.bot
}

// trimChars removes characters that contradict a comparison with a constant.
func (s *State) trimChars(x VCmp) {
	if len(x.L.T) != 1 || abs64(x.L.T[0].K) != 1 {
		return
	}
	id := x.L.T[0].Sym
	f := s.facts[id]
	if f == nil || f.Cs == nil {
		return
	}
	var c Charset
	for v := int64(-1); v < 128; v++ {
		if !f.Cs.has(v) {
			continue
		}
		e := x.L.T[0].K*v + x.L.C
		if x.Op == "<=" && e <= 0 || x.Op == "<" && e < 0 {
			c.add(v)
		}
	}
	if f.Cs.Non && s.zone.ub(linSym(id)) > 127 {
		c.Non = true
	}
	g := *f
	g.Cs = &c
	s.setFact(id, g)
	if c.empty() {
		s.z().bot = true
	}
}

func (s *State) assumeEq(a, b Value, eq bool) bool {
	if _, ok := a.(VNil); ok {
		a, b = b, a
	}
	if _, ok := b.(VNil); ok {
		return s.assumeNil(a, eq)
	}
	switch x := a.(type) {
	case VSeq:
		y, ok := b.(VSeq)
		if !ok {
			return true
		}
		ca, oka := x.constant()
		cb, okb := y.constant()
		if oka && !okb {
			x, cb, okb = y, ca, true
		}
		if !okb {
			if eq {
				s.z().assumeEQ(s.seqLen(x).sub(s.seqLen(y)))
				return !s.zone.bot
			}
			return true
		}
		return s.assumeSeqConst(x, cb, eq)
	case VLin:
		if y, ok := b.(VLin); ok {
			op := "=="
			if !eq {
				op = "!="
			}
			return s.assumeCmp(VCmp{op, x.Lin.sub(y.Lin)})
		}
	case VUnk:
		if eq {
			switch y := b.(type) {
			case VPtr, VErr, VIface:
				f := s.fact(x.ID)
				f.Nil = 2
				s.setFact(x.ID, f)
			case VUnk:
				fx, fy := s.fact(x.ID), s.fact(y.ID)
				if fx.Nil != 0 && fy.Nil != 0 && fx.Nil != fy.Nil {
					return false
				}
			}
		}
		f := s.fact(pairID(a, b))
		f.B = 1
		if eq {
			f.B = 2
		}
		s.setFact(pairID(a, b), f)
	case VPtr, VErr, VIface:
		if _, ok := b.(VUnk); ok {
			return s.assumeEq(b, a, eq)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && eq && len(x.F) == len(y.F) {
			for i := range x.F {
				if !s.assume(eqCond(x.F[i], y.F[i]), true) {
					return false
				}
			}
		}
	}
	return true
}

func (s *State) assumeSeqConst(x VSeq, c string, eq bool) bool {
	id, ok := x.single()
	if !ok {
		if eq {
			s.z().assumeEQ(s.seqLen(x).addC(-int64(len(c))))
		}
		return !s.zone.bot
	}
	f := s.fact(id)
	if eq {
		f.Eq = &c
		s.setFact(id, f)
		s.lenSym(id)
		s.z().assumeEQ(linSym(lenID(id)).addC(-int64(len(c))))
		return !s.zone.bot
	}
	f.Ne = insStr(f.Ne, c)
	s.setFact(id, f)
	if c == "" {
		s.lenSym(id)
		s.z().assumeLE(linConst(1).sub(linSym(lenID(id))))
	}
	return !s.zone.bot
}

func (s *State) assumeNil(a Value, isNil bool) bool {
	n := int8(2)
	if isNil {
		n = 1
	}
	switch x := a.(type) {
	case VUnk:
		f := s.fact(x.ID)
		f.Nil = n
		s.setFact(x.ID, f)
	case VSlice:
		if u, ok := x.B.(VUnk); ok {
			f := s.fact(u.ID)
			f.Nil = n
			s.setFact(u.ID, f)
			if isNil {
				s.z().assumeEQ(x.Len)
				return !s.zone.bot
			}
		}
	}
	return true
}

func (s *State) assumePred(p VPred) bool {
	switch p.Name {
	case "containsany":
		if p.Neg {
			set := csOf(p.Arg)
			for _, q := range p.S.P {
				if q.ID == "" {
					continue
				}
				f := s.fact(q.ID)
				c := csAll
				if f.Cs != nil {
					c = *f.Cs
				}
				set.Non = false
				c = c.minus(set)
				f.Cs = &c
				s.setFact(q.ID, f)
				if sym, ok := runePartSym(q.ID); ok && !s.assumeChars(linSym(sym), c) {
					return false
				}
			}
			return true
		}
		if id, ok := p.S.single(); ok {
			s.setFact("m:contains:"+p.Arg+":"+id, Fact{B: 2})
			s.lenSym(id)
			s.z().assumeLE(linConst(1).sub(linSym(lenID(id))))
		}
		return true
	case "regex":
		if cs, ok := regexChars(p.Arg); ok && !p.Neg {
			for _, q := range p.S.P {
				if q.ID == "" {
					if !csOf(q.Lit).subset(cs) {
						return false
					}
					continue
				}
				c := s.seqCs(VSeq{[]Part{q}}).and(cs)
				s.setCs(q.ID, c)
				if sym, ok := runePartSym(q.ID); ok && !s.assumeChars(linSym(sym), c) {
					return false
				}
			}
		}
	case "equalfold":
		if id, ok := p.S.single(); ok && !p.Neg {
			s.setCs(id, csOf(p.Arg).fold())
			s.lenSym(id)
			s.z().assumeEQ(linSym(lenID(id)).addC(-int64(len(p.Arg))))
		}
	case "hasprefix", "hassuffix":
		if !p.Neg {
			s.z().assumeLE(linConst(int64(len(p.Arg))).sub(s.seqLen(p.S)))
		}
		if n := len(p.S.P); n > 0 && len(p.Arg) == 1 && p.Arg[0] < 128 {
			q := p.S.P[0]
			if p.Name == "hassuffix" {
				q = p.S.P[n-1]
			}
			if sym, ok := runePartSym(q.ID); ok {
				cs := csOf(p.Arg)
				if p.Neg {
					cs = csAll.minus(cs)
				}
				if !s.assumeChars(linSym(sym), cs) {
					return false
				}
			}
		}
	}
	b := int8(2)
	if p.Neg {
		b = 1
	}
	p.Neg = false
	s.setFact("p:"+p.key(), Fact{B: b})
	return !s.zone.bot
}

// hasType decides whether interface value v has dynamic type T.
func (s *State) hasType(v Value, T types.Type) (bool, bool) {
	switch x := v.(type) {
	case VNil:
		return false, true
	case VIface:
		if types.IsInterface(T) {
			return types.Implements(x.T, T.Underlying().(*types.Interface)), true
		}
		return types.Identical(x.T, T), true
	case VErr:
		if types.IsInterface(T) {
			return false, false
		}
		return false, true
	case VUnk:
		f := s.fact(x.ID)
		if f.Nil == 1 {
			return false, true
		}
		if f.Ty != "" && !types.IsInterface(T) {
			return f.Ty == typeKey(T), true
		}
		if hasStr(f.TyNe, typeKey(T)) {
			return false, true
		}
	}
	return false, false
}
