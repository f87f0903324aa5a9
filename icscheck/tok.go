package main

import (
	"go/types"
)

// Character tokenisers of the parser library. The tokeniser struct refers to a
// heap object holding a VTok; copies of the struct share it.

const tokPrefix = "(*" + parserPath + ".Tokeniser)."

func tokIntrinsics() map[string]func(c *Call) []Out {
	return map[string]func(c *Call) []Out{
		parserPath + ".NewStringTokeniser": func(c *Call) []Out { return c.newTok(c.seq(0)) },
		parserPath + ".NewByteTokeniser":   func(c *Call) []Out { return c.newTok(c.st.seqOf(c.args[0])) },
		tokPrefix + "Accept": func(c *Call) []Out {
			return c.tokAccept(csOf(c.constStr(1)), true)
		},
		tokPrefix + "Except": func(c *Call) []Out {
			return c.tokAccept(csExcept(c.constStr(1)))
		},
		tokPrefix + "AcceptRun": func(c *Call) []Out { return c.tokRun(csOf(c.constStr(1)), true) },
		tokPrefix + "ExceptRun": func(c *Call) []Out { return c.tokRun(csExcept(c.constStr(1))) },
		tokPrefix + "Peek": func(c *Call) []Out {
			var outs []Out
			for _, h := range c.tokHead() {
				h.c.setTok(VTok{h.t.Pend, h.h.part.concat(h.h.rest)})
				outs = append(outs, Out{h.h.st, VLin{h.h.ch}})
			}
			return outs
		},
		tokPrefix + "Next": func(c *Call) []Out {
			var outs []Out
			for _, h := range c.tokHead() {
				h.c.setTok(VTok{h.t.Pend.concat(h.h.part), h.h.rest})
				outs = append(outs, Out{h.h.st, VLin{h.h.ch}})
			}
			return outs
		},
		tokPrefix + "Get": func(c *Call) []Out {
			t, ok := c.tok()
			if !ok {
				return c.e.unknownCall(c)
			}
			c.setTok(VTok{VSeq{}, t.Src})
			return c.ret(t.Pend)
		},
		tokPrefix + "Len": func(c *Call) []Out {
			t, ok := c.tok()
			if !ok {
				return c.e.unknownCall(c)
			}
			return c.ret(VLin{c.st.seqLen(t.Pend)})
		},
	}
}

func (c *Call) newTok(q VSeq) []Out {
	tok := siteTok(c.site)
	q = c.e.withHeld(c.st, q, func() { c.st.fresh(tok) }).(VSeq)
	T := resultType(c.sig)
	return c.ret(mkTok(c.st, T, "tok"+tok, q))
}

// mkTok creates a tokeniser value reading q.
func mkTok(s *State, T types.Type, name string, q VSeq) Value {
	s.heap[name] = Obj{nil, VTok{VSeq{}, q}}
	v := zero(T).(VStruct)
	f := append([]Value(nil), v.F...)
	f[0] = VPtr{Obj: name}
	return VStruct{T, f}
}

func (c *Call) tokPtr() (VPtr, bool) {
	p, ok := c.e.ptr(c.st, c.args[0], c.site, "tokeniser")
	if !ok {
		return p, false
	}
	st, ok := c.st.load(p).(VStruct)
	if !ok || len(st.F) == 0 {
		return p, false
	}
	o, ok := st.F[0].(VPtr)
	return o, ok
}

func (c *Call) tok() (VTok, bool) {
	p, ok := c.tokPtr()
	if !ok {
		c.e.undecided("%s: unknown tokeniser", c.e.p.pos(c.site.Pos()))
		return VTok{}, false
	}
	t, ok := c.st.load(p).(VTok)
	return t, ok
}

func (c *Call) setTok(t VTok) {
	if p, ok := c.tokPtr(); ok {
		if c.e.onTok != nil {
			old, _ := c.st.load(p).(VTok)
			c.e.onTok(c, old, t)
		}
		c.st.store(p, t)
	}
}

type tokHead struct {
	c *Call
	t VTok
	h headOut
}

func (c *Call) tokHead() []tokHead {
	t, ok := c.tok()
	if !ok {
		return nil
	}
	var r []tokHead
	tok := siteTok(c.site)
	// names created by the head split use the site token; hold the arguments
	for _, h := range c.headHeld(t, tok) {
		r = append(r, h)
	}
	return r
}

func (c *Call) headHeld(t VTok, tok string) []tokHead {
	// make the token unused first so that the split itself renames nothing
	c.args = append([]Value(nil), c.args...)
	h := c.e.withHeld(c.st, VTuple{VTuple(c.args), t}, func() { c.st.fresh(tok) }).(VTuple)
	c.args = []Value(h[0].(VTuple))
	t = h[1].(VTok)
	var r []tokHead
	for i, o := range c.e.seqHead(c.st, t.Src, tok) {
		_ = i
		d := *c
		d.st = o.st
		r = append(r, tokHead{&d, t, o})
	}
	return r
}

// tokAccept consumes one character if it is in the set.
func (c *Call) tokAccept(set Charset, some bool) []Out {
	set.EOF = false
	var outs []Out
	for _, h := range c.tokHead() {
		d := h.c
		for _, m := range d.member(h.h.ch, set, some) {
			t := bool(m.v.(VBool))
			e := *d
			e.st = m.st.clone()
			if t {
				e.setTok(VTok{h.t.Pend.concat(h.h.part), h.h.rest})
			} else {
				e.setTok(VTok{h.t.Pend, h.h.part.concat(h.h.rest)})
			}
			outs = append(outs, Out{e.st, VBool(t)})
		}
	}
	return outs
}

// tokRun consumes characters as long as they are in the set and returns the
// character after them.
func (c *Call) tokRun(set Charset, some bool) []Out {
	set.EOF = false
	t, ok := c.tok()
	if !ok {
		return c.e.unknownCall(c)
	}
	tok := siteTok(c.site)
	c.args = append([]Value(nil), c.args...)
	hh := c.e.withHeld(c.st, VTuple{VTuple(c.args), t}, func() { c.st.fresh(tok) }).(VTuple)
	c.args = []Value(hh[0].(VTuple))
	t = hh[1].(VTok)
	var outs []Out
	n := 0
	type item struct {
		st *State
		t  VTok
	}
	work := []item{{c.st, t}}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if n++; n > 200 {
			c.e.undecided("%s: run too long", c.e.p.pos(c.site.Pos()))
			return outs
		}
		s := it.st
		src := s.norm(it.t.Src)
		stop := func(st *State, pend, src VSeq, ch Lin) {
			d := *c
			d.st = st
			d.setTok(VTok{pend, src})
			outs = append(outs, Out{st, VLin{ch}})
		}
		if len(src.P) == 0 {
			stop(s, it.t.Pend, src, linConst(-1))
			continue
		}
		p := src.P[0]
		_, isRune := runePartSym(p.ID)
		if p.ID == "" || isRune {
			for _, h := range c.e.seqHead(s, src, tok) {
				d := *c
				d.st = h.st
				for _, m := range d.member(h.ch, set, some) {
					st := m.st.clone()
					if bool(m.v.(VBool)) {
						work = append(work, item{st, VTok{it.t.Pend.concat(h.part), h.rest}})
					} else {
						stop(st, it.t.Pend, h.part.concat(h.rest), h.ch)
					}
				}
			}
			continue
		}
		one := VSeq{[]Part{p}}
		rest := VSeq{src.P[1:]}
		cs := s.seqCs(one)
		cs.EOF = false
		in, out := cs.and(set), cs.minus(set)
		if some && set.Non && cs.Non {
			out.Non = true
		}
		// the whole part belongs to the run
		if !in.empty() || true {
			st := s.clone()
			ok := true
			if in.empty() {
				st.lenSym(p.ID)
				st.z().assumeEQ(linSym(lenID(p.ID)))
				ok = !st.zone.bot
			} else if in != cs {
				st.setCs(p.ID, in)
			}
			if ok {
				pend := it.t.Pend
				if !in.empty() {
					pend = pend.concat(one)
				}
				work = append(work, item{st, VTok{pend, rest}})
			}
		}
		if out.empty() {
			continue
		}
		// stopped within the part: prefix, stopping character, remainder
		st := s.clone()
		hc, tl, pre := "c"+tok, "tl"+tok, "pre"+tok
		if st.zone.has(hc) || st.facts[pre] != nil {
			// a second unknown part within one run
			hc, tl, pre = hc+"'", tl+"'", pre+"'"
		}
		z := st.z()
		i := z.sym(hc)
		z.le(0, i, 0)
		z.le(i, 0, 0x10ffff)
		st.setCs(hc, out)
		d := st.depsID(p.ID)
		st.setDeps(hc, d)
		st.setCs(tl, cs)
		st.setDeps(tl, d)
		st.lenSym(tl)
		st.lenSym(p.ID)
		st.z().assumeLE(linConst(1).sub(linSym(lenID(p.ID))))
		pend := it.t.Pend
		if !in.empty() {
			st.setCs(pre, in)
			st.setDeps(pre, d)
			st.lenSym(pre)
			pend = pend.concat(opaqueSeq(pre))
		}
		part := c.e.runeSeq(st, linSym(hc))
		if st.assumeChars(linSym(hc), out) && !st.zone.bot {
			stop(st, pend, part.concat(opaqueSeq(tl)).concat(rest), linSym(hc))
		}
	}
	return outs
}

// csExcept are the characters that are not in s; whether only some of the
// characters above 0x7f are among them.
func csExcept(s string) (Charset, bool) {
	c := csOf(s)
	some := c.Non
	c.Non = false
	return csAll.minus(c), some
}
