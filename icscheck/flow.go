package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Single values: encoders, decoders and validators of parameters and values
// followed on texts assembled from literals, arbitrary characters of a class
// and arbitrary runs of such characters.

// outGhost is what has been written.
type outGhost struct {
	text    string
	seq     VSeq
	nomatch bool // a value did not match a pattern
}

// Syms are the symbols of the text, about which facts are kept.
func (g outGhost) Syms(sym, obj func(string)) { symsOf(g.seq, sym, obj) }

func (g outGhost) Rename(f func(string) string) Ghost {
	g.seq = renameVal(g.seq, f).(VSeq)
	g.text = render(g.seq)
	return g
}

func (g outGhost) Key() string { return fmt.Sprint(g.text, "|", g.nomatch) }

// render describes a text: literals as they are, other parts by their names.
func render(q VSeq) string {
	var sb strings.Builder
	for _, p := range q.P {
		if p.ID == "" {
			sb.WriteString(p.Lit)
		} else {
			sb.WriteString("‹" + p.ID + "›")
		}
	}
	return sb.String()
}

// Flow is one analysis of a function on given values.
type Flow struct {
	r  *Report
	e  *Engine
	st *State
	n  int
	// contents of the texts of addresses and URIs
	alias map[string]VSeq
	// name of the time zone that is neither UTC nor local
	zone *VSeq
}

func (r *Report) flow() *Flow {
	e := NewEngine(r.p)
	e.noOblig = true
	e.unroll = true
	e.maxPart = 1 << 16
	e.maxSeq = 256
	e.fine = 32
	e.roots["§t^"] = true
	st := e.state()
	st.q = outGhost{}
	st.setFact("§w", Fact{Nil: 2})
	f := &Flow{r: r, e: e, st: st, alias: map[string]VSeq{}}
	e.hooks = append(e.hooks, f.writes, f.urls, f.zones, f.patterns)
	return f
}

func (f *Flow) writes(c *Call) ([]Out, bool) {
	q, ok := isWrite(c)
	if !ok {
		return nil, false
	}
	q = c.st.norm(q)
	st := c.st
	g := st.q.(outGhost)
	g.text += render(q)
	g.seq = g.seq.concat(q)
	st.q = g
	return writeOuts(c, st, st.seqLen(q)), true
}

// char is an arbitrary character of a class.
func (f *Flow) char(cs Charset) VSeq {
	f.n++
	id := fmt.Sprintf("§c%d", f.n)
	z := f.st.z()
	i := z.sym(id)
	z.le(0, i, 0)
	z.le(i, 0, 0x10ffff)
	f.st.setCs(id, cs)
	f.st.setDeps(id, []string{id})
	f.st.assumeChars(linSym(id), cs)
	return f.e.runeSeq(f.st, linSym(id))
}

// run is an arbitrary text of at least min octets of a class.
func (f *Flow) run(cs Charset, min int64) VSeq {
	f.n++
	id := fmt.Sprintf("§r%d", f.n)
	f.st.setCs(id, cs)
	f.st.setDeps(id, []string{id})
	f.st.lenSym(id)
	f.st.z().assumeLE(linConst(min).sub(linSym(lenID(id))))
	return opaqueSeq(id)
}

// list is a slice with the given elements.
func (f *Flow) list(T types.Type, vs []Value) Value {
	if len(vs) == 0 {
		return VNil{}
	}
	f.n++
	obj := fmt.Sprintf("§l%d#", f.n)
	n := linConst(int64(len(vs)))
	a := VArr{N: n, Def: VUnk{obj, T}}
	for i, v := range vs {
		a.Cells = append(a.Cells, Cell{linConst(int64(i)), v})
	}
	f.st.heap[obj] = Obj{T, a}
	f.e.roots[obj] = true
	return VSlice{VPtr{Obj: obj}, Lin{}, n}
}

// recv prepares v as receiver of a method.
func (f *Flow) recv(fn *ssa.Function, T types.Type, v Value) Value {
	if fn.Signature.Recv() != nil && isPointer(fn.Signature.Recv().Type()) {
		f.st.heap["§t^"] = Obj{T, v}
		return VPtr{Obj: "§t^"}
	}
	return v
}

// encode follows an encoder writing v.
func (f *Flow) encode(fn *ssa.Function, T types.Type, v Value) []Out {
	outs := f.e.run(fn, []Value{f.recv(fn, T, v), VUnk{"§w", fn.Params[len(fn.Params)-1].Type()}}, nil, f.st)
	f.r.absorb(f.e, fn.RelString(f.r.p.Types))
	return outs
}

// validate follows a validator on v.
func (f *Flow) validate(fn *ssa.Function, T types.Type, v Value) []Out {
	outs := f.e.run(fn, []Value{f.recv(fn, T, v)}, nil, f.st)
	f.r.absorb(f.e, fn.RelString(f.r.p.Types))
	return outs
}

// decode follows a decoder filling a zero value.
func (f *Flow) decode(fn *ssa.Function, T types.Type, args ...Value) []Out {
	f.st.heap["§t^"] = Obj{T, zero(T)}
	outs := f.e.run(fn, append([]Value{VPtr{Obj: "§t^"}}, args...), nil, f.st)
	f.r.absorb(f.e, fn.RelString(f.r.p.Types))
	return outs
}

// result is the decoded value.
func (o Out) result() Value { return o.st.load(VPtr{Obj: "§t^"}) }

// written is the text that has been written.
func (o Out) written() VSeq { return o.st.q.(outGhost).seq }

func (o Out) text() string { return o.st.q.(outGhost).text }

// textOf describes a text value.
func (o Out) textOf(v Value) string { return render(o.st.norm(o.st.seqOf(v))) }

// elems are the elements of a list.
func (f *Flow) elems(o Out, v Value) ([]Value, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		if !x.Len.isConst() {
			return nil, false
		}
		var r []Value
		for i := int64(0); i < x.Len.C; i++ {
			r = append(r, f.e.elem(o.st, x, linConst(i)))
		}
		return r, true
	}
	return nil, false
}

// atom is one piece of text with its encoded form.
type atom struct {
	name string
	mk   func(f *Flow) (plain, coded VSeq)
}

func litAtom(name, plain, coded string) atom {
	return atom{name, func(f *Flow) (VSeq, VSeq) { return lit(plain), lit(coded) }}
}

func charAtom(name string, cs Charset) atom {
	return atom{name, func(f *Flow) (VSeq, VSeq) { q := f.char(cs); return q, q }}
}

func runAtom(name string, cs Charset) atom {
	return atom{name, func(f *Flow) (VSeq, VSeq) { q := f.run(cs, 1); return q, q }}
}

// sequences are all sequences of up to n atoms.
func sequences(as []atom, n int) [][]atom {
	r := [][]atom{nil}
	last := [][]atom{nil}
	for i := 0; i < n; i++ {
		var next [][]atom
		for _, s := range last {
			for _, a := range as {
				next = append(next, append(append([]atom(nil), s...), a))
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

func seqName(as []atom) string {
	if len(as) == 0 {
		return "an empty text"
	}
	var r []string
	for _, a := range as {
		r = append(r, a.name)
	}
	return strings.Join(r, ", ")
}

func build(f *Flow, as []atom) (plain, coded VSeq) {
	for _, a := range as {
		p, c := a.mk(f)
		plain, coded = plain.concat(p), coded.concat(c)
	}
	return
}

var (
	csControl = csRange(0, 31).or(csOf("\x7f")).minus(csOf("\t"))
	// csText are the characters that may occur in a text.
	csText = csAll.minus(csControl)
)

// urls replaces the text of an address or URI by what it is assumed to be.
func (f *Flow) urls(c *Call) ([]Out, bool) {
	if len(f.alias) == 0 || c.fn == nil || c.fn.String() != "(*net/url.URL).String" {
		return nil, false
	}
	p, ok := c.e.ptr(c.st, c.args[0], c.site, "method call")
	if !ok {
		return nil, true
	}
	q, ok := f.alias["urlstr("+vkey(c.st.load(p))+")"]
	if !ok {
		return nil, false
	}
	return []Out{{c.st, q}}, true
}

// patterns notes when a value does not match a pattern.
func (f *Flow) patterns(c *Call) ([]Out, bool) {
	if c.fn == nil || c.fn.String() != "(*regexp.Regexp).MatchString" && c.fn.String() != "(*regexp.Regexp).Match" {
		return nil, false
	}
	var outs []Out
	for _, o := range inMatch(c) {
		for _, t := range []bool{true, false} {
			st := o.st.clone()
			if !st.assume(o.v, t) {
				continue
			}
			if !t {
				g := st.q.(outGhost)
				g.nomatch = true
				st.q = g
			}
			outs = append(outs, Out{st, VBool(t)})
		}
	}
	return outs, true
}

// assumeURL fixes what the text of an address or URI is.
func (f *Flow) assumeURL(id string, q VSeq) {
	f.alias[id] = q
	// the facts about it are needed for as long as the value may be used
	obj := "§" + id
	f.st.heap[obj] = Obj{nil, q}
	f.e.roots[obj] = true
}

// keep holds on to what is known about a value.
func (f *Flow) keep(v Value) {
	f.n++
	obj := fmt.Sprintf("§k%d", f.n)
	f.st.heap[obj] = Obj{nil, v}
	f.e.roots[obj] = true
}

func (f *Flow) keepFact(id string) { f.keep(VUnk{id, nil}) }

// time is an arbitrary time in UTC, in local time or in another zone.
func (f *Flow) time(zone string) Value {
	f.n++
	u := VUnk{fmt.Sprintf("%s(§t%d)", zone, f.n), f.r.p.timeType()}
	id := "iszero(" + vkey(u) + ")"
	f.st.setFact(id, Fact{B: 1})
	f.keepFact(id)
	return u
}

// zoneName sets the name of the other zone.
func (f *Flow) zoneName(q VSeq) {
	f.zone = &q
	f.keep(q)
}

func (f *Flow) zones(c *Call) ([]Out, bool) {
	if f.zone == nil || c.fn == nil || c.fn.String() != "(*time.Location).String" || vkey(c.args[0]) != "~§zone" {
		return nil, false
	}
	return []Out{{c.st, *f.zone}}, true
}

// ptimeID is the time read from a text.
func ptimeID(layout string, q VSeq, zone string) string {
	return "ptime(" + lit(layout).key() + "," + q.key() + ",~G:time." + zone + ")"
}
