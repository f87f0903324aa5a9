package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Escaping of text values.

// methods of a value or parameter type
type codec struct {
	name          string
	T             *types.Named
	dec, enc, val *ssa.Function
}

func (r *Report) codec(n string) *codec {
	T := r.p.namedType(n)
	if !r.anchor(T != nil, "type "+n) {
		return nil
	}
	c := &codec{name: n, T: T, dec: r.p.DeclMethod(T, "decode"), enc: r.p.DeclMethod(T, "encode"), val: r.p.DeclMethod(T, "valid")}
	r.anchor(c.dec != nil, "decoding of "+n)
	r.anchor(c.enc != nil, "encoding of "+n)
	r.anchor(c.val != nil, "validation of "+n)
	if c.dec == nil || c.enc == nil || c.val == nil {
		return nil
	}
	return c
}

var textSpecials = csOf("\\;,\n")

// textEncodeAtoms are the pieces a text consists of.
func textEncodeAtoms() []atom {
	return []atom{
		charAtom("any character", csText.minus(textSpecials)),
		litAtom("a backslash", "\\", "\\\\"), litAtom("a semicolon", ";", "\\;"),
		litAtom("a comma", ",", "\\,"), litAtom("a newline", "\n", "\\n"),
	}
}

func textDecodeAtoms() []atom {
	return []atom{
		charAtom("any character", csText.minus(csOf("\\;,"))), runAtom("any run", csText.minus(csOf("\\;,"))),
		litAtom("\\\\", "\\", "\\\\"), litAtom("\\;", ";", "\\;"), litAtom("\\,", ",", "\\,"),
		litAtom("\\n", "\n", "\\n"), litAtom("\\N", "\n", "\\N"),
		{"a backslash before any other character", func(f *Flow) (VSeq, VSeq) {
			q := lit("\\").concat(f.char(csText.minus(csOf("\\;,nN"))))
			return q, q
		}},
	}
}

func longAtom() atom {
	return litAtom("a long text", strings.Repeat("abc", 200), strings.Repeat("abc", 200))
}

func (r *Report) texts(report reporter) {
	var jobs []func()
	if c := r.codec("Text"); c != nil {
		for _, s := range append(sequences(textEncodeAtoms(), 4), []atom{longAtom(), litAtom("a comma", ",", "\\,")}) {
			jobs = append(jobs, func() { r.textEncode(c, s, report) })
		}
		for _, s := range sequences(textDecodeAtoms(), 3) {
			jobs = append(jobs, func() { r.textDecode(c, s, report) })
		}
		for _, sep := range []string{";", ","} {
			for _, s := range sequences(textDecodeAtoms(), 1) {
				for _, t := range sequences(textDecodeAtoms(), 1) {
					jobs = append(jobs, func() { r.textRaw(c, s, sep, t, report) })
				}
			}
		}
	}
	if c := r.codec("MText"); c != nil {
		items := sequences(textEncodeAtoms(), 1)
		for _, l := range lists(items, 3) {
			jobs = append(jobs, func() { r.mtextEncode(c, l, report) })
		}
		items = sequences(textDecodeAtoms(), 1)
		for _, l := range append(lists(items, 2), lists(items[:4], 4)...) {
			jobs = append(jobs, func() { r.mtextDecode(c, l, report) })
		}
		for _, s := range items {
			for _, t := range items {
				jobs = append(jobs, func() { r.textRaw(c, s, ";", t, report) })
			}
		}
	}
	r.parallel(jobs)
}

// lists are all lists of one to n items.
func lists(items [][]atom, n int) [][][]atom {
	var r [][][]atom
	last := [][][]atom{nil}
	for i := 0; i < n; i++ {
		var next [][][]atom
		for _, l := range last {
			for _, it := range items {
				next = append(next, append(append([][]atom(nil), l...), it))
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

func listName(l [][]atom) string {
	var r []string
	for _, s := range l {
		r = append(r, "<"+seqName(s)+">")
	}
	return strings.Join(r, " and ")
}

func (r *Report) textEncode(c *codec, s []atom, report reporter) {
	f := r.flow()
	p, want := build(f, s)
	r.count("texts followed", 1)
	r.compareText(f, f.encode(c.enc, c.T, p), c, "encoding "+c.name+" with "+seqName(s), render(want), report)
}

func (r *Report) compareText(f *Flow, outs []Out, c *codec, what, want string, report reporter) {
	pos := r.p.pos(c.enc.Pos())
	if len(outs) == 0 {
		report("noreturn", what, pos, what+" never ends")
	}
	for _, o := range outs {
		r.count("written texts compared", 1)
		if got := o.text(); got != want {
			report("text", what, pos, fmt.Sprintf("%s writes %q instead of %q", what, got, want))
		}
	}
}

func (r *Report) textDecode(c *codec, s []atom, report reporter) {
	f := r.flow()
	want, data := build(f, s)
	what := "decoding " + c.name + " with " + seqName(s)
	r.count("texts followed", 1)
	outs := f.decode(c.dec, c.T, VNil{}, data)
	pos := r.p.pos(c.dec.Pos())
	if len(outs) == 0 {
		report("noreturn", what, pos, what+" never ends")
	}
	for _, o := range outs {
		if o.st.nilness(o.v) != 1 {
			report("reject", what, pos, what+" can fail")
			continue
		}
		r.count("decoded texts compared", 1)
		if got := o.textOf(o.result()); got != render(want) {
			report("text", what, pos, fmt.Sprintf("%s gives %q instead of %q", what, got, render(want)))
		}
	}
}

// textRaw decodes texts with a separator that may not occur in them.
func (r *Report) textRaw(c *codec, s []atom, sep string, t []atom, report reporter) {
	f := r.flow()
	_, d1 := build(f, s)
	_, d2 := build(f, t)
	what := fmt.Sprintf("decoding %s with %s, unescaped %q, %s", c.name, seqName(s), sep, seqName(t))
	for _, o := range f.decode(c.dec, c.T, VNil{}, d1.concat(lit(sep)).concat(d2)) {
		if o.st.nilness(o.v) != 2 {
			report("accept", what, r.p.pos(c.dec.Pos()), what+" can succeed")
		}
	}
}

func (r *Report) mtextEncode(c *codec, l [][]atom, report reporter) {
	f := r.flow()
	var vs []Value
	var want VSeq
	for i, s := range l {
		p, q := build(f, s)
		vs = append(vs, p)
		if i > 0 {
			want = want.concat(lit(","))
		}
		want = want.concat(q)
	}
	r.count("texts followed", 1)
	r.compareText(f, f.encode(c.enc, c.T, f.list(c.T, vs)), c, "encoding "+c.name+" with "+listName(l), render(want), report)
}

func (r *Report) mtextDecode(c *codec, l [][]atom, report reporter) {
	f := r.flow()
	var data VSeq
	var want []string
	for i, s := range l {
		p, q := build(f, s)
		if i > 0 {
			data = data.concat(lit(","))
		}
		data = data.concat(q)
		want = append(want, render(p))
	}
	what := "decoding " + c.name + " with " + listName(l)
	r.count("texts followed", 1)
	pos := r.p.pos(c.dec.Pos())
	outs := f.decode(c.dec, c.T, VNil{}, data)
	if len(outs) == 0 {
		report("noreturn", what, pos, what+" never ends")
	}
	for _, o := range outs {
		if o.st.nilness(o.v) != 1 {
			report("reject", what, pos, what+" can fail")
			continue
		}
		got := f.texts(o, o.result())
		r.count("decoded texts compared", 1)
		if got != fmt.Sprintf("%q", want) {
			report("text", what, pos, fmt.Sprintf("%s gives %s instead of %q", what, got, want))
		}
	}
}

// texts describes a list of texts.
func (f *Flow) texts(o Out, v Value) string {
	vs, ok := f.elems(o, v)
	if !ok {
		return "?" + vkey(v)
	}
	var r []string
	for _, x := range vs {
		r = append(r, o.textOf(x))
	}
	return fmt.Sprintf("%q", r)
}
