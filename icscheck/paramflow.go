package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Parameters: name, escaping, quoting, values and validation of each parameter
// type.

var paramSpecials = csOf("\n^\"")

// paramText are the characters a parameter may contain.
var paramText = csText.or(csOf("\n"))

var (
	csNeedsQuote = csOf("\";:,")
	csFree       = paramText.minus(paramSpecials).minus(csNeedsQuote)
)

func paramEncodeAtoms() []atom {
	return []atom{
		charAtom("any character", csFree), runAtom("any run", csFree),
		litAtom("a newline", "\n", "^n"), litAtom("a caret", "^", "^^"), litAtom("a double quote", "\"", "^'"),
		charAtom("a separator", csOf(";:,")),
		litAtom("an n", "n", "n"), litAtom("an apostrophe", "'", "'"),
	}
}

func needsQuote(as []atom) bool {
	for _, a := range as {
		if a.name == "a separator" {
			return true
		}
	}
	return false
}

func paramDecodeAtoms(quoted bool) []atom {
	cs := csText.minus(csOf("^\""))
	if !quoted {
		cs = cs.minus(csOf(";:,"))
	}
	return []atom{
		charAtom("any character", cs), runAtom("any run", cs),
		litAtom("^n", "\n", "^n"), litAtom("^^", "^", "^^"), litAtom("^'", "\"", "^'"),
		{"a caret before any other character", func(f *Flow) (VSeq, VSeq) {
			q := lit("^").concat(f.char(cs.minus(csOf("n'"))))
			return q, q
		}},
	}
}

// paramKind classifies parameter types by what they hold.
func (r *Report) paramKind(T *types.Named) string {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(u):
			return "text"
		case isBool(u):
			return "bool"
		case isInt(u):
			return "enum"
		}
	case *types.Slice:
		if isString(u.Elem()) {
			return "texts"
		}
		if nt, ok := u.Elem().(*types.Named); ok && r.p.isValueType(nt) {
			return "uris"
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			return "flag"
		}
		return "uri"
	}
	return ""
}

func (r *Report) params(report reporter) {
	var jobs []func()
	for _, n := range sortedKeys(paramNames) {
		c := r.codec(n)
		if c == nil {
			continue
		}
		p := &paramRun{r: r, c: c, wire: paramNames[n], kind: r.paramKind(c.T), report: report}
		switch p.kind {
		case "text", "texts", "uri", "uris", "bool":
			jobs = append(jobs, p.run)
		case "enum", "flag":
			// enumerations
		default:
			r.anchor(false, "kind of parameter "+n)
		}
	}
	r.parallel(jobs)
}

type paramRun struct {
	r              *Report
	c              *codec
	wire, kind     string
	report         reporter
	takesU, takesQ bool // the decoder accepts unquoted and quoted values
	wrote          map[bool]bool
	regex          bool // the values are restricted by a pattern
}

func (p *paramRun) multi() bool { return p.kind == "texts" || p.kind == "uris" }

// regexText is a text with several parts
func (p *paramRun) run() {
	p.wrote = map[bool]bool{}
	p.decodes()
	p.encodes()
	p.valids()
	pos := p.r.p.pos(p.c.enc.Pos())
	for q, word := range map[bool]string{true: "quoted", false: "unquoted"} {
		takes := p.takesU
		if q {
			takes = p.takesQ
		}
		if p.wrote[q] && !takes {
			p.report("quote", p.c.name+" "+word, pos, fmt.Sprintf("%s can be written %s but is not accepted %s", p.wire, word, word))
		}
	}
	if !p.takesQ {
		p.report("quote", p.c.name+" accepts quoted", p.r.p.pos(p.c.dec.Pos()), p.wire+" is never accepted in quotes")
	}
}

func (p *paramRun) token(quoted bool) Lin {
	if quoted {
		return tokenKind(p.r.p, "tokenParamQuotedValue")
	}
	return tokenKind(p.r.p, "tokenParamValue")
}

// value describes a decoded element.
func (p *paramRun) value(o Out, v Value) string {
	switch p.kind {
	case "text", "texts":
		return o.textOf(v)
	}
	return vkey(v)
}

// decodeWith follows the decoder on a list of values.
func (p *paramRun) decodeWith(quoted []bool, l [][]atom) (what string, f *Flow, outs []Out, want []string) {
	f = p.r.flow()
	var ks []Lin
	var ds []VSeq
	for i, s := range l {
		plain, coded := build(f, s)
		ks = append(ks, p.token(quoted[i]))
		ds = append(ds, coded)
		switch p.kind {
		case "text", "texts":
			want = append(want, render(plain))
		case "uri", "uris":
			want = append(want, "url("+coded.key()+")")
		case "bool":
			want = append(want, "parsebool("+coded.key()+")")
		}
	}
	q := "quoted"
	if !quoted[0] {
		q = "unquoted"
	}
	what = "decoding " + p.wire + " from " + q + " " + listName(l)
	p.r.count("parameter values followed", 1)
	outs = f.decode(p.c.dec, p.c.T, tokenList(p.r.p, f.st, "§vs", ks, ds))
	if len(outs) == 0 {
		p.report("noreturn", what, p.r.p.pos(p.c.dec.Pos()), what+" never ends")
	}
	return
}

func all(b bool, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = b
	}
	return r
}

func (p *paramRun) decodes() {
	for _, quoted := range []bool{true, false} {
		atoms := paramDecodeAtoms(quoted)
		depth := 3
		switch p.kind {
		case "uri", "uris", "bool":
			// taken over without caret notation by the value types
			atoms = atoms[:2]
			depth = 2
		}
		seqs := sequences(atoms, depth)
		for _, s := range seqs {
			if ok := p.decodes1(quoted, [][]atom{s}); ok {
				if quoted {
					p.takesQ = true
				} else {
					p.takesU = true
				}
			}
		}
		takes := p.takesU
		if quoted {
			takes = p.takesQ
		}
		if !takes {
			continue
		}
		// lists
		var ls [][][]atom
		for _, l := range lists(sequences(atoms, 1), 2) {
			if len(l) > 1 {
				ls = append(ls, l)
			}
		}
		items := sequences(atoms, 1)[1:3]
		for _, l := range lists(items, 4) {
			if len(l) > 2 {
				ls = append(ls, l)
			}
		}
		var long [][]atom
		for i := 0; i < 40; i++ {
			long = append(long, items[0])
		}
		ls = append(ls, long)
		for _, l := range ls {
			p.decodes1(quoted, l)
		}
	}
}

// decodes1 checks one list of values and reports whether it can be decoded.
func (p *paramRun) decodes1(quoted bool, l [][]atom) (can bool) {
	pos := p.r.p.pos(p.c.dec.Pos())
	what, f, outs, want := p.decodeWith(all(quoted, len(l)), l)
	tooMany := len(l) > 1 && !p.multi()
	rejects := false
	for _, o := range outs {
		n := o.st.nilness(o.v)
		if n != 1 {
			rejects = true
			if p.kind == "text" || p.kind == "texts" {
				if !p.restricted(o) && !tooMany {
					// only acceptable if this form is never accepted
					defer func() {
						if can {
							p.report("reject", what, pos, what+" can fail")
						}
					}()
				}
			}
		}
		if n == 2 {
			continue
		}
		can = true
		if tooMany {
			p.report("accept", what, pos, what+" can succeed although "+p.wire+" has one value")
			continue
		}
		p.r.count("decoded parameters compared", 1)
		var got []string
		ok := true
		if p.multi() {
			vs, k := f.elems(o, o.result())
			ok = k
			for _, v := range vs {
				got = append(got, p.value(o, v))
			}
		} else {
			got = []string{p.value(o, o.result())}
		}
		if !ok || len(got) != len(want) {
			p.report("values", what, pos, fmt.Sprintf("%s gives %d values (%s)", what, len(got), vkey(o.result())))
			continue
		}
		for i := range got {
			same := got[i] == want[i]
			if p.kind != "text" && p.kind != "texts" {
				same = strings.Contains(got[i], want[i])
				if k, isB := map[string]int8{"true": 2, "false": 1}[got[i]]; isB {
					same = o.st.fact(want[i]).B == k
				}
			}
			if !same {
				p.report("values", what, pos, fmt.Sprintf("%s gives %q instead of %q", what, got[i], want[i]))
			}
		}
	}
	if p.kind != "text" && p.kind != "texts" && can && !tooMany && !rejects {
		p.report("malformed", what, pos, what+" never fails although the value may be malformed")
	}
	return
}

// restricted reports whether a rejection is due to a pattern the value has to
// match.
func (p *paramRun) restricted(o Out) bool {
	return o.st.q.(outGhost).nomatch
}

func (p *paramRun) encodes() {
	pos := p.r.p.pos(p.c.enc.Pos())
	check := func(what string, outs []Out, want string, quote bool) {
		if len(outs) == 0 {
			p.report("noreturn", what, pos, what+" never ends")
		}
		for _, o := range outs {
			p.r.count("written parameters compared", 1)
			got := o.text()
			q := ";" + p.wire + "=\"" + strings.ReplaceAll(want, "\x00", "\",\"") + "\""
			u := ";" + p.wire + "=" + strings.ReplaceAll(want, "\x00", ",")
			switch {
			case got == q:
				p.wrote[true] = true
			case got == u && !quote:
				p.wrote[false] = true
			case got == u:
				p.report("unquoted", what, pos, fmt.Sprintf("%s writes %q without quotes", what, got))
			case got == "":
				p.report("missing", what, pos, what+" can write nothing")
			default:
				p.report("text", what, pos, fmt.Sprintf("%s writes %q instead of %q", what, got, q))
			}
		}
	}
	nothing := func(what string, outs []Out) {
		for _, o := range outs {
			if o.text() != "" {
				p.report("empty", what, pos, fmt.Sprintf("%s writes %q", what, o.text()))
			}
		}
	}
	p.r.count("parameters followed", 1)
	switch p.kind {
	case "text":
		for _, s := range sequences(paramEncodeAtoms(), 3) {
			f := p.r.flow()
			plain, coded := build(f, s)
			what := "encoding " + p.wire + " with " + seqName(s)
			outs := f.encode(p.c.enc, p.c.T, plain)
			if len(s) == 0 {
				nothing(what, outs)
			} else {
				check(what, outs, render(coded), needsQuote(s))
			}
		}
	case "texts":
		f := p.r.flow()
		nothing("encoding "+p.wire+" without values", f.encode(p.c.enc, p.c.T, VNil{}))
		items := sequences(paramEncodeAtoms(), 1)
		for _, l := range append(lists(items, 2), lists(items[1:4], 4)...) {
			f := p.r.flow()
			var vs []Value
			var want []string
			quote := false
			for _, s := range l {
				plain, coded := build(f, s)
				vs = append(vs, plain)
				want = append(want, render(coded))
				quote = quote || needsQuote(s)
			}
			check("encoding "+p.wire+" with "+listName(l), f.encode(p.c.enc, p.c.T, f.list(p.c.T, vs)), strings.Join(want, "\x00"), quote)
		}
	case "uri", "uris":
		n := 1
		if p.kind == "uri" {
			f := p.r.flow()
			f.assumeURL(urlText(p.c.T, "§u0"), VSeq{})
			nothing("encoding "+p.wire+" when empty", f.encode(p.c.enc, p.c.T, f.st.mk(p.c.T, "§u0")))
		} else {
			f := p.r.flow()
			nothing("encoding "+p.wire+" without values", f.encode(p.c.enc, p.c.T, VNil{}))
			n = 5
		}
		for k := 1; k <= n; k++ {
			f := p.r.flow()
			var vs []Value
			var want []string
			ET := types.Type(p.c.T)
			if p.kind == "uris" {
				ET = p.c.T.Underlying().(*types.Slice).Elem()
			}
			for i := 0; i < k; i++ {
				id := fmt.Sprintf("§u%d", i)
				v := f.st.mk(ET, id)
				vs = append(vs, v)
				q := f.run(csText.minus(csOf("\"")), 1)
				f.assumeURL(urlText(ET, id), q)
				want = append(want, render(q))
			}
			v := vs[0]
			if p.kind == "uris" {
				v = f.list(p.c.T, vs)
			}
			what := fmt.Sprintf("encoding %s with %d values", p.wire, k)
			outs := f.encode(p.c.enc, p.c.T, v)
			check(what, outs, strings.Join(want, "\x00"), true)
		}
	case "bool":
		f := p.r.flow()
		check("encoding "+p.wire+" when set", f.encode(p.c.enc, p.c.T, VBool(true)), "TRUE", false)
		f = p.r.flow()
		for _, o := range f.encode(p.c.enc, p.c.T, VBool(false)) {
			if t := o.text(); t != "" && t != ";"+p.wire+"=FALSE" {
				p.report("text", "encoding "+p.wire+" when not set", pos, fmt.Sprintf("%s that is not set is written as %q", p.wire, t))
			}
		}
	}
}

// urlText names the text of an address or URI.
func urlText(T types.Type, id string) string { return "urlstr(~" + id + urlPath(T) + ")" }

func urlPath(T types.Type) string {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "URL" && n.Obj().Pkg().Path() == "net/url" {
			return "." + st.Field(i).Name()
		}
		if p := urlPath(t); p != "" {
			return "." + st.Field(i).Name() + p
		}
	}
	return ""
}

// mediaTypes are texts and whether they are media types.
var mediaTypes = map[string]bool{
	"text/plain": true, "application/vnd.ms-excel": true, "image/svg+xml": true, "x-A.b/c1_2": true, "a/b-c": true,
	"": false, "text": false, "/plain": false, "text/": false, "te xt/plain": false, "text/pl ain": false, "text plain": false,
	"t\u00e9xt/plain": false, "text/plain\t": false, " text/plain": false, "text/plain\"": false,
}

func (p *paramRun) valids() {
	pos := p.r.p.pos(p.c.val.Pos())
	must := func(what string, outs []Out, ok bool) {
		p.r.count("validations followed", 1)
		if len(outs) == 0 {
			p.report("noreturn", what, pos, what+" never ends")
		}
		for _, o := range outs {
			n := o.st.nilness(o.v)
			if ok && n != 1 && !p.restricted(o) {
				p.report("invalid", what, pos, what+" can fail")
			}
			if !ok && n != 2 {
				p.report("unchecked", what, pos, what+" can succeed")
			}
		}
	}
	text := func(f *Flow, bad bool, where int) VSeq {
		if !bad {
			return f.run(paramText, 0)
		}
		c := f.char(csControl.minus(csOf("\n")))
		switch where {
		case 0:
			return c.concat(f.run(paramText, 0))
		case 1:
			return f.run(paramText, 0).concat(c)
		}
		return f.run(paramText, 0).concat(c).concat(f.run(paramText, 0))
	}
	switch p.kind {
	case "text":
		f := p.r.flow()
		must("validating "+p.wire+" with a text", f.validate(p.c.val, p.c.T, text(f, false, 0)), true)
		for w := 0; w < 3; w++ {
			f := p.r.flow()
			must("validating "+p.wire+" with a control character", f.validate(p.c.val, p.c.T, text(f, true, w)), false)
		}
		if p.wire == "FMTTYPE" {
			for t, ok := range mediaTypes {
				f := p.r.flow()
				outs := f.validate(p.c.val, p.c.T, lit(t))
				for i := range outs {
					outs[i].st.q = outGhost{}
				}
				must(fmt.Sprintf("validating %s with %q", p.wire, t), outs, ok)
				f = p.r.flow()
				for _, o := range f.decode(p.c.dec, p.c.T, tokenList(p.r.p, f.st, "§vs", []Lin{p.token(true)}, []VSeq{lit(t)})) {
					if n := o.st.nilness(o.v); n == 0 || (n == 1) != ok {
						p.report("media", fmt.Sprintf("decoding %s %q", p.wire, t), pos, fmt.Sprintf("decoding %s %q: accepted %v", p.wire, t, n != 2))
					}
				}
			}
		}
	case "texts":
		for n := 0; n <= 4; n++ {
			for bad := -1; bad < n; bad++ {
				f := p.r.flow()
				var vs []Value
				for i := 0; i < n; i++ {
					vs = append(vs, text(f, i == bad, 2))
				}
				what := fmt.Sprintf("validating %s with %d texts", p.wire, n)
				if bad >= 0 {
					what += fmt.Sprintf(", a control character in text %d", bad)
				}
				must(what, f.validate(p.c.val, p.c.T, f.list(p.c.T, vs)), bad < 0)
			}
		}
	case "uri", "uris":
		n := 1
		ET := types.Type(p.c.T)
		if p.kind == "uris" {
			n = 4
			ET = p.c.T.Underlying().(*types.Slice).Elem()
		}
		for k := 1; k <= n; k++ {
			for bad := -1; bad < k; bad++ {
				for _, q := range []Charset{csControl, csOf("\"")} {
					f := p.r.flow()
					var vs []Value
					for i := 0; i < k; i++ {
						id := fmt.Sprintf("§u%d", i)
						v := f.st.mk(ET, id)
						id = urlText(ET, id)
						if i == bad {
							f.assumeURL(id, f.run(csText, 0).concat(f.char(q)).concat(f.run(csText, 0)))
						} else {
							f.assumeURL(id, f.run(csText.minus(csOf("\"")), 0))
						}
						vs = append(vs, v)
					}
					v := vs[0]
					if p.kind == "uris" {
						v = f.list(p.c.T, vs)
					}
					what := fmt.Sprintf("validating %s with %d values", p.wire, k)
					if bad >= 0 {
						what += fmt.Sprintf(", value %d with %s in it", bad, q)
					}
					must(what, f.validate(p.c.val, p.c.T, v), bad < 0)
				}
			}
		}
	case "bool":
		f := p.r.flow()
		must("validating "+p.wire, f.validate(p.c.val, p.c.T, f.st.mk(p.c.T, "§b")), true)
	}
}
