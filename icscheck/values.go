package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values: times, numbers, addresses, binary data.

// valueRun follows the methods of one value type.
type valueRun struct {
	r      *Report
	c      *codec
	aenc   *ssa.Function
	report reporter
}

func (r *Report) value(n string, report reporter) *valueRun {
	c := r.codec(n)
	if c == nil {
		return nil
	}
	a := r.p.DeclMethod(c.T, "aencode")
	if !r.anchor(a != nil, "encoding of "+n+" with parameters") {
		return nil
	}
	return &valueRun{r, c, a, report}
}

func (r *Report) values(report reporter) {
	var jobs []func()
	add := func(n string, f func(v *valueRun)) {
		if v := r.value(n, report); v != nil {
			jobs = append(jobs, func() { f(v) })
		}
	}
	add("Date", (*valueRun).date)
	add("DateTime", (*valueRun).times)
	add("Time", (*valueRun).times)
	add("Period", (*valueRun).period)
	add("Boolean", (*valueRun).boolean)
	add("Integer", (*valueRun).integer)
	add("Float", (*valueRun).float)
	add("TFloat", (*valueRun).float)
	add("UTCOffset", (*valueRun).offset)
	add("Binary", (*valueRun).binary)
	add("URI", (*valueRun).uri)
	add("CalendarAddress", (*valueRun).uri)
	add("Text", (*valueRun).text)
	add("MText", (*valueRun).text)
	r.parallel(jobs)
}

func (v *valueRun) at(fn *ssa.Function) string { return v.r.p.pos(fn.Pos()) }

// writes compares what is written with the expected texts.
func (v *valueRun) writes(kind, what string, f *Flow, fn *ssa.Function, x Value, want ...string) {
	what = "encoding " + what
	outs := f.encode(fn, v.c.T, x)
	if len(outs) == 0 {
		v.report(kind, what, v.at(fn), what+" never ends")
	}
	for _, o := range outs {
		if !slices.Contains(want, o.text()) {
			v.report(kind, what, v.at(fn), fmt.Sprintf("%s writes %q instead of %q", what, o.text(), want[0]))
		}
	}
}

// reads compares what is decoded with the expected value; nil: has to fail.
func (v *valueRun) reads(kind, what string, f *Flow, params Value, q VSeq, want func(o Out) string, mayFail bool) {
	what = "decoding " + what
	outs := f.decode(v.c.dec, v.c.T, params, q)
	if len(outs) == 0 {
		v.report(kind, what, v.at(v.c.dec), what+" never ends")
	}
	done := false
	for _, o := range outs {
		n := o.st.nilness(o.v)
		if want == nil {
			if n != 2 {
				v.report(kind, what, v.at(v.c.dec), what+" can succeed")
			}
			continue
		}
		if n != 1 && !mayFail {
			v.report(kind, what, v.at(v.c.dec), what+" can fail")
		}
		if n == 2 {
			continue
		}
		done = true
		if bad := want(o); bad != "" {
			v.report(kind, what, v.at(v.c.dec), what+" "+bad)
		}
	}
	if want != nil && !done {
		v.report(kind, what, v.at(v.c.dec), what+" never succeeds")
	}
}

// valid checks whether a value is accepted.
func (v *valueRun) valid(kind, what string, f *Flow, x Value, ok bool) {
	what = "validating " + what
	outs := f.validate(v.c.val, v.c.T, x)
	if len(outs) == 0 {
		v.report(kind, what, v.at(v.c.val), what+" never ends")
	}
	for _, o := range outs {
		n := o.st.nilness(o.v)
		if ok && n != 1 {
			v.report(kind, what, v.at(v.c.val), what+" can fail")
		}
		if !ok && n != 2 {
			v.report(kind, what, v.at(v.c.val), what+" can succeed")
		}
	}
}

// safe checks that an accepted value cannot leave its place in the line.
func (v *valueRun) safe(what string, f *Flow, x Value) {
	what = "encoding " + what
	for _, o := range f.validate(v.c.val, v.c.T, x) {
		if o.st.nilness(o.v) == 2 {
			continue
		}
		g := &Flow{r: f.r, e: f.e, st: o.st, n: f.n, alias: f.alias, zone: f.zone}
		g.st.q = outGhost{}
		for _, o := range g.encode(v.aenc, v.c.T, x) {
			if bad := scanLine(o.st, o.written()); bad != "" {
				v.report("unsafe", what, v.at(v.aenc), fmt.Sprintf("%s writes %q: %s", what, o.text(), bad))
			}
		}
	}
}

// scanLine reads the part of a line after its name as far as the value. It
// reports data that can end its place, and characters that may not be there.
func scanLine(s *State, q VSeq) string {
	const (
		begin = iota
		pname
		pvalue
		quoted
		quotedEnd
		plain
		value
	)
	place := []string{"before the parameters", "in a parameter name", "at a parameter value", "in quotes", "after quotes", "in an unquoted parameter value", "in the value"}
	st := begin
	for _, p := range q.P {
		if p.ID != "" {
			cs := s.seqCs(VSeq{[]Part{p}})
			bad := csControl
			switch st {
			case pvalue, plain:
				bad = bad.or(csOf("\n\";:,"))
				st = plain
			case quoted:
				bad = bad.or(csOf("\n\""))
			case value:
				bad = bad.or(csOf("\n"))
			default:
				return "data " + place[st]
			}
			if x := cs.and(bad); !x.empty() {
				return fmt.Sprintf("%s may contain %s %s", p.ID, x, place[st])
			}
			continue
		}
		for _, r := range p.Lit {
			if csControl.has(int64(r)) || r == '\n' {
				return fmt.Sprintf("%q %s", r, place[st])
			}
			name := r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-'
			switch st {
			case begin, quotedEnd:
				switch {
				case r == ';':
					st = pname
				case r == ':':
					st = value
				case r == ',' && st == quotedEnd:
					st = pvalue
				default:
					return fmt.Sprintf("%q %s", r, place[st])
				}
			case pname:
				if r == '=' {
					st = pvalue
				} else if !name {
					return fmt.Sprintf("%q %s", r, place[st])
				}
			case pvalue, plain:
				switch r {
				case '"':
					if st == plain {
						return "quotes " + place[st]
					}
					st = quoted
				case ',':
					st = pvalue
				case ';':
					st = pname
				case ':':
					st = value
				default:
					st = plain
				}
			case quoted:
				if r == '"' {
					st = quotedEnd
				}
			}
		}
	}
	if st != value {
		return "it ends " + place[st]
	}
	return ""
}

// wrap is the value of type T around x.
func (v *valueRun) wrap(x Value) Value {
	if u, ok := v.c.T.Underlying().(*types.Struct); ok && u.NumFields() == 1 {
		return VStruct{v.c.T, []Value{x}}
	}
	return x
}

// is compares the decoded value.
func (v *valueRun) is(want Value) func(o Out) string {
	return func(o Out) string {
		got := o.result()
		if s, ok := got.(VStruct); ok && len(s.F) == 1 {
			got = s.F[0]
		}
		if g, w := vkey(got), vkey(want); g != w {
			if l, ok := got.(VLin); ok {
				if m, ok := want.(VLin); ok && o.st.provEQ(l.Lin, m.Lin) {
					return ""
				}
			}
			return fmt.Sprintf("gives %s instead of %s", g, w)
		}
		return ""
	}
}

// params is a list of parameters.
func (f *Flow) params(kv ...any) Value {
	m := VMap{}
	for i := 0; i < len(kv); i += 2 {
		m.Keys = append(m.Keys, MapCell{lit(kv[i].(string)), kv[i+1].(VSeq)})
	}
	f.st.heap["§params^"] = Obj{types.NewMap(types.Typ[types.String], types.Typ[types.String]), m}
	f.e.roots["§params^"] = true
	return VPtr{Obj: "§params^"}
}

// ---- dates and times

func (v *valueRun) zero() {
	v.valid("valid", v.c.name+" that is not set", v.r.flow(), zero(v.c.T), false)
}

func (v *valueRun) date() {
	v.zero()
	for _, z := range []string{"utc", "local", "zoned"} {
		f := v.r.flow()
		t := f.time(z)
		want := "‹tfmt(" + vkey(t) + ",20060102)›"
		v.writes("layout", v.c.name+" "+z, f, v.c.enc, v.wrap(t), want)
		f = v.r.flow()
		v.writes("zone", v.c.name+" "+z+" with parameters", f, v.aenc, v.wrap(f.time(z)), ":"+strings.ReplaceAll(want, "‹", "‹"))
		f = v.r.flow()
		f.zoneName(f.run(csRange('a', 'z'), 1))
		v.valid("valid", v.c.name+" "+z, f, v.wrap(f.time(z)), true)
	}
	f := v.r.flow()
	q := f.run(csText, 0)
	want := func(o Out) string {
		got := o.result()
		if s, ok := got.(VStruct); ok && len(s.F) == 1 {
			got = s.F[0]
		}
		for _, z := range []string{"UTC", "Local"} {
			if vkey(got) == "~"+ptimeID("20060102", q, z) {
				return ""
			}
		}
		return "gives " + vkey(got)
	}
	v.reads("layout", v.c.name, f, VNil{}, q, want, true)
}

// layout of a type's text without Z
func (v *valueRun) layout() string {
	if v.c.name == "Time" {
		return "150405"
	}
	return "20060102T150405"
}

func (v *valueRun) format(t Value) string {
	var sb strings.Builder
	for _, p := range layoutParts(v.layout()) {
		if p == "T" {
			sb.WriteString(p)
		} else {
			sb.WriteString("‹tfmt(" + vkey(t) + "," + p + ")›")
		}
	}
	return sb.String()
}

func (v *valueRun) times() {
	v.zero()
	for _, z := range []string{"utc", "local", "zoned"} {
		f := v.r.flow()
		name := f.run(csRange('a', 'z'), 1)
		f.zoneName(name)
		t := f.time(z)
		want := v.format(t)
		prefix := []string{":"}
		switch z {
		case "utc":
			want += "Z"
		case "zoned":
			prefix = []string{";TZID=" + render(name) + ":", ";TZID=\"" + render(name) + "\":"}
		}
		for i := range prefix {
			prefix[i] += want
		}
		v.writes("layout", v.c.name+" "+z, f, v.c.enc, v.wrap(t), want)
		mk := func() (*Flow, Value) {
			f := v.r.flow()
			f.zoneName(f.run(csRange('a', 'z'), 1))
			return f, f.time(z)
		}
		f, t = mk()
		v.writes("zone", v.c.name+" "+z+" with parameters", f, v.aenc, v.wrap(t), prefix...)
		f, t = mk()
		v.valid("valid", v.c.name+" "+z, f, v.wrap(t), true)
	}
	// names of zones
	f := v.r.flow()
	f.zoneName(VSeq{})
	v.valid("unsafe", v.c.name+" in a zone without name", f, v.wrap(f.time("zoned")), false)
	f = v.r.flow()
	f.zoneName(f.run(csAll, 1))
	v.safe(v.c.name+" in any zone", f, v.wrap(f.time("zoned")))

	// decoding
	lay := v.layout()
	T := v.r.p.timeType()
	f = v.r.flow()
	q, tz := f.run(csText, 0), f.run(csText, 0)
	v.reads("zone", v.c.name+" with TZID", f, f.params("TZID", tz), q, v.is(VUnk{"ptime(" + lit(lay).key() + "," + q.key() + ",~loadloc(" + tz.key() + "))", T}), true)
	f = v.r.flow()
	q = f.run(csText, 0)
	v.reads("zone", v.c.name+" with Z", f, f.params(), q.concat(lit("Z")), v.is(VUnk{ptimeID(lay, q, "UTC"), T}), true)
	f = v.r.flow()
	q = f.run(csText, 0).concat(f.char(csRange(0x20, 0x7e).minus(csOf("Z"))))
	v.reads("zone", v.c.name+" without Z", f, f.params(), q, v.is(VUnk{ptimeID(lay, q, "Local"), T}), true)
}

// ---- simple values

func (v *valueRun) boolean() {
	for _, b := range []bool{true, false} {
		w := strings.ToUpper(fmt.Sprint(b))
		v.writes("value", v.c.name, v.r.flow(), v.c.enc, VBool(b), w)
		v.writes("value", v.c.name+" with parameters", v.r.flow(), v.aenc, VBool(b), ":"+w)
		v.reads("value", w, v.r.flow(), VNil{}, lit(w), v.is(VBool(b)), false)
		v.valid("valid", v.c.name, v.r.flow(), VBool(b), true)
	}
	for _, w := range []string{"", "X", "TRUEX", "2"} {
		v.reads("malformed", fmt.Sprintf("%s %q", v.c.name, w), v.r.flow(), VNil{}, lit(w), nil, false)
	}
}

func (v *valueRun) integer() {
	for _, s := range []span{{-1 << 31, -1}, {0, 1<<31 - 1}, {-1 << 31, -1 << 31}, {1<<31 - 1, 1<<31 - 1}} {
		what := fmt.Sprintf("%s in %s", v.c.name, s)
		f := v.r.flow()
		n := f.num(s)
		v.writes("number", what, f, v.c.enc, VLin{n}, render(f.e.itoa(f.st, n)))
		f = v.r.flow()
		n = f.num(s)
		v.writes("number", what+" with parameters", f, v.aenc, VLin{n}, ":"+render(f.e.itoa(f.st, n)))
		f = v.r.flow()
		n = f.num(s)
		v.reads("number", what, f, VNil{}, f.e.itoa(f.st, n), v.is(VLin{n}), false)
		f = v.r.flow()
		v.valid("valid", what, f, VLin{f.num(s)}, true)
	}
	for _, s := range []span{{-many, -1<<31 - 1}, {1 << 31, many}} {
		f := v.r.flow()
		v.reads("number", fmt.Sprintf("%s in %s", v.c.name, s), f, VNil{}, f.e.itoa(f.st, f.num(s)), nil, false)
	}
	for _, w := range []string{"", "X", "1X", "-", "1 "} {
		v.reads("malformed", fmt.Sprintf("%s %q", v.c.name, w), v.r.flow(), VNil{}, lit(w), nil, false)
	}
}

func (v *valueRun) float() {
	pair := v.c.name == "TFloat"
	mk := func(f *Flow) (Value, []string) {
		F := types.Typ[types.Float64]
		if !pair {
			x := f.st.mk(v.c.T, "§f0")
			return x, []string{vkey(x)}
		}
		a, b := f.st.mk(F, "§f0"), f.st.mk(F, "§f1")
		return VArr{N: linConst(2), Def: VOpaque{"0.0"}, Cells: []Cell{{linConst(0), a}, {linConst(1), b}}}, []string{vkey(a), vkey(b)}
	}
	ftoa := func(k string) string { return "‹ftoa(" + k + "," + fmt.Sprint('f') + ",-1,64)›" }
	f := v.r.flow()
	x, ks := mk(f)
	var ts []string
	for _, k := range ks {
		ts = append(ts, ftoa(k))
	}
	v.writes("number", v.c.name, f, v.c.enc, x, strings.Join(ts, ";"))
	f = v.r.flow()
	x, _ = mk(f)
	v.writes("number", v.c.name+" with parameters", f, v.aenc, x, ":"+strings.Join(ts, ";"))
	// which numbers can be written
	type class struct {
		name          string
		nan, pos, neg bool
	}
	for _, c := range []class{{"a number", false, false, false}, {"not a number", true, false, false}, {"infinity", false, true, false}, {"negative infinity", false, false, true}} {
		for i := range ks {
			f := v.r.flow()
			x, ks := mk(f)
			for j, k := range ks {
				d := c
				if j != i {
					d = class{}
				}
				for id, b := range map[string]bool{"isnan(" + k + ")": d.nan, "isinf(" + k + ")": d.pos || d.neg, "isinf(" + k + ",1)": d.pos, "isinf(" + k + ",-1)": d.neg} {
					f.st.setFact(id, Fact{B: map[bool]int8{false: 1, true: 2}[b]})
					f.keepFact(id)
				}
			}
			v.valid("float", fmt.Sprintf("%s, number %d being %s", v.c.name, i+1, c.name), f, x, !c.nan && !c.pos && !c.neg)
		}
	}
	f = v.r.flow()
	var q VSeq
	var want []string
	digits := csOf("0123456789.-")
	for i := range ks {
		if i > 0 {
			q = q.concat(lit(";"))
		}
		t := f.run(digits, 0)
		q = q.concat(t)
		want = append(want, "parsefloat("+t.key()+",64)")
	}
	v.reads("number", v.c.name, f, VNil{}, q, func(o Out) string {
		got := []Value{o.result()}
		if pair {
			a, ok := got[0].(VArr)
			if !ok {
				return "gives " + vkey(got[0])
			}
			got = []Value{o.st.arrGet(a, linConst(0)), o.st.arrGet(a, linConst(1))}
		}
		for i, g := range got {
			if !strings.Contains(vkey(g), want[i]) {
				return fmt.Sprintf("gives %s instead of %s", vkey(g), want[i])
			}
		}
		return ""
	}, true)
	if pair {
		f = v.r.flow()
		v.reads("malformed", v.c.name+" with one number", f, VNil{}, f.run(digits, 0), nil, false)
	}
}

// offset: hours, minutes and seconds.
func (v *valueRun) offset() {
	type part struct{ h1, h2, m1, m2, s1, s2 [2]byte }
	d := func(a, b byte) [2]byte { return [2]byte{a, b} }
	z, all, six := d('0', '0'), d('0', '9'), d('0', '5')
	parts := []part{
		{d('1', '9'), all, six, all, z, z}, {z, d('1', '9'), six, all, z, z}, {z, z, d('1', '5'), all, z, z}, {z, z, z, d('1', '9'), z, z},
		{all, all, six, all, d('1', '5'), all}, {all, all, six, all, z, d('1', '9')},
	}
	build := func(f *Flow, p part) (VSeq, Lin) {
		var ds [6]VSeq
		var ls [6]Lin
		for i, x := range [][2]byte{p.h1, p.h2, p.m1, p.m2, p.s1, p.s2} {
			ds[i] = f.digit(x[0], x[1])
			ls[i], _ = f.e.decimal(f.st, ds[i], false)
			f.keep(VLin{ls[i]})
		}
		n := ls[0].scale(36000).addK(ls[1], 3600).addK(ls[2], 600).addK(ls[3], 60).addK(ls[4], 10).add(ls[5])
		var q VSeq
		for i := 0; i < 4; i++ {
			q = q.concat(ds[i])
		}
		if p.s1 != z || p.s2 != z {
			q = q.concat(ds[4]).concat(ds[5])
		}
		return q, n
	}
	for _, p := range parts {
		for _, sign := range []string{"", "+", "-"} {
			f := v.r.flow()
			q, n := build(f, p)
			if sign == "-" {
				n = n.neg()
			}
			what := fmt.Sprintf("%s %s%c-%c%c-%c%c-%c%c-%c%c-%c%c-%c", v.c.name, sign, p.h1[0], p.h1[1], p.h2[0], p.h2[1], p.m1[0], p.m1[1], p.m2[0], p.m2[1], p.s1[0], p.s1[1], p.s2[0], p.s2[1])
			v.reads("number", what, f, VNil{}, lit(sign).concat(q), v.is(VLin{n}), false)
			if sign == "+" {
				continue
			}
			f = v.r.flow()
			q, n = build(f, p)
			want := []string{sign + render(q)}
			if sign == "" {
				want = append(want, "+"+render(q))
			} else {
				n = n.neg()
			}
			v.writes("number", what, f, v.c.enc, VLin{n}, want...)
			f = v.r.flow()
			_, n = build(f, p)
			if sign == "-" {
				n = n.neg()
			}
			v.valid("valid", what, f, VLin{n}, true)
		}
	}
	for _, sign := range []string{"", "-"} {
		bad := d('6', '9')
		for _, p := range []part{{all, all, bad, all, z, z}, {all, all, bad, all, six, d('1', '9')}, {all, all, six, all, bad, all}} {
			f := v.r.flow()
			q, _ := build(f, p)
			v.reads("malformed", fmt.Sprintf("%s %s, minutes or seconds beyond 59", v.c.name, render(lit(sign).concat(q))), f, VNil{}, lit(sign).concat(q), nil, false)
		}
	}
	for _, w := range []string{"0000", "+0000", "000000"} {
		v.reads("number", v.c.name+" "+w, v.r.flow(), VNil{}, lit(w), v.is(VLin{}), false)
	}
	v.writes("number", v.c.name+" 0", v.r.flow(), v.c.enc, VLin{}, "0000", "+0000")
	v.writes("number", v.c.name+" 0 with parameters", v.r.flow(), v.aenc, VLin{}, ":0000", ":+0000")
	for _, w := range []string{"", "+", "-", "1", "12", "123", "12345", "1234567", "12X4", "X234", "1234X", "--1234", "+-1234", "-0000", "-000000", "12:34", "1234567 "} {
		v.reads("malformed", fmt.Sprintf("%s %q", v.c.name, w), v.r.flow(), VNil{}, lit(w), nil, false)
	}
	for _, s := range []span{{-359999, 359999}, {-many, -360000}, {360000, many}} {
		f := v.r.flow()
		v.valid("number", fmt.Sprintf("%s of %s seconds", v.c.name, s), f, VLin{f.num(s)}, s.lo == -359999)
	}
}

func (v *valueRun) binary() {
	const enc = "~G:encoding/base64.StdEncoding"
	mk := func() (*Flow, Value, string) {
		f := v.r.flow()
		x := f.st.mk(v.c.T, "§b")
		return f, x, "‹b64(" + enc + "," + f.st.norm(f.st.seqOf(x)).key() + ")›"
	}
	f, x, want := mk()
	v.writes("number", v.c.name, f, v.c.enc, x, want)
	f, x, want = mk()
	v.writes("number", v.c.name+" with parameters", f, v.aenc, x, ";ENCODING=BASE64:"+want)
	f, x, _ = mk()
	v.valid("valid", v.c.name, f, x, true)
	for _, e := range []string{"BASE64", "base64", "Base64"} {
		f := v.r.flow()
		q := f.run(csBase64, 0)
		kind := "number"
		if e != "BASE64" {
			kind = "case"
		}
		v.reads(kind, v.c.name+" with ENCODING="+e, f, f.params("ENCODING", lit(e)), q, func(o Out) string {
			if got := vkey(o.result()); !strings.Contains(got, "b64dec("+enc+","+q.key()+")") {
				return "gives " + got
			}
			return ""
		}, true)
	}
	f = v.r.flow()
	v.reads("malformed", v.c.name+" without ENCODING", f, f.params(), f.run(csBase64, 0), nil, false)
	for _, e := range []string{"8BIT", "", "X", "BASE6", "BASE64X"} {
		f := v.r.flow()
		v.reads("malformed", v.c.name+" with ENCODING="+e, f, f.params("ENCODING", lit(e)), f.run(csBase64, 0), nil, false)
	}
}

func (v *valueRun) uri() {
	mk := func(f *Flow, q *VSeq) (Value, string) {
		x := f.st.mk(v.c.T, "§u")
		id := urlText(v.c.T, "§u")
		if q != nil {
			f.assumeURL(id, *q)
			return x, render(*q)
		}
		return x, "‹" + id + "›"
	}
	f := v.r.flow()
	q := f.run(csText.minus(csOf("\n")), 1)
	x, want := mk(f, &q)
	v.writes("value", v.c.name, f, v.c.enc, x, want)
	f = v.r.flow()
	q = f.run(csText.minus(csOf("\n")), 1)
	x, want = mk(f, &q)
	v.writes("value", v.c.name+" with parameters", f, v.aenc, x, ":"+want)
	f = v.r.flow()
	q = f.run(csText.minus(csOf("\n")), 1)
	x, _ = mk(f, &q)
	v.valid("valid", v.c.name, f, x, true)
	f = v.r.flow()
	q = f.run(csAll, 1)
	x, _ = mk(f, &q)
	v.safe(v.c.name+" of any text", f, x)
	f = v.r.flow()
	q = f.run(csText, 0)
	v.reads("value", v.c.name, f, VNil{}, q, func(o Out) string {
		if got := vkey(o.result()); !strings.Contains(got, "url("+q.key()+")") {
			return "gives " + got
		}
		return ""
	}, true)
}

func (v *valueRun) text() {
	list := v.c.name == "MText"
	mk := func(f *Flow, q VSeq, n, i int) Value {
		if !list {
			return q
		}
		var vs []Value
		for j := 0; j < n; j++ {
			if j == i {
				vs = append(vs, q)
			} else {
				vs = append(vs, f.run(csText, 0))
			}
		}
		return f.list(v.c.T, vs)
	}
	places := [][2]int{{1, 0}}
	if list {
		places = [][2]int{{1, 0}, {3, 0}, {3, 1}, {3, 2}}
	}
	for _, p := range places {
		what := fmt.Sprintf("%s (%d of %d)", v.c.name, p[1]+1, p[0])
		f := v.r.flow()
		v.valid("valid", what, f, mk(f, f.run(csText, 0), p[0], p[1]), true)
		for i := int64(0); i < 128; i++ {
			if !csControl.has(i) || i == '\n' {
				continue
			}
			f := v.r.flow()
			q := f.run(csText, 0).concat(lit(string(rune(i)))).concat(f.run(csText, 0))
			v.valid("unsafe", fmt.Sprintf("%s with control character %d", what, i), f, mk(f, q, p[0], p[1]), false)
		}
	}
	f := v.r.flow()
	v.writes("text", v.c.name+" with parameters", f, v.aenc, mk(f, lit("a;b"), 1, 0), ":a\\;b")
}

// period: a start and either an end or a duration.
func (v *valueRun) period() {
	st, _ := v.c.T.Underlying().(*types.Struct)
	idx := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		idx[st.Field(i).Name()] = i
	}
	for _, n := range []string{"Start", "End", "Duration"} {
		if _, ok := idx[n]; !v.r.anchor(ok, "field "+n+" of "+v.c.name) {
			return
		}
	}
	DT := st.Field(idx["Start"]).Type()
	dt := func(t Value) Value { return VStruct{DT, []Value{t}} }
	mk := func(start, end, dur Value) Value {
		x := zero(v.c.T).(VStruct)
		x.F[idx["Start"]] = dt(start)
		if end != nil {
			x.F[idx["End"]] = dt(end)
		}
		if dur != nil {
			x.F[idx["Duration"]] = dur
		}
		return x
	}
	DU := st.Field(idx["Duration"]).Type()
	dur := func(neg bool, unit string, n Lin) Value {
		x := zero(DU).(VStruct)
		u := DU.Underlying().(*types.Struct)
		for i := range x.F {
			switch u.Field(i).Name() {
			case unit:
				x.F[i] = VLin{n}
			case "Negative":
				x.F[i] = VBool(neg)
			}
		}
		return x
	}
	format := func(z string, t Value) string {
		s := "‹tfmt(" + vkey(t) + ",20060102)›T‹tfmt(" + vkey(t) + ",150405)›"
		if z == "utc" {
			s += "Z"
		}
		return s
	}
	none := VUnk{"zero:" + typeKey(v.r.p.timeType()), v.r.p.timeType()}
	for _, z := range []string{"utc", "local", "zoned"} {
		for _, a := range []bool{false, true} {
			fn := v.c.enc
			what := v.c.name + " " + z
			prefix := ""
			if a {
				fn = v.aenc
				what += " with parameters"
				prefix = ":"
			}
			begin := func() (*Flow, Value, string) {
				f := v.r.flow()
				name := f.run(csRange('a', 'z'), 1)
				f.zoneName(name)
				p := prefix
				if z == "zoned" && a {
					p = ";TZID=" + render(name) + ":"
				}
				t := f.time(z)
				return f, t, p + format(z, t) + "/"
			}
			f, s, p := begin()
			e := f.time(z)
			v.writes("period", what+" with end", f, fn, mk(s, e, nil), p+format(z, e))
			f, s, p = begin()
			v.writes("period", what+" with duration", f, fn, mk(s, none, dur(false, "Days", linConst(5))), p+"P5D")
		}
		begin := func(after bool) (*Flow, Value, Value) {
			f := v.r.flow()
			f.zoneName(f.run(csRange('a', 'z'), 1))
			s, e := f.time(z), f.time(z)
			for id, b := range map[string]bool{"after(" + vkey(e) + "," + vkey(s) + ")": after, "after(" + vkey(s) + "," + vkey(e) + ")": false} {
				f.st.setFact(id, Fact{B: map[bool]int8{false: 1, true: 2}[b]})
				f.keepFact(id)
			}
			return f, s, e
		}
		f, s, e := begin(true)
		v.valid("valid", v.c.name+" "+z, f, mk(s, e, nil), true)
		f, s, e = begin(false)
		v.valid("valid", v.c.name+" "+z+" whose end is not after its start", f, mk(s, e, nil), false)
		f, s, _ = begin(true)
		v.valid("valid", v.c.name+" "+z+" with duration", f, mk(s, none, dur(false, "Days", linConst(1))), true)
		f, s, _ = begin(true)
		v.valid("valid", v.c.name+" "+z+" with negative duration", f, mk(s, none, dur(true, "Days", linConst(1))), false)
		f, s, _ = begin(true)
		d := dur(false, "Days", linConst(1)).(VStruct)
		for i := range d.F {
			if DU.Underlying().(*types.Struct).Field(i).Name() == "Weeks" {
				d.F[i] = VLin{linConst(1)}
			}
		}
		v.valid("valid", v.c.name+" "+z+" with invalid duration", f, mk(s, none, d), false)
		f, _, e = begin(true)
		v.valid("valid", v.c.name+" "+z+" without start", f, mk(none, e, nil), false)
		// an end in another zone cannot be written
		if z != "zoned" {
			for _, swap := range []bool{false, true} {
				f := v.r.flow()
				f.zoneName(f.run(csRange('a', 'z'), 1))
				s, e := f.time(z), f.time("zoned")
				if swap {
					s, e = e, s
				}
				id := "after(" + vkey(e) + "," + vkey(s) + ")"
				f.st.setFact(id, Fact{B: 2})
				f.keepFact(id)
				v.valid("zone", v.c.name+" between "+z+" and another zone", f, mk(s, e, nil), false)
			}
		}
	}
	f := v.r.flow()
	f.zoneName(f.run(csAll, 1))
	v.safe(v.c.name+" in any zone", f, mk(f.time("zoned"), f.time("zoned"), nil))

	// decoding
	digits := func(f *Flow) VSeq { return f.run(csDigit, 8).concat(lit("T")).concat(f.run(csDigit, 6)) }
	for _, z := range []string{"UTC", "Local", "TZID"} {
		for _, end := range []string{"end", "duration", "+duration"} {
			f := v.r.flow()
			q, r := digits(f), digits(f)
			tz := f.run(csText, 1)
			id := func(q VSeq) string { return "~" + ptimeID("20060102T150405", q, z) }
			params := f.params()
			text := q
			switch z {
			case "UTC":
				text = text.concat(lit("Z"))
			case "TZID":
				id = func(q VSeq) string {
					return "~ptime(" + lit("20060102T150405").key() + "," + q.key() + ",~loadloc(" + tz.key() + "))"
				}
				params = f.params("TZID", tz)
			}
			wantEnd, wantDur := vkey(none), vkey(zero(DU))
			text = text.concat(lit("/"))
			switch {
			case end != "end":
				if end[0] == '+' {
					text = text.concat(lit("+"))
				}
				n := f.digit('1', '9')
				l, _ := f.e.decimal(f.st, n, false)
				text = text.concat(lit("P")).concat(n).concat(lit("D"))
				wantDur = vkey(dur(false, "Days", l))
			case z == "UTC":
				text = text.concat(r).concat(lit("Z"))
				wantEnd = id(r)
			default:
				text = text.concat(r)
				wantEnd = id(r)
			}
			v.reads("period", v.c.name+" "+z+" with "+end, f, params, text, func(o Out) string {
				got, ok := o.result().(VStruct)
				if !ok {
					return "gives " + vkey(o.result())
				}
				for n, w := range map[string]string{"Start": "{" + id(q) + "}", "End": "{" + wantEnd + "}", "Duration": wantDur} {
					if g := vkey(got.F[idx[n]]); g != w {
						return fmt.Sprintf("gives %s for %s instead of %s", g, n, w)
					}
				}
				return ""
			}, true)
		}
	}
	f = v.r.flow()
	v.reads("malformed", v.c.name+" without a slash", f, f.params(), f.run(csText.minus(csOf("/")), 0), nil, false)
	f = v.r.flow()
	v.reads("malformed", v.c.name+" without an end", f, f.params(), f.run(csText.minus(csOf("/")), 0).concat(lit("/")), nil, false)
}
