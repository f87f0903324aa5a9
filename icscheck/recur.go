package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Recurrence rules: every part in both directions.

var frequencies = map[string]string{"Secondly": "SECONDLY", "Minutely": "MINUTELY", "Hourly": "HOURLY", "Daily": "DAILY", "Weekly": "WEEKLY", "Monthly": "MONTHLY", "Yearly": "YEARLY"}

var weekdays = map[string]string{"Sunday": "SU", "Monday": "MO", "Tuesday": "TU", "Wednesday": "WE", "Thursday": "TH", "Friday": "FR", "Saturday": "SA"}

var months = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}

// span is a range of numbers.
type span struct{ lo, hi int64 }

func (s span) String() string {
	if s.lo == s.hi {
		return fmt.Sprint(s.lo)
	}
	return fmt.Sprintf("%d..%d", s.lo, s.hi)
}

const many = 1_000_000_000_000

// recurLists are the numeric lists of a rule with the numbers allowed in them.
var recurLists = []struct {
	field, wire string
	ok          []span
}{
	{"BySecond", "BYSECOND", []span{{0, 60}}},
	{"ByMinute", "BYMINUTE", []span{{0, 59}}},
	{"ByHour", "BYHOUR", []span{{0, 23}}},
	{"ByMonthDay", "BYMONTHDAY", []span{{-31, -1}, {1, 31}}},
	{"ByYearDay", "BYYEARDAY", []span{{-366, -1}, {1, 366}}},
	{"ByWeekNum", "BYWEEKNO", []span{{-53, -1}, {1, 53}}},
	{"ByMonth", "BYMONTH", []span{{1, 12}}},
	{"BySetPos", "BYSETPOS", []span{{-366, -1}, {1, 366}}},
}

// complement are the other numbers within limits.
func complement(ok []span, lo, hi int64) []span {
	var r []span
	for _, s := range ok {
		if lo < s.lo {
			r = append(r, span{lo, s.lo - 1})
		}
		lo = s.hi + 1
	}
	if lo <= hi {
		r = append(r, span{lo, hi})
	}
	return r
}

// num is an arbitrary number of a range.
func (f *Flow) num(s span) Lin {
	if s.lo == s.hi {
		return linConst(s.lo)
	}
	f.n++
	id := fmt.Sprintf("§n%d", f.n)
	z := f.st.z()
	i := z.sym(id)
	z.le(0, i, -s.lo)
	z.le(i, 0, s.hi)
	f.st.setDeps(id, []string{id})
	f.keep(VLin{linSym(id)})
	return linSym(id)
}

// digit is an arbitrary digit.
func (f *Flow) digit(lo, hi byte) VSeq {
	if lo == hi {
		return lit(string(rune(lo)))
	}
	return f.char(csRange(int64(lo), int64(hi)))
}

type recurRun struct {
	r      *Report
	c      *codec
	st     *types.Struct
	report reporter
}

func (r *Report) recur(report reporter) {
	c := r.codec("Recur")
	if c == nil {
		return
	}
	u, ok := c.T.Underlying().(*types.Struct)
	if !r.anchor(ok, "structure of recurrence rules") {
		return
	}
	k := &recurRun{r, c, u, report}
	for _, n := range []string{"Frequency", "WeekStart", "UntilTime", "Until", "Count", "Interval", "ByDay"} {
		r.anchor(k.field(n) >= 0, "field "+n+" of recurrence rules")
	}
	for i, n := range months {
		if v := k.constant(n).(VLin); v.key() != fmt.Sprint(i+1) {
			report("keyword", "month "+n, r.p.pos(c.enc.Pos()), fmt.Sprintf("month %s is written as %s", n, v.key()))
		}
	}
	jobs := []func(){k.frequency, k.until, k.weekStart, k.byDay, k.together}
	for i := range recurLists {
		jobs = append(jobs, func() { k.list(i) })
	}
	r.parallel(jobs)
}

func (k *recurRun) field(n string) int {
	for i := 0; i < k.st.NumFields(); i++ {
		if k.st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

func (k *recurRun) constant(n string) Value {
	if c, ok := k.r.p.Types.Scope().Lookup(n).(*types.Const); ok {
		if v, ok := constant.Int64Val(c.Val()); ok {
			return VLin{linConst(v)}
		}
	}
	k.r.anchor(false, "constant "+n)
	return VLin{}
}

// rule is a rule with some fields set.
func (k *recurRun) rule(set map[string]Value) Value {
	v := zero(k.c.T).(VStruct)
	for n, x := range set {
		if i := k.field(n); i >= 0 {
			v.F[i] = x
		}
	}
	return v
}

// decoded checks the outcome of decoding a rule.
func (k *recurRun) decoded(kind, what string, f *Flow, text VSeq, want map[string]Value, mayFail bool) {
	pos := k.r.p.pos(k.c.dec.Pos())
	what = "decoding " + what
	outs := f.decode(k.c.dec, k.c.T, VNil{}, text)
	if len(outs) == 0 {
		k.report(kind, what, pos, what+" never ends")
	}
	done := false
	for _, o := range outs {
		n := o.st.nilness(o.v)
		if want == nil {
			if n != 2 {
				k.report(kind, what, pos, what+" can succeed")
			}
			continue
		}
		if n != 1 {
			if !mayFail {
				k.report(kind, what, pos, what+" can fail")
			}
			if n == 2 {
				continue
			}
		}
		done = true
		got, _ := o.result().(VStruct)
		if got.F == nil {
			k.report(kind, what, pos, what+" gives no rule")
			continue
		}
		for i := range got.F {
			n := k.st.Field(i).Name()
			w, g := "unset", k.show(f, o, got.F[i])
			if v, ok := want[n]; ok {
				w = k.show(f, o, v)
			}
			if w != g {
				k.report(kind, what+", "+n, pos, fmt.Sprintf("%s gives %s for %s instead of %s", what, g, n, w))
			}
		}
	}
	if want != nil && !done {
		k.report(kind, what, pos, what+" never succeeds")
	}
}

// show describes the value of a field.
func (k *recurRun) show(f *Flow, o Out, v Value) string {
	switch x := v.(type) {
	case VSlice:
		es, ok := f.elems(o, x)
		if !ok {
			return vkey(v)
		}
		var r []string
		for _, e := range es {
			r = append(r, k.show(f, o, e))
		}
		if len(r) == 0 {
			return "unset"
		}
		return "[" + strings.Join(r, " ") + "]"
	case VStruct:
		var r []string
		for _, e := range x.F {
			r = append(r, k.show(f, o, e))
		}
		return "{" + strings.Join(r, " ") + "}"
	case VLin:
		if lo := o.st.zone.lb(x.Lin); lo == o.st.zone.ub(x.Lin) && lo > -inf {
			x.Lin = linConst(lo)
		}
		return x.key()
	case VBool, VCmp, VEq, VAtom, VPred:
		if t, ok := o.st.decide(v); ok {
			return fmt.Sprint(t)
		}
	case VNil:
		return "unset"
	case VUnk:
		if strings.HasPrefix(x.ID, "zero:") {
			return "unset"
		}
	}
	return vkey(v)
}

// unsetZero makes the zero values of fields look unset.
func (k *recurRun) norm(want map[string]Value) map[string]Value {
	r := map[string]Value{}
	for i := 0; i < k.st.NumFields(); i++ {
		n := k.st.Field(i).Name()
		r[n] = zero(k.st.Field(i).Type())
		if v, ok := want[n]; ok {
			r[n] = v
		}
	}
	return r
}

// written checks what encoding a rule gives: these parts in any order.
func (k *recurRun) written(kind, what string, f *Flow, v Value, parts ...string) {
	pos := k.r.p.pos(k.c.enc.Pos())
	what = "encoding " + what
	outs := f.encode(k.c.enc, k.c.T, v)
	if len(outs) == 0 {
		k.report(kind, what, pos, what+" never ends")
	}
	sort.Strings(parts)
	want := strings.Join(parts, ";")
	for _, o := range outs {
		got := strings.Split(o.text(), ";")
		sort.Strings(got)
		if g := strings.Join(got, ";"); g != want {
			k.report(kind, what, pos, fmt.Sprintf("%s writes %q instead of %q", what, o.text(), want))
		}
	}
}

// valid checks whether a rule is accepted.
func (k *recurRun) valid(kind, what string, f *Flow, v Value, ok bool) {
	pos := k.r.p.pos(k.c.val.Pos())
	what = "validating " + what
	outs := f.validate(k.c.val, k.c.T, v)
	if len(outs) == 0 {
		k.report(kind, what, pos, what+" never ends")
	}
	for _, o := range outs {
		n := o.st.nilness(o.v)
		if ok && n != 1 {
			k.report(kind, what, pos, what+" can fail")
		}
		if !ok && n != 2 {
			k.report(kind, what, pos, what+" can succeed")
		}
	}
}

func (k *recurRun) daily() Value { return k.constant("Daily") }

func (k *recurRun) frequency() {
	if T := k.r.p.namedType("Frequency"); T != nil {
		for _, c := range k.r.constsOf(T) {
			if _, ok := frequencies[c.name]; !ok {
				k.report("keyword", "frequency "+c.name, k.r.p.pos(k.c.enc.Pos()), "frequency "+c.name+" has no keyword")
			}
		}
	}
	top := int64(0)
	for _, n := range sortedKeys(frequencies) {
		w := frequencies[n]
		v := k.constant(n)
		top = max(top, v.(VLin).C)
		k.decoded("keyword", "FREQ="+w, k.r.flow(), lit("FREQ="+w), k.norm(map[string]Value{"Frequency": v}), false)
		k.written("keyword", "frequency "+n, k.r.flow(), k.rule(map[string]Value{"Frequency": v}), "FREQ="+w)
		k.valid("valid", "frequency "+n, k.r.flow(), k.rule(map[string]Value{"Frequency": v}), true)
	}
	f := k.r.flow()
	k.decoded("keyword", "an unknown FREQ", f, lit("FREQ=X").concat(f.run(csRange('A', 'Z'), 0)), nil, false)
	f = k.r.flow()
	k.valid("valid", "a frequency that is no constant", f, k.rule(map[string]Value{"Frequency": VLin{f.num(span{top + 1, 255})}}), false)
	// required
	for _, t := range []string{"INTERVAL=2", "COUNT=2", "UNTIL=20200101", "BYDAY=MO", "WKST=MO", "BYMONTH=1"} {
		k.decoded("freq", t+" without FREQ", k.r.flow(), lit(t), nil, false)
	}
}

// form is a way to write a list element at some place.
func (k *recurRun) list(i int) {
	l := recurLists[i]
	fi := k.field(l.field)
	if !k.r.anchor(fi >= 0, "field "+l.field+" of recurrence rules") {
		return
	}
	T := k.st.Field(fi).Type()
	lo, hi, _ := intRange(T.Underlying().(*types.Slice).Elem())
	ok := func(s span) bool {
		for _, o := range l.ok {
			if s == o {
				return true
			}
		}
		return false
	}
	// one number, or three of which one is looked at
	places := [][2]int{{1, 0}, {3, 0}, {3, 1}, {3, 2}}
	for _, s := range append(append([]span(nil), l.ok...), complement(l.ok, -many, many)...) {
		for _, p := range places {
			for _, first := range []bool{false, true} {
				f := k.r.flow()
				var t VSeq
				var vs []Value
				for j := 0; j < p[0]; j++ {
					n := s
					if j != p[1] {
						n = l.ok[0]
					}
					v := f.num(n)
					vs = append(vs, VLin{v})
					if j > 0 {
						t = t.concat(lit(","))
					}
					t = t.concat(f.e.itoa(f.st, v))
				}
				t = lit(l.wire + "=").concat(t)
				if first {
					t = t.concat(lit(";FREQ=DAILY"))
				} else {
					t = lit("FREQ=DAILY;").concat(t)
				}
				var want map[string]Value
				if ok(s) {
					want = k.norm(map[string]Value{"Frequency": k.daily(), l.field: f.list(T, vs)})
				}
				k.decoded("number", fmt.Sprintf("%s with %s (%d of %d)", l.wire, s, p[1]+1, p[0]), f, t, want, false)
			}
		}
	}
	for _, bad := range []string{"", ",1", "1,", "1;", "+", "-", "1A", "A"} {
		k.decoded("number", fmt.Sprintf("%s=%s", l.wire, bad), k.r.flow(), lit("FREQ=DAILY;"+l.wire+"="+bad), nil, false)
	}
	for _, s := range append(append([]span(nil), l.ok...), complement(l.ok, lo, hi)...) {
		for _, p := range places {
			f := k.r.flow()
			var vs []Value
			var ts []string
			for j := 0; j < p[0]; j++ {
				n := s
				if j != p[1] {
					n = l.ok[0]
				}
				v := f.num(n)
				vs = append(vs, VLin{v})
				ts = append(ts, render(f.e.itoa(f.st, v)))
			}
			v := k.rule(map[string]Value{"Frequency": k.daily(), l.field: f.list(T, vs)})
			k.valid("number", fmt.Sprintf("%s with %s (%d of %d)", l.field, s, p[1]+1, p[0]), f, v, ok(s))
			if ok(s) {
				f := k.r.flow()
				vs = nil
				ts = nil
				for j := 0; j < p[0]; j++ {
					v := f.num(s)
					vs = append(vs, VLin{v})
					ts = append(ts, render(f.e.itoa(f.st, v)))
				}
				v := k.rule(map[string]Value{"Frequency": k.daily(), l.field: f.list(T, vs)})
				k.written("number", fmt.Sprintf("%d numbers %s of %s", p[0], s, l.field), f, v, "FREQ=DAILY", l.wire+"="+strings.Join(ts, ","))
			}
		}
	}
}

func (k *recurRun) weekStart() {
	top := int64(0)
	for _, n := range sortedKeys(weekdays) {
		w := weekdays[n]
		v := k.constant(n)
		top = max(top, v.(VLin).C)
		k.decoded("keyword", "WKST="+w, k.r.flow(), lit("FREQ=DAILY;WKST="+w), k.norm(map[string]Value{"Frequency": k.daily(), "WeekStart": v}), false)
		set := map[string]Value{"Frequency": k.daily(), "WeekStart": v}
		k.written("keyword", "week start "+n, k.r.flow(), k.rule(set), "FREQ=DAILY", "WKST="+w)
		k.valid("valid", "week start "+n, k.r.flow(), k.rule(set), true)
	}
	f := k.r.flow()
	k.decoded("keyword", "an unknown WKST", f, lit("FREQ=DAILY;WKST=X").concat(f.run(csRange('A', 'Z'), 0)), nil, false)
	f = k.r.flow()
	k.valid("valid", "a week start that is no constant", f, k.rule(map[string]Value{"Frequency": k.daily(), "WeekStart": VLin{f.num(span{top + 1, 255})}}), false)
	if u, ok := k.constant("UnknownDay").(VLin); ok {
		k.valid("valid", "no week start", k.r.flow(), k.rule(map[string]Value{"Frequency": k.daily(), "WeekStart": u}), true)
	}
}

// ordinals are the ways to write a number before a weekday.
type ordinal struct {
	name string
	mk   func(f *Flow) (VSeq, Lin)
	ok   bool
}

func ordinals() []ordinal {
	one := func(lo, hi byte, ok bool) ordinal {
		return ordinal{fmt.Sprintf("[%c-%c]", lo, hi), func(f *Flow) (VSeq, Lin) {
			q := f.digit(lo, hi)
			l, _ := f.e.decimal(f.st, q, false)
			return q, l
		}, ok}
	}
	two := func(lo1, hi1, lo2, hi2 byte, ok bool) ordinal {
		return ordinal{fmt.Sprintf("[%c-%c][%c-%c]", lo1, hi1, lo2, hi2), func(f *Flow) (VSeq, Lin) {
			q := f.digit(lo1, hi1).concat(f.digit(lo2, hi2))
			l, _ := f.e.decimal(f.st, q, false)
			return q, l
		}, ok}
	}
	return []ordinal{one('1', '9', true), one('0', '0', false), two('0', '0', '1', '9', true), two('0', '0', '0', '0', false),
		two('1', '4', '0', '9', true), two('5', '5', '0', '3', true), two('5', '5', '4', '9', false), two('6', '9', '0', '9', false),
		{"three digits", func(f *Flow) (VSeq, Lin) {
			return f.digit('1', '9').concat(f.digit('0', '9')).concat(f.digit('0', '9')), Lin{}
		}, false}}
}

func (k *recurRun) byDay() {
	fi := k.field("ByDay")
	T := k.st.Field(fi).Type()
	E, _ := T.Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	if !k.r.anchor(E != nil && E.NumFields() == 2, "structure of weekdays in recurrence rules") {
		return
	}
	day := func(d, n Value) Value {
		v := VStruct{T.Underlying().(*types.Slice).Elem(), make([]Value, 2)}
		for i := 0; i < 2; i++ {
			if E.Field(i).Name() == "Day" {
				v.F[i] = d
			} else {
				v.F[i] = n
			}
		}
		return v
	}
	none := VLin{}
	top := int64(0)
	for _, n := range sortedKeys(weekdays) {
		w := weekdays[n]
		d := k.constant(n)
		top = max(top, d.(VLin).C)
		set := func(f *Flow, v ...Value) map[string]Value {
			return map[string]Value{"Frequency": k.daily(), "ByDay": f.list(T, v)}
		}
		f := k.r.flow()
		k.decoded("keyword", "BYDAY="+w, f, lit("FREQ=DAILY;BYDAY="+w), k.norm(set(f, day(d, none))), false)
		f = k.r.flow()
		k.written("keyword", "day "+n, f, k.rule(set(f, day(d, none))), "FREQ=DAILY", "BYDAY="+w)
		f = k.r.flow()
		k.valid("valid", "day "+n, f, k.rule(set(f, day(d, none))), true)
		for _, o := range ordinals() {
			for _, sign := range []string{"", "+", "-"} {
				// alone, and second of three
				for places := 1; places <= 3; places += 2 {
					f := k.r.flow()
					q, l := o.mk(f)
					if sign == "-" {
						l = l.neg()
					}
					t := lit(sign).concat(q).concat(lit(w))
					v := day(d, VLin{l})
					vs := []Value{v}
					if places == 3 {
						t = lit("MO,").concat(t).concat(lit(",-1FR"))
						vs = []Value{day(k.constant("Monday"), none), v, day(k.constant("Friday"), VLin{linConst(-1)})}
					}
					var want map[string]Value
					if o.ok {
						want = k.norm(set(f, vs...))
					}
					k.decoded("number", fmt.Sprintf("BYDAY=%s%s%s (of %d)", sign, o.name, w, places), f, lit("FREQ=DAILY;BYDAY=").concat(t), want, false)
				}
			}
		}
		ok := []span{{-53, -1}, {0, 0}, {1, 53}}
		for _, s := range append(append([]span(nil), ok...), span{-128, -54}, span{54, 127}) {
			good := s.lo >= -53 && s.hi <= 53
			f := k.r.flow()
			v := f.num(s)
			k.valid("number", fmt.Sprintf("day %s with occurrence %s", n, s), f, k.rule(set(f, day(d, VLin{v}))), good)
			f = k.r.flow()
			v = f.num(s)
			k.valid("number", fmt.Sprintf("day %s with occurrence %s (2 of 3)", n, s), f, k.rule(set(f, day(d, none), day(d, VLin{v}), day(d, none))), good)
			if good && s.lo != 0 {
				f = k.r.flow()
				v = f.num(s)
				t := render(f.e.itoa(f.st, v))
				k.written("number", fmt.Sprintf("day %s with occurrence %s", n, s), f, k.rule(set(f, day(d, none), day(d, VLin{v}), day(k.constant("Friday"), none))), "FREQ=DAILY", "BYDAY="+w+","+t+w+",FR")
			}
		}
	}
	for _, bad := range []string{"", "M", "X", "1", "+", "-", "-MO", "1X", "XX", "MOX", "12", "1+MO", "MO,", ",MO", "+1", "-12", "11", "-1M", "10M"} {
		k.decoded("keyword", fmt.Sprintf("BYDAY=%s", bad), k.r.flow(), lit("FREQ=DAILY;BYDAY="+bad), nil, false)
	}
	for _, s := range []span{{0, 0}, {top + 1, 255}} {
		f := k.r.flow()
		k.valid("valid", fmt.Sprintf("a day that is no weekday (%s)", s), f, k.rule(map[string]Value{"Frequency": k.daily(), "ByDay": f.list(T, []Value{day(VLin{f.num(s)}, none)})}), false)
	}
}

// until covers the end of a rule.
func (k *recurRun) until() {
	type form struct {
		name string
		mk   func(f *Flow) (VSeq, Value)
		time bool
	}
	digits := func(f *Flow, n int64) VSeq {
		q := f.run(csDigit, n)
		id, _ := q.single()
		f.st.z().assumeLE(linSym(lenID(id)).addC(-n))
		return q
	}
	T := k.st.Field(k.field("Until")).Type()
	forms := []form{
		{"a date", func(f *Flow) (VSeq, Value) {
			q := digits(f, 8)
			return q, VUnk{ptimeID("20060102", q, "UTC"), T}
		}, false},
		{"a local time", func(f *Flow) (VSeq, Value) {
			q := digits(f, 8).concat(lit("T")).concat(digits(f, 6))
			return q, VUnk{ptimeID("20060102T150405", q, "Local"), T}
		}, true},
		{"a time in UTC", func(f *Flow) (VSeq, Value) {
			q := digits(f, 8).concat(lit("T")).concat(digits(f, 6))
			return q.concat(lit("Z")), VUnk{ptimeID("20060102T150405", q, "UTC"), T}
		}, true},
	}
	for _, m := range forms {
		f := k.r.flow()
		q, v := m.mk(f)
		k.decoded("until", "UNTIL with "+m.name, f, lit("FREQ=DAILY;UNTIL=").concat(q), k.norm(map[string]Value{"Frequency": k.daily(), "Until": v, "UntilTime": VBool(m.time)}), true)
		for _, rev := range []bool{false, true} {
			f = k.r.flow()
			q, v := m.mk(f)
			f.st.setFact("iszero("+vkey(v)+")", Fact{B: 1})
			f.keepFact("iszero(" + vkey(v) + ")")
			n := f.num(span{1, many})
			c := lit("COUNT=").concat(f.e.itoa(f.st, n))
			u := lit("UNTIL=").concat(q)
			what := "UNTIL with " + m.name + " and COUNT"
			if rev {
				c, u = u, c
				what = "COUNT and UNTIL with " + m.name
			}
			k.decoded("until", what, f, lit("FREQ=DAILY;").concat(u).concat(lit(";")).concat(c), nil, false)
		}
	}
	for _, m := range []struct{ field, wire string }{{"Count", "COUNT"}, {"Interval", "INTERVAL"}} {
		f := k.r.flow()
		n := f.num(span{1, many})
		k.decoded("number", m.wire, f, lit("FREQ=DAILY;"+m.wire+"=").concat(f.e.itoa(f.st, n)), k.norm(map[string]Value{"Frequency": k.daily(), m.field: VLin{n}}), false)
		f = k.r.flow()
		n = f.num(span{1, many})
		v := k.rule(map[string]Value{"Frequency": k.daily(), m.field: VLin{n}})
		k.written("number", m.field, f, v, "FREQ=DAILY", m.wire+"="+render(f.e.itoa(f.st, n)))
		f = k.r.flow()
		n = f.num(span{1, many})
		v = k.rule(map[string]Value{"Frequency": k.daily(), m.field: VLin{n}})
		k.valid("valid", m.field, f, v, true)
		f = k.r.flow()
		k.decoded("number", "a negative "+m.wire, f, lit("FREQ=DAILY;"+m.wire+"=").concat(f.e.itoa(f.st, f.num(span{-many, -1}))), nil, false)
	}
	for _, zone := range []string{"utc", "local", "zoned"} {
		for _, tm := range []bool{false, true} {
			f := k.r.flow()
			u := f.time(zone)
			t := "‹tfmt(" + vkey(u) + ",20060102)›"
			if tm {
				t += "T‹tfmt(" + vkey(u) + ",150405)›"
				if zone == "utc" {
					t += "Z"
				}
			}
			set := map[string]Value{"Frequency": k.daily(), "Until": u, "UntilTime": VBool(tm)}
			what := fmt.Sprintf("an end (%s, with time %v)", zone, tm)
			k.written("until", what, f, k.rule(set), "FREQ=DAILY", "UNTIL="+t)
			f = k.r.flow()
			set["Until"] = f.time(zone)
			f.zoneName(f.run(csRange('A', 'Z'), 1))
			k.valid("until", what, f, k.rule(set), true)
			f = k.r.flow()
			set["Until"] = f.time(zone)
			f.zoneName(f.run(csRange('A', 'Z'), 1))
			set["Count"] = VLin{f.num(span{1, many})}
			k.valid("until", what+" and a count", f, k.rule(set), false)
		}
	}
}

// together writes all parts at once.
func (k *recurRun) together() {
	f := k.r.flow()
	set := map[string]Value{"Frequency": k.daily(), "Count": VLin{linConst(3)}, "Interval": VLin{linConst(2)}, "WeekStart": k.constant("Monday")}
	parts := []string{"FREQ=DAILY", "COUNT=3", "INTERVAL=2", "WKST=MO", "BYDAY=TU"}
	text := "FREQ=DAILY;COUNT=3;INTERVAL=2;WKST=MO;BYDAY=TU"
	T := k.st.Field(k.field("ByDay")).Type()
	d := zero(T.Underlying().(*types.Slice).Elem()).(VStruct)
	for i := range d.F {
		if d.T.Underlying().(*types.Struct).Field(i).Name() == "Day" {
			d.F[i] = k.constant("Tuesday")
		}
	}
	set["ByDay"] = f.list(T, []Value{d})
	for i, l := range recurLists {
		if fi := k.field(l.field); fi >= 0 {
			n := int64(i + 1)
			set[l.field] = f.list(k.st.Field(fi).Type(), []Value{VLin{linConst(n)}})
			parts = append(parts, fmt.Sprintf("%s=%d", l.wire, n))
			text += fmt.Sprintf(";%s=%d", l.wire, n)
		}
	}
	k.written("number", "a rule with all parts", f, k.rule(set), parts...)
	g := k.r.flow()
	g.st.heap = f.st.heap
	for o := range f.e.roots {
		g.e.roots[o] = true
	}
	k.decoded("number", "a rule with all parts", g, lit(text), k.norm(set), false)
}
