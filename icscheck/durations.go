package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Durations.

var durationUnits = []string{"Weeks", "Days", "Hours", "Minutes", "Seconds"}

const durationLetters = "WDHMS"

type durationRun struct {
	*valueRun
	idx map[string]int
}

func (r *Report) durations(report reporter) {
	v := r.value("Duration", report)
	if v == nil {
		return
	}
	st, ok := v.c.T.Underlying().(*types.Struct)
	if !r.anchor(ok, "fields of "+v.c.name) {
		return
	}
	d := &durationRun{v, map[string]int{}}
	for i := 0; i < st.NumFields(); i++ {
		d.idx[st.Field(i).Name()] = i
	}
	for _, n := range append([]string{"Negative"}, durationUnits...) {
		if _, ok := d.idx[n]; !r.anchor(ok, "field "+n+" of "+v.c.name) {
			return
		}
	}
	var jobs []func()
	for _, neg := range []bool{false, true} {
		for set := 0; set < 1<<5; set++ {
			for rot := 0; rot < 5; rot++ {
				jobs = append(jobs, func() { d.encode(neg, set, func(u int) int { return (u+rot)%5 + 1 }) })
			}
		}
		for u := range durationUnits {
			for n := 6; n <= 17; n++ {
				jobs = append(jobs, func() { d.encode(neg, 1<<u, func(int) int { return n }) })
			}
		}
	}
	items := durationItems()
	var rec func(s []int)
	rec = func(s []int) {
		jobs = append(jobs, func() { d.decode("", s, items) })
		if len(s) <= 2 {
			jobs = append(jobs, func() { d.decode("-", s, items) }, func() { d.decode("+", s, items) })
		}
		if len(s) == 4 {
			return
		}
		for i := range items {
			rec(append(append([]int(nil), s...), i))
		}
	}
	rec(nil)
	for _, all := range [][]int{{itemD, itemT, itemH, itemM, itemS}} {
		for _, sign := range []string{"", "-", "+"} {
			jobs = append(jobs, func() { d.decode(sign, all, items) })
		}
	}
	for u := range durationUnits {
		for n := 4; n <= 17; n++ {
			jobs = append(jobs, func() { d.number(u, n) })
		}
		jobs = append(jobs, func() {
			t := ""
			if u > 1 {
				t = "T"
			}
			w := "P" + t + strings.Repeat("9", 21) + durationLetters[u:u+1]
			d.reads("number", v.c.name+" "+w, v.r.flow(), VNil{}, lit(w), nil, false)
		})
	}
	for _, w := range []string{"", "-", "+", "P", "1D", "T1H", "--P1D", "+-P1D", "P-1D", "P+1D", "P1DX", "XP1D", "P1D ", "P 1D", "P1.5D", "PP1D", "P1DP1D"} {
		jobs = append(jobs, func() {
			d.reads("form", fmt.Sprintf("%s %q", v.c.name, w), v.r.flow(), VNil{}, lit(w), nil, false)
		})
	}
	r.parallel(jobs)
}

// digits is a number of n digits without leading zeros.
func (f *Flow) digits(n int) (VSeq, Lin) {
	q := f.digit('1', '9')
	for i := 1; i < n; i++ {
		q = q.concat(f.digit('0', '9'))
	}
	l, ok := f.e.decimal(f.st, q, false)
	if !ok {
		panic("number of digits")
	}
	f.keep(VLin{l})
	return q, l
}

func (d *durationRun) mk(f *Flow, neg bool, set int, length func(int) int) (VStruct, [5]Lin) {
	x := zero(d.c.T).(VStruct)
	x.F = append([]Value(nil), x.F...)
	x.F[d.idx["Negative"]] = VBool(neg)
	var ls [5]Lin
	for u, n := range durationUnits {
		if set&(1<<u) != 0 {
			_, ls[u] = f.digits(length(u))
			x.F[d.idx[n]] = VLin{ls[u]}
		}
	}
	return x, ls
}

func (d *durationRun) encode(neg bool, set int, length func(int) int) {
	what := d.c.name
	for u, n := range durationUnits {
		if set&(1<<u) != 0 {
			what += fmt.Sprintf(" %s(%d)", n, length(u))
		}
	}
	if set == 0 {
		what += " of nothing"
	}
	if neg {
		what += " negative"
	}
	ok := set&1 == 0 || set == 1
	f := d.r.flow()
	x, _ := d.mk(f, neg, set, length)
	kind := "express"
	if ok {
		kind = "valid"
	}
	d.valid(kind, what, f, x, ok)
	if !ok {
		return
	}
	what = "encoding " + what
	for _, fn := range []struct {
		colon bool
	}{{false}, {true}} {
		f := d.r.flow()
		x, ls := d.mk(f, neg, set, length)
		m := d.c.enc
		if fn.colon {
			m = d.aenc
		}
		outs := f.encode(m, d.c.T, x)
		if len(outs) == 0 {
			d.report("units", what, d.at(m), what+" never ends")
		}
		for _, o := range outs {
			q := o.written()
			if fn.colon {
				if len(q.P) == 0 || !strings.HasPrefix(q.P[0].Lit, ":") {
					d.report("units", what, d.at(m), fmt.Sprintf("%s writes %q without a colon", what, render(q)))
					continue
				}
				q = lit(q.P[0].Lit[1:]).concat(VSeq{q.P[1:]})
			}
			if bad := parseDuration(f, o.st, q, neg, ls); bad != "" {
				d.report("units", what, d.at(m), fmt.Sprintf("%s writes %q: %s", what, render(q), bad))
			}
		}
	}
}

// parseDuration reads a duration according to its grammar and compares it.
func parseDuration(f *Flow, s *State, q VSeq, neg bool, want [5]Lin) string {
	// single characters and unknown parts
	type piece struct {
		r rune
		q VSeq
	}
	var ps []piece
	for _, p := range q.P {
		if p.ID != "" {
			ps = append(ps, piece{0, VSeq{[]Part{p}}})
			continue
		}
		for _, r := range p.Lit {
			ps = append(ps, piece{r, lit(string(r))})
		}
	}
	i := 0
	accept := func(r rune) bool {
		if i < len(ps) && ps[i].r == r {
			i++
			return true
		}
		return false
	}
	if neg {
		if !accept('-') {
			return "the sign is missing"
		}
	} else {
		accept('+')
	}
	if !accept('P') {
		return "P is missing"
	}
	var got [5]Lin
	last, t, units := -1, false, 0
	for i < len(ps) {
		if accept('T') {
			if t || last == 0 {
				return "T is misplaced"
			}
			t = true
		}
		var n VSeq
		for i < len(ps) && (ps[i].r == 0 || ps[i].r >= '0' && ps[i].r <= '9') {
			n = n.concat(ps[i].q)
			i++
		}
		if i == len(ps) {
			return "a unit is missing"
		}
		u := strings.IndexRune(durationLetters, ps[i].r)
		if u < 0 {
			return fmt.Sprintf("%q is not a unit", ps[i].r)
		}
		i++
		l, ok := f.e.decimal(s, n, false)
		if len(n.P) == 0 || !ok {
			return "a number is missing"
		}
		if u <= last || last == 0 {
			return "units are out of order"
		}
		if u > 1 && !t || u <= 1 && t {
			return "T is misplaced"
		}
		got[u], last = l, u
		units++
	}
	if units == 0 {
		return "it has no unit"
	}
	for u := range got {
		if !s.provEQ(got[u], want[u]) {
			return fmt.Sprintf("it has %s instead of %s for %s", got[u].key(), want[u].key(), durationUnits[u])
		}
	}
	return ""
}

const (
	itemW = iota
	itemD
	itemH
	itemM
	itemS
	itemT
	itemNumber
	itemLetter
	itemOther
)

func durationItems() []string {
	return []string{"nW", "nD", "nH", "nM", "nS", "T", "n", "D", "nX"}
}

// decode follows the decoder on one sequence of items.
func (d *durationRun) decode(sign string, s []int, items []string) {
	f := d.r.flow()
	q := lit(sign + "P")
	name := sign + "P"
	var want [5]Lin
	last, t, units := -1, false, 0
	pending := false // T without unit
	must, may := true, true
	for i, k := range s {
		name += items[k]
		if k != itemT && k != itemLetter {
			// a number of one to three digits
			n, l := f.digits(i%3 + 1)
			q = q.concat(n)
			if k < itemT {
				want[k] = l
			}
		}
		switch k {
		case itemT:
			q = q.concat(lit("T"))
			if t || last == itemW || last > itemD {
				must, may = false, false
			}
			t, pending = true, true
		case itemNumber:
			// may be read together with a number that follows it
			must, may = false, false
			if i+1 < len(s) && s[i+1] != itemT && s[i+1] != itemLetter {
				return
			}
			if i+1 < len(s) && s[i+1] == itemLetter {
				return
			}
		case itemLetter:
			q = q.concat(lit("D"))
			must, may = false, false
		case itemOther:
			q = q.concat(f.char(csText.minus(csOf("0123456789WDHMST"))))
			must, may = false, false
		default:
			q = q.concat(lit(durationLetters[k : k+1]))
			if k <= last || last == itemW || k <= itemD && t {
				must, may = false, false
			}
			if k > itemD && !t || k == itemS && last == itemH {
				must = false
			}
			last, pending = k, false
			units++
		}
	}
	if units == 0 || pending {
		must, may = false, false
	}
	what := d.c.name + " " + name
	if !may {
		d.reads("form", what, f, VNil{}, q, nil, false)
		return
	}
	kind := "units"
	fn := func(o Out) string { return d.compare(o, sign == "-", want) }
	if must {
		d.reads(kind, what, f, VNil{}, q, fn, false)
		return
	}
	for _, o := range f.decode(d.c.dec, d.c.T, VNil{}, q) {
		if o.st.nilness(o.v) == 2 {
			continue
		}
		if bad := fn(o); bad != "" {
			d.report(kind, "decoding "+what, d.at(d.c.dec), "decoding "+what+" "+bad)
		}
	}
}

func (d *durationRun) compare(o Out, neg bool, want [5]Lin) string {
	got, ok := o.result().(VStruct)
	if !ok {
		return "gives " + vkey(o.result())
	}
	if b, ok := got.F[d.idx["Negative"]].(VBool); !ok || bool(b) != neg {
		return "gives the wrong sign"
	}
	for u, n := range durationUnits {
		l, ok := got.F[d.idx[n]].(VLin)
		if !ok || !o.st.provEQ(l.Lin, want[u]) {
			return fmt.Sprintf("gives %s instead of %s for %s", vkey(got.F[d.idx[n]]), want[u].key(), n)
		}
	}
	return ""
}

// number follows the decoder on numbers with many digits.
func (d *durationRun) number(u, n int) {
	f := d.r.flow()
	q := lit("P")
	if u > 1 {
		q = lit("PT")
	}
	ds, l := f.digits(n)
	var want [5]Lin
	want[u] = l
	d.reads("number", fmt.Sprintf("%s with a number of %d digits for %s", d.c.name, n, durationUnits[u]), f, VNil{}, q.concat(ds).concat(lit(durationLetters[u:u+1])), func(o Out) string { return d.compare(o, false, want) }, false)
}
