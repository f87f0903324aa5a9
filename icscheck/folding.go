package main

import (
	"fmt"
	"strings"
)

// Folding: what Encode hands to the destination compared with what the
// encoders of components wrote.

// piece is something a line is assembled from.
type piece struct {
	name string
	q    VSeq
}

// unit is one character of a text: an octet of a literal or a symbol.
type unit struct {
	s string
	n int
}

// units takes a text apart; a symbol's length has to be known.
func units(st *State, q VSeq) ([]unit, bool) {
	var us []unit
	for _, p := range q.P {
		if p.ID == "" {
			for _, b := range []byte(p.Lit) {
				us = append(us, unit{string(rune(b)), 1})
			}
			continue
		}
		l := st.seqLen(opaqueSeq(p.ID))
		n := st.zone.ub(l)
		if n != st.zone.lb(l) {
			return nil, false
		}
		us = append(us, unit{"‹" + p.ID + "›", int(n)})
	}
	return us, true
}

// unfolds: out is in with CRLF and a space inserted between characters so that
// no line is longer than max octets.
func unfolds(in, out []unit, max int) string {
	is := func(us []unit, i int, s string) bool { return i < len(us) && us[i].s == s }
	type pos struct{ i, col int } // of in, for the current position of out
	const (
		tooLong = "a line is longer than 75 octets"
		changed = "removing the inserted sequences does not give what was to be written"
	)
	why := changed
	at := map[int]map[pos]bool{0: {{0, 0}: true}}
	for o := 0; o <= len(out); o++ {
		for p := range at[o] {
			if o == len(out) {
				if p.i == len(in) {
					return ""
				}
				continue
			}
			add := func(o int, p pos) {
				if p.col > max {
					why = tooLong
					return
				}
				if at[o] == nil {
					at[o] = map[pos]bool{}
				}
				at[o][p] = true
			}
			if p.i < len(in) && in[p.i].s == out[o].s {
				q := pos{p.i + 1, p.col + out[o].n}
				switch {
				case out[o].s == "\r" && is(out, o+1, "\n"):
					q.col = p.col
				case out[o].s == "\n" && o > 0 && out[o-1].s == "\r":
					q.col = 0
				}
				add(o+1, q)
			}
			if is(out, o, "\r") && is(out, o+1, "\n") && is(out, o+2, " ") && !(p.i > 0 && in[p.i-1].s == "\r" && is(in, p.i, "\n")) {
				add(o+3, pos{p.i, 1})
			}
		}
	}
	return why
}

// folding follows Encode with lines assembled from a prefix of each length and
// pieces of each kind, written together or one by one.
func (r *Report) folding(report reporter) {
	if r.encoderRun() == nil {
		return
	}
	var jobs []func()
	for n := 0; n <= 320; n++ {
		if n > 165 && n%75 != 0 && n%74 != 1 {
			continue
		}
		deep := n >= 66 && n <= 80 || n >= 142 && n <= 152
		jobs = append(jobs, func() { r.foldingAfter(n, deep, report) })
	}
	r.parallel(jobs)
}

func (r *Report) foldingAfter(n int, deep bool, report reporter) {
	d := r.encoderRun()
	d.record = true
	pos := r.p.pos(d.fn.Pos())
	prefix := lit(strings.Repeat("x", n))
	suffix := lit(strings.Repeat("y", 75))
	depth := 2
	if deep {
		depth = 3
	}
	sets := make([][]piece, depth)
	d.prepare = func(f *Flow) {
		for i := range sets {
			sets[i] = []piece{{"CRLF", lit("\r\n")}}
			for _, c := range []struct {
				name   string
				lo, hi int64
				n      int64
			}{{"a character of one octet", 0, 0x7f, 1}, {"a character of two octets", 0x80, 0x7ff, 2}, {"a character of three octets", 0x800, 0xffff, 3}, {"a character of four octets", 0x10000, 0x10ffff, 4}} {
				cs := Charset{Non: true}
				if c.n == 1 {
					cs = csAll.minus(csOf("\r\n"))
					cs.Non = false
				}
				q := f.char(cs)
				l := linSym(fmt.Sprintf("§c%d", f.n))
				f.st.z().assumeLE(linConst(c.lo).sub(l))
				f.st.z().assumeLE(l.addC(-c.hi))
				f.st.z().assumeEQ(f.st.seqLen(q).addC(-c.n))
				f.keep(q)
				f.keep(VLin{l})
				sets[i] = append(sets[i], piece{c.name, q})
			}
		}
	}
	runs := 0
	d.body = func(c *Call, w Value) []Out {
		judge := func(st *State, in VSeq, name, how string) bool {
			runs++
			g := st.q.(dstGhost)
			a, ok1 := units(st, in)
			b, ok2 := units(st, st.norm(g.seq))
			what := fmt.Sprintf("%d octets, %s", n, name)
			if !ok1 || !ok2 {
				report("undecided", what+", "+how, pos, "cannot decide what Encode writes for a line of "+what+" "+how+": "+g.text)
				return false
			}
			if why := unfolds(a, b, 75); why != "" {
				report("fold", what+", "+how, pos, "for "+what+" "+how+" Encode writes "+fmt.Sprintf("%q", g.text)+": "+why)
				return false
			}
			return true
		}
		puts := func(sts []*State, q VSeq, m string) []*State {
			var r []*State
			for _, st := range sts {
				for _, o := range d.put(c, st.clone(), w, q, m) {
					r = append(r, o.st)
				}
			}
			return r
		}
		base := []*State{c.st.clone()}
		if n > 0 {
			base = puts(base, prefix, "WriteString")
		}
		if len(base) == 0 {
			report("noreturn", "writing a line", pos, "writing a text never returns")
		}
		var walk func(sts []*State, i int, q VSeq, name string)
		walk = func(sts []*State, i int, q VSeq, name string) {
			good := true
			for _, st := range sts {
				good = judge(st, prefix.concat(q), name, "written one by one") && good
			}
			if i == 1 || i > 1 && deep {
				together := puts([]*State{c.st.clone()}, prefix.concat(q), "Write")
				if i > 1 {
					together = append(together, puts(base, q, "WriteString")...)
				}
				for _, st := range together {
					good = judge(st, prefix.concat(q), name, "written together") && good
				}
			}
			if deep && i > 0 && i < 3 && good {
				// a longer text after it
				rest := puts(sts, suffix, "WriteString")
				rest = append(rest, puts(base, q.concat(suffix), "WriteString")...)
				if i == 1 {
					rest = append(rest, puts([]*State{c.st.clone()}, prefix.concat(q).concat(suffix), "Write")...)
				}
				for _, st := range rest {
					good = judge(st, prefix.concat(q).concat(suffix), name, "followed by 75 octets") && good
				}
			}
			if i == depth || !good {
				return
			}
			for _, p := range sets[i] {
				t := name + ", " + p.name
				if i == 0 {
					t = p.name
				}
				if p.name == "CRLF" && i == 0 {
					split := puts(puts(sts, lit("\r"), "WriteString"), lit("\n"), "WriteString")
					for _, st := range split {
						judge(st, prefix.concat(p.q), "CR, LF", "written one by one")
					}
				}
				m := "WriteString"
				if i%2 == 0 {
					m = "Write"
				}
				walk(puts(sts, p.q, m), i+1, q.concat(p.q), t)
			}
		}
		walk(base, 0, VSeq{}, "nothing else")
		return []Out{{c.st, nil}}
	}
	d.run()
	r.count("lines assembled", runs)
	r.anchor(runs > 0, "writing of the calendar in Encode")
}
