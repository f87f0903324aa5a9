package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Alarms are decoded in two steps: their lines are collected until the action
// is known and then handed to the decoder of that kind of alarm. Both steps are
// followed together on given sequences of lines.

type alarmRun struct {
	*decRun
	seq  []decLine
	what string
	fail string       // why the sequence has to be refused
	stop *atomic.Bool // set when a sequence is not followed to its end
}

func (d *alarmRun) hook(c *Call) ([]Out, bool) {
	if c.name == "invoke.GetPhrase" {
		if len(c.args) == 0 || vkey(c.args[0]) != "~§t" {
			return nil, false
		}
		return d.next(c), true
	}
	if c.fn != nil {
		if nt := d.r.p.recvType(c.fn); nt != nil && (nt.Obj().Name() == "Alarm" || alarmActions[nt.Obj().Name()] != "") {
			return nil, false
		}
	}
	return d.decodeHook(c)
}

// next delivers the next line of the sequence.
func (d *alarmRun) next(c *Call) []Out {
	p, st := d.r.p, c.st
	g := st.q.(decGhost)
	n, _ := strconv.Atoi(g.has)
	PT := structType(p, parserPath, "Phrase")
	if n >= len(d.seq) {
		if g.lost == "" {
			g.lost = "line after the component's END"
		}
		n = len(d.seq) - 1
	}
	l := d.seq[n]
	g.has = strconv.Itoa(n + 1)
	g.last = l.what + " " + l.key
	switch l.what {
	case "read error":
		st.q = g
		return []Out{{st, VTuple{zero(PT), VErr{ID: "read error"}}}}
	case "end of input":
		st.q = g
		done, _ := constInt(p, parserPath, "PhraseDone")
		return []Out{{st, VTuple{VStruct{PT, []Value{VLin{linConst(done)}, VSlice{VUnk{"§nodata", types.NewSlice(structType(p, parserPath, "Token"))}, Lin{}, Lin{}}}}, VNil{}}}}
	}
	id := fmt.Sprintf("§line(%s%d)", l.what, n)
	name, value := lit(l.name), lit(l.value)
	switch l.what {
	case "prop":
		g = d.inc(g, l.key)
		k := l.key + fmt.Sprint(d.count(g, l.key))
		id = "§line(" + k + ")"
		st.lenSym("§val(prop " + k + ")")
		value = opaqueSeq("§val(prop " + k + ")")
	case "unknown":
		nid := fmt.Sprintf("§name%d", n)
		st.lenSym(nid)
		name = opaqueSeq(nid)
		var up, lo []string
		for _, k := range append([]string{"BEGIN", "END", "ACTION"}, d.sec.keys()...) {
			up = append(up, k)
			lo = append(lo, strings.ToLower(k))
		}
		d.notOneOf(st, nid, up, lo)
		st.lenSym("§val" + nid)
		value = opaqueSeq("§val" + nid)
	}
	g.ended = l.what == "end"
	ph := mkPhrase(p, st, id, l.name, name, value)
	st.q = g
	return []Out{{st, VTuple{ph, VNil{}}}}
}

func (d *alarmRun) run() {
	if d.stop.Load() {
		return
	}
	AT := d.r.p.namedType("Alarm")
	if !d.r.anchor(AT != nil, "type Alarm") {
		return
	}
	fn := d.r.p.DeclMethod(AT, "decode")
	if !d.r.anchor(fn != nil && len(fn.Params) == 2, "decode of Alarm") {
		return
	}
	f := d.r.flow()
	d.e = f.e
	e := f.e
	e.hooks = []Hook{d.hook}
	e.roots["§a^"] = true
	e.deadline = time.Now().Add(20 * time.Second)
	d.keys = nil
	for _, q := range d.sec.Fields {
		d.keys = append(d.keys, q.Key)
	}
	st := f.st
	st.q = decGhost{counts: strings.Repeat("0", len(d.keys)), has: "0"}
	st.heap["§a^"] = Obj{AT, zero(AT)}
	st.setFact("§t", Fact{Nil: 2})
	what := "decoding the alarm [" + d.what + "]"
	pos := d.r.p.pos(fn.Pos())
	outs := e.run(fn, []Value{VPtr{Obj: "§a^"}, VUnk{"§t", fn.Params[1].Type()}}, nil, st)
	d.r.absorb(e, what)
	d.r.count("alarms followed", 1)
	if e.exhausted || len(outs) == 0 {
		d.stop.Store(true)
		d.report("undecided", what, pos, "cannot decide what "+what+" gives")
		return
	}
	succeeded := false
	for _, o := range outs {
		g := o.st.q.(decGhost)
		bad := g.bad
		if bad == "" {
			bad = d.fail
		}
		n := o.st.nilness(o.v)
		if n != 1 && bad == "" {
			d.report("reject", what, pos, what+" can fail although nothing is wrong with it")
		}
		if n == 2 {
			continue
		}
		succeeded = true
		if bad != "" {
			d.report("accept", what+": "+bad, pos, what+" can succeed although: "+bad)
			continue
		}
		if g.has != strconv.Itoa(len(d.seq)) || g.lost != "" {
			d.report("lost", what, pos, what+" succeeds without reading exactly the lines up to END")
			continue
		}
		var kind Value = o.st.load(VPtr{Obj: "§a^"})
		if s, ok := kind.(VStruct); ok && len(s.F) == 1 {
			kind = s.F[0]
		}
		i, ok := kind.(VIface)
		p, isPtr := i.V.(VPtr)
		if !ok || !isPtr || !types.Identical(i.T, types.NewPointer(d.sec.T)) {
			d.report("field", what+": kind", pos, fmt.Sprintf("%s gives %s instead of %s", what, vkey(kind), d.sec.Name))
			continue
		}
		o.st.heap["§s^"] = Obj{d.sec.T, o.st.load(p)}
		d.checkFields(o, g, pos)
	}
	if !succeeded && d.fail == "" {
		d.report("never", what, pos, what+" never succeeds")
	}
}

// alarms follows the decoding of alarms of each kind.
func (r *Report) alarms(v func(string) string, tag string, report reporter) {
	var jobs []func()
	stop := new(atomic.Bool)
	for _, s := range r.sections() {
		action := alarmActions[s.Name]
		if action == "" {
			continue
		}
		var others []string
		for _, k := range sortedKeys(alarmActions) {
			if alarmActions[k] != action {
				others = append(others, alarmActions[k])
			}
		}
		act := func(a string) decLine { return decLine{what: "action", key: a, name: v("ACTION"), value: v(a)} }
		prop := func(k string) decLine { return decLine{what: "prop", key: k, name: v(k)} }
		end := decLine{what: "end", key: s.Wire, name: v("END"), value: v(s.Wire)}
		unknown := decLine{what: "unknown"}
		add := func(fail string, seq ...decLine) {
			var w []string
			for _, l := range seq {
				w = append(w, strings.TrimSpace(l.what+" "+l.key))
			}
			if len(w) > 30 {
				w = append(w[:3:3], fmt.Sprintf("%d lines", len(w)-6), w[len(w)-3], w[len(w)-2], w[len(w)-1])
			}
			d := &alarmRun{decRun: &decRun{r: r, sec: s, variant: v, report: report, noFail: fail != ""}, seq: seq, what: s.Name + ": " + strings.Join(w, ", ") + tag, fail: fail, stop: stop}
			jobs = append(jobs, d.run)
		}
		insert := func(ls []decLine, at int, l ...decLine) []decLine {
			at %= len(ls) + 1
			return append(append(append([]decLine{}, ls[:at]...), l...), ls[at:]...)
		}
		// complete lists the keys with all that they need.
		complete := func(keys ...string) []decLine {
			has := map[string]bool{}
			for _, k := range append(s.required(), keys...) {
				has[k] = true
			}
			for range s.Cons {
				for _, c := range s.Cons {
					if c.Kind != "excl" && (has[c.A] || c.Kind == "both" && has[c.B]) {
						has[c.A], has[c.B] = true, true
					}
				}
			}
			var ls []decLine
			for _, f := range s.Fields {
				if has[f.Key] {
					ls = append(ls, prop(f.Key))
				}
			}
			return ls
		}
		base := complete()
		add("", append(insert(base, 0, act(action)), end)...)
		add("", append(insert(base, len(base), act(action)), end)...)
		add("", append(insert(insert(base, 0, act(action)), 1, unknown), unknown, end)...)
		var all []string
		for i, f := range s.Fields {
			ls := complete(f.Key)
			if f.Card == '*' {
				ls = append(ls, prop(f.Key))
			} else {
				add("second "+f.Key, append(insert(append(complete(f.Key), prop(f.Key)), i, act(action)), end)...)
			}
			add("", append(insert(ls, i, act(action)), end)...)
			all = append(all, f.Key)
		}
		ls := complete(all...)
		add("", append(insert(insert(ls, len(ls)/2, act(action)), 1, unknown), unknown, end)...)
		long := base
		for range 20 {
			long = append(long[:len(long):len(long)], decLine{what: "other", key: "unknown", name: v("X-U"), value: "x"})
		}
		add("", append(long, act(action), end)...)
		add("it has no action", append(insert(base, 0), end)...)
		add("its action is unknown", append(insert(base, 0, act("X-OTHER")), end)...)
		for i, a := range append(others, action) {
			add("it has two actions", append(insert(insert(base, i, act(action)), len(base)+1, act(a)), end)...)
			add("it has two actions", append(insert(insert(base, i, act(a)), 0, act(action)), end)...)
		}
		for _, k := range []string{"X-A", "VALARM", "VEVENT"} {
			nested := []decLine{{what: "begin", key: k, name: v("BEGIN"), value: v(k)}, {what: "nested end", key: k, name: v("END"), value: v(k)}}
			for i := range len(base) + 2 {
				add("a component inside an alarm", append(insert(insert(base, 0, act(action)), i, nested...), end)...)
			}
			if k != s.Wire {
				add("END of another component", append(insert(base, 0, act(action)), nested[1])...)
				add("END of another component", append(insert(base, 0, act(action)), nested[1], end)...)
			}
		}
		whole := append(insert(base, len(base), act(action)), end)
		for i := range whole {
			for _, stop := range []string{"read error", "end of input"} {
				add(stop, append(insert(whole[:i], 0), decLine{what: stop})...)
			}
		}
		for i := range base {
			add("missing "+base[i].key, append(insert(append(base[:i:i], base[i+1:]...), i, act(action)), end)...)
		}
	}
	r.parallel(jobs)
}

// alarmProps names the properties a finding about the decoding of alarms
// belongs to.
func alarmProps(kind, construct string) []string {
	ps := []string{"C07", "C09", "C11"}
	if strings.Contains(construct, "unknown") || kind == "lost" {
		ps = append(ps, "C19")
	}
	if kind == "accept" && strings.Contains(construct, "malformed") {
		return []string{"C11"}
	}
	if kind == "accept" && strings.Contains(construct, "inside an alarm") {
		return []string{"C11", "C19"}
	}
	return ps
}

const alarmRule = "The decoder of alarms is interpreted abstractly, together with the decoder of the kind of alarm it selects, on sequences of lines with every property of every kind, the action at each place, unknown properties, two or no actions, nested components, missing and repeated properties, and reading that fails or ends after each line; outcome, kind of alarm and all fields are compared with the sequence."

// firstLine follows Decode on streams that begin with each of a number of
// lines, with the decoder of the calendar succeeding or failing.
func (r *Report) firstLine(report reporter) {
	fn := r.p.Pkg.Func("Decode")
	cal := r.p.namedType("Calendar")
	if !r.anchor(fn != nil, "function Decode") || !r.anchor(cal != nil, "type Calendar") {
		return
	}
	pos := r.p.pos(fn.Pos())
	follow := func(line string, build func(f *Flow) VSeq, ok bool, suffix string) {
		f := r.flow()
		what := "decoding input that begins with " + strconv.Quote(line) + suffix
		in := build(f)
		f.e.hooks = []Hook{func(c *Call) ([]Out, bool) {
			if c.fn == nil {
				return nil, false
			}
			if c.fn.String() == parserPath+".NewReaderTokeniser" {
				return c.newTok(in), true
			}
			if c.fn.Name() != "decode" || r.p.recvType(c.fn) != cal || len(c.args) != 2 {
				return nil, false
			}
			g := c.st.q.(outGhost)
			good, bad := c.st.clone(), c.st.clone()
			good.q = outGhost{text: g.text + "decoded " + vkey(c.args[0])}
			bad.q = outGhost{text: g.text + "failed"}
			return []Out{{good, VNil{}}, {bad, VErr{ID: "decode error"}}}, true
		}}
		f.e.fine = 256
		f.e.Budget = 20000
		f.st.setFact("§src", Fact{Nil: 2})
		outs := f.e.run(fn, []Value{VUnk{"§src", fn.Params[0].Type()}}, nil, f.st)
		r.absorb(f.e, what)
		r.count("first lines followed", 1)
		if len(outs) == 0 || f.e.exhausted {
			report("undecided", what, pos, "cannot decide what "+what+" gives")
		}
		succeeded := false
		for _, o := range outs {
			t, isT := o.v.(VTuple)
			if !isT || len(t) != 2 {
				report("undecided", what, pos, "cannot decide what "+what+" gives")
				continue
			}
			state := o.st.q.(outGhost).text
			e, c := o.st.nilness(t[1]), o.st.nilness(t[0])
			switch {
			case !ok && e != 2:
				report("accept", what, pos, what+" can succeed")
			case strings.Contains(state, "failed") && e != 2:
				report("accept", what+": calendar", pos, what+" can succeed although decoding the calendar fails")
			case e == 2 && c != 1:
				report("calendar", what, pos, what+" can return a calendar with an error")
			case e == 2:
				if strings.HasPrefix(state, "decoded ") {
					report("reject", what, pos, what+" can fail although the calendar is decoded")
				} else if ok && state == "" {
					report("reject", what, pos, what+" can fail")
				}
			case state != "decoded "+vkey(t[0]):
				report("calendar", what, pos, what+" can return something else than the decoded calendar")
			default:
				succeeded = true
			}
		}
		if ok && !succeeded {
			report("reject", what, pos, what+" never succeeds")
		}
	}
	text := func(s string) func(f *Flow) VSeq { return func(*Flow) VSeq { return lit(s) } }
	for tag, v := range map[string]func(string) string{"": ident, " in lower case": lowerKey, " in mixed case": mixedKey} {
		for _, l := range []string{":VCALENDAR\r\n", ":VCALENDAR", ";X-A=b:VCALENDAR\r\n", ";VALUE=\"b\",c;X=:VCALENDAR\r\nVERSION:2.0\r\n"} {
			i := strings.Index(l, "VCALENDAR")
			s := v("BEGIN") + l[:i] + v("VCALENDAR") + l[i+len("VCALENDAR"):]
			follow("BEGIN"+l, text(s), true, tag)
		}
	}
	for _, l := range []string{
		"", "\r\n", "BEGIN", "BEGIN\r\n", "BEGIN:\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VCALENDARS\r\n", "BEGIN: VCALENDAR\r\n", "BEGIN:VCALENDAR \r\n", "BEGIN:CALENDAR\r\n", "END:VCALENDAR\r\n",
		"VERSION:2.0\r\nBEGIN:VCALENDAR\r\n", "BEGIN2:VCALENDAR\r\n", "BEGI:VCALENDAR\r\n", "BEGIN;X=BEGIN:X\r\n", "X;BEGIN=VCALENDAR:VCALENDAR\r\n", "VCALENDAR:BEGIN\r\n", "BEGIN;X=VCALENDAR:VEVENT\r\n",
		":VCALENDAR\r\n", "BEGIN=VCALENDAR\r\n", "BEGIN:VCALENDAR\rX\r\n", "BEGIN;X:VCALENDAR\r\n",
	} {
		follow(l, text(l), false, "")
	}
	word := csOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-")
	follow("§:VCALENDAR", func(f *Flow) VSeq {
		q := f.char(word)
		f.keep(q)
		return q.concat(lit(":VCALENDAR\r\n"))
	}, false, "")
	follow("BEGIN:§", func(f *Flow) VSeq {
		q := f.run(csText.minus(csOf("vV")), 0)
		f.keep(q)
		return lit("BEGIN:").concat(q).concat(lit("\r\n"))
	}, false, "")
}

func firstProps(kind, construct string) []string {
	if strings.Contains(construct, " case") {
		return []string{"C11", "C18"}
	}
	return []string{"C11", "C22"}
}

const firstRule = "Decode is interpreted abstractly, together with the tokeniser, on inputs that begin with BEGIN:VCALENDAR in several spellings and on inputs that do not, with the decoder of the calendar succeeding or failing; only the decoded calendar may be returned, and none with an error."
