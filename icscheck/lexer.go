package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Content lines: the tokeniser that Decode hands to the decoder of the
// calendar followed on streams assembled from character classes, compared with
// a reference automaton for the grammar.

// item is one piece of a stream: a character or, in lower case, a run of
// characters of a class.
//
//	A letters, digits and hyphen   O other characters   K controls
//	; : , = " themselves           R CR   N LF
type item struct {
	class byte
	q     VSeq
}

type lexToken struct {
	kind string
	data VSeq
}

// lexRef is what the grammar makes of a stream.
type lexRef struct {
	lines [][]lexToken
	state string // where it ends
	fail  bool
}

// reference reads a stream with the grammar of content lines.
func reference(in []item) lexRef {
	r := lexRef{state: "start"}
	var line []lexToken
	var cur VSeq
	put := func(kind string) {
		line = append(line, lexToken{kind, cur})
		cur = VSeq{}
	}
	for _, it := range in {
		c := it.class
		if c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		ok := true
		next := func(kind, state string) {
			put(kind)
			r.state = state
		}
		plain := c == 'A' || c == 'O' || c == '='
		switch r.state {
		case "start", "name":
			switch {
			case c == 'A':
				cur, r.state = cur.concat(it.q), "name"
			case r.state == "name" && c == ';':
				next("tokenName", "pstart")
			case r.state == "name" && c == ':':
				next("tokenName", "value")
			default:
				ok = false
			}
		case "pstart", "pname":
			switch {
			case c == 'A':
				cur, r.state = cur.concat(it.q), "pname"
			case r.state == "pname" && c == '=':
				next("tokenParamName", "vstart")
			default:
				ok = false
			}
		case "vstart", "plain":
			switch {
			case r.state == "vstart" && c == '"':
				r.state = "quoted"
			case plain:
				cur, r.state = cur.concat(it.q), "plain"
			case c == ',':
				next("tokenParamValue", "vstart")
			case c == ';':
				next("tokenParamValue", "pstart")
			case c == ':':
				next("tokenParamValue", "value")
			default:
				ok = false
			}
		case "quoted":
			switch {
			case c == '"':
				next("tokenParamQuotedValue", "unquoted")
			case plain || c == ';' || c == ':' || c == ',':
				cur = cur.concat(it.q)
			default:
				ok = false
			}
		case "unquoted":
			switch c {
			case ',':
				r.state = "vstart"
			case ';':
				r.state = "pstart"
			case ':':
				r.state = "value"
			default:
				ok = false
			}
		case "value":
			switch {
			case plain || c == ';' || c == ':' || c == ',' || c == '"':
				cur = cur.concat(it.q)
			case c == 'R':
				r.state = "cr"
			default:
				ok = false
			}
		case "cr":
			if ok = c == 'N'; ok {
				next("tokenValue", "start")
				r.lines = append(r.lines, line)
				line = nil
			}
		}
		if !ok {
			r.fail = true
			return r
		}
	}
	switch r.state {
	case "start":
	case "value":
		put("tokenValue")
		r.lines = append(r.lines, line)
	default:
		r.fail = true
	}
	return r
}

// completions end the line a state is in.
var completions = map[string]string{
	"start": "", "name": ":o", "pstart": "a=o:o", "pname": "=o:o", "vstart": "o:o", "plain": ":o",
	"quoted": "\":o", "unquoted": ":o", "value": "", "cr": "N",
}

// lexRun follows the tokeniser on one stream.
type lexRun struct {
	r      *Report
	f      *Flow
	cal    *types.Named
	in     []item
	what   string
	pos    string
	report reporter
	seen   int
	ends   int
	short  bool // runs of two characters
}

// item creates a piece of the stream.
func (d *lexRun) item(c byte) item {
	word := csOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-")
	other := csText.minus(word).minus(csOf(";:,=\""))
	f := d.f
	var q VSeq
	switch c {
	case 'A':
		q = f.char(word)
	case 'a':
		q = f.char(word).concat(d.more(word))
	case 'O':
		q = f.char(other)
	case 'o':
		q = f.char(other.or(word)).concat(d.more(other.or(word)))
	case 'K':
		q = f.char(csControl.minus(csOf("\r\n")))
	case 'R':
		q = lit("\r")
	case 'N':
		q = lit("\n")
	default:
		q = lit(string(rune(c)))
	}
	return item{c, q}
}

// more is the rest of a run.
func (d *lexRun) more(cs Charset) VSeq {
	if d.short {
		return d.f.char(cs)
	}
	return d.f.run(cs, 1)
}

func (d *lexRun) hook(c *Call) ([]Out, bool) {
	if c.fn == nil {
		return nil, false
	}
	if c.fn.String() == parserPath+".NewReaderTokeniser" {
		q := lit("BEGIN:VCALENDAR\r\n")
		for _, it := range d.in {
			q = q.concat(it.q)
		}
		return c.newTok(q), true
	}
	if c.fn.Name() == "decode" && d.r.p.recvType(c.fn) == d.cal && len(c.args) == 2 {
		d.seen++
		d.drive(c)
		return nil, true
	}
	return nil, false
}

// drive fetches lines until there are no more.
func (d *lexRun) drive(c *Call) {
	T := c.fn.Params[1].Type()
	sel := types.NewMethodSet(T).Lookup(d.r.p.Types, "GetPhrase")
	if !d.r.anchor(sel != nil, "method GetPhrase of the tokeniser") {
		return
	}
	m := sel.Obj().(*types.Func)
	want := reference(d.in)
	c.st.heap["§tk"] = Obj{T, c.args[1]}
	d.f.e.roots["§tk"] = true
	work := []*State{c.st}
	for n := 0; n <= len(want.lines) && len(work) > 0; n++ {
		var next []*State
		for _, st := range work {
			k := &Call{e: c.e, st: st, site: c.site, in: c.in, sig: m.Signature()}
			for _, o := range c.e.invoke(k, T, st.heap["§tk"].V, m) {
				t, ok := o.v.(VTuple)
				if !ok || len(t) != 2 {
					d.report("undecided", d.what, d.pos, "cannot decide what reading "+d.what+" gives")
					continue
				}
				if d.stunted(o.st, t) {
					d.report("shape", d.what, d.pos, "reading "+d.what+" gives a content line without a name or a value")
				}
				if n < len(want.lines) {
					if why := d.line(o.st, t, want.lines[n]); why != "" {
						d.report("line", d.what, d.pos, fmt.Sprintf("line %d of %s: %s", n+1, d.what, why))
						continue
					}
					next = append(next, o.st)
					continue
				}
				d.ends++
				ph := d.phraseType(o.st, t[0])
				e := o.st.nilness(t[1])
				switch {
				case want.fail && (ph != -2 || e != 2):
					d.report("accept", d.what, d.pos, fmt.Sprintf("%s is no sequence of content lines but is read without an error (%s)", d.what, vkey(t[0])))
				case !want.fail && (ph != -1 || e != 1):
					d.report("reject", d.what, d.pos, fmt.Sprintf("%s is a sequence of content lines, but its end is not recognised (%s, %s)", d.what, vkey(t[0]), vkey(t[1])))
				}
			}
		}
		work = next
	}
}

func (d *lexRun) phraseType(st *State, v Value) int64 {
	s, ok := v.(VStruct)
	if !ok || len(s.F) != 2 {
		return -99
	}
	l, ok := s.F[0].(VLin)
	if !ok || !l.isConst() {
		return -99
	}
	return l.C
}

// stunted reports a content line with fewer than two tokens.
func (d *lexRun) stunted(st *State, t VTuple) bool {
	kind, _ := constInt(d.r.p, modPath, "phraseContentLine")
	if st.nilness(t[1]) == 2 || d.phraseType(st, t[0]) != kind {
		return false
	}
	n, ok := lengthOf(st, t[0].(VStruct).F[1])
	return !ok || st.z().lb(n) < 2
}

// line compares a phrase with the tokens of a content line.
func (d *lexRun) line(st *State, t VTuple, want []lexToken) string {
	kind, _ := constInt(d.r.p, modPath, "phraseContentLine")
	if st.nilness(t[1]) != 1 || d.phraseType(st, t[0]) != kind {
		return fmt.Sprintf("not accepted (%s, %s)", vkey(t[0]), vkey(t[1]))
	}
	sl, ok := t[0].(VStruct).F[1].(VSlice)
	if !ok || !sl.Len.isConst() || sl.Len.C != int64(len(want)) {
		return fmt.Sprintf("%s tokens instead of %d", vkey(t[0].(VStruct).F[1]), len(want))
	}
	for i, w := range want {
		tk, ok := d.f.e.elem(st, sl, linConst(int64(i))).(VStruct)
		if !ok {
			return "a token cannot be decided"
		}
		if vkey(tk.F[0]) != vkey(VLin{tokenKind(d.r.p, w.kind)}) {
			return fmt.Sprintf("token %d has kind %s instead of that of %s", i+1, vkey(tk.F[0]), w.kind)
		}
		got := render(st.norm(st.seqOf(tk.F[1])))
		if got != render(st.norm(w.data)) {
			return fmt.Sprintf("token %d is %q instead of %q", i+1, got, render(w.data))
		}
	}
	return ""
}

// lexer follows the tokeniser after each prefix that reaches a state of the
// grammar, with all sequences of a few characters after it.
func (r *Report) lexer(report reporter) {
	fn := r.p.Pkg.Func("Decode")
	cal := r.p.namedType("Calendar")
	if !r.anchor(fn != nil, "function Decode") || !r.anchor(cal != nil, "type Calendar") {
		return
	}
	for _, n := range []string{"tokenName", "tokenParamName", "tokenParamQuotedValue", "tokenParamValue", "tokenValue", "phraseContentLine"} {
		if _, ok := constInt(r.p, modPath, n); !r.anchor(ok, "constant "+n) {
			return
		}
	}
	prefixes := []string{
		"", "a", "a;", "a;a", "a;a=", "a;a=o", "a;a=\"", "a;a=\"o", "a;a=\"o\"", "a;a=o,", "a;a=,", "a;a=o,\"o\"", "a;a=\"o\",",
		"a;a=o;", "a;a=o;a=", "a;a=\"o\";a=\"o\",o", "a;a=:", "a:", "a:o", "a;a=o:", "a;a=\"o\":o", "a:oR", "a:oRN", "a:RN", "a:oRNa", "a:oRNa:",
		"a;a=o:oRNa;a=\"o\"", "a;a=o;a=\"o\";a=o;a=", "a;a=o,\"o\",o,\"o\",", "a:oRNa:oRNa:oRN",
	}
	var streams []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			streams = append(streams, s)
		}
	}
	var walk func(s string, depth int)
	walk = func(s string, depth int) {
		var in []item
		for _, c := range []byte(s) {
			in = append(in, item{c, VSeq{}})
		}
		ref := reference(in)
		alive := !ref.fail || reference(append(in[:len(in):len(in)], itemsOf(completions[ref.state])...)).fail == false
		add(s)
		if alive {
			add(s + completions[ref.state] + "RNa:o")
		} else {
			for _, end := range []string{":oRN", "=o:oRN", "o\":oRN", "N", "RNa:o"} {
				add(s + end)
			}
			return
		}
		if depth == 0 {
			return
		}
		for _, c := range []byte("AOK;:,=\"RN") {
			walk(s+string(rune(c)), depth-1)
		}
	}
	for _, p := range prefixes {
		depth := 2
		if len(p) < 6 {
			depth = 3
		}
		walk(p, depth)
	}
	var jobs []func()
	for _, s := range streams {
		jobs = append(jobs, func() { r.lexStream(fn, cal, s, report) })
	}
	r.parallel(jobs)
}

func itemsOf(s string) []item {
	var in []item
	for _, c := range []byte(s) {
		in = append(in, item{class: c})
	}
	return in
}

// lexStream follows the tokeniser on a stream, with runs of any length or, if
// that does not come to an end, runs of two characters.
func (r *Report) lexStream(fn *ssa.Function, cal *types.Named, s string, report reporter) {
	pos := r.p.pos(fn.Pos())
	var names []string
	for _, c := range []byte(s) {
		n := map[byte]string{'A': "letter", 'a': "letters", 'O': "other", 'o': "text", 'K': "control", 'R': "CR", 'N': "LF"}[c]
		if n == "" {
			n = string(rune(c))
		}
		names = append(names, n)
	}
	what := "the stream [" + strings.Join(names, " ") + "]"
	for _, short := range []bool{false, true} {
		if !short && r.shortRuns.Load() {
			continue
		}
		f := r.flow()
		d := &lexRun{r: r, f: f, cal: cal, pos: pos, what: what, short: short}
		var found [][4]string
		d.report = func(kind, what, pos, msg string) { found = append(found, [4]string{kind, what, pos, msg}) }
		f.e.hooks = []Hook{d.hook}
		f.e.fine = 256
		f.e.Budget = 5000
		if short {
			f.e.Budget = 20000
		} else {
			f.e.deadline = time.Now().Add(4 * time.Second)
		}
		f.st.setFact("§src", Fact{Nil: 2})
		for _, c := range []byte(s) {
			it := d.item(c)
			f.keep(it.q)
			d.in = append(d.in, it)
		}
		f.e.run(fn, []Value{VUnk{"§src", fn.Params[0].Type()}}, nil, f.st)
		if !short && f.e.exhausted {
			r.shortRuns.Store(true)
			continue
		}
		for _, x := range found {
			report(x[0], x[1], x[2], x[3])
		}
		r.absorb(f.e, fn.RelString(r.p.Types))
		r.anchor(d.seen > 0, "decoding of the calendar after its first line")
		r.count("streams followed", 1)
		r.count("ends of streams reached", d.ends)
		if d.seen > 0 && d.ends == 0 && len(found) == 0 {
			report("noend", what, pos, "reading "+what+" does not come to its end")
		}
		return
	}
}
