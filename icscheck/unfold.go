package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unfolding: the reader that Decode hands to the tokeniser followed on short
// streams of octets that arrive in pieces of any size.

// srcGhost is how far a stream has been read.
type srcGhost struct {
	fill int // octets delivered by the reader
	pos  int // octets taken out of a buffering reader
	out  []Value
	bad  string
}

func (g srcGhost) Key() string {
	var ks []string
	for _, v := range g.out {
		ks = append(ks, vkey(v))
	}
	return fmt.Sprint(g.fill, g.pos, g.bad, ks)
}

func (g srcGhost) Syms(sym, obj func(string)) {
	for _, v := range g.out {
		symsOf(v, sym, obj)
	}
}

func (g srcGhost) Rename(f func(string) string) Ghost {
	out := make([]Value, len(g.out))
	for i, v := range g.out {
		out[i] = renameVal(v, f)
	}
	g.out = out
	return g
}

// unfoldRun follows the reader on one stream.
type unfoldRun struct {
	r       *Report
	f       *Flow
	stream  []Value // the octets
	names   []string
	sizes   []int // of the buffers given to it
	failing bool  // the stream ends with an error instead of its end
	report  reporter
	pos     string
	ends    int
	seen    bool
}

// globalVar is the value of a variable of another package.
func (e *Engine) globalVar(s *State, path, name string) Value {
	for _, pkg := range e.p.SSA.AllPackages() {
		if pkg.Pkg.Path() == path && pkg.Var(name) != nil {
			return s.load(VPtr{Obj: e.global(s, pkg.Var(name))})
		}
	}
	return VOpaque{path + "." + name}
}

// srcErr is what the stream ends with.
func (d *unfoldRun) srcErr(st *State) Value {
	if d.failing {
		return VErr{ID: "failed read"}
	}
	return d.f.e.globalVar(st, "io", "EOF")
}

// bytes creates a slice with the given octets.
func (d *unfoldRun) bytes(st *State, name string, vs []Value) Value {
	T := types.NewSlice(types.Typ[types.Byte])
	n := linConst(int64(len(vs)))
	a := VArr{N: n, Def: VLin{}}
	for i, v := range vs {
		a.Cells = append(a.Cells, Cell{linConst(int64(i)), v})
	}
	st.heap[name] = Obj{T, a}
	return VSlice{VPtr{Obj: name}, Lin{}, n}
}

// fills are the states in which at least n more octets are buffered, as far as
// the stream has them.
func (d *unfoldRun) fills(st *State, n int) []*State {
	g := st.q.(srcGhost)
	if g.fill-g.pos >= n || g.fill == len(d.stream) {
		return []*State{st}
	}
	var r []*State
	for k := g.fill + 1; k <= len(d.stream); k++ {
		if k-g.pos < n && k < len(d.stream) {
			continue
		}
		s := st.clone()
		h := g
		h.fill = k
		s.q = h
		r = append(r, s)
	}
	return r
}

func (d *unfoldRun) hook(c *Call) ([]Out, bool) {
	name := strings.TrimPrefix(c.name, "invoke.")
	if c.fn != nil {
		name = c.fn.String()
	}
	if name == parserPath+".NewReaderTokeniser" {
		d.seen = true
		d.drive(c, c.args[0])
		return nil, true
	}
	if name == "Read" && len(c.args) > 1 && vkey(c.args[0]) == "~§src" {
		return d.srcRead(c), true
	}
	switch name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		if u, ok := c.args[0].(VUnk); !ok || u.ID != "§src" {
			return nil, false
		}
		T := elemType(resultType(c.sig))
		c.st.heap["§bufio^"] = Obj{T, VUnk{"§bufio^", T}}
		return []Out{{c.st, VPtr{Obj: "§bufio^"}}}, true
	}
	m, ok := strings.CutPrefix(name, "(*bufio.Reader).")
	if !ok || vkey(c.args[0]) != vkey(VPtr{Obj: "§bufio^"}) {
		return nil, false
	}
	arg := func() (int, bool) {
		l := c.lin(1)
		return int(l.C), l.isConst() && l.C >= 0 && l.C <= 4096
	}
	var outs []Out
	switch m {
	case "Buffered":
		g := c.st.q.(srcGhost)
		return []Out{{c.st, VLin{linConst(int64(g.fill - g.pos))}}}, true
	case "ReadByte":
		for _, st := range d.fills(c.st, 1) {
			g := st.q.(srcGhost)
			if g.fill == g.pos {
				outs = append(outs, Out{st, VTuple{VLin{}, d.srcErr(st)}})
				continue
			}
			v := d.stream[g.pos]
			g.pos++
			st.q = g
			outs = append(outs, Out{st, VTuple{v, VNil{}}})
		}
		return outs, true
	case "UnreadByte":
		g := c.st.q.(srcGhost)
		if g.pos == 0 {
			return []Out{{c.st, VErr{ID: "nothing to unread"}}}, true
		}
		g.pos--
		c.st.q = g
		return []Out{{c.st, VNil{}}}, true
	case "Peek":
		n, ok := arg()
		if !ok {
			return nil, false
		}
		tok := siteTok(c.site)
		for _, st := range d.fills(c.st, n) {
			g := st.q.(srcGhost)
			var err Value = VNil{}
			k := n
			if g.fill-g.pos < n {
				k = g.fill - g.pos
				err = d.srcErr(st)
			}
			st.fresh(tok)
			outs = append(outs, Out{st, VTuple{d.bytes(st, "peek"+tok, d.stream[g.pos:g.pos+k]), err}})
		}
		return outs, true
	case "Discard":
		n, ok := arg()
		if !ok {
			return nil, false
		}
		for _, st := range d.fills(c.st, n) {
			g := st.q.(srcGhost)
			var err Value = VNil{}
			if g.fill-g.pos < n {
				n = g.fill - g.pos
				err = d.srcErr(st)
			}
			g.pos += n
			st.q = g
			outs = append(outs, Out{st, VTuple{VLin{linConst(int64(n))}, err}})
		}
		return outs, true
	case "Read":
		m, ok := d.room(c)
		if !ok {
			return nil, false
		}
		for _, st := range d.fills(c.st, 1) {
			g := st.q.(srcGhost)
			n := g.fill - g.pos
			if n == 0 && m > 0 {
				outs = append(outs, Out{st, VTuple{VLin{}, d.srcErr(st)}})
				continue
			}
			n = min(n, m)
			d.copyOut(c, st, d.stream[g.pos:g.pos+n])
			g.pos += n
			st.q = g
			outs = append(outs, Out{st, VTuple{VLin{linConst(int64(n))}, VNil{}}})
		}
		return outs, true
	}
	return nil, false
}

// room is the length of the buffer given to a Read.
func (d *unfoldRun) room(c *Call) (int, bool) {
	switch x := c.args[1].(type) {
	case VNil:
		return 0, true
	case VSlice:
		n := x.Len
		if u := c.st.zone.ub(n); u == c.st.zone.lb(n) {
			return int(u), u <= 1<<20
		}
	}
	c.e.undecided("%s: buffer of unknown length", c.e.p.pos(c.site.Pos()))
	return 0, false
}

func (d *unfoldRun) copyOut(c *Call, st *State, vs []Value) {
	x, ok := c.args[1].(VSlice)
	if !ok {
		return
	}
	p, ok := x.B.(VPtr)
	if !ok {
		c.e.undecided("%s: unknown buffer", c.e.p.pos(c.site.Pos()))
		return
	}
	for i, v := range vs {
		st.store(VPtr{p.Obj, pathAdd(p.Path, PE{F: -1, I: x.Off.addC(int64(i))})}, v)
	}
}

// srcRead is a read from the stream itself.
func (d *unfoldRun) srcRead(c *Call) []Out {
	m, ok := d.room(c)
	if !ok {
		return c.e.unknownCall(c)
	}
	g := c.st.q.(srcGhost)
	left := len(d.stream) - g.fill
	if left == 0 {
		return []Out{{c.st, VTuple{VLin{}, d.srcErr(c.st)}}}
	}
	var outs []Out
	for k := 1; k <= min(left, m); k++ {
		for _, end := range []bool{false, true} {
			if end && k < left {
				continue
			}
			st := c.st.clone()
			d.copyOut(c, st, d.stream[g.fill:g.fill+k])
			h := g
			h.fill += k
			h.pos = h.fill
			st.q = h
			var err Value = VNil{}
			if end {
				err = d.srcErr(st)
			}
			outs = append(outs, Out{st, VTuple{VLin{linConst(int64(k))}, err}})
		}
	}
	return outs
}

// drive reads from the reader until it fails.
func (d *unfoldRun) drive(c *Call, rd Value) {
	rt := c.fn.Params[0].Type()
	sel := types.NewMethodSet(rt).Lookup(nil, "Read")
	if !d.r.anchor(sel != nil, "method Read of the reader given to the tokeniser") {
		return
	}
	m := sel.Obj().(*types.Func)
	want := d.unfolded()
	what := d.what()
	c.st.heap["§rd"] = Obj{rt, rd}
	d.f.e.roots["§rd"] = true
	work := []*State{c.st}
	for round := 0; len(work) > 0; round++ {
		if round > 3*len(d.stream)+3 {
			d.report("noend", what, d.pos, "reading "+what+" does not come to an end")
			return
		}
		var next []*State
		byKey := map[string]bool{}
		size := d.sizes[round%len(d.sizes)]
		for _, st := range work {
			name := fmt.Sprintf("§p%d#", round)
			vs := make([]Value, size)
			for i := range vs {
				vs[i] = VLin{}
			}
			buf := d.bytes(st, name, vs).(VSlice)
			d.f.e.roots[name] = true
			k := &Call{e: c.e, st: st, site: c.site, in: c.in, sig: m.Signature(), args: []Value{buf}}
			outs := c.e.invoke(k, rt, st.heap["§rd"].V, m)
			for _, o := range outs {
				t, ok := o.v.(VTuple)
				if !ok || len(t) != 2 {
					d.report("undecided", what, d.pos, "cannot decide what reading "+what+" returns")
					continue
				}
				l, ok := t[0].(VLin)
				n := o.st.zone.ub(l.Lin)
				if !ok || n != o.st.zone.lb(l.Lin) || n < 0 || n > int64(size) {
					d.report("unfold", what, d.pos, "reading "+what+" returns the length "+vkey(t[0]))
					continue
				}
				g := o.st.q.(srcGhost)
				g.out = append([]Value(nil), g.out...)
				for i := int64(0); i < n; i++ {
					g.out = append(g.out, c.e.elem(o.st, buf, linConst(i)))
				}
				o.st.q = g
				delete(o.st.heap, name)
				switch o.st.nilness(t[1]) {
				case 1:
					if key := g.Key() + o.st.dataKey(); !byKey[key] {
						byKey[key] = true
						next = append(next, o.st)
					}
				case 2:
					d.ends++
					d.judge(g.out, want, what)
					if vkey(t[1]) != vkey(d.srcErr(o.st)) && !hasCause(t[1], "failed read") {
						d.report("error", what, d.pos, "after reading "+what+" the error is "+vkey(t[1])+" instead of the stream's own")
					}
				default:
					d.report("undecided", what, d.pos, "cannot decide whether reading "+what+" fails")
				}
			}
		}
		work = next
	}
}

// unfolded is the stream without CRLF and space.
func (d *unfoldRun) unfolded() []Value {
	var r []Value
	for i := 0; i < len(d.stream); i++ {
		if i+2 < len(d.stream) && d.names[i] == "CR" && d.names[i+1] == "LF" && d.names[i+2] == "space" {
			i += 2
			continue
		}
		r = append(r, d.stream[i])
	}
	return r
}

func (d *unfoldRun) judge(got, want []Value, what string) {
	bad := len(got) != len(want)
	for i := range got {
		bad = bad || vkey(got[i]) != vkey(want[i])
	}
	if bad {
		d.report("unfold", what, d.pos, fmt.Sprintf("reading %s gives %s instead of %s", what, valKeys(got), valKeys(want)))
	}
}

func valKeys(vs []Value) string {
	var r []string
	for _, v := range vs {
		r = append(r, vkey(v))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func (d *unfoldRun) what() string {
	s := "an empty stream"
	if len(d.names) > 0 {
		s = "a stream of " + strings.Join(d.names, ", ")
	}
	if d.failing {
		s += " and a read error"
	}
	return fmt.Sprintf("%s into buffers of %v", s, d.sizes)
}

// unfolding follows the reader on all streams of a few octets.
func (r *Report) unfolding(report reporter) {
	fn := r.p.Pkg.Func("Decode")
	if !r.anchor(fn != nil, "function Decode") {
		return
	}
	pos := r.p.pos(fn.Pos())
	var streams []string
	last := []string{""}
	for n := 0; n <= 6; n++ {
		streams = append(streams, last...)
		var next []string
		for _, s := range last {
			for _, c := range "ocls" {
				next = append(next, s+string(c))
			}
			if n < 3 {
				next = append(next, s+"h")
			}
		}
		last = next
	}
	var jobs []func()
	for _, s := range streams {
		for i, sizes := range [][]int{{8}, {1}, {2}, {3}, {1, 4, 2}} {
			if len(s) == 6 && (i > 2 || !strings.Contains(s, "cls")) {
				continue
			}
			for _, failing := range []bool{false, true} {
				if failing && (i > 0 || len(s) > 4) {
					continue
				}
				jobs = append(jobs, func() { r.unfoldStream(fn, s, sizes, failing, pos, report) })
			}
		}
	}
	r.parallel(jobs)
}

func (r *Report) unfoldStream(fn *ssa.Function, s string, sizes []int, failing bool, pos string, report reporter) {
	f := r.flow()
	d := &unfoldRun{r: r, f: f, sizes: sizes, failing: failing, report: report, pos: pos}
	f.e.hooks = []Hook{d.hook}
	f.e.fine = 256
	f.st.q = srcGhost{}
	f.st.setFact("§src", Fact{Nil: 2})
	f.e.roots["§bufio^"] = true
	sym := func(lo, hi int64, cs Charset) Value {
		f.n++
		id := fmt.Sprintf("§o%d", f.n)
		z := f.st.z()
		i := z.sym(id)
		z.le(0, i, -lo)
		z.le(i, 0, hi)
		f.st.setCs(id, cs)
		f.st.assumeChars(linSym(id), cs)
		f.keep(VLin{linSym(id)})
		return VLin{linSym(id)}
	}
	asc := csAll.minus(csOf("\r\n "))
	asc.Non = false
	for _, c := range s {
		switch c {
		case 'o':
			d.stream, d.names = append(d.stream, sym(0, 0x7f, asc)), append(d.names, "another octet")
		case 'h':
			d.stream, d.names = append(d.stream, sym(0x80, 0xff, Charset{Non: true})), append(d.names, "an octet above 127")
		case 'c':
			d.stream, d.names = append(d.stream, VLin{linConst('\r')}), append(d.names, "CR")
		case 'l':
			d.stream, d.names = append(d.stream, VLin{linConst('\n')}), append(d.names, "LF")
		case 's':
			d.stream, d.names = append(d.stream, VLin{linConst(' ')}), append(d.names, "space")
		}
	}
	f.e.run(fn, []Value{VUnk{"§src", fn.Params[0].Type()}}, nil, f.st)
	r.absorb(f.e, fn.RelString(r.p.Types))
	r.anchor(d.seen, "reader given to the tokeniser")
	r.count("streams followed", 1)
	r.count("ends of streams reached", d.ends)
	if d.seen && d.ends == 0 {
		report("noend", d.what(), pos, "reading "+d.what()+" never comes to an end")
	}
}
