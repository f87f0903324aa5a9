package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoding of a whole calendar: validation before the first write, errors
// of the destination, folding of lines.

// dstGhost is what happened to the destination.
type dstGhost struct {
	valid   int8 // 1: found valid, 2: found invalid
	encoded int
	failed  bool // a write failed
	writes  int
	bad     string
	seq     VSeq
	text    string
}

func (g dstGhost) Key() string {
	return fmt.Sprint(g.valid, g.encoded, g.failed, g.writes, g.bad, g.text)
}

func (g dstGhost) Syms(sym, obj func(string)) { symsOf(g.seq, sym, obj) }

func (g dstGhost) Rename(f func(string) string) Ghost {
	g.seq = renameVal(g.seq, f).(VSeq)
	g.text = render(g.seq)
	return g
}

// encoderRun follows Encode with a model of writing a calendar.
type encoderRun struct {
	r      *Report
	f      *Flow
	fn     *ssa.Function
	cal    *types.Named
	record bool // keep what is written
	fail   bool // writes may fail
	body   func(c *Call, w Value) []Out
	// prepare sets up what the body uses
	prepare func(f *Flow)
}

func (r *Report) encoderRun() *encoderRun {
	fn := r.p.Pkg.Func("Encode")
	if !r.anchor(fn != nil, "function Encode") {
		return nil
	}
	cal := r.p.namedType("Calendar")
	if !r.anchor(cal != nil, "type Calendar") {
		return nil
	}
	return &encoderRun{r: r, fn: fn, cal: cal}
}

func (d *encoderRun) hook(c *Call) ([]Out, bool) {
	name := strings.TrimPrefix(c.name, "invoke.")
	if c.fn != nil {
		name = c.fn.Name()
	}
	if len(c.args) > 0 && vkey(c.args[0]) == "~§dst" {
		switch name {
		case "Write", "WriteString":
			return d.write(c, c.st.seqOf(c.args[1])), true
		}
	}
	nt := d.r.p.recvType(c.fn)
	if nt != d.cal || len(c.args) == 0 || d.f.st == nil {
		return nil, false
	}
	if d.isCal(c) {
		g := c.st.q.(dstGhost)
		switch name {
		case "valid":
			a, b := c.st.clone(), c.st
			if g.valid != 0 {
				// the calendar does not change
				if g.valid == 1 {
					return []Out{{a, VNil{}}}, true
				}
				return []Out{{b, VErr{ID: "invalid calendar"}}}, true
			}
			g.valid = 1
			a.q = g
			g.valid = 2
			b.q = g
			return []Out{{a, VNil{}}, {b, VErr{ID: "invalid calendar"}}}, true
		case "encode":
			g.encoded++
			c.st.q = g
			if len(c.args) < 2 {
				return nil, false
			}
			return d.body(c, c.args[1]), true
		}
	}
	return nil, false
}

// isCal: the receiver is the calendar given to Encode.
func (d *encoderRun) isCal(c *Call) bool {
	if p, ok := c.args[0].(VPtr); ok {
		return p.Obj == "§cal^" && len(p.Path) == 0
	}
	return strings.HasPrefix(vkey(c.args[0]), "~§cal^")
}

func (d *encoderRun) write(c *Call, q VSeq) []Out {
	g := c.st.q.(dstGhost)
	note := func(f string) {
		if g.bad == "" {
			g.bad = f
		}
	}
	switch {
	case g.valid == 2:
		note("it writes although the calendar is invalid")
	case g.valid == 0:
		note("it writes before validating the calendar")
	}
	if g.failed {
		note("it writes after a write has failed")
	}
	if d.record {
		g.seq = g.seq.concat(c.st.norm(q))
		g.text = render(g.seq)
	}
	g.writes = 1
	n := c.st.seqLen(q)
	good := c.st
	var outs []Out
	if d.fail {
		bad := c.st.clone()
		h := g
		h.failed = true
		bad.q = h
		tok := siteTok(c.site)
		m := linSym("short" + tok)
		bad.fresh(tok)
		bad.z().sym("short" + tok)
		bad.z().assumeLE(m.neg())
		bad.z().assumeLE(m.sub(n))
		if !bad.zone.bot {
			outs = append(outs, Out{bad, VTuple{VLin{m}, VErr{ID: "failed write"}}})
		}
	}
	good.q = g
	return append(outs, Out{good, VTuple{VLin{n}, VNil{}}})
}

// run follows Encode; body stands for writing the calendar.
func (d *encoderRun) run() []Out {
	f := d.r.flow()
	if d.record {
		f.e.fine, f.e.maxSeq = 2048, 2048
	} else {
		// arbitrary data: loops are not followed character by character
		f.e.unroll, f.e.fine, f.e.maxPart, f.e.maxSeq = false, 0, 256, 12
	}
	f.e.hooks = []Hook{d.hook}
	f.st.q = dstGhost{}
	d.f = f
	f.st.setFact("§dst", Fact{Nil: 2})
	f.st.heap["§cal^"] = Obj{d.cal, VUnk{"§cal^", d.cal}}
	f.e.roots["§cal^"] = true
	if d.prepare != nil {
		d.prepare(f)
	}
	outs := f.e.run(d.fn, []Value{VUnk{"§dst", d.fn.Params[0].Type()}, VPtr{Obj: "§cal^"}}, nil, f.st)
	d.r.absorb(f.e, d.fn.RelString(d.r.p.Types))
	return outs
}

// put writes q through the writer given to the encoders of components.
func (d *encoderRun) put(c *Call, st *State, w Value, q VSeq, method string) []Out {
	it, ok := c.fn.Params[len(c.fn.Params)-1].Type().Underlying().(*types.Interface)
	if !d.r.anchor(ok, "writer of the encoders") {
		return nil
	}
	ms := types.NewMethodSet(c.fn.Params[len(c.fn.Params)-1].Type())
	_ = it
	sel := ms.Lookup(d.r.p.Types, method)
	if !d.r.anchor(sel != nil, "method "+method+" of the writer") {
		return nil
	}
	m := sel.Obj().(*types.Func)
	var arg Value = q
	if method == "Write" {
		d.f.n++
		o := fmt.Sprintf("§d%d#", d.f.n)
		st.heap[o] = Obj{types.NewSlice(types.Typ[types.Byte]), VBytes{q}}
		arg = VSlice{VPtr{Obj: o}, Lin{}, st.seqLen(q)}
	}
	k := &Call{e: c.e, st: st, site: c.site, in: c.in, sig: m.Signature(), args: []Value{arg}}
	return c.e.invoke(k, c.fn.Params[len(c.fn.Params)-1].Type(), w, m)
}

// encodeErrors follows Encode with arbitrary writes of which any may fail.
func (r *Report) encodeErrors(report reporter) {
	d := r.encoderRun()
	if d == nil {
		return
	}
	pos := r.p.pos(d.fn.Pos())
	d.fail = true
	calls := 0
	d.body = func(c *Call, w Value) []Out {
		calls++
		all := map[string]Out{}
		var order []string
		work := []*State{c.st}
		for round := 0; round < 4; round++ {
			var next []*State
			for _, st := range work {
				k := st.q.Key() + st.dataKey()
				if _, ok := all[k]; ok {
					continue
				}
				all[k] = Out{st.clone(), nil}
				order = append(order, k)
				if round == 3 {
					continue
				}
				for _, m := range []string{"Write", "WriteString"} {
					s := st.clone()
					d.f.n++
					id := fmt.Sprintf("§data%d", d.f.n)
					s.setCs(id, csAll)
					s.lenSym(id)
					for _, o := range d.put(c, s, w, opaqueSeq(id), m) {
						next = append(next, o.st)
					}
				}
			}
			work = next
		}
		r.count("states of the destination", len(order))
		var outs []Out
		for _, k := range order {
			outs = append(outs, all[k])
		}
		return outs
	}
	outs := d.run()
	what := "encoding a calendar"
	if len(outs) == 0 {
		report("noreturn", what, pos, "Encode never returns")
	}
	r.anchor(calls > 0, "writing of the calendar in Encode")
	some := false
	for _, o := range outs {
		g := o.st.q.(dstGhost)
		n := o.st.nilness(o.v)
		if g.bad != "" {
			kind := "order"
			if strings.Contains(g.bad, "after") {
				kind = "continued"
			}
			report(kind, g.bad, pos, "when Encode is followed "+g.bad)
		}
		switch {
		case g.valid == 0:
			report("order", what+" without validation", pos, "Encode can return without validating the calendar")
		case g.valid == 2:
			if n != 2 || !hasCause(o.v, "invalid calendar") {
				report("order", what+" that is invalid", pos, "Encode can return "+vkey(o.v)+" for an invalid calendar instead of the error found by validation")
			}
		case g.failed:
			if n != 2 || !hasCause(o.v, "failed write") {
				report("lost", what+" with a failing write", pos, "Encode can return "+vkey(o.v)+" although a write failed")
			}
		default:
			if n != 1 {
				report("invented", what+" without failures", pos, "Encode can return "+vkey(o.v)+" although nothing failed")
			}
			if g.encoded != 1 {
				report("written", what, pos, fmt.Sprintf("Encode writes a valid calendar %d times", g.encoded))
			}
			some = true
		}
	}
	if !some {
		report("invented", what+" without failures", pos, "Encode never succeeds")
	}
}

// hasCause: v is the error with the given name, possibly wrapped.
func hasCause(v Value, id string) bool {
	switch x := v.(type) {
	case VErr:
		if x.ID == id {
			return true
		}
		for _, c := range x.Causes {
			if c == id {
				return true
			}
		}
	case VIface:
		return hasCause(x.V, id)
	case VAlt:
		for _, y := range x {
			if !hasCause(y, id) {
				return false
			}
		}
		return len(x) > 0
	}
	return false
}
