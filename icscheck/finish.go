package main

import (
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	modRule   = "Every function that decoding (or encoding) reaches, found with a points-to call graph, is interpreted abstractly on its own with arbitrary arguments; decoders, encoders and validators it calls may do anything to what they are given, lines delivered to it are content lines with a name and a value, the end of input or an error, and other functions are followed into. "
	panicRule = "Each operation that can panic (index, slice bound, nil pointer, interface, map or function, type assertion, division, length of make, panic) is an obligation that the state reaching it has to discharge; one that depends on the arguments has to be discharged at every call instead."
	loopRule  = "For each loop a turn is followed from the states at its head; on every way back to the head some quantity that is bounded and never grows (the length of what remains, a distance between two counters, the input left) has to have become smaller. The call graph must have no cycles."
)

// modules analyses the functions reachable from entries one by one.
type modules struct {
	r       *Report
	s       *solver
	fs      []*ssa.Function
	runs    map[*ssa.Function]*modRun
	callers map[*ssa.Function]map[*ssa.Function]bool
	escapes map[*ssa.Function]bool // called from places that are not known
	inner   map[[2]*ssa.Function]*modRun
}

func (r *Report) modules(entries ...string) *modules {
	cal := r.p.namedType("Calendar")
	if !r.anchor(cal != nil, "type Calendar") {
		return nil
	}
	var es []*ssa.Function
	for _, n := range entries {
		fn := r.p.Pkg.Func(n)
		if !r.anchor(fn != nil, "function "+n) {
			return nil
		}
		es = append(es, fn)
	}
	m := &modules{r: r, s: r.solved(cal, r.refused(), es...), runs: map[*ssa.Function]*modRun{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}, escapes: map[*ssa.Function]bool{}, inner: map[[2]*ssa.Function]*modRun{}}
	for what, pos := range m.s.unknown {
		r.fail("undecided", what, r.p.pos(pos), "cannot decide what %s does", what)
	}
	for f := range m.s.reach(es...) {
		if !r.p.inPkg(f) || len(f.Blocks) == 0 || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		m.fs = append(m.fs, f)
	}
	sort.Slice(m.fs, func(i, j int) bool { return m.fs[i].RelString(r.p.Types) < m.fs[j].RelString(r.p.Types) })
	for _, f := range es {
		m.escapes[f] = true
	}
	for _, f := range m.fs {
		if stubbed(f) {
			m.escapes[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m.uses(f, in)
			}
		}
	}
	var mu sync.Mutex
	var jobs []func()
	for _, fn := range m.fs {
		jobs = append(jobs, func() {
			x := r.modular(fn, nil, nil)
			mu.Lock()
			m.runs[fn] = x
			mu.Unlock()
		})
	}
	r.parallel(jobs)
	for _, fn := range m.fs {
		e := m.runs[fn].e
		u := e.undec
		e.undec = map[string]bool{}
		r.absorb(e, fn.RelString(r.p.Types))
		e.undec = u
		for _, u := range sortedKeys(u) {
			if !m.covered(fn, func(x *modRun) bool { return !x.e.undec[u] }, nil) {
				r.fail("undecided", fn.RelString(r.p.Types)+": "+u, "-", "the analysis of %s could not decide: %s", fn.RelString(r.p.Types), u)
			}
		}
	}
	r.count("functions analysed on their own", len(m.fs))
	r.anchor(len(m.fs) > 10, "functions called by "+strings.Join(entries, " and "))
	return m
}

// uses records which functions an instruction calls and which it passes on.
func (m *modules) uses(f *ssa.Function, in ssa.Instruction) {
	var called *ssa.Function
	if c, ok := in.(ssa.CallInstruction); ok {
		called = c.Common().StaticCallee()
		if g, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			called = g.Fn.(*ssa.Function)
		}
	}
	add := func(g *ssa.Function) {
		if m.callers[g] == nil {
			m.callers[g] = map[*ssa.Function]bool{}
		}
		m.callers[g][f] = true
	}
	if called != nil {
		add(called)
	}
	if mc, ok := in.(*ssa.MakeClosure); ok {
		// followed into wherever it is called from its parent
		add(mc.Fn.(*ssa.Function))
		return
	}
	for i, op := range in.Operands(nil) {
		g, ok := (*op).(*ssa.Function)
		if !ok {
			continue
		}
		if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == *op {
			continue
		}
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && m.r.p.inPkg(c.Common().StaticCallee()) {
			// called by the function it is given to, which is followed into
			add(g)
			continue
		}
		m.escapes[g] = true
	}
}

// covered tells whether what fails for arbitrary arguments of fn succeeds
// wherever it is called.
func (m *modules) covered(fn *ssa.Function, ok func(x *modRun) bool, path []*ssa.Function) bool {
	x := m.runs[fn]
	if x == nil {
		return false
	}
	if ok(x) {
		return true
	}
	if m.escapes[fn] || len(m.callers[fn]) == 0 || len(path) > 6 {
		return false
	}
	for _, p := range path {
		if p == fn {
			return false
		}
	}
	for c := range m.callers[fn] {
		if !m.covered(c, ok, append(path, fn)) {
			return false
		}
	}
	return true
}

// panics checks that nothing reachable from entries can panic.
func (r *Report) panics(report reporter, entries ...string) {
	m := r.modules(entries...)
	if m == nil {
		return
	}
	n := 0
	for _, fn := range m.fs {
		x := m.runs[fn]
		for _, k := range sortedKeys(x.e.oblig) {
			o := x.e.oblig[k]
			n++
			if o.Met || m.covered(fn, func(x *modRun) bool { o := x.e.oblig[k]; return o == nil || o.Met }, nil) {
				continue
			}
			report(o.Rule, o.Fn+": "+o.What, o.Pos, o.Fn+": "+o.What+": "+o.Detail)
		}
	}
	r.count("operations that could panic", n)
	r.anchor(n > 0, "operations that could panic")
}

// finishes checks that everything reachable from entries comes to an end.
func (r *Report) finishes(report reporter, entries ...string) {
	m := r.modules(entries...)
	if m == nil {
		return
	}
	n := 0
	for _, fn := range m.fs {
		name := fn.RelString(r.p.Types)
		ls := naturalLoops(fn)
		if irreducible(fn, ls) {
			report("loop", "circle in "+name, r.p.pos(fn.Pos()), name+" contains a circle that is no loop with a single head")
		}
		for i, l := range ls {
			n++
			if m.loopEnds(fn, fn, l, nil) {
				continue
			}
			pos := r.p.pos(instrPos(l.head.Instrs[0]))
			report("loop", name+" loop "+letter(i), pos, "a turn of the loop in "+name+" need not bring it closer to its end")
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if what := waits(in); what != "" {
					report("waits", name+": "+what, r.p.pos(instrPos(in)), name+" "+what+" and may wait for ever")
				}
			}
		}
	}
	m.sources(report)
	r.count("loops", n)
	r.anchor(n > 0, "loops")
	var es []*ssa.Function
	for _, n := range entries {
		es = append(es, r.p.Pkg.Func(n))
	}
	for _, c := range m.s.cycles(es...) {
		var names []string
		pos, own := "-", false
		for _, f := range c {
			names = append(names, f.RelString(r.p.Types))
			if r.p.inPkg(f) && !own {
				pos, own = r.p.pos(f.Pos()), true
			}
		}
		if own {
			report("recursion", strings.Join(names, ", "), pos, strings.Join(names, ", ")+" may call each other without end")
		}
	}
}

func letter(i int) string { return string(rune('A' + i%26)) }

// loopEnds tells whether a loop of f ends when f is called through fn.
func (m *modules) loopEnds(f, fn *ssa.Function, l *loop, path []*ssa.Function) bool {
	x := m.runs[fn]
	if fn != f {
		k := [2]*ssa.Function{f, fn}
		x = m.inner[k]
		if x == nil {
			x = m.r.modular(fn, map[*ssa.Function]bool{f: true}, nil)
			m.inner[k] = x
		}
	}
	if x == nil {
		return false
	}
	if ok, seen := x.loops[l.head]; ok || !seen {
		return true
	}
	if m.escapes[fn] || len(m.callers[fn]) == 0 || len(path) > 3 {
		return false
	}
	for _, p := range path {
		if p == fn {
			return false
		}
	}
	for c := range m.callers[fn] {
		if m.runs[c] == nil || !m.loopEnds(f, c, l, append(path, fn)) {
			return false
		}
	}
	return true
}

// sources checks that what delivers lines uses up what it has.
func (m *modules) sources(report reporter) {
	r := m.r
	for _, fn := range m.fs {
		if fn.Name() != "GetPhrase" || fn.Signature.Recv() == nil {
			continue
		}
		r.count("sources of lines", 1)
		x := m.runs[fn]
		p, ok := x.args[0].(VPtr)
		for _, o := range x.outs {
			t, is := o.v.(VTuple)
			if is && len(t) == 2 && o.st.nilness(t[1]) == 2 {
				continue
			}
			if in, is := o.st.heap["§in"].V.(VLin); is && o.st.z().lb(in.Lin) >= 1 {
				continue
			}
			if !ok || !shrunk(o.st, x.start.load(p), o.st.load(p)) {
				report("loop", fn.RelString(r.p.Types), r.p.pos(fn.Pos()), fn.RelString(r.p.Types)+" can deliver the same line again and again")
				break
			}
		}
	}
}

// shrunk tells whether some slice in v has lost elements or some counter has
// grown.
func shrunk(s *State, old, v Value) bool {
	a, ok1 := lengthOf(s, old)
	b, ok2 := lengthOf(s, v)
	if ok1 && ok2 && s.z().ub(b.sub(a)) < 0 {
		return true
	}
	switch x := v.(type) {
	case VLin:
		y, ok := old.(VLin)
		return ok && s.z().lb(x.Lin.sub(y.Lin)) > 0
	case VStruct:
		if u, ok := old.(VUnk); ok {
			old = s.expand(u)
		}
		y, ok := old.(VStruct)
		if !ok {
			return false
		}
		for i := range x.F {
			if i < len(y.F) && shrunk(s, y.F[i], x.F[i]) {
				return true
			}
		}
	}
	return false
}

// waits describes an operation that waits for something else.
func waits(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Select:
		return "selects a channel"
	case *ssa.Send:
		return "sends to a channel"
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			return "receives from a channel"
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
			return "ranges over a channel"
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
			return "calls " + f.String()
		}
	}
	return ""
}

// refused lists the types that no validator accepts in a field of interface
// type, without asking the value itself.
func (r *Report) refused() map[[2]string]bool {
	no, yes := map[[2]string]bool{}, map[[2]string]bool{}
	for _, nt := range r.p.Named() {
		u, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		valid := r.p.Method(types.NewPointer(nt), "valid")
		for i := 0; i < u.NumFields(); i++ {
			T := u.Field(i).Type()
			in, ok := T.Underlying().(*types.Interface)
			if !ok || in.NumMethods() == 0 {
				continue
			}
			for _, ct := range r.p.Named() {
				for _, t := range []types.Type{ct, types.NewPointer(ct)} {
					if types.IsInterface(ct) || !types.Implements(t, in) {
						continue
					}
					k := [2]string{T.String(), t.String()}
					if valid == nil || len(valid.Params) != 1 || r.accepts(valid, i, T, t) {
						yes[k] = true
					} else {
						no[k] = true
					}
				}
			}
		}
	}
	for k := range yes {
		delete(no, k)
	}
	return no
}

// accepts tells whether a validator may accept a value of type t in a field or
// asks the value.
func (r *Report) accepts(valid *ssa.Function, field int, T, t types.Type) bool {
	x := r.modular(valid, nil, func(st *State, args []Value) {
		v := st.mk(t, "§dyn")
		if p, ok := t.(*types.Pointer); ok {
			st.heap["§dyn^"] = Obj{p.Elem(), st.mk(p.Elem(), "§dyn^")}
			v = VPtr{Obj: "§dyn^"}
		}
		p, ok := args[0].(VPtr)
		if !ok {
			if s, ok := args[0].(VStruct); ok {
				f := append([]Value(nil), s.F...)
				f[field] = VIface{t, v}
				args[0] = VStruct{s.T, f}
			}
			return
		}
		st.store(VPtr{Obj: p.Obj, Path: []PE{{F: field}}}, VIface{t, v})
	})
	for f := range x.calls {
		if rt := f.Signature.Recv().Type(); types.Identical(rt, t) || types.Identical(types.NewPointer(rt), t) {
			return true
		}
	}
	if len(x.e.undec) > 0 {
		return true
	}
	for _, o := range x.outs {
		if o.st.nilness(o.v) != 2 {
			return true
		}
	}
	return false
}
