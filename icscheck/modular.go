package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Function by function analysis with arbitrary arguments: that no operation can
// panic, and that every loop makes progress. Decoders, encoders and validators
// are analysed on their own and stand for anything of their type where they are
// called; other functions are followed into.

// loop is a natural loop.
type loop struct {
	head    *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	meas    []measure
	scanned map[string]bool
	iter    bool // every turn takes the next element of an iterator
}

// measure is a quantity that may shrink with every turn.
type measure struct {
	name string
	// eval gives the value at the head of the loop
	eval func(s *State) (Lin, bool)
	free bool // never negative
	up   bool // grows instead, up to some bound
}

func loopsOf(e *Engine, fn *ssa.Function) []*loop {
	ls := naturalLoops(fn)
	for _, l := range ls {
		l.candidates(e, fn)
	}
	return ls
}

func naturalLoops(fn *ssa.Function) []*loop {
	by := map[*ssa.BasicBlock]*loop{}
	var ls []*loop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
				ls = append(ls, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return ls
}

// irreducible reports a cycle that is no natural loop.
func irreducible(fn *ssa.Function, ls []*loop) bool {
	back := map[[2]*ssa.BasicBlock]bool{}
	for _, l := range ls {
		for _, p := range l.head.Preds {
			if l.blocks[p] {
				back[[2]*ssa.BasicBlock{p, l.head}] = true
			}
		}
	}
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if back[[2]*ssa.BasicBlock{b, s}] {
				continue
			}
			if state[s] == 1 || state[s] == 0 && dfs(s) {
				return true
			}
		}
		state[b] = 2
		return false
	}
	return len(fn.Blocks) > 0 && dfs(fn.Blocks[0])
}

// expr evaluates an SSA value at the head of the loop.
func (l *loop) expr(e *Engine, s *State, v ssa.Value, depth int) (Value, bool) {
	if depth > 8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.val(s, v), true
	case *ssa.Parameter, *ssa.FreeVar:
		r, ok := s.env[v]
		return r, ok
	case ssa.Instruction:
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.head || !l.blocks[x.Block()] {
			r, ok := s.env[v]
			return r, ok
		}
	}
	lin := func(v ssa.Value) (Lin, bool) {
		r, ok := l.expr(e, s, v, depth+1)
		if !ok {
			return Lin{}, false
		}
		q, ok := r.(VLin)
		return q.Lin, ok
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok1 := lin(x.X)
		b, ok2 := lin(x.Y)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch x.Op {
		case token.ADD:
			return VLin{a.add(b)}, true
		case token.SUB:
			return VLin{a.sub(b)}, true
		}
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			return l.expr(e, s, x.X, depth+1)
		}
	case *ssa.ChangeType:
		return l.expr(e, s, x.X, depth+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			r, ok := l.expr(e, s, x.Call.Args[0], depth+1)
			if !ok {
				return nil, false
			}
			n, ok := lengthOf(s, r)
			return VLin{n}, ok
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			r, ok := l.expr(e, s, x.X, depth+1)
			if !ok {
				return nil, false
			}
			if p, ok := r.(VPtr); ok {
				return s.load(p), true
			}
		}
	case *ssa.FieldAddr:
		r, ok := l.expr(e, s, x.X, depth+1)
		if !ok {
			return nil, false
		}
		if p, ok := r.(VPtr); ok {
			return VPtr{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], PE{F: x.Field})}, true
		}
	}
	return nil, false
}

func lengthOf(s *State, v Value) (Lin, bool) {
	switch x := v.(type) {
	case VSlice:
		return x.Len, true
	case VSeq:
		return s.seqLen(x), true
	case VBytes:
		return s.seqLen(x.S), true
	case VNil:
		return Lin{}, true
	case VTok:
		return s.seqLen(x.Src), true
	}
	return Lin{}, false
}

// candidates lists what may shrink with each turn.
func (l *loop) candidates(e *Engine, fn *ssa.Function) {
	quantity := func(v ssa.Value) {
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				l.meas = append(l.meas, measure{name: v.Name(), eval: func(s *State) (Lin, bool) {
					r, ok := l.expr(e, s, v, 0)
					if !ok {
						return Lin{}, false
					}
					q, ok := r.(VLin)
					return q.Lin, ok
				}})
			}
			if u.Info()&types.IsString == 0 {
				return
			}
		case *types.Slice, *types.Struct:
		default:
			return
		}
		l.meas = append(l.meas, measure{name: "length of " + v.Name(), free: true, eval: func(s *State) (Lin, bool) {
			r, ok := l.expr(e, s, v, 0)
			if !ok {
				return Lin{}, false
			}
			return lengthOf(s, r)
		}})
	}
	var bs []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if l.blocks[b] {
			bs = append(bs, b)
		}
	}
	for _, b := range bs {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b == l.head {
					quantity(x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					quantity(x)
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				if !isInt(x.X.Type()) {
					continue
				}
				for _, sign := range []int{1, -1} {
					l.meas = append(l.meas, measure{name: fmt.Sprintf("%s%+d%s", x.X.Name(), -sign, x.Y.Name()), eval: func(s *State) (Lin, bool) {
						a, ok1 := l.expr(e, s, x.X, 0)
						b, ok2 := l.expr(e, s, x.Y, 0)
						p, ok3 := a.(VLin)
						q, ok4 := b.(VLin)
						if !ok1 || !ok2 || !ok3 || !ok4 {
							return Lin{}, false
						}
						if sign > 0 {
							return p.Lin.sub(q.Lin), true
						}
						return q.Lin.sub(p.Lin), true
					}})
				}
			case *ssa.Next:
				it, ok := x.Iter.(*ssa.Range)
				if !ok || l.blocks[it.Block()] {
					continue
				}
				all := true
				for _, p := range l.head.Preds {
					if l.blocks[p] && !b.Dominates(p) {
						all = false
					}
				}
				l.iter = l.iter || all
			}
		}
	}
	l.meas = append(l.meas, counted("input", "§in"))
}

// scanners adds what scanners have left to read.
func (l *loop) scanners(s *State) {
	for _, id := range sortedKeys(s.heap) {
		if _, ok := s.heap[id].V.(VTok); !ok || l.scanned[id] {
			continue
		}
		if l.scanned == nil {
			l.scanned = map[string]bool{}
		}
		l.scanned[id] = true
		l.meas = append(l.meas, counted("read by "+id, "§c:"+id))
	}
}

// counted measures what is left of something finite by what has been used up.
func counted(name, id string) measure {
	return measure{name: name, free: true, up: true, eval: func(s *State) (Lin, bool) {
		q, ok := s.heap[id].V.(VLin)
		return q.Lin, ok
	}}
}

// count adds to a counter.
func (m *modRun) count(s *State, id string, n int64) {
	q, _ := s.heap[id].V.(VLin)
	m.e.roots[id] = true
	s.heap[id] = Obj{types.Typ[types.Int], VLin{q.Lin.addC(n)}}
}

// read counts what scanners read.
func (m *modRun) read(c *Call, old, t VTok) {
	p, ok := c.tokPtr()
	if !ok {
		return
	}
	n := c.st.z().lb(c.st.seqLen(t.Pend).sub(c.st.seqLen(old.Pend)))
	if n < 0 {
		n = 0
	}
	m.count(c.st, "§c:"+p.Obj, min(n, 1))
}

// loopTurns is what is known about the ways from the head of a loop back to it.
type loopTurns struct {
	ways []turn
}

// turn is a way back to the head.
type turn struct {
	less map[int]bool // measures that shrink
	more map[int]bool // measures that may grow, or be negative
	st   *State
}

// modRun is the analysis of one function.
type modRun struct {
	r     *Report
	e     *Engine
	fn    *ssa.Function
	start *State
	args  []Value
	outs  []Out
	calls map[*ssa.Function]bool   // functions stood for
	inner map[*ssa.Function]bool   // functions whose loops are judged besides those of fn
	loops map[*ssa.BasicBlock]bool // by their heads, whether they end
}

// judge follows one turn of each loop of f from the states its head is reached
// with.
func (m *modRun) judge(f *ssa.Function, at func(b *ssa.BasicBlock) []*State) {
	if f != m.fn && !m.inner[f] {
		return
	}
	e := m.e
	old := *e
	defer func() {
		e.onParts, e.onEdge, e.noOblig, e.mergeHeads, e.fine, e.stack = old.onParts, old.onEdge, old.noOblig, old.mergeHeads, old.fine, old.stack
	}()
	e.onParts, e.noOblig = nil, true
	if n := len(e.stack); n > 0 && e.stack[n-1] == f {
		e.stack = e.stack[:n-1]
	}
	for _, l := range loopsOf(e, f) {
		ok := l.iter || m.turns(f, l, at(l.head), 0).ends() || m.turns(f, l, at(l.head), 16).ends()
		if old, seen := m.loops[l.head]; seen {
			ok = ok && old
		}
		m.loops[l.head] = ok
	}
}

// turns follows the ways from the head of the loop back to it, starting with
// the states in at.
func (m *modRun) turns(f *ssa.Function, l *loop, at []*State, fine int) *loopTurns {
	e := m.e
	e.fine = fine
	disc := e.disc
	defer func() { e.disc = disc }()
	lt := &loopTurns{}
	if fine > 0 {
		e.disc = func(s *State, fn *ssa.Function) string {
			d := ""
			if disc != nil {
				d = disc(s, fn)
			}
			return d + "|" + l.used(s)
		}
	}
	for _, s := range at {
		s = s.clone()
		l.scanners(s)
		for i, q := range l.meas {
			n := fmt.Sprintf("§m%d", i)
			delete(s.heap, n)
			if v, ok := q.eval(s); ok {
				s.heap[n] = Obj{types.Typ[types.Int], VLin{v}}
				e.roots[n] = true
			}
		}
		m.turn(f, l, s, lt)
	}
	if fine > 0 && len(lt.ways) < 64 {
		// a second turn that may not be possible
		for _, i := range lt.left() {
			w := &loopTurns{}
			m.turn(f, l, lt.ways[i].st, w)
			lt.ways = append(lt.ways, w.ways...)
			lt.ways[i].st = nil
		}
		var ways []turn
		for _, t := range lt.ways {
			if t.st != nil {
				ways = append(ways, t)
			}
		}
		lt.ways = ways
	}
	return lt
}

// turn follows one turn.
func (m *modRun) turn(f *ssa.Function, l *loop, s *State, lt *loopTurns) {
	m.e.onEdge = func(s *State, from, to *ssa.BasicBlock) {
		if to.Parent() != f {
			return
		}
		if to == l.head {
			m.compare(s, l, lt)
			s.dead = true
		} else if !l.blocks[to] {
			s.dead = true
		}
	}
	m.e.runAt(f, l.head, s)
}

// used tells what has been used up in this turn.
func (l *loop) used(s *State) string {
	d := ""
	for i, q := range l.meas {
		o, ok := s.heap[fmt.Sprintf("§m%d", i)]
		if !q.up || !ok {
			continue
		}
		now, ok := q.eval(s)
		if ok && s.z().ub(o.V.(VLin).Lin.sub(now)) < 0 {
			d += "+"
		} else {
			d += "-"
		}
	}
	return d
}

// compare compares the measures at the end of a turn.
func (m *modRun) compare(s *State, l *loop, lt *loopTurns) {
	t := turn{map[int]bool{}, map[int]bool{}, s.clone()}
	for i, q := range l.meas {
		o, ok := s.heap[fmt.Sprintf("§m%d", i)]
		now, ok2 := q.eval(s)
		if !ok || !ok2 {
			t.more[i] = true
			continue
		}
		old := o.V.(VLin).Lin
		d := now.sub(old)
		if q.up {
			d = old.sub(now)
		}
		ub := s.z().ub(d)
		low := s.z().ub(Lin{}.sub(old))
		if m.e.debug != "" && strings.Contains(m.fn.String(), m.e.debug) {
			fmt.Printf("turn %s ->%s %s: old %s now %s ub %d -low %d\n", m.fn.Name(), l.head, q.name, old.key(), now.key(), ub, low)
		}
		if !q.free && low > 0 || ub > 0 {
			t.more[i] = true
			continue
		}
		if ub < 0 {
			t.less[i] = true
		}
	}
	lt.ways = append(lt.ways, t)
}

// left lists the ways on which no measure shrinks. A measure counts when it
// grows on none of the ways on which those counted before stay the same.
func (lt *loopTurns) left() []int {
	var left []int
	for i := range lt.ways {
		left = append(left, i)
	}
	for {
		more := map[int]bool{}
		for _, i := range left {
			for j := range lt.ways[i].more {
				more[j] = true
			}
		}
		var next []int
		for _, i := range left {
			ok := false
			for j := range lt.ways[i].less {
				ok = ok || !more[j]
			}
			if !ok {
				next = append(next, i)
			}
		}
		if len(next) == len(left) {
			return left
		}
		left = next
	}
}

// ends tells whether the loop always ends.
func (lt *loopTurns) ends() bool { return len(lt.left()) == 0 }

// stubbed functions are analysed on their own only.
func stubbed(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Synthetic != "" {
		return false
	}
	switch fn.Name() {
	case "decode", "encode", "aencode", "valid":
		return true
	}
	return false
}

func (m *modRun) hook(c *Call) ([]Out, bool) {
	m.receiver(c)
	m.needs(c)
	if c.name == "invoke.GetPhrase" || c.name == "(*"+parserPath+".Parser).GetPhrase" {
		return m.getPhrase(c), true
	}
	switch c.name {
	case parserPath + ".NewStringTokeniser", parserPath + ".NewByteTokeniser":
		id := "§c:tok" + siteTok(c.site)
		m.e.roots[id] = true
		c.st.heap[id] = Obj{types.Typ[types.Int], VLin{Lin{}}}
		return nil, false
	}
	if q, ok := isWrite(c); ok {
		return writeOuts(c, c.st, c.st.seqLen(q)), true
	}
	if strings.HasPrefix(c.name, "(*"+parserPath+".Parser).") {
		return m.parserCall(c)
	}
	if outs, ok := m.input(c); ok {
		return outs, true
	}
	fn := c.fn
	if fn == nil || !c.e.p.inPkg(fn) || !stubbed(fn) {
		return nil, false
	}
	m.calls[fn] = true
	// the receiver must exist
	if isPointer(fn.Signature.Recv().Type()) {
		if _, ok := c.e.ptr(c.st, c.args[0], c.site, "receiver"); !ok {
			return nil, true
		}
	}
	outs := c.e.unknownCall(c)
	if rs := fn.Signature.Results(); rs.Len() == 1 && types.IsInterface(rs.At(0).Type()) {
		var res []Out
		for _, o := range outs {
			bad := o.st.clone()
			res = append(res, Out{o.st, VNil{}}, Out{bad, VErr{ID: "error of " + fn.Name()}})
		}
		return res, true
	}
	return outs, true
}

// input models the reading of input, of which there is only so much.
func (m *modRun) input(c *Call) ([]Out, bool) {
	if !m.e.p.inPkg(c.in) || c.fn != nil && m.e.p.inPkg(c.fn) {
		return nil, false
	}
	name := c.name[strings.LastIndexByte(c.name, '.')+1:]
	switch {
	case strings.HasPrefix(c.name, "invoke."):
	case strings.HasPrefix(c.name, "(*bufio.Reader)."), strings.HasPrefix(c.name, "(*bytes.Buffer)."), strings.HasPrefix(c.name, "(*bytes.Reader)."), strings.HasPrefix(c.name, "(*strings.Reader)."), strings.HasPrefix(c.name, "(*bufio.Scanner)."):
	case c.name == "io.ReadFull" || c.name == "io.ReadAtLeast":
	default:
		return nil, false
	}
	var src, buf Value
	if len(c.args) > 0 {
		src = c.args[0]
	}
	if len(c.args) > 1 {
		buf = c.args[1]
	}
	res := c.sig.Results()
	last := res.Len() - 1
	if last < 0 {
		return nil, false
	}
	held := "§held:" + vkey(src)
	had, seen := c.st.heap[held].V.(VLin)
	if name != "Buffered" {
		delete(c.st.heap, held)
	}
	var used int64
	switch name {
	case "ReadByte", "ReadRune", "Discard", "Read", "ReadBytes", "ReadString", "ReadSlice", "ReadLine", "ReadFull", "ReadAtLeast":
		used = 1
	case "UnreadByte", "UnreadRune":
		used = -1
	case "Peek":
	case "Scan":
		var outs []Out
		for _, o := range c.e.unknownCall(c) {
			no := o.st.clone()
			m.count(o.st, "§in", 1)
			outs = append(outs, Out{o.st, VBool(true)}, Out{no, VBool(false)})
		}
		return outs, true
	default:
		return nil, false
	}
	var want Lin
	switch name {
	case "Peek", "Discard":
		q, ok := buf.(VLin)
		if !ok {
			return nil, false
		}
		want = q.Lin
		if name == "Discard" {
			used = max(0, min(1, c.st.z().lb(want)))
		}
	case "Read", "ReadFull", "ReadAtLeast":
		n, ok := lengthOf(c.st, buf)
		if !ok {
			return nil, false
		}
		want = n
	}
	var outs []Out
	for _, o := range c.e.unknownCall(c) {
		t, ok := o.v.(VTuple)
		if !ok {
			t = VTuple{o.v}
		}
		ret := func(s *State, err Value) {
			t := append(VTuple{}, t...)
			t[last] = err
			if last == 0 {
				outs = append(outs, Out{s, err})
				return
			}
			outs = append(outs, Out{s, t})
		}
		good, bad := o.st, o.st.clone()
		for _, s := range []*State{good, bad} {
			switch name {
			case "Discard", "Read", "ReadFull", "ReadAtLeast":
				if n, ok := t[0].(VLin); ok {
					s.z().assumeLE(Lin{}.sub(n.Lin))
					s.z().assumeLE(n.Lin.sub(want))
					if s == good && (name == "Discard" || name == "ReadFull") {
						s.z().assumeLE(want.sub(n.Lin))
					}
				}
			case "Peek":
				if n, ok := lengthOf(s, t[0]); ok {
					s.z().assumeLE(n.sub(want))
					if s == good {
						s.z().assumeLE(want.sub(n))
						m.e.roots[held] = true
						s.heap[held] = Obj{types.Typ[types.Int], VLin{n}}
					}
				}
			}
		}
		m.count(good, "§in", used)
		ret(good, VNil{})
		if name == "Discard" && seen && good.z().ub(want.sub(had.Lin)) <= 0 {
			// what has been looked at is there
			continue
		}
		if n, ok := t[0].(VLin); ok && used > 0 && (name == "Read" || name == "ReadFull" || name == "ReadAtLeast" || name == "Discard") {
			some := bad.clone()
			some.z().assumeLE(linConst(1).sub(n.Lin))
			m.count(some, "§in", 1)
			if !some.z().bot {
				ret(some, VErr{ID: "read error"})
			}
			bad.z().assumeEQ(n.Lin)
		}
		ret(bad, VErr{ID: "read error"})
	}
	return outs, true
}

// receiver checks that methods of other packages are not called with nil.
func (m *modRun) receiver(c *Call) {
	if c.fn == nil || c.e.p.inPkg(c.fn) || c.fn.Signature.Recv() == nil || len(c.args) == 0 || !c.e.p.inPkg(c.in) {
		return
	}
	T := c.fn.Signature.Recv().Type()
	if !isPointer(T) || strings.HasSuffix(T.String(), "time.Location") {
		return
	}
	n := c.st.nilness(c.args[0])
	c.e.obligation("nil", c.site, n == 2, "receiver of "+c.fn.Name(), "it may be nil")
}

// needs checks what functions of other packages panic without.
func (m *modRun) needs(c *Call) {
	if c.fn == nil || !c.e.p.inPkg(c.in) {
		return
	}
	what := ""
	ok := true
	switch c.name {
	case "time.Date":
		what, ok = "location of time.Date", c.st.nilness(c.args[7]) == 2
	case "(time.Time).In":
		what, ok = "location of Time.In", c.st.nilness(c.args[1]) == 2
	case "time.ParseInLocation":
		what, ok = "location of time.ParseInLocation", c.st.nilness(c.args[2]) == 2
	case "strings.Repeat", "bytes.Repeat":
		n, is := c.args[1].(VLin)
		what, ok = "count of Repeat", is && c.st.z().lb(n.Lin) >= 0
	case "unicode/utf8.EncodeRune":
		n, is := lengthOf(c.st, c.args[0])
		what, ok = "length of the buffer of EncodeRune", is && c.st.z().lb(n) >= 4
	default:
		return
	}
	c.e.obligation("needs", c.site, ok, what, "it may be missing or too small")
}

// getPhrase delivers a content line, the end of input or an error.
func (m *modRun) getPhrase(c *Call) []Out {
	tok := c.fresh()
	sig := c.sig
	PT := sig.Results().At(0).Type()
	DT := PT.Underlying().(*types.Struct).Field(1).Type()
	kind, _ := constInt(m.r.p, modPath, "phraseContentLine")
	phrase := func(s *State, t int64, id string, min int64) Value {
		s.heap["§kind"] = Obj{types.Typ[types.Int], VLin{linConst(t)}}
		d := s.mk(DT, id+tok).(VSlice)
		s.z().assumeLE(linConst(min).sub(d.Len))
		return VStruct{T: PT, F: []Value{VLin{linConst(t)}, d}}
	}
	good := c.st.clone()
	m.count(good, "§in", 1)
	done := c.st.clone()
	bad := c.st.clone()
	return []Out{
		{good, VTuple{phrase(good, kind, "§line", 2), VNil{}}},
		{done, VTuple{phrase(done, -1, "§done", 0), VNil{}}},
		{bad, VTuple{phrase(bad, -2, "§bad", 0), VErr{ID: "read error"}}},
	}
}

// kept checks that lines put aside for later are content lines: they are
// delivered as such.
func (m *modRun) kept(s *State, in ssa.Instruction, elems VSlice) {
	if u, ok := elems.B.(VUnk); ok && u.T == nil {
		return
	}
	v := in.(ssa.Value)
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	if n, ok := types.Unalias(sl.Elem()).(*types.Named); !ok || n.Obj().Name() != "Phrase" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != parserPath {
		return
	}
	ok = elems.Len.isConst()
	for i := int64(0); ok && i < elems.Len.C; i++ {
		ph, is := m.e.elem(s, elems, linConst(i)).(VStruct)
		if !is {
			ok = false
			break
		}
		n, is := lengthOf(s, ph.F[1])
		ok = is && s.z().lb(n) >= 2
	}
	m.e.obligation("kept", in, ok, "line put aside", "it may be no content line")
}

// parserCall models the methods with which a phrase is put together: taking a
// token uses up input.
func (m *modRun) parserCall(c *Call) ([]Out, bool) {
	if m.e.p.inPkg(c.in) && c.sig.Results().Len() == 1 {
		if b, ok := c.sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			outs := c.e.unknownCall(c)
			var res []Out
			for _, o := range outs {
				no := o.st.clone()
				m.count(o.st, "§in", 1)
				res = append(res, Out{o.st, VBool(true)}, Out{no, VBool(false)})
			}
			return res, true
		}
	}
	if m.e.p.inPkg(c.in) {
		return c.e.unknownCall(c), true
	}
	return nil, false
}

// modular analyses fn with arbitrary arguments.
func (r *Report) modular(fn *ssa.Function, inner map[*ssa.Function]bool, prep func(st *State, args []Value)) *modRun {
	e := NewEngine(r.p)
	m := &modRun{r: r, e: e, fn: fn, inner: inner, calls: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]bool{}}
	e.hooks = []Hook{m.hook}
	e.onParts, e.onTok, e.onElems = m.judge, m.read, m.kept
	e.mergeHeads = true
	e.Budget, e.maxPart = 400000, 12
	st := e.state()
	st.heap["§in"] = Obj{types.Typ[types.Int], VLin{Lin{}}}
	st.heap["§kind"] = Obj{types.Typ[types.Int], VLin{Lin{}}}
	e.roots["§in"], e.roots["§kind"] = true, true
	e.disc = func(s *State, _ *ssa.Function) string {
		d := vkey(s.heap["§kind"].V)
		// whether interfaces within the arguments are set
		for i := range fn.Params {
			v, ok := s.heap[fmt.Sprintf("§p%d^", i)].V.(VStruct)
			if !ok {
				continue
			}
			for _, f := range v.F {
				if u, ok := f.(VUnk); ok && u.T != nil && types.IsInterface(u.T) || isIface(f) {
					d += fmt.Sprintf("|%T%d", f, s.nilness(f))
				}
			}
		}
		return d
	}
	var args []Value
	for i, q := range fn.Params {
		id := fmt.Sprintf("§p%d", i)
		if isTokeniser(elemOf(q.Type())) {
			m.count(st, "§c:"+id+"t", 0)
		}
		if isTokeniser(q.Type()) {
			args = append(args, mkTok(st, q.Type(), id+"t", st.mk(types.Typ[types.String], id).(VSeq)))
			continue
		}
		if p, ok := q.Type().Underlying().(*types.Pointer); ok && isTokeniser(p.Elem()) {
			st.heap[id+"^"] = Obj{p.Elem(), mkTok(st, p.Elem(), id+"t", st.mk(types.Typ[types.String], id).(VSeq))}
			e.roots[id+"^"] = true
			args = append(args, VPtr{Obj: id + "^"})
			continue
		}
		if p, ok := q.Type().Underlying().(*types.Pointer); ok {
			st.heap[id+"^"] = Obj{p.Elem(), st.mk(p.Elem(), id+"^")}
			e.roots[id+"^"] = true
			args = append(args, VPtr{Obj: id + "^"})
			continue
		}
		v := st.mk(q.Type(), id)
		if types.IsInterface(q.Type()) {
			st.setFact(id, Fact{Nil: 2})
		}
		args = append(args, v)
	}
	var free []Value
	for i, q := range fn.FreeVars {
		id := fmt.Sprintf("§f%d", i)
		if p, ok := q.Type().Underlying().(*types.Pointer); ok {
			st.heap[id+"^"] = Obj{p.Elem(), st.mk(p.Elem(), id+"^")}
			e.roots[id+"^"] = true
			free = append(free, VPtr{Obj: id + "^"})
			continue
		}
		free = append(free, st.mk(q.Type(), id))
	}
	for _, id := range sortedKeys(st.heap) {
		m.given(st, st.heap[id].V)
	}
	if prep != nil {
		prep(st, args)
	}
	m.start, m.args = st.clone(), args
	m.outs = e.run(fn, args, free, st)
	return m
}

func isIface(v Value) bool {
	switch v.(type) {
	case VIface, VAlt:
		return true
	}
	return false
}

func elemOf(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

func isTokeniser(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Name() == "Tokeniser" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == parserPath
}

// given notes that the readers and writers that were passed in are there, and
// which fields are never negative.
func (m *modRun) given(s *State, v Value) {
	switch x := v.(type) {
	case VStruct:
		for i, f := range x.F {
			m.given(s, f)
			if l, ok := f.(VLin); ok && m.r.p.neverNegative(x.T, i) {
				s.z().assumeLE(Lin{}.sub(l.Lin))
			}
		}
	case VUnk:
		if n, ok := types.Unalias(x.T).(*types.Named); ok && types.IsInterface(n) && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
			s.setFact(x.ID, Fact{Nil: 2})
		} else if ok && n.Obj().Pkg() == m.r.p.Types {
			if _, ok := n.Underlying().(*types.Struct); ok {
				m.given(s, s.expand(x))
			}
		}
	}
}

// neverNegative tells whether nothing negative is ever put into a field that
// other packages cannot set.
func (p *Prog) neverNegative(T types.Type, field int) bool {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok {
		return false
	}
	u, ok := n.Underlying().(*types.Struct)
	if !ok || field >= u.NumFields() || u.Field(field).Exported() && n.Obj().Exported() {
		return false
	}
	for f := range p.All {
		if !p.inPkg(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(elemOf(fa.X.Type()), T) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr != fa || !notNegative(x.Val, T, field, nil) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// notNegative tells whether v is not negative as long as the field is not.
func notNegative(v ssa.Value, T types.Type, field int, seen []ssa.Value) bool {
	for _, s := range seen {
		if s == v {
			return true
		}
	}
	seen = append(seen, v)
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Int64() >= 0
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.QUO, token.REM, token.AND, token.SHR:
			return notNegative(x.X, T, field, seen) && notNegative(x.Y, T, field, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !notNegative(e, T, field, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && fa.Field == field && types.Identical(elemOf(fa.X.Type()), T)
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy")
	}
	return false
}
