package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// procStart and timeLimit bound the time of a check: what is not decided by
// then counts as undecided.
var procStart = time.Now()

const timeLimit = 800 * time.Second

// Out is one way a call or instruction can complete.
type Out struct {
	st *State
	v  Value
}

// Call describes a call met during analysis.
type Call struct {
	e     *Engine
	st    *State
	site  ssa.CallInstruction
	fn    *ssa.Function // static callee or resolved method, may be nil
	name  string        // full name of the callee; "invoke.M" for unresolved interface methods
	args  []Value       // receiver first
	in    *ssa.Function // calling function
	iface types.Type    // interface type for invoke
	recv  Value         // callee operand or interface receiver
	sig   *types.Signature
}

// Hook may take over the handling of a call.
type Hook func(c *Call) (outs []Out, handled bool)

// Oblig is a proof obligation met during analysis (bounds, nil, ...).
type Oblig struct {
	Rule, Fn, Pos, What string
	Met                 bool
	Detail              string
}

// Engine runs an abstract interpretation over the SSA form.
type Engine struct {
	p            *Prog
	hooks        []Hook
	roots        map[string]bool
	base         map[string]Obj
	stack        []*ssa.Function
	oblig        map[string]*Oblig
	undec        map[string]bool
	Funcs        map[*ssa.Function]bool
	Sites        map[ssa.Instruction]bool
	Blocks       int
	Joins        int
	Steps        int
	Budget       int
	deadline     time.Time
	exhausted    bool // the budget
	debug        string
	unroll       bool                                     // follow loops with constant counters turn by turn
	disc         func(st *State, fn *ssa.Function) string // extra partitioning
	onLoad       func(st *State, p VPtr, in ssa.Instruction)
	onStore      func(st *State, p VPtr, v Value, in ssa.Instruction)
	onRet        func(fn *ssa.Function, o Out)
	onEdge       func(st *State, from, to *ssa.BasicBlock)
	onParts      func(fn *ssa.Function, at func(b *ssa.BasicBlock) []*State)
	onElems      func(s *State, in ssa.Instruction, elems VSlice) // appended
	mergeHeads   bool                                             // one state at the head of a loop
	ghostAt      map[string]string                                // backing object → ghost index its indexes are split against
	noOblig      bool
	inInit       bool
	itoaOf       map[string]Lin
	onTok        func(c *Call, old, new VTok)
	onNext       func(s *State, it VIter, ch string)
	onAppend     func(s *State, in ssa.Instruction, a, b VSeq)
	onAppendElem func(s *State, in ssa.Instruction, at Lin, elems []Value)
	maxPart      int
	maxSeq       int
	fine         int // states with different data are kept apart up to this number
}

type fnInfo struct {
	rpo     map[*ssa.BasicBlock]int
	liveIn  []map[ssa.Value]bool
	counter map[ssa.Value]bool
	heads   map[*ssa.BasicBlock]bool // of loops
}

func NewEngine(p *Prog) *Engine {
	return &Engine{p: p, roots: map[string]bool{}, oblig: map[string]*Oblig{}, undec: map[string]bool{}, Funcs: map[*ssa.Function]bool{}, Sites: map[ssa.Instruction]bool{}, Budget: 3000000, maxPart: 256, maxSeq: 12, base: p.base, debug: os.Getenv("DBG")}
}

func (e *Engine) undecided(f string, a ...any) { e.undec[fmt.Sprintf(f, a...)] = true }

func (e *Engine) obligation(rule string, in ssa.Instruction, ok bool, what, detail string) {
	if e.noOblig || e.inInit {
		return
	}
	k := rule + "|" + in.Parent().RelString(e.p.Types) + "|" + instrID(in)
	o := e.oblig[k]
	if o == nil {
		o = &Oblig{Rule: rule, Fn: in.Parent().RelString(e.p.Types), Pos: e.p.pos(instrPos(in)), What: what, Met: true}
		e.oblig[k] = o
	}
	if !ok && o.Met {
		o.Met = false
		o.Detail = detail
	}
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// fall back to the nearest instruction with a position
	b := in.Block()
	best := token.NoPos
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			best = i.Pos()
		}
		if i == in && best.IsValid() {
			break
		}
	}
	return best
}

func instrID(in ssa.Instruction) string {
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", in.Block().Index, i)
		}
	}
	return "?"
}

func siteTok(in ssa.Instruction) string {
	return "⟨" + fnIndex(in.Parent()) + ":" + instrID(in) + "⟩"
}

// loopDepth counts the loops each block is part of.
func loopDepth(fn *ssa.Function) map[*ssa.BasicBlock]int {
	depth := map[*ssa.BasicBlock]int{}
	for _, l := range naturalLoops(fn) {
		for b := range l.blocks {
			depth[b]++
		}
	}
	return depth
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := e.p.info.Load(fn); ok {
		return i.(*fnInfo)
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, counter: map[ssa.Value]bool{}, heads: map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				in.heads[h] = true
			}
		}
	}
	depth := loopDepth(fn)
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// a loop is finished with before what follows it
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(succs, func(i, j int) bool { return depth[succs[i]] < depth[succs[j]] })
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range order {
		in.rpo[b] = len(order) - i
	}
	// liveness
	n := len(fn.Blocks)
	in.liveIn = make([]map[ssa.Value]bool, n)
	for i := range in.liveIn {
		in.liveIn[i] = map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for _, b := range order {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range in.liveIn[s.Index] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if isVar(phi.Edges[pi]) {
						live[phi.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if phi, ok := i.(*ssa.Phi); ok {
					_ = phi
					continue // phi results are live on entry if used
				}
				if v, ok := i.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range i.Operands(nil) {
					if isVar(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in.liveIn[b.Index]) {
				in.liveIn[b.Index] = live
				changed = true
			}
		}
	}
	// counters: integers that depend on themselves through arithmetic
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok || !isInt(phi.Type()) {
				continue
			}
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value, arith bool) bool
			walk = func(v ssa.Value, arith bool) bool {
				if v == phi && arith {
					return true
				}
				if seen[v] && v != phi {
					return false
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Phi:
					if x == phi && len(seen) > 1 {
						return false
					}
					for _, ed := range x.Edges {
						if ed != v && walk(ed, arith) {
							return true
						}
					}
				case *ssa.BinOp:
					return walk(x.X, true) || walk(x.Y, true)
				case *ssa.Convert:
					return walk(x.X, arith)
				case *ssa.ChangeType:
					return walk(x.X, arith)
				}
				return false
			}
			if walk(phi, false) {
				in.counter[phi] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || in.counter[v] {
					continue
				}
				var ops []ssa.Value
				switch x := i.(type) {
				case *ssa.BinOp:
					if isInt(x.Type()) {
						ops = []ssa.Value{x.X, x.Y}
					}
				case *ssa.Convert:
					ops = []ssa.Value{x.X}
				case *ssa.ChangeType:
					ops = []ssa.Value{x.X}
				case *ssa.Phi:
					ops = x.Edges
				}
				for _, o := range ops {
					if in.counter[o] {
						in.counter[v] = true
						changed = true
					}
				}
			}
		}
	}
	e.p.info.Store(fn, in)
	return in
}

// ---- running a function

type part struct {
	st    *State
	dirty bool
	n     int
}

// discrim describes a value for partitioning.
func (s *State) discrim(v Value) string {
	switch x := v.(type) {
	case VBool:
		if x {
			return "T"
		}
		return "F"
	case VNil:
		return "nil"
	case VErr:
		return "E"
	case VPtr:
		return "p"
	case VFn:
		return x.Fn.String()
	case VIface:
		return "i" + typeKey(x.T)
	case VSeq:
		if c, ok := x.constant(); ok && len(c) <= 64 {
			return fmt.Sprintf("%q", c)
		}
	case VAtom:
		switch s.fact(x.ID).B {
		case 1:
			if x.Neg {
				return "T"
			}
			return "F"
		case 2:
			if x.Neg {
				return "F"
			}
			return "T"
		}
	case VUnk:
		switch s.nilness(x) {
		case 1:
			return "nil"
		case 2:
			return "nn" + s.fact(x.ID).Ty
		}
	case VTuple:
		r := ""
		for _, y := range x {
			r += s.discrim(y) + ";"
		}
		return r
	case VAlt:
		switch s.nilness(x) {
		case 2:
			return "nn"
		}
	}
	return "-"
}

// dataKey identifies the values of all variables and objects.
func (s *State) dataKey() string {
	ks := make([]string, 0, len(s.env)+len(s.heap))
	for v, x := range s.env {
		n := v.Name()
		if f := v.Parent(); f != nil {
			n += "@" + fnIndex(f)
		}
		ks = append(ks, n+"="+vkey(x))
	}
	for o, x := range s.heap {
		ks = append(ks, o+"="+vkey(x.V))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func (e *Engine) partKey(st *State, fn *ssa.Function, info *fnInfo, b *ssa.BasicBlock) string {
	if e.mergeHeads && info.heads[b] {
		return st.q.Key()
	}
	var sb strings.Builder
	sb.WriteString(st.q.Key())
	sb.WriteString("|")
	if e.disc != nil {
		sb.WriteString(e.disc(st, fn))
		sb.WriteString("|")
	}
	var ks []string
	for v := range info.liveIn[b.Index] {
		val, ok := st.env[v]
		if !ok {
			continue
		}
		d := st.discrim(val)
		if l, ok := val.(VLin); ok && l.isConst() && (e.unroll || !info.counter[v]) {
			d = fmt.Sprint(l.C)
		}
		if x, ok := val.(VSlice); ok && e.unroll && x.Len.isConst() && x.Off.isConst() {
			d = fmt.Sprintf("%d+%d", x.Off.C, x.Len.C)
		}
		if x, ok := val.(VIter); ok && e.unroll {
			d = x.Src.key()
		}
		if d != "-" {
			ks = append(ks, v.Name()+"="+d)
		}
	}
	if e.unroll {
		for id, o := range st.heap {
			if t, ok := o.V.(VTok); ok {
				ks = append(ks, id+"="+t.Src.key())
			}
		}
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	return sb.String()
}

// run analyses fn from the entry state, returning the states at its returns.
func (e *Engine) run(fn *ssa.Function, args []Value, free []Value, st *State) []Out {
	for _, f := range e.stack {
		if f == fn {
			e.undecided("recursive call of %s", fn.RelString(e.p.Types))
			var r Value
			if fn.Signature.Results().Len() > 0 {
				r = st.mk(resultType(fn.Signature), "⟨rec:"+fnIndex(fn)+"⟩")
			}
			return []Out{{st, r}}
		}
	}
	if len(fn.Blocks) == 0 {
		e.undecided("no body for %s", fn.String())
		return []Out{{st, st.mk(resultType(fn.Signature), "⟨nobody:"+fnIndex(fn)+"⟩")}}
	}
	st = st.clone()
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			st.env[p] = free[i]
		}
	}
	// names from an earlier activation must not be confused with this one's
	for _, b := range fn.Blocks {
		if len(b.Preds) > 1 {
			st.retireTok(blockTok(b), nil)
		}
	}
	return e.runAt(fn, fn.Blocks[0], st)
}

// runAt analyses fn from the beginning of a block.
func (e *Engine) runAt(fn *ssa.Function, start *ssa.BasicBlock, st *State) []Out {
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.Funcs[fn] = true
	info := e.fnInfo(fn)
	parts := map[*ssa.BasicBlock]map[string]*part{}
	var work []*ssa.BasicBlock
	inWork := map[*ssa.BasicBlock]bool{}
	push := func(b *ssa.BasicBlock) {
		if !inWork[b] {
			inWork[b] = true
			work = append(work, b)
		}
	}
	add := func(b *ssa.BasicBlock, s *State) {
		live := info.liveIn[b.Index]
		s.prune(func(v ssa.Value) bool { return v.Parent() != fn || live[v] }, e.roots)
		k := e.partKey(s, fn, info, b)
		m := parts[b]
		if m == nil {
			m = map[string]*part{}
			parts[b] = m
		}
		if len(m) > e.maxPart {
			k = s.q.Key()
			if e.mergeHeads && e.disc != nil && !info.heads[b] {
				k += "|" + e.disc(s, fn)
			}
		} else if len(m) < e.fine {
			k += "|" + s.dataKey()
		}
		p := m[k]
		if p == nil {
			s.retireTok(blockTok(b), nil)
			m[k] = &part{st: s, dirty: true}
			push(b)
			return
		}
		p.n++
		e.Joins++
		widen := 0
		if p.n > 6 {
			widen = 1
		}
		if p.n > 30 {
			widen = 2
		}
		if e.mergeHeads && widen > 0 {
			widen |= coarse
		}
		n := joinStates(p.st, s, blockTok(b), widen)
		if e.debug != "" && strings.Contains(fn.String(), e.debug) {
			fmt.Printf("JOIN %s b%d key %s n=%d\n", fn.Name(), b.Index, k, p.n)
		}
		if sameState(n, p.st) {
			return
		}
		p.st = n
		p.dirty = true
		push(b)
	}
	add(start, st)
	var outs []Out
	type retPart struct {
		o Out
		n int
	}
	rets := map[string]*retPart{}
	retTok := "⟨" + fnIndex(fn) + ":ret⟩"
	st.retireTok(retTok, nil)

	for len(work) > 0 {
		// lowest reverse postorder number first
		bi := 0
		for i := range work {
			if info.rpo[work[i]] < info.rpo[work[bi]] {
				bi = i
			}
		}
		b := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		inWork[b] = false
		for _, k := range sortedKeys(parts[b]) {
			p := parts[b][k]
			if !p.dirty {
				continue
			}
			p.dirty = false
			e.Blocks++
			e.Steps++
			if e.Steps > e.Budget || e.Steps&255 == 0 && time.Since(procStart) > timeLimit || !e.deadline.IsZero() && time.Now().After(e.deadline) {
				e.exhausted = true
				e.undecided("analysis budget exhausted in %s", fn.RelString(e.p.Types))
				return outs
			}
			if e.debug != "" && strings.Contains(fn.String(), e.debug) {
				fmt.Printf("BLOCK %s b%d key %s\n%s\n", fn.Name(), b.Index, k, p.st)
			}
			for _, r := range e.block(fn, b, p.st.clone(), add) {
				if e.onRet != nil {
					e.onRet(fn, r)
				}
				// drop the callee's locals
				for v := range r.st.env {
					if v.Parent() == fn {
						delete(r.st.env, v)
					}
				}
				rk := r.st.q.Key() + "|" + r.st.discrim(r.v)
				if l, ok := r.v.(VLin); ok && l.isConst() {
					rk += fmt.Sprint(l.C)
				}
				if e.disc != nil {
					rk += "|" + e.disc(r.st, fn)
				}
				outs = append(outs, r)
				_ = rk
			}
		}
	}
	if e.onParts != nil {
		e.onParts(fn, func(b *ssa.BasicBlock) []*State {
			var r []*State
			for _, k := range sortedKeys(parts[b]) {
				r = append(r, parts[b][k].st)
			}
			return r
		})
	}
	// merge equal kinds of return
	merged := map[string]*retPart{}
	var order []string
	for _, r := range outs {
		rk := r.st.q.Key() + "|" + r.st.discrim(r.v)
		switch x := r.v.(type) {
		case VLin:
			if x.isConst() {
				rk += fmt.Sprint(x.C)
			}
		case VTuple:
			for _, y := range x {
				if l, ok := y.(VLin); ok && l.isConst() {
					rk += fmt.Sprint(l.C)
				}
				rk += ","
			}
		}
		if e.disc != nil {
			rk += "|" + e.disc(r.st, fn)
		}
		if len(merged) < e.fine {
			rk += "|" + r.st.dataKey()
			if r.v != nil {
				rk += vkey(r.v)
			}
		}
		m := merged[rk]
		if m == nil {
			r.st.retireTok(retTok, nil)
			merged[rk] = &retPart{r, 0}
			order = append(order, rk)
			continue
		}
		// carry the result through the join in a slot of its own
		a, bb := m.o.st.clone(), r.st.clone()
		slot := resSlot
		a.env[slot], bb.env[slot] = m.o.v, r.v
		if m.o.v == nil {
			a.env[slot], bb.env[slot] = VBool(true), VBool(true)
		}
		n := joinStates(a, bb, retTok, 0)
		v := n.env[slot]
		delete(n.env, slot)
		if m.o.v == nil {
			v = nil
		}
		m.o = Out{n, v}
	}
	_ = rets
	res := make([]Out, 0, len(order))
	for _, k := range order {
		res = append(res, merged[k].o)
	}
	return res
}

func blockTok(b *ssa.BasicBlock) string {
	return "⟨" + fnIndex(b.Parent()) + ".b" + fmt.Sprint(b.Index) + "⟩"
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// block executes b on st, adding successor states; it returns the return states.
func (e *Engine) block(fn *ssa.Function, b *ssa.BasicBlock, st *State, add func(*ssa.BasicBlock, *State)) []Out {
	states := []*State{st}
	var outs []Out
	for idx, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range states {
			switch x := in.(type) {
			case *ssa.Jump:
				e.edge(s, b, b.Succs[0], add)
			case *ssa.If:
				for _, a := range e.splitAlt(s, x.Cond) {
					c := e.val(a, x.Cond)
					for i, tr := range []bool{true, false} {
						n := a
						if i == 0 {
							n = a.clone()
						}
						if n.assume(c, tr) {
							e.edge(n, b, b.Succs[i], add)
						}
					}
				}
			case *ssa.Return:
				var v Value
				var alts = []*State{s}
				for _, r := range x.Results {
					var na []*State
					for _, a := range alts {
						na = append(na, e.splitAlt(a, r)...)
					}
					alts = na
				}
				for _, a := range alts {
					switch len(x.Results) {
					case 0:
						v = nil
					case 1:
						v = e.val(a, x.Results[0])
					default:
						t := make(VTuple, len(x.Results))
						for i, r := range x.Results {
							t[i] = e.val(a, r)
						}
						v = t
					}
					outs = append(outs, Out{a, v})
				}
			case *ssa.Panic:
				e.obligation("panic", in, false, "explicit panic", "reachable panic statement")
			default:
				e.Steps++
				next = append(next, e.instr(fn, b, idx, in, s)...)
			}
		}
		states = next
		if len(states) > 1 {
			states = e.compact(fn, b, idx, states)
		}
	}
	return outs
}

// compact merges states with equal partition keys in the middle of a block.
func (e *Engine) compact(fn *ssa.Function, b *ssa.BasicBlock, idx int, states []*State) []*State {
	if len(states) < 24 {
		return states
	}
	info := e.fnInfo(fn)
	live := e.liveAfter(info, b, idx)
	tok := "⟨" + fnIndex(fn) + fmt.Sprintf(":m%d.%d⟩", b.Index, idx)
	m := map[string]*State{}
	var order []string
	for _, s := range states {
		s.prune(func(v ssa.Value) bool { return v.Parent() != fn || live[v] }, e.roots)
		k := s.q.Key()
		if e.disc != nil {
			k += "|" + e.disc(s, fn)
		}
		var ks []string
		for v := range live {
			if val, ok := s.env[v]; ok {
				d := s.discrim(val)
				if l, ok := val.(VLin); ok && l.isConst() && !info.counter[v] {
					d = fmt.Sprint(l.C)
				}
				ks = append(ks, v.Name()+"="+d)
			}
		}
		sort.Strings(ks)
		k += strings.Join(ks, ",")
		if o := m[k]; o == nil {
			s.retireTok(tok, nil)
			m[k] = s
			order = append(order, k)
		} else {
			m[k] = joinStates(o, s, tok, 0)
		}
	}
	var r []*State
	for _, k := range order {
		r = append(r, m[k])
	}
	return r
}

func (e *Engine) liveAfter(info *fnInfo, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for v := range info.liveIn[s.Index] {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
				continue
			}
			live[v] = true
		}
		for _, i := range s.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			live[phi.Edges[pi]] = true
		}
	}
	for k := len(b.Instrs) - 1; k > idx; k-- {
		for _, op := range b.Instrs[k].Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	return live
}

func (e *Engine) edge(s *State, from, to *ssa.BasicBlock, add func(*ssa.BasicBlock, *State)) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	// an If with both branches to the same block: edges appear twice
	type asg struct {
		phi *ssa.Phi
		v   Value
	}
	var as []asg
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{phi, e.val(s, phi.Edges[pi])})
	}
	for _, a := range as {
		s.env[a.phi] = a.v
	}
	if e.onEdge != nil {
		e.onEdge(s, from, to)
		if s.dead {
			return
		}
	}
	add(to, s)
}

// val evaluates an operand.
func (e *Engine) val(s *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return VPtr{Obj: e.global(s, x)}
	case *ssa.Function:
		return VFn{Fn: x}
	case *ssa.Builtin:
		return VOpaque{"builtin " + x.Name()}
	}
	if r, ok := s.env[v]; ok {
		return r
	}
	e.undecided("value %s of %s not available", v.Name(), v.Parent().RelString(e.p.Types))
	return s.mk(v.Type(), "undef:"+slotName(v))
}

func (e *Engine) global(s *State, g *ssa.Global) string {
	name := "G:" + g.String()
	if _, ok := s.obj(name); !ok {
		T := elemType(g.Type())
		v := s.mk(T, name)
		if g.Pkg != e.p.Pkg {
			// variables of other packages: errors and the like are set
			if types.IsInterface(T) || isPointer(T) {
				f := s.fact(name)
				f.Nil = 2
				s.setFact(name, f)
				if types.IsInterface(T) && T.String() == "error" {
					v = VErr{ID: name, Causes: []string{name}}
				}
			}
		}
		s.heap[name] = Obj{T, v}
	}
	return name
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok && !isNilBasic(c.Type()) {
			return zero(c.Type())
		}
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return zero(c.Type())
		}
		return VNil{}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.String:
		return lit(constant.StringVal(c.Value))
	case constant.Int:
		if isInt(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return VLin{linConst(i)}
			}
			if u, ok := constant.Uint64Val(c.Value); ok {
				_ = u
				return VLin{linConst(inf)}
			}
		}
		return VOpaque{"const " + c.Value.ExactString()}
	}
	return VOpaque{"const " + c.Value.ExactString()}
}

func isNilBasic(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UntypedNil || b.Kind() == types.UnsafePointer)
}

// splitAlt makes the value of v a single alternative.
func (e *Engine) splitAlt(s *State, v ssa.Value) []*State {
	a, ok := s.env[v].(VAlt)
	if !ok {
		return []*State{s}
	}
	var r []*State
	for _, x := range a {
		n := s.clone()
		n.env[v] = x
		r = append(r, n)
	}
	return r
}

// ptr resolves a pointer value for dereferencing; nil dereferences are recorded.
func (e *Engine) ptr(s *State, v Value, in ssa.Instruction, what string) (VPtr, bool) {
	switch x := v.(type) {
	case VPtr:
		e.obligation("nil", in, true, what, "")
		return x, true
	case VUnk:
		if x.T == nil || !isPointer(x.T) {
			break
		}
		n := s.nilness(x)
		e.obligation("nil", in, n == 2, what, "pointer "+x.ID+" may be nil")
		if n == 1 {
			return VPtr{}, false
		}
		f := s.fact(x.ID)
		f.Nil = 2
		s.setFact(x.ID, f)
		return s.objFor(x), true
	case VNil:
		e.obligation("nil", in, false, what, "pointer is nil")
		return VPtr{}, false
	}
	e.undecided("%s: cannot resolve pointer %s in %s", e.p.pos(instrPos(in)), vkey(v), in.Parent().RelString(e.p.Types))
	o := "⟨lost:" + fnIndex(in.Parent()) + ":" + instrID(in) + "⟩"
	if val, ok := in.(ssa.Value); ok {
		_ = val
	}
	var T types.Type
	for _, op := range in.Operands(nil) {
		if isPointer((*op).Type()) {
			T = elemType((*op).Type())
		}
	}
	if T == nil {
		return VPtr{}, false
	}
	s.heap[o] = Obj{T, s.mk(T, o)}
	return VPtr{Obj: o}, true
}

func pathAdd(p []PE, e PE) []PE { return append(append([]PE(nil), p...), e) }

// bounds checks 0 <= i < n (or <= n if incl) and then assumes it.
func (e *Engine) bounds(s *State, in ssa.Instruction, i, n Lin, incl bool, what string) bool {
	lo := s.provLE(Lin{}, i)
	k := i
	if !incl {
		k = i.addC(1)
	}
	hi := s.provLE(k, n)
	d := ""
	if !lo || !hi {
		d = fmt.Sprintf("index %s, length %s", i.key(), n.key())
	}
	e.obligation("bounds", in, lo && hi, what, d)
	if !lo {
		s.z().assumeLE(i.neg())
	}
	if !hi {
		s.z().assumeLE(k.sub(n))
	}
	return !s.zone.bot
}

// instr executes one instruction.
func (e *Engine) instr(fn *ssa.Function, b *ssa.BasicBlock, idx int, in ssa.Instruction, s *State) []*State {
	// operands must be single alternatives
	states := []*State{s}
	switch in.(type) {
	case *ssa.Store, *ssa.MakeInterface, *ssa.Phi, *ssa.Return, *ssa.MakeClosure, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.DebugRef, *ssa.Extract, *ssa.Convert:
		if st, ok := in.(*ssa.Store); ok {
			states = e.splitAlt(s, st.Addr)
		}
		if _, ok := in.(*ssa.Convert); ok {
			states = e.splitAlt(s, in.(*ssa.Convert).X)
		}
	default:
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if _, ok := s.env[*op].(VAlt); ok {
				var n []*State
				for _, t := range states {
					n = append(n, e.splitAlt(t, *op)...)
				}
				states = n
			}
		}
	}
	var r []*State
	for _, t := range states {
		r = append(r, e.instr1(fn, b, idx, in, t)...)
	}
	return r
}

func (e *Engine) instr1(fn *ssa.Function, b *ssa.BasicBlock, idx int, in ssa.Instruction, s *State) []*State {
	one := func(v ssa.Value, val Value) []*State {
		s.env[v] = val
		return []*State{s}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*State{s}
	case *ssa.Alloc:
		tok := siteTok(in)
		s.fresh(tok)
		o := "a" + tok
		T := elemType(x.Type())
		s.heap[o] = Obj{T, zero(T)}
		return one(x, VPtr{Obj: o})
	case *ssa.BinOp:
		return e.binop(s, x)
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.ChangeType:
		return one(x, e.retype(e.val(s, x.X), x.Type()))
	case *ssa.ChangeInterface:
		return one(x, e.val(s, x.X))
	case *ssa.Convert:
		return one(x, e.convert(s, x))
	case *ssa.MultiConvert:
		return one(x, e.convertTo(s, e.val(s, x.X), x.X.Type(), x.Type(), x))
	case *ssa.MakeInterface:
		v := e.val(s, x.X)
		return one(x, e.mkIface(s, v, x.X.Type()))
	case *ssa.MakeClosure:
		f := VFn{Fn: x.Fn.(*ssa.Function)}
		for _, bnd := range x.Bindings {
			f.Bind = append(f.Bind, e.val(s, bnd))
		}
		return one(x, f)
	case *ssa.MakeMap:
		tok := siteTok(in)
		s.fresh(tok)
		o := "map" + tok
		s.heap[o] = Obj{x.Type(), VMap{}}
		return one(x, VPtr{Obj: o})
	case *ssa.MakeSlice:
		tok := siteTok(in)
		s.fresh(tok)
		o := "mk" + tok
		n := e.lin(s, x.Len)
		if !s.provLE(Lin{}, n) {
			e.obligation("makeslice", in, false, "make length", "length may be negative: "+n.key())
		}
		et := elemType(x.Type())
		if isByte(et) && n.isConst() && n.C == 0 {
			s.heap[o] = Obj{x.Type(), VBytes{}}
		} else {
			s.heap[o] = Obj{x.Type(), VArr{N: n, Def: zero(et)}}
		}
		return one(x, VSlice{VPtr{Obj: o}, Lin{}, n})
	case *ssa.FieldAddr:
		p, ok := e.ptr(s, e.val(s, x.X), in, "field access")
		if !ok {
			return nil
		}
		return one(x, VPtr{p.Obj, pathAdd(p.Path, PE{F: x.Field})})
	case *ssa.Field:
		return one(x, s.get(e.val(s, x.X), []PE{{F: x.Field}}))
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Index:
		return e.index(s, x)
	case *ssa.Lookup:
		return e.lookup(s, x)
	case *ssa.MapUpdate:
		return e.mapUpdate(s, x)
	case *ssa.Slice:
		return e.slice(s, x)
	case *ssa.SliceToArrayPointer:
		e.undecided("%s: slice to array conversion", e.p.pos(instrPos(in)))
		return one(x, s.mk(x.Type(), "v"+siteTok(in)))
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if tp, ok := t.(VTuple); ok && x.Index < len(tp) {
			return one(x, tp[x.Index])
		}
		return one(x, s.mk(x.Type(), fmt.Sprintf("ext(%s,%d)", vkey(t), x.Index)))
	case *ssa.Store:
		return e.storeInstr(s, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Range:
		tok := siteTok(in)
		s.fresh(tok)
		v := e.val(s, x.X)
		if q, ok := v.(VSeq); ok {
			return one(x, VIter{"it" + tok, q, VSeq{}})
		}
		return one(x, VOpaque{"mapiter " + vkey(v)})
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Call:
		return e.call(fn, b, idx, x, s)
	case *ssa.RunDefers:
		return []*State{s}
	case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		e.undecided("%s: %T not supported", e.p.pos(instrPos(in)), in)
		if v, ok := in.(ssa.Value); ok {
			return one(v, s.mk(v.Type(), "v"+siteTok(in)))
		}
		return []*State{s}
	}
	e.undecided("%s: %T not supported", e.p.pos(instrPos(in)), in)
	if v, ok := in.(ssa.Value); ok {
		return one(v, s.mk(v.Type(), "v"+siteTok(in)))
	}
	return []*State{s}
}

func (e *Engine) mkIface(s *State, v Value, T types.Type) Value {
	if types.IsInterface(T) {
		return v
	}
	return VIface{T, v}
}

func (e *Engine) retype(v Value, T types.Type) Value {
	switch x := v.(type) {
	case VStruct:
		return VStruct{T, x.F}
	case VUnk:
		return VUnk{x.ID, T}
	case VSlice:
		if u, ok := x.B.(VUnk); ok {
			return VSlice{VUnk{u.ID, T}, x.Off, x.Len}
		}
	}
	return v
}

func (e *Engine) lin(s *State, v ssa.Value) Lin { return e.linOf(s, e.val(s, v), v) }

func (e *Engine) linOf(s *State, x Value, v ssa.Value) Lin {
	if l, ok := x.(VLin); ok {
		return l.Lin
	}
	id := "int(" + vkey(x) + ")"
	if !s.zone.has(id) {
		s.intSym(v.Type(), id)
		s.setDeps(id, s.deps(x))
	}
	return linSym(id)
}

// fit returns l if it is within T's range, otherwise an unknown of that type.
func (e *Engine) fit(s *State, l Lin, T types.Type, name string) Lin {
	lo, hi, ok := intRange(T)
	if !ok {
		return l
	}
	if (lo == -inf || s.zone.lb(l) >= lo) && (hi == inf || s.zone.ub(l) <= hi) {
		return l
	}
	if l.isConst() {
		// wrap around
		if hi < inf {
			m := hi - lo + 1
			c := (l.C - lo) % m
			if c < 0 {
				c += m
			}
			return linConst(c + lo)
		}
	}
	if hi < inf {
		// within one period of the type
		if a, b := s.zone.lb(l), s.zone.ub(l); a > -inf && b < inf {
			m := hi - lo + 1
			if k := floorDiv(a-lo, m); k == floorDiv(b-lo, m) {
				return l.addC(-k * m)
			}
		}
	}
	id := "wrap(" + typeKey(T) + "," + l.key() + ")"
	s.intSym(T, id)
	s.setDeps(id, s.depsLin(l))
	return linSym(id)
}

func (e *Engine) convert(s *State, x *ssa.Convert) Value {
	return e.convertTo(s, e.val(s, x.X), x.X.Type(), x.Type(), x)
}

func (e *Engine) convertTo(s *State, v Value, from, to types.Type, in ssa.Instruction) Value {
	switch {
	case isInt(from) && isInt(to):
		l, ok := v.(VLin)
		if !ok {
			break
		}
		return VLin{e.fit(s, l.Lin, to, "conv")}
	case isString(to) && isByteSlice(from):
		return s.seqOf(v)
	case isString(to) && isString(from):
		return v
	case isByteSlice(to) && isString(from):
		tok := siteTok(in)
		if _, ok := v.(VSeq); !ok {
			break
		}
		q := e.withHeld(s, v, func() { s.fresh(tok) }).(VSeq)
		o := "b" + tok
		s.heap[o] = Obj{to, VBytes{q}}
		return VSlice{VPtr{Obj: o}, Lin{}, s.seqLen(q)}
	case isString(to) && isInt(from):
		l, ok := v.(VLin)
		if !ok {
			break
		}
		return e.runeSeq(s, l.Lin)
	case isString(to) && isRuneSlice(from):
		id := "runestr(" + vkey(v) + ")"
		s.lenSym(id)
		return opaqueSeq(id)
	}
	id := "conv(" + typeKey(to) + "," + vkey(v) + ")"
	r := s.mk(to, id)
	s.setDeps(id, s.deps(v))
	return r
}

func isRuneSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// runeSeq is the UTF-8 encoding of one character.
func (e *Engine) runeSeq(s *State, l Lin) VSeq {
	if l.isConst() && l.C >= 0 && l.C <= 0x10ffff {
		return lit(string(rune(l.C)))
	}
	id := "rune(" + l.key() + ")"
	c := s.linCs(l)
	if c.EOF || s.zone.lb(l) < 0 {
		c.EOF = false
		c.Non = true // U+FFFD
	}
	s.setCs(id, c)
	s.setDeps(id, s.depsLin(l))
	if !s.zone.has(lenID(id)) {
		z := s.z()
		i := z.sym(lenID(id))
		z.le(0, i, -1)
		if c.Non {
			z.le(i, 0, 4)
		} else {
			z.le(i, 0, 1)
		}
	}
	return opaqueSeq(id)
}

func (e *Engine) unop(s *State, x *ssa.UnOp) []*State {
	one := func(val Value) []*State {
		s.env[x] = val
		return []*State{s}
	}
	v := e.val(s, x.X)
	switch x.Op {
	case token.NOT:
		return one(notCond(v))
	case token.SUB:
		if l, ok := v.(VLin); ok {
			return one(VLin{e.fit(s, l.Lin.neg(), x.Type(), "neg")})
		}
	case token.MUL:
		p, ok := e.ptr(s, v, x, "load")
		if !ok {
			return nil
		}
		if e.onLoad != nil {
			e.onLoad(s, p, x)
		}
		val := s.load(p)
		if a, ok := val.(VAlt); ok {
			var r []*State
			for _, alt := range a {
				n := s.clone()
				// the location holds exactly one of the alternatives
				if _, isBase := n.base[p.Obj]; !isBase && exactPath(p) {
					n.store(p, alt)
				}
				n.env[x] = alt
				r = append(r, n)
			}
			return r
		}
		return one(val)
	case token.XOR:
		id := "not(" + vkey(v) + ")"
		return one(s.mk(x.Type(), id))
	}
	if x.CommaOk {
		e.undecided("%s: channel receive", e.p.pos(instrPos(x)))
	}
	id := "unop(" + x.Op.String() + "," + vkey(v) + ")"
	s.setDeps(id, s.deps(v))
	return one(s.mk(x.Type(), id))
}

func exactPath(p VPtr) bool {
	for _, e := range p.Path {
		if e.F < 0 && !stableIndex(e.I) {
			return false
		}
	}
	return true
}

func (e *Engine) binop(s *State, x *ssa.BinOp) []*State {
	one := func(val Value) []*State {
		s.env[x] = val
		return []*State{s}
	}
	a, b := e.val(s, x.X), e.val(s, x.Y)
	la, oka := a.(VLin)
	lb, okb := b.(VLin)
	if oka && okb {
		d := la.Lin.sub(lb.Lin)
		switch x.Op {
		case token.EQL:
			return one(VCmp{"==", d})
		case token.NEQ:
			return one(VCmp{"!=", d})
		case token.LSS:
			return one(VCmp{"<", d})
		case token.LEQ:
			return one(VCmp{"<=", d})
		case token.GTR:
			return one(VCmp{"<", d.neg()})
		case token.GEQ:
			return one(VCmp{"<=", d.neg()})
		case token.ADD:
			return one(VLin{e.fit(s, la.Lin.add(lb.Lin), x.Type(), "add")})
		case token.SUB:
			return one(VLin{e.fit(s, d, x.Type(), "sub")})
		case token.MUL:
			if la.isConst() {
				return one(VLin{e.fit(s, lb.Lin.scale(la.C), x.Type(), "mul")})
			}
			if lb.isConst() {
				return one(VLin{e.fit(s, la.Lin.scale(lb.C), x.Type(), "mul")})
			}
		case token.QUO, token.REM:
			nz := s.provNE(lb.Lin, Lin{})
			e.obligation("div", x, nz, "division", "divisor "+lb.key()+" may be zero")
			return one(VLin{e.divrem(s, x, la.Lin, lb.Lin)})
		}
		if la.isConst() && lb.isConst() {
			if v, ok := foldInt(x.Op, la.C, lb.C); ok {
				return one(VLin{e.fit(s, linConst(v), x.Type(), "fold")})
			}
		}
		id := "op(" + x.Op.String() + "," + la.key() + "," + lb.key() + ")"
		s.intSym(x.Type(), id)
		if x.Op == token.AND && lb.isConst() && lb.C >= 0 {
			z := s.z()
			z.assumeLE(linSym(id).addC(-lb.C))
			z.assumeLE(linSym(id).neg())
		}
		if x.Op == token.SHR && s.zone.lb(la.Lin) >= 0 {
			z := s.z()
			z.assumeLE(linSym(id).neg())
			z.assumeLE(linSym(id).sub(la.Lin))
		}
		s.setDeps(id, unionStr(s.depsLin(la.Lin), s.depsLin(lb.Lin)))
		return one(VLin{linSym(id)})
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if isBool(x.X.Type()) {
			return e.boolEq(s, x, a, b)
		}
		c := VEq{a, b, x.Op == token.NEQ}
		if t, ok := s.decide(c); ok {
			return one(VBool(t))
		}
		return one(c)
	case token.ADD:
		sa, ok1 := a.(VSeq)
		sb, ok2 := b.(VSeq)
		if ok1 && ok2 {
			return one(sa.concat(sb))
		}
	case token.AND, token.OR, token.LAND, token.LOR:
	}
	id := "op(" + x.Op.String() + "," + vkey(a) + "," + vkey(b) + ")"
	s.setDeps(id, unionStr(s.deps(a), s.deps(b)))
	return one(s.mk(x.Type(), id))
}

func foldInt(op token.Token, a, b int64) (int64, bool) {
	switch op {
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b >= 0 && b < 62 {
			return a << b, true
		}
	case token.SHR:
		if b >= 0 && b < 64 {
			return a >> b, true
		}
	case token.MUL:
		return a * b, true
	}
	return 0, false
}

// divExact splits a = k*q + r with 0 <= r < k term by term.
func (s *State) divExact(a Lin, k int64) (q, r Lin, ok bool) {
	for _, t := range a.T {
		m := ((t.K % k) + k) % k
		if m != 0 {
			r = r.addK(linSym(t.Sym), m)
		}
		q = q.addK(linSym(t.Sym), (t.K-m)/k)
	}
	if q.isConst() && len(a.T) > 0 && s.zone.ub(a) >= k {
		return
	}
	lo, hi := s.zone.lb(r), s.zone.ub(r)
	if lo <= -inf || hi >= inf {
		return
	}
	// the constant that moves the remainder to zero or above
	c := ((a.C % k) + k) % k
	c += floorDiv(-lo-c+k-1, k) * k
	if hi+c >= k {
		return
	}
	r.C = c
	q.C = (a.C - c) / k
	var n Lin
	for _, t := range q.T {
		if t.K != 0 {
			n.T = append(n.T, t)
		}
	}
	n.C = q.C
	return n, r, true
}

func (e *Engine) divrem(s *State, x *ssa.BinOp, a, b Lin) Lin {
	if a.isConst() && b.isConst() && b.C != 0 {
		if x.Op == token.QUO {
			return linConst(a.C / b.C)
		}
		return linConst(a.C % b.C)
	}
	if b.isConst() && b.C > 1 && s.zone.lb(a) >= 0 {
		if q, r, ok := s.divExact(a, b.C); ok {
			if x.Op == token.QUO {
				return q
			}
			return r
		}
	}
	name := "div"
	if x.Op == token.REM {
		name = "rem"
	}
	id := name + "(" + a.key() + "," + b.key() + ")"
	if s.zone.has(id) {
		return linSym(id)
	}
	s.intSym(x.Type(), id)
	z := s.z()
	i := z.sym(id)
	lo, hi := z.lb(a), z.ub(a)
	if b.isConst() && b.C > 0 {
		if x.Op == token.QUO {
			if hi < inf {
				z.le(i, 0, hi/b.C)
			}
			if lo > -inf {
				z.le(0, i, -(lo / b.C))
			}
			if lo >= 0 {
				z.assumeLE(linSym(id).sub(a))
				if lo >= 1 && b.C > 1 {
					z.assumeLE(linSym(id).sub(a).addC(1))
				}
			}
		} else {
			z.le(i, 0, b.C-1)
			if lo >= 0 {
				z.le(0, i, 0)
				if hi < inf {
					z.le(i, 0, hi)
				}
			} else {
				z.le(0, i, b.C-1)
			}
		}
	}
	s.setDeps(id, unionStr(s.depsLin(a), s.depsLin(b)))
	return linSym(id)
}

// boolEq evaluates a comparison of booleans by cases.
func (e *Engine) boolEq(s *State, x *ssa.BinOp, a, b Value) []*State {
	var r []*State
	for _, ta := range []bool{true, false} {
		sa := s.clone()
		if !sa.assume(a, ta) {
			continue
		}
		for _, tb := range []bool{true, false} {
			sb := sa.clone()
			if !sb.assume(b, tb) {
				continue
			}
			sb.env[x] = VBool((ta == tb) == (x.Op == token.EQL))
			r = append(r, sb)
		}
	}
	return r
}

func (e *Engine) indexAddr(s *State, x *ssa.IndexAddr) []*State {
	i := e.lin(s, x.Index)
	v := e.val(s, x.X)
	switch y := v.(type) {
	case VSlice:
		if !e.bounds(s, x, i, y.Len, false, "slice index") {
			return nil
		}
		var p VPtr
		switch b := y.B.(type) {
		case VUnk:
			p = s.backing(b)
		case VPtr:
			p = b
		}
		at := y.Off.add(i)
		if k, ok := e.ghostAt[p.Obj]; ok && len(p.Path) == 0 {
			return e.splitAt(s, at, k, func(n *State, at Lin) { n.env[x] = VPtr{p.Obj, []PE{{F: -1, I: at}}} })
		}
		s.env[x] = VPtr{p.Obj, pathAdd(p.Path, PE{F: -1, I: at})}
		return []*State{s}
	case VNil:
		e.obligation("bounds", x, false, "slice index", "slice is nil")
		return nil
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		p, ok := e.ptr(s, v, x, "array access")
		if !ok {
			return nil
		}
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if !e.bounds(s, x, i, linConst(at.Len()), false, "array index") {
				return nil
			}
		}
		s.env[x] = VPtr{p.Obj, pathAdd(p.Path, PE{F: -1, I: i})}
		return []*State{s}
	}
	e.undecided("%s: index into %s", e.p.pos(instrPos(x)), vkey(v))
	s.env[x] = s.mk(x.Type(), "v"+siteTok(x))
	return []*State{s}
}

// splitAt separates the cases where an index is before, at and after a ghost
// index.
func (e *Engine) splitAt(s *State, at Lin, k string, set func(*State, Lin)) []*State {
	g := linSym(k)
	if s.provEQ(at, g) {
		set(s, g)
		return []*State{s}
	}
	if s.provNE(at, g) {
		set(s, at)
		return []*State{s}
	}
	var r []*State
	for i, c := range []VCmp{{"<", at.sub(g)}, {"==", at.sub(g)}, {"<", g.sub(at)}} {
		n := s.clone()
		if !n.assume(c, true) {
			continue
		}
		if i == 1 {
			set(n, g)
		} else {
			set(n, at)
		}
		r = append(r, n)
	}
	return r
}

func (e *Engine) index(s *State, x *ssa.Index) []*State {
	i := e.lin(s, x.Index)
	v := e.val(s, x.X)
	if q, ok := v.(VSeq); ok {
		if !e.bounds(s, x, i, s.seqLen(q), false, "string index") {
			return nil
		}
		s.env[x] = s.byteAt(q, i)
		return []*State{s}
	}
	if at, ok := x.X.Type().Underlying().(*types.Array); ok {
		if !e.bounds(s, x, i, linConst(at.Len()), false, "array index") {
			return nil
		}
		s.env[x] = s.get(v, []PE{{F: -1, I: i}})
		return []*State{s}
	}
	e.undecided("%s: index into %s", e.p.pos(instrPos(x)), vkey(v))
	s.env[x] = s.mk(x.Type(), "v"+siteTok(x))
	return []*State{s}
}

func (e *Engine) slice(s *State, x *ssa.Slice) []*State {
	one := func(val Value) []*State {
		s.env[x] = val
		return []*State{s}
	}
	v := e.val(s, x.X)
	var lo Lin
	if x.Low != nil {
		lo = e.lin(s, x.Low)
	}
	check := func(n Lin, capUnknown bool) (Lin, bool) {
		hi := n
		if x.High != nil {
			hi = e.lin(s, x.High)
			if !capUnknown || !hi.isConst() || hi.C != 0 {
				if !e.bounds(s, x, hi, n, true, "slice upper bound") {
					return hi, false
				}
			}
		}
		if x.Low != nil {
			d := ""
			ok := s.provLE(Lin{}, lo) && s.provLE(lo, hi)
			if !ok {
				d = fmt.Sprintf("low %s, high %s", lo.key(), hi.key())
			}
			e.obligation("slicelow", x, ok, "slice lower bound", d)
			if !ok {
				s.z().assumeLE(lo.neg())
				s.z().assumeLE(lo.sub(hi))
			}
		}
		return hi, !s.zone.bot
	}
	switch y := v.(type) {
	case VSeq:
		hi, ok := check(s.seqLen(y), false)
		if !ok {
			return nil
		}
		return one(s.subSeq(y, lo, hi.sub(lo)))
	case VSlice:
		hi, ok := check(y.Len, true)
		if !ok {
			return nil
		}
		return one(VSlice{y.B, y.Off.add(lo), hi.sub(lo)})
	case VNil:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if hi, ok := check(Lin{}, false); !ok || !hi.isConst() {
				return nil
			}
			return one(VNil{})
		}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		p, ok := e.ptr(s, v, x, "array slice")
		if !ok {
			return nil
		}
		at := pt.Elem().Underlying().(*types.Array)
		hi, ok := check(linConst(at.Len()), false)
		if !ok {
			return nil
		}
		return one(VSlice{p, lo, hi.sub(lo)})
	}
	e.undecided("%s: slice of %s", e.p.pos(instrPos(x)), vkey(v))
	return one(s.mk(x.Type(), "v"+siteTok(x)))
}

func (e *Engine) storeInstr(s *State, x *ssa.Store) []*State {
	p, ok := e.ptr(s, e.val(s, x.Addr), x, "store")
	if !ok {
		return nil
	}
	v := e.val(s, x.Val)
	if e.onStore != nil {
		e.onStore(s, p, v, x)
	}
	s.store(p, v)
	return []*State{s}
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := e.val(s, x.X)
	T := x.AssertedType
	res := func(st *State, ok bool) Value {
		if !ok {
			return zero(T)
		}
		if types.IsInterface(T) {
			return v
		}
		switch y := v.(type) {
		case VIface:
			return y.V
		case VUnk:
			r := st.mk(T, y.ID+".("+typeKey(T)+")")
			if u, ok := r.(VUnk); ok && isPointer(T) {
				f := st.fact(u.ID)
				if f.Nil == 0 {
					f.Nil = st.fact(y.ID + "!elem").Nil
					st.setFact(u.ID, f)
				}
			}
			return r
		}
		return st.mk(T, "assert("+vkey(v)+")")
	}
	t, known := s.hasType(v, T)
	if !x.CommaOk {
		e.obligation("assert", x, known && t, "type assertion", "dynamic type of "+vkey(v)+" not known to be "+typeKey(T))
		if known && !t {
			return nil
		}
		s.env[x] = res(s, true)
		return []*State{s}
	}
	var r []*State
	for _, ok := range []bool{true, false} {
		if known && ok != t {
			continue
		}
		n := s.clone()
		if u, isU := v.(VUnk); isU && !known {
			f := n.fact(u.ID)
			if ok {
				f.Nil = 2
				if !types.IsInterface(T) {
					f.Ty = typeKey(T)
				}
			} else {
				f.TyNe = insStr(f.TyNe, typeKey(T))
			}
			n.setFact(u.ID, f)
		}
		n.env[x] = VTuple{res(n, ok), VBool(ok)}
		r = append(r, n)
	}
	return r
}

func (e *Engine) next(s *State, x *ssa.Next) []*State {
	tok := siteTok(x)
	s.fresh(tok)
	it, ok := e.val(s, x.Iter).(VIter)
	if !ok {
		e.undecided("%s: range over a map", e.p.pos(instrPos(x)))
		s.env[x] = s.mk(x.Type(), "v"+siteTok(x))
		return []*State{s}
	}
	if src := s.norm(it.Src); e.unroll && src.chars() {
		if len(src.P) == 0 {
			s.env[x] = VTuple{VBool(false), VLin{}, VLin{}}
			return []*State{s}
		}
		h := e.seqHead(s, src, tok)[0]
		k := h.st.seqLen(it.Done)
		h.st.env[x.Iter] = VIter{it.ID, h.rest, it.Done.concat(h.part)}
		h.st.env[x] = VTuple{VBool(true), VLin{k}, VLin{h.ch}}
		return []*State{h.st}
	}
	// end of the string
	end := s.clone()
	end.env[x] = VTuple{VBool(false), VLin{}, VLin{}}
	cs := s.seqCs(it.Src)
	n := s.seqLen(it.Src)
	var r []*State
	r = append(r, end)
	if cs.empty() || s.zone.ub(n) <= 0 {
		return r
	}
	ki, ri := "k"+tok, "r"+tok
	z := s.z()
	k := z.sym(ki)
	z.le(0, k, 0)
	z.assumeLE(linSym(ki).addC(1).sub(n))
	c := z.sym(ri)
	z.le(0, c, 0)
	z.le(c, 0, 0x10ffff)
	if z.bot {
		return r
	}
	s.setCs(ri, cs)
	s.setDeps(ri, s.deps(it.Src))
	s.env[x] = VTuple{VBool(true), VLin{linSym(ki)}, VLin{linSym(ri)}}
	if e.onNext != nil {
		e.onNext(s, it, ri)
	}
	return append(r, s)
}

func (e *Engine) lookup(s *State, x *ssa.Lookup) []*State {
	v := e.val(s, x.X)
	if q, ok := v.(VSeq); ok {
		i := e.lin(s, x.Index)
		if !e.bounds(s, x, i, s.seqLen(q), false, "string index") {
			return nil
		}
		s.env[x] = s.byteAt(q, i)
		return []*State{s}
	}
	T := x.X.Type().Underlying().(*types.Map).Elem()
	key := e.val(s, x.Index)
	set := func(st *State, val Value, ok bool) *State {
		if x.CommaOk {
			st.env[x] = VTuple{val, VBool(ok)}
		} else {
			st.env[x] = val
		}
		return st
	}
	switch y := v.(type) {
	case VNil:
		return []*State{set(s, zero(T), false)}
	case VPtr:
		m, ok := s.load(y).(VMap)
		if !ok {
			break
		}
		return e.mapGet(s, m, key, T, set)
	case VUnk:
		id := y.ID + "{" + vkey(key) + "}"
		n := s.clone()
		pf := n.fact("has:" + id)
		var r []*State
		if pf.B != 1 {
			n.setFact("has:"+id, Fact{B: 2})
			val := n.mk(T, id)
			if n.nilness(y) != 1 {
				r = append(r, set(n, val, true))
			}
		}
		if pf.B != 2 {
			s.setFact("has:"+id, Fact{B: 1})
			r = append(r, set(s, zero(T), false))
		}
		return r
	}
	e.undecided("%s: map lookup in %s", e.p.pos(instrPos(x)), vkey(v))
	s.env[x] = s.mk(x.Type(), "v"+siteTok(x))
	return []*State{s}
}

func (e *Engine) mapGet(s *State, m VMap, key Value, T types.Type, set func(*State, Value, bool) *State) []*State {
	var r []*State
	emit := func(st *State, v Value) {
		for _, a := range altsOf(v) {
			n := st.clone()
			if vkey(a) == absent.key() {
				r = append(r, set(n, zero(T), false))
			} else {
				r = append(r, set(n, a, true))
			}
		}
	}
	rest := s
	for _, c := range m.Keys {
		t, ok := rest.decide(eqCond(c.K, key))
		if ok && t {
			emit(rest, c.V)
			return r
		}
		if ok {
			continue
		}
		n := rest.clone()
		if n.assume(eqCond(c.K, key), true) {
			emit(n, c.V)
		}
		rest = rest.clone()
		if !rest.assume(eqCond(c.K, key), false) {
			return r
		}
	}
	if m.Other != nil {
		emit(rest, mkAlt(absent, m.Other))
	} else {
		emit(rest, absent)
	}
	return r
}

func (e *Engine) mapUpdate(s *State, x *ssa.MapUpdate) []*State {
	m := e.val(s, x.Map)
	key, val := e.val(s, x.Key), e.val(s, x.Value)
	switch y := m.(type) {
	case VNil:
		e.obligation("nilmap", x, false, "map assignment", "map is nil")
		return nil
	case VPtr:
		e.obligation("nilmap", x, true, "map assignment", "")
		old, ok := s.load(y).(VMap)
		if !ok {
			break
		}
		if e.onStore != nil {
			e.onStore(s, y, val, x)
		}
		r := VMap{Other: old.Other}
		done := false
		for _, c := range old.Keys {
			t, ok := s.decide(eqCond(c.K, key))
			switch {
			case ok && t:
				r.Keys = append(r.Keys, MapCell{c.K, val})
				done = true
			case ok:
				r.Keys = append(r.Keys, c)
			default:
				r.Keys = append(r.Keys, MapCell{c.K, s.loose(c.V, val, "mapcell")})
			}
		}
		if !done {
			if q, ok := key.(VSeq); ok {
				if _, isc := q.constant(); isc || len(r.Keys) < 4 && stableSeq(q) {
					r.Keys = append(r.Keys, MapCell{key, val})
					sort.Slice(r.Keys, func(i, j int) bool { return vkey(r.Keys[i].K) < vkey(r.Keys[j].K) })
					done = true
				}
			} else if l, ok := key.(VLin); ok && l.isConst() {
				r.Keys = append(r.Keys, MapCell{key, val})
				done = true
			}
		}
		if !done {
			if r.Other == nil {
				r.Other = val
			} else {
				r.Other = s.loose(r.Other, val, "mapother")
			}
			if a, ok := r.Other.(VAlt); ok && len(a) > 3 {
				r.Other = VOpaque{"map values"}
			}
		}
		s.store(y, r)
		return []*State{s}
	case VUnk:
		e.obligation("nilmap", x, s.nilness(y) == 2, "map assignment", "map "+y.ID+" may be nil")
		return []*State{s}
	}
	e.undecided("%s: map update of %s", e.p.pos(instrPos(x)), vkey(m))
	return []*State{s}
}

func stableSeq(q VSeq) bool { return false }
