package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Points-to and effect analysis: inclusion constraints over all functions
// reachable from an entry point, with one abstract object per allocation, per
// package variable and per type of the memory the caller passes in. Fields are
// kept apart, elements of a container are not.

type objKind int

const (
	oAlloc  objKind = iota // allocated by the analysed code
	oStd                   // allocated by the standard library
	oGlobal                // package variable or memory the standard library reaches from one
	oGiven                 // memory of the value passed in
	oExt                   // reader or writer passed in
	oFunc
)

type aobj struct {
	kind objKind
	name string
	typ  types.Type // of boxes and given memory: what they hold
	fn   *ssa.Function
	pos  token.Pos
	lazy bool // contents follow from the types
}

// inBox ends the names of objects that are values in interfaces.
const inBox = " in an interface"

type loc struct {
	o    *aobj
	path string
}

// node is a pointer variable: a leaf of an SSA value or of an object.
type node struct {
	v    any // ssa.Value, *aobj or retKey
	path string
}

type retKey struct{ fn *ssa.Function }

type leaf struct {
	path string
	t    types.Type
}

// effect is a write through a pointer, or a call of interest.
type effect struct {
	fn   *ssa.Function
	in   ssa.Instruction
	what string
	addr []node // pointers written through
}

type solver struct {
	p       *Prog
	pts     map[node]map[loc]bool
	succ    map[node]map[node]bool
	watch   map[node][]func(loc)
	work    []todo
	objs    map[any]*aobj
	typed   map[string]*aobj
	done    map[*ssa.Function]bool
	calls   map[*ssa.Function]map[*ssa.Function][]ssa.Instruction
	effects []effect
	outside []effect
	threads []effect
	unknown map[string]token.Pos
	refused map[[2]string]bool // types an interface does not hold
	paths   map[*aobj]map[string]types.Type
	linked  map[string]bool
	leavesC map[types.Type][]leaf
	cur     *ssa.Function
}

type todo struct {
	n node
	l loc
}

func newSolver(p *Prog) *solver {
	return &solver{p: p, pts: map[node]map[loc]bool{}, succ: map[node]map[node]bool{}, watch: map[node][]func(loc){}, objs: map[any]*aobj{}, typed: map[string]*aobj{},
		done: map[*ssa.Function]bool{}, calls: map[*ssa.Function]map[*ssa.Function][]ssa.Instruction{}, unknown: map[string]token.Pos{}, paths: map[*aobj]map[string]types.Type{},
		linked: map[string]bool{}, leavesC: map[types.Type][]leaf{}}
}

// leaves are the pointers within a value of type T.
func (s *solver) leaves(T types.Type) []leaf {
	if l, ok := s.leavesC[T]; ok {
		return l
	}
	var ls []leaf
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i))
			}
		case *types.Array:
			walk(u.Elem(), path+"[]")
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i))
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
			ls = append(ls, leaf{path, t})
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				ls = append(ls, leaf{path, t})
			}
		}
	}
	if T != nil {
		walk(T, "")
	}
	s.leavesC[T] = ls
	return ls
}

func (s *solver) add(n node, l loc) {
	m := s.pts[n]
	if m == nil {
		m = map[loc]bool{}
		s.pts[n] = m
	}
	if m[l] {
		return
	}
	m[l] = true
	s.work = append(s.work, todo{n, l})
}

func (s *solver) edge(from, to node) {
	if from == to {
		return
	}
	m := s.succ[from]
	if m == nil {
		m = map[node]bool{}
		s.succ[from] = m
	}
	if m[to] {
		return
	}
	m[to] = true
	for l := range s.pts[from] {
		s.add(to, l)
	}
}

// on calls f for everything n may point to, now and later.
func (s *solver) on(n node, f func(loc)) {
	s.watch[n] = append(s.watch[n], f)
	for l := range s.pts[n] {
		f(l)
	}
}

func (s *solver) solve() {
	for len(s.work) > 0 {
		t := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		for n := range s.succ[t.n] {
			s.add(n, t.l)
		}
		for i := 0; i < len(s.watch[t.n]); i++ {
			s.watch[t.n][i](t.l)
		}
	}
}

// val is the node of a leaf of an SSA value.
func (s *solver) val(v ssa.Value, path string) node {
	switch x := v.(type) {
	case *ssa.Global:
		n := node{v, path}
		s.add(n, loc{s.global(x), ""})
		return n
	case *ssa.Function:
		n := node{v, path}
		s.add(n, loc{s.fnObj(x, x), ""})
		return n
	}
	return node{v, path}
}

func (s *solver) fnObj(key any, fn *ssa.Function) *aobj {
	if o := s.objs[key]; o != nil {
		return o
	}
	o := &aobj{kind: oFunc, name: fn.Name(), fn: fn, pos: fn.Pos()}
	s.objs[key] = o
	return o
}

func (s *solver) global(g *ssa.Global) *aobj {
	if o := s.objs[g]; o != nil {
		return o
	}
	o := &aobj{kind: oGlobal, name: "variable " + g.RelString(s.p.Types), typ: elemType(g.Type()), pos: g.Pos()}
	if g.Pkg != s.p.Pkg && g.Pkg.Pkg.Path() != parserPath {
		o.lazy = true
	}
	s.objs[g] = o
	return o
}

func (s *solver) alloc(in ssa.Value, kind objKind, T types.Type, tag string) *aobj {
	k := [2]any{in, tag}
	if o := s.objs[k]; o != nil {
		return o
	}
	o := &aobj{kind: kind, name: "memory of " + in.Parent().RelString(s.p.Types) + tag, typ: T, pos: in.Pos(), lazy: kind == oStd}
	s.objs[k] = o
	return o
}

// typedObj is the memory of a kind that holds values of a type.
func (s *solver) typedObj(kind objKind, T types.Type, what string) *aobj {
	k := fmt.Sprint(kind, what, types.TypeString(T, nil))
	if o := s.typed[k]; o != nil {
		return o
	}
	o := &aobj{kind: kind, name: what, typ: T, lazy: true}
	s.typed[k] = o
	return o
}

// cell is the node of a leaf of an object's contents.
func (s *solver) cell(l loc, lf leaf) node {
	n := node{l.o, l.path + lf.path}
	m := s.paths[l.o]
	if m == nil {
		m = map[string]types.Type{}
		s.paths[l.o] = m
	}
	if _, ok := m[n.path]; ok {
		return n
	}
	m[n.path] = lf.t
	if l.o.lazy {
		s.point(n, lf.t, l.o.kind, strings.TrimSuffix(l.o.name, inBox))
	}
	return n
}

// point makes a leaf of given memory point to given memory of its type.
func (s *solver) point(n node, T types.Type, kind objKind, what string) {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		s.add(n, loc{s.typedObj(kind, u.Elem(), what), ""})
	case *types.Slice:
		s.add(n, loc{s.typedObj(kind, u.Elem(), what), ""})
	case *types.Map, *types.Chan:
		s.add(n, loc{s.typedObj(kind, T, what), ""})
	case *types.Interface:
		if kind == oExt || u.NumMethods() == 0 {
			s.add(n, loc{s.typedObj(kind, T, what), ""})
		}
		if kind != oGiven {
			if kind != oExt {
				s.add(n, loc{s.typedObj(kind, T, what), ""})
			}
			return
		}
		for _, nt := range s.p.Named() {
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.IsInterface(nt) && types.Implements(t, u) && !s.refused[[2]string{T.String(), t.String()}] {
					s.add(n, loc{s.typedObj(kind, t, strings.TrimSuffix(what, inBox)+inBox), ""})
				}
			}
		}
	}
}

// copyTo copies a value of type T between the leaves of two values.
func (s *solver) copyTo(dst func(path string, t types.Type) node, src func(path string, t types.Type) node, T types.Type) {
	for _, lf := range s.leaves(T) {
		s.edge(src(lf.path, lf.t), dst(lf.path, lf.t))
	}
}

func (s *solver) of(v ssa.Value, prefix string) func(string, types.Type) node {
	if c, ok := v.(*ssa.Const); ok && c != nil {
		return func(p string, _ types.Type) node { return node{v, prefix + p} }
	}
	return func(p string, _ types.Type) node { return s.val(v, prefix+p) }
}

func (s *solver) in(l loc) func(string, types.Type) node {
	return func(p string, t types.Type) node { return s.cell(l, leaf{p, t}) }
}

func (s *solver) ret(fn *ssa.Function, i int) func(string, types.Type) node {
	return func(p string, _ types.Type) node { return node{retKey{fn}, fmt.Sprintf("#%d%s", i, p)} }
}

// load copies what the pointer node points to.
func (s *solver) load(ptr node, dst func(string, types.Type) node, T types.Type, sub string) {
	if len(s.leaves(T)) == 0 {
		return
	}
	s.on(ptr, func(l loc) {
		s.copyTo(dst, s.in(loc{l.o, l.path + sub}), T)
	})
}

func (s *solver) store(ptr node, src func(string, types.Type) node, T types.Type, sub string) {
	if len(s.leaves(T)) == 0 {
		return
	}
	s.on(ptr, func(l loc) {
		s.copyTo(s.in(loc{l.o, l.path + sub}), src, T)
	})
}

// shift makes dst point to a part of what src points to.
func (s *solver) shift(src, dst node, sub string) {
	s.on(src, func(l loc) { s.add(dst, loc{l.o, l.path + sub}) })
}

func (s *solver) effect(in ssa.Instruction, what string, addr ...node) {
	s.effects = append(s.effects, effect{s.cur, in, what, addr})
}

// visit generates the constraints of a function.
func (s *solver) visit(fn *ssa.Function) {
	if s.done[fn] || len(fn.Blocks) == 0 {
		return
	}
	s.done[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s.cur = fn
			s.instr(fn, in)
		}
	}
	s.cur = nil
}

func (s *solver) instr(fn *ssa.Function, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Global); ok && outsidePkg(g.Pkg.Pkg.Path()) {
			s.outside = append(s.outside, effect{fn, in, g.RelString(s.p.Types), nil})
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		s.add(node{x, ""}, loc{s.alloc(x, oAlloc, elemType(x.Type()), ""), ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		s.add(node{v, ""}, loc{s.alloc(v, oAlloc, v.Type(), ""), ""})
	case *ssa.MakeInterface:
		o := s.alloc(x, oAlloc, x.X.Type(), inBox)
		s.copyTo(s.in(loc{o, ""}), s.of(x.X, ""), x.X.Type())
		s.add(node{x, ""}, loc{o, ""})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			s.copyTo(s.of(f.FreeVars[i], ""), s.of(b, ""), b.Type())
		}
		s.add(node{x, ""}, loc{s.fnObj(f, f), ""})
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.copyTo(s.of(x, ""), s.of(e, ""), x.Type())
		}
	case *ssa.ChangeType:
		s.copyTo(s.of(x, ""), s.of(x.X, ""), x.Type())
	case *ssa.ChangeInterface:
		s.edge(s.val(x.X, ""), node{x, ""})
	case *ssa.Convert:
		switch x.Type().Underlying().(type) {
		case *types.Slice: // from a string: a copy
			s.add(node{x, ""}, loc{s.alloc(x, oAlloc, x.Type(), ""), ""})
		case *types.Basic:
			if types.Identical(x.Type().Underlying(), types.Typ[types.UnsafePointer]) {
				s.unknown["conversion to unsafe.Pointer in "+fn.RelString(s.p.Types)] = x.Pos()
			}
		default:
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				s.unknown["conversion from unsafe.Pointer in "+fn.RelString(s.p.Types)] = x.Pos()
			}
			s.copyTo(s.of(x, ""), s.of(x.X, ""), x.Type())
		}
	case *ssa.MultiConvert:
		s.copyTo(s.of(x, ""), s.of(x.X, ""), x.Type())
	case *ssa.SliceToArrayPointer:
		// the pointer is to an array: its elements are the cell of the slice
		s.on(s.val(x.X, ""), func(l loc) { s.add(node{x, ""}, loc{l.o, strings.TrimSuffix(l.path, "[]")}) })
	case *ssa.FieldAddr:
		s.shift(s.val(x.X, ""), node{x, ""}, fmt.Sprintf(".%d", x.Field))
	case *ssa.Field:
		s.copyTo(s.of(x, ""), s.of(x.X, fmt.Sprintf(".%d", x.Field)), x.Type())
	case *ssa.IndexAddr:
		sub := ""
		if isPointer(x.X.Type()) {
			sub = "[]"
		}
		s.shift(s.val(x.X, ""), node{x, ""}, sub)
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			s.copyTo(s.of(x, ""), s.of(x.X, "[]"), x.Type())
		}
	case *ssa.Slice:
		if isPointer(x.X.Type()) {
			s.shift(s.val(x.X, ""), node{x, ""}, "[]")
		} else if len(s.leaves(x.X.Type())) > 0 {
			s.edge(s.val(x.X, ""), node{x, ""})
		}
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		s.load(s.val(x.X, ""), s.of(x, pre), m.Elem(), "v")
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		s.store(s.val(x.Map, ""), s.of(x.Key, ""), m.Key(), "k")
		s.store(s.val(x.Map, ""), s.of(x.Value, ""), m.Elem(), "v")
		s.effect(in, "sets an entry of a map of", s.val(x.Map, ""))
	case *ssa.Range:
		if len(s.leaves(x.X.Type())) > 0 {
			s.edge(s.val(x.X, ""), node{x, ""})
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		m := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		s.load(node{x.Iter, ""}, s.of(x, "#1"), m.Key(), "k")
		s.load(node{x.Iter, ""}, s.of(x, "#2"), m.Elem(), "v")
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			s.load(s.val(x.X, ""), s.of(x, ""), x.Type(), "")
		case token.ARROW:
			s.effect(in, "receives from a channel of", s.val(x.X, ""))
			c := x.X.Type().Underlying().(*types.Chan)
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			s.load(s.val(x.X, ""), s.of(x, pre), c.Elem(), "e")
		}
	case *ssa.Store:
		s.store(s.val(x.Addr, ""), s.of(x.Val, ""), x.Val.Type(), "")
		s.effect(in, "writes", s.val(x.Addr, ""))
	case *ssa.Send:
		s.store(s.val(x.Chan, ""), s.of(x.X, ""), x.X.Type(), "e")
		s.effect(in, "sends on a channel of", s.val(x.Chan, ""))
	case *ssa.Select:
		for _, c := range x.States {
			s.effect(in, "communicates on a channel of", s.val(c.Chan, ""))
		}
		s.unknown["select statement in "+fn.RelString(s.p.Types)] = x.Pos()
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			s.on(s.val(x.X, ""), func(l loc) {
				if l.o.kind == oExt || l.o.typ == nil || types.IsInterface(l.o.typ) || types.Implements(l.o.typ, x.AssertedType.Underlying().(*types.Interface)) {
					s.add(node{x, pre}, l)
				}
			})
			return
		}
		s.on(s.val(x.X, ""), func(l loc) {
			switch {
			case l.o.typ != nil && types.Identical(l.o.typ, x.AssertedType):
				s.copyTo(s.of(x, pre), s.in(l), x.AssertedType)
			case l.o.lazy && (l.o.typ == nil || types.IsInterface(l.o.typ)):
				for _, lf := range s.leaves(x.AssertedType) {
					s.point(node{x, pre + lf.path}, lf.t, l.o.kind, l.o.name)
				}
			}
		})
	case *ssa.Extract:
		s.copyTo(s.of(x, ""), s.of(x.Tuple, fmt.Sprintf("#%d", x.Index)), x.Type())
	case *ssa.Return:
		for i, v := range x.Results {
			s.copyTo(s.ret(fn, i), s.of(v, ""), v.Type())
		}
	case *ssa.Panic:
	case *ssa.Go:
		s.threads = append(s.threads, effect{fn, in, "starts a goroutine", nil})
		s.call(fn, x, &x.Call, nil)
	case *ssa.Defer:
		s.call(fn, x, &x.Call, nil)
	case *ssa.Call:
		s.call(fn, x, &x.Call, x)
	}
}

func (s *solver) link(from, to *ssa.Function, in ssa.Instruction) {
	m := s.calls[from]
	if m == nil {
		m = map[*ssa.Function][]ssa.Instruction{}
		s.calls[from] = m
	}
	m[to] = append(m[to], in)
}

// analysed tells whether the body of fn is analysed rather than summarised.
func (s *solver) analysed(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if s.p.inPkg(fn) {
		return true
	}
	pkg := pkgOf(fn)
	if pkg == "" {
		return true
	}
	return pkg == parserPath || pkg == modPath
}

// pkgOf is the path of the package that declares fn.
func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// call generates the constraints of a call.
func (s *solver) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		s.builtin(in, b.Name(), c, res)
		return
	}
	var T types.Type
	if res != nil {
		T = res.Type()
	}
	// result is where result i goes
	result := func(i, n int) func(string, types.Type) node {
		pre := ""
		if n > 1 {
			pre = fmt.Sprintf("#%d", i)
		}
		return s.of(res, pre)
	}
	bind := func(f *ssa.Function, recv func(string, types.Type) node, args []ssa.Value) {
		key := fmt.Sprintf("%p|%p|%v", in, f, recv != nil)
		s.link(fn, f, in)
		if s.linked[key] && recv == nil {
			return
		}
		s.linked[key] = true
		params := f.Params
		if recv != nil {
			s.copyTo(s.of(params[0], ""), recv, params[0].Type())
			params = params[1:]
		}
		for i, a := range args {
			if i < len(params) {
				s.copyTo(s.of(params[i], ""), s.of(a, ""), params[i].Type())
			}
		}
		if T != nil {
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				s.copyTo(result(i, rs.Len()), s.ret(f, i), rs.At(i).Type())
			}
		}
		old := s.cur
		s.visit(f)
		s.cur = old
	}
	if c.IsInvoke() {
		s.on(s.val(c.Value, ""), func(l loc) {
			old := s.cur
			s.cur = fn
			defer func() { s.cur = old }()
			if l.o.kind == oExt || l.o.typ == nil || types.IsInterface(l.o.typ) {
				s.library(in, l.o, nil, c.Method, c.Args, res, s.val(c.Value, ""))
				return
			}
			f := s.p.SSA.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				return
			}
			if s.analysed(f) {
				bind(f, s.in(l), c.Args)
			} else {
				s.library(in, l.o, f, nil, append([]ssa.Value{nil}, c.Args...), res, s.val(c.Value, ""))
			}
		})
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		if s.analysed(f) {
			bind(f, nil, c.Args)
		} else {
			s.library(in, nil, f, nil, c.Args, res, node{})
		}
		return
	}
	s.on(s.val(c.Value, ""), func(l loc) {
		old := s.cur
		s.cur = fn
		defer func() { s.cur = old }()
		if l.o.kind != oFunc {
			if l.o.kind == oGiven || l.o.kind == oExt {
				s.unknown["call of a function passed in, in "+fn.RelString(s.p.Types)] = in.Pos()
			}
			return
		}
		if s.analysed(l.o.fn) {
			bind(l.o.fn, nil, c.Args)
		} else {
			s.library(in, nil, l.o.fn, nil, c.Args, res, node{})
		}
	})
}

func (s *solver) builtin(in ssa.Instruction, name string, c *ssa.CallCommon, res *ssa.Call) {
	switch name {
	case "append":
		o := s.alloc(res, oAlloc, res.Type(), "")
		s.add(node{res, ""}, loc{o, ""})
		if !emptied(c.Args[0]) {
			s.edge(s.val(c.Args[0], ""), node{res, ""})
		}
		el := res.Type().Underlying().(*types.Slice).Elem()
		if len(c.Args) == 2 {
			if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && len(s.leaves(el)) > 0 {
				s.on(s.val(c.Args[1], ""), func(l loc) {
					s.store(node{res, ""}, s.in(l), el, "")
				})
			}
		}
		if len(s.leaves(el)) > 0 {
			// the old elements are copied to new memory
			s.on(s.val(c.Args[0], ""), func(l loc) { s.copyTo(s.in(loc{o, ""}), s.in(l), el) })
		}
		if !clipped(c.Args[0]) {
			s.effect(in, "appends into", s.val(c.Args[0], ""))
		}
	case "copy":
		if t, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && len(s.leaves(t.Elem())) > 0 {
			s.on(s.val(c.Args[1], ""), func(l loc) { s.store(s.val(c.Args[0], ""), s.in(l), t.Elem(), "") })
		}
		s.effect(in, "copies into", s.val(c.Args[0], ""))
	case "delete", "clear":
		s.effect(in, "removes entries of", s.val(c.Args[0], ""))
	case "close":
		s.effect(in, "closes a channel of", s.val(c.Args[0], ""))
	case "min", "max", "len", "cap", "print", "println", "panic", "recover", "complex", "real", "imag", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" && res != nil {
			s.edge(s.val(c.Args[0], ""), node{res, ""})
		}
		if name == "print" || name == "println" {
			s.outside = append(s.outside, effect{s.cur, in, name, nil})
		}
	default:
		s.unknown["builtin "+name] = in.Pos()
	}
}

// clipped tells whether appending to v always allocates.
func clipped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if x.Max == nil || x.High == nil {
			return false
		}
		if x.Max == x.High {
			return true
		}
		a, ok1 := x.High.(*ssa.Const)
		b, ok2 := x.Max.(*ssa.Const)
		if ok1 && ok2 {
			return a.Int64() == b.Int64()
		}
		la, lb := lenOf(x.High), lenOf(x.Max)
		return la != nil && la == lb
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return pkgOf(f) == "slices" && strings.HasPrefix(f.Name(), "Clip")
		}
	}
	return false
}

// emptied tells whether v has no capacity.
func emptied(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		c, ok := x.Max.(*ssa.Const)
		return ok && c.Int64() == 0
	}
	return false
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// library summarises a call of the standard library, or of a method of memory
// whose type is not known: fn or method, the receiver as first argument (nil if
// it is in an interface, in recv).
func (s *solver) library(in ssa.Instruction, o *aobj, fn *ssa.Function, m *types.Func, args []ssa.Value, res *ssa.Call, recv node) {
	key := fmt.Sprintf("lib|%p|%p|%p|%p", in, o, fn, m)
	if s.linked[key] {
		return
	}
	s.linked[key] = true
	var sum stdSummary
	name := ""
	if m != nil {
		name = m.FullName()
		sum = ifaceSummary(m)
		for i := range sum.mut {
			sum.mut[i]-- // arguments without receiver
		}
	} else {
		name = fn.String()
		sum = libSummary(fn)
	}
	eff := effect{s.cur, in, name, nil}
	switch {
	case sum.outside:
		s.outside = append(s.outside, eff)
	case sum.thread:
		s.threads = append(s.threads, effect{s.cur, in, "calls " + name, nil})
	case sum.unknown:
		s.unknown["call of "+name+" in "+s.cur.RelString(s.p.Types)] = in.Pos()
	}
	argNodes := func(i int) []node {
		if i < 0 || i >= len(args) {
			if recv != (node{}) {
				return []node{recv}
			}
			return nil
		}
		if args[i] == nil {
			return []node{recv}
		}
		var ns []node
		for _, lf := range s.leaves(args[i].Type()) {
			ns = append(ns, s.of(args[i], "")(lf.path, lf.t))
		}
		return ns
	}
	for _, i := range sum.mut {
		s.effect(in, "passes to "+name+", which writes,", argNodes(i)...)
		cur := s.cur
		for _, n := range argNodes(i) {
			// pointers in an interface or in the elements of a variadic argument
			s.on(n, func(l loc) {
				if l.o.typ == nil || types.IsInterface(l.o.typ) {
					return
				}
				if !strings.HasSuffix(l.o.name, inBox) {
					return
				}
				for _, lf := range s.leaves(l.o.typ) {
					s.effects = append(s.effects, effect{cur, in, "passes to " + name + ", which writes,", []node{s.cell(l, lf)}})
				}
			})
		}
	}
	// callbacks
	cur := s.cur
	for i := range args {
		for _, n := range argNodes(i) {
			s.on(n, func(l loc) { s.callback(cur, in, l, args) })
		}
	}
	if recv != (node{}) {
		s.on(recv, func(l loc) { s.callback(cur, in, l, args) })
	}
	if res == nil {
		return
	}
	for _, lf := range s.leaves(res.Type()) {
		n := node{res, lf.path}
		if sum.global {
			s.point(n, lf.t, oGlobal, "memory of "+name)
		} else {
			s.point(n, lf.t, oStd, "memory of "+name)
		}
		for i := range args {
			if args[i] == nil {
				continue
			}
			for _, a := range s.leaves(args[i].Type()) {
				if types.Identical(a.t.Underlying(), lf.t.Underlying()) {
					s.edge(s.of(args[i], "")(a.path, a.t), n)
				}
			}
		}
	}
}

// callback lets the library call a function, or the methods of a value in an
// interface, that it has been given.
func (s *solver) callback(caller *ssa.Function, in ssa.Instruction, l loc, args []ssa.Value) {
	call := func(f *ssa.Function, recv func(string, types.Type) node) {
		if !s.analysed(f) {
			return
		}
		s.link(caller, f, in)
		key := fmt.Sprintf("cb|%p|%p|%p", in, f, l.o)
		if s.linked[key] {
			return
		}
		s.linked[key] = true
		params := f.Params
		if recv != nil {
			s.copyTo(s.of(params[0], ""), recv, params[0].Type())
			params = params[1:]
		}
		for _, q := range params {
			for _, lf := range s.leaves(q.Type()) {
				n := s.of(q, "")(lf.path, lf.t)
				s.point(n, lf.t, oStd, "memory of the library")
				for _, a := range args {
					if a == nil {
						continue
					}
					if sl, ok := a.Type().Underlying().(*types.Slice); ok {
						for _, e := range s.leaves(sl.Elem()) {
							if types.Identical(e.t.Underlying(), lf.t.Underlying()) {
								s.on(s.val(a, ""), func(l loc) { s.edge(s.cell(l, e), n) })
							}
						}
					}
				}
			}
		}
		old := s.cur
		s.visit(f)
		s.cur = old
	}
	switch {
	case l.o.kind == oFunc:
		call(l.o.fn, nil)
	case l.o.typ != nil && (l.o.kind == oAlloc || l.o.kind == oGiven) && strings.HasSuffix(l.o.name, inBox):
		ms := s.p.SSA.MethodSets.MethodSet(l.o.typ)
		for i := 0; i < ms.Len(); i++ {
			f := s.p.SSA.MethodValue(ms.At(i))
			if f != nil && f.Object() != nil && f.Object().Exported() {
				call(f, s.in(l))
			}
		}
	}
}

// reach is the set of functions called from roots, directly or not.
func (s *solver) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for g := range s.calls[f] {
			walk(g)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return seen
}

// contents lists what can be reached from the objects in from.
func (s *solver) contents(from map[loc]bool) map[*aobj]bool {
	seen := map[*aobj]bool{}
	var walk func(o *aobj)
	walk = func(o *aobj) {
		if seen[o] {
			return
		}
		seen[o] = true
		var ps []string
		for p := range s.paths[o] {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			for l := range s.pts[node{o, p}] {
				walk(l.o)
			}
		}
	}
	for l := range from {
		walk(l.o)
	}
	return seen
}

// cycles lists groups of functions reachable from entries that may call each
// other in a circle.
func (s *solver) cycles(entries ...*ssa.Function) [][]*ssa.Function {
	var res [][]*ssa.Function
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		index[f] = len(index) + 1
		low[f] = index[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		for g := range s.calls[f] {
			self = self || g == f
			if index[g] == 0 {
				walk(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		}
		if low[f] != index[f] {
			return
		}
		var c []*ssa.Function
		for {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[g] = false
			c = append(c, g)
			if g == f {
				break
			}
		}
		if len(c) > 1 || self {
			sort.Slice(c, func(i, j int) bool { return c[i].String() < c[j].String() })
			res = append(res, c)
		}
	}
	for _, f := range entries {
		if index[f] == 0 {
			walk(f)
		}
	}
	return res
}
