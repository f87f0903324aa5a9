package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decoding of components, analysed as a typestate over the stream of content
// lines: the ghost state records which lines have been delivered and what must
// follow from them.

type decGhost struct {
	counts string // one digit per tracked key
	stack  string // nesting of unknown components: one letter each
	open   string // component whose BEGIN was delivered but not consumed
	ended  bool
	bad    string // why decoding has to fail
	lost   string // content that was passed over
	last   string // last line delivered
	other  string // last line was of this property, which is not followed
	has    string // constrained fields found set at the END line
}

func (g decGhost) Key() string {
	return fmt.Sprintf("%s;%s;%s;%v;%s;%s;%s;%s;%s", g.counts, g.stack, g.open, g.ended, g.bad, g.lost, g.last, g.other, g.has)
}

// line is a kind of content line offered to the decoder.
type decLine struct {
	what  string // "prop", "begin", "end", "unknown", "beginunknown"
	key   string
	name  string // spelling of the line's name
	value string // literal value, if any
	err   string // set if decoding has to fail because of it
}

type decRun struct {
	r       *Report
	sec     *Section
	keys    []string       // tracked keys
	max     map[string]int // most often a key is offered
	variant func(string) string
	e       *Engine
	scope   string
	depth   int
	noFail  bool // property decoders do not fail
	report  func(kind, construct, pos, msg string)
	okRets  int
	errRets int
	okKey   map[string]bool
	f       *Field // the field followed; the others hold anything beforehand
	deliver map[string]int
}

func structType(p *Prog, pkg, name string) types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func constInt(p *Prog, pkg, name string) (int64, bool) {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if c, ok := q.Members[name].(*ssa.NamedConst); ok {
				return c.Value.Int64(), true
			}
		}
	}
	return 0, false
}

// mkPhrase builds a content line value: name token, parameters, value token.
func mkPhrase(p *Prog, s *State, id, name string, nameSeq, value VSeq) Value {
	PT := structType(p, parserPath, "Phrase")
	TT := structType(p, parserPath, "Token")
	tt := func(n string) int64 {
		v, ok := constInt(p, modPath, n)
		if !ok {
			panic("no constant " + n)
		}
		return v
	}
	obj := id + "#"
	n := s.lenSym(id)
	s.z().assumeLE(linConst(2).sub(n))
	st := types.NewSlice(TT)
	a := VArr{N: n, Def: VUnk{obj, st}}
	a.Cells = []Cell{
		{linConst(0), VStruct{TT, []Value{VLin{linConst(tt("tokenName"))}, nameSeq}}},
		{n.addC(-1), VStruct{TT, []Value{VLin{linConst(tt("tokenValue"))}, value}}},
	}
	s.heap[obj] = Obj{st, a}
	lt, _ := constInt(p, modPath, "phraseContentLine")
	return VStruct{PT, []Value{VLin{linConst(lt)}, VSlice{VPtr{Obj: obj}, Lin{}, n}}}
}

func (d *decRun) count(g decGhost, key string) int {
	for i, k := range d.keys {
		if k == key {
			return int(g.counts[i] - '0')
		}
	}
	return 0
}

func (d *decRun) inc(g decGhost, key string) decGhost {
	b := []byte(g.counts)
	for i, k := range d.keys {
		if k == key {
			b[i]++
		}
	}
	g.counts = string(b)
	return g
}

// lines lists the content lines offered in a ghost state.
func (d *decRun) lines(g decGhost) []decLine {
	v := d.variant
	var ls []decLine
	letters := []string{"X-A", "X-B", "X-C"}
	if g.bad != "" {
		// has to fail: see what the ends of the components do
		if n := len(g.stack); n > 0 {
			top := letters[g.stack[n-1]-'A']
			return []decLine{{what: "skipend", key: top, name: v("END"), value: v(top)}}
		}
		return []decLine{{what: "end", name: v("END"), value: v(d.sec.Wire)}}
	}
	if len(g.stack) > 0 {
		top := letters[g.stack[len(g.stack)-1]-'A']
		ls = append(ls, decLine{what: "skipend", key: top, name: v("END"), value: v(top)})
		ls = append(ls, decLine{what: "skipbadend", name: v("END"), value: v("X-Z"), err: "END of another component inside an unknown component"})
		ls = append(ls, decLine{what: "skipbadend2", name: v("END"), value: v(d.sec.Wire), err: "END of the enclosing component inside an unknown component"})
		for _, k := range d.keys {
			if f := d.sec.field(k); f != nil && !f.Comp {
				ls = append(ls, decLine{what: "skipprop", key: k, name: v(k)})
				break
			}
		}
		for _, f := range d.sec.Fields {
			if f.Comp && len(g.stack) < d.depth {
				// a known component inside an unknown one is skipped with it
				break
			}
		}
		if len(g.stack) < d.depth {
			n := letters[len(g.stack)]
			ls = append(ls, decLine{what: "beginunknown", key: n, name: v("BEGIN"), value: v(n)})
		}
		return ls
	}
	for _, k := range d.keys {
		f := d.sec.field(k)
		max := d.max[k]
		if max == 0 {
			max = 1
		}
		if d.count(g, k) >= max {
			continue
		}
		if f.Comp {
			ls = append(ls, decLine{what: "begin", key: k, name: v("BEGIN"), value: v(k)})
		} else {
			ls = append(ls, decLine{what: "prop", key: k, name: v(k)})
		}
	}
	for _, f := range d.sec.Fields {
		// other lines come first: later ones find the same fields, as these
		// may hold anything from the start
		if d.tracked(f.Key) || strings.Trim(g.counts, "0") != "" {
			continue
		}
		if f.Comp {
			ls = append(ls, decLine{what: "otherbegin", key: f.Key, name: v("BEGIN"), value: v(f.Key)})
		} else {
			ls = append(ls, decLine{what: "other", key: f.Key, name: v(f.Key)})
		}
	}
	ls = append(ls, decLine{what: "unknown", key: "unknown property"})
	ls = append(ls, decLine{what: "beginunknown", key: "X-A", name: v("BEGIN"), value: v("X-A")})
	ls = append(ls, decLine{what: "end", name: v("END"), value: v(d.sec.Wire)})
	ls = append(ls, decLine{what: "badend", name: v("END"), err: "END of another component"})
	return ls
}

func (d *decRun) getPhrase(c *Call) []Out {
	g, _ := c.st.q.(decGhost)
	p := d.r.p
	var outs []Out
	PT := structType(p, parserPath, "Phrase")
	tok := c.fresh()
	_ = tok
	st := c.st
	if g.other != "" {
		// what the line left in its own field is the subject of another run
		d.forget(st, d.sec.field(g.other))
		g.other = ""
	}
	if g.ended && g.lost == "" {
		g.lost = "line after the component's END"
	}
	if g.open != "" && g.lost == "" {
		g.lost = "content of component " + g.open
		g.open = ""
	}
	done, _ := constInt(p, parserPath, "PhraseDone")
	// failure of the reader
	{
		s := st.clone()
		h := g
		h.bad, h.last = "failing reader", "read error"
		s.q = h
		outs = append(outs, Out{s, VTuple{zero(PT), VErr{ID: "read error"}}})
	}
	{
		s := st.clone()
		h := g
		h.bad, h.last = "end of input", "end of input"
		s.q = h
		outs = append(outs, Out{s, VTuple{VStruct{PT, []Value{VLin{linConst(done)}, VSlice{VUnk{"§nodata", types.NewSlice(structType(p, parserPath, "Token"))}, Lin{}, Lin{}}}}, VNil{}}})
	}
	if g.bad == "failing reader" || g.bad == "end of input" {
		// nothing more arrives
		return outs
	}
	for _, l := range d.lines(g) {
		s := st.clone()
		h := g
		h.last = l.what
		if l.key != "" {
			h.last = strings.TrimSuffix(l.what, "unknown") + " " + l.key
		}
		id := "§line(" + l.what + l.key + ")"
		var name, value VSeq
		if l.name != "" {
			name = lit(l.name)
		} else {
			id := "§name"
			s.lenSym(id)
			name = opaqueSeq(id)
			var up, lo []string
			for _, k := range append([]string{"BEGIN", "END"}, d.sec.keys()...) {
				up = append(up, k)
				lo = append(lo, strings.ToLower(k))
			}
			d.notOneOf(s, id, up, lo)
		}
		if f := d.sec.field(l.key); (l.what == "other") && f.Card != '*' {
			if !s.assumeNil(d.get(s, f), true) {
				continue
			}
		}
		if l.value != "" {
			value = lit(l.value)
		} else {
			vid := "§val(" + l.what + " " + l.key + fmt.Sprint(d.count(g, l.key)+1) + ")"
			if l.what != "prop" {
				vid = "§val(" + l.what + ")"
			}
			s.lenSym(vid)
			value = opaqueSeq(vid)
			if l.what == "badend" {
				d.notOneOf(s, vid, []string{d.sec.Wire}, []string{strings.ToLower(d.sec.Wire)})
			}
		}
		switch l.what {
		case "prop":
			h = d.inc(h, l.key)
			if f := d.sec.field(l.key); f.Card != '*' && d.count(h, l.key) > 1 {
				h.bad = "second " + l.key
			}
			id = "§line(" + l.key + fmt.Sprint(d.count(h, l.key)) + ")"
		case "begin":
			h = d.inc(h, l.key)
			h.open = l.key
		case "other":
			h.other = l.key
		case "otherbegin":
			h.other, h.open = l.key, l.key
		case "beginunknown":
			h.stack += string(rune('A' + len(h.stack)))
		case "skipend":
			h.stack = h.stack[:len(h.stack)-1]
		case "end":
			h.ended = true
			ph := mkPhrase(p, s, id, l.name, name, value)
			d.deliver[h.last]++
			for _, t := range d.constrained(s) {
				h := h
				h.has = t.has
				if why := d.missing(h); why != "" && h.bad == "" {
					h.bad = why
				}
				t.st.q = h
				outs = append(outs, Out{t.st, VTuple{ph, VNil{}}})
			}
			continue
		}
		if l.err != "" {
			h.bad = l.err
		}
		d.deliver[h.last]++
		ph := mkPhrase(p, s, id, l.name, name, value)
		s.q = h
		outs = append(outs, Out{s, VTuple{ph, VNil{}}})
	}
	return outs
}

// notOneOf restricts an unknown string to differ from the words in any case.
func (d *decRun) notOneOf(s *State, id string, up, lo []string) {
	set := func(id string, ws []string) {
		f := s.fact(id)
		for _, w := range ws {
			f.Ne = insStr(f.Ne, w)
		}
		s.setFact(id, f)
	}
	set(id, append(append([]string{}, up...), lo...))
	set("upper("+id+")", up)
	set("lower("+id+")", lo)
	s.lenSym("upper(" + id + ")")
	s.lenSym("lower(" + id + ")")
}

// missing explains why the lines seen so far are no complete component.
func (d *decRun) missing(g decGhost) string {
	for _, k := range d.sec.required() {
		if d.count(g, k) == 0 {
			return "missing " + k
		}
	}
	for _, c := range d.sec.Cons {
		if !c.ok(func(k string) bool { return d.count(g, k) > 0 || strings.Contains(g.has, "+"+k+";") }) {
			return c.String()
		}
	}
	return ""
}

type hasState struct {
	st  *State
	has string
}

// constrained separates the states by which fields named in requirements are
// set, of those whose lines are not counted.
func (d *decRun) constrained(s *State) []hasState {
	r := []hasState{{s, ""}}
	for _, k := range d.consKeys() {
		f := d.sec.field(k)
		if !d.anyBefore(f) {
			continue
		}
		var n []hasState
		for _, t := range r {
			var set Value
			if f.Card == '*' {
				set = VCmp{"<", Lin{}.sub(t.st.lenSym("§old." + f.Name))}
			} else {
				set = VEq{d.get(t.st, f), VNil{}, false}
			}
			for _, b := range []bool{false, true} {
				u := t.st.clone()
				if u.assume(set, b == (f.Card == '*')) && (f.Card != '*' || u.assumeNil(d.oldList(f), !b)) {
					if b {
						n = append(n, hasState{u, t.has + "+" + k + ";"})
					} else {
						n = append(n, hasState{u, t.has})
					}
				}
			}
		}
		r = n
	}
	return r
}

func (d *decRun) consKeys() []string {
	m := map[string]bool{}
	for _, c := range d.sec.Cons {
		m[c.A], m[c.B] = true, true
	}
	return sortedKeys(m)
}

// anyBefore reports whether the field may hold anything from earlier lines.
func (d *decRun) anyBefore(f *Field) bool {
	return f.Card == '*' && f == d.f || !d.tracked(f.Key)
}

func (d *decRun) get(s *State, f *Field) Value {
	return s.load(VPtr{Obj: "§s^", Path: []PE{{F: f.Index}}})
}

// oldList is what a field holds before any line is read.
func (d *decRun) oldList(f *Field) Value {
	return VUnk{"§old." + f.Name, f.listType(d.sec)}
}

// forget lets the field hold anything.
func (d *decRun) forget(s *State, f *Field) {
	id := "§old." + f.Name
	delete(s.facts, id)
	s.store(VPtr{Obj: "§s^", Path: []PE{{F: f.Index}}}, s.mk(f.listType(d.sec), id))
}

// decodeHook models the decoders of properties and nested components.
func (d *decRun) decodeHook(c *Call) ([]Out, bool) {
	if c.name == "invoke.GetPhrase" || strings.HasPrefix(c.name, "("+"*"+parserPath+".Parser).GetPhrase") {
		return d.getPhrase(c), true
	}
	if c.fn == nil || c.fn.Name() != "decode" || c.fn == d.sec.dec || c.fn.Signature.Recv() == nil {
		return nil, false
	}
	rt := c.fn.Signature.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		rt = pt.Elem()
	}
	nt, ok := rt.(*types.Named)
	if !ok {
		return nil, false
	}
	tn := nt.Obj().Name()
	_, isProp := propNames[tn]
	_, isComp := compNames[tn]
	if !isProp && !isComp {
		return nil, false
	}
	rp, okp := d.e.ptr(c.st, c.args[0], c.site, "receiver")
	if !okp {
		return nil, true
	}
	g := c.st.q.(decGhost)
	id := "§dec(" + tn
	if isProp {
		if len(c.args) == 3 {
			ps, isS := c.args[1].(VSlice)
			id += "," + d.paramsOf(c.st, ps, isS, c.args[1])
			id += "," + vkey(c.st.norm(c.st.seqOf(c.args[2])))
		} else {
			id += ",?"
		}
	} else {
		if g.open == compNames[tn] {
			id += fmt.Sprintf(",%s%d", g.open, d.count(g, g.open))
			g.open = ""
		} else {
			id += ",unexpected"
		}
		if len(c.args) < 2 || vkey(c.args[1]) != "~§t" {
			id += ",other stream"
		}
	}
	id += ")"
	var outs []Out
	ok1 := c.st.clone()
	ok1.q = g
	ok1.store(rp, ok1.mkNoFacts(nt, id))
	outs = append(outs, Out{ok1, VNil{}})
	if !d.noFail {
		bad := c.st.clone()
		h := g
		h.bad = "malformed " + tn
		bad.q = h
		bad.store(rp, bad.mkNoFacts(nt, "§junk"))
		outs = append(outs, Out{bad, VErr{ID: "decode error"}})
	}
	return outs, true
}

func (s *State) mkNoFacts(T types.Type, id string) Value {
	switch T.Underlying().(type) {
	case *types.Struct:
		return VUnk{id, T}
	}
	return s.mk(T, id)
}

// paramsOf describes the parameter slice handed to a property decoder.
func (d *decRun) paramsOf(s *State, x VSlice, ok bool, v Value) string {
	if !ok {
		return vkey(v)
	}
	if p, ok := x.B.(VPtr); ok && len(p.Path) == 0 && strings.HasPrefix(p.Obj, "§line(") {
		n := linSym(lenID(strings.TrimSuffix(p.Obj, "#")))
		if s.provEQ(x.Off, linConst(1)) && s.provEQ(x.Len, n.addC(-2)) {
			return strings.TrimSuffix(p.Obj, "#")
		}
	}
	return "params:" + x.key()
}

// run analyses the decoder of the section.
func (d *decRun) run() {
	d.e = NewEngine(d.r.p)
	e := d.e
	d.deliver = map[string]int{}
	d.okKey = map[string]bool{}
	e.roots["§s^"] = true
	e.noOblig = true
	e.hooks = append(e.hooks, d.decodeHook)
	st := e.state()
	g := decGhost{counts: strings.Repeat("0", len(d.keys))}
	st.q = g
	obj := zero(d.sec.T).(VStruct)
	for _, f := range d.sec.Fields {
		if d.anyBefore(f) {
			obj.F[f.Index] = st.mk(f.listType(d.sec), "§old."+f.Name)
		}
	}
	st.heap["§s^"] = Obj{d.sec.T, obj}
	st.setFact("§t", Fact{Nil: 2})
	args := []Value{VPtr{Obj: "§s^"}}
	for _, q := range d.sec.dec.Params[1:] {
		args = append(args, VUnk{"§t", q.Type()})
	}
	outs := e.run(d.sec.dec, args, nil, st)
	d.r.absorb(e, d.scope)
	for _, o := range outs {
		d.checkReturn(o)
	}
	for k, n := range d.deliver {
		_ = n
		d.r.seen("content line kinds offered", d.sec.Name+" "+k)
	}
}

func (d *decRun) tracked(k string) bool {
	for _, x := range d.keys {
		if x == k {
			return true
		}
	}
	return false
}

func (d *decRun) checkReturn(o Out) {
	g := o.st.q.(decGhost)
	pos := d.r.p.pos(d.sec.dec.Pos())
	n := o.st.nilness(o.v)
	desc := fmt.Sprintf("after lines %s, last: %s", d.seenKeys(g), g.last)
	if n != 2 {
		// may succeed
		d.okRets++
		switch {
		case g.bad != "":
			d.report("accept", "decoding "+d.sec.Name+" succeeds: "+g.bad, pos, fmt.Sprintf("the decoder of %s can return without error although: %s (%s)", d.sec.Name, g.bad, desc))
			return
		case !g.ended:
			d.report("noend", "decoding "+d.sec.Name+" ends early: "+g.last, pos, fmt.Sprintf("the decoder of %s can return without error before its END line (%s)", d.sec.Name, desc))
			return
		case g.lost != "":
			d.report("lost", "decoding "+d.sec.Name+" passes over "+g.lost, pos, fmt.Sprintf("the decoder of %s passes over: %s", d.sec.Name, g.lost))
			return
		case len(g.stack) > 0:
			d.report("noend", "decoding "+d.sec.Name+" inside unknown component", pos, "the decoder returns inside an unknown component")
			return
		}
		for _, k := range d.keys {
			if d.count(g, k) > 0 {
				d.okKey[k] = true
			}
		}
		d.checkFields(o, g, pos)
	}
	if n != 1 {
		d.errRets++
		if g.bad == "" && g.other == "" {
			d.report("reject", "decoding "+d.sec.Name+" fails at "+g.last, pos, fmt.Sprintf("the decoder of %s can fail although nothing is wrong with the input (%s)", d.sec.Name, desc))
		}
	}
}

func (d *decRun) seenKeys(g decGhost) string {
	var r []string
	for i, k := range d.keys {
		if g.counts[i] != '0' {
			r = append(r, fmt.Sprintf("%s×%c", k, g.counts[i]))
		}
	}
	return "[" + strings.Join(r, " ") + "]"
}

// checkFields compares the decoded component with the lines delivered.
func (d *decRun) checkFields(o Out, g decGhost, pos string) {
	for _, f := range d.sec.Fields {
		v := o.st.load(VPtr{Obj: "§s^", Path: []PE{{F: f.Index}}})
		n := d.count(g, f.Key)
		want := func(i int) string {
			tn := f.Elem.Obj().Name()
			if f.Comp {
				return fmt.Sprintf("§dec(%s,%s%d)", tn, f.Key, i)
			}
			return fmt.Sprintf("§dec(%s,§line(%s%d),%s)", tn, f.Key, i, vkey(opaqueSeq(fmt.Sprintf("§val(prop %s%d)", f.Key, i))))
		}
		got := ""
		ok := false
		expect := "unset"
		switch {
		case f.Card == '*':
			got, ok, expect = d.repField(o.st, f, v, n, want)
		case d.anyBefore(f):
			expect = "what it held before"
			got = vkey(v)
			ok = got == vkey(d.oldList(f)) || got == vkey(o.st.mk(f.listType(d.sec), "§old."+f.Name))
		case n == 0 && f.Card == '?':
			got = vkey(v)
			ok = o.st.nilness(v) == 1
		case n == 0:
			got = vkey(v)
			ok = got == vkey(zero(f.Elem))
		case f.Card == '?':
			expect = want(1)
			got = vkey(v)
			if p, isP := v.(VPtr); isP {
				got = vkey(o.st.load(p))
			}
			ok = got == vkey(o.st.mkNoFacts(f.Elem, expect))
		default:
			expect = want(1)
			got = vkey(v)
			ok = got == vkey(o.st.mkNoFacts(f.Elem, expect))
		}
		d.r.count("field contents compared", 1)
		if !ok {
			d.report("field", fmt.Sprintf("field %s.%s after %s", d.sec.Name, f.Name, g.counts1(d, f)), pos, fmt.Sprintf("after lines %s the field holds %s, expected %s", d.seenKeys(g), got, expect))
		}
	}
}

func (g decGhost) counts1(d *decRun, f *Field) string {
	n := d.count(g, f.Key)
	if n == 0 {
		return d.seenKeys(g) + " (no " + f.Key + " line)"
	}
	return fmt.Sprintf("%d %s line(s)", n, f.Key)
}

func (d *decRun) repField(s *State, f *Field, v Value, n int, want func(int) string) (string, bool, string) {
	hadOld := d.anyBefore(f)
	old := "§old." + f.Name
	var n0 Lin
	if hadOld {
		n0 = linSym(lenID(old))
	}
	expect := "earlier elements"
	for i := 1; i <= n; i++ {
		expect += ", " + want(i)
	}
	if n == 0 {
		if !hadOld {
			return vkey(v), s.nilness(v) == 1 || vkey(v) == "nil", "no elements"
		}
		x, ok := v.(VSlice)
		if !ok {
			return vkey(v), false, expect
		}
		u, isU := x.B.(VUnk)
		return vkey(v), isU && u.ID == old && s.provEQ(x.Len, n0) && s.provEQ(x.Off, Lin{}), expect
	}
	x, ok := v.(VSlice)
	if !ok {
		return vkey(v), false, expect
	}
	if !s.provEQ(x.Len, n0.addC(int64(n))) {
		return fmt.Sprintf("%s of length %s", vkey(v), x.Len.key()), false, expect
	}
	for i := 1; i <= n; i++ {
		el := d.e.elem(s, x, n0.addC(int64(i-1)))
		if vkey(el) != vkey(s.mkNoFacts(f.Elem, want(i))) {
			return fmt.Sprintf("element %d: %s", i, vkey(el)), false, expect
		}
	}
	if hadOld {
		// an arbitrary earlier element is still there
		k := linSym("κold")
		t := s.clone()
		t.z().sym("κold")
		t.assume(VCmp{"<=", k.neg()}, true)
		if t.assume(VCmp{"<", k.sub(n0)}, true) {
			el := d.e.elem(t, x, k)
			if vkey(el) != vkey(t.mkElem(VUnk{old + "#", f.listType(d.sec)}, old+"#["+k.key()+"]")) {
				return "earlier element: " + vkey(el), false, expect
			}
		}
	}
	return "", true, expect
}

func (f *Field) listType(s *Section) types.Type {
	return s.T.Underlying().(*types.Struct).Field(f.Index).Type()
}

// sectionDecode analyses the decoders of all components. Findings are passed to
// report with a kind.
func (r *Report) sectionDecode(variant func(string) string, tag string, full bool, report reporter) {
	var jobs []func()
	for _, s := range r.sections() {
		r.seen("component types", s.Name)
		for _, f := range s.Fields {
			keys := map[string]bool{}
			for _, k := range s.required() {
				keys[k] = true
			}
			keys[f.Key] = true
			d := &decRun{r: r, sec: s, f: f, keys: sortedKeys(keys), max: map[string]int{f.Key: 2}, variant: variant, depth: 1, report: report, scope: "decoding " + s.Name + " with " + f.Key + tag}
			jobs = append(jobs, func() {
				d.run()
				r.count("properties of components followed", 1)
				if !d.okKey[f.Key] {
					report("never", "decoding "+s.Name+" with "+f.Key, r.p.pos(s.dec.Pos()), "no way through the decoder accepts a component with this property")
				}
			})
		}
		if !full {
			continue
		}
		keys := map[string]bool{}
		for _, k := range s.required() {
			keys[k] = true
		}
		for _, c := range s.Cons {
			keys[c.A], keys[c.B] = true, true
		}
		d := &decRun{r: r, sec: s, keys: sortedKeys(keys), variant: variant, depth: 2, report: report, scope: "decoding " + s.Name + " requirements" + tag}
		jobs = append(jobs, func() {
			d.run()
			r.count("requirement combinations followed", 1<<len(d.keys))
			if d.okRets == 0 {
				report("never", "decoding "+s.Name, r.p.pos(s.dec.Pos()), "no way through the decoder accepts a complete component")
			}
		})
	}
	r.parallel(jobs)
}
