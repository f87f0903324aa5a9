package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parseLin reads back the key of a linear expression.
func parseLin(s string) (Lin, bool) {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return linConst(n), true
	}
	var l Lin
	for s != "" {
		i := 1
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		k, err := strconv.ParseInt(s[:i], 10, 64)
		if err != nil {
			return Lin{}, false
		}
		if i == len(s) {
			l.C += k
			return l, true
		}
		if s[i] != '*' {
			return Lin{}, false
		}
		j, depth := i+1, 0
	scan:
		for ; j < len(s); j++ {
			switch s[j] {
			case '(', '[', '{':
				depth++
			case ')', ']', '}':
				depth--
			case '+', '-':
				if depth == 0 && j > i+1 && j+1 < len(s) && s[j+1] >= '0' && s[j+1] <= '9' {
					break scan
				}
			}
		}
		l = l.add(linSym(s[i+1 : j]).scale(k))
		s = s[j:]
	}
	return l, true
}

// target identifies which part of the analysed value (object root) a receiver
// denotes: the field index path as text, and the element index if any.
func (e *Engine) target(s *State, root string, v Value) (field string, at *Lin, ok bool) {
	id := ""
	switch x := v.(type) {
	case VPtr:
		id = x.Obj
		for i, pe := range x.Path {
			if pe.F >= 0 {
				if o, okk := s.obj(x.Obj); okk && o.T != nil {
					T := o.T
					for _, q := range x.Path[:i] {
						if q.F >= 0 {
							T = T.Underlying().(*types.Struct).Field(q.F).Type()
						} else {
							T = elemType(T)
						}
					}
					id += "." + T.Underlying().(*types.Struct).Field(pe.F).Name()
				}
			} else {
				id += "[" + pe.I.key() + "]"
			}
		}
		if !strings.HasPrefix(id, root) {
			// a copy: identified by its contents
			return e.target(s, root, s.load(x))
		}
	case VUnk:
		id = x.ID
	case VSeq:
		id, _ = x.single()
	case VLin:
		if len(x.T) == 1 && x.T[0].K == 1 && x.C == 0 {
			id = x.T[0].Sym
		}
	case VSlice:
		if u, isU := x.B.(VUnk); isU && s.provEQ(x.Off, Lin{}) && s.provEQ(x.Len, s.lenSym(u.ID)) {
			id = u.ID
		}
	case VAtom:
		if !x.Neg {
			id = x.ID
		}
	}
	rest, okp := strings.CutPrefix(id, root)
	if !okp {
		return "", nil, false
	}
	rest = strings.TrimSuffix(rest, "^")
	if i := strings.IndexByte(rest, '['); i >= 0 && strings.HasSuffix(rest, "]") {
		l, okl := parseLin(rest[i+1 : len(rest)-1])
		if !okl {
			return "", nil, false
		}
		return strings.TrimSuffix(strings.TrimPrefix(rest[:i], "."), "#"), &l, true
	}
	return strings.TrimPrefix(rest, "."), nil, true
}

// recvType returns the named receiver type of a method of the package.
func (p *Prog) recvType(fn *ssa.Function) *types.Named {
	if fn == nil || fn.Signature.Recv() == nil || !p.inPkg(fn) {
		return nil
	}
	rt := fn.Signature.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		rt = pt.Elem()
	}
	nt, _ := rt.(*types.Named)
	return nt
}

type encGhost struct {
	phase int    // 0 before BEGIN, 1 inside, 2 after END
	line  string // text of the line being written
	act   bool   // ACTION line written
	ev    int    // times the followed field was written
	bad   string
}

func (g encGhost) Key() string {
	return fmt.Sprintf("%d;%s;%v;%d;%s", g.phase, g.line, g.act, g.ev, g.bad)
}

type encRun struct {
	r      *Report
	sec    *Section
	f      *Field // followed field
	e      *Engine
	report func(kind, construct, pos, msg string)
	events int
}

// isWrite recognises a write to the destination and returns what is written.
func isWrite(c *Call) (VSeq, bool) {
	n := strings.TrimPrefix(c.name, "invoke.")
	if c.fn != nil {
		n = c.fn.Name()
	}
	switch n {
	case "Write", "WriteString":
		if len(c.args) == 2 && vkey(c.args[0]) == "~§w" {
			return c.st.seqOf(c.args[1]), true
		}
	case "WriteByte", "WriteRune":
		if len(c.args) == 2 && vkey(c.args[0]) == "~§w" {
			if l, ok := c.args[1].(VLin); ok {
				return c.e.runeSeq(c.st, l.Lin), true
			}
		}
	}
	return VSeq{}, false
}

// writeOuts are the results of a write: its outcome is never looked at by the
// encoders, but both are possible.
func writeOuts(c *Call, st *State, n Lin) []Out {
	T := resultType(c.sig)
	if t, ok := T.(*types.Tuple); ok && t.Len() == 2 {
		return []Out{{st, VTuple{VLin{n}, VUnk{"§werr", t.At(1).Type()}}}}
	}
	if t, ok := T.(*types.Tuple); ok && t.Len() == 0 {
		return []Out{{st, nil}}
	}
	return []Out{{st, VUnk{"§werr", T}}}
}

func (d *encRun) text(c *Call, q VSeq) []Out {
	s := c.st
	q = s.norm(q)
	g := s.q.(encGhost)
	if t, ok := q.constant(); ok {
		g.line += t
	} else {
		g.line += "<data>"
		if g.bad == "" {
			g.bad = "data written outside of a property"
		}
	}
	for {
		i := strings.Index(g.line, "\r\n")
		if i < 0 {
			break
		}
		l := g.line[:i]
		g.line = g.line[i+2:]
		switch {
		case l == "BEGIN:"+d.sec.Wire && g.phase == 0:
			g.phase = 1
		case l == "END:"+d.sec.Wire && g.phase == 1:
			g.phase = 2
			if want := alarmActions[d.sec.Name]; want != "" && !g.act && g.bad == "" {
				g.bad = "END before ACTION"
			}
		case g.phase == 1 && alarmActions[d.sec.Name] != "" && l == "ACTION:"+alarmActions[d.sec.Name] && !g.act:
			g.act = true
		default:
			if g.bad == "" {
				g.bad = fmt.Sprintf("line %q in phase %d", l, g.phase)
			}
		}
	}
	if len(g.line) > 64 {
		g.line = g.line[:64]
	}
	s.q = g
	return writeOuts(c, s, s.seqLen(q))
}

func (d *encRun) hook(c *Call) ([]Out, bool) {
	if q, ok := isWrite(c); ok {
		return d.text(c, q), true
	}
	nt := d.r.p.recvType(c.fn)
	if nt == nil || (c.fn.Name() != "encode" && c.fn.Name() != "aencode") {
		return nil, false
	}
	tn := nt.Obj().Name()
	_, isProp := propNames[tn]
	_, isComp := compNames[tn]
	if !isProp && (!isComp || tn == d.sec.Name || tn == "Alarm" && alarmActions[d.sec.Name] != "") {
		return nil, false
	}
	g := c.st.q.(encGhost)
	if g.bad == "" {
		switch {
		case g.phase != 1:
			g.bad = fmt.Sprintf("%s written outside BEGIN and END", tn)
		case g.line != "":
			g.bad = fmt.Sprintf("%s written after the unfinished line %q", tn, g.line)
		case len(c.args) < 2 || vkey(c.args[1]) != "~§w":
			g.bad = fmt.Sprintf("%s written to something else than the destination", tn)
		}
	}
	c.st.q = g
	d.events++
	fld, at, ok := d.e.target(c.st, "§s^", c.args[0])
	if !ok {
		if g.bad == "" {
			g.bad = "a " + tn + " that is no field of the component is written: " + vkey(c.args[0])
		}
		c.st.q = g
		return []Out{{c.st, nil}}, true
	}
	if fld != d.f.Name {
		return []Out{{c.st, nil}}, true
	}
	return d.event(c.st, at, nil), true
}

// event: the followed field (element) is written.
func (d *encRun) event(s *State, at *Lin, _ any) []Out {
	g := s.q.(encGhost)
	if d.f.Card != '*' {
		g.ev++
		if g.ev > 1 && g.bad == "" {
			g.bad = d.f.Name + " written twice"
			g.ev = 2
		}
		s.q = g
		return []Out{{s, nil}}
	}
	if at == nil {
		if g.bad == "" {
			g.bad = d.f.Name + " written as a whole"
		}
		s.q = g
		return []Out{{s, nil}}
	}
	var outs []Out
	for i, st := range d.e.splitAt3(s, *at, "κ") {
		if st == nil {
			continue
		}
		h := g
		switch {
		case i == 0 && h.ev > 0 && h.bad == "":
			h.bad = d.f.Name + " elements written twice or out of order"
		case i == 1:
			h.ev++
			if h.ev > 1 && h.bad == "" {
				h.bad = d.f.Name + " element written twice"
			}
			if h.ev > 2 {
				h.ev = 2
			}
		case i == 2 && h.ev == 0 && h.bad == "":
			h.bad = d.f.Name + " element passed over or out of order"
		}
		st.q = h
		outs = append(outs, Out{st, nil})
	}
	return outs
}

// splitAt3 returns the states where at is before, equal to and after ghost k.
func (e *Engine) splitAt3(s *State, at Lin, k string) [3]*State {
	var r [3]*State
	g := linSym(k)
	for i, c := range []VCmp{{"<", at.sub(g)}, {"==", at.sub(g)}, {"<", g.sub(at)}} {
		n := s.clone()
		if n.assume(c, true) {
			r[i] = n
		}
	}
	return r
}

// entry prepares the analysis of a method of the section: for alarms through
// the enclosing Alarm value.
func (s *Section) entry(r *Report, st *State, method string) (*ssa.Function, []Value) {
	st.heap["§s^"] = Obj{s.T, VUnk{"§s^", s.T}}
	fn := map[string]*ssa.Function{"encode": s.enc, "valid": s.val}[method]
	recv := Value(VPtr{Obj: "§s^"})
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
		recv = VUnk{"§s^", s.T}
	}
	if alarmActions[s.Name] != "" {
		AT := r.p.namedType("Alarm")
		if !r.anchor(AT != nil, "type Alarm") {
			return nil, nil
		}
		afn := r.p.DeclMethod(AT, method)
		if !r.anchor(afn != nil, method+" of Alarm") {
			return nil, nil
		}
		st.heap["§a^"] = Obj{AT, VStruct{AT, []Value{VIface{types.NewPointer(s.T), VPtr{Obj: "§s^"}}}}}
		recv = VPtr{Obj: "§a^"}
		if _, ok := afn.Signature.Recv().Type().(*types.Pointer); !ok {
			recv = st.heap["§a^"].V
		}
		fn = afn
	}
	args := []Value{recv}
	for _, q := range fn.Params[1:] {
		st.setFact("§w", Fact{Nil: 2})
		args = append(args, VUnk{"§w", q.Type()})
	}
	return fn, args
}

func (d *encRun) run(present bool) {
	d.e = NewEngine(d.r.p)
	e := d.e
	e.noOblig = true
	e.roots["§s^"] = true
	e.roots["§a^"] = true
	e.hooks = append(e.hooks, d.hook)
	st := e.state()
	st.q = encGhost{}
	id := "§s^." + d.f.Name
	switch d.f.Card {
	case '?':
		n := int8(1)
		if present {
			n = 2
		}
		st.setFact(id, Fact{Nil: n})
	case '*':
		e.ghostAt = map[string]string{id + "#": "κ"}
		k := linSym("κ")
		st.z().assumeLE(k.neg())
		st.z().assumeLE(k.addC(1).sub(st.lenSym(id)))
	}
	fn, args := d.sec.entry(d.r, st, "encode")
	if fn == nil {
		return
	}
	outs := e.run(fn, args, nil, st)
	what := "encoding " + d.sec.Name + "." + d.f.Name
	d.r.absorb(e, what)
	pos := d.r.p.pos(d.sec.enc.Pos())
	if len(outs) == 0 {
		d.report("noreturn", what, pos, "the encoder never returns")
	}
	for _, o := range outs {
		g := o.st.q.(encGhost)
		want := 1
		if d.f.Card == '?' && !present {
			want = 0
		}
		d.r.count("written fields followed", 1)
		switch {
		case g.bad != "":
			d.report("encode", what+": "+g.bad, pos, "while encoding "+d.sec.Name+": "+g.bad)
		case g.phase != 2 || g.line != "":
			d.report("frame", "encoding "+d.sec.Name, pos, fmt.Sprintf("the encoder of %s can return without having written its BEGIN and END lines (phase %d, pending %q)", d.sec.Name, g.phase, g.line))
		case g.ev != want:
			s := "is not written although it is set"
			if want == 0 {
				s = "is written although it is not set"
			}
			d.report("missing", what, pos, fmt.Sprintf("%s.%s %s", d.sec.Name, d.f.Name, s))
		}
	}
}

// sectionEncode follows every field through the encoder of its component.
func (r *Report) sectionEncode(report reporter) {
	var jobs []func()
	for _, s := range r.sections() {
		r.seen("component types", s.Name)
		fs := s.Fields
		if len(fs) == 0 {
			fs = []*Field{{Name: "(none)", Card: '0'}}
		}
		for _, f := range fs {
			d := &encRun{r: r, sec: s, f: f, report: report}
			if f.Card == '0' {
				d.f = &Field{Name: "(none)", Card: '?'}
				jobs = append(jobs, func() { d.run(false) })
				continue
			}
			jobs = append(jobs, func() {
				d.run(true)
				r.sample("%s.%s (%c) as %s: %d write events", s.Name, f.Name, f.Card, f.Key, d.events)
			})
			if f.Card == '?' {
				jobs = append(jobs, func() { (&encRun{r: r, sec: s, f: f, report: report}).run(false) })
			}
		}
	}
	r.parallel(jobs)
}

// ---- validation

type valGhost struct {
	fail bool // the followed part was found invalid
	all  bool
}

func (g valGhost) Key() string { return fmt.Sprint(g.fail, g.all) }

type valRun struct {
	r       *Report
	sec     *Section
	f       *Field // followed field, nil: all parts are valid
	present map[string]bool
	e       *Engine
	report  func(kind, construct, pos, msg string)
}

func (d *valRun) hook(c *Call) ([]Out, bool) {
	nt := d.r.p.recvType(c.fn)
	if nt == nil || c.fn.Name() != "valid" {
		return nil, false
	}
	tn := nt.Obj().Name()
	_, isProp := propNames[tn]
	_, isComp := compNames[tn]
	if !isProp && (!isComp || tn == d.sec.Name || tn == "Alarm" && alarmActions[d.sec.Name] != "") {
		return nil, false
	}
	ok := []Out{{c.st, VNil{}}}
	bad := VErr{ID: "invalid part"}
	if d.f == nil {
		return ok, true
	}
	fld, at, known := d.e.target(c.st, "§s^", c.args[0])
	if !known || fld != d.f.Name {
		// others may be valid or not
		return []Out{{c.st.clone(), VNil{}}, {c.st.clone(), VErr{ID: "other invalid part"}}}, true
	}
	if d.f.Card != '*' {
		return []Out{{c.st, bad}}, true
	}
	var outs []Out
	if at == nil {
		return []Out{{c.st, bad}}, true
	}
	for i, st := range d.e.splitAt3(c.st, *at, "κ") {
		if st == nil {
			continue
		}
		if i == 1 {
			outs = append(outs, Out{st, bad})
		} else {
			outs = append(outs, Out{st, VNil{}})
		}
	}
	return outs, true
}

func (d *valRun) run() (anyNil, anyErr bool) {
	d.e = NewEngine(d.r.p)
	e := d.e
	e.noOblig = true
	e.roots["§s^"] = true
	e.roots["§a^"] = true
	e.hooks = append(e.hooks, d.hook)
	st := e.state()
	set := func(f *Field, present bool) {
		id := "§s^." + f.Name
		switch f.Card {
		case '?':
			n := int8(1)
			if present {
				n = 2
			}
			st.setFact(id, Fact{Nil: n})
		case '*':
			if present {
				st.z().assumeLE(linConst(1).sub(st.lenSym(id)))
			} else {
				st.z().assumeEQ(st.lenSym(id))
			}
		}
	}
	what := "validating " + d.sec.Name
	if d.f != nil {
		what += "." + d.f.Name
		set(d.f, true)
		if d.f.Card == '*' {
			id := "§s^." + d.f.Name
			e.ghostAt = map[string]string{id + "#": "κ"}
			k := linSym("κ")
			st.z().assumeLE(k.neg())
			st.z().assumeLE(k.addC(1).sub(st.lenSym(id)))
		}
	}
	for _, k := range sortedKeys(d.present) {
		set(d.sec.field(k), d.present[k])
	}
	fn, args := d.sec.entry(d.r, st, "valid")
	if fn == nil {
		return
	}
	outs := e.run(fn, args, nil, st)
	d.r.absorb(e, what)
	for _, o := range outs {
		switch o.st.nilness(o.v) {
		case 1:
			anyNil = true
		case 2:
			anyErr = true
		default:
			anyNil, anyErr = true, true
		}
	}
	return
}

// sectionValid checks that validation reports every invalid part (kind
// "skip"), accepts valid components ("reject") and refuses forbidden
// combinations ("combo").
func (r *Report) sectionValid(report reporter) {
	var jobs []func()
	for _, s := range r.sections() {
		r.seen("component types", s.Name)
		pos := r.p.pos(s.val.Pos())
		for _, f := range s.Fields {
			jobs = append(jobs, func() {
				d := &valRun{r: r, sec: s, f: f, report: report}
				anyNil, anyErr := d.run()
				r.count("parts made invalid", 1)
				if anyNil || !anyErr {
					report("skip", "validating "+s.Name+"."+f.Name, pos, fmt.Sprintf("validation of %s can succeed although its %s is invalid", s.Name, f.Name))
				}
			})
		}
		keys := map[string]bool{}
		for _, c := range s.Cons {
			keys[c.A], keys[c.B] = true, true
		}
		ks := sortedKeys(keys)
		for m := 0; m < 1<<len(ks); m++ {
			d := &valRun{r: r, sec: s, present: map[string]bool{}, report: report}
			var has []string
			for i, k := range ks {
				d.present[k] = m>>i&1 == 1
				if d.present[k] {
					has = append(has, k)
				}
			}
			broken := ""
			for _, c := range s.Cons {
				if !c.ok(func(k string) bool { return d.present[k] }) {
					broken = c.String()
				}
			}
			jobs = append(jobs, func() {
				anyNil, anyErr := d.run()
				r.count("property combinations", 1)
				if broken != "" && anyNil {
					report("combo", "validating "+s.Name+" with "+fmt.Sprint(has), pos, fmt.Sprintf("validation of %s accepts the properties %v although %s", s.Name, has, broken))
				}
				if broken == "" && (anyErr || !anyNil) {
					report("reject", "validating "+s.Name+" with "+fmt.Sprint(has), pos, fmt.Sprintf("validation of %s can fail although all its parts are valid and it has the allowed combination %v", s.Name, has))
				}
			})
		}
	}
	r.parallel(jobs)
}
