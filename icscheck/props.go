package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Properties: parameters and value, analysed one property type at a time.

// PField is a parameter or value held by a property.
type PField struct {
	Name  string
	Index int
	Key   string // parameter name, or VALUE keyword
	Elem  *types.Named
	Ptr   bool
}

// Prop is a property type.
type Prop struct {
	Name, Wire    string
	T             *types.Named
	Kind          string // "enum", "alias" (of one value type), "struct"
	Params        []*PField
	Vals          []*PField
	dec, enc, val *ssa.Function
}

// multi reports whether the property chooses between value types.
func (p *Prop) multi() bool { return len(p.Vals) > 1 }

// defaultValue is the value type used without a VALUE parameter.
var defaultValue = map[string]string{
	"PropAttachment": "URI", "PropDateTimeEnd": "DateTime", "PropDateTimeStart": "DateTime", "PropDue": "DateTime",
	"PropExceptionDateTime": "DateTime", "PropRecurrenceDateTimes": "DateTime", "PropRecurrenceID": "DateTime", "PropTrigger": "Duration",
}

// isValueType reports whether T is one of the value types: it is decoded from
// the parameters and the text of a value.
func (p *Prog) isValueType(T *types.Named) bool {
	if T == nil || T.Obj().Pkg() != p.Types {
		return false
	}
	fn := p.DeclMethod(T, "decode")
	return fn != nil && isValueDecode(fn)
}

func isValueDecode(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	if ps.Len() != 2 {
		return false
	}
	_, isMap := ps.At(0).Type().Underlying().(*types.Map)
	return isMap && isString(ps.At(1).Type())
}

// declaredAs finds the named type a type was declared from.
func (p *Prog) declaredAs(T *types.Named) *types.Named {
	for _, f := range p.Syntax.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				ts, ok := sp.(*ast.TypeSpec)
				if !ok || p.Syntax.TypesInfo.Defs[ts.Name] != T.Obj() {
					continue
				}
				nt, _ := p.Syntax.TypesInfo.TypeOf(ts.Type).(*types.Named)
				return nt
			}
		}
	}
	return nil
}

func (r *Report) props() []*Prop {
	var ps []*Prop
	for _, n := range sortedKeys(propNames) {
		if p := r.prop(n); p != nil {
			ps = append(ps, p)
		}
	}
	return ps
}

func (r *Report) prop(n string) *Prop {
	T := r.p.namedType(n)
	if !r.anchor(T != nil, "property type "+n) {
		return nil
	}
	p := &Prop{Name: n, Wire: propNames[n], T: T}
	p.dec, p.enc, p.val = r.p.DeclMethod(T, "decode"), r.p.DeclMethod(T, "encode"), r.p.DeclMethod(T, "valid")
	r.anchor(p.dec != nil, "decoding of "+n)
	r.anchor(p.enc != nil, "encoding of "+n)
	r.anchor(p.val != nil, "validation of "+n)
	if p.dec == nil || p.enc == nil || p.val == nil {
		return nil
	}
	if len(p.dec.Params) != 3 {
		r.anchor(false, "parameters and value of the decoding of "+n)
		return nil
	}
	if as := r.p.declaredAs(T); r.p.isValueType(as) {
		p.Kind = "alias"
		p.Vals = []*PField{{Name: "", Index: -1, Elem: as, Key: valueNames[as.Obj().Name()]}}
		return p
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		if !isInt(T) {
			r.anchor(false, "value type of "+n)
			return nil
		}
		p.Kind = "enum"
		return p
	}
	p.Kind = "struct"
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		f := &PField{Name: v.Name(), Index: i}
		t := v.Type()
		if x, ok := t.(*types.Pointer); ok {
			f.Ptr, t = true, x.Elem()
		}
		nt, _ := t.(*types.Named)
		if nt == nil {
			r.anchor(false, "type of field "+n+"."+v.Name())
			continue
		}
		f.Elem = nt
		tn := nt.Obj().Name()
		if w, ok := paramNames[tn]; ok {
			f.Key = w
			p.Params = append(p.Params, f)
		} else if r.p.isValueType(nt) {
			f.Key = valueNames[tn]
			p.Vals = append(p.Vals, f)
		} else {
			r.anchor(false, "role of field "+n+"."+v.Name()+" of type "+tn)
		}
	}
	if !r.anchor(len(p.Vals) > 0, "value of "+n) {
		return nil
	}
	return p
}

// defaultVal returns the value field used when no VALUE parameter is given.
func (p *Prop) defaultVal() *PField {
	if len(p.Vals) == 1 {
		return p.Vals[0]
	}
	for _, v := range p.Vals {
		if v.Elem.Obj().Name() == defaultValue[p.Name] {
			return v
		}
	}
	return nil
}

// ---- decoding

// shapeParam is a parameter offered to a property decoder.
type shapeParam struct {
	key    string   // canonical name
	spell  string   // spelling
	vals   []string // literal values, "" for arbitrary ones
	quoted bool
}

type propShape struct {
	what   string
	params []shapeParam
	fail   string // decoding has to fail because of it
}

type propGhost struct{ bad string }

func (g propGhost) Key() string { return g.bad }

type propDec struct {
	r      *Report
	p      *Prop
	e      *Engine
	sh     propShape
	report reporter
	scope  string
}

func tokenKind(p *Prog, n string) Lin {
	v, ok := constInt(p, modPath, n)
	if !ok {
		panic("no constant " + n)
	}
	return linConst(v)
}

// tokenList builds a slice of tokens with known kinds and data.
func tokenList(p *Prog, s *State, id string, kinds []Lin, data []VSeq) VSlice {
	TT := structType(p, parserPath, "Token")
	st := types.NewSlice(TT)
	obj := id + "#"
	n := linConst(int64(len(kinds)))
	a := VArr{N: n, Def: VUnk{obj, st}}
	for i := range kinds {
		a.Cells = append(a.Cells, Cell{linConst(int64(i)), VStruct{TT, []Value{VLin{kinds[i]}, data[i]}}})
	}
	s.heap[obj] = Obj{st, a}
	return VSlice{VPtr{Obj: obj}, Lin{}, n}
}

func (d *propDec) paramTokens(s *State) Value {
	p := d.r.p
	var ks []Lin
	var ds []VSeq
	for i, q := range d.sh.params {
		ks = append(ks, tokenKind(p, "tokenParamName"))
		ds = append(ds, lit(q.spell))
		for j, v := range q.vals {
			if q.quoted {
				ks = append(ks, tokenKind(p, "tokenParamQuotedValue"))
			} else {
				ks = append(ks, tokenKind(p, "tokenParamValue"))
			}
			if v != "" {
				ds = append(ds, lit(v))
			} else {
				id := fmt.Sprintf("§pv(%d.%d)", i, j)
				s.lenSym(id)
				ds = append(ds, opaqueSeq(id))
			}
		}
	}
	if len(ks) == 0 {
		return VNil{}
	}
	return tokenList(p, s, "§params", ks, ds)
}

// valuesKey describes the values of parameter i of the shape.
func (d *propDec) valuesKey(i int) string {
	q := d.sh.params[i]
	kind := tokenKind(d.r.p, "tokenParamValue")
	if q.quoted {
		kind = tokenKind(d.r.p, "tokenParamQuotedValue")
	}
	var r []string
	for j, v := range q.vals {
		sq := lit(v)
		if v == "" {
			sq = opaqueSeq(fmt.Sprintf("§pv(%d.%d)", i, j))
		}
		r = append(r, kind.key()+":"+vkey(sq))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// tokensKey describes a slice of tokens by its elements.
func tokensKey(e *Engine, s *State, v Value) string {
	if _, ok := v.(VNil); ok {
		return "[]"
	}
	x, ok := v.(VSlice)
	if !ok || !x.Len.isConst() || x.Len.C > 16 {
		return "?" + vkey(v)
	}
	var r []string
	for i := int64(0); i < x.Len.C; i++ {
		t, ok := e.elem(s, x, linConst(i)).(VStruct)
		if !ok {
			return "?" + vkey(v)
		}
		r = append(r, vkey(t.F[0])+":"+vkey(s.norm(s.seqOf(t.F[1]))))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// valueParams are the parameters that matter for decoding values.
var valueParams = []string{"ENCODING", "TZID"}

func paramMapKey(s *State, v Value) string {
	var m VMap
	switch x := v.(type) {
	case VPtr:
		mm, ok := s.load(x).(VMap)
		if !ok {
			return "?" + vkey(v)
		}
		m = mm
	case VNil:
	default:
		return "?" + vkey(v)
	}
	var r []string
	for _, k := range valueParams {
		got := m.get(vkey(lit(k)))
		if vkey(got) == absent.key() {
			continue
		}
		if q, ok := got.(VSeq); ok {
			r = append(r, k+"="+vkey(s.norm(q)))
		} else {
			r = append(r, k+"=?"+vkey(got))
		}
	}
	return "{" + strings.Join(r, " ") + "}"
}

func (d *propDec) hook(c *Call) ([]Out, bool) {
	nt := d.r.p.recvType(c.fn)
	if nt == nil || c.fn.Name() != "decode" || c.fn == d.p.dec {
		return nil, false
	}
	tn := nt.Obj().Name()
	id := ""
	if _, ok := paramNames[tn]; ok && len(c.args) == 2 {
		id = "§pdec(" + tn + "," + tokensKey(d.e, c.st, c.args[1]) + ")"
	} else if isValueDecode(c.fn) {
		id = "§vdec(" + tn + "," + paramMapKey(c.st, c.args[1]) + "," + vkey(c.st.norm(c.st.seqOf(c.args[2]))) + ")"
	} else {
		return nil, false
	}
	rp, ok := d.e.ptr(c.st, c.args[0], c.site, "receiver")
	if !ok {
		return nil, true
	}
	good := c.st.clone()
	good.store(rp, decoded(good, nt, id))
	bad := c.st.clone()
	bad.q = propGhost{"malformed " + tn}
	bad.store(rp, bad.mkNoFacts(nt, "§junk"))
	return []Out{{good, VNil{}}, {bad, VErr{ID: "decode error"}}}, true
}

// decoded is the result of decoding: a list has at least one element.
func decoded(s *State, T types.Type, id string) Value {
	v := s.mkNoFacts(T, id)
	if _, ok := T.Underlying().(*types.Slice); ok {
		s.z().assumeLE(linConst(1).sub(s.lenSym(id)))
		f := s.fact(id)
		f.Nil = 2
		s.setFact(id, f)
	}
	return v
}

func (d *propDec) run() {
	d.e = NewEngine(d.r.p)
	e := d.e
	e.noOblig = true
	e.roots["§p^"] = true
	e.unroll = true
	e.hooks = append(e.hooks, d.hook)
	st := e.state()
	st.q = propGhost{}
	st.heap["§p^"] = Obj{d.p.T, zero(d.p.T)}
	st.lenSym("§value")
	args := []Value{VPtr{Obj: "§p^"}, d.paramTokens(st), opaqueSeq("§value")}
	outs := e.run(d.p.dec, args, nil, st)
	d.r.absorb(e, d.scope)
	d.r.count("parameter lists followed", 1)
	okRet := false
	pos := d.r.p.pos(d.p.dec.Pos())
	for _, o := range outs {
		g := o.st.q.(propGhost)
		n := o.st.nilness(o.v)
		if n != 2 {
			okRet = true
			switch {
			case g.bad != "":
				d.report("accept", d.scope+": "+g.bad, pos, fmt.Sprintf("%s can succeed although: %s", d.scope, g.bad))
			case d.sh.fail != "":
				d.report("accept", d.scope, pos, fmt.Sprintf("%s can succeed although: %s", d.scope, d.sh.fail))
			default:
				d.fields(o, pos)
			}
		}
		if n != 1 && g.bad == "" && d.sh.fail == "" {
			d.report("reject", d.scope, pos, fmt.Sprintf("%s can fail although all its parts can be decoded", d.scope))
		}
	}
	if !okRet && d.sh.fail == "" {
		d.report("never", d.scope, pos, fmt.Sprintf("%s never succeeds", d.scope))
	}
}

// fields compares the decoded property with what was offered.
func (d *propDec) fields(o Out, pos string) {
	given := map[string]int{}
	others := map[string]string{}
	val := d.p.defaultVal()
	for i, q := range d.sh.params {
		known := false
		for _, f := range d.p.Params {
			if f.Key == q.key {
				given[f.Key] = i + 1
				known = true
			}
		}
		if q.key == "VALUE" && d.p.multi() {
			for _, v := range d.p.Vals {
				if v.Key == strings.ToUpper(q.vals[0]) {
					val = v
				}
			}
			known = true
		}
		if !known {
			var sq VSeq
			for j, v := range q.vals {
				if j > 0 {
					sq = sq.concat(lit(","))
				}
				if v != "" {
					sq = sq.concat(lit(v))
				} else {
					sq = sq.concat(opaqueSeq(fmt.Sprintf("§pv(%d.%d)", i, j)))
				}
			}
			others[q.key] = vkey(o.st.norm(sq))
		}
	}
	var ps []string
	for _, k := range valueParams {
		if others[k] != "" {
			ps = append(ps, k+"="+others[k])
		}
	}
	get := func(f *PField) Value {
		if f.Index < 0 {
			return o.st.load(VPtr{Obj: "§p^"})
		}
		return o.st.load(VPtr{Obj: "§p^", Path: []PE{{F: f.Index}}})
	}
	compare := func(f *PField, want string) {
		v := get(f)
		d.r.count("field contents compared", 1)
		name := d.p.Name + "." + f.Name
		if want == "" {
			ok := vkey(v) == vkey(zero(f.Elem)) || o.st.nilness(v) == 1
			if !ok {
				d.report("field", d.scope+": "+name, pos, fmt.Sprintf("%s sets %s to %s although nothing for it was given", d.scope, name, vkey(v)))
			}
			return
		}
		if f.Ptr {
			if pv, ok := v.(VPtr); ok {
				v = o.st.load(pv)
			} else {
				d.report("field", d.scope+": "+name, pos, fmt.Sprintf("%s leaves %s as %s, expected %s", d.scope, name, vkey(v), want))
				return
			}
		}
		if got := vkey(v); got != vkey(o.st.mkNoFacts(f.Elem, want)) {
			d.report("field", d.scope+": "+name, pos, fmt.Sprintf("%s leaves %s as %s, expected %s", d.scope, name, got, want))
		}
	}
	for _, f := range d.p.Params {
		if i := given[f.Key]; i > 0 {
			compare(f, "§pdec("+f.Elem.Obj().Name()+","+d.valuesKey(i-1)+")")
		} else {
			compare(f, "")
		}
	}
	for _, f := range d.p.Vals {
		if f == val {
			compare(f, "§vdec("+f.Elem.Obj().Name()+",{"+strings.Join(ps, " ")+"},"+vkey(opaqueSeq("§value"))+")")
		} else {
			compare(f, "")
		}
	}
}

// propShapes lists the parameter lists offered to the decoder of p.
func (p *Prop) shapes(variant func(string) string) []propShape {
	one := func(key string, vals ...string) shapeParam {
		if len(vals) == 0 {
			vals = []string{""}
		}
		return shapeParam{key: key, spell: variant(key), vals: vals}
	}
	var ss []propShape
	add := func(fail string, ps ...shapeParam) {
		var w []string
		for _, q := range ps {
			w = append(w, q.key+"="+strings.Join(q.vals, ","))
		}
		ss = append(ss, propShape{what: "[" + strings.Join(w, ";") + "]", params: ps, fail: fail})
	}
	val := func(v *PField) shapeParam { return one("VALUE", variant(v.Key)) }
	add("")
	add("", one("X-U"))
	add("", one("TZID"))
	add("", one("ENCODING"), one("TZID"))
	add("", one("X-U", "", ""), one("TZID", "", ""))
	add("", one("X-U"), one("X-U"))
	add("", one("X-U", "", "", ""), one("TZID"), one("X-V"))
	if p.multi() {
		add("VALUE names no supported type", one("VALUE", "X-TYPE"))
		supported := map[string]bool{}
		for _, v := range p.Vals {
			supported[v.Key] = true
		}
		for _, k := range sortedKeys(valueNames) {
			if !supported[valueNames[k]] {
				add("the property has no such value type", one("VALUE", valueNames[k]))
			}
		}
		for _, v := range p.Vals {
			add("", val(v))
			add("", val(v), one("TZID"))
			add("", one("X-U", "", ""), val(v))
			add("VALUE is given twice", val(v), val(v))
			add("VALUE has two values", one("VALUE", variant(v.Key), variant(v.Key)))
			for _, w := range p.Vals {
				if w != v {
					add("VALUE is given twice", val(v), val(w))
				}
			}
		}
	}
	for i, f := range p.Params {
		k := f.Key
		add("", one(k))
		add("", shapeParam{key: k, spell: variant(k), vals: []string{""}, quoted: true})
		add("", one(k, "", ""))
		add("", one("X-U"), one(k))
		add("", one(k), one("X-U", "", ""))
		add("", one(k), one("TZID"))
		add(k+" is given twice", one(k), one(k))
		add(k+" is given twice", one(k), one("X-U"), one(k, "", ""))
		add("", one(k, "", "", ""))
		add("", shapeParam{key: k, spell: variant(k), vals: []string{"", "", ""}, quoted: true})
		for j, g := range p.Params {
			if i == j {
				continue
			}
			add("", one(k), one(g.Key, "", ""))
			add(k+" is given twice", one(k), one(g.Key), one(k))
			add(k+" is given twice", one(g.Key), one(k), one(k))
			add("", one(k), one("X-U"), one(g.Key))
			for l, h := range p.Params {
				if l != i && l != j {
					add("", one(k), one(g.Key), one(h.Key))
				}
			}
		}
		for _, v := range p.Vals {
			if p.multi() {
				add("", one(k), val(v))
				add("", val(v), one(k, "", ""))
			}
		}
	}
	if n := len(p.Params); n > 3 {
		for i := range p.Params {
			var f, b []shapeParam
			for j := range p.Params {
				f = append(f, one(p.Params[(i+j)%n].Key))
				b = append(b, one(p.Params[(i+n-j)%n].Key))
			}
			add("", f...)
			add("", b...)
		}
	}
	return ss
}

// propDecode analyses the decoders of all properties with a value.
func (r *Report) propDecode(variant func(string) string, tag string, report reporter) {
	var jobs []func()
	for _, p := range r.props() {
		if p.Kind == "enum" {
			continue
		}
		r.seen("property types", p.Name)
		if p.multi() && !r.anchor(p.defaultVal() != nil, "default value type of "+p.Name) {
			continue
		}
		for _, sh := range p.shapes(variant) {
			d := &propDec{r: r, p: p, sh: sh, report: report, scope: "decoding " + p.Name + " with parameters " + sh.what + tag}
			jobs = append(jobs, d.run)
		}
	}
	r.parallel(jobs)
}

// ---- encoding

type lineGhost struct{ text string }

func (g lineGhost) Key() string { return g.text }

type propEnc struct {
	r       *Report
	p       *Prop
	f       *PField // followed parameter
	present bool
	val     *PField // the value that is set
	zone    string  // the zone of times, empty: any
	e       *Engine
	report  reporter
}

func (d *propEnc) hook(c *Call) ([]Out, bool) {
	if d.zone != "" && c.fn != nil && c.fn.String() == "(time.Time).Location" {
		T := c.fn.Signature.Results().At(0).Type()
		if d.zone == "another zone" {
			c.st.setFact("§zone", Fact{Nil: 2})
			return []Out{{c.st, VUnk{"§zone", T}}}, true
		}
		return []Out{{c.st, VUnk{"G:time." + d.zone, T}}}, true
	}
	emit := func(t string) {
		g := c.st.q.(lineGhost)
		g.text += t
		if len(g.text) > 300 {
			g.text = g.text[:300]
		}
		c.st.q = g
	}
	if q, ok := isWrite(c); ok {
		for _, p := range c.st.norm(q).P {
			if p.ID != "" {
				emit("‹data›")
			} else {
				emit(p.Lit)
			}
		}
		return writeOuts(c, c.st, c.st.seqLen(q)), true
	}
	nt := d.r.p.recvType(c.fn)
	if nt == nil || c.fn.Name() != "encode" || c.fn == d.p.enc {
		return nil, false
	}
	tn := nt.Obj().Name()
	_, isParam := paramNames[tn]
	if !isParam && !d.r.p.isValueType(nt) {
		return nil, false
	}
	if len(c.args) < 2 || vkey(c.args[1]) != "~§w" {
		emit("‹" + tn + " written elsewhere›")
		return []Out{{c.st, nil}}, true
	}
	fld, at, ok := d.e.target(c.st, "§p^", c.args[0])
	if !ok || at != nil {
		emit("‹" + tn + " that is no part of the property›")
		return []Out{{c.st, nil}}, true
	}
	if isParam {
		if d.f != nil && fld == d.f.Name {
			if !d.present && !d.f.Ptr {
				// writes nothing when empty: followed inside
				return nil, false
			}
			emit("‹param›")
		}
		return []Out{{c.st, nil}}, true
	}
	emit("‹" + tn + " " + fld + "›")
	return []Out{{c.st, nil}}, true
}

var headerItem = regexp.MustCompile(`^(;VALUE=([A-Z-]+)|;TZID=‹(data)›|;TZID="‹(data)›"|;ENCODING=(BASE64)|(‹param›))`)

func (d *propEnc) run() {
	d.e = NewEngine(d.r.p)
	e := d.e
	e.noOblig = true
	e.roots["§p^"] = true
	e.hooks = append(e.hooks, d.hook)
	st := e.state()
	st.q = lineGhost{}
	st.heap["§p^"] = Obj{d.p.T, VUnk{"§p^", d.p.T}}
	what := "encoding " + d.p.Name
	if d.p.multi() {
		what += " holding a " + d.val.Name
		for _, v := range d.p.Vals {
			n := int8(1)
			if v == d.val {
				n = 2
			}
			st.setFact("§p^."+v.Name, Fact{Nil: n})
		}
	}
	if d.zone != "" {
		what += " in " + d.zone
	}
	if d.f != nil {
		id := "§p^." + d.f.Name
		if d.present {
			what += " with " + d.f.Key
		} else {
			what += " without " + d.f.Key
		}
		d.assume(st, id)
	}
	recv := Value(VPtr{Obj: "§p^"})
	if !isPointer(d.p.enc.Signature.Recv().Type()) {
		recv = VUnk{"§p^", d.p.T}
	}
	st.setFact("§w", Fact{Nil: 2})
	outs := e.run(d.p.enc, []Value{recv, VUnk{"§w", d.p.enc.Params[1].Type()}}, nil, st)
	d.r.absorb(e, what)
	d.r.count("lines followed", 1)
	pos := d.r.p.pos(d.p.enc.Pos())
	if len(outs) == 0 {
		d.report("noreturn", what, pos, "the encoder never returns")
	}
	for _, o := range outs {
		d.check(what, pos, o.st.q.(lineGhost).text)
	}
}

func (d *propEnc) assume(st *State, id string) {
	switch {
	case d.f.Ptr:
		n := int8(1)
		if d.present {
			n = 2
		}
		st.setFact(id, Fact{Nil: n})
	case d.present:
		st.z().assumeLE(linConst(1).sub(st.lenSym(id)))
	default:
		st.z().assumeEQ(st.lenSym(id))
	}
}

// zonedTypes are the value types that are written with their time zone.
var zonedTypes = map[string]bool{"DateTime": true, "Time": true, "Period": true}

// check compares a written line with what it should consist of.
func (d *propEnc) check(what, pos, text string) {
	bad := func(kind, f string, a ...any) {
		d.report(kind, what+": "+fmt.Sprintf(f, a...), pos, fmt.Sprintf("%s writes %q: %s", what, text, fmt.Sprintf(f, a...)))
	}
	d.r.count("written lines compared", 1)
	rest, ok := strings.CutPrefix(text, d.p.Wire)
	if !ok || !strings.HasPrefix(rest, ";") && !strings.HasPrefix(rest, ":") && !strings.HasPrefix(rest, "‹") {
		bad("name", "the line is not named %s", d.p.Wire)
		return
	}
	params, tzs, value, enc := 0, 0, "", false
	for {
		m := headerItem.FindStringSubmatch(rest)
		if m == nil {
			break
		}
		switch {
		case m[2] != "":
			if value != "" {
				bad("line", "VALUE is written twice")
			}
			value = m[2]
		case m[3] != "":
			tzs++
		case m[4] != "":
			tzs++
		case m[5] != "":
			enc = true
		case m[6] != "":
			params++
		}
		rest = rest[len(m[0]):]
	}
	want := 0
	if d.f != nil && d.present {
		want = 1
	}
	if params != want {
		bad("missing", "parameter %s is written %d times", d.f.Key, params)
	}
	if d.p.multi() {
		if value == "" {
			value = d.p.defaultVal().Key
		}
		if value != d.val.Key {
			bad("value", "the line announces a %s value", value)
		}
	} else if value != "" && value != d.val.Key {
		bad("value", "the line announces a %s value", value)
	}
	tn := d.val.Elem.Obj().Name()
	switch {
	case tzs > 1:
		bad("line", "TZID is written twice")
	case tzs == 0 && d.zone == "another zone":
		bad("zone", "TZID is missing")
	case tzs > 0 && (d.zone == "UTC" || d.zone == "Local"):
		bad("zone", "TZID is written")
	case tzs > 0 && !zonedTypes[tn] && tn != "Recur":
		bad("zone", "TZID is written")
	}
	if tn == "Binary" && !enc {
		bad("value", "binary data without ENCODING=BASE64")
	}
	if wantEnd := ":‹" + tn + " " + d.val.Name + "›\r\n"; rest != wantEnd {
		bad("line", "expected parameters and then %q", wantEnd)
	}
}

// propEncode analyses the encoders of all properties with a value.
func (r *Report) propEncode(report reporter) {
	for _, p := range r.props() {
		if p.Kind == "enum" {
			continue
		}
		r.seen("property types", p.Name)
		if p.multi() && !r.anchor(p.defaultVal() != nil, "default value type of "+p.Name) {
			continue
		}
		for _, v := range p.Vals {
			(&propEnc{r: r, p: p, val: v, report: report}).run()
			if zonedTypes[v.Elem.Obj().Name()] {
				for _, z := range []string{"UTC", "Local", "another zone"} {
					(&propEnc{r: r, p: p, val: v, zone: z, report: report}).run()
				}
			}
			for _, f := range p.Params {
				for _, present := range []bool{true, false} {
					(&propEnc{r: r, p: p, val: v, f: f, present: present, report: report}).run()
				}
			}
		}
	}
}

// ---- validation

type propVal struct {
	r       *Report
	p       *Prop
	bad     *PField // the part that is invalid, nil: none
	present map[string]bool
	e       *Engine
}

func (d *propVal) hook(c *Call) ([]Out, bool) {
	nt := d.r.p.recvType(c.fn)
	if nt == nil || c.fn.Name() != "valid" || c.fn == d.p.val {
		return nil, false
	}
	if _, ok := paramNames[nt.Obj().Name()]; !ok && !d.r.p.isValueType(nt) {
		return nil, false
	}
	if d.bad == nil {
		return []Out{{c.st, VNil{}}}, true
	}
	fld, at, ok := d.e.target(c.st, "§p^", c.args[0])
	if ok && at == nil && fld == d.bad.Name && nt == d.bad.Elem {
		return []Out{{c.st, VErr{ID: "invalid part"}}}, true
	}
	return []Out{{c.st.clone(), VNil{}}, {c.st.clone(), VErr{ID: "other invalid part"}}}, true
}

func (d *propVal) run() (anyNil, anyErr bool) {
	d.e = NewEngine(d.r.p)
	e := d.e
	e.noOblig = true
	e.roots["§p^"] = true
	e.hooks = append(e.hooks, d.hook)
	st := e.state()
	st.heap["§p^"] = Obj{d.p.T, VUnk{"§p^", d.p.T}}
	what := "validating " + d.p.Name
	if d.bad != nil {
		what += "." + d.bad.Name
		if d.bad.Ptr {
			st.setFact("§p^."+d.bad.Name, Fact{Nil: 2})
		} else if _, ok := d.bad.Elem.Underlying().(*types.Slice); ok && d.bad.Index >= 0 {
			st.z().assumeLE(linConst(1).sub(st.lenSym("§p^." + d.bad.Name)))
		}
	}
	for k, v := range d.present {
		n := int8(1)
		if v {
			n = 2
		}
		st.setFact("§p^."+k, Fact{Nil: n})
	}
	recv := Value(VPtr{Obj: "§p^"})
	if !isPointer(d.p.val.Signature.Recv().Type()) {
		recv = VUnk{"§p^", d.p.T}
	}
	outs := e.run(d.p.val, []Value{recv}, nil, st)
	d.r.absorb(e, what)
	for _, o := range outs {
		switch o.st.nilness(o.v) {
		case 1:
			anyNil = true
		case 2:
			anyErr = true
		default:
			anyNil, anyErr = true, true
		}
	}
	return
}

// propValid checks that every part of a property is validated and that
// nothing but its parts and the number of its values makes validation fail.
func (r *Report) propValid(report reporter) {
	for _, p := range r.props() {
		if p.Kind == "enum" {
			continue
		}
		r.seen("property types", p.Name)
		pos := r.p.pos(p.val.Pos())
		for _, f := range append(append([]*PField{}, p.Params...), p.Vals...) {
			d := &propVal{r: r, p: p, bad: f}
			anyNil, anyErr := d.run()
			r.count("parts made invalid", 1)
			name := p.Name
			if f.Name != "" {
				name += "." + f.Name
			}
			if anyNil || !anyErr {
				report("skip", "validating "+name, pos, fmt.Sprintf("validation of %s can succeed although %s is invalid", p.Name, name))
			}
		}
		n := 0
		if p.multi() || p.Vals[0].Ptr {
			n = len(p.Vals)
		}
		for m := 0; m < 1<<n; m++ {
			d := &propVal{r: r, p: p, present: map[string]bool{}}
			var has []string
			for i := 0; i < n; i++ {
				d.present[p.Vals[i].Name] = m>>i&1 == 1
				if m>>i&1 == 1 {
					has = append(has, p.Vals[i].Name)
				}
			}
			anyNil, anyErr := d.run()
			r.count("value combinations", 1)
			okay := n == 0 || len(has) == 1
			if !okay && anyNil {
				report("combo", fmt.Sprintf("validating %s with values %v", p.Name, has), pos, fmt.Sprintf("validation of %s accepts it with the values %v", p.Name, has))
			}
			if okay && (anyErr || !anyNil) {
				report("reject", fmt.Sprintf("validating %s with values %v", p.Name, has), pos, fmt.Sprintf("validation of %s can fail although all its parts are valid and it has the values %v", p.Name, has))
			}
		}
	}
}
