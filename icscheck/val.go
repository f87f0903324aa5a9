package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Charset is a set of characters: an exact set of ASCII characters, a flag for
// all characters (or bytes) above 0x7f and a flag for the end-of-input mark -1.
type Charset struct {
	Lo, Hi   uint64
	Non, EOF bool
}

var (
	csAll  = Charset{^uint64(0), ^uint64(0), true, false}
	csAny  = Charset{^uint64(0), ^uint64(0), true, true}
	csNone = Charset{}
)

func csOf(s string) Charset {
	var c Charset
	for _, r := range s {
		c.add(int64(r))
	}
	return c
}

func csRange(lo, hi int64) Charset {
	var c Charset
	for v := min(max(lo, -1), 128); v <= min(hi, 128); v++ {
		c.add(v)
	}
	return c
}

func (c *Charset) add(v int64) {
	switch {
	case v == -1:
		c.EOF = true
	case v < 0:
	case v < 64:
		c.Lo |= 1 << v
	case v < 128:
		c.Hi |= 1 << (v - 64)
	default:
		c.Non = true
	}
}

func (c Charset) has(v int64) bool {
	switch {
	case v == -1:
		return c.EOF
	case v < 0:
		return false
	case v < 64:
		return c.Lo>>v&1 == 1
	case v < 128:
		return c.Hi>>(v-64)&1 == 1
	}
	return c.Non
}

func (c Charset) and(d Charset) Charset {
	return Charset{c.Lo & d.Lo, c.Hi & d.Hi, c.Non && d.Non, c.EOF && d.EOF}
}

func (c Charset) or(d Charset) Charset {
	return Charset{c.Lo | d.Lo, c.Hi | d.Hi, c.Non || d.Non, c.EOF || d.EOF}
}

func (c Charset) minus(d Charset) Charset {
	return Charset{c.Lo &^ d.Lo, c.Hi &^ d.Hi, c.Non && !d.Non, c.EOF && !d.EOF}
}

func (c Charset) empty() bool { return c == csNone }

func (c Charset) subset(d Charset) bool { return c.minus(d).empty() }

func (c Charset) String() string {
	if c == csAll {
		return "any"
	}
	var sb strings.Builder
	for v := int64(0); v < 128; v++ {
		if !c.has(v) {
			continue
		}
		e := v
		for e < 127 && c.has(e+1) {
			e++
		}
		if e > v+2 {
			sb.WriteString(strings.Trim(fmt.Sprintf("%q", rune(v)), "'") + "-" + strings.Trim(fmt.Sprintf("%q", rune(e)), "'"))
			v = e
		} else {
			sb.WriteString(strings.Trim(fmt.Sprintf("%q", rune(v)), "'"))
		}
	}
	if c.Non {
		sb.WriteString("+nonascii")
	}
	if c.EOF {
		sb.WriteString("+EOF")
	}
	return "[" + sb.String() + "]"
}

// fold adds the other letter case of every letter in c.
func (c Charset) fold() Charset {
	for v := int64('A'); v <= 'Z'; v++ {
		if c.has(v) || c.has(v+32) {
			c.add(v)
			c.add(v + 32)
		}
	}
	return c
}

// Value is an abstract value. Values are immutable.
type Value interface{ key() string }

type (
	VLin  struct{ Lin }
	VBool bool
	// VCmp is L op 0 for op one of == != <= <.
	VCmp struct {
		Op string
		L  Lin
	}
	// VEq is A == B (or != if Neg) for values other than integers.
	VEq struct {
		A, B Value
		Neg  bool
	}
	// VAtom is a boolean known only by name.
	VAtom struct {
		ID  string
		Neg bool
	}
	// VPred is a named predicate of a string-like value.
	VPred struct {
		Name string
		S    VSeq
		Arg  string
		Neg  bool
	}
	Part struct {
		Lit string
		ID  string
	}
	VSeq   struct{ P []Part }
	VSlice struct {
		B        Value // VPtr to the backing array, or VUnk for unknown contents
		Off, Len Lin
	}
	PE struct {
		F int // field index, or -1
		I Lin
	}
	VPtr struct {
		Obj  string
		Path []PE
	}
	VNil    struct{}
	VStruct struct {
		T types.Type
		F []Value
	}
	// VArr is the contents of an array of N elements: explicitly known cells,
	// a segment [Lo,Hi) with a common value, and a default for the others.
	VArr struct {
		N     Lin
		Def   Value
		Cells []Cell
		Seg   *Seg
	}
	Cell struct {
		I Lin
		V Value
	}
	Seg struct {
		Lo, Hi Lin
		V      Value
	}
	// VBytes is the contents of a byte array given as a character sequence.
	VBytes struct{ S VSeq }
	VIface struct {
		T types.Type
		V Value
	}
	VFn struct {
		Fn   *ssa.Function
		Bind []Value
	}
	VUnk struct {
		ID string
		T  types.Type
	}
	// VErr is a non-nil error, with the identities of the errors it wraps.
	VErr struct {
		ID     string
		Causes []string
	}
	VTuple []Value
	VAlt   []Value
	// VMap is the contents of a map: known keys, and what is known of others.
	VMap struct {
		Keys  []MapCell
		Other Value // nil: no other keys
	}
	MapCell struct {
		K, V Value
	}
	// VTok is the state of a character tokeniser: accepted and remaining input.
	VTok struct{ Pend, Src VSeq }
	// VIter is a range iterator over a string. What has been visited is only
	// taken off Src when loops are unrolled.
	VIter struct {
		ID   string
		Src  VSeq
		Done VSeq
	}
	// VOpaque is anything else, identified by a constant key.
	VOpaque struct{ K string }
)

func (v VLin) key() string  { return v.Lin.key() }
func (v VBool) key() string { return fmt.Sprint(bool(v)) }
func (v VCmp) key() string  { return "(" + v.L.key() + v.Op + "0)" }
func (v VEq) key() string {
	op := "=="
	if v.Neg {
		op = "!="
	}
	return "(" + v.A.key() + op + v.B.key() + ")"
}
func (v VAtom) key() string {
	if v.Neg {
		return "!" + v.ID
	}
	return "?" + v.ID
}
func (v VPred) key() string { return fmt.Sprintf("pred(%s,%s,%q,%v)", v.Name, v.S.key(), v.Arg, v.Neg) }
func (v VSeq) key() string {
	var sb strings.Builder
	sb.WriteString("“")
	for _, p := range v.P {
		if p.ID == "" {
			fmt.Fprintf(&sb, "%q", p.Lit)
		} else {
			sb.WriteString("<" + p.ID + ">")
		}
	}
	sb.WriteString("”")
	return sb.String()
}
func (v VSlice) key() string {
	return "slice{" + v.B.key() + "," + v.Off.key() + "," + v.Len.key() + "}"
}
func pathKey(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		if e.F >= 0 {
			fmt.Fprintf(&sb, ".%d", e.F)
		} else {
			sb.WriteString("[" + e.I.key() + "]")
		}
	}
	return sb.String()
}
func (v VPtr) key() string { return "&" + v.Obj + pathKey(v.Path) }
func (VNil) key() string   { return "nil" }
func (v VStruct) key() string {
	var sb strings.Builder
	sb.WriteString("{")
	for i, f := range v.F {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(vkey(f))
	}
	sb.WriteString("}")
	return sb.String()
}
func (v VArr) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "arr{%s def=%s", v.N.key(), vkey(v.Def))
	for _, c := range v.Cells {
		fmt.Fprintf(&sb, " [%s]=%s", c.I.key(), vkey(c.V))
	}
	if v.Seg != nil {
		fmt.Fprintf(&sb, " [%s:%s]=%s", v.Seg.Lo.key(), v.Seg.Hi.key(), vkey(v.Seg.V))
	}
	sb.WriteString("}")
	return sb.String()
}
func (v VBytes) key() string { return "bytes" + v.S.key() }
func (v VIface) key() string { return "iface(" + typeKey(v.T) + ":" + vkey(v.V) + ")" }
func (v VFn) key() string {
	s := "func " + v.Fn.String()
	for _, b := range v.Bind {
		s += "," + vkey(b)
	}
	return s
}
func (v VUnk) key() string { return "~" + v.ID }
func (v VErr) key() string { return "err:" + v.ID + "(" + strings.Join(v.Causes, ",") + ")" }
func (v VTuple) key() string {
	var s []string
	for _, e := range v {
		s = append(s, vkey(e))
	}
	return "(" + strings.Join(s, "; ") + ")"
}
func (v VAlt) key() string {
	var s []string
	for _, e := range v {
		s = append(s, vkey(e))
	}
	return "alt(" + strings.Join(s, "|") + ")"
}
func (v VMap) key() string {
	var s []string
	for _, c := range v.Keys {
		s = append(s, vkey(c.K)+":"+vkey(c.V))
	}
	return "map{" + strings.Join(s, ",") + " other=" + vkey(v.Other) + "}"
}
func (v VTok) key() string {
	return "tok{" + v.Pend.key() + "," + v.Src.key() + "}"
}
func (v VIter) key() string   { return "iter{" + v.ID + "," + v.Src.key() + "," + v.Done.key() + "}" }
func (v VOpaque) key() string { return "opaque:" + v.K }

func vkey(v Value) string {
	if v == nil {
		return "∅"
	}
	return v.key()
}

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeKeys.Store(t, s)
	return s
}

// isConstant reports whether v is fully known.
func lit(s string) VSeq {
	if s == "" {
		return VSeq{}
	}
	return VSeq{[]Part{{Lit: s}}}
}

func (v VSeq) constant() (string, bool) {
	switch len(v.P) {
	case 0:
		return "", true
	case 1:
		if v.P[0].ID == "" {
			return v.P[0].Lit, true
		}
	}
	return "", false
}

func (v VSeq) single() (string, bool) {
	if len(v.P) == 1 && v.P[0].ID != "" {
		return v.P[0].ID, true
	}
	return "", false
}

func (v VSeq) concat(w VSeq) VSeq {
	r := VSeq{append([]Part(nil), v.P...)}
	for _, p := range w.P {
		if p.ID == "" && p.Lit == "" {
			continue
		}
		if n := len(r.P); n > 0 && r.P[n-1].ID == "" && p.ID == "" {
			r.P[n-1].Lit += p.Lit
		} else {
			r.P = append(r.P, p)
		}
	}
	return r
}

func opaqueSeq(id string) VSeq { return VSeq{[]Part{{ID: id}}} }

// rename maps every symbol name within v.
func renameVal(v Value, f func(string) string) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case VLin:
		return VLin{x.Lin.rename(f)}
	case VCmp:
		return VCmp{x.Op, x.L.rename(f)}
	case VEq:
		return VEq{renameVal(x.A, f), renameVal(x.B, f), x.Neg}
	case VAtom:
		return VAtom{f(x.ID), x.Neg}
	case VPred:
		return VPred{x.Name, renameVal(x.S, f).(VSeq), x.Arg, x.Neg}
	case VSeq:
		r := VSeq{make([]Part, len(x.P))}
		for i, p := range x.P {
			if p.ID != "" {
				p.ID = f(p.ID)
			}
			r.P[i] = p
		}
		return r
	case VSlice:
		return VSlice{renameVal(x.B, f), x.Off.rename(f), x.Len.rename(f)}
	case VPtr:
		return VPtr{f(x.Obj), renamePath(x.Path, f)}
	case VStruct:
		r := VStruct{x.T, make([]Value, len(x.F))}
		for i, e := range x.F {
			r.F[i] = renameVal(e, f)
		}
		return r
	case VArr:
		r := VArr{N: x.N.rename(f), Def: renameVal(x.Def, f)}
		for _, c := range x.Cells {
			r.Cells = append(r.Cells, Cell{c.I.rename(f), renameVal(c.V, f)})
		}
		if x.Seg != nil {
			r.Seg = &Seg{x.Seg.Lo.rename(f), x.Seg.Hi.rename(f), renameVal(x.Seg.V, f)}
		}
		return r
	case VBytes:
		return VBytes{renameVal(x.S, f).(VSeq)}
	case VIface:
		return VIface{x.T, renameVal(x.V, f)}
	case VFn:
		r := VFn{Fn: x.Fn}
		for _, b := range x.Bind {
			r.Bind = append(r.Bind, renameVal(b, f))
		}
		return r
	case VUnk:
		return VUnk{f(x.ID), x.T}
	case VErr:
		r := VErr{ID: f(x.ID)}
		for _, c := range x.Causes {
			r.Causes = append(r.Causes, f(c))
		}
		return r
	case VTuple:
		r := make(VTuple, len(x))
		for i, e := range x {
			r[i] = renameVal(e, f)
		}
		return r
	case VAlt:
		r := make(VAlt, len(x))
		for i, e := range x {
			r[i] = renameVal(e, f)
		}
		return r
	case VMap:
		r := VMap{Other: renameVal(x.Other, f)}
		for _, c := range x.Keys {
			r.Keys = append(r.Keys, MapCell{renameVal(c.K, f), renameVal(c.V, f)})
		}
		return r
	case VTok:
		return VTok{renameVal(x.Pend, f).(VSeq), renameVal(x.Src, f).(VSeq)}
	case VIter:
		return VIter{f(x.ID), renameVal(x.Src, f).(VSeq), renameVal(x.Done, f).(VSeq)}
	}
	return v
}

func renamePath(p []PE, f func(string) string) []PE {
	var r []PE
	for _, e := range p {
		if e.F < 0 {
			e.I = e.I.rename(f)
		}
		r = append(r, e)
	}
	return r
}

// symsOf calls f for every symbol name in v (object names with obj=true).
func symsOf(v Value, f func(string), obj func(string)) {
	lin := func(l Lin) {
		for _, t := range l.T {
			f(t.Sym)
		}
	}
	seq := func(s VSeq) {
		for _, p := range s.P {
			if p.ID != "" {
				f(p.ID)
				f(lenID(p.ID))
				if c, ok := runePartSym(p.ID); ok {
					f(c)
				}
			}
		}
	}
	switch x := v.(type) {
	case nil:
	case VLin:
		lin(x.Lin)
	case VCmp:
		lin(x.L)
	case VEq:
		symsOf(x.A, f, obj)
		symsOf(x.B, f, obj)
	case VAtom:
		f(x.ID)
	case VPred:
		seq(x.S)
	case VSeq:
		seq(x)
	case VSlice:
		symsOf(x.B, f, obj)
		lin(x.Off)
		lin(x.Len)
	case VPtr:
		obj(x.Obj)
		for _, e := range x.Path {
			if e.F < 0 {
				lin(e.I)
			}
		}
	case VStruct:
		for _, e := range x.F {
			symsOf(e, f, obj)
		}
	case VArr:
		lin(x.N)
		symsOf(x.Def, f, obj)
		for _, c := range x.Cells {
			lin(c.I)
			symsOf(c.V, f, obj)
		}
		if x.Seg != nil {
			lin(x.Seg.Lo)
			lin(x.Seg.Hi)
			symsOf(x.Seg.V, f, obj)
		}
	case VBytes:
		seq(x.S)
	case VIface:
		symsOf(x.V, f, obj)
	case VFn:
		for _, b := range x.Bind {
			symsOf(b, f, obj)
		}
	case VUnk:
		f(x.ID)
		obj(derefObj(x.ID))
	case VErr:
		f(x.ID)
	case VTuple:
		for _, e := range x {
			symsOf(e, f, obj)
		}
	case VAlt:
		for _, e := range x {
			symsOf(e, f, obj)
		}
	case VMap:
		for _, c := range x.Keys {
			symsOf(c.K, f, obj)
			symsOf(c.V, f, obj)
		}
		symsOf(x.Other, f, obj)
	case VTok:
		seq(x.Pend)
		seq(x.Src)
	case VIter:
		f(x.ID)
		seq(x.Src)
		seq(x.Done)
	}
}

func lenID(id string) string    { return "len(" + id + ")" }
func derefObj(id string) string { return id + "^" }

// Fact is what is known about one symbol. Facts are immutable.
type Fact struct {
	Nil  int8 // 1 nil, 2 not nil
	B    int8 // 1 false, 2 true
	Eq   *string
	Ne   []string
	Cs   *Charset
	INe  []int64
	Ty   string
	TyNe []string
	Deps []string
}

func (f *Fact) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "n%db%d", f.Nil, f.B)
	if f.Eq != nil {
		fmt.Fprintf(&sb, "=%q", *f.Eq)
	}
	if len(f.Ne) > 0 {
		fmt.Fprintf(&sb, "≠%q", f.Ne)
	}
	if f.Cs != nil {
		sb.WriteString(f.Cs.String())
	}
	if len(f.INe) > 0 {
		fmt.Fprintf(&sb, "≠%v", f.INe)
	}
	if f.Ty != "" {
		sb.WriteString(" type " + f.Ty)
	}
	if len(f.TyNe) > 0 {
		fmt.Fprintf(&sb, " nottype%v", f.TyNe)
	}
	if len(f.Deps) > 0 {
		fmt.Fprintf(&sb, " deps%v", f.Deps)
	}
	return sb.String()
}

func insStr(l []string, s string) []string {
	i := sort.SearchStrings(l, s)
	if i < len(l) && l[i] == s {
		return l
	}
	r := append([]string(nil), l[:i]...)
	r = append(r, s)
	return append(r, l[i:]...)
}

func hasStr(l []string, s string) bool {
	i := sort.SearchStrings(l, s)
	return i < len(l) && l[i] == s
}

func unionStr(a, b []string) []string {
	for _, s := range b {
		a = insStr(a, s)
	}
	return a
}

func interStr(a, b []string) []string {
	var r []string
	for _, s := range a {
		if hasStr(b, s) {
			r = append(r, s)
		}
	}
	return r
}

func hasInt(l []int64, v int64) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// chars reports whether a sequence consists of single characters only.
func (q VSeq) chars() bool {
	for _, p := range q.P {
		if p.ID == "" {
			continue
		}
		if _, ok := runePartSym(p.ID); !ok {
			return false
		}
	}
	return true
}
