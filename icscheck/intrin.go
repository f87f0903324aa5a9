package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var intrinsics map[string]func(c *Call) []Out

var csDigit = csOf("0123456789")

func (c *Call) ret(v Value) []Out { return []Out{{c.st, v}} }

func (c *Call) seq(i int) VSeq {
	return c.st.norm(c.st.seqOf(c.args[i]))
}

func (c *Call) lin(i int) Lin {
	if l, ok := c.args[i].(VLin); ok {
		return l.Lin
	}
	return linSym("int(" + vkey(c.args[i]) + ")")
}

// fallible returns one outcome without and one with an error.
func (c *Call) fallible(id string, mkOK func(s *State) Value, T types.Type) []Out {
	var outs []Out
	ok := c.st.clone()
	f := ok.fact("ok:" + id)
	if f.B != 1 {
		ok.setFact("ok:"+id, Fact{B: 2})
		outs = append(outs, Out{ok, VTuple{mkOK(ok), VNil{}}})
	}
	if f.B != 2 {
		bad := c.st
		bad.setFact("ok:"+id, Fact{B: 1})
		var v Value
		if isPointer(T) {
			v = VNil{}
		} else {
			v = bad.mk(T, "failed("+id+")")
		}
		outs = append(outs, Out{bad, VTuple{v, VErr{ID: "err(" + id + ")", Causes: []string{"err(" + id + ")"}}}})
	}
	return outs
}

func foldSeq(c *Call, f func(string) string) (Value, bool) {
	if k, ok := c.seq(0).constant(); ok {
		return lit(f(k)), true
	}
	return nil, false
}

// mapSeq applies a character-wise function to the parts of a sequence.
func (c *Call) mapSeq(name string, q VSeq, f func(string) string, cs func(Charset) Charset) VSeq {
	var r VSeq
	for _, p := range q.P {
		if p.ID == "" {
			r = r.concat(lit(f(p.Lit)))
			continue
		}
		old := c.st.seqCs(VSeq{[]Part{p}})
		if n := cs(old); n == old && !old.Non && asciiFixed(f, old) {
			r = r.concat(VSeq{[]Part{p}})
			continue
		}
		id := name + "(" + p.ID + ")"
		c.st.setCs(id, cs(old))
		c.st.setDeps(id, c.st.depsID(p.ID))
		if !c.st.zone.has(lenID(id)) {
			c.st.lenSym(id)
			if !old.Non {
				c.st.z().assumeEQ(linSym(lenID(id)).sub(linSym(lenID(p.ID))))
			}
		}
		r = r.concat(opaqueSeq(id))
	}
	return r
}

func asciiFixed(f func(string) string, c Charset) bool {
	for v := int64(0); v < 128; v++ {
		if c.has(v) && f(string(rune(v))) != string(rune(v)) {
			return false
		}
	}
	return true
}

func upperCs(c Charset) Charset {
	var r Charset
	for v := int64(0); v < 128; v++ {
		if c.has(v) {
			r.add(int64(unicode.ToUpper(rune(v))))
		}
	}
	if c.Non {
		r.Non = true
		r = r.or(csOf("IS"))
	}
	return r
}

func lowerCs(c Charset) Charset {
	var r Charset
	for v := int64(0); v < 128; v++ {
		if c.has(v) {
			r.add(int64(unicode.ToLower(rune(v))))
		}
	}
	if c.Non {
		r.Non = true
		r = r.or(csOf("ik"))
	}
	return r
}

// seqResult makes an unknown string result with given characters.
func (c *Call) seqResult(id string, cs Charset, d []string) VSeq {
	c.st.setCs(id, cs)
	c.st.setDeps(id, d)
	c.st.lenSym(id)
	return opaqueSeq(id)
}

func (c *Call) pred(name string, q VSeq, arg string) []Out {
	p := VPred{Name: name, S: q, Arg: arg}
	if t, ok := c.st.decide(p); ok {
		return c.ret(VBool(t))
	}
	return c.ret(p)
}

func init() {
	intrinsics = map[string]func(c *Call) []Out{
		"errors.New": func(c *Call) []Out {
			tok := siteTok(c.site)
			id := "err" + tok
			if c.e.inInit {
				id = "G:err" + tok
			}
			return c.ret(VErr{ID: id, Causes: []string{id}})
		},
		"fmt.Errorf": inErrorf,
		"errors.Is": func(c *Call) []Out {
			if _, ok := c.args[0].(VNil); ok {
				_, ok := c.args[1].(VNil)
				return c.ret(VBool(ok))
			}
			x, ok1 := c.args[0].(VErr)
			y, ok2 := c.args[1].(VErr)
			if ok1 && ok2 && hasStr(x.Causes, y.ID) {
				return c.ret(VBool(true))
			}
			return c.ret(VAtom{ID: "errors.Is(" + vkey(c.args[0]) + "," + vkey(c.args[1]) + ")"})
		},

		"strings.ToUpper": func(c *Call) []Out {
			return c.ret(c.mapSeq("upper", c.seq(0), strings.ToUpper, upperCs))
		},
		"strings.ToLower": func(c *Call) []Out {
			return c.ret(c.mapSeq("lower", c.seq(0), strings.ToLower, lowerCs))
		},
		"strings.EqualFold": func(c *Call) []Out {
			a, b := c.seq(0), c.seq(1)
			if k, ok := a.constant(); ok {
				return c.pred("equalfold", b, k)
			}
			if k, ok := b.constant(); ok {
				return c.pred("equalfold", a, k)
			}
			return c.ret(VAtom{ID: "equalfold(" + a.key() + "," + b.key() + ")"})
		},
		"strings.HasPrefix": func(c *Call) []Out {
			if k, ok := c.seq(1).constant(); ok {
				return c.pred("hasprefix", c.seq(0), k)
			}
			return c.e.external(c)
		},
		"strings.HasSuffix": func(c *Call) []Out {
			if k, ok := c.seq(1).constant(); ok {
				return c.pred("hassuffix", c.seq(0), k)
			}
			return c.e.external(c)
		},
		"bytes.Equal": func(c *Call) []Out {
			return c.ret(VEq{A: c.seq(0), B: c.seq(1)})
		},
		"strings.ContainsAny": inContainsAny,
		"bytes.ContainsAny":   inContainsAny,
		"strings.IndexAny": func(c *Call) []Out {
			return c.index(func() []Out { return inContainsAny(c) }, Charset{}, c.constStr(1))
		},
		"strings.ContainsRune": func(c *Call) []Out {
			q := c.seq(0)
			r := c.lin(1)
			if k, ok := q.constant(); ok {
				return c.member(r, csOf(k), true)
			}
			if r.isConst() {
				return c.pred("containsany", q, string(rune(r.C)))
			}
			return c.e.external(c)
		},
		"strings.IndexRune": func(c *Call) []Out {
			q := c.seq(0)
			r := c.lin(1)
			if k, ok := q.constant(); ok && !r.isConst() {
				var outs []Out
				for _, o := range c.member(r, csOf(k), true) {
					if b, ok := o.v.(VBool); ok && !bool(b) {
						outs = append(outs, Out{o.st, VLin{linConst(-1)}})
						continue
					}
					id := "index(" + q.key() + "," + r.key() + ")"
					z := o.st.z()
					i := z.sym(id)
					z.le(0, i, 0)
					z.le(i, 0, int64(len(k)-1))
					outs = append(outs, Out{o.st, VLin{linSym(id)}})
				}
				return outs
			}
			if r.isConst() {
				return c.indexConst(q, string(rune(r.C)))
			}
			return c.e.external(c)
		},
		"strings.Contains": func(c *Call) []Out {
			q, k := c.seq(0), c.seq(1)
			if s, ok := k.constant(); ok {
				if s == "" {
					return c.ret(VBool(true))
				}
				if t, ok := q.constant(); ok {
					return c.ret(VBool(strings.Contains(t, s)))
				}
				if len(s) == 1 {
					return c.pred("containsany", q, s)
				}
				if c.st.seqCs(q).and(csOf(s)) != csOf(s) {
					return c.ret(VBool(false))
				}
			}
			return c.ret(VAtom{ID: "contains(" + q.key() + "," + k.key() + ")"})
		},
		"strings.IndexByte": func(c *Call) []Out {
			r := c.lin(1)
			if r.isConst() && r.C < 128 {
				return c.indexConst(c.seq(0), string(rune(r.C)))
			}
			return c.e.external(c)
		},
		"strings.Index": func(c *Call) []Out {
			if k, ok := c.seq(1).constant(); ok && len(k) == 1 {
				return c.indexConst(c.seq(0), k)
			}
			return c.e.external(c)
		},
		"strings.Split": func(c *Call) []Out {
			return c.split(c.seq(0), c.constStr(1), -1)
		},
		"strings.SplitN": func(c *Call) []Out {
			n := c.lin(2)
			if !n.isConst() {
				return c.e.external(c)
			}
			return c.split(c.seq(0), c.constStr(1), int(n.C))
		},
		"strings.Cut":  inCut,
		"strings.Join": inJoin,
		"strings.Repeat": func(c *Call) []Out {
			q := c.seq(0)
			n := c.lin(1)
			if k, ok := q.constant(); ok && n.isConst() && n.C >= 0 && n.C < 1000 {
				return c.ret(lit(strings.Repeat(k, int(n.C))))
			}
			return c.ret(c.seqResult("repeat("+q.key()+","+n.key()+")", c.st.seqCs(q), c.st.deps(q)))
		},
		"strings.TrimSpace":  inTrim,
		"strings.Trim":       inTrim,
		"strings.TrimLeft":   inTrim,
		"strings.TrimRight":  inTrim,
		"strings.TrimPrefix": inTrim,
		"strings.TrimSuffix": inTrim,
		"strings.ReplaceAll": inReplace,
		"strings.Replace":    inReplace,
		"strings.Clone":      func(c *Call) []Out { return c.ret(c.seq(0)) },

		"(*strings.Builder).WriteString": inBufWrite,
		"(*strings.Builder).Write":       inBufWrite,
		"(*strings.Builder).WriteByte":   inBufWrite,
		"(*strings.Builder).WriteRune":   inBufWrite,
		"(*strings.Builder).String":      func(c *Call) []Out { return c.ret(c.buf()) },
		"(*strings.Builder).Len":         func(c *Call) []Out { return c.ret(VLin{c.st.seqLen(c.buf())}) },
		"(*strings.Builder).Grow":        func(c *Call) []Out { return c.ret(nil) },
		"(*strings.Builder).Reset":       inBufReset,
		"(*bytes.Buffer).WriteString":    inBufWrite,
		"(*bytes.Buffer).Write":          inBufWrite,
		"(*bytes.Buffer).WriteByte":      inBufWrite,
		"(*bytes.Buffer).WriteRune":      inBufWrite,
		"(*bytes.Buffer).String":         func(c *Call) []Out { return c.ret(c.buf()) },
		"(*bytes.Buffer).Len":            func(c *Call) []Out { return c.ret(VLin{c.st.seqLen(c.buf())}) },
		"(*bytes.Buffer).Reset":          inBufReset,
		"(*bytes.Buffer).Grow":           func(c *Call) []Out { return c.ret(nil) },
		"(*bytes.Buffer).Bytes": func(c *Call) []Out {
			q := c.buf()
			tok := siteTok(c.site)
			q = c.e.withHeld(c.st, q, func() { c.st.fresh(tok) }).(VSeq)
			o := "b" + tok
			c.st.heap[o] = Obj{resultType(c.sig), VBytes{q}}
			return c.ret(VSlice{VPtr{Obj: o}, Lin{}, c.st.seqLen(q)})
		},

		"strconv.ParseInt":    func(c *Call) []Out { return c.parseInt(true) },
		"strconv.ParseUint":   func(c *Call) []Out { return c.parseInt(false) },
		"strconv.Atoi":        func(c *Call) []Out { return c.parseInt(true) },
		"strconv.FormatInt":   inFormatInt,
		"strconv.FormatUint":  inFormatInt,
		"strconv.Itoa":        inFormatInt,
		"strconv.AppendInt":   inAppendInt,
		"strconv.AppendUint":  inAppendInt,
		"strconv.ParseFloat":  inParseFloat,
		"strconv.FormatFloat": inFormatFloat,
		"strconv.AppendFloat": func(c *Call) []Out {
			d := *c
			d.args = c.args[1:]
			q := inFormatFloat(&d)[0].v.(VSeq)
			return c.ret(c.e.appendTo(c.st, c.site, c.args[0], q, resultType(c.sig), types.Typ[types.String]))
		},
		"(time.Time).After": func(c *Call) []Out {
			return c.ret(VAtom{ID: "after(" + vkey(c.args[0]) + "," + vkey(c.args[1]) + ")"})
		},
		"(time.Time).Before": func(c *Call) []Out {
			return c.ret(VAtom{ID: "after(" + vkey(c.args[1]) + "," + vkey(c.args[0]) + ")"})
		},
		"strconv.ParseBool": inParseBool,
		"strconv.FormatBool": func(c *Call) []Out {
			var outs []Out
			for _, t := range []bool{true, false} {
				st := c.st.clone()
				if st.assume(c.args[0], t) {
					outs = append(outs, Out{st, lit(strconv.FormatBool(t))})
				}
			}
			return outs
		},

		"unicode/utf8.DecodeRune":         inDecodeRune,
		"unicode/utf8.DecodeRuneInString": inDecodeRune,
		"unicode/utf8.EncodeRune":         inEncodeRune,
		"unicode/utf8.AppendRune": func(c *Call) []Out {
			q := c.e.runeSeq(c.st, c.lin(1))
			c.args[1] = q
			return c.ret(c.e.appendTo(c.st, c.site, c.args[0], q, c.sig.Params().At(0).Type(), types.Typ[types.String]))
		},
		"unicode/utf8.RuneLen": func(c *Call) []Out {
			l := c.lin(0)
			if c.st.linCs(l).Non && (c.st.zone.lb(l) < 0 || c.st.linCs(l).EOF) {
				return c.e.external(c)
			}
			n := c.st.seqLen(c.e.runeSeq(c.st, l))
			if u := c.st.zone.ub(n); u == c.st.zone.lb(n) {
				n = linConst(u)
			}
			return c.ret(VLin{n})
		},

		"math.IsNaN": func(c *Call) []Out { return c.ret(VAtom{ID: "isnan(" + vkey(c.args[0]) + ")"}) },
		"math.IsInf": func(c *Call) []Out {
			if l := c.lin(1); l.isConst() && l.C == 0 {
				return c.ret(VAtom{ID: "isinf(" + vkey(c.args[0]) + ")"})
			}
			return c.ret(VAtom{ID: "isinf(" + vkey(c.args[0]) + "," + vkey(c.args[1]) + ")"})
		},

		"(time.Time).IsZero": func(c *Call) []Out {
			a := VAtom{ID: "iszero(" + vkey(c.args[0]) + ")"}
			if u, ok := c.args[0].(VUnk); ok && strings.HasPrefix(u.ID, "zero:") {
				return c.ret(VBool(true))
			}
			return c.ret(a)
		},
		"(time.Time).Location": func(c *Call) []Out {
			id := "loc(" + vkey(c.args[0]) + ")"
			if u, ok := c.args[0].(VUnk); ok {
				if strings.HasPrefix(u.ID, "zero:") || strings.HasPrefix(u.ID, "utc(") {
					return c.ret(c.e.timeVar(c.st, "UTC"))
				}
				if strings.HasPrefix(u.ID, "local(") {
					return c.ret(c.e.timeVar(c.st, "Local"))
				}
				if strings.HasPrefix(u.ID, "zoned(") {
					c.st.setFact("§zone", Fact{Nil: 2})
					return c.ret(VUnk{"§zone", resultType(c.sig)})
				}
			}
			f := c.st.fact(id)
			f.Nil = 2
			c.st.setFact(id, f)
			c.st.setDeps(id, c.st.deps(c.args[0]))
			return c.ret(VUnk{id, resultType(c.sig)})
		},
		"(time.Time).UTC":   func(c *Call) []Out { return c.timeOp("utc") },
		"(time.Time).Local": func(c *Call) []Out { return c.timeOp("local") },
		"(time.Time).In":    func(c *Call) []Out { return c.timeOp("in:" + vkey(c.args[1])) },
		"(*time.Location).String": func(c *Call) []Out {
			id := "locname(" + vkey(c.args[0]) + ")"
			switch vkey(c.args[0]) {
			case "~G:time.UTC":
				return c.ret(lit("UTC"))
			case "~G:time.Local":
				return c.ret(lit("Local"))
			}
			c.st.lenSym(id)
			c.st.setDeps(id, c.st.deps(c.args[0]))
			return c.ret(opaqueSeq(id))
		},
		"(time.Time).AppendFormat": func(c *Call) []Out {
			q := c.timeFormat(c.args[0], c.seq(2))
			return c.ret(c.e.appendTo(c.st, c.site, c.args[1], q, resultType(c.sig), types.Typ[types.String]))
		},
		"(time.Time).Format": func(c *Call) []Out { return c.ret(c.timeFormat(c.args[0], c.seq(1))) },
		"time.Parse": func(c *Call) []Out {
			c.args = append(c.args, c.e.timeVar(c.st, "UTC"))
			return inParseTime(c)
		},
		"time.ParseInLocation": inParseTime,
		"time.LoadLocation": func(c *Call) []Out {
			id := "loadloc(" + c.seq(0).key() + ")"
			d := c.st.deps(c.seq(0))
			T := resultType(c.sig).(*types.Tuple).At(0).Type()
			return c.fallible(id, func(s *State) Value {
				f := s.fact(id)
				f.Nil = 2
				s.setFact(id, f)
				s.setDeps(id, d)
				return VUnk{id, T}
			}, T)
		},

		"net/url.Parse": func(c *Call) []Out {
			id := "url(" + c.seq(0).key() + ")"
			d := c.st.deps(c.seq(0))
			T := resultType(c.sig).(*types.Tuple).At(0).Type()
			return c.fallible(id, func(s *State) Value {
				f := s.fact(id)
				f.Nil = 2
				s.setFact(id, f)
				s.setDeps(id, d)
				s.setDeps(derefObj(id), d)
				return VUnk{id, T}
			}, T)
		},
		"(*net/url.URL).String": func(c *Call) []Out {
			p, ok := c.e.ptr(c.st, c.args[0], c.site, "method call")
			if !ok {
				return nil
			}
			v := c.st.load(p)
			id := "urlstr(" + vkey(v) + ")"
			c.st.lenSym(id)
			c.st.setDeps(id, c.st.deps(v))
			return c.ret(opaqueSeq(id))
		},

		"(*encoding/base64.Encoding).DecodeString": func(c *Call) []Out {
			q := c.seq(1)
			id := "b64dec(" + vkey(c.args[0]) + "," + q.key() + ")"
			d := c.st.deps(q)
			T := resultType(c.sig).(*types.Tuple).At(0).Type()
			return c.fallible(id, func(s *State) Value {
				v := s.mk(T, id)
				s.setDeps(id, d)
				return v
			}, T)
		},
		"(*encoding/base64.Encoding).EncodeToString": func(c *Call) []Out {
			q := c.st.seqOf(c.args[1])
			return c.ret(c.seqResult("b64("+vkey(c.args[0])+","+q.key()+")", csBase64, c.st.deps(q)))
		},
		"encoding/base64.NewEncoder": func(c *Call) []Out {
			tok := c.fresh()
			id := "b64enc" + tok
			c.st.setFact(id, Fact{Nil: 2})
			c.st.heap[id+"^"] = Obj{nil, VTuple{c.args[0], c.args[1]}}
			return c.ret(VUnk{id, resultType(c.sig)})
		},

		"regexp.MustCompile": func(c *Call) []Out {
			id := "regex:" + c.constStr(0)
			c.st.setFact(id, Fact{Nil: 2})
			return c.ret(VUnk{id, resultType(c.sig)})
		},
		"(*regexp.Regexp).MatchString": inMatch,
		"(*regexp.Regexp).Match":       inMatch,

		"io.WriteString": func(c *Call) []Out {
			q := c.seq(1)
			return c.e.writeTo(c, c.args[0], q)
		},
		"fmt.Fprintf": func(c *Call) []Out {
			q, ok := c.sprintf(1)
			if !ok {
				return c.e.unknownCall(c)
			}
			return c.e.writeTo(c, c.args[0], q)
		},
		"fmt.Sprintf": func(c *Call) []Out {
			q, ok := c.sprintf(0)
			if !ok {
				return c.e.external(c)
			}
			return c.ret(q)
		},
		"bufio.NewReader": func(c *Call) []Out {
			tok := c.fresh()
			id := "bufio" + tok
			c.st.setFact(id, Fact{Nil: 2})
			return c.ret(VUnk{id, resultType(c.sig)})
		},
	}
	for _, n := range []string{"HasPrefix", "HasSuffix", "Contains", "IndexByte", "IndexAny", "Index", "EqualFold", "ContainsRune", "IndexRune"} {
		intrinsics["bytes."+n] = intrinsics["strings."+n]
	}
	for n, f := range tokIntrinsics() {
		intrinsics[n] = f
	}
}

var csBase64 = csOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")

func (c *Call) constStr(i int) string {
	k, ok := c.seq(i).constant()
	if !ok {
		c.e.undecided("%s: argument %d of %s is not a constant", c.e.p.pos(c.site.Pos()), i, c.name)
	}
	return k
}

func (e *Engine) timeVar(s *State, n string) Value {
	for _, pkg := range e.p.SSA.AllPackages() {
		if pkg.Pkg.Path() == "time" {
			return s.load(VPtr{Obj: e.global(s, pkg.Var(n))})
		}
	}
	return VOpaque{"time." + n}
}

func (c *Call) timeOp(op string) []Out {
	id := op + "(" + vkey(c.args[0]) + ")"
	c.st.setDeps(id, c.st.deps(c.args[0]))
	return c.ret(VUnk{id, resultType(c.sig)})
}

func (c *Call) timeFormat(t Value, layout VSeq) VSeq {
	k, ok := layout.constant()
	if !ok {
		c.e.undecided("%s: time layout is not a constant", c.e.p.pos(c.site.Pos()))
		return c.seqResult("tfmt("+vkey(t)+",?)", csAll, c.st.deps(t))
	}
	var q VSeq
	for _, k := range layoutParts(k) {
		if k == "T" || k == "Z" {
			q = q.concat(lit(k))
			continue
		}
		cs := csOf(k).or(csDigit).or(csOf("-"))
		id := "tfmt(" + vkey(t) + "," + k + ")"
		q = q.concat(c.seqResult(id, cs, c.st.deps(t)))
		c.st.z().assumeLE(linConst(1).sub(linSym(lenID(id))))
	}
	return q
}

// layoutParts splits a layout of a date, a time or both.
func layoutParts(k string) []string {
	if k == "" {
		return nil
	}
	var tail []string
	l := k
	if strings.HasSuffix(l, "Z") {
		l = l[:len(l)-1]
		tail = []string{"Z"}
	}
	switch l {
	case "20060102", "150405":
		return append([]string{l}, tail...)
	case "20060102T150405":
		return append([]string{"20060102", "T", "150405"}, tail...)
	}
	return []string{k}
}

func inParseTime(c *Call) []Out {
	lay := c.seq(0)
	q := c.seq(1)
	if k, ok := lay.constant(); ok && strings.HasSuffix(k, "Z") {
		// a final Z stands for itself
		if p := layoutParts(k); len(p) > 1 && p[len(p)-1] == "Z" {
			if n := len(q.P); n > 0 && q.P[n-1].ID == "" && strings.HasSuffix(q.P[n-1].Lit, "Z") {
				l := q.P[n-1].Lit
				q = VSeq{append([]Part(nil), q.P[:n-1]...)}.concat(lit(l[:len(l)-1]))
				lay = lit(k[:len(k)-1])
			}
		}
	}
	id := "ptime(" + lay.key() + "," + q.key() + "," + vkey(c.args[2]) + ")"
	d := unionStr(c.st.deps(q), c.st.deps(c.args[2]))
	T := resultType(c.sig).(*types.Tuple).At(0).Type()
	return c.fallible(id, func(s *State) Value {
		s.setDeps(id, d)
		return VUnk{id, T}
	}, T)
}

func inErrorf(c *Call) []Out {
	tok := siteTok(c.site)
	v := VErr{ID: "errf" + tok}
	if k, ok := c.seq(0).constant(); ok && strings.Contains(k, "%w") {
		if sl, ok := c.args[1].(VSlice); ok && sl.Len.isConst() {
			for i := int64(0); i < sl.Len.C; i++ {
				switch a := c.e.elem(c.st, sl, linConst(i)).(type) {
				case VErr:
					v.Causes = unionStr(v.Causes, a.Causes)
				case VUnk:
					v.Causes = insStr(v.Causes, a.ID)
				}
			}
		}
	}
	v.Causes = insStr(v.Causes, v.ID)
	return c.ret(v)
}

func inContainsAny(c *Call) []Out {
	q, k := c.seq(0), c.seq(1)
	if s, ok := k.constant(); ok {
		return c.pred("containsany", q, s)
	}
	return c.ret(VAtom{ID: "containsany(" + q.key() + "," + k.key() + ")"})
}

// member splits on whether character r belongs to the set. If some is set,
// only some of the characters above 0x7f do.
func (c *Call) member(r Lin, set Charset, some bool) []Out {
	cs := c.st.linCs(r)
	set.EOF = false
	in, out := cs.and(set), cs.minus(set)
	some = some && set.Non && cs.Non
	if some {
		out.Non = true
	}
	if in.empty() {
		return c.ret(VBool(false))
	}
	if out.empty() {
		return c.ret(VBool(true))
	}
	var outs []Out
	for _, t := range []bool{true, false} {
		st := c.st.clone()
		n := out
		if t {
			n = in
		}
		if !st.assumeChars(r, n) {
			continue
		}
		outs = append(outs, Out{st, VBool(t)})
	}
	return outs
}

// assumeChars restricts a character to a set.
func (s *State) assumeChars(r Lin, set Charset) bool {
	if r.isConst() {
		return set.has(r.C)
	}
	if len(r.T) != 1 || r.T[0].K != 1 || r.C != 0 {
		return true
	}
	id := r.T[0].Sym
	s.setCs(id, set)
	n := s.linCs(r)
	if n.empty() {
		return false
	}
	// bounds implied by the set
	lo, hi := int64(-1), int64(0x10ffff)
	for lo < 128 && !n.has(lo) {
		lo++
	}
	if !n.Non {
		hi = 127
		for hi > -1 && !n.has(hi) {
			hi--
		}
	}
	z := s.z()
	i := z.sym(id)
	z.le(0, i, -lo)
	z.le(i, 0, hi)
	return !z.bot
}

// index: outcomes of an index function given a containment condition.
func (c *Call) index(_ func() []Out, _ Charset, k string) []Out { return c.indexConst(c.seq(0), k) }

func (c *Call) indexConst(q VSeq, set string) []Out {
	if s, ok := q.constant(); ok {
		return c.ret(VLin{linConst(int64(strings.IndexAny(s, set)))})
	}
	var outs []Out
	p := VPred{Name: "containsany", S: q, Arg: set}
	no := c.st.clone()
	if no.assume(p, false) {
		outs = append(outs, Out{no, VLin{linConst(-1)}})
	}
	// exact position if everything before a literal occurrence is known not to contain it
	var pos Lin
	exact := false
	for _, pt := range q.P {
		one := VSeq{[]Part{pt}}
		if pt.ID == "" {
			if i := strings.IndexAny(pt.Lit, set); i >= 0 {
				pos = pos.addC(int64(i))
				exact = true
				break
			}
			pos = pos.addC(int64(len(pt.Lit)))
			continue
		}
		if t, ok := c.st.decide(VPred{Name: "containsany", S: one, Arg: set}); ok && !t {
			pos = pos.add(c.st.seqLen(one))
			continue
		}
		break
	}
	yes := c.st
	if yes.assume(p, true) {
		if exact {
			return append(outs, Out{yes, VLin{pos}})
		}
		id := "index(" + q.key() + "," + strconv.Quote(set) + ")"
		z := yes.z()
		i := z.sym(id)
		z.le(0, i, 0)
		z.assumeLE(linSym(id).addC(1).sub(yes.seqLen(q)))
		yes.setDeps(id, yes.deps(q))
		ch := yes.byteAt(q, linSym(id)).(VLin)
		if !ch.isConst() {
			yes.assumeChars(ch.Lin, csOf(set))
		}
		if !yes.zone.bot {
			outs = append(outs, Out{yes, VLin{linSym(id)}})
		}
	}
	return outs
}

// split models strings.Split and SplitN.
func (c *Call) split(q VSeq, sep string, n int) []Out {
	T := resultType(c.sig)
	if sep == "" || n == 0 || n == 1 {
		return c.e.external(c)
	}
	sc := csOf(sep[:1])
	// exact if no unknown part can contain the separator
	exact := true
	for _, p := range q.P {
		if p.ID != "" && !c.st.seqCs(VSeq{[]Part{p}}).and(sc).empty() {
			exact = false
		}
	}
	if !exact && n == 2 {
		// the first separator may be in a literal after parts that cannot contain it
		ok := false
		for _, p := range q.P {
			if p.ID == "" && strings.Contains(p.Lit, sep) {
				ok = true
				break
			}
			if p.ID != "" && !c.st.seqCs(VSeq{[]Part{p}}).and(sc).empty() {
				break
			}
		}
		exact = ok
	}
	if exact {
		elems := []VSeq{{}}
		for _, p := range q.P {
			if p.ID != "" {
				elems[len(elems)-1] = elems[len(elems)-1].concat(VSeq{[]Part{p}})
				continue
			}
			l := p.Lit
			for {
				i := strings.Index(l, sep)
				if i < 0 || n > 0 && len(elems) == n {
					break
				}
				elems[len(elems)-1] = elems[len(elems)-1].concat(lit(l[:i]))
				elems = append(elems, VSeq{})
				l = l[i+len(sep):]
			}
			elems[len(elems)-1] = elems[len(elems)-1].concat(lit(l))
		}
		return c.ret(c.mkSlice(T, elems))
	}
	if n == 2 {
		var outs []Out
		p := VPred{Name: "containsany", S: q, Arg: sep}
		if len(sep) == 1 {
			no := *c
			no.st = c.st.clone()
			if no.st.assume(p, false) {
				no.args = append([]Value(nil), c.args...)
				v := no.mkSlice(T, []VSeq{q})
				outs = append(outs, Out{no.st, v})
			}
			if !c.st.assume(p, true) {
				return outs
			}
			a, b := c.cut(q, sep)
			return append(outs, Out{c.st, c.mkSlice(T, []VSeq{a, b})})
		}
	}
	id := "split(" + q.key() + "," + strconv.Quote(sep) + "," + fmt.Sprint(n) + ")"
	cs := c.st.seqCs(q)
	if len(sep) == 1 && n < 0 {
		cs = cs.minus(sc)
	}
	c.st.setFact(id, Fact{Nil: 2, Cs: &cs, Deps: c.st.deps(q)})
	c.st.lenSym(id)
	z := c.st.z()
	z.assumeLE(linConst(1).sub(linSym(lenID(id))))
	if n > 0 {
		z.assumeLE(linSym(lenID(id)).addC(int64(-n)))
	}
	return c.ret(VSlice{VUnk{id, T}, Lin{}, linSym(lenID(id))})
}

// cut names the parts of q around the first separator.
func (c *Call) cut(q VSeq, sep string) (VSeq, VSeq) {
	ia, ib := "cut0("+q.key()+","+strconv.Quote(sep)+")", "cut1("+q.key()+","+strconv.Quote(sep)+")"
	cs := c.st.seqCs(q)
	d := c.st.deps(q)
	a := c.seqResult(ia, cs.minus(csOf(sep)), d)
	b := c.seqResult(ib, cs, d)
	return a, b
}

func (c *Call) mkSlice(T types.Type, elems []VSeq) Value {
	tok := siteTok(c.site)
	h := make(VTuple, len(elems))
	for i, x := range elems {
		h[i] = x
	}
	h = c.e.withHeld(c.st, h, func() { c.st.fresh(tok) }).(VTuple)
	a := VArr{N: linConst(int64(len(h))), Def: VSeq{}}
	for i, x := range h {
		a.Cells = append(a.Cells, Cell{linConst(int64(i)), x})
	}
	o := "sp" + tok
	c.st.heap[o] = Obj{T, a}
	return VSlice{VPtr{Obj: o}, Lin{}, a.N}
}

func inCut(c *Call) []Out {
	q := c.seq(0)
	sep := c.constStr(1)
	if len(sep) != 1 {
		return c.e.external(c)
	}
	T := types.NewSlice(types.Typ[types.String])
	d := *c
	d.sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", T)), false)
	var outs []Out
	for _, o := range d.split(q, sep, 2) {
		sl := o.v.(VSlice)
		if !sl.Len.isConst() {
			return c.e.external(c)
		}
		if sl.Len.C == 1 {
			outs = append(outs, Out{o.st, VTuple{c.e.elem(o.st, sl, Lin{}), VSeq{}, VBool(false)}})
		} else {
			outs = append(outs, Out{o.st, VTuple{c.e.elem(o.st, sl, Lin{}), c.e.elem(o.st, sl, linConst(1)), VBool(true)}})
		}
	}
	return outs
}

func inJoin(c *Call) []Out {
	sep := c.seq(1)
	switch sl := c.args[0].(type) {
	case VNil:
		return c.ret(VSeq{})
	case VSlice:
		if sl.Len.isConst() && sl.Len.C <= 8 {
			var r VSeq
			for i := int64(0); i < sl.Len.C; i++ {
				if i > 0 {
					r = r.concat(sep)
				}
				r = r.concat(c.st.seqOf(c.e.elem(c.st, sl, linConst(i))))
			}
			return c.ret(r)
		}
		id := "join(" + c.e.argKey(c.st, sl) + "," + sep.key() + ")"
		cs := c.st.seqCs(sep)
		var d []string
		if a, ok := c.st.sliceArr(sl); ok {
			add := func(v Value) {
				if u, ok := v.(VUnk); ok {
					f := c.st.fact(strings.TrimSuffix(u.ID, "#"))
					if f.Cs != nil {
						cs = cs.or(*f.Cs)
					} else {
						cs = csAll
					}
					d = unionStr(d, c.st.depsID(strings.TrimSuffix(u.ID, "#")))
					return
				}
				q := c.st.seqOf(v)
				cs = cs.or(c.st.seqCs(q))
				d = unionStr(d, c.st.deps(q))
			}
			add(a.Def)
			for _, x := range a.Cells {
				add(x.V)
			}
			if a.Seg != nil {
				add(a.Seg.V)
			}
		} else {
			cs = csAll
			d = c.st.deps(sl)
		}
		return c.ret(c.seqResult(id, cs, d))
	}
	return c.e.external(c)
}

func inTrim(c *Call) []Out {
	q := c.seq(0)
	if k, ok := q.constant(); ok {
		arg := ""
		if len(c.args) > 1 {
			a, ok := c.seq(1).constant()
			if !ok {
				return c.e.external(c)
			}
			arg = a
		}
		var r string
		switch c.name {
		case "strings.TrimSpace":
			r = strings.TrimSpace(k)
		case "strings.Trim":
			r = strings.Trim(k, arg)
		case "strings.TrimLeft":
			r = strings.TrimLeft(k, arg)
		case "strings.TrimRight":
			r = strings.TrimRight(k, arg)
		case "strings.TrimPrefix":
			r = strings.TrimPrefix(k, arg)
		case "strings.TrimSuffix":
			r = strings.TrimSuffix(k, arg)
		}
		return c.ret(lit(r))
	}
	id := c.name + "(" + q.key()
	for _, a := range c.args[1:] {
		id += "," + vkey(a)
	}
	id += ")"
	r := c.seqResult(id, c.st.seqCs(q), c.st.deps(q))
	c.st.z().assumeLE(linSym(lenID(id)).sub(c.st.seqLen(q)))
	return c.ret(r)
}

func inReplace(c *Call) []Out {
	q, o, n := c.seq(0), c.seq(1), c.seq(2)
	ok1, is1 := o.constant()
	nk, is2 := n.constant()
	if is1 && is2 && ok1 != "" && c.name == "strings.ReplaceAll" {
		if k, ok := q.constant(); ok {
			return c.ret(lit(strings.ReplaceAll(k, ok1, nk)))
		}
		if c.st.seqCs(q).and(csOf(ok1)) != csOf(ok1) {
			return c.ret(q)
		}
	}
	cs := c.st.seqCs(q)
	if is1 && len(ok1) == 1 && c.name == "strings.ReplaceAll" {
		cs = cs.minus(csOf(ok1))
	}
	id := "replace(" + q.key() + "," + o.key() + "," + n.key() + ")"
	return c.ret(c.seqResult(id, cs.or(c.st.seqCs(n)), unionStr(c.st.deps(q), c.st.deps(n))))
}

// ---- growing buffers

func (c *Call) buf() VSeq {
	p, ok := c.e.ptr(c.st, c.args[0], c.site, "buffer")
	if !ok {
		return VSeq{}
	}
	switch x := c.st.load(p).(type) {
	case VBytes:
		return x.S
	case VUnk:
		if strings.HasPrefix(x.ID, "zero:") {
			return VSeq{}
		}
		return opaqueSeq(x.ID)
	}
	return opaqueSeq("buf?" + vkey(c.args[0]))
}

func inBufWrite(c *Call) []Out {
	q := c.buf()
	p, ok := c.e.ptr(c.st, c.args[0], c.site, "buffer")
	if !ok {
		return nil
	}
	var w VSeq
	var res Value
	switch {
	case strings.HasSuffix(c.name, "WriteRune"):
		w = c.e.runeSeq(c.st, c.lin(1))
		res = VTuple{VLin{c.st.seqLen(w)}, VNil{}}
	case strings.HasSuffix(c.name, "WriteByte"):
		l := c.lin(1)
		if l.isConst() && l.C < 128 {
			w = lit(string(rune(l.C)))
		} else {
			w = c.st.arrSeq(VArr{N: linConst(1), Def: VLin{l}}, Lin{}, linConst(1), "wb")
		}
		res = VNil{}
	default:
		w = c.st.seqOf(c.args[1])
		res = VTuple{VLin{c.st.seqLen(w)}, VNil{}}
	}
	if c.e.onAppend != nil {
		c.e.onAppend(c.st, c.site, q, w)
	}
	n := q.concat(w)
	if len(n.P) > c.e.maxSeq {
		tok := siteTok(c.site)
		h := c.e.withHeld(c.st, VTuple{n, p, res}, func() { c.st.fresh(tok) }).(VTuple)
		p, res = h[1].(VPtr), h[2]
		n = c.e.summarise(c.st, h[0].(VSeq), "sum"+tok)
	}
	c.st.store(p, VBytes{n})
	return c.ret(res)
}

func inBufReset(c *Call) []Out {
	if p, ok := c.e.ptr(c.st, c.args[0], c.site, "buffer"); ok {
		c.st.store(p, VBytes{})
	}
	return c.ret(nil)
}

// ---- numbers

func (c *Call) parseInt(signed bool) []Out {
	q := c.seq(0)
	base, bits := int64(10), int64(64)
	if len(c.args) > 1 {
		b, s := c.lin(1), c.lin(2)
		if !b.isConst() || !s.isConst() {
			return c.e.external(c)
		}
		base, bits = b.C, s.C
		if bits == 0 {
			bits = 64
		}
	}
	T := resultType(c.sig).(*types.Tuple).At(0).Type()
	mkErr := func() VErr {
		id := "err(" + c.name + q.key() + ")"
		return VErr{ID: id, Causes: []string{id}}
	}
	if k, ok := q.constant(); ok {
		if signed {
			v, err := strconv.ParseInt(k, int(base), int(bits))
			if err == nil {
				return c.ret(VTuple{VLin{linConst(v)}, VNil{}})
			}
			return c.ret(VTuple{VLin{linConst(v)}, mkErr()})
		}
		v, err := strconv.ParseUint(k, int(base), int(bits))
		if err == nil && v < uint64(inf) {
			return c.ret(VTuple{VLin{linConst(int64(v))}, VNil{}})
		}
		return c.ret(VTuple{c.st.mk(T, "failed("+c.name+q.key()+")"), mkErr()})
	}
	lo, hi := int64(0), int64(inf)
	if signed {
		lo = -inf
		if bits < 62 {
			lo = -(1 << (bits - 1))
			hi = 1<<(bits-1) - 1
		}
	} else if bits < 62 {
		hi = 1<<bits - 1
	}
	// a decimal rendering of a number reads back as that number
	if l, ok := c.e.decimal(c.st, q, signed); ok && base == 10 {
		var outs []Out
		okID := fmt.Sprintf("ok:%s(%s,%d)", c.name, q.key(), bits)
		in := c.st.clone()
		in.setFact(okID, Fact{B: 2})
		z := in.z()
		if lo > -inf {
			z.assumeLE(linConst(lo).sub(l))
		}
		if hi < inf {
			z.assumeLE(l.addC(-hi))
		}
		if !in.zone.bot {
			outs = append(outs, Out{in, VTuple{VLin{l}, VNil{}}})
		}
		for _, b := range []Lin{l.addC(1 - lo), linConst(hi + 1).sub(l)} {
			out := c.st.clone()
			out.setFact(okID, Fact{B: 1})
			out.z().assumeLE(b)
			if !out.zone.bot {
				outs = append(outs, Out{out, VTuple{out.mk(T, "failed("+c.name+q.key()+")"), mkErr()}})
			}
		}
		return outs
	}
	cs := c.st.seqCs(q)
	l := c.st.seqLen(q)
	canOK, canFail := true, true
	for i, p := range q.P {
		for j := 0; j < len(p.Lit) && base == 10; j++ {
			if ch := p.Lit[j]; (ch < '0' || ch > '9') && !(signed && i == 0 && j == 0 && (ch == '-' || ch == '+')) {
				canOK = false
			}
		}
	}
	valid := csDigit
	if signed {
		valid = valid.or(csOf("+-"))
	}
	if base != 10 {
		valid = csAll
	}
	if cs.and(csDigit).empty() && base == 10 || c.st.zone.ub(l) < 1 {
		canOK = false
	}
	nhi := int64(inf)
	if base == 10 && cs.subset(csDigit) {
		if u := c.st.zone.ub(l); u <= 17 {
			nhi = 1
			for i := int64(0); i < u; i++ {
				nhi *= 10
			}
			nhi--
			if c.st.zone.lb(l) >= 1 && nhi <= hi {
				canFail = false
			}
		}
		lo = 0
	}
	id := fmt.Sprintf("%s(%s,%d,%d)", c.name, q.key(), base, bits)
	d := c.st.deps(q)
	var outs []Out
	f := c.st.fact("ok:" + id)
	if canOK && f.B != 1 {
		s := c.st.clone()
		s.setFact("ok:"+id, Fact{B: 2})
		if base == 10 {
			// only decimal digits and a sign can have been there
			for _, p := range q.P {
				if p.ID != "" {
					s.setCs(p.ID, s.seqCs(VSeq{[]Part{p}}).and(valid))
				}
			}
			s.z().assumeLE(linConst(1).sub(l))
		}
		z := s.z()
		i := z.sym(id)
		if lo > -inf {
			z.le(0, i, -lo)
		}
		if m := min(hi, nhi); m < inf {
			z.le(i, 0, m)
		}
		s.setDeps(id, d)
		if !s.zone.bot {
			outs = append(outs, Out{s, VTuple{VLin{linSym(id)}, VNil{}}})
		}
	}
	if canFail && f.B != 2 {
		s := c.st
		s.setFact("ok:"+id, Fact{B: 1})
		fid := "failed(" + id + ")"
		z := s.z()
		i := z.sym(fid)
		if lo > -inf {
			z.le(0, i, -lo)
		}
		if hi < inf {
			z.le(i, 0, hi)
		}
		outs = append(outs, Out{s, VTuple{VLin{linSym(fid)}, mkErr()}})
	}
	return outs
}

// decimal is the number a text of known digits stands for.
func (e *Engine) decimal(s *State, q VSeq, signed bool) (Lin, bool) {
	if id, ok := q.single(); ok && strings.HasPrefix(id, "itoa(") {
		l, ok := e.itoaOf[id]
		return l, ok
	}
	if len(q.P) == 2 && signed && strings.HasPrefix(q.P[1].ID, "itoa(") && (q.P[0].Lit == "-" || q.P[0].Lit == "+") {
		l, ok := e.itoaOf[q.P[1].ID]
		if q.P[0].Lit == "-" {
			l = l.neg()
		}
		return l, ok && s.zone.lb(e.itoaOf[q.P[1].ID]) >= 0
	}
	var l Lin
	n := 0
	neg := false
	for i, p := range q.P {
		if p.ID != "" {
			c, ok := runePartSym(p.ID)
			if !ok || !s.seqCs(VSeq{[]Part{p}}).subset(csDigit) {
				return Lin{}, false
			}
			l = l.scale(10).add(linSym(c)).addC(-'0')
			n++
			continue
		}
		for j := 0; j < len(p.Lit); j++ {
			switch ch := p.Lit[j]; {
			case ch >= '0' && ch <= '9':
				l = l.scale(10).addC(int64(ch) - '0')
				n++
			case signed && i == 0 && j == 0 && (ch == '-' || ch == '+'):
				neg = ch == '-'
			default:
				return Lin{}, false
			}
		}
	}
	if n == 0 || n > 17 {
		return Lin{}, false
	}
	if neg {
		l = l.neg()
	}
	return l, true
}

// digitsOf splits a number into its decimal digits.
func (e *Engine) digitsOf(s *State, l Lin) (VSeq, bool) { return e.digitsPad(s, l, 1) }

// digitsPad does so with leading zeros up to a width.
func (e *Engine) digitsPad(s *State, l Lin, width int) (VSeq, bool) {
	if len(l.T) == 0 || s.zone.lb(l) < 0 || s.zone.ub(l) >= inf {
		return VSeq{}, false
	}
	var ds []VSeq
	for {
		q, r, ok := s.divExact(l, 10)
		if !ok {
			return VSeq{}, false
		}
		ch := r.addC('0')
		if !ch.isConst() && (len(ch.T) != 1 || ch.T[0].K != 1 || ch.C != 0) {
			return VSeq{}, false
		}
		ds = append(ds, e.runeSeq(s, ch))
		if q.isConst() && q.C == 0 && len(ds) >= width {
			if len(ds) > width && s.zone.lb(r) < 1 {
				return VSeq{}, false
			}
			break
		}
		if s.zone.lb(q) < 1 && len(ds) >= width {
			return VSeq{}, false
		}
		l = q
	}
	var t VSeq
	for i := len(ds) - 1; i >= 0; i-- {
		t = t.concat(ds[i])
	}
	return t, true
}

// itoa is the decimal rendering of a number.
func (e *Engine) itoa(s *State, l Lin) VSeq {
	if l.isConst() {
		return lit(strconv.FormatInt(l.C, 10))
	}
	if q, ok := e.digitsOf(s, l); ok {
		return q
	}
	if s.zone.ub(l) < 0 {
		return lit("-").concat(e.itoa(s, l.neg()))
	}
	id := "itoa(" + l.key() + ")"
	cs := csDigit
	if s.zone.lb(l) < 0 {
		cs = cs.or(csOf("-"))
	}
	s.setCs(id, cs)
	s.setDeps(id, s.depsLin(l))
	if !s.zone.has(lenID(id)) {
		z := s.z()
		i := z.sym(lenID(id))
		z.le(0, i, -1)
		z.le(i, 0, 20)
	}
	if e.itoaOf == nil {
		e.itoaOf = map[string]Lin{}
	}
	e.itoaOf[id] = l
	return opaqueSeq(id)
}

func inFormatInt(c *Call) []Out {
	if len(c.args) > 1 {
		if b := c.lin(1); !b.isConst() || b.C != 10 {
			return c.e.external(c)
		}
	}
	return c.ret(c.e.itoa(c.st, c.lin(0)))
}

func inAppendInt(c *Call) []Out {
	if b := c.lin(2); !b.isConst() || b.C != 10 {
		return c.e.external(c)
	}
	q := c.e.itoa(c.st, c.lin(1))
	return c.ret(c.e.appendTo(c.st, c.site, c.args[0], q, resultType(c.sig), types.Typ[types.String]))
}

func inParseFloat(c *Call) []Out {
	q := c.seq(0)
	id := "parsefloat(" + q.key() + "," + vkey(c.args[1]) + ")"
	d := c.st.deps(q)
	T := resultType(c.sig).(*types.Tuple).At(0).Type()
	return c.fallible(id, func(s *State) Value {
		s.setDeps(id, d)
		return VUnk{id, T}
	}, T)
}

func inFormatFloat(c *Call) []Out {
	f := vkey(c.args[0])
	id := "ftoa(" + f + "," + vkey(c.args[1]) + "," + vkey(c.args[2]) + "," + vkey(c.args[3]) + ")"
	cs := csOf("0123456789.-")
	if v := c.lin(1); !v.isConst() || v.C != 'f' {
		cs = cs.or(csOf("e+Exp"))
	}
	if t, ok := c.st.decide(VAtom{ID: "isnan(" + f + ")"}); !ok || t {
		cs = cs.or(csOf("NaN"))
	}
	if t, ok := c.st.decide(VAtom{ID: "isinf(" + f + ")"}); !ok || t {
		cs = cs.or(csOf("+Inf"))
	}
	return c.ret(c.seqResult(id, cs, c.st.deps(c.args[0])))
}

func inParseBool(c *Call) []Out {
	q := c.seq(0)
	if k, ok := q.constant(); ok {
		v, err := strconv.ParseBool(k)
		if err == nil {
			return c.ret(VTuple{VBool(v), VNil{}})
		}
		id := "err(parsebool" + q.key() + ")"
		return c.ret(VTuple{VBool(false), VErr{ID: id, Causes: []string{id}}})
	}
	id := "parsebool(" + q.key() + ")"
	d := c.st.deps(q)
	T := resultType(c.sig).(*types.Tuple).At(0).Type()
	return c.fallible(id, func(s *State) Value {
		s.setDeps(id, d)
		return s.mk(T, id)
	}, T)
}

// ---- characters

// seqHead splits off the first character of a sequence. Each outcome has the
// remaining sequence and the character (-1 at the end) with its encoded part.
type headOut struct {
	st   *State
	ch   Lin
	part VSeq
	rest VSeq
}

func runePartSym(id string) (string, bool) {
	if strings.HasPrefix(id, "rune(+1*") && strings.HasSuffix(id, ")") {
		return id[len("rune(+1*") : len(id)-1], true
	}
	return "", false
}

func (e *Engine) seqHead(s *State, q VSeq, tok string) []headOut {
	var outs []headOut
	for {
		q = s.norm(q)
		if len(q.P) == 0 {
			return append(outs, headOut{s, linConst(-1), VSeq{}, VSeq{}})
		}
		p := q.P[0]
		if p.ID == "" {
			r, n := utf8.DecodeRuneInString(p.Lit)
			v := int64(r)
			if r == utf8.RuneError && n == 1 {
				v = int64(p.Lit[0])
			}
			return append(outs, headOut{s, linConst(v), lit(p.Lit[:n]), lit(p.Lit[n:]).concat(VSeq{q.P[1:]})})
		}
		if id, ok := runePartSym(p.ID); ok {
			return append(outs, headOut{s, linSym(id), VSeq{[]Part{p}}, VSeq{q.P[1:]}})
		}
		cs := s.seqCs(VSeq{[]Part{p}})
		cs.EOF = false
		l := linSym(lenID(p.ID))
		// not empty
		if !cs.empty() && s.zone.ub(l) >= 1 {
			n := s.clone()
			q2 := e.withHeld(n, q, func() { n.fresh(tok) }).(VSeq)
			p2 := q2.P[0]
			hc, tl := "c"+tok, "tl"+tok
			z := n.z()
			i := z.sym(hc)
			z.le(0, i, 0)
			z.le(i, 0, 0x10ffff)
			n.setCs(hc, cs)
			n.setDeps(hc, n.depsID(p2.ID))
			n.setCs(tl, cs)
			n.setDeps(tl, n.depsID(p2.ID))
			n.lenSym(tl)
			n.assumeChars(linSym(hc), cs)
			z = n.z()
			z.assumeLE(linConst(1).sub(linSym(lenID(p2.ID))))
			part := e.runeSeq(n, linSym(hc))
			if s.zone.has(lenID(p.ID)) {
				n.z().assumeEQ(n.seqLen(part).add(linSym(lenID(tl))).sub(linSym(lenID(p2.ID))))
			}
			if !n.zone.bot {
				outs = append(outs, headOut{n, linSym(hc), part, opaqueSeq(tl).concat(VSeq{q2.P[1:]})})
			}
		}
		// empty
		m := s.clone()
		m.lenSym(p.ID)
		m.z().assumeEQ(l)
		if m.zone.bot {
			return outs
		}
		s = m
		q = VSeq{q.P[1:]}
	}
}

func inDecodeRune(c *Call) []Out {
	tok := siteTok(c.site)
	q := c.seq(0)
	var outs []Out
	for _, h := range c.e.seqHead(c.st, q, tok) {
		if h.ch.isConst() && h.ch.C == -1 {
			outs = append(outs, Out{h.st, VTuple{VLin{linConst(utf8.RuneError)}, VLin{}}})
			continue
		}
		if h.ch.isConst() {
			n := h.st.seqLen(h.part)
			outs = append(outs, Out{h.st, VTuple{VLin{h.ch}, VLin{n}}})
			continue
		}
		cs := h.st.linCs(h.ch)
		asc := cs
		asc.Non = false
		if !asc.empty() {
			st := h.st.clone()
			if st.assumeChars(h.ch, asc) {
				st.z().assumeEQ(st.seqLen(h.part).addC(-1))
				if !st.zone.bot {
					outs = append(outs, Out{st, VTuple{VLin{h.ch}, VLin{linConst(1)}}})
				}
			}
		}
		if cs.Non {
			for n := int64(2); n <= 4; n++ {
				st := h.st.clone()
				if st.assumeChars(h.ch, Charset{Non: true}) {
					st.z().assumeEQ(st.seqLen(h.part).addC(-n))
					if !st.zone.bot {
						outs = append(outs, Out{st, VTuple{VLin{h.ch}, VLin{linConst(n)}}})
					}
				}
			}
			// invalid encoding; encoded characters are valid
			if len(h.part.P) == 1 && strings.HasPrefix(h.part.P[0].ID, "rune(") {
				continue
			}
			st := h.st.clone()
			if st.assumeChars(h.ch, Charset{Non: true}) {
				outs = append(outs, Out{st, VTuple{VLin{linConst(utf8.RuneError)}, VLin{linConst(1)}}})
			}
		}
	}
	return outs
}

func inEncodeRune(c *Call) []Out {
	q := c.e.runeSeq(c.st, c.lin(1))
	n := c.st.seqLen(q)
	sl, ok := c.args[0].(VSlice)
	if !ok {
		c.e.undecided("%s: EncodeRune into %s", c.e.p.pos(c.site.Pos()), vkey(c.args[0]))
		return c.ret(VLin{n})
	}
	okb := c.st.provLE(n, sl.Len)
	c.e.obligation("bounds", c.site, okb, "EncodeRune buffer", "buffer length "+sl.Len.key())
	p, isP := sl.B.(VPtr)
	if !isP || !sl.Off.isConst() || sl.Off.C != 0 {
		c.e.undecided("%s: EncodeRune into %s", c.e.p.pos(c.site.Pos()), vkey(c.args[0]))
		return c.ret(VLin{n})
	}
	tok := siteTok(c.site)
	h := c.e.withHeld(c.st, VTuple{q, VLin{n}, p, sl}, func() { c.st.fresh(tok) }).(VTuple)
	q, n, p = h[0].(VSeq), h[1].(VLin).Lin, h[2].(VPtr)
	rest := "er" + tok
	c.st.lenSym(rest)
	tot := h[3].(VSlice).Len
	c.st.z().assumeEQ(linSym(lenID(rest)).add(n).sub(tot))
	c.st.store(p, VBytes{q.concat(opaqueSeq(rest))})
	return c.ret(VLin{n})
}

// ---- regular expressions

func inMatch(c *Call) []Out {
	q := c.st.norm(c.st.seqOf(c.args[1]))
	u, ok := c.args[0].(VUnk)
	if !ok || !strings.HasPrefix(u.ID, "regex:") {
		return c.e.external(c)
	}
	return c.pred("regex", q, strings.TrimPrefix(u.ID, "regex:"))
}

func regexMatch(pat, s string) bool {
	re, err := regexp.Compile(pat)
	return err == nil && re.MatchString(s)
}

// regexChars returns the characters of strings matched by an anchored pattern.
func regexChars(pat string) (Charset, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return csAll, false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 {
		return csAll, false
	}
	if re.Sub[0].Op != syntax.OpBeginText {
		return csAll, false
	}
	if l := re.Sub[len(re.Sub)-1]; l.Op != syntax.OpEndText {
		return csAll, false
	}
	var c Charset
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		switch r.Op {
		case syntax.OpLiteral:
			for _, x := range r.Rune {
				c.add(int64(x))
				if r.Flags&syntax.FoldCase != 0 {
					c.add(int64(unicode.ToLower(x)))
					c.add(int64(unicode.ToUpper(x)))
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				c = c.or(csRange(int64(r.Rune[i]), int64(r.Rune[i+1])))
			}
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			c = csAll
			if r.Op == syntax.OpAnyCharNotNL {
				c = c.minus(csOf("\n"))
			}
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(re)
	return c, true
}

// ---- writing to an interface value

// writeTo performs w.Write with the given contents.
func (e *Engine) writeTo(c *Call, w Value, q VSeq) []Out {
	tok := siteTok(c.site)
	h := e.withHeld(c.st, VTuple{w, q}, func() { c.st.fresh(tok) }).(VTuple)
	w, q = h[0], h[1].(VSeq)
	bt := types.NewSlice(types.Typ[types.Uint8])
	o := "wr" + tok
	c.st.heap[o] = Obj{bt, VBytes{q}}
	d := *c
	d.args = []Value{VSlice{VPtr{Obj: o}, Lin{}, c.st.seqLen(q)}}
	d.fn, d.recv = nil, nil
	m := e.p.writeMethod()
	d.sig = m.Type().(*types.Signature)
	return e.invoke(&d, nil, w, m)
}

func (p *Prog) writeMethod() *types.Func {
	for _, pkg := range p.SSA.AllPackages() {
		if pkg.Pkg.Path() == "io" {
			it := pkg.Pkg.Scope().Lookup("Writer").Type().Underlying().(*types.Interface)
			return it.Method(0)
		}
	}
	return nil
}

func (e *Engine) b64(c *Call, u VUnk, m string) []Out {
	o, ok := c.st.heap[u.ID+"^"]
	if !ok {
		return c.ret(VNil{})
	}
	// the last group is only written when the encoder is closed
	t := append(VTuple(nil), o.V.(VTuple)...)
	if len(t) == 2 {
		t = append(t, VSeq{})
	}
	if m != "Close" {
		q := c.st.seqOf(c.args[1])
		t[2] = t[2].(VSeq).concat(q)
		c.st.heap[u.ID+"^"] = Obj{nil, t}
		return c.ret(VTuple{VLin{c.st.seqLen(q)}, VNil{}})
	}
	q := t[2].(VSeq)
	t[2] = VSeq{}
	c.st.heap[u.ID+"^"] = Obj{nil, t}
	b := c.seqResult("b64("+vkey(t[0])+","+q.key()+")", csBase64, c.st.deps(q))
	var outs []Out
	for _, r := range e.writeTo(c, t[1], b) {
		var err Value = VNil{}
		if tp, ok := r.v.(VTuple); ok {
			err = tp[1]
		}
		outs = append(outs, Out{r.st, err})
	}
	return outs
}

// sprintf builds the result of a format whose verbs are simple.
// padded is a number with leading zeros.
func (c *Call) padded(spec string, l Lin) (VSeq, bool) {
	n, err := strconv.Atoi(spec)
	if err != nil || spec[0] != '0' || n < 1 || n > 18 {
		return VSeq{}, false
	}
	return c.e.digitsPad(c.st, l, n)
}

func (c *Call) sprintf(i int) (VSeq, bool) {
	f, ok := c.seq(i).constant()
	if !ok || i+1 >= len(c.args) {
		return VSeq{}, false
	}
	var elems []Value
	switch sl := c.args[i+1].(type) {
	case VNil:
	case VSlice:
		if !sl.Len.isConst() {
			return VSeq{}, false
		}
		for k := int64(0); k < sl.Len.C; k++ {
			elems = append(elems, c.e.elem(c.st, sl, linConst(k)))
		}
	default:
		return VSeq{}, false
	}
	var r VSeq
	for len(f) > 0 {
		p := strings.IndexByte(f, '%')
		if p < 0 {
			return r.concat(lit(f)), true
		}
		r = r.concat(lit(f[:p]))
		f = f[p+1:]
		spec := ""
		for len(f) > 0 && strings.IndexByte("0123456789+-# .", f[0]) >= 0 {
			spec += f[:1]
			f = f[1:]
		}
		if f == "" {
			return r, false
		}
		v := f[0]
		f = f[1:]
		if v == '%' {
			r = r.concat(lit("%"))
			continue
		}
		if len(elems) == 0 {
			return r, false
		}
		a := elems[0]
		elems = elems[1:]
		if ifc, ok := a.(VIface); ok {
			a = ifc.V
		}
		switch x := a.(type) {
		case VSeq:
			if (v != 's' && v != 'v') || spec != "" {
				return r, false
			}
			r = r.concat(x)
		case VSlice:
			if v != 's' || spec != "" {
				return r, false
			}
			r = r.concat(c.st.seqOf(x))
		case VLin:
			switch {
			case v == 'c' && spec == "":
				r = r.concat(c.e.runeSeq(c.st, x.Lin))
			case v == 'd' || v == 'v':
				if spec == "" {
					r = r.concat(c.e.itoa(c.st, x.Lin))
				} else if x.isConst() {
					r = r.concat(lit(fmt.Sprintf("%"+spec+"d", x.C)))
				} else if q, ok := c.padded(spec, x.Lin); ok {
					r = r.concat(q)
				} else {
					id := "fmtd(" + spec + "," + x.key() + ")"
					cs := csDigit.or(csOf(" +"))
					if c.st.zone.lb(x.Lin) < 0 {
						cs = cs.or(csOf("-"))
					}
					r = r.concat(c.seqResult(id, cs, c.st.depsLin(x.Lin)))
					c.st.z().assumeLE(linConst(1).sub(linSym(lenID(id))))
				}
			default:
				return r, false
			}
		default:
			return r, false
		}
	}
	return r, true
}
