package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Enumerations: the keyword of every constant in both directions.

// keywords are the registered keywords, by public constant; an empty one
// stands for values without a keyword of their own.
var keywords = map[string]map[string]string{
	"ParamCalendarUserType": {"CalendarUserTypeUnknown": "", "CalendarUserTypeIndividual": "INDIVIDUAL", "CalendarUserTypeGroup": "GROUP", "CalendarUserTypeResource": "RESOURCE", "CalendarUserTypeRoom": "ROOM"},
	"ParamEncoding":         {"Encoding8bit": "8BIT", "EncodingBase64": "BASE64"},
	"ParamFreeBusyType":     {"FreeBusyTypeUnknown": "", "FreeBusyTypeFree": "FREE", "FreeBusyTypeBusy": "BUSY", "FreeBusyTypeBusyUnavailable": "BUSY-UNAVAILABLE", "FreeBusyTypeBusyTentative": "BUSY-TENTATIVE"},
	"ParamParticipationStatus": {"ParticipationStatusUnknown": "", "ParticipationStatusNeedsAction": "NEEDS-ACTION", "ParticipationStatusAccepted": "ACCEPTED", "ParticipationStatusDeclined": "DECLINED",
		"ParticipationStatusTentative": "TENTATIVE", "ParticipationStatusDelegated": "DELEGATED", "ParticipationStatusCompleted": "COMPLETED", "ParticipationStatusInProcess": "IN-PROCESS"},
	"ParamRelated":          {"RelatedStart": "START", "RelatedEnd": "END"},
	"ParamRelationshipType": {"RelationshipTypeUnknown": "", "RelationshipTypeParent": "PARENT", "RelationshipTypeChild": "CHILD", "RelationshipTypeSibling": "SIBLING"},
	"ParamParticipationRole": {"ParticipationRoleUnknown": "", "ParticipationRoleRequiredParticipant": "REQ-PARTICIPANT", "ParticipationRoleChair": "CHAIR",
		"ParticipationRoleOptParticipant": "OPT-PARTICIPANT", "ParticipationRoleNonParticipant": "NON-PARTICIPANT"},
	"ParamValue": {"ValueUnknown": "", "ValueBinary": "BINARY", "ValueBoolean": "BOOLEAN", "ValueCalendarAddress": "CAL-ADDRESS", "ValueDate": "DATE", "ValueDateTime": "DATE-TIME",
		"ValueDuration": "DURATION", "ValueFloat": "FLOAT", "ValueInteger": "INTEGER", "ValuePeriod": "PERIOD", "ValueRecur": "RECUR", "ValueText": "TEXT", "ValueTime": "TIME", "ValueURI": "URI", "ValueUTCOffset": "UTC-OFFSET"},
	"PropAction":           {"ActionAudio": "AUDIO", "ActionDisplay": "DISPLAY", "ActionEmail": "EMAIL"},
	"PropCalendarScale":    {"CalendarScaleGregorian": "GREGORIAN"},
	"PropClass":            {"ClassPublic": "PUBLIC", "ClassPrivate": "PRIVATE", "ClassConfidential": "CONFIDENTIAL"},
	"PropStatus":           {"StatusTentative": "TENTATIVE", "StatusConfirmed": "CONFIRMED", "StatusCancelled": "CANCELLED", "StatusNeedsAction": "NEEDS-ACTION", "StatusCompleted": "COMPLETED", "StatusInProcess": "IN-PROCESS", "StatusDraft": "DRAFT", "StatusFinal": "FINAL"},
	"PropTimeTransparency": {"TimeTransparencyOpaque": "OPAQUE", "TimeTransparencyTransparent": "TRANSPARENT"},
	"PropAlarmStatus":      {"AlarmStatusActive": "ACTIVE", "AlarmStatusCancelled": "CANCELLED", "AlarmStatusCompleted": "COMPLETED"},
}

const unknownKeyword = "UNKNOWN"

// enumConst is a constant of an enumerated type.
type enumConst struct {
	name string
	val  int64
}

// constsOf lists the package's constants of type T.
func (r *Report) constsOf(T *types.Named) []enumConst {
	var cs []enumConst
	sc := r.p.Types.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), T) {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok {
			cs = append(cs, enumConst{n, v})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].val < cs[j].val })
	return cs
}

type enumRun struct {
	r      *Report
	c      *codec
	wire   string
	prop   bool
	report reporter
	cases  []func(string) string
	table  map[string]string
	consts []enumConst
}

func (r *Report) enums(report reporter) {
	var jobs []func()
	names := map[string]bool{}
	for n := range keywords {
		names[n] = true
	}
	// every enumerated property or parameter type, also one without a table
	for n := range paramNames {
		if T := r.p.namedType(n); T != nil && isInt(T) {
			names[n] = true
		}
	}
	for n := range propNames {
		if T := r.p.namedType(n); T != nil && isInt(T) && r.p.declaredAs(T) == nil {
			names[n] = true
		}
	}
	for _, n := range sortedKeys(names) {
		c := r.codec(n)
		if c == nil {
			continue
		}
		e := &enumRun{r: r, c: c, report: report, cases: []func(string) string{ident, lowerKey, mixedKey}, table: keywords[n], consts: r.constsOf(c.T)}
		if w, ok := propNames[n]; ok {
			e.wire, e.prop = w, true
		} else {
			e.wire = paramNames[n]
		}
		jobs = append(jobs, e.run)
	}
	if c := r.codec("ParamRange"); c != nil {
		e := &enumRun{r: r, c: c, wire: "RANGE", report: report}
		jobs = append(jobs, e.flag)
	}
	r.parallel(jobs)
}

func (e *enumRun) encode(v Value) []string {
	f := e.r.flow()
	var r []string
	for _, o := range f.encode(e.c.enc, e.c.T, v) {
		r = append(r, o.text())
	}
	return r
}

func (e *enumRun) line(k string) string {
	if e.prop {
		return e.wire + ":" + k + "\r\n"
	}
	return ";" + e.wire + "=" + k
}

// valid tells whether v can be accepted and can be rejected.
func (e *enumRun) valid(set func(f *Flow) Value) (yes, no bool) {
	f := e.r.flow()
	for _, o := range f.validate(e.c.val, e.c.T, set(f)) {
		n := o.st.nilness(o.v)
		yes = yes || n != 2
		no = no || n != 1
	}
	return
}

// args are the arguments of the decoder for a text.
func (e *enumRun) args(f *Flow, q VSeq, variant int) []Value {
	if e.prop {
		var ps Value = VNil{}
		if variant == 1 {
			ps = tokenList(e.r.p, f.st, "§params", []Lin{tokenKind(e.r.p, "tokenParamName"), tokenKind(e.r.p, "tokenParamValue")}, []VSeq{lit("X-U"), f.run(csText, 0)})
		}
		return []Value{ps, q}
	}
	k := "tokenParamValue"
	if variant == 1 {
		k = "tokenParamQuotedValue"
	}
	return []Value{tokenList(e.r.p, f.st, "§vs", []Lin{tokenKind(e.r.p, k)}, []VSeq{q})}
}

func (e *enumRun) run() {
	r := e.r
	epos, dpos, vpos := r.p.pos(e.c.enc.Pos()), r.p.pos(e.c.dec.Pos()), r.p.pos(e.c.val.Pos())
	if !r.anchor(len(e.consts) > 0, "constants of "+e.c.name) || !r.anchor(len(e.table) > 0, "keywords of "+e.c.name) {
		return
	}
	have := map[string]bool{}
	maxV := int64(-1)
	for _, c := range e.consts {
		have[c.name] = true
		maxV = max(maxV, c.val)
	}
	for _, n := range sortedKeys(e.table) {
		r.anchor(have[n], "constant "+n)
	}
	own := map[string]string{} // keyword -> constant
	keyed := map[int64]bool{}
	for _, c := range e.consts {
		r.count("constants followed", 1)
		what := "constant " + c.name
		yes, no := e.valid(func(*Flow) Value { return VLin{linConst(c.val)} })
		texts := e.encode(VLin{linConst(c.val)})
		if len(texts) != 1 {
			e.report("keyword", what, epos, fmt.Sprintf("%s is written as one of %q", what, texts))
			continue
		}
		k, known := e.table[c.name]
		if !known {
			// a constant the table does not know has to have some keyword
			k = strings.TrimSuffix(strings.TrimPrefix(texts[0], e.line("")[:len(e.wire)+1]), "\r\n")
			if !e.prop {
				k = strings.TrimPrefix(texts[0], e.line(""))
			}
		}
		if k == "" {
			if yes && texts[0] != e.line(unknownKeyword) {
				e.report("keyword", what, epos, fmt.Sprintf("%s has no keyword but is accepted and written as %q", what, texts[0]))
			}
			continue
		}
		keyed[c.val] = true
		if no {
			e.report("invalid", what, vpos, fmt.Sprintf("%s is rejected by validation", what))
		}
		if texts[0] != e.line(k) {
			e.report("keyword", what, epos, fmt.Sprintf("%s is written as %q instead of %q", what, texts[0], e.line(k)))
		}
		if d, ok := own[k]; ok {
			e.report("shared", what, epos, fmt.Sprintf("%s and %s share the keyword %s", what, d, k))
		}
		own[k] = c.name
		for i, v := range e.cases {
			for variant := 0; variant < 2; variant++ {
				f := r.flow()
				outs := f.decode(e.c.dec, e.c.T, e.args(f, lit(v(k)), variant)...)
				what := fmt.Sprintf("decoding %s %s", e.wire, v(k))
				kind := "decoded"
				if i > 0 {
					kind = "case"
				}
				if len(outs) == 0 {
					e.report(kind, what, dpos, what+" never ends")
				}
				for _, o := range outs {
					if o.st.nilness(o.v) != 1 {
						e.report(kind, what, dpos, what+" can fail")
					} else if got := vkey(o.result()); got != vkey(VLin{linConst(c.val)}) {
						e.report(kind, what, dpos, fmt.Sprintf("%s gives %s instead of %s (%d)", what, got, c.name, c.val))
					}
				}
			}
		}
		if !e.prop {
			f := r.flow()
			t := tokenKind(r.p, "tokenParamValue")
			for _, o := range f.decode(e.c.dec, e.c.T, tokenList(r.p, f.st, "§vs", []Lin{t, t}, []VSeq{lit(k), f.run(csFree, 0)})) {
				if o.st.nilness(o.v) != 2 {
					e.report("accept", "two values of "+e.wire, dpos, "decoding "+e.wire+" from two values can succeed")
				}
			}
		}
	}
	// no other value is written as something else
	yes, _ := e.valid(func(f *Flow) Value { return e.above(f, maxV) })
	if yes {
		f := r.flow()
		for _, o := range f.encode(e.c.enc, e.c.T, e.above(f, maxV)) {
			if o.text() != e.line(unknownKeyword) {
				e.report("keyword", "other values of "+e.c.name, epos, fmt.Sprintf("values of %s that are no constants are accepted and written as %q", e.c.name, o.text()))
			}
		}
	}
	// no other text becomes a constant with a keyword
	f := r.flow()
	for _, o := range f.decode(e.c.dec, e.c.T, e.args(f, lit("X-").concat(f.run(csFree, 1)), 0)...) {
		if o.st.nilness(o.v) == 2 {
			continue
		}
		v, ok := o.result().(VLin)
		if !ok || !v.isConst() || keyed[v.C] {
			e.report("decoded", "other keywords of "+e.wire, dpos, fmt.Sprintf("other keywords are decoded as %s", vkey(o.result())))
		}
	}
}

// above is any value greater than the constants.
func (e *enumRun) above(f *Flow, maxV int64) Value {
	v := f.st.mk(e.c.T, "§v")
	f.st.z().assumeLE(linConst(maxV + 1).sub(v.(VLin).Lin))
	return v
}

// flag checks a parameter that has one value only.
func (e *enumRun) flag() {
	r := e.r
	const k = "THISANDFUTURE"
	epos, dpos := r.p.pos(e.c.enc.Pos()), r.p.pos(e.c.dec.Pos())
	for _, t := range e.encode(zero(e.c.T)) {
		if t != e.line(k) {
			e.report("keyword", e.wire, epos, fmt.Sprintf("%s is written as %q", e.wire, t))
		}
	}
	if _, no := e.valid(func(*Flow) Value { return zero(e.c.T) }); no {
		e.report("invalid", e.wire, r.p.pos(e.c.val.Pos()), e.wire+" is rejected by validation")
	}
	for i, v := range []func(string) string{ident, lowerKey, mixedKey} {
		kind := "decoded"
		if i > 0 {
			kind = "case"
		}
		for variant := 0; variant < 2; variant++ {
			f := r.flow()
			for _, o := range f.decode(e.c.dec, e.c.T, e.args(f, lit(v(k)), variant)...) {
				if o.st.nilness(o.v) != 1 {
					e.report(kind, e.wire+" "+v(k), dpos, fmt.Sprintf("decoding %s %s can fail", e.wire, v(k)))
				}
			}
		}
	}
	f := r.flow()
	for _, o := range f.decode(e.c.dec, e.c.T, e.args(f, lit("X-").concat(f.run(csFree, 1)), 0)...) {
		if o.st.nilness(o.v) != 2 {
			e.report("accept", "other keywords of "+e.wire, dpos, "other keywords of "+e.wire+" are accepted")
		}
	}
	f = r.flow()
	t := tokenKind(r.p, "tokenParamValue")
	for _, o := range f.decode(e.c.dec, e.c.T, tokenList(r.p, f.st, "§vs", []Lin{t, t}, []VSeq{lit(k), lit(k)})) {
		if o.st.nilness(o.v) != 2 {
			e.report("accept", "two values of "+e.wire, dpos, "decoding "+e.wire+" from two values can succeed")
		}
	}
}
