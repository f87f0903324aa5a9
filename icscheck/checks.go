package main

import (
	"fmt"
	"strings"
	"sync"
)

func ident(s string) string { return s }

type reporter func(kind, construct, pos, msg string)

// decodeProps names the properties a finding about a decoder belongs to.
func decodeProps(kind, construct string) []string {
	has := func(ss ...string) bool {
		for _, s := range ss {
			if strings.Contains(construct, s) {
				return true
			}
		}
		return false
	}
	switch kind {
	case "accept":
		if has("inside an unknown component") {
			return []string{"C11", "C19"}
		}
		if has("malformed", "failing reader", "end of input", "END of another") {
			return []string{"C11"}
		}
		return []string{"C09"}
	case "noend":
		if has("unknown") {
			return []string{"C11", "C19"}
		}
		return []string{"C11"}
	case "lost":
		if has("END") {
			return []string{"C11", "C19"}
		}
		return []string{"C07", "C11", "C19"}
	case "reject":
		if has("unknown", "X-A", "X-B", "skip") {
			return []string{"C19"}
		}
		return []string{"C09"}
	case "field":
		if has("(no ") {
			return []string{"C07", "C19"}
		}
		return []string{"C07"}
	case "never":
		return []string{"C07", "C09"}
	}
	return []string{"C07", "C09", "C11", "C19"}
}

// onlyFor passes on the findings that belong to the property being checked.
func (r *Report) onlyFor(props func(kind, construct string) []string) reporter {
	return func(kind, construct, pos, msg string) {
		for _, p := range props(kind, construct) {
			// what validation does not find is written
			if p == r.ID || r.ID == "C03" && (p == "C05" || p == "C10") {
				r.fail(kind, construct, pos, "%s", msg)
				return
			}
		}
	}
}

// propDecodeProps names the properties a finding about a property decoder
// belongs to.
func propDecodeProps(kind, construct string) []string {
	ps := []string{"C07", "C09"}
	switch kind {
	case "accept":
		if strings.Contains(construct, "malformed") {
			return []string{"C11"}
		}
		return ps
	case "reject":
		ps = []string{"C09"}
	case "field":
		ps = []string{"C07"}
	}
	for word, p := range map[string]string{"X-U": "C19", "TZID": "C17", "ENCODING": "C24"} {
		if strings.Contains(construct, word) {
			ps = append(ps, "C07", "C09", p)
		}
	}
	return ps
}

func propEncodeProps(kind, construct string) []string {
	switch kind {
	case "name", "value":
		return []string{"C07"}
	case "zone":
		return []string{"C07", "C17"}
	case "line":
		return []string{"C06", "C07", "C12"}
	}
	return []string{"C06"}
}

const (
	decodeRule  = "Every component decoder is interpreted abstractly over SSA together with a typestate of the stream of content lines: at each read every kind of line (each property of the component, a second one, an unknown one, BEGIN and END of known and unknown components, end of input, read error) is offered, property and component decoders either fill their receiver or fail, and at every return the outcome and all fields are compared with the lines delivered."
	pdecodeRule = "Every property decoder is interpreted abstractly on lists of parameters built from each of its parameters, unknown ones, VALUE, TZID and ENCODING with arbitrary values; parameter and value decoders either fill their receiver or fail, and the outcome and all fields are compared with the list."
	encodeRule  = "Every component encoder is interpreted abstractly once per field, with an arbitrary index for repeatable ones, and a typestate counts how often and in which order that field is written and which BEGIN, END and ACTION lines surround it."
	pencodeRule = "Every property encoder is interpreted abstractly for each of its value types and each parameter being set or not; the line it assembles from literals, parameters and value is compared with name, parameters, VALUE, colon, value and CRLF."
	validRule   = "Every validator of components and properties is interpreted abstractly once per part, with that part (an arbitrary element of a repeatable one) assumed invalid, and has to fail on every path; with all parts valid it has to succeed for exactly the allowed combinations of present parts."
)

// analyses of the source and the properties their findings belong to
type analysis struct {
	rule  string
	props func(kind, construct string) []string
	run   func(r *Report, report reporter)
}

var (
	anSectionDecode = analysis{decodeRule, decodeProps, func(r *Report, report reporter) { r.sectionDecode(ident, "", true, report) }}
	anPropDecode    = analysis{pdecodeRule, propDecodeProps, func(r *Report, report reporter) { r.propDecode(ident, "", report) }}
	anSectionEncode = analysis{encodeRule, encodeProps, (*Report).sectionEncode}
	anPropEncode    = analysis{pencodeRule, propEncodeProps, (*Report).propEncode}
	anSectionValid  = analysis{validRule, validProps, (*Report).sectionValid}
	anPropValid     = analysis{validRule, validProps, (*Report).propValid}
	anParams        = analysis{paramRule, paramProps, (*Report).params}
	anEnums         = analysis{enumRule, enumProps, (*Report).enums}
	anTexts         = analysis{textRule, textProps, (*Report).texts}
	anRecur         = analysis{recurRule, recurProps, (*Report).recur}
	anValues        = analysis{valueRule, valueProps, (*Report).values}
	anEncode        = analysis{writeRule, writeProps, (*Report).encodeErrors}
	anFolding       = analysis{foldRule, func(kind, construct string) []string { return []string{"C14"} }, (*Report).folding}
	anUnfolding     = analysis{unfoldRule, unfoldProps, (*Report).unfolding}
	anLexer         = analysis{lexRule, lexProps, (*Report).lexer}
	anAlarms        = analysis{alarmRule, alarmProps, func(r *Report, report reporter) { r.alarms(ident, "", report) }}
	anFirstLine     = analysis{firstRule, firstProps, (*Report).firstLine}
	anDurations     = analysis{durationRule, durationProps, (*Report).durations}
)

var claims = map[string][]analysis{
	"C03": {anEncode, anSectionValid, anPropValid, anParams, anEnums, anRecur, anValues, anDurations},
	"C04": {anEncode},
	"C05": {anSectionValid, anPropValid, anParams, anEnums, anRecur, anValues, anDurations},
	"C06": {anEncode, anSectionEncode, anPropEncode, anParams, anEnums, anRecur, anValues, anDurations},
	"C07": {anSectionDecode, anAlarms, anSectionEncode, anPropDecode, anPropEncode, anParams, anEnums, anRecur, anValues, anDurations},
	"C08": {anEnums, anRecur, anValues},
	"C09": {anSectionDecode, anAlarms, anPropDecode, anParams, anEnums},
	"C10": {anSectionValid, anPropValid},
	"C11": {anSectionDecode, anAlarms, anPropDecode, anParams, anEnums, anRecur, anValues, anDurations, anUnfolding, anLexer, anFirstLine},
	"C12": {anPropEncode, anSectionEncode, anTexts, anParams, anEnums, anRecur, anValues, anDurations},
	"C13": {anTexts, anParams, anValues},
	"C14": {anFolding},
	"C15": {anUnfolding},
	"C16": {anRecur},
	"C17": {anValues, anRecur, anPropEncode, anPropDecode},
	"C19": {anSectionDecode, anAlarms, anPropDecode},
	"C21": {anDurations, anValues},
	"C22": {anLexer, anFirstLine},
	"C24": {anValues, anDurations, anRecur, anPropDecode},
}

func init() {
	for id, as := range claims {
		register(id, "", func(r *Report) {
			for _, a := range as {
				r.rule(a.rule)
				a.run(r, r.onlyFor(a.props))
			}
		})
	}
	register("C20", "", func(r *Report) {
		r.rule(effectRule)
		for _, entry := range []string{"Decode", "Encode"} {
			r.sharing(entry, r.onlyFor(func(kind, construct string) []string { return []string{"C20"} }))
		}
	})
	register("C01", "", func(r *Report) {
		r.rule(modRule + panicRule)
		r.rule(lexRule)
		only := r.onlyFor(func(kind, construct string) []string { return []string{"C01"} })
		r.panics(only, "Decode")
		r.lexer(r.onlyFor(lexProps))
	})
	register("C02", "", func(r *Report) {
		r.rule(modRule + loopRule)
		r.rule(lexRule)
		r.rule(unfoldRule)
		r.finishes(r.onlyFor(func(kind, construct string) []string { return []string{"C02"} }), "Decode", "Encode")
		r.lexer(r.onlyFor(lexProps))
		r.unfolding(r.onlyFor(unfoldProps))
	})
	register("C18", "", func(r *Report) {
		r.rule(decodeRule + pdecodeRule + " The analysis is repeated with the names in lower and in mixed case and has to give the same results.")
		r.rule(enumRule)
		r.caseVariants()
		r.enums(r.onlyFor(enumProps))
		r.values(r.onlyFor(valueProps))
		r.rule(alarmRule)
		r.rule(firstRule)
		r.firstLine(r.onlyFor(firstProps))
	})
}

func encodeProps(kind, construct string) []string {
	if kind == "frame" {
		return []string{"C06", "C07"}
	}
	return []string{"C06"}
}

func validProps(kind, construct string) []string {
	switch kind {
	case "combo":
		return []string{"C10"}
	case "reject":
		return []string{"C05", "C10"}
	}
	return []string{"C05"}
}

// caseVariants reports what goes wrong only with other spellings of the names.
func (r *Report) caseVariants() {
	base := map[string]bool{}
	var mu sync.Mutex
	note := func(kind, construct, pos, msg string) {
		mu.Lock()
		base[kind+"|"+construct] = true
		mu.Unlock()
	}
	r.sectionDecode(ident, "", true, note)
	r.propDecode(ident, "", note)
	r.alarms(ident, "", note)
	for tag, v := range map[string]func(string) string{" in lower case": lowerKey, " in mixed case": mixedKey} {
		rep := func(kind, construct, pos, msg string) {
			if !base[kind+"|"+construct] {
				r.fail(kind, construct+tag, pos, "%s", fmt.Sprintf("with names%s: %s", tag, msg))
			}
		}
		r.sectionDecode(v, tag, true, rep)
		r.propDecode(v, "", rep)
		r.alarms(v, "", rep)
	}
}

// textProps names the properties a finding about the notation of texts
// belongs to.
func textProps(kind, construct string) []string {
	if kind == "noreturn" {
		return []string{"C02", "C13"}
	}
	return []string{"C12", "C13"}
}

// recurProps names the properties a finding about a recurrence rule belongs to.
func recurProps(kind, construct string) []string {
	switch kind {
	case "keyword":
		return []string{"C06", "C07", "C08", "C12", "C16"}
	case "valid":
		return []string{"C05", "C16"}
	case "number":
		return []string{"C11", "C16", "C24"}
	case "until":
		return []string{"C07", "C16", "C17"}
	}
	return []string{"C07", "C16"}
}

// valueProps names the properties a finding about a value belongs to.
func valueProps(kind, construct string) []string {
	switch kind {
	case "layout":
		return []string{"C07", "C17", "C24"}
	case "zone":
		return []string{"C07", "C12", "C17"}
	case "valid":
		return []string{"C05", "C17"}
	case "unsafe":
		return []string{"C05", "C12"}
	case "value":
		return []string{"C06", "C07", "C08", "C24"}
	case "malformed":
		return []string{"C11", "C24"}
	case "number":
		return []string{"C05", "C06", "C07", "C11", "C24"}
	case "float":
		return []string{"C05", "C24"}
	case "case":
		return []string{"C07", "C18"}
	case "period":
		return []string{"C06", "C07", "C17", "C21", "C24"}
	case "text":
		return []string{"C12", "C13"}
	}
	return []string{"C24"}
}

// durationProps names the properties a finding about a duration belongs to.
func durationProps(kind, construct string) []string {
	switch kind {
	case "valid", "express":
		return []string{"C05", "C21"}
	case "number":
		return []string{"C11", "C21", "C24"}
	case "form":
		return []string{"C11", "C21"}
	}
	if strings.HasPrefix(construct, "encoding") {
		return []string{"C06", "C07", "C12", "C21", "C24"}
	}
	return []string{"C07", "C21", "C24"}
}

// paramProps names the properties a finding about a parameter belongs to.
func paramProps(kind, construct string) []string {
	switch kind {
	case "quote":
		return []string{"C07"}
	case "accept":
		return []string{"C07", "C09", "C11"}
	case "reject":
		return []string{"C07", "C09", "C13"}
	case "values":
		return []string{"C07", "C13"}
	case "malformed":
		return []string{"C11"}
	case "unquoted":
		return []string{"C07", "C12", "C13"}
	case "missing", "empty":
		return []string{"C06"}
	case "text":
		return []string{"C06", "C07", "C12", "C13"}
	case "invalid":
		return []string{"C05"}
	case "unchecked":
		return []string{"C05", "C12"}
	case "media":
		if strings.HasPrefix(construct, "decoding") {
			return []string{"C07", "C09"}
		}
		return []string{"C05", "C12"}
	case "noreturn":
		return []string{"C02", "C07", "C13"}
	}
	return []string{"C05", "C06", "C07", "C09", "C11", "C12", "C13"}
}

// enumProps names the properties a finding about an enumeration belongs to.
func enumProps(kind, construct string) []string {
	switch kind {
	case "keyword":
		return []string{"C06", "C07", "C08", "C12"}
	case "case":
		return []string{"C08", "C18"}
	case "accept":
		return []string{"C07", "C09", "C11"}
	case "invalid":
		return []string{"C05", "C08"}
	case "decoded":
		return []string{"C07", "C08"}
	}
	return []string{"C08"}
}

func unfoldProps(kind, construct string) []string {
	switch kind {
	case "noend":
		return []string{"C02", "C15"}
	case "error":
		return []string{"C11", "C15"}
	}
	return []string{"C15"}
}

func lexProps(kind, construct string) []string {
	switch kind {
	case "noend":
		return []string{"C02", "C22"}
	case "shape":
		return []string{"C01", "C22"}
	case "accept":
		return []string{"C11", "C22"}
	}
	return []string{"C22"}
}

// writeProps names the properties a finding about writing a calendar belongs
// to.
func writeProps(kind, construct string) []string {
	switch kind {
	case "order":
		return []string{"C03", "C05"}
	case "written":
		return []string{"C06"}
	case "noreturn":
		return []string{"C02", "C04"}
	}
	return []string{"C04"}
}

const (
	writeRule = "Encode is interpreted abstractly with validation either succeeding or failing, the encoding of the calendar as up to three arbitrary writes through the writer it is given, and a typestate of the destination in which every write may succeed or fail; at every write and return the typestate and the error are compared."
	foldRule  = "Encode is interpreted abstractly with lines assembled from a prefix of every length up to 165 octets and some up to 320 followed by up to three pieces (CRLF, an arbitrary character of one, two, three or four octets), written together or one by one; what reaches the destination has to be what was to be written with CRLF and a space inserted between characters, in lines of at most 75 octets."

	unfoldRule = "The reader that Decode hands to the tokeniser is interpreted abstractly on every stream of up to five (some of six) octets, each CR, LF, space or an arbitrary other octet, delivered in pieces of every size and read into buffers of several sizes until it fails; what it delivers has to be the stream without its sequences of CRLF and space, and the error the stream's own."

	lexRule = "The tokeniser that Decode hands to the decoder of the calendar is interpreted abstractly, together with the parser library, on streams assembled from arbitrary characters and runs of each class: after each of 27 prefixes that reach the states of the grammar of content lines, every sequence of up to two (three) further characters, at the end of the input and continued; lines, tokens with their kinds, errors and the end are compared with a reference automaton of the grammar."

	textRule  = "The encoders, decoders and validators of text values are interpreted abstractly on every sequence of up to four (decoding: three) of: an arbitrary character of a class, each special character or escape, plus long runs of arbitrary characters; what they write or return is compared, character class by character class, with the notation."
	paramRule = "The encoder, decoder and validator of every parameter with text, address, URI, boolean or list values is interpreted abstractly on values assembled from arbitrary characters of each class, special characters and escapes, quoted and unquoted, one and several; what they write, return or reject is compared with the caret notation, quoting and the parameter's name."
	enumRule  = "For every constant of an enumerated type (taken from the package's constants and compared with the registered keywords) encoder, validator and decoder are evaluated abstractly: the text written, acceptance, and the constant obtained from the keyword in upper, lower and mixed case; values that are no constants and words that are no keywords are followed as symbols."

	recurRule    = "Encoder, validator and decoder of recurrence rules are interpreted abstractly with every part set alone and in combination, in lists of several lengths and at each place of the list, with numbers as symbols ranging over exactly the allowed values, over everything below and over everything above; the written text, acceptance and the decoded fields are compared."
	valueRule    = "Encoders, validators and decoders of times, dates, periods, numbers, offsets, binary data, addresses, URIs and texts are interpreted abstractly: numbers as symbols over each sub-range or as sequences of symbolic digits, times as symbols in UTC, local time or another zone whose name is an arbitrary text, texts as sequences of character classes; the written text is read by the grammar of content lines, and decoded values are compared as expressions over the input."
	durationRule = "The encoder and validator of durations are interpreted abstractly for every subset of units, both signs and numbers of one to seventeen symbolic digits, and what they write is read by a parser for the grammar of durations; the decoder is followed on every sequence of up to four items (numbers with each designator, T, numbers alone, designators alone, unknown designators) and has to accept, reject and fill the units as the grammar demands."
)
