package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The wire names of RFC 5545 (and the alarm extensions), by public type.

var compNames = map[string]string{
	"Calendar": "VCALENDAR", "Event": "VEVENT", "Todo": "VTODO", "Journal": "VJOURNAL", "FreeBusy": "VFREEBUSY",
	"Timezone": "VTIMEZONE", "Standard": "STANDARD", "Daylight": "DAYLIGHT", "Alarm": "VALARM",
	"AlarmAudio": "VALARM", "AlarmDisplay": "VALARM", "AlarmEmail": "VALARM", "AlarmURI": "VALARM", "AlarmNone": "VALARM",
}

var alarmActions = map[string]string{
	"AlarmAudio": "AUDIO", "AlarmDisplay": "DISPLAY", "AlarmEmail": "EMAIL", "AlarmURI": "URI", "AlarmNone": "NONE",
}

var propNames = map[string]string{
	"PropAction": "ACTION", "PropAttachment": "ATTACH", "PropAttendee": "ATTENDEE", "PropCalendarScale": "CALSCALE",
	"PropCategories": "CATEGORIES", "PropClass": "CLASS", "PropComment": "COMMENT", "PropCompleted": "COMPLETED",
	"PropContact": "CONTACT", "PropCreated": "CREATED", "PropDescription": "DESCRIPTION", "PropDateTimeEnd": "DTEND",
	"PropDateTimeStamp": "DTSTAMP", "PropDateTimeStart": "DTSTART", "PropDue": "DUE", "PropDuration": "DURATION",
	"PropExceptionDateTime": "EXDATE", "PropFreeBusy": "FREEBUSY", "PropGeo": "GEO", "PropLastModified": "LAST-MODIFIED",
	"PropLocation": "LOCATION", "PropMethod": "METHOD", "PropOrganizer": "ORGANIZER", "PropPercentComplete": "PERCENT-COMPLETE",
	"PropPriority": "PRIORITY", "PropProductID": "PRODID", "PropRecurrenceDateTimes": "RDATE", "PropRecurrenceID": "RECURRENCE-ID",
	"PropRelatedTo": "RELATED-TO", "PropRepeat": "REPEAT", "PropRequestStatus": "REQUEST-STATUS", "PropResources": "RESOURCES",
	"PropRecurrenceRule": "RRULE", "PropSequence": "SEQUENCE", "PropStatus": "STATUS", "PropSummary": "SUMMARY",
	"PropTimeTransparency": "TRANSP", "PropTrigger": "TRIGGER", "PropTimezoneID": "TZID", "PropTimezoneName": "TZNAME",
	"PropTimezoneOffsetFrom": "TZOFFSETFROM", "PropTimezoneOffsetTo": "TZOFFSETTO", "PropTimezoneURL": "TZURL",
	"PropUID": "UID", "PropURL": "URL", "PropURI": "URI", "PropVersion": "VERSION", "PropAlarmAgent": "ALARM-AGENT",
	"PropAlarmStatus": "STATUS", "PropLastTriggered": "LAST-TRIGGERED", "PropAcknowledged": "ACKNOWLEDGED",
	"PropProximity": "PROXIMITY", "PropGeoLocation": "GEO-LOCATION", "PropDefaultAlarm": "DEFAULT-ALARM",
}

var paramNames = map[string]string{
	"ParamAlternativeRepresentation": "ALTREP", "ParamCommonName": "CN", "ParamCalendarUserType": "CUTYPE",
	"ParamDelegator": "DELEGATED-FROM", "ParamDelagatee": "DELEGATED-TO", "ParamDirectoryEntry": "DIR",
	"ParamEncoding": "ENCODING", "ParamFormatType": "FMTTYPE", "ParamFreeBusyType": "FBTYPE", "ParamLanguage": "LANGUAGE",
	"ParamMember": "MEMBER", "ParamParticipationStatus": "PARTSTAT", "ParamRange": "RANGE", "ParamRelated": "RELATED",
	"ParamRelationshipType": "RELTYPE", "ParamParticipationRole": "ROLE", "ParamRSVP": "RSVP", "ParamSentBy": "SENT-BY",
	"ParamTimezoneID": "TZID", "ParamValue": "VALUE", "ParamURI": "URI", "ParamID": "ID", "ParamAgentID": "AGENT-ID",
}

// valueNames are the VALUE keywords of the value types.
var valueNames = map[string]string{
	"URI": "URI", "Binary": "BINARY", "DateTime": "DATE-TIME", "Date": "DATE", "Period": "PERIOD", "Duration": "DURATION",
	"Boolean": "BOOLEAN", "CalendarAddress": "CAL-ADDRESS", "Float": "FLOAT", "Integer": "INTEGER", "Recur": "RECUR",
	"Text": "TEXT", "Time": "TIME", "UTCOffset": "UTC-OFFSET",
}

// Constraint is a requirement between properties of a component.
type Constraint struct {
	Kind string // "excl": not both, "needs": A requires B, "any": at least one of A, B, "both": A iff B
	A, B string
}

func (c Constraint) ok(has func(string) bool) bool {
	switch c.Kind {
	case "excl":
		return !(has(c.A) && has(c.B))
	case "needs":
		return !has(c.A) || has(c.B)
	case "any":
		return has(c.A) || has(c.B)
	case "both":
		return has(c.A) == has(c.B)
	}
	return false
}

func (c Constraint) String() string {
	switch c.Kind {
	case "excl":
		return c.A + " and " + c.B + " are exclusive"
	case "needs":
		return c.A + " requires " + c.B
	case "any":
		return c.A + " or " + c.B + " is required"
	}
	return c.A + " and " + c.B + " only together"
}

var constraints = map[string][]Constraint{
	"Event":        {{"excl", "DTEND", "DURATION"}},
	"Todo":         {{"needs", "DURATION", "DTSTART"}, {"excl", "DUE", "DURATION"}},
	"Timezone":     {{"any", "STANDARD", "DAYLIGHT"}},
	"AlarmAudio":   {{"needs", "GEO-LOCATION", "PROXIMITY"}},
	"AlarmDisplay": {{"needs", "GEO-LOCATION", "PROXIMITY"}},
	"AlarmEmail":   {{"both", "DURATION", "REPEAT"}, {"needs", "GEO-LOCATION", "PROXIMITY"}},
	"AlarmURI":     {{"both", "DURATION", "REPEAT"}, {"needs", "GEO-LOCATION", "PROXIMITY"}},
}

var sectionTypes = []string{"Calendar", "Event", "Todo", "Journal", "FreeBusy", "Timezone", "Standard", "Daylight", "AlarmAudio", "AlarmDisplay", "AlarmEmail", "AlarmURI", "AlarmNone"}

// Field is a field of a component.
type Field struct {
	Name  string
	Index int
	Key   string // property name, or component name
	Elem  *types.Named
	Card  byte // '!' required, '?' optional, '*' repeatable
	Comp  bool
}

// Section is a component type with its fields and methods.
type Section struct {
	Name   string
	Wire   string
	T      *types.Named
	Fields []*Field
	Cons   []Constraint
	dec    *ssa.Function
	enc    *ssa.Function
	val    *ssa.Function
}

func (s *Section) field(key string) *Field {
	for _, f := range s.Fields {
		if f.Key == key {
			return f
		}
	}
	return nil
}

func (s *Section) required() []string {
	var r []string
	for _, f := range s.Fields {
		if f.Card == '!' {
			r = append(r, f.Key)
		}
	}
	return r
}

// keys returns all property and component names of the section.
func (s *Section) keys() []string {
	var r []string
	for _, f := range s.Fields {
		r = append(r, f.Key)
	}
	sort.Strings(r)
	return r
}

func (p *Prog) namedType(n string) *types.Named {
	if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
		if nt, ok := tn.Type().(*types.Named); ok {
			return nt
		}
	}
	return nil
}

// sections resolves the component types.
func (r *Report) sections() []*Section {
	var ss []*Section
	for _, n := range sectionTypes {
		if s := r.section(n); s != nil {
			ss = append(ss, s)
		}
	}
	return ss
}

func (r *Report) section(n string) *Section {
	T := r.p.namedType(n)
	if !r.anchor(T != nil, "component type "+n) {
		return nil
	}
	st, ok := T.Underlying().(*types.Struct)
	if !r.anchor(ok, "struct type "+n) {
		return nil
	}
	s := &Section{Name: n, Wire: compNames[n], T: T, Cons: constraints[n]}
	s.dec, s.enc, s.val = r.p.DeclMethod(T, "decode"), r.p.DeclMethod(T, "encode"), r.p.DeclMethod(T, "valid")
	r.anchor(s.dec != nil, "decoding of "+n)
	r.anchor(s.enc != nil, "encoding of "+n)
	r.anchor(s.val != nil, "validation of "+n)
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		f := &Field{Name: v.Name(), Index: i, Card: '!'}
		t := v.Type()
		switch x := t.(type) {
		case *types.Pointer:
			f.Card, t = '?', x.Elem()
		case *types.Slice:
			f.Card, t = '*', x.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok {
			r.anchor(false, "type of field "+n+"."+v.Name())
			continue
		}
		f.Elem = nt
		tn := nt.Obj().Name()
		if w, ok := compNames[tn]; ok {
			f.Key, f.Comp = w, true
		} else if w, ok := propNames[tn]; ok {
			f.Key = w
		} else {
			r.anchor(false, "wire name of field "+n+"."+v.Name()+" of type "+tn)
			continue
		}
		s.Fields = append(s.Fields, f)
	}
	if s.dec == nil || s.enc == nil || s.val == nil {
		return nil
	}
	return s
}

func lowerKey(s string) string { return strings.ToLower(s) }

func mixedKey(s string) string {
	b := []byte(strings.ToLower(s))
	for i := 0; i < len(b); i += 2 {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}
