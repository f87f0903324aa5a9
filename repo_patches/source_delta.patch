From 4fa269a49abd3c874c8fad1fbd1f5114f3015f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:58 +0000
Subject: [PATCH 01/25] fix: consume escaped characters when encoding parameter
 values

Encoding a parameter value containing a caret, a double quote or a newline
never moved past that character, so Encode looped until memory ran out.
---
 genParams.sh | 2 ++
 params.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..129bbaa 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -380,6 +380,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..f464d53 100644
--- a/params.go
+++ b/params.go
@@ -1231,6 +1231,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From a3c89b68a762f43f47981a443e24cd0e61c3f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:20 +0000
Subject: [PATCH 02/25] fix: do not repeat caret escapes in decoded parameter
 values

The escape sequence was decoded but also left in the token buffer, so
"a^nb" decoded to "a\n^nb". An unknown escape lost the character that
followed the caret.
---
 genParams.sh | 3 ++-
 params.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 129bbaa..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
diff --git a/params.go b/params.go
index f464d53..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
-- 
2.43.0


From 98f4e290dce974348709fe004891be838c766649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:23 +0000
Subject: [PATCH 03/25] fix: accept finite floats and reject NaN and infinities
 when validating

The checks were inverted, so no calendar with a GEO property could be
encoded while NaN and infinite coordinates were written out.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..c25cc50 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From f326503c62a7d6b891028cd5fdbb48e6e4b10064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:28 +0000
Subject: [PATCH 04/25] fix: decode LAST-MODIFIED properties

The sections looked for LAST-MOD, so LAST-MODIFIED lines, including the ones
this package writes, were silently dropped.
---
 names.gen    | 2 +-
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/names.gen b/names.gen
index 9da5259..2fbfa25 100644
--- a/names.gen
+++ b/names.gen
@@ -42,7 +42,7 @@ TZURL=TimezoneURL
 REQUEST-STATUS=RequestStatus
 PRODID=ProductID
 UID=UID
-LAST-MOD=LastModified
+LAST-MODIFIED=LastModified
 RECURID=RecurID
 RECURRENCE-ID=RecurrenceID
 TZOFFSET=TimezoneOffset
diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From e7496c5e46524a5147da018592167300b777cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:32 +0000
Subject: [PATCH 05/25] fix: require DURATION and REPEAT together in email and
 URI alarms

The condition was inverted: an alarm with both properties, or with neither,
was rejected, and one with only a single one of them was accepted.
---
 genSections.sh | 4 ++--
 sections.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..30b6740 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -241,10 +241,10 @@ function printSection() {
 		if [ "$typ" = "AND" ]; then
 			for r in ${reqs[@]}; do
 				if $second; then
-					echo -n " &&";
+					echo -n " ||";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index deddf38..5119466 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From 2b47640bebc2086907a2db1548d81ef2fe9de3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:51 +0000
Subject: [PATCH 06/25] fix: quote URI and calendar address parameters

ALTREP, URI, DELEGATED-FROM and DELEGATED-TO values were written without the
quotes their decoders require, so the colon in the URI ended the parameter
and the output could not be read back.
---
 genParams.sh | 6 ++++++
 params.go    | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..cf06458 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -232,7 +232,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+				fi;
 				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 5cb997f..27c2af1 100644
--- a/params.go
+++ b/params.go
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
+	w.WriteString("\"")
 	q.encode(w)
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -194,7 +196,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
+		w.WriteString("\"")
 		q.encode(w)
+		w.WriteString("\"")
 	}
 }
 
@@ -243,7 +247,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
+		w.WriteString("\"")
 		q.encode(w)
+		w.WriteString("\"")
 	}
 }
 
@@ -1084,7 +1090,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
+	w.WriteString("\"")
 	q.encode(w)
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From b755f02442b8fb10741b5916f153d98d2a9daeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:53 +0000
Subject: [PATCH 07/25] fix: report unexpected EOF inside an alarm instead of
 panicking

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From 1226f3227a106208c989b1049b633cd3ca33b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:57 +0000
Subject: [PATCH 08/25] fix: compare names without regard to case everywhere

Property and component names are case-insensitive and mostly treated so, but
END values, alarm properties, alarm actions and the names of components
nested in unknown ones were compared exactly, so valid input was rejected.
---
 genSections.sh    |  6 +++---
 sections.go       | 28 ++++++++++++++--------------
 sections_alarm.go |  5 +++--
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 30b6740..1ec9c56 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -190,9 +190,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -444,7 +444,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections.go b/sections.go
index 5119466..38124a1 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1214,7 +1214,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1817,7 +1817,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2215,7 +2215,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2419,7 +2419,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2592,7 +2592,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2771,7 +2771,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3014,7 +3014,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3331,7 +3331,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3665,7 +3665,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -3985,7 +3985,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4155,7 +4155,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4184,7 +4184,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From 1c5ca5a0d5c2bb6028491e60a2cee4cb7cd12e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:27 +0000
Subject: [PATCH 09/25] fix: reject a signed BYDAY entry without a day name

An entry such as "+1" made Decode index past the end of the string.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index c25cc50..0137dc8 100644
--- a/types.go
+++ b/types.go
@@ -788,10 +788,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					neg = true
 					numCheck = false
 					day = day[1:]
+				}
 
-					if len(day) < 2 {
-						return ErrInvalidRecur
-					}
+				if len(day) < 2 {
+					return ErrInvalidRecur
 				}
 
 				var num int8
-- 
2.43.0


From 49578b7176fbcd5b8a09eede1fd5b4e955781d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:29 +0000
Subject: [PATCH 10/25] fix: validate the occurrence of BYDAY entries

Occurrences outside -53 to 53 were written out although Decode rejects them.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 0137dc8..204ded2 100644
--- a/types.go
+++ b/types.go
@@ -1191,6 +1191,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From a8643c9f2faec48f29876f96edb5eb3e3fef5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:31 +0000
Subject: [PATCH 11/25] fix: compare the time zones of a period by name

Each time zone lookup returns a new location, so a decoded period with a TZID
was always reported as invalid and could not be encoded again.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 204ded2..aec2e87 100644
--- a/types.go
+++ b/types.go
@@ -554,7 +554,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From f488900bf1469f69460af64b6621d808e9bac986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:35 +0000
Subject: [PATCH 12/25] fix: skip nested unknown components without recursion

Deeply nested unknown components could exhaust the stack, which ends the
whole program.
---
 genSections.sh | 18 +++++++++++-------
 sections.go    | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ec9c56..3a6f20c 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -434,7 +434,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	names := []string{n}
+
+	for len(names) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -442,19 +444,21 @@ func decodeDummy(t tokeniser, n string) error {
 			return io.ErrUnexpectedEOF
 		}
 
+		value := strings.ToUpper(p.Data[len(p.Data)-1].Data)
+
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			names = append(names, value)
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if value != names[len(names)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			names = names[:len(names)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index 38124a1..6b65dec 100644
--- a/sections.go
+++ b/sections.go
@@ -4174,7 +4174,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	names := []string{n}
+
+	for len(names) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4182,19 +4184,21 @@ func decodeDummy(t tokeniser, n string) error {
 			return io.ErrUnexpectedEOF
 		}
 
+		value := strings.ToUpper(p.Data[len(p.Data)-1].Data)
+
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			names = append(names, value)
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if value != names[len(names)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			names = names[:len(names)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From 556a22a9d099610767eb06ebc04b2b0108955a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:37 +0000
Subject: [PATCH 13/25] fix: unfold lines independently of how the input is
 read

A read that ended in or just after a fold made Decode hang, lose bytes or
keep the fold, depending on how the reader split its data.
---
 unfolder.go | 98 +++++++++++++++++------------------------------------
 1 file changed, 31 insertions(+), 67 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..9c9d63f 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,47 @@
 package ics
 
 import (
-	"bytes"
+	"bufio"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	buf *bufio.Reader
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.buf == nil {
+		u.buf = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
-				break
-			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+	for n := range p {
+		if n > 0 && u.buf.Buffered() == 0 {
+			return n, nil
+		}
+
+		c, err := u.readByte()
+		if err != nil {
+			return n, err
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
+
+		p[n] = c
 	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else {
-			break
+
+	return len(p), nil
+}
+
+func (u *unfolder) readByte() (byte, error) {
+	for {
+		c, err := u.buf.ReadByte()
+		if err != nil || c != eol[0] {
+			return c, err
 		}
+
+		if next, _ := u.buf.Peek(2); string(next) != string(eol[1:]) {
+			return c, nil
+		}
+
+		u.buf.Discard(2)
 	}
-	return m, err
 }
-- 
2.43.0


From 643fcf89d7711f304649c0cdec93534747360195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:21 +0000
Subject: [PATCH 14/25] fix: match the whole FMTTYPE value

Any value that merely contained something like a media type was accepted, so
a value with line breaks could add lines of its own to the output.
---
 params.gen | 2 +-
 params.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/params.gen b/params.gen
index e13a9e3..4e456d1 100644
--- a/params.gen
+++ b/params.gen
@@ -5,7 +5,7 @@ DELEGATED-FROM=*"!CalendarAddress
 DELEGATED-TO=*"!CalendarAddress
 DIR="
 ENCODING=8BIT|BASE64
-FMTTYPE=~[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]
+FMTTYPE=~^[A-Za-z0-9!#$&.+-^_]+/[A-Za-z0-9!#$&.+-^_]+$
 FBTYPE=?FREE|BUSY|BUSY-UNAVAILABLE|BUSY-TENTATIVE
 LANGUAGE='
 MEMBER=*"
diff --git a/params.go b/params.go
index 27c2af1..c64da6e 100644
--- a/params.go
+++ b/params.go
@@ -1247,7 +1247,7 @@ Loop:
 }
 
 func init() {
-	regexFormatType = regexp.MustCompile("[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]")
+	regexFormatType = regexp.MustCompile("^[A-Za-z0-9!#$&.+-^_]+/[A-Za-z0-9!#$&.+-^_]+$")
 }
 
 // Errors.
-- 
2.43.0


From ff1e8605449af589b85f9f6f13202f2c8754e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:25 +0000
Subject: [PATCH 15/25] fix: decode caret escapes in FMTTYPE values

They were encoded but not decoded, so a caret was doubled on every round
trip.
---
 genParams.sh | 6 ++++--
 params.go    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index cf06458..b628052 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -185,11 +185,13 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	data := decode6868(${vName}.Data)";
+					echo;
+					echo "$indent	if !regex${type}.MatchString(data) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(data)";
 				fi;
 			fi;
 			if $multiple; then
diff --git a/params.go b/params.go
index c64da6e..e09e004 100644
--- a/params.go
+++ b/params.go
@@ -373,11 +373,13 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	data := decode6868(vs[0].Data)
+
+	if !regexFormatType.MatchString(data) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(data)
 
 	return nil
 }
-- 
2.43.0


From 119cd776b667caebc4bfbda8f3bad3e4dda68c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:45 +0000
Subject: [PATCH 16/25] fix: reject URIs containing control characters

The opaque part, the query and the scheme of a URL are written as they are,
so line breaks in them added lines to the output.
---
 types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index aec2e87..0454b5c 100644
--- a/types.go
+++ b/types.go
@@ -111,7 +111,11 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
+func (c CalendarAddress) valid() error {
+	if strings.ContainsAny(c.URL.String(), nonsafeChars[:32]) {
+		return ErrInvalidURI
+	}
+
 	return nil
 }
 
@@ -1465,7 +1469,11 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
+func (u URI) valid() error {
+	if strings.ContainsAny(u.URL.String(), nonsafeChars[:32]) {
+		return ErrInvalidURI
+	}
+
 	return nil
 }
 
@@ -1590,6 +1598,7 @@ var (
 	ErrInvalidTime            = errors.New("invalid Time")
 	ErrInvalidFloat           = errors.New("invalid float")
 	ErrInvalidTFloat          = errors.New("invalid number of floats")
+	ErrInvalidURI             = errors.New("invalid URI")
 	ErrInvalidPeriodStart     = errors.New("invalid start of Period")
 	ErrInvalidPeriodDuration  = errors.New("invalid Period duration")
 	ErrInvalidPeriodEnd       = errors.New("invalid end of Period")
-- 
2.43.0


From fef2b5983e57e98ff9de87dbdf83c7ae697eb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:48 +0000
Subject: [PATCH 17/25] fix: reject double quotes in quoted URI parameters

A double quote inside the URI ended the parameter value early.
---
 genParams.sh | 12 ++++++++++++
 params.go    | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/genParams.sh b/genParams.sh
index b628052..def8d6f 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -289,6 +289,12 @@ source "comments.sh";
 						echo "		if err := v.valid(); err != nil {";
 						echo "			return fmt.Errorf(errValidatingType, c$type, err)";
 						echo "		}";
+						if $doubleQuote; then
+							echo;
+							echo "		if strings.ContainsAny(v.String(), nonsafeChars[32:33]) {";
+							echo "			return fmt.Errorf(errValidatingType, c$type, ErrInvalidURI)";
+							echo "		}";
+						fi;
 					else
 						echo "	q := $vType(t)";
 						echo;
@@ -296,6 +302,12 @@ source "comments.sh";
 						echo "		return fmt.Errorf(errValidatingType, c$type, err)";
 						echo "	}";
 						echo;
+						if $doubleQuote; then
+							echo "	if strings.ContainsAny(q.String(), nonsafeChars[32:33]) {";
+							echo "		return fmt.Errorf(errValidatingType, c$type, ErrInvalidURI)";
+							echo "	}";
+							echo;
+						fi;
 						echo "	return nil";
 					fi;
 				elif [ ${#choices[@]} -gt 0 ]; then
diff --git a/params.go b/params.go
index e09e004..e70bcd0 100644
--- a/params.go
+++ b/params.go
@@ -56,6 +56,10 @@ func (t ParamAlternativeRepresentation) valid() error {
 		return fmt.Errorf(errValidatingType, cAlternativeRepresentation, err)
 	}
 
+	if strings.ContainsAny(q.String(), nonsafeChars[32:33]) {
+		return fmt.Errorf(errValidatingType, cAlternativeRepresentation, ErrInvalidURI)
+	}
+
 	return nil
 }
 
@@ -207,6 +211,10 @@ func (t ParamDelegator) valid() error {
 		if err := v.valid(); err != nil {
 			return fmt.Errorf(errValidatingType, cDelegator, err)
 		}
+
+		if strings.ContainsAny(v.String(), nonsafeChars[32:33]) {
+			return fmt.Errorf(errValidatingType, cDelegator, ErrInvalidURI)
+		}
 	}
 
 	return nil
@@ -258,6 +266,10 @@ func (t ParamDelagatee) valid() error {
 		if err := v.valid(); err != nil {
 			return fmt.Errorf(errValidatingType, cDelagatee, err)
 		}
+
+		if strings.ContainsAny(v.String(), nonsafeChars[32:33]) {
+			return fmt.Errorf(errValidatingType, cDelagatee, ErrInvalidURI)
+		}
 	}
 
 	return nil
@@ -1104,6 +1116,10 @@ func (t ParamURI) valid() error {
 		return fmt.Errorf(errValidatingType, cURI, err)
 	}
 
+	if strings.ContainsAny(q.String(), nonsafeChars[32:33]) {
+		return fmt.Errorf(errValidatingType, cURI, ErrInvalidURI)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cda468160eb63588bc2b0d5e8786e6ed5b0d57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:51 +0000
Subject: [PATCH 18/25] fix: reject times whose zone has no usable name

The name is written as the TZID. An empty one, as in times parsed with a
numeric offset, is read back as UTC and so shifts the time, and special
characters in it broke the line apart.
---
 types.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 0454b5c..46a48a4 100644
--- a/types.go
+++ b/types.go
@@ -213,7 +213,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validTimezone(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -552,7 +552,7 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.IsZero() || !validTimezone(p.Start.Time) {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative {
@@ -1171,6 +1171,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if !validTimezone(r.Until) {
+		return ErrInvalidTime
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1437,7 +1441,7 @@ func (t Time) encode(w writer) {
 }
 
 func (t Time) valid() error {
-	if t.IsZero() {
+	if t.IsZero() || !validTimezone(t.Time) {
 		return ErrInvalidTime
 	}
 
@@ -1586,6 +1590,12 @@ func writeTimezone(w writer, t time.Time) {
 	}
 }
 
+func validTimezone(t time.Time) bool {
+	l := t.Location().String()
+
+	return l != "" && !strings.ContainsAny(l, nonsafeChars)
+}
+
 // Errors.
 var (
 	ErrInvalidEncoding        = errors.New("invalid Binary encoding")
-- 
2.43.0


From a2369064ae7ad1b17762f32e95cb3126d78aa030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:05 +0000
Subject: [PATCH 19/25] fix: reject durations that mix weeks with other units

The format does not allow the combination, and everything but the weeks was
silently left out of the output.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 46a48a4..52b84b4 100644
--- a/types.go
+++ b/types.go
@@ -395,7 +395,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -555,7 +559,7 @@ func (p Period) valid() error {
 	if p.Start.IsZero() || !validTimezone(p.Start.Time) {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
-- 
2.43.0


From 1d8e4bc12bf0ab9945cec0eef6dbe797f944146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:07 +0000
Subject: [PATCH 20/25] fix: reject recurrence rules with both COUNT and UNTIL

Decode refuses such rules, while Encode silently dropped UNTIL.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 52b84b4..6c5af25 100644
--- a/types.go
+++ b/types.go
@@ -1179,6 +1179,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidTime
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
-- 
2.43.0


From 17000c01e511fe2e3c7a9c551564282b05bb83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:09 +0000
Subject: [PATCH 21/25] fix: reject UTC offsets that do not fit in two hour
 digits

Offsets of 100 hours or more were silently written with a wrong hour.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 6c5af25..e1b6188 100644
--- a/types.go
+++ b/types.go
@@ -1585,7 +1585,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -360000 || u >= 360000 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 548a1e791cb5ef8606f115c7e5232ca4e24233ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:33 +0000
Subject: [PATCH 22/25] fix: validate required property combinations before
 encoding

Encode wrote components that Decode rejects, such as an event with both an end
and a duration or a time zone without any observance.
---
 genSections.sh | 136 ++++++++++++++++++++++++++++---------------------
 sections.go    |  40 +++++++++++++++
 2 files changed, 119 insertions(+), 57 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 3a6f20c..a6536e8 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,83 @@ function addToSection() {
 	fi;
 }
 
+# isNil prints an absence check, or with '!' a presence check, for a field; lists
+# given to the encoder may be empty without being nil.
+function isNil() {
+	declare name="$(getName "$1")";
+	for tline in "${currSection[@]}"; do
+		aline=( $tline );
+		if [ "$err" = "errValidatingType" -a "${aline[0]}" = "$name" ] && ${aline[3]}; then
+			echo -n "len(s.$name) ${2:-=}= 0";
+			return;
+		fi;
+	done;
+	echo -n "s.$name ${2:-=}= nil";
+}
+
+# printRequirements prints the checks for the combinations of fields that are
+# required, wrapping errors with the given format.
+function printRequirements() {
+	declare err="$1";
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " ||";
+				fi;
+				if $first; then
+					echo -n " t != ($(isNil "$r"))";
+					second=true;
+				else
+					echo -n " t := $(isNil "$r");";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isNil "$r")";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isNil "$r" "!")";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(isNil "$r")";
+					second=true;
+				else
+					echo -n " $(isNil "$r" "!") && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($err, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +307,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " ||";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements errDecodingType;
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +379,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements errValidatingType;
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 6b65dec..201cfcc 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 6b8754f5d8a0b2a88092a407f890792863240edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:56 +0000
Subject: [PATCH 23/25] fix: reject parameters with an empty name

---
 tokeniser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..6976ca4 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,7 +70,7 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	if t.AcceptRun(ianaToken) != '=' || t.Len() == 0 {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
-- 
2.43.0


From 131432e593d5ec70a77c60a6ba806c5f9cb74edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:58 +0000
Subject: [PATCH 24/25] fix: reject durations with units after a second time
 designator

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index e1b6188..4681732 100644
--- a/types.go
+++ b/types.go
@@ -243,6 +243,10 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
+			if level > 1 {
+				return ErrInvalidDuration
+			}
+
 			level = 1
 		}
 
-- 
2.43.0


From 785733d2212307a352c9cc3c21ba57c3841d9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:44 +0000
Subject: [PATCH 25/25] fix: accept the BASE64 encoding name in any letter case

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 4681732..6802b32 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if strings.ToUpper(params["ENCODING"]) != "BASE64" {
 		return ErrInvalidEncoding
 	}
 
-- 
2.43.0

