From 0836ab33cc5e1c84f28c10660ff50f0757959e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 01/27] fix: derive a period's duration from its derived start

GetDuration required the period's own start attribute even when its start
follows from the timeline (first period of a static MPD, or a previous period
with a duration), and required mediaPresentationDuration for periods that are
not the last one.
---
 mpd/period.go | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..6ccdeb8 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -129,7 +129,8 @@ func (p *Period) GetStart() (Duration, error) {
 	return 0, ErrUnknownPeriodStart
 }
 
-// GetDuration returns the period's duration if specified or the MPD is single-period static.
+// GetDuration returns the period's duration if specified, or else derived from its start and
+// the start of the next period or the end of a static MPD.
 func (p *Period) GetDuration() (Duration, error) {
 	if p.Duration != nil {
 		return *p.Duration, nil
@@ -143,35 +144,24 @@ func (p *Period) GetDuration() (Duration, error) {
 	if err != nil {
 		return 0, err
 	}
-	switch m.GetType() {
-	case STATIC_TYPE:
-		if m.MediaPresentationDuration == nil {
-			return 0, ErrNoMediaPresentationDuration
-		}
-		end := *m.MediaPresentationDuration
-		if idx < nrPeriods-1 {
-			if m.Periods[idx+1].Start == nil {
-				return 0, ErrUnknownPeriodDur
-			}
-			end = *m.Periods[idx+1].Start
-		}
-		if p.Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return end - *p.Start, nil
-	default: // dynamic
-		if p.Start == nil {
-			// Early available period
-			return 0, ErrUnknownPeriodDur
-		}
-		if idx == nrPeriods-1 {
-			return 0, ErrUnknownPeriodDur
-		}
+	start, err := p.GetStart()
+	if err != nil {
+		// E.g. early available period
+		return 0, ErrUnknownPeriodDur
+	}
+	if idx < nrPeriods-1 {
 		if m.Periods[idx+1].Start == nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		return *m.Periods[idx+1].Start - start, nil
+	}
+	if m.GetType() != STATIC_TYPE {
+		return 0, ErrUnknownPeriodDur
+	}
+	if m.MediaPresentationDuration == nil {
+		return 0, ErrNoMediaPresentationDuration
 	}
+	return *m.MediaPresentationDuration - start, nil
 }
 
 // Clone returns a deep copy of the Period with parent links set.
-- 
2.43.0


From 2b027fae1ca45e87248d08ac0c4082e269f1a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 02/27] fix: convert date-times of all years to seconds

ConvertToSeconds used UnixNano, which overflows outside the years 1678 to
2262 and returned an unrelated number of seconds without an error.
---
 mpd/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c2ea761 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,6 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	// UnixNano is only defined for the years 1678 to 2262
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 531b3ed25d68c5b3385dc6b808fdf0f664a7cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 03/27] fix: render durations that round up to one second as
 PT1S

Durations from 999.5ms up to (not including) one second were rendered as PT0S.
---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..0356307 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -78,7 +78,7 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
+	case s == 0 && ms < 1000:
 		// Time smaller than 1s, return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
-- 
2.43.0


From 408bb877f8670e7bb1cba9c6ed7b28c4ca218348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 04/27] fix: reject malformed durations

Days after the T, an empty time part and a decimal point without digits on
both sides were accepted.
---
 mpd/duration.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 0356307..911eb23 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -245,12 +245,15 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit == 'D') == afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
+		if str[start] == '.' || str[i-2] == '.' {
+			return 0, newParseDurationError("decimal point must be surrounded by digits")
+		}
 		lastUnit = unit
 		seenAny = true
 
@@ -286,6 +289,9 @@ func ParseDuration(str string) (time.Duration, error) {
 	if !seenAny {
 		return 0, newParseDurationError("at least one number and designator are required")
 	}
+	if afterT && rank(lastUnit) < rank('H') {
+		return 0, newParseDurationError("T must be followed by hours, minutes or seconds")
+	}
 	return total, nil
 }
 
-- 
2.43.0


From d36750edab6dbb7c442788dc018c933ec58cc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 05/27] fix: parse durations exactly and refuse those out of
 range

Seconds went through a float64 and were truncated (PT0.000000015S gave 14ns),
and components too large for a time.Duration wrapped around silently.
---
 mpd/duration.go | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 911eb23..e4e5321 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -265,25 +266,37 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
+			if total, err = addUnits(total, n, 24*time.Hour); err != nil {
+				return 0, err
+			}
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
+			if total, err = addUnits(total, n, time.Hour); err != nil {
+				return 0, err
+			}
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
+			if total, err = addUnits(total, n, time.Minute); err != nil {
+				return 0, err
+			}
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
+			whole, frac, _ := strings.Cut(numStr, ".")
+			n, err := strconv.ParseUint(whole, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
+			if total, err = addUnits(total, n, time.Second); err != nil {
+				return 0, err
+			}
+			if total, err = addUnits(total, fracToNs(frac), time.Nanosecond); err != nil {
+				return 0, err
+			}
 		}
 	}
 	if !seenAny {
@@ -295,6 +308,29 @@ func ParseDuration(str string) (time.Duration, error) {
 	return total, nil
 }
 
+// addUnits returns total + n*unit, or an error if that is not a valid duration.
+func addUnits(total time.Duration, n uint64, unit time.Duration) (time.Duration, error) {
+	if n > uint64(math.MaxInt64-total)/uint64(unit) {
+		return 0, newParseDurationError("duration is too large")
+	}
+	return total + time.Duration(n)*unit, nil
+}
+
+// fracToNs returns the nanoseconds nearest to the decimal fraction 0.frac.
+func fracToNs(frac string) uint64 {
+	var ns uint64
+	for i := range 9 {
+		ns *= 10
+		if i < len(frac) {
+			ns += uint64(frac[i] - '0')
+		}
+	}
+	if len(frac) > 9 && frac[9] >= '5' {
+		ns++
+	}
+	return ns
+}
+
 // Seconds returns the duration as a floating point number of seconds.
 func (d *Duration) Seconds() float64 {
 	return float64(*d) / float64(time.Second)
-- 
2.43.0


From f70bc9b92dd342c86da94c1ac05086f71159ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 06/27] fix: leave the timescale unset when it is the default

SetTimescale(1) set the attribute after clearing it.
---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..0ff9743 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -804,6 +804,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From 369c4aa6ddb063abf812e1a3b74b011fdaf632cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 07/27] fix: Switching interval is an attribute

It was written as a child element, and the attribute was not read.
---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 0ff9743..1c390e7 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -756,7 +756,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From cc50d022ab7407965df4f72a081c019b328b125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 08/27] fix: xlink attributes of AdaptationSet and SegmentList
 in their namespace

They were written with an undeclared prefix and not read back.
---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 1c390e7..d348d88 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -845,7 +845,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 7bf57e74a1f29c128fb5d29473f3e8d245c3279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 09/27] fix: read and write types shared between elements under
 the element's name

GroupLabel, InitializationGroup, InitializationPresentation and
QualityLatency were written under the name of their type, could not be read
(an error for the whole MPD), and the integer lists were written as a child
element.
---
 mpd/mpd.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index d348d88..7d4f02c 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -332,19 +332,19 @@ type PlaybackRestrictionsType struct {
 }
 
 // UIntPairsWithIDType is UInt Pairs With ID.
+// It is used for QualityLatency and therefore has no XMLName.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID.
+// It is InitializationGroup or InitializationPresentation and therefore has no XMLName.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
@@ -710,11 +710,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// It therefore has no XMLName.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From 9509431fc191574e00accd8dfbe2673479518cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:45 +0000
Subject: [PATCH 10/27] fix: link empty adaptation sets to their period

Reading, cloning or linking an MPD left the adaptation sets of
EmptyAdaptationSet elements, and everything in them, without parents.
---
 mpd/parents.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..dff27ef 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -14,6 +14,10 @@ func (m *MPD) SetParents() {
 				}
 			}
 		}
+		for _, a := range p.EmptyAdaptationSets {
+			a.SetParent(p)
+			a.SetParents()
+		}
 	}
 }
 
@@ -34,6 +38,10 @@ func (p *Period) SetParents() {
 			}
 		}
 	}
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
+	}
 }
 
 // AppendAdaptationSet appends an AdaptationSet to the Period and sets parent pointer.
-- 
2.43.0


From 15f5ff76fbb50fd269f2bc1360d5bba5f4b0106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:45 +0000
Subject: [PATCH 11/27] fix: index range that ends after 4 GiB

The end of the range was computed modulo 2^32.
---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 7d4f02c..0d0ef72 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -470,7 +470,7 @@ func (r *RepresentationType) Parent() *AdaptationSetType {
 // SetSegmentBase sets SegmentBaseType for RepresentationType.
 func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {
 	initRange := fmt.Sprintf("0-%d", initSize-1)
-	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
+	indexRange := fmt.Sprintf("%d-%d", initSize, uint64(initSize)+uint64(sidxSize)-1)
 	r.SegmentBase = &SegmentBaseType{
 		IndexRange: indexRange,
 		Initialization: &URLType{
-- 
2.43.0


From 656e1c046a6ab17e08a7ba1c108f4129d27f3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:45 +0000
Subject: [PATCH 12/27] fix: leave identifiers alone in a representation id put
 into a URL

An id that contains $Bandwidth$ was changed when it was inserted.
---
 mpd/mpd.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 0d0ef72..edfc22c 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -574,10 +574,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	return initialization, nil
+	return r.expandTemplate(st.Initialization), nil
 }
 
 // GetRepMedia returns the representation's media path with replaced ID and bandwidth identifiers.
@@ -592,11 +589,16 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	return r.expandTemplate(st.Media), nil
+}
 
-	return media, nil
+// expandTemplate replaces the ID and bandwidth identifiers of a URL template in one pass,
+// so that inserted text is never expanded again.
+func (r *RepresentationType) expandTemplate(tmpl string) string {
+	return strings.NewReplacer(
+		"$RepresentationID$", r.Id,
+		"$Bandwidth$", strconv.Itoa(int(r.Bandwidth)),
+	).Replace(tmpl)
 }
 
 // GetMimeType returns the representation's or its parent's mime type.
-- 
2.43.0


From 622b88b92679af4403c6e2b1a019d3772b462a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 13/27] fix: marshal struct with nil embedded pointer that
 holds attributes

---
 xml/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..8e80b73 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -623,7 +623,12 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		if !fv.IsValid() {
+			// The field is in an embedded struct whose pointer is nil.
+			continue
+		}
+
+		if finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From 80d0f0799b5559c107a9b5ae1a9dc08f9b650a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 14/27] fix: declare a namespace prefix once in a start tag

---
 xml/marshal.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 8e80b73..a9423fc 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -863,6 +864,9 @@ func (p *printer) writeStart(start *StartElement) error {
 		}
 	}
 
+	// declared holds the prefixes that already have a declaration in this start tag.
+	var declared []string
+
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
 	if e.prefix != "" {
@@ -876,6 +880,7 @@ func (p *printer) writeStart(start *StartElement) error {
 		if prefixCreated {
 			p.WriteByte(' ')
 			p.writePrefixAttr(e.prefix, e.xmlns)
+			declared = append(declared, e.prefix)
 		}
 	} else if e.xmlns != "" {
 		p.WriteString(e.name)
@@ -894,6 +899,13 @@ func (p *printer) writeStart(start *StartElement) error {
 			continue
 		}
 		prefix, local := splitPrefixed(attr.Name.Local)
+		if attr.Name.Space == xmlnsURL {
+			if slices.Contains(declared, local) {
+				// An attribute must not appear twice in a start tag.
+				continue
+			}
+			declared = append(declared, local)
+		}
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
 			p.createPrefix(attr.Value, local)
@@ -904,6 +916,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
 			if prefixCreated {
 				p.writePrefixAttr(prefix, attr.Name.Space)
+				declared = append(declared, prefix)
 				p.WriteByte(' ')
 			}
 			p.WriteString(prefix)
-- 
2.43.0


From 06bd4d8f05784412804011a8ecd53597d1dc3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:31 +0000
Subject: [PATCH 15/27] fix: report a short write of the XML header

---
 mpd/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index c2ea761..74fbbf6 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -18,6 +18,9 @@ type countingWriter struct {
 func (cw *countingWriter) Write(p []byte) (int, error) {
 	n, err := cw.w.Write(p)
 	cw.n += n
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
 	return n, err
 }
 
-- 
2.43.0


From c1432990df8301e7f6a77cacb5d342227e5bf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:06 +0000
Subject: [PATCH 16/27] fix: a comment in a directive ends after its own start

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index a9423fc..d316b41 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -315,12 +315,13 @@ func isValidDirective(dir Directive) bool {
 		depth     int
 		inquote   uint8
 		incomment bool
+		comment   int // start of the text of the current comment
 	)
 	for i, c := range dir {
 		switch {
 		case incomment:
 			if c == '>' {
-				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
+				if n := 1 + i - len(endComment); n >= comment && bytes.Equal(dir[n:i+1], endComment) {
 					incomment = false
 				}
 			}
@@ -335,6 +336,7 @@ func isValidDirective(dir Directive) bool {
 		case c == '<':
 			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
 				incomment = true
+				comment = i + len(begComment)
 			} else {
 				depth++
 			}
-- 
2.43.0


From bc8643e1c59824d4e326e4d8a8077bdc601ff104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:51 +0000
Subject: [PATCH 17/27] fix: keep a namespace prefix bound to one namespace in
 a start tag

---
 xml/marshal.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index d316b41..377b7ea 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -439,11 +439,31 @@ func (p *printer) getPrefix(uri string) string {
 	return ""
 }
 
+// usePrefix records that the start tag of the current element uses a prefix
+// declared further out, so that the tag does not bind it to another namespace.
+func (p *printer) usePrefix(prefix, uri string) {
+	if len(p.elements) == 0 || uri == xmlURL || uri == xmlnsURL {
+		return
+	}
+	e := &p.elements[len(p.elements)-1]
+	if e.prefixToNS[prefix] != "" {
+		return
+	}
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
+	e.nsToPrefix[uri] = prefix
+	e.prefixToNS[prefix] = uri
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
+	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "" || uri == xmlURL || uri == xmlnsURL) {
+		// The reserved namespaces have no other prefix than their own.
+		p.usePrefix(prefix, uri)
 		return prefix, false
 	}
 
@@ -830,6 +850,7 @@ func (p *printer) writeStart(start *StartElement) error {
 
 	// Set the namespace prefix, if necessary
 	var spaceDefined bool
+	nameDecl := -1 // index of the attribute that declares the prefix of the tag
 	if e.xmlns != "" {
 		// Try to avoid needing a prefix first.
 		for _, attr := range start.Attr {
@@ -850,9 +871,10 @@ func (p *printer) writeStart(start *StartElement) error {
 		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
 		if !spaceDefined && e.prefix == "" {
 			// Look for an xmlns:prefix="uri" attribute that matches tag
-			for _, attr := range start.Attr {
+			for i, attr := range start.Attr {
 				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
 					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
+					nameDecl = i
 					spaceDefined = true
 					break
 				}
@@ -861,6 +883,7 @@ func (p *printer) writeStart(start *StartElement) error {
 		if !spaceDefined && e.prefix == "" {
 			e.prefix = p.getPrefix(e.xmlns)
 			if e.prefix != "" {
+				p.usePrefix(e.prefix, e.xmlns)
 				spaceDefined = true
 			}
 		}
@@ -896,7 +919,7 @@ func (p *printer) writeStart(start *StartElement) error {
 	}
 
 	// Attributes
-	for _, attr := range start.Attr {
+	for i, attr := range start.Attr {
 		if attr.Name.Local == "" {
 			continue
 		}
@@ -906,11 +929,15 @@ func (p *printer) writeStart(start *StartElement) error {
 				// An attribute must not appear twice in a start tag.
 				continue
 			}
+			if i == nameDecl {
+				local = e.prefix
+			} else {
+				local, _ = p.createPrefix(attr.Value, local)
+			}
 			declared = append(declared, local)
 		}
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
-- 
2.43.0


From 9b10ff170391c4603c55116e9d0333de4672af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:42 +0000
Subject: [PATCH 18/27] fix: write the default namespace again inside another
 one

---
 xml/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 377b7ea..c491ec4 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -862,8 +862,8 @@ func (p *printer) writeStart(start *StartElement) error {
 		// Walk up the tree to see if a default namespace is already defined without a prefix.
 		if !spaceDefined && e.prefix == "" {
 			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
+				if p.elements[i].prefix == "" && p.elements[i].xmlns != "" {
+					spaceDefined = p.elements[i].xmlns == e.xmlns
 					break
 				}
 			}
-- 
2.43.0


From 1548cec9972a28ec03fce349b4d17f87f913bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:24 +0000
Subject: [PATCH 19/27] fix: read a > in character data as text

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From a261210f759564fd521efae8e314c1e617acf7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 20/27] fix: keep the byte after an attribute without value

---
 xml/xml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..d1689db 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -871,6 +871,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


From bcb41edf558a421614914e72e23cf6ec65686a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 21/27] fix: limit the depth of elements decoded by
 UnmarshalXML methods

---
 xml/read.go | 4 +++-
 xml/xml.go  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/xml/read.go b/xml/read.go
index 1c19b12..fae5da0 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -323,7 +323,9 @@ var errUnmarshalDepth = errors.New("exceeded max depth")
 
 // Unmarshal a single XML element into val.
 func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) error {
-	if depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
+	// An UnmarshalXML method may call DecodeElement, which starts at depth 0 again,
+	// so the number of open elements counts, too.
+	if depth = max(depth, d.stkDepth-1); depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
 		return errUnmarshalDepth
 	}
 	// Find start element if we need it.
diff --git a/xml/xml.go b/xml/xml.go
index d1689db..95ad8a0 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -205,6 +205,7 @@ type Decoder struct {
 	buf            bytes.Buffer
 	saved          *bytes.Buffer
 	stk            *stack
+	stkDepth       int // number of open elements on the stack
 	free           *stack
 	needClose      bool
 	toClose        Name
@@ -436,6 +437,9 @@ func (d *Decoder) push(kind int) *stack {
 	s.next = d.stk
 	s.kind = kind
 	d.stk = s
+	if kind == stkStart {
+		d.stkDepth++
+	}
 	return s
 }
 
@@ -445,6 +449,9 @@ func (d *Decoder) pop() *stack {
 		d.stk = s.next
 		s.next = d.free
 		d.free = s
+		if s.kind == stkStart {
+			d.stkDepth--
+		}
 	}
 	return s
 }
-- 
2.43.0


From 12c8b5a762c29b323d16a658467bfdbf7e9ad3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:00 +0000
Subject: [PATCH 22/27] fix: report a read failure inside a rune or an
 attribute value

---
 xml/xml.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index 95ad8a0..3835569 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1047,6 +1047,9 @@ Input:
 				}
 				return nil
 			}
+			if quote >= 0 && d.err != io.EOF {
+				return nil // the read failed inside the value
+			}
 			break Input
 		}
 
@@ -1186,7 +1189,9 @@ Input:
 	for len(buf) > 0 {
 		r, size := utf8.DecodeRune(buf)
 		if r == utf8.RuneError && size == 1 {
-			d.err = d.syntaxError("invalid UTF-8")
+			if d.err == nil || d.err == io.EOF { // else the read failed inside a rune
+				d.err = d.syntaxError("invalid UTF-8")
+			}
 			return nil
 		}
 		buf = buf[size:]
-- 
2.43.0


From b3fbe6ea74cfe677944f76f2ebaa87e669148d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 23/27] fix: an element with a preferred prefix declares it
 when a default namespace is declared too

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c491ec4..f4dbf8b 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -854,7 +854,7 @@ func (p *printer) writeStart(start *StartElement) error {
 	if e.xmlns != "" {
 		// Try to avoid needing a prefix first.
 		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
+			if e.prefix == "" && attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
 				spaceDefined = true
 				break
 			}
-- 
2.43.0


From 0989fbf9f61114585ea9e71fb6bec3c481009aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:48 +0000
Subject: [PATCH 24/27] fix: the default namespace in scope is the one declared
 by the nearest xmlns attribute

---
 xml/marshal.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index f4dbf8b..79ce6e7 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -374,6 +374,8 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	hasDefault bool   // declares a default namespace
+	defaultNS  string // the default namespace it declares
 }
 
 func newElement(name Name) element {
@@ -848,22 +850,23 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	// An xmlns attribute declares the default namespace, whatever the tag itself needs.
+	for _, attr := range start.Attr {
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			e.hasDefault, e.defaultNS = true, attr.Value
+		}
+	}
+
 	// Set the namespace prefix, if necessary
 	var spaceDefined bool
 	nameDecl := -1 // index of the attribute that declares the prefix of the tag
 	if e.xmlns != "" {
-		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if e.prefix == "" && attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
-		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
-		if !spaceDefined && e.prefix == "" {
-			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns != "" {
-					spaceDefined = p.elements[i].xmlns == e.xmlns
+		// Try to avoid needing a prefix first: walk up the tree to see
+		// which default namespace is in scope.
+		if e.prefix == "" {
+			for i := len(p.elements) - 1; i >= 0; i-- {
+				if o := &p.elements[i]; o.hasDefault {
+					spaceDefined = o.defaultNS == e.xmlns && o.xmlns == e.xmlns
 					break
 				}
 			}
@@ -913,6 +916,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteString(` xmlns="`)
 			p.EscapeString(e.xmlns)
 			p.WriteByte('"')
+			e.hasDefault, e.defaultNS = true, e.xmlns
 		}
 	} else {
 		p.WriteString(e.name)
-- 
2.43.0


From f9e0bedd19cead592407363f412ce5b4b5829289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 25/27] fix: never declare the xmlns prefix, and the xml prefix
 at most once in a start tag

---
 xml/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 79ce6e7..8fbc42e 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -938,6 +938,10 @@ func (p *printer) writeStart(start *StartElement) error {
 			} else {
 				local, _ = p.createPrefix(attr.Value, local)
 			}
+			if attr.Value == xmlnsURL || slices.Contains(declared, local) {
+				// The xmlns prefix must not be declared, and no prefix twice.
+				continue
+			}
 			declared = append(declared, local)
 		}
 		p.WriteByte(' ')
-- 
2.43.0


From eb2a6bb5dda43e707f8398a47c9932694adf754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:48 +0000
Subject: [PATCH 26/27] fix: an element closed by another end tag takes its
 namespace declarations with it

---
 xml/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index 3835569..5952088 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -531,7 +531,7 @@ func (d *Decoder) popElement(t *EndElement) bool {
 			d.needClose = true
 			d.toClose = t.Name
 			t.Name = s.name
-			return true
+			break
 		}
 		d.err = d.syntaxError("element <" + s.name.Local + "> closed by </" + name.Local + ">")
 		return false
-- 
2.43.0


From 98d74fe5d4754df881d5e159ac5255ddf10e3d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:53 +0000
Subject: [PATCH 27/27] fix: attributes of the start element given to
 EncodeElement were dropped

---
 xml/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 8fbc42e..8594245 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -635,8 +635,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
-	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+	if cap(start.Attr)-len(start.Attr) < tinfo.nAttrs {
+		start.Attr = append(make([]Attr, 0, len(start.Attr)+tinfo.nAttrs), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0

