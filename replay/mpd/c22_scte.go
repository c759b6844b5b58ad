package mpd_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func c22name(l string) xml.Name {
	return xml.Name{Space: "http://www.scte.org/schemas/35", Local: l}
}

func TestVerifC22(t *testing.T) {
	vhRun(t, "SCTE-35 constructors with generated arguments; scheme strings close to the defined ones; events with every placement of the splice info; namespaces written and read", func(h *vh) {
		for h.More() {
			v := h.xmlText(8)
			id, dur, ar := uint32(h.edge(32, false)), h.edge(64, false), h.Intn(2) == 0
			h.Case("constructors %q %d %d %v", v, id, dur, ar)
			type tc struct {
				mk   func() any
				want any
			}
			for _, c := range []tc{
				{func() any { return mpd.NewSignal() }, &mpd.SignalType{XMLName: c22name("Signal")}},
				{func() any { return mpd.NewSpliceInfoSection() }, &mpd.SpliceInfoSectionType{XMLName: c22name("SpliceInfoSection")}},
				{func() any { return mpd.NewBinary(v) }, &mpd.BinaryType{XMLName: c22name("Binary"), Value: v}},
				{func() any { return mpd.NewSpliceNull() }, &mpd.SpliceNullType{XMLName: c22name("SpliceNull")}},
				{func() any { return mpd.NewSpliceSchedule() }, &mpd.SpliceScheduleType{XMLName: c22name("SpliceSchedule")}},
				{func() any { return mpd.NewSpliceInsert() }, &mpd.SpliceInsertType{XMLName: c22name("SpliceInsert")}},
				{func() any { return mpd.NewTimeSignal() }, &mpd.TimeSignalType{XMLName: c22name("TimeSignal")}},
				{func() any { return mpd.NewBandwidthReservation() }, &mpd.BandwidthReservationType{XMLName: c22name("BandwidthReservation")}},
				{func() any { return mpd.NewPrivateCommand(id) }, &mpd.PrivateCommandType{XMLName: c22name("PrivateCommand"), Identifier: id}},
				{func() any { return mpd.NewSpliceTime() }, &mpd.SpliceTimeType{XMLName: c22name("SpliceTime")}},
				{func() any { return mpd.NewBreakDuration(ar, dur) }, &mpd.BreakDurationType{XMLName: c22name("BreakDuration"), AutoReturn: ar, Duration: dur}},
				{func() any { return mpd.NewSegmentationDescriptor() }, &mpd.SegmentationDescriptorType{XMLName: c22name("SegmentationDescriptor")}},
				{func() any { return mpd.NewSegmentationUpid(v) }, &mpd.SegmentationUpidType{XMLName: c22name("SegmentationUpid"), Value: v}},
			} {
				a, b := c.mk(), c.mk()
				h.Check(reflect.DeepEqual(a, c.want), "constructed %s, want %s", desc(a), desc(c.want))
				h.Check(reflect.ValueOf(a).Pointer() != reflect.ValueOf(b).Pointer(), "two calls give the same %T", a)
				// what is changed in one is not seen in the next
				h.fill(reflect.ValueOf(a).Elem(), 2, 1)
				h.Check(reflect.DeepEqual(c.mk(), c.want) && reflect.DeepEqual(b, c.want), "changing one %T changed another: %s", a, desc(b))
			}
			schemes := []string{"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin", "urn:scte:scte35:2014:xml", "urn:scte:scte35:2013:xml+bin", "urn:scte:scte35:2014:bin", "urn:scte:scte35:2013:bin:1", "urn:scte:scte35", "urn:scte:scte35:", "", "URN:SCTE:SCTE35:2013:XML", " urn:scte:scte35:2013:xml", "urn:mpeg:dash:event:2012", "http://www.scte.org/schemas/35"}
			k := h.Intn(len(schemes))
			s := schemes[k]
			if h.Intn(4) == 0 && len(s) > 0 {
				j := h.Intn(len(s))
				s = s[:j] + string(rune('a'+h.Intn(26))) + s[j+1:]
			}
			h.Case("scheme %q", s)
			want := false
			for _, x := range schemes[:3] {
				want = want || x == s
			}
			es := &mpd.EventStreamType{SchemeIdUri: mpd.AnyURI(s)}
			h.Check(es.IsSCTE35() == want, "IsSCTE35 = %v", !want)
			e := &mpd.EventType{}
			var wi *mpd.SpliceInfoSectionType
			if h.Intn(2) == 0 {
				e.SpliceInfoSection = mpd.NewSpliceInfoSection()
				wi = e.SpliceInfoSection
			}
			if h.Intn(3) > 0 {
				e.Signal = mpd.NewSignal()
				if h.Intn(2) == 0 {
					e.Signal.Binary = mpd.NewBinary(v)
				}
				if h.Intn(2) == 0 {
					e.Signal.SpliceInfoSection = mpd.NewSpliceInfoSection()
					wi = e.Signal.SpliceInfoSection
				}
			}
			h.Case("event %s", desc(e))
			h.Check(e.SpliceInfo() == wi, "SpliceInfo = %s", desc(e.SpliceInfo()))
			c22ns(h)
		}
	})
}

// c22ns: the namespace an element was read with is the one it is written with.
func c22ns(h *vh) {
	sp := [2]string{"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016"}[h.Intn(2)]
	inner := []string{"SpliceNull", "TimeSignal", "SpliceInsert", "SpliceSchedule", "BandwidthReservation"}[h.Intn(5)]
	desc := []string{"SegmentationDescriptor", "AvailDescriptor", "TimeDescriptor", "AudioDescriptor"}[h.Intn(4)]
	p, decl := "", ` xmlns="`+sp+`"`
	if h.Intn(2) == 0 {
		p, decl = "scte35:", ` xmlns:scte35="`+sp+`"`
	}
	body := "<" + p + "SpliceInfoSection><" + p + inner + "/><" + p + desc + "/></" + p + "SpliceInfoSection>"
	wrap := "Signal"
	if h.Intn(2) == 0 {
		body = strings.Replace(body, "SpliceInfoSection>", "SpliceInfoSection"+decl+">", 1)
		wrap = ""
	} else {
		body = "<" + p + "Signal" + decl + ">" + body + "</" + p + "Signal>"
	}
	doc := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period><EventStream schemeIdUri="urn:scte:scte35:2014:xml+bin"><Event>` + body + `</Event></EventStream></Period></MPD>`
	h.Case("read %s", doc)
	m, err := mpd.ReadFromString(doc)
	h.Check(err == nil, "read: %v", err)
	ev := m.Periods[0].EventStreams[0].Events[0]
	si := ev.SpliceInfo()
	h.Check(si != nil, "no splice info")
	h.Check(si.XMLName.Space == sp, "namespace read %q", si.XMLName.Space)
	h.Check((ev.Signal != nil) == (wrap != ""), "signal: %v", ev.Signal)
	out, err := m.WriteToString("", false)
	h.Check(err == nil, "write: %v", err)
	d := xml.NewDecoder(strings.NewReader(out))
	seen := 0
	for {
		tk, err := d.Token()
		if err != nil {
			break
		}
		if se, ok := tk.(xml.StartElement); ok {
			switch se.Name.Local {
			case "Signal", "SpliceInfoSection", inner, desc:
				seen++
				h.Check(se.Name.Space == sp, "%s written in namespace %q, read in %q: %s", se.Name.Local, se.Name.Space, sp, out)
			}
		}
	}
	n := 3
	if wrap != "" {
		n = 4
	}
	h.Check(seen == n, "%d of %d elements written: %s", seen, n, out)
}
