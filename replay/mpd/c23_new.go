package mpd_test

import (
	"math"
	"reflect"
	"strconv"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func TestVerifC23(t *testing.T) {
	vhRun(t, "every constructor with generated arguments compared field by field; results changed and constructed again", func(h *vh) {
		const role = "urn:mpeg:dash:role:2011"
		for h.More() {
			a, b, c, d := h.xmlText(6), h.xmlText(6), h.xmlText(6), h.xmlText(6)
			known := []string{"main", "static", "dynamic", "video", "audio", "text", "video/mp4", "audio/mp4", "1", "", "avc1.64001e", "25", "30000/1001"}
			for _, p := range []*string{&a, &b, &c, &d} {
				switch h.Intn(6) {
				case 0:
					*p = known[h.Intn(len(known))]
				case 1:
					*p = h.Lit()
				}
			}
			flag := h.Intn(2) == 0
			u := uint32(h.edge(32, false))
			bw, w, hi := int(h.edge(32, false)), int(h.edge(32, false)), int(h.edge(32, false))
			sr := int(int64(h.edge(64, true)))
			secs := int(int64(h.edge(64, true)) % 9223372036)
			h.Case("arguments %q %q %q %q %v %d %d %d %d %d %d", a, b, c, d, flag, u, bw, w, hi, sr, secs)
			rep := func() *mpd.RepresentationType {
				return &mpd.RepresentationType{Id: a, Bandwidth: uint32(bw), RepresentationBaseType: mpd.RepresentationBaseType{Codecs: b, MimeType: c}}
			}
			audio := rep()
			as := mpd.UIntVectorType(strconv.Itoa(sr))
			audio.AudioSamplingRate = &as
			video := rep()
			video.FrameRate, video.Width, video.Height = mpd.FrameRateType(d), uint32(w), uint32(hi)
			dd := mpd.Duration(secs) * 1000000000
			type tc struct {
				mk   func() any
				want any
			}
			cs := []tc{
				{func() any { return mpd.NewMPD(a) }, &mpd.MPD{Type: &a, XMLNs: "urn:mpeg:dash:schema:mpd:2011"}},
				{func() any { return mpd.NewPeriod() }, &mpd.Period{}},
				{func() any { return mpd.NewAdaptationSet() }, &mpd.AdaptationSetType{}},
				{func() any { return mpd.NewAdaptationSetWithParams(a, b, flag, u) }, &mpd.AdaptationSetType{ContentType: mpd.RFC6838ContentTypeType(a), SegmentAlignment: flag, RepresentationBaseType: mpd.RepresentationBaseType{MimeType: b, StartWithSAP: u}}},
				{func() any { return mpd.NewRepresentation() }, &mpd.RepresentationType{}},
				{func() any { return mpd.NewRepresentationWithID(a, b, c, bw) }, rep()},
				{func() any { return mpd.NewAudioRepresentation(a, b, c, bw, sr) }, audio},
				{func() any { return mpd.NewVideoRepresentation(a, b, c, d, bw, w, hi) }, video},
				{func() any { return mpd.NewSubRepresentation() }, &mpd.SubRepresentationType{}},
				{func() any { return mpd.NewSegmentTemplate() }, &mpd.SegmentTemplateType{}},
				{func() any { return mpd.NewSegmentList() }, &mpd.SegmentListType{}},
				{func() any { return mpd.NewSegmentTimeline() }, &mpd.SegmentTimelineType{}},
				{func() any { return mpd.NewInitializationSet() }, &mpd.InitializationSetType{}},
				{func() any { return mpd.NewPreselection() }, &mpd.PreselectionType{}},
				{func() any { return mpd.NewContentProtection() }, &mpd.ContentProtectionType{}},
				{func() any { return mpd.NewProducerReferenceTime() }, &mpd.ProducerReferenceTimeType{}},
				{func() any { return mpd.NewUIntVWithID() }, &mpd.UIntVWithIDType{}},
				{func() any { return mpd.NewBaseURL(a) }, &mpd.BaseURLType{Value: mpd.AnyURI(a)}},
				{func() any { return mpd.NewDescriptor(a, b, c) }, &mpd.DescriptorType{SchemeIdUri: mpd.AnyURI(a), Value: b, Id: c}},
				{func() any { return mpd.NewRole(a) }, &mpd.DescriptorType{SchemeIdUri: role, Value: a}},
				{func() any { return mpd.NewSCTE214ContentIdentifier(a, b) }, &mpd.SCTE214ContentIdentifierType{Type: a, Value: b}},
				{func() any { return mpd.Ptr(u) }, &u},
				{func() any { return mpd.Ptr(a) }, &a},
				{func() any { return mpd.Seconds2DurPtr(secs) }, &dd},
			}
			for _, c := range cs {
				x, y := c.mk(), c.mk()
				h.Check(reflect.DeepEqual(x, c.want), "constructed %s, want %s", desc(x), desc(c.want))
				h.Check(reflect.ValueOf(x).Pointer() != reflect.ValueOf(y).Pointer(), "two calls give the same %T", x)
				h.scribble(reflect.ValueOf(x).Elem(), 4)
				h.Check(reflect.DeepEqual(y, c.want) && reflect.DeepEqual(c.mk(), c.want), "changing one %T changed another: %s", x, desc(y))
			}
			f := float64(h.Intn(2000000000)-1000000000) / 1000
			h.Case("Seconds2DurPtrFloat64(%v)", f)
			p := mpd.Seconds2DurPtrFloat64(f)
			h.Check(math.Abs(float64(*p)-f*1e9) <= 501, "%v seconds give %d ns", f, *p)
		}
	})
}
