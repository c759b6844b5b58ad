package mpd_test

import (
	"math"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func TestVerifC11(t *testing.T) {
	vhRun(t, "attribute codecs on generated floats (all exponents), durations and texts", func(h *vh) {
		texts := []string{"INF", "+INF", "-INF", "inf", "Inf", "NaN", "", " ", "1", "1.5", "-0", "1e3", "1e400", "-1e400", "x", "1 ", " 1", "0x1p4", "1_0", ".", "5.", ".5", "INFINITY", "infinity", "INF ", "1e-400"}
		for h.More() {
			var f float64
			switch h.Intn(4) {
			case 0:
				f = math.Float64frombits(h.Uint64())
			case 1:
				f = float64(h.Intn(100000)) / 1000
			case 2:
				f = []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e21, 1e-7, 123456789.125}[h.Intn(12)]
			case 3:
				f = math.Ldexp(h.Float64()*2-1, h.Intn(200)-100)
			}
			name := xml.Name{Space: []string{"", "urn:x"}[h.Intn(2)], Local: h.token(5)}
			h.Case("float %v (%x) attribute %v", f, math.Float64bits(f), name)
			v := mpd.FloatInf64(f)
			a, err := v.MarshalXMLAttr(name)
			h.Check(err == nil && a.Name == name, "marshal: %v %v", a, err)
			h.Check(float64(v) == f || f != f, "the value changed")
			if math.IsInf(f, 1) {
				h.Check(a.Value == "INF", "infinity written as %q", a.Value)
			} else if f == f && !math.IsInf(f, -1) {
				s := strings.TrimPrefix(a.Value, "-")
				h.Check(s != "" && strings.Trim(s, "0123456789.") == "" && strings.Count(s, ".") <= 1 && s[0] != '.' && s[len(s)-1] != '.', "not a plain decimal: %q", a.Value)
			}
			if f == f && !math.IsInf(f, -1) {
				g := mpd.FloatInf64(77)
				err = g.UnmarshalXMLAttr(a)
				h.Check(err == nil && math.Float64bits(float64(g)) == math.Float64bits(f), "written as %q, read back as %v (%v)", a.Value, float64(g), err)
			}
			var nilF *mpd.FloatInf64
			a, err = nilF.MarshalXMLAttr(name)
			h.Check(err == nil && a == xml.Attr{}, "nil number: %v %v", a, err)
			txt := texts[h.Intn(len(texts))]
			h.Case("read %q as a number", txt)
			g := mpd.FloatInf64(77)
			err = g.UnmarshalXMLAttr(xml.Attr{Name: name, Value: txt})
			if txt == "INF" {
				h.Check(err == nil && math.IsInf(float64(g), 1), "INF: %v %v", g, err)
			} else {
				w, werr := parseF(txt)
				h.Check((err == nil) == (werr == nil), "error %v, want %v", err, werr)
				if err == nil {
					h.Check(float64(g) == w || w != w && g != g, "got %v, want %v", g, w)
				} else {
					h.Check(g == 77, "error %v changed the value to %v", err, g)
				}
			}
			d := mpd.Duration(h.Uint64() >> uint(h.Intn(64)))
			h.Case("duration %d attribute %v", int64(d), name)
			a, err = d.MarshalXMLAttr(name)
			h.Check(err == nil && a == xml.Attr{Name: name, Value: d.String()}, "marshal: %v %v, rendering %q", a, err, d.String())
			var nd *mpd.Duration
			a, err = nd.MarshalXMLAttr(name)
			h.Check(err == nil && a == xml.Attr{}, "nil duration: %v %v", a, err)
			for _, s := range []string{d.String(), h.token(4), "PT1S", "P1DT1H", "PT", "-PT1S", "", "PT1S "} {
				h.Case("read %q as a duration", s)
				x := mpd.Duration(77)
				err = x.UnmarshalXMLAttr(xml.Attr{Name: name, Value: s})
				w, werr := mpd.ParseDuration(s)
				h.Check((err == nil) == (werr == nil), "unmarshal error %v, parse error %v", err, werr)
				if err == nil {
					h.Check(int64(x) == int64(w), "got %d, want %d", x, w)
				} else {
					h.Check(x == 77, "error %v changed the value to %d", err, x)
				}
			}
		}
	})
}
