package mpd_test

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func c02check(h *vh, s string) {
	h.Case("parse %q", s)
	got, err := mpd.ParseDuration(s)
	lo, hi, ok := refParse(s)
	if ok && lo.Cmp(maxDur) > 0 {
		ok = false
	} else if ok && hi.Cmp(maxDur) > 0 {
		return // a tie at the limit
	}
	if ok {
		h.Check(err == nil, "refused: %v, the value is %v ns", err, lo)
		g := big.NewInt(int64(got))
		h.Check(g.Cmp(lo) == 0 || g.Cmp(hi) == 0, "parsed as %d ns, the value is %v ns", int64(got), lo)
	} else {
		h.Check(err != nil, "accepted as %d ns", int64(got))
	}
	d := mpd.Duration(77)
	uerr := d.UnmarshalXMLAttr(xml.Attr{Value: s})
	h.Check((uerr == nil) == (err == nil), "attribute: %v, parse: %v", uerr, err)
	if err == nil {
		h.Check(int64(d) == int64(got), "attribute %d, parse %d", d, got)
	}
	_, rerr := mpd.ReadFromString(`<MPD mediaPresentationDuration="` + xmlEsc(s) + `"></MPD>`)
	if strings.IndexByte(s, 0) < 0 {
		h.Check((rerr == nil) == (err == nil), "reading an MPD: %v, parse: %v", rerr, err)
	}
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&#34;", "\n", "&#10;", "\r", "&#13;", "\t", "&#9;").Replace(s)
}

func TestVerifC02(t *testing.T) {
	vhRun(t, "strings from the duration grammar, single edits of them, random strings over its alphabet, all short strings over it", func(h *vh) {
		const al = "PTDHMS0195.-"
		num := func() string {
			switch h.Intn(8) {
			case 0:
				return fmt.Sprint(h.Uint64() >> uint(h.Intn(64)))
			case 1:
				return []string{"106751", "106752", "2562047", "2562048", "153722867", "153722868", "9223372036", "9223372037", "18446744073709551615", "18446744073709551616", "99999999999999999999"}[h.Intn(11)]
			case 2:
				return "0" + fmt.Sprint(h.Intn(100))
			}
			return fmt.Sprint(h.Intn(100))
		}
		gen := func() string {
			s := "P"
			if h.Intn(3) == 0 {
				s += num() + "D"
			}
			if h.Intn(4) > 0 {
				s += "T"
				if h.Intn(3) == 0 {
					s += num() + "H"
				}
				if h.Intn(3) == 0 {
					s += num() + "M"
				}
				if h.Intn(3) > 0 {
					s += num()
					if h.Intn(2) == 0 {
						s += "."
						for i := h.Intn(13); i >= 0; i-- {
							s += string(rune('0' + h.Intn(10)))
						}
					}
					s += "S"
				}
			}
			return s
		}
		var all func(p string, n int)
		all = func(p string, n int) {
			c02check(h, p)
			if n == 0 || !h.More() {
				return
			}
			for _, c := range "PTDHS1." {
				all(p+string(c), n-1)
			}
		}
		all("", 4)
		for h.More() {
			s := gen()
			c02check(h, s)
			b := []byte(s)
			i := h.Intn(len(b))
			c := al[h.Intn(len(al))]
			switch h.Intn(5) {
			case 0:
				b[i] = c
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b = append(b[:i], append([]byte{c}, b[i:]...)...)
			case 3:
				j := h.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			case 4:
				b = append(b, gen()...)
			}
			c02check(h, string(b))
			n := h.Intn(9)
			r := make([]byte, n)
			for k := range r {
				r[k] = al[h.Intn(len(al))]
			}
			c02check(h, "P"+string(r))
			if h.Intn(3) == 0 {
				c02check(h, []string{"PT1S ", " PT1S", "pt1s", "PT+1S", "P1Y", "P1M", "PT1_0S", "PT1,5S", "PT١S", "P1W", "+PT1S", "PT0x1S", "PT1e1S", "PT1.5.5S", "PT1H1", "P1", "PT1S2", "P1D2D", "PT1M1H", "P1DT", "PT.5S", "PT5.S", "PT1.5M", "P-1D", "-P1D", "P T1S"}[h.Intn(26)])
			}
		}
	})
}
