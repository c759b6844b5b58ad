package mpd_test

import (
	"math"
	"math/big"
	"regexp"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
)

var c04text = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,3})?Z$`)

// days from the civil date (proleptic Gregorian), independent of package time
func c04days(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

func c04num(s string) (n int) {
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return
}

// c04ms: the milliseconds a rendered UTC text denotes
func c04ms(s string) int64 {
	sec := c04days(c04num(s[0:4]), c04num(s[5:7]), c04num(s[8:10]))*86400 + int64(c04num(s[11:13])*3600+c04num(s[14:16])*60+c04num(s[17:19]))
	ms := 0
	if len(s) > 20 {
		f := s[20 : len(s)-1]
		for len(f) < 3 {
			f += "0"
		}
		ms = c04num(f)
	}
	return sec*1000 + int64(ms)
}

func TestVerifC04(t *testing.T) {
	const lo, hi = -62167219200, 253402300799
	vhRun(t, "seconds and milliseconds at calendar boundaries and random ones over years 0-9999, floats with fractions, malformed texts; oracle: own calendar arithmetic", func(h *vh) {
		edge := []int64{0, 1, -1, 59, 60, 86399, 86400, -86400, 951782400, 951868799, 1709164800, 4102444800, 32503680000, lo, lo + 1, hi, hi - 1, -9223372037, -9223372036, 9223372036, 9223372037, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 1e10, 1e11, -1e10}
		pick := func(i int) int64 {
			if i < len(edge) {
				return edge[i]
			}
			switch h.Intn(3) {
			case 0:
				return h.Int63n(4e9)
			case 1:
				return -h.Int63n(4e9)
			}
			return lo + h.Int63n(hi-lo+1)
		}
		chk := func(dt mpd.DateTime, ms int64) {
			h.Check(c04text.MatchString(string(dt)), "text %q has the wrong form", dt)
			h.Check(c04ms(string(dt)) == ms, "text %q denotes %d ms, want %d", dt, c04ms(string(dt)), ms)
			s, err := dt.ConvertToSeconds()
			h.Check(err == nil, "reading %q back: %v", dt, err)
			h.Check(math.Abs(s-float64(ms)/1000) <= math.Abs(s)*1e-15+1e-9, "reading %q back gives %.6f s, want %d ms", dt, s, ms)
		}
		for i := 0; h.More() || i < 200; i++ {
			s := pick(i)
			h.Case("ConvertToDateTimeS(%d)", s)
			chk(mpd.ConvertToDateTimeS(s), s*1000)
			ms := s*1000 + int64([]int{0, 1, 999, 500, 100, 10, h.Intn(1000)}[h.Intn(7)])
			if ms < 0 && h.Intn(2) == 0 {
				ms += 1
			}
			if ms <= hi*1000+999 {
				h.Case("ConvertToDateTimeMS(%d)", ms)
				chk(mpd.ConvertToDateTimeMS(ms), ms)
			}
			f := float64(s)
			if s > lo && s < hi {
				f += []float64{0, 0.5, 0.25, 0.001, 0.9995, 0.999999999, h.Float64()}[h.Intn(7)]
			}
			h.Case("ConvertToDateTime(%v)", f)
			dt := mpd.ConvertToDateTime(f)
			h.Check(c04text.MatchString(string(dt)), "text %q has the wrong form", dt)
			// crop of the exact value; a nanosecond of conversion slack
			ex := new(big.Float).SetPrec(200).SetFloat64(f)
			ex.Mul(ex, big.NewFloat(1e9).SetPrec(200))
			got := new(big.Float).SetPrec(200).SetInt64(c04ms(string(dt)))
			got.Mul(got, big.NewFloat(1e6).SetPrec(200))
			d, _ := new(big.Float).Sub(ex, got).Float64()
			h.Check(d >= -2 && d <= 1e6+2, "text %q is %f ns before %v s", dt, d, f)
			if f == math.Trunc(f) {
				chk(dt, int64(f)*1000)
			}
			// texts with more digits and with offsets
			tt := time.Unix(s, h.Int63n(1e9)).UTC()
			if tt.Year() > 0 && tt.Year() < 9999 {
				zones := []*time.Location{time.UTC, time.FixedZone("", 3600*(h.Intn(28)-14)), time.FixedZone("", -1800)}
				tx := tt.In(zones[h.Intn(3)]).Format(time.RFC3339Nano)
				h.Case("DateTime(%q).ConvertToSeconds()", tx)
				g, err := mpd.DateTime(tx).ConvertToSeconds()
				w := float64(tt.Unix()) + float64(tt.Nanosecond())/1e9
				h.Check(err == nil && math.Abs(g-w) <= math.Abs(w)*1e-15+1e-9, "= %v, %v; want %v", g, err, w)
				// mutate one byte
				b := []byte(tx)
				b[h.Intn(len(b))] = "x:-T/ .Z"[h.Intn(8)]
				_, perr := time.Parse("2006-01-02T15:04:05Z07:00", string(b))
				h.Case("DateTime(%q).ConvertToSeconds()", b)
				_, err = mpd.DateTime(b).ConvertToSeconds()
				h.Check((err == nil) == (perr == nil), "error %v, want %v", err, perr)
			}
		}
		for _, s := range []string{"", "2020", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00", "2020-01-01T24:00:00Z", "2020-01-01T00:00:60Z", "P1D", "2020-01-01T00:00:00Zx"} {
			h.Case("DateTime(%q).ConvertToSeconds()", s)
			v, err := mpd.DateTime(s).ConvertToSeconds()
			h.Check(err != nil, "= %v, no error", v)
		}
	})
}
