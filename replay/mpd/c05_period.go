package mpd_test

import (
	"errors"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
)

type c05p struct{ start, dur *mpd.Duration }

func dp(d *mpd.Duration) string {
	if d == nil {
		return "-"
	}
	return fmt.Sprint(int64(*d))
}

func c05build(typ *string, mup, mpdur *mpd.Duration, ps []c05p) *mpd.MPD {
	m := &mpd.MPD{Type: typ, MinimumUpdatePeriod: mup, MediaPresentationDuration: mpdur}
	for _, p := range ps {
		m.AppendPeriod(&mpd.Period{Start: p.start, Duration: p.dur})
	}
	return m
}

// the timeline rules, stated over the attributes
func c05start(m *mpd.MPD, i int) (mpd.Duration, bool) {
	p := m.Periods[i]
	if p.Start != nil {
		return *p.Start, true
	}
	if i > 0 {
		if m.Periods[i-1].Duration == nil {
			return 0, false
		}
		s, ok := c05start(m, i-1)
		return s + *m.Periods[i-1].Duration, ok
	}
	return 0, m.Type == nil || *m.Type == "static"
}

func c05dur(m *mpd.MPD, i int) (mpd.Duration, bool) {
	p := m.Periods[i]
	if p.Duration != nil {
		return *p.Duration, true
	}
	s, ok := c05start(m, i)
	if !ok {
		return 0, false
	}
	if i+1 < len(m.Periods) {
		if m.Periods[i+1].Start == nil {
			return 0, false
		}
		return *m.Periods[i+1].Start - s, true
	}
	if (m.Type == nil || *m.Type == "static") && m.MediaPresentationDuration != nil {
		return *m.MediaPresentationDuration - s, true
	}
	return 0, false
}

func c05type(m *mpd.MPD, i int) mpd.PeriodType {
	p := m.Periods[i]
	ends := p.Duration != nil && (m.MinimumUpdatePeriod != nil || i+1 < len(m.Periods) && m.Periods[i+1].Start != nil)
	afterDur := i > 0 && m.Periods[i-1].Duration != nil
	switch {
	case p.Start != nil && ends, p.Start == nil && afterDur && ends:
		return mpd.PTEarlyTerminated
	case p.Start != nil:
		return mpd.PTRegular
	case afterDur:
		return mpd.PTRegularOrEarlyTerminated
	case m.Type != nil && *m.Type == "dynamic":
		return mpd.PTEarlyAvailable
	}
	return mpd.PTRegular
}

func c05check(h *vh, m *mpd.MPD) {
	for i, p := range m.Periods {
		idx, err := p.GetIndex()
		h.Check(err == nil && idx == i, "GetIndex of period %d = %d, %v", i, idx, err)
		wt := c05type(m, i)
		gt, err := p.GetType()
		h.Check(err == nil && gt == wt, "GetType of period %d = %d, %v; want %d", i, gt, err, wt)
		ws, ok := c05start(m, i)
		gs, err := p.GetStart()
		h.Check((err == nil) == ok && (!ok || gs == ws), "GetStart of period %d = %d, %v; want %d, known: %v", i, gs, err, ws, ok)
		wd, dok := c05dur(m, i)
		gd, err := p.GetDuration()
		h.Check((err == nil) == dok && (!dok || gd == wd), "GetDuration of period %d = %d, %v; want %d, known: %v", i, gd, err, wd, dok)
		ab, err := p.AbsoluteStart(m)
		if m.AvailabilityStartTime == "" {
			h.Check(errors.Is(err, mpd.ErrASTRequired), "AbsoluteStart without availabilityStartTime: %v", err)
			continue
		}
		t, perr := time.Parse(time.RFC3339Nano, string(m.AvailabilityStartTime))
		h.Check((err == nil) == (ok && perr == nil), "AbsoluteStart of period %d: %v; start known: %v, time: %v", i, err, ok, perr)
		if err == nil {
			want := float64(t.Unix()) + float64(t.Nanosecond())/1e9 + float64(ws)/1e9
			h.Check(math.Abs(ab-want) <= 1e-4, "AbsoluteStart of period %d = %f, want %f", i, ab, want)
		}
	}
	var q mpd.Period
	_, err := q.GetIndex()
	h.Check(errors.Is(err, mpd.ErrParentNotSet), "GetIndex without parent: %v", err)
	_, err = q.GetStart()
	h.Check(errors.Is(err, mpd.ErrParentNotSet), "GetStart without parent: %v", err)
	q.SetParent(m)
	_, err = q.GetIndex()
	h.Check(err != nil, "GetIndex of a period that is not in the MPD gives no error")
	_, err = q.GetType()
	h.Check(err != nil, "GetType of a period that is not in the MPD gives no error")
}

func TestVerifC05(t *testing.T) {
	D := func(s int) *mpd.Duration { d := mpd.Duration(time.Duration(s) * time.Second); return &d }
	static, dynamic := "static", "dynamic"
	vhRun(t, "all MPDs of up to 3 periods over start {-,0,10s} x duration {-,5s} x type x update period x presentation duration, then random MPDs of up to 7 periods; every case is non-trivial", func(h *vh) {
		one := []c05p{}
		for _, s := range []*mpd.Duration{nil, D(0), D(10)} {
			for _, d := range []*mpd.Duration{nil, D(5)} {
				one = append(one, c05p{s, d})
			}
		}
		var lists [][]c05p
		for _, a := range one {
			lists = append(lists, []c05p{a})
			for _, b := range one {
				lists = append(lists, []c05p{a, b})
				for _, c := range one {
					lists = append(lists, []c05p{a, b, c})
				}
			}
		}
		run := func(typ *string, mup, md *mpd.Duration, ast mpd.DateTime, ps []c05p) {
			tn := "-"
			if typ != nil {
				tn = *typ
			}
			s := ""
			for _, p := range ps {
				s += "(" + dp(p.start) + "," + dp(p.dur) + ")"
			}
			h.Case("type=%s mup=%s mpdur=%s ast=%q periods(start,dur ns)=%s", tn, dp(mup), dp(md), ast, s)
			m := c05build(typ, mup, md, ps)
			m.AvailabilityStartTime = ast
			c05check(h, m)
		}
		for _, typ := range []*string{nil, &static, &dynamic} {
			for _, mup := range []*mpd.Duration{nil, D(2)} {
				for _, md := range []*mpd.Duration{nil, D(100)} {
					for k, l := range lists {
						ast := mpd.DateTime("")
						if k%2 == 1 {
							ast = "1970-01-01T00:00:00Z"
						}
						run(typ, mup, md, ast, l)
					}
				}
			}
		}
		for h.More() {
			rd := func(n int) *mpd.Duration {
				if h.Intn(n) == 0 {
					return nil
				}
				d := mpd.Duration(h.Int63n(int64(3000 * time.Hour)))
				if h.Intn(4) == 0 {
					d = mpd.Duration(h.Intn(3))
				}
				return &d
			}
			var ps []c05p
			for n := h.Intn(8); n > 0; n-- {
				ps = append(ps, c05p{rd(2), rd(3)})
			}
			asts := []mpd.DateTime{"", "2024-02-29T12:34:56.789Z", "1969-12-31T23:59:58.5Z", "2500-01-01T00:00:00Z", "nonsense", "2024-06-01T00:00:00+02:00"}
			run([]*string{nil, &static, &dynamic}[h.Intn(3)], rd(2), rd(2), asts[h.Intn(len(asts))], ps)
		}
	})
}
