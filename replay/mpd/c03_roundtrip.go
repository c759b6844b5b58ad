package mpd_test

import (
	"math"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func TestVerifC03(t *testing.T) {
	vhRun(t, "durations around carries, limits and ties, rendered, parsed and rendered again", func(h *vh) {
		for h.More() {
			v := h.durVal()
			h.Case("duration %d", v)
			d := mpd.Duration(v)
			s := d.String()
			p, err := mpd.ParseDuration(s)
			if v < 0 {
				h.Check(err != nil, "negative duration rendered as %q is read as %d", s, p)
				continue
			}
			if v > math.MaxInt64-500000 {
				continue
			}
			h.Check(err == nil, "%q: %v", s, err)
			if v < 500000 {
				h.Check(int64(p) == v, "%q is read as %d", s, p)
			} else {
				r := (v + 500000) / 1000000 * 1000000
				ok := int64(p) == r
				if v%1000000 == 500000 {
					ok = int64(p) == r || int64(p) == r-1000000
				}
				h.Check(ok, "%q is read as %d, want %d", s, int64(p), r)
			}
			e := mpd.Duration(p)
			h.Check(e.String() == s, "%q is rendered again as %q", s, e.String())
		}
	})
}
