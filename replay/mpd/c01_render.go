package mpd_test

import (
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

var c01re = regexp.MustCompile(`^-?PT(?:(0|[1-9][0-9]*)H)?(?:(0|[1-9]|[1-5][0-9])M)?(?:(0|[1-9]|[1-5][0-9])(?:\.([0-9]*[1-9]))?S)?$`)

func c01check(h *vh, v int64) {
	h.Case("duration %d", v)
	d := mpd.Duration(v)
	s := d.String()
	h.Check(int64(d) == v, "rendering changed the value to %d", d)
	h.Check(c01re.MatchString(s) && !strings.HasSuffix(s, "T"), "not a canonical duration: %q", s)
	neg := strings.HasPrefix(s, "-")
	lo, hi, ok := refParse(strings.TrimPrefix(s, "-"))
	h.Check(ok && lo.Cmp(hi) == 0, "not a duration: %q", s)
	x := new(big.Int).Set(lo)
	if neg {
		x.Neg(x)
	}
	h.Check(neg == (v < 0), "sign: %q", s)
	diff := new(big.Int).Sub(x, big.NewInt(v))
	diff.Abs(diff)
	a := new(big.Int).Abs(big.NewInt(v))
	exact := v%1000000 == 0 || a.Cmp(big.NewInt(500000)) < 0
	if exact {
		h.Check(diff.Sign() == 0, "%q is not exact", s)
	} else {
		h.Check(diff.Cmp(big.NewInt(500000)) <= 0, "%q is off by %v ns", s, diff)
	}
}

func TestVerifC01(t *testing.T) {
	vhRun(t, "durations around carries, limits and ties; every millisecond of a range", func(h *vh) {
		for _, v := range []int64{0, 1, -1, 1<<63 - 1, -1 << 63, -1<<63 + 1, 499999, 500000, 500001, 999499999, 999500000, 999999999, 1e9, 59999500000, 3599999500000} {
			c01check(h, v)
		}
		base := int64(h.Intn(1e6)) * 1e9
		for i := int64(0); i < 4000; i++ {
			c01check(h, i*1e6)
			c01check(h, base+i*1e6)
			c01check(h, i*1e9)
			c01check(h, i*60e9)
		}
		for h.More() {
			c01check(h, h.durVal())
		}
	})
}
