package mpd_test

import (
	"math"
	"math/big"
	"regexp"
)

var durRe = regexp.MustCompile(`^P(?:([0-9]+)D)?(T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(?:\.([0-9]+))?S)?)?$`)

// refParse is the supported grammar with exact values (nanoseconds, rounded to
// the nearest; both neighbours of a tie are given).
func refParse(s string) (lo, hi *big.Int, ok bool) {
	m := durRe.FindStringSubmatch(s)
	if m == nil || m[1] == "" && m[2] == "" || m[2] == "T" {
		return nil, nil, false
	}
	sum := new(big.Rat)
	add := func(d string, unit int64) {
		if d == "" {
			return
		}
		n, _ := new(big.Int).SetString(d, 10)
		sum.Add(sum, new(big.Rat).SetInt(n.Mul(n, big.NewInt(unit))))
	}
	add(m[1], 86400e9)
	add(m[3], 3600e9)
	add(m[4], 60e9)
	add(m[5], 1e9)
	if m[6] != "" {
		f, _ := new(big.Rat).SetString("0." + m[6])
		sum.Add(sum, f.Mul(f, new(big.Rat).SetInt64(1e9)))
	}
	// floor and remainder
	q, r := new(big.Int).QuoRem(sum.Num(), sum.Denom(), new(big.Int))
	r.Lsh(r, 1)
	lo, hi = new(big.Int).Set(q), new(big.Int).Set(q)
	switch r.Cmp(sum.Denom()) {
	case 1:
		lo.Add(lo, big.NewInt(1))
		hi.Set(lo)
	case 0:
		hi.Add(hi, big.NewInt(1))
	}
	return lo, hi, true
}

var maxDur = big.NewInt(math.MaxInt64)

// durVal is a duration that is often near a carry or a limit.
func (h *vh) durVal() int64 {
	units := []int64{1, 1000, 1e6, 1e9, 60e9, 3600e9, 86400e9, 500000, 1e7, 1e8, 36000e9}
	var d int64
	switch h.Intn(5) {
	case 0:
		d = int64(h.Uint64() >> uint(h.Intn(64)))
	case 1:
		d = units[h.Intn(len(units))] * int64(h.Intn(2000))
	case 2:
		for i := 0; i < 3; i++ {
			d += units[h.Intn(len(units))] * int64(h.Intn(61))
		}
	case 3:
		d = int64(h.Intn(100))*3600e9 + int64(h.Intn(60))*60e9 + int64(h.Intn(60))*1e9 + int64(h.Intn(1000))*1e6
	case 4:
		d = int64(h.edge(64, true))
	}
	switch h.Intn(4) {
	case 0:
		d += int64(h.Intn(7)) - 3
	case 1:
		d += int64(h.Intn(3)-1) * (500000 + int64(h.Intn(3)) - 1)
	}
	if h.Intn(5) == 0 {
		d = -d
	}
	return d
}
