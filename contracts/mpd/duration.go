package mpd

// C01, C02, C03: durations.

func isDig(s string, i int) bool        { return i < len(s) && '0' <= s[i] && s[i] <= '9' }
func isAt(s string, i int, b byte) bool { return i < len(s) && s[i] == b }

// canonNum: a number without leading zeros
func canonNum(s string, i int) bool {
	return isDig(s, i) && (numEnd(s, i) == i+1 || s[i] != '0')
}

// afterNum is the end of the component with the given unit at i, if it is there.
func afterNum(s string, i int, unit byte) int {
	if isDig(s, i) && isAt(s, numEnd(s, i), unit) {
		return numEnd(s, i) + 1
	}
	return i
}

func numBefore(s string, i int, unit byte) int {
	if afterNum(s, i, unit) > i {
		return vDigitsVal(s[i:numEnd(s, i)])
	}
	return 0
}

// fracEnd is the end of the digits after a decimal point at i.
func fracEnd(s string, i int) int {
	if isAt(s, i, '.') {
		return numEnd(s, i+1)
	}
	return i
}

// secShape: nothing, or seconds with at most nine decimals the last of which is not 0.
func secShape(s string, i int) bool {
	if i == len(s) {
		return true
	}
	e := numEnd(s, i)
	f := fracEnd(s, e)
	return canonNum(s, i) && vDigitsVal(s[i:e]) < 60 &&
		(f == e || f > e+1 && f <= e+10 && s[f-1] != '0') && isAt(s, f, 'S') && f+1 == len(s)
}

func secNs(s string, i int) int {
	if i >= len(s) {
		return 0
	}
	e := numEnd(s, i)
	f := fracEnd(s, e)
	if f == e {
		return vDigitsVal(s[i:e]) * 1000000000
	}
	return vDigitsVal(s[i:e])*1000000000 + fractionNs(s[e+1:f])
}

// durStart is where the time components start.
func durStart(s string) int {
	if isAt(s, 0, '-') {
		return 3
	}
	return 2
}

// durCanon: [-]PT[nH][nM][n(.n)S], at least one component, minutes and seconds
// below 60, no padding.
func durCanon(s string) bool {
	b := durStart(s)
	h := afterNum(s, b, 'H')
	m := afterNum(s, h, 'M')
	return isAt(s, b-2, 'P') && isAt(s, b-1, 'T') && len(s) > b &&
		(h == b || canonNum(s, b)) && (m == h || canonNum(s, h) && numBefore(s, h, 'M') < 60) && secShape(s, m)
}

func durNs(s string) int {
	b := durStart(s)
	h := afterNum(s, b, 'H')
	m := afterNum(s, h, 'M')
	return (numBefore(s, b, 'H')*3600+numBefore(s, h, 'M')*60)*1000000000 + secNs(s, m)
}

// durClose: v is n in whole milliseconds, half a millisecond away at most;
// it is n if that would be rounded to zero.
func durClose(v, n int) bool {
	return v-n <= 500000 && n-v <= 500000 && vImplies(n%1000000 == 0 || n < 500000, v == n) && (n <= 500000 || v%1000000 == 0)
}

//verif:contract (*Duration).String
//verif:prop C01 C03
//verif:unroll fmtInt=20 fmtFrac=9
func conDurString(d *Duration) string {
	vRequires(func() bool { return d != nil && *d >= 0 })
	s := d.String()
	vEnsures("canonical", func() bool { return s[0] == 'P' && durCanon(s) })
	vEnsures("value", func() bool { return durClose(durNs(s), int(*d)) })
	return s
}

//verif:contract (*Duration).String
//verif:prop C01 C03
//verif:unroll fmtInt=20 fmtFrac=9
func conDurStringNeg(d *Duration) string {
	vRequires(func() bool { return d != nil && *d < 0 })
	s := d.String()
	vEnsures("canonical", func() bool { return s[0] == '-' && durCanon(s) })
	vEnsures("value", func() bool { return durClose(durNs(s), -int(*d)) })
	return s
}
