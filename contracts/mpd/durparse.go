package mpd

import (
	"time"

	"github.com/Eyevinn/dash-mpd/xml"
)

// C02: the grammar P[nD][T[nH][nM][n(.n)S]] and its value.

// numEnd is the end of the digits that start at i.
//
//verif:rec depth=1
func numEnd(s string, i int) int {
	if isDig(s, i) {
		return numEnd(s, i+1)
	}
	return i
}

// fractionEnd is the end of the point and the digits after it at i.
func fractionEnd(s string, i int) int {
	if isAt(s, i, '.') {
		return numEnd(s, i+1)
	}
	return i
}

// unitAt is the rank of the unit at i, 0 if there is none.
func unitAt(s string, i int) int {
	if i >= len(s) {
		return 0
	}
	return unitRank(s[i])
}

func unitRank(c byte) int {
	if c == 'D' {
		return 1
	}
	if c == 'H' {
		return 2
	}
	if c == 'M' {
		return 3
	}
	if c == 'S' {
		return 4
	}
	return 0
}

// restOK: what follows at i completes a duration, after the T if afterT, when
// the last component had the unit of rank last (0: there was none).
//
//verif:rec depth=1
func restOK(s string, i int, afterT bool, last int) bool {
	if i >= len(s) {
		return last != 0 && (!afterT || last > 1)
	}
	if s[i] == 'T' {
		return !afterT && restOK(s, i+1, true, last)
	}
	if !isDig(s, i) {
		return false
	}
	e := numEnd(s, i)
	f := fractionEnd(s, e)
	u := unitAt(s, f)
	return u > last && (u == 1) == !afterT && (f == e || f > e+1 && u == 4) && restOK(s, f+1, afterT, u)
}

// inUnits is n units of rank u in nanoseconds.
func inUnits(n, u int) int {
	if u == 1 {
		return n * 86400000000000
	}
	if u == 2 {
		return n * 3600000000000
	}
	if u == 3 {
		return n * 60000000000
	}
	return n * 1000000000
}

// restVal is the sum of the components at i and after it, in nanoseconds.
//
//verif:rec depth=1 min=0
func restVal(s string, i int) int {
	if i >= len(s) {
		return 0
	}
	if s[i] == 'T' {
		return restVal(s, i+1)
	}
	e := numEnd(s, i)
	f := fractionEnd(s, e)
	v := inUnits(vDigitsVal(s[i:e]), unitAt(s, f)) + restVal(s, f+1)
	if f > e {
		v += fractionNs(s[e+1 : f])
	}
	return v
}

func decimal(s string, i int) int {
	if i < len(s) {
		return int(s[i]) - '0'
	}
	return 0
}

// fractionNs is 0.s in nanoseconds, rounded half up.
func fractionNs(s string) int {
	v := decimal(s, 0)*100000000 + decimal(s, 1)*10000000 + decimal(s, 2)*1000000 + decimal(s, 3)*100000 + decimal(s, 4)*10000 +
		decimal(s, 5)*1000 + decimal(s, 6)*100 + decimal(s, 7)*10 + decimal(s, 8)
	if decimal(s, 9) >= 5 {
		v++
	}
	return v
}

func durOK(s string) bool { return isAt(s, 0, 'P') && restOK(s, 1, false, 0) }

//verif:contract fracToNs
//verif:prop C02
//verif:unroll fracToNs=10
func conFracToNs(frac string) uint64 {
	vRequires(func() bool { return vForall(0, len(frac), func(i int) bool { return isDig(frac, i) }) })
	n := fracToNs(frac)
	vEnsures("nearest nanosecond", func() bool { return int(n) == fractionNs(frac) })
	vEnsures("at most a second", func() bool { return n <= 1000000000 })
	return n
}

//verif:contract ParseDuration
//verif:prop C02
func conParseDuration(str string) (time.Duration, error) {
	d, err := ParseDuration(str)
	vEnsures("accepted", func() bool { return vImplies(err == nil, durOK(str)) })
	vEnsures("value", func() bool { return vImplies(err == nil, int(d) == restVal(str, 1)) })
	vEnsures("nothing else is refused", func() bool {
		return vTouch(numEnd(str, 2)) && vTouch(numEnd(str, 1)) && vImplies(len(str) > 1, vIff(restOK(str, 2, true, 0), restOK(str, 2, true, 0))) && vImplies(err != nil, !durOK(str) || restVal(str, 1) > 1<<63-1)
	})
	return d, err
}

//verif:inv conParseDuration
func invParseRest(str string, i int, afterT bool, lastUnit byte) bool {
	return 1 <= i && i <= len(str) && restOK(str, 1, false, 0) == restOK(str, i, afterT, unitRank(lastUnit))
}

//verif:inv conParseDuration
func invParseTotal(str string, i int, total time.Duration) bool {
	return total >= 0 && restVal(str, 1) == int(total)+restVal(str, i)
}

//verif:inv conParseDuration
func invParseSeen(seenAny bool, lastUnit byte) bool { return seenAny == (unitRank(lastUnit) != 0) }

//verif:inv conParseDuration
func invParseDigits(str string, i, start int, sawDot bool) bool {
	p := numEnd(str, start)
	return start <= i && i <= len(str) && vImplies(!sawDot, p == numEnd(str, i)) &&
		vImplies(sawDot, start <= p && p < i && str[p] == '.' && numEnd(str, p+1) == numEnd(str, i))
}

//verif:inv conParseDuration
func invParseBytes(str string, i, start int, sawDot bool) bool {
	p := numEnd(str, start)
	return vForall(start, i, func(k int) bool { return isDig(str, k) || sawDot && k == p })
}

//verif:lemma
//verif:prop C03
func lemNumEnd(s string, i int) {
	vRequires(func() bool { return 0 <= i })
	vDecreases(len(s) - i)
	if vProof() && isDig(s, i) {
		lemNumEnd(s, i+1)
	}
	vEnsures("not before", func() bool { return i <= numEnd(s, i) && vImplies(isDig(s, i), i < numEnd(s, i)) })
}

// One whole component is read off.
//
//verif:lemma
//verif:prop C03
func lemComponent(s string, i, last int, unit byte) {
	vRequires(func() bool { return 0 <= i && afterNum(s, i, unit) > i && last < unitRank(unit) && unitRank(unit) > 1 })
	vEnsures("shape", func() bool { return restOK(s, i, true, last) == restOK(s, afterNum(s, i, unit), true, unitRank(unit)) })
	vEnsures("value", func() bool {
		return restVal(s, i) == inUnits(numBefore(s, i, unit), unitRank(unit))+restVal(s, afterNum(s, i, unit))
	})
}

// The seconds are read off.
//
//verif:lemma
//verif:prop C03
func lemSeconds(s string, i, last int) {
	vRequires(func() bool { return 0 <= i && i < len(s) && secShape(s, i) && last < 4 })
	vEnsures("shape", func() bool { return restOK(s, len(s), true, 4) && restOK(s, i, true, last) })
	vEnsures("value", func() bool { return restVal(s, len(s)) == 0 && restVal(s, i) == secNs(s, i) })
}

// A text of the form that String renders is one that ParseDuration accepts, and
// means the same.
//
//verif:lemma
//verif:prop C03
func lemCanon(s string) {
	vRequires(func() bool { return durCanon(s) && s[0] == 'P' })
	if vProof() {
		lemNumEnd(s, 2)
		h := afterNum(s, 2, 'H')
		lemNumEnd(s, h)
		m := afterNum(s, h, 'M')
		last := 0
		vAssert("start", func() bool { return restOK(s, 1, false, 0) == restOK(s, 2, true, 0) && restVal(s, 1) == restVal(s, 2) })
		if h > 2 {
			lemComponent(s, 2, 0, 'H')
			last = 2
		}
		if m > h {
			lemComponent(s, h, last, 'M')
			last = 3
		}
		if m < len(s) {
			lemSeconds(s, m, last)
		}
		vAssert("end", func() bool { return vImplies(m == len(s), restOK(s, m, true, last) && restVal(s, m) == 0) })
	}
	vEnsures("accepted", func() bool { return durOK(s) })
	vEnsures("the same value", func() bool { return restVal(s, 1) == durNs(s) })
}

// What String renders for a duration whose rounding is representable is read back.
//
//verif:client
//verif:prop C03
//verif:use conDurString
func cliDurRoundTrip(d *Duration) {
	vRequires(func() bool { return d != nil && *d >= 0 && *d < 9223372036854500000 })
	s := d.String()
	lemCanon(s)
	v, err := ParseDuration(s)
	vEnsures("accepted", func() bool { return err == nil })
	vEnsures("the rounded duration", func() bool { return durClose(int(v), int(*d)) })
}

// Nothing is rendered for a negative duration that would be read.
//
//verif:client
//verif:prop C03
//verif:use conDurStringNeg
func cliDurNegative(d *Duration) {
	vRequires(func() bool { return d != nil && *d < 0 })
	s := d.String()
	_, err := ParseDuration(s)
	vEnsures("refused", func() bool { return err != nil })
}

//verif:contract (*Duration).UnmarshalXMLAttr
//verif:prop C02 C03 C21
func conDurUnmarshal(d *Duration, a xml.Attr) error {
	vRequires(func() bool { return d != nil })
	vModifiesAt(d)
	err := d.UnmarshalXMLAttr(a)
	vEnsures("value", func() bool { return vImplies(err == nil, durOK(a.Value) && int(*d) == restVal(a.Value, 1)) })
	vEnsures("refused", func() bool {
		return vImplies(err != nil, *d == vOld(func() Duration { return *d }) && (!durOK(a.Value) || restVal(a.Value, 1) > 1<<63-1))
	})
	return err
}

//verif:contract (*Duration).MarshalXMLAttr
//verif:prop C03 C21
//verif:use conDurString
func conDurMarshal(d *Duration, name xml.Name) (xml.Attr, error) {
	vRequires(func() bool { return d != nil && *d >= 0 })
	a, err := d.MarshalXMLAttr(name)
	vEnsures("written", func() bool {
		return err == nil && a.Name == name && durCanon(a.Value) && durClose(durNs(a.Value), int(*d))
	})
	return a, err
}
