package mpd

// C05: the timeline of an MPD with any number of periods.

func pIdx(p *Period) int { return vAppInt("pidx", p) }

// wfPeriods: the periods of m are distinct elements linked to m (pIdx is the
// position, which exists exactly when no element occurs twice).
func wfPeriods(m *MPD) bool {
	return vForall(0, len(m.Periods), func(i int) bool {
		return m.Periods[i] != nil && m.Periods[i].Parent() == m && pIdx(m.Periods[i]) == i
	})
}

// inMPD: p is one of the periods of m.
func inMPD(m *MPD, p *Period) bool {
	return 0 <= pIdx(p) && pIdx(p) < len(m.Periods) && m.Periods[pIdx(p)] == p
}

func isStatic(m *MPD) bool { return m.Type == nil || *m.Type == "static" }

// hasStart: the start of period i is known.
//
//verif:rec depth=2
func hasStart(m *MPD, i int) bool {
	if m.Periods[i].Start != nil {
		return true
	}
	if i > 0 {
		return m.Periods[i-1].Duration != nil && hasStart(m, i-1)
	}
	return isStatic(m)
}

// startAt: its value when it is known.
//
//verif:rec depth=2
func startAt(m *MPD, i int) Duration {
	if m.Periods[i].Start != nil {
		return *m.Periods[i].Start
	}
	if i > 0 {
		return startAt(m, i-1) + *m.Periods[i-1].Duration
	}
	return 0
}

// startFits: no sum on the way exceeds the range of a duration (292 years).
//
//verif:rec depth=2
func startFits(m *MPD, i int) bool {
	if m.Periods[i].Start != nil || i <= 0 {
		return true
	}
	return startFits(m, i-1) && fitsDur(startAt(m, i))
}

func fitsDur(d Duration) bool { return -9223372036854775808 <= d && d <= 9223372036854775807 }

//verif:contract (*Period).GetIndex
//verif:prop C05
func conGetIndex(p *Period) (int, error) {
	vRequires(func() bool { return p != nil && (p.Parent() == nil || wfPeriods(p.Parent())) })
	i, err := p.GetIndex()
	vEnsures("no parent", func() bool { return vImplies(p.Parent() == nil, i == -1 && err == ErrParentNotSet) })
	vEnsures("found", func() bool {
		return vImplies(p.Parent() != nil && inMPD(p.Parent(), p), err == nil && i == pIdx(p))
	})
	vEnsures("not found", func() bool {
		return vImplies(p.Parent() != nil && !inMPD(p.Parent(), p), i == -1 && err == ErrPeriodNotFound)
	})
	return i, err
}

// invNotBefore: the period has not been met so far.
//
//verif:inv conGetIndex
func invNotBefore(p *Period, m *MPD, i int) bool {
	return i <= len(m.Periods) && vImplies(inMPD(m, p), i <= pIdx(p))
}

//verif:contract (*Period).GetStart
//verif:prop C05
func conGetStart(p *Period) (Duration, error) {
	vRequires(func() bool { return p != nil && (p.Parent() == nil || wfPeriods(p.Parent())) })
	vDecreases(pIdx(p))
	d, err := p.GetStart()
	vEnsures("no parent", func() bool { return vImplies(p.Parent() == nil, err == ErrParentNotSet) })
	vEnsures("start attribute", func() bool {
		return vImplies(p.Parent() != nil && p.Start != nil, err == nil && d == *p.Start)
	})
	vEnsures("derived", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && hasStart(m, pIdx(p)) && startFits(m, pIdx(p)), err == nil && d == startAt(m, pIdx(p)))
	})
	vEnsures("known", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && hasStart(m, pIdx(p)), err == nil)
	})
	vEnsures("unknown", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && !hasStart(m, pIdx(p)), err != nil)
	})
	vEnsures("foreign period", func() bool {
		m := p.Parent()
		return vImplies(m != nil && !inMPD(m, p) && p.Start == nil, err != nil)
	})
	return d, err
}

func hasNext(m *MPD, i int) bool { return i+1 < len(m.Periods) }

// durKnown: the duration of period i (without duration attribute) is defined:
// its start is, and so is where it ends.
func durKnown(m *MPD, i int) bool {
	if !hasStart(m, i) {
		return false
	}
	if hasNext(m, i) {
		return m.Periods[i+1].Start != nil
	}
	return isStatic(m) && m.MediaPresentationDuration != nil
}

func endAt(m *MPD, i int) Duration {
	if hasNext(m, i) {
		return *m.Periods[i+1].Start
	}
	return *m.MediaPresentationDuration
}

//verif:contract (*Period).GetDuration
//verif:prop C05
func conGetDuration(p *Period) (Duration, error) {
	vRequires(func() bool { return p != nil && (p.Parent() == nil || wfPeriods(p.Parent())) })
	d, err := p.GetDuration()
	vEnsures("duration attribute", func() bool {
		return vImplies(p.Duration != nil, err == nil && d == *p.Duration)
	})
	vEnsures("no parent", func() bool {
		return vImplies(p.Duration == nil && p.Parent() == nil, err == ErrParentNotSet)
	})
	vEnsures("foreign period", func() bool {
		m := p.Parent()
		return vImplies(m != nil && !inMPD(m, p) && p.Duration == nil, err != nil)
	})
	vEnsures("known", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && p.Duration == nil && durKnown(m, pIdx(p)), err == nil)
	})
	vEnsures("derived", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && p.Duration == nil && durKnown(m, pIdx(p)) && startFits(m, pIdx(p)) &&
			fitsDur(endAt(m, pIdx(p))-startAt(m, pIdx(p))), d == endAt(m, pIdx(p))-startAt(m, pIdx(p)))
	})
	vEnsures("unknown", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p) && p.Duration == nil && !durKnown(m, pIdx(p)), err != nil)
	})
	return d, err
}

// typeAt is the period type as the attributes around period i define it.
func typeAt(m *MPD, i int) PeriodType {
	p := m.Periods[i]
	ends := p.Duration != nil && (m.MinimumUpdatePeriod != nil || hasNext(m, i) && m.Periods[i+1].Start != nil)
	switch {
	case p.Start != nil && ends:
		return PTEarlyTerminated
	case p.Start != nil:
		return PTRegular
	case i > 0 && m.Periods[i-1].Duration != nil && ends:
		return PTEarlyTerminated
	case i > 0 && m.Periods[i-1].Duration != nil:
		return PTRegularOrEarlyTerminated
	case m.Type != nil && *m.Type == "dynamic":
		return PTEarlyAvailable
	}
	return PTRegular
}

//verif:contract (*Period).GetType
//verif:prop C05
func conGetType(p *Period) (PeriodType, error) {
	vRequires(func() bool { return p != nil && (p.Parent() == nil || wfPeriods(p.Parent())) })
	t, err := p.GetType()
	vEnsures("no parent", func() bool { return vImplies(p.Parent() == nil, t == PTBad && err == ErrParentNotSet) })
	vEnsures("foreign period", func() bool {
		m := p.Parent()
		return vImplies(m != nil && !inMPD(m, p), t == PTBad && err != nil)
	})
	vEnsures("type", func() bool {
		m := p.Parent()
		return vImplies(m != nil && inMPD(m, p), err == nil && t == typeAt(m, pIdx(p)))
	})
	return t, err
}

//verif:contract (*MPD).GetType
//verif:prop C05
func conMPDGetType(m *MPD) string {
	vRequires(func() bool { return m != nil })
	s := m.GetType()
	vEnsures("attribute or static", func() bool {
		if m.Type == nil {
			return s == "static"
		}
		return s == *m.Type
	})
	return s
}

// AbsoluteStart: the availability start plus the start of the period.
//
//verif:contract (*Period).AbsoluteStart
//verif:prop C05
//verif:inline ConvertToSeconds
func conAbsoluteStart(p *Period, m *MPD) (float64, error) {
	vRequires(func() bool { return p != nil && m != nil && (p.Parent() == nil || wfPeriods(p.Parent())) })
	s, err := p.AbsoluteStart(m)
	ast, astErr := m.AvailabilityStartTime.ConvertToSeconds()
	vEnsures("availability start required", func() bool {
		return vImplies(m.AvailabilityStartTime == "", err == ErrASTRequired)
	})
	vEnsures("invalid availability start", func() bool {
		return vImplies(astErr != nil, err != nil)
	})
	vEnsures("no parent", func() bool {
		return vImplies(p.Parent() == nil, err != nil)
	})
	vEnsures("unknown start", func() bool {
		q := p.Parent()
		return vImplies(q != nil && inMPD(q, p) && !hasStart(q, pIdx(p)), err != nil)
	})
	vEnsures("sum", func() bool {
		q := p.Parent()
		if q == nil || !inMPD(q, p) || !hasStart(q, pIdx(p)) || astErr != nil || m.AvailabilityStartTime == "" {
			return true
		}
		d := startAt(q, pIdx(p))
		return err == nil && vImplies(startFits(q, pIdx(p)), s == ast+d.Seconds())
	})
	return s, err
}
