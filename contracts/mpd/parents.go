package mpd

// C06: parent links.

// The element that holds an element: in a tree each is held once.
func ownP(p *Period) *MPD               { return vOwner("own_p", p, (*MPD)(nil)) }
func ownA(a *AdaptationSetType) *Period { return vOwner("own_a", a, (*Period)(nil)) }
func ownR(r *RepresentationType) *AdaptationSetType {
	return vOwner("own_r", r, (*AdaptationSetType)(nil))
}
func ownS(s *SubRepresentationType) *RepresentationType {
	return vOwner("own_s", s, (*RepresentationType)(nil))
}

// tree*: the elements are there and each is held once.
func treeR(r *RepresentationType) bool {
	return r != nil && vForall(0, len(r.SubRepresentations), func(k int) bool {
		return r.SubRepresentations[k] != nil && ownS(r.SubRepresentations[k]) == r
	})
}

func treeA(a *AdaptationSetType) bool {
	return a != nil && vForall(0, len(a.Representations), func(k int) bool {
		return ownR(a.Representations[k]) == a && treeR(a.Representations[k])
	})
}

func treeAs(p *Period, as []*AdaptationSetType) bool {
	return vForall(0, len(as), func(k int) bool { return ownA(as[k]) == p && treeA(as[k]) })
}

func treeP(p *Period) bool {
	return p != nil && treeAs(p, p.AdaptationSets) && treeAs(p, p.EmptyAdaptationSets)
}

func treeM(m *MPD) bool {
	return m != nil && vForall(0, len(m.Periods), func(k int) bool { return ownP(m.Periods[k]) == m && treeP(m.Periods[k]) })
}

// linked*: everything below links to the element that holds it.
func linkedR(r *RepresentationType) bool {
	return vForall(0, len(r.SubRepresentations), func(k int) bool { return r.SubRepresentations[k].Parent() == r })
}

func linkedA(a *AdaptationSetType) bool {
	return vForall(0, len(a.Representations), func(k int) bool {
		return a.Representations[k].Parent() == a && linkedR(a.Representations[k])
	})
}

func linkedAs(p *Period, as []*AdaptationSetType, n int) bool {
	return vForall(0, n, func(k int) bool { return as[k].Parent() == p && linkedA(as[k]) })
}

func linkedP(p *Period) bool {
	return linkedAs(p, p.AdaptationSets, len(p.AdaptationSets)) && linkedAs(p, p.EmptyAdaptationSets, len(p.EmptyAdaptationSets))
}

func linkedM(m *MPD) bool {
	return vForall(0, len(m.Periods), func(k int) bool { return m.Periods[k].Parent() == m && linkedP(m.Periods[k]) })
}

// only*Below: a link is as before, or that of an element below the given one to its holder.
func onlySBelowR(r *RepresentationType) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownS(x) == r && x.parent == ownS(x) || x.parent == vOld(func() *RepresentationType { return x.parent })
	})
}

func onlySBelowA(a *AdaptationSetType) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownR(ownS(x)) == a && x.parent == ownS(x) || x.parent == vOld(func() *RepresentationType { return x.parent })
	})
}

func onlyRBelowA(a *AdaptationSetType) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownR(x) == a && x.parent == ownR(x) || x.parent == vOld(func() *AdaptationSetType { return x.parent })
	})
}

func onlySBelowP(p *Period) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownA(ownR(ownS(x))) == p && x.parent == ownS(x) || x.parent == vOld(func() *RepresentationType { return x.parent })
	})
}

func onlyRBelowP(p *Period) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownA(ownR(x)) == p && x.parent == ownR(x) || x.parent == vOld(func() *AdaptationSetType { return x.parent })
	})
}

func onlyABelowP(p *Period) bool {
	return vForallRef(func(x *AdaptationSetType) bool {
		return ownA(x) == p && x.parent == ownA(x) || x.parent == vOld(func() *Period { return x.parent })
	})
}

func onlySBelowM(m *MPD) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownP(ownA(ownR(ownS(x)))) == m && x.parent == ownS(x) || x.parent == vOld(func() *RepresentationType { return x.parent })
	})
}

func onlyRBelowM(m *MPD) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownP(ownA(ownR(x))) == m && x.parent == ownR(x) || x.parent == vOld(func() *AdaptationSetType { return x.parent })
	})
}

func onlyABelowM(m *MPD) bool {
	return vForallRef(func(x *AdaptationSetType) bool {
		return ownP(ownA(x)) == m && x.parent == ownA(x) || x.parent == vOld(func() *Period { return x.parent })
	})
}

func onlyPBelowM(m *MPD) bool {
	return vForallRef(func(x *Period) bool {
		return ownP(x) == m && x.parent == ownP(x) || x.parent == vOld(func() *MPD { return x.parent })
	})
}

//verif:inv conRepSetParents
func invSBelowR(r *RepresentationType) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownS(x) == r && x.parent == ownS(x) || x.parent == vEntry(func() *RepresentationType { return x.parent })
	})
}

//verif:inv conASSetParents
func invSBelowA(a *AdaptationSetType) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownR(ownS(x)) == a && x.parent == ownS(x) || x.parent == vEntry(func() *RepresentationType { return x.parent })
	})
}

//verif:inv conASSetParents
func invRBelowA(a *AdaptationSetType) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownR(x) == a && x.parent == ownR(x) || x.parent == vEntry(func() *AdaptationSetType { return x.parent })
	})
}

//verif:inv conPeriodSetParents
func invSBelowP(p *Period) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownA(ownR(ownS(x))) == p && x.parent == ownS(x) || x.parent == vEntry(func() *RepresentationType { return x.parent })
	})
}

//verif:inv conPeriodSetParents
func invRBelowP(p *Period) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownA(ownR(x)) == p && x.parent == ownR(x) || x.parent == vEntry(func() *AdaptationSetType { return x.parent })
	})
}

//verif:inv conPeriodSetParents
func invABelowP(p *Period) bool {
	return vForallRef(func(x *AdaptationSetType) bool {
		return ownA(x) == p && x.parent == ownA(x) || x.parent == vEntry(func() *Period { return x.parent })
	})
}

//verif:inv conMPDSetParents
func invSBelowM(m *MPD) bool {
	return vForallRef(func(x *SubRepresentationType) bool {
		return ownP(ownA(ownR(ownS(x)))) == m && x.parent == ownS(x) || x.parent == vEntry(func() *RepresentationType { return x.parent })
	})
}

//verif:inv conMPDSetParents
func invRBelowM(m *MPD) bool {
	return vForallRef(func(x *RepresentationType) bool {
		return ownP(ownA(ownR(x))) == m && x.parent == ownR(x) || x.parent == vEntry(func() *AdaptationSetType { return x.parent })
	})
}

//verif:inv conMPDSetParents
func invABelowM(m *MPD) bool {
	return vForallRef(func(x *AdaptationSetType) bool {
		return ownP(ownA(x)) == m && x.parent == ownA(x) || x.parent == vEntry(func() *Period { return x.parent })
	})
}

//verif:inv conMPDSetParents
func invPBelowM(m *MPD) bool {
	return vForallRef(func(x *Period) bool {
		return ownP(x) == m && x.parent == ownP(x) || x.parent == vEntry(func() *MPD { return x.parent })
	})
}

//verif:inv con*SetParents
func invDoneS(s []*SubRepresentationType, i int) bool {
	return i <= len(s) && vForall(0, i, func(k int) bool { return s[k].parent == ownS(s[k]) })
}

//verif:inv con*SetParents
func invDoneR(s []*RepresentationType, i int) bool {
	return i <= len(s) && vForall(0, i, func(k int) bool { return s[k].parent == ownR(s[k]) && linkedR(s[k]) })
}

//verif:inv con*SetParents
func invDoneA(s []*AdaptationSetType, i int) bool {
	return i <= len(s) && vForall(0, i, func(k int) bool { return s[k].parent == ownA(s[k]) && linkedA(s[k]) })
}

//verif:inv con*SetParents
func invDoneP(s []*Period, i int) bool {
	return i <= len(s) && vForall(0, i, func(k int) bool { return s[k].parent == ownP(s[k]) && linkedP(s[k]) })
}

//verif:contract (*RepresentationType).SetParents
//verif:prop C06
func conRepSetParents(r *RepresentationType) {
	vRequires(func() bool { return treeR(r) })
	vModifies("SubRepresentationType.parent")
	r.SetParents()
	vEnsures("everything below is linked", func() bool { return linkedR(r) })
	vEnsures("other links stay", func() bool { return onlySBelowR(r) })
}

//verif:contract (*AdaptationSetType).SetParents
//verif:prop C06
func conASSetParents(a *AdaptationSetType) {
	vRequires(func() bool { return treeA(a) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent")
	a.SetParents()
	vEnsures("everything below is linked", func() bool { return linkedA(a) })
	vEnsures("other links stay", func() bool { return onlySBelowA(a) && onlyRBelowA(a) })
}

//verif:contract (*Period).SetParents
//verif:prop C06
func conPeriodSetParents(p *Period) {
	vRequires(func() bool { return treeP(p) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent")
	p.SetParents()
	vEnsures("everything below is linked", func() bool { return linkedP(p) })
	vEnsures("other links stay", func() bool { return onlySBelowP(p) && onlyRBelowP(p) && onlyABelowP(p) })
}

//verif:contract (*MPD).SetParents
//verif:prop C06
func conMPDSetParents(m *MPD) {
	vRequires(func() bool { return treeM(m) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	m.SetParents()
	vEnsures("everything below is linked", func() bool { return linkedM(m) })
	vEnsures("other links stay", func() bool { return onlySBelowM(m) && onlyRBelowM(m) && onlyABelowM(m) && onlyPBelowM(m) })
}

//verif:contract (*MPD).AppendPeriod
//verif:prop C06
func conAppendPeriod(m *MPD, p *Period) {
	vRequires(func() bool { return m != nil && p != nil })
	vModifies("MPD.Periods", "elem:*Period", "Period.parent")
	vModifiesAt(&m.Periods, &p.parent)
	old := m.Periods
	n := len(old)
	m.AppendPeriod(p)
	vEnsures("one more", func() bool { return len(m.Periods) == n+1 && m.Periods[n] == p })
	vEnsures("the others stay", func() bool {
		return vForall(0, n, func(k int) bool {
			return m.Periods[k] == vOld(func() *Period { return old[k] }) && old[k] == m.Periods[k]
		})
	})
	vEnsures("linked", func() bool { return p.Parent() == m })
	vEnsures("other links stay", func() bool {
		return vForallRef(func(y *Period) bool {
			return vImplies(y != p, y.parent == vOld(func() *MPD { return y.parent }))
		})
	})
	vEnsures("other lists stay", func() bool {
		return vForallRef(func(y *MPD) bool {
			return vImplies(y != m, len(y.Periods) == vOld(func() int { return len(y.Periods) }))
		})
	})
}

//verif:contract (*Period).AppendAdaptationSet
//verif:prop C06
func conAppendAdaptationSet(p *Period, a *AdaptationSetType) {
	vRequires(func() bool { return p != nil && a != nil })
	vModifies("Period.AdaptationSets", "elem:*AdaptationSetType", "AdaptationSetType.parent")
	vModifiesAt(&p.AdaptationSets, &a.parent)
	old := p.AdaptationSets
	n := len(old)
	p.AppendAdaptationSet(a)
	vEnsures("one more", func() bool { return len(p.AdaptationSets) == n+1 && p.AdaptationSets[n] == a })
	vEnsures("the others stay", func() bool {
		return vForall(0, n, func(k int) bool {
			return p.AdaptationSets[k] == vOld(func() *AdaptationSetType { return old[k] }) && old[k] == p.AdaptationSets[k]
		})
	})
	vEnsures("linked", func() bool { return a.Parent() == p })
	vEnsures("other links stay", func() bool {
		return vForallRef(func(y *AdaptationSetType) bool {
			return vImplies(y != a, y.parent == vOld(func() *Period { return y.parent }))
		})
	})
	vEnsures("other lists stay", func() bool {
		return vForallRef(func(y *Period) bool {
			return vImplies(y != p, len(y.AdaptationSets) == vOld(func() int { return len(y.AdaptationSets) }))
		})
	})
}

//verif:contract (*AdaptationSetType).AppendRepresentation
//verif:prop C06
func conAppendRepresentation(a *AdaptationSetType, r *RepresentationType) {
	vRequires(func() bool { return a != nil && r != nil })
	vModifies("AdaptationSetType.Representations", "elem:*RepresentationType", "RepresentationType.parent")
	vModifiesAt(&a.Representations, &r.parent)
	old := a.Representations
	n := len(old)
	a.AppendRepresentation(r)
	vEnsures("one more", func() bool { return len(a.Representations) == n+1 && a.Representations[n] == r })
	vEnsures("the others stay", func() bool {
		return vForall(0, n, func(k int) bool {
			return a.Representations[k] == vOld(func() *RepresentationType { return old[k] }) && old[k] == a.Representations[k]
		})
	})
	vEnsures("linked", func() bool { return r.Parent() == a })
	vEnsures("other links stay", func() bool {
		return vForallRef(func(y *RepresentationType) bool {
			return vImplies(y != r, y.parent == vOld(func() *AdaptationSetType { return y.parent }))
		})
	})
	vEnsures("other lists stay", func() bool {
		return vForallRef(func(y *AdaptationSetType) bool {
			return vImplies(y != a, len(y.Representations) == vOld(func() int { return len(y.Representations) }))
		})
	})
}

//verif:contract (*RepresentationType).AppendSubRepresentation
//verif:prop C06
func conAppendSubRepresentation(r *RepresentationType, sr *SubRepresentationType) {
	vRequires(func() bool { return r != nil && sr != nil })
	vModifies("RepresentationType.SubRepresentations", "elem:*SubRepresentationType", "SubRepresentationType.parent")
	vModifiesAt(&r.SubRepresentations, &sr.parent)
	old := r.SubRepresentations
	n := len(old)
	r.AppendSubRepresentation(sr)
	vEnsures("one more", func() bool { return len(r.SubRepresentations) == n+1 && r.SubRepresentations[n] == sr })
	vEnsures("the others stay", func() bool {
		return vForall(0, n, func(k int) bool {
			return r.SubRepresentations[k] == vOld(func() *SubRepresentationType { return old[k] }) && old[k] == r.SubRepresentations[k]
		})
	})
	vEnsures("linked", func() bool { return sr.Parent() == r })
	vEnsures("other links stay", func() bool {
		return vForallRef(func(y *SubRepresentationType) bool {
			return vImplies(y != sr, y.parent == vOld(func() *RepresentationType { return y.parent }))
		})
	})
	vEnsures("other lists stay", func() bool {
		return vForallRef(func(y *RepresentationType) bool {
			return vImplies(y != r, len(y.SubRepresentations) == vOld(func() int { return len(y.SubRepresentations) }))
		})
	})
}
