package mpd

// C07 and C06: clones and reading.

// What the deep copy of a tree looks like: a tree of the same shape, without
// links, as the library leaves out unexported fields.
func copiedAdaptationSetType(a, c *AdaptationSetType) bool {
	return vImplies(treeA(a), treeA(c)) && c.parent == nil
}

func copiedPeriod(p, c *Period) bool { return vImplies(treeP(p), treeP(c)) && c.parent == nil }

func copiedMPD(m, c *MPD) bool { return vImplies(treeM(m), treeM(c)) }

// What reading gives: new elements, each of which is held once.
func readMPD(m *MPD) bool { return treeM(m) }

//verif:contract Clone
//verif:prop C06 C07
//verif:fresh 0
func conClone(m *MPD) *MPD {
	vRequires(func() bool { return treeM(m) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	c := Clone(m)
	vEnsures("a new element", func() bool { return c != nil && vIsNew(c) && c != m })
	vEnsures("a deep copy of the argument", func() bool { return vCopyOf(c, m) })
	vEnsures("only links set afterwards", func() bool {
		return vSinceCopy(c, "SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	})
	vEnsures("everything below is linked", func() bool { return linkedM(c) })
	vEnsures("other links stay", func() bool {
		return onlySBelowM(c) && onlyRBelowM(c) && onlyABelowM(c) && onlyPBelowM(c)
	})
	return c
}

//verif:contract (*Period).Clone
//verif:prop C06 C07
//verif:fresh 0
func conPeriodClone(p *Period) *Period {
	vRequires(func() bool { return treeP(p) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent")
	c := p.Clone()
	vEnsures("a new element", func() bool { return c != nil && vIsNew(c) && c != p })
	vEnsures("a deep copy of the argument", func() bool { return vCopyOf(c, p) })
	vEnsures("only links set afterwards", func() bool {
		return vSinceCopy(c, "SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent")
	})
	vEnsures("no link out of the copy", func() bool { return c.Parent() == nil })
	vEnsures("everything below is linked", func() bool { return linkedP(c) })
	vEnsures("other links stay", func() bool { return onlySBelowP(c) && onlyRBelowP(c) && onlyABelowP(c) })
	return c
}

//verif:contract (*AdaptationSetType).Clone
//verif:prop C06 C07
//verif:fresh 0
func conASClone(a *AdaptationSetType) *AdaptationSetType {
	vRequires(func() bool { return treeA(a) })
	vModifies("SubRepresentationType.parent", "RepresentationType.parent")
	c := a.Clone()
	vEnsures("a new element", func() bool { return c != nil && vIsNew(c) && c != a })
	vEnsures("a deep copy of the argument", func() bool { return vCopyOf(c, a) })
	vEnsures("only links set afterwards", func() bool {
		return vSinceCopy(c, "SubRepresentationType.parent", "RepresentationType.parent")
	})
	vEnsures("no link out of the copy", func() bool { return c.Parent() == nil })
	vEnsures("everything below is linked", func() bool { return linkedA(c) })
	vEnsures("other links stay", func() bool { return onlySBelowA(c) && onlyRBelowA(c) })
	return c
}

//verif:contract MPDFromBytes
//verif:prop C06
func conMPDFromBytes(data []byte) (*MPD, error) {
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	in := vBytes(data)
	m, err := MPDFromBytes(data)
	vEnsures("an error gives no MPD", func() bool { return vIff(err == nil, m != nil) })
	vEnsures("what was read", func() bool { return vImplies(err == nil, vIsNew(m) && vReadFrom(m, in)) })
	vEnsures("everything is linked", func() bool { return vImplies(err == nil, linkedM(m)) })
	vEnsures("other links stay", func() bool {
		return vImplies(err == nil, onlySBelowM(m) && onlyRBelowM(m) && onlyABelowM(m) && onlyPBelowM(m))
	})
	return m, err
}

//verif:contract ReadFromString
//verif:prop C06
func conReadFromString(s string) (*MPD, error) {
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	m, err := ReadFromString(s)
	vEnsures("an error gives no MPD", func() bool { return vIff(err == nil, m != nil) })
	vEnsures("what was read", func() bool { return vImplies(err == nil, vReadFrom(m, s)) })
	vEnsures("everything is linked", func() bool { return vImplies(err == nil, linkedM(m)) })
	vEnsures("other links stay", func() bool {
		return vImplies(err == nil, onlySBelowM(m) && onlyRBelowM(m) && onlyABelowM(m) && onlyPBelowM(m))
	})
	return m, err
}

//verif:contract ReadFromFile
//verif:prop C06
func conReadFromFile(path string) (*MPD, error) {
	vModifies("SubRepresentationType.parent", "RepresentationType.parent", "AdaptationSetType.parent", "Period.parent")
	m, err := ReadFromFile(path)
	vEnsures("an error gives no MPD", func() bool { return vIff(err == nil, m != nil) })
	vEnsures("everything is linked", func() bool { return vImplies(err == nil, linkedM(m)) })
	vEnsures("other links stay", func() bool {
		return vImplies(err == nil, onlySBelowM(m) && onlyRBelowM(m) && onlyABelowM(m) && onlyPBelowM(m))
	})
	return m, err
}
