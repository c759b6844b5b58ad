package mpd

// C10: profile lists.

// isElem: p is an element of the comma-separated list l.
func isElem(l, p string) bool {
	return vExists(0, len(l)-len(p)+1, func(i int) bool { return elemAt(l, p, i) })
}

func elemAt(l, p string, i int) bool {
	return (i == 0 || vByte(l, i-1) == ',') && (i+len(p) == len(l) || vByte(l, i+len(p)) == ',') && l[i:i+len(p)] == p
}

func noComma(p string) bool {
	return vForall(0, len(p), func(i int) bool { return vByte(p, i) != ',' })
}

// endOf is true; it points the solver at the end of the element that starts at i.
func endOf(l, p string, i int) bool {
	return vTouch(vSplitField(l, ',', i)) && vTouch(vByte(p, vSplitEnd(l, ',', vSplitField(l, ',', i))-i))
}

//verif:contract ListOfProfilesType.AddProfile
//verif:prop C10
func conAddProfile(l ListOfProfilesType, profile string) ListOfProfilesType {
	vRequires(func() bool { return noComma(profile) })
	r := l.AddProfile(profile)
	vEnsures("first profile", func() bool { return vImplies(l == "", string(r) == profile) })
	vEnsures("present already", func() bool {
		return vForall(0, len(l)-len(profile)+1, func(i int) bool {
			return vImplies(l != "" && elemAt(string(l), profile, i) && endOf(string(l), profile, i), r == l)
		})
	})
	vEnsures("added at the end", func() bool {
		return vImplies(l != "" && !isElem(string(l), profile), string(r) == string(l)+","+profile)
	})
	return r
}

//verif:client
//verif:prop C10
func addedProfile(l ListOfProfilesType, profile, q string) {
	vRequires(func() bool { return noComma(profile) && noComma(q) })
	r := l.AddProfile(profile)
	vAssert("contains the profile", func() bool {
		return l == "" && string(r) == profile || isElem(string(l), profile) && r == l || elemAt(string(r), profile, len(l)+1)
	})
	vAssert("keeps every element in place", func() bool {
		return vForall(0, len(l)-len(q)+1, func(i int) bool {
			return vImplies(l != "" && elemAt(string(l), q, i), elemAt(string(r), q, i))
		})
	})
}

// invNotMet: none of the elements looked at so far is the profile.
//
//verif:inv conAddProfile
func invNotMet(s []string, profile string, i int) bool {
	return vForall(0, i, func(k int) bool { return k >= len(s) || s[k] != profile })
}

// invNotMetIncl: the same where the counter is the element looked at last.
//
//verif:inv conAddProfile
func invNotMetIncl(s []string, profile string, i int) bool {
	return vForall(0, i+1, func(k int) bool { return k >= len(s) || s[k] != profile })
}
