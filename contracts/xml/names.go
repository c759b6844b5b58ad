package xml

import "strings"

// C16: qualified names are split at the first colon, if both sides are non-empty.

//verif:contract splitPrefixed
//verif:prop C21
//verif:prop C16
//verif:prop C17
func conSplitPrefixed(prefixed string) (string, string) {
	prefix, name := splitPrefixed(prefixed)
	i := strings.Index(prefixed, ":")
	vEnsures("whole name", func() bool {
		return vImplies(i < 1 || i > len(prefixed)-2, prefix == "" && name == prefixed)
	})
	vEnsures("split", func() bool {
		return vImplies(1 <= i && i <= len(prefixed)-2, prefix == prefixed[:i] && name == prefixed[i+1:])
	})
	return prefix, name
}

//verif:contract joinPrefixed
//verif:prop C21
//verif:prop C16
func conJoinPrefixed(prefix, name string) string {
	s := joinPrefixed(prefix, name)
	vEnsures("no prefix", func() bool { return vImplies(prefix == "", s == name) })
	vEnsures("prefix", func() bool { return vImplies(prefix != "", s == prefix+":"+name) })
	return s
}

//verif:contract newElement
//verif:prop C16
func conNewElement(name Name) element {
	e := newElement(name)
	vEnsures("namespace", func() bool { return e.xmlns == name.Space })
	p, l := splitPrefixed(name.Local)
	vEnsures("name", func() bool { return e.prefix == p && e.name == l })
	vEnsures("nothing declared", func() bool { return e.nsToPrefix == nil && e.prefixToNS == nil })
	return e
}
