package xml

import "unicode"

// C15, C17, C18: names. nameRest: s holds only characters that may follow in a name.
//
//verif:rec depth=1
func nameRest(s string) bool {
	if s == "" {
		return true
	}
	r, w := vRuneAt(s, 0)
	return !(r == 0xFFFD && w == 1) && (unicode.Is(first, rune(r)) || unicode.Is(second, rune(r))) && nameRest(s[w:])
}

// validName: s is a name.
func validName(s string) bool {
	if s == "" {
		return false
	}
	r, w := vRuneAt(s, 0)
	return !(r == 0xFFFD && w == 1) && unicode.Is(first, rune(r)) && nameRest(s[w:])
}

//verif:contract isName
//verif:prop C17 C18
func conIsName(s []byte) bool {
	text := vBytes(s)
	ok := isName(s)
	vEnsures("name", func() bool { return ok == validName(text) })
	return ok
}

//verif:inv conIsName
func invIsName(s []byte, n int) bool {
	return 1 <= n && n <= len(s)
}

//verif:inv conIsName
func invIsNameRest(s []byte, s0 []byte, n, n0 int) bool {
	return nameRest(vBytes(s)[n:]) == nameRest(vBytes(s0)[n0:])
}

//verif:contract isNameString
//verif:prop C15 C17 C18
func conIsNameString(s string) bool {
	ok := isNameString(s)
	vEnsures("name", func() bool { return ok == validName(s) })
	return ok
}

//verif:inv conIsNameString
func invIsNameString(s string, n int) bool {
	return 1 <= n && n <= len(s)
}

//verif:inv conIsNameString
func invIsNameStringRest(s string, s0 string, n, n0 int) bool {
	return nameRest(s[n:]) == nameRest(s0[n0:])
}

//verif:variant conIsName
func varIsName(s []byte) int { return len(s) }

//verif:variant conIsNameString
func varIsNameString(s string) int { return len(s) }
