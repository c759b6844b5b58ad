package xml

import "io"

// C14. escFrom(o, s, i, attr, nl) is o followed by the escaped form of s from
// byte i on: every rune that is markup, a quote, a carriage return, or (where
// asked for) a tab or newline is replaced by its character reference, every
// rune that is not an XML character and every byte that is not UTF-8 by the
// replacement character, and every other rune is kept.
//
//verif:rec depth=1
func escFrom(o, s string, i int, tab, nl bool) string {
	if i >= len(s) {
		return o
	}
	r, w := vRuneAt(s, i)
	if kept(r, w, tab, nl) {
		return escFrom(o+s[i:i+w], s, i+w, tab, nl)
	}
	return escFrom(o+refOf(r), s, i+w, tab, nl)
}

func kept(r, w int, tab, nl bool) bool {
	if r == '"' || r == '\'' || r == '&' || r == '<' || r == '>' || r == '\r' || r == '\t' && tab || r == '\n' && nl {
		return false
	}
	return xmlChar(rune(r)) && !(r == 0xFFFD && w == 1)
}

// refOf is the character reference for r, or the replacement character.
func refOf(r int) string {
	switch r {
	case '"':
		return "&#34;"
	case '\'':
		return "&#39;"
	case '&':
		return "&amp;"
	case '<':
		return "&lt;"
	case '>':
		return "&gt;"
	case '\t':
		return "&#x9;"
	case '\n':
		return "&#xA;"
	case '\r':
		return "&#xD;"
	}
	return "\uFFFD"
}

//verif:contract isInCharacterRange
//verif:prop C14
func conIsInCharacterRange(r rune) bool {
	ok := isInCharacterRange(r)
	vEnsures("XML character", func() bool { return ok == xmlChar(r) })
	return ok
}

// xmlChar: https://www.w3.org/TR/xml/#NT-Char
func xmlChar(r rune) bool {
	if r < 0x20 {
		return r == 9 || r == 10 || r == 13
	}
	return r <= 0xD7FF || 0xE000 <= r && r <= 0xFFFD || 0x10000 <= r && r <= 0x10FFFF
}

//verif:contract escapeText
//verif:prop C14
func conEscapeText(w io.Writer, s []byte, escapeNewline bool) error {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	text, out := vBytes(s), vOut(w)
	err := escapeText(w, s, escapeNewline)
	vEnsures("escaped", func() bool { return vImplies(err == nil, vOut(w) == escFrom(out, text, 0, false, escapeNewline)) })
	vEnsures("the writer's error", func() bool { return vImplies(err != nil, vSame(err, vGhostErr(w))) })
	vEnsures("every failed write is reported", func() bool {
		return vImplies(vGhostInt("fails", w) != vOld(func() int { return vGhostInt("fails", w) }), err != nil)
	})
	return err
}

//verif:inv conEscapeText
func invEscapeText(w io.Writer, s []byte, escapeNewline bool, last, i int) bool {
	return 0 <= last && last <= i && i <= len(s) && vGhostInt("fails", w) == vEntry(func() int { return vGhostInt("fails", w) }) &&
		escFrom(vOut(w)+vBytes(s)[last:i], vBytes(s), i, false, escapeNewline) == escFrom(vEntry(func() string { return vOut(w) }), vBytes(s), 0, false, escapeNewline)
}

//verif:contract EscapeText
//verif:prop C14
func conEscapeTextAPI(w io.Writer, s []byte) error {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	text, out := vBytes(s), vOut(w)
	err := EscapeText(w, s)
	vEnsures("escaped", func() bool { return vImplies(err == nil, vOut(w) == escFrom(out, text, 0, false, false)) })
	vEnsures("every failed write is reported", func() bool {
		return vImplies(vGhostInt("fails", w) != vOld(func() int { return vGhostInt("fails", w) }), err != nil)
	})
	return err
}

//verif:contract (*printer).EscapeString
//verif:prop C14 C16 C21
func conEscapeString(p *printer, s string) {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("out", p), vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	out := vOut(p)
	p.EscapeString(s)
	vEnsures("escaped", func() bool { return vOut(p) == escFrom(out, s, 0, true, true) })
	vEnsures("after what was there", func() bool { return begins(vOut(p), out) })
	vEnsures("in step", func() bool { return vImplies(vOld(func() bool { return inStep(p) }), inStep(p)) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(p.err, vOld(func() error { return p.err })))
	})
}

//verif:inv conEscapeString
func invEscapeString(p *printer, s string, last, i int) bool {
	return 0 <= last && last <= i && i <= len(s) &&
		escFrom(vOut(p)+s[last:i], s, i, true, true) == escFrom(vEntry(func() string { return vOut(p) }), s, 0, true, true)
}

// begins: s begins with o.
func begins(s, o string) bool {
	return len(o) <= len(s) && vForall(0, len(o), func(k int) bool { return s[k] == o[k] })
}

//verif:inv conEscapeString
func invEscapeStringBegins(p *printer) bool {
	return begins(vOut(p), vEntry(func() string { return vOut(p) }))
}

//verif:inv conEscapeString
func invEscapeStringW(p *printer) bool {
	return vImplies(vEntry(func() bool { return inStep(p) }), inStep(p))
}

//verif:inv conEscapeString
func invEscapeStringErr(p *printer) bool {
	return vImplies(vEntry(func() bool { return p.err != nil }), vSame(p.err, vEntry(func() error { return p.err })))
}
