package xml

import "io"

// C19, C18: reading. The reader d.r delivers the bytes vInByte(d.r, 0), 1, ...;
// vGhostInt("read", d.r) of them have been delivered so far.

// at is the number of bytes consumed.
func at(d *Decoder) int {
	if d.nextByte >= 0 {
		return vGhostInt("read", d.r) - 1
	}
	return vGhostInt("read", d.r)
}

// ready: the decoder reads bytes, and the byte that was put back, if any, is the
// last one read.
func ready(d *Decoder) bool {
	return d != nil && d.r != nil && d.t == nil && d.saved != &d.buf && -1 <= d.nextByte && d.nextByte < 256 && 0 <= vGhostInt("read", d.r) && vGhostInt("read", d.r) <= vInLen(d.r) && -1<<61 < skew(d) && skew(d) < 1<<61 &&
		vImplies(d.nextByte >= 0, 1 <= vGhostInt("read", d.r) && d.nextByte == vInByte(d.r, vGhostInt("read", d.r)-1))
}

// skew is constant: the offset counts the bytes consumed.
func skew(d *Decoder) int { return int(d.offset) - at(d) }

//verif:contract (*Decoder).getc
//verif:prop C18 C19
func conGetc(d *Decoder) (byte, bool) {
	vRequires(func() bool { return ready(d) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved))
	n, k := at(d), skew(d)
	b, ok := d.getc()
	vEnsures("next byte", func() bool { return vImplies(ok, int(b) == vInByte(d.r, n) && at(d) == n+1 && d.nextByte < 0) })
	vEnsures("nothing read", func() bool { return vImplies(!ok, at(d) == n) })
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("no error before or after", func() bool { return vImplies(ok, d.err == nil && vOld(func() bool { return d.err == nil })) })
	vEnsures("error", func() bool { return vImplies(!ok, d.err != nil) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("the reader's error", func() bool {
		return vImplies(!ok && vOld(func() bool { return d.err == nil }), vSame(d.err, vGhostErr(d.r)))
	})
	return b, ok
}

//verif:contract (*Decoder).mustgetc
//verif:prop C18 C19
func conMustgetc(d *Decoder) (byte, bool) {
	vRequires(func() bool { return ready(d) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved))
	n, k := at(d), skew(d)
	b, ok := d.mustgetc()
	vEnsures("next byte", func() bool { return vImplies(ok, int(b) == vInByte(d.r, n) && at(d) == n+1 && d.nextByte < 0) })
	vEnsures("nothing read", func() bool { return vImplies(!ok, at(d) == n) })
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("no error before or after", func() bool { return vImplies(ok, d.err == nil && vOld(func() bool { return d.err == nil })) })
	vEnsures("error", func() bool { return vImplies(!ok, d.err != nil && !vSame(d.err, io.EOF)) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil && d.err != io.EOF }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("the reader's error", func() bool {
		return vImplies(!ok && vOld(func() bool { return d.err == nil }) && vGhostErr(d.r) != io.EOF, vSame(d.err, vGhostErr(d.r)))
	})
	return b, ok
}

//verif:contract (*Decoder).ungetc
//verif:prop C18 C19
func conUngetc(d *Decoder, b byte) {
	vRequires(func() bool { return ready(d) && d.nextByte < 0 && 0 < at(d) && int(b) == vInByte(d.r, at(d)-1) })
	vModifiesAt(&d.nextByte, &d.line, &d.offset)
	n, k := at(d), skew(d)
	d.ungetc(b)
	vEnsures("one byte back", func() bool { return at(d) == n-1 && d.nextByte >= 0 })
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
}

func isBlank(c int) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

//verif:contract (*Decoder).space
//verif:prop C18 C19
func conSpace(d *Decoder) {
	vRequires(func() bool { return ready(d) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved))
	n, k := at(d), skew(d)
	d.space()
	vEnsures("white space only", func() bool {
		return n <= at(d) && vForall(n, at(d), func(i int) bool { return isBlank(vInByte(d.r, i)) })
	})
	vEnsures("all of it", func() bool { return vImplies(d.err == nil, d.nextByte >= 0 && !isBlank(vInByte(d.r, at(d)))) })
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("the reader's error", func() bool {
		return vImplies(vOld(func() bool { return d.err == nil }) && d.err != nil, vSame(d.err, vGhostErr(d.r)))
	})
}

//verif:inv conSpace conReadName
func invInput(d *Decoder) bool {
	return ready(d) && skew(d) == vEntry(func() int { return skew(d) }) && at(d) >= vEntry(func() int { return at(d) }) &&
		vImplies(vEntry(func() bool { return d.err != nil }), vSame(d.err, vEntry(func() error { return d.err }))) &&
		vImplies(vEntry(func() bool { return d.err == nil }), d.err == nil)
}

//verif:inv conSpace
func invSpace(d *Decoder) bool {
	return vForall(vEntry(func() int { return at(d) }), at(d), func(i int) bool { return isBlank(vInByte(d.r, i)) })
}

//verif:variant conSpace
func varInput(d *Decoder) int { return vInLen(d.r) - at(d) }

// inName: bytes that names are made of, as far as one byte tells.
func inName(c int) bool {
	return c >= 0x80 || 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_' || c == ':' || c == '.' || c == '-'
}

//verif:contract isNameByte
//verif:prop C18 C19
func conIsNameByte(c byte) bool {
	ok := isNameByte(c)
	vEnsures("name byte", func() bool { return vImplies(c < 0x80, ok == inName(int(c))) })
	return ok
}

//verif:contract (*Decoder).readName
//verif:prop C18 C19
func conReadName(d *Decoder) bool {
	vRequires(func() bool { return ready(d) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved), vAt[string]("buf", &d.buf))
	n, k, old := at(d), skew(d), vBuf(&d.buf)
	ok := d.readName()
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("all name bytes", func() bool {
		return n <= at(d) && vForall(n, at(d), func(i int) bool { return inName(vInByte(d.r, i)) })
	})
	vEnsures("at least one, and up to the first other byte", func() bool {
		return vImplies(ok, d.err == nil && n < at(d) && d.nextByte >= 0 && !inName(vInByte(d.r, at(d))))
	})
	vEnsures("kept", func() bool { return grown(old, vBuf(&d.buf), d, n) })
	vEnsures("no name", func() bool {
		return vImplies(!ok && d.err == nil, at(d) == n && d.nextByte >= 0 && !inName(vInByte(d.r, n)))
	})
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil && d.err != io.EOF }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("the reader's error", func() bool {
		return vImplies(vOld(func() bool { return d.err == nil }) && d.err != nil && vGhostErr(d.r) != io.EOF, vSame(d.err, vGhostErr(d.r)))
	})
	vEnsures("an error is no end of input", func() bool {
		return vImplies(vOld(func() bool { return d.err == nil }) && d.err != nil, d.err != io.EOF)
	})
	return ok
}

// grown: s is old followed by the bytes consumed since position n.
func grown(old, s string, d *Decoder, n int) bool {
	return len(s) == len(old)+at(d)-n && vForall(0, len(old), func(i int) bool { return s[i] == old[i] }) &&
		vForall(len(old), len(s), func(i int) bool { return int(s[i]) == vInByte(d.r, n+i-len(old)) })
}

//verif:inv conReadName
func invReadName(d *Decoder) bool {
	return grown(vEntry(func() string { return vBuf(&d.buf) }), vBuf(&d.buf), d, vEntry(func() int { return at(d) })) &&
		vForall(vEntry(func() int { return at(d) }), at(d), func(i int) bool { return inName(vInByte(d.r, i)) })
}

//verif:variant conReadName
func varReadName(d *Decoder) int { return vInLen(d.r) - at(d) }

// interned: the names kept are themselves.
func interned(d *Decoder) bool {
	return (d.nameIntern == nil || !vSame(d.nameIntern, d.ns)) && vForallStr(func(k string) bool {
		v, ok := d.nameIntern[k]
		return vImplies(ok, v == k)
	})
}

func nsOf(d *Decoder, p string) string { return d.ns[p] }
func hasNs(d *Decoder, p string) bool  { _, ok := d.ns[p]; return ok }

//verif:contract (*Decoder).internBytes
//verif:prop C18 C19
func conInternBytes(d *Decoder, b []byte) string {
	vRequires(func() bool { return d != nil && interned(d) })
	vModifies("map:map[string]string")
	vModifiesAt(&d.nameIntern)
	text := vBytes(b)
	s := d.internBytes(b)
	vEnsures("the same text", func() bool { return s == text })
	vEnsures("interned", func() bool { return interned(d) })
	vEnsures("same bindings", func() bool {
		return vForallStr(func(p string) bool {
			return nsOf(d, p) == vOld(func() string { return nsOf(d, p) }) && hasNs(d, p) == vOld(func() bool { return hasNs(d, p) })
		})
	})
	return s
}

//verif:contract (*Decoder).name
//verif:prop C18 C19
func conNameOf(d *Decoder) (string, bool) {
	vRequires(func() bool { return ready(d) })
	vRequires(func() bool { return interned(d) })
	vModifies("map:map[string]string")
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, &d.nameIntern, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved), vAt[string]("buf", &d.buf))
	n, k := at(d), skew(d)
	s, ok := d.name()
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("interned", func() bool { return interned(d) })
	vEnsures("same bindings", func() bool {
		return vForallStr(func(p string) bool {
			return nsOf(d, p) == vOld(func() string { return nsOf(d, p) }) && hasNs(d, p) == vOld(func() bool { return hasNs(d, p) })
		})
	})
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("a name", func() bool { return vImplies(ok, d.err == nil && validName(s)) })
	vEnsures("the text read", func() bool {
		return vImplies(ok, len(s) == at(d)-n && vForall(0, len(s), func(i int) bool { return int(s[i]) == vInByte(d.r, n+i) }))
	})
	vEnsures("all of it", func() bool { return vImplies(ok, n < at(d) && d.nextByte >= 0 && !inName(vInByte(d.r, at(d)))) })
	vEnsures("no name", func() bool { return vImplies(!ok && d.err == nil, at(d) == n && !inName(vInByte(d.r, n))) })
	vEnsures("never back", func() bool { return n <= at(d) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil && d.err != io.EOF }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("an error is no end of input", func() bool {
		return vImplies(vOld(func() bool { return d.err == nil }) && d.err != nil, d.err != io.EOF)
	})
	return s, ok
}

//verif:contract (*Decoder).nsname
//verif:prop C18 C19
func conNsname(d *Decoder) (Name, bool) {
	vRequires(func() bool { return ready(d) })
	vRequires(func() bool { return interned(d) })
	vModifies("map:map[string]string")
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, &d.nameIntern, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved), vAt[string]("buf", &d.buf))
	n, k := at(d), skew(d)
	name, ok := d.nsname()
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("interned", func() bool { return interned(d) })
	vEnsures("same bindings", func() bool {
		return vForallStr(func(p string) bool {
			return nsOf(d, p) == vOld(func() string { return nsOf(d, p) }) && hasNs(d, p) == vOld(func() bool { return hasNs(d, p) })
		})
	})
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("prefix and name", func() bool {
		i := len(name.Space)
		return vImplies(ok, d.err == nil && vImplies(i == 0, at(d) == n+len(name.Local) && same(name.Local, d, n)) &&
			vImplies(i > 0, at(d) == n+i+1+len(name.Local) && same(name.Space, d, n) && vInByte(d.r, n+i) == ':' && same(name.Local, d, n+i+1)))
	})
	vEnsures("one colon at most", func() bool { return vImplies(ok, name.Local != "" && !colon(name.Space) && !colon(name.Local)) })
	vEnsures("all of it", func() bool { return vImplies(ok, n < at(d) && d.nextByte >= 0 && !inName(vInByte(d.r, at(d)))) })
	vEnsures("never back", func() bool { return n <= at(d) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return d.err != nil && d.err != io.EOF }), vSame(d.err, vOld(func() error { return d.err })))
	})
	vEnsures("an error is no end of input", func() bool {
		return vImplies(vOld(func() bool { return d.err == nil }) && d.err != nil, d.err != io.EOF)
	})
	return name, ok
}

func colon(s string) bool { return vExists(0, len(s), func(i int) bool { return s[i] == ':' }) }

// same: the bytes of the input from n on are those of s.
func same(s string, d *Decoder, n int) bool {
	return vForall(0, len(s), func(i int) bool { return int(s[i]) == vInByte(d.r, n+i) })
}

// legal: s is UTF-8 and holds XML characters only.
//
//verif:rec depth=1
func legal(s string) bool {
	if s == "" {
		return true
	}
	r, w := vRuneAt(s, 0)
	return !(r == 0xFFFD && w == 1) && xmlChar(rune(r)) && legal(s[w:])
}

//verif:join
//verif:contract (*Decoder).text
//verif:prop C18 C19
func conText(d *Decoder, quote int, cdata bool) []byte {
	vRequires(func() bool { return ready(d) && -1 <= quote && quote < 256 && vImplies(cdata, quote == -1) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved), vAt[string]("buf", &d.buf))
	n, k := at(d), skew(d)
	data := d.text(quote, cdata)
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("never back", func() bool { return n <= at(d) })
	vEnsures("error", func() bool { return vImplies(data == nil, d.err != nil) })
	vEnsures("XML characters", func() bool { return vImplies(data != nil, legal(vBytes(data))) })
	vEnsures("only the end of the input is passed over", func() bool {
		return vImplies(data != nil && d.err != nil && quote >= 0, d.err == io.EOF || vOld(func() bool { return d.err != nil }))
	})
	vEnsures("a CDATA section ends", func() bool { return vImplies(data != nil && cdata, d.err == nil) })
	vEnsures("up to the quote", func() bool {
		return vImplies(data != nil && d.err == nil && quote >= 0, n < at(d) && vInByte(d.r, at(d)-1) == quote)
	})
	vEnsures("up to the tag", func() bool {
		return vImplies(data != nil && d.err == nil && quote < 0 && !cdata, d.nextByte == '<')
	})
	vEnsures("up to ]]>", func() bool {
		return vImplies(data != nil && cdata, n+3 <= at(d) && vInByte(d.r, at(d)-1) == '>' && vInByte(d.r, at(d)-2) == ']' && vInByte(d.r, at(d)-3) == ']')
	})
	vEnsures("progress", func() bool {
		return vImplies(data != nil && d.err == nil && vInByte(d.r, n) != '<', n < at(d))
	})
	return data
}

//verif:inv conText
func invText(d *Decoder) bool {
	return ready(d) && skew(d) == vEntry(func() int { return skew(d) }) && at(d) >= vEntry(func() int { return at(d) }) &&
		vImplies(vEntry(func() bool { return d.err == nil }), d.err == nil) && vImplies(vEntry(func() bool { return d.err != nil }), d.err != nil && at(d) == vEntry(func() int { return at(d) }))
}

//verif:inv conText
func invTextLast(d *Decoder, b0, b1 byte) bool {
	return vImplies(b1 != 0, vEntry(func() int { return at(d) }) < at(d) && int(b1) == vInByte(d.r, at(d)-1) && d.nextByte < 0) && vImplies(b0 != 0, vEntry(func() int { return at(d) }) <= at(d)-2 && int(b0) == vInByte(d.r, at(d)-2))
}

//verif:inv conText
func invTextKept(d *Decoder, b0, b1 byte) bool {
	return vImplies(b1 == ']', 1 <= len(vBuf(&d.buf))) && vImplies(b0 == ']' && b1 == ']', 2 <= len(vBuf(&d.buf)))
}

//verif:inv conText
func invTextDigits(d *Decoder, b byte) bool {
	return d.nextByte < 0 && 1 <= at(d) && int(b) == vInByte(d.r, at(d)-1)
}

//verif:inv conText
func invTextStart(d *Decoder, before, start int) bool {
	return 0 <= before && before < start && start <= len(vBuf(&d.buf))
}

//verif:inv conText
func invTextLegal(buf, data []byte) bool { return legal(vBytes(buf)) == legal(vBytes(data)) }

//verif:variant conText
func varText(d *Decoder) int { return vInLen(d.r) - at(d) }

//verif:variant conText
func varTextRunes(buf []byte) int { return len(buf) }

//verif:contract (*Decoder).attrval
//verif:prop C18 C19
func conAttrval(d *Decoder) []byte {
	vRequires(func() bool { return ready(d) })
	vModifiesAt(&d.err, &d.nextByte, &d.line, &d.linestart, &d.offset, vAt[int]("read", d.r), vAt[error]("err", d.r), vAt[string]("buf", d.saved), vAt[string]("buf", &d.buf))
	n, k := at(d), skew(d)
	data := d.attrval()
	vEnsures("ready", func() bool { return ready(d) })
	vEnsures("offset", func() bool { return skew(d) == k })
	vEnsures("never back", func() bool { return n <= at(d) })
	vEnsures("error", func() bool { return vImplies(data == nil, d.err != nil) })
	vEnsures("quoted in strict mode", func() bool {
		q := vInByte(d.r, n)
		return vImplies(data != nil && d.Strict, q == '"' || q == '\'') && vImplies(data != nil && d.err == nil && (q == '"' || q == '\''), n+2 <= at(d) && vInByte(d.r, at(d)-1) == q)
	})
	vEnsures("a bracket is not part of a value without quotes", func() bool {
		return vImplies(data != nil && vInByte(d.r, n) != '"' && vInByte(d.r, n) != '\'', vForall(n, at(d), func(i int) bool { return inName(vInByte(d.r, i)) }))
	})
	return data
}

//verif:inv conAttrval
func invAttrval(d *Decoder) bool {
	return ready(d) && skew(d) == vEntry(func() int { return skew(d) }) && at(d) >= vEntry(func() int { return at(d) }) && d.err == nil &&
		vForall(vEntry(func() int { return at(d) }), at(d), func(i int) bool { return inName(vInByte(d.r, i)) })
}

//verif:variant conAttrval
func varAttrval(d *Decoder) int { return vInLen(d.r) - at(d) }
