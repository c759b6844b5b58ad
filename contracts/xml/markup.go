package xml

import (
	"io"
)

// C15: markup that holds its content verbatim.

// cdataFrom is o followed by s with every "]]>" split between two sections.
//
//verif:rec depth=1
func cdataFrom(o, s string) string {
	i := vIndex(s, "]]>")
	if i < 0 {
		return o + s
	}
	return cdataFrom(o+s[:i]+"]]]]><![CDATA[>", s[i+3:])
}

//verif:contract emitCDATA
//verif:prop C15
func conEmitCDATA(w io.Writer, s []byte) error {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	text, out := vBytes(s), vOut(w)
	err := emitCDATA(w, s)
	vEnsures("nothing for no text", func() bool { return vImplies(len(text) == 0, err == nil && vOut(w) == out) })
	vEnsures("sections", func() bool {
		return vImplies(err == nil && len(text) > 0, vOut(w) == cdataFrom(out+"<![CDATA[", text)+"]]>")
	})
	vEnsures("every failed write is reported", func() bool {
		return vImplies(vGhostInt("fails", w) != vOld(func() int { return vGhostInt("fails", w) }), err != nil)
	})
	return err
}

//verif:inv conEmitCDATA
func invEmitCDATA(w io.Writer, s, s0 []byte) bool {
	return vGhostInt("fails", w) == vEntry(func() int { return vGhostInt("fails", w) }) &&
		cdataFrom(vOut(w), vBytes(s)) == cdataFrom(vEntry(func() string { return vOut(w) }), vBytes(s0))
}

//verif:variant conEmitCDATA
func varEmitCDATA(s []byte) int { return len(s) }

// balanced: from byte i on, outside quotes and comments, every < has its >, and
// every quote and comment ends. depth < are open; quote is the open quote;
// comment is where the text of the open comment starts, or -1.
//
//verif:rec depth=1
func balanced(s string, i, depth int, quote byte, comment int) bool {
	if i >= len(s) {
		return depth == 0 && quote == 0 && comment < 0
	}
	c := s[i]
	if comment >= 0 {
		if c == '>' && i-2 >= comment && s[i-2] == '-' && s[i-1] == '-' {
			return balanced(s, i+1, depth, quote, -1)
		}
		return balanced(s, i+1, depth, quote, comment)
	}
	if quote != 0 {
		if c == quote {
			return balanced(s, i+1, depth, 0, -1)
		}
		return balanced(s, i+1, depth, quote, -1)
	}
	if c == '\'' || c == '"' {
		return balanced(s, i+1, depth, c, -1)
	}
	if c == '<' {
		if i+4 < len(s) && s[i+1] == '!' && s[i+2] == '-' && s[i+3] == '-' {
			return balanced(s, i+1, depth, 0, i+4)
		}
		return balanced(s, i+1, depth+1, 0, -1)
	}
	if c == '>' {
		return depth > 0 && balanced(s, i+1, depth-1, 0, -1)
	}
	return balanced(s, i+1, depth, 0, -1)
}

//verif:contract isValidDirective
//verif:prop C15
func conIsValidDirective(dir Directive) bool {
	vRequires(func() bool { return len(dir) < 1<<62 })
	ok := isValidDirective(dir)
	vEnsures("balanced", func() bool { return ok == balanced(vBytes(dir), 0, 0, 0, -1) })
	return ok
}

//verif:inv conIsValidDirective
func invDirective(dir Directive, i, depth int, inquote uint8, incomment bool, comment int) bool {
	k := -1
	if incomment {
		k = comment
	}
	return balanced(vBytes(dir), 0, 0, 0, -1) == balanced(vBytes(dir), i, depth, inquote, k)
}

//verif:inv conIsValidDirective
func invDirectiveRange(dir Directive, i, depth int, inquote uint8, incomment bool, comment int) bool {
	return 0 <= i && 0 <= depth && depth <= i && i <= len(dir) && vImplies(incomment, 4 <= comment && inquote == 0)
}

//verif:contract (*Encoder).EncodeToken
//verif:prop C15
//verif:nouse
func conEncodeComment(enc *Encoder, t Comment) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifiesAt(&enc.p.err, vAt[string]("out", &enc.p), vAt[string]("wout", enc.p.w), vAt[string]("wsent", enc.p.w), vAt[error]("err", enc.p.w))
	out, text := vOut(&enc.p), vBytes(t)
	err := enc.EncodeToken(t)
	bad := vContains(text, "-->")
	vEnsures("what would end the comment is refused", func() bool { return vImplies(bad, err != nil && vOut(&enc.p) == out) })
	vEnsures("verbatim", func() bool { return vImplies(!bad, vOut(&enc.p) == out+"<!--"+text+"-->") })
	vEnsures("nothing else is refused", func() bool { return vImplies(!bad, vSame(err, enc.p.err)) })
	return err
}

//verif:contract (*Encoder).EncodeToken
//verif:prop C15
//verif:nouse
func conEncodeProcInst(enc *Encoder, t ProcInst) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifiesAt(&enc.p.err, vAt[string]("out", &enc.p), vAt[string]("wout", enc.p.w), vAt[string]("wsent", enc.p.w), vAt[error]("err", enc.p.w))
	out, inst := vOut(&enc.p), vBytes(t.Inst)
	started := enc.p.w.Buffered() != 0
	err := enc.EncodeToken(t)
	bad := !validName(t.Target) || vContains(inst, "?>") || t.Target == "xml" && started
	vEnsures("what would end the instruction is refused, and so is a target that is no name", func() bool { return vImplies(bad, err != nil && vOut(&enc.p) == out) })
	vEnsures("verbatim", func() bool {
		text := out + "<?" + t.Target
		if inst != "" {
			text += " " + inst
		}
		return vImplies(!bad, vOut(&enc.p) == text+"?>")
	})
	vEnsures("nothing else is refused", func() bool { return vImplies(!bad, vSame(err, enc.p.err)) })
	return err
}

//verif:contract (*Encoder).EncodeToken
//verif:prop C15
//verif:nouse
func conEncodeDirective(enc *Encoder, t Directive) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil && len(t) < 1<<62 })
	vModifiesAt(&enc.p.err, vAt[string]("out", &enc.p), vAt[string]("wout", enc.p.w), vAt[string]("wsent", enc.p.w), vAt[error]("err", enc.p.w))
	out, text := vOut(&enc.p), vBytes(t)
	err := enc.EncodeToken(t)
	bad := !balanced(text, 0, 0, 0, -1)
	vEnsures("what would end the directive is refused", func() bool { return vImplies(bad, err != nil && vOut(&enc.p) == out) })
	vEnsures("verbatim", func() bool { return vImplies(!bad, vOut(&enc.p) == out+"<!"+text+">") })
	vEnsures("nothing else is refused", func() bool { return vImplies(!bad, vSame(err, enc.p.err)) })
	return err
}

// Text goes through escapeText, whose writer is the printer here.
//
//verif:contract escapeText
//verif:prop C14
//verif:nouse
func conEscapeTextPrinter(p *printer, s []byte, escapeNewline bool) error {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("out", p), vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	text, out := vBytes(s), vOut(p)
	err := escapeText(p, s, escapeNewline)
	vEnsures("escaped", func() bool { return vImplies(err == nil, vOut(p) == escFrom(out, text, 0, false, escapeNewline)) })
	vEnsures("the printer's error", func() bool { return vImplies(err != nil, vSame(err, p.err)) })
	vEnsures("in step", func() bool { return vImplies(vOld(func() bool { return inStep(p) }), inStep(p)) })
	return err
}

//verif:contract (*Encoder).EncodeToken
//verif:prop C14
//verif:nouse
//verif:use conEscapeTextPrinter
func conEncodeCharData(enc *Encoder, t CharData) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifiesAt(&enc.p.err, vAt[string]("out", &enc.p), vAt[string]("wout", enc.p.w), vAt[string]("wsent", enc.p.w), vAt[error]("err", enc.p.w))
	out, text := vOut(&enc.p), vBytes(t)
	err := enc.EncodeToken(t)
	vEnsures("escaped", func() bool { return vImplies(err == nil, vOut(&enc.p) == escFrom(out, text, 0, false, false)) })
	return err
}

//verif:inv conEscapeTextPrinter
func invEscapeTextPrinter(p *printer, s []byte, escapeNewline bool, last, i int) bool {
	return 0 <= last && last <= i && i <= len(s) &&
		escFrom(vOut(p)+vBytes(s)[last:i], vBytes(s), i, false, escapeNewline) == escFrom(vEntry(func() string { return vOut(p) }), vBytes(s), 0, false, escapeNewline)
}

//verif:inv conEscapeTextPrinter
func invEscapeTextStep(p *printer) bool {
	return vImplies(vEntry(func() bool { return inStep(p) }), inStep(p))
}
