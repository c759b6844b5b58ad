package xml

import "reflect"

// C12, C16: the printer. vOut(p) is the text offered to the printer p; the
// contracts below show that, as long as no write failed, exactly that text was
// given to the buffered writer, and that the first error stays.

// inStep: what was offered to the printer is what the buffered writer got,
// unless a write failed.
func inStep(p *printer) bool {
	return vImplies(p.err == nil, vGhostStr("wout", p.w) == vOut(p))
}

//verif:contract (*printer).WriteString
//verif:prop C12 C16
func conPrinterWriteString(p *printer, s string) (int, error) {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	old := vOut(p)
	n, err := p.WriteString(s)
	vEnsures("error kept", func() bool { return vSame(err, p.err) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(err, vOld(func() error { return p.err })))
	})
	vEnsures("nothing after an error", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil || p.closed }), err != nil && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) }))
	})
	vEnsures("all written", func() bool {
		return vImplies(err == nil, n == len(s) && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) })+s)
	})
	vSetOut(p, old+s)
	return n, err
}

//verif:contract (*printer).Write
//verif:prop C12 C16
func conPrinterWrite(p *printer, b []byte) (int, error) {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	old := vOut(p)
	s := vBytes(b)
	n, err := p.Write(b)
	vEnsures("error kept", func() bool { return vSame(err, p.err) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(err, vOld(func() error { return p.err })))
	})
	vEnsures("nothing after an error", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil || p.closed }), err != nil && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) }))
	})
	vEnsures("all written", func() bool {
		return vImplies(err == nil, n == len(s) && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) })+s)
	})
	vSetOut(p, old+s)
	return n, err
}

//verif:contract (*printer).WriteByte
//verif:prop C12 C16
func conPrinterWriteByte(p *printer, c byte) error {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	old := vOut(p)
	s := string([]byte{c})
	err := p.WriteByte(c)
	vEnsures("error kept", func() bool { return vSame(err, p.err) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(err, vOld(func() error { return p.err })))
	})
	vEnsures("nothing after an error", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil || p.closed }), err != nil && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) }))
	})
	vEnsures("written", func() bool {
		return vImplies(err == nil, vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) })+s)
	})
	vSetOut(p, old+s)
	return err
}

//verif:contract (*printer).cachedWriteError
//verif:prop C12 C16
func conPrinterCached(p *printer) error {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	err := p.cachedWriteError()
	vEnsures("error kept", func() bool { return vSame(err, p.err) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(err, vOld(func() error { return p.err })))
	})
	vEnsures("closed", func() bool { return vImplies(p.closed, err != nil) })
	vEnsures("nothing written", func() bool {
		return vImplies(err == nil, vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) }))
	})
	return err
}

//verif:contract (*printer).Close
//verif:prop C12 C16
func conPrinterClose(p *printer) error {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.closed, vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	err := p.Close()
	vEnsures("closed", func() bool { return p.closed })
	vEnsures("again", func() bool {
		return vImplies(vOld(func() bool { return p.closed }), err == nil && vGhostStr("wsent", p.w) == vOld(func() string { return vGhostStr("wsent", p.w) }))
	})
	vEnsures("open elements", func() bool {
		return vImplies(!vOld(func() bool { return p.closed }) && len(p.elements) > 0, err != nil)
	})
	vEnsures("all sent", func() bool {
		return vImplies(!vOld(func() bool { return p.closed }) && err == nil, vGhostStr("wsent", p.w) == vGhostStr("wout", p.w) && vGhostStr("wout", p.w) == vOld(func() string { return vGhostStr("wout", p.w) }))
	})
	return err
}

//verif:contract (*Encoder).Flush
//verif:prop C12
func conEncoderFlush(enc *Encoder) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifiesAt(vAt[string]("wout", enc.p.w), vAt[string]("wsent", enc.p.w), vAt[error]("err", enc.p.w))
	err := enc.Flush()
	vEnsures("failed write reported", func() bool {
		return vImplies(vOld(func() bool { return vGhostErr(enc.p.w) != nil }), vSame(err, vOld(func() error { return vGhostErr(enc.p.w) })))
	})
	vEnsures("all sent", func() bool {
		return vImplies(err == nil, vGhostStr("wsent", enc.p.w) == vGhostStr("wout", enc.p.w) && vGhostStr("wout", enc.p.w) == vOld(func() string { return vGhostStr("wout", enc.p.w) }))
	})
	return err
}

// marshalValue and what it calls work on reflected values; what is assumed is
// only that it writes through the printer.
//
//verif:trusted (*printer).marshalValue
//verif:prop C12 C13
func conMarshalValue(p *printer, val reflect.Value, finfo *fieldInfo, start *StartElement) error {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifies("printer.err", "printer.seq", "printer.depth", "printer.indentedIn", "printer.putNewline", "printer.elements", "element.*", "$out", "$str:wout", "$str:wsent", "$err")
	return p.marshalValue(val, finfo, start)
}

//verif:contract (*Encoder).Encode
//verif:prop C12
func conEncoderEncode(enc *Encoder, v any) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifies("printer.err", "printer.seq", "printer.depth", "printer.indentedIn", "printer.putNewline", "printer.elements", "element.*", "$out", "$str:wout", "$str:wsent", "$err")
	err := enc.Encode(v)
	vEnsures("all sent", func() bool { return vImplies(err == nil, vGhostStr("wsent", enc.p.w) == vGhostStr("wout", enc.p.w)) })
	vEnsures("failed write reported", func() bool { return vImplies(err == nil, vGhostErr(enc.p.w) == nil) })
	return err
}

//verif:contract (*Encoder).EncodeElement
//verif:prop C12
func conEncoderEncodeElement(enc *Encoder, v any, start StartElement) error {
	vRequires(func() bool { return enc != nil && enc.p.w != nil })
	vModifies("printer.err", "printer.seq", "printer.depth", "printer.indentedIn", "printer.putNewline", "printer.elements", "element.*", "$out", "$str:wout", "$str:wsent", "$err")
	err := enc.EncodeElement(v, start)
	vEnsures("all sent", func() bool { return vImplies(err == nil, vGhostStr("wsent", enc.p.w) == vGhostStr("wout", enc.p.w)) })
	vEnsures("failed write reported", func() bool { return vImplies(err == nil, vGhostErr(enc.p.w) == nil) })
	return err
}
