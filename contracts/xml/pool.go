package xml

import (
	"bufio"
	"io"
)

// C13: what is in the pool is like new, and what comes out of it is too.

// blank: an encoder that has written nothing and remembers nothing.
func blank(p *Encoder) bool {
	return p != nil && p.p.w != nil && p.p.encoder == p && p.p.seq == 0 && p.p.indent == "" && p.p.prefix == "" && p.p.depth == 0 &&
		!p.p.indentedIn && !p.p.putNewline && len(p.p.elements) == 0 && !p.p.closed && p.p.err == nil &&
		vGhostStr("wout", p.p.w) == "" && vGhostStr("wsent", p.p.w) == "" && vGhostErr(p.p.w) == nil
}

// poolInv is asked of everything that is put into the pool and assumed of what
// is taken out of it.
func poolInv(p *Encoder) bool {
	return blank(p) && vSame(vWriter(p.p.w), io.Discard)
}

//verif:contract NewEncoder
//verif:prop C13
//verif:fresh 0
func conNewEncoder(w io.Writer) *Encoder {
	e := NewEncoder(w)
	vEnsures("blank", func() bool { return blank(e) })
	vEnsures("writer", func() bool { return vSame(vWriter(e.p.w), w) })
	return e
}

//verif:contract AcquireEncoder
//verif:prop C13
//verif:fresh 0
func conAcquireEncoder(w io.Writer) *Encoder {
	vModifies("$dst", "$str:wout", "$str:wsent", "$err")
	e := AcquireEncoder(w)
	vEnsures("blank", func() bool { return blank(e) })
	vEnsures("writer", func() bool { return vSame(vWriter(e.p.w), w) })
	return e
}

// The obligation is in the call of Put.
//
//verif:contract ReleaseEncoder
//verif:prop C13
func conReleaseEncoder(enc *Encoder) {
	vRequires(func() bool { return enc != nil && enc.p.w != nil && enc.p.encoder == enc })
	w := enc.p.w
	vModifiesAt(&enc.p, vAt[string]("wout", w), vAt[string]("wsent", w), vAt[error]("err", w), vAt[io.Writer]("dst", w))
	ReleaseEncoder(enc)
}

// The pool makes new encoders with this function.
//
//verif:contract encoderPool.New
//verif:prop C13
func conPoolNew() any {
	e := vTarget[any]()
	vEnsures("like new", func() bool { p, ok := e.(*Encoder); return ok && poolInv(p) })
	return e
}

//verif:contract (*Encoder).Indent
//verif:prop C13
func conEncoderIndent(enc *Encoder, prefix, indent string) {
	vRequires(func() bool { return enc != nil })
	vModifiesAt(&enc.p.prefix, &enc.p.indent)
	enc.Indent(prefix, indent)
	vEnsures("set", func() bool { return enc.p.prefix == prefix && enc.p.indent == indent })
}

var _ *bufio.Writer
