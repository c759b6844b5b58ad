package mpd

import (
	"io"
	"strings"

	"github.com/Eyevinn/dash-mpd/xml"
)

// C12. Ghost state of a writer w: vOut(w) the text it accepted, "taken" the
// number of bytes it accepted, "fails" the number of writes that were not
// accepted whole (an error, or a short count).

//verif:contract (*countingWriter).Write
//verif:prop C12
func conCountingWrite(cw *countingWriter, p []byte) (int, error) {
	vRequires(func() bool { return cw != nil && cw.w != nil })
	vModifiesAt(&cw.n, vAt[string]("out", cw.w), vAt[int]("taken", cw.w), vAt[int]("fails", cw.w), vAt[error]("err", cw.w))
	n0, taken, fails := cw.n, vGhostInt("taken", cw.w), vGhostInt("fails", cw.w)
	out, s := vOut(cw.w), vBytes(p)
	vRequires(func() bool { return 0 <= n0 && n0 < 1<<61 && len(p) < 1<<61 })
	n, err := cw.Write(p)
	vEnsures("counted", func() bool { return cw.n-n0 == vGhostInt("taken", cw.w)-taken && cw.n >= n0 })
	vEnsures("count", func() bool { return n == vGhostInt("taken", cw.w)-taken && n <= len(s) })
	vEnsures("error iff the write was not accepted", func() bool {
		return vImplies(err == nil, vGhostInt("fails", cw.w) == fails && n == len(s)) && vImplies(err != nil, vGhostInt("fails", cw.w) == fails+1)
	})
	vEnsures("accepted", func() bool { return vImplies(err == nil, vOut(cw.w) == out+s) })
	return n, err
}

// The encoder as package mpd sees it: it touches its writer through Write only
// (so what countingWriter.Write keeps, it keeps), and reports a failed write.
// Package xml's own contracts establish the pieces: AcquireEncoder, Flush,
// the sticky printer error and Encode.

//verif:trusted xml.AcquireEncoder
//verif:prop C12
//verif:fresh 0
func conAcquire(w io.Writer) *xml.Encoder {
	enc := xml.AcquireEncoder(w)
	vEnsures("an encoder", func() bool { return enc != nil })
	*vAt[io.Writer]("dst", enc) = w
	return enc
}

//verif:trusted (*xml.Encoder).Indent
//verif:prop C12
func conIndent(enc *xml.Encoder, prefix, indent string) {
	vRequires(func() bool { return enc != nil })
	vModifiesAt(vAt[string]("prefix", enc), vAt[string]("indent", enc))
	enc.Indent(prefix, indent)
	vEnsures("set", func() bool { return vGhostStr("prefix", enc) == prefix && vGhostStr("indent", enc) == indent })
}

//verif:trusted (*xml.Encoder).Encode
//verif:prop C12
func conEncode(enc *xml.Encoder, v any) error {
	vRequires(func() bool { return enc != nil })
	cw, ok := vWriter(enc).(*countingWriter)
	vRequires(func() bool { return ok && cw != nil && cw.w != nil })
	vModifiesAt(&cw.n, vAt[string]("out", cw.w), vAt[int]("taken", cw.w), vAt[int]("fails", cw.w), vAt[error]("err", cw.w))
	n0, taken, fails := cw.n, vGhostInt("taken", cw.w), vGhostInt("fails", cw.w)
	out := vOut(cw.w)
	err := enc.Encode(v)
	vEnsures("counted", func() bool { return cw.n-n0 == vGhostInt("taken", cw.w)-taken && cw.n >= n0 && cw.n < 1<<61 })
	vEnsures("failures", func() bool {
		return vGhostInt("fails", cw.w) >= fails && vImplies(err == nil, vGhostInt("fails", cw.w) == fails)
	})
	vEnsures("text", func() bool {
		return vImplies(err == nil, vOut(cw.w) == out+vAppStr("xmltext", v, vGhostStr("prefix", enc), vGhostStr("indent", enc)))
	})
	return err
}

//verif:trusted (*xml.Encoder).Flush
//verif:prop C12
func conFlush(enc *xml.Encoder) error {
	vRequires(func() bool { return enc != nil })
	cw, ok := vWriter(enc).(*countingWriter)
	vRequires(func() bool { return ok && cw != nil && cw.w != nil })
	vModifiesAt(&cw.n, vAt[string]("out", cw.w), vAt[int]("taken", cw.w), vAt[int]("fails", cw.w), vAt[error]("err", cw.w))
	n0, taken, fails := cw.n, vGhostInt("taken", cw.w), vGhostInt("fails", cw.w)
	out := vOut(cw.w)
	err := enc.Flush()
	vEnsures("counted", func() bool { return cw.n-n0 == vGhostInt("taken", cw.w)-taken && cw.n >= n0 && cw.n < 1<<61 })
	vEnsures("failures", func() bool {
		return vGhostInt("fails", cw.w) >= fails && vImplies(err == nil, vGhostInt("fails", cw.w) == fails)
	})
	// Encode flushes: nothing is left
	vEnsures("text", func() bool { return vImplies(err == nil, vOut(cw.w) == out) })
	return err
}

//verif:trusted xml.ReleaseEncoder
//verif:prop C12
func conRelease(enc *xml.Encoder) {
	vRequires(func() bool { return enc != nil })
	xml.ReleaseEncoder(enc)
}

//verif:contract WriteXML
//verif:prop C12
func conWriteXML(elem any, w io.Writer, indent string, withHeader bool) (int, error) {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	out, taken, fails := vOut(w), vGhostInt("taken", w), vGhostInt("fails", w)
	n, err := WriteXML(elem, w, indent, withHeader)
	vEnsures("the count is the bytes accepted", func() bool { return n == vGhostInt("taken", w)-taken })
	vEnsures("every failed write is reported", func() bool { return vImplies(vGhostInt("fails", w) != fails, err != nil) })
	vEnsures("everything reached the writer", func() bool {
		text := vAppStr("xmltext", elem, "", indent)
		return vImplies(err == nil, vImplies(withHeader, vOut(w) == out+xml.Header+text) && vImplies(!withHeader, vOut(w) == out+text))
	})
	return n, err
}

//verif:contract (*MPD).Write
//verif:prop C12
func conMPDWrite(m *MPD, w io.Writer, indent string, withHeader bool) (int, error) {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	out, taken, fails := vOut(w), vGhostInt("taken", w), vGhostInt("fails", w)
	n, err := m.Write(w, indent, withHeader)
	vEnsures("the count is the bytes accepted", func() bool { return n == vGhostInt("taken", w)-taken })
	vEnsures("every failed write is reported", func() bool { return vImplies(vGhostInt("fails", w) != fails, err != nil) })
	vEnsures("everything reached the writer", func() bool {
		text := vAppStr("xmltext", m, "", indent)
		return vImplies(err == nil, vImplies(withHeader, vOut(w) == out+xml.Header+text) && vImplies(!withHeader, vOut(w) == out+text))
	})
	return n, err
}

//verif:contract (*MPD).WriteToString
//verif:prop C12
func conMPDWriteToString(m *MPD, indent string, withHeader bool) (string, error) {
	s, err := m.WriteToString(indent, withHeader)
	vEnsures("the bytes of Write", func() bool {
		text := vAppStr("xmltext", m, "", indent)
		return vImplies(err == nil, vImplies(withHeader, s == xml.Header+text) && vImplies(!withHeader, s == text))
	})
	vEnsures("nothing on error", func() bool { return vImplies(err != nil, s == "") })
	return s, err
}

//verif:contract (*Period).Write
//verif:prop C12
func conPeriodWrite(p *Period, w io.Writer, indent string) (int, error) {
	vRequires(func() bool { return w != nil })
	vModifiesAt(vAt[string]("out", w), vAt[int]("taken", w), vAt[int]("fails", w), vAt[error]("err", w))
	out, taken, fails := vOut(w), vGhostInt("taken", w), vGhostInt("fails", w)
	n, err := p.Write(w, indent)
	vEnsures("the count is the bytes accepted", func() bool { return n == vGhostInt("taken", w)-taken })
	vEnsures("every failed write is reported", func() bool { return vImplies(vGhostInt("fails", w) != fails, err != nil) })
	vEnsures("everything reached the writer", func() bool {
		return vImplies(err == nil, vOut(w) == out+vAppStr("xmltext", p, "", indent))
	})
	return n, err
}

//verif:contract (*Period).WriteToString
//verif:prop C12
func conPeriodWriteToString(p *Period, indent string) (string, error) {
	s, err := p.WriteToString(indent)
	vEnsures("the bytes of Write", func() bool { return vImplies(err == nil, s == vAppStr("xmltext", p, "", indent)) })
	vEnsures("nothing on error", func() bool { return vImplies(err != nil, s == "") })
	return s, err
}

var _ = strings.Contains
