package xml_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/xml"
)

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff
}

// c14clean is the text with everything that is not XML text replaced.
func c14clean(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 || !xmlChar(r) {
			r = 0xfffd
		}
		b.WriteRune(r)
		i += n
	}
	return b.String()
}

// c14unescape undoes the escapes and complains about raw markup.
func c14unescape(s string, attr bool) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '<', '>', '"', '\'', '\r':
			return "", fmt.Errorf("raw %q at %d", c, i)
		case '\t', '\n':
			if attr {
				return "", fmt.Errorf("raw %q at %d", c, i)
			}
			b.WriteByte(c)
		case '&':
			j := strings.IndexByte(s[i:], ';')
			if j < 0 {
				return "", fmt.Errorf("raw & at %d", i)
			}
			e := s[i+1 : i+j]
			switch {
			case e == "amp" || e == "lt" || e == "gt" || e == "quot" || e == "apos":
				b.WriteByte(map[string]byte{"amp": '&', "lt": '<', "gt": '>', "quot": '"', "apos": '\''}[e])
			case strings.HasPrefix(e, "#x"):
				n, err := strconv.ParseUint(e[2:], 16, 21)
				if err != nil || !xmlChar(rune(n)) {
					return "", fmt.Errorf("bad reference &%s;", e)
				}
				b.WriteRune(rune(n))
			case strings.HasPrefix(e, "#"):
				n, err := strconv.ParseUint(e[1:], 10, 21)
				if err != nil || !xmlChar(rune(n)) {
					return "", fmt.Errorf("bad reference &%s;", e)
				}
				b.WriteRune(rune(n))
			default:
				return "", fmt.Errorf("bad reference &%s;", e)
			}
			i += j
		default:
			b.WriteByte(c)
		}
	}
	return b.String(), nil
}

type c14fail struct {
	n   int
	err error
}

func (w *c14fail) Write(p []byte) (int, error) {
	if w.n--; w.n < 0 {
		return 0, w.err
	}
	return len(p), nil
}

func (h *vh) c14text() string {
	var b []byte
	for n := h.Intn(14); n > 0; n-- {
		switch h.Intn(7) {
		case 0:
			b = append(b, "<>&\"'\t\n\r"[h.Intn(8)])
		case 1:
			b = append(b, "&lt;&#x9;]]>&#34;&amp"[h.Intn(10):][:h.Intn(10)]...)
		case 2:
			b = append(b, byte(h.Intn(256)))
		case 3:
			b = utf8.AppendRune(b, []rune{0, 1, 8, 9, 10, 11, 12, 13, 14, 0x1f, 0x20, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2028}[h.Intn(24)])
		case 4:
			b = append(b, "\xed\xa0\x80\xf4\x90\x80\x80\xc0\xaf\xe2\x82\xf0\x9f"[h.Intn(8):][:1+h.Intn(5)]...)
		case 5:
			b = utf8.AppendRune(b, rune(h.Intn(0x110000)))
		case 6:
			b = append(b, "abc xyz 0"[h.Intn(8):]...)
		}
	}
	return string(b)
}

func c14check(h *vh, s string) {
	h.Case("escape %q", s)
	want := c14clean(s)
	var b bytes.Buffer
	h.Check(xml.EscapeText(&b, []byte(s)) == nil, "EscapeText fails")
	out := b.String()
	u, err := c14unescape(out, false)
	h.Check(err == nil, "EscapeText gives %q: %v", out, err)
	h.Check(u == want, "EscapeText gives %q, which stands for %q", out, u)
	b.Reset()
	xml.Escape(&b, []byte(s))
	h.Check(b.String() == out, "Escape gives %q", b.String())
	// failing writers
	boom := errors.New("boom")
	w := &c14fail{h.Intn(4), boom}
	err = xml.EscapeText(w, []byte(s))
	h.Check((err == boom) == (w.n < 0), "a failing writer: %v", err)
	// through the encoder
	type doc struct {
		XMLName xml.Name `xml:"r"`
		A       string   `xml:"a,attr"`
		E       string   `xml:"e"`
		B       []byte   `xml:"b"`
		T       string   `xml:",chardata"`
	}
	b.Reset()
	e := xml.NewEncoder(&b)
	err = e.Encode(doc{A: s, E: s, B: []byte(s), T: s})
	h.Check(err == nil, "Encode: %v", err)
	o := b.String()
	part := func(from, to string) string {
		i := strings.Index(o, from)
		h.Check(i >= 0, "no %s in %q", from, o)
		o = o[i+len(from):]
		j := strings.Index(o, to)
		h.Check(j >= 0, "no %s in %q", to, o)
		p := o[:j]
		o = o[j:]
		return p
	}
	for _, x := range []struct {
		what, from, to string
		attr           bool
	}{{"attribute", `<r a="`, `">`, true}, {"element", "<e>", "</e>", false}, {"bytes", "<b>", "</b>", false}, {"text", "</b>", "</r>", false}} {
		p := part(x.from, x.to)
		u, err := c14unescape(p, x.attr)
		h.Check(err == nil && u == want, "%s written as %q: %q %v", x.what, p, u, err)
	}
	var got doc
	err = xml.Unmarshal(b.Bytes(), &got)
	h.Check(err == nil, "reading %q: %v", b.String(), err)
	h.Check(got.A == want && got.E == want && string(got.B) == want && got.T == want, "%q reads as %q", b.String(), fmt.Sprint(got))
	// tokens
	b.Reset()
	e = xml.NewEncoder(&b)
	e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "x"}, Attr: []xml.Attr{{Name: xml.Name{Local: "y"}, Value: s}}})
	e.EncodeToken(xml.CharData(s))
	e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "x"}})
	h.Check(e.Close() == nil, "Close")
	d := xml.NewDecoder(&b)
	text := ""
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		h.Check(err == nil, "token: %v", err)
		switch t := t.(type) {
		case xml.StartElement:
			h.Check(t.Attr[0].Value == want, "attribute read as %q", t.Attr[0].Value)
		case xml.CharData:
			text += string(t)
		}
	}
	h.Check(text == want, "text read as %q", text)
}

func TestVerifC14(t *testing.T) {
	vhRun(t, "every code point alone, every byte pair class, random mixes of markup, escapes, control characters, bad UTF-8 and limits of the character ranges", func(h *vh) {
		for b := 0; b < 256 && h.More(); b++ {
			c14check(h, string([]byte{byte(b)}))
			c14check(h, "a"+string([]byte{byte(b)})+"z")
		}
		// every code point, many at a time
		for r := rune(0); r < 0x110000; {
			var buf []byte
			for n := 0; n < 2048 && r < 0x110000; n++ {
				buf = utf8.AppendRune(buf, r)
				r++
			}
			h.Case("code points up to %#x", r)
			var o bytes.Buffer
			xml.EscapeText(&o, buf)
			u, err := c14unescape(o.String(), false)
			h.Check(err == nil && u == c14clean(string(buf)), "wrong escape in the block that ends at %#x: %v", r, err)
		}
		for h.More() {
			c14check(h, h.c14text())
		}
	})
}
