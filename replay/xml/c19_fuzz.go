package xml_test

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/xml"
)

// c19reader delivers the document byte by byte and counts; it fails with err at the end.
type c19reader struct {
	s   string
	n   int
	err error
}

func (r *c19reader) ReadByte() (byte, error) {
	if r.n >= len(r.s) {
		return 0, r.err
	}
	r.n++
	return r.s[r.n-1], nil
}

func (r *c19reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	b, err := r.ReadByte()
	if err != nil {
		return 0, err
	}
	p[0] = b
	return 1, nil
}

// c19chunks is a plain reader with pieces of random size, the last one together with the error or before it.
type c19chunks struct {
	s    string
	h    *vh
	err  error
	join bool
}

func (r *c19chunks) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, r.err
	}
	n := copy(p, r.s[:1+r.h.Intn(min(len(r.s), 1+r.h.Intn(9)))])
	r.s = r.s[n:]
	if r.s == "" && r.join {
		return n, r.err
	}
	return n, nil
}

type c19tok struct {
	t         xml.Token
	off       int64
	line, col int
}

type c19run struct {
	toks []c19tok
	err  error
	off  int64
}

func c19all(h *vh, d *xml.Decoder, raw bool, limit int) c19run {
	var r c19run
	for {
		var t xml.Token
		var err error
		if raw {
			t, err = d.RawToken()
		} else {
			t, err = d.Token()
		}
		r.off = d.InputOffset()
		if err != nil {
			r.err = err
			h.Check(t == nil, "token %v together with an error %v", t, err)
			return r
		}
		h.Check(t != nil, "neither token nor error")
		l, c := d.InputPos()
		r.toks = append(r.toks, c19tok{xml.CopyToken(t), r.off, l, c})
		h.Check(len(r.toks) <= limit, "more than %d tokens: no end", limit)
	}
}

type c19any struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	C       string     `xml:",comment"`
	Kids    []*c19any  `xml:",any"`
}

type c19self struct {
	Kid *c19self
}

func (s *c19self) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	type plain struct {
		Kid *c19self `xml:"a"`
	}
	var p plain
	err := d.DecodeElement(&p, &start)
	s.Kid = p.Kid
	return err
}

type c19rec struct {
	A *c19rec `xml:"a"`
}

type c19mix struct {
	XMLName xml.Name `xml:"a"`
	K       *int     `xml:"k,attr"`
	L       []string `xml:"l,attr"`
	M       *bool    `xml:"m,attr"`
	P       *float64 `xml:"b>c>d"`
	Q       []uint8  `xml:"b>e"`
	In      string   `xml:",innerxml"`
	R       []c19mix `xml:"c"`
	S       struct {
		T string `xml:",cdata"`
	} `xml:"d"`
	U [2]string `xml:"u"`
}

func c19doc(h *vh) string {
	parts := []string{"<a>", "</a>", "<a/>", "<b k='1'>", "</b>", "<a k=\"1\" l='x'", ">", "/>", "<", "/", "&lt;", "&amp;", "&#65;", "&#x41;", "&#", "&#x;", "&#1114112;", "&#0;", "&x;", "&", ";",
		"<!--", "-->", "--", "<!-- c -->", "<![CDATA[", "]]>", "]]", "<![CDATA[x]]>", "<?", "?>", "<?go x?>", "<?xml version='1.0'?>", "<?xml version=\"1.1\"?>", "<?xml version='1.0' encoding='latin1'?>", "<?xml encoding='UTF-8'?>",
		"<!DOCTYPE a [<!ENTITY e '<'>]>", "<!D", "<!", "'", "\"", "=", " ", "\n", "\r\n", "\r", "\t", "x", "text", "é", "\xff", "\xe2\x82", "\x00", "\x0b", "\ufffe", "\U0001F600", "p:", ":a", "a:b:c", "xmlns='u'", "xmlns:p='u'", "xmlns:p=''", "xmlns:=''",
		"<c><d>1</d></c>", "<b><c><d>1.5</d></c><e>zz</e></b>", "<u>1</u>", "<d>t</d>", "<p:a>", "</p:a>", "<!--<x>-->", "<!A <!-- > --> >", "<!A '>' >", "<a ", "<a k", "<a k=", "<a k=v>", "<a k='"}
	var b strings.Builder
	if h.Intn(3) == 0 {
		g := &c19treegen{h: h}
		g.elem(4)
		s := g.b.String()
		for n := h.Intn(3); n > 0; n-- {
			i := h.Intn(len(s) + 1)
			switch h.Intn(4) {
			case 0:
				s = s[:i] + parts[h.Intn(len(parts))] + s[i:]
			case 1:
				j := min(len(s), i+1+h.Intn(3))
				s = s[:i] + s[j:]
			case 2:
				s = s[:i] + string([]byte{byte(h.Intn(256))}) + s[i:]
			case 3:
				s = s[:i] + h.Lit() + s[i:]
			}
		}
		return s
	}
	for n := 1 + h.Intn(14); n > 0; n-- {
		b.WriteString(parts[h.Intn(len(parts))])
	}
	return b.String()
}

type c19treegen struct {
	h *vh
	b strings.Builder
}

func (g *c19treegen) elem(depth int) {
	h := g.h
	n := []string{"a", "b", "c", "d", "e", "u", "p:a"}[h.Intn(7)]
	g.b.WriteString("<" + n)
	for k, j := range h.Perm(5)[:h.Intn(4)] {
		fmt.Fprintf(&g.b, " %s=%q", []string{"k", "l", "m", "xmlns:p", "p:k"}[j], []string{"1", "true", "v", "&gt;", "x\ny"}[(k+h.Intn(5))%5])
	}
	if h.Intn(5) == 0 {
		g.b.WriteString("/>")
		return
	}
	g.b.WriteString(">")
	for k := h.Intn(4); k > 0 && depth > 0; k-- {
		g.b.WriteString([]string{"", "\n", "1", " t > ", "&#10;", "<!--c-->", "<![CDATA[<]]>", "<?t i?>", "é€"}[h.Intn(9)])
		g.elem(depth - 1)
	}
	g.b.WriteString("</" + n + ">")
}

func c19sametoks(h *vh, what string, a, b c19run) {
	for i := range min(len(a.toks), len(b.toks)) {
		h.Check(reflect.DeepEqual(a.toks[i], b.toks[i]), "%s: token %d is %#v, else %#v", what, i, b.toks[i], a.toks[i])
	}
	h.Check(len(a.toks) == len(b.toks), "%s: %d tokens, else %d", what, len(b.toks), len(a.toks))
	h.Check(fmt.Sprint(a.err) == fmt.Sprint(b.err) && a.off == b.off, "%s: ends with %v at %d, else %v at %d", what, b.err, b.off, a.err, a.off)
}

var c19empty = regexp.MustCompile(`xmlns:[^ =]*\s*=\s*(''|"")|xmlns:\s*=|xmlns:[^ '"=]*=[^'"]`)

// c19bad: the characters before the failure are an error themselves.
func c19bad(s string, err error) bool {
	if strings.Contains(err.Error(), "illegal character code") {
		return true
	}
	if strings.Contains(err.Error(), "empty ") && c19empty.MatchString(s) {
		return true
	}
	for n := 0; n < 4 && n <= len(s); n++ {
		if r := s[len(s)-n:]; n > 0 && utf8.RuneStart(r[0]) && !utf8.FullRuneInString(r) {
			s = s[:len(s)-n]
			break
		}
	}
	return !utf8.ValidString(s)
}

var errC19 = errors.New("c19: disk on fire")

func TestVerifC19(t *testing.T) {
	vhRun(t, "random and damaged documents, whole, byte by byte and in random pieces, with read failures at random places: tokens, errors, offsets and positions are compared; decoding into several types ends; deep nesting is refused", func(h *vh) {
		for h.More() {
			doc := c19doc(h)
			strict := h.Intn(3) > 0
			raw := h.Intn(3) == 0
			ent := h.Intn(4) == 0
			mk := func(r io.Reader) *xml.Decoder {
				d := xml.NewDecoder(r)
				d.Strict = strict
				if !strict {
					d.AutoClose = []string{"b", "c"}
				}
				if ent {
					d.Entity = map[string]string{"x": "", "e": "<b>"}
				}
				return d
			}
			h.Case("strict %v raw %v ent %v: %q", strict, raw, ent, doc)
			limit := 4*len(doc) + 8
			cr := &c19reader{s: doc, err: io.EOF}
			d := mk(cr)
			full := c19all(h, d, raw, limit)
			lag := int64(cr.n) - full.off
			h.Check(lag == 0 || lag == 1, "offset %d after %d bytes read", full.off, cr.n)
			_, err := d.Token()
			h.Check(err != nil, "token after an error")
			// positions
			prev := int64(0)
			for i, tk := range full.toks {
				h.Check(tk.off >= prev && tk.off <= int64(len(doc)), "offset goes from %d to %d", prev, tk.off)
				line := 1 + strings.Count(doc[:tk.off], "\n")
				col := int(tk.off) - (strings.LastIndexByte(doc[:tk.off], '\n') + 1) + 1
				h.Check(tk.line == line && tk.col == col, "position %d:%d at offset %d, want %d:%d", tk.line, tk.col, tk.off, line, col)
				if raw && strict && tk.off > prev && tk.off < int64(len(doc)) {
					e := mk(strings.NewReader(doc[prev:tk.off]))
					t1, err := e.RawToken()
					h.Check(err == nil && reflect.DeepEqual(xml.CopyToken(t1), tk.t), "bytes %d to %d (%q) are %#v %v, read as %#v", prev, tk.off, doc[prev:tk.off], t1, err, tk.t)
				}
				if tk.off == prev && (raw || strict) {
					_, end := tk.t.(xml.EndElement)
					h.Check(end, "token %d without consuming: %#v", i, tk.t)
				}
				prev = tk.off
			}
			// chunking
			c19sametoks(h, "in pieces", full, c19all(h, mk(&c19chunks{doc, h, io.EOF, h.Intn(2) == 0}), raw, limit))
			c19sametoks(h, "strings.Reader", full, c19all(h, mk(strings.NewReader(doc)), raw, limit))
			c19sametoks(h, "small buffer", full, c19all(h, mk(bufio.NewReaderSize(&c19chunks{doc, h, io.EOF, false}, 16)), raw, limit))
			// read failure
			k := h.Intn(len(doc) + 1)
			var r io.Reader = &c19reader{s: doc[:k], err: errC19}
			if h.Intn(2) == 0 {
				r = &c19chunks{doc[:k], h, errC19, h.Intn(2) == 0}
			}
			fail := c19all(h, mk(r), raw, limit)
			if !errors.Is(fail.err, errC19) && !c19bad(doc[:k], fail.err) {
				h.Check(fail.off <= int64(k) && fmt.Sprint(fail.err) == fmt.Sprint(full.err) && full.off <= int64(k), "read failure after %d bytes reported as %v", k, fail.err)
			}
			// decoding into types
			for j := range 5 {
				d := mk(&c19chunks{doc, h, []error{io.EOF, errC19}[h.Intn(2)], false})
				var err error
				switch j {
				case 0:
					err = d.Decode(&c19any{})
				case 1:
					err = d.Decode(&c19mix{})
				case 2:
					err = d.Decode(&c19self{})
				case 3:
					err = d.Decode(new(any))
				case 4:
					err = d.Decode(new([]string))
				}
				if err == nil {
					_, ok := any(err).(error)
					_ = ok
				}
			}
			if h.Intn(4000) == 0 {
				n := []int{4000, 20000, 400000}[h.Intn(3)]
				deep := strings.Repeat("<a>", n) + strings.Repeat("</a>", n)
				h.Case("%d nested elements", n)
				h.Crashy()
				for j := range 4 {
					var err error
					switch j {
					case 0:
						err = xml.Unmarshal([]byte(deep), &c19any{})
					case 1:
						err = xml.Unmarshal([]byte(deep), &c19rec{})
					case 2:
						err = xml.Unmarshal([]byte(deep), &c19self{})
					case 3:
						err = xml.Unmarshal([]byte(deep), &struct{}{})
						h.Check(err == nil, "skipping %d elements: %v", n, err)
						continue
					}
					h.Check((err == nil) == (n < 10000), "nesting of %d elements: %v", n, err)
				}
			}
		}
	})
}
