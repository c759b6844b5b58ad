package xml_test

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/xml"
)

type c18node struct {
	prefix, local string
	decl          [][2]string // prefix, uri in order
	attr          [][2]string // qualified name, value
	kids          []any       // *c18node, or string (text), or c18raw
	empty         bool
	id            int
	toks          [2]int // index of the start and the end token
	from, to      int    // in the document: name of the end tag
}

type c18raw string // comment etc. as written

type c18scope map[string]string

func (s c18scope) with(d [][2]string) c18scope {
	r := c18scope{}
	for k, v := range s {
		r[k] = v
	}
	for _, x := range d {
		r[x[0]] = x[1]
	}
	return r
}

func (s c18scope) name(p, l string, elem bool, deflt string) xml.Name {
	if p == "" {
		if !elem {
			return xml.Name{Local: l}
		}
		if u, ok := s[""]; ok {
			return xml.Name{Space: u, Local: l}
		}
		return xml.Name{Space: deflt, Local: l}
	}
	if p == "xml" {
		return xml.Name{Space: "http://www.w3.org/XML/1998/namespace", Local: l}
	}
	if u, ok := s[p]; ok {
		return xml.Name{Space: u, Local: l}
	}
	return xml.Name{Space: p, Local: l}
}

type c18gen struct {
	h    *vh
	doc  strings.Builder
	toks []xml.Token
	all  []*c18node
	dflt string
}

var c18pre = []string{"", "", "p", "q", "r", "xml"}

func (g *c18gen) ws() string { return []string{"", "", " ", "\n", "\t"}[g.h.Intn(5)] }

func (g *c18gen) elem(depth int, sc c18scope) *c18node {
	h := g.h
	n := &c18node{prefix: c18pre[h.Intn(5)], local: []string{"a", "b", "c", "xmlnsx"}[h.Intn(4)]}
	g.all = append(g.all, n)
	seen := map[string]bool{}
	for k := h.Intn(4); k > 0 && h.Intn(2) == 0; k-- {
		p := c18pre[h.Intn(5)]
		if seen[p] {
			continue
		}
		seen[p] = true
		u := []string{"urn:1", "urn:2", "urn:3", "p", "q", "urn:4"}[h.Intn(6)]
		if p == "" && h.Intn(4) == 0 {
			u = ""
		}
		n.decl = append(n.decl, [2]string{p, u})
	}
	in := sc.with(n.decl)
	q := n.local
	if n.prefix != "" {
		q = n.prefix + ":" + q
	}
	g.doc.WriteString("<" + q)
	st := xml.StartElement{Name: in.name(n.prefix, n.local, true, g.dflt)}
	aseen := map[string]bool{}
	dd := n.decl
	for len(dd) > 0 || h.Intn(3) > 0 {
		g.doc.WriteString([]string{" ", "\n", "  "}[h.Intn(3)])
		if len(dd) > 0 && h.Intn(2) == 0 {
			d := dd[0]
			dd = dd[1:]
			a := xml.Attr{Value: d[1]}
			if d[0] == "" {
				g.doc.WriteString("xmlns")
				a.Name.Local = "xmlns"
			} else {
				g.doc.WriteString("xmlns:" + d[0])
				a.Name = xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: d[0]}
			}
			fmt.Fprintf(&g.doc, "%s=%s\"%s\"", g.ws(), g.ws(), d[1])
			st.Attr = append(st.Attr, a)
			continue
		}
		if len(aseen) > 4 {
			continue
		}
		p, l := c18pre[h.Intn(6)], []string{"k", "l", "m"}[h.Intn(3)]
		qa := l
		if p != "" {
			qa = p + ":" + l
		}
		if aseen[qa] {
			aseen[fmt.Sprint(len(aseen))] = true
			if len(dd) == 0 {
				break
			}
			continue
		}
		aseen[qa] = true
		v := fmt.Sprint("v", h.Intn(100))
		fmt.Fprintf(&g.doc, "%s='%s'", qa, v)
		st.Attr = append(st.Attr, xml.Attr{Name: in.name(p, l, false, ""), Value: v})
	}
	g.doc.WriteString(g.ws())
	if st.Attr == nil {
		st.Attr = []xml.Attr{}
	}
	n.toks[0] = len(g.toks)
	g.toks = append(g.toks, st)
	if h.Intn(5) == 0 {
		n.empty = true
		g.doc.WriteString("/>")
	} else {
		g.doc.WriteString(">")
		for k := h.Intn(4); k > 0 && depth > 0; k-- {
			g.misc()
			g.elem(depth-1, in)
		}
		g.misc()
		n.from = g.doc.Len()
		g.doc.WriteString("</" + q)
		n.to = g.doc.Len()
		g.doc.WriteString(g.ws() + ">")
	}
	n.toks[1] = len(g.toks)
	g.toks = append(g.toks, xml.EndElement{Name: st.Name})
	return n
}

func (g *c18gen) misc() {
	switch g.h.Intn(7) {
	case 0:
		s := fmt.Sprint("t", g.h.Intn(100), " > ")
		g.doc.WriteString(s)
		g.toks = append(g.toks, xml.CharData(s))
	case 1:
		g.doc.WriteString("<!-- <a> -->")
		g.toks = append(g.toks, xml.Comment(" <a> "))
	case 2:
		g.doc.WriteString("<![CDATA[</a>]]>")
		g.toks = append(g.toks, xml.CharData("</a>"))
	case 3:
		g.doc.WriteString("<?go </a>?>")
		g.toks = append(g.toks, xml.ProcInst{Target: "go", Inst: []byte("</a>")})
	}
}

// a type that decodes itself token by token
type c18self struct {
	how  int
	toks []xml.Token
	err  error
}

func (s *c18self) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	s.toks = append(s.toks, xml.CopyToken(start))
	switch s.how {
	case 0:
		for {
			t, err := d.Token()
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			s.toks = append(s.toks, xml.CopyToken(t))
		}
	case 1:
		return d.Skip()
	}
	_, err := d.RawToken()
	if err == nil {
		s.err = fmt.Errorf("RawToken allowed inside UnmarshalXML")
	}
	return d.Skip()
}

func c18eq(a, b xml.Token) bool {
	if s, ok := a.(xml.StartElement); ok && len(s.Attr) == 0 {
		s.Attr = []xml.Attr{}
		a = s
	}
	return reflect.DeepEqual(a, b)
}

func TestVerifC18(t *testing.T) {
	vhRun(t, "random documents whose elements declare, shadow and re-declare prefixes and the default namespace; the tokens, with names from an independent scope model, are compared while tokens, Skip, DecodeElement and self-decoding types alternate; damaged documents must fail", func(h *vh) {
		for h.More() {
			g := &c18gen{h: h}
			if h.Intn(4) == 0 {
				g.dflt = "urn:default"
			}
			g.elem(1+h.Intn(5), c18scope{})
			doc := g.doc.String()
			endOf := map[int]int{}
			for _, n := range g.all {
				endOf[n.toks[0]] = n.toks[1]
			}
			h.Case("default %q: %s", g.dflt, doc)
			d := xml.NewDecoder(strings.NewReader(doc))
			d.DefaultSpace = g.dflt
			i := 0
			mode := h.Intn(3)
			for i < len(g.toks) {
				if mode > 0 && h.Intn(3) == 0 {
					if st, ok := g.toks[i].(xml.StartElement); ok && i > 0 {
						_ = st
						// consume the start token, then the rest in one go
						tk, err := d.Token()
						h.Check(err == nil && c18eq(tk, g.toks[i]), "token %d: got %v %v, want %v", i, tk, err, g.toks[i])
						s := tk.(xml.StartElement).Copy()
						end := endOf[i]
						switch h.Intn(4) {
						case 0:
							h.Check(d.Skip() == nil, "Skip failed after token %d", i)
						case 1:
							var x struct {
								XMLName xml.Name
								In      string `xml:",innerxml"`
							}
							err := d.DecodeElement(&x, &s)
							h.Check(err == nil, "DecodeElement: %v", err)
							h.Check(x.XMLName == s.Name, "decoded name %v, want %v", x.XMLName, s.Name)
						case 2:
							x := c18self{how: h.Intn(3)}
							err := d.DecodeElement(&x, &s)
							h.Check(err == nil && x.err == nil, "DecodeElement: %v %v", err, x.err)
							if x.how == 0 {
								h.Check(len(x.toks) == end-i+1, "UnmarshalXML saw %d tokens, want %d: %v", len(x.toks), end-i+1, x.toks)
								for k, tk := range x.toks {
									h.Check(c18eq(tk, g.toks[i+k]), "UnmarshalXML token %d: %v, want %v", k, tk, g.toks[i+k])
								}
							}
						case 3:
							var x struct {
								A []c18self `xml:"a"`
								B []string  `xml:"b"`
								Z []c18self `xml:",any"`
							}
							err := d.DecodeElement(&x, &s)
							h.Check(err == nil, "DecodeElement: %v", err)
						}
						i = end + 1
						continue
					}
				}
				tk, err := d.Token()
				h.Check(err == nil, "token %d: %v, want %v", i, err, g.toks[i])
				h.Check(c18eq(tk, g.toks[i]), "token %d: got %#v, want %#v", i, tk, g.toks[i])
				i++
			}
			tk, err := d.Token()
			h.Check(err == io.EOF && tk == nil, "after the document: %v %v", tk, err)
			// self-closing and valueless forms in non-strict mode end at their own bracket
			if h.Intn(4) == 0 {
				d = xml.NewDecoder(strings.NewReader("<a k><b l/>x</a>"))
				d.Strict = false
				want := []xml.Token{xml.StartElement{Name: xml.Name{Local: "a"}, Attr: []xml.Attr{{Name: xml.Name{Local: "k"}, Value: "k"}}}, xml.StartElement{Name: xml.Name{Local: "b"}, Attr: []xml.Attr{{Name: xml.Name{Local: "l"}, Value: "l"}}}, xml.EndElement{Name: xml.Name{Local: "b"}}, xml.CharData("x"), xml.EndElement{Name: xml.Name{Local: "a"}}}
				for _, w := range want {
					tk, err := d.Token()
					h.Check(err == nil && c18eq(tk, w), "valueless attribute: got %v %v, want %v", tk, err, w)
				}
			}
			// an element closed by the end tag of the one around it
			for _, n := range g.all {
				if n.empty {
					continue
				}
				e := n.to + strings.IndexByte(doc[n.to:], '>') + 1
				if !strings.HasPrefix(doc[e:], "</") {
					continue
				}
				local := func(s string) string {
					s = s[:strings.IndexAny(s, "> \t\r\n")]
					return s[strings.IndexByte(s, ':')+1:]
				}
				if local(doc[n.from+2:]) == local(doc[e+2:]) {
					continue
				}
				open := doc[:n.from] + doc[e:]
				h.Case("end tag left out: %s", open)
				d = xml.NewDecoder(strings.NewReader(open))
				d.Strict = false
				d.DefaultSpace = g.dflt
				for i := range g.toks {
					tk, err := d.Token()
					h.Check(err == nil && c18eq(tk, g.toks[i]), "token %d: got %v %v, want %v", i, tk, err, g.toks[i])
				}
				_, err := d.Token()
				h.Check(err == io.EOF, "after the document: %v", err)
				break
			}
			// damage
			var bad string
			n := g.all[h.Intn(len(g.all))]
			switch k := h.Intn(5); {
			case k == 0 || n.empty:
				cut := h.Intn(len(doc))
				bad = doc[:cut]
			case k == 1:
				bad = doc[:n.to] + "z" + doc[n.to:]
			case k == 2:
				e := n.to + strings.IndexByte(doc[n.to:], '>') + 1
				bad = doc[:n.from] + doc[e:]
			case k == 3:
				p := "z:"
				bad = doc[:n.from+2] + p + doc[n.from+2+len(n.prefix)+min(1, len(n.prefix)):]
			default:
				e := n.to + strings.IndexByte(doc[n.to:], '>') + 1
				bad = doc[:e] + doc[n.from:e] + doc[e:]
			}
			h.Case("damaged: %s", bad)
			d = xml.NewDecoder(strings.NewReader(bad))
			var last error
			got := 0
			for last == nil && got < 10*len(bad)+10 {
				_, last = d.Token()
				got++
			}
			h.Check(last != nil, "no end")
			if len(strings.TrimSpace(bad)) > 0 {
				h.Check(last != io.EOF, "damaged document accepted: %q", bad)
			}
			_, again := d.Token()
			h.Check(again != nil, "token after an error")
			d = xml.NewDecoder(strings.NewReader(bad))
			if tk, err := d.Token(); err == nil {
				if _, ok := tk.(xml.StartElement); ok {
					err := d.Skip()
					if err == nil { // trailing damage only
						for err == nil {
							_, err = d.Token()
						}
						h.Check(err != io.EOF, "Skip accepted a damaged document")
					}
				}
			}
		}
	})
}
