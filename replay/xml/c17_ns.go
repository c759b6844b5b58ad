package xml_test

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/xml"
)

const (
	nsXML   = "http://www.w3.org/XML/1998/namespace"
	nsXMLNS = "http://www.w3.org/2000/xmlns/"
)

var c17tag = regexp.MustCompile(`^<([^ >/]+)((?: [^ =>]+="[^"]*")*)>$`)
var c17attr = regexp.MustCompile(` ([^ =>]+)="([^"]*)"`)

// scope of one written start tag
type c17scope struct {
	decl map[string]string
}

func c17lookup(st []c17scope, p string) (string, bool) {
	switch p {
	case "xml":
		return nsXML, true
	case "xmlns":
		return nsXMLNS, true
	}
	for i := len(st) - 1; i >= 0; i-- {
		if u, ok := st[i].decl[p]; ok {
			return u, true
		}
	}
	return "", false
}

func TestVerifC17(t *testing.T) {
	vhRun(t, "random trees of start tokens with namespaces, preferred prefixes and explicit declarations that clash and shadow; every written tag is read with an independent scope model", func(h *vh) {
		uris := []string{"urn:1", "urn:2", "urn:3", "http://e/p", "http://f/p", "http://f/p/", "http://g/xmlp", nsXML, "urn:1/x:y", "http://e/1p", "http://e/ü", "u/_", "v/_", "/"}
		pres := []string{"", "", "p", "q", "xml", "XmlX", "_", "p_1", "a.b", "1x", "r"}
		un := strings.NewReplacer("&#34;", `"`, "&amp;", "&", "&#39;", "'", "&lt;", "<", "&gt;", ">", "&#x9;", "\t", "&#xA;", "\n")
		for h.More() {
			var b bytes.Buffer
			e := xml.NewEncoder(&b)
			var st []c17scope
			var log strings.Builder
			type opened struct{ nm xml.Name }
			var open []opened
			for n := 1 + h.Intn(8); n > 0; n-- {
				if len(open) > 0 && h.Intn(3) == 0 {
					o := open[len(open)-1]
					fmt.Fprintf(&log, "end; ")
					h.Case("%s", log.String())
					h.Check(e.EncodeToken(xml.EndElement{Name: xml.Name{Space: o.nm.Space, Local: c17local(o.nm.Local)}}) == nil, "end refused")
					open, st = open[:len(open)-1], st[:len(st)-1]
					e.Flush()
					continue
				}
				pick := func(elem bool) xml.Name {
					var nm xml.Name
					nm.Local = []string{"a", "b", "c", "d"}[h.Intn(4)]
					if h.Intn(3) > 0 {
						nm.Space = uris[h.Intn(len(uris))]
						if elem && nm.Space == nsXML {
							nm.Space = "urn:1"
						}
						if p := pres[h.Intn(len(pres))]; p != "" && h.Intn(2) == 0 {
							nm.Local = p + ":" + nm.Local
						}
					}
					return nm
				}
				s := xml.StartElement{Name: pick(true)}
				seen := map[string]bool{}
				used := map[string]bool{}
				for k := h.Intn(5); k > 0; k-- {
					if h.Intn(4) == 0 {
						p := []string{"p", "q", "r", "p_1", "_", "xmlp", "1"}[h.Intn(7)]
						if used[p] {
							continue
						}
						used[p] = true
						u := uris[h.Intn(len(uris))]
						if h.Intn(12) == 0 {
							u = nsXMLNS
						}
						s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Space: nsXMLNS, Local: p}, Value: u})
						continue
					}
					a := xml.Attr{Name: pick(false), Value: []string{"", "v", "<&\">"}[h.Intn(3)]}
					_, l := c16splitNS(a.Name.Local)
					if seen[a.Name.Space+" "+l] {
						continue
					}
					seen[a.Name.Space+" "+l] = true
					s.Attr = append(s.Attr, a)
				}
				if s.Name.Space != "" && h.Intn(6) == 0 {
					s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: s.Name.Space})
				}
				fmt.Fprintf(&log, "start %q %q; ", s.Name, s.Attr)
				h.Case("%s", log.String())
				from := b.Len()
				err := e.EncodeToken(s)
				e.Flush()
				out := b.String()[from:]
				h.Check(err == nil, "%v", err)
				m := c17tag.FindStringSubmatch(out)
				h.Check(m != nil, "wrote %q", out)
				sc := c17scope{map[string]string{}}
				type at struct{ p, l, v string }
				var ats []at
				names := map[string]bool{}
				for _, x := range c17attr.FindAllStringSubmatch(m[2], -1) {
					h.Check(!names[x[1]], "attribute %s twice in %q", x[1], out)
					names[x[1]] = true
					v := un.Replace(x[2])
					switch {
					case x[1] == "xmlns":
						sc.decl[""] = v
					case strings.HasPrefix(x[1], "xmlns:"):
						p := x[1][6:]
						// xml may be declared, as what it is
						h.Check(!strings.EqualFold(p[:min(3, len(p))], "xml") || p == "xml" && v == nsXML, "reserved prefix %q declared in %q", p, out)
						h.Check((v != nsXML || p == "xml") && v != nsXMLNS, "reserved namespace declared in %q", out)
						h.Check(v != "", "prefix %q bound to nothing in %q", p, out)
						sc.decl[p] = v
					default:
						p, l := "", x[1]
						if i := strings.IndexByte(l, ':'); i >= 0 {
							p, l = l[:i], l[i+1:]
						}
						ats = append(ats, at{p, l, v})
					}
				}
				// preferred prefixes are used when nothing else has them
				st = append(st, sc)
				open = append(open, opened{s.Name})
				// element name
				p, l := "", m[1]
				if i := strings.IndexByte(l, ':'); i >= 0 {
					p, l = l[:i], l[i+1:]
				}
				want, wl := c16splitNS(s.Name.Local)
				h.Check(l == wl, "element %q written as %q", s.Name, out)
				if p != "" && s.Name.Space != "" {
					u, ok := c17lookup(st, p)
					h.Check(ok, "prefix %q of the element is not declared: %q in %q", p, out, b.String())
					h.Check(u == s.Name.Space, "element of namespace %q written with prefix %q bound to %q: %q in %q", s.Name.Space, p, u, out, b.String())
				}
				if p == "" && s.Name.Space != "" {
					u, ok := c17lookup(st, "")
					h.Check(ok && u == s.Name.Space, "element of namespace %q written without prefix, default namespace %q: %q in %q", s.Name.Space, u, out, b.String())
				}
				_ = want
				// attributes
				i := 0
				for _, a := range s.Attr {
					if a.Name.Space == nsXMLNS || a.Name.Space == "" && a.Name.Local == "xmlns" {
						continue
					}
					h.Check(i < len(ats), "attributes missing in %q", out)
					g := ats[i]
					i++
					_, wl := c16splitNS(a.Name.Local)
					h.Check(g.l == wl && g.v == a.Value, "attribute %q written as %q: %q", a, g, out)
					if a.Name.Space != "" {
						h.Check(g.p != "", "attribute of namespace %q without prefix: %q", a.Name.Space, out)
						u, ok := c17lookup(st, g.p)
						h.Check(ok, "prefix %q of an attribute is not declared: %q in %q", g.p, out, b.String())
						h.Check(u == a.Name.Space, "attribute of namespace %q written with prefix %q bound to %q: %q in %q", a.Name.Space, g.p, u, out, b.String())
					}
				}
				h.Check(i == len(ats), "more attributes than given: %q", out)
			}
			// the preferred prefix is used when it is free
			for _, p := range []string{"p", "q1", "a-b"} {
				b.Reset()
				e = xml.NewEncoder(&b)
				u := uris[h.Intn(7)]
				h.Case("preferred %s for %s", p, u)
				e.EncodeToken(xml.StartElement{Name: xml.Name{Space: u, Local: p + ":e"}, Attr: []xml.Attr{{Name: xml.Name{Space: u, Local: p + ":k"}, Value: "v"}}})
				e.Flush()
				want := fmt.Sprintf(`<%s:e xmlns:%s="%s" %s:k="v">`, p, p, u, p)
				h.Check(b.String() == want, "wrote %q, want %q", b.String(), want)
				b.Reset()
				e = xml.NewEncoder(&b)
				e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "e"}, Attr: []xml.Attr{{Name: xml.Name{Space: u, Local: p + ":k"}, Value: "v"}, {Name: xml.Name{Space: u, Local: p + ":l"}, Value: "v"}}})
				e.Flush()
				want = fmt.Sprintf(`<e xmlns:%s="%s" %s:k="v" %s:l="v">`, p, u, p, p)
				h.Check(b.String() == want, "wrote %q, want %q", b.String(), want)
			}
		}
	})
}

func c16splitNS(s string) (string, string) {
	i := strings.IndexByte(s, ':')
	if i < 1 || i > len(s)-2 {
		return "", s
	}
	return s[:i], s[i+1:]
}

func c17local(s string) string {
	_, l := c16splitNS(s)
	return l
}
