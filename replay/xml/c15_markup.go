package xml_test

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/xml"
)

func (h *vh) c15mix(parts []string, max int) string {
	s := ""
	for n := h.Intn(max + 1); n > 0; n-- {
		s += parts[h.Intn(len(parts))]
	}
	return s
}

// c15directive: quotes closed, comments closed, angle brackets matched.
func c15directive(s string) bool {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\'':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return false
			}
			i += 1 + j
		case '<':
			if strings.HasPrefix(s[i:], "<!--") {
				j := strings.Index(s[i+4:], "-->")
				if j < 0 {
					return false
				}
				i += 4 + j + 2
				continue
			}
			depth++
		case '>':
			if depth--; depth < 0 {
				return false
			}
		}
	}
	return depth == 0
}

func c15enc(t xml.Token) (string, error) {
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	err := e.EncodeToken(t)
	e.Flush()
	return b.String(), err
}

// c15read reads one token and then the element <x/>.
func c15read(s string) (xml.Token, error) {
	d := xml.NewDecoder(strings.NewReader(s + "<x></x>"))
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	t = xml.CopyToken(t)
	u, err := d.Token()
	if err != nil {
		return nil, err
	}
	if st, ok := u.(xml.StartElement); !ok || st.Name.Local != "x" {
		return nil, fmt.Errorf("followed by %v", u)
	}
	d.Token()
	if _, err = d.Token(); err != io.EOF {
		return nil, fmt.Errorf("end: %v", err)
	}
	return t, nil
}

func isNameRef(s string) bool {
	for i, r := range s {
		ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == ':' || r == 'é'
		if i > 0 {
			ok = ok || r >= '0' && r <= '9' || r == '-' || r == '.'
		}
		if !ok {
			return false
		}
	}
	return s != ""
}

func TestVerifC15(t *testing.T) {
	vhRun(t, "contents mixed from pieces of the terminators, brackets, quotes and text, at every offset and overlap", func(h *vh) {
		end := []string{"]", "]]", "]]>", ">", "]]]]><![CDATA[>", "a", "<", "&amp;", "-", "--", "-->", "?", "?>", "é"}
		dir := []string{"<", ">", "\"", "'", "<!--", "-->", "--", "-", "!", "<!", "a", " ", "DOCTYPE", "[", "]", "<!ENTITY x \"y\">"}
		for h.More() {
			// CDATA
			s := h.c15mix(end, 12)
			if h.Intn(200) == 0 {
				s = strings.Repeat(s, 500)
			}
			h.Case("CDATA %q", s)
			type cd struct {
				XMLName xml.Name `xml:"c"`
				T       string   `xml:",cdata"`
				B       string   `xml:"b"`
			}
			out, err := xml.Marshal(cd{T: s, B: "after"})
			h.Check(err == nil, "Marshal: %v", err)
			o := string(out)
			h.Check(strings.HasPrefix(o, "<c>") && strings.HasSuffix(o, "<b>after</b></c>"), "written as %q", o)
			o = o[3 : len(o)-len("<b>after</b></c>")]
			text := ""
			for o != "" {
				h.Check(strings.HasPrefix(o, "<![CDATA["), "outside a section: %q in %q", o, out)
				j := strings.Index(o, "]]>")
				h.Check(j >= 0, "no end: %q", out)
				text += o[9:j]
				o = o[j+3:]
			}
			h.Check(text == s, "%q stands for %q", out, text)
			var back cd
			err = xml.Unmarshal(out, &back)
			h.Check(err == nil && back.T == s && back.B == "after", "reads back as %q %v", back.T, err)

			// comments
			s = h.c15mix(end, 8)
			h.Case("comment %q", s)
			o, err = c15enc(xml.Comment(s))
			if strings.Contains(s, "-->") {
				h.Check(err != nil && o == "", "accepted: %q %v", o, err)
			} else {
				h.Check(err == nil && o == "<!--"+s+"-->", "%q %v", o, err)
				if !strings.Contains(s+"-", "--") {
					tk, err := c15read(o)
					c, ok := tk.(xml.Comment)
					h.Check(err == nil && ok && string(c) == s, "read back as %T %q, %v", tk, c, err)
				}
			}
			type cs struct {
				XMLName xml.Name `xml:"c"`
				C       string   `xml:",comment"`
			}
			type cb struct {
				XMLName xml.Name `xml:"c"`
				C       []byte   `xml:",comment"`
			}
			for i := 0; i < 2; i++ {
				h.Case("comment field %q (%d)", s, i)
				if i == 0 {
					out, err = xml.Marshal(cs{C: s})
				} else {
					out, err = xml.Marshal(cb{C: []byte(s)})
				}
				if strings.Contains(s, "--") {
					h.Check(err != nil, "accepted: %q", out)
					continue
				}
				want := "<c>"
				if s != "" {
					want += "<!--" + s
					if s[len(s)-1] == '-' {
						want += " "
					}
					want += "-->"
				}
				h.Check(err == nil && string(out) == want+"</c>", "%q %v", out, err)
				var back cs
				err = xml.Unmarshal(out, &back)
				h.Check(err == nil && strings.TrimSuffix(back.C, " ") == strings.TrimSuffix(s, " "), "reads back as %q %v", back.C, err)
			}

			// processing instructions
			target := []string{"php", "a-b", "", "1x", "x y", "é", "x?", "x>", "a:b", "-a", "x\xff", "xml", "·", "a·"}[h.Intn(14)]
			s = h.c15mix(end, 8)
			h.Case("instruction %q %q", target, s)
			o, err = c15enc(xml.ProcInst{Target: target, Inst: []byte(s)})
			bad := strings.Contains(s, "?>")
			if strings.HasPrefix(target, "·") || !isNameRef(strings.ReplaceAll(target, "·", "")) {
				bad = true
			}
			if bad {
				h.Check(err != nil && o == "", "accepted: %q %v", o, err)
			} else {
				want := "<?" + target
				if s != "" {
					want += " " + s
				}
				h.Check(err == nil && o == want+"?>", "%q %v", o, err)
				if target != "xml" {
					tk, err := c15read(o)
					p, ok := tk.(xml.ProcInst)
					h.Check(err == nil && ok && p.Target == target && string(p.Inst) == strings.TrimLeft(s, " \r\n\t"), "read back as %T %v, %v", tk, tk, err)
				}
			}

			// directives
			s = h.c15mix(dir, 9)
			h.Case("directive %q", s)
			o, err = c15enc(xml.Directive(s))
			if !c15directive(s) {
				h.Check(err != nil && o == "", "accepted: %q %v", o, err)
			} else {
				h.Check(err == nil && o == "<!"+s+">", "%q %v", o, err)
				if s != "" && s[0] >= 'A' && s[0] <= 'z' && s[0] != '[' {
					tk, err := c15read(o)
					_, ok := tk.(xml.Directive)
					h.Check(err == nil && ok, "read back as %T, %v", tk, err)
				}
			}
			o, err = c15enc(nil)
			h.Check(err != nil && o == "", "a nil token: %q %v", o, err)
		}
	})
}
