package xml_test

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/xml"
)

// c16split: prefix and name of a qualified name as the encoder understands it.
func c16split(s string) (string, string) {
	i := strings.IndexByte(s, ':')
	if i < 1 || i > len(s)-2 {
		return "", s
	}
	return s[:i], s[i+1:]
}

type c16elem struct {
	name, prefix, space string // prefix as written
	mark                bool
}

type c16run struct {
	h     *vh
	b     *bytes.Buffer
	e     *xml.Encoder
	stack []c16elem
	log   strings.Builder
	depth int
}

func (r *c16run) case_() { r.h.Case("%s", r.log.String()) }

// step encodes one random token and compares with the model.
func (r *c16run) step() {
	h := r.h
	locals := []string{"a", "b", "p:a", "q:a", "p:b", ":a", "a:", "a:b:c", "", "x"}
	spaces := []string{"", "", "urn:1", "urn:2"}
	nm := xml.Name{Space: spaces[h.Intn(4)], Local: locals[h.Intn(len(locals))]}
	r.e.Flush()
	before := r.b.Len()
	switch k := h.Intn(12); {
	case k < 5: // start
		t := xml.StartElement{Name: nm}
		for n := h.Intn(3); n > 0; n-- {
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Space: spaces[h.Intn(4)], Local: locals[h.Intn(len(locals))]}, Value: "v"})
		}
		if h.Intn(5) == 0 && nm.Space != "" {
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: nm.Space})
		}
		if h.Intn(5) == 0 {
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: "z"}, Value: "urn:1"})
		}
		fmt.Fprintf(&r.log, "start %v; ", t)
		r.case_()
		err := r.e.EncodeToken(t)
		r.e.Flush()
		out := r.b.String()[before:]
		if nm.Local == "" {
			h.Check(err != nil && out == "", "a nameless start: %q %v", out, err)
			return
		}
		h.Check(err == nil, "%v", err)
		out = strings.TrimLeft(out, "\n #")
		h.Check(strings.HasPrefix(out, "<") && strings.HasSuffix(out, ">"), "wrote %q", out)
		tag := out[1:strings.IndexAny(out, " >")]
		_, local := c16split(nm.Local)
		pre := ""
		if tag != local {
			h.Check(strings.HasSuffix(tag, ":"+local), "wrote %q for %v", out, nm)
			pre = strings.TrimSuffix(tag, ":"+local)
		}
		r.stack = append(r.stack, c16elem{local, pre, nm.Space, false})
	case k < 11: // end
		if h.Intn(3) > 0 && len(r.stack) > 0 {
			top := r.stack[len(r.stack)-1]
			nm = xml.Name{Space: top.space, Local: top.name}
			if top.prefix != "" && h.Intn(2) == 0 {
				nm.Local = top.prefix + ":" + top.name
			}
			if h.Intn(8) == 0 {
				nm.Space = spaces[h.Intn(4)]
			}
			if h.Intn(8) == 0 {
				nm.Local = "r:" + top.name
			}
		}
		fmt.Fprintf(&r.log, "end %v; ", nm)
		r.case_()
		err := r.e.EncodeToken(xml.EndElement{Name: nm})
		r.e.Flush()
		out := r.b.String()[before:]
		pre, local := c16split(nm.Local)
		ok := len(r.stack) > 0
		if ok {
			top := r.stack[len(r.stack)-1]
			ok = !top.mark && nm.Local != "" && local == top.name && nm.Space == top.space && (pre == "" || top.prefix == "" || pre == top.prefix)
		}
		if !ok {
			h.Check(err != nil && out == "", "accepted: %q %v, open elements %v", out, err, r.stack)
			return
		}
		top := r.stack[len(r.stack)-1]
		want := "</" + top.name + ">"
		if top.prefix != "" {
			want = "</" + top.prefix + ":" + top.name + ">"
		}
		h.Check(err == nil && strings.TrimLeft(out, "\n #") == want, "wrote %q %v, want %q", out, err, want)
		r.stack = r.stack[:len(r.stack)-1]
	default:
		fmt.Fprintf(&r.log, "text; ")
		r.case_()
		h.Check(r.e.EncodeToken(xml.CharData("t")) == nil, "text refused")
	}
}

type c16m struct{ f func(e *xml.Encoder) error }

func (m c16m) MarshalXML(e *xml.Encoder, start xml.StartElement) error { return m.f(e) }

func TestVerifC16(t *testing.T) {
	vhRun(t, "random sequences of start, end and text tokens over a few names, prefixes and namespaces, with and without indentation, inside and outside of marshalers, compared with a stack model", func(h *vh) {
		for h.More() {
			var b bytes.Buffer
			r := &c16run{h: h, b: &b, e: xml.NewEncoder(&b)}
			if h.Intn(4) == 0 {
				fmt.Fprintf(&r.log, "indent; ")
				r.e.Indent("#", " ")
			}
			n := h.Intn(14)
			for i := 0; i < n; i++ {
				r.step()
				if h.Intn(12) == 0 {
					// a marshaler cannot close what it did not open, and must close what it opened
					fmt.Fprintf(&r.log, "marshaler{ ")
					outer := r.stack
					r.stack = append(append([]c16elem{}, outer...), c16elem{mark: true})
					depth := len(r.stack)
					bad := h.Intn(6) == 0
					left := 0
					err := r.e.Encode(c16m{func(e *xml.Encoder) error {
						for k := h.Intn(6); k > 0; k-- {
							r.step()
						}
						left = len(r.stack) - depth
						if bad {
							return errors.New("bad")
						}
						return nil
					}})
					fmt.Fprintf(&r.log, "} ")
					r.case_()
					h.Check((err != nil) == (bad || left != 0), "marshaler left %d open: %v", left, err)
					if err != nil {
						// the encoding has failed, the elements stay open
						cerr := r.e.Close()
						h.Check(cerr != nil || len(r.stack) == 0, "Close accepts elements left open by a failed marshaler: %s", b.String())
						r.stack = nil
						i = n
						r.e = nil
						break
					}
					r.stack = outer
				}
			}
			if r.e == nil {
				continue
			}
			fmt.Fprintf(&r.log, "close")
			r.case_()
			err := r.e.Close()
			h.Check((err != nil) == (len(r.stack) > 0), "Close with %d open elements: %v", len(r.stack), err)
			h.Check(r.e.Close() == nil, "second Close")
			before := b.Len()
			h.Check(r.e.EncodeToken(xml.CharData("x")) != nil, "a closed encoder encodes")
			r.e.Flush()
			h.Check(b.Len() == before, "a closed encoder writes")
			if len(r.stack) == 0 {
				depth := 0
				for s := b.String(); s != ""; {
					i := strings.IndexByte(s, '<')
					if i < 0 {
						break
					}
					if s[i+1] == '/' {
						depth--
					} else {
						depth++
					}
					h.Check(depth >= 0, "unbalanced %q", b.String())
					s = s[i+1:]
				}
				h.Check(depth == 0, "unbalanced %q", b.String())
			}
		}
	})
}
