package xml_test

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"testing"
	"time"

	"github.com/Eyevinn/dash-mpd/xml"
)

type c13w struct {
	b      bytes.Buffer
	budget int
}

func (w *c13w) Write(p []byte) (int, error) {
	n := len(p)
	if n > w.budget {
		n = w.budget
		w.b.Write(p[:n])
		w.budget = 0
		return n, errors.New("full")
	}
	w.budget -= n
	return w.b.Write(p)
}

type c13open struct{ N int }

func (c c13open) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for i := 0; i < c.N; i++ {
		if err := e.EncodeToken(start); err != nil {
			return err
		}
	}
	return errors.New("left open")
}

type c13doc struct {
	XMLName xml.Name  `xml:"urn:d doc"`
	A       string    `xml:"urn:a a,attr"`
	B       []string  `xml:"x>b"`
	C       *c13doc   `xml:"c"`
	E       *struct{} `xml:"e"`
}

// c13use does something random with the encoder and says what it was.
func c13use(h *vh, e *xml.Encoder) string {
	s := ""
	for n := h.Intn(6); n >= 0; n-- {
		switch h.Intn(11) {
		case 0:
			p, i := []string{"", "#", "  "}[h.Intn(3)], []string{"", "\t", " "}[h.Intn(3)]
			e.Indent(p, i)
			s += fmt.Sprintf("indent(%q,%q) ", p, i)
		case 1:
			e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:x", Local: "p:open"}, Attr: []xml.Attr{{Name: xml.Name{Space: "urn:y", Local: "a"}, Value: "v"}}})
			s += "start "
		case 2:
			e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "nope"}})
			s += "badend "
		case 3:
			e.Encode(c13doc{A: "1", B: []string{"x", "y"}})
			s += "encode "
		case 4:
			e.Encode(c13open{1 + h.Intn(3)})
			s += "failing-marshaler "
		case 5:
			e.Close()
			s += "close "
		case 6:
			e.Flush()
			s += "flush "
		case 7:
			e.EncodeToken(xml.CharData(bytes.Repeat([]byte("z"), h.Intn(6000))))
			s += "text "
		case 8:
			e.Encode(make(chan int))
			s += "encode-chan "
		case 9:
			e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "q"}})
			s += "start-plain "
		case 10:
			for i := 0; i < 3; i++ {
				e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:z/p", Local: "q"}, Attr: []xml.Attr{{Name: xml.Name{Space: fmt.Sprintf("urn:%d/p", i), Local: "k"}, Value: "v"}, {Name: xml.Name{Space: "urn:w/p", Local: "k"}, Value: "v"}}})
			}
			s += "start-ns "
		}
	}
	return s
}

func c13probe(e *xml.Encoder, which int) error {
	ns := func(u, l string) xml.Name { return xml.Name{Space: u, Local: l} }
	switch which {
	case 0:
		return e.Encode(c13doc{A: "a", B: []string{"1", "2"}, C: &c13doc{A: "i"}})
	case 1:
		if err := e.EncodeToken(xml.StartElement{Name: ns("urn:1/p", "r"), Attr: []xml.Attr{{Name: ns("urn:2/p", "k"), Value: "v"}, {Name: ns("urn:3/p", "k"), Value: "v"}, {Name: ns("urn:x", "p:k"), Value: "v"}}}); err != nil {
			return err
		}
		if err := e.EncodeToken(xml.EndElement{Name: ns("urn:1/p", "r")}); err != nil {
			return err
		}
		return e.Close()
	case 2:
		return e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "open"}})
	case 3:
		return e.Close()
	case 4:
		if err := e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)}); err != nil {
			return err
		}
		return e.Flush()
	}
	e.Indent("", "  ")
	return e.Encode(c13doc{B: []string{"1", "2"}, E: &struct{}{}})
}

func TestVerifC13(t *testing.T) {
	vhRun(t, "random histories of use (indentation, open elements, failures of the writer, of a marshaler, closing) before release, then a probe compared with a new encoder", func(h *vh) {
		for h.More() {
			w := &c13w{budget: []int{0, 10, 100, 5000, 1 << 30}[h.Intn(5)]}
			fin := make(chan bool, 1)
			check := h.Intn(40) == 0
			hist := func() string {
				if check {
					runtime.SetFinalizer(w, func(*c13w) { fin <- true })
				}
				e := xml.AcquireEncoder(w)
				s := c13use(h, e)
				if h.Intn(10) == 0 {
					s += "(again)"
					e.Encode(make(chan int))
				}
				n := w.b.Len()
				xml.ReleaseEncoder(e)
				h.Check(w.b.Len() == n, "release wrote %d bytes to the caller's writer; history %s", w.b.Len()-n, s)
				return s
			}()
			if check {
				h.Case("history %s, then collect the caller's writer", hist)
				w = nil
				runtime.GC()
				select {
				case <-fin:
				case <-time.After(3 * time.Second):
					h.Check(false, "a released encoder still refers to the caller's writer")
				}
				continue
			}
			budget := 1 << 30
			if h.Intn(4) == 0 {
				budget = h.Intn(60)
			}
			which := h.Intn(6)
			h.Case("history %s(writer budget %d), probe %d with budget %d", hist, w.budget, which, budget)
			got, want := &c13w{budget: budget}, &c13w{budget: budget}
			e := xml.AcquireEncoder(got)
			err := c13probe(e, which)
			f := e.Flush()
			xml.ReleaseEncoder(e)
			ne := xml.NewEncoder(want)
			err2 := c13probe(ne, which)
			f2 := ne.Flush()
			h.Check(got.b.String() == want.b.String(), "pooled wrote\n%q\na new one writes\n%q", got.b.String(), want.b.String())
			h.Check(fmt.Sprint(err) == fmt.Sprint(err2) && fmt.Sprint(f) == fmt.Sprint(f2), "pooled %v %v, new %v %v", err, f, err2, f2)
		}
	})
}
