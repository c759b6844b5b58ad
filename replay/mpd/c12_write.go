package mpd_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// c12w accepts budget bytes, at most max per call, and then fails (or only
// writes short).
type c12w struct {
	got    bytes.Buffer
	budget int
	err    error
	short  bool // a short write without an error
	once   bool // only one call fails
	failed bool
	calls  int
	failAt int // fail at this call, whatever was written
}

func (w *c12w) Write(p []byte) (int, error) {
	w.calls++
	n := len(p)
	bad := w.failAt > 0 && w.calls == w.failAt
	if w.got.Len()+n > w.budget {
		n = w.budget - w.got.Len()
		bad = true
	}
	if w.once && w.failed {
		n, bad = len(p), false
	}
	if bad && w.failAt > 0 && n == len(p) && n > 0 {
		n /= 2
	}
	w.got.Write(p[:n])
	if bad && w.short && n == len(p) {
		return n, nil
	}
	if bad {
		w.failed = true
		if w.short {
			return n, nil
		}
		return n, w.err
	}
	return n, nil
}

func TestVerifC12(t *testing.T) {
	vhRun(t, "random MPDs and periods, writers that fail after any number of bytes, at any call, once or for good, with an error or a short write", func(h *vh) {
		big := errors.New("boom")
		for h.More() {
			m := h.tree(2+h.Intn(3), []float64{0.05, 0.2, 0.5}[h.Intn(3)])
			if h.Intn(6) == 0 {
				m.BaseURL = append(m.BaseURL, &mpd.BaseURLType{Value: mpd.AnyURI(bytes.Repeat([]byte("x"), 3000+h.Intn(6000)))})
			}
			indent := []string{"", " ", "\t", "  "}[h.Intn(4)]
			header := h.Intn(2) == 0
			kind := h.Intn(3)
			write := func(w io.Writer) (int, error) {
				switch {
				case kind == 0 && len(m.Periods) > 0:
					return m.Periods[0].Write(w, indent)
				case kind == 1:
					return m.Write(w, indent, header)
				}
				return mpd.WriteXML(m, w, indent, header)
			}
			var whole bytes.Buffer
			n, err := write(&whole)
			h.Case("kind %d indent %q header %v, %d bytes, MPD %s", kind, indent, header, whole.Len(), cut(desc(m), 2000))
			h.Check(err == nil, "a writer that accepts everything: %v", err)
			h.Check(n == whole.Len(), "returned %d, %d bytes were written", n, whole.Len())
			isPeriod := kind == 0 && len(m.Periods) > 0
			var s string
			if isPeriod {
				s, err = m.Periods[0].WriteToString(indent)
			} else {
				s, err = m.WriteToString(indent, header)
			}
			h.Check(err == nil && s == whole.String(), "WriteToString differs: %v\n%q\n%q", err, cut(s, 600), cut(whole.String(), 600))
			if header && !isPeriod {
				h.Check(bytes.HasPrefix(whole.Bytes(), []byte(xml.Header)), "no header: %q", cut(whole.String(), 100))
				s2, err := m.WriteToString(indent, false)
				h.Check(err == nil && xml.Header+s2 == s, "header changes the rest")
			} else {
				h.Check(!bytes.HasPrefix(whole.Bytes(), []byte("<?xml")), "header although none was asked for")
			}
			for i := 0; i < 6; i++ {
				w := &c12w{budget: 1 << 40, err: big, short: h.Intn(4) == 0, once: h.Intn(3) == 0}
				if h.Intn(2) == 0 {
					w.budget = h.Intn(whole.Len() + 1)
					switch h.Intn(4) {
					case 0:
						w.budget = h.Intn(min(len(xml.Header)+3, whole.Len()+1))
					case 1:
						w.budget = whole.Len() - h.Intn(min(whole.Len(), 3)+1)
					}
				} else {
					w.failAt = 1 + h.Intn(4)
				}
				if h.Intn(8) == 0 {
					w.err = fmt.Errorf("wrapped: %w", io.EOF)
				}
				h.Case("kind %d indent %q header %v writer budget %d failAt %d short %v once %v, MPD %s", kind, indent, header, w.budget, w.failAt, w.short, w.once, cut(desc(m), 2000))
				n, err := write(w)
				h.Check(n == w.got.Len(), "returned %d, the writer accepted %d bytes", n, w.got.Len())
				if w.failed && w.short && bytes.Equal(w.got.Bytes(), whole.Bytes()) && err == nil {
					continue // the rest was written after all
				}
				if w.failed {
					h.Check(err != nil, "no error although the writer failed after %d of %d bytes", w.got.Len(), whole.Len())
					if !w.short {
						h.Check(errors.Is(err, w.err), "error %v, the writer's is %v", err, w.err)
					}
				} else {
					h.Check(err == nil, "%v although the writer never failed", err)
					h.Check(bytes.Equal(w.got.Bytes(), whole.Bytes()), "success, but the writer got other bytes")
				}
				if !w.once {
					h.Check(bytes.HasPrefix(whole.Bytes(), w.got.Bytes()), "the writer got bytes that are no prefix of the encoding")
				}
			}
			// what cannot be encoded
			if h.Intn(10) == 0 {
				var b bytes.Buffer
				h.Case("WriteXML of a channel")
				n, err := mpd.WriteXML(make(chan int), &b, indent, header)
				h.Check(err != nil && n == b.Len(), "n %d, %d bytes, %v", n, b.Len(), err)
			}
		}
	})
}
