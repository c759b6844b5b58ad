package mpd_test

import (
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func c10elems(l string) []string {
	if l == "" {
		return nil
	}
	var out []string
	s := 0
	for i := 0; i <= len(l); i++ {
		if i == len(l) || l[i] == ',' {
			out = append(out, l[s:i])
			s = i + 1
		}
	}
	return out
}

func TestVerifC10(t *testing.T) {
	vhRun(t, "profiles added again and again, among them prefixes, suffixes and substrings of each other", func(h *vh) {
		al := []string{"a", "b", "ab", "ba", "aab", "aba", "abab", "A", " a", "a ", "urn:mpeg:dash:profile:full:2011", "urn:mpeg:dash:profile:full:201", "profile", "é"}
		for h.More() {
			l := ""
			for i := h.Intn(5); i > 0; i-- {
				if l != "" {
					l += ","
				}
				l += al[h.Intn(len(al))]
				if h.Intn(12) == 0 {
					l += ","
				}
			}
			for k := 0; k < 5; k++ {
				p := al[h.Intn(len(al))]
				switch es := c10elems(l); h.Intn(4) {
				case 0:
					p = strings.ReplaceAll(h.Lit(), ",", "")
				case 1: // a near miss of an element
					if len(es) > 0 {
						p = es[h.Intn(len(es))]
						if a := h.Intn(len(p) + 1); h.Intn(2) == 0 {
							p = p[:a]
						} else if a < len(p) {
							p = p[a:]
						}
						if h.Intn(4) == 0 {
							p += al[h.Intn(len(al))]
						}
					}
				}
				h.Case("%q add %q", l, p)
				got := string(mpd.ListOfProfilesType(l).AddProfile(p))
				in := false
				for _, e := range c10elems(l) {
					if e == p {
						in = true
					}
				}
				want := l
				if !in {
					want = l + "," + p
					if l == "" {
						want = p
					}
				}
				h.Check(got == want, "got %q, want %q", got, want)
				l = got
			}
		}
	})
}
