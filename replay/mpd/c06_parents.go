package mpd_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func TestVerifC06(t *testing.T) {
	vhRun(t, "generated trees, linked, appended to, cloned, written and read; every link at every level and the content before and after compared", func(h *vh) {
		dir := os.Getenv("VERIF_TMP")
		if dir == "" {
			dir = t.TempDir()
		}
		file := filepath.Join(dir, "c06.mpd")
		for h.More() {
			m := h.tree(1, 0.05)
			d0 := desc(m)
			h.Case("tree %s", cut(d0, 3000))
			m.SetParents()
			h.linksMPD(m, "MPD.SetParents")
			h.Check(desc(m) == d0, "MPD.SetParents changed the content: %s", desc(m))
			if len(m.Periods) > 0 {
				p := m.Periods[h.Intn(len(m.Periods))]
				q := h.period(1, 0.05)
				dq := desc(q)
				q.SetParents()
				h.linksPeriod(q, "Period.SetParents")
				h.Check(q.Parent() == nil && desc(q) == dq, "Period.SetParents changed the period")
				c := p.Clone()
				h.linksPeriod(c, "Period.Clone")
				h.linksMPD(m, "original after Period.Clone")
				h.Check(desc(c) == desc(p), "Period.Clone: %s", desc(c))
			}
			a := h.adaptationSet(1, 0.05)
			da := desc(a)
			a.SetParents()
			h.linksAS(a, "AdaptationSet.SetParents")
			h.Check(a.Parent() == nil && desc(a) == da, "AdaptationSet.SetParents changed the set")
			ac := a.Clone()
			h.linksAS(ac, "AdaptationSet.Clone")
			h.linksAS(a, "original after AdaptationSet.Clone")
			r := h.representation(1, 0.05)
			dr := desc(r)
			r.SetParents()
			h.linksRep(r, "Representation.SetParents")
			h.Check(r.Parent() == nil && desc(r) == dr, "Representation.SetParents changed the representation")
			c := mpd.Clone(m)
			h.linksMPD(c, "Clone")
			h.linksMPD(m, "original after Clone")
			// appending, also where the slice has room left
			for k := 0; k < 4; k++ {
				c06append(h, m)
			}
			h.linksMPD(m, "after appending")
			s, err := m.WriteToString("", false)
			if err != nil {
				continue
			}
			g, err := mpd.ReadFromString(s)
			if err == nil {
				h.linksMPD(g, "ReadFromString")
			}
			g, err = mpd.MPDFromBytes([]byte(s))
			if err == nil {
				h.linksMPD(g, "MPDFromBytes")
			}
			if h.Intn(8) == 0 {
				if os.WriteFile(file, []byte(s), 0o644) == nil {
					g2, err2 := mpd.ReadFromFile(file)
					h.Check((err2 == nil) == (err == nil), "ReadFromFile: %v, MPDFromBytes: %v", err2, err)
					if err2 == nil {
						h.linksMPD(g2, "ReadFromFile")
						h.Check(desc(g2) == desc(g), "ReadFromFile and MPDFromBytes differ")
					}
				}
			}
		}
	})
}

func c06append(h *vh, m *mpd.MPD) {
	d := desc(m)
	if h.Intn(3) == 0 || len(m.Periods) == 0 {
		p := h.period(1, 0.05)
		n := append([]*mpd.Period{}, m.Periods...)
		dp := desc(p)
		m.AppendPeriod(p)
		h.Check(len(m.Periods) == len(n)+1 && m.Periods[len(n)] == p && p.Parent() == m && desc(p) == dp, "AppendPeriod")
		for i := range n {
			h.Check(m.Periods[i] == n[i], "AppendPeriod changed period %d", i)
		}
		x := *m
		x.Periods = n
		h.Check(desc(&x) == d, "AppendPeriod changed something else")
		p.SetParents()
		return
	}
	p := m.Periods[h.Intn(len(m.Periods))]
	if h.Intn(3) == 0 || len(p.AdaptationSets) == 0 {
		a := h.adaptationSet(1, 0.05)
		n := append([]*mpd.AdaptationSetType{}, p.AdaptationSets...)
		da := desc(a)
		p.AppendAdaptationSet(a)
		h.Check(len(p.AdaptationSets) == len(n)+1 && p.AdaptationSets[len(n)] == a && a.Parent() == p && desc(a) == da, "AppendAdaptationSet")
		for i := range n {
			h.Check(p.AdaptationSets[i] == n[i], "AppendAdaptationSet changed set %d", i)
		}
		full := p.AdaptationSets
		p.AdaptationSets = n
		h.Check(desc(m) == d, "AppendAdaptationSet changed something else")
		p.AdaptationSets = full
		a.SetParents()
		return
	}
	a := p.AdaptationSets[h.Intn(len(p.AdaptationSets))]
	if h.Intn(3) == 0 || len(a.Representations) == 0 {
		r := h.representation(1, 0.05)
		n := append([]*mpd.RepresentationType{}, a.Representations...)
		dr := desc(r)
		a.AppendRepresentation(r)
		h.Check(len(a.Representations) == len(n)+1 && a.Representations[len(n)] == r && r.Parent() == a && desc(r) == dr, "AppendRepresentation")
		for i := range n {
			h.Check(a.Representations[i] == n[i], "AppendRepresentation changed representation %d", i)
		}
		full := a.Representations
		a.Representations = n
		h.Check(desc(m) == d, "AppendRepresentation changed something else")
		a.Representations = full
		r.SetParents()
		return
	}
	r := a.Representations[h.Intn(len(a.Representations))]
	s := mpd.NewSubRepresentation()
	s.Bandwidth = 7
	n := append([]*mpd.SubRepresentationType{}, r.SubRepresentations...)
	r.AppendSubRepresentation(s)
	h.Check(len(r.SubRepresentations) == len(n)+1 && r.SubRepresentations[len(n)] == s && s.Parent() == r && s.Bandwidth == 7, "AppendSubRepresentation")
	for i := range n {
		h.Check(r.SubRepresentations[i] == n[i], "AppendSubRepresentation changed sub-representation %d", i)
	}
	full := r.SubRepresentations
	r.SubRepresentations = n
	h.Check(desc(m) == d, "AppendSubRepresentation changed something else")
	r.SubRepresentations = full
}
