package mpd_test

import (
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// tree makes an MPD of random shape with random fields.
func (h *vh) tree(depth int, p float64) *mpd.MPD {
	m := mpd.NewMPD("static")
	h.fillOwn(reflect.ValueOf(m).Elem(), depth, p)
	for i := h.Intn(4); i > 0; i-- {
		m.Periods = append(m.Periods, h.period(depth, p))
	}
	return m
}

func (h *vh) period(depth int, p float64) *mpd.Period {
	x := &mpd.Period{}
	h.fillOwn(reflect.ValueOf(x).Elem(), depth, p)
	for i := h.Intn(4); i > 0; i-- {
		x.AdaptationSets = append(x.AdaptationSets, h.adaptationSet(depth, p))
	}
	if h.Intn(2) == 0 {
		for i := h.Intn(3); i > 0; i-- {
			x.EmptyAdaptationSets = append(x.EmptyAdaptationSets, h.adaptationSet(depth, p))
		}
	}
	return x
}

func (h *vh) adaptationSet(depth int, p float64) *mpd.AdaptationSetType {
	x := &mpd.AdaptationSetType{}
	h.fillOwn(reflect.ValueOf(x).Elem(), depth, p)
	for i := h.Intn(4); i > 0; i-- {
		x.Representations = append(x.Representations, h.representation(depth, p))
	}
	return x
}

func (h *vh) representation(depth int, p float64) *mpd.RepresentationType {
	x := &mpd.RepresentationType{}
	h.fillOwn(reflect.ValueOf(x).Elem(), depth, p)
	for i := h.Intn(4); i > 0; i-- {
		s := &mpd.SubRepresentationType{}
		h.fillOwn(reflect.ValueOf(s).Elem(), depth, p)
		x.SubRepresentations = append(x.SubRepresentations, s)
	}
	return x
}

// fillOwn fills everything except the tree links.
func (h *vh) fillOwn(v reflect.Value, depth int, p float64) {
	h.fill(v, depth, p)
	for _, n := range []string{"Periods", "AdaptationSets", "EmptyAdaptationSets", "Representations", "SubRepresentations"} {
		if f := v.FieldByName(n); f.IsValid() {
			f.SetZero()
		}
	}
}

func (h *vh) linksMPD(m *mpd.MPD, what string) {
	for i, p := range m.Periods {
		h.Check(p.Parent() == m, "%s: period %d links to %p, not to its MPD", what, i, p.Parent())
		h.linksPeriod(p, what)
	}
}

func (h *vh) linksPeriod(p *mpd.Period, what string) {
	for i, a := range p.AdaptationSets {
		h.Check(a.Parent() == p, "%s: adaptation set %d links to %p, not to its period", what, i, a.Parent())
		h.linksAS(a, what)
	}
	for i, a := range p.EmptyAdaptationSets {
		h.Check(a.Parent() == p, "%s: empty adaptation set %d links to %p, not to its period", what, i, a.Parent())
		h.linksAS(a, what)
	}
}

func (h *vh) linksAS(a *mpd.AdaptationSetType, what string) {
	for i, r := range a.Representations {
		h.Check(r.Parent() == a, "%s: representation %d links to %p, not to its adaptation set", what, i, r.Parent())
		h.linksRep(r, what)
	}
}

func (h *vh) linksRep(r *mpd.RepresentationType, what string) {
	for i, s := range r.SubRepresentations {
		h.Check(s.Parent() == r, "%s: sub-representation %d links to %p, not to its representation", what, i, s.Parent())
	}
}
