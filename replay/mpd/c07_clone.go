package mpd_test

import (
	"reflect"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// reach collects the addresses of everything reachable: pointer targets and
// slice storage.
func reach(v reflect.Value, set map[uintptr]string, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if _, ok := set[v.Pointer()]; ok && v.Elem().Kind() != reflect.Struct {
			return
		}
		set[v.Pointer()] = path
		reach(v.Elem(), set, path)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				reach(v.Field(i), set, path+"."+f.Name)
			}
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			set[v.Pointer()] = path
		}
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), set, path+"[]")
		}
	}
}

// attrs gives slices of attributes some content (fill leaves names empty).
func c07check(h *vh, orig, clone any, what string) {
	d := desc(orig)
	h.Check(desc(clone) == d, "%s: the copy is %s", what, cut(desc(clone), 3000))
	so, sc := map[uintptr]string{}, map[uintptr]string{}
	reach(reflect.ValueOf(orig), so, "")
	reach(reflect.ValueOf(clone), sc, "")
	for a, p := range sc {
		if q, ok := so[a]; ok {
			h.Check(false, "%s: %s of the copy is stored where %s of the original is", what, p, q)
		}
	}
	// change either and look at the other
	if h.Intn(2) == 0 {
		h.scribbleLeaves(reflect.ValueOf(clone))
		h.Check(desc(orig) == d, "%s: changing the copy changed the original to %s", what, cut(desc(orig), 3000))
	} else {
		h.scribbleLeaves(reflect.ValueOf(orig))
		h.Check(desc(clone) == d, "%s: changing the original changed the copy to %s", what, cut(desc(clone), 3000))
	}
}

func (h *vh) scribbleLeaves(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			h.scribbleLeaves(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				h.scribbleLeaves(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			h.scribbleLeaves(v.Index(i))
		}
	default:
		if v.CanSet() {
			h.scribble(v, 1)
		}
	}
}

func TestVerifC07(t *testing.T) {
	vhRun(t, "generated trees with every field filled at random, cloned at each level; addresses of both compared, then one of the two changed everywhere", func(h *vh) {
		for h.More() {
			m := h.tree(1+h.Intn(3), []float64{0.1, 0.3, 0.7}[h.Intn(3)])
			if h.Intn(4) > 0 {
				m.SetParents()
			}
			h.Case("tree %s", cut(desc(m), 3000))
			a := h.adaptationSet(2, 0.3)
			par := &mpd.Period{}
			a.SetParent(par)
			ac := a.Clone()
			h.Check(a.Parent() == par, "AdaptationSet.Clone changed the parent of the original")
			h.Check(ac.Parent() == nil || ac.Parent() != par, "the cloned adaptation set links to the original's period")
			h.linksAS(ac, "AdaptationSet.Clone")
			c07check(h, a, ac, "AdaptationSet.Clone")
			p := h.period(2, 0.3)
			p.SetParent(m)
			p.SetParents()
			pc := p.Clone()
			h.Check(p.Parent() == m, "Period.Clone changed the parent of the original")
			h.Check(pc.Parent() != m, "the cloned period links to the original's MPD")
			h.linksPeriod(pc, "Period.Clone")
			h.linksPeriod(p, "original of Period.Clone")
			c07check(h, p, pc, "Period.Clone")
			c := mpd.Clone(m)
			h.linksMPD(c, "Clone")
			c07check(h, m, c, "Clone")
		}
	})
}
