package mpd_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func TestVerifC09(t *testing.T) {
	vhRun(t, "segment bases from sizes, often at the limits of 32 bits; timescales set and read back", func(h *vh) {
		for h.More() {
			is, xs := uint32(h.edge(32, false)), uint32(h.edge(32, false))
			if is == 0 {
				is = 1 + uint32(h.Intn(2000))
			}
			if xs == 0 {
				xs = 1 + uint32(h.Intn(2000))
			}
			exact := h.Intn(2) == 0
			r := mpd.NewRepresentation()
			r.Id = "r"
			if h.Intn(2) == 0 {
				r.SegmentBase = &mpd.SegmentBaseType{IndexRange: "1-2", IndexRangeExact: true, Timescale: mpd.Ptr(uint32(7))}
			}
			h.Case("SetSegmentBase(%d, %d, %v), earlier base %s", is, xs, exact, desc(r.SegmentBase))
			r.SetSegmentBase(is, xs, exact)
			want := &mpd.SegmentBaseType{IndexRange: fmt.Sprintf("%d-%d", is, uint64(is)+uint64(xs)-1), IndexRangeExact: exact,
				Initialization: &mpd.URLType{Range: fmt.Sprintf("0-%d", is-1)}}
			h.Check(reflect.DeepEqual(r.SegmentBase, want), "segment base %s, want %s", desc(r.SegmentBase), desc(want))
			h.Check(reflect.DeepEqual(r, &mpd.RepresentationType{Id: "r", SegmentBase: want}), "other fields changed: %s", desc(r))
			ts := uint32(h.edge(32, false))
			s := r.SegmentBase
			h.Case("SetTimescale(%d)", ts)
			h.Check(s.GetTimescale() == 1, "unset timescale reads %d", s.GetTimescale())
			for k := 0; k < 3; k++ {
				s.SetTimescale(ts)
				h.Check(s.GetTimescale() == ts, "timescale %d reads %d", ts, s.GetTimescale())
				h.Check((s.Timescale == nil) == (ts == 1), "attribute for %d: %v", ts, s.Timescale)
				want.Timescale = s.Timescale
				h.Check(reflect.DeepEqual(s, want), "other fields changed: %s", desc(s))
				o := &mpd.SegmentBaseType{}
				o.SetTimescale(ts)
				if s.Timescale != nil {
					h.Check(s.Timescale != o.Timescale, "two elements share the storage of their timescale")
				}
				ts = uint32(1 + h.Intn(3))
			}
		}
	})
}
