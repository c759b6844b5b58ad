package mpd_test

import (
	"errors"
	"reflect"
	"strconv"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func c08expand(t, id string, bw uint32) string {
	var out []byte
	for i := 0; i < len(t); {
		switch {
		case len(t)-i >= 18 && t[i:i+18] == "$RepresentationID$":
			out = append(out, id...)
			i += 18
		case len(t)-i >= 11 && t[i:i+11] == "$Bandwidth$":
			out = strconv.AppendUint(out, uint64(bw), 10)
			i += 11
		default:
			out = append(out, t[i])
			i++
		}
	}
	return string(out)
}

func TestVerifC08(t *testing.T) {
	vhRun(t, "getters of generated representations against inheritance and a left-to-right expansion of templates", func(h *vh) {
		parts := []string{"$RepresentationID$", "$Bandwidth$", "$Number$", "$Number%05d$", "$Time$", "$$", "$", "/", "a", "$RepresentationID", "RepresentationID$", "$Bandwidth", "é", "seg", ".m4s", "$bandwidth$"}
		tmpl := func() string {
			s := ""
			for i := h.Intn(7); i > 0; i-- {
				if h.Intn(12) == 0 {
					s += h.Lit()
				} else {
					s += parts[h.Intn(len(parts))]
				}
			}
			return s
		}
		pick := func(a ...string) string {
			if h.Intn(8) == 0 {
				return h.Lit()
			}
			return a[h.Intn(len(a))]
		}
		for h.More() {
			r := mpd.NewRepresentation()
			a := mpd.NewAdaptationSet()
			r.Id = pick("", "1", "V300", "$Bandwidth$", "$RepresentationID$", "a/b", "é", "$", "x$Bandwidth$y")
			r.Bandwidth = uint32(h.edge(32, false))
			r.MimeType = pick("", "video/mp4", "audio/mp4")
			a.MimeType = pick("", "video/webm", "x")
			r.Codecs = pick("", "avc1", "mp4a")
			a.Codecs = pick("", "hvc1", "ac-3")
			for i := h.Intn(3); i > 0; i-- {
				r.ContentProtections = append(r.ContentProtections, mpd.NewContentProtection())
			}
			for i := h.Intn(3); i > 0; i-- {
				a.ContentProtections = append(a.ContentProtections, mpd.NewContentProtection())
			}
			if h.Intn(4) == 0 && r.ContentProtections == nil {
				r.ContentProtections = []*mpd.ContentProtectionType{}
			}
			if h.Intn(2) == 0 {
				r.SegmentTemplate = mpd.NewSegmentTemplate()
				r.SegmentTemplate.Initialization, r.SegmentTemplate.Media = tmpl(), tmpl()
			}
			if h.Intn(2) == 0 {
				a.SegmentTemplate = mpd.NewSegmentTemplate()
				a.SegmentTemplate.Initialization, a.SegmentTemplate.Media = tmpl(), tmpl()
			}
			h.Case("rep %s adaptation set %s", desc(r), desc(a))
			_, err := r.GetInit()
			h.Check(errors.Is(err, mpd.ErrParentNotSet), "GetInit without parent: %v", err)
			_, err = r.GetMedia()
			h.Check(errors.Is(err, mpd.ErrParentNotSet), "GetMedia without parent: %v", err)
			a.AppendRepresentation(r)
			before := desc(r) + desc(a)
			eff := r.SegmentTemplate
			if eff == nil {
				eff = a.SegmentTemplate
			}
			h.Check(r.GetSegmentTemplate() == eff, "GetSegmentTemplate is not the effective template")
			h.Check(a.GetSegmentTemplate() == a.SegmentTemplate, "GetSegmentTemplate of the adaptation set")
			in, err := r.GetInit()
			me, err2 := r.GetMedia()
			if eff == nil {
				h.Check(errors.Is(err, mpd.ErrSegmentTemplateNotSet) && errors.Is(err2, mpd.ErrSegmentTemplateNotSet), "no template: %v, %v", err, err2)
			} else {
				h.Check(err == nil && in == c08expand(eff.Initialization, r.Id, r.Bandwidth), "GetInit = %q, %v, want %q", in, err, c08expand(eff.Initialization, r.Id, r.Bandwidth))
				h.Check(err2 == nil && me == c08expand(eff.Media, r.Id, r.Bandwidth), "GetMedia = %q, %v, want %q", me, err2, c08expand(eff.Media, r.Id, r.Bandwidth))
			}
			own := func(x, y string) string {
				if x != "" {
					return x
				}
				return y
			}
			h.Check(r.GetMimeType() == own(r.MimeType, a.MimeType), "GetMimeType = %q", r.GetMimeType())
			h.Check(r.GetCodecs() == own(r.Codecs, a.Codecs), "GetCodecs = %q", r.GetCodecs())
			h.Check(a.GetMimeType() == a.MimeType && a.GetCodecs() == a.Codecs, "getters of the adaptation set: %q %q", a.GetMimeType(), a.GetCodecs())
			cp := r.ContentProtections
			if len(cp) == 0 {
				cp = a.ContentProtections
			}
			got := r.GetContentProtections()
			h.Check(len(got) == len(cp), "GetContentProtections: %d, want %d", len(got), len(cp))
			for i := range cp {
				h.Check(got[i] == cp[i], "GetContentProtections[%d] is another one", i)
			}
			h.Check(reflect.DeepEqual(a.GetContentProtections(), a.ContentProtections), "content protections of the adaptation set")
			h.Check(desc(r)+desc(a) == before, "a getter changed the elements")
		}
	})
}
