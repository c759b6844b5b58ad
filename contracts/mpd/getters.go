package mpd

import (
	"strconv"
	"strings"
)

// C08: what a representation takes from its adaptation set, and its URLs.

func effTemplate(r *RepresentationType) *SegmentTemplateType {
	if r.SegmentTemplate != nil {
		return r.SegmentTemplate
	}
	return r.Parent().SegmentTemplate
}

// expanded: every identifier replaced, in one pass from the left.
func expanded(r *RepresentationType, t string) string {
	return strings.NewReplacer("$RepresentationID$", r.Id, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth))).Replace(t)
}

//verif:contract (*RepresentationType).GetSegmentTemplate
//verif:prop C08
func conGetSegmentTemplate(r *RepresentationType) *SegmentTemplateType {
	vRequires(func() bool { return r != nil && (r.SegmentTemplate != nil || r.Parent() != nil) })
	t := r.GetSegmentTemplate()
	vEnsures("effective template", func() bool { return t == effTemplate(r) })
	return t
}

//verif:contract (*RepresentationType).GetMimeType
//verif:prop C08
func conGetMimeType(r *RepresentationType) string {
	vRequires(func() bool { return r != nil && (r.MimeType != "" || r.Parent() != nil) })
	s := r.GetMimeType()
	vEnsures("own", func() bool { return vImplies(r.MimeType != "", s == r.MimeType) })
	vEnsures("inherited", func() bool { return vImplies(r.MimeType == "", s == r.Parent().MimeType) })
	return s
}

//verif:contract (*RepresentationType).GetCodecs
//verif:prop C08
func conGetCodecs(r *RepresentationType) string {
	vRequires(func() bool { return r != nil && (r.Codecs != "" || r.Parent() != nil) })
	s := r.GetCodecs()
	vEnsures("own", func() bool { return vImplies(r.Codecs != "", s == r.Codecs) })
	vEnsures("inherited", func() bool { return vImplies(r.Codecs == "", s == r.Parent().Codecs) })
	return s
}

func sameProtections(a, b []*ContentProtectionType) bool {
	return len(a) == len(b) && vForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

//verif:contract (*RepresentationType).GetContentProtections
//verif:prop C08
func conGetContentProtections(r *RepresentationType) []*ContentProtectionType {
	vRequires(func() bool { return r != nil && (len(r.ContentProtections) != 0 || r.Parent() != nil) })
	cs := r.GetContentProtections()
	vEnsures("own", func() bool {
		return vImplies(len(r.ContentProtections) != 0, sameProtections(cs, r.ContentProtections))
	})
	vEnsures("inherited", func() bool {
		return vImplies(len(r.ContentProtections) == 0, sameProtections(cs, r.Parent().ContentProtections))
	})
	return cs
}

//verif:contract (*RepresentationType).GetInit
//verif:prop C08
func conGetInit(r *RepresentationType) (string, error) {
	vRequires(func() bool { return r != nil })
	s, err := r.GetInit()
	vEnsures("no parent", func() bool { return vImplies(r.Parent() == nil, err == ErrParentNotSet) })
	vEnsures("no template", func() bool {
		return vImplies(r.Parent() != nil && effTemplate(r) == nil, err == ErrSegmentTemplateNotSet)
	})
	vEnsures("initialization URL", func() bool {
		return vImplies(r.Parent() != nil && effTemplate(r) != nil, err == nil && s == expanded(r, effTemplate(r).Initialization))
	})
	return s, err
}

//verif:contract (*RepresentationType).GetMedia
//verif:prop C08
func conGetMedia(r *RepresentationType) (string, error) {
	vRequires(func() bool { return r != nil })
	s, err := r.GetMedia()
	vEnsures("no parent", func() bool { return vImplies(r.Parent() == nil, err == ErrParentNotSet) })
	vEnsures("no template", func() bool {
		return vImplies(r.Parent() != nil && effTemplate(r) == nil, err == ErrSegmentTemplateNotSet)
	})
	vEnsures("media URL", func() bool {
		return vImplies(r.Parent() != nil && effTemplate(r) != nil, err == nil && s == expanded(r, effTemplate(r).Media))
	})
	return s, err
}

//verif:contract (*AdaptationSetType).GetMimeType
//verif:prop C08
func conASMimeType(a *AdaptationSetType) string {
	vRequires(func() bool { return a != nil })
	s := a.GetMimeType()
	vEnsures("own", func() bool { return s == a.MimeType })
	return s
}

//verif:contract (*AdaptationSetType).GetCodecs
//verif:prop C08
func conASCodecs(a *AdaptationSetType) string {
	vRequires(func() bool { return a != nil })
	s := a.GetCodecs()
	vEnsures("own", func() bool { return s == a.Codecs })
	return s
}

//verif:contract (*AdaptationSetType).GetSegmentTemplate
//verif:prop C08
func conASSegmentTemplate(a *AdaptationSetType) *SegmentTemplateType {
	vRequires(func() bool { return a != nil })
	t := a.GetSegmentTemplate()
	vEnsures("own", func() bool { return t == a.SegmentTemplate })
	return t
}

//verif:contract (*AdaptationSetType).GetContentProtections
//verif:prop C08
func conASContentProtections(a *AdaptationSetType) []*ContentProtectionType {
	vRequires(func() bool { return a != nil })
	cs := a.GetContentProtections()
	vEnsures("own", func() bool { return sameProtections(cs, a.ContentProtections) })
	return cs
}
