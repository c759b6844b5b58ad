package mpd

import "strconv"

// C23: constructors.

//verif:contract NewPeriod
//verif:prop C23
//verif:fresh 0
func conNewPeriod() *Period {
	e := NewPeriod()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewAdaptationSet
//verif:prop C23
//verif:fresh 0
func conNewAdaptationSet() *AdaptationSetType {
	e := NewAdaptationSet()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewRepresentation
//verif:prop C23
//verif:fresh 0
func conNewRepresentation() *RepresentationType {
	e := NewRepresentation()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewSubRepresentation
//verif:prop C23
//verif:fresh 0
func conNewSubRepresentation() *SubRepresentationType {
	e := NewSubRepresentation()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewSegmentTemplate
//verif:prop C23
//verif:fresh 0
func conNewSegmentTemplate() *SegmentTemplateType {
	e := NewSegmentTemplate()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewSegmentList
//verif:prop C23
//verif:fresh 0
func conNewSegmentList() *SegmentListType {
	e := NewSegmentList()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewSegmentTimeline
//verif:prop C23
//verif:fresh 0
func conNewSegmentTimeline() *SegmentTimelineType {
	e := NewSegmentTimeline()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewInitializationSet
//verif:prop C23
//verif:fresh 0
func conNewInitializationSet() *InitializationSetType {
	e := NewInitializationSet()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewPreselection
//verif:prop C23
//verif:fresh 0
func conNewPreselection() *PreselectionType {
	e := NewPreselection()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewContentProtection
//verif:prop C23
//verif:fresh 0
func conNewContentProtection() *ContentProtectionType {
	e := NewContentProtection()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewProducerReferenceTime
//verif:prop C23
//verif:fresh 0
func conNewProducerReferenceTime() *ProducerReferenceTimeType {
	e := NewProducerReferenceTime()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewUIntVWithID
//verif:prop C23
//verif:fresh 0
func conNewUIntVWithID() *UIntVWithIDType {
	e := NewUIntVWithID()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("every other field empty", func() bool { return vZeroBut(e) })
	return e
}

//verif:contract NewMPD
//verif:prop C23
//verif:fresh 0
func conNewMPD(mpdType string) *MPD {
	e := NewMPD(mpdType)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Type", func() bool { return e.Type != nil && vIsNew(e.Type) && *e.Type == mpdType })
	vEnsures("XMLNs", func() bool { return e.XMLNs == "urn:mpeg:dash:schema:mpd:2011" })
	vEnsures("every other field empty", func() bool { return vZeroBut(e, "Type", "XMLNs") })
	return e
}

//verif:contract NewBaseURL
//verif:prop C23
//verif:fresh 0
func conNewBaseURL(value string) *BaseURLType {
	e := NewBaseURL(value)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Value", func() bool { return string(e.Value) == value })
	vEnsures("every other field empty", func() bool { return vZeroBut(e, "Value") })
	return e
}

//verif:contract NewDescriptor
//verif:prop C23
//verif:fresh 0
func conNewDescriptor(schemeIdURI string, value string, id string) *DescriptorType {
	e := NewDescriptor(schemeIdURI, value, id)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("SchemeIdUri", func() bool { return string(e.SchemeIdUri) == schemeIdURI })
	vEnsures("Value", func() bool { return e.Value == value })
	vEnsures("Id", func() bool { return e.Id == id })
	vEnsures("every other field empty", func() bool { return vZeroBut(e, "SchemeIdUri", "Value", "Id") })
	return e
}

//verif:contract NewRole
//verif:prop C23
//verif:fresh 0
func conNewRole(value string) *DescriptorType {
	e := NewRole(value)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("SchemeIdUri", func() bool { return string(e.SchemeIdUri) == "urn:mpeg:dash:role:2011" })
	vEnsures("Value", func() bool { return e.Value == value })
	vEnsures("every other field empty", func() bool { return vZeroBut(e, "SchemeIdUri", "Value") })
	return e
}

//verif:contract NewAdaptationSetWithParams
//verif:prop C23
//verif:fresh 0
func conNewAdaptationSetWithParams(contentType string, mimeType string, segmentAlignment bool, startsWithSAP uint32) *AdaptationSetType {
	e := NewAdaptationSetWithParams(contentType, mimeType, segmentAlignment, startsWithSAP)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("MimeType", func() bool { return e.MimeType == mimeType })
	vEnsures("StartWithSAP", func() bool { return e.StartWithSAP == startsWithSAP })
	vEnsures("SegmentAlignment", func() bool { return e.SegmentAlignment == segmentAlignment })
	vEnsures("ContentType", func() bool { return string(e.ContentType) == contentType })
	vEnsures("every other field empty", func() bool {
		return vZeroBut(e, "RepresentationBaseType.MimeType", "RepresentationBaseType.StartWithSAP", "SegmentAlignment", "ContentType")
	})
	return e
}

//verif:contract NewRepresentationWithID
//verif:prop C23
//verif:fresh 0
func conNewRepresentationWithID(id string, codec string, mimeType string, bandwidth int) *RepresentationType {
	vRequires(func() bool { return 0 <= bandwidth && bandwidth <= 4294967295 })
	e := NewRepresentationWithID(id, codec, mimeType, bandwidth)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Codecs", func() bool { return e.Codecs == codec })
	vEnsures("MimeType", func() bool { return e.MimeType == mimeType })
	vEnsures("Id", func() bool { return e.Id == id })
	vEnsures("Bandwidth", func() bool { return int(e.Bandwidth) == bandwidth })
	vEnsures("every other field empty", func() bool {
		return vZeroBut(e, "RepresentationBaseType.Codecs", "RepresentationBaseType.MimeType", "Id", "Bandwidth")
	})
	return e
}

//verif:contract NewAudioRepresentation
//verif:prop C23
//verif:fresh 0
func conNewAudioRepresentation(id string, codec string, mimeType string, bandwidth int, audioSamplingRate int) *RepresentationType {
	vRequires(func() bool { return 0 <= bandwidth && bandwidth <= 4294967295 })
	e := NewAudioRepresentation(id, codec, mimeType, bandwidth, audioSamplingRate)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Codecs", func() bool { return e.Codecs == codec })
	vEnsures("MimeType", func() bool { return e.MimeType == mimeType })
	vEnsures("Id", func() bool { return e.Id == id })
	vEnsures("Bandwidth", func() bool { return int(e.Bandwidth) == bandwidth })
	vEnsures("AudioSamplingRate", func() bool {
		return e.AudioSamplingRate != nil && vIsNew(e.AudioSamplingRate) && string(*e.AudioSamplingRate) == strconv.Itoa(audioSamplingRate)
	})
	vEnsures("every other field empty", func() bool {
		return vZeroBut(e, "RepresentationBaseType.Codecs", "RepresentationBaseType.MimeType", "Id", "Bandwidth", "RepresentationBaseType.AudioSamplingRate")
	})
	return e
}

//verif:contract NewVideoRepresentation
//verif:prop C23
//verif:fresh 0
func conNewVideoRepresentation(id string, codec string, mimeType string, frameRate string, bandwidth int, width int, height int) *RepresentationType {
	vRequires(func() bool {
		return 0 <= bandwidth && bandwidth <= 4294967295 && 0 <= width && width <= 4294967295 && 0 <= height && height <= 4294967295
	})
	e := NewVideoRepresentation(id, codec, mimeType, frameRate, bandwidth, width, height)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Codecs", func() bool { return e.Codecs == codec })
	vEnsures("MimeType", func() bool { return e.MimeType == mimeType })
	vEnsures("Id", func() bool { return e.Id == id })
	vEnsures("Bandwidth", func() bool { return int(e.Bandwidth) == bandwidth })
	vEnsures("FrameRate", func() bool { return string(e.FrameRate) == frameRate })
	vEnsures("Width", func() bool { return int(e.Width) == width })
	vEnsures("Height", func() bool { return int(e.Height) == height })
	vEnsures("every other field empty", func() bool {
		return vZeroBut(e, "RepresentationBaseType.Codecs", "RepresentationBaseType.MimeType", "Id", "Bandwidth", "RepresentationBaseType.FrameRate", "RepresentationBaseType.Width", "RepresentationBaseType.Height")
	})
	return e
}

//verif:contract NewSCTE214ContentIdentifier
//verif:prop C23
//verif:fresh 0
func conNewSCTE214ContentIdentifier(idType string, idValue string) *SCTE214ContentIdentifierType {
	e := NewSCTE214ContentIdentifier(idType, idValue)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("Type", func() bool { return e.Type == idType })
	vEnsures("Value", func() bool { return e.Value == idValue })
	vEnsures("every other field empty", func() bool { return vZeroBut(e, "Type", "Value") })
	return e
}

//verif:contract Seconds2DurPtr
//verif:prop C23
//verif:fresh 0
func conSeconds2DurPtr(seconds int) *Duration {
	vRequires(func() bool { return -9223372036 <= seconds && seconds <= 9223372036 })
	d := Seconds2DurPtr(seconds)
	vEnsures("fresh", func() bool { return d != nil && vIsNew(d) })
	vEnsures("value", func() bool { return int(*d) == seconds*1000000000 })
	return d
}
