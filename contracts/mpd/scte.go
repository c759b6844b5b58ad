package mpd

// C22: SCTE-35 helpers.

const scteNS = "http://www.scte.org/schemas/35"

//verif:contract (*EventStreamType).IsSCTE35
//verif:prop C22
func conIsSCTE35(es *EventStreamType) bool {
	vRequires(func() bool { return es != nil })
	r := es.IsSCTE35()
	vEnsures("the three schemes", func() bool {
		s := string(es.SchemeIdUri)
		return r == (s == "urn:scte:scte35:2013:xml" || s == "urn:scte:scte35:2014:xml+bin" || s == "urn:scte:scte35:2013:bin")
	})
	return r
}

//verif:contract (*EventType).SpliceInfo
//verif:prop C22
func conSpliceInfo(e *EventType) *SpliceInfoSectionType {
	vRequires(func() bool { return e != nil })
	s := e.SpliceInfo()
	vEnsures("in the signal", func() bool {
		return vImplies(e.Signal != nil && e.Signal.SpliceInfoSection != nil, s == e.Signal.SpliceInfoSection)
	})
	vEnsures("attached directly", func() bool {
		return vImplies(e.Signal == nil || e.Signal.SpliceInfoSection == nil, s == e.SpliceInfoSection)
	})
	return s
}

//verif:contract NewSignal
//verif:prop C22
//verif:fresh 0
func conNewSignal() *SignalType {
	e := NewSignal()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "Signal" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewSpliceInfoSection
//verif:prop C22
//verif:fresh 0
func conNewSpliceInfoSection() *SpliceInfoSectionType {
	e := NewSpliceInfoSection()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SpliceInfoSection" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewBinary
//verif:prop C22
//verif:fresh 0
func conNewBinary(v string) *BinaryType {
	e := NewBinary(v)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "Binary" })
	vEnsures("Value", func() bool { return e.Value == v })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName", "Value") })
	return e
}

//verif:contract NewSpliceNull
//verif:prop C22
//verif:fresh 0
func conNewSpliceNull() *SpliceNullType {
	e := NewSpliceNull()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SpliceNull" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewSpliceSchedule
//verif:prop C22
//verif:fresh 0
func conNewSpliceSchedule() *SpliceScheduleType {
	e := NewSpliceSchedule()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SpliceSchedule" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewSpliceInsert
//verif:prop C22
//verif:fresh 0
func conNewSpliceInsert() *SpliceInsertType {
	e := NewSpliceInsert()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SpliceInsert" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewTimeSignal
//verif:prop C22
//verif:fresh 0
func conNewTimeSignal() *TimeSignalType {
	e := NewTimeSignal()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "TimeSignal" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewBandwidthReservation
//verif:prop C22
//verif:fresh 0
func conNewBandwidthReservation() *BandwidthReservationType {
	e := NewBandwidthReservation()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "BandwidthReservation" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewPrivateCommand
//verif:prop C22
//verif:fresh 0
func conNewPrivateCommand(identifier uint32) *PrivateCommandType {
	e := NewPrivateCommand(identifier)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "PrivateCommand" })
	vEnsures("Identifier", func() bool { return e.Identifier == identifier })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName", "Identifier") })
	return e
}

//verif:contract NewSpliceTime
//verif:prop C22
//verif:fresh 0
func conNewSpliceTime() *SpliceTimeType {
	e := NewSpliceTime()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SpliceTime" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewBreakDuration
//verif:prop C22
//verif:fresh 0
func conNewBreakDuration(autoReturn bool, duration uint64) *BreakDurationType {
	e := NewBreakDuration(autoReturn, duration)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "BreakDuration" })
	vEnsures("AutoReturn", func() bool { return e.AutoReturn == autoReturn })
	vEnsures("Duration", func() bool { return e.Duration == duration })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName", "AutoReturn", "Duration") })
	return e
}

//verif:contract NewSegmentationDescriptor
//verif:prop C22
//verif:fresh 0
func conNewSegmentationDescriptor() *SegmentationDescriptorType {
	e := NewSegmentationDescriptor()
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SegmentationDescriptor" })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName") })
	return e
}

//verif:contract NewSegmentationUpid
//verif:prop C22
//verif:fresh 0
func conNewSegmentationUpid(value string) *SegmentationUpidType {
	e := NewSegmentationUpid(value)
	vEnsures("fresh", func() bool { return e != nil && vIsNew(e) })
	vEnsures("canonical name", func() bool { return e.XMLName.Space == scteNS && e.XMLName.Local == "SegmentationUpid" })
	vEnsures("Value", func() bool { return e.Value == value })
	vEnsures("nothing else", func() bool { return vZeroBut(e, "XMLName", "Value") })
	return e
}
