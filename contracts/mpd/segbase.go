package mpd

// C09: segment base ranges and timescale.

//verif:contract (*RepresentationType).SetSegmentBase
//verif:prop C09
func conSetSegmentBase(r *RepresentationType, initSize, sidxSize uint32, indexRangeExact bool) {
	vRequires(func() bool { return r != nil && initSize >= 1 && sidxSize >= 1 })
	vModifies("RepresentationType.SegmentBase")
	vModifiesAt(&r.SegmentBase)
	r.SetSegmentBase(initSize, sidxSize, indexRangeExact)
	i, x := int(initSize), int(sidxSize)
	vEnsures("fresh", func() bool {
		return r.SegmentBase != nil && vIsNew(r.SegmentBase) && vIsNew(r.SegmentBase.Initialization)
	})
	vEnsures("initialization range", func() bool { return r.SegmentBase.Initialization.Range == "0-"+vDec(i-1) })
	vEnsures("index range", func() bool { return r.SegmentBase.IndexRange == vDec(i)+"-"+vDec(i+x-1) })
	vEnsures("exactness", func() bool { return r.SegmentBase.IndexRangeExact == indexRangeExact })
	vEnsures("other fields empty", func() bool {
		return vZeroBut(r.SegmentBase, "IndexRange", "IndexRangeExact", "Initialization") && vZeroBut(r.SegmentBase.Initialization, "Range")
	})
	vEnsures("other representations", func() bool {
		return vForallRef(func(q *RepresentationType) bool {
			return vImplies(q != r, q.SegmentBase == vOld(func() *SegmentBaseType { return q.SegmentBase }))
		})
	})
}

//verif:contract SegmentBaseType.GetTimescale
//verif:prop C09
func conGetTimescale(s SegmentBaseType) uint32 {
	t := s.GetTimescale()
	vEnsures("default", func() bool { return vImplies(s.Timescale == nil, t == 1) })
	vEnsures("value", func() bool { return vImplies(s.Timescale != nil, t == *s.Timescale) })
	return t
}

//verif:contract (*SegmentBaseType).SetTimescale
//verif:prop C09
func conSetTimescale(s *SegmentBaseType, timescale uint32) {
	vRequires(func() bool { return s != nil })
	vModifiesAt(&s.Timescale)
	s.SetTimescale(timescale)
	vEnsures("default is left out", func() bool { return vImplies(timescale == 1, s.Timescale == nil) })
	vEnsures("value", func() bool {
		return vImplies(timescale != 1, s.Timescale != nil && vIsNew(s.Timescale) && *s.Timescale == timescale)
	})
}

//verif:client
//verif:prop C09
func timescaleReadsBack(s *SegmentBaseType, timescale uint32) {
	vRequires(func() bool { return s != nil })
	s.SetTimescale(timescale)
	t := s.GetTimescale()
	vAssert("the timescale set is read", func() bool { return t == timescale })
}
