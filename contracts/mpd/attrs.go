package mpd

import "github.com/Eyevinn/dash-mpd/xml"

// C11: custom attribute codecs. Classes of float64: 0 finite, 1 +Inf, 2 -Inf, 3 NaN.

//verif:contract (*FloatInf64).MarshalXMLAttr
//verif:prop C11 C21
func conFloatMarshal(f *FloatInf64, name xml.Name) (xml.Attr, error) {
	a, err := f.MarshalXMLAttr(name)
	vEnsures("no error", func() bool { return err == nil })
	vEnsures("nil writes nothing", func() bool { return vImplies(f == nil, a.Name.Local == "") })
	vEnsures("name", func() bool { return vImplies(f != nil, a.Name == name) })
	vEnsures("infinity", func() bool { return vImplies(f != nil && vFCls(float64(*f)) == 1, a.Value == "INF") })
	vEnsures("reads back as the same number", func() bool {
		return vImplies(f != nil && vFCls(float64(*f)) == 0,
			a.Value != "INF" && vAppBool("plainDecimal", a.Value) && vFloatOK(a.Value) && vFSame(vFloatOf(a.Value), float64(*f)))
	})
	return a, err
}

//verif:contract (*FloatInf64).UnmarshalXMLAttr
//verif:prop C11 C21
func conFloatUnmarshal(f *FloatInf64, attr xml.Attr) error {
	vRequires(func() bool { return f != nil })
	vModifiesAt(f)
	err := f.UnmarshalXMLAttr(attr)
	vEnsures("infinity", func() bool { return vImplies(attr.Value == "INF", err == nil && vFCls(float64(*f)) == 1) })
	vEnsures("number", func() bool {
		return vImplies(attr.Value != "INF" && vFloatOK(attr.Value), err == nil && vFSame(float64(*f), vFloatOf(attr.Value)))
	})
	vEnsures("malformed", func() bool { return vImplies(attr.Value != "INF" && !vFloatOK(attr.Value), err != nil) })
	vEnsures("left alone on error", func() bool {
		return vImplies(err != nil, vFSame(float64(*f), vOld(func() float64 { return float64(*f) })))
	})
	return err
}

//verif:client
//verif:prop C11 C21
func floatRoundTrip(f, g *FloatInf64, name xml.Name) {
	vRequires(func() bool { return f != nil && g != nil && vFCls(float64(*f)) <= 1 && f != g })
	a, _ := f.MarshalXMLAttr(name)
	err := g.UnmarshalXMLAttr(a)
	vAssert("written and read back unchanged", func() bool { return err == nil && vFSame(float64(*g), float64(*f)) })
}
