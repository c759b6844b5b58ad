package xml

import (
	"reflect"
	"strings"
)

// C21: the parts of the binding of fields that are decided by contracts.

// isSimple: a kind that is written as plain text.
func isSimple(k reflect.Kind) bool {
	return isInt(k) || isUint(k) || k == reflect.Float64 || k == reflect.Float32 || k == reflect.Bool || k == reflect.String
}

// omitempty drops zero values only.
//
//verif:contract isEmptyValue
//verif:prop C21
func conIsEmptyValue(v reflect.Value) bool {
	k := v.Kind()
	e := isEmptyValue(v)
	vEnsures("numbers and booleans", func() bool {
		return vImplies(isInt(k) || isUint(k) || k == reflect.Bool, vIff(e, vGhostInt("rnum", v) == 0))
	})
	vEnsures("floats", func() bool {
		return vImplies((k == reflect.Float64 || k == reflect.Float32) && e, vFIs(v.Float(), 0))
	})
	vEnsures("text", func() bool {
		return vImplies(k == reflect.String || k == reflect.Slice || k == reflect.Array || k == reflect.Map, vIff(e, v.Len() == 0))
	})
	vEnsures("pointers", func() bool {
		return vImplies(k == reflect.Pointer || k == reflect.Interface, vIff(e, v.IsNil()))
	})
	vEnsures("structs are written", func() bool { return vImplies(k == reflect.Struct, !e) })
	return e
}

// implementsNone: the text of values of this type is not up to a method.
func implementsNone(t reflect.Type) bool { return vAppBool("methodless", t) }

//verif:trusted getTypeImpl
//verif:prop C20 C21
func conGetTypeImpl(t reflect.Type) typeImpl {
	i := getTypeImpl(t)
	vEnsures("methods", func() bool {
		return vImplies(implementsNone(t), !i.marshaler && !i.addrMarshaler && !i.marshalerAttr && !i.addrMarshalerAttr && !i.textMarshaler && !i.addrTextMarshaler)
	})
	return i
}

// An attribute that holds a number, boolean or text is written with the given name.
//
//verif:contract (*printer).marshalAttr
//verif:prop C20 C21
func conMarshalAttr(p *printer, start *StartElement, name Name, val reflect.Value) error {
	vRequires(func() bool {
		return start != nil && len(start.Attr) < 1<<40 && val.Kind() != reflect.Invalid && implementsNone(val.Type()) && (isSimple(val.Kind()) || val.Kind() == reflect.Pointer) &&
			vImplies(val.Kind() == reflect.Pointer, isSimple(val.Type().Elem().Kind()) && val.Type().Elem() != attrType) && val.Type() != attrType
	})
	vModifies("Attr.*", "Name.*") // the new attribute
	vModifiesAt(&start.Attr)
	n := len(start.Attr)
	gone := val.Kind() == reflect.Pointer && val.IsNil()
	h := holder(val)
	k := h.Kind()
	err := p.marshalAttr(start, name, val)
	vEnsures("no error", func() bool { return err == nil })
	vEnsures("nil writes nothing", func() bool { return vImplies(gone, len(start.Attr) == n) })
	vEnsures("one attribute", func() bool { return vImplies(!gone, len(start.Attr) == n+1) })
	vEnsures("its name", func() bool {
		return vImplies(!gone, start.Attr[n].Name.Local == name.Local && start.Attr[n].Name.Space == name.Space)
	})
	vEnsures("integer", func() bool {
		return vImplies(!gone && isInt(k), start.Attr[n].Value == vDec(int(h.Int())))
	})
	vEnsures("unsigned", func() bool {
		return vImplies(!gone && isUint(k), start.Attr[n].Value == vDec(int(h.Uint())))
	})
	vEnsures("boolean", func() bool {
		return vImplies(!gone && k == reflect.Bool && h.Bool(), start.Attr[n].Value == "true") && vImplies(!gone && k == reflect.Bool && !h.Bool(), start.Attr[n].Value == "false")
	})
	vEnsures("float", func() bool {
		return vImplies(!gone && k == reflect.Float64 && vFin(h.Float()), vFloatOK(start.Attr[n].Value) && vFSame(vFloatOf(start.Attr[n].Value), h.Float()))
	})
	vEnsures("text", func() bool {
		return vImplies(!gone && k == reflect.String, start.Attr[n].Value == vGhostStr("rstr", h))
	})
	return err
}

// readable: no method reads values of type t.
func readable(t reflect.Type) bool {
	return !t.Implements(unmarshalerAttrType) && !t.Implements(textUnmarshalerType) && !reflect.PointerTo(t).Implements(unmarshalerAttrType) && !reflect.PointerTo(t).Implements(textUnmarshalerType) && t != attrType
}

// An attribute bound to a number, boolean or text is stored exactly or refused.
//
//verif:contract (*Decoder).unmarshalAttr
//verif:prop C20 C21
func conUnmarshalAttr(d *Decoder, val reflect.Value, attr Attr) error {
	k0 := val.Kind()
	t0 := holder(val)
	vRequires(func() bool {
		return vImplies(k0 == reflect.Pointer, isSimple(val.Type().Elem().Kind()) && readable(val.Type().Elem())) && vImplies(k0 != reflect.Pointer, isSimple(k0) && readable(val.Type()))
	})
	vModifiesAt(vAt[int]("rnum", val), vAt[float64]("rflt", val), vAt[string]("rstr", val), vAt[*int]("relem", val), vAt[*int]("relem", t0), vAt[int]("rnum", t0), vAt[float64]("rflt", t0), vAt[string]("rstr", t0))
	all := attr.Value
	s := strings.TrimSpace(all)
	err := d.unmarshalAttr(val, attr)
	k := holder(val).Kind()
	vEnsures("a number that fits is stored", func() bool {
		return vImplies(isInt(k) && len(all) > 0 && intFits(s, k), err == nil && intIs(s, int(holder(val).Int())))
	})
	vEnsures("anything else is refused", func() bool {
		return vImplies(isInt(k) && len(all) > 0 && !intFits(s, k), err != nil)
	})
	vEnsures("an unsigned number that fits is stored", func() bool {
		return vImplies(isUint(k) && len(all) > 0 && uintFits(s, k), err == nil && int(holder(val).Uint()) == vDigitsVal(s))
	})
	vEnsures("anything else is no unsigned number", func() bool {
		return vImplies(isUint(k) && len(all) > 0 && !uintFits(s, k), err != nil)
	})
	vEnsures("float64", func() bool {
		return vImplies(k == reflect.Float64 && len(all) > 0, vIff(err == nil, vFloatOK(s)) && vImplies(err == nil, vFSame(holder(val).Float(), vFloatOf(s))))
	})
	vEnsures("true", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && trueText(s), err == nil && holder(val).Bool())
	})
	vEnsures("false", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && falseText(s), err == nil && !holder(val).Bool())
	})
	vEnsures("no boolean", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && !trueText(s) && !falseText(s) && !boolish(s), err != nil)
	})
	vEnsures("text", func() bool {
		return vImplies(k == reflect.String, err == nil && vGhostStr("rstr", holder(val)) == all)
	})
	return err
}
