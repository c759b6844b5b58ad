package xml

import (
	"math"
	"reflect"
	"strings"
)

// C20: numbers and booleans between text and Go values. A reflect.Value denotes a
// place; rnum, rflt and rstr are what the place holds (see the model of reflect).

// holder is the place that a text bound to dst goes to.
func holder(dst reflect.Value) reflect.Value {
	if dst.Kind() == reflect.Pointer {
		return dst.Elem()
	}
	return dst
}

func isInt(k reflect.Kind) bool  { return reflect.Int <= k && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool { return reflect.Uint <= k && k <= reflect.Uintptr }

// intText: an optional sign and digits.
func intText(s string) bool {
	return len(s) > 0 && vAllDigits(s) || len(s) > 1 && (s[0] == '-' || s[0] == '+') && vAllDigits(s[1:])
}

// intMax is the greatest number of a kind, the smallest is -intMax-1.
func intMax(k reflect.Kind) int {
	switch k {
	case reflect.Int8:
		return math.MaxInt8
	case reflect.Int16:
		return math.MaxInt16
	case reflect.Int32:
		return math.MaxInt32
	}
	return math.MaxInt64
}

// intIs: the text s denotes n.
func intIs(s string, n int) bool {
	if vAllDigits(s) {
		return n == vDigitsVal(s)
	}
	if s[0] == '-' {
		return n == -vDigitsVal(s[1:])
	}
	return n == vDigitsVal(s[1:])
}

// intFits: the text s denotes a number of kind k.
func intFits(s string, k reflect.Kind) bool {
	if !intText(s) {
		return false
	}
	if vAllDigits(s) {
		return vDigitsVal(s) <= intMax(k)
	}
	if s[0] == '-' {
		return vDigitsVal(s[1:])-1 <= intMax(k)
	}
	return vDigitsVal(s[1:]) <= intMax(k)
}

// uintFits: the text s denotes an unsigned number of kind k.
func uintFits(s string, k reflect.Kind) bool {
	if len(s) == 0 || !vAllDigits(s) {
		return false
	}
	switch k {
	case reflect.Uint8:
		return vDigitsVal(s) <= math.MaxUint8
	case reflect.Uint16:
		return vDigitsVal(s) <= math.MaxUint16
	case reflect.Uint32:
		return vDigitsVal(s) <= math.MaxUint32
	}
	return vDigitsVal(s)/2 <= math.MaxInt64
}

func trueText(s string) bool  { return s == "true" || s == "1" }
func falseText(s string) bool { return s == "false" || s == "0" }

// boolish: spellings beyond XML Schema that may be accepted, with the value they say.
func boolish(s string) bool {
	return s == "t" || s == "T" || s == "TRUE" || s == "True" || s == "f" || s == "F" || s == "FALSE" || s == "False"
}

//verif:contract copyValue
//verif:prop C20 C21
func conCopyValue(dst reflect.Value, src []byte) error {
	k0 := dst.Kind()
	t0 := holder(dst)
	vRequires(func() bool {
		return vImplies(k0 == reflect.Slice, dst.Type().Elem().Kind() == reflect.Uint8) && vImplies(k0 == reflect.Pointer, vImplies(dst.Type().Elem().Kind() == reflect.Slice, dst.Type().Elem().Elem().Kind() == reflect.Uint8))
	})
	vModifiesAt(vAt[int]("rnum", dst), vAt[float64]("rflt", dst), vAt[string]("rstr", dst), vAt[*int]("relem", dst), vAt[int]("rnum", t0), vAt[float64]("rflt", t0), vAt[string]("rstr", t0))
	all := string(src)
	s := strings.TrimSpace(all)
	err := copyValue(dst, src)
	k := holder(dst).Kind()
	vEnsures("a number that fits is stored", func() bool {
		return vImplies(isInt(k) && len(all) > 0 && intFits(s, k), err == nil && intIs(s, int(holder(dst).Int())))
	})
	vEnsures("anything else is refused", func() bool {
		return vImplies(isInt(k) && len(all) > 0 && !intFits(s, k), err != nil)
	})
	vEnsures("an unsigned number that fits is stored", func() bool {
		return vImplies(isUint(k) && len(all) > 0 && uintFits(s, k), err == nil && int(holder(dst).Uint()) == vDigitsVal(s))
	})
	vEnsures("anything else is no unsigned number", func() bool {
		return vImplies(isUint(k) && len(all) > 0 && !uintFits(s, k), err != nil)
	})
	vEnsures("float64", func() bool {
		return vImplies(k == reflect.Float64 && len(all) > 0, vIff(err == nil, vFloatOK(s)) && vImplies(err == nil, vFSame(holder(dst).Float(), vFloatOf(s))))
	})
	vEnsures("float32", func() bool {
		return vImplies(k == reflect.Float32 && len(all) > 0, vIff(err == nil, vFloatOK32(s)) && vImplies(err == nil, vFSame(holder(dst).Float(), vFloatOf32(s))))
	})
	vEnsures("true", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && trueText(s), err == nil && holder(dst).Bool())
	})
	vEnsures("false", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && falseText(s), err == nil && !holder(dst).Bool())
	})
	vEnsures("no boolean", func() bool {
		return vImplies(k == reflect.Bool && len(all) > 0 && !trueText(s) && !falseText(s) && !boolish(s), err != nil)
	})
	vEnsures("no text is zero", func() bool {
		return vImplies(len(all) == 0, vImplies(isInt(k), err == nil && holder(dst).Int() == 0) && vImplies(isUint(k), err == nil && holder(dst).Uint() == 0) && vImplies(k == reflect.Bool, err == nil && !holder(dst).Bool()) && vImplies(k == reflect.Float32 || k == reflect.Float64, err == nil && vFSame(holder(dst).Float(), 0)))
	})
	vEnsures("text", func() bool {
		return vImplies(k == reflect.String || k == reflect.Slice, err == nil && vGhostStr("rstr", holder(dst)) == all)
	})
	vEnsures("other kinds are refused", func() bool {
		return vImplies(!isInt(k) && !isUint(k) && k != reflect.Float64 && k != reflect.Float32 && k != reflect.Bool && k != reflect.String && k != reflect.Slice && k != reflect.Invalid, err != nil)
	})
	return err
}

//verif:contract (*printer).marshalSimple
//verif:prop C20 C21
func conMarshalSimple(p *printer, typ reflect.Type, val reflect.Value) (string, []byte, error) {
	vRequires(func() bool {
		return typ != nil && val.Kind() != reflect.Invalid && vSame(typ, val.Type())
	})
	k := val.Kind()
	s, b, err := p.marshalSimple(typ, val)
	vEnsures("integer", func() bool {
		return vImplies(isInt(k), err == nil && len(b) == 0 && b == nil && s == vDec(int(val.Int())))
	})
	vEnsures("unsigned", func() bool {
		return vImplies(isUint(k), err == nil && b == nil && s == vDec(int(val.Uint())))
	})
	vEnsures("boolean", func() bool {
		return vImplies(k == reflect.Bool, err == nil && b == nil) && vImplies(k == reflect.Bool && val.Bool(), s == "true") && vImplies(k == reflect.Bool && !val.Bool(), s == "false")
	})
	vEnsures("float64", func() bool {
		return vImplies(k == reflect.Float64, err == nil && b == nil) && vImplies(k == reflect.Float64 && vFin(val.Float()), vFloatOK(s) && vFSame(vFloatOf(s), val.Float()) && strings.TrimSpace(s) == s && len(s) > 0)
	})
	vEnsures("float32", func() bool {
		return vImplies(k == reflect.Float32, err == nil && b == nil) && vImplies(k == reflect.Float32 && vFin(val.Float()), vFloatOK32(s) && vFSame(vFloatOf32(s), val.Float()) && strings.TrimSpace(s) == s && len(s) > 0)
	})
	vEnsures("text", func() bool {
		return vImplies(k == reflect.String, err == nil && b == nil && s == vGhostStr("rstr", val))
	})
	vEnsures("bytes", func() bool {
		return vImplies((k == reflect.Slice || k == reflect.Array) && typ.Elem().Kind() == reflect.Uint8, err == nil && b != nil && s == "" && vBytes(b) == vGhostStr("rstr", val))
	})
	vEnsures("other kinds are refused", func() bool {
		return vImplies(!isInt(k) && !isUint(k) && k != reflect.Float64 && k != reflect.Float32 && k != reflect.Bool && k != reflect.String && !((k == reflect.Slice || k == reflect.Array) && typ.Elem().Kind() == reflect.Uint8), err != nil && s == "" && b == nil)
	})
	return s, b, err
}

// What marshalSimple writes for a number or boolean, copyValue reads as the same.
//
//verif:client
//verif:prop C20 C21
func cliNumberBack(p *printer, typ reflect.Type, val, dst reflect.Value) {
	vRequires(func() bool {
		return typ != nil && val.Kind() != reflect.Invalid && vSame(typ, val.Type()) && dst.Kind() == val.Kind() && !vSame(dst, val)
	})
	k := val.Kind()
	vRequires(func() bool {
		return isInt(k) || isUint(k) || k == reflect.Bool || (k == reflect.Float32 || k == reflect.Float64) && vFin(val.Float())
	})
	s, b, err := p.marshalSimple(typ, val)
	vAssert("written", func() bool { return err == nil && b == nil && len(s) > 0 })
	err = copyValue(dst, []byte(s))
	vAssert("read", func() bool { return err == nil })
	vAssert("integer", func() bool { return vImplies(isInt(k), dst.Int() == val.Int()) })
	vAssert("unsigned", func() bool { return vImplies(isUint(k), dst.Uint() == val.Uint()) })
	vAssert("boolean", func() bool { return vImplies(k == reflect.Bool, dst.Bool() == val.Bool()) })
	vAssert("float", func() bool {
		return vImplies(k == reflect.Float32 || k == reflect.Float64, vFSame(dst.Float(), val.Float()))
	})
}
