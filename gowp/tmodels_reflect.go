package main

// Model of package reflect, as far as the code that moves numbers and texts
// between XML and Go values uses it. A reflect.Value denotes a location, named by
// the box of the value; a location has a type, and contents that are state:
// $rnum (integers and booleans), $rflt, $rstr (strings and byte slices), $relem
// (the location that a pointer leads to).

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const (
	rkInvalid = 0
	rkBool    = 1
	rkInt     = 2
	rkInt64   = 6
	rkUint    = 7
	rkUintptr = 12
	rkFloat32 = 13
	rkFloat64 = 14
	rkC128    = 16
	rkArray   = 17
	rkIface   = 20
	rkPointer = 22
	rkSlice   = 23
	rkString  = 24
)

var rMinInt64 = new(big.Int).Neg(new(big.Int).Lsh(big1, 63))

func rvType(loc *Term) *Term { return AppT("rv!type", SRef, loc) }
func rtKind(t *Term) *Term {
	funRanges["rt!kind"] = [2]*big.Int{big0, newBig(26)}
	return AppT("rt!kind", SInt, t)
}
func rvKind(loc *Term) *Term { return rtKind(rvType(loc)) }

func rtBits(k *Term) *Term {
	is := func(n int64) *Term { return EqT(k, IntT(n)) }
	return IteT(OrT(is(3), is(8)), IntT(8),
		IteT(OrT(is(4), is(9)), IntT(16),
			IteT(OrT(is(5), is(10), is(13)), IntT(32),
				IteT(is(16), IntT(128), IntT(64)))))
}

func rBetween(k *Term, lo, hi int64) *Term { return AndT(LeT(IntT(lo), k), LeT(k, IntT(hi))) }

// pow2m(bits-sh) for the widths that occur, as a term.
func pow2Bits(bits *Term, sh int64) *Term {
	p := func(n int64) *Term { return BigT(new(big.Int).Lsh(big1, uint(n-sh))) }
	return IteT(EqT(bits, IntT(8)), p(8), IteT(EqT(bits, IntT(16)), p(16), IteT(EqT(bits, IntT(32)), p(32), p(64))))
}

func round32(x *Term) *Term { return AppT("round32", SFlt, x) }

// floatTextB: the text is a number of the given size, and its value.
func floatTextB(s, bits *Term) (ok, v *Term) {
	ok64, v64 := floatText(s)
	is32 := EqT(bits, IntT(32))
	return IteT(is32, AppT("floatok32", SBool, s), ok64), IteT(is32, AppT("floatof32", SFlt, s), v64)
}

// intText: s is a decimal number with an optional sign, and its value.
func (ex *Exec) intText(st *State, s *Term) (ok, v *Term) {
	r := SSub(s, IntT(1), SLen(s))
	ex.digitFacts(st, s)
	ex.digitFacts(st, r)
	a := AndT(LtT(IntT(0), SLen(s)), ex.allDigits(s))
	first := SAt(s, IntT(0))
	minus := EqT(first, IntT('-'))
	b := AndT(LtT(IntT(1), SLen(s)), OrT(minus, EqT(first, IntT('+'))), ex.allDigits(r))
	v1, v2 := ex.digitsVal(s), ex.digitsVal(r)
	st.fact(ImpT(ex.allDigits(s), LeT(IntT(0), v1)))
	st.fact(ImpT(ex.allDigits(r), LeT(IntT(0), v2)))
	st.fact(ImpT(a, rBetween(first, '0', '9')))
	return OrT(a, b), IteT(a, v1, IteT(minus, SubT(IntT(0), v2), v2))
}

// trimT is strings.TrimSpace(s).
func (ex *Exec) trimT(st *State, s *Term) *Term {
	t := AppT("trimspace", SStr, s)
	st.fact(LeT(SLen(t), SLen(s)))
	plain := func(b *Term) *Term { return rBetween(b, 0x21, 0x7e) }
	st.fact(ImpT(AndT(LtT(IntT(0), SLen(s)), plain(SAt(s, IntT(0))), plain(SAt(s, SubT(SLen(s), IntT(1))))), SEq(t, s)))
	return t
}

func init() {
	type M = modelFn
	fltSlot, strSlot, refSlot := slot{"", SFlt, nil, false}, slot{"", SStr, nil, false}, slot{"", SRef, nil, false}
	rvT := func(c *ssa.CallCommon) types.Type { return c.StaticCallee().Signature.Recv().Type() }
	loc := func(ex *Exec, st *State, v Value, t types.Type) *Term {
		return ex.ifaceRef(st, &IfaceVal{Typ: IntT(1), T: t, V: v})
	}
	type V func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome
	// method of reflect.Value that panics unless the kind is within one of the ranges
	meth := func(f V, kinds ...int64) M {
		return func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			l := loc(ex, st, args[0], rvT(c))
			if len(kinds) > 0 {
				k, ok := rvKind(l), TFalse
				for i := 0; i < len(kinds); i += 2 {
					ok = OrT(ok, rBetween(k, kinds[i], kinds[i+1]))
				}
				ex.safety(st, fr, c.StaticCallee().Name()+" of a reflect.Value of another kind", pos, ok)
			}
			return f(ex, fr, st, c, l, args[1:], pos)
		}
	}
	none := func(st *State) []outcome { return []outcome{{st: st}} }
	setNum := func(signed bool) V {
		return func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			x := args[0].(*Term)
			bits := rtBits(rvKind(l))
			in := AndT(LeT(IntT(0), x), LtT(x, pow2Bits(bits, 0)))
			if signed {
				in = AndT(LeT(SubT(IntT(0), pow2Bits(bits, 1)), x), LtT(x, pow2Bits(bits, 1)))
			}
			ex.writeSlot(st, "$rnum", []*Term{l}, intSlot, IteT(in, x, AppT("rv!wrap", SInt, bits, x)))
			return none(st)
		}
	}
	rtype := func(ex *Exec, t *Term) *IfaceVal {
		return &IfaceVal{Typ: VarRT("tag!reflect.rtype", big1, maxInt64), Ref: t}
	}
	m := map[string]M{
		"(reflect.Value).Kind": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, rvKind(l))
		}),
		"(reflect.Value).IsValid": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, NotT(EqT(rvKind(l), IntT(rkInvalid))))
		}),
		"(reflect.Value).CanAddr": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("rv!addressable", SBool, l))
		}),
		"(reflect.Value).CanInterface": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("rv!exported", SBool, l))
		}, 1, 26),
		"(reflect.Value).Addr": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			ex.safety(st, fr, "Addr of a value that is not addressable", pos, AppT("rv!addressable", SBool, l))
			p := ex.freshVal(st, "addr", resT(c, 0))
			pl := loc(ex, st, p, resT(c, 0))
			st.fact(EqT(ex.readSlot(st, "$relem", []*Term{pl}, refSlot), l))
			st.fact(AndT(EqT(rvType(pl), AppT("rt!ptrto", SRef, rvType(l))), EqT(rvKind(pl), IntT(rkPointer)), EqT(AppT("rt!elem", SRef, rvType(pl)), rvType(l))))
			return ret1(st, p)
		}),
		"(reflect.Value).Interface": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.freshVal(st, "interface", resT(c, 0)))
		}, 1, 26),
		"(reflect.Value).IsZero": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			k := rvKind(l)
			n := ex.readSlot(st, "$rnum", []*Term{l}, intSlot)
			x := ex.readSlot(st, "$rflt", []*Term{l}, fltSlot)
			e := ex.readSlot(st, "$relem", []*Term{l}, refSlot)
			s := ex.readSlot(st, "$rstr", []*Term{l}, strSlot)
			fz := AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), RatT(new(big.Rat))), NotT(AppT("negzero", SBool, x)))
			return ret1(st, IteT(rBetween(k, rkBool, rkUintptr), EqT(n, IntT(0)),
				IteT(rBetween(k, rkFloat32, rkFloat64), fz,
					IteT(OrT(EqT(k, IntT(rkIface)), EqT(k, IntT(rkPointer))), EqT(e, TNull),
						IteT(EqT(k, IntT(rkString)), EqT(SLen(s), IntT(0)), AppT("rv!zero", SBool, l))))))
		}, 1, 26),
		"(reflect.Value).Type": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, rtype(ex, rvType(l)))
		}, 1, 26),
		"(reflect.Value).IsNil": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, EqT(ex.readSlot(st, "$relem", []*Term{l}, refSlot), TNull))
		}, 18, 23),
		"(reflect.Value).Elem": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			e := ex.readSlot(st, "$relem", []*Term{l}, refSlot)
			v := ex.unbox(st, e, rvT(c))
			st.fact(ImpT(NotT(EqT(e, TNull)), EqT(loc(ex, st, v, rvT(c)), e)))
			st.fact(ImpT(EqT(e, TNull), EqT(rvKind(loc(ex, st, v, rvT(c))), IntT(rkInvalid))))
			st.fact(ImpT(AndT(NotT(EqT(e, TNull)), EqT(rvKind(l), IntT(rkPointer))), EqT(rvType(e), AppT("rt!elem", SRef, rvType(l)))))
			return ret1(st, v)
		}, rkIface, rkIface, rkPointer, rkPointer),
		"(reflect.Value).Set": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			x := loc(ex, st, args[0], rvT(c))
			for _, s := range []struct {
				n string
				s slot
			}{{"$rnum", intSlot}, {"$rflt", fltSlot}, {"$rstr", strSlot}, {"$relem", refSlot}} {
				ex.writeSlot(st, s.n, []*Term{l}, s.s, ex.readSlot(st, s.n, []*Term{x}, s.s))
			}
			return none(st)
		}, 1, 26),
		"reflect.PointerTo": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, rtype(ex, AppT("rt!ptrto", SRef, ex.ifaceRef(st, args[0].(*IfaceVal)))))
		},
		"reflect.New": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			t := resT(c, 0)
			tr := ex.ifaceRef(st, args[0].(*IfaceVal))
			p := ex.freshVal(st, "reflect.New", t)
			l := loc(ex, st, p, t)
			e := ex.newRef(nil)
			st.fact(NotT(EqT(e, TNull)))
			st.fact(EqT(ex.readSlot(st, "$relem", []*Term{l}, refSlot), e))
			st.fact(AndT(EqT(rvKind(l), IntT(rkPointer)), EqT(AppT("rt!elem", SRef, rvType(l)), tr), EqT(rvType(e), tr)))
			ex.writeSlot(st, "$rnum", []*Term{e}, intSlot, IntT(0))
			ex.writeSlot(st, "$rstr", []*Term{e}, strSlot, StrLit(""))
			ex.writeSlot(st, "$relem", []*Term{e}, refSlot, TNull)
			return ret1(st, p)
		},
		"(reflect.Value).SetInt":  meth(setNum(true), rkInt, rkInt64),
		"(reflect.Value).SetUint": meth(setNum(false), rkUint, rkUintptr),
		"(reflect.Value).SetFloat": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			x := args[0].(*Term)
			st.fact(ImpT(AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), RatT(new(big.Rat)))), EqT(round32(x), x)))
			ex.writeSlot(st, "$rflt", []*Term{l}, fltSlot, IteT(EqT(rvKind(l), IntT(rkFloat32)), round32(x), x))
			return none(st)
		}, rkFloat32, rkFloat64),
		"(reflect.Value).SetBool": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			ex.writeSlot(st, "$rnum", []*Term{l}, intSlot, IteT(args[0].(*Term), IntT(1), IntT(0)))
			return none(st)
		}, rkBool, rkBool),
		"(reflect.Value).SetString": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			ex.writeSlot(st, "$rstr", []*Term{l}, strSlot, args[0].(*Term))
			return none(st)
		}, rkString, rkString),
		"(reflect.Value).SetBytes": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			ex.safety(st, fr, "SetBytes of a slice of other elements", pos, EqT(rtKind(AppT("rt!elem", SRef, rvType(l))), IntT(8)))
			ex.writeSlot(st, "$rstr", []*Term{l}, strSlot, ex.bytesToStr(st, args[0].(*SliceVal)))
			return none(st)
		}, rkSlice, rkSlice),
		"(reflect.Value).Int": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			n := ex.readSlot(st, "$rnum", []*Term{l}, intSlot)
			p := pow2Bits(rtBits(rvKind(l)), 1)
			st.fact(ImpT(rBetween(rvKind(l), rkInt, rkInt64), AndT(LeT(SubT(IntT(0), p), n), LtT(n, p))))
			return ret1(st, n)
		}, rkInt, rkInt64),
		"(reflect.Value).Uint": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			n := ex.readSlot(st, "$rnum", []*Term{l}, intSlot)
			st.fact(ImpT(rBetween(rvKind(l), rkUint, rkUintptr), AndT(LeT(IntT(0), n), LtT(n, pow2Bits(rtBits(rvKind(l)), 0)))))
			return ret1(st, n)
		}, rkUint, rkUintptr),
		"(reflect.Value).Float": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			x := ex.readSlot(st, "$rflt", []*Term{l}, fltSlot)
			st.fact(ImpT(EqT(rvKind(l), IntT(rkFloat32)), EqT(round32(x), x)))
			return ret1(st, x)
		}, rkFloat32, rkFloat64),
		"(reflect.Value).Bool": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			n := ex.readSlot(st, "$rnum", []*Term{l}, intSlot)
			st.fact(ImpT(EqT(rvKind(l), IntT(rkBool)), rBetween(n, 0, 1)))
			return ret1(st, EqT(n, IntT(1)))
		}, rkBool, rkBool),
		"(reflect.Value).String": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			return ret1(st, IteT(EqT(rvKind(l), IntT(rkString)), ex.readSlot(st, "$rstr", []*Term{l}, strSlot), AppT("rv!name", SStr, l)))
		}),
		"(reflect.Value).Len": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			k := rvKind(l)
			ex.safety(st, fr, "Len of a reflect.Value of another kind", pos, OrT(rBetween(k, rkArray, 18), EqT(k, IntT(21)), EqT(k, IntT(rkSlice)), EqT(k, IntT(rkString))))
			n := SLen(ex.readSlot(st, "$rstr", []*Term{l}, strSlot))
			f := ex.readSlot(st, "$rlen", []*Term{l}, slot{"", SInt, nil, true})
			st.fact(LeT(IntT(0), f))
			el := rtKind(AppT("rt!elem", SRef, rvType(l)))
			st.fact(ImpT(OrT(EqT(k, IntT(rkString)), EqT(el, IntT(8))), EqT(f, n)))
			return ret1(st, f)
		}),
		"(reflect.Value).Bytes": meth(func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, l *Term, args []Value, pos token.Pos) []outcome {
			ex.safety(st, fr, "Bytes of other elements", pos, EqT(rtKind(AppT("rt!elem", SRef, rvType(l))), IntT(8)))
			ex.safety(st, fr, "Bytes of an array that is not addressable", pos, ImpT(EqT(rvKind(l), IntT(rkArray)), AppT("rv!addressable", SBool, l)))
			return ret1(st, ex.strToBytes(st, ex.readSlot(st, "$rstr", []*Term{l}, strSlot), types.Typ[types.Uint8]))
		}, rkArray, rkArray, rkSlice, rkSlice),
		"invoke:reflect.Type.Bits": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			k := rtKind(ex.ifaceRef(st, args[0].(*IfaceVal)))
			ex.safety(st, fr, "Bits of a type that is no number", pos, rBetween(k, rkInt, rkC128))
			return ret1(st, rtBits(k))
		},
		"invoke:reflect.Type.Kind": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, rtKind(ex.ifaceRef(st, args[0].(*IfaceVal))))
		},
		"invoke:reflect.Type.Implements": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("rt!implements", SBool, ex.ifaceRef(st, args[0].(*IfaceVal)), ex.ifaceRef(st, args[1].(*IfaceVal))))
		},
		"invoke:reflect.Type.String": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("rt!name", SStr, ex.ifaceRef(st, args[0].(*IfaceVal))))
		},
		"invoke:reflect.Type.Elem": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			t := ex.ifaceRef(st, args[0].(*IfaceVal))
			k := rtKind(t)
			ex.safety(st, fr, "Elem of a type without", pos, OrT(EqT(k, IntT(rkArray)), EqT(k, IntT(18)), EqT(k, IntT(21)), rBetween(k, rkPointer, rkSlice)))
			return ret1(st, rtype(ex, AppT("rt!elem", SRef, t)))
		},
		"reflect.ValueOf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			v := ex.freshVal(st, "reflected", resT(c, 0))
			if iv := args[0].(*IfaceVal); iv.T != nil {
				if sl, ok := iv.V.(*SliceVal); ok {
					if ex.reflected == nil {
						ex.reflected = map[*Term]*SliceVal{}
					}
					ex.reflected[loc(ex, st, v, resT(c, 0))] = sl
				}
			}
			return ret1(st, v)
		},
		// into a slice made here, from bytes
		"reflect.Copy": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			t := c.Args[0].Type()
			sl := ex.reflected[loc(ex, st, args[0], t)]
			if sl == nil {
				unsup("reflect.Copy")
			}
			l := loc(ex, st, args[1], t)
			k := rvKind(l)
			ex.safety(st, fr, "reflect.Copy of other elements", pos, AndT(OrT(EqT(k, IntT(rkArray)), EqT(k, IntT(rkSlice))), EqT(rtKind(AppT("rt!elem", SRef, rvType(l))), IntT(8))))
			return ret1(st, ex.copyVal(fr, st, sl, ex.readSlot(st, "$rstr", []*Term{l}, strSlot)))
		},
		"strings.TrimSpace": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.trimT(st, args[0].(*Term)))
		},
		"strconv.ParseBool": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			is := func(ws ...string) *Term {
				r := TFalse
				for _, w := range ws {
					r = OrT(r, SEq(s, StrLit(w)))
				}
				return r
			}
			yes, no := is("1", "t", "T", "true", "TRUE", "True"), is("0", "f", "F", "false", "FALSE", "False")
			return ex.forkOn(st, yes, func(st *State) []outcome {
				return []outcome{{st, []Value{TTrue, nilErr}}}
			}, func(st *State) []outcome {
				return ex.forkOn(st, no, func(st *State) []outcome {
					return []outcome{{st, []Value{TFalse, nilErr}}}
				}, func(st *State) []outcome {
					return []outcome{{st, []Value{TFalse, ex.newErr(st, "parsebool")}}}
				})
			})
		},
		"strconv.FormatBool": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, IteT(args[0].(*Term), StrLit("true"), StrLit("false")))
		},
		"strconv.ParseInt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s, bits := args[0].(*Term), args[2].(*Term)
			n := VarRT(freshName(ex, "int"), rMinInt64, maxInt64)
			bad := VarRT(freshName(ex, "int"), rMinInt64, maxInt64)
			if b, ok := args[1].(*Term).i64(); !ok || b != 10 {
				return retErr(ex, st, VarT(freshName(ex, "parsed"), SBool), []Value{n}, []Value{bad}, "parseint")
			}
			bits = IteT(EqT(bits, IntT(0)), IntT(64), bits)
			ok, v := ex.intText(st, s)
			p := pow2Bits(bits, 1)
			return retErrEq(ex, st, AndT(ok, LeT(SubT(IntT(0), p), v), LtT(v, p)), n, v, bad, "parseint")
		},
	}
	for k, f := range m {
		models[k] = f
	}
}

// retErrEq returns n with n = v where ok holds, and bad with an error otherwise.
func retErrEq(ex *Exec, st *State, ok, n, v, bad *Term, hint string) []outcome {
	return ex.forkOn(st, ok, func(st *State) []outcome {
		st.assume(EqT(n, v))
		return []outcome{{st, []Value{n, nilErr}}}
	}, func(st *State) []outcome {
		return []outcome{{st, []Value{bad, ex.newErr(st, hint)}}}
	})
}
