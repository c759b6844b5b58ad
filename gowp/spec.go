package main

// Intrinsics of the specification language (declared in contracts/lib.go.txt).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

func newBig(i int64) *big.Int { return big.NewInt(i) }

type intrinsicFn func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome

var intrinsics map[string]intrinsicFn

func ret1(st *State, v Value) []outcome { return []outcome{{st, []Value{v}}} }

func strConst(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.Op != "strlit" {
		unsup("name must be a string literal")
	}
	return t.Name
}

func (fr *Frame) conf() *conFrame {
	for f := fr; f != nil; f = f.caller {
		if f.con != nil {
			return f.con
		}
	}
	return nil
}

// elems of a variadic argument
func (ex *Exec) variadic(st *State, v Value) []Value {
	s := v.(*SliceVal)
	n, ok := s.Len.i64()
	if !ok {
		unsup("variadic argument of unknown length")
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		out = append(out, ex.load(st, ex.sliceElem(st, s, IntT(i))))
	}
	return out
}

func ifacePtr(v Value) *Ptr {
	if iv, ok := v.(*IfaceVal); ok {
		if p, ok := iv.V.(*Ptr); ok {
			return p
		}
	}
	if p, ok := v.(*Ptr); ok {
		return p
	}
	unsup("pointer expected, got %T", v)
	return nil
}

func init() {
	intrinsics = map[string]intrinsicFn{
		"vRequires": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.con
			t := ex.evalBool(fr, st, args[0])
			if con.use {
				ex.obligation(st, con.caller, "pre", con.c.Name, con.pos, t)
			} else {
				st.assume(t)
			}
			return []outcome{{st: st}}
		},
		"vEnsures": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.con
			name := strConst(args[0])
			if con.c.Lemma && !con.use {
				con.defEns = append(append([]defEns{}, con.defEns...), defEns{name, args[1].(*FuncVal)})
				return []outcome{{st: st}}
			}
			t := ex.evalBool(fr, st, args[1])
			if con.use {
				st.assume(t)
			} else {
				ex.obligation(st, fr, "post", name, pos, t)
			}
			if con.c.Lemma && con.use {
				return []outcome{{st: st}}
			}
			return []outcome{{st: st}}
		},
		"vAssert": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			if fr.con != nil && fr.con.use {
				return []outcome{{st: st}}
			}
			ex.obligation(st, fr, "assert", strConst(args[0]), pos, ex.evalBool(fr, st, args[1]))
			return []outcome{{st: st}}
		},
		// vProof: a lemma is being proved, not used
		"vProof": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, BoolT(fr.con != nil && !fr.con.use))
		},
		"vAssume": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ex.assumption("assumed: " + strConst(args[0]))
			st.assume(ex.evalBool(fr, st, args[1]))
			return []outcome{{st: st}}
		},
		"vModifies": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.con
			for _, a := range ex.variadic(st, args[0]) {
				con.mods = append(append([]string{}, con.mods...), strConst(a))
			}
			return []outcome{{st: st}}
		},
		"vModifiesAt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.con
			for _, a := range ex.variadic(st, args[0]) {
				con.modAt = append(append([]*Ptr{}, con.modAt...), ifacePtr(a))
			}
			return []outcome{{st: st}}
		},
		"vOld": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			pre := fr.preState()
			if pre == nil {
				pre = st
			}
			// variables captured by the closure may be declared after the call
			s := pre.clone()
			for k, v := range st.objs {
				if _, ok := s.objs[k]; !ok && !s.mat[k] {
					s.objs[k] = v
					s.objT[k] = st.objT[k]
				}
			}
			// and those that only the contract itself assigns keep their value
			if f := args[0].(*FuncVal); f.Fn.Parent() != nil {
				for i, b := range f.Bind {
					if p, ok := b.(*Ptr); ok && p.Kind == PLocal && i < len(f.Fn.FreeVars) && contractLocal(f.Fn, i) {
						if v, ok := st.objs[p.Obj]; ok && !s.mat[p.Obj] && !st.mat[p.Obj] {
							s.objs[p.Obj] = v
						}
					}
				}
			}
			s.pc = st.pc
			s.known = st.known
			return []outcome{{st, ex.evalPure(fr, st, s, args[0].(*FuncVal), nil)}}
		},
		"vEntry": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			if ex.entrySt == nil {
				unsup("vEntry outside an invariant")
			}
			s := ex.entrySt.clone()
			for k, v := range st.objs {
				if _, ok := s.objs[k]; !ok && !s.mat[k] {
					s.objs[k] = v
					s.objT[k] = st.objT[k]
				}
			}
			s.pc = st.pc
			s.known = st.known
			return []outcome{{st, ex.evalPure(fr, st, s, args[0].(*FuncVal), nil)}}
		},
		"vForall": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.quant(fr, st, args, true))
		},
		"vExists": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.quant(fr, st, args, false))
		},
		"vForallRef": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			f := args[0].(*FuncVal)
			pt := f.Fn.Signature.Params().At(0).Type()
			d := ex.qdepth
			ex.qdepth++
			b := BVarAt(d, SRef)
			body := ex.evalPure(fr, st, st, f, []Value{&Ptr{Kind: PRef, Ref: b, T: under(pt).(*types.Pointer).Elem()}})[0].(*Term)
			ex.qdepth--
			return ret1(st, ForallT([]*Term{b}, nil, body))
		},
		"vForallStr": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			f := args[0].(*FuncVal)
			d := ex.qdepth
			ex.qdepth++
			b := BVarAt(d, SStr)
			body := ex.evalPure(fr, st, st, f, []Value{b})[0].(*Term)
			ex.qdepth--
			return ret1(st, ForallT([]*Term{b}, nil, body))
		},
		"vImplies": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ImpT(args[0].(*Term), args[1].(*Term)))
		},
		"vIff": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, EqT(args[0].(*Term), args[1].(*Term)))
		},
		// vIsNew: allocated during the call under contract
		"vIsNew": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.conf()
			if con.use {
				return ret1(st, TTrue)
			}
			var r *Term
			switch x := args[0].(type) {
			case *IfaceVal:
				switch y := x.V.(type) {
				case *Ptr:
					if y.Kind == PLocal {
						return ret1(st, BoolT(y.Obj > con.mark))
					}
					r = y.Ref
				case *SliceVal:
					if y.Local != nil {
						return ret1(st, BoolT(y.Local.Obj > con.mark))
					}
					r = y.Arr
				}
			}
			if r == nil {
				unsup("vIsNew of %T", args[0])
			}
			return ret1(st, isNewTerm(r, con.mark))
		},
		"vSame": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.sameVal(st, args[0], args[1]))
		},
		"vOut": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.readSlot(st, "$out", []*Term{ex.ifaceRef(st, args[0].(*IfaceVal))}, slot{"", SStr, nil, false}))
		},
		"vSetOut": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ex.writeSlot(st, "$out", []*Term{ex.ifaceRef(st, args[0].(*IfaceVal))}, slot{"", SStr, nil, false}, args[1].(*Term))
			return []outcome{{st: st}}
		},
		"vSetInt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ex.writeSlot(st, "$"+strConst(args[0]), []*Term{ex.ifaceRef(st, args[1].(*IfaceVal))}, slot{"", SInt, nil, false}, args[2].(*Term))
			return []outcome{{st: st}}
		},
		"vGhostInt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.readSlot(st, "$"+strConst(args[0]), []*Term{ex.ifaceRef(st, args[1].(*IfaceVal))}, slot{"", SInt, nil, false}))
		},
		"vGhostStr": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.readSlot(st, "$"+strConst(args[0]), []*Term{ex.ifaceRef(st, args[1].(*IfaceVal))}, slot{"", SStr, nil, false}))
		},
		"vGhostErr": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.ghostErr(st, ex.ifaceRef(st, args[0].(*IfaceVal))))
		},
		// vDecreases in lemmas: the measure must decrease at recursive uses
		"vDecreases": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			con := fr.con
			m := args[0].(*Term)
			if con.use {
				// find the lemma or function being verified with the same contract
				for f := con.caller; f != nil; f = f.caller {
					if f.con != nil && !f.con.use && f.con.c == con.c {
						if om, ok := st.ghost["measure"]; ok {
							ex.obligation(st, con.caller, "decreases", con.c.Name, con.pos, AndT(LtT(m, om.(*Term)), LeT(IntT(0), om.(*Term))))
						}
					}
				}
			} else {
				st.ghost["measure"] = m
			}
			return []outcome{{st: st}}
		},
		"vBytes": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.bytesToStr(st, args[0].(*SliceVal)))
		},
		"vReal": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			unsup("vReal")
			return nil
		},
		// vFin: finite; vFLe(f, num, den): f <= num/den exactly, ...
		"vFin": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, EqT(fcls(args[0].(*Term)), IntT(0)))
		},
		"vFIs": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x := args[0].(*Term)
			return ret1(st, AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), ToReal(args[1].(*Term)))))
		},
		"vFMulIs": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x := args[0].(*Term)
			return ret1(st, AndT(EqT(fcls(x), IntT(0)), EqT(RMul(fval(x), ToReal(args[1].(*Term))), ToReal(args[2].(*Term)))))
		},
		// vFNear(x, n, d, e): |x*d - n| * 2^e <= |n|   (relative error 2^-e of n/d)
		"vFNear": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x, n, d := args[0].(*Term), ToReal(args[1].(*Term)), ToReal(args[2].(*Term))
			e, _ := args[3].(*Term).i64()
			sc := RatT(new(big.Rat).SetInt(new(big.Int).Lsh(big1, uint(e))))
			diff := RMul(sc, RSub(RMul(fval(x), d), n))
			absn := mk(&Term{Op: "ite", Args: []*Term{LeT(RatT(new(big.Rat)), n), n, RSub(RatT(new(big.Rat)), n)}, Sort: SReal})
			return ret1(st, AndT(EqT(fcls(x), IntT(0)), LeT(diff, absn), LeT(RSub(RatT(new(big.Rat)), diff), absn)))
		},
		// vFClose(x, n, d, e): |x*d - n| * 2^e <= |n| + d
		"vFClose": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x, n, d := args[0].(*Term), ToReal(args[1].(*Term)), ToReal(args[2].(*Term))
			e, _ := args[3].(*Term).i64()
			sc := RatT(new(big.Rat).SetInt(new(big.Int).Lsh(big1, uint(e))))
			diff := RMul(sc, RSub(RMul(fval(x), d), n))
			bound := RAdd(rAbs(n), d)
			return ret1(st, AndT(EqT(fcls(x), IntT(0)), LeT(diff, bound), LeT(rNeg(diff), bound)))
		},
		// vFBetween(x, d, lo, hi): lo <= x*d <= hi
		"vFBetween": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x := RMul(fval(args[0].(*Term)), ToReal(args[1].(*Term)))
			return ret1(st, AndT(EqT(fcls(args[0].(*Term)), IntT(0)), LeT(ToReal(args[2].(*Term)), x), LeT(x, ToReal(args[3].(*Term)))))
		},
		"vFLeInt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, LeT(fval(args[0].(*Term)), ToReal(args[1].(*Term))))
		},
		"vIntLeF": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, LeT(ToReal(args[0].(*Term)), fval(args[1].(*Term))))
		},
		"vTypeIs": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			a, b := args[0].(*IfaceVal), args[1].(*IfaceVal)
			return ret1(st, EqT(a.Typ, b.Typ))
		},
		"vAllDigits": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ex.digitFacts(st, args[0].(*Term))
			return ret1(st, ex.allDigits(args[0].(*Term)))
		},
		"vDigitsVal": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ex.digitFacts(st, args[0].(*Term))
			return ret1(st, ex.digitsVal(args[0].(*Term)))
		},
		"vMapGet": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			mt := under(c.Args[0].Type()).(*types.Map)
			v, d := ex.mapGet(st, args[0].(*Term), mt, args[1])
			return []outcome{{st, []Value{v, d}}}
		},
		"vUninterp": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return nil
		},
		// vCharAt(s,i): byte value as int without bounds obligations
		"vByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, SAt(args[0].(*Term), args[1].(*Term)))
		},
		"vRuneAt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			r, w := ex.decodeRune(st, args[0].(*Term), args[1].(*Term))
			return []outcome{{st, []Value{r, w}}}
		},
		"vForget": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return []outcome{{st: st}}
		},
		// vApp(name, args...) uninterpreted functions over strings and ints
		"vAppStr": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("u!"+strConst(args[0]), SStr, ex.appArgs(st, args[1])...))
		},
		"vAppInt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("u!"+strConst(args[0]), SInt, ex.appArgs(st, args[1])...))
		},
		"vAppBool": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("u!"+strConst(args[0]), SBool, ex.appArgs(st, args[1])...))
		},
	}
}

func (ex *Exec) appArgs(st *State, v Value) []*Term {
	var out []*Term
	for _, a := range ex.variadic(st, v) {
		iv := a.(*IfaceVal)
		if iv.T == nil {
			out = append(out, iv.Typ, iv.Ref)
			continue
		}
		out = append(out, ex.flatten(st, iv.V, iv.T)...)
	}
	return out
}

func isNewTerm(r *Term, mark int) *Term {
	switch {
	case r.Op == "ite":
		return IteT(r.Args[0], isNewTerm(r.Args[1], mark), isNewTerm(r.Args[2], mark))
	case r.Op == "app" && (strings.HasPrefix(r.Name, "sub!") || strings.HasPrefix(r.Name, "elt!")):
		return isNewTerm(r.Args[0], mark)
	}
	return BoolT(r.Op == "var" && strings.HasPrefix(r.Name, "obj!") && mentionsAfter(r, mark))
}

// sameVal: identity of two values of any type (interfaces compared by payload).
func (ex *Exec) sameVal(st *State, a, b Value) *Term {
	x, ok1 := a.(*IfaceVal)
	y, ok2 := b.(*IfaceVal)
	if ok1 && ok2 && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
		ta, tb := ex.flatten(st, x.V, x.T), ex.flatten(st, y.V, y.T)
		var cs []*Term
		for i := range ta {
			if ta[i].Sort == SStr {
				cs = append(cs, SEq(ta[i], tb[i]))
			} else {
				cs = append(cs, EqT(ta[i], tb[i]))
			}
		}
		return AndT(cs...)
	}
	if ok1 && ok2 {
		return AndT(EqT(x.Typ, y.Typ), EqT(ex.ifaceRef(st, x), ex.ifaceRef(st, y)))
	}
	unsup("vSame")
	return nil
}

func (ex *Exec) quant(fr *Frame, st *State, args []Value, all bool) *Term {
	lo, hi := args[0].(*Term), args[1].(*Term)
	f := args[2].(*FuncVal)
	if a, ok := lo.i64(); ok {
		if b, ok := hi.i64(); ok && b-a <= 64 {
			r := TTrue
			if !all {
				r = TFalse
			}
			for i := a; i < b; i++ {
				t := ex.evalPure(fr, st, st, f, []Value{IntT(i)})[0].(*Term)
				if all {
					r = AndT(r, t)
				} else {
					r = OrT(r, t)
				}
			}
			return r
		}
	}
	d := ex.qdepth
	ex.qdepth++
	b := BVarAt(d, SInt)
	body := ex.evalPure(fr, st, st, f, []Value{b})[0].(*Term)
	ex.qdepth--
	in := AndT(LeT(lo, b), LtT(b, hi))
	if all {
		return ForallT([]*Term{b}, nil, ImpT(in, body))
	}
	return ExistsT([]*Term{b}, AndT(in, body))
}

func (ex *Exec) allDigits(s *Term) *Term {
	if isList(s) {
		var cs []*Term
		for _, b := range listOf(s) {
			cs = append(cs, LeT(IntT('0'), b), LeT(b, IntT('9')))
		}
		return AndT(cs...)
	}
	if s.Op == "scat" {
		var cs []*Term
		for _, p := range s.Args {
			cs = append(cs, ex.allDigits(p))
		}
		return AndT(cs...)
	}
	return AppT("alldigits", SBool, s)
}

// digitFacts: what it means for a part of a string to consist of digits.
func (ex *Exec) digitFacts(st *State, t *Term) {
	if t.Op != "app" || t.Name != "ssub" || !t.closed() {
		return
	}
	ad := AppT("alldigits", SBool, t)
	key := -ad.ID
	if st.known[key] {
		return
	}
	st.known[key] = true
	x, a, b := t.Args[0], t.Args[1], t.Args[2]
	ok := AndT(LeT(IntT(0), a), LeT(a, b), LeT(b, SLen(x)))
	dig := func(i *Term) *Term { return AndT(LeT(IntT('0'), SAt(x, i)), LeT(SAt(x, i), IntT('9'))) }
	k := BVarAt(ex.qdepth, SInt)
	st.fact(ForallT([]*Term{k}, []*Term{SAt(x, k)}, ImpT(AndT(ok, ad, LeT(a, k), LtT(k, b)), dig(k))))
	w := AppT("nodigit", SInt, t)
	st.fact(ImpT(AndT(ok, NotT(ad)), AndT(LeT(a, w), LtT(w, b), NotT(dig(w)))))
	st.fact(ImpT(ad, LeT(IntT(0), AppT("digitsval", SInt, t))))
}

func (ex *Exec) digitsVal(s *Term) *Term {
	if isList(s) {
		r := IntT(0)
		for _, b := range listOf(s) {
			r = AddT(MulT(IntT(10), r), SubT(b, IntT('0')))
		}
		return r
	}
	return AppT("digitsval", SInt, s)
}

func (ex *Exec) ghostErr(st *State, ref *Term) *IfaceVal {
	t := ex.readSlot(st, "$err.typ", []*Term{ref}, slot{"", SInt, nil, true})
	v := ex.readSlot(st, "$err.val", []*Term{ref}, slot{"", SRef, nil, false})
	return &IfaceVal{Typ: t, Ref: v}
}
func (ex *Exec) setGhostErr(st *State, ref *Term, e *IfaceVal) {
	ex.writeSlot(st, "$err.typ", []*Term{ref}, slot{"", SInt, nil, true}, e.Typ)
	ex.writeSlot(st, "$err.val", []*Term{ref}, slot{"", SRef, nil, false}, ex.ifaceRef(st, e))
}

// newErr is an arbitrary non-nil error distinct from every existing object.
func (ex *Exec) newErr(st *State, hint string) *IfaceVal {
	ex.fresh++
	typ := VarRT(fmt.Sprintf("v%d!%s.typ", ex.fresh, hint), big1, maxInt64)
	return &IfaceVal{Typ: typ, Ref: ex.newRef(nil)}
}

// someErr is an arbitrary non-nil error, possibly one that exists already.
func (ex *Exec) someErr(st *State, hint string) *IfaceVal {
	ex.fresh++
	typ := VarRT(fmt.Sprintf("v%d!%s.typ", ex.fresh, hint), big1, maxInt64)
	return &IfaceVal{Typ: typ, Ref: VarT(fmt.Sprintf("v%d!%s.val", ex.fresh, hint), SRef)}
}

var nilErr = &IfaceVal{Typ: IntT(0), Ref: TNull}

// contractLocal: the i'th variable captured by fn is only read, assigned and
// captured by name, so that no call under contract can have changed it.
func contractLocal(fn *ssa.Function, i int) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			switch x := mc.Bindings[i].(type) {
			case *ssa.FreeVar:
				for k, fv := range par.FreeVars {
					if fv == x {
						return contractLocal(par, k)
					}
				}
				return false
			case *ssa.Alloc:
				for _, r := range *x.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr != x {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
					default:
						return false
					}
				}
				return true
			}
			return false
		}
	}
	return false
}
