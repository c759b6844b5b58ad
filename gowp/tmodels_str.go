package main

// Trusted models of strings, strconv and fmt.Sprintf, and the intrinsics that
// let contracts talk about whole structs and about copies.

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decT is the decimal text of n.
func (ex *Exec) decT(st *State, n *Term) *Term {
	if n.isInt() {
		return StrLit(n.Val.String())
	}
	d := AppT("dec", SStr, n)
	if n.closed() && !st.known[-d.ID] {
		st.known[-d.ID] = true
		st.fact(LeT(IntT(1), SLen(d)))
		pos := LeT(IntT(0), n)
		st.fact(ImpT(pos, AndT(AppT("alldigits", SBool, d), EqT(AppT("digitsval", SInt, d), n))))
		st.fact(ImpT(AndT(LtT(IntT(0), n)), NotT(EqT(SAt(d, IntT(0)), IntT('0')))))
		st.fact(ImpT(NotT(pos), EqT(SAt(d, IntT(0)), IntT('-'))))
	}
	return d
}

// decEnds: what the digits of d, the decimal text of n, are when a sign goes first.
func (ex *Exec) decEnds(st *State, d, n *Term) {
	if d.Op == "strlit" {
		return
	}
	r := SSub(d, IntT(1), SLen(d))
	st.fact(ImpT(LtT(n, IntT(0)), AndT(LtT(IntT(1), SLen(d)), ex.allDigits(r), EqT(ex.digitsVal(r), SubT(IntT(0), n)), NotT(ex.allDigits(d)))))
	st.fact(rBetween(SAt(d, SubT(SLen(d), IntT(1))), '0', '9'))
	st.fact(ImpT(LeT(IntT(0), n), rBetween(SAt(d, IntT(0)), '0', '9')))
}

func lit(t Value) (string, bool) {
	x, ok := t.(*Term)
	if ok && x.Op == "strlit" {
		return x.Name, true
	}
	return "", false
}

// eqTerms lists the equalities that make two values of type t the same.
func (ex *Exec) sameTerms(st *State, a, b Value, t types.Type) *Term {
	x, y := ex.flatten(st, a, t), ex.flatten(st, b, t)
	var cs []*Term
	for i := range x {
		if x[i].Sort == SStr {
			cs = append(cs, SEq(x[i], y[i]))
		} else {
			cs = append(cs, EqT(x[i], y[i]))
		}
	}
	return AndT(cs...)
}

func (ex *Exec) zeroBut(st *State, v Value, t types.Type, path string, but map[string]bool) *Term {
	if but[path] {
		delete(but, path)
		return TTrue
	}
	if u, ok := under(t).(*types.Struct); ok {
		var cs []*Term
		for i, f := range v.(*StructVal).F {
			n := u.Field(i).Name()
			if path != "" {
				n = path + "." + n
			}
			cs = append(cs, ex.zeroBut(st, f, u.Field(i).Type(), n, but))
		}
		return AndT(cs...)
	}
	if sl, ok := v.(*SliceVal); ok {
		return EqT(sl.Len, IntT(0))
	}
	return ex.sameTerms(st, v, ex.zero(t), t)
}

func retErr(ex *Exec, st *State, ok *Term, vals []Value, bad []Value, hint string) []outcome {
	var outs []outcome
	b := st.clone()
	if ex.feasible(st, ok) {
		st.assumeBranch(ok)
		outs = append(outs, outcome{st, append(append([]Value{}, vals...), nilErr)})
	}
	if ex.feasible(b, NotT(ok)) {
		b.assumeBranch(NotT(ok))
		outs = append(outs, outcome{b, append(append([]Value{}, bad...), ex.newErr(b, hint))})
	}
	return outs
}

func (ex *Exec) sprintf(st *State, c *ssa.CallCommon, f string, args []Value) *Term {
	var out []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, StrLit(f[i:i+1]))
			continue
		}
		i++
		if i == len(f) {
			unsup("format %q", f)
		}
		if f[i] == '%' {
			out = append(out, StrLit("%"))
			continue
		}
		if k >= len(args) {
			unsup("format %q: missing argument", f)
		}
		iv := args[k].(*IfaceVal)
		k++
		if iv.T == nil {
			unsup("format %q: argument of unknown type", f)
		}
		if types.NewMethodSet(iv.T).Lookup(nil, "String") != nil || types.NewMethodSet(iv.T).Lookup(nil, "Error") != nil {
			unsup("format %q: argument with methods", f)
		}
		switch {
		case (f[i] == 'd' || f[i] == 'v') && isInteger(iv.T):
			out = append(out, ex.decT(st, iv.V.(*Term)))
		case (f[i] == 's' || f[i] == 'v') && isString(iv.T):
			out = append(out, iv.V.(*Term))
		case f[i] == 'U' && isInteger(iv.T):
			out = append(out, AppT("fmtU", SStr, iv.V.(*Term)))
		default:
			unsup("format %q", f)
		}
	}
	if k != len(args) {
		unsup("format %q: extra arguments", f)
	}
	return SCat(out...)
}

// parseUintM: strconv.ParseUint(s, base, bits) and ParseInt.
func (ex *Exec) parseNum(st *State, s *Term, signed bool, bits int64, want func() (ok, val *Term)) []outcome {
	ok, val := want()
	return retErr(ex, st, ok, []Value{val}, []Value{ex.freshInt(st, "parsebad")}, "parsenum")
}

func (ex *Exec) freshInt(st *State, hint string) *Term {
	return VarRT(freshName(ex, hint), nil, nil)
}

func firstIdx(s *Term, b byte) *Term {
	funRanges["firstidx"] = [2]*big.Int{newBig(-1), maxInt64}
	return AppT("firstidx", SInt, s, IntT(int64(b)))
}

// firstIdxT is the index of the first byte b in s, or -1.
func (ex *Exec) firstIdxT(st *State, s *Term, b byte) *Term {
	if isList(s) {
		r := IntT(-1)
		l := listOf(s)
		for i := len(l) - 1; i >= 0; i-- {
			r = IteT(EqT(l[i], IntT(int64(b))), IntT(int64(i)), r)
		}
		return r
	}
	x := firstIdx(s, b)
	if x.closed() && !st.known[-x.ID] {
		st.known[-x.ID] = true
		bt := IntT(int64(b))
		st.fact(AndT(LeT(IntT(-1), x), LtT(x, SLen(s))))
		st.fact(ImpT(LeT(IntT(0), x), EqT(SAt(s, x), bt)))
		d := ex.qdepth
		k := BVarAt(d, SInt)
		in := AndT(LeT(IntT(0), k), LtT(k, IteT(LeT(IntT(0), x), x, SLen(s))))
		if s.Op == "app" && s.Name == "ssub" {
			// in positions of the whole string
			y, lo, hi := s.Args[0], s.Args[1], s.Args[2]
			ok := AndT(LeT(IntT(0), lo), LeT(lo, hi), LeT(hi, SLen(y)))
			st.fact(ImpT(AndT(ok, LeT(IntT(0), x)), EqT(SAt(y, AddT(lo, x)), bt)))
			in := AndT(ok, LeT(lo, k), LtT(k, IteT(LeT(IntT(0), x), AddT(lo, x), hi)))
			st.fact(ForallT([]*Term{k}, []*Term{SAt(y, k)}, ImpT(in, NotT(EqT(SAt(y, k), bt)))))
			return x
		}
		st.fact(ForallT([]*Term{k}, []*Term{SAt(s, k)}, ImpT(in, NotT(EqT(SAt(s, k), bt)))))
	}
	return x
}

// contains: the slice of scalars holds v.
func (ex *Exec) sliceContains(st *State, sl *SliceVal, v *Term) *Term {
	at := func(i *Term) *Term { return ex.load(st, ex.sliceElem(st, sl, i)).(*Term) }
	eq := func(a *Term) *Term {
		if v.Sort == SStr {
			return SEq(a, v)
		}
		return EqT(a, v)
	}
	if sl.Len.isInt() && sl.Len.Val.IsInt64() && sl.Len.Val.Int64() <= 8 {
		r := TFalse
		for i := int64(0); i < sl.Len.Val.Int64(); i++ {
			r = OrT(r, eq(at(IntT(i))))
		}
		return r
	}
	if sl.Local != nil {
		unsup("slices.Contains on a local array")
	}
	w := VarRT(freshName(ex, "where"), big.NewInt(-1), maxInt64)
	st.assume(AndT(LeT(IntT(-1), w), LtT(w, sl.Len)))
	st.assume(ImpT(LeT(IntT(0), w), eq(at(w))))
	k := BVarAt(ex.qdepth, SInt)
	e := at(k)
	st.fact(ForallT([]*Term{k}, []*Term{e}, ImpT(AndT(LeT(IntT(0), k), LtT(k, sl.Len), LtT(w, IntT(0))), NotT(eq(e)))))
	return LeT(IntT(0), w)
}

func (ex *Exec) forkOn(st *State, c *Term, yes, no func(st *State) []outcome) []outcome {
	var outs []outcome
	b := st.clone()
	if ex.feasible(st, c) {
		st.assumeBranch(c)
		outs = append(outs, yes(st)...)
	}
	if ex.feasible(b, NotT(c)) {
		b.assumeBranch(NotT(c))
		outs = append(outs, no(b)...)
	}
	return outs
}

func uintMax(bits int64) *Term {
	return BigT(new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1))
}

func init() {
	type M = modelFn
	one := func(f func(ex *Exec, st *State, a []*Term) Value) M {
		return func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			var ts []*Term
			for _, a := range args {
				t, ok := a.(*Term)
				if !ok {
					unsup("model argument %T", a)
				}
				ts = append(ts, t)
			}
			return ret1(st, f(ex, st, ts))
		}
	}
	m := map[string]M{
		"fmt.Sprintf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			f, ok := lit(args[0])
			if !ok {
				unsup("format that is not constant")
			}
			return ret1(st, ex.sprintf(st, c, f, ex.variadic(st, args[1])))
		},
		"strconv.Itoa": one(func(ex *Exec, st *State, a []*Term) Value { return ex.decT(st, a[0]) }),
		"strconv.FormatInt": one(func(ex *Exec, st *State, a []*Term) Value {
			if k, ok := a[1].i64(); !ok || k != 10 {
				unsup("base other than 10")
			}
			d := ex.decT(st, a[0])
			ex.decEnds(st, d, a[0])
			return d
		}),
		"strconv.FormatUint": one(func(ex *Exec, st *State, a []*Term) Value {
			if k, ok := a[1].i64(); !ok || k != 10 {
				unsup("base other than 10")
			}
			d := ex.decT(st, a[0])
			ex.decEnds(st, d, a[0])
			return d
		}),
		"strconv.ParseUint": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			base, ok1 := args[1].(*Term).i64()
			bits, ok2 := args[2].(*Term).i64()
			if ok1 && base == 10 && (!ok2 || bits != 64) {
				bt := args[2].(*Term)
				ex.digitFacts(st, s)
				v := ex.digitsVal(s)
				st.fact(ImpT(ex.allDigits(s), LeT(IntT(0), v)))
				u64 := new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1)
				n := VarRT(freshName(ex, "uint"), new(big.Int), u64)
				bad := VarRT(freshName(ex, "uint"), new(big.Int), u64)
				return retErrEq(ex, st, AndT(LtT(IntT(0), SLen(s)), ex.allDigits(s), LtT(v, pow2Bits(IteT(EqT(bt, IntT(0)), IntT(64), bt), 0))), n, v, bad, "parseuint")
			}
			if !ok1 || !ok2 || base != 10 || bits != 64 {
				// any value or an error
				n := VarRT(freshName(ex, "uint"), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1))
				return retErr(ex, st, VarT(freshName(ex, "parsed"), SBool), []Value{n}, []Value{n}, "parseuint")
			}
			ex.digitFacts(st, s)
			v := ex.digitsVal(s)
			st.fact(ImpT(ex.allDigits(s), LeT(IntT(0), v)))
			ok := AndT(NotT(EqT(SLen(s), IntT(0))), ex.allDigits(s), LeT(v, uintMax(bits)))
			return ex.forkOn(st, ok, func(st *State) []outcome {
				n := VarRT(freshName(ex, "uint"), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1))
				st.assume(EqT(n, v))
				return []outcome{{st, []Value{n, nilErr}}}
			}, func(st *State) []outcome {
				n := VarRT(freshName(ex, "uint"), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1))
				return []outcome{{st, []Value{n, ex.newErr(st, "parseuint")}}}
			})
		},
		"strconv.FormatFloat": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			x := args[0].(*Term)
			f, _ := args[1].(*Term).i64()
			p, ok := args[2].(*Term).i64()
			b, _ := args[3].(*Term).i64()
			if f == 'g' && ok && p == -1 {
				// shortest text that reads back as x
				bits := args[3].(*Term)
				s := AppT("fmtg", SStr, x, bits)
				ok2, v := floatTextB(s, bits)
				st.fact(ImpT(AndT(EqT(fcls(x), IntT(0)), ImpT(EqT(bits, IntT(32)), EqT(round32(x), x))), AndT(ok2, EqT(v, x))))
				st.fact(LtT(IntT(0), SLen(s)))
				for _, i := range []*Term{IntT(0), SubT(SLen(s), IntT(1))} {
					st.fact(rBetween(SAt(s, i), 0x21, 0x7e))
				}
				return ret1(st, s)
			}
			if f != 'f' || !ok || p != -1 || b != 64 {
				unsup("FormatFloat other than ('f', -1, 64)")
			}
			s := AppT("fmtfloat", SStr, x)
			ok2, v := floatText(s)
			st.fact(AppT("u!plainDecimal", SBool, s))
			st.fact(ImpT(EqT(fcls(x), IntT(0)), AndT(ok2, EqT(fcls(v), IntT(0)), EqT(fval(v), fval(x)))))
			st.fact(ImpT(EqT(fcls(x), IntT(0)), NotT(SEq(s, StrLit("INF")))))
			return ret1(st, s)
		},
		"strconv.ParseFloat": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			if b, ok := args[1].(*Term).i64(); !ok || b != 64 {
				bits := args[1].(*Term)
				ok, v := floatTextB(args[0].(*Term), bits)
				st.fact(ImpT(AndT(ok, EqT(bits, IntT(32))), EqT(round32(v), v)))
				return retErr(ex, st, ok, []Value{v}, []Value{VarT(freshName(ex, "float"), SFlt)}, "parsefloat")
			}
			ok, v := floatText(args[0].(*Term))
			return retErr(ex, st, ok, []Value{v}, []Value{VarT(freshName(ex, "float"), SFlt)}, "parsefloat")
		},
		"math.Inf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			k, ok := args[0].(*Term).i64()
			if !ok {
				unsup("math.Inf of unknown sign")
			}
			n, cl := "posinf", int64(1)
			if k < 0 {
				n, cl = "neginf", 2
			}
			x := VarT(n, SFlt)
			st.fact(EqT(fcls(x), IntT(cl)))
			return ret1(st, x)
		},
		"math.IsInf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			k, ok := args[1].(*Term).i64()
			if !ok {
				unsup("math.IsInf of unknown sign")
			}
			cl := fcls(args[0].(*Term))
			pos1, neg1 := EqT(cl, IntT(1)), EqT(cl, IntT(2))
			switch {
			case k > 0:
				return ret1(st, pos1)
			case k < 0:
				return ret1(st, neg1)
			}
			return ret1(st, OrT(pos1, neg1))
		},
		"strings.ReplaceAll": one(func(ex *Exec, st *State, a []*Term) Value { return AppT("replaceall", SStr, a...) }),
		"strings.NewReplacer": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			var ts []*Term
			for _, a := range ex.variadic(st, args[0]) {
				ts = append(ts, a.(*Term))
			}
			if len(ts)%2 != 0 {
				ex.safety(st, fr, "odd number of replacer arguments", pos, TFalse)
			}
			return ret1(st, &Ptr{Kind: PRef, Ref: AppT("replacer"+strconv.Itoa(len(ts)), SRef, ts...), T: under(resT(c, 0)).(*types.Pointer).Elem()})
		},
		"(*strings.Replacer).Replace": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("replaced", SStr, args[0].(*Ptr).Ref, args[1].(*Term)))
		},
		// strings.Split with a one-byte separator: the fields between the separators
		"strings.Split": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			sep, ok := lit(args[1])
			if !ok || len(sep) != 1 {
				unsup("Split with a separator that is not one byte")
			}
			b := IntT(int64(sep[0]))
			funRanges["splitn"] = [2]*big.Int{big1, maxInt64}
			n := AppT("splitn", SInt, s, b)
			st.fact(LeT(IntT(1), n))
			lo := func(i *Term) *Term { return AppT("splitlo", SInt, s, b, i) }
			hi := func(i *Term) *Term { return AppT("splithi", SInt, s, b, i) }
			r := ex.newRef(types.Typ[types.String])
			nm := "elem:string"
			mp := ex.mapVar(st, nm, ArrSort(SRef, ArrSort(SInt, SStr)))
			inner := VarT(freshName(ex, "split"), ArrSort(SInt, SStr))
			ex.noteWrite(nm, []*Term{r})
			st.heap[nm] = StoT(mp, r, inner)
			i, j := BVarAt(ex.qdepth, SInt), BVarAt(ex.qdepth+1, SInt)
			in := func(i *Term) *Term { return AndT(LeT(IntT(0), i), LtT(i, n)) }
			st.fact(EqT(lo(IntT(0)), IntT(0)))
			st.fact(EqT(hi(SubT(n, IntT(1))), SLen(s)))
			st.fact(ForallT([]*Term{i}, []*Term{SelT(inner, i)}, ImpT(in(i), AndT(
				LeT(IntT(0), lo(i)), LeT(lo(i), hi(i)), LeT(hi(i), SLen(s)), EqT(SelT(inner, i), AppT("ssub", SStr, s, lo(i), hi(i))),
				ImpT(LtT(IntT(0), i), EqT(AppT("sat", SInt, s, SubT(lo(i), IntT(1))), b)),
				ImpT(LtT(hi(i), SLen(s)), AndT(EqT(AppT("sat", SInt, s, hi(i)), b), LtT(i, SubT(n, IntT(1)))))))))
			// no separator inside a field
			st.fact(ForallT([]*Term{i, j}, []*Term{lo(i), AppT("sat", SInt, s, j)}, ImpT(AndT(in(i), LeT(lo(i), j), LtT(j, hi(i))), NotT(EqT(AppT("sat", SInt, s, j), b)))))
			// every position belongs to a field: the field that starts at a position after a separator
			at := func(p *Term) *Term { return AppT("splitat", SInt, s, b, p) }
			st.fact(ForallT([]*Term{i}, []*Term{at(i)}, ImpT(AndT(LeT(IntT(0), i), LeT(i, SLen(s)), OrT(EqT(i, IntT(0)), EqT(AppT("sat", SInt, s, SubT(i, IntT(1))), b))),
				AndT(in(at(i)), EqT(lo(at(i)), i), EqT(SelT(inner, at(i)), AppT("ssub", SStr, s, i, hi(at(i))))))))
			return ret1(st, &SliceVal{Arr: r, Off: IntT(0), Len: n, Cap: n, Elem: types.Typ[types.String]})
		},
		"strings.Cut": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s, sep := args[0].(*Term), args[1].(*Term)
			x := ex.firstSub(st, s, sep)
			return ex.forkOn(st, LeT(IntT(0), x), func(st *State) []outcome {
				return []outcome{{st, []Value{SSub(s, IntT(0), x), SSub(s, AddT(x, SLen(sep)), SLen(s)), TTrue}}}
			}, func(st *State) []outcome {
				return []outcome{{st, []Value{s, TEmpty, TFalse}}}
			})
		},
		"strings.IndexByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			k, ok := args[1].(*Term).i64()
			if !ok {
				unsup("IndexByte of unknown byte")
			}
			return ret1(st, ex.firstIdxT(st, args[0].(*Term), byte(k)))
		},
		"strings.HasPrefix": one(func(ex *Exec, st *State, a []*Term) Value { return hasPrefix(a[0], a[1]) }),
		"strings.HasSuffix": one(func(ex *Exec, st *State, a []*Term) Value {
			n, k := SLen(a[0]), SLen(a[1])
			return AndT(LeT(k, n), SEq(SSub(a[0], SubT(n, k), n), a[1]))
		}),
		"slices.Contains": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			v, ok := args[1].(*Term)
			if !ok {
				unsup("slices.Contains of %T", args[1])
			}
			return ret1(st, ex.sliceContains(st, args[0].(*SliceVal), v))
		},
		"os.ReadFile": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			bad := st.clone()
			r := resT(c, 0)
			return []outcome{{st, []Value{ex.freshVal(st, "file", r), nilErr}}, {bad, []Value{ex.zero(r), ex.newErr(bad, "readfile")}}}
		},
	}
	for k, f := range m {
		models[k] = f
	}

	in := map[string]intrinsicFn{
		// vZeroBut(p, fields...): every other field of *p is empty
		"vZeroBut": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			but := map[string]bool{}
			for _, a := range ex.variadic(st, args[1]) {
				but[strConst(a)] = true
			}
			p := ifacePtr(args[0])
			t := ex.zeroBut(st, ex.load(st, p), p.T, "", but)
			for k := range but {
				unsup("vZeroBut: no field %s in %s", k, p.T)
			}
			return ret1(st, t)
		},
		// vSameBut(p, q, fields...): the other fields of *p and *q are the same
		"vSameFields": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			p, q := ifacePtr(args[0]), ifacePtr(args[1])
			return ret1(st, ex.sameTerms(st, ex.load(st, p), ex.load(st, q), p.T))
		},
		// vOwner(name, p, zero): the element that holds p (an uninterpreted function)
		"vOwner": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			pt := under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()
			return ret1(st, &Ptr{Kind: PRef, Ref: AppT("u!"+strConst(args[0]), SRef, ex.asRef(st, ifacePtr(args[1]))), T: pt})
		},
		"vDec": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			d := ex.decT(st, args[0].(*Term))
			ex.decEnds(st, d, args[0].(*Term))
			return ret1(st, d)
		},
		"vFloatOK": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ok, _ := floatText(args[0].(*Term))
			return ret1(st, ok)
		},
		"vFloatOK32": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ok, _ := floatTextB(args[0].(*Term), IntT(32))
			return ret1(st, ok)
		},
		"vFloatOf32": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			_, v := floatTextB(args[0].(*Term), IntT(32))
			return ret1(st, v)
		},
		"vFloatOf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			_, v := floatText(args[0].(*Term))
			return ret1(st, v)
		},
		// vSplitField(s, sep, i): the number of the field of s that starts at i
		"vSplitField": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("splitat", SInt, args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"vSplitEnd": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("splithi", SInt, args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		// vTouch(n) is true; it makes the solver look at n
		"vTouch": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("touch", SBool, args[0].(*Term)))
		},
		"vFCls": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, fcls(args[0].(*Term)))
		},
		// vFSame: the same number (identical class and value)
		"vFSame": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			x, y := args[0].(*Term), args[1].(*Term)
			return ret1(st, OrT(EqT(x, y), AndT(EqT(fcls(x), fcls(y)), ImpT(EqT(fcls(x), IntT(0)), EqT(fval(x), fval(y))))))
		},
	}
	for k, f := range in {
		intrinsics[k] = f
	}
}

func floatText(s *Term) (ok, v *Term) { return AppT("floatok", SBool, s), AppT("floatof", SFlt, s) }

func hasPrefix(s, p *Term) *Term {
	return AndT(LeT(SLen(p), SLen(s)), SEq(SSub(s, IntT(0), SLen(p)), p))
}

var _ = strings.Contains
