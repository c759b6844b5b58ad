package main

// IEEE doubles: abstract carrier with an exact real value when finite; every
// operation is given the facts of round-to-nearest arithmetic.

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

func fval(t *Term) *Term {
	if t.Op == "app" && t.Name == "fconst" {
		return t.Args[0]
	}
	if t.Op == "app" && t.Name == "i2f" {
		a := t.Args[0]
		if a.lo != nil && a.hi != nil && new(big.Int).Neg(two53).Cmp(a.lo) <= 0 && a.hi.Cmp(two53) <= 0 {
			return ToReal(a)
		}
	}
	return AppT("fval", SReal, t)
}
func fcls(t *Term) *Term {
	if t.Op == "app" && t.Name == "fconst" {
		return IntT(0)
	}
	if t.Op == "app" && t.Name == "i2f" {
		return IntT(0)
	}
	funRanges["fcls"] = [2]*big.Int{newBig(0), newBig(3)}
	return AppT("fcls", SInt, t)
}

var (
	ratZero = RatT(new(big.Rat))
	two53   = new(big.Int).Lsh(big1, 53)
	fltMax  = new(big.Rat).SetFloat64(1.797693134862315708145274237317043567981e+308)
)

func rNeg(a *Term) *Term { return RSub(ratZero, a) }
func rAbs(a *Term) *Term {
	if a.Op == "real" {
		return RatT(new(big.Rat).Abs(a.Rat))
	}
	return mk(&Term{Op: "ite", Args: []*Term{LeT(ratZero, a), a, rNeg(a)}, Sort: SReal})
}

// roundedTo assumes that x is e rounded to nearest (e a real term).
func (ex *Exec) roundedTo(st *State, x, e *Term, ulpAbs bool) {
	ok := LeT(rAbs(e), RatT(fltMax))
	eps := new(big.Rat).SetFrac(big1, new(big.Int).Lsh(big1, 53))
	bound := RMul(RatT(eps), rAbs(e))
	if ulpAbs {
		tiny := new(big.Rat).SetFrac(big1, new(big.Int).Lsh(big1, 1074))
		bound = RAdd(bound, RatT(tiny))
	}
	d := RSub(fval(x), e)
	st.fact(ImpT(ok, AndT(EqT(fcls(x), IntT(0)), LeT(d, bound), LeT(rNeg(d), bound))))
	// sign is preserved (round to nearest is monotone and fixes zero)
	st.fact(ImpT(AndT(ok, LeT(ratZero, e)), LeT(ratZero, fval(x))))
	st.fact(ImpT(AndT(ok, LeT(e, ratZero)), LeT(fval(x), ratZero)))
	// monotone at the exactly representable powers used as bounds
	for _, k := range []int64{1, 1000, 1000000, 1000000000, 60, 3600, 86400} {
		r := RatT(new(big.Rat).SetInt64(k))
		st.fact(ImpT(AndT(ok, LeT(e, r)), LeT(fval(x), r)))
		st.fact(ImpT(AndT(ok, LeT(r, e)), LeT(r, fval(x))))
	}
	// integers up to 2^53 are representable
	n := ToIntFloor(e)
	lim := RatT(new(big.Rat).SetInt(two53))
	st.fact(ImpT(AndT(EqT(ToReal(n), e), LeT(rAbs(e), lim)), EqT(fval(x), e)))
}

func (ex *Exec) fltBin(fr *Frame, st *State, op token.Token, a, b *Term, t types.Type) Value {
	if bt, ok := under(t).(*types.Basic); ok && bt.Kind() == types.Float32 {
		unsup("float32 arithmetic")
	}
	if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
		return ex.fltCmp(st, op.String(), a, b)
	}
	if a.Op == "app" && a.Name == "fconst" && b.Op == "app" && b.Name == "fconst" {
		x, y := a.Args[0].Rat, b.Args[0].Rat
		r := new(big.Rat)
		switch op {
		case token.ADD:
			r.Add(x, y)
		case token.SUB:
			r.Sub(x, y)
		case token.MUL:
			r.Mul(x, y)
		case token.QUO:
			if y.Sign() == 0 {
				unsup("float division by constant zero")
			}
			r.Quo(x, y)
		}
		if f, _ := r.Float64(); !math.IsInf(f, 0) {
			return FltConst(new(big.Rat).SetFloat64(f))
		}
		unsup("overflow of constant floats")
	}
	fin := AndT(EqT(fcls(a), IntT(0)), EqT(fcls(b), IntT(0)))
	var x, e *Term
	switch op {
	case token.ADD:
		x = AppT("fadd", SFlt, a, b)
		e = RAdd(fval(a), fval(b))
	case token.SUB:
		x = AppT("fsub", SFlt, a, b)
		e = RSub(fval(a), fval(b))
	case token.MUL:
		x = AppT("fmul", SFlt, a, b)
		e = RMul(fval(a), fval(b))
	case token.QUO:
		x = AppT("fdiv", SFlt, a, b)
		e = RDiv(fval(a), fval(b))
		fin = AndT(fin, NotT(EqT(fval(b), ratZero)))
	default:
		unsup("float operator %s", op)
	}
	if st.known[-x.ID] {
		return x
	}
	st.known[-x.ID] = true
	tmp := &State{known: map[int]bool{}}
	ex.roundedTo(tmp, x, e, op == token.MUL || op == token.QUO)
	for _, f := range tmp.pcTerms() {
		st.fact(ImpT(fin, f))
	}
	// exact cases with a zero operand
	az, bz := AndT(fin, EqT(fval(a), ratZero)), AndT(fin, EqT(fval(b), ratZero))
	switch op {
	case token.ADD, token.SUB:
		st.fact(ImpT(bz, AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), fval(a)))))
		o := fval(b)
		if op == token.SUB {
			o = rNeg(o)
		}
		st.fact(ImpT(az, AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), o))))
	case token.MUL:
		st.fact(ImpT(OrT(az, bz), AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), ratZero))))
	case token.QUO:
		st.fact(ImpT(az, AndT(EqT(fcls(x), IntT(0)), EqT(fval(x), ratZero))))
	}
	return x
}

func (ex *Exec) fltCmp(st *State, op string, a, b *Term) *Term {
	num := AndT(LeT(fcls(a), IntT(2)), LeT(fcls(b), IntT(2)))
	fin := AndT(EqT(fcls(a), IntT(0)), EqT(fcls(b), IntT(0)))
	// order classes: -inf(2) < finite(0) < +inf(1)
	rank := func(t *Term) *Term {
		c := fcls(t)
		return IteT(EqT(c, IntT(2)), IntT(-1), c)
	}
	switch op {
	case "==":
		return AndT(num, EqT(fcls(a), fcls(b)), OrT(NotT(fin), EqT(fval(a), fval(b))))
	case "<":
		return AndT(num, IteT(fin, LtT(fval(a), fval(b)), LtT(rank(a), rank(b))))
	case ">":
		return ex.fltCmp(st, "<", b, a)
	case "<=":
		return AndT(num, IteT(fin, LeT(fval(a), fval(b)), LeT(rank(a), rank(b))))
	case ">=":
		return ex.fltCmp(st, "<=", b, a)
	}
	panic(op)
}

func (ex *Exec) fltNeg(st *State, a *Term) Value {
	if a.Op == "app" && a.Name == "fconst" {
		return FltConst(new(big.Rat).Neg(a.Args[0].Rat))
	}
	x := AppT("fneg", SFlt, a)
	st.fact(AndT(EqT(fval(x), rNeg(fval(a))), EqT(fcls(x), IteT(EqT(fcls(a), IntT(1)), IntT(2), IteT(EqT(fcls(a), IntT(2)), IntT(1), fcls(a))))))
	return x
}

func (ex *Exec) intToFlt(st *State, a *Term, to types.Type) Value {
	if bt := under(to).(*types.Basic); bt.Kind() == types.Float32 {
		return AppT("i2f32", SFlt, a)
	}
	if a.Op == "int" {
		return FltConst(new(big.Rat).SetInt(a.Val))
	}
	x := AppT("i2f", SFlt, a)
	if st.known[-x.ID] {
		return x
	}
	st.known[-x.ID] = true
	e := ToReal(a)
	if a.lo != nil && a.hi != nil && new(big.Int).Neg(two53).Cmp(a.lo) <= 0 && a.hi.Cmp(two53) <= 0 {
		return x
	}
	ex.roundedTo(st, x, e, false)
	lim := BigT(two53)
	st.fact(ImpT(AndT(LeT(NegT(lim), a), LeT(a, lim)), EqT(fval(x), e)))
	return x
}

// fltToInt truncates towards zero; out of range is implementation-defined: an
// arbitrary value of the type.
func (ex *Exec) fltToInt(st *State, a *Term, to types.Type) Value {
	lo, hi, ok := intRange(to)
	if !ok {
		unsup("float to %s", to)
	}
	name := "f2i!" + typeName(to)
	funRanges[name] = [2]*big.Int{lo, hi}
	x := AppT(name, SInt, a)
	if st.known[-x.ID] {
		return x
	}
	st.known[-x.ID] = true
	v := fval(a)
	one := RatT(big.NewRat(1, 1))
	xr := ToReal(x)
	inr := AndT(EqT(fcls(a), IntT(0)), LtT(RatT(new(big.Rat).SetInt(new(big.Int).Sub(lo, big1))), v), LtT(v, RatT(new(big.Rat).SetInt(new(big.Int).Add(hi, big1)))))
	st.fact(ImpT(AndT(inr, LeT(ratZero, v)), AndT(LeT(xr, v), LtT(v, RAdd(xr, one)))))
	st.fact(ImpT(AndT(inr, LeT(v, ratZero)), AndT(LeT(v, xr), LtT(RSub(xr, one), v))))
	ex.cutScaled(st, a, x)
	return x
}

// fltRound models math.Round (half away from zero): exact.
func (ex *Exec) fltRound(st *State, a *Term) Value {
	x := AppT("fround", SFlt, a)
	if st.known[-x.ID] {
		return x
	}
	st.known[-x.ID] = true
	v, w := fval(a), fval(x)
	n := AppT("froundint", SInt, a)
	half := RatT(big.NewRat(1, 2))
	st.fact(EqT(fcls(x), fcls(a)))
	st.fact(ImpT(EqT(fcls(a), IntT(0)), AndT(EqT(w, ToReal(n)),
		ImpT(LeT(ratZero, v), AndT(LeT(RSub(w, half), v), LtT(v, RAdd(w, half)))),
		ImpT(LtT(v, ratZero), AndT(LtT(RSub(w, half), v), LeT(v, RAdd(w, half)))))))
	return x
}

// cutScaled derives from the axioms above, for x = int(round(float(n)*c)) with
// c close to 1/k, that x is n/k rounded: a bound on the integer k*x - n.
func (ex *Exec) cutScaled(st *State, a, x *Term) {
	if a.Name != "fround" || a.Args[0].Op != "app" {
		return
	}
	switch x.Name {
	case "f2i!int", "f2i!int64", "f2i!uint", "f2i!uint64":
	default: // might not fit
		return
	}
	m := a.Args[0]
	var n *Term
	k := new(big.Rat)
	switch {
	case m.Name == "fmul" && m.Args[1].Op == "app" && m.Args[1].Name == "fconst" && m.Args[1].Args[0].Rat.Sign() > 0:
		n = m.Args[0]
		k.Inv(m.Args[1].Args[0].Rat)
	case m.Name == "fdiv" && m.Args[1].Op == "app" && m.Args[1].Name == "fconst" && m.Args[1].Args[0].Rat.Sign() > 0:
		n = m.Args[0]
		k.Set(m.Args[1].Args[0].Rat)
	default:
		return
	}
	if n.Op != "app" || n.Name != "i2f" || !x.closed() {
		return
	}
	f, _ := k.Float64()
	if f < 1 || f > 1e12 {
		return
	}
	// c is the factor the float is multiplied by (or 1/k of a division)
	c := new(big.Rat).Inv(k)
	ki := new(big.Rat).SetInt64(int64(math.Round(f)))
	kt := IntT(int64(math.Round(f)))
	v := n.Args[0]
	d := SubT(MulT(kt, x), v)
	for _, lim := range []int64{1000000000, 1000000000000, 1 << 53} {
		if !ex.entails(st, AndT(LeT(IntT(0), v), LeT(v, IntT(lim)))) {
			continue
		}
		// For an integer 0 <= v <= lim <= 2^53: float(v) = v; m = v*c(1+e) + e'
		// with |e| <= 2^-53, |e'| <= 2^-1022; |x - m| <= 1/2. So
		// |k*x - v| <= k/2 + k*(2^-53*lim*c + 2^-1022) + lim*|k*c - 1|.
		l := new(big.Rat).SetInt64(lim)
		two53 := new(big.Rat).SetFrac(big1, new(big.Int).Lsh(big1, 53))
		two1022 := new(big.Rat).SetFrac(big1, new(big.Int).Lsh(big1, 1022))
		err := new(big.Rat).Mul(new(big.Rat).Mul(two53, l), c)
		err.Add(err, two1022)
		err.Add(err, big.NewRat(1, 2))
		err.Mul(err, ki)
		kc := new(big.Rat).Sub(new(big.Rat).Mul(ki, c), big.NewRat(1, 1))
		kc.Abs(kc)
		err.Add(err, kc.Mul(kc, l))
		b := BigT(new(big.Int).Quo(err.Num(), err.Denom()))
		st.fact(AndT(LeT(d, b), LeT(NegT(b), d)))
		return
	}
}
