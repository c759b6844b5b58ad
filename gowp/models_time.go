package main

// Trusted models of package time. A time.Time is represented by its instant in
// nanoseconds since the Unix epoch (field 0, a mathematical integer); the
// location is UTC when field 1 is 1 and unknown otherwise.
//
// Text in the layout RFC3339MS is described by two uninterpreted functions:
// dtOK(s): s is a date-time, dtNs(s): the instant it denotes.

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const layoutMS = "2006-01-02T15:04:05.999Z07:00"

var (
	e6 = IntT(1000000)
	e9 = IntT(1000000000)
)

func (ex *Exec) timeVal(t types.Type, inst, utc *Term) Value {
	sv := ex.zero(t).(*StructVal)
	n := &StructVal{T: sv.T, F: append([]Value{}, sv.F...)}
	n.F[0], n.F[1] = inst, utc
	return n
}

func inst(v Value) *Term { return v.(*StructVal).F[0].(*Term) }
func utcOf(v Value) *Term {
	return v.(*StructVal).F[1].(*Term)
}

func bigS(s string) *Term {
	b, _ := new(big.Int).SetString(s, 10)
	return BigT(b)
}

func resT(c *ssa.CallCommon, i int) types.Type { return c.Signature().Results().At(i).Type() }

func dtOK(s *Term) *Term { return AppT("u!dtOK", SBool, s) }
func dtNs(s *Term) *Term { return AppT("u!dtNs", SInt, s) }

func init() {
	m := map[string]modelFn{
		"time.Unix": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.timeVal(resT(c, 0), AddT(MulT(args[0].(*Term), e9), args[1].(*Term)), IntT(0)))
		},
		"time.UnixMilli": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.timeVal(resT(c, 0), MulT(args[0].(*Term), e6), IntT(0)))
		},
		"time.UnixMicro": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.timeVal(resT(c, 0), MulT(args[0].(*Term), IntT(1000)), IntT(0)))
		},
		"(time.Time).UTC": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.timeVal(resT(c, 0), inst(args[0]), IntT(1)))
		},
		"(time.Time).Add": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.timeVal(resT(c, 0), AddT(inst(args[0]), args[1].(*Term)), utcOf(args[0])))
		},
		"(time.Time).Unix": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.clip(st, DivT(inst(args[0]), e9)))
		},
		"(time.Time).UnixMilli": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.clip(st, DivT(inst(args[0]), e6)))
		},
		"(time.Time).UnixMicro": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.clip(st, DivT(inst(args[0]), IntT(1000))))
		},
		"(time.Time).UnixNano": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.clip(st, inst(args[0])))
		},
		"(time.Time).Nanosecond": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ModT(inst(args[0]), e9))
		},
		"(time.Time).Format": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			if l := args[1].(*Term); l.Op != "strlit" || l.Name != layoutMS {
				unsup("time layout other than RFC3339MS")
			}
			s, n := AppT("timefmt", SStr, inst(args[0]), utcOf(args[0])), inst(args[0])
			in := AndT(EqT(utcOf(args[0]), IntT(1)), LeT(bigS("-62167219200000000000"), n), LtT(n, bigS("253402300800000000000")))
			st.fact(ImpT(in, AndT(dtOK(s), EqT(dtNs(s), SubT(n, ModT(n, e6))))))
			return ret1(st, s)
		},
		"time.Parse": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			if l := args[0].(*Term); l.Op != "strlit" || l.Name != layoutMS {
				unsup("time layout other than RFC3339MS")
			}
			s := args[1].(*Term)
			n := dtNs(s)
			st.fact(ImpT(dtOK(s), AndT(LeT(bigS("-62167392000000000000"), n), LtT(n, bigS("253402473600000000000")))))
			var outs []outcome
			bad := st.clone()
			if ex.feasible(st, dtOK(s)) {
				st.assumeBranch(dtOK(s))
				outs = append(outs, outcome{st, []Value{ex.timeVal(resT(c, 0), n, IntT(0)), nilErr}})
			}
			if ex.feasible(bad, NotT(dtOK(s))) {
				bad.assumeBranch(NotT(dtOK(s)))
				outs = append(outs, outcome{bad, []Value{ex.zero(resT(c, 0)), ex.newErr(bad, "timeparse")}})
			}
			return outs
		},
	}
	for k, f := range m {
		models[k] = f
	}
}

// clip: the int64 equal to n when it is representable, arbitrary otherwise.
func (ex *Exec) clip(st *State, n *Term) *Term {
	if n.lo != nil && n.hi != nil && n.lo.IsInt64() && n.hi.IsInt64() {
		return n
	}
	lo := new(big.Int).Neg(new(big.Int).Lsh(big1, 63))
	funRanges["clip64"] = [2]*big.Int{lo, maxInt64}
	x := AppT("clip64", SInt, n)
	st.fact(ImpT(AndT(LeT(BigT(lo), n), LeT(n, BigT(maxInt64))), EqT(x, n)))
	return x
}
