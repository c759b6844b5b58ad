package main

// Trusted models of bufio.Writer, bytes.Buffer, byte readers, unicode and the
// encoder pool, for the xml package.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strSlot = slot{"", SStr, nil, false}

// ghost text of an object: what a writer accepted, what a buffer holds
func (ex *Exec) gText(st *State, name string, ref *Term) *Term {
	return ex.readSlot(st, name, []*Term{ref}, strSlot)
}
func (ex *Exec) setGText(st *State, name string, ref, v *Term) {
	ex.writeSlot(st, name, []*Term{ref}, strSlot, v)
}

// accept: the writer at ref takes s, or has an error that stays.
func (ex *Exec) accept(st *State, ref, s *Term) *IfaceVal {
	old := ex.ghostErr(st, ref)
	out := ex.gText(st, "$wout", ref)
	e := &IfaceVal{Typ: VarRT(freshName(ex, "werr.typ"), big0, maxInt64), Ref: VarT(freshName(ex, "werr.val"), SRef)}
	st.assume(ImpT(NotT(EqT(old.Typ, IntT(0))), AndT(EqT(e.Typ, old.Typ), EqT(e.Ref, old.Ref))))
	st.assume(ImpT(EqT(e.Typ, IntT(0)), EqT(e.Ref, TNull)))
	part := VarT(freshName(ex, "partial"), SStr)
	ex.setGText(st, "$wout", ref, IteT(EqT(e.Typ, IntT(0)), SCat(out, s), part))
	ex.setGText(st, "$wsent", ref, VarT(freshName(ex, "sent"), SStr))
	ex.setGhostErr(st, ref, e)
	return e
}

func (ex *Exec) ptrRef(fr *Frame, st *State, v Value, pos token.Pos) *Term {
	p := v.(*Ptr)
	r := ex.asRef(st, p)
	ex.safety(st, fr, "nil pointer", pos, NotT(EqT(r, TNull)))
	return r
}

func fit(st *State, ex *Exec, e *IfaceVal, n *Term, hint string) *Term {
	k := VarRT(freshName(ex, hint), big0, maxInt64)
	st.assume(LeT(k, n))
	st.assume(ImpT(EqT(e.Typ, IntT(0)), EqT(k, n)))
	return k
}

// inByte is the k-th byte that the reader delivers.
func inByte(r, k *Term) *Term {
	funRanges["inbyte"] = [2]*bigInt{big0, bigByte}
	return AppT("inbyte", SInt, r, k)
}

// inLen is the number of bytes that the reader can deliver.
func inLen(r *Term) *Term {
	funRanges["inlen"] = [2]*bigInt{big0, newBig(1 << 61)}
	return AppT("inlen", SInt, r)
}

var intSlot = slot{"", SInt, nil, false}

func (ex *Exec) newStr(hint string) *Term { return VarT(freshName(ex, hint), SStr) }

func init() {
	type M = modelFn
	m := map[string]M{
		"(*bufio.Writer).Write": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			s := ex.bytesToStr(st, args[1].(*SliceVal))
			e := ex.accept(st, r, s)
			return []outcome{{st, []Value{fit(st, ex, e, SLen(s), "n"), e}}}
		},
		"(*bufio.Writer).WriteString": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			s := args[1].(*Term)
			e := ex.accept(st, r, s)
			return []outcome{{st, []Value{fit(st, ex, e, SLen(s), "n"), e}}}
		},
		"(*bufio.Writer).WriteByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			return []outcome{{st, []Value{ex.accept(st, r, StrList([]*Term{args[1].(*Term)}))}}}
		},
		"(*bufio.Writer).Flush": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			e := ex.accept(st, r, TEmpty)
			ex.setGText(st, "$wsent", r, IteT(EqT(e.Typ, IntT(0)), ex.gText(st, "$wout", r), ex.newStr("sent")))
			return []outcome{{st, []Value{e}}}
		},
		"(*bufio.Writer).Buffered": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			funRanges["buffered"] = [2]*bigInt{big0, maxInt64}
			return ret1(st, AppT("buffered", SInt, ex.gText(st, "$wout", r), ex.gText(st, "$wsent", r), ex.ghostErr(st, r).Typ))
		},
		"(*bufio.Writer).Reset": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			ex.resetWriter(st, r, args[1].(*IfaceVal))
			return []outcome{{st: st}}
		},
		"bufio.NewWriter": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			t := under(resT(c, 0)).(*types.Pointer).Elem()
			r := ex.newRef(t)
			ex.resetWriter(st, r, args[0].(*IfaceVal))
			return ret1(st, &Ptr{Kind: PRef, Ref: r, T: t})
		},
		"invoke:io.Writer.Write": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			// an arbitrary writer: it takes n bytes, any error
			r := ex.ifaceRef(st, args[0].(*IfaceVal))
			s := ex.bytesToStr(st, args[1].(*SliceVal))
			n := VarRT(freshName(ex, "taken"), big0, maxInt64)
			st.assume(LeT(n, SLen(s)))
			e := &IfaceVal{Typ: VarRT(freshName(ex, "werr.typ"), big0, maxInt64), Ref: VarT(freshName(ex, "werr.val"), SRef)}
			st.assume(ImpT(EqT(e.Typ, IntT(0)), EqT(e.Ref, TNull)))
			if fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Name() == "xml" {
				// the io.Writer contract; package mpd checks it for every writer it is given
				st.assume(ImpT(EqT(e.Typ, IntT(0)), EqT(n, SLen(s))))
			}
			ok := AndT(EqT(e.Typ, IntT(0)), EqT(n, SLen(s)))
			ex.setGText(st, "$out", r, IteT(ok, SCat(ex.gText(st, "$out", r), s), ex.newStr("partial")))
			fails := ex.readSlot(st, "$fails", []*Term{r}, intSlot)
			ex.writeSlot(st, "$fails", []*Term{r}, intSlot, IteT(ok, fails, AddT(fails, IntT(1))))
			cnt := ex.readSlot(st, "$taken", []*Term{r}, intSlot)
			ex.writeSlot(st, "$taken", []*Term{r}, intSlot, AddT(cnt, n))
			ex.setGhostErr(st, r, e)
			return []outcome{{st, []Value{n, e}}}
		},
		"invoke:io.ByteReader.ReadByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ifaceRef(st, args[0].(*IfaceVal))
			k := ex.readSlot(st, "$read", []*Term{r}, intSlot)
			bad := st.clone()
			st.assume(LtT(k, inLen(r))) // the input is finite
			ex.writeSlot(st, "$read", []*Term{r}, intSlot, AddT(k, IntT(1)))
			outs := []outcome{{st, []Value{inByte(r, k), nilErr}}}
			e := ex.someErr(bad, "readerr")
			ex.setGhostErr(bad, r, e)
			return append(outs, outcome{bad, []Value{VarRT(freshName(ex, "byte"), big0, bigByte), e}})
		},
		"io.WriteString": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			iv, s := args[0].(*IfaceVal), args[1]
			b := ex.strToBytes(st, s.(*Term), types.Typ[types.Uint8])
			if iv.T == nil {
				return models["invoke:io.Writer.Write"](ex, fr, st, c, []Value{iv, b}, pos)
			}
			ms := ex.V.prog.MethodSets.MethodSet(iv.T)
			if m := ms.Lookup(nil, "WriteString"); m != nil {
				return ex.callFn(fr, st, c, &FuncVal{Fn: ex.V.prog.MethodValue(m)}, []Value{iv.V, s}, pos)
			}
			return ex.callFn(fr, st, c, &FuncVal{Fn: ex.V.prog.MethodValue(ms.Lookup(nil, "Write"))}, []Value{iv.V, b}, pos)
		},
		"(*strings.Builder).Grow": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			ex.ptrRef(fr, st, args[0], pos)
			ex.safety(st, fr, "negative Grow", pos, LeT(IntT(0), args[1].(*Term)))
			return []outcome{{st: st}}
		},
		"(*strings.Builder).String": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.gText(st, "$out", ex.ptrRef(fr, st, args[0], pos)))
		},
		"(*strings.Builder).WriteString": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r, s := ex.ptrRef(fr, st, args[0], pos), args[1].(*Term)
			ex.setGText(st, "$out", r, SCat(ex.gText(st, "$out", r), s))
			return []outcome{{st, []Value{SLen(s), nilErr}}}
		},
		"(*strings.Builder).WriteByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			ex.setGText(st, "$out", r, SCat(ex.gText(st, "$out", r), StrList([]*Term{args[1].(*Term)})))
			return ret1(st, nilErr)
		},
		"(*sync.Pool).Get": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			t := ex.poolType(fr)
			r := ex.newRef(t.(*types.Pointer).Elem())
			p := &Ptr{Kind: PRef, Ref: r, T: t.(*types.Pointer).Elem()}
			iv := &IfaceVal{Typ: typeTag(t), T: t, V: p}
			st.assume(NotT(EqT(r, TNull)))
			ex.store(st, p, ex.symbolic(st, freshName(ex, "pooled"), p.T))
			st.assume(ex.evalPure(fr, st, st, &FuncVal{Fn: ex.specNamed("poolInv")}, []Value{p})[0].(*Term))
			return ret1(st, iv)
		},
		"(*sync.Pool).Put": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			iv := args[1].(*IfaceVal)
			if f := ex.specNamed("poolInv"); f != nil && iv.T != nil {
				ex.obligation(st, fr, "pool", "what is put into the pool is like new", pos, ex.evalPure(fr, st, st, &FuncVal{Fn: f}, []Value{iv.V})[0].(*Term))
			}
			return []outcome{{st: st}}
		},
		"strings.Index": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.firstSub(st, args[0].(*Term), args[1].(*Term)))
		},
		"bytes.Index": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.firstSub(st, ex.bytesToStr(st, args[0].(*SliceVal)), ex.bytesToStr(st, args[1].(*SliceVal))))
		},
		"bytes.Cut": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s, sep := args[0].(*SliceVal), args[1].(*SliceVal)
			x := ex.firstSub(st, ex.bytesToStr(st, s), ex.bytesToStr(st, sep))
			return ex.forkOn(st, LeT(IntT(0), x), func(st *State) []outcome {
				before, after := *s, *s
				before.Len = x
				k := AddT(x, sep.Len)
				after.Off, after.Len, after.Cap = AddT(s.Off, k), SubT(s.Len, k), SubT(s.Cap, k)
				return []outcome{{st, []Value{&before, &after, TTrue}}}
			}, func(st *State) []outcome {
				return []outcome{{st, []Value{s, ex.zero(resT(c, 1)), TFalse}}}
			})
		},
		"strings.Contains": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.contains(st, args[0].(*Term), args[1].(*Term)))
		},
		"bytes.Contains": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.contains(st, ex.bytesToStr(st, args[0].(*SliceVal)), ex.bytesToStr(st, args[1].(*SliceVal))))
		},
		"bytes.Equal": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, SEq(ex.bytesToStr(st, args[0].(*SliceVal)), ex.bytesToStr(st, args[1].(*SliceVal))))
		},
		"strings.Count": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			sep, ok := lit(args[1])
			if !ok || len(sep) != 1 {
				unsup("Count of something other than one byte")
			}
			funRanges["scount"] = [2]*bigInt{big0, maxInt64}
			n := AppT("scount", SInt, s, IntT(int64(sep[0])))
			x := ex.firstIdxT(st, s, sep[0])
			rest := ex.firstIdxT(st, SSub(s, AddT(x, IntT(1)), SLen(s)), sep[0])
			st.fact(LeT(IntT(0), n))
			st.fact(EqT(EqT(n, IntT(0)), LtT(x, IntT(0))))
			st.fact(ImpT(LeT(IntT(0), x), EqT(EqT(n, IntT(1)), LtT(rest, IntT(0)))))
			return ret1(st, n)
		},
		"strings.TrimRight": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			set, ok := lit(args[1])
			if !ok || len(set) != 1 {
				unsup("TrimRight of something other than one byte")
			}
			funRanges["trimr"] = [2]*bigInt{big0, maxInt64}
			n := AppT("trimr", SInt, s, IntT(int64(set[0])))
			st.fact(LeT(IntT(0), n))
			st.fact(LeT(n, SLen(s)))
			st.fact(OrT(EqT(n, IntT(0)), NotT(EqT(SAt(s, SubT(n, IntT(1))), IntT(int64(set[0]))))))
			return ret1(st, SSub(s, IntT(0), n))
		},
		"strings.LastIndex": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			sep, ok := lit(args[1])
			if !ok || len(sep) != 1 {
				unsup("LastIndex of something other than one byte")
			}
			b := IntT(int64(sep[0]))
			funRanges["lastidx"] = [2]*bigInt{bigM1, maxInt64}
			x := AppT("lastidx", SInt, s, b)
			st.fact(LeT(IntT(-1), x))
			st.fact(LtT(x, SLen(s)))
			st.fact(ImpT(LeT(IntT(0), x), EqT(SAt(s, x), b)))
			k := BVarAt(ex.qdepth, SInt)
			st.fact(ForallT([]*Term{k}, []*Term{SAt(s, k)}, ImpT(AndT(LtT(x, k), LtT(k, SLen(s))), NotT(EqT(SAt(s, k), b)))))
			return ret1(st, x)
		},
		"strings.EqualFold": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			s := args[0].(*Term)
			w, ok := lit(args[1])
			if !ok || strings.Trim(w, "abcdefghijlmnopqrtuvwxyz") != "" {
				return ret1(st, AppT("equalfold", SBool, s, args[1].(*Term)))
			}
			// no letter of w has a fold outside ASCII
			cs := []*Term{EqT(SLen(s), IntT(int64(len(w))))}
			for i := range w {
				x := SAt(s, IntT(int64(i)))
				cs = append(cs, OrT(EqT(x, IntT(int64(w[i]))), EqT(x, IntT(int64(w[i]-32)))))
			}
			return ret1(st, AndT(cs...))
		},
		"unicode/utf8.DecodeRune": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r, w := ex.decodeRune(st, ex.bytesToStr(st, args[0].(*SliceVal)), IntT(0))
			return []outcome{{st, []Value{r, w}}}
		},
		"unicode/utf8.DecodeRuneInString": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r, w := ex.decodeRune(st, args[0].(*Term), IntT(0))
			return []outcome{{st, []Value{r, w}}}
		},
		"unicode.Is": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("unicodeis", SBool, ex.asRef(st, args[0].(*Ptr)), args[1].(*Term)))
		},
		// bytes.Buffer: the text it holds
		"(*bytes.Buffer).Reset": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			ex.setGText(st, "$buf", ex.ptrRef(fr, st, args[0], pos), TEmpty)
			return []outcome{{st: st}}
		},
		"(*bytes.Buffer).WriteByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			ex.setGText(st, "$buf", r, SCat(ex.gText(st, "$buf", r), StrList([]*Term{args[1].(*Term)})))
			return ret1(st, nilErr)
		},
		"(*bytes.Buffer).WriteString": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			s := args[1].(*Term)
			ex.setGText(st, "$buf", r, SCat(ex.gText(st, "$buf", r), s))
			return []outcome{{st, []Value{SLen(s), nilErr}}}
		},
		"(*bytes.Buffer).Write": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			s := ex.bytesToStr(st, args[1].(*SliceVal))
			ex.setGText(st, "$buf", r, SCat(ex.gText(st, "$buf", r), s))
			return []outcome{{st, []Value{SLen(s), nilErr}}}
		},
		"(*bytes.Buffer).Len": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, SLen(ex.gText(st, "$buf", ex.ptrRef(fr, st, args[0], pos))))
		},
		"(*bytes.Buffer).Truncate": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			r := ex.ptrRef(fr, st, args[0], pos)
			s, n := ex.gText(st, "$buf", r), args[1].(*Term)
			ex.safety(st, fr, "Truncate within the buffer", pos, AndT(LeT(IntT(0), n), LeT(n, SLen(s))))
			ex.setGText(st, "$buf", r, SSub(s, IntT(0), n))
			return []outcome{{st: st}}
		},
		"(*bytes.Buffer).Bytes": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			// a slice with the text of this moment; writes through it are not followed
			r := ex.ptrRef(fr, st, args[0], pos)
			return ret1(st, ex.strToBytes(st, ex.gText(st, "$buf", r), types.Typ[types.Uint8]))
		},
		"(*bytes.Buffer).String": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.gText(st, "$buf", ex.ptrRef(fr, st, args[0], pos)))
		},
	}
	for k, f := range m {
		models[k] = f
	}
	in := map[string]intrinsicFn{
		"vBuf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.gText(st, "$buf", ex.ifaceRef(st, args[0].(*IfaceVal))))
		},
		// vWriter(w): the writer that the bufio.Writer w writes to
		"vWriter": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			r := ex.ifaceRef(st, args[0].(*IfaceVal))
			return ret1(st, &IfaceVal{Typ: ex.readSlot(st, "$dst.typ", []*Term{r}, slot{"", SInt, nil, true}), Ref: ex.readSlot(st, "$dst.val", []*Term{r}, slot{"", SRef, nil, false})})
		},
		// vTarget() calls the function under contract, which has no name
		"vTarget": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ex.callFn(fr, st, c, &FuncVal{Fn: fr.con.c.Target}, nil, pos)
		},
		// vAt(name, w): the place of a ghost variable of w
		"vAt": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			t := under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()
			return ret1(st, &Ptr{Kind: PSlot, Map: "$" + strConst(args[0]), Idx: []*Term{ex.ifaceRef(st, args[1].(*IfaceVal))}, T: t})
		},
		"vInLen": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, inLen(ex.ifaceRef(st, args[0].(*IfaceVal))))
		},
		"vInByte": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, inByte(ex.ifaceRef(st, args[0].(*IfaceVal)), args[1].(*Term)))
		},
		"vIndex": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.firstSub(st, args[0].(*Term), args[1].(*Term)))
		},
		"vContains": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.contains(st, args[0].(*Term), args[1].(*Term)))
		},
	}
	for k, f := range in {
		intrinsics[k] = f
	}
}

func (ex *Exec) resetWriter(st *State, r *Term, w *IfaceVal) {
	ex.setGText(st, "$wout", r, TEmpty)
	ex.setGText(st, "$wsent", r, TEmpty)
	ex.setGhostErr(st, r, nilErr)
	ex.writeSlot(st, "$dst.typ", []*Term{r}, slot{"", SInt, nil, true}, w.Typ)
	ex.writeSlot(st, "$dst.val", []*Term{r}, slot{"", SRef, nil, false}, ex.ifaceRef(st, w))
}

// contains: sep occurs in s.
func (ex *Exec) contains(st *State, s, sep *Term) *Term {
	return LeT(IntT(0), ex.firstSub(st, s, sep))
}

// firstSub is the first place at which sep occurs in s, or -1.
func (ex *Exec) firstSub(st *State, s, sep *Term) *Term {
	if sep == TEmpty {
		return IntT(0)
	}
	if lit, ok := lit(sep); ok && len(lit) == 1 {
		return ex.firstIdxT(st, s, lit[0])
	}
	if isList(sep) && isList(s) {
		l, m := listOf(s), listOf(sep)
		r := IntT(-1)
		for i := len(l) - len(m); i >= 0; i-- {
			var cs []*Term
			for k, b := range m {
				cs = append(cs, EqT(l[i+k], b))
			}
			r = IteT(AndT(cs...), IntT(int64(i)), r)
		}
		return r
	}
	funRanges["firstsub"] = [2]*bigInt{bigM1, maxInt64}
	x := AppT("firstsub", SInt, s, sep)
	if !isList(sep) || !x.closed() || st.known[-x.ID] {
		return x
	}
	st.known[-x.ID] = true
	l := listOf(sep)
	n := IntT(int64(len(l)))
	// positions are those of the whole string if s is a part of one
	y, lo, hi := s, IntT(0), SLen(s)
	ok := TTrue
	if s.Op == "app" && s.Name == "ssub" {
		y, lo, hi = s.Args[0], s.Args[1], s.Args[2]
		ok = AndT(LeT(IntT(0), lo), LeT(lo, hi), LeT(hi, SLen(y)))
	}
	at := func(k *Term) *Term {
		var cs []*Term
		for i, b := range l {
			cs = append(cs, EqT(SAt(y, AddT(k, IntT(int64(i)))), b))
		}
		return AndT(cs...)
	}
	p := AddT(lo, x)
	st.fact(AndT(LeT(IntT(-1), x), ImpT(LeT(IntT(0), x), LeT(AddT(x, n), SLen(s)))))
	st.fact(ImpT(AndT(ok, LeT(IntT(0), x)), at(p)))
	k := BVarAt(ex.qdepth, SInt)
	in := AndT(ok, LeT(lo, k), LeT(AddT(k, n), hi), OrT(LtT(x, IntT(0)), LtT(k, p)))
	st.fact(ForallT([]*Term{k}, []*Term{SAt(y, k)}, ImpT(in, NotT(at(k)))))
	return x
}

func (ex *Exec) specNamed(n string) *ssa.Function {
	if ex.C == nil || ex.C.Fn == nil || ex.C.Fn.Pkg == nil {
		return nil
	}
	return ex.C.Fn.Pkg.Func(n)
}

var (
	big0  = newBig(0)
	bigM1 = newBig(-1)
)

func (ex *Exec) poolType(fr *Frame) types.Type {
	f := ex.specNamed("poolInv")
	if f == nil {
		unsup("pool without invariant")
	}
	return f.Signature.Params().At(0).Type()
}
