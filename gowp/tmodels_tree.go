package main

// Trusted models: deep copies and reading XML into an element tree.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// specCall evaluates a named specification function of the contract's package.
func (ex *Exec) specCall(fr *Frame, st *State, name string, args ...Value) *Term {
	fn := ex.C.Fn.Pkg.Func(name)
	if fn == nil {
		unsup("specification function %s is missing", name)
	}
	return ex.evalPure(fr, st, st, &FuncVal{Fn: fn}, args)[0].(*Term)
}

func init() {
	m := map[string]modelFn{
		// A deep copy: a new tree of the same shape, no other object is touched,
		// unexported fields are empty. "deepcopy" stands for: same content, nothing shared.
		"github.com/barkimedes/go-deepcopy.MustAnything": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			iv, ok := args[0].(*IfaceVal)
			if !ok || iv.T == nil {
				unsup("deep copy of a value of unknown type")
			}
			p := ifacePtr(args[0])
			n, ok := p.T.(*types.Named)
			if !ok {
				unsup("deep copy of %s", p.T)
			}
			src := ex.asRef(st, p)
			ex.safety(st, fr, "deep copy of nil", pos, NotT(EqT(src, TNull)))
			r := ex.newRef(p.T)
			q := &Ptr{Kind: PRef, Ref: r, T: p.T}
			if ex.snaps == nil {
				ex.snaps = map[int]map[string]*Term{}
			}
			snap := map[string]*Term{}
			for k, v := range st.heap {
				snap[k] = v
			}
			ex.snaps[r.ID] = snap
			st.fact(ex.specCall(fr, st, "copied"+n.Obj().Name(), &Ptr{Kind: PRef, Ref: src, T: p.T}, q))
			st.fact(AppT("deepcopy", SBool, r, src))
			return ret1(st, &IfaceVal{T: types.NewPointer(p.T), V: q, Typ: iv.Typ, Ref: r})
		},
		"github.com/Eyevinn/dash-mpd/xml.Unmarshal": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			p := ifacePtr(args[1])
			n, ok := p.T.(*types.Named)
			if !ok {
				unsup("reading into %s", p.T)
			}
			q := &Ptr{Kind: PRef, Ref: ex.asRef(st, p), T: p.T}
			ex.safety(st, fr, "reading into nil", pos, NotT(EqT(q.Ref, TNull)))
			ex.store(st, q, ex.freshVal(st, "read", p.T))
			bad := st.clone()
			st.fact(ex.specCall(fr, st, "read"+n.Obj().Name(), q))
			if s, ok := args[0].(*SliceVal); ok {
				st.fact(AppT("readfrom", SBool, q.Ref, ex.bytesToStr(st, s)))
			}
			return []outcome{{st, []Value{nilErr}}, {bad, []Value{ex.someErr(bad, "unmarshal")}}}
		},
	}
	for k, f := range m {
		models[k] = f
	}
	in := map[string]intrinsicFn{
		// vCopyOf(c, x): c is a deep copy of x
		"vCopyOf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("deepcopy", SBool, ex.asRef(st, ifacePtr(args[0])), ex.asRef(st, ifacePtr(args[1]))))
		},
		// vSinceCopy(c, x, names...): only the named fields have changed, of any
		// element, since the copy c was made, and nothing of x before
		"vSinceCopy": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			if fr.conf().use {
				return ret1(st, TTrue)
			}
			r := ex.asRef(st, ifacePtr(args[0]))
			snap := ex.snaps[r.ID]
			if snap == nil {
				return ret1(st, TFalse)
			}
			but := map[string]bool{}
			for _, a := range ex.variadic(st, args[1]) {
				for _, k := range ex.V.expandMap(ex, ex.C, strConst(a)) {
					but[k.name] = true
				}
			}
			base := fr.preState()
			var cs []*Term
			for _, k := range sortedKeys(st.heap) {
				old := func(h map[string]*Term) *Term {
					if t, ok := h[k]; ok {
						return t
					}
					return VarT("H0!"+k, st.heap[k].Sort)
				}
				if !but[k] {
					cs = append(cs, EqT(old(snap), st.heap[k]))
				}
				cs = append(cs, EqT(old(snap), old(base.heap)))
			}
			return ret1(st, AndT(cs...))
		},
		"vReadFrom": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			return ret1(st, AppT("readfrom", SBool, ex.asRef(st, ifacePtr(args[0])), args[1].(*Term)))
		},
	}
	for k, f := range in {
		intrinsics[k] = f
	}
}
