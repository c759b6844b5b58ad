package main

// Calls: builtins, contracts, inlining, pure evaluation of specifications.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Contract struct {
	Name          string
	Fn            *ssa.Function
	Target        *ssa.Function
	TargetName    string
	Props         []string
	Lemma         bool
	Client        bool
	Trusted       bool
	NoUse         bool
	Helper        bool
	NoTermination bool
	Join          bool // take chains of conditions as one
	NoFrame       bool
	Inline        map[string]bool
	Use           map[string]bool
	Unroll        map[string]int
	FreshRes      map[int]bool
	MaxPaths      int
	Timeout       int
	File          string
	Doc           string
}

type conFrame struct {
	c       *Contract
	use     bool
	called  bool
	pre     *State
	mods    []string
	modAt   []*Ptr
	results []Value
	mark    int
	defEns  []defEns
	caller  *Frame
	pos     token.Pos
}

type defEns struct {
	name string
	f    *FuncVal
}

func (ex *Exec) call(fr *Frame, st *State, in *ssa.Call, c *ssa.CallCommon) []outcome {
	fn, args := ex.calleeAndArgs(fr, st, c)
	return ex.callValue(fr, st, c, fn, args, in.Pos())
}

func (ex *Exec) calleeAndArgs(fr *Frame, st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv, ok := ex.get(fr, st, c.Value).(*IfaceVal)
		if !ok {
			unsup("invoke on %T", ex.get(fr, st, c.Value))
		}
		for _, a := range c.Args {
			args = append(args, ex.get(fr, st, a))
		}
		t := recv.T
		if t == nil {
			if k, ok := recv.Typ.i64(); ok && k > 0 {
				t = tagTypes[k]
			}
		}
		if t != nil {
			fn := ex.V.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				v := recv.V
				if v == nil {
					v = ex.unbox(st, recv.Ref, t)
				}
				return &FuncVal{Fn: fn}, append([]Value{v}, args...)
			}
		}
		ex.safety(st, fr, "nil interface call", c.Pos(), NotT(EqT(recv.Typ, IntT(0))))
		n := typeName(c.Value.Type())
		return &FuncVal{Bi: "invoke:" + n + "." + c.Method.Name()}, append([]Value{recv}, args...)
	}
	fn := ex.get(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.get(fr, st, a))
	}
	return fn, args
}

func isSpecFile(v *Verifier, fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if f.Pos().IsValid() {
			return strings.HasPrefix(filepath.Base(v.fset.Position(f.Pos()).Filename), "zz_verif")
		}
		if f.Syntax() != nil {
			return strings.HasPrefix(filepath.Base(v.fset.Position(f.Syntax().Pos()).Filename), "zz_verif")
		}
	}
	return false
}

func baseName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().Name()
	}
	return fn.Name()
}

// fullName gives "strings.Index", "(*bufio.Writer).Flush", ...
func fullName(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.String()
}

func (ex *Exec) callValue(fr *Frame, st *State, c *ssa.CallCommon, fnv Value, args []Value, pos token.Pos) []outcome {
	f, ok := fnv.(*FuncVal)
	if !ok {
		unsup("call of %T", fnv)
	}
	if f.Bi != "" {
		if strings.HasPrefix(f.Bi, "invoke:") {
			if m, ok := models[f.Bi]; ok {
				ex.noteModel(f.Bi)
				return m(ex, fr, st, c, args, pos)
			}
			unsup("interface call %s", f.Bi)
		}
		return ex.builtin(fr, st, c, f.Bi, args, pos)
	}
	if f.Fn == nil {
		if f.Ref != nil && f.Ref.Op == "ite" {
			// a choice between known functions
			st2 := st.clone()
			cond := f.Ref.Args[0]
			var outs []outcome
			if ex.feasible(st, cond) {
				st.assumeBranch(cond)
				outs = append(outs, ex.callValue(fr, st, c, ex.funcOf(f.Ref.Args[1]), args, pos)...)
			}
			if ex.feasible(st2, NotT(cond)) {
				st2.assumeBranch(NotT(cond))
				outs = append(outs, ex.callValue(fr, st2, c, ex.funcOf(f.Ref.Args[2]), args, pos)...)
			}
			return outs
		}
		if m, ok := models["unknown:"+typeName(c.Value.Type())]; ok {
			ex.safety(st, fr, "nil function call", pos, NotT(EqT(f.Ref, TNull)))
			ex.noteModel("unknown:" + typeName(c.Value.Type()))
			return m(ex, fr, st, c, append([]Value{f}, args...), pos)
		}
		unsup("call of unknown function value of type %s", c.Value.Type())
	}
	return ex.callFn(fr, st, c, f, args, pos)
}

func (ex *Exec) noteModel(n string) { ex.modelsUsed[n] = true }

func (ex *Exec) callFn(fr *Frame, st *State, c *ssa.CallCommon, f *FuncVal, args []Value, pos token.Pos) []outcome {
	fn := f.Fn
	v := ex.V
	if v.isSpec(fn) {
		bn := baseName(fn)
		if in, ok := intrinsics[bn]; ok && fn.Parent() == nil {
			return in(ex, fr, st, c, fn, args, pos)
		}
		if lc, ok := v.byFn[fn]; ok && lc.Lemma {
			return ex.useLemma(fr, st, lc, args, pos)
		}
		if r, ok := v.recs[fn]; ok {
			return []outcome{{st, []Value{ex.recCall(fr, st, r, args)}}}
		}
		if fn.Signature.Results().Len() > 0 || fn.Parent() != nil {
			res := ex.evalPure(fr, st, st, f, args)
			return []outcome{{st, res}}
		}
		// a procedure over ghost variables is executed in place
	}
	top := fr.con != nil
	if top {
		con := fr.con
		if con.c.Target == fn && !con.called {
			return ex.targetCall(fr, st, con, f, args, pos)
		}
	}
	if m, ok := models[fullName(fn)]; ok {
		ex.noteModel(fullName(fn))
		return m(ex, fr, st, c, args, pos)
	}
	if cs := v.byTarget[originOf(fn)]; len(cs) > 0 && !(fr.spec && !top) {
		own := false // contracts of the package under verification come first
		for _, k := range cs {
			own = own || !k.NoUse && k.Fn.Pkg == ex.C.Fn.Pkg
		}
		for _, k := range cs {
			if a, ok := concrete(k, args); ok && ex.C.Use[k.Name] {
				return ex.useContract(fr, st, k, a, pos)
			}
		}
		for _, k := range cs {
			if own && k.Fn.Pkg != ex.C.Fn.Pkg {
				continue
			}
			if k.NoUse || ex.C.Inline[fn.Name()] {
				continue
			}
			if ex.C.Inline["*"] && k.Target != ex.C.Target && !k.Trusted {
				continue
			}
			if a, ok := concrete(k, args); ok {
				return ex.useContract(fr, st, k, a, pos)
			}
		}
	}
	if len(fn.Blocks) == 0 || !v.inlinable(fn) {
		unsup("call to %s, which has no contract", fullName(fn))
	}
	if fr.spec && !top {
		res := ex.evalPure(fr, st, st, f, args)
		return []outcome{{st, res}}
	}
	// recursion without contract
	n := 0
	for x := fr; x != nil; x = x.caller {
		if x.fn == fn {
			n++
		}
	}
	if n > 3 {
		unsup("recursive function %s has no contract", fn)
	}
	ex.inlined[trimPkg(fn.String())] = true
	return ex.callBody(fr, st, fn, args, f.Bind, false, nil)
}

// concrete: the arguments for a contract that speaks of one dynamic type where
// the function takes an interface.
func concrete(k *Contract, args []Value) ([]Value, bool) {
	out := append([]Value{}, args...)
	for i, p := range k.Fn.Params {
		iv, ok := args[i].(*IfaceVal)
		if !ok || types.IsInterface(p.Type()) {
			continue
		}
		if iv.T == nil || !types.Identical(iv.T, p.Type()) {
			return nil, false
		}
		out[i] = iv.V
	}
	return out, true
}

func originOf(fn *ssa.Function) *ssa.Function { return fn }

// ---- evaluation of specification functions

// evalPure evaluates f(args) in state s and returns the merged result; facts
// found are recorded in st.
func (ex *Exec) evalPure(fr *Frame, st, s0 *State, f *FuncVal, args []Value) []Value {
	s := s0.clone()
	base := s.pc
	ex.quiet++
	outs := ex.callBody(fr, s, f.Fn, args, f.Bind, true, nil)
	ex.quiet--
	if len(outs) == 0 {
		unsup("specification function %s never returns", f.Fn)
	}
	conds := make([]*Term, len(outs))
	tree := make([]pureOut, len(outs))
	for i, o := range outs {
		var nodes []*pcNode
		for n := o.st.pc; n != base && n != nil; n = n.prev {
			nodes = append(nodes, n)
		}
		var cs []*Term
		for k := len(nodes) - 1; k >= 0; k-- {
			n := nodes[k]
			if n.br {
				cs = append(cs, n.t)
				continue
			}
			if n.g {
				st.fact(n.t)
			} else {
				st.assume(ImpT(AndT(cs...), n.t))
			}
		}
		conds[i] = AndT(cs...)
		tree[i] = pureOut{cs, o.vals}
	}
	if res, ok := ex.mergeTree(st, tree); ok {
		return res
	}
	res := append([]Value{}, outs[len(outs)-1].vals...)
	for i := len(outs) - 2; i >= 0; i-- {
		for k := range res {
			res[k] = ex.mergeVal(st, conds[i], outs[i].vals[k], res[k])
		}
	}
	return res
}

// pureOut: the results on one path of a specification function.
type pureOut struct {
	cs   []*Term // the branches taken
	vals []Value
}

// mergeTree joins the results along the tree of branches.
func (ex *Exec) mergeTree(st *State, outs []pureOut) ([]Value, bool) {
	if len(outs) == 1 {
		return outs[0].vals, true
	}
	if len(outs[0].cs) == 0 {
		return nil, false
	}
	c := outs[0].cs[0]
	n := NotT(c)
	var a, b []pureOut
	for _, o := range outs {
		if len(o.cs) == 0 {
			return nil, false
		}
		switch o.cs[0] {
		case c:
			a = append(a, pureOut{o.cs[1:], o.vals})
		case n:
			b = append(b, pureOut{o.cs[1:], o.vals})
		default:
			return nil, false
		}
	}
	x, ok := ex.mergeTree(st, a)
	if !ok || len(b) == 0 {
		return x, ok
	}
	y, ok := ex.mergeTree(st, b)
	if !ok {
		return nil, false
	}
	res := make([]Value, len(x))
	for k := range x {
		res[k] = ex.mergeVal(st, c, x[k], y[k])
	}
	return res, true
}

func (ex *Exec) evalBool(fr *Frame, st *State, f Value) *Term {
	fv := f.(*FuncVal)
	return ex.evalPure(fr, st, st, fv, nil)[0].(*Term)
}

type recSpec struct {
	fn    *ssa.Function
	depth int
	reads []string
	sorts map[string]Sort
	known bool
	lo    int64
	hasLo bool
}

func (ex *Exec) recCall(fr *Frame, st *State, r *recSpec, args []Value) Value {
	name := "spec!" + r.fn.Name()
	rt := r.fn.Signature.Results().At(0).Type()
	sort, ok := scalarSort(rt)
	if !ok {
		unsup("recursive specification %s must return a scalar", r.fn)
	}
	if ex.explicit(r, args) {
		return ex.evalPure(fr, st, st, &FuncVal{Fn: r.fn}, args)[0]
	}
	if !r.known {
		if r.sorts == nil { // discovery
			r.sorts = map[string]Sort{}
			rec := map[string]Sort{}
			ex.readRec = append(ex.readRec, rec)
			s2 := st.clone()
			ex.evalPure(fr, s2, s2, &FuncVal{Fn: r.fn}, args)
			ex.readRec = ex.readRec[:len(ex.readRec)-1]
			for k, v := range rec {
				r.sorts[k] = v
			}
			r.reads = sortedKeys(r.sorts)
			r.known = true
		} else { // nested during discovery
			return ex.mkRecApp(st, name, sort, r, args)
		}
	}
	app := ex.mkRecApp(st, name, sort, r, args)
	if rt2 := rt; isInteger(rt2) {
		if r.hasLo && app.Op == "app" {
			st.fact(LeT(IntT(r.lo), app))
		}
	}
	if app.closed() && ex.inUnfold < r.depth && !st.known[-app.ID] && app.Op == "app" {
		st.known[-app.ID] = true
		ex.inUnfold++
		body := ex.evalPure(fr, st, st, &FuncVal{Fn: r.fn}, args)[0]
		ex.inUnfold--
		st.fact(ex.specEq(app, body.(*Term)))
	}
	return ex.fromSlots(st, []*Term{app}, rt)
}

// explicit: the arguments are strings of known length and constants.
func (ex *Exec) explicit(r *recSpec, args []Value) bool {
	str := false
	for i, p := range r.fn.Params {
		t, ok := args[i].(*Term)
		if !ok {
			return false
		}
		switch b, _ := under(p.Type()).(*types.Basic); {
		case b != nil && b.Info()&types.IsString != 0:
			if !isList(t) {
				return false
			}
			str = true
		case b != nil && b.Info()&types.IsBoolean != 0:
			if t != TTrue && t != TFalse {
				return false
			}
		default:
			if !t.isInt() {
				return false
			}
		}
	}
	return str
}

func (ex *Exec) specEq(a, b *Term) *Term { return EqT(a, b) }

func (ex *Exec) mkRecApp(st *State, name string, sort Sort, r *recSpec, args []Value) *Term {
	var ts []*Term
	for i, p := range r.fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			_ = sl
			sv := args[i].(*SliceVal)
			ts = append(ts, ex.sliceArr(st, sv), sv.Off, sv.Len)
			continue
		}
		ts = append(ts, ex.flatten(st, args[i], p.Type())...)
	}
	for _, n := range r.reads {
		ts = append(ts, ex.mapVar(st, n, r.sorts[n]))
	}
	return AppT(name, sort, ts...)
}

// ---- contracts

// targetCall runs the body of the function under contract.
func (ex *Exec) targetCall(fr *Frame, st *State, con *conFrame, f *FuncVal, args []Value, pos token.Pos) []outcome {
	if con.use {
		con.called = true
		con.pre = st.clone()
		ex.havocMods(st, con)
		res := f.Fn.Signature.Results()
		var vals []Value
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if con.c.FreshRes[i] {
				if pt, ok := under(t).(*types.Pointer); ok {
					vals = append(vals, &Ptr{Kind: PRef, Ref: ex.newRef(pt.Elem()), T: pt.Elem()})
					continue
				}
				if slt, ok := under(t).(*types.Slice); ok {
					sv := ex.freshVal(st, "res", t).(*SliceVal)
					vals = append(vals, &SliceVal{Arr: ex.newRef(slt), Off: IntT(0), Len: sv.Len, Cap: sv.Cap, Elem: slt.Elem()})
					continue
				}
			}
			vals = append(vals, ex.freshVal(st, "res", t))
		}
		con.results = vals
		return []outcome{{st, vals}}
	}
	con.called = true
	con.mark = ex.fresh
	con.pre = st.clone()
	pre := con.pre
	outs := ex.callBody(fr, st, f.Fn, args, f.Bind, false, nil)
	for _, o := range outs {
		for i := range con.c.FreshRes {
			if i >= len(o.vals) {
				unsup("fresh result %d", i)
			}
			ok := TFalse
			switch y := o.vals[i].(type) {
			case *Ptr:
				if y.Kind == PLocal {
					ok = BoolT(y.Obj > con.mark)
				} else if y.Ref != nil {
					ok = isNewTerm(y.Ref, con.mark)
				}
			case *SliceVal:
				if y.Local != nil {
					ok = BoolT(y.Local.Obj > con.mark)
				} else {
					ok = isNewTerm(y.Arr, con.mark)
				}
			}
			ex.obligation(o.st, fr, "fresh", "result", pos, ok)
		}
		if !con.c.NoFrame {
			ex.frameCheck(fr, pre, o.st, con, pos)
		}
	}
	return outs
}

func (ex *Exec) havocMods(st *State, con *conFrame) {
	for _, m := range con.mods {
		for _, k := range ex.V.expandMap(ex, con.c, m) {
			ex.slotRange(k.name, k.sl)
			ex.mapVar(st, k.name, k.sort)
			ex.noteWrite(k.name, nil)
			ex.fresh++
			st.heap[k.name] = VarT(fmt.Sprintf("H%d!%s", ex.fresh, k.name), k.sort)
		}
	}
	for _, p := range con.modAt {
		ex.store(st, p, ex.freshVal(st, "mod", p.T))
	}
}

func (ex *Exec) runContract(fr *Frame, st *State, c *Contract, args []Value, con *conFrame) []Exit {
	nf := &Frame{fn: c.Fn, regs: map[ssa.Value]Value{}, spec: true, caller: fr, con: con}
	if fr != nil {
		nf.depth = fr.depth + 1
	}
	if len(args) != len(c.Fn.Params) {
		unsup("contract %s: %d parameters for %d arguments", c.Name, len(c.Fn.Params), len(args))
	}
	for i, p := range c.Fn.Params {
		nf.regs[p] = args[i]
	}
	return ex.run(nf, st, c.Fn.Blocks[0], 0, nil)
}

func (ex *Exec) useContract(fr *Frame, st *State, c *Contract, args []Value, pos token.Pos) []outcome {
	ex.used[c.Name] = true
	for i, a := range args {
		args[i] = ex.globalise(st, a)
	}
	con := &conFrame{c: c, use: true, caller: fr, pos: pos}
	var outs []outcome
	for _, e := range ex.runContract(fr, st, c, args, con) {
		if e.kind != "ret" {
			continue
		}
		outs = append(outs, outcome{e.st, e.fr.con.results})
	}
	return outs
}

// globalise moves local objects reachable from a contract argument to the heap.
func (ex *Exec) globalise(st *State, v Value) Value {
	switch x := v.(type) {
	case *Ptr:
		if x.Kind == PLocal {
			switch under(x.T).(type) {
			case *types.Struct, *types.Array:
				return &Ptr{Kind: PRef, Ref: ex.asRef(st, x), T: x.T}
			}
		}
	case *SliceVal:
		if x.Local != nil {
			return &SliceVal{Arr: ex.sliceArr(st, x), Off: x.Off, Len: x.Len, Cap: x.Cap, Elem: x.Elem}
		}
	case *StructVal:
		n := &StructVal{T: x.T}
		for _, f := range x.F {
			n.F = append(n.F, ex.globalise(st, f))
		}
		return n
	}
	return v
}

func (ex *Exec) useLemma(fr *Frame, st *State, c *Contract, args []Value, pos token.Pos) []outcome {
	if fr.con != nil && fr.con.use && fr.con.c.Lemma {
		return []outcome{{st, nil}} // a step of the proof of a lemma that is being used
	}
	ex.used[c.Name] = true
	con := &conFrame{c: c, use: true, caller: fr, pos: pos, called: true}
	var outs []outcome
	for _, e := range ex.runContract(fr, st, c, args, con) {
		if e.kind == "ret" {
			outs = append(outs, outcome{e.st, nil})
		}
	}
	return outs
}

// frameCheck: every heap location not listed as modified is unchanged.
func (ex *Exec) frameCheck(fr *Frame, pre, post *State, con *conFrame, pos token.Pos) {
	allowedMap := map[string]bool{}
	for _, m := range con.mods {
		for _, k := range ex.V.expandMap(ex, con.c, m) {
			allowedMap[k.name] = true
		}
	}
	allowedAt := map[string][]*Term{}
	for _, p := range con.modAt {
		for _, l := range ex.locations(pre, p) {
			allowedAt[l.name] = append(allowedAt[l.name], l.idx)
		}
	}
	var bad []string
	for _, name := range sortedKeys(post.heap) {
		q := post.heap[name]
		if allowedMap[name] || strings.HasPrefix(name, "$local") {
			continue
		}
		p, ok := pre.heap[name]
		if !ok {
			p = VarT("H0!"+name, q.Sort)
		}
		if p == q {
			continue
		}
		if !strings.HasPrefix(string(q.Sort), "(Array Ref") {
			bad = append(bad, name)
			continue
		}
		ex.frameMap(fr, post, name, p, q, allowedAt[name], con, pos)
	}
	for _, b := range bad {
		ex.obligation(post, fr, "frame", b, pos, TFalse)
	}
}

func (ex *Exec) frameMap(fr *Frame, post *State, name string, p, q *Term, allowed []*Term, con *conFrame, pos token.Pos) {
	// structural walk first
	x := q
	okIdx := func(i *Term) bool {
		r := i
		for r.Op == "app" && (strings.HasPrefix(r.Name, "sub!") || strings.HasPrefix(r.Name, "elt!")) {
			r = r.Args[0]
		}
		if r.Op == "var" && strings.HasPrefix(r.Name, "obj!") && mentionsAfter(r, con.mark) {
			return true
		}
		for _, a := range allowed {
			if a == i {
				return true
			}
		}
		return false
	}
	for x != p && x.Op == "store" && okIdx(x.Args[1]) {
		x = x.Args[0]
	}
	if x == p {
		ex.obligation(post, fr, "frame", name, pos, TTrue)
		return
	}
	ex.fresh++
	r := VarT(fmt.Sprintf("in!frame%d", ex.fresh), SRef)
	var ds []*Term
	for _, a := range allowed {
		ds = append(ds, EqT(r, a))
	}
	st := post.clone()
	ds = append(ds, EqT(SelT(p, r), SelT(q, r)))
	ex.obligation(st, fr, "frame", name, pos, OrT(ds...))
}

type loc struct {
	name string
	idx  *Term
}

func (ex *Exec) locations(st *State, p *Ptr) []loc {
	switch p.Kind {
	case PLocal:
		if !st.mat[p.Obj] {
			return nil
		}
		return ex.locations(st, ex.localAsHeap(p, st))
	case PSlot:
		sls, _ := valueSlots(p.T)
		var out []loc
		for _, s := range sls {
			out = append(out, loc{p.Map + s.Suffix, p.Idx[0]})
		}
		return out
	}
	var out []loc
	switch u := under(p.T).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.locations(st, ex.fieldPtr(p.Ref, p.T, i))...)
		}
		return out
	case *types.Array:
		if sl, ok := valueSlots(u.Elem()); ok {
			for _, s := range sl {
				out = append(out, loc{"elem:" + typeName(u.Elem()) + s.Suffix, p.Ref})
			}
			return out
		}
		unsup("modifies array of %s", u.Elem())
	}
	sls, _ := valueSlots(p.T)
	for _, s := range sls {
		out = append(out, loc{"cell:" + typeName(p.T) + s.Suffix, p.Ref})
	}
	return out
}

// ---- builtins

func (ex *Exec) builtin(fr *Frame, st *State, c *ssa.CallCommon, name string, args []Value, pos token.Pos) []outcome {
	one := func(v Value) []outcome { return []outcome{{st, []Value{v}}} }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if x.Sort == SStr {
				return one(SLen(x))
			}
			if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
				funRanges["maplen"] = [2]*bigInt{newBig(0), maxInt64}
				d := ex.mapDom(st, x, mt)
				l := AppT("maplen!"+string(mangle(string(d.Sort))), SInt, d)
				st.fact(LeT(IntT(0), l))
				return one(IteT(EqT(x, TNull), IntT(0), l))
			}
		case *SliceVal:
			return one(x.Len)
		case *ArrayVal:
			return one(IntT(x.N))
		case *Ptr:
			return one(IntT(under(x.T).(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceVal:
			return one(x.Cap)
		}
	case "append":
		return one(ex.appendVal(fr, st, args[0].(*SliceVal), args[1], c))
	case "copy":
		return one(ex.copyVal(fr, st, args[0].(*SliceVal), args[1]))
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		if m == TNull {
			return []outcome{{st: st}}
		}
		ex.mapDelete(st, m, mt, args[1])
		return []outcome{{st: st}}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if r.Sort != SInt {
				unsup("min/max on %s", r.Sort)
			}
			if name == "min" {
				r = IteT(LeT(r, b), r, b)
			} else {
				r = IteT(LeT(b, r), r, b)
			}
		}
		return one(r)
	case "clear":
		unsup("clear")
	case "recover":
		return one(ex.zero(types.NewInterfaceType(nil, nil)))
	case "panic":
		ex.safety(st, fr, "panic", pos, TFalse)
		return nil
	case "ssa:wrapnilchk":
		return one(args[0])
	case "print", "println":
		return []outcome{{st: st}}
	}
	unsup("builtin %s", name)
	return nil
}

func mangle(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}

// appendVal: append(s, t...) where t is a slice or string. The result has a
// fresh backing array unless the spare capacity is provably sufficient; when
// neither is known, both possibilities are covered by the aliasing model: the
// result's backing array is an unknown reference whose contents are given.
func (ex *Exec) appendVal(fr *Frame, st *State, s *SliceVal, t Value, c *ssa.CallCommon) Value {
	elem := s.Elem
	var n *Term
	var at func(i *Term) Value
	switch x := t.(type) {
	case *Term:
		n = SLen(x)
		at = func(i *Term) Value { return SAt(x, i) }
	case *SliceVal:
		n = x.Len
		at = func(i *Term) Value { return ex.load(st, ex.sliceElem(st, x, i)) }
	default:
		unsup("append of %T", t)
	}
	if k, ok := n.i64(); ok && k == 0 {
		return s
	}
	total := AddT(s.Len, n)
	st.assume(LeT(total, BigT(maxInt64)))
	inPlace := LeT(total, s.Cap)
	// in-place possible: contents beyond len are written; we model append as
	// always producing a fresh array when s is nil or has no spare capacity,
	// and fork otherwise.
	if s.Local != nil {
		if s.Local.Kind == PLocal && ex.entails(st, inPlace) {
			if k, ok := n.i64(); ok && k <= 64 {
				for i := int64(0); i < k; i++ {
					ex.store(st, ex.sliceElem(st, s, AddT(s.Len, IntT(i))), at(IntT(i)))
				}
				return &SliceVal{Local: s.Local, Off: s.Off, Len: total, Cap: s.Cap, Elem: elem}
			}
		}
		s = &SliceVal{Arr: ex.sliceArr(st, s), Off: s.Off, Len: s.Len, Cap: s.Cap, Elem: elem}
	}
	sls, scal := valueSlots(elem)
	if !scal {
		// struct elements: new element objects
		k, ok := n.i64()
		if !ok || k > 16 {
			unsup("append of a symbolic number of %s", elem)
		}
		return ex.appendStructs(st, s, k, at, elem, total)
	}
	// contents of the result as a fresh array R (offset 0) or in place
	ex.fresh++
	ncap := VarRT(fmt.Sprintf("v%d!cap", ex.fresh), newBig(0), maxInt64)
	st.assume(LeT(total, ncap))
	k, konst := n.i64()
	known := func(b bool) *SliceVal {
		if b { // in place
			for i, sl := range sls {
				nm := "elem:" + typeName(elem) + sl.Suffix
				ex.slotRange(nm, sl)
				m := ex.mapVar(st, nm, ArrSort(SRef, ArrSort(SInt, sl.Sort)))
				inner := SelT(m, s.Arr)
				inner = ex.writeRun(st, inner, AddT(s.Off, s.Len), n, konst, k, sl, i, t, at, elem)
				ex.noteWrite(nm, []*Term{s.Arr})
				st.heap[nm] = StoT(ex.mapVar(st, nm, m.Sort), s.Arr, inner)
			}
			return &SliceVal{Arr: s.Arr, Off: s.Off, Len: total, Cap: s.Cap, Elem: elem}
		}
		r := ex.newRef(elem)
		for i, sl := range sls {
			nm := "elem:" + typeName(elem) + sl.Suffix
			ex.slotRange(nm, sl)
			m := ex.mapVar(st, nm, ArrSort(SRef, ArrSort(SInt, sl.Sort)))
			var inner *Term
			var off *Term = IntT(0)
			if s.Arr == TNull {
				ex.fresh++
				inner = VarT(fmt.Sprintf("H%d!%s", ex.fresh, nm), ArrSort(SInt, sl.Sort))
			} else {
				// copy keeps the offset: the new array is indexed as the old one
				inner = SelT(m, s.Arr)
				off = s.Off
			}
			inner = ex.writeRun(st, inner, AddT(off, s.Len), n, konst, k, sl, i, t, at, elem)
			ex.noteWrite(nm, []*Term{r})
			st.heap[nm] = StoT(ex.mapVar(st, nm, m.Sort), r, inner)
		}
		off := s.Off
		if s.Arr == TNull {
			off = IntT(0)
		}
		return &SliceVal{Arr: r, Off: off, Len: total, Cap: ncap, Elem: elem}
	}
	if s.Arr == TNull || s.Cap == s.Len || ex.entails(st, NotT(inPlace)) {
		return known(false)
	}
	if ex.entails(st, inPlace) {
		return known(true)
	}
	// undetermined capacity: unknown array r, equal to s.Arr iff in place
	ex.fresh++
	r := VarT(fmt.Sprintf("v%d!app", ex.fresh), SRef)
	fr2 := ex.newRef(elem)
	st.assume(EqT(r, IteT(inPlace, s.Arr, fr2)))
	st.assume(NotT(EqT(r, TNull)))
	for i, sl := range sls {
		nm := "elem:" + typeName(elem) + sl.Suffix
		ex.slotRange(nm, sl)
		m := ex.mapVar(st, nm, ArrSort(SRef, ArrSort(SInt, sl.Sort)))
		inner := SelT(m, s.Arr)
		inner = ex.writeRun(st, inner, AddT(s.Off, s.Len), n, konst, k, sl, i, t, at, elem)
		ex.noteWrite(nm, []*Term{s.Arr})
		ex.noteWrite(nm, nil)
		st.heap[nm] = StoT(ex.mapVar(st, nm, m.Sort), r, inner)
	}
	return &SliceVal{Arr: r, Off: s.Off, Len: total, Cap: IteT(inPlace, s.Cap, ncap), Elem: elem}
}

// writeRun stores n elements from position p of the inner array.
func (ex *Exec) writeRun(st *State, inner, p, n *Term, konst bool, k int64, sl slot, si int, t Value, at func(*Term) Value, elem types.Type) *Term {
	if konst && k <= 256 {
		for i := int64(0); i < k; i++ {
			ts := ex.toSlots(st, at(IntT(i)), elem)
			inner = StoT(inner, AddT(p, IntT(i)), ts[si])
		}
		return inner
	}
	// array equal to inner except on [p, p+n)
	ex.fresh++
	nw := VarT(fmt.Sprintf("H%d!elem:%s", ex.fresh, typeName(elem)+sl.Suffix), inner.Sort)
	d := ex.qdepth
	ex.qdepth++
	b := BVarAt(d, SInt)
	var src *Term
	switch x := t.(type) {
	case *Term:
		src = SAt(x, SubT(b, p))
	case *SliceVal:
		nm := "elem:" + typeName(elem) + sl.Suffix
		m := ex.mapVar(st, nm, ArrSort(SRef, inner.Sort))
		if lit, ok := ex.constBytes[ex.sliceArr(st, x).ID]; ok {
			src = SAt(lit, AddT(x.Off, SubT(b, p)))
		} else {
			src = SelT(SelT(m, ex.sliceArr(st, x)), AddT(x.Off, SubT(b, p)))
		}
	}
	ex.qdepth--
	in := AndT(LeT(p, b), LtT(b, AddT(p, n)))
	st.assume(ForallT([]*Term{b}, []*Term{mk(&Term{Op: "select", Args: []*Term{nw, b}, Sort: sl.Sort})}, EqT(SelT(nw, b), IteT(in, src, SelT(inner, b)))))
	return nw
}

func (ex *Exec) appendStructs(st *State, s *SliceVal, k int64, at func(*Term) Value, elem types.Type, total *Term) Value {
	var vals []Value
	for i := int64(0); i < k; i++ {
		vals = append(vals, at(IntT(i)))
	}
	inPlace := LeT(total, s.Cap)
	ex.fresh++
	ncap := VarRT(fmt.Sprintf("v%d!cap", ex.fresh), newBig(0), maxInt64)
	st.assume(LeT(total, ncap))
	if s.Arr == TNull || ex.entails(st, NotT(inPlace)) {
		n, ok := s.Len.i64()
		if !ok || n > 32 {
			// growing copies an unknown number of elements
			return ex.appendStructsSym(st, s, vals, elem, total, ncap, inPlace)
		}
		r := ex.newRef(elem)
		for i := int64(0); i < n; i++ {
			ex.store(st, ex.elemPtr(r, IntT(i), elem), ex.load(st, ex.elemPtr(s.Arr, AddT(s.Off, IntT(i)), elem)))
		}
		for i, v := range vals {
			ex.store(st, ex.elemPtr(r, IntT(n+int64(i)), elem), v)
		}
		return &SliceVal{Arr: r, Off: IntT(0), Len: total, Cap: ncap, Elem: elem}
	}
	if ex.entails(st, inPlace) {
		for i, v := range vals {
			ex.store(st, ex.elemPtr(s.Arr, AddT(s.Off, s.Len, IntT(int64(i))), elem), v)
		}
		return &SliceVal{Arr: s.Arr, Off: s.Off, Len: total, Cap: s.Cap, Elem: elem}
	}
	return ex.appendStructsSym(st, s, vals, elem, total, ncap, inPlace)
}

// appendStructsSym: the new array is an unknown reference r; every map holding
// element components is updated by a quantified copy from the old array.
func (ex *Exec) appendStructsSym(st *State, s *SliceVal, vals []Value, elem types.Type, total, ncap, inPlace *Term) Value {
	r := ex.newRef(elem)
	// allowed: reallocation always (in place is observationally different only
	// through aliases of the spare capacity, which we do not model: recorded as
	// an assumption)
	ex.assumption("append on a slice of structs is modelled as reallocating (aliases of spare capacity are not observed)")
	ex.copyElems(st, s.Arr, s.Off, r, s.Len, elem)
	for i, v := range vals {
		ex.store(st, ex.elemPtr(r, AddT(s.Off, s.Len, IntT(int64(i))), elem), v)
	}
	return &SliceVal{Arr: r, Off: s.Off, Len: total, Cap: ncap, Elem: elem}
}

// copyElems makes elements [off,off+n) of array r equal to those of a (same indices).
func (ex *Exec) copyElems(st *State, a, off, r, n *Term, elem types.Type) {
	var rec func(mk1 func(arr, i *Term) *Term, t types.Type)
	rec = func(ref func(arr, i *Term) *Term, t types.Type) {
		u := under(t).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := structName(t) + "." + f.Name()
			switch under(f.Type()).(type) {
			case *types.Struct:
				rec(func(arr, i *Term) *Term { return AppT("sub!"+name, SRef, ref(arr, i)) }, f.Type())
				continue
			case *types.Array:
				unsup("copy of array field %s", name)
			}
			sls, _ := valueSlots(f.Type())
			for _, sl := range sls {
				nm := name + sl.Suffix
				ex.slotRange(nm, sl)
				m := ex.mapVar(st, nm, ArrSort(SRef, sl.Sort))
				ex.fresh++
				nw := VarT(fmt.Sprintf("H%d!%s", ex.fresh, nm), m.Sort)
				d := ex.qdepth
				bi := BVarAt(d, SInt)
				br := BVarAt(d, SRef)
				nr := ref(r, bi)
				st.assume(ForallT([]*Term{bi}, []*Term{mk(&Term{Op: "select", Args: []*Term{nw, nr}, Sort: sl.Sort})},
					EqT(SelT(nw, nr), SelT(m, ref(a, bi)))))
				// all other references unchanged
				root := AppT("rootarr!"+typeName(elem), SRef, br)
				_ = root
				k := AppT("eltroot", SRef, br)
				st.assume(ForallT([]*Term{bi}, []*Term{nr}, EqT(AppT("eltroot", SRef, nr), r)))
				st.assume(ForallT([]*Term{br}, []*Term{mk(&Term{Op: "select", Args: []*Term{nw, br}, Sort: sl.Sort})},
					OrT(EqT(k, r), EqT(SelT(nw, br), SelT(m, br)))))
				ex.noteWrite(nm, nil)
				st.heap[nm] = nw
			}
		}
	}
	rec(func(arr, i *Term) *Term { return AppT("elt!"+typeName(elem), SRef, arr, i) }, elem)
}

func (ex *Exec) copyVal(fr *Frame, st *State, dst *SliceVal, src Value) Value {
	var n *Term
	switch x := src.(type) {
	case *Term:
		n = SLen(x)
	case *SliceVal:
		n = x.Len
	}
	cnt := IteT(LeT(dst.Len, n), dst.Len, n)
	if ex.entails(st, LeT(n, dst.Len)) {
		cnt = n
	} else if ex.entails(st, LeT(dst.Len, n)) {
		cnt = dst.Len
	}
	sls, ok := valueSlots(dst.Elem)
	if !ok || len(sls) != 1 {
		unsup("copy of %s", dst.Elem)
	}
	at := func(i *Term) Value {
		if x, ok := src.(*Term); ok {
			return SAt(x, i)
		}
		return ex.load(st, ex.sliceElem(st, src.(*SliceVal), i))
	}
	k, konst := cnt.i64()
	if dst.Local != nil && konst && k <= 64 {
		var vs []Value
		for i := int64(0); i < k; i++ {
			vs = append(vs, at(IntT(i)))
		}
		for i := int64(0); i < k; i++ {
			ex.store(st, ex.sliceElem(st, dst, IntT(i)), vs[i])
		}
		return cnt
	}
	arr := ex.sliceArr(st, dst)
	nm := "elem:" + typeName(dst.Elem)
	ex.slotRange(nm, sls[0])
	m := ex.mapVar(st, nm, ArrSort(SRef, ArrSort(SInt, sls[0].Sort)))
	inner := ex.writeRun(st, SelT(m, arr), dst.Off, cnt, konst, k, sls[0], 0, src, at, dst.Elem)
	ex.noteWrite(nm, []*Term{arr})
	st.heap[nm] = StoT(ex.mapVar(st, nm, m.Sort), arr, inner)
	return cnt
}

func (ex *Exec) assumption(s string) { ex.assumptions[s] = true }
