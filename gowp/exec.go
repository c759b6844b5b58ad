package main

// Path-wise symbolic execution of go/ssa functions, generating obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name     string // stable name: contract / kind : detail
	Contract string
	Kind     string
	Func     string
	Pos      string
	PC       []*Term
	Goal     *Term
	Result   SolverResult
	Trivial  bool
	OK       bool
	Cover    bool // reachability: expected satisfiable
	Inputs   []*Term
}

type Exec struct {
	V                       *Verifier
	C                       *Contract // contract being verified
	inc                     *incSolver
	fresh                   int
	quiet                   int // suppress write notes
	rec                     []*writeRec
	obls                    []*Obligation
	noObl                   int                 // >0: discard obligations (discovery runs)
	reflected               map[*Term]*SliceVal // reflect.ValueOf of slices
	depthFn                 map[*ssa.Function]int
	paths                   int
	qdepth                  int
	inUnfold                int
	notes                   map[string]bool
	inlined                 map[string]bool
	modelsUsed, assumptions map[string]bool
	constBytes              map[int]*Term
	used                    map[string]bool // contracts used
	unfolded                map[int]bool
	deadline                time.Time
	mark                    int
	steps                   int
	inputs                  []*Term
	readRec                 []map[string]Sort
	mapSorts                map[string]Sort
	snaps                   map[int]map[string]*Term
	lite                    int // >0: looking for what a loop writes
	badInv                  map[string]map[string]bool
	entrySt                 *State // loop entry state during invariant evaluation
}

type writeRec struct {
	maps map[string][][]*Term
	objs map[int]map[string][]Sel
	all  bool
}

func (ex *Exec) noteWrite(name string, idx []*Term) {
	if ex.quiet > 0 {
		return
	}
	for _, r := range ex.rec {
		r.maps[name] = append(r.maps[name], idx)
	}
}
func (ex *Exec) noteObjWrite(p *Ptr) {
	for _, r := range ex.rec {
		m := r.objs[p.Obj]
		if m == nil {
			m = map[string][]Sel{}
			r.objs[p.Obj] = m
		}
		var sb strings.Builder
		var path []Sel
		for _, s := range p.Path {
			if s.Index != nil {
				break // whole array component
			}
			fmt.Fprintf(&sb, ".%d", s.Field)
			path = append(path, s)
		}
		m[sb.String()] = path
	}
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	ord  int
}

type loopCtx struct {
	li       *loopInfo
	stopExit bool // return loop exits instead of continuing
	unroll   int  // remaining unrollings (mode unroll), -1: invariant mode
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	loops  []*loopCtx
	defers []*deferred
	spec   bool
	caller *Frame
	pre    *State // contract frames: state before the call under contract
	con    *conFrame
	depth  int
	phis   map[*ssa.Phi]Value // values of the phis of the next block
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type Exit struct {
	kind string // ret, back, exit, panic
	st   *State
	fr   *Frame
	vals []Value
	blk  *ssa.BasicBlock // back/exit: target
	pred *ssa.BasicBlock
	lc   *loopCtx
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.regs = make(map[ssa.Value]Value, len(fr.regs)+4)
	for k, v := range fr.regs {
		n.regs[k] = v
	}
	n.loops = append([]*loopCtx{}, fr.loops...)
	n.defers = append([]*deferred{}, fr.defers...)
	if fr.con != nil {
		c := *fr.con
		n.con = &c
	}
	return &n
}

func (fr *Frame) preState() *State {
	for f := fr; f != nil; f = f.caller {
		if f.con != nil && f.con.pre != nil {
			return f.con.pre
		}
	}
	return nil
}

// ---- obligations

func (ex *Exec) obligation(st *State, fr *Frame, kind, detail string, pos token.Pos, goal *Term) {
	if ex.noObl > 0 {
		st.assume(goal)
		return
	}
	fn := ""
	if fr != nil {
		fn = trimPkg(fr.fn.String())
	}
	name := ex.C.Name + "/" + kind
	if detail != "" {
		name += ":" + detail
	}
	o := &Obligation{Name: name, Contract: ex.C.Name, Kind: kind, Func: fn, Goal: goal, Pos: ex.V.pos(pos)}
	ex.obls = append(ex.obls, o)
	if goal == TTrue || st.known[goal.ID] {
		o.OK, o.Trivial = true, true
		return
	}
	o.PC = st.pcTerms()
	if g := expandMod(goal); g != goal {
		goal, o.Goal = g, g
		if g == TTrue {
			o.OK, o.Trivial = true, true
			return
		}
	}
	if !hasQuant(goal) {
		start := time.Now()
		if ex.inc.check(append(append([]*Term{}, o.PC...), NotT(goal))) == "unsat" {
			o.OK = true
			o.Result = SolverResult{Status: "unsat", Solver: "z3-new(incremental)", Seconds: time.Since(start).Seconds()}
			st.assume(goal)
			return
		}
	}
	st.assume(goal)
}

// safety obligations are only generated in code, not in specifications.
func (ex *Exec) safety(st *State, fr *Frame, detail string, pos token.Pos, goal *Term) {
	if fr.spec {
		return
	}
	if goal == TTrue || st.known[goal.ID] {
		if ex.noObl == 0 {
			ex.obls = append(ex.obls, &Obligation{Name: ex.C.Name + "/safe:" + detail, Contract: ex.C.Name, Kind: "safe", Func: trimPkg(fr.fn.String()), Goal: goal, OK: true, Trivial: true, Pos: ex.V.pos(pos)})
		}
		return
	}
	ex.obligation(st, fr, "safe", detail, pos, goal)
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == TFalse || st.known[NotT(c).ID] {
		return false
	}
	if c == TTrue || st.known[c.ID] {
		return true
	}
	return ex.inc.check(append(st.pcTerms(), c)) != "unsat"
}

// provable: quick entailment by the incremental solver.
func (ex *Exec) entails(st *State, c *Term) bool {
	if c == TTrue || st.known[c.ID] {
		return true
	}
	if c == TFalse {
		return false
	}
	return ex.inc.check(append(st.pcTerms(), NotT(c))) == "unsat"
}

// ---- running functions

type outcome struct {
	st   *State
	vals []Value
}

const maxDepth = 60

func (ex *Exec) callBody(caller *Frame, st *State, fn *ssa.Function, args []Value, bind []Value, spec bool, con *conFrame) []outcome {
	if len(fn.Blocks) == 0 {
		unsup("function %s has no body", fn)
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, spec: spec, caller: caller, con: con}
	if !spec {
		st.step(uint64(ex.V.fnNum(fn)))
	}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > maxDepth && !(spec && fr.depth <= 4*maxDepth) {
		unsup("call depth exceeded in %s", fn)
	}
	for i, p := range fn.Params {
		if i >= len(args) {
			unsup("missing args for %s", fn)
		}
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = bind[i]
	}
	exits := ex.run(fr, st, fn.Blocks[0], 0, nil)
	var outs []outcome
	for _, e := range exits {
		switch e.kind {
		case "ret":
			outs = append(outs, outcome{e.st, e.vals})
		case "panic":
		default:
			panic("unexpected exit " + e.kind + " from " + fn.String())
		}
	}
	return outs
}

func (ex *Exec) checkBudget() {
	ex.steps++
	if ex.steps%256 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("symbolic execution time limit exceeded")
	}
}

// run executes from instruction idx of block b.
func (ex *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, idx int, pred *ssa.BasicBlock) []Exit {
	for {
		if idx == 0 {
			// phis are evaluated in parallel
			n := 0
			var vals []Value
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				n++
				if pred == nil {
					vals = append(vals, nil)
					continue
				}
				k := -1
				for i, p := range b.Preds {
					if p == pred {
						k = i
					}
				}
				if v, ok := fr.phis[phi]; ok {
					vals = append(vals, v)
					continue
				}
				vals = append(vals, ex.get(fr, st, phi.Edges[k]))
			}
			fr.phis = nil
			if pred != nil {
				for i := 0; i < n; i++ {
					fr.regs[b.Instrs[i].(*ssa.Phi)] = vals[i]
				}
			}
			idx = n
		}
		for ; idx < len(b.Instrs); idx++ {
			ex.checkBudget()
			in := b.Instrs[idx]
			switch in := in.(type) {
			case *ssa.Jump:
				return ex.jump(fr, st, b, b.Succs[0])
			case *ssa.If:
				return ex.branch(fr, st, b, in)
			case *ssa.Return:
				var vs []Value
				for _, r := range in.Results {
					vs = append(vs, ex.get(fr, st, r))
				}
				return []Exit{{kind: "ret", st: st, fr: fr, vals: vs}}
			case *ssa.Panic:
				ex.safety(st, fr, "panic", in.Pos(), TFalse)
				return []Exit{{kind: "panic", st: st, fr: fr}}
			case *ssa.Call:
				outs := ex.call(fr, st, in, &in.Call)
				if len(outs) == 1 {
					st = outs[0].st
					ex.setCall(fr, in, outs[0].vals)
					continue
				}
				var exits []Exit
				for _, o := range outs {
					f2 := fr.clone()
					ex.setCall(f2, in, o.vals)
					exits = append(exits, ex.run(f2, o.st, b, idx+1, nil)...)
				}
				return exits
			case *ssa.RunDefers:
				outs := []outcome{{st: st}}
				for i := len(fr.defers) - 1; i >= 0; i-- {
					d := fr.defers[i]
					var next []outcome
					for _, o := range outs {
						for _, o2 := range ex.callValue(fr, o.st, d.call, d.fn, d.args, in.Pos()) {
							next = append(next, outcome{st: o2.st})
						}
					}
					outs = next
				}
				fr.defers = nil
				if len(outs) == 1 {
					st = outs[0].st
					continue
				}
				var exits []Exit
				for _, o := range outs {
					exits = append(exits, ex.run(fr.clone(), o.st, b, idx+1, nil)...)
				}
				return exits
			default:
				forks := ex.step(fr, st, in)
				if forks != nil {
					var exits []Exit
					for _, f := range forks {
						f2 := fr.clone()
						if v, ok := in.(ssa.Value); ok {
							f2.regs[v] = f.vals[0]
						}
						exits = append(exits, ex.run(f2, f.st, b, idx+1, nil)...)
					}
					return exits
				}
			}
		}
		panic("block without terminator")
	}
}

func (ex *Exec) setCall(fr *Frame, in *ssa.Call, vals []Value) {
	switch len(vals) {
	case 0:
	case 1:
		fr.regs[in] = vals[0]
	default:
		fr.regs[in] = TupleVal(vals)
	}
	if _, isT := in.Type().(*types.Tuple); isT && len(vals) == 1 {
		if _, ok := vals[0].(TupleVal); !ok {
			fr.regs[in] = TupleVal(vals)
		}
	}
}

// condEdge: the branch of a chain of conditions from block pred to block to, taken
// if cond holds.
type condEdge struct {
	pred, to *ssa.BasicBlock
	cond     *Term
}

// joined follows the conditions of a chain as in a && b || c, which only compare
// values at hand, and returns the ways out of it.
func (ex *Exec) joined(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If, cond *Term, seen map[*ssa.BasicBlock]bool, out *[]condEdge) bool {
	c := ex.get(fr, st, in.Cond).(*Term)
	if st.known[c.ID] {
		c = TTrue
	} else if st.known[NotT(c).ID] {
		c = TFalse
	}
	for i, s := range b.Succs {
		ci := AndT(cond, c)
		if i == 1 {
			ci = AndT(cond, NotT(c))
		}
		if ci == TFalse {
			continue
		}
		if next := ex.chained(fr, st, s, b, seen); next != nil {
			seen[s] = true
			if !ex.joined(fr, st, s, next, ci, seen, out) {
				return false
			}
			continue
		}
		*out = append(*out, condEdge{b, s, ci})
		if len(*out) > 12 {
			return false
		}
	}
	return true
}

// chained: block s only compares and branches; pred is its only predecessor.
func (ex *Exec) chained(fr *Frame, st *State, s, pred *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) *ssa.If {
	if len(s.Preds) != 1 || ex.V.loopAt(fr.fn, s) != nil || seen[s] {
		return nil
	}
	if len(fr.loops) > 0 {
		li := fr.loops[len(fr.loops)-1].li
		if !li.body[s] || li.head == s {
			return nil
		}
	}
	next, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for _, in := range s.Instrs[:len(s.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.BinOp:
			switch in.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if !isInteger(in.X.Type()) && !isString(in.X.Type()) && !isBool(in.X.Type()) {
					return nil
				}
				for _, x := range []ssa.Value{in.X, in.Y} {
					if _, ok := x.(*ssa.Const); !ok && fr.regs[x] == nil {
						return nil
					}
				}
			default:
				return nil
			}
		case *ssa.UnOp:
			if in.Op != token.NOT {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
		// the values are needed by the instructions that follow
		if v, ok := in.(ssa.Value); ok {
			outs := ex.step(fr, st, in)
			if outs != nil || fr.regs[v] == nil {
				return nil
			}
		}
	}
	return next
}

// phisOf are the values of the phis of block to, joined over its edges.
func (ex *Exec) phisOf(fr *Frame, st *State, to *ssa.BasicBlock, es []condEdge) (map[*ssa.Phi]Value, bool) {
	m := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Value
		for i := len(es) - 1; i >= 0; i-- {
			k := -1
			for j, p := range to.Preds {
				if p == es[i].pred {
					if k >= 0 {
						return nil, false
					}
					k = j
				}
			}
			x := ex.get(fr, st, phi.Edges[k])
			if v == nil {
				v = x
				continue
			}
			a, ok1 := v.(*Term)
			b, ok2 := x.(*Term)
			if !ok1 || !ok2 || a.Sort != b.Sort {
				return nil, false
			}
			v = IteT(es[i].cond, b, a)
		}
		m[phi] = v
	}
	return m, true
}

// joinBranch takes a whole chain of conditions as one.
func (ex *Exec) joinBranch(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If) ([]Exit, bool) {
	var es []condEdge
	if !ex.joined(fr, st, b, in, TTrue, map[*ssa.BasicBlock]bool{}, &es) || len(es) < 3 {
		return nil, false
	}
	type target struct {
		to *ssa.BasicBlock
		es []condEdge
	}
	var ts []*target
next:
	for _, e := range es {
		for _, t := range ts {
			if t.to == e.to {
				t.es = append(t.es, e)
				continue next
			}
		}
		ts = append(ts, &target{e.to, []condEdge{e}})
	}
	if len(ts) > 2 {
		return nil, false
	}
	var phis []map[*ssa.Phi]Value
	var conds []*Term
	for _, t := range ts {
		if ex.V.loopAt(fr.fn, t.to) != nil && len(t.es) > 1 {
			return nil, false
		}
		m, ok := ex.phisOf(fr, st, t.to, t.es)
		if !ok {
			return nil, false
		}
		c := TFalse
		for _, e := range t.es {
			c = OrT(c, e.cond)
		}
		phis, conds = append(phis, m), append(conds, c)
	}
	if len(ts) == 2 {
		conds[1] = NotT(conds[0])
	} else {
		conds[0] = TTrue
	}
	var exits []Exit
	for i, t := range ts {
		f2, s2 := fr, st
		if i < len(ts)-1 {
			f2, s2 = fr.clone(), st.clone()
		}
		if conds[i] != TTrue {
			if !ex.feasible(s2, conds[i]) {
				continue
			}
			if i > 0 {
				ex.paths++
			}
			s2.assumeBranch(conds[i])
		}
		s2.step(uint64(b.Index*4 + 3 + i))
		if len(t.es) > 1 {
			f2.phis = phis[i]
		}
		exits = append(exits, ex.jump(f2, s2, t.es[0].pred, t.to)...)
	}
	if ex.paths > ex.V.maxPaths {
		unsup("more than %d paths", ex.V.maxPaths)
	}
	return exits, true
}

func (ex *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If) []Exit {
	if ex.C != nil && ex.C.Join && !fr.spec {
		if exits, ok := ex.joinBranch(fr, st, b, in); ok {
			return exits
		}
	}
	c := ex.get(fr, st, in.Cond).(*Term)
	if st.known[c.ID] {
		c = TTrue
	} else if st.known[NotT(c).ID] {
		c = TFalse
	}
	if c == TTrue {
		st.step(uint64(b.Index*2 + 1))
		return ex.jump(fr, st, b, b.Succs[0])
	}
	if c == TFalse {
		st.step(uint64(b.Index * 2))
		return ex.jump(fr, st, b, b.Succs[1])
	}
	t, f := true, true
	if !fr.spec {
		t = ex.feasible(st, c)
		if !t {
			st.assume(NotT(c))
			st.step(uint64(b.Index * 2))
			return ex.jump(fr, st, b, b.Succs[1])
		}
		f = ex.feasible(st, NotT(c))
		if !f {
			st.assume(c)
			st.step(uint64(b.Index*2 + 1))
			return ex.jump(fr, st, b, b.Succs[0])
		}
	}
	if !fr.spec {
		ex.paths++
	}
	if ex.paths > ex.V.maxPaths {
		unsup("more than %d paths", ex.V.maxPaths)
	}
	st2 := st.clone()
	fr2 := fr.clone()
	st.step(uint64(b.Index*2 + 1))
	st2.step(uint64(b.Index * 2))
	st.assumeBranch(c)
	st2.assumeBranch(NotT(c))
	ex1 := ex.jump(fr, st, b, b.Succs[0])
	ex2 := ex.jump(fr2, st2, b, b.Succs[1])
	return append(ex1, ex2...)
}

func (s *State) step(x uint64) { s.trail = (s.trail ^ (x + 0x9e3779b9)) * 0x100000001b3 }

func (v *Verifier) fnNum(fn *ssa.Function) int {
	if v.fnNums == nil {
		v.fnNums = map[*ssa.Function]int{}
	}
	if _, ok := v.fnNums[fn]; !ok {
		v.fnNums[fn] = len(v.fnNums) + 1
	}
	return v.fnNums[fn]
}

func (s *State) assumeBranch(t *Term) {
	if s.known[t.ID] || t == TTrue {
		return
	}
	s.known[t.ID] = true
	if t.Op == "and" {
		for _, a := range t.Args {
			s.known[a.ID] = true
		}
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t: t, prev: s.pc, n: n, br: true}
}

func (ex *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) []Exit {
	// leave loops that do not contain the target
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.li.body[to] {
			break
		}
		if lc.stopExit {
			return []Exit{{kind: "exit", st: st, fr: fr, blk: to, pred: from, lc: lc}}
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.li.head == to {
			if lc.unroll >= 0 {
				if lc.unroll == 0 {
					if !ex.feasible(st, TTrue) {
						return nil
					}
					ex.obligation(st, fr, "unwind", trimPkg(fr.fn.Name()), to.Instrs[0].Pos(), TFalse)
					return nil
				}
				n := *lc
				n.unroll--
				fr.loops[len(fr.loops)-1] = &n
				return ex.run(fr, st, to, 0, from)
			}
			return []Exit{{kind: "back", st: st, fr: fr, blk: to, pred: from, lc: lc}}
		}
	}
	if li := ex.V.loopAt(fr.fn, to); li != nil {
		return ex.enterLoop(fr, st, li, from)
	}
	return ex.run(fr, st, to, 0, from)
}

// ---- values

func (ex *Exec) get(fr *Frame, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Global:
		return ex.globalPtr(v)
	case *ssa.Function:
		return &FuncVal{Fn: v}
	case *ssa.Builtin:
		return &FuncVal{Bi: v.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (ex *Exec) globalPtr(g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	n := trimPkg(g.String())
	// package-level pointers are roots
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return &Ptr{Kind: PRef, Ref: VarT("glob!"+n, SRef), T: t}
	}
	return &Ptr{Kind: PSlot, Map: "global", Idx: []*Term{VarT("glob!"+n, SRef)}, T: t}
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	return ex.constOf(c.Value, t)
}

func (ex *Exec) constOf(v constant.Value, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(v))
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(v))
		case u.Info()&types.IsInteger != 0:
			b, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			if !ok {
				unsup("const %s", v)
			}
			return BigT(b)
		case u.Info()&types.IsFloat != 0:
			f := constant.ToFloat(v)
			r, ok := new(big.Rat).SetString(f.ExactString())
			if !ok {
				x, _ := constant.Float64Val(f)
				r = new(big.Rat).SetFloat64(x)
			}
			return FltConst(r)
		}
	case *types.Interface:
		// typed constant converted to interface does not occur as Const
	}
	unsup("constant of type %s", t)
	return nil
}

// wrap reduces the mathematical integer t into the range of type ty.
func (ex *Exec) wrap(st *State, fr *Frame, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok || fr.spec {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	in := AndT(LeT(BigT(lo), t), LeT(t, BigT(hi)))
	return ex.wrapTo(st, t, lo, hi, in)
}

// wrapTo reduces t into lo..hi; where it is known how many turns t is off, by
// adding a constant.
func (ex *Exec) wrapTo(st *State, t *Term, lo, hi *big.Int, in *Term) *Term {
	if t.closed() && t.Op != "int" {
		if ex.entails(st, in) {
			return t
		}
		// one turn above or below
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big1)
		for _, k := range []*big.Int{m, new(big.Int).Neg(m)} {
			w := AddT(t, BigT(k))
			if ex.entails(st, AndT(LeT(BigT(lo), w), LeT(w, BigT(hi)))) {
				return w
			}
		}
	}
	return wrapTerm(t, lo, hi, in)
}

func wrapTerm(t *Term, lo, hi *big.Int, in *Term) *Term {
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big1)
	w := AddT(ModT(SubT(t, BigT(lo)), BigT(m)), BigT(lo))
	if w.Op == "int" {
		return w
	}
	if t.Op == "int" {
		return w
	}
	return IteT(in, t, w)
}

// truncated division and remainder
func quoT(a, b *Term) *Term {
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return DivT(a, b)
	}
	if b.Op == "int" {
		pos := DivT(a, BigT(new(big.Int).Abs(b.Val)))
		neg := NegT(DivT(NegT(a), BigT(new(big.Int).Abs(b.Val))))
		r := IteT(LeT(IntT(0), a), pos, neg)
		if b.Val.Sign() < 0 {
			r = NegT(r)
		}
		return r
	}
	absb := IteT(LeT(IntT(0), b), b, NegT(b))
	pos := DivT(a, absb)
	neg := NegT(DivT(NegT(a), absb))
	r := IteT(LeT(IntT(0), a), pos, neg)
	return IteT(LeT(IntT(0), b), r, NegT(r))
}

// nonNegDiv: a is not negative and b a positive constant
func (ex *Exec) nonNegDiv(st *State, a, b *Term, t types.Type) bool {
	if b.Op != "int" || b.Val.Sign() <= 0 || a.lo != nil && a.lo.Sign() >= 0 {
		return false
	}
	if lo, _, ok := intRange(t); ok && lo.Sign() == 0 {
		return true
	}
	return a.closed() && ex.entails(st, LeT(IntT(0), a))
}

func remT(a, b *Term) *Term {
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return ModT(a, b)
	}
	return SubT(a, MulT(quoT(a, b), b))
}

func (ex *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Value {
	x, y := ex.get(fr, st, in.X), ex.get(fr, st, in.Y)
	t := in.X.Type()
	return ex.binopV(fr, st, in.Op, x, y, t, in.Pos())
}

func (ex *Exec) binopV(fr *Frame, st *State, op token.Token, x, y Value, t types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		e := ex.eqVal(st, x, y, t)
		if op == token.NEQ {
			return NotT(e)
		}
		return e
	}
	a, b := x.(*Term), y.(*Term)
	switch {
	case isString(t):
		switch op {
		case token.ADD:
			return SCat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return AppT("scmp"+op.String(), SBool, a, b)
		}
	case isFloat(t):
		return ex.fltBin(fr, st, op, a, b, t)
	case isBool(t):
		switch op {
		case token.AND, token.LAND:
			return AndT(a, b)
		case token.OR, token.LOR:
			return OrT(a, b)
		}
	case isInteger(t):
		switch op {
		case token.ADD:
			return ex.wrap(st, fr, AddT(a, b), t)
		case token.SUB:
			return ex.wrap(st, fr, SubT(a, b), t)
		case token.MUL:
			return ex.wrap(st, fr, MulT(a, b), t)
		case token.QUO:
			ex.safety(st, fr, "division by zero", pos, NotT(EqT(b, IntT(0))))
			if ex.nonNegDiv(st, a, b, t) {
				return DivT(a, b)
			}
			return ex.wrap(st, fr, quoT(a, b), t)
		case token.REM:
			ex.safety(st, fr, "division by zero", pos, NotT(EqT(b, IntT(0))))
			if ex.nonNegDiv(st, a, b, t) {
				return ModT(a, b)
			}
			return remT(a, b)
		case token.LSS:
			return LtT(a, b)
		case token.LEQ:
			return LeT(a, b)
		case token.GTR:
			return LtT(b, a)
		case token.GEQ:
			return LeT(b, a)
		case token.SHL:
			if k, ok := b.i64(); ok && k >= 0 && k < 256 {
				return ex.wrap(st, fr, MulT(a, BigT(new(big.Int).Lsh(big1, uint(k)))), t)
			}
			if k, ok := a.i64(); ok && k == 1 && b.hi != nil && b.hi.Cmp(big.NewInt(64)) < 0 {
				r := IntT(0)
				for i := int64(0); i <= b.hi.Int64(); i++ {
					r = IteT(EqT(b, IntT(i)), BigT(new(big.Int).Lsh(big1, uint(i))), r)
				}
				return ex.wrap(st, fr, r, t)
			}
			return ex.boundedApp(st, "shl", t, a, b)
		case token.SHR:
			if k, ok := b.i64(); ok && k >= 0 && k < 256 {
				return DivT(a, BigT(new(big.Int).Lsh(big1, uint(k))))
			}
			return ex.boundedApp(st, "shr", t, a, b)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return ex.bitop(st, op, a, b, t)
		}
	}
	unsup("operator %s on %s", op, t)
	return nil
}

func (ex *Exec) boundedApp(st *State, name string, t types.Type, as ...*Term) *Term {
	lo, hi, _ := intRange(t)
	n := name + "!" + typeName(t)
	funRanges[n] = [2]*big.Int{lo, hi}
	return AppT(n, SInt, as...)
}

func (ex *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if a.Op == "int" && b.Op == "int" {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.Val, b.Val)
		case token.OR:
			r.Or(a.Val, b.Val)
		case token.XOR:
			r.Xor(a.Val, b.Val)
		case token.AND_NOT:
			r.AndNot(a.Val, b.Val)
		}
		return BigT(r)
	}
	if a.Op == "int" && op != token.AND_NOT {
		a, b = b, a
	}
	if b.Op == "int" && b.Val.Sign() >= 0 {
		// sums of contiguous bit runs
		runs := bitRuns(b.Val)
		masked := func() *Term {
			var ts []*Term
			for _, r := range runs {
				lo := new(big.Int).Lsh(big1, r[0])
				w := new(big.Int).Lsh(big1, r[1]-r[0])
				ts = append(ts, MulT(BigT(lo), ModT(DivT(a, BigT(lo)), BigT(w))))
			}
			return AddT(ts...)
		}
		if len(runs) <= 4 {
			switch op {
			case token.AND:
				return masked()
			case token.AND_NOT:
				return SubT(a, masked())
			case token.OR:
				return AddT(SubT(a, masked()), b)
			case token.XOR:
				return AddT(SubT(a, MulT(IntT(2), masked())), b)
			}
		}
	}
	return ex.boundedApp(st, "bit"+op.String(), t, a, b)
}

func bitRuns(v *big.Int) [][2]uint {
	var out [][2]uint
	n := v.BitLen()
	for i := 0; i < n; {
		if v.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && v.Bit(j) == 1 {
			j++
		}
		out = append(out, [2]uint{uint(i), uint(j)})
		i = j
	}
	return out
}

// ---- instructions

func (ex *Exec) step(fr *Frame, st *State, in ssa.Instruction) []outcome {
	set := func(v Value) { fr.regs[in.(ssa.Value)] = v }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		set(ex.alloc(st, t))
	case *ssa.BinOp:
		set(ex.binop(fr, st, in))
	case *ssa.UnOp:
		set(ex.unop(fr, st, in))
	case *ssa.Store:
		p := ex.get(fr, st, in.Addr).(*Ptr)
		ex.nilCheck(st, fr, p, in.Pos())
		ex.store(st, p, ex.get(fr, st, in.Val))
	case *ssa.FieldAddr:
		p := ex.get(fr, st, in.X).(*Ptr)
		ex.nilCheck(st, fr, p, in.Pos())
		set(ex.selectPtr(st, p, Sel{Field: in.Field}))
	case *ssa.Field:
		v := ex.get(fr, st, in.X)
		set(v.(*StructVal).F[in.Field])
	case *ssa.IndexAddr:
		set(ex.indexAddr(fr, st, in))
	case *ssa.Index:
		i := ex.get(fr, st, in.Index).(*Term)
		switch x := ex.get(fr, st, in.X).(type) {
		case *Term: // string
			ex.safety(st, fr, "index", in.Pos(), AndT(LeT(IntT(0), i), LtT(i, SLen(x))))
			set(SAt(x, i))
		case *ArrayVal:
			ex.safety(st, fr, "index", in.Pos(), AndT(LeT(IntT(0), i), LtT(i, IntT(x.N))))
			set(ex.arrayGet(st, x, i))
		default:
			unsup("index of %T", x)
		}
	case *ssa.Slice:
		set(ex.slice(fr, st, in))
	case *ssa.Convert:
		set(ex.convert(fr, st, ex.get(fr, st, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		set(ex.retype(ex.get(fr, st, in.X), in.Type()))
	case *ssa.ChangeInterface:
		set(ex.get(fr, st, in.X))
	case *ssa.MakeInterface:
		set(ex.makeIface(st, ex.get(fr, st, in.X), in.X.Type()))
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, in)
	case *ssa.Extract:
		set(ex.get(fr, st, in.Tuple).(TupleVal)[in.Index])
	case *ssa.MakeClosure:
		f := &FuncVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, ex.get(fr, st, b))
		}
		set(f)
	case *ssa.MakeSlice:
		n := ex.get(fr, st, in.Len).(*Term)
		c := ex.get(fr, st, in.Cap).(*Term)
		ex.safety(st, fr, "makeslice", in.Pos(), AndT(LeT(IntT(0), n), LeT(n, c)))
		set(ex.makeSlice(st, under(in.Type()).(*types.Slice).Elem(), n, c))
	case *ssa.MakeMap:
		set(ex.makeMap(st, under(in.Type()).(*types.Map)))
	case *ssa.MakeChan:
		ex.fresh++
		set(VarT(fmt.Sprintf("obj!%d", ex.fresh), SRef))
	case *ssa.MapUpdate:
		m := ex.get(fr, st, in.Map).(*Term)
		ex.safety(st, fr, "nil map", in.Pos(), NotT(EqT(m, TNull)))
		ex.mapStore(st, m, under(in.Map.Type()).(*types.Map), ex.get(fr, st, in.Key), ex.get(fr, st, in.Value))
	case *ssa.Lookup:
		set(ex.lookup(fr, st, in))
	case *ssa.Range:
		switch u := under(in.X.Type()).(type) {
		case *types.Basic:
			it := &IterVal{Str: ex.get(fr, st, in.X).(*Term)}
			p := ex.alloc(st, types.Typ[types.Int]).(*Ptr)
			it.Obj = p.Obj
			set(it)
		case *types.Map:
			it := &IterVal{Map: ex.get(fr, st, in.X).(*Term), MT: u}
			set(it)
		default:
			unsup("range over %s", in.X.Type())
		}
	case *ssa.Next:
		return ex.next(fr, st, in)
	case *ssa.Defer:
		d := &deferred{call: &in.Call}
		d.fn, d.args = ex.calleeAndArgs(fr, st, &in.Call)
		fr.defers = append(fr.defers, d)
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
	return nil
}

func (ex *Exec) alloc(st *State, t types.Type) Value {
	ex.fresh++
	id := ex.fresh
	st.objs[id] = ex.zero(t)
	st.objT[id] = t
	return &Ptr{Kind: PLocal, Obj: id, T: t}
}

func (ex *Exec) nilCheck(st *State, fr *Frame, p *Ptr, pos token.Pos) {
	if p.Kind != PRef {
		return
	}
	if isFreshRef(p.Ref) || p.Ref.Op == "app" && (strings.HasPrefix(p.Ref.Name, "sub!") || strings.HasPrefix(p.Ref.Name, "elt!")) {
		return
	}
	ex.safety(st, fr, "nil dereference", pos, NotT(EqT(p.Ref, TNull)))
}

func (ex *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	x := ex.get(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		p := x.(*Ptr)
		if p.Kind == PSlot && p.Map == "global" {
			return ex.globalLoad(st, p)
		}
		ex.nilCheck(st, fr, p, in.Pos())
		return ex.load(st, p)
	case token.NOT:
		return NotT(x.(*Term))
	case token.SUB:
		t := in.X.Type()
		if isFloat(t) {
			return ex.fltNeg(st, x.(*Term))
		}
		return ex.wrap(st, fr, NegT(x.(*Term)), t)
	case token.XOR:
		t := in.X.Type()
		lo, hi, _ := intRange(t)
		if lo.Sign() == 0 {
			return SubT(BigT(hi), x.(*Term))
		}
		return SubT(IntT(-1), x.(*Term))
	}
	unsup("unary %s", in.Op)
	return nil
}

// globalLoad: package-level variables that are never reassigned outside init
// are constants; error values and reflect.Type values are distinct roots.
func (ex *Exec) globalLoad(st *State, p *Ptr) Value {
	g := p.Idx[0].Name
	if ex.V.mutableGlobals[g] {
		return ex.loadSlots(st, "gvar!"+g, []*Term{p.Idx[0]}, p.T)
	}
	if v, ok := ex.V.constGlobals[g]; ok {
		return v(ex, st)
	}
	switch u := under(p.T).(type) {
	case *types.Interface:
		n := "glob!val!" + strings.TrimPrefix(g, "glob!")
		// a distinct non-nil value
		tag := VarRT("gtag!"+g, big1, maxInt64)
		return &IfaceVal{Typ: tag, Ref: VarT(n, SRef)}
	case *types.Pointer:
		return &Ptr{Kind: PRef, Ref: VarT("glob!val!"+strings.TrimPrefix(g, "glob!"), SRef), T: u.Elem()}
	case *types.Map:
		return VarT("glob!val!"+strings.TrimPrefix(g, "glob!"), SRef)
	}
	return ex.loadSlots(st, "gvar!"+g, []*Term{p.Idx[0]}, p.T)
}

func (ex *Exec) retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructVal:
		return &StructVal{T: t, F: x.F}
	case *Ptr:
		n := *x
		n.T = under(t).(*types.Pointer).Elem()
		return &n
	case *SliceVal:
		n := *x
		n.Elem = under(t).(*types.Slice).Elem()
		return &n
	}
	return v
}

func (ex *Exec) makeIface(st *State, v Value, t types.Type) Value {
	if iv, ok := v.(*IfaceVal); ok {
		return iv
	}
	return &IfaceVal{Typ: typeTag(t), T: t, V: v}
}

func (ex *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) Value {
	i := ex.get(fr, st, in.Index).(*Term)
	switch x := ex.get(fr, st, in.X).(type) {
	case *SliceVal:
		ex.safety(st, fr, "index", in.Pos(), AndT(LeT(IntT(0), i), LtT(i, x.Len)))
		return ex.sliceElem(st, x, i)
	case *Ptr: // pointer to array
		ex.nilCheck(st, fr, x, in.Pos())
		n := under(x.T).(*types.Array).Len()
		ex.safety(st, fr, "index", in.Pos(), AndT(LeT(IntT(0), i), LtT(i, IntT(n))))
		return ex.selectPtr(st, x, Sel{Index: i})
	}
	unsup("index address of %T", in.X)
	return nil
}

func (ex *Exec) sliceElem(st *State, s *SliceVal, i *Term) *Ptr {
	at := AddT(s.Off, i)
	if s.Local != nil {
		return ex.selectPtr(st, s.Local, Sel{Index: at})
	}
	return ex.elemPtr(s.Arr, at, s.Elem)
}

func (ex *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	lo := IntT(0)
	if in.Low != nil {
		lo = ex.get(fr, st, in.Low).(*Term)
	}
	x := ex.get(fr, st, in.X)
	switch x := x.(type) {
	case *Term: // string
		hi := SLen(x)
		if in.High != nil {
			hi = ex.get(fr, st, in.High).(*Term)
		}
		ex.safety(st, fr, "slice bounds", in.Pos(), AndT(LeT(IntT(0), lo), LeT(lo, hi), LeT(hi, SLen(x))))
		return SSub(x, lo, hi)
	case *SliceVal:
		hi := x.Len
		if in.High != nil {
			hi = ex.get(fr, st, in.High).(*Term)
		}
		max := x.Cap
		if in.Max != nil {
			max = ex.get(fr, st, in.Max).(*Term)
		}
		ex.safety(st, fr, "slice bounds", in.Pos(), AndT(LeT(IntT(0), lo), LeT(lo, hi), LeT(hi, max), LeT(max, x.Cap)))
		return &SliceVal{Local: x.Local, Arr: x.Arr, Off: AddT(x.Off, lo), Len: SubT(hi, lo), Cap: SubT(max, lo), Elem: x.Elem}
	case *Ptr: // array
		ex.nilCheck(st, fr, x, in.Pos())
		at := under(x.T).(*types.Array)
		n := IntT(at.Len())
		hi := n
		if in.High != nil {
			hi = ex.get(fr, st, in.High).(*Term)
		}
		max := n
		if in.Max != nil {
			max = ex.get(fr, st, in.Max).(*Term)
		}
		ex.safety(st, fr, "slice bounds", in.Pos(), AndT(LeT(IntT(0), lo), LeT(lo, hi), LeT(hi, max), LeT(max, n)))
		s := &SliceVal{Off: lo, Len: SubT(hi, lo), Cap: SubT(max, lo), Elem: at.Elem()}
		if x.Kind == PLocal && !st.mat[x.Obj] {
			s.Local = x
		} else {
			s.Arr = ex.asRef(st, x)
		}
		return s
	}
	unsup("slice of %T", x)
	return nil
}

func (ex *Exec) makeSlice(st *State, elem types.Type, n, c *Term) Value {
	r := ex.newRef(elem)
	s := &SliceVal{Arr: r, Off: IntT(0), Len: n, Cap: c, Elem: elem}
	if sls, ok := valueSlots(elem); ok {
		z := ex.toSlots(st, ex.zero(elem), elem)
		for i, sl := range sls {
			name := "elem:" + typeName(elem) + sl.Suffix
			ex.slotRange(name, sl)
			inner := ArrSort(SInt, sl.Sort)
			m := ex.mapVar(st, name, ArrSort(SRef, inner))
			st.heap[name] = StoT(m, r, ConstArr(inner, z[i]))
		}
		return s
	}
	if k, ok := c.i64(); ok && k <= 16 {
		for i := int64(0); i < k; i++ {
			ex.store(st, ex.elemPtr(r, IntT(i), elem), ex.zero(elem))
		}
		return s
	}
	// contents unspecified beyond zero-ness: not modelled
	return s
}

func (ex *Exec) convert(fr *Frame, st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	switch {
	case isInteger(from) && isInteger(to):
		t := v.(*Term)
		lo, hi, ok := intRange(to)
		if !ok {
			return t
		}
		if flo, fhi, ok := intRange(from); ok && !fr.spec && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return t
		}
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return t
		}
		in := AndT(LeT(BigT(lo), t), LeT(t, BigT(hi)))
		if fr.spec && lo.Sign() < 0 && hi.Cmp(maxInt64) == 0 {
			return t // int/int64 are mathematical in specifications
		}
		return ex.wrapTo(st, t, lo, hi, in)
	case isInteger(from) && isFloat(to):
		return ex.intToFlt(st, v.(*Term), to)
	case isFloat(from) && isInteger(to):
		return ex.fltToInt(st, v.(*Term), to)
	case isFloat(from) && isFloat(to):
		if fu.(*types.Basic).Kind() == tu.(*types.Basic).Kind() {
			return v
		}
		return AppT("fconv!"+typeName(tu), SFlt, v.(*Term))
	case isString(from) && isString(to):
		return v
	case isString(to) && isInteger(from):
		return AppT("srune", SStr, v.(*Term))
	case isString(to): // []byte / []rune
		s := v.(*SliceVal)
		if e, ok := under(s.Elem).(*types.Basic); ok && e.Kind() == types.Uint8 {
			return ex.bytesToStr(st, s)
		}
		return AppT("srunes", SStr, SelT(ex.mapVar(st, "elem:"+typeName(s.Elem), ArrSort(SRef, ArrSort(SInt, SInt))), ex.sliceArr(st, s)), s.Off, s.Len)
	case isString(from): // to []byte
		if sl, ok := tu.(*types.Slice); ok {
			if e, ok := under(sl.Elem()).(*types.Basic); ok && e.Kind() == types.Uint8 {
				return ex.strToBytes(st, v.(*Term), sl.Elem())
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return ex.retype(v, to)
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (ex *Exec) bytesToStr(st *State, s *SliceVal) *Term {
	if s.Local == nil {
		if lit, ok := ex.constBytes[s.Arr.ID]; ok {
			return SSub(lit, s.Off, AddT(s.Off, s.Len))
		}
		if s.Arr.Op == "ite" {
			a, b := *s, *s
			a.Arr, b.Arr = s.Arr.Args[1], s.Arr.Args[2]
			return IteT(s.Arr.Args[0], ex.bytesToStr(st, &a), ex.bytesToStr(st, &b))
		}
	}
	if s.Local != nil && !st.mat[s.Local.Obj] {
		av := ex.load(st, s.Local).(*ArrayVal)
		off, ok1 := s.Off.i64()
		n, ok2 := s.Len.i64()
		if av.Sym == nil && ok1 && ok2 {
			var bs []*Term
			for i := off; i < off+n; i++ {
				bs = append(bs, av.E[i].(*Term))
			}
			return StrList(bs)
		}
		if av.Sym != nil {
			return SFrom(av.Sym, s.Off, s.Len)
		}
		arr := ConstArr(ArrSort(SInt, SInt), IntT(0))
		for i, e := range av.E {
			arr = StoT(arr, IntT(int64(i)), e.(*Term))
		}
		return SFrom(arr, s.Off, s.Len)
	}
	name := "elem:" + typeName(s.Elem)
	ex.slotRange(name, slot{"", SInt, s.Elem, false})
	m := ex.mapVar(st, name, ArrSort(SRef, ArrSort(SInt, SInt)))
	return SFrom(SelT(m, ex.sliceArr(st, s)), s.Off, s.Len)
}

func (ex *Exec) strToBytes(st *State, s *Term, elem types.Type) Value {
	r := ex.newRef(elem)
	name := "elem:" + typeName(elem)
	ex.slotRange(name, slot{"", SInt, elem, false})
	m := ex.mapVar(st, name, ArrSort(SRef, ArrSort(SInt, SInt)))
	st.heap[name] = StoT(m, r, SArr(s))
	return &SliceVal{Arr: r, Off: IntT(0), Len: SLen(s), Cap: SLen(s), Elem: elem}
}

func (ex *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []outcome {
	iv := ex.get(fr, st, in.X).(*IfaceVal)
	to := in.AssertedType
	_, toIface := under(to).(*types.Interface)
	var cond *Term
	var val Value
	if iv.T != nil {
		if toIface {
			cond = BoolT(types.Implements(iv.T, under(to).(*types.Interface)))
			val = iv
		} else {
			cond = BoolT(types.Identical(iv.T, to))
			val = iv.V
		}
	} else if iv.Typ.Op == "int" && iv.Typ.Val.Sign() == 0 {
		cond = TFalse
	} else if toIface {
		iu := under(to).(*types.Interface)
		cond = AndT(NotT(EqT(iv.Typ, IntT(0))), AppT("implements!"+typeName(to), SBool, iv.Typ))
		_ = iu
		val = iv
	} else {
		cond = EqT(iv.Typ, typeTag(to))
		if st.known[cond.ID] {
			cond = TTrue
		}
		ref := ex.ifaceRef(st, iv)
		val = ex.unbox(st, ref, to)
	}
	if !in.CommaOk {
		ex.safety(st, fr, "type assertion", in.Pos(), cond)
		if cond == TFalse {
			val = ex.zero(to)
		}
		fr.regs[in] = val
		return nil
	}
	if cond == TTrue {
		fr.regs[in] = TupleVal{val, TTrue}
		return nil
	}
	if cond == TFalse {
		fr.regs[in] = TupleVal{ex.zero(to), TFalse}
		return nil
	}
	st2 := st.clone()
	var outs []outcome
	if fr.spec || ex.feasible(st, cond) {
		st.assumeBranch(cond)
		outs = append(outs, outcome{st, []Value{TupleVal{val, TTrue}}})
	}
	if fr.spec || ex.feasible(st2, NotT(cond)) {
		st2.assumeBranch(NotT(cond))
		outs = append(outs, outcome{st2, []Value{TupleVal{ex.zero(to), TFalse}}})
	}
	return outs
}

// ---- maps: contents are arrays domain/value per map reference

func (ex *Exec) mapNames(mt *types.Map) string { return "map:" + typeName(mt) }

func (ex *Exec) keyTerm(st *State, k Value, t types.Type) *Term {
	ts := ex.flatten(st, k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	return AppT("key!"+typeName(t), SRef, ts...)
}

func (ex *Exec) keySort(t types.Type) Sort {
	sl := ex.flatSlots(t)
	if len(sl) == 1 {
		return sl[0].Sort
	}
	return SRef
}

func (ex *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	n := ex.mapNames(mt) + ".dom"
	return SelT(ex.mapVar(st, n, ArrSort(SRef, ArrSort(ex.keySort(mt.Key()), SBool))), m)
}

func (ex *Exec) makeMap(st *State, mt *types.Map) Value {
	r := ex.newRef(mt)
	ks := ex.keySort(mt.Key())
	n := ex.mapNames(mt) + ".dom"
	m := ex.mapVar(st, n, ArrSort(SRef, ArrSort(ks, SBool)))
	st.heap[n] = StoT(m, r, ConstArr(ArrSort(ks, SBool), TFalse))
	return r
}

func (ex *Exec) mapStore(st *State, m *Term, mt *types.Map, k, v Value) {
	kt := ex.keyTerm(st, k, mt.Key())
	n := ex.mapNames(mt)
	ex.writeSlot(st, n+".dom", []*Term{m, kt}, slot{"", SBool, nil, false}, TTrue)
	ts := ex.flatten(st, v, mt.Elem())
	for i, sl := range ex.flatSlots(mt.Elem()) {
		ex.writeSlot(st, n+".val"+sl.Suffix, []*Term{m, kt}, sl, ts[i])
	}
}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Value) {
	kt := ex.keyTerm(st, k, mt.Key())
	d := SelT(ex.mapDom(st, m, mt), kt)
	_ = d
	n := ex.mapNames(mt)
	ex.writeSlot(st, n+".dom", []*Term{m, kt}, slot{"", SBool, nil, false}, TFalse)
}

func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, k Value) (Value, *Term) {
	kt := ex.keyTerm(st, k, mt.Key())
	d := SelT(ex.mapDom(st, m, mt), kt)
	d = AndT(NotT(EqT(m, TNull)), d)
	n := ex.mapNames(mt)
	var ts []*Term
	for _, sl := range ex.flatSlots(mt.Elem()) {
		ts = append(ts, ex.readSlot(st, n+".val"+sl.Suffix, []*Term{m, kt}, sl))
	}
	v, _ := ex.unflatten(st, ts, mt.Elem())
	return ex.mergeVal(st, d, v, ex.zero(mt.Elem())), d
}

func (ex *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) Value {
	if mt, ok := under(in.X.Type()).(*types.Map); ok {
		m := ex.get(fr, st, in.X).(*Term)
		v, d := ex.mapGet(st, m, mt, ex.get(fr, st, in.Index))
		if in.CommaOk {
			return TupleVal{v, d}
		}
		return v
	}
	s := ex.get(fr, st, in.X).(*Term)
	i := ex.get(fr, st, in.Index).(*Term)
	ex.safety(st, fr, "index", in.Pos(), AndT(LeT(IntT(0), i), LtT(i, SLen(s))))
	return SAt(s, i)
}

func (ex *Exec) next(fr *Frame, st *State, in *ssa.Next) []outcome {
	it := ex.get(fr, st, in.Iter).(*IterVal)
	if it.Str != nil {
		p := &Ptr{Kind: PLocal, Obj: it.Obj, T: types.Typ[types.Int]}
		pos := ex.load(st, p).(*Term)
		ok := LtT(pos, SLen(it.Str))
		r, w := ex.decodeRune(st, it.Str, pos)
		st.assume(ImpT(ok, AndT(LeT(IntT(1), w), LeT(AddT(pos, w), SLen(it.Str)))))
		ex.store(st, p, IteT(ok, AddT(pos, w), pos))
		fr.regs[in] = TupleVal{ok, IteT(ok, pos, IntT(0)), IteT(ok, r, IntT(0))}
		return nil
	}
	// map iteration: an arbitrary present key, or the end
	ex.fresh++
	ok := VarT(fmt.Sprintf("v%d!mapnext", ex.fresh), SBool)
	k := ex.freshVal(st, "mapkey", it.MT.Key())
	v, d := ex.mapGet(st, it.Map, it.MT, k)
	st.assume(ImpT(ok, d))
	fr.regs[in] = TupleVal{ok, k, v}
	return nil
}

// decodeRune gives rune and width of the UTF-8 sequence at position i of s
// (uninterpreted, with the facts every Go decoder guarantees).
func (ex *Exec) decodeRune(st *State, s, i *Term) (*Term, *Term) {
	// a position in the underlying whole string
	if s.Op == "app" && s.Name == "ssub" && s.Args[2] == SLen(s.Args[0]) {
		s, i = s.Args[0], AddT(s.Args[1], i)
	}
	if s.Op == "app" && s.Name == "sfrom" && s.Args[1] != IntT(0) {
		s, i = SFrom(s.Args[0], IntT(0), AddT(s.Args[1], s.Args[2])), AddT(s.Args[1], i)
	}
	funRanges["runeAt"] = [2]*big.Int{new(big.Int), big.NewInt(0x10FFFF)}
	funRanges["runeW"] = [2]*big.Int{new(big.Int), big.NewInt(4)}
	// position-based on the underlying whole string when s is a substring
	// reaching to the end (decoding looks at most at the rest of s).
	r := AppT("runeAt", SInt, s, i)
	w := AppT("runeW", SInt, s, i)
	b := SAt(s, i)
	in := AndT(LeT(IntT(0), i), LtT(i, SLen(s)))
	// ASCII
	st.fact(ImpT(AndT(in, LtT(b, IntT(128))), AndT(EqT(r, b), EqT(w, IntT(1)))))
	st.fact(ImpT(AndT(in, LeT(IntT(128), b)), AndT(LeT(IntT(128), r), LeT(IntT(1), w), LeT(w, IntT(4)))))
	st.fact(ImpT(in, LeT(AddT(i, w), SLen(s))))
	st.fact(ImpT(NotT(in), AndT(EqT(r, IntT(0xFFFD)), EqT(w, IntT(0)))))
	// runes outside the surrogate range
	st.fact(OrT(LtT(r, IntT(0xD800)), LtT(IntT(0xDFFF), r)))
	// width 1 non-ASCII means an encoding error
	st.fact(ImpT(AndT(in, LeT(IntT(128), b), EqT(w, IntT(1))), EqT(r, IntT(0xFFFD))))
	st.fact(ImpT(AndT(in, EqT(w, IntT(2))), AndT(LeT(IntT(0x80), r), LeT(r, IntT(0x7FF)))))
	st.fact(ImpT(AndT(in, EqT(w, IntT(3))), AndT(LeT(IntT(0x800), r), LeT(r, IntT(0xFFFF)))))
	st.fact(ImpT(AndT(in, EqT(w, IntT(4))), AndT(LeT(IntT(0x10000), r), LeT(r, IntT(0x10FFFF)))))
	return r, w
}

// ---- loops

func (v *Verifier) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	ls, ok := v.loops[fn]
	if !ok {
		ls = findLoops(fn)
		v.loops[fn] = ls
	}
	return ls[b]
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if li.body[x] {
						return
					}
					li.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range out {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		out[h].ord = i
	}
	return out
}

type candidate struct {
	name string
	eval func(fr *Frame, st *State) *Term // nil if not evaluable
	user bool
}

func (ex *Exec) enterLoop(fr *Frame, st *State, li *loopInfo, from *ssa.BasicBlock) []Exit {
	if n := ex.V.unrollFor(ex, fr); n > 0 {
		fr.loops = append(fr.loops, &loopCtx{li: li, unroll: n})
		return ex.run(fr, st, li.head, 0, from)
	}
	if fr.spec {
		unsup("loop in specification function %s", fr.fn)
	}
	// entry values of phis
	var phis []*ssa.Phi
	entry := map[*ssa.Phi]Value{}
	for _, in := range li.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range li.head.Preds {
			if p == from {
				entry[phi] = ex.get(fr, st, phi.Edges[i])
			}
		}
		phis = append(phis, phi)
	}
	mark := ex.fresh
	// --- discovery of what the loop writes
	wmaps := map[string][][]*Term{}
	wobjs := map[int]map[string][]Sel{}
	var havoc func(st *State, fr *Frame) (*State, *Frame)
	havoc = func(st0 *State, fr0 *Frame) (*State, *Frame) {
		s, f := st0.clone(), fr0.clone()
		s.clearBranches()
		for _, phi := range phis {
			hint := phi.Comment
			if hint == "" {
				hint = phi.Name()
			}
			f.regs[phi] = ex.freshVal(s, hint, phi.Type())
			// slices over the same local array keep their base
			if es, ok := entry[phi].(*SliceVal); ok && es.Local != nil {
				ns := f.regs[phi].(*SliceVal)
				f.regs[phi] = &SliceVal{Local: es.Local, Off: ns.Off, Len: ns.Len, Cap: ns.Cap, Elem: es.Elem}
			}
		}
		for _, name := range sortedKeys(wmaps) {
			ex.havocMap(s, name, wmaps[name], mark)
		}
		var ids []int
		for o := range wobjs {
			ids = append(ids, o)
		}
		sort.Ints(ids)
		for _, o := range ids {
			if _, ok := s.objs[o]; !ok {
				continue
			}
			for _, pk := range sortedKeys(wobjs[o]) {
				path := wobjs[o][pk]
				p := &Ptr{Kind: PLocal, Obj: o, T: s.objT[o]}
				for _, sl := range path {
					p = ex.selectPtr(s, p, sl)
				}
				s.objs[o] = ex.setPath(s, s.objs[o], path, ex.freshVal(s, "obj", p.T))
			}
		}
		return s, f
	}
	iterate := func(s *State, f *Frame) []Exit {
		f.loops = append(f.loops, &loopCtx{li: li, stopExit: true, unroll: -1})
		return ex.run(f, s, li.head, 0, nil)
	}
	ex.noObl++
	ex.lite++
	for round := 0; ; round++ {
		s, f := havoc(st, fr)
		rec := &writeRec{maps: map[string][][]*Term{}, objs: map[int]map[string][]Sel{}}
		ex.rec = append(ex.rec, rec)
		iterate(s, f)
		ex.rec = ex.rec[:len(ex.rec)-1]
		grew := false
		for k, v := range rec.maps {
			seen := map[string]bool{}
			for _, x := range wmaps[k] {
				seen[idxKey(x)] = true
			}
			for _, x := range v {
				if !ex.idxStable(x, mark) {
					x = nil
				}
				if !seen[idxKey(x)] {
					seen[idxKey(x)] = true
					wmaps[k] = append(wmaps[k], x)
					grew = true
				}
			}
		}
		for o, m := range rec.objs {
			if _, ok := st.objs[o]; !ok {
				continue
			}
			if wobjs[o] == nil {
				wobjs[o] = map[string][]Sel{}
			}
			for pk, p := range m {
				if _, ok := wobjs[o][pk]; !ok {
					wobjs[o][pk] = p
					grew = true
				}
			}
		}
		// objects materialised inside the loop: materialise before it
		if !grew {
			break
		}
		if round > 20 {
			unsup("loop write discovery does not converge in %s", fr.fn)
		}
	}
	ex.noObl--
	ex.lite--
	// --- candidates
	cands := ex.loopCandidates(fr, st, li, phis, entry, mark)
	bkey := fmt.Sprintf("%d/%d/%d", st.trail, ex.V.fnNum(fr.fn), li.head.Index)
	if ex.C.Join {
		bkey = fmt.Sprintf("%d/%d", ex.V.fnNum(fr.fn), li.head.Index)
	}
	known := ex.badInv[bkey]
	if known == nil {
		known = map[string]bool{}
		if ex.badInv == nil {
			ex.badInv = map[string]map[string]bool{}
		}
		ex.badInv[bkey] = known
	}
	{
		var cs []candidate
		for _, c := range cands {
			if c.user && ex.lite > 0 || known[c.name] {
				continue
			}
			cs = append(cs, c)
		}
		cands = cs
	}
	// initiation
	f0 := fr.clone()
	for _, phi := range phis {
		f0.regs[phi] = entry[phi]
	}
	var live []candidate
	var cgs []*Term
	for _, c := range cands {
		cgs = append(cgs, c.eval(f0, st))
	}
	cok := ex.proveAll(st, cgs, func(i int) bool { return cands[i].user })
	for i, c := range cands {
		g := cgs[i]
		if g == nil {
			continue
		}
		if cok[i] {
			live = append(live, c)
			continue
		}
		known[c.name] = true
		if c.user {
			ex.note("invariant %s not established at loop of %s (%s)", c.name, trimPkg(fr.fn.String()), ex.V.pos(li.head.Instrs[0].Pos()))
			if os.Getenv("GOWP_DEBUG") == "inv" {
				fmt.Printf("INIT FAIL %s: %s\n", c.name, g)
				for _, t := range st.pcTerms() {
					fmt.Println("   pc:", t)
				}
			}
		}
	}
	// preservation (Houdini)
	ex.noObl++
	for {
		s, f := havoc(st, fr)
		for _, c := range live {
			if g := c.eval(f, s); g != nil {
				s.assume(g)
			}
		}
		bad := map[int]bool{}
		for _, e := range iterate(s, f) {
			if e.kind != "back" {
				continue
			}
			fb := e.fr.clone()
			var nv []Value
			for _, phi := range phis {
				for i, p := range li.head.Preds {
					if p == e.pred {
						nv = append(nv, ex.get(e.fr, e.st, phi.Edges[i]))
					}
				}
			}
			for i, phi := range phis {
				fb.regs[phi] = nv[i]
			}
			lgs := make([]*Term, len(live))
			for i, c := range live {
				if !bad[i] {
					lgs[i] = c.eval(fb, e.st)
				}
			}
			lok := ex.proveAll(e.st, lgs, func(i int) bool { return live[i].user })
			for i, c := range live {
				if bad[i] {
					continue
				}
				g := lgs[i]
				if g == nil || !lok[i] {
					bad[i] = true
					known[c.name] = true
					if c.user {
						ex.note("invariant %s not preserved by loop of %s (%s)", c.name, trimPkg(fr.fn.String()), ex.V.pos(li.head.Instrs[0].Pos()))
						if os.Getenv("GOWP_DEBUG") == "inv" && g != nil {
							fmt.Printf("PRESERVE FAIL %s: %s\n", c.name, g)
							for _, t := range e.st.pcTerms() {
								fmt.Println("   pc:", t)
							}
						}
					}
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var next []candidate
		for i, c := range live {
			if !bad[i] {
				next = append(next, c)
			}
		}
		live = next
	}
	ex.noObl--
	for _, c := range live {
		if c.user {
			ex.V.invUsed(ex.C.Name, c.name)
		}
	}
	// --- final pass
	s, f := havoc(st, fr)
	for _, c := range live {
		if g := c.eval(f, s); g != nil {
			if c.user && os.Getenv("GOWP_DEBUG") == "inv" {
				fmt.Printf("LIVE %s (%s): %s\n", c.name, ex.V.pos(li.head.Instrs[0].Pos()), g)
			}
			s.assume(g)
		}
	}
	// termination
	if ex.noObl == 0 {
		ex.termination(fr, s, f, li, phis, iterate, havoc, live, st)
	}
	f.loops = append(f.loops, &loopCtx{li: li, unroll: -1})
	var out []Exit
	for _, e := range ex.run(f, s, li.head, 0, nil) {
		if e.kind == "back" && e.lc.li == li && e.fr.fn == fr.fn {
			continue // re-established: checked above
		}
		out = append(out, e)
	}
	return out
}

func (s *State) clearBranches() {}

func idxKey(x []*Term) string {
	if x == nil {
		return "*"
	}
	return fmt.Sprint(x[0].ID)
}

// idxStable: the written reference does not depend on anything made inside the loop.
func (ex *Exec) idxStable(x []*Term, mark int) bool {
	if x == nil {
		return false
	}
	return !mentionsAfter(x[0], mark)
}

var mentionCache = map[[2]int]bool{}

func mentionsAfter(t *Term, mark int) bool {
	k := [2]int{t.ID, mark}
	if r, ok := mentionCache[k]; ok {
		return r
	}
	r := false
	if t.Op == "var" {
		var n int
		switch {
		case strings.HasPrefix(t.Name, "v"):
			fmt.Sscanf(t.Name, "v%d!", &n)
		case strings.HasPrefix(t.Name, "H"):
			fmt.Sscanf(t.Name, "H%d!", &n)
		case strings.HasPrefix(t.Name, "obj!"):
			fmt.Sscanf(t.Name, "obj!%d", &n)
		}
		r = n > mark
	}
	if t.Op == "bvar" {
		r = true
	}
	for _, a := range t.Args {
		if r {
			break
		}
		r = mentionsAfter(a, mark)
	}
	mentionCache[k] = r
	return r
}

func (ex *Exec) havocMap(st *State, name string, idxs [][]*Term, mark int) {
	m, ok := st.heap[name]
	if !ok {
		srt, ok := ex.mapSorts[name]
		if !ok {
			unsup("havoc of unknown map %s", name)
		}
		m = ex.mapVar(st, name, srt)
	}
	all := false
	for _, x := range idxs {
		if x == nil {
			all = true
		}
	}
	ex.fresh++
	if all {
		st.heap[name] = VarT(fmt.Sprintf("H%d!%s", ex.fresh, name), m.Sort)
		return
	}
	for _, x := range idxs {
		ex.fresh++
		el := m.Sort.arrayElem()
		var fv *Term
		if el == SInt {
			r := arrRanges[name]
			fv = VarRT(fmt.Sprintf("v%d!%s", ex.fresh, name), r[0], r[1])
		} else {
			// H-prefixed so that inner arrays of machine integers keep their range
			fv = VarT(fmt.Sprintf("H%d!%s", ex.fresh, name), el)
		}
		st.heap[name] = StoT(st.heap[name], x[0], fv)
	}
}

func (ex *Exec) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	ex.notes[s] = true
}

// proveNow decides an invariant goal during the loop analysis.
func (ex *Exec) proveNow(st *State, g *Term, full bool) bool {
	if g == TTrue || st.known[g.ID] {
		return true
	}
	if g == TFalse {
		return ex.inc.check(st.pcTerms()) == "unsat"
	}
	if !hasQuant(g) && ex.inc.check(append(st.pcTerms(), NotT(g))) == "unsat" {
		return true
	}
	if !full {
		return false
	}
	r := ex.V.solve(st.pcTerms(), g, ex.V.invTimeout)
	return r.Status == "unsat"
}

// proveAll is proveNow for a list of goals, with the solvers running side by side.
func (ex *Exec) proveAll(st *State, gs []*Term, full func(i int) bool) []bool {
	ok := make([]bool, len(gs))
	var wg sync.WaitGroup
	for i, g := range gs {
		if g == nil {
			continue
		}
		if ex.proveNow(st, g, false) {
			ok[i] = true
			continue
		}
		if !full(i) || g == TFalse {
			continue
		}
		q := buildQuery(st.pcTerms(), g, true, ex.V.axs())
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ok[i] = portfolio(q, ex.V.invTimeout).Status == "unsat"
		}(i)
	}
	wg.Wait()
	return ok
}

func (ex *Exec) intPhis(phis []*ssa.Phi) []*ssa.Phi {
	var out []*ssa.Phi
	for _, p := range phis {
		if isInteger(p.Type()) {
			out = append(out, p)
		}
	}
	return out
}

func (ex *Exec) loopCandidates(fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Value, mark int) []candidate {
	var out []candidate
	ips := ex.intPhis(phis)
	// bounds against entry value and against values compared in the loop
	var bounds []ssa.Value
	seen := map[ssa.Value]bool{}
	addB := func(v ssa.Value) {
		if seen[v] || !isInteger(v.Type()) {
			return
		}
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				return
			}
			seen[v] = true
			bounds = append(bounds, v)
			return
		}
		in, ok := v.(ssa.Instruction)
		if ok && li.body[in.Block()] {
			return
		}
		if _, ok := fr.regs[v]; !ok {
			return
		}
		seen[v] = true
		bounds = append(bounds, v)
	}
	type lenOf struct{ s Value }
	var lens []Value
	for b := range li.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					addB(in.X)
					addB(in.Y)
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					a := in.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && li.body[ai.Block()] {
						continue
					}
					if v, ok := fr.regs[a]; ok {
						lens = append(lens, v)
					}
				}
			case *ssa.Slice:
				a := in.X
				if ai, ok := a.(ssa.Instruction); ok && li.body[ai.Block()] {
					continue
				}
				if v, ok := fr.regs[a]; ok {
					lens = append(lens, v)
				}
			case *ssa.Lookup:
				if v, ok := fr.regs[in.X]; ok && isString(in.X.Type()) {
					lens = append(lens, v)
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].Name() < bounds[j].Name() })
	var bts []*Term
	bseen := map[int]bool{}
	for _, b := range bounds {
		t := ex.get(fr, st, b).(*Term)
		if !bseen[t.ID] {
			bseen[t.ID] = true
			bts = append(bts, t)
		}
	}
	for _, l := range lens {
		var t *Term
		switch x := l.(type) {
		case *Term:
			if x.Sort == SStr {
				t = SLen(x)
			}
		case *SliceVal:
			t = x.Len
		}
		if t != nil && !bseen[t.ID] {
			bseen[t.ID] = true
			bts = append(bts, t)
		}
	}
	sort.Slice(bts, func(i, j int) bool { return bts[i].ID < bts[j].ID })
	val := func(f *Frame, p *ssa.Phi) *Term { t, _ := f.regs[p].(*Term); return t }
	add := func(name string, f func(fr *Frame) *Term) {
		out = append(out, candidate{name: name, eval: func(fr *Frame, st *State) *Term { return f(fr) }})
	}
	for _, p := range ips {
		p := p
		e := entry[p].(*Term)
		add(p.Name()+">=entry", func(f *Frame) *Term { return LeT(e, val(f, p)) })
		add(p.Name()+"<=entry", func(f *Frame) *Term { return LeT(val(f, p), e) })
		add(p.Name()+">=0", func(f *Frame) *Term { return LeT(IntT(0), val(f, p)) })
		add(p.Name()+">=-1", func(f *Frame) *Term { return LeT(IntT(-1), val(f, p)) })
		for _, b := range bts {
			b := b
			add(p.Name()+"<="+b.String(), func(f *Frame) *Term { return LeT(val(f, p), b) })
			add(p.Name()+"<"+b.String(), func(f *Frame) *Term { return LtT(val(f, p), b) })
		}
		for _, q := range ips {
			q := q
			if p == q {
				continue
			}
			add(p.Name()+"<="+q.Name(), func(f *Frame) *Term { return LeT(val(f, p), val(f, q)) })
		}
	}
	// nil-ness and boolean phis keep their entry value
	for _, p := range phis {
		p := p
		if isBool(p.Type()) {
			e := entry[p].(*Term)
			add(p.Name()+"=entry", func(f *Frame) *Term { return EqT(val(f, p), e) })
		}
		if sl, ok := entry[p].(*SliceVal); ok {
			_ = sl
			if sl.Local == nil {
				add(p.Name()+".same", func(f *Frame) *Term {
					s := f.regs[p].(*SliceVal)
					if s.Local != nil {
						return TFalse
					}
					return AndT(EqT(s.Arr, sl.Arr))
				})
			}
			add(p.Name()+".end", func(f *Frame) *Term {
				s := f.regs[p].(*SliceVal)
				return EqT(AddT(s.Off, s.Cap), AddT(sl.Off, sl.Cap))
			})
			add(p.Name()+".lend", func(f *Frame) *Term {
				s := f.regs[p].(*SliceVal)
				return EqT(AddT(s.Off, s.Len), AddT(sl.Off, sl.Len))
			})
			add(p.Name()+".off", func(f *Frame) *Term {
				s := f.regs[p].(*SliceVal)
				return LeT(sl.Off, s.Off)
			})
		}
	}
	out = append(out, ex.V.userInvariants(ex, fr, st, li, phis, entry)...)
	return out
}

// termination looks for an integer measure that decreases and is bounded.
func (ex *Exec) termination(fr *Frame, s *State, f *Frame, li *loopInfo, phis []*ssa.Phi, iterate func(*State, *Frame) []Exit, havoc func(*State, *Frame) (*State, *Frame), live []candidate, st0 *State) {
	if ex.C.NoTermination {
		return
	}
	s2, f2 := havoc(st0, fr)
	for _, c := range live {
		if g := c.eval(f2, s2); g != nil {
			s2.assume(g)
		}
	}
	type meas struct {
		name string
		ev   func(fr *Frame, st *State) *Term
	}
	var ms []meas
	for _, p := range ex.intPhis(phis) {
		p := p
		ms = append(ms, meas{"-" + p.Name(), func(f *Frame, st *State) *Term { return NegT(f.regs[p].(*Term)) }})
		ms = append(ms, meas{p.Name(), func(f *Frame, st *State) *Term { return f.regs[p].(*Term) }})
	}
	for _, p := range phis {
		p := p
		if _, ok := under(p.Type()).(*types.Slice); ok {
			ms = append(ms, meas{"len " + p.Name(), func(f *Frame, st *State) *Term { return f.regs[p].(*SliceVal).Len }})
		}
		if isString(p.Type()) {
			ms = append(ms, meas{"len " + p.Name(), func(f *Frame, st *State) *Term { return SLen(f.regs[p].(*Term)) }})
		}
	}
	// iterators over strings held in local objects; user measures
	ms = append(ms, func() []meas {
		var out []meas
		for _, um := range ex.V.userMeasures(ex, fr, st0, li, phis) {
			out = append(out, meas{um.name, um.eval})
		}
		return out
	}()...)
	for v, r := range fr.regs {
		if it, ok := r.(*IterVal); ok && it.Str != nil {
			if _, ok := v.(*ssa.Range); ok {
				it := it
				ms = append(ms, meas{"iter", func(f *Frame, st *State) *Term {
					return NegT(ex.load(st, &Ptr{Kind: PLocal, Obj: it.Obj, T: types.Typ[types.Int]}).(*Term))
				}})
			}
		}
		if it, ok := r.(*IterVal); ok && it.Map != nil {
			return // map iteration terminates
		}
	}
	var before []*Term
	for _, m := range ms {
		before = append(before, m.ev(f2, s2))
	}
	ex.noObl++
	exits := iterate(s2, f2)
	ex.noObl--
	var backs []Exit
	for _, e := range exits {
		if e.kind == "back" {
			backs = append(backs, e)
		}
	}
	name := fmt.Sprintf("termination:%s", trimPkg(fr.fn.Name()))
	ok := false
	for i, m := range ms {
		good := true
		for _, e := range backs {
			fb := e.fr.clone()
			var nv []Value
			for _, phi := range phis {
				for k, p := range li.head.Preds {
					if p == e.pred {
						nv = append(nv, ex.get(e.fr, e.st, phi.Edges[k]))
					}
				}
			}
			for k, phi := range phis {
				fb.regs[phi] = nv[k]
			}
			after := m.ev(fb, e.st)
			// decreases, and bounded below by a value fixed before the loop:
			// machine integers are bounded, so a strict decrease without
			// wrap-around suffices.
			if !ex.entails(e.st, LtT(after, before[i])) && !ex.proveNow(e.st, LtT(after, before[i]), true) {
				good = false
				break
			}
		}
		if good {
			ok = true
			name += ":" + m.name
			break
		}
	}
	o := &Obligation{Name: ex.C.Name + "/terminates:" + trimPkg(fr.fn.Name()), Contract: ex.C.Name, Kind: "terminates", Func: trimPkg(fr.fn.String()), Pos: ex.V.pos(li.head.Instrs[0].Pos()), Goal: BoolT(ok), OK: ok}
	if ok {
		o.Result = SolverResult{Status: "unsat", Solver: "z3-new(incremental)"}
	}
	ex.obls = append(ex.obls, o)
}
