package main

// Symbolic values, memory layout and state.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// scalars (ints, bools, floats, strings, maps, chans) are *Term.

type PtrKind int

const (
	PRef   PtrKind = iota // Ref names the whole object (struct, array or cell)
	PLocal                // object known on this path only
	PSlot                 // scalar slot of a heap object: Map[Idx...]
)

// Ptr is a pointer value; T is the pointee type.
type Ptr struct {
	Kind PtrKind
	Ref  *Term
	Obj  int
	Path []Sel
	Map  string // slot map base name
	Idx  []*Term
	T    types.Type
}

type Sel struct {
	Field int
	Index *Term // element index if not nil
}

type SliceVal struct {
	Local *Ptr  // backing array is a local object (array)
	Arr   *Term // else heap array
	Off   *Term
	Len   *Term
	Cap   *Term
	Elem  types.Type
}

type StructVal struct {
	T types.Type
	F []Value
}

type ArrayVal struct {
	Elem types.Type
	E    []Value // explicit
	Sym  *Term   // or symbolic contents (scalar single-slot element)
	N    int64
}

type IfaceVal struct {
	Typ *Term      // type tag
	T   types.Type // static dynamic type if known
	V   Value      // payload if T known
	Ref *Term      // payload reference otherwise
}

type FuncVal struct {
	Fn   *ssa.Function
	Bind []Value
	Ref  *Term // unknown function value
	Bi   string
}

type TupleVal []Value

type IterVal struct {
	Str *Term
	Map *Term
	MT  *types.Map
	Obj int // local object holding the position
}

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := uint(64), true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	case types.UntypedInt:
		return nil, nil, false
	}
	if signed {
		hi = new(big.Int).Lsh(big1, bits-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big1)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Lsh(big1, bits)
		hi.Sub(hi, big1)
	}
	return lo, hi, true
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// scalarSort: the sort of a one-slot type.
func scalarSort(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsFloat != 0:
			return SFlt, true
		case u.Kind() == types.UnsafePointer:
			return SRef, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef, true
	}
	return "", false
}

var typeNameCache = map[types.Type]string{}
var tnRe = regexp.MustCompile(`\b(byte|rune|any)\b`)

func typeName(t types.Type) string {
	if s, ok := typeNameCache[t]; ok {
		return s
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = tnRe.ReplaceAllStringFunc(s, func(x string) string {
		switch x {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	typeNameCache[t] = s
	return s
}

// typeTag numbers dynamic types.
var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	n := typeName(t)
	if k, ok := typeTags[n]; ok {
		return IntT(k)
	}
	k := int64(len(typeTags) + 1)
	typeTags[n] = k
	tagTypes[k] = t
	return IntT(k)
}

// ---- state

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
	br   bool // branch condition
	g    bool // valid in every state (fact about terms)
}

type State struct {
	heap  map[string]*Term
	objs  map[int]Value
	mat   map[int]bool // materialised local objects
	objT  map[int]types.Type
	pc    *pcNode
	known map[int]bool // ids of assumed terms (shared prefix copied)
	ghost map[string]Value
	trail uint64 // hash of the branches and calls taken
}

func newState() *State {
	return &State{heap: map[string]*Term{}, objs: map[int]Value{}, mat: map[int]bool{}, objT: map[int]types.Type{}, known: map[int]bool{}, ghost: map[string]Value{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), objs: make(map[int]Value, len(s.objs)), mat: make(map[int]bool, len(s.mat)), objT: s.objT, pc: s.pc, known: make(map[int]bool, len(s.known)), ghost: make(map[string]Value, len(s.ghost)), trail: s.trail}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.mat {
		n.mat[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	nt := make(map[int]types.Type, len(s.objT))
	for k, v := range s.objT {
		nt[k] = v
	}
	n.objT = nt
	return n
}

func (s *State) assume(t *Term) {
	if t == TTrue || s.known[t.ID] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if !t.closed() {
		return // facts about terms under a binder are dropped
	}
	s.known[t.ID] = true
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t: t, prev: s.pc, n: n}
}

// fact records a formula that holds unconditionally.
func (s *State) fact(t *Term) {
	n := s.pc
	s.assume(t)
	for x := s.pc; x != n; x = x.prev {
		x.g = true
	}
}

func (s *State) pcTerms() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// slot describes one scalar component of a value of some type.
type slot struct {
	Suffix string
	Sort   Sort
	T      types.Type // go type for integer ranges (nil otherwise)
	IsLen  bool
}

// scalarSlots for non-aggregate types (scalar, slice, interface).
func valueSlots(t types.Type) ([]slot, bool) {
	if s, ok := scalarSort(t); ok {
		return []slot{{"", s, t, false}}, true
	}
	switch under(t).(type) {
	case *types.Slice:
		return []slot{{".arr", SRef, nil, false}, {".off", SInt, nil, true}, {".len", SInt, nil, true}, {".cap", SInt, nil, true}}, true
	case *types.Interface:
		return []slot{{".typ", SInt, nil, true}, {".val", SRef, nil, false}}, true
	}
	return nil, false
}

func (ex *Exec) mapVar(st *State, name string, s Sort) *Term {
	for _, r := range ex.readRec {
		r[name] = s
	}
	if ex.mapSorts == nil {
		ex.mapSorts = map[string]Sort{}
	}
	ex.mapSorts[name] = s
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := VarT("H0!"+name, s)
	st.heap[name] = t
	return t
}

// heapSorts remembers the sort of each map (needed for havoc).
func (ex *Exec) slotRange(name string, sl slot) {
	if _, ok := arrRanges[name]; ok {
		return
	}
	if sl.Sort != SInt {
		return
	}
	if sl.IsLen {
		arrRanges[name] = [2]*big.Int{new(big.Int), maxInt64}
		return
	}
	if sl.T != nil {
		if lo, hi, ok := intRange(sl.T); ok {
			arrRanges[name] = [2]*big.Int{lo, hi}
		}
	}
}

func (ex *Exec) readSlot(st *State, name string, idx []*Term, sl slot) *Term {
	ex.slotRange(name, sl)
	s := sl.Sort
	for i := len(idx) - 1; i >= 0; i-- {
		s = ArrSort(idx[i].Sort, s)
	}
	m := ex.mapVar(st, name, s)
	for _, i := range idx {
		m = SelT(m, i)
	}
	return m
}

func (ex *Exec) writeSlot(st *State, name string, idx []*Term, sl slot, v *Term) {
	ex.slotRange(name, sl)
	s := sl.Sort
	for i := len(idx) - 1; i >= 0; i-- {
		s = ArrSort(idx[i].Sort, s)
	}
	m := ex.mapVar(st, name, s)
	if v.Sort != sl.Sort {
		panic(fmt.Sprintf("writeSlot %s: sort %s, value %s", name, sl.Sort, v))
	}
	ex.noteWrite(name, idx)
	if len(idx) == 1 {
		st.heap[name] = StoT(m, idx[0], v)
		return
	}
	st.heap[name] = StoT(m, idx[0], StoT(SelT(m, idx[0]), idx[1], v))
}

// fieldKey: map name of field f of struct type t.
func structName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	if a, ok := t.(*types.Alias); ok {
		return structName(types.Unalias(a))
	}
	return typeName(t)
}

// loadRef loads a value of type t stored at heap reference r.
func (ex *Exec) loadRef(st *State, r *Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.loadField(st, r, t, i))
		}
		return sv
	case *types.Array:
		return ex.loadArray(st, r, u)
	}
	return ex.loadSlots(st, "cell:"+typeName(t), []*Term{r}, t)
}

func (ex *Exec) loadArray(st *State, r *Term, u *types.Array) Value {
	av := &ArrayVal{Elem: u.Elem(), N: u.Len()}
	if sl, ok := valueSlots(u.Elem()); ok && len(sl) == 1 {
		name := "elem:" + typeName(u.Elem())
		ex.slotRange(name, sl[0])
		m := ex.mapVar(st, name, ArrSort(SRef, ArrSort(SInt, sl[0].Sort)))
		if u.Len() > 64 {
			av.Sym = SelT(m, r)
			return av
		}
	}
	if u.Len() > 64 {
		unsup("load of array of %d %s", u.Len(), u.Elem())
	}
	for i := int64(0); i < u.Len(); i++ {
		av.E = append(av.E, ex.load(st, ex.elemPtr(r, IntT(i), u.Elem())))
	}
	return av
}

func (ex *Exec) loadField(st *State, r *Term, t types.Type, i int) Value {
	return ex.load(st, ex.fieldPtr(r, t, i))
}

// fieldPtr is the address of field i of the struct t at r.
func (ex *Exec) fieldPtr(r *Term, t types.Type, i int) *Ptr {
	u := under(t).(*types.Struct)
	f := u.Field(i)
	name := structName(t) + "." + f.Name()
	switch under(f.Type()).(type) {
	case *types.Struct, *types.Array:
		return &Ptr{Kind: PRef, Ref: AppT("sub!"+name, SRef, r), T: f.Type()}
	}
	return &Ptr{Kind: PSlot, Map: name, Idx: []*Term{r}, T: f.Type()}
}

func (ex *Exec) elemPtr(arr, i *Term, elem types.Type) *Ptr {
	switch under(elem).(type) {
	case *types.Struct, *types.Array:
		return &Ptr{Kind: PRef, Ref: AppT("elt!"+typeName(elem), SRef, arr, i), T: elem}
	}
	return &Ptr{Kind: PSlot, Map: "elem:" + typeName(elem), Idx: []*Term{arr, i}, T: elem}
}

func (ex *Exec) loadSlots(st *State, name string, idx []*Term, t types.Type) Value {
	if len(idx) == 2 {
		if lit, ok := ex.constBytes[idx[0].ID]; ok {
			return SAt(lit, idx[1])
		}
	}
	sls, ok := valueSlots(t)
	if !ok {
		unsup("load of %s", t)
	}
	var ts []*Term
	for _, sl := range sls {
		ts = append(ts, ex.readSlot(st, name+sl.Suffix, idx, sl))
	}
	return ex.fromSlots(st, ts, t)
}

func (ex *Exec) fromSlots(st *State, ts []*Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Slice:
		sv := &SliceVal{Arr: ts[0], Off: ts[1], Len: ts[2], Cap: ts[3], Elem: u.Elem()}
		st.fact(LeT(sv.Len, sv.Cap))
		st.fact(LeT(AddT(sv.Off, sv.Cap), BigT(maxInt64)))
		st.fact(ImpT(EqT(sv.Arr, TNull), EqT(sv.Cap, IntT(0))))
		return sv
	case *types.Interface:
		return ex.ifaceOf(ts[0], ts[1])
	case *types.Pointer:
		if ts[0].Op == "var" {
			if p, ok := ex.localOf(st, ts[0], u.Elem()); ok {
				return p
			}
		}
		return &Ptr{Kind: PRef, Ref: ts[0], T: u.Elem()}
	case *types.Signature:
		return ex.funcOf(ts[0])
	}
	return ts[0]
}

func (ex *Exec) localOf(st *State, t *Term, elem types.Type) (*Ptr, bool) {
	return nil, false
}

func (ex *Exec) ifaceOf(typ, ref *Term) *IfaceVal {
	iv := &IfaceVal{Typ: typ, Ref: ref}
	return iv
}

var funByRef = map[string]*FuncVal{}

func (ex *Exec) funcOf(r *Term) Value {
	if r.Op == "var" {
		if f, ok := funByRef[r.Name]; ok {
			return f
		}
	}
	return &FuncVal{Ref: r}
}

// toSlots flattens a non-aggregate value.
func (ex *Exec) toSlots(st *State, v Value, t types.Type) []*Term {
	switch under(t).(type) {
	case *types.Slice:
		sv := v.(*SliceVal)
		return []*Term{ex.sliceArr(st, sv), sv.Off, sv.Len, sv.Cap}
	case *types.Interface:
		iv := v.(*IfaceVal)
		return []*Term{iv.Typ, ex.ifaceRef(st, iv)}
	case *types.Pointer:
		return []*Term{ex.asRef(st, v.(*Ptr))}
	case *types.Signature:
		return []*Term{ex.funcRef(v.(*FuncVal))}
	}
	return []*Term{v.(*Term)}
}

func (ex *Exec) funcRef(f *FuncVal) *Term {
	if f.Ref != nil {
		return f.Ref
	}
	if f.Fn == nil {
		return TNull
	}
	n := "fun!" + f.Fn.String()
	if len(f.Bind) > 0 {
		ex.fresh++
		n += fmt.Sprintf("#%d", ex.fresh)
	}
	funByRef[n] = f
	return VarT(n, SRef)
}

// sliceArr gives the heap reference of the backing array, materialising it.
func (ex *Exec) sliceArr(st *State, s *SliceVal) *Term {
	if s.Local == nil {
		return s.Arr
	}
	return ex.asRef(st, s.Local)
}

func (ex *Exec) ifaceRef(st *State, iv *IfaceVal) *Term {
	if iv.T == nil {
		return iv.Ref
	}
	if iv.Ref != nil {
		return iv.Ref
	}
	switch under(iv.T).(type) {
	case *types.Pointer:
		return ex.asRef(st, iv.V.(*Ptr))
	case *types.Map, *types.Chan:
		return iv.V.(*Term)
	case *types.Signature:
		return ex.funcRef(iv.V.(*FuncVal))
	}
	ts := ex.flatten(st, iv.V, iv.T)
	n := typeName(iv.T)
	if len(ts) == 0 {
		return VarT("glob!empty!"+n, SRef)
	}
	b := AppT("box!"+n, SRef, ts...)
	for i, x := range ts {
		st.fact(EqT(AppT(fmt.Sprintf("unbox%d!%s", i, n), x.Sort, b), x))
	}
	st.fact(NotT(EqT(b, TNull)))
	return b
}

// unbox rebuilds a non-pointer value of type t boxed at r.
func (ex *Exec) unbox(st *State, r *Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		return &Ptr{Kind: PRef, Ref: r, T: u.Elem()}
	case *types.Map, *types.Chan:
		return r
	case *types.Signature:
		return ex.funcOf(r)
	}
	n := typeName(t)
	sls := ex.flatSlots(t)
	var ts []*Term
	for i, sl := range sls {
		fn := fmt.Sprintf("unbox%d!%s", i, n)
		if sl.Sort == SInt {
			if sl.IsLen {
				funRanges[fn] = [2]*big.Int{new(big.Int), maxInt64}
			} else if lo, hi, ok := intRange(sl.T); ok {
				funRanges[fn] = [2]*big.Int{lo, hi}
			}
		}
		ts = append(ts, AppT(fn, sl.Sort, r))
	}
	v, _ := ex.unflatten(st, ts, t)
	return v
}

// flatten lists the scalar components of a value, structs and arrays inlined.
func (ex *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Struct:
		var out []*Term
		for i, f := range v.(*StructVal).F {
			out = append(out, ex.flatten(st, f, u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		av := v.(*ArrayVal)
		if av.Sym != nil {
			return []*Term{av.Sym}
		}
		var out []*Term
		for _, e := range av.E {
			out = append(out, ex.flatten(st, e, u.Elem())...)
		}
		return out
	}
	return ex.toSlots(st, v, t)
}

func (ex *Exec) flatSlots(t types.Type) []slot {
	switch u := under(t).(type) {
	case *types.Struct:
		var out []slot
		for i := 0; i < u.NumFields(); i++ {
			for _, s := range ex.flatSlots(u.Field(i).Type()) {
				s.Suffix = "." + u.Field(i).Name() + s.Suffix
				out = append(out, s)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			sl, ok := valueSlots(u.Elem())
			if !ok || len(sl) != 1 {
				unsup("flatten %s", t)
			}
			return []slot{{"[]", ArrSort(SInt, sl[0].Sort), nil, false}}
		}
		var out []slot
		for i := int64(0); i < u.Len(); i++ {
			for _, s := range ex.flatSlots(u.Elem()) {
				s.Suffix = fmt.Sprintf("[%d]%s", i, s.Suffix)
				out = append(out, s)
			}
		}
		return out
	}
	s, ok := valueSlots(t)
	if !ok {
		unsup("flatten %s", t)
	}
	return s
}

func (ex *Exec) unflatten(st *State, ts []*Term, t types.Type) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = ex.unflatten(st, ts, u.Field(i).Type())
			sv.F = append(sv.F, v)
		}
		return sv, ts
	case *types.Array:
		av := &ArrayVal{Elem: u.Elem(), N: u.Len()}
		if u.Len() > 64 {
			av.Sym = ts[0]
			return av, ts[1:]
		}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = ex.unflatten(st, ts, u.Elem())
			av.E = append(av.E, v)
		}
		return av, ts
	}
	sl, _ := valueSlots(t)
	return ex.fromSlots(st, ts[:len(sl)], t), ts[len(sl):]
}

func (ex *Exec) newRef(t types.Type) *Term {
	ex.fresh++
	return VarT(fmt.Sprintf("obj!%d", ex.fresh), SRef)
}

// asRef turns a pointer into a reference term, moving a local object to the heap.
func (ex *Exec) asRef(st *State, p *Ptr) *Term {
	switch p.Kind {
	case PRef:
		return p.Ref
	case PLocal:
		ex.materialise(st, p.Obj)
		q := ex.localAsHeap(p, st)
		if q.Kind == PRef {
			return q.Ref
		}
		p = q
	}
	// interior pointer to a scalar slot: distinct location name
	unsup("interior pointer to scalar %s used as a value", p.Map)
	return nil
}

func (ex *Exec) localAsHeap(p *Ptr, st *State) *Ptr {
	r := VarT(fmt.Sprintf("obj!%d", p.Obj), SRef)
	t := st.objT[p.Obj]
	cur := &Ptr{Kind: PRef, Ref: r, T: t}
	for _, s := range p.Path {
		cur = ex.selectPtr(st, cur, s)
	}
	return cur
}

func (ex *Exec) selectPtr(st *State, p *Ptr, s Sel) *Ptr {
	if p.Kind == PLocal {
		if st.mat[p.Obj] {
			return ex.selectPtr(st, ex.localAsHeap(p, st), s)
		}
		q := &Ptr{Kind: PLocal, Obj: p.Obj, Path: append(append([]Sel{}, p.Path...), s)}
		if s.Index != nil {
			q.T = under(p.T).(*types.Array).Elem()
		} else {
			q.T = under(p.T).(*types.Struct).Field(s.Field).Type()
		}
		return q
	}
	if p.Kind != PRef {
		unsup("selection through slot pointer")
	}
	if s.Index != nil {
		return ex.elemPtr(p.Ref, s.Index, under(p.T).(*types.Array).Elem())
	}
	return ex.fieldPtr(p.Ref, p.T, s.Field)
}

func (ex *Exec) materialise(st *State, obj int) {
	if st.mat[obj] {
		return
	}
	st.mat[obj] = true
	v := st.objs[obj]
	r := VarT(fmt.Sprintf("obj!%d", obj), SRef)
	ex.quiet++
	ex.storeRef(st, r, st.objT[obj], v)
	ex.quiet--
	switch typeName(st.objT[obj]) { // a text buffer starts empty
	case "strings.Builder":
		ex.setGText(st, "$out", r, TEmpty)
	case "bytes.Buffer":
		ex.setGText(st, "$buf", r, TEmpty)
	}
	delete(st.objs, obj)
}

// ---- load and store through pointers

func (ex *Exec) load(st *State, p *Ptr) Value {
	switch p.Kind {
	case PLocal:
		if st.mat[p.Obj] {
			return ex.load(st, ex.localAsHeap(p, st))
		}
		v, ok := st.objs[p.Obj]
		if !ok {
			panic(fmt.Sprintf("no object %d", p.Obj))
		}
		for _, s := range p.Path {
			v = ex.selValue(st, v, s)
		}
		return v
	case PRef:
		return ex.loadRef(st, p.Ref, p.T)
	}
	return ex.loadSlots(st, p.Map, p.Idx, p.T)
}

func (ex *Exec) selValue(st *State, v Value, s Sel) Value {
	if s.Index == nil {
		return v.(*StructVal).F[s.Field]
	}
	av := v.(*ArrayVal)
	return ex.arrayGet(st, av, s.Index)
}

func (ex *Exec) arrayGet(st *State, av *ArrayVal, i *Term) Value {
	if av.Sym != nil {
		return SelT(av.Sym, i)
	}
	if k, ok := i.i64(); ok && k >= 0 && k < int64(len(av.E)) {
		return av.E[k]
	}
	if len(av.E) == 0 {
		unsup("index into empty array")
	}
	r := av.E[len(av.E)-1]
	for k := len(av.E) - 2; k >= 0; k-- {
		r = ex.mergeVal(st, EqT(i, IntT(int64(k))), av.E[k], r)
	}
	return r
}

func (ex *Exec) arraySet(st *State, av *ArrayVal, i *Term, v Value) *ArrayVal {
	if av.Sym != nil {
		return &ArrayVal{Elem: av.Elem, N: av.N, Sym: StoT(av.Sym, i, v.(*Term))}
	}
	n := &ArrayVal{Elem: av.Elem, N: av.N, E: append([]Value{}, av.E...)}
	if k, ok := i.i64(); ok && k >= 0 && k < int64(len(av.E)) {
		n.E[k] = v
		return n
	}
	for k := range n.E {
		n.E[k] = ex.mergeVal(st, EqT(i, IntT(int64(k))), v, n.E[k])
	}
	return n
}

func (ex *Exec) store(st *State, p *Ptr, v Value) {
	switch p.Kind {
	case PLocal:
		if st.mat[p.Obj] {
			ex.store(st, ex.localAsHeap(p, st), v)
			return
		}
		ex.noteObjWrite(p)
		st.objs[p.Obj] = ex.setPath(st, st.objs[p.Obj], p.Path, v)
		return
	case PRef:
		ex.storeRef(st, p.Ref, p.T, v)
		return
	}
	ex.storeSlots(st, p.Map, p.Idx, p.T, v)
}

func (ex *Exec) setPath(st *State, cur Value, path []Sel, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.Index == nil {
		sv := cur.(*StructVal)
		n := &StructVal{T: sv.T, F: append([]Value{}, sv.F...)}
		n.F[s.Field] = ex.setPath(st, sv.F[s.Field], path[1:], v)
		return n
	}
	av := cur.(*ArrayVal)
	if len(path) == 1 {
		return ex.arraySet(st, av, s.Index, v)
	}
	old := ex.arrayGet(st, av, s.Index)
	return ex.arraySet(st, av, s.Index, ex.setPath(st, old, path[1:], v))
}

func (ex *Exec) storeSlots(st *State, name string, idx []*Term, t types.Type, v Value) {
	sls, ok := valueSlots(t)
	if !ok {
		unsup("store of %s", t)
	}
	ts := ex.toSlots(st, v, t)
	for i, sl := range sls {
		ex.writeSlot(st, name+sl.Suffix, idx, sl, ts[i])
	}
}

func (ex *Exec) storeRef(st *State, r *Term, t types.Type, v Value) {
	switch u := under(t).(type) {
	case *types.Struct:
		sv, ok := v.(*StructVal)
		if !ok {
			panic(fmt.Sprintf("storeRef %s: %T", t, v))
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ex.store(st, ex.fieldPtr(r, t, i), sv.F[i])
		}
		return
	case *types.Array:
		av := v.(*ArrayVal)
		if sl, ok := valueSlots(u.Elem()); ok && len(sl) == 1 {
			name := "elem:" + typeName(u.Elem())
			ex.slotRange(name, sl[0])
			inner := ArrSort(SInt, sl[0].Sort)
			m := ex.mapVar(st, name, ArrSort(SRef, inner))
			var c *Term
			if av.Sym != nil {
				c = av.Sym
			} else {
				c = SelT(m, r)
				for k, e := range av.E {
					c = StoT(c, IntT(int64(k)), ex.toSlots(st, e, u.Elem())[0])
				}
			}
			ex.noteWrite(name, []*Term{r})
			st.heap[name] = StoT(m, r, c)
			return
		}
		for k, e := range av.E {
			ex.store(st, ex.elemPtr(r, IntT(int64(k)), u.Elem()), e)
		}
		return
	}
	ex.storeSlots(st, "cell:"+typeName(t), []*Term{r}, t, v)
}

// ---- zero and symbolic values

func (ex *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := &ArrayVal{Elem: u.Elem(), N: u.Len()}
		if u.Len() > 64 {
			sl, ok := valueSlots(u.Elem())
			if !ok || len(sl) != 1 {
				unsup("large array of %s", u.Elem())
			}
			av.Sym = ConstArr(ArrSort(SInt, sl[0].Sort), ex.zero(u.Elem()).(*Term))
			return av
		}
		for i := int64(0); i < u.Len(); i++ {
			av.E = append(av.E, ex.zero(u.Elem()))
		}
		return av
	case *types.Slice:
		return &SliceVal{Arr: TNull, Off: IntT(0), Len: IntT(0), Cap: IntT(0), Elem: u.Elem()}
	case *types.Interface:
		return &IfaceVal{Typ: IntT(0), Ref: TNull}
	case *types.Pointer:
		return &Ptr{Kind: PRef, Ref: TNull, T: u.Elem()}
	case *types.Signature:
		return &FuncVal{Ref: TNull}
	case *types.Map, *types.Chan:
		return TNull
	case *types.Tuple:
		var tv TupleVal
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(u.At(i).Type()))
		}
		return tv
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("zero of %s", t)
	}
	return zeroTerm(s)
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return IntT(0)
	case SBool:
		return TFalse
	case SStr:
		return TEmpty
	case SRef:
		return TNull
	case SFlt:
		return FltConst(new(big.Rat))
	}
	panic("zeroTerm " + string(s))
}

// FltConst is the double with the given exact value.
func FltConst(r *big.Rat) *Term {
	f, _ := r.Float64()
	rr := new(big.Rat)
	rr.SetFloat64(f)
	return mk(&Term{Op: "app", Name: "fconst", Args: []*Term{RatT(rr)}, Sort: SFlt})
}

// symbolic makes an arbitrary value of type t named name.
func (ex *Exec) symbolic(st *State, name string, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.symbolic(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := &ArrayVal{Elem: u.Elem(), N: u.Len()}
		if sl, ok := valueSlots(u.Elem()); ok && len(sl) == 1 && u.Len() > 64 {
			ex.slotRange(name+".elems", sl[0])
			av.Sym = VarT(name+".elems", ArrSort(SInt, sl[0].Sort))
			return av
		}
		for i := int64(0); i < u.Len(); i++ {
			av.E = append(av.E, ex.symbolic(st, fmt.Sprintf("%s.%d", name, i), u.Elem()))
		}
		return av
	case *types.Tuple:
		var tv TupleVal
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.symbolic(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	sls, ok := valueSlots(t)
	if !ok {
		unsup("symbolic %s", t)
	}
	var ts []*Term
	for _, sl := range sls {
		n := name + sl.Suffix
		if sl.Sort == SInt {
			if sl.IsLen {
				ts = append(ts, VarRT(n, new(big.Int), maxInt64))
				continue
			}
			lo, hi, _ := intRange(sl.T)
			ts = append(ts, VarRT(n, lo, hi))
			continue
		}
		ts = append(ts, VarT(n, sl.Sort))
	}
	return ex.fromSlots(st, ts, t)
}

func (ex *Exec) freshVal(st *State, hint string, t types.Type) Value {
	ex.fresh++
	return ex.symbolic(st, fmt.Sprintf("v%d!%s", ex.fresh, hint), t)
}

// ---- merging and equality

func (ex *Exec) mergeVal(st *State, c *Term, a, b Value) Value {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		return IteT(c, x, b.(*Term))
	case *StructVal:
		y := b.(*StructVal)
		n := &StructVal{T: x.T}
		for i := range x.F {
			n.F = append(n.F, ex.mergeVal(st, c, x.F[i], y.F[i]))
		}
		return n
	case *ArrayVal:
		y := b.(*ArrayVal)
		n := &ArrayVal{Elem: x.Elem, N: x.N}
		if x.Sym != nil && y.Sym != nil {
			n.Sym = IteT(c, x.Sym, y.Sym)
			return n
		}
		for i := range x.E {
			n.E = append(n.E, ex.mergeVal(st, c, x.E[i], y.E[i]))
		}
		return n
	case *SliceVal:
		y := b.(*SliceVal)
		if x.Local != nil && y.Local != nil && samePtr(x.Local, y.Local) {
			return &SliceVal{Local: x.Local, Off: IteT(c, x.Off, y.Off), Len: IteT(c, x.Len, y.Len), Cap: IteT(c, x.Cap, y.Cap), Elem: x.Elem}
		}
		return &SliceVal{Arr: IteT(c, ex.sliceArr(st, x), ex.sliceArr(st, y)), Off: IteT(c, x.Off, y.Off), Len: IteT(c, x.Len, y.Len), Cap: IteT(c, x.Cap, y.Cap), Elem: x.Elem}
	case *Ptr:
		y := b.(*Ptr)
		if samePtr(x, y) {
			return x
		}
		return &Ptr{Kind: PRef, Ref: IteT(c, ex.asRef(st, x), ex.asRef(st, y)), T: x.T}
	case *IfaceVal:
		y := b.(*IfaceVal)
		if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			return &IfaceVal{Typ: x.Typ, T: x.T, V: ex.mergeVal(st, c, x.V, y.V)}
		}
		return &IfaceVal{Typ: IteT(c, x.Typ, y.Typ), Ref: IteT(c, ex.ifaceRef(st, x), ex.ifaceRef(st, y))}
	case TupleVal:
		y := b.(TupleVal)
		var n TupleVal
		for i := range x {
			n = append(n, ex.mergeVal(st, c, x[i], y[i]))
		}
		return n
	case *FuncVal:
		y := b.(*FuncVal)
		if x.Fn == y.Fn && len(x.Bind) == 0 {
			return x
		}
		return &FuncVal{Ref: IteT(c, ex.funcRef(x), ex.funcRef(y))}
	case nil:
		return nil
	}
	unsup("merge of %T", a)
	return nil
}

func samePtr(a, b *Ptr) bool {
	if a.Kind != b.Kind || a.Ref != b.Ref || a.Obj != b.Obj || a.Map != b.Map || len(a.Path) != len(b.Path) || len(a.Idx) != len(b.Idx) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	for i := range a.Idx {
		if a.Idx[i] != b.Idx[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) ptrRefTerm(st *State, p *Ptr) *Term {
	switch p.Kind {
	case PRef:
		return p.Ref
	case PLocal:
		q := ex.localAsHeap(p, st)
		if q.Kind == PRef {
			return q.Ref
		}
		p = q
	}
	return AppT("slotaddr!"+p.Map, SRef, p.Idx...)
}

func (ex *Exec) eqVal(st *State, a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.Sort == SStr {
			return SEq(x, y)
		}
		if x.Sort == SFlt {
			return ex.fltCmp(st, "==", x, y)
		}
		return EqT(x, y)
	case *Ptr:
		y := b.(*Ptr)
		if samePtr(x, y) {
			return TTrue
		}
		if x.Kind == PSlot && y.Kind == PRef && y.Ref == TNull || y.Kind == PSlot && x.Kind == PRef && x.Ref == TNull {
			return TFalse
		}
		return EqT(ex.ptrRefTerm(st, x), ex.ptrRefTerm(st, y))
	case *StructVal:
		y := b.(*StructVal)
		u := under(x.T).(*types.Struct)
		var cs []*Term
		for i := range x.F {
			if u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, ex.eqVal(st, x.F[i], y.F[i], u.Field(i).Type()))
		}
		return AndT(cs...)
	case *ArrayVal:
		y := b.(*ArrayVal)
		if x.Sym != nil {
			return EqT(x.Sym, y.Sym)
		}
		var cs []*Term
		for i := range x.E {
			cs = append(cs, ex.eqVal(st, x.E[i], y.E[i], x.Elem))
		}
		return AndT(cs...)
	case *SliceVal: // only nil comparison is legal Go
		y := b.(*SliceVal)
		if y.Arr == TNull && y.Local == nil {
			return ex.isNilSlice(x)
		}
		if x.Arr == TNull && x.Local == nil {
			return ex.isNilSlice(y)
		}
		// spec use: same backing
		return AndT(EqT(ex.sliceArr(st, x), ex.sliceArr(st, y)), EqT(x.Off, y.Off), EqT(x.Len, y.Len), EqT(x.Cap, y.Cap))
	case *IfaceVal:
		y := b.(*IfaceVal)
		if y.Typ.Op == "int" && y.Typ.Val.Sign() == 0 {
			return EqT(x.Typ, IntT(0))
		}
		if x.Typ.Op == "int" && x.Typ.Val.Sign() == 0 {
			return EqT(y.Typ, IntT(0))
		}
		if x.T != nil && y.T != nil {
			if !types.Identical(x.T, y.T) {
				return TFalse
			}
			return ex.eqVal(st, x.V, y.V, x.T)
		}
		return AndT(EqT(x.Typ, y.Typ), EqT(ex.ifaceRef(st, x), ex.ifaceRef(st, y)))
	case *FuncVal:
		y := b.(*FuncVal)
		return EqT(ex.funcRef(x), ex.funcRef(y))
	}
	unsup("comparison of %T", a)
	return nil
}

func (ex *Exec) isNilSlice(s *SliceVal) *Term {
	if s.Local != nil {
		return TFalse
	}
	return EqT(s.Arr, TNull)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trimPkg(s string) string {
	return strings.NewReplacer("github.com/Eyevinn/dash-mpd/", "").Replace(s)
}
