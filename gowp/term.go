package main

// Terms of the verification logic: hash-consed, simplified on construction.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SRef  Sort = "Ref"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt" // IEEE double, uninterpreted carrier unless fpMode
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (s Sort) arrayElem() Sort {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	// (Array K V)
	body := str[7 : len(str)-1]
	// skip K
	i := skipSort(body, 0)
	return Sort(strings.TrimSpace(body[i:]))
}
func (s Sort) arrayKey() Sort {
	str := string(s)
	body := str[7 : len(str)-1]
	i := skipSort(body, 0)
	return Sort(body[:i])
}
func skipSort(b string, i int) int {
	if b[i] != '(' {
		for i < len(b) && b[i] != ' ' && b[i] != ')' {
			i++
		}
		return i
	}
	d := 0
	for ; i < len(b); i++ {
		if b[i] == '(' {
			d++
		} else if b[i] == ')' {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return i
}

// Term is immutable. Op is one of the built-in operators below or "app" /
// "var" (Name holds the symbol) / "int" / "real" / "true" / "false".
type Term struct {
	Op    string
	Name  string
	Args  []*Term
	Bound []*Term // quantifiers: bound variables
	Pats  []*Term // quantifiers: one multi-pattern
	Val   *big.Int
	Rat   *big.Rat
	Sort  Sort
	ID    int
	// freeBound: ids of bound variables occurring free, sorted.
	fb     []int
	lo, hi *big.Int // known interval (Int sort), nil = unbounded
}

type termTable struct {
	mu sync.Mutex
	m  map[string]*Term
	n  int
}

var tt = &termTable{m: map[string]*Term{}}

func mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	if t.Val != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Val.String())
	}
	if t.Rat != nil {
		sb.WriteByte('%')
		sb.WriteString(t.Rat.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range t.Bound {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range t.Pats {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	t.ID = tt.n
	// free bound vars
	set := map[int]bool{}
	if t.Op == "bvar" {
		set[t.ID] = true
	}
	for _, a := range t.Args {
		for _, b := range a.fb {
			set[b] = true
		}
	}
	for _, b := range t.Bound {
		delete(set, b.ID)
	}
	for b := range set {
		t.fb = append(t.fb, b)
	}
	sort.Ints(t.fb)
	computeRange(t)
	tt.m[k] = t
	return t
}

func (t *Term) closed() bool { return len(t.fb) == 0 }

var (
	TTrue  = mk(&Term{Op: "true", Sort: SBool})
	TFalse = mk(&Term{Op: "false", Sort: SBool})
)

func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func IntT(i int64) *Term { return BigT(big.NewInt(i)) }
func BigT(b *big.Int) *Term {
	return mk(&Term{Op: "int", Val: new(big.Int).Set(b), Sort: SInt})
}
func RatT(r *big.Rat) *Term {
	return mk(&Term{Op: "real", Rat: new(big.Rat).Set(r), Sort: SReal})
}
func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) i64() (int64, bool) {
	if t.Op == "int" && t.Val.IsInt64() {
		return t.Val.Int64(), true
	}
	return 0, false
}

func VarT(name string, s Sort) *Term { return mk(&Term{Op: "var", Name: name, Sort: s}) }

// VarRT is an integer variable with a declared range.
func VarRT(name string, lo, hi *big.Int) *Term {
	t := mk(&Term{Op: "var", Name: name, Sort: SInt})
	if t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

var bvarCount int
var bvarMu sync.Mutex

func BVar(s Sort) *Term {
	bvarMu.Lock()
	bvarCount++
	n := bvarCount
	bvarMu.Unlock()
	return mk(&Term{Op: "bvar", Name: fmt.Sprintf("q!%d", n), Sort: s})
}

// BVarAt gives a bound variable named by nesting depth, so that the same
// quantified formula built twice is the same term.
func BVarAt(depth int, s Sort) *Term {
	n := string(s)
	n = strings.NewReplacer("(", "", ")", "", " ", "_").Replace(n)
	return mk(&Term{Op: "bvar", Name: fmt.Sprintf("q%d_%s", depth, n), Sort: s})
}

var (
	funSigsMu sync.Mutex
	funSigs   = map[string]funSig{}
)

type funSig struct {
	args []Sort
	ret  Sort
}

func AppT(name string, ret Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return VarT(name, ret)
	}
	funSigsMu.Lock()
	if _, ok := funSigs[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.Sort)
		}
		funSigs[name] = funSig{as, ret}
	}
	funSigsMu.Unlock()
	return mk(&Term{Op: "app", Name: name, Args: args, Sort: ret})
}

func (t *Term) isConstLike() bool {
	return t.Op == "int" || t.Op == "true" || t.Op == "false" || t.Op == "real"
}

// ---- booleans

func NotT(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	case "<":
		if a.Args[0].Sort == SInt || a.Args[0].Sort == SReal {
			return LeT(a.Args[1], a.Args[0])
		}
	case "<=":
		return LtT(a.Args[1], a.Args[0])
	}
	return mk(&Term{Op: "not", Args: []*Term{a}, Sort: SBool})
}

func AndT(as ...*Term) *Term { return nary("and", TTrue, TFalse, as) }
func OrT(as ...*Term) *Term  { return nary("or", TFalse, TTrue, as) }

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		if seen[NotT(a).ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: op, Args: out, Sort: SBool})
}

func ImpT(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue || a == b {
		return TTrue
	}
	if b == TFalse {
		return NotT(a)
	}
	return mk(&Term{Op: "=>", Args: []*Term{a, b}, Sort: SBool})
}

func IteT(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.Op == "not" {
		return IteT(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return NotT(c)
		}
		if a == TTrue {
			return OrT(c, b)
		}
		if a == TFalse {
			return AndT(NotT(c), b)
		}
		if b == TTrue {
			return OrT(NotT(c), a)
		}
		if b == TFalse {
			return AndT(c, a)
		}
	}
	// both sides are implied by not p
	if a.Op == "=>" && NotT(a.Args[0]) == b {
		return ImpT(a.Args[0], AndT(c, a.Args[1]))
	}
	if b.Op == "=>" && NotT(b.Args[0]) == a {
		return ImpT(b.Args[0], AndT(NotT(c), b.Args[1]))
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
		return IteT(c, a, b)
	}
	if a.Op == "ite" && a.Args[0] == c {
		return IteT(c, a.Args[1], b)
	}
	return mk(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

func EqT(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("EqT: sorts %s vs %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.Op == "int" && b.Op == "int" {
		return BoolT(a.Val.Cmp(b.Val) == 0)
	}
	if a.Op == "real" && b.Op == "real" {
		return BoolT(a.Rat.Cmp(b.Rat) == 0)
	}
	if a.Sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return NotT(b)
		}
		if b == TFalse {
			return NotT(a)
		}
	}
	if a.Sort == SInt {
		if disjointRange(a, b) {
			return TFalse
		}
		// cancel constants: x + c1 = c2
		ka, ca := splitConst(a)
		kb, cb := splitConst(b)
		if ka == kb && ka != nil {
			return BoolT(ca.Cmp(cb) == 0)
		}
		if kb == nil && ca.Sign() != 0 && ka != nil {
			return EqT(ka, BigT(new(big.Int).Sub(cb, ca)))
		}
		if ka == nil && cb.Sign() != 0 && kb != nil {
			return EqT(kb, BigT(new(big.Int).Sub(ca, cb)))
		}
	}
	if a.Sort == SRef || a.Sort == SStr {
		if refDistinct(a, b) {
			return TFalse
		}
	}
	if a.Op == "ite" && (b.isConstLike() || b.Op == "strlit" || isFreshRef(b) || b == TNull) {
		return IteT(a.Args[0], EqT(a.Args[1], b), EqT(a.Args[2], b))
	}
	if b.Op == "ite" && (a.isConstLike() || a.Op == "strlit" || isFreshRef(a) || a == TNull) {
		return IteT(b.Args[0], EqT(a, b.Args[1]), EqT(a, b.Args[2]))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

var TNull = VarT("null", SRef)

// fresh references are named obj!N; globals glob!name; all distinct.
func isFreshRef(t *Term) bool {
	return t.Op == "var" && t.Sort == SRef && (strings.HasPrefix(t.Name, "obj!") || strings.HasPrefix(t.Name, "glob!") || strings.HasPrefix(t.Name, "fun!"))
}
func refDistinct(a, b *Term) bool {
	if a.Sort == SStr {
		return a.Op == "strlit" && b.Op == "strlit" && a != b
	}
	ca := isFreshRef(a) || a == TNull
	cb := isFreshRef(b) || b == TNull
	if ca && cb {
		return a != b
	}
	// an object allocated during this call is distinct from anything that
	// existed on entry
	if strings.HasPrefix(a.Name, "obj!") && a.Op == "var" && isEntryRef(b) {
		return true
	}
	if strings.HasPrefix(b.Name, "obj!") && b.Op == "var" && isEntryRef(a) {
		return true
	}
	if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.Name, "sub!") && strings.HasPrefix(b.Name, "sub!") && a.Name != b.Name {
		return true
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "sub!") && (b == TNull || isFreshRef(b)) {
		return true
	}
	if b.Op == "app" && strings.HasPrefix(b.Name, "sub!") && (a == TNull || isFreshRef(a)) {
		return true
	}
	return false
}

// isEntryRef: a reference that certainly existed at entry (parameter or a load
// from an unmodified entry heap).
func isEntryRef(t *Term) bool {
	switch t.Op {
	case "var":
		return strings.HasPrefix(t.Name, "in!") || strings.HasPrefix(t.Name, "glob!")
	case "select":
		a := t.Args[0]
		for a.Op == "select" {
			a = a.Args[0]
		}
		for _, i := range selIdx(t) {
			if i.Sort == SRef && !isEntryRef(i) {
				return false
			}
		}
		return a.Op == "var" && strings.HasPrefix(a.Name, "H0!")
	case "app":
		return strings.HasPrefix(t.Name, "sub!") && isEntryRef(t.Args[0])
	}
	return false
}

func selIdx(t *Term) []*Term {
	var out []*Term
	for t.Op == "select" {
		out = append(out, t.Args[1])
		t = t.Args[0]
	}
	return out
}

// ---- integers

func splitConst(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.Val
	}
	if t.Op == "+" {
		last := t.Args[len(t.Args)-1]
		if last.Op == "int" {
			rest := t.Args[:len(t.Args)-1]
			if len(rest) == 1 {
				return rest[0], last.Val
			}
			return mk(&Term{Op: "+", Args: rest, Sort: SInt}), last.Val
		}
	}
	return t, new(big.Int)
}

// linear form helpers
type lin struct {
	c  *big.Int
	ts map[int]*Term
	cs map[int]*big.Int
}

func newLin() *lin { return &lin{new(big.Int), map[int]*Term{}, map[int]*big.Int{}} }
func (l *lin) addT(t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Val))
	case t.Op == "+":
		for _, a := range t.Args {
			l.addT(a, k)
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].Op == "int":
		l.addT(t.Args[1], new(big.Int).Mul(k, t.Args[0].Val))
	default:
		if c, ok := l.cs[t.ID]; ok {
			c.Add(c, k)
			if c.Sign() == 0 {
				delete(l.cs, t.ID)
				delete(l.ts, t.ID)
			}
		} else {
			l.cs[t.ID] = new(big.Int).Set(k)
			l.ts[t.ID] = t
		}
	}
}
func (l *lin) term() *Term {
	var ids []int
	for id := range l.cs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var as []*Term
	for _, id := range ids {
		c := l.cs[id]
		if c.IsInt64() && c.Int64() == 1 {
			as = append(as, l.ts[id])
		} else {
			as = append(as, mk(&Term{Op: "*", Args: []*Term{BigT(c), l.ts[id]}, Sort: SInt}))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, BigT(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(&Term{Op: "+", Args: as, Sort: SInt})
}

var big1 = big.NewInt(1)

func AddT(as ...*Term) *Term {
	l := newLin()
	for _, a := range as {
		l.addT(a, big1)
	}
	return l.term()
}
func SubT(a, b *Term) *Term {
	l := newLin()
	l.addT(a, big1)
	l.addT(b, big.NewInt(-1))
	return l.term()
}
func NegT(a *Term) *Term { return SubT(IntT(0), a) }
func MulT(a, b *Term) *Term {
	if a.Op == "int" || b.Op == "int" {
		if a.Op != "int" {
			a, b = b, a
		}
		l := newLin()
		l.addT(b, a.Val)
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

// DivT, ModT: SMT-LIB (Euclidean) division by a non-zero divisor.
func DivT(a, b *Term) *Term {
	if b.Op == "int" && b.Val.Sign() > 0 {
		if a.Op == "int" {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.Val, b.Val, m)
			return BigT(q)
		}
		if b.Val.Cmp(big1) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.Val) < 0 {
			return IntT(0)
		}
		// (k*b*x + c) / b
		if q, ok := divExact(a, b.Val); ok {
			return q
		}
		// (x div m) div n = x div (m*n)
		if a.Op == "div" && a.Args[1].Op == "int" && a.Args[1].Val.Sign() > 0 {
			return DivT(a.Args[0], BigT(new(big.Int).Mul(a.Args[1].Val, b.Val)))
		}
	}
	return mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
}

// divExact pulls the multiples of d out of a: (d*q + r) div d = q + r div d.
func divExact(a *Term, d *big.Int) (*Term, bool) {
	l := newLin()
	l.addT(a, big1)
	out := newLin()
	rest := newLin()
	some := false
	for id, c := range l.cs {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(c, d, m)
		if m.Sign() == 0 {
			out.cs[id], out.ts[id] = q, l.ts[id]
			some = true
		} else {
			rest.cs[id], rest.ts[id] = c, l.ts[id]
		}
	}
	q, m := new(big.Int), new(big.Int)
	q.DivMod(l.c, d, m)
	if q.Sign() != 0 {
		some = true
	}
	if !some {
		return nil, false
	}
	out.c = q
	rest.c = m
	return AddT(out.term(), DivT(rest.term(), BigT(d))), true
}

// expandMod writes x mod k as x - k*(x div k), so that sums of digits cancel.
func expandMod(t *Term) *Term {
	memo := map[int]*Term{}
	n := 0
	var has func(t *Term)
	seen := map[int]bool{}
	has = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "mod" && t.Args[1].Op == "int" {
			n++
		}
		for _, a := range t.Args {
			has(a)
		}
	}
	has(t)
	if n < 2 {
		return t
	}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if len(t.Args) == 0 || t.Op == "forall" || t.Op == "slist" {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = walk(a)
			ch = ch || as[i] != a
		}
		r := t
		if t.Op == "mod" && as[1].Op == "int" && as[1].Val.Sign() > 0 {
			r = SubT(as[0], MulT(as[1], DivT(as[0], as[1])))
		} else if ch {
			r = rebuild(t, as)
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

func ModT(a, b *Term) *Term {
	if b.Op == "int" && b.Val.Sign() > 0 {
		if a.Op == "int" {
			m := new(big.Int)
			new(big.Int).DivMod(a.Val, b.Val, m)
			return BigT(m)
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.Val) < 0 {
			return a
		}
		// drop multiples of b
		l := newLin()
		l.addT(a, big1)
		changed := false
		for id, c := range l.cs {
			m := new(big.Int)
			new(big.Int).DivMod(c, b.Val, m)
			if m.Cmp(c) != 0 && m.Sign() == 0 {
				changed = true
				delete(l.cs, id)
				delete(l.ts, id)
			}
		}
		m := new(big.Int)
		new(big.Int).DivMod(l.c, b.Val, m)
		if m.Cmp(l.c) != 0 {
			l.c = m
			changed = true
		}
		if changed {
			return ModT(l.term(), b)
		}
	}
	return mk(&Term{Op: "mod", Args: []*Term{a, b}, Sort: SInt})
}

func disjointRange(a, b *Term) bool {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	if b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
		return true
	}
	return false
}

func LeT(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort == SInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
			return TTrue
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
			return TFalse
		}
		d := SubT(b, a)
		if d.Op == "int" {
			return BoolT(d.Val.Sign() >= 0)
		}
		if d.lo != nil && d.lo.Sign() >= 0 {
			return TTrue
		}
		if d.hi != nil && d.hi.Sign() < 0 {
			return TFalse
		}
		ka, ca := splitConst(a)
		kb, cb := splitConst(b)
		if ka == nil && kb != nil && cb.Sign() != 0 {
			return LeT(BigT(new(big.Int).Sub(ca, cb)), kb)
		}
		if kb == nil && ka != nil && ca.Sign() != 0 {
			return LeT(ka, BigT(new(big.Int).Sub(cb, ca)))
		}
	}
	if a.Op == "real" && b.Op == "real" {
		return BoolT(a.Rat.Cmp(b.Rat) <= 0)
	}
	return mk(&Term{Op: "<=", Args: []*Term{a, b}, Sort: SBool})
}
func LtT(a, b *Term) *Term {
	if a.Sort == SInt {
		return LeT(AddT(a, IntT(1)), b)
	}
	if a == b {
		return TFalse
	}
	if a.Op == "real" && b.Op == "real" {
		return BoolT(a.Rat.Cmp(b.Rat) < 0)
	}
	return mk(&Term{Op: "<", Args: []*Term{a, b}, Sort: SBool})
}

// ---- reals

func RAdd(a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" {
		return RatT(new(big.Rat).Add(a.Rat, b.Rat))
	}
	return mk(&Term{Op: "r+", Args: []*Term{a, b}, Sort: SReal})
}
func RSub(a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" {
		return RatT(new(big.Rat).Sub(a.Rat, b.Rat))
	}
	return mk(&Term{Op: "r-", Args: []*Term{a, b}, Sort: SReal})
}
func RMul(a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" {
		return RatT(new(big.Rat).Mul(a.Rat, b.Rat))
	}
	return mk(&Term{Op: "r*", Args: []*Term{a, b}, Sort: SReal})
}
func RDiv(a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" && b.Rat.Sign() != 0 {
		return RatT(new(big.Rat).Quo(a.Rat, b.Rat))
	}
	return mk(&Term{Op: "r/", Args: []*Term{a, b}, Sort: SReal})
}
func ToReal(a *Term) *Term {
	if a.Op == "int" {
		return RatT(new(big.Rat).SetInt(a.Val))
	}
	return mk(&Term{Op: "to_real", Args: []*Term{a}, Sort: SReal})
}
func ToIntFloor(a *Term) *Term {
	if a.Op == "real" {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Rat.Num(), a.Rat.Denom(), m)
		return BigT(q)
	}
	if a.Op == "to_real" {
		return a.Args[0]
	}
	return mk(&Term{Op: "to_int", Args: []*Term{a}, Sort: SInt})
}

// ---- arrays

func SelT(a, i *Term) *Term {
	for a.Op == "store" {
		j := a.Args[1]
		if j == i {
			return a.Args[2]
		}
		if EqT(i, j) == TFalse {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "app" && a.Name == "sarr" {
		return SAt(a.Args[0], i)
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") && i.closed() {
		return IteT(a.Args[0], SelT(a.Args[1], i), SelT(a.Args[2], i))
	}
	es := a.Sort.arrayElem()
	return mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: es})
}
func StoT(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}
func ConstArr(s Sort, v *Term) *Term { return mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s}) }

// ---- quantifiers

func ForallT(bound []*Term, pats []*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	var used []*Term
	for _, b := range bound {
		for _, id := range body.fb {
			if id == b.ID {
				used = append(used, b)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(&Term{Op: "forall", Bound: used, Pats: pats, Args: []*Term{body}, Sort: SBool})
}
func ExistsT(bound []*Term, body *Term) *Term {
	return NotT(ForallT(bound, nil, NotT(body)))
}

// ---- intervals

func computeRange(t *Term) {
	if t.Sort != SInt {
		return
	}
	switch t.Op {
	case "int":
		t.lo, t.hi = t.Val, t.Val
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.Args {
			if lo != nil && a.lo != nil {
				lo.Add(lo, a.lo)
			} else {
				lo = nil
			}
			if hi != nil && a.hi != nil {
				hi.Add(hi, a.hi)
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	case "*":
		a, b := t.Args[0], t.Args[1]
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			var lo, hi *big.Int
			for _, x := range []*big.Int{a.lo, a.hi} {
				for _, y := range []*big.Int{b.lo, b.hi} {
					p := new(big.Int).Mul(x, y)
					if lo == nil || p.Cmp(lo) < 0 {
						lo = p
					}
					if hi == nil || p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
			t.lo, t.hi = lo, hi
		} else if a.Op == "int" && a.Val.Sign() > 0 {
			if b.lo != nil {
				t.lo = new(big.Int).Mul(a.Val, b.lo)
			}
			if b.hi != nil {
				t.hi = new(big.Int).Mul(a.Val, b.hi)
			}
		} else if a.Op == "int" && a.Val.Sign() < 0 {
			if b.hi != nil {
				t.lo = new(big.Int).Mul(a.Val, b.hi)
			}
			if b.lo != nil {
				t.hi = new(big.Int).Mul(a.Val, b.lo)
			}
		}
	case "div":
		a, b := t.Args[0], t.Args[1]
		if b.Op == "int" && b.Val.Sign() > 0 {
			if a.lo != nil {
				t.lo = new(big.Int).Div(a.lo, b.Val)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, b.Val)
			}
		}
	case "mod":
		b := t.Args[1]
		if b.Op == "int" && b.Val.Sign() > 0 {
			t.lo = new(big.Int)
			t.hi = new(big.Int).Sub(b.Val, big1)
			a := t.Args[0]
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
				t.hi = a.hi
			}
		}
	case "ite":
		a, b := t.Args[1], t.Args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	case "app":
		switch t.Name {
		case "slen":
			t.lo = new(big.Int)
			t.hi = maxInt64
		case "sat":
			t.lo = new(big.Int)
			t.hi = big.NewInt(255)
		}
		if r, ok := funRanges[t.Name]; ok {
			t.lo, t.hi = r[0], r[1]
		}
	case "select":
		if r, ok := arrRanges[arrBase(t.Args[0])]; ok {
			t.lo, t.hi = r[0], r[1]
		}
	}
}

var funRanges = map[string][2]*big.Int{}

// arrRanges: base name of heap maps (without version) -> value range. All heap
// maps that hold machine integers are range-restricted: havoced versions carry
// the same restriction (it is asserted for every store by construction).
var arrRanges = map[string][2]*big.Int{}

func arrBase(a *Term) string {
	for {
		switch a.Op {
		case "store":
			a = a.Args[0]
			continue
		case "select":
			a = a.Args[0]
			continue
		case "ite":
			a = a.Args[1]
			continue
		case "var":
			n := a.Name
			if i := strings.LastIndexByte(n, '@'); i >= 0 {
				n = n[:i]
			}
			if j := strings.IndexByte(n, '!'); j >= 0 {
				n = n[j+1:]
			}
			return n
		}
		return ""
	}
}

var maxInt64 = new(big.Int).SetUint64(1<<63 - 1)

// ---- printing

func (t *Term) String() string { return termString(t, 0) }

func termString(t *Term, d int) string {
	if d > 40 {
		return "..."
	}
	switch t.Op {
	case "var", "bvar":
		return t.Name
	case "int":
		return t.Val.String()
	case "real":
		return t.Rat.RatString()
	case "true", "false":
		return t.Op
	case "strlit":
		return strconv.Quote(t.Name)
	case "forall":
		var bs []string
		for _, b := range t.Bound {
			bs = append(bs, b.Name)
		}
		return "(forall " + strings.Join(bs, " ") + " :: " + termString(t.Args[0], d+1) + ")"
	}
	n := t.Op
	if t.Op == "app" {
		n = t.Name
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, termString(a, d+1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// substitute bound variables (by id) in t.
func subst(t *Term, m map[int]*Term) *Term {
	if len(t.fb) == 0 {
		return t
	}
	hit := false
	for _, b := range t.fb {
		if _, ok := m[b]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.Op == "bvar" {
		return m[t.ID]
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = subst(a, m)
	}
	return rebuild(t, as)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "not":
		return NotT(as[0])
	case "and":
		return AndT(as...)
	case "or":
		return OrT(as...)
	case "=>":
		return ImpT(as[0], as[1])
	case "ite":
		return IteT(as[0], as[1], as[2])
	case "=":
		return EqT(as[0], as[1])
	case "+":
		return AddT(as...)
	case "*":
		return MulT(as[0], as[1])
	case "div":
		return DivT(as[0], as[1])
	case "mod":
		return ModT(as[0], as[1])
	case "<=":
		return LeT(as[0], as[1])
	case "<":
		return LtT(as[0], as[1])
	case "select":
		return SelT(as[0], as[1])
	case "store":
		return StoT(as[0], as[1], as[2])
	case "app":
		return mkStrApp(t.Name, t.Sort, as)
	case "r+":
		return RAdd(as[0], as[1])
	case "r-":
		return RSub(as[0], as[1])
	case "r*":
		return RMul(as[0], as[1])
	case "r/":
		return RDiv(as[0], as[1])
	case "to_real":
		return ToReal(as[0])
	case "to_int":
		return ToIntFloor(as[0])
	case "forall":
		return mk(&Term{Op: "forall", Bound: t.Bound, Pats: nil, Args: as, Sort: SBool})
	}
	switch t.Op {
	case "scat":
		return SCat(as...)
	case "slist":
		return StrList(as)
	}
	return mk(&Term{Op: t.Op, Name: t.Name, Args: as, Sort: t.Sort, Val: t.Val, Rat: t.Rat})
}
