package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type smtPrinter struct {
	out     *strings.Builder
	decl    map[string]bool
	names   map[int]string
	facts   map[int]bool
	refs    map[int]int // reference counts (one-shot mode); nil = name everything
	pend    []string    // range facts to assert
	lits    []*Term
	streqs  []*Term
	syms    map[string]bool
	heapArr map[string]*Term
	sorts   map[Sort]bool
	quant   bool
}

func newPrinter() *smtPrinter {
	return &smtPrinter{out: &strings.Builder{}, decl: map[string]bool{}, names: map[int]string{}, facts: map[int]bool{}, syms: map[string]bool{}, heapArr: map[string]*Term{}, sorts: map[Sort]bool{}}
}

func q(n string) string {
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' && i > 0 || c == '_' || c == '!' || c == '.' && i > 0 || c == '@' && i > 0) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "_"), "\\", "_") + "|"
		}
	}
	return n
}

func intLit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}
func ratLit(r *big.Rat) string {
	n, d := r.Num(), r.Denom()
	s := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big1) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (p *smtPrinter) declare(name string, args []Sort, ret Sort) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", q(name), strings.Join(as, " "), ret)
}

func (p *smtPrinter) term(t *Term) string {
	if n, ok := p.names[t.ID]; ok {
		return n
	}
	var s string
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return intLit(t.Val)
	case "real":
		return ratLit(t.Rat)
	case "bvar":
		return q(t.Name)
	case "var":
		p.declare(t.Name, nil, t.Sort)
		s = q(t.Name)
		p.fact(t, s)
		if strings.HasPrefix(string(t.Sort), "(Array Ref") {
			p.heapArr[t.Name] = t
		}
		return s
	case "strlit":
		n := "str!" + fmt.Sprint(t.ID)
		if !p.decl[n] {
			p.declare(n, nil, SStr)
			p.lits = append(p.lits, t)
			p.declare("slen", []Sort{SStr}, SInt)
			p.declare("sat", []Sort{SStr, SInt}, SInt)
			fmt.Fprintf(p.out, "(assert (= (slen %s) %d)) ; %q\n", q(n), len(t.Name), t.Name)
			for i := 0; i < len(t.Name) && i < 80; i++ {
				fmt.Fprintf(p.out, "(assert (= (sat %s %d) %d))\n", q(n), i, t.Name[i])
			}
		}
		return q(n)
	case "slist":
		// a constant (or Skolem function under binders is not supported)
		n := "slist!" + fmt.Sprint(t.ID)
		if !p.decl[n] && t.closed() {
			var es []string
			for _, a := range t.Args {
				es = append(es, p.term(a))
			}
			p.declare(n, nil, SStr)
			p.declare("slen", []Sort{SStr}, SInt)
			p.declare("sat", []Sort{SStr, SInt}, SInt)
			fmt.Fprintf(p.out, "(assert (= (slen %s) %d))\n", q(n), len(t.Args))
			for i, e := range es {
				fmt.Fprintf(p.out, "(assert (= (sat %s %d) %s))\n", q(n), i, e)
			}
			return q(n)
		}
		if t.closed() {
			return q(n)
		}
		// under a binder: use a function of the bytes
		fn := fmt.Sprintf("slist_%d", len(t.Args))
		var es []string
		var as []Sort
		for _, a := range t.Args {
			es = append(es, p.term(a))
			as = append(as, SInt)
		}
		if !p.decl[fn] {
			p.declare(fn, as, SStr)
			p.declare("slen", []Sort{SStr}, SInt)
			p.declare("sat", []Sort{SStr, SInt}, SInt)
			var vs, ns []string
			for i := range as {
				vs = append(vs, fmt.Sprintf("(x%d Int)", i))
				ns = append(ns, fmt.Sprintf("x%d", i))
			}
			app := "(" + fn + " " + strings.Join(ns, " ") + ")"
			body := fmt.Sprintf("(= (slen %s) %d)", app, len(as))
			for i := range as {
				body += fmt.Sprintf(" (= (sat %s %d) x%d)", app, i, i)
			}
			fmt.Fprintf(p.out, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(vs, " "), body, app)
		}
		return "(" + fn + " " + strings.Join(es, " ") + ")"
	case "forall":
		p.quant = true
		var bs []string
		for _, b := range t.Bound {
			bs = append(bs, "("+q(b.Name)+" "+string(b.Sort)+")")
		}
		body := p.term(t.Args[0])
		if len(t.Pats) > 0 {
			var ps []string
			for _, x := range t.Pats {
				ps = append(ps, p.term(x))
			}
			s = "(forall (" + strings.Join(bs, " ") + ") (! " + body + " :pattern (" + strings.Join(ps, " ") + ")))"
		} else {
			s = "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
		}
	default:
		var as []string
		for _, a := range t.Args {
			as = append(as, p.term(a))
		}
		op := t.Op
		switch op {
		case "app":
			op = q(t.Name)
			var ss []Sort
			for _, a := range t.Args {
				ss = append(ss, a.Sort)
			}
			p.declare(t.Name, ss, t.Sort)
			p.syms[t.Name] = true
		case "r+", "r-", "r*", "r/":
			op = op[1:]
		case "scat":
			p.declare("scat", []Sort{SStr, SStr}, SStr)
			p.syms["scat"] = true
			s = as[len(as)-1]
			for i := len(as) - 2; i >= 0; i-- {
				s = "(scat " + as[i] + " " + s + ")"
			}
		case "constarr":
			op = "(as const " + string(t.Sort) + ")"
		case "=":
			if t.Args[0].Sort == SStr && t.closed() {
				p.streqs = append(p.streqs, t)
			}
		}
		if s == "" {
			s = "(" + op + " " + strings.Join(as, " ") + ")"
		}
	}
	if t.closed() && (p.refs == nil || p.refs[t.ID] > 1) && len(s) > 24 {
		n := fmt.Sprintf("t!%d", t.ID)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		p.names[t.ID] = n
		s = n
	}
	if t.closed() {
		p.fact(t, s)
	}
	return s
}

func (p *smtPrinter) fact(t *Term, s string) {
	if t.Sort != SInt || p.facts[t.ID] {
		return
	}
	switch t.Op {
	case "var", "app", "select":
	default:
		return
	}
	p.facts[t.ID] = true
	if t.lo != nil {
		fmt.Fprintf(p.out, "(assert (<= %s %s))\n", intLit(t.lo), s)
	}
	if t.hi != nil {
		fmt.Fprintf(p.out, "(assert (<= %s %s))\n", s, intLit(t.hi))
	}
}

func (p *smtPrinter) assert(t *Term) {
	s := p.term(t)
	p.flushEqs()
	fmt.Fprintf(p.out, "(assert %s)\n", s)
}

// flushEqs emits extensionality instances for the string equalities printed.
func (p *smtPrinter) flushEqs() {
	for len(p.streqs) > 0 {
		es := p.streqs
		p.streqs = nil
		for _, e := range es {
			k := -e.ID
			if p.facts[k] {
				continue
			}
			p.facts[k] = true
			a, b := p.term(e.Args[0]), p.term(e.Args[1])
			p.declare("slen", []Sort{SStr}, SInt)
			p.declare("sat", []Sort{SStr, SInt}, SInt)
			p.declare("sdiff", []Sort{SStr, SStr}, SInt)
			fmt.Fprintf(p.out, "(assert (or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 (sdiff %s %s)) (< (sdiff %s %s) (slen %s)) (not (= (sat %s (sdiff %s %s)) (sat %s (sdiff %s %s)))))))\n",
				a, b, a, b, a, b, a, b, a, a, a, b, b, a, b)
		}
	}
}

func countRefs(ts []*Term) map[int]int {
	r := map[int]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		r[t.ID]++
		if r[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Pats {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

const preamble = "(declare-sort Ref 0)\n(declare-sort Str 0)\n(declare-sort Flt 0)\n"

// Axiom is a named global axiom, included when all its trigger symbols occur.
type Axiom struct {
	Name string
	Need []string // symbols
	F    *Term    // closed quantified formula
	Raw  string
	Decl [][3]string
}

// buildQuery prints assumptions and the negated goal (nil goal: just satisfiability).
func buildQuery(assume []*Term, goal *Term, full bool, axs []*Axiom) string {
	p := newPrinter()
	all := append([]*Term{}, assume...)
	var ng *Term
	if goal != nil {
		ng = NotT(goal)
		all = append(all, ng)
	}
	for i, t := range all {
		all[i] = normQuant(t)
	}
	p.refs = countRefs(all)
	for _, t := range all {
		p.assert(t)
	}
	if full {
		p.axioms(axs)
	}
	return preamble + p.out.String()
}

func (p *smtPrinter) has(names ...string) bool {
	for _, n := range names {
		if !p.decl[n] {
			return false
		}
	}
	return true
}

func (p *smtPrinter) axioms(axs []*Axiom) {
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range axs {
			if done[a.Name] {
				continue
			}
			ok := true
			for _, n := range a.Need {
				if !p.decl[n] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			done[a.Name] = true
			changed = true
			if a.F != nil {
				p.assert(a.F)
			} else {
				for _, d := range a.Decl {
					if !p.decl[d[0]] {
						p.decl[d[0]] = true
						fmt.Fprintf(p.out, "(declare-fun %s %s %s)\n", q(d[0]), d[1], d[2])
					}
				}
				fmt.Fprintf(p.out, "; axiom %s\n(assert %s)\n", a.Name, a.Raw)
			}
		}
		// sub-object references: injective, non-null, distinct by field
		var subs []string
		for n := range p.decl {
			if strings.HasPrefix(n, "sub!") || strings.HasPrefix(n, "elt!") {
				subs = append(subs, n)
			}
		}
		sort.Strings(subs)
		for i, n := range subs {
			k := "subax " + n
			if done[k] {
				continue
			}
			done[k] = true
			changed = true
			p.declare("subkind", []Sort{SRef}, SInt)
			p.declare("null", nil, SRef)
			if strings.HasPrefix(n, "sub!") {
				inv := "inv!" + n
				p.declare(inv, []Sort{SRef}, SRef)
				fmt.Fprintf(p.out, "(assert (forall ((r Ref)) (! (and (= (%s (%s r)) r) (= (subkind (%s r)) %d) (not (= (%s r) null))) :pattern ((%s r)))))\n", q(inv), q(n), q(n), subKindOf(n), q(n), q(n))
			} else {
				inv, inv2 := "inv!"+n, "idx!"+n
				p.declare(inv, []Sort{SRef}, SRef)
				p.declare(inv2, []Sort{SRef}, SInt)
				fmt.Fprintf(p.out, "(assert (forall ((r Ref) (i Int)) (! (and (= (%s (%s r i)) r) (= (%s (%s r i)) i) (= (subkind (%s r i)) %d) (not (= (%s r i) null))) :pattern ((%s r i)))))\n", q(inv), q(n), q(inv2), q(n), q(n), subKindOf(n), q(n), q(n))
			}
			_ = i
		}
		// fresh objects and globals are pairwise distinct roots
		var roots []string
		for n := range p.decl {
			if strings.HasPrefix(n, "obj!") || strings.HasPrefix(n, "glob!") || strings.HasPrefix(n, "fun!") || n == "null" {
				roots = append(roots, n)
			}
		}
		sort.Strings(roots)
		k := "roots " + strings.Join(roots, ",")
		if !done[k] {
			done[k] = true
			if len(roots) > 1 {
				var qs []string
				for _, r := range roots {
					qs = append(qs, q(r))
				}
				fmt.Fprintf(p.out, "(assert (distinct %s))\n", strings.Join(qs, " "))
			}
			if p.decl["subkind"] {
				for _, r := range roots {
					fmt.Fprintf(p.out, "(assert (= (subkind %s) 0))\n", q(r))
				}
			}
		}
		// ranges of heap arrays
		var hs []string
		for n := range p.heapArr {
			hs = append(hs, n)
		}
		sort.Strings(hs)
		for _, n := range hs {
			k := "range " + n
			if done[k] {
				continue
			}
			done[k] = true
			t := p.heapArr[n]
			p.entryRefs(n, t.Sort, roots)
			if r, ok := arrRanges[arrBase(t)]; ok {
				el := t.Sort.arrayElem()
				var sel, vs string
				if el == SInt {
					vs = "(r Ref)"
					sel = "(select " + q(n) + " r)"
				} else if strings.HasPrefix(string(el), "(Array Int Int") {
					vs = "(r Ref) (i Int)"
					sel = "(select (select " + q(n) + " r) i)"
				} else {
					continue
				}
				var c []string
				if r[0] != nil {
					c = append(c, fmt.Sprintf("(<= %s %s)", intLit(r[0]), sel))
				}
				if r[1] != nil {
					c = append(c, fmt.Sprintf("(<= %s %s)", sel, intLit(r[1])))
				}
				fmt.Fprintf(p.out, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", vs, strings.Join(c, " "), sel)
			}
		}
	}
}

// entryRefs: what the heap holds on entry was not made during the call.
func (p *smtPrinter) entryRefs(n string, srt Sort, roots []string) {
	var objs []string
	for _, r := range roots {
		if strings.HasPrefix(r, "obj!") {
			objs = append(objs, r)
		}
	}
	if !strings.HasPrefix(n, "H0!") || len(objs) == 0 {
		return
	}
	var vs, sel string
	switch srt {
	case ArrSort(SRef, SRef):
		vs, sel = "(r Ref)", "(select "+q(n)+" r)"
	case ArrSort(SRef, ArrSort(SInt, SRef)):
		vs, sel = "(r Ref) (i Int)", "(select (select "+q(n)+" r) i)"
	default:
		return
	}
	if !p.decl["young"] {
		p.declare("young", []Sort{SRef}, SBool)
		for _, o := range objs {
			fmt.Fprintf(p.out, "(assert (young %s))\n", q(o))
		}
	}
	fmt.Fprintf(p.out, "(assert (forall (%s) (! (not (young %s)) :pattern (%s))))\n", vs, sel, sel)
}

var subKinds = map[string]int{}
var subKindMu sync.Mutex

func subKindOf(n string) int {
	subKindMu.Lock()
	defer subKindMu.Unlock()
	if k, ok := subKinds[n]; ok {
		return k
	}
	k := len(subKinds) + 1
	subKinds[n] = k
	return k
}

// ---- solver runs

type SolverResult struct {
	Status  string // unsat sat unknown
	Solver  string
	Seconds float64
	Model   map[string]string
	Raw     string
}

var (
	solverSlots = make(chan struct{}, 8)
	solverTime  int64 // nanoseconds over all runs
	solverRuns  int64
)

func runSolver(ctx context.Context, name, query string, timeout time.Duration, evals []string) SolverResult {
	var cmd *exec.Cmd
	ms := int(timeout / time.Millisecond)
	pre := ""
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
		pre = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
		if len(evals) > 0 {
			pre = ""
		}
	case "z3-mbqi":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms))
		pre = "(set-logic ALL)\n"
	}
	q := pre + query + "(check-sat)\n"
	if len(evals) > 0 {
		q += "(get-value (" + strings.Join(evals, " ") + "))\n"
	}
	cmd.Stdin = strings.NewReader(q)
	start := time.Now()
	out, _ := cmd.CombinedOutput()
	el := time.Since(start)
	atomic.AddInt64(&solverTime, int64(el))
	atomic.AddInt64(&solverRuns, 1)
	r := SolverResult{Solver: name, Seconds: el.Seconds(), Raw: string(out), Status: "unknown"}
	first := strings.TrimSpace(string(out))
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	switch first {
	case "unsat", "sat":
		r.Status = first
	default:
		if strings.Contains(first, "error") {
			r.Status = "error"
		}
	}
	return r
}

// ---- incremental feasibility checker (quantifier-free part only)

type incSolver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *smtPrinter
	cache map[string]string
	n     int
}

func newIncSolver() *incSolver {
	s := &incSolver{cache: map[string]string{}}
	s.start()
	return s
}

func (s *incSolver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReader(out)
	s.p = newPrinter()
	s.p.out.WriteString("(set-option :timeout 300)\n" + preamble)
	s.n = 0
}

func (s *incSolver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// check returns sat/unsat/unknown for the conjunction of the quantifier-free
// closed terms among ts.
func (s *incSolver) check(ts []*Term) string {
	var ids []int
	var use []*Term
	for _, t := range ts {
		if t == TFalse {
			return "unsat"
		}
		if t == TTrue || hasQuant(t) {
			continue
		}
		use = append(use, t)
		ids = append(ids, t.ID)
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids)
	if r, ok := s.cache[k]; ok {
		return r
	}
	if s.n > incMax {
		s.close()
		s.start()
	}
	s.n++
	start := time.Now()
	p := s.p
	var asserts []string
	for _, t := range use {
		x := p.term(t)
		p.flushEqs()
		asserts = append(asserts, x)
	}
	p.out.WriteString("(push)\n")
	for _, a := range asserts {
		p.out.WriteString("(assert " + a + ")\n")
	}
	// distinct fresh objects: pairwise facts only where cheap
	var roots []string
	for n := range p.decl {
		if strings.HasPrefix(n, "obj!") || strings.HasPrefix(n, "glob!") || strings.HasPrefix(n, "fun!") || n == "null" {
			roots = append(roots, q(n))
		}
	}
	if len(roots) > 1 {
		sort.Strings(roots)
		p.out.WriteString("(assert (distinct " + strings.Join(roots, " ") + "))\n")
	}
	p.out.WriteString("(check-sat)\n(pop)\n")
	if dumpInc != nil {
		io.WriteString(dumpInc, p.out.String())
	}
	io.WriteString(s.in, p.out.String())
	p.out.Reset()
	res := "unknown"
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.start()
			break
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			res = line
			break
		}
		if strings.HasPrefix(line, "(error") {
			if debugSMT {
				fmt.Println("inc solver:", line)
			}
			res = "unknown"
			// keep reading until the check-sat answer
		}
	}
	atomic.AddInt64(&solverTime, int64(time.Since(start)))
	if incStats != nil {
		fmt.Fprintf(incStats, "%d %d %s %d\n", s.n, time.Since(start).Microseconds(), res, len(use))
	}
	s.cache[k] = res
	return res
}

var dumpInc, incStats io.Writer
var debugSMT bool

var quantCache sync.Map

func hasQuant(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := quantCache.Load(t.ID); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantCache.Store(t.ID, r)
	return r
}

// ---- string axioms

func sAx(name, raw string, need ...string) *Axiom {
	return &Axiom{Name: name, Need: need, Raw: raw}
}

var stringAxioms = []*Axiom{
	sAx("slen-nonneg", "(forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s))))", "slen"),
	sAx("sat-byte", "(forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i))))", "sat"),
	sAx("ssub-len", "(forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j))))", "ssub", "slen"),
	sAx("ssub-at", "(forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k))))", "ssub", "sat", "slen"),
	sAx("ssub-whole", "(forall ((s Str) (j Int)) (! (=> (= j (slen s)) (= (ssub s 0 j) s)) :pattern ((ssub s 0 j))))", "ssub", "slen"),
	{Name: "ssub-join", Need: []string{"ssub", "scat", "slen"}, Raw: "(forall ((s Str) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (slen s))) (= (scat (ssub s a b) (ssub s b c)) (ssub s a c))) :pattern ((ssub s a b) (ssub s b c))))"},
	{Name: "ssub-join2", Need: []string{"ssub", "scat", "slen"}, Raw: "(forall ((s Str) (a Int) (b Int) (c Int) (r Str)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (slen s))) (= (scat (ssub s a b) (scat (ssub s b c) r)) (scat (ssub s a c) r))) :pattern ((scat (ssub s a b) (scat (ssub s b c) r)))))"},
	sAx("scat-len", "(forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b))))", "scat", "slen"),
	sAx("scat-at", "(forall ((a Str) (b Str) (k Int)) (! (= (sat (scat a b) k) (ite (< k (slen a)) (sat a k) (sat b (- k (slen a))))) :pattern ((sat (scat a b) k))))", "scat", "sat", "slen"),
	sAx("scat-assoc", "(forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c))))", "scat"),
	sAx("scat-empty", "(forall ((a Str) (b Str)) (! (and (=> (= (slen a) 0) (= (scat a b) b)) (=> (= (slen b) 0) (= (scat a b) a))) :pattern ((scat a b))))", "scat", "slen"),
	sAx("sarr-at", "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sarr s) i) (sat s i))) :pattern ((select (sarr s) i))))", "sarr", "sat", "slen"),
	sAx("sfrom-len", "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (sfrom a o n)) n)) :pattern ((sfrom a o n))))", "sfrom", "slen"),
	sAx("ssub-cat-left", "(forall ((a Str) (b Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen a))) (= (ssub (scat a b) i j) (ssub a i j))) :pattern ((ssub (scat a b) i j))))", "scat", "ssub", "slen"),
	sAx("ssub-cat-right", "(forall ((a Str) (b Str) (i Int) (j Int)) (! (=> (and (<= (slen a) i) (<= i j) (<= j (+ (slen a) (slen b)))) (= (ssub (scat a b) i j) (ssub b (- i (slen a)) (- j (slen a))))) :pattern ((ssub (scat a b) i j))))", "scat", "ssub", "slen"),
	sAx("touch", "(forall ((i Int)) (! (touch i) :pattern ((touch i))))", "touch"),
	sAx("sfrom-at", "(forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (sat (sfrom a o n) k) (select a (+ o k)))) :pattern ((sat (sfrom a o n) k))))", "sfrom", "sat"),
}

var incMax = 150 // checks before the solver is started afresh

func init() {
	if f := os.Getenv("GOWP_INC"); f != "" {
		incStats, _ = os.Create(f)
	}
	if n, _ := strconv.Atoi(os.Getenv("GOWP_INCMAX")); n > 0 {
		incMax = n
	}
}
