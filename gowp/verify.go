package main

// Loading of the real code with the contract overlay, verification driver.

import (
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	prog           *ssa.Program
	fset           *token.FileSet
	pkgs           map[string]*ssa.Package
	tpkgs          map[string]*packages.Package
	contracts      []*Contract
	byName         map[string]*Contract
	byTarget       map[*ssa.Function][]*Contract
	byFn           map[*ssa.Function]*Contract
	exactOnly      bool // bind invariants by name only, where the names exist
	trimmed        bool
	recs           map[*ssa.Function]*recSpec
	invs           []*invTmpl
	loops          map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	mutableGlobals map[string]bool
	constGlobals   map[string]func(ex *Exec, st *State) Value
	maxPaths       int
	invTimeout     time.Duration
	fnNums         map[*ssa.Function]int
	obTimeout      time.Duration
	invUse         map[string]bool
	specCache      map[*ssa.Function]bool
	axioms         []*Axiom
	dropped        []string // contract files that do not compile against the tree
	missingReq     []string
	missing        []string // contracts whose target does not exist
	files          map[string]string
	verbose        bool
}

type invTmpl struct {
	name    string
	fn      *ssa.Function
	in      []string // contract name patterns
	variant bool
	params  []string
	loopFn  string
}

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.fset.Position(p)
	return filepath.Base(q.Filename) + ":" + strconv.Itoa(q.Line)
}

func (v *Verifier) invUsed(c, n string) { v.invUse[c+"/"+n] = true }

func (v *Verifier) isSpec(fn *ssa.Function) bool {
	if r, ok := v.specCache[fn]; ok {
		return r
	}
	r := isSpecFile(v, fn)
	v.specCache[fn] = r
	return r
}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		for f := fn.Parent(); p == nil && f != nil; f = f.Parent() {
			p = f.Pkg
			if p == nil && f.Origin() != nil {
				p = f.Origin().Pkg
			}
		}
	}
	if p == nil { // wrapper or bound method
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), "github.com/Eyevinn/dash-mpd") || fn.Synthetic != ""
		}
		return fn.Synthetic != ""
	}
	if strings.HasPrefix(p.Pkg.Path(), "github.com/Eyevinn/dash-mpd") {
		return true
	}
	return inlineStd[fullName(fn)]
}

var inlineStd = map[string]bool{
	"(time.Duration).Seconds": true,
	"unicode.IsSpace":         false,
}

// load builds SSA of mpd and xml with the contract files overlaid.
func load(repo, contracts string, only map[string]bool) (*Verifier, error) {
	v := &Verifier{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, byName: map[string]*Contract{}, byTarget: map[*ssa.Function][]*Contract{}, byFn: map[*ssa.Function]*Contract{}, recs: map[*ssa.Function]*recSpec{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, mutableGlobals: map[string]bool{}, constGlobals: map[string]func(ex *Exec, st *State) Value{}, maxPaths: 20000, invTimeout: 4 * time.Second, obTimeout: 20 * time.Second, invUse: map[string]bool{}, specCache: map[*ssa.Function]bool{}, files: map[string]string{}}
	overlay := map[string][]byte{}
	lib, err := os.ReadFile(filepath.Join(contracts, "lib.go.txt"))
	if err != nil {
		return nil, err
	}
	src := map[string]string{}
	for _, pkg := range []string{"mpd", "xml"} {
		n := filepath.Join(repo, pkg, "zz_verif_lib.go")
		overlay[n] = []byte(strings.Replace(string(lib), "package PKG", "package "+pkg, 1))
		es, _ := os.ReadDir(filepath.Join(contracts, pkg))
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f := filepath.Join(contracts, pkg, e.Name())
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			n := filepath.Join(repo, pkg, "zz_verif_"+e.Name())
			overlay[n] = b
			src[n] = f
		}
	}
	v.files = src
	var pk []*packages.Package
	for round := 0; ; round++ {
		v.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Fset: v.fset,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")}
		pk, err = packages.Load(cfg, "./mpd", "./xml")
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var other []string
		for _, p := range pk {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if _, ok := src[f]; ok {
					if _, live := overlay[f]; live {
						bad[f] = true
						v.dropped = append(v.dropped, fmt.Sprintf("%s: %s", filepath.Base(src[f]), e.Msg))
					}
				} else {
					other = append(other, e.Error())
				}
			}
		}
		if len(bad) == 0 {
			if len(other) > 0 {
				return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(other, "; "))
			}
			break
		}
		if round > 8 {
			return nil, fmt.Errorf("contract files do not compile: %v", v.dropped)
		}
		for f := range bad {
			delete(overlay, f)
		}
	}
	prog, spkgs := ssautil.AllPackages(pk, ssa.GlobalDebug|ssa.InstantiateGenerics)
	v.prog = prog
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		v.pkgs[pk[i].Name] = p
		v.tpkgs[pk[i].Name] = pk[i]
	}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if strings.HasPrefix(path, "github.com/Eyevinn/dash-mpd") || path == "time" || path == "unicode" || path == "unicode/utf8" || path == "bytes" {
			p.Build()
		}
	}
	v.scanGlobals()
	for _, name := range []string{"mpd", "xml"} {
		if err := v.scanDirectives(name); err != nil {
			return nil, err
		}
	}
	sort.Slice(v.contracts, func(i, j int) bool { return v.contracts[i].Name < v.contracts[j].Name })
	for _, c := range v.contracts {
		if c.Target != nil {
			v.byTarget[c.Target] = append(v.byTarget[c.Target], c)
		}
	}
	return v, nil
}

var dirRe = regexp.MustCompile(`^//verif:(\w+)\s*(.*)$`)

func (v *Verifier) scanDirectives(pkg string) error {
	tp, sp := v.tpkgs[pkg], v.pkgs[pkg]
	for _, f := range tp.Syntax {
		fname := v.fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fname), "zz_verif") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			obj := tp.TypesInfo.Defs[fd.Name].(*types.Func)
			fn := v.prog.FuncValue(obj)
			c := &Contract{Name: fd.Name.Name, Fn: fn, Inline: map[string]bool{}, Use: map[string]bool{}, Unroll: map[string]int{}, FreshRes: map[int]bool{}, File: filepath.Base(fname)}
			kind := ""
			var inv *invTmpl
			var doc []string
			for _, cm := range fd.Doc.List {
				m := dirRe.FindStringSubmatch(cm.Text)
				if m == nil {
					doc = append(doc, strings.TrimSpace(strings.TrimPrefix(cm.Text, "//")))
					continue
				}
				arg := strings.TrimSpace(m[2])
				switch m[1] {
				case "contract":
					kind = "contract"
					c.TargetName = arg
				case "trusted":
					kind = "contract"
					c.TargetName = arg
					c.Trusted = true
				case "lemma":
					kind = "contract"
					c.Lemma = true
				case "client":
					kind = "contract"
					c.Client = true
				case "prop":
					c.Props = append(c.Props, strings.Fields(arg)...)
				case "inv", "variant":
					kind = "inv"
					inv = &invTmpl{name: fd.Name.Name, fn: fn, in: strings.Fields(arg), variant: m[1] == "variant"}
				case "loop":
					inv.loopFn = arg
				case "rec":
					kind = "rec"
					r := &recSpec{fn: fn, depth: 1}
					for _, a := range strings.Fields(arg) {
						if strings.HasPrefix(a, "depth=") {
							r.depth, _ = strconv.Atoi(a[6:])
						}
						if strings.HasPrefix(a, "min=") {
							r.lo, _ = strconv.ParseInt(a[4:], 10, 64)
							r.hasLo = true
						}
					}
					v.recs[fn] = r
				case "inline":
					for _, a := range strings.Fields(arg) {
						c.Inline[a] = true
					}
				case "unroll":
					for _, a := range strings.Fields(arg) {
						kv := strings.SplitN(a, "=", 2)
						n, err := strconv.Atoi(kv[1])
						if err != nil {
							return err
						}
						c.Unroll[kv[0]] = n
					}
				case "fresh":
					for _, a := range strings.Fields(arg) {
						n, _ := strconv.Atoi(a)
						c.FreshRes[n] = true
					}
				case "join":
					c.Join = true
				case "noterm":
					c.NoTermination = true
				case "noframe":
					c.NoFrame = true
				case "helper":
					c.Helper = true
				case "use": // the contracts to rely on at calls where there are several
					for _, a := range strings.Fields(arg) {
						c.Use[a] = true
					}
				case "nouse":
					c.NoUse = true
				case "paths":
					c.MaxPaths, _ = strconv.Atoi(arg)
				case "timeout":
					c.Timeout, _ = strconv.Atoi(arg)
				default:
					return fmt.Errorf("%s: unknown directive %s", fd.Name.Name, cm.Text)
				}
			}
			c.Doc = strings.TrimSpace(strings.Join(doc, " "))
			switch kind {
			case "contract":
				if c.TargetName != "" {
					c.Target = v.lookupTarget(sp, c.TargetName)
					if c.Target == nil {
						v.missing = append(v.missing, c.Name+" ("+c.TargetName+")")
						if !c.Helper {
							for _, p := range c.Props {
								v.missingReq = append(v.missingReq, p+" "+c.Name+" ("+c.TargetName+")")
							}
						}
						continue
					}
				}
				if c.Client {
					c.NoFrame = true
				}
				v.contracts = append(v.contracts, c)
				v.byName[c.Name] = c
				v.byFn[fn] = c
			case "inv":
				for i := 0; i < obj.Type().(*types.Signature).Params().Len(); i++ {
					inv.params = append(inv.params, obj.Type().(*types.Signature).Params().At(i).Name())
				}
				v.invs = append(v.invs, inv)
			}
		}
	}
	return nil
}

// lookupTarget resolves "F", "T.M", "(*T).M" in pkg or "pkg.F", "(*pkg.T).M".
func (v *Verifier) lookupTarget(sp *ssa.Package, name string) *ssa.Function {
	ptr := false
	n := name
	if strings.HasPrefix(n, "(*") {
		ptr = true
		n = strings.Replace(strings.TrimPrefix(n, "(*"), ")", "", 1)
	}
	parts := strings.Split(n, ".")
	pkg := sp
	if len(parts) >= 2 && !ptr && len(parts) == 2 {
		// pkg.F or T.M
		if p := v.findPkg(parts[0]); p != nil && sp.Type(parts[0]) == nil {
			if f := p.Func(parts[1]); f != nil {
				return f
			}
		}
	}
	if len(parts) == 3 {
		if p := v.findPkg(parts[0]); p != nil {
			pkg = p
		}
		parts = parts[1:]
	}
	if len(parts) == 1 {
		return pkg.Func(parts[0])
	}
	if g := pkg.Var(parts[0]); g != nil && len(parts) == 2 {
		return globalFunc(pkg, g, parts[1])
	}
	t := pkg.Type(parts[0])
	if t == nil {
		return nil
	}
	var typ types.Type = t.Type()
	if ptr {
		typ = types.NewPointer(typ)
	}
	sel := v.prog.MethodSets.MethodSet(typ).Lookup(pkg.Pkg, parts[1])
	if sel == nil {
		return nil
	}
	f := v.prog.FuncValue(sel.Obj().(*types.Func))
	return f
}

// globalFunc is the function that the package initialises field f of g with.
func globalFunc(pkg *ssa.Package, g *ssa.Global, f string) *ssa.Function {
	ini := pkg.Func("init")
	if ini == nil {
		return nil
	}
	from := map[ssa.Value]bool{g: true}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				if u, ok := s.Val.(*ssa.UnOp); ok { // a composite literal is built first
					from[u.X] = true
				}
			}
		}
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !from[a.X] || under(under(a.X.Type()).(*types.Pointer).Elem()).(*types.Struct).Field(a.Field).Name() != f {
				continue
			}
			x := s.Val
			if c, ok := x.(*ssa.ChangeType); ok {
				x = c.X
			}
			if c, ok := x.(*ssa.MakeClosure); ok {
				x = c.Fn
			}
			if fn, ok := x.(*ssa.Function); ok {
				return fn
			}
		}
	}
	return nil
}

func (v *Verifier) findPkg(name string) *ssa.Package {
	if p, ok := v.pkgs[name]; ok {
		return p
	}
	for _, p := range v.prog.AllPackages() {
		if p.Pkg.Path() == name {
			return p
		}
	}
	for _, p := range v.prog.AllPackages() {
		if p.Pkg.Name() == name && !strings.Contains(p.Pkg.Path(), "internal") {
			return p
		}
	}
	return nil
}

// scanGlobals finds package variables assigned outside initialisation, and the
// constant byte slices among the others.
func (v *Verifier) scanGlobals() {
	for _, pn := range []string{"mpd", "xml"} {
		p := v.pkgs[pn]
		for fn := range ssautil.AllFunctions(v.prog) {
			if fn.Pkg != p || fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							v.mutableGlobals["glob!"+trimPkg(g.String())] = true
						}
					}
				}
			}
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				name := "glob!" + trimPkg(g.String())
				switch x := s.Val.(type) {
				case *ssa.Convert:
					if c, ok := x.X.(*ssa.Const); ok && isString(c.Type()) {
						lit := StrLit(constStr(c))
						el := under(x.Type()).(*types.Slice).Elem()
						ref := VarT("glob!bytes!"+trimPkg(g.String()), SRef)
						v.constGlobals[name] = func(ex *Exec, st *State) Value {
							sv := &SliceVal{Arr: ref, Off: IntT(0), Len: SLen(lit), Cap: SLen(lit), Elem: el}
							ex.constBytes[ref.ID] = lit
							return sv
						}
					}
				case *ssa.Const:
					cc := x
					v.constGlobals[name] = func(ex *Exec, st *State) Value { return ex.constVal(cc) }
				}
			}
		}
	}
}

// ---- maps by name

type mapInfo struct {
	name string
	sort Sort
	sl   slot
}

// expandMap resolves a modifies name: "Type.field", "elem:T", "$ghost".
func (v *Verifier) expandMap(ex *Exec, c *Contract, m string) []mapInfo {
	if strings.HasPrefix(m, "$") {
		switch m {
		case "$out":
			return []mapInfo{{"$out", ArrSort(SRef, SStr), slot{"", SStr, nil, false}}}
		case "$err":
			return []mapInfo{{"$err.typ", ArrSort(SRef, SInt), slot{"", SInt, nil, true}}, {"$err.val", ArrSort(SRef, SRef), slot{"", SRef, nil, false}}}
		}
		if m == "$dst" {
			return []mapInfo{{"$dst.typ", ArrSort(SRef, SInt), slot{"", SInt, nil, true}}, {"$dst.val", ArrSort(SRef, SRef), slot{"", SRef, nil, false}}}
		}
		if strings.HasPrefix(m, "$str:") {
			return []mapInfo{{"$" + m[5:], ArrSort(SRef, SStr), slot{"", SStr, nil, false}}}
		}
		return []mapInfo{{m, ArrSort(SRef, SInt), slot{"", SInt, nil, false}}}
	}
	pkg := c.Fn.Pkg
	if strings.HasPrefix(m, "elem:") {
		t := v.parseType(pkg, m[5:])
		var out []mapInfo
		sls, ok := valueSlots(t)
		if !ok {
			unsup("modifies %s", m)
		}
		for _, s := range sls {
			out = append(out, mapInfo{"elem:" + typeName(t) + s.Suffix, ArrSort(SRef, ArrSort(SInt, s.Sort)), s})
		}
		return out
	}
	if strings.HasPrefix(m, "map:") {
		t := v.parseType(pkg, m[4:])
		mt := t.(*types.Map)
		n := ex.mapNames(mt)
		ks := ex.keySort(mt.Key())
		out := []mapInfo{{n + ".dom", ArrSort(SRef, ArrSort(ks, SBool)), slot{"", SBool, nil, false}}}
		for _, sl := range ex.flatSlots(mt.Elem()) {
			out = append(out, mapInfo{n + ".val" + sl.Suffix, ArrSort(SRef, ArrSort(ks, sl.Sort)), sl})
		}
		return out
	}
	i := strings.LastIndex(m, ".")
	tn := pkg.Type(m[:i])
	if tn == nil {
		unsup("modifies: no type %s", m[:i])
	}
	st := tn.Type()
	u, ok := under(st).(*types.Struct)
	if !ok {
		unsup("modifies: %s is not a struct", m[:i])
	}
	var out []mapInfo
	for k := 0; k < u.NumFields(); k++ {
		f := u.Field(k)
		if f.Name() != m[i+1:] && m[i+1:] != "*" {
			continue
		}
		base := structName(st) + "." + f.Name()
		if fu, ok := under(f.Type()).(*types.Struct); ok {
			_ = fu
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() == pkg.Pkg {
				out = append(out, v.expandMap(ex, c, n.Obj().Name()+".*")...)
				continue
			}
			unsup("modifies struct field %s", m)
		}
		if at, ok := under(f.Type()).(*types.Array); ok {
			sl, _ := valueSlots(at.Elem())
			for _, s := range sl {
				out = append(out, mapInfo{"elem:" + typeName(at.Elem()) + s.Suffix, ArrSort(SRef, ArrSort(SInt, s.Sort)), s})
			}
			continue
		}
		sls, _ := valueSlots(f.Type())
		for _, s := range sls {
			out = append(out, mapInfo{base + s.Suffix, ArrSort(SRef, s.Sort), s})
		}
	}
	if len(out) == 0 {
		unsup("modifies: no field %s", m)
	}
	return out
}

func (v *Verifier) parseType(pkg *ssa.Package, s string) types.Type {
	tv, err := types.Eval(v.fset, pkg.Pkg, token.NoPos, s)
	if err != nil {
		unsup("type %s: %v", s, err)
	}
	return tv.Type
}

// ---- invariant templates

func (v *Verifier) unrollFor(ex *Exec, fr *Frame) int {
	if n, ok := ex.C.Unroll[fr.fn.Name()]; ok {
		return n
	}
	if fr.fn.Parent() != nil {
		if n, ok := ex.C.Unroll[fr.fn.Parent().Name()]; ok {
			return n
		}
	}
	if n, ok := ex.C.Unroll["*"]; ok {
		return n
	}
	return 0
}

type binding struct {
	name string
	get  func(f *Frame, st *State) Value
}

func match(pats []string, n string) bool {
	for _, p := range pats {
		if ok, _ := path.Match(p, n); ok {
			return true
		}
	}
	return false
}

// sources lists the values a template parameter of type t may be bound to.
// hasVariable: fn has a variable called name.
func hasVariable(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if in.Comment == name {
					return true
				}
			case *ssa.Alloc:
				if in.Comment == name {
					return true
				}
			}
		}
	}
	return false
}

func (v *Verifier) sources(ex *Exec, fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Value, t types.Type, name string) []binding {
	var exact, near []binding
	base := name
	atEntry := false
	if strings.HasSuffix(name, "0") && len(name) > 1 && !hasVariable(fr.fn, name) {
		base = name[:len(name)-1]
		atEntry = true
	}
	add := func(n string, get func(f *Frame, st *State) Value) {
		if n == base {
			exact = append(exact, binding{n, get})
		} else {
			near = append(near, binding{n, get})
		}
	}
	same := func(x types.Type) bool {
		return types.Identical(x, t) || types.Identical(x.Underlying(), t.Underlying()) && !isNamedStruct(t)
	}
	if !atEntry {
		for _, p := range phis {
			p := p
			if same(p.Type()) {
				n := p.Comment
				if n == "rangeindex" {
					n = p.Name()
				}
				add(n, func(f *Frame, st *State) Value { return f.regs[p] })
				if isInteger(p.Type()) {
					nn := p.Name() + "+1"
					if p.Comment == "rangeindex" {
						nn = "i"
					}
					add(nn, func(f *Frame, st *State) Value { return AddT(f.regs[p].(*Term), IntT(1)) })
				}
			}
		}
	} else if entry != nil {
		for _, p := range phis {
			p := p
			if same(p.Type()) {
				add(p.Comment, func(f *Frame, st *State) Value { return entry[p] })
			}
		}
	}
	// locals held in memory
	for val := range fr.regs {
		if a, ok := val.(*ssa.Alloc); ok {
			et := a.Type().(*types.Pointer).Elem()
			if same(et) && a.Comment != "" {
				a := a
				if atEntry {
					e := ex.entryLoad(fr, st, a)
					if e != nil {
						add(a.Comment, func(f *Frame, st *State) Value { return e })
					}
					continue
				}
				add(a.Comment, func(f *Frame, st *State) Value { return ex.load(st, f.regs[a].(*Ptr)) })
			}
		}
	}
	for i, p := range fr.fn.Params {
		p := p
		_ = i
		if same(p.Type()) {
			add(p.Name(), func(f *Frame, st *State) Value { return f.regs[p] })
		}
	}
	for _, fv := range fr.fn.FreeVars {
		fv := fv
		if pt, ok := fv.Type().(*types.Pointer); ok && same(pt.Elem()) {
			add(fv.Name(), func(f *Frame, st *State) Value { return ex.load(st, f.regs[fv].(*Ptr)) })
		}
	}
	// named values computed before the loop
	type nv struct {
		n string
		x ssa.Value
	}
	seen := map[nv]bool{}
	var last []nv
	for _, b := range fr.fn.Blocks {
		if !b.Dominates(li.head) || li.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if id, ok := d.Expr.(*ast.Ident); ok && same(d.X.Type()) {
					if _, ok := fr.regs[d.X]; ok && !seen[nv{id.Name, d.X}] {
						x := d.X
						seen[nv{id.Name, x}] = true
						if pm, ok := x.(*ssa.Parameter); ok && pm.Name() == id.Name {
							continue
						}
						if _, isP := x.(*ssa.Phi); isP {
							// a phi of an enclosing loop is fixed here
						}
						last = append(last, nv{id.Name, x})
					}
				}
			}
		}
	}
	for i := len(last) - 1; i >= 0; i-- { // the last value first
		x := last[i].x
		add(last[i].n, func(f *Frame, st *State) Value { return f.regs[x] })
	}
	// unnamed slices computed before the loop, such as what a range statement ranges over
	if _, ok := t.Underlying().(*types.Slice); ok {
		for _, b := range fr.fn.Blocks {
			if !b.Dominates(li.head) || li.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				x, ok := in.(ssa.Value)
				if !ok || !same(x.Type()) {
					continue
				}
				if _, ok := fr.regs[x]; ok {
					add("_"+x.Name(), func(f *Frame, st *State) Value { return f.regs[x] })
				}
			}
		}
	}
	// iterator positions of range-over-string loops
	if isInteger(t) && !atEntry {
		for _, val := range sortedVals(fr.regs) {
			if r, ok := val.(*ssa.Range); ok {
				if it, ok := fr.regs[r].(*IterVal); ok && it.Str != nil {
					add("iterpos", func(f *Frame, st *State) Value {
						return ex.load(st, &Ptr{Kind: PLocal, Obj: it.Obj, T: types.Typ[types.Int]})
					})
				}
			}
		}
	}
	// caller's parameters and values
	for cf := fr.caller; cf != nil && len(exact) == 0; cf = cf.caller {
		if cf.con != nil {
			for _, p := range cf.fn.Params {
				p := p
				cf := cf
				if same(p.Type()) {
					add(p.Name(), func(f *Frame, st *State) Value { return cf.regs[p] })
				}
			}
			break
		}
		for _, p := range cf.fn.Params {
			p := p
			cf := cf
			if same(p.Type()) {
				add(p.Name(), func(f *Frame, st *State) Value { return cf.regs[p] })
			}
		}
	}
	if len(exact) > 0 {
		// last definition of a name wins only when values differ; keep all
		return dedupeB(append(exact, near...))
	}
	return dedupeB(near)
}

func dedupeB(bs []binding) []binding { return bs }

func isNamedStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func sortedVals(m map[ssa.Value]Value) []ssa.Value {
	var ks []ssa.Value
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
	return ks
}

func (ex *Exec) entryLoad(fr *Frame, st *State, a *ssa.Alloc) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return ex.load(st, fr.regs[a].(*Ptr))
}

const maxBindings = 48

func (v *Verifier) bindTemplate(ex *Exec, fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Value, tm *invTmpl) [][]binding {
	sig := tm.fn.Signature
	all := [][]binding{nil}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		bs := v.sources(ex, fr, st, li, phis, entry, p.Type(), p.Name())
		if len(bs) == 0 {
			return nil
		}
		if n := p.Name(); v.exactOnly && len(bs) > 1 && (bs[0].name == n || bs[0].name+"0" == n) {
			v.trimmed = true
			bs = bs[:1]
		}
		var next [][]binding
		for _, pre := range all {
			for _, b := range bs {
				next = append(next, append(append([]binding{}, pre...), b))
			}
		}
		// prefer exact names: order by number of mismatches
		sort.SliceStable(next, func(a, b int) bool { return mism(next[a], tm) < mism(next[b], tm) })
		if len(next) > maxBindings {
			next = next[:maxBindings]
		}
		all = next
	}
	if v.exactOnly {
		n := 0
		for n < len(all) && mism(all[n], tm) == 0 {
			n++
		}
		if n < len(all) {
			v.trimmed = true
			return all[:n]
		}
	}
	return all
}

func mism(bs []binding, tm *invTmpl) int {
	n := 0
	for i, b := range bs {
		p := tm.params[i]
		if b.name != p && b.name+"0" != p {
			n++
		}
	}
	return n
}

func (v *Verifier) userInvariants(ex *Exec, fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Value) []candidate {
	var out []candidate
	est := st.clone()
	for _, tm := range v.invs {
		if tm.variant || !match(tm.in, ex.C.Name) {
			continue
		}
		for k, bs := range v.bindTemplate(ex, fr, st, li, phis, entry, tm) {
			tm, bs := tm, bs
			out = append(out, candidate{name: fmt.Sprintf("%s#%d", tm.name, k), user: true, eval: func(f *Frame, s *State) (r *Term) {
				defer func() {
					if e := recover(); e != nil {
						if u, ok := e.(unsupported); ok {
							if os.Getenv("GOWP_DEBUG") == "inv" {
								fmt.Println("EVAL", tm.name, u)
							}
							r = nil
							return
						}
						panic(e)
					}
				}()
				old := ex.entrySt
				ex.entrySt = est
				defer func() { ex.entrySt = old }()
				var args []Value
				for _, b := range bs {
					a := b.get(f, s)
					if a == nil {
						return nil
					}
					args = append(args, a)
				}
				return ex.evalPure(f, s, s, &FuncVal{Fn: tm.fn}, args)[0].(*Term)
			}})
		}
	}
	return out
}

type userMeasure struct {
	name string
	eval func(f *Frame, s *State) *Term
}

func (v *Verifier) userMeasures(ex *Exec, fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi) []userMeasure {
	var out []userMeasure
	for _, tm := range v.invs {
		if !tm.variant || !match(tm.in, ex.C.Name) {
			continue
		}
		for k, bs := range v.bindTemplate(ex, fr, st, li, phis, nil, tm) {
			tm, bs := tm, bs
			out = append(out, userMeasure{fmt.Sprintf("%s#%d", tm.name, k), func(f *Frame, s *State) *Term {
				var args []Value
				for _, b := range bs {
					args = append(args, b.get(f, s))
				}
				return ex.evalPure(f, s, s, &FuncVal{Fn: tm.fn}, args)[0].(*Term)
			}})
		}
	}
	return out
}

// ---- solving

func (v *Verifier) solve(pc []*Term, goal *Term, timeout time.Duration) SolverResult {
	q := buildQuery(pc, goal, true, v.axs())
	return portfolio(q, timeout)
}

func (v *Verifier) axs() []*Axiom { return append(append([]*Axiom{}, stringAxioms...), v.axioms...) }

// noFloats drops the assumptions about floating-point numbers; nil if there
// are none, or if the goal speaks of them.
func noFloats(pc []*Term, goal *Term) []*Term {
	memo := map[int]bool{}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		r := t.Sort == SReal
		if t.Op == "app" && (t.Name == "fval" || t.Name == "fcls") {
			r = true
		}
		if !(t.Op == "app" && strings.HasPrefix(t.Name, "f2i!")) {
			for _, a := range t.Args {
				r = r || has(a)
			}
		}
		memo[t.ID] = r
		return r
	}
	if has(goal) {
		return nil
	}
	var out []*Term
	for _, t := range pc {
		if !has(t) {
			out = append(out, t)
		}
	}
	if len(out) == len(pc) {
		return nil
	}
	return out
}

// portfolio: z3-new alone first, then all solvers in parallel.
func portfolio(q string, timeout time.Duration) SolverResult {
	solverSlots <- struct{}{}
	first := timeout / 4
	if first > 3*time.Second {
		first = 3 * time.Second
	}
	r := runSolver(context.Background(), "z3-new", q, first, nil)
	<-solverSlots
	if r.Status == "unsat" || r.Status == "error" {
		return r
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+time.Second)
	defer cancel()
	names := []string{"z3-new", "cvc5", "z3-mbqi", "z3"}
	ch := make(chan SolverResult, len(names))
	for _, n := range names {
		n := n
		go func() {
			solverSlots <- struct{}{}
			defer func() { <-solverSlots }()
			if ctx.Err() != nil {
				ch <- SolverResult{Status: "unknown", Solver: n}
				return
			}
			ch <- runSolver(ctx, n, q, timeout, nil)
		}()
	}
	best := r
	for range names {
		x := <-ch
		if x.Status == "unsat" {
			cancel()
			return x
		}
		if x.Status == "sat" {
			best = x
			if x.Solver == "z3-mbqi" || x.Solver == "cvc5" {
				cancel()
				return x
			}
		}
	}
	return best
}

// ---- verification of one contract

type Report struct {
	Contract    *Contract
	Obls        []*Obligation
	Unsupported string
	Paths       int
	Inlined     []string
	Used        []string
	Models      []string
	Assumptions []string
	Notes       []string
	Seconds     float64
	Covered     bool
	Excused     bool
}

func (r *Report) ok() bool {
	if r.Unsupported != "" || !r.Covered || len(r.Obls) == 0 {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

var execMu sync.Mutex

func (v *Verifier) newExec(c *Contract) *Exec {
	return &Exec{V: v, C: c, inc: newIncSolver(), notes: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, modelsUsed: map[string]bool{}, assumptions: map[string]bool{}, constBytes: map[int]*Term{}, depthFn: map[*ssa.Function]int{}}
}

func (v *Verifier) verify(c *Contract, budget time.Duration) (rep *Report) {
	rep = &Report{Contract: c}
	start := time.Now()
	ex := v.newExec(c)
	ex.deadline = start.Add(budget)
	defer func() {
		ex.inc.close()
		rep.Seconds = time.Since(start).Seconds()
	}()
	var final []*State
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					rep.Unsupported = u.msg
					return
				}
				if os.Getenv("GOWP_PANIC") != "" {
					panic(e)
				}
				rep.Unsupported = fmt.Sprintf("internal: %v", e)
			}
		}()
		st := newState()
		var args []Value
		for _, p := range c.Fn.Params {
			args = append(args, ex.symbolic(st, "in!"+p.Name(), p.Type()))
		}
		ex.entryFacts(st, c.Fn, args)
		con := &conFrame{c: c}
		for _, e := range ex.runContract(nil, st, c, args, con) {
			if e.kind != "ret" {
				continue
			}
			for _, d := range e.fr.con.defEns {
				t := ex.evalBool(e.fr, e.st, d.f)
				ex.obligation(e.st, e.fr, "post", d.name, token.NoPos, t)
			}
			final = append(final, e.st)
		}
	}()
	rep.Obls = ex.obls
	rep.Paths = ex.paths
	rep.Inlined = keysOf(ex.inlined)
	rep.Used = keysOf(ex.used)
	rep.Models = keysOf(ex.modelsUsed)
	rep.Assumptions = keysOf(ex.assumptions)
	rep.Notes = keysOf(ex.notes)
	if rep.Unsupported != "" {
		if d := os.Getenv("GOWP_DUMP"); d != "" {
			for i, o := range rep.Obls {
				if !o.OK {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("%s-%d.smt2", strings.ReplaceAll(o.Name, "/", "_"), i)), []byte(buildQuery(o.PC, o.Goal, true, v.axs())+"(check-sat)\n"), 0o644)
				}
			}
		}
		return
	}
	// cover: some path reaches the end with consistent assumptions
	for _, s := range final {
		if ex.inc.check(s.pcTerms()) == "unsat" {
			continue
		}
		r := runSolver(context.Background(), "z3-new", buildQuery(s.pcTerms(), nil, true, v.axs()), time.Second, nil)
		if r.Status != "unsat" {
			rep.Covered = true
			break
		}
	}
	// remaining obligations
	to := v.obTimeout
	if c.Timeout > 0 {
		to = time.Duration(c.Timeout) * time.Second
	}
	var wg sync.WaitGroup
	type job struct {
		o *Obligation
		q string
	}
	var jobs []job
	seen := map[string]*Obligation{}
	dup := map[*Obligation]*Obligation{}
	for _, o := range rep.Obls {
		if o.OK {
			continue
		}
		q := buildQuery(o.PC, o.Goal, true, v.axs())
		if p, ok := seen[q]; ok {
			dup[o] = p
			continue
		}
		seen[q] = o
		jobs = append(jobs, job{o, q})
	}
	fails := 0
	var mu sync.Mutex
	for n, j := range jobs {
		j := j
		if n > 0 && n%200 == 0 {
			wg.Wait()
			if fails > 8 {
				// a broken tree: do not spend the budget on every path
				jobs = jobs[:n]
				break
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			t := to
			if fails > 8 {
				t = to / 8
			}
			mu.Unlock()
			if os.Getenv("GOWP_DUMP") != "" {
				os.WriteFile(filepath.Join(os.Getenv("GOWP_DUMP"), fmt.Sprintf("%s-%d.smt2", strings.ReplaceAll(j.o.Name, "/", "_"), len(j.q))), []byte(j.q+"(check-sat)\n"), 0o644)
			}
			if pc := noFloats(j.o.PC, j.o.Goal); pc != nil {
				j.o.Result = portfolio(buildQuery(pc, j.o.Goal, true, v.axs()), t/2)
				if os.Getenv("GOWP_DUMP") != "" {
					fmt.Fprintln(os.Stderr, "nofloat", j.o.Name, len(j.q), j.o.Result.Status, j.o.Result.Solver, j.o.Result.Seconds)
				}
			}
			if j.o.Result.Status != "unsat" {
				j.o.Result = portfolio(j.q, t)
			}
			j.o.OK = j.o.Result.Status == "unsat"
			if !j.o.OK {
				mu.Lock()
				fails++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// a loaded machine: the few that timed out get a second, longer try
	var again []job
	for _, j := range jobs {
		if !j.o.OK && j.o.Result.Status == "unknown" {
			again = append(again, j)
		}
	}
	if left := budget - time.Since(start); len(again) <= 6 && left > 20*time.Second {
		t := 4 * to
		if t > left {
			t = left
		}
		for _, j := range again {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				if r := portfolio(j.q, t); r.Status != "unknown" {
					j.o.Result, j.o.OK = r, r.Status == "unsat"
				}
			}()
		}
		wg.Wait()
	}
	for o, p := range dup {
		o.Result, o.OK = p.Result, p.OK
	}
	return
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// entryFacts: pointers passed in are existing objects; slices are well formed.
func (ex *Exec) entryFacts(st *State, fn *ssa.Function, args []Value) {}
