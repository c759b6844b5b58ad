package mpd_test

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// vh drives a bounded check of the real code: generated cases, an executable
// oracle, a time budget.
type vh struct {
	*rand.Rand
	deadline  time.Time
	evals     int
	distinct  map[uint64]bool
	samples   []string
	cur       string
	start     atomic.Int64
	violation string
	seed      int64
	thorough  bool
}

type vhStop struct{}

// Literals of the package's own source: values the code compares with are good inputs.
var (
	litStrs []string
	litInts []uint64
)

func init() {
	fset := token.NewFileSet()
	ents, _ := os.ReadDir(".")
	seen := map[string]bool{}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, e.Name(), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if fd, ok := n.(*ast.Field); ok && fd.Tag != nil {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok || seen[l.Value] {
				return true
			}
			seen[l.Value] = true
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 60 {
					litStrs = append(litStrs, s)
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					litStrs = append(litStrs, s)
				}
			case token.INT:
				if x, err := strconv.ParseUint(strings.ReplaceAll(l.Value, "_", ""), 0, 64); err == nil {
					litInts = append(litInts, x)
				}
			case token.FLOAT:
				if x, err := strconv.ParseFloat(l.Value, 64); err == nil && x >= 0 && x < 1e18 {
					litInts = append(litInts, uint64(x))
				}
			}
			return true
		})
	}
}

// Lit is a string literal of the package, at times cut or extended.
func (h *vh) Lit() string {
	if len(litStrs) == 0 {
		return ""
	}
	s := litStrs[h.Intn(len(litStrs))]
	switch h.Intn(6) {
	case 0:
		if len(s) > 1 {
			i := len(s) - 1
			for i > 0 && s[i]&0xc0 == 0x80 {
				i--
			}
			s = s[:i]
		}
	case 1:
		s += []string{"a", ":1", "0", " "}[h.Intn(4)]
	}
	return s
}

// LitInt is an integer literal of the package or a neighbour of one.
func (h *vh) LitInt() uint64 {
	if len(litInts) == 0 {
		return 0
	}
	return litInts[h.Intn(len(litInts))] + uint64(h.Intn(3)) - 1
}

// Case announces the next input; desc must allow the case to be rebuilt.
func (h *vh) Case(format string, a ...any) {
	h.cur = fmt.Sprintf(format, a...)
	h.start.Store(time.Now().UnixNano())
	h.evals++
	f := fnv.New64a()
	f.Write([]byte(h.cur))
	h.distinct[f.Sum64()] = true
	if len(h.samples) < 4 && (h.evals == 1 || h.Intn(200) == 0) {
		s := h.cur
		if len(s) > 400 {
			s = s[:400]
		}
		h.samples = append(h.samples, s)
	}
}

// Crashy records the case on disk before code that may kill the process runs.
func (h *vh) Crashy() {
	if p := os.Getenv("VERIF_HARNESS_OUT"); p != "" {
		os.WriteFile(p+".mpd.last", []byte(h.cur), 0o644)
	}
}

func (h *vh) More() bool { return time.Now().Before(h.deadline) }

func (h *vh) Check(ok bool, format string, a ...any) {
	if ok {
		return
	}
	h.violation = fmt.Sprintf("case: %s\n%s", h.cur, fmt.Sprintf(format, a...))
	panic(vhStop{})
}

func (h *vh) write(rule string) {
	p := os.Getenv("VERIF_HARNESS_OUT")
	if p == "" {
		return
	}
	b, _ := json.MarshalIndent(map[string]any{"evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples, "rule": rule, "violation": h.violation, "seed": h.seed}, "", " ")
	os.WriteFile(p+".mpd", b, 0o644)
}

func vhRun(t *testing.T, rule string, f func(h *vh)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 5
	}
	h := &vh{Rand: rand.New(rand.NewSource(seed*7919 + 17)), deadline: time.Now().Add(time.Duration(secs) * time.Second), distinct: map[uint64]bool{}, seed: seed, thorough: os.Getenv("VERIF_TIER") == "thorough"}
	h.start.Store(time.Now().UnixNano())
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if time.Now().UnixNano()-h.start.Load() > int64(60*time.Second) {
				h.violation = "no answer within 60 s\ncase: " + h.cur
				h.write(rule)
				fmt.Println(h.violation)
				os.Exit(1)
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vhStop); ok {
					return
				}
				h.violation = fmt.Sprintf("panic: %v\ncase: %s\n%s", e, h.cur, debug.Stack())
			}
		}()
		f(h)
	}()
	close(done)
	h.write(rule)
	if h.violation != "" {
		t.Fatal(h.violation)
	}
}
