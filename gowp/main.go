package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var printMu sync.Mutex

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "contract name (prefix*)")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Int("budget", 120, "seconds per contract")
	total := flag.Int("total", 700, "seconds for all contracts")
	out := flag.String("out", "", "report file (json)")
	child := flag.String("child", "", "verify this contract only and print the report")
	nouse := flag.String("nouse", "", "contracts not to rely on")
	par := flag.Int("par", 5, "contracts verified at a time")
	flag.Parse()
	t0 := time.Now()
	v, err := load(*repo, *dir, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	v.verbose = *verbose
	if *verbose {
		fmt.Printf("loaded in %.1fs, %d contracts; dropped %v; missing %v\n", time.Since(t0).Seconds(), len(v.contracts), v.dropped, v.missing)
	}
	if p := os.Getenv("GOWP_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *child != "" {
		for _, n := range strings.Split(*nouse, ",") {
			if k := v.byName[n]; k != nil {
				k.NoUse = true
			}
		}
		// invariants bound to the variables they name; if that does not do,
		// to any variables of the right types
		v.exactOnly = true
		bud := time.Duration(*budget) * time.Second
		t0 := time.Now()
		r := v.verify(v.byName[*child], bud/2)
		if !r.ok() && v.trimmed {
			if os.Getenv("GOWP_EXACT") != "" {
				fmt.Println(r.text())
			}
			v.exactOnly = false
			r = v.verify(v.byName[*child], bud-time.Since(t0))
		}
		cr := childRep{Rep: r.json(), Text: r.text(), SolverTime: float64(atomic.LoadInt64(&solverTime)) / 1e9, SolverRuns: atomic.LoadInt64(&solverRuns)}
		b, err := json.Marshal(cr)
		if err == nil {
			err = os.WriteFile(*out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	var todo []*Contract
	for _, c := range v.contracts {
		if c.Trusted {
			continue
		}
		if *only != "" && !match(strings.Split(*only, ","), c.Name) {
			continue
		}
		if *prop != "" && !contains(c.Props, *prop) {
			continue
		}
		todo = append(todo, c)
	}
	tmp, err := os.MkdirTemp("", "gowp")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	run := func(name string, noUse []string, budget time.Duration) *childRep {
		f := filepath.Join(tmp, name+".json")
		os.Remove(f)
		ctx, cancel := context.WithTimeout(context.Background(), budget+90*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0], "-repo", *repo, "-contracts", *dir, "-child", name, "-nouse", strings.Join(noUse, ","), "-budget", fmt.Sprint(int(budget/time.Second)), "-out", f)
		var errb strings.Builder
		cmd.Stderr = &errb
		cmd.Stdout = &errb
		err := cmd.Run()
		var cr childRep
		if b, e2 := os.ReadFile(f); e2 == nil && err == nil {
			err = json.Unmarshal(b, &cr)
		} else if err == nil {
			err = e2
		}
		if err != nil {
			c := v.byName[name]
			msg := errb.String()
			if len(msg) > 2000 {
				msg = msg[:2000]
			}
			cr = childRep{Rep: jsonRep{Contract: name, Doc: c.Doc, Target: c.TargetName, File: c.File, Props: c.Props, Unsupported: fmt.Sprintf("the verifier failed: %v %s", err, msg)}}
			cr.Text = "FAIL " + name + " " + cr.Rep.Unsupported + "\n"
		}
		if *verbose {
			printMu.Lock()
			fmt.Print(cr.Text)
			printMu.Unlock()
		}
		return &cr
	}
	reps := v.verifyAll(todo, time.Duration(*budget)*time.Second, time.Duration(*total)*time.Second, *par, run)
	bad := 0
	for _, r := range reps {
		if !r.Rep.OK && !r.Rep.Excused {
			bad++
		}
	}
	if *out != "" {
		if err := writeReport(*out, v, reps, time.Since(t0).Seconds()); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%d contracts, %d not verified, %.1fs\n", len(reps), bad, time.Since(t0).Seconds())
	if bad > 0 {
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}
