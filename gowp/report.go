package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// verifyAll verifies the contracts and, transitively, the contracts they rely
// on, several at a time in processes of their own. A helper contract (directive
// helper) that fails is not relied on: its users are verified again with the
// helper's body in its place.
func (v *Verifier) verifyAll(cs []*Contract, budget, total time.Duration, par int, run func(name string, noUse []string, budget time.Duration) *childRep) []*childRep {
	start := time.Now()
	in := map[*Contract]bool{}
	reps := map[*Contract]*childRep{}
	var order []*Contract
	noUse := map[string]bool{}
	round := func(todo []*Contract) {
		work := make(chan *Contract, 10000)
		var mu sync.Mutex
		left := 0
		add := func(c *Contract) { // with mu
			if !c.Trusted && !in[c] {
				in[c] = true
				order = append(order, c)
				left++
				work <- c
			}
		}
		mu.Lock()
		for _, c := range todo {
			add(c)
		}
		if left == 0 {
			close(work)
		}
		no := sortedNames(noUse)
		mu.Unlock()
		var wg sync.WaitGroup
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c := range work {
					b := budget
					if l := total - time.Since(start); l < b {
						b = l
					}
					if b < time.Second {
						b = time.Second
					}
					r := run(c.Name, no, b)
					mu.Lock()
					reps[c] = r
					for _, u := range r.Rep.Used {
						if k := v.byName[u]; k != nil {
							add(k)
						}
					}
					left--
					if left == 0 {
						close(work)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	todo := cs
	for {
		round(todo)
		todo = nil
		for _, c := range append([]*Contract{}, order...) {
			if c.Helper && !noUse[c.Name] && !reps[c].Rep.OK {
				noUse[c.Name] = true
				reps[c].Rep.Excused = true
			}
		}
		var keep []*Contract
		for _, c := range order {
			redo := false
			if !reps[c].Rep.Excused {
				for _, u := range reps[c].Rep.Used {
					redo = redo || noUse[u]
				}
			}
			if redo {
				in[c] = false
				todo = append(todo, c)
			} else {
				keep = append(keep, c)
			}
		}
		if len(todo) == 0 {
			break
		}
		order = keep
	}
	var out []*childRep
	for _, c := range order {
		out = append(out, reps[c])
	}
	return out
}

func sortedNames(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// childRep is what a process reports about one contract.
type childRep struct {
	Rep        jsonRep
	Text       string
	SolverTime float64
	SolverRuns int64
}

func (r *Report) text() string {
	var w strings.Builder
	status := "OK"
	if !r.ok() {
		status = "FAIL"
		if r.Excused {
			status = "SKIP"
		}
	}
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		}
	}
	fmt.Fprintf(&w, "%-4s %-40s %d/%d obligations, %d paths, %.1fs", status, r.Contract.Name, ok, len(r.Obls), r.Paths, r.Seconds)
	if !r.Covered {
		fmt.Fprint(&w, " NOT-COVERED")
	}
	if r.Unsupported != "" {
		fmt.Fprint(&w, " UNSUPPORTED: ", r.Unsupported)
	}
	fmt.Fprintln(&w)
	seen := map[string]bool{}
	for _, o := range r.Obls {
		if !o.OK {
			k := fmt.Sprintf("     %s [%s %s] %s %s", o.Name, o.Func, o.Pos, o.Result.Status, o.Result.Solver)
			if !seen[k] {
				seen[k] = true
				fmt.Fprintln(&w, k)
				if os.Getenv("GOWP_GOAL") != "" {
					fmt.Fprintln(&w, "       goal:", o.Goal)
					for _, t := range o.PC {
						fmt.Fprintln(&w, "         pc:", t)
					}
				}
				if o.Result.Status == "error" {
					raw := o.Result.Raw
					if len(raw) > 400 {
						raw = raw[:400]
					}
					fmt.Fprintln(&w, raw)
				}
			}
		}
	}
	for _, n := range r.Notes {
		fmt.Fprintln(&w, "     note:", n)
	}
	return w.String()
}

type jsonObl struct {
	Name    string  `json:"name"`
	Func    string  `json:"func"`
	Pos     string  `json:"pos"`
	OK      bool    `json:"ok"`
	Status  string  `json:"status,omitempty"`
	Solver  string  `json:"solver,omitempty"`
	Seconds float64 `json:"seconds,omitempty"`
	Count   int     `json:"count"`
	Goal    string  `json:"goal,omitempty"`
	Raw     string  `json:"raw,omitempty"`
}
type jsonRep struct {
	Contract    string         `json:"contract"`
	Doc         string         `json:"doc"`
	Target      string         `json:"target"`
	File        string         `json:"file"`
	Props       []string       `json:"props"`
	OK          bool           `json:"ok"`
	Excused     bool           `json:"excused,omitempty"`
	Covered     bool           `json:"covered"`
	Unsupported string         `json:"unsupported,omitempty"`
	Total       int            `json:"total"`
	Discharged  int            `json:"discharged"`
	Trivial     int            `json:"trivial"`
	BySolver    map[string]int `json:"by_solver"`
	Kinds       map[string]int `json:"kinds"`
	Failed      []jsonObl      `json:"failed,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Used        []string       `json:"used,omitempty"`
	Models      []string       `json:"models,omitempty"`
	Assumptions []string       `json:"assumptions,omitempty"`
	Notes       []string       `json:"notes,omitempty"`
	Seconds     float64        `json:"seconds"`
	Paths       int            `json:"paths"`
}

func (r *Report) json() jsonRep {
	j := jsonRep{Contract: r.Contract.Name, Doc: r.Contract.Doc, Target: r.Contract.TargetName, File: r.Contract.File, Props: r.Contract.Props, OK: r.ok(), Excused: r.Excused, Covered: r.Covered, Unsupported: r.Unsupported, BySolver: map[string]int{}, Kinds: map[string]int{}, Inlined: r.Inlined, Used: r.Used, Models: r.Models, Assumptions: r.Assumptions, Notes: r.Notes, Seconds: r.Seconds, Paths: r.Paths}
	fails := map[string]*jsonObl{}
	for _, o := range r.Obls {
		j.Total++
		j.Kinds[o.Kind]++
		if o.OK {
			j.Discharged++
			if o.Trivial {
				j.Trivial++
				j.BySolver["simplifier"]++
			} else {
				j.BySolver[o.Result.Solver]++
			}
			continue
		}
		if f, ok := fails[o.Name+o.Pos]; ok {
			f.Count++
			continue
		}
		g := ""
		if o.Goal != nil {
			g = o.Goal.String()
			if len(g) > 1500 {
				g = g[:1500] + "..."
			}
		}
		raw := o.Result.Raw
		if len(raw) > 1500 {
			raw = raw[:1500]
		}
		fails[o.Name+o.Pos] = &jsonObl{Name: o.Name, Func: o.Func, Pos: o.Pos, Status: o.Result.Status, Solver: o.Result.Solver, Seconds: o.Result.Seconds, Count: 1, Goal: g, Raw: raw}
	}
	var ks []string
	for k := range fails {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		j.Failed = append(j.Failed, *fails[k])
	}
	return j
}

func writeReport(path string, v *Verifier, reps []*childRep, secs float64) error {
	var out struct {
		Contracts  []jsonRep `json:"contracts"`
		Dropped    []string  `json:"dropped"`
		Missing    []string  `json:"missing"`
		MissingReq []string  `json:"missing_required"`
		Trusted    []string  `json:"trusted"`
		SolverTime float64   `json:"solver_seconds"`
		SolverRuns int64     `json:"solver_runs"`
		Seconds    float64   `json:"seconds"`
	}
	out.Dropped, out.Missing, out.MissingReq = v.dropped, v.missing, v.missingReq
	for _, c := range v.contracts {
		if c.Trusted {
			out.Trusted = append(out.Trusted, c.TargetName+": "+c.Doc)
		}
	}
	for _, r := range reps {
		out.Contracts = append(out.Contracts, r.Rep)
		out.SolverTime += r.SolverTime
		out.SolverRuns += r.SolverRuns
	}
	out.Seconds = secs
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
