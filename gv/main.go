package main

import (
	"runtime/pprof"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type OblOut struct {
	Function string   `json:"function"`
	Kind     string   `json:"kind"`
	Label    string   `json:"label"`
	Pos      string   `json:"pos,omitempty"`
	Result   string   `json:"result"`
	By       string   `json:"by,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Seconds  float64  `json:"seconds"`
	Goal     string   `json:"goal,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Query    string   `json:"query,omitempty"`
}

type FnOut struct {
	Function   string  `json:"function"`
	Contract   string  `json:"contract"`
	Obls       int     `json:"obligations"`
	Discharged int     `json:"discharged"`
	Seconds    float64 `json:"seconds"`
	Steps      int     `json:"steps"`
	Error      string  `json:"error,omitempty"`
	Trusted    bool    `json:"trusted,omitempty"`
}

type Report struct {
	Property    string             `json:"property"`
	Functions   []FnOut            `json:"functions"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	ByKind      map[string]int     `json:"by_kind"`
	ByBackend   map[string]int     `json:"by_backend"`
	SolverTime  map[string]float64 `json:"solver_seconds"`
	Queries     int                `json:"queries"`
	FeasQueries int                `json:"feasibility_queries"`
	FeasSeconds float64            `json:"feasibility_seconds"`
	InvQueries  int                `json:"invariant_queries"`
	Failed      []OblOut           `json:"failed"`
	Assumptions []string           `json:"assumptions"`
	Inlined     []string           `json:"inlined"`
	Used        []string           `json:"contracts_used"`
	Dropped     []string           `json:"dropped,omitempty"`
	Wall        float64            `json:"wall_s"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "contract name(s) to verify")
	out := flag.String("out", "", "report file")
	verbose := flag.Bool("v", false, "")
	limit := flag.Int("limit", 700, "seconds")
	noTrans := flag.Bool("shallow", false, "don't verify the contracts that are used")
	ms := flag.Int("ms", 0, "full solver time limit per query in ms")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if f := os.Getenv("GV_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	if *ms > 0 {
		fullMS = *ms
	}
	wd, err := os.MkdirTemp("", "gv")
	if err != nil {
		panic(err)
	}
	workDir = wd
	if keepFiles {
		fmt.Fprintln(os.Stderr, "work directory", wd)
	} else {
		defer os.RemoveAll(wd)
	}
	ld, err := load(*repo, *spec, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gv:", err)
		os.Exit(2)
	}
	x := ld.x
	if *list {
		for _, c := range ld.all {
			fmt.Println(c.obj.Name(), "=", c.name, c.Props)
		}
		return
	}
	end := t0.Add(time.Duration(*limit) * time.Second)
	x.deadline = func() bool { return time.Now().After(end) }
	hasProp := func(ps []string) bool {
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	var todo []*Contract
	for _, c := range ld.all {
		if *only != "" {
			for _, n := range strings.Split(*only, ";") {
				if c.name == n || c.obj.Name() == n {
					todo = append(todo, c)
				}
			}
			continue
		}
		if *prop == "all" || hasProp(c.Props) {
			todo = append(todo, c)
		}
	}
	rep := &Report{Property: *prop, ByKind: map[string]int{}, ByBackend: map[string]int{}, SolverTime: stats.Time}
	for _, b := range ld.broken {
		if ps := ld.brokenP[b]; hasProp(ps) || len(ps) == 0 || *prop == "all" {
			rep.Failed = append(rep.Failed, OblOut{Function: b, Kind: "contract", Label: "the contract fits the code", Result: "unknown"})
			rep.Obligations++
		}
	}
	seen := map[*Contract]bool{}
	type span struct{ a, b int }
	spans := map[int]span{}
	for i := 0; i < len(todo); i++ {
		c := todo[i]
		if seen[c] {
			continue
		}
		seen[c] = true
		fo := FnOut{Function: c.name, Contract: c.obj.Name(), Trusted: c.trusted}
		if !c.trusted {
			ts := time.Now()
			a := len(x.obs)
			s0 := x.steps
			if x.inc != nil {
				x.inc.close()
			}
			x.inc = newInc(1500)
			if c.opaque != opaqueMode {
				opaqueMode = c.opaque
				compSorts = map[string]Sort{}
			}
			x.cur = c
			for _, sf := range x.spec.funcs {
				sf.ready = false
				sf.impl = nil
				sf.templ = nil
			}
			if *verbose {
				fmt.Fprintf(os.Stderr, "== %s (%s)\n", c.name, c.obj.Name())
			}
			err := x.verify(c)
			if err != nil {
				fo.Error = err.Error()
				o := &Obl{Fn: c.name, Kind: "unsupported", Label: err.Error(), Goal: False, done: make(chan struct{}), Out: Outcome{R: Unknown, Detail: err.Error()}, Props: c.Props}
				close(o.done)
				x.obs = append(x.obs, o)
			}
			fo.Steps = x.steps - s0
			fo.Seconds = time.Since(ts).Seconds()
			spans[len(rep.Functions)] = span{a, len(x.obs)}
			if *verbose {
				fmt.Fprintf(os.Stderr, "   %d obligations, %d steps, %.1fs\n", len(x.obs)-a, fo.Steps, fo.Seconds)
			}
		}
		rep.Functions = append(rep.Functions, fo)
		if !*noTrans && *only == "" {
			for _, d := range ld.all {
				if x.used[d.name] && !d.local && !seen[d] {
					todo = append(todo, d)
				}
			}
		}
	}
	if *verbose {
		for _, b := range ld.broken {
			fmt.Fprintf(os.Stderr, "FAILED %s\n", b)
		}
	}
	if x.inc != nil {
		x.inc.close()
	}
	for i := range rep.Functions {
		fo := &rep.Functions[i]
		sp := spans[i]
		for _, o := range x.obs[sp.a:sp.b] {
			<-o.done
			rep.Obligations++
			fo.Obls++
			rep.ByKind[o.Kind]++
			if o.Out.R == Proved {
				rep.Discharged++
				fo.Discharged++
				rep.ByBackend[o.Out.By]++
				continue
			}
			f := OblOut{Function: o.Fn, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Result: o.Out.R.String(), By: o.Out.By, Detail: o.Out.Detail, Seconds: o.Out.Elapsed, Trace: o.Trace}
			if o.Goal != nil {
				f.Goal = clip(o.Goal.String(), 3000)
			}
			if len(rep.Failed) < 12 {
				f.Query = clip(o.Query, 200000)
			}
			rep.Failed = append(rep.Failed, f)
			if *verbose {
				fmt.Fprintf(os.Stderr, "FAILED %s: %s %q at %s: %s %s\n  goal %s\n  trace %v\n", o.Fn, o.Kind, o.Label, o.Pos, o.Out.R, o.Out.Detail, clip(f.Goal, 600), tail(o.Trace, 12))
			}
		}
	}
	stats.mu.Lock()
	rep.Queries, rep.FeasQueries, rep.FeasSeconds, rep.InvQueries = stats.Queries, stats.Feas, stats.FeasT, stats.Inv
	stats.mu.Unlock()
	rep.Assumptions = sortedKeys(x.trusted)
	rep.Inlined = sortedKeys(x.inlined)
	rep.Used = sortedKeys(x.used)
	rep.Dropped = x.dropped
	rep.Wall = time.Since(t0).Seconds()
	sort.SliceStable(rep.Failed, func(i, j int) bool { return false })
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("gv %s: %d functions, %d/%d obligations discharged, %d failed, %.1fs (feasibility %d queries %.1fs, invariants %d)\n", *prop, len(rep.Functions), rep.Discharged, rep.Obligations, len(rep.Failed), rep.Wall, rep.FeasQueries, rep.FeasSeconds, rep.InvQueries)
	if len(rep.Failed) > 0 {
		if !keepFiles {
			os.RemoveAll(wd)
		}
		os.Exit(1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
