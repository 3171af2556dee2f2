package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(3)
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "", "harness package, e.g. ./c15")
	only := flag.String("run", "", "only harnesses whose name contains this")
	evidence := flag.String("evidence", "", "evidence file")
	replayDir := flag.String("replays", "/verif/replays", "directory for counterexample files")
	knownFile := flag.String("known", "/verif/known_findings.json", "known findings")
	trace := flag.Bool("trace", false, "trace")
	prof := flag.Bool("profile", false, "profile forks")
	slow := flag.Float64("slow", 0, "report queries slower than this many seconds")
	nw := flag.Int("j", 0, "workers")
	budget := flag.Float64("budget", 780, "overall budget in seconds")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	slowQ = time.Duration(*slow * float64(time.Second))
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	workers := *nw
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}

	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	exit := func(c int) {
		os.RemoveAll(scratch)
		os.Exit(c)
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly")

	// native build in the background
	native := filepath.Join(scratch, "native")
	buildErr := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-o", native, *pkg)
		cmd.Dir = *dir
		cmd.Env = env
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		buildErr <- err
	}()

	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir, Env: env}
	initial, err := packages.Load(cfg, *pkg)
	if err != nil || len(initial) != 1 {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(initial) > 0 {
		fatal("the harness does not compile against /repo")
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	if err := <-buildErr; err != nil {
		fatal("native build: %v", err)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	mainPkg := pkgs[0]

	known := loadKnown(*knownFile)

	// harness functions with their directives
	var hs []HarnessCfg
	for _, f := range initial[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			if *only != "" && !strings.Contains(fd.Name.Name, *only) {
				continue
			}
			h := HarnessCfg{Name: fd.Name.Name, Paths: 200000, Time: 150 * time.Second, Merge: true, Instrs: 3000000, Replays: 60, AssertTO: 8000}
			if fd.Doc != nil {
				h.Doc = strings.TrimSpace(fd.Doc.Text())
				for _, c := range fd.Doc.List {
					if t := strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "); strings.HasPrefix(t, "sym:") {
						parseDirective(&h, strings.TrimPrefix(t, "sym:"), tier)
					}
				}
			}
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if len(hs) == 0 {
		fatal("no harness")
	}

	rt := lookupType(prog, "runtime", "Error")
	errStr := lookupPtrType(prog, "errors", "errorString")
	wrap := lookupPtrType(prog, "fmt", "wrapError")
	_ = rt

	var all []*Explorer
	viol := 0
	for i := range hs {
		h := hs[i]
		left := time.Duration(*budget*float64(time.Second)) - time.Since(t0)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		if h.Time > left {
			h.Time = left
		}
		x := &Explorer{prog: prog, mainPkg: mainPkg, cfg: h, native: native, scratch: scratch, tier: tier, seed: seed,
			maxInstr: h.Instrs, merge: h.Merge, mapOrder: h.MapOrd, trace: *trace, profile: *prof,
			rtErrType: types.Typ[types.String], errStrT: errStr, wrapErrType: wrap,
			inconclusive: map[string]int{}, notes: map[string]bool{}, covers: map[string]int{}, fnEncoded: map[string]bool{},
			forkSites: map[string]int{}, covWitness: map[string]int{}, knownIDs: map[string]bool{}}
		for _, k := range known {
			if k.Property == *prop && k.Status != "fixed" {
				x.knownIDs[k.ID] = true
			}
		}
		x.harness = mainPkg.Func(h.Name)
		ht := time.Now()
		nwk := workers
		if *trace {
			nwk = 1
		}
		q0 := atomic.LoadInt64(&stats.queries)
		x.run(nwk)
		all = append(all, x)
		if *verbose || *trace || *prof {
			fmt.Fprintf(os.Stderr, "%-32s %6.1fs paths %d completed %d infeasible %d asserts %d (const %d, proved %d) queries %d replays %d/%d budget-hit %v\n", h.Name, time.Since(ht).Seconds(), x.paths, x.completed, x.infeasible, x.asserts, x.assertConst, x.assertProved, stats.queries-q0, x.replayOK, x.replays, x.budget)
			for k, n := range x.inconclusive {
				fmt.Fprintf(os.Stderr, "   inconclusive x%d: %s\n", n, k)
			}
			for _, u := range x.unconfirmed {
				fmt.Fprintf(os.Stderr, "   unconfirmed: %s %v native=%s\n", u.Msg, u.Inputs, u.Native)
			}
			for _, c := range h.Covers {
				if x.covWitness[c] == 0 {
					fmt.Fprintf(os.Stderr, "   cover goal not witnessed: %s (reached %d)\n", c, x.covers[c])
				}
			}
			for n := range x.notes {
				fmt.Fprintf(os.Stderr, "   note: %s\n", n)
			}
			if *prof {
				type kv struct {
					k string
					n int
				}
				var s []kv
				for k, n := range x.forkSites {
					s = append(s, kv{k, n})
				}
				sort.Slice(s, func(i, j int) bool { return s[i].n > s[j].n })
				for i, e := range s {
					if i < 15 {
						fmt.Fprintf(os.Stderr, "   fork %6d %s\n", e.n, e.k)
					}
				}
			}
		}
		if len(x.violations) > 0 {
			viol += len(x.violations)
			break
		}
	}

	// report
	kf := map[string]bool{}
	for _, x := range all {
		for _, v := range x.known {
			for _, k := range known {
				if k.Property == *prop && strings.HasPrefix(v.Msg, "["+k.ID+"]") && !kf[k.ID] {
					kf[k.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
			}
		}
	}
	if *evidence != "" {
		writeEvidence(*evidence, *prop, tier, seed, all, hs, time.Since(t0), viol)
	}
	code := 0
	for _, x := range all {
		for i, v := range x.violations {
			os.MkdirAll(*replayDir, 0755)
			fn := filepath.Join(*replayDir, fmt.Sprintf("%s_%s_%d.json", *prop, v.Harness, i))
			b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": v.Harness, "package": *pkg, "message": v.Msg, "kind": v.Kind, "where": v.Where, "inputs": v.Inputs, "native": v.Native, "tier": tier}, "", " ")
			os.WriteFile(fn, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, fn)
			fmt.Printf("  %s: %s\n  native: %s\n  inputs: %v\n", v.Harness, v.Msg, v.Native, v.Inputs)
			code = 1
		}
	}
	if code == 0 {
		inc := 0
		for _, x := range all {
			for _, n := range x.inconclusive {
				inc += n
			}
		}
		fmt.Printf("OK property=%s harnesses=%d inconclusive=%d wall=%.1fs\n", *prop, len(all), inc, time.Since(t0).Seconds())
	}
	exit(code)
}

func parseDirective(h *HarnessCfg, s string, tier string) {
	for _, kv := range strings.Fields(s) {
		p := strings.SplitN(kv, "=", 2)
		v := ""
		if len(p) == 2 {
			v = p[1]
		}
		k := p[0]
		if strings.HasSuffix(k, "@thorough") {
			if tier != "thorough" {
				continue
			}
			k = strings.TrimSuffix(k, "@thorough")
		}
		n, _ := strconv.Atoi(v)
		switch k {
		case "paths":
			h.Paths = n
		case "time":
			h.Time = time.Duration(n) * time.Second
		case "merge":
			h.Merge = v != "off"
		case "maporder":
			h.MapOrd = v == "on"
		case "covers":
			h.Covers = append(h.Covers, strings.Split(v, ",")...)
		case "instrs":
			h.Instrs = n
		case "replays":
			h.Replays = n
		case "assertto":
			h.AssertTO = n
		default:
			fatal("unknown directive %q", kv)
		}
	}
}

func lookupType(prog *ssa.Program, pkg, name string) types.Type {
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
func lookupPtrType(prog *ssa.Program, pkg, name string) types.Type {
	if t := lookupType(prog, pkg, name); t != nil {
		return types.NewPointer(t)
	}
	return nil
}

func loadKnown(f string) []knownFinding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var r struct {
		Findings []knownFinding `json:"findings"`
	}
	json.Unmarshal(b, &r)
	return r.Findings
}

func writeEvidence(file, prop, tier string, seed int64, all []*Explorer, hs []HarnessCfg, wall time.Duration, viol int) {
	fns := map[string]bool{}
	inc := map[string]int{}
	notes := map[string]bool{}
	var states, trans, replays, replayOK int64
	var harn []any
	var samples []any
	exhaustive := viol == 0
	var asserts, aconst, aproved int64
	for _, x := range all {
		for f := range x.fnEncoded {
			fns[f] = true
		}
		for k, n := range x.inconclusive {
			inc[k] += n
		}
		for k := range x.notes {
			notes[k] = true
		}
		states += x.decisions + x.completed
		trans += x.decisions
		replays += x.replays
		replayOK += x.replayOK
		asserts += x.asserts
		aconst += x.assertConst
		aproved += x.assertProved
		if x.budget || len(x.inconclusive) > 0 {
			exhaustive = false
		}
		var missing []string
		for _, c := range x.cfg.Covers {
			if x.covWitness[c] == 0 {
				missing = append(missing, c)
			}
		}
		for _, s := range x.samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": x.cfg.Name, "inputs": s})
			}
		}
		harn = append(harn, map[string]any{"name": x.cfg.Name, "what_and_bounds": x.cfg.Doc, "paths_started": x.paths, "paths_completed": x.completed, "paths_infeasible": x.infeasible,
			"branch_decisions": x.decisions, "merged_joins": x.mergeN, "ssa_instructions": x.instrs, "assertions_decided_by_solver": x.assertProved, "assertions_trivially_true": x.assertConst, "assertions_total": x.asserts,
			"cover_goals": x.cfg.Covers, "cover_goals_not_witnessed": missing, "budget_exhausted": x.budget, "native_replays": x.replays, "native_replays_matching": x.replayOK, "unknown_branch_queries_treated_as_feasible": x.unknownBr})
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": replayOK, "samples": samples,
		"functions_encoded": sortedKeys(fns), "functions_encoded_count": len(fns), "harnesses": harn,
		"solver":       map[string]any{"engine": "z3-new (live, incremental) with z3/cvc5/z3-new one-shot fallback", "queries": stats.queries, "sat": stats.sat, "unsat": stats.unsat, "unknown": stats.unknown, "fallback_queries": stats.fallback, "decided_by_linear_abstraction": stats.linear, "models_by_fixing_factors": stats.guess, "solver_seconds": float64(stats.solverNS) / 1e9},
		"assertions":   map[string]any{"reached": asserts, "decided_by_solver": aproved, "trivially_true_after_simplification": aconst},
		"inconclusive": inc, "exhaustive": exhaustive,
		"rule": "states = symbolic branch nodes plus completed symbolic paths; transitions = symbolic branch decisions (forced, forked or merged); traces_validated_against_impl = solver witnesses of completed paths replayed on the natively compiled code with matching observations",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol}
	as := []string{"bounds: see coverage.harnesses[].what_and_bounds; nothing is claimed outside them", "float32/float64 arithmetic is modelled as exact reals plus an arbitrary error within the IEEE relative rounding bound; no underflow, overflow or NaN inside the stated ranges"}
	as = append(as, sortedKeys(notes)...)
	ev["assumptions"] = as
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(file), 0755)
	os.WriteFile(file, append(b, '\n'), 0644)
}
