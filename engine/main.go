package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // open | fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func readKnown() map[string]KnownFinding {
	r := map[string]KnownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return r
	}
	var l struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &l); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, k := range l.Findings {
		r[k.ID] = k
	}
	return r
}

func main() {
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(10 << 30)
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH")+":/usr/local/bin:/usr/bin:/bin")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "only harness")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "tier")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	prof := flag.String("cpuprofile", "", "")
	budget := flag.Int("budget", 0, "override seconds per harness")
	noNative := flag.Bool("nonative", false, "")
	verbose := flag.Bool("v", false, "")
	noEvidence := flag.Bool("noevidence", false, "")
	var ps paramFlag
	flag.Var(&ps, "p", "param override k=v")
	flag.BoolVar(&keepGoing, "keep", false, "explore on after a violation and list one per message")
	replay := flag.String("replay", "", "replay a case file natively")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	code := runCheck(*prop, *only, *tier, seed, *workers, *budget, *noNative, *verbose, *noEvidence, ps)
	pprof.StopCPUProfile()
	os.Exit(code)
}

var keepGoing bool

type paramFlag []string

func (p *paramFlag) String() string     { return "" }
func (p *paramFlag) Set(s string) error { *p = append(*p, s); return nil }

func scratchDir() string {
	d, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		panic(err)
	}
	return d
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println(err)
		return 2
	}
	d := scratchDir()
	defer os.RemoveAll(d)
	n := &Native{dir: d, threads: c.Threads}
	if strings.HasPrefix(c.Message, "data race") {
		ok, out := n.races(c)
		fmt.Print(out)
		if ok {
			return 1
		}
		return 0
	}
	r := n.exec(c)
	fmt.Print(r.raw)
	fmt.Println("=>", r.verdict, r.msg)
	if r.verdict == "ok" {
		return 0
	}
	return 1
}

func runCheck(prop, only, tier string, seed int64, workers, budgetS int, noNative, verbose, noEvidence bool, ps paramFlag) int {
	t0 := time.Now()
	var cfg CheckCfg
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", prop+".json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		fmt.Println("config:", err)
		return 2
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	nat := &Native{dir: dir, threads: cfg.Threads}
	kf := readKnown()
	open := map[string]string{}
	for id, k := range kf {
		if k.Status == "open" {
			open[id] = k.What
		}
	}
	nat.open = sortedKeys(open)
	if !noNative {
		go nat.build()
	}
	ld, err := load()
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	loadT := time.Since(t0)
	type hres struct {
		cfg                HarnessCfg
		ex                 *Explorer
		validated, mism    int
		mismEx             []string
		wall               time.Duration
	}
	var results []*hres
	var confirmed []*Viol
	knownHit := map[string]*Viol{}
	cap := 600
	if tier == "thorough" {
		cap = 3000
	}
	for _, h := range cfg.Harnesses {
		if only != "" && h.Fn != only {
			continue
		}
		params := map[string]int{}
		for k, v := range h.Quick {
			params[k] = v
		}
		bs := h.QBudget
		if bs == 0 {
			bs = 120
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				params[k] = v
			}
			bs = h.TBudget
			if bs == 0 {
				bs = 600
			}
		}
		for _, p := range ps {
			kv := strings.SplitN(p, "=", 2)
			params[kv[0]], _ = strconv.Atoi(kv[1])
		}
		if budgetS > 0 {
			bs = budgetS
		}
		// the whole check stays well inside its time limit
		if left := cap - int(time.Since(t0).Seconds()); bs > left {
			bs = left
			if bs < 5 {
				bs = 5
			}
		}
		if ld.h.Func(h.Fn) == nil {
			fmt.Println("no such harness:", h.Fn)
			return 2
		}
		ht := time.Now()
		ex := &Explorer{ld: ld, cfg: h, params: params, seed: seed, known: open}
		if !noNative {
			att := 1
			if h.MapOrder {
				att = 40
			}
			ex.confirm = func(v *Viol) { v.confirmed = nat.confirms(v, att) }
		}
		ex.run(workers, time.Duration(bs)*time.Second)
		r := &hres{cfg: h, ex: ex}
		results = append(results, r)
		stop := false
		for _, v := range ex.viols {
			if v.confirmed {
				if v.c.Known != "" {
					if knownHit[v.c.Known] == nil {
						knownHit[v.c.Known] = v
					}
				} else {
					confirmed = append(confirmed, v)
					stop = true
				}
			} else if verbose {
				fmt.Printf("UNCONFIRMED %s: %s at %s\n  inputs %v\n  native: %s\n", v.kind, v.c.Message, v.c.Where, v.c.Inputs, v.out)
			}
		}
		// translation validation: native re-execution of sampled paths
		if !noNative && !stop {
			for _, c := range ex.samples {
				if c.Harness == "" {
					continue
				}
				nr := nat.exec(c)
				if nr.verdict == "violation" || nr.verdict == "panic" || nr.verdict == "hang" {
					c.Message = nr.msg
					v := &Viol{kind: "native", c: c, confirmed: true, out: nr.raw}
					confirmed = append(confirmed, v)
					break
				}
				if nr.verdict == "ok" && strings.Join(nr.obs, "\n") == strings.Join(c.Obs, "\n") {
					r.validated++
				} else {
					r.mism++
					if len(r.mismEx) < 3 {
						r.mismEx = append(r.mismEx, fmt.Sprintf("%s %s inputs=%v\n want %v\n got  %v", nr.verdict, nr.msg, c.Inputs, c.Obs, nr.obs))
					}
				}
			}
		}
		r.wall = time.Since(ht)
		fmt.Printf("%s %s: paths=%d decided=%d forks=%d checks(sym=%d conc=%d) queries=%d (sat %d unsat %d unk %d, %.1fs) steps=%dk depth=%d ends=%v exhausted=%v validated=%d mismatches=%d init=%.1fs wall=%.1fs\n",
			prop, h.Fn, ex.stats.Paths, ex.decided, ex.stats.Forks, ex.stats.ChecksSym, ex.stats.ChecksConc, ex.solver.q, ex.solver.sat, ex.solver.unsat, ex.solver.unk, ex.solver.t.Seconds(), ex.stats.Steps/1000, ex.maxDepth, ex.ends, !ex.timedOut, r.validated, r.mism, ex.initT.Seconds(), r.wall.Seconds())
		if verbose || r.mism > 0 {
			for _, k := range sortedKeys(ex.endEx) {
				fmt.Println("   end:", k)
			}
			for _, k := range sortedKeys(ex.reach) {
				fmt.Println("   reach:", k, ex.reach[k])
			}
			for _, x := range r.mismEx {
				fmt.Println("   MISMATCH", x)
			}
		}
		if stop && !keepGoing {
			break
		}
	}
	exit := 0
	// evidence
	var states, trans, traces int64
	var samples []any
	hs := []any{}
	fns := map[string]bool{}
	reduced := []string{}
	unconfirmed := 0
	for _, r := range results {
		ex := r.ex
		states += ex.stats.Decisions + ex.stats.Paths
		trans += ex.stats.Forks + ex.stats.Paths
		traces += int64(r.validated)
		for f := range ex.covered {
			if strings.Contains(f, modPath) && !strings.Contains(f, "zz_verif") {
				fns[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
		unc := []any{}
		for _, v := range ex.viols {
			if !v.confirmed {
				unconfirmed++
				unc = append(unc, map[string]any{"message": v.c.Message, "inputs": v.c.Inputs})
			}
		}
		for i, c := range ex.samples {
			if i < 2 && c.Harness != "" {
				samples = append(samples, map[string]any{"harness": c.Harness, "inputs": c.Inputs, "observations": c.Obs})
			}
		}
		if ex.timedOut {
			reduced = append(reduced, r.cfg.Fn+": time budget ended the exploration before all paths were covered")
		}
		for _, k := range []string{"unsupported", "steps", "unknown", "huge-alloc", "bootstrap-failed"} {
			if n := ex.ends[k]; n > 0 {
				reduced = append(reduced, fmt.Sprintf("%s: %d paths ended as %s", r.cfg.Fn, n, k))
			}
		}
		if r.mism > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d sampled paths behaved differently natively", r.cfg.Fn, r.mism))
		}
		if ex.decided == 0 && len(confirmed) == 0 {
			fmt.Printf("error: harness %s decided nothing: %v %v\n", r.cfg.Fn, ex.ends, sortedKeys(ex.endEx))
			exit = 2
		}
		hs = append(hs, map[string]any{"harness": r.cfg.Fn, "parameters": ex.params, "bound": r.cfg.Bound, "paths_explored": ex.stats.Paths, "paths_completed": ex.decided, "exhausted_within_bound": !ex.timedOut,
			"path_ends": ex.ends, "end_details": sortedKeys(ex.endEx), "reachability_witnesses": ex.reach, "assertions_discharged_by_query": ex.stats.ChecksSym, "assertions_decided_by_path_condition": ex.stats.ChecksConc, "assertions_unknown": ex.stats.ChecksUnknown,
			"solver_queries": ex.solver.q, "solver_sat": ex.solver.sat, "solver_unsat": ex.solver.unsat, "solver_unknown": ex.solver.unk, "solver_seconds": ex.solver.t.Seconds(),
			"ssa_instructions_executed": ex.stats.Steps, "max_decision_depth": ex.maxDepth, "arbitrary_map_order": r.cfg.MapOrder, "traces_validated": r.validated, "trace_mismatches": r.mism, "unconfirmed_counterexamples": unc, "wall_s": r.wall.Seconds()})
	}
	fl := sortedKeys(fns)
	if !noEvidence && only == "" {
		if samples == nil {
			samples = []any{}
		}
		exhaustive := len(reduced) == 0
		evd := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]any{
				"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
				"explanation":       "states = solver decisions taken plus path ends of the symbolic execution of the real code; transitions = explored branch edges; each path stands for every input satisfying its path condition",
				"harnesses":         hs,
				"functions_encoded": fl, "functions_encoded_count": len(fl),
				"solver":         "z3 4.8.12 over SMT-LIB2 bit-vectors",
				"reduced_bounds": reduced, "exhaustive": exhaustive, "load_s": loadT.Seconds(),
				"unconfirmed_counterexamples": unconfirmed,
				"known_findings_seen":         sortedKeys(knownHit),
			},
			"assumptions": cfg.Assumptions,
			"wall_s":      time.Since(t0).Seconds(),
			"violations":  len(confirmed),
		}
		jb, _ := json.MarshalIndent(evd, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), jb, 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	for _, id := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, open[id])
	}
	if len(confirmed) > 0 {
		sort.SliceStable(confirmed, func(i, j int) bool { return len(confirmed[i].c.Inputs) < len(confirmed[j].c.Inputs) })
		rd := filepath.Join(verifDir, "out")
		os.MkdirAll(rd, 0o755)
		seen := map[string]bool{}
		n := 0
		for _, v := range confirmed {
			if seen[v.c.Message] || (n >= 3 && !keepGoing) {
				continue
			}
			seen[v.c.Message] = true
			i := n
			n++
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, i))
			jb, _ := json.MarshalIndent(v.c, "", " ")
			os.WriteFile(p, jb, 0o644)
			fmt.Printf("  %s: %s [%s] at %s\n   inputs:", v.kind, v.c.Message, v.c.Harness, v.c.Where)
			for _, in := range v.c.Inputs {
				fmt.Printf(" %s=%s", in.Name, in.Val)
			}
			fmt.Println()
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if len(reduced) > 0 {
		fmt.Println("reduced bounds:", strings.Join(reduced, "; "))
	}
	return exit
}

var _ = exec.Command
