package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessSpec struct {
	Fn      string           `json:"fn"`
	Budget  int              `json:"budget"`
	Params  map[string]int64 `json:"params"`
	Reach   []string         `json:"reach"` // labels that must be reached (vacuity guard)
	Bounds  string           `json:"bounds"`
	Stress  bool             `json:"stress"`  // schedule-dependent: repeat the native replay
	Finding bool             `json:"finding"` // demonstrates a listed known finding
}

type PropSpec struct {
	Pkg         string        `json:"pkg"`
	Level       string        `json:"level"`
	Bounds      string        `json:"bounds"`
	Outside     string        `json:"outside"`
	Assumptions []string      `json:"assumptions"`
	Quick       []HarnessSpec `json:"quick"`
	Thorough    []HarnessSpec `json:"thorough"`
}

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Input    string `json:"input"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit"`
}

type replayer struct {
	e     *Engine
	pkg   *ssa.Package
	tmp   string
	mu    sync.Mutex
	bin   string
	race  string
	err   error
	tried bool
}

func exportedHarnesses(p *ssa.Package) []string {
	var out []string
	for n, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		sig := f.Signature
		if f.Object() == nil || !f.Object().Exported() || sig.Params().Len() != 0 || sig.Results().Len() != 0 || sig.TypeParams().Len() != 0 {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (r *replayer) build(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if race && r.race != "" {
		return r.race, nil
	}
	if !race && r.bin != "" {
		return r.bin, nil
	}
	if r.err != nil {
		return "", r.err
	}
	path := r.pkg.Pkg.Path()
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\th %q\n\t%q\n)\n\nvar tab = map[string]func(){\n", path, symPkg)
	for _, n := range exportedHarnesses(r.pkg) {
		fmt.Fprintf(&b, "\t%q: h.%s,\n", n, n)
	}
	b.WriteString("}\n\nfunc main() {\n\tsym.Load(os.Args[1])\n\tf := tab[sym.Harness()]\n\tif f == nil {\n\t\tos.Exit(sym.ExitMismatch)\n\t}\n\tf()\n\tsym.Finish()\n\tfmt.Println(\"REPLAY-DONE\")\n}\n")
	src := filepath.Join(r.tmp, "main.go")
	if err := os.WriteFile(src, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	hd := filepath.Join(verifDir(), "harness")
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(hd, "zzreplay", "main.go"): src}})
	of := filepath.Join(r.tmp, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	bin := filepath.Join(r.tmp, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	env := targetEnv()
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", of, "-o", bin}
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./zzreplay")
	goroot := ""
	for _, e := range env {
		if strings.HasPrefix(e, "GOROOT=") {
			goroot = e[7:]
		}
	}
	c := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	c.Dir = hd
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("native build: %v\n%s", err, out)
		return "", r.err
	}
	if race {
		r.race = bin
	} else {
		r.bin = bin
	}
	return bin, nil
}

type replayFile struct {
	Property string           `json:"property,omitempty"`
	Harness  string           `json:"harness"`
	Package  string           `json:"package,omitempty"`
	Label    string           `json:"label,omitempty"`
	Msg      string           `json:"message,omitempty"`
	Params   map[string]int64 `json:"params"`
	Inputs   []*InputRec      `json:"inputs"`
	Native   string           `json:"native_output,omitempty"`
	Command  string           `json:"command,omitempty"`
}

type nativeResult struct {
	code    int
	out     string
	timeout bool
}

func runNative(bin, file string, limit time.Duration) nativeResult {
	// bounded memory so that a runaway allocation cannot hurt the sandbox
	c := exec.Command("/bin/sh", "-c", `ulimit -v 8000000 2>/dev/null; ulimit -t 60 2>/dev/null; exec "$0" "$1"`, bin, file)
	if strings.HasSuffix(bin, "-race") {
		c = exec.Command(bin, file)
	}
	c.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		return nativeResult{code: -1, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
		return nativeResult{code: c.ProcessState.ExitCode(), out: trim(b.String(), 6000)}
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return nativeResult{code: -1, out: trim(b.String(), 6000), timeout: true}
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// confirmed says whether a native run exhibits a violation.
func confirmed(n nativeResult) (bool, string) {
	switch {
	case n.timeout:
		return true, "does not terminate (native run stopped by the time limit)"
	case n.code == 3:
		return true, "assertion fails"
	case strings.Contains(n.out, "WARNING: DATA RACE"):
		return true, "data race"
	case n.code == 2 && strings.Contains(n.out, "all goroutines are asleep"):
		return true, "deadlock"
	case n.code == 2 && (strings.Contains(n.out, "panic:") || strings.Contains(n.out, "fatal error:") || strings.Contains(n.out, "goroutine ")):
		return true, "crashes"
	}
	return false, ""
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "tier")
	dbg := fs.Bool("debug", false, "")
	fs.Parse(args)
	t0 := time.Now()
	vd := verifDir()
	specs := map[string]*PropSpec{}
	if b, err := os.ReadFile(filepath.Join(vd, "checks.json")); err != nil {
		fmt.Println("ERROR", err)
		return 2
	} else if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Println("ERROR checks.json:", err)
		return 2
	}
	spec := specs[*prop]
	if spec == nil {
		fmt.Println("ERROR no such property", *prop)
		return 2
	}
	var findings []Finding
	if b, err := os.ReadFile(filepath.Join(vd, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			fmt.Println("ERROR known_findings.json:", err)
			return 2
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	hs := spec.Quick
	if *tier == "thorough" && len(spec.Thorough) > 0 {
		hs = spec.Thorough
	}
	rdir := filepath.Join(vd, "evidence", "replay", *prop)
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0o755)

	type hrep struct {
		Fn         string           `json:"harness"`
		Params     map[string]int64 `json:"params,omitempty"`
		Bounds     string           `json:"bounds,omitempty"`
		Complete   bool             `json:"all_paths_within_bounds_decided"`
		Paths      map[string]int64 `json:"paths"`
		Unexplored int              `json:"paths_left_unexplored"`
		Asserts    map[string]int64 `json:"assertions_judged"`
		Reach      map[string]int64 `json:"reached"`
		Steps      int64            `json:"ssa_instructions"`
		Queries    int64            `json:"solver_queries"`
		Sat        int64            `json:"sat"`
		Unsat      int64            `json:"unsat"`
		Unknown    int64            `json:"unknown"`
		CacheHits  int64            `json:"solver_cache_hits"`
		SolverS    float64          `json:"solver_s"`
		MaxQueryS  float64          `json:"slowest_query_s"`
		CrossN     int64            `json:"queries_cross_checked_cvc5"`
		CrossBad   int64            `json:"cross_check_disagreements"`
		WallS      float64          `json:"wall_s"`
		Validated  int              `json:"paths_replayed_natively"`
		Disagree   int              `json:"native_disagreements"`
		Notes      []string         `json:"notes,omitempty"`
	}
	var reps []hrep
	fnset := map[string]bool{}
	stubs := map[string]bool{}
	nviol := 0
	var samples []any
	var states, trans, validated, queries int64
	var solverS float64
	allComplete := true
	exit := 0

	eng, pkg, err := LoadEngine(vd, repoDir(), spec.Pkg, targetEnv())
	if err != nil {
		// the tree does not build together with the public-API harness: nothing can be decided
		fmt.Println("INCONCLUSIVE: cannot load the code under check:", err)
		writeEvidence(vd, *prop, *tier, seed, spec.Level, map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{},
			"inconclusive": err.Error()}, spec.Assumptions, time.Since(t0).Seconds(), 0)
		return 0
	}
	loadS := time.Since(t0).Seconds()
	rp := &replayer{e: eng, pkg: pkg, tmp: tmp}
	go rp.build(false)
	eng.opt = defaultOptions()
	eng.opt.Debug = *dbg
	if *tier == "thorough" {
		eng.opt.TimeoutMs = 60000
	}
	eng.opt.XEvery = 200
	for _, h := range hs {
		f := pkg.Func(h.Fn)
		if f == nil {
			fmt.Println("ERROR no harness", h.Fn)
			return 2
		}
		params := map[string]int64{}
		for k, v := range h.Params {
			params[k] = v
		}
		budget := h.Budget
		if budget == 0 {
			budget = 60
		}
		r := eng.Explore(f, h.Fn, params, time.Duration(budget)*time.Second)
		hr := hrep{Fn: h.Fn, Params: params, Bounds: h.Bounds, Complete: r.Complete, Paths: r.Paths, Unexplored: r.Left, Asserts: r.Asserts, Reach: r.Reach, Steps: r.Steps,
			Queries: r.Solver.Queries, Sat: r.Solver.SatN, Unsat: r.Solver.UnsatN, Unknown: r.Solver.UnknownN, CacheHits: r.Solver.CacheHit,
			SolverS: r.Solver.Time.Seconds(), MaxQueryS: r.Solver.MaxTime.Seconds(), CrossN: r.Solver.XChecked, CrossBad: r.Solver.XDisagree, WallS: r.Wall.Seconds()}
		for k, n := range r.Msgs {
			hr.Notes = append(hr.Notes, fmt.Sprintf("%d x %s", n, trim(k, 300)))
		}
		sort.Strings(hr.Notes)
		for _, x := range r.Fns {
			fnset[x] = true
		}
		for _, x := range r.Stubs {
			stubs[x] = true
		}
		for _, v := range r.Paths {
			states += v
		}
		trans += r.Steps
		queries += r.Solver.Queries
		solverS += r.Solver.Time.Seconds()

		// vacuity
		for _, l := range h.Reach {
			if r.Reach[l] == 0 {
				hr.Notes = append(hr.Notes, "VACUOUS: label "+l+" was not reached")
				hr.Complete = false
			}
		}

		// counterexamples: replay each against the natively compiled code
		hit := map[string]bool{}
		for i, v := range r.Violations {
			if hit[v.Label] {
				continue
			}
			rf := &replayFile{Property: *prop, Harness: h.Fn, Package: spec.Pkg, Label: v.Label, Msg: trim(v.Msg, 3000), Params: params, Inputs: v.Inputs}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", h.Fn, sanitize(v.Label), i))
			rf.Command = "bash /verif/replay.sh " + path
			writeJSON(path, rf)
			ok, how, out := rp.replay(path, v.Label, h.Stress)
			rf.Native = out
			writeJSON(path, rf)
			if !ok {
				hr.Notes = append(hr.Notes, "UNCONFIRMED candidate "+v.Label+": the native replay did not show it; not reported")
				hr.Disagree++
				fmt.Printf("note: %s/%s: candidate %q not confirmed by native replay (%s)\n", *prop, h.Fn, v.Label, firstLine(out))
				os.Rename(path, path+".unconfirmed")
				continue
			}
			hit[v.Label] = true
			known := false
			for _, kf := range findings {
				if kf.Status == "known" && kf.Property == *prop && kf.Harness == h.Fn && kf.Label == v.Label && h.Finding {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.What)
					known = true
				}
			}
			if known {
				hr.Notes = append(hr.Notes, "known finding shown: "+v.Label)
				continue
			}
			nviol++
			exit = 1
			fmt.Printf("%s: harness %s: %s: %s\n", *prop, h.Fn, v.Label, how)
			for _, in := range v.Inputs {
				fmt.Printf("    %s = %x\n", in.Name, in.Vals)
			}
			if v.Msg != "" {
				fmt.Printf("    %s\n", strings.ReplaceAll(trim(v.Msg, 1200), "\n", "\n    "))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}

		// translation validation: completed paths must behave the same natively
		for i, s := range r.Samples {
			path := filepath.Join(tmp, fmt.Sprintf("s-%s-%d.json", h.Fn, i))
			writeJSON(path, &replayFile{Harness: h.Fn, Params: params, Inputs: s.Inputs})
			bin, err := rp.build(false)
			if err != nil {
				hr.Notes = append(hr.Notes, "native build failed: "+trim(err.Error(), 500))
				break
			}
			n := runNative(bin, path, 20*time.Second)
			if hasSched(s.Inputs) {
				continue
			}
			if why := s.agree(n); why == "" {
				hr.Validated++
				validated++
			} else {
				hr.Disagree++
				hr.Notes = append(hr.Notes, "native run differs from the symbolic path: "+why)
				keep := filepath.Join(rdir, fmt.Sprintf("disagree-%s-%d.json", h.Fn, i))
				writeJSON(keep, &replayFile{Harness: h.Fn, Package: spec.Pkg, Params: params, Inputs: s.Inputs, Native: n.out, Msg: why})
				fmt.Printf("note: %s/%s: sampled path %d differs natively: %s\n", *prop, h.Fn, i, why)
			}
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Fn, "inputs": s.Inputs, "reached": s.Reach})
			}
		}
		if !hr.Complete {
			allComplete = false
		}
		reps = append(reps, hr)
		fmt.Printf("%s %s: paths=%v complete=%v queries=%d solver=%.1fs wall=%.1fs validated=%d/%d\n", *prop, h.Fn, r.Paths, hr.Complete, r.Solver.Queries, r.Solver.Time.Seconds(), r.Wall.Seconds(), hr.Validated, len(r.Samples))
		for _, n := range hr.Notes {
			fmt.Println("   ", n)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"states_are":        "symbolic path states: each stands for every concrete input satisfying its path condition",
		"functions_encoded": keys(fnset), "functions_encoded_count": len(fnset), "stubbed_or_modelled": keys(stubs),
		"bounds": spec.Bounds, "outside_bounds": spec.Outside, "solver": "z3-new (z3 5.x), sampled queries cross-checked with cvc5",
		"queries": queries, "solver_s": solverS, "load_and_encode_s": loadS, "harnesses": reps,
		"exhaustive": allComplete,
	}
	writeEvidence(vd, *prop, *tier, seed, spec.Level, cov, spec.Assumptions, time.Since(t0).Seconds(), nviol)
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs complete=%v\n", *prop, *tier, time.Since(t0).Seconds(), allComplete)
	}
	return exit
}

func hasSched(in []*InputRec) bool {
	for _, r := range in {
		if r.Name == "sched" || r.Name == "select" || r.Kind == "rand" || r.Kind == "clock" {
			return true
		}
	}
	return false
}

func (s *Sample) agree(n nativeResult) string {
	if n.timeout {
		return "native run timed out"
	}
	if n.code != 0 {
		return fmt.Sprintf("exit status %d: %s", n.code, trim(firstLine(n.out), 300))
	}
	var reach, obs []string
	for _, l := range strings.Split(n.out, "\n") {
		if strings.HasPrefix(l, "REACH ") {
			reach = append(reach, l[6:])
		}
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		}
	}
	if strings.Join(reach, ",") != strings.Join(s.Reach, ",") {
		return fmt.Sprintf("reached %v, symbolically %v", reach, s.Reach)
	}
	if strings.Join(obs, ",") != strings.Join(s.Obs, ",") {
		return fmt.Sprintf("observed %v, symbolically %v", obs, s.Obs)
	}
	return ""
}

func (r *replayer) replay(path, label string, stress bool) (bool, string, string) {
	race := label == "data-race"
	bin, err := r.build(race)
	if err != nil {
		return false, "", err.Error()
	}
	tries := 1
	if stress || race {
		tries = 200
	}
	end := time.Now().Add(40 * time.Second)
	var n nativeResult
	for i := 0; i < tries && (i == 0 || time.Now().Before(end)); i++ {
		n = runNative(bin, path, 20*time.Second)
		if ok, how := confirmed(n); ok {
			return true, how, trim(n.out, 3000)
		}
	}
	return false, "", n.out
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func writeEvidence(vd, prop, tier string, seed int, level string, cov map[string]any, assumptions []string, wall float64, nviol int) {
	if assumptions == nil {
		assumptions = []string{}
	}
	if level == "" {
		level = "model_checking"
	}
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	writeJSON(filepath.Join(vd, "evidence", prop+".json"), map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": nviol})
}

// cmdReplay runs one recorded assignment natively.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	fs.Parse(args)
	var rf replayFile
	b, err := os.ReadFile(*file)
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	eng, pkg, err := LoadEngine(verifDir(), repoDir(), rf.Package, targetEnv())
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(tmp)
	rp := &replayer{e: eng, pkg: pkg, tmp: tmp}
	os.Setenv("VERIF_TRACE", "1")
	ok, how, out := rp.replay(*file, rf.Label, false)
	fmt.Println(out)
	fmt.Println("confirmed:", ok, how)
	if ok {
		return 1
	}
	return 0
}
