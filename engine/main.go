package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func targetEnv() []string {
	goroot := os.Getenv("VERIF_TARGET_GOROOT")
	if goroot == "" {
		goroot = "/opt/veriftools/go1.24.13"
	}
	keep := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOROOT", "GOFLAGS", "GOWORK", "GOTOOLCHAIN", "GOPROXY", "PATH", "CGO_ENABLED", "GOPATH", "GOMODCACHE", "HOME", "GOSUMDB":
			continue
		}
		keep = append(keep, e)
	}
	return append(keep, "GOROOT="+goroot, "GOFLAGS=", "GOWORK="+verifDir()+"/go.work", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off",
		"PATH="+goroot+"/bin:"+os.Getenv("PATH"), "CGO_ENABLED=0", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "HOME=/root")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func defaultOptions() Options {
	n := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	return Options{Workers: n, StepLimit: 3000000, Solver: []string{"z3-new", "-in"}, TimeoutMs: 20000, Samples: 12, MaxViol: 1 << 30}
}

type paramFlag map[string]int64

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	kv := strings.SplitN(s, "=", 2)
	v, err := strconv.ParseInt(kv[1], 10, 64)
	p[kv[0]] = v
	return err
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check ...")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "", "harness package")
	fn := fs.String("fn", "", "harness function (comma separated)")
	budget := fs.Int("budget", 60, "seconds")
	dbg := fs.Bool("debug", false, "debug")
	workers := fs.Int("workers", 0, "workers")
	solver := fs.String("solver", "", "")
	steps := fs.Int64("steps", 0, "")
	params := paramFlag{}
	fs.Var(params, "param", "name=value")
	fs.Parse(args)
	t0 := time.Now()
	e, p, err := LoadEngine(verifDir(), repoDir(), *pkg, targetEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, "load error:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	e.opt = defaultOptions()
	e.opt.Debug = *dbg
	if *workers > 0 {
		e.opt.Workers = *workers
	}
	if *solver != "" {
		e.opt.Solver = strings.Fields(*solver)
	}
	if *steps > 0 {
		e.opt.StepLimit = *steps
	}
	for _, f := range strings.Split(*fn, ",") {
		h := p.Func(f)
		if h == nil {
			fmt.Println("no harness", f)
			continue
		}
		r := e.Explore(h, f, params, time.Duration(*budget)*time.Second)
		printReport(r)
	}
}

func printReport(r *Report) {
	fmt.Printf("== %s wall=%.1fs complete=%v left=%d steps=%d maxdec=%d\n", r.Harness, r.Wall.Seconds(), r.Complete, r.Left, r.Steps, r.MaxDecisions)
	fmt.Printf("   paths %v\n", r.Paths)
	s := r.Solver
	fmt.Printf("   solver q=%d sat=%d unsat=%d unk=%d cache=%d err=%d quick=%d time=%.1fs max=%.2fs\n", s.Queries, s.SatN, s.UnsatN, s.UnknownN, s.CacheHit, s.Errors, r.Quick, s.Time.Seconds(), s.MaxTime.Seconds())
	fmt.Printf("   reach %v asserts %v fns=%d\n", r.Reach, r.Asserts, len(r.Fns))
	var ks []string
	for k := range r.Msgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   msg %6d %s\n", r.Msgs[k], k)
	}
	for _, v := range r.Violations {
		fmt.Printf("   VIOL %s: %s\n", v.Label, v.Msg)
		for _, i := range v.Inputs {
			fmt.Printf("      %s(%s) = %x\n", i.Name, i.Kind, i.Vals)
		}
	}
}

// repoDir is the tree that is checked (VERIF_REPO serves development only).
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
