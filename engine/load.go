package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const symPkg = "verif/harness/sym"

// redirects are the functions replaced by those of harness/sym/memfs and memnet.
var redirects = map[string]string{
	"os.Create": "Create", "os.Open": "OpenRead", "os.OpenFile": "OpenFile", "os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile",
	"runtime.ReadMemStats": "ReadMemStats", "os.Remove": "Remove", "os.Rename": "Rename",
	"io/ioutil.ReadFile": "ReadFile", "io/ioutil.WriteFile": "WriteFile",
	"(*os.File).Write": "Write", "(*os.File).WriteString": "WriteString", "(*os.File).Read": "Read", "(*os.File).Close": "Close",
	"(*os.File).Sync": "Sync", "(*os.File).Name": "Name",
	"net.Listen": "memnet.Listen", "net.Dial": "memnet.Dial", symPkg + ".FreePort": "memnet.FreePort", symPkg + ".Dial": "memnet.DialRetry",
	symPkg + ".TempDir": "Mkdir", symPkg + ".OpenFiles": "OpenFiles",
}

// stdOverlay replaces whole standard-library packages by the models in overlay/<pkg>/.
func stdOverlay(goroot, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		pkg := filepath.Dir(rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		src := filepath.Join(goroot, "src", pkg)
		if filepath.Base(p) == "model.go" {
			ents, err := os.ReadDir(src)
			if err != nil {
				return err
			}
			for _, e := range ents {
				n := e.Name()
				if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
					f := filepath.Join(src, n)
					if _, ok := ov[f]; !ok {
						ov[f] = []byte("package " + filepath.Base(pkg) + "\n")
					}
				}
			}
			ov[filepath.Join(src, "verif_model.go")] = b
			return nil
		}
		ov[filepath.Join(src, filepath.Base(p))] = b
		return nil
	})
	return ov, err
}

func LoadEngine(verif, repo, pkgPattern string, env []string) (*Engine, *ssa.Package, error) {
	goroot := ""
	for _, e := range env {
		if strings.HasPrefix(e, "GOROOT=") {
			goroot = e[7:]
		}
	}
	ov, err := stdOverlay(goroot, filepath.Join(verif, "overlay"))
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     filepath.Join(verif, "harness"),
		Env:     env,
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, pkgPattern, "runtime", "unicode/utf8")
	if err != nil {
		return nil, nil, err
	}
	nerr := 0
	var firstErr error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			nerr++
			if firstErr == nil {
				firstErr = fmt.Errorf("%s: %v", p.PkgPath, e)
			}
			if nerr < 20 {
				fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			}
		}
	})
	if nerr > 0 {
		return nil, nil, firstErr
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, p := range prog.AllPackages() {
		wg.Add(1)
		sem <- struct{}{}
		go func(p *ssa.Package) {
			defer wg.Done()
			p.Build()
			<-sem
		}(p)
	}
	wg.Wait()
	e := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64")}
	e.rtErrType = prog.ImportedPackage("runtime").Type("errorString").Type()
	e.utf8Decode = prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
	sp := prog.ImportedPackage(symPkg)
	if sp == nil {
		return nil, nil, fmt.Errorf("harness does not import %s", symPkg)
	}
	e.runeToStr = sp.Func("RuneToString")
	e.runesToStr = sp.Func("RunesToString")
	e.strToRunes = sp.Func("StringToRunes")
	want := "verif/harness/" + strings.TrimPrefix(pkgPattern, "./")
	for i, p := range pkgs {
		if p.PkgPath == want && spkgs[i] != nil {
			return e, spkgs[i], nil
		}
	}
	return nil, nil, fmt.Errorf("no package %s", want)
}
