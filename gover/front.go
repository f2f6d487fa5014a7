package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// RepoModule is the module path of the code under verification.
const RepoModule = "github.com/getsolus/ferryd"

// Program is the SSA form of /repo's current working tree.
type Program struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package  // short path (after RepoModule/src/) -> package
	Funcs map[string]*ssa.Function // short name -> function
}

func loadRepo(dir string, lemmas [][2]string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Tests: false,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off",
			"GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=0"),
	}
	for _, l := range lemmas {
		by, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "lemmas", l[1]))
		if err != nil {
			return nil, err
		}
		if cfg.Overlay == nil {
			cfg.Overlay = map[string][]byte{}
		}
		cfg.Overlay[filepath.Join(dir, "src", l[0], "zz_verif_lemmas.go")] = by
	}
	var pkgs []*packages.Package
	for {
		var err error
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		nerr := 0
		for _, p := range pkgs {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, "load:", e)
				nerr++
			}
		}
		if nerr == 0 {
			break
		}
		if cfg.Overlay == nil {
			return nil, fmt.Errorf("%d load errors", nerr)
		}
		// the lemmas do not fit the code; their contracts fail
		cfg.Overlay = nil
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	res := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		path := sp.Pkg.Path()
		short := strings.TrimPrefix(strings.TrimPrefix(path, RepoModule), "/src/")
		res.Pkgs[short] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), RepoModule) {
			continue
		}
		res.Funcs[shortName(fn)] = fn
	}
	return res, nil
}

// shortName gives names such as core.(*Repository).UnrefPackage or jobs.NewJobHandler$1.
func shortName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, RepoModule+"/src/ferryd/", "")
	s = strings.ReplaceAll(s, RepoModule+"/src/", "")
	// "(*core.Repository).X" -> "core.(*Repository).X"
	if strings.HasPrefix(s, "(") {
		star := ""
		r := s[1:]
		if strings.HasPrefix(r, "*") {
			star = "*"
			r = r[1:]
		}
		if i := strings.Index(r, ")"); i > 0 {
			q := r[:i]
			if j := strings.LastIndex(q, "."); j > 0 {
				s = q[:j] + ".(" + star + q[j+1:] + ")" + r[i+1:]
			}
		}
	}
	return s
}

func (p *Program) sortedFuncs() []string {
	var r []string
	for k := range p.Funcs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
