package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover ssa|verify|check")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "ssa":
		p, err := loadRepo("/repo", allLemmas)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if len(os.Args) < 3 {
			for _, n := range p.sortedFuncs() {
				fmt.Println(n)
			}
			return
		}
		for _, n := range os.Args[2:] {
			if fn := p.Funcs[n]; fn != nil {
				fn.WriteTo(os.Stdout)
				for _, a := range fn.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "verify":
		verifyCmd(os.Args[2:])
	}
}

func verifyCmd(args []string) {
	dir := "/verif/contracts"
	if d := os.Getenv("GOVER_SPECS"); d != "" {
		dir = d
	}
	repo := "/repo"
	if d := os.Getenv("GOVER_REPO"); d != "" {
		repo = d
	}
	p, err := loadRepo(repo, allLemmas)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	s, err := loadSpecs(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	prop := ""
	if len(args) > 0 && len(args[0]) == 3 && args[0][0] == 'C' {
		prop = args[0]
		args = args[1:]
	}
	opt := &checkOpt{Safety: true, Locks: true}
	if prop != "" {
		props, _, err := loadProperties(filepath.Join(dir, "properties.conf"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if pr := props[prop]; pr != nil {
			opt = &checkOpt{Safety: pr.Safety, Locks: pr.Locks, Own: pr.Own}
		}
		s = s.slice(prop, opt.Own)
	}
	if len(args) == 0 {
		args = s.Order
	}
	for _, n := range args {
		if s.Contracts[n] == nil {
			fmt.Println("no contract", n)
			continue
		}
		t0 := time.Now()
		rep, e := generate(p, s, n, opt)
		to := 10.0
		if s.Contracts[n].Timeout > 0 {
			to = s.Contracts[n].Timeout
		}
		t1 := time.Now()
		discharge(rep, e, to)
		fmt.Printf("%s %s: %d obligations (%d trivial), %d failed, returns %d, gen %.1fs solve %.1fs\n", map[bool]string{true: "ok  ", false: "FAIL"}[rep.OK()], n, len(rep.Obligs), rep.Trivial, len(rep.Failed), rep.Returns, t1.Sub(t0).Seconds(), time.Since(t1).Seconds())
		if rep.Subset != "" {
			fmt.Println("   subset:", rep.Subset)
		}
		if rep.Vacuous {
			fmt.Println("   VACUOUS")
		}
		cnt := map[string]int{}
		for i, o := range rep.Failed {
			k := o.Name + " " + o.Pos
			cnt[k]++
			if cnt[k] > 2 {
				continue
			}
			fmt.Printf("   failed %s at %s in %s [%s]\n", o.Name, o.Pos, o.Fn, o.By)
			if dumpDir != "" {
				f := fmt.Sprintf("%s/%s_%d.smt2", dumpDir, sane(n), i)
				os.WriteFile(f, []byte(o.Query), 0644)
				fmt.Println("      ", f, strings.Join(o.Path, " "))
				if os.Getenv("GOVER_GOAL") != "" {
					fmt.Println("      goal:", e.c.Show(o.Goal))
					for _, f := range o.Facts[len(e.facts):] {
						fmt.Println("        ", e.c.Show(f))
					}
				}
			}
		}
	}
}

// slice keeps only the clauses a property uses.
func (s *Specs) slice(prop string, own bool) *Specs {
	n := *s
	n.Contracts = map[string]*Contract{}
	n.Axioms = nil
	for _, a := range s.Axioms {
		keep := len(a.Tags) == 0
		for _, t := range a.Tags {
			keep = keep || t == prop
		}
		if keep {
			n.Axioms = append(n.Axioms, a)
		}
	}
	n.Ghosts, n.GhostBy = nil, map[string]*GhostDecl{}
	for _, g := range s.Ghosts {
		keep := len(g.Tags) == 0
		for _, t := range g.Tags {
			keep = keep || t == prop
		}
		if keep {
			n.Ghosts = append(n.Ghosts, g)
			n.GhostBy[g.Name] = g
		}
	}
	for k, c := range s.Contracts {
		d := *c
		use := len(c.Only) == 0
		for _, t := range c.Only {
			use = use || t == prop
		}
		if !use {
			continue
		}
		d.Clauses = nil
		for _, cl := range c.Clauses {
			keep := len(cl.Tags) == 0
			switch cl.Kind {
			case "requires", "ensures", "always", "candidate", "lemma", "at":
				keep = keep && !own // discharged by the other properties' checks
			}
			for _, t := range cl.Tags {
				if t == prop {
					keep = true
				}
			}
			if keep {
				d.Clauses = append(d.Clauses, cl)
			}
		}
		if len(d.VerifiedIn) > 0 {
			here := false
			for _, t := range d.VerifiedIn {
				here = here || t == prop
			}
			if !here {
				d.Trusted = "verified by the check of " + strings.Join(d.VerifiedIn, ", ")
			}
		}
		if len(d.LogTags) > 0 {
			d.Log = false
			for _, t := range d.LogTags {
				d.Log = d.Log || t == prop
			}
		}
		n.Contracts[k] = &d
	}
	return &n
}

// allLemmas: every lemma file, for the interactive commands.
var allLemmas = [][2]string{{"ferryd/jobs", "jobs.go"}, {"ferryd", "main.go"}, {"ferryd/core", "core.go"}, {"libeopkg", "libeopkg.go"}, {"libdb", "libdb.go"}}
