package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type printer struct {
	c     *Ctx
	names map[*Term]string
}

func (p *printer) str(t *Term) string {
	var b strings.Builder
	p.write(&b, t)
	return b.String()
}

func symName(s string) string {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("_!.?$%&*+-/<=>@^~", ch) >= 0) {
			return "|" + strings.ReplaceAll(s, "|", "!") + "|"
		}
	}
	return s
}

func (p *printer) write(b *strings.Builder, t *Term) {
	if n, ok := p.names[t]; ok {
		b.WriteString(n)
		return
	}
	p.writeTop(b, t)
}

func (p *printer) args(b *strings.Builder, op string, as []*Term) {
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range as {
		b.WriteByte(' ')
		p.write(b, a)
	}
	b.WriteByte(')')
}

func (p *printer) writeTop(b *strings.Builder, t *Term) {
	switch t.Op {
	case "true", "false":
		b.WriteString(t.Op)
	case "int":
		if t.N < 0 {
			if t.N == -9223372036854775808 {
				b.WriteString("(- 9223372036854775808)")
			} else {
				fmt.Fprintf(b, "(- %d)", -t.N)
			}
		} else {
			fmt.Fprintf(b, "%d", t.N)
		}
	case "const", "bvar":
		b.WriteString(symName(t.Name))
	case "app":
		p.args(b, symName(t.Name), t.Args)
	case "sel":
		p.args(b, symName(t.Name), t.Args)
	case "ctor":
		if len(t.Args) == 0 {
			b.WriteString(symName(t.Name))
		} else {
			p.args(b, symName(t.Name), t.Args)
		}
	case "none":
		fmt.Fprintf(b, "none!%s", sane(t.Sort.Name))
	case "some":
		p.args(b, "some!"+sane(t.Sort.Name), t.Args)
	case "issome":
		p.args(b, "(_ is some!"+sane(t.Args[0].Sort.Name)+")", t.Args)
	case "optval":
		p.args(b, "val!"+sane(t.Args[0].Sort.Name), t.Args)
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.Sort.Name)
		p.write(b, t.Args[0])
		b.WriteByte(')')
	case "forall", "exists":
		b.WriteByte('(')
		b.WriteString(t.Op)
		b.WriteString(" (")
		for _, v := range t.Vars {
			fmt.Fprintf(b, "(%s %s)", symName(v.Name), v.Sort.Name)
		}
		b.WriteString(") ")
		if len(t.Trigs) > 0 {
			b.WriteString("(! ")
			p.write(b, t.Args[0])
			for _, tr := range t.Trigs {
				b.WriteString(" :pattern (")
				for _, x := range tr {
					p.write(b, x)
					b.WriteByte(' ')
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		} else {
			p.write(b, t.Args[0])
		}
		b.WriteByte(')')
	default:
		p.args(b, t.Op, t.Args)
	}
}

// symbols used by a term: function names, sel/ctor names etc.
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	for _, tr := range t.Trigs {
		for _, a := range tr {
			collect(a, seen, f)
		}
	}
	for _, v := range t.Vars {
		collect(v, seen, f)
	}
	f(t)
}

// Query renders the SMT-LIB problem "facts => goal" (unsat = proved).
func (c *Ctx) Query(facts []*Term, goal *Term) string {
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	var consts []*Term
	sorts := map[*Sort]bool{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if s == nil || sorts[s] {
			return
		}
		sorts[s] = true
		addSort(s.Dom)
		addSort(s.Rng)
		addSort(s.Elem)
		if s.DT != nil {
			for _, f := range s.DT.Fields {
				addSort(f.Sort)
			}
		}
	}
	visit := func(t *Term) {
		addSort(t.Sort)
		switch t.Op {
		case "const":
			consts = append(consts, t)
			syms[t.Name] = true
		case "app":
			syms[t.Name] = true
			fd := c.funcs[t.Name]
			for _, a := range fd.Args {
				addSort(a)
			}
			addSort(fd.Res)
		}
	}
	var asserts []*Term
	for _, f := range facts {
		if f == c.True {
			continue
		}
		asserts = append(asserts, f)
		collect(f, seen, visit)
	}
	ng := c.Not(goal)
	collect(ng, seen, visit)
	used := make([]bool, len(c.axioms))
	for ch := true; ch; {
		ch = false
		for i := 0; i < len(c.axioms); i++ {
			if used[i] {
				continue
			}
			a := c.axioms[i]
			ok := true
			for _, n := range a.Needs {
				if !syms[n] {
					ok = false
					break
				}
			}
			if ok {
				used[i] = true
				ch = true
				asserts = append(asserts, a.F)
				collect(a.F, seen, visit)
			}
		}
	}
	// sharing
	refs := map[*Term]int{}
	size := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		n := 1
		for _, a := range t.Args {
			count(a)
			n += size[a]
		}
		for _, tr := range t.Trigs {
			for _, a := range tr {
				count(a)
			}
		}
		if n > 1000000 {
			n = 1000000
		}
		size[t] = n
	}
	all := append(append([]*Term{}, asserts...), ng)
	for _, a := range all {
		count(a)
	}
	var b strings.Builder
	// sorts
	ordered := []*Sort{}
	for _, s := range c.sortL {
		if sorts[s] {
			ordered = append(ordered, s)
		}
	}
	for _, s := range ordered {
		if s.Kind == KUnint || s.Kind == KSeq {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s.Name)
		}
	}
	for _, s := range ordered {
		switch s.Kind {
		case KOpt:
			n := sane(s.Name)
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((none!%s) (some!%s (val!%s %s)))))\n", s.Name, n, n, n, s.Elem.Name)
		case KDT:
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", s.Name, s.DT.Ctor)
			for _, f := range s.DT.Fields {
				fmt.Fprintf(&b, " (%s %s)", f.Sel, f.Sort.Name)
			}
			b.WriteString("))))\n")
		}
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].ID < consts[j].ID })
	var lits []string
	dist := map[string][]string{}
	inDist := map[*Term]string{}
	for sn, ts := range c.distinctConsts {
		for _, t := range ts {
			inDist[t] = sn
		}
	}
	for _, t := range consts {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symName(t.Name), t.Sort.Name)
		if v, ok := c.strVal[t]; ok {
			lits = append(lits, symName(t.Name))
			fmt.Fprintf(&b, "; %s = %q\n", t.Name, v)
		}
		if sn, ok := inDist[t]; ok {
			dist[sn] = append(dist[sn], symName(t.Name))
		}
	}
	var fnames []string
	for n := range syms {
		if f := c.funcs[n]; f != nil && len(f.Args) > 0 {
			fnames = append(fnames, n)
		}
	}
	sort.Strings(fnames)
	for _, n := range fnames {
		f := c.funcs[n]
		fmt.Fprintf(&b, "(declare-fun %s (", symName(n))
		for _, a := range f.Args {
			b.WriteString(a.Name + " ")
		}
		fmt.Fprintf(&b, ") %s)\n", f.Res.Name)
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	var dk []string
	for k := range dist {
		dk = append(dk, k)
	}
	sort.Strings(dk)
	for _, k := range dk {
		if len(dist[k]) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(dist[k], " "))
		}
	}
	// emit shared ground terms bottom-up
	p := &printer{c: c, names: map[*Term]string{}}
	done := map[*Term]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.Args {
			emit(a)
		}
		for _, tr := range t.Trigs {
			for _, a := range tr {
				emit(a)
			}
		}
		if refs[t] > 1 && size[t] > 4 && len(t.free) == 0 && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("$%d", t.ID)
			var x strings.Builder
			p.writeTop(&x, t)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.Name, x.String())
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		emit(a)
		b.WriteString("(assert ")
		p.write(&b, a)
		b.WriteString(")\n")
	}
	emit(ng)
	b.WriteString("(assert ")
	p.write(&b, ng)
	b.WriteString(")\n(check-sat)\n")
	return b.String()
}

// SolverStats accumulates over a run.
type SolverStats struct {
	Queries int64
	Nanos   int64
	mu      sync.Mutex
	By      map[string]int64
}

var stats = &SolverStats{By: map[string]int64{}}

type solverCfg struct {
	name string
	argv []string
	pre  string
}

func cfgZ3New(t float64) solverCfg {
	return solverCfg{"z3-5.3.2/ematching", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", int(t+0.999))},
		"(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
}
func cfgZ3Old(t float64) solverCfg {
	return solverCfg{"z3-4.8.12/ematching", []string{"z3", "-in", fmt.Sprintf("-T:%d", int(t+0.999))},
		"(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
}
func cfgZ3Def(t float64) solverCfg {
	return solverCfg{"z3-5.3.2", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", int(t+0.999))}, ""}
}
func cfgCVC5(t float64) solverCfg {
	return solverCfg{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--arrays-exp", "--fp-exp", fmt.Sprintf("--tlimit=%d", int(t*1000)), "-"}, "(set-logic ALL)\n"}
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, cfg solverCfg, q string) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "cancelled"
	}
	cmd := exec.CommandContext(ctx, cfg.argv[0], cfg.argv[1:]...)
	cmd.Stdin = strings.NewReader(cfg.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	cmd.Run()
	atomic.AddInt64(&stats.Nanos, int64(time.Since(start)))
	atomic.AddInt64(&stats.Queries, 1)
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVER_DEBUG") != "" {
				os.WriteFile("/tmp/gover_err.smt2", []byte(cfg.pre+q), 0644)
				fmt.Fprintln(os.Stderr, cfg.name, l)
			}
			return "error " + l
		}
	}
	return "timeout"
}

// prove tries to show the query unsat. quick uses a single configuration.
func prove(q string, quick bool, timeout float64) (bool, string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t1 := timeout
	if !quick && t1 > 4 {
		t1 = 4
	}
	cf := cfgZ3Old(t1)
	r := runSolver(ctx, cf, q)
	if r != "unsat" && r != "sat" {
		cf = cfgZ3New(t1)
		r = runSolver(ctx, cf, q)
	}
	if r == "unsat" {
		stats.mu.Lock()
		stats.By[cf.name]++
		stats.mu.Unlock()
		return true, cf.name
	}
	if quick || r == "sat" {
		return false, cf.name + ": " + r
	}
	cfgs := []solverCfg{cfgZ3Old(timeout), cfgCVC5(timeout), cfgZ3Def(timeout)}
	type res struct {
		ok   bool
		why  string
		name string
	}
	ch := make(chan res, len(cfgs)+1)
	if t1 < timeout && r == "timeout" {
		cfgs = append(cfgs, cfgZ3New(timeout))
	}
	for _, cf := range cfgs {
		go func(cf solverCfg) {
			r := runSolver(ctx, cf, q)
			ch <- res{r == "unsat", cf.name + ": " + r, cf.name}
		}(cf)
	}
	why := cf.name + ": " + r
	for range cfgs {
		x := <-ch
		if x.ok {
			stats.mu.Lock()
			stats.By[x.name]++
			stats.mu.Unlock()
			return true, x.name
		}
		why += "; " + x.why
	}
	return false, why
}
