package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Property is the configuration of one check (contracts/properties.conf).
type Property struct {
	ID      string
	Roots   []string
	Safety  bool
	Locks   bool
	Own     bool // only clauses with this property's tag, and locks
	Level   string
	Tests   [][2]string // package directory, test name
	Lemmas  [][2]string // directory under src, file under contracts/lemmas
	Relied  map[string]bool
	Rely    []string // contracts with these prefixes are discharged by another property's check
	Assume  []string
	Bounded []string
}

func loadProperties(file string) (map[string]*Property, []string, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	res := map[string]*Property{}
	var order []string
	var cur *Property
	sc := bufio.NewScanner(f)
	for n := 1; sc.Scan(); n++ {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		w := strings.SplitN(l, " ", 2)
		rest := ""
		if len(w) > 1 {
			rest = strings.TrimSpace(w[1])
		}
		if w[0] == "property" {
			cur = &Property{ID: rest, Level: "proof", Relied: map[string]bool{}}
			res[rest] = cur
			order = append(order, rest)
			continue
		}
		if cur == nil {
			return nil, nil, fmt.Errorf("%s:%d: no property", file, n)
		}
		switch w[0] {
		case "root":
			cur.Roots = append(cur.Roots, strings.Fields(rest)...)
		case "safety":
			cur.Safety = true
		case "locks":
			cur.Locks = true
		case "own":
			cur.Own = true
		case "level":
			cur.Level = rest
		case "test":
			t := strings.Fields(rest)
			if len(t) != 2 {
				return nil, nil, fmt.Errorf("%s:%d: test PKGDIR NAME", file, n)
			}
			cur.Tests = append(cur.Tests, [2]string{t[0], t[1]})
		case "lemmas":
			t := strings.Fields(rest)
			if len(t) != 2 {
				return nil, nil, fmt.Errorf("%s:%d: lemmas DIR FILE", file, n)
			}
			cur.Lemmas = append(cur.Lemmas, [2]string{t[0], t[1]})
		case "rely":
			cur.Rely = append(cur.Rely, strings.Fields(rest)...)
		case "assume":
			cur.Assume = append(cur.Assume, rest)
		case "bounded":
			cur.Bounded = append(cur.Bounded, rest)
		default:
			return nil, nil, fmt.Errorf("%s:%d: %s?", file, n, w[0])
		}
	}
	return res, order, nil
}

func verifDir() string {
	if d := os.Getenv("GOVER_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("GOVER_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// fit drops contracts of functions which no longer exist with that signature: their bodies are
// then verified inline, as part of their callers.
func (s *Specs) fit(p *Program) []string {
	var dropped []string
	for k, c := range s.Contracts {
		fn := p.Funcs[k]
		if fn == nil {
			if !strings.Contains(k, "(") && strings.Count(k, ".") > 0 && strings.Contains(k, "$") {
				continue
			}
			if strings.HasPrefix(k, "ext:") {
				continue
			}
			delete(s.Contracts, k)
			dropped = append(dropped, k+" (no such function)")
			continue
		}
		if len(fn.Params) != len(c.Params) || fn.Signature.Results().Len() < len(c.Results) {
			delete(s.Contracts, k)
			dropped = append(dropped, k+" (signature differs)")
		}
	}
	sort.Strings(dropped)
	return dropped
}

var quickTimeout = 2.0

// failLeft is how many more obligations may fail before the rest are given up as not attempted.
var failLeft int32 = 1 << 30

// closure verifies the roots and everything they rely on.
func (pr *Property) relies(fn string) bool {
	for _, r := range pr.Rely {
		if strings.HasPrefix(fn, r) {
			return true
		}
	}
	return false
}

func closure(p *Program, s *Specs, pr *Property, done []*FuncReport) []*FuncReport {
	opt := &checkOpt{Safety: pr.Safety, Locks: pr.Locks, Own: pr.Own}
	seen := map[string]bool{}
	reps := done
	for _, r := range done {
		seen[r.Fn] = true
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var run func(n string)
	start := func(n string) {
		mu.Lock()
		if seen[n] {
			mu.Unlock()
			return
		}
		seen[n] = true
		mu.Unlock()
		wg.Add(1)
		go run(n)
	}
	run = func(n string) {
		defer wg.Done()
		sem <- struct{}{}
		var rep *FuncReport
		if s.Contracts[n] == nil {
			rep = &FuncReport{Fn: n, Notfound: true, Subset: "no function with the signature its contract is written for"}
		} else {
			var e *Exec
			rep, e = generate(p, s, n, opt)
			to := 10.0
			if s.Contracts[n].Timeout > 0 {
				to = s.Contracts[n].Timeout
			}
			discharge(rep, e, to*quickTimeout/2)
		}
		<-sem
		mu.Lock()
		reps = append(reps, rep)
		mu.Unlock()
		for _, c := range rep.Called {
			if pr.relies(c) {
				mu.Lock()
				pr.Relied[c] = true
				mu.Unlock()
				continue
			}
			start(c)
		}
	}
	for _, r := range pr.Roots {
		start(r)
	}
	wg.Wait()
	sort.Slice(reps, func(i, j int) bool { return reps[i].Fn < reps[j].Fn })
	return reps
}

type testOutcome struct {
	Pkg, Name string
	Failed    bool
	Broken    bool // did not build or crashed without a verdict
	Out       string
	Evals     int
	Distinct  int
	Rule      string
	Samples   []string
	Known     []string
}

var reEvals = regexp.MustCompile(`(?m)^\s*VERIF-EVALS (\d+) (\d+) (.*)$`)
var reSample = regexp.MustCompile(`(?m)^\s*VERIF-SAMPLE (.*)$`)
var reFail = regexp.MustCompile(`(?m)VERIF-FAIL (.*)$`)
var reKnown = regexp.MustCompile(`(?m)VERIF-KNOWN (.*)$`)

// runTests replays scenarios against the real code (bounded; in-package tests through an overlay).
func runTests(pr *Property, tier, seed string, scratch string) []*testOutcome {
	var outs []*testOutcome
	byPkg := map[string][]string{}
	var order []string
	for _, t := range pr.Tests {
		if byPkg[t[0]] == nil {
			order = append(order, t[0])
		}
		byPkg[t[0]] = append(byPkg[t[0]], t[1])
	}
	for _, pkg := range order {
		bin := filepath.Join(scratch, strings.ReplaceAll(pkg, "/", "_")+".test")
		o, err := buildTest(pkg, bin, scratch)
		for _, name := range byPkg[pkg] {
			t := &testOutcome{Pkg: pkg, Name: name}
			outs = append(outs, t)
			if err != nil {
				t.Broken = true
				t.Out = "harness did not build: " + err.Error() + "\n" + o
				continue
			}
			dir := filepath.Join(scratch, "run_"+name)
			os.MkdirAll(dir, 0755)
			cmd := exec.Command("timeout", "-k", "5", "300", bin, "-test.run", "^"+name+"$", "-test.v", "-test.timeout", "280s")
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "VERIF_SEED="+seed, "VERIF_REPO="+repoDir(), "TMPDIR="+dir)
			b, err := cmd.CombinedOutput()
			t.Out = strings.ToValidUTF8(string(b), "?")
			for _, m := range reEvals.FindAllStringSubmatch(t.Out, -1) {
				n, _ := strconv.Atoi(m[1])
				d, _ := strconv.Atoi(m[2])
				t.Evals += n
				t.Distinct += d
				t.Rule = m[3]
			}
			for _, m := range reSample.FindAllStringSubmatch(t.Out, -1) {
				if len(t.Samples) < 4 {
					t.Samples = append(t.Samples, m[1])
				}
			}
			for _, m := range reKnown.FindAllStringSubmatch(t.Out, -1) {
				t.Known = append(t.Known, m[1])
			}
			if err != nil {
				if reFail.MatchString(t.Out) || strings.Contains(t.Out, "\npanic: ") || strings.HasPrefix(t.Out, "panic: ") || strings.Contains(t.Out, "fatal error: ") {
					t.Failed = true
				} else {
					t.Broken = true
				}
			}
		}
	}
	return outs
}

func buildTest(pkg, bin, scratch string) (string, error) {
	src := filepath.Join(verifDir(), "harness", strings.ReplaceAll(pkg, "/", "_"))
	files, _ := filepath.Glob(src + "/*.go")
	rep := map[string]string{}
	for _, f := range files {
		rep[filepath.Join(repoDir(), "src", pkg, filepath.Base(f))] = f
	}
	ov := filepath.Join(scratch, strings.ReplaceAll(pkg, "/", "_")+"_overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./src/"+pkg)
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false")
	o, err := cmd.CombinedOutput()
	return strings.ToValidUTF8(string(o), "?"), err
}

// knownFindings lists the accepted findings of a property.
func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			r = append(r, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
	}
	return r
}

func checkCmd(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gover check ID [quick|thorough]")
		return 2
	}
	id := args[0]
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	start := time.Now()
	props, _, err := loadProperties(filepath.Join(verifDir(), "contracts", "properties.conf"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	pr := props[id]
	if pr == nil {
		fmt.Println("no property", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "gover-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	// the real code, in scratch directories, alongside the proof
	var outs []*testOutcome
	tdone := make(chan bool)
	go func() {
		outs = runTests(pr, tier, seed, scratch)
		for _, t := range outs {
			if t.Failed { // decided: the proof only goes on to name the obligations that fail
				atomic.StoreInt32(&failLeft, 3)
				time.AfterFunc(120*time.Second, func() { atomic.StoreInt32(&failLeft, 0) })
			}
		}
		close(tdone)
	}()
	atomic.StoreInt32(&failLeft, 1<<30)
	deadline := 600 * time.Second
	if tier == "thorough" {
		deadline = 30 * time.Minute
	}
	time.AfterFunc(deadline, func() { atomic.StoreInt32(&failLeft, 0) })

	p, err := loadRepo(repoDir(), pr.Lemmas)
	if err != nil {
		fmt.Println("cannot load the code:", err)
		<-tdone
		return 2
	}
	all, err := loadSpecs(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Println(err)
		<-tdone
		return 2
	}
	s := all.slice(id, pr.Own)
	dropped := s.fit(p)
	if tier == "thorough" {
		quickTimeout = 5
	}
	reps := closure(p, s, pr, nil)
	bad := func() (n int) {
		for _, r := range reps {
			if !r.OK() {
				n++
			}
		}
		return
	}
	<-tdone
	concrete := false
	for _, t := range outs {
		concrete = concrete || t.Failed
	}
	if bad() > 0 && !concrete && time.Since(start) < 300*time.Second {
		// a slow machine may have cost a candidate invariant: once more, with more time
		quickTimeout = 5
		atomic.StoreInt32(&failLeft, 12)
		queryMemo.Lock()
		for k, v := range queryMemo.m {
			if !v {
				delete(queryMemo.m, k)
			}
		}
		queryMemo.Unlock()
		var good []*FuncReport
		var again []string
		for _, r := range reps {
			if r.OK() {
				good = append(good, r)
			} else {
				again = append(again, r.Fn)
			}
		}
		roots := pr.Roots
		pr.Roots = append(append([]string{}, roots...), again...)
		reps = closure(p, s, pr, good)
		pr.Roots = roots
	}

	// evidence
	var nOb, nDis, nTriv, nHou, nPaths int
	var under, trusted []string
	inl, ext := map[string]bool{}, map[string]bool{}
	for _, r := range reps {
		if r.Trusted != "" {
			trusted = append(trusted, r.Fn+": "+r.Trusted)
			continue
		}
		under = append(under, fmt.Sprintf("%s (%d obligations, %.1fs)", r.Fn, len(r.Obligs), r.Dur.Seconds()))
		nOb += len(r.Obligs)
		nDis += len(r.Obligs) - len(r.Failed)
		nTriv += r.Trivial
		nHou += r.Houdini
		nPaths += r.Returns
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Externs {
			ext[x] = true
		}
		if r.Subset != "" || r.Vacuous {
			nOb++
		}
	}
	assume := append([]string{}, pr.Assume...)
	for _, t := range trusted {
		assume = append(assume, "trusted contract "+t)
	}
	for _, r := range reps {
		if c := s.Contracts[r.Fn]; c != nil {
			for _, cl := range c.Clauses {
				if cl.Kind == "assumes" {
					assume = append(assume, "assumed of "+r.Fn+": "+cl.Text)
				}
			}
		}
	}
	for _, f := range mapKeys(pr.Relied) {
		assume = append(assume, "contract of "+f+" used here, its body verified by the checks of the manager's own properties (C01 and others)")
	}
	for _, a := range all.Axioms {
		assume = append(assume, "axiom "+a.Name+": "+strings.Join(strings.Fields(a.Text), " "))
	}
	assume = append(assume, commonAssumptions...)
	cov := map[string]interface{}{
		"obligations": nOb, "discharged": nDis, "trivial_obligations": nTriv, "loop_invariants_tried": nHou, "return_paths": nPaths,
		"checker_cmd":              fmt.Sprintf("cd /verif && ./check.sh %s %s", id, tier),
		"functions_under_contract": under, "inlined_functions": mapKeys(inl), "modelled_externals": mapKeys(ext),
		"contracts_not_applied": dropped,
		"solver_seconds":        float64(stats.Nanos) / 1e9, "solver_queries": stats.Queries, "discharged_by": stats.By,
		"trusted_base": append([]string{"gover (/verif/gover): translation of Go SSA to verification conditions, its models of the standard library, libdb and the file system",
			"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2"}, trusted...),
	}
	evals := 0
	if len(outs) > 0 {
		var b []map[string]interface{}
		var samples []string
		for _, t := range outs {
			evals += t.Evals
			b = append(b, map[string]interface{}{"test": "src/" + t.Pkg + " " + t.Name, "evaluations": t.Evals, "distinct_nontrivial": t.Distinct, "rule": t.Rule, "failed": t.Failed, "label": "bounded"})
			samples = append(samples, t.Samples...)
		}
		cov["bounded_replay"] = b
		cov["samples"] = samples
	}
	if len(pr.Bounded) > 0 {
		cov["bounded"] = pr.Bounded
	}

	// verdict
	code := 0
	replayDir := filepath.Join(verifDir(), "evidence", "replay")
	var lines []string
	rp := filepath.Join(replayDir, id+".txt")
	os.Remove(rp)
	var body strings.Builder
	failedObs, given := 0, 0
	for _, r := range reps {
		if r.OK() {
			continue
		}
		failedObs++
		if r.Subset != "" {
			fmt.Fprintf(&body, "OBLIGATION %s: the contract could not be verified: %s\n", r.Fn, r.Subset)
		}
		if r.Vacuous {
			fmt.Fprintf(&body, "OBLIGATION %s: no return is reachable under the contract\n", r.Fn)
		}
		seen := map[string]bool{}
		for _, o := range r.Failed {
			k := o.Name + o.Pos
			if seen[k] {
				continue
			}
			seen[k] = true
			if o.By == "not attempted" {
				given++
				continue
			}
			fmt.Fprintf(&body, "OBLIGATION %s: %s at %s (%s)\n  solver output: %s\n  path: %s\n", r.Fn, o.Name, o.Pos, o.Fn, o.By, strings.Join(o.Path, " "))
		}
	}
	if given > 0 {
		fmt.Fprintf(&body, "(%d further obligations were not attempted after these failures)\n", given)
	}
	known := knownFindings(id)
	for _, t := range outs {
		if t.Failed {
			fmt.Fprintf(&body, "\nFAILING INPUT against the real code (%s, %s):\n%s\n", t.Pkg, t.Name, tail(t.Out, 20000))
		}
		if t.Broken {
			fmt.Fprintf(&body, "\nThe replay harness gave no verdict (%s, %s):\n%s\n", t.Pkg, t.Name, tail(t.Out, 5000))
		}
		for _, k := range t.Known {
			listed := false
			for _, f := range known {
				if strings.HasPrefix(k, strings.SplitN(f, " -- ", 2)[0]) {
					listed = true
				}
			}
			if listed {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k))
			} else {
				concrete = true
				fmt.Fprintf(&body, "\nFAILING INPUT against the real code (%s, %s): %s\n", t.Pkg, t.Name, k)
			}
		}
	}
	if failedObs > 0 || concrete {
		code = 1
		os.MkdirAll(replayDir, 0755)
		hdr := fmt.Sprintf("property %s, tier %s, seed %s\n", id, tier, seed)
		if !concrete {
			hdr += "no-failing-input-found: the obligations below could not be discharged from the current source.\n"
		}
		os.WriteFile(rp, []byte(hdr+"\n"+body.String()), 0644)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", id, rp)
		if !concrete {
			l += " no-failing-input-found"
		}
		lines = append(lines, l)
	} else {
		for _, t := range outs {
			if t.Broken {
				fmt.Println("note: replay harness gave no verdict:", t.Pkg, t.Name)
				fmt.Println(tail(t.Out, 2000))
			}
		}
	}
	sort.Strings(assume)
	sd, _ := strconv.Atoi(seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": sd, "level": pr.Level, "coverage": cov, "assumptions": assume,
		"wall_s": time.Since(start).Seconds(), "violations": code,
	}
	if pr.Level == "other" {
		cov["explanation"] = strings.Join(pr.Bounded, " ")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d functions under contract, %d obligations, %d discharged, %d trusted contracts, %d bounded replays, %.1fs\n", id, tier, len(under), nOb, nDis, len(trusted), evals, time.Since(start).Seconds())
	if code != 0 {
		for i, l := range strings.Split(body.String(), "\n") {
			if i > 40 {
				break
			}
			if len(l) > 300 {
				l = l[:300]
			}
			fmt.Println(l)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}

var commonAssumptions = []string{
	"machine integers are treated as mathematical integers unless a contract says otherwise",
	"leveldb: a committed write is durable and atomic, a snapshot or iterator sees the committed state; reads fail only when the key is absent",
	"encoding/gob decodes what it encoded (round trip of the stored records)",
	"pointers passed to a function under contract do not alias each other unless they are the same parameter",
	"partial correctness: termination is not proved",
}
