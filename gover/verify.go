package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncReport is the outcome of verifying one function against its contract.
type FuncReport struct {
	Fn       string
	Trusted  string
	Obligs   []*Oblig
	Trivial  int
	Houdini  int
	Inlined  []string
	Called   []string
	Externs  []string
	Paths    int
	Returns  int
	Subset   string // reason the function is outside the verifier's subset
	Vacuous  bool
	Dur      time.Duration
	Failed   []*Oblig
	Notfound bool
}

// OK reports whether every obligation was discharged.
func (r *FuncReport) OK() bool {
	return r.Trusted != "" || (len(r.Failed) == 0 && r.Subset == "" && !r.Vacuous && !r.Notfound)
}

func mapKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func newExec(p *Program, s *Specs) *Exec {
	c := newCtx()
	c.types = newTypeTable(c)
	e := &Exec{P: p, S: s, c: c, objType: map[int]types.Type{}, infos: map[*ssa.Function]*fnInfo{}, inlined: map[string]bool{}, userCand: map[*Term]bool{}, filePos: map[int]bool{},
		called: map[string]bool{}, externs: map[string]bool{}, globals: map[*ssa.Global]int{}, loopKeep: map[string]map[string]bool{},
		noInline: map[string]bool{}, readOnly: map[int]bool{}, elemSet: map[int]bool{}, pathsMax: 4000}
	e.background()
	return e
}

// background states the facts about strings used by the translation.
func (e *Exec) background() {
	c := e.c
	s, t, u := c.BVar("s", c.Str), c.BVar("t", c.Str), c.BVar("u", c.Str)
	n, m := c.BVar("n", c.Int), c.BVar("m", c.Int)
	le := func(a, b *Term) *Term { return c.Fn("strle", c.Bool, a, b) }
	ln := func(a *Term) *Term { return c.Fn("strlen", c.Int, a) }
	tr := func(ts ...*Term) []*Term { return ts }
	c.addAxiom("str_refl", []string{"strle"}, c.Forall([]*Term{s}, le(s, s), tr(le(s, s))))
	c.addAxiom("str_trans", []string{"strle"}, c.Forall([]*Term{s, t, u}, c.Implies(c.And(le(s, t), le(t, u)), le(s, u)), tr(le(s, t), le(t, u))))
	c.addAxiom("str_anti", []string{"strle"}, c.Forall([]*Term{s, t}, c.And(c.Or(le(s, t), le(t, s)), c.Implies(c.And(le(s, t), le(t, s)), c.Eq(s, t))), tr(le(s, t))))
	c.addAxiom("str_len", []string{"strlen"}, c.Forall([]*Term{s}, c.Le(c.IntLit(0), ln(s)), tr(ln(s))))
	be := func(a *Term) *Term { return c.Fn("be64", c.Str, a) }
	ub := func(a *Term) *Term { return c.Fn("unbe64", c.Int, a) }
	k8 := func(a *Term) *Term { return c.Fn("iskey8", c.Bool, a) }
	c.addAxiom("be64", []string{"be64"}, c.Forall([]*Term{n}, c.And(c.Implies(c.Le(c.IntLit(0), n), c.Eq(ub(be(n)), n)), k8(be(n)), c.Eq(ln(be(n)), c.IntLit(8))), tr(be(n))))
	c.addAxiom("be64_ord", []string{"be64", "strle"}, c.Forall([]*Term{n, m}, c.Implies(c.And(c.Le(c.IntLit(0), n), c.Le(c.IntLit(0), m)), c.Eq(le(be(n), be(m)), c.Le(n, m))), tr(le(be(n), be(m)))))
	c.addAxiom("unbe64", []string{"unbe64"}, c.Forall([]*Term{s}, c.And(c.Le(c.IntLit(0), ub(s)), c.Implies(k8(s), c.Eq(be(ub(s)), s))), tr(ub(s))))
	c.addAxiom("key8", []string{"iskey8"}, c.Forall([]*Term{s}, c.Implies(k8(s), c.Eq(ln(s), c.IntLit(8))), tr(k8(s))))
	z := func(a *Term) *Term { return c.Fn("zeros", c.Str, a) }
	c.addAxiom("zeros", []string{"zeros"}, c.Forall([]*Term{n}, c.Implies(c.Le(c.IntLit(0), n), c.Eq(ln(z(n)), n)), tr(z(n))))
	ss := c.seqSort(c.Str)
	S := c.BVar("s", ss)
	at := func(a, k *Term) *Term { return c.raw(ss, "at", c.Str, a, k) }
	sl := c.raw(ss, "len", c.Int, S)
	c.addAxiom("str_sorted", []string{c.sf(ss, "sorted"), c.sf(ss, "at")}, c.Forall([]*Term{S, n, m},
		c.Implies(c.And(c.raw(ss, "sorted", c.Bool, S), c.Le(c.IntLit(0), n), c.Le(n, m), c.Lt(m, sl)), le(at(S, n), at(S, m))),
		tr(c.raw(ss, "sorted", c.Bool, S), at(S, n), at(S, m))))
}

// ghosts introduces the ghost state.
func (e *Exec) ghosts(st *State) {
	c := e.c
	for _, g := range e.S.Ghosts {
		st.ghost[g.Name] = c.Const("g0_"+g.Name, e.sortByName(g.Sort))
	}
	for _, sh := range e.S.ShapeList {
		f := strings.SplitN(sh, " ", 2)
		t := e.shapeType(f[0])
		if t == nil {
			e.fail("shape %s: no type %s", f[0], e.S.Shapes[f[0]])
		}
		so := c.arraySort(c.Str, c.optSort(c.types.SortOf(t)))
		for i := 0; i < strings.Count(f[1], "*"); i++ {
			so = c.arraySort(c.Str, so)
		}
		st.ghost[f[0]] = c.Const("g0_"+f[0], so)
	}
}

var dumpDir = os.Getenv("GOVER_DUMP")

// generate runs the symbolic execution and collects obligations.
func generate(p *Program, s *Specs, name string, opt *checkOpt) (rep *FuncReport, e *Exec) {
	rep = &FuncReport{Fn: name}
	start := time.Now()
	defer func() { rep.Dur = time.Since(start) }()
	con := s.Contracts[name]
	if con.Trusted != "" {
		rep.Trusted = con.Trusted
		return rep, nil
	}
	fn := p.Funcs[name]
	if fn == nil {
		rep.Notfound = true
		rep.Subset = "function " + name + " does not exist"
		return rep, nil
	}
	e = newExec(p, s)
	e.loopDbg = os.Getenv("GOVER_LOOP") != ""
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				rep.Subset = x.msg
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				rep.Subset = fmt.Sprintf("internal: %v (%s)", r, e.where())
			}
			if e.curPos.IsValid() {
				rep.Subset += " at " + e.pos(e.curPos)
			}
		}
		rep.Inlined, rep.Called, rep.Externs = mapKeys(e.inlined), mapKeys(e.called), mapKeys(e.externs)
		rep.Trivial, rep.Houdini = e.trivial, e.houdini
		for _, o := range e.obligs {
			if opt.wants(o) {
				rep.Obligs = append(rep.Obligs, o)
			}
		}
	}()
	e.target, e.spec, e.opt = fn, con, opt
	st := &State{objs: map[int]Value{}, ghost: map[string]*Term{}, locks: map[int]int{}}
	e.ghosts(st)
	if len(con.Params) != len(fn.Params) {
		e.fail("contract of %s names %d parameters, function has %d", name, len(con.Params), len(fn.Params))
	}
	env := map[string]Value{}
	e.env = env
	var args []Value
	for i, pr := range fn.Params {
		d := 0
		if con.Nullable[con.Params[i]] {
			d = 1
		}
		v := e.symbolic(st, con.Params[i], pr.Type(), con.Alloc, d)
		args = append(args, v)
		env[con.Params[i]] = v
	}
	for _, a := range s.Axioms {
		if a.Name == "cat_assoc" { // written terms are normalised: stated here
			c := e.c
			x, y, z := c.BVar("a", c.Str), c.BVar("b", c.Str), c.BVar("d", c.Str)
			cat := func(a, b *Term) *Term { return c.Fn("strcat", c.Str, a, b) }
			c.addAxiom("cat_assoc", []string{"strcat"}, c.Forall([]*Term{x, y, z}, c.Eq(cat(cat(x, y), z), cat(x, cat(y, z))), []*Term{cat(cat(x, y), z)}))
			continue
		}
		e.facts = append(e.facts, e.T(a.E, &scope{st: st, old: st, env: map[string]Value{}}))
	}
	for _, cl := range con.Clauses {
		if cl.Kind == "unset" {
			q, t := e.unsetField(st, cl, env)
			e.store(st, q, e.zero(t))
		}
	}
	for _, cl := range con.Clauses {
		if cl.Kind == "requires" {
			st.assume(e.c, e.T(cl.E, &scope{st: st, old: st, env: env}))
		}
	}
	for _, cl := range con.Clauses {
		if cl.Kind == "holds" {
			st.locks[e.specLock(cl.E, &scope{st: st, old: st, env: env})] = 1
		}
	}
	e.old = st.clone()
	for i := range args {
		if sr, ok := args[i].(*SliceRef); ok && sr.From == nil && sr.T != nil {
			args[i] = sr.T
		}
	}
	rets := e.execFunc(st, fn, args, nil)
	rep.Returns = len(rets)
	res := fn.Signature.Results()
	for _, r := range rets {
		env2 := map[string]Value{}
		for k, v := range env {
			env2[k] = v
		}
		if res.Len() == 1 {
			env2[con.Results[0]] = r.val
		} else if res.Len() > 1 {
			for i, v := range r.val.(TupleV) {
				if i < len(con.Results) {
					env2[con.Results[i]] = v
				}
			}
		}
		// errors compare as terms
		for i := 0; i < res.Len() && i < len(con.Results); i++ {
			if isErrorType(res.At(i).Type()) {
				env2[con.Results[i]] = e.toErr(r.st, env2[con.Results[i]])
			}
		}
		sc := &scope{st: r.st, old: e.old, env: env2}
		e.curPos = fn.Pos()
		for _, cl := range con.Clauses {
			switch cl.Kind {
			case "lemma":
				g := e.T(cl.E, sc)
				e.check(r.st, g, "lemma", clauseName(cl))
				r.st.assume(e.c, g)
			case "ensures":
				e.check(r.st, e.T(cl.E, sc), "ensures", clauseName(cl))
			}
		}
		if con.NoErr && res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
			e.check(r.st, e.c.Eq(e.T(&Expr{Op: "ident", Name: con.Results[res.Len()-1]}, sc), e.errNil()), "ensures", "never fails")
		}
		e.frameChecks(r.st, con, env)
		for k, v := range r.st.locks {
			if k < staleKey && e.old.locks[k] != v {
				e.check(r.st, e.c.False, "lock", "every lock taken is released on return")
			}
		}
		for k := range e.old.locks {
			if r.st.locks[k] == 0 {
				e.check(r.st, e.c.False, "lock", "the caller's lock is still held on return")
			}
		}
	}
	// vacuity: some return must be reachable
	if len(rets) > 0 {
		rep.Vacuous = true
		for _, r := range rets {
			facts := append(append([]*Term{}, e.facts...), r.st.pc...)
			if ok, _ := prove(e.c.Query(facts, e.c.False), true, 2); !ok {
				rep.Vacuous = false
				break
			}
		}
	}
	return rep, e
}

// unsetField finds the field an unset clause names.
func (e *Exec) unsetField(st *State, cl *Clause, env map[string]Value) (*PtrV, types.Type) {
	parts := strings.Split(cl.Names[0], ".")
	pv, ok := env[parts[0]].(*PtrV)
	if !ok {
		e.fail("unset: %s is no object", parts[0])
	}
	obj, path, t := e.fieldPath(st, pv, parts[1:])
	return &PtrV{Obj: obj, Path: path}, t
}

func (e *Exec) frameChecks(st *State, con *Contract, env map[string]Value) {
	c := e.c
	mod := map[string][]*Clause{}
	for _, cl := range con.Clauses {
		if cl.Kind == "modifies" {
			mod[strings.Split(cl.Names[0], ".")[0]] = append(mod[strings.Split(cl.Names[0], ".")[0]], cl)
		}
	}
	var gs []string
	for g := range e.old.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		a, b := e.old.ghost[g], st.ghost[g]
		if a == b {
			continue
		}
		cls := mod[g]
		want := a
		all := false
		for _, cl := range cls {
			if cl.E == nil {
				all = true
				break
			}
			i := e.T(cl.E, &scope{st: e.old, old: e.old, env: env})
			want = c.Store(want, i, c.Select(b, i))
		}
		if !all {
			e.check(st, c.Eq(b, want), "frame", "only what the contract of "+con.Fn+" allows of "+g+" changes")
		}
	}
	// objects reachable from parameters
	type lim struct {
		obj  int
		path []PathElem
	}
	var allowed []lim
	for _, cls := range mod {
		for _, cl := range cls {
			parts := strings.Split(cl.Names[0], ".")
			pv, ok := env[parts[0]].(*PtrV)
			if !ok {
				continue
			}
			obj, path, _ := e.fieldPath(e.old, pv, parts[1:])
			pv = &PtrV{Obj: obj}
			allowed = append(allowed, lim{pv.Obj, path})
			if m, ok := e.getPath(e.old, e.old.objs[pv.Obj], e.objType[pv.Obj], path).(*MapV); ok {
				allowed = append(allowed, lim{m.Obj, nil})
			}
		}
	}
	for _, cl := range e.diffState(e.old, st) {
		if cl.ghost != "" {
			continue
		}
		ok := false
		for _, a := range allowed {
			if a.obj == cl.obj && len(a.path) <= len(cl.path) && samePath(a.path, cl.path[:len(a.path)]) {
				ok = true
			}
		}
		if !ok && !e.filePos[cl.obj] {
			e.check(st, c.Eq(e.cellVal(e.old, cl), e.cellVal(st, cl)), "frame", fmt.Sprintf("%s changes nothing but what its contract lists (%s)", con.Fn, e.objType[cl.obj]))
		}
	}
}

// checkOpt selects obligations.
type checkOpt struct {
	Safety  bool
	Locks   bool
	Own     bool
	Timeout float64
}

func (o *checkOpt) wants(b *Oblig) bool {
	switch b.Kind {
	case "nil-deref", "index", "slice", "type-assert", "div", "panic":
		return o.Safety
	case "lock":
		return o.Locks
	case "requires", "ensures", "lemma", "always", "invariant":
		return true
	}
	return !o.Own
}

// discharge proves the obligations of a report.
func discharge(rep *FuncReport, e *Exec, timeout float64) {
	if e == nil {
		return
	}
	type job struct {
		o *Oblig
		q string
	}
	seen := map[string]*Oblig{}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range rep.Obligs {
		q := e.c.Query(o.Facts, o.Goal)
		o.Query = q
		if p := seen[q]; p != nil {
			o.Why = "same"
			continue
		}
		seen[q] = o
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Oblig) {
			defer wg.Done()
			if atomic.LoadInt32(&failLeft) <= 0 {
				o.By = "not attempted"
			} else if o.Proved, o.By = prove(o.Query, false, timeout); !o.Proved {
				atomic.AddInt32(&failLeft, -1)
			}
			o.Done = true
			<-sem
		}(o)
	}
	wg.Wait()
	for _, o := range rep.Obligs {
		if p := seen[o.Query]; p != o {
			o.Proved, o.By, o.Done = p.Proved, p.By, true
		}
		if !o.Proved {
			rep.Failed = append(rep.Failed, o)
		} else {
			o.Query = ""
		}
	}
}
