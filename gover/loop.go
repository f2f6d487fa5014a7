package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// cell is a modified location of a loop.
type cell struct {
	obj   int
	path  []PathElem
	typ   types.Type
	ghost string
	sym   *Term
	name  string
}

func (c *cell) key() string {
	if c.ghost != "" {
		return "g:" + c.ghost
	}
	s := fmt.Sprintf("o%d", c.obj)
	for _, p := range c.path {
		s += fmt.Sprintf(".%d", p.F)
	}
	return s
}

// loopCtx collects facts about the loop being executed.
type loopCtx struct {
	notes [][2]*Term
	up    *loopCtx
}

func (e *Exec) noteIndex(l, i *Term) {
	for lc := e.curIter; lc != nil; lc = lc.up {
		dup := false
		for _, n := range lc.notes {
			if n[0] == l && n[1] == i {
				dup = true
				break
			}
		}
		if !dup && len(lc.notes) < 64 {
			lc.notes = append(lc.notes, [2]*Term{l, i})
		}
	}
}

// loopRes is what leaves a loop.
type loopRes struct {
	out  edges
	rets []Ret
}

type iterFn func(p *PS) (back []*PS, res loopRes)

func (e *Exec) execLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ps []*PS) (edges, []Ret) {
	out := edges{}
	var rets []Ret
	for _, p := range ps {
		p := p
		name := fmt.Sprintf("%s.loop%d", shortName(h.Parent()), h.Index)
		if n := constTrips(h, p); n >= 0 {
			// a range over a short literal: run every iteration
			cur := []*PS{p}
			for k := 0; k <= n && len(cur) > 0; k++ {
				o, r := e.runRegion(h, body, cur, true)
				cur = e.merge(o[h], h)
				delete(o, h)
				for k, v := range o {
					out[k] = append(out[k], v...)
				}
				rets = append(rets, r...)
			}
			if len(cur) > 0 {
				e.fail("%s: constant loop did not end", name)
			}
			continue
		}
		res := e.loop(p, name, func(q *PS) ([]*PS, loopRes) {
			o, r := e.runRegion(h, body, []*PS{q}, true)
			back := o[h]
			delete(o, h)
			return e.merge(back, h), loopRes{o, r}
		})
		for k, v := range res.out {
			out[k] = append(out[k], v...)
		}
		rets = append(rets, res.rets...)
	}
	return out, rets
}

// constTrips returns the number of iterations of a range loop over a slice of
// known small length, or -1.
func constTrips(h *ssa.BasicBlock, p *PS) int {
	if h.Comment != "rangeindex.loop" {
		return -1
	}
	for _, in := range h.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS {
			if t, ok := p.fr.regs[b.Y].(*Term); ok && t.Op == "int" && t.N <= 9 {
				return int(t.N) + 1
			}
		}
	}
	return -1
}

func (e *Exec) diffVal(sa, sb *State, a, b Value, t types.Type, obj int, path []PathElem, out map[string]*cell) {
	c := e.c
	if sameVal(a, b) || b == nil || a == nil {
		return
	}
	add := func() {
		if os.Getenv("GOVER_CELL") != "" {
			fmt.Fprintf(os.Stderr, "   differs o%d%v: %v -> %v\n", obj, path, a, b)
		}
		cl := &cell{obj: obj, path: append([]PathElem{}, path...), typ: t}
		out[cl.key()] = cl
	}
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.Sort.Kind == KDT && isStruct(t) {
				for i := range x.Sort.DT.Fields {
					p := append(path[:len(path):len(path)], PathElem{F: i})
					e.diffVal(sa, sb, c.Sel(x, i), c.Sel(y, i), typeAt(t, []PathElem{{F: i}}), obj, p, out)
				}
				return
			}
			add()
			return
		case *StructV:
			e.diffVal(sa, sb, e.expand(sa.clone(), x, t), y, t, obj, path, out)
			return
		case *SliceRef, *IfaceV, *OpaqueV, *EncV:
			add()
			return
		}
	case *StructV:
		var y *StructV
		switch b := b.(type) {
		case *StructV:
			y = b
		case *Term:
			y = e.expand(sb.clone(), b, t)
		}
		if y != nil {
			for i := range x.F {
				p := append(path[:len(path):len(path)], PathElem{F: i})
				e.diffVal(sa, sb, x.F[i], y.F[i], typeAt(t, []PathElem{{F: i}}), obj, p, out)
			}
			return
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			for i := range x.E {
				p := append(path[:len(path):len(path)], PathElem{F: i})
				e.diffVal(sa, sb, x.E[i], y.E[i], x.T, obj, p, out)
			}
			return
		}
	case *SnapV, *PtrV, *SliceRef, *IfaceV, *OpaqueV:
		if ta, ok := pure(a); ok {
			if tb, ok := pure(b); ok && ta == tb {
				return
			}
		}
		if !isStruct(deref(t)) && isErrorType(t) {
			add()
			return
		}
		add()
		return
	case *EncV:
		add()
		return
	}
	e.fail("loop changes a %T to %T (%s)", a, b, t)
}

func (e *Exec) diffState(a, b *State) map[string]*cell {
	out := map[string]*cell{}
	var ids []int
	for id := range a.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if w, ok := b.objs[id]; ok {
			e.diffVal(a, b, a.objs[id], w, e.objType[id], id, nil, out)
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			out["g:"+k] = &cell{ghost: k}
		}
	}
	for k, v := range b.ghost {
		if _, ok := a.ghost[k]; !ok {
			_ = v
			e.fail("ghost %s first touched inside a loop", k)
		}
	}
	return out
}

func (e *Exec) cellVal(s *State, cl *cell) *Term {
	if cl.ghost != "" {
		return s.ghost[cl.ghost]
	}
	v := e.getPath(s, s.objs[cl.obj], e.objType[cl.obj], cl.path)
	return e.toTerm(s, v, cl.typ)
}

func (e *Exec) havoc(s *State, cells []*cell) {
	c := e.c
	for _, cl := range cells {
		if cl.ghost != "" {
			cl.sym = c.Fresh("h_"+strings.NewReplacer(":", "_", "*", "X", "/", "_").Replace(cl.ghost), s.ghost[cl.ghost].Sort)
			s.ghost[cl.ghost] = cl.sym
			continue
		}
		cl.sym = c.Fresh("h", c.types.SortOf(cl.typ))
		if b, ok := cl.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			s.assume(c, c.Le(c.IntLit(0), cl.sym))
		}
		if _, isMap := cl.typ.Underlying().(*types.Map); isMap && len(cl.path) == 0 && cl.sym.Sort.Kind == KArray {
			s.objs[cl.obj] = cl.sym // the content of a map
			continue
		}
		s.objs[cl.obj] = e.setPath(s, s.objs[cl.obj], e.objType[cl.obj], cl.path, e.wrap(s, cl.sym, cl.typ))
	}
}

func freshNo(t *Term) int {
	i := strings.LastIndexByte(t.Name, '!')
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(t.Name[i+1:])
	if err != nil {
		return 0
	}
	return n
}

// stable reports that the term only uses constants made before mark and no havoc symbol.
func (e *Exec) stable(t *Term, mark int, hs map[*Term]bool, seen map[*Term]bool) bool {
	ok := true
	collect(t, seen, func(x *Term) {
		if x.Op == "const" && (hs[x] || !strings.HasPrefix(x.Name, "str!") && freshNo(x) > mark) {
			ok = false
		}
	})
	return ok
}

var queryMemo = struct {
	sync.Mutex
	m map[[32]byte]bool
}{m: map[[32]byte]bool{}}

func (e *Exec) quick(facts []*Term, goal *Term) bool {
	if goal == e.c.True {
		return true
	}
	for _, f := range facts {
		if f == goal {
			return true
		}
	}
	q := e.c.Query(facts, goal)
	return quickQ(q)
}

func quickQ(q string) bool { return quickD(q, false) }

// quickD tries, when deep is set, a model-based configuration after the
// e-matching ones gave up: a candidate stated in a contract is worth it.
func quickD(q string, deep bool) bool {
	h := sha256.Sum256([]byte(q))
	if deep {
		h[0]++
	}
	queryMemo.Lock()
	r, ok := queryMemo.m[h]
	queryMemo.Unlock()
	if ok {
		return r
	}
	if atomic.LoadInt32(&failLeft) <= 0 {
		return false
	}
	var why string
	r, why = prove(q, true, quickTimeout)
	if !r && deep && !strings.HasSuffix(why, ": sat") {
		cf := cfgZ3Def(quickTimeout)
		if runSolver(context.Background(), cf, q) == "unsat" {
			r = true
			stats.mu.Lock()
			stats.By[cf.name]++
			stats.mu.Unlock()
		}
	}
	queryMemo.Lock()
	queryMemo.m[h] = r
	queryMemo.Unlock()
	return r
}

// filter keeps the candidates provable from facts after substitution.
func (e *Exec) filter(facts []*Term, cands []*Term, sub map[*Term]*Term, why string) []*Term {
	c := e.c
	goals := make([]*Term, len(cands))
	for i, t := range cands {
		goals[i] = c.Subst(t, sub)
	}
	facts = append(append([]*Term{}, e.facts...), facts...)
	if e.quick(facts, c.And(goals...)) {
		return cands
	}
	qs := make([]string, len(cands))
	for i := range goals {
		if goals[i] == c.True {
			continue
		}
		qs[i] = c.Query(facts, goals[i])
	}
	ok := make([]bool, len(cands))
	var wg sync.WaitGroup
	for i := range goals {
		if goals[i] == c.True {
			ok[i] = true
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ok[i] = quickD(qs[i], e.userCand[cands[i]])
		}(i)
	}
	wg.Wait()
	var out []*Term
	for i, t := range cands {
		if ok[i] {
			out = append(out, t)
		} else if e.loopDbg {
			fmt.Fprintf(os.Stderr, "  drop (%s): %s\n", why, c.Show(t))
			if os.Getenv("GOVER_DROP") != "" && strings.Contains(c.Show(t), os.Getenv("GOVER_DROP")) {
				os.WriteFile(fmt.Sprintf("/tmp/drop_%d.smt2", t.ID), []byte(qs[i]), 0644)
				fmt.Fprintf(os.Stderr, "   -> /tmp/drop_%d.smt2\n", t.ID)
			}
		}
	}
	return out
}

func (e *Exec) loop(entry *PS, name string, iter iterFn) loopRes {
	c := e.c
	lc := &loopCtx{up: e.curIter}
	e.curIter = lc
	defer func() { e.curIter = lc.up }()
	entry = entry.clone()
	callsN := len(entry.st.calls)
	check := func(back []*PS) {
		for _, b := range back {
			if len(b.fr.defers) != len(entry.fr.defers) {
				e.fail("defer inside a loop")
			}
			for k := range entry.st.locks {
				if k < staleKey && b.st.locks[k] == 0 {
					e.check(b.st, c.False, "lock", "locks balanced in "+name)
					e.fail("lock state changes across loop iterations in %s", name)
				}
			}
			for k, v := range b.st.locks {
				if k < staleKey && entry.st.locks[k] != v {
					e.check(b.st, c.False, "lock", "locks balanced in "+name)
					e.fail("lock state changes across loop iterations in %s", name)
				}
			}
			if len(b.st.calls) != callsN {
				b.st.calls = append(b.st.calls[:callsN:callsN], CallRec{Name: "*"})
			}
		}
	}
	mark0, obj0 := c.fresh, e.nextObj
	// find the modified cells
	var cells []*cell
	keys := map[string]bool{}
	callsMod := false
	e.dry++
	var h *PS
	for round := 0; ; round++ {
		if round > 8 {
			e.fail("modified set of %s does not settle", name)
		}
		c.fresh, e.nextObj = mark0, obj0
		h = entry.clone()
		e.havoc(h.st, cells)
		if callsMod {
			h.st.calls = append(h.st.calls, CallRec{Name: "*"})
			callsN = len(h.st.calls)
		}
		lc.notes = nil
		mark := c.fresh
		back, _ := iter(h.clone())
		c.fresh = mark
		ch := false
		for _, b := range back {
			if len(b.st.calls) != callsN && !callsMod {
				callsMod = true
				ch = true
			}
			d := e.diffState(h.st, b.st)
			var ks []string
			for k := range d {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if !keys[k] {
					covered := false
					for o := range keys {
						if strings.HasPrefix(k, o+".") {
							covered = true
						}
					}
					if covered {
						continue
					}
					keys[k] = true
					cells = append(cells, d[k])
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	e.dry--
	mark, obj := c.fresh, e.nextObj
	stabMark := mark
	notes := lc.notes
	hs := map[*Term]bool{}
	for _, cl := range cells {
		hs[cl.sym] = true
	}
	steps := e.stepFacts(notes, mark, hs)
	mark = c.fresh
	run := func(inv []*Term) ([]*PS, loopRes) {
		c.fresh, e.nextObj = mark, obj
		q := h.clone()
		for _, t := range inv {
			if !q.st.assume(c, t) {
				q.st.dead = true
			}
		}
		for _, f := range steps {
			q.st.assume(c, f)
		}
		if q.st.dead {
			return nil, loopRes{out: edges{}}
		}
		back, res := iter(q)
		check(back)
		return back, res
	}
	if e.dry > 0 && e.houdini == 0 {
		_, res := run(nil)
		return res
	}
	// candidate invariants
	cands := e.candidates(entry.st, h.st, cells, notes, stabMark, hs)
	subOf := func(s *State) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, cl := range cells {
			m[cl.sym] = e.cellVal(s, cl)
		}
		return m
	}
	n0 := len(cands)
	runMark, runObj := c.fresh, e.nextObj
	if runObj < obj {
		runObj = obj
	}
	mark, obj = runMark, runObj
	cands = e.filter(entry.st.pc, cands, subOf(entry.st), "entry")
	n1 := len(cands)
	rounds := 0
	for {
		rounds++
		e.dry++
		e.houdini++
		back, _ := run(cands)
		e.houdini--
		e.dry--
		n := len(cands)
		for _, b := range back {
			if b.st.dead {
				continue
			}
			cands = e.filter(b.st.pc, cands, subOf(b.st), "step")
		}
		if len(cands) == n || rounds > 12 {
			if rounds > 12 {
				cands = nil
			}
			break
		}
	}
	if e.loopDbg {
		fmt.Fprintf(os.Stderr, "%s: %d candidates, %d hold at entry, %d inductive after %d rounds (dry=%d, cells=%d)\n", name, n0, n1, len(cands), rounds, e.dry, len(cells))
		if e.dry == 0 {
			for _, cl := range cells {
				fmt.Fprintf(os.Stderr, "   cell %s %s = %s\n", cl.key(), cl.name, cl.sym.Name)
			}
			for _, t := range cands {
				fmt.Fprintln(os.Stderr, "   inv", c.Show(t))
			}
		}
	}
	_, res := run(cands)
	if e.dry == 0 {
		e.loopKeep[name] = map[string]bool{}
		for _, t := range cands {
			e.loopKeep[name][c.Show(t)] = true
		}
	}
	return res
}

// usable returns the (list, index) pairs whose list does not change in the loop.
func (e *Exec) usable(notes [][2]*Term, mark int, hs map[*Term]bool, changing bool) [][2]*Term {
	var out [][2]*Term
	for _, n := range notes {
		if !e.stable(n[0], mark, hs, map[*Term]bool{}) && !(changing && hs[n[0]]) {
			continue
		}
		// the index must be a header symbol plus invariant terms
		m := map[*Term]int64{}
		e.c.linear(n[1], 1, m)
		cnt := 0
		ok := true
		for t, k := range m {
			if hs[t] {
				cnt++
				if k != 1 {
					ok = false
				}
			} else if !e.stable(t, mark, hs, map[*Term]bool{}) {
				ok = false
			}
		}
		if ok && cnt == 1 {
			out = append(out, n)
		}
	}
	return out
}

func (e *Exec) stepFacts(notes [][2]*Term, mark int, hs map[*Term]bool) []*Term {
	c := e.c
	var out []*Term
	for _, n := range e.usable(notes, mark, hs, false) {
		l, i := n[0], n[1]
		i1 := c.Add(i, c.IntLit(1))
		g := c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.SeqLen(l)))
		x := c.BVar("x", l.Sort.Elem)
		a, b := c.SeqMem(x, c.SeqPre(l, i1)), c.SeqMem(x, c.SeqPre(l, i))
		at := c.SeqAt(l, i)
		out = append(out, c.Implies(g, c.Forall([]*Term{x}, c.Eq(a, c.Or(b, c.Eq(x, at))), []*Term{a}, []*Term{b})))
		out = append(out, c.Implies(g, c.SeqMem(at, l)))
		out = append(out, c.Implies(c.And(g, c.SeqDist(l)), c.Not(c.SeqMem(at, c.SeqPre(l, i)))))
		out = append(out, c.Implies(c.Le(c.SeqLen(l), i), c.Eq(c.SeqPre(l, i), l)))
		out = append(out, c.Implies(g, c.Eq(c.SeqPre(l, i1), c.SeqApp(c.SeqPre(l, i), at))))
		y := c.BVar("y", l.Sort.Elem)
		my := c.SeqMem(y, c.SeqPre(l, i))
		if l.Sort.Elem == c.Str {
			out = append(out, c.Implies(c.And(g, c.SeqSorted(l)), c.Forall([]*Term{y}, c.Implies(my, e.strLe(y, at)), []*Term{my})))
			ml := c.SeqMem(y, l)
			out = append(out, c.Implies(c.And(g, c.SeqSorted(l)), c.Forall([]*Term{y}, c.Implies(c.And(ml, c.Not(my)), e.strLe(at, y)), []*Term{ml})))
		}
	}
	return out
}

// candidates builds the candidate invariants over the havoc symbols.
func (e *Exec) candidates(entry, h *State, cells []*cell, notes [][2]*Term, mark int, hs map[*Term]bool) []*Term {
	c := e.c
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if t == nil || t == c.True || t == c.False || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	old := func(cl *cell) *Term { return e.cellVal(entry, cl) }
	us := e.usable(notes, mark, hs, false)
	if len(us) > 6 {
		us = us[:6]
	}
	subE := map[*Term]*Term{}
	for _, cl := range cells {
		subE[cl.sym] = old(cl)
	}
	for _, n := range us {
		l, i := n[0], n[1]
		add(c.Le(c.IntLit(0), i))
		add(c.Le(i, c.SeqLen(l)))
		i0 := c.Subst(i, subE)
		add(c.Le(i0, i))
		add(c.Or(c.Le(i, i0), c.Le(i, c.SeqLen(l))))
	}
	for _, cl := range cells {
		s := cl.sym
		switch s.Sort.Kind {
		case KInt:
			add(c.Le(old(cl), s))
			add(c.Le(c.IntLit(0), s))
		case KSeq:
			o := old(cl)
			add(c.SeqDist(s))
			add(c.SeqSorted(s))
			add(c.Le(c.SeqLen(o), c.SeqLen(s)))
			x := c.BVar("x", s.Sort.Elem)
			mx := c.SeqMem(x, s)
			add(c.Forall([]*Term{x}, c.Implies(c.SeqMem(x, o), mx), []*Term{mx}, []*Term{c.SeqMem(x, o)}))
			for _, n := range us {
				if n[0].Sort != s.Sort {
					continue
				}
				pre := c.SeqMem(x, c.SeqPre(n[0], n[1]))
				add(c.Forall([]*Term{x}, c.Implies(mx, c.Or(c.SeqMem(x, o), pre)), []*Term{mx}))
				add(c.Forall([]*Term{x}, c.Eq(mx, c.Or(c.SeqMem(x, o), pre)), []*Term{mx}, []*Term{pre}))
				add(c.Eq(s, c.SeqCat(o, c.SeqPre(n[0], n[1]))))
				for _, pd := range e.preds(h, s.Sort.Elem) {
					p := pd(x)
					add(c.Forall([]*Term{x}, c.Eq(mx, c.Or(c.SeqMem(x, o), c.And(pre, p))), []*Term{mx}, []*Term{pre}))
					add(c.Forall([]*Term{x}, c.Implies(mx, c.Or(c.SeqMem(x, o), p)), []*Term{mx}))
				}
			}
			for _, n := range us {
				add(c.Eq(c.SeqLen(s), c.Add(c.SeqLen(o), n[1])))
				add(c.Le(c.SeqLen(s), c.Add(c.SeqLen(o), n[1])))
			}
		}
	}
	// the frame of the function
	for _, cl := range e.spec.Clauses {
		if cl.Kind != "modifies" || cl.E == nil {
			continue
		}
		for _, k := range cells {
			if k.ghost == cl.Names[0] {
				n := 0
				for _, o := range e.spec.Clauses {
					if o.Kind == "modifies" && o.Names[0] == k.ghost {
						n++
					}
				}
				if n == 1 {
					i := e.T(cl.E, &scope{st: e.old, old: e.old, env: e.env})
					add(c.Eq(k.sym, c.Store(e.old.ghost[k.ghost], i, c.Select(k.sym, i))))
				}
			}
		}
	}
	// user candidates
	var split func(u *Term)
	split = func(u *Term) {
		if u != nil && u.Op == "and" {
			for _, a := range u.Args {
				split(a)
			}
			return
		}
		add(u)
		e.userCand[u] = true
	}
	for _, u := range e.userCandidates(entry, h, cells, us, e.usable(notes, mark, hs, true), subE) {
		split(u)
	}
	return out
}
