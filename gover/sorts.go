package main

import (
	"fmt"
	"go/types"
	"strings"
)

// typeTable maps Go types to SMT sorts.
type typeTable struct {
	c     *Ctx
	cache map[string]*Sort
	busy  map[string]bool
}

func newTypeTable(c *Ctx) *typeTable {
	return &typeTable{c: c, cache: map[string]*Sort{}, busy: map[string]bool{}}
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isByteSlice(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}

// opaqueStruct reports struct types treated as uninterpreted sorts.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && !strings.HasPrefix(p.Path(), RepoModule)
}

// SortOf gives the sort of values of type t.
func (tt *typeTable) SortOf(t types.Type) *Sort {
	key := types.TypeString(t, nil)
	if s := tt.cache[key]; s != nil {
		return s
	}
	s := tt.sortOf(t, key)
	tt.cache[key] = s
	return s
}

func (tt *typeTable) sortOf(t types.Type, key string) *Sort {
	c := tt.c
	if isErrorType(t) {
		return c.Err
	}
	if isByteSlice(t) {
		return c.Str
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool
		case u.Info()&types.IsInteger != 0:
			return c.Int
		case u.Info()&types.IsString != 0:
			return c.Str
		}
		return c.uninterp("T_" + u.Name())
	case *types.Pointer:
		if tt.busy[key] {
			return c.uninterp("P_" + sane(shortType(t)))
		}
		tt.busy[key] = true
		defer delete(tt.busy, key)
		return c.optSort(tt.SortOf(u.Elem()))
	case *types.Slice:
		return c.seqSort(tt.SortOf(u.Elem()))
	case *types.Array:
		return c.seqSort(tt.SortOf(u.Elem()))
	case *types.Map:
		return c.arraySort(tt.SortOf(u.Key()), c.optSort(tt.SortOf(u.Elem())))
	case *types.Struct:
		if opaqueStruct(t) {
			return c.uninterp("T_" + sane(shortType(t)))
		}
		name := "R_" + sane(shortType(t))
		if _, ok := t.(*types.Named); !ok {
			name = fmt.Sprintf("R_anon%d", len(tt.cache))
		}
		if tt.busy[key] {
			return c.uninterp("X_" + sane(shortType(t)))
		}
		tt.busy[key] = true
		defer delete(tt.busy, key)
		dt := &Datatype{Ctor: "mk!" + name}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			dt.Fields = append(dt.Fields, DTField{Name: f.Name(), Sel: name + "." + f.Name(), Sort: tt.SortOf(f.Type())})
		}
		return c.addSort(&Sort{Name: name, Kind: KDT, DT: dt})
	case *types.Interface:
		return c.uninterp("Any")
	case *types.Signature:
		return c.uninterp("Func")
	}
	return c.uninterp("T_" + sane(shortType(t)))
}

// sequences -----------------------------------------------------------------

func (c *Ctx) seqSort(e *Sort) *Sort {
	n := "Seq_" + sane(e.Name)
	if s := c.sorts[n]; s != nil {
		return s
	}
	s := c.addSort(&Sort{Name: n, Kind: KSeq, Elem: e})
	c.seqAxioms(s)
	return s
}

func (c *Ctx) sf(s *Sort, op string) string { return op + "." + strings.TrimPrefix(s.Name, "Seq_") }

// SeqNil is the nil sequence.
func (c *Ctx) SeqNil(s *Sort) *Term { return c.Const(c.sf(s, "nil"), s) }

// SeqLen is the length.
func (c *Ctx) SeqLen(t *Term) *Term {
	switch {
	case t.Op == "const" && t.Name == c.sf(t.Sort, "nil"):
		return c.IntLit(0)
	case t.Op == "app" && t.Name == c.sf(t.Sort, "app"):
		return c.Add(c.SeqLen(t.Args[0]), c.IntLit(1))
	case t.Op == "app" && (t.Name == c.sf(t.Sort, "upd") || t.Name == c.sf(t.Sort, "swap")):
		return c.SeqLen(t.Args[0])
	case t.Op == "app" && t.Name == c.sf(t.Sort, "cat"):
		return c.Add(c.SeqLen(t.Args[0]), c.SeqLen(t.Args[1]))
	case t.Op == "app" && t.Name == c.sf(t.Sort, "sort"):
		return c.SeqLen(t.Args[0])
	}
	return c.Fn(c.sf(t.Sort, "len"), c.Int, t)
}

// SeqAt is the element at an index.
func (c *Ctx) SeqAt(t, i *Term) *Term {
	if t.Op == "app" && t.Name == c.sf(t.Sort, "app") {
		if d, ok := c.diffConst(i, c.SeqLen(t.Args[0])); ok {
			if d == 0 {
				return t.Args[1]
			}
			if d < 0 && i.Op == "int" && i.N >= 0 {
				return c.SeqAt(t.Args[0], i)
			}
		}
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "upd") {
		if t.Args[1] == i {
			return t.Args[2]
		}
		if c.provablyDistinct(t.Args[1], i) {
			return c.SeqAt(t.Args[0], i)
		}
	}
	return c.Fn(c.sf(t.Sort, "at"), t.Sort.Elem, t, i)
}

// SeqApp appends one element.
func (c *Ctx) SeqApp(t, x *Term) *Term { return c.Fn(c.sf(t.Sort, "app"), t.Sort, t, x) }

// SeqCat concatenates.
func (c *Ctx) SeqCat(a, b *Term) *Term {
	nilT := c.SeqNil(a.Sort)
	if b == nilT {
		return a
	}
	if a == nilT {
		return b
	}
	// appending a literal list: unfold
	if b.Op == "app" && b.Name == c.sf(b.Sort, "app") && c.litList(b) {
		return c.SeqApp(c.SeqCat(a, b.Args[0]), b.Args[1])
	}
	return c.Fn(c.sf(a.Sort, "cat"), a.Sort, a, b)
}

func (c *Ctx) litList(t *Term) bool {
	for t.Op == "app" && t.Name == c.sf(t.Sort, "app") {
		t = t.Args[0]
	}
	return t == c.SeqNil(t.Sort)
}

// SeqUpd replaces one element.
func (c *Ctx) SeqUpd(t, i, x *Term) *Term {
	// t = S[j := S[i]], x = S[j]: an exchange
	if t.Op == "app" && t.Name == c.sf(t.Sort, "upd") && x == c.SeqAt(t.Args[0], t.Args[1]) && t.Args[2] == c.SeqAt(t.Args[0], i) {
		return c.Fn(c.sf(t.Sort, "swap"), t.Sort, t.Args[0], t.Args[1], i)
	}
	return c.Fn(c.sf(t.Sort, "upd"), t.Sort, t, i, x)
}

// SeqPre is the prefix of length n.
func (c *Ctx) SeqPre(t, n *Term) *Term { return c.Fn(c.sf(t.Sort, "pre"), t.Sort, t, n) }

// SeqSub is t[a:b].
func (c *Ctx) SeqSub(t, a, b *Term) *Term {
	if a.Op == "int" && a.N == 0 {
		if b == c.SeqLen(t) {
			return t
		}
		return c.SeqPre(t, b)
	}
	return c.Fn(c.sf(t.Sort, "sub"), t.Sort, t, a, b)
}

// SeqMem is membership.
func (c *Ctx) SeqMem(x, t *Term) *Term {
	if t == c.SeqNil(t.Sort) {
		return c.False
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "app") {
		return c.Or(c.Eq(x, t.Args[1]), c.SeqMem(x, t.Args[0]))
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "cat") {
		return c.Or(c.SeqMem(x, t.Args[0]), c.SeqMem(x, t.Args[1]))
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "sort") {
		return c.SeqMem(x, t.Args[0])
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "pre") && t.Args[1].Op == "int" && t.Args[1].N == 0 {
		return c.False
	}
	return c.Fn(c.sf(t.Sort, "mem"), c.Bool, x, t)
}

// SeqDist is "no duplicates".
func (c *Ctx) SeqDist(t *Term) *Term {
	if t == c.SeqNil(t.Sort) {
		return c.True
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "app") {
		return c.And(c.SeqDist(t.Args[0]), c.Not(c.SeqMem(t.Args[1], t.Args[0])))
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "sort") {
		return c.SeqDist(t.Args[0])
	}
	return c.Fn(c.sf(t.Sort, "dist"), c.Bool, t)
}

// SeqSort is the sorted permutation.
func (c *Ctx) SeqSort(t *Term) *Term {
	if t.Op == "app" && t.Name == c.sf(t.Sort, "sort") {
		return t
	}
	if t == c.SeqNil(t.Sort) {
		return t
	}
	return c.Fn(c.sf(t.Sort, "sort"), t.Sort, t)
}

// SeqSorted is "in ascending order".
func (c *Ctx) SeqSorted(t *Term) *Term {
	if t == c.SeqNil(t.Sort) {
		return c.True
	}
	if t.Op == "app" && t.Name == c.sf(t.Sort, "sort") {
		return c.True
	}
	return c.Fn(c.sf(t.Sort, "sorted"), c.Bool, t)
}

func (c *Ctx) addAxiom(name string, needs []string, f *Term) {
	if c.axSeen[name] {
		return
	}
	c.axSeen[name] = true
	c.axioms = append(c.axioms, &Axiom{Name: name, Needs: needs, F: f})
}

// raw application without the simplifications above (for axiom bodies).
func (c *Ctx) raw(s *Sort, op string, res *Sort, args ...*Term) *Term {
	return c.Fn(c.sf(s, op), res, args...)
}

func (c *Ctx) seqAxioms(s *Sort) {
	e := s.Elem
	n := func(op string) string { return c.sf(s, op) }
	x, y := c.BVar("x", e), c.BVar("y", e)
	S, T := c.BVar("s", s), c.BVar("t", s)
	i, j := c.BVar("i", c.Int), c.BVar("j", c.Int)
	ln := func(t *Term) *Term { return c.raw(s, "len", c.Int, t) }
	at := func(t, k *Term) *Term { return c.raw(s, "at", e, t, k) }
	mem := func(a, t *Term) *Term { return c.raw(s, "mem", c.Bool, a, t) }
	app := func(t, a *Term) *Term { return c.raw(s, "app", s, t, a) }
	cat := func(t, u *Term) *Term { return c.raw(s, "cat", s, t, u) }
	pre := func(t, k *Term) *Term { return c.raw(s, "pre", s, t, k) }
	sub := func(t, k, l *Term) *Term { return c.raw(s, "sub", s, t, k, l) }
	upd := func(t, k, a *Term) *Term { return c.raw(s, "upd", s, t, k, a) }
	srt := func(t *Term) *Term { return c.raw(s, "sort", s, t) }
	dist := func(t *Term) *Term { return c.raw(s, "dist", c.Bool, t) }
	sorted := func(t *Term) *Term { return c.raw(s, "sorted", c.Bool, t) }
	idx := func(t, a *Term) *Term { return c.raw(s, "idx", c.Int, t, a) }
	isnil := func(t *Term) *Term { return c.raw(s, "isnil", c.Bool, t) }
	zero := c.IntLit(0)
	nilT := c.SeqNil(s)
	in := func(k, t *Term) *Term { return c.And(c.Le(zero, k), c.Lt(k, ln(t))) }
	ax := func(name string, f *Term, needs ...string) {
		var q []string
		for _, k := range needs {
			q = append(q, n(k))
		}
		c.addAxiom(n(name), q, f)
	}
	tr := func(ts ...*Term) []*Term { return ts }
	ax("ax_nil", c.And(c.Eq(ln(nilT), zero), isnil(nilT), dist(nilT), sorted(nilT)), "nil")
	ax("ax_len", c.Forall([]*Term{S}, c.Le(zero, ln(S)), tr(ln(S))), "len")
	ax("ax_app_len", c.Forall([]*Term{S, x}, c.And(c.Eq(ln(app(S, x)), c.Add(ln(S), c.IntLit(1))), c.Eq(at(app(S, x), ln(S)), x), c.Not(isnil(app(S, x)))), tr(app(S, x))), "app")
	ax("ax_app_at", c.Forall([]*Term{S, x, i}, c.Implies(in(i, S), c.Eq(at(app(S, x), i), at(S, i))), tr(at(app(S, x), i))), "app", "at")
	ax("ax_app_mem", c.Forall([]*Term{S, x, y}, c.Eq(mem(y, app(S, x)), c.Or(c.Eq(y, x), mem(y, S))), tr(mem(y, app(S, x)))), "app", "mem")
	ax("ax_at_mem", c.Forall([]*Term{S, i}, c.Implies(in(i, S), mem(at(S, i), S)), tr(at(S, i))), "at", "mem")
	ax("ax_mem_idx", c.Forall([]*Term{S, x}, c.Implies(mem(x, S), c.And(in(idx(S, x), S), c.Eq(at(S, idx(S, x)), x))), tr(mem(x, S))), "mem")
	ax("ax_cat", c.Forall([]*Term{S, T}, c.Eq(ln(cat(S, T)), c.Add(ln(S), ln(T))), tr(cat(S, T))), "cat")
	ax("ax_cat_at", c.Forall([]*Term{S, T, i}, c.Implies(in(i, cat(S, T)), c.Eq(at(cat(S, T), i), c.Ite(c.Lt(i, ln(S)), at(S, i), at(T, c.Sub(i, ln(S)))))), tr(at(cat(S, T), i))), "cat", "at")
	ax("ax_cat_mem", c.Forall([]*Term{S, T, x}, c.Eq(mem(x, cat(S, T)), c.Or(mem(x, S), mem(x, T))), tr(mem(x, cat(S, T)))), "cat", "mem")
	ax("ax_pre", c.Forall([]*Term{S, i}, c.And(
		c.Implies(c.And(c.Le(zero, i), c.Le(i, ln(S))), c.Eq(ln(pre(S, i)), i)),
		c.Implies(c.Eq(i, ln(S)), c.Eq(pre(S, i), S))), tr(pre(S, i))), "pre")
	ax("ax_pre_at", c.Forall([]*Term{S, i, j}, c.Implies(c.And(c.Le(zero, j), c.Lt(j, i), c.Le(i, ln(S))), c.Eq(at(pre(S, i), j), at(S, j))), tr(at(pre(S, i), j))), "pre", "at")
	ax("ax_pre_mem", c.Forall([]*Term{S, i, x}, c.And(
		c.Implies(c.And(mem(x, pre(S, i)), c.Le(zero, i), c.Le(i, ln(S))), mem(x, S)),
		c.Implies(c.Le(i, zero), c.Not(mem(x, pre(S, zero))))), tr(mem(x, pre(S, i)))), "pre", "mem")
	ax("ax_sub", c.Forall([]*Term{S, i, j}, c.Implies(c.And(c.Le(zero, i), c.Le(i, j), c.Le(j, ln(S))), c.Eq(ln(sub(S, i, j)), c.Sub(j, i))), tr(sub(S, i, j))), "sub")
	k := c.BVar("k", c.Int)
	U := c.BVar("u", s)
	ax("ax_sub_cat", c.Forall([]*Term{S, T, U, i, j}, c.Implies(c.And(c.Eq(U, cat(S, T)), c.Eq(i, ln(S)), c.Eq(j, ln(U)), c.Lt(zero, ln(T))), c.Eq(sub(U, i, j), T)), tr(sub(U, i, j), cat(S, T))), "sub", "cat")
	ax("ax_sub_at", c.Forall([]*Term{S, i, j, k}, c.Implies(c.And(c.Le(zero, i), c.Le(i, j), c.Le(j, ln(S)), c.Le(zero, k), c.Lt(k, c.Sub(j, i))), c.Eq(at(sub(S, i, j), k), at(S, c.Add(i, k)))), tr(at(sub(S, i, j), k))), "sub", "at")
	ax("ax_sub_mem", c.Forall([]*Term{S, i, j, x}, c.Implies(c.And(dist(S), c.Le(zero, i), c.Le(i, j), c.Le(j, ln(S))), c.And(
		c.Eq(mem(x, sub(S, i, j)), c.And(mem(x, S), c.Le(i, idx(S, x)), c.Lt(idx(S, x), j))),
		c.Implies(mem(x, sub(S, i, j)), c.Eq(idx(sub(S, i, j), x), c.Sub(idx(S, x), i))))), tr(mem(x, sub(S, i, j))), tr(mem(x, S), sub(S, i, j))), "sub", "mem")
	ax("ax_sub_dist", c.Forall([]*Term{S, i, j}, c.Implies(c.And(dist(S), c.Le(zero, i), c.Le(i, j), c.Le(j, ln(S))), dist(sub(S, i, j))), tr(sub(S, i, j))), "sub", "dist")
	ax("ax_upd", c.Forall([]*Term{S, i, x, j}, c.And(c.Eq(ln(upd(S, i, x)), ln(S)),
		c.Implies(in(j, S), c.Eq(at(upd(S, i, x), j), c.Ite(c.Eq(i, j), x, at(S, j))))), tr(at(upd(S, i, x), j))), "upd", "at")
	ax("ax_upd_len", c.Forall([]*Term{S, i, x}, c.Eq(ln(upd(S, i, x)), ln(S)), tr(upd(S, i, x))), "upd")
	swp := func(t, k, l *Term) *Term { return c.raw(s, "swap", s, t, k, l) }
	ax("ax_swap", c.Forall([]*Term{S, i, j}, c.Implies(c.And(in(i, S), in(j, S)), c.And(c.Eq(ln(swp(S, i, j)), ln(S)), c.Eq(dist(swp(S, i, j)), dist(S)))), tr(swp(S, i, j))), "swap")
	ax("ax_swap_mem", c.Forall([]*Term{S, i, j, x}, c.Implies(c.And(in(i, S), in(j, S)), c.Eq(mem(x, swp(S, i, j)), mem(x, S))), tr(mem(x, swp(S, i, j))), tr(mem(x, S), swp(S, i, j))), "swap", "mem")
	ax("ax_swap_at", c.Forall([]*Term{S, i, j, k}, c.Implies(c.And(in(i, S), in(j, S), in(k, S)), c.Eq(at(swp(S, i, j), k), c.Ite(c.Eq(k, i), at(S, j), c.Ite(c.Eq(k, j), at(S, i), at(S, k))))), tr(at(swp(S, i, j), k))), "swap", "at")
	ax("ax_sort", c.Forall([]*Term{S}, c.And(c.Eq(ln(srt(S)), ln(S)), sorted(srt(S)), c.Eq(dist(srt(S)), dist(S)), c.Eq(isnil(srt(S)), isnil(S))), tr(srt(S))), "sort")
	ax("ax_sort_mem", c.Forall([]*Term{S, x}, c.Eq(mem(x, srt(S)), mem(x, S)), tr(mem(x, srt(S))), tr(mem(x, S), srt(S))), "sort", "mem")
	ax("ax_dist_app", c.Forall([]*Term{S, x}, c.Eq(dist(app(S, x)), c.And(dist(S), c.Not(mem(x, S)))), tr(dist(app(S, x)))), "dist", "app")
	ax("ax_dist_at", c.Forall([]*Term{S, i, j}, c.Implies(c.And(dist(S), in(i, S), in(j, S), c.Eq(at(S, i), at(S, j))), c.Eq(i, j)), tr(dist(S), at(S, i), at(S, j))), "dist", "at")
	ax("ax_dist_0", c.Forall([]*Term{S}, c.Implies(c.Le(ln(S), c.IntLit(1)), dist(S)), tr(dist(S))), "dist")
	ax("ax_dist_pre", c.Forall([]*Term{S, i}, c.Implies(dist(S), dist(pre(S, i))), tr(dist(S), pre(S, i))), "dist", "pre")
	com := func(t, u *Term) *Term { return c.raw(s, "common", e, t, u) }
	ax("ax_dist_cat", c.Forall([]*Term{S, T}, c.And(
		c.Implies(dist(cat(S, T)), c.And(dist(S), dist(T))),
		c.Implies(c.And(dist(S), dist(T), c.Not(dist(cat(S, T)))), c.And(mem(com(S, T), S), mem(com(S, T), T)))), tr(dist(cat(S, T)))), "dist", "cat")
	ax("ax_dist_cat2", c.Forall([]*Term{S, T, x}, c.Implies(dist(cat(S, T)), c.Not(c.And(mem(x, S), mem(x, T)))), tr(dist(cat(S, T)), mem(x, S), mem(x, T))), "dist", "cat", "mem")
	ax("ax_sorted_0", c.Forall([]*Term{S}, c.Implies(c.Le(ln(S), c.IntLit(1)), sorted(S)), tr(sorted(S))), "sorted")
	ax("ax_sorted_pre", c.Forall([]*Term{S, i}, c.Implies(sorted(S), sorted(pre(S, i))), tr(sorted(S), pre(S, i))), "sorted", "pre")
	ax("ax_isnil", c.Forall([]*Term{S}, c.Implies(isnil(S), c.Eq(ln(S), zero)), tr(isnil(S))), "isnil")
}
