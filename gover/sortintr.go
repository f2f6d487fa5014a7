package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sort.Sort, sort.Slice: the result is a permutation in the order of the comparison the program gives, whose
// body is executed on two arbitrary positions.

// evalLess runs a comparison in a copy of the state and returns it as one formula.
func (e *Exec) evalLess(p *PS, st *State, fn *ClosV, args []Value) *Term {
	c := e.c
	q := st.clone()
	n := len(q.pc)
	e.dry++
	rets := e.callFn(p, q, fn, args)
	e.dry--
	var alts []*Term
	for _, r := range rets {
		if r.st.dead {
			continue
		}
		v, ok := r.val.(*Term)
		if !ok {
			e.fail("comparison returns %T", r.val)
		}
		// the path condition may have been reordered: keep what is new
		base := map[*Term]bool{}
		for _, t := range st.pc[:n] {
			base[t] = true
		}
		fs := []*Term{v}
		for _, t := range r.st.pc {
			if !base[t] {
				fs = append(fs, t)
			}
		}
		alts = append(alts, c.And(fs...))
	}
	return c.Or(alts...)
}

func (e *Exec) sortSeq(st *State, sr *SliceRef, less func(st *State, sorted *Term, i, j *Term) *Term) {
	c := e.c
	if sr.From == nil || sr.T == nil {
		e.fail("sort of a slice without a variable")
	}
	S := sr.T
	if S.Sort.Kind != KSeq {
		e.fail("sort of %s", S.Sort.Name)
	}
	T := c.Fresh("sorted", S.Sort)
	x := c.BVar("x", S.Sort.Elem)
	st.assume(c, c.Eq(c.SeqLen(T), c.SeqLen(S)))
	st.assume(c, c.Forall([]*Term{x}, c.Eq(c.SeqMem(x, T), c.SeqMem(x, S)), []*Term{c.SeqMem(x, T)}, []*Term{c.SeqMem(x, S)}))
	st.assume(c, c.Eq(c.SeqDist(T), c.SeqDist(S)))
	st.assume(c, c.Eq(c.Fn(c.sf(T.Sort, "isnil"), c.Bool, T), c.Fn(c.sf(T.Sort, "isnil"), c.Bool, S)))
	e.store(st, sr.From, T)
	fi, fj, fk := c.Fresh("i", c.Int), c.Fresh("j", c.Int), c.Fresh("k", c.Int)
	in := func(i *Term) *Term { return c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.SeqLen(T))) }
	hy := st.clone()
	hy.assume(c, in(fi))
	hy.assume(c, in(fj))
	L := less(hy, T, fi, fj)
	// the comparison is a strict weak order
	hy.assume(c, in(fk))
	sub := func(a, b *Term) *Term { return c.Subst(L, map[*Term]*Term{fi: a, fj: b}) }
	e.check(hy, c.Not(c.And(L, sub(fj, fi))), "sort", "comparison is asymmetric")
	e.check(hy, c.Or(sub(fi, fj), sub(fj, fk), c.Not(sub(fi, fk))), "sort", "comparison is a weak order")
	i, j := c.BVar("i", c.Int), c.BVar("j", c.Int)
	st.assume(c, c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(c.IntLit(0), i), c.Lt(i, j), c.Lt(j, c.SeqLen(T))), c.Not(sub(j, i))),
		[]*Term{c.SeqAt(T, i), c.SeqAt(T, j)}))
}

func init() {
	I := intrinsics
	I["sort.Reverse"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "reverse", Arg: []Value{args[0]}})
	}
	srt := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		v := args[0]
		rev := false
		for {
			o, ok := v.(*OpaqueV)
			if !ok || o.Tag != "reverse" {
				break
			}
			rev = !rev
			v = o.Arg[0]
		}
		iv, ok := v.(*IfaceV)
		if !ok {
			e.fail("sort of %T", v)
		}
		if pt, ok := iv.V.(*PtrV); ok {
			_ = pt
			e.fail("sort through a pointer")
		}
		sr, ok := iv.V.(*SliceRef)
		if !ok {
			e.fail("sort of %T", iv.V)
		}
		if types.TypeString(iv.Dyn, nil) == "sort.StringSlice" {
			if rev {
				e.fail("reverse sort of strings")
			}
			e.store(st, sr.From, e.c.SeqSort(sr.T))
			return one(st, nil)
		}
		sel := types.NewMethodSet(iv.Dyn).Lookup(nil, "Less")
		if sel == nil {
			e.fail("no Less on %s", iv.Dyn)
		}
		m := e.P.Prog.MethodValue(sel)
		// Len and Swap are taken to be those of the slice: their bodies must say so
		e.slicelike(iv.Dyn)
		e.sortSeq(st, sr, func(st *State, T, i, j *Term) *Term {
			if rev {
				i, j = j, i
			}
			return e.evalLess(p, st, &ClosV{Fn: m}, []Value{&SliceRef{T: T}, i, j})
		})
		return one(st, nil)
	}
	I["sort.Sort"], I["sort.Stable"] = srt, srt
	sl := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		iv, ok := args[0].(*IfaceV)
		if !ok {
			e.fail("sort of %T", args[0])
		}
		sr, ok := iv.V.(*SliceRef)
		if !ok {
			e.fail("sort of %T", iv.V)
		}
		cl, ok := args[1].(*ClosV)
		if !ok {
			e.fail("comparison is %T", args[1])
		}
		e.sortSeq(st, sr, func(st *State, T, i, j *Term) *Term { return e.evalLess(p, st, cl, []Value{i, j}) })
		return one(st, nil)
	}
	I["sort.Slice"], I["sort.SliceStable"] = sl, sl
}

// slicelike checks that Len and Swap of a sorted type are those of its slice.
func (e *Exec) slicelike(t types.Type) {
	for _, n := range []string{"Len", "Swap"} {
		sel := types.NewMethodSet(t).Lookup(nil, n)
		if sel == nil {
			e.fail("no %s on %s", n, t)
		}
		fn := e.P.Prog.MethodValue(sel)
		if fn == nil || len(fn.Blocks) != 1 {
			e.fail("%s of %s is not that of a slice", n, t)
		}
		calls, stores, idx := 0, 0, 0
		for _, ins := range fn.Blocks[0].Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if ok && strings.HasPrefix(b.Name(), "ssa:") {
					continue
				}
				calls++
				if !ok || b.Name() != "len" {
					e.fail("%s of %s is not that of a slice", n, t)
				}
			case *ssa.IndexAddr:
				idx++
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok {
					stores++
				}
			}
		}
		if n == "Len" && calls != 1 || n == "Swap" && (stores != 2 || idx != 4) {
			e.fail("%s of %s is not that of a slice (%s)", n, t, fmt.Sprint(calls, stores, idx))
		}
	}
}
