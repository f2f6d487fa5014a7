package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// goleveldb, bytes.Buffer and encoding/gob, for the verification of package libdb
// itself (everything else uses the bucket model in intr.go).
//
// Ghost state: raw (the key space), batches (what each batch will do to a key), and
// the one iterator in use: iterK (its keys), iterPos, iterRaw (its snapshot), iterErr.
// What unknown functions handed to ForEach were called with: visitK, visitV,
// visitPos (where a key was last visited), visitErr.

func isBatch(t types.Type) bool { return shortType(t) == "leveldb.Batch" }

// newBatch is an empty batch, different from every other.
func (e *Exec) newBatch(st *State, t types.Type) Value {
	c := e.c
	if st.ghost["batches"] == nil {
		e.fail("batches are outside the model")
	}
	b := c.Fresh("batch", c.types.SortOf(t))
	a := st.ghost["batches"]
	k := c.BVar("k", c.Str)
	empty := c.Fresh("emptybatch", a.Sort.Rng)
	st.assume(c, c.Forall([]*Term{k}, c.Eq(c.Select(empty, k), c.None(a.Sort.Rng.Rng)), []*Term{c.Select(empty, k)}))
	st.ghost["batches"] = c.Store(a, b, empty)
	return &SnapV{T: c.Some(b), Elem: t}
}

func (e *Exec) snapVal(st *State, v Value, what string) *Term {
	s, ok := v.(*SnapV)
	if !ok {
		e.fail("%s on %T", what, v)
	}
	if s.T.Op != "some" {
		e.check(st, e.c.IsSome(s.T), "nil-deref", what+" on nil")
		st.assume(e.c, e.c.IsSome(s.T))
	}
	return e.c.Val(s.T)
}

// unknownCall calls a function value nothing is known about.
func (e *Exec) unknownCall(p *PS, st *State, f *OpaqueV, args []Value) []Ret {
	c := e.c
	havoc := func(gs ...string) {
		for _, g := range gs {
			if a := st.ghost[g]; a != nil {
				st.ghost[g] = c.Fresh("g_"+g, a.Sort)
			}
		}
	}
	name := ""
	if f.T != nil {
		name = shortType(f.T)
	}
	if st.ghost["raw"] == nil {
		e.fail("call of unknown function value %T", f)
	}
	switch name {
	case "libdb.DbForeachFunc":
		k, v := e.str(args[0]), e.str(args[1])
		e.atCall(st, name)
		pos := c.SeqLen(st.ghost["visitK"])
		st.ghost["visitK"] = c.SeqApp(st.ghost["visitK"], k)
		st.ghost["visitV"] = c.SeqApp(st.ghost["visitV"], v)
		st.ghost["visitPos"] = c.Store(st.ghost["visitPos"], k, c.Some(pos))
		havoc("raw", "batches")
		er := c.Fresh("visiterr", c.Err)
		st.ghost["visitErr"] = er
		return one(st, er)
	case "libdb.ReadOnlyFunc", "libdb.WriterFunc":
		er := c.Fresh("bodyerr", c.Err)
		st.calls = append(st.calls[:len(st.calls):len(st.calls)], CallRec{Name: name, Args: args, Res: []Value{er}})
		e.atCall(st, name)
		if name == "libdb.ReadOnlyFunc" {
			havoc("raw", "batches")
			return one(st, er)
		}
		// the function writes through the handle it is given: into its batch
		iv, ok := args[0].(*IfaceV)
		pv, ok2 := (*PtrV)(nil), false
		if ok {
			pv, ok2 = iv.V.(*PtrV)
		}
		if !ok2 {
			e.fail("transaction on %T", args[0])
		}
		b := e.selV(nil, pv, "batch", &scope{st: st, old: st})
		bt := e.snapVal(st, b, "transaction without batch")
		a := st.ghost["batches"]
		st.ghost["batches"] = c.Store(a, bt, c.Fresh("body", a.Sort.Rng))
		return one(st, er)
	}
	e.fail("call of unknown function value of type %s", name)
	return nil
}

func init() {
	I := intrinsics
	L := "github.com/syndtr/goleveldb/leveldb"
	need := func(e *Exec, st *State) {
		if st.ghost["raw"] == nil {
			e.fail("leveldb is outside the model")
		}
	}
	I[L+".OpenFile"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		pt := resT(fn, 0).Underlying().(*types.Pointer)
		bad := st.clone()
		h := &SnapV{T: c.Some(c.Fresh("leveldb", c.types.SortOf(pt.Elem()))), Elem: pt.Elem()}
		return []Ret{{st, TupleV{h, e.errNil()}}, {bad, TupleV{e.zero(resT(fn, 0)), e.libErr(bad, "leveldbopen")}}}
	}
	I["(*"+L+".DB).Close"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		e.snapVal(st, args[0], "Close")
		return one(st, e.c.Fresh("closeerr", e.c.Err))
	}
	I["(*"+L+".DB).Get"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		c := e.c
		e.snapVal(st, args[0], "Get")
		o := c.Select(st.ghost["raw"], e.str(args[1]))
		bad := st.clone()
		var out []Ret
		if st.assume(c, c.IsSome(o)) {
			out = append(out, Ret{st, TupleV{c.Val(o), e.errNil()}})
		}
		if bad.assume(c, c.Not(c.IsSome(o))) {
			out = append(out, Ret{bad, TupleV{c.StrLit(""), e.libErr(bad, "notfound")}})
		}
		return out
	}
	I["(*"+L+".DB).Has"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		c := e.c
		e.snapVal(st, args[0], "Has")
		return one(st, TupleV{c.IsSome(c.Select(st.ghost["raw"], e.str(args[1]))), e.errNil()})
	}
	write := func(e *Exec, st *State, raw *Term) []Ret {
		bad := st.clone()
		st.ghost["raw"] = raw
		e.durable(st)
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "dbwrite")}}
	}
	I["(*"+L+".DB).Put"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		e.snapVal(st, args[0], "Put")
		return write(e, st, e.c.Store(st.ghost["raw"], e.str(args[1]), e.c.Some(e.str(args[2]))))
	}
	I["(*"+L+".DB).Delete"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		e.snapVal(st, args[0], "Delete")
		return write(e, st, e.c.Store(st.ghost["raw"], e.str(args[1]), e.c.None(st.ghost["raw"].Sort.Rng)))
	}
	I["(*"+L+".DB).Write"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		c := e.c
		e.snapVal(st, args[0], "Write")
		ov := c.Select(st.ghost["batches"], e.snapVal(st, args[1], "Write of batch"))
		raw := st.ghost["raw"]
		n := c.Fresh("rawwritten", raw.Sort)
		k := c.BVar("k", c.Str)
		o := c.Select(ov, k)
		st.assume(c, c.Forall([]*Term{k}, c.Eq(c.Select(n, k), c.Ite(c.IsSome(o), c.Val(o), c.Select(raw, k))), []*Term{c.Select(n, k)}, []*Term{c.Select(raw, k)}, []*Term{o}))
		return write(e, st, n)
	}
	batch := func(name string, f func(c *Ctx, ov *Term, args []*Term) *Term) {
		I["(*"+L+".Batch)."+name] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
			need(e, st)
			b := e.snapVal(st, args[0], name)
			var as []*Term
			for _, a := range args[1:] {
				as = append(as, e.str(a))
			}
			a := st.ghost["batches"]
			st.ghost["batches"] = e.c.Store(a, b, f(e.c, e.c.Select(a, b), as))
			return one(st, nil)
		}
	}
	batch("Put", func(c *Ctx, ov *Term, a []*Term) *Term { return c.Store(ov, a[0], c.Some(c.Some(a[1]))) })
	batch("Delete", func(c *Ctx, ov *Term, a []*Term) *Term {
		return c.Store(ov, a[0], c.Some(c.None(ov.Sort.Rng.Elem)))
	})
	I["(*"+L+".Batch).Reset"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		b := e.snapVal(st, args[0], "Reset")
		n := e.newBatch(st, deref(fn.Signature.Recv().Type())).(*SnapV)
		a := st.ghost["batches"]
		st.ghost["batches"] = e.c.Store(a, b, e.c.Select(a, e.c.Val(n.T)))
		return one(st, nil)
	}
	I[L+"/util.BytesPrefix"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		pt := resT(fn, 0).Underlying().(*types.Pointer)
		return one(st, &SnapV{T: c.Some(c.Fn("rangeof", c.types.SortOf(pt.Elem()), e.str(args[0]))), Elem: pt.Elem()})
	}
	I["(*"+L+".DB).NewIterator"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		c := e.c
		e.snapVal(st, args[0], "NewIterator")
		rs := args[1].(*SnapV)
		raw := st.ghost["raw"]
		ks := c.Fresh("iterkeys", c.seqSort(c.Str))
		at := c.Fresh("iterat", c.arraySort(c.Str, c.Int))
		in := func(k *Term) *Term { // no range at all means all keys
			return c.Or(c.Not(c.IsSome(rs.T)), c.Fn("inrange", c.Bool, k, c.Val(rs.T)))
		}
		k, i, j := c.BVar("k", c.Str), c.BVar("i", c.Int), c.BVar("j", c.Int)
		n := c.SeqLen(ks)
		bound := func(i *Term) *Term { return c.And(c.Le(c.IntLit(0), i), c.Lt(i, n)) }
		ki, kj := c.SeqAt(ks, i), c.SeqAt(ks, j)
		st.assume(c, c.Forall([]*Term{i}, c.Implies(bound(i), c.And(c.IsSome(c.Select(raw, ki)), in(ki))), []*Term{ki}))
		st.assume(c, c.Forall([]*Term{k}, c.Implies(c.And(c.IsSome(c.Select(raw, k)), in(k)), c.And(bound(c.Select(at, k)), c.Eq(c.SeqAt(ks, c.Select(at, k)), k))), []*Term{c.Select(raw, k)}))
		st.assume(c, c.Forall([]*Term{i, j}, c.Implies(c.And(bound(i), bound(j), c.Lt(i, j)), c.And(e.strLe(ki, kj), c.Not(c.Eq(ki, kj)))), []*Term{ki, kj}))
		st.ghost["iterK"], st.ghost["iterPos"], st.ghost["iterRaw"], st.ghost["iterErr"] = ks, c.IntLit(-1), raw, e.errNil()
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "ldbiter", Arg: []Value{ks}})
	}
	iter := func(m string, f func(e *Exec, st *State, ks, pos *Term) []Ret) {
		ifaceIntr["iterator.Iterator."+m] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
			o, ok := args[0].(*OpaqueV)
			if !ok || o.Tag != "ldbiter" {
				e.fail("%s of unknown iterator", m)
			}
			if m != "Release" && o.Arg[0].(*Term) != st.ghost["iterK"] {
				e.fail("two iterators at a time")
			}
			return f(e, st, o.Arg[0].(*Term), st.ghost["iterPos"])
		}
	}
	iter("Next", func(e *Exec, st *State, ks, pos *Term) []Ret {
		c := e.c
		nx := c.Add(pos, c.IntLit(1))
		bad, end := st.clone(), st.clone()
		var out []Ret
		if st.assume(c, c.Lt(nx, c.SeqLen(ks))) {
			st.ghost["iterPos"] = nx
			out = append(out, Ret{st, c.True})
		}
		if end.assume(c, c.Le(c.SeqLen(ks), nx)) {
			end.ghost["iterPos"] = c.SeqLen(ks)
			out = append(out, Ret{end, c.False})
		}
		bad.ghost["iterErr"] = e.libErr(bad, "iterate")
		return append(out, Ret{bad, c.False})
	})
	iter("Last", func(e *Exec, st *State, ks, pos *Term) []Ret {
		c := e.c
		none := st.clone()
		var out []Ret
		if st.assume(c, c.Lt(c.IntLit(0), c.SeqLen(ks))) {
			st.ghost["iterPos"] = c.Sub(c.SeqLen(ks), c.IntLit(1))
			out = append(out, Ret{st, c.True})
		}
		if none.assume(c, c.Eq(c.SeqLen(ks), c.IntLit(0))) {
			out = append(out, Ret{none, c.False})
		}
		return out
	})
	iter("First", func(e *Exec, st *State, ks, pos *Term) []Ret {
		c := e.c
		none := st.clone()
		var out []Ret
		if st.assume(c, c.Lt(c.IntLit(0), c.SeqLen(ks))) {
			st.ghost["iterPos"] = c.IntLit(0)
			out = append(out, Ret{st, c.True})
		}
		if none.assume(c, c.Eq(c.SeqLen(ks), c.IntLit(0))) {
			out = append(out, Ret{none, c.False})
		}
		return out
	})
	iter("Key", func(e *Exec, st *State, ks, pos *Term) []Ret { return one(st, e.c.SeqAt(ks, pos)) })
	iter("Value", func(e *Exec, st *State, ks, pos *Term) []Ret {
		return one(st, e.c.Val(e.c.Select(st.ghost["iterRaw"], e.c.SeqAt(ks, pos))))
	})
	iter("Error", func(e *Exec, st *State, ks, pos *Term) []Ret { return one(st, st.ghost["iterErr"]) })
	iter("Release", func(e *Exec, st *State, ks, pos *Term) []Ret { return one(st, nil) })

	// a buffer's contents are bufdata of its value
	bufData := func(e *Exec, st *State, v Value) *Term {
		t, ok := pure(e.load(st, v, "buffer"))
		if !ok {
			e.fail("buffer is %T", v)
		}
		if t == e.c.Const("zero_"+sane("bytes.Buffer"), t.Sort) {
			return e.c.StrLit("")
		}
		return e.c.Fn("bufdata", e.c.Str, t)
	}
	bufSet := func(e *Exec, st *State, v Value, s *Term) {
		pv, ok := v.(*PtrV)
		if !ok {
			e.fail("write to buffer %T", v)
		}
		old, _ := pure(e.load(st, v, "buffer"))
		n := e.c.Fresh("buf", old.Sort)
		st.assume(e.c, e.c.Eq(e.c.Fn("bufdata", e.c.Str, n), s))
		e.store(st, pv, n)
	}
	oldBytes := I["(*bytes.Buffer).Bytes"]
	I["(*bytes.Buffer).Bytes"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		if st.ghost["raw"] == nil {
			return oldBytes(e, p, st, fn, args)
		}
		return one(st, bufData(e, st, args[0]))
	}
	I["(*bytes.Buffer).Reset"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		bufSet(e, st, args[0], e.c.StrLit(""))
		return one(st, nil)
	}
	I["encoding/gob.NewEncoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		w := args[0]
		if iv, ok := w.(*IfaceV); ok {
			w = iv.V
		}
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "gobenc", Arg: []Value{w}})
	}
	I["encoding/gob.NewDecoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		need(e, st)
		w := args[0]
		if iv, ok := w.(*IfaceV); ok {
			w = iv.V
		}
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "gobdec", Arg: []Value{w}})
	}
	I["(*encoding/gob.Encoder).Encode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		o, ok := args[0].(*OpaqueV)
		if !ok || o.Tag != "gobenc" {
			e.fail("gob encoder %T", args[0])
		}
		bad := st.clone()
		v := e.toTerm(st, args[1], fn.Signature.Params().At(0).Type())
		bufSet(e, st, o.Arg[0], e.concat(bufData(e, st, o.Arg[0]), e.c.Fn("gobof", e.c.Str, v)))
		bufSet(e, bad, o.Arg[0], e.c.Fresh("partial", e.c.Str))
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "gob")}}
	}
	I["(*encoding/gob.Decoder).Decode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		o, ok := args[0].(*OpaqueV)
		if !ok || o.Tag != "gobdec" {
			e.fail("gob decoder %T", args[0])
		}
		er := e.c.Fresh("goberr", e.c.Err)
		e.record(st, "gob.Decode", bufData(e, st, o.Arg[0]), e.toTerm(st, args[1], fn.Signature.Params().At(0).Type()))
		st.calls[len(st.calls)-1].Res = []Value{er}
		return one(st, er)
	}
	I["bytes.NewReader"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "bytesreader", Arg: []Value{e.str(args[0])}})
	}
	fileCopy := I["io.Copy"]
	I["io.Copy"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		src := args[1]
		if iv, ok := src.(*IfaceV); ok {
			src = iv.V
		}
		if o, ok := src.(*OpaqueV); ok && o.Tag == "bytesreader" && st.ghost["raw"] != nil {
			dst := args[0]
			if iv, ok := dst.(*IfaceV); ok {
				dst = iv.V
			}
			d := o.Arg[0].(*Term)
			bufSet(e, st, dst, e.concat(bufData(e, st, dst), d))
			return one(st, TupleV{e.strLen(d), e.errNil()})
		}
		return fileCopy(e, p, st, fn, args)
	}
}
