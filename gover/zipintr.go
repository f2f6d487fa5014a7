package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// archive/zip: what an archive holds is an unknown function of its path, fixed
// while it is processed, and what a member holds one of the member.

func init() {
	I := intrinsics
	I["archive/zip.OpenReader"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		pt := resT(fn, 0).Underlying().(*types.Pointer)
		bad := st.clone()
		pv := &PtrV{Obj: e.newObj(st, pt.Elem(), c.Fn("zipof", c.types.SortOf(pt.Elem()), e.str(args[0])))}
		if e.S.Fns["clean"] != nil {
			// a path that can be opened as an archive ends in the name of a regular file, which is no directory
			st.assume(c, c.Fn("clean", c.Bool, c.Fn("pathbase", c.Str, e.str(args[0]))))
		}
		return []Ret{{st, TupleV{pv, e.errNil()}}, {bad, TupleV{e.zero(resT(fn, 0)), e.libErr(bad, "zip")}}}
	}
	I["(*archive/zip.ReadCloser).Close"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		bad := st.clone()
		e.load(st, args[0], "Close")
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "zipclose")}}
	}
	I["(*archive/zip.File).Open"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		f, ok := pure(e.load(st, args[0], "Open"))
		if !ok {
			e.fail("archive member is no term")
		}
		bad := st.clone()
		rd := &OpaqueV{T: resT(fn, 0), Tag: "reader", Arg: []Value{c.Fn("zipdata", c.Str, f)}}
		return []Ret{{st, TupleV{rd, e.errNil()}}, {bad, TupleV{&OpaqueV{T: resT(fn, 0), Tag: "nil"}, e.libErr(bad, "zipmember")}}}
	}
	I["strconv.ParseUint"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		bad := st.clone()
		n := e.c.Fresh("uint", e.c.Int)
		st.assume(e.c, e.c.Le(e.c.IntLit(0), n))
		return []Ret{{st, TupleV{n, e.errNil()}}, {bad, TupleV{e.c.IntLit(0), e.libErr(bad, "parseuint")}}}
	}
	ifaceIntr["io.ReadCloser.Close"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		if o, ok := args[0].(*OpaqueV); ok && o.Tag == "nil" {
			e.check(st, e.c.False, "nil-deref", "close of nothing")
		}
		bad := st.clone()
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "close")}}
	}
}
