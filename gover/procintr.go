package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Processes, advisory locks and formatted input. alive(pid) says whether a
// process runs; the ghost flocked says on which inodes we hold the lock.

func isOSFile(t types.Type) bool { return types.TypeString(t, nil) == "*os.File" }

// symFile is an unknown open file held in a field.
func (e *Exec) symFile(st *State, name string, t types.Type) Value {
	v := e.fileV(st, t, e.c.Fresh(name+"_path", e.c.Str), e.c.Fresh(name+"_ino", e.c.Int)).(*OpaqueV)
	v.Arg = append(v.Arg, e.c.True)
	e.filePos[v.Arg[2].(*PtrV).Obj] = true // anyone may move it
	st.objs[v.Arg[2].(*PtrV).Obj] = e.c.Fresh(name+"_pos", e.c.Int)
	return v
}

func init() {
	I := intrinsics
	I["os.FindProcess"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		x := e.c.Fresh("proc", e.c.types.SortOf(t))
		st.assume(e.c, e.c.Eq(e.c.Fn("fld_"+sane(x.Sort.Name)+"_Pid", e.c.Int, x), args[0].(*Term)))
		return one(st, TupleV{&PtrV{Obj: e.newObj(st, t, x)}, e.errNil()})
	}
	I["(*os.Process).Signal"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		t := e.load(st, args[0], "").(*Term)
		pid := c.Fn("fld_"+sane(t.Sort.Name)+"_Pid", c.Int, t)
		alive := c.Fn("alive", c.Bool, pid)
		sig, ok := args[1].(*IfaceV)
		if n, isT := sig.V.(*Term); !ok || !isT || n != c.IntLit(0) {
			e.fail("a signal other than 0")
		}
		perm, dead := st.clone(), st.clone()
		var out []Ret
		if st.assume(c, alive) {
			out = append(out, Ret{st, e.errNil()})
		}
		if perm.assume(c, alive) {
			out = append(out, Ret{perm, e.errno(perm, 1)})
		}
		if dead.assume(c, c.Not(alive)) {
			x := e.libErr(dead, "signal")
			dead.assume(c, c.Not(c.Eq(x, e.errno(dead, 1))))
			dead.assume(c, c.Not(c.Fn("errwraps", c.Bool, x, e.errno(dead, 1))))
			out = append(out, Ret{dead, x})
		}
		return out
	}
	I["errors.Is"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		a, b := e.toErr(st, args[0]), e.toErr(st, args[1])
		return one(st, c.Or(c.Eq(a, b), c.And(c.Not(c.Eq(a, e.errNil())), c.Fn("errwraps", c.Bool, a, b))))
	}
	// EPERM is the only permission error a signal gives (kill(2)); anything else is left open.
	I["os.IsPermission"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		a := e.toErr(st, args[0])
		var ofSignal func(t *Term) bool
		ofSignal = func(t *Term) bool {
			switch {
			case t.Op == "ite":
				return ofSignal(t.Args[1]) && ofSignal(t.Args[2])
			case t == e.errNil() || t == e.errno(st, 1):
				return true
			}
			return strings.Contains(t.Name, "signal")
		}
		if !ofSignal(a) {
			return one(st, c.And(c.Not(c.Eq(a, e.errNil())), c.Fn("isperm", c.Bool, a)))
		}
		return one(st, c.Eq(a, e.errno(st, 1)))
	}
	I["syscall.Flock"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		fd, ok := args[0].(*Term)
		how, ok2 := args[1].(*Term)
		if !ok || fd.Op != "app" || fd.Name != "fd" || !ok2 || how.Op != "int" {
			e.fail("Flock of an unknown descriptor or mode")
		}
		if st.ghost["flocked"] == nil {
			e.fail("Flock without a model")
		}
		bad := st.clone()
		var to *Term
		switch {
		case how.N&8 != 0:
			to = c.False
		case how.N&2 != 0:
			to = c.True
		default:
			e.fail("a shared lock")
		}
		st.ghost["flocked"] = c.Store(st.ghost["flocked"], fd.Args[0], to)
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "flock")}}
	}
	// only "%d" into one number
	I["fmt.Fscanf"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, ino, pos := e.file(args[0])
		vs := e.variadic(st, args[2])
		if e.str(args[1]) != c.StrLit("%d") || len(vs) != 1 {
			e.fail("Fscanf with another format")
		}
		v := vs[0]
		if iv, ok := v.(*IfaceV); ok {
			v = iv.V
		}
		ptr, ok := v.(*PtrV)
		if !ok {
			e.fail("Fscanf into %T", v)
		}
		bad := st.clone()
		d := e.rest(st, ino, pos)
		isn := c.Fn("scansnum", c.Bool, d)
		var out []Ret
		if !isDirIno(ino) && st.assume(c, isn) {
			e.store(st, ptr, c.Fn("scannum", c.Int, d))
			st.objs[pos] = c.Fresh("pos", c.Int)
			out = append(out, Ret{st, TupleV{c.IntLit(1), e.errNil()}})
		}
		if bad.assume(c, c.Not(isn)) {
			bad.objs[pos] = c.Fresh("pos", c.Int)
			out = append(out, Ret{bad, TupleV{c.IntLit(0), e.libErr(bad, "scan")}})
		}
		return out
	}
	I["fmt.Fprintf"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		s := e.sprintf(st, e.str(args[1]), e.variadic(st, args[2]))
		if _, _, ok := e.isFile(args[0]); ok {
			return I["(*os.File).WriteString"](e, p, st, fn, []Value{args[0], s})
		}
		return ifaceIntr["io.Writer.Write"](e, p, st, fn, []Value{args[0], s})
	}
	I["github.com/julienschmidt/httprouter.New"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "router"})
	}
	route := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret { return one(st, nil) }
	for _, m := range []string{"GET", "POST", "PUT", "DELETE"} {
		I["(*github.com/julienschmidt/httprouter.Router)."+m] = route
	}
}

func (e *Exec) isFile(v Value) (path, ino *Term, ok bool) {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	if o, ok := v.(*OpaqueV); ok && o.Tag == "file" {
		return o.Arg[0].(*Term), o.Arg[1].(*Term), true
	}
	return nil, nil, false
}

// errno is the error value of a system error number.
func (e *Exec) errno(st *State, n int64) *Term {
	t := e.c.Fn("errof_"+sane(e.c.Int.Name), e.c.Err, e.c.IntLit(n))
	st.assume(e.c, e.c.Not(e.c.Eq(t, e.errNil())))
	return t
}
