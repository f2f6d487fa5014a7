package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Model of the file system calls. Ghost state: fino maps a path to the inode
// of the regular file it names (none: no regular file there), fdata maps an
// inode to its content, fdir says which paths are directories. A failing call
// changes nothing, except where stated.

func (e *Exec) fsHas(st *State) bool { return st.ghost["fino"] != nil }

func (e *Exec) fsIno(st *State, p *Term) *Term { return e.c.Select(st.ghost["fino"], p) }
func (e *Exec) fsDir(st *State, p *Term) *Term { return e.c.Select(st.ghost["fdir"], p) }

func (e *Exec) fsExists(st *State, p *Term) *Term {
	return e.c.Or(e.c.IsSome(e.fsIno(st, p)), e.fsDir(st, p))
}

func (e *Exec) under(p, d *Term) *Term { return e.c.Fn("under", e.c.Bool, p, d) }

// okOrErr runs f on the success state and also returns an unchanged failing state.
func (e *Exec) okOrErr(st *State, name string, f func(st *State)) []Ret {
	bad := st.clone()
	if f != nil {
		f(st)
		e.durable(st)
	}
	bt := e.libErr(bad, name)
	if st.dead {
		return []Ret{{bad, bt}}
	}
	return []Ret{{st, e.errNil()}, {bad, bt}}
}

// maybe returns a result that is or is not an error, and the success condition.
func (e *Exec) maybe(name string) (err, ok *Term) {
	if e.spec != nil && e.spec.NoFail[name] {
		return e.errNil(), e.c.True
	}
	t := e.c.Fresh("err_"+name, e.c.Err)
	e.facts = append(e.facts, e.c.Eq(e.c.Fn("errkind", e.c.Int, t), e.c.IntLit(0)))
	return t, e.c.Eq(t, e.errNil())
}

func (e *Exec) fileV(st *State, t types.Type, path, ino *Term) Value {
	pos := e.newObj(st, types.Typ[types.Int], e.c.IntLit(0))
	e.filePos[pos] = false
	return &OpaqueV{T: t, Tag: "file", Arg: []Value{path, ino, &PtrV{Obj: pos}}}
}

// file unpacks a file handle.
func (e *Exec) file(v Value) (path, ino *Term, pos int) {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	o, ok := v.(*OpaqueV)
	if !ok || o.Tag != "file" {
		e.fail("file handle expected, got %T", v)
	}
	return o.Arg[0].(*Term), o.Arg[1].(*Term), o.Arg[2].(*PtrV).Obj
}

// isDirIno says the handle is an open directory, on which reads fail.
func isDirIno(ino *Term) bool { return ino.Op == "app" && ino.Name == "dirino" }

func (e *Exec) fsData(st *State, ino *Term) *Term { return e.c.Select(st.ghost["fdata"], ino) }

func (e *Exec) fsSetData(st *State, ino, d *Term) {
	st.ghost["fdata"] = e.c.Store(st.ghost["fdata"], ino, d)
}

// fsCreate makes path name a new empty file.
func (e *Exec) fsCreate(st *State, path *Term) *Term {
	c := e.c
	n := c.Fresh("ino", c.Int)
	q := c.BVar("q", c.Str)
	s := c.Select(st.ghost["fino"], q)
	st.assume(c, c.Forall([]*Term{q}, c.Not(c.Eq(s, c.Some(n))), []*Term{s}))
	st.ghost["fino"] = c.Store(st.ghost["fino"], path, c.Some(n))
	e.fsSetData(st, n, c.StrLit(""))
	return n
}

// writeAt puts data at the handle's position.
func (e *Exec) writeAt(st *State, ino *Term, pos int, data *Term) {
	c := e.c
	at := st.objs[pos].(*Term)
	old := e.fsData(st, ino)
	var nd *Term
	if at == c.IntLit(0) && old == c.StrLit("") {
		nd = data
	} else if at == e.strLen(old) {
		nd = e.concat(old, data)
	} else {
		nd = c.Fn("overwrite", c.Str, old, at, data)
	}
	e.fsSetData(st, ino, nd)
	st.objs[pos] = c.Add(at, e.strLen(data))
}

func (e *Exec) rest(st *State, ino *Term, pos int) *Term {
	c := e.c
	at := st.objs[pos].(*Term)
	d := e.fsData(st, ino)
	if at == c.IntLit(0) {
		return d
	}
	return e.substr(d, at, e.strLen(d))
}

// openFile models os.OpenFile with constant flags.
func (e *Exec) openFile(st *State, t types.Type, path *Term, create, trunc, excl bool) []Ret {
	c := e.c
	nilf := e.zero(t)
	bad := st.clone()
	bt := e.libErr(bad, "open")
	out := []Ret{}
	if !e.fsHas(st) {
		e.fail("file opened without a file system model")
	}
	ex := st.clone()
	ino := e.fsIno(ex, path)
	if create && trunc && !excl {
		// the file that is there, emptied, or a new one
		if ex.assume(c, c.Not(e.fsDir(ex, path))) {
			nf := c.Fresh("ino", c.Int)
			q := c.BVar("q", c.Str)
			s := c.Select(ex.ghost["fino"], q)
			ex.assume(c, c.Forall([]*Term{q}, c.Not(c.Eq(s, c.Some(nf))), []*Term{s}))
			n := c.Ite(c.IsSome(ino), c.Val(ino), nf)
			ex.ghost["fino"] = c.Store(ex.ghost["fino"], path, c.Some(n))
			e.fsSetData(ex, n, c.StrLit(""))
			e.durable(ex)
			out = append(out, Ret{ex, TupleV{e.fileV(ex, t, path, n), e.errNil()}})
		}
		return append(out, Ret{bad, TupleV{nilf, bt}})
	}
	if !excl && ex.assume(c, c.IsSome(ino)) {
		n := c.Val(ino)
		if trunc {
			e.fsSetData(ex, n, c.StrLit(""))
			e.durable(ex)
		}
		out = append(out, Ret{ex, TupleV{e.fileV(ex, t, path, n), e.errNil()}})
	}
	if create {
		cr := st.clone()
		if cr.assume(c, c.Not(e.fsExists(cr, path))) {
			n := e.fsCreate(cr, path)
			e.durable(cr)
			out = append(out, Ret{cr, TupleV{e.fileV(cr, t, path, n), e.errNil()}})
		}
	} else if !trunc {
		// directories can be opened for reading
		d := st.clone()
		if d.assume(c, e.fsDir(d, path)) && d.assume(c, c.Not(c.IsSome(ino))) {
			out = append(out, Ret{d, TupleV{e.fileV(d, t, path, c.Fn("dirino", c.Int, path)), e.errNil()}})
		}
	}
	return append(out, Ret{bad, TupleV{nilf, bt}})
}

func (e *Exec) statV(st *State, path *Term) Value {
	ino := e.fsIno(st, path)
	return &OpaqueV{Tag: "stat", Arg: []Value{path, ino, e.fsDir(st, path), e.strLen(e.fsData(st, e.c.Val(ino)))}}
}

func resT(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }

func (e *Exec) flagConst(v Value) (create, trunc, excl, app bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "int" {
		e.fail("open flags not constant")
	}
	return t.N&0x40 != 0, t.N&0x200 != 0, t.N&0x80 != 0, t.N&0x400 != 0
}

// hash objects

func (e *Exec) hashObj(v Value) (string, int) {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	if o, ok := v.(*OpaqueV); ok && (o.Tag == "sha1" || o.Tag == "sha256") {
		return o.Tag, o.Arg[0].(*PtrV).Obj
	}
	return "", 0
}

func init() {
	I := intrinsics
	str := types.Typ[types.String]
	remove := func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		c := e.c
		path := e.str(args[0])
		if !e.fsHas(st) {
			return e.okOrErr(st, "remove", nil)
		}
		err := e.c.Fresh("err_remove", e.c.Err)
		ok := c.Eq(err, e.errNil())
		dir := e.fsDir(st, path)
		if e.spec != nil && e.spec.NoFail["remove"] { // a file that is there can be removed
			st.assume(c, c.Implies(c.And(c.IsSome(e.fsIno(st, path)), c.Not(dir)), ok))
		}
		st.assume(c, c.Implies(ok, e.fsExists(st, path)))
		// a directory goes only when it is empty
		q := c.BVar("q", c.Str)
		ex := c.Or(c.IsSome(c.Select(st.ghost["fino"], q)), c.Select(st.ghost["fdir"], q))
		st.assume(c, c.Implies(c.And(ok, dir), c.Forall([]*Term{q}, c.Not(c.And(ex, c.Fn("under", c.Bool, q, path))), []*Term{c.Fn("under", c.Bool, q, path)})))
		ino := st.ghost["fino"]
		st.ghost["fino"] = c.Store(ino, path, c.Ite(c.And(ok, c.Not(dir)), c.None(ino.Sort.Rng), c.Select(ino, path)))
		st.ghost["fdir"] = c.Store(st.ghost["fdir"], path, c.And(dir, c.Not(ok)))
		e.durable(st)
		return []Ret{{st, err}}
	}
	I["os.Remove"] = remove
	I["os.RemoveAll"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		c := e.c
		path := e.str(args[0])
		if !e.fsHas(st) {
			return e.okOrErr(st, "removeall", nil)
		}
		err, ok := e.maybe("removeall")
		ino0, dir0 := st.ghost["fino"], st.ghost["fdir"]
		ino1, dir1 := c.Fresh("fino", ino0.Sort), c.Fresh("fdir", dir0.Sort)
		q := c.BVar("q", c.Str)
		in := c.Or(c.Eq(q, path), e.under(q, path))
		gone := c.And(c.Not(c.IsSome(c.Select(ino1, q))), c.Not(c.Select(dir1, q)))
		same := c.And(c.Eq(c.Select(ino1, q), c.Select(ino0, q)), c.Eq(c.Select(dir1, q), c.Select(dir0, q)))
		trs := [][]*Term{{c.Select(ino1, q)}, {c.Select(dir1, q)}, {c.Select(ino0, q)}, {c.Select(dir0, q)}}
		st.assume(c, c.Forall([]*Term{q}, c.And(c.Or(c.And(in, gone), same), c.Implies(c.And(ok, in), gone)), trs...))
		st.ghost["fino"], st.ghost["fdir"] = ino1, dir1
		e.durable(st)
		return []Ret{{st, err}}
	}
	mkdir := func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		c := e.c
		path := e.str(args[0])
		if !e.fsHas(st) {
			return e.okOrErr(st, "mkdirall", nil)
		}
		err, ok := e.maybe("mkdirall")
		d0 := st.ghost["fdir"]
		d1 := c.Fresh("fdir", d0.Sort)
		q := c.BVar("q", c.Str)
		a, b := c.Select(d0, q), c.Select(d1, q)
		st.assume(c, c.Forall([]*Term{q}, c.And(c.Implies(a, b),
			c.Implies(c.And(b, c.Not(a)), c.And(c.Or(c.Eq(q, path), e.under(path, q)), c.Not(c.IsSome(c.Select(st.ghost["fino"], q)))))), []*Term{a}, []*Term{b}))
		st.assume(c, c.Implies(ok, c.And(c.Select(d1, path), c.Not(c.IsSome(c.Select(st.ghost["fino"], path))))))
		st.ghost["fdir"] = d1
		e.durable(st)
		return []Ret{{st, err}}
	}
	I["os.MkdirAll"] = mkdir
	stat := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		var path *Term
		isF := fn.Signature.Recv() != nil
		if isF {
			path, _, _ = e.file(args[0])
		} else {
			path = e.str(args[0])
		}
		bad := st.clone()
		var out []Ret
		nilv := &OpaqueV{T: resT(fn, 0), Tag: "nil"}
		if isF {
			_, ino, _ := e.file(args[0])
			v := &OpaqueV{Tag: "stat", Arg: []Value{path, c.Some(ino), e.fsDir(st, path), e.strLen(e.fsData(st, ino))}}
			out = append(out, Ret{st, TupleV{v, e.errNil()}})
			return append(out, Ret{bad, TupleV{nilv, e.libErr(bad, "stat")}})
		}
		if st.assume(c, e.fsExists(st, path)) {
			out = append(out, Ret{st, TupleV{e.statV(st, path), e.errNil()}})
		}
		if bad.assume(c, c.Not(e.fsExists(bad, path))) {
			// what does not exist has nothing below it
			q := c.BVar("q", c.Str)
			bad.assume(c, c.Forall([]*Term{q}, c.Implies(e.under(q, path), c.Not(e.fsExists(bad, q))), []*Term{e.fsIno(bad, q)}, []*Term{e.fsDir(bad, q)}))
			t := e.libErr(bad, "stat")
			out = append(out, Ret{bad, TupleV{nilv, t}})
		}
		return out
	}
	I["os.Stat"] = stat
	I["os.Lstat"] = stat
	I["(*os.File).Stat"] = stat
	statArg := func(e *Exec, v Value) *OpaqueV {
		o, ok := v.(*OpaqueV)
		if !ok || o.Tag != "stat" {
			e.fail("file information expected, got %T", v)
		}
		return o
	}
	ifaceIntr["fs.FileInfo.Size"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		return one(st, statArg(e, args[0]).Arg[3])
	}
	ifaceIntr["fs.FileInfo.Mode"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fresh("mode", e.c.Int))
	}
	ifaceIntr["fs.FileInfo.IsDir"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		return one(st, statArg(e, args[0]).Arg[2])
	}
	ifaceIntr["fs.FileInfo.Name"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("pathbase", e.c.Str, statArg(e, args[0]).Arg[0].(*Term)))
	}
	ifaceIntr["fs.FileInfo.ModTime"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fresh("mtime", e.c.uninterp("T_time_Time")))
	}
	I["os.SameFile"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		a, b := statArg(e, args[0]), statArg(e, args[1])
		return one(st, e.c.And(e.c.IsSome(a.Arg[1].(*Term)), e.c.Eq(a.Arg[1].(*Term), b.Arg[1].(*Term))))
	}
	I["os.Link"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		c := e.c
		src, dst := e.str(args[0]), e.str(args[1])
		if !e.fsHas(st) {
			return e.okOrErr(st, "link", nil)
		}
		err, ok := e.maybe("link")
		from, to := e.fsIno(st, src), e.fsIno(st, dst)
		st.assume(c, c.Implies(ok, c.And(c.IsSome(from), c.Not(e.fsExists(st, dst)))))
		st.ghost["fino"] = c.Store(st.ghost["fino"], dst, c.Ite(ok, from, to))
		e.durable(st)
		return []Ret{{st, err}}
	}
	I["os.Rename"] = func(e *Exec, p *PS, st *State, _ *ssa.Function, args []Value) []Ret {
		c := e.c
		src, dst := e.str(args[0]), e.str(args[1])
		if !e.fsHas(st) {
			return e.okOrErr(st, "rename", nil)
		}
		err, ok := e.maybe("rename")
		ino := st.ghost["fino"]
		from, to := c.Select(ino, src), c.Select(ino, dst)
		st.assume(c, c.Implies(ok, c.And(c.IsSome(from), c.Not(e.fsDir(st, dst)))))
		st.ghost["fino"] = c.Store(c.Store(ino, src, c.Ite(ok, c.None(ino.Sort.Rng), from)), dst, c.Ite(ok, from, to))
		if n := st.ghost["renames"]; n != nil {
			st.ghost["renames"] = c.Ite(ok, c.Add(n, c.IntLit(1)), n)
		}
		e.durable(st)
		return []Ret{{st, err}}
	}
	I["os.Open"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.openFile(st, resT(fn, 0), e.str(args[0]), false, false, false)
	}
	I["os.Create"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.openFile(st, resT(fn, 0), e.str(args[0]), true, true, false)
	}
	I["os.OpenFile"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		cr, tr, ex, app := e.flagConst(args[1])
		if app {
			e.fail("append mode")
		}
		return e.openFile(st, resT(fn, 0), e.str(args[0]), cr, tr, ex)
	}
	// writes reported at the latest when closing: until then the content is only as good as Close says
	I["(*os.File).Close"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, ino, pos := e.file(args[0])
		if o, ok := args[0].(*OpaqueV); ok && len(o.Arg) > 3 && st.ghost["flocked"] != nil {
			st.ghost["flocked"] = c.Store(st.ghost["flocked"], ino, c.False)
		}
		bad := st.clone()
		if at, ok := bad.objs[pos].(*Term); ok && bad.ghost["fdata"] != nil && e.wrote(bad, pos) && at != nil {
			e.fsSetData(bad, ino, c.Fresh("lost", c.Str))
		}
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "close")}}
	}
	I["(*os.File).Name"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		path, _, _ := e.file(args[0])
		return one(st, path)
	}
	I["(*os.File).Fd"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		_, ino, _ := e.file(args[0])
		return one(st, e.c.Fn("fd", e.c.Int, ino))
	}
	I["(*os.File).Sync"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.okOrErr(st, "sync", nil)
	}
	write := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, ino, pos := e.file(args[0])
		data := e.str(args[1])
		bad := st.clone()
		e.writeAt(st, ino, pos, data)
		e.markWrote(st, pos)
		e.durable(st)
		e.fsSetData(bad, ino, c.Fresh("part", c.Str))
		n := c.Fresh("n", c.Int)
		bad.assume(c, c.And(c.Le(c.IntLit(0), n), c.Le(n, e.strLen(data))))
		return []Ret{{st, TupleV{e.strLen(data), e.errNil()}}, {bad, TupleV{n, e.libErr(bad, "write")}}}
	}
	I["(*os.File).Write"] = write
	I["(*os.File).WriteString"] = write
	I["(*os.File).Truncate"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, ino, _ := e.file(args[0])
		n := args[1].(*Term)
		return e.okOrErr(st, "truncate", func(st *State) {
			if n == c.IntLit(0) {
				e.fsSetData(st, ino, c.StrLit(""))
			} else {
				e.fsSetData(st, ino, c.Fn("truncated", c.Str, e.fsData(st, ino), n))
			}
		})
	}
	I["(*os.File).Seek"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, _, pos := e.file(args[0])
		bad := st.clone()
		if w, ok := args[2].(*Term); !ok || w != c.IntLit(0) {
			e.fail("Seek not from the start")
		}
		st.objs[pos] = args[1].(*Term)
		return []Ret{{st, TupleV{args[1], e.errNil()}}, {bad, TupleV{c.IntLit(0), e.libErr(bad, "seek")}}}
	}
	readAll := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		_, ino, pos := e.file(args[0])
		bad := st.clone()
		if isDirIno(ino) {
			return one(bad, TupleV{e.c.StrLit(""), e.libErr(bad, "read")})
		}
		d := e.rest(st, ino, pos)
		st.objs[pos] = e.strLen(e.fsData(st, ino))
		return []Ret{{st, TupleV{d, e.errNil()}}, {bad, TupleV{e.c.StrLit(""), e.libErr(bad, "read")}}}
	}
	I["io.ReadAll"] = readAll
	I["io/ioutil.ReadAll"] = readAll
	I["io.Copy"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		_, sino, spos := e.file(args[1])
		data := e.rest(st, sino, spos)
		bad := st.clone()
		n := c.Fresh("n", c.Int)
		if isDirIno(sino) {
			return one(bad, TupleV{c.IntLit(0), e.libErr(bad, "copy")})
		}
		if tag, h := e.hashObj(args[0]); tag != "" {
			st.objs[h] = e.concat(st.objs[h].(*Term), data)
			bad.objs[h] = c.Fresh("part", c.Str)
			return []Ret{{st, TupleV{e.strLen(data), e.errNil()}}, {bad, TupleV{n, e.libErr(bad, "copy")}}}
		}
		_, dino, dpos := e.file(args[0])
		e.writeAt(st, dino, dpos, data)
		e.markWrote(st, dpos)
		e.durable(st)
		e.fsSetData(bad, dino, c.Fresh("part", c.Str))
		return []Ret{{st, TupleV{e.strLen(data), e.errNil()}}, {bad, TupleV{n, e.libErr(bad, "copy")}}}
	}
	nop := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.okOrErr(st, "meta", nil)
	}
	I["os.Chtimes"], I["os.Chown"], I["os.Chmod"] = nop, nop, nop
	num := func(name string) intrFn {
		return func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
			return one(st, e.c.Const(name, e.c.Int))
		}
	}
	I["os.Getuid"], I["os.Getgid"], I["os.Getpid"] = num("uid"), num("gid"), num("pid")
	wf := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		path, data := e.str(args[0]), e.str(args[1])
		var out []Ret
		for _, r := range e.openFile(st, types.NewPointer(str), path, true, true, false) {
			tv := r.val.(TupleV)
			if tv[1] != Value(e.errNil()) {
				out = append(out, Ret{r.st, tv[1]})
				continue
			}
			_, ino, _ := e.file(tv[0])
			bad := r.st.clone()
			e.fsSetData(r.st, ino, data)
			e.durable(r.st)
			e.fsSetData(bad, ino, c.Fresh("part", c.Str))
			out = append(out, Ret{r.st, e.errNil()}, Ret{bad, e.libErr(bad, "writefile")})
		}
		return out
	}
	I["io/ioutil.WriteFile"], I["os.WriteFile"] = wf, wf
	rf := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		path := e.str(args[0])
		bad := st.clone()
		out := []Ret{{bad, TupleV{c.StrLit(""), e.libErr(bad, "readfile")}}}
		ino := e.fsIno(st, path)
		if st.assume(c, c.IsSome(ino)) {
			out = append(out, Ret{st, TupleV{e.fsData(st, c.Val(ino)), e.errNil()}})
		}
		return out
	}
	I["io/ioutil.ReadFile"], I["os.ReadFile"] = rf, rf
	rd := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		path := e.str(args[0])
		so := c.types.SortOf(resT(fn, 0))
		bad := st.clone()
		out := []Ret{{bad, TupleV{c.SeqNil(so), e.libErr(bad, "readdir")}}}
		if st.assume(c, e.fsDir(st, path)) {
			l := c.Fresh("entries", so)
			out = append(out, Ret{st, TupleV{l, e.errNil()}})
		}
		return out
	}
	I["io/ioutil.ReadDir"], I["os.ReadDir"] = rd, rd
	I["syscall.Mmap"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		fd, ok := args[0].(*Term)
		if !ok || fd.Op != "app" || fd.Name != "fd" {
			e.fail("Mmap of an unknown descriptor")
		}
		if o, ok := args[1].(*Term); !ok || o != c.IntLit(0) {
			e.fail("Mmap offset")
		}
		d := e.fsData(st, fd.Args[0])
		n := args[2].(*Term)
		if n != e.strLen(d) {
			d = e.substr(d, c.IntLit(0), n)
		}
		bad := st.clone()
		if isDirIno(fd.Args[0]) {
			return one(bad, TupleV{c.StrLit(""), e.libErr(bad, "mmap")})
		}
		return []Ret{{st, TupleV{d, e.errNil()}}, {bad, TupleV{c.StrLit(""), e.libErr(bad, "mmap")}}}
	}
	I["syscall.Munmap"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.okOrErr(st, "munmap", nil)
	}
	newHash := func(tag string) intrFn {
		return func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
			o := e.newObj(st, str, e.c.StrLit(""))
			return one(st, &OpaqueV{T: resT(fn, 0), Tag: tag, Arg: []Value{&PtrV{Obj: o}}})
		}
	}
	I["crypto/sha1.New"], I["crypto/sha256.New"] = newHash("sha1"), newHash("sha256")
	hw := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		tag, h := e.hashObj(args[0])
		if tag == "" {
			// some writer: what reaches it is recorded; it may fail, or take less with an error
			bad := st.clone()
			d := e.str(args[1])
			n := e.c.Fresh("nwrote", e.c.Int)
			bad.assume(e.c, e.c.And(e.c.Le(e.c.IntLit(0), n), e.c.Le(n, e.strLen(d))))
			if g := st.ghost["sunk"]; g != nil {
				st.ghost["sunk"] = e.concat(g, d)
				bad.ghost["sunk"] = e.concat(g, e.substr(d, e.c.IntLit(0), n))
			}
			return []Ret{{st, TupleV{e.strLen(e.str(args[1])), e.errNil()}}, {bad, TupleV{n, e.libErr(bad, "write")}}}
		}
		d := e.str(args[1])
		st.objs[h] = e.concat(st.objs[h].(*Term), d)
		return one(st, TupleV{e.strLen(d), e.errNil()})
	}
	ifaceIntr["hash.Hash.Write"] = hw
	ifaceIntr["io.Writer.Write"] = hw
	ifaceIntr["hash.Hash.Sum"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		tag, h := e.hashObj(args[0])
		return one(st, e.concat(e.str(args[1]), e.c.Fn(tag, e.c.Str, st.objs[h].(*Term))))
	}
	sum := func(tag string) intrFn {
		return func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
			return one(st, e.c.Fn(tag, e.c.Str, e.str(args[0])))
		}
	}
	I["crypto/sha1.Sum"], I["crypto/sha256.Sum256"] = sum("sha1"), sum("sha256")
	I["encoding/hex.EncodeToString"] = sum("hex")
}

// wrote and markWrote remember, per open handle, that data went through it.
func (e *Exec) wrote(st *State, pos int) bool { return st.wrote[pos] }
func (e *Exec) markWrote(st *State, pos int) {
	n := map[int]bool{pos: true}
	for k := range st.wrote {
		n[k] = true
	}
	st.wrote = n
}
