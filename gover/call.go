package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) callArgs(p *PS, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(p, a))
	}
	return e.val(p, cc.Value), args
}

// extName is the full name of a function outside the repository, e.g. os.Remove or (*sync.Mutex).Lock.
func extName(fn *ssa.Function) string {
	return fn.RelString(nil)
}

func inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), RepoModule)
	}
	if fn.Parent() != nil {
		return inRepo(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), RepoModule)
	}
	return false
}

func one(st *State, v Value) []Ret { return []Ret{{st, v}} }

func (e *Exec) call(p *PS, cc *ssa.CallCommon, fv Value, args []Value) []Ret {
	st := p.st
	if cc.IsInvoke() {
		return e.invoke(p, cc, fv, args)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(p, b, cc, args)
	}
	cl, ok := fv.(*ClosV)
	if o, isO := fv.(*OpaqueV); isO {
		return e.unknownCall(p, st, o, args)
	}
	if !ok {
		e.fail("call of unknown function value %T", fv)
	}
	return e.callFn(p, st, cl, args)
}

func (e *Exec) callFn(p *PS, st *State, cl *ClosV, args []Value) []Ret {
	fn := cl.Fn
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		m := fn.Object().(*types.Func)
		real := e.P.Prog.FuncValue(m)
		if real != nil && real.Blocks != nil {
			return e.callFn(p, st, &ClosV{Fn: real}, append(append([]Value{}, cl.Bind...), args...))
		}
	}
	if !inRepo(fn) {
		if h := intrinsics[extName(fn)]; h != nil {
			e.externs[extName(fn)] = true
			e.atCall(st, extName(fn))
			return h(e, p, st, fn, args)
		}
		return e.external(p, st, fn, args)
	}
	name := shortName(fn)
	if h := repoIntr[name]; h != nil {
		return h(e, p, st, fn, args)
	}
	if con := e.S.Contracts[name]; con != nil && !(e.spec != nil && e.spec.Inline[name]) {
		e.called[name] = true
		return e.applyContract(st, con, fn, args)
	}
	e.inlined[name] = true
	return e.execFunc(st, fn, args, cl.Bind)
}

// atCall checks the conditions the contract states for calls of a function.
func (e *Exec) atCall(st *State, name string) {
	if e.spec == nil || e.dry > 0 {
		return
	}
	for _, cl := range e.spec.Clauses {
		if cl.Kind == "at" && cl.Names[0] == name {
			e.check(st, e.T(cl.E, &scope{st: st, old: e.old, env: e.env}), "at", clauseName(cl))
		}
	}
}

func (e *Exec) invoke(p *PS, cc *ssa.CallCommon, recv Value, args []Value) []Ret {
	m := cc.Method.Name()
	st := p.st
	switch r := recv.(type) {
	case *DBV:
		return e.dbCall(p, st, r, m, args, cc)
	case *IfaceV:
		sel := types.NewMethodSet(r.Dyn).Lookup(cc.Method.Pkg(), m)
		if sel == nil {
			sel = types.NewMethodSet(types.NewPointer(r.Dyn)).Lookup(cc.Method.Pkg(), m)
		}
		if sel == nil {
			e.fail("method %s of %s", m, r.Dyn)
		}
		fn := e.P.Prog.MethodValue(sel)
		return e.callFn(p, st, &ClosV{Fn: e.unwrap(fn)}, append([]Value{e.recvFor(st, fn, r)}, args...))
	}
	if cc.Method.Type().(*types.Signature).Recv() != nil {
		it := cc.Value.Type()
		key := strings.Replace(shortType(it), "os.FileInfo", "fs.FileInfo", 1) + "." + m
		if h := ifaceIntr[key]; h != nil {
			e.externs[key] = true
			return h(e, p, st, nil, append([]Value{recv}, args...))
		}
		if isErrorType(it) && m == "Error" {
			t := e.toErr(st, recv)
			e.check(st, e.c.Not(e.c.Eq(t, e.errNil())), "nil-deref", "error method on nil error")
			return one(st, e.errText(t))
		}
		e.fail("call of %s on %T", key, recv)
	}
	e.fail("invoke %s", m)
	return nil
}

// unwrap finds the declared method behind a promoted-method wrapper where possible.
func (e *Exec) unwrap(fn *ssa.Function) *ssa.Function { return fn }

func (e *Exec) recvFor(st *State, fn *ssa.Function, r *IfaceV) Value { return r.V }

func (e *Exec) errText(t *Term) *Term { return e.c.Fn("errtext", e.c.Str, t) }

func (e *Exec) builtin(p *PS, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) []Ret {
	c := e.c
	st := p.st
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceRef:
			if x.Arr != nil {
				return one(st, c.IntLit(int64(len(st.objs[x.Arr.Obj].(*ArrV).E))))
			}
			if x.T.Sort == c.Str {
				e.emptyFact(st, x.T)
				return one(st, e.strLen(x.T))
			}
			return one(st, c.SeqLen(x.T))
		case *Term:
			if x.Sort == c.Str {
				e.emptyFact(st, x)
				return one(st, e.strLen(x))
			}
			if x.Sort.Kind == KSeq {
				return one(st, c.SeqLen(x))
			}
		case *MapV:
			if x.Obj > 0 {
				n := c.Fn("maplen_"+sane(st.objs[x.Obj].(*Term).Sort.Name), c.Int, st.objs[x.Obj].(*Term))
				st.assume(c, c.Le(c.IntLit(0), n))
				return one(st, n)
			}
			return one(st, c.IntLit(0))
		case *ArrV:
			return one(st, c.IntLit(int64(len(x.E))))
		}
		e.fail("len of %T", args[0])
	case "append":
		t := cc.Args[0].Type()
		if isByteSlice(t) {
			a, _ := pure(args[0])
			b, ok := pure(args[1])
			if sr, isA := args[1].(*SliceRef); isA && sr.Arr != nil {
				arr := st.objs[sr.Arr.Obj].(*ArrV)
				x := a
				for _, y := range arr.E {
					x = c.Fn("strcat", c.Str, x, c.Fn("bytestr", c.Str, y.(*Term)))
				}
				return one(st, x)
			}
			if !ok {
				e.fail("append of %T", args[1])
			}
			return one(st, e.concat(a, b))
		}
		a := e.toTerm(st, args[0], t)
		if sr, ok := args[1].(*SliceRef); ok && sr.Arr != nil {
			arr := st.objs[sr.Arr.Obj].(*ArrV)
			et := t.Underlying().(*types.Slice).Elem()
			for _, y := range arr.E {
				a = c.SeqApp(a, e.toTerm(st, y, et))
			}
			return one(st, a)
		}
		return one(st, c.SeqCat(a, e.toTerm(st, args[1], t)))
	case "copy":
		d, ok := args[0].(*SliceRef)
		s, ok2 := pure(args[1])
		if ok && ok2 && d.From != nil && d.T.Sort == c.Str {
			var nv *Term
			if d.T.Op == "app" && d.T.Name == "zeros" && d.T.Args[0] == e.strLen(s) {
				nv = s
			} else {
				nv = c.Ite(c.Eq(e.strLen(s), e.strLen(d.T)), s, c.Fresh("copied", c.Str))
			}
			e.store(st, d.From, nv)
			return one(st, c.Fresh("ncopied", c.Int))
		}
		e.fail("copy into %T", args[0])
	case "delete":
		m, ok := args[0].(*MapV)
		if !ok {
			e.fail("delete from %T", args[0])
		}
		if m.Obj > 0 {
			e.guardMap(st, m)
			mt := cc.Args[0].Type().Underlying().(*types.Map)
			cur := st.objs[m.Obj].(*Term)
			k := e.toTerm(st, args[1], mt.Key())
			st.objs[m.Obj] = c.Store(cur, k, c.None(cur.Sort.Rng))
		}
		return one(st, nil)
	case "print", "println", "close":
		return one(st, nil)
	case "recover":
		return one(st, &OpaqueV{T: types.Universe.Lookup("any").Type(), Tag: "nil"})
	case "ssa:deferstack":
		return one(st, &OpaqueV{T: types.Universe.Lookup("any").Type(), Tag: "deferstack"})
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "min", "max":
		a, b2 := args[0].(*Term), args[1].(*Term)
		if b.Name() == "min" {
			return one(st, c.Ite(c.Le(a, b2), a, b2))
		}
		return one(st, c.Ite(c.Le(a, b2), b2, a))
	}
	e.fail("builtin %s", b.Name())
	return nil
}

// global returns the object of a package-level variable.
func (e *Exec) global(st *State, g *ssa.Global) int {
	id, ok := e.globals[g]
	if !ok {
		// numbered apart from other objects: loop analysis reuses their numbers
		id = -(1 << 50) - len(e.globals)
		e.globals[g] = id
		e.objType[id] = deref(g.Type())
	}
	if _, ok := st.objs[id]; !ok {
		st.objs[id] = e.globalVal(st, g)
	}
	return id
}

func (e *Exec) globalVal(st *State, g *ssa.Global) Value {
	c := e.c
	t := deref(g.Type())
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	if isErrorType(t) {
		v := c.Const("g_"+name, c.Err)
		found := false
		for _, d := range c.distinctConsts["Err"] {
			if d == v {
				found = true
			}
		}
		if !found {
			if len(c.distinctConsts["Err"]) == 0 {
				c.distinctConsts["Err"] = append(c.distinctConsts["Err"], e.errNil())
			}
			c.distinctConsts["Err"] = append(c.distinctConsts["Err"], v)
			if strings.HasPrefix(g.Pkg.Pkg.Path(), RepoModule) {
				e.facts = append(e.facts, c.Eq(c.Fn("errkind", c.Int, v), c.IntLit(1)))
			}
		}
		return v
	}
	if shortType(t) == "*unicode.RangeTable" {
		return &OpaqueV{T: t, Tag: "global:" + name}
	}
	var stored []ssa.Value
	if strings.HasPrefix(g.Pkg.Pkg.Path(), RepoModule) {
		for _, fn := range e.P.Funcs {
			if fn.Pkg != g.Pkg && (fn.Pkg == nil) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
						stored = append(stored, s.Val)
						if fn.Name() != "init" {
							stored = append(stored, s.Val)
						}
					}
				}
			}
		}
	}
	if len(stored) == 1 {
		v := stored[0]
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			if k.Value.Kind() == constant.String && (isByteSlice(t) || types.Identical(t.Underlying(), types.Typ[types.String])) {
				return c.StrLit(constant.StringVal(k.Value))
			}
			return e.constVal(k)
		}
	}
	if len(stored) == 0 && strings.HasPrefix(g.Pkg.Pkg.Path(), RepoModule) {
		return e.zero(t)
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Signature:
		return &OpaqueV{T: t, Tag: "g_" + name}
	}
	return e.wrap(st, c.Const("g_"+name, c.types.SortOf(t)), t)
}

// applyContract is the modular call rule.
func (e *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Value) []Ret {
	c := e.c
	if len(con.Params) != len(args) {
		e.fail("contract of %s has %d parameters, function has %d", con.Fn, len(con.Params), len(args))
	}
	env := map[string]Value{}
	for i, n := range con.Params {
		env[n] = args[i]
	}
	old := st.clone()
	pre := &scope{st: st, old: old, env: env}
	for _, cl := range con.Clauses {
		if cl.Kind == "unset" {
			q, _ := e.unsetField(st, cl, env)
			e.check(st, e.isNilVal(st, e.load(st, q, "")), "requires", con.Fn+": "+cl.Text)
		}
		if cl.Kind == "requires" {
			e.check(st, e.T(cl.E, pre), "requires", con.Fn+": "+cl.Text)
			st.assume(c, e.T(cl.E, pre))
		}
	}
	for _, cl := range con.Clauses {
		switch cl.Kind {
		case "holds":
			k := e.specLock(cl.E, pre)
			e.check(st, c.BoolLit(st.locks[k] != 0), "lock", con.Fn+" is called with "+cl.Text+" held")
		case "reads":
			var idx []*Term
			if cl.Idx != nil {
				idx = []*Term{e.T(cl.Idx, pre)}
			}
			e.guard(st, cl.Names[0], idx, false)
		}
	}
	if con.Log {
		st.calls = append(st.calls[:len(st.calls):len(st.calls)], CallRec{Name: con.Fn, Args: args})
	}
	e.havocAlloc = con.Alloc
	e.alwaysDuring(st, con, pre)
	for _, cl := range con.Clauses {
		if cl.Kind == "modifies" {
			e.havocMod(st, cl, pre)
		}
	}
	for _, a := range args {
		// a file handed over has moved, and may have been written to
		if _, _, ok := e.isFile(a); ok {
			_, _, pos := e.file(a)
			st.objs[pos] = c.Fresh("pos", c.Int)
			for _, cl := range con.Clauses {
				if cl.Kind == "modifies" && cl.Names[0] == "fdata" {
					e.markWrote(st, pos)
				}
			}
		}
	}
	for obj, shared := range e.filePos {
		if shared && st.objs[obj] != nil {
			st.objs[obj] = e.c.Fresh("pos", e.c.Int)
		}
	}
	res := fn.Signature.Results()
	if res.Len() != len(con.Results) {
		e.fail("contract of %s has %d results, function has %d", con.Fn, len(con.Results), res.Len())
	}
	hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) && !con.NoErr
	branch := func(st *State, failed bool) *Ret {
		var vals TupleV
		env2 := map[string]Value{}
		for k, v := range env {
			env2[k] = v
		}
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			var v Value
			switch {
			case hasErr && i == res.Len()-1:
				if res.Len() == 1 {
					v = c.Fresh("err_"+sane(con.Results[i]), c.Err)
				} else if failed {
					v = e.freshErr(st, sane(con.Results[i]))
				} else {
					v = e.errNil()
				}
			case hasErr && failed:
				v = e.symbolic(st, con.Results[i], t, nil, 1)
			default:
				d := 0
				if _, ok := t.Underlying().(*types.Pointer); !ok || con.Pure {
					d = 1
				}
				v = e.symbolic(st, con.Results[i], t, con.Alloc, d)
			}
			vals = append(vals, v)
			env2[con.Results[i]] = v
		}
		sc := &scope{st: st, old: old, env: env2}
		for _, cl := range con.Clauses {
			if (cl.Kind == "ensures" || cl.Kind == "assumes") && !e.usesCalls(cl.E) {
				if !st.assume(c, e.T(cl.E, sc)) {
					return nil
				}
			}
		}
		if con.Log {
			st.calls = append([]CallRec(nil), st.calls...)
			st.calls[len(st.calls)-1].Res = vals
		}
		var v Value = vals
		if len(vals) == 1 {
			v = vals[0]
		} else if len(vals) == 0 {
			v = nil
		}
		return &Ret{st, v}
	}
	var out []Ret
	if hasErr && res.Len() > 1 {
		f := st.clone()
		if r := branch(st, false); r != nil {
			out = append(out, *r)
		}
		if r := branch(f, true); r != nil {
			out = append(out, *r)
		}
		return out
	}
	if r := branch(st, false); r != nil {
		out = append(out, *r)
	}
	return out
}

// alwaysDuring checks the crash invariants of the function being verified in
// every intermediate state of a call: any state the callee's frame and its own
// crash invariants allow.
func (e *Exec) alwaysDuring(st *State, con *Contract, pre *scope) {
	has := false
	for _, cl := range e.spec.Clauses {
		has = has || cl.Kind == "always"
	}
	if !has {
		return
	}
	mid := st.clone()
	ghost := false
	for _, cl := range con.Clauses {
		if cl.Kind == "modifies" {
			if _, ok := mid.ghost[cl.Names[0]]; ok {
				ghost = true
				e.havocMod(mid, cl, pre)
			}
		}
	}
	if !ghost {
		return
	}
	sc := &scope{st: mid, old: pre.old, env: pre.env}
	for _, cl := range con.Clauses {
		if cl.Kind == "always" {
			mid.assume(e.c, e.T(cl.E, sc))
		}
	}
	e.durable(mid)
}

func (e *Exec) havocMod(st *State, cl *Clause, sc *scope) {
	c := e.c
	n := cl.Names[0]
	if g, ok := st.ghost[n]; ok {
		if cl.E != nil {
			i := e.T(cl.E, sc)
			st.ghost[n] = c.Store(g, i, c.Fresh("m_"+n, g.Sort.Rng))
		} else {
			st.ghost[n] = c.Fresh("m_"+n, g.Sort)
		}
		return
	}
	parts := strings.Split(n, ".")
	v, ok := sc.get(parts[0])
	if !ok {
		e.fail("modifies: unknown %s", n)
	}
	pv, ok := v.(*PtrV)
	if !ok {
		if _, isSnap := v.(*SnapV); isSnap {
			return
		}
		e.fail("modifies: %s is not a pointer to an object", n)
	}
	obj, path, t := e.fieldPath(st, pv, parts[1:])
	pv = &PtrV{Obj: obj}
	if m, ok := e.getPath(st, st.objs[pv.Obj], e.objType[pv.Obj], path).(*MapV); ok && m.Obj > 0 {
		st.objs[m.Obj] = c.Fresh("m_"+n, st.objs[m.Obj].(*Term).Sort)
		return
	}
	nv := e.symbolic(st, "m_"+n, t, e.havocAlloc, 1)
	st.objs[pv.Obj] = e.setPath(st, st.objs[pv.Obj], e.objType[pv.Obj], path, nv)
}

// external models functions outside the repository that have no special rule.
func (e *Exec) external(p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
	c := e.c
	name := extName(fn)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if pkg == "github.com/sirupsen/logrus" {
		e.externs["logrus (ignored)"] = true
		return one(st, e.opaqueRes(fn))
	}
	if !purePkgs[pkg] && !pureFns[name] {
		e.fail("external function %s", name)
	}
	e.externs[name+" (uninterpreted)"] = true
	// deterministic uninterpreted function of its arguments
	var as []*Term
	sig := fn.Signature
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		if i < len(pts) {
			as = append(as, e.toTerm(st, a, pts[i]))
		}
	}
	res := sig.Results()
	mk := func(i int) Value {
		t := res.At(i).Type()
		n := "x_" + name
		if res.Len() > 1 {
			n = fmt.Sprintf("x_%s.%d", name, i)
		}
		if len(as) == 0 {
			return e.wrap(st, c.Fresh(n, c.types.SortOf(t)), t)
		}
		return e.wrap(st, c.Fn(n, c.types.SortOf(t), as...), t)
	}
	switch res.Len() {
	case 0:
		return one(st, nil)
	case 1:
		return one(st, mk(0))
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, mk(i))
	}
	return one(st, tv)
}

func (e *Exec) opaqueRes(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return &OpaqueV{T: res.At(0).Type(), Tag: "opaque"}
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, &OpaqueV{T: res.At(i).Type(), Tag: "opaque"})
	}
	return tv
}

// fieldPath follows field names from a pointer, through pointers to objects.
func (e *Exec) fieldPath(st *State, pv *PtrV, fs []string) (int, []PathElem, types.Type) {
	obj := pv.Obj
	path := append([]PathElem{}, pv.Path...)
	t := typeAt(e.objType[obj], path)
	for _, f := range fs {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			in, ok := e.getPath(st, st.objs[obj], e.objType[obj], path).(*PtrV)
			if !ok {
				e.fail("modifies: %s is behind a pointer that is not an object", f)
			}
			obj, path = in.Obj, append([]PathElem{}, in.Path...)
			t = typeAt(e.objType[obj], path)
		}
		u, ok := t.Underlying().(*types.Struct)
		found := false
		if ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					path = append(path, PathElem{F: i})
					t = u.Field(i).Type()
					found = true
					break
				}
			}
		}
		if !found {
			e.fail("modifies: no field %s", f)
		}
	}
	return obj, path, t
}

// usesCalls reports whether a formula speaks about the callee's own call log,
// which the caller does not see.
func (e *Exec) usesCalls(x *Expr) bool {
	if x == nil {
		return false
	}
	if x.Op == "call" || x.Op == "ident" {
		switch x.Name {
		case "calls", "called", "callerr", "callarg", "calledon":
			return x.Op == "call"
		}
		if m := e.S.Macros[x.Name]; m != nil && e.usesCalls(m.Body) {
			return true
		}
	}
	for _, a := range x.Args {
		if e.usesCalls(a) {
			return true
		}
	}
	return false
}
