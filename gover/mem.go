package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// unsup is raised (as a panic) when code leaves the supported subset.
type unsup struct{ msg string }

func (e *Exec) fail(format string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(format, a...) + " at " + e.where()})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !opaqueStruct(t)
}

func isMutex(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "sync.WaitGroup"
}

func isDB(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == RepoModule+"/src/libdb" && (n.Obj().Name() == "Database" || n.Obj().Name() == "ReadOnlyView" || n.Obj().Name() == "WriterView")
}

// newObj allocates an object.
func (e *Exec) newObj(st *State, t types.Type, v Value) int {
	e.nextObj++
	st.objs[e.nextObj] = v
	e.objType[e.nextObj] = t
	return e.nextObj
}

// zero is the zero value of t.
func (e *Exec) zero(t types.Type) Value {
	c := e.c
	if isErrorType(t) {
		return e.errNil()
	}
	if isByteSlice(t) {
		return c.StrLit("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsInteger != 0:
			return c.IntLit(0)
		case u.Info()&types.IsString != 0:
			return c.StrLit("")
		}
		return c.Const("zero_"+u.Name(), c.types.SortOf(t))
	case *types.Pointer:
		return &SnapV{T: c.None(c.types.SortOf(t)), Elem: u.Elem()}
	case *types.Slice:
		return c.SeqNil(c.types.SortOf(t))
	case *types.Map:
		return &MapV{Obj: 0}
	case *types.Array:
		a := &ArrV{T: u.Elem()}
		if u.Len() > 4096 {
			return c.Const("zeroarr", c.types.SortOf(t))
		}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.zero(u.Elem()))
		}
		return a
	case *types.Struct:
		if opaqueStruct(t) {
			return c.Const("zero_"+sane(shortType(t)), c.types.SortOf(t))
		}
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return e.pack(s)
	case *types.Interface:
		return &OpaqueV{T: t, Tag: "nil"}
	case *types.Signature:
		return &OpaqueV{T: t, Tag: "nil"}
	case *types.Chan:
		return &OpaqueV{T: t, Tag: "nil"}
	}
	e.fail("zero of %s", t)
	return nil
}

// pure reports values that are represented by their term alone.
func pure(v Value) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case *SnapV:
		if len(x.Path) == 0 {
			return x.T, true
		}
	case *SliceRef:
		if x.T != nil {
			return x.T, true
		}
	case *EncV:
		return nil, false
	}
	return nil, false
}

// pack turns a StructV of pure fields into a record term.
func (e *Exec) pack(s *StructV) Value {
	var as []*Term
	for _, f := range s.F {
		t, ok := pure(f)
		if !ok {
			return s
		}
		as = append(as, t)
	}
	so := e.c.types.SortOf(s.T)
	if so.Kind != KDT {
		return s
	}
	for i := range as {
		if as[i].Sort != so.DT.Fields[i].Sort {
			return s
		}
	}
	return e.c.Ctor(so, as...)
}

// wrap turns a term of Go type t into a value.
func (e *Exec) wrap(st *State, x *Term, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &SnapV{T: x, Elem: u.Elem()}
	case *types.Map:
		if x.Sort.Kind == KArray {
			return &MapV{Obj: e.newObj(st, t, x)}
		}
	}
	return x
}

// expand turns a record term into a StructV.
func (e *Exec) expand(st *State, x *Term, t types.Type) *StructV {
	u := t.Underlying().(*types.Struct)
	s := &StructV{T: t}
	for i := 0; i < u.NumFields(); i++ {
		f := e.c.Sel(x, i)
		switch u.Field(i).Type().Underlying().(type) {
		case *types.Map:
			s.F = append(s.F, e.wrap(st, f, u.Field(i).Type()))
		case *types.Pointer:
			s.F = append(s.F, &SnapV{T: f, Elem: u.Field(i).Type().Underlying().(*types.Pointer).Elem()})
		default:
			s.F = append(s.F, f)
		}
	}
	return s
}

// toTerm freezes a value of Go type t into a term.
func (e *Exec) toTerm(st *State, v Value, t types.Type) *Term {
	c := e.c
	so := c.types.SortOf(t)
	switch x := v.(type) {
	case nil:
		return c.Const("undef_"+sane(so.Name), so)
	case *Term:
		if x.Sort == so {
			return x
		}
		if so.Name == "Any" {
			return c.Fn("any_"+sane(x.Sort.Name), so, x)
		}
		if x.Sort == c.Err && so.Kind == KUnint {
			return c.Fn("any_err", so, x)
		}
		e.fail("sort mismatch: %s has sort %s, want %s (%s)", c.Show(x), x.Sort.Name, so.Name, t)
	case *SnapV:
		if len(x.Path) == 0 {
			if x.T.Sort == so {
				return x.T
			}
			if x.T.Op == "none" && so.Kind == KOpt {
				return c.None(so)
			}
			if so.Name == "Any" {
				return c.Fn("any_"+sane(x.T.Sort.Name), so, x.T)
			}
			return c.Const("undef_"+sane(so.Name), so)
		}
		in := e.load(st, x, "")
		return c.Some(e.toTerm(st, in, deref(t)))
	case *SliceRef:
		if x.T != nil {
			return e.toTerm(st, x.T, t)
		}
		return e.arrSeq(st, x, t)
	case *PtrV:
		if so.Kind == KOpt {
			et := deref(t)
			if isMutex(et) {
				return c.Some(c.Const(fmt.Sprintf("mutex!%d", x.Obj), so.Elem))
			}
			return c.Some(e.toTerm(st, e.load(st, x, ""), et))
		}
		if so.Kind == KUnint {
			return c.Const(fmt.Sprintf("ptr!%d", x.Obj), so)
		}
	case *StructV:
		if so.Kind == KDT {
			u := x.T.Underlying().(*types.Struct)
			var as []*Term
			for i, f := range x.F {
				as = append(as, e.toTerm(st, f, u.Field(i).Type()))
			}
			return c.Ctor(so, as...)
		}
	case *IfaceV:
		if so == c.Err {
			return e.ifaceErr(st, x)
		}
		in := e.toTerm(st, x.V, x.Dyn)
		return c.Fn("any_"+sane(in.Sort.Name), so, in)
	case *OpaqueV:
		if so == c.Err && x.Tag == "nil" {
			return e.errNil()
		}
		var as []*Term
		for _, a := range x.Arg {
			if t, ok := a.(*Term); ok {
				as = append(as, t)
			}
		}
		if len(as) == 0 {
			return c.Const("opq_"+sane(x.Tag)+"_"+sane(so.Name), so)
		}
		return c.Fn("opq_"+sane(x.Tag)+"_"+sane(so.Name), so, as...)
	case *MapV:
		if so.Kind == KArray {
			if x.Obj == 0 {
				return c.ConstArr(so, c.None(so.Rng))
			}
			return e.toTerm(st, st.objs[x.Obj], t)
		}
	case *ArrV:
		if so.Kind == KSeq {
			r := c.SeqNil(so)
			for _, y := range x.E {
				r = c.SeqApp(r, e.toTerm(st, y, x.T))
			}
			return r
		}
	case *ClosV:
		if x.Fn != nil {
			return c.Const("fn_"+sane(shortName(x.Fn)), so)
		}
	case *DBV:
		return c.Const("db_"+x.Root, so)
	case *EncV:
		return c.Fn("enc_"+sane(x.T.Sort.Name), so, x.T)
	}
	e.fail("cannot freeze %T as %s", v, t)
	return nil
}

func (e *Exec) arrSeq(st *State, x *SliceRef, t types.Type) *Term {
	a := st.objs[x.Arr.Obj].(*ArrV)
	so := e.c.types.SortOf(t)
	r := e.c.SeqNil(so)
	for _, y := range a.E {
		r = e.c.SeqApp(r, e.toTerm(st, y, a.T))
	}
	return r
}

// typeAt follows a path from a type.
func typeAt(t types.Type, path []PathElem) types.Type {
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.F).Type()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (e *Exec) getPath(st *State, v Value, t types.Type, path []PathElem) Value {
	for i, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p.F]
		case *ArrV:
			if p.Idx != nil {
				if p.Idx.Op == "int" && p.Idx.N >= 0 && int(p.Idx.N) < len(x.E) {
					v = x.E[p.Idx.N]
					break
				}
				e.fail("array index not constant")
			} else {
				v = x.E[p.F]
			}
		case *SliceRef:
			v = e.c.SeqAt(x.T, p.Idx)
		case *Term:
			switch x.Sort.Kind {
			case KDT:
				v = e.c.Sel(x, p.F)
			case KSeq:
				v = e.c.SeqAt(x, p.Idx)
			default:
				if u, ok := t.Underlying().(*types.Struct); ok && opaqueStruct(t) {
					// a field of a library's struct: unknown, but always the same
					ft := u.Field(p.F).Type()
					if it, ok := ft.Underlying().(*types.Interface); ok && !isErrorType(it) {
						v = &OpaqueV{T: ft, Tag: "sym_" + u.Field(p.F).Name()}
						break
					}
					v = e.wrap(st, e.c.Fn("fld_"+sane(x.Sort.Name)+"_"+u.Field(p.F).Name(), e.c.types.SortOf(ft), x), ft)
					break
				}
				e.fail("path into %s", x.Sort.Name)
			}
		default:
			e.fail("path into %T", v)
		}
		t = typeAt(t, path[i:i+1])
	}
	return v
}

// load reads through a pointer value.
func (e *Exec) load(st *State, p Value, what string) Value {
	switch x := p.(type) {
	case *PtrV:
		v, ok := st.objs[x.Obj]
		if !ok {
			e.fail("dangling object %d", x.Obj)
		}
		t := e.objType[x.Obj]
		v = e.getPath(st, v, t, x.Path)
		rt := typeAt(t, x.Path)
		if tm, ok := v.(*Term); ok {
			v = e.wrap(st, tm, rt)
			if _, isS := rt.Underlying().(*types.Slice); isS {
				v = &SliceRef{T: tm, From: x}
			}
			if m, isM := v.(*MapV); isM && m.Obj != 0 {
				// remember the map object so that later updates are seen
				e.store(st, x, m)
			}
		} else if sr, ok := v.(*SliceRef); ok && sr.T != nil {
			v = &SliceRef{T: sr.T, From: x}
		}
		return v
	case *SnapV:
		e.nonNil(st, x, what)
		in := e.c.Val(x.T)
		v := e.getPath(st, in, x.Elem, x.Path)
		rt := typeAt(x.Elem, x.Path)
		if tm, ok := v.(*Term); ok {
			v = e.wrap(st, tm, rt)
		}
		return v
	}
	e.fail("load through %T", p)
	return nil
}

// nonNil checks that a snapshot pointer is not nil.
func (e *Exec) nonNil(st *State, x *SnapV, what string) {
	f := e.c.IsSome(x.T)
	if f == e.c.True {
		return
	}
	e.check(st, f, "nil-deref", what)
	st.assume(e.c, f)
}

func (e *Exec) setPath(st *State, v Value, t types.Type, path []PathElem, nv Value) Value {
	if len(path) == 0 {
		if sr, ok := nv.(*SliceRef); ok && sr.T != nil {
			return sr.T
		}
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		n := &StructV{T: x.T, F: append([]Value{}, x.F...)}
		n.F[p.F] = e.setPath(st, x.F[p.F], typeAt(t, path[:1]), path[1:], nv)
		return e.pack(n)
	case *ArrV:
		i := p.F
		if p.Idx != nil {
			if p.Idx.Op != "int" {
				e.fail("array index not constant")
			}
			i = int(p.Idx.N)
		}
		n := &ArrV{T: x.T, E: append([]Value{}, x.E...)}
		n.E[i] = e.setPath(st, x.E[i], x.T, path[1:], nv)
		return n
	case *SliceRef:
		return e.setPath(st, x.T, t, path, nv)
	case *Term:
		switch x.Sort.Kind {
		case KDT:
			in := e.setPath(st, e.c.Sel(x, p.F), typeAt(t, path[:1]), path[1:], nv)
			if tm, ok := pure(in); ok && tm.Sort == x.Sort.DT.Fields[p.F].Sort {
				return e.c.With(x, p.F, tm)
			}
			s := e.expand(st, x, t)
			s.F[p.F] = in
			return s
		case KSeq:
			in := e.setPath(st, e.c.SeqAt(x, p.Idx), typeAt(t, path[:1]), path[1:], nv)
			return e.c.SeqUpd(x, p.Idx, e.toTerm(st, in, typeAt(t, path[:1])))
		}
		if _, ok := t.Underlying().(*types.Struct); ok && opaqueStruct(t) {
			// a library's struct, of which nothing is known afterwards
			return e.c.Fresh("lib", x.Sort)
		}
	}
	e.fail("store into %T", v)
	return nil
}

func (e *Exec) store(st *State, p Value, nv Value) {
	x, ok := p.(*PtrV)
	if !ok {
		if s, ok := p.(*SnapV); ok {
			e.nonNil(st, s, "store")
		}
		e.fail("store through %T", p)
	}
	t := e.objType[x.Obj]
	old := st.objs[x.Obj]
	for _, pe := range x.Path {
		if pe.Idx != nil {
			if e.readOnly[x.Obj] {
				e.fail("write through a slice that another variable may share")
			}
			e.elemSet[x.Obj] = true
		}
	}
	st.objs[x.Obj] = e.setPath(st, old, t, x.Path, nv)
}

// symbolic makes an unconstrained value of type t. Pointers become snapshots
// except mutexes and types listed in alloc.
func (e *Exec) symbolic(st *State, name string, t types.Type, alloc map[string]bool, depth int) Value {
	c := e.c
	if isDB(t) {
		root := e.dbRootFor(name, t)
		return &DBV{Root: root}
	}
	if isOSFile(t) && e.fsHas(st) {
		return e.symFile(st, name, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isMutex(u.Elem()) {
			return &PtrV{Obj: e.newObj(st, u.Elem(), c.Const("mutex", c.types.SortOf(u.Elem())))}
		}
		if depth == 0 || alloc[shortType(u.Elem())] {
			if isStruct(u.Elem()) {
				return &PtrV{Obj: e.newObj(st, u.Elem(), e.symbolic(st, name, u.Elem(), alloc, depth+1))}
			}
			return &PtrV{Obj: e.newObj(st, u.Elem(), e.symbolic(st, name, u.Elem(), alloc, depth+1))}
		}
	case *types.Struct:
		if opaqueStruct(t) {
			break
		}
		s := &StructV{T: t}
		e.symIn = append(e.symIn, shortType(t))
		defer func() { e.symIn = e.symIn[:len(e.symIn)-1] }()
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.symbolic(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), alloc, depth+1))
		}
		return e.pack(s)
	case *types.Map:
		so := c.types.SortOf(t)
		return &MapV{Obj: e.newObj(st, t, c.Fresh(name, so))}
	case *types.Interface:
		if !isErrorType(t) {
			return &OpaqueV{T: t, Tag: "sym_" + name}
		}
	case *types.Signature:
		return &OpaqueV{T: t, Tag: "sym_" + name}
	case *types.Chan:
		return &OpaqueV{T: t, Tag: "sym_" + name}
	}
	v := c.Fresh(name, c.types.SortOf(t))
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		st.assume(c, c.Le(c.IntLit(0), v))
	}
	return e.wrap(st, v, t)
}

func (e *Exec) constVal(k *ssa.Const) Value {
	c := e.c
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.BoolLit(constant.BoolVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
				return c.IntLit(n)
			}
			return c.Const("big_"+k.Value.ExactString(), c.Int)
		case u.Info()&types.IsString != 0:
			return c.StrLit(constant.StringVal(k.Value))
		case u.Info()&types.IsFloat != 0:
			return c.Const("flt_"+sane(k.Value.ExactString()), c.types.SortOf(t))
		}
	}
	e.fail("constant %s", k)
	return nil
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.P.Prog.Fset.Position(p)
	f := q.Filename
	if len(f) > 6 && f[:6] == "/repo/" {
		f = f[6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
