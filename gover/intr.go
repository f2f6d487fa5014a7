package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret

var purePkgs = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "encoding/hex": true, "path": true, "time": true}
var pureFns = map[string]bool{}

var repoIntr = map[string]intrFn{}
var ifaceIntr = map[string]intrFn{}
var intrinsics = map[string]intrFn{}

func (e *Exec) str(v Value) *Term {
	t, ok := pure(v)
	if !ok || t.Sort != e.c.Str {
		e.fail("string expected, got %T", v)
	}
	return t
}

func (e *Exec) concat(a, b *Term) *Term {
	c := e.c
	av, aok := c.strVal[a]
	bv, bok := c.strVal[b]
	if aok && av == "" {
		return b
	}
	if bok && bv == "" {
		return a
	}
	if aok && bok {
		return c.StrLit(av + bv)
	}
	if a.Op == "app" && a.Name == "strcat" {
		return e.concat(a.Args[0], e.concat(a.Args[1], b))
	}
	if aok && b.Op == "app" && b.Name == "strcat" {
		if v, ok := c.strVal[b.Args[0]]; ok {
			return e.concat(c.StrLit(av+v), b.Args[1])
		}
	}
	// filepath.Join ends in its last component as it was given when that is an ordinary name
	if bok && !strings.Contains(bv, "/") && a.Op == "app" && a.Name == "pathjoin" {
		if v, ok := c.strVal[a.Args[1]]; ok && v != "" && v != "." && v != ".." && v+bv != ".." && !strings.Contains(v, "/") {
			return e.pathJoin(a.Args[0], c.StrLit(v+bv))
		}
	}
	return c.Fn("strcat", c.Str, a, b)
}

func (e *Exec) fmtInt(n *Term) *Term {
	if n.Op == "int" {
		return e.c.StrLit(strconv.FormatInt(n.N, 10))
	}
	return e.c.Fn("itoa", e.c.Str, n)
}

func (e *Exec) strPred(name string, s, t *Term) *Term {
	c := e.c
	a, ok1 := c.strVal[s]
	b, ok2 := c.strVal[t]
	if ok1 && ok2 {
		if name == "hassuffix" {
			return c.BoolLit(strings.HasSuffix(a, b))
		}
		return c.BoolLit(strings.HasPrefix(a, b))
	}
	return c.Fn(name, c.Bool, s, t)
}

func (e *Exec) pathJoin(a, b *Term) *Term {
	return e.c.Fn("pathjoin", e.c.Str, a, b)
}

func (e *Exec) variadic(st *State, v Value) []Value {
	switch x := v.(type) {
	case *SliceRef:
		if x.Arr != nil {
			return st.objs[x.Arr.Obj].(*ArrV).E
		}
		if x.T == e.c.SeqNil(x.T.Sort) {
			return nil
		}
	case *Term:
		if x.Sort.Kind == KSeq && x == e.c.SeqNil(x.Sort) {
			return nil
		}
	}
	e.fail("variadic arguments not literal")
	return nil
}

// fmtArg renders one formatted argument.
func (e *Exec) fmtArg(st *State, verb byte, a Value) *Term {
	c := e.c
	iv, ok := a.(*IfaceV)
	if ok {
		if isErrorType(iv.Dyn) {
			if t, ok := iv.V.(*Term); ok {
				return e.errText(t)
			}
		}
		if t, ok := pure(iv.V); ok {
			switch {
			case t.Sort == c.Str && verb == 'q':
				return c.Fn("fmtq", c.Str, t)
			case t.Sort == c.Str && (verb == 's' || verb == 'v'):
				return t
			case t.Sort == c.Int && (verb == 'd' || verb == 'v'):
				return e.fmtInt(t)
			case t.Sort == c.Bool && (verb == 't' || verb == 'v'):
				return c.Ite(t, c.StrLit("true"), c.StrLit("false"))
			}
			return c.Fn("fmt_"+string(verb)+"_"+sane(t.Sort.Name), c.Str, t)
		}
		return c.Fn("fmtany_"+string(verb), c.Str, e.toTerm(st, iv.V, iv.Dyn))
	}
	if t, ok := a.(*Term); ok {
		if t.Sort == c.Err {
			return e.errText(t)
		}
		return c.Fn("fmt_"+string(verb)+"_"+sane(t.Sort.Name), c.Str, t)
	}
	return c.Fresh("fmt", c.Str)
}

func (e *Exec) sprintf(st *State, f *Term, as []Value) *Term {
	c := e.c
	v, ok := c.strVal[f]
	if !ok {
		return c.Fresh("sprintf", c.Str)
	}
	r := c.StrLit("")
	k := 0
	for i := 0; i < len(v); i++ {
		if v[i] != '%' {
			j := i
			for j < len(v) && v[j] != '%' {
				j++
			}
			r = e.concat(r, c.StrLit(v[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(v) {
			break
		}
		if v[i] == '%' {
			r = e.concat(r, c.StrLit("%"))
			continue
		}
		if strings.IndexByte("sdvqxtX", v[i]) < 0 || k >= len(as) {
			return c.Fresh("sprintf", c.Str)
		}
		r = e.concat(r, e.fmtArg(st, v[i], as[k]))
		k++
	}
	return r
}

// mutexes

func (e *Exec) lockObj(st *State, v Value) int {
	if sn, ok := v.(*SnapV); ok {
		// a mutex reached through a pointer of which only the value is known
		k := fmt.Sprintf("%p %v", sn.T, sn.Path)
		if e.snapLock == nil {
			e.snapLock = map[string]int{}
		}
		if e.snapLock[k] == 0 {
			e.snapLock[k] = -(1 << 40) - len(e.snapLock)
		}
		return e.snapLock[k]
	}
	p, ok := v.(*PtrV)
	if !ok {
		e.fail("mutex is %T", v)
	}
	if len(p.Path) > 0 {
		// mutex embedded by value: identify by object and path
		k := p.Obj*1000 + 1
		for _, q := range p.Path {
			k = k*31 + q.F + 7
		}
		return -k
	}
	return p.Obj
}

// staleKey marks, in the lock state, guards released since the guarded records were last read.
const staleKey = 1 << 45

func stale(k int) int {
	if k < 0 {
		return staleKey + 1 - 2*k
	}
	return staleKey + 2*k
}

// guard checks that records are read and written with their lock held, in one critical section.
func (e *Exec) guard(st *State, g string, idx []*Term, write bool) {
	c := e.c
	if e.spec == nil {
		return
	}
	g = strings.TrimPrefix(g, "pend!")
	for _, cl := range e.spec.Clauses {
		if cl.Kind != "guarded" || cl.Names[0] != g {
			continue
		}
		sc := &scope{st: e.old, old: e.old, env: e.env}
		same := c.True
		if cl.Idx != nil {
			if len(idx) == 0 {
				continue
			}
			same = c.Eq(idx[0], e.T(cl.Idx, sc))
			if same != c.True && !write {
				continue
			}
		}
		k := e.specLock(cl.E, sc)
		if !write && len(cl.Names) > 1 && st.locks[k] == 0 {
			// reading outside is allowed here, but nothing may be rewritten from it
			st.locks[stale(k)] = 1
			continue
		}
		what := "read"
		if write {
			what = "written"
		}
		e.check(st, c.Implies(same, c.BoolLit(st.locks[k] != 0)), "lock", g+" is "+what+" with "+cl.Text+" held")
		if same != c.True {
			continue
		}
		if write {
			e.check(st, c.BoolLit(st.locks[stale(k)] == 0), "lock", g+" is rewritten while "+cl.Text+" is still held since it was read")
		} else {
			delete(st.locks, stale(k))
		}
	}
}

// guardHeld says whether the locks guarding records are held.
func (e *Exec) guardHeld(st *State, g string, idx []*Term) bool {
	if e.spec == nil {
		return true
	}
	g = strings.TrimPrefix(g, "pend!")
	for _, cl := range e.spec.Clauses {
		if cl.Kind != "guarded" || cl.Names == nil || cl.Names[0] != g {
			continue
		}
		if st.locks[e.specLock(cl.E, &scope{st: e.old, old: e.old, env: e.env})] == 0 {
			return false
		}
	}
	return true
}

// specLock identifies the mutex a lock expression names, by pointer or by value.
func (e *Exec) specLock(x *Expr, sc *scope) int {
	if x.Op == "sel" {
		if p, ok := e.V(x.Args[0], sc).(*PtrV); ok {
			if u, ok := typeAt(e.objType[p.Obj], p.Path).Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == x.Name && isMutex(u.Field(i).Type()) {
						q := append(append([]PathElem{}, p.Path...), PathElem{F: i})
						return e.lockObj(sc.st, &PtrV{Obj: p.Obj, Path: q})
					}
				}
			}
		}
	}
	return e.lockObj(sc.st, e.V(x, sc))
}

// guardMap checks that a Go map is used with its lock held.
func (e *Exec) guardMap(st *State, m *MapV) {
	if e.spec == nil {
		return
	}
	for _, cl := range e.spec.Clauses {
		if cl.Kind != "guarded" || cl.Map == nil {
			continue
		}
		sc := &scope{st: e.old, old: e.old, env: e.env}
		if g, ok := e.V(cl.Map, sc).(*MapV); !ok || g.Obj != m.Obj {
			continue
		}
		k := e.specLock(cl.E, sc)
		e.check(st, e.c.BoolLit(st.locks[k] != 0), "lock", "the map is used with "+cl.Text+" held")
	}
}

func (e *Exec) released(st *State, k int) {
	if e.spec == nil {
		return
	}
	for _, cl := range e.spec.Clauses {
		if cl.Kind == "guarded" {
			if e.specLock(cl.E, &scope{st: e.old, old: e.old, env: e.env}) == k {
				st.locks[stale(k)] = 1
			}
		}
	}
}

func init() {
	lock := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		k := e.lockObj(st, args[0])
		e.check(st, e.c.BoolLit(st.locks[k] == 0), "lock", "no self-deadlock on Lock")
		st.locks[k] = 1
		return one(st, nil)
	}
	unlock := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		k := e.lockObj(st, args[0])
		e.check(st, e.c.BoolLit(st.locks[k] != 0), "lock", "Unlock of a held lock")
		delete(st.locks, k)
		e.released(st, k)
		return one(st, nil)
	}
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		intrinsics[n+".Lock"] = lock
		intrinsics[n+".Unlock"] = unlock
		intrinsics[n+".RLock"] = lock
		intrinsics[n+".RUnlock"] = unlock
	}
	intrinsics["errors.New"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		t := e.libErr(st, "new")
		st.assume(e.c, e.c.Eq(e.errText(t), e.str(args[0])))
		return one(st, t)
	}
	intrinsics["fmt.Errorf"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		t := e.libErr(st, "errorf")
		st.assume(e.c, e.c.Eq(e.errText(t), e.sprintf(st, e.str(args[0]), e.variadic(st, args[1]))))
		return one(st, t)
	}
	intrinsics["fmt.Sprintf"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.sprintf(st, e.str(args[0]), e.variadic(st, args[1])))
	}
	intrinsics["sort.Strings"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		sr, ok := args[0].(*SliceRef)
		if !ok || sr.From == nil {
			if t, ok := pure(args[0]); ok && e.c.SeqLen(t) == e.c.IntLit(0) {
				return one(st, nil)
			}
			e.fail("sort.Strings of %T", args[0])
		}
		e.store(st, sr.From, e.c.SeqSort(sr.T))
		return one(st, nil)
	}
	intrinsics["path/filepath.Join"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		vs := e.variadic(st, args[0])
		t := e.str(vs[0])
		for _, v := range vs[1:] {
			t = e.pathJoin(t, e.str(v))
		}
		return one(st, t)
	}
	intrinsics["path/filepath.Base"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("pathbase", e.c.Str, e.str(args[0])))
	}
	intrinsics["path/filepath.Dir"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("pathdir", e.c.Str, e.str(args[0])))
	}
	intrinsics["path/filepath.Abs"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		bad := st.clone()
		return []Ret{{st, TupleV{e.c.Fn("pathabs", e.c.Str, e.str(args[0])), e.errNil()}}, {bad, TupleV{e.c.StrLit(""), e.freshErr(bad, "abs")}}}
	}
	intrinsics["strings.TrimSpace"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		s := e.str(args[0])
		if v, ok := e.c.strVal[s]; ok {
			return one(st, e.c.StrLit(strings.TrimSpace(v)))
		}
		return one(st, e.c.Fn("trimspace", e.c.Str, s))
	}
	intrinsics["strings.ToLower"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("lower", e.c.Str, e.str(args[0])))
	}
	intrinsics["strings.HasSuffix"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.affix(st, "hassuffix", args)
	}
	intrinsics["strings.HasPrefix"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.affix(st, "hasprefix", args)
	}
	intrinsics["bytes.HasPrefix"] = intrinsics["strings.HasPrefix"]
	intrinsics["strings.TrimSuffix"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		a, b := e.str(args[0]), e.str(args[1])
		return one(st, c.Ite(e.strPred("hassuffix", a, b), e.substr(a, c.IntLit(0), c.Sub(e.strLen(a), e.strLen(b))), a))
	}
	trimPrefix := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		a, b := e.str(args[0]), e.str(args[1])
		return one(st, c.Ite(e.strPred("hasprefix", a, b), e.substr(a, e.strLen(b), e.strLen(a)), a))
	}
	intrinsics["strings.TrimPrefix"] = trimPrefix
	intrinsics["bytes.TrimPrefix"] = trimPrefix
	intrinsics["strconv.Itoa"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.fmtInt(args[0].(*Term)))
	}
	intrinsics["strconv.FormatInt"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		if b, ok := args[1].(*Term); !ok || b.Op != "int" || b.N != 10 {
			e.fail("FormatInt base")
		}
		return one(st, e.fmtInt(args[0].(*Term)))
	}
	intrinsics["strconv.FormatBool"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Ite(args[0].(*Term), e.c.StrLit("true"), e.c.StrLit("false")))
	}
	atoi := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		s := e.str(args[0])
		if s.Op == "app" && s.Name == "itoa" {
			return one(st, TupleV{s.Args[0], e.errNil()})
		}
		if v, ok := c.strVal[s]; ok {
			if n, err := strconv.Atoi(v); err == nil {
				return one(st, TupleV{c.IntLit(int64(n)), e.errNil()})
			}
		}
		isn := c.Fn("isnum", c.Bool, s)
		bad := st.clone()
		var out []Ret
		if st.assume(c, isn) {
			out = append(out, Ret{st, TupleV{c.Fn("atoi", c.Int, s), e.errNil()}})
		}
		if bad.assume(c, c.Not(isn)) {
			out = append(out, Ret{bad, TupleV{c.IntLit(0), e.freshErr(bad, "atoi")}})
		}
		return out
	}
	intrinsics["strconv.Atoi"] = atoi
	intrinsics["strconv.ParseInt"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		lit := func(v Value, ns ...int64) bool {
			t, ok := v.(*Term)
			for _, n := range ns {
				if ok && t.Op == "int" && t.N == n {
					return true
				}
			}
			return false
		}
		if lit(args[1], 10) && lit(args[2], 0, 64) {
			return atoi(e, p, st, fn, args)
		}
		bad := st.clone()
		return []Ret{{st, TupleV{e.c.Fresh("parseint", e.c.Int), e.errNil()}}, {bad, TupleV{e.c.IntLit(0), e.libErr(bad, "parseint")}}}
	}
	intrinsics["strconv.ParseBool"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		s := e.str(args[0])
		if s.Op == "ite" {
			if a, ok := c.strVal[s.Args[1]]; ok && a == "true" {
				if b, ok := c.strVal[s.Args[2]]; ok && b == "false" {
					return one(st, TupleV{s.Args[0], e.errNil()})
				}
			}
		}
		if v, ok := c.strVal[s]; ok {
			if b, err := strconv.ParseBool(v); err == nil {
				return one(st, TupleV{c.BoolLit(b), e.errNil()})
			}
		}
		isn := c.Fn("isbool", c.Bool, s)
		bad := st.clone()
		var out []Ret
		if st.assume(c, isn) {
			out = append(out, Ret{st, TupleV{c.Fn("atob", c.Bool, s), e.errNil()}})
		}
		if bad.assume(c, c.Not(isn)) {
			out = append(out, Ret{bad, TupleV{c.False, e.freshErr(bad, "parsebool")}})
		}
		return out
	}
	intrinsics["time.Now"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fresh("now", e.c.types.SortOf(fn.Signature.Results().At(0).Type())))
	}
	intrinsics["(encoding/binary.bigEndian).PutUint64"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		sr, ok := args[1].(*SliceRef)
		if !ok || sr.From == nil {
			e.fail("PutUint64 into %T", args[1])
		}
		e.check(st, e.c.Le(e.c.IntLit(8), e.strLen(sr.T)), "index", "PutUint64 buffer has 8 bytes")
		v := e.c.Fn("be64", e.c.Str, args[2].(*Term))
		e.store(st, sr.From, v)
		return one(st, nil)
	}
	intrinsics["(encoding/binary.bigEndian).Uint64"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		s := e.str(args[1])
		e.check(st, e.c.Le(e.c.IntLit(8), e.strLen(s)), "index", "Uint64 buffer has 8 bytes")
		return one(st, e.c.Fn("unbe64", e.c.Int, s))
	}
}

// databases -----------------------------------------------------------------

func (e *Exec) dbRootFor(name string, t types.Type) string {
	if e.target != nil && strings.HasPrefix(shortName(e.target), "jobs.(*JobStore)") {
		return "jobs"
	}
	if n := len(e.symIn); n > 0 && e.symIn[n-1] == "jobs.JobStore" {
		return "jobs"
	}
	return "core"
}

// shapeFor finds the declared shape of a bucket.
func (e *Exec) shapeFor(db *DBV) (string, []*Term, bool) {
	c := e.c
	for _, sh := range e.S.ShapeList {
		f := strings.SplitN(sh, " ", 2) // "ghost path"
		path := f[1]
		root, rest, _ := strings.Cut(path, ":")
		if root != db.Root {
			continue
		}
		parts := strings.Split(rest, "/")
		if rest == "" {
			parts = nil
		}
		if len(parts) != len(db.Path) {
			continue
		}
		ok := true
		var idx []*Term
		for i, q := range parts {
			v, isLit := c.strVal[db.Path[i]]
			if q == "*" {
				idx = append(idx, db.Path[i])
			} else if !isLit || v != q {
				ok = false
				break
			}
		}
		if ok {
			return f[0], idx, true
		}
	}
	return "", nil, false
}

func (e *Exec) bucket(st *State, db *DBV, pend bool) (*Term, string, []*Term, types.Type) {
	g, idx, ok := e.shapeFor(db)
	if !ok {
		var s []string
		for _, p := range db.Path {
			s = append(s, e.c.Show(p))
		}
		e.fail("no shape declared for bucket %s:%s", db.Root, strings.Join(s, "/"))
	}
	name := g
	if pend {
		name = "pend!" + g
	}
	a := st.ghost[name]
	if a == nil {
		e.fail("ghost %s missing", name)
	}
	for _, i := range idx {
		a = e.c.Select(a, i)
	}
	return a, name, idx, e.shapeType(g)
}

func (e *Exec) shapeType(g string) types.Type { return e.goType(e.S.Shapes[g]) }

func storeAt(c *Ctx, a *Term, idx []*Term, k, v *Term) *Term {
	if len(idx) == 0 {
		return c.Store(a, k, v)
	}
	return c.Store(a, idx[0], storeAt(c, c.Select(a, idx[0]), idx[1:], k, v))
}

// persisted zeroes unexported fields.
func (e *Exec) persisted(t *Term, typ types.Type) *Term {
	u, ok := typ.Underlying().(*types.Struct)
	if !ok || t.Sort.Kind != KDT {
		return t
	}
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Exported() {
			z := e.toTerm(&State{objs: map[int]Value{}, ghost: map[string]*Term{}, locks: map[int]int{}}, e.zero(u.Field(i).Type()), u.Field(i).Type())
			t = e.c.With(t, i, z)
		}
	}
	return t
}

func (e *Exec) durable(st *State) {
	if e.spec == nil || e.dry > 0 {
		return
	}
	for _, cl := range e.spec.Clauses {
		if cl.Kind == "always" {
			sc := &scope{st: st, old: e.old, env: e.env}
			e.check(st, e.T(cl.E, sc), "always", clauseName(cl))
		}
	}
}

func clauseName(cl *Clause) string {
	if cl.Name != "" {
		return cl.Name
	}
	return cl.Text
}

func (e *Exec) dbWrite(st *State, db *DBV, f func(st *State)) []Ret {
	c := e.c
	if db.Batch != 0 {
		ok := false
		for _, b := range st.batch {
			if b == db.Batch {
				ok = true
			}
		}
		if !ok {
			e.fail("write through a finished transaction")
		}
		f(st)
		return one(st, e.errNil())
	}
	if len(st.batch) > 0 {
		e.fail("direct write while a transaction is open")
	}
	bad := st.clone()
	f(st)
	e.durable(st)
	_ = c
	return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "dbwrite")}}
}

func (e *Exec) dbCall(p *PS, st *State, db *DBV, m string, args []Value, cc *ssa.CallCommon) []Ret {
	c := e.c
	switch m {
	case "Bucket":
		return one(st, &DBV{Root: db.Root, Path: append(db.Path[:len(db.Path):len(db.Path)], e.str(args[0])), Batch: db.Batch})
	case "Close":
		return one(st, nil)
	case "PutObject":
		iv, ok := args[1].(*IfaceV)
		if !ok {
			e.fail("PutObject of %T", args[1])
		}
		_, name, idx, typ := e.bucket(st, db, db.Batch != 0)
		k := e.str(args[0])
		vt := iv.Dyn
		var v *Term
		if pt, ok := vt.Underlying().(*types.Pointer); ok {
			o := e.toTerm(st, iv.V, vt)
			if o.Op != "some" {
				e.check(st, c.IsSome(o), "nil-deref", "PutObject of nil")
			}
			v = c.Val(o)
			vt = pt.Elem()
		} else {
			v = e.toTerm(st, iv.V, vt)
		}
		if !types.Identical(vt, typ) {
			e.fail("bucket %s holds %s, stored %s", name, typ, vt)
		}
		v = e.persisted(v, vt)
		e.guard(st, name, idx, true)
		return e.dbWrite(st, db, func(st *State) {
			st.ghost[name] = storeAt(c, st.ghost[name], idx, k, c.Some(v))
		})
	case "DeleteObject":
		_, name, idx, _ := e.bucket(st, db, db.Batch != 0)
		k := e.str(args[0])
		e.guard(st, name, idx, true)
		return e.dbWrite(st, db, func(st *State) {
			a := st.ghost[name]
			so := a.Sort
			for range idx {
				so = so.Rng
			}
			st.ghost[name] = storeAt(c, a, idx, k, c.None(so.Rng))
		})
	case "HasObject":
		a, name, idx, _ := e.bucket(st, db, false)
		e.guard(st, name, idx, false)
		return one(st, TupleV{c.IsSome(c.Select(a, e.str(args[0]))), e.errNil()})
	case "GetObject":
		a, name, idx, typ := e.bucket(st, db, false)
		e.guard(st, name, idx, false)
		o := c.Select(a, e.str(args[0]))
		bad := st.clone()
		var out []Ret
		if st.assume(c, c.IsSome(o)) {
			e.decodeInto(st, c.Val(o), typ, args[1])
			for _, t := range e.thaw(st, args[1]) {
				out = append(out, Ret{t, e.errNil()})
			}
		}
		if bad.assume(c, c.Not(c.IsSome(o))) {
			out = append(out, Ret{bad, e.libErr(bad, "notfound")})
		}
		return out
	case "Decode":
		ev, ok := args[0].(*EncV)
		if !ok {
			e.fail("Decode of %T", args[0])
		}
		e.decodeInto(st, ev.T, ev.Typ, args[1])
		return one(st, e.errNil())
	case "View":
		cl, ok := args[0].(*ClosV)
		if !ok {
			e.fail("View of %T", args[0])
		}
		return e.callFn(p, st, cl, []Value{db})
	case "NextSequence":
		a, name, idx, _ := e.bucket(st, db, false)
		n := c.Fresh("seq", c.Int)
		r := c.Fn("be64", c.Str, n)
		k := c.BVar("k", c.Str)
		st.assume(c, c.Le(c.IntLit(0), n))
		if !e.guardHeld(st, name, idx) {
			// another user of the bucket may have taken this key by the time it is used
			return one(st, r)
		}
		st.assume(c, c.Forall([]*Term{k}, c.Implies(c.And(c.IsSome(c.Select(a, k)), c.Fn("iskey8", c.Bool, k)), c.Not(e.strLe(r, k))), []*Term{c.Select(a, k)}))
		return one(st, r)
	case "Update":
		cl, ok := args[0].(*ClosV)
		if !ok {
			e.fail("Update of %T", args[0])
		}
		if len(st.batch) > 0 {
			e.fail("nested Update")
		}
		e.nextObj++
		id := e.nextObj
		st.batch = append(st.batch, id)
		gs := []string{}
		for _, sh := range e.S.ShapeList {
			f := strings.SplitN(sh, " ", 2)
			if strings.HasPrefix(f[1], db.Root+":") {
				gs = append(gs, f[0])
				st.ghost["pend!"+f[0]] = st.ghost[f[0]]
			}
		}
		rs := e.callFn(p, st, cl, []Value{&DBV{Root: db.Root, Path: db.Path, Batch: id}})
		var out []Ret
		end := func(s *State) {
			s.batch = s.batch[:len(s.batch)-1]
			for _, g := range gs {
				delete(s.ghost, "pend!"+g)
			}
		}
		for _, r := range rs {
			er := e.toErr(r.st, r.val)
			good := c.Eq(er, e.errNil())
			f := r.st.clone()
			if f.assume(c, c.Not(good)) {
				end(f)
				out = append(out, Ret{f, er})
			}
			if r.st.assume(c, good) {
				w := r.st.clone()
				end(w)
				out = append(out, Ret{w, e.libErr(w, "dbcommit")})
				for _, g := range gs {
					r.st.ghost[g] = r.st.ghost["pend!"+g]
				}
				end(r.st)
				e.durable(r.st)
				out = append(out, Ret{r.st, e.errNil()})
			}
		}
		return out
	case "ForEach":
		cl, ok := args[0].(*ClosV)
		if !ok {
			e.fail("ForEach of %T", args[0])
		}
		return e.forEach(p, st, db, cl)
	}
	e.fail("database method %s", m)
	return nil
}

func (e *Exec) decodeInto(st *State, v *Term, typ types.Type, dst Value) {
	c := e.c
	if iv, ok := dst.(*IfaceV); ok {
		dst = iv.V
	}
	pv, ok := dst.(*PtrV)
	if !ok {
		e.fail("decode into %T", dst)
	}
	dt := typeAt(e.objType[pv.Obj], pv.Path)
	if !types.Identical(dt, typ) {
		e.fail("decode of %s into %s", typ, dt)
	}
	// unexported fields are not stored
	v = e.persisted(v, typ)
	cur := e.toTerm(st, e.load(st, pv, ""), dt)
	z := e.toTerm(st, e.zero(dt), dt)
	if cur != z {
		// gob leaves fields alone whose stored value is zero
		v = c.Fresh("gobmix", v.Sort)
	}
	e.store(st, pv, v)
}

// thaw makes objects of the records a decoded structure points to, where the
// contract says (alloc) that they are changed; one state for nil, one for not.
func (e *Exec) thaw(st *State, dst Value) []*State {
	c := e.c
	if iv, ok := dst.(*IfaceV); ok {
		dst = iv.V
	}
	pv := dst.(*PtrV)
	dt := typeAt(e.objType[pv.Obj], pv.Path)
	u, ok := dt.Underlying().(*types.Struct)
	sts := []*State{st}
	if !ok || e.spec == nil {
		return sts
	}
	for i := 0; i < u.NumFields(); i++ {
		pt, ok := u.Field(i).Type().Underlying().(*types.Pointer)
		if !ok || !isStruct(pt.Elem()) || !e.spec.Alloc[shortType(pt.Elem())] {
			continue
		}
		at := &PtrV{Obj: pv.Obj, Path: append(pv.Path[:len(pv.Path):len(pv.Path)], PathElem{F: i})}
		var out []*State
		for _, s := range sts {
			sn, ok := e.load(s, at, "").(*SnapV)
			if !ok || len(sn.Path) > 0 {
				out = append(out, s)
				continue
			}
			none := s.clone()
			if none.assume(c, c.Not(c.IsSome(sn.T))) {
				out = append(out, none)
			}
			if s.assume(c, c.IsSome(sn.T)) {
				e.store(s, at, &PtrV{Obj: e.newObj(s, pt.Elem(), c.Val(sn.T))})
				out = append(out, s)
			}
		}
		sts = out
	}
	return sts
}

// forEach runs the closure for every key of the snapshot, in ascending order.
func (e *Exec) forEach(p *PS, st *State, db *DBV, cl *ClosV) []Ret {
	c := e.c
	a, gname, gidx, typ := e.bucket(st, db, false)
	e.guard(st, gname, gidx, false)
	keys := c.Fresh("keys", c.seqSort(c.Str))
	k := c.BVar("k", c.Str)
	mem := c.SeqMem(k, keys)
	st.assume(c, c.SeqDist(keys))
	st.assume(c, c.SeqSorted(keys))
	st.assume(c, c.Forall([]*Term{k}, c.Eq(mem, c.IsSome(c.Select(a, k))), []*Term{mem}, []*Term{c.Select(a, k)}))
	idx := e.newObj(st, types.Typ[types.Int], c.IntLit(0))
	var done []Ret
	start := &PS{st: st, fr: p.fr, pred: p.pred}
	e.loop(start, "foreach("+gname+") in "+shortName(cl.Fn), func(q *PS) ([]*PS, loopRes) {
		done = nil
		i := q.st.objs[idx].(*Term)
		e.noteIndex(keys, i)
		more := c.Lt(i, c.SeqLen(keys))
		ex := q.clone()
		if ex.st.assume(c, c.Not(more)) {
			done = append(done, Ret{ex.st, e.errNil()})
		}
		var back []*PS
		if q.st.assume(c, more) && q.st.assume(c, c.Le(c.IntLit(0), i)) {
			key := c.SeqAt(keys, i)
			o := c.Select(a, key)
			q.st.assume(c, c.IsSome(o))
			rs := e.callFn(q, q.st, cl, []Value{key, &EncV{T: c.Val(o), Typ: typ}})
			for _, r := range rs {
				er := e.toErr(r.st, r.val)
				good := c.Eq(er, e.errNil())
				f := r.st.clone()
				if f.assume(c, c.Not(good)) {
					done = append(done, Ret{f, er})
				}
				if r.st.assume(c, good) {
					r.st.objs[idx] = c.Add(i, c.IntLit(1))
					back = append(back, &PS{st: r.st, fr: q.fr, pred: q.pred})
				}
			}
			back = e.merge(back, nil)
		}
		return back, loopRes{out: edges{}}
	})
	return done
}

// affix tests for a prefix or suffix, which is never longer than the string.
func (e *Exec) affix(st *State, name string, args []Value) []Ret {
	c := e.c
	a, b := e.str(args[0]), e.str(args[1])
	t := e.strPred(name, a, b)
	st.assume(c, c.Implies(t, c.Le(e.strLen(b), e.strLen(a))))
	return one(st, t)
}
