package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expr is a specification expression.
type Expr struct {
	Op   string // ident, int, str, call, sel, index, unary, binary, forall, exists, if, let
	Name string
	N    int64
	Args []*Expr
	Vars []SVar
	Trig [][]*Expr
	Pos  string
	Src  string
}

// SVar is a typed variable.
type SVar struct {
	Name string
	Sort string
}

// Clause is a labelled contract clause.
type Clause struct {
	Kind    string // requires ensures candidate pred always modifies
	Tags    []string
	Without bool
	Name    string
	E       *Expr
	Vars    []SVar // preds
	Text    string
	Pos     string
	Names   []string // modifies
	Idx     *Expr    // guarded, reads
	Map     *Expr    // guarded: a Go map
}

// Contract is the specification of one function.
type Contract struct {
	Fn         string
	Params     []string
	Results    []string
	Clauses    []*Clause
	Alloc      map[string]bool
	Trusted    string // reason, when the body is not verified
	Pos        string
	Pure       bool
	Split      bool
	NoErr      bool
	NoFail     map[string]bool // calls of the file system model assumed to succeed
	FreshRes   map[string]bool
	Log        bool
	Only       []string        // the properties for which the contract is used (all, if empty)
	VerifiedIn []string        // the properties whose checks verify the body (all, if empty)
	LogTags    []string        // the properties which need the calls recorded (all, if empty)
	Inline     map[string]bool // contracts to ignore (inline) while verifying this function
	Timeout    float64
	Decide     bool // ask the solver which branches are feasible
	Nullable   map[string]bool
	Alias      [][2]string
}

// Macro is a spec-level definition.
type Macro struct {
	Name string
	Vars []SVar
	Body *Expr
}

// FnDecl declares an uninterpreted spec function.
type FnDecl struct {
	Name string
	Args []string
	Res  string
}

// AxDecl is a ghost axiom.
type AxDecl struct {
	Name string
	E    *Expr
	Text string
	Tags []string
}

// GhostDecl names a ghost variable.
type GhostDecl struct {
	Name string
	Sort string
	Tags []string // the properties it exists for (all, if empty)
}

// Specs is everything read from the contract files.
type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Macros    map[string]*Macro
	Fns       map[string]*FnDecl
	Axioms    []*AxDecl
	Ghosts    []*GhostDecl
	GhostBy   map[string]*GhostDecl
	Shapes    map[string]string // db path -> stored Go type
	ShapeList []string
}

type lexer struct {
	toks []string
	pos  []int
	i    int
	file string
	src  string
}

var tokRe = regexp.MustCompile(`^(?:"(?:[^"\\]|\\.)*"|[0-9]+|[\$A-Za-z_][A-Za-z0-9_\$]*|<==>|==>|<=|>=|==|!=|&&|\|\||::|\+\+|[-+*/<>!(){}\[\].,:=;?|&%])`)

func lex(file, src string) (*lexer, error) {
	l := &lexer{file: file, src: src}
	i := 0
	for i < len(src) {
		ch := src[i]
		if ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' {
			i++
			continue
		}
		if strings.HasPrefix(src[i:], "//") {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		m := tokRe.FindString(src[i:])
		if m == "" {
			return nil, fmt.Errorf("%s: bad character %q at line %d", file, ch, 1+strings.Count(src[:i], "\n"))
		}
		l.toks = append(l.toks, m)
		l.pos = append(l.pos, i)
		i += len(m)
	}
	l.toks = append(l.toks, "")
	l.pos = append(l.pos, len(src))
	return l, nil
}

func (l *lexer) peek() string { return l.toks[l.i] }
func (l *lexer) next() string { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) line() int    { return 1 + strings.Count(l.src[:l.pos[l.i]], "\n") }
func (l *lexer) where() string {
	return fmt.Sprintf("%s:%d", filepath.Base(l.file), l.line())
}
func (l *lexer) errf(f string, a ...interface{}) {
	panic(fmt.Errorf("%s: %s (near %q)", l.where(), fmt.Sprintf(f, a...), l.peek()))
}
func (l *lexer) expect(t string) {
	if l.peek() != t {
		l.errf("expected %q", t)
	}
	l.i++
}
func (l *lexer) accept(t string) bool {
	if l.peek() == t {
		l.i++
		return true
	}
	return false
}

func (l *lexer) expr() *Expr {
	a := l.pos[l.i]
	p := l.where()
	e := l.iff()
	e.Src = strings.TrimSpace(l.src[a:l.pos[l.i]])
	e.Pos = p
	return e
}

func bin(op string, a, b *Expr) *Expr { return &Expr{Op: "binary", Name: op, Args: []*Expr{a, b}} }

func (l *lexer) iff() *Expr {
	x := l.imp()
	for l.accept("<==>") {
		x = bin("<==>", x, l.imp())
	}
	return x
}
func (l *lexer) imp() *Expr {
	x := l.or()
	if l.accept("==>") {
		return bin("==>", x, l.imp())
	}
	return x
}
func (l *lexer) or() *Expr {
	x := l.and()
	for l.accept("||") {
		x = bin("||", x, l.and())
	}
	return x
}
func (l *lexer) and() *Expr {
	x := l.cmp()
	for l.accept("&&") {
		x = bin("&&", x, l.cmp())
	}
	return x
}
func (l *lexer) cmp() *Expr {
	x := l.sum()
	switch t := l.peek(); t {
	case "==", "!=", "<", "<=", ">", ">=", "in":
		l.next()
		return bin(t, x, l.sum())
	}
	return x
}
func (l *lexer) sum() *Expr {
	x := l.unary()
	for {
		switch t := l.peek(); t {
		case "+", "-", "++":
			l.next()
			x = bin(t, x, l.unary())
		default:
			return x
		}
	}
}
func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "!":
		l.next()
		return &Expr{Op: "unary", Name: "!", Args: []*Expr{l.unary()}}
	case "-":
		l.next()
		return &Expr{Op: "unary", Name: "-", Args: []*Expr{l.unary()}}
	}
	return l.postfix()
}
func (l *lexer) sortName() string {
	s := ""
	switch l.peek() {
	case "[":
		l.next()
		l.expect("]")
		return "[]" + l.sortName()
	case "map":
		l.next()
		l.expect("[")
		k := l.sortName()
		l.expect("]")
		return "map[" + k + "]" + l.sortName()
	case "opt":
		l.next()
		return "opt " + l.sortName()
	}
	s = l.next()
	if l.peek() == "." {
		l.next()
		s += "." + l.next()
	}
	return s
}
func (l *lexer) vars() []SVar {
	var vs []SVar
	for {
		var names []string
		names = append(names, l.next())
		for l.accept(",") {
			names = append(names, l.next())
		}
		l.expect(":")
		s := l.sortName()
		for _, n := range names {
			vs = append(vs, SVar{n, s})
		}
		if !l.accept(",") {
			return vs
		}
	}
}
func (l *lexer) postfix() *Expr {
	x := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			x = &Expr{Op: "sel", Name: l.next(), Args: []*Expr{x}}
		case "[":
			l.next()
			i := l.expr()
			l.expect("]")
			x = &Expr{Op: "index", Args: []*Expr{x, i}}
		default:
			return x
		}
	}
}
func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		x := l.expr()
		l.expect(")")
		return x
	case t == "if":
		a := l.expr()
		l.expect("then")
		b := l.expr()
		l.expect("else")
		d := l.expr()
		return &Expr{Op: "if", Args: []*Expr{a, b, d}}
	case t == "let":
		n := l.next()
		l.expect("=")
		a := l.expr()
		l.expect("in_")
		b := l.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{a, b}}
	case t == "forall" || t == "exists":
		vs := l.vars()
		var tr [][]*Expr
		for l.accept("{") {
			var one []*Expr
			one = append(one, l.expr())
			for l.accept(",") {
				one = append(one, l.expr())
			}
			l.expect("}")
			tr = append(tr, one)
		}
		l.expect("::")
		return &Expr{Op: t, Vars: vs, Trig: tr, Args: []*Expr{l.expr()}}
	case t != "" && t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			l.errf("bad string")
		}
		return &Expr{Op: "str", Name: s}
	case t != "" && t[0] >= '0' && t[0] <= '9':
		n, _ := strconv.ParseInt(t, 10, 64)
		return &Expr{Op: "int", N: n}
	case t != "" && (t[0] == '$' || t[0] == '_' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z'):
		if l.accept("(") {
			e := &Expr{Op: "call", Name: t}
			for l.peek() != ")" {
				e.Args = append(e.Args, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			return e
		}
		return &Expr{Op: "ident", Name: t}
	}
	l.i--
	l.errf("expected expression")
	return nil
}

func loadSpecs(dir string) (s *Specs, err error) {
	s = &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Fns: map[string]*FnDecl{}, GhostBy: map[string]*GhostDecl{}, Shapes: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		l, err := lex(f, string(b))
		if err != nil {
			return nil, err
		}
		for l.peek() != "" {
			s.decl(l)
		}
	}
	return s, nil
}

// tags reads an optional list of properties.
func (l *lexer) tags() []string {
	var out []string
	if l.accept("[") {
		for l.peek() != "]" {
			out = append(out, l.next())
			l.accept(",")
		}
		l.expect("]")
	}
	return out
}

func (s *Specs) decl(l *lexer) {
	switch k := l.next(); k {
	case "ghost":
		tags := l.tags()
		n := l.next()
		l.expect(":")
		g := &GhostDecl{Name: n, Sort: l.sortName(), Tags: tags}
		s.Ghosts = append(s.Ghosts, g)
		s.GhostBy[n] = g
	case "shape":
		// shape pool "core:pool" core.PoolEntry
		n := l.next()
		p, _ := strconv.Unquote(l.next())
		t := l.sortName()
		s.Shapes[n] = t
		s.ShapeList = append(s.ShapeList, n+" "+p)
	case "func":
		f := &FnDecl{Name: l.next()}
		l.expect("(")
		for l.peek() != ")" {
			f.Args = append(f.Args, l.sortName())
			if !l.accept(",") {
				break
			}
		}
		l.expect(")")
		f.Res = l.sortName()
		s.Fns[f.Name] = f
	case "def":
		m := &Macro{Name: l.next()}
		if l.accept("(") {
			if l.peek() != ")" {
				m.Vars = l.vars()
			}
			l.expect(")")
		}
		l.expect("=")
		m.Body = l.expr()
		s.Macros[m.Name] = m
	case "axiom":
		tags := l.tags()
		n := l.next()
		l.expect(":")
		e := l.expr()
		s.Axioms = append(s.Axioms, &AxDecl{Name: n, E: e, Text: e.Src, Tags: tags})
	case "contract":
		s.contract(l)
	default:
		l.i--
		l.errf("unknown declaration")
	}
}

func (s *Specs) contract(l *lexer) {
	c := &Contract{Alloc: map[string]bool{}, FreshRes: map[string]bool{}, Inline: map[string]bool{}, Nullable: map[string]bool{}, Pos: l.where()}
	fn, err := strconv.Unquote(l.next())
	if err != nil {
		l.errf("function name must be quoted")
	}
	c.Fn = fn
	l.expect("(")
	for l.peek() != ")" {
		c.Params = append(c.Params, l.next())
		if !l.accept(",") {
			break
		}
	}
	l.expect(")")
	if l.accept("(") {
		for l.peek() != ")" {
			c.Results = append(c.Results, l.next())
			if !l.accept(",") {
				break
			}
		}
		l.expect(")")
	}
	l.expect("{")
	for !l.accept("}") {
		cl := &Clause{Pos: l.where()}
		cl.Kind = l.next()
		switch cl.Kind {
		case "requires", "ensures", "assumes", "candidate", "always", "lemma":
			cl.Tags = l.tags()
			if cl.Kind == "candidate" && (l.peek() == "with" || l.peek() == "without") {
				// only for loops that change (or do not change) the ghost variable
				cl.Without = l.next() == "without"
				cl.Names = []string{l.next()}
			}
			if l.i+1 < len(l.toks) && l.toks[l.i+1] == ":" && l.peek() != "(" {
				cl.Name = l.next()
				l.expect(":")
			}
			cl.E = l.expr()
			cl.Text = cl.E.Src
			c.Clauses = append(c.Clauses, cl)
		case "pred":
			l.expect("(")
			cl.Vars = l.vars()
			l.expect(")")
			cl.E = l.expr()
			cl.Text = cl.E.Src
			c.Clauses = append(c.Clauses, cl)
		case "modifies":
			tags := l.tags()
			for {
				a := l.pos[l.i]
				n := l.next()
				for l.accept(".") {
					n += "." + l.next()
				}
				if l.accept("[") {
					cl.E = l.expr()
					l.expect("]")
				}
				_ = a
				c.Clauses = append(c.Clauses, &Clause{Kind: "modifies", Names: []string{n}, E: cl.E, Pos: cl.Pos, Tags: tags})
				cl.E = nil
				if !l.accept(",") {
					break
				}
			}
		case "unset": // unset p.F: F is nil on entry
			tags := l.tags()
			for {
				n := l.next()
				for l.accept(".") {
					n += "." + l.next()
				}
				c.Clauses = append(c.Clauses, &Clause{Kind: "unset", Names: []string{n}, Pos: cl.Pos, Tags: tags, Text: n + " == nil"})
				if !l.accept(",") {
					break
				}
			}
		case "guarded", "reads":
			// guarded G[I] by LOCK: records of G[I] are read and written with LOCK held
			// reads G[I]: the function reads records of G[I]
			cl.Tags = l.tags()
			cl.Names = []string{l.next()}
			cl.Idx = nil
			if l.peek() == "." {
				// guarded p.M by LOCK: the Go map M is only used with LOCK held
				x := &Expr{Op: "ident", Name: cl.Names[0]}
				for l.accept(".") {
					x = &Expr{Op: "sel", Name: l.next(), Args: []*Expr{x}}
				}
				cl.Map = x
				cl.Names = []string{""}
			}
			if l.accept("[") {
				cl.Idx = l.expr()
				l.expect("]")
			}
			if cl.Kind == "guarded" {
				l.expect("by")
				cl.E = l.expr()
				cl.Text = cl.E.Src
				if l.accept("writes") {
					cl.Names = append(cl.Names, "writes")
				}
			}
			c.Clauses = append(c.Clauses, cl)
		case "holds":
			cl.Tags = l.tags()
			cl.E = l.expr()
			cl.Text = cl.E.Src
			c.Clauses = append(c.Clauses, cl)
		case "alloc":
			for {
				c.Alloc[l.sortName()] = true
				if !l.accept(",") {
					break
				}
			}
		case "inline":
			for {
				n, err := strconv.Unquote(l.next())
				if err != nil {
					l.errf("inline needs a quoted name")
				}
				c.Inline[n] = true
				if !l.accept(",") {
					break
				}
			}
		case "trusted":
			r, err := strconv.Unquote(l.next())
			if err != nil {
				l.errf("trusted needs a reason")
			}
			c.Trusted = r
		case "nullable":
			for {
				c.Nullable[l.next()] = true
				if !l.accept(",") {
					break
				}
			}
		case "mayalias":
			a := l.next()
			c.Alias = append(c.Alias, [2]string{a, l.next()})
		case "noerr":
			c.NoErr = true
		case "nofail":
			for {
				if c.NoFail == nil {
					c.NoFail = map[string]bool{}
				}
				c.NoFail[l.next()] = true
				if !l.accept(",") {
					break
				}
			}
		case "log":
			c.Log = true
			c.LogTags = l.tags()
		case "only": // elsewhere the function is inlined
			c.Only = l.tags()
		case "verifiedin": // the other properties rely on the contract
			c.VerifiedIn = l.tags()
		case "at":
			// at "os.Rename" name: a condition that holds whenever the function is called
			f, err := strconv.Unquote(l.next())
			if err != nil {
				l.errf("at needs a quoted name")
			}
			cl.Tags = l.tags()
			if l.i+1 < len(l.toks) && l.toks[l.i+1] == ":" && l.peek() != "(" {
				cl.Name = l.next()
				l.expect(":")
			}
			cl.Names = []string{f}
			cl.E = l.expr()
			cl.Text = cl.E.Src
			c.Clauses = append(c.Clauses, cl)
		case "decide":
			c.Decide = true
		case "timeout":
			n, _ := strconv.Atoi(l.next())
			c.Timeout = float64(n)
		default:
			l.errf("unknown clause %s", cl.Kind)
		}
	}
	if s.Contracts[c.Fn] != nil {
		l.errf("second contract for %s", c.Fn)
	}
	s.Contracts[c.Fn] = c
	s.Order = append(s.Order, c.Fn)
}

// sort resolution ---------------------------------------------------------

func (e *Exec) goType(name string) types.Type {
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return nil
	}
	for _, p := range e.P.Prog.AllPackages() {
		if p.Pkg.Name() == name[:i] && strings.HasPrefix(p.Pkg.Path(), RepoModule) {
			if o := p.Pkg.Scope().Lookup(name[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// libType finds the library type behind an uninterpreted sort.
func (e *Exec) libType(sort string) types.Type {
	if !strings.HasPrefix(sort, "T_") {
		return nil
	}
	for _, p := range e.P.Prog.AllPackages() {
		if !strings.HasPrefix(sort, "T_"+p.Pkg.Name()+".") || strings.HasPrefix(p.Pkg.Path(), RepoModule) {
			continue
		}
		if o, ok := p.Pkg.Scope().Lookup(strings.TrimPrefix(sort, "T_"+p.Pkg.Name()+".")).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (e *Exec) sortByName(n string) *Sort {
	c := e.c
	switch {
	case n == "Str" || n == "string":
		return c.Str
	case n == "Int" || n == "int":
		return c.Int
	case n == "Bool" || n == "bool":
		return c.Bool
	case n == "Err" || n == "error":
		return c.Err
	case n == "Any":
		return c.uninterp("Any")
	case strings.HasPrefix(n, "[]"):
		return c.seqSort(e.sortByName(n[2:]))
	case strings.HasPrefix(n, "opt "):
		return c.optSort(e.sortByName(n[4:]))
	case strings.HasPrefix(n, "map["):
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			}
			if n[i] == ']' {
				d--
				if d == 0 {
					return c.arraySort(e.sortByName(n[4:i]), e.sortByName(n[i+1:]))
				}
			}
		}
	}
	if t := e.goType(n); t != nil {
		return c.types.SortOf(t)
	}
	if strings.Contains(n, ".") {
		// external named type used as uninterpreted sort
		return c.uninterp("T_" + sane(n))
	}
	return c.uninterp("U_" + n)
}

// evaluation ----------------------------------------------------------------

type scope struct {
	st, old, lold *State
	env           map[string]Value
	up            *scope
}

func (sc *scope) with(n string, v Value) *scope {
	m := map[string]Value{n: v}
	return &scope{st: sc.st, old: sc.old, lold: sc.lold, env: m, up: sc}
}

func (sc *scope) in(st *State) *scope {
	n := *sc
	n.st = st
	if n.up != nil {
		n.up = n.up.in(st)
	}
	return &n
}

func (sc *scope) get(n string) (Value, bool) {
	for s := sc; s != nil; s = s.up {
		if v, ok := s.env[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (e *Exec) specErr(x *Expr, f string, a ...interface{}) {
	panic(unsup{"spec: " + fmt.Sprintf(f, a...) + " in " + x.Src + " " + x.Pos + " {" + x.Op + " " + x.Name + "}"})
}

// T evaluates to a term.
func (e *Exec) T(x *Expr, sc *scope) *Term {
	v := e.V(x, sc)
	switch y := v.(type) {
	case *Term:
		return y
	case *SnapV:
		if len(y.Path) == 0 {
			return y.T
		}
	case *SliceRef:
		return e.arrTerm(sc.st, y)
	case *PtrV:
		t := typeAt(e.objType[y.Obj], y.Path)
		if isMutex(t) {
			return e.toTerm(sc.st, y, types.NewPointer(t))
		}
		return e.c.Some(e.toTerm(sc.st, e.load(sc.st, y, ""), t))
	case *StructV:
		return e.toTerm(sc.st, y, y.T)
	case *MapV:
		if y.Obj > 0 {
			if t, ok := sc.st.objs[y.Obj].(*Term); ok {
				return t
			}
		}
	case *IfaceV:
		return e.toErr(sc.st, y)
	case *OpaqueV:
		if y.Tag == "nil" && isErrorType(y.T) {
			return e.errNil()
		}
		if y.T != nil {
			return e.toTerm(sc.st, y, y.T)
		}
	}
	e.specErr(x, "not a term: %T", v)
	return nil
}

func (e *Exec) V(x *Expr, sc *scope) Value {
	c := e.c
	switch x.Op {
	case "int":
		return c.IntLit(x.N)
	case "str":
		return c.StrLit(x.Name)
	case "ident":
		switch x.Name {
		case "true":
			return c.True
		case "getpid":
			return c.Const("pid", c.Int)
		case "false":
			return c.False
		}
		if v, ok := sc.get(x.Name); ok {
			return v
		}
		if m := e.S.Macros[x.Name]; m != nil && len(m.Vars) == 0 {
			return e.V(m.Body, &scope{st: sc.st, old: sc.old, lold: sc.lold})
		}
		if g, ok := sc.st.ghost[x.Name]; ok {
			return g
		}
		if f := e.S.Fns[x.Name]; f != nil && len(f.Args) == 0 {
			return c.Const(f.Name, e.sortByName(f.Res))
		}
		e.specErr(x, "unknown identifier %s", x.Name)
	case "let":
		v := e.V(x.Args[0], sc)
		return e.V(x.Args[1], sc.with(x.Name, v))
	case "if":
		p := e.T(x.Args[0], sc)
		return c.Ite(p, e.T(x.Args[1], sc), e.T(x.Args[2], sc))
	case "unary":
		a := e.T(x.Args[0], sc)
		if x.Name == "!" {
			return c.Not(a)
		}
		return c.Sub(c.IntLit(0), a)
	case "forall", "exists":
		var bs []*Term
		s2 := sc
		for _, v := range x.Vars {
			b := c.BVar(v.Name, e.sortByName(v.Sort))
			bs = append(bs, b)
			s2 = s2.with(v.Name, b)
		}
		body := e.T(x.Args[0], s2)
		if x.Op == "exists" {
			return c.Exists(bs, body)
		}
		var trs [][]*Term
		for _, tr := range x.Trig {
			var one []*Term
			bad := false
			for _, t := range tr {
				tt := e.T(t, s2)
				if !goodTrig(tt) {
					bad = true
				}
				one = append(one, tt)
			}
			if !bad && covers(one, bs, body) {
				trs = append(trs, one)
			}
		}
		return c.Forall(bs, body, trs...)
	case "sel":
		return e.selV(x, e.V(x.Args[0], sc), x.Name, sc)
	case "index":
		a := e.T(x.Args[0], sc)
		i := e.T(x.Args[1], sc)
		if a.Sort.Kind == KOpt {
			a = c.Val(a)
		}
		switch a.Sort.Kind {
		case KArray:
			return c.Select(a, i)
		case KSeq:
			return c.SeqAt(a, i)
		}
		e.specErr(x, "index of %s", a.Sort.Name)
	case "call":
		return e.specCall(x, sc)
	case "binary":
		return e.specBin(x, sc)
	}
	e.specErr(x, "bad expression")
	return nil
}

func goodTrig(t *Term) bool {
	switch t.Op {
	case "app", "select", "sel", "optval", "issome", "some", "ctor":
		return true
	}
	return false
}

func covers(one []*Term, bs []*Term, body *Term) bool {
	for _, b := range bs {
		if !body.free[b] {
			continue
		}
		ok := false
		for _, t := range one {
			if t.free[b] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (e *Exec) selV(x *Expr, v Value, name string, sc *scope) Value {
	c := e.c
	if iv, ok := v.(*IfaceV); ok && !isErrorType(iv.Dyn) {
		v = iv.V
	}
	switch y := v.(type) {
	case *PtrV:
		t := typeAt(e.objType[y.Obj], y.Path)
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					return e.load(sc.st, &PtrV{Obj: y.Obj, Path: append(y.Path[:len(y.Path):len(y.Path)], PathElem{F: i})}, "")
				}
			}
			// promoted field
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Embedded() && isStruct(u.Field(i).Type()) {
					in := u.Field(i).Type().Underlying().(*types.Struct)
					for j := 0; j < in.NumFields(); j++ {
						if in.Field(j).Name() == name {
							return e.load(sc.st, &PtrV{Obj: y.Obj, Path: append(y.Path[:len(y.Path):len(y.Path)], PathElem{F: i}, PathElem{F: j})}, "")
						}
					}
				}
			}
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			_ = pt
			return e.selV(x, e.load(sc.st, y, ""), name, sc)
		}
	case *StructV:
		u := y.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return y.F[i]
			}
		}
	case *SnapV:
		t := c.Val(y.T)
		for _, p := range y.Path {
			t = c.Sel(t, p.F)
		}
		return e.selV(x, t, name, sc)
	case *Term:
		if y.Sort.Kind == KOpt {
			y = c.Val(y)
		}
		if y.Sort.Kind == KDT {
			for i, f := range y.Sort.DT.Fields {
				if f.Name == name {
					return c.Sel(y, i)
				}
			}
			for i, f := range y.Sort.DT.Fields {
				if f.Sort.Kind == KDT {
					for j, g := range f.Sort.DT.Fields {
						if g.Name == name {
							return c.Sel(c.Sel(y, i), j)
						}
					}
				}
			}
		}
		if y.Sort.Kind == KUnint {
			if lt := e.libType(y.Sort.Name); lt != nil {
				if u, ok := lt.Underlying().(*types.Struct); ok {
					f := func(t *Term, u *types.Struct, i int) *Term {
						return c.Fn("fld_"+sane(t.Sort.Name)+"_"+u.Field(i).Name(), c.types.SortOf(u.Field(i).Type()), t)
					}
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == name {
							return f(y, u, i)
						}
					}
					for i := 0; i < u.NumFields(); i++ {
						if in, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && u.Field(i).Embedded() {
							for j := 0; j < in.NumFields(); j++ {
								if in.Field(j).Name() == name {
									return f(f(y, u, i), in, j)
								}
							}
						}
					}
				}
			}
			if s := e.extField(y.Sort.Name, name); s != nil {
				return c.Fn(y.Sort.Name+"."+name, s, y)
			}
		}
	case *IfaceV:
		return e.selV(x, y.V, name, sc)
	}
	e.specErr(x, "no field %s in %T (%s)", name, v, showVal(c, v))
	return nil
}

func (e *Exec) extField(sort, name string) *Sort { return nil }

func (e *Exec) specBin(x *Expr, sc *scope) Value {
	c := e.c
	op := x.Name
	switch op {
	case "&&":
		return c.And(e.T(x.Args[0], sc), e.T(x.Args[1], sc))
	case "||":
		return c.Or(e.T(x.Args[0], sc), e.T(x.Args[1], sc))
	case "==>":
		return c.Implies(e.T(x.Args[0], sc), e.T(x.Args[1], sc))
	case "<==>":
		return c.Eq(e.T(x.Args[0], sc), e.T(x.Args[1], sc))
	}
	if op == "==" || op == "!=" {
		var r *Term
		if x.Args[1].Op == "ident" && x.Args[1].Name == "nil" {
			r = e.isNilVal(sc.st, e.V(x.Args[0], sc))
		} else {
			a, b := e.T(x.Args[0], sc), e.T(x.Args[1], sc)
			if a.Sort != b.Sort && a.Sort.Kind == KOpt && a.Sort.Elem == b.Sort {
				a = c.Val(a)
			}
			if a.Sort != b.Sort && b.Sort.Kind == KOpt && b.Sort.Elem == a.Sort {
				b = c.Val(b)
			}
			if a.Sort != b.Sort {
				e.specErr(x, "comparing %s with %s", a.Sort.Name, b.Sort.Name)
			}
			r = c.Eq(a, b)
		}
		if op == "!=" {
			return c.Not(r)
		}
		return r
	}
	a, b := e.T(x.Args[0], sc), e.T(x.Args[1], sc)
	switch op {
	case "in":
		if b.Sort.Kind == KArray {
			return c.IsSome(c.Select(b, a))
		}
		return c.SeqMem(a, b)
	case "+":
		if a.Sort == c.Str {
			return e.concat(a, b)
		}
		return c.Add(a, b)
	case "-":
		return c.Sub(a, b)
	case "++":
		if a.Sort == c.Str {
			return e.concat(a, b)
		}
		return c.SeqCat(a, b)
	case "<":
		if a.Sort == c.Str {
			return c.Not(e.strLe(b, a))
		}
		return c.Lt(a, b)
	case "<=":
		if a.Sort == c.Str {
			return e.strLe(a, b)
		}
		return c.Le(a, b)
	case ">":
		return c.Lt(b, a)
	case ">=":
		return c.Le(b, a)
	}
	e.specErr(x, "operator %s", op)
	return nil
}

func (e *Exec) specCall(x *Expr, sc *scope) Value {
	c := e.c
	arg := func(i int) *Term { return e.T(x.Args[i], sc) }
	switch x.Name {
	case "old":
		v := e.V(x.Args[0], sc.in(sc.old))
		if sr, ok := v.(*SliceRef); ok && sr.T == nil && sr.Arr != nil {
			return e.arrTerm(sc.old, sr)
		}
		return v
	case "lold":
		if sc.lold == nil {
			e.specErr(x, "lold outside a loop candidate")
		}
		if m, ok := x.Args[0], true; ok && m.Op == "ident" && strings.HasPrefix(m.Name, "$") {
			if v, ok := sc.get("lold:" + m.Name); ok {
				return v
			}
		}
		return e.V(x.Args[0], sc.in(sc.lold))
	case "len":
		a := arg(0)
		if a.Sort == c.Str {
			return e.strLen(a)
		}
		return c.SeqLen(a)
	case "dist":
		return c.SeqDist(arg(0))
	case "sorted":
		return c.SeqSorted(arg(0))
	case "sort":
		return c.SeqSort(arg(0))
	case "pre":
		return c.SeqPre(arg(0), arg(1))
	case "sub":
		return c.SeqSub(arg(0), arg(1), arg(2))
	case "idx":
		a := arg(0)
		return c.Fn(c.sf(a.Sort, "idx"), c.Int, a, arg(1))
	case "mk":
		// mk(pkg.Type, f1, ..): a structure value
		t := e.goType(typeArg(x.Args[0]))
		u, ok := t.Underlying().(*types.Struct)
		if !ok || u.NumFields() != len(x.Args)-1 {
			e.specErr(x, "mk needs a structure type and its fields")
		}
		sv := &StructV{T: t}
		for i := 1; i < len(x.Args); i++ {
			sv.F = append(sv.F, e.wrap(sc.st, arg(i), u.Field(i-1).Type()))
		}
		return e.toTerm(sc.st, sv, t)
	case "upd":
		// upd(x, FIELD, v): the structure x with another value in FIELD
		t := arg(0)
		for i, f := range t.Sort.DT.Fields {
			if f.Name == x.Args[1].Name {
				return c.With(t, i, arg(2))
			}
		}
		e.specErr(x, "upd: no such field")
	case "xmldec":
		t := e.goType(typeArg(x.Args[0]))
		if t == nil {
			e.specErr(x, "xmldec: no such type")
		}
		return e.xmlDec(t, arg(1))
	case "nonames":
		return c.SeqNil(c.seqSort(c.Str))
	case "seq":
		a := arg(0)
		r := c.SeqNil(c.seqSort(a.Sort))
		for i := range x.Args {
			r = c.SeqApp(r, arg(i))
		}
		return r
	case "some":
		return c.IsSome(arg(0))
	case "none":
		return c.Not(c.IsSome(arg(0)))
	case "Some":
		return c.Some(arg(0))
	case "None":
		return c.None(c.optSort(e.sortByName(typeArg(x.Args[0]))))
	case "val":
		return c.Val(arg(0))
	case "store":
		a := arg(0)
		return c.Store(a, arg(1), arg(2))
	case "without":
		a := arg(0)
		return c.Store(a, arg(1), c.None(a.Sort.Rng))
	case "same":
		// same(a, b, k): arrays agree everywhere but at k
		a, b := arg(0), arg(1)
		return c.Eq(a, c.Store(b, arg(2), c.Select(a, arg(2))))
	case "ok":
		return c.Eq(arg(0), e.errNil())
	case "gerr":
		// gerr(pkg.Name): the value of a package-level error variable
		n := x.Args[0].Name
		for _, pk := range e.P.Funcs {
			if pk.Pkg == nil {
				continue
			}
			pn, vn, _ := strings.Cut(n, ".")
			if pk.Pkg.Pkg.Name() != pn {
				continue
			}
			if g, ok := pk.Pkg.Members[vn].(*ssa.Global); ok {
				return e.load(sc.st, &PtrV{Obj: e.global(sc.st, g)}, "")
			}
		}
		e.specErr(x, "no error variable %s", n)
	case "fileino":
		if _, ino, ok := e.isFile(e.V(x.Args[0], sc)); ok {
			return ino
		}
		return c.Fresh("noino", c.Int)
	case "deref":
		if p, ok := e.V(x.Args[0], sc).(*PtrV); ok {
			return e.load(sc.st, p, "")
		}
		return c.Val(arg(0))
	case "hassuffix":
		return e.strPred("hassuffix", arg(0), arg(1))
	case "hasprefix":
		return e.strPred("hasprefix", arg(0), arg(1))
	case "substr":
		return e.substr(arg(0), arg(1), arg(2))
	case "join":
		t := arg(0)
		for i := 1; i < len(x.Args); i++ {
			t = e.pathJoin(t, arg(i))
		}
		return t
	case "itoa":
		return e.fmtInt(arg(0))
	case "quote":
		return c.Fn("fmtq", c.Str, arg(0))
	case "unchanged":
		// unchanged(x): value equal to its old value
		a := arg(0)
		b := e.T(x.Args[0], sc.in(sc.old))
		return c.Eq(a, b)
	case "jsonreq":
		t := e.goType(typeArg(x.Args[0]))
		if t == nil {
			e.specErr(x, "jsonreq: no such type")
		}
		return e.wrap(sc.st, e.jsonReq(t), t)
	case "callerr":
		// callerr(k): the error the k-th logged call returned
		k := int(x.Args[0].N)
		if k >= len(sc.st.calls) || len(sc.st.calls[k].Res) == 0 {
			return c.Const("nocall_err", c.Err)
		}
		r := sc.st.calls[k].Res
		return e.toErr(sc.st, r[len(r)-1])
	case "callarg":
		// callarg(k, i): the i-th argument of the k-th logged call (a list of strings if there is none)
		k, i := int(x.Args[0].N), int(x.Args[1].N)
		if k >= len(sc.st.calls) || i >= len(sc.st.calls[k].Args) {
			return c.Const("nocall_arg", c.seqSort(c.Str))
		}
		t, ok := pure(sc.st.calls[k].Args[i])
		if iv, isI := sc.st.calls[k].Args[i].(*IfaceV); isI && !ok {
			return iv.V
		}
		if !ok {
			e.fail("callarg is %T", sc.st.calls[k].Args[i])
		}
		return t
	case "calls":
		return c.IntLit(int64(len(sc.st.calls)))
	case "called":
		return e.specCalled(x, sc)
	case "calledon":
		// calledon(k, "Name", field, v): the k-th logged call is Name, on a receiver with this field value
		k := int(x.Args[0].N)
		if k >= len(sc.st.calls) || sc.st.calls[k].Name != x.Args[1].Name || len(sc.st.calls[k].Args) == 0 {
			return c.False
		}
		got := e.selV(x, sc.st.calls[k].Args[0], x.Args[2].Name, sc)
		t, ok := pure(got)
		if !ok {
			return c.False
		}
		return c.Eq(t, arg(3))
	case "pend":
		// pend(g): ghost state g as the running write transaction will leave it
		n := x.Args[0].Name
		if g := sc.st.ghost["pend!"+n]; g != nil {
			return g
		}
		if sc.st.ghost[n] == nil {
			e.specErr(x, "pend needs ghost state")
		}
		return sc.st.ghost[n]
	case "locked":
		p, ok := e.V(x.Args[0], sc).(*PtrV)
		if !ok {
			e.specErr(x, "locked needs a mutex")
		}
		return c.BoolLit(sc.st.locks[p.Obj] == 1)
	case "isptr":
		_, ok := e.V(x.Args[0], sc).(*PtrV)
		return c.BoolLit(ok)
	case "fnres":
		// fnres("name", sortname-as-str, args...): result of a pure external function
		var as []*Term
		for i := 2; i < len(x.Args); i++ {
			as = append(as, arg(i))
		}
		return c.Fn("x_"+x.Args[0].Name, e.sortByName(x.Args[1].Name), as...)
	}
	if m := e.S.Macros[x.Name]; m != nil {
		if len(m.Vars) != len(x.Args) {
			e.specErr(x, "macro arity")
		}
		n := &scope{st: sc.st, old: sc.old, lold: sc.lold, env: map[string]Value{}}
		for i, v := range m.Vars {
			n.env[v.Name] = e.V(x.Args[i], sc)
		}
		return e.V(m.Body, n)
	}
	if f := e.S.Fns[x.Name]; f != nil {
		if len(f.Args) != len(x.Args) {
			e.specErr(x, "arity of %s", x.Name)
		}
		var as []*Term
		var so []*Sort
		for i := range x.Args {
			a := arg(i)
			w := e.sortByName(f.Args[i])
			if a.Sort != w && a.Sort.Kind == KOpt && a.Sort.Elem == w {
				a = c.Val(a)
			}
			if a.Sort != w {
				e.specErr(x, "argument %d of %s has sort %s, want %s", i, x.Name, a.Sort.Name, w.Name)
			}
			as = append(as, a)
			so = append(so, w)
		}
		return c.App(c.declFun(f.Name, so, e.sortByName(f.Res)), as...)
	}
	e.specErr(x, "unknown function %s", x.Name)
	return nil
}

// called("Name", i) style access to the ghost call log:
// called(k, "Name", a1, a2...): the k-th logged call is Name with these arguments.
func (e *Exec) specCalled(x *Expr, sc *scope) Value {
	c := e.c
	k := int(x.Args[0].N)
	if k >= len(sc.st.calls) {
		return c.False
	}
	r := sc.st.calls[k]
	if r.Name != x.Args[1].Name || len(r.Args) != len(x.Args)-2 {
		return c.False
	}
	var fs []*Term
	for i, a := range r.Args {
		if w := x.Args[i+2]; w.Op == "ident" && w.Name == "_" {
			continue
		}
		want := e.T(x.Args[i+2], sc)
		t, ok := pure(a)
		if !ok {
			if iv, isI := a.(*IfaceV); isI {
				t = e.toTerm(sc.st, iv.V, iv.Dyn)
			} else if pv, isP := a.(*PtrV); isP {
				t = c.Some(e.toTerm(sc.st, e.load(sc.st, pv, ""), typeAt(e.objType[pv.Obj], pv.Path)))
			} else {
				return c.False
			}
		}
		if t.Sort != want.Sort {
			return c.False
		}
		fs = append(fs, c.Eq(t, want))
	}
	return c.And(fs...)
}

// preds returns the declared candidate predicates over a sort.
func (e *Exec) preds(h *State, s *Sort) []func(x *Term) *Term {
	var out []func(x *Term) *Term
	if e.spec == nil {
		return nil
	}
	for _, cl := range e.spec.Clauses {
		cl := cl
		if cl.Kind != "pred" || len(cl.Vars) != 1 || e.sortByName(cl.Vars[0].Sort) != s {
			continue
		}
		out = append(out, func(x *Term) *Term {
			sc := &scope{st: h, old: e.old, lold: h, env: e.env}
			return e.T(cl.E, sc.with(cl.Vars[0].Name, x))
		})
	}
	return out
}

func mentions(x *Expr, name string) bool {
	if x == nil {
		return false
	}
	if x.Op == "ident" && x.Name == name {
		return true
	}
	for _, a := range x.Args {
		if mentions(a, name) {
			return true
		}
	}
	for _, tr := range x.Trig {
		for _, a := range tr {
			if mentions(a, name) {
				return true
			}
		}
	}
	return false
}

// uses reports that t mentions one of the symbols.
func uses(t *Term, syms map[*Term]*Term) bool {
	ok := false
	collect(t, map[*Term]bool{}, func(x *Term) {
		if _, in := syms[x]; in {
			ok = true
		}
	})
	return ok
}

func (e *Exec) userCandidates(entry, h *State, cells []*cell, us, usChanging [][2]*Term, subE map[*Term]*Term) []*Term {
	var out []*Term
	if e.spec == nil {
		return nil
	}
	c := e.c
	for _, cl := range e.spec.Clauses {
		if cl.Kind != "candidate" {
			continue
		}
		if len(cl.Names) > 0 {
			changes := false
			for _, cell := range cells {
				changes = changes || cell.ghost == cl.Names[0]
			}
			if changes == cl.Without {
				continue
			}
		}
		base := &scope{st: h, old: e.old, lold: entry, env: e.env}
		scs := []*scope{base}
		if mentions(cl.E, "$I") || mentions(cl.E, "$L") || mentions(cl.E, "$I0") {
			var n []*scope
			pairs := us
			if !mentions(cl.E, "$L") {
				pairs = usChanging // the list itself may grow when only the position is named
			}
			for _, u := range pairs {
				s := base.with("$L", u[0])
				s.env["$I"] = u[1]
				s.env["$I0"] = c.Subst(u[1], subE)
				n = append(n, s)
			}
			scs = n
		}
		expand := func(name string, want func(s *Sort) bool) {
			if !mentions(cl.E, name) {
				return
			}
			var n []*scope
			for _, s := range scs {
				for _, cell := range cells {
					if cell.ghost != "" || !want(cell.sym.Sort) {
						continue
					}
					q := s.with(name, cell.sym)
					q.env["lold:"+name] = subE[cell.sym]
					n = append(n, q)
				}
			}
			scs = n
		}
		expand("$S", func(s *Sort) bool { return s.Kind == KSeq })
		expand("$S2", func(s *Sort) bool { return s.Kind == KSeq })
		expand("$N", func(s *Sort) bool { return s.Kind == KInt })
		expand("$T", func(s *Sort) bool { return s == c.Str })
		expand("$T2", func(s *Sort) bool { return s == c.Str })
		expand("$M", func(s *Sort) bool { return s.Kind == KArray })
		expand("$B", func(s *Sort) bool { return s == c.Bool })
		expand("$P", func(s *Sort) bool { return s.Kind == KOpt })
		for _, s := range scs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsup); ok {
							if e.loopDbg {
								fmt.Fprintln(os.Stderr, "candidate skipped:", u.msg)
							}
							return
						}
						if se, ok := r.(string); ok { // sort mismatch inside term constructors
							if e.loopDbg {
								fmt.Fprintln(os.Stderr, "candidate skipped:", se)
							}
							return
						}
						panic(r)
					}
				}()
				if t := e.T(cl.E, s); uses(t, subE) {
					out = append(out, t)
				}
			}()
		}
	}
	return out
}

// typeArg reads pkg.Type as an argument.
func typeArg(x *Expr) string {
	if x.Op == "sel" && x.Args[0].Op == "ident" {
		return x.Args[0].Name + "." + x.Name
	}
	return x.Name
}

// arrTerm gives the elements of a slice of a concrete array.
func (e *Exec) arrTerm(st *State, x *SliceRef) *Term {
	if x.T != nil {
		return x.T
	}
	at := e.objType[x.Arr.Obj].Underlying().(*types.Array)
	return e.toTerm(st, x, types.NewSlice(at.Elem()))
}
