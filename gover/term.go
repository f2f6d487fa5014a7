package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	Name string // SMT-LIB text
	Kind SortKind
	Dom  *Sort // arrays
	Rng  *Sort
	Elem *Sort // sequences and options
	DT   *Datatype
}

// SortKind classifies sorts.
type SortKind int

// Kinds of sort.
const (
	KBool SortKind = iota
	KInt
	KUnint // uninterpreted
	KDT    // datatype with one constructor (struct)
	KOpt   // option datatype
	KSeq   // axiomatised sequence
	KArray
)

// Datatype is a record sort.
type Datatype struct {
	Ctor   string
	Fields []DTField
}

// DTField is one field of a record.
type DTField struct {
	Name string // Go field name
	Sel  string // SMT selector
	Sort *Sort
}

// FuncDecl is a declared function symbol.
type FuncDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

// Term is a hash-consed SMT term.
type Term struct {
	ID    int
	Op    string
	Args  []*Term
	Sort  *Sort
	Name  string // constants, bound variables, literals, function names
	N     int64  // integer literals
	Vars  []*Term
	Trigs [][]*Term
	free  map[*Term]bool // free bound variables
}

// Ctx owns terms, sorts and declarations of one verification unit.
type Ctx struct {
	table          map[string]*Term
	next           int
	sorts          map[string]*Sort
	sortL          []*Sort
	funcs          map[string]*FuncDecl
	fresh          int
	Bool           *Sort
	Int            *Sort
	Str            *Sort
	Err            *Sort
	True           *Term
	False          *Term
	strLit         map[string]*Term
	strVal         map[*Term]string
	axioms         []*Axiom
	axSeen         map[string]bool
	types          *typeTable
	distinctConsts map[string][]*Term // sort name -> constants known pairwise distinct
}

// Axiom is a background axiom, included when all Needs symbols occur.
type Axiom struct {
	Name  string
	Needs []string
	F     *Term
}

func newCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, sorts: map[string]*Sort{}, funcs: map[string]*FuncDecl{},
		strLit: map[string]*Term{}, strVal: map[*Term]string{}, axSeen: map[string]bool{},
		distinctConsts: map[string][]*Term{}}
	c.Bool = c.addSort(&Sort{Name: "Bool", Kind: KBool})
	c.Int = c.addSort(&Sort{Name: "Int", Kind: KInt})
	c.Str = c.addSort(&Sort{Name: "Str", Kind: KUnint})
	c.Err = c.addSort(&Sort{Name: "Err", Kind: KUnint})
	c.True = c.mk(&Term{Op: "true", Sort: c.Bool})
	c.False = c.mk(&Term{Op: "false", Sort: c.Bool})
	c.types = newTypeTable(c)
	return c
}

func (c *Ctx) addSort(s *Sort) *Sort {
	if o := c.sorts[s.Name]; o != nil {
		return o
	}
	c.sorts[s.Name] = s
	c.sortL = append(c.sortL, s)
	return s
}

func (c *Ctx) uninterp(name string) *Sort { return c.addSort(&Sort{Name: name, Kind: KUnint}) }

func (c *Ctx) arraySort(d, r *Sort) *Sort {
	return c.addSort(&Sort{Name: "(Array " + d.Name + " " + r.Name + ")", Kind: KArray, Dom: d, Rng: r})
}

func sane(s string) string {
	r := strings.NewReplacer("(", "_", ")", "_", " ", "_", "*", "p", "[", "", "]", "", "/", "_")
	return r.Replace(s)
}

func (c *Ctx) optSort(e *Sort) *Sort {
	return c.addSort(&Sort{Name: "Opt_" + sane(e.Name), Kind: KOpt, Elem: e})
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.Op == "int" {
		b.WriteString(strconv.FormatInt(t.N, 10))
	}
	if t.Sort != nil {
		b.WriteString(t.Sort.Name)
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	for _, v := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(v.ID))
	}
	for _, tr := range t.Trigs {
		b.WriteByte('!')
		for _, v := range tr {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(v.ID))
		}
	}
	k := b.String()
	if o := c.table[k]; o != nil {
		return o
	}
	c.next++
	t.ID = c.next
	if t.Op == "bvar" {
		t.free = map[*Term]bool{t: true}
	} else {
		var fr map[*Term]bool
		shared := true
		for _, a := range t.Args {
			if len(a.free) == 0 {
				continue
			}
			if fr == nil {
				fr = a.free
				continue
			}
			if shared {
				n := map[*Term]bool{}
				for x := range fr {
					n[x] = true
				}
				fr = n
				shared = false
			}
			for x := range a.free {
				fr[x] = true
			}
		}
		if len(t.Vars) > 0 {
			n := map[*Term]bool{}
			for x := range fr {
				n[x] = true
			}
			for _, v := range t.Vars {
				delete(n, v)
			}
			fr = n
		}
		t.free = fr
	}
	c.table[k] = t
	return t
}

// Const returns the named constant.
func (c *Ctx) Const(name string, s *Sort) *Term { return c.mk(&Term{Op: "const", Name: name, Sort: s}) }

// Fresh returns a new constant.
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", sane(prefix), c.fresh), s)
}

// BVar returns a new bound variable.
func (c *Ctx) BVar(prefix string, s *Sort) *Term {
	c.fresh++
	return c.mk(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", sane(prefix), c.fresh), Sort: s})
}

// IntLit returns an integer literal.
func (c *Ctx) IntLit(n int64) *Term { return c.mk(&Term{Op: "int", N: n, Sort: c.Int}) }

// BoolLit returns true or false.
func (c *Ctx) BoolLit(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// StrLit returns the constant of a string literal; distinct literals are distinct.
func (c *Ctx) StrLit(s string) *Term {
	if t := c.strLit[s]; t != nil {
		return t
	}
	t := c.mk(&Term{Op: "const", Name: fmt.Sprintf("str!%d", len(c.strLit)), Sort: c.Str})
	c.strLit[s] = t
	c.strVal[t] = s
	return t
}

func (c *Ctx) declFun(name string, args []*Sort, res *Sort) *FuncDecl {
	if f := c.funcs[name]; f != nil {
		return f
	}
	f := &FuncDecl{Name: name, Args: args, Res: res}
	c.funcs[name] = f
	return f
}

// App applies a declared function.
func (c *Ctx) App(f *FuncDecl, args ...*Term) *Term {
	if len(args) != len(f.Args) {
		panic(fmt.Sprintf("arity of %s: %d", f.Name, len(args)))
	}
	for i := range args {
		if args[i].Sort != f.Args[i] {
			panic(fmt.Sprintf("sort of argument %d of %s: %s, want %s", i, f.Name, args[i].Sort.Name, f.Args[i].Name))
		}
	}
	if len(args) == 0 {
		return c.Const(f.Name, f.Res)
	}
	return c.mk(&Term{Op: "app", Name: f.Name, Args: args, Sort: f.Res})
}

// Fn declares (if needed) and applies a function, sorts taken from the arguments.
func (c *Ctx) Fn(name string, res *Sort, args ...*Term) *Term {
	var as []*Sort
	for _, a := range args {
		as = append(as, a.Sort)
	}
	return c.App(c.declFun(name, as, res), args...)
}

// Not negates.
func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk(&Term{Op: "not", Args: []*Term{a}, Sort: c.Bool})
}

// And conjoins.
func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", as) }

// Or disjoins.
func (c *Ctx) Or(as ...*Term) *Term { return c.nary("or", as) }

func (c *Ctx) nary(op string, as []*Term) *Term {
	unit, zero := c.True, c.False
	if op == "or" {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.Sort != c.Bool {
			panic("nary: non-bool " + c.Show(a))
		}
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: op, Args: out, Sort: c.Bool})
}

// Implies is implication.
func (c *Ctx) Implies(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.mk(&Term{Op: "=>", Args: []*Term{a, b}, Sort: c.Bool})
}

func (c *Ctx) distinctLits(a, b *Term) bool {
	if a == b {
		return false
	}
	_, x := c.strVal[a]
	_, y := c.strVal[b]
	return x && y
}

// Eq is equality (iff on booleans).
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts %s and %s: %s = %s", a.Sort.Name, b.Sort.Name, c.Show(a), c.Show(b)))
	}
	if a.Op == "int" && b.Op == "int" {
		return c.BoolLit(a.N == b.N)
	}
	if c.distinctLits(a, b) {
		return c.False
	}
	if ds := c.distinctConsts[a.Sort.Name]; ds != nil {
		ia, ib := false, false
		for _, d := range ds {
			ia = ia || d == a
			ib = ib || d == b
		}
		if ia && ib {
			return c.False
		}
	}
	if a.Sort == c.Bool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return c.False
		}
		var es []*Term
		for i := range a.Args {
			es = append(es, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(es...)
	}
	if a.Op == "some" && b.Op == "some" {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "some" && b.Op == "none" || a.Op == "none" && b.Op == "some" {
		return c.False
	}
	if b.Op == "none" {
		return c.Not(c.IsSome(a))
	}
	if a.Op == "none" {
		return c.Not(c.IsSome(b))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: c.Bool})
}

// Ite is if-then-else.
func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.True || a == b {
		return a
	}
	if p == c.False {
		return b
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort.Name + " " + b.Sort.Name)
	}
	if a.Sort == c.Bool {
		if a == c.True && b == c.False {
			return p
		}
		if a == c.False && b == c.True {
			return c.Not(p)
		}
		return c.And(c.Implies(p, a), c.Implies(c.Not(p), b))
	}
	return c.mk(&Term{Op: "ite", Args: []*Term{p, a, b}, Sort: a.Sort})
}

// linear form of integer terms: constant + sum coeff*atom
func (c *Ctx) linear(t *Term, k int64, m map[*Term]int64) int64 {
	switch t.Op {
	case "int":
		return k * t.N
	case "+":
		var s int64
		for _, a := range t.Args {
			s += c.linear(a, k, m)
		}
		return s
	case "-":
		s := c.linear(t.Args[0], k, m)
		return s + c.linear(t.Args[1], -k, m)
	case "*":
		if t.Args[0].Op == "int" {
			return c.linear(t.Args[1], k*t.Args[0].N, m)
		}
	}
	m[t] += k
	return 0
}

func (c *Ctx) fromLinear(k int64, m map[*Term]int64) *Term {
	var keys []*Term
	for t, v := range m {
		if v != 0 {
			keys = append(keys, t)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	var as []*Term
	for _, t := range keys {
		if m[t] == 1 {
			as = append(as, t)
		} else {
			as = append(as, c.mk(&Term{Op: "*", Args: []*Term{c.IntLit(m[t]), t}, Sort: c.Int}))
		}
	}
	if k != 0 || len(as) == 0 {
		as = append(as, c.IntLit(k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return c.mk(&Term{Op: "+", Args: as, Sort: c.Int})
}

// Add adds.
func (c *Ctx) Add(a, b *Term) *Term {
	m := map[*Term]int64{}
	k := c.linear(a, 1, m) + c.linear(b, 1, m)
	return c.fromLinear(k, m)
}

// Sub subtracts.
func (c *Ctx) Sub(a, b *Term) *Term {
	m := map[*Term]int64{}
	k := c.linear(a, 1, m) + c.linear(b, -1, m)
	return c.fromLinear(k, m)
}

// Mul multiplies.
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.IntLit(a.N * b.N)
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		m := map[*Term]int64{}
		k := c.linear(b, a.N, m)
		return c.fromLinear(k, m)
	}
	return c.mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: c.Int})
}

func (c *Ctx) diffConst(a, b *Term) (int64, bool) {
	m := map[*Term]int64{}
	k := c.linear(a, 1, m) + c.linear(b, -1, m)
	for _, v := range m {
		if v != 0 {
			return 0, false
		}
	}
	return k, true
}

// Le is <=.
func (c *Ctx) Le(a, b *Term) *Term {
	if d, ok := c.diffConst(a, b); ok {
		return c.BoolLit(d <= 0)
	}
	return c.mk(&Term{Op: "<=", Args: []*Term{a, b}, Sort: c.Bool})
}

// Lt is < ; normalised to not <=.
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }

// Select reads an array.
func (c *Ctx) Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if c.provablyDistinct(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Sort.Kind != KArray || a.Sort.Dom != i.Sort {
		panic("select sorts " + a.Sort.Name + " " + i.Sort.Name)
	}
	return c.mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: a.Sort.Rng})
}

func (c *Ctx) provablyDistinct(a, b *Term) bool {
	if c.distinctLits(a, b) {
		return true
	}
	if a.Sort == c.Int {
		d, ok := c.diffConst(a, b)
		return ok && d != 0
	}
	return false
}

// Store updates an array.
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Sort.Kind != KArray || a.Sort.Dom != i.Sort || a.Sort.Rng != v.Sort {
		panic("store sorts " + a.Sort.Name + " " + i.Sort.Name + " " + v.Sort.Name)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}

// ConstArr is the constant array.
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

// Ctor builds a record.
func (c *Ctx) Ctor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.DT.Fields) {
		panic("ctor arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.DT.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %s: sort %s want %s", s.Name, s.DT.Fields[i].Name, a.Sort.Name, s.DT.Fields[i].Sort.Name))
		}
	}
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].Sort == s {
		b := args[0].Args[0]
		same := true
		for i, a := range args {
			if a != c.Sel(b, i) {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	return c.mk(&Term{Op: "ctor", Name: s.DT.Ctor, Args: args, Sort: s})
}

// Sel selects field i of a record.
func (c *Ctx) Sel(t *Term, i int) *Term {
	if t.Op == "ctor" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Sel(t.Args[1], i), c.Sel(t.Args[2], i))
	}
	f := t.Sort.DT.Fields[i]
	return c.mk(&Term{Op: "sel", Name: f.Sel, Args: []*Term{t}, Sort: f.Sort})
}

// With returns the record with field i replaced.
func (c *Ctx) With(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.Sort.DT.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(t, j)
		}
	}
	return c.Ctor(t.Sort, args...)
}

// None is the empty option.
func (c *Ctx) None(s *Sort) *Term { return c.mk(&Term{Op: "none", Sort: s}) }

// Some wraps a value.
func (c *Ctx) Some(v *Term) *Term {
	if v.Op == "optval" {
		// some(val(x)) is x only when x is present; keep as is
	}
	return c.mk(&Term{Op: "some", Args: []*Term{v}, Sort: c.optSort(v.Sort)})
}

// IsSome tests an option.
func (c *Ctx) IsSome(t *Term) *Term {
	switch t.Op {
	case "none":
		return c.False
	case "some":
		return c.True
	case "ite":
		return c.Ite(t.Args[0], c.IsSome(t.Args[1]), c.IsSome(t.Args[2]))
	}
	return c.mk(&Term{Op: "issome", Args: []*Term{t}, Sort: c.Bool})
}

// Val unwraps an option.
func (c *Ctx) Val(t *Term) *Term {
	if t.Op == "some" {
		return t.Args[0]
	}
	if t.Op == "ite" && t.Args[1].Op == "some" && t.Args[2].Op == "some" {
		return c.Ite(t.Args[0], t.Args[1].Args[0], t.Args[2].Args[0])
	}
	return c.mk(&Term{Op: "optval", Args: []*Term{t}, Sort: t.Sort.Elem})
}

// Forall quantifies.
func (c *Ctx) Forall(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return c.quant("forall", vars, body, trigs)
}

// Exists quantifies.
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.quant("exists", vars, body, nil) }

func (c *Ctx) quant(op string, vars []*Term, body *Term, trigs [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.free[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return c.mk(&Term{Op: op, Args: []*Term{body}, Vars: used, Trigs: cleanTrigs(used, trigs), Sort: c.Bool})
}

// cleanTrigs removes interpreted operators from the tops of triggers.
func cleanTrigs(vars []*Term, trigs [][]*Term) [][]*Term {
	covers := func(ts []*Term) bool {
		for _, v := range vars {
			ok := false
			for _, t := range ts {
				ok = ok || t.free[v]
			}
			if !ok {
				return false
			}
		}
		return true
	}
	var out [][]*Term
	for _, tr := range trigs {
		groups := [][]*Term{nil}
		for _, t := range tr {
			var leaves []*Term
			var rec func(t *Term)
			rec = func(t *Term) {
				switch t.Op {
				case "and", "or", "not", "=>", "=", "ite", "+", "-", "*", "<", "<=", "forall", "exists":
					for _, a := range t.Args {
						rec(a)
					}
				default:
					if len(t.free) > 0 && len(t.Args) > 0 {
						leaves = append(leaves, t)
					}
				}
			}
			rec(t)
			if len(leaves) == 1 && leaves[0] == t {
				for i := range groups {
					groups[i] = append(groups[i], t)
				}
				continue
			}
			var ng [][]*Term
			for _, g := range groups {
				for _, l := range leaves {
					ng = append(ng, append(append([]*Term{}, g...), l))
				}
			}
			groups = ng
		}
		for _, g := range groups {
			if len(g) > 0 && covers(g) {
				out = append(out, g)
			}
		}
	}
	return out
}

// Subst replaces terms (constants or bound variables).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			switch t.Op {
			case "not":
				r = c.Not(as[0])
			case "and":
				r = c.And(as...)
			case "or":
				r = c.Or(as...)
			case "=>":
				r = c.Implies(as[0], as[1])
			case "=":
				r = c.Eq(as[0], as[1])
			case "ite":
				r = c.Ite(as[0], as[1], as[2])
			case "+":
				r = c.IntLit(0)
				for _, a := range as {
					r = c.Add(r, a)
				}
			case "*":
				r = c.Mul(as[0], as[1])
			case "<=":
				r = c.Le(as[0], as[1])
			case "select":
				r = c.Select(as[0], as[1])
			case "store":
				r = c.Store(as[0], as[1], as[2])
			case "sel":
				for i, f := range as[0].Sort.DT.Fields {
					if f.Sel == t.Name {
						r = c.Sel(as[0], i)
					}
				}
			case "ctor":
				r = c.Ctor(t.Sort, as...)
			case "issome":
				r = c.IsSome(as[0])
			case "optval":
				r = c.Val(as[0])
			default:
				trs := make([][]*Term, len(t.Trigs))
				for i, tr := range t.Trigs {
					for _, x := range tr {
						trs[i] = append(trs[i], rec(x))
					}
				}
				r = c.mk(&Term{Op: t.Op, Name: t.Name, N: t.N, Args: as, Sort: t.Sort, Vars: t.Vars, Trigs: trs})
			}
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

// Show prints a term as a tree (debugging).
func (c *Ctx) Show(t *Term) string {
	p := &printer{c: c, names: map[*Term]string{}}
	s := p.str(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
