package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

type (
	// StructV is a struct whose fields are not all terms.
	StructV struct {
		T types.Type
		F []Value
	}
	// PtrV points into a concrete object.
	PtrV struct {
		Obj  int
		Path []PathElem
	}
	// SnapV is a pointer known only by an option term: nil or an immutable snapshot.
	SnapV struct {
		T    *Term
		Elem types.Type
		Path []PathElem // path inside the snapshot
	}
	// ClosV is a function value.
	ClosV struct {
		Fn   *ssa.Function
		Bind []Value
	}
	// BoundV is an unknown function value (opaque).
	OpaqueV struct {
		T   types.Type
		Tag string
		Arg []Value
	}
	// IfaceV is an interface holding a value of a known type.
	IfaceV struct {
		Dyn types.Type
		V   Value
	}
	// TupleV is a multiple result.
	TupleV []Value
	// DBV is a libdb handle.
	DBV struct {
		Root  string
		Path  []*Term
		Batch int // 0 = direct
	}
	// EncV is an encoded stored value.
	EncV struct {
		T   *Term
		Typ types.Type
	}
	// ArrV is a fixed-size array.
	ArrV struct {
		T types.Type
		E []Value
	}
	// MapV is a reference to a map object; Obj<0 means an ignored map.
	MapV struct {
		Obj int
	}
	// IterV is a map or string iterator.
	IterV struct {
		M    Value
		Id   int
		Keys *Term
	}
	// SliceRef is a slice value together with where it was loaded from.
	SliceRef struct {
		T    *Term
		From *PtrV
		Arr  *ArrRef
	}
	// ArrRef is a slice of a concrete array object.
	ArrRef struct {
		Obj int
	}
)

// PathElem is a field index or a sequence index.
type PathElem struct {
	F   int   // field (or constant array index)
	Idx *Term // when not nil: sequence element
}

// State is a symbolic machine state.
type State struct {
	pc    []*Term
	objs  map[int]Value
	ghost map[string]*Term
	locks map[int]int // 1 exclusive, 2.. shared count
	iters []*IterFrame
	calls []CallRec
	trace []string
	batch []int // active Update batches
	wrote map[int]bool
	dead  bool
}

// CallRec is an entry of the ghost call log.
type CallRec struct {
	Name string
	Args []Value
	Res  []Value
	Cond int // length of pc when recorded
}

// IterFrame is an active loop for specs.
type IterFrame struct {
	Keys *Term // ForEach: key sequence
	I    *Term // index of current element
	Map  *Term // array iterated
	Typ  types.Type
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], objs: make(map[int]Value, len(s.objs)), ghost: make(map[string]*Term, len(s.ghost)),
		locks: make(map[int]int, len(s.locks)), iters: s.iters[:len(s.iters):len(s.iters)], calls: s.calls[:len(s.calls):len(s.calls)],
		trace: s.trace[:len(s.trace):len(s.trace)], wrote: s.wrote, batch: s.batch[:len(s.batch):len(s.batch)]}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	return n
}

func (s *State) assume(c *Ctx, f *Term) bool {
	if f == c.True {
		return true
	}
	if f == c.False {
		s.dead = true
		return false
	}
	if f.Op == "and" {
		for _, a := range f.Args {
			if !s.assume(c, a) {
				return false
			}
		}
		return true
	}
	nf := c.Not(f)
	for _, p := range s.pc {
		if p == f {
			return true
		}
		if p == nf {
			s.dead = true
			return false
		}
	}
	s.pc = append(s.pc, f)
	return true
}

func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path)
	case *SnapV:
		y, ok := b.(*SnapV)
		return ok && x.T == y.T && samePath(x.Path, y.Path)
	case *ClosV:
		y, ok := b.(*ClosV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		if !ok || x.Tag != y.Tag || len(x.Arg) != len(y.Arg) {
			return false
		}
		for i := range x.Arg {
			if !sameVal(x.Arg[i], y.Arg[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.Dyn, y.Dyn) && sameVal(x.V, y.V)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *DBV:
		y, ok := b.(*DBV)
		if !ok || x.Root != y.Root || x.Batch != y.Batch || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *EncV:
		y, ok := b.(*EncV)
		return ok && x.T == y.T
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	case *SliceRef:
		y, ok := b.(*SliceRef)
		return ok && x.T == y.T
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Id == y.Id
	}
	return false
}

func showVal(c *Ctx, v Value) string {
	switch x := v.(type) {
	case *Term:
		return c.Show(x)
	case *PtrV:
		return fmt.Sprintf("&obj%d%v", x.Obj, x.Path)
	case *SnapV:
		return "snap(" + c.Show(x.T) + ")"
	case *StructV:
		var f []string
		for _, y := range x.F {
			f = append(f, showVal(c, y))
		}
		return "{" + strings.Join(f, ", ") + "}"
	case *SliceRef:
		if x.T == nil {
			return "slice(arr)"
		}
		return "slice " + c.Show(x.T)
	case TupleV:
		var f []string
		for _, y := range x {
			f = append(f, showVal(c, y))
		}
		return "(" + strings.Join(f, ", ") + ")"
	case *IfaceV:
		return "iface " + showVal(c, x.V)
	}
	return fmt.Sprintf("%T", v)
}
