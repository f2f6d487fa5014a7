package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	Name  string
	Kind  string
	Pos   string
	Facts []*Term
	Goal  *Term
	Fn    string
	Path  []string
	// result
	Done   bool
	Proved bool
	By     string
	Why    string
	Query  string
}

// Exec verifies one function.
type Exec struct {
	P          *Program
	S          *Specs
	c          *Ctx
	nextObj    int
	symIn      []string       // structs whose fields symbolic is making
	snapLock   map[string]int // locks known by value
	objType    map[int]types.Type
	obligs     []*Oblig
	trivial    int
	opt        *checkOpt
	dry        int
	stack      []*Frame
	target     *ssa.Function
	spec       *Contract // contract of the target
	env        map[string]Value
	old        *State
	infos      map[*ssa.Function]*fnInfo
	facts      []*Term
	curPos     token.Pos
	inlined    map[string]bool
	called     map[string]bool // contracts relied on
	externs    map[string]bool // external functions modelled
	globals    map[*ssa.Global]int
	readOnly   map[int]bool // stand-ins for a slice that is no longer held by its variable
	elemSet    map[int]bool // objects with a slice that was written element by element
	havocAlloc map[string]bool
	loopKeep   map[string]map[string]bool
	depth      int
	nSteps     int
	noInline   map[string]bool
	houdini    int
	userCand   map[*Term]bool
	filePos    map[int]bool // position objects of open files
	crash      *Expr
	loopDbg    bool
	subset     string
	curIter    *loopCtx
	unconstr   int
	pathsMax   int
}

// Frame is an activation.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	free   []Value
	defers []deferred
	info   *fnInfo
	base   int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, regs: make(map[ssa.Value]Value, len(f.regs)), free: f.free, info: f.info, base: f.base}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return n
}

// PS is a path state inside a frame.
type PS struct {
	st   *State
	fr   *Frame
	pred *ssa.BasicBlock
}

func (p *PS) clone() *PS { return &PS{p.st.clone(), p.fr.clone(), p.pred} }

// Ret is one outcome of a call.
type Ret struct {
	st  *State
	val Value
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	idx    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	simple map[*ssa.Alloc]bool
}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if i := e.infos[fn]; i != nil {
		return i
	}
	in := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, simple: map[*ssa.Alloc]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.idx[post[i]] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := in.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					in.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// liveness of registers and simple allocs
	for _, b := range in.rpo {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok {
				ok := true
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Val == ssa.Value(a) {
							ok = false
						}
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						ok = false
					}
				}
				if ok {
					in.simple[a] = true
				}
			}
		}
	}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for i := len(in.rpo) - 1; i >= 0; i-- {
			b := in.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.liveIn[s] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						for k, p := range s.Preds {
							if p == b {
								live[ph.Edges[k]] = true
							}
						}
					}
				}
			}
			out[b] = live
			cur := map[ssa.Value]bool{}
			for v := range live {
				cur[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if st, ok := ins.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.Alloc); ok && in.simple[a] {
						delete(cur, a) // content killed (register stays known through slot map)
						cur[st.Val] = true
						continue
					}
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					switch (*op).(type) {
					case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
					default:
						cur[*op] = true
					}
				}
				if _, ok := ins.(*ssa.RunDefers); ok {
					_ = ins
				}
			}
			if len(cur) != len(in.liveIn[b]) {
				ch = true
				in.liveIn[b] = cur
			}
		}
	}
	e.infos[fn] = in
	return in
}

func (e *Exec) where() string {
	fn := "?"
	if len(e.stack) > 0 {
		fn = shortName(e.stack[len(e.stack)-1].fn)
	}
	return fn + " " + e.pos(e.curPos)
}

// check records an obligation.
// triv counts an obligation the generator's simplifier discharged.
func (e *Exec) triv(kind string) {
	if e.opt == nil || e.opt.wants(&Oblig{Kind: kind}) {
		e.trivial++
	}
}

func (e *Exec) check(st *State, goal *Term, kind, what string) {
	if e.dry > 0 || st.dead {
		return
	}
	if goal == e.c.True {
		e.triv(kind)
		return
	}
	for _, p := range st.pc {
		if p == goal {
			e.triv(kind)
			return
		}
	}
	if goal.Op == "and" {
		for _, g := range goal.Args {
			e.check(st, g, kind, what)
		}
		return
	}
	o := &Oblig{Name: fmt.Sprintf("%s#%s", kind, what), Kind: kind, Pos: e.pos(e.curPos), Goal: goal,
		Facts: append(append([]*Term{}, e.facts...), st.pc...), Path: append([]string{}, st.trace...)}
	if len(e.stack) > 0 {
		o.Fn = shortName(e.stack[len(e.stack)-1].fn)
	}
	e.obligs = append(e.obligs, o)
}

// merge joins states that differ only in their path condition.
const joinMax = 3

func (e *Exec) merge(ps []*PS, at *ssa.BasicBlock) (res []*PS) {
	var out []*PS
	defer func() {
		if at != nil && len(out) > joinMax {
			out = e.joinAll(out)
		}
		res = out
	}()
	for _, p := range ps {
		if p.st.dead {
			continue
		}
		if at != nil {
			e.phis(p, at)
			e.trim(p, at)
		}
		done := false
		for _, q := range out {
			if e.tryMerge(q.st, p.st, q.fr, p.fr) {
				done = true
				break
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	return out
}

// trim forgets dead registers and dead simple locals.
func (e *Exec) trim(p *PS, at *ssa.BasicBlock) {
	live := p.fr.info.liveIn[at]
	for r, v := range p.fr.regs {
		a, isAlloc := r.(*ssa.Alloc)
		if isAlloc {
			if p.fr.info.simple[a] && !live[r] {
				if pv, ok := v.(*PtrV); ok {
					p.st.objs[pv.Obj] = nil
				}
			}
			continue
		}
		if _, ok := r.(*ssa.Parameter); ok {
			continue
		}
		if ph, ok := r.(*ssa.Phi); ok && ph.Block() == at {
			continue
		}
		if !live[r] {
			delete(p.fr.regs, r)
		}
	}
}

func (e *Exec) tryMerge(a, b *State, fa, fb *Frame) bool {
	if len(a.iters) != len(b.iters) || len(a.calls) != len(b.calls) || len(a.batch) != len(b.batch) {
		return mdbg("1")
	}
	for i := range a.batch {
		if a.batch[i] != b.batch[i] {
			return mdbg("2")
		}
	}
	for i := range a.calls {
		if !sameCall(a.calls[i], b.calls[i]) {
			return mdbg("3")
		}
	}
	if len(a.ghost) != len(b.ghost) {
		return mdbg("4")
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return mdbg("5")
		}
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return mdbg("6")
		}
	}
	for k, v := range b.locks {
		if a.locks[k] != v {
			return mdbg("7")
		}
	}
	if fa != nil {
		if len(fa.defers) != len(fb.defers) {
			return mdbg("8")
		}
		for k, v := range fa.regs {
			if w, ok := fb.regs[k]; ok && !sameVal(v, w) {
				return mdbg("9")
			}
		}
	}
	for k, v := range a.objs {
		if w, ok := b.objs[k]; ok && !sameVal(v, w) {
			return mdbg("obj %d %v %T %T 12", k, e.objType[k], v, w)
		}
	}
	for k := range b.wrote {
		if !a.wrote[k] {
			e.markWrote(a, k)
		}
	}
	// a register known on one side only cannot be used after the merge
	if fa != nil {
		for k := range fa.regs {
			if _, ok := fb.regs[k]; !ok {
				delete(fa.regs, k)
			}
		}
	}
	// merge path conditions
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	inB := map[*Term]bool{}
	for _, t := range b.pc[n:] {
		inB[t] = true
	}
	var common, ra, rb []*Term
	inC := map[*Term]bool{}
	for _, t := range a.pc[n:] {
		if inB[t] {
			common = append(common, t)
			inC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc[n:] {
		if !inC[t] {
			rb = append(rb, t)
		}
	}
	pc := append(append([]*Term{}, a.pc[:n]...), common...)
	d := e.c.Or(e.c.And(ra...), e.c.And(rb...))
	if d != e.c.True {
		pc = append(pc, d)
	}
	a.pc = pc
	for k := range a.objs {
		if _, ok := b.objs[k]; !ok {
			delete(a.objs, k)
		}
	}
	return true
}

// joinAll joins states that differ in ghost state or plain values, which
// become fresh symbols defined by cases.
func (e *Exec) joinAll(ps []*PS) []*PS {
	var out []*PS
	for _, p := range ps {
		done := false
		for _, q := range out {
			if e.tryJoin(q.st, p.st, q.fr, p.fr) {
				done = true
				break
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	return out
}

// joinVal says how two values join: a setter for the joined value, or false.
func (e *Exec) joinVal(a, b Value, eqs *[][3]*Term) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a == nil || b == nil {
		return nil, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			for _, q := range *eqs {
				if q[1] == x && q[2] == y {
					return q[0], true
				}
			}
			if x.Sort.Kind == KDT && (x.Op == "ctor" || y.Op == "ctor") {
				// field by field: what is the same on both sides stays known
				fs := make([]*Term, len(x.Sort.DT.Fields))
				for i := range fs {
					v, _ := e.joinVal(e.c.Sel(x, i), e.c.Sel(y, i), eqs)
					fs[i] = v.(*Term)
				}
				return e.c.Ctor(x.Sort, fs...), true
			}
			j := e.c.Fresh("j", x.Sort)
			*eqs = append(*eqs, [3]*Term{j, x, y})
			return j, true
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			n := *x
			n.F = make([]Value, len(x.F))
			for i := range x.F {
				v, ok := e.joinVal(x.F[i], y.F[i], eqs)
				if !ok || v == nil && (x.F[i] != nil) {
					return nil, false
				}
				n.F[i] = v
			}
			return &n, true
		}
	}
	return nil, false
}

func (e *Exec) tryJoin(a, b *State, fa, fb *Frame) bool {
	if len(a.iters) != len(b.iters) || len(a.calls) != len(b.calls) || len(a.batch) != len(b.batch) || len(a.ghost) != len(b.ghost) {
		return false
	}
	for i := range a.batch {
		if a.batch[i] != b.batch[i] {
			return false
		}
	}
	for i := range a.calls {
		if !sameCall(a.calls[i], b.calls[i]) {
			return false
		}
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return false
		}
	}
	for k, v := range b.locks {
		if a.locks[k] != v {
			return false
		}
	}
	if len(fa.defers) != len(fb.defers) {
		return false
	}
	mark := e.c.fresh
	var eqs [][3]*Term
	undo := func() bool { e.c.fresh = mark; return false }
	regs := map[ssa.Value]Value{}
	var rs []ssa.Value
	for k := range fa.regs {
		rs = append(rs, k)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
	for _, k := range rs {
		w, ok := fb.regs[k]
		if !ok {
			continue
		}
		v, ok := e.joinVal(fa.regs[k], w, &eqs)
		if !ok {
			return undo()
		}
		regs[k] = v
	}
	objs := map[int]Value{}
	var ids []int
	for k := range a.objs {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		w, ok := b.objs[k]
		if !ok {
			continue
		}
		v, ok := e.joinVal(a.objs[k], w, &eqs)
		if !ok {
			return undo()
		}
		objs[k] = v
	}
	ghost := map[string]*Term{}
	var gs []string
	for k := range a.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		w, ok := b.ghost[k]
		if !ok {
			return undo()
		}
		v, ok := e.joinVal(a.ghost[k], w, &eqs)
		if !ok {
			return undo()
		}
		ghost[k] = v.(*Term)
	}
	for k := range b.wrote {
		if !a.wrote[k] {
			e.markWrote(a, k)
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	inB := map[*Term]bool{}
	for _, t := range b.pc[n:] {
		inB[t] = true
	}
	var common, ra, rb []*Term
	inC := map[*Term]bool{}
	for _, t := range a.pc[n:] {
		if inB[t] {
			common = append(common, t)
			inC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc[n:] {
		if !inC[t] {
			rb = append(rb, t)
		}
	}
	for _, q := range eqs {
		ra = append(ra, e.c.Eq(q[0], q[1]))
		rb = append(rb, e.c.Eq(q[0], q[2]))
	}
	pc := append(append([]*Term{}, a.pc[:n]...), common...)
	if d := e.c.Or(e.c.And(ra...), e.c.And(rb...)); d != e.c.True {
		pc = append(pc, d)
	}
	a.pc, a.objs, a.ghost = pc, objs, ghost
	fa.regs = regs
	return true
}

func sameCall(a, b CallRec) bool {
	if a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Res) != len(b.Res) {
		return false
	}
	for i := range a.Args {
		if !sameVal(a.Args[i], b.Args[i]) {
			return false
		}
	}
	for i := range a.Res {
		if !sameVal(a.Res[i], b.Res[i]) {
			return false
		}
	}
	return true
}

// edge is a pending block entry.
type edges map[*ssa.BasicBlock][]*PS

// runRegion executes blocks of region starting at entry; edges leaving the
// region or going back to entry are returned.
func (e *Exec) runRegion(entry *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, start []*PS, isLoop bool) (out edges, rets []Ret) {
	out = edges{}
	pend := edges{entry: start}
	fi := e.info(entry.Parent())
	first := true
	for _, b := range fi.rpo {
		if region != nil && !region[b] {
			continue
		}
		ps := pend[b]
		if len(ps) == 0 {
			continue
		}
		delete(pend, b)
		ps = e.merge(ps, b)
		var next edges
		var rs []Ret
		if body := fi.loops[b]; body != nil && !(isLoop && b == entry && first) {
			next, rs = e.execLoop(b, body, ps)
		} else {
			next = edges{}
			for _, p := range ps {
				n, r := e.execBlock(p, b)
				for k, v := range n {
					next[k] = append(next[k], v...)
				}
				rs = append(rs, r...)
			}
		}
		first = false
		rets = append(rets, rs...)
		var tg []*ssa.BasicBlock
		for t := range next {
			tg = append(tg, t)
		}
		sort.Slice(tg, func(i, j int) bool { return tg[i].Index < tg[j].Index })
		for _, t := range tg {
			if region != nil && !region[t] || isLoop && t == entry {
				out[t] = append(out[t], next[t]...)
			} else {
				pend[t] = append(pend[t], next[t]...)
			}
		}
	}
	for b, ps := range pend {
		if len(ps) > 0 {
			e.fail("irreducible control flow at block %d", b.Index)
		}
	}
	return out, rets
}

func (e *Exec) execFunc(st *State, fn *ssa.Function, args []Value, free []Value) []Ret {
	if fn.Blocks == nil {
		e.fail("no body for %s", fn)
	}
	if len(e.stack) > 40 {
		e.fail("inlining too deep")
	}
	for _, f := range e.stack {
		if f.fn == fn && fn.Parent() == nil && len(e.stack) > 0 {
			n := 0
			for _, g := range e.stack {
				if g.fn == fn {
					n++
				}
			}
			if n > 2 {
				e.fail("recursive call of %s", shortName(fn))
			}
		}
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, free: free, info: e.info(fn), base: e.nextObj}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	e.stack = append(e.stack, fr)
	savePos := e.curPos
	_, rets := e.runRegion(fn.Blocks[0], nil, []*PS{{st: st, fr: fr}}, false)
	e.stack = e.stack[:len(e.stack)-1]
	e.curPos = savePos
	// garbage collect and merge
	var out []Ret
	for _, r := range rets {
		if r.st.dead {
			continue
		}
		e.gc(r.st, r.val, fr.base)
		done := false
		for i := range out {
			if sameVal(out[i].val, r.val) && e.tryMerge(out[i].st, r.st, nil, nil) {
				done = true
				break
			}
		}
		if !done {
			out = append(out, r)
		}
	}
	return out
}

func (e *Exec) gc(st *State, ret Value, base int) {
	live := map[int]bool{}
	var mark func(v Value)
	var markObj func(id int)
	mark = func(v Value) {
		switch x := v.(type) {
		case *PtrV:
			markObj(x.Obj)
		case *MapV:
			markObj(x.Obj)
		case *StructV:
			for _, f := range x.F {
				mark(f)
			}
		case *ArrV:
			for _, f := range x.E {
				mark(f)
			}
		case *ClosV:
			for _, f := range x.Bind {
				mark(f)
			}
		case *IfaceV:
			mark(x.V)
		case TupleV:
			for _, f := range x {
				mark(f)
			}
		case *OpaqueV:
			for _, f := range x.Arg {
				mark(f)
			}
		case *SliceRef:
			if x.From != nil {
				markObj(x.From.Obj)
			}
			if x.Arr != nil {
				markObj(x.Arr.Obj)
			}
		case *IterV:
			markObj(x.Id)
		}
	}
	markObj = func(id int) {
		if id > base && !live[id] {
			live[id] = true
			mark(st.objs[id])
		}
	}
	mark(ret)
	for _, r := range st.calls {
		for _, v := range r.Args {
			mark(v)
		}
		for _, v := range r.Res {
			mark(v)
		}
	}
	for id, v := range st.objs {
		if id <= base {
			mark(v)
		}
	}
	for id := range st.objs {
		if id > base && !live[id] && st.locks[id] == 0 {
			delete(st.objs, id)
		}
	}
}

func (e *Exec) val(p *PS, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &ClosV{Fn: x}
	case *ssa.Global:
		return &PtrV{Obj: e.global(p.st, x)}
	case *ssa.FreeVar:
		for i, f := range p.fr.fn.FreeVars {
			if f == x {
				return p.fr.free[i]
			}
		}
	case *ssa.Builtin:
		return &OpaqueV{Tag: "builtin_" + x.Name()}
	}
	r, ok := p.fr.regs[v]
	if !ok {
		e.fail("undefined register %s", v.Name())
	}
	return r
}

// phis gives the phis of a block their values, once for each arrival.
func (e *Exec) phis(p *PS, b *ssa.BasicBlock) {
	if p.pred == nil {
		return
	}
	vals := map[ssa.Value]Value{}
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, q := range b.Preds {
			if q == p.pred {
				vals[ph] = e.val(p, ph.Edges[i])
			}
		}
	}
	for k, v := range vals {
		p.fr.regs[k] = v
	}
	if len(vals) > 0 {
		p.pred = nil
	}
}

// execBlock runs one block, forking at calls.
func (e *Exec) execBlock(p *PS, b *ssa.BasicBlock) (edges, []Ret) {
	out := edges{}
	var rets []Ret
	e.phis(p, b)
	type item struct {
		p *PS
		i int
	}
	work := []item{{p, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		p := it.p
		i := it.i
	loop:
		for ; i < len(b.Instrs); i++ {
			if p.st.dead {
				break
			}
			ins := b.Instrs[i]
			if q := ins.Pos(); q.IsValid() {
				e.curPos = q
			}
			e.nSteps++
			if e.nSteps > 2000000 {
				e.fail("too many steps")
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				cv := e.decide(p.st, e.val(p, x.Cond).(*Term))
				q := p.clone()
				p.pred, q.pred = b, b
				if p.st.assume(e.c, cv) {
					out[b.Succs[0]] = append(out[b.Succs[0]], p)
				}
				if q.st.assume(e.c, e.c.Not(cv)) {
					out[b.Succs[1]] = append(out[b.Succs[1]], q)
				}
				break loop
			case *ssa.Jump:
				p.pred = b
				out[b.Succs[0]] = append(out[b.Succs[0]], p)
				break loop
			case *ssa.Return:
				var v Value
				if len(x.Results) == 1 {
					v = e.val(p, x.Results[0])
				} else if len(x.Results) > 1 {
					var t TupleV
					for _, r := range x.Results {
						t = append(t, e.val(p, r))
					}
					v = t
				}
				rets = append(rets, Ret{p.st, v})
				break loop
			case *ssa.Panic:
				e.check(p.st, e.c.False, "panic", "explicit panic reachable")
				p.st.dead = true
				break loop
			case *ssa.RunDefers:
				if len(p.fr.defers) > 0 {
					d := p.fr.defers[len(p.fr.defers)-1]
					p.fr.defers = p.fr.defers[:len(p.fr.defers)-1]
					rs := e.call(p, d.call, d.fn, d.args)
					for k := len(rs) - 1; k >= 0; k-- {
						q := p
						if k > 0 {
							q = &PS{rs[k].st, p.fr.clone(), p.pred}
						} else {
							q.st = rs[k].st
						}
						work = append(work, item{q, i}) // run again until empty
					}
					break loop
				}
			case *ssa.Defer:
				fv, args := e.callArgs(p, &x.Call)
				p.fr.defers = append(p.fr.defers[:len(p.fr.defers):len(p.fr.defers)], deferred{&x.Call, fv, args, x.Pos()})
			case *ssa.Call:
				fv, args := e.callArgs(p, &x.Call)
				rs := e.call(p, &x.Call, fv, args)
				if len(rs) == 0 {
					p.st.dead = true
					break loop
				}
				if len(rs) == 1 {
					p.st = rs[0].st
					p.fr.regs[x] = rs[0].val
					continue
				}
				for k := len(rs) - 1; k >= 0; k-- {
					q := &PS{rs[k].st, p.fr.clone(), p.pred}
					q.fr.regs[x] = rs[k].val
					work = append(work, item{q, i + 1})
				}
				break loop
			default:
				e.instr(p, ins)
			}
		}
	}
	return out, rets
}

func (e *Exec) instr(p *PS, ins ssa.Instruction) {
	c := e.c
	st := p.st
	set := func(v ssa.Value, r Value) { p.fr.regs[v] = r }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		if isBatch(t) {
			set(x, e.newBatch(st, t))
			return
		}
		if old, ok := p.fr.regs[x].(*PtrV); ok && !x.Heap {
			st.objs[old.Obj] = e.zero(t)
			return
		}
		set(x, &PtrV{Obj: e.newObj(st, t, e.zero(t))})
	case *ssa.Store:
		e.store(st, e.val(p, x.Addr), e.val(p, x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(x, e.load(st, e.val(p, x.X), e.nameOf(x.X)))
		case token.NOT:
			set(x, c.Not(e.val(p, x.X).(*Term)))
		case token.SUB:
			set(x, c.Sub(c.IntLit(0), e.val(p, x.X).(*Term)))
		default:
			e.fail("operator %s", x.Op)
		}
	case *ssa.BinOp:
		set(x, e.binop(st, x.Op, e.val(p, x.X), e.val(p, x.Y), x.X.Type(), x))
	case *ssa.FieldAddr:
		set(x, e.fieldAddr(st, e.val(p, x.X), x.Field, e.nameOf(x.X)))
	case *ssa.Field:
		v := e.getPath(st, e.val(p, x.X), x.X.Type(), []PathElem{{F: x.Field}})
		if tm, ok := v.(*Term); ok {
			v = e.wrap(st, tm, x.Type())
		}
		set(x, v)
	case *ssa.IndexAddr:
		set(x, e.indexAddr(st, e.val(p, x.X), e.val(p, x.Index).(*Term), x.X.Type(), x))
	case *ssa.Index:
		xv := e.val(p, x.X)
		i := e.val(p, x.Index).(*Term)
		switch a := xv.(type) {
		case *ArrV:
			set(x, e.getPath(st, a, x.X.Type(), []PathElem{{Idx: i}}))
		case *Term:
			if a.Sort == c.Str {
				e.check(st, c.And(c.Le(c.IntLit(0), i), c.Lt(i, e.strLen(a))), "index", "string index in range")
				set(x, c.Fn("strat", c.Int, a, i))
			} else {
				set(x, e.wrap(st, c.SeqAt(a, i), x.Type()))
			}
		default:
			e.fail("index of %T", xv)
		}
	case *ssa.Slice:
		set(x, e.slice(p, x))
	case *ssa.MakeSlice:
		n := e.val(p, x.Len).(*Term)
		if isByteSlice(x.Type()) {
			set(x, c.Fn("zeros", c.Str, n))
			set(x, &OpaqueV{T: x.Type(), Tag: "bytesbuf"})
			id := e.newObj(st, x.Type(), c.Fn("zeros", c.Str, n))
			set(x, &SliceRef{T: c.Fn("zeros", c.Str, n), From: &PtrV{Obj: id}})
			return
		}
		so := c.types.SortOf(x.Type())
		if n.Op == "int" && n.N == 0 {
			r := c.Fresh("empty", so)
			st.assume(c, c.Eq(c.SeqLen(r), c.IntLit(0)))
			st.assume(c, c.Not(c.Fn(c.sf(so, "isnil"), c.Bool, r)))
			set(x, r)
			return
		}
		r := c.Fresh("mkslice", so)
		st.assume(c, c.Eq(c.SeqLen(r), n))
		i := c.BVar("i", c.Int)
		if z, ok := pure(e.zero(x.Type().Underlying().(*types.Slice).Elem())); ok {
			at := c.SeqAt(r, i)
			st.assume(c, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.IntLit(0), i), c.Lt(i, n)), c.Eq(at, z)), []*Term{at}))
		}
		set(x, &SliceRef{T: r, From: &PtrV{Obj: e.newObj(st, x.Type(), r)}})
	case *ssa.MakeMap:
		if e.ignoredMap(x.Type()) {
			set(x, &MapV{Obj: -1})
			return
		}
		so := c.types.SortOf(x.Type())
		set(x, &MapV{Obj: e.newObj(st, x.Type(), c.ConstArr(so, c.None(so.Rng)))})
	case *ssa.MapUpdate:
		m, ok := e.val(p, x.Map).(*MapV)
		if !ok {
			e.fail("map update of %T", e.val(p, x.Map))
		}
		if m.Obj < 0 {
			return
		}
		e.guardMap(st, m)
		e.check(st, c.BoolLit(m.Obj != 0), "nil-map", "assignment to entry of nil map")
		mt := x.Map.Type().Underlying().(*types.Map)
		cur := st.objs[m.Obj].(*Term)
		k := e.toTerm(st, e.val(p, x.Key), mt.Key())
		v := e.toTerm(st, e.val(p, x.Value), mt.Elem())
		st.objs[m.Obj] = c.Store(cur, k, c.Some(v))
	case *ssa.Lookup:
		xv := e.val(p, x.X)
		if m, ok := xv.(*MapV); ok {
			mt := x.X.Type().Underlying().(*types.Map)
			if m.Obj < 0 {
				e.fail("lookup in ignored map")
			}
			e.guardMap(st, m)
			var o *Term
			if m.Obj == 0 {
				o = c.None(c.types.SortOf(x.X.Type()).Rng)
			} else {
				k := e.toTerm(st, e.val(p, x.Index), mt.Key())
				o = c.Select(st.objs[m.Obj].(*Term), k)
			}
			z, okz := pure(e.zero(mt.Elem()))
			if !okz {
				e.fail("map of non-pure values")
			}
			var v *Term
			is := c.IsSome(o)
			for _, f := range st.pc {
				if f == is {
					is = c.True
				} else if f == c.Not(is) {
					is = c.False
				}
			}
			if is == c.False {
				v = z
			} else {
				v = c.Ite(is, c.Val(o), z)
			}
			r := e.wrap(st, v, mt.Elem())
			if x.CommaOk {
				set(x, TupleV{r, c.IsSome(o)})
			} else {
				set(x, r)
			}
			return
		}
		if t, ok := xv.(*Term); ok && t.Sort == c.Str {
			i := e.val(p, x.Index).(*Term)
			e.check(st, c.And(c.Le(c.IntLit(0), i), c.Lt(i, e.strLen(t))), "index", "string index in range")
			set(x, c.Fn("strat", c.Int, t, i))
			return
		}
		e.fail("lookup in %T", xv)
	case *ssa.Extract:
		t, ok := e.val(p, x.Tuple).(TupleV)
		if !ok {
			e.fail("extract from %T", e.val(p, x.Tuple))
		}
		set(x, t[x.Index])
	case *ssa.ChangeType:
		set(x, e.val(p, x.X))
	case *ssa.Convert:
		set(x, e.convert(st, e.val(p, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		set(x, e.val(p, x.X))
	case *ssa.MakeInterface:
		v := e.val(p, x.X)
		if _, ok := v.(*DBV); ok {
			set(x, v)
			return
		}
		set(x, &IfaceV{Dyn: x.X.Type(), V: v})
	case *ssa.MakeChan:
		set(x, &OpaqueV{T: x.Type(), Tag: "chan"})
	case *ssa.MakeClosure:
		cl := &ClosV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.Bind = append(cl.Bind, e.val(p, b))
		}
		set(x, cl)
	case *ssa.TypeAssert:
		e.typeAssert(p, x)
	case *ssa.Range:
		e.rangeInit(p, x)
	case *ssa.Next:
		e.rangeNext(p, x)
	default:
		e.fail("instruction %T (%s)", ins, ins)
	}
}

func (e *Exec) nameOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return "*" + e.nameOf(x.X)
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		return e.nameOf(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return x.Name()
	}
	return "value"
}

func (e *Exec) fieldAddr(st *State, b Value, f int, what string) Value {
	switch x := b.(type) {
	case *PtrV:
		// follow: pointer stored in object is handled by load
		return &PtrV{Obj: x.Obj, Path: append(x.Path[:len(x.Path):len(x.Path)], PathElem{F: f})}
	case *SnapV:
		e.nonNil(st, x, what)
		return &SnapV{T: x.T, Elem: x.Elem, Path: append(x.Path[:len(x.Path):len(x.Path)], PathElem{F: f})}
	}
	e.fail("field address of %T (%s)", b, what)
	return nil
}

func (e *Exec) indexAddr(st *State, b Value, i *Term, t types.Type, ins *ssa.IndexAddr) Value {
	c := e.c
	switch x := b.(type) {
	case *PtrV: // pointer to array
		n := deref(t).Underlying().(*types.Array).Len()
		e.check(st, c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.IntLit(n))), "index", "array index in range")
		pe := PathElem{Idx: i}
		return &PtrV{Obj: x.Obj, Path: append(x.Path[:len(x.Path):len(x.Path)], pe)}
	case *SliceRef:
		if x.Arr != nil {
			a := st.objs[x.Arr.Obj].(*ArrV)
			e.check(st, c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.IntLit(int64(len(a.E))))), "index", "slice index in range")
			return &PtrV{Obj: x.Arr.Obj, Path: []PathElem{{Idx: i}}}
		}
		if isByteSlice(t) {
			e.fail("byte slice element address")
		}
		e.noteIndex(x.T, i)
		g := c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.SeqLen(x.T)))
		e.check(st, g, "index", e.idxName(ins))
		st.assume(c, g)
		if x.From != nil && e.current(st, x) {
			return &PtrV{Obj: x.From.Obj, Path: append(x.From.Path[:len(x.From.Path):len(x.From.Path)], PathElem{Idx: i})}
		}
		id := e.newObj(st, t, x.T)
		if x.From != nil {
			if e.elemSet[x.From.Obj] {
				e.fail("slice read after its elements were assigned through another variable")
			}
		}
		e.readOnly[id] = true // whoever shares the array would not see a write
		return &PtrV{Obj: id, Path: []PathElem{{Idx: i}}}
	case *Term:
		if x.Sort.Kind != KSeq {
			e.fail("index address into %s", x.Sort.Name)
		}
		e.noteIndex(x, i)
		g := c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.SeqLen(x)))
		e.check(st, g, "index", e.idxName(ins))
		st.assume(c, g)
		id := e.newObj(st, t, x)
		e.readOnly[id] = true
		return &PtrV{Obj: id, Path: []PathElem{{Idx: i}}}
	}
	e.fail("index address of %T", b)
	return nil
}

// current reports that the variable a slice was read from still holds it.
func (e *Exec) current(st *State, x *SliceRef) bool {
	v := st.objs[x.From.Obj]
	if v == nil {
		return false
	}
	w := e.getPath(st, v, e.objType[x.From.Obj], x.From.Path)
	if y, ok := w.(*SliceRef); ok {
		w = y.T
	}
	y, ok := w.(*Term)
	// also when only elements were assigned since: it is the same array
	for ok && y != nil && y != x.T && y.Op == "app" && (y.Name == e.c.sf(y.Sort, "upd") || y.Name == e.c.sf(y.Sort, "swap")) && y.Sort.Kind == KSeq {
		y = y.Args[0]
	}
	return ok && y == x.T
}

func (e *Exec) idxName(ins *ssa.IndexAddr) string {
	return "index of " + e.nameOf(ins.X) + " in range"
}

// emptyFact: only the empty string has length 0 (stated where the code takes a length).
func (e *Exec) emptyFact(st *State, t *Term) {
	c := e.c
	if _, ok := c.strVal[t]; !ok {
		st.assume(c, c.Eq(c.Le(e.strLen(t), c.IntLit(0)), c.Eq(t, c.StrLit(""))))
	}
}

func (e *Exec) strLen(t *Term) *Term {
	if v, ok := e.c.strVal[t]; ok {
		return e.c.IntLit(int64(len(v)))
	}
	return e.c.Fn("strlen", e.c.Int, t)
}

func (e *Exec) isNilVal(st *State, v Value) *Term {
	c := e.c
	switch x := v.(type) {
	case *SnapV:
		if len(x.Path) > 0 {
			return c.False
		}
		return c.Not(c.IsSome(x.T))
	case *PtrV, *ClosV, *IfaceV, *DBV:
		return c.False
	case *OpaqueV:
		if x.Tag == "nil" {
			return c.True
		}
		if x.Tag == "file" || x.Tag == "stat" || x.Tag == "sha1" || x.Tag == "sha256" {
			return c.False
		}
		return c.Fn("isnil_"+sane(x.Tag), c.Bool)
	case *MapV:
		return c.BoolLit(x.Obj == 0)
	case *SliceRef:
		if x.T != nil {
			return e.isNilVal(st, x.T)
		}
		return c.False
	case *Term:
		switch {
		case x.Sort == c.Err:
			return c.Eq(x, e.errNil())
		case x.Sort.Kind == KSeq:
			if x == c.SeqNil(x.Sort) {
				return c.True
			}
			if x.Op == "app" && x.Name == c.sf(x.Sort, "app") {
				return c.False
			}
			return c.Fn(c.sf(x.Sort, "isnil"), c.Bool, x)
		case x.Sort == c.Str:
			return c.Fn("bytesnil", c.Bool, x)
		case x.Sort.Kind == KOpt:
			return c.Not(c.IsSome(x))
		case x.Sort.Kind == KUnint:
			return c.Eq(x, c.Const("nil_"+x.Sort.Name, x.Sort))
		}
	}
	e.fail("nil comparison of %T", v)
	return nil
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (e *Exec) binop(st *State, op token.Token, a, b Value, t types.Type, ins *ssa.BinOp) Value {
	c := e.c
	if op == token.EQL || op == token.NEQ {
		var r *Term
		switch {
		case isNilConst(ins.Y) && !isErrorType(t):
			r = e.isNilVal(st, a)
		case isNilConst(ins.X) && !isErrorType(t):
			r = e.isNilVal(st, b)
		default:
			r = e.equal(st, a, b, t, ins.Y.Type())
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		e.fail("operator %s on %T and %T", op, a, b)
	}
	isStr := x.Sort == c.Str
	bt, _ := t.Underlying().(*types.Basic)
	uns := bt != nil && bt.Info()&types.IsUnsigned != 0
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	switch op {
	case token.ADD:
		if isStr {
			return e.concat(x, y)
		}
		if isInt {
			return c.Add(x, y)
		}
	case token.SUB:
		if isInt {
			if uns {
				e.check(st, c.Le(y, x), "underflow", "unsigned subtraction does not wrap")
				st.assume(c, c.Le(y, x))
			}
			return c.Sub(x, y)
		}
	case token.MUL:
		if isInt {
			return c.Mul(x, y)
		}
	case token.QUO, token.REM:
		if isInt {
			e.check(st, c.Not(c.Eq(y, c.IntLit(0))), "div", "divisor not zero")
			n := "go_div"
			if op == token.REM {
				n = "go_mod"
			}
			return c.Fn(n, c.Int, x, y)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		strict := op == token.LSS || op == token.GTR
		if isStr {
			if strict {
				return c.Not(e.strLe(y, x))
			}
			return e.strLe(x, y)
		}
		if isInt {
			if strict {
				return c.Lt(x, y)
			}
			return c.Le(x, y)
		}
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if isInt {
			return c.Fn("bits_"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op], c.Int, x, y)
		}
	}
	if !isInt && !isStr {
		n := "flt_op_" + op.String()
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			return c.Fn("fltcmp_"+sane(op.String()), c.Bool, x, y)
		}
		return c.Fn(n, x.Sort, x, y)
	}
	e.fail("operator %s on %s", op, t)
	return nil
}

func (e *Exec) strLe(a, b *Term) *Term {
	c := e.c
	if a == b {
		return c.True
	}
	return c.Fn("strle", c.Bool, a, b)
}

func (e *Exec) equal(st *State, a, b Value, t, t2 types.Type) *Term {
	c := e.c
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return c.Eq(x, y)
		}
	}
	pa, ok1 := a.(*PtrV)
	pb, ok2 := b.(*PtrV)
	if ok1 && ok2 {
		return c.BoolLit(pa.Obj == pb.Obj && samePath(pa.Path, pb.Path))
	}
	if isErrorType(t) || isErrorType(t2) {
		return c.Eq(e.toErr(st, a), e.toErr(st, b))
	}
	if isStruct(t) {
		return c.Eq(e.toTerm(st, a, t), e.toTerm(st, b, t))
	}
	sa, ok1 := a.(*SnapV)
	sb, ok2 := b.(*SnapV)
	if ok1 && ok2 && sameVal(sa, sb) {
		return c.True
	}
	if oa, ok := a.(*OpaqueV); ok {
		if ob, ok := b.(*OpaqueV); ok && sameVal(oa, ob) {
			return c.True
		}
	}
	e.unconstr++
	return c.Fresh("cmp", c.Bool)
}

func (e *Exec) errNil() *Term { return e.c.Const("err!nil", e.c.Err) }

// freshErr makes a non-nil error.
func (e *Exec) freshErr(st *State, name string) *Term {
	t := e.c.Fresh("err_"+name, e.c.Err)
	st.assume(e.c, e.c.Not(e.c.Eq(t, e.errNil())))
	return t
}

// libErr is an error of a library, none of the repository's own error values.
func (e *Exec) libErr(st *State, name string) *Term {
	t := e.freshErr(st, name)
	st.assume(e.c, e.c.Eq(e.c.Fn("errkind", e.c.Int, t), e.c.IntLit(0)))
	return t
}

func (e *Exec) toErr(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Sort == e.c.Err {
			return x
		}
	case *IfaceV:
		return e.ifaceErr(st, x)
	case *OpaqueV:
		if x.Tag == "nil" {
			return e.errNil()
		}
	}
	if t, ok := v.(*Term); ok {
		e.fail("not an error: %s %s", t.Sort.Name, e.c.Show(t))
	}
	e.fail("not an error: %T", v)
	return nil
}

func (e *Exec) ifaceErr(st *State, x *IfaceV) *Term {
	in := e.toTerm(st, x.V, x.Dyn)
	t := e.c.Fn("errof_"+sane(in.Sort.Name), e.c.Err, in)
	st.assume(e.c, e.c.Not(e.c.Eq(t, e.errNil())))
	return t
}

func (e *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	if isByteSlice(from) || isByteSlice(to) {
		if t, ok := pure(v); ok && t.Sort == c.Str {
			return t
		}
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		t, ok := v.(*Term)
		if !ok {
			e.fail("conversion of %T", v)
		}
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			// machine arithmetic treated as mathematical within the range of the target
			if t.Op == "int" {
				return t
			}
			lo, hi := intRange(tb)
			flo, fhi := intRange(fb)
			if flo >= lo && fhi <= hi {
				return t
			}
			return t
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return c.Fn("runestr", c.Str, t)
		default:
			return c.Fn("conv_"+sane(tb.Name())+"_"+sane(fb.Name()), c.types.SortOf(to), t)
		}
	}
	if t, ok := v.(*Term); ok && t.Sort == c.types.SortOf(to) {
		return t
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if t, ok := v.(*Term); ok {
			return c.Fn("conv_runes", c.types.SortOf(to), t)
		}
	}
	if fb == nil && tb != nil {
		if t, ok := pure(v); ok {
			return c.Fn("conv_str_"+sane(t.Sort.Name), c.types.SortOf(to), t)
		}
	}
	if _, ok := v.(*OpaqueV); ok {
		return v
	}
	e.fail("conversion from %s to %s", from, to)
	return nil
}

func intRange(b *types.Basic) (float64, float64) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -2147483648, 2147483647
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 4294967295
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 18446744073709551615
	}
	return -9223372036854775808, 9223372036854775807
}

func (e *Exec) slice(p *PS, x *ssa.Slice) Value {
	c := e.c
	st := p.st
	b := e.val(p, x.X)
	idx := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(p, v).(*Term)
	}
	lo, hi := idx(x.Low), idx(x.High)
	if pv, ok := b.(*PtrV); ok {
		a, ok := e.load(st, pv, "").(*ArrV)
		if !ok {
			if t, ok := e.load(st, pv, "").(*Term); ok && lo == nil && hi == nil {
				return t
			}
			e.fail("slice of pointer to %T", e.load(st, pv, ""))
		}
		if len(pv.Path) == 0 && (lo == nil || lo.Op == "int" && lo.N == 0) && (hi == nil || hi.Op == "int" && int(hi.N) == len(a.E)) {
			if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				al, ok := x.X.(*ssa.Alloc)
				if !ok || al.Comment != "makeslice" {
					e.fail("slice of byte array")
				}
				// make([]byte, n): the array is used for nothing else
				z := c.Fn("zeros", c.Str, c.IntLit(int64(len(a.E))))
				return &SliceRef{T: z, From: &PtrV{Obj: e.newObj(st, x.Type(), z)}}
			}
			return &SliceRef{Arr: &ArrRef{Obj: pv.Obj}}
		}
		e.fail("partial slice of array")
	}
	t, ok := pure(b)
	if !ok {
		if sr, ok := b.(*SliceRef); ok && sr.Arr != nil {
			t = e.toTerm(st, sr, x.X.Type())
		} else {
			e.fail("slice of %T", b)
		}
	}
	if lo == nil {
		lo = c.IntLit(0)
	}
	if t.Sort == c.Str {
		full := hi == nil
		if full {
			hi = e.strLen(t)
		}
		if full && lo.Op == "int" && lo.N == 0 {
			return t
		}
		g := c.And(c.Le(c.IntLit(0), lo), c.Le(lo, hi), c.Le(hi, e.strLen(t)))
		e.check(st, g, "slice", "string slice bounds")
		st.assume(c, g)
		return e.substr(t, lo, hi)
	}
	if hi == nil {
		hi = c.SeqLen(t)
	}
	// capacity is not modelled: slicing within the length only
	g := c.And(c.Le(c.IntLit(0), lo), c.Le(lo, hi), c.Le(hi, c.SeqLen(t)))
	e.check(st, g, "slice", "slice bounds of "+e.nameOf(x.X))
	st.assume(c, g)
	return c.SeqSub(t, lo, hi)
}

func (e *Exec) substr(t, lo, hi *Term) *Term {
	c := e.c
	if v, ok := c.strVal[t]; ok && lo.Op == "int" && hi.Op == "int" && lo.N >= 0 && hi.N <= int64(len(v)) && lo.N <= hi.N {
		return c.StrLit(v[lo.N:hi.N])
	}
	return c.Fn("substr", c.Str, t, lo, hi)
}

func (e *Exec) ignoredMap(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "github.com/sirupsen/logrus.Fields"
}

func (e *Exec) typeAssert(p *PS, x *ssa.TypeAssert) {
	v := e.val(p, x.X)
	c := e.c
	okT := c.False
	var r Value
	switch iv := v.(type) {
	case *IfaceV:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok := types.Implements(iv.Dyn, x.AssertedType.Underlying().(*types.Interface))
			okT = c.BoolLit(ok)
			r = iv
		} else {
			okT = c.BoolLit(types.Identical(iv.Dyn, x.AssertedType))
			r = iv.V
		}
		if okT == c.False {
			r = e.zero(x.AssertedType)
		}
	default:
		okT = c.Fresh("isType", c.Bool)
		r = e.symbolic(p.st, "assert", x.AssertedType, nil, 1)
	}
	if x.CommaOk {
		p.fr.regs[x] = TupleV{r, okT}
		return
	}
	e.check(p.st, okT, "type-assert", "type assertion holds")
	p.fr.regs[x] = r
}

func (e *Exec) rangeInit(p *PS, x *ssa.Range) {
	c := e.c
	st := p.st
	switch m := e.val(p, x.X).(type) {
	case *MapV:
		if m.Obj <= 0 {
			if m.Obj < 0 {
				e.fail("range over ignored map")
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		ks := c.types.SortOf(mt.Key())
		var arr *Term
		if m.Obj == 0 {
			so := c.types.SortOf(x.X.Type())
			arr = c.ConstArr(so, c.None(so.Rng))
		} else {
			arr = st.objs[m.Obj].(*Term)
		}
		keys := c.Fresh("mapkeys", c.seqSort(ks))
		k := c.BVar("k", ks)
		mem := c.SeqMem(k, keys)
		st.assume(c, c.SeqDist(keys))
		st.assume(c, c.Forall([]*Term{k}, c.Eq(mem, c.IsSome(c.Select(arr, k))), []*Term{mem}, []*Term{c.Select(arr, k)}))
		id := e.newObj(st, types.Typ[types.Int], c.IntLit(0))
		p.fr.regs[x] = &IterV{M: m, Id: id, Keys: keys}
		return
	}
	e.fail("range over %T", e.val(p, x.X))
}

func (e *Exec) rangeNext(p *PS, x *ssa.Next) {
	c := e.c
	st := p.st
	it, ok := e.val(p, x.Iter).(*IterV)
	if !ok || x.IsString {
		e.fail("string iteration")
	}
	i := st.objs[it.Id].(*Term)
	e.noteIndex(it.Keys, i)
	more := c.Lt(i, c.SeqLen(it.Keys))
	k := c.SeqAt(it.Keys, i)
	var v Value
	tup := x.Type().(*types.Tuple)
	if m, ok := it.M.(*MapV); ok && m.Obj > 0 {
		e.guardMap(st, m)
		arr := st.objs[m.Obj].(*Term)
		if vt := tup.At(2).Type(); vt != types.Typ[types.Invalid] {
			v = e.wrap(st, c.Val(c.Select(arr, k)), vt)
		}
	}
	st.objs[it.Id] = c.Add(i, c.IntLit(1))
	var kv Value = k
	if kt := tup.At(1).Type(); kt != types.Typ[types.Invalid] {
		kv = e.wrap(st, k, kt)
	}
	p.fr.regs[x] = TupleV{more, kv, v}
}

// decide asks the solver whether a condition is settled by what is known on this path.
func (e *Exec) decide(st *State, cv *Term) *Term {
	c := e.c
	if e.spec == nil || !e.spec.Decide || e.dry > 0 || cv == c.True || cv == c.False {
		return cv
	}
	facts := append(append([]*Term{}, e.facts...), st.pc...)
	var yes, no bool
	qy, qn := c.Query(facts, cv), c.Query(facts, c.Not(cv))
	done := make(chan bool)
	go func() { yes = quickQ(qy); close(done) }()
	no = quickQ(qn)
	<-done
	switch {
	case yes:
		return c.True
	case no:
		return c.False
	}
	return cv
}
