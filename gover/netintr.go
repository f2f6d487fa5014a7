package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Requests: what a JSON body decodes to is unknown but fixed per request type; responses are
// recorded in the ghost call log.

func (e *Exec) jsonReq(t types.Type) *Term {
	so := e.c.types.SortOf(t)
	return e.c.Const("jsonreq_"+sane(so.Name), so)
}

func (e *Exec) record(st *State, name string, args ...Value) {
	st.calls = append(st.calls[:len(st.calls):len(st.calls)], CallRec{Name: name, Args: args})
}

func init() {
	I := intrinsics
	I["(github.com/julienschmidt/httprouter.Params).ByName"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("urlparam", e.c.Str, e.str(args[1])))
	}
	I["encoding/json.NewDecoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "jsondec"})
	}
	I["(*encoding/json.Decoder).Decode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		dst := args[1]
		if iv, ok := dst.(*IfaceV); ok {
			dst = iv.V
		}
		pv, ok := dst.(*PtrV)
		if !ok {
			e.fail("json decode into %T", dst)
		}
		t := typeAt(e.objType[pv.Obj], pv.Path)
		bad := st.clone()
		e.store(st, pv, e.wrap(st, e.jsonReq(t), t))
		e.store(bad, pv, e.wrap(bad, e.c.Fresh("jsonpart", e.c.types.SortOf(t)), t))
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "json")}}
	}
	I["encoding/json.NewEncoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "jsonenc"})
	}
	I["(*encoding/json.Encoder).Encode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		bad := st.clone()
		return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "json")}}
	}
	I["net/http.Error"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		e.record(st, "http.Error", args[2])
		return one(st, nil)
	}
	ifaceIntr["http.ResponseWriter.WriteHeader"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		e.record(st, "http.WriteHeader", args[1])
		return one(st, nil)
	}
	ifaceIntr["http.ResponseWriter.Write"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, TupleV{e.c.Fresh("wrote", e.c.Int), e.c.Fresh("werr", e.c.Err)})
	}
	I["(*bytes.Buffer).Bytes"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fresh("buf", e.c.Str))
	}
	// characters
	I["unicode/utf8.FullRune"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fn("fullrune", e.c.Bool, e.str(args[0])))
	}
	I["unicode/utf8.DecodeRune"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		b := e.str(args[0])
		return one(st, TupleV{e.c.Fn("runeof", e.c.Int, b), e.c.Fn("runelen", e.c.Int, b)})
	}
	I["unicode/utf8.DecodeRuneInString"] = I["unicode/utf8.DecodeRune"]
	I["unicode/utf8.FullRuneInString"] = I["unicode/utf8.FullRune"]
	I["unicode/utf8.AppendRune"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.concat(e.str(args[0]), e.c.Fn("utf8enc", e.c.Str, args[1].(*Term))))
	}
	alias := map[string]string{"S": "Symbol", "C": "Other", "Z": "Space"}
	inTable := func(e *Exec, r *Term, g string) *Term {
		g = strings.TrimPrefix(g, "unicode.")
		if a := alias[g]; a != "" {
			g = a
		}
		return e.c.Fn("unicodein", e.c.Bool, r, e.c.StrLit(g))
	}
	I["unicode.In"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		sr, ok := args[1].(*SliceRef)
		if !ok || sr.Arr == nil {
			e.fail("unicode.In of %T", args[1])
		}
		or := []*Term{}
		for _, x := range st.objs[sr.Arr.Obj].(*ArrV).E {
			or = append(or, inTable(e, args[0].(*Term), rangeTable(e, x)))
		}
		return one(st, e.c.Or(or...))
	}
	I["unicode.Is"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, inTable(e, args[1].(*Term), rangeTable(e, args[0])))
	}
	I["unicode.IsSymbol"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, inTable(e, args[0].(*Term), "Symbol"))
	}
	I["runtime.Caller"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		c := e.c
		return one(st, TupleV{c.Fresh("pc", c.Int), c.Fresh("file", c.Str), c.Fresh("line", c.Int), c.Fresh("okc", c.Bool)})
	}
	I["runtime.FuncForPC"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		t := resT(fn, 0)
		return one(st, e.wrap(st, e.c.Fresh("func", e.c.types.SortOf(t)), t))
	}
	I["(*runtime.Func).Name"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, e.c.Fresh("fname", e.c.Str))
	}
}

// rangeTable names the table of characters a value stands for.
func rangeTable(e *Exec, v Value) string {
	if o, ok := v.(*OpaqueV); ok && strings.HasPrefix(o.Tag, "global:unicode.") {
		return o.Tag[7:]
	}
	e.fail("range table %T", v)
	return ""
}
