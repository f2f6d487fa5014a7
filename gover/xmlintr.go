package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// encoding/xml: decoding is an unknown function of the document, which may fail.

func (e *Exec) xmlDec(t types.Type, data *Term) *Term {
	so := e.c.types.SortOf(t)
	return e.c.Fn("xmldec_"+sane(so.Name), so, data)
}

// readAllOf gives what a reader still has to give.
func (e *Exec) readerData(st *State, v Value) *Term {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	if o, ok := v.(*OpaqueV); ok && o.Tag == "file" {
		_, ino, pos := e.file(o)
		return e.rest(st, ino, pos)
	}
	if o, ok := v.(*OpaqueV); ok && o.Tag == "reader" {
		return o.Arg[0].(*Term)
	}
	e.fail("reader is %T", v)
	return nil
}

func (e *Exec) isZero(st *State, v Value, t types.Type) bool {
	z := e.toTerm(st, e.zero(t), t)
	return e.toTerm(st, v, t) == z
}

func init() {
	I := intrinsics
	I["encoding/xml.NewDecoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		d := &OpaqueV{T: resT(fn, 0), Tag: "xmldec", Arg: []Value{e.readerData(st, args[0])}}
		v := args[0]
		if iv, ok := v.(*IfaceV); ok {
			v = iv.V
		}
		if o, ok := v.(*OpaqueV); ok && o.Tag == "file" && isDirIno(o.Arg[1].(*Term)) {
			d.Arg = append(d.Arg, e.c.True)
		}
		return one(st, d)
	}
	I["(*encoding/xml.Decoder).Decode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		o, ok := args[0].(*OpaqueV)
		if !ok || o.Tag != "xmldec" {
			e.fail("decoder is %T", args[0])
		}
		rs := e.xmlInto(st, o.Arg[0].(*Term), args[1])
		if len(o.Arg) > 1 {
			rs = rs[1:]
		}
		return rs
	}
	I["github.com/BurntSushi/toml.Decode"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		rs := e.docInto(st, "toml", e.str(args[0]), args[1])
		for i := range rs {
			rs[i].val = TupleV{&OpaqueV{T: resT(fn, 0), Tag: "tomlmeta"}, rs[i].val}
		}
		return rs
	}
	I["encoding/xml.Unmarshal"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.xmlInto(st, e.str(args[0]), args[1])
	}
}

// writerFile finds the open file behind a writer, through structures that wrap it.
func (e *Exec) writerFile(st *State, v Value) (ino *Term, pos int, ok bool) {
	if _, ino, ok := e.isFile(v); ok {
		_, _, pos := e.file(v)
		return ino, pos, true
	}
	if iv, is := v.(*IfaceV); is {
		v = iv.V
	}
	if p, is := v.(*PtrV); is {
		v = e.load(st, p, "")
	}
	if s, is := v.(*StructV); is {
		for _, f := range s.F {
			if ino, pos, ok := e.writerFile(st, f); ok {
				return ino, pos, true
			}
		}
	}
	return nil, 0, false
}

// xmlWrite: writing to an encoder changes the file behind it to something
// unknown, and may fail. The encoder reports writing errors at the latest when
// it is flushed, so flushed tells that everything handed to it is in the file.
func (e *Exec) xmlWrite(st *State, enc Value, then func(st *State)) []Ret {
	o, ok := enc.(*OpaqueV)
	if !ok || o.Tag != "xmlenc" {
		e.fail("encoder is %T", enc)
	}
	ino, pos, ok := e.writerFile(st, o.Arg[0])
	if ok && e.fsHas(st) {
		e.fsSetData(st, ino, e.c.Fresh("xml", e.c.Str))
		e.markWrote(st, pos)
		e.durable(st)
	}
	bad := st.clone()
	if then != nil {
		then(st)
	}
	return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, "xmlencode")}}
}

func init() {
	I := intrinsics
	I["encoding/xml.NewEncoder"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, &OpaqueV{T: resT(fn, 0), Tag: "xmlenc", Arg: []Value{args[0]}})
	}
	I["(*encoding/xml.Encoder).Indent"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return one(st, nil)
	}
	I["(*encoding/xml.Encoder).EncodeToken"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.xmlWrite(st, args[0], nil)
	}
	I["(*encoding/xml.Encoder).Flush"] = func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.xmlWrite(st, args[0], func(st *State) {
			if st.ghost["lastIndex"] != nil {
				ino, _, ok := e.writerFile(st, args[0].(*OpaqueV).Arg[0])
				if ok {
					st.ghost["lastIndex"] = e.fsData(st, ino)
				}
			}
		})
	}
	enc := func(e *Exec, p *PS, st *State, fn *ssa.Function, args []Value) []Ret {
		return e.xmlWrite(st, args[0], func(st *State) { e.emit(st, args[1]) })
	}
	I["(*encoding/xml.Encoder).EncodeElement"] = enc
	I["(*encoding/xml.Encoder).Encode"] = enc
}

func fieldIdx(t types.Type, name string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// emit records the package records that go into an index: in order, and by name.
func (e *Exec) emit(st *State, v Value) {
	c := e.c
	list, at := st.ghost["emitted"], st.ghost["emitPos"]
	if list == nil || at == nil {
		return
	}
	var t types.Type
	if iv, ok := v.(*IfaceV); ok {
		v, t = iv.V, iv.Dyn
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if t == nil || shortType(t) != "libeopkg.MetaPackage" {
		return
	}
	if _, ok := v.(*StructV); !ok {
		v = e.load(st, v, "encoded package")
	}
	m := e.toTerm(st, v, t)
	name := c.Sel(m, fieldIdx(t, "Name"))
	st.ghost["emitPos"] = c.Store(at, name, c.Some(c.SeqLen(list)))
	st.ghost["emitted"] = c.SeqApp(list, m)
}

func (e *Exec) xmlInto(st *State, data *Term, dst Value) []Ret {
	return e.docInto(st, "xml", data, dst)
}

// docInto decodes a document into a struct: an unknown function of the document, which may fail.
func (e *Exec) docInto(st *State, kind string, data *Term, dst Value) []Ret {
	c := e.c
	if iv, ok := dst.(*IfaceV); ok {
		dst = iv.V
	}
	pv, ok := dst.(*PtrV)
	if !ok {
		e.fail("xml decode into %T", dst)
	}
	t := typeAt(e.objType[pv.Obj], pv.Path)
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("xml decode into %s", t)
	}
	so := c.types.SortOf(t)
	src := c.Fn(kind+"dec_"+sane(so.Name), so, data)
	bad := st.clone()
	set := func(st *State, f func(i int, old Value) Value) {
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			q := &PtrV{Obj: pv.Obj, Path: append(pv.Path[:len(pv.Path):len(pv.Path)], PathElem{F: i})}
			e.store(st, q, f(i, e.load(st, q, "")))
		}
	}
	set(st, func(i int, old Value) Value {
		ft := u.Field(i).Type()
		if e.isZero(st, old, ft) {
			return e.wrap(st, c.Sel(src, i), ft)
		}
		return e.wrap(st, c.Fresh("xmlmerge", c.types.SortOf(ft)), ft)
	})
	set(bad, func(i int, old Value) Value {
		ft := u.Field(i).Type()
		return e.wrap(bad, c.Fresh("xmlpart", c.types.SortOf(ft)), ft)
	})
	return []Ret{{st, e.errNil()}, {bad, e.libErr(bad, kind)}}
}
