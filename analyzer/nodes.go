package main

import (
	"fmt"
	"go/types"
)

// Abstract syntax nodes: a node whose kind is a constant, whose text and span
// are symbolic, and whose children are listed.

type absNode struct {
	kind  string
	text  *Term // leaf text; nil: symbolic
	kids  []absNode
	inner bool
	id    string
}

func leaf(kind string) absNode                { return absNode{kind: kind} }
func inner(kind string, k ...absNode) absNode { return absNode{kind: kind, kids: k, inner: true} }
func leafText(kind, text string) absNode      { return absNode{kind: kind, text: mkStr(text)} }

// build allocates an abstract node in st and returns the pointer to it. The
// layout of the structures is taken from the program's types.
func (r *Report) build(ip *Interp, st *State, ks *Kinds, n absNode, name string) *Term {
	w := r.w
	sn := w.NamedType(syn, "SyntaxNode")
	mk := func(rel, typ string) *types.Named {
		t := w.NamedType(rel, typ)
		if t == nil {
			r.check(false, "anchor", typ, "-", "type %s not found", typ)
			panic(abort{})
		}
		return t.(*types.Named)
	}
	kind := ks.by[n.kind]
	if kind == nil {
		r.check(false, "anchor", n.kind, "-", "kind %s not found", n.kind)
		panic(abort{})
	}
	setField := func(v *Term, t types.Type, field string, val *Term) *Term {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				a := append([]*Term{}, v.args...)
				a[i] = val
				return mkStruct(t, a)
			}
		}
		r.check(false, "anchor", typeName(t)+"."+field, "-", "field not found")
		panic(abort{})
	}
	span := mkSym("span:"+name, w.NamedType(syn, "Span"))
	var rep *Term
	obj := "new:node:" + name
	if n.kind == "Error" && !n.inner {
		et := mk(syn, "ErrorNode")
		text := n.text
		if text == nil {
			text = mkSym("text:"+name, types.Typ[types.String])
		}
		e := zero(et)
		e = setField(e, et, "Text", text)
		se := mk(syn, "SyntaxError")
		sv := setField(setField(zero(se), se, "Span", span), se, "Message", mkSym("msg:"+name, types.Typ[types.String]))
		st.heap[obj+":err"] = sv
		e = setField(e, et, "Error", mkPtr(obj+":err", types.NewPointer(se)))
		st.heap[obj+":rep"] = e
		rep = mkIface(types.NewPointer(et), mkPtr(obj+":rep", types.NewPointer(et)), nil)
	} else if n.inner {
		it := mk(syn, "InnerNode")
		var el []*Term
		for i, k := range n.kids {
			el = append(el, r.build(ip, st, ks, k, fmt.Sprintf("%s.%d", name, i)))
		}
		e := zero(it)
		e = setField(e, it, "Kind", kind)
		e = setField(e, it, "Span", span)
		e = setField(e, it, "Len", mkSym("len:"+name, types.Typ[types.Uint]))
		e = setField(e, it, "Descendants", mkSym("desc:"+name, types.Typ[types.Uint]))
		e = setField(e, it, "Erroneous", mkBool(n.erroneous()))
		e = setField(e, it, "Upper", mkSym("upper:"+name, types.Typ[types.Uint64]))
		cs := ip.newSlice(st, obj+":kids", types.NewSlice(types.NewPointer(sn)), el)
		e = setField(e, it, "Children", cs)
		st.heap[obj+":rep"] = e
		rep = mkIface(types.NewPointer(it), mkPtr(obj+":rep", types.NewPointer(it)), nil)
	} else {
		lt := mk(syn, "LeafNode")
		text := n.text
		if text == nil {
			text = mkSym("text:"+name, types.Typ[types.String])
		}
		e := zero(lt)
		e = setField(e, lt, "Kind", kind)
		e = setField(e, lt, "Text", text)
		e = setField(e, lt, "Span", span)
		st.heap[obj+":rep"] = e
		rep = mkIface(types.NewPointer(lt), mkPtr(obj+":rep", types.NewPointer(lt)), nil)
	}
	v := zero(sn)
	v = r.wrapRepr(sn, v, rep)
	st.heap[obj] = v
	return mkPtr(obj, types.NewPointer(sn))
}

// wrapRepr stores the representation in the (only) interface field.
func (r *Report) wrapRepr(sn types.Type, v, rep *Term) *Term {
	s := sn.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.IsInterface(s.Field(i).Type()) {
			a := append([]*Term{}, v.args...)
			a[i] = mkIface(rep.typ2, rep.args[0], s.Field(i).Type())
			return mkStruct(sn, a)
		}
	}
	r.check(false, "anchor", "SyntaxNode", "-", "no representation field")
	panic(abort{})
}

func (n absNode) erroneous() bool {
	if n.kind == "Error" {
		return true
	}
	for _, k := range n.kids {
		if k.erroneous() {
			return true
		}
	}
	return false
}

func (n absNode) String() string {
	if !n.inner {
		return n.kind
	}
	s := n.kind + "["
	for i, k := range n.kids {
		if i > 0 {
			s += " "
		}
		s += k.String()
	}
	return s + "]"
}

// view wraps an abstract node into the AST type of the given name.
func (r *Report) view(ip *Interp, st *State, typ string, node *Term) *Term {
	t := r.w.NamedType(syn, typ)
	if t == nil {
		r.check(false, "anchor", typ, "-", "AST type %s not found", typ)
		panic(abort{})
	}
	obj := "new:view:" + typ
	st.heap[obj] = mkStruct(t, []*Term{node})
	return mkPtr(obj, types.NewPointer(t))
}
