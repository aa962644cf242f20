package main

import (
	"fmt"
	"go/types"
)

// Source files and linked nodes.

// optOf is an option of the given type.
func (x *fx) optOf(t types.Type, v *Term) *Term {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 1 {
		x.r.check(false, "anchor", typeName(t), "-", "not an option")
		panic(abort{})
	}
	if v == nil {
		return zero(t)
	}
	obj := fmt.Sprintf("new:some:%d", len(x.st.heap))
	x.st.heap[obj] = v
	return mkStruct(t, []*Term{mkPtr(obj, s.Field(0).Type())})
}

// child is a descendant of a node built with x.node.
func (x *fx) child(n *Term, path ...int) *Term {
	name := n.name
	for _, i := range path {
		name += fmt.Sprintf(".%d", i)
	}
	if x.st.heap[name] == nil {
		x.r.check(false, "anchor", name, "-", "no such node")
		panic(abort{})
	}
	return mkPtr(name, n.typ)
}

// link is the linked node of a descendant of the root.
func (x *fx) link(root *Term, s shape, path ...int) *Term {
	lt := x.r.named(syn, "LinkedNode")
	pt := x.r.needField(lt, "parent")
	cur, name := root, "link"
	off := mkInt(0, uintT)
	l := x.alloc(name, x.mk(lt, map[string]*Term{"node": cur, "parent": x.optOf(pt, nil), "index": mkInt(0, uintT), "offset": off}), lt)
	delete(objNames, l.name) // printed in full
	for d, i := range path {
		for k := 0; k < i; k++ {
			off, _ = linAdd(off, x.nodeLen(s.kids[k], x.child(root, append(append([]int{}, path[:d]...), k)...)), 1, uintT)
		}
		s = s.kids[i]
		cur = x.child(root, path[:d+1]...)
		name += fmt.Sprintf(".%d", i)
		l = x.alloc(name, x.mk(lt, map[string]*Term{"node": cur, "parent": x.optOf(pt, l), "index": mkInt(int64(i), uintT), "offset": off}), lt)
		delete(objNames, l.name)
	}
	return l
}

// nodeLen is the length of a node.
func (x *fx) nodeLen(s shape, n *Term) *Term {
	if s.tag != 'I' {
		if s.has {
			return mkInt(int64(len(s.text)), uintT)
		}
		return termLen(mkSym("text of "+n.name[len("new:"):], strT))
	}
	t := mkInt(0, uintT)
	for i, k := range s.kids {
		t, _ = linAdd(t, x.nodeLen(k, mkPtr(fmt.Sprintf("%s.%d", n.name, i), n.typ)), 1, uintT)
	}
	return t
}

// paths lists the positions in a shape.
func paths(s shape) [][]int {
	r := [][]int{nil}
	for i, k := range s.kids {
		for _, p := range paths(k) {
			r = append(r, append([]int{i}, p...))
		}
	}
	return r
}

// number gives a node and its descendants increasing span numbers.
func (x *fx) number(s shape, n *Term, file int64, next *int64, step int64) {
	v := x.st.heap[n.name]
	for _, a := range v.args {
		if a.op != "iface" {
			continue
		}
		p := a.args[0]
		span := mkInt(file<<48|*next, x.r.named(syn, "Span"))
		*next += step
		o := x.st.heap[p.name]
		if s.tag == 'E' {
			e := x.field(o, "Error")
			x.setField(e.name, "Span", span)
		} else {
			x.setField(p.name, "Span", span)
		}
	}
	for i, k := range s.kids {
		x.number(k, mkPtr(fmt.Sprintf("%s.%d", n.name, i), n.typ), file, next, step)
	}
	if s.tag == 'I' {
		x.setField(x.innerOf(n).name, "Upper", mkInt(*next, u64))
	}
}

func (x *fx) fieldIndex(v *Term, name string) int {
	s := v.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	x.r.check(false, "anchor", typeName(v.typ), "-", "no field %s", name)
	panic(abort{})
}

func (x *fx) field(v *Term, name string) *Term { return v.args[x.fieldIndex(v, name)] }

// setField changes an object of the input.
func (x *fx) setField(obj, name string, f *Term) {
	v := x.st.heap[obj]
	a := append([]*Term{}, v.args...)
	a[x.fieldIndex(v, name)] = f
	n := mkStruct(v.typ, a)
	x.st.heap[obj] = n
	if x.objs[obj] != nil {
		x.objs[obj] = n
	}
}

func init() {
	LN := "(*" + syn + ".LinkedNode)."
	trees := []string{"L", "I", "E", "I(L L)", "I(L:Space L)", "I(L E L:Space L)", "I(I(L L:Space) L:Space I(E L))", "I(I(I L) L:Space I)"}
	register(&Property{ID: "T25", Run: func(w *World, r *Report) {
		each := func(f, unit string, args func(x *fx, root *Term, s shape, p []int) []*Term) {
			var xs []*fx
			for _, t := range trees {
				s := parseShape(t)
				for _, p := range paths(s) {
					x := r.fx(LN+f, unit)
					x.ip.Prune = true
					x.ip.MaxRec = 24
					x.label("shape", fmt.Sprintf("%s at %v", t, p))
					root := x.node(t, "n")
					x.u.Args = append([]*Term{x.link(root, s, p...)}, args(x, root, s, p)...)
					xs = append(xs, x)
				}
			}
			r.decideAll("link", xs...)
		}
		none := func(x *fx, root *Term, s shape, p []int) []*Term { return nil }
		x := r.fx(syn+".NewLinkedNode", "link-new")
		x.u.Args = []*Term{x.node("I(L E)", "n")}
		r.decideAll("link", x)
		for _, f := range []string{"get", "Range", "clone", "prev_sibling", "next_sibling", "parent_kind", "prev_sibling_kind", "next_sibling_kind", "prev_leaf", "next_leaf", "leftmost_leaf", "rightmost_leaf"} {
			each(f, "link-"+f, none)
		}
		cursor := func(x *fx, root *Term, s shape, p []int) []*Term { return []*Term{x.sym(1, "cursor")} }
		each("leaf_before", "link-leaf_before", cursor)
		each("leaf_after", "link-leaf_after", cursor)
		xl := r.fx(LN+"leaf_at", "link-leaf_at")
		xl.lookup(LN+"leaf_before", "leaf before")
		xl.lookup(LN+"leaf_after", "leaf after")
		s0 := parseShape("I(L)")
		xl.u.Args = []*Term{xl.link(xl.node("I(L)", "n"), s0), xl.sym(1, "cursor"), xl.sym(2, "side")}
		r.decideAll("link", xl)
		// finding nodes by span
		var xs []*fx
		for _, t := range trees {
			s := parseShape(t)
			n := int64(len(paths(s)))
			for k := int64(-1); k <= 2*n+1; k++ {
				x := r.fx(LN+"find", "link-find")
				x.ip.MaxRec = 24
				x.label("shape", t)
				root := x.node(t, "n")
				next := int64(10)
				x.number(s, root, 5, &next, 10)
				target := 5<<48 | (5 + 5*k)
				what := fmt.Sprintf("number %d", 5+5*k)
				switch {
				case k == -1:
					target, what = 1, "detached"
				case k == 0:
					target, what = 6<<48|10, "other file"
				}
				x.label("span", what)
				x.u.Args = []*Term{x.link(root, s), mkInt(target, x.typ(1))}
				xs = append(xs, x)
			}
		}
		r.decideAll("find", xs...)
	}})

	register(&Property{ID: "T24", Run: func(w *World, r *Report) {
		SO := "(*" + syn + ".Source)."
		src := func(x *fx) *Term {
			st := r.named(syn, "Source")
			root := x.node("I(L L)", "root")
			lt := r.named(syn, "Lines")
			lines := x.alloc("lines", x.mk(lt, map[string]*Term{"Text": mkSym("old", strT), "Lines": mkSym("line list", r.needField(lt, "Lines"))}), lt)
			return x.alloc("source", x.mk(st, map[string]*Term{"ID": mkSym("file", r.needField(st, "ID")), "Root": root, "Lines": lines}), st)
		}
		x := r.fx(syn+".NewSource", "source-new")
		x.pureFn(syn+".Parse", "parse")
		x.opaque("(*"+syn+".SyntaxNode).numberize", "number")
		x.pureFn(syn+".NewLines", "lines of")
		x.u.Args = []*Term{x.sym(0, "file"), x.sym(1, "text")}
		r.decideAll("source", x)
		x = r.fx(syn+".NewDetachedSource", "source-detached")
		x.pureFn(syn+".NewSource", "source")
		x.pureFn(syn+".NewFileID", "file")
		x.pureFn(syn+".NewVirtualPath", "path")
		x.u.Args = []*Term{x.sym(0, "text")}
		r.decideAll("source", x)
		x = r.fx(SO+"Text", "source-Text")
		x.u.Args = []*Term{src(x)}
		r.decideAll("source", x)
		x = r.fx(SO+"Replace", "source-Replace")
		x.lookup("(*"+syn+".Lines).ReplacementRange", "changed part")
		x.opaque(SO+"Edit", "edit")
		x.u.Args = []*Term{src(x), x.sym(1, "new")}
		r.decideAll("source", x)
		x = r.fx(SO+"Edit", "source-Edit")
		x.ip.Intrinsics["(*"+syn+".Lines).Edit"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			st.event("edit lines(%s, %s, %s)", canon(st, c.Args[0]), canon(st, c.Args[1]), canon(st, c.Args[2]))
			v := st.heap[c.Args[0].name]
			a := append([]*Term{}, v.args...)
			a[x.fieldIndex(v, "Text")] = mkSym("edited text", strT)
			st.heap[c.Args[0].name] = mkStruct(v.typ, a)
			return one(nil, st), true
		}
		x.r.fn("(*" + syn + ".Lines).Edit")
		x.opaque(syn+".reparse", "reparse")
		x.u.Args = []*Term{src(x), x.rng(1, mkSym("start", u64), mkSym("end", u64)), x.sym(2, "with")}
		r.decideAll("source", x)
		x = r.fx(SO+"Find", "source-Find")
		x.lookup(LN+"find", "find")
		x.u.Args = []*Term{src(x), x.sym(1, "span")}
		r.decideAll("source", x)
		x = r.fx(SO+"Range", "source-Range")
		x.lookup(LN+"find", "find")
		x.pureFn(LN+"Range", "range of")
		x.u.Args = []*Term{src(x), x.sym(1, "span")}
		r.decideAll("source", x)
	}})
}
