package main

import (
	"fmt"
)

// Shapes of nodes: L leaf, E error, I inner node.
var nodeShapes = []string{"L", "E", "I", "I(L)", "I(L E)", "I(I(E L) L)", "I(L I(L L) I)"}

// eachShape makes a unit per shape.
func (r *Report) eachShape(full, unit string, shapes []string, args func(x *fx, n *Term) []*Term) []*fx {
	var xs []*fx
	for _, s := range shapes {
		x := r.fx(full, unit)
		x.label("shape", s)
		x.u.Args = args(x, x.node(s, "n"))
		xs = append(xs, x)
	}
	return xs
}

func init() {
	N := "(*" + syn + ".SyntaxNode)."
	register(&Property{ID: "T19", Run: func(w *World, r *Report) {
		only := func(x *fx, n *Term) []*Term { return []*Term{n} }
		// making nodes
		x := r.fx(syn+".NewLeaf", "node-NewLeaf")
		x.u.Args = []*Term{x.sym(0, "kind"), x.sym(1, "text")}
		r.decideAll("node", x)
		var xs []*fx
		for _, s := range []string{"", "L", "E", "L E L", "L I(L L)", "I(E) L", "I(L I(L L)) I L"} {
			x := r.fx(syn+".NewInner", "node-NewInner")
			x.label("shape", "children ["+s+"]")
			var c *Term
			if el := x.nodes(s, "c"); len(el) > 0 {
				c = x.list("children", x.typ(1), el...)
			} else {
				c = mkNil(x.typ(1))
			}
			x.u.Args = []*Term{x.sym(0, "kind"), c}
			xs = append(xs, x)
		}
		r.decideAll("node", xs...)
		x = r.fx(syn+".NewError", "node-NewError")
		x.u.Args = []*Term{x.sym(0, "error"), x.sym(1, "text")}
		r.decideAll("node", x)
		x = r.fx(syn+".NewSyntaxError", "node-NewSyntaxError")
		x.u.Args = []*Term{x.sym(0, "message")}
		r.decideAll("node", x)
		x = r.fx(syn+".SyntaxNode_placeholder", "node-placeholder")
		x.u.Args = []*Term{x.sym(0, "kind")}
		r.decideAll("node", x)
		r.decideAll("node", r.fx(syn+".SyntaxNode_Default", "node-default"))
		xs = nil
		for _, d := range []struct{ shape, typ string }{{"L", "LeafNode"}, {"I", "InnerNode"}, {"E", "ErrorNode"}} {
			x := r.fx("(*"+syn+"."+d.typ+").SyntaxKind", "node-SyntaxKind")
			x.label("shape", d.shape)
			x.u.Args = []*Term{x.innerOf(x.node(d.shape, "n"))}
			xs = append(xs, x)
		}
		r.decideAll("node", xs...)
		// observers
		for _, f := range []string{"kind", "is_empty", "len", "span", "text", "into_text", "children", "erroneous", "errors", "is_leaf", "descendants", "upper", "clone"} {
			r.decideAll("node", r.eachShape(N+f, "node-"+f, nodeShapes, only)...)
		}
		// changes
		r.decideAll("node", r.eachShape(N+"hint", "node-hint", nodeShapes, func(x *fx, n *Term) []*Term { return []*Term{n, x.sym(1, "hint")} })...)
		r.decideAll("node", r.eachShape(N+"synthesize", "node-synthesize", nodeShapes, func(x *fx, n *Term) []*Term { return []*Term{n, x.sym(1, "span")} })...)
		r.decideAll("node", r.eachShape(N+"convert_to_kind", "node-convert_to_kind", nodeShapes, func(x *fx, n *Term) []*Term { return []*Term{n, x.sym(1, "kind")} })...)
		r.decideAll("node", r.eachShape(N+"convert_to_error", "node-convert_to_error", nodeShapes, func(x *fx, n *Term) []*Term { return []*Term{n, x.sym(1, "message")} })...)
		r.decideAll("node", r.eachShape(N+"unexpected", "node-unexpected", []string{"L", "E", "I(L E)"}, only)...)
		xs = nil
		for _, s := range []string{"L", "E", "I(L E)"} {
			for _, what := range []string{"identifier", "pattern", "expression"} {
				x := r.fx(N+"expected", "node-expected")
				x.label("shape", s+" expected "+what)
				x.u.Args = []*Term{x.node(s, "n"), mkStr(what)}
				xs = append(xs, x)
			}
		}
		r.decideAll("node", xs...)
		// comparison
		xs = nil
		for _, a := range []string{"L", "E", "I", "I(L E)", "I(E)", "I(L L)"} {
			for _, b := range []string{"L", "E", "I", "I(L E)", "I(E)", "I(L L)"} {
				x := r.fx(N+"spanless_eq", "node-spanless_eq")
				x.label("shape", a+" = "+b)
				x.u.Args = []*Term{x.node(a, "a"), x.node(b, "b")}
				xs = append(xs, x)
			}
		}
		r.decideAll("node", xs...)
	}})
	register(&Property{ID: "T20", Run: func(w *World, r *Report) {
		// numbering
		var xs []*fx
		for _, s := range []string{"L", "E", "I", "I(L E)", "I(L I(L) E)"} {
			x := r.fx(N+"numberize", "number-node")
			x.label("shape", s)
			x.pureFn(syn+".NewSpanFromNumber", "span")
			n := x.node(s, "n")
			x.u.Args = []*Term{n, x.sym(1, "file"), x.rng(2, mkSym("within.start", u64), mkSym("within.end", u64))}
			xs = append(xs, x)
		}
		r.decideAll("numbering", xs...)
		xs = nil
		for lo := 0; lo <= 3; lo++ {
			for hi := lo; hi <= 3; hi++ {
				x := r.fx("(*"+syn+".InnerNode).numberize", "number-range")
				x.label("shape", fmt.Sprintf("children %d to %d of I(L I(L) E)", lo, hi))
				x.pureFn(syn+".NewSpanFromNumber", "span")
				n := x.innerOf(x.node("I(L I(L) E)", "n"))
				rg := x.rng(3, mkInt(int64(lo), u64), mkInt(int64(hi), u64))
				x.u.Args = []*Term{n, x.sym(1, "file"), x.some(2, rg), x.rng(3, mkSym("within.start", u64), mkSym("within.end", u64))}
				xs = append(xs, x)
			}
		}
		r.decideAll("numbering", xs...)
		// replacing children
		xs = nil
		for _, d := range [][4]string{
			{"L L L", "1", "2", "L"}, {"L L L", "1", "2", "L L"}, {"L L L", "1", "2", ""}, {"L L L", "0", "3", "L E"}, {"L L L", "0", "1", "L"}, {"L L L", "2", "3", "L"},
			{"L E L", "1", "2", "L"}, {"E L", "1", "2", "L"}, {"L E", "0", "1", "I(L)"}, {"I(L L) L", "0", "1", "I(L)"}, {"L", "0", "1", "L"}, {"L L", "1", "1", "L"}, {"L L L L", "1", "3", "L L"},
		} {
			x := r.fx(N+"replace_children", "replace-children")
			x.label("shape", fmt.Sprintf("children %s to %s of [%s] by [%s]", d[1], d[2], d[0], d[3]))
			n := x.node("I("+d[0]+")", "n")
			var rep *Term
			if el := x.nodes(d[3], "r"); len(el) > 0 {
				rep = x.list("replacement", x.typ(2), el...)
			} else {
				rep = mkNil(x.typ(2))
			}
			var lo, hi int64
			fmt.Sscan(d[1], &lo)
			fmt.Sscan(d[2], &hi)
			x.u.Args = []*Term{n, x.rng(1, mkInt(lo, u64), mkInt(hi, u64)), rep}
			x.opaque("(*"+syn+".InnerNode).numberize", "number")
			x.pureFn("("+syn+".Span).ID", "file")
			x.pureFn("("+syn+".Span).Number", "number")
			x.pureFn(N+"spanless_eq", "same")
			xs = append(xs, x)
		}
		for _, s := range []string{"L", "E"} {
			x := r.fx(N+"replace_children", "replace-children")
			x.label("shape", s)
			x.u.Args = []*Term{x.node(s, "n"), x.rng(1, mkInt(0, u64), mkInt(1, u64)), mkNil(x.typ(2))}
			xs = append(xs, x)
		}
		r.decideAll("replacement", xs...)
		xs = nil
		for _, s := range []string{"L", "E", "I(L)", "I(L E)", "I(L I(E))"} {
			x := r.fx(N+"update_parent", "update-parent")
			x.label("shape", s)
			x.free = true
			x.u.Args = []*Term{x.node(s, "n"), x.sym(1, "length before"), x.sym(2, "length after"), x.sym(3, "descendants before"), x.sym(4, "descendants after")}
			xs = append(xs, x)
		}
		r.decideAll("replacement", xs...)
	}})
}
