package main

import "fmt"

// Highlighting.

func init() {
	register(&Property{ID: "T28", Run: func(w *World, r *Report) {
		// names of the tags
		tags := w.enum(syn, "Tag", "Tag_")
		r.check(len(tags) >= 21, "floor", "Tag", "-", "only %d highlighting tags found", len(tags))
		for _, f := range []string{"tm_scope", "css_class"} {
			var xs []*fx
			for _, n := range sortedKeys(tags) {
				x := r.fx("("+syn+".Tag)."+f, "highlight-"+f)
				x.label("tag", n)
				x.u.Args = []*Term{tags[n]}
				xs = append(xs, x)
			}
			r.decideAll("name", xs...)
		}
		kinds := w.enum(syn, "SyntaxKind", "SyntaxKind")
		at := func(unit, tree string, node string, p ...int) *fx {
			x := r.fx(syn+".highlight", unit)
			x.ip.Prune = true
			x.ip.MaxRec = 24
			s := parseShape(tree)
			x.label("tree", fmt.Sprintf("%s at %v", tree, p))
			root := x.node(tree, "n")
			x.u.Args = []*Term{x.link(root, s, p...)}
			return x
		}
		var xs []*fx
		for _, t := range []struct {
			tree string
			p    []int
		}{
			{"L", nil}, {"I(L)", nil}, {"E", nil},
			{"I(L)", []int{0}}, {"I(I(L))", []int{0}}, {"I(E)", []int{0}},
			{"I(L L)", []int{0}}, {"I(I(L) L)", []int{0}}, {"I(I(L) L:Space L)", []int{0}}, {"I(L I(L))", []int{1}},
			{"I(I(L))", []int{0, 0}},
		} {
			x := at("highlight-kind", t.tree, "", t.p...)
			name := "n"
			for _, i := range t.p {
				name += fmt.Sprintf(".%d", i)
			}
			k := mkSym("kind of "+name, r.named(syn, "SyntaxKind"))
			for _, n := range []string{"Ident", "MathIdent", "Hash"} {
				x.given(mkEq(k, kinds[n]), false)
			}
			xs = append(xs, x)
		}
		r.decideAll("tag", xs...)
		// identifiers: the leaves around them and their parents decide
		kt := r.named(syn, "SyntaxKind")
		xs = nil
		for _, t := range []struct {
			tree string
			p    []int
		}{
			{"L", nil}, {"I(L)", []int{0}}, {"I(L L)", []int{0}}, {"I(L L)", []int{1}}, {"I(L I(L))", []int{0}}, {"I(L L:Space L)", []int{0}}, {"I(L I(L))", []int{1, 0}},
			{"I(I(L) L)", []int{0, 0}}, {"I(I(L L L) I(L))", []int{0, 2}}, {"I(I(L L L) I(L))", []int{0, 0}}, {"I(L I(L L L))", []int{1, 0}}, {"I(L I(L L L))", []int{1, 2}},
		} {
			for _, k := range []string{"Ident", "MathIdent"} {
				x := at("highlight-ident", t.tree, "", t.p...)
				name := "n"
				for _, i := range t.p {
					name += fmt.Sprintf(".%d", i)
				}
				x.given(mkEq(mkSym("kind of "+name, kt), kinds[k]), true)
				xs = append(xs, x)
			}
		}
		r.decideAll("tag", xs...)
		xs = nil
		for _, t := range []struct {
			tree string
			p    []int
		}{
			{"L:Hash", nil}, {"I(L:Hash)", []int{0}}, {"I(L:Hash L)", []int{0}}, {"I(L:Hash E)", []int{0}}, {"I(L:Hash I)", []int{0}}, {"I(L:Hash I(L))", []int{0}}, {"I(L:Hash L:Space L)", []int{0}},
			{"I(L:Hash I(I(L) L) L)", []int{0}},
		} {
			xs = append(xs, at("highlight-hash", t.tree, "", t.p...))
		}
		r.decideAll("tag", xs...)
		// markup: the tags around the escaped texts of the leaves
		xs = nil
		html := func(tree string) *fx {
			x := r.fx(syn+".highlight_html", "highlight-html")
			x.ip.Prune = true
			x.ip.MaxRec = 24
			x.ip.MaxVisits = 8
			x.label("tree", tree)
			x.lookup(syn+".highlight", "tag")
			x.pureFn("("+syn+".Tag).css_class", "class")
			x.u.Args = []*Term{x.node(tree, "n")}
			return x
		}
		for n := 0; n <= 2; n++ {
			x := html("L")
			x.label("text", fmt.Sprintf("%d characters", n))
			x.st.ghost["end:T"] = mkInt(1, nil)
			x.setField("new:n.leaf", "Text", newTape(x.st, "T", n, 4))
			xs = append(xs, x)
		}
		for _, t := range []string{"I", "E='<x>'", "I(L='a')", "I(L='a' L='<')", "I(L='a' I(L='&' L='\"') L='c')", "I(I(I(L='a') L='b'))"} {
			xs = append(xs, html(t))
		}
		r.decideAll("html", xs...)
	}})
}
