package main

import (
	"fmt"
	"go/types"
)

// Incremental reparsing.

func init() {
	N := "(*" + syn + ".SyntaxNode)."
	register(&Property{ID: "T22", Run: func(w *World, r *Report) {
		rg := func(x *fx, i int, n string) *Term {
			return x.rng(i, mkSym(n+".start", u64), mkSym(n+".end", u64))
		}
		for _, f := range []string{"includes", "overlaps"} {
			x := r.fx(syn+"."+f, "reparse-"+f)
			x.u.Args = []*Term{rg(x, 0, "first"), rg(x, 1, "second")}
			for _, n := range []string{"first", "second"} {
				x.given(mkLt(mkSym(n+".end", u64), mkSym(n+".start", u64)), false)
			}
			r.decideAll("reparse", x)
		}
		var xs []*fx
		for _, s := range []string{"L", "E", "I", "I(L)"} {
			x := r.fx(syn+".expand", "reparse-expand")
			x.label("shape", s)
			x.u.Args = []*Term{x.node(s, "n")}
			xs = append(xs, x)
		}
		r.decideAll("reparse", xs...)
		xs = nil
		for _, s := range []string{"L=''", "L='a'", "L=' '", "L=' \n'", "L='\r '", "L='\v'", "L='\u2028 '", "L='/*\n*/'", "E", "I(L)"} {
			x := r.fx(syn+".next_at_start", "reparse-at-start")
			x.label("shape", s)
			x.u.Args = []*Term{x.node(s, "n"), x.alloc("at_start", mkSym("at start", boolT), boolT)}
			xs = append(xs, x)
		}
		r.decideAll("reparse", xs...)
		xs = nil
		for _, s := range []string{"L", "E", "I(L)"} {
			x := r.fx(syn+".next_nesting", "reparse-nesting")
			x.label("shape", s)
			ut := types.Type(types.Typ[types.Uint])
			x.u.Args = []*Term{x.node(s, "n"), x.alloc("nesting", mkSym("nesting", ut), ut)}
			xs = append(xs, x)
		}
		r.decideAll("reparse", xs...)
		// the whole tree
		xs = nil
		for _, s := range []string{"I(L)", "L"} {
			x := r.fx(syn+".reparse", "reparse-root")
			x.label("shape", s)
			x.free = true
			x.opaque(syn+".try_reparse", "try")
			x.opaque(syn+".Parse", "parse")
			x.opaque(N+"numberize", "number")
			x.pureFn("("+syn+".Span).ID", "file")
			x.u.Args = []*Term{x.node(s, "root"), x.sym(1, "text"), rg(x, 2, "replaced"), x.sym(3, "replacement")}
			xs = append(xs, x)
		}
		r.decideAll("reparse", xs...)
		// a node
		xs = nil
		type tr struct{ node, parent string }
		for _, d := range []tr{
			{"L", ""}, {"E", "ContentBlock"}, {"I", ""}, {"I:Markup", ""},
			{"I:Markup(L:Text='ab')", ""}, {"I:Markup(L:Text='ab')", "ContentBlock"}, {"I:Markup(L:Text='ab')", "Strong"}, {"I:Code(L:Int='1')", "CodeBlock"},
			{"I:Markup(L:Text='ab' L:Space='\n' L:Text='c')", ""},
			{"I:Markup(L:Text='a' L:Space=' ' L:Text='b')", "ContentBlock"},
			{"I:Markup(L:Text='[' L:Text=']' L:Text='[')", "ContentBlock"},
			{"I:Markup(L:Text='[' L:Text=']' L:Text='[')", ""},
			{"I:Markup(L:Hash='#' L:Ident='x' L:Semicolon=';' L:Text='a')", ""},
			{"I:Markup(L:Text='a' L:Hash='#' L:Ident='x' L:Text='b')", "ContentBlock"},
			{"I:Markup(L:Text='a' L:Parbreak='\n\n' L:Text='b' L:Space='\n' L:Text=':' L:Text='d')", ""},
			{"I:Markup(L:Text='a' E='e' L:Text='b' L:Text='/')", "ContentBlock"},
			{"I:Markup(L:Text='a' L:Text='b' L:Text='c' L:Text='d' L:Text='e' L:Text='f' L:Text='g' L:Text='h')", ""},
			{"I:Markup(L:Text='[' L:Text='a' L:Parbreak='\n\n' L:Text='b' L:Text='c' L:Text='d')", "ContentBlock"},
			{"I:Markup(I:Strong(L:Star='*' L:Star='*'))", ""},
			{"I:Markup(I:ContentBlock(L:LeftBracket='[' L:RightBracket=']') L:Text='b')", ""},
			{"I:Code(L:Ident='a' I:CodeBlock(L:LeftBrace='{' L:RightBrace='}') L:Ident='b')", "CodeBlock"},
			{"I:Code(I:CodeBlock(L:LeftBrace='{') I:ContentBlock(L:LeftBracket='['))", "CodeBlock"},
			// nodes without text
			{"I:ContentBlock(L:LeftBracket='[' I:Markup L:RightBracket=']')", "Markup"},
			{"I:Code(I:Strong E='' I:CodeBlock(L:LeftBrace='{' L:RightBrace='}') L:Ident='b')", "CodeBlock"},
			{"I:Markup(E='' L:Text='ab' I:Emph L:Text='c')", "ContentBlock"},
			{"I:Markup(L:Text='a' I:Markup L:Hash='#' I:Code L:Text='b')", ""},
		} {
			x := r.fx(syn+".try_reparse", "reparse-node")
			x.ip.MaxVisits = 14
			x.ip.Prune = true
			parent := d.parent
			if parent == "" {
				parent = "no"
			}
			x.label("shape", d.node+" in "+parent+" parent")
			x.opaque(syn+".reparse_block", "block")
			x.opaque(N+"replace_children", "replace")
			x.markup()
			x.inside()
			pk := zero(x.typ(3))
			if d.parent != "" {
				pk = x.some(3, w.enum(syn, "SyntaxKind", "SyntaxKind")[d.parent])
			}
			rp := rg(x, 1, "replaced")
			x.given(mkLt(mkSym("replaced.end", u64), mkSym("replaced.start", u64)), false)
			x.u.Args = []*Term{x.sym(0, "text"), rp, x.sym(2, "replacement"), pk, x.node(d.node, "n"), x.sym(5, "offset")}
			xs = append(xs, x)
		}
		r.decideAll("reparse", xs...)
	}})
}

// markup makes the partial parse of markup an action which changes the flags
// it is given.
func (x *fx) markup() {
	full := syn + ".reparse_markup"
	x.r.fn(full)
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		n := len(st.ev)
		s := ""
		for i, a := range c.Args {
			if i > 0 {
				s += ", "
			}
			if a.op == "ptr" {
				a = st.heap[a.name]
			}
			s += canon(st, a)
		}
		st.event("markup(%s)", s)
		for i, a := range c.Args {
			if a.op == "ptr" {
				st.heap[a.name] = mkSym(fmt.Sprintf("argument %d after markup@%d", i, n), st.heap[a.name].typ)
			}
		}
		return one(unknownResult(fmt.Sprintf("markup@%d", n), c.Type), st), true
	}
}

// inside makes the attempt to reparse within a child an action which changes
// the child.
func (x *fx) inside() {
	full := syn + ".try_reparse"
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		s := ""
		for i, a := range c.Args {
			if i > 0 {
				s += ", "
			}
			s += canon(st, a)
		}
		n := len(st.ev)
		st.event("inside(%s)", s)
		no := st.clone() // nothing changes if it does not work
		rt := x.r.named(syn, "InnerNode")
		for _, a := range c.Args {
			if a.op != "ptr" || st.heap[a.name] == nil || st.heap[a.name].op != "struct" {
				continue
			}
			for _, f := range st.heap[a.name].args {
				if f.op == "iface" && len(f.args) > 0 && f.args[0].op == "ptr" {
					if v := st.heap[f.args[0].name]; v != nil && types.Identical(v.typ, rt) {
						as := append([]*Term{}, v.args...)
						for i := range as {
							switch l := rt.Underlying().(*types.Struct).Field(i).Name(); l {
							case "Len", "Descendants":
								as[i] = mkSym(fmt.Sprintf("%s after inside@%d", l, n), as[i].typ)
							}
						}
						st.heap[f.args[0].name] = mkStruct(rt, as)
					}
				}
			}
		}
		ot := c.Type.Underlying().(*types.Struct).Field(0).Type()
		obj := fmt.Sprintf("new:inside@%d", n)
		st.heap[obj] = mkSym(fmt.Sprintf("range of inside@%d", n), ot.Underlying().(*types.Pointer).Elem())
		works := mkSym(fmt.Sprintf("inside@%d works", n), boolT)
		ip.assume(st, works, true)
		ip.assume(no, works, false)
		return append(one(mkStruct(c.Type, []*Term{mkPtr(obj, ot)}), st), one(zero(c.Type), no)...), true
	}
}
