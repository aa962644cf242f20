package main

import (
	"go/types"
)

// Printing: the text of a tree, the listing of a tree and the program printing
// listings of files.

// outside finds a type of a package that the repository imports.
func (r *Report) outside(pkg, name string) types.Type {
	for _, p := range r.w.Pkgs {
		for _, q := range p.Types.Imports() {
			if q.Path() == pkg {
				if o := q.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	r.check(false, "anchor", pkg+"."+name, "-", "not found")
	panic(abort{})
}

// stdout lets the program print to a text.
func (x *fx) stdout() {
	w := mkIface(types.NewPointer(x.r.outside("os", "File")), mkSym("@g:os.Stdout", types.NewPointer(x.r.outside("os", "File"))), nil)
	for _, n := range []string{"Printf", "Print", "Println"} {
		x.ip.Intrinsics["fmt."+n] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			c2 := *c
			c2.Args = append([]*Term{w}, c.Args...)
			return stdModels["fmt.F"+string(n[0]+32)+n[1:]](ip, st, &c2)
		}
	}
	x.u.Final = func(o *Outcome, c *Case) {
		c.R["output"] = canon(o.st, sbGet(x.ip, o.st, mkPtr("new:stdout", nil)))
	}
}

func printShapes() []string {
	return []string{
		"L:Text", "L:Str='\"a\"'", "E", "I:Markup", "I:Markup(L:Text)", "I:Markup(E)", "I:Markup(L:Text E L:Space)",
		"I:Markup(L:Hash I:CodeBlock(L:LeftBrace I:Code(L:Ident E) L:RightBrace) L:Text)",
		"I:Markup(I:Strong(L:Star I:Markup(L:Text) L:Star) I:Markup L:Parbreak)",
		"I:Equation(L:Dollar I:Math(L:MathText I:MathAttach(L:MathIdent L:Hat L:MathText)) L:Dollar)",
	}
}

func init() {
	register(&Property{ID: "T39", Run: func(w *World, r *Report) {
		var xs []*fx
		for _, s := range printShapes() {
			for _, t := range [][2]string{{"bytes", "Buffer"}, {"strings", "Builder"}} {
				x := r.fx(syn+".PrintNode", "print-node")
				x.ip.Prune = true
				x.label("tree", s+" to "+t[1])
				bt := r.outside(t[0], t[1])
				p := mkPtr("new:buf", types.NewPointer(bt))
				x.u.Args = []*Term{mkIface(types.NewPointer(bt), p, nil), x.node(s, "n")}
				x.u.Final = func(o *Outcome, c *Case) {
					c.R["output"] = canon(o.st, sbGet(x.ip, o.st, p))
				}
				xs = append(xs, x)
			}
		}
		r.decideAll("text", xs...)
		xs = nil
		for _, s := range printShapes() {
			x := r.fx(syn+".PrintRoot", "print-root")
			x.ip.Prune = true
			x.label("tree", s)
			x.stdout()
			x.u.Args = []*Term{x.node(s, "n")}
			xs = append(xs, x)
		}
		r.decideAll("listing", xs...)
		xs = nil
		for _, a := range []string{"", "a.typ", "a.typ b.typ"} {
			d := r.disk("cmd/parse-typ.main", "parse-main")
			d.fail = true
			x := d.x
			x.label("arguments", a)
			d.arguments(a)
			x.r.fn(syn + ".PrintRoot")
			x.ip.Intrinsics[syn+".PrintRoot"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
				st.event("print %s", rawCanon(st, c.Args[0]))
				return one(mkTuple(), st), true
			}
			d.ordered = true
			xs = append(xs, x)
		}
		r.decideAll("command", xs...)
	}})
}
