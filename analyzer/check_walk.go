package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Walking syntax trees: the sequence of visits with unknown answers.

// place names the place which a pointer in an interface points to.
func place(st *State, v *Term) string {
	if v.op != "iface" || v.args[0].op != "ptr" {
		return canon(st, v)
	}
	p := v.args[0]
	s := objNames[p.name]
	if s == "" {
		s = "?"
	}
	at := st.heap[p.name]
	for _, i := range p.args {
		f := i.stable()
		if at != nil {
			if n := fieldName(at.typ, i); n != "" {
				f = n
			}
			at = project(at, i, nil)
		}
		s += "#" + f
	}
	return shortType(v.typ2) + ":" + s
}

func init() {
	register(&Property{ID: "T34", Run: func(w *World, r *Report) {
		var xs []*fx
		unit := func(shape, start string) *fx {
			x := r.fx("typst/cstwalk.Walk", "walk")
			x.ip.MaxVisits = 20
			x.ip.MaxRec = 40
			x.ip.MaxDepth = 80
			x.label("shape", shape+" from "+start)
			x.ip.Dyn = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
				if c.Name != "dyn" || len(c.Args) != 2 || !strings.HasPrefix(c.Args[0].stable(), "visit") {
					return nil, false
				}
				n := 0
				for _, e := range st.ev {
					if strings.HasPrefix(e, "visit ") {
						n++
					}
				}
				st.event("visit %s", place(st, c.Args[1]))
				return one(mkSym(fmt.Sprintf("go on %d", n), boolT), st), true
			}
			return x
		}
		iface := func(x *fx, v *Term, t types.Type) *Term { return mkIface(t, v, x.typ(0)) }
		nt := types.NewPointer(r.named(syn, "SyntaxNode"))
		run := func(shape string, set func(x *fx, n *Term)) {
			x := unit(shape, "node")
			n := x.node(shape, "n")
			if set != nil {
				set(x, n)
				x.label("shape", shape+" shared")
			}
			x.u.Args = []*Term{iface(x, n, nt), x.sym(1, "visit")}
			xs = append(xs, x)
		}
		for _, s := range []string{"L", "E", "I", "I(L)", "I(E)", "I(L L)", "I(L E L)", "I(I)", "I(I(L))", "I(I(L) L)", "I(L I(E))", "I(I(L L))"} {
			run(s, nil)
		}
		run("I(L L)", func(x *fx, n *Term) {
			c := x.child(n, 0)
			inner := x.innerOf(n)
			v := x.st.heap[inner.name]
			kids := x.field(v, "Children")
			el, ok := x.ip.sliceElems(x.st, kids)
			if !ok || len(el) != 2 {
				r.check(false, "anchor", "Children", "-", "not a list")
				panic(abort{})
			}
			o := kids.args[0].name
			x.st.heap[o] = mkArray(x.st.heap[o].typ, []*Term{c, c})
		})
		// from other places
		for _, s := range []string{"L", "E", "I(L)"} {
			x := unit(s, "representation")
			n := x.node(s, "n")
			in := x.innerOf(n)
			tn := map[byte]string{'L': "LeafNode", 'E': "ErrorNode", 'I': "InnerNode"}[s[0]]
			x.u.Args = []*Term{iface(x, in, types.NewPointer(r.named(syn, tn))), x.sym(1, "visit")}
			xs = append(xs, x)
			x = unit(s, "pointer to representation")
			in = x.innerOf(x.node(s, "n"))
			rt := types.NewPointer(r.named(syn, tn))
			x.u.Args = []*Term{iface(x, x.alloc("p", in, rt), types.NewPointer(rt)), x.sym(1, "visit")}
			xs = append(xs, x)
			x = unit(s, "pointer")
			n = x.node(s, "n")
			x.u.Args = []*Term{iface(x, x.alloc("p", n, nt), types.NewPointer(nt)), x.sym(1, "visit")}
			xs = append(xs, x)
		}
		r.decideAll("walk", xs...)
	}})
}
