package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{
		ID:    "T03",
		Title: "A typed view exists for a node exactly if the node's kind is the view's kind",
		Rule: "For every typed view (method set lookup, nothing listed by hand) and every syntax kind the conversion is analysed by conditional constant propagation on an " +
			"abstract node of that kind (leaf, inner and error representations): the result must be present exactly for the kinds of the view and wrap that very node. " +
			"The generic casts are analysed per instantiation in the program, the first/last variants on abstract child lists.",
		Run: runCasts,
	})
}

// describe renders a view recursively, naming abstract nodes.
func describe(st *State, v *Term, d int) string {
	if v == nil || d > 12 {
		return "?"
	}
	if v.isConst() {
		return render(st, v)
	}
	if isOption(v.typ) {
		some, x := optGet(st, v)
		switch some {
		case 0:
			return "None"
		case 1:
			return "Some(" + describe(st, x, d+1) + ")"
		}
		return "Option?(" + v.String() + ")"
	}
	switch v.op {
	case "nil":
		return "nil"
	case "iface":
		return describe(st, v.args[0], d+1)
	case "tuple":
		var s []string
		for _, a := range v.args {
			s = append(s, describe(st, a, d+1))
		}
		return "(" + strings.Join(s, ",") + ")"
	case "ptr":
		if strings.HasPrefix(v.name, "new:node:") && len(v.args) == 0 {
			return strings.TrimPrefix(v.name, "new:node:")
		}
		c, ok := st.heap[v.name]
		if !ok {
			return v.String()
		}
		for _, i := range v.args {
			c = project(c, i, fieldTypeAt(c.typ, i))
		}
		return describe(st, c, d+1)
	case "struct":
		n := typeName(v.typ)
		var s []string
		for _, a := range v.args {
			s = append(s, describe(st, a, d+1))
		}
		return strings.TrimPrefix(n, ".") + "(" + strings.Join(s, ",") + ")"
	case "slice":
		ip := &Interp{}
		el, ok := sliceElemsOf(ip, st, v)
		if ok {
			var s []string
			for _, a := range el {
				s = append(s, describe(st, a, d+1))
			}
			return "[" + strings.Join(s, " ") + "]"
		}
	}
	return v.String()
}

func sliceElemsOf(ip *Interp, st *State, v *Term) (el []*Term, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return ip.sliceElems(st, v)
}

// notExpr are the kinds which have a typed view but are not expressions.
var notExpr = words("Markup RawLang RawDelim Code Named Keyed Spread Args Params Underscore Destructuring ImportItems ImportItemPath RenamedImportItem Space")

// exprView is the name of the expression view of a kind ("" if none).
func exprView(views map[string]bool, kind string) string {
	if views[kind] && !notExpr[kind] {
		return kind
	}
	return ""
}

// viewOf gives the expected description of casting node n of the given kind
// to T ("" if the cast must fail).
func viewOf(views map[string]bool, T, kind, n string) string {
	ex := func(wrap, k string) string {
		if e := exprView(views, k); e != "" {
			return wrap + "(" + e + "(" + n + "))"
		}
		return ""
	}
	pat := func() string {
		switch kind {
		case "Underscore":
			return "Pattern_Placeholder(Underscore(" + n + "))"
		case "Parenthesized":
			return "Pattern_Parenthesized(Parenthesized(" + n + "))"
		case "Destructuring":
			return "Pattern_Destructuring(Destructuring(" + n + "))"
		}
		return ex("Pattern_Normal", kind)
	}
	sub := func(v, k string) string {
		if kind == k {
			return v + "(" + k + "(" + n + "))"
		}
		return ""
	}
	first := func(s ...string) string {
		for _, x := range s {
			if x != "" {
				return x
			}
		}
		return ""
	}
	wrap := func(v, s string) string {
		if s == "" {
			return ""
		}
		return v + "(" + s + ")"
	}
	switch T {
	case "Expr":
		if e := exprView(views, kind); e != "" {
			return e + "(" + n + ")"
		}
		return ""
	case "ArrayItem":
		return first(sub("ArrayItem_Spread", "Spread"), ex("ArrayItem_Pos", kind))
	case "DictItem":
		return first(sub("DictItem_Named", "Named"), sub("DictItem_Keyed", "Keyed"), sub("DictItem_Spread", "Spread"))
	case "Arg":
		return first(sub("Arg_Named", "Named"), sub("Arg_Spread", "Spread"), ex("Arg_Pos", kind))
	case "Param":
		return first(sub("Param_Named", "Named"), sub("Param_Spread", "Spread"), wrap("Param_Pos", pat()))
	case "Pattern":
		return pat()
	case "DestructuringItem":
		return first(sub("DestructuringItem_Named", "Named"), sub("DestructuringItem_Spread", "Spread"), wrap("DestructuringItem_Pattern", pat()))
	case "ArrayItem_Pos", "Arg_Pos", "Pattern_Normal":
		return ex(T, kind)
	case "Param_Pos", "DestructuringItem_Pattern":
		return wrap(T, pat())
	case "Pattern_Placeholder":
		return sub(T, "Underscore")
	case "Pattern_Parenthesized", "Pattern_Destructuring":
		return sub(T, strings.TrimPrefix(T, "Pattern_"))
	}
	if i := strings.Index(T, "_"); i > 0 {
		return sub(T, T[i+1:])
	}
	if kind == T {
		return T + "(" + n + ")"
	}
	return ""
}

// viewTypes lists the concrete types which convert from untyped nodes.
func (w *World) viewTypes() map[string]bool {
	m := map[string]bool{}
	for _, f := range w.Funcs {
		if f.Name() == "from_untyped" && f.Signature.Recv() != nil && f.Synthetic == "" {
			t := f.Signature.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				m[n.Obj().Name()] = true
			}
		}
	}
	return m
}

func (r *Report) nodeShapes(k string) []absNode {
	if k == "Error" {
		return []absNode{leaf(k)}
	}
	return []absNode{leaf(k), inner(k, leaf("Text"))}
}

func runCasts(w *World, r *Report) {
	ks := w.kinds(r)
	views := w.viewTypes()
	r.check(len(views) >= 91, "anchor", "views", "-", "%d typed views found", len(views))
	kindsSorted := sortedKeys(ks.by)
	optDesc := func(s string) string {
		if s == "" {
			return "None"
		}
		return "Some(" + s + ")"
	}
	try := func(rule, what string, f *ssa.Function, T, k string, mkArgs func(p *Term) []*Term) {
		for i, n := range r.nodeShapes(k) {
			ip := NewInterp(w)
			st := NewState()
			p := r.build(ip, st, ks, n, "n")
			outs := ip.Call(f, mkArgs(p), nil, st, "T")
			r.visited(ip)
			got := "undecided"
			if len(outs) == 1 {
				if outs[0].panic {
					got = "panic: " + outs[0].msg
				} else {
					got = describe(outs[0].st, outs[0].val, 0)
				}
			}
			want := optDesc(viewOf(views, T, k, "n"))
			r.check(ip.Failed == "" && got == want, rule, fmt.Sprintf("%s of %s/%d", what, k, i), w.posOf(f), "a node of kind %s converts to %s, expected %s", k, got, want)
		}
	}
	// from_untyped and to_untyped of each view
	for _, T := range sortedKeys(views) {
		f := r.fn("(*" + syn + "." + T + ").from_untyped")
		to := r.fn("(*" + syn + "." + T + ").to_untyped")
		nt := w.NamedType(syn, T)
		for _, k := range kindsSorted {
			k := k
			try("view-of-kind", T, f, T, k, func(p *Term) []*Term { return []*Term{mkNil(types.NewPointer(nt)), p} })
			if d := viewOf(views, T, k, "n"); d != "" {
				ip := NewInterp(w)
				st := NewState()
				p := r.build(ip, st, ks, r.nodeShapes(k)[0], "n")
				outs := ip.Call(f, []*Term{mkNil(types.NewPointer(nt)), p}, nil, st, "T")
				got := "?"
				if len(outs) == 1 && !outs[0].panic {
					if ok, v := optGet(outs[0].st, outs[0].val); ok == 1 && v.op == "iface" {
						o2 := ip.Call(to, []*Term{v.args[0]}, nil, outs[0].st, "U")
						if len(o2) == 1 && !o2[0].panic {
							got = describe(o2[0].st, o2[0].val, 0)
						}
					}
				}
				r.visited(ip)
				r.check(got == "n", "view-to-node", T+" of "+k, w.posOf(to), "the view of node n gives back %s", got)
			}
		}
	}
	// expressions
	ef := r.fn(syn + ".Expr_from_untyped")
	es := r.fn(syn + ".Expr_cast_with_space")
	for _, k := range kindsSorted {
		try("view-of-kind", "expression", ef, "Expr", k, func(p *Term) []*Term { return []*Term{p} })
		T := "Expr"
		if k == "Space" {
			T = "Space"
		}
		try("view-of-kind", "expression with space", es, T, k, func(p *Term) []*Term { return []*Term{p} })
	}
	// every instantiation of the generic casts
	n := map[string]int{}
	var insts []*ssa.Function
	for _, f := range w.Funcs {
		if o := f.Origin(); o != nil && len(f.TypeArgs()) == 1 && strings.HasPrefix(w.Name(o), syn+".SyntaxNode_") {
			insts = append(insts, f)
		}
	}
	sort.Slice(insts, func(i, j int) bool { return insts[i].String() < insts[j].String() })
	for _, f := range insts {
		o := f.Origin().Name()
		T := strings.TrimPrefix(strings.TrimPrefix(typeName(f.TypeArgs()[0]), "*"), ".")
		if !views[T] && T != "Expr" && w.NamedType(syn, T) == nil {
			continue // type parameter of another generic function
		}
		if _, isTP := f.TypeArgs()[0].(*types.TypeParam); isTP {
			continue
		}
		n[o]++
		switch o {
		case "SyntaxNode_cast":
			for _, k := range kindsSorted {
				try("generic-cast", "cast to "+T, f, T, k, func(p *Term) []*Term { return []*Term{p} })
			}
		case "SyntaxNode_try_cast_first", "SyntaxNode_try_cast_last", "SyntaxNode_cast_first", "SyntaxNode_cast_last":
			last := strings.HasSuffix(o, "last")
			opt := strings.Contains(o, "try")
			// kinds which convert to T and one which does not
			var good []string
			for _, k := range kindsSorted {
				if viewOf(views, T, k, "n") != "" {
					good = append(good, k)
				}
			}
			if len(good) == 0 {
				r.check(false, "generic-cast", o+" "+T, w.posOf(f), "no kind converts to %s", T)
				continue
			}
			bad := leaf("Semicolon")
			for i, k1 := range good {
				k2 := good[(i+1)%len(good)]
				for s, kids := range [][]absNode{
					{bad, leaf(k1), bad, leaf(k2), leaf("Error")},
					{leaf(k1), leaf(k2)},
					{leaf("Space"), leaf("Error"), leaf(k1)},
				} {
					want := ""
					for c, kid := range kids {
						d := viewOf(views, T, kid.kind, fmt.Sprintf("n.%d", c))
						if d != "" && (last || want == "") {
							want = d
						}
					}
					r.shape("first-last-cast", fmt.Sprintf("%s[%s] %s shape %d", o, T, k1, s), f, ks, inner("Code", kids...), func(ip *Interp, st *State, p *Term) []*Term { return []*Term{p} }, map[bool]string{true: "Some(" + want + ")", false: want}[opt])
				}
			}
			for s, nn := range []absNode{inner("Code", bad, leaf("Error")), inner("Code"), leaf("Comma"), leaf("Error")} {
				r.shape("first-last-cast", fmt.Sprintf("%s[%s] absent %d", o, T, s), f, ks, nn, func(ip *Interp, st *State, p *Term) []*Term { return []*Term{p} }, map[bool]string{true: "None", false: "nil"}[opt])
			}
		}
	}
	r.floor("view-of-kind", 91*134)
	r.check(n["SyntaxNode_cast"] >= 12, "instance-floor", "SyntaxNode_cast", "-", "%d instantiations of the cast analysed", n["SyntaxNode_cast"])
	r.check(n["SyntaxNode_cast_first"] >= 4 && n["SyntaxNode_cast_last"] >= 2, "instance-floor", "SyntaxNode_cast_first", "-", "%v", n)
	r.note("instantiations: %v", n)
	// embedding and literal classification
	eh := r.fn(syn + ".Expr_hash")
	el := r.fn(syn + ".Expr_is_literal")
	hash := words("Ident None Auto Bool Int Float Numeric Str CodeBlock ContentBlock Array Dict Parenthesized FieldAccess FuncCall LetBinding SetRule ShowRule Contextual Conditional WhileLoop ForLoop ModuleImport ModuleInclude LoopBreak LoopContinue FuncReturn")
	lit := words("None Auto Bool Int Float Numeric Str")
	for _, k := range kindsSorted {
		if exprView(views, k) == "" {
			continue
		}
		for _, t := range []struct {
			f    *ssa.Function
			want map[string]bool
			nm   string
		}{{eh, hash, "embeddable"}, {el, lit, "literal"}} {
			ip := NewInterp(w)
			st := NewState()
			p := r.build(ip, st, ks, leaf(k), "n")
			v := r.view(ip, st, k, p)
			e := mkIface(v.typ, v, w.NamedType(syn, "Expr"))
			outs := ip.Call(t.f, []*Term{e}, nil, st, "T")
			r.visited(ip)
			got := "?"
			if len(outs) == 1 && !outs[0].panic {
				got = render(outs[0].st, outs[0].val)
			}
			r.check(got == fmt.Sprint(t.want[k]), "expression-class", t.nm+" "+k, w.posOf(t.f), "expression %s is %s: %s, expected %v", k, t.nm, got, t.want[k])
		}
	}
}

// shape analyses f on one abstract node and compares the description of the
// result.
func (r *Report) shape(rule, construct string, f *ssa.Function, ks *Kinds, n absNode, args func(ip *Interp, st *State, p *Term) []*Term, want string) {
	ip := NewInterp(r.w)
	st := NewState()
	p := r.build(ip, st, ks, n, "n")
	outs := ip.Call(f, args(ip, st, p), nil, st, "T")
	r.visited(ip)
	got := "undecided"
	if len(outs) == 1 {
		if outs[0].panic {
			got = "panic: " + outs[0].msg
		} else {
			got = describe(outs[0].st, outs[0].val, 0)
		}
	} else if len(outs) > 1 {
		got = fmt.Sprintf("%d results", len(outs))
		for _, o := range outs {
			if o.panic {
				got += " panic:" + o.msg
				continue
			}
			got += " " + describe(o.st, o.val, 0)
		}
	}
	r.check(ip.Failed == "" && got == want, rule, construct, r.w.posOf(f), "for %s the result is %s, expected %s", n, got, want)
}
