package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const syn = "typst/syntax"

// enum lists the constants of a named type of package rel whose names start
// with prefix, by name without the prefix.
func (w *World) enum(rel, typ, prefix string) map[string]*Term {
	m := map[string]*Term{}
	sp := w.SPkgs[rel]
	if sp == nil {
		return m
	}
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, prefix) {
			continue
		}
		nt, ok := c.Type().(*types.Named)
		if !ok || nt.Obj().Name() != typ {
			continue
		}
		m[strings.TrimPrefix(n, prefix)] = mkConst(constant.ToInt(c.Val()), c.Type())
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Kinds is the set of syntax kinds.
type Kinds struct {
	by   map[string]*Term
	name map[int64]string
}

func (w *World) kinds(r *Report) *Kinds {
	k := &Kinds{by: w.enum(syn, "SyntaxKind", "SyntaxKind"), name: map[int64]string{}}
	delete(k.by, "First") // aliases of the bounds
	delete(k.by, "Last")
	for n, t := range k.by {
		v, _ := t.intVal()
		k.name[v] = n
	}
	r.check(len(k.by) >= 130, "anchor", "SyntaxKind", "-", "%d syntax kinds resolved", len(k.by))
	r.check(len(k.name) == len(k.by), "kinds-distinct", "SyntaxKind", "-", "%d kinds have %d distinct values", len(k.by), len(k.name))
	return k
}

func (k *Kinds) of(t *Term) string {
	if v, ok := t.intVal(); ok {
		if n, ok := k.name[v]; ok {
			return n
		}
	}
	return t.String()
}

func (w *World) posOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return w.Pos(o.Pos())
	}
	return w.Pos(fn.Pos())
}

// evalOn evaluates fn on the given abstract arguments.
func (r *Report) evalOn(fn *ssa.Function, args ...*Term) ([]Outcome, *Interp) {
	ip := NewInterp(r.w)
	outs := ip.Call(fn, args, nil, NewState(), "T")
	r.visited(ip)
	if ip.Failed != "" {
		r.check(false, "analysis", r.w.Name(fn), r.w.posOf(fn), "undecided: %s", ip.Failed)
	}
	return outs, ip
}

// constOn evaluates fn on constant arguments and returns its single constant
// result as a string, "panic" or "?" with detail.
func (r *Report) constOn(fn *ssa.Function, args ...*Term) (string, *Outcome) {
	outs, _ := r.evalOn(fn, args...)
	if len(outs) != 1 {
		return fmt.Sprintf("?%d outcomes", len(outs)), nil
	}
	o := outs[0]
	if o.panic {
		return "panic", &o
	}
	return render(o.st, o.val), &o
}

// render prints a value; Options are resolved through the heap.
func render(st *State, v *Term) string {
	if v == nil {
		return "?"
	}
	if v.isConst() {
		if s, ok := v.strVal(); ok {
			return fmt.Sprintf("%q", s)
		}
		return v.cst.ExactString()
	}
	if isOption(v.typ) {
		some, x := optGet(st, v)
		if some == 0 {
			return "None"
		}
		if some == 1 {
			return "Some(" + render(st, x) + ")"
		}
		return "Option?(" + v.String() + ")"
	}
	switch v.op {
	case "tuple":
		var s []string
		for _, a := range v.args {
			s = append(s, render(st, a))
		}
		return "(" + strings.Join(s, ",") + ")"
	}
	return v.String()
}

func isOption(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Option"
}

// optGet: 1 present, 0 absent, -1 unknown.
func optGet(st *State, v *Term) (int, *Term) {
	if v.op != "struct" || len(v.args) != 1 {
		return -1, nil
	}
	p := v.args[0]
	switch p.op {
	case "nil":
		return 0, nil
	case "ptr":
		c, ok := st.heap[p.name]
		if !ok {
			return 1, mkSym("@"+p.name, nil)
		}
		for _, i := range p.args {
			c = project(c, i, fieldTypeAt(c.typ, i))
		}
		return 1, c
	}
	return -1, nil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func sliceOf(t types.Type) types.Type { return types.NewSlice(t) }
