package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Property{
		ID:    "T02",
		Title: "Classification and naming of syntax kinds",
		Rule: "Interprocedural conditional constant propagation of every classification predicate and of the name function over all syntax kinds; " +
			"the results are compared with the language's classification, and names must be non-empty, pairwise distinct and the documented ones. " +
			"Membership in the sets of kinds which may start a statement, expression, argument, parameter or pattern is propagated the same way.",
		Run: runKinds,
	})
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

const (
	wStmt     = "Let Set Show Import Include Return"
	wAtomic   = "Ident LeftBrace LeftBracket LeftParen Dollar Let Set Show Context If While For Import Include Break Continue Return None Auto Int Float Bool Numeric Str Label Raw"
	wUnary    = "Plus Minus Not"
	wMathExpr = "Hash MathIdent FieldAccess Dot Comma Semicolon RightParen Text MathText MathShorthand Linebreak MathAlignPoint Escape Str Root Prime"
)

var kindPreds = map[string]string{
	"IsGrouping":   "LeftBracket LeftBrace LeftParen RightBracket RightBrace RightParen",
	"IsTerminator": "End Semicolon RightBrace RightParen RightBracket",
	"IsBlock":      "CodeBlock ContentBlock",
	"IsStmt":       "LetBinding SetRule ShowRule ModuleImport ModuleInclude",
	"IsKeyword":    "Not And Or None Auto Let Set Show Context If Else For In While Break Continue Return Import Include As",
	"IsTrivia":     "Shebang LineComment BlockComment Space Parbreak",
	"IsError":      "Error",
}

var kindSets = map[string]string{
	"StmtSet":              wStmt,
	"MathExprSet":          wMathExpr,
	"CodeExprSet":          wAtomic + " Underscore " + wUnary,
	"AtomicCodeExprSet":    wAtomic,
	"CodePrimarySet":       wAtomic + " Underscore",
	"AtomicCodePrimarySet": wAtomic,
	"ArrayOrDictItemSet":   wAtomic + " Underscore Dots " + wUnary,
	"ArgSet":               wAtomic + " Underscore Dots " + wUnary,
	"PatternLeafSet":       wAtomic,
	"PatternSet":           wAtomic + " Underscore LeftParen",
	"ParamSet":             wAtomic + " Underscore LeftParen Dots",
	"DestructuringItemSet": wAtomic + " Underscore LeftParen Dots",
}

func runKinds(w *World, r *Report) {
	ks := w.kinds(r)
	for _, p := range sortedKeys(kindPreds) {
		f := r.fn("(" + syn + ".SyntaxKind)." + p)
		want := words(kindPreds[p])
		for _, k := range sortedKeys(ks.by) {
			got, _ := r.constOn(f, ks.by[k])
			r.check(got == fmt.Sprint(want[k]), "kind-predicate", p+" "+k, w.posOf(f), "%s(%s) is %s, expected %v", p, k, got, want[k])
		}
	}
	for _, s := range sortedKeys(kindSets) {
		set := r.kindSet(s, ks)
		want := words(kindSets[s])
		for _, k := range sortedKeys(ks.by) {
			r.check(set[k] == want[k], "kind-set", s+" "+k, w.Pos(w.SPkgs[syn].Var(s).Pos()), "%s contains %s: %v, expected %v", s, k, set[k], want[k])
		}
	}
	name := r.fn("(" + syn + ".SyntaxKind).Name")
	str := r.fn("(" + syn + ".SyntaxKind).String")
	seen := map[string]string{}
	for _, k := range sortedKeys(ks.by) {
		got, _ := r.constOn(name, ks.by[k])
		got2, _ := r.constOn(str, ks.by[k])
		r.check(got == got2, "kind-name-string", k, w.posOf(str), "printed as %s but named %s", got2, got)
		if want, ok := kindNames[k]; ok {
			r.check(got == fmt.Sprintf("%q", want), "kind-name", k, w.posOf(name), "named %s, documented as %q", got, want)
		}
		r.check(strings.HasPrefix(got, `"`) && got != `""`, "kind-name-nonempty", k, w.posOf(name), "name is %s", got)
		if o, dup := seen[got]; dup {
			r.check(false, "kind-name-distinct", k, w.posOf(name), "has the same name as %s", o)
		}
		seen[got] = k
	}
	for k := range kindNames {
		r.check(ks.by[k] != nil, "anchor", k, "-", "kind not found")
	}
	r.floor("kind-predicate", 7*134)
	r.floor("kind-set", 12*134)
	setOps(w, r, ks)
}

// setOps checks the set operations themselves on abstract sets.
func setOps(w *World, r *Report, ks *Kinds) {
	newSet := r.fn(syn + ".NewSyntaxSet")
	add := r.fn("(*" + syn + ".SyntaxSet).Add")
	union := r.fn("(*" + syn + ".SyntaxSet).Union")
	contains := r.fn("(*" + syn + ".SyntaxSet).Contains")
	names := sortedKeys(ks.by)
	kt := ks.by["End"].typ
	for _, k := range names {
		ip := NewInterp(w)
		st := NewState()
		// {k}, {k} ∪ {End}, {End}+k; the operands stay as they were
		mk := func(tag string, kk ...*Term) *Term {
			sl := ip.newSlice(st, "new:arg"+tag, sliceOf(kt), kk)
			o := ip.Call(newSet, []*Term{sl}, nil, st, "mk"+tag)
			if len(o) != 1 || o[0].panic {
				r.check(false, "set-operation", "new "+k, w.posOf(newSet), "undecided")
				panic(abort{})
			}
			st = o[0].st
			return o[0].val
		}
		call := func(f string, fn interface{ String() string }, o []Outcome) *Term {
			if len(o) != 1 || o[0].panic {
				r.check(false, "set-operation", f+" "+k, "-", "undecided")
				panic(abort{})
			}
			st = o[0].st
			return o[0].val
		}
		a := mk("a", ks.by[k])
		b := mk("b", ks.by["End"])
		u := call("union", union, ip.Call(union, []*Term{a, b}, nil, st, "u"))
		d := call("add", add, ip.Call(add, []*Term{b, ks.by[k]}, nil, st, "d"))
		has := func(s *Term, x string) string {
			o := ip.Call(contains, []*Term{s, ks.by[x]}, nil, st.clone(), "c")
			if len(o) != 1 || o[0].panic {
				return "?"
			}
			return render(o[0].st, o[0].val)
		}
		other := "Error"
		if k == "Error" {
			other = "Text"
		}
		for _, t := range []struct {
			s    *Term
			nm   string
			x    string
			want bool
		}{
			{a, "new", k, true}, {a, "new", "End", k == "End"}, {a, "new", other, false},
			{u, "union", k, true}, {u, "union", "End", true}, {u, "union", other, false},
			{d, "add", k, true}, {d, "add", "End", true}, {d, "add", other, false},
			{b, "operand", k, k == "End"}, {b, "operand", "End", true},
		} {
			got := has(t.s, t.x)
			r.check(got == fmt.Sprint(t.want), "set-operation", t.nm+" of "+k+" on "+t.x, w.posOf(contains), "contains is %s, expected %v", got, t.want)
		}
		r.visited(ip)
	}
}
