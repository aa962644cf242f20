package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Accessors of typed views: each method is analysed on every child list up to
// a bound over the kinds that matter to its construct, and on one child of
// every kind; the result is compared with the meaning of the accessor, stated
// over the list.

// kidList is a child list with the expected casts.
type kidList struct {
	views map[string]bool
	kids  []absNode
	name  string
}

func (c kidList) cast(T string, i int) string {
	return viewOf(c.views, T, c.kids[i].kind, fmt.Sprintf("%s.%d", c.name, i))
}

// all lists the children that convert to T.
func (c kidList) all(T string) []string {
	var r []string
	for i := range c.kids {
		if d := c.cast(T, i); d != "" {
			r = append(r, d)
		}
	}
	return r
}

// nth is the i-th child that converts to T.
func (c kidList) nth(T string, i int) string {
	a := c.all(T)
	if i < 0 {
		i += len(a)
	}
	if i < 0 || i >= len(a) {
		return ""
	}
	return a[i]
}

// after is the first child behind the first one of kind k that converts to T.
func (c kidList) after(k, T string) string {
	seen := false
	for i := range c.kids {
		if d := c.cast(T, i); seen && d != "" {
			return d
		}
		seen = seen || c.kids[i].kind == k
	}
	return ""
}

func (c kidList) sub(i int) kidList {
	return kidList{c.views, c.kids[i].kids, fmt.Sprintf("%s.%d", c.name, i)}
}

// index is the position of the first (last) child that converts to T.
func (c kidList) index(T string, last bool) int {
	r := -1
	for i := range c.kids {
		if c.cast(T, i) != "" && (r < 0 || last) {
			r = i
		}
	}
	return r
}

const outside = "outside" // of the precondition

// bindings are the identifiers bound by the pattern at child i.
func (c kidList) bindings(i int) ([]string, bool) {
	if i < 0 {
		return nil, false
	}
	switch k := c.kids[i].kind; k {
	case "Ident":
		return []string{c.cast("Ident", i)}, true
	case "Parenthesized":
		s := c.sub(i)
		return s.bindings(s.index("Pattern", false))
	case "Destructuring":
		return c.sub(i).allBindings()
	default:
		return nil, c.cast("Pattern", i) != ""
	}
}

func (c kidList) allBindings() ([]string, bool) {
	var r []string
	for i, k := range c.kids {
		s := c.sub(i)
		switch {
		case k.kind == "Named":
			b, ok := s.bindings(s.index("Pattern", true))
			if !ok {
				return nil, false
			}
			r = append(r, b...)
		case k.kind == "Spread":
			if d := s.nth("Ident", 0); d != "" {
				r = append(r, d)
			}
		case c.cast("Pattern", i) != "":
			b, ok := c.bindings(i)
			if !ok {
				return nil, false
			}
			r = append(r, b...)
		}
	}
	return r, true
}

type accessor struct {
	name  string // view.method
	kids  string // child kinds that matter
	wants func(c kidList) string
	alpha []absNode
	then  string // method called on the results
}

func opt(d string) string {
	if d == "" {
		return "None"
	}
	return "Some(" + d + ")"
}

func orNil(d string) string {
	if d == "" {
		return "nil"
	}
	return d
}

func listOf(a []string) string {
	if len(a) == 0 {
		return "nil"
	}
	return "[" + strings.Join(a, " ") + "]"
}

func first(T string) func(kidList) string {
	return func(c kidList) string { return orNil(c.nth(T, 0)) }
}
func last(T string) func(kidList) string {
	return func(c kidList) string { return orNil(c.nth(T, -1)) }
}
func every(T string) func(kidList) string {
	return func(c kidList) string { return listOf(c.all(T)) }
}

// orNone is the default expression.
func orNone(d string) string {
	if d == "" {
		return "None(default)"
	}
	return d
}

// exprs are the children that are expressions, with spaces.
func exprs(afterStmt bool, stmt map[string]bool) func(kidList) string {
	return func(c kidList) string {
		var r []string
		for i, k := range c.kids {
			d := c.cast("Expr", i)
			if k.kind == "Space" && !(afterStmt && i > 0 && stmt[c.kids[i-1].kind]) {
				d = c.cast("Space", i)
			}
			if d != "" {
				r = append(r, d)
			}
		}
		return listOf(r)
	}
}

var stmtKinds = words("LetBinding SetRule ShowRule ModuleImport ModuleInclude")
var triviaKinds = words("Shebang LineComment BlockComment Space Parbreak")

func constVal(v any) string { return fmt.Sprint(v) }

func accessors() []accessor {
	id := leaf("Ident")
	t := func(k string, texts ...string) []absNode {
		var r []absNode
		for _, s := range texts {
			r = append(r, leafText(k, s))
		}
		return r
	}
	cat := func(a ...[]absNode) []absNode {
		var r []absNode
		for _, x := range a {
			r = append(r, x...)
		}
		return r
	}
	fenced := func(c kidList) bool {
		for _, k := range c.kids {
			if k.kind == "RawDelim" {
				s, _ := k.text.strVal()
				return len(s) >= 3
			}
		}
		return false
	}
	binds := func(c kidList) string {
		b, ok := c.allBindings()
		if !ok {
			return outside
		}
		return listOf(b)
	}
	// patterns with parts
	pats := []absNode{id, inner("Parenthesized", leaf("LeftParen"), id), inner("Parenthesized", inner("Destructuring", id, id)), inner("Destructuring", id, leaf("Comma"), leaf("Underscore")),
		inner("Destructuring", inner("Spread", id)), inner("Named", id, leaf("Colon"), id), inner("Named", id, inner("Destructuring", id)), inner("Spread", leaf("Dots"), id), inner("Spread", leaf("Dots")),
		leaf("Underscore"), leaf("Int"), leaf("Space"), inner("FieldAccess", id)}
	closure := inner("Closure", id, inner("Params", id), id)
	anon := inner("Closure", inner("Params", id), id)
	letKind := func(c kidList) (closure bool, at int) {
		at = c.index("Pattern", false)
		return at >= 0 && c.kids[at].kind == "Closure", at
	}
	pair := "Ident Colon Str Space Error"
	path := inner("ImportItemPath", id, leaf("Dot"), id)
	renamed := inner("RenamedImportItem", path, leaf("As"), id)
	items := []absNode{renamed, path, inner("RenamedImportItem", inner("ImportItemPath", id), leaf("Space"), leaf("As"), id), inner("ImportItemPath", id, leaf("Dot"), id, leaf("Dot"), id), leaf("Comma"), leaf("Space")}
	imported := func(f func(c kidList, path, as string) string) func(kidList) string {
		return func(c kidList) string {
			var r []string
			for i, k := range c.kids {
				switch k.kind {
				case "RenamedImportItem":
					s := c.sub(i)
					r = append(r, f(s.sub(0), s.cast("ImportItemPath", 0), s.nth("Ident", -1)))
				case "ImportItemPath":
					r = append(r, f(c.sub(i), c.cast("ImportItemPath", i), ""))
				}
			}
			return listOf(r)
		}
	}
	return []accessor{
		{name: "Markup.exprs", kids: "LetBinding ModuleInclude Space Text Parbreak Semicolon Conditional", wants: exprs(true, stmtKinds)},
		{name: "Math.exprs", kids: "MathText MathAttach Space Hash LetBinding Ident", wants: exprs(false, nil)},
		{name: "Code.exprs", kids: "Ident Semicolon Space LetBinding Underscore Error", wants: every("Expr")},
		{name: "Strong.body", kids: "Star Markup Error Space Text", wants: first("Markup")},
		{name: "Emph.body", kids: "Underscore Markup Error Space", wants: first("Markup")},
		{name: "Heading.body", kids: "HeadingMarker Markup Space Label", wants: first("Markup")},
		{name: "ListItem.body", kids: "ListMarker Markup Space", wants: first("Markup")},
		{name: "EnumItem.body", kids: "EnumMarker Markup Space", wants: first("Markup")},
		{name: "ContentBlock.body", kids: "LeftBracket Markup RightBracket Error", wants: first("Markup")},
		{name: "TermItem.term", kids: "TermMarker Markup Colon Space", wants: first("Markup")},
		{name: "TermItem.description", kids: "TermMarker Markup Colon Space", wants: last("Markup")},
		{name: "Heading.depth", alpha: cat(t("HeadingMarker", "=", "==", "======"), []absNode{leaf("Markup"), leaf("Space")}), wants: func(c kidList) string {
			for _, k := range c.kids {
				if k.kind == "HeadingMarker" {
					s, _ := k.text.strVal()
					return constVal(len(s))
				}
			}
			return "1"
		}},
		{name: "Raw.lines", kids: "RawDelim RawLang RawTrimmed Text", wants: every("Text")},
		{name: "Raw.lang", alpha: cat(t("RawDelim", "`", "``", "```", "`````"), t("RawLang", "typ", "c"), t("Text", "x")), wants: func(c kidList) string {
			if !fenced(c) {
				return "None"
			}
			return opt(c.nth("RawLang", 0))
		}},
		{name: "Raw.block", alpha: cat(t("RawDelim", "`", "```", "````"), t("RawTrimmed", " ", "\n", " \r\n ", "\u2028", ""), t("Text", "\n")), wants: func(c kidList) string {
			b := false
			for _, k := range c.kids {
				s, ok := "", false
				if k.text != nil {
					s, ok = k.text.strVal()
				}
				b = b || ok && k.kind == "RawTrimmed" && strings.ContainsAny(s, "\n\r\u2028")
			}
			return constVal(b && fenced(c))
		}},
		{name: "Ref.supplement", kids: "RefMarker ContentBlock Space", wants: func(c kidList) string { return opt(c.nth("ContentBlock", -1)) }},
		{name: "Equation.body", kids: "Dollar Math Space Error", wants: first("Math")},
		{name: "Equation.block", kids: "Dollar Math Space Error", wants: func(c kidList) string {
			n := len(c.kids)
			return constVal(n >= 2 && c.kids[1].kind == "Space" && c.kids[n-2].kind == "Space")
		}},
		{name: "Math.was_deparenthesized", kids: "LeftParen RightParen MathText Space", wants: func(c kidList) string {
			n := len(c.kids)
			return constVal(n >= 2 && c.kids[0].kind == "LeftParen" && c.kids[n-1].kind == "RightParen")
		}},
		{name: "MathDelimited.open", kids: "MathText MathShorthand Math Space Error", wants: first("Expr")},
		{name: "MathDelimited.body", kids: "MathText MathShorthand Math Space Error", wants: first("Math")},
		{name: "MathDelimited.close", kids: "MathText MathShorthand Math Space Error", wants: last("Expr")},
		{name: "MathAttach.base", kids: "MathText MathPrimes Underscore Hat Space Math", wants: first("Expr")},
		{name: "MathAttach.bottom", kids: "MathText MathPrimes Underscore Hat Space", wants: func(c kidList) string { return opt(c.after("Underscore", "Expr")) }},
		{name: "MathAttach.top", kids: "MathText MathPrimes Underscore Hat Space", wants: func(c kidList) string { return opt(c.after("Hat", "Expr")) }},
		{name: "MathAttach.primes", kids: "MathText MathPrimes Underscore Hat Space", wants: func(c kidList) string {
			if d := c.nth("Expr", 1); strings.HasPrefix(d, "MathPrimes(") {
				return opt(d)
			}
			return "None"
		}},
		{name: "MathPrimes.count", kids: "Prime Space Error Text", wants: func(c kidList) string {
			n := 0
			for _, k := range c.kids {
				if k.kind == "Prime" {
					n++
				}
			}
			return constVal(n)
		}},
		{name: "MathFrac.num", kids: "Math MathText Slash Space Error", wants: first("Expr")},
		{name: "MathFrac.denom", kids: "Math MathText Slash Space Error", wants: last("Expr")},
		{name: "MathRoot.index", alpha: cat(t("Root", "√", "∛", "∜"), t("MathText", "x", "√"), t("Space", " ")), wants: func(c kidList) string {
			for _, k := range c.kids {
				if k.text == nil {
					continue
				}
				switch s, _ := k.text.strVal(); s {
				case "√":
					return "None"
				case "∛":
					return "Some(3)"
				case "∜":
					return "Some(4)"
				}
			}
			return "None"
		}},
		{name: "MathRoot.radicand", kids: "Root Math MathText Space", wants: first("Expr")},
		{name: "CodeBlock.body", kids: "LeftBrace Code RightBrace Error", wants: first("Code")},
		{name: "Parenthesized.expr", kids: "LeftParen Ident Underscore Destructuring Space RightParen", wants: first("Expr")},
		{name: "Parenthesized.pattern", kids: "LeftParen Ident Underscore Destructuring Parenthesized Space", wants: first("Pattern")},
		{name: "Array.items", kids: "LeftParen Ident Spread Named Comma Space Error", wants: every("ArrayItem")},
		{name: "Dict.items", kids: "Named Keyed Spread Ident Comma Colon", wants: every("DictItem")},
		{name: "Named.name", kids: pair, wants: first("Ident")},
		{name: "Named.expr", kids: pair, wants: last("Expr")},
		{name: "Named.pattern", kids: "Ident Colon Underscore Destructuring Space Parenthesized", wants: last("Pattern")},
		{name: "Keyed.key", kids: pair, wants: first("Expr")},
		{name: "Keyed.expr", kids: pair, wants: last("Expr")},
		{name: "Spread.expr", kids: "Dots Ident FuncCall Space Error", wants: first("Expr")},
		{name: "Spread.sink_ident", kids: "Dots Ident FuncCall Space", wants: func(c kidList) string { return opt(c.nth("Ident", 0)) }},
		{name: "Spread.sink_expr", kids: "Dots Ident FuncCall Space", wants: func(c kidList) string { return opt(c.nth("Expr", 0)) }},
		{name: "Unary.expr", kids: "Minus Not Ident Unary Space", wants: last("Expr")},
		{name: "Binary.lhs", kids: "Plus Ident Binary Int Space", wants: first("Expr")},
		{name: "Binary.rhs", kids: "Plus Ident Binary Int Space", wants: last("Expr")},
		{name: "FieldAccess.target", kids: "Ident Dot FuncCall MathIdent Error", wants: first("Expr")},
		{name: "FieldAccess.field", kids: "Ident Dot FuncCall MathIdent Error", wants: last("Ident")},
		{name: "FuncCall.callee", kids: "Ident FieldAccess Args MathIdent", wants: first("Expr")},
		{name: "FuncCall.args", kids: "Ident FieldAccess Args MathIdent", wants: last("Args")},
		{name: "Args.items", kids: "LeftParen Ident Named Spread Comma ContentBlock Error", wants: every("Arg")},
		{name: "Args.trailing_comma", kids: "LeftParen Ident Comma Space BlockComment RightParen", wants: func(c kidList) string {
			for i := len(c.kids) - 2; i >= 0; i-- {
				if !triviaKinds[c.kids[i].kind] {
					return constVal(c.kids[i].kind == "Comma")
				}
			}
			return "false"
		}},
		{name: "Closure.name", kids: "Ident Params Arrow Space Eq", wants: func(c kidList) string {
			if len(c.kids) > 0 {
				return opt(c.cast("Ident", 0))
			}
			return "None"
		}},
		{name: "Closure.params", kids: "Ident Params Arrow Space", wants: first("Params")},
		{name: "Closure.body", kids: "Ident Params Arrow CodeBlock Space", wants: last("Expr")},
		{name: "Params.children", kids: "LeftParen Ident Underscore Named Spread Destructuring Comma", wants: every("Param")},
		{name: "Destructuring.items", kids: "Ident Underscore Named Spread Parenthesized Comma", wants: every("DestructuringItem")},
		{name: "Destructuring.bindings", alpha: pats, wants: binds},
		{name: "LetBinding.kind", alpha: []absNode{leaf("Let"), leaf("Space"), id, closure, anon, leaf("Underscore"), inner("Destructuring", id), leaf("Eq"), leaf("Int")}, wants: func(c kidList) string {
			cl, at := letKind(c)
			if cl {
				if d := c.sub(at).cast("Ident", 0); d != "" {
					return "LetBindingKind_Closure(" + d + ")"
				}
				return "LetBindingKind_Closure(Ident(default))"
			}
			return "LetBindingKind_Normal(" + orNil(c.nth("Pattern", 0)) + ")"
		}},
		{name: "LetBinding.kind", then: "bindings", alpha: []absNode{leaf("Let"), id, closure, anon, leaf("Underscore"), inner("Destructuring", id, leaf("Comma"), inner("Spread", id)), inner("Parenthesized", id), leaf("Eq"), leaf("Int")}, wants: func(c kidList) string {
			cl, at := letKind(c)
			if cl {
				if d := c.sub(at).cast("Ident", 0); d != "" {
					return "[" + d + "]"
				}
				return "[Ident(default)]"
			}
			b, ok := c.bindings(at)
			if !ok {
				return outside
			}
			return listOf(b)
		}},
		{name: "ImportItems.iter", then: "path", alpha: items, wants: imported(func(c kidList, p, as string) string { return p })},
		{name: "ImportItems.iter", then: "original_name", alpha: items, wants: imported(func(c kidList, p, as string) string { return orNil(c.nth("Ident", -1)) })},
		{name: "ImportItems.iter", then: "bound_name", alpha: items, wants: imported(func(c kidList, p, as string) string {
			if as != "" {
				return as
			}
			return orNil(c.nth("Ident", -1))
		})},
		{name: "LetBinding.init", alpha: []absNode{leaf("Let"), leaf("Space"), id, closure, leaf("Underscore"), inner("Destructuring", id), inner("Parenthesized", id), leaf("Eq"), leaf("Int")}, wants: func(c kidList) string {
			cl, at := letKind(c)
			if !cl && at >= 0 && c.kids[at].kind != "Underscore" && c.kids[at].kind != "Destructuring" {
				return opt(c.nth("Expr", 1))
			}
			return opt(c.nth("Expr", 0))
		}},
		{name: "DestructAssignment.pattern", kids: "Destructuring Eq Ident Space Array", wants: first("Pattern")},
		{name: "DestructAssignment.value", kids: "Destructuring Eq Ident Space Array", wants: last("Expr")},
		{name: "SetRule.target", kids: "Set Ident FieldAccess Args If Space", wants: first("Expr")},
		{name: "SetRule.args", kids: "Set Ident FieldAccess Args If Space", wants: last("Args")},
		{name: "SetRule.condition", kids: "Set Ident Bool Args If Space", wants: func(c kidList) string { return opt(c.after("If", "Expr")) }},
		{name: "ShowRule.selector", kids: "Show Ident Colon SetRule Space Str", wants: func(c kidList) string {
			seen := false
			for i := len(c.kids) - 1; i >= 0; i-- {
				if d := c.cast("Expr", i); seen && d != "" {
					return opt(d)
				}
				seen = seen || c.kids[i].kind == "Colon"
			}
			return "None"
		}},
		{name: "ShowRule.transform", kids: "Show Ident Colon SetRule Space", wants: last("Expr")},
		{name: "Contextual.body", kids: "Context Ident CodeBlock Space", wants: first("Expr")},
		{name: "Conditional.condition", kids: "If Ident CodeBlock Else Space", wants: first("Expr")},
		{name: "Conditional.if_body", kids: "If Ident CodeBlock Else Space", wants: func(c kidList) string { return orNone(c.nth("Expr", 1)) }},
		{name: "Conditional.else_body", kids: "If Ident CodeBlock Else Conditional", wants: func(c kidList) string { return opt(c.nth("Expr", 2)) }},
		{name: "WhileLoop.condition", kids: "While Bool ContentBlock Space", wants: first("Expr")},
		{name: "WhileLoop.body", kids: "While Bool ContentBlock Space", wants: last("Expr")},
		{name: "ForLoop.pattern", kids: "For Destructuring Underscore In Ident Space", wants: first("Pattern")},
		{name: "ForLoop.iterable", kids: "For Destructuring Underscore In Ident ContentBlock", wants: func(c kidList) string { return orNone(c.after("In", "Expr")) }},
		{name: "ForLoop.body", kids: "For Destructuring In Ident ContentBlock Space", wants: last("Expr")},
		{name: "ModuleImport.source", kids: "Import Str Ident Colon ImportItems Star", wants: first("Expr")},
		{name: "ModuleImport.imports", kids: "Import Str Colon ImportItems Star As Ident", wants: func(c kidList) string {
			for i, k := range c.kids {
				switch k.kind {
				case "Star":
					return "Some(Imports_Wildcard())"
				case "ImportItems":
					return "Some(Imports_Items(" + c.cast("ImportItems", i) + "))"
				}
			}
			return "None"
		}},
		{name: "ModuleImport.new_name", kids: "Import Ident As Space Error ImportItems", wants: func(c kidList) string { return opt(c.after("As", "Ident")) }},
		{name: "ImportItems.iter", alpha: []absNode{renamed, path, leaf("Comma"), leaf("Space"), id, leaf("Error")}, wants: func(c kidList) string {
			var r []string
			for i, k := range c.kids {
				switch k.kind {
				case "RenamedImportItem":
					r = append(r, "ImportItem_Renamed("+c.cast("RenamedImportItem", i)+")")
				case "ImportItemPath":
					r = append(r, "ImportItem_Simple("+c.cast("ImportItemPath", i)+")")
				}
			}
			return listOf(r)
		}},
		{name: "ImportItemPath.iter", kids: "Ident Dot Space Error", wants: every("Ident")},
		{name: "ImportItemPath.name", kids: "Ident Dot Space Error", wants: last("Ident")},
		{name: "RenamedImportItem.path", kids: "ImportItemPath As Ident Space", wants: first("ImportItemPath")},
		{name: "RenamedImportItem.new_name", kids: "ImportItemPath As Ident Space", wants: last("Ident")},
		{name: "RenamedImportItem.original_name", alpha: []absNode{path, inner("ImportItemPath", id), leaf("As"), id}, wants: func(c kidList) string {
			i := c.index("ImportItemPath", false)
			if i < 0 {
				return outside
			}
			return orNil(c.sub(i).nth("Ident", -1))
		}},
		{name: "ModuleInclude.source", kids: "Include Str Ident Space", wants: last("Expr")},
		{name: "FuncReturn.body", kids: "Return Ident CodeBlock Space", wants: func(c kidList) string { return opt(c.nth("Expr", -1)) }},
	}
}

// lists calls f with every list over the alphabet up to n elements.
func lists(alpha []absNode, n int, f func([]absNode)) {
	cur := []absNode{}
	var rec func(int)
	rec = func(n int) {
		f(append([]absNode{}, cur...))
		if n == 0 {
			return
		}
		for _, a := range alpha {
			cur = append(cur, a)
			rec(n - 1)
			cur = cur[:len(cur)-1]
		}
	}
	rec(n)
}

func init() {
	register(&Property{ID: "T26", Run: func(w *World, r *Report) {
		ks := w.kinds(r)
		views := w.viewTypes()
		max := 3
		if r.Tier == "thorough" {
			max = 4
		}
		total := 0
		for _, a := range accessors() {
			view, method, _ := strings.Cut(a.name, ".")
			f := r.fn("(*" + syn + "." + view + ")." + method)
			alpha := a.alpha
			for _, k := range strings.Fields(a.kids) {
				alpha = append(alpha, leaf(k))
			}
			var bad []string
			n, out := 0, 0
			try := func(kids []absNode) {
				want := a.wants(kidList{views, kids, "n"})
				if want == outside {
					out++
					return
				}
				n++
				got := r.accessed(ks, f, view, a.then, kids)
				if got != want {
					bad = append(bad, fmt.Sprintf("on %s the result is %s, expected %s", inner(view, kids...), got, want))
				}
			}
			lists(alpha, max, try)
			if a.kids != "" {
				for _, k := range sortedKeys(ks.by) {
					try([]absNode{leaf(k)})
					try([]absNode{leaf("Semicolon"), leaf(k)})
				}
			}
			total += n
			detail := fmt.Sprintf("%d child lists agree (%d outside the precondition)", n, out)
			if len(bad) > 0 {
				detail = fmt.Sprintf("%d of %d child lists disagree: %s", len(bad), n, bad[0])
			}
			name := a.name
			if a.then != "" {
				name += "." + a.then
			}
			r.check(len(bad) == 0 && n > 20, "accessor", name, w.posOf(f), "%s", detail)
		}
		r.note("%d child lists analysed, up to %d children", total, max)
		r.check(total > 20000, "floor", "accessor", "-", "%d child lists", total)
	}})
}

// placeholder matches a view of a new leaf.
var placeholder = regexp.MustCompile(`(\w+)\(SyntaxNode\((LeafNode\([^()]*\))\)\)`)

// accessed is the result of an accessor on a view of the given children.
func (r *Report) accessed(ks *Kinds, f *ssa.Function, view, then string, kids []absNode) string {
	ip := NewInterp(r.w)
	ip.Enum = true
	ip.MaxVisits = 12
	ip.MaxRec = 12
	st := NewState()
	p := r.build(ip, st, ks, inner(view, kids...), "n")
	for o := range st.heap {
		delete(objNames, o)
	}
	outs := ip.Call(f, []*Term{r.view(ip, st, view, p)}, nil, st, "T")
	if then != "" {
		outs = r.onEach(ip, outs, then)
	}
	r.visited(ip)
	if ip.Failed != "" {
		return "undecided: " + ip.Failed
	}
	res := "no result"
	for i, o := range outs {
		d := "panic: " + o.msg
		if !o.panic {
			d = placeholder.ReplaceAllStringFunc(describe(o.st, o.val, 0), func(s string) string {
				if m := placeholder.FindStringSubmatch(s); regexp.MustCompile(`\b` + ks.by[m[1]].String() + `\b`).MatchString(m[2]) {
					return m[1] + "(default)"
				}
				return s
			})
		}
		if i > 0 && d != res {
			return res + " or " + d
		}
		res = d
	}
	return res
}

// onEach replaces the results by those of their method.
func (r *Report) onEach(ip *Interp, outs []Outcome, method string) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		el, list := []*Term{o.val}, o.val.op != "iface"
		if list {
			el, _ = sliceElemsOf(ip, o.st, o.val)
		}
		var vals []*Term
		var t types.Type
		cur := o
		for _, e := range el {
			if cur.panic {
				break
			}
			f := r.fn("(*" + syn + "." + strings.TrimPrefix(typeName(e.args[0].typ.Underlying().(*types.Pointer).Elem()), ".") + ")." + method)
			t = f.Signature.Results().At(0).Type()
			n := ip.Call(f, []*Term{e.args[0]}, nil, cur.st, fmt.Sprintf("T%d", len(vals)))
			if len(n) != 1 {
				cur = Outcome{st: cur.st, panic: true, msg: fmt.Sprintf("%d results", len(n))}
				break
			}
			cur = n[0]
			if !cur.panic {
				vals = append(vals, cur.val)
			}
		}
		if !cur.panic && list {
			cur.val = mkNil(nil)
			if len(vals) > 0 {
				cur.val = ip.newSlice(cur.st, "new:results", types.NewSlice(t), vals)
			}
		}
		res = append(res, cur)
	}
	return res
}
