package main

import (
	"go/types"
	"strings"
)

// object allocates a struct of a named type with the given fields.
func (r *Report) object(st *State, rel, typ, name string, fields map[string]*Term) *Term {
	t := r.named(rel, typ)
	s := t.Underlying().(*types.Struct)
	v := zero(t)
	a := append([]*Term{}, v.args...)
	done := 0
	for i := 0; i < s.NumFields(); i++ {
		if f, ok := fields[s.Field(i).Name()]; ok {
			a[i] = f
			done++
		}
	}
	if done != len(fields) {
		r.check(false, "anchor", typ, "-", "fields of %s not found", typ)
		panic(abort{})
	}
	st.heap["new:"+name] = mkStruct(t, a)
	return mkPtr("new:"+name, types.NewPointer(t))
}

func (r *Report) named(rel, typ string) *types.Named {
	t := r.w.NamedType(rel, typ)
	if t == nil {
		r.check(false, "anchor", typ, "-", "type %s not found", typ)
		panic(abort{})
	}
	return t.(*types.Named)
}

// lexUnit prepares the analysis of a method of the lexer in the given mode on a
// text of which before characters precede the cursor.
func (r *Report) lexUnit(name, method, mode string, before, cells int, set func(st *State, t *tape)) *Unit {
	w := r.w
	ip := NewInterp(w)
	ip.MaxSteps = 40000000
	st := NewState()
	text := newTape(st, "T", before, cells)
	t := tapes["T"]
	cur := t.off(before)
	sc := r.object(st, "internal/scanner", "Scanner", "scanner", map[string]*Term{"text": text, "cursor": cur})
	md := w.enum(syn, "SyntaxMode", "SyntaxMode")[mode]
	if md == nil {
		r.check(false, "anchor", mode, "-", "mode not found")
		panic(abort{})
	}
	lx := r.object(st, syn, "Lexer", "lexer", map[string]*Term{"s": sc, "mode": md, "newline": mkSym("newline0", boolT)})
	if set != nil {
		set(st, t)
	}
	fn := r.fn("(*" + syn + ".Lexer)." + method)
	u := &Unit{Name: name, Fn: fn, Interp: ip, St: st, Args: []*Term{lx}}
	u.Roots = map[string]*Term{"lexer": lx, "scanner": sc}
	u.Hide = func(k string) bool { return k == "lexer.s" || k == "scanner.text" }
	return u
}

// lexDef is one unit of the lexer: method in mode, with before characters
// before the cursor and cells characters in total.
type lexDef struct {
	name, method, mode string
	before, cells      int
	first              []string // restricts the first characters (sets by name)
	args               func(st *State, t *tape) []*Term
	thorough           bool
}

var lexSets = map[string]*RuneSet{}

func lexSet(w string) *RuneSet {
	switch w {
	case "*":
		return allRunes
	case "digit":
		return digitSet(10)
	case "digit.":
		return digitSet(10).or(runes('.'))
	case "newline":
		return runes('\n', '\r', 0x85, 0x2028, 0x2029, 0x0B, 0x0C)
	}
	if strings.HasPrefix(w, "!") {
		return runes([]rune(w[1:])...).not()
	}
	return runes([]rune(w)...)
}

func (r *Report) lexDefs(rule string, defs []lexDef) {
	for _, d := range defs {
		if d.thorough && r.Tier != "thorough" && refWrite == "" {
			continue
		}
		r.decide(rule, r.lexDefUnit(d))
	}
}

func (r *Report) lexDefUnit(d lexDef) *Unit {
	var tp *tape
	var state *State
	u := r.lexUnit(d.name, d.method, d.mode, d.before, d.cells, func(st *State, t *tape) {
		tp, state = t, st
		for i, f := range d.first {
			if m, _ := tapeState(st, t); m <= i {
				st.ghost["tape:T"] = mkInt(int64(i+1), nil)
			}
			setCell(st, t.cells[i], lexSet(f))
		}
	})
	if d.args != nil {
		u.Args = append(u.Args, d.args(state, tp)...)
	}
	return u
}

// textFns are functions of a text.
var textFns = map[string][]struct {
	name, fn string
	cells    int
}{
	"T04": {{"fn-isIdent", syn + ".isIdent", 4}, {"fn-keyword", syn + ".keyword", 9}},
	"T08": {{"fn-link_prefix", syn + ".link_prefix", 4}, {"fn-count_newlines", syn + ".count_newlines", 5},
		{"fn-split_newlines", syn + ".split_newlines", 5}, {"fn-label_id", syn + ".is_valid_label_literal_id", 4}},
}

// textUnit analyses a function of one text.
func (r *Report) textUnit(name, fn string, cells int) *Unit {
	ip := NewInterp(r.w)
	ip.MaxSteps = 40000000
	st := NewState()
	text := newTape(st, "T", 0, cells)
	return &Unit{Name: name, Fn: r.fn(fn), Interp: ip, St: st, Args: []*Term{text}}
}

func init() {
	argStart := func(i int) func(st *State, t *tape) []*Term {
		return func(st *State, t *tape) []*Term { return []*Term{t.off(i)} }
	}
	startC := func(i int) func(st *State, t *tape) []*Term {
		return func(st *State, t *tape) []*Term { return []*Term{t.off(i), t.cells[i]} }
	}
	_ = startC
	sets := map[string][]lexDef{
		"T04": {
			{name: "lex-code-0", method: "next", mode: "Code", before: 0, cells: 6},
			{name: "lex-code-1", method: "next", mode: "Code", before: 1, cells: 6},
			{name: "lex-code-dots", method: "next", mode: "Code", before: 2, cells: 7, first: []string{"*", ".@", "nabos_x"}},
		},
		"T05": {
			{name: "lex-markup-0", method: "next", mode: "Markup", before: 0, cells: 4},
			{name: "lex-markup-1", method: "next", mode: "Markup", before: 1, cells: 5},
		},
		"T06": {
			{name: "lex-math-0", method: "next", mode: "Math", before: 0, cells: 6},
			{name: "lex-math-1", method: "next", mode: "Math", before: 1, cells: 6},
			{name: "lex-math-named", method: "maybe_math_named_arg", mode: "Math", before: 2, cells: 7, args: argStart(1)},
			{name: "lex-math-spread", method: "maybe_math_spread_arg", mode: "Math", before: 2, cells: 6, args: argStart(1)},
		},
		"T07": {
			{name: "lex-num", method: "next", mode: "Code", before: 0, cells: 6, first: []string{"digit."}},
			{name: "lex-num-hex", method: "next", mode: "Code", before: 0, cells: 6, first: []string{"0", "box"}},
			{name: "lex-num-frac", method: "next", mode: "Code", before: 0, cells: 7, first: []string{"digit", ".", "digit"}},
			{name: "lex-num-exp", method: "next", mode: "Code", before: 0, cells: 7, first: []string{"digit", "eE"}},
		},
		"T08": {
			{name: "lex-raw", method: "next", mode: "Code", before: 0, cells: 8, first: []string{"`"}},
			{name: "lex-raw-block", method: "next", mode: "Markup", before: 0, cells: 10, first: []string{"`", "`", "`"}},
			{name: "lex-str", method: "next", mode: "Code", before: 0, cells: 9, first: []string{"\""}},
			{name: "lex-comment", method: "next", mode: "Markup", before: 0, cells: 9, first: []string{"/", "/*"}},
			{name: "lex-escape", method: "next", mode: "Markup", before: 0, cells: 9, first: []string{"\\", "u", "{"}},
			{name: "lex-label", method: "label", mode: "Markup", before: 1, cells: 6},
			{name: "lex-ref", method: "ref_marker", mode: "Markup", before: 1, cells: 6},
			{name: "lex-link", method: "link", mode: "Markup", before: 1, cells: 5},
			{name: "lex-space", method: "space_or_end", mode: "Markup", before: 1, cells: 4},
		},
		"T09": {
			{name: "lex-text", method: "text", mode: "Markup", before: 1, cells: 5},
			{name: "lex-inword", method: "in_word", mode: "Markup", before: 2, cells: 4},
			{name: "lex-enum", method: "next", mode: "Markup", before: 0, cells: 5, first: []string{"digit"}},
			{name: "lex-column", method: "column", mode: "Markup", before: 3, cells: 5, args: argStart(3)},
		},
	}
	for id, defs := range sets {
		register(&Property{ID: id, Run: func(w *World, r *Report) {
			r.lexDefs("token", defs)
			for _, d := range textFns[id] {
				r.decide("text-function", r.textUnit(d.name, d.fn, d.cells))
			}
		}})
	}
}
