package main

import (
	"fmt"
	"strings"
)

// Values of literals: accessors of leaves on unknown texts.

// literal is a view of a leaf (or of a node with one leaf of the given kind)
// whose text is a tape.
func (x *fx) literal(view, marker string, text *Term) *Term {
	spec := "L:" + view
	if marker != "" {
		spec = "I:" + view + "(L:" + marker + ")"
	}
	n := x.node(spec, "n")
	leaf := n
	if marker != "" {
		leaf = x.child(n, 0)
	}
	x.setField(x.innerOf(leaf).name, "Text", text)
	vt := x.r.named(syn, view)
	return x.alloc("view", mkStruct(vt, []*Term{n}), vt)
}

type litDef struct {
	view, method, marker string
	cells                int
	first                []string
	name                 string
	texts                []string // closed texts: classes of characters
}

// litSet is the set of characters of a class of litDef.texts.
func litSet(w string) *RuneSet {
	switch w {
	case "D":
		return digitSet(10)
	case "H":
		return digitSet(16)
	case "O":
		return digitSet(8)
	case "B":
		return digitSet(2)
	case "E":
		return runes('e', 'E')
	case "SIGN":
		return runes('+', '-')
	case "ANY":
		return allRunes
	}
	if c, ok := strings.CutPrefix(w, "'"); ok && c != "" {
		return runes([]rune(c)...)
	}
	return lexSet(w)
}

func (r *Report) literalUnits(d litDef) []*fx {
	name := d.name
	if name == "" {
		name = "value-" + d.view
	}
	if d.texts == nil {
		return []*fx{r.literalUnit(d, name, nil)}
	}
	for _, t := range d.texts {
		d.cells = max(d.cells, len(strings.Fields(t))+1)
	}
	var xs []*fx
	for _, t := range d.texts {
		xs = append(xs, r.literalUnit(d, name, strings.Fields(t)))
	}
	return xs
}

func (r *Report) literalUnit(d litDef, name string, text []string) *fx {
	x := r.fx("(*"+syn+"."+d.view+")."+d.method, name)
	known, first := len(d.first), d.first
	if text != nil {
		known, first = len(text), text
		x.label("shape", strings.Join(text, " "))
		x.st.ghost["end:T"] = mkInt(1, nil)
	}
	x.ip.MaxVisits = d.cells + 2
	t := newTape(x.st, "T", known, d.cells)
	for i, f := range first {
		setCell(x.st, tapes["T"].cells[i], litSet(f))
	}
	x.u.Args = []*Term{x.literal(d.view, d.marker, t)}
	return x
}

// spelled are literal texts, one class for each character.
func spelled(ws ...string) []string {
	var out []string
	for _, w := range ws {
		out = append(out, "'"+strings.Join(strings.Split(w, ""), " '"))
	}
	return out
}

// numbers are the shapes of decimal literals up to a length.
func numbers(n int) []string {
	var out []string
	// states: 0 start, 1 digits, 2 point without digits before, 3 fraction,
	// 4 exponent mark, 5 exponent sign, 6 exponent
	var rec func(pre string, n, q int)
	rec = func(pre string, n, q int) {
		if q == 1 || q == 3 || q == 6 {
			out = append(out, strings.TrimSpace(pre))
		}
		if n == 0 {
			return
		}
		digit := [...]int{1, 1, 3, 3, 6, 6, 6}
		rec(pre+" D", n-1, digit[q])
		switch q {
		case 0:
			rec(pre+" .", n-1, 2)
		case 1:
			rec(pre+" .", n-1, 3)
			rec(pre+" E", n-1, 4)
		case 3:
			rec(pre+" E", n-1, 4)
		case 4:
			rec(pre+" SIGN", n-1, 5)
		}
	}
	rec("", n, 0)
	return out
}

func quoted(lo, hi int, first string) []string {
	var out []string
	for n := lo; n <= hi; n++ {
		ws := strings.Fields("\" " + first)
		for len(ws) < n-1 {
			ws = append(ws, "ANY")
		}
		out = append(out, strings.Join(append(ws, "\""), " "))
	}
	return out
}

func init() {
	register(&Property{ID: "T27", Run: func(w *World, r *Report) {
		ints := []string{"D", "D D", "D D D", "D D D D"}
		for _, b := range []string{"x H", "o O", "b B"} {
			d := b[2:]
			for n := 1; n <= 3; n++ {
				ints = append(ints, "0 "+b[:1]+strings.Repeat(" "+d, n))
			}
		}
		// numbers which may not fit
		for _, b := range []struct {
			prefix, digit string
			n             int
		}{{"", "D", 19}, {"", "D", 20}, {"0 x", "H", 16}, {"0 x", "H", 17}, {"0 o", "O", 22}, {"0 o", "O", 23}, {"0 b", "B", 64}, {"0 b", "B", 65}} {
			ints = append(ints, strings.TrimSpace(b.prefix+strings.Repeat(" "+b.digit, b.n)))
		}
		var numeric []string
		for _, u := range spelled("pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%") {
			for _, n := range numbers(4) {
				numeric = append(numeric, n+" "+u)
			}
		}
		escapes := []string{"\\ ANY"}
		for n := 1; n <= 6; n++ {
			escapes = append(escapes, "\\ u {"+strings.Repeat(" H", n)+" }")
		}
		labels := []string{}
		for n := 0; n <= 3; n++ {
			labels = append(labels, "<"+strings.Repeat(" !<>", n)+" >")
		}
		for _, d := range []litDef{
			{view: "Text", method: "get", cells: 1}, {view: "MathIdent", method: "get", cells: 1}, {view: "Ident", method: "get", cells: 1}, {view: "RawLang", method: "get", cells: 1}, {view: "Link", method: "get", cells: 1},
			{view: "SmartQuote", method: "double", texts: []string{"'", "\""}},
			{view: "Bool", method: "get", texts: spelled("true", "false")},
			{view: "Label", method: "get", texts: labels},
			{view: "Ref", method: "target", marker: "RefMarker", cells: 3, first: []string{"@"}},
			{view: "EnumItem", method: "number", marker: "EnumMarker", texts: []string{"+", "D .", "D D .", "D D D ."}},
			{view: "Escape", method: "get", texts: escapes},
			{view: "Shorthand", method: "get", texts: spelled("...", "~", "-", "--", "---", "-?")},
			{view: "MathShorthand", method: "get", texts: spelled("->>", "->", "-->", ":=", "::=", "!=", "...", "[|", "<==>", "<-->", "<--", "<-<", "<->", "<<-", "<<<",
				"<=>", "<==", "<~~", "<=", "<<", "<-", "<~", ">->", ">>>", "==>", "=>", "=:", ">=", ">>", "|->", "|=>", "|]", "||", "~~>", "~>", "*", "-", "~")},
			{view: "MathText", method: "get", cells: 3},
			{view: "Int", method: "get", texts: ints},
			{view: "Float", method: "get", texts: numbers(5)},
			{view: "Numeric", method: "get", texts: numeric},
			{view: "Str", method: "get", texts: quoted(2, 6, "")},
			{view: "Str", method: "get", texts: quoted(5, 9, "\\ u {"), name: "value-Str-unicode"},
			{view: "Heading", method: "depth", marker: "HeadingMarker", texts: []string{"=", "= =", "= = =", "= = = = = = =", "= = = = = = = = ="}},
		} {
			r.decideAll("value", r.literalUnits(d)...)
		}
		// The name bound by an import: the package's name or the file's stem,
		// if that is an identifier.
		var xs []*fx
		for n := 2; n <= 6; n++ {
			x := r.fx("(*"+syn+".ModuleImport).bare_name", "value-import-name")
			x.ip.MaxVisits = 9
			x.label("path", fmt.Sprintf("%d characters", n-2))
			x.st.ghost["end:T"] = mkInt(1, nil)
			t := newTape(x.st, "T", n, 7)
			for i := 0; i < n; i++ {
				s := lexSet("!\"\\")
				if i == 0 || i == n-1 {
					s = lexSet("\"")
				}
				setCell(x.st, tapes["T"].cells[i], s)
			}
			m := x.node("I:ModuleImport(L:Import L:Space L:Str)", "n")
			x.setField(x.innerOf(x.child(m, 2)).name, "Text", t)
			vt := r.named(syn, "ModuleImport")
			x.u.Args = []*Term{x.alloc("view", mkStruct(vt, []*Term{m}), vt)}
			x.lookup(syn+".ParsePackageSpec", "parse package")
			x.pureFn(syn+".isIdent", "identifier")
			x.unlessKnown(syn + ".isIdent")
			xs = append(xs, x)
		}
		r.decideAll("value", xs...)
	}})
}
