package main

import "fmt"

func init() {
	register(&Property{
		ID:    "T01",
		Title: "Operator tokens, precedence, associativity and spelling agree with the language",
		Rule: "Interprocedural conditional constant propagation of the operator tables over every syntax kind and every operator constant " +
			"(mapping token→operator, precedence, associativity, spelling), compared with the language's operator table; the token sets that gate operator parsing must have " +
			"exactly the kinds with a mapping, and the operator accessors of unary and binary expressions must find the operator on abstract child lists.",
		Run: runOps,
	})
}

type opRow struct {
	kind, op string
	prec     int
	assoc    string
	spell    string
}

var binOps = []opRow{
	{"Plus", "Add", 5, "Left", "+"}, {"Minus", "Sub", 5, "Left", "-"}, {"Star", "Mul", 6, "Left", "*"}, {"Slash", "Div", 6, "Left", "/"},
	{"And", "And", 3, "Left", "and"}, {"Or", "Or", 2, "Left", "or"},
	{"EqEq", "Eq", 4, "Left", "=="}, {"ExclEq", "Neq", 4, "Left", "!="}, {"Lt", "Lt", 4, "Left", "<"}, {"LtEq", "Leq", 4, "Left", "<="},
	{"Gt", "Gt", 4, "Left", ">"}, {"GtEq", "Geq", 4, "Left", ">="}, {"Eq", "Assign", 1, "Right", "="}, {"In", "In", 4, "Left", "in"},
	{"", "NotIn", 4, "Left", "not in"},
	{"PlusEq", "AddAssign", 1, "Right", "+="}, {"HyphEq", "SubAssign", 1, "Right", "-="}, {"StarEq", "MulAssign", 1, "Right", "*="}, {"SlashEq", "DivAssign", 1, "Right", "/="},
}

var unOps = []opRow{{"Plus", "Pos", 7, "", "+"}, {"Minus", "Neg", 7, "", "-"}, {"Not", "Not", 4, "", "not"}}

func runOps(w *World, r *Report) {
	ks := w.kinds(r)
	bin := w.enum(syn, "BinOp", "BinOp_")
	un := w.enum(syn, "UnOp", "UnOp_")
	as := w.enum(syn, "Assoc", "Assoc_")
	r.check(len(bin) == len(binOps), "operators-complete", "BinOp", "-", "%d binary operators declared, the language has %d", len(bin), len(binOps))
	r.check(len(un) == len(unOps), "operators-complete", "UnOp", "-", "%d unary operators declared, the language has %d", len(un), len(unOps))
	one := func(rows []opRow, consts map[string]*Term, typ string) {
		from := r.fn(syn + "." + typ + "_from_kind")
		prec := r.fn("(" + syn + "." + typ + ").precedence")
		str := r.fn("(" + syn + "." + typ + ").String")
		for _, k := range sortedKeys(ks.by) {
			want := "None"
			for _, row := range rows {
				if row.kind == k {
					if c := consts[row.op]; c != nil {
						want = "Some(" + render(nil, c) + ")"
					}
				}
			}
			got, _ := r.constOn(from, ks.by[k])
			r.check(got == want, "token-to-operator", typ+" of "+k, w.posOf(from), "token %s maps to %s, the language says %s", k, opName(got, consts), opName(want, consts))
		}
		for _, row := range rows {
			c := consts[row.op]
			if c == nil {
				r.check(false, "anchor", typ+"_"+row.op, "-", "operator constant not found")
				continue
			}
			got, _ := r.constOn(prec, c)
			r.check(got == fmt.Sprint(row.prec), "precedence", typ+" "+row.op, w.posOf(prec), "precedence %s, the language says %d", got, row.prec)
			got, _ = r.constOn(str, c)
			r.check(got == fmt.Sprintf("%q", row.spell), "spelling", typ+" "+row.op, w.posOf(str), "printed as %s, the language says %q", got, row.spell)
			if row.assoc != "" {
				f := r.fn("(" + syn + "." + typ + ").assoc")
				got, _ := r.constOn(f, c)
				want := ""
				if a := as[row.assoc]; a != nil {
					want = render(nil, a)
				}
				r.check(got == want, "associativity", typ+" "+row.op, w.posOf(f), "associativity %s, the language says %s", opName(got, as), row.assoc)
			}
		}
	}
	one(binOps, bin, "BinOp")
	one(unOps, un, "UnOp")
	r.floor("token-to-operator", 260)
	opSets(w, r, ks)
	opAccessors(w, r, ks, bin, un)
}

func opName(v string, consts map[string]*Term) string {
	for n, c := range consts {
		x := render(nil, c)
		if v == x || v == "Some("+x+")" {
			return n
		}
	}
	return v
}

// kindSet reads the content of a package level syntax set.
func (r *Report) kindSet(name string, ks *Kinds) map[string]bool {
	g := r.w.SPkgs[syn].Var(name)
	if g == nil {
		r.check(false, "anchor", name, "-", "set %s not found", name)
		panic(abort{})
	}
	ip := NewInterp(r.w)
	st := NewState()
	contains := r.fn("(*" + syn + ".SyntaxSet).Contains")
	res := map[string]bool{}
	p := ip.load(st, mkPtr("g:"+g.String(), g.Type()), elemType(g.Type()))
	for n, k := range ks.by {
		outs := ip.Call(contains, []*Term{p, k}, nil, st.clone(), "T")
		if len(outs) != 1 || outs[0].panic || !outs[0].val.isConst() {
			r.check(false, "analysis", name, r.w.Pos(g.Pos()), "membership of %s undecided", n)
			continue
		}
		if outs[0].val.isTrue() {
			res[n] = true
		}
	}
	r.visited(ip)
	return res
}

func opSets(w *World, r *Report, ks *Kinds) {
	bs := r.kindSet("BinaryOpSet", ks)
	us := r.kindSet("UnaryOpSet", ks)
	chk := func(set map[string]bool, rows []opRow, name string) {
		want := map[string]bool{}
		for _, row := range rows {
			if row.kind != "" {
				want[row.kind] = true
			}
		}
		for _, k := range sortedKeys(ks.by) {
			r.check(set[k] == want[k], "operator-set", name+" "+k, w.Pos(w.SPkgs[syn].Var(name).Pos()), "token %s gates operator parsing: %v, the language says %v", k, set[k], want[k])
		}
	}
	chk(bs, binOps, "BinaryOpSet")
	chk(us, unOps, "UnaryOpSet")
}

// opAccessors checks that the operator accessors of unary and binary
// expressions find the operator token among the children.
func opAccessors(w *World, r *Report, ks *Kinds, bin, un map[string]*Term) {
	run := func(typ string, n absNode, want *Term, what string) {
		f := r.fn("(*" + syn + "." + typ + ").op")
		ip := NewInterp(w)
		st := NewState()
		p := r.build(ip, st, ks, n, "n")
		v := r.view(ip, st, typ, p)
		outs := ip.Call(f, []*Term{v}, nil, st, "T")
		r.visited(ip)
		got := "?"
		if len(outs) == 1 && !outs[0].panic {
			got = render(outs[0].st, outs[0].val)
		}
		r.check(ip.Failed == "" && want != nil && got == render(nil, want), "operator-accessor", typ+" "+what, w.posOf(f), "for %s the operator is %s, expected %s", n, opName(got, bin), what)
	}
	sp := leaf("Space")
	for _, row := range binOps {
		if row.kind == "" {
			run("Binary", inner("Binary", leaf("Ident"), sp, leaf("Not"), sp, leaf("In"), sp, leaf("Ident")), bin["NotIn"], "NotIn")
			run("Binary", inner("Binary", leaf("Ident"), sp, leaf("Not"), sp, leaf("BlockComment"), leaf("In"), leaf("Ident")), bin["NotIn"], "NotIn with comment")
			continue
		}
		run("Binary", inner("Binary", leaf("Ident"), sp, leaf(row.kind), sp, leaf("Ident")), bin[row.op], row.op)
		run("Binary", inner("Binary", inner("Unary", leaf("Minus"), leaf("Int")), leaf(row.kind), leaf("Int")), bin[row.op], row.op+" after unary")
	}
	for _, row := range unOps {
		run("Unary", inner("Unary", leaf(row.kind), sp, leaf("Ident")), un[row.op], row.op)
		run("Unary", inner("Unary", leaf(row.kind), inner("Unary", leaf("Minus"), leaf("Ident"))), un[row.op], row.op+" nested")
	}
}
