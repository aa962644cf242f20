package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The grammar functions of the parser are decided at the level of parser
// actions: which tokens are eaten, which nodes are wrapped as what from which
// marker, which sub-rules are entered in which mode, and which errors are
// produced, depending on the kinds of the tokens seen. Tokens are symbolic: the
// token after the n-th action has the kind k<n>, the nodes parsed so far are
// nodes<n>, and so on.

// nonterminals are the grammar rules; a call of one is one action.
var nonterminals = []string{
	"markup", "markup_exprs", "markup_expr", "strong", "emph", "heading", "list_item", "enum_item", "term_item",
	"reference", "equation", "math_", "math_exprs", "math_expr_prec", "maybe_delimited", "math_delimited", "math_unparen", "math_args", "math_arg",
	"code", "code_exprs", "embedded_code_expr", "code_expr_prec", "code_primary", "block", "code_block", "content_block",
	"let_binding", "set_rule", "show_rule", "contextual", "conditional", "while_loop", "for_loop",
	"module_import", "import_items", "module_include", "break_stmt", "continue_stmt", "return_stmt",
	"expr_with_paren", "parenthesized_or_array_or_dict", "array_or_dict_item", "args", "arg", "params", "param",
	"pattern", "destructuring_or_parenthesized", "destructuring_item", "pattern_leaf",
}

// primitives are the actions of the parser, each decided by its own unit.
var primitives = []string{
	"eat", "wrap", "expected", "expected_at", "hint", "unexpected", "trim_errors",
	"expect", "expect_closing_delimiter", "checkpoint", "restore", "restore_memo_or_checkpoint", "memoize_parsed_nodes",
}

var objNames = map[string]string{} // objects with a fixed name in renderings

func init() {
	objNames["new:parser"] = "p"
	objNames["new:plexer"] = "lexer"
}

// psr is the abstract parser of a unit.
type psr struct {
	w  *World
	r  *Report
	ip *Interp
	p  *Term
	lx *Term
	// what a function run in another mode parses
	more, trivia int
}

func getF(st *State, obj, field string) *Term {
	v := st.heap[obj]
	if v == nil || v.op != "struct" {
		return nil
	}
	s := v.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return v.args[i]
		}
	}
	return nil
}

func setF(st *State, obj, field string, val *Term) {
	v := st.heap[obj]
	if v == nil || v.op != "struct" {
		panic("setF " + obj)
	}
	s := v.typ.Underlying().(*types.Struct)
	a := append([]*Term{}, v.args...)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			a[i] = val
			st.heap[obj] = mkStruct(v.typ, a)
			return
		}
	}
	panic("setF " + obj + "." + field)
}

func fieldT(t types.Type, field string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (r *Report) needField(t types.Type, field string) types.Type {
	if ft := fieldT(t, field); ft != nil {
		return ft
	}
	r.check(false, "anchor", typeName(t)+"."+field, "-", "field not found")
	panic(abort{})
}

// The parts of the parser's state which an action changes: t the token, n the
// list of nodes, b the balance.
var changes = map[string]string{
	"eat": "tn", "wrap": "n", "expected": "n", "expected_at": "n", "hint": "", "unexpected": "tnb", "trim_errors": "n",
	"expect": "tnb", "expect_closing_delimiter": "tn", "checkpoint": "", "restore": "tn", "restore_memo_or_checkpoint": "tn", "memoize_parsed_nodes": "",
}

// version is the number of the current state of a part of the parser.
func version(st *State, part string) int64 {
	n, _ := st.ghost["ver:"+part].intValOK()
	return n
}

func bump(st *State, part string) { st.ghost["ver:"+part] = mkInt(version(st, part)+1, nil) }

// pk is the number of the current token.
func pk(st *State) int64 { return version(st, "t") }

var partOf = map[string]string{"nodes": "n", "balanced": "b"}

var tokFields = []string{"kind", "node", "n_trivia", "newline", "start", "prev_end"}
var tokNames = map[string]string{"kind": "kind", "node": "tnode", "n_trivia": "trivia", "newline": "newline", "start": "start", "prev_end": "prev_end"}

func (q *psr) freshTok(st *State, f string) *Term {
	t := q.r.named(syn, "Token")
	return mkSym(fmt.Sprintf("%s%d", tokNames[f], pk(st)), q.r.needField(t, f))
}

func (q *psr) freshP(st *State, f string) *Term {
	t := q.r.named(syn, "Parser")
	return mkSym(fmt.Sprintf("%s%d", f, version(st, partOf[f])), q.r.needField(t, f))
}

// token gives the parser a new current token.
func (q *psr) token(st *State) {
	tt := q.r.named(syn, "Token")
	f := map[string]*Term{}
	for _, n := range tokFields {
		f[n] = q.freshTok(st, n)
	}
	name := fmt.Sprintf("token%d", pk(st))
	objNames["new:"+name] = name
	tp := q.r.object(st, syn, "Token", name, f)
	_ = tt
	setF(st, "new:parser", "token", tp)
}

// refresh makes parts of the parser's state unknown.
func (q *psr) refresh(st *State, parts string) {
	if strings.Contains(parts, "t") {
		bump(st, "t")
		q.token(st)
		setF(st, "new:plexer", "newline", mkSym(fmt.Sprintf("lnl%d", pk(st)), boolT))
	}
	if strings.Contains(parts, "n") {
		bump(st, "n")
		setF(st, "new:parser", "nodes", q.freshP(st, "nodes"))
	}
	if strings.Contains(parts, "b") {
		bump(st, "b")
		setF(st, "new:parser", "balanced", q.freshP(st, "balanced"))
	}
}

// unusual describes the parts of the parser state which the unit changed.
func (q *psr) unusual(st *State, parts string) string {
	var s []string
	tok := getF(st, "new:parser", "token")
	if tok == nil || tok.op != "ptr" {
		return " [token=" + canon(st, tok) + "]"
	}
	for _, f := range tokFields {
		if v := getF(st, tok.name, f); v != q.freshTok(st, f) {
			s = append(s, f+"="+canon(st, v))
		}
	}
	for _, f := range []string{"nodes", "balanced"} {
		if !strings.Contains(parts, partOf[f]) {
			continue
		}
		if v := getF(st, "new:parser", f); f == "balanced" || v != q.freshP(st, f) {
			s = append(s, f+"="+canon(st, v))
		}
	}
	if v := getF(st, "new:parser", "nl_mode"); v != q.nl() {
		s = append(s, "newlines="+canon(st, v))
	}
	if v := getF(st, "new:plexer", "mode"); v != q.mode() {
		s = append(s, "mode="+canon(st, v))
	}
	if len(s) == 0 {
		return ""
	}
	return " [" + strings.Join(s, " ") + "]"
}

func (q *psr) nl() *Term {
	return mkSym("nlmode", q.r.needField(q.r.named(syn, "Parser"), "nl_mode"))
}
func (q *psr) mode() *Term {
	return mkSym("mode", q.r.needField(q.r.named(syn, "Lexer"), "mode"))
}

// setStr describes a token set by its members.
func (q *psr) setStr(st *State, p *Term) string {
	if p.op != "ptr" {
		return canon(st, p)
	}
	v := st.heap[p.name]
	if v == nil {
		v = q.w.inits[p.name]
	}
	if v == nil || v.op != "struct" || len(v.args) == 0 {
		return canon(st, p)
	}
	b, ok := bsGet(q.ip, st, v.args[0])
	if !ok {
		return canon(st, p)
	}
	key := b.String()
	if s, ok := setStrs[key]; ok {
		return s
	}
	fn := q.r.fn("(*" + syn + ".SyntaxSet).Contains")
	var in []string
	ks := q.w.enum(syn, "SyntaxKind", "SyntaxKind")
	delete(ks, "First")
	delete(ks, "Last")
	for _, k := range sortedKeys(ks) {
		s2 := st.clone()
		for _, o := range q.ip.Call(fn, []*Term{p, ks[k]}, nil, s2, "set") {
			if o.val.isTrue() {
				in = append(in, k)
			} else if !o.val.isFalse() {
				in = append(in, k+"?")
			}
		}
	}
	s := "set{" + strings.Join(in, " ") + "}"
	setStrs[key] = s
	return s
}

var setStrs = map[string]string{}

func isSet(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == "SyntaxSet"
}

func (q *psr) isP(t *Term) bool { return t != nil && t.op == "ptr" && t.name == "new:parser" }

func (q *psr) argStr(st *State, a *Term) string {
	if a.typ != nil && isSet(a.typ) {
		return q.setStr(st, a)
	}
	return canon(st, a)
}

// call is an action with arguments; objects passed by reference may be changed
// by it.
func (q *psr) call(name string, havoc bool) Intrinsic {
	parts, ok := changes[name]
	if !ok {
		parts = "tnb"
	}
	shown := "n"
	if strings.Contains(parts, "b") {
		shown = "nb"
	}
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if len(c.Args) == 0 || !q.isP(c.Args[0]) {
			return nil, false
		}
		var args []string
		for _, a := range c.Args[1:] {
			args = append(args, q.argStr(st, a))
		}
		n := len(st.ev)
		st.event("%s(%s)%s", name, strings.Join(args, ", "), q.unusual(st, shown))
		q.refresh(st, parts)
		if havoc {
			for i, a := range c.Args[1:] {
				nm := fmt.Sprintf("%s.%d@%d", name, i+1, n)
				switch a.op {
				case "ptr":
					if isSet(a.typ) {
						continue
					}
					v := ip.load(st, a, elemType(a.typ))
					if v == nil {
						continue
					}
					ip.store(st, a, q.havocVal(st, v, nm), c.Pos)
				case "map":
					if v, ok := st.heap[a.name]; ok {
						st.heap[a.name] = mkSym(nm, v.typ)
					}
				}
			}
		}
		mk := func(i int, t types.Type) *Term { return mkSym(fmt.Sprintf("%s@%d.%d", name, n, i), t) }
		if tt, ok := c.Type.(*types.Tuple); ok {
			var rs []*Term
			for i := 0; i < tt.Len(); i++ {
				rs = append(rs, mk(i, tt.At(i).Type()))
			}
			return one(mkTuple(rs...), st), true
		}
		return one(mk(0, c.Type), st), true
	}
}

// havocVal is an unknown value of the type of v.
func (q *psr) havocVal(st *State, v *Term, nm string) *Term {
	if v.op == "struct" && !isOption(v.typ) {
		s := v.typ.Underlying().(*types.Struct)
		var a []*Term
		for i := range v.args {
			a = append(a, q.havocVal(st, v.args[i], nm+"."+s.Field(i).Name()))
		}
		return mkStruct(v.typ, a)
	}
	if v.op == "map" {
		if m, ok := st.heap[v.name]; ok {
			st.heap[v.name] = mkSym(nm, m.typ)
		}
		return v
	}
	return mkSym(nm, v.typ)
}

// pure is a function without effects on symbolic arguments.
func (q *psr) pure(name string, versioned bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if len(c.Args) > 0 && c.Args[0].op == "ptr" && !strings.Contains(name, "lexer") && name != "str" && name != "ident" && st.heap[c.Args[0].name] != nil {
			return nil, false
		}
		var as []string
		for _, a := range c.Args {
			as = append(as, rawCanon(st, a))
		}
		n := name + "(" + strings.Join(as, ", ") + ")"
		if versioned {
			n += fmt.Sprintf("@%d", len(st.ev))
		}
		if tt, ok := c.Type.(*types.Tuple); ok {
			var rs []*Term
			for i := 0; i < tt.Len(); i++ {
				rs = append(rs, mkSym(fmt.Sprintf("%s.%d", n, i), tt.At(i).Type()))
			}
			return one(mkTuple(rs...), st), true
		}
		return one(mkSym(n, c.Type), st), true
	}
}

// nodeAct is a mutation of a symbolic node.
func (q *psr) nodeAct(name string) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Args[0].op == "ptr" && strings.HasPrefix(c.Args[0].name, "new:") {
			return nil, false
		}
		var as []string
		for _, a := range c.Args {
			as = append(as, canon(st, a))
		}
		st.event("node.%s(%s)", name, strings.Join(as, ", "))
		return one(mkTuple(), st), true
	}
}

// scoped runs the closure of with_nl_mode or enter_modes.
func (q *psr) scoped(modes bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if !q.isP(c.Args[0]) {
			return nil, false
		}
		a := c.Args[1:]
		prevNl, prevMode := getF(st, "new:parser", "nl_mode"), getF(st, "new:plexer", "mode")
		what := ""
		if modes {
			setF(st, "new:plexer", "mode", a[0])
			what = "mode " + canon(st, a[0]) + " and "
			a = a[1:]
		}
		what += "newlines " + canon(st, a[0])
		setF(st, "new:parser", "nl_mode", a[0])
		f := a[1]
		if f.op != "fn" {
			ip.fail("unresolved function in %s", c.Name)
			return nil, true
		}
		outs := ip.callFn(f.fn, f.args, &CallCtx{Args: []*Term{c.Args[0]}, Site: c.Site, Ctx: c.Ctx + "/f", Type: types.NewTuple(), Pos: c.Pos}, st)
		for i := range outs {
			o := &outs[i]
			if o.panic {
				continue
			}
			o.st.event("end of %s%s", what, q.unusual(o.st, "n"))
			q.refresh(o.st, map[bool]string{true: "tn", false: "t"}[modes])
			setF(o.st, "new:parser", "nl_mode", prevNl)
			setF(o.st, "new:plexer", "mode", prevMode)
			o.val = mkTuple()
		}
		return outs, true
	}
}

// newPsr sets up an abstract parser.
func (r *Report) newPsr(ip *Interp, st *State) *psr {
	q := &psr{w: r.w, r: r, ip: ip}
	lt := r.named(syn, "Lexer")
	q.lx = r.object(st, syn, "Lexer", "plexer", map[string]*Term{
		"s": mkSym("lexer.s", r.needField(lt, "s")), "mode": q.mode(), "newline": mkSym("lnl0", boolT),
		"err": mkSym("lexer.err", r.needField(lt, "err"))})
	pt := r.named(syn, "Parser")
	st.heap["new:parser"] = zero(pt)
	setF(st, "new:parser", "text", mkSym("text", types.Typ[types.String]))
	setF(st, "new:parser", "lexer", q.lx)
	setF(st, "new:parser", "nl_mode", q.nl())
	setF(st, "new:parser", "memo", mkSym("memo", r.needField(pt, "memo")))
	q.p = mkPtr("new:parser", types.NewPointer(pt))
	setF(st, "new:parser", "nodes", q.freshP(st, "nodes"))
	setF(st, "new:parser", "balanced", q.freshP(st, "balanced"))
	q.token(st)
	return q
}

// install sets the contracts of the parser actions.
func (q *psr) install(ip *Interp, inline map[string]bool) {
	P := "(*" + syn + ".Parser)."
	N := "(*" + syn + ".SyntaxNode)."
	L := "(*" + syn + ".Lexer)."
	for _, n := range nonterminals {
		if !inline[n] {
			q.r.fn(syn + "." + n)
			ip.Intrinsics[syn+"."+n] = q.call(n, true)
		}
	}
	for _, n := range primitives {
		if inline[n] {
			continue
		}
		q.r.fn(P + n)
		ip.Intrinsics[P+n] = q.call(n, false)
	}
	// eating and keeping the token's node
	if !inline["eat"] && !inline["eat_and_get"] {
		eat := q.call("eat", false)
		ip.Intrinsics[P+"eat_and_get"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			tok := getF(st, "new:parser", "token")
			if tok == nil || tok.op != "ptr" {
				return nil, false
			}
			node := getF(st, tok.name, "node")
			outs, ok := eat(ip, st, c)
			for i := range outs {
				outs[i].val = node
			}
			return outs, ok
		}
	}
	if !inline["with_nl_mode"] {
		q.r.fn(P + "with_nl_mode")
		ip.Intrinsics[P+"with_nl_mode"] = q.scoped(false)
	}
	if !inline["enter_modes"] {
		q.r.fn(P + "enter_modes")
		ip.Intrinsics[P+"enter_modes"] = q.scoped(true)
	}
	for _, n := range []string{"kind", "text", "children", "is_empty", "len", "erroneous", "span"} {
		if q.w.Fn(N+n) != nil {
			ip.Intrinsics[N+n] = q.pure(n, true)
		}
	}
	for _, n := range []string{"convert_to_kind", "convert_to_error", "expected", "unexpected", "hint"} {
		q.r.fn(N + n)
		ip.Intrinsics[N+n] = q.nodeAct(n)
	}
	ip.Intrinsics["(*"+syn+".SyntaxSet).Contains"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Args[0].op != "sym" {
			return nil, false
		}
		return one(mkApp("contains", boolT, c.Args[0], c.Args[1]), st), true
	}
	ip.Intrinsics[L+"cursor"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkSym(fmt.Sprintf("cursor%d", pk(st)), c.Type), st), true
	}
	ip.Intrinsics[L+"column"] = q.pure("lexer.column", false)
	ip.Intrinsics[L+"clone"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkSym(fmt.Sprintf("lexer%d", pk(st)), c.Type), st), true
	}
	ip.Intrinsics[L+"next"] = q.pure("lexer.next", true)
	ip.Intrinsics[L+"maybe_math_spread_arg"] = q.lexAct("maybe_math_spread_arg")
	ip.Intrinsics[L+"maybe_math_named_arg"] = q.lexAct("maybe_math_named_arg")
	ip.Intrinsics[syn+".math_class"] = q.pure("math_class", false)
	q.r.fn(syn + ".NewInner")
	ip.Intrinsics[syn+".NewInner"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkSym("inner("+canon(st, c.Args[0])+", "+canon(st, c.Args[1])+")", c.Type), st), true
	}
	ip.Intrinsics[syn+".all"] = q.pure("all", false)
	ip.Intrinsics["(*"+syn+".Str).get"] = q.pure("str", true)
	ip.Intrinsics["(*"+syn+".Ident).get"] = q.pure("ident", true)
}

// lexAct asks the lexer to re-lex the current token.
func (q *psr) lexAct(name string) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		var as []string
		for _, a := range c.Args[1:] {
			as = append(as, canon(st, a))
		}
		n := len(st.ev)
		st.event("%s(%s)", name, strings.Join(as, ", "))
		return one(mkSym(fmt.Sprintf("%s@%d", name, n), c.Type), st), true
	}
}

// grammarUnit is the unit of one grammar rule.
func (r *Report) grammarUnit(rel, name string, visits int, inline ...string) *Unit {
	ip := NewInterp(r.w)
	ip.MaxVisits = visits
	ip.MaxSteps = 40000000
	st := NewState()
	q := r.newPsr(ip, st)
	in := map[string]bool{}
	for _, x := range inline {
		in[x] = true
	}
	q.install(ip, in)
	q.newParser(ip)
	fn := r.fn(rel + name)
	u := &Unit{Name: "parse-" + name, Fn: fn, Interp: ip, St: st, Roots: map[string]*Term{}}
	for i, p := range fn.Params {
		t := p.Type()
		nm := fmt.Sprintf("arg%d", i)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			switch {
			case typeName(pt.Elem()) == "Parser":
				u.Args = append(u.Args, q.p)
				continue
			case isSet(t) || typeName(pt.Elem()) == "SyntaxNode" || typeName(pt.Elem()) == "Checkpoint":
				u.Args = append(u.Args, mkSym(nm, t))
				continue
			}
			// an object passed by reference
			st.heap["new:"+nm] = q.symVal(st, pt.Elem(), nm)
			o := mkPtr("new:"+nm, t)
			u.Args = append(u.Args, o)
			u.Roots[nm] = o
			continue
		}
		u.Args = append(u.Args, q.symVal(st, t, nm))
	}
	u.Final = func(o *Outcome, c *Case) {
		if s := q.unusual(o.st, "nb"); s != "" {
			c.R["parser"] = s
		}
		for i, p := range fn.Params {
			if m := u.Args[i]; m.op == "map" {
				c.R["map "+fmt.Sprint(i)+p.Name()[:0]] = canon(o.st, m)
			}
		}
	}
	return u
}

// symVal is an unknown value; structs are made of unknown fields and maps are
// objects.
func (q *psr) symVal(st *State, t types.Type, nm string) *Term {
	if isOption(t) {
		return mkSym(nm, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, q.symVal(st, u.Field(i).Type(), nm+"."+u.Field(i).Name()))
		}
		return mkStruct(t, a)
	case *types.Map:
		st.heap["new:"+nm] = mkSym(nm, t)
		return intern(&Term{op: "map", name: "new:" + nm, typ: t})
	}
	return mkSym(nm, t)
}

// newParser makes NewParser an action which yields the abstract parser.
func (q *psr) newParser(ip *Interp) {
	q.r.fn(syn + ".NewParser")
	ip.Intrinsics[syn+".NewParser"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		var as []string
		for _, a := range c.Args {
			as = append(as, canon(st, a))
		}
		st.event("new parser(%s)", strings.Join(as, ", "))
		return one(q.p, st), true
	}
}

// rules decides a list of grammar rules.
func rules(id string, visits map[string]int, names ...string) {
	register(&Property{ID: id, Run: func(w *World, r *Report) {
		for _, n := range names {
			v := visits[n]
			if v == 0 {
				v = 3
			}
			r.decide("rule", r.grammarUnit(syn+".", n, v))
		}
		if id == "T12" {
			u := r.textUnit("fn-math_class", syn+".math_class", 3)
			r.fn("internal/stdx.MathClassFromChar")
			u.Interp.Intrinsics["internal/stdx.MathClassFromChar"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
				return one(mkSym("class of "+canon(st, c.Args[0]), c.Type), st), true
			}
			r.decide("text-function", u)
		}
	}})
}

func init() {
	rules("T11", nil, "markup", "markup_exprs", "markup_expr", "strong", "emph", "heading", "list_item", "enum_item", "term_item", "reference", "equation",
		"Parse", "reparse_markup")
	rules("T12", map[string]int{"math_expr_prec": 2}, "math_", "math_exprs", "math_expr_prec", "maybe_delimited", "math_delimited", "math_unparen", "math_args", "math_arg", "parse_math")
	rules("T13", map[string]int{"code_expr_prec": 2}, "code", "code_exprs", "embedded_code_expr", "code_expr_prec", "code_primary", "block", "code_block", "content_block",
		"parse_code", "reparse_block")
	rules("T14", nil, "let_binding", "set_rule", "show_rule", "contextual", "conditional", "while_loop", "for_loop",
		"module_import", "import_items", "module_include", "break_stmt", "continue_stmt", "return_stmt")
	rules("T15", nil, "expr_with_paren", "parenthesized_or_array_or_dict", "array_or_dict_item", "args", "arg", "params", "param",
		"pattern", "destructuring_or_parenthesized", "destructuring_item", "pattern_leaf")
}
