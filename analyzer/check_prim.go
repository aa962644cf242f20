package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The actions of the parser are decided on token lists of every small shape:
// the nodes parsed so far are n0, n1, …, of which the last ones are trivia.

// nodeList is the slice [n0, n1, …].
func (q *psr) nodeList(st *State, n int) *Term {
	vt := q.r.needField(q.r.named(syn, "Parser"), "nodes")
	nt := vt.Underlying().(*types.Slice).Elem()
	var el []*Term
	for i := 0; i < n; i++ {
		el = append(el, mkSym(fmt.Sprintf("n%d", i), nt))
	}
	return q.ip.newSlice(st, "new:nodelist", vt, el)
}

// primUnit is the unit of a parser action on a list of nodes of which the last
// ones are trivia.
func (r *Report) primUnit(name string, nodes, trivia int, args func(q *psr, st *State) []*Term, label map[string]int64, inline ...string) *Unit {
	return r.primFn("(*"+syn+".Parser)."+name, "parser-"+name, nodes, trivia, args, label, inline...)
}

func (r *Report) primFn(full, unit string, nodes, trivia int, args func(q *psr, st *State) []*Term, label map[string]int64, inline ...string) *Unit {
	ip := NewInterp(r.w)
	ip.MaxVisits = 4
	st := NewState()
	q := r.newPsr(ip, st)
	in := map[string]bool{}
	for _, x := range inline {
		in[x] = true
	}
	q.install(ip, in)
	q.lexing(ip)
	u := &Unit{Name: unit, Fn: r.fn(full), Interp: ip, St: st, Case: map[string]int64{}}
	for k, v := range label {
		u.Case[k] = v
	}
	if nodes >= 0 {
		setF(st, "new:parser", "nodes", q.nodeList(st, nodes))
		u.Case["nodes"] = int64(nodes)
	}
	if trivia >= 0 {
		setF(st, "new:token0", "n_trivia", mkInt(int64(trivia), q.r.needField(r.named(syn, "Token"), "n_trivia")))
		u.Case["trivia"] = int64(trivia)
	}
	u.Args = append([]*Term{q.p}, args(q, st)...)
	u.Final = func(o *Outcome, c *Case) { c.R["parser"] = q.unusual(o.st, "nb") }
	return u
}

func noArgs(q *psr, st *State) []*Term { return nil }

// lexing makes the lexer's functions actions.
func (q *psr) lexing(ip *Interp) {
	L := "(*" + syn + ".Lexer)."
	q.r.fn(syn + ".Parser_lex")
	ip.Intrinsics[syn+".Parser_lex"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		ns, ok := st.heap[c.Args[0].name]
		if c.Args[0].op != "ptr" || !ok {
			return nil, false
		}
		for _, i := range c.Args[0].args {
			ns = project(ns, i, fieldTypeAt(ns.typ, i))
		}
		st.event("lex(after %s, %s, newlines %s)%s", canon(st, ns), lexName(st, c.Args[1]), canon(st, c.Args[2]), q.lexState(st, c.Args[1]))
		bump(st, "t")
		el, ok := ip.sliceElems(st, ns)
		if !ok {
			return nil, false
		}
		nt := ns.typ.Underlying().(*types.Slice).Elem()
		el = append(append([]*Term{}, el...), mkSym(fmt.Sprintf("trivianode%d", pk(st)), nt))
		ip.store(st, c.Args[0], ip.newSlice(st, "new:"+c.Ctx, ns.typ, el), c.Pos)
		old := getF(st, "new:parser", "token")
		q.token(st)
		t := getF(st, "new:parser", "token")
		setF(st, "new:parser", "token", old)
		return one(t, st), true
	}
	ip.Intrinsics[L+"jump"] = q.lexAct("jump")
	ip.Intrinsics[L+"set_mode"] = nil
	delete(ip.Intrinsics, L+"set_mode")
	ip.Intrinsics[L+"next"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		n := len(st.ev)
		st.event("next()")
		if c.Args[0].op == "ptr" {
			setF(st, c.Args[0].name, "newline", mkSym(fmt.Sprintf("lnl@%d", n), boolT))
		}
		tt := c.Type.(*types.Tuple)
		return one(mkTuple(mkSym(fmt.Sprintf("kind@%d", n), tt.At(0).Type()), mkSym(fmt.Sprintf("node@%d", n), tt.At(1).Type())), st), true
	}
	ip.Intrinsics[L+"cursor"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkSym(fmt.Sprintf("cursor@%d", len(st.ev)), c.Type), st), true
	}
	ip.Dyn = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if strings.HasSuffix(c.Name, ".stop_at") {
			var as []string
			for _, a := range c.Args {
				as = append(as, canon(st, a))
			}
			return one(mkSym("stop_at("+strings.Join(as, ", ")+")", c.Type), st), true
		}
		if len(c.Args) == 2 && c.Name == "dyn" && q.isP(c.Args[1]) {
			st.event("run%s", q.unusual(st, "nb"))
			q.refresh(st, "tb")
			el, _ := ip.sliceElems(st, getF(st, "new:parser", "nodes"))
			if el != nil {
				nt := el[0].typ
				for i := 0; i < q.more; i++ {
					el = append(append([]*Term{}, el...), mkSym(fmt.Sprintf("r%d", i), nt))
				}
				setF(st, "new:parser", "nodes", ip.newSlice(st, "new:"+c.Ctx, getF(st, "new:parser", "nodes").typ, el))
				setF(st, getF(st, "new:parser", "token").name, "n_trivia", mkInt(int64(q.trivia), types.Typ[types.Uint]))
			}
			return one(mkTuple(), st), true
		}
		return nil, false
	}
}

func lexName(st *State, l *Term) string {
	if l.op == "ptr" && l.name == "new:plexer" {
		return "lexer"
	}
	return canon(st, l)
}

func (q *psr) lexState(st *State, l *Term) string {
	if l.op == "ptr" && l.name == "new:plexer" {
		if m := getF(st, "new:plexer", "mode"); m != q.mode() {
			return " [mode=" + canon(st, m) + "]"
		}
	}
	return ""
}

func intArg(i int, t func(q *psr) types.Type) func(q *psr, st *State) []*Term {
	return func(q *psr, st *State) []*Term { return []*Term{mkInt(int64(i), t(q))} }
}

func (q *psr) markerT() types.Type { return q.r.named(syn, "Marker") }
func (q *psr) kindT() types.Type   { return q.r.named(syn, "SyntaxKind") }

func init() {
	register(&Property{ID: "T16", Run: func(w *World, r *Report) {
		// the token stream
		tokenStream(r)
	}})
	register(&Property{ID: "T17", Run: func(w *World, r *Report) {
		// building nodes and recovering from errors
		str := func(q *psr, st *State) []*Term { return []*Term{mkSym("thing", types.Typ[types.String])} }
		var us []*Unit
		add := func(u *Unit) { us = append(us, u) }
		flush := func() {
			if len(us) > 0 {
				r.decide("action", us...)
			}
			us = nil
		}
		for n := 0; n <= 3; n++ {
			for t := 0; t <= n; t++ {
				for f := 0; f <= n+1; f++ {
					f := f
					add(r.primUnit("wrap", n, t, func(q *psr, st *State) []*Term {
						return []*Term{mkInt(int64(f), q.markerT()), mkSym("kind", q.kindT())}
					}, map[string]int64{"from": int64(f)}, "wrap"))
				}
			}
		}
		flush()
		for n := 0; n <= 2; n++ {
			add(r.primUnit("eat", n, 0, noArgs, nil, "eat"))
		}
		flush()
		for n := 0; n <= 2; n++ {
			add(r.primUnit("eat_and_get", n, 0, noArgs, nil, "eat", "eat_and_get"))
		}
		flush()
		for n := 0; n <= 3; n++ {
			for f := 0; f <= n; f++ {
				f := f
				add(r.primUnit("expected_at", n, -1, func(q *psr, st *State) []*Term {
					return []*Term{mkInt(int64(f), q.markerT()), mkSym("thing", types.Typ[types.String])}
				}, map[string]int64{"at": int64(f)}, "expected_at"))
			}
		}
		flush()
		for _, x := range []string{"expected", "hint"} {
			for n := 0; n <= 3; n++ {
				for t := 0; t <= min(n, 2); t++ {
					add(r.primUnit(x, n, t, str, nil, x))
				}
			}
			flush()
		}
		for n := 0; n <= 3; n++ {
			for t := 0; t <= min(n, 1); t++ {
				add(r.primUnit("trim_errors", n, t, noArgs, nil, "trim_errors"))
			}
		}
		flush()
		add(r.primUnit("unexpected", -1, -1, noArgs, nil, "unexpected"))
		flush()
		add(r.primUnit("expect", -1, -1, func(q *psr, st *State) []*Term { return []*Term{mkSym("want", q.kindT())} }, nil, "expect"))
		flush()
		for n := 1; n <= 3; n++ {
			for f := 0; f < n; f++ {
				f := f
				add(r.primUnit("expect_closing_delimiter", n, 0, func(q *psr, st *State) []*Term {
					return []*Term{mkInt(int64(f), q.markerT()), mkSym("want", q.kindT())}
				}, map[string]int64{"open": int64(f)}, "expect_closing_delimiter"))
			}
		}
		flush()
		add(r.primUnit("flush_trivia", -1, -1, noArgs, nil))
		flush()
		add(r.primUnit("convert_and_eat", -1, -1, func(q *psr, st *State) []*Term { return []*Term{mkSym("want", q.kindT())} }, nil))
		flush()
	}})
}

// tokenStream decides how tokens are taken from the lexer.
func tokenStream(r *Report) {
	nl := func(q *psr, st *State) []*Term {
		vt := q.r.needField(q.r.named(syn, "Parser"), "nodes")
		st.heap["new:vec"] = q.nodeList(st, 1)
		return []*Term{mkPtr("new:vec", types.NewPointer(vt)), q.lx, q.nl()}
	}
	u := r.primFn(syn+".Parser_lex", "parser-lex", -1, -1, nl, nil)
	delete(u.Interp.Intrinsics, syn+".Parser_lex")
	vec := u.Args[1]
	u.Args = u.Args[1:]
	u.Interp.MaxVisits = 3
	u.Final = nil
	u.Roots = map[string]*Term{"nodes": vec}
	r.decide("stream", u)
	fnT := func(q *psr) *Term {
		return mkSym("f", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", q.p.typ)), types.NewTuple(), false))
	}
	var us []*Unit
	for n := 1; n <= 2; n++ {
		for t := 0; t <= 2; t++ {
			us = append(us, r.primUnit("enter_modes", n, 0, func(q *psr, st *State) []*Term {
				q.more, q.trivia = 2, t
				return []*Term{mkSym("newmode", q.mode().typ), mkSym("newnl", q.nl().typ), fnT(q)}
			}, map[string]int64{"later trivia": int64(t)}, "enter_modes", "with_nl_mode"))
		}
	}
	r.decide("stream", us...)
	r.decide("stream", r.primUnit("with_nl_mode", -1, -1, func(q *psr, st *State) []*Term {
		return []*Term{mkSym("newnl", q.nl().typ), fnT(q)}
	}, nil, "with_nl_mode"))
	// the newline modes
	for _, m := range sortedKeys(r.implementors(syn, "AtNewline")) {
		t := r.implementors(syn, "AtNewline")[m]
		ip := NewInterp(r.w)
		st := NewState()
		fn := r.fn("(*" + syn + "." + m + ").stop_at")
		q := &psr{w: r.w, r: r, ip: ip}
		st.heap["new:nl"] = q.symVal(st, t, "mode")
		r.decide("stream", &Unit{Name: "stop-at-" + m, Fn: fn, Interp: ip, St: st, Args: []*Term{
			mkPtr("new:nl", types.NewPointer(t)), q.symVal(st, fn.Params[1].Type(), "newline"), mkSym("kind", fn.Params[2].Type())}})
	}
	// the first token
	u = r.primFn(syn+".NewParser", "new-parser", -1, -1, func(q *psr, st *State) []*Term {
		fn := r.fn(syn + ".NewParser")
		return []*Term{mkSym("text", fn.Params[0].Type()), mkSym("offset", fn.Params[1].Type()), mkSym("startmode", fn.Params[2].Type())}
	}, nil)
	u.Args = u.Args[1:]
	u.Final = nil
	r.decide("stream", u)
	r.decide("stream", r.primUnit("finish", -1, -1, noArgs, nil))
	r.decide("stream", r.primUnit("finish_into", -1, -1, func(q *psr, st *State) []*Term { return []*Term{mkSym("want", q.kindT())} }, nil))
}

// implementors are the types of the package whose pointers implement an
// interface.
func (r *Report) implementors(rel, iface string) map[string]types.Type {
	it := r.named(rel, iface).Underlying().(*types.Interface)
	out := map[string]types.Type{}
	sc := r.w.SPkgs[rel].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) {
			out[n] = tn.Type()
		}
	}
	return out
}

func init() {
	register(&Property{ID: "T18", Run: func(w *World, r *Report) {
		cpT := r.named(syn, "Checkpoint")
		psT := r.named(syn, "PartialState")
		partial := func(q *psr, st *State, nm string) *Term {
			st.heap["new:"+nm] = zero(psT)
			setF(st, "new:"+nm, "cursor", mkSym(nm+".cursor", r.needField(psT, "cursor")))
			setF(st, "new:"+nm, "lex_mode", mkSym(nm+".mode", r.needField(psT, "lex_mode")))
			f := map[string]*Term{}
			for _, n := range tokFields {
				f[n] = mkSym(nm+"."+tokNames[n], r.needField(r.named(syn, "Token"), n))
			}
			setF(st, "new:"+nm, "token", r.object(st, syn, "Token", nm+".token", f))
			return mkPtr("new:"+nm, types.NewPointer(psT))
		}
		final := func(u *Unit) *Unit {
			u.Interp.Intrinsics["(*"+syn+".SyntaxNode).clone"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
				return one(mkSym("clone("+canon(st, c.Args[0])+")", c.Type), st), true
			}
			u.Final = func(o *Outcome, c *Case) {
				for _, f := range []string{"nodes", "balanced", "token", "nl_mode", "memo"} {
					c.R[f] = canon(o.st, getF(o.st, "new:parser", f))
				}
				c.R["mode"] = canon(o.st, getF(o.st, "new:plexer", "mode"))
			}
			return u
		}
		// the places which backtrack
		for _, n := range []string{"expr_with_paren", "destructuring_item"} {
			r.decide("use", r.grammarUnit(syn+".", n, 3))
		}
		r.decide("backtracking", final(r.primUnit("checkpoint", 2, -1, noArgs, nil, "checkpoint")))
		var us []*Unit
		for n := 0; n <= 3; n++ {
			for k := 0; k <= n; k++ {
				us = append(us, final(r.primUnit("restore", n, -1, func(q *psr, st *State) []*Term {
					st.heap["new:cp"] = zero(cpT)
					setF(st, "new:cp", "node_len", mkInt(int64(k), r.needField(cpT, "node_len")))
					setF(st, "new:cp", "state", partial(q, st, "saved"))
					return []*Term{mkPtr("new:cp", types.NewPointer(cpT))}
				}, map[string]int64{"saved length": int64(k)}, "restore")))
			}
		}
		r.decide("backtracking", us...)
		arena := func(q *psr, st *State, n int) {
			mt := r.named(syn, "MemoArena")
			nt := r.needField(mt, "arena").Underlying().(*types.Slice).Elem()
			var el []*Term
			for i := 0; i < n; i++ {
				el = append(el, mkSym(fmt.Sprintf("m%d", i), nt))
			}
			st.heap["new:memo"] = zero(mt)
			setF(st, "new:memo", "arena", q.ip.newSlice(st, "new:memo.arena", r.needField(mt, "arena"), el))
			mm := r.needField(mt, "memo_map")
			st.heap["new:memo.map"] = mkApp("emptymap", mm)
			setF(st, "new:memo", "memo_map", intern(&Term{op: "map", name: "new:memo.map", typ: mm}))
			setF(st, "new:parser", "memo", mkPtr("new:memo", types.NewPointer(mt)))
		}
		us = nil
		for a := 0; a <= 2; a++ {
			for n := 0; n <= 2; n++ {
				for k := 0; k <= n; k++ {
					us = append(us, final(r.primUnit("memoize_parsed_nodes", n, -1, func(q *psr, st *State) []*Term {
						arena(q, st, a)
						fn := r.fn("(*" + syn + ".Parser).memoize_parsed_nodes")
						return []*Term{mkSym("key", fn.Params[1].Type()), mkInt(int64(k), fn.Params[2].Type())}
					}, map[string]int64{"arena": int64(a), "from": int64(k)}, "memoize_parsed_nodes", "checkpoint")))
				}
			}
		}
		r.decide("backtracking", us...)
		us = nil
		us = append(us, final(r.primUnit("restore_memo_or_checkpoint", 2, -1, func(q *psr, st *State) []*Term {
			arena(q, st, 2)
			return nil
		}, map[string]int64{"known": 0}, "restore_memo_or_checkpoint", "checkpoint")))
		for lo := 0; lo <= 3; lo++ {
			for hi := lo; hi <= 3; hi++ {
				us = append(us, final(r.primUnit("restore_memo_or_checkpoint", 2, -1, func(q *psr, st *State) []*Term {
					arena(q, st, 3)
					mpT := r.named(syn, "MemoPair")
					st.heap["new:pair"] = zero(mpT)
					rt := r.needField(mpT, "arena_range")
					rs := rt.Underlying().(*types.Struct)
					setF(st, "new:pair", "arena_range", mkStruct(rt, []*Term{mkInt(int64(lo), rs.Field(0).Type()), mkInt(int64(hi), rs.Field(1).Type())}))
					setF(st, "new:pair", "state", partial(q, st, "saved"))
					m := st.heap["new:memo.map"]
					key := convertTerm(getF(st, "new:token0", "start"), r.needField(r.named(syn, "MemoArena"), "memo_map").Underlying().(*types.Map).Key())
					st.heap["new:memo.map"] = mapSet(m, key, mkPtr("new:pair", types.NewPointer(mpT)))
					return nil
				}, map[string]int64{"known": 1, "lo": int64(lo), "hi": int64(hi)}, "restore_memo_or_checkpoint", "checkpoint")))
			}
		}
		r.decide("backtracking", us...)
		fn := r.fn(syn + ".NewMemoArena")
		ip := NewInterp(r.w)
		r.decide("backtracking", &Unit{Name: "new-memo", Fn: fn, Interp: ip, St: NewState()})
	}})
}
