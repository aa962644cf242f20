package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// stdModels are the transfer functions of library functions.
var stdModels = map[string]Intrinsic{}

func strPred(f func(a, b string) bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		a, ok1 := c.Args[0].strVal()
		b, ok2 := c.Args[1].strVal()
		if ok1 && ok2 {
			return one(mkBool(f(a, b)), st), true
		}
		return nil, false
	}
}

// overflowing adds or subtracts and reports whether the result wrapped around.
func overflowing(op token.Token) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		t := types.Typ[types.Uint64]
		v := binop(op, c.Args[0], c.Args[1], t)
		wrap := binop(token.LSS, v, c.Args[0], types.Typ[types.Bool])
		if op == token.SUB {
			wrap = binop(token.LSS, c.Args[0], c.Args[1], types.Typ[types.Bool])
		}
		var outs []Outcome
		for _, b := range ip.split(st, wrap) {
			outs = append(outs, Outcome{val: mkTuple(v, mkBool(b.v)), st: b.st})
		}
		return outs, true
	}
}

// spliced replaces a range of a slice.
func spliced(args func(c *CallCtx) (lo, hi, by *Term)) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		l, h, by := args(c)
		el, ok1 := ip.sliceElems(st, c.Args[0])
		more, ok2 := ip.sliceElems(st, by)
		lo, ok3 := l.intVal()
		hi, ok4 := h.intVal()
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return nil, false
		}
		if lo < 0 || lo > hi || hi > int64(len(el)) {
			return []Outcome{{st: st, panic: true, msg: "slice bounds out of range", pos: c.Pos, val: mkStr("slice bounds out of range")}}, true
		}
		n := append(append(append([]*Term{}, el[:lo]...), more...), el[hi:]...)
		if s := c.Args[0]; ip.InPlace && s.op == "slice" && s.args[0].op == "ptr" {
			if lo == hi && len(more) == 0 {
				return one(s, st), true
			}
			from, _ := s.args[1].intVal()
			if room, ok := ip.room(st, s); ok && from+int64(len(n)) <= room {
				p := s.args[0]
				for i := 0; i < max(len(n), len(el)); i++ {
					v := zero(c.Args[0].typ.Underlying().(*types.Slice).Elem())
					if i < len(n) {
						v = n[i]
					}
					ip.store(st, mkPtr(p.name, nil, append(append([]*Term{}, p.args...), mkInt(from+int64(i), nil))...), v, c.Pos)
				}
				a := append([]*Term{}, s.args...)
				a[2] = mkInt(from+int64(len(n)), nil)
				return one(intern(&Term{op: "slice", args: a, typ: s.typ}), st), true
			}
		}
		return one(ip.newSlice(st, "new:"+c.Ctx, c.Args[0].typ, n), st), true
	}
}

func runePred(f func(r rune) bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		v, ok := c.Args[0].intVal()
		if ok {
			return one(mkBool(f(rune(v))), st), true
		}
		return nil, false
	}
}

func init() {
	for k, v := range map[string]Intrinsic{
		"strings.HasPrefix": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return one(hasFix("hasprefix", c.Args[0], c.Args[1]), st), true
		},
		"strings.HasSuffix": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return one(hasFix("hassuffix", c.Args[0], c.Args[1]), st), true
		},
		"strings.Contains":     strPred(strings.Contains),
		"strings.ContainsRune": nil,
		"strings.Repeat": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			a, ok1 := c.Args[0].strVal()
			n, ok2 := c.Args[1].intVal()
			if ok1 && ok2 && n >= 0 && n < 1000 {
				return one(mkStr(strings.Repeat(a, int(n))), st), true
			}
			return nil, false
		},
		"strings.Join": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			el, ok := ip.sliceElems(st, c.Args[0])
			if !ok {
				return nil, false
			}
			s := mkStr("")
			for i, e := range el {
				if i > 0 {
					s = binop(token.ADD, s, c.Args[1], strT)
				}
				s = binop(token.ADD, s, e, strT)
			}
			return one(s, st), true
		},
		"github.com/mrtkp9993/go-overflow.SubUint64": overflowing(token.SUB),
		"github.com/mrtkp9993/go-overflow.AddUint64": overflowing(token.ADD),
		"unicode.IsDigit":  runePred(unicode.IsDigit),
		"unicode.IsSpace":  runePred(unicode.IsSpace),
		"unicode.IsLetter": runePred(unicode.IsLetter),
		"unicode.IsNumber": runePred(unicode.IsNumber),
		"unicode.IsUpper":  runePred(unicode.IsUpper),
		"unicode.IsLower":  runePred(unicode.IsLower),
		"unicode.Is": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return nil, false
		},
		"unicode/utf8.ValidRune": runePred(utf8.ValidRune),
		"unicode/utf8.RuneLen": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			if v, ok := c.Args[0].intVal(); ok {
				return one(mkInt(int64(utf8.RuneLen(rune(v))), nil), st), true
			}
			return nil, false
		},
		"slices.Contains": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			el, ok := ip.sliceElems(st, c.Args[0])
			if !ok {
				return nil, false
			}
			r := mkBool(false)
			for _, x := range el {
				eq := mkEq(x, c.Args[1])
				if v, ok := ip.truth(st, eq); ok {
					if v {
						return one(mkBool(true), st), true
					}
					continue
				}
				if r.isFalse() {
					r = eq
				} else {
					r = mkApp("or", types.Typ[types.Bool], r, eq)
				}
			}
			return one(r, st), true
		},
		"slices.Insert":  spliced(func(c *CallCtx) (*Term, *Term, *Term) { return c.Args[1], c.Args[1], c.Args[2] }),
		"slices.Replace": spliced(func(c *CallCtx) (*Term, *Term, *Term) { return c.Args[1], c.Args[2], c.Args[3] }),
		"slices.Delete":  spliced(func(c *CallCtx) (*Term, *Term, *Term) { return c.Args[1], c.Args[2], mkNil(c.Args[0].typ) }),
		"slices.Clone": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			el, ok := ip.sliceElems(st, c.Args[0])
			if !ok || c.Args[0].op == "nil" {
				return nil, false
			}
			return one(ip.newSlice(st, "new:"+c.Ctx, c.Args[0].typ, append([]*Term{}, el...)), st), true
		},
		"slices.Concat": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			parts, ok := ip.sliceElems(st, c.Args[0])
			if !ok {
				return nil, false
			}
			var n []*Term
			for _, p := range parts {
				el, ok := ip.sliceElems(st, p)
				if !ok {
					return nil, false
				}
				n = append(n, el...)
			}
			if len(n) == 0 {
				return one(mkNil(c.Type), st), true
			}
			return one(ip.newSlice(st, "new:"+c.Ctx, c.Type, n), st), true
		},
		"fmt.Sprintf": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			f, ok := c.Args[0].strVal()
			if !ok {
				return nil, false
			}
			el, ok := ip.sliceElems(st, c.Args[1])
			if !ok {
				return nil, false
			}
			return one(sprintf(f, ip.texts(st, c, f, el)), st), true
		},
		"fmt.Sprint": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			el, ok := ip.sliceElems(st, c.Args[0])
			if !ok {
				return nil, false
			}
			f, ok := printFormat(el)
			if !ok {
				return nil, false
			}
			return one(sprintf(f, ip.texts(st, c, f, el)), st), true
		},
		"fmt.Errorf":                   errModel,
		"errors.New":                   errModel,
		"github.com/pkg/errors.Errorf": errModel,
		"github.com/pkg/errors.New":    errModel,
		"github.com/pkg/errors.Wrap":   errModel,
		"github.com/pkg/errors.Wrapf":  errModel,
		"github.com/pkg/errors.WithStack": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			a := c.Args[0]
			if a.op == "nil" {
				return one(a, st), true
			}
			if a.op == "app" && (a.name == "error" || strings.HasPrefix(a.name, "someError")) || a.op == "iface" {
				return one(a, st), true
			}
			return one(mkApp("withstack", c.Type, a), st), true
		},
		"(*strings.Builder).WriteString": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			sbAppend(ip, st, c.Args[0], c.Args[1])
			return one(mkTuple(termLen(c.Args[1]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"(*strings.Builder).WriteRune": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			sbAppend(ip, st, c.Args[0], runeStr(c.Args[1]))
			return one(mkTuple(mkApp("runelen", types.Typ[types.Int], c.Args[1]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"(*strings.Builder).WriteByte": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			sbAppend(ip, st, c.Args[0], runeStr(c.Args[1]))
			return one(mkNil(types.Universe.Lookup("error").Type()), st), true
		},
		"(*strings.Builder).String": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return one(sbGet(ip, st, c.Args[0]), st), true
		},
		"(*bytes.Buffer).WriteString": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			sbAppend(ip, st, c.Args[0], c.Args[1])
			return one(mkTuple(termLen(c.Args[1]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"(*bytes.Buffer).Write":    writeModel,
		"(*strings.Builder).Write": writeModel,
		"(*bytes.Buffer).String": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return one(sbGet(ip, st, c.Args[0]), st), true
		},
		"fmt.Fprintf": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p, ok := sbTarget(c.Args[0])
			if !ok {
				return nil, false
			}
			f, ok := c.Args[1].strVal()
			if !ok {
				return nil, false
			}
			el, ok := ip.sliceElems(st, c.Args[2])
			if !ok {
				return nil, false
			}
			sbAppend(ip, st, p, sprintf(f, ip.texts(st, c, f, el)))
			return one(mkTuple(mkSym(c.Ctx, types.Typ[types.Int]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"fmt.Fprint": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p, ok := sbTarget(c.Args[0])
			if !ok {
				return nil, false
			}
			el, ok := ip.sliceElems(st, c.Args[1])
			if !ok {
				return nil, false
			}
			f, ok := printFormat(el)
			if !ok {
				return nil, false
			}
			sbAppend(ip, st, p, sprintf(f, ip.texts(st, c, f, el)))
			return one(mkTuple(mkSym(c.Ctx, types.Typ[types.Int]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"fmt.Fprintln": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p, ok := sbTarget(c.Args[0])
			if !ok {
				return nil, false
			}
			el, ok := ip.sliceElems(st, c.Args[1])
			if !ok {
				return nil, false
			}
			f := strings.TrimSuffix(strings.Repeat("%v ", len(el)), " ") + "\n"
			sbAppend(ip, st, p, sprintf(f, ip.texts(st, c, f, el)))
			return one(mkTuple(mkSym(c.Ctx, types.Typ[types.Int]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"io.WriteString": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p, ok := sbTarget(c.Args[0])
			if !ok {
				return nil, false
			}
			sbAppend(ip, st, p, c.Args[1])
			return one(mkTuple(mkSym(c.Ctx, types.Typ[types.Int]), mkNil(types.Universe.Lookup("error").Type())), st), true
		},
		"cmp.Compare": func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			a, b := c.Args[0], c.Args[1]
			var outs []Outcome
			lt, eq := mkLt(a, b), mkEq(a, b)
			try := func(s *State, l, q bool, r int64) {
				if v, ok := ip.truth(s, lt); ok && v != l {
					return
				}
				if v, ok := ip.truth(s, eq); ok && v != q {
					return
				}
				gt := mkLt(b, a)
				if v, ok := ip.truth(s, gt); ok && v != (!l && !q) {
					return
				}
				s = s.clone()
				ip.assume(s, lt, l)
				ip.assume(s, eq, q)
				ip.assume(s, gt, !l && !q)
				outs = append(outs, Outcome{val: mkInt(r, nil), st: s})
			}
			try(st, true, false, -1)
			try(st, false, true, 0)
			try(st, false, false, 1)
			return outs, true
		},
	} {
		stdModels[k] = v
	}
	stdModels["iface:error.Error"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if a := c.Args[0]; a.op == "iface" && a.typ2 == errDyn && a.args[0].op == "app" && a.args[0].name == "error" {
			return one(a.args[0].args[0], st), true
		}
		return nil, false
	}
	stdModels["cmp.Less"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkLt(c.Args[0], c.Args[1]), st), true
	}
	for k, v := range stdModels {
		if v == nil {
			delete(stdModels, k)
		}
	}
}

func errModel(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
	var msg *Term
	switch {
	case strings.HasSuffix(c.Name, ".New") && len(c.Args) == 1:
		msg = c.Args[0]
	case strings.HasSuffix(c.Name, "rrorf") && len(c.Args) == 2:
		f, ok1 := c.Args[0].strVal()
		el, ok2 := ip.sliceElems(st, c.Args[1])
		if ok1 && ok2 {
			msg = sprintf(f, ip.texts(st, c, f, el))
		}
	}
	if msg == nil {
		msg = mkApp("message", types.Typ[types.String], mkSym(c.Name, nil))
	}
	return one(mkIface(errDyn, mkApp("error", nil, msg), c.Type), st), true
}

var errDyn types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "someError", nil), types.NewStruct(nil, nil), nil)

func runeStr(r *Term) *Term {
	if v, ok := r.intVal(); ok {
		return mkConst(constant.MakeString(string(rune(v))), types.Typ[types.String])
	}
	return mkApp("runestr", types.Typ[types.String], r)
}

func sbObj(ip *Interp, st *State, p *Term) string {
	obj, path, _ := ip.objOf(st, p)
	s := "sb:" + obj
	for _, x := range path {
		s += "." + x.String()
	}
	return s
}

// writeModel writes the bytes of a text.
func writeModel(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
	b := c.Args[1]
	if b.op != "app" || b.name != "bytes" {
		return nil, false
	}
	sbAppend(ip, st, c.Args[0], b.args[0])
	return one(mkTuple(termLen(b.args[0]), mkNil(types.Universe.Lookup("error").Type())), st), true
}

// sbTarget extracts the pointer to a builder from an io.Writer.
func sbTarget(w *Term) (*Term, bool) {
	if w.op == "iface" {
		s := types.TypeString(w.typ2, nil)
		if s == "*strings.Builder" || s == "*bytes.Buffer" {
			return w.args[0], true
		}
		if s == "*os.File" && strings.HasSuffix(w.args[0].stable(), "os.Stdout") {
			return mkPtr("new:stdout", nil), true
		}
	}
	return nil, false
}

func sbAppend(ip *Interp, st *State, p, s *Term) {
	obj := sbObj(ip, st, p)
	cur := st.heap[obj]
	if cur == nil {
		cur = sbInit(obj)
	}
	st.heap[obj] = mkConcat(cur, s)
}

func sbInit(obj string) *Term {
	if strings.HasPrefix(obj, "sb:new:") {
		return mkStr("")
	}
	return mkSym("@"+obj, types.Typ[types.String])
}

func sbGet(ip *Interp, st *State, p *Term) *Term {
	obj := sbObj(ip, st, p)
	cur := st.heap[obj]
	if cur == nil {
		cur = sbInit(obj)
	}
	return cur
}

// hasFix builds the prefix/suffix atom.
func hasFix(op string, s, p *Term) *Term {
	b, ok := p.strVal()
	if ok && b == "" {
		return mkBool(true)
	}
	if a, ok2 := s.strVal(); ok && ok2 {
		if op == "hasprefix" {
			return mkBool(strings.HasPrefix(a, b))
		}
		return mkBool(strings.HasSuffix(a, b))
	}
	if op == "hassuffix" && p.op == "app" && p.name == "ext" && p.args[0] == s {
		return mkBool(true)
	}
	return mkApp(op, types.Typ[types.Bool], s, p)
}

var verbRE = regexp.MustCompile(`%[-+# 0-9.]*[a-zA-Z%]`)

// texts replaces the operands printed as text whose type has a String method by
// its result.
func (ip *Interp) texts(st *State, c *CallCtx, f string, el []*Term) []*Term {
	out := append([]*Term{}, el...)
	k := 0
	for _, v := range verbRE.FindAllString(f, -1) {
		if v == "%%" {
			continue
		}
		if k < len(el) && (v == "%v" || v == "%s") && el[k].op == "iface" && el[k].typ2 != errDyn && !ip.initMode {
			if sel := types.NewMethodSet(el[k].typ2).Lookup(nil, "String"); sel != nil {
				if m := ip.w.Prog.MethodValue(sel); m != nil && ip.w.Own(m) {
					cc := &CallCtx{Args: []*Term{el[k].args[0]}, Site: c.Site, Ctx: fmt.Sprintf("%s/%d", c.Ctx, k), Type: strT, Pos: c.Pos}
					s := st.clone()
					outs := ip.callFn(m, nil, cc, s)
					if len(outs) == 1 && !outs[0].panic && outs[0].val != nil {
						for o, t := range outs[0].st.heap {
							if _, ok := st.heap[o]; !ok {
								st.heap[o] = t
							}
						}
						out[k] = outs[0].val
					}
				}
			}
		}
		k++
	}
	return out
}

// sprintf models fmt.Sprintf for the verbs of constants and strings.
func sprintf(f string, el []*Term) *Term {
	var parts []*Term
	i := 0
	k := 0
	lit := ""
	for i < len(f) {
		if f[i] != '%' {
			lit += string(f[i])
			i++
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			lit += "%"
			i += 2
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("0123456789.+-# ", rune(f[j])) {
			j++
		}
		if j >= len(f) || k >= len(el) {
			lit += f[i:]
			break
		}
		verb := f[i : j+1]
		a := el[k]
		k++
		i = j + 1
		x := a
		if x.op == "iface" {
			x = x.args[0]
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		hasStringer := false
		if a.op == "iface" {
			ms := types.NewMethodSet(a.typ2)
			if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
				hasStringer = true
			}
		}
		switch {
		case x.isConst() && !hasStringer:
			switch x.cst.Kind() {
			case constant.String:
				if verb == "%s" || verb == "%v" {
					parts = append(parts, x)
					continue
				}
				parts = append(parts, mkStr(fmt.Sprintf(verb, constant.StringVal(x.cst))))
				continue
			case constant.Int:
				n, _ := x.intVal()
				if verb == "%c" {
					parts = append(parts, mkStr(string(rune(n))))
					continue
				}
				if verb == "%d" || verb == "%v" {
					parts = append(parts, mkStr(fmt.Sprint(n)))
					continue
				}
			case constant.Bool:
				parts = append(parts, mkStr(fmt.Sprint(constant.BoolVal(x.cst))))
				continue
			}
		case (verb == "%s" || verb == "%v") && x.typ != nil && isString(x.typ) && !hasStringer:
			parts = append(parts, x)
			continue
		case verb == "%c":
			parts = append(parts, runeStr(x))
			continue
		case (verb == "%d" || verb == "%v") && isInt(x.typ) && !hasStringer:
			parts = append(parts, mkApp("dec", strT, x))
			continue
		}
		parts = append(parts, mkApp("fmt"+verb, types.Typ[types.String], a))
	}
	parts = append(parts, mkStr(lit))
	return mkConcat(parts...)
}

// ---- package initialisation -------------------------------------------------------

// InitGlobals analyses the package initialisers and records the contents of the
// package level variables which are never written afterwards.
func (w *World) InitGlobals() error {
	ip := NewInterp(w)
	ip.initMode = true
	ip.MaxSteps = 3000000
	st := NewState()
	order := []string{}
	done := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p.Path()] || !strings.HasPrefix(p.Path(), w.Mod) {
			return
		}
		done[p.Path()] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		order = append(order, strings.TrimPrefix(strings.TrimPrefix(p.Path(), w.Mod), "/"))
	}
	for _, p := range w.Pkgs {
		visit(p.Types)
	}
	// own package inits are called explicitly, in dependency order
	for _, rel := range order {
		sp := w.SPkgs[rel]
		if sp == nil {
			continue
		}
		ip.Intrinsics[w.Name(sp.Func("init"))] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return one(mkTuple(), st), true
		}
	}
	for _, rel := range order {
		sp := w.SPkgs[rel]
		if sp == nil {
			continue
		}
		f := sp.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		outs := ip.Call(f, nil, nil, st, "init:"+rel)
		if ip.Failed != "" {
			return fmt.Errorf("initialiser of %s: %s", rel, ip.Failed)
		}
		ok := false
		for _, o := range outs {
			if !o.panic {
				st = o.st
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("initialiser of %s always panics", rel)
		}
		st.facts = map[*Term]bool{}
	}
	w.inits = st.heap
	w.globOK = map[string]bool{}
	for _, sp := range w.SPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.globOK["g:"+g.String()] = true
			}
		}
	}
	// Globals stored to outside of initialisers are not constant.
	for _, f := range w.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					// their address is handed out
					for _, a := range c.Common().Args {
						if g := rootGlobal(a); g != nil {
							w.globOK["g:"+g.String()] = false
						}
					}
				}
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g := rootGlobal(s.Addr); g != nil {
					w.globOK["g:"+g.String()] = false
				}
			}
		}
	}
	return nil
}

// rootGlobal returns the package level variable an address is part of.
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// printFormat is the format by which operands are printed without one: a space
// between two operands when neither is a string.
func printFormat(el []*Term) (string, bool) {
	f, last := "", true
	for i, e := range el {
		str := false
		if e.op == "iface" {
			b, ok := e.typ2.Underlying().(*types.Basic)
			str = ok && b.Info()&types.IsString != 0
		} else if len(el) > 1 {
			return "", false
		}
		if i > 0 && !str && !last {
			f += " "
		}
		f += "%v"
		last = str
	}
	return f, true
}
