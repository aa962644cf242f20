package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions on small structures: each function is decided on listed shapes of
// its arguments, whose parts are symbolic (texts, kinds, numbers, spans).

// fx builds the arguments of one unit.
type fx struct {
	r      *Report
	ip     *Interp
	st     *State
	fn     *ssa.Function
	u      *Unit
	objs   map[string]*Term // objects and their initial content
	before map[string]string
	free   bool // sums of inner nodes are unknown
}

// refined tells whether an object only prints differently because more is known
// of its unchanged content.
func (x *fx) refined(st *State, n, now string) bool {
	if st.heap[n] != x.u.orig.heap[n] {
		return false
	}
	was := st.clone()
	was.heap = x.u.orig.heap
	return canon(was, was.heap[n]) == now
}

var caseNames = map[string][]string{}

// caseID numbers a description of an input.
func caseID(key, name string) int64 {
	for i, n := range caseNames[key] {
		if n == name {
			return int64(i)
		}
	}
	caseNames[key] = append(caseNames[key], name)
	return int64(len(caseNames[key]) - 1)
}

// fx starts a unit for the function.
func (r *Report) fx(full, unit string) *fx {
	ip := NewInterp(r.w)
	ip.MaxSteps = 20000000
	ip.MaxVisits = 6
	ip.Arith = true
	ip.MaxRec = 12 // the structures are finite
	st := NewState()
	x := &fx{r: r, ip: ip, st: st, fn: r.fn(full), objs: map[string]*Term{}}
	x.u = &Unit{Name: unit, Fn: x.fn, Interp: ip, St: st, Case: map[string]int64{}}
	x.u.Final = func(o *Outcome, c *Case) {
		for _, n := range sortedKeys(x.objs) {
			if x.before == nil {
				x.before = map[string]string{}
			}
			k := "now " + strings.TrimPrefix(n, "new:")
			old, ok := x.before[k]
			if !ok {
				old = canon(x.u.orig, x.objs[n])
				x.before[k] = old
			}
			if now := canon(o.st, o.st.heap[n]); now != old {
				if !x.refined(o.st, n, now) {
					c.R[k] = now
				}
			}
		}
		c.before = x.before
	}
	return x
}

func (x *fx) label(key, name string) *fx {
	k := x.u.Name + ":" + key
	x.u.Case[k] = caseID(k, name)
	return x
}

// typ is the type of the i-th parameter, the receiver included.
func (x *fx) typ(i int) types.Type {
	if i >= len(x.fn.Params) {
		x.r.check(false, "anchor", x.r.w.Name(x.fn), x.r.w.posOf(x.fn), "has %d parameters", len(x.fn.Params))
		panic(abort{})
	}
	return x.fn.Params[i].Type()
}

func (x *fx) sym(i int, name string) *Term { return mkSym(name, x.typ(i)) }

// alloc allocates a known object.
func (x *fx) alloc(name string, v *Term, t types.Type) *Term {
	obj := "new:" + name
	objNames[obj] = name
	x.st.heap[obj] = v
	x.objs[obj] = v
	return mkPtr(obj, types.NewPointer(t))
}

// list is a slice with the given elements.
func (x *fx) list(name string, t types.Type, el ...*Term) *Term {
	obj := "new:" + name
	s := x.ip.newSlice(x.st, obj, t, el)
	x.objs[obj] = x.st.heap[obj]
	objNames[obj] = name
	return s
}

// mk makes a struct with some fields.
func (x *fx) mk(t types.Type, fields map[string]*Term) *Term {
	v := zero(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		x.r.check(false, "anchor", typeName(t), "-", "not a struct")
		panic(abort{})
	}
	a := append([]*Term{}, v.args...)
	done := 0
	for i := 0; i < s.NumFields(); i++ {
		if f, ok := fields[s.Field(i).Name()]; ok {
			a[i] = f
			done++
		}
	}
	if done != len(fields) {
		x.r.check(false, "anchor", typeName(t), "-", "fields of %s not found", typeName(t))
		panic(abort{})
	}
	return mkStruct(t, a)
}

// shape is a parsed description of a node: L leaf, E error, I(...) inner, each
// with an optional :Kind or ="text".
type shape struct {
	tag  byte
	kind string
	text string
	has  bool
	kids []shape
}

func parseShape(s string) shape {
	p := &shapeParser{s: s}
	n := p.node()
	if p.i != len(s) {
		panic("bad shape " + s)
	}
	return n
}

func parseShapes(s string) []shape {
	if s == "" {
		return nil
	}
	return parseShape("I(" + s + ")").kids
}

type shapeParser struct {
	s string
	i int
}

func (p *shapeParser) node() shape {
	n := shape{tag: p.s[p.i]}
	p.i++
	if p.i < len(p.s) && p.s[p.i] == ':' {
		j := p.i + 1
		for p.i = j; p.i < len(p.s) && !strings.ContainsRune("(),= ", rune(p.s[p.i])); p.i++ {
		}
		n.kind = p.s[j:p.i]
	}
	if p.i < len(p.s) && p.s[p.i] == '=' {
		j := p.i + 2
		for p.i = j; p.s[p.i] != '\''; p.i++ {
		}
		n.text, n.has = p.s[j:p.i], true
		p.i++
	}
	if n.tag == 'I' && p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		for p.s[p.i] != ')' {
			if p.s[p.i] == ' ' || p.s[p.i] == ',' {
				p.i++
				continue
			}
			n.kids = append(n.kids, p.node())
		}
		p.i++
	}
	return n
}

// numbers of a node
type nodeSums struct {
	len, desc *Term
	err       bool
}

// node builds a node; leaves of unknown kind are not errors.
func (x *fx) node(spec, name string) *Term {
	t, _ := x.build(parseShape(spec), name)
	return t
}

func (x *fx) nodes(spec, name string) []*Term {
	var r []*Term
	for i, s := range parseShapes(spec) {
		t, _ := x.build(s, fmt.Sprintf("%s%d", name, i))
		r = append(r, t)
	}
	return r
}

// given restricts the inputs.
func (x *fx) given(c *Term, v bool) {
	enum := x.ip.Enum
	x.ip.Enum = true
	for _, b := range x.ip.split(x.st, c) {
		if b.v == v {
			x.st = b.st
		}
	}
	x.ip.Enum = enum
	x.u.St = x.st
}

func (x *fx) kindOf(n shape, name string) *Term {
	kt := x.r.named(syn, "SyntaxKind")
	if n.kind != "" {
		k := x.r.w.enum(syn, "SyntaxKind", "SyntaxKind")[n.kind]
		if k == nil {
			x.r.check(false, "anchor", n.kind, "-", "kind not found")
			panic(abort{})
		}
		return k
	}
	k := mkSym("kind of "+name, kt)
	x.given(mkEq(k, x.r.w.enum(syn, "SyntaxKind", "SyntaxKind")["Error"]), false)
	return k
}

func (x *fx) build(n shape, name string) (*Term, nodeSums) {
	r := x.r
	sn := r.named(syn, "SyntaxNode")
	span := mkSym("span of "+name, r.named(syn, "Span"))
	text := mkSym("text of "+name, types.Typ[types.String])
	if n.has {
		text = mkStr(n.text)
	}
	sums := nodeSums{desc: mkInt(1, types.Typ[types.Uint])}
	var rep *Term
	var rt *types.Named
	switch n.tag {
	case 'L':
		rt = r.named(syn, "LeafNode")
		rep = x.alloc(name+".leaf", x.mk(rt, map[string]*Term{"Kind": x.kindOf(n, name), "Text": text, "Span": span}), rt)
		sums.len = termLen(text)
	case 'E':
		rt = r.named(syn, "ErrorNode")
		et := r.named(syn, "SyntaxError")
		hints := mkNil(r.needField(et, "Hints"))
		e := x.alloc(name+".err", x.mk(et, map[string]*Term{"Span": span, "Message": mkSym("message of "+name, types.Typ[types.String]), "Hints": hints}), et)
		rep = x.alloc(name+".error", x.mk(rt, map[string]*Term{"Text": text, "Error": e}), rt)
		sums.len = termLen(text)
		sums.err = true
	case 'I':
		rt = r.named(syn, "InnerNode")
		ct := r.needField(rt, "Children")
		var el []*Term
		sums.len = mkInt(0, types.Typ[types.Uint])
		for i, k := range n.kids {
			c, s := x.build(k, fmt.Sprintf("%s.%d", name, i))
			el = append(el, c)
			sums.len, _ = linAdd(sums.len, s.len, 1, types.Typ[types.Uint])
			sums.desc, _ = linAdd(sums.desc, s.desc, 1, types.Typ[types.Uint])
			sums.err = sums.err || s.err
		}
		f := map[string]*Term{"Kind": x.kindOf(n, name), "Span": span, "Upper": mkSym("upper of "+name, types.Typ[types.Uint64])}
		f["Children"] = mkNil(ct)
		if len(el) > 0 {
			f["Children"] = x.list(name+".children", ct, el...)
			delete(x.objs, "new:"+name+".children")
		}
		f["Len"], f["Descendants"], f["Erroneous"] = sums.len, sums.desc, mkBool(sums.err)
		if x.free {
			f["Len"] = mkSym("length of "+name, types.Typ[types.Uint])
			f["Descendants"] = mkSym("descendants of "+name, types.Typ[types.Uint])
			f["Erroneous"] = mkSym("erroneous "+name, boolT)
			sums.len, sums.desc = f["Len"], f["Descendants"]
		}
		rep = x.alloc(name+".inner", x.mk(rt, f), rt)
	default:
		panic("bad shape")
	}
	v := r.wrapRepr(sn, zero(sn), mkIface(types.NewPointer(rt), rep, nil))
	return x.alloc(name, v, sn), sums
}

// opaque makes a function an action with unknown results.
func (x *fx) opaque(full, label string) {
	x.r.fn(full)
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		var as []string
		for _, a := range c.Args {
			as = append(as, canon(st, a))
		}
		n := len(st.ev)
		st.event("%s(%s)", label, strings.Join(as, ", "))
		return one(unknownResult(fmt.Sprintf("%s@%d", label, n), c.Type), st), true
	}
}

// pureFn makes a function an unknown function of its arguments.
func (x *fx) pureFn(full, label string) {
	x.r.fn(full)
	x.pureModel(full, label)
}

func (x *fx) pureModel(full, label string) {
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		var as []string
		for _, a := range c.Args {
			as = append(as, rawCanon(st, a))
		}
		return one(unknownResult(label+"("+strings.Join(as, ", ")+")", c.Type), st), true
	}
}

// unlessKnown analyses a function on constant arguments all the same.
func (x *fx) unlessKnown(full string) {
	m := x.ip.Intrinsics[full]
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		known := true
		for _, a := range c.Args {
			known = known && a.isConst()
		}
		if known {
			return nil, false
		}
		return m(ip, st, c)
	}
}

// lookup makes a function an unknown one of its arguments which may fail: then
// its other results are zero.
func (x *fx) lookup(full, label string) {
	x.r.fn(full)
	x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		tt, ok := c.Type.(*types.Tuple)
		if !ok {
			return nil, false
		}
		var as []string
		for _, a := range c.Args {
			as = append(as, rawCanon(st, a))
		}
		r := unknownResult(label+"("+strings.Join(as, ", ")+")", c.Type)
		last := r.args[tt.Len()-1]
		var outs []Outcome
		fails := !isBoolT(last.typ)
		cond := last
		if fails {
			cond = mkNot(mkEq(last, mkNil(last.typ)))
		}
		for _, b := range ip.split(st, cond) {
			a := append([]*Term{}, r.args...)
			if b.v == fails {
				for i := range a[:len(a)-1] {
					a[i] = zero(tt.At(i).Type())
				}
			}
			if !fails {
				a[len(a)-1] = mkBool(b.v)
			} else if !b.v {
				a[len(a)-1] = mkNil(last.typ)
			}
			outs = append(outs, Outcome{val: mkTuple(a...), st: b.st})
		}
		return outs, true
	}
}

func unknownResult(n string, t types.Type) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, mkSym(fmt.Sprintf("%s.%d", n, i), tt.At(i).Type()))
		}
		return mkTuple(rs...)
	}
	return mkSym(n, t)
}

// decideAll decides the units of a property by name.
func (r *Report) decideAll(rule string, xs ...*fx) {
	by := map[string][]*Unit{}
	var order []string
	for _, x := range xs {
		if by[x.u.Name] == nil {
			order = append(order, x.u.Name)
		}
		by[x.u.Name] = append(by[x.u.Name], x.u)
	}
	for _, n := range order {
		r.decide(rule, by[n]...)
	}
}

var _ = sort.Strings

var u64 = types.Typ[types.Uint64]

// rng is a range; the i-th parameter has this type.
func (x *fx) rng(i int, lo, hi *Term) *Term {
	return x.mk(x.r.named("internal/ranges", "Range"), map[string]*Term{"Start": lo, "End": hi})
}

// some is an option with a value for the i-th parameter.
func (x *fx) some(i int, v *Term) *Term {
	t := x.typ(i)
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 1 {
		x.r.check(false, "anchor", typeName(t), "-", "not an option")
		panic(abort{})
	}
	obj := "new:some:" + fmt.Sprint(len(x.st.heap))
	x.st.heap[obj] = v
	return mkStruct(t, []*Term{mkPtr(obj, s.Field(0).Type())})
}

// innerOf is the representation of a node.
func (x *fx) innerOf(n *Term) *Term {
	v := x.st.heap[n.name]
	for _, a := range v.args {
		if a.op == "iface" {
			return a.args[0]
		}
	}
	x.r.check(false, "anchor", "SyntaxNode", "-", "no representation field")
	panic(abort{})
}
