package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Write effects of functions: which memory reachable from parameters, captured
// variables and package-level variables a call may change. The analysis is flow
// insensitive within a function and context sensitive by summaries: memory is
// named by the parameter, variable or allocation it is reached from, directly
// or through further pointers.

// A root names memory: parameter i, captured variable i, a package-level
// variable, or what is allocated at an instruction.
type effRoot struct {
	kind  byte // p, f, g, a
	i     int
	v     any    // *ssa.Global or the allocating instruction or *ssa.Function
	slot  string // reached through a place of this type
	deep  bool   // reached through further places
	fresh int
}

type rootSet map[effRoot]bool

func (s rootSet) add(o rootSet) bool {
	n := len(s)
	for r := range o {
		s[r] = true
	}
	return len(s) != n
}

// slots is what memory refers to, by the type of the place it is stored in ("" for unknown).
type slots map[string]rootSet

func (s slots) put(t string, v rootSet) bool {
	if len(v) == 0 {
		return false
	}
	m := s[t]
	if m == nil {
		m = rootSet{}
		s[t] = m
	}
	return m.add(v)
}

func (s slots) size() int {
	n := 0
	for _, m := range s {
		n += len(m)
	}
	return n
}

// slotsOf lists the types of places which may refer to memory in a value of type t.
func slotsOf(t types.Type) []string {
	if t == nil {
		return []string{""}
	}
	var out []string
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] || !refs(t) {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type())
			}
		case *types.Pointer:
			out = append(out, types.TypeString(u, nil))
		default:
			out = append(out, types.TypeString(u, nil))
		}
	}
	walk(t)
	return out
}

// effWrite is a write and where it happens.
type effWrite struct {
	pos   token.Pos
	what  string
	via   []string
	typ   types.Type
	field int // -1: all of it
	in    ssa.Instruction
	f     *ssa.Function
}

// effKey is the memory which is written and the type of what is written.
type effKey struct {
	root  effRoot
	typ   string
	field int
}

// A use of a function value: its arguments.
type effCall struct {
	args []rootSet
	pos  token.Pos
}

type effSum struct {
	writes map[effKey]effWrite
	rets   []rootSet         // roots of the results; allocations are kept apart
	inside slots             // what memory allocated by the call refers to
	flows  map[effRoot]slots // what is stored into memory which is not local
	calls  map[effRoot]*effCall
	fresh  effRoot
	size   int
}

type effects struct {
	w     *World
	sums  map[*ssa.Function]*effSum
	dirty bool
	impls map[string][]*ssa.Function
	last  map[*ssa.Function]*effFn
	holds map[[2]string]bool
	slot  map[types.Type][]string
	impl  map[string][]types.Type
	users map[*ssa.Function]map[*ssa.Function]bool
}

// pointee is the type of the memory an address or a reference is for.
func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return t
}

// accessed is the type and field of the memory at an address.
func accessed(a ssa.Value) (types.Type, int) {
	if f, ok := a.(*ssa.FieldAddr); ok {
		return pointee(f.X.Type()), f.Field
	}
	return pointee(a.Type()), -1
}

// mayHold reports whether memory of type w may be reached from a value of type t.
func (e *effects) mayHold(t, w types.Type) bool {
	if t == nil || w == nil {
		return true
	}
	k := [2]string{types.TypeString(t, nil), types.TypeString(w.Underlying(), nil)}
	r, ok := e.holds[k]
	if !ok {
		r = e.holdsIn(t, w.Underlying(), map[types.Type]bool{})
		e.holds[k] = r
	}
	return r
}

func (e *effects) holdsIn(t, w types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	u := t.Underlying()
	if types.Identical(u, w) {
		return true
	}
	switch u := u.(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if e.holdsIn(u.Field(i).Type(), w, seen) {
				return true
			}
		}
	case *types.Array:
		return e.holdsIn(u.Elem(), w, seen)
	case *types.Slice:
		return e.holdsIn(u.Elem(), w, seen)
	case *types.Pointer:
		return e.holdsIn(u.Elem(), w, seen)
	case *types.Map:
		return e.holdsIn(u.Key(), w, seen) || e.holdsIn(u.Elem(), w, seen)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return true
		}
		for _, t := range e.implementers(u) {
			if e.holdsIn(t, w, seen) {
				return true
			}
		}
	case *types.Signature, *types.Chan, *types.TypeParam:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// refs reports whether values of the type may refer to mutable memory.
func refs(t types.Type) bool { return refsIn(t, map[types.Type]bool{}) }

func refsIn(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsIn(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return refsIn(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refsIn(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func newEffects(w *World) *effects {
	e := &effects{w: w, sums: map[*ssa.Function]*effSum{}, impls: map[string][]*ssa.Function{}, last: map[*ssa.Function]*effFn{}, holds: map[[2]string]bool{}, slot: map[types.Type][]string{}, impl: map[string][]types.Type{}}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !e.body(f) {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range w.Funcs {
		if f.TypeParams().Len() == 0 || len(f.TypeArgs()) > 0 {
			add(f)
		}
	}
	e.users = map[*ssa.Function]map[*ssa.Function]bool{}
	queued := map[*ssa.Function]bool{}
	// callees first
	order := map[*ssa.Function]int{}
	mark := map[*ssa.Function]bool{}
	var post func(f *ssa.Function)
	post = func(f *ssa.Function) {
		if mark[f] || !seen[f] {
			return
		}
		mark[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						post(g)
					}
				}
			}
		}
		order[f] = len(order)
	}
	for _, f := range fns {
		post(f)
	}
	sort.SliceStable(fns, func(i, j int) bool { return order[fns[i]] < order[fns[j]] })
	todo := fns
	for n := 0; len(todo) > 0 && n < 200000; n++ {
		var next []*ssa.Function
		for _, f := range todo {
			queued[f] = false
			e.dirty = false
			e.analyse(f)
			if !e.dirty {
				continue
			}
			for u := range e.users[f] {
				if !queued[u] {
					queued[u] = true
					next = append(next, u)
				}
			}
		}
		sort.Slice(next, func(i, j int) bool { return order[next[i]] < order[next[j]] })
		todo = next
	}
	return e
}

// body reports whether the body of f is analysed.
func (e *effects) body(f *ssa.Function) bool {
	return e.w.Own(f) || e.w.Through(f) || f.Synthetic != "" && len(f.Blocks) > 0 && !strings.HasPrefix(f.Synthetic, "package init")
}

// implementers are the types of the repository with the methods of an interface.
func (e *effects) implementers(it *types.Interface) []types.Type {
	key := types.TypeString(it, nil)
	if r, ok := e.impl[key]; ok {
		return r
	}
	var out []types.Type
	for _, sp := range e.w.SPkgs {
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					out = append(out, t)
					break
				}
			}
		}
	}
	e.impl[key] = out
	return out
}

// methods finds the implementations of an interface method in the repository.
func (e *effects) methods(it *types.Interface, m *types.Func) []*ssa.Function {
	key := types.TypeString(it, nil) + "." + m.Name()
	if r, ok := e.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, sp := range e.w.SPkgs {
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, it) {
					continue
				}
				if s := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()); s != nil {
					if f := e.w.Prog.MethodValue(s); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	e.impls[key] = out
	return out
}

type effFn struct {
	e       *effects
	f       *ssa.Function
	pts     map[ssa.Value]rootSet
	mem     map[effRoot]slots // contents
	sum     *effSum
	changed bool
}

func (x *effFn) roots(v ssa.Value) rootSet {
	switch v := v.(type) {
	case *ssa.Global:
		return rootSet{effRoot{kind: 'g', v: v}: true}
	case *ssa.Function:
		return rootSet{effRoot{kind: 'a', v: v}: true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	if !refs(v.Type()) {
		return nil
	}
	return x.pts[v]
}

func (x *effFn) set(v ssa.Value, s rootSet) {
	if len(s) == 0 || !refs(v.Type()) {
		return
	}
	m := x.pts[v]
	if m == nil {
		m = rootSet{}
		x.pts[v] = m
	}
	if m.add(s) {
		x.changed = true
	}
}

// load is what memory refers to in places of type t (nil: anywhere).
func (x *effFn) load(s rootSet, t types.Type) rootSet {
	return x.loadSlots(s, x.e.slotsOf(t))
}

func (x *effFn) loadSlots(s rootSet, want []string) rootSet {
	out := rootSet{}
	any := len(want) == 1 && want[0] == ""
	for r := range s {
		if r.kind != 'a' {
			d := r
			switch {
			case r.deep:
				out[d] = true
			case r.slot != "" || any:
				d.deep = true
				out[d] = true
			default:
				for _, k := range want {
					d.slot = k
					out[d] = true
				}
			}
		}
		m := x.mem[r]
		if any {
			for _, v := range m {
				out.add(v)
			}
			continue
		}
		out.add(m[""])
		for _, k := range want {
			out.add(m[k])
		}
	}
	return out
}

// reach is all that memory refers to.
func (x *effFn) reach(s rootSet) rootSet {
	out := rootSet{}
	var todo []effRoot
	push := func(r effRoot) {
		if !out[r] {
			out[r] = true
			todo = append(todo, r)
		}
	}
	step := func(r effRoot) {
		if r.kind != 'a' {
			d := r
			d.deep = true
			push(d)
		}
		for _, m := range x.mem[r] {
			for q := range m {
				push(q)
			}
		}
	}
	for r := range s {
		step(r)
	}
	for len(todo) > 0 {
		r := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		step(r)
	}
	return out
}

// store puts v, of type t, into memory.
func (x *effFn) store(at rootSet, v rootSet, t types.Type) {
	if len(v) == 0 {
		return
	}
	for _, k := range x.e.slotsOf(t) {
		x.storeSlot(at, k, v)
	}
}

func (x *effFn) storeSlot(at rootSet, k string, v rootSet) {
	if len(v) == 0 {
		return
	}
	for r := range at {
		m := x.mem[r]
		if m == nil {
			m = slots{}
			x.mem[r] = m
		}
		if m.put(k, v) {
			x.changed = true
		}
	}
}

func (e *effects) slotsOf(t types.Type) []string {
	if r, ok := e.slot[t]; ok {
		return r
	}
	r := slotsOf(t)
	e.slot[t] = r
	return r
}

func (x *effFn) write(at rootSet, typ types.Type, in ssa.Instruction, what string) {
	x.wr(at, effWrite{pos: in.Pos(), what: what, typ: typ, field: -1, in: in, f: x.f})
}

func (x *effFn) wr(at rootSet, w effWrite) {
	typ := w.typ
	ts := ""
	if typ != nil {
		ts = types.TypeString(typ.Underlying(), nil)
	}
	for r := range at {
		var rt types.Type
		switch r.kind {
		case 'a':
			continue
		case 'p':
			rt = x.f.Params[r.i].Type()
		case 'f':
			rt = x.f.FreeVars[r.i].Type()
		case 'g':
			rt = r.v.(*ssa.Global).Type()
		}
		if !x.e.mayHold(rt, typ) {
			continue
		}
		k := effKey{r, ts, w.field}
		if _, ok := x.sum.writes[k]; !ok {
			x.sum.writes[k] = w
			x.changed = true
		}
	}
}

func (e *effects) analyse(f *ssa.Function) {
	old := e.sums[f]
	if old == nil {
		old = &effSum{}
		e.dirty = true
	}
	x := &effFn{e: e, f: f, pts: map[ssa.Value]rootSet{}, mem: map[effRoot]slots{}, sum: &effSum{writes: map[effKey]effWrite{}, inside: slots{}, flows: map[effRoot]slots{}, calls: map[effRoot]*effCall{}}}
	for i, p := range f.Params {
		x.set(p, rootSet{effRoot{kind: 'p', i: i}: true})
	}
	for i, p := range f.FreeVars {
		x.set(p, rootSet{effRoot{kind: 'f', i: i}: true})
	}
	n := f.Signature.Results().Len()
	x.sum.rets = make([]rootSet, n)
	for i := range x.sum.rets {
		x.sum.rets[i] = rootSet{}
	}
	for x.changed = true; x.changed; {
		x.changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x.instr(in)
			}
		}
	}
	// what is visible outside
	vis := func(s rootSet) rootSet {
		out := rootSet{}
		for r := range s {
			if r.kind != 'a' {
				out[r] = true
			} else if _, ok := r.v.(*ssa.Function); ok {
				out[r] = true
			}
		}
		return out
	}
	s := x.sum
	local := func(set rootSet) bool {
		for r := range set {
			if r.kind == 'a' {
				return true
			}
		}
		return false
	}
	inside := func(set rootSet) {
		all := x.reach(set)
		all.add(set)
		for r := range all {
			if r.kind == 'a' {
				for k, m := range x.mem[r] {
					s.inside.put(k, vis(m))
				}
			}
		}
	}
	for i, r := range s.rets {
		q := vis(r)
		if local(r) {
			inside(r)
			q[effRoot{kind: 'a', fresh: 1}] = true
		}
		s.rets[i] = q
		// closures which are returned
		for a := range r {
			if mc, ok := a.v.(*ssa.MakeClosure); ok && a.kind == 'a' {
				s.rets[i][effRoot{kind: 'a', v: mc.Fn.(*ssa.Function)}] = true
			}
		}
	}
	for r, ms := range x.mem {
		if r.kind == 'a' {
			continue
		}
		f := slots{}
		for k, m := range ms {
			q := vis(m)
			if local(m) {
				inside(m)
				q[effRoot{kind: 'a', fresh: 1}] = true
			}
			delete(q, r)
			d := r
			d.deep = true
			delete(q, d)
			for o := range q {
				if o.kind == r.kind && o.i == r.i && o.v == r.v && o.deep && o.slot == r.slot {
					delete(q, o)
				}
			}
			f.put(k, q)
		}
		if len(f) > 0 {
			s.flows[r] = f
		}
	}
	s.size = len(s.writes) + s.inside.size()
	for _, r := range s.rets {
		s.size += len(r)
	}
	for _, m := range s.flows {
		s.size += m.size()
	}
	for _, c := range s.calls {
		s.size++
		for _, a := range c.args {
			s.size += len(a)
		}
	}
	if old.size != s.size {
		e.dirty = true
	}
	e.sums[f] = s
	e.last[f] = x
}

func (x *effFn) instr(in ssa.Instruction) {
	fresh := func(v ssa.Value) rootSet { return rootSet{effRoot{kind: 'a', v: v}: true} }
	switch in := in.(type) {
	case *ssa.Alloc:
		x.set(in, fresh(in))
	case *ssa.MakeSlice:
		x.set(in, fresh(in))
	case *ssa.MakeMap:
		x.set(in, fresh(in))
	case *ssa.MakeChan:
		x.set(in, fresh(in))
	case *ssa.MakeClosure:
		x.set(in, fresh(in))
		for _, b := range in.Bindings {
			x.store(fresh(in), x.roots(b), b.Type())
		}
	case *ssa.Phi:
		for _, v := range in.Edges {
			x.set(in, x.roots(v))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			x.set(in, x.load(x.roots(in.X), in.Type()))
		}
	case *ssa.FieldAddr:
		x.set(in, x.roots(in.X))
	case *ssa.IndexAddr:
		x.set(in, x.roots(in.X))
	case *ssa.Field:
		x.set(in, x.roots(in.X))
	case *ssa.Index:
		x.set(in, x.roots(in.X))
	case *ssa.Slice:
		x.set(in, x.roots(in.X))
	case *ssa.Lookup:
		x.set(in, x.load(x.roots(in.X), in.Type()))
	case *ssa.Range:
		x.set(in, x.roots(in.X))
		if x.pts[in] == nil && len(x.roots(in.X)) > 0 {
			x.pts[in] = rootSet{}
			x.pts[in].add(x.roots(in.X))
			x.changed = true
		} else if x.pts[in] != nil && x.pts[in].add(x.roots(in.X)) {
			x.changed = true
		}
	case *ssa.Next:
		x.set(in, x.load(x.pts[in.Iter], in.Type()))
	case *ssa.Extract:
		x.set(in, x.roots(in.Tuple))
		if c, ok := in.Tuple.(*ssa.Call); ok {
			// per result
			_ = c
		}
	case *ssa.ChangeType:
		x.set(in, x.roots(in.X))
	case *ssa.ChangeInterface:
		x.set(in, x.roots(in.X))
	case *ssa.MakeInterface:
		x.set(in, x.roots(in.X))
	case *ssa.Convert:
		x.set(in, x.roots(in.X))
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok && refs(in.Type()) {
			x.set(in, fresh(in))
		}
	case *ssa.MultiConvert:
		x.set(in, x.roots(in.X))
	case *ssa.SliceToArrayPointer:
		x.set(in, x.roots(in.X))
	case *ssa.TypeAssert:
		x.set(in, x.roots(in.X))
	case *ssa.Store:
		at := x.roots(in.Addr)
		x.store(at, x.roots(in.Val), in.Val.Type())
		t, fi := accessed(in.Addr)
		x.wr(at, effWrite{pos: in.Pos(), what: "assignment to " + x.name(in.Addr), typ: t, field: fi, in: in, f: x.f})
	case *ssa.MapUpdate:
		at := x.roots(in.Map)
		x.store(at, x.roots(in.Key), in.Key.Type())
		x.store(at, x.roots(in.Value), in.Value.Type())
		x.write(at, in.Map.Type(), in, "assignment to an element of "+x.name(in.Map))
	case *ssa.Send:
		x.store(x.roots(in.Chan), x.roots(in.X), in.X.Type())
	case *ssa.Return:
		for i, v := range in.Results {
			if x.sum.rets[i].add(x.roots(v)) {
				x.changed = true
			}
		}
	case *ssa.Call:
		x.call(in, &in.Call, in)
	case *ssa.Defer:
		x.call(in, &in.Call, nil)
	case *ssa.Go:
		x.call(in, &in.Call, nil)
	}
}

// name describes what is written.
func (x *effFn) name(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		t := v.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			if n := fieldName(p.Elem(), mkInt(int64(v.Field), nil)); n != "" {
				return typeName(p.Elem()) + "." + n
			}
		}
	case *ssa.IndexAddr:
		return "an element of " + x.name(v.X)
	case *ssa.UnOp:
		return x.name(v.X)
	case *ssa.Global:
		return v.Name()
	case *ssa.Parameter:
		return v.Name()
	}
	return types.TypeString(v.Type(), func(*types.Package) string { return "" })
}

func (x *effFn) call(in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	var args []rootSet
	if c.IsInvoke() {
		args = append(args, x.roots(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.roots(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(b.Name(), in, c, args, res)
		return
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		done := false
		if ok {
			for _, m := range x.e.methods(it, c.Method) {
				x.apply(m, nil, args, in, res)
				done = true
			}
		}
		if !done {
			x.library("iface."+c.Method.Name(), in, c, args, res)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		var binds []rootSet
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.bindings(mc)
		}
		x.apply(f, binds, args, in, res)
		return
	}
	x.dynamic(x.roots(c.Value), args, in, res)
}

// dynamic calls a function value.
func (x *effFn) dynamic(fv rootSet, args []rootSet, in ssa.Instruction, res ssa.Value) {
	for r := range fv {
		switch {
		case r.kind == 'a':
			switch f := r.v.(type) {
			case *ssa.Function:
				var binds []rootSet
				if len(f.FreeVars) > 0 {
					// a closure made by a callee
					all := x.reach(fv)
					for range f.FreeVars {
						binds = append(binds, all)
					}
				}
				x.apply(f, binds, args, in, res)
			case *ssa.MakeClosure:
				x.apply(f.Fn.(*ssa.Function), x.bindings(f), args, in, res)
			}
		default:
			k := x.sum.calls[r]
			if k == nil {
				k = &effCall{pos: in.Pos()}
				x.sum.calls[r] = k
				x.changed = true
			}
			for i, a := range args {
				if i >= len(k.args) {
					k.args = append(k.args, rootSet{})
				}
				if k.args[i].add(a) {
					x.changed = true
				}
			}
			if res != nil {
				x.set(res, rootSet{effRoot{kind: r.kind, i: r.i, v: r.v, deep: true}: true})
				for _, a := range args {
					x.set(res, x.reach(a))
					x.set(res, a)
				}
			}
		}
	}
}

// bindings are the values a closure captures.
func (x *effFn) bindings(mc *ssa.MakeClosure) []rootSet {
	var out []rootSet
	for _, b := range mc.Bindings {
		out = append(out, x.roots(b))
	}
	return out
}

// subst finds the memory a root of a callee stands for in the caller.
func (x *effFn) subst(r effRoot, args, binds []rootSet, site effRoot) rootSet {
	var base rootSet
	switch r.kind {
	case 'p':
		if r.i < len(args) {
			base = args[r.i]
		}
	case 'f':
		if r.i < len(binds) {
			base = binds[r.i]
		}
	case 'a':
		if r.fresh == 1 {
			return rootSet{site: true}
		}
		return rootSet{r: true}
	default:
		return rootSet{r: true}
	}
	if r.slot != "" {
		base = x.loadSlots(base, []string{r.slot})
	}
	if r.deep {
		return x.reach(base)
	}
	return base
}

// apply uses the summary of a callee.
func (x *effFn) apply(f *ssa.Function, binds []rootSet, args []rootSet, in ssa.Instruction, res ssa.Value) {
	if len(f.Blocks) == 0 || !x.e.body(f) {
		x.library(x.e.w.OName(f), in, nil, args, res)
		return
	}
	if x.e.users[f] == nil {
		x.e.users[f] = map[*ssa.Function]bool{}
	}
	x.e.users[f][x.f] = true
	s := x.e.sums[f]
	if s == nil {
		return
	}
	var here any = in
	site := effRoot{kind: 'a', v: here, fresh: 2}
	cache := map[effRoot]rootSet{}
	sub := func(r effRoot) rootSet {
		s, ok := cache[r]
		if !ok {
			s = x.subst(r, args, binds, site)
			cache[r] = s
		}
		return s
	}
	all := func(rs rootSet) rootSet {
		out := rootSet{}
		for r := range rs {
			out.add(sub(r))
		}
		return out
	}
	fresh := false
	for _, rs := range s.rets {
		fresh = fresh || rs[effRoot{kind: 'a', fresh: 1}]
	}
	for _, m := range s.flows {
		for _, v := range m {
			fresh = fresh || v[effRoot{kind: 'a', fresh: 1}]
		}
	}
	if fresh {
		x.storeSlot(rootSet{site: true}, "", rootSet{site: true})
	}
	for k, m := range s.inside {
		x.storeSlot(rootSet{site: true}, k, all(m))
	}
	for k, wr := range s.writes {
		r := k.root
		via := append([]string{x.e.w.OName(f)}, wr.via...)
		if len(via) > 6 {
			via = via[:6]
		}
		wr.via = via
		x.wr(sub(r), wr)
	}
	for r, m := range s.flows {
		for k, v := range m {
			x.storeSlot(sub(r), k, all(v))
		}
	}
	for r, k := range s.calls {
		var as []rootSet
		for _, a := range k.args {
			as = append(as, all(a))
		}
		x.dynamic(sub(r), as, in, nil)
	}
	if res != nil {
		for _, r := range s.rets {
			x.set(res, all(r))
		}
	}
}

// writers are library functions which change the memory of some arguments.
var writers = map[string][]int{
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Strings": {0}, "sort.Ints": {0},
	"(*strings.Builder).WriteString": {0}, "(*strings.Builder).WriteRune": {0}, "(*strings.Builder).WriteByte": {0}, "(*strings.Builder).Write": {0}, "(*strings.Builder).Reset": {0}, "(*strings.Builder).Grow": {0},
	"(*bytes.Buffer).WriteString": {0}, "(*bytes.Buffer).WriteRune": {0}, "(*bytes.Buffer).WriteByte": {0}, "(*bytes.Buffer).Write": {0}, "(*bytes.Buffer).Reset": {0}, "(*bytes.Buffer).Truncate": {0},
	"fmt.Fprintf": {0}, "fmt.Fprint": {0}, "fmt.Fprintln": {0}, "io.WriteString": {0},
	"github.com/pelletier/go-toml/v2.Unmarshal": {1}, "encoding/json.Unmarshal": {1},
}

func (x *effFn) library(name string, in ssa.Instruction, c *ssa.CallCommon, args []rootSet, res ssa.Value) {
	for _, i := range writers[name] {
		if i < len(args) {
			x.write(args[i], nil, in, "call of "+name)
			x.write(x.reach(args[i]), nil, in, "call of "+name)
		}
	}
	if strings.HasPrefix(name, "(*sync") || strings.HasPrefix(name, "(*sync/atomic") {
		if strings.Contains(name, "atomic") || strings.Contains(name, "sync.Map") || strings.Contains(name, "sync.Once") || strings.Contains(name, "sync.Pool") {
			x.write(args[0], nil, in, "call of "+name)
		}
	}
	// functions among the arguments may be called with any of the arguments
	for i, a := range args {
		for r := range a {
			_, isF := r.v.(*ssa.Function)
			_, isC := r.v.(*ssa.MakeClosure)
			if r.kind == 'a' && (isF || isC) {
				u := rootSet{}
				for j, b := range args {
					if j != i {
						u.add(b)
						u.add(x.reach(b))
					}
				}
				x.dynamic(rootSet{r: true}, []rootSet{u, u, u}, in, nil)
			}
		}
	}
	if res == nil || !refs(res.Type()) {
		return
	}
	var here any = in
	site := effRoot{kind: 'a', v: here, fresh: 3}
	x.set(res, rootSet{site: true})
	for _, a := range args {
		x.set(res, a)
		x.set(res, x.reach(a))
	}
}

func (x *effFn) builtin(name string, in ssa.Instruction, c *ssa.CallCommon, args []rootSet, res ssa.Value) {
	switch name {
	case "append":
		var here any = in
		site := rootSet{effRoot{kind: 'a', v: here}: true}
		if et := elemOf(c.Args[0].Type()); refs(et) {
			x.store(site, x.load(args[0], et), et)
			if len(args) > 1 {
				x.store(site, x.load(args[1], et), et)
				x.store(args[0], x.load(args[1], et), et)
			}
		}
		if res != nil {
			x.set(res, args[0])
			x.set(res, site)
		}
		if cutShort(c.Args[0], map[ssa.Value]bool{}) {
			x.write(args[0], pointee(c.Args[0].Type()), in, "append to a part of "+x.name(c.Args[0]))
		}
	case "copy":
		if et := elemOf(c.Args[0].Type()); refs(et) {
			x.store(args[0], x.load(args[1], et), et)
		}
		x.write(args[0], pointee(c.Args[0].Type()), in, "copy to "+x.name(c.Args[0]))
	case "delete", "clear":
		x.write(args[0], pointee(c.Args[0].Type()), in, name+" of "+x.name(c.Args[0]))
	}
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// cutShort reports whether a slice is a part of a list that goes on behind it.
func cutShort(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		return v.High != nil && v.Max == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if cutShort(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return cutShort(v.X, seen)
	}
	return false
}
