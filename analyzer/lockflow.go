package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which locks are held at accesses to shared memory. Functions are analysed
// per set of locks held on entry and per global memory their parameters refer
// to; the locks held at a point are those held on all paths to it.

type heldSet map[string]int

func (h heldSet) String() string {
	var s []string
	for k, m := range h {
		s = append(s, fmt.Sprintf("%s:%d", k, m))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (h heldSet) clone() heldSet {
	n := heldSet{}
	for k, m := range h {
		n[k] = m
	}
	return n
}

func meetHeld(a, b heldSet) heldSet {
	n := heldSet{}
	for k, m := range a {
		if o, ok := b[k]; ok {
			if o < m {
				m = o
			}
			n[k] = m
		}
	}
	return n
}

// hotMem is memory which is changed after initialisation.
type hotMem struct {
	g     *ssa.Global
	typ   string
	field int
	what  string
	pos   token.Pos
}

type hotAccess struct {
	mem   int
	write bool
	held  heldSet
	pos   token.Pos
	f     *ssa.Function
}

type lockFlow struct {
	e     *effects
	hot   []hotMem
	memo  map[string]heldSet
	acc   map[string]hotAccess
	funcs map[*ssa.Function]bool
	binds map[*ssa.MakeClosure]rootSet // what closures capture
}

type lockCtx map[effRoot]rootSet // parameters and captured variables

func (c lockCtx) String() string {
	var s []string
	for r, m := range c {
		for g := range m {
			if g.kind == 'g' {
				s = append(s, fmt.Sprintf("%c%d=%s/%v", r.kind, r.i, g.v.(*ssa.Global).Name(), g.deep))
			} else {
				s = append(s, fmt.Sprintf("%c%d=%p", r.kind, r.i, g.v))
			}
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// globals is the global memory a value refers to.
func (l *lockFlow) globals(x *effFn, ctx lockCtx, v ssa.Value) rootSet {
	return l.conc(ctx, x.roots(v))
}

func (l *lockFlow) conc(ctx lockCtx, s rootSet) rootSet {
	out := rootSet{}
	for r := range s {
		switch r.kind {
		case 'g':
			out[r] = true
		case 'a':
			switch r.v.(type) {
			case *ssa.Function, *ssa.MakeClosure:
				out[r] = true
			}
		case 'p', 'f':
			for g := range ctx[effRoot{kind: r.kind, i: r.i}] {
				if r.deep && g.kind == 'g' {
					g.deep = true
				}
				out[g] = true
			}
		}
	}
	return out
}

func (l *lockFlow) lockName(x *effFn, ctx lockCtx, v ssa.Value) string {
	names := map[string]bool{}
	for g := range l.globals(x, ctx, v) {
		if g.kind != 'g' {
			continue
		}
		names[g.v.(*ssa.Global).Name()] = true
	}
	if len(names) == 1 {
		for n := range names {
			return n
		}
	}
	return "?" + x.name(v)
}

func (l *lockFlow) run(f *ssa.Function, held heldSet, ctx lockCtx) heldSet {
	x := l.e.last[f]
	if x == nil || len(f.Blocks) == 0 {
		return held
	}
	key := f.String() + "|" + held.String() + "|" + ctx.String()
	if r, ok := l.memo[key]; ok {
		return r
	}
	l.memo[key] = held
	l.funcs[f] = true
	in := map[*ssa.BasicBlock]heldSet{f.Blocks[0]: held.clone()}
	out := map[*ssa.BasicBlock]heldSet{}
	for n := 0; n < 20; n++ {
		changed := false
		for _, b := range f.Blocks {
			s := in[b]
			if b != f.Blocks[0] {
				s = nil
				for _, p := range b.Preds {
					if o, ok := out[p]; ok {
						if s == nil {
							s = o.clone()
						} else {
							s = meetHeld(s, o)
						}
					}
				}
				if s == nil {
					continue
				}
				in[b] = s
			}
			o := s.clone()
			for _, i := range b.Instrs {
				o = l.instr(x, ctx, i, o, false)
			}
			if p, ok := out[b]; !ok || p.String() != o.String() {
				out[b] = o
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	var exit heldSet
	for _, b := range f.Blocks {
		s, ok := in[b]
		if !ok {
			continue
		}
		o := s.clone()
		for _, i := range b.Instrs {
			o = l.instr(x, ctx, i, o, true)
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil {
				exit = o
			} else {
				exit = meetHeld(exit, o)
			}
		}
	}
	if exit == nil {
		exit = held
	}
	l.memo[key] = exit
	return exit
}

func (l *lockFlow) access(x *effFn, ctx lockCtx, s rootSet, typ types.Type, field int, write bool, in ssa.Instruction, held heldSet) {
	ts := ""
	if typ != nil {
		ts = types.TypeString(typ.Underlying(), nil)
	}
	for g := range l.conc(ctx, s) {
		if g.kind != 'g' {
			continue
		}
		for i, h := range l.hot {
			if h.g != g.v.(*ssa.Global) || h.typ != "" && ts != "" && h.typ != ts || h.typ == ts && h.field >= 0 && field >= 0 && h.field != field {
				continue
			}
			k := fmt.Sprintf("%d %p %s", i, in, held)
			if _, ok := l.acc[k]; !ok {
				l.acc[k] = hotAccess{i, write, held.clone(), in.Pos(), x.f}
			}
		}
	}
}

func (l *lockFlow) instr(x *effFn, ctx lockCtx, in ssa.Instruction, held heldSet, final bool) heldSet {
	acc := func(v ssa.Value, typ types.Type, field int, write bool) {
		if final {
			l.access(x, ctx, x.roots(v), typ, field, write, in, held)
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		t, f := accessed(in.Addr)
		acc(in.Addr, t, f, true)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			t, f := accessed(in.X)
			acc(in.X, t, f, false)
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			acc(in.X, in.X.Type(), -1, false)
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			acc(in.X, in.X.Type(), -1, false)
		}
	case *ssa.MakeClosure:
		if l.binds[in] == nil {
			l.binds[in] = rootSet{}
		}
		for _, b := range in.Bindings {
			l.binds[in].add(l.globals(x, ctx, b))
		}
	case *ssa.MapUpdate:
		acc(in.Map, in.Map.Type(), -1, true)
	case *ssa.Call:
		return l.call(x, ctx, in, &in.Call, held, final)
	case *ssa.RunDefers:
		for i := len(x.f.Blocks) - 1; i >= 0; i-- {
			b := x.f.Blocks[i]
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				if d, ok := b.Instrs[j].(*ssa.Defer); ok {
					held = l.call(x, ctx, d, &d.Call, held, final)
				}
			}
		}
	}
	return held
}

func (l *lockFlow) call(x *effFn, ctx lockCtx, in ssa.Instruction, c *ssa.CallCommon, held heldSet, final bool) heldSet {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if final && len(c.Args) > 0 {
			switch b.Name() {
			case "delete", "clear", "copy":
				l.access(x, ctx, x.roots(c.Args[0]), pointee(c.Args[0].Type()), -1, true, in, held)
			case "len":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					l.access(x, ctx, x.roots(c.Args[0]), c.Args[0].Type(), -1, false, in, held)
				}
			}
		}
		return held
	}
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	callees := map[*ssa.Function]rootSet{}
	if f := c.StaticCallee(); f != nil {
		name := l.e.w.OName(f)
		if strings.HasPrefix(name, "(*sync.") {
			k := l.lockName(x, ctx, args[0])
			held = held.clone()
			switch name[strings.LastIndex(name, ".")+1:] {
			case "Lock":
				held[k] = 2
			case "RLock":
				if held[k] < 1 {
					held[k] = 1
				}
			case "Unlock", "RUnlock":
				delete(held, k)
			}
			return held
		}
		var binds rootSet
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = rootSet{}
			for _, b := range mc.Bindings {
				binds.add(l.globals(x, ctx, b))
			}
		}
		callees[f] = binds
		if !l.e.body(f) && final {
			for _, i := range writers[name] {
				if i < len(args) {
					l.access(x, ctx, x.roots(args[i]), nil, -1, true, in, held)
				}
			}
		}
	} else if c.IsInvoke() {
		if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
			for _, m := range l.e.methods(it, c.Method) {
				callees[m] = nil
			}
		}
	}
	// functions which are called through values, or by library functions
	var vals []ssa.Value
	if c.StaticCallee() == nil {
		vals = append(vals, c.Value)
	}
	if f := c.StaticCallee(); f != nil && !l.e.body(f) || c.IsInvoke() && len(callees) == 0 {
		vals = append(vals, c.Args...)
	}
	for _, v := range vals {
		for r := range l.globals(x, ctx, v) {
			if r.kind != 'a' {
				continue
			}
			switch g := r.v.(type) {
			case *ssa.Function:
				callees[g] = nil
			case *ssa.MakeClosure:
				callees[g.Fn.(*ssa.Function)] = l.binds[g]
			}
		}
	}
	var exit heldSet
	for f, binds := range callees {
		n := lockCtx{}
		for i, a := range args {
			if g := l.globals(x, ctx, a); len(g) > 0 {
				n[effRoot{kind: 'p', i: i}] = g
			}
		}
		if g := binds; len(g) > 0 {
			for i := range f.FreeVars {
				n[effRoot{kind: 'f', i: i}] = g
			}
		}
		o := l.run(f, held, n)
		if exit == nil {
			exit = o
		} else {
			exit = meetHeld(exit, o)
		}
	}
	if exit == nil {
		return held
	}
	return exit.clone()
}
