package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: shared state, hidden inputs, and functions which only read.

// libFn reports whether f is a function of the library (not of a command).
func libFn(w *World, f *ssa.Function) bool {
	return w.Own(f) && !strings.Contains(w.Name(f), "cmd/")
}

// apiFn reports whether f may be called by users of its package.
func apiFn(w *World, f *ssa.Function) bool {
	return libFn(w, f) && f.Parent() == nil && f.Synthetic == "" && ast.IsExported(f.Name())
}

func sortedFns(w *World, e *effects, keep func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range e.sums {
		if keep(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return w.Name(out[i]) < w.Name(out[j]) })
	return out
}

func via(wr effWrite) string {
	if len(wr.via) == 0 {
		return ""
	}
	return " (called through " + strings.Join(wr.via, " > ") + ")"
}

func init() {
	register(&Property{ID: "T35", Run: func(w *World, r *Report) {
		e := newEffects(w)
		api := sortedFns(w, e, func(f *ssa.Function) bool { return apiFn(w, f) })
		// Memory of package-level variables which calls change.
		l := &lockFlow{e: e, memo: map[string]heldSet{}, acc: map[string]hotAccess{}, funcs: map[*ssa.Function]bool{}, binds: map[*ssa.MakeClosure]rootSet{}}
		seen := map[string]bool{}
		from := map[int]string{}
		for _, f := range api {
			var keys []effKey
			for k := range e.sums[f].writes {
				if k.root.kind == 'g' {
					keys = append(keys, k)
				}
			}
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			for _, k := range keys {
				wr := e.sums[f].writes[k]
				g := k.root.v.(*ssa.Global)
				id := fmt.Sprintf("%s %s %d", g, k.typ, k.field)
				if seen[id] {
					continue
				}
				seen[id] = true
				from[len(l.hot)] = w.Name(f)
				l.hot = append(l.hot, hotMem{g: g, typ: k.typ, field: k.field, what: wr.what, pos: wr.pos})
			}
		}
		for _, f := range api {
			l.run(f, heldSet{}, lockCtx{})
		}
		// Every access to such memory is made with one lock held.
		byMem := map[int][]hotAccess{}
		for _, a := range l.acc {
			byMem[a.mem] = append(byMem[a.mem], a)
		}
		for i, h := range l.hot {
			as := byMem[i]
			sort.Slice(as, func(a, b int) bool {
				return w.Pos(as[a].pos)+as[a].held.String() < w.Pos(as[b].pos)+as[b].held.String()
			})
			count := map[string]int{}
			lock := ""
			for _, a := range as {
				for k, m := range a.held {
					if m == 2 || !a.write {
						count[k]++
					}
				}
			}
			for k, n := range count {
				if n > count[lock] || n == count[lock] && k < lock {
					lock = k
				}
			}
			r.check(lock != "", "shared memory has a lock", h.g.Pkg.Pkg.Name()+"."+h.g.Name(), w.Pos(h.pos), "%s is changed after initialisation (%s, by %s) without any lock", h.g.Name(), h.what, from[i])
			if lock == "" {
				continue
			}
			for _, a := range as {
				need, kind := 1, "read"
				if a.write {
					need, kind = 2, "written"
				}
				r.check(a.held[lock] >= need, "lock held at access", w.Name(a.f), w.Pos(a.pos), "%s (%s) is %s while the lock of %s is held: %v", h.g.Name(), h.what, kind, lock, a.held)
			}
		}
		for _, f := range api {
			r.check(true, "no unlocked shared state", w.Name(f), w.Pos(f.Pos()), "%d writes in all", len(e.sums[f].writes))
		}
		r.floor("no unlocked shared state", 200)
		// No hidden inputs.
		for _, f := range sortedFns(w, e, func(f *ssa.Function) bool { return libFn(w, f) }) {
			bad, pos := hiddenInput(w, f)
			r.check(bad == "", "no hidden input", w.Name(f), w.Pos(pos), "%s", bad)
		}
		r.floor("no hidden input", 500)
		r.note("functions followed for the locks: %d", len(l.funcs))
	}})
}

// hiddenInput looks for constructs whose outcome does not depend on arguments alone.
func hiddenInput(w *World, f *ssa.Function) (string, token.Pos) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go:
				return "starts a goroutine", in.Pos()
			case *ssa.Select:
				return "selects from channels", in.Pos()
			case *ssa.Send:
				return "sends to a channel", in.Pos()
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return "receives from a channel", in.Pos()
				}
			case *ssa.Call:
				g := in.Call.StaticCallee()
				if g == nil || g.Pkg == nil {
					continue
				}
				switch p := g.Pkg.Pkg.Path(); p {
				case "time", "math/rand", "math/rand/v2", "crypto/rand", "os", "net", "runtime", "runtime/debug", "os/user", "os/exec", "hash/maphash":
					return "calls " + p + "." + g.Name(), in.Pos()
				}
			case *ssa.Range:
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					if s := orderMatters(f, in, m); s != "" {
						return s, in.Pos()
					}
				}
			}
		}
	}
	return "", f.Pos()
}

// orderMatters reports how the order in which a map is walked becomes visible.
func orderMatters(f *ssa.Function, rg *ssa.Range, m *types.Map) string {
	if strings.Contains(m.Elem().String(), "unicode.RangeTable") {
		return "" // disjoint classes
	}
	derived := map[ssa.Value]bool{}
	var head *ssa.BasicBlock
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			derived[n] = true
			head = n.Block()
		}
	}
	if head == nil {
		return ""
	}
	// the blocks of the loop
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if !loop[b] {
			loop[b] = true
			for _, p := range b.Preds {
				back(p)
			}
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && derived[st.Val] {
					a := st.Addr
					for {
						if i, ok := a.(*ssa.IndexAddr); ok {
							a = i.X
						} else if i, ok := a.(*ssa.FieldAddr); ok {
							a = i.X
						} else {
							break
						}
					}
					if al, ok := a.(*ssa.Alloc); ok && !derived[al] {
						derived[al] = true
						changed = true
					}
				}
				v, ok := in.(ssa.Value)
				if !ok || derived[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && derived[*op] {
						derived[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	sorted := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					n := g.String()
					if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
						sorted = true
					}
				}
			}
		}
	}
	if sorted {
		return ""
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				use := false
				for _, a := range in.Call.Args {
					use = use || derived[a]
				}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && use {
					return "collects the entries of a map in the order of iteration, which is random"
				}
				if g := in.Call.StaticCallee(); g != nil && use && len(writers[g.String()]) > 0 {
					return "writes the entries of a map in the order of iteration, which is random"
				}
			case *ssa.BinOp:
				if bt, ok := in.Type().Underlying().(*types.Basic); ok && in.Op == token.ADD && bt.Info()&types.IsString != 0 {
					_, px := in.X.(*ssa.Phi)
					if px && derived[in.Y] {
						return "joins the entries of a map in the order of iteration, which is random"
					}
				}
			}
		}
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				for _, v := range ret.Results {
					if derived[v] {
						if _, phi := v.(*ssa.Phi); !phi {
							return "returns an entry of a map found first in the order of iteration, which is random"
						}
					}
				}
			}
		}
	}
	return ""
}

//go:embed ref/readers.txt
var readersText string

func init() {
	register(&Property{ID: "T36", Run: func(w *World, r *Report) {
		e := newEffects(w)
		seen := 0
		if os.Getenv("TYPASTCHECK_READERS") != "" {
			for _, f := range sortedFns(w, e, func(f *ssa.Function) bool { return libFn(w, f) && f.Parent() == nil && f.Synthetic == "" }) {
				if !slices.ContainsFunc(f.Params, func(p *ssa.Parameter) bool { return refs(p.Type()) }) {
					continue
				}
				if len(paramWrites(e, f, "")) == 0 {
					fmt.Println(w.Name(f))
				}
			}
			return
		}
		for _, n := range strings.Fields(strings.ReplaceAll(readersText, "\n", " ")) {
			n, skip, _ := strings.Cut(n, "!") // a parameter which may be changed
			f := w.Fn(n)
			if f == nil || e.sums[f] == nil {
				continue
			}
			seen++
			bad := ""
			pos := f.Pos()
			for _, wr := range paramWrites(e, f, skip) {
				bad = wr.what + via(wr)
				pos = wr.pos
				break
			}
			r.check(bad == "", "reads only", n, w.Pos(pos), "changes what it was given: %s", bad)
		}
		r.floor("reads only", 400)
		r.note("%d functions of the reviewed list exist", seen)
	}})
}

// paramWrites are the writes of f, and of closures it makes, to memory it was given.
func paramWrites(e *effects, f *ssa.Function, skip string) []effWrite {
	var out []effWrite
	for k, wr := range e.sums[f].writes {
		if k.root.kind == 'p' && fmt.Sprint(k.root.i) != skip {
			out = append(out, wr)
		}
	}
	x := e.last[f]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			if e.sums[g] == nil {
				continue
			}
			for k, wr := range e.sums[g].writes {
				if k.root.kind != 'f' {
					continue
				}
				for q := range x.subst(k.root, nil, x.bindings(mc), effRoot{}) {
					if q.kind == 'p' && e.mayHold(f.Params[q.i].Type(), wr.typ) && fmt.Sprint(q.i) != skip {
						wr.via = append([]string{e.w.Name(g)}, wr.via...)
						out = append(out, wr)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return e.w.Pos(out[i].pos)+out[i].what < e.w.Pos(out[j].pos)+out[j].what })
	return out
}
