package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is a flow- and context-sensitive abstract interpreter over SSA. States
// are kept disjunctively between loop heads and are joined (with an equality
// domain) at loop heads, so that the analysis terminates on every program.
type Interp struct {
	w *World
	// Intrinsics gives the contracts of functions by name (origin name).
	Intrinsics map[string]Intrinsic
	// Dyn handles calls through function values or interfaces which cannot be
	// resolved.
	Dyn Intrinsic
	// Decide decides boolean atoms.
	Decide func(st *State, atom *Term) (bool, bool)
	// Part gives the partition key of a state.
	Part func(st *State) string
	// Merge reports whether the outcomes of the given inlined call are joined.
	Merge func(fn *ssa.Function) bool
	// NoInline makes calls of the given function opaque.
	NoInline func(fn *ssa.Function) bool
	// OnReturn is called for every outcome of an inlined function.
	OnOutcome func(fn *ssa.Function, o *Outcome)
	// OnStore is called for every store to a heap object.
	OnStore func(st *State, obj string, path []*Term, val *Term, pos token.Pos)
	// OnAccess is called for every access to a heap object or map.
	OnAccess func(st *State, obj string, path []*Term, write bool, pos token.Pos)
	MaxSteps int
	MaxDepth int
	initMode bool
	// Enum selects the trace partitioned analysis: states are never joined,
	// loops are followed up to MaxVisits iterations, branches refine the value
	// sets of the state; paths beyond the bounds are collected in Cuts.
	Enum      bool
	InPlace   bool // slices.Delete and so on change the memory of the slice
	Prune     bool // discard combinations of inequalities without solution
	Arith     bool // numbers are bounded
	MaxVisits int
	MaxRec    int
	MaxPaths  int
	Cuts      []*State

	steps   int
	Failed  string // set if the analysis is incomplete
	stack   []*ssa.Function
	Visited map[*ssa.Function]bool
	heads   map[*ssa.Function]map[*ssa.BasicBlock]bool
	instrN  map[ssa.Instruction]int
	sites   map[siteOf]*bound
}

// CallCtx describes one call.
type CallCtx struct {
	Fn   *ssa.Function // static callee (may be nil)
	Name string
	Args []*Term
	Site ssa.Instruction
	Ctx  string
	Type types.Type // result type (tuple or single)
	Pos  token.Pos
}

// Intrinsic is the transfer function of a call; ok is false to decline.
type Intrinsic func(ip *Interp, st *State, c *CallCtx) (out []Outcome, ok bool)

// State is an abstract state.
type State struct {
	heap  map[string]*Term
	facts map[*Term]bool
	ghost map[string]*Term
	ev    []string
	forks int
	iter  int
}

// Outcome is one way in which a call may end.
type Outcome struct {
	val   *Term
	st    *State
	panic bool
	msg   string
	pos   token.Pos
}

func NewState() *State {
	return &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, ghost: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{
		heap:  make(map[string]*Term, len(s.heap)),
		facts: make(map[*Term]bool, len(s.facts)),
		ghost: make(map[string]*Term, len(s.ghost)),
		ev:    s.ev[:len(s.ev):len(s.ev)],
		forks: s.forks,
		iter:  s.iter,
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) event(format string, a ...any) { s.ev = append(s.ev, fmt.Sprintf(format, a...)) }

type env map[ssa.Value]*Term

func (e env) clone() env {
	n := make(env, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

func NewInterp(w *World) *Interp {
	return &Interp{
		w:          w,
		Intrinsics: map[string]Intrinsic{},
		MaxSteps:   3000000,
		MaxDepth:   60,
		heads:      map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		instrN:     map[ssa.Instruction]int{},
		Visited:    map[*ssa.Function]bool{},
		sites:      map[siteOf]*bound{},
	}
}

func (ip *Interp) fail(format string, a ...any) {
	if ip.Failed == "" {
		ip.Failed = fmt.Sprintf(format, a...)
	}
}

func (ip *Interp) headsOf(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if h, ok := ip.heads[fn]; ok {
		return h
	}
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				h[b] = true
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ip.instrN[in] = n
			n++
		}
	}
	ip.heads[fn] = h
	return h
}

type item struct {
	b, prev *ssa.BasicBlock
	idx     int
	e       env
	st      *State
	seen    map[*ssa.BasicBlock]int // forks at last visit of loop heads
	rounds  int                     // determined iterations
	visits  map[*ssa.BasicBlock]int
	defers  []*ssa.Defer
}

func (it *item) fork() *item {
	n := *it
	n.e = it.e.clone()
	n.st = it.st.clone()
	n.seen = map[*ssa.BasicBlock]int{}
	for k, v := range it.seen {
		n.seen[k] = v
	}
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range it.visits {
		n.visits[k] = v
	}
	return &n
}

// forkWith is fork with another state, which is not shared.
func (it *item) forkWith(st *State) *item {
	n := *it
	n.e = it.e.clone()
	n.st = st
	n.seen = map[*ssa.BasicBlock]int{}
	for k, v := range it.seen {
		n.seen[k] = v
	}
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range it.visits {
		n.visits[k] = v
	}
	return &n
}

// Call analyses fn applied to args from state st.
func (ip *Interp) Call(fn *ssa.Function, args, binds []*Term, st *State, ctx string) []Outcome {
	heads := ip.headsOf(fn)
	ip.Visited[fn] = true
	ip.stack = append(ip.stack, fn)
	defer func() { ip.stack = ip.stack[:len(ip.stack)-1] }()
	e := env{}
	for i, p := range fn.Params {
		if i < len(args) {
			e[p] = args[i]
		} else {
			e[p] = mkSym(ctx+"/"+p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			e[f] = binds[i]
		} else {
			e[f] = mkSym(ctx+"/"+f.Name(), f.Type())
		}
	}
	var outs []Outcome
	type headState struct {
		e  env
		st *State
	}
	stored := map[*ssa.BasicBlock]map[string]*headState{}
	work := []*item{{b: fn.Blocks[0], e: e, st: st, seen: map[*ssa.BasicBlock]int{}, visits: map[*ssa.BasicBlock]int{}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if ip.Failed != "" {
			return outs
		}
		if ip.Enum && ip.MaxPaths > 0 && len(outs) > ip.MaxPaths {
			ip.fail("too many paths in %s", ip.w.Name(fn))
			return outs
		}
	blocks:
		for {
			b := it.b
			if it.idx == 0 && it.prev != nil {
				// Evaluate phis in parallel.
				var k int
				for i, p := range b.Preds {
					if p == it.prev {
						k = i
					}
				}
				var vals []*Term
				var phis []*ssa.Phi
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis = append(phis, phi)
					vals = append(vals, ip.val(it.e, it.st, phi.Edges[k]))
				}
				for i, phi := range phis {
					it.e[phi] = vals[i]
				}
			}
			if it.idx == 0 && heads[b] && ip.Enum {
				// iterations which are determined do not count
				if last, ok := it.seen[b]; !ok || last != it.st.forks {
					it.visits[b]++
				} else if it.rounds++; it.rounds > 5000 {
					ip.cut(it.st, "loop")
					break blocks
				}
				it.seen[b] = it.st.forks
				if it.visits[b] > ip.MaxVisits {
					ip.cut(it.st, "loop")
					break blocks
				}
			} else if it.idx == 0 && heads[b] {
				it.visits[b]++
				last, ok := it.seen[b]
				if ok && last == it.st.forks && it.visits[b] < 400 {
					it.st.iter++ // deterministic iteration
				} else {
					key := ""
					if ip.Part != nil {
						key = ip.Part(it.st)
					}
					if stored[b] == nil {
						stored[b] = map[string]*headState{}
					}
					if hs := stored[b][key]; hs != nil {
						live := liveIn(fn, b)
						je, js, changed := ip.join(hs.e, hs.st, it.e, it.st, fmt.Sprintf("%s@%d%s", ctx, b.Index, key), live)
						if !changed {
							break blocks // covered
						}
						stored[b][key] = &headState{je, js}
						it.e, it.st = je.clone(), js.clone()
					} else {
						stored[b][key] = &headState{it.e.clone(), it.st.clone()}
					}
				}
				it.seen[b] = it.st.forks
			}
			for it.idx < len(b.Instrs) {
				in := b.Instrs[it.idx]
				ip.steps++
				if outOfMemory.Load() {
					ip.fail("too much memory in %s", ip.w.Name(fn))
					return outs
				}
				if ip.steps > ip.MaxSteps {
					ip.fail("analysis budget exceeded in %s", ip.w.Name(fn))
					return outs
				}
				switch in := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.If:
					cond := ip.val(it.e, it.st, in.Cond)
					if ip.Enum {
						bs := ip.split(it.st, cond)
						if len(bs) == 0 {
							break blocks
						}
						for k := len(bs) - 1; k >= 0; k-- {
							succ := b.Succs[1]
							if bs[k].v {
								succ = b.Succs[0]
							}
							if k == 0 {
								it.st = bs[0].st
								it.prev, it.b, it.idx = b, succ, 0
								break
							}
							n := it.forkWith(bs[k].st)
							n.prev, n.b, n.idx = b, succ, 0
							work = append(work, n)
						}
						continue blocks
					}
					v, known := ip.truth(it.st, cond)
					if known {
						it.prev = b
						if v {
							it.b = b.Succs[0]
						} else {
							it.b = b.Succs[1]
						}
						it.idx = 0
						continue blocks
					}
					other := it.fork()
					other.st.forks++
					it.st.forks++
					ip.assume(other.st, cond, false)
					ip.assume(it.st, cond, true)
					other.prev, other.b, other.idx = b, b.Succs[1], 0
					work = append(work, other)
					it.prev, it.b, it.idx = b, b.Succs[0], 0
					continue blocks
				case *ssa.Jump:
					it.prev, it.b, it.idx = b, b.Succs[0], 0
					continue blocks
				case *ssa.Return:
					var v *Term
					var rs []*Term
					for _, r := range in.Results {
						rs = append(rs, ip.val(it.e, it.st, r))
					}
					switch len(rs) {
					case 0:
						v = mkTuple()
					case 1:
						v = rs[0]
					default:
						v = mkTuple(rs...)
					}
					outs = append(outs, Outcome{val: v, st: it.st, pos: in.Pos()})
					break blocks
				case *ssa.Panic:
					m := ip.val(it.e, it.st, in.X)
					if it.st.ghost["$recovered"] == nil {
						outs = append(outs, Outcome{val: m, st: it.st, panic: true, msg: m.String(), pos: in.Pos()})
					}
					break blocks
				case *ssa.RunDefers:
					// Run deferred calls in reverse order.
					if k := len(it.defers) - 1; k >= 0 {
						d := it.defers[k]
						it.defers = it.defers[:k:k]
						var rest []Outcome
						for _, o := range ip.doCall(&d.Call, d, it.e, it.st, ctx) {
							if o.panic {
								outs = append(outs, o)
							} else {
								rest = append(rest, o)
							}
						}
						if len(rest) == 0 {
							break blocks
						}
						for _, r := range rest[1:] {
							n := it.forkWith(r.st)
							n.st.forks++
							n.prev = nil
							work = append(work, n)
						}
						if len(rest) > 1 {
							rest[0].st.forks++
						}
						it.st = rest[0].st
						continue
					}
				case *ssa.Defer:
					it.defers = append(it.defers[:len(it.defers):len(it.defers)], in)
				case *ssa.Store:
					ip.store(it.st, ip.val(it.e, it.st, in.Addr), ip.val(it.e, it.st, in.Val), in.Pos())
				case *ssa.MapUpdate:
					m := ip.val(it.e, it.st, in.Map)
					k := ip.val(it.e, it.st, in.Key)
					v := ip.val(it.e, it.st, in.Value)
					obj, ok := mapObj(m)
					if !ok {
						break
					}
					ip.access(it.st, obj, nil, true, in.Pos())
					cur := it.st.heap[obj]
					if v, ok := ip.w.inits[obj]; ok && cur == nil && !ip.initMode {
						cur = v
					}
					if cur == nil {
						cur = mkApp("mapof", m.typ, m)
					}
					it.st.heap[obj] = mapSet(cur, k, v)
				case *ssa.Go, *ssa.Send, *ssa.Select:
					ip.fail("unsupported instruction %s in %s", in, ip.w.Name(fn))
					return outs
				case ssa.Value:
					res := ip.eval(in, it.e, it.st, ctx)
					if len(res) == 0 {
						break blocks // no way to continue
					}
					// First result continues in place, the others are forked.
					var rest []Outcome
					for i, r := range res {
						if r.panic {
							outs = append(outs, r)
							continue
						}
						rest = append(rest, res[i])
					}
					if len(rest) == 0 {
						break blocks
					}
					if len(rest) > 1 {
						for _, r := range rest[1:] {
							rs := r.st
							if rs == it.st {
								rs = it.st.clone()
							}
							n := it.forkWith(rs)
							n.st.forks++
							n.e[in] = r.val
							n.idx = it.idx + 1
							n.prev = nil
							work = append(work, n)
						}
						rest[0].st.forks++
					}
					it.st = rest[0].st
					it.e[in] = rest[0].val
				default:
					ip.fail("unsupported instruction %T in %s", in, ip.w.Name(fn))
					return outs
				}
				it.idx++
			}
			// fallthrough without terminator cannot happen
			break
		}
	}
	if ip.OnOutcome != nil {
		for i := range outs {
			ip.OnOutcome(fn, &outs[i])
		}
	}
	return outs
}

var liveCache = map[*ssa.BasicBlock]map[ssa.Value]bool{}

// liveIn is the set of values which may be used at or after entry of b.
func liveIn(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	if l, ok := liveCache[b]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		in[x] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range in[s] {
					live[v] = true
				}
				k := 0
				for j, p := range s.Preds {
					if p == x {
						k = j
					}
				}
				for _, si := range s.Instrs {
					phi, ok := si.(*ssa.Phi)
					if !ok {
						break
					}
					live[phi.Edges[k]] = true
				}
			}
			for j := len(x.Instrs) - 1; j >= 0; j-- {
				ii := x.Instrs[j]
				if v, ok := ii.(ssa.Value); ok {
					if _, isPhi := ii.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if phi, ok := ii.(*ssa.Phi); ok {
					// A phi is available at block entry in this analysis.
					live[phi] = true
					continue
				}
				for _, op := range ii.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[x]) {
				in[x] = live
				ch = true
			}
		}
	}
	for _, x := range fn.Blocks {
		liveCache[x] = in[x]
	}
	return liveCache[b]
}

// ---- join --------------------------------------------------------------------

type joiner struct {
	tag     string
	pairs   map[[2]*Term]*Term
	a, b, r *State
	objs    map[string]bool
	depth   int
}

func (j *joiner) term(x, y *Term, slot string) *Term {
	if x == y {
		return x
	}
	if x == nil || y == nil {
		return nil
	}
	if r, ok := j.pairs[[2]*Term{x, y}]; ok {
		return r
	}
	r := j.term2(x, y, slot)
	j.pairs[[2]*Term{x, y}] = r
	return r
}

func (j *joiner) term2(x, y *Term, slot string) *Term {
	if x.op == y.op {
		switch x.op {
		case "struct", "array", "tuple":
			if len(x.args) == len(y.args) {
				n := make([]*Term, len(x.args))
				for i := range n {
					n[i] = j.term(x.args[i], y.args[i], fmt.Sprintf("%s.%d", slot, i))
				}
				return intern(&Term{op: x.op, args: n, typ: x.typ})
			}
		case "iface":
			if types.Identical(x.typ2, y.typ2) {
				return mkIface(x.typ2, j.term(x.args[0], y.args[0], slot+".v"), x.typ)
			}
		case "ptr":
			if len(x.args) == 0 && len(y.args) == 0 && x.name != y.name {
				cx, okx := j.a.heap[x.name]
				cy, oky := j.b.heap[y.name]
				if okx && oky {
					obj := "new:φ(" + j.tag + "," + slot + ")"
					p := mkPtr(obj, x.typ)
					j.pairs[[2]*Term{x, y}] = p
					j.r.heap[obj] = j.term(cx, cy, slot+".*")
					return p
				}
			}
		case "slice":
			if x.args[0] == y.args[0] && len(x.args) == 3 && len(y.args) == 3 {
				return intern(&Term{op: "slice", args: []*Term{x.args[0], j.term(x.args[1], y.args[1], slot+".lo"), j.term(x.args[2], y.args[2], slot+".hi")}, typ: x.typ})
			}
		}
	}
	t := x.typ
	if t == nil {
		t = y.typ
	}
	return mkSym("φ("+j.tag+","+slot+")", t)
}

// join computes the join of two states; changed reports whether the result
// differs from the first one.
func (ip *Interp) join(ea env, a *State, eb env, b *State, tag string, live map[ssa.Value]bool) (env, *State, bool) {
	r := NewState()
	r.forks = a.forks
	if b.forks > r.forks {
		r.forks = b.forks
	}
	r.iter = a.iter
	j := &joiner{tag: tag, pairs: map[[2]*Term]*Term{}, a: a, b: b, r: r}
	e := env{}
	changed := false
	// environment
	var ks []ssa.Value
	for k := range ea {
		if live != nil && !live[k] {
			continue
		}
		if _, ok := eb[k]; ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(x, y int) bool { return ks[x].Name() < ks[y].Name() })
	// ghosts first: they give the names of the classes
	var gs []string
	for k := range a.ghost {
		if b.ghost[k] != nil {
			gs = append(gs, k)
		} else {
			changed = true
		}
	}
	sort.Strings(gs)
	for _, k := range gs {
		r.ghost[k] = j.term(a.ghost[k], b.ghost[k], "$"+k)
		if r.ghost[k] != a.ghost[k] {
			changed = true
		}
	}
	for _, k := range ks {
		e[k] = j.term(ea[k], eb[k], k.Name())
		if e[k] == nil {
			delete(e, k)
			continue
		}
		if e[k] != ea[k] {
			changed = true
		}
	}
	var hs []string
	for k := range a.heap {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		if v, ok := b.heap[k]; ok {
			n := j.term(a.heap[k], v, k)
			if cur, ok := r.heap[k]; ok && cur != n {
				// already joined as part of a merged object
				n = cur
			}
			r.heap[k] = n
			if n != a.heap[k] {
				changed = true
			}
		} else {
			r.heap[k] = a.heap[k]
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			if _, ok := r.heap[k]; !ok {
				r.heap[k] = v
			}
		}
	}
	for f, v := range a.facts {
		if w, ok := b.facts[f]; ok && w == v {
			r.facts[f] = v
		} else {
			changed = true
		}
	}
	// events: common prefix
	n := 0
	for n < len(a.ev) && n < len(b.ev) && a.ev[n] == b.ev[n] {
		n++
	}
	r.ev = a.ev[:n:n]
	if n != len(a.ev) {
		changed = true
	}
	return e, r, changed
}

// mergeOutcomes joins the normal outcomes of a call by partition.
func (ip *Interp) mergeOutcomes(outs []Outcome, tag string) []Outcome {
	var res []Outcome
	idx := map[string]int{}
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		key := ""
		if ip.Part != nil {
			key = ip.Part(o.st)
		}
		i, ok := idx[key]
		if !ok {
			idx[key] = len(res)
			res = append(res, o)
			continue
		}
		prev := res[i]
		j := env{}
		ea, eb := env{nil: prev.val}, env{nil: o.val}
		_ = j
		st := prev.st
		e, s, _ := ip.joinVals(ea, st, eb, o.st, tag+"!"+key)
		res[i] = Outcome{val: e[nil], st: s, pos: o.pos}
	}
	return res
}

func (ip *Interp) joinVals(ea env, a *State, eb env, b *State, tag string) (env, *State, bool) {
	a2, b2 := a.clone(), b.clone()
	if ea[nil] != nil && eb[nil] != nil {
		a2.ghost["~ret"] = ea[nil]
		b2.ghost["~ret"] = eb[nil]
	}
	_, s, ch := ip.join(env{}, a2, env{}, b2, tag, nil)
	e := env{nil: s.ghost["~ret"]}
	delete(s.ghost, "~ret")
	return e, s, ch
}

// ---- facts ---------------------------------------------------------------------

// truth decides a boolean value from the state.
func (ip *Interp) truth(st *State, c *Term) (bool, bool) {
	if c.isTrue() {
		return true, true
	}
	if c.isFalse() {
		return false, true
	}
	if c.op == "app" {
		switch c.name {
		case "not":
			v, ok := ip.truth(st, c.args[0])
			return !v, ok
		case "and":
			v1, ok1 := ip.truth(st, c.args[0])
			v2, ok2 := ip.truth(st, c.args[1])
			if ok1 && !v1 || ok2 && !v2 {
				return false, true
			}
			if ok1 && ok2 {
				return true, true
			}
		case "or":
			v1, ok1 := ip.truth(st, c.args[0])
			v2, ok2 := ip.truth(st, c.args[1])
			if ok1 && v1 || ok2 && v2 {
				return true, true
			}
			if ok1 && ok2 {
				return false, true
			}
		}
	}
	if v, ok := st.facts[c]; ok {
		return v, true
	}
	if v, ok := truthSet(st, c); ok {
		return v, ok
	}
	if v, ok := ropeTruth(st, c); ok {
		return v, ok
	}
	if ip.Arith {
		if v, ok := ip.boundTruth(st, c); ok {
			return v, true
		}
	}
	if ip.Decide != nil {
		if v, ok := ip.Decide(st, c); ok {
			return v, true
		}
	}
	if c.op != "app" {
		return false, false
	}
	switch c.name {
	case "eq":
		// x == c1 known true decides x == c2.
		for f, v := range st.facts {
			if f.op != "app" {
				continue
			}
			if f.name == "eq" && v {
				for i := 0; i < 2; i++ {
					for k := 0; k < 2; k++ {
						if f.args[i] == c.args[k] && distinct(f.args[1-i], c.args[1-k]) {
							return false, true
						}
					}
				}
			}
			if f.name == "lt" && v && (f.args[0] == c.args[0] && f.args[1] == c.args[1] || f.args[0] == c.args[1] && f.args[1] == c.args[0]) {
				return false, true
			}
		}
	case "lt":
		if v, ok := st.facts[mkApp("lt", c.typ, c.args[1], c.args[0])]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkEq(c.args[0], c.args[1])]; ok && v {
			return false, true
		}
		// bounds by constants
		if v, ok := ip.ltBounds(st, c.args[0], c.args[1]); ok {
			return v, true
		}
	}
	if strings.HasPrefix(c.name, "is:") {
		for f, v := range st.facts {
			if v && f.op == "app" && strings.HasPrefix(f.name, "is:") && f.args[0] == c.args[0] && f.typ2 != nil && c.typ2 != nil &&
				!types.Identical(f.typ2, c.typ2) && !types.IsInterface(f.typ2) && !types.IsInterface(c.typ2) {
				return false, true
			}
		}
	}
	return false, false
}

func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	return mkEq(a, b).isFalse()
}

// ltBounds decides a<b from facts comparing the same symbolic term with
// constants (intervals).
func (ip *Interp) ltBounds(st *State, a, b *Term) (bool, bool) {
	ca, oka := a.intVal()
	cb, okb := b.intVal()
	if oka == okb {
		return false, false
	}
	x := a
	if oka {
		x = b
	}
	lo, hi, hasLo, hasHi := int64(0), int64(0), false, false
	if unsignedT(x.typ) || x.op == "app" && x.name == "len" {
		lo, hasLo = 0, true
	}
	setLo := func(v int64) {
		if !hasLo || v > lo {
			lo, hasLo = v, true
		}
	}
	setHi := func(v int64) {
		if !hasHi || v < hi {
			hi, hasHi = v, true
		}
	}
	for f, v := range st.facts {
		if f.op != "app" || len(f.args) != 2 {
			continue
		}
		switch f.name {
		case "lt":
			if f.args[0] == x {
				if c, ok := f.args[1].intVal(); ok {
					if v {
						setHi(c - 1)
					} else {
						setLo(c)
					}
				}
			}
			if f.args[1] == x {
				if c, ok := f.args[0].intVal(); ok {
					if v {
						setLo(c + 1)
					} else {
						setHi(c)
					}
				}
			}
		case "eq":
			for i := 0; i < 2; i++ {
				if f.args[i] == x && v {
					if c, ok := f.args[1-i].intVal(); ok {
						setLo(c)
						setHi(c)
					}
				}
			}
		}
	}
	for f, v := range st.facts {
		if f.op == "app" && f.name == "eq" && !v {
			for i := 0; i < 2; i++ {
				if f.args[i] == x {
					if c, ok := f.args[1-i].intVal(); ok {
						if hasLo && c == lo {
							lo++
						}
						if hasHi && c == hi {
							hi--
						}
					}
				}
			}
		}
	}
	if oka { // ca < x ?
		if hasLo && ca < lo {
			return true, true
		}
		if hasHi && ca >= hi {
			return false, true
		}
	} else { // x < cb ?
		if hasHi && hi < cb {
			return true, true
		}
		if hasLo && lo >= cb {
			return false, true
		}
	}
	return false, false
}

// assume records that c is v.
func (ip *Interp) assume(st *State, c *Term, v bool) {
	if c.op == "app" {
		switch c.name {
		case "not":
			ip.assume(st, c.args[0], !v)
			return
		case "and":
			if v {
				ip.assume(st, c.args[0], true)
				ip.assume(st, c.args[1], true)
				return
			}
		case "or":
			if !v {
				ip.assume(st, c.args[0], false)
				ip.assume(st, c.args[1], false)
				return
			}
		}
	}
	if c.isConst() {
		return
	}
	st.facts[c] = v
}

// ---- memory --------------------------------------------------------------------

func (ip *Interp) globalInit(st *State, obj string, t types.Type) *Term {
	if v, ok := ip.w.inits[obj]; ok && !ip.initMode && ip.w.globOK[obj] {
		return v
	}
	return nil
}

// content returns the content of an object.
func (ip *Interp) content(st *State, obj string, t types.Type) *Term {
	if v, ok := st.heap[obj]; ok {
		return v
	}
	if !ip.initMode {
		if v, ok := ip.w.inits[obj]; ok && (ip.w.globOK[obj] || !strings.HasPrefix(obj, "g:")) {
			st.heap[obj] = v
			return v
		}
	}
	var v *Term
	if strings.HasPrefix(obj, "g:") && ip.initMode {
		v = zero(t)
	} else {
		v = mkSym("@"+obj, t)
	}
	st.heap[obj] = v
	return v
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// objOf splits a pointer into object and path. Symbolic pointers denote the
// object they point to.
func (ip *Interp) objOf(st *State, p *Term) (obj string, path []*Term, rootT types.Type) {
	if p.op == "ptr" {
		return p.name, p.args, nil
	}
	return "*" + p.stable(), nil, elemType(p.typ)
}

// project reads one path step.
func project(v, idx *Term, t types.Type) *Term {
	if i, ok := idx.intVal(); ok {
		if (v.op == "struct" || v.op == "array") && i >= 0 && int(i) < len(v.args) {
			return v.args[i]
		}
	}
	if v.op == "app" && v.name == "zeroarray" {
		return zero(t)
	}
	if v.op == "upd" {
		if v.args[1] == idx {
			return v.args[2]
		}
		if distinct(v.args[1], idx) {
			return project(v.args[0], idx, t)
		}
	}
	if v.op == "app" && v.name == "elems" {
		// elements of a symbolic slice
		s := v.args[0]
		if s.op == "app" && s.name == "append" {
			base := s.args[0]
			if d, ok := linDiff(idx, termLen(base)); ok {
				if d >= 0 && int(d) < len(s.args)-1 {
					return s.args[1+d]
				}
				if d < 0 {
					return project(mkApp("elems", v.typ, base), idx, t)
				}
			}
		}
	}
	return mkApp("sel", t, v, idx)
}

func fieldTypeAt(t types.Type, idx *Term) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if i, ok := idx.intVal(); ok && int(i) < u.NumFields() {
			return u.Field(int(i)).Type()
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func setPath(v *Term, path []*Term, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	idx := path[0]
	ft := fieldTypeAt(v.typ, idx)
	if i, ok := idx.intVal(); ok {
		if v.op == "app" && v.name == "zeroarray" {
			v = mkApp("zeroarray", v.typ)
		}
		if v.op == "struct" || v.op == "array" {
			if int(i) < len(v.args) && i >= 0 {
				n := append([]*Term{}, v.args...)
				n[i] = setPath(n[i], path[1:], val)
				return intern(&Term{op: v.op, args: n, typ: v.typ})
			}
		}
		if v.typ != nil {
			if s, ok := v.typ.Underlying().(*types.Struct); ok {
				// expand a symbolic struct
				n := make([]*Term, s.NumFields())
				for k := range n {
					n[k] = project(v, mkInt(int64(k), nil), s.Field(k).Type())
				}
				n[i] = setPath(n[i], path[1:], val)
				return intern(&Term{op: "struct", args: n, typ: v.typ})
			}
		}
	}
	inner := project(v, idx, ft)
	return intern(&Term{op: "upd", args: []*Term{v, idx, setPath(inner, path[1:], val)}, typ: v.typ})
}

func (ip *Interp) access(st *State, obj string, path []*Term, write bool, pos token.Pos) {
	if ip.OnAccess != nil {
		ip.OnAccess(st, obj, path, write, pos)
	}
}

func (ip *Interp) load(st *State, p *Term, t types.Type) *Term {
	obj, path, rt := ip.objOf(st, p)
	ip.access(st, obj, path, false, token.NoPos)
	if rt == nil && len(path) == 0 {
		rt = t
	}
	v := ip.content(st, obj, rt)
	for i, x := range path {
		var ft types.Type
		if i == len(path)-1 {
			ft = t
		} else {
			ft = fieldTypeAt(v.typ, x)
		}
		v = project(v, x, ft)
	}
	return v
}

func (ip *Interp) store(st *State, p, val *Term, pos token.Pos) {
	obj, path, rt := ip.objOf(st, p)
	if ip.OnStore != nil {
		ip.OnStore(st, obj, path, val, pos)
	}
	ip.access(st, obj, path, true, pos)
	if len(path) == 0 {
		st.heap[obj] = val
		return
	}
	v := ip.content(st, obj, rt)
	st.heap[obj] = setPath(v, path, val)
}

// ---- maps ----------------------------------------------------------------------

func mapObj(m *Term) (string, bool) {
	if m.op == "map" {
		return m.name, true
	}
	if m.op == "nil" {
		return "", false
	}
	return "map*" + m.stable(), true
}

func mapSet(m, k, v *Term) *Term {
	// replace an existing identical key
	if m.op == "upd" && m.args[1] == k {
		return intern(&Term{op: "upd", args: []*Term{m.args[0], k, v}, typ: m.typ})
	}
	return intern(&Term{op: "upd", args: []*Term{m, k, v}, typ: m.typ})
}

// mapEntries lists the entries of a map content; closed is false if there may
// be others.
// mapDel removes a key; keys of another text are known not to be it.
func mapDel(m, k *Term, t types.Type) *Term {
	if m.op == "app" && m.name == "emptymap" {
		return m
	}
	if m.op == "upd" {
		if m.args[1] == k {
			return mapDel(m.args[0], k, t)
		}
		if mkEq(m.args[1], k).isFalse() {
			return intern(&Term{op: "upd", args: []*Term{mapDel(m.args[0], k, t), m.args[1], m.args[2]}, typ: m.typ})
		}
	}
	return mkApp("mapdel", t, m, k)
}

func mapEntries(m *Term) (ks, vs []*Term, closed bool) {
	for m.op == "upd" {
		dup := false
		for _, k := range ks {
			if k == m.args[1] {
				dup = true
			}
		}
		if !dup {
			ks = append(ks, m.args[1])
			vs = append(vs, m.args[2])
		}
		m = m.args[0]
	}
	// oldest first
	for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
		ks[i], ks[j] = ks[j], ks[i]
		vs[i], vs[j] = vs[j], vs[i]
	}
	return ks, vs, m.op == "app" && m.name == "emptymap"
}

// ---- values ----------------------------------------------------------------------

func (ip *Interp) val(e env, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Basic); ok || !isNilable(v.Type()) {
				return zero(v.Type())
			}
			return mkNil(v.Type())
		}
		c := v.Value
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			c = constant.ToInt(c)
		}
		return mkConst(c, v.Type())
	case *ssa.Global:
		return mkPtr("g:"+v.String(), v.Type())
	case *ssa.Function:
		return mkFn(v)
	case *ssa.Builtin:
		return mkSym("builtin:"+v.Name(), nil)
	}
	if t, ok := e[v]; ok && t != nil {
		return t
	}
	return mkSym("undef:"+v.Name(), v.Type())
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func termLen(s *Term) *Term {
	intT := types.Typ[types.Int]
	if c, ok := s.strVal(); ok {
		return mkInt(int64(len(c)), intT)
	}
	switch s.op {
	case "nil":
		return mkInt(0, intT)
	case "slice":
		return binop(token.SUB, s.args[2], s.args[1], intT)
	case "rope":
		return ropeLen(s)
	case "array":
		return mkInt(int64(len(s.args)), intT)
	case "app":
		switch s.name {
		case "append":
			return binop(token.ADD, termLen(s.args[0]), mkInt(int64(len(s.args)-1), intT), intT)
		case "appendall":
			return binop(token.ADD, termLen(s.args[0]), termLen(s.args[1]), intT)
		case "subslice", "substr":
			return binop(token.SUB, s.args[2], s.args[1], intT)
		case "concat":
			r := mkInt(0, intT)
			for _, a := range s.args {
				r = binop(token.ADD, r, termLen(a), intT)
			}
			return r
		case "bytes":
			return termLen(s.args[0])
		}
	}
	return mkApp("len", intT, s)
}

// sliceElems returns the elements of a slice if they are all known.
func (ip *Interp) sliceElems(st *State, s *Term) ([]*Term, bool) {
	switch s.op {
	case "nil":
		return nil, true
	case "slice":
		lo, ok1 := s.args[1].intVal()
		hi, ok2 := s.args[2].intVal()
		if !ok1 || !ok2 || hi-lo > 4096 {
			return nil, false
		}
		arr := ip.load(st, s.args[0], nil)
		var et types.Type
		if s.typ != nil {
			if sl, ok := s.typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		var out []*Term
		for i := lo; i < hi; i++ {
			out = append(out, project(arr, mkInt(i, nil), et))
		}
		return out, true
	case "app":
		if s.name == "append" {
			base, ok := ip.sliceElems(st, s.args[0])
			if !ok {
				return nil, false
			}
			return append(append([]*Term{}, base...), s.args[1:]...), true
		}
	}
	return nil, false
}

// room is the end of the memory which a slice may grow into.
func (ip *Interp) room(st *State, s *Term) (int64, bool) {
	if s.op != "slice" || s.args[0].op != "ptr" {
		return 0, false
	}
	if len(s.args) > 3 {
		return s.args[3].intVal()
	}
	arr := ip.load(st, s.args[0], nil)
	if arr == nil || arr.op != "array" {
		return 0, false
	}
	return int64(len(arr.args)), true
}

// newSlice allocates a slice with the given elements.
func (ip *Interp) newSlice(st *State, name string, t types.Type, elems []*Term) *Term {
	var et types.Type = types.Typ[types.Int]
	if s, ok := t.Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	at := types.NewArray(et, int64(len(elems)))
	st.heap[name] = mkArray(at, elems)
	return intern(&Term{op: "slice", args: []*Term{mkPtr(name, types.NewPointer(at)), mkInt(0, nil), mkInt(int64(len(elems)), nil)}, typ: t})
}

// usedAsValue reports whether a condition is used other than in a branch.
func usedAsValue(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.NOT || usedAsValue(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func one(v *Term, st *State) []Outcome { return []Outcome{{val: v, st: st}} }

func (ip *Interp) site(in ssa.Instruction, st *State, ctx string) string {
	if ip.Enum {
		st.iter++
	}
	if st.iter > 0 {
		return fmt.Sprintf("%s#%d~%d", ctx, ip.instrN[in], st.iter)
	}
	return fmt.Sprintf("%s#%d", ctx, ip.instrN[in])
}

// eval evaluates one value instruction; more than one outcome means that the
// analysis splits.
func (ip *Interp) eval(in ssa.Value, e env, st *State, ctx string) []Outcome {
	instr := in.(ssa.Instruction)
	v := func(x ssa.Value) *Term { return ip.val(e, st, x) }
	switch in := in.(type) {
	case *ssa.Alloc:
		obj := "new:" + ip.site(instr, st, ctx)
		st.heap[obj] = zero(in.Type().Underlying().(*types.Pointer).Elem())
		return one(mkPtr(obj, in.Type()), st)
	case *ssa.BinOp:
		res := ip.arith(st, in.Op, v(in.X), v(in.Y), in.Type())
		ip.seeBinOp(st, in, v(in.X), v(in.Y), res)
		if ip.Enum && !res.isTrue() && !res.isFalse() && isBoolT(in.Type()) && usedAsValue(in) {
			// a comparison which is used as a value is decided like a branch
			var outs []Outcome
			for _, b := range ip.split(st, res) {
				outs = append(outs, Outcome{val: mkBool(b.v), st: b.st})
			}
			return outs
		}
		return one(res, st)
	case *ssa.UnOp:
		x := v(in.X)
		switch in.Op {
		case token.MUL:
			if x.op == "nil" {
				return []Outcome{{st: st, panic: true, msg: "nil dereference", pos: in.Pos(), val: mkStr("nil dereference")}}
			}
			return one(ip.load(st, x, in.Type()), st)
		case token.NOT:
			return one(mkNot(x), st)
		case token.SUB:
			return one(binop(token.SUB, mkInt(0, in.Type()), x, in.Type()), st)
		case token.XOR:
			if x.isConst() {
				r := constant.UnaryOp(token.XOR, x.cst, 0)
				return one(mkConst(fits(r, in.Type()), in.Type()), st)
			}
			return one(mkApp("un^", in.Type(), x), st)
		}
	case *ssa.ChangeType:
		x := v(in.X)
		switch x.op {
		case "struct", "array":
			return one(intern(&Term{op: x.op, args: x.args, typ: in.Type()}), st)
		case "const":
			return one(mkConst(x.cst, in.Type()), st)
		case "nil":
			return one(mkNil(in.Type()), st)
		}
		return one(x, st)
	case *ssa.Convert:
		if outs, ok := ip.convertRope(st, v(in.X), in.Type(), func(s *State) string { return ip.site(instr, s, ctx) }); ok {
			return outs
		}
		if t := ip.runesText(st, v(in.X), in.Type()); t != nil {
			return one(t, st)
		}
		ip.seeConvert(in, v(in.X))
		return one(ip.narrow(st, v(in.X), in.Type()), st)
	case *ssa.MultiConvert:
		return one(convertTerm(v(in.X), in.Type()), st)
	case *ssa.ChangeInterface:
		return one(v(in.X), st)
	case *ssa.MakeInterface:
		return one(mkIface(in.X.Type(), v(in.X), in.Type()), st)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, v(b))
		}
		return one(mkFn(in.Fn.(*ssa.Function), bs...), st)
	case *ssa.MakeMap:
		obj := "new:" + ip.site(instr, st, ctx)
		st.heap[obj] = mkApp("emptymap", in.Type())
		return one(intern(&Term{op: "map", name: obj, typ: in.Type()}), st)
	case *ssa.MakeSlice:
		if n, ok := v(in.Len).intVal(); ok && n <= 512 {
			et := in.Type().Underlying().(*types.Slice).Elem()
			c, known := v(in.Cap).intVal()
			if !known || c < n || c > 512 {
				c = n
			}
			el := make([]*Term, c)
			for i := range el {
				el[i] = zero(et)
			}
			sl := ip.newSlice(st, "new:"+ip.site(instr, st, ctx), in.Type(), el)
			return one(intern(&Term{op: "slice", args: []*Term{sl.args[0], mkInt(0, nil), mkInt(n, nil)}, typ: sl.typ}), st)
		}
		return one(mkApp("makeslice", in.Type(), v(in.Len), mkSym(ip.site(instr, st, ctx), nil)), st)
	case *ssa.FieldAddr:
		x := v(in.X)
		if x.op == "nil" {
			return []Outcome{{st: st, panic: true, msg: "nil dereference", pos: in.Pos(), val: mkStr("nil dereference")}}
		}
		idx := mkInt(int64(in.Field), nil)
		if x.op == "ptr" {
			return one(mkPtr(x.name, in.Type(), append(append([]*Term{}, x.args...), idx)...), st)
		}
		obj, _, rt := ip.objOf(st, x)
		ip.content(st, obj, rt)
		return one(mkPtr(obj, in.Type(), idx), st)
	case *ssa.Field:
		return one(project(v(in.X), mkInt(int64(in.Field), nil), in.Type()), st)
	case *ssa.IndexAddr:
		x, idx := v(in.X), v(in.Index)
		ip.seeIndex(in, in.X.Type(), in.Index, idx)
		if c, ok := idx.intVal(); ok {
			idx = mkInt(c, nil)
		}
		switch x.op {
		case "slice":
			// a concrete, known length slice: check the bounds
			lenT := termLen(x)
			if n, ok := lenT.intVal(); ok {
				if i, ok := idx.intVal(); ok && (i < 0 || i >= n) {
					return []Outcome{{st: st, panic: true, msg: "index out of range", pos: in.Pos(), val: mkStr("index out of range")}}
				}
			}
			off := binop(token.ADD, x.args[1], idx, types.Typ[types.Int])
			base := x.args[0]
			if base.op == "ptr" {
				return one(mkPtr(base.name, in.Type(), append(append([]*Term{}, base.args...), off)...), st)
			}
			obj, _, rt := ip.objOf(st, base)
			ip.content(st, obj, rt)
			return one(mkPtr(obj, in.Type(), off), st)
		case "ptr": // pointer to array
			return one(mkPtr(x.name, in.Type(), append(append([]*Term{}, x.args...), idx)...), st)
		case "nil":
			return []Outcome{{st: st, panic: true, msg: "index out of range", pos: in.Pos(), val: mkStr("index out of range")}}
		}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			obj, _, rt := ip.objOf(st, x)
			ip.content(st, obj, rt)
			return one(mkPtr(obj, in.Type(), idx), st)
		}
		// symbolic slice
		obj := "elems:" + x.stable()
		if _, ok := st.heap[obj]; !ok {
			st.heap[obj] = mkApp("elems", in.X.Type(), x)
		}
		return one(mkPtr(obj, in.Type(), idx), st)
	case *ssa.Index:
		x, idx := v(in.X), v(in.Index)
		ip.seeIndex(in, in.X.Type(), in.Index, idx)
		if s, ok := x.strVal(); ok {
			if i, ok := idx.intVal(); ok {
				if i < 0 || int(i) >= len(s) {
					return []Outcome{{st: st, panic: true, msg: "index out of range", pos: in.Pos(), val: mkStr("index out of range")}}
				}
				return one(mkInt(int64(s[i]), in.Type()), st)
			}
		}
		if isRope(x) {
			return ip.ropeByte(st, x, idx, in.Type(), in.Pos())
		}
		if isString(in.X.Type()) {
			return ip.byteOf(st, x, idx, in.Type(), in.Pos())
		}
		return one(project(x, idx, in.Type()), st)
	case *ssa.Slice:
		return ip.evalSlice(in, e, st, ctx)
	case *ssa.Lookup:
		x, k := v(in.X), v(in.Index)
		if isString(in.X.Type()) {
			if s, ok := x.strVal(); ok {
				if i, ok := k.intVal(); ok && i >= 0 && int(i) < len(s) {
					return one(mkInt(int64(s[i]), in.Type()), st)
				}
			}
			if isRope(x) {
				return ip.ropeByte(st, x, k, in.Type(), in.Pos())
			}
			return ip.byteOf(st, x, k, in.Type(), in.Pos())
		}
		return ip.lookup(in, x, k, st, ctx)
	case *ssa.Extract:
		t := v(in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			return one(t.args[in.Index], st)
		}
		return one(mkApp(fmt.Sprintf("ret%d", in.Index), in.Type(), t), st)
	case *ssa.TypeAssert:
		return ip.typeAssert(in, v(in.X), st, ctx)
	case *ssa.Range:
		obj := "new:" + ip.site(instr, st, ctx)
		st.heap[obj] = mkTuple(v(in.X), mkInt(0, nil))
		return one(mkPtr(obj, nil), st)
	case *ssa.Next:
		return ip.next(in, v(in.Iter), st, ctx)
	case *ssa.Call:
		return ip.doCall(&in.Call, in, e, st, ctx)
	case *ssa.SliceToArrayPointer, *ssa.MakeChan:
		return one(mkSym(ip.site(instr, st, ctx), in.Type()), st)
	}
	ip.fail("unsupported value %T %s", in, in)
	return nil
}

func (ip *Interp) evalSlice(in *ssa.Slice, e env, st *State, ctx string) []Outcome {
	x := ip.val(e, st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = ip.val(e, st, in.Low)
	} else {
		lo = mkInt(0, nil)
	}
	if c, ok := lo.intVal(); ok {
		lo = mkInt(c, nil)
	}
	if in.High != nil {
		hi = ip.val(e, st, in.High)
		if c, ok := hi.intVal(); ok {
			hi = mkInt(c, nil)
		}
	}
	if isRope(x) {
		return ip.sliceRope(st, x, lo, hi, in.Pos())
	}
	if s, ok := x.strVal(); ok && hi == nil {
		hi = mkInt(int64(len(s)), nil)
	}
	if isString(in.X.Type()) {
		if hi == nil {
			hi = termLen(x)
		}
		return ip.substr(st, x, lo, hi, in.Pos())
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if hi == nil {
				hi = mkInt(at.Len(), nil)
			}
			return one(intern(&Term{op: "slice", args: []*Term{x, lo, hi}, typ: in.Type()}), st)
		}
	}
	if x.op == "nil" {
		l, ok1 := lo.intVal()
		h, ok2 := int64(0), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 {
			if l != 0 || h != 0 {
				return []Outcome{{st: st, panic: true, msg: "slice bounds out of range", pos: in.Pos(), val: mkStr("slice bounds out of range")}}
			}
			return one(x, st)
		}
	}
	if x.op == "slice" {
		if hi == nil {
			hi = binop(token.SUB, x.args[2], x.args[1], types.Typ[types.Int])
		}
		at := func(d *Term) *Term { return binop(token.ADD, x.args[1], d, types.Typ[types.Int]) }
		a := []*Term{x.args[0], at(lo), at(hi)}
		l, ok1 := a[1].intVal()
		h, ok2 := a[2].intVal()
		if room, ok := ip.room(st, x); ok && ok1 && ok2 && (l > h || h > room) || ok1 && ok2 && l > h {
			return []Outcome{{st: st, panic: true, msg: "slice bounds out of range", pos: in.Pos(), val: mkStr("slice bounds out of range")}}
		}
		if in.Max != nil {
			a = append(a, at(ip.val(e, st, in.Max)))
		} else if len(x.args) > 3 {
			a = append(a, x.args[3])
		}
		return one(intern(&Term{op: "slice", args: a, typ: in.Type()}), st)
	}
	if hi == nil {
		hi = termLen(x)
	}
	return one(mkSubslice(x, lo, hi, in.Type()), st)
}

func mkSubslice(x, lo, hi *Term, t types.Type) *Term {
	if v, ok := lo.intVal(); ok && v == 0 && hi == termLen(x) {
		return x
	}
	if x.op == "app" && x.name == "subslice" {
		return mkSubslice(x.args[0], binop(token.ADD, x.args[1], lo, types.Typ[types.Int]), binop(token.ADD, x.args[1], hi, types.Typ[types.Int]), t)
	}
	return mkApp("subslice", t, x, lo, hi)
}

func mkSubstr(x, lo, hi *Term) *Term {
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s) {
			return mkStr(s[l:h])
		}
	}
	if v, ok := lo.intVal(); ok && v == 0 && hi == termLen(x) {
		return x
	}
	if x.op == "app" && x.name == "substr" {
		return mkSubstr(x.args[0], binop(token.ADD, x.args[1], lo, types.Typ[types.Int]), binop(token.ADD, x.args[1], hi, types.Typ[types.Int]))
	}
	return mkApp("substr", types.Typ[types.String], x, lo, hi)
}

func (ip *Interp) lookup(in *ssa.Lookup, m, k *Term, st *State, ctx string) []Outcome {
	mt := in.X.Type().Underlying().(*types.Map)
	ret := func(v *Term, ok *Term) *Term {
		if in.CommaOk {
			return mkTuple(v, ok)
		}
		return v
	}
	obj, ok := mapObj(m)
	if !ok {
		return one(ret(zero(mt.Elem()), mkBool(false)), st)
	}
	ip.access(st, obj, nil, false, in.Pos())
	c := ip.content(st, obj, mt)
	ks, vs, closed := mapEntries(c)
	var outs []Outcome
	cur := st
	for i := range ks {
		eq := mkEq(ks[i], k)
		v, known := ip.truth(cur, eq)
		if known && !v {
			continue
		}
		if known && v {
			outs = append(outs, Outcome{val: ret(vs[i], mkBool(true)), st: cur})
			return outs
		}
		if ip.Enum && (isRope(k) || k.op == "app" || k.op == "sym") {
			rest := ip.mapRest(ks[i:], vs[i:], k, cur, zero(mt.Elem()), closed)
			if rest != nil {
				for _, o := range rest {
					o.val = ret(o.val.args[0], o.val.args[1])
					outs = append(outs, o)
				}
				return outs
			}
		}
		s2 := cur.clone()
		ip.assume(s2, eq, true)
		outs = append(outs, Outcome{val: ret(vs[i], mkBool(true)), st: s2})
		cur = cur.clone()
		ip.assume(cur, eq, false)
	}
	if closed {
		outs = append(outs, Outcome{val: ret(zero(mt.Elem()), mkBool(false)), st: cur})
		return outs
	}
	base := c
	for base.op == "upd" {
		base = base.args[0]
	}
	outs = append(outs, Outcome{val: ret(mkApp("mapget", mt.Elem(), base, k), mkApp("maphas", types.Typ[types.Bool], base, k)), st: cur})
	return outs
}

// mapRest looks up a key in the entries of a map by cases.
func (ip *Interp) mapRest(ks, vs []*Term, k *Term, st *State, none *Term, closed bool) []Outcome {
	if !closed {
		return nil
	}
	if len(ks) == 0 {
		return one(mkTuple(none, mkBool(false)), st)
	}
	var outs []Outcome
	for _, b := range ip.split(st, mkEq(ks[0], k)) {
		if b.v {
			outs = append(outs, Outcome{val: mkTuple(vs[0], mkBool(true)), st: b.st})
		} else {
			outs = append(outs, ip.mapRest(ks[1:], vs[1:], k, b.st, none, closed)...)
		}
	}
	return outs
}

func (ip *Interp) typeAssert(in *ssa.TypeAssert, x *Term, st *State, ctx string) []Outcome {
	T := in.AssertedType
	ret := func(v *Term, ok bool) *Term {
		if in.CommaOk {
			return mkTuple(v, mkBool(ok))
		}
		return v
	}
	failOut := func(s *State) Outcome {
		if in.CommaOk {
			return Outcome{val: ret(zero(T), false), st: s}
		}
		return Outcome{st: s, panic: true, msg: "interface conversion", pos: in.Pos(), val: mkStr("interface conversion")}
	}
	switch x.op {
	case "nil":
		return []Outcome{failOut(st)}
	case "iface":
		if types.IsInterface(T) {
			if types.Implements(x.typ2, T.Underlying().(*types.Interface)) {
				return one(ret(x, true), st)
			}
			return []Outcome{failOut(st)}
		}
		if types.Identical(x.typ2, T) {
			return one(ret(x.args[0], true), st)
		}
		return []Outcome{failOut(st)}
	}
	atom := intern(&Term{op: "app", name: "is:" + types.TypeString(T, nil), args: []*Term{x}, typ: types.Typ[types.Bool], typ2: T})
	var good *Term
	if types.IsInterface(T) {
		good = x
	} else {
		good = mkApp("as:"+types.TypeString(T, nil), T, x)
	}
	if v, known := ip.truth(st, atom); known {
		if v {
			return one(ret(good, true), st)
		}
		return []Outcome{failOut(st)}
	}
	s2 := st.clone()
	ip.assume(st, atom, true)
	ip.assume(s2, atom, false)
	return []Outcome{{val: ret(good, true), st: st}, failOut(s2)}
}

func (ip *Interp) next(in *ssa.Next, it *Term, st *State, ctx string) []Outcome {
	obj, _, _ := ip.objOf(st, it)
	cell := st.heap[obj]
	if cell == nil || cell.op != "tuple" {
		cell = mkTuple(mkSym("iter:"+obj, nil), mkSym("iterpos:"+obj, types.Typ[types.Int]))
	}
	x, pos := cell.args[0], cell.args[1]
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	z := func(t types.Type) *Term {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return mkTuple()
		}
		return zero(t)
	}
	done := mkTuple(mkBool(false), z(kt), z(vt))
	if in.IsString && isRope(x) {
		p, _ := pos.intVal()
		t, lo, hi := x.ropeOf()
		i := lo + int(p)
		if hi >= 0 && i >= hi {
			return one(done, st)
		}
		yes, nos := ip.need(st, t, i)
		outs := []Outcome{}
		if yes != nil {
			yes.heap[obj] = mkTuple(x, mkInt(p+1, nil))
			outs = append(outs, Outcome{val: mkTuple(mkBool(true), binop(token.SUB, t.off(i), t.off(lo), intT), t.cells[i]), st: yes})
		}
		for _, n := range nos {
			outs = append(outs, Outcome{val: done, st: n})
		}
		return outs
	}
	if in.IsString {
		if s, ok := x.strVal(); ok {
			if p, ok := pos.intVal(); ok {
				if int(p) >= len(s) {
					return one(done, st)
				}
				r, n := firstRune(s[p:])
				st.heap[obj] = mkTuple(x, mkInt(p+int64(n), nil))
				return one(mkTuple(mkBool(true), mkInt(p, kt), mkInt(int64(r), types.Typ[types.Rune])), st)
			}
		}
		atom := mkApp("haschar", types.Typ[types.Bool], x, pos)
		adv := func(s *State) Outcome {
			ch := mkApp("char", types.Typ[types.Rune], x, pos)
			s.heap[obj] = mkTuple(x, binop(token.ADD, pos, mkInt(1, nil), types.Typ[types.Int]))
			var idx *Term
			if p, ok := pos.intVal(); ok && p == 0 {
				idx = mkInt(0, kt)
			} else {
				idx = mkApp("charpos", types.Typ[types.Int], x, pos)
			}
			return Outcome{val: mkTuple(mkBool(true), idx, ch), st: s}
		}
		if v, known := ip.truth(st, atom); known {
			if v {
				return []Outcome{adv(st)}
			}
			return one(done, st)
		}
		s2 := st.clone()
		ip.assume(st, atom, true)
		ip.assume(s2, atom, false)
		return []Outcome{adv(st), {val: done, st: s2}}
	}
	// map
	mobj, ok := mapObj(x)
	if !ok {
		return one(done, st)
	}
	ip.access(st, mobj, nil, false, in.Pos())
	var mt *types.Map
	if rg, ok := in.Iter.(*ssa.Range); ok {
		mt, _ = rg.X.Type().Underlying().(*types.Map)
	}
	if mt != nil {
		c := ip.content(st, mobj, mt)
		ks, vs, closed := mapEntries(c)
		if p, ok := pos.intVal(); ok && closed {
			if int(p) >= len(ks) {
				return one(done, st)
			}
			st.heap[obj] = mkTuple(x, mkInt(p+1, nil))
			return one(mkTuple(mkBool(true), ks[p], vs[p]), st)
		}
	}
	s2 := st.clone()
	name := ip.site(in, st, ctx)
	sy := func(n string, t types.Type) *Term {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return mkTuple()
		}
		return mkSym(n, t)
	}
	st.heap[obj] = mkTuple(x, mkApp("nextpos", types.Typ[types.Int], pos))
	return []Outcome{{val: mkTuple(mkBool(true), sy(name+".k", kt), sy(name+".v", vt)), st: st}, {val: done, st: s2}}
}

// ---- calls ----------------------------------------------------------------------

func (ip *Interp) doCall(c *ssa.CallCommon, site ssa.Instruction, e env, st *State, ctx string) []Outcome {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ip.val(e, st, a))
	}
	var rt types.Type
	if sv, ok := site.(ssa.Value); ok {
		rt = sv.Type()
	} else {
		rt = c.Signature().Results()
	}
	nctx := ip.site(site, st, ctx)
	cc := &CallCtx{Args: args, Site: site, Ctx: nctx, Type: rt, Pos: c.Pos()}
	ip.seePattern(site, c.StaticCallee(), args)
	if c.IsInvoke() {
		recv := ip.val(e, st, c.Value)
		cc.Args = append([]*Term{recv}, args...)
		if recv.op == "nil" {
			return []Outcome{{st: st, panic: true, msg: "nil dereference", pos: c.Pos(), val: mkStr("nil dereference")}}
		}
		if recv.op == "iface" {
			var m *ssa.Function
			if recv.typ2 != errDyn {
				m = ip.w.Prog.LookupMethod(recv.typ2, c.Method.Pkg(), c.Method.Name())
			}
			if m != nil {
				cc.Args[0] = recv.args[0]
				return ip.callFn(m, nil, cc, st)
			}
		}
		cc.Name = "iface:" + strings.ReplaceAll(types.TypeString(c.Value.Type(), nil), ip.w.Mod+"/", "") + "." + c.Method.Name()
		if h, ok := ip.Intrinsics[cc.Name]; ok {
			if out, ok := h(ip, st, cc); ok {
				return out
			}
		}
		if h, ok := stdModels[cc.Name]; ok {
			if out, ok := h(ip, st, cc); ok {
				return out
			}
		}
		if ip.Dyn != nil {
			if out, ok := ip.Dyn(ip, st, cc); ok {
				return out
			}
		}
		return ip.unknown(cc, st)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "min" || b.Name() == "max" {
			ip.seeLimit(st, site, c, args, b.Name())
		}
		return ip.builtin(b, cc, st)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := ip.val(e, st, mc)
			if t.op == "fn" {
				binds = t.args
			}
		}
		return ip.callFn(f, binds, cc, st)
	}
	fv := ip.val(e, st, c.Value)
	if fv.op == "fn" {
		return ip.callFn(fv.fn, fv.args, cc, st)
	}
	if fv.op == "nil" {
		return []Outcome{{st: st, panic: true, msg: "nil function call", pos: c.Pos(), val: mkStr("nil function call")}}
	}
	cc.Name = "dyn"
	cc.Args = append([]*Term{fv}, args...)
	if ip.Dyn != nil {
		if out, ok := ip.Dyn(ip, st, cc); ok {
			return out
		}
	}
	return ip.unknown(cc, st)
}

// callFn calls a resolved function.
func (ip *Interp) callFn(f *ssa.Function, binds []*Term, cc *CallCtx, st *State) []Outcome {
	cc.Fn = f
	cc.Name = ip.w.OName(f)
	if h, ok := ip.Intrinsics[cc.Name]; ok && !ip.w.expanded[cc.Name] {
		if out, ok := h(ip, st, cc); ok {
			return out
		}
	}
	if h, ok := stdModels[cc.Name]; ok {
		if out, ok := h(ip, st, cc); ok {
			return out
		}
	}
	if ip.initMode && f.Name() == "init" && f.Synthetic != "" && !ip.w.Own(f) {
		return one(mkTuple(), st)
	}
	if m := ip.w.modelOf(cc.Name); m != nil && ip.Enum && !strings.HasPrefix(cc.Name, "(") {
		rope, all := false, true
		for _, a := range cc.Args {
			if isRope(a) {
				rope = true
			}
			if !a.isConst() && a.op != "fn" {
				all = false
			}
		}
		if rope || all || alwaysModel[cc.Name] {
			f = m
			cc.Fn = m
		}
	}
	own := ip.w.Own(f) || ip.w.Through(f) || len(f.Blocks) > 0 && (f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "package init"))
	if own && len(f.Blocks) > 0 && len(ip.stack) < ip.MaxDepth && (ip.NoInline == nil || !ip.NoInline(f)) {
		rec := 0
		for _, g := range ip.stack {
			if g == f {
				rec++
			}
		}
		if rec <= ip.MaxRec {
			outs := ip.Call(f, cc.Args, binds, st, cc.Ctx)
			if ip.Enum {
				outs = mergeBoxes(outs)
			}
			if ip.Merge != nil && len(outs) > 1 && ip.Merge(f) {
				outs = ip.mergeOutcomes(outs, cc.Ctx)
			}
			return outs
		}
	}
	if ip.Dyn != nil {
		if out, ok := ip.Dyn(ip, st, cc); ok {
			return out
		}
	}
	return ip.unknown(cc, st)
}

// alwaysModel are the library functions whose definition is used on any
// argument; others are kept as terms on unknown texts.
var alwaysModel = map[string]bool{
	"strings.CutPrefix": true, "strings.CutSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"sort.Search": true, "unicode/utf16.RuneLen": true,
}

// unknown is the default transfer function of a call without contract: a pure
// function of its arguments for functions outside of the repository, and an
// arbitrary effect on the objects reachable from the arguments for others.
func (ip *Interp) unknown(cc *CallCtx, st *State) []Outcome {
	pure := cc.Fn != nil && !ip.w.Own(cc.Fn)
	if ip.Enum && !pure {
		return ip.callEvent(cc, st)
	}
	// Pointer arguments may be written through.
	for i, a := range cc.Args {
		if pure && i > 0 {
			break // methods of standard types modify their receiver only
		}
		if pure && cc.Fn.Signature.Recv() == nil {
			break
		}
		ip.havoc(st, a, cc.Ctx, 0)
	}
	var args []*Term
	args = append(args, cc.Args...)
	if !pure {
		args = append(args, mkSym(cc.Ctx, nil))
	} else if cc.Fn.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0].op == "ptr" {
		args = append(args, mkSym(cc.Ctx, nil))
	}
	mk := func(i int, t types.Type) *Term {
		n := "call:" + cc.Name
		if i >= 0 {
			n = fmt.Sprintf("call%d:%s", i, cc.Name)
		}
		return mkApp(n, t, args...)
	}
	if tt, ok := cc.Type.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, mk(i, tt.At(i).Type()))
		}
		return one(mkTuple(rs...), st)
	}
	return one(mk(-1, cc.Type), st)
}

// havoc forgets the content of the objects reachable from v.
func (ip *Interp) havoc(st *State, v *Term, tag string, d int) {
	if v == nil || d > 6 {
		return
	}
	switch v.op {
	case "ptr":
		if c, ok := st.heap[v.name]; ok {
			nt := mkSym("havoc("+tag+","+v.name+")", c.typ)
			if c == nt {
				return
			}
			st.heap[v.name] = nt
			ip.havoc(st, c, tag, d+1)
		}
	case "struct", "array", "tuple", "iface", "fn", "upd":
		for _, a := range v.args {
			ip.havoc(st, a, tag, d+1)
		}
	case "slice":
		ip.havoc(st, v.args[0], tag, d+1)
	case "map":
		if c, ok := st.heap[v.name]; ok {
			st.heap[v.name] = mkSym("havoc("+tag+","+v.name+")", c.typ)
		}
	default:
		if v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Pointer); ok {
				obj := "*" + v.stable()
				if c, ok := st.heap[obj]; ok {
					st.heap[obj] = mkSym("havoc("+tag+","+obj+")", c.typ)
					ip.havoc(st, c, tag, d+1)
				}
			}
		}
	}
}

func (ip *Interp) builtin(bi *ssa.Builtin, cc *CallCtx, st *State) []Outcome {
	a := cc.Args
	switch bi.Name() {
	case "len":
		if a[0].op == "map" {
			c := st.heap[a[0].name]
			if c != nil {
				if ks, _, closed := mapEntries(c); closed {
					return one(mkInt(int64(len(ks)), nil), st)
				}
			}
		}
		if a[0].op == "ptr" {
			if pt, ok := a[0].typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return one(mkInt(at.Len(), nil), st)
				}
			}
		}
		return one(termLen(a[0]), st)
	case "cap":
		return one(mkApp("cap", types.Typ[types.Int], a[0]), st)
	case "append":
		if len(a) == 1 {
			return one(a[0], st)
		}
		if isString(a[1].typ) {
			return one(mkApp("appendall", cc.Type, a[0], mkApp("bytes", cc.Type, a[1])), st)
		}
		more, ok2 := ip.sliceElems(st, a[1])
		if ok2 && len(more) == 0 {
			return one(a[0], st)
		}
		base, ok1 := ip.sliceElems(st, a[0])
		if ok1 && ok2 {
			// the memory of the slice is used if there is room
			if room, ok := ip.room(st, a[0]); ok && a[0].op == "slice" {
				hi, _ := a[0].args[2].intVal()
				if hi+int64(len(more)) <= room {
					p := a[0].args[0]
					for i, x := range more {
						ip.store(st, mkPtr(p.name, nil, append(append([]*Term{}, p.args...), mkInt(hi+int64(i), nil))...), x, cc.Pos)
					}
					n := append([]*Term{}, a[0].args...)
					n[2] = mkInt(hi+int64(len(more)), nil)
					return one(intern(&Term{op: "slice", args: n, typ: cc.Type}), st)
				}
			}
			el := append(append([]*Term{}, base...), more...)
			return one(ip.newSlice(st, "new:"+cc.Ctx, cc.Type, el), st)
		}
		if ok2 {
			if a[0].op == "app" && a[0].name == "append" {
				return one(mkApp("append", cc.Type, append(append([]*Term{}, a[0].args...), more...)...), st)
			}
			return one(mkApp("append", cc.Type, append([]*Term{a[0]}, more...)...), st)
		}
		return one(mkApp("appendall", cc.Type, a[0], a[1]), st)
	case "copy":
		if src, ok := ip.sliceElems(st, a[1]); ok && a[0].op == "slice" && a[0].args[0].op == "ptr" {
			lo, ok1 := a[0].args[1].intVal()
			hi, ok2 := a[0].args[2].intVal()
			if ok1 && ok2 {
				n := min(int64(len(src)), hi-lo)
				p := a[0].args[0]
				for i := int64(0); i < n; i++ {
					ip.store(st, mkPtr(p.name, nil, append(append([]*Term{}, p.args...), mkInt(lo+i, nil))...), src[i], cc.Pos)
				}
				return one(mkInt(n, types.Typ[types.Int]), st)
			}
		}
		ip.havoc(st, a[0], cc.Ctx, 0)
		return one(mkSym(cc.Ctx, types.Typ[types.Int]), st)
	case "delete":
		if obj, ok := mapObj(a[0]); ok {
			ip.access(st, obj, nil, true, cc.Pos)
			st.heap[obj] = mapDel(ip.content(st, obj, a[0].typ), a[1], a[0].typ)
		}
		return one(mkTuple(), st)
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			lt := mkLt(x, r)
			if bi.Name() == "max" {
				lt = mkLt(r, x)
			}
			if v, ok := ip.truth(st, lt); ok {
				if v {
					r = x
				}
				continue
			}
			if ip.Enum {
				outs := []Outcome{}
				for _, b := range ip.split(st, lt) {
					c2 := *cc
					v := r
					if b.v {
						v = x
					}
					c2.Args = []*Term{v}
					for _, y := range a[1:] {
						if y != x {
							c2.Args = append(c2.Args, y)
						}
					}
					if len(c2.Args) == 1 {
						outs = append(outs, Outcome{val: v, st: b.st})
					} else {
						outs = append(outs, ip.builtin(bi, &c2, b.st)...)
					}
				}
				return outs
			}
			p, q := r, x
			if p.id > q.id {
				p, q = q, p
			}
			r = mkApp(bi.Name(), cc.Type, p, q)
		}
		return one(r, st)
	case "clear":
		if el, ok := ip.sliceElems(st, a[0]); ok && (a[0].op == "nil" || a[0].op == "slice" && a[0].args[0].op == "ptr") {
			for i := range el {
				lo, _ := a[0].args[1].intVal()
				p := a[0].args[0]
				ip.store(st, mkPtr(p.name, nil, append(append([]*Term{}, p.args...), mkInt(lo+int64(i), nil))...), zero(a[0].typ.Underlying().(*types.Slice).Elem()), cc.Pos)
			}
			return one(mkTuple(), st)
		}
		ip.havoc(st, a[0], cc.Ctx, 0)
		return one(mkTuple(), st)
	case "print", "println", "close":
		return one(mkTuple(), st)
	case "ssa:wrapnilchk":
		return one(a[0], st)
	case "recover":
		return one(mkNil(cc.Type), st)
	}
	return one(mkSym(cc.Ctx, cc.Type), st)
}
