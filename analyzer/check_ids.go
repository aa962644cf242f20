package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Interned file ids: histories of calls from the initial state of the program,
// with the equalities between their unknown arguments given; and the use of the
// lock around the tables.

// locker finds the struct with a lock that an object of the initial state is.
func lockField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(s.Field(i).Type(), nil) {
		case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
			return i
		}
	}
	return -1
}

// guarded are the objects with a lock which exist from the start.
func (w *World) guarded() map[string]int {
	m := map[string]int{}
	for obj, v := range w.inits {
		if v != nil && v.typ != nil {
			if i := lockField(v.typ); i >= 0 {
				m[obj] = i
			}
		}
	}
	return m
}

// watchLocks reports accesses to guarded objects without their lock, and changes
// which were not decided in the same critical section.
func (r *Report) watchLocks(ip *Interp, seen map[string]bool) {
	g := r.w.guarded()
	busy := false
	ip.OnAccess = func(st *State, obj string, path []*Term, write bool, pos token.Pos) {
		if busy {
			return
		}
		busy = true
		defer func() { busy = false }()
		for _, o := range sortedKeys(g) {
			part := ""
			v := ip.content(st, o, nil)
			if obj == o {
				if len(path) == 0 {
					part = "*"
				} else if i, ok := path[0].intVal(); ok && int(i) == g[o] {
					continue
				} else {
					part = path[0].stable()
				}
			} else if v != nil && v.op == "struct" {
				for i, f := range v.args {
					switch {
					case f.op == "map" && f.name == obj:
						part = fmt.Sprint("map ", i)
					case f.op == "slice" && f.args[0].op == "ptr" && f.args[0].name == obj:
						part = fmt.Sprint("elements ", i)
					}
				}
			}
			if part == "" {
				continue
			}
			mode, epoch := int64(0), ""
			for k, v := range st.ghost {
				if strings.HasPrefix(k, "lock:"+o) {
					mode, _ = v.intVal()
					epoch = st.ghost["epoch"].String()
				}
			}
			at := r.w.Pos(pos)
			if fn := len(ip.stack); fn > 0 {
				at = r.w.Name(ip.stack[fn-1])
			}
			k := fmt.Sprint(at, part, write)
			seen[k] = true
			need := int64(1)
			if write {
				need = 2
			}
			what := "read"
			if write {
				what = "written"
			}
			r.check(mode >= need, "locked", at+": "+part+" of "+strings.TrimPrefix(o, "new:")+" "+what, r.w.Pos(pos), "%s is %s in %s without the lock that guards it (held: %d, needed: %d)", part, what, at, mode, need)
			if write {
				if !strings.HasPrefix(part, "elements") {
					l := st.ghost["looked:"+obj+part]
					r.check(mode == 0 || l != nil && l.String() == epoch, "atomic", at+": "+part+" of "+strings.TrimPrefix(o, "new:"), r.w.Pos(pos), "%s changes %s without having looked at it in the same critical section", at, part)
				}
			} else if epoch != "" {
				st.ghost["looked:"+obj+part] = st.ghost["epoch"]
			}
		}
	}
}

func init() {
	register(&Property{ID: "T30", Run: func(w *World, r *Report) {
		spec, ver, vt := r.named(syn, "PackageSpec"), r.named(syn, "PackageVersion"), r.named(syn, "VirtualPath")
		newID, fakeID := r.fn(syn+".NewFileID"), r.fn(syn+".NewFakeFileID")
		seen := map[string]bool{}
		r.check(len(w.guarded()) > 0, "anchor", "interner", "-", "no object with a lock found")
		fields := []string{"path", "namespace", "name", "major", "minor", "patch"}
		type op struct {
			kind string   // S: of a package, N: of none, F: fake
			same []string // for each field the number of the call it is shared with, or its own
		}
		histories := 0
		run := func(what string, ops []op) {
			histories++
			x := r.fx(syn+".NewFileID", "ids")
			x.ip.Enum = true
			x.ip.MaxPaths = 1000
			r.watchLocks(x.ip, seen)
			sym := func(f, own string) *Term {
				t := types.Type(strT)
				switch f {
				case "major", "minor", "patch":
					t = r.needField(ver, strings.ToUpper(f[:1])+f[1:])
				}
				return mkSym(f+own, t)
			}
			// different names are different values
			for _, f := range fields {
				own := map[string]bool{}
				for i := range ops {
					n := ops[i].same[indexOf(fields, f)]
					for o := range own {
						if o != n {
							x.given(mkEq(sym(f, o), sym(f, n)), false)
						}
					}
					own[n] = true
				}
			}
			type res struct {
				id *Term
			}
			st := x.st
			var ids []*Term
			var specs []*Term
			ok := true
			call := func(full string, args ...*Term) *Term {
				x.ip.Failed = ""
				outs := x.ip.Call(r.fn(full), args, nil, st, fmt.Sprintf("S%d", len(ids)))
				good := x.ip.Failed == "" && len(outs) == 1 && !outs[0].panic
				if !good {
					var d []string
					for _, o := range outs {
						d = append(d, fmt.Sprintf("panic %v %s", o.panic, o.msg))
					}
					r.check(false, "history", what+": "+full, r.w.posOf(r.fn(full)), "%s does not return exactly one result (%v) %s", full, d, x.ip.Failed)
					ok = false
					return nil
				}
				st = outs[0].st
				if l := heldLocks(st); len(l) > 0 {
					r.check(false, "released", full, r.w.posOf(r.fn(full)), "%s returns with a lock held", full)
				}
				return outs[0].val
			}
			for i, o := range ops {
				f := func(n string) *Term { return sym(n, o.same[indexOf(fields, n)]) }
				sp := mkNil(types.NewPointer(spec))
				x.st = st
				vp := x.alloc(fmt.Sprintf("v%d", i), x.mk(vt, map[string]*Term{"Path": f("path")}), vt)
				if o.kind == "S" {
					v := x.mk(ver, map[string]*Term{"Major": f("major"), "Minor": f("minor"), "Patch": f("patch")})
					sp = x.alloc(fmt.Sprintf("s%d", i), x.mk(spec, map[string]*Term{"Namespace": f("namespace"), "Name": f("name"), "Version": v}), spec)
				}
				specs = append(specs, sp)
				var id *Term
				if o.kind == "F" {
					id = call(syn+".NewFakeFileID", vp)
				} else {
					opt := zero(newID.Params[0].Type())
					if o.kind == "S" {
						x.st = st
						opt = x.some(0, sp)
					}
					id = call(syn+".NewFileID", opt, vp)
				}
				if !ok {
					return
				}
				ids = append(ids, id)
			}
			where := r.w.posOf(newID)
			for j := range ops {
				if v, known := ids[j].intVal(); known {
					r.check(v > 0, "nonzero", what, where, "call %d yields the id 0", j+1)
				}
				for i := 0; i < j; i++ {
					eq := ops[i].kind == ops[j].kind && ops[i].kind != "F"
					for k, f := range fields {
						if ops[i].same[k] != ops[j].same[k] && (f == "path" || ops[i].kind == "S") {
							eq = false
						}
					}
					v, known := x.ip.truth(st, mkEq(ids[i], ids[j]))
					r.check(known && v == eq, "same", fmt.Sprintf("%s: %d and %d", what, i+1, j+1), where, "the ids of calls %d and %d are %s and %s, which should be equal: %v", i+1, j+1, canon(st, ids[i]), canon(st, ids[j]), eq)
				}
			}
			for i, o := range ops {
				opt := call("("+syn+".FileID).Spec", ids[i])
				vp := call("("+syn+".FileID).VPath", ids[i])
				if !ok {
					return
				}
				p := x.ip.load(st, mkPtr(vp.name, types.NewPointer(strT), append(append([]*Term{}, vp.args...), mkInt(0, nil))...), strT)
				v, known := x.ip.truth(st, mkEq(p, sym("path", o.same[0])))
				r.check(known && v, "path", fmt.Sprintf("%s: %d", what, i+1), where, "the path of call %d is %s", i+1, canon(st, p))
				has, val := false, (*Term)(nil)
				if opt.op == "struct" && len(opt.args) == 1 && opt.args[0].op == "ptr" {
					has, val = true, x.ip.load(st, opt.args[0], types.NewPointer(spec))
				}
				r.check(has == (o.kind == "S"), "package", fmt.Sprintf("%s: %d", what, i+1), where, "call %d is in a package: %v", i+1, has)
				if has && val.op == "ptr" {
					got := x.ip.load(st, val, spec)
					want := st.heap[specs[i].name]
					v, known := x.ip.truth(st, mkEq(got, want))
					r.check(known && v, "package", fmt.Sprintf("%s: %d", what, i+1), where, "the package of call %d is %s", i+1, canon(st, got))
				}
			}
		}
		own := func(s string) []string { return strings.Split(strings.Repeat(s+" ", len(fields)-1)+s, " ") }
		var variants func(i int) []op
		variants = func(i int) []op {
			me := fmt.Sprint(i)
			vs := []op{{"F", own("0")}, {"N", own("0")}, {"N", own(me)}, {"S", own("0")}, {"S", own(me)}}
			for k := range fields {
				o := op{"S", own("0")}
				o.same[k] = me
				vs = append(vs, o)
			}
			return vs
		}
		for _, k := range []string{"S", "N", "F"} {
			for a, v1 := range variants(1) {
				run(fmt.Sprintf("%s %d", k, a), []op{{k, own("0")}, v1})
				for b, v2 := range variants(2) {
					run(fmt.Sprintf("%s %d %d", k, a, b), []op{{k, own("0")}, v1, v2})
				}
			}
		}
		r.note("%d histories of up to three calls", histories)
		// the ids run out
		full := 0
		for obj, v := range w.inits {
			if lf := w.guarded(); v == nil || v.typ == nil || lf[obj] == 0 && lockField(v.typ) != 0 {
				continue
			}
			s, ok := v.typ.Underlying().(*types.Struct)
			if !ok || lockField(v.typ) < 0 {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
					continue
				}
				for _, n := range []int64{65534, 65535} {
					for _, fn := range []string{"NewFileID", "NewFakeFileID"} {
						x := r.fx(syn+"."+fn, "ids")
						x.st.heap["new:all"] = mkSym("all", nil)
						sl := intern(&Term{op: "slice", args: []*Term{mkPtr("new:all", nil), mkInt(0, nil), mkInt(n, nil)}, typ: s.Field(i).Type()})
						x.st.heap[obj] = setPath(v, []*Term{mkInt(int64(i), nil)}, sl)
						vp := x.alloc("v", x.mk(vt, map[string]*Term{"Path": mkSym("p", strT)}), vt)
						args := []*Term{vp}
						if fn == "NewFileID" {
							args = []*Term{zero(newID.Params[0].Type()), vp}
						}
						outs := x.call(syn+"."+fn, x.st, args...)
						for _, o := range outs {
							full++
							if n == 65535 {
								r.check(o.panic, "exhausted", fn, r.w.posOf(r.fn(syn+"."+fn)), "%s returns %s although all ids are in use", fn, o.val)
							} else {
								id, _ := o.val.intVal()
								r.check(!o.panic && id == 65535, "exhausted", fn+": last id", r.w.posOf(r.fn(syn+"."+fn)), "%s does not return the last id", fn)
							}
						}
					}
				}
			}
		}
		if full == 0 {
			r.note("the table of ids is not a slice of the interner: exhaustion was not examined")
		}
		_ = fakeID
		// derived ids and their text
		var xs []*fx
		for _, m := range []string{"Join", "WithExtension", "String"} {
			for _, in := range []string{"none", "package"} {
				x := r.fx("("+syn+".FileID)."+m, "id-"+strings.ToLower(m))
				x.label("in", in)
				id := x.sym(0, "id")
				pt := r.fn("(" + syn + ".FileID).Spec").Signature.Results().At(0).Type()
				opt := zero(pt)
				if in == "package" {
					v := x.mk(ver, map[string]*Term{"Major": mkSym("major", r.needField(ver, "Major")), "Minor": mkSym("minor", r.needField(ver, "Minor")), "Patch": mkSym("patch", r.needField(ver, "Patch"))})
					sp := x.alloc("spec", x.mk(spec, map[string]*Term{"Namespace": mkSym("namespace", strT), "Name": mkSym("name", strT), "Version": v}), spec)
					delete(objNames, sp.name)
					opt = x.optOf(pt, sp)
				}
				vp := x.vpath("v")
				x.ip.Intrinsics["("+syn+".FileID).Spec"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) { return one(opt, st), true }
				x.ip.Intrinsics["("+syn+".FileID).VPath"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) { return one(vp, st), true }
				if m != "String" {
					x.pureFn(syn+".NewFileID", "id")
					x.u.Args = []*Term{id, mkSym("p", strT)}
				} else {
					x.u.Args = []*Term{id}
				}
				xs = append(xs, x)
			}
		}
		r.decideAll("derived", xs...)
		r.floor("locked", 4)
		r.floor("same", 300)
		r.check(len(seen) > 0, "locked", "accesses", "-", "no access to the guarded tables was found")
	}})
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}
