package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files: virtual paths and interned file ids.

// vpath is a virtual path with an unknown cleaned path.
func (x *fx) vpath(name string) *Term {
	t := x.r.named(syn, "VirtualPath")
	s := mkSym("path of "+name, strT)
	x.st.ghost["cleanpath:"+s.stable()] = mkInt(1, nil)
	return x.alloc(name, x.mk(t, map[string]*Term{"Path": s}), t)
}

func init() {
	register(&Property{ID: "T29", Run: func(w *World, r *Report) {
		vt := r.named(syn, "VirtualPath")
		text := mkSym("p", strT)
		var xs []*fx
		x := r.fx(syn+".NewVirtualPath", "path-new")
		x.u.Args = []*Term{text}
		xs = append(xs, x)
		for _, full := range []string{"(*" + syn + ".VirtualPath).Join", "(*" + syn + ".VirtualPath).WithExtension"} {
			unit := "path-" + strings.ToLower(full[strings.LastIndex(full, ".")+1:])
			x := r.fx(full, unit)
			x.u.Args = []*Term{x.vpath("v"), text}
			xs = append(xs, x)
		}
		r.decideAll("path", xs...)
		// no other function makes paths which are not rooted
		seen := map[*ssa.Function]bool{}
		for _, x := range xs {
			for f := range x.ip.Visited {
				seen[f] = true
			}
		}
		isPath := func(t types.Type) bool {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			return types.Identical(t, vt)
		}
		rooted := func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.UnOp:
				if f, ok := v.X.(*ssa.FieldAddr); ok {
					return isPath(f.X.Type())
				}
			case *ssa.Field:
				return isPath(v.X.Type())
			case *ssa.Const:
				return v.Value != nil && strings.HasPrefix(v.Value.ExactString(), `"/`) && !strings.Contains(v.Value.ExactString(), "..")
			}
			return false
		}
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !isPath(fa.X.Type()) {
						continue
					}
					r.check(seen[f] || rooted(s.Val), "maker", w.Name(f), w.Pos(in.Pos()), "%s stores a virtual path which is not known to be rooted and clean", w.Name(f))
				}
			}
		}
		r.floor("maker", 1)
	}})
}
