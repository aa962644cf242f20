package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Lists, stacks, options, ranges and character classes.

// instance is a used instance of a generic function: the given parts of its
// name around the type argument.
func (r *Report) instance(pre, post string) string {
	for _, n := range sortedKeys(r.w.ByName) {
		if a, ok := strings.CutPrefix(n, pre); ok {
			if a, ok = strings.CutSuffix(a, post); ok && a != "T" && !strings.Contains(a, ")") {
				return n
			}
		}
	}
	return pre + "T" + post
}

func init() {
	register(&Property{ID: "T33", Run: func(w *World, r *Report) {
		// lists
		V := func(m string) string { return r.instance("(*internal/vector.Vector[", "])."+m) }
		type arg func(x *fx) []*Term
		elems := func(x *fx, t types.Type, pre string, n int) *Term {
			var el []*Term
			var et types.Type = intT
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			for i := 0; i < n; i++ {
				el = append(el, mkSym(fmt.Sprint(pre, i), et))
			}
			l := x.list(pre, t, el...)
			delete(x.objs, "new:"+pre)
			return l
		}
		ptrElem := func(x *fx, i int) types.Type {
			p, ok := x.typ(i).Underlying().(*types.Pointer)
			if !ok {
				r.check(false, "anchor", w.Name(x.fn), w.posOf(x.fn), "receiver is not a pointer")
				panic(abort{})
			}
			return p.Elem()
		}
		var xs []*fx
		vec := func(m string, n int, label string, args arg) {
			x := r.fx(V(m), "vector-"+m)
			x.ip.InPlace = true
			x.label("shape", fmt.Sprintf("%d elements, %s", n, label))
			vt := ptrElem(x, 0)
			x.u.Args = []*Term{x.alloc("list", elems(x, vt, "e", n), vt)}
			if args != nil {
				x.u.Args = append(x.u.Args, args(x)...)
			}
			xs = append(xs, x)
		}
		for n := 0; n <= 4; n++ {
			vec("Push", n, "push", func(x *fx) []*Term { return []*Term{x.sym(1, "new")} })
			for i := 0; i <= n; i++ {
				vec("Insert", n, fmt.Sprint("at ", i), func(x *fx) []*Term { return []*Term{mkInt(int64(i), intT), x.sym(2, "new")} })
				vec("Truncate", n, fmt.Sprint("to ", i), func(x *fx) []*Term { return []*Term{mkInt(int64(i), intT)} })
				for j := i; j <= n; j++ {
					vec("Drain", n, fmt.Sprint("from ", i, " to ", j), func(x *fx) []*Term {
						return []*Term{x.rng(1, mkInt(int64(i), nil), mkInt(int64(j), nil))}
					})
				}
			}
			for k := 0; k <= 2; k++ {
				vec("ExtendFromSlice", n, fmt.Sprint("by ", k), func(x *fx) []*Term { return []*Term{elems(x, x.typ(1), "more", k)} })
			}
		}
		r.decideAll("list", xs...)
		// stacks
		xs = nil
		for _, m := range []string{"Push", "Pop", "Size", "IsEmpty"} {
			for n := 0; n <= 3; n++ {
				x := r.fx(r.instance("(*internal/stack.SliceStack[", "])."+m), "stack-"+m)
				x.label("shape", fmt.Sprint(n))
				st := ptrElem(x, 0)
				x.u.Args = []*Term{x.alloc("stack", x.mk(st, map[string]*Term{"data": elems(x, r.needField(st, "data"), "e", n)}), st)}
				if m == "Push" {
					x.u.Args = append(x.u.Args, x.sym(1, "new"))
				}
				xs = append(xs, x)
			}
		}
		xs = append(xs, r.fx(r.instance("internal/stack.New[", "]"), "stack-New"))
		r.decideAll("stack", xs...)
		// options
		xs = nil
		for _, m := range []string{"IsPresent", "Get", "MustGet", "Clone"} {
			for _, v := range []string{"none", "some"} {
				x := r.fx(r.instance("(internal/option.Option[", "])."+m), "option-"+m)
				x.label("shape", v)
				o := zero(x.typ(0))
				if v == "some" {
					s := x.typ(0).Underlying().(*types.Struct)
					p, ok := s.Field(0).Type().Underlying().(*types.Pointer)
					if !r.check(ok, "anchor", "Option", "-", "value is not a pointer") {
						panic(abort{})
					}
					o = x.some(0, mkSym("value", p.Elem()))
				}
				x.u.Args = []*Term{o}
				xs = append(xs, x)
			}
		}
		x := r.fx(r.instance("internal/option.Some[", "]"), "option-Some")
		x.u.Args = []*Term{x.sym(0, "value")}
		xs = append(xs, x, r.fx(r.instance("internal/option.None[", "]"), "option-None"))
		r.decideAll("option", xs...)
		// ranges
		xs = nil
		for _, m := range []string{"IsEmpty", "Len"} {
			x := r.fx("(*internal/ranges.Range)."+m, "range-"+m)
			x.ip.Prune = true
			t := r.named("internal/ranges", "Range")
			x.u.Args = []*Term{x.alloc("range", x.mk(t, map[string]*Term{"Start": mkSym("start", u64), "End": mkSym("end", u64)}), t)}
			xs = append(xs, x)
		}
		x = r.fx("internal/ranges.NewRange", "range-New")
		x.u.Args = []*Term{mkSym("start", u64), mkSym("end", u64)}
		r.decideAll("range", append(xs, x)...)
		// numbers
		x = r.fx("internal/mathx.NextPowerOfTwo", "power")
		x.ip.MaxVisits = 70
		x.u.Args = []*Term{mkSym("x", u64)}
		r.decideAll("power", x)
		// characters
		xs = nil
		for _, m := range []string{"IsWhitespace", "IsAsciiLowercase", "IsAsciiUppercase", "IsAsciiAlphabetic", "IsAsciiDigit", "IsAsciiAlphanumeric", "IsAsciiHexdigit", "IsAlphabetic", "IsNumeric", "IsAlphanumeric"} {
			x := r.fx("internal/stdx."+m, "char-"+m)
			x.textShape("ANY", 2)
			x.u.Args = []*Term{tapes["T"].cells[0]}
			xs = append(xs, x)
		}
		r.decideAll("character", xs...)
		xs = nil
		for _, s := range []string{"", "w1", "w2", "w3", "w4", "w3 w1", "w2 w2", "w1 w4", "w1 w2 w3"} {
			size := 0
			for _, w := range strings.Fields(s) {
				size += int(w[1] - '0')
			}
			for i := 0; i <= size+1; i++ {
				x := r.fx("internal/stdx.IsCharBoundary", "char-boundary")
				x.label("shape", s+" ")
				x.label("index", fmt.Sprint(i))
				t := x.textShape(s, 4)
				for i, w := range strings.Fields(s) {
					setCell(x.st, tapes["T"].cells[i], widthSets[w])
				}
				x.u.Args = []*Term{t, mkInt(int64(i), uintT)}
				xs = append(xs, x)
			}
		}
		r.decideAll("character", xs...)
	}})
}
