package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// call runs a function in a state.
func (x *fx) call(full string, st *State, args ...*Term) []Outcome {
	x.ip.Enum = true
	if x.ip.MaxPaths == 0 {
		x.ip.MaxPaths = 60000
	}
	outs := x.ip.Call(x.r.fn(full), args, nil, st, "S")
	x.r.visited(x.ip)
	if x.ip.Failed != "" {
		x.r.check(false, "analysis", full, x.r.w.posOf(x.r.fn(full)), "undecided: %s", x.ip.Failed)
		return nil
	}
	return outs
}

// gives checks what a function gives in a state.
func (x *fx) gives(rule, what, full string, st *State, args []*Term, want ...*Term) {
	n := 0
	for _, o := range x.call(full, st.clone(), args...) {
		n++
		got := []*Term{o.val}
		if o.val != nil && o.val.op == "tuple" {
			got = o.val.args
		}
		ok := !o.panic && len(got) == len(want)
		var s []string
		for i := range got {
			if ok && want[i] != nil {
				w := want[i]
				if v, known := x.ip.truth(o.st, mkEq(got[i], w)); !known || !v {
					ok = canon(o.st, got[i]) == canon(o.st, w)
				}
			}
			if got[i] != nil {
				s = append(s, canon(o.st, got[i]))
			}
		}
		x.r.check(ok, rule, what+": "+x.r.w.Name(x.r.fn(full)), x.r.w.posOf(x.r.fn(full)), "%s gives %v (panic %v), not %v", full, s, o.panic, want)
	}
	x.r.check(n > 0, rule, what+": "+x.r.w.Name(x.r.fn(full))+" returns", x.r.w.posOf(x.r.fn(full)), "no outcome")
}

func init() {
	S := "(" + syn + ".Span)."
	register(&Property{ID: "T21", Run: func(w *World, r *Report) {
		one := func(unit, full string, args func(x *fx) []*Term) *fx {
			x := r.fx(full, unit)
			x.u.Args = args(x)
			return x
		}
		id := func(x *fx, i int) *Term {
			t := x.sym(i, "file")
			x.given(mkEq(t, mkInt(0, t.typ)), false)
			return t
		}
		none := func(x *fx) []*Term { return nil }
		self := func(x *fx) []*Term { return []*Term{x.sym(0, "span")} }
		var xs []*fx
		xs = append(xs,
			one("span-detached", syn+".NewDetachedSpan", none),
			one("span-from-number", syn+".NewSpanFromNumber", func(x *fx) []*Term { return []*Term{id(x, 0), x.sym(1, "number")} }),
			one("span-from-range", syn+".NewSpanFromRange", func(x *fx) []*Term {
				return []*Term{id(x, 0), x.rng(1, mkSym("start", u64), mkSym("end", u64))}
			}),
			one("span-from-uint64", syn+".NewSpanFromUint64", func(x *fx) []*Term { return []*Term{x.sym(0, "number")} }),
			one("span-is-detached", S+"IsDetached", self),
			one("span-id", S+"ID", self),
			one("span-number", S+"Number", self),
			one("span-raw-range", S+"RawRange", self),
			one("span-uint64", S+"Uint64", self),
			one("span-or", S+"Or", func(x *fx) []*Term { return []*Term{x.sym(0, "span"), x.sym(1, "other")} }),
			one("span-resolve", S+"ResolvePath", func(x *fx) []*Term {
				x.pureFn("("+syn+".FileID).Join", "join")
				return []*Term{x.sym(0, "span"), x.sym(1, "path")}
			}),
			one("file-id-from", syn+".FileIDFromUint16", func(x *fx) []*Term { return []*Term{x.sym(0, "number")} }),
			one("file-id-number", "("+syn+".FileID).Uint16", func(x *fx) []*Term { return []*Term{x.sym(0, "file")} }),
		)
		r.decideAll("span", xs...)
		// the parts of a span are those it was made of
		x := one("round-trip", syn+".NewSpanFromNumber", func(x *fx) []*Term { return []*Term{id(x, 0), x.sym(1, "number")} })
		file, num := x.u.Args[0], x.u.Args[1]
		n := 0
		for _, o := range x.call(syn+".NewSpanFromNumber", x.st.clone(), file, num) {
			if !r.check(!o.panic, "round-trip", "NewSpanFromNumber", w.posOf(x.fn), "panics") {
				continue
			}
			s, ok := o.val.args[0], o.val.args[1]
			if !ok.isTrue() {
				continue
			}
			n++
			x.gives("round-trip", "numbered span", S+"ID", o.st, []*Term{s}, file, mkBool(true))
			x.gives("round-trip", "numbered span", S+"Number", o.st, []*Term{s}, num)
			x.gives("round-trip", "numbered span", S+"RawRange", o.st, []*Term{s}, nil, mkBool(false))
			x.gives("round-trip", "numbered span", S+"IsDetached", o.st, []*Term{s}, mkBool(false))
			other := mkSym("other", s.typ)
			x.gives("round-trip", "numbered span", S+"Or", o.st, []*Term{s, other}, s)
		}
		r.check(n == 1, "round-trip", "numbers in range", w.posOf(x.fn), "%d ways to number a span", n)
		x = one("round-trip", syn+".NewSpanFromRange", func(x *fx) []*Term { return []*Term{id(x, 0)} })
		file = x.u.Args[0]
		lo, hi := mkSym("start", u64), mkSym("end", u64)
		n = 0
		max := int64(1)<<23 - 1
		for _, o := range x.call(syn+".NewSpanFromRange", x.st.clone(), file, x.rng(1, lo, hi)) {
			if !r.check(!o.panic, "round-trip", "NewSpanFromRange", w.posOf(x.fn), "panics") {
				continue
			}
			n++
			part := func(t *Term) *Term {
				if x.ip.within(o.st, t, max+1) {
					return t
				}
				return mkInt(max, u64)
			}
			s := o.val
			x.gives("round-trip", fmt.Sprintf("range span %d", n), S+"ID", o.st, []*Term{s}, file, mkBool(true))
			x.gives("round-trip", fmt.Sprintf("range span %d", n), S+"RawRange", o.st, []*Term{s}, x.rng(1, part(lo), part(hi)), mkBool(true))
			x.gives("round-trip", fmt.Sprintf("range span %d", n), S+"IsDetached", o.st, []*Term{s}, mkBool(false))
		}
		r.check(n == 4, "round-trip", "ranges", w.posOf(x.fn), "%d ways to make a span of a range", n)
		x = one("round-trip", syn+".NewDetachedSpan", none)
		for _, o := range x.call(syn+".NewDetachedSpan", x.st.clone()) {
			x.gives("round-trip", "detached span", S+"ID", o.st, []*Term{o.val}, nil, mkBool(false))
			x.gives("round-trip", "detached span", S+"IsDetached", o.st, []*Term{o.val}, mkBool(true))
			x.gives("round-trip", "detached span", S+"RawRange", o.st, []*Term{o.val}, nil, mkBool(false))
		}
	}})
}

var _ = types.Typ
var _ *ssa.Function
