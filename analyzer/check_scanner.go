package main

import (
	"fmt"
	"strconv"
	"strings"
)

// The scanner: every operation on texts of unknown characters, from every
// position, with unknown predicates.

var widthSets = map[string]*RuneSet{"w1": widthClass[1], "w2": widthClass[2], "w3": widthClass[3], "w4": widthClass[4]}

// scanner is a scanner of a closed text with the given characters, before
// character cur.
func (x *fx) scanner(shape string, cells, cur int) *Term {
	text := x.textShape(shape, cells)
	for i, w := range strings.Fields(shape) {
		if s := widthSets[w]; s != nil {
			setCell(x.st, tapes["T"].cells[i], s)
		}
	}
	x.ip.Dyn = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Name != "dyn" || len(c.Args) != 2 || !strings.HasPrefix(c.Args[0].stable(), "cond") {
			return nil, false
		}
		return one(mkApp("cond", boolT, c.Args[1]), st), true
	}
	t := x.r.named("internal/scanner", "Scanner")
	x.label("cursor", fmt.Sprint(cur))
	x.ip.MaxVisits = cells + 3
	return x.alloc("scanner", x.mk(t, map[string]*Term{"text": text, "cursor": x.at(tapes["T"], cur, uintT)}), t)
}

func init() {
	register(&Property{ID: "T32", Run: func(w *World, r *Report) {
		S := "(*internal/scanner.Scanner)."
		const max = 6
		type arg func(x *fx) []*Term
		unit := func(xs *[]*fx, method, shape string, cells, cur int, label string, args arg) {
			x := r.fx(S+method, "scanner-"+method)
			x.label("text", strings.TrimSpace(shape))
			s := x.scanner(shape, cells, cur)
			if label != "" {
				x.label("arg", label)
			}
			x.u.Args = []*Term{s}
			if args != nil {
				x.u.Args = append(x.u.Args, args(x)...)
			}
			*xs = append(*xs, x)
		}
		each := func(method string, labels []string, args func(l string) arg) {
			var xs []*fx
			for n := 0; n <= max; n++ {
				for cur := 0; cur <= n; cur++ {
					for _, l := range labels {
						unit(&xs, method, strings.Repeat(" ANY", n), 7, cur, l, args(l))
					}
				}
			}
			r.decideAll("scan", xs...)
		}
		none := func(string) arg { return nil }
		for _, m := range []string{"Text", "Cursor", "Done", "Before", "After", "Peek", "Eat", "Uneat", "Clone"} {
			each(m, []string{""}, none)
		}
		str := func(l string) arg { return func(x *fx) []*Term { return []*Term{mkStr(strings.Trim(l, "'"))} } }
		for _, m := range []string{"At", "EatIf", "Expect", "EatUntil"} {
			each(m, []string{"''", "'a'", "'ab'", "'é'", "'aba'"}, str)
		}
		each("EatWhile", []string{"'a'", "'ab'", "'é'"}, str)
		for _, m := range []string{"AtFunc", "EatIfFunc", "EatWhileFunc", "EatUntilFunc"} {
			each(m, []string{"cond"}, func(string) arg { return func(x *fx) []*Term { return []*Term{x.sym(1, "cond")} } })
		}
		for _, m := range []string{"AtAny", "EatIfAny"} {
			each(m, []string{"none", "aé"}, func(l string) arg {
				return func(x *fx) []*Term {
					var el []*Term
					for _, c := range strings.TrimPrefix(l, "none") {
						el = append(el, mkInt(int64(c), runeT))
					}
					return []*Term{x.list("valid", x.typ(1), el...)}
				}
			})
		}
		for _, m := range []string{"Scout", "Locate"} {
			each(m, []string{"-5", "-3", "-2", "-1", "0", "1", "2", "3", "5"}, func(l string) arg {
				return func(x *fx) []*Term {
					n, _ := strconv.Atoi(l)
					return []*Term{mkInt(int64(n), intT)}
				}
			})
		}
		// positions which need not be between characters
		shapes := []string{"", "w1", "w2", "w3", "w4", "w3 w1", "w2 w2", "w1 w4", "w1 w2 w3", "w4 w3", "w2 w1 w2"}
		for _, m := range []string{"Jump", "From", "To", "Get"} {
			var xs []*fx
			for _, s := range shapes {
				ws := strings.Fields(s)
				size := 0
				for _, w := range ws {
					size += int(w[1] - '0')
				}
				for cur := 0; cur <= len(ws); cur++ {
					for i := 0; i <= size+2; i++ {
						if m != "Get" {
							unit(&xs, m, s, 4, cur, fmt.Sprint(i), func(x *fx) []*Term { return []*Term{mkInt(int64(i), uintT)} })
							continue
						}
						for j := 0; j <= size+2 && cur == 0; j++ {
							unit(&xs, m, s, 4, cur, fmt.Sprint(i, "-", j), func(x *fx) []*Term {
								return []*Term{x.rng(1, mkInt(int64(i), nil), mkInt(int64(j), nil))}
							})
						}
					}
				}
			}
			r.decideAll("position", xs...)
		}
		x := r.fx("internal/scanner.New", "scanner-New")
		x.u.Args = []*Term{x.textShape("ANY ANY", 3)}
		r.decideAll("scan", x)
	}})
}
