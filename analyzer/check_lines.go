package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Line tables and text positions.

var uintT types.Type = types.Typ[types.Uint]

// lines makes a line table of a text: the lines start at the given characters.
func (x *fx) lines(text *Term, t *tape, wide string, starts ...int) *Term {
	r := x.r
	lt, ln := r.named(syn, "Lines"), r.named(syn, "Line")
	var el []*Term
	for _, s := range starts {
		u := s + strings.Count(wide[:s], "w")
		el = append(el, x.mk(ln, map[string]*Term{"ByteIdx": x.at(t, s, uintT), "Utf16Idx": mkInt(int64(u), uintT)}))
	}
	return x.alloc("lines", x.mk(lt, map[string]*Term{"Text": text, "Lines": x.list("line list", r.needField(lt, "Lines"), el...)}), lt)
}

// shortText is a text with one character per letter: any (a), in the basic
// plane (b) or outside of it (w).
func (x *fx) shortText(name, chars string) (*Term, *tape) {
	n := len(chars)
	t := newTape(x.st, name, n, 4)
	x.st.ghost["end:"+name] = mkInt(1, nil)
	for i, c := range tapes[name].cells[:n] {
		switch chars[i] {
		case 'b':
			setCell(x.st, c, mkRuneSet([][2]rune{{0, 0xd7ff}, {0xe000, 0xffff}}))
		case 'w':
			setCell(x.st, c, mkRuneSet([][2]rune{{0x10000, 0x10ffff}}))
		}
	}
	x.u.St = x.st
	return t, tapes[name]
}

// planes lists the ways in which n characters are in the basic plane or not.
func planes(n int) []string {
	r := []string{""}
	for ; n > 0; n-- {
		var q []string
		for _, s := range r {
			q = append(q, s+"b", s+"w")
		}
		r = q
	}
	return r
}

// at is the byte position of a character.
func (x *fx) at(t *tape, i int, typ types.Type) *Term {
	m, off, _ := linParts(t.off(i))
	return mkLin(m, off, typ)
}

func init() {
	Ls := "(*" + syn + ".Lines)."
	register(&Property{ID: "T23", Run: func(w *World, r *Report) {
		// the table of a text
		var xs []*fx
		for n := 0; n <= 3; n++ {
			x := r.fx(syn+".NewLines", "lines-new")
			x.label("shape", fmt.Sprintf("text of %d characters", n))
			t, _ := x.shortText("text", "aaaa"[:n])
			x.u.Args = []*Term{t}
			xs = append(xs, x)
		}
		r.decideAll("lines", xs...)
		type tab struct {
			n      int
			starts []int
		}
		tabs := []tab{{0, []int{0}}, {2, []int{0}}, {2, []int{0, 1}}, {2, []int{0, 2}}, {3, []int{0, 1, 2}}, {3, []int{0, 2, 3}}}
		build := func(f, unit string, args func(x *fx, t *tape, n, k int) []*Term) []*fx {
			var xs []*fx
			for _, d := range tabs {
				for k := 0; k <= d.n+1; k++ {
					for _, w := range planes(d.n) {
						if args == nil && k > 0 {
							break
						}
						x := r.fx(Ls+f, unit)
						x.ip.Prune = true
						pos := fmt.Sprintf(", %d", k)
						if args == nil {
							pos = ""
						}
						x.label("shape", fmt.Sprintf("text %s, lines at %v%s", w, d.starts, pos))
						text, t := x.shortText("text", w)
						l := x.lines(text, t, w, d.starts...)
						x.u.Args = []*Term{l}
						if args != nil {
							a := args(x, t, d.n, k)
							if a == nil {
								break
							}
							x.u.Args = append(x.u.Args, a...)
						}
						xs = append(xs, x)
					}
				}
			}
			return xs
		}
		each := func(f, unit string, args func(x *fx, t *tape, n, k int) []*Term) {
			r.decideAll("lines", build(f, unit, args)...)
		}
		for _, f := range []string{"LenBytes", "LenUtf16", "LenLines"} {
			each(f, "lines-"+f, nil)
		}
		// the k-th character, or any position after the end
		pos := func(x *fx, t *tape, n, k int) []*Term {
			if k < n {
				return []*Term{x.at(t, k, uintT)}
			}
			end := x.at(t, n, uintT)
			p, _ := linAdd(end, mkSym("beyond", uintT), 1, uintT)
			x.given(mkEq(mkSym("beyond", uintT), mkInt(0, uintT)), false)
			return []*Term{p}
		}
		for _, f := range []string{"ByteToUtf16", "ByteToLine", "ByteToColumn", "ByteToLineColumn"} {
			each(f, "lines-"+f, pos)
		}
		xs = nil
		for line := 0; line <= 4; line++ {
			xs = append(xs, build("LineColumnToByte", "lines-LineColumnToByte", func(x *fx, t *tape, n, k int) []*Term {
				x.label("line", fmt.Sprint(line))
				return []*Term{mkInt(int64(line), uintT), mkInt(int64(k), uintT)}
			})...)
		}
		r.decideAll("lines", xs...)
		each("Utf16ToByte", "lines-Utf16ToByte", func(x *fx, t *tape, n, k int) []*Term {
			if k > 0 {
				return nil
			}
			return []*Term{x.sym(1, "utf16")}
		})
		for _, f := range []string{"LineToByte", "LineToRange"} {
			each(f, "lines-"+f, func(x *fx, t *tape, n, k int) []*Term { return []*Term{mkInt(int64(k), uintT)} })
		}

		// lines after an offset
		xs = nil
		for n := 0; n <= 3; n++ {
			x := r.fx(syn+".linesFrom", "lines-from")
			x.label("shape", fmt.Sprintf("text of %d characters", n))
			t, _ := x.shortText("text", "aaaa"[:n])
			x.u.Args = []*Term{x.sym(0, "byte offset"), x.sym(1, "utf16 offset"), t}
			xs = append(xs, x)
		}
		r.decideAll("lines", xs...)

		// edits: the lines after the start of the edit are computed anew
		xs = nil
		for _, d := range tabs {
			for i := 0; i <= d.n+1; i++ {
				for j := i; j <= d.n; j++ {
					for _, w := range planes(d.n) {
						x := r.fx(Ls+"Edit", "lines-edit")
						x.ip.Prune = true
						x.label("shape", fmt.Sprintf("text %s, lines at %v, %d to %d", w, d.starts, i, j))
						x.opaque(syn+".linesFrom", "lines from")
						text, t := x.shortText("text", w)
						l := x.lines(text, t, w, d.starts...)
						hi := min(j, d.n)
						if i > d.n {
							break
						}
						x.u.Args = []*Term{l, x.rng(1, x.at(t, i, u64), x.at(t, hi, u64)), x.sym(2, "with")}
						xs = append(xs, x)
					}
				}
			}
		}
		r.decideAll("edits", xs...)

		// the changed part of two texts
		xs = nil
		for n := 0; n <= 3; n++ {
			for m := 0; m <= 3; m++ {
				x := r.fx(Ls+"ReplacementRange", "lines-diff")
				x.ip.Prune = true
				x.label("shape", fmt.Sprintf("%d and %d bytes", n, m))
				old, new := mkSym("old", strT), mkSym("new", strT)
				x.given(mkEq(termLen(old), mkInt(int64(n), intT)), true)
				x.given(mkEq(termLen(new), mkInt(int64(m), intT)), true)
				lt := r.named(syn, "Lines")
				x.u.Args = []*Term{x.alloc("lines", x.mk(lt, map[string]*Term{"Text": old}), lt), new}
				xs = append(xs, x)
			}
		}
		r.decideAll("edits", xs...)

		x := r.fx(Ls+"Replace", "lines-replace")
		x.lookup(Ls+"ReplacementRange", "changed part")
		x.opaque(Ls+"Edit", "edit")
		lt := r.named(syn, "Lines")
		x.u.Args = []*Term{x.alloc("lines", x.mk(lt, map[string]*Term{"Text": mkSym("old", strT)}), lt), x.sym(1, "new")}
		r.decideAll("edits", x)
	}})
}
