package main

import (
	"errors"
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Models of library functions used by the lexer on abstract texts: number
// parsing and grapheme segmentation.

func nilErr() *Term { return mkNil(types.Universe.Lookup("error").Type()) }

func newErr(kind, msg string) *Term {
	return mkIface(errDyn, mkApp(kind, nil, mkStr(msg)), types.Universe.Lookup("error").Type())
}

// digits explores the characters cs[i:] from a state; ok reports whether all of
// them are digits of the base.
func (ip *Interp) allIn(st *State, cs []*Term, set *RuneSet, k func(*State, bool)) {
	if len(cs) == 0 {
		k(st, true)
		return
	}
	for _, b := range ip.split(st, mkInSet(cs[0], set)) {
		if b.v {
			ip.allIn(b.st, cs[1:], set, k)
		} else {
			k(b.st, false)
		}
	}
}

func digitSet(base int64) *RuneSet {
	return predSet(fmt.Sprintf("digits of base %d", base), func(r rune) bool {
		v := int64(99)
		switch {
		case r >= '0' && r <= '9':
			v = int64(r - '0')
		case r >= 'a' && r <= 'z':
			v = int64(r-'a') + 10
		case r >= 'A' && r <= 'Z':
			v = int64(r-'A') + 10
		}
		return v < base
	})
}

func parseIntModel(signed bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		x := c.Args[0]
		if isBytes(x) {
			x = x.args[0]
		}
		base, ok1 := c.Args[1].intVal()
		bits, ok2 := c.Args[2].intVal()
		if !ok1 || !ok2 || base == 0 || !isRope(x) && !x.isConst() || !ip.Enum {
			return nil, false
		}
		rt := c.Type.(*types.Tuple).At(0).Type()
		if s, ok := x.strVal(); ok {
			var v int64
			var err error
			if signed {
				v, err = strconv.ParseInt(s, int(base), int(bits))
			} else {
				var u uint64
				u, err = strconv.ParseUint(s, int(base), int(bits))
				v = int64(u)
			}
			switch {
			case errors.Is(err, strconv.ErrRange):
				return one(mkTuple(mkInt(v, rt), newErr("rangeerror", "value out of range")), st), true
			case err != nil:
				return one(mkTuple(mkInt(0, rt), newErr("syntaxerror", "invalid syntax")), st), true
			}
			return one(mkTuple(mkInt(v, rt), nilErr()), st), true
		}
		outs := []Outcome{}
		bad := func(s *State) {
			outs = append(outs, Outcome{val: mkTuple(mkInt(0, rt), newErr("syntaxerror", "invalid syntax")), st: s})
		}
		for _, s := range ip.finite(st, x) {
			cs, _ := ropeCells(s, x)
			var digits func(s *State, cs []*Term)
			digits = func(s *State, ds []*Term) {
				if len(ds) == 0 {
					bad(s)
					return
				}
				ip.allIn(s, ds, digitSet(base), func(s *State, ok bool) {
					if !ok {
						bad(s)
						return
					}
					val := mkApp(fmt.Sprintf("int%d", base), rt, x)
					// the value fits if there are few digits
					max := 1.0
					for range ds {
						max *= float64(base)
					}
					lim := 1.0
					for i := int64(0); i < bits; i++ {
						lim *= 2
					}
					if signed {
						lim /= 2
					}
					good := Outcome{val: mkTuple(val, nilErr()), st: s}
					if max <= lim {
						outs = append(outs, good)
						return
					}
					for _, b := range ip.split(s, mkApp(fmt.Sprintf("overflows%d", bits), boolT, val)) {
						if b.v {
							outs = append(outs, Outcome{val: mkTuple(val, newErr("rangeerror", "value out of range")), st: b.st})
						} else {
							outs = append(outs, Outcome{val: mkTuple(val, nilErr()), st: b.st})
						}
					}
				})
			}
			if signed && len(cs) > 0 {
				for _, b := range ip.split(s, mkInSet(cs[0], runes('+', '-'))) {
					if b.v {
						digits(b.st, cs[1:])
					} else {
						digits(b.st, cs)
					}
				}
			} else {
				digits(s, cs)
			}
		}
		return outs, true
	}
}

func isBytes(x *Term) bool {
	return x.op == "app" && (x.name == "bytes" || x.name == "runes") && len(x.args) == 1
}

// parseFloatModel decides the syntax of decimal floating-point literals.
func parseFloatModel(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
	x := c.Args[0]
	rt := types.Typ[types.Float64]
	if s, ok := x.strVal(); ok {
		if _, err := strconv.ParseFloat(s, 64); errors.Is(err, strconv.ErrSyntax) {
			return one(mkTuple(mkInt(0, rt), newErr("syntaxerror", "invalid syntax")), st), true
		}
	}
	if !isRope(x) || !ip.Enum {
		return nil, false
	}
	outs := []Outcome{}
	dig := digitSet(10)
	for _, s := range ip.finite(st, x) {
		cs, _ := ropeCells(s, x)
		done := func(s *State, ok, big bool) {
			val := mkApp("float", rt, x)
			if !ok {
				outs = append(outs, Outcome{val: mkTuple(mkInt(0, rt), newErr("syntaxerror", "invalid syntax")), st: s})
				return
			}
			if !big {
				outs = append(outs, Outcome{val: mkTuple(val, nilErr()), st: s})
				return
			}
			for _, b := range ip.split(s, mkApp("overflows", boolT, val)) {
				e := nilErr()
				if b.v {
					e = newErr("rangeerror", "value out of range")
				}
				outs = append(outs, Outcome{val: mkTuple(val, e), st: b.st})
			}
		}
		// states: 0 start, 1 sign, 2 digits, 3 dot without digits before, 4 dot
		// after digits or fraction digits, 5 e, 6 e sign, 7 exponent digits
		var step func(s *State, i, q int)
		step = func(s *State, i, q int) {
			if i == len(cs) {
				done(s, q == 2 || q == 4 || q == 7, q == 7)
				return
			}
			type cls struct {
				set  *RuneSet
				next [8]int
			}
			classes := []cls{
				{dig, [8]int{2, 2, 2, 4, 4, 7, 7, 7}},
				{runes('.'), [8]int{3, 3, 4, -1, -1, -1, -1, -1}},
				{runes('e', 'E'), [8]int{-1, -1, 5, -1, 5, -1, -1, -1}},
				{runes('+', '-'), [8]int{1, -1, -1, -1, -1, 6, -1, -1}},
			}
			var rec func(s *State, k int)
			rec = func(s *State, k int) {
				if k == len(classes) {
					// other characters: an infinity, a NaN or a hexadecimal
					// literal, or no literal at all
					var special *RuneSet
					switch {
					case q < 2:
						special = runes('i', 'I', 'n', 'N')
					case q == 2:
						special = runes('x', 'X')
					default:
						done(s, false, false)
						return
					}
					for _, b := range ip.split(s, mkInSet(cs[i], special)) {
						if !b.v {
							done(b.st, false, false)
							continue
						}
						for _, b := range ip.split(b.st, mkApp("isfloat", boolT, x)) {
							done(b.st, b.v, false)
						}
					}
					return
				}
				for _, b := range ip.split(s, mkInSet(cs[i], classes[k].set)) {
					if !b.v {
						rec(b.st, k+1)
						continue
					}
					if n := classes[k].next[q]; n < 0 {
						done(b.st, false, false)
					} else {
						step(b.st, i+1, n)
					}
				}
			}
			rec(s, 0)
		}
		step(s, 0, 0)
	}
	return outs, true
}

func init() {
	stdModels["strconv.ParseInt"] = parseIntModel(true)
	stdModels["strconv.ParseUint"] = parseIntModel(false)
	stdModels["strconv.ParseFloat"] = parseFloatModel
	stdModels["strconv.Atoi"] = nil
	delete(stdModels, "strconv.Atoi")
	isErr := func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		a, b := c.Args[0], c.Args[1]
		if a.op == "nil" {
			return one(mkBool(b.op == "nil"), st), true
		}
		if a.op == "iface" && a.typ2 == errDyn && a.args[0].op == "app" {
			switch a.args[0].name {
			case "rangeerror":
				return one(mkBool(b.op == "sym" && b.name == "@g:strconv.ErrRange"), st), true
			case "syntaxerror":
				return one(mkBool(b.op == "sym" && b.name == "@g:strconv.ErrSyntax"), st), true
			}
		}
		return nil, false
	}
	stdModels["errors.Is"] = isErr
	stdModels["github.com/pkg/errors.Is"] = isErr
	// Grapheme clusters: a cluster of a non-empty text has at least one
	// character; how many is left open (up to two within the bounds).
	seg := "github.com/clipperhouse/uax29/graphemes."
	stdModels[seg+"NewSegmenter"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		x := c.Args[0]
		if isBytes(x) {
			x = x.args[0]
		}
		if !isRope(x) && !x.isConst() || !ip.Enum {
			return nil, false
		}
		obj := "new:seg:" + c.Ctx
		st.heap[obj] = mkTuple(x, mkStr(""))
		return one(mkPtr(obj, c.Type), st), true
	}
	next := func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		p := c.Args[0]
		v := st.heap[p.name]
		if p.op != "ptr" || v == nil || v.op != "tuple" {
			return nil, false
		}
		rest := v.args[0]
		if s, ok := rest.strVal(); ok {
			if s == "" {
				return one(mkBool(false), st), true
			}
			return nil, false
		}
		t, lo, hi := rest.ropeOf()
		y, ns := ip.need(st, t, lo)
		outs := []Outcome{}
		for _, n := range ns {
			outs = append(outs, Outcome{val: mkBool(false), st: n})
		}
		if y == nil {
			return outs, true
		}
		set := func(s *State, n int) {
			s.heap[p.name] = mkTuple(mkRope(t.name, lo+n, hi), mkRope(t.name, lo, lo+n))
			outs = append(outs, Outcome{val: mkBool(true), st: s})
		}
		if hi >= 0 && hi == lo+1 {
			set(y, 1)
			return outs, true
		}
		y2, ns2 := ip.need(y, t, lo+1)
		for _, n := range ns2 {
			set(n, 1)
		}
		if y2 != nil {
			for _, b := range ip.split(y2, mkApp("cluster2", boolT, t.cells[lo], t.cells[lo+1])) {
				if b.v {
					set(b.st, 2)
				} else {
					set(b.st, 1)
				}
			}
		}
		return outs, true
	}
	bytes := func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		p := c.Args[0]
		v := st.heap[p.name]
		if p.op != "ptr" || v == nil || v.op != "tuple" {
			return nil, false
		}
		if c.Name[strings.LastIndex(c.Name, ".")+1:] == "Text" {
			return one(v.args[1], st), true
		}
		return one(mkApp("bytes", c.Type, v.args[1]), st), true
	}
	for _, k := range []string{"(*github.com/clipperhouse/uax29/iterators.Segmenter).", "(*github.com/clipperhouse/uax29/graphemes.Segmenter).",
		"(*github.com/clipperhouse/uax29/iterators/segmenter.Segmenter)."} {
		stdModels[k+"Next"] = next
		stdModels[k+"Bytes"] = bytes
		stdModels[k+"Text"] = bytes
	}
	stdModels["unicode/utf8.DecodeRuneInString"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		x := c.Args[0]
		if s, ok := x.strVal(); ok {
			r, n := firstRune(s)
			return one(mkTuple(mkInt(int64(r), runeT), mkInt(int64(n), intT)), st), true
		}
		if !isRope(x) || !ip.Enum {
			return nil, false
		}
		t, lo, hi := x.ropeOf()
		_ = hi
		y, ns := ip.need(st, t, lo)
		outs := []Outcome{}
		for _, n := range ns {
			outs = append(outs, Outcome{val: mkTuple(mkInt(0xFFFD, runeT), mkInt(0, intT)), st: n})
		}
		if y != nil {
			outs = append(outs, Outcome{val: mkTuple(t.cells[lo], mkRl(t.cells[lo])), st: y})
		}
		return outs, true
	}
	stdModels["unicode/utf8.DecodeLastRuneInString"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		x := c.Args[0]
		if s, ok := x.strVal(); ok {
			r, n := utf8.DecodeLastRuneInString(s)
			return one(mkTuple(mkInt(int64(r), runeT), mkInt(int64(n), intT)), st), true
		}
		if !isRope(x) || !ip.Enum {
			return nil, false
		}
		outs := []Outcome{}
		for _, s := range ip.finite(st, x) {
			cs, _ := ropeCells(s, x)
			if len(cs) == 0 {
				outs = append(outs, Outcome{val: mkTuple(mkInt(0xFFFD, runeT), mkInt(0, intT)), st: s})
				continue
			}
			l := cs[len(cs)-1]
			outs = append(outs, Outcome{val: mkTuple(l, mkRl(l)), st: s})
		}
		return outs, true
	}
	stdModels["unicode/utf8.DecodeLastRune"] = nil
	delete(stdModels, "unicode/utf8.DecodeLastRune")
	stdModels["unicode/utf8.ValidString"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return one(mkBool(true), st), true // texts are valid UTF-8
	}
	_ = unicode.IsDigit
}
