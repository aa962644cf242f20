package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds of the analysis. Texts, trees and loops are followed up to a
// bound, so code which depends on a larger number, a longer text or the width of
// a counter would never show what it does. Every place where that may be is
// recorded: a comparison with a constant of which the analysis has seen only
// one outcome, and arithmetic on or a conversion to a narrow type which never
// wrapped around.

// bound is what the analysis has seen of an instruction.
type bound struct {
	key  string // what kind of place it is
	bits int    // 1: the one outcome, 2: the other
	n    int64  // the constant
	mark bool   // the other outcome does not matter
}

const bothWays = 3

func plainInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Kind() {
	case types.Uint8, types.Int32: // bytes and characters
		return false
	}
	return true
}

func narrowInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Int16, types.Uint16:
		return true
	}
	return false
}

func isGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.Global)
	return ok
}

// siteOf identifies what is recorded.
type siteOf struct {
	in   ssa.Instruction
	text string // a pattern
}

func (ip *Interp) see(in ssa.Instruction, key string, n int64, bits int) {
	p := siteOf{in: in}
	if strings.HasPrefix(key, "pattern ") {
		p.text = key
	}
	s := ip.sites[p]
	if s == nil {
		s = &bound{key: key, n: n}
		ip.sites[p] = s
	}
	s.add(&bound{key: key, n: n, bits: bits})
}

func (s *bound) add(o *bound) {
	s.bits |= o.bits
	s.mark = s.mark || o.mark || s.n != o.n // not a constant
}

// small constants are within the bounds of every analysis.
const small = 5

// seeBinOp records a comparison or an operation.
func (ip *Interp) seeBinOp(st *State, in *ssa.BinOp, x, y, res *Term) {
	op, a, b := in.Op, in.X, in.Y
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		if _, ok := a.(*ssa.Const); ok || isGlobal(a) && !isGlobal(b) {
			a, b, x, y = b, a, y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if _, ok := a.(*ssa.Const); ok {
			return
		}
		_, isC := b.(*ssa.Const)
		key, n := "", int64(0)
		if k, ok := y.intVal(); plainInt(a.Type()) {
			if !ok {
				ip.see(in, "number", -1, bothWays)
				return
			}
			switch op {
			case token.LSS, token.GEQ:
				key = "limit"
			case token.LEQ, token.GTR:
				key = "limit"
				k++
			default:
				key = "number"
			}
			n = k
		} else if s, ok := y.strVal(); ok && isC && (op == token.EQL || op == token.NEQ) {
			key, n = fmt.Sprintf("text %q", s), int64(len(s))
		} else {
			return
		}
		bits := bothWays
		if v, ok := ip.truth(st, res); ok {
			bits = 1
			if v {
				bits = 2
			}
		}
		if bits == bothWays && beyond(x, y, n) {
			bits = 1
		}
		ip.see(in, key, n, bits)
	case token.ADD, token.SUB, token.MUL, token.SHL:
		if !narrowInt(in.Type()) {
			return
		}
		bits := bothWays
		if res.isConst() && x.isConst() && y.isConst() {
			bits = 1
		}
		ip.see(in, "counter of type "+in.Type().Underlying().String(), small, bits)
	case token.REM, token.AND, token.AND_NOT:
		if _, ok := b.(*ssa.Const); !ok || !plainInt(a.Type()) {
			return
		}
		bits := bothWays
		if res.isConst() && x.isConst() {
			bits = 1
			if res != x && !constant.Compare(res.cst, token.EQL, x.cst) {
				bits = bothWays
			}
		}
		k, _ := y.intVal()
		ip.see(in, "wrap", k, bits)
	}
}

// beyond reports whether a text of the analysis is too short for a comparison
// with a constant to show both outcomes.
func beyond(x, y *Term, n int64) bool {
	if s, ok := y.strVal(); ok {
		if !isRope(x) {
			return false
		}
		t, lo, hi := x.ropeOf()
		k := len([]rune(s))
		return hi >= 0 && hi-lo != k || hi < 0 && lo+k > t.max
	}
	m, _, ok := linParts(x)
	if !ok {
		return false
	}
	for a := range m {
		if name, ok := strings.CutPrefix(a.name, "len:"); ok && a.op == "sym" && tapes[name] != nil && n > int64(4*tapes[name].max) {
			return true
		}
	}
	return false
}

// seeConvert records a conversion to a narrow type.
func (ip *Interp) seeConvert(in *ssa.Convert, x *Term) {
	if _, ok := in.X.(*ssa.Const); ok || !narrowInt(in.Type()) || !plainInt(in.X.Type()) {
		return
	}
	bits := bothWays
	if x.isConst() {
		bits = 1
	}
	ip.see(in, "narrowed to "+in.Type().Underlying().String(), small, bits)
}

// seeLimit records the use of min or max with a constant.
func (ip *Interp) seeLimit(st *State, in ssa.Instruction, c *ssa.CallCommon, a []*Term, name string) {
	if len(a) != 2 {
		return
	}
	for i, v := range c.Args {
		if _, ok := v.(*ssa.Const); !ok && !isGlobal(v) {
			continue
		}
		k, ok := a[i].intVal()
		if !ok {
			continue
		}
		bits := bothWays
		if v, ok := ip.truth(st, mkLt(a[1-i], a[i])); ok {
			bits = 1
			if v {
				bits = 2
			}
		}
		ip.see(in, name, k, bits)
	}
}

// seePattern records the search for a constant in a text.
func (ip *Interp) seePattern(in ssa.Instruction, f *ssa.Function, a []*Term) {
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" || len(a) < 2 || !isRope(a[0]) {
		return
	}
	switch f.Name() {
	case "Trim", "TrimLeft", "TrimRight", "IndexAny", "LastIndexAny", "ContainsAny": // sets of characters
		return
	}
	s, ok := a[1].strVal()
	if !ok {
		return
	}
	t, lo, hi := a[0].ropeOf()
	n, bits := len([]rune(s)), bothWays
	if hi >= 0 && hi-lo < n || hi < 0 && lo+n > t.max {
		bits = 1
	}
	ip.see(in, fmt.Sprintf("pattern %q", s), int64(len(s)), bits)
}

// seeIndex records an index into an array.
func (ip *Interp) seeIndex(in ssa.Instruction, arr types.Type, i ssa.Value, x *Term) {
	if p, ok := arr.Underlying().(*types.Pointer); ok {
		arr = p.Elem()
	}
	at, ok := arr.Underlying().(*types.Array)
	if _, c := i.(*ssa.Const); !ok || c {
		return
	}
	bits := bothWays
	if x.isConst() {
		bits = 1
	}
	ip.see(in, "array", at.Len(), bits)
}

// mergeSites adds what one run of the interpreter has seen.
func (r *Report) mergeSites(ip *Interp) {
	for p, s := range ip.sites {
		if p.in.Parent() == nil || !r.w.Own(p.in.Parent()) {
			continue
		}
		if r.sites[p] == nil {
			r.sites[p] = &bound{key: s.key, n: s.n}
		}
		r.sites[p].add(s)
	}
}

// bounds decides that the analysis has seen everything that depends on a
// constant.
func (r *Report) bounds() {
	key := func(p siteOf, s *bound) string {
		if strings.HasPrefix(s.key, "text ") || p.text != "" || strings.Contains(s.key, " to") || strings.Contains(s.key, " of") {
			return s.key
		}
		return fmt.Sprintf("%s %d", s.key, s.n)
	}
	// The code of a function which went where it was called is there as often as
	// it was called: both outcomes have to be seen in one of the places, or where
	// the function is analysed on its own.
	moved := map[string]bool{}
	for p, s := range r.sites {
		if s.bits == bothWays && len(r.w.Restored) > 0 {
			moved[key(p, s)] = true
		}
	}
	for p, s := range r.sites {
		in := p.in
		if s.n < small || s.mark || s.bits == bothWays && s.n < 0 {
			continue
		}
		key := key(p, s)
		ok := s.bits == bothWays || moved[key]
		if os.Getenv("TYPASTCHECK_BOUNDS") != "" && !ok {
			fmt.Fprintf(os.Stderr, "BOUND %s %s|%d %s %s\n", r.ID, key, s.bits, in.Parent().Name(), r.w.Pos(in.Pos()))
		}
		if reviewedBounds[r.ID+" "+key] || scheme[r.ID] && strings.Contains(p.text, "ttp") {
			ok = true
		}
		r.check(ok, "bound", key+" in "+r.w.Name(in.Parent()), r.w.Pos(in.Pos()), "what happens beyond the bounds of the analysis must not differ: both outcomes at a constant (%s) have to be seen", key)
	}
}

// reviewedBounds are the places of which one outcome is not analysed.
var reviewedBounds = map[string]bool{
	"T30 counter of type uint16": true, // an overflow is detected
	"T30 narrowed to uint16":     true,
	// which keyword a word is does not matter for the text it consumes
	"T10 text \"continue\"": true, "T10 text \"context\"": true, "T10 text \"return\"": true,
	"T10 text \"import\"": true, "T10 text \"include\"": true,
	"T37 text \"bibliography\"": true, // other functions have no such arguments
}

// scheme are the checks which follow texts shorter than the scheme of a link:
// what makes a link is decided by T08.
var scheme = map[string]bool{"T05": true, "T09": true, "T10": true}
