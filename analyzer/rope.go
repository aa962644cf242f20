package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/smasher164/xid"
)

// Ropes: the abstract domain of source texts. A tape is a text whose
// characters are abstracted by character sets; a prefix of the tape is known to
// exist, and the text may or may not be known to end there. A rope is a
// substring of a tape whose ends are character boundaries.
//
//	rope|T lo hi   characters lo..hi-1 of tape T; hi -1: to the end of the text
//
// Byte offsets are linear terms over the encoded lengths rl(c) of the
// characters and the length len:T of the text.

// maxCells bounds the part of a text that is looked at; analysis paths which
// need more are cut and counted.
type tape struct {
	name  string
	max   int
	cells []*Term
	offs  []*Term
}

var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]
var strT = types.Typ[types.String]
var runeT = types.Typ[types.Rune]

var cellOf = map[*Term]struct {
	t *tape
	i int
}{}

var tapes = map[string]*tape{}

// newTape declares tape name of which the first known characters exist.
func newTape(st *State, name string, known, maxCells int) *Term {
	for c, x := range cellOf {
		if x.t.name == name {
			delete(cellOf, c)
		}
	}
	t := &tape{name: name, max: maxCells}
	for i := 0; i < maxCells; i++ {
		c := mkSym(fmt.Sprintf("%s.%d", name, i), runeT)
		t.cells = append(t.cells, c)
		cellOf[c] = struct {
			t *tape
			i int
		}{t, i}
	}
	tapes[name] = t
	st.ghost["tape:"+name] = mkInt(int64(known), nil)
	return mkRope(name, 0, -1)
}

func mkRope(t string, lo, hi int) *Term {
	if lo == hi {
		return mkStr("")
	}
	return intern(&Term{op: "rope", name: t, args: []*Term{mkInt(int64(lo), nil), mkInt(int64(hi), nil)}, typ: strT})
}

func isRope(t *Term) bool { return t != nil && t.op == "rope" }

func (t *Term) ropeOf() (tp *tape, lo, hi int) {
	l, _ := t.args[0].intVal()
	h, _ := t.args[1].intVal()
	return tapes[t.name], int(l), int(h)
}

// tapeState: m characters exist; ended: the text has exactly m characters.
func tapeState(st *State, t *tape) (m int, ended bool) {
	v, _ := st.ghost["tape:"+t.name].intVal()
	return int(v), st.ghost["end:"+t.name] != nil
}

// need decides whether character i exists; it may split the state: the text
// may end at different places before i.
func (ip *Interp) need(st *State, t *tape, i int) (yes *State, nos []*State) {
	for {
		m, ended := tapeState(st, t)
		if i < m {
			return st, nos
		}
		if ended {
			return nil, append(nos, st)
		}
		no := st.clone()
		no.forks++
		st.forks++
		no.ghost["end:"+t.name] = mkBool(true)
		nos = append(nos, no)
		if m+1 > t.max {
			ip.cut(st, "text")
			return nil, nos
		}
		st.ghost["tape:"+t.name] = mkInt(int64(m+1), nil)
	}
}

// cut records a path that leaves the analysed bounds.
func (ip *Interp) cut(st *State, why string) {
	ip.Cuts = append(ip.Cuts, st)
}

// convertRope converts a text to a list of characters.
func (ip *Interp) convertRope(st *State, x *Term, typ types.Type, name func(*State) string) ([]Outcome, bool) {
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Rune {
		return nil, false
	}
	if s, ok := x.strVal(); ok {
		var cs []*Term
		for _, r := range s {
			cs = append(cs, mkInt(int64(r), sl.Elem()))
		}
		return one(ip.newSlice(st, "new:"+name(st), typ, cs), st), true
	}
	if !isRope(x) {
		return nil, false
	}
	outs := []Outcome{}
	for _, s := range ip.finite(st, x) {
		cs, _ := ropeCells(s, x)
		outs = append(outs, Outcome{val: ip.newSlice(s, "new:"+name(s), typ, cs), st: s})
	}
	return outs, true
}

// callEvent treats a call as an event with an unknown result.
func (ip *Interp) callEvent(cc *CallCtx, st *State) []Outcome {
	var args []string
	for _, a := range cc.Args {
		args = append(args, canon(st, a))
	}
	n := len(st.ev)
	name := cc.Name
	st.event("%s(%s)", name, strings.Join(args, ", "))
	mk := func(i int, t types.Type) *Term { return mkSym(fmt.Sprintf("r%d.%d", n, i), t) }
	if tt, ok := cc.Type.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, mk(i, tt.At(i).Type()))
		}
		return one(mkTuple(rs...), st)
	}
	return one(mk(0, cc.Type), st)
}

func cellSet(st *State, c *Term) *RuneSet {
	if v, ok := st.ghost["cs:"+c.name].intValOK(); ok {
		return runeSetByID[v]
	}
	return allRunes
}

func (t *Term) intValOK() (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.intVal()
}

func setCell(st *State, c *Term, s *RuneSet) {
	st.ghost["cs:"+c.name] = mkInt(int64(s.id), nil)
}

// isCell reports whether a term is an abstract character (of a tape or a free
// one).
func isCell(t *Term) bool {
	return t != nil && t.op == "sym" && t.typ != nil && types.Identical(t.typ.Underlying(), runeT)
}

func mkRl(c *Term) *Term {
	if v, ok := c.intVal(); ok {
		return mkInt(int64(utf8.RuneLen(rune(v))), intT)
	}
	return mkApp("rl", intT, c)
}

// off is the byte offset of character i of the tape.
func (t *tape) off(i int) *Term {
	for len(t.offs) <= i {
		t.offs = append(t.offs, t.offset(len(t.offs)))
	}
	return t.offs[i]
}

func (t *tape) offset(i int) *Term {
	m := map[*Term]int64{}
	for k := 0; k < i; k++ {
		m[mkRl(t.cells[k])]++
	}
	return mkLin(m, 0, intT)
}

func lenSym(t string) *Term { return mkSym("len:"+t, intT) }

// ropeLen is the byte length of a rope.
func ropeLen(r *Term) *Term {
	t, lo, hi := r.ropeOf()
	if hi < 0 {
		return binop(token.SUB, lenSym(t.name), t.off(lo), intT)
	}
	return binop(token.SUB, t.off(hi), t.off(lo), intT)
}

// normLin replaces the lengths which are known in the state.
func normLin(st *State, x *Term) *Term {
	m, off, ok := linParts(x)
	if !ok || len(m) == 0 {
		return x
	}
	out := map[*Term]int64{}
	ch := false
	for a, c := range m {
		if a.op == "app" && a.name == "rl" {
			lo, hi := cellSet(st, a.args[0]).width()
			if lo == hi {
				off += c * int64(lo)
				ch = true
				continue
			}
		}
		if a.op == "sym" && strings.HasPrefix(a.name, "len:") {
			if t := tapes[a.name[4:]]; t != nil {
				if n, ended := tapeState(st, t); ended {
					mm, oo, _ := linParts(normLin(st, t.off(n)))
					for b, d := range mm {
						out[b] += c * d
					}
					off += c * oo
					ch = true
					continue
				}
			}
		}
		out[a] += c
	}
	if !ch {
		return x
	}
	return mkLin(out, off, x.typ)
}

// boundary finds the character whose byte offset is x (an absolute offset).
// If ambiguous on the width of a character, that character is returned.
func boundary(st *State, t *tape, x *Term) (int, bool) {
	m, _ := tapeState(st, t)
	x = normLin(st, x)
	for i := 0; i <= m; i++ {
		if d, ok := linDiff(x, normLin(st, t.off(i))); ok && d == 0 {
			return i, true
		}
	}
	return 0, false
}

// linBounds gives the bounds of a linear term over lengths.
func linBounds(st *State, x *Term) (lo, hi int64, hasLo, hasHi, ok bool) {
	m, off, isLin := linParts(x)
	if !isLin {
		return
	}
	lo, hi, hasLo, hasHi = off, off, true, true
	for a, c := range m {
		var l, h int64
		hasH := true
		switch {
		case a.op == "app" && a.name == "rl":
			w1, w2 := cellSet(st, a.args[0]).width()
			l, h = int64(w1), int64(w2)
		case a.op == "sym" && strings.HasPrefix(a.name, "len:") && tapes[a.name[4:]] != nil:
			// len = off(m) + R; express through R >= 0
			t := tapes[a.name[4:]]
			n, _ := tapeState(st, t)
			l, hasH = 0, false
			mm, oo, _ := linParts(normLin(st, t.off(n)))
			rest := map[*Term]int64{}
			for b, d := range m {
				if b != a {
					rest[b] = d
				}
			}
			for b, d := range mm {
				rest[b] += c * d
			}
			l2, h2, hl, hh, k := linBounds(st, mkLin(rest, off+c*oo, intT))
			if !k {
				return 0, 0, false, false, false
			}
			if c > 0 {
				return l2, 0, hl, false, true
			}
			return 0, h2, false, hh, true
		default:
			if unsignedT(a.typ) {
				l, hasH = 0, false
			} else {
				return 0, 0, false, false, false
			}
		}
		if c > 0 {
			lo += c * l
			if hasH {
				hi += c * h
			} else {
				hasHi = false
			}
		} else {
			hi += c * l
			if hasH {
				lo += c * h
			} else {
				hasLo = false
			}
		}
	}
	return lo, hi, hasLo, hasHi, true
}

func mentionsLen(x *Term) bool {
	m, _, ok := linParts(x)
	if !ok {
		return false
	}
	for a := range m {
		if a.op == "app" && a.name == "rl" || a.op == "sym" && strings.HasPrefix(a.name, "len:") {
			return true
		}
	}
	return false
}

// ---- character conditions ------------------------------------------------------

func mkInSet(c *Term, s *RuneSet) *Term {
	if v, ok := c.intVal(); ok {
		return mkBool(s.has(rune(v)))
	}
	if isCell(c) {
		if s.and(allRunes).empty() {
			return mkBool(false)
		}
		return mkApp("inrs", boolT, c, mkInt(int64(s.id), nil))
	}
	return nil
}

// cellOfCond strips an offset: c-k.
func cellLin(t *Term) (*Term, int64, bool) {
	if isCell(t) {
		return t, 0, true
	}
	if t.op == "lin" && len(t.args) == 1 && t.coefs[0] == 1 && isCell(t.args[0]) {
		return t.args[0], t.off, true
	}
	return nil, 0, false
}

func allButRange(lo, hi int64) *RuneSet {
	if lo < 0 {
		lo = 0
	}
	if hi > 0x10FFFF {
		hi = 0x10FFFF
	}
	if lo > hi {
		return mkRuneSet(nil)
	}
	return mkRuneSet([][2]rune{{rune(lo), rune(hi)}}).and(allRunes)
}

// runeCond interprets a condition as membership of one abstract character in a
// set.
func runeCond(c *Term) (*Term, *RuneSet, bool) {
	if c.op != "app" {
		return nil, nil, false
	}
	switch c.name {
	case "inrs":
		id, _ := c.args[1].intVal()
		return c.args[0], runeSetByID[id], true
	case "eq":
		for i := 0; i < 2; i++ {
			if f, m, ok := maskedByte(c.args[i], "firstbyte"); ok {
				if k, ok := c.args[1-i].intVal(); ok {
					return f.args[0], predSet(fmt.Sprintf("firstbyte & %d = %d", m, k), func(r rune) bool { return int64(string(r)[0])&m == k }), true
				}
			}
			if f := c.args[i]; f.op == "app" && f.name == "firstbyte" {
				if k, ok := c.args[1-i].intVal(); ok {
					return f.args[0], predSet(fmt.Sprintf("firstbyte %d", k), func(r rune) bool { return int64(string(r)[0]) == k }), true
				}
			}
		}
		for i := 0; i < 2; i++ {
			if x, o, ok := cellLin(c.args[i]); ok {
				if k, ok := c.args[1-i].intVal(); ok {
					return x, allButRange(k-o, k-o), true
				}
			}
		}
	case "lt":
		if f := c.args[0]; f.op == "app" && f.name == "firstbyte" {
			if k, ok := c.args[1].intVal(); ok {
				return f.args[0], predSet(fmt.Sprintf("firstbyte < %d", k), func(r rune) bool { return int64(string(r)[0]) < k }), true
			}
		}
		if f := c.args[1]; f.op == "app" && f.name == "firstbyte" {
			if k, ok := c.args[0].intVal(); ok {
				return f.args[0], predSet(fmt.Sprintf("firstbyte > %d", k), func(r rune) bool { return int64(string(r)[0]) > k }), true
			}
		}
		if x, o, ok := cellLin(c.args[0]); ok {
			if k, ok := c.args[1].intVal(); ok {
				if unsignedT(c.args[0].typ) && o < 0 {
					return x, allButRange(-o, k-o-1), true
				}
				return x, allButRange(0, k-o-1), true
			}
		}
		if x, o, ok := cellLin(c.args[1]); ok {
			if k, ok := c.args[0].intVal(); ok {
				return x, allButRange(k-o+1, 0x10FFFF), true
			}
		}
	case "not":
		if x, s, ok := runeCond(c.args[0]); ok {
			return x, s.not(), true
		}
	case "and", "or":
		x, s, ok := runeCond(c.args[0])
		y, r, ok2 := runeCond(c.args[1])
		if ok && ok2 && x == y {
			if c.name == "and" {
				return x, s.and(r), true
			}
			return x, s.or(r), true
		}
	case "sel":
		// table lookup
		if x := c.args[1]; isCell(x) && c.args[0].op == "array" {
			var iv [][2]rune
			for i, b := range c.args[0].args {
				if b.isTrue() {
					iv = append(iv, [2]rune{rune(i), rune(i)})
				} else if !b.isFalse() {
					return nil, nil, false
				}
			}
			return x, mkRuneSet(iv), true
		}
	}
	return nil, nil, false
}

// maskedByte interprets b & m.
func maskedByte(t *Term, name string) (*Term, int64, bool) {
	if t.op == "app" && t.name == "bin&" {
		for i := range t.args {
			if m, ok := t.args[i].intVal(); ok && t.args[1-i].op == "app" && t.args[1-i].name == name {
				return t.args[1-i], m, true
			}
		}
	}
	return nil, 0, false
}

// ropeTruth decides conditions on characters and offsets.
func ropeTruth(st *State, c *Term) (bool, bool) {
	if c.op == "app" && c.name == "eq" {
		for i := range c.args {
			if _, m, ok := maskedByte(c.args[i], "contbyte"); ok && m&0x3f == 0 {
				if k, ok := c.args[1-i].intVal(); ok {
					return 0x80&m == k, true
				}
			}
		}
	}
	if x, s, ok := runeCond(c); ok {
		p := cellSet(st, x)
		i := p.and(s)
		if i.empty() {
			return false, true
		}
		if i == p {
			return true, true
		}
		return false, false
	}
	if c.op != "app" || len(c.args) != 2 {
		return false, false
	}
	switch c.name {
	case "eq", "lt":
		a, b := c.args[0], c.args[1]
		if isRope(a) || isRope(b) {
			return false, false
		}
		if !mentionsLen(a) && !mentionsLen(b) {
			return false, false
		}
		d, ok := linAdd(a, b, -1, intT)
		if !ok {
			return false, false
		}
		d = normLin(st, d)
		if v, ok := d.intVal(); ok {
			if c.name == "eq" {
				return v == 0, true
			}
			return v < 0, true
		}
		lo, hi, hasLo, hasHi, ok := linBounds(st, d)
		if !ok {
			return false, false
		}
		if c.name == "eq" {
			if hasLo && lo > 0 || hasHi && hi < 0 {
				return false, true
			}
		} else {
			if hasHi && hi < 0 {
				return true, true
			}
			if hasLo && lo >= 0 {
				return false, true
			}
		}
	}
	return false, false
}

type branch struct {
	st *State
	v  bool
}

// split decides a condition, refining the state as needed.
func (ip *Interp) split(st *State, c *Term) []branch {
	if v, ok := ip.truth(st, c); ok {
		return []branch{{st, v}}
	}
	if c.op == "app" {
		switch c.name {
		case "not":
			bs := ip.split(st, c.args[0])
			for i := range bs {
				bs[i].v = !bs[i].v
			}
			return bs
		case "and", "or":
			if _, _, ok := runeCond(c); !ok {
				var out []branch
				for _, b := range ip.split(st, c.args[0]) {
					if b.v == (c.name == "or") {
						out = append(out, b)
						continue
					}
					out = append(out, ip.split(b.st, c.args[1])...)
				}
				return out
			}
		}
		if x, s, ok := runeCond(c); ok {
			p := cellSet(st, x)
			o := st.clone()
			o.forks++
			st.forks++
			setCell(st, x, p.and(s))
			setCell(o, x, p.and(s.not()))
			return []branch{{st, true}, {o, false}}
		}
		if len(c.args) == 2 && (c.name == "eq" || c.name == "lt") {
			a, b := c.args[0], c.args[1]
			if c.name == "eq" && (isRope(a) || isRope(b)) {
				if isRope(b) {
					a, b = b, a
				}
				if s, ok := b.strVal(); ok {
					return ip.ropeEq(st, a, s)
				}
			} else if bs := ip.bytesEq(st, c, a, b); bs != nil {
				return bs
			} else if mentionsLen(a) || mentionsLen(b) {
				if d, ok := linAdd(a, b, -1, intT); ok {
					if bs := ip.refine(st, d, c); bs != nil {
						return bs
					}
				}
			}
		}
	}
	o := st.clone()
	o.forks++
	st.forks++
	ip.assume(o, c, false)
	ip.assume(st, c, true)
	if ip.Prune && c.op == "app" && (c.name == "eq" || c.name == "lt") && len(c.args) == 2 && isInt(c.args[0].typ) {
		if infeasible(box(o)) {
			return []branch{{st, true}}
		}
		if infeasible(box(st)) {
			return []branch{{o, false}}
		}
	}
	return []branch{{st, true}, {o, false}}
}

// refine splits on the end of a text or the width of a character that d
// depends on.
func (ip *Interp) refine(st *State, d, c *Term) []branch {
	m, _, _ := linParts(normLin(st, d))
	for _, a := range sortedTerms(m) {
		if a.op == "sym" && strings.HasPrefix(a.name, "len:") {
			if t := tapes[a.name[4:]]; t != nil {
				n, ended := tapeState(st, t)
				if ended {
					continue
				}
				y, nos := ip.need(st, t, n)
				var out []branch
				if y != nil {
					out = append(out, ip.split(y, c)...)
				}
				for _, no := range nos {
					out = append(out, ip.split(no, c)...)
				}
				if out == nil {
					out = []branch{}
				}
				return out
			}
		}
	}
	for _, a := range sortedTerms(m) {
		if a.op == "app" && a.name == "rl" {
			return ip.splitWidth(st, a.args[0], func(s *State) []branch { return ip.split(s, c) })
		}
	}
	return nil
}

func sortedTerms(m map[*Term]int64) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].id < ts[i].id {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
	return ts
}

func (ip *Interp) splitWidth(st *State, cell *Term, f func(*State) []branch) []branch {
	p := cellSet(st, cell)
	var out []branch
	for w := 1; w <= 4; w++ {
		q := p.and(widthClass[w])
		if q.empty() {
			continue
		}
		s := st.clone()
		s.forks++
		setCell(s, cell, q)
		out = append(out, f(s)...)
	}
	return out
}

// ropeEq compares a rope with a constant.
func (ip *Interp) ropeEq(st *State, r *Term, s string) []branch {
	t, lo, hi := r.ropeOf()
	rs := []rune(s)
	if hi >= 0 && hi-lo != len(rs) {
		return []branch{{st, false}}
	}
	var out []branch
	ip.matchAt(st, t, lo, rs, func(s *State, ok bool) {
		if !ok {
			out = append(out, branch{s, false})
			return
		}
		if hi >= 0 {
			out = append(out, branch{s, true})
			return
		}
		y, ns := ip.need(s, t, lo+len(rs))
		if y != nil {
			out = append(out, branch{y, false})
		}
		for _, n := range ns {
			out = append(out, branch{n, true})
		}
	})
	return out
}

// matchAt compares the characters from index lo with rs.
func (ip *Interp) matchAt(st *State, t *tape, lo int, rs []rune, k func(*State, bool)) {
	if len(rs) == 0 {
		k(st, true)
		return
	}
	y, ns := ip.need(st, t, lo)
	for _, n := range ns {
		k(n, false)
	}
	if y == nil {
		return
	}
	for _, b := range ip.split(y, mkInSet(t.cells[lo], runes(rs[0]))) {
		if !b.v {
			k(b.st, false)
		} else {
			ip.matchAt(b.st, t, lo+1, rs[1:], k)
		}
	}
}

func branchOuts(bs []branch) []Outcome {
	outs := []Outcome{}
	for _, b := range bs {
		outs = append(outs, Outcome{val: mkBool(b.v), st: b.st})
	}
	return outs
}

// sliceRope evaluates r[lo:hi] (hi nil: to the end).
func (ip *Interp) sliceRope(st *State, r, lo, hi *Term, pos token.Pos) []Outcome {
	t, rlo, rhi := r.ropeOf()
	base := t.off(rlo)
	bad := func(s *State) []Outcome {
		return []Outcome{{st: s, panic: true, msg: "slice bounds out of range", pos: pos, val: mkStr("slice bounds out of range")}}
	}
	return ip.atBoundary(st, t, binop(token.ADD, base, lo, intT), func(s *State, i int) []Outcome {
		if i < 0 {
			if i == -2 {
				return one(mkApp("substr", strT, r, lo, orLen(r, hi)), s)
			}
			return bad(s)
		}
		if i < rlo || rhi >= 0 && i > rhi {
			return bad(s)
		}
		if hi == nil || rhi < 0 && hi == ropeLen(r) {
			return one(mkRope(t.name, i, rhi), s)
		}
		return ip.atBoundary(s, t, binop(token.ADD, base, hi, intT), func(s2 *State, j int) []Outcome {
			if j < 0 {
				if j == -2 {
					return one(mkApp("substr", strT, r, lo, hi), s2)
				}
				return bad(s2)
			}
			if j < i || rhi >= 0 && j > rhi {
				return bad(s2)
			}
			return one(mkRope(t.name, i, j), s2)
		})
	})
}

func orLen(r, hi *Term) *Term {
	if hi != nil {
		return hi
	}
	return ropeLen(r)
}

// atBoundary resolves an absolute byte offset to a character index; -1: beyond
// the end or inside of a character, -2: unknown.
func (ip *Interp) atBoundary(st *State, t *tape, x *Term, k func(*State, int) []Outcome) []Outcome {
	x = normLin(st, x)
	if i, ok := boundary(st, t, x); ok {
		return k(st, i)
	}
	m, ended := tapeState(st, t)
	d, ok := linAdd(x, t.off(m), -1, intT)
	if !ok {
		return k(st, -2)
	}
	mm, _, _ := linParts(normLin(st, d))
	for a := range mm {
		if !(a.op == "app" && a.name == "rl") && !(a.op == "sym" && strings.HasPrefix(a.name, "len:")) {
			return k(st, -2)
		}
	}
	var outs []Outcome
	cont := func(s *State) {
		if s != nil {
			outs = append(outs, ip.atBoundary(s, t, x, k)...)
		}
	}
	lo, hi, hasLo, hasHi, ok := linBounds(st, normLin(st, d))
	if !ok {
		return k(st, -2)
	}
	if !ended && (!hasHi || hi > 0) {
		y, ns := ip.need(st, t, m)
		cont(y)
		for _, n := range ns {
			cont(n)
		}
		if outs == nil {
			outs = []Outcome{}
		}
		return outs
	}
	if hasLo && lo > 0 && ended {
		return k(st, -1)
	}
	// ambiguous widths
	for i := 0; i < m; i++ {
		if a, b := cellSet(st, t.cells[i]).width(); a != b {
			for w := 1; w <= 4; w++ {
				q := cellSet(st, t.cells[i]).and(widthClass[w])
				if q.empty() {
					continue
				}
				s := st.clone()
				s.forks++
				setCell(s, t.cells[i], q)
				cont(s)
			}
			return outs
		}
	}
	return k(st, -1)
}

// ropeCells lists the characters of a rope with a known end.
func ropeCells(st *State, r *Term) ([]*Term, bool) {
	t, lo, hi := r.ropeOf()
	if hi < 0 {
		m, ended := tapeState(st, t)
		if !ended {
			return nil, false
		}
		hi = m
	}
	if hi > len(t.cells) || lo > hi {
		return nil, false
	}
	return t.cells[lo:hi], true
}

// finite forces the end of a rope to be known.
func (ip *Interp) finite(st *State, r *Term) []*State {
	t, _, hi := r.ropeOf()
	if hi >= 0 {
		return []*State{st}
	}
	var out []*State
	for st != nil {
		m, ended := tapeState(st, t)
		if ended {
			return append(out, st)
		}
		y, ns := ip.need(st, t, m)
		out = append(out, ns...)
		st = y
	}
	return out
}

func init() {
	cellPred := func(name string, f func(rune) bool) {
		old := stdModels[name]
		stdModels[name] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			if isCell(c.Args[0]) {
				return one(mkInSet(c.Args[0], predSet(name, f)), st), true
			}
			if old != nil {
				return old(ip, st, c)
			}
			return runePred(f)(ip, st, c)
		}
	}
	cellPred("unicode.IsDigit", unicode.IsDigit)
	cellPred("unicode.IsSpace", unicode.IsSpace)
	cellPred("unicode.IsLetter", unicode.IsLetter)
	cellPred("unicode.IsNumber", unicode.IsNumber)
	cellPred("unicode.IsUpper", unicode.IsUpper)
	cellPred("unicode.IsLower", unicode.IsLower)
	cellPred("unicode.IsPunct", unicode.IsPunct)
	cellPred("unicode.IsControl", unicode.IsControl)
	cellPred("unicode.IsGraphic", unicode.IsGraphic)
	cellPred("unicode.IsPrint", unicode.IsPrint)
	cellPred("unicode.IsSymbol", unicode.IsSymbol)
	cellPred("unicode.IsMark", unicode.IsMark)
	cellPred("unicode.IsTitle", unicode.IsTitle)
	cellPred("github.com/smasher164/xid.Start", xid.Start)
	cellPred("github.com/smasher164/xid.Continue", xid.Continue)
	cellPred("unicode/utf8.ValidRune", utf8.ValidRune)
	vr := stdModels["unicode/utf8.ValidRune"]
	stdModels["unicode/utf8.ValidRune"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if outs, ok := vr(ip, st, c); ok || !ip.Enum || !ip.Arith {
			return outs, ok
		}
		x := c.Args[0]
		var outs []Outcome
		cur := st
		for i, lim := range []int64{0, 0xd800, 0xe000, 0x110000} {
			cond := mkLess(x, lim)
			next := (*State)(nil)
			for _, b := range ip.split(cur, cond) {
				if b.v {
					outs = append(outs, Outcome{val: mkBool(i%2 == 1), st: b.st})
				} else {
					next = b.st
				}
			}
			if cur = next; cur == nil {
				return outs, true
			}
		}
		return append(outs, Outcome{val: mkBool(false), st: cur}), true
	}
	stdModels["unicode/utf8.RuneLen"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if isCell(c.Args[0]) || c.Args[0].isConst() {
			return one(mkRl(c.Args[0]), st), true
		}
		return nil, false
	}
	inTables := func(ip *Interp, st *State, ch *Term, tabs []*Term) ([]Outcome, bool) {
		if !isCell(ch) && !ch.isConst() {
			return nil, false
		}
		s := mkRuneSet(nil)
		for _, tb := range tabs {
			name := tb.name
			if tb.op == "sym" && strings.HasPrefix(name, "@g:unicode.") {
				name = strings.TrimPrefix(name, "@g:unicode.")
			} else {
				return nil, false
			}
			rt := rangeTable(name)
			if rt == nil {
				return nil, false
			}
			s = s.or(predSet("table "+name, func(r rune) bool { return unicode.Is(rt, r) }))
		}
		return one(mkInSet(ch, s), st), true
	}
	stdModels["unicode.In"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		tabs, ok := ip.sliceElems(st, c.Args[1])
		if !ok {
			return nil, false
		}
		return inTables(ip, st, c.Args[0], tabs)
	}
	stdModels["unicode.Is"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		return inTables(ip, st, c.Args[1], c.Args[:1])
	}
	stdModels["strings.ContainsRune"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := c.Args[0].strVal()
		if !ok || !(isCell(c.Args[1]) || c.Args[1].isConst()) {
			return nil, false
		}
		return one(mkInSet(c.Args[1], runes([]rune(s)...)), st), true
	}
	stdModels["strings.IndexRune"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := c.Args[0].strVal()
		if !ok || !isCell(c.Args[1]) {
			return nil, false
		}
		in := mkInSet(c.Args[1], runes([]rune(s)...))
		var outs []Outcome
		for _, b := range ip.split(st, in) {
			if b.v {
				for i, k := range s {
					q := cellSet(b.st, c.Args[1]).and(runes(k))
					if q.empty() || strings.IndexRune(s, k) != i {
						continue
					}
					at := b.st.clone()
					at.forks++
					setCell(at, c.Args[1], q)
					outs = append(outs, Outcome{val: mkInt(int64(i), intT), st: at})
				}
			} else {
				outs = append(outs, Outcome{val: mkInt(-1, intT), st: b.st})
			}
		}
		return outs, true
	}
	hp := stdModels["strings.HasPrefix"]
	stdModels["strings.HasPrefix"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		p, ok := c.Args[1].strVal()
		if !isRope(c.Args[0]) || !ok {
			return hp(ip, st, c)
		}
		t, lo, hi := c.Args[0].ropeOf()
		rs := []rune(p)
		if hi >= 0 && hi-lo < len(rs) {
			return one(mkBool(false), st), true
		}
		var bs []branch
		ip.matchAt(st, t, lo, rs, func(s *State, ok bool) { bs = append(bs, branch{s, ok}) })
		return branchOuts(bs), true
	}
	hs := stdModels["strings.HasSuffix"]
	stdModels["strings.HasSuffix"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if x, y := c.Args[0], c.Args[1]; isRope(x) && isRope(y) && ip.Enum {
			t, lo, hi := x.ropeOf()
			if u, l, h := y.ropeOf(); u == t && h == hi && l >= lo {
				return one(mkBool(true), st), true
			}
		}
		p, ok := c.Args[1].strVal()
		if !isRope(c.Args[0]) || !ok {
			return hs(ip, st, c)
		}
		t, lo, hi := c.Args[0].ropeOf()
		rs := []rune(p)
		var outs []Outcome
		for _, s := range ip.finite(st, c.Args[0]) {
			h := hi
			if h < 0 {
				h, _ = tapeState(s, t)
			}
			if h-lo < len(rs) {
				outs = append(outs, Outcome{val: mkBool(false), st: s})
				continue
			}
			// last character first
			var rec func(s *State, k int)
			rec = func(s *State, k int) {
				if k == len(rs) {
					outs = append(outs, Outcome{val: mkBool(true), st: s})
					return
				}
				for _, b := range ip.split(s, mkInSet(t.cells[h-1-k], runes(rs[len(rs)-1-k]))) {
					if b.v {
						rec(b.st, k+1)
					} else {
						outs = append(outs, Outcome{val: mkBool(false), st: b.st})
					}
				}
			}
			rec(s, 0)
		}
		if outs == nil {
			outs = []Outcome{}
		}
		return outs, true
	}
	trim := func(name string, pre bool) {
		has := "strings.HasSuffix"
		if pre {
			has = "strings.HasPrefix"
		}
		stdModels[name] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p, ok := c.Args[1].strVal()
			if s, ok2 := c.Args[0].strVal(); ok && ok2 {
				if pre {
					return one(mkStr(strings.TrimPrefix(s, p)), st), true
				}
				return one(mkStr(strings.TrimSuffix(s, p)), st), true
			}
			if !isRope(c.Args[0]) || !ok {
				return nil, false
			}
			outs, ok := stdModels[has](ip, st, c)
			if !ok {
				return nil, false
			}
			t, lo, hi := c.Args[0].ropeOf()
			n := len([]rune(p))
			for i := range outs {
				v := c.Args[0]
				if outs[i].val.isTrue() {
					if pre {
						v = mkRope(t.name, lo+n, hi)
					} else {
						h := hi
						if h < 0 {
							h, _ = tapeState(outs[i].st, t)
						}
						v = mkRope(t.name, lo, h-n)
					}
				}
				outs[i].val = v
			}
			return outs, true
		}
	}
	trim("strings.TrimPrefix", true)
	trim("strings.TrimSuffix", false)
	stdModels["unicode/utf8.RuneStart"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Args[0].op == "app" && c.Args[0].name == "firstbyte" {
			return one(mkBool(true), st), true
		}
		if c.Args[0].op == "app" && c.Args[0].name == "contbyte" {
			return one(mkBool(false), st), true
		}
		byteT := types.Typ[types.Byte]
		m := binop(token.AND, c.Args[0], mkInt(0xC0, byteT), byteT)
		return one(mkNot(mkEq(m, mkInt(0x80, byteT))), st), true
	}
	stdModels["unicode/utf8.RuneCountInString"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if s, ok := c.Args[0].strVal(); ok {
			return one(mkInt(int64(utf8.RuneCountInString(s)), intT), st), true
		}
		if !isRope(c.Args[0]) {
			return nil, false
		}
		outs := []Outcome{}
		for _, s := range ip.finite(st, c.Args[0]) {
			cs, _ := ropeCells(s, c.Args[0])
			outs = append(outs, Outcome{val: mkInt(int64(len(cs)), intT), st: s})
		}
		return outs, true
	}
}

// ropeByte evaluates r[i].
func (ip *Interp) ropeByte(st *State, r, idx *Term, typ types.Type, pos token.Pos) []Outcome {
	t, lo, hi := r.ropeOf()
	return ip.atBoundary(st, t, binop(token.ADD, t.off(lo), idx, intT), func(s *State, i int) []Outcome {
		bad := Outcome{st: s, panic: true, msg: "index out of range", pos: pos, val: mkStr("index out of range")}
		if i == -2 {
			return one(mkApp("byte", typ, r, idx), s)
		}
		if i == -1 {
			return one(mkApp("contbyte", typ, r, idx), s)
		}
		if i < lo || hi >= 0 && i >= hi {
			return []Outcome{bad}
		}
		y, ns := ip.need(s, t, i)
		outs := []Outcome{}
		for _, n := range ns {
			bad.st = n
			outs = append(outs, bad)
		}
		if y != nil {
			outs = append(outs, Outcome{val: mkApp("firstbyte", typ, t.cells[i]), st: y})
		}
		return outs
	})
}

// fixed replaces a number with the only value it can have.
func (ip *Interp) fixed(st *State, t *Term) *Term {
	if ip.Arith && !t.isConst() {
		if lo, hi := ip.bounds(st, normLin(st, t)); lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
			return mkInt(lo.Int64(), t.typ)
		}
	}
	return t
}

// above reports whether a > b holds in the state.
func (ip *Interp) above(st *State, a, b *Term) bool {
	d, ok := linAdd(a, b, -1, intT)
	if !ok || !ip.Arith {
		return false
	}
	lo, _ := ip.bounds(st, normLin(st, d))
	return lo != nil && lo.Sign() > 0
}

// byteOf evaluates x[i] of a text.
func (ip *Interp) byteOf(st *State, x, i *Term, typ types.Type, pos token.Pos) []Outcome {
	i = ip.fixed(st, i)
	if ip.above(st, mkInt(0, intT), i) || ip.above(st, binop(token.ADD, i, mkInt(1, intT), intT), termLen(x)) {
		return []Outcome{{st: st, panic: true, msg: "index out of range", pos: pos, val: mkStr("index out of range")}}
	}
	return one(mkApp("byte", typ, x, i), st)
}

// substr evaluates x[lo:hi] of a text.
func (ip *Interp) substr(st *State, x, lo, hi *Term, pos token.Pos) []Outcome {
	if ip.above(st, lo, hi) || ip.above(st, hi, termLen(x)) || ip.above(st, mkInt(0, intT), lo) {
		return []Outcome{{st: st, panic: true, msg: "slice bounds out of range", pos: pos, val: mkStr("slice bounds out of range")}}
	}
	if ip.Arith && x.op == "app" && x.name == "concat" {
		if t := concatPart(st, x, lo, hi); t != nil {
			return one(t, st)
		}
	}
	return one(mkSubstr(x, ip.fixed(st, lo), ip.fixed(st, hi)), st)
}

// concatPart takes whole parts of a concatenation.
func concatPart(st *State, x, lo, hi *Term) *Term {
	var parts []*Term
	for _, p := range x.args {
		if isRope(p) {
			t, l, h := p.ropeOf()
			for i := l; h < 0 && i < len(t.cells) || i < h; i++ {
				parts = append(parts, mkRope(t.name, i, i+1))
			}
			if h < 0 {
				if _, ended := tapeState(st, t); !ended {
					return nil
				}
				m, _ := tapeState(st, t)
				parts = parts[:len(parts)-len(t.cells)+m]
			}
			continue
		}
		parts = append(parts, p)
	}
	same := func(a, b *Term) bool {
		d, ok := linAdd(a, b, -1, intT)
		if !ok {
			return false
		}
		v, ok := normLin(st, d).intVal()
		return ok && v == 0
	}
	at := mkInt(0, intT)
	from, to := -1, -1
	for i := 0; i <= len(parts); i++ {
		if from < 0 && same(at, lo) {
			from = i
		}
		if from >= 0 && same(at, hi) {
			to = i
		}
		if i < len(parts) {
			at = binop(token.ADD, at, termLen(parts[i]), intT)
		}
	}
	if from < 0 || to < from {
		return nil
	}
	return mkConcat(joinRopes(parts[from:to])...)
}

// joinRopes merges adjacent parts of a tape.
func joinRopes(parts []*Term) []*Term {
	var out []*Term
	for _, p := range parts {
		if n := len(out); isRope(p) && n > 0 && isRope(out[n-1]) && p.name == out[n-1].name {
			_, l, h := p.ropeOf()
			_, l0, h0 := out[n-1].ropeOf()
			if h0 == l {
				out[n-1] = mkRope(p.name, l0, h)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// runesText is the text of a list of characters of tapes.
func (ip *Interp) runesText(st *State, v *Term, t types.Type) *Term {
	if !ip.Arith || !isString(t) || v.typ == nil {
		return nil
	}
	sl, ok := v.typ.Underlying().(*types.Slice)
	if !ok || !types.Identical(sl.Elem().Underlying(), runeT) {
		return nil
	}
	if v.op == "nil" {
		return mkStr("")
	}
	el, ok := ip.sliceElems(st, v)
	if !ok {
		return nil
	}
	var parts []*Term
	for _, c := range el {
		if r, ok := c.intVal(); ok {
			parts = append(parts, mkStr(string(rune(r))))
			continue
		}
		ci, ok := cellOf[c]
		if !ok {
			return nil
		}
		parts = append(parts, mkRope(ci.t.name, ci.i, ci.i+1))
	}
	return mkConcat(joinRopes(parts)...)
}

// bytesEq compares two short texts of known lengths byte by byte.
func (ip *Interp) bytesEq(st *State, c, a, b *Term) []branch {
	if !ip.Prune || c.name != "eq" || a.typ == nil || b.typ == nil || !isString(a.typ) || !isString(b.typ) || isRope(a) || isRope(b) {
		return nil
	}
	n, ok1 := ip.fixed(st, termLen(a)).intVal()
	m, ok2 := ip.fixed(st, termLen(b)).intVal()
	if !ok1 || !ok2 || n > 8 || n == m && a.op != "sym" && b.op != "sym" {
		return nil
	}
	if n != m {
		return []branch{{st, false}}
	}
	byteT := types.Typ[types.Byte]
	at := func(x *Term, i int64) *Term {
		if s, ok := x.strVal(); ok {
			return mkInt(int64(s[i]), byteT)
		}
		return mkApp("byte", byteT, x, mkInt(i, intT))
	}
	var out []branch
	cur := []*State{st}
	for i := int64(0); i < n; i++ {
		var next []*State
		for _, s := range cur {
			for _, b := range ip.split(s, mkEq(at(a, i), at(b, i))) {
				if b.v {
					next = append(next, b.st)
				} else {
					out = append(out, branch{b.st, false})
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, branch{s, true})
	}
	return out
}

func mkLess(x *Term, n int64) *Term { return binop(token.LSS, x, mkInt(n, x.typ), boolT) }
