package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// RuneSet is a set of characters: a sorted list of disjoint intervals. It is
// the abstract domain for single characters.
type RuneSet struct {
	iv  [][2]rune
	key string
	id  int
}

var runeSets = map[string]*RuneSet{}
var runeSetByID []*RuneSet

func mkRuneSet(iv [][2]rune) *RuneSet {
	sort.Slice(iv, func(i, j int) bool { return iv[i][0] < iv[j][0] })
	var out [][2]rune
	for _, p := range iv {
		if p[0] > p[1] {
			continue
		}
		if n := len(out); n > 0 && p[0] <= out[n-1][1]+1 {
			if p[1] > out[n-1][1] {
				out[n-1][1] = p[1]
			}
			continue
		}
		out = append(out, p)
	}
	var b strings.Builder
	for _, p := range out {
		fmt.Fprintf(&b, "%x-%x,", p[0], p[1])
	}
	k := b.String()
	if s, ok := runeSets[k]; ok {
		return s
	}
	s := &RuneSet{iv: out, key: k, id: len(runeSetByID)}
	runeSets[k] = s
	runeSetByID = append(runeSetByID, s)
	return s
}

func runes(rs ...rune) *RuneSet {
	var iv [][2]rune
	for _, r := range rs {
		iv = append(iv, [2]rune{r, r})
	}
	return mkRuneSet(iv)
}

var allRunes = mkRuneSet([][2]rune{{0, 0xD7FF}, {0xE000, 0x10FFFF}})

func (a *RuneSet) and(b *RuneSet) *RuneSet {
	if a == b {
		return a
	}
	k := [2]int{a.id, b.id}
	if r, ok := andCache[k]; ok {
		return r
	}
	var out [][2]rune
	i, j := 0, 0
	for i < len(a.iv) && j < len(b.iv) {
		lo, hi := max(a.iv[i][0], b.iv[j][0]), min(a.iv[i][1], b.iv[j][1])
		if lo <= hi {
			out = append(out, [2]rune{lo, hi})
		}
		if a.iv[i][1] < b.iv[j][1] {
			i++
		} else {
			j++
		}
	}
	r := mkRuneSet(out)
	andCache[k] = r
	return r
}

var andCache = map[[2]int]*RuneSet{}
var notCache = map[int]*RuneSet{}

// not is the complement within the valid characters.
func (a *RuneSet) not() *RuneSet {
	if r, ok := notCache[a.id]; ok {
		return r
	}
	var out [][2]rune
	lo := rune(0)
	for _, p := range a.iv {
		out = append(out, [2]rune{lo, p[0] - 1})
		lo = p[1] + 1
	}
	out = append(out, [2]rune{lo, 0x10FFFF})
	r := mkRuneSet(out).and(allRunes)
	notCache[a.id] = r
	return r
}

func (a *RuneSet) or(b *RuneSet) *RuneSet { return a.not().and(b.not()).not() }
func (a *RuneSet) empty() bool            { return len(a.iv) == 0 }

func (a *RuneSet) one() (rune, bool) {
	if len(a.iv) == 1 && a.iv[0][0] == a.iv[0][1] {
		return a.iv[0][0], true
	}
	return 0, false
}

func (a *RuneSet) has(r rune) bool {
	for _, p := range a.iv {
		if p[0] <= r && r <= p[1] {
			return true
		}
	}
	return false
}

// witness gives a printable member.
func (a *RuneSet) witness() rune {
	if a.empty() {
		return -1
	}
	for _, p := range a.iv {
		for r := p[0]; r <= p[1] && r < 0x7f; r++ {
			if r > ' ' {
				return r
			}
		}
	}
	return a.iv[0][0]
}

func (a *RuneSet) String() string {
	f := func(r rune) string {
		if r > ' ' && r < 0x7f {
			return string(r)
		}
		return fmt.Sprintf("U+%04X", r)
	}
	c, neg := a, ""
	if len(a.iv) > 0 && a.iv[len(a.iv)-1][1] == 0x10FFFF {
		c, neg = a.not(), "^"
	}
	var s []string
	for i, p := range c.iv {
		if i == 6 {
			s = append(s, "…")
			break
		}
		if p[0] == p[1] {
			s = append(s, f(p[0]))
		} else {
			s = append(s, f(p[0])+"-"+f(p[1]))
		}
	}
	return "[" + neg + strings.Join(s, " ") + "]"
}

// width returns the range of encoded lengths of the members.
func (a *RuneSet) width() (int, int) {
	if a.empty() {
		return 1, 4
	}
	return utf8.RuneLen(a.iv[0][0]), utf8.RuneLen(a.iv[len(a.iv)-1][1])
}

var widthClass = []*RuneSet{nil,
	mkRuneSet([][2]rune{{0, 0x7f}}),
	mkRuneSet([][2]rune{{0x80, 0x7ff}}),
	mkRuneSet([][2]rune{{0x800, 0xd7ff}, {0xe000, 0xffff}}),
	mkRuneSet([][2]rune{{0x10000, 0x10ffff}}),
}

var predSets = map[string]*RuneSet{}

// predSet tabulates a character predicate of a library.
func predSet(name string, f func(r rune) bool) *RuneSet {
	if s, ok := predSets[name]; ok {
		return s
	}
	var iv [][2]rune
	start := rune(-1)
	for r := rune(0); r <= 0x10FFFF+1; r++ {
		ok := r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF) && f(r)
		if ok && start < 0 {
			start = r
		}
		if !ok && start >= 0 {
			iv = append(iv, [2]rune{start, r - 1})
			start = -1
		}
	}
	s := mkRuneSet(iv)
	predSets[name] = s
	return s
}

// rangeTable finds a table of package unicode by variable name.
func rangeTable(name string) *unicode.RangeTable {
	if t, ok := unicode.Scripts[name]; ok {
		return t
	}
	if t, ok := unicode.Categories[name]; ok {
		return t
	}
	if t, ok := unicode.Properties[name]; ok {
		return t
	}
	switch name {
	case "Letter":
		return unicode.Letter
	case "Digit":
		return unicode.Digit
	case "Number":
		return unicode.Number
	case "Upper":
		return unicode.Upper
	case "Lower":
		return unicode.Lower
	case "Punct":
		return unicode.Punct
	case "Symbol":
		return unicode.Symbol
	case "Mark":
		return unicode.Mark
	case "Space":
		return unicode.Space
	case "Title":
		return unicode.Title
	}
	return nil
}
