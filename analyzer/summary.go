package main

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Function summaries. The trace partitioned analysis of a function yields a set
// of cases; a case consists of a condition box (a value set per symbolic input),
// the sequence of effects and the result. The summaries of the reviewed tree
// are kept in ref/; the summary of the current tree has to describe the same
// function: wherever the boxes of two cases intersect, effects and results have
// to be the same. How the code arrives at a case is irrelevant.

// IntSet is a union of disjoint intervals.
type IntSet [][2]int64

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

func (a IntSet) and(b IntSet) IntSet {
	var out IntSet
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
		if lo <= hi {
			out = append(out, [2]int64{lo, hi})
		}
		if a[i][1] < b[j][1] {
			i++
		} else {
			j++
		}
	}
	return out
}

func (a IntSet) not() IntSet {
	var out IntSet
	lo := int64(minI)
	open := true
	for _, p := range a {
		if p[0] > lo || p[0] == lo && p[0] != minI {
			if p[0]-1 >= lo {
				out = append(out, [2]int64{lo, p[0] - 1})
			}
		}
		if p[1] == maxI {
			open = false
			break
		}
		lo = p[1] + 1
	}
	if open {
		out = append(out, [2]int64{lo, maxI})
	}
	return out
}

func (a IntSet) or(b IntSet) IntSet {
	c := append(append(IntSet{}, a...), b...)
	sort.Slice(c, func(i, j int) bool { return c[i][0] < c[j][0] })
	var out IntSet
	for _, p := range c {
		if n := len(out); n > 0 && (out[n-1][1] == maxI || p[0] <= out[n-1][1]+1) {
			if p[1] > out[n-1][1] {
				out[n-1][1] = p[1]
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

func (a IntSet) single() (int64, bool) {
	if len(a) == 1 && a[0][0] == a[0][1] {
		return a[0][0], true
	}
	return 0, false
}

func (a IntSet) key() string {
	b := make([]byte, 0, 16*len(a))
	for _, p := range a {
		b = strconv.AppendInt(b, p[0], 16)
		b = append(b, ':')
		b = strconv.AppendInt(b, p[1], 16)
		b = append(b, ',')
	}
	return string(b)
}

func pt(v int64) IntSet { return IntSet{{v, v}} }

// Case is one case of a summary.
type Case struct {
	C      map[string]IntSet `json:"c"`           // condition box
	E      []string          `json:"e,omitempty"` // effects
	R      map[string]string `json:"r,omitempty"` // results
	K      bool              `json:"k,omitempty"` // incomplete: leaves the bounds
	before map[string]string // content of the objects at the start
}

// Summary is the set of cases of a function.
type Summary struct {
	Name  string
	Cases []*Case
}

// ---- canonical forms ------------------------------------------------------------

var canonEnum = map[string]map[int64]string{} // type -> value -> constant name

func (w *World) initEnums() {
	for _, sp := range w.SPkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			nt, ok := c.Type().(*types.Named)
			if !ok || c.Val().Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(c.Val())
			k := nt.Obj().Name()
			if canonEnum[k] == nil {
				canonEnum[k] = map[int64]string{}
			}
			if _, dup := canonEnum[k][v]; !dup || !strings.HasSuffix(n, "First") && !strings.HasSuffix(n, "Last") {
				canonEnum[k][v] = n
			}
		}
	}
}

func enumTypeOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if _, ok := canonEnum[n.Obj().Name()]; ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func enumStr(typ string, v int64) string {
	if m := canonEnum[typ]; m != nil {
		if n, ok := m[v]; ok {
			return n
		}
	}
	return fmt.Sprint(v)
}

// canoner renders values independently of the layout of the heap.
type canoner struct {
	st    *State
	marks bool // embed the symbolic leaves so that they can be resolved later
	depth int
	fix   bool // render characters which are determined
	seen  map[string]int
	// root names for objects
	names map[string]string
}

func canon(st *State, t *Term) string {
	c := &canoner{st: st, marks: true, seen: map[string]int{}}
	return c.val(t)
}

// resultCanon renders a result of a function.
func resultCanon(st *State, fn *ssa.Function, i int, t *Term) string {
	if rs := fn.Signature.Results(); t.op == "nil" && i < rs.Len() && emptyOf(rs.At(i).Type()) != "" {
		return emptyOf(rs.At(i).Type())
	}
	return canon(st, t)
}

// emptyOf renders the absent list or map, which behaves like an empty one.
func emptyOf(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Slice:
		return "[]"
	case *types.Map:
		return "map{}"
	}
	return ""
}

// rawCanon is used for keys.
func rawCanon(st *State, t *Term) string {
	c := &canoner{st: st, seen: map[string]int{}}
	return c.val(t)
}

func fieldName(t types.Type, idx *Term) string {
	i, ok := idx.intVal()
	if !ok || t == nil {
		return ""
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i >= 0 && int(i) < s.NumFields() {
		return s.Field(int(i)).Name()
	}
	return ""
}

func (c *canoner) leafKey(t *Term) string {
	d := &canoner{st: c.st, seen: map[string]int{}}
	return d.val(t)
}

func (c *canoner) lin(m map[*Term]int64, off int64, typ types.Type) string {
	type kv struct {
		k string
		c int64
	}
	var ks []kv
	for t, n := range m {
		ks = append(ks, kv{c.leafKey(t), n})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	if !c.marks {
		if len(ks) == 1 && ks[0].c == 1 && off == 0 {
			return ks[0].k
		}
		s := "("
		for _, x := range ks {
			s += fmt.Sprintf("%d*%s+", x.c, x.k)
		}
		return s + fmt.Sprint(off) + ")"
	}
	e := ""
	if typ != nil {
		e = enumTypeOf(typ)
	}
	s := "⟦I\x01" + e + "\x01" + fmt.Sprint(off)
	for _, x := range ks {
		s += fmt.Sprintf("\x01%d\x02%s", x.c, x.k)
	}
	return s + "⟧"
}

func (c *canoner) char(t *Term) string {
	if v, ok := t.intVal(); ok {
		return string(rune(v))
	}
	if c.fix && isCell(t) {
		if x, ok := cellSet(c.st, t).one(); ok {
			return string(x)
		}
	}
	if !c.marks {
		return "‹" + c.leafKey(t) + "›"
	}
	return "⟦C\x01" + c.leafKey(t) + "⟧"
}

// text renders the content of a string.
func (c *canoner) text(t *Term) string {
	if s, ok := t.strVal(); ok {
		return s
	}
	switch {
	case t.op == "app" && t.name == "concat":
		s := ""
		for _, a := range t.args {
			s += c.text(a)
		}
		return s
	case t.op == "app" && t.name == "runestr":
		return c.char(t.args[0])
	case t.op == "app" && t.name == "conv" && len(t.args) == 1:
		return c.text(t.args[0])
	case isRope(t):
		tp, lo, hi := t.ropeOf()
		end := ""
		if hi < 0 {
			m, ended := tapeState(c.st, tp)
			hi = m
			if !ended {
				end = "‹" + tp.name + "…›"
			}
			if hi < lo {
				return fmt.Sprintf("‹%s[%d:…›", tp.name, lo)
			}
		}
		s := ""
		for i := lo; i < hi; i++ {
			s += c.char(tp.cells[i])
		}
		return s + end
	}
	return "‹" + c.val2(t) + "›"
}

func (c *canoner) val(t *Term) string {
	if t == nil {
		return "_"
	}
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 24 {
		return "…"
	}
	if t.typ != nil && isString(t.typ) || t.isConst() && t.cst.Kind() == constant.String {
		if t.op == "sym" {
			return t.name
		}
		return "\"" + c.text(t) + "\""
	}
	return c.val2(t)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func (c *canoner) val2(t *Term) string {
	list := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, c.val(x))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		switch t.cst.Kind() {
		case constant.Int:
			if v, ok := t.intVal(); ok {
				if t.typ != nil {
					if e := enumTypeOf(t.typ); e != "" {
						return enumStr(e, v)
					}
				}
				if c.marks {
					return c.lin(nil, v, t.typ)
				}
				return fmt.Sprint(v)
			}
		case constant.String:
			return "\"" + constant.StringVal(t.cst) + "\""
		}
		return t.cst.ExactString()
	case "nil":
		return "nil"
	case "sym":
		if c.marks && (isInt(t.typ) || isBoolT(t.typ)) {
			if isBoolT(t.typ) {
				return "⟦B\x01" + t.name + "⟧"
			}
			return c.lin(map[*Term]int64{t: 1}, 0, t.typ)
		}
		return t.name
	case "lin":
		m, off, _ := linParts(t)
		return c.lin(m, off, t.typ)
	case "struct":
		if isOption(t.typ) {
			some, x := optGet(c.st, t)
			switch some {
			case 0:
				return "None"
			case 1:
				return "Some(" + c.val(x) + ")"
			}
		}
		var s []string
		st, _ := t.typ.Underlying().(*types.Struct)
		for i, a := range t.args {
			n := fmt.Sprint(i)
			if st != nil && i < st.NumFields() {
				n = st.Field(i).Name()
			}
			if st != nil && i < st.NumFields() && a != nil && a.op == "nil" && emptyOf(st.Field(i).Type()) != "" {
				s = append(s, n+": "+emptyOf(st.Field(i).Type()))
				continue
			}
			s = append(s, n+": "+c.val(a))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	case "array":
		return "[" + list(t.args) + "]"
	case "tuple":
		return "(" + list(t.args) + ")"
	case "iface":
		return shortType(t.typ2) + ":" + c.val(t.args[0])
	case "fn":
		return "func " + t.fn.Name() + "(" + list(t.args) + ")"
	case "ptr":
		if n, ok := c.names[t.name]; ok && len(t.args) == 0 {
			return "&" + n
		}
		if n, ok := objNames[t.name]; ok && len(t.args) == 0 {
			return n
		}
		if strings.HasPrefix(t.name, "g:") || !strings.HasPrefix(t.name, "new:") {
			s := "&" + t.name
			for _, a := range t.args {
				s += "." + c.val(a)
			}
			return s
		}
		if n, ok := c.seen[t.name]; ok && len(t.args) == 0 {
			return fmt.Sprintf("&#%d", n)
		}
		v, ok := c.st.heap[t.name]
		if !ok {
			return "&?"
		}
		if len(t.args) == 0 {
			c.seen[t.name] = len(c.seen)
		}
		for _, i := range t.args {
			v = project(v, i, fieldTypeAt(v.typ, i))
		}
		return "&" + c.val(v)
	case "slice":
		lo, ok1 := t.args[1].intVal()
		hi, ok2 := t.args[2].intVal()
		if ok1 && ok2 && t.args[0].op == "ptr" {
			if v, ok := c.st.heap[t.args[0].name]; ok {
				for _, i := range t.args[0].args {
					v = project(v, i, fieldTypeAt(v.typ, i))
				}
				var s []string
				for i := lo; i < hi && i-lo < 200; i++ {
					s = append(s, c.val(project(v, mkInt(i, nil), fieldTypeAt(v.typ, mkInt(i, nil)))))
				}
				return "[" + strings.Join(s, ", ") + "]"
			}
		}
		return c.val(t.args[0]) + "[" + c.val(t.args[1]) + ":" + c.val(t.args[2]) + "]"
	case "map":
		if v, ok := c.st.heap[t.name]; ok {
			ks, vs, closed := mapEntries(v)
			var s []string
			for i := range ks {
				s = append(s, c.val(ks[i])+": "+c.val(vs[i]))
			}
			sort.Strings(s)
			if !closed {
				s = append(s, "…")
			}
			return "map{" + strings.Join(s, ", ") + "}"
		}
		return "map " + t.name
	case "rope":
		return "\"" + c.text(t) + "\""
	case "app":
		if t.name == "error" && len(t.args) == 1 {
			return "error(" + c.val(t.args[0]) + ")"
		}
		if t.name == "append" {
			// the elements of a slice that are not known start the list
			return "append(" + list(t.args) + ")"
		}
		switch t.name {
		case "sel":
			if n := fieldName(t.args[0].typ, t.args[1]); n != "" {
				return c.val(t.args[0]) + "." + n
			}
			if t.args[0].op == "array" && len(t.args[0].args) > 8 {
				return "table[" + c.val(t.args[1]) + "]"
			}
			return c.val(t.args[0]) + "[" + c.val(t.args[1]) + "]"
		case "eq", "and", "or", "bin*", "bin&", "bin|", "bin^", "min", "max":
			var s []string
			for _, a := range t.args {
				s = append(s, c.val(a))
			}
			sort.Strings(s)
			return t.name + "(" + strings.Join(s, ", ") + ")"
		}
		if c.marks && (t.name == "rl" || isInt(t.typ)) {
			return c.lin(map[*Term]int64{t: 1}, 0, t.typ)
		}
		return t.name + "(" + list(t.args) + ")"
	case "upd":
		return c.val(t.args[0]) + "{" + c.val(t.args[1]) + "=" + c.val(t.args[2]) + "}"
	}
	return t.String()
}

// ---- conditions -------------------------------------------------------------------

func runeInts(s *RuneSet) IntSet {
	var out IntSet
	for _, p := range s.iv {
		out = append(out, [2]int64{int64(p[0]), int64(p[1])})
	}
	return out
}

// box extracts the condition box of a state.
func box(st *State) map[string]IntSet {
	b := map[string]IntSet{}
	add := func(k string, s IntSet) {
		if cur, ok := b[k]; ok {
			s = cur.and(s)
		}
		b[k] = s
	}
	for k, v := range st.ghost {
		switch {
		case strings.HasPrefix(k, "cs:"):
			id, _ := v.intVal()
			if s := runeSetByID[id]; s != allRunes {
				add(k[3:], runeInts(s))
			}
		case strings.HasPrefix(k, "tape:"):
			n, _ := v.intVal()
			hi := int64(maxI)
			if st.ghost["end:"+k[5:]] != nil {
				hi = n
			}
			if n > 0 || hi != maxI {
				add("#"+k[5:], IntSet{{n, hi}})
			}
		}
	}
	for f, v := range st.facts {
		k, s := atomSet(st, f)
		dom := s == nil
		if dom {
			s = pt(1)
		}
		if !v {
			s = s.not()
		}
		if dom {
			s = s.and(IntSet{{0, 1}})
		}
		if d, ok := keyDomain[k]; ok {
			s = s.and(d)
		}
		add(k, s)
	}
	return b
}

// keyDomain bounds the values of unsigned keys.
var keyDomain = map[string]IntSet{}

func infeasible(c map[string]IntSet) bool {
	for _, s := range c {
		if len(s) == 0 {
			return true
		}
	}
	return !joint(c).possible()
}

// divide gives the x with c*x in s.
func (s IntSet) divide(c int64) IntSet {
	var r IntSet
	for _, p := range s {
		lo, hi := p[0], p[1]
		if lo != minI {
			q := lo / c
			if lo%c != 0 && lo > 0 {
				q++
			}
			lo = q
		}
		if hi != maxI {
			q := hi / c
			if hi%c != 0 && hi < 0 {
				q--
			}
			hi = q
		}
		if lo <= hi {
			r = r.or(IntSet{{lo, hi}})
		}
	}
	return r
}

// atomSet describes a condition as membership of a value in a set; the set is
// nil for truth values.
func atomSet(st *State, f *Term) (string, IntSet) {
	if f.op == "app" {
		switch f.name {
		case "in":
			m := bigOf(f.args[1].cst)
			var s IntSet
			for i := 0; i < m.BitLen(); i++ {
				if m.Bit(i) == 1 {
					s = s.or(pt(int64(i)))
				}
			}
			return linKey(st, f.args[0], s)
		case "eq", "lt":
			a, b := f.args[0], f.args[1]
			if isInt(a.typ) || isInt(b.typ) {
				if d, ok := linAdd(a, b, -1, a.typ); ok {
					if f.name == "eq" {
						return linKey(st, d, pt(0))
					}
					return linKey(st, d, IntSet{{minI, -1}})
				}
			}
			if f.name == "eq" {
				for i := 0; i < 2; i++ {
					if s, ok := f.args[i].strVal(); ok && s == "" {
						// emptiness
						return linKey(st, termLen(f.args[1-i]), pt(0))
					}
				}
			}
		case "not":
			k, s := atomSet(st, f.args[0])
			if s == nil {
				return k, pt(0)
			}
			return k, s.not()
		}
	}
	return rawCanon(st, f), nil // a truth value
}

// linKey normalises x ∈ s to a key without constant part.
func linKey(st *State, x *Term, s IntSet) (string, IntSet) {
	m, off, ok := linParts(x)
	if !ok || len(m) == 0 {
		return rawCanon(st, x), s
	}
	type kv struct {
		k string
		c int64
		t *Term
	}
	var ks []kv
	for t, c := range m {
		ks = append(ks, kv{rawCanon(st, t), c, t})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	// Σ = x - off
	shift := func(v, d int64) int64 {
		if v == minI || v == maxI {
			return v
		}
		return v + d
	}
	var r IntSet
	for _, p := range s {
		r = append(r, [2]int64{shift(p[0], -off), shift(p[1], -off)})
	}
	if ks[0].c < 0 {
		var n IntSet
		for i := len(r) - 1; i >= 0; i-- {
			lo, hi := r[i][0], r[i][1]
			neg := func(v int64) int64 {
				switch v {
				case minI:
					return maxI
				case maxI:
					return minI
				}
				return -v
			}
			n = append(n, [2]int64{neg(hi), neg(lo)})
		}
		r = n
		for i := range ks {
			ks[i].c = -ks[i].c
		}
	}
	if len(ks) == 1 {
		if ks[0].c != 1 {
			r = r.divide(ks[0].c)
		}
		if smallUnsigned(ks[0].t.typ) {
			keyDomain[ks[0].k] = IntSet{{0, 255}}
		} else if unsignedT(ks[0].t.typ) || ks[0].t.op == "app" && ks[0].t.name == "len" {
			keyDomain[ks[0].k] = IntSet{{0, maxI}}
		}
		if b, ok := ks[0].t.typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint16 || b.Kind() == types.Uint32) {
			keyDomain[ks[0].k] = IntSet{{0, int64(bigTypeMax(b).Uint64())}}
		}
		if d, ok := keyDomain[ks[0].k]; ok {
			r = r.and(d)
		}
		return ks[0].k, r
	}
	g := ks[0].c
	for _, x := range ks {
		a, b := g, x.c
		for b != 0 {
			a, b = b, a%b
		}
		g = max(a, -a)
	}
	if g > 1 {
		r = r.divide(g)
		for i := range ks {
			ks[i].c /= g
		}
	}
	k := ""
	pos := true
	for _, x := range ks {
		k += fmt.Sprintf("%+d*%s", x.c, x.k)
		pos = pos && x.c > 0 && (unsignedT(x.t.typ) || x.t.op == "app" && x.t.name == "len")
	}
	if pos {
		keyDomain[k] = IntSet{{0, maxI}}
		r = r.and(keyDomain[k])
	}
	return k, r
}

// ---- collection --------------------------------------------------------------------

// Unit is one function to be summarised.
type Unit struct {
	Name   string
	Fn     *ssa.Function
	Interp *Interp
	St     *State
	Args   []*Term
	Binds  []*Term
	// Roots are objects whose final content is part of the result.
	Roots map[string]*Term
	// Final may add results.
	Final func(o *Outcome, c *Case)
	// Hide omits parts of the results.
	Hide func(key string) bool
	// Case names the concrete parts of the input.
	Case map[string]int64
	orig *State
}

// outcomes runs a unit.
func (r *Report) outcomes(u *Unit) []Outcome {
	ip := u.Interp
	ip.Enum = true
	if ip.MaxVisits == 0 {
		ip.MaxVisits = 12
	}
	if ip.MaxPaths == 0 {
		ip.MaxPaths = 60000
	}
	outs := ip.Call(u.Fn, u.Args, u.Binds, u.St, "S")
	r.visited(ip)
	if ip.Failed != "" {
		return nil
	}
	if outs == nil {
		outs = []Outcome{}
	}
	return outs
}

func (r *Report) summarise(us ...*Unit) *Summary {
	s := &Summary{Name: us[0].Name}
	for _, u := range us {
		if !r.cases(s, u) {
			r.check(false, "analysis", u.Name, r.w.posOf(u.Fn), "undecided: %s", u.Interp.Failed)
			return nil
		}
	}
	s.compact()
	return s
}

// cases adds the cases of a unit to the summary.
func (r *Report) cases(s *Summary, u *Unit) bool {
	ip := u.Interp
	if u.orig == nil {
		u.orig = u.St.clone()
	}
	outs := r.outcomes(u)
	if outs == nil {
		return false
	}
	first := len(s.Cases)
	var queue []Outcome
	queue = append(queue, outs...)
	for len(queue) > 0 {
		o := queue[0]
		queue = queue[1:]
		// boolean results are told apart
		if !o.panic {
			again := false
			parts := []*Term{o.val}
			if o.val != nil && o.val.op == "tuple" {
				parts = o.val.args
			}
			for i, p := range parts {
				if p != nil && isBoolT(p.typ) && !p.isConst() {
					for _, b := range ip.split(o.st, p) {
						n := o
						n.st = b.st
						if o.val.op == "tuple" {
							a := append([]*Term{}, o.val.args...)
							a[i] = mkBool(b.v)
							n.val = mkTuple(a...)
						} else {
							n.val = mkBool(b.v)
						}
						queue = append(queue, n)
					}
					again = true
					break
				}
			}
			if again {
				continue
			}
		}
		c := &Case{C: box(o.st), E: o.st.ev, R: map[string]string{}}
		if code := o.st.ghost["exits"]; o.panic && code != nil {
			c.R["exit"] = canon(o.st, code)
			if c.R["exit"] != "0" {
				c.E = nil
			}
		} else if o.panic {
			c.R["panic"] = "panic"
		} else {
			if o.val != nil && o.val.op == "tuple" {
				for i, a := range o.val.args {
					c.R[fmt.Sprintf("ret%d", i)] = resultCanon(o.st, u.Fn, i, a)
				}
			} else if o.val != nil {
				c.R["ret0"] = resultCanon(o.st, u.Fn, 0, o.val)
			}
			for n, p := range u.Roots {
				u.root(o.st, n, p, c)
			}
			if u.Final != nil {
				u.Final(&o, c)
			}
		}
		if u.Hide != nil {
			for k := range c.R {
				if u.Hide(k) {
					delete(c.R, k)
				}
			}
		}
		if !infeasible(c.C) {
			s.Cases = append(s.Cases, c)
		}
	}
	for _, st := range ip.Cuts {
		if b := box(st); !infeasible(b) {
			s.Cases = append(s.Cases, &Case{C: b, E: st.ev, K: true})
		}
	}
	for _, c := range s.Cases[first:] {
		for k, v := range u.Case {
			c.C[k] = pt(v)
		}
	}
	return true
}

func (u *Unit) root(st *State, name string, p *Term, c *Case) {
	v, ok := st.heap[p.name]
	if !ok || p.op != "ptr" {
		return
	}
	if v.op == "struct" && !isOption(v.typ) {
		sT := v.typ.Underlying().(*types.Struct)
		for i, a := range v.args {
			c.R[name+"."+sT.Field(i).Name()] = canon(st, a)
		}
		return
	}
	c.R[name] = canon(st, v)
}

// compact merges cases which differ in one condition only.
func (s *Summary) compact() {
	setKey := map[string]int{}
	sid := func(x IntSet) int {
		k := x.key()
		i, ok := setKey[k]
		if !ok {
			i = len(setKey)
			setKey[k] = i
		}
		return i
	}
	rest := map[string]int{}
	type pc struct {
		c    *Case
		rest int
		ids  map[string]int
	}
	var ps []*pc
	for _, c := range s.Cases {
		var b strings.Builder
		for _, e := range c.E {
			b.WriteString(e + "\n")
		}
		b.WriteString("|")
		for _, k := range sortedKeys(c.R) {
			b.WriteString(k + "=" + c.R[k] + "\n")
		}
		if c.K {
			b.WriteString("cut")
		}
		if c.before != nil {
			fmt.Fprintf(&b, "%p", c.before)
		}
		k := b.String()
		i, ok := rest[k]
		if !ok {
			i = len(rest)
			rest[k] = i
		}
		p := &pc{c: c, rest: i, ids: map[string]int{}}
		for k, x := range c.C {
			p.ids[k] = sid(x)
		}
		ps = append(ps, p)
	}
	for pass := 0; pass < 6; pass++ {
		n := len(ps)
		keys := map[string]bool{}
		for _, p := range ps {
			for k := range p.c.C {
				keys[k] = true
			}
		}
		for _, k := range sortedKeys(keys) {
			idx := map[string]*pc{}
			var out []*pc
			for _, p := range ps {
				set, has := p.c.C[k]
				if !has {
					out = append(out, p)
					continue
				}
				var b []byte
				b = strconv.AppendInt(b, int64(p.rest), 10)
				for _, q := range sortedKeys(p.ids) {
					if q != k {
						b = append(b, q...)
						b = append(b, '=')
						b = strconv.AppendInt(b, int64(p.ids[q]), 10)
						b = append(b, ';')
					}
				}
				if o, ok := idx[string(b)]; ok {
					o.c.C[k] = o.c.C[k].or(set)
					o.ids[k] = sid(o.c.C[k])
					continue
				}
				idx[string(b)] = p
				out = append(out, p)
			}
			ps = out
		}
		if len(ps) == n {
			break
		}
	}
	// a condition without effect is dropped by merging to the whole domain
	s.Cases = nil
	sigs := map[*Case]string{}
	for _, p := range ps {
		sigs[p.c] = p.c.sig()
		s.Cases = append(s.Cases, p.c)
	}
	sort.Slice(s.Cases, func(i, j int) bool { return sigs[s.Cases[i]] < sigs[s.Cases[j]] })
}

func (c *Case) sig() string {
	var b strings.Builder
	for _, k := range sortedKeys(c.C) {
		b.WriteString(k + "=" + c.C[k].key() + ";")
	}
	b.WriteString("|")
	for _, e := range c.E {
		b.WriteString(e + "\n")
	}
	b.WriteString("|")
	for _, k := range sortedKeys(c.R) {
		b.WriteString(k + "=" + c.R[k] + "\n")
	}
	if c.K {
		b.WriteString("cut")
	}
	return b.String()
}

// ---- comparison --------------------------------------------------------------------

type joint map[string]IntSet

func widthOf(v int64) int64 {
	switch {
	case v < 0x80:
		return 1
	case v < 0x800:
		return 2
	case v < 0x10000:
		return 3
	}
	return 4
}

func (j joint) leaf(k string) (int64, bool) {
	if s, ok := j[k]; ok {
		if v, ok := s.single(); ok {
			return v, true
		}
	}
	if strings.HasPrefix(k, "rl(") && strings.HasSuffix(k, ")") {
		if s, ok := j[k[3:len(k)-1]]; ok && len(s) > 0 {
			lo, hi := widthOf(s[0][0]), widthOf(s[len(s)-1][1])
			if lo == hi {
				return lo, true
			}
		}
	}
	return 0, false
}

// resolve replaces the symbolic leaves which are fixed by the condition.
func (j joint) resolve(s string) string {
	if !strings.Contains(s, "⟦") {
		return s
	}
	var b strings.Builder
	for {
		i := strings.Index(s, "⟦")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		s = s[i+len("⟦"):]
		e := strings.Index(s, "⟧")
		body := s[:e]
		s = s[e+len("⟧"):]
		f := strings.Split(body, "\x01")
		switch f[0] {
		case "C":
			if v, ok := j.leaf(f[1]); ok {
				b.WriteString(string(rune(v)))
			} else {
				b.WriteString("‹" + f[1] + "›")
			}
		case "B":
			if v, ok := j.leaf(f[1]); ok {
				b.WriteString(fmt.Sprint(v == 1))
			} else {
				b.WriteString(f[1])
			}
		case "I":
			var off int64
			fmt.Sscan(f[2], &off)
			var parts []string
			for _, x := range f[3:] {
				cs, k, _ := strings.Cut(x, "\x02")
				var c int64
				fmt.Sscan(cs, &c)
				if v, ok := j.leaf(k); ok {
					off += c * v
				} else if strings.HasPrefix(k, "len:") && j.textLen(k[4:], c, &off, &parts) {
				} else {
					parts = append(parts, fmt.Sprintf("%d*%s", c, k))
				}
			}
			if len(parts) == 0 {
				b.WriteString(enumStr(f[1], off))
				break
			}
			sort.Strings(parts)
			// equal parts are added up
			sum := map[string]int64{}
			for _, p := range parts {
				cs, k, _ := strings.Cut(p, "*")
				var c int64
				fmt.Sscan(cs, &c)
				sum[k] += c
			}
			for _, s := range activeSubst {
				off = s.apply(sum, off)
			}
			var ks []string
			for _, k := range sortedKeys(sum) {
				if sum[k] == 1 {
					ks = append(ks, k)
				} else if sum[k] != 0 {
					ks = append(ks, fmt.Sprintf("%d*%s", sum[k], k))
				}
			}
			if len(ks) == 0 {
				b.WriteString(enumStr(f[1], off))
				break
			}
			if off != 0 {
				ks = append(ks, fmt.Sprint(off))
			}
			b.WriteString("(" + strings.Join(ks, "+") + ")")
		}
	}
}

// textLen expands the length of a text whose characters are known.
func (j joint) textLen(t string, c int64, off *int64, parts *[]string) bool {
	n, ok := j["#"+t].single()
	if !ok {
		return false
	}
	for i := int64(0); i < n; i++ {
		k := fmt.Sprintf("rl(%s.%d)", t, i)
		if v, ok := j.leaf(k); ok {
			*off += c * v
		} else {
			*parts = append(*parts, fmt.Sprintf("%d*%s", c, k))
		}
	}
	return true
}

func joinBoxes(a, b *Case) (joint, bool) {
	j := joint{}
	for k, s := range a.C {
		if t, ok := b.C[k]; ok {
			s = s.and(t)
			if len(s) == 0 {
				return nil, false
			}
		}
		j[k] = s
	}
	for k, t := range b.C {
		if _, ok := j[k]; !ok {
			j[k] = t
		}
	}
	return j, true
}

// describe renders a condition.
func (j joint) String() string {
	var s []string
	txt := map[string]map[int]string{}
	for _, k := range sortedKeys(j) {
		set := j[k]
		if i := strings.LastIndex(k, "."); i > 0 && tapes[k[:i]] != nil {
			var n int
			if _, err := fmt.Sscan(k[i+1:], &n); err == nil {
				if txt[k[:i]] == nil {
					txt[k[:i]] = map[int]string{}
				}
				var iv [][2]rune
				for _, p := range set {
					iv = append(iv, [2]rune{rune(p[0]), rune(p[1])})
				}
				txt[k[:i]][n] = mkRuneSet(iv).String()
				continue
			}
		}
		if strings.HasPrefix(k, "#") {
			if n, ok := set.single(); ok {
				s = append(s, fmt.Sprintf("text %s has %d characters", k[1:], n))
			} else {
				s = append(s, fmt.Sprintf("text %s has at least %d characters", k[1:], set[0][0]))
			}
			continue
		}
		if l, ok := set.single(); ok && caseNames[k] != nil && l >= 0 && int(l) < len(caseNames[k]) {
			s = append(s, caseNames[k][l])
			continue
		}
		f := func(v int64) string {
			switch v {
			case minI:
				return "-∞"
			case maxI:
				return "∞"
			}
			if m := canonEnum["SyntaxKind"]; m != nil && strings.Contains(strings.ToLower(k), "kind") {
				return strings.TrimPrefix(enumStr("SyntaxKind", v), "SyntaxKind")
			}
			return fmt.Sprint(v)
		}
		var p []string
		for i, x := range set {
			if i == 4 {
				p = append(p, "…")
				break
			}
			if x[0] == x[1] {
				p = append(p, f(x[0]))
			} else {
				p = append(p, f(x[0])+".."+f(x[1]))
			}
		}
		s = append(s, k+" ∈ {"+strings.Join(p, ",")+"}")
	}
	for _, t := range sortedKeys(txt) {
		m := 0
		for i := range txt[t] {
			m = max(m, i)
		}
		o := "text " + t + " = "
		for i := 0; i <= m; i++ {
			if x, ok := txt[t][i]; ok {
				o += x
			} else {
				o += "·"
			}
		}
		s = append(s, o)
	}
	if len(s) == 0 {
		return "always"
	}
	return strings.Join(s, " and ")
}

type fastCase struct {
	c    *Case
	keys []int
	sets []int
}

// verdict is the result for one case of the reference.
type verdict struct {
	ok        bool
	what, msg string
}

// record records one obligation for each case of the reference.
func (r *Report) record(rule, name, where string, vs []verdict) {
	bad := 0
	for _, v := range vs {
		if !v.ok {
			if bad++; bad > 5 {
				continue // enough
			}
		}
		r.check(v.ok, rule, name+": "+v.what, where, "%s", orStr(v.msg, "as specified"))
	}
	if bad > 5 {
		r.note("%s: %d more cases differ", name, bad-5)
	}
}

func failing(vs []verdict) int {
	n := 0
	for _, v := range vs {
		if !v.ok {
			n++
		}
	}
	return n
}

// compare compares the cases of the reference with those of the current code.
func compare(ref, cur *Summary) []verdict {
	var vs []verdict
	ids, sets := map[string]int{}, map[string]int{}
	var setv []IntSet
	prep := func(s *Summary) []fastCase {
		var out []fastCase
		for _, c := range s.Cases {
			f := fastCase{c: c}
			for _, k := range sortedKeys(c.C) {
				id, ok := ids[k]
				if !ok {
					id = len(ids)
					ids[k] = id
				}
				sk := c.C[k].key()
				si, ok := sets[sk]
				if !ok {
					si = len(setv)
					sets[sk] = si
					setv = append(setv, c.C[k])
				}
				f.keys = append(f.keys, id)
				f.sets = append(f.sets, si)
			}
			sort.Sort(byKey(f))
			out = append(out, f)
		}
		return out
	}
	rf, cf := prep(ref), prep(cur)
	cache := map[[2]int]bool{}
	disjoint := func(a, b int) bool {
		if a == b {
			return false
		}
		k := [2]int{a, b}
		if v, ok := cache[k]; ok {
			return v
		}
		v := len(setv[a].and(setv[b])) == 0
		cache[k] = v
		return v
	}
	for _, p := range rf {
		if _, pre := p.c.R["panic"]; pre {
			continue // outside of the function's precondition
		}
		ok, complete := true, p.c.K
		var msg string
		for _, q := range cf {
			i, j := 0, 0
			dis := false
			for i < len(p.keys) && j < len(q.keys) {
				switch {
				case p.keys[i] < q.keys[j]:
					i++
				case p.keys[i] > q.keys[j]:
					j++
				default:
					if disjoint(p.sets[i], q.sets[j]) {
						dis = true
					}
					i++
					j++
				}
				if dis {
					break
				}
			}
			if dis {
				continue
			}
			jt, sat := joinBoxes(p.c, q.c)
			if !sat {
				continue
			}
			m := diffCase(jt, p.c, q.c)
			if m != "" {
				if !jt.possible() {
					continue
				}
				if activeSubst = jt.equalities(); len(activeSubst) > 0 {
					m = diffCase(jt, p.c, q.c)
				}
				activeSubst = nil
			}
			if m != "" {
				ok = false
				msg = fmt.Sprintf("if %s: %s", jt, m)
				break
			}
			if !q.c.K && (complete || jt.possible()) {
				complete = true
			}
		}
		if ok && !complete {
			ok = false
			msg = fmt.Sprintf("if %s: the code leaves the analysed bounds, the specified case does not", joint(p.c.C))
		}
		vs = append(vs, verdict{ok, joint(p.c.C).String(), msg})
	}
	return vs
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

type byKey fastCase

func (b byKey) Len() int           { return len(b.keys) }
func (b byKey) Less(i, j int) bool { return b.keys[i] < b.keys[j] }
func (b byKey) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.sets[i], b.sets[j] = b.sets[j], b.sets[i]
}

// diffCase compares effects and results of a specified and an actual case.
func diffCase(j joint, want, got *Case) string {
	n := len(want.E)
	if want.K || got.K {
		if want.K && got.K {
			n = min(len(want.E), len(got.E))
		} else if want.K {
			if len(got.E) < n {
				return fmt.Sprintf("ends with effects %s, expected more: %s", show(j, got.E, 0), show(j, want.E, 0))
			}
		} else {
			if len(got.E) > n {
				return fmt.Sprintf("has effects %s, expected only %s", show(j, got.E, 0), show(j, want.E, 0))
			}
			n = len(got.E)
		}
	}
	for i := 0; i < n; i++ {
		if i >= len(got.E) {
			return fmt.Sprintf("misses the effect %s (after %s)", j.resolve(want.E[i]), show(j, got.E, 3))
		}
		if want.E[i] != got.E[i] && j.resolve(want.E[i]) != j.resolve(got.E[i]) {
			return fmt.Sprintf("effect %d is %s, expected %s", i+1, j.resolve(got.E[i]), j.resolve(want.E[i]))
		}
	}
	if want.K || got.K {
		return ""
	}
	if len(got.E) > n {
		return fmt.Sprintf("has the additional effect %s", j.resolve(got.E[n]))
	}
	if _, p := got.R["panic"]; p {
		if _, q := want.R["panic"]; !q {
			return "panics"
		}
	}
	for _, k := range sortedKeys(got.R) {
		if _, ok := want.R[k]; ok || !strings.HasPrefix(k, "now ") {
			continue
		}
		if a, b := j.resolve(got.before[k]), j.resolve(got.R[k]); a != b {
			return fmt.Sprintf("%s is %s, expected no change from %s", k, clip(b), clip(a))
		}
	}
	for _, k := range sortedKeys(want.R) {
		w := want.R[k]
		g, ok := got.R[k]
		if !ok {
			if b, known := got.before[k]; known {
				g, ok = b, true
			}
		}
		if !ok {
			return fmt.Sprintf("no result %s, expected %s", k, j.resolve(w))
		}
		if w != g {
			if a, b := j.resolve(w), j.resolve(g); a != b {
				return fmt.Sprintf("%s is %s, expected %s", k, clip(b), clip(a))
			}
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func show(j joint, ev []string, last int) string {
	if last > 0 && len(ev) > last {
		ev = ev[len(ev)-last:]
	}
	var s []string
	for _, e := range ev {
		s = append(s, j.resolve(e))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// ---- storage ------------------------------------------------------------------------

//go:embed ref
var refFS embed.FS

var refWrite = os.Getenv("TYPASTCHECK_WRITE_REF") // development: directory to write to

func (r *Report) reference(name string) *Summary {
	if r.refs != nil {
		if cs, ok := r.refs[name]; ok {
			return &Summary{Name: name, Cases: cs}
		}
		return nil
	}
	b, err := refFS.ReadFile("ref/" + name + ".json.gz")
	if err != nil {
		return nil
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	s := &Summary{Name: name}
	if err := json.NewDecoder(z).Decode(&s.Cases); err != nil {
		return nil
	}
	return s
}

func writeRef(s *Summary) {
	var buf bytes.Buffer
	z := gzip.NewWriter(&buf)
	json.NewEncoder(z).Encode(s.Cases)
	z.Close()
	os.WriteFile(filepath.Join(refWrite, s.Name+".json.gz"), buf.Bytes(), 0o644)
	// readable form
	if d := os.Getenv("TYPASTCHECK_REF_TEXT"); d != "" {
		var b strings.Builder
		for _, c := range s.Cases {
			b.WriteString(c.text())
		}
		os.WriteFile(filepath.Join(d, s.Name+".txt"), []byte(b.String()), 0o644)
	}
}

func (c *Case) text() string {
	j := joint(c.C)
	s := "if " + j.String() + "\n"
	for _, e := range c.E {
		s += "    " + j.resolve(e) + "\n"
	}
	for _, k := range sortedKeys(c.R) {
		s += "  = " + k + ": " + j.resolve(c.R[k]) + "\n"
	}
	if c.K {
		s += "  … (cut)\n"
	}
	return s
}

// decide summarises a unit and compares the summary with its reference.
func (r *Report) decide(rule string, us ...*Unit) {
	u := us[0]
	where := r.w.posOf(u.Fn)
	if r.collect != nil {
		if cur := r.summarise(us...); cur != nil {
			r.collect[u.Name] = cur.Cases
			r.record(rule, u.Name, where, compare(cur, cur))
		}
		return
	}
	if refWrite != "" {
		cur := r.summarise(us...)
		if cur == nil {
			return
		}
		writeRef(cur)
		r.record(rule, u.Name, where, compare(cur, cur))
		cuts, steps := 0, 0
		for _, c := range cur.Cases {
			if c.K {
				cuts++
			}
		}
		for _, u := range us {
			steps += u.Interp.steps
		}
		fmt.Printf("  %s: %d cases (%d cut), %d steps\n", u.Name, len(cur.Cases), cuts, steps)
		return
	}
	ref := r.reference(u.Name)
	if ref == nil {
		r.check(false, "reference", u.Name, "-", "no reviewed summary")
		return
	}
	// Code whose loops are written differently may need more iterations for
	// what the reference does within its bounds.
	var first []verdict
	for more := 0; more <= 1; more++ {
		cur := r.trySummary(more, us...)
		if cur == nil {
			break
		}
		vs := compare(ref, cur)
		if failing(vs) == 0 {
			r.record(rule, u.Name, where, vs)
			return
		}
		if first == nil || failing(vs) < failing(first) {
			first = vs
		}
		cut := false
		for _, c := range cur.Cases {
			cut = cut || c.K
		}
		if !cut {
			break
		}
	}
	if first == nil {
		for _, u := range us {
			if u.Interp.Failed != "" {
				r.check(false, "analysis", u.Name, where, "undecided: %s", u.Interp.Failed)
				return
			}
		}
		r.check(false, "analysis", u.Name, where, "undecided")
		return
	}
	r.record(rule, u.Name, where, first)
}

// trySummary summarises units with more iterations of loops than usual; it
// returns nil if that is not possible.
func (r *Report) trySummary(more int, us ...*Unit) *Summary {
	if more == 0 {
		for _, u := range us {
			u.orig = u.St.clone()
		}
	}
	for _, u := range us {
		ip := u.Interp
		if more > 0 {
			u.St = u.orig.clone()
			if ip.MaxVisits == 0 {
				ip.MaxVisits = 12
			}
			ip.MaxVisits += more
			ip.Cuts, ip.Failed, ip.steps = nil, "", 0
		}
	}
	s := &Summary{Name: us[0].Name}
	for _, u := range us {
		if !r.cases(s, u) {
			return nil
		}
	}
	s.compact()
	return s
}
