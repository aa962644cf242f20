package main

import (
	"fmt"
	"go/types"
	"strings"
)

// nodeInfo is a syntax node as found in the abstract heap.
type nodeInfo struct {
	kind, text, length, desc, upper, span *Term
	erroneous                             *Term
	kids                                  []*nodeInfo
	inner, isErr                          bool
	ptr                                   *Term
}

// deref returns the fields of the structure a pointer term refers to.
func (r *Report) deref(ip *Interp, st *State, p *Term) map[string]*Term {
	if p == nil || p.op != "ptr" || p.typ == nil {
		return nil
	}
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	v := ip.load(st, p, pt.Elem())
	if v == nil || v.op != "struct" {
		return nil
	}
	m := map[string]*Term{}
	for i := 0; i < s.NumFields(); i++ {
		m[s.Field(i).Name()] = v.args[i]
	}
	return m
}

// nodeAt reads the node a pointer term refers to; nil if it is not known.
func (r *Report) nodeAt(ip *Interp, st *State, p *Term) *nodeInfo {
	f := r.deref(ip, st, p)
	if f == nil {
		return nil
	}
	var rep *Term
	for _, v := range f {
		if v != nil && v.op == "iface" {
			rep = v.args[0]
		}
	}
	g := r.deref(ip, st, rep)
	if g == nil {
		return nil
	}
	n := &nodeInfo{ptr: p, kind: g["Kind"], text: g["Text"], span: g["Span"]}
	switch typeName(rep.typ.Underlying().(*types.Pointer).Elem()) {
	case "LeafNode":
	case "ErrorNode":
		n.isErr = true
	case "InnerNode":
		n.inner = true
		n.length, n.desc, n.upper, n.erroneous = g["Len"], g["Descendants"], g["Upper"], g["Erroneous"]
		el, ok := ip.sliceElems(st, g["Children"])
		if !ok {
			return nil
		}
		for _, e := range el {
			k := r.nodeAt(ip, st, e)
			if k == nil {
				return nil
			}
			n.kids = append(n.kids, k)
		}
	default:
		return nil
	}
	return n
}

// texts lists the texts of the leaves.
func (n *nodeInfo) texts() []*Term {
	if !n.inner {
		return []*Term{n.text}
	}
	var out []*Term
	for _, k := range n.kids {
		out = append(out, k.texts()...)
	}
	return out
}

func (n *nodeInfo) count() int64 {
	c := int64(1)
	for _, k := range n.kids {
		c += k.count()
	}
	return c
}

func (n *nodeInfo) hasError() bool {
	if n.isErr {
		return true
	}
	for _, k := range n.kids {
		if k.hasError() {
			return true
		}
	}
	return false
}

// bookkeeping checks the sums of an inner node; "" if they are right.
func (r *Report) bookkeeping(st *State, n *nodeInfo) string {
	if !n.inner {
		return ""
	}
	var sum *Term = mkInt(0, intT)
	for _, t := range n.texts() {
		l := termLen(t)
		s, ok := linAdd(normLin(st, sum), normLin(st, l), 1, intT)
		if !ok {
			return "the length of a child is not known"
		}
		sum = s
	}
	if n.length == nil || rawCanon(st, normLin(st, n.length)) != rawCanon(st, normLin(st, sum)) {
		return fmt.Sprintf("the length is %s, the children have %s", rawCanon(st, n.length), rawCanon(st, sum))
	}
	if v, ok := n.desc.intVal(); !ok || v != n.count() {
		return fmt.Sprintf("the number of nodes is %s, there are %d", n.desc, n.count())
	}
	if n.erroneous.isTrue() != n.hasError() || n.erroneous.isFalse() == n.hasError() {
		return fmt.Sprintf("the erroneous flag is %s", n.erroneous)
	}
	for _, k := range n.kids {
		if m := r.bookkeeping(st, k); m != "" {
			return m
		}
	}
	return ""
}

func (r *Report) lossless(defs []lexDef) {
	for _, d := range defs {
		if d.thorough && r.Tier != "thorough" {
			continue
		}
		u := r.lexDefUnit(d)
		ip := u.Interp
		s := r.outcomes(u)
		if s == nil {
			r.check(false, "analysis", u.Name, r.w.posOf(u.Fn), "undecided: %s", ip.Failed)
			continue
		}
		where := r.w.posOf(u.Fn)
		n := 0
		cnt := map[string]int{}
		tp := tapes["T"]
		end := r.w.enum(syn, "SyntaxKind", "SyntaxKind")["End"]
		for _, o := range s {
			j := joint(box(o.st))
			long := fmt.Sprintf("%s: %s", d.name, j)
			key := long
			verdict := func(ok bool, rule, format string, a ...any) {
				if ok {
					cnt[rule+"|"+key]++
					return
				}
				r.check(false, rule, long, where, format, a...)
			}
			if o.panic {
				verdict(false, "lossless", "the lexer panics")
				continue
			}
			if o.val == nil || o.val.op != "tuple" || len(o.val.args) != 2 {
				r.check(false, "anchor", d.name, where, "a token is not a kind and a node")
				return
			}
			node := r.nodeAt(ip, o.st, o.val.args[1])
			if node == nil {
				verdict(false, "lossless", "the node of the token is not known")
				continue
			}
			n++
			key = d.name + ": " + strings.TrimPrefix(rawCanon(o.st, o.val.args[0]), "SyntaxKind")
			cur := r.deref(ip, o.st, u.Roots["scanner"])["cursor"]
			k, ok := boundary(o.st, tp, cur)
			if !ok {
				verdict(false, "boundary", "the token ends at %s, which is not the end of a character", rawCanon(o.st, cur))
				continue
			}
			c := &canoner{st: o.st, fix: true, seen: map[string]int{}}
			got := ""
			for _, t := range node.texts() {
				got += c.text(t)
			}
			want := c.text(mkRope("T", d.before, k))
			msg := "the text of the token is the text it covers"
			good := got == want
			if !good {
				msg = fmt.Sprintf("if %s: the token covers %q and has text %q", j, want, got)
			}
			isEnd := o.val.args[0] == end || rawCanon(o.st, o.val.args[0]) == rawCanon(o.st, end)
			m, ended := tapeState(o.st, tp)
			if good && k < d.before || k == d.before && !isEnd {
				good, msg = false, fmt.Sprintf("if %s: the token covers no text", j)
			}
			if good && isEnd && (k != d.before || !(ended && m == d.before)) {
				good, msg = false, fmt.Sprintf("if %s: the end is reported before the end of the text", j)
			}
			verdict(good, "lossless", "%s", msg)
			// kinds
			want = rawCanon(o.st, o.val.args[0])
			got = "SyntaxKindError"
			if !node.isErr {
				got = rawCanon(o.st, node.kind)
			}
			verdict(got == want || strings.HasSuffix(want, got), "token-kind", "the token has kind %s and its node kind %s", want, got)
			// bookkeeping
			if node.inner {
				m := r.bookkeeping(o.st, node)
				verdict(m == "", "node-sums", "if %s: %s", j, orStr(m, "length, number of nodes and error flag agree with the children"))
			}
			// no message is left behind
			lx := r.deref(ip, o.st, u.Roots["lexer"])
			e := rawCanon(o.st, lx["err"])
			verdict(e == "None", "no-stale-error", "if %s: an error is left for the next token: %s", j, e)
			verdict(lx["mode"] == r.deref(ip, u.St, u.Roots["lexer"])["mode"], "mode-kept", "if %s: the mode is %s", j, rawCanon(o.st, lx["mode"]))
		}
		for _, k := range sortedKeys(cnt) {
			rule, key, _ := strings.Cut(k, "|")
			r.check(true, rule, key, where, "holds on %d classes of texts", cnt[k])
		}
		r.check(n >= 3, "instance-floor", d.name, where, "%d outcomes analysed", n)
	}
}

func init() {
	defs := []lexDef{
		{name: "code-0", method: "next", mode: "Code", before: 0, cells: 5},
		{name: "code-1", method: "next", mode: "Code", before: 1, cells: 5},
		{name: "markup-0", method: "next", mode: "Markup", before: 0, cells: 4},
		{name: "markup-1", method: "next", mode: "Markup", before: 1, cells: 5},
		{name: "math-0", method: "next", mode: "Math", before: 0, cells: 5},
		{name: "math-1", method: "next", mode: "Math", before: 1, cells: 5},
		{name: "raw-block", method: "next", mode: "Markup", before: 0, cells: 10, first: []string{"`", "`", "`"}},
		{name: "raw", method: "next", mode: "Code", before: 0, cells: 8, first: []string{"`"}},
		{name: "string", method: "next", mode: "Code", before: 0, cells: 9, first: []string{"\""}},
		{name: "comment", method: "next", mode: "Math", before: 0, cells: 9, first: []string{"/", "/*"}},
		{name: "escape", method: "next", mode: "Markup", before: 0, cells: 9, first: []string{"\\", "u", "{"}},
		{name: "number", method: "next", mode: "Code", before: 0, cells: 6, first: []string{"digit."}},
		{name: "code-deep", method: "next", mode: "Code", before: 1, cells: 7, thorough: true},
		{name: "markup-deep", method: "next", mode: "Markup", before: 1, cells: 6, thorough: true},
		{name: "math-deep", method: "next", mode: "Math", before: 1, cells: 7, thorough: true},
	}
	register(&Property{ID: "T10", Run: func(w *World, r *Report) { r.lossless(defs) }})
}
