package main

import (
	"math/big"
	"sort"
	"strings"
)

// Linear reasoning about conditions: keys such as "+1*a-1*b" are sums of
// unknowns. It is used to discard combinations of conditions that no input
// satisfies and to identify sums that are equal under a condition.

type linTerm struct {
	c int64
	k string
}

var linCache = map[string][]linTerm{}

// linOf splits a key into its terms.
func linOf(k string) []linTerm {
	if r, ok := linCache[k]; ok {
		return r
	}
	var r []linTerm
	var cut []int
	depth := 0
	for i := 0; i < len(k); i++ {
		switch k[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '+', '-':
			j := i + 1
			for j < len(k) && k[j] >= '0' && k[j] <= '9' {
				j++
			}
			if depth == 0 && j > i+1 && j < len(k) && k[j] == '*' {
				cut = append(cut, i)
			}
		}
	}
	if len(cut) == 0 || cut[0] != 0 {
		r = []linTerm{{1, k}}
	} else {
		for n, i := range cut {
			e := len(k)
			if n+1 < len(cut) {
				e = cut[n+1]
			}
			cs, v, _ := strings.Cut(k[i:e], "*")
			c := new(big.Int)
			c.SetString(strings.TrimPrefix(cs, "+"), 10)
			r = append(r, linTerm{c.Int64(), v})
		}
	}
	linCache[k] = r
	return r
}

// row is Σ c·x + off ≥ 0.
type row struct {
	c   map[string]*big.Int
	off *big.Int
}

func (r row) add(k string, c *big.Int) {
	if v, ok := r.c[k]; ok {
		c = new(big.Int).Add(v, c)
	}
	if c.Sign() == 0 {
		delete(r.c, k)
	} else {
		r.c[k] = c
	}
}

// norm divides by the common divisor, rounding the constant down.
func (r row) norm() row {
	g := new(big.Int)
	for _, c := range r.c {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Sign() == 0 || g.IsInt64() && g.Int64() == 1 {
		return r
	}
	n := row{map[string]*big.Int{}, new(big.Int).Div(r.off, g)} // Euclidean: floor for g > 0
	for k, c := range r.c {
		n.c[k] = new(big.Int).Quo(c, g)
	}
	return n
}

func (r row) key() string {
	var b strings.Builder
	for _, k := range sortedKeys(r.c) {
		b.WriteString(r.c[k].String() + "*" + k + " ")
	}
	return b.String()
}

// feasible reports whether the inequalities may have a solution.
func feasible(rows []row) bool {
	for {
		// contradictions, duplicates
		best := map[string]row{}
		for _, r := range rows {
			if len(r.c) == 0 {
				if r.off.Sign() < 0 {
					return false
				}
				continue
			}
			r = r.norm()
			k := r.key()
			if o, ok := best[k]; !ok || r.off.Cmp(o.off) < 0 {
				best[k] = r
			}
		}
		if len(best) == 0 {
			return true
		}
		if len(best) > 2000 {
			return true // undecided
		}
		rows = rows[:0:0]
		cnt := map[string][2]int{}
		for _, k := range sortedKeys(best) {
			r := best[k]
			rows = append(rows, r)
			for v, c := range r.c {
				n := cnt[v]
				if c.Sign() > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[v] = n
			}
		}
		pick, cost := "", 0
		for _, v := range sortedKeys(cnt) {
			n := cnt[v]
			if c := n[0]*n[1] - n[0] - n[1]; pick == "" || c < cost {
				pick, cost = v, c
			}
		}
		var pos, neg, out []row
		for _, r := range rows {
			c, ok := r.c[pick]
			switch {
			case !ok:
				out = append(out, r)
			case c.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := new(big.Int).Neg(n.c[pick]), p.c[pick]
				s := row{map[string]*big.Int{}, new(big.Int).Add(new(big.Int).Mul(a, p.off), new(big.Int).Mul(b, n.off))}
				for k, c := range p.c {
					s.add(k, new(big.Int).Mul(a, c))
				}
				for k, c := range n.c {
					s.add(k, new(big.Int).Mul(b, c))
				}
				out = append(out, s)
			}
		}
		rows = out
	}
}

// possible reports whether some input may satisfy the condition.
func (j joint) possible() bool {
	// only keys which share unknowns with sums matter
	hot := map[string]bool{}
	any := false
	for k := range j {
		if t := linOf(k); len(t) > 1 {
			any = true
			for _, x := range t {
				hot[x.k] = true
			}
		}
	}
	if !any {
		return true
	}
	var mb strings.Builder
	for _, k := range sortedKeys(j) {
		if t := linOf(k); len(t) > 1 || hot[t[0].k] {
			mb.WriteString(k + "=" + j[k].key() + ";")
		}
	}
	if v, ok := possibleMemo[mb.String()]; ok {
		return v
	}
	v := j.solve(hot)
	possibleMemo[mb.String()] = v
	return v
}

var possibleMemo = map[string]bool{}

func (j joint) solve(hot map[string]bool) bool {
	var base []row
	var multi []string
	bound := func(k string, lo, hi int64) []row {
		var rs []row
		t := linOf(k)
		if lo != minI {
			r := row{map[string]*big.Int{}, new(big.Int).Neg(big.NewInt(lo))}
			for _, x := range t {
				r.add(x.k, big.NewInt(x.c))
			}
			rs = append(rs, r)
		}
		if hi != maxI {
			r := row{map[string]*big.Int{}, big.NewInt(hi)}
			for _, x := range t {
				r.add(x.k, big.NewInt(-x.c))
			}
			rs = append(rs, r)
		}
		return rs
	}
	for _, k := range sortedKeys(j) {
		s := j[k]
		if len(s) == 0 {
			return false
		}
		if t := linOf(k); len(t) == 1 && !hot[t[0].k] {
			continue
		}
		if len(s) > 1 && len(s) <= 4 && len(multi) < 5 {
			multi = append(multi, k)
			continue
		}
		base = append(base, bound(k, s[0][0], s[len(s)-1][1])...)
	}
	for _, k := range sortedKeys(hot) {
		if _, ok := j[k]; ok {
			continue
		}
		d, ok := keyDomain[k]
		if !ok && strings.HasPrefix(k, "len(") {
			d, ok = IntSet{{0, maxI}}, true
		}
		if ok && len(d) > 0 {
			base = append(base, bound(k, d[0][0], d[len(d)-1][1])...)
		}
	}
	var try func(i int, rows []row) bool
	try = func(i int, rows []row) bool {
		if !feasible(append([]row{}, rows...)) {
			return false
		}
		if i == len(multi) {
			return true
		}
		for _, p := range j[multi[i]] {
			if try(i+1, append(append([]row{}, rows...), bound(multi[i], p[0], p[1])...)) {
				return true
			}
		}
		return false
	}
	return try(0, base)
}

// subst rewrites pivots by sums.
type subst struct {
	piv string
	c   map[string]int64
	off int64
}

var activeSubst []subst

// equalities gives the substitutions implied by the equations of a condition.
func (j joint) equalities() []subst {
	var out []subst
	for _, k := range sortedKeys(j) {
		t := linOf(k)
		v, ok := j[k].single()
		if !ok || len(t) < 2 {
			continue
		}
		// Σ c·x - v = 0
		c := map[string]int64{}
		off := -v
		for _, x := range t {
			c[x.k] += x.c
		}
		for _, s := range out {
			off = s.apply(c, off)
		}
		var ks []string
		for k, n := range c {
			if n == 1 || n == -1 {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			continue
		}
		sort.Strings(ks)
		p := ks[len(ks)-1]
		s := subst{piv: p, c: map[string]int64{}}
		n := c[p]
		for k, x := range c {
			if k != p {
				s.c[k] = -x * n // n is ±1
			}
		}
		s.off = -off * n
		for i := range out {
			if m := out[i].c[p]; m != 0 {
				out[i].off = s.apply(out[i].c, out[i].off)
			}
		}
		out = append(out, s)
	}
	return out
}

// apply replaces the pivot in a sum and gives the new constant.
func (s subst) apply(c map[string]int64, off int64) int64 {
	n := c[s.piv]
	if n == 0 {
		return off
	}
	delete(c, s.piv)
	for k, x := range s.c {
		c[k] += n * x
		if c[k] == 0 {
			delete(c, k)
		}
	}
	return off + n*s.off
}
