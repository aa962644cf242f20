package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Arithmetic on bounded unsigned numbers: masks, shifts and bitwise or of
// disjoint parts become linear terms.

func bigTypeMax(t types.Type) *big.Int {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	bits := uint(0)
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	default:
		return nil
	}
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	return m.Sub(m, big.NewInt(1))
}

// bounds gives the interval of a term; nil means unbounded.
func (ip *Interp) bounds(st *State, t *Term) (lo, hi *big.Int) {
	if v, ok := t.intVal(); ok {
		return big.NewInt(v), big.NewInt(v)
	}
	if t.op == "lin" {
		lo, hi = big.NewInt(t.off), big.NewInt(t.off)
		for i, a := range t.args {
			l, h := ip.bounds(st, a)
			c := big.NewInt(t.coefs[i])
			if t.coefs[i] < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, l))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, h))
			} else {
				hi = nil
			}
		}
	} else if m := bigTypeMax(t.typ); m != nil {
		lo, hi = big.NewInt(0), m
	}
	if t.op == "app" && t.name == "rl" && len(t.args) == 1 {
		l, h := cellSet(st, t.args[0]).width()
		lo, hi = big.NewInt(int64(l)), big.NewInt(int64(h))
	}
	if t.op == "app" && t.name == "len" {
		lo = big.NewInt(0)
	}
	if t.op == "app" && len(t.args) == 1 && isRope(t.args[0]) && strings.HasPrefix(t.name, "int") {
		// a parsed number of some digits
		base, err := strconv.Atoi(t.name[3:])
		if _, l, h := t.args[0].ropeOf(); err == nil && h >= 0 {
			m := new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(h-l)), nil)
			m.Sub(m, big.NewInt(1))
			if hi == nil || m.Cmp(hi) < 0 {
				hi = m
			}
			if !unsignedT(t.typ) && lo == nil {
				lo = new(big.Int).Neg(m)
			}
		}
	}
	if t.op == "app" && len(t.args) == 2 {
		if k, ok := t.args[1].intVal(); ok && k > 0 && t.name == "bin/" {
			l, h := ip.bounds(st, t.args[0])
			if l != nil && l.Sign() >= 0 && h != nil {
				lo, hi = new(big.Int).Quo(l, big.NewInt(k)), new(big.Int).Quo(h, big.NewInt(k))
			}
		}
		if t.name == "bin&" {
			for i := range t.args {
				if k, ok := t.args[i].intVal(); ok && k >= 0 {
					lo, hi = big.NewInt(0), big.NewInt(k)
				}
			}
		}
	}
	setLo := func(v int64) {
		if b := big.NewInt(v); lo == nil || b.Cmp(lo) > 0 {
			lo = b
		}
	}
	setHi := func(v int64) {
		if b := big.NewInt(v); hi == nil || b.Cmp(hi) < 0 {
			hi = b
		}
	}
	for f, v := range st.facts {
		if f.op != "app" || len(f.args) != 2 {
			continue
		}
		switch f.name {
		case "lt":
			if f.args[0] == t {
				if c, ok := f.args[1].intVal(); ok {
					if v {
						setHi(c - 1)
					} else {
						setLo(c)
					}
				}
			}
			if f.args[1] == t {
				if c, ok := f.args[0].intVal(); ok {
					if v {
						setLo(c + 1)
					} else {
						setHi(c)
					}
				}
			}
		case "eq":
			for i := range f.args {
				if c, ok := f.args[1-i].intVal(); ok && v && f.args[i] == t {
					setLo(c)
					setHi(c)
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, b := range []struct {
			v *big.Int
			d int64
		}{{lo, 1}, {hi, -1}} {
			if b.v == nil || !b.v.IsInt64() {
				continue
			}
			if v, ok := st.facts[mkEq(t, mkInt(b.v.Int64(), t.typ))]; ok && !v {
				again = true
				if n := b.v.Int64() + b.d; b.d > 0 {
					lo = big.NewInt(n)
				} else {
					hi = big.NewInt(n)
				}
			}
		}
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			break
		}
	}
	return lo, hi
}

// boundTruth decides a comparison by the bounds of the difference.
func (ip *Interp) boundTruth(st *State, c *Term) (bool, bool) {
	if c.op != "app" || c.name != "eq" && c.name != "lt" || len(c.args) != 2 || !isInt(c.args[0].typ) || !isInt(c.args[1].typ) {
		return false, false
	}
	d, ok := linAdd(c.args[0], c.args[1], -1, c.args[0].typ)
	if !ok {
		return false, false
	}
	lo, hi := ip.bounds(st, normLin(st, d))
	if c.name == "lt" {
		if hi != nil && hi.Sign() < 0 {
			return true, true
		}
		if lo != nil && lo.Sign() >= 0 {
			return false, true
		}
		return false, false
	}
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return false, true
	}
	return false, false
}

// within reports whether 0 <= t < n.
func (ip *Interp) within(st *State, t *Term, n int64) bool {
	lo, hi := ip.bounds(st, t)
	return lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(big.NewInt(n)) < 0
}

// quorem splits t into n*q + r.
func quorem(t *Term, n int64, typ types.Type) (q, r *Term, ok bool) {
	m, off, ok := linParts(t)
	if !ok {
		return nil, nil, false
	}
	floor := func(c int64) (int64, int64) {
		q := c / n
		if c%n < 0 {
			q--
		}
		return q, c - q*n
	}
	qm, rm := map[*Term]int64{}, map[*Term]int64{}
	for t, c := range m {
		qm[t], rm[t] = floor(c)
	}
	qo, ro := floor(off)
	return mkLin(qm, qo, typ), mkLin(rm, ro, typ), true
}

// arith evaluates an operation on bounded numbers.
func (ip *Interp) arith(st *State, op token.Token, a, b *Term, typ types.Type) *Term {
	res := binop(op, a, b, typ)
	if !ip.Arith || !unsignedT(typ) || res.isConst() {
		return res
	}
	switch op {
	case token.SHR:
		if n, ok := b.intVal(); ok && n >= 0 && n < 62 {
			return ip.arith(st, token.QUO, a, mkInt(1<<n, typ), typ)
		}
	case token.QUO:
		if n, ok := b.intVal(); ok && n > 1 {
			if q, r, ok := quorem(a, n, typ); ok && ip.within(st, r, n) {
				return q
			}
		}
	case token.AND, token.REM:
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			n, ok := p[1].intVal()
			if op == token.AND {
				n++
			}
			if !ok || n <= 0 || n&(n-1) != 0 {
				if op == token.REM {
					break
				}
				continue
			}
			if _, r, ok := quorem(p[0], n, typ); ok {
				if ip.within(st, r, n) {
					return r
				}
				if r.op == "app" && r.name == "bin&" && op == token.AND {
					for i := range r.args {
						if k, ok := r.args[i].intVal(); ok && k&(n-1) == n-1 {
							r = r.args[1-i]
							break
						}
					}
				}
				return binop(token.AND, r, mkInt(n-1, typ), typ)
			}
			break
		}
	case token.OR, token.XOR:
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			m, off, ok := linParts(p[0])
			if !ok {
				continue
			}
			for k := int64(1) << 61; k > 1; k >>= 1 {
				all := off%k == 0
				for _, c := range m {
					all = all && c%k == 0
				}
				if all {
					if ip.within(st, p[1], k) {
						return binop(token.ADD, p[0], p[1], typ)
					}
					break
				}
			}
		}
	}
	return res
}

// narrow converts a number to a type of fewer bits.
func (ip *Interp) narrow(st *State, v *Term, t types.Type) *Term {
	if !ip.Arith || v.isConst() || !isInt(t) || !unsignedT(t) {
		return convertTerm(v, t)
	}
	m := bigTypeMax(t)
	if m == nil || !m.IsInt64() {
		return convertTerm(v, t)
	}
	if !isInt(v.typ) || ip.within(st, v, m.Int64()+1) {
		return convertTerm(v, t)
	}
	return ip.arith(st, token.AND, v, mkInt(m.Int64(), t), t)
}
