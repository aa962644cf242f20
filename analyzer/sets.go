package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

// Finite-set domain: facts of the form x == c and x ∈ M constrain a symbolic
// value x of a small unsigned integer type to a set of constants.

func bigOf(c constant.Value) *big.Int {
	b, ok := new(big.Int).SetString(c.ExactString(), 10)
	if !ok {
		return nil
	}
	return b
}

func mkMask(b *big.Int) *Term {
	return mkConst(constant.MakeFromLiteral(b.String(), token.INT, 0), nil)
}

// mkIn builds x ∈ mask.
func mkIn(x *Term, mask *big.Int) *Term {
	if v, ok := x.intVal(); ok {
		return mkBool(v >= 0 && mask.Bit(int(v)) == 1)
	}
	if mask.Sign() == 0 {
		return mkBool(false)
	}
	if x.op == "lin" && len(x.args) == 1 && x.coefs[0] == 1 && x.off < 0 {
		// (y-k) ∈ M  ==  y ∈ M<<k
		return mkIn(x.args[0], new(big.Int).Lsh(mask, uint(-x.off)))
	}
	return mkApp("in", types.Typ[types.Bool], x, mkMask(mask))
}

func smallUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// possible returns the values x may have; ok is false if x is unconstrained.
func possible(st *State, x *Term) (pos *big.Int, neg *big.Int) {
	neg = new(big.Int)
	for f, v := range st.facts {
		if f.op != "app" || len(f.args) != 2 {
			continue
		}
		var m *big.Int
		switch f.name {
		case "eq":
			for i := 0; i < 2; i++ {
				if f.args[i] == x {
					if c, ok := f.args[1-i].intVal(); ok && c >= 0 && c < 4096 {
						m = new(big.Int).SetBit(new(big.Int), int(c), 1)
					}
				}
			}
		case "in":
			if f.args[0] == x {
				m = bigOf(f.args[1].cst)
			}
		}
		if m == nil {
			continue
		}
		if v {
			if pos == nil {
				pos = m
			} else {
				pos = new(big.Int).And(pos, m)
			}
		} else {
			neg = new(big.Int).Or(neg, m)
		}
	}
	if pos != nil {
		pos = new(big.Int).AndNot(pos, neg)
	}
	return pos, neg
}

func truthSet(st *State, c *Term) (bool, bool) {
	if c.op != "app" || len(c.args) != 2 {
		return false, false
	}
	var x *Term
	var m *big.Int
	switch c.name {
	case "in":
		x, m = c.args[0], bigOf(c.args[1].cst)
	case "eq":
		for i := 0; i < 2; i++ {
			if k, ok := c.args[1-i].intVal(); ok && k >= 0 && k < 256 && smallUnsigned(c.args[i].typ) {
				x = c.args[i]
				m = new(big.Int).SetBit(new(big.Int), int(k), 1)
			}
		}
	}
	if x == nil || m == nil {
		return false, false
	}
	pos, neg := possible(st, x)
	if pos != nil {
		if new(big.Int).And(pos, m).Sign() == 0 {
			return false, true
		}
		if new(big.Int).AndNot(pos, m).Sign() == 0 {
			return true, true
		}
	} else if new(big.Int).AndNot(m, neg).Sign() == 0 {
		return false, true
	}
	return false, false
}

// ---- github.com/bits-and-blooms/bitset ---------------------------------------

const bitsetPkg = "github.com/bits-and-blooms/bitset"

func bsGet(ip *Interp, st *State, p *Term) (*big.Int, bool) {
	obj, path, _ := ip.objOf(st, p)
	if len(path) > 0 {
		return nil, false
	}
	v := st.heap["bs:"+obj]
	if v == nil {
		if !ip.initMode {
			v = ip.w.inits["bs:"+obj]
		}
		if v == nil {
			return nil, false
		}
	}
	if !v.isConst() {
		return nil, false
	}
	return bigOf(v.cst), true
}

func bsSet(ip *Interp, st *State, p *Term, b *big.Int) {
	obj, _, _ := ip.objOf(st, p)
	if b == nil {
		st.heap["bs:"+obj] = mkSym("unknownset", nil)
		return
	}
	st.heap["bs:"+obj] = mkMask(b)
}

func init() {
	stdModels[bitsetPkg+".New"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		obj := "new:" + c.Ctx
		bsSet(ip, st, mkPtr(obj, c.Type), new(big.Int))
		return one(mkPtr(obj, c.Type), st), true
	}
	m := "(*" + bitsetPkg + ".BitSet)."
	upd := func(f func(b *big.Int, i uint)) Intrinsic {
		return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			b, ok := bsGet(ip, st, c.Args[0])
			i, ok2 := c.Args[1].intVal()
			if !ok || !ok2 || i < 0 || i > 4095 {
				bsSet(ip, st, c.Args[0], nil)
				return one(c.Args[0], st), true
			}
			n := new(big.Int).Set(b)
			f(n, uint(i))
			bsSet(ip, st, c.Args[0], n)
			return one(c.Args[0], st), true
		}
	}
	stdModels[m+"Set"] = upd(func(b *big.Int, i uint) { b.SetBit(b, int(i), 1) })
	stdModels[m+"Clear"] = upd(func(b *big.Int, i uint) { b.SetBit(b, int(i), 0) })
	stdModels[m+"Clone"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		b, ok := bsGet(ip, st, c.Args[0])
		p := mkPtr("new:"+c.Ctx, c.Type)
		if !ok {
			b = nil
		}
		bsSet(ip, st, p, b)
		return one(p, st), true
	}
	comb := func(inPlace bool, f func(a, b *big.Int) *big.Int) Intrinsic {
		return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			a, ok := bsGet(ip, st, c.Args[0])
			b, ok2 := bsGet(ip, st, c.Args[1])
			var r *big.Int
			if ok && ok2 {
				r = f(a, b)
			}
			if inPlace {
				bsSet(ip, st, c.Args[0], r)
				return one(mkTuple(), st), true
			}
			p := mkPtr("new:"+c.Ctx, c.Type)
			bsSet(ip, st, p, r)
			return one(p, st), true
		}
	}
	or := func(a, b *big.Int) *big.Int { return new(big.Int).Or(a, b) }
	and := func(a, b *big.Int) *big.Int { return new(big.Int).And(a, b) }
	sub := func(a, b *big.Int) *big.Int { return new(big.Int).AndNot(a, b) }
	stdModels[m+"InPlaceUnion"] = comb(true, or)
	stdModels[m+"Union"] = comb(false, or)
	stdModels[m+"InPlaceIntersection"] = comb(true, and)
	stdModels[m+"Intersection"] = comb(false, and)
	stdModels[m+"InPlaceDifference"] = comb(true, sub)
	stdModels[m+"Difference"] = comb(false, sub)
	stdModels[m+"Test"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		b, ok := bsGet(ip, st, c.Args[0])
		if !ok {
			return nil, false
		}
		return one(mkIn(c.Args[1], b), st), true
	}
}
