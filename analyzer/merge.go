package main

import (
	"hash/maphash"
	"strings"
)

var hseed = maphash.MakeSeed()

func hstr(s string) uint64 { return maphash.String(hseed, s) }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	return a
}

// restHash identifies everything of an outcome but the character sets.
func (o *Outcome) restHash() uint64 {
	var h uint64
	for k, v := range o.st.heap {
		h += mix(hstr(k), uint64(v.id))
	}
	for k, v := range o.st.facts {
		x := uint64(1)
		if v {
			x = 2
		}
		h += mix(uint64(k.id)*3+7, x)
	}
	for k, v := range o.st.ghost {
		if !strings.HasPrefix(k, "cs:") {
			h += mix(hstr(k)^0x55, uint64(v.id))
		}
	}
	e := uint64(len(o.st.ev))
	for _, s := range o.st.ev {
		e = mix(e, hstr(s))
	}
	h = mix(h, e)
	if o.val != nil {
		h = mix(h, uint64(o.val.id))
	}
	if o.panic {
		h = mix(h, 77)
	}
	return h
}

func cellSets(st *State) map[string]*Term {
	m := map[string]*Term{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "cs:") {
			m[k] = v
		}
	}
	return m
}

// mergeBoxes joins the outcomes of a call which differ in the value set of one
// character only; the join is exact.
func mergeBoxes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	type ent struct {
		o     *Outcome
		cells map[string]*Term
		dead  bool
	}
	groups := map[uint64][]*ent{}
	var order []*ent
	for i := range outs {
		h := outs[i].restHash()
		e := &ent{o: &outs[i], cells: cellSets(outs[i].st)}
		groups[h] = append(groups[h], e)
		order = append(order, e)
	}
	if len(groups) == len(outs) {
		return outs
	}
	all := int64(allRunes.id)
	for _, g := range groups {
		if len(g) < 2 {
			continue
		}
		for pass := 0; pass < 4; pass++ {
			merged := false
			keys := map[string]bool{}
			for _, e := range g {
				for k := range e.cells {
					keys[k] = true
				}
			}
			for _, k := range sortedKeys(keys) {
				idx := map[uint64]*ent{}
				for _, e := range g {
					if e.dead {
						continue
					}
					var h uint64
					for q, v := range e.cells {
						if q != k {
							if id, _ := v.intVal(); id != all {
								h += mix(hstr(q), uint64(v.id))
							}
						}
					}
					f, ok := idx[h]
					if !ok {
						idx[h] = e
						continue
					}
					set := func(x *ent) *RuneSet {
						if v, ok := x.cells[k].intValOK(); ok {
							return runeSetByID[v]
						}
						return allRunes
					}
					u := set(f).or(set(e))
					if f.o.st == e.o.st {
						e.dead = true
						merged = true
						continue
					}
					t := mkInt(int64(u.id), nil)
					f.o.st.ghost[k] = t
					f.cells[k] = t
					if e.o.st.iter > f.o.st.iter {
						f.o.st.iter = e.o.st.iter
					}
					if e.o.st.forks > f.o.st.forks {
						f.o.st.forks = e.o.st.forks
					}
					e.dead = true
					merged = true
				}
			}
			if !merged {
				break
			}
		}
	}
	var res []Outcome
	for _, e := range order {
		if !e.dead {
			res = append(res, *e.o)
		}
	}
	return res
}
