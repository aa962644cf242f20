package main

import (
	"strconv"
	"strings"
)

// Locks: 1 held for reading, 2 held for writing.

func lockKey(ip *Interp, st *State, p *Term) string {
	obj, path, _ := ip.objOf(st, p)
	k := "lock:" + obj
	for _, x := range path {
		k += "." + x.stable()
	}
	return k
}

func lockModel(mode int64, take bool) Intrinsic {
	return func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		k := lockKey(ip, st, c.Args[0])
		bad := func(msg string) ([]Outcome, bool) {
			return []Outcome{{st: st, panic: true, msg: msg, pos: c.Pos, val: mkStr(msg)}}, true
		}
		held := st.ghost[k]
		if take {
			if held != nil {
				return bad("deadlock: the lock is taken while it is held")
			}
			st.ghost[k] = mkInt(mode, nil)
			n := int64(0)
			if e := st.ghost["epoch"]; e != nil {
				n, _ = e.intVal()
			}
			st.ghost["epoch"] = mkInt(n+1, nil)
		} else {
			if held == nil {
				return bad("the lock is released while it is not held")
			}
			if m, _ := held.intVal(); m != mode {
				return bad("the lock is released in another mode than it was taken")
			}
			delete(st.ghost, k)
		}
		return one(mkTuple(), st), true
	}
}

func init() {
	for _, n := range []string{"Itoa", "FormatInt", "FormatUint"} {
		stdModels["strconv."+n] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			if len(c.Args) == 2 {
				if b, ok := c.Args[1].intVal(); !ok || b != 10 {
					return nil, false
				}
			}
			if v, ok := c.Args[0].intVal(); ok {
				return one(mkStr(strconv.FormatInt(v, 10)), st), true
			}
			return one(mkApp("dec", strT, c.Args[0]), st), true
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		stdModels["(*sync."+t+").Lock"] = lockModel(2, true)
		stdModels["(*sync."+t+").Unlock"] = lockModel(2, false)
	}
	stdModels["(*sync.RWMutex).RLock"] = lockModel(1, true)
	stdModels["(*sync.RWMutex).RUnlock"] = lockModel(1, false)
}

// heldLocks are the locks which are held.
func heldLocks(st *State) []string {
	var out []string
	for k := range st.ghost {
		if strings.HasPrefix(k, "lock:") {
			out = append(out, k)
		}
	}
	return out
}
