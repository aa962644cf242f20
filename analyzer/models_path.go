package main

import (
	"path"
	"path/filepath"
	"strings"
)

// Slash-separated paths as terms: a cleaned path is the list of its segments
// path(s1, ..., sn) with "/" in front if it is rooted. Nested cleaned paths are
// flattened: cleaning is done once for the joined path.

// rootedPath tells whether the text of x is a rooted path.
func rootedPath(st *State, x *Term) bool {
	if s, ok := x.strVal(); ok {
		return strings.HasPrefix(s, "/")
	}
	if x.op == "app" && len(x.args) > 0 && (x.name == "path" || x.name == "concat") {
		return rootedPath(st, x.args[0])
	}
	return st.ghost["cleanpath:"+x.stable()] != nil
}

// pathOf is the cleaned path of the joined parts.
func pathOf(st *State, parts []*Term) *Term {
	var segs []*Term
	rooted := false
	if len(parts) > 0 {
		rooted = rootedPath(st, parts[0])
	}
	text := func(s string) {
		for _, w := range strings.Split(s, "/") {
			switch w {
			case "", ".":
			case "..":
				if n := len(segs); n > 0 {
					if l, ok := segs[n-1].strVal(); ok && l != ".." {
						segs = segs[:n-1]
						continue
					}
				} else if rooted {
					continue
				}
				segs = append(segs, mkStr(w))
			default:
				segs = append(segs, mkStr(w))
			}
		}
	}
	var add func(p *Term)
	add = func(p *Term) {
		if s, ok := p.strVal(); ok {
			text(s)
			return
		}
		if p.op == "app" && p.name == "path" {
			for _, a := range p.args {
				add(a)
			}
			return
		}
		if p.op == "app" && p.name == "concat" {
			// separated at the slashes of its constant parts
			var cur []*Term
			flush := func() {
				switch len(cur) {
				case 0:
				case 1:
					add(cur[0])
				default:
					segs = append(segs, mkApp("concat", strT, cur...))
				}
				cur = nil
			}
			for _, a := range p.args {
				s, ok := a.strVal()
				if !ok {
					cur = append(cur, a)
					continue
				}
				ws := strings.Split(s, "/")
				for i, w := range ws {
					if i > 0 {
						flush()
					}
					if w != "" {
						cur = append(cur, mkStr(w))
					}
				}
			}
			flush()
			return
		}
		segs = append(segs, p)
	}
	first := ""
	for _, p := range parts {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if first == "" {
				first = s
			}
		} else if first == "" {
			first = "?"
		}
		add(p)
	}
	if first == "" {
		return mkStr("")
	}
	if len(segs) == 0 {
		if rooted {
			return mkStr("/")
		}
		return mkStr(".")
	}
	all := true
	var ws []string
	for _, s := range segs {
		w, ok := s.strVal()
		all = all && ok
		ws = append(ws, w)
	}
	if all {
		s := strings.Join(ws, "/")
		if rooted {
			s = "/" + s
		}
		return mkStr(path.Clean(s))
	}
	if rooted {
		if st.ghost["cleanpath:"+segs[0].stable()] != nil {
			if len(segs) == 1 {
				return segs[0]
			}
		} else {
			segs = append([]*Term{mkStr("/")}, segs...)
		}
	}
	return mkApp("path", strT, segs...)
}

// plainSegment tells whether a part of a path is a single name.
func plainSegment(x *Term) bool {
	if s, ok := x.strVal(); ok {
		return s != "" && s != "." && s != ".." && !strings.Contains(s, "/")
	}
	return x.op == "sym" && strings.HasPrefix(x.name, "entry:")
}

func init() {
	for _, pk := range []string{"path", "path/filepath"} {
		def := func(name string, f func(ip *Interp, st *State, a []*Term) *Term) {
			stdModels[pk+"."+name] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
				for _, a := range c.Args {
					if isRope(a) {
						return nil, false
					}
				}
				v := f(ip, st, c.Args)
				if v == nil {
					return nil, false
				}
				return one(v, st), true
			}
		}
		def("Join", func(ip *Interp, st *State, a []*Term) *Term {
			el, ok := ip.sliceElems(st, a[0])
			if !ok {
				return nil
			}
			for _, e := range el {
				if isRope(e) {
					return nil
				}
			}
			return pathOf(st, el)
		})
		def("Clean", func(ip *Interp, st *State, a []*Term) *Term {
			if s, ok := a[0].strVal(); ok {
				return mkStr(path.Clean(s))
			}
			if rootedPath(st, a[0]) || a[0].op == "app" && a[0].name == "path" {
				return pathOf(st, a)
			}
			return mkApp("path", strT, a[0])
		})
		def("Dir", func(ip *Interp, st *State, a []*Term) *Term {
			if s, ok := a[0].strVal(); ok {
				return mkStr(path.Dir(s))
			}
			if rootedPath(st, a[0]) {
				if c := pathOf(st, a); c == a[0] {
					return pathOf(st, []*Term{c, mkStr("..")})
				}
			}
			if p := a[0]; p.op == "app" && p.name == "path" && len(p.args) > 1 && plainSegment(p.args[len(p.args)-1]) && pathOf(st, a) == p {
				return pathOf(st, p.args[:len(p.args)-1])
			}
			return mkApp("dir", strT, a[0])
		})
		def("Split", func(ip *Interp, st *State, a []*Term) *Term {
			if s, ok := a[0].strVal(); ok {
				d, f := path.Split(s)
				return mkTuple(mkStr(d), mkStr(f))
			}
			if !rootedPath(st, a[0]) || pathOf(st, a) != a[0] {
				return nil
			}
			base, _ := stdModels[pk+".Base"](ip, st, &CallCtx{Args: a, Type: strT})
			dir := pathOf(st, []*Term{a[0], mkStr("..")})
			return mkTuple(mkApp("concat", strT, dir, mkStr("/")), base[0].val)
		})
		def("IsAbs", func(ip *Interp, st *State, a []*Term) *Term {
			if rootedPath(st, a[0]) {
				return mkBool(true)
			}
			if s, ok := a[0].strVal(); ok {
				return mkBool(path.IsAbs(s))
			}
			return hasFix("hasprefix", a[0], mkStr("/"))
		})
		def("Base", func(ip *Interp, st *State, a []*Term) *Term {
			if s, ok := a[0].strVal(); ok {
				return mkStr(path.Base(s))
			}
			if a[0].op == "app" && a[0].name == "path" {
				if l := a[0].args[len(a[0].args)-1]; l.isConst() {
					if s, ok := l.strVal(); ok && s != ".." && !strings.Contains(s, "/") {
						return l
					}
				}
			}
			return mkApp("base", strT, a[0])
		})
		stdModels[pk+".Rel"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			a, b := c.Args[0], c.Args[1]
			x, ok1 := a.strVal()
			y, ok2 := b.strVal()
			if ok1 && ok2 {
				v, err := filepath.Rel(x, y)
				if err != nil {
					return one(mkTuple(mkStr(""), newErr("someError", "fails")), st), true
				}
				return one(mkTuple(mkStr(v), nilErr()), st), true
			}
			if abs, ok := ip.truth(st, hasFix("hasprefix", b, mkStr("/"))); ok1 && x == "/" && (ok && abs || rootedPath(st, b)) {
				return one(mkTuple(mkApp("fromroot", strT, b), nilErr()), st), true
			}
			return nil, false
		}
		def("Ext", func(ip *Interp, st *State, a []*Term) *Term {
			if s, ok := a[0].strVal(); ok {
				return mkStr(path.Ext(s))
			}
			return mkApp("ext", strT, a[0])
		})
	}
}
