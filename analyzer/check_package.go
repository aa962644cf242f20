package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Packages: specifications, versions, bounds and manifests.

// textShape is a closed text with the given classes of characters.
func (x *fx) textShape(shape string, cells int) *Term {
	ws := strings.Fields(shape)
	x.st.ghost["end:T"] = mkInt(1, nil)
	x.ip.MaxVisits = cells + 2
	t := newTape(x.st, "T", len(ws), cells)
	for i, w := range ws {
		setCell(x.st, tapes["T"].cells[i], litSet(w))
	}
	x.u.St = x.st
	return t
}

func anyTexts(lo, hi int, pre string) []string {
	var out []string
	for n := lo; n <= hi; n++ {
		out = append(out, strings.TrimSpace(pre+strings.Repeat(" ANY", n)))
	}
	return out
}

func (x *fx) version(name string) *Term {
	t := x.r.named(syn, "PackageVersion")
	m := map[string]*Term{}
	for _, f := range []string{"Major", "Minor", "Patch"} {
		m[f] = mkSym(strings.ToLower(f)+" of "+name, x.r.needField(t, f))
	}
	return x.mk(t, m)
}

// bound is a version bound with the first n parts.
func (x *fx) bound(name string, n int) *Term {
	t := x.r.named(syn, "VersionBound")
	m := map[string]*Term{"Major": mkSym("major of "+name, x.r.needField(t, "Major"))}
	for i, f := range []string{"Minor", "Patch"} {
		ft := x.r.needField(t, f)
		m[f] = mkNil(ft)
		if i+1 < n {
			p, ok := ft.Underlying().(*types.Pointer)
			if !ok {
				x.r.check(false, "anchor", f, "-", "not a pointer")
				panic(abort{})
			}
			obj := "new:" + name + "." + f
			x.st.heap[obj] = mkSym(strings.ToLower(f)+" of "+name, p.Elem())
			m[f] = mkPtr(obj, ft)
		}
	}
	return x.alloc(name, x.mk(t, m), t)
}

func (x *fx) spec(name string) *Term {
	t := x.r.named(syn, "PackageSpec")
	p := x.alloc(name, x.specOf(name), t)
	delete(objNames, p.name)
	return p
}

func (x *fx) specOf(name string) *Term {
	t := x.r.named(syn, "PackageSpec")
	return x.mk(t, map[string]*Term{"Namespace": mkSym("namespace of "+name, strT), "Name": mkSym("name of "+name, strT), "Version": x.version(name)})
}

func init() {
	register(&Property{ID: "T31", Run: func(w *World, r *Report) {
		texts := func(full, unit string, shapes []string, set func(x *fx), wrap func(x *fx, t *Term) []*Term) []*fx {
			cells := 0
			for _, s := range shapes {
				cells = max(cells, len(strings.Fields(s))+1)
			}
			var xs []*fx
			for _, s := range shapes {
				x := r.fx(full, unit)
				x.label("shape", s)
				t := x.textShape(s, cells)
				if set != nil {
					set(x)
				}
				x.u.Args = []*Term{t}
				if wrap != nil {
					x.u.Args = wrap(x, t)
				}
				xs = append(xs, x)
			}
			return xs
		}
		version := func(x *fx) { x.lookup(syn+".ParsePackageVersion", "version") }
		shapes := append(anyTexts(0, 3, ""), anyTexts(0, 4, "'@")...)
		shapes = append(shapes, anyTexts(0, 3, "'@ 'a '/")...)
		shapes = append(shapes, anyTexts(0, 3, "'@ 'a '/ 'b")...)
		shapes = append(shapes, "'@ 'a '/ 'b ': D . D . D", "'@ 'a - 'b '/ 'c - D ': D . D . D")
		r.decideAll("specification", texts(syn+".ParsePackageSpec", "spec", shapes, version, nil)...)
		r.decideAll("specification", texts(syn+".ParseVersionlessPackageSpec", "spec-versionless", shapes, nil, nil)...)
		shapes = append(anyTexts(0, 4, ""), "D . D . D", "D . D . D ANY", "D . D . D . ANY", "D . D . ANY ANY", "D . ANY . D", "ANY . D . D", "D D D D D D D D D D . D . D", "D . D D D D D D D D D D . D", "D . D . D D D D D D D D D D", "D D D . D D D . D D D")
		r.decideAll("version", texts(syn+".ParsePackageVersion", "version", shapes, nil, nil)...)
		shapes = append(shapes, "D . D", "D . D ANY", "D . D D D D D D D D D D")
		r.decideAll("version", texts(syn+".ParseVersionBound", "bound", shapes, nil, nil)...)
		// decoding
		var xs []*fx
		for _, t := range []string{"PackageVersion", "VersionBound"} {
			x := r.fx("(*"+syn+"."+t+").UnmarshalText", "decode-"+t)
			x.lookup(syn+".Parse"+t, "parsed")
			nt := r.named(syn, t)
			var v *Term
			if t == "PackageVersion" {
				v = x.alloc("v", x.version("old"), nt)
			} else {
				v = x.bound("v", 3)
				// a pointer to the parsed bound
				b := x.bound("parsed", 2)
				x.ip.Intrinsics[syn+".ParseVersionBound"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
					tt := c.Type.(*types.Tuple)
					var outs []Outcome
					for _, br := range ip.split(st, mkApp("isbound", boolT, c.Args[0])) {
						if br.v {
							outs = append(outs, Outcome{val: mkTuple(b, mkNil(tt.At(1).Type())), st: br.st})
						} else {
							outs = append(outs, Outcome{val: mkTuple(mkNil(tt.At(0).Type()), newErr("error", "no bound")), st: br.st})
						}
					}
					return outs, true
				}
			}
			x.u.Args = []*Term{v, mkApp("bytes", x.typ(1), mkSym("text", strT))}
			xs = append(xs, x)
		}
		r.decideAll("decode", xs...)
		// printing
		xs = nil
		printed := func(full, unit string, arg func(x *fx) *Term) {
			x := r.fx(full, unit)
			x.u.Args = []*Term{arg(x)}
			xs = append(xs, x)
		}
		printed("(*"+syn+".PackageSpec).String", "text-spec", func(x *fx) *Term { return x.spec("s") })
		printed("(*"+syn+".PackageSpec).Versionless", "text-versionless-of", func(x *fx) *Term { return x.spec("s") })
		printed("(*"+syn+".PackageSpec).Clone", "text-clone", func(x *fx) *Term { return x.spec("s") })
		vl := func(x *fx) *Term {
			t := r.named(syn, "VersionlessPackageSpec")
			return x.alloc("s", x.mk(t, map[string]*Term{"Namespace": mkSym("namespace", strT), "Name": mkSym("name", strT)}), t)
		}
		printed("(*"+syn+".VersionlessPackageSpec).String", "text-versionless", vl)
		printed("("+syn+".PackageVersion).String", "text-version", func(x *fx) *Term { return x.version("v") })
		x := r.fx("(*"+syn+".VersionlessPackageSpec).At", "text-at")
		x.u.Args = []*Term{vl(x), x.version("v")}
		xs = append(xs, x)
		for n := 1; n <= 3; n++ {
			x := r.fx("(*"+syn+".VersionBound).String", "text-bound")
			x.label("parts", fmt.Sprint(n))
			x.u.Args = []*Term{x.bound("b", n)}
			xs = append(xs, x)
		}
		r.decideAll("text", xs...)
		// comparisons
		xs = nil
		for _, m := range []string{"EQ", "GT", "LT", "GE", "LE"} {
			for n := 1; n <= 3; n++ {
				x := r.fx("("+syn+".PackageVersion).Matches"+m, "matches-"+strings.ToLower(m))
				x.ip.Prune = true
				x.label("parts", fmt.Sprint(n))
				x.u.Args = []*Term{x.version("v"), x.bound("b", n)}
				xs = append(xs, x)
			}
		}
		r.decideAll("comparison", xs...)
		// the manifest is for the package
		xs = nil
		for _, c := range []string{"no compiler", "compiler"} {
			x := r.fx("(*"+syn+".PackageManifest).Validate", "validate")
			x.label("compiler", c)
			x.pureFn("("+syn+".PackageVersion).MatchesGE", "at least")
			mt, it := r.named(syn, "PackageManifest"), r.named(syn, "PackageInfo")
			b := mkNil(r.needField(it, "Compiler"))
			if c == "compiler" {
				b = x.bound("b", 2)
				delete(objNames, b.name)
			}
			info := x.alloc("info", x.mk(it, map[string]*Term{"Name": mkSym("name of manifest", strT), "Version": x.version("manifest"), "Compiler": b}), it)
			x.u.Args = []*Term{x.alloc("m", x.mk(mt, map[string]*Term{"Pkg": info}), mt), x.spec("s")}
			xs = append(xs, x)
		}
		x = r.fx(syn+".ParsePackageManifestFromToml", "manifest")
		x.ip.Intrinsics["github.com/pelletier/go-toml/v2.Unmarshal"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			p := c.Args[1]
			if p.op == "iface" {
				p = p.args[0]
			}
			src := canon(st, c.Args[0])
			mt, it := r.named(syn, "PackageManifest"), r.named(syn, "PackageInfo")
			st.heap["new:decoded"] = mkSym("package of "+src, it)
			var outs []Outcome
			for _, b := range ip.split(st, mkApp("is toml", boolT, mkSym(src, nil))) {
				if !b.v {
					outs = append(outs, Outcome{val: newErr("tomlerror", "invalid"), st: b.st})
					continue
				}
				for _, h := range ip.split(b.st, mkApp("has package", boolT, mkSym(src, nil))) {
					s := mkNil(r.needField(mt, "Pkg"))
					if h.v {
						s = mkPtr("new:decoded", r.needField(mt, "Pkg"))
					}
					old := ip.load(h.st, p, mt)
					i := fieldIndex(mt, "Pkg")
					ip.store(h.st, p, setPath(old, []*Term{mkInt(int64(i), nil)}, s), c.Pos)
					outs = append(outs, Outcome{val: nilErr(), st: h.st})
				}
			}
			return outs, true
		}
		x.u.Args = []*Term{mkSym("content", strT)}
		xs = append(xs, x)
		x = r.fx(syn+".CurrentCompilerVersion", "compiler")
		xs = append(xs, x)
		r.decideAll("manifest", xs...)
		// the keys of the manifest
		for _, t := range []struct{ typ, keys string }{
			{"PackageManifest", "Pkg=package Template=template Tool=tool"},
			{"TemplateInfo", "Path=path Entrypoint=entrypoint Thumbnail=thumbnail"},
			{"PackageInfo", "Name=name Version=version Entrypoint=entrypoint Authors=authors License=license Description=description Homepage=homepage Repository=repository Keywords=keywords Categories=categories Disciplines=disciplines Compiler=compiler Exclude=exclude"},
		} {
			nt := r.named(syn, t.typ)
			s, ok := nt.Underlying().(*types.Struct)
			if !r.check(ok, "anchor", t.typ, "-", "not a struct") {
				continue
			}
			want := map[string]string{}
			for _, kv := range strings.Fields(t.keys) {
				f, k, _ := strings.Cut(kv, "=")
				want[f] = k
			}
			for i := 0; i < s.NumFields(); i++ {
				tag, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("toml"), ",")
				f := s.Field(i).Name()
				if want[f] == "" {
					for _, k := range want {
						r.check(tag != k, "key", t.typ+"."+f, w.Pos(s.Field(i).Pos()), "field %s is decoded from the key %q of another field", f, tag)
					}
					continue
				}
				r.check(tag == want[f], "key", t.typ+"."+f, w.Pos(s.Field(i).Pos()), "field %s is decoded from the key %q, not %q", f, tag, want[f])
				delete(want, f)
			}
			for f := range want {
				r.check(false, "key", t.typ+"."+f, "-", "no field %s", f)
			}
		}
	}})
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}
