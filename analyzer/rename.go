package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The obligations name functions, fields, types and constants of the
// repository. Names which are not exported are no behaviour, so a declaration
// that was only renamed is read under the name it had when the obligations were
// written: the files are type-checked, declarations which the inventory below
// has and the source has not are paired with declarations which are new, of the
// same kind, type and (as far as one can tell) use, and the sources are read
// again with every identifier of the new one spelled the old way. The program
// is the same one up to the names, whichever pairs are picked: a wrong pair can
// only make an obligation fail, never hold.

//go:embed ref/inventory.json.gz
var inventoryGz []byte

// decl is a declaration of the repository.
type decl struct {
	Name string   // e.g. "typst/syntax.Parser.eat"
	Kind string   // func, type, field, var, const
	Type string   // its type; the value too for a constant; the shape for a type
	Uses []string // names it mentions and functions which mention it
	Src  string   `json:",omitempty"` // the text of a function which is not exported
	Imps []string `json:",omitempty"` // the imports it needs
	obj  types.Object
}

func (d *decl) base() string { return d.Name[strings.LastIndexByte(d.Name, '.')+1:] }
func (d *decl) owner() string {
	return d.Name[:strings.LastIndexByte(d.Name, '.')]
}

func readInventory() []*decl {
	zr, err := gzip.NewReader(bytes.NewReader(inventoryGz))
	if err != nil {
		return nil
	}
	var out []*decl
	if json.NewDecoder(zr).Decode(&out) != nil {
		return nil
	}
	return out
}

func writeInventory(path string, ds []*decl) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	zw, _ := gzip.NewWriterLevel(f, 9)
	if err := json.NewEncoder(zw).Encode(ds); err != nil {
		return err
	}
	if err := zw.Close(); err != nil {
		return err
	}
	return f.Close()
}

// inventory lists the package-level declarations, methods and fields.
func inventory(pkgs []*packages.Package, mod string, text bool) []*decl {
	var out []*decl
	byObj := map[types.Object]*decl{}
	add := func(name, kind, typ string, o types.Object) {
		d := &decl{Name: name, Kind: kind, Type: typ, obj: o}
		byObj[o] = d
		out = append(out, d)
	}
	qual := func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), mod), "/")
	}
	own := func(p *packages.Package) bool {
		return (p.PkgPath == mod || strings.HasPrefix(p.PkgPath, mod+"/")) && !strings.HasSuffix(p.PkgPath, "/"+modelPkg)
	}
	for _, p := range pkgs {
		if !own(p) {
			continue
		}
		rel := qual(p.Types)
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			name := rel + "." + n
			switch o := sc.Lookup(n).(type) {
			case *types.Const:
				v := o.Val()
				if v.Kind() == constant.String {
					add(name, "const", types.TypeString(o.Type(), qual)+" "+constant.StringVal(v), o)
				} else {
					add(name, "const", types.TypeString(o.Type(), qual)+" "+v.ExactString(), o)
				}
			case *types.Var:
				add(name, "var", types.TypeString(o.Type(), qual), o)
			case *types.Func:
				add(name, "func", sigString(o, qual), o)
			case *types.TypeName:
				nt, ok := types.Unalias(o.Type()).(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				shape := "other"
				switch u := nt.Underlying().(type) {
				case *types.Struct:
					shape = "struct"
				case *types.Interface:
					shape = "interface"
				case *types.Basic:
					shape = u.String()
				}
				add(name, "type", shape, o)
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					add(name+"."+m.Name(), "func", sigString(m, qual), m)
				}
				if it, ok := nt.Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumExplicitMethods(); i++ {
						m := it.ExplicitMethod(i)
						add(name+"."+m.Name(), "func", sigString(m, qual), m)
					}
				}
				if st, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Embedded() {
							continue
						}
						add(name+"."+f.Name(), "field", types.TypeString(f.Type(), qual), f)
					}
				}
			}
		}
	}
	// Who mentions whom.
	uses := map[*decl]map[string]bool{}
	note := func(d *decl, n string) {
		if uses[d] == nil {
			uses[d] = map[string]bool{}
		}
		uses[d][n] = true
	}
	for _, p := range pkgs {
		if !own(p) {
			continue
		}
		for _, f := range p.Syntax {
			for _, dc := range f.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				self := byObj[p.TypesInfo.Defs[fd.Name]]
				if text && self != nil && !ast.IsExported(fd.Name.Name) {
					src, err := os.ReadFile(p.Fset.Position(fd.Pos()).Filename)
					if err != nil {
						continue
					}
					self.Src = string(src[p.Fset.Position(fd.Pos()).Offset:p.Fset.Position(fd.End()).Offset])
					imps := map[string]bool{}
					ast.Inspect(fd, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							if pn, ok := p.TypesInfo.Uses[id].(*types.PkgName); ok {
								imps[fmt.Sprintf("%s %q", pn.Name(), pn.Imported().Path())] = true
							}
						}
						return true
					})
					for i := range imps {
						self.Imps = append(self.Imps, i)
					}
					sort.Strings(self.Imps)
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.Ident:
						o := p.TypesInfo.Uses[n]
						if o == nil {
							return true
						}
						d := byObj[originObj(o)]
						if d == nil {
							if o.Pkg() != nil && self != nil && o.Parent() == o.Pkg().Scope() {
								note(self, o.Pkg().Path()+"."+o.Name())
							}
							return true
						}
						if self != nil && d != self {
							note(self, d.Name)
							note(d, "in "+self.Name)
						}
					case *ast.BasicLit:
						if self != nil {
							note(self, n.Value)
						}
					}
					return true
				})
			}
		}
	}
	for _, d := range out {
		for n := range uses[d] {
			d.Uses = append(d.Uses, n)
		}
		sort.Strings(d.Uses)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].obj.Pos() < out[j].obj.Pos() })
	return out
}

func sigString(f *types.Func, qual types.Qualifier) string {
	sig := f.Type().(*types.Signature)
	var b strings.Builder
	if r := sig.Recv(); r != nil {
		b.WriteString(types.TypeString(r.Type(), qual))
		b.WriteByte(' ')
	}
	tuple := func(t *types.Tuple) {
		b.WriteByte('(')
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), qual))
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
	if tp := sig.TypeParams(); tp != nil {
		for i := 0; i < tp.Len(); i++ {
			b.WriteString(tp.At(i).Constraint().String())
			b.WriteByte(';')
		}
	}
	tuple(sig.Params())
	tuple(sig.Results())
	return b.String()
}

func originObj(o types.Object) types.Object {
	switch o := o.(type) {
	case *types.Var:
		return o.Origin()
	case *types.Func:
		return o.Origin()
	}
	return o
}

// renames pairs declarations of the source which the inventory has not with
// declarations of the inventory which the source has not.
func renames(ref, have []*decl) map[types.Object]string {
	out := map[types.Object]string{}
	in := func(ds []*decl) map[string]bool {
		m := map[string]bool{}
		for _, d := range ds {
			m[d.Kind+" "+d.Name] = true
		}
		return m
	}
	inRef, inHave := in(ref), in(have)
	// The kinds in turn: a renamed type changes the names of all that belongs to
	// it, so the sources are read again before the next kind is looked at.
	for _, kind := range []string{"type", "const", "field", "var", "func"} {
		var miss, extra []*decl
		for _, d := range ref {
			if d.Kind == kind && !inHave[kind+" "+d.Name] && !ast.IsExported(d.base()) {
				miss = append(miss, d)
			}
		}
		for _, d := range have {
			if d.Kind == kind && !inRef[kind+" "+d.Name] && !ast.IsExported(d.base()) && d.base() != "_" {
				extra = append(extra, d)
			}
		}
		type pair struct {
			m, e  *decl
			score float64
			order int
		}
		nm, ne := map[string]int{}, map[string]int{}
		for _, m := range miss {
			nm[m.owner()+" "+m.Type]++
		}
		for _, e := range extra {
			ne[e.owner()+" "+e.Type]++
		}
		var ps []pair
		for i, m := range miss {
			for j, e := range extra {
				if m.Type != e.Type || m.owner() != e.owner() {
					continue
				}
				s := similar(m.Uses, e.Uses)
				// The only one of its type to go and the only one to come, or alike.
				sig := m.owner() + " " + m.Type
				if kind == "func" && s < 0.35 && (nm[sig] > 1 || ne[sig] > 1) {
					continue
				}
				o := i - j
				if o < 0 {
					o = -o
				}
				ps = append(ps, pair{m, e, s, o})
			}
		}
		sort.SliceStable(ps, func(i, j int) bool {
			if ps[i].score != ps[j].score {
				return ps[i].score > ps[j].score
			}
			return ps[i].order < ps[j].order
		})
		usedM, usedE := map[*decl]bool{}, map[*decl]bool{}
		for _, p := range ps {
			if usedM[p.m] || usedE[p.e] {
				continue
			}
			usedM[p.m], usedE[p.e] = true, true
			out[p.e.obj] = p.m.base()
		}
		if len(out) > 0 {
			return out
		}
	}
	return out
}

// similar is the share of common elements of two sorted lists.
func similar(a, b []string) float64 {
	in := map[string]bool{}
	for _, x := range a {
		in[x] = true
	}
	n := 0
	for _, x := range b {
		if in[x] {
			n++
		}
	}
	u := len(a) + len(b) - n
	if u == 0 {
		return 1
	}
	return float64(n) / float64(u)
}

// respell returns the files of the packages with the given objects renamed;
// nil if a name would come to mean something else.
func respell(fset *token.FileSet, pkgs []*packages.Package, ren map[types.Object]string, read func(string) ([]byte, error)) map[string][]byte {
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string]map[int]edit{}
	for _, p := range pkgs {
		visit := func(id *ast.Ident, o types.Object) {
			if o == nil {
				return
			}
			s, ok := ren[originObj(o)]
			if !ok {
				return
			}
			ps := fset.PositionFor(id.Pos(), false)
			if edits[ps.Filename] == nil {
				edits[ps.Filename] = map[int]edit{}
			}
			edits[ps.Filename][ps.Offset] = edit{ps.Offset, len(id.Name), s}
		}
		for id, o := range p.TypesInfo.Defs {
			visit(id, o)
		}
		for id, o := range p.TypesInfo.Uses {
			visit(id, o)
			// A local declaration of the old name would capture the use.
			if s, ok := ren[originObj(o)]; ok {
				if sc := innermost(p, id.Pos()); sc != nil && !isField(o) {
					if _, x := sc.LookupParent(s, id.Pos()); x != nil {
						return nil
					}
				}
			}
		}
	}
	out := map[string][]byte{}
	for name, es := range edits {
		src, err := read(name)
		if err != nil {
			return nil
		}
		var list []edit
		for _, e := range es {
			list = append(list, e)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].off > list[j].off })
		for _, e := range list {
			src = append(append(append([]byte{}, src[:e.off]...), e.s...), src[e.off+e.n:]...)
		}
		out[name] = src
	}
	return out
}

func isField(o types.Object) bool {
	switch o := o.(type) {
	case *types.Var:
		return o.IsField()
	case *types.Func:
		return o.Type().(*types.Signature).Recv() != nil
	}
	return false
}

func innermost(p *packages.Package, pos token.Pos) *types.Scope {
	for _, f := range p.Syntax {
		if f.FileStart <= pos && pos < f.FileEnd {
			if sc := p.TypesInfo.Scopes[f]; sc != nil {
				return sc.Innermost(pos)
			}
		}
	}
	return nil
}

// restore adds the functions of the inventory which are not exported and which
// the source has no longer: their code went where they were called, and it is
// analysed there; the obligations about the functions themselves say nothing
// then about the repository.
func restore(ref, have []*decl, pkgs []*packages.Package, mod string, skip map[string]bool) (names []string, files map[string][]byte) {
	in := map[string]bool{}
	types := map[string]bool{}
	for _, d := range have {
		in[d.Kind+" "+d.Name] = true
		if d.Kind == "type" {
			types[d.Name] = true
		}
	}
	dirs := map[string]*packages.Package{}
	for _, p := range pkgs {
		if len(p.GoFiles) > 0 {
			dirs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, mod), "/")] = p
		}
	}
	body := map[string]string{}
	imps := map[string]map[string]bool{}
	for _, d := range ref {
		if d.Kind != "func" || d.Src == "" || in["func "+d.Name] || skip[d.Name] {
			continue
		}
		rel := d.owner()
		if types[rel] {
			rel = rel[:strings.LastIndexByte(rel, '.')]
		} else if i := strings.LastIndexByte(rel, '/'); strings.Contains(rel[i+1:], ".") {
			continue
		}
		if dirs[rel] == nil || dirs[rel].Types.Scope().Lookup(d.base()) != nil && d.owner() == rel {
			continue
		}
		names = append(names, d.Name)
		body[rel] += d.Src + "\n\n"
		if imps[rel] == nil {
			imps[rel] = map[string]bool{}
		}
		for _, i := range d.Imps {
			imps[rel][i] = true
		}
	}
	files = map[string][]byte{}
	for rel, b := range body {
		var is []string
		for i := range imps[rel] {
			is = append(is, i)
		}
		sort.Strings(is)
		src := "package " + dirs[rel].Name + "\n\nimport (\n\t" + strings.Join(is, "\n\t") + "\n)\n\n" + b
		files[filepath.Join(filepath.Dir(dirs[rel].GoFiles[0]), "zz_typastcheck_restored.go")] = []byte(src)
	}
	return names, files
}
