package main

import (
	"fmt"
	"go/types"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
)

// The commands: the file system, the flags and the log are outside. A file
// system is a table of trees by path; every other file has unknown content. All
// accesses may fail unless stated otherwise. What counts is which files end up
// with which content, what is returned, and whether an error is.

type disk struct {
	x     *fx
	trees map[string]*Term                // by root:path
	list  func(at string) ([]entry, bool) // what is in a directory
	flags map[string]*Term
	fail  bool // accesses may fail
	gone  map[string]bool
	roots map[string]*Term // names of the opened directories
	info  map[string]entry
	log   bool
	entry *Term // the entry point of packages

	ordered bool // the order of the effects counts
}

type entry struct {
	name *Term
	kind string // dir, link, file
	kids []entry
}

func (e entry) mode() fs.FileMode {
	switch e.kind {
	case "dir":
		return fs.ModeDir | 0o755
	case "link":
		return fs.ModeSymlink | 0o777
	case "pipe":
		return fs.ModeNamedPipe | 0o644
	}
	return 0o644
}

// place is the canonical name of a file below a root.
func (d *disk) place(st *State, root, p *Term) string {
	s := rawCanon(st, p)
	if v, ok := p.strVal(); ok {
		s = path.Clean(v)
	} else if q := pathOf(st, []*Term{p}); q != nil {
		s = rawCanon(st, q)
	}
	if root == nil {
		return s
	}
	return rawCanon(st, root) + ":" + s
}

// dirOf is the directory of a path.
func dirOf(ip *Interp, st *State, p *Term) *Term {
	o, ok := stdModels["path/filepath.Dir"](ip, st, &CallCtx{Args: []*Term{p}, Type: strT})
	if !ok {
		return mkApp("dir", strT, p)
	}
	return o[0].val
}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

// may splits on the success of an access.
func (d *disk) may(ip *Interp, st *State, what string) []branch {
	for k := range d.gone {
		if what == k {
			return []branch{{st, false}}
		}
	}
	if !d.fail {
		return []branch{{st, true}}
	}
	return ip.split(st, mkSym("can "+what, boolT))
}

func (d *disk) failed() *Term { return newErr("someError", "fails") }

// result gives the values on success and zero values with an error otherwise.
func (d *disk) result(ip *Interp, st *State, c *CallCtx, what string, good func(st *State) []*Term) []Outcome {
	var outs []Outcome
	tt, ok := c.Type.(*types.Tuple)
	for _, b := range d.may(ip, st, what) {
		var vs []*Term
		if b.v {
			vs = append(good(b.st), nilErr())
		} else {
			if ok {
				for i := 0; i < tt.Len()-1; i++ {
					vs = append(vs, zero(tt.At(i).Type()))
				}
			}
			vs = append(vs, d.failed())
		}
		if !ok {
			outs = append(outs, Outcome{val: vs[len(vs)-1], st: b.st})
		} else {
			outs = append(outs, Outcome{val: mkTuple(vs...), st: b.st})
		}
	}
	return outs
}

func (d *disk) install() {
	x := d.x
	in := x.ip.Intrinsics
	def := func(name string, f func(ip *Interp, st *State, c *CallCtx) []Outcome) {
		in[name] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			return f(ip, st, c), true
		}
	}
	first := func(c *CallCtx) types.Type {
		if tt, ok := c.Type.(*types.Tuple); ok && tt.Len() > 0 {
			return tt.At(0).Type()
		}
		return c.Type
	}
	known := func(st *State, v *Term) *Term {
		st.ghost["cleanpath:"+v.stable()] = mkInt(1, nil)
		return v
	}
	rootName := func(st *State, root *Term) *Term {
		if at := d.roots[root.stable()]; at != nil {
			return at
		}
		return known(st, mkSym("name of "+rawCanon(st, root), strT))
	}
	def("(*os.Root).Name", func(ip *Interp, st *State, c *CallCtx) []Outcome { return one(rootName(st, c.Args[0]), st) })
	def("(*os.Root).Close", func(ip *Interp, st *State, c *CallCtx) []Outcome { return one(nilErr(), st) })
	read := func(ip *Interp, st *State, c *CallCtx, at string) []Outcome {
		return d.result(ip, st, c, "read "+at, func(st *State) []*Term {
			return []*Term{mkApp("bytes", first(c), mkSym("content of "+at, strT))}
		})
	}
	def("(*os.Root).ReadFile", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return read(ip, st, c, d.place(st, c.Args[0], c.Args[1]))
	})
	def("os.ReadFile", func(ip *Interp, st *State, c *CallCtx) []Outcome { return read(ip, st, c, d.place(st, nil, c.Args[0])) })
	write := func(ip *Interp, st *State, c *CallCtx, root, p, data, perm *Term) []Outcome {
		at := d.place(st, root, p)
		dir := ""
		if root != nil {
			dp := dirOf(ip, st, p)
			dir = d.place(st, root, dp)
			if s, ok := dp.strVal(); ok && s == "." {
				dir = ""
			}
		}
		return d.result(ip, st, c, "write "+at, func(st *State) []*Term {
			if dir != "" && st.ghost["dir:"+dir] == nil {
				st.event("writes to a missing directory %s", dir)
			}
			data := data
			if data.op == "app" && data.name == "bytes" {
				data = data.args[0]
			}
			mode := rawCanon(st, perm)
			if v, ok := perm.intVal(); ok {
				mode = fmt.Sprintf("%o", v)
			}
			st.event("file %s mode %s = %s", at, mode, canon(st, data))
			return nil
		})
	}
	def("(*os.Root).WriteFile", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return write(ip, st, c, c.Args[0], c.Args[1], c.Args[2], c.Args[3])
	})
	def("os.WriteFile", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return write(ip, st, c, nil, c.Args[0], c.Args[1], c.Args[2])
	})
	mkdirs := func(ip *Interp, st *State, c *CallCtx, root, p *Term) []Outcome {
		at := d.place(st, root, p)
		return d.result(ip, st, c, "make "+at, func(st *State) []*Term {
			for {
				at := d.place(st, root, p)
				if st.ghost["dir:"+at] != nil {
					return nil
				}
				st.ghost["dir:"+at] = mkInt(1, nil)
				up := dirOf(ip, st, p)
				s, ok := up.strVal()
				if ok && (s == "." || s == "/" || strings.HasPrefix(s, "..")) || !ok && (up.op != "app" || up.name == "dir" || len(up.args) >= len(p.args)) {
					return nil
				}
				p = up
			}
		})
	}
	def("(*os.Root).MkdirAll", func(ip *Interp, st *State, c *CallCtx) []Outcome { return mkdirs(ip, st, c, c.Args[0], c.Args[1]) })
	def("os.MkdirAll", func(ip *Interp, st *State, c *CallCtx) []Outcome { return mkdirs(ip, st, c, nil, c.Args[0]) })
	open := func(ip *Interp, st *State, c *CallCtx, at string, name *Term) []Outcome {
		return d.result(ip, st, c, "open "+at, func(st *State) []*Term {
			v := mkSym("root("+at+")", first(c))
			d.roots[v.stable()] = name
			return []*Term{v}
		})
	}
	def("os.OpenRoot", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return open(ip, st, c, d.place(st, nil, c.Args[0]), c.Args[0])
	})
	def("(*os.Root).OpenRoot", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return open(ip, st, c, d.place(st, c.Args[0], c.Args[1]), pathOf(st, []*Term{rootName(st, c.Args[0]), c.Args[1]}))
	})
	stat := func(ip *Interp, st *State, c *CallCtx, at string) []Outcome {
		f := d.fail
		d.fail = true
		defer func() { d.fail = f }()
		return d.result(ip, st, c, "find "+at, func(st *State) []*Term { return []*Term{mkSym("info of "+at, first(c))} })
	}
	for _, n := range []string{"Stat", "Lstat"} {
		def("os."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome { return stat(ip, st, c, d.place(st, nil, c.Args[0])) })
		def("(*os.Root)."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome {
			return stat(ip, st, c, d.place(st, c.Args[0], c.Args[1]))
		})
	}
	for n, v := range map[string]string{"UserHomeDir": "home directory", "UserCacheDir": "cache directory"} {
		def("os."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome {
			return d.result(ip, st, c, "know the "+v, func(st *State) []*Term { return []*Term{known(st, mkSym(v, strT))} })
		})
	}
	def("path/filepath.Abs", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		at := rawCanon(st, c.Args[0])
		return d.result(ip, st, c, "locate "+at, func(st *State) []*Term { return []*Term{known(st, mkSym("abs("+at+")", strT))} })
	})
	// text
	def("strconv.Unquote", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		t := c.Args[0]
		tt := c.Type.(*types.Tuple)
		if s, ok := t.strVal(); ok {
			if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' && !strings.ContainsAny(s, "\\") {
				return one(mkTuple(mkStr(s[1:len(s)-1]), nilErr()), st)
			}
			return one(mkTuple(mkStr(""), d.failed()), st)
		}
		k := rawCanon(st, t)
		var outs []Outcome
		for _, b := range ip.split(st, mkSym(k+" can be unquoted", boolT)) {
			if b.v {
				outs = append(outs, Outcome{val: mkTuple(mkSym("unquoted "+k, tt.At(0).Type()), nilErr()), st: b.st})
			} else {
				outs = append(outs, Outcome{val: mkTuple(mkStr(""), d.failed()), st: b.st})
			}
		}
		return outs
	})
	def(syn+".Parse", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		at := strings.TrimPrefix(rawCanon(st, c.Args[0]), "content of ")
		if t := d.trees[at]; t != nil {
			return one(t, st)
		}
		// a text without imports
		sn := x.r.named(syn, "SyntaxNode")
		lt := x.r.named(syn, "LeafNode")
		o := "new:tree of " + at
		l := o + ".leaf"
		if st.heap[o] == nil {
			st.heap[l] = x.mk(lt, map[string]*Term{"Kind": x.r.w.enum(syn, "SyntaxKind", "SyntaxKind")["Text"], "Text": c.Args[0]})
			st.heap[o] = x.r.wrapRepr(sn, zero(sn), mkIface(types.NewPointer(lt), mkPtr(l, types.NewPointer(lt)), nil))
		}
		return one(mkPtr(o, types.NewPointer(sn)), st)
	})
	def("(*bytes.Buffer).Bytes", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		return one(mkApp("bytes", c.Type, sbGet(ip, st, c.Args[0])), st)
	})
	// directories
	for _, w := range []string{"path/filepath.Walk", "path/filepath.WalkDir"} {
		def(w, func(ip *Interp, st *State, c *CallCtx) []Outcome { return d.walk(ip, st, c) })
	}
	for _, p := range []string{"io/fs.FileInfo", "io/fs.DirEntry", "os.FileInfo", "os.DirEntry"} {
		info := func(name string, f func(e entry) *Term) {
			def("iface:"+p+"."+name, func(ip *Interp, st *State, c *CallCtx) []Outcome {
				e, ok := d.info[c.Args[0].name]
				if !ok {
					return one(mkSym(name+" of "+c.Args[0].stable(), c.Type), st)
				}
				v := f(e)
				if v == nil {
					return one(mkSym(name+" of "+c.Args[0].stable(), c.Type), st)
				}
				if isInt(c.Type) {
					n, _ := v.intVal()
					v = mkInt(n, c.Type)
				}
				return one(v, st)
			})
		}
		info("IsDir", func(e entry) *Term { return mkBool(e.kind == "dir") })
		info("Name", func(e entry) *Term { return e.name })
		info("Mode", func(e entry) *Term { return mkInt(int64(e.mode()), nil) })
		info("Type", func(e entry) *Term { return mkInt(int64(e.mode().Type()), nil) })
	}
	mode := func(name string, f func(m fs.FileMode) bool) {
		def("(io/fs.FileMode)."+name, func(ip *Interp, st *State, c *CallCtx) []Outcome {
			if n, ok := c.Args[0].intVal(); ok {
				return one(mkBool(f(fs.FileMode(n))), st)
			}
			return one(mkApp(name, boolT, c.Args[0]), st)
		})
	}
	mode("IsRegular", fs.FileMode.IsRegular)
	mode("IsDir", fs.FileMode.IsDir)
	// flags and the end of the program
	defined := func(ip *Interp, st *State, name string, at, def *Term, c *CallCtx) {
		st.event("flag -%s defaults to %s", name, canon(st, def))
		st.ghost["flag:"+name] = at
		ip.store(st, at, def, c.Pos)
	}
	for _, n := range []string{"Bool", "String"} {
		def("flag."+n+"Var", func(ip *Interp, st *State, c *CallCtx) []Outcome {
			name, _ := c.Args[1].strVal()
			defined(ip, st, name, c.Args[0], c.Args[2], c)
			return one(mkTuple(), st)
		})
		def("flag."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome {
			name, _ := c.Args[0].strVal()
			p := mkPtr("new:flag "+name, c.Type)
			st.heap["new:flag "+name] = c.Args[1]
			defined(ip, st, name, p, c.Args[1], c)
			return one(p, st)
		})
	}
	def("flag.Parse", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		var names []string
		for k := range st.ghost {
			if n, ok := strings.CutPrefix(k, "flag:"); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			at := st.ghost["flag:"+n]
			v := d.flags[n]
			if v == nil {
				v = mkSym("flag -"+n, at.typ.Underlying().(*types.Pointer).Elem())
			}
			ip.store(st, at, v, c.Pos)
		}
		st.ghost["parsed"] = mkInt(1, nil)
		return one(mkTuple(), st)
	})
	def("flag.NArg", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		if st.ghost["parsed"] == nil {
			return one(mkInt(0, intT), st)
		}
		return one(mkSym("number of arguments", intT), st)
	})
	def("flag.Arg", func(ip *Interp, st *State, c *CallCtx) []Outcome {
		if st.ghost["parsed"] == nil {
			return one(mkStr(""), st)
		}
		return one(mkSym("argument "+rawCanon(st, c.Args[0]), strT), st)
	})
	for _, n := range []string{"PrintDefaults", "Usage"} {
		def("flag."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome { return one(mkTuple(), st) })
	}
	exit := func(ip *Interp, st *State, c *CallCtx) []Outcome {
		st.ghost["exits"] = mkInt(1, nil)
		if len(c.Args) == 1 {
			if n, ok := c.Args[0].intVal(); ok && n == 0 {
				st.ghost["exits"] = mkInt(0, nil)
			}
		}
		return []Outcome{{st: st, panic: true, msg: "exits", pos: c.Pos, val: mkStr("exits")}}
	}
	def("os.Exit", exit)
	for _, l := range []string{"log", "github.com/mewpkg/clog"} {
		for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
			def(l+"."+n, exit)
		}
		for _, n := range []string{"Printf", "Println", "Print", "Debugf", "SetPathLevel", "SetMainPrefixName"} {
			def(l+"."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome { return one(mkTuple(), st) })
		}
		for _, n := range []string{"Infof", "Warnf"} {
			def(l+"."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome {
				if d.log {
					var as []string
					if el, ok := ip.sliceElems(st, c.Args[1]); ok {
						for _, e := range el {
							if e.op == "iface" {
								e = e.args[0]
							}
							as = append(as, canon(st, e))
						}
					}
					st.event("report(%s)", strings.Join(as, ", "))
				}
				return one(mkTuple(), st)
			})
		}
	}
	for _, n := range []string{"Fprintln", "Fprintf", "Println", "Printf"} {
		old := stdModels["fmt."+n]
		def("fmt."+n, func(ip *Interp, st *State, c *CallCtx) []Outcome {
			if old != nil {
				if o, ok := old(ip, st, c); ok {
					return o
				}
			}
			return one(mkTuple(mkSym("n", intT), nilErr()), st)
		})
	}
	final := x.u.Final
	x.u.Final = func(o *Outcome, c *Case) {
		final(o, c)
		d.observe(o, c)
	}
}

// walk is the contract of walking a directory.
func (d *disk) walk(ip *Interp, st *State, c *CallCtx) []Outcome {
	fv := c.Args[1]
	at := d.place(st, nil, c.Args[0])
	if fv.op != "fn" {
		ip.fail("walk with an unknown function")
		return nil
	}
	visit := func(st *State, p *Term, info *Term, err *Term, n string) []Outcome {
		cc := &CallCtx{Args: []*Term{p, info, err}, Site: c.Site, Ctx: c.Ctx + "/" + n, Type: errT(), Pos: c.Pos}
		return ip.callFn(fv.fn, fv.args, cc, st)
	}
	var it types.Type
	if fn := fv.fn; fn != nil && len(fn.Params) >= 2 {
		it = fn.Params[len(fn.Params)-2].Type()
	}
	skip := func(v *Term) string {
		s := v.stable()
		switch {
		case strings.Contains(s, ".SkipDir"):
			return "dir"
		case strings.Contains(s, ".SkipAll"):
			return "all"
		}
		return ""
	}
	isNil := func(st *State, v *Term) (bool, bool) {
		if v.op == "nil" {
			return true, true
		}
		if v.op == "iface" || skip(v) != "" {
			return false, true
		}
		return ip.truth(st, mkEq(v, mkNil(errT())))
	}
	var list func(st *State, dir *Term, es []entry, n string) []Outcome // value: nil, skip or error
	item := func(st *State, p *Term, e entry, n string) []Outcome {
		info := mkSym("info:"+n, it)
		d.info[info.name] = e
		var outs []Outcome
		for _, o := range visit(st, p, info, nilErr(), n) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			z, ok := isNil(o.st, o.val)
			if !ok {
				ip.fail("unknown result of a walk function: %s", o.val)
				return nil
			}
			if !z {
				if skip(o.val) == "dir" && e.kind == "dir" {
					o.val = nilErr()
				}
				outs = append(outs, o)
				continue
			}
			if e.kind != "dir" {
				outs = append(outs, o)
				continue
			}
			for _, q := range list(o.st, p, e.kids, n) {
				if !q.panic && q.val.op != "nil" && skip(q.val) == "dir" {
					q.val = nilErr()
				}
				outs = append(outs, q)
			}
		}
		return outs
	}
	list = func(st *State, dir *Term, es []entry, n string) []Outcome {
		if len(es) == 0 {
			return one(nilErr(), st)
		}
		var outs []Outcome
		for _, o := range item(st, pathOf(st, []*Term{dir, es[0].name}), es[0], n+"/"+es[0].name.stable()) {
			if o.panic || o.val.op != "nil" {
				outs = append(outs, o)
				continue
			}
			outs = append(outs, list(o.st, dir, es[1:], n)...)
		}
		return outs
	}
	end := func(outs []Outcome) []Outcome {
		for i, o := range outs {
			if !o.panic && skip(o.val) != "" {
				outs[i].val = nilErr()
			}
		}
		return outs
	}
	es, ok := []entry(nil), false
	if d.list != nil {
		es, ok = d.list(at)
	}
	if !ok {
		return end(visit(st, c.Args[0], mkNil(it), d.failed(), at))
	}
	return end(item(st, c.Args[0], entry{name: mkApp("base", strT, c.Args[0]), kind: "dir", kids: es}, at))
}

// observe keeps what can be seen from outside.
func (d *disk) observe(o *Outcome, c *Case) {
	for k, v := range c.R {
		if strings.HasPrefix(v, "someError:") {
			c.R = map[string]string{k: "fails"}
			c.E = nil
			return
		}
	}
	for k := range c.R {
		if strings.HasPrefix(k, "now ") {
			delete(c.R, k)
		}
	}
	ev := append([]string{}, c.E...)
	if !d.ordered {
		sort.Strings(ev)
	}
	c.E = ev
}

// unordered renders a list without order and repetition.
func (d *disk) unordered(o *Outcome, i int) string {
	v := o.val
	if v.op == "tuple" {
		v = v.args[i]
	}
	if v.op == "nil" {
		return "[]"
	}
	el, ok := d.x.ip.sliceElems(o.st, v)
	if !ok {
		return canon(o.st, v)
	}
	m := map[string]bool{}
	for _, e := range el {
		m[canon(o.st, e)] = true
	}
	return "{" + strings.Join(sortedKeys(m), ", ") + "}"
}

func (r *Report) disk(full, unit string) *disk {
	x := r.fx(full, unit)
	x.ip.Prune = true
	x.ip.MaxVisits = 20
	x.ip.MaxRec = 80
	x.ip.MaxDepth = 240
	d := &disk{x: x, trees: map[string]*Term{}, flags: map[string]*Term{}, gone: map[string]bool{}, roots: map[string]*Term{}, info: map[string]entry{}}
	d.install()
	for _, n := range []string{"ParsePackageSpec"} {
		x.r.fn(syn + "." + n)
		x.ip.Intrinsics[syn+"."+n] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			tt := c.Type.(*types.Tuple)
			k := rawCanon(st, c.Args[0])
			var outs []Outcome
			if s, ok := c.Args[0].strVal(); ok {
				v := x.constSpec(s)
				if v == nil {
					return one(mkTuple(mkNil(tt.At(0).Type()), d.failed()), st), true
				}
				o := "new:package " + s
				st.heap[o] = v
				return one(mkTuple(mkPtr(o, tt.At(0).Type()), nilErr()), st), true
			}
			for _, b := range ip.split(st, mkSym(k+" names a package", boolT)) {
				if !b.v {
					outs = append(outs, Outcome{val: mkTuple(mkNil(tt.At(0).Type()), d.failed()), st: b.st})
					continue
				}
				o := "new:package of " + k
				if b.st.heap[o] == nil {
					b.st.heap[o] = x.specOf(k)
				}
				outs = append(outs, Outcome{val: mkTuple(mkPtr(o, tt.At(0).Type()), nilErr()), st: b.st})
			}
			return outs, true
		}
	}
	x.lookup(syn+".ParsePackageVersion", "version")
	vf := x.ip.Intrinsics[syn+".ParsePackageVersion"]
	x.ip.Intrinsics[syn+".ParsePackageVersion"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		if s, ok := c.Args[0].strVal(); ok {
			if v := x.constVersion(s); v != nil {
				return one(mkTuple(v, nilErr()), st), true
			}
			return one(mkTuple(zero(c.Type.(*types.Tuple).At(0).Type()), d.failed()), st), true
		}
		return vf(ip, st, c)
	}
	x.r.fn(syn + ".ParsePackageManifestFromToml")
	x.ip.Intrinsics[syn+".ParsePackageManifestFromToml"] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		tt := c.Type.(*types.Tuple)
		k := rawCanon(st, c.Args[0])
		mt := r.named(syn, "PackageManifest")
		return d.result(ip, st, c, "decode "+k, func(st *State) []*Term {
			o := "new:manifest in " + k
			it := r.named(syn, "PackageInfo")
			ep := d.entry
			if ep == nil {
				ep = mkSym("entrypoint in "+k, strT)
			}
			info := x.mk(it, map[string]*Term{"Entrypoint": ep})
			pt := r.needField(mt, "Pkg")
			if _, ok := pt.Underlying().(*types.Pointer); ok {
				st.heap[o+".Pkg"] = info
				info = mkPtr(o+".Pkg", pt)
			}
			st.heap[o] = x.mk(mt, map[string]*Term{"Pkg": info})
			return []*Term{mkPtr(o, tt.At(0).Type())}
		}), true
	}
	return d
}

// file gives a file the tree.
func (d *disk) file(root, p, shape string) *disk {
	name := "n"
	if len(d.trees) > 0 {
		name = fmt.Sprintf("n%d", len(d.trees))
	}
	d.trees[root+":"+p] = d.x.node(shape, name)
	return d
}

// preview lists the versions of a package in the shared packages directory;
// there are no local packages.
func preview(es ...entry) func(string) ([]entry, bool) {
	return func(at string) ([]entry, bool) {
		if strings.Contains(at, `"preview"`) {
			return es, true
		}
		return nil, false
	}
}

func dirEntry(name string, kids ...entry) entry {
	return entry{name: mkSym("entry:"+name, strT), kind: "dir", kids: kids}
}

func imp(s string) string { return "I:ModuleImport(L:Import L:Space " + s + ")" }
func inc(s string) string { return "I:ModuleInclude(L:Include L:Space " + s + ")" }

func str(s string) string { return "L:Str='\"" + s + "\"'" }

// treeShapes are the shapes of a single file.
func treeShapes() []string {
	var out []string
	for _, s := range []string{
		"L:Text", "L:Hash", "I:Markup", "I:Markup(L:Text)", "I:Markup(E)",
		// what is imported
		"I:Markup(L:Hash " + imp("L:Str") + " L:Text)",
		"I:Markup(L:Hash " + inc("L:Str") + " L:Text)",
		"I:Markup(L:Hash " + imp("I:Parenthesized(L:LeftParen L:Str L:RightParen)") + ")",
		"I:Markup(L:Hash " + inc("I:Parenthesized(L:LeftParen L:Space L:Str L:RightParen)") + ")",
		"I:Markup(L:Hash " + imp("I:Parenthesized(L:LeftParen L:Ident L:RightParen)") + ")",
		"I:Markup(L:Hash " + imp("L:Ident") + ")",
		"I:Markup(L:Hash " + imp("I:FieldAccess(L:Ident L:Dot L:Ident)") + ")",
		"I:Markup(L:Hash " + imp("I:FuncCall(L:Ident I:Args(L:LeftParen L:Str L:RightParen))") + ")",
		"I:Markup(L:Hash " + inc("I:FuncCall(L:Ident I:Args(L:LeftParen L:Str L:RightParen))") + ")",
		"I:Markup(L:Hash " + imp("E") + ")",
		"I:Markup(L:Hash " + imp("E L:Str") + ")",
		"I:Markup(L:Hash " + inc("E L:Str") + ")",
		"I:Markup(L:Hash I:ModuleImport)",
		// what follows
		"I:Markup(L:Hash " + imp("L:Str L:Colon L:Space L:Star") + ")",
		"I:Markup(L:Hash " + imp("L:Str L:Colon L:Space I:ImportItems(I:ImportItemPath(L:Ident) L:Comma L:Space I:RenamedImportItem(L:Ident L:As L:Ident))") + ")",
		"I:Markup(L:Hash " + imp("L:Str L:Space L:As L:Space L:Ident") + ")",
		"I:Markup(L:Hash " + imp("L:Str L:Space L:As L:Space L:Ident L:Colon L:Star") + ")",
		"I:Markup(L:Hash " + imp("I:Parenthesized(L:LeftParen L:Str L:RightParen) L:Space L:As L:Space L:Ident") + ")",
		"I:Markup(L:Hash " + imp("L:Str E") + ")",
		// where
		imp("L:Str"),
		"I:Code(" + imp("L:Str") + " L:Semicolon " + inc("L:Str") + ")",
		"I:Markup(L:Text L:Hash I:CodeBlock(L:LeftBrace I:Code(" + imp("L:Str") + " L:Semicolon) L:RightBrace))",
		"I:Markup(L:Hash I:FuncCall(L:Ident I:Args(L:LeftParen I:ContentBlock(L:LeftBracket I:Markup(L:Hash " + inc("L:Str") + ") L:RightBracket) L:RightParen)))",
		"I:Markup(L:Hash I:LetBinding(L:Let L:Ident L:Eq " + inc("L:Str") + "))",
		"I:Markup(L:Hash " + inc("I:CodeBlock(L:LeftBrace I:Code("+inc("L:Str")+" L:Semicolon L:Ident) L:RightBrace)") + ")",
		// other strings
		"I:Markup(L:Hash L:Str L:Hash I:Parenthesized(L:LeftParen L:Str L:RightParen))",
		"I:Markup(L:Hash I:FuncCall(L:Ident='text' I:Args(L:LeftParen L:Str L:RightParen)))",
	} {
		out = append(out, "d/a.typ="+s)
	}
	return out
}

// projects are the shapes of several files.
func projects() [][]string {
	m := func(s string) string { return "I:Markup(L:Hash " + s + " L:Text)" }
	a := "d/a.typ="
	two := func(s, t string) string { return "I:Markup(L:Hash " + s + " L:Hash " + t + ")" }
	pkg := func(s string) string { return imp(str("@preview/" + s + ":1.0.0")) }
	use := func(f, s string) string {
		return "I:FuncCall(L:Ident='" + f + "' I:Args(L:LeftParen " + str(s) + " L:RightParen))"
	}
	return [][]string{
		{a + m(inc(str("b.typ")))},
		{a + m(imp(str("b.typ")))},
		{a + m(inc(str("/b.typ"))), "b.typ=" + m(imp("L:Str"))},
		{a + m(inc(str("b.typ"))), "d/b.typ=" + m(imp("L:Str"))},
		{a + m(imp(str("../e/b.typ"))), "e/b.typ=" + m(imp("L:Str"))},
		{a + m(inc(str("a.typ")))},
		{a + m(inc(str("/d/a.typ")))},
		{a + m(inc(str("./b.typ"))), "d/b.typ=" + m(inc(str("a.typ")))},
		{a + two(inc(str("b.typ")), inc(str("c.typ"))), "d/b.typ=" + m(imp(str("c.typ"))), "d/c.typ=" + m(imp("L:Str"))},
		{a + two(inc(str("b.typ")), imp(str("../d/b.typ"))), "d/b.typ=" + m(imp("L:Str"))},
		{a + two(inc(str("s/b.typ")), imp("L:Str")), "d/s/b.typ=" + m(inc(str("c.typ"))), "d/s/c.typ=" + m(imp(str("../a.typ")))},
		{a + two(pkg("p"), inc(str("b.typ"))), "d/b.typ=" + m(pkg("q"))},
		{a + two(inc(str("s/b.typ")), inc(str("c.typ"))), "d/s/b.typ=" + m(pkg("q")), "d/c.typ=" + two(pkg("r"), inc(str("s/b.typ")))},
		{a + two(use("image", "p.png"), inc(str("s/b.typ"))), "d/s/b.typ=" + two(use("image", "p.png"), use("read", "/d/q.txt"))},
	}
}

func init() {
	register(&Property{ID: "T38", Run: func(w *World, r *Report) {
		upd := "cmd/update-typ."
		var xs []*fx
		file := func(fn, unit string, fail bool, uni string, files ...string) *disk {
			d := r.disk(upd+fn, unit)
			d.fail = fail
			d.log = true
			x := d.x
			x.label("files", fmt.Sprint(fail, " ", uni, " ", strings.Join(files, "; ")))
			d.global(upd+"universeDir", mkStr(uni))
			d.list = preview(dirEntry("entry"))
			for _, f := range files {
				p, s, _ := strings.Cut(f, "=")
				d.file("project", p, s)
			}
			xs = append(xs, x)
			return d
		}
		app := func(fail bool, files ...string) {
			d := file("rewrite", "update-file", fail, "", files...)
			d.x.u.Args = []*Term{d.x.sym(0, "out"), d.x.sym(1, "project"), mkStr("d/a.typ")}
			d = file("checkLib", "update-lib", fail, "", files...)
			d.x.u.Args = []*Term{d.x.sym(0, "project"), mkStr("d/a.typ"), mkStr("@preview/lib:1.0.0")}
		}
		for i, s := range treeShapes() {
			app(false, s)
			if i == 5 || i == 6 {
				app(true, s)
			}
		}
		for i, p := range projects() {
			app(false, p...)
			if i == 3 {
				app(true, p...)
			}
		}
		r.decideAll("file", xs...)
		// which version
		xs = nil
		latest := func(what string, list func(at string) ([]entry, bool), uni string) {
			d := r.disk(upd+"latestSpec", "update-latest")
			d.x.label("versions", what)
			d.list = list
			d.global(upd+"universeDir", mkStr(uni))
			d.x.u.Args = []*Term{d.x.spec("s")}
			xs = append(xs, d.x)
		}
		e := func(n, k string, kids ...entry) entry {
			x := dirEntry(n, kids...)
			x.kind = k
			return x
		}
		both := func(p, l []entry) func(string) ([]entry, bool) {
			return func(at string) ([]entry, bool) {
				switch {
				case strings.Contains(at, `"preview"`):
					return p, p != nil
				case strings.Contains(at, `"local"`):
					return l, l != nil
				}
				return nil, false
			}
		}
		no := []entry{}
		latest("nothing", both(nil, nil), "")
		latest("empty", both(no, no), "")
		latest("one", both([]entry{e("a", "dir")}, nil), "")
		latest("one local", both(nil, []entry{e("a", "dir")}), "")
		latest("link", both([]entry{e("a", "link")}, nil), "")
		latest("file", both([]entry{e("a", "file")}, nil), "")
		latest("pipe", both([]entry{e("a", "pipe")}, nil), "")
		latest("nested", both([]entry{e("a", "dir", e("b", "dir"))}, nil), "")
		latest("two", both([]entry{e("a", "dir"), e("b", "dir")}, nil), "")
		latest("link and directory", both([]entry{e("a", "link"), e("b", "dir")}, nil), "")
		latest("file and directory", both([]entry{e("a", "file"), e("b", "dir")}, nil), "")
		latest("preview and local", both([]entry{e("a", "dir")}, []entry{e("b", "dir")}), "")
		latest("universe", func(at string) ([]entry, bool) {
			if strings.Contains(at, "uni") {
				return []entry{e("a", "dir")}, true
			}
			return nil, false
		}, "uni")
		latest("universe and preview", func(at string) ([]entry, bool) {
			if strings.Contains(at, "uni") {
				return []entry{e("a", "dir")}, true
			}
			return []entry{e("b", "dir")}, strings.Contains(at, "preview")
		}, "uni")
		r.decideAll("version", xs...)
		xs = nil
		for _, uni := range []string{"", "uni"} {
			d := r.disk(upd+"getPackageDir", "update-where")
			d.fail = true
			d.x.label("universe", uni)
			d.global(upd+"universeDir", mkStr(uni))
			d.x.u.Args = []*Term{d.x.spec("s")}
			xs = append(xs, d.x)
		}
		r.decideAll("package", xs...)
		// the packages which packages use
		xs = nil
		for _, g := range packageGraphs() {
			d := r.disk(upd+"checkLibs", "update-libs")
			d.log = true
			d.graph(g)
			d.global(upd+"universeDir", mkStr(""))
			d.x.u.Args = []*Term{d.roots0(g)}
			xs = append(xs, d.x)
		}
		r.decideAll("packages", xs...)
		r.strip(upd, "update-strip")
		xs = nil
		for _, f := range []string{"", "-i", "-root", "-i -root", "-i -out", "-out"} {
			d := r.disk(upd+"main", "update-main")
			d.command(upd, f)
			d.cut(upd+"rewrite", "rewrite")
			d.cut(upd+"checkLibs", "check")
			xs = append(xs, d.x)
		}
		r.decideAll("command", xs...)
	}})
}

func init() {
	register(&Property{ID: "T37", Run: func(w *World, r *Report) {
		off := "cmd/offline-typ."
		var xs []*fx
		app := func(fail bool, files ...string) {
			d := r.disk(off+"rewrite", "offline-file")
			d.fail = fail
			d.x.label("files", fmt.Sprint(fail, " ", strings.Join(files, "; ")))
			for _, f := range files {
				p, s, _ := strings.Cut(f, "=")
				d.file("project", p, s)
			}
			d.x.u.Args = []*Term{d.x.sym(0, "out"), d.x.sym(1, "project"), mkStr("d/a.typ")}
			xs = append(xs, d.x)
		}
		for i, s := range treeShapes() {
			app(false, s)
			if i == 5 || i == 6 {
				app(true, s)
			}
		}
		for i, s := range resources() {
			app(false, s)
			if i == 0 {
				app(true, s)
			}
		}
		for i, p := range projects() {
			app(false, p...)
			if i == 3 {
				app(true, p...)
			}
		}
		r.decideAll("file", xs...)
		// packages
		xs = nil
		for i, g := range packageGraphs() {
			d := r.disk(off+"rewriteLibs", "offline-libs")
			d.graph(g)
			d.fail = i == 5
			d.x.u.Args = []*Term{d.x.sym(0, "out"), d.roots0(g)}
			xs = append(xs, d.x)
		}
		r.decideAll("packages", xs...)
		xs = nil
		for _, fail := range []bool{false, true} {
			d := r.disk(off+"getPackageDir", "offline-where")
			d.fail = fail
			d.x.label("fail", fmt.Sprint(fail))
			d.x.u.Args = []*Term{d.x.spec("s")}
			xs = append(xs, d.x)
		}
		r.decideAll("package", xs...)
		// directories
		xs = nil
		e := func(n, k string, kids ...entry) entry {
			x := dirEntry(n, kids...)
			x.kind = k
			return x
		}
		for i, es := range [][]entry{nil, {}, {e("a", "file")}, {e("a", "dir")}, {e("a", "link")}, {e("a", "pipe")}, {e("a", "file"), e("b", "file")}, {e("a", "dir", e("b", "file"), e("c", "dir", e("d", "file"))), e("f", "file")}, {e("a", "pipe"), e("b", "file")}} {
			for _, fail := range []bool{false, true} {
				if fail && i > 3 {
					continue
				}
				d := r.disk(off+"copyDir", "offline-fonts")
				d.fail = fail
				d.x.label("directory", fmt.Sprint(fail, i))
				d.list = func(string) ([]entry, bool) { return es, es != nil }
				d.x.u.Args = []*Term{d.x.sym(0, "out"), mkStr("fonts")}
				xs = append(xs, d.x)
			}
		}
		r.decideAll("fonts", xs...)
		r.strip(off, "offline-strip")
		xs = nil
		for _, f := range []string{"", "-root", "-out", "-font-path", "-font-path -root -out"} {
			d := r.disk(off+"main", "offline-main")
			d.command(off, f)
			d.cut(off+"copyDir", "copy")
			d.cut(off+"rewrite", "rewrite")
			d.cut(off+"rewriteLibs", "libraries")
			xs = append(xs, d.x)
		}
		r.decideAll("command", xs...)
	}})
}

// global sets a package-level variable.
func (d *disk) global(name string, v *Term) {
	i := strings.LastIndex(name, ".")
	d.x.st.heap["g:"+d.x.r.w.Mod+"/"+name[:i]+name[i:]] = v
}

func (x *fx) constVersion(s string) *Term {
	t := x.r.named(syn, "PackageVersion")
	ws := strings.Split(s, ".")
	if len(ws) != 3 {
		return nil
	}
	m := map[string]*Term{}
	for i, f := range []string{"Major", "Minor", "Patch"} {
		n, err := strconv.ParseUint(ws[i], 10, 32)
		if err != nil {
			return nil
		}
		m[f] = mkInt(int64(n), x.r.needField(t, f))
	}
	return x.mk(t, m)
}

func (x *fx) constSpec(s string) *Term {
	rest, ok := strings.CutPrefix(s, "@")
	ns, rest, ok2 := strings.Cut(rest, "/")
	name, ver, ok3 := strings.Cut(rest, ":")
	if !ok || !ok2 || !ok3 {
		return nil
	}
	v := x.constVersion(ver)
	if v == nil {
		return nil
	}
	return x.mk(x.r.named(syn, "PackageSpec"), map[string]*Term{"Namespace": mkStr(ns), "Name": mkStr(name), "Version": v})
}

// packageGraphs lists what the entry points of packages contain; the first line
// lists the packages to start with. "name: shape" is a package in the preview
// directory; "name+: version" is an installed version of it.
func packageGraphs() []string {
	im := func(s string) string { return imp(str("@preview/" + s + ":1.0.0")) }
	m := func(ss ...string) string {
		o := "I:Markup("
		for i, s := range ss {
			if i > 0 {
				o += " "
			}
			o += "L:Hash " + s
		}
		return o + ")"
	}
	return []string{
		"",
		"a",
		"a a",
		"a b",
		"a\na=" + m(imp("L:Str")),
		"a\na=" + m(im("a")),
		"a\na=" + m(im("b")),
		"a\na=" + m(im("b")) + "\nb=" + m(im("a")),
		"a b\na=" + m(im("c")) + "\nb=" + m(im("c")) + "\nc=" + m(im("d")),
		"b a\na=" + m(im("b"), im("c")) + "\nc=" + m(im("a")),
		"a\na=" + m(im("b")) + "\nb+ 1.0.0 2.0.0",
		"a\na=" + m(im("b")) + "\nb+ 1.0.0 2.0.0 1.5.0\nb=" + m(im("c")) + "\nc+ 0.9.0 1.0.0",
		"a\na=" + m(im("b")) + "\nb=" + m(im("c")) + "\nc+ 1.0.0 1.0.1 x",
		"a b\na=" + m(im("b"), im("c")) + "\nb=" + m(im("a"), im("d")) + "\nc=" + m(im("b"), im("a"), im("e")) + "\ne=" + m(im("f")) + "\nf+ 1.0.0 2.0.0",
		"a b\na=" + m(inc(str("x.typ"))) + "\na/x.typ=" + m(im("c")) + "\nb=" + m(inc(str("x.typ"))) + "\nb/x.typ=" + m(im("d")),
	}
}

// graph makes the packages available.
func (d *disk) graph(g string) {
	d.x.label("packages", g)
	d.entry = mkStr("lib.typ")
	vers := map[string][]entry{}
	dir := func(p string) string {
		return `root("‹path(cache directory, "typst", "packages", "preview", "` + p + `", "1.0.0")›")`
	}
	for _, l := range strings.Split(g, "\n")[1:] {
		if p, vs, ok := strings.Cut(l, "+ "); ok {
			for _, v := range strings.Fields(vs) {
				vers[p] = append(vers[p], entry{name: mkStr(v), kind: "dir"})
			}
			continue
		}
		p, shape, _ := strings.Cut(l, "=")
		f := "lib.typ"
		if q, file, ok := strings.Cut(p, "/"); ok {
			p, f = q, file
		}
		d.file(dir(p), f, shape)
	}
	d.list = func(at string) ([]entry, bool) {
		for p, es := range vers {
			if strings.Contains(at, `"preview", "`+p+`")`) {
				return es, true
			}
		}
		return nil, false
	}
}

// roots0 is the list of packages to start with.
func (d *disk) roots0(g string) *Term {
	x := d.x
	first, _, _ := strings.Cut(g, "\n")
	pt := types.NewPointer(x.r.named(syn, "PackageSpec"))
	var ps []*Term
	for i, p := range strings.Fields(first) {
		o := fmt.Sprintf("new:start %d", i)
		x.st.heap[o] = x.constSpec("@preview/" + p + ":1.0.0")
		ps = append(ps, mkPtr(o, pt))
	}
	return x.list("start", pt, ps...)
}

// resources are the shapes of files that refer to other files.
func resources() []string {
	var out []string
	args := func(s string) string { return "I:Args(L:LeftParen " + s + " L:RightParen)" }
	call := func(f, s string) string { return "I:Markup(L:Hash I:FuncCall(L:Ident='" + f + "' " + args(s) + "))" }
	named := func(k, v string) string { return "I:Named(L:Ident='" + k + "' L:Colon L:Space " + v + ")" }
	for _, f := range []string{"image", "read", "plugin", "bibliography", "table", "json"} {
		out = append(out, call(f, "L:Str"), call(f, "L:Ident L:Comma L:Space L:Str"), call(f, "L:Ident"))
	}
	out = append(out, "I:Markup(L:Hash I:FuncCall(L:Ident I:Args(L:LeftParen L:Str L:RightParen)))",
		call("image", "L:Str L:Comma "+named("alt", "L:Str")),
		call("image", named("alt", "L:Str")+" L:Comma L:Str"),
		call("image", "E L:Str"),
		call("image", "I:FuncCall(L:Ident='read' "+args("L:Str")+")"),
		"I:Markup(L:Hash I:FuncCall(L:Ident='image' L:Str))",
		"I:Markup(L:Hash I:FuncCall(L:Ident='image' "+args("L:Str")+" "+args("L:Str")+"))",
		"I:Markup(L:Hash I:FuncCall(I:FieldAccess(L:Ident='std' L:Dot L:Ident='image') "+args("L:Str")+"))",
		"I:Markup(L:Hash I:FuncCall(E "+args("L:Str")+"))",
		"I:Markup(L:Hash I:FuncCall(L:Ident='figure' "+args("I:FuncCall(L:Ident='image' "+args("L:Str")+")")+"))",
		call("bibliography", "L:Str L:Comma "+named("style", "L:Str")),
		call("bibliography", "L:Str L:Comma "+named("full", "L:Bool")+" L:Comma "+named("style", "L:Str")),
		call("bibliography", "L:Str L:Comma "+named("title", "L:Str")),
		call("bibliography", "L:Str L:Comma I:Named(L:Ident L:Colon L:Str)"),
		call("bibliography", named("style", "L:Str")),
		call("bibliography", "I:Named(L:Ident='style' L:Colon L:Ident)"),
		call("bibliography", "I:Named(E)"),
		"I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='bibliography' "+args(named("style", "L:Str"))+"))",
		"I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='bibliography' "+args("L:Str L:Comma "+named("style", "L:Str"))+"))",
		"I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='text' "+args(named("style", "L:Str"))+"))",
		"I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='image' "+args("L:Str")+"))",
		"I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='bibliography' "+args(named("title", "I:ContentBlock(L:LeftBracket I:Markup(L:Hash I:SetRule(L:Set L:Space L:Ident='bibliography' "+args(named("style", "L:Str"))+")) L:RightBracket)"))+"))",
		"I:Markup(L:Hash I:FuncCall(L:Ident='image' "+args(str("p.png"))+") L:Hash I:FuncCall(L:Ident='read' "+args(str("p.png"))+"))",
		"I:Markup(L:Hash I:FuncCall(L:Ident='image' "+args(str("../p.png"))+") L:Hash I:FuncCall(L:Ident='read' "+args(str("/d/p.png"))+"))",
	)
	for i, s := range out {
		out[i] = "d/a.typ=" + s
	}
	return out
}

// strip decides the path of a file below a directory.
func (r *Report) strip(pre, unit string) {
	var xs []*fx
	for _, c := range [][2]string{
		{"/a/b", "/a"}, {"/a/b/c.typ", "/a"}, {"/a", "/a"}, {"/ab/c", "/a"}, {"/a", "/a/b"}, {"/a/b", "/"}, {"/", "/"}, {"/b/a", "/a"},
		{"/a/b/../c", "/a/"}, {"/a//b", "/a"}, {"/a/b/c", "/a/./b"}, {"/a/../b", "/a"}, {"/x/b/c", "/a/b"}, {"/a/x/c", "/a/b"}, {"a/b", "a"}, {"/a b/c", "/a b"},
	} {
		x := r.fx(pre+"stripPrefix", unit)
		x.label("paths", c[0]+" below "+c[1])
		x.u.Args = []*Term{mkStr(c[0]), mkStr(c[1])}
		final := x.u.Final
		x.u.Final = func(o *Outcome, c *Case) {
			if final != nil {
				final(o, c)
			}
			if o.val != nil && o.val.op == "tuple" && o.val.args[1].op != "nil" {
				c.R = map[string]string{"ret1": "fails"}
				c.E = nil
			}
		}
		xs = append(xs, x)
	}
	r.decideAll("below", xs...)
}

// command sets the flags of a program.
func (d *disk) command(pre, given string) {
	x := d.x
	x.label("flags", given)
	d.fail = true
	d.log = true
	on := map[string]bool{}
	for _, f := range strings.Fields(given) {
		on[f[1:]] = true
	}
	set := func(f string, yes, no *Term) {
		d.flags[f] = no
		if on[f] {
			d.flags[f] = yes
		}
	}
	set("i", mkBool(true), mkBool(false))
	set("root", mkStr("dir"), mkStr(""))
	set("out", mkStr("other"), mkStr("out"))
	d.flags["v"] = mkBool(false)
	d.flags["universe"] = mkStr("uni")
	set("font-path", mkStr("fonts:more"), mkStr(""))
	x.lookup(pre+"stripPrefix", "below")
}

// arguments sets the arguments of a program.
func (d *disk) arguments(list string) {
	x := d.x
	var as []*Term
	for _, a := range strings.Fields(list) {
		as = append(as, mkStr(a))
	}
	l := x.list("arguments", strT, as...)
	// there are none before the arguments are parsed
	ret := func(name string, f func(c *CallCtx, as []*Term) *Term) {
		x.ip.Intrinsics[name] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
			if st.ghost["parsed"] == nil {
				return one(f(c, nil), st), true
			}
			return one(f(c, as), st), true
		}
	}
	none := mkNil(l.typ)
	ret("flag.Args", func(_ *CallCtx, as []*Term) *Term {
		if as == nil {
			return none
		}
		return l
	})
	ret("flag.NArg", func(_ *CallCtx, as []*Term) *Term { return mkInt(int64(len(as)), intT) })
	ret("flag.Arg", func(c *CallCtx, as []*Term) *Term {
		if i, ok := c.Args[0].intVal(); ok && i >= 0 && int(i) < len(as) {
			return as[i]
		}
		return mkStr("")
	})
}

// cut keeps a call as an event which may fail.
func (d *disk) cut(full, label string) {
	d.x.r.fn(full)
	d.x.ip.Intrinsics[full] = func(ip *Interp, st *State, c *CallCtx) ([]Outcome, bool) {
		var as []string
		for _, a := range c.Args {
			as = append(as, rawCanon(st, a))
		}
		n := label + "(" + strings.Join(as, ", ") + ")"
		st.event("%s", n)
		return d.result(ip, st, c, n, func(st *State) []*Term {
			tt, ok := c.Type.(*types.Tuple)
			if !ok {
				return nil
			}
			return unknownResult(n, tt).args[:tt.Len()-1]
		}), true
	}
}
