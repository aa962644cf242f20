package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value. Two values which are known to be equal
// are the same *Term.
//
// Operators:
//
//	const           a constant (cst)
//	nil             typed nil
//	sym             an opaque value (name)
//	struct, array   composite values; args are the fields/elements
//	tuple           multiple results
//	iface           interface value; typ2 is the dynamic type, args[0] the value
//	fn              function value; fn, args are the closure bindings
//	ptr             pointer to object name at path args
//	slice           args: ptr to array object, low, high
//	map             reference to map object name
//	upd             args: base, index, value (array/map content with one update)
//	lin             linear integer combination
//	other           uninterpreted operator applied to args
type Term struct {
	id    int
	op    string
	name  string
	args  []*Term
	cst   constant.Value
	typ   types.Type
	typ2  types.Type
	fn    *ssa.Function
	coefs []int64 // lin
	off   int64   // lin
	key   string
}

var termTab = map[string]*Term{}

var typeStrs = map[types.Type]string{}

func typeStr(t types.Type) string {
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeStrs[t] = s
	return s
}

var internBuf []byte

func intern(t *Term) *Term {
	b := internBuf[:0]
	b = append(b, t.op...)
	b = append(b, '|')
	b = append(b, t.name...)
	if t.cst != nil {
		b = append(b, '#')
		b = append(b, t.cst.ExactString()...)
	}
	switch t.op {
	case "const", "nil", "struct", "array":
		if t.typ != nil {
			b = append(b, '@')
			b = append(b, typeStr(t.typ)...)
		}
	case "iface":
		b = append(b, '@')
		b = append(b, typeStr(t.typ2)...)
	case "fn":
		if t.fn != nil {
			b = fmt.Appendf(b, "@%p", t.fn)
		}
	case "sym":
		// parameters of different functions share names
		if t.typ != nil {
			if u, ok := t.typ.Underlying().(*types.Basic); ok && u.Info()&types.IsBoolean != 0 {
				b = append(b, "@b"...)
			}
		}
	case "lin":
		b = append(b, '@')
		b = strconv.AppendInt(b, t.off, 10)
		for _, c := range t.coefs {
			b = append(b, ' ')
			b = strconv.AppendInt(b, c, 10)
		}
	}
	for _, a := range t.args {
		if a == nil {
			b = append(b, ",_"...)
			continue
		}
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 10)
	}
	internBuf = b
	if u, ok := termTab[string(b)]; ok {
		return u
	}
	k := string(b)
	t.key = k
	t.id = len(termTab) + 1
	termTab[k] = t
	return t
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func mkConst(v constant.Value, t types.Type) *Term {
	return intern(&Term{op: "const", cst: v, typ: t})
}
func mkBool(b bool) *Term { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkInt(i int64, t types.Type) *Term {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return mkConst(constant.MakeInt64(i), t)
}
func mkStr(s string) *Term     { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkNil(t types.Type) *Term { return intern(&Term{op: "nil", typ: t}) }
func mkTuple(a ...*Term) *Term { return intern(&Term{op: "tuple", args: a}) }
func mkSym(n string, t types.Type) *Term {
	return intern(&Term{op: "sym", name: n, typ: t})
}
func mkApp(op string, t types.Type, a ...*Term) *Term {
	return intern(&Term{op: "app", name: op, args: a, typ: t})
}
func mkPtr(obj string, t types.Type, path ...*Term) *Term {
	return intern(&Term{op: "ptr", name: obj, args: path, typ: t})
}
func mkIface(dyn types.Type, v *Term, t types.Type) *Term {
	return intern(&Term{op: "iface", typ2: dyn, args: []*Term{v}, typ: t})
}
func mkStruct(t types.Type, f []*Term) *Term { return intern(&Term{op: "struct", typ: t, args: f}) }
func mkArray(t types.Type, f []*Term) *Term  { return intern(&Term{op: "array", typ: t, args: f}) }
func mkFn(f *ssa.Function, b ...*Term) *Term {
	return intern(&Term{op: "fn", fn: f, args: b, typ: f.Signature, name: f.String()})
}

func (t *Term) isConst() bool { return t != nil && t.op == "const" }
func (t *Term) isTrue() bool {
	return t.isConst() && t.cst.Kind() == constant.Bool && constant.BoolVal(t.cst)
}
func (t *Term) isFalse() bool {
	return t.isConst() && t.cst.Kind() == constant.Bool && !constant.BoolVal(t.cst)
}
func (t *Term) intVal() (int64, bool) {
	if !t.isConst() || t.cst.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cst)
}
func (t *Term) strVal() (string, bool) {
	if !t.isConst() || t.cst.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.cst), true
}

// zero returns the zero value of type t.
func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.ToFloat(constant.MakeInt64(0)), t)
		}
		return mkNil(t)
	case *types.Struct:
		f := make([]*Term, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return mkStruct(t, f)
	case *types.Array:
		if u.Len() > 512 {
			return mkApp("zeroarray", t)
		}
		f := make([]*Term, u.Len())
		for i := range f {
			f[i] = zero(u.Elem())
		}
		return mkArray(t, f)
	case *types.Tuple:
		f := make([]*Term, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return mkTuple(f...)
	}
	return mkNil(t)
}

var stables = map[*Term]string{}

// stable names a value independently of the order of the analysis.
func (t *Term) stable() string {
	if s, ok := stables[t]; ok {
		return s
	}
	s := t.str(16)
	stables[t] = s
	return s
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<undef>"
	}
	if d == 0 {
		return "…"
	}
	list := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		return t.cst.ExactString()
	case "nil":
		return "nil"
	case "sym":
		return t.name
	case "struct":
		return "{" + list() + "}"
	case "array":
		return "[" + list() + "]"
	case "tuple":
		return "(" + list() + ")"
	case "iface":
		return types.TypeString(t.typ2, func(p *types.Package) string { return p.Name() }) + ":" + t.args[0].str(d-1)
	case "fn":
		return "func " + t.fn.Name()
	case "ptr":
		s := "&" + t.name
		for _, a := range t.args {
			s += "." + a.str(d-1)
		}
		return s
	case "lin":
		var s []string
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				s = append(s, a.str(d-1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.coefs[i], a.str(d-1)))
			}
		}
		if t.off != 0 || len(s) == 0 {
			s = append(s, fmt.Sprint(t.off))
		}
		return "(" + strings.Join(s, "+") + ")"
	}
	return t.op + ":" + t.name + "(" + list() + ")"
}

// ---- linear integer arithmetic ----------------------------------------------

func linParts(t *Term) (map[*Term]int64, int64, bool) {
	if v, ok := t.intVal(); ok {
		return nil, v, true
	}
	if t.op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return m, t.off, true
	}
	if t.isConst() {
		return nil, 0, false
	}
	return map[*Term]int64{t: 1}, 0, true
}

func mkLin(m map[*Term]int64, off int64, typ types.Type) *Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return mkInt(off, typ)
	}
	if len(ts) == 1 && m[ts[0]] == 1 && off == 0 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = m[t]
	}
	return intern(&Term{op: "lin", args: ts, coefs: cs, off: off, typ: typ})
}

func linAdd(a, b *Term, sign int64, typ types.Type) (*Term, bool) {
	ma, oa, ok1 := linParts(a)
	mb, ob, ok2 := linParts(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	m := map[*Term]int64{}
	for t, c := range ma {
		m[t] += c
	}
	for t, c := range mb {
		m[t] += sign * c
	}
	return mkLin(m, oa+sign*ob, typ), true
}

// linDiff returns a-b if it is a known constant.
func linDiff(a, b *Term) (int64, bool) {
	d, ok := linAdd(a, b, -1, types.Typ[types.Int])
	if !ok {
		return 0, false
	}
	return d.intVal()
}

// fits truncates the integer constant v to type t (wrap-around).
func fits(v constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || v.Kind() != constant.Int {
		return v
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

// mkNot negates a boolean term.
func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.op == "app" && t.name == "not" {
		return t.args[0]
	}
	return mkApp("not", types.Typ[types.Bool], t)
}

func isComposite(t *Term) bool { return t.op == "struct" || t.op == "array" || t.op == "tuple" }

// mkEq builds the (simplified) equality of two values.
func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.cst.Kind() == b.cst.Kind() || (a.cst.Kind() != constant.String && a.cst.Kind() != constant.Bool && b.cst.Kind() != constant.String && b.cst.Kind() != constant.Bool) {
			return mkBool(constant.Compare(a.cst, token.EQL, b.cst))
		}
	}
	if a.op == "nil" && b.op == "nil" {
		return mkBool(true)
	}
	nonNil := func(t *Term) bool {
		switch t.op {
		case "ptr":
			return !strings.HasPrefix(t.name, "*") || len(t.args) > 0
		case "iface", "fn", "map", "slice":
			return true
		case "app":
			return t.name == "append" && len(t.args) > 1
		}
		return false
	}
	if a.op == "nil" && nonNil(b) || b.op == "nil" && nonNil(a) {
		return mkBool(false)
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ2, b.typ2) {
			return mkBool(false)
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "iface" && b.op == "nil" || a.op == "nil" && b.op == "iface" {
		return mkBool(false)
	}
	if a.op == "ptr" && b.op == "ptr" && strings.HasPrefix(a.name, "new:") && strings.HasPrefix(b.name, "new:") {
		if a.name != b.name {
			return mkBool(false)
		}
		for i := 0; i < min(len(a.args), len(b.args)); i++ {
			if x, ok := a.args[i].intVal(); ok {
				if y, ok := b.args[i].intVal(); ok {
					if x != y {
						return mkBool(false)
					}
					continue
				}
			}
			break
		}
	}
	if isComposite(a) && isComposite(b) && len(a.args) == len(b.args) && a.op == b.op {
		var conj []*Term
		for i := range a.args {
			e := mkEq(a.args[i], b.args[i])
			if e.isFalse() {
				return e
			}
			if !e.isTrue() {
				conj = append(conj, e)
			}
		}
		if len(conj) == 0 {
			return mkBool(true)
		}
		if len(conj) == 1 {
			return conj[0]
		}
		r := conj[0]
		for _, c := range conj[1:] {
			r = mkApp("and", types.Typ[types.Bool], r, c)
		}
		return r
	}
	if isInt(a.typ) || isInt(b.typ) {
		if d, ok := linDiff(a, b); ok {
			return mkBool(d == 0)
		}
	}
	if a.op == "app" && b.op == "app" && a.name == "path" && b.name == "path" {
		// different names below the same directory
		x, y := a.args, b.args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		// entries of a directory are no paths to another one
		name := func(t *Term) bool {
			v, ok := t.strVal()
			return ok && v != ".." && v != "/" && v != "." || t.op == "sym" && strings.HasPrefix(t.name, "entry:")
		}
		plain, consts := true, true
		for _, s := range append(append([]*Term{}, x...), y...) {
			plain = plain && name(s)
			consts = consts && s.isConst()
		}
		if plain && (consts || len(x) != len(y)) {
			return mkBool(false)
		}
	}
	// x == true / x == false
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].isTrue() {
			return p[1]
		}
		if p[0].isFalse() {
			return mkNot(p[1])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("eq", types.Typ[types.Bool], a, b)
}

func unsignedT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// mkLt builds a < b.
func mkLt(a, b *Term) *Term {
	if a == b {
		return mkBool(false)
	}
	if a.isConst() && b.isConst() {
		if (a.cst.Kind() == constant.String) == (b.cst.Kind() == constant.String) {
			return mkBool(constant.Compare(a.cst, token.LSS, b.cst))
		}
	}
	if v, ok := b.intVal(); ok && v == 0 && (unsignedT(a.typ) || a.op == "app" && a.name == "len") {
		return mkBool(false)
	}
	if d, ok := linDiff(a, b); ok && (isInt(a.typ) || isInt(b.typ)) {
		return mkBool(d < 0)
	}
	return mkApp("lt", types.Typ[types.Bool], a, b)
}

func binop(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if a.isConst() && b.isConst() {
		ka, kb := a.cst.Kind(), b.cst.Kind()
		switch op {
		case token.SHL, token.SHR:
			if n, ok := b.intVal(); ok && n >= 0 && n < 4096 && ka == constant.Int {
				return mkConst(fits(constant.Shift(a.cst, op, uint(n)), typ), typ)
			}
		case token.ADD:
			if ka == constant.String && kb == constant.String {
				return mkConst(constant.MakeString(constant.StringVal(a.cst)+constant.StringVal(b.cst)), typ)
			}
			if ka != constant.String && kb != constant.String {
				return mkConst(fits(constant.BinaryOp(a.cst, op, b.cst), typ), typ)
			}
		case token.QUO, token.REM:
			if isInt(typ) {
				if v, ok := b.intVal(); ok && v != 0 {
					o := op
					if op == token.QUO {
						o = token.QUO_ASSIGN // integer division
					}
					return mkConst(fits(constant.BinaryOp(a.cst, o, b.cst), typ), typ)
				}
			} else if op == token.QUO && constant.Sign(b.cst) != 0 {
				return mkConst(constant.BinaryOp(a.cst, op, b.cst), typ)
			}
		case token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if ka != constant.String && ka != constant.Bool {
				return mkConst(fits(constant.BinaryOp(a.cst, op, b.cst), typ), typ)
			}
		}
	}
	if isInt(typ) {
		switch op {
		case token.ADD:
			if r, ok := linAdd(a, b, 1, typ); ok {
				return r
			}
		case token.SUB:
			if r, ok := linAdd(a, b, -1, typ); ok {
				return r
			}
		case token.MUL:
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if c, ok := p[0].intVal(); ok {
					m, o, ok := linParts(p[1])
					if ok {
						r := map[*Term]int64{}
						for t, k := range m {
							r[t] = k * c
						}
						return mkLin(r, o*c, typ)
					}
				}
			}
		}
	}
	if n, ok := b.intVal(); ok && unsignedT(typ) && isInt(typ) {
		// shifts and masks are divisions
		switch {
		case op == token.SHL && n >= 0 && n < 62:
			return binop(token.MUL, a, mkInt(1<<n, typ), typ)
		case op == token.SHR && n >= 0 && n < 62:
			return binop(token.QUO, a, mkInt(1<<n, typ), typ)
		case op == token.REM && n > 0 && n&(n-1) == 0:
			return binop(token.AND, a, mkInt(n-1, typ), typ)
		case op == token.QUO && n > 0:
			if n == 1 {
				return a
			}
			if m, off, ok := linParts(a); ok {
				in, out := map[*Term]int64{}, map[*Term]int64{}
				floor := func(c int64) (int64, int64) {
					q := c / n
					if n == 2 && c%n < 0 {
						q-- // the middle of an interval
					}
					return q, c - q*n
				}
				for t, c := range m {
					out[t], in[t] = floor(c)
				}
				q, r := off/n, off%n
				rest := mkLin(in, r, typ)
				if v, ok := rest.intVal(); ok {
					return mkLin(out, q+v/n, typ)
				}
				k := n
				if rest.op == "app" && rest.name == "bin/" {
					if v, ok := rest.args[1].intVal(); ok {
						rest, k = rest.args[0], n*v
					}
				}
				d := mkApp("bin/", typ, rest, mkInt(k, typ))
				if r, ok := linAdd(mkLin(out, q, typ), d, 1, typ); ok {
					return r
				}
			}
		}
	}
	if isString(typ) && op == token.ADD {
		if s, ok := a.strVal(); ok && s == "" {
			return b
		}
		if s, ok := b.strVal(); ok && s == "" {
			return a
		}
		return mkConcat(a, b)
	}
	if op == token.AND || op == token.OR || op == token.XOR || op == token.MUL {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mkApp("bin"+op.String(), typ, a, b)
}

// mkConcat builds a flattened string concatenation.
func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "app" && p.name == "concat" {
			out = append(out, p.args...)
			continue
		}
		out = append(out, p)
	}
	// merge adjacent constants, drop empties
	var res []*Term
	for _, p := range out {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(res) > 0 {
				if q, ok := res[len(res)-1].strVal(); ok {
					res[len(res)-1] = mkStr(q + s)
					continue
				}
			}
			res = append(res, mkStr(s))
			continue
		}
		res = append(res, p)
	}
	switch len(res) {
	case 0:
		return mkStr("")
	case 1:
		return res[0]
	}
	return mkApp("concat", types.Typ[types.String], res...)
}

// convert converts v to type t.
func convertTerm(v *Term, t types.Type) *Term {
	if v.op == "nil" {
		return mkNil(t)
	}
	ub, _ := t.Underlying().(*types.Basic)
	if v.isConst() && ub != nil {
		switch {
		case ub.Info()&types.IsInteger != 0 && v.cst.Kind() == constant.Int:
			return mkConst(fits(v.cst, t), t)
		case ub.Info()&types.IsInteger != 0 && v.cst.Kind() == constant.Float:
			if c := constant.ToInt(v.cst); c.Kind() == constant.Int {
				return mkConst(fits(c, t), t)
			}
		case ub.Info()&types.IsFloat != 0 && (v.cst.Kind() == constant.Int || v.cst.Kind() == constant.Float):
			return mkConst(constant.ToFloat(v.cst), t)
		case ub.Info()&types.IsString != 0 && v.cst.Kind() == constant.String:
			return mkConst(v.cst, t)
		case ub.Info()&types.IsString != 0 && v.cst.Kind() == constant.Int:
			if i, ok := v.intVal(); ok {
				return mkConst(constant.MakeString(string(rune(i))), t)
			}
		case ub.Info()&types.IsBoolean != 0:
			return mkConst(v.cst, t)
		}
	}
	if ub != nil && isInt(t) && isInt(v.typ) {
		// Integer conversions of symbolic values are treated as value
		// preserving.
		return v
	}
	if ub != nil && ub.Info()&types.IsString != 0 && v.typ != nil {
		if isString(v.typ) {
			return v
		}
		if isInt(v.typ) {
			return mkApp("runestr", t, v)
		}
		if v.op == "app" && v.name == "bytes" {
			return v.args[0]
		}
		return mkApp("tostring", t, v)
	}
	if s, ok := t.Underlying().(*types.Slice); ok && isString(v.typ) {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			if b.Kind() == types.Byte {
				return mkApp("bytes", t, v)
			}
			return mkApp("runes", t, v)
		}
	}
	if v.typ != nil && types.Identical(v.typ.Underlying(), t.Underlying()) {
		switch v.op {
		case "struct", "array":
			return intern(&Term{op: v.op, args: v.args, typ: t})
		}
		return v
	}
	return mkApp("conv:"+types.TypeString(t, nil), t, v)
}

func firstRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }
