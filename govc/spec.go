package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- expression syntax -----------------------------------------------------------------

type Expr struct {
	op   string // id int str call sel idx slice un bin forall exists ite
	name string
	args []*Expr
	ival *big.Int
	typ  string
}

type lexer struct {
	toks []string
	pos  int
	src  string
}

func lex(s string) ([]string, error) {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$' || ch == '#':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case unicode.IsDigit(rune(ch)):
			j := i + 1
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || unicode.IsLetter(rune(s[j])) || s[j] == '_') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "::", "..", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, op)
					i += len(op)
					goto next
				}
			}
			out = append(out, string(ch))
			i++
		next:
		}
	}
	return out, nil
}

func parseExpr(s string) (x *Expr, err error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	l := &lexer{toks: toks, src: s}
	x = l.expr(0)
	if l.pos != len(l.toks) {
		return nil, fmt.Errorf("trailing %q in %q", l.toks[l.pos], s)
	}
	return x, nil
}

func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.pos++; return t }
func (l *lexer) want(t string) {
	if n := l.next(); n != t {
		panic(fmt.Sprintf("expected %q, found %q", t, n))
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Expr {
	if t := l.peek(); t == "forall" || t == "exists" {
		l.next()
		v := l.next()
		x := &Expr{op: t, name: v}
		if l.peek() == "in" {
			l.next()
			lo := l.expr(6)
			l.want("..")
			hi := l.expr(6)
			l.want("::")
			x.args = []*Expr{lo, hi, l.expr(0)}
		} else {
			x.typ = l.typ()
			l.want("::")
			x.args = []*Expr{nil, nil, l.expr(0)}
		}
		return x
	}
	lhs := l.unary()
	for {
		op := l.peek()
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return lhs
		}
		l.next()
		var rhs *Expr
		if op == "==>" {
			rhs = l.expr(pr) // right assoc
		} else {
			rhs = l.expr(pr + 1)
		}
		lhs = &Expr{op: "bin", name: op, args: []*Expr{lhs, rhs}}
	}
}

func (l *lexer) typ() string {
	s := ""
	for {
		t := l.peek()
		if t == "::" || t == "," || t == ")" || t == "" {
			return s
		}
		s += l.next()
	}
}

func (l *lexer) unary() *Expr {
	switch t := l.peek(); t {
	case "!", "-":
		l.next()
		return &Expr{op: "un", name: t, args: []*Expr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		x := l.expr(0)
		l.want(")")
		return x
	case t == "":
		panic("unexpected end")
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			panic(err)
		}
		return &Expr{op: "str", name: s}
	case unicode.IsDigit(rune(t[0])):
		b, ok := new(big.Int).SetString(strings.ReplaceAll(t, "_", ""), 0)
		if !ok {
			panic("bad number " + t)
		}
		return &Expr{op: "int", ival: b}
	case unicode.IsLetter(rune(t[0])) || t[0] == '_' || t[0] == '$' || t[0] == '#':
		return &Expr{op: "id", name: t}
	}
	panic(fmt.Sprintf("unexpected %q", t))
}

func (l *lexer) postfix(x *Expr) *Expr {
	for {
		switch l.peek() {
		case ".":
			l.next()
			x = &Expr{op: "sel", name: l.next(), args: []*Expr{x}}
		case "(":
			l.next()
			c := &Expr{op: "call", args: []*Expr{x}}
			for l.peek() != ")" {
				c.args = append(c.args, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.want(")")
			x = c
		case "[":
			l.next()
			if l.peek() == ":" {
				l.next()
				x = &Expr{op: "slice", args: []*Expr{x, nil, l.expr(0)}}
				l.want("]")
				continue
			}
			i := l.expr(0)
			if l.peek() == ":" {
				l.next()
				var hi *Expr
				if l.peek() != "]" {
					hi = l.expr(0)
				}
				l.want("]")
				x = &Expr{op: "slice", args: []*Expr{x, i, hi}}
				continue
			}
			l.want("]")
			x = &Expr{op: "idx", args: []*Expr{x, i}}
		default:
			return x
		}
	}
}

// ---- evaluation --------------------------------------------------------------------------

// SV is a specification value: a term with its Go type (nil for untyped).
type SV struct {
	t *Term
	y types.Type
	l *Loc
}

// Env is the evaluation environment of a specification expression.
type Env struct {
	vars   map[string]SV
	st     *State
	old    *State
	lock   *State
	front  Pos   // allocation frontier at the old state
	limit  *Term // stands for the frontier in onlyin
	pkg    *types.Package
	up     *Env
	assume bool // facts learned: record allocation bounds
	noOld  bool
	trips  int
}

func (v *Env) child() *Env {
	n := *v
	n.vars = map[string]SV{}
	n.up = v
	return &n
}

func (v *Env) lookup(n string) (SV, bool) {
	for e := v; e != nil; e = e.up {
		if s, ok := e.vars[n]; ok {
			return s, true
		}
	}
	return SV{}, false
}

type specErr struct{ msg string }

func sfail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

// evalBool evaluates a formula; ok is false when it does not apply here.
func (e *Engine) evalBool(env *Env, x *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	v := e.ev(env, x)
	if v.t == nil || v.t.sort != "Bool" {
		sfail("not a formula")
	}
	return v.t, nil
}

func (e *Engine) evalTerm(env *Env, x *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	return e.evInt(env, x), nil
}

func (e *Engine) evInt(env *Env, x *Expr) *Term {
	v := e.ev(env, x)
	if v.t == nil || v.t.sort != "Int" {
		sfail("integer expected")
	}
	return v.t
}

func (e *Engine) ev(env *Env, x *Expr) SV {
	c := e.c
	switch x.op {
	case "int":
		return SV{t: c.Big(x.ival)}
	case "str":
		return SV{t: e.strLit(x.name), y: types.Typ[types.String]}
	case "id":
		return e.evId(env, x.name)
	case "un":
		v := e.ev(env, x.args[0])
		if x.name == "!" {
			return SV{t: c.Not(v.t), y: v.y}
		}
		return SV{t: c.Sub(c.Zero, v.t), y: v.y}
	case "bin":
		return e.evBin(env, x)
	case "sel":
		return e.evSel(env, x)
	case "slice":
		return e.evSlice(env, x)
	case "idx":
		return e.evIdx(env, x)
	case "call":
		return e.evCall(env, x)
	case "forall", "exists":
		return e.evQuant(env, x)
	}
	sfail("cannot evaluate %s", x.op)
	return SV{}
}

func (e *Engine) evId(env *Env, n string) SV {
	switch n {
	case "true":
		return SV{t: e.c.True, y: types.Typ[types.Bool]}
	case "false":
		return SV{t: e.c.False, y: types.Typ[types.Bool]}
	case "nil":
		return SV{y: types.Typ[types.UntypedNil]}
	}
	if v, ok := env.lookup(n); ok {
		return v
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(n); o != nil {
			return e.evObj(env, o)
		}
	}
	if o := e.w.pkg.Types.Scope().Lookup(n); o != nil {
		return e.evObj(env, o)
	}
	if d, ok := e.w.defs[n]; ok && len(d.params) == 0 {
		return e.ev(env.clean(), d.body)
	}
	sfail("unknown name %s", n)
	return SV{}
}

func (v *Env) clean() *Env {
	n := *v
	n.vars = map[string]SV{}
	n.up = nil
	return &n
}

func (e *Engine) evObj(env *Env, o types.Object) SV {
	switch o := o.(type) {
	case *types.Const:
		return e.constSV(o)
	case *types.Var:
		if g := e.w.global(o); g != nil {
			p := &Path{st: env.st, reach: e.c.True}
			return SV{t: e.loadGlobal(p, g).t, y: o.Type()}
		}
	}
	sfail("object %s not usable", o.Name())
	return SV{}
}

func (e *Engine) constSV(o *types.Const) SV {
	switch o.Val().Kind() {
	case constant.Int:
		b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
		return SV{t: e.c.Big(b), y: o.Type()}
	case constant.Bool:
		return SV{t: e.c.Bool(constant.BoolVal(o.Val())), y: o.Type()}
	case constant.String:
		return SV{t: e.strLit(constant.StringVal(o.Val())), y: types.Typ[types.String]}
	}
	sfail("constant %s", o.Name())
	return SV{}
}

func (e *Engine) nilOf(y types.Type) *Term { return e.zero(y) }

func (e *Engine) evBin(env *Env, x *Expr) SV {
	c := e.c
	bt := types.Typ[types.Bool]
	if x.name == "==>" || x.name == "&&" || x.name == "||" || x.name == "<==>" {
		a := e.ev(env, x.args[0])
		if a.t == nil || a.t.sort != "Bool" {
			sfail("boolean expected left of %s", x.name)
		}
		// short circuit on literals so that inapplicable parts are skipped
		if a.t == c.False && (x.name == "==>" || x.name == "&&") {
			return SV{t: c.Bool(x.name == "==>"), y: bt}
		}
		if a.t == c.True && x.name == "||" {
			return SV{t: c.True, y: bt}
		}
		b := e.ev(env, x.args[1])
		if b.t == nil || b.t.sort != "Bool" {
			sfail("boolean expected right of %s", x.name)
		}
		switch x.name {
		case "==>":
			return SV{t: c.Imp(a.t, b.t), y: bt}
		case "&&":
			return SV{t: c.And(a.t, b.t), y: bt}
		case "||":
			return SV{t: c.Or(a.t, b.t), y: bt}
		default:
			return SV{t: c.Eq(a.t, b.t), y: bt}
		}
	}
	a, b := e.ev(env, x.args[0]), e.ev(env, x.args[1])
	if x.name == "==" || x.name == "!=" {
		r := e.evEq(a, b)
		if x.name == "!=" {
			r = c.Not(r)
		}
		return SV{t: r, y: bt}
	}
	if a.t == nil || b.t == nil {
		sfail("operand of %s", x.name)
	}
	switch x.name {
	case "<":
		return SV{t: c.Lt(a.t, b.t), y: bt}
	case "<=":
		return SV{t: c.Le(a.t, b.t), y: bt}
	case ">":
		return SV{t: c.Lt(b.t, a.t), y: bt}
	case ">=":
		return SV{t: c.Le(b.t, a.t), y: bt}
	case "+":
		if a.t.sort == "Str" {
			return SV{t: e.strCat(a.t, b.t), y: a.y}
		}
		return SV{t: c.Add(a.t, b.t)}
	case "-":
		return SV{t: c.Sub(a.t, b.t)}
	case "*":
		return SV{t: c.Mul(a.t, b.t)}
	case "/":
		return SV{t: c.Div(a.t, b.t)}
	case "%":
		return SV{t: c.Mod(a.t, b.t)}
	}
	sfail("operator %s", x.name)
	return SV{}
}

func (e *Engine) evEq(a, b SV) *Term {
	c := e.c
	isNil := func(v SV) bool { return v.t == nil && v.l == nil }
	if isNil(a) && isNil(b) {
		return c.True
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch a.t.sort {
		case "Slice":
			return c.Eq(c.Sel("sarr", a.t), c.Zero)
		case "Iface":
			return c.Eq(c.Sel("itag", a.t), c.Zero)
		case "Int":
			return c.Eq(a.t, c.Zero)
		}
		sfail("comparison with nil")
	}
	if a.t.sort == "Iface" && b.t.sort != "Iface" && b.y != nil {
		return c.Eq(a.t, e.makeIface(b.t, b.y))
	}
	if b.t.sort == "Iface" && a.t.sort != "Iface" && a.y != nil {
		return c.Eq(e.makeIface(a.t, a.y), b.t)
	}
	if a.t.sort != b.t.sort {
		sfail("comparison of %s and %s", a.t.sort, b.t.sort)
	}
	return c.Eq(a.t, b.t)
}

func (e *Engine) evSel(env *Env, x *Expr) SV {
	// package-qualified name
	if x.args[0].op == "id" {
		n := x.args[0].name
		if _, ok := env.lookup(n); !ok {
			if pk := e.w.pkgByName(n); pk != nil {
				o := pk.Scope().Lookup(x.name)
				if o == nil {
					sfail("%s.%s not found", n, x.name)
				}
				return e.evObj(env, o)
			}
		}
	}
	v := e.ev(env, x.args[0])
	return e.field(env, v, x.name)
}

func (e *Engine) field(env *Env, v SV, name string) SV {
	if v.y == nil {
		sfail("field %s of untyped value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(v.y, true, e.w.pkgOf(v.y), name)
	fv, ok := obj.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, v.y)
	}
	_ = fv
	for _, i := range path {
		st := v.y
		if ptr, ok := under(v.y).(*types.Pointer); ok {
			st = ptr.Elem()
			ft := under(st).(*types.Struct).Field(i).Type()
			v = SV{t: e.loadField(env.st, v.t, st, i), y: ft}
			continue
		}
		ft := under(st).(*types.Struct).Field(i).Type()
		v = SV{t: e.stepGet(v.t, step{field: i, t: st}), y: ft}
		e.wf(v.t, ft)
	}
	return v
}

func (e *Engine) evIdx(env *Env, x *Expr) SV {
	c := e.c
	v := e.ev(env, x.args[0])
	i := e.ev(env, x.args[1])
	if v.y == nil {
		// raw array term
		if v.t != nil && strings.HasPrefix(v.t.sort, "(Array") {
			return SV{t: c.Select(v.t, i.t)}
		}
		sfail("index of untyped value")
	}
	switch u := under(v.y).(type) {
	case *types.Slice:
		n, _ := e.elemHeap(u.Elem())
		r := c.Select(c.Select(e.get(env.st, n), c.Sel("sarr", v.t)), c.Add(c.Sel("soff", v.t), i.t))
		e.wf(r, u.Elem())
		return SV{t: r, y: u.Elem()}
	case *types.Array:
		r := c.Select(v.t, i.t)
		e.wf(r, u.Elem())
		return SV{t: r, y: u.Elem()}
	case *types.Map:
		k := i.t
		val, _ := e.mapGet(env.st, u, v.t, k)
		return SV{t: val, y: u.Elem()}
	case *types.Pointer:
		if at, ok := under(u.Elem()).(*types.Array); ok {
			n, _ := e.elemHeap(at.Elem())
			r := c.Select(c.Select(e.get(env.st, n), v.t), i.t)
			e.wf(r, at.Elem())
			return SV{t: r, y: at.Elem()}
		}
	case *types.Basic:
		if v.t.sort == "Str" {
			return SV{t: e.strAt(v.t, i.t), y: types.Typ[types.Uint8]}
		}
	}
	sfail("cannot index %s", v.y)
	return SV{}
}

func (e *Engine) evSlice(env *Env, x *Expr) SV {
	c := e.c
	v := e.ev(env, x.args[0])
	if v.t != nil && v.t.sort == "Str" {
		lo, hi := c.Zero, e.strLen(v.t)
		if x.args[1] != nil {
			lo = e.evInt(env, x.args[1])
		}
		if x.args[2] != nil {
			hi = e.evInt(env, x.args[2])
		}
		return SV{t: e.subStr(nil, v.t, lo, hi), y: v.y}
	}
	if v.t == nil || v.t.sort != "Slice" {
		sfail("slice expression on something else than a slice")
	}
	lo := c.Zero
	if x.args[1] != nil {
		lo = e.evInt(env, x.args[1])
	}
	hi := c.Sel("slen", v.t)
	if x.args[2] != nil {
		hi = e.evInt(env, x.args[2])
	}
	return SV{t: c.MkS(c.Sel("sarr", v.t), c.Add(c.Sel("soff", v.t), lo), c.Sub(hi, lo), c.Sub(c.Sel("scap", v.t), lo)), y: v.y}
}

func (e *Engine) evQuant(env *Env, x *Expr) SV {
	c := e.c
	ch := env.child()
	bt := types.Typ[types.Bool]
	if x.typ != "" {
		y := e.w.parseType(x.typ)
		sort := "Int"
		if y != nil {
			sort = e.sortOf(y)
		}
		b := c.Bound(x.name, sort)
		ch.vars[x.name] = SV{t: b, y: y}
		body := e.ev(ch, x.args[2]).t
		return SV{t: e.mkQuant(x.op, b, nil, body), y: bt}
	}
	lo, hi := e.evInt(env, x.args[0]), e.evInt(env, x.args[1])
	if lo.ival != nil && hi.ival != nil {
		n := new(big.Int).Sub(hi.ival, lo.ival)
		if n.Cmp(big.NewInt(300)) <= 0 {
			var ts []*Term
			for i := lo.ival.Int64(); i < hi.ival.Int64(); i++ {
				ch.vars[x.name] = SV{t: c.Int(i), y: types.Typ[types.Int]}
				ts = append(ts, e.ev(ch, x.args[2]).t)
			}
			if x.op == "forall" {
				return SV{t: c.And(ts...), y: bt}
			}
			return SV{t: c.Or(ts...), y: bt}
		}
	}
	b := c.Bound(x.name, "Int")
	ch.vars[x.name] = SV{t: b, y: types.Typ[types.Int]}
	body := e.ev(ch, x.args[2]).t
	rng := c.And(c.Le(lo, b), c.Lt(b, hi))
	return SV{t: e.mkQuant(x.op, b, rng, body), y: bt}
}

// mkQuant builds a quantifier over b with a guard, choosing triggers. When elements
// are accessed at off+b the variable is shifted so that the trigger is select(row, b).
func (e *Engine) mkQuant(q string, b, guard, body *Term) *Term {
	c := e.c
	if guard == nil {
		guard = c.True
	}
	if body == c.True && q == "forall" {
		return c.True
	}
	full := c.Imp(guard, body)
	if q == "exists" {
		full = c.And(guard, body)
	}
	if full == c.True || full == c.False {
		return full
	}
	if !c.contains(full, func(t *Term) bool { return t == b }) {
		return full
	}
	free := func(t *Term) bool {
		return !t.bound || !c.contains(t, func(x *Term) bool { return x == b })
	}
	// variables of quantifiers inside can't occur in the triggers of this one
	inner := map[*Term]bool{}
	c.contains(body, func(t *Term) bool {
		for _, v := range t.vars {
			inner[v] = true
		}
		return false
	})
	if q == "forall" && body.op == "forall" {
		if t := e.joinForalls(b, guard, body); t != nil {
			return t
		}
	}
	shift := (*Term)(nil)
	direct := false
	var scan func(t *Term, seen map[*Term]bool)
	scan = func(t *Term, seen map[*Term]bool) {
		if seen[t] || free(t) {
			return
		}
		seen[t] = true
		if t.op == "select" {
			ix := t.args[1]
			if ix == b && free(t.args[0]) {
				direct = true
			}
			base, _ := splitOff(ix)
			if base.op == "+" && free(t.args[0]) {
				if base.args[1] == b && free(base.args[0]) && shift == nil {
					shift = base.args[0]
				} else if base.args[0] == b && free(base.args[1]) && shift == nil {
					shift = base.args[1]
				}
			}
		}
		for _, a := range t.args {
			scan(a, seen)
		}
	}
	scan(body, map[*Term]bool{})
	if shift != nil && !direct {
		nb := c.Bound("k", "Int")
		full = c.Subst(full, map[*Term]*Term{b: c.mk("-", "Int", nb, shift)})
		body = c.Subst(body, map[*Term]*Term{b: c.mk("-", "Int", nb, shift)})
		b = nb
	}
	var pats [][]*Term
	seenP := map[*Term]bool{}
	var coll func(t *Term)
	coll = func(t *Term) {
		if seenP[t] || free(t) {
			return
		}
		seenP[t] = true
		if (t.op == "select" && t.args[1] == b && free(t.args[0])) || (strings.HasPrefix(t.op, "f:") && hasArg(t, b)) {
			ok := true
			for _, a := range t.args {
				if a != b && !free(a) {
					ok = false
				}
			}
			if ok && len(inner) > 0 && c.contains(t, func(x *Term) bool { return inner[x] }) {
				ok = false
			}
			if ok {
				pats = append(pats, []*Term{t})
			}
		}
		for _, a := range t.args {
			coll(a)
		}
	}
	coll(body)
	if len(pats) > 4 {
		pats = pats[:4]
	}
	if q == "exists" {
		pats = nil
	}
	return c.Quant(q, []*Term{b}, full, pats)
}

// joinForalls turns a quantifier directly inside another into one over both variables if a
// function of the specification is applied to all of them: that is the trigger then.
func (e *Engine) joinForalls(b, guard, body *Term) *Term {
	c := e.c
	vars := append([]*Term{b}, body.vars...)
	isVar := func(t *Term) bool {
		for _, v := range vars {
			if t == v {
				return true
			}
		}
		return false
	}
	var pats [][]*Term
	c.contains(body.args[0], func(t *Term) bool {
		if !strings.HasPrefix(t.op, "f:") {
			return false
		}
		for _, v := range vars {
			if !hasArg(t, v) {
				return false
			}
		}
		for _, a := range t.args {
			if !isVar(a) && a.bound && c.contains(a, isVar) {
				return false
			}
		}
		if len(pats) < 3 {
			pats = append(pats, []*Term{t})
		}
		return false
	})
	if len(pats) == 0 {
		return nil
	}
	return c.Quant("forall", vars, c.Imp(guard, body.args[0]), pats)
}

func hasArg(t, b *Term) bool {
	for _, a := range t.args {
		if a == b {
			return true
		}
	}
	return false
}

func (e *Engine) evCall(env *Env, x *Expr) SV {
	c := e.c
	f := x.args[0]
	as := x.args[1:]
	bt := types.Typ[types.Bool]
	need := func(n int) {
		if len(as) != n {
			sfail("%s needs %d arguments", f.name, n)
		}
	}
	if f.op == "sel" {
		if f.name == "Header" && len(as) == 0 {
			v := e.ev(env, f.args[0])
			return SV{t: c.Sel("ipl", v.t), y: types.NewPointer(e.w.typeOf("dns", "RR_Header"))}
		}
		// method or package function modelled as a pure function
		key := ""
		if f.args[0].op == "id" {
			if _, ok := env.lookup(f.args[0].name); !ok && e.w.pkgByName(f.args[0].name) != nil {
				key = f.args[0].name + "." + f.name
			}
		}
		if key == "" {
			v := e.ev(env, f.args[0])
			if m, ok := lookupMethod(v.y, f.name); ok {
				if ct, k := e.ifaceContract(v.y, m); ct != nil && ct.pure {
					sig := sigWithRecv(v.y, m.Type().(*types.Signature))
					args := []Val{{t: v.t}}
					for _, a := range as {
						args = append(args, Val{t: e.ev(env, a).t})
					}
					return SV{t: e.ufResults(env.st, k, sig, args)[0].t, y: sig.Results().At(0).Type()}
				}
			}
			sfail("method call %s in a specification", f.name)
		}
		var vs []SV
		for _, a := range as {
			vs = append(vs, e.ev(env, a))
		}
		return e.specExt(env, key, vs)
	}
	if f.op != "id" {
		sfail("bad call")
	}
	switch f.name {
	case "old":
		need(1)
		o := *env
		if env.old == nil {
			sfail("old() not available")
		}
		o.st = env.old
		return e.ev(&o, as[0])
	case "atlock":
		need(1)
		if env.lock == nil {
			sfail("no lock acquired")
		}
		o := *env
		o.st = env.lock
		return e.ev(&o, as[0])
	case "atcall":
		// value of an expression right after the last call of a traced function
		need(2)
		if as[0].op != "str" {
			sfail("atcall needs the key of a traced function")
		}
		key := as[0].name
		if e.loopCalls[key] {
			sfail("atcall: %s is called in a loop", key)
		}
		var out SV
		found := false
		for _, s := range e.callSnaps {
			if s.key != key {
				continue
			}
			o := *env
			o.st = s.st
			v := e.ev(&o, as[1])
			if !found {
				out, found = v, true
				continue
			}
			out.t = c.Ite(s.reach, v.t, out.t)
		}
		if !found {
			o := *env
			return e.ev(&o, as[1])
		}
		return out
	case "kept":
		// kept("KEY","heap",…): since the last call of a traced function nothing but the
		// listed components of the heap has changed, in objects that existed then ("": since entry)
		if len(as) == 0 || as[0].op != "str" {
			sfail("kept needs the key of a traced function")
		}
		key := as[0].name
		if e.loopCalls[key] {
			sfail("kept: %s is called in a loop", key)
		}
		skip := map[string]bool{}
		for _, a := range as[1:] {
			e.needHeap(a.name)
			skip[a.name] = true
		}
		out := c.True
		if key == "" { // since entry of the function
			return SV{t: e.keptSince(env.st, callSnap{st: env.old, front: env.front}, skip), y: bt}
		}
		if env.assume { // about calls inside the callee, says nothing to its caller
			return SV{t: c.True, y: bt}
		}
		for _, s := range e.callSnaps {
			if s.key == key {
				out = c.Ite(s.reach, e.keptSince(env.st, s, skip), out)
			}
		}
		return SV{t: out, y: bt}
	case "messageskept":
		// no message, record, option or address that existed on entry has changed
		skip := map[string]bool{}
		for n := range env.st.h {
			if !strings.HasPrefix(n, "F:dns.") && !strings.HasPrefix(n, "E:dns.") && n != "E:uint8" && n != "E:byte" {
				skip[n] = true
			}
		}
		return SV{t: e.keptSince(env.st, callSnap{st: env.old, front: env.front}, skip), y: bt}
	case "onlyin":
		// of messages, records, options and addresses only what belongs to the given message has
		// changed: if all of it was allocated after some point, what existed at that point is as
		// it was. Callers learn this for the point of their own entry and the one they have to
		// show it for themselves.
		need(1)
		skip := map[string]bool{}
		for n := range env.st.h {
			if !strings.HasPrefix(n, "F:dns.") && !strings.HasPrefix(n, "E:dns.") && n != "E:uint8" && n != "E:byte" {
				skip[n] = true
			}
		}
		upto := func(limit *Term) *Term {
			o := *env
			o.st, o.assume, o.front, o.limit = env.old, false, Pos{0, 0}, limit
			from := e.ev(&o, &Expr{op: "call", args: []*Expr{{op: "id", name: "msgfresh"}, as[0]}}).t
			if limit != nil {
				from = c.And(from, c.mk("<=", "Bool", limit, e.posTerm(Pos{0, 0})))
			}
			return c.Imp(from, e.keptSince(env.st, callSnap{st: env.old, limit: limit}, skip))
		}
		out := upto(c.Const("limit", "Int"))
		if env.assume {
			out = c.And(out, upto(nil))
		}
		return SV{t: out, y: bt}
	case "len":
		need(1)
		v := e.ev(env, as[0])
		switch u := under(v.y).(type) {
		case *types.Slice:
			return SV{t: c.Sel("slen", v.t), y: types.Typ[types.Int]}
		case *types.Map:
			return SV{t: e.mapLen(env.st, u, v.t), y: types.Typ[types.Int]}
		case *types.Basic:
			return SV{t: e.strLen(v.t), y: types.Typ[types.Int]}
		case *types.Array:
			return SV{t: c.Int(u.Len()), y: types.Typ[types.Int]}
		}
		sfail("len of %s", v.y)
	case "cap":
		v := e.ev(env, as[0])
		return SV{t: c.Sel("scap", v.t), y: types.Typ[types.Int]}
	case "has":
		need(2)
		m, k := e.ev(env, as[0]), e.ev(env, as[1])
		mt, ok := under(m.y).(*types.Map)
		if !ok {
			sfail("has: not a map")
		}
		_, h := e.mapGet(env.st, mt, m.t, k.t)
		return SV{t: h, y: bt}
	case "is":
		need(2)
		v := e.ev(env, as[0])
		y := e.w.parseType(as[1].name)
		if y == nil {
			sfail("unknown type %s", as[1].name)
		}
		if _, ok := under(y).(*types.Interface); ok {
			return SV{t: e.implements(v.t, y), y: bt}
		}
		return SV{t: c.Eq(c.Sel("itag", v.t), e.tag(y)), y: bt}
	case "as":
		need(2)
		v := e.ev(env, as[0])
		y := e.w.parseType(as[1].name)
		if y == nil {
			sfail("unknown type %s", as[1].name)
		}
		if v.t.sort != "Iface" { // reinterpret a reference
			return SV{t: v.t, y: y}
		}
		return SV{t: e.unboxed(env.st, v.t, y), y: y}
	case "tag":
		v := e.ev(env, as[0])
		return SV{t: c.Sel("itag", v.t)}
	case "typetag":
		y := e.w.parseType(as[0].name)
		if y == nil {
			sfail("unknown type %s", as[0].name)
		}
		return SV{t: e.tag(y)}
	case "ref": // identity of the object behind a value
		need(1)
		v := e.ev(env, as[0])
		return SV{t: e.refOf(v)}
	case "arr":
		v := e.ev(env, as[0])
		return SV{t: c.Sel("sarr", v.t)}
	case "off":
		v := e.ev(env, as[0])
		return SV{t: c.Sel("soff", v.t)}
	case "row":
		v := e.ev(env, as[0])
		if u, ok := under(v.y).(*types.Slice); ok {
			n, _ := e.elemHeap(u.Elem())
			return SV{t: c.Select(e.get(env.st, n), c.Sel("sarr", v.t))}
		}
		sfail("row")
	case "fresh":
		need(1)
		v := e.ev(env, as[0])
		r := e.refOf(v)
		if env.limit != nil {
			return SV{t: c.Or(c.Eq(r, c.Zero), c.mk("<=", "Bool", env.limit, r)), y: bt}
		}
		t := c.Or(c.Eq(r, c.Zero), c.mk("<=", "Bool", e.posTerm(env.front), r))
		if inf, ok := c.refInfo(r); ok && env.front.le(inf.lo) {
			return SV{t: c.True, y: bt}
		}
		if env.assume && !r.bound {
			inf, ok := c.ref[r]
			if ok && inf.lo.lt(env.front) {
				inf.lo = env.front
				c.ref[r] = inf
			}
		}
		return SV{t: t, y: bt}
	case "allocated": // an object that exists in this state
		need(1)
		return SV{t: c.mk("<", "Bool", e.refOf(e.ev(env, as[0])), e.frontTerm()), y: bt}
	case "front":
		return SV{t: e.posTerm(env.front)}
	case "ite":
		need(3)
		k := e.ev(env, as[0])
		if k.t == c.True {
			return e.ev(env, as[1])
		}
		if k.t == c.False {
			return e.ev(env, as[2])
		}
		a, b := e.ev(env, as[1]), e.ev(env, as[2])
		if a.t == nil && b.t != nil {
			a.t, a.y = e.zero(b.y), b.y
		}
		if b.t == nil && a.t != nil {
			b.t = e.zero(a.y)
		}
		y := a.y
		if y == nil {
			y = b.y
		}
		return SV{t: c.Ite(k.t, a.t, b.t), y: y}
	case "min", "max":
		need(2)
		a, b := e.ev(env, as[0]), e.ev(env, as[1])
		k := c.Le(a.t, b.t)
		if f.name == "max" {
			k = c.Not(k)
		}
		return SV{t: c.Ite(k, a.t, b.t), y: a.y}
	case "ncalls":
		need(1)
		return SV{t: e.get(env.st, e.traceHeap(as[0].name, "n", "Int")), y: types.Typ[types.Int]}
	case "arg", "res":
		need(3)
		k := e.evInt(env, as[1])
		i := int(as[2].ival.Int64())
		return e.traceVal(env, as[0].name, f.name, k, i)
	case "ghost":
		// ghost("name") scalar integer ghost
		return SV{t: e.get(env.st, e.ghostHeap(as[0].name, "Int"))}
	case "call":
		var vs []SV
		for _, a := range as[1:] {
			vs = append(vs, e.ev(env, a))
		}
		return e.specExt(env, as[0].name, vs)
	case "held":
		need(1)
		// held(x.mu)
		if as[0].op != "sel" {
			sfail("held")
		}
		v := e.ev(env, as[0].args[0])
		h := e.lockHeap(typeName(deref(v.y)), as[0].name)
		return SV{t: c.Select(e.get(env.st, h), v.t), y: bt}
	case "int":
		return e.ev(env, as[0])
	case "bytes2str":
		v := e.ev(env, as[0])
		n, _ := e.elemHeap(types.Typ[types.Uint8])
		row := c.Select(e.get(env.st, n), c.Sel("sarr", v.t))
		return SV{t: e.b2s(row, c.Sel("soff", v.t), c.Sel("slen", v.t)), y: types.Typ[types.String]}
	case "unchanged":
		// unchanged("heap name") for all references
		n := as[0].name
		if _, ok := e.heapSort[n]; !ok {
			return SV{t: c.True, y: bt}
		}
		return SV{t: c.Eq(e.get(env.st, n), e.get(env.old, n)), y: bt}
	case "deref":
		v := e.ev(env, as[0])
		return SV{t: e.loadObj(env.st, v.t, deref(v.y)), y: deref(v.y)}
	case "bit":
		a, i := e.ev(env, as[0]), as[1]
		return SV{t: e.bit(a.t, int(i.ival.Int64()))}
	case "pow2":
		i := e.evInt(env, as[0])
		if i.ival != nil {
			return SV{t: c.Big(pow2(int(i.ival.Int64())))}
		}
		r := c.Big(pow2(128))
		for k := 127; k >= 0; k-- {
			r = c.Ite(c.Eq(i, c.Int(int64(k))), c.Big(pow2(k)), r)
		}
		return SV{t: r}
	case "visited":
		// visited(m, k): map range position; handled through the iterator of the loop
		sfail("visited outside a map loop")
	}
	// user definitions
	if d, ok := e.w.defs[f.name]; ok {
		if len(d.params) != len(as) {
			sfail("%s needs %d arguments", f.name, len(d.params))
		}
		ch := env.clean()
		for i, p := range d.params {
			ch.vars[p] = e.ev(env, as[i])
		}
		return e.ev(ch, d.body)
	}
	if e.w.ghostMaps[f.name] {
		need(1)
		return SV{t: c.Select(e.get(env.st, e.ghostMap(f.name)), e.refOf(e.ev(env, as[0])))}
	}
	if u, ok := e.w.ufns[f.name]; ok {
		var ts []*Term
		for _, a := range as {
			ts = append(ts, e.ev(env, a).t)
		}
		s := "Int"
		if u.res != nil {
			s = e.sortOf(u.res)
		}
		t := c.UF("spec_"+f.name, s, ts...)
		if u.res != nil {
			e.wf(t, u.res)
		}
		return SV{t: t, y: u.res}
	}
	sfail("unknown function %s", f.name)
	return SV{}
}

func (e *Engine) refOf(v SV) *Term {
	c := e.c
	if v.t == nil {
		return c.Zero
	}
	switch v.t.sort {
	case "Iface":
		return c.Sel("ipl", v.t)
	case "Slice":
		return c.Sel("sarr", v.t)
	case "Int":
		return v.t
	}
	sfail("no reference behind %s", v.t.sort)
	return nil
}

// keptSince says that objects that existed at a call are as they were right after it, except
// for the listed heap components. Traces, clocks, locks and cells of local variables do not count.
func (e *Engine) keptSince(st *State, s callSnap, skip map[string]bool) *Term {
	c := e.c
	var names []string
	for n := range st.h {
		if (n[0] == 'F' || n[0] == 'E' || n[0] == 'M') && !skip[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []*Term
	for _, n := range names {
		cur, was := e.get(st, n), e.get(s.st, n)
		if cur == was {
			continue
		}
		if !strings.HasPrefix(cur.sort, "(Array Int ") {
			out = append(out, c.Eq(cur, was))
			continue
		}
		r := c.Bound("r", "Int")
		lim := s.limit
		if lim == nil {
			lim = e.posTerm(s.front)
		}
		sel := c.mk("select", mustElem(cur.sort), cur, r)
		out = append(out, c.Quant("forall", []*Term{r}, c.Imp(c.And(c.mk("<", "Bool", c.Zero, r), c.mk("<", "Bool", r, lim)), c.Eq(sel, c.mk("select", mustElem(cur.sort), was, r))), [][]*Term{{sel}}))
	}
	return c.And(out...)
}

// lookupMethod finds a method of an interface type.
func lookupMethod(t types.Type, name string) (*types.Func, bool) {
	if t == nil {
		return nil, false
	}
	it, ok := under(t).(*types.Interface)
	if !ok {
		return nil, false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i), true
		}
	}
	return nil, false
}
