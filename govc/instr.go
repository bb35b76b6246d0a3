package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) instr(fr *Frame, p *Path, in ssa.Instruction) {
	c := e.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		r := e.alloc()
		e.zeroObj(p.st, r, deref(in.Type()))
		fr.vals[in] = Val{t: r}
	case *ssa.BinOp:
		fr.vals[in] = Val{t: e.binop(fr, p, in)}
	case *ssa.UnOp:
		e.unop(fr, p, in)
	case *ssa.ChangeInterface:
		fr.vals[in] = Val{t: e.term(fr, p, in.X)}
	case *ssa.ChangeType:
		x := e.val(fr, p, in.X)
		if x.t != nil && e.sortOf(in.X.Type()) != e.sortOf(in.Type()) {
			x = Val{t: e.retype(x.t, in.X.Type(), in.Type())}
		}
		fr.vals[in] = x
	case *ssa.Convert:
		fr.vals[in] = Val{t: e.convert(p, e.val(fr, p, in.X), in.X.Type(), in.Type())}
	case *ssa.MultiConvert:
		fr.vals[in] = Val{t: e.freshVal("conv", in.Type())}
		e.note("generic conversion")
	case *ssa.Extract:
		t := e.val(fr, p, in.Tuple)
		if t.tup == nil {
			fr.vals[in] = Val{t: e.freshVal("undef", in.Type())}
		} else {
			fr.vals[in] = t.tup[in.Index]
		}
	case *ssa.Field:
		x := e.term(fr, p, in.X)
		fr.vals[in] = Val{t: e.stepGet(x, step{field: in.Field, t: in.X.Type()})}
		e.wf(fr.vals[in].t, in.Type())
	case *ssa.FieldAddr:
		x := e.val(fr, p, in.X)
		st := deref(in.X.Type())
		fr.vals[in] = e.fieldAddr(p, x, st, in.Field, in.Pos())
	case *ssa.Index:
		x := e.term(fr, p, in.X)
		i := e.term(fr, p, in.Index)
		switch u := under(in.X.Type()).(type) {
		case *types.Array:
			e.safety(p, "index out of range", in.Pos(), c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(u.Len()))))
			v := c.Select(x, i)
			e.wf(v, in.Type())
			fr.vals[in] = Val{t: v}
		default: // string
			e.safety(p, "string index out of range", in.Pos(), c.And(c.Le(c.Zero, i), c.Lt(i, c.UF("strlen", "Int", x))))
			v := e.strAt(x, i)
			fr.vals[in] = Val{t: v}
		}
	case *ssa.IndexAddr:
		fr.vals[in] = e.indexAddr(fr, p, in)
	case *ssa.Lookup:
		e.lookup(fr, p, in)
	case *ssa.MakeChan:
		fr.vals[in] = Val{t: e.alloc()}
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.bind = append(cl.bind, e.val(fr, p, b))
		}
		fr.vals[in] = Val{clo: cl}
	case *ssa.MakeInterface:
		x := e.val(fr, p, in.X)
		fr.vals[in] = Val{t: e.makeIface(e.asTerm(x, in.X.Type()), in.X.Type())}
	case *ssa.MakeMap:
		m := under(in.Type()).(*types.Map)
		r := e.alloc()
		e.emptyMap(p.st, m, r)
		fr.vals[in] = Val{t: r}
	case *ssa.MakeSlice:
		l, k := e.term(fr, p, in.Len), e.term(fr, p, in.Cap)
		e.safety(p, "make with negative or inconsistent size", in.Pos(), c.And(c.Le(c.Zero, l), c.Le(l, k)))
		r := e.alloc()
		el := under(in.Type()).(*types.Slice).Elem()
		n, s := e.elemHeap(el)
		e.set(p.st, n, r, c.ConstArr(mustElem(s), e.zero(el)))
		fr.vals[in] = Val{t: c.MkS(r, c.Zero, l, k)}
	case *ssa.MapUpdate:
		m := under(in.Map.Type()).(*types.Map)
		r := e.term(fr, p, in.Map)
		e.safety(p, "write to nil map", in.Pos(), c.Ne(r, c.Zero))
		e.protectedMap(fr, p, in.Map, in.Pos(), true)
		e.mapSet(p.st, m, r, e.term(fr, p, in.Key), e.term(fr, p, in.Value))
	case *ssa.Range:
		e.rangeInit(fr, p, in)
	case *ssa.Next:
		e.next(fr, p, in)
	case *ssa.RunDefers:
		e.runDefers(fr, p)
	case *ssa.Defer:
		d := deferred{cond: p.reach, call: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(fr, p, a))
		}
		d.fnv = e.val(fr, p, in.Call.Value)
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		e.goStmt(fr, p, in)
	case *ssa.Select:
		e.selectStmt(fr, p, in)
	case *ssa.Send:
		e.sent(fr, p, in.Chan, e.val(fr, p, in.X), in.Pos())
	case *ssa.Slice:
		e.slice(fr, p, in)
	case *ssa.SliceToArrayPointer:
		x := e.term(fr, p, in.X)
		n := under(deref(in.Type())).(*types.Array).Len()
		e.safety(p, "slice to array conversion", in.Pos(), c.Le(c.Int(n), c.Sel("slen", x)))
		if c.Sel("soff", x) == c.Zero {
			fr.vals[in] = Val{t: c.Sel("sarr", x)}
		} else {
			// a view at an offset: only loads of the whole array are supported
			el := under(deref(in.Type())).(*types.Array).Elem()
			hn, _ := e.elemHeap(el)
			row := c.Select(e.get(p.st, hn), c.Sel("sarr", x))
			nr := e.alloc()
			v := c.Fresh("view", row.sort)
			j := c.Bound("j", "Int")
			e.assume(p, c.Quant("forall", []*Term{j}, c.Eq(c.mk("select", mustElem(v.sort), v, j), c.Select(row, c.Add(c.Sel("soff", x), j))), [][]*Term{{c.mk("select", mustElem(v.sort), v, j)}}))
			e.set(p.st, hn, nr, v)
			fr.vals[in] = Val{t: nr}
		}
	case *ssa.Store:
		a := e.val(fr, p, in.Addr)
		x := e.val(fr, p, in.Val)
		t := deref(in.Addr.Type())
		if g, ok := in.Addr.(*ssa.Global); ok {
			_ = g
		}
		e.storePtr(fr, p, a, t, x, in.Pos())
	case *ssa.TypeAssert:
		e.typeAssert(fr, p, in)
	case *ssa.Call:
		rs := e.call(fr, p, in, &in.Call, in.Pos())
		if p.reach == c.False {
			return
		}
		if n := in.Call.Signature().Results().Len(); n == 1 && len(rs) == 1 {
			fr.vals[in] = rs[0]
		} else if n > 1 {
			fr.vals[in] = Val{tup: rs}
		} else if len(rs) == 1 {
			fr.vals[in] = rs[0]
		}
	default:
		e.note("unsupported instruction %T", in)
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = Val{undef: true}
		}
	}
}

// retype maps a struct value between types with identical layout.
func (e *Engine) retype(v *Term, from, to types.Type) *Term {
	if isStruct(from) && isStruct(to) {
		df, dt := e.structDT(from), e.structDT(to)
		sf, st := under(from).(*types.Struct), under(to).(*types.Struct)
		var args []*Term
		for i := range df.sels {
			args = append(args, e.retype(e.c.Sel(df.sels[i], v), sf.Field(i).Type(), st.Field(i).Type()))
		}
		return e.c.Con(dt, args...)
	}
	if e.sortOf(from) == e.sortOf(to) {
		return v
	}
	e.note("conversion between %s and %s", from, to)
	return e.freshVal("conv", to)
}

func (e *Engine) fieldAddr(p *Path, x Val, st types.Type, i int, pos token.Pos) Val {
	ft := under(st).(*types.Struct).Field(i).Type()
	if x.loc != nil {
		l := *x.loc
		l.path = append(append([]step{}, l.path...), step{field: i, t: st})
		return Val{loc: &l}
	}
	if x.t == nil {
		return Val{undef: true}
	}
	e.safety(p, "nil pointer dereference (field "+under(st).(*types.Struct).Field(i).Name()+")", pos, e.c.Ne(x.t, e.c.Zero))
	if (isStruct(ft) && !ignoredStruct(ft)) || isArray(ft) {
		return Val{t: e.subRef(x.t, st, i)}
	}
	return Val{loc: &Loc{kind: 'f', base: x.t, t: st, i: i}}
}

func (e *Engine) indexAddr(fr *Frame, p *Path, in *ssa.IndexAddr) Val {
	c := e.c
	i := e.term(fr, p, in.Index)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := e.term(fr, p, in.X)
		e.safety(p, "index out of range", in.Pos(), c.And(c.Le(c.Zero, i), c.Lt(i, c.Sel("slen", s))))
		return Val{loc: &Loc{kind: 'e', base: c.Sel("sarr", s), t: u.Elem(), idx: c.Add(c.Sel("soff", s), i)}}
	case *types.Pointer: // pointer to array
		at := under(u.Elem()).(*types.Array)
		e.safety(p, "index out of range", in.Pos(), c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(at.Len()))))
		x := e.val(fr, p, in.X)
		if x.loc != nil {
			l := *x.loc
			l.path = append(append([]step{}, l.path...), step{field: -1, idx: i, t: u.Elem()})
			return Val{loc: &l}
		}
		if x.t == nil {
			return Val{undef: true}
		}
		return Val{loc: &Loc{kind: 'e', base: x.t, t: at.Elem(), idx: i}}
	}
	e.note("IndexAddr on %s", in.X.Type())
	return Val{undef: true}
}

func (e *Engine) loadPtr(p *Path, a Val, t types.Type, pos token.Pos) Val {
	switch {
	case a.loc != nil:
		o := ""
		if a.loc.kind == 'f' && len(a.loc.path) == 0 {
			o = typeName(a.loc.t) + "." + under(a.loc.t).(*types.Struct).Field(a.loc.i).Name()
			e.protected(p, a.loc, pos, false)
		}
		return Val{t: e.loadLoc(p.st, a.loc), orig: o}
	case a.t != nil:
		e.safety(p, "nil pointer dereference", pos, e.c.Ne(a.t, e.c.Zero))
		return Val{t: e.loadObj(p.st, a.t, t), orig: a.orig}
	}
	e.note("load through unmodelled pointer")
	return Val{t: e.freshVal("undef", t)}
}

func (e *Engine) storePtr(fr *Frame, p *Path, a Val, t types.Type, x Val, pos token.Pos) {
	v := x.t
	if v == nil {
		if x.clo != nil {
			// keep closure identity for later direct calls
			v = e.asTerm(x, t)
			e.w.noteClosure(e, v, x.clo)
		} else {
			v = e.asTerm(x, t)
		}
	}
	switch {
	case a.loc != nil:
		if a.loc.kind == 'f' && len(a.loc.path) == 0 {
			e.protected(p, a.loc, pos, true)
		}
		e.frameCheck(p, a.loc.base, e.locHeap(a.loc), pos)
		e.storeLoc(p.st, a.loc, v)
	case a.t != nil:
		e.safety(p, "nil pointer dereference (store)", pos, e.c.Ne(a.t, e.c.Zero))
		e.frameCheck(p, a.t, "obj:"+typeName(t), pos)
		e.storeObj(p.st, a.t, t, v)
	default:
		e.note("store through unmodelled pointer")
	}
}

func (e *Engine) locHeap(l *Loc) string {
	if l.kind == 'f' {
		n, _ := e.fieldHeap(l.t, l.i)
		return n
	}
	n, _ := e.elemHeap(l.t)
	return n
}

func (e *Engine) unop(fr *Frame, p *Path, in *ssa.UnOp) {
	c := e.c
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			fr.vals[in] = e.loadGlobal(p, g)
			return
		}
		fr.vals[in] = e.loadPtr(p, e.val(fr, p, in.X), in.Type(), in.Pos())
	case token.NOT:
		fr.vals[in] = Val{t: c.Not(e.term(fr, p, in.X))}
	case token.SUB:
		x := e.term(fr, p, in.X)
		if e.sortOf(in.Type()) != "Int" {
			fr.vals[in] = Val{t: e.freshVal("neg", in.Type())}
			return
		}
		fr.vals[in] = Val{t: e.wrap(c.Sub(c.Zero, x), in.Type())}
	case token.XOR:
		x := e.term(fr, p, in.X)
		_, signed, _ := intInfo(in.Type())
		if signed {
			fr.vals[in] = Val{t: c.Sub(c.Int(-1), x)}
		} else {
			_, hi, _ := intRange(in.Type())
			fr.vals[in] = Val{t: c.Sub(c.Big(hi), x)}
		}
	case token.ARROW:
		el := under(in.X.Type()).(*types.Chan).Elem()
		ok := e.freshVal("ok", types.Typ[types.Bool])
		v := e.recv(fr, p, "recv", in.X, el, ok, in.Pos())
		e.received(fr, p, in.X, e.c.True)
		if in.CommaOk {
			fr.vals[in] = Val{tup: []Val{{t: v}, {t: ok}}}
		} else {
			fr.vals[in] = Val{t: v}
		}
	}
}

// loadGlobal reads a package variable; error sentinels are distinct non-nil constants.
func (e *Engine) loadGlobal(p *Path, g *ssa.Global) Val {
	t := deref(g.Type())
	if e.w.constErr(g) {
		ty := e.w.errStringType
		tag := e.tag(ty)
		return Val{t: e.c.MkI(tag, e.globalRef(g)), orig: g.String()}
	}
	v := e.loadObj(p.st, e.globalRef(g), t)
	if _, ok := under(t).(*types.Pointer); ok && e.w.nonNilGlobal(g) {
		e.axiom(e.c.Not(e.c.mk("=", "Bool", v, e.c.Zero)))
	}
	return Val{t: v, orig: g.String()}
}

// ---- arithmetic ----------------------------------------------------------------------

// wrap reduces an exact integer result to the machine type. Type int is treated
// as a mathematical integer (recorded as an assumption).
func (e *Engine) wrap(v *Term, t types.Type) *Term {
	c := e.c
	bits, signed, ok := intInfo(t)
	if !ok {
		return v
	}
	if b, isb := under(t).(*types.Basic); isb && (b.Kind() == types.Int || b.Kind() == types.UntypedInt) {
		return v
	}
	lo, hi, _ := intRange(t)
	if l, h := c.rng(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	m := c.Big(pow2(bits))
	if !signed {
		return c.Mod(v, m)
	}
	h := c.Big(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(v, h), m), h)
}

func (e *Engine) binop(fr *Frame, p *Path, in *ssa.BinOp) *Term {
	c := e.c
	xv, yv := e.val(fr, p, in.X), e.val(fr, p, in.Y)
	// comparisons of locations with nil
	if in.Op == token.EQL || in.Op == token.NEQ {
		if r := e.cmpLoc(in, xv, yv); r != nil {
			return r
		}
	}
	x, y := e.asTerm(xv, in.X.Type()), e.asTerm(yv, in.Y.Type())
	return e.arith(p, in.Op, x, y, in.X.Type(), in.Y.Type(), in.Type(), in.Pos(), c)
}

func (e *Engine) cmpLoc(in *ssa.BinOp, x, y Val) *Term {
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
	var r *Term
	switch {
	case (x.loc != nil || x.clo != nil) && isNil(in.Y), (y.loc != nil || y.clo != nil) && isNil(in.X):
		r = e.c.False
	case x.loc != nil && y.loc != nil && x.loc.kind == 'e' && y.loc.kind == 'e' && len(x.loc.path) == 0 && len(y.loc.path) == 0:
		r = e.c.And(e.c.Eq(x.loc.base, y.loc.base), e.c.Eq(x.loc.idx, y.loc.idx))
	default:
		return nil
	}
	if in.Op == token.NEQ {
		r = e.c.Not(r)
	}
	return r
}

func (e *Engine) arith(p *Path, op token.Token, x, y *Term, xt, yt, rt types.Type, pos token.Pos, c *Ctx) *Term {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if x.sort == "Slice" { // only comparison with nil
			s := x
			if x.op == "mkS" && x.args[0] == c.Zero {
				s = y
			}
			r = c.Eq(c.Sel("sarr", s), c.Zero)
		} else if x.sort != y.sort {
			// interface compared with concrete value
			if x.sort == "Iface" {
				r = c.Eq(x, e.makeIface(y, yt))
			} else if y.sort == "Iface" {
				r = c.Eq(e.makeIface(x, xt), y)
			} else {
				e.note("comparison of %s and %s", xt, yt)
				r = c.Fresh("cmp", "Bool")
			}
		} else if a, ok := under(xt).(*types.Array); ok {
			var cs []*Term
			if a.Len() <= 64 {
				for i := int64(0); i < a.Len(); i++ {
					cs = append(cs, c.Eq(c.Select(x, c.Int(i)), c.Select(y, c.Int(i))))
				}
				r = c.And(cs...)
			} else {
				r = c.Fresh("arrcmp", "Bool")
			}
		} else {
			r = c.Eq(x, y)
		}
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	if x.sort == "Str" {
		switch op {
		case token.ADD:
			return e.strCat(x, y)
		case token.LSS:
			return c.UF("strlt", "Bool", x, y)
		case token.GTR:
			return c.UF("strlt", "Bool", y, x)
		case token.LEQ:
			return c.Not(c.UF("strlt", "Bool", y, x))
		case token.GEQ:
			return c.Not(c.UF("strlt", "Bool", x, y))
		}
	}
	if x.sort == "Real" {
		nm := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv", token.LSS: "flt", token.GTR: "fgt", token.LEQ: "fle", token.GEQ: "fge"}[op]
		s := "Real"
		if nm[1] == 'l' || nm[1] == 'g' {
			s = "Bool"
		}
		return c.UF(nm, s, x, y)
	}
	if x.sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	if x.sort != "Int" || y.sort != "Int" {
		e.note("operator %s on %s", op, xt)
		return e.freshVal("op", rt)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		return e.wrap(c.Add(x, y), rt)
	case token.SUB:
		return e.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return e.wrap(c.Mul(x, y), rt)
	case token.QUO, token.REM:
		if p != nil {
			e.safety(p, "division by zero", pos, c.Ne(y, c.Zero))
		}
		q := e.quo(x, y, rt)
		if op == token.QUO {
			return q
		}
		if lo, _ := c.rng(x); lo != nil && lo.Sign() >= 0 {
			if l2, _ := c.rng(y); l2 != nil && l2.Sign() >= 0 {
				return c.Mod(x, y)
			}
		}
		return c.Sub(x, c.Mul(y, q))
	case token.SHL, token.SHR:
		return e.shift(op, x, y, rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.bitop(op, x, y, rt)
	}
	e.note("operator %s", op)
	return e.freshVal("op", rt)
}

func (e *Engine) quo(x, y *Term, t types.Type) *Term {
	c := e.c
	lo, _ := c.rng(x)
	l2, _ := c.rng(y)
	if lo != nil && lo.Sign() >= 0 && l2 != nil && l2.Sign() >= 0 {
		return c.Div(x, y)
	}
	if y.ival != nil && y.ival.Sign() > 0 {
		return c.Ite(c.Le(c.Zero, x), c.Div(x, y), c.Sub(c.Zero, c.Div(c.Sub(c.Zero, x), y)))
	}
	ax := c.Ite(c.Le(c.Zero, x), x, c.Sub(c.Zero, x))
	ay := c.Ite(c.Le(c.Zero, y), y, c.Sub(c.Zero, y))
	q := c.Div(ax, ay)
	return c.Ite(c.Eq(c.Le(c.Zero, x), c.Le(c.Zero, y)), q, c.Sub(c.Zero, q))
}

func (e *Engine) shift(op token.Token, x, y *Term, t types.Type) *Term {
	c := e.c
	bits, _, _ := intInfo(t)
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Int {
		bits = 64
	}
	one := func(k int) *Term {
		if op == token.SHL {
			if k >= bits {
				return c.Zero
			}
			return e.wrap(c.Mul(x, c.Big(pow2(k))), t)
		}
		return c.Div(x, c.Big(pow2(k)))
	}
	if y.ival != nil {
		k := int(y.ival.Int64())
		if k > 200 {
			k = 200
		}
		if k < 0 {
			return e.freshVal("shift", t)
		}
		return one(k)
	}
	lo, hi := c.rng(y)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(64)) <= 0 {
		r := one(int(hi.Int64()))
		for k := int(hi.Int64()) - 1; k >= int(lo.Int64()); k-- {
			r = c.Ite(c.Eq(y, c.Int(int64(k))), one(k), r)
		}
		return r
	}
	// general: uninterpreted in the shift distance beyond the width
	r := c.Ite(c.Le(c.Int(int64(bits)), y), func() *Term {
		if op == token.SHL {
			return c.Zero
		}
		return c.Ite(c.Le(c.Zero, x), c.Zero, c.Int(-1))
	}(), func() *Term {
		v := one(bits - 1)
		for k := bits - 2; k >= 0; k-- {
			v = c.Ite(c.Eq(y, c.Int(int64(k))), one(k), v)
		}
		return v
	}())
	return r
}

func (e *Engine) bit(x *Term, i int) *Term {
	c := e.c
	return c.Mod(c.Div(x, c.Big(pow2(i))), c.Int(2))
}

// pow2mult returns k such that x is certainly a multiple of 2^k.
func (e *Engine) pow2mult(x *Term) int {
	if x.ival != nil {
		if x.ival.Sign() == 0 {
			return 64
		}
		return int(x.ival.TrailingZeroBits())
	}
	switch x.op {
	case "*":
		return e.pow2mult(x.args[0]) + e.pow2mult(x.args[1])
	case "+", "-":
		a, b := e.pow2mult(x.args[0]), e.pow2mult(x.args[1])
		if a < b {
			return a
		}
		return b
	case "mod":
		if m := x.args[1].ival; m != nil && m.Sign() > 0 {
			a, b := e.pow2mult(x.args[0]), int(m.TrailingZeroBits())
			if a < b {
				return a
			}
			return b
		}
	case "ite":
		a, b := e.pow2mult(x.args[1]), e.pow2mult(x.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func (e *Engine) bitop(op token.Token, x, y *Term, t types.Type) *Term {
	c := e.c
	bits, signed, _ := intInfo(t)
	if x.ival != nil && y.ival == nil && op != token.AND_NOT {
		x, y = y, x
	}
	if x.ival != nil && y.ival != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.ival, y.ival)
		case token.OR:
			r.Or(x.ival, y.ival)
		case token.XOR:
			r.Xor(x.ival, y.ival)
		case token.AND_NOT:
			r.AndNot(x.ival, y.ival)
		}
		return c.Big(r)
	}
	lo, hi := c.rng(x)
	nonneg := lo != nil && lo.Sign() >= 0
	if y.ival != nil && y.ival.Sign() >= 0 && (nonneg || !signed) {
		m := y.ival
		nb := bits
		if hi != nil && hi.BitLen() < nb {
			nb = hi.BitLen()
		}
		switch op {
		case token.AND:
			if m.Sign() == 0 {
				return c.Zero
			}
			// contiguous masks
			tz := int(m.TrailingZeroBits())
			sh := new(big.Int).Rsh(m, uint(tz))
			if new(big.Int).And(sh, new(big.Int).Add(sh, big.NewInt(1))).Sign() == 0 {
				w := sh.BitLen()
				return c.Mul(c.Mod(c.Div(x, c.Big(pow2(tz))), c.Big(pow2(w))), c.Big(pow2(tz)))
			}
			r := c.Zero
			for i := 0; i < nb; i++ {
				if m.Bit(i) == 1 {
					r = c.Add(r, c.Mul(e.bit(x, i), c.Big(pow2(i))))
				}
			}
			return r
		case token.OR:
			r := x
			for i := 0; i < bits; i++ {
				if m.Bit(i) == 1 {
					r = c.Add(r, c.Mul(c.Sub(c.One, e.bit(x, i)), c.Big(pow2(i))))
				}
			}
			return r
		case token.AND_NOT:
			return c.Sub(x, e.bitop(token.AND, x, y, t))
		case token.XOR:
			r := x
			for i := 0; i < bits; i++ {
				if m.Bit(i) == 1 {
					r = c.Add(r, c.Mul(c.Sub(c.One, c.Mul(c.Int(2), e.bit(x, i))), c.Big(pow2(i))))
				}
			}
			return r
		}
	}
	lo2, hi2 := c.rng(y)
	nonneg2 := lo2 != nil && lo2.Sign() >= 0
	if op == token.OR && nonneg && nonneg2 {
		if hi2 != nil && hi2.BitLen() <= e.pow2mult(x) {
			return c.Add(x, y)
		}
		if hi != nil && hi.BitLen() <= e.pow2mult(y) {
			return c.Add(x, y)
		}
	}
	if bits == 8 && nonneg && nonneg2 {
		// byte operands: bit by bit
		r := c.Zero
		for i := 0; i < 8; i++ {
			a, b := e.bit(x, i), e.bit(y, i)
			var v *Term
			one := c.One
			switch op {
			case token.AND:
				v = c.Ite(c.And(c.Eq(a, one), c.Eq(b, one)), one, c.Zero)
			case token.OR:
				v = c.Ite(c.Or(c.Eq(a, one), c.Eq(b, one)), one, c.Zero)
			case token.XOR:
				v = c.Ite(c.Eq(a, b), c.Zero, one)
			case token.AND_NOT:
				v = c.Ite(c.And(c.Eq(a, one), c.Eq(b, c.Zero)), one, c.Zero)
			}
			r = c.Add(r, c.Mul(v, c.Big(pow2(i))))
		}
		return r
	}
	nm := fmt.Sprintf("bv%s_%d", map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], bits)
	r := c.UF(nm, "Int", x, y)
	e.wf(r, t)
	if op == token.AND && !r.bound && nonneg && nonneg2 {
		e.axiom(c.Le(r, x))
		e.axiom(c.Le(r, y))
	}
	return r
}

// ---- strings -------------------------------------------------------------------------

func (e *Engine) strLen(s *Term) *Term {
	if s.sval != nil {
		return e.c.Int(int64(len(*s.sval)))
	}
	l := e.c.UF("strlen", "Int", s)
	e.wf(s, types.Typ[types.String])
	return l
}

func (e *Engine) strAt(s, i *Term) *Term {
	if s.sval != nil && i.ival != nil && i.ival.Sign() >= 0 && i.ival.Cmp(big.NewInt(int64(len(*s.sval)))) < 0 {
		return e.c.Int(int64((*s.sval)[i.ival.Int64()]))
	}
	v := e.c.UF("strat", "Int", s, i)
	e.wf(v, types.Typ[types.Uint8])
	return v
}

func (e *Engine) strCat(a, b *Term) *Term {
	if a.sval != nil && b.sval != nil {
		return e.strLit(*a.sval + *b.sval)
	}
	if a.sval != nil && *a.sval == "" {
		return b
	}
	if b.sval != nil && *b.sval == "" {
		return a
	}
	r := e.c.UF("strcat", "Str", a, b)
	if !r.bound {
		e.wf(r, types.Typ[types.String])
		e.axiom(e.c.Eq(e.c.UF("strlen", "Int", r), e.c.Add(e.strLen(a), e.strLen(b))))
	}
	return r
}

func (e *Engine) subStr(p *Path, s, lo, hi *Term) *Term {
	c := e.c
	if s.sval != nil && lo.ival != nil && hi.ival != nil {
		l, h := lo.ival.Int64(), hi.ival.Int64()
		if 0 <= l && l <= h && h <= int64(len(*s.sval)) {
			return e.strLit((*s.sval)[l:h])
		}
	}
	if lo == c.Zero && hi == e.strLen(s) {
		return s
	}
	r := c.UF("substr", "Str", s, lo, hi)
	if !r.bound {
		e.wf(r, types.Typ[types.String])
		e.axiom(c.Imp(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, e.strLen(s))), c.Eq(c.UF("strlen", "Int", r), c.Sub(hi, lo))))
		e.axiom(c.Imp(c.And(c.Eq(lo, c.Zero), c.Eq(hi, e.strLen(s))), c.Eq(r, s)))
	}
	return r
}

// strRep is a string with the bytes it was made from.
type strRep struct{ s, row, off, n *Term }

// b2s is string(b) for the bytes of a row.
func (e *Engine) b2s(row, off, n *Term) *Term {
	c := e.c
	r := c.UF("bytes2str", "Str", row, off, n)
	if !r.bound {
		e.wf(r, types.Typ[types.String])
		e.axiom(c.Imp(c.Le(c.Zero, n), c.Eq(c.UF("strlen", "Int", r), n)))
		e.noteRep(strRep{r, row, off, n})
	}
	return r
}

// s2b is the row of bytes of a string.
func (e *Engine) s2b(s *Term, rs string) *Term {
	c := e.c
	row := c.UF("str2bytes", rs, s)
	if !row.bound {
		n := e.strLen(s)
		e.axiom(c.Eq(c.UF("bytes2str", "Str", row, c.Zero, n), s))
		e.noteRep(strRep{s, row, c.Zero, n})
	}
	return row
}

// noteRep states extensionality: two strings of one length made of the same bytes are
// equal, that is, different ones differ at some byte.
func (e *Engine) noteRep(r strRep) {
	c := e.c
	for _, q := range e.strReps {
		if q == r {
			return
		}
	}
	for _, q := range e.strReps {
		if q.s == r.s {
			continue
		}
		d := c.Fresh("diff", "Int")
		e.axiom(c.Or(c.Eq(r.s, q.s), c.Ne(r.n, q.n), c.And(c.Le(c.Zero, d), c.Lt(d, r.n), c.Ne(c.Select(r.row, c.Add(r.off, d)), c.Select(q.row, c.Add(q.off, d))))))
	}
	e.strReps = append(e.strReps, r)
}

// ---- conversions -----------------------------------------------------------------------

func (e *Engine) convert(p *Path, xv Val, from, to types.Type) *Term {
	c := e.c
	x := e.asTerm(xv, from)
	fs, ts := e.sortOf(from), e.sortOf(to)
	switch {
	case fs == "Int" && ts == "Int":
		if _, _, ok := intInfo(from); ok {
			if _, _, ok := intInfo(to); ok {
				return e.convInt(x, from, to)
			}
		}
		return x
	case fs == "Str" && ts == "Slice":
		r := e.alloc()
		n, s := e.elemHeap(types.Typ[types.Uint8])
		if under(under(to).(*types.Slice).Elem()).(*types.Basic).Kind() != types.Uint8 {
			n, s = e.elemHeap(under(to).(*types.Slice).Elem())
			row := c.UF("str2runes", mustElem(s), x)
			e.set(p.st, n, r, row)
			l := c.UF("runecount", "Int", x)
			e.wf(l, types.Typ[types.Int])
			e.axiom(c.Le(c.Zero, l))
			return c.MkS(r, c.Zero, l, l)
		}
		row := e.s2b(x, mustElem(s))
		e.set(p.st, n, r, row)
		return c.MkS(r, c.Zero, e.strLen(x), e.strLen(x))
	case fs == "Slice" && ts == "Str":
		n, _ := e.elemHeap(types.Typ[types.Uint8])
		if under(under(from).(*types.Slice).Elem()).(*types.Basic).Kind() != types.Uint8 {
			return e.freshVal("str", to)
		}
		row := c.Select(e.get(p.st, n), c.Sel("sarr", x))
		return e.b2s(row, c.Sel("soff", x), c.Sel("slen", x))
	case fs == "Int" && ts == "Str":
		r := c.UF("rune2str", "Str", x)
		e.wf(r, to)
		return r
	case fs == ts && fs != "Real":
		return e.retype(x, from, to)
	case fs == "Int" && ts == "Real":
		return c.UF("int2real", "Real", x)
	case fs == "Real" && ts == "Int":
		r := c.UF("real2int_"+typeName(to), "Int", x)
		e.wf(r, to)
		return r
	case fs == "Real" && ts == "Real":
		return x
	}
	if isStruct(from) && isStruct(to) {
		return e.retype(x, from, to)
	}
	e.note("conversion %s to %s", from, to)
	return e.freshVal("conv", to)
}

func (e *Engine) convInt(x *Term, from, to types.Type) *Term {
	lo, hi, _ := intRange(to)
	if l, h := e.c.rng(x); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	if fl, fh, ok := intRange(from); ok && fl.Cmp(lo) >= 0 && fh.Cmp(hi) <= 0 {
		return x
	}
	bits, signed, _ := intInfo(to)
	m := e.c.Big(pow2(bits))
	if !signed {
		return e.c.Mod(x, m)
	}
	h := e.c.Big(pow2(bits - 1))
	return e.c.Sub(e.c.Mod(e.c.Add(x, h), m), h)
}

// ---- interfaces -------------------------------------------------------------------------

func (e *Engine) makeIface(x *Term, t types.Type) *Term {
	c := e.c
	if x.sort == "Iface" {
		return x
	}
	tag := e.tag(t)
	if isRefType(t) {
		return c.MkI(tag, x)
	}
	nm := typeName(t)
	b := c.UF("box_"+nm, "Int", x)
	if !b.bound {
		e.axiom(c.Eq(c.UF("unbox_"+nm, x.sort, b), x))
		e.axiom(c.mk("<", "Bool", b, c.Zero))
	}
	return c.MkI(tag, b)
}

func (e *Engine) unboxed(st *State, v *Term, t types.Type) *Term {
	c := e.c
	if isRefType(t) {
		r := c.Sel("ipl", v)
		return r
	}
	r := c.UF("unbox_"+typeName(t), e.sortOf(t), c.Sel("ipl", v))
	e.wf(r, t)
	return r
}

func (e *Engine) typeAssert(fr *Frame, p *Path, in *ssa.TypeAssert) {
	c := e.c
	x := e.term(fr, p, in.X)
	tg := c.Sel("itag", x)
	var ok, v *Term
	if _, isI := under(in.AssertedType).(*types.Interface); isI {
		ok = e.implements(x, in.AssertedType)
		v = c.Ite(ok, x, c.MkI(c.Zero, c.Zero))
		if !in.CommaOk {
			v = x
		}
	} else {
		ok = c.Eq(tg, e.tag(in.AssertedType))
		v = e.unboxed(p.st, x, in.AssertedType)
		if in.CommaOk {
			v = c.Ite(ok, v, e.zero(in.AssertedType))
		}
		if isRefType(in.AssertedType) && !in.CommaOk {
			// typed nil inside an interface is possible but not produced by the decoder
		}
	}
	if in.CommaOk {
		fr.vals[in] = Val{tup: []Val{{t: v}, {t: ok}}}
		return
	}
	e.safety(p, "failed type assertion to "+typeName(in.AssertedType), in.Pos(), ok)
	fr.vals[in] = Val{t: v}
}

func (e *Engine) implements(x *Term, it types.Type) *Term {
	c := e.c
	tg := c.Sel("itag", x)
	if tg.ival != nil {
		if tg.ival.Sign() == 0 {
			return c.False
		}
		t := e.tagTypes[tg.ival.Int64()-1]
		return c.Bool(types.Implements(t, under(it).(*types.Interface)))
	}
	return c.And(c.Ne(tg, c.Zero), c.UF("impl_"+typeName(it), "Bool", tg))
}

// ---- maps -------------------------------------------------------------------------------

func (e *Engine) emptyMap(st *State, m *types.Map, r *Term) {
	h, v, l := e.mapHeaps(m)
	c := e.c
	e.set(st, h, r, c.ConstArr(mustElem(e.heapSort[h]), c.False))
	e.set(st, v, r, c.ConstArr(mustElem(e.heapSort[v]), e.zero(m.Elem())))
	e.set(st, l, r, c.Zero)
}

func (e *Engine) mapGet(st *State, m *types.Map, r, k *Term) (v, ok *Term) {
	c := e.c
	hn, vn, _ := e.mapHeaps(m)
	has := c.Select(c.Select(e.get(st, hn), r), k)
	ok = c.And(c.Ne(r, c.Zero), has)
	raw := c.Select(c.Select(e.get(st, vn), r), k)
	e.wf(raw, m.Elem())
	v = c.Ite(ok, raw, e.zero(m.Elem()))
	return
}

func (e *Engine) mapLen(st *State, m *types.Map, r *Term) *Term {
	c := e.c
	_, _, ln := e.mapHeaps(m)
	l := c.Select(e.get(st, ln), r)
	if !l.bound && l.ival == nil {
		e.axiom(c.mk("<=", "Bool", c.Zero, l))
		c.setRng(l, new(big.Int), maxLen)
	}
	return c.Ite(c.Eq(r, c.Zero), c.Zero, l)
}

func (e *Engine) mapSet(st *State, m *types.Map, r, k, v *Term) {
	c := e.c
	hn, vn, ln := e.mapHeaps(m)
	hr := c.Select(e.get(st, hn), r)
	has := c.Select(hr, k)
	l := c.Select(e.get(st, ln), r)
	e.set(st, ln, r, c.Ite(has, l, c.Add(l, c.One)))
	e.set(st, hn, r, c.Store(hr, k, c.True))
	e.set(st, vn, r, c.Store(c.Select(e.get(st, vn), r), k, v))
}

func (e *Engine) mapDelete(st *State, m *types.Map, r, k *Term) {
	c := e.c
	hn, _, ln := e.mapHeaps(m)
	hr := c.Select(e.get(st, hn), r)
	has := c.Select(hr, k)
	l := c.Select(e.get(st, ln), r)
	e.set(st, ln, r, c.Ite(has, c.Sub(l, c.One), l))
	e.set(st, hn, r, c.Store(hr, k, c.False))
}

func (e *Engine) lookup(fr *Frame, p *Path, in *ssa.Lookup) {
	c := e.c
	x := e.term(fr, p, in.X)
	k := e.term(fr, p, in.Index)
	m, ok := under(in.X.Type()).(*types.Map)
	if !ok { // string index
		e.safety(p, "string index out of range", in.Pos(), c.And(c.Le(c.Zero, k), c.Lt(k, e.strLen(x))))
		fr.vals[in] = Val{t: e.strAt(x, k)}
		return
	}
	e.protectedMap(fr, p, in.X, in.Pos(), false)
	v, has := e.mapGet(p.st, m, x, k)
	e.mapGetHook(p, m, x, k, v, has)
	if in.CommaOk {
		fr.vals[in] = Val{tup: []Val{{t: v}, {t: has}}}
	} else {
		fr.vals[in] = Val{t: v}
	}
}

func (e *Engine) rangeInit(fr *Frame, p *Path, in *ssa.Range) {
	x := e.term(fr, p, in.X)
	e.iters++
	it := &mapIter{ref: x, name: fmt.Sprintf("R:%d", e.iters)}
	if m, ok := under(in.X.Type()).(*types.Map); ok {
		it.m = m
		e.noteHeap(it.name, arrSort(e.sortOf(m.Key()), "Bool"), nil)
		p.st.h[it.name] = e.c.ConstArr(e.heapSort[it.name], e.c.False)
		e.noteWrite(it.name, nil)
		if e.mapIters == nil {
			e.mapIters = map[string]*mapIter{}
		}
		e.mapIters[it.name] = it
	} else {
		it.str = true
	}
	fr.vals[in] = Val{iter: it}
}

func (e *Engine) next(fr *Frame, p *Path, in *ssa.Next) {
	c := e.c
	it := e.val(fr, p, in.Iter).iter
	if it == nil || it.str {
		ok := c.Fresh("ok", "Bool")
		i := e.freshVal("i", types.Typ[types.Int])
		if it != nil {
			e.assume(p, c.Imp(ok, c.And(c.Le(c.Zero, i), c.Lt(i, e.strLen(it.ref)))))
		} else {
			e.note("range over unmodelled iterator")
		}
		fr.vals[in] = Val{tup: []Val{{t: ok}, {t: i}, {t: e.freshVal("r", types.Typ[types.Int32])}}}
		return
	}
	ok := c.Fresh("ok", "Bool")
	k := e.freshVal("key", it.m.Key())
	hn, vn, _ := e.mapHeaps(it.m)
	visited := e.get(p.st, it.name)
	has := c.Select(e.get(p.st, hn), it.ref)
	e.assume(p, c.Imp(ok, c.And(c.Ne(it.ref, c.Zero), c.Select(has, k), c.Not(c.Select(visited, k)))))
	b := c.Bound("k", k.sort)
	e.assume(p, c.Imp(c.Not(ok), c.Or(c.Eq(it.ref, c.Zero), c.Quant("forall", []*Term{b}, c.Imp(c.Select(has, b), c.Select(visited, b)), [][]*Term{{c.Select(has, b)}}))))
	v := c.Select(c.Select(e.get(p.st, vn), it.ref), k)
	e.wf(v, it.m.Elem())
	e.mapGetHook(p, it.m, it.ref, k, v, ok)
	p.st.h[it.name] = c.Ite(ok, c.Store(visited, k, c.True), visited)
	e.noteWrite(it.name, nil)
	fr.vals[in] = Val{tup: []Val{{t: ok}, {t: k}, {t: v}}}
}

// ---- slices -----------------------------------------------------------------------------

func (e *Engine) slice(fr *Frame, p *Path, in *ssa.Slice) {
	c := e.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(fr, p, v)
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := e.term(fr, p, in.X)
		a, o, l, k := c.Sel("sarr", s), c.Sel("soff", s), c.Sel("slen", s), c.Sel("scap", s)
		lo := get(in.Low, c.Zero)
		hi := get(in.High, l)
		mx := get(in.Max, k)
		e.safety(p, "slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, k)))
		fr.vals[in] = Val{t: c.MkS(a, c.Add(o, lo), c.Sub(hi, lo), c.Sub(mx, lo))}
	case *types.Pointer: // array
		at := under(u.Elem()).(*types.Array)
		x := e.val(fr, p, in.X)
		n := c.Int(at.Len())
		lo := get(in.Low, c.Zero)
		hi := get(in.High, n)
		mx := get(in.Max, n)
		e.safety(p, "slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		if x.t == nil {
			e.note("slice of an array inside another value")
			fr.vals[in] = Val{t: e.freshVal("slice", in.Type())}
			return
		}
		fr.vals[in] = Val{t: c.MkS(x.t, lo, c.Sub(hi, lo), c.Sub(mx, lo))}
	default: // string
		s := e.term(fr, p, in.X)
		lo := get(in.Low, c.Zero)
		hi := get(in.High, e.strLen(s))
		e.safety(p, "string slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, e.strLen(s))))
		fr.vals[in] = Val{t: e.subStr(p, s, lo, hi)}
	}
}

// appendSlice models append(s, t...) where t is a slice value.
func (e *Engine) appendSlice(p *Path, s, t *Term, el types.Type, tIsStr bool) *Term {
	c := e.c
	hn, hs := e.elemHeap(el)
	rs := mustElem(hs)
	a, o, l, k := c.Sel("sarr", s), c.Sel("soff", s), c.Sel("slen", s), c.Sel("scap", s)
	var ta, to, tl, trow *Term
	if tIsStr {
		tl, to = e.strLen(t), c.Zero
		trow = e.s2b(t, rs)
	} else {
		ta, to, tl = c.Sel("sarr", t), c.Sel("soff", t), c.Sel("slen", t)
		trow = c.Select(e.get(p.st, hn), ta)
	}
	if tl == c.Zero {
		return s
	}
	nl := c.Add(l, tl)
	fits := c.Le(nl, k)
	row := c.Select(e.get(p.st, hn), a)
	var nrow *Term
	if tl.ival != nil && tl.ival.Cmp(big.NewInt(32)) <= 0 {
		nrow = row
		for i := int64(0); i < tl.ival.Int64(); i++ {
			nrow = c.Store(nrow, c.Add(c.Add(o, l), c.Int(i)), c.Select(trow, c.Add(to, c.Int(i))))
		}
	} else {
		nrow = c.Fresh("approw", rs)
		j := c.Bound("j", "Int")
		sel := c.mk("select", mustElem(rs), nrow, j)
		base := c.Add(o, l)
		in := c.And(c.Le(base, j), c.Lt(j, c.Add(base, tl)))
		e.assume(p, c.Quant("forall", []*Term{j}, c.Eq(sel, c.Ite(in, c.Select(trow, c.Add(to, c.Sub(j, base))), c.Select(row, j))), [][]*Term{{sel}}))
		// also trigger from the source side
		j2 := c.Bound("j", "Int")
		e.assume(p, c.Quant("forall", []*Term{j2}, c.Imp(c.And(c.Le(to, j2), c.Lt(j2, c.Add(to, tl))), c.Eq(c.Select(nrow, c.Add(base, c.Sub(j2, to))), c.Select(trow, j2))), [][]*Term{{c.Select(trow, j2)}}))
	}
	na := e.alloc()
	res := c.Ite(fits, a, na)
	if fits == c.False {
		res = na
	}
	nc := c.Fresh("cap", "Int")
	e.axiom(c.Le(nl, nc))
	c.setRng(nc, new(big.Int), maxLen)
	e.frameCheck(p, res, hn, token.NoPos)
	e.set(p.st, hn, res, nrow)
	return c.MkS(res, o, nl, c.Ite(fits, k, nc))
}

func (e *Engine) copySlice(p *Path, d, s *Term, el types.Type, srcStr bool) *Term {
	c := e.c
	hn, hs := e.elemHeap(el)
	rs := mustElem(hs)
	var sl, so, srow *Term
	if srcStr {
		sl, so, srow = e.strLen(s), c.Zero, e.s2b(s, rs)
	} else {
		sl, so, srow = c.Sel("slen", s), c.Sel("soff", s), c.Select(e.get(p.st, hn), c.Sel("sarr", s))
	}
	da, do, dl := c.Sel("sarr", d), c.Sel("soff", d), c.Sel("slen", d)
	n := c.Ite(c.Le(dl, sl), dl, sl)
	drow := c.Select(e.get(p.st, hn), da)
	var nrow *Term
	if n.ival != nil && n.ival.Cmp(big.NewInt(64)) <= 0 {
		nrow = drow
		for i := int64(0); i < n.ival.Int64(); i++ {
			nrow = c.Store(nrow, c.Add(do, c.Int(i)), c.Select(srow, c.Add(so, c.Int(i))))
		}
	} else {
		nrow = c.Fresh("cprow", rs)
		j := c.Bound("j", "Int")
		sel := c.mk("select", mustElem(rs), nrow, j)
		in := c.And(c.Le(do, j), c.Lt(j, c.Add(do, n)))
		e.assume(p, c.Quant("forall", []*Term{j}, c.Eq(sel, c.Ite(in, c.Select(srow, c.Add(so, c.Sub(j, do))), c.Select(drow, j))), [][]*Term{{sel}}))
	}
	e.frameCheck(p, da, hn, token.NoPos)
	e.set(p.st, hn, da, nrow)
	return n
}
