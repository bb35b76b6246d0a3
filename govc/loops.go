package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopSite struct {
	fr         *Frame
	l          *loopInfo
	entry      *Path
	phis       []*ssa.Phi
	init       []Val
	head       *Path
	startFront Pos
	mod        []string
	frames     []string
	cells      []heapCell
	search     []searchCand
}

// heapCell is a slice kept in one object, the only one of its kind a loop changes.
type heapCell struct {
	heap string
	ref  *Term
}

type loopCand struct {
	name string
	user bool
	cand *Cand
	f    func(vals []Val, p *Path) (*Term, bool)
}

func (k *loopCand) eval(vals []Val, p *Path) (*Term, bool) { return k.f(vals, p) }

func (e *Engine) loopCandidates(ls *loopSite) []*loopCand {
	c := e.c
	var out []*loopCand
	site := fmt.Sprintf("%s@%d", ls.fr.fn.Name(), e.w.prog.Fset.Position(loopPos(ls.l)).Line)
	add := func(user bool, name string, f func(vals []Val, p *Path) (*Term, bool)) {
		out = append(out, &loopCand{name: site + ": " + name, user: user, f: f})
	}
	entryFront := e.posTerm(Pos{0, 0})
	// frames of heaps whose writes have no loop-independent address
	for _, h := range ls.frames {
		h := h
		e0 := e.get(ls.entry.st, h)
		frame := func(name string, lim, but *Term) {
			add(false, name, func(vals []Val, p *Path) (*Term, bool) {
				cur := e.get(p.st, h)
				if cur == e0 {
					return c.True, true
				}
				r := c.Bound("r", "Int")
				sel := c.mk("select", mustElem(cur.sort), cur, r)
				in := c.And(c.mk("<=", "Bool", c.Zero, r), c.mk("<", "Bool", r, lim))
				if but != nil {
					in = c.And(in, c.Not(c.mk("=", "Bool", r, but)))
				}
				return c.Quant("forall", []*Term{r}, c.Imp(in, c.mk("=", "Bool", sel, c.mk("select", mustElem(cur.sort), e0, r))), [][]*Term{{sel}}), true
			})
		}
		frame("frame "+h+"/0", e.posTerm(ls.startFront), nil)
		frame("frame "+h+"/1", entryFront, nil)
		// a list that is filtered in place
		for i, ph := range ls.phis {
			sl, ok := under(ph.Type()).(*types.Slice)
			if !ok || ls.init[i].t == nil {
				continue
			}
			if n, _ := e.elemHeap(sl.Elem()); n != h {
				continue
			}
			if but := c.Sel("sarr", ls.init[i].t); but != c.Zero {
				frame("frame "+h+" but "+ph.Comment, e.posTerm(ls.startFront), but)
			}
		}
	}
	for _, k := range ls.cells {
		k := k
		s0 := c.Select(e.get(ls.entry.st, k.heap), k.ref)
		cur := func(p *Path) *Term { return c.Select(e.get(p.st, k.heap), k.ref) }
		add(false, "same place "+k.heap, func(vals []Val, p *Path) (*Term, bool) {
			return c.And(c.Eq(c.Sel("sarr", cur(p)), c.Sel("sarr", s0)), c.Eq(c.Sel("soff", cur(p)), c.Sel("soff", s0))), true
		})
		add(false, "shrinks "+k.heap, func(vals []Val, p *Path) (*Term, bool) {
			return c.Le(c.Sel("slen", cur(p)), c.Sel("slen", s0)), true
		})
	}
	for _, h := range ls.mod {
		h := h
		e0 := e.get(ls.entry.st, h)
		switch {
		case strings.HasPrefix(h, "R:") && e.mapIters[h] != nil:
			it := e.mapIters[h]
			hn, _, _ := e.mapHeaps(it.m)
			add(false, "visited keys removed "+h, func(vals []Val, p *Path) (*Term, bool) {
				vis, has := e.get(p.st, h), c.Select(e.get(p.st, hn), it.ref)
				b := c.Bound("k", e.sortOf(it.m.Key()))
				return c.Quant("forall", []*Term{b}, c.Imp(c.Select(vis, b), c.Not(c.Select(has, b))), [][]*Term{{c.Select(vis, b)}, {c.Select(has, b)}}), true
			})
		case strings.HasPrefix(h, "L:"):
			add(false, "locks "+h, func(vals []Val, p *Path) (*Term, bool) { return c.Eq(e.get(p.st, h), e0), true })
		case strings.HasPrefix(h, "G:tr:") && strings.HasSuffix(h, ":n"):
			add(false, "trace "+h, func(vals []Val, p *Path) (*Term, bool) { return c.Le(e0, e.get(p.st, h)), true })
			add(false, "trace same "+h, func(vals []Val, p *Path) (*Term, bool) { return c.Eq(e0, e.get(p.st, h)), true })
		case strings.HasPrefix(h, "G:tr:"):
			n0 := e.get(ls.entry.st, h[:strings.LastIndex(h, ":")]+":n")
			add(false, "trace prefix "+h, func(vals []Val, p *Path) (*Term, bool) {
				cur := e.get(p.st, h)
				if cur == e0 {
					return c.True, true
				}
				r := c.Bound("r", "Int")
				sel := c.mk("select", mustElem(cur.sort), cur, r)
				return c.Quant("forall", []*Term{r}, c.Imp(c.And(c.mk("<=", "Bool", c.Zero, r), c.mk("<", "Bool", r, n0)), c.mk("=", "Bool", sel, c.mk("select", mustElem(cur.sort), e0, r))), [][]*Term{{sel}}), true
			})
		case h == "G:v:now":
			add(false, "time", func(vals []Val, p *Path) (*Term, bool) { return c.Le(e0, e.get(p.st, h)), true })
		}
	}
	// phis
	for i, ph := range ls.phis {
		i, ph := i, ph
		in := ls.init[i]
		if in.t == nil {
			continue
		}
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		get := func(vals []Val) *Term { return vals[i].t }
		cmp := func(name string, f func(v *Term, p *Path) *Term) {
			add(false, name, func(vals []Val, p *Path) (*Term, bool) {
				v := get(vals)
				if v == nil {
					return nil, false
				}
				return f(v, p), true
			})
		}
		switch in.t.sort {
		case "Int":
			if isRefType(ph.Type()) {
				cmp(nm+" unchanged", func(v *Term, p *Path) *Term { return c.Eq(v, in.t) })
				cmp(nm+" non-nil", func(v *Term, p *Path) *Term { return c.Ne(v, c.Zero) })
				cmp(nm+" fresh", func(v *Term, p *Path) *Term {
					return c.Or(c.Eq(v, c.Zero), c.mk("<=", "Bool", entryFront, v))
				})
				break
			}
			cmp(nm+" >= start", func(v *Term, p *Path) *Term { return c.Le(in.t, v) })
			cmp(nm+" <= start", func(v *Term, p *Path) *Term { return c.Le(v, in.t) })
			if _, b := e.headerBound(ls, ph); b != nil {
				cmp(nm+" < bound", func(v *Term, p *Path) *Term { return c.Lt(v, b) })
				cmp(nm+" <= bound", func(v *Term, p *Path) *Term { return c.Le(v, b) })
				cmp(nm+" > bound", func(v *Term, p *Path) *Term { return c.Lt(b, v) })
				cmp(nm+" >= bound", func(v *Term, p *Path) *Term { return c.Le(b, v) })
			}
			for j, ph2 := range ls.phis {
				j, ph2 := j, ph2
				if j == i || ls.init[j].t == nil || ls.init[j].t.sort != "Int" || isRefType(ph2.Type()) {
					continue
				}
				add(false, fmt.Sprintf("%s <= %s", nm, ph2.Comment), func(vals []Val, p *Path) (*Term, bool) {
					if vals[i].t == nil || vals[j].t == nil {
						return nil, false
					}
					return c.Le(vals[i].t, roleInt(c, ph2, vals[j].t)), true
				})
			}
		case "Bool":
			cmp(nm+" unchanged", func(v *Term, p *Path) *Term { return c.Eq(v, in.t) })
		case "Iface", "Str":
			cmp(nm+" unchanged", func(v *Term, p *Path) *Term { return c.Eq(v, in.t) })
			if in.t.sort == "Iface" {
				cmp(nm+" non-nil", func(v *Term, p *Path) *Term { return c.Ne(c.Sel("itag", v), c.Zero) })
			}
		case "Slice":
			el := under(ph.Type()).(*types.Slice).Elem()
			cmp(nm+" unchanged", func(v *Term, p *Path) *Term { return c.Eq(v, in.t) })
			cmp(nm+" array fresh", func(v *Term, p *Path) *Term {
				a := c.Sel("sarr", v)
				return c.Or(c.Eq(a, c.Zero), c.mk("<=", "Bool", entryFront, a))
			})
			cmp(nm+" same array", func(v *Term, p *Path) *Term { return c.Eq(c.Sel("sarr", v), c.Sel("sarr", in.t)) })
			cmp(nm+" same array or newer", func(v *Term, p *Path) *Term {
				a := c.Sel("sarr", v)
				return c.Or(c.Eq(a, c.Sel("sarr", in.t)), c.mk("<=", "Bool", e.posTerm(ls.startFront), a))
			})
			cmp(nm+" same offset", func(v *Term, p *Path) *Term { return c.Eq(c.Sel("soff", v), c.Sel("soff", in.t)) })
			cmp(nm+" len grows", func(v *Term, p *Path) *Term { return c.Le(c.Sel("slen", in.t), c.Sel("slen", v)) })
			cmp(nm+" len shrinks", func(v *Term, p *Path) *Term { return c.Le(c.Sel("slen", v), c.Sel("slen", in.t)) })
			cmp(nm+" same cap", func(v *Term, p *Path) *Term { return c.Eq(c.Sel("scap", v), c.Sel("scap", in.t)) })
			cmp(nm+" nonempty", func(v *Term, p *Path) *Term { return c.Lt(c.Zero, c.Sel("slen", v)) })
			for j, ph2 := range ls.phis {
				j, ph2 := j, ph2
				if ls.init[j].t == nil || ls.init[j].t.sort != "Int" || isRefType(ph2.Type()) {
					continue
				}
				i0 := roleInt(c, ph2, ls.init[j].t)
				add(false, fmt.Sprintf("len %s <= count %s", nm, ph2.Comment), func(vals []Val, p *Path) (*Term, bool) {
					if vals[i].t == nil || vals[j].t == nil {
						return nil, false
					}
					return c.Le(c.Sub(c.Sel("slen", vals[i].t), c.Sel("slen", in.t)), c.Sub(roleInt(c, ph2, vals[j].t), i0)), true
				})
				add(false, fmt.Sprintf("len %s == count %s", nm, ph2.Comment), func(vals []Val, p *Path) (*Term, bool) {
					if vals[i].t == nil || vals[j].t == nil {
						return nil, false
					}
					return c.Eq(c.Sub(c.Sel("slen", vals[i].t), c.Sel("slen", in.t)), c.Sub(roleInt(c, ph2, vals[j].t), i0)), true
				})
			}
			if e.sortOf(el) == "Iface" || isRefType(el) {
				hn, _ := e.elemHeap(el)
				ref := func(x *Term) *Term {
					if x.sort == "Iface" {
						return c.Sel("ipl", x)
					}
					return x
				}
				nz := func(x *Term) *Term {
					if x.sort == "Iface" {
						return c.Ne(c.mk("itag", "Int", x), c.Zero)
					}
					return c.Ne(x, c.Zero)
				}
				all := func(name string, f func(x *Term) *Term) {
					cmp(name, func(v *Term, p *Path) *Term {
						row := c.Select(e.get(p.st, hn), c.Sel("sarr", v))
						k := c.Bound("k", "Int")
						x := c.Select(row, k)
						pat := c.mk("select", x.sort, row, k)
						o := c.Sel("soff", v)
						return c.Quant("forall", []*Term{k}, c.Imp(c.And(c.Le(o, k), c.Lt(k, c.Add(o, c.Sel("slen", v)))), f(x)), [][]*Term{{pat}})
					})
				}
				all(nm+" elements non-nil", nz)
				all(nm+" elements fresh", func(x *Term) *Term { return c.mk("<=", "Bool", entryFront, ref(x)) })
			}
		}
	}
	for n, sc := range ls.search {
		sc := sc
		add(false, fmt.Sprintf("every earlier iteration continued #%d", n), func(vals []Val, p *Path) (*Term, bool) {
			v := vals[sc.i].t
			if v == nil {
				return nil, false
			}
			k := c.Bound("k", "Int")
			g := c.And(c.Le(sc.init, k), c.Lt(k, v))
			if sc.down {
				g = c.And(c.Lt(v, k), c.Le(k, sc.init))
			}
			at := k
			if sc.init.ival != nil && sc.init.ival.Sign() < 0 && !sc.down {
				// range loops keep the index before the increment
				at = c.Sub(k, c.Int(1))
				g = c.And(c.Le(c.Int(0), k), c.Le(k, v))
			}
			q := e.mkQuant("forall", k, g, c.Subst(sc.cond, map[*Term]*Term{sc.at: at}))
			return q, len(q.vars) == 0 || len(q.pats) > 0
		})
	}
	// candidates written in contracts
	pool := []*Clause{}
	envs := []*Env{}
	if e.root != nil {
		for _, cl := range e.root.invs {
			pool = append(pool, cl)
			envs = append(envs, e.entryEnv)
		}
	}
	if ct := e.w.contracts[fnKey(ls.fr.fn)]; ct != nil && ct != e.root {
		env := &Env{vars: map[string]SV{}, front: Pos{0, 0}, pkg: pkgOfFn(ls.fr.fn)}
		var as []Val
		for _, pa := range ls.fr.fn.Params {
			as = append(as, ls.fr.vals[pa])
		}
		e.bindArgs(env, ct, fnSig(ls.fr.fn), as)
		for _, cl := range ct.invs {
			pool = append(pool, cl)
			envs = append(envs, env)
		}
	}
	if ls.fr.parent == nil && e.root != nil && !e.root.noderive {
		for _, cl := range e.root.ensures {
			for _, d := range deriveInvs(cl, fnSig(ls.fr.fn)) {
				pool = append(pool, d)
				envs = append(envs, e.entryEnv)
			}
		}
	}
	for n, cl := range pool {
		e.userCands(ls, cl, envs[n], add)
	}
	return out
}

func pkgOfFn(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return nil
}

func loopPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// roleInt is the number of elements processed for range loops, the value otherwise.
func roleInt(c *Ctx, ph *ssa.Phi, v *Term) *Term {
	if ph.Comment == "rangeindex" {
		return c.Add(v, c.One)
	}
	return v
}

// userCands instantiates a contract invariant for every fitting choice of loop variables.
func (e *Engine) userCands(ls *loopSite, cl *Clause, base *Env, add func(bool, string, func([]Val, *Path) (*Term, bool))) {
	// variables kept in memory, those of calling functions included
	var locals []*ssa.Alloc
	owner := map[*ssa.Alloc]*Frame{}
	for fr := ls.fr; fr != nil; fr = fr.parent {
		for a := range fr.vals {
			if a, ok := a.(*ssa.Alloc); ok && owner[a] == nil && a.Comment != "" && a.Comment != "complit" && a.Comment != "new" {
				switch under(deref(a.Type())).(type) {
				case *types.Struct, *types.Slice, *types.Basic:
					locals = append(locals, a)
					owner[a] = fr
				}
			}
		}
	}
	// objects made before the loop, named in an invariant by their pointer type
	objs := map[*ssa.Alloc]bool{}
	for _, r := range cl.roles {
		if !strings.HasPrefix(r.typ, "*") {
			continue
		}
		y := e.w.parseType(r.typ)
		for a, v := range ls.fr.vals {
			if a, ok := a.(*ssa.Alloc); ok && owner[a] == nil && y != nil && v.loc == nil && v.t != nil && types.Identical(types.Unalias(y), types.Unalias(a.Type())) {
				locals = append(locals, a)
				owner[a], objs[a] = ls.fr, true
			}
		}
	}
	sort.Slice(locals, func(i, j int) bool { return locals[i].Pos() < locals[j].Pos() })
	// variables of the loops around this one
	const outerBase = 1000
	var outer []*ssa.Phi
	for a, v := range ls.fr.vals {
		if ph, ok := a.(*ssa.Phi); ok && v.t != nil && startsAround(ls.l, ph.Block()) {
			outer = append(outer, ph)
		}
	}
	sort.Slice(outer, func(i, j int) bool {
		if a, b := outer[i].Block().Index, outer[j].Block().Index; a != b {
			return a < b
		}
		return outer[i].Name() < outer[j].Name()
	})
	var rec func(k int, pick []int)
	rec = func(k int, pick []int) {
		if k == len(cl.roles) {
			pk := append([]int{}, pick...)
			nm := cl.name()
			for _, i := range pk {
				if i < -1 {
					nm += " " + locals[-2-i].Comment
				}
				if i < 0 {
					continue
				}
				if i >= outerBase {
					nm += " outer " + outer[i-outerBase].Comment
					continue
				}
				nm += " " + ls.phis[i].Comment
			}
			add(true, nm, func(vals []Val, p *Path) (*Term, bool) {
				env := base.child()
				env.st = p.st
				env.old = e.entry
				env.lock = ls.entry.st // "atlock" doubles as the state at loop entry
				for r, i := range pk {
					if i < -1 {
						a := locals[-2-i]
						v := owner[a].vals[a]
						if objs[a] {
							env.vars[cl.roles[r].name] = SV{t: v.t, y: a.Type()}
							continue
						}
						y := deref(a.Type())
						var t *Term
						if v.loc != nil {
							t = e.loadLoc(p.st, v.loc)
						} else if v.t != nil {
							t = e.loadObj(p.st, v.t, y)
						}
						if t == nil {
							return nil, false
						}
						env.vars[cl.roles[r].name] = SV{t: t, y: y}
						continue
					}
					if i < 0 {
						rt, ry := e.ranged(ls)
						env.vars[cl.roles[r].name] = SV{t: rt, y: ry}
						continue
					}
					if i >= outerBase {
						ph := outer[i-outerBase]
						env.vars[cl.roles[r].name] = SV{t: roleInt(e.c, ph, ls.fr.vals[ph].t), y: ph.Type()}
						continue
					}
					v := vals[i]
					if v.t == nil {
						return nil, false
					}
					t := v.t
					if cl.roles[r].typ == "int" || cl.roles[r].typ == "count" {
						t = roleInt(e.c, ls.phis[i], t)
					}
					env.vars[cl.roles[r].name] = SV{t: t, y: ls.phis[i].Type()}
				}
				g, err := e.evalBool(env, cl.x)
				if err != nil {
					return nil, false
				}
				return g, true
			})
			return
		}
		if cl.roles[k].typ == "range" {
			if t, _ := e.ranged(ls); t != nil {
				rec(k+1, append(pick, -1))
			}
			return
		}
		if ot, ok := strings.CutPrefix(cl.roles[k].typ, "outer:"); ok {
			y := e.w.parseType(ot)
			for i, ph := range outer {
				_, _, isInt := intInfo(ph.Type())
				if ot == "int" && isInt || y != nil && types.Identical(types.Unalias(y), types.Unalias(ph.Type())) {
					rec(k+1, append(pick, outerBase+i))
				}
			}
			return
		}
		for i, a := range locals {
			y := cl.roles[k].y
			switch {
			case y != nil || cl.roles[k].typ == "int":
			case cl.roles[k].typ == "intcell":
				y = types.Typ[types.Int]
			default:
				y = e.w.parseType(cl.roles[k].typ)
			}
			if y != nil && (!objs[a] && types.Identical(types.Unalias(y), types.Unalias(deref(a.Type()))) || objs[a] && types.Identical(types.Unalias(y), types.Unalias(a.Type()))) {
				rec(k+1, append(pick, -2-i))
			}
		}
		for i, ph := range ls.phis {
			used := false
			for _, j := range pick {
				if j == i {
					used = true
				}
			}
			if used || ls.init[i].t == nil {
				continue
			}
			rt := cl.roles[k].typ
			ok := false
			if y := cl.roles[k].y; y != nil {
				if types.Identical(types.Unalias(y), types.Unalias(ph.Type())) {
					rec(k+1, append(pick, i))
				}
				continue
			}
			switch rt {
			case "intcell":
			case "int":
				_, _, isInt := intInfo(ph.Type())
				ok = isInt
			default:
				y := e.w.parseType(rt)
				ok = y != nil && types.Identical(y, ph.Type())
			}
			if ok {
				rec(k+1, append(pick, i))
			}
		}
	}
	rec(0, nil)
}

// startsAround tells whether a block starts a loop that has loop l in it.
func startsAround(l *loopInfo, b *ssa.BasicBlock) bool {
	for o := l.parent; o != nil; o = o.parent {
		if o.header == b {
			return true
		}
	}
	return false
}

// ranged finds the slice whose length bounds the loop.
func (e *Engine) ranged(ls *loopSite) (*Term, types.Type) {
	for _, ph := range ls.phis {
		_, y := headerCmp(ls, ph)
		call, ok := y.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			continue
		}
		x := call.Call.Args[0]
		if _, ok := under(x.Type()).(*types.Slice); !ok {
			continue
		}
		if t := e.loopInvariantVal(ls, x); t != nil {
			return t, x.Type()
		}
	}
	return nil, nil
}

// headerBound finds the value an integer phi is compared with in the loop header.
func (e *Engine) headerBound(ls *loopSite, ph *ssa.Phi) (token.Token, *Term) {
	op, y := headerCmp(ls, ph)
	if y == nil {
		return 0, nil
	}
	return op, e.loopInvariantVal(ls, y)
}

func headerCmp(ls *loopSite, ph *ssa.Phi) (token.Token, ssa.Value) {
	last := ls.l.header.Instrs[len(ls.l.header.Instrs)-1]
	hif, ok := last.(*ssa.If)
	if !ok {
		return 0, nil
	}
	bo, ok := hif.Cond.(*ssa.BinOp)
	if !ok {
		return 0, nil
	}
	isPhi := func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ph {
			return true
		}
		return false
	}
	var y ssa.Value
	switch {
	case isPhi(bo.X):
		y = bo.Y
	case isPhi(bo.Y):
		y = bo.X
	default:
		return 0, nil
	}
	return bo.Op, y
}

// loopInvariantVal evaluates a value that does not change in the loop.
func (e *Engine) loopInvariantVal(ls *loopSite, y ssa.Value) *Term {
	if k, ok := y.(*ssa.Const); ok {
		return e.constVal(k).t
	}
	if in, ok := y.(ssa.Instruction); ok && ls.l.blocks[in.Block()] {
		if call, ok := y.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				x := e.loopInvariantVal(ls, call.Call.Args[0])
				if x == nil {
					return nil
				}
				switch x.sort {
				case "Slice":
					return e.c.Sel("slen", x)
				case "Str":
					return e.strLen(x)
				}
			}
			return nil
		}
		if u, ok := y.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				x := e.loopInvariantVal(ls, fa.X)
				if x == nil || x.sort != "Int" {
					return nil
				}
				return e.loadField(ls.entry.st, x, deref(fa.X.Type()), fa.Field)
			}
		}
		return nil
	}
	v := e.val(ls.fr, ls.entry, y)
	return v.t
}

// deriveInvs turns a postcondition into candidate loop invariants: results become loop
// variables of their type and the upper bound of a range quantifier becomes the number
// of elements processed.
func deriveInvs(cl *Clause, sig *types.Signature) []*Clause {
	var out []*Clause
	var conjs func(x *Expr) []*Expr
	conjs = func(x *Expr) []*Expr {
		if x.op == "bin" && x.name == "&&" {
			return append(conjs(x.args[0]), conjs(x.args[1])...)
		}
		if x.op == "bin" && x.name == "==>" {
			// both with and without the antecedent
			var r []*Expr
			for _, y := range conjs(x.args[1]) {
				r = append(r, y)
				r = append(r, &Expr{op: "bin", name: "==>", args: []*Expr{x.args[0], y}})
			}
			return r
		}
		return []*Expr{x}
	}
	n := 0
	for _, x := range conjs(cl.x) {
		var bounds func(x *Expr) []*Expr
		bounds = func(x *Expr) []*Expr {
			switch {
			case x.op == "forall" && x.typ == "":
				i := &Expr{op: "id", name: "$i"}
				return []*Expr{x, {op: "forall", name: x.name, args: []*Expr{x.args[0], i, x.args[2]}}, {op: "forall", name: x.name, args: []*Expr{i, x.args[1], x.args[2]}}}
			case x.op == "bin" && x.name == "==>":
				var r []*Expr
				for _, y := range bounds(x.args[1]) {
					r = append(r, &Expr{op: "bin", name: "==>", args: []*Expr{x.args[0], y}})
				}
				return r
			}
			return []*Expr{x}
		}
		for _, b := range bounds(x) {
			used := map[string]bool{}
			idents(b, used)
			c := &Clause{src: cl.src, x: b, file: cl.file, line: cl.line, label: fmt.Sprintf("%s#%d", cl.label, n)}
			n++
			if used["$i"] {
				c.roles = append(c.roles, role{name: "$i", typ: "int"})
			}
			for i := 0; i < sig.Results().Len(); i++ {
				nm := fmt.Sprintf("ret%d", i)
				if used[nm] {
					c.roles = append(c.roles, role{name: nm, y: sig.Results().At(i).Type()})
				}
				if i == 0 && used["ret"] {
					c.roles = append(c.roles, role{name: "ret", y: sig.Results().At(0).Type()})
				}
			}
			out = append(out, c)
		}
	}
	return out
}

func idents(x *Expr, m map[string]bool) {
	if x == nil {
		return
	}
	if x.op == "id" {
		m[x.name] = true
	}
	for _, a := range x.args {
		idents(a, m)
	}
}

// searchCand says that the condition under which an iteration continues held in all
// earlier iterations.
type searchCand struct {
	i    int
	at   *Term // value of the index in the sample iteration
	init *Term
	down bool
	cond *Term
}

func (e *Engine) searchCands(fr *Frame, r *region, entry *Path, phis []*ssa.Phi, init []Val, mark int) []searchCand {
	c := e.c
	if len(r.back) == 0 || len(r.exits) == 0 {
		return nil
	}
	var conds []*Term
	for _, ed := range r.back {
		conds = append(conds, ed.p.reach)
	}
	whole := c.Or(conds...)
	pre := map[*Term]bool{}
	for _, x := range conj(entry.reach) {
		pre[x] = true
	}
	var out []searchCand
	for i, ph := range phis {
		at, in := fr.vals[ph].t, init[i].t
		if at == nil || in == nil || at.sort != "Int" || isRefType(ph.Type()) || len(at.args) > 0 {
			continue
		}
		step := int64(0)
		for _, ed := range ph.Edges {
			if b, ok := ed.(*ssa.BinOp); ok && b.X == ph {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
					switch {
					case b.Op == token.ADD && k.Int64() == 1, b.Op == token.SUB && k.Int64() == -1:
						step = 1
					case b.Op == token.SUB && k.Int64() == 1, b.Op == token.ADD && k.Int64() == -1:
						step = -1
					}
				}
			}
		}
		if step == 0 {
			continue
		}
		var keep []*Term
		for _, x := range conj(whole) {
			if pre[x] || !c.contains(x, func(t *Term) bool { return t == at }) {
				continue
			}
			if c.contains(x, func(t *Term) bool {
				return len(t.args) == 0 && t.id >= mark && t != at && !strings.HasPrefix(t.op, "c:H0.") && t.ival == nil && t.sval == nil && !t.bound
			}) {
				continue
			}
			if !c.contains(x, func(t *Term) bool {
				return (t.op == "select" || strings.HasPrefix(t.op, "f:")) && c.contains(t, func(y *Term) bool { return y == at })
			}) {
				continue // bounds on the index are found by the other candidates
			}
			keep = append(keep, x)
		}
		if len(keep) == 0 {
			continue
		}
		out = append(out, searchCand{i: i, at: at, init: in, down: step < 0, cond: c.And(keep...)})
	}
	return out
}
