package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/folbricht/routedns"

func inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modulePath)
		}
		if f.Origin() != nil && f.Origin() != f && f.Origin().Pkg != nil {
			return strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), modulePath)
		}
	}
	return false
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

// call executes a call instruction and returns its results.
func (e *Engine) call(fr *Frame, p *Path, in ssa.Instruction, cc *ssa.CallCommon, pos token.Pos) []Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, p, b, cc, pos)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(fr, p, a))
	}
	if cc.IsInvoke() {
		return e.invoke(fr, p, e.term(fr, p, cc.Value), cc.Value.Type(), cc.Method, args, pos)
	}
	return e.callValue(fr, p, e.val(fr, p, cc.Value), cc, args, pos)
}

func (e *Engine) callValue(fr *Frame, p *Path, f Val, cc *ssa.CallCommon, args []Val, pos token.Pos) []Val {
	if f.clo == nil && f.t != nil {
		if c := e.w.closureOf(e, f.t); c != nil {
			f.clo = c
		}
	}
	if f.clo != nil {
		return e.callFn(fr, p, f.clo.fn, args, f.clo.bind, pos)
	}
	sig := cc.Signature()
	// a function value reached through a field or package variable
	if f.orig != "" {
		k := f.orig
		if i := strings.LastIndex(k, "/"); i >= 0 {
			k = k[i+1:]
		}
		if ct := e.w.contracts[k]; ct != nil && ct.kind == "field" {
			e.usedCt[k] = true
			if f.t != nil {
				e.safety(p, "call of nil function", pos, e.c.Ne(f.t, e.c.Zero))
			}
			e.oncallCheck(p, k, args, nil, sig, pos)
			return e.applyContract(p, ct, k, nil, sig, args, pos)
		}
	}
	if f.t != nil {
		e.safety(p, "call of nil function", pos, e.c.Ne(f.t, e.c.Zero))
	}
	e.note("call of unknown function value %s", f.orig)
	return e.havocResults(p, sig, "fn value "+f.orig)
}

// methodKey names an interface method for contract lookup.
func (e *Engine) ifaceContract(it types.Type, m *types.Func) (*Contract, string) {
	k := typeName(it) + "." + m.Name()
	if ct := e.w.contracts[k]; ct != nil && ct.kind == "iface" {
		return ct, k
	}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		k2 := typeName(r.Type()) + "." + m.Name()
		if ct := e.w.contracts[k2]; ct != nil && ct.kind == "iface" {
			return ct, k2
		}
	}
	return nil, k
}

func (e *Engine) invoke(fr *Frame, p *Path, recv *Term, it types.Type, m *types.Func, args []Val, pos token.Pos) []Val {
	c := e.c
	e.safety(p, "method call on nil interface ("+m.Name()+")", pos, c.Ne(c.Sel("itag", recv), c.Zero))
	sig := m.Type().(*types.Signature)
	if m.Name() == "Header" && typeName(it) == "dns.RR" {
		return []Val{{t: c.Sel("ipl", recv)}}
	}
	ct, key := e.ifaceContract(it, m)
	all := append([]Val{{t: recv}}, args...)
	if tg := c.Sel("itag", recv); tg.ival != nil && tg.ival.Sign() > 0 && (ct == nil || !ct.trace) {
		t := e.tagTypes[tg.ival.Int64()-1]
		if fn := e.w.prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil && (inRepo(fn) || e.w.inlineOK[fnKey(fn)] || e.w.contracts[fnKey(fn)] != nil) {
			as := append([]Val{{t: e.unboxed(p.st, recv, t)}}, args...)
			return e.callFn(fr, p, fn, as, nil, pos)
		}
	}
	if e.oncallCheck(p, key, all, nil, sigWithRecv(it, sig), pos) && p.reach == c.False {
		return e.undefResults(sig)
	}
	if ct != nil {
		e.usedCt[key] = true
		return e.applyContract(p, ct, key, nil, sigWithRecv(it, sig), all, pos)
	}
	// enumerable small interface: not modelled
	e.trusted["interface method "+key+": result unconstrained, no effect on modelled state"] = true
	return e.havocResults(p, sig, key)
}

func sigWithRecv(it types.Type, sig *types.Signature) *types.Signature {
	var ps []*types.Var
	ps = append(ps, types.NewParam(0, nil, "recv", it))
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), false)
}

func fnSig(fn *ssa.Function) *types.Signature {
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		var ps []*types.Var
		ps = append(ps, r)
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), false)
	}
	return sig
}

func (e *Engine) callFn(fr *Frame, p *Path, fn *ssa.Function, args, bind []Val, pos token.Pos) []Val {
	key := fnKey(fn)
	if rs, ok := e.special(fr, p, key, fn, args, pos); ok {
		return rs
	}
	e.oncallCheck(p, key, args, nil, fnSig(fn), pos)
	ct := e.w.contracts[key]
	if ct != nil && ct.kind == "func" && e.root != nil && hasStr(e.root.expand, key) {
		if ct.trace {
			ct = &Contract{kind: ct.kind, key: ct.key, trace: true}
		} else {
			ct = nil
		}
	}
	if ct != nil && ct.kind == "func" && !ct.modular {
		if !ct.trace {
			ct = nil
		}
	}
	if ct != nil && ct.modular {
		e.usedCt[key] = true
		return e.applyContract(p, ct, key, fn, fnSig(fn), args, pos)
	}
	rec := 0
	for _, s := range e.stack {
		if s == fn {
			rec++
		}
	}
	canInline := fn.Blocks != nil && (inRepo(fn) || fn.Parent() != nil || e.w.inlineOK[key] || (fn.Synthetic != "" && fn.Origin() == nil && !e.isExternalWrapper(fn)))
	if canInline && (rec > 0 || len(e.stack) > maxDepth) {
		e.note("recursive or deeply nested call of %s not followed", key)
		canInline = false
		if inRepo(fn) {
			e.havocAll(p, key)
			return e.havocResults(p, fn.Signature, key)
		}
	}
	if canInline {
		e.inlined[key] = true
		rs := e.execFn(fn, args, bind, p, fr)
		if ct != nil && ct.trace && p.reach != e.c.False {
			e.record(p, key, fnSig(fn), args, rs)
		}
		return rs
	}
	return e.external(p, key, fn, args, pos)
}

func (e *Engine) isExternalWrapper(fn *ssa.Function) bool {
	// wrappers of dependency methods are transparent: follow them
	return false
}

// havocAll forgets everything about the heap (used when a repository function cannot be followed).
func (e *Engine) havocAll(p *Path, why string) {
	e.newEpoch()
	for h := range e.heapSort {
		if h[0] == 'G' || h[0] == 'L' || h[0] == 'R' {
			continue
		}
		p.st.h[h] = e.c.Fresh("hv."+h, e.heapSort[h])
		e.noteWrite(h, nil)
	}
}

func (e *Engine) havocResults(p *Path, sig *types.Signature, key string) []Val {
	e.newEpoch()
	var out []Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, Val{t: e.freshVal("r."+shortKey(key), rs.At(i).Type())})
	}
	return out
}

func shortKey(k string) string {
	if len(k) > 24 {
		k = k[len(k)-24:]
	}
	return k
}

// external models a dependency function without a contract.
func (e *Engine) external(p *Path, key string, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	c := e.c
	sig := fn.Signature
	path := pkgPathOf(fn)
	if e.w.pureUF[key] || e.w.pureUF[path] {
		e.trusted["dependency "+key+": function of its arguments only"] = true
		sg := fnSig(fn)
		return e.ufResults(p.st, key, sg, args)
	}
	rs := e.havocResults(p, sig, key)
	n := len(rs)
	if n >= 2 && typeName(sig.Results().At(n-1).Type()) == "error" {
		ok := c.Eq(c.Sel("itag", rs[n-1].t), c.Zero)
		for i := 0; i < n-1; i++ {
			switch under(sig.Results().At(i).Type()).(type) {
			case *types.Pointer, *types.Map:
				e.assume(p, c.Imp(ok, c.Ne(rs[i].t, c.Zero)))
			case *types.Interface:
				e.assume(p, c.Imp(ok, c.Ne(c.Sel("itag", rs[i].t), c.Zero)))
			}
		}
	}
	if n == 1 && (fn.Name() == "Errorf" && path == "fmt" || fn.Name() == "New" && path == "errors") {
		e.assume(p, c.Ne(c.Sel("itag", rs[0].t), c.Zero))
	}
	if n == 1 && hasPrefixAny(fn.Name(), "New", "Must", "Default", "With", "Background") {
		switch under(sig.Results().At(0).Type()).(type) {
		case *types.Pointer:
			e.assume(p, c.Ne(rs[0].t, c.Zero))
		case *types.Interface:
			e.assume(p, c.Ne(c.Sel("itag", rs[0].t), c.Zero))
		}
	}
	if e.w.purePkgs[path] {
		e.trusted["package "+path+": results unconstrained, no effect on modelled state"] = true
		return rs
	}
	e.trusted["dependency "+key+": result unconstrained, no effect on modelled state"] = true
	sg := fnSig(fn)
	for i := 0; i < sg.Params().Len() && i < len(args); i++ {
		if e.mutable(sg.Params().At(i).Type()) {
			e.note("dependency function %s may change its argument", key)
			break
		}
	}
	return rs
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// mutable reports whether a parameter type gives access to modelled objects.
func (e *Engine) mutable(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer:
		n := typeName(u.Elem())
		return strings.HasPrefix(n, "dns.") || strings.HasPrefix(n, "rdns.") || strings.HasPrefix(n, "dnssec.")
	case *types.Slice:
		return true
	}
	return false
}

func (e *Engine) ufResults(st *State, key string, sig *types.Signature, args []Val) []Val {
	var ts []*Term
	for i, a := range args {
		t := sig.Params().At(i).Type()
		ts = append(ts, e.ufArg(st, e.asTerm(a, t), t)...)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := e.c.UF(fmt.Sprintf("ext_%s_%d_%d", key, i, len(ts)), e.sortOf(rt), ts...)
		e.wf(r, rt)
		out = append(out, Val{t: r})
	}
	return out
}

// ufArg flattens a slice argument into its content.
func (e *Engine) ufArg(st *State, t *Term, y types.Type) []*Term {
	c := e.c
	if s, ok := under(y).(*types.Slice); ok && t.sort == "Slice" {
		n, _ := e.elemHeap(s.Elem())
		return []*Term{c.Select(e.get(st, n), c.Sel("sarr", t)), c.Sel("soff", t), c.Sel("slen", t)}
	}
	return []*Term{t}
}

// specExt evaluates a dependency function inside a specification.
func (e *Engine) specExt(env *Env, key string, vs []SV) SV {
	fn := e.w.funcs[key]
	if fn == nil {
		sfail("no function %s", key)
	}
	if !e.w.pureUF[key] && !e.w.pureUF[pkgPathOf(fn)] {
		sfail("%s is not declared pure", key)
	}
	sig := fnSig(fn)
	var args []Val
	for i, v := range vs {
		if v.t == nil {
			v.t = e.zero(sig.Params().At(i).Type())
		}
		args = append(args, Val{t: v.t})
	}
	rs := e.ufResults(env.st, key, sig, args)
	return SV{t: rs[0].t, y: sig.Results().At(0).Type()}
}

// ---- contracts at call sites -------------------------------------------------------------

func (e *Engine) bindArgs(env *Env, ct *Contract, sig *types.Signature, args []Val) {
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		pv := sig.Params().At(i)
		sv := SV{y: pv.Type(), t: args[i].t}
		if sv.t == nil {
			sv.t = e.asTerm(args[i], pv.Type())
		}
		if n := pv.Name(); n != "" && n != "_" {
			env.vars[n] = sv
		}
		if ct != nil && i < len(ct.params) {
			env.vars[ct.params[i]] = sv
		}
		env.vars[fmt.Sprintf("$%d", i)] = sv
	}
}

func (e *Engine) bindResults(env *Env, sig *types.Signature, rs []Val) {
	for i := 0; i < sig.Results().Len() && i < len(rs); i++ {
		rv := sig.Results().At(i)
		sv := SV{y: rv.Type(), t: rs[i].t}
		if sv.t == nil {
			sv.t = e.asTerm(rs[i], rv.Type())
		}
		env.vars[fmt.Sprintf("ret%d", i)] = sv
		if n := rv.Name(); n != "" && n != "_" {
			if _, ok := env.vars[n]; !ok {
				env.vars[n] = sv
			}
		}
		if sig.Results().Len() == 1 {
			env.vars["ret"] = sv
		}
	}
}

func (e *Engine) oncallCheck(p *Path, key string, args []Val, rs []Val, sig *types.Signature, pos token.Pos) bool {
	if e.root == nil || p.reach == e.c.False {
		return false
	}
	hit := false
	for _, g := range e.root.ghostCalls {
		if g.at == key {
			env := e.entryEnv.child()
			env.st, env.old, env.lock = p.st, e.entry, e.lockState
			e.ghostUpdates(p.st, env, []*GhostSet{g})
		}
	}
	for _, oc := range e.root.oncall {
		if oc.key != key {
			continue
		}
		hit = true
		env := e.entryEnv.child()
		env.st, env.old, env.lock = p.st, e.entry, e.lockState
		for i := 0; i < sig.Params().Len() && i < len(args); i++ {
			t := args[i].t
			if t == nil {
				t = e.asTerm(args[i], sig.Params().At(i).Type())
			}
			env.vars[fmt.Sprintf("$%d", i)] = SV{t: t, y: sig.Params().At(i).Type()}
		}
		g, err := e.evalBool(env, oc.cl.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", oc.cl.file, oc.cl.line, err)
			continue
		}
		if e.dry == 0 {
			e.oncallHit[oc.cl]++
		}
		e.check(p, "oncall", "at call of "+key+": "+oc.cl.name(), oc.cl.props, pos, g)
	}
	return hit
}

func (cl *Clause) name() string {
	if cl.label != "" {
		return cl.label
	}
	return cl.src
}

func (e *Engine) applyContract(p *Path, ct *Contract, key string, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos) []Val {
	env := &Env{vars: map[string]SV{}, st: p.st, old: p.st, front: e.front}
	if fn != nil && fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	}
	e.bindArgs(env, ct, sig, args)
	for _, r := range ct.requires {
		g, err := e.evalBool(env, r.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", r.file, r.line, err)
			continue
		}
		e.check(p, "requires", "precondition of "+key+": "+r.name(), r.props, pos, g)
	}
	if ct.trusted {
		e.trusted["assumed contract: "+key] = true
	}
	pre := p.st.clone()
	preFront := e.front
	if !ct.pure {
		e.newEpoch()
	}
	for _, m := range ct.modifies {
		e.applyModifies(p, env, m, ct, pos)
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if ct.pure {
			// deterministic in its arguments and the heap is not consulted
			rs = append(rs, e.ufResults(p.st, key, sig, args)[i])
			continue
		}
		rs = append(rs, Val{t: e.freshVal("r."+shortKey(key), rt)})
	}
	env2 := &Env{vars: env.vars, st: p.st, old: pre, front: preFront, pkg: env.pkg, assume: true}
	e.bindResults(env2, sig, rs)
	e.ghostUpdates(p.st, env2, ct.ghosts)
	for _, q := range append(append([]*Clause{}, ct.defines...), ct.ensures...) {
		if e.w.speaksOfLock(q.x, 0) { // about the moment the callee held its lock, says nothing to callers
			continue
		}
		g, err := e.evalBool(env2, q.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", q.file, q.line, err)
			continue
		}
		e.assume(p, g)
	}
	if ct.trace {
		e.record(p, key, sig, args, rs)
	}
	return rs
}

// applyModifies forgets the locations a contract says may change.
//
//	x.f          field f of object x
//	elems x      elements of slice x
//	map x        content of map x
//	heap NAME    a whole heap component
//	msg x        all of message x: header, sections and their elements
func (e *Engine) applyModifies(p *Path, env *Env, m string, ct *Contract, pos token.Pos) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				e.fail = fmt.Sprintf("%s: modifies %s: %s", ct.key, m, s.msg)
				return
			}
			panic(r)
		}
	}()
	f := strings.Fields(m)
	parse := func(s string) *Expr {
		x, err := parseExpr(s)
		if err != nil {
			sfail("%v", err)
		}
		return x
	}
	c := e.c
	switch {
	case m == "":
	case f[0] == "heap":
		n := strings.Join(f[1:], " ")
		e.needHeap(n)
		p.st.h[n] = c.Fresh("hv."+n, e.heapSort[n])
		e.noteWrite(n, nil)
	case f[0] == "elems":
		v := e.ev(env, parse(strings.Join(f[1:], " ")))
		el := under(v.y).(*types.Slice).Elem()
		n, s := e.elemHeap(el)
		e.frameCheck(p, c.Sel("sarr", v.t), n, pos)
		e.set(p.st, n, c.Sel("sarr", v.t), c.Fresh("hv", mustElem(s)))
	case f[0] == "map":
		v := e.ev(env, parse(strings.Join(f[1:], " ")))
		e.havocMap(p.st, under(v.y).(*types.Map), v.t)
	default:
		x := parse(m)
		if x.op != "sel" {
			sfail("field expected")
		}
		v := e.ev(env, x.args[0])
		st := deref(v.y)
		obj, path, _ := types.LookupFieldOrMethod(v.y, true, e.w.pkgOf(v.y), x.name)
		if obj == nil || len(path) == 0 {
			sfail("no field %s", x.name)
		}
		ref := v.t
		for k := 0; k < len(path)-1; k++ {
			ref = e.subRef(ref, st, path[k])
			st = under(st).(*types.Struct).Field(path[k]).Type()
		}
		i := path[len(path)-1]
		ft := under(st).(*types.Struct).Field(i).Type()
		n, _ := e.fieldHeap(st, i)
		e.frameCheck(p, ref, n, pos)
		e.storeField(p.st, ref, st, i, e.freshVal("hv."+x.name, ft))
	}
}

// needHeap makes sure a heap component named in a contract exists.
func (e *Engine) needHeap(n string) {
	if _, ok := e.heapSort[n]; ok {
		return
	}
	switch {
	case strings.HasPrefix(n, "F:"):
		if i := strings.LastIndex(n, "."); i > 0 {
			if t := e.w.parseType(n[2:i]); t != nil {
				if st, ok := under(t).(*types.Struct); ok {
					for k := 0; k < st.NumFields(); k++ {
						if st.Field(k).Name() == n[i+1:] {
							e.fieldHeap(t, k)
						}
					}
				}
			}
		}
	case strings.HasPrefix(n, "E:"):
		if t := e.w.parseType(n[2:]); t != nil {
			e.elemHeap(t)
		}
	case strings.HasPrefix(n, "MH:"), strings.HasPrefix(n, "MV:"), strings.HasPrefix(n, "ML:"):
		if ks, vs, ok := strings.Cut(n[3:], ":"); ok {
			if k, v := e.w.parseType(ks), e.w.parseType(vs); k != nil && v != nil {
				e.mapHeaps(types.NewMap(k, v))
			}
		}
	case strings.HasPrefix(n, "C:"):
		if t := e.w.parseType(n[2:]); t != nil {
			e.cellHeap(t)
		}
	case strings.HasPrefix(n, "G:tr:") && strings.HasSuffix(n, ":n"):
		e.traceHeap(n[5:len(n)-2], "n", "Int")
	case strings.HasPrefix(n, "G:m:"):
		e.ghostMap(n[4:])
	}
	if _, ok := e.heapSort[n]; !ok {
		sfail("no heap component %s", n)
	}
}

func (e *Engine) havocMap(st *State, m *types.Map, r *Term) {
	h, v, l := e.mapHeaps(m)
	c := e.c
	e.set(st, h, r, c.Fresh("mh", mustElem(e.heapSort[h])))
	e.set(st, v, r, c.Fresh("mv", mustElem(e.heapSort[v])))
	n := c.Fresh("ml", "Int")
	e.axiom(c.mk("<=", "Bool", c.Zero, n))
	e.set(st, l, r, n)
}

// ---- ghost traces ---------------------------------------------------------------------

func (e *Engine) traceHeap(key, what, sort string) string {
	n := "G:tr:" + key + ":" + what
	e.noteHeap(n, sort, nil)
	return n
}

func (e *Engine) ghostHeap(name, sort string) string {
	n := "G:v:" + name
	e.noteHeap(n, sort, nil)
	return n
}

func (e *Engine) clockRange(t *Term) {
	c := e.c
	e.trusted["the clock reads a time between 1970 and 2096"] = true
	e.axiom(c.mk("<", "Bool", c.Zero, t))
	e.axiom(c.mk("<", "Bool", t, c.Int(4000000000000000000)))
	c.setRng(t, new(big.Int), big.NewInt(4000000000000000000))
}

func (e *Engine) ghostMap(name string) string {
	n := "G:m:" + name
	e.noteHeap(n, arrSort("Int", "Int"), nil)
	return n
}

// ghostUpdates carries out the ghost updates of a contract; the expressions are read in
// the state before the call, old(), and after it.
func (e *Engine) ghostUpdates(st *State, env *Env, gs []*GhostSet) {
	c := e.c
	for _, g := range gs {
		h := e.ghostMap(g.name)
		b := c.Bound(g.v, "Int")
		ch := env.child()
		ch.vars[g.v] = SV{t: b}
		nw := c.Fresh("ghost."+g.name, arrSort("Int", "Int"))
		t, err := e.evalTerm(ch, g.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", g.file, g.line, err)
			return
		}
		sel := c.mk("select", "Int", nw, b)
		e.axiom(c.Quant("forall", []*Term{b}, c.Eq(sel, t), [][]*Term{{sel}}))
		e.setScalar(st, h, nw)
	}
}

func (e *Engine) record(p *Path, key string, sig *types.Signature, args, rs []Val) {
	c := e.c
	nh := e.traceHeap(key, "n", "Int")
	n := e.get(p.st, nh)
	put := func(pre string, i int, t types.Type, v Val) {
		s := e.sortOf(t)
		h := e.traceHeap(key, fmt.Sprintf("%s%d", pre, i), arrSort("Int", s))
		e.noteWrite(h, nil)
		p.st.h[h] = c.Store(e.get(p.st, h), n, e.asTerm(v, t))
	}
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		put("a", i, sig.Params().At(i).Type(), args[i])
	}
	for i := 0; i < sig.Results().Len() && i < len(rs); i++ {
		put("r", i, sig.Results().At(i).Type(), rs[i])
	}
	e.setScalar(p.st, nh, c.Add(n, c.One))
	if e.cutDepth > 0 {
		if e.loopCalls == nil {
			e.loopCalls = map[string]bool{}
		}
		e.loopCalls[key] = true
		return
	}
	e.callSnaps = append(e.callSnaps, callSnap{key, p.reach, p.st.clone(), e.front, nil})
}

func (e *Engine) traceSig(key string) *types.Signature {
	if fn := e.w.funcs[key]; fn != nil {
		return fnSig(fn)
	}
	if _, k, ok := strings.Cut(key, ":"); ok {
		if i := strings.LastIndex(k, "."); i > 0 {
			if t := e.w.parseType(k[:i]); t != nil {
				if st, ok := under(t).(*types.Struct); ok {
					if n := fieldIndex(st, k[i+1:]); n >= 0 {
						if _, ok := under(st.Field(n).Type()).(*types.Chan); ok {
							return chanFieldSig(types.NewPointer(t), st.Field(n).Type())
						}
					}
				}
			}
		}
		return nil
	}
	if i := strings.LastIndex(key, "."); i > 0 {
		if t := e.w.parseType(key[:i]); t != nil {
			if it, ok := under(t).(*types.Interface); ok {
				for k := 0; k < it.NumMethods(); k++ {
					if it.Method(k).Name() == key[i+1:] {
						return sigWithRecv(t, it.Method(k).Type().(*types.Signature))
					}
				}
			}
			if st, ok := under(t).(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if sig, ok := under(st.Field(k).Type()).(*types.Signature); ok && st.Field(k).Name() == key[i+1:] {
						return sig
					}
				}
			}
		}
	}
	return nil
}

func (e *Engine) traceVal(env *Env, key, what string, k *Term, i int) SV {
	sig := e.traceSig(key)
	if sig == nil {
		sfail("no traced function %s", key)
	}
	tup := sig.Params()
	if what == "res" {
		tup = sig.Results()
	}
	if i >= tup.Len() {
		sfail("trace index")
	}
	t := tup.At(i).Type()
	h := e.traceHeap(key, fmt.Sprintf("%s%d", what[:1], i), arrSort("Int", e.sortOf(t)))
	v := e.c.Select(e.get(env.st, h), k)
	e.wf(v, t)
	return SV{t: v, y: t}
}

// ---- builtins ---------------------------------------------------------------------------

func (e *Engine) builtin(fr *Frame, p *Path, b *ssa.Builtin, cc *ssa.CallCommon, pos token.Pos) []Val {
	c := e.c
	arg := func(i int) *Term { return e.term(fr, p, cc.Args[i]) }
	one := func(t *Term) []Val { return []Val{{t: t}} }
	switch b.Name() {
	case "len":
		x := arg(0)
		switch u := under(cc.Args[0].Type()).(type) {
		case *types.Slice:
			return one(c.Sel("slen", x))
		case *types.Map:
			e.protectedMap(fr, p, cc.Args[0], pos, false)
			return one(e.mapLen(p.st, u, x))
		case *types.Basic:
			return one(e.strLen(x))
		case *types.Array:
			return one(c.Int(u.Len()))
		case *types.Pointer:
			return one(c.Int(under(u.Elem()).(*types.Array).Len()))
		default:
			v := e.freshVal("len", types.Typ[types.Int])
			e.assume(p, c.Le(c.Zero, v))
			return one(v)
		}
	case "cap":
		if _, ok := under(cc.Args[0].Type()).(*types.Slice); ok {
			return one(c.Sel("scap", arg(0)))
		}
		v := e.freshVal("cap", types.Typ[types.Int])
		e.assume(p, c.Le(c.Zero, v))
		return one(v)
	case "append":
		s := arg(0)
		if len(cc.Args) < 2 {
			return one(s)
		}
		el := under(cc.Args[0].Type()).(*types.Slice).Elem()
		_, isStr := under(cc.Args[1].Type()).(*types.Basic)
		if isStr && e.sortOf(cc.Args[1].Type()) != "Str" {
			return one(s) // append(s, nil...)
		}
		return one(e.appendSlice(p, s, arg(1), el, isStr))
	case "copy":
		el := under(cc.Args[0].Type()).(*types.Slice).Elem()
		_, isStr := under(cc.Args[1].Type()).(*types.Basic)
		return one(e.copySlice(p, arg(0), arg(1), el, isStr))
	case "delete":
		m := under(cc.Args[0].Type()).(*types.Map)
		e.protectedMap(fr, p, cc.Args[0], pos, true)
		e.mapDelete(p.st, m, arg(0), arg(1))
		return nil
	case "clear":
		switch u := under(cc.Args[0].Type()).(type) {
		case *types.Map:
			e.emptyMap(p.st, u, arg(0))
		default:
			e.note("clear of a slice")
		}
		return nil
	case "min", "max":
		r := arg(0)
		if r.sort != "Int" {
			return []Val{{t: e.freshVal("minmax", cc.Args[0].Type())}}
		}
		for i := 1; i < len(cc.Args); i++ {
			y := arg(i)
			k := c.Le(r, y)
			if b.Name() == "max" {
				k = c.Le(y, r)
			}
			r = c.Ite(k, r, y)
		}
		return one(r)
	case "recover":
		return []Val{{t: c.MkI(c.Zero, c.Zero)}}
	case "close":
		e.chanOp(fr, p, "close", cc.Args[0], nil, pos)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		x := arg(0)
		e.safety(p, "method call on nil pointer", pos, c.Ne(x, c.Zero))
		return one(x)
	}
	e.note("builtin %s", b.Name())
	var out []Val
	for i := 0; i < cc.Signature().Results().Len(); i++ {
		out = append(out, Val{t: e.freshVal("b", cc.Signature().Results().At(i).Type())})
	}
	return out
}

// ---- defers, goroutines, channels ---------------------------------------------------------

func (e *Engine) runDefers(fr *Frame, p *Path) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		// the deferred call runs if its defer statement was reached on this path
		cond := d.cond
		t := &Path{st: p.st.clone(), reach: e.c.And(p.reach, cond)}
		if t.reach == e.c.False {
			continue
		}
		f := &Path{st: p.st.clone(), reach: e.c.And(p.reach, e.c.Not(cond))}
		// path conditions of the defer and of this point overlap: if this point is only
		// reachable through the defer, there is no other branch
		if implied(e.c, p.reach, cond) {
			f.reach = e.c.False
			t.reach = p.reach
		}
		e.runDeferred(fr, t, d)
		if f.reach == e.c.False {
			p.st, p.reach = t.st, t.reach
			continue
		}
		m, _ := e.mergePaths([]*Path{t, f})
		p.st, p.reach = m.st, m.reach
	}
}

// implied reports whether every conjunct of b occurs in a.
func implied(c *Ctx, a, b *Term) bool {
	if b == c.True || a == b {
		return true
	}
	set := map[*Term]bool{}
	for _, x := range conj(a) {
		set[x] = true
	}
	for _, x := range conj(b) {
		if !set[x] {
			if x.op == "or" {
				ok := false
				for _, y := range x.args {
					if set[y] {
						ok = true
					}
				}
				if ok {
					continue
				}
			}
			return false
		}
	}
	return true
}

func (e *Engine) runDeferred(fr *Frame, p *Path, d deferred) {
	cc := &d.call.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" {
			e.mapDelete(p.st, under(cc.Args[0].Type()).(*types.Map), e.asTerm(d.args[0], cc.Args[0].Type()), e.asTerm(d.args[1], cc.Args[1].Type()))
		}
		return
	}
	if cc.IsInvoke() {
		e.invoke(fr, p, e.asTerm(d.fnv, cc.Value.Type()), cc.Value.Type(), cc.Method, d.args, d.call.Pos())
		return
	}
	e.callValue(fr, p, d.fnv, cc, d.args, d.call.Pos())
}

func (e *Engine) goStmt(fr *Frame, p *Path, in *ssa.Go) {
	// The new goroutine runs in a copy of the state; its own obligations are generated,
	// its effects on shared state are only those visible through locks and channels.
	cc := &in.Call
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(fr, p, a))
	}
	q := &Path{st: p.st.clone(), reach: p.reach}
	for h := range e.heapSort {
		if h[0] == 'L' {
			q.st.h[h] = e.c.ConstArr(e.heapSort[h], e.c.False)
		}
	}
	e.goDepth++
	ls := e.lockState
	defer func() { e.goDepth--; e.lockState = ls }()
	if e.goDepth > 2 {
		return
	}
	saved := e.writeLogs
	e.writeLogs = nil
	defer func() { e.writeLogs = saved }()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	if cc.IsInvoke() {
		e.invoke(fr, q, e.term(fr, p, cc.Value), cc.Value.Type(), cc.Method, args, in.Pos())
		return
	}
	e.callValue(fr, q, e.val(fr, p, cc.Value), cc, args, in.Pos())
}

func (e *Engine) selectStmt(fr *Frame, p *Path, in *ssa.Select) {
	c := e.c
	idx := c.Fresh("sel", "Int")
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	e.assume(p, c.And(c.Le(c.Int(lo), idx), c.Lt(idx, c.Int(int64(len(in.States))))))
	vs := []Val{{t: idx}, {t: e.freshVal("ok", types.Typ[types.Bool])}}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			el := under(s.Chan.Type()).(*types.Chan).Elem()
			chosen := c.Eq(idx, c.Int(int64(i)))
			q := &Path{st: p.st.clone(), reach: c.And(p.reach, chosen)}
			v := e.recv(fr, q, "select", s.Chan, el, vs[1].t, in.Pos())
			var hs []string
			for h := range q.st.h {
				hs = append(hs, h)
			}
			sort.Strings(hs)
			for _, h := range hs { // what others did is seen if this case is the one
				if old := e.get(p.st, h); old != q.st.h[h] {
					p.st.h[h] = c.Ite(chosen, q.st.h[h], old)
				}
			}
			e.received(fr, p, s.Chan, chosen)
			vs = append(vs, Val{t: v})
		} else {
			e.sent(fr, p, s.Chan, e.val(fr, p, s.Send), in.Pos())
		}
	}
	fr.vals[in] = Val{tup: vs}
}

// received notes in the ghost map of that name, if contracts declare one, that a receive
// from a channel has gone through; channels read from structure fields have contracts.
func (e *Engine) received(fr *Frame, p *Path, ch ssa.Value, cond *Term) {
	if fa, _ := chanField(ch); fa != nil || !e.w.ghostMaps["received"] {
		return
	}
	h := e.ghostMap("received")
	r := e.term(fr, p, ch)
	old := e.c.mk("select", "Int", e.get(p.st, h), r)
	e.set(p.st, h, r, e.c.Ite(cond, e.c.One, old))
}

// recv is the value a receive yields: the zero value once the channel is closed.
func (e *Engine) recv(fr *Frame, p *Path, op string, ch ssa.Value, el types.Type, ok *Term, pos token.Pos) *Term {
	v := e.chanOp(fr, p, op, ch, nil, pos)
	if v == nil {
		return e.freshVal("recv", el)
	}
	if _, k := chanField(ch); e.w.contracts[k].open {
		return v
	}
	return e.c.Ite(ok, v, e.zero(el))
}

// sent checks that a value sent on a channel is what its contract promises to receivers.
func (e *Engine) sent(fr *Frame, p *Path, ch ssa.Value, x Val, pos token.Pos) {
	fa, k := chanField(ch)
	ct := e.w.contracts[k]
	if fa == nil || ct == nil || ct.kind != "field" || p.reach == e.c.False {
		return
	}
	e.usedCt[k] = true
	sig := chanSig(fa)
	env := &Env{vars: map[string]SV{}, st: p.st, old: p.st, front: e.front, pkg: e.w.pkgOf(deref(fa.X.Type()))}
	e.bindArgs(env, ct, sig, []Val{{t: e.term(fr, p, ch)}, {t: e.term(fr, p, fa.X)}})
	e.bindResults(env, sig, []Val{x})
	for _, q := range ct.ensures {
		g, err := e.evalBool(env, q.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", q.file, q.line, err)
			continue
		}
		e.check(p, "requires", "value sent on "+k+": "+q.name(), q.props, pos, g)
	}
}

// chanField names the structure field a channel is read from.
func chanField(ch ssa.Value) (*ssa.FieldAddr, string) {
	u, ok := ch.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, ""
	}
	t := deref(fa.X.Type())
	return fa, typeName(t) + "." + under(t).(*types.Struct).Field(fa.Field).Name()
}

// chanOp applies the contract of the field a channel is read from: while a receive blocks,
// other goroutines may change what the contract's modifies clause lists.
// The result is the value received.
func (e *Engine) chanOp(fr *Frame, p *Path, op string, ch ssa.Value, v *Term, pos token.Pos) *Term {
	fa, k := chanField(ch)
	if fa == nil {
		return nil
	}
	ct := e.w.contracts[k]
	if ct == nil || ct.kind != "field" {
		return nil
	}
	e.usedCt[k] = true
	sig := chanSig(fa)
	args := []Val{{t: e.term(fr, p, ch)}, {t: e.term(fr, p, fa.X)}}
	e.oncallCheck(p, op+":"+k, args, nil, sig, pos)
	if op == "close" && ct.open {
		e.check(p, "requires", "never closed: "+k, nil, pos, e.c.False)
	}
	if op == "recv" || op == "select" {
		v = e.applyContract(p, ct, k, nil, sig, args, pos)[0].t
	}
	if ct.trace && op != "select" {
		var rs []Val
		if v != nil {
			rs = []Val{{t: v}}
		}
		e.record(p, op+":"+k, sig, args, rs)
	}
	return v
}

func chanSig(fa *ssa.FieldAddr) *types.Signature {
	st := under(deref(fa.X.Type())).(*types.Struct)
	return chanFieldSig(fa.X.Type(), st.Field(fa.Field).Type())
}

func chanFieldSig(owner, ch types.Type) *types.Signature {
	v := func(n string, t types.Type) *types.Var { return types.NewVar(token.NoPos, nil, n, t) }
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(v("ch", ch), v("owner", owner)), types.NewTuple(v("", under(ch).(*types.Chan).Elem())), false)
}

func (e *Engine) mapGetHook(p *Path, m *types.Map, ref, k, v, has *Term) {}

// ---- monitors ---------------------------------------------------------------------------

func (e *Engine) lockHeap(typ, field string) string {
	n := "L:" + typ + "." + field
	e.noteHeap(n, arrSort("Int", "Bool"), nil)
	return n
}

func (e *Engine) lockOf(a Val) (mon *Monitor, key string, base *Term, t types.Type) {
	if a.loc == nil || a.loc.kind != 'f' || len(a.loc.path) > 0 {
		return
	}
	f := under(a.loc.t).(*types.Struct).Field(a.loc.i).Name()
	key = typeName(a.loc.t) + "." + f
	return e.w.monitors[key], key, a.loc.base, a.loc.t
}

func (e *Engine) monEnv(p *Path, base *Term, t types.Type) *Env {
	env := &Env{vars: map[string]SV{"self": {t: base, y: types.NewPointer(t)}}, st: p.st, old: p.st, front: e.front}
	env.pkg = e.w.pkgOf(t)
	return env
}

// tick lets time pass and returns the time it is then.
func (e *Engine) tick(p *Path) *Term {
	h := e.ghostHeap("now", "Int")
	t := e.c.Fresh("now", "Int")
	e.clockRange(t)
	e.assume(p, e.c.Le(e.get(p.st, h), t))
	e.setScalar(p.st, h, t)
	return t
}

func (e *Engine) lock(p *Path, a Val, pos token.Pos, read bool) {
	mon, key, base, t := e.lockOf(a)
	if base == nil {
		return
	}
	i := strings.LastIndex(key, ".")
	h := e.lockHeap(key[:i], key[i+1:])
	cur := e.c.Select(e.get(p.st, h), base)
	e.assume(p, e.c.Not(cur)) // a second Lock would block forever
	e.set(p.st, h, base, e.c.True)
	if mon == nil {
		return
	}
	if e.root != nil && hasStr(e.root.writer, key) {
		// the only writer of the fields finds what it left there
		e.lockState = p.st.clone()
		return
	}
	e.newEpoch() // others may have allocated what they put there
	e.tick(p)    // and time passes while waiting
	st := under(t).(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		for _, f := range mon.fields {
			if st.Field(k).Name() != f {
				continue
			}
			v := e.freshVal("lk."+f, st.Field(k).Type())
			e.storeField(p.st, base, t, k, v)
			if m, ok := under(st.Field(k).Type()).(*types.Map); ok {
				e.havocMap(p.st, m, v)
			}
		}
	}
	for _, f := range mon.fields {
		// a field of an embedded structure
		if strings.Contains(f, ":") || !strings.Contains(f, ".") {
			continue
		}
		b, tt := base, t
		parts := strings.Split(f, ".")
		for n, name := range parts {
			st := under(tt).(*types.Struct)
			k := fieldIndex(st, name)
			if k < 0 {
				e.fail = "monitor of " + key + ": no field " + f
				return
			}
			if n == len(parts)-1 {
				e.storeField(p.st, b, tt, k, e.freshVal("lk."+f, st.Field(k).Type()))
				break
			}
			b, tt = e.subRef(b, tt, k), st.Field(k).Type()
		}
	}
	for _, f := range mon.fields {
		// shared state behind the fields: other holders of the lock may have changed it
		if s, ok := e.heapSort[f]; ok && strings.Contains(f, ":") {
			e.setScalar(p.st, f, e.c.Fresh("lk."+f, s))
		}
	}
	for _, inv := range mon.inv {
		if g, err := e.evalBool(e.monEnv(p, base, t), inv.x); err == nil {
			e.assume(p, g)
		} else {
			e.fail = fmt.Sprintf("%s:%d: %v", inv.file, inv.line, err)
		}
	}
	e.lockState = p.st.clone()
}

func (e *Engine) unlock(p *Path, a Val, pos token.Pos) {
	mon, key, base, t := e.lockOf(a)
	if base == nil {
		return
	}
	i := strings.LastIndex(key, ".")
	h := e.lockHeap(key[:i], key[i+1:])
	e.oncallCheck(p, "unlock:"+key, nil, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), pos)
	e.check(p, "monitor", "unlock of "+key+" while held", e.monProps(mon), pos, e.c.Select(e.get(p.st, h), base))
	if mon != nil {
		for _, inv := range mon.inv {
			if g, err := e.evalBool(e.monEnv(p, base, t), inv.x); err == nil {
				e.check(p, "monitor", "lock invariant of "+key+": "+inv.name(), inv.props, pos, g)
			}
		}
	}
	e.set(p.st, h, base, e.c.False)
}

func (e *Engine) monProps(m *Monitor) []string {
	if m == nil {
		return nil
	}
	return m.props
}

// protected checks that lock-protected fields are accessed with the lock held.
func (e *Engine) protected(p *Path, l *Loc, pos token.Pos, write bool) {
	tn := typeName(l.t)
	fn := under(l.t).(*types.Struct).Field(l.i).Name()
	for _, mon := range e.w.monitors {
		i := strings.LastIndex(mon.key, ".")
		for _, f := range mon.fields {
			base := l.base
			if d := strings.LastIndex(f, "."); d >= 0 && !strings.Contains(f, ":") {
				if f[d+1:] != fn || strings.Contains(f[:d], ".") || base.op != "f:sub_"+mon.key[:i]+"."+f[:d] {
					continue
				}
				base = base.args[0]
			} else if mon.key[:i] != tn || f != fn {
				continue
			}
			if inf, ok := e.c.refInfo(l.base); ok && !inf.maybeNil && (Pos{0, 0}).le(inf.lo) {
				return // object allocated by this call, not shared yet
			}
			if !write && e.root != nil && hasStr(e.root.writer, mon.key) {
				return
			}
			h := e.lockHeap(mon.key[:i], mon.key[i+1:])
			e.check(p, "monitor", "access to "+tn+"."+fn+" with "+mon.key+" held", mon.props, pos, e.c.Select(e.get(p.st, h), base))
		}
	}
}

func (e *Engine) protectedMap(fr *Frame, p *Path, m ssa.Value, pos token.Pos, write bool) {}

// frameCheck emits the obligation that a write stays inside objects this call created.
func (e *Engine) frameCheck(p *Path, ref *Term, heap string, pos token.Pos) {
	if e.root == nil || !e.root.frame || e.frameOff || p.reach == e.c.False {
		return
	}
	h := heap
	if strings.HasPrefix(h, "obj:") {
		h = "F:" + h[4:]
	}
	if !(strings.HasPrefix(h, "F:dns.") || strings.HasPrefix(h, "E:dns.") || h == "E:uint8") {
		return
	}
	c := e.c
	if inf, ok := c.refInfo(ref); ok && !inf.maybeNil && (Pos{0, 0}).le(inf.lo) {
		return
	}
	e.check(p, "frame", "write to "+strings.TrimPrefix(heap, "obj:")+" outside objects created by this call", []string{"Z01"}, pos,
		c.mk("<=", "Bool", e.posTerm(Pos{0, 0}), e.rootRef(ref)))
}

// rootRef follows sub-object references to the containing object.
func (e *Engine) rootRef(r *Term) *Term {
	for strings.HasPrefix(r.op, "f:sub_") && !strings.HasSuffix(r.op, "_inv") && len(r.args) == 1 {
		r = r.args[0]
	}
	return r
}

// ---- special functions --------------------------------------------------------------------

func (e *Engine) special(fr *Frame, p *Path, key string, fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool) {
	c := e.c
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.lock(p, args[0], pos, false)
		return nil, true
	case "(*sync.RWMutex).RLock":
		e.lock(p, args[0], pos, true)
		return nil, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		e.unlock(p, args[0], pos)
		return nil, true
	case "(*sync.Once).Do":
		// the function may or may not run now
		k := c.Fresh("once", "Bool")
		t := &Path{st: p.st.clone(), reach: c.And(p.reach, k)}
		f := &Path{st: p.st.clone(), reach: c.And(p.reach, c.Not(k))}
		if args[1].clo != nil {
			e.callFn(fr, t, args[1].clo.fn, nil, args[1].clo.bind, pos)
		}
		if t.reach == c.False {
			p.st, p.reach = f.st, f.reach
			return nil, true
		}
		m, _ := e.mergePaths([]*Path{t, f})
		p.st, p.reach = m.st, m.reach
		return nil, true
	case "os.Exit", "log.Fatal", "runtime.Goexit":
		p.reach = c.False
		return nil, true
	case "(time.Time).IsZero":
		return []Val{{t: c.Eq(args[0].t, c.Zero)}}, true
	case "(time.Time).Before":
		return []Val{{t: c.Lt(args[0].t, args[1].t)}}, true
	case "(time.Time).After":
		return []Val{{t: c.Lt(args[1].t, args[0].t)}}, true
	case "(time.Time).Equal":
		return []Val{{t: c.Eq(args[0].t, args[1].t)}}, true
	case "(time.Time).Sub":
		r := c.Sub(args[0].t, args[1].t)
		return []Val{{t: r}}, true
	case "(time.Time).Add":
		return []Val{{t: c.Add(args[0].t, args[1].t)}}, true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round":
		return []Val{{t: args[0].t}}, true
	case "time.Now":
		return []Val{{t: e.tick(p)}}, true
	case "(time.Time).UnixNano":
		// a time is modelled by its Unix nanoseconds, the zero time by 0
		e.trusted["times are Unix nanoseconds; the zero time stands for 0"] = true
		return []Val{{t: e.convInt(args[0].t, types.Typ[types.Uint64], types.Typ[types.Int64])}}, true
	case "(time.Time).Unix":
		return []Val{{t: c.Div(args[0].t, c.Int(1000000000))}}, true
	case "time.Unix":
		return []Val{{t: c.Add(c.Mul(args[0].t, c.Int(1000000000)), args[1].t)}}, true
	case "time.Since":
		h := e.ghostHeap("now", "Int")
		t := c.Fresh("now", "Int")
		e.clockRange(t)
		e.assume(p, c.Le(e.get(p.st, h), t))
		e.setScalar(p.st, h, t)
		return []Val{{t: c.Sub(t, args[0].t)}}, true
	case "time.Until":
		h := e.ghostHeap("now", "Int")
		t := c.Fresh("now", "Int")
		e.clockRange(t)
		e.assume(p, c.Le(e.get(p.st, h), t))
		e.setScalar(p.st, h, t)
		return []Val{{t: c.Sub(args[0].t, t)}}, true
	case "(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Hours":
		r := c.UF("ext_"+key, "Real", args[0].t)
		return []Val{{t: r}}, true
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Strings", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		e.note("%s permutes its argument", key)
		// content of the slice becomes arbitrary
		if len(args) > 0 && args[0].t != nil && args[0].t.sort == "Slice" {
			if sl, ok := under(fnSig(fn).Params().At(0).Type()).(*types.Slice); ok {
				n, s := e.elemHeap(sl.Elem())
				e.set(p.st, n, c.Sel("sarr", args[0].t), c.Fresh("sorted", mustElem(s)))
			}
		}
		return e.havocResults(p, fn.Signature, key), true
	}
	if strings.HasPrefix(key, "(*sync/atomic.") || strings.HasPrefix(key, "(*atomic.") || strings.HasPrefix(key, "(*sync.") || strings.HasPrefix(key, "sync/atomic.") || strings.HasPrefix(key, "atomic.") {
		e.trusted["sync primitives other than locks: results unconstrained"] = true
		return e.havocResults(p, fn.Signature, key), true
	}
	return nil, false
}

// speaksOfLock tells whether an expression refers to the state when a lock was taken.
func (w *World) speaksOfLock(x *Expr, depth int) bool {
	if x == nil || depth > 40 {
		return false
	}
	if x.op == "id" && x.name == "atlock" {
		return true
	}
	if d := w.defs[x.name]; d != nil && x.op == "id" && w.speaksOfLock(d.body, depth+1) {
		return true
	}
	for _, a := range x.args {
		if w.speaksOfLock(a, depth+1) {
			return true
		}
	}
	return false
}
