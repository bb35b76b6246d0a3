package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic heap at one program point.
type State struct{ h map[string]*Term }

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h))}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

// Val is the value of an SSA register.
type Val struct {
	t     *Term
	loc   *Loc
	tup   []Val
	clo   *Closure
	orig  string // field or global a function value was loaded from
	iter  *mapIter
	undef bool
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type mapIter struct {
	m    *types.Map
	ref  *Term
	name string
	str  bool
	has0 *Term
}

// Path is a point of the symbolic execution.
type Path struct {
	st    *State
	reach *Term
}

func (p *Path) dead(c *Ctx) bool { return p.reach == c.False }

// Obl is one proof obligation.
type Obl struct {
	name      string
	kind      string // ensures, requires, oncall, safety, inv-entry, inv-step, monitor, frame, lemma
	props     []string
	pos       token.Pos
	nfacts    int
	naxioms   int
	reach     *Term
	goal      *Term
	cand      *Cand
	imprecise string
	fn        string
	status    string // proved, refuted, unknown
	solver    string
	ms        int64
	model     string
	watch     []watch
}

type watch struct {
	name string
	t    *Term
}

// Cand is a candidate loop invariant.
type Cand struct {
	name   string
	b      *Term // activation literal
	active bool
	user   bool
}

type writeLog struct{ m map[string][]*Term }

// Engine verifies one function.
type Engine struct {
	c          *Ctx
	w          *World
	sortMemo   map[types.Type]string
	structs    map[string]*DT
	tags       map[string]int
	tagTypes   []types.Type
	heapSort   map[string]string
	heapType   map[string]types.Type
	subSeen    map[*Term]bool
	wfSeen     map[wfKey]bool
	strIDs     map[string]int
	axioms     []*Term
	axSeen     map[*Term]bool
	facts      []*Term
	obls       []*Obl
	cands      []*Cand
	front      Pos
	logs       int
	writeLogs  []*writeLog
	strReps    []strRep
	notes      map[string]bool // abstractions made: what was not modelled
	trusted    map[string]bool // assumed contracts used
	inlined    map[string]bool
	usedCt     map[string]bool
	root       *Contract
	rootFr     *Frame
	entry      *State
	entryEnv   *Env
	safetyOn   bool
	depth      int
	dry        int
	globals    map[*ssa.Global]*Term
	loopN      int
	stack      []*ssa.Function
	params     []Val
	nfn        int
	goDepth    int
	mapIters   map[string]*mapIter
	iters      int
	fail       string
	oncallHit  map[*Clause]int
	frameOff   bool
	exitStates []*Path
	lockState  *State
	callSnaps  []callSnap      // heap right after each traced call, in program order
	loopCalls  map[string]bool // traced functions called inside a loop that was cut
	cutDepth   int
	watches    []watch
}

func newEngine(w *World) *Engine {
	e := &Engine{c: newCtx(), w: w, sortMemo: map[types.Type]string{}, structs: map[string]*DT{}, tags: map[string]int{},
		heapSort: map[string]string{}, heapType: map[string]types.Type{}, subSeen: map[*Term]bool{}, wfSeen: map[wfKey]bool{}, strIDs: map[string]int{},
		axSeen: map[*Term]bool{}, notes: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, usedCt: map[string]bool{}, globals: map[*ssa.Global]*Term{}, oncallHit: map[*Clause]int{}}
	named := map[*Term]*Term{}
	e.c.nameOf = func(t *Term) *Term {
		if k, ok := named[t]; ok {
			return k
		}
		k := e.c.Fresh("nm", t.sort)
		named[t] = k
		e.axiom(e.c.mk("=", "Bool", k, t))
		return k
	}
	e.newEpoch()
	return e
}

func (e *Engine) axiom(t *Term) {
	if t == e.c.True || e.axSeen[t] {
		return
	}
	e.axSeen[t] = true
	e.axioms = append(e.axioms, t)
}

func (e *Engine) assume(p *Path, t *Term) {
	f := e.c.Imp(p.reach, t)
	if f != e.c.True {
		e.facts = append(e.facts, f)
	}
}

func (e *Engine) note(format string, a ...any) { e.notes[fmt.Sprintf(format, a...)] = true }

func (e *Engine) impreciseNow() string {
	if len(e.notes) == 0 {
		return ""
	}
	var s []string
	for k := range e.notes {
		s = append(s, k)
	}
	sort.Strings(s)
	if len(s) > 3 {
		s = append(s[:3], "…")
	}
	return fmt.Sprint(s)
}

// check emits an obligation and then assumes it.
func (e *Engine) check(p *Path, kind, name string, props []string, pos token.Pos, goal *Term) {
	if goal == e.c.True || p.reach == e.c.False {
		if kind != "safety" {
			e.obls = append(e.obls, &Obl{name: name, kind: kind, props: props, pos: pos, nfacts: len(e.facts), naxioms: len(e.axioms), reach: p.reach, goal: e.c.True, fn: e.curName()})
		}
		return
	}
	if kind != "safety" || e.safetyOn {
		e.obls = append(e.obls, &Obl{name: name, kind: kind, props: props, pos: pos, nfacts: len(e.facts), naxioms: len(e.axioms), reach: p.reach, goal: goal, imprecise: e.impreciseNow(), fn: e.curName()})
	}
	e.assume(p, goal)
}

func (e *Engine) curName() string {
	if len(e.stack) > 0 {
		return e.stack[len(e.stack)-1].String()
	}
	return ""
}

func (e *Engine) safety(p *Path, what string, pos token.Pos, goal *Term) {
	if goal == e.c.True {
		return
	}
	if p.reach == e.c.False {
		return
	}
	e.check(p, "safety", what, []string{"Z02"}, pos, goal)
}

// ---- frames ------------------------------------------------------------------------

type deferred struct {
	cond *Term
	call *ssa.Defer
	args []Val
	fnv  Val
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	bind   []Val
	defers []deferred
	loops  *loopForest
	ret    []retEdge
	parent *Frame
	allocs map[*ssa.Alloc]*Term
}

type retEdge struct {
	pos  token.Pos
	p    *Path
	vals []Val
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

// appends tells whether a loop grows some slice.
func appends(l *loopInfo) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Builtin); ok && f.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

type loopForest struct {
	inner map[*ssa.BasicBlock]*loopInfo
	heads map[*ssa.BasicBlock]*loopInfo
	rpo   []*ssa.BasicBlock
	bad   bool
}

func findLoops(fn *ssa.Function) *loopForest {
	lf := &loopForest{inner: map[*ssa.BasicBlock]*loopInfo{}, heads: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		lf.rpo = append(lf.rpo, post[i])
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range lf.rpo {
		idx[b] = i
	}
	for _, b := range lf.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := lf.heads[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.heads[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if seen[p] && !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			} else if idx[s] <= idx[b] {
				lf.bad = true
			}
		}
	}
	for _, b := range lf.rpo {
		var best *loopInfo
		for _, l := range lf.heads {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		lf.inner[b] = best
	}
	for _, l := range lf.heads {
		var best *loopInfo
		for _, m := range lf.heads {
			if m != l && m.blocks[l.header] && (best == nil || len(m.blocks) < len(best.blocks)) {
				best = m
			}
		}
		l.parent = best
	}
	return lf
}

type edge struct {
	from, to *ssa.BasicBlock
	p        *Path
	phis     []Val
	snap     map[ssa.Value]Val
}

type region struct {
	loop     *loopInfo
	incoming map[*ssa.BasicBlock][]*edge
	back     []*edge
	exits    []*edge
	snapVals []ssa.Value
}

func (e *Engine) emit(fr *Frame, r *region, ed *edge) {
	if ed.p.reach == e.c.False {
		return
	}
	if r.loop != nil && ed.to == r.loop.header {
		r.back = append(r.back, ed)
		return
	}
	if r.loop != nil && !r.loop.blocks[ed.to] {
		if len(r.snapVals) > 0 {
			if ed.snap == nil {
				ed.snap = map[ssa.Value]Val{}
			}
			for _, v := range r.snapVals {
				if x, ok := fr.vals[v]; ok {
					ed.snap[v] = x
				}
			}
		}
		r.exits = append(r.exits, ed)
		return
	}
	r.incoming[ed.to] = append(r.incoming[ed.to], ed)
}

func predIndex(to, from *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("predIndex")
}

func (e *Engine) mkEdge(fr *Frame, from, to *ssa.BasicBlock, p *Path) *edge {
	ed := &edge{from: from, to: to, p: p}
	k := predIndex(to, from)
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed.phis = append(ed.phis, e.val(fr, p, ph.Edges[k]))
	}
	return ed
}

// mergePaths joins several paths; conds are residual selectors for ite chains.
func (e *Engine) mergePaths(ps []*Path) (*Path, []*Term) {
	c := e.c
	if len(ps) == 1 {
		return &Path{st: ps[0].st.clone(), reach: ps[0].reach}, []*Term{c.True}
	}
	var rs []*Term
	for _, p := range ps {
		rs = append(rs, p.reach)
	}
	// residual conditions: strip common conjuncts
	cnt := map[*Term]int{}
	for _, r := range rs {
		for _, x := range conj(r) {
			cnt[x]++
		}
	}
	var com []*Term
	for x, n := range cnt {
		if n == len(rs) {
			com = append(com, x)
		}
	}
	var sel []*Term
	for _, r := range rs {
		sel = append(sel, c.strip(r, com))
	}
	names := map[string]bool{}
	for _, p := range ps {
		for k := range p.st.h {
			names[k] = true
		}
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := &State{h: map[string]*Term{}}
	for _, k := range ks {
		v := e.get(ps[len(ps)-1].st, k)
		for i := len(ps) - 2; i >= 0; i-- {
			v = c.Ite(sel[i], e.get(ps[i].st, k), v)
		}
		out.h[k] = v
	}
	return &Path{st: out, reach: c.Or(rs...)}, sel
}

func (e *Engine) mergeVals(sel []*Term, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if vs[0].tup != nil {
		n := len(vs[0].tup)
		out := Val{tup: make([]Val, n)}
		for i := 0; i < n; i++ {
			var xs []Val
			for _, v := range vs {
				if v.tup == nil {
					return Val{undef: true}
				}
				xs = append(xs, v.tup[i])
			}
			out.tup[i] = e.mergeVals(sel, xs)
		}
		return out
	}
	allT := true
	for _, v := range vs {
		if v.t == nil {
			allT = false
		}
	}
	if allT {
		r := vs[len(vs)-1].t
		for i := len(vs) - 2; i >= 0; i-- {
			if vs[i].t.sort != r.sort {
				return Val{undef: true}
			}
			r = e.c.Ite(sel[i], vs[i].t, r)
		}
		o := Val{t: r}
		if vs[0].orig != "" {
			o.orig = vs[0].orig
			for _, v := range vs {
				if v.orig != o.orig {
					o.orig = ""
				}
			}
		}
		return o
	}
	// locations of the same shape
	l0 := vs[0].loc
	if l0 != nil && len(l0.path) == 0 {
		ok := true
		for _, v := range vs {
			if v.loc == nil || v.loc.kind != l0.kind || len(v.loc.path) > 0 || !types.Identical(v.loc.t, l0.t) || v.loc.i != l0.i {
				ok = false
			}
		}
		if ok {
			n := *vs[len(vs)-1].loc
			for i := len(vs) - 2; i >= 0; i-- {
				n.base = e.c.Ite(sel[i], vs[i].loc.base, n.base)
				if n.idx != nil {
					n.idx = e.c.Ite(sel[i], vs[i].loc.idx, n.idx)
				}
			}
			return Val{loc: &n}
		}
	}
	e.note("merge of different locations or function values")
	return Val{undef: true}
}

func sameVal(a, b Val) bool {
	if a.t != b.t || a.loc != b.loc || a.clo != b.clo || a.iter != b.iter || len(a.tup) != len(b.tup) {
		return false
	}
	for i := range a.tup {
		if !sameVal(a.tup[i], b.tup[i]) {
			return false
		}
	}
	return true
}

// ---- running functions -------------------------------------------------------------

const maxDepth = 14

// execFn runs fn symbolically; p is updated to the state after the call.
func (e *Engine) execFn(fn *ssa.Function, args, bind []Val, p *Path, parent *Frame) []Val {
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, bind: bind, parent: parent, allocs: map[*ssa.Alloc]*Term{}}
	if parent == nil {
		e.rootFr = fr
	}
	for i, pa := range fn.Params {
		fr.vals[pa] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.vals[fv] = bind[i]
	}
	fr.loops = findLoops(fn)
	if fr.loops.bad {
		e.note("irreducible control flow in %s", fn.Name())
	}
	r := &region{incoming: map[*ssa.BasicBlock][]*edge{}}
	r.incoming[fn.Blocks[0]] = []*edge{{to: fn.Blocks[0], p: &Path{st: p.st.clone(), reach: p.reach}}}
	e.runRegion(fr, r)
	if len(fr.ret) == 0 {
		p.reach = e.c.False
		return e.undefResults(fn.Signature)
	}
	var ps []*Path
	for _, re := range fr.ret {
		ps = append(ps, re.p)
	}
	m, sel := e.mergePaths(ps)
	if parent == nil {
		e.exitStates = ps
	}
	p.st, p.reach = m.st, m.reach
	var out []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		var vs []Val
		for _, re := range fr.ret {
			vs = append(vs, re.vals[i])
		}
		out = append(out, e.mergeVals(sel, vs))
	}
	return out
}

func (e *Engine) undefResults(sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, Val{t: e.freshVal("undef", sig.Results().At(i).Type())})
	}
	return out
}

func (e *Engine) runRegion(fr *Frame, r *region) {
	for _, b := range fr.loops.rpo {
		if r.loop != nil && !r.loop.blocks[b] {
			continue
		}
		in := fr.loops.inner[b]
		if in != r.loop {
			// part of a nested loop; run it at its header if its parent is this region
			if in != nil && in.header == b && in.parent == r.loop {
				if eds := r.incoming[b]; len(eds) > 0 {
					e.runLoop(fr, r, in, eds)
				}
			}
			continue
		}
		eds := r.incoming[b]
		if len(eds) == 0 {
			continue
		}
		p, sel := e.mergeEdges(eds)
		e.setPhis(fr, b, eds, sel)
		e.runBlock(fr, r, b, p)
	}
}

func (e *Engine) mergeEdges(eds []*edge) (*Path, []*Term) {
	var ps []*Path
	for _, ed := range eds {
		ps = append(ps, ed.p)
	}
	return e.mergePaths(ps)
}

func (e *Engine) setPhis(fr *Frame, b *ssa.BasicBlock, eds []*edge, sel []*Term) {
	k := 0
	var vals []Val
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		var vs []Val
		for _, ed := range eds {
			vs = append(vs, ed.phis[k])
		}
		vals = append(vals, e.mergeVals(sel, vs))
		k++
	}
	for i := range vals {
		fr.vals[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

// runBlock executes the non-phi instructions of a block.
func (e *Engine) runBlock(fr *Frame, r *region, b *ssa.BasicBlock, p *Path) {
	for _, in := range b.Instrs {
		if p.reach == e.c.False {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			k := e.term(fr, p, in.Cond)
			if p.reach != e.c.False {
				t := &Path{st: p.st, reach: e.c.And(p.reach, k)}
				f := &Path{st: p.st.clone(), reach: e.c.And(p.reach, e.c.Not(k))}
				if t.reach != e.c.False {
					e.emit(fr, r, e.mkEdge(fr, b, b.Succs[0], t))
				}
				if f.reach != e.c.False {
					ed := e.mkEdge(fr, b, b.Succs[1], f)
					if b.Succs[0] == b.Succs[1] {
						// both edges to the same block: second predecessor slot
						n := 0
						for i, q := range b.Succs[1].Preds {
							if q == b {
								n++
								if n == 2 {
									ed.phis = nil
									for _, x := range b.Succs[1].Instrs {
										ph, ok := x.(*ssa.Phi)
										if !ok {
											break
										}
										ed.phis = append(ed.phis, e.val(fr, f, ph.Edges[i]))
									}
								}
							}
						}
					}
					e.emit(fr, r, ed)
				}
			}
			return
		case *ssa.Jump:
			e.emit(fr, r, e.mkEdge(fr, b, b.Succs[0], p))
			return
		case *ssa.Return:
			var vs []Val
			for _, x := range in.Results {
				vs = append(vs, e.val(fr, p, x))
			}
			fr.ret = append(fr.ret, retEdge{p: p, vals: vs, pos: in.Pos()})
			return
		case *ssa.Panic:
			if fr.parent == nil || true {
				e.safety(p, "explicit panic", in.Pos(), e.c.False)
			}
			return
		default:
			e.instr(fr, p, in)
		}
	}
}

// ---- loops ---------------------------------------------------------------------------

type snapshot struct {
	facts, obls, cands, calls int
}

// callSnap is the heap right after one call of a traced function.
type callSnap struct {
	key   string
	reach *Term
	st    *State
	front Pos
	limit *Term
}

func (e *Engine) snap() snapshot {
	return snapshot{len(e.facts), len(e.obls), len(e.cands), len(e.callSnaps)}
}
func (e *Engine) rollback(s snapshot) {
	e.callSnaps = e.callSnaps[:s.calls]
	e.facts, e.obls, e.cands = e.facts[:s.facts], e.obls[:s.obls], e.cands[:s.cands]
}

func (e *Engine) runLoop(fr *Frame, outer *region, l *loopInfo, eds []*edge) {
	entry, sel := e.mergeEdges(eds)
	phis := headerPhis(l.header)
	var init []Val
	for k := range phis {
		var vs []Val
		for _, ed := range eds {
			vs = append(vs, ed.phis[k])
		}
		init = append(init, e.mergeVals(sel, vs))
	}
	if e.tryUnroll(fr, outer, l, entry, phis, init) {
		return
	}
	e.cutLoop(fr, outer, l, entry, phis, init)
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// liveOut lists values defined in the loop and used outside it.
func liveOut(l *loopInfo) []ssa.Value {
	var out []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

const maxUnroll = 160

func (e *Engine) tryUnroll(fr *Frame, outer *region, l *loopInfo, entry *Path, phis []*ssa.Phi, init []Val) bool {
	hif, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// quick feasibility: condition must be computable from the header
	s := e.snap()
	retSnap := len(fr.ret)
	defSnap := len(fr.defers)
	lo := liveOut(l)
	var exits []*edge
	p := &Path{st: entry.st.clone(), reach: entry.reach}
	vals := init
	for it := 0; it < maxUnroll; it++ {
		for i, ph := range phis {
			fr.vals[ph] = vals[i]
		}
		r := &region{loop: l, incoming: map[*ssa.BasicBlock][]*edge{}, snapVals: lo}
		// run the header
		hp := &Path{st: p.st, reach: p.reach}
		e.runBlock(fr, r, l.header, hp)
		k, have := fr.vals[hif.Cond]
		if !have {
			if cst, isC := hif.Cond.(*ssa.Const); isC {
				k = Val{t: e.c.Bool(constant.BoolVal(cst.Value))}
			}
		}
		if k.t == nil || !isLit(e.c, k.t) {
			e.rollback(s)
			fr.ret = fr.ret[:retSnap]
			fr.defers = fr.defers[:defSnap]
			return false
		}
		// rest of the body
		for _, b := range fr.loops.rpo {
			if !l.blocks[b] || b == l.header {
				continue
			}
			in := fr.loops.inner[b]
			if in != l {
				if in != nil && in.header == b && in.parent == l {
					if x := r.incoming[b]; len(x) > 0 {
						e.runLoop(fr, r, in, x)
					}
				}
				continue
			}
			x := r.incoming[b]
			if len(x) == 0 {
				continue
			}
			bp, sel := e.mergeEdges(x)
			e.setPhis(fr, b, x, sel)
			e.runBlock(fr, r, b, bp)
		}
		exits = append(exits, r.exits...)
		if len(r.back) == 0 {
			if len(exits) > 0 {
				e.finishUnroll(fr, outer, lo, exits)
			}
			return true
		}
		np, sel := e.mergeEdges(r.back)
		var nv []Val
		for i := range phis {
			var vs []Val
			for _, ed := range r.back {
				vs = append(vs, ed.phis[i])
			}
			nv = append(nv, e.mergeVals(sel, vs))
		}
		p, vals = np, nv
	}
	e.rollback(s)
	fr.ret = fr.ret[:retSnap]
	fr.defers = fr.defers[:defSnap]
	return false
}

func (e *Engine) finishUnroll(fr *Frame, outer *region, lo []ssa.Value, exits []*edge) {
	if len(exits) > 1 && len(lo) > 0 {
		var ps []*Path
		for _, ed := range exits {
			ps = append(ps, ed.p)
		}
		_, sel := e.mergePaths(ps)
		for _, v := range lo {
			var vs []Val
			var ss []*Term
			for i, ed := range exits {
				if x, ok := ed.snap[v]; ok {
					vs = append(vs, x)
					ss = append(ss, sel[i])
				}
			}
			if len(vs) > 0 {
				fr.vals[v] = e.mergeVals(ss, vs)
			}
		}
	}
	for _, ed := range exits {
		e.emit(fr, outer, ed)
	}
}

func (e *Engine) cutLoop(fr *Frame, outer *region, l *loopInfo, entry *Path, phis []*ssa.Phi, init []Val) {
	c := e.c
	e.cutDepth++
	defer func() { e.cutDepth-- }()
	mark := c.n
	startFront := e.front
	// Find the modified heaps by dry runs.
	mod := map[string][]*Term{}
	var search []searchCand
	for round := 0; round < 12; round++ {
		s := e.snap()
		retSnap, defSnap := len(fr.ret), len(fr.defers)
		e.dry++
		log := &writeLog{m: map[string][]*Term{}}
		p := &Path{st: entry.st.clone(), reach: entry.reach}
		for h := range mod {
			p.st.h[h] = c.Fresh("dry."+h, e.heapSort[h])
		}
		for i, ph := range phis {
			fr.vals[ph] = e.havocPhi(ph, init[i])
		}
		saved := e.writeLogs
		e.writeLogs = append(append([]*writeLog{}, saved...), log)
		e.newEpoch()
		r := &region{loop: l, incoming: map[*ssa.BasicBlock][]*edge{}}
		e.runLoopBody(fr, r, l, p)
		search = e.searchCands(fr, r, entry, phis, init, mark)
		e.writeLogs = saved
		e.dry--
		e.rollback(s)
		fr.ret, fr.defers = fr.ret[:retSnap], fr.defers[:defSnap]
		grew := false
		for h, ws := range log.m {
			if _, ok := mod[h]; !ok {
				grew = true
			}
			mod[h] = ws
		}
		if !grew {
			break
		}
	}
	// Real run: one arbitrary iteration.
	e.newEpoch()
	p := &Path{st: entry.st.clone(), reach: entry.reach}
	var names []string
	for h := range mod {
		names = append(names, h)
	}
	sort.Strings(names)
	var fcs []string
	var cells []heapCell
	for _, h := range names {
		old := e.get(entry.st, h)
		exact, fresh := true, false
		var addrs []*Term
		seen := map[*Term]bool{}
		for _, a := range mod[h] {
			if a == nil {
				exact = false
				continue
			}
			if seen[a] {
				continue
			}
			seen[a] = true
			if inf, ok := c.refInfo(a); ok && !inf.maybeNil && startFront.le(inf.lo) {
				fresh = true
				continue
			}
			if c.contains(a, func(t *Term) bool { return len(t.args) == 0 && t.id >= mark && t.ival == nil && t.sval == nil }) {
				exact = false
				continue
			}
			addrs = append(addrs, a)
		}
		if len(addrs) > 24 {
			exact = false
		}
		if exact && !fresh {
			v := old
			_, es := arrElem(e.heapSort[h])
			for _, a := range addrs {
				x := c.Fresh("lh", es)
				if t := e.heapType[h]; t != nil && e.sortOf(t) == es {
					e.wf(x, t)
				}
				v = c.Store(v, a, x)
				if es == "Slice" && !appends(l) {
					cells = append(cells, heapCell{h, a})
				}
			}
			p.st.h[h] = v
			continue
		}
		nh := c.Fresh("L."+h, e.heapSort[h])
		p.st.h[h] = nh
		if len(e.heapSort[h]) > 6 && e.heapSort[h][:6] == "(Array" && h[0] != 'G' && h[0] != 'R' {
			rv := c.Bound("r", "Int")
			if exact {
				g := []*Term{c.mk("<=", "Bool", c.Zero, rv), c.mk("<", "Bool", rv, e.posTerm(startFront))}
				for _, a := range addrs {
					g = append(g, c.Not(c.mk("=", "Bool", rv, a)))
				}
				e.assume(entry, c.Quant("forall", []*Term{rv}, c.Imp(c.And(g...), c.Eq(c.mk("select", mustElem(nh.sort), nh, rv), c.Select(old, rv))), [][]*Term{{c.mk("select", mustElem(nh.sort), nh, rv)}}))
			} else {
				fcs = append(fcs, h)
			}
		}
	}
	for i, ph := range phis {
		fr.vals[ph] = e.havocPhi(ph, init[i])
	}
	ls := &loopSite{fr: fr, l: l, entry: entry, phis: phis, init: init, head: p, startFront: startFront, mod: names, frames: fcs, cells: cells, search: search}
	cs := e.loopCandidates(ls)
	// entry checks and guarded assumption
	for _, k := range cs {
		g0, ok0 := k.eval(init, entry)
		var cur []Val
		for _, ph := range phis {
			cur = append(cur, fr.vals[ph])
		}
		g1, ok1 := k.eval(cur, p)
		if !ok0 || !ok1 {
			continue
		}
		cd := &Cand{name: k.name, b: c.Fresh("inv", "Bool"), active: true, user: k.user}
		k.cand = cd
		e.cands = append(e.cands, cd)
		e.obls = append(e.obls, &Obl{name: "invariant on entry: " + k.name, kind: "inv-entry", nfacts: len(e.facts), naxioms: len(e.axioms), reach: entry.reach, goal: g0, cand: cd, fn: e.curName(), pos: l.header.Instrs[0].Pos()})
		e.facts = append(e.facts, c.Imp(c.And(p.reach, cd.b), g1))
	}
	r := &region{loop: l, incoming: map[*ssa.BasicBlock][]*edge{}}
	e.runLoopBody(fr, r, l, p)
	for _, ed := range r.back {
		for _, k := range cs {
			if k.cand == nil {
				continue
			}
			g, ok := k.eval(ed.phis, ed.p)
			if !ok {
				k.cand.active = false
				continue
			}
			e.obls = append(e.obls, &Obl{name: "invariant preserved: " + k.name, kind: "inv-step", nfacts: len(e.facts), naxioms: len(e.axioms), reach: ed.p.reach, goal: g, cand: k.cand, fn: e.curName(), pos: l.header.Instrs[0].Pos()})
		}
	}
	for _, ed := range r.exits {
		e.emit(fr, outer, ed)
	}
}

func mustElem(s string) string { _, el := arrElem(s); return el }

func (e *Engine) havocPhi(ph *ssa.Phi, init Val) Val {
	if init.clo != nil || init.iter != nil {
		return init
	}
	if init.loc != nil {
		e.note("loop-carried location %s", ph.Name())
		return Val{undef: true}
	}
	if init.tup != nil {
		return Val{undef: true}
	}
	return Val{t: e.freshVal("phi."+ph.Comment, ph.Type())}
}

func (e *Engine) runLoopBody(fr *Frame, r *region, l *loopInfo, p *Path) {
	e.runBlock(fr, r, l.header, &Path{st: p.st.clone(), reach: p.reach})
	for _, b := range fr.loops.rpo {
		if !l.blocks[b] || b == l.header {
			continue
		}
		in := fr.loops.inner[b]
		if in != l {
			if in != nil && in.header == b && in.parent == l {
				if x := r.incoming[b]; len(x) > 0 {
					e.runLoop(fr, r, in, x)
				}
			}
			continue
		}
		x := r.incoming[b]
		if len(x) == 0 {
			continue
		}
		bp, sel := e.mergeEdges(x)
		e.setPhis(fr, b, x, sel)
		e.runBlock(fr, r, b, bp)
	}
}

// ---- values --------------------------------------------------------------------------

func (e *Engine) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return Val{t: e.zero(t)}
	}
	switch e.sortOf(t) {
	case "Bool":
		return Val{t: e.c.Bool(constant.BoolVal(k.Value))}
	case "Int":
		v := constant.ToInt(k.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return Val{t: e.freshVal("const", t)}
		}
		return Val{t: e.c.Big(b)}
	case "Str":
		return Val{t: e.strLit(constant.StringVal(k.Value))}
	case "Real":
		return Val{t: e.c.UF("real_"+sanitize(k.Value.ExactString()), "Real")}
	}
	return Val{t: e.freshVal("const", t)}
}

func (e *Engine) strLit(s string) *Term {
	t := e.c.Str(s)
	e.axiom(e.c.mk("=", "Bool", e.c.UF("strlen", "Int", t), e.c.Int(int64(len(s)))))
	return t
}

func (e *Engine) val(fr *Frame, p *Path, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return Val{clo: &Closure{fn: v}}
	case *ssa.Global:
		return Val{t: e.globalRef(v), orig: v.String()}
	case *ssa.Builtin:
		return Val{}
	}
	x, ok := fr.vals[v]
	if !ok {
		// value not computed on this path (dead code)
		return Val{undef: true}
	}
	return x
}

func (e *Engine) globalRef(g *ssa.Global) *Term {
	if t := e.globals[g]; t != nil {
		return t
	}
	t := e.c.Int(int64(-1000 - len(e.globals)))
	e.globals[g] = t
	e.c.ref[t] = RefInfo{Pos{-3, len(e.globals)}, Pos{-3, len(e.globals) + 1}, false}
	return t
}

// term returns a register's value as an SMT term.
func (e *Engine) term(fr *Frame, p *Path, v ssa.Value) *Term {
	return e.asTerm(e.val(fr, p, v), v.Type())
}

func (e *Engine) asTerm(x Val, t types.Type) *Term {
	if x.t != nil {
		return x.t
	}
	if x.clo != nil {
		// identity of a function value
		nm := "fn_" + x.clo.fn.String()
		if len(x.clo.bind) > 0 {
			return e.c.Fresh("clo", "Int")
		}
		r := e.c.UF(nm, "Int")
		e.axiom(e.c.mk("<", "Bool", r, e.c.Zero))
		return r
	}
	if x.loc != nil {
		l := x.loc
		if len(l.path) == 0 && l.kind == 'f' {
			return e.c.UF(fmt.Sprintf("addr_%s_%d", typeName(l.t), l.i), "Int", l.base)
		}
		e.note("address of an element used as a value")
		return e.c.Fresh("addr", "Int")
	}
	if x.undef {
		e.note("value not modelled")
	}
	if t == nil {
		return e.c.Fresh("undef", "Int")
	}
	return e.freshVal("undef", t)
}
