package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug bool

type oblOut struct {
	Name      string   `json:"name"`
	Kind      string   `json:"kind"`
	Function  string   `json:"function"`
	In        string   `json:"in,omitempty"`
	Props     []string `json:"props,omitempty"`
	Pos       string   `json:"pos,omitempty"`
	Status    string   `json:"status"`
	Solver    string   `json:"solver,omitempty"`
	Ms        int64    `json:"ms,omitempty"`
	Imprecise string   `json:"imprecise,omitempty"`
	Model     string   `json:"model,omitempty"`
}

type fnOut struct {
	Key        string         `json:"key"`
	Status     string         `json:"status"` // ok, missing, error
	Error      string         `json:"error,omitempty"`
	Obls       []oblOut       `json:"obligations"`
	Invariants int            `json:"loop_invariants"`
	Notes      []string       `json:"notes,omitempty"`
	Trusted    []string       `json:"trusted,omitempty"`
	Inlined    []string       `json:"inlined,omitempty"`
	Uses       []string       `json:"uses,omitempty"`
	Modular    bool           `json:"modular,omitempty"`
	Requires   []string       `json:"requires,omitempty"`
	Skipped    int            `json:"other_properties_obligations,omitempty"`
	Vacuous    []string       `json:"vacuous,omitempty"`
	Ms         int64          `json:"ms"`
	SolverMs   int64          `json:"solver_ms"`
	Queries    int            `json:"queries"`
	ByBack     map[string]int `json:"by_backend"`
}

type report struct {
	Functions []*fnOut `json:"functions"`
	LoadMs    int64    `json:"load_ms"`
	WallMs    int64    `json:"wall_ms"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	ldir := flag.String("lemmas", "/verif/lemmas", "lemma files")
	prop := flag.String("prop", "", "property to decide (all when empty)")
	only := flag.String("func", "", "only the function with this key")
	out := flag.String("out", "", "report file")
	quick := flag.Int("quick", 1500, "incremental solver timeout in ms")
	hard := flag.Int("hard", 8000, "fallback solver timeout in ms")
	ssadump := flag.Bool("ssa", false, "print SSA of the function")
	flag.BoolVar(&debug, "debug", false, "debug output")
	verbose := flag.Bool("v", false, "list obligations")
	flag.Parse()
	t0 := time.Now()
	w, err := loadWorld(*repo, *ldir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(2)
	}
	if err := w.loadContracts(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(2)
	}
	rep := &report{LoadMs: time.Since(t0).Milliseconds()}
	if *ssadump {
		if fn := w.funcs[*only]; fn != nil {
			fn.WriteTo(os.Stdout)
		}
		return
	}
	var todo []*Contract
	for _, ct := range w.order {
		if ct.kind != "func" || ct.trusted {
			continue
		}
		if *only != "" && ct.key != *only {
			continue
		}
		if *prop != "" && !ct.hasProp(*prop) {
			continue
		}
		todo = append(todo, ct)
	}
	done := map[string]bool{}
	var mu sync.Mutex
	for len(todo) > 0 {
		var wg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		var next []*Contract
		for _, ct := range todo {
			if done[ct.key] {
				continue
			}
			done[ct.key] = true
			wg.Add(1)
			go func(ct *Contract) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				fo := verify(w, ct, *prop, *quick, *hard)
				mu.Lock()
				defer mu.Unlock()
				rep.Functions = append(rep.Functions, fo)
				for _, u := range fo.Uses {
					if c2 := w.contracts[u]; c2 != nil && c2.kind == "func" && !c2.trusted && *only == "" {
						next = append(next, c2)
					}
				}
			}(ct)
		}
		wg.Wait()
		todo = nil
		for _, ct := range next {
			if !done[ct.key] {
				todo = append(todo, ct)
			}
		}
	}
	sort.Slice(rep.Functions, func(i, j int) bool { return rep.Functions[i].Key < rep.Functions[j].Key })
	rep.WallMs = time.Since(t0).Milliseconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "govc:", err)
			os.Exit(2)
		}
	}
	bad := 0
	for _, f := range rep.Functions {
		n, ok := 0, 0
		for _, o := range f.Obls {
			n++
			if o.Status == "proved" {
				ok++
			}
		}
		fmt.Printf("%-55s %-8s %d/%d obligations, %d loop invariants, %d ms (solver %d ms)\n", f.Key, f.Status, ok, n, f.Invariants, f.Ms, f.SolverMs)
		if f.Error != "" {
			fmt.Println("   error:", f.Error)
			bad++
		}
		for _, v := range f.Vacuous {
			fmt.Println("   vacuous:", v)
		}
		if *verbose {
			for _, nn := range f.Notes {
				fmt.Println("   note:", nn)
			}
			for _, nn := range f.Inlined {
				fmt.Println("   inlined:", nn)
			}
		}
		for _, o := range f.Obls {
			if o.Status != "proved" {
				bad++
				fmt.Printf("   %s %s: %s [%s] at %s (in %s) %s\n", strings.ToUpper(o.Status), o.Kind, o.Name, strings.Join(o.Props, ","), o.Pos, o.In, o.Imprecise)
				if o.Model != "" && *verbose {
					fmt.Println("      " + strings.ReplaceAll(o.Model, "\n", "\n      "))
				}
			} else if *verbose {
				fmt.Printf("   proved %s: %s [%s] %s %dms %s\n", o.Kind, o.Name, strings.Join(o.Props, ","), o.Solver, o.Ms, o.Pos)
			}
		}
	}
	fmt.Printf("load %d ms, total %d ms, functions %d, not proved %d\n", rep.LoadMs, rep.WallMs, len(rep.Functions), bad)
}

func hasStr(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func (ct *Contract) hasProp(p string) bool {
	has := func(ps []string) bool { return hasStr(ps, p) }
	if has(ct.props) {
		return true
	}
	for _, c := range ct.ensures {
		if has(c.props) {
			return true
		}
	}
	for _, c := range ct.oncall {
		if has(c.cl.props) {
			return true
		}
	}
	for _, c := range ct.requires {
		if has(c.props) {
			return true
		}
	}
	return (ct.frame && p == "Z01") || (ct.safety && p == "Z02")
}

// verify decides one function. When obligations stay open it tries once more, with more time
// and a second opinion on the stated invariants that were given up.
func verify(w *World, ct *Contract, prop string, quickMs, hardMs int) *fnOut {
	fo := verifyOnce(w, ct, prop, quickMs, hardMs/4, false)
	if fo.Status != "ok" || fo.open() == 0 {
		return fo
	}
	fo2 := verifyOnce(w, ct, prop, 6*quickMs, hardMs, true)
	fo2.Ms += fo.Ms
	fo2.SolverMs += fo.SolverMs
	fo2.Queries += fo.Queries
	if fo2.Status != "ok" || fo2.open() > fo.open() {
		return fo
	}
	return fo2
}

func (fo *fnOut) open() int {
	n := 0
	for _, o := range fo.Obls {
		if o.Status != "proved" {
			n++
		}
	}
	return n
}

// verifyOnce generates and discharges the obligations of one function.
func verifyOnce(w *World, ct *Contract, prop string, quickMs, hardMs int, confirm bool) (fo *fnOut) {
	t0 := time.Now()
	fo = &fnOut{Key: ct.key, Status: "ok", ByBack: map[string]int{}, Modular: ct.modular}
	for _, r := range ct.requires {
		fo.Requires = append(fo.Requires, r.src)
	}
	for _, r := range ct.given {
		fo.Requires = append(fo.Requires, "(ghost) "+r.src)
	}
	fn := w.funcs[ct.key]
	if fn == nil || fn.Blocks == nil {
		fo.Status = "missing"
		return fo
	}
	e := newEngine(w)
	st := &solveStats{byBack: fo.ByBack, confirm: confirm}
	defer func() {
		if r := recover(); r != nil {
			fo.Status = "error"
			buf := make([]byte, 4000)
			n := runtime.Stack(buf, false)
			fo.Error = fmt.Sprintf("%v\n%s", r, buf[:n])
		}
		fo.Notes, fo.Trusted, fo.Inlined = sortedKeys(e.notes), sortedKeys(e.trusted), sortedKeys(e.inlined)
		fo.Uses = sortedKeys(e.usedCt)
		fo.Ms = time.Since(t0).Milliseconds()
		fo.SolverMs, fo.Queries = st.ms, st.queries
	}()
	e.generate(ct, fn)
	if e.fail != "" {
		fo.Status, fo.Error = "error", e.fail
		return fo
	}
	if prop != "" && !ct.modular {
		// obligations of other properties are decided by their own checks
		var keep []*Obl
		for _, o := range e.obls {
			props := o.props
			if len(props) == 0 {
				props = ct.props
			}
			if o.cand != nil || strings.HasPrefix(o.kind, "cover") || hasStr(props, prop) {
				keep = append(keep, o)
			} else {
				fo.Skipped++
			}
		}
		e.obls = keep
	}
	if err := e.solve(quickMs, hardMs, st); err != nil {
		fo.Status, fo.Error = "error", err.Error()
		return fo
	}
	for _, cd := range e.cands {
		if cd.active {
			fo.Invariants++
		}
	}
	for _, o := range e.obls {
		if o.cand != nil {
			continue
		}
		if o.kind == "cover-note" {
			if o.status == "proved" {
				fo.Notes = append(fo.Notes, o.name)
			}
			continue
		}
		if o.kind == "cover" {
			if o.status == "proved" {
				fo.Vacuous = append(fo.Vacuous, o.name)
			}
			continue
		}
		props := o.props
		if len(props) == 0 {
			props = ct.props
		}
		pos := ""
		if o.pos.IsValid() {
			ps := w.prog.Fset.Position(o.pos)
			pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, w.dir+"/"), ps.Line)
		}
		fo.Obls = append(fo.Obls, oblOut{Name: o.name, Kind: o.kind, Function: ct.key, In: o.fn, Props: props, Pos: pos, Status: o.status, Solver: o.solver, Ms: o.ms, Imprecise: o.imprecise, Model: o.model})
	}
	for _, oc := range ct.oncall {
		if e.oncallHit[oc.cl] == 0 {
			fo.Vacuous = append(fo.Vacuous, "no call of "+oc.key+" reached")
		}
	}
	return fo
}

// generate runs the function symbolically and collects its obligations.
func (e *Engine) generate(ct *Contract, fn *ssa.Function) {
	c := e.c
	e.root = ct
	e.safetyOn = ct.safety
	p := &Path{st: &State{h: map[string]*Term{}}, reach: c.True}
	env := &Env{vars: map[string]SV{}, st: p.st, front: Pos{0, 0}, pkg: pkgOfFn(fn)}
	var args []Val
	for i, pa := range fn.Params {
		t := e.freshVal("p."+pa.Name(), pa.Type())
		args = append(args, Val{t: t})
		if i == 0 && fn.Signature.Recv() != nil && isRefType(pa.Type()) {
			e.axiom(c.mk("<", "Bool", c.Zero, t))
			inf := c.ref[t]
			inf.maybeNil = false
			c.ref[t] = inf
		}
		e.watch(p.st, pa.Name(), t, pa.Type(), 0)
	}
	sig := fnSig(fn)
	e.bindArgs(env, ct, sig, args)
	// free variables of a closure
	var bind []Val
	for _, fv := range fn.FreeVars {
		t := e.freshVal("fv."+fv.Name(), fv.Type())
		if isRefType(fv.Type()) {
			e.axiom(c.mk("<", "Bool", c.Zero, t))
			inf := c.ref[t]
			inf.maybeNil = false
			c.ref[t] = inf
		}
		bind = append(bind, Val{t: t})
		env.vars[fv.Name()] = SV{t: t, y: fv.Type()}
	}
	e.entryEnv = env
	e.entry = p.st.clone()
	env.old = e.entry
	for _, cl := range e.w.axiomsSrc {
		if g, err := e.evalBool(&Env{vars: map[string]SV{}, st: p.st, old: p.st}, cl.x); err == nil {
			e.axiom(g)
		}
	}
	for _, r := range append(append([]*Clause{}, ct.requires...), ct.given...) {
		env.assume = false
		g, err := e.evalBool(env, r.x)
		if err != nil {
			e.fail = fmt.Sprintf("%s:%d: %v", r.file, r.line, err)
			return
		}
		e.assume(p, g)
	}
	for _, l := range ct.lockOK {
		// the function is documented to be called with this lock held
		i := strings.LastIndex(l, ".")
		h := e.lockHeap(l[:i], l[i+1:])
		p.st.h[h] = c.Store(e.get(p.st, h), args[0].t, c.True)
	}
	e.execFn(fn, args, bind, p, nil)
	rets := e.rootFr.ret
	var reach []*Term
	for _, re := range rets {
		reach = append(reach, re.p.reach)
		if len(ct.ghosts) > 0 {
			en := env.child()
			en.st, en.old, en.lock = re.p.st, e.entry, e.lockState
			e.bindResults(en, sig, re.vals)
			e.ghostUpdates(re.p.st, en, ct.ghosts)
		}
		if ct.modular && !ct.trusted {
			e.checkModifies(re, env, ct, fn)
		}
		for _, q := range ct.ensures {
			en := env.child()
			en.st, en.old, en.lock = re.p.st, e.entry, e.lockState
			e.bindResults(en, sig, re.vals)
			g, err := e.evalBool(en, q.x)
			if err != nil {
				e.fail = fmt.Sprintf("%s:%d: %v", q.file, q.line, err)
				return
			}
			pos := re.pos
			if !pos.IsValid() {
				pos = fn.Pos()
			}
			e.obls = append(e.obls, &Obl{name: "postcondition: " + q.name(), kind: "ensures", props: q.props, pos: pos, nfacts: len(e.facts), naxioms: len(e.axioms), reach: re.p.reach, goal: g, imprecise: e.impreciseNow(), fn: fn.String()})
		}
	}
	for _, re := range rets {
		if len(rets) > 1 && re.pos.IsValid() {
			ps := e.w.prog.Fset.Position(re.pos)
			e.obls = append(e.obls, &Obl{name: fmt.Sprintf("return at %s:%d is never reached", strings.TrimPrefix(ps.Filename, e.w.dir+"/"), ps.Line), kind: "cover-note", nfacts: len(e.facts), naxioms: len(e.axioms), reach: re.p.reach, goal: c.False, fn: fn.String()})
		}
	}
	if len(rets) == 0 {
		return // runs forever
	}
	e.obls = append(e.obls, &Obl{name: "no execution of " + ct.key + " satisfies its precondition and returns", kind: "cover", nfacts: len(e.facts), naxioms: len(e.axioms), reach: c.Or(reach...), goal: c.False, fn: fn.String()})
}

// checkModifies requires a function that callers see only through its contract to change
// nothing but what the contract lists.
func (e *Engine) checkModifies(re retEdge, env *Env, ct *Contract, fn *ssa.Function) {
	c := e.c
	log := &writeLog{m: map[string][]*Term{}}
	saved, off := e.writeLogs, e.frameOff
	e.writeLogs, e.frameOff = []*writeLog{log}, true
	en := env.child()
	en.st, en.old = e.entry, e.entry
	for _, m := range ct.modifies {
		e.applyModifies(&Path{st: e.entry.clone(), reach: c.True}, en, m, ct, fn.Pos())
	}
	e.writeLogs, e.frameOff = saved, off
	for _, g := range append(append([]*GhostSet{}, ct.ghosts...), ct.ghostCalls...) {
		log.m[e.ghostMap(g.name)] = []*Term{nil}
	}
	var names []string
	for n := range re.p.st.h {
		names = append(names, n)
	}
	sort.Strings(names)
	pos := re.pos
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	for _, n := range names {
		cur, ent := re.p.st.h[n], e.get(e.entry, n)
		if cur == ent || n == "G:v:now" || strings.HasPrefix(n, "R:") || (strings.HasPrefix(n, "G:tr:") && !strings.HasSuffix(n, ":n")) {
			continue
		}
		g := c.Eq(cur, ent)
		all := false
		if strings.HasPrefix(cur.sort, "(Array Int ") {
			r := c.Fresh("any", "Int")
			conds := []*Term{c.mk("<", "Bool", c.Zero, r), c.mk("<", "Bool", r, e.posTerm(Pos{0, 0}))}
			for _, a := range log.m[n] {
				if a == nil {
					all = true
					break
				}
				conds = append(conds, c.mk("not", "Bool", c.mk("=", "Bool", r, a)))
			}
			g = c.Imp(c.And(conds...), c.Eq(c.Select(cur, r), c.Select(ent, r)))
		} else if len(log.m[n]) > 0 {
			all = true
		}
		if all {
			continue
		}
		e.obls = append(e.obls, &Obl{name: "changes nothing in " + n + " beyond its modifies clause", kind: "modifies", pos: pos, nfacts: len(e.facts), naxioms: len(e.axioms), reach: re.p.reach, goal: g, imprecise: e.impreciseNow(), fn: fn.String()})
	}
}

// watch records input values to show in a counterexample.
func (e *Engine) watch(st *State, name string, t *Term, y types.Type, d int) {
	if d > 3 || len(e.watches) > 60 {
		return
	}
	switch u := under(y).(type) {
	case *types.Basic:
		if t.sort == "Int" || t.sort == "Bool" {
			e.watches = append(e.watches, watch{name, t})
		}
	case *types.Slice:
		e.watches = append(e.watches, watch{"len(" + name + ")", e.c.Sel("slen", t)})
	case *types.Struct:
		if opaqueStruct(y) != "" {
			e.watches = append(e.watches, watch{name, t})
			return
		}
		if ignoredStruct(y) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.watch(st, name+"."+u.Field(i).Name(), e.stepGet(t, step{field: i, t: y}), u.Field(i).Type(), d+1)
		}
	case *types.Pointer:
		e.watches = append(e.watches, watch{name, t})
		s, ok := under(u.Elem()).(*types.Struct)
		if !ok || opaqueStruct(u.Elem()) != "" || ignoredStruct(u.Elem()) || d > 1 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isArray(ft) || ignoredStruct(ft) {
				continue
			}
			if isStruct(ft) {
				continue
			}
			e.watch(st, name+"."+s.Field(i).Name(), e.loadField(st, t, u.Elem(), i), ft, d+1)
		}
	case *types.Interface:
		e.watches = append(e.watches, watch{"tag(" + name + ")", e.c.Sel("itag", t)})
	}
}
