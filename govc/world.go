package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program with its contracts.
type World struct {
	dir           string
	pkg           *packages.Package // root package
	pkgs          []*packages.Package
	prog          *ssa.Program
	arrElems      map[string]bool // element types of arrays held inside objects
	byName        map[string]*types.Package
	contracts     map[string]*Contract
	monitors      map[string]*Monitor
	order         []*Contract
	defs          map[string]*Def
	ufns          map[string]*UFn
	dropped       []string
	ghostMaps     map[string]bool // integer-valued ghost state indexed by references
	axiomsSrc     []*Clause
	funcs         map[string]*ssa.Function
	errStringType types.Type
	inlineOK      map[string]bool
	pureUF        map[string]bool
	purePkgs      map[string]bool
	constErrs     map[*ssa.Global]bool
	nonNil        map[*ssa.Global]bool
	mu            sync.Mutex
	clos          map[*Engine]map[*Term]*Closure
	typeInvs      map[string][]*Clause
	typeMemo      map[string]types.Type
}

type Def struct {
	params []string
	body   *Expr
}
type UFn struct{ res types.Type }

type Clause struct {
	props []string
	label string
	src   string
	x     *Expr
	roles []role
	file  string
	line  int
}

type role struct {
	name, typ string
	y         types.Type
}

// GhostSet is an update of a ghost map made when a function returns.
type GhostSet struct {
	at      string
	name, v string
	x       *Expr
	file    string
	line    int
}

type OnCall struct {
	key string
	cl  *Clause
}

type Contract struct {
	key        string
	kind       string // func, iface, ext, field
	props      []string
	requires   []*Clause
	given      []*Clause // definitions of ghost functions, assumed on entry only
	ensures    []*Clause
	defines    []*Clause // definitional, assumed by callers only
	oncall     []*OnCall
	invs       []*Clause
	modifies   []string
	expand     []string
	ghosts     []*GhostSet
	ghostCalls []*GhostSet
	trusted    bool
	modular    bool
	trace      bool
	pure       bool
	frame      bool // message frame check (Z01)
	safety     bool
	open       bool // a channel nobody closes
	noderive   bool // no loop invariants derived from postconditions
	params     []string
	fn         *ssa.Function
	file       string
	line       int
	missing    bool
	skipSafe   bool
	lockOK     []string
	writer     []string // locks whose protected fields only this function writes
	bounded    string
}

type Monitor struct {
	key    string // Type.field
	fields []string
	inv    []*Clause
	props  []string
}

func loadWorld(dir, lemmas string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, BuildFlags: []string{"-tags="}, Overlay: map[string][]byte{}}
	// lemmas: functions that only call repository functions, so that a contract can relate
	// several of them. They are added to the package when it is loaded, never to /repo.
	fs, _ := filepath.Glob(filepath.Join(lemmas, "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sub := ""
		if strings.HasPrefix(filepath.Base(f), "dnssec_") {
			sub = "dnssec"
		}
		cfg.Overlay[filepath.Join(dir, sub, "zz_verif_lemma_"+filepath.Base(f))] = b
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var dropped []string
	for _, p := range pk {
		for _, e := range p.Errors {
			for f := range cfg.Overlay {
				if strings.HasPrefix(e.Pos, f+":") {
					dropped = append(dropped, fmt.Sprintf("lemma file not usable on this tree: %v", e))
					delete(cfg.Overlay, f)
				}
			}
		}
	}
	if len(dropped) > 0 {
		if pk, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
	}
	w := &World{dropped: dropped, dir: dir, pkgs: pk, byName: map[string]*types.Package{}, contracts: map[string]*Contract{}, monitors: map[string]*Monitor{}, defs: map[string]*Def{}, ufns: map[string]*UFn{}, ghostMaps: map[string]bool{}, funcs: map[string]*ssa.Function{},
		inlineOK: map[string]bool{}, pureUF: map[string]bool{}, purePkgs: map[string]bool{}, constErrs: map[*ssa.Global]bool{}, nonNil: map[*ssa.Global]bool{}, clos: map[*Engine]map[*Term]*Closure{}, typeInvs: map[string][]*Clause{}, typeMemo: map[string]types.Type{}}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("repository does not type-check: %v", e)
		}
	}
	prog, spkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	for _, p := range pk {
		if p.Types.Name() == "rdns" {
			w.pkg = p
		}
	}
	if w.pkg == nil {
		return nil, fmt.Errorf("package rdns not found")
	}
	// packages by name, preferring direct imports of the repository
	for _, p := range pk {
		w.byName[p.Types.Name()] = p.Types
	}
	for _, p := range pk {
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t := p.Imports[k].Types
			if t != nil && w.byName[t.Name()] == nil {
				w.byName[t.Name()] = t
			}
		}
	}
	for _, n := range []string{"errors", "net", "strings", "time", "sync", "io", "os"} {
		if w.byName[n] == nil {
			for _, p := range prog.AllPackages() {
				if p.Pkg.Path() == n {
					w.byName[n] = p.Pkg
				}
			}
		}
	}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		if o := ep.Pkg.Scope().Lookup("errorString"); o != nil {
			w.errStringType = types.NewPointer(o.Type())
		}
	}
	for _, n := range []string{"dns", "slices", "strings", "errors", "net", "binary"} {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Name() == n {
				p.Build()
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		w.addFunc(f)
	}
	w.scanGlobals()
	w.embeddedArray(types.Typ[types.Int])
	return w, nil
}

// embeddedArray reports whether some struct of the program holds an array of this element
// type, in which case a slice may refer to the inside of an object (a negative reference).
func (w *World) embeddedArray(elem types.Type) bool {
	if w.arrElems == nil {
		w.arrElems = map[string]bool{}
		seen := map[types.Type]bool{}
		var visit func(t types.Type, inside bool)
		visit = func(t types.Type, inside bool) {
			switch u := types.Unalias(t).Underlying().(type) {
			case *types.Struct:
				if seen[t] {
					return
				}
				seen[t] = true
				for i := 0; i < u.NumFields(); i++ {
					visit(u.Field(i).Type(), true)
				}
			case *types.Array:
				if inside {
					w.arrElems[types.TypeString(types.Unalias(u.Elem()), nil)] = true
				}
				visit(u.Elem(), true)
			}
		}
		for _, p := range w.prog.AllPackages() {
			for _, m := range p.Members {
				switch m := m.(type) {
				case *ssa.Type:
					visit(m.Type(), false)
				case *ssa.Global:
					visit(deref(m.Type()), true)
				}
			}
		}
	}
	switch types.Unalias(elem).Underlying().(type) {
	case *types.Basic, *types.TypeParam:
		return true
	}
	return w.arrElems[types.TypeString(types.Unalias(elem), nil)]
}

func (w *World) addFunc(f *ssa.Function) {
	k := fnKey(f)
	if old := w.funcs[k]; old == nil || (old.Synthetic != "" && f.Synthetic == "") {
		w.funcs[k] = f
	}
}

var pathRe = regexp.MustCompile(`[A-Za-z0-9_.\-~]+(/[A-Za-z0-9_.\-~]+)+`)

// fnKey is the contract key of a function: package paths shortened to package names.
func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	s := f.RelString(nil)
	if f.Pkg != nil || f.Object() != nil {
		var pk *types.Package
		if f.Pkg != nil {
			pk = f.Pkg.Pkg
		} else {
			pk = f.Object().Pkg()
		}
		if pk != nil {
			s = strings.ReplaceAll(s, pk.Path()+".", pk.Name()+".")
		}
	}
	s = pathRe.ReplaceAllStringFunc(s, func(m string) string {
		i := strings.LastIndex(m, "/")
		return m[i+1:]
	})
	if i := strings.Index(s, "["); i >= 0 {
		d := 0
		var b strings.Builder
		for _, r := range s {
			if r == '[' {
				d++
			}
			if d == 0 {
				b.WriteRune(r)
			}
			if r == ']' {
				d--
			}
		}
		s = b.String()
	}
	return s
}

func (w *World) scanGlobals() {
	// Package variables assigned exactly once, in an initialiser, with errors.New or
	// fmt.Errorf hold a distinct non-nil error; with new/make/composite a non-nil pointer.
	stores := map[*ssa.Global][]ssa.Value{}
	inInit := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(w.prog) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s.Val)
						if f.Name() == "init" {
							inInit[g] = true
						}
					}
				}
			}
		}
	}
	for g, vs := range stores {
		if len(vs) != 1 || !inInit[g] {
			continue
		}
		v := vs[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil {
				switch fnKey(f) {
				case "errors.New", "fmt.Errorf":
					w.constErrs[g] = true
				}
				if _, ok := under(deref(g.Type())).(*types.Pointer); ok {
					w.nonNil[g] = true
				}
			}
		}
		if _, ok := v.(*ssa.Alloc); ok {
			w.nonNil[g] = true
		}
	}
}

func (w *World) constErr(g *ssa.Global) bool     { return w.constErrs[g] }
func (w *World) nonNilGlobal(g *ssa.Global) bool { return w.nonNil[g] }

func (w *World) noteClosure(e *Engine, t *Term, c *Closure) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.clos[e] == nil {
		w.clos[e] = map[*Term]*Closure{}
	}
	w.clos[e][t] = c
}
func (w *World) closureOf(e *Engine, t *Term) *Closure {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.clos[e][t]
}

func (w *World) pkgByName(n string) *types.Package { return w.byName[n] }

func (w *World) pkgOf(t types.Type) *types.Package {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return w.pkg.Types
}

func (w *World) global(v *types.Var) *ssa.Global {
	if v.Pkg() == nil {
		return nil
	}
	p := w.prog.Package(v.Pkg())
	if p == nil {
		return nil
	}
	g, _ := p.Members[v.Name()].(*ssa.Global)
	return g
}

func (w *World) typeOf(pkg, name string) types.Type {
	p := w.byName[pkg]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// parseType resolves a type written in a specification.
func (w *World) parseType(s string) types.Type {
	s = strings.TrimSpace(s)
	w.mu.Lock()
	if t, ok := w.typeMemo[s]; ok {
		w.mu.Unlock()
		return t
	}
	w.mu.Unlock()
	t := w.parseType1(s)
	w.mu.Lock()
	defer w.mu.Unlock()
	if old, ok := w.typeMemo[s]; ok {
		return old
	}
	w.typeMemo[s] = t
	return t
}

func (w *World) parseType1(s string) types.Type {
	switch {
	case s == "ref":
		return nil
	case strings.HasPrefix(s, "*"):
		if t := w.parseType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := w.parseType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if s == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if i := strings.Index(s, "."); i >= 0 {
		return w.typeOf(s[:i], s[i+1:])
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if o := w.pkg.Types.Scope().Lookup(s); o != nil {
		return o.Type()
	}
	for _, p := range w.pkgs {
		if o := p.Types.Scope().Lookup(s); o != nil {
			if _, ok := o.(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// ---- contract files -------------------------------------------------------------------

// The format, one item per line (a line ending in "\" continues):
//
//	def name(a,b) = expr
//	ufn name Type                     uninterpreted specification function
//	inline key...                     functions executed in place from their source
//	uf key...                         dependency functions treated as pure functions of their arguments
//	purepkg path...                   packages whose functions have no modelled effect
//	monitor Type.mutex protects f,g   lock-protected fields
//	  inv[props] expr                 (over self)
//	func|iface|ext|field key [flags]
//	  requires expr
//	  ensures[props] label: expr
//	  oncall[props] key label: expr   ($recv,$1,...) condition at each such call
//	  inv ($i int,$s []T) expr        candidate loop invariant
//	  modifies item, ...
func (w *World) loadContracts(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gv"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := w.loadContractFile(f); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	return nil
}

var clauseRe = regexp.MustCompile(`^(requires|given|ensures|defines|oncall|inv|axiom)(\[[^\]]*\])?\s+(.*)$`)
var labelRe = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9_\-]*):\s+(.*)$`)

func (w *World) loadContractFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var cur *Contract
	var mon *Monitor
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		s := lines[i]
		if k := strings.Index(s, "//"); k >= 0 {
			s = s[:k]
		}
		for strings.HasSuffix(strings.TrimRight(s, " \t"), "\\") && i+1 < len(lines) {
			s = strings.TrimSuffix(strings.TrimRight(s, " \t"), "\\")
			i++
			nx := lines[i]
			if k := strings.Index(nx, "//"); k >= 0 {
				nx = nx[:k]
			}
			s += " " + nx
		}
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		fl := strings.Fields(s)
		bad := func(err error) error { return fmt.Errorf("line %d: %w", ln, err) }
		switch fl[0] {
		case "def":
			r := regexp.MustCompile(`^def\s+(\w+)\s*(?:\(([^)]*)\))?\s*=\s*(.*)$`).FindStringSubmatch(s)
			if r == nil {
				return bad(fmt.Errorf("bad def"))
			}
			d := &Def{}
			for _, p := range strings.Split(r[2], ",") {
				if p = strings.TrimSpace(p); p != "" {
					d.params = append(d.params, p)
				}
			}
			x, err := parseExpr(r[3])
			if err != nil {
				return bad(err)
			}
			d.body = x
			if w.defs[r[1]] != nil || w.ufns[r[1]] != nil {
				return bad(fmt.Errorf("%s is defined twice", r[1]))
			}
			w.defs[r[1]] = d
			continue
		case "ufn":
			u := &UFn{}
			if len(fl) > 2 {
				u.res = w.parseType(fl[2])
			}
			if w.defs[fl[1]] != nil || w.ufns[fl[1]] != nil {
				return bad(fmt.Errorf("%s is defined twice", fl[1]))
			}
			w.ufns[fl[1]] = u
			continue
		case "ghostmap":
			w.ghostMaps[fl[1]] = true
			continue
		case "inline":
			for _, k := range fl[1:] {
				w.inlineOK[k] = true
			}
			continue
		case "uf":
			for _, k := range fl[1:] {
				w.pureUF[k] = true
			}
			continue
		case "purepkg":
			for _, k := range fl[1:] {
				w.purePkgs[k] = true
			}
			continue
		case "monitor":
			mon = &Monitor{key: fl[1]}
			cur = nil
			if len(fl) > 3 && fl[2] == "protects" {
				for _, x := range strings.Split(strings.Join(fl[3:], ""), ",") {
					mon.fields = append(mon.fields, x)
				}
			}
			w.monitors[fl[1]] = mon
			continue
		case "func", "iface", "ext", "field":
			r := strings.TrimSpace(strings.TrimPrefix(s, fl[0]))
			key := r
			var flags []string
			if k := strings.Index(r, "  "); k >= 0 {
				key, flags = strings.TrimSpace(r[:k]), strings.Fields(r[k:])
			}
			cur = &Contract{key: key, kind: fl[0], file: filepath.Base(f), line: ln}
			mon = nil
			if fl[0] != "func" {
				cur.trusted = true
				cur.modular = true
			}
			for _, g := range flags {
				switch {
				case g == "modular":
					cur.modular = true
				case g == "trusted":
					cur.trusted, cur.modular = true, true
				case g == "trace":
					cur.trace = true
				case g == "pure":
					cur.pure = true
				case g == "frame":
					cur.frame = true
				case g == "open":
					cur.open = true
				case g == "noderive":
					cur.noderive = true
				case g == "safe":
					cur.safety = true
				case strings.HasPrefix(g, "params="):
					cur.params = strings.Split(g[7:], ",")
				case strings.HasPrefix(g, "props="):
					cur.props = strings.Split(g[6:], ",")
				case strings.HasPrefix(g, "writer="):
					cur.writer = append(cur.writer, strings.Split(g[7:], ",")...)
				case strings.HasPrefix(g, "holds="):
					cur.lockOK = strings.Split(g[6:], ",")
				default:
					return bad(fmt.Errorf("unknown flag %q", g))
				}
			}
			if old := w.contracts[key]; old != nil {
				// a second block for the same function extends the first
				old.props = append(old.props, cur.props...)
				old.safety = old.safety || cur.safety
				old.frame = old.frame || cur.frame
				old.modular = old.modular || cur.modular
				old.trace = old.trace || cur.trace
				cur = old
			} else {
				w.contracts[key] = cur
				w.order = append(w.order, cur)
			}
			continue
		case "expand":
			// functions this one is verified with the bodies of, whatever their contracts
			for _, k := range strings.Split(strings.TrimPrefix(s, "expand"), ",") {
				cur.expand = append(cur.expand, strings.TrimSpace(k))
			}
			continue
		case "modifies":
			for _, m := range strings.Split(strings.TrimPrefix(s, "modifies"), ",") {
				cur.modifies = append(cur.modifies, strings.TrimSpace(m))
			}
			continue
		}
		if fl[0] == "ghostcall" {
			// ghostcall KEY  NAME(x) = expr: update made just before a call of KEY
			r := regexp.MustCompile(`^ghostcall\s+(.*?)  +(\w+)\((\w+)\)\s*=\s*(.*)$`).FindStringSubmatch(s)
			if r == nil || !w.ghostMaps[r[2]] {
				return bad(fmt.Errorf("bad ghostcall clause %q", s))
			}
			x, err := parseExpr(r[4])
			if err != nil {
				return bad(err)
			}
			cur.ghostCalls = append(cur.ghostCalls, &GhostSet{at: r[1], name: r[2], v: r[3], x: x, file: filepath.Base(f), line: ln})
			continue
		}
		if fl[0] == "ghost" {
			// ghost NAME(x) = expr: what the call makes of a ghost map
			r := regexp.MustCompile(`^ghost\s+(\w+)\((\w+)\)\s*=\s*(.*)$`).FindStringSubmatch(s)
			if r == nil || !w.ghostMaps[r[1]] {
				return bad(fmt.Errorf("bad ghost clause %q", s))
			}
			x, err := parseExpr(r[3])
			if err != nil {
				return bad(err)
			}
			cur.ghosts = append(cur.ghosts, &GhostSet{name: r[1], v: r[2], x: x, file: filepath.Base(f), line: ln})
			continue
		}
		m := clauseRe.FindStringSubmatch(s)
		if m == nil {
			return bad(fmt.Errorf("cannot parse %q", s))
		}
		cl := &Clause{file: filepath.Base(f), line: ln}
		if m[2] != "" {
			for _, p := range strings.Split(strings.Trim(m[2], "[]"), ",") {
				cl.props = append(cl.props, strings.TrimSpace(p))
			}
		}
		body := m[3]
		oncallKey := ""
		if m[1] == "oncall" {
			k := strings.Index(body, "  ")
			if k < 0 {
				return bad(fmt.Errorf("oncall needs two spaces after the key"))
			}
			oncallKey, body = strings.TrimSpace(body[:k]), strings.TrimSpace(body[k:])
		}
		if m[1] == "inv" && strings.HasPrefix(body, "($") {
			k := strings.Index(body, ")")
			for _, r := range strings.Split(body[1:k], ",") {
				f := strings.Fields(r)
				if len(f) != 2 {
					return bad(fmt.Errorf("bad role %q", r))
				}
				cl.roles = append(cl.roles, role{name: f[0], typ: f[1]})
			}
			body = strings.TrimSpace(body[k+1:])
		}
		if lm := labelRe.FindStringSubmatch(body); lm != nil {
			cl.label, body = lm[1], lm[2]
		}
		cl.src = body
		x, err := parseExpr(body)
		if err != nil {
			return bad(err)
		}
		cl.x = x
		switch {
		case m[1] == "axiom":
			w.axiomsSrc = append(w.axiomsSrc, cl)
		case mon != nil && m[1] == "inv":
			mon.inv = append(mon.inv, cl)
			mon.props = append(mon.props, cl.props...)
		case cur == nil:
			return bad(fmt.Errorf("clause outside a contract"))
		case m[1] == "requires":
			cur.requires = append(cur.requires, cl)
		case m[1] == "given":
			cur.given = append(cur.given, cl)
		case m[1] == "defines":
			cur.defines = append(cur.defines, cl)
		case m[1] == "ensures":
			cur.ensures = append(cur.ensures, cl)
		case m[1] == "oncall":
			cur.oncall = append(cur.oncall, &OnCall{oncallKey, cl})
		case m[1] == "inv":
			cur.invs = append(cur.invs, cl)
		}
	}
	return nil
}
