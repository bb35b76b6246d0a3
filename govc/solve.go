package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// ---- SMT-LIB printing -----------------------------------------------------------------

type printer struct {
	c      *Ctx
	out    *bytes.Buffer
	decl   map[string]bool
	named  map[*Term]bool
	refs   map[*Term]int
	nDT    int
	nUF    int
	nStr   int
	inScop bool
	cvc    bool
}

func newPrinter(c *Ctx) *printer {
	p := &printer{c: c, out: &bytes.Buffer{}, decl: map[string]bool{}, named: map[*Term]bool{}}
	fmt.Fprintln(p.out, "(declare-sort Str 0)\n(declare-sort Opq 0)\n(declare-fun strid (Str) Int)")
	return p
}

func (p *printer) decls() {
	c := p.c
	for ; p.nDT < len(c.dtOrder); p.nDT++ {
		d := c.dts[c.dtOrder[p.nDT]]
		fmt.Fprintf(p.out, "(declare-datatypes ((%s 0)) (((%s", q(d.name), q(d.con))
		for i, s := range d.sels {
			fmt.Fprintf(p.out, " (%s %s)", q(s), qs(d.sorts[i]))
		}
		fmt.Fprintln(p.out, "))))")
	}
	for ; p.nUF < len(c.ufOrder); p.nUF++ {
		n := c.ufOrder[p.nUF]
		s := c.ufs[n]
		var as []string
		for _, a := range s[:len(s)-1] {
			as = append(as, qs(a))
		}
		fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", q("f:"+n), strings.Join(as, " "), qs(s[len(s)-1]))
	}
	for ; p.nStr < len(c.strLits); p.nStr++ {
		t := c.strLits[p.nStr]
		fmt.Fprintf(p.out, "(declare-const s%d Str)\n(assert (= (strid s%d) %d))\n", t.id, t.id, p.nStr)
	}
}

func q(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.') {
			return "|" + s + "|"
		}
	}
	return s
}
func qs(s string) string { return s }

// prep declares constants and names the shared subterms of t.
func (p *printer) prep(t *Term) {
	p.decls()
	var f func(t *Term)
	seen := map[*Term]bool{}
	f = func(t *Term) {
		if seen[t] || p.named[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "c:") {
			if !p.decl[t.op] {
				p.decl[t.op] = true
				fmt.Fprintf(p.out, "(declare-const %s %s)\n", q(t.op), qs(t.sort))
			}
			return
		}
		for _, a := range t.args {
			f(a)
		}
		for _, ps := range t.pats {
			for _, a := range ps {
				f(a)
			}
		}
		if len(t.args) > 0 && !t.bound && t.sort != "" {
			p.named[t] = true
			var b bytes.Buffer
			if p.cvc && t.op == "constarr" {
				// only constant arrays of literal values are in the language of cvc5
				p.ref(&b, t.args[0])
				ix, _ := arrElem(t.sort)
				fmt.Fprintf(p.out, "(declare-const t%d %s)\n(assert (forall ((k %s)) (! (= (select t%d k) %s) :pattern ((select t%d k)))))\n", t.id, qs(t.sort), qs(ix), t.id, b.String(), t.id)
				return
			}
			p.body(&b, t)
			fmt.Fprintf(p.out, "(define-fun t%d () %s %s)\n", t.id, qs(t.sort), b.String())
		}
	}
	f(t)
}

func (p *printer) ref(b *bytes.Buffer, t *Term) {
	if p.named[t] {
		fmt.Fprintf(b, "t%d", t.id)
		return
	}
	p.body(b, t)
}

func (p *printer) body(b *bytes.Buffer, t *Term) {
	switch {
	case t.ival != nil:
		if t.ival.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.ival))
		} else {
			b.WriteString(t.ival.String())
		}
	case t.sval != nil:
		fmt.Fprintf(b, "s%d", t.id)
	case t.op == "constarr":
		fmt.Fprintf(b, "((as const %s) ", qs(t.sort))
		p.ref(b, t.args[0])
		b.WriteByte(')')
	case t.op == "forall" || t.op == "exists":
		fmt.Fprintf(b, "(%s (", t.op)
		for _, v := range t.vars {
			fmt.Fprintf(b, "(%s %s)", q(v.op), qs(v.sort))
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		p.ref(b, t.args[0])
		for _, ps := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range ps {
				if i > 0 {
					b.WriteByte(' ')
				}
				p.ref(b, x)
			}
			b.WriteByte(')')
		}
		if len(t.pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	case len(t.args) == 0:
		b.WriteString(q(t.op))
	default:
		b.WriteByte('(')
		b.WriteString(q2(t.op))
		for _, a := range t.args {
			b.WriteByte(' ')
			p.ref(b, a)
		}
		b.WriteByte(')')
	}
}

func q2(op string) string {
	switch op {
	case "and", "or", "not", "=>", "ite", "=", "+", "-", "*", "div", "mod", "<=", "<", "select", "store":
		return op
	}
	return q(op)
}

func (p *printer) assert(t *Term) {
	p.prep(t)
	var b bytes.Buffer
	p.ref(&b, t)
	fmt.Fprintf(p.out, "(assert %s)\n", b.String())
}

func (p *printer) str(t *Term) string {
	p.prep(t)
	var b bytes.Buffer
	p.ref(&b, t)
	return b.String()
}

func (p *printer) take() string {
	s := p.out.String()
	p.out.Reset()
	return s
}

// ---- incremental session -----------------------------------------------------------------

type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	p   *printer
	nf  int
	na  int
	log *bytes.Buffer
}

var dumpQ = os.Getenv("GOVC_DUMP")

var solverBin = "z3-new"

func newSession(e *Engine, timeoutMs int) (*session, error) {
	cmd := exec.Command(solverBin, "-in", "-smt2", "-memory:4000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &session{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), p: newPrinter(e.c)}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n", timeoutMs))
	s.send(s.p.take())
	return s, nil
}

func (s *session) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *session) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("solver: %s", l)
		}
		return l, nil
	}
}

func (s *session) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// advance asserts the axioms and facts an obligation depends on.
func (s *session) advance(e *Engine, o *Obl) {
	for ; s.na < o.naxioms; s.na++ {
		s.p.assert(e.axioms[s.na])
	}
	for ; s.nf < o.nfacts; s.nf++ {
		s.p.assert(e.facts[s.nf])
	}
}

func (s *session) check(e *Engine, o *Obl, goal *Term, assume []*Term) (string, error) {
	s.advance(e, o)
	g := s.p.str(e.c.And(o.reach, e.c.Not(goal)))
	var b strings.Builder
	for _, a := range assume {
		b.WriteString(" " + s.p.str(a))
	}
	s.send(s.p.take())
	s.send(fmt.Sprintf("(push)\n(assert %s)\n(check-sat-assuming (%s))\n", g, b.String()))
	r, err := s.readLine()
	s.send("(pop)\n")
	return r, err
}

// ---- Houdini and final checking ------------------------------------------------------------

type solveStats struct {
	confirm bool // second opinion before a stated invariant is given up
	queries int
	ms      int64
	byBack  map[string]int
}

func (e *Engine) actives(keep func(*Cand) bool) []*Term {
	var out []*Term
	for _, cd := range e.cands {
		if cd.active && (keep == nil || keep(cd)) {
			out = append(out, cd.b)
		}
	}
	return out
}

func (e *Engine) solve(quickMs, hardMs int, st *solveStats) error {
	var inv, rest []*Obl
	for _, o := range e.obls {
		if o.cand != nil {
			inv = append(inv, o)
		} else {
			rest = append(rest, o)
		}
	}
	t0 := time.Now()
	defer func() { st.ms += time.Since(t0).Milliseconds() }()
	// Houdini: drop candidates until the rest is inductive.
	for round := 0; len(inv) > 0 && round < 60; round++ {
		changed := false
		s, err := newSession(e, quickMs)
		if err != nil {
			return err
		}
		for _, o := range inv {
			if !o.cand.active {
				continue
			}
			if o.goal == e.c.True || o.reach == e.c.False {
				o.status = "proved"
				continue
			}
			ms := quickMs / 5
			if o.cand.user {
				ms = quickMs
			}
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
			tq := time.Now()
			r, err := s.check(e, o, o.goal, e.actives(nil))
			if debug && r != "unsat" && dumpQ != "" && strings.Contains(o.cand.name+" "+o.kind, dumpQ) {
				os.WriteFile("/tmp/q.smt2", []byte(e.script(o, o.goal, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.profile true)\n(set-option :timeout 2000)\n")), 0o644)
			}
			if debug {
				fmt.Printf("  q %d %s %s %s %dms\n", round, o.cand.name, o.kind, r, time.Since(tq).Milliseconds())
			}
			st.queries++
			if err != nil {
				s.close()
				return err
			}
			if r == "unsat" {
				o.status = "proved"
				continue
			}
			if st.confirm && o.cand.user {
				args := []string{"-in", "-smt2", "-t:2000", "-memory:4000", "auto_config=false", "smt.mbqi=false", "smt.random_seed=7"}
				st.queries++
				if firstWord(runSolver(solverBin, args, e.script(o, o.goal, ""), 2000)) == "unsat" {
					o.status = "proved"
					continue
				}
			}
			o.cand.active = false
			changed = true
			if debug {
				fmt.Printf("  drop %s (%s: %s)\n", o.cand.name, o.kind, r)
			}
		}
		s.close()
		if !changed {
			break
		}
		if round == 59 {
			return fmt.Errorf("the candidate invariants did not settle")
		}
	}
	if debug {
		for _, cd := range e.cands {
			if cd.active {
				fmt.Printf("  keep %s\n", cd.name)
			}
		}
	}
	s, err := newSession(e, quickMs)
	if err != nil {
		return err
	}
	defer s.close()
	for _, o := range rest {
		if o.goal == e.c.True || o.reach == e.c.False {
			o.status, o.solver = "proved", "simplification"
			st.byBack["simplification"]++
			continue
		}
		tq := time.Now()
		r, err := s.check(e, o, o.goal, e.actives(nil))
		st.queries++
		if err != nil {
			return err
		}
		o.ms = time.Since(tq).Milliseconds()
		if r == "unsat" {
			o.status, o.solver = "proved", "z3"
			st.byBack["z3"]++
			continue
		}
		if strings.HasPrefix(o.kind, "cover") {
			o.status = "covered"
			continue
		}
		r2, who := e.oneShot(o, hardMs, st)
		o.ms = time.Since(tq).Milliseconds()
		switch r2 {
		case "unsat":
			o.status, o.solver = "proved", who
			st.byBack[who]++
		case "sat":
			o.status, o.solver = "refuted", who
		default:
			o.status, o.solver = "unknown", who
			if r == "sat" {
				o.status = "refuted"
			}
		}
		if o.status != "proved" {
			o.model = e.modelOf(o, hardMs)
		}
	}
	return nil
}

// cone selects the facts connected to the goal through shared symbols.
func (e *Engine) script(o *Obl, goal *Term, dialect string) string {
	p := newPrinter(e.c)
	p.cvc = dialect == "cvc5"
	for _, a := range e.axioms[:o.naxioms] {
		p.assert(a)
	}
	for _, f := range e.facts[:o.nfacts] {
		p.assert(f)
	}
	for _, cd := range e.cands {
		if cd.active {
			p.assert(cd.b)
		}
	}
	p.assert(e.c.And(o.reach, e.c.Not(goal)))
	return p.take() + "(check-sat)\n"
}

func runSolver(bin string, args []string, script string, ms int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	return string(out)
}

func firstWord(s string) string {
	f := strings.Fields(s)
	if len(f) == 0 {
		return "timeout"
	}
	return f[0]
}

// oneShot tries an obligation with several solver configurations.
func (e *Engine) oneShot(o *Obl, ms int, st *solveStats) (string, string) {
	type res struct{ r, who string }
	sc := e.script(o, o.goal, "")
	if debug && dumpQ != "" && strings.Contains(o.name, dumpQ) {
		os.WriteFile("/tmp/q.smt2", []byte(sc), 0o644)
	}
	cvc := "(set-logic ALL)\n" + e.script(o, o.goal, "cvc5")
	ch := make(chan res, 3)
	go func() {
		ch <- res{firstWord(runSolver("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:4000"}, sc, ms)), "z3"}
	}()
	go func() {
		ch <- res{firstWord(runSolver("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:4000", "auto_config=false", "smt.mbqi=false", "smt.random_seed=7"}, sc, ms)), "z3"}
	}()
	go func() {
		ch <- res{firstWord(runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}, cvc, ms)), "cvc5"}
	}()
	st.queries += 3
	best := res{"unknown", ""}
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.r == "unsat" {
			return r.r, r.who
		}
		if r.r == "sat" {
			best = r
		}
	}
	return best.r, best.who
}

// modelOf asks for the values of the function's inputs in a counterexample.
func (e *Engine) modelOf(o *Obl, ms int) string {
	if len(e.watches) == 0 {
		return ""
	}
	p := newPrinter(e.c)
	for _, a := range e.axioms[:o.naxioms] {
		p.assert(a)
	}
	for _, f := range e.facts[:o.nfacts] {
		p.assert(f)
	}
	for _, cd := range e.cands {
		if cd.active {
			p.assert(cd.b)
		}
	}
	p.assert(e.c.And(o.reach, e.c.Not(o.goal)))
	var ws []string
	for _, w := range e.watches {
		ws = append(ws, p.str(w.t))
	}
	sc := p.take() + "(check-sat)\n(get-value (" + strings.Join(ws, " ") + "))\n"
	out := runSolver("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, sc, ms)
	vals := parseValues(out)
	var b strings.Builder
	for i, w := range e.watches {
		if i < len(vals) {
			fmt.Fprintf(&b, "%s = %s\n", w.name, vals[i])
		}
	}
	return b.String()
}

// parseValues reads the value part of each pair of a get-value answer.
func parseValues(out string) []string {
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	s := out[i+1:]
	var vals []string
	for {
		j := strings.Index(s, "(")
		if j < 0 {
			break
		}
		d, k := 0, j
		for ; k < len(s); k++ {
			if s[k] == '(' {
				d++
			}
			if s[k] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if k >= len(s) {
			break
		}
		pair := strings.TrimSpace(s[j+1 : k])
		// first element is an atom name tN or parenthesised expression
		rest := ""
		if strings.HasPrefix(pair, "(") {
			d := 0
			for x := 0; x < len(pair); x++ {
				if pair[x] == '(' {
					d++
				}
				if pair[x] == ')' {
					d--
					if d == 0 {
						rest = pair[x+1:]
						break
					}
				}
			}
		} else if strings.HasPrefix(pair, "|") {
			if x := strings.Index(pair[1:], "|"); x >= 0 {
				rest = pair[x+2:]
			}
		} else if x := strings.IndexAny(pair, " \n"); x >= 0 {
			rest = pair[x:]
		}
		vals = append(vals, strings.Join(strings.Fields(rest), " "))
		s = s[k+1:]
	}
	return vals
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
