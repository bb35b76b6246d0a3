package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  string
	ival  *big.Int // integer literal
	sval  *string  // string literal
	bound bool     // contains a bound variable
	vars  []*Term  // bound variables of a quantifier
	pats  [][]*Term
}

// Pos is a position in allocation order: objects allocated in epoch e, index k.
type Pos struct{ e, k int }

func (a Pos) le(b Pos) bool { return a.e < b.e || (a.e == b.e && a.k <= b.k) }
func (a Pos) lt(b Pos) bool { return a.e < b.e || (a.e == b.e && a.k < b.k) }

// RefInfo bounds where a reference was allocated: nil (if maybeNil) or in [lo,hi).
type RefInfo struct {
	lo, hi   Pos
	maybeNil bool
}

// Ctx owns all terms of one verification run.
type Ctx struct {
	tab      map[string]*Term
	n        int
	ref      map[*Term]RefInfo
	rngs     map[*Term][2]*big.Int
	selMemo  map[[2]*Term]*Term
	fresh    map[string]int
	ufs      map[string][]string // name -> arg sorts + result sort
	ufOrder  []string
	dts      map[string]*DT
	dtOrder  []string
	selOwner map[string]*DT
	strLits  []*Term
	epochs   []*Term
	True     *Term
	False    *Term
	Zero     *Term
	One      *Term
	nameOf   func(*Term) *Term
}

// DT is an SMT datatype with a single constructor.
type DT struct {
	name  string
	con   string
	sels  []string
	sorts []string
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, ref: map[*Term]RefInfo{}, rngs: map[*Term][2]*big.Int{}, selMemo: map[[2]*Term]*Term{},
		fresh: map[string]int{}, ufs: map[string][]string{}, dts: map[string]*DT{}, selOwner: map[string]*DT{}}
	c.True = c.mk("true", "Bool")
	c.False = c.mk("false", "Bool")
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	c.addDT(&DT{name: "Iface", con: "mkI", sels: []string{"itag", "ipl"}, sorts: []string{"Int", "Int"}})
	c.addDT(&DT{name: "Slice", con: "mkS", sels: []string{"sarr", "soff", "slen", "scap"}, sorts: []string{"Int", "Int", "Int", "Int"}})
	return c
}

func (c *Ctx) addDT(d *DT) {
	if c.dts[d.name] != nil {
		return
	}
	c.dts[d.name] = d
	c.dtOrder = append(c.dtOrder, d.name)
	for _, s := range d.sels {
		c.selOwner[s] = d
	}
}

func (c *Ctx) intern(key string, mk func() *Term) *Term {
	if t := c.tab[key]; t != nil {
		return t
	}
	t := mk()
	t.id = c.n
	c.n++
	c.tab[key] = t
	return t
}

func (c *Ctx) mk(op, sort string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return c.intern(b.String(), func() *Term {
		t := &Term{op: op, sort: sort, args: args}
		for _, a := range args {
			if a.bound {
				t.bound = true
			}
		}
		return t
	})
}

func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(i *big.Int) *Term {
	return c.intern("#"+i.String(), func() *Term { return &Term{op: "int", sort: "Int", ival: new(big.Int).Set(i)} })
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Str(s string) *Term {
	t := c.intern("$"+s, func() *Term { v := s; return &Term{op: "str", sort: "Str", sval: &v} })
	for _, x := range c.strLits {
		if x == t {
			return t
		}
	}
	c.strLits = append(c.strLits, t)
	return t
}

// Const makes (or finds) a named constant.
func (c *Ctx) Const(name, sort string) *Term { return c.mk("c:"+name, sort) }

// Fresh makes a new constant.
func (c *Ctx) Fresh(base, sort string) *Term {
	base = sanitize(base)
	c.fresh[base]++
	return c.Const(fmt.Sprintf("%s!%d", base, c.fresh[base]), sort)
}

// Bound makes a bound variable.
func (c *Ctx) Bound(base, sort string) *Term {
	c.fresh["bv"]++
	t := c.mk(fmt.Sprintf("v:%s_%d", sanitize(base), c.fresh["bv"]), sort)
	t.bound = true
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// UF applies an uninterpreted function.
func (c *Ctx) UF(name, sort string, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := c.ufs[name]; !ok {
		var s []string
		for _, a := range args {
			s = append(s, a.sort)
		}
		c.ufs[name] = append(s, sort)
		c.ufOrder = append(c.ufOrder, name)
	}
	if len(args) == 0 {
		return c.mk("f:"+name, sort)
	}
	return c.mk("f:"+name, sort, args...)
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == "not":
		return a.args[0]
	}
	return c.mk("not", "Bool", a)
}

func (c *Ctx) And(as ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.True || set[t] {
			return true
		}
		if t == c.False || set[c.Not(t)] {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	// unit propagation: (or x y) with not x present
	for changed := true; changed; {
		changed = false
		for i, t := range out {
			if t == nil || t.op != "or" {
				continue
			}
			var rest []*Term
			sat := false
			for _, x := range t.args {
				if set[x] {
					sat = true
					break
				}
				if !set[c.Not(x)] {
					rest = append(rest, x)
				}
			}
			if sat {
				out[i] = nil
				delete(set, t)
				changed = true
				continue
			}
			if len(rest) < len(t.args) {
				out[i] = nil
				delete(set, t)
				if !add(c.Or(rest...)) {
					return c.False
				}
				changed = true
			}
		}
	}
	var o2 []*Term
	for _, t := range out {
		if t != nil {
			o2 = append(o2, t)
		}
	}
	out = o2
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("and", "Bool", out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t.op == "true" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Or(as ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.False || set[t] {
			return true
		}
		if t == c.True || set[c.Not(t)] {
			return false
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts
	common := map[*Term]int{}
	for _, t := range out {
		for _, x := range conj(t) {
			common[x]++
		}
	}
	var com []*Term
	for x, n := range common {
		if n == len(out) {
			com = append(com, x)
		}
	}
	if len(com) > 0 {
		sort.Slice(com, func(i, j int) bool { return com[i].id < com[j].id })
		var rest []*Term
		for _, t := range out {
			rest = append(rest, c.strip(t, com))
		}
		return c.And(append([]*Term{c.Or(rest...)}, com...)...)
	}
	// x or (not x and y) -> x or y
	for i, t := range out {
		if t.op != "and" {
			continue
		}
		var rest []*Term
		hit := false
		for _, x := range t.args {
			if set[c.Not(x)] {
				hit = true
				continue
			}
			rest = append(rest, x)
		}
		if hit {
			n := append([]*Term{}, out[:i]...)
			n = append(n, out[i+1:]...)
			n = append(n, c.And(rest...))
			return c.Or(n...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("or", "Bool", out...)
}

// strip removes the given conjuncts from t.
func (c *Ctx) strip(t *Term, com []*Term) *Term {
	var rest []*Term
outer:
	for _, x := range conj(t) {
		for _, y := range com {
			if x == y {
				continue outer
			}
		}
		rest = append(rest, x)
	}
	return c.And(rest...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.mk("=>", "Bool", a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if k.op == "not" {
		return c.Ite(k.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == c.True && b == c.False {
			return k
		}
		if a == c.False && b == c.True {
			return c.Not(k)
		}
		if a == c.True {
			return c.Or(k, b)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
		if b == c.False {
			return c.And(k, a)
		}
	}
	if a.op == "ite" && a.args[0] == k {
		return c.Ite(k, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == k {
		return c.Ite(k, a, b.args[2])
	}
	if b.op == "ite" && b.args[1] == a {
		return c.Ite(c.Or(k, b.args[0]), a, b.args[2])
	}
	t := c.mk("ite", a.sort, k, a, b)
	if a.sort == "Int" {
		if _, ok := c.ref[t]; !ok {
			ia, oka := c.refInfo(a)
			ib, okb := c.refInfo(b)
			if oka && okb {
				lo, hi := ia.lo, ia.hi
				if a == c.Zero {
					lo, hi = ib.lo, ib.hi
				} else if b != c.Zero {
					if ib.lo.lt(lo) {
						lo = ib.lo
					}
					if hi.lt(ib.hi) {
						hi = ib.hi
					}
				}
				c.ref[t] = RefInfo{lo, hi, ia.maybeNil || ib.maybeNil}
			}
		}
	}
	return t
}

func (c *Ctx) refInfo(t *Term) (RefInfo, bool) {
	if t == c.Zero {
		return RefInfo{Pos{-2, 0}, Pos{-2, 1}, true}, true
	}
	if r, ok := c.ref[t]; ok {
		return r, true
	}
	return RefInfo{}, false
}

// distinct reports whether two terms are certainly different.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.ival != nil && b.ival != nil {
		return a.ival.Cmp(b.ival) != 0
	}
	if a.sval != nil && b.sval != nil {
		return true
	}
	if a.sort == "Int" {
		ia, oka := c.refInfo(a)
		ib, okb := c.refInfo(b)
		if oka && okb {
			if ia.maybeNil && ib.maybeNil {
				return false
			}
			if ia.hi.le(ib.lo) || ib.hi.le(ia.lo) {
				return true
			}
		}
		ba, ka := splitOff(a)
		bb, kb := splitOff(b)
		if ba == bb && ba != nil && ka.Cmp(kb) != 0 {
			return true
		}
	}
	return false
}

// splitOff splits t into base + constant.
func splitOff(t *Term) (*Term, *big.Int) {
	if t.op == "+" && len(t.args) == 2 && t.args[1].ival != nil {
		return t.args[0], t.args[1].ival
	}
	return t, new(big.Int)
}

func (c *Ctx) isCon(t *Term) *DT {
	d := c.dts[t.sort]
	if d != nil && t.op == d.con {
		return d
	}
	return nil
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if c.distinct(a, b) {
		return c.False
	}
	if a.sort == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if da := c.isCon(a); da != nil && c.isCon(b) != nil {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.sort == "Int" {
		ba, ka := splitOff(a)
		bb, kb := splitOff(b)
		if ba == bb {
			return c.Bool(ka.Cmp(kb) == 0)
		}
	}
	// push equality with a literal/constructor through ite when it simplifies
	if a.op == "ite" && (b.ival != nil || b.sval != nil || c.isCon(b) != nil) {
		l, r := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if isLit(c, l) || isLit(c, r) {
			return c.Ite(a.args[0], l, r)
		}
	}
	if b.op == "ite" && (a.ival != nil || a.sval != nil || c.isCon(a) != nil) {
		return c.Eq(b, a)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", a, b)
}

func isLit(c *Ctx, t *Term) bool { return t == c.True || t == c.False }

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Add(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil {
		return c.Big(new(big.Int).Add(a.ival, b.ival))
	}
	if a.ival != nil {
		a, b = b, a
	}
	if b.ival != nil {
		if b.ival.Sign() == 0 {
			return a
		}
		if a.op == "+" && a.args[1].ival != nil {
			return c.Add(a.args[0], c.Add(a.args[1], b))
		}
		if a.op == "-" && a.args[1].ival == nil {
			return c.mk("+", "Int", a, b)
		}
		return c.mk("+", "Int", a, b)
	}
	// x + (y - x) = y ; (x+k)+y -> (x+y)+k
	if b.op == "-" && b.args[1] == a {
		return b.args[0]
	}
	if a.op == "-" && a.args[1] == b {
		return a.args[0]
	}
	if a.op == "+" && a.args[1].ival != nil {
		return c.Add(c.Add(a.args[0], b), a.args[1])
	}
	if b.op == "+" && b.args[1].ival != nil {
		return c.Add(c.Add(a, b.args[0]), b.args[1])
	}
	return c.mk("+", "Int", a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Zero
	}
	if b.ival != nil {
		return c.Add(a, c.Big(new(big.Int).Neg(b.ival)))
	}
	ba, ka := splitOff(a)
	bb, kb := splitOff(b)
	if ba == bb {
		return c.Big(new(big.Int).Sub(ka, kb))
	}
	if a.op == "+" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if bb != b {
		return c.Add(c.Sub(a, bb), c.Big(new(big.Int).Neg(kb)))
	}
	if ba != a {
		return c.Add(c.Sub(ba, b), c.Big(ka))
	}
	return c.mk("-", "Int", a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil {
		return c.Big(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.ival != nil {
		a, b = b, a
	}
	if b.ival != nil {
		if b.ival.Sign() == 0 {
			return c.Zero
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return c.mk("*", "Int", a, b)
}

func (c *Ctx) Div(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return c.Big(q)
	}
	if b.ival != nil && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.ival != nil && b.ival.Sign() > 0 {
		if lo, hi := c.rng(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return c.Zero
		}
		if a.op == "div" && a.args[1].ival != nil && a.args[1].ival.Sign() > 0 {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
	}
	return c.mk("div", "Int", a, b)
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return c.Big(m)
	}
	if b.ival != nil && b.ival.Sign() > 0 {
		if lo, hi := c.rng(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return a
		}
	}
	return c.mk("mod", "Int", a, b)
}

func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Le(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.ival != nil && b.ival != nil {
		return c.Bool(a.ival.Cmp(b.ival) <= 0)
	}
	ba, ka := splitOff(a)
	bb, kb := splitOff(b)
	if ba == bb {
		return c.Bool(ka.Cmp(kb) <= 0)
	}
	la, ha := c.rng(a)
	lb, hb := c.rng(b)
	if ha != nil && lb != nil && ha.Cmp(lb) <= 0 {
		return c.True
	}
	if la != nil && hb != nil && la.Cmp(hb) > 0 {
		return c.False
	}
	return c.mk("<=", "Bool", a, b)
}

// setRng records a known range of a term.
func (c *Ctx) setRng(t *Term, lo, hi *big.Int) {
	if r, ok := c.rngs[t]; !ok || (r[0] == nil && r[1] == nil) {
		c.rngs[t] = [2]*big.Int{lo, hi}
	}
}

// rng computes a conservative integer range.
func (c *Ctx) rng(t *Term) (lo, hi *big.Int) {
	if t.ival != nil {
		return t.ival, t.ival
	}
	if r, ok := c.rngs[t]; ok {
		return r[0], r[1]
	}
	defer func() {
		if len(t.args) > 0 {
			c.rngs[t] = [2]*big.Int{lo, hi}
		}
	}()
	switch t.op {
	case "+":
		a, b := c.rngp(t.args[0]), c.rngp(t.args[1])
		if a[0] != nil && b[0] != nil {
			lo = new(big.Int).Add(a[0], b[0])
		}
		if a[1] != nil && b[1] != nil {
			hi = new(big.Int).Add(a[1], b[1])
		}
	case "-":
		a, b := c.rngp(t.args[0]), c.rngp(t.args[1])
		if a[0] != nil && b[1] != nil {
			lo = new(big.Int).Sub(a[0], b[1])
		}
		if a[1] != nil && b[0] != nil {
			hi = new(big.Int).Sub(a[1], b[0])
		}
	case "*":
		a, b := c.rngp(t.args[0]), c.rngp(t.args[1])
		if a[0] != nil && a[1] != nil && b[0] != nil && b[1] != nil {
			for _, x := range []*big.Int{a[0], a[1]} {
				for _, y := range []*big.Int{b[0], b[1]} {
					p := new(big.Int).Mul(x, y)
					if lo == nil || p.Cmp(lo) < 0 {
						lo = p
					}
					if hi == nil || p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
		}
	case "ite":
		a, b := c.rngp(t.args[1]), c.rngp(t.args[2])
		if a[0] != nil && b[0] != nil {
			lo = a[0]
			if b[0].Cmp(lo) < 0 {
				lo = b[0]
			}
		}
		if a[1] != nil && b[1] != nil {
			hi = a[1]
			if b[1].Cmp(hi) > 0 {
				hi = b[1]
			}
		}
	case "mod":
		if m := t.args[1].ival; m != nil && m.Sign() > 0 {
			lo, hi = new(big.Int), new(big.Int).Sub(m, big.NewInt(1))
			if _, h := c.rng(t.args[0]); h != nil && h.Cmp(hi) < 0 {
				if l, _ := c.rng(t.args[0]); l != nil && l.Sign() >= 0 {
					hi = h
				}
			}
		}
	case "div":
		if m := t.args[1].ival; m != nil && m.Sign() > 0 {
			a := c.rngp(t.args[0])
			if a[0] != nil {
				lo = new(big.Int).Div(a[0], m)
			}
			if a[1] != nil {
				hi = new(big.Int).Div(a[1], m)
			}
		}
	}
	return
}
func (c *Ctx) rngp(t *Term) [2]*big.Int { a, b := c.rng(t); return [2]*big.Int{a, b} }

func arrElem(s string) (idx, el string) {
	// "(Array I E)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func (c *Ctx) Select(a, i *Term) *Term {
	k := [2]*Term{a, i}
	if t := c.selMemo[k]; t != nil {
		return t
	}
	var t *Term
	_, es := arrElem(a.sort)
	switch {
	case a.op == "store":
		if a.args[1] == i {
			t = a.args[2]
		} else if c.distinct(a.args[1], i) {
			t = c.Select(a.args[0], i)
		} else {
			t = c.mk("select", es, a, i)
		}
	case a.op == "ite":
		t = c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case a.op == "constarr":
		t = a.args[0]
	default:
		t = c.mk("select", es, a, i)
	}
	c.selMemo[k] = t
	return t
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	_, es := arrElem(a.sort)
	if es != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}

// ConstArr is the array holding v everywhere.
func (c *Ctx) ConstArr(sort string, v *Term) *Term { return c.mk("constarr", sort, v) }

// Con builds a datatype value.
func (c *Ctx) Con(d *DT, args ...*Term) *Term {
	if len(args) != len(d.sorts) {
		panic("Con arity " + d.name)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("Con %s field %d: %s vs %s", d.name, i, a.sort, d.sorts[i]))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.op != d.sels[i] || len(a.args) != 1 || a.args[0].sort != d.name || (base != nil && a.args[0] != base) {
				ok = false
				break
			}
			base = a.args[0]
		}
		if ok {
			return base
		}
	}
	return c.mk(d.con, d.name, args...)
}

// Sel applies a datatype selector.
func (c *Ctx) Sel(sel string, t *Term) *Term {
	d := c.selOwner[sel]
	if d == nil || d.name != t.sort {
		panic("Sel " + sel + " on " + t.sort)
	}
	for i, s := range d.sels {
		if s == sel {
			if t.op == d.con {
				return t.args[i]
			}
			if t.op == "ite" {
				return c.Ite(t.args[0], c.Sel(sel, t.args[1]), c.Sel(sel, t.args[2]))
			}
			return c.mk(sel, d.sorts[i], t)
		}
	}
	panic("unreachable")
}

func (c *Ctx) MkI(tag, pl *Term) *Term { return c.Con(c.dts["Iface"], tag, pl) }
func (c *Ctx) MkS(a, o, l, k *Term) *Term {
	return c.Con(c.dts["Slice"], a, o, l, k)
}

// Quant builds a quantifier.
func (c *Ctx) Quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	pats = c.fixPats(pats)
	var key strings.Builder
	key.WriteString(q)
	for _, v := range vars {
		key.WriteString("," + strconv.Itoa(v.id))
	}
	key.WriteString("::" + strconv.Itoa(body.id))
	for _, p := range pats {
		key.WriteString("|")
		for _, t := range p {
			key.WriteString("," + strconv.Itoa(t.id))
		}
	}
	return c.intern(key.String(), func() *Term {
		t := &Term{op: q, sort: "Bool", args: []*Term{body}, vars: vars, pats: pats}
		t.bound = c.hasFree(body, vars)
		return t
	})
}

func (c *Ctx) hasFree(t *Term, vars []*Term) bool {
	if !t.bound {
		return false
	}
	seen := map[*Term]bool{}
	var f func(t *Term, vs map[*Term]bool) bool
	f = func(t *Term, vs map[*Term]bool) bool {
		if !t.bound {
			return false
		}
		if strings.HasPrefix(t.op, "v:") {
			return !vs[t]
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(t.vars) > 0 {
			vs2 := map[*Term]bool{}
			for k := range vs {
				vs2[k] = true
			}
			for _, v := range t.vars {
				vs2[v] = true
			}
			vs = vs2
		}
		for _, a := range t.args {
			if f(a, vs) {
				return true
			}
		}
		return false
	}
	m := map[*Term]bool{}
	for _, v := range vars {
		m[v] = true
	}
	return f(t, m)
}

// Subst replaces constants/bound variables.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.args) == 0 {
			r = t
		} else {
			args := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				args[i] = f(a)
				if args[i] != a {
					same = false
				}
			}
			if same {
				r = t
			} else {
				r = c.rebuild(t, args, f)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Imp(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "+":
		return c.Add(args[0], args[1])
	case "-":
		return c.Sub(args[0], args[1])
	case "*":
		return c.Mul(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			pats = append(pats, q)
		}
		return c.Quant(t.op, t.vars, args[0], pats)
	}
	if c.selOwner[t.op] != nil && len(args) == 1 {
		return c.Sel(t.op, args[0])
	}
	if d := c.dts[t.sort]; d != nil && d.con == t.op {
		return c.Con(d, args...)
	}
	return c.mk(t.op, t.sort, args...)
}

func (c *Ctx) contains(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Show prints a term without sharing (for messages; cut off when long).
func (c *Ctx) Show(t *Term) string {
	var b strings.Builder
	var f func(t *Term, d int)
	f = func(t *Term, d int) {
		if b.Len() > 3000 {
			b.WriteString("…")
			return
		}
		switch {
		case t.ival != nil:
			b.WriteString(t.ival.String())
		case t.sval != nil:
			b.WriteString(strconv.Quote(*t.sval))
		case len(t.args) == 0:
			b.WriteString(strings.TrimPrefix(strings.TrimPrefix(t.op, "c:"), "v:"))
		default:
			b.WriteByte('(')
			b.WriteString(strings.TrimPrefix(t.op, "f:"))
			for _, v := range t.vars {
				b.WriteString(" " + strings.TrimPrefix(v.op, "v:"))
			}
			for _, a := range t.args {
				b.WriteByte(' ')
				f(a, d+1)
			}
			b.WriteByte(')')
		}
	}
	f(t, 0)
	return b.String()
}

func patOp(op string) bool {
	switch op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists":
		return false
	}
	return true
}

// fixPats makes triggers acceptable to the solvers: ground parts that contain logical
// operators are replaced by named constants, triggers that still contain them are dropped.
func (c *Ctx) fixPats(pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, ps := range pats {
		ok := true
		var np []*Term
		for _, t := range ps {
			memo := map[*Term]*Term{}
			var f func(t *Term) *Term
			f = func(t *Term) *Term {
				if r, ok := memo[t]; ok {
					return r
				}
				r := t
				if !t.bound {
					if c.nameOf != nil && len(t.args) > 0 && c.contains(t, func(x *Term) bool { return !patOp(x.op) }) {
						r = c.nameOf(t)
					}
				} else {
					if !patOp(t.op) {
						ok = false
						return t
					}
					if len(t.args) > 0 {
						var as []*Term
						for _, a := range t.args {
							as = append(as, f(a))
						}
						if ok {
							r = c.mk(t.op, t.sort, as...)
						}
					}
				}
				memo[t] = r
				return r
			}
			np = append(np, f(t))
		}
		if ok {
			out = append(out, np)
		}
	}
	return out
}
