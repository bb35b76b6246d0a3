package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---- Go types to SMT sorts -------------------------------------------------

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// opaque struct types are modelled as a single scalar.
func opaqueStruct(t types.Type) string {
	switch namedPath(t) {
	case "time.Time":
		return "Int"
	case "net/netip.Addr", "net/netip.Prefix", "reflect.Value":
		return "Opq"
	}
	return ""
}

// ignored struct types carry no modelled state.
func ignoredStruct(t types.Type) bool {
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Pool", "sync.Map", "hash/maphash.Seed", "strings.Builder", "bytes.Buffer", "sync/atomic.Bool", "sync/atomic.Int64", "sync/atomic.Int32", "sync/atomic.Uint64":
		return true
	}
	return false
}

func (e *Engine) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := e.sortMemo[t]; ok {
		return s
	}
	s := e.sortOf1(t)
	e.sortMemo[t] = s
	return s
}

func (e *Engine) sortOf1(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort("Int", e.sortOf(u.Elem()))
	case *types.Struct:
		if o := opaqueStruct(t); o != "" {
			return o
		}
		return e.structDT(t).name
	case *types.TypeParam:
		return "Opq"
	}
	return "Opq"
}

func (e *Engine) structDT(t types.Type) *DT {
	t = types.Unalias(t)
	key := typeName(t)
	if d := e.structs[key]; d != nil {
		return d
	}
	st := under(t).(*types.Struct)
	nm := fmt.Sprintf("S%d_%s", len(e.structs), sanitize(shortName(t)))
	d := &DT{name: nm, con: "mk_" + nm}
	e.structs[key] = d
	if !ignoredStruct(t) {
		for i := 0; i < st.NumFields(); i++ {
			d.sels = append(d.sels, fmt.Sprintf("%s_f%d_%s", nm, i, sanitize(st.Field(i).Name())))
			d.sorts = append(d.sorts, e.sortOf(st.Field(i).Type()))
		}
	}
	e.c.addDT(d)
	return d
}

func shortName(t types.Type) string {
	s := typeName(t)
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}

func isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok && opaqueStruct(t) == ""
}
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

func isRefType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	bits, signed, ok := intInfo(t)
	if !ok {
		return nil, nil, false
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
}

// tag returns the number identifying a concrete type inside an interface.
func (e *Engine) tag(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	n, ok := e.tags[k]
	if !ok {
		n = len(e.tags) + 1
		e.tags[k] = n
		e.tagTypes = append(e.tagTypes, t)
	}
	return e.c.Int(int64(n))
}

// zero value of a type.
func (e *Engine) zero(t types.Type) *Term {
	c := e.c
	switch s := e.sortOf(t); s {
	case "Bool":
		return c.False
	case "Int":
		return c.Zero
	case "Str":
		return c.Str("")
	case "Iface":
		return c.MkI(c.Zero, c.Zero)
	case "Slice":
		return c.MkS(c.Zero, c.Zero, c.Zero, c.Zero)
	case "Real":
		return c.mk("0.0", "Real")
	case "Opq":
		return c.UF("zero_opq_"+typeName(t), "Opq")
	default:
		switch u := under(t).(type) {
		case *types.Array:
			return c.ConstArr(s, e.zero(u.Elem()))
		case *types.Struct:
			d := e.structDT(t)
			var args []*Term
			if len(d.sels) > 0 {
				for i := 0; i < u.NumFields(); i++ {
					args = append(args, e.zero(u.Field(i).Type()))
				}
			}
			return c.Con(d, args...)
		}
	}
	panic("zero " + t.String())
}

// ---- heaps -----------------------------------------------------------------

func (e *Engine) fieldHeap(t types.Type, i int) (string, string) {
	st := under(t).(*types.Struct)
	name := "F:" + typeName(t) + "." + st.Field(i).Name()
	if st.Field(i).Name() == "_" {
		name += fmt.Sprint(i)
	}
	s := arrSort("Int", e.sortOf(st.Field(i).Type()))
	e.noteHeap(name, s, st.Field(i).Type())
	return name, s
}

func (e *Engine) cellHeap(t types.Type) (string, string) {
	name := "C:" + typeName(t)
	s := arrSort("Int", e.sortOf(t))
	e.noteHeap(name, s, t)
	return name, s
}

func elemKey(t types.Type) string {
	if b, ok := under(t).(*types.Basic); ok {
		if b.Kind() == types.Uint8 {
			return "uint8"
		}
	}
	return typeName(t)
}

func (e *Engine) elemHeap(t types.Type) (string, string) {
	name := "E:" + elemKey(t)
	s := arrSort("Int", arrSort("Int", e.sortOf(t)))
	e.noteHeap(name, s, t)
	return name, s
}

func (e *Engine) mapHeaps(m *types.Map) (has, val, ln string) {
	k := typeName(m.Key()) + ":" + typeName(m.Elem())
	has, val, ln = "MH:"+k, "MV:"+k, "ML:"+k
	ks, vs := e.sortOf(m.Key()), e.sortOf(m.Elem())
	e.noteHeap(has, arrSort("Int", arrSort(ks, "Bool")), nil)
	e.noteHeap(val, arrSort("Int", arrSort(ks, vs)), m.Elem())
	e.noteHeap(ln, arrSort("Int", "Int"), types.Typ[types.Int])
	return
}

func (e *Engine) noteHeap(name, sort string, t types.Type) {
	if _, ok := e.heapSort[name]; !ok {
		e.heapSort[name] = sort
		e.heapType[name] = t
	}
}

// get reads a heap component from a state.
func (e *Engine) get(st *State, name string) *Term {
	if t, ok := st.h[name]; ok {
		return t
	}
	return e.initHeap(name)
}

func (e *Engine) initHeap(name string) *Term {
	s, ok := e.heapSort[name]
	if !ok {
		panic("unknown heap " + name)
	}
	if strings.HasPrefix(name, "G:tr:") && s == "Int" {
		return e.c.Zero
	}
	if strings.HasPrefix(name, "L:") {
		return e.c.ConstArr(s, e.c.False)
	}
	return e.c.Const("H0."+sanitize(name), s)
}

// ---- locations ---------------------------------------------------------------

// Loc is a location that is not a whole object.
//
//	kind 'f': leaf field i of object base with struct type t
//	kind 'e': element idx of array object base with element type t
//	path: struct-field / array-index steps inside the stored value
type Loc struct {
	kind byte
	base *Term
	t    types.Type
	i    int
	idx  *Term
	path []step
}

type step struct {
	field int // struct field, or -1 for array index
	idx   *Term
	t     types.Type // container type
}

// leafType is the type of the value stored at the location before the path.
func (l *Loc) rootType() types.Type {
	switch l.kind {
	case 'f':
		return under(l.t).(*types.Struct).Field(l.i).Type()
	case 'e':
		return l.t
	}
	panic("rootType")
}

// sub returns the reference of the sub-object at field i of object base.
func (e *Engine) subRef(base *Term, t types.Type, i int) *Term {
	st := under(t).(*types.Struct)
	if i == 0 && isStruct(st.Field(0).Type()) {
		return base
	}
	nm := "sub_" + typeName(t) + "." + st.Field(i).Name()
	r := e.c.UF(nm, "Int", base)
	if !r.bound && !e.subSeen[r] {
		e.subSeen[r] = true
		e.axiom(e.c.Eq(e.c.UF(nm+"_inv", "Int", r), base))
		e.axiom(e.c.Lt(r, e.c.Zero))
		e.axiom(e.c.Eq(e.c.UF("subkind", "Int", r), e.c.Int(int64(e.strID(nm)))))
		if inf, ok := e.c.refInfo(base); ok {
			e.c.ref[r] = RefInfo{inf.lo, inf.hi, false}
		}
	}
	return r
}

func (e *Engine) strID(s string) int {
	if n, ok := e.strIDs[s]; ok {
		return n
	}
	n := len(e.strIDs) + 1
	e.strIDs[s] = n
	return n
}

// loadObj reads the whole value of type t stored at object ref.
func (e *Engine) loadObj(st *State, ref *Term, t types.Type) *Term {
	c := e.c
	switch u := under(t).(type) {
	case *types.Struct:
		if opaqueStruct(t) != "" {
			break
		}
		d := e.structDT(t)
		if len(d.sels) == 0 {
			return c.Con(d)
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, e.loadField(st, ref, t, i))
		}
		return c.Con(d, args...)
	case *types.Array:
		n, _ := e.elemHeap(u.Elem())
		return c.Select(e.get(st, n), ref)
	}
	n, _ := e.cellHeap(t)
	v := c.Select(e.get(st, n), ref)
	e.wf(v, t)
	return v
}

func (e *Engine) loadField(st *State, ref *Term, t types.Type, i int) *Term {
	ft := under(t).(*types.Struct).Field(i).Type()
	if ignoredStruct(t) {
		return e.zero(ft)
	}
	if isStruct(ft) || isArray(ft) {
		return e.loadObj(st, e.subRef(ref, t, i), ft)
	}
	n, _ := e.fieldHeap(t, i)
	v := e.c.Select(e.get(st, n), ref)
	e.wf(v, ft)
	return v
}

func (e *Engine) storeObj(st *State, ref *Term, t types.Type, v *Term) {
	c := e.c
	switch u := under(t).(type) {
	case *types.Struct:
		if opaqueStruct(t) != "" {
			break
		}
		d := e.structDT(t)
		if len(d.sels) == 0 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.storeField(st, ref, t, i, c.Sel(d.sels[i], v))
		}
		return
	case *types.Array:
		n, _ := e.elemHeap(u.Elem())
		e.set(st, n, ref, v)
		return
	}
	n, _ := e.cellHeap(t)
	e.set(st, n, ref, v)
}

func (e *Engine) storeField(st *State, ref *Term, t types.Type, i int, v *Term) {
	ft := under(t).(*types.Struct).Field(i).Type()
	if isStruct(ft) || isArray(ft) {
		e.storeObj(st, e.subRef(ref, t, i), ft, v)
		return
	}
	n, _ := e.fieldHeap(t, i)
	e.set(st, n, ref, v)
}

// set writes one entry of an array heap and records the write for frame checks.
func (e *Engine) set(st *State, heap string, ref, v *Term) {
	e.noteWrite(heap, ref)
	st.h[heap] = e.c.Store(e.get(st, heap), ref, v)
}

func (e *Engine) setScalar(st *State, heap string, v *Term) {
	e.noteWrite(heap, nil)
	st.h[heap] = v
}

func (e *Engine) noteWrite(heap string, ref *Term) {
	for _, l := range e.writeLogs {
		l.m[heap] = append(l.m[heap], ref)
	}
}

// loadLoc reads through a location descriptor.
func (e *Engine) loadLoc(st *State, l *Loc) *Term {
	v := e.loadRoot(st, l)
	for _, s := range l.path {
		v = e.stepGet(v, s)
	}
	e.wf(v, l.typ())
	return v
}

func (l *Loc) typ() types.Type {
	t := l.rootType()
	for _, s := range l.path {
		if s.field >= 0 {
			t = under(t).(*types.Struct).Field(s.field).Type()
		} else {
			t = under(t).(*types.Array).Elem()
		}
	}
	return t
}

func (e *Engine) loadRoot(st *State, l *Loc) *Term {
	switch l.kind {
	case 'f':
		return e.loadField(st, l.base, l.t, l.i)
	case 'e':
		n, _ := e.elemHeap(l.t)
		return e.c.Select(e.c.Select(e.get(st, n), l.base), l.idx)
	}
	panic("loadRoot")
}

func (e *Engine) stepGet(v *Term, s step) *Term {
	if s.field >= 0 {
		d := e.structDT(s.t)
		if len(d.sels) == 0 {
			return e.zero(under(s.t).(*types.Struct).Field(s.field).Type())
		}
		return e.c.Sel(d.sels[s.field], v)
	}
	return e.c.Select(v, s.idx)
}

func (e *Engine) stepSet(v *Term, path []step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	inner := e.stepSet(e.stepGet(v, s), path[1:], nv)
	if s.field >= 0 {
		d := e.structDT(s.t)
		args := make([]*Term, len(d.sels))
		for i := range args {
			if i == s.field {
				args[i] = inner
			} else {
				args[i] = e.c.Sel(d.sels[i], v)
			}
		}
		return e.c.Con(d, args...)
	}
	return e.c.Store(v, s.idx, inner)
}

func (e *Engine) storeLoc(st *State, l *Loc, v *Term) {
	if len(l.path) > 0 {
		v = e.stepSet(e.loadRoot(st, l), l.path, v)
	}
	switch l.kind {
	case 'f':
		e.storeField(st, l.base, l.t, l.i, v)
	case 'e':
		n, _ := e.elemHeap(l.t)
		row := e.c.Select(e.get(st, n), l.base)
		e.set(st, n, l.base, e.c.Store(row, l.idx, v))
	}
}

// ---- well-formedness -----------------------------------------------------------

var maxLen = pow2(62)

// wf emits the facts every value of a Go type satisfies.
func (e *Engine) wf(v *Term, t types.Type) {
	if v.bound {
		return
	}
	k := wfKey{v, Pos{}}
	if e.wfSeen[k] {
		return
	}
	e.wfSeen[k] = true
	for _, f := range e.wfFacts(v, t) {
		e.axiom(f)
	}
}

type wfKey struct {
	v *Term
	p Pos
}

func (e *Engine) wfFacts(v *Term, t types.Type) []*Term {
	c := e.c
	var out []*Term
	fr := e.loadFront(v)
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if v.ival == nil {
				out = append(out, c.mk("<=", "Bool", c.Big(lo), v), c.mk("<=", "Bool", v, c.Big(hi)))
				c.setRng(v, lo, hi)
			}
		} else if e.sortOf(t) == "Str" {
			if v.sval == nil {
				l := c.UF("strlen", "Int", v)
				out = append(out, c.mk("<=", "Bool", c.Zero, l), c.mk("<=", "Bool", l, c.Big(maxLen)), c.Eq(c.Eq(l, c.Zero), c.Eq(v, c.Str(""))))
				c.setRng(l, new(big.Int), maxLen)
			}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if v.ival == nil {
			if _, ok := c.ref[v]; !ok {
				c.ref[v] = RefInfo{Pos{-1, 0}, fr, true}
			}
			out = append(out, c.mk("<", "Bool", v, e.posTerm(fr)))
			if m, ok := u.(*types.Map); ok {
				_ = m
			}
		}
	case *types.Interface:
		tg, pl := c.Sel("itag", v), c.Sel("ipl", v)
		if v.op != "mkI" {
			if _, ok := c.ref[pl]; !ok {
				c.ref[pl] = RefInfo{Pos{-1, 0}, fr, true}
			}
			c.setRng(tg, new(big.Int), nil)
			out = append(out, c.mk("<", "Bool", pl, e.posTerm(fr)), c.mk("<=", "Bool", c.Zero, tg), c.Imp(c.Eq(tg, c.Zero), c.Eq(pl, c.Zero)))
		}
	case *types.Slice:
		if v.op != "mkS" {
			a, o, l, k := c.Sel("sarr", v), c.Sel("soff", v), c.Sel("slen", v), c.Sel("scap", v)
			if _, ok := c.ref[a]; !ok {
				c.ref[a] = RefInfo{Pos{-1, 0}, fr, true}
			}
			c.setRng(o, new(big.Int), maxLen)
			c.setRng(l, new(big.Int), maxLen)
			c.setRng(k, new(big.Int), maxLen)
			if !e.w.embeddedArray(u.Elem()) {
				out = append(out, c.mk("<=", "Bool", c.Zero, a))
			}
			out = append(out, c.mk("<", "Bool", a, e.posTerm(fr)), c.mk("<=", "Bool", c.Zero, o), c.mk("<=", "Bool", o, c.Big(maxLen)), c.mk("<=", "Bool", c.Zero, l), c.mk("<=", "Bool", l, k), c.mk("<=", "Bool", k, c.Big(maxLen)),
				c.Imp(c.Eq(a, c.Zero), c.And(c.Eq(k, c.Zero), c.Eq(o, c.Zero))))
		}
	case *types.Struct:
		if opaqueStruct(t) != "" || ignoredStruct(t) {
			break
		}
		if c.isCon(v) != nil {
			break
		}
		d := e.structDT(t)
		for i := range d.sels {
			out = append(out, e.wfFacts(c.Sel(d.sels[i], v), u.Field(i).Type())...)
		}
	}
	return out
}

// loadFront bounds the references a value can hold: what sits in the entry state of an
// object that existed at entry was allocated before entry.
func (e *Engine) loadFront(v *Term) Pos {
	for strings.HasPrefix(v.op, "s:") || (len(v.args) == 1 && v.op != "select") {
		v = v.args[0]
	}
	for v.op == "select" {
		b := v.args[0]
		if strings.HasPrefix(b.op, "c:H0.") {
			if inf, ok := e.c.refInfo(v.args[1]); ok && inf.hi.le(Pos{0, 0}) {
				return Pos{0, 0}
			}
			break
		}
		v = b
	}
	return e.front
}

// fresh value of a type with its well-formedness facts.
func (e *Engine) freshVal(base string, t types.Type) *Term {
	v := e.c.Fresh(base, e.sortOf(t))
	e.wf(v, t)
	return v
}

// ---- allocation ------------------------------------------------------------------

func (e *Engine) frontTerm() *Term { return e.posTerm(e.front) }

func (e *Engine) posTerm(p Pos) *Term {
	return e.c.Add(e.c.epochs[p.e], e.c.Int(int64(p.k)))
}

// newEpoch starts a new allocation epoch after an unknown number of allocations.
func (e *Engine) newEpoch() {
	n := e.c.Const(fmt.Sprintf("N%d", len(e.c.epochs)), "Int")
	if len(e.c.epochs) == 0 {
		e.axiom(e.c.mk("<", "Bool", e.c.Int(0), n))
	} else {
		e.axiom(e.c.mk("<=", "Bool", e.frontTerm(), n))
	}
	e.c.epochs = append(e.c.epochs, n)
	e.front = Pos{len(e.c.epochs) - 1, 0}
}

func (e *Engine) alloc() *Term {
	r := e.posTerm(e.front)
	p := e.front
	e.front.k++
	if _, ok := e.c.ref[r]; !ok {
		e.c.ref[r] = RefInfo{p, e.front, false}
	}
	return r
}

// zeroObj initialises a fresh object.
func (e *Engine) zeroObj(st *State, ref *Term, t types.Type) {
	e.storeObj(st, ref, t, e.zero(t))
}

func isMsgHeap(h string) bool {
	return strings.HasPrefix(h, "F:dns.") || strings.HasPrefix(h, "E:dns.")
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
