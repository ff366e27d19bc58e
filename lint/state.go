package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is a branch condition known to hold (Pol) or not to hold on a path. At
// is the number of events that preceded it.
type Fact struct {
	T   *Term
	Pol bool
	At  int
}

// Event is an effect on a path.
type Event struct {
	Kind     string
	Name     string
	Args     []*Term
	Res      *Term
	Raw      *Term // lset: the stored value as it was before its contents were resolved
	Pos      token.Pos
	Fn       *ssa.Function // function containing the instruction
	Chain    string        // call chain from the entry point
	Deferred bool          // executed while running deferred calls
	DeferAt  int           // deferred: index of the defer event that registered it
	Async    bool          // executed in a goroutine started on the path
	Loop     *LoopInfo
}

// LoopInfo summarises the iterations of a loop that precede an exit of it.
type LoopInfo struct {
	Inst      string
	Fn        *ssa.Function
	Pos       token.Pos
	Cond      *Term // header condition on the generic iteration, if any
	Over      *Term // ranged value for map/string iteration
	Backs     []LoopBack
	Exhausted bool // left from the header, that is after the last iteration
	Init      []PhiInit
	Mem       []MemInit
}

// MemInit is the content of a memory cell before the first iteration.
type MemInit struct{ Var, Cell, Init *Term }

// PhiInit is the value of a loop variable before the first iteration.
type PhiInit struct{ Var, Init *Term }

type iter struct {
	keys, vals []*Term
	pos        int
}

// LoopBack is one way through the loop body back to the header.
type LoopBack struct {
	Facts  []Fact
	Events []*Event
	Phis   map[*Term]*Term // loopvar -> value at the back edge
	Same   bool            // the next iteration starts exactly as this one did
	St     *State
}

type mapEntry struct {
	Mode     string // set, add, del, loopset, loopadd, loopdel
	Key, Val *Term
	Over     *Term
}

// MapObj is a map created on the analysed path.
type MapObj struct {
	Base    *Term // non-nil: starts as a copy of this value
	Ops     []mapEntry
	Unknown bool // unknown modifications happened
}

type deferred struct {
	fn   *Term
	call *ssa.CallCommon
	args []*Term
	at   int
	pos  token.Pos
}

type State struct {
	env    map[int]map[ssa.Value]*Term
	mem    map[*Term]*Term
	fresh  map[*Term]bool
	maps   map[*Term]*MapObj
	ver    map[string]int
	facts  []Fact
	fmap   map[*Term]bool
	events []*Event
	defers map[int][]deferred
	lb     map[*Term]int64
	ub     map[*Term]*Term
	rel    []rel
	iters  map[*Term]*iter
	writes map[*Term][]mapEntry // updates of maps that exist outside of the path
	unroll map[string]int
	n      int

	panicking *Term
	recovered bool

	defer_ int // >0: running deferred calls
	dat    int
	async  bool
	gor    int
}

func newState() *State {
	return &State{env: map[int]map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, fresh: map[*Term]bool{},
		maps: map[*Term]*MapObj{}, ver: map[string]int{}, fmap: map[*Term]bool{}, defers: map[int][]deferred{},
		lb: map[*Term]int64{}, ub: map[*Term]*Term{}, iters: map[*Term]*iter{}, writes: map[*Term][]mapEntry{}, unroll: map[string]int{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	c := *s
	c.env = make(map[int]map[ssa.Value]*Term, len(s.env))
	for k, v := range s.env {
		c.env[k] = cp(v)
	}
	c.mem = cp(s.mem)
	c.fresh = cp(s.fresh)
	c.maps = cp(s.maps)
	c.ver = cp(s.ver)
	c.facts = s.facts[:len(s.facts):len(s.facts)]
	c.fmap = cp(s.fmap)
	c.events = s.events[:len(s.events):len(s.events)]
	c.defers = cp(s.defers)
	c.lb = cp(s.lb)
	c.unroll = cp(s.unroll)
	c.ub = cp(s.ub)
	c.iters = cp(s.iters)
	c.writes = cp(s.writes)
	return &c
}

func (s *State) next() int { s.n++; return s.n }

// --- memory ---

// root returns the object an address lies in.
func root(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func isStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func fieldKey(baseT types.Type, f string) string {
	if d := derefType(baseT); d != nil {
		baseT = d
	}
	return types.TypeString(baseT, nil) + "." + f
}

func fieldName(t *Term) string {
	n := t.Name
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return n
}

func vname(n string, v int) string {
	if v == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, v)
}

// load reads the value of type t at address a.
func (s *State) load(a *Term, t types.Type) *Term {
	if isStruct(t) {
		return s.loadStruct(a, t)
	}
	if at, ok := arrayType(t); ok && at.Len() <= 16 && s.mem[a] == nil && s.hasCellsBelow(a) {
		el := make([]*Term, at.Len())
		for i := range el {
			el[i] = s.load(mk("ia", "", types.NewPointer(at.Elem()), a, mkInt(int64(i))), at.Elem())
		}
		return mk("list", "", t, el...)
	}
	if v := s.mem[a]; v != nil {
		return v
	}
	switch a.Op {
	case "fa":
		base := a.Args[0]
		if base.Op == "fa" || base.Op == "ia" || base.Op == "global" || s.fresh[base] {
			bt := derefType(base.T)
			return mkSel(s.loadWhole(base, bt), a.Name, t)
		}
		return mkSel(base, vname(a.Name, s.ver[fieldKey(base.T, a.Name)]), t)
	case "ia":
		return s.element(a.Args[0], a.Args[1], t)
	case "alloc":
		if s.fresh[a] {
			return zeroTerm(t)
		}
	case "global":
		return mk("gload", vname(a.Name, s.ver["global:"+a.Name]), t)
	}
	return mk("sel", vname("*", s.ver["*"]), t, a)
}

// loadWhole returns the base value of an aggregate, ignoring overlaid cells.
func (s *State) loadWhole(a *Term, t types.Type) *Term {
	if v := s.mem[a]; v != nil {
		return v
	}
	if s.fresh[a] {
		return zeroTerm(t)
	}
	switch a.Op {
	case "fa":
		base := a.Args[0]
		if base.Op == "fa" || base.Op == "ia" || base.Op == "global" || s.fresh[base] {
			return mkSel(s.loadWhole(base, derefType(base.T)), a.Name, t)
		}
		return mkSel(base, vname(a.Name, s.ver[fieldKey(base.T, a.Name)]), t)
	case "ia":
		return s.element(a.Args[0], a.Args[1], t)
	case "global":
		return mk("gload", vname(a.Name, s.ver["global:"+a.Name]), t)
	}
	if modType(t) {
		// a copy of a structure of the module: all its fields
		st := t.Underlying().(*types.Struct)
		args := make([]*Term, st.NumFields())
		for i := range args {
			f := st.Field(i)
			args[i] = s.load(mkFA(a, f.Name(), f.Type()), f.Type())
		}
		return mk("struct", types.TypeString(t, nil), t, args...)
	}
	return mk("sel", vname("*", s.ver["*"]), t, a)
}

func (s *State) hasCellsBelow(a *Term) bool {
	for k := range s.mem {
		for x := k; x.Op == "fa" || x.Op == "ia"; {
			x = x.Args[0]
			if x == a {
				return true
			}
		}
	}
	return false
}

func (s *State) loadStruct(a *Term, t types.Type) *Term {
	if !s.hasCellsBelow(a) {
		return s.loadWhole(a, t)
	}
	st := t.Underlying().(*types.Struct)
	args := make([]*Term, st.NumFields())
	for i := range args {
		f := st.Field(i)
		args[i] = s.load(mkFA(a, f.Name(), f.Type()), f.Type())
	}
	return mk("struct", types.TypeString(t, nil), t, args...)
}

func mkFA(base *Term, f string, ft types.Type) *Term {
	return mk("fa", f, types.NewPointer(ft), base)
}

func arrayType(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

// element reads an element of a slice, array pointer or array.
func (s *State) element(x, i *Term, t types.Type) *Term {
	switch x.Op {
	case "list":
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(x.Args) {
			return x.Args[n]
		}
	case "slice":
		if lo, ok := x.Args[1].intVal(); ok {
			if n, ok := i.intVal(); ok {
				return s.load(mk("ia", "", types.NewPointer(t), x.Args[0], mkInt(lo+n)), t)
			}
		}
	case "alloc":
		if s.fresh[x] {
			if v := s.mem[x]; v != nil {
				return s.element(v, i, t)
			}
			if _, ok := i.intVal(); ok {
				return zeroTerm(t)
			}
		}
	case "ia", "fa":
		if v := s.mem[x]; v != nil && s.fresh[root(x)] {
			return s.element(v, i, t)
		}
	case "zero":
		return zeroTerm(t)
	}
	return mk("elem", "", t, x, i)
}

// store writes v at address a; it reports whether the write may be visible
// outside of the objects allocated on this path.
func (s *State) store(a, v *Term) bool {
	r := root(a)
	if s.fresh[r] {
		// whole aggregate: drop the cells below it
		for k := range s.mem {
			for x := k; x.Op == "fa" || x.Op == "ia"; {
				x = x.Args[0]
				if x == a {
					delete(s.mem, k)
					break
				}
			}
		}
		if a.Op == "ia" {
			if _, ok := a.Args[1].intVal(); !ok {
				// unknown element: forget the contents
				for k := range s.mem {
					if k.Op == "ia" && k.Args[0] == a.Args[0] {
						delete(s.mem, k)
					}
				}
				s.mem[a.Args[0]] = mk("havoc", fmt.Sprint(s.next()), nil)
			}
		}
		s.mem[a] = v
		return false
	}
	// opaque object: invalidate possible aliases
	if a.Op == "fa" {
		for k := range s.mem {
			if k != a && k.Op == "fa" && k.Name == a.Name && !s.fresh[root(k)] {
				delete(s.mem, k)
			}
		}
		s.ver[fieldKey(a.Args[0].T, a.Name)] = s.next()
	} else if a.Op == "global" {
		s.ver["global:"+a.Name] = s.next()
	} else {
		s.ver["*"] = s.next()
	}
	s.mem[a] = v
	return true
}

// havoc forgets the contents of an object.
func (s *State) havoc(a *Term, why *Term) {
	for k := range s.mem {
		if root(k) == a && k != a {
			delete(s.mem, k)
		}
	}
	s.mem[a] = why
}

// lenOf is the length of a value in the current state.
func (s *State) lenOf(x *Term) *Term {
	if o := s.maps[x]; o != nil && o.concrete() {
		return mkInt(int64(len(o.Ops)))
	}
	if x.Op == "slice" && x.Args[2] == nil {
		if at := derefType(x.Args[0].T); at != nil {
			if a, ok := at.Underlying().(*types.Array); ok {
				if lo, ok := x.Args[1].intVal(); ok {
					return mkInt(a.Len() - lo)
				}
			}
		}
	}
	return mkLen(x)
}

// resolveKeep is resolve for bases that are indexed for addresses: slices of
// local arrays stay slices.
func (s *State) resolveKeep(t *Term) *Term { return t }

// resolve turns slices of path-local arrays into explicit lists.
func (s *State) resolve(t *Term) *Term {
	if t != nil && t.Op == "mkslice" {
		return s.resolveMade(t)
	}
	if t == nil || t.Op != "slice" {
		return t
	}
	arr := t.Args[0]
	if arr.Op != "alloc" || !s.fresh[arr] {
		return t
	}
	at, ok := derefType(arr.T).Underlying().(*types.Array)
	if !ok {
		return t
	}
	if h := s.mem[arr]; h != nil {
		return t
	}
	lo, ok1 := t.Args[1].intVal()
	hi := at.Len()
	ok2 := true
	if t.Args[2] != nil {
		hi, ok2 = t.Args[2].intVal()
	}
	if !ok1 || !ok2 || lo < 0 || hi > at.Len() || lo > hi {
		return t
	}
	var el []*Term
	for i := lo; i < hi; i++ {
		el = append(el, s.resolve(s.load(mk("ia", "", types.NewPointer(at.Elem()), arr, mkInt(i)), at.Elem())))
	}
	return mk("list", "", t.T, el...)
}

// content is what a byte buffer made on the path holds now: zeros, what it was
// filled with, or what was copied into it. Other values stand for themselves,
// as does a buffer whose content is not known.
func (s *State) content(t *Term) *Term {
	if t == nil || t.Op != "mkslice" || !isByteSlice(t.T) {
		return t
	}
	cell := mk("fa", "#content", nil, t)
	for a := range s.mem {
		if a != cell && root(a) == t {
			return t
		}
	}
	if v := s.mem[cell]; v != nil {
		return v
	}
	return mk("zeros", "", t.T, t.Args[0])
}

// setContent notes what a byte buffer made on the path holds from here on.
func (s *State) setContent(t, v *Term) {
	if t.Op == "slice" && t.Args[0].Op == "mkslice" {
		t = t.Args[0]
		v = t
	}
	if t.Op != "mkslice" || !isByteSlice(t.T) {
		return
	}
	for a := range s.mem {
		if root(a) == t {
			delete(s.mem, a)
		}
	}
	s.mem[mk("fa", "#content", nil, t)] = v
}

// resolveMade turns a list of texts that was made with a known length and
// filled by index into an explicit list.
func (s *State) resolveMade(t *Term) *Term {
	n, ok := t.Args[0].intVal()
	sl, isS := t.T.Underlying().(*types.Slice)
	if !ok || !isS || n < 1 || n > 32 || !isStringType(sl.Elem()) {
		return t
	}
	el := make([]*Term, n)
	for i := range el {
		el[i] = zeroTerm(sl.Elem())
	}
	for a, v := range s.mem {
		if root(a) != t {
			continue
		}
		i := int64(-1)
		if a.Op == "ia" && a.Args[0] == t {
			if k, ok := a.Args[1].intVal(); ok {
				i = k
			}
		}
		if i < 0 || i >= n {
			return t
		}
		el[i] = v
	}
	return mk("list", "", t.T, el...)
}

// snapshot replaces pointers to path-local structs by their current contents.
func (s *State) snapshot(t *Term, depth int) *Term {
	if t == nil || depth > 4 {
		return t
	}
	switch t.Op {
	case "iface":
		return mk("iface", t.Name, t.T, s.snapshot(t.Args[0], depth+1))
	case "alloc":
		if s.fresh[t] && isStruct(derefType(t.T)) {
			v := s.load(t, derefType(t.T))
			if v.Op == "struct" {
				as := make([]*Term, len(v.Args))
				for i, a := range v.Args {
					as[i] = s.snapshot(s.resolve(a), depth+1)
				}
				v = mk("struct", v.Name, v.T, as...)
			}
			return mk("ptr", "", t.T, v)
		}
	case "mkmap":
		if m := s.maps[t]; m != nil {
			return s.mapTerm(t, m)
		}
	case "slice", "mkslice":
		return s.resolve(t)
	case "list":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = s.snapshot(a, depth+1)
		}
		return mk("list", t.Name, t.T, as...)
	}
	return t
}

// mapTerm is the contents of a local map as a term: entries are (op key val).
func (s *State) mapTerm(t *Term, m *MapObj) *Term {
	var as []*Term
	base := m.Base
	if base == nil {
		base = mk("emptymap", "", t.T)
	}
	as = append(as, base)
	for _, o := range m.Ops {
		v := o.Val
		if v != nil {
			v = s.resolve(v)
		}
		as = append(as, mk("entry", o.Mode, nil, o.Key, v, o.Over))
	}
	n := ""
	if m.Unknown {
		n = "unknown"
	}
	return mk("mapval", n, t.T, as...)
}

// --- local maps ---

func (m *MapObj) with(e mapEntry) *MapObj {
	n := &MapObj{Base: m.Base, Unknown: m.Unknown}
	if e.Mode == "set" || e.Mode == "del" {
		for _, o := range m.Ops {
			if o.Key == e.Key && (o.Mode == "set" || o.Mode == "add" || o.Mode == "del") {
				continue
			}
			n.Ops = append(n.Ops, o)
		}
		if e.Mode == "del" && m.Base == nil && !m.loopy() {
			return n
		}
	} else {
		n.Ops = append(n.Ops, m.Ops...)
	}
	n.Ops = append(n.Ops, e)
	return n
}

func (m *MapObj) loopy() bool {
	for _, o := range m.Ops {
		if strings.HasPrefix(o.Mode, "loop") {
			return true
		}
	}
	return false
}

// concrete reports whether the contents are exactly the listed set entries.
func (m *MapObj) concrete() bool {
	if m.Base != nil || m.Unknown {
		return false
	}
	for _, o := range m.Ops {
		if o.Mode != "set" {
			return false
		}
	}
	return true
}

// --- facts ---

func (s *State) addFact(t *Term, pol bool) {
	if _, ok := s.fmap[t]; ok {
		return
	}
	s.fmap[t] = pol
	s.facts = append(s.facts, Fact{t, pol, len(s.events)})
}

// assume records a condition; false means it contradicts what is known.
func (s *State) assume(t *Term, pol bool) bool {
	for t.Op == "not" {
		t, pol = t.Args[0], !pol
	}
	if v, ok := s.eval(t); ok {
		if v == pol {
			// keep the fact visible for the rules even if it was implied
			if t.Op != "const" {
				s.addFact(t, pol)
			}
			return true
		}
		return false
	}
	s.addFact(t, pol)
	return true
}

// eval decides a condition from the facts of the path, if they settle it.
func (s *State) eval(t *Term) (val, ok bool) {
	if t.Op == "not" {
		v, ok := s.eval(t.Args[0])
		return !v, ok
	}
	if t == tTrue || t == tFalse {
		return t == tTrue, true
	}
	if v, ok := s.fmap[t]; ok {
		return v, true
	}
	if v, ok := s.derive(t); ok {
		return v, true
	}
	// equal values are interchangeable
	if u := s.canon(t, 0); u != t {
		if u == tTrue || u == tFalse {
			return u == tTrue, true
		}
		for u.Op == "not" {
			v, ok := s.eval(u.Args[0])
			return !v, ok
		}
		if v, ok := s.fmap[u]; ok {
			return v, true
		}
		for _, f := range s.facts {
			if g := s.canon(f.T, 0); g == u {
				return f.Pol, true
			}
		}
		return s.derive(u)
	}
	for _, f := range s.facts {
		if f.T.Op == t.Op && s.canon(f.T, 0) == t {
			return f.Pol, true
		}
	}
	return false, false
}

// rep is the representative of a value under the equalities of the path.
func (s *State) rep(t *Term) *Term {
	for i := 0; i < 8; i++ {
		r := t
		for _, f := range s.facts {
			if !f.Pol || f.T.Op != "eq" {
				continue
			}
			a, b := f.T.Args[0], f.T.Args[1]
			if b.isNil() {
				continue
			}
			if b.isConst() {
				if a == r {
					return b
				}
				continue
			}
			// the smaller id represents
			if a.id < b.id && b == r {
				r = a
			} else if b.id < a.id && a == r {
				r = b
			}
		}
		if r == t {
			return t
		}
		t = r
	}
	return t
}

// canon rewrites a term under the equalities of the path.
func (s *State) canon(t *Term, depth int) *Term {
	if t == nil || depth > 12 || t.Op == "const" {
		return t
	}
	if depth > 0 {
		if r := s.rep(t); r != t {
			return s.canon(r, depth+1)
		}
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = s.canon(a, depth+1)
		changed = changed || as[i] != a
	}
	if !changed {
		return t
	}
	return rebuild(t, as)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "eq":
		return mkEq(as[0], as[1])
	case "lt":
		return mkLt(as[0], as[1])
	case "not":
		return mkNot(as[0])
	case "len":
		return mkLen(as[0])
	case "concat":
		return mkConcat(as)
	}
	return mk(t.Op, t.Name, t.T, as...)
}

// same reports whether two values are known to be equal on the path.
func (s *State) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	ca, cb := s.canon(mk("box", "", nil, a), 0), s.canon(mk("box", "", nil, b), 0)
	if ca == cb {
		return true
	}
	return mkEq(ca.Args[0], cb.Args[0]) == tTrue
}

func (s *State) derive(t *Term) (bool, bool) {
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if b.isNil() {
			if s.nonNil(a) {
				return false, true
			}
			if s.isNil(a) {
				return true, true
			}
			return false, false
		}
		if a.Op == "slice" && b.isStr("") && isStringType(a.T) {
			lo, hi := a.Args[1], a.Args[2]
			if lo == nil {
				lo = mkInt(0)
			}
			if hi == nil {
				hi = mkLen(a.Args[0])
			}
			if v, ok := s.linear(lo, hi, true); ok {
				return v, true
			}
		}
		if v, ok := s.linear(a, b, true); ok {
			return v, true
		}
		if b.isConst() {
			if _, ok := b.intVal(); ok {
				lo, hi := s.bounds(a)
				n, _ := b.intVal()
				if n < lo || n > hi {
					return false, true
				}
				if lo == hi && n == lo {
					return true, true
				}
			}
			if c, ok := b.str(); ok && s.stringNe(a, c) {
				return false, true
			}
			for _, f := range s.facts {
				if f.Pol && f.T.Op == "eq" && f.T.Args[0] == a && f.T.Args[1].isConst() {
					return f.T.Args[1].Name == b.Name, true
				}
			}
		}
	case "lt":
		if v, ok := s.linear(t.Args[0], t.Args[1], false); ok {
			return v, true
		}
		alo, ahi := s.bounds(t.Args[0])
		blo, bhi := s.bounds(t.Args[1])
		if ahi < blo {
			return true, true
		}
		if alo >= bhi {
			return false, true
		}
		// not (b < a) and a != b would be needed for more
		if v, ok := s.fmap[mkLtRaw(t.Args[1], t.Args[0])]; ok && v {
			return false, true
		}
	case "typeis":
		x := t.Args[0]
		for _, f := range s.facts {
			if f.Pol && f.T.Op == "typeis" && f.T.Args[0] == x && f.T.Name != t.Name && !isIfaceName(f.T) && !isIfaceName(t) {
				return false, true
			}
		}
		if s.isNil(x) {
			return false, true
		}
	case "call":
		// a scope includes itself (C26 establishes what Includes computes)
		if t.Name == "("+modPath+".Scope).Includes" && len(t.Args) == 2 {
			if t.Args[0] == t.Args[1] {
				return true, true
			}
			if v, ok := s.fmap[mkEq(mkLen(t.Args[1]), mkInt(0))]; ok && v {
				return true, true
			}
		}
	}
	return false, false
}

// lin is a linear form: a sum of terms with coefficients, without constant.
type lin map[*Term]int64

func addLin(l lin, t *Term, f int64) (c int64, ok bool) {
	if n, isInt := t.intVal(); isInt {
		return n * f, true
	}
	switch {
	case t.Op == "add" && !isStringType(t.T):
		a, ok1 := addLin(l, t.Args[0], f)
		b, ok2 := addLin(l, t.Args[1], f)
		return a + b, ok1 && ok2
	case t.is("binop", "-"):
		a, ok1 := addLin(l, t.Args[0], f)
		b, ok2 := addLin(l, t.Args[1], -f)
		return a + b, ok1 && ok2
	}
	if t.isConst() {
		return 0, false
	}
	if l[t] += f; l[t] == 0 {
		delete(l, t)
	}
	return 0, true
}

// diff is b-a as a linear form and a constant.
func diff(a, b *Term) (lin, int64, bool) {
	l := lin{}
	x, ok1 := addLin(l, b, 1)
	y, ok2 := addLin(l, a, -1)
	return l, x + y, ok1 && ok2
}

// times compares two forms: 1 if equal, -1 if opposite, 0 otherwise.
func (l lin) times(m lin) int64 {
	if len(l) != len(m) {
		return 0
	}
	var f int64
	for t, c := range l {
		d := m[t]
		switch {
		case d == c && f >= 0:
			f = 1
		case d == -c && f <= 0:
			f = -1
		default:
			return 0
		}
	}
	return f
}

// linear decides a == b or a < b by the facts about the difference of a and b.
func (s *State) linear(a, b *Term, eq bool) (val, ok bool) {
	if a.T == nil && b.T == nil || !isIntTerm(a) || !isIntTerm(b) {
		return false, false
	}
	l, c, good := diff(a, b)
	if !good || len(l) < 2 || len(l) > 3 {
		return false, false
	}
	lo, hi := -inf, inf
	ne := map[int64]bool{}
	// an index is below the length
	for t, k := range l {
		if k == -1 && isIndexCall(t) && len(l) == 2 && l[mkLen(t.Args[0])] == 1 {
			lo = 1
		}
		if k == 1 && isIndexCall(t) && len(l) == 2 && l[mkLen(t.Args[0])] == -1 {
			hi = -1
		}
	}
	for _, f := range s.facts {
		if f.T.Op != "eq" && f.T.Op != "lt" || !isIntTerm(f.T.Args[0]) || !isIntTerm(f.T.Args[1]) {
			continue
		}
		m, d, good := diff(f.T.Args[0], f.T.Args[1])
		if !good {
			continue
		}
		k := l.times(m)
		if k == 0 {
			continue
		}
		// k*L + d is the difference of the fact
		flo, fhi := -inf, inf
		switch {
		case f.T.Op == "eq" && f.Pol:
			flo, fhi = -d, -d
		case f.T.Op == "eq":
			ne[-d*k] = true
			continue
		case f.Pol:
			flo = 1 - d
		default:
			fhi = -d
		}
		if k < 0 {
			flo, fhi = -fhi, -flo
		}
		lo, hi = max(lo, flo), min(hi, fhi)
	}
	for ne[lo] {
		lo++
	}
	for ne[hi] {
		hi--
	}
	lo, hi = lo+c, hi+c
	if eq {
		if lo > 0 || hi < 0 || ne[-c] {
			return false, true
		}
		return true, lo == 0 && hi == 0
	}
	if lo >= 1 {
		return true, true
	}
	return false, hi <= 0
}

func isIntTerm(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isIfaceName(t *Term) bool { return t.T != nil && types.IsInterface(t.T) }

func mkLtRaw(a, b *Term) *Term { return mk("lt", "", types.Typ[types.Bool], a, b) }

// stringNe reports whether a string is known to differ from a constant.
func (s *State) stringNe(a *Term, c string) bool {
	if a.Op == "concat" {
		min := 0
		for _, p := range a.Args {
			if q, ok := p.str(); ok {
				min += len(q)
			}
		}
		if min > len(c) {
			return true
		}
		if q, ok := a.Args[0].str(); ok && !strings.HasPrefix(c, q) {
			return true
		}
	}
	if lo, _ := s.lenBounds(a); lo > int64(len(c)) {
		return true
	}
	return s.minLen(a, 0) > len(c)
}

// minLen is a lower bound for the length of a string.
func (s *State) minLen(a *Term, depth int) int {
	if q, ok := a.str(); ok {
		return len(q)
	}
	if depth > 4 {
		return 0
	}
	n := 0
	switch {
	case a.Op == "concat":
		for _, p := range a.Args {
			n += s.minLen(p, depth+1)
		}
	case a.isCall("strings.Join") && a.Args[0].Op == "list":
		for i, p := range a.Args[0].Args {
			n += s.minLen(p, depth+1)
			if i > 0 {
				n += s.minLen(a.Args[1], depth+1)
			}
		}
	case a.isCall("(net/url.Values).Encode") && a.Args[0].Op == "mapval":
		for _, e := range a.Args[0].Args[1:] {
			if e.Name == "add" || e.Name == "set" && e.Args[1].Op == "list" && len(e.Args[1].Args) > 0 {
				n = 1
			}
			if e.Name != "add" && e.Name != "set" {
				return 0
			}
		}
	case a.isCall("strconv.Itoa"):
		n = 1
	default:
		if v, ok := s.fmap[mkEq(a, mkStr(""))]; ok && !v {
			n = 1
		}
	}
	return n
}

const inf = int64(1) << 40

// bounds derives an interval for an integer value.
func (s *State) bounds(t *Term) (lo, hi int64) {
	lo, hi = -inf, inf
	if n, ok := t.intVal(); ok {
		return n, n
	}
	switch t.Op {
	case "len":
		lo, hi = s.lenBounds(t.Args[0])
		return
	case "cap":
		lo = 0
	case "add":
		if c, ok := t.Args[1].intVal(); ok {
			l, h := s.bounds(t.Args[0])
			if l > -inf {
				lo = l + c
			}
			if h < inf {
				hi = h + c
			}
		}
	case "call":
		if isIndexCall(t) {
			lo = -1
		}
		if t.Name == "crypto/subtle.ConstantTimeCompare" {
			lo, hi = 0, 1
		}
	}
	if l, ok := s.lb[t]; ok && l > lo {
		lo = l
	}
	s.factBounds(t, &lo, &hi)
	return
}

func (s *State) factBounds(t *Term, lo, hi *int64) {
	for _, f := range s.facts {
		switch f.T.Op {
		case "eq":
			if f.T.Args[0] == t {
				if n, ok := f.T.Args[1].intVal(); ok {
					if f.Pol {
						*lo, *hi = n, n
					} else {
						if *lo == n {
							*lo = n + 1
						}
						if *hi == n {
							*hi = n - 1
						}
					}
				}
			}
		case "lt":
			a, b := f.T.Args[0], f.T.Args[1]
			if a == t {
				if n, ok := b.intVal(); ok {
					if f.Pol && n-1 < *hi {
						*hi = n - 1
					} else if !f.Pol && n > *lo {
						*lo = n
					}
				}
			}
			if b == t {
				if n, ok := a.intVal(); ok {
					if f.Pol && n+1 > *lo {
						*lo = n + 1
					} else if !f.Pol && n < *hi {
						*hi = n
					}
				}
			}
		}
	}
}

// lenBounds derives an interval for the length of a string, slice or map.
func (s *State) lenBounds(x *Term) (lo, hi int64) {
	lo, hi = 0, inf
	l := mkLen(x)
	if n, ok := l.intVal(); ok {
		return n, n
	}
	if x.Op == "concat" {
		for _, p := range x.Args {
			a, _ := s.lenBounds(p)
			lo += a
		}
	}
	if x.Op == "call" && (x.Name == "strings.Split") {
		if sep, ok := x.Args[1].str(); ok && sep != "" {
			lo = 1
		}
	}
	if x.Op == "call" && x.Name == "strings.SplitN" {
		if n, ok := x.Args[2].intVal(); ok && n > 0 {
			lo, hi = 1, n
		}
	}
	if x.Op == "append" {
		if r := x.Args[1]; r.Op == "list" {
			lo = int64(len(r.Args))
		}
	}
	for _, f := range s.facts {
		if f.T.Op == "eq" && f.T.Args[0] == x {
			if c, ok := f.T.Args[1].str(); ok {
				if f.Pol {
					return int64(len(c)), int64(len(c))
				}
				if c == "" && lo < 1 {
					lo = 1
				}
			}
			if f.T.Args[1].isNil() && f.Pol {
				return 0, 0
			}
		}
		if f.Pol && f.T.Op == "call" && (f.T.Name == "strings.HasPrefix" || f.T.Name == "strings.HasSuffix") && f.T.Args[0] == x {
			if c, ok := f.T.Args[1].str(); ok && int64(len(c)) > lo {
				lo = int64(len(c))
			}
		}
		// an index into x that is at least n proves len(x) > n
		if f.T.Op == "lt" && f.Pol && f.T.Args[1] == l {
			if n, _ := s.boundsNoFacts(f.T.Args[0]); n+1 > lo && n > -inf {
				lo = n + 1
			}
		}
	}
	s.factBounds(l, &lo, &hi)
	return
}

func (s *State) boundsNoFacts(t *Term) (int64, int64) {
	if n, ok := t.intVal(); ok {
		return n, n
	}
	if n, ok := s.lb[t]; ok {
		return n, inf
	}
	if t.Op == "add" {
		if c, ok := t.Args[1].intVal(); ok {
			if n, ok := s.lb[t.Args[0]]; ok {
				return n + c, inf
			}
		}
	}
	return -inf, inf
}

func (s *State) isNil(t *Term) bool {
	if t.isNil() {
		return true
	}
	v, ok := s.fmap[mk("eq", "", types.Typ[types.Bool], t, tNil)]
	return ok && v
}

// errorOf finds the error or flag component that guards component 0 of a call.
func guardOf(call *Term) (idx int, isErr bool, ok bool) {
	tup, isT := call.T.(*types.Tuple)
	if !isT || tup.Len() < 2 {
		return 0, false, false
	}
	last := tup.At(tup.Len() - 1).Type()
	if types.Identical(last, types.Universe.Lookup("error").Type()) {
		return tup.Len() - 1, true, true
	}
	if b, k := last.Underlying().(*types.Basic); k && b.Info()&types.IsBoolean != 0 {
		return tup.Len() - 1, false, true
	}
	return 0, false, false
}

// succeeded reports whether the call's error is known to be nil (flag true).
func (s *State) succeeded(call *Term) bool {
	i, isErr, ok := guardOf(call)
	if !ok {
		return true
	}
	tup := call.T.(*types.Tuple)
	g := mkRet(call, i, tup.At(i).Type())
	if isErr {
		v, ok := s.fmap[mk("eq", "", types.Typ[types.Bool], g, tNil)]
		return ok && v
	}
	v, ok := s.fmap[g]
	return ok && v
}

// nonNil reports whether a pointer-like value is known not to be nil.
func (s *State) nonNil(t *Term) bool {
	switch t.Op {
	case "hash", "mac", "filled", "zeros", "alloc", "closure", "func", "iface", "mkmap", "mkslice", "fa", "ia", "global", "append", "ptr", "slice", "list":
		return true
	case "param":
		if !mayBeNil(t.T) {
			return isPointerLike(t.T)
		}
	case "conv":
		return true
	case "call":
		switch callName(t) {
		case "errors.New", "fmt.Errorf":
			return true
		}
		if knownNonNil[callName(t)] {
			return true
		}
	case "ret":
		c := t.Args[0]
		if c.Op == "call" && t.Name == "0" {
			if _, ok := guardIdx(c); ok && s.succeeded(c) && isPointerLike(t.T) {
				return true
			}
		}
	case "as":
		return true
	case "lookup":
		// the stores never hold nil entries (see assumptions); presence suffices
		v, ok := s.fmap[mk("haskey", t.Name, types.Typ[types.Bool], t.Args...)]
		if ok && v {
			return true
		}
	case "nextval", "nextkey":
		return true
	case "gload":
		return !strings.HasPrefix(t.Name, modPath)
	case "sel":
		// unexported fields of the receiver are set by the constructors
		if b := t.Args[0]; b.Op == "param" && modType(b.T) && t.Name != "" && t.Name[0] >= 'a' && t.Name[0] <= 'z' {
			return true
		}
		// documented non-nil fields of requests and replies
		switch fieldName(t) {
		case "URL", "Header", "Body", "Request":
			if p := derefType(t.Args[0].T); p != nil && strings.HasPrefix(types.TypeString(p, nil), "net/http.") {
				return true
			}
		}
	}
	v, ok := s.fmap[mk("eq", "", types.Typ[types.Bool], t, tNil)]
	return ok && !v
}

func guardIdx(c *Term) (int, bool) {
	i, _, ok := guardOf(c)
	return i, ok
}

// mayBeNil tells types whose nil values are as good as empty ones.
func mayBeNil(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func isPointerLike(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// modType reports whether a type is (a pointer to) a type of the module.
func modType(t types.Type) bool {
	if d := derefType(t); d != nil {
		t = d
	}
	n, ok := t.(*types.Named)
	return ok && modPkg(n.Obj().Pkg())
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// isEmptySlice reports a slice that is known to hold nothing and have no memory.
func isEmptySlice(x *Term) bool {
	return x.isNil() || x.Op == "mkslice" && x.Args[0].isInt(0) || x.Op == "list" && len(x.Args) == 0 && x.Name == ""
}
