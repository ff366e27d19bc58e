package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is one class of executions of an entry point: the branch conditions
// taken, the effects caused and how it ended.
type Trace struct {
	Events  []*Event
	Facts   []Fact
	End     string // return, panic
	Results []*Term
	St      *State
}

// Interp enumerates the traces of an entry point.
type Interp struct {
	prog    *ssa.Program
	fset    *token.FileSet
	root    string
	atomic  map[string]string // function -> pure, fresh
	reverse bool              // iterate over known maps in the opposite order
	joins   bool              // the text of a scope is known to join its names (C26)
	base    *State            // state after package initialisation
	ginit   map[*Term]bool    // objects created by package initialisation

	traces  []*Trace
	steps   int
	frames  int
	maxStep int
	loops   map[*ssa.Function]*loopForest
	fns     map[string]*ssa.Function
	funcSet map[*ssa.Function]bool // functions analysed
	nInstr  int
	seenIns map[ssa.Instruction]bool
	params  []*Term
	over    bool
}

type kont func(st *State, res []*Term)

type frame struct {
	id     int
	fn     *ssa.Function
	caller *frame
	k      kont
	depth  int
	chain  string
	coll   map[*loop]*collector
	free   []*Term
	done   bool
}

type collector struct {
	backs []*State
	bfrom []*ssa.BasicBlock
	exits []exitRec
}

type exitRec struct {
	from, to *ssa.BasicBlock
	st       *State
}

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loop
	all      []*loop
}

func findLoops(fn *ssa.Function) *loopForest {
	lf := &loopForest{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, n := range fn.Blocks {
		for _, h := range n.Succs {
			if !h.Dominates(n) {
				continue
			}
			l := lf.byHeader[h]
			if l == nil {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				lf.byHeader[h] = l
				lf.all = append(lf.all, l)
			}
			work := []*ssa.BasicBlock{n}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[b] {
					continue
				}
				l.body[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	return lf
}

func (in *Interp) loopsOf(fn *ssa.Function) *loopForest {
	if lf := in.loops[fn]; lf != nil {
		return lf
	}
	lf := findLoops(fn)
	in.loops[fn] = lf
	return lf
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (in *Interp) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(in.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func inModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return modPkg(f.Pkg.Pkg)
	}
	for p := f.Parent(); p != nil; p = p.Parent() {
		return inModule(p)
	}
	if o := f.Object(); o != nil {
		return modPkg(o.Pkg())
	}
	// wrappers (thunks, bounds) without package
	return f.Synthetic != ""
}

func modPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// explore runs an entry point on the given parameters and returns its traces.
func (in *Interp) explore(fn *ssa.Function, params []*Term) []*Trace {
	in.traces = nil
	in.steps = 0
	in.over = false
	st := in.base.clone()
	in.params = params
	in.call(nil, st, fn, params, nil, "", token.NoPos, func(st *State, res []*Term) {
		in.record(st, "return", res)
	})
	return in.traces
}

// compose runs a method on the value that a constructor returns.
func (in *Interp) compose(ctor, fn *ssa.Function, cargs, args []*Term) []*Trace {
	in.traces = nil
	in.steps = 0
	in.over = false
	in.params = append(append([]*Term(nil), cargs...), args...)
	in.call(nil, in.base.clone(), ctor, cargs, nil, "", token.NoPos, func(st *State, made []*Term) {
		in.emit(st, nil, &Event{Kind: "constructed", Pos: fn.Pos(), Args: []*Term{made[0], st.snapshot(made[0], 0)}})
		in.call(nil, st, fn, append([]*Term{made[0]}, args...), nil, "", token.NoPos, func(st *State, res []*Term) {
			in.record(st, "return", res)
		})
	})
	return in.traces
}

func (in *Interp) record(st *State, end string, res []*Term) {
	if len(in.traces) > 20000 {
		in.over = true
		return
	}
	for i, r := range res {
		// a result that is known to be nil is as good as the literal
		if r != nil && (r.Op == "ret" || r.Op == "call") && !r.isNil() && st.isNil(r) {
			res = append([]*Term(nil), res...)
			res[i] = tNil
		}
	}
	in.traces = append(in.traces, &Trace{Events: st.events, Facts: st.facts, End: end, Results: res, St: st})
}

// paramsOf makes a symbolic parameter per parameter of the function.
func paramsOf(fn *ssa.Function) []*Term {
	var ps []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "_" || n == "" {
			n = "p" + strconv.Itoa(i)
		}
		ps = append(ps, mk("param", n+":"+types.TypeString(p.Type(), nil), p.Type()))
	}
	return ps
}

func (in *Interp) emit(st *State, fr *frame, e *Event) {
	if fr != nil {
		e.Fn = fr.fn
		e.Chain = fr.chain
	}
	e.Async = st.async
	if st.defer_ > 0 {
		e.Deferred = true
		e.DeferAt = st.dat
	}
	st.events = append(st.events, e)
}

func (in *Interp) undecided(st *State, fr *frame, pos token.Pos, why string) {
	in.emit(st, fr, &Event{Kind: "undecided", Name: why, Pos: pos})
}

// obligation records that an operation may panic unless ok.
func (in *Interp) obligation(st *State, fr *frame, pos token.Pos, ok bool, what string, args ...*Term) {
	k := "safe"
	if !ok {
		k = "maypanic"
	}
	in.emit(st, fr, &Event{Kind: k, Name: what, Args: args, Pos: pos})
}

// call executes a module function.
func (in *Interp) call(caller *frame, st *State, fn *ssa.Function, args, free []*Term, how string, pos token.Pos, k kont) {
	if in.over {
		return
	}
	depth := 0
	chain := fnShort(fn)
	if caller != nil {
		depth = caller.depth + 1
		chain = caller.chain + " > " + chain
		n := 0
		for f := caller; f != nil; f = f.caller {
			if f.fn == fn {
				n++
			}
		}
		if n >= 2 {
			in.undecided(st, caller, pos, "recursion through "+fnShort(fn))
			k(st, opaqueResults(fn.Signature, "rec:"+fn.String()+"@"+strconv.Itoa(st.next())))
			return
		}
	}
	if len(fn.Blocks) == 0 {
		in.undecided(st, caller, pos, "no body for "+fnShort(fn))
		k(st, opaqueResults(fn.Signature, "ext:"+fn.String()+"@"+strconv.Itoa(st.next())))
		return
	}
	in.funcSet[fn] = true
	in.frames++
	fr := &frame{id: in.frames, fn: fn, caller: caller, k: k, depth: depth, chain: chain, coll: map[*loop]*collector{}, free: free}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			env[v] = free[i]
		}
	}
	st.env[fr.id] = env
	in.enter(fr, nil, fn.Blocks[0], st)
}

func opaqueResults(sig *types.Signature, name string) []*Term {
	var r []*Term
	c := mk("call", name, sig.Results())
	if sig.Results().Len() == 1 {
		c = mk("call", name, sig.Results().At(0).Type())
		return []*Term{c}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, mkRet(c, i, sig.Results().At(i).Type()))
	}
	return r
}

func fnShort(f *ssa.Function) string {
	return strings.ReplaceAll(shortType(fnName(f)), "oauth2.", "")
}

func (in *Interp) ret(fr *frame, st *State, res []*Term) {
	delete(st.env, fr.id)
	delete(st.defers, fr.id)
	fr.k(st, res)
}

// enter transfers control along an edge.
func (in *Interp) enter(fr *frame, from, to *ssa.BasicBlock, st *State) {
	if in.over {
		return
	}
	in.steps++
	if in.steps > in.maxStep {
		in.over = true
		return
	}
	lf := in.loopsOf(fr.fn)
	// leaving loops that are being summarised (innermost first)
	if from != nil {
		for _, l := range lf.all {
			if c := fr.coll[l]; c != nil && l.body[from] && !l.body[to] && innermost(lf, fr, l, from) {
				c.exits = append(c.exits, exitRec{from, to, st})
				return
			}
		}
	}
	l := lf.byHeader[to]
	if l == nil {
		in.evalPhis(fr, from, to, st)
		in.run(fr, to, st)
		return
	}
	if from != nil && l.body[from] {
		if c := fr.coll[l]; c != nil {
			in.evalPhis(fr, from, to, st)
			c.backs = append(c.backs, st)
			c.bfrom = append(c.bfrom, from)
			return
		}
	}
	// entry (or back edge while unrolling)
	key := strconv.Itoa(fr.id) + "/" + strconv.Itoa(to.Index)
	if from != nil && !l.body[from] || from == nil {
		st.unroll[key] = 0
	}
	in.evalPhis(fr, from, to, st)
	// a known number of iterations is run one by one
	if ok, sure := in.peek(fr, to, st); ok && sure && st.unroll[key] < 64 {
		st.unroll[key]++
		in.run(fr, to, st)
		return
	}
	in.summarise(fr, l, st)
}

// innermost reports whether l is the innermost summarised loop left by the edge.
func innermost(lf *loopForest, fr *frame, l *loop, from *ssa.BasicBlock) bool {
	for _, m := range lf.all {
		if m != l && fr.coll[m] != nil && m.body[from] && l.body[m.header] && m.header != l.header {
			return false
		}
	}
	return true
}

func (in *Interp) evalPhis(fr *frame, from, to *ssa.BasicBlock, st *State) {
	if from == nil {
		return
	}
	var vs []*Term
	var ps []*ssa.Phi
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for n, b := range to.Preds {
			if b == from {
				vs = append(vs, in.val(fr, st, p.Edges[n]))
				ps = append(ps, p)
				break
			}
		}
	}
	for i, p := range ps {
		st.env[fr.id][p] = vs[i]
	}
}

// peek reports whether the loop condition is already settled.
func (in *Interp) peek(fr *frame, h *ssa.BasicBlock, st *State) (settled, sure bool) {
	c := st.clone()
	fixed := false
	for _, i := range h.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Next:
			it := c.iters[in.val(fr, c, x.Iter)]
			if it == nil {
				return false, false
			}
			c.env[fr.id][x] = in.next(fr, c, x)
			fixed = true
		case *ssa.Extract:
			c.env[fr.id][x] = mkRet(in.val(fr, c, x.Tuple), x.Index, x.Type())
		case *ssa.BinOp:
			p, q := in.val(fr, c, x.X), in.val(fr, c, x.Y)
			c.env[fr.id][x] = in.binop(x.Op, p, q, x.Type())
			plo, phi := c.bounds(p)
			qlo, qhi := c.bounds(q)
			fixed = plo == phi && qlo == qhi || p.isConst() && q.isConst()
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false, false
			}
			c.env[fr.id][x] = c.lenOf(c.resolve(in.val(fr, c, x.Call.Args[0])))
		case *ssa.UnOp:
			if x.Op == token.MUL {
				c.env[fr.id][x] = c.load(in.val(fr, c, x.X), x.Type())
			} else {
				return false, false
			}
		case *ssa.FieldAddr:
			c.env[fr.id][x] = in.fieldAddr(fr, c, x)
		case *ssa.If:
			cond := in.val(fr, c, x.Cond)
			v, ok := c.eval(cond)
			// a fixed number of iterations
			sure := !v || fixed
			return ok, ok && sure
		default:
			return false, false
		}
	}
	return false, false
}

// summarise replaces the iterations of a loop by a generic one.
func (in *Interp) summarise(fr *frame, l *loop, st0 *State) {
	inst := strconv.Itoa(st0.next())
	lid := fmt.Sprintf("%s.%d#%s", fr.fn.Name(), l.header.Index, inst)
	// deterministic generic values
	var phis []*ssa.Phi
	init := map[*ssa.Phi]*Term{}
	for _, i := range l.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		init[p] = st0.env[fr.id][p]
	}
	lv := func(p *ssa.Phi) *Term {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		return mk("loopvar", lid+"."+n, p.Type())
	}
	invariant := map[*ssa.Phi]bool{}
	shrink := map[*ssa.Phi]int{} // lists whose first element is dropped: 1, not: -1
	from := func(p *ssa.Phi) *Term {
		return mk("loopvar", lv(p).Name+".from", types.Typ[types.Int])
	}
	lower := map[*ssa.Phi]int64{}
	upper := map[*ssa.Phi]bool{}
	hmem := map[*Term]bool{}
	hver := map[string]bool{}
	hwr := map[*Term]bool{}
	hmaps := map[*Term][]mapEntry{}
	hunknown := map[*Term]bool{}
	var c *collector
	var start *State
	var saved = len(in.traces)
	stable := false
	var cands []*candidate
	for round := 0; round < 12 && !stable; round++ {
		in.traces = in.traces[:saved]
		st := st0.clone()
		for _, k := range cands {
			st.rel = append(st.rel[:len(st.rel):len(st.rel)], k.rel(lv))
		}
		for _, p := range phis {
			if invariant[p] {
				continue
			}
			v := lv(p)
			if shrink[p] > 0 {
				i := from(p)
				st.lb[i] = 0
				st.rel = append(st.rel[:len(st.rel):len(st.rel)], rel{a: i, b: mkLen(init[p])})
				st.env[fr.id][p] = mk("rest", "", p.Type(), init[p], i)
				continue
			}
			st.env[fr.id][p] = v
			if n, ok := lower[p]; ok {
				st.lb[v] = n
			}
			if upper[p] {
				st.ub[v] = init[p]
			}
		}
		for a := range hmem {
			st.mem[a] = mk("loopvar", lid+".mem"+strconv.Itoa(a.id), derefType(a.T))
		}
		for k := range hver {
			st.ver[k] = st.n + 1
		}
		for m := range hwr {
			w := st.writes[m]
			st.writes[m] = append(w[:len(w):len(w)], mapEntry{Mode: "unknown"})
		}
		if len(hver) > 0 {
			st.next()
		}
		for m, es := range hmaps {
			o := st.maps[m]
			n := &MapObj{Base: o.Base, Unknown: o.Unknown || hunknown[m]}
			n.Ops = append(append([]mapEntry{}, o.Ops...), es...)
			st.maps[m] = n
		}
		start = st.clone()
		c = &collector{}
		prev := fr.coll[l]
		fr.coll[l] = c
		in.run(fr, l.header, st)
		fr.coll[l] = prev
		if in.over {
			return
		}
		// what did the iterations change?
		stable = true
		for _, p := range phis {
			if invariant[p] {
				for _, b := range c.backs {
					if b.env[fr.id][p] != init[p] {
						invariant[p] = false
						stable = false
					}
				}
				continue
			}
			v := lv(p)
			if shrink[p] >= 0 && isListType(p.Type()) && init[p] != nil && (init[p].Op == "param" || init[p].Op == "sel" || init[p].Op == "call" || init[p].Op == "ret") && len(c.backs) > 0 {
				was := shrink[p]
				next := mk("slice", "", p.Type(), v, mkInt(1), nil)
				if was > 0 {
					i := from(p)
					next = mk("rest", "", p.Type(), init[p], mkAdd(i, mkInt(1), i.T))
				}
				shrink[p] = 1
				for _, b := range c.backs {
					if b.env[fr.id][p] != next {
						shrink[p] = -1
					}
				}
				if shrink[p] != was {
					stable = false
				}
				if shrink[p] > 0 || was > 0 {
					continue
				}
			}
			stable = stable && (round > 0 || !isIntType(p.Type()))
			inv, low, up := round == 0, true, true
			for _, b := range c.backs {
				x := b.env[fr.id][p]
				if x != v && x != init[p] {
					inv = false
				}
				d, ok := int64(0), x == v
				if x.Op == "add" && x.Args[0] == v {
					d, ok = 0, false
					if n, k := x.Args[1].intVal(); k {
						d, ok = n, true
					}
				}
				if !ok || d < 0 {
					low = false
				}
				if !ok || d > 0 {
					up = false
				}
			}
			if inv {
				invariant[p] = true
				stable = false
				continue
			}
			if isIntType(p.Type()) {
				if _, had := lower[p]; low && !had {
					if n, _ := st0.bounds(init[p]); n > -inf {
						lower[p] = n
						stable = false
					}
				}
				if up && !upper[p] {
					upper[p] = true
					stable = false
				}
				if _, had := lower[p]; had && !low {
					delete(lower, p)
					stable = false
				}
				if upper[p] && !up {
					delete(upper, p)
					stable = false
				}
			}
		}
		if round == 1 {
			// relations between the variables
			cands = in.candidates(fr, l, st0, phis, invariant, init, in.textKey(fr, l, st0))
			stable = stable && len(cands) == 0
		} else if n := len(cands); n > 0 {
			var keep []*candidate
			for _, k := range cands {
				ok := !invariant[k.p] && (k.q == nil || !invariant[k.q])
				for _, b := range c.backs {
					ok = ok && k.kept(b, b.env[fr.id])
				}
				if ok {
					keep = append(keep, k)
				}
			}
			cands = keep
			stable = stable && len(cands) == n
		}
		for _, b := range c.backs {
			for a, v := range b.mem {
				if start.mem[a] == v || hmem[a] {
					continue
				}
				r := root(a)
				if b.fresh[r] && !start.fresh[r] {
					continue // object of this iteration only
				}
				hmem[a] = true
				stable = false
			}
			for a := range start.mem {
				if b.mem[a] == nil && !hmem[a] {
					hmem[a] = true
					stable = false
				}
			}
			for m, w := range b.writes {
				if len(w) != len(start.writes[m]) && !hwr[m] {
					hwr[m] = true
					stable = false
				}
			}
			for k, v := range b.ver {
				if start.ver[k] != v && !hver[k] {
					hver[k] = true
					stable = false
				}
			}
			for m, o := range b.maps {
				s := start.maps[m]
				if s == nil || s == o {
					continue
				}
				have := map[string]bool{}
				key := func(e mapEntry) string {
					return strings.TrimPrefix(e.Mode, "loop") + "|" + termID(e.Key) + "|" + termID(e.Val)
				}
				for _, e := range s.Ops {
					have[key(e)] = true
				}
				if o.Unknown && !s.Unknown {
					hunknown[m] = true
					hmaps[m] = append([]mapEntry{}, hmaps[m]...)
					stable = false
				}
				for _, e := range o.Ops {
					if e.Val != nil {
						e.Val = b.resolve(e.Val)
					}
					if have[key(e)] {
						continue
					}
					have[key(e)] = true
					if !strings.HasPrefix(e.Mode, "loop") {
						e.Mode = "loop" + e.Mode
					}
					hmaps[m] = append(hmaps[m], e)
					if len(hmaps[m]) > 16 {
						hunknown[m] = true
					}
					stable = false
				}
			}
			if len(b.defers[fr.id]) != len(st0.defers[fr.id]) {
				in.undecided(b, fr, l.header.Instrs[0].Pos(), "defer inside a loop")
			}
		}
	}
	if !stable {
		for _, e := range c.exits {
			in.undecided(e.st, fr, fr.fn.Pos(), "loop summary of "+fr.fn.Name()+" did not stabilise")
		}
	}
	info := &LoopInfo{Inst: lid, Fn: fr.fn, Pos: loopPos(l)}
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		_ = iff
		for _, i := range l.header.Instrs {
			if n, ok := i.(*ssa.Next); ok {
				if it := in.val(fr, st0, n.Iter); it.Op == "range" {
					info.Over = it.Args[0]
				}
			}
		}
	}
	for _, p := range phis {
		if invariant[p] {
			continue
		}
		if shrink[p] > 0 {
			info.Init = append(info.Init, PhiInit{from(p), mkInt(0)})
			continue
		}
		info.Init = append(info.Init, PhiInit{lv(p), init[p]})
	}
	for a := range hmem {
		before := st0.mem[a]
		if before == nil && root(a) == a && st0.fresh[a] {
			before = st0.load(a, derefType(a.T))
		}
		info.Mem = append(info.Mem, MemInit{start.mem[a], a, before})
	}
	for _, b := range c.backs {
		lb := LoopBack{Facts: b.facts[len(st0.facts):], Events: b.events[len(st0.events):], Phis: map[*Term]*Term{}, St: b}
		for _, p := range phis {
			switch {
			case shrink[p] > 0:
				lb.Phis[from(p)] = b.env[fr.id][p].Args[1]
			case !invariant[p]:
				lb.Phis[lv(p)] = b.env[fr.id][p]
			}
		}
		lb.Same = info.Over == nil && unchanged(start, b, lb)
		for _, p := range phis {
			if !invariant[p] && (shrink[p] > 0 || lb.Phis[lv(p)] != lv(p)) {
				lb.Same = false
			}
		}
		info.Backs = append(info.Backs, lb)
	}
	if len(c.exits) == 0 && len(c.backs) > 0 && !in.over {
		// every iteration is followed by another one
		st := st0.clone()
		in.emit(st, fr, &Event{Kind: "loop", Loop: info, Pos: info.Pos})
		in.record(st, "diverge", nil)
	}
	var found map[*Term]*Term
	if len(hmem) == 0 && len(hmaps) == 0 && len(hwr) == 0 {
		found = in.searched(fr, phis, invariant, lv, init, c, start, l, info.Over)
	}
exits:
	for _, e := range c.exits {
		for v, to := range found {
			if !e.st.replace(fr, v, to, len(st0.facts)) {
				continue exits
			}
		}
		inf := *info
		inf.Exhausted = e.from == l.header
		n := len(st0.events)
		ev := &Event{Kind: "loop", Loop: &inf, Pos: info.Pos, Fn: fr.fn, Chain: fr.chain, Async: e.st.async}
		if st0.defer_ > 0 {
			ev.Deferred, ev.DeferAt = true, st0.dat
		}
		evs := append([]*Event{}, e.st.events[:n]...)
		evs = append(evs, ev)
		evs = append(evs, e.st.events[n:]...)
		e.st.events = evs
		fs := append([]Fact{}, e.st.facts...)
		for i := len(st0.facts); i < len(fs); i++ {
			fs[i].At++
		}
		e.st.facts = fs
		in.enter(fr, e.from, e.to, e.st)
	}
}

// textKey is the key of an iteration over a text.
func (in *Interp) textKey(fr *frame, l *loop, st *State) *Term {
	for _, i := range l.header.Instrs {
		if n, ok := i.(*ssa.Next); ok && n.IsString {
			if it := in.val(fr, st, n.Iter); it.Op == "range" {
				return mk("nextkey", it.Name, n.Type().(*types.Tuple).At(1).Type(), it.Args[0])
			}
		}
	}
	return nil
}

// before tells whether a numbered value was made when n values had been made.
func before(name string, n int) bool {
	k, err := strconv.Atoi(name[strings.LastIndexAny(name, "@#")+1:])
	return err == nil && k <= n
}

// unchanged tells whether an iteration leaves everything as it was and
// depends on nothing that may be different the next time.
func unchanged(start, b *State, lb LoopBack) bool {
	for _, e := range lb.Events {
		switch e.Kind {
		case "load", "safe", "mapread":
		default:
			return false
		}
	}
	for _, f := range lb.Facts {
		if f.T.contains(func(t *Term) bool {
			return strings.Contains(t.Name, "@") && !before(t.Name, start.n) || t.Op == "unknown" || t.Op == "havoc"
		}) {
			return false
		}
	}
	for a, v := range b.mem {
		if start.mem[a] != v && !(b.fresh[root(a)] && !start.fresh[root(a)]) {
			return false
		}
	}
	for k, v := range b.ver {
		if start.ver[k] != v {
			return false
		}
	}
	for m, w := range b.writes {
		if len(w) != len(start.writes[m]) {
			return false
		}
	}
	for m, o := range b.maps {
		if s := start.maps[m]; s != nil && s != o {
			return false
		}
	}
	return true
}

func termID(t *Term) string {
	if t == nil {
		return "_"
	}
	return strconv.Itoa(t.id)
}

func loopPos(l *loop) token.Pos {
	var best token.Pos
	for b := range l.body {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
				best = p
			}
		}
	}
	return best
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// val evaluates an operand.
func (in *Interp) val(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		n := x.String()
		return mk("global", n, x.Type())
	case *ssa.Function:
		in.fns[x.String()] = x
		return mk("func", x.String(), x.Type())
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil)
	}
	if t := st.env[fr.id][v]; t != nil {
		return t
	}
	return mk("undef", fr.fn.String()+"."+v.Name(), v.Type())
}

// run executes a block.
func (in *Interp) run(fr *frame, b *ssa.BasicBlock, st *State) {
	in.runFrom(fr, b, 0, st)
}

func (in *Interp) set(fr *frame, st *State, v ssa.Value, t *Term) { st.env[fr.id][v] = t }

func (in *Interp) runFrom(fr *frame, b *ssa.BasicBlock, idx int, st *State) {
	for i := idx; i < len(b.Instrs); i++ {
		if in.over {
			return
		}
		ins := b.Instrs[i]
		if !in.seenIns[ins] {
			in.seenIns[ins] = true
			in.nInstr++
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			a := mk("alloc", in.posStr(x.Pos())+"/"+x.Comment+"/"+x.Name()+"#"+strconv.Itoa(st.next()), x.Type())
			st.fresh[a] = true
			in.set(fr, st, x, a)
		case *ssa.BinOp:
			a, c := in.val(fr, st, x.X), in.val(fr, st, x.Y)
			if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
				lo, hi := st.bounds(c)
				in.obligation(st, fr, x.Pos(), lo > 0 || hi < 0, "division by zero", c)
			}
			in.set(fr, st, x, in.binop(x.Op, a, c, x.Type()))
		case *ssa.UnOp:
			a := in.val(fr, st, x.X)
			switch x.Op {
			case token.MUL:
				if root(a).Op != "global" && !st.fresh[root(a)] {
					in.obligation(st, fr, x.Pos(), st.nonNil(a), "nil dereference", a)
				}
				in.loadEvent(fr, st, a, x.Pos())
				in.set(fr, st, x, st.load(a, x.Type()))
			case token.NOT:
				in.set(fr, st, x, mkNot(a))
			case token.ARROW:
				in.undecided(st, fr, x.Pos(), "channel receive")
				in.set(fr, st, x, mk("recv", strconv.Itoa(st.next()), x.Type(), a))
			case token.SUB:
				if n, ok := a.intVal(); ok {
					in.set(fr, st, x, mkInt(-n))
				} else {
					in.set(fr, st, x, mk("neg", "", x.Type(), a))
				}
			default:
				in.set(fr, st, x, mk("unop", x.Op.String(), x.Type(), a))
			}
		case *ssa.ChangeType:
			in.set(fr, st, x, in.val(fr, st, x.X))
		case *ssa.ChangeInterface:
			in.set(fr, st, x, in.val(fr, st, x.X))
		case *ssa.Convert:
			in.set(fr, st, x, in.convert(st, in.val(fr, st, x.X), x.X.Type(), x.Type()))
		case *ssa.MultiConvert:
			in.set(fr, st, x, in.convert(st, in.val(fr, st, x.X), x.X.Type(), x.Type()))
		case *ssa.MakeInterface:
			in.set(fr, st, x, mk("iface", types.TypeString(x.X.Type(), nil), x.Type(), in.val(fr, st, x.X)))
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			in.fns[f.String()] = f
			var bs []*Term
			for _, bnd := range x.Bindings {
				bs = append(bs, in.val(fr, st, bnd))
			}
			in.set(fr, st, x, mk("closure", f.String(), x.Type(), bs...))
		case *ssa.MakeMap:
			m := mk("mkmap", "map@"+in.posStr(x.Pos())+"#"+strconv.Itoa(st.next()), x.Type())
			st.maps[m] = &MapObj{}
			in.set(fr, st, x, m)
		case *ssa.MakeChan:
			in.set(fr, st, x, mk("mkchan", strconv.Itoa(st.next()), x.Type()))
		case *ssa.MakeSlice:
			n := in.val(fr, st, x.Len)
			lo, _ := st.bounds(n)
			in.obligation(st, fr, x.Pos(), lo >= 0 || lengthParam(n), "makeslice length", n)
			in.set(fr, st, x, mk("mkslice", in.posStr(x.Pos())+"#"+strconv.Itoa(st.next()), x.Type(), n))
		case *ssa.FieldAddr:
			in.checkPtr(fr, st, x.X, x.Pos())
			in.set(fr, st, x, in.fieldAddr(fr, st, x))
		case *ssa.Field:
			stt := x.X.Type().Underlying().(*types.Struct)
			in.set(fr, st, x, mkSel(in.val(fr, st, x.X), stt.Field(x.Field).Name(), x.Type()))
		case *ssa.IndexAddr:
			base, ix := st.resolveKeep(in.val(fr, st, x.X)), in.val(fr, st, x.Index)
			if base.Op == "rest" {
				base, ix = base.Args[0], mkAdd(base.Args[1], ix, ix.T)
			}
			in.checkIndex(fr, st, base, ix, x.X.Type(), x.Pos())
			a := base
			if base.Op == "slice" {
				if lo, ok := base.Args[1].intVal(); ok {
					if n, ok := ix.intVal(); ok {
						a, ix = base.Args[0], mkInt(lo+n)
					}
				}
			}
			in.set(fr, st, x, mk("ia", "", x.Type(), a, ix))
		case *ssa.Index:
			base, ix := in.val(fr, st, x.X), in.val(fr, st, x.Index)
			in.checkIndex(fr, st, base, ix, x.X.Type(), x.Pos())
			in.set(fr, st, x, in.index(st, base, ix, x.Type()))
		case *ssa.Slice:
			in.set(fr, st, x, in.slice(fr, st, x))
		case *ssa.SliceToArrayPointer:
			in.obligation(st, fr, x.Pos(), false, "slice to array pointer conversion", in.val(fr, st, x.X))
			in.set(fr, st, x, mk("conv", types.TypeString(x.Type(), nil), x.Type(), in.val(fr, st, x.X)))
		case *ssa.Range:
			m := in.val(fr, st, x.X)
			rt := mk("range", in.posStr(x.Pos())+"#"+strconv.Itoa(st.next()), nil, m)
			if o := st.maps[m]; o != nil && o.concrete() {
				it := &iter{}
				for _, e := range o.Ops {
					it.keys = append(it.keys, e.Key)
					it.vals = append(it.vals, e.Val)
				}
				st.iters[rt] = it
				if len(it.keys) > 1 {
					if in.reverse {
						slices.Reverse(it.keys)
						slices.Reverse(it.vals)
					}
					in.emit(st, fr, &Event{Kind: "maprange", Args: []*Term{m}, Pos: x.Pos()})
				}
			} else if m.isNil() {
				st.iters[rt] = &iter{}
			} else if o == nil {
				if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
					in.emit(st, fr, &Event{Kind: "mapread", Args: []*Term{m}, Pos: x.Pos()})
				}
			}
			in.set(fr, st, x, rt)
		case *ssa.Next:
			in.set(fr, st, x, in.next(fr, st, x))
		case *ssa.Extract:
			in.set(fr, st, x, mkRet(in.val(fr, st, x.Tuple), x.Index, x.Type()))
		case *ssa.Lookup:
			next := i + 1
			in.lookup(fr, st, x, func(st *State, v *Term) {
				in.set(fr, st, x, v)
				in.runFrom(fr, b, next, st)
			})
			return
		case *ssa.MapUpdate:
			in.mapUpdate(fr, st, in.val(fr, st, x.Map), in.val(fr, st, x.Key), in.val(fr, st, x.Value), x.Pos())
		case *ssa.TypeAssert:
			next := i + 1
			in.typeAssert(fr, st, x, func(st *State, v *Term) {
				in.set(fr, st, x, v)
				in.runFrom(fr, b, next, st)
			})
			return
		case *ssa.Store:
			a := in.val(fr, st, x.Addr)
			in.store(fr, st, a, in.val(fr, st, x.Val), x.Pos())
		case *ssa.Send:
			in.undecided(st, fr, x.Pos(), "channel send")
		case *ssa.Select:
			in.undecided(st, fr, x.Pos(), "select")
			in.set(fr, st, x, mk("select", strconv.Itoa(st.next()), x.Type()))
		case *ssa.Defer:
			var d deferred
			d.call = &x.Call
			d.fn = in.val(fr, st, x.Call.Value)
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.val(fr, st, a))
			}
			d.pos = x.Pos()
			d.at = len(st.events)
			in.emit(st, fr, &Event{Kind: "deferpush", Name: in.calleeName(fr, st, &x.Call, d.fn), Args: d.args, Pos: x.Pos()})
			ds := st.defers[fr.id]
			st.defers[fr.id] = append(ds[:len(ds):len(ds)], d)
		case *ssa.RunDefers:
			next := i + 1
			in.runDefers(fr, st, func(st *State) { in.runFrom(fr, b, next, st) })
			return
		case *ssa.Go:
			next := i + 1
			in.emit(st, fr, &Event{Kind: "go", Pos: x.Pos()})
			was := st.async
			st.async = true
			in.doCall(fr, st, &x.Call, nil, nil, x.Pos(), func(st *State, _ *Term) {
				st.async = was
				in.runFrom(fr, b, next, st)
			})
			return
		case *ssa.Call:
			next := i + 1
			in.doCall(fr, st, &x.Call, nil, nil, x.Pos(), func(st *State, v *Term) {
				in.set(fr, st, x, v)
				in.runFrom(fr, b, next, st)
			})
			return
		case *ssa.Panic:
			in.emit(st, fr, &Event{Kind: "panic", Args: []*Term{in.val(fr, st, x.X)}, Pos: x.Pos()})
			st.panicking = in.val(fr, st, x.X)
			in.unwind(fr, st)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, in.val(fr, st, r))
			}
			in.ret(fr, st, res)
			return
		case *ssa.Jump:
			in.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c := in.val(fr, st, x.Cond)
			if v, ok := st.eval(c); ok {
				if c.Op != "const" {
					st.assume(c, v)
				}
				if v {
					in.enter(fr, b, b.Succs[0], st)
				} else {
					in.enter(fr, b, b.Succs[1], st)
				}
				return
			}
			f := st.clone()
			if st.assume(c, true) {
				in.enter(fr, b, b.Succs[0], st)
			}
			if f.assume(c, false) {
				in.enter(fr, b, b.Succs[1], f)
			}
			return
		default:
			in.undecided(st, fr, ins.Pos(), fmt.Sprintf("unsupported instruction %T", ins))
			if v, ok := ins.(ssa.Value); ok {
				in.set(fr, st, v, mk("unknown", strconv.Itoa(st.next()), v.Type()))
			}
		}
	}
}

// lengthParam accepts caller-supplied lengths: a negative configured key
// length is a programming error and not reachable by a request.
func lengthParam(t *Term) bool {
	return t.Op == "param" || t.Op == "sel" || t.Op == "conv" && lengthParam(t.Args[0])
}

func (in *Interp) checkPtr(fr *frame, st *State, v ssa.Value, pos token.Pos) {
	a := in.val(fr, st, v)
	if a.Op == "fa" || a.Op == "ia" || a.Op == "global" || st.fresh[a] {
		return
	}
	in.obligation(st, fr, pos, st.nonNil(a), "nil dereference", a)
}

func (in *Interp) fieldAddr(fr *frame, st *State, x *ssa.FieldAddr) *Term {
	base := in.val(fr, st, x.X)
	f := derefType(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)
	return mkFA(base, f.Name(), f.Type())
}

// loadEvent records reads of objects that exist outside of the path.
func (in *Interp) loadEvent(fr *frame, st *State, a *Term, pos token.Pos) {
	r := root(a)
	if st.fresh[r] {
		return
	}
	if r.Op == "global" && st.mem[a] != nil {
		return
	}
	in.emit(st, fr, &Event{Kind: "load", Args: []*Term{a}, Pos: pos})
}

func (in *Interp) store(fr *frame, st *State, a, v *Term, pos token.Pos) {
	r := root(a)
	if in.ginit[r] || r.Op == "global" && fr.fn.Synthetic != "package initializer" {
		in.emit(st, fr, &Event{Kind: "gstore", Args: []*Term{a, v}, Pos: pos})
	}
	if !st.fresh[r] && r.Op != "global" {
		in.obligation(st, fr, pos, st.nonNil(r), "nil dereference", r)
		in.emit(st, fr, &Event{Kind: "store", Name: a.Name, Args: []*Term{a, v}, Pos: pos})
	}
	st.store(a, v)
}

func (in *Interp) binop(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.EQL:
		return cmpTime(mkEq(a, b))
	case token.NEQ:
		return mkNot(cmpTime(mkEq(a, b)))
	case token.LSS:
		return cmpTime(mkLt(a, b))
	case token.GTR:
		return cmpTime(mkLt(b, a))
	case token.LEQ:
		return mkNot(cmpTime(mkLt(b, a)))
	case token.GEQ:
		return mkNot(cmpTime(mkLt(a, b)))
	case token.ADD:
		return mkAdd(a, b, t)
	case token.SUB:
		if n, ok := b.intVal(); ok {
			return mkAdd(a, mkInt(-n), t)
		}
		if a == b {
			return mkInt(0)
		}
	case token.AND:
		if t.Underlying() == types.Typ[types.Bool] {
			break
		}
	}
	if a.isConst() && b.isConst() {
		if x, ok := a.intVal(); ok {
			if y, ok := b.intVal(); ok {
				switch op {
				case token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SUB:
					if (op == token.QUO || op == token.REM) && y == 0 {
						break
					}
					o := op
					if o == token.QUO {
						o = token.QUO_ASSIGN // integer division
					}
					v := constant.BinaryOp(constant.MakeInt64(x), o, constant.MakeInt64(y))
					return mk("const", v.ExactString(), t)
				case token.SHL:
					return mk("const", constant.Shift(constant.MakeInt64(x), token.SHL, uint(y)).ExactString(), t)
				}
			}
		}
	}
	return mk("binop", op.String(), t, a, b)
}

// cmpTime brings time comparisons into the form before(a, b).
func cmpTime(t *Term) *Term {
	before := func(a, b *Term) *Term { return mk("before", "", types.Typ[types.Bool], a, b) }
	switch t.Op {
	case "not":
		return mkNot(cmpTime(t.Args[0]))
	case "lt":
		a, b := t.Args[0], t.Args[1]
		if a.Op == "call" && b.isInt(0) {
			switch callName(a) {
			case "time.Until":
				return before(a.Args[0], a.Args[1])
			case "time.Since":
				return before(a.Args[1], a.Args[0])
			case "(time.Time).Sub":
				return before(a.Args[0], a.Args[1])
			case "(time.Time).Compare":
				return before(a.Args[0], a.Args[1])
			}
		}
		if b.Op == "call" && a.isInt(0) {
			switch callName(b) {
			case "time.Until":
				return before(b.Args[1], b.Args[0])
			case "time.Since":
				return before(b.Args[0], b.Args[1])
			case "(time.Time).Sub":
				return before(b.Args[1], b.Args[0])
			case "(time.Time).Compare":
				return before(b.Args[1], b.Args[0])
			}
		}
		if a.Op == "call" && b.Op == "call" && a.Name == b.Name {
			switch a.Name {
			case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
				return before(a.Args[0], b.Args[0])
			}
		}
	case "eq":
		if a := t.Args[0]; a.Op == "call" && callName(a) == "(time.Time).Compare" {
			if t.Args[1].isInt(-1) {
				return before(a.Args[0], a.Args[1])
			}
			if t.Args[1].isInt(1) {
				return before(a.Args[1], a.Args[0])
			}
		}
	}
	return t
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	fs, ts := isStringType(from), isStringType(to)
	if fs && ts {
		return v
	}
	name := types.TypeString(to.Underlying(), nil)
	if fs != ts {
		// string <-> []byte
		if v.Op == "conv" && len(v.Args) == 1 && v.Args[0].T != nil && isStringType(v.Args[0].T) == ts && isByteSlice(to) == isByteSlice(v.Args[0].T) {
			return v.Args[0]
		}
		if isIntType(from) && ts {
			if n, ok := v.intVal(); ok {
				return mkStr(string(rune(n)))
			}
		}
		return mk("conv", name, to, st.resolve(v))
	}
	if isIntType(from) && isIntType(to) && v.isConst() {
		return mk("const", v.Name, to)
	}
	return mk("conv", name, to, v)
}

// index reads a byte of a string or an element of an array value.
func (in *Interp) index(st *State, base, ix *Term, t types.Type) *Term {
	if s, ok := base.str(); ok {
		if n, ok := ix.intVal(); ok && n >= 0 && int(n) < len(s) {
			return mk("const", strconv.Itoa(int(s[n])), t)
		}
	}
	if isStringType(base.T) {
		return mk("byteat", "", t, base, ix)
	}
	return st.element(base, ix, t)
}

func (in *Interp) checkIndex(fr *frame, st *State, base, ix *Term, bt types.Type, pos token.Pos) {
	lo, _ := st.bounds(ix)
	ok := lo >= 0 || st.diffLe(nil, ix, 0)
	var n *Term
	if d := derefType(bt); d != nil {
		bt = d
	}
	if a, isA := bt.Underlying().(*types.Array); isA {
		n = mkInt(a.Len())
	} else {
		n = st.lenOf(base)
	}
	ok = ok && in.proveLt(st, ix, n)
	in.obligation(st, fr, pos, ok, "index out of range", base, ix)
}

// proveLt shows a < b.
func (in *Interp) proveLt(st *State, a, b *Term) bool {
	if v, ok := st.eval(mkLt(a, b)); ok {
		return v
	}
	_, ahi := st.bounds(a)
	blo, _ := st.bounds(b)
	if ahi < blo {
		return true
	}
	// index functions yield less than the length
	if isIndexCall(a) && b.Op == "len" && b.Args[0] == a.Args[0] {
		return true
	}
	if u := st.ub[a]; u != nil && u != a && in.proveLt(st, u, b) {
		return true
	}
	if a.Op == "add" {
		if c, ok := a.Args[1].intVal(); ok && c < 0 {
			if a.Args[0] == b || in.proveLe(st, a.Args[0], b) {
				return true
			}
		}
	}
	return st.diffLe(a, b, -1)
}

// proveLe shows a <= b.
func (in *Interp) proveLe(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if v, ok := st.eval(mkLt(b, a)); ok && !v {
		return true
	}
	_, ahi := st.bounds(a)
	blo, _ := st.bounds(b)
	if ahi <= blo {
		return true
	}
	if a.Op == "add" {
		if c, ok := a.Args[1].intVal(); ok && c == 1 && in.proveLt(st, a.Args[0], b) {
			return true
		}
	}
	return in.proveLt(st, a, b) || st.diffLe(a, b, 0)
}

func (in *Interp) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	base := in.val(fr, st, x.X)
	lo, hi := mkInt(0), (*Term)(nil)
	if x.Low != nil {
		lo = in.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = in.val(fr, st, x.High)
	}
	bt := x.X.Type()
	var n *Term
	if d := derefType(bt); d != nil {
		if a, ok := d.Underlying().(*types.Array); ok {
			n = mkInt(a.Len())
		}
	}
	if n == nil {
		n = st.lenOf(base)
	}
	// nested constant slices
	var top *Term = hi
	if top == nil {
		top = n
	}
	l, _ := st.bounds(lo)
	ok := (l >= 0 || st.diffLe(nil, lo, 0)) && in.proveLe(st, lo, top) && (hi == nil || in.proveLe(st, hi, n))
	if x.Max != nil {
		ok = ok && in.proveLe(st, top, in.val(fr, st, x.Max)) && in.proveLe(st, in.val(fr, st, x.Max), n)
	}
	in.obligation(st, fr, x.Pos(), ok, "slice bounds out of range", base, lo, top)
	if s, ok := base.str(); ok {
		if a, ok := lo.intVal(); ok {
			b, ok2 := int64(len(s)), true
			if hi != nil {
				b, ok2 = hi.intVal()
			}
			if ok2 && a >= 0 && a <= b && b <= int64(len(s)) {
				return mkStr(s[a:b])
			}
		}
	}
	if base.Op == "list" {
		if a, ok := lo.intVal(); ok {
			b, ok2 := int64(len(base.Args)), true
			if hi != nil {
				b, ok2 = hi.intVal()
			}
			if ok2 && a >= 0 && a <= b && b <= int64(len(base.Args)) {
				name := ""
				if limit, known := in.maxOf(fr, st, x); b < int64(len(base.Args)) && !(known && limit <= b) {
					name = "spare" // may grow into what follows
				}
				return mk("list", name, x.Type(), base.Args[a:b]...)
			}
		}
	}
	if (base.Op == "slice" || base.Op == "rest") && lo.isInt(0) && hi == nil && x.Max == nil {
		return base
	}
	if _, ok := lo.intVal(); ok && base.Op == "rest" && hi == nil && x.Max == nil {
		return mk("rest", "", x.Type(), base.Args[0], mkAdd(base.Args[1], lo, base.Args[1].T))
	}
	if base.Op == "slice" {
		// slice of a slice
		if l0, ok := base.Args[1].intVal(); ok {
			if l1, ok := lo.intVal(); ok {
				h := base.Args[2]
				okh := true
				if hi != nil {
					var hv int64
					hv, okh = hi.intVal()
					h = mkInt(l0 + hv)
				}
				if okh {
					args := []*Term{base.Args[0], mkInt(l0 + l1), h}
					if x.Max != nil {
						if mv, ok := in.val(fr, st, x.Max).intVal(); ok {
							args = append(args, mkInt(l0+mv))
						}
					} else if len(base.Args) > 3 {
						args = append(args, base.Args[3])
					}
					return mk("slice", "", x.Type(), args...)
				}
			}
		}
	}
	if lo.isInt(0) && hi == nil && x.Max == nil && derefType(bt) == nil {
		return base
	}
	if hi != nil && hi == n && derefType(bt) == nil && isStringType(bt) {
		hi = nil
	}
	if lo.isInt(0) && hi != nil && hi == n && isByteSlice(bt) && base.Op != "slice" {
		return base // the same bytes
	}
	if hi != nil && hi == lo && isStringType(bt) {
		return mkStr("")
	}
	args := []*Term{base, lo, hi}
	if x.Max != nil {
		args = append(args, in.val(fr, st, x.Max))
	}
	return mk("slice", "", x.Type(), args...)
}

// maxOf is the capacity limit of a slice expression, if it is constant.
func (in *Interp) maxOf(fr *frame, st *State, x *ssa.Slice) (int64, bool) {
	if x.Max == nil {
		return 0, false
	}
	return in.val(fr, st, x.Max).intVal()
}

func (in *Interp) next(fr *frame, st *State, x *ssa.Next) *Term {
	rt := in.val(fr, st, x.Iter)
	tt := x.Type().(*types.Tuple)
	if it := st.iters[rt]; it != nil {
		if it.pos < len(it.keys) {
			n := *it
			n.pos++
			st.iters[rt] = &n
			return mk("tuple", "", tt, tTrue, it.keys[it.pos], it.vals[it.pos])
		}
		return mk("tuple", "", tt, tFalse, tNil, tNil)
	}
	m := rt.Args[0]
	name := rt.Name
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if mt, ok := m.T.Underlying().(*types.Map); ok {
		kt, vt = mt.Key(), mt.Elem()
	}
	return mk("tuple", "", tt, mk("nextok", name, types.Typ[types.Bool], m), mk("nextkey", name, kt, m), mk("nextval", name, vt, m))
}

func (st *State) mapVer(m *Term) string {
	if v := st.ver["map:"+termID(m)]; v != 0 {
		return "#" + strconv.Itoa(v)
	}
	return ""
}

func (in *Interp) lookup(fr *frame, st *State, x *ssa.Lookup, k func(*State, *Term)) {
	m, key := in.val(fr, st, x.X), in.val(fr, st, x.Index)
	if isStringType(x.X.Type()) {
		in.checkIndex(fr, st, m, key, x.X.Type(), x.Pos())
		k(st, in.index(st, m, key, x.Type()))
		return
	}
	vt := x.Type()
	if x.CommaOk {
		vt = x.Type().(*types.Tuple).At(0).Type()
	}
	ret := func(st *State, v, ok *Term) {
		if x.CommaOk {
			k(st, mk("tuple", "", x.Type(), v, ok))
			return
		}
		k(st, v)
	}
	in.lookupMap(fr, st, m, key, vt, x.Pos(), ret)
}

// lookupMap reads a map entry; it splits the path on the keys of local maps.
func (in *Interp) lookupMap(fr *frame, st *State, m, key *Term, vt types.Type, pos token.Pos, ret func(st *State, v, ok *Term)) {
	if m.isNil() {
		ret(st, zeroTerm(vt), tFalse)
		return
	}
	o := st.maps[m]
	if o == nil {
		ver := st.mapVer(m)
		in.emit(st, fr, &Event{Kind: "mapread", Args: []*Term{m, key}, Pos: pos})
		if st.untouched(m, key) {
			ver = ""
		}
		if m.Op == "mapval" {
			// contents captured elsewhere
		}
		// value written on this path under the same key
		for w, i := st.writes[m], len(st.writes[m])-1; i >= 0; i-- {
			if w[i].Mode != "unknown" && st.same(w[i].Key, key) {
				if w[i].Mode == "del" {
					ret(st, zeroTerm(vt), tFalse)
				} else {
					ret(st, w[i].Val, tTrue)
				}
				return
			}
			if w[i].Mode == "unknown" || !st.distinct(w[i].Key, key) {
				break
			}
		}
		has := mk("haskey", ver, types.Typ[types.Bool], m, key)
		val := mk("lookup", ver, vt, m, key)
		if key.Op == "nextkey" && key.Args[0] == m && ver == "" {
			val = mk("nextval", key.Name, vt, m)
			has = tTrue
		}
		if v, ok := st.eval(has); ok && !v {
			ret(st, zeroTerm(vt), tFalse)
			return
		}
		ret(st, val, has)
		return
	}
	if !o.concrete() {
		if o.Base == nil && !o.Unknown {
			// set-like use: local map filled by a loop
			t := st.mapTerm(m, o)
			ret(st, mk("lookup", "", vt, t, key), mk("haskey", "", types.Typ[types.Bool], t, key))
			return
		}
		t := st.mapTerm(m, o)
		for i := len(o.Ops) - 1; i >= 0; i-- {
			e := o.Ops[i]
			if e.Mode == "set" && st.same(e.Key, key) {
				ret(st, e.Val, tTrue)
				return
			}
			if e.Mode == "del" && st.same(e.Key, key) {
				ret(st, zeroTerm(vt), tFalse)
				return
			}
			if !(e.Key != nil && e.Key.isConst() && key.isConst()) {
				break
			}
		}
		if len(o.Ops) == 0 && o.Base != nil {
			t = o.Base
		}
		ret(st, mk("lookup", "", vt, t, key), mk("haskey", "", types.Typ[types.Bool], t, key))
		return
	}
	rest := st
	for _, e := range o.Ops {
		c := mkEq(key, e.Key)
		if v, ok := rest.eval(c); ok {
			if v {
				ret(rest, e.Val, tTrue)
				return
			}
			continue
		}
		s := rest.clone()
		if s.assume(c, true) {
			ret(s, e.Val, tTrue)
		}
		if !rest.assume(c, false) {
			return
		}
	}
	ret(rest, zeroTerm(vt), tFalse)
}

func (in *Interp) mapUpdate(fr *frame, st *State, m, key, v *Term, pos token.Pos) {
	if in.ginit[m] {
		in.emit(st, fr, &Event{Kind: "gstore", Args: []*Term{m, key, v}, Pos: pos})
	}
	if o := st.maps[m]; o != nil {
		// m[k] = append(m[k], v)
		if v.Op == "append" && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && !in.ginit[m] {
			if l := v.Args[0]; l.Op == "lookup" && l.Args[1] == key && (l.Args[0] == st.mapTerm(m, o) || len(o.Ops) == 0 && l.Args[0] == o.Base) {
				st.maps[m] = o.with(mapEntry{Mode: "add", Key: key, Val: v.Args[1].Args[0]})
				in.emit(st, fr, &Event{Kind: "ladd", Args: []*Term{m, key, v.Args[1].Args[0]}, Pos: pos})
				return
			}
		}
		st.maps[m] = o.with(mapEntry{Mode: "set", Key: key, Val: v})
		in.emit(st, fr, &Event{Kind: "lset", Args: []*Term{m, key, st.snapshot(v, 0)}, Raw: v, Pos: pos})
		return
	}
	if m.Op == "hdr" {
		in.emit(st, fr, &Event{Kind: "hset", Args: []*Term{m.Args[0], canonHeader(key), headerVal(st, v)}, Pos: pos})
		return
	}
	nn := !m.isNil() && (m.Op != "sel" || true)
	in.obligation(st, fr, pos, nn, "write to nil map", m)
	in.emit(st, fr, &Event{Kind: "mapset", Args: []*Term{m, key, st.snapshot(v, 0), v}, Pos: pos})
	st.bumpMap(m, mapEntry{Mode: "set", Key: key, Val: v})
}

// untouched reports whether all changes of a map on the path concern keys
// that are known to differ from the key.
func (st *State) untouched(m, key *Term) bool {
	for _, w := range st.writes[m] {
		if w.Mode == "unknown" || !st.distinct(w.Key, key) {
			return false
		}
	}
	return true
}

// distinct reports whether two map keys are known to differ: different
// constants, or one is derived from a token that was generated on the path
// and the other is not (generated tokens never equal presented ones).
func (st *State) distinct(a, b *Term) bool {
	if v, ok := st.eval(mkEq(a, b)); ok {
		return !v
	}
	gen := func(t *Term) string {
		s := ""
		t.walk(func(x *Term) {
			if x.Op == "call" && strings.Contains(x.Name, "GenerateHS256Token@") {
				s += x.Name + " "
			}
		})
		return s
	}
	return gen(a) != gen(b)
}

func (st *State) bumpMap(m *Term, e mapEntry) {
	st.ver["map:"+termID(m)] = st.next()
	w := st.writes[m]
	st.writes[m] = append(w[:len(w):len(w)], e)
}

func (in *Interp) mapDelete(fr *frame, st *State, m, key *Term, pos token.Pos) {
	if in.ginit[m] {
		in.emit(st, fr, &Event{Kind: "gstore", Args: []*Term{m, key}, Pos: pos})
	}
	if o := st.maps[m]; o != nil {
		st.maps[m] = o.with(mapEntry{Mode: "del", Key: key})
		in.emit(st, fr, &Event{Kind: "ldel", Args: []*Term{m, key}, Pos: pos})
		return
	}
	if m.isNil() {
		return
	}
	if m.Op == "hdr" {
		in.emit(st, fr, &Event{Kind: "hdel", Args: []*Term{m.Args[0], canonHeader(key)}, Pos: pos})
		return
	}
	// deleting an absent key has no effect
	if st.untouched(m, key) {
		if v, ok := st.eval(mk("haskey", "", types.Typ[types.Bool], m, key)); ok && !v {
			in.emit(st, fr, &Event{Kind: "mapread", Args: []*Term{m, key}, Pos: pos})
			return
		}
	}
	in.emit(st, fr, &Event{Kind: "mapdel", Args: []*Term{m, key}, Pos: pos})
	// deleting the key under iteration does not disturb the iteration
	if key.Op == "nextkey" && key.Args[0] == m {
		return
	}
	st.bumpMap(m, mapEntry{Mode: "del", Key: key})
}

func (in *Interp) typeAssert(fr *frame, st *State, x *ssa.TypeAssert, k func(*State, *Term)) {
	v := in.val(fr, st, x.X)
	in.assertType(st, v, x.AssertedType, func(st *State, val *Term, ok bool) {
		if x.CommaOk {
			k(st, mk("tuple", "", x.Type(), val, mkBool(ok)))
			return
		}
		if !ok {
			return // reported as an obligation below
		}
		k(st, val)
	}, func(st *State, sure bool) {
		if !x.CommaOk {
			in.obligation(st, fr, x.Pos(), sure, "type assertion", v)
		}
	})
}

// assertType splits the path on the dynamic type of an interface value.
func (in *Interp) assertType(st *State, v *Term, t types.Type, k func(*State, *Term, bool), pre func(*State, bool)) {
	name := types.TypeString(t, nil)
	isI := types.IsInterface(t)
	if v.isNil() {
		pre(st, false)
		k(st, zeroTerm(t), false)
		return
	}
	if v.Op == "iface" {
		var ok bool
		val := v.Args[0]
		if isI {
			ok = in.ifaceImpl(v.Name, v.Args[0].T, t)
			val = v
		} else {
			ok = v.Name == name
		}
		pre(st, ok)
		if !ok {
			val = zeroTerm(t)
		}
		k(st, val, ok)
		return
	}
	c := mk("typeis", name, nil, v)
	if isI {
		c = mk("typeis", name, t, v)
		if v.T != nil && types.IsInterface(v.T) && types.Implements(v.T, t.Underlying().(*types.Interface)) {
			// holds for every non-nil value
			c = mkNot(mkEq(v, tNil))
		}
	}
	val := v
	if !isI {
		val = mk("as", name, t, v)
	}
	if b, ok := st.eval(c); ok {
		pre(st, b)
		if c.Op != "const" {
			st.assume(c, b)
		}
		if b {
			k(st, val, true)
		} else {
			k(st, zeroTerm(t), false)
		}
		return
	}
	pre(st, false)
	f := st.clone()
	if st.assume(c, true) {
		k(st, val, true)
	}
	if f.assume(c, false) {
		k(f, zeroTerm(t), false)
	}
}

func (in *Interp) ifaceImpl(name string, dyn types.Type, t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && dyn != nil && types.Implements(dyn, i)
}

func (in *Interp) runDefers(fr *frame, st *State, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	wasN, wasAt := st.defer_, st.dat
	st.defer_++
	st.dat = d.at
	in.doCall(fr, st, d.call, d.fn, d.args, d.pos, func(st *State, _ *Term) {
		st.defer_, st.dat = wasN, wasAt
		in.runDefers(fr, st, k)
	})
}

// unwind propagates a panic out of a frame.
func (in *Interp) unwind(fr *frame, st *State) {
	in.runDefers(fr, st, func(st *State) {
		if st.recovered {
			st.recovered = false
			st.panicking = nil
			if fr.fn.Recover != nil {
				in.run(fr, fr.fn.Recover, st)
				return
			}
			var res []*Term
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				res = append(res, zeroTerm(rs.At(i).Type()))
			}
			in.ret(fr, st, res)
			return
		}
		delete(st.env, fr.id)
		delete(st.defers, fr.id)
		if fr.caller == nil {
			in.record(st, "panic", nil)
			return
		}
		in.unwind(fr.caller, st)
	})
}

// runInit executes the package initialisers to learn the contents of package
// variables that are never assigned afterwards.
func (in *Interp) runInit(pkgs []*ssa.Package) {
	in.base = newState()
	for _, p := range pkgs {
		f := p.Func("init")
		if f == nil {
			continue
		}
		in.traces = nil
		in.steps = 0
		st := in.base.clone()
		in.call(nil, st, f, nil, nil, "", token.NoPos, func(st *State, _ []*Term) { in.record(st, "return", nil) })
		var ret []*Trace
		for _, t := range in.traces {
			if t.End == "return" {
				ret = append(ret, t)
			}
		}
		best := (*Trace)(nil)
		for _, t := range ret {
			if len(t.St.mem) > 1 && (best == nil || len(t.St.mem) > len(best.St.mem)) {
				best = t
			}
		}
		if best == nil {
			continue
		}
		assigned := in.assignedGlobals(p)
		s := best.St
		for a := range s.mem {
			if root(a).Op == "global" && assigned[root(a).Name] {
				delete(s.mem, a)
			}
			if strings.HasSuffix(root(a).Name, "init$guard") {
				delete(s.mem, a)
			}
		}
		s.events, s.facts, s.fmap = nil, nil, map[*Term]bool{}
		in.base = s
	}
	in.ginit = map[*Term]bool{}
	for a := range in.base.fresh {
		in.ginit[a] = true
	}
	for m := range in.base.maps {
		in.ginit[m] = true
	}
	in.traces = nil
}

// assignedGlobals lists the package variables assigned (or whose address is
// used for anything but loading) outside of initialisation.
func (in *Interp) assignedGlobals(p *ssa.Package) map[string]bool {
	res := map[string]bool{}
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range in.allFuncs() {
		add(f)
	}
	for _, f := range fns {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, isU := i.(*ssa.UnOp); isU && u.Op == token.MUL {
						continue
					}
					res[g.String()] = true
				}
			}
		}
	}
	return res
}

// allFuncs lists the declared functions and methods of the module.
func (in *Interp) allFuncs() []*ssa.Function {
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	for _, p := range in.prog.AllPackages() {
		if !modPkg(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := in.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := in.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}
