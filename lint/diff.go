package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Difference bounds between integer values: what the conditions of a path, the
// lengths of texts and lists and the invariants of loops entail about a - b.

// rel is an invariant a - b <= c of the variables of a loop; b is nil for zero.
// It holds where the condition when, if any, is met.
type rel struct {
	a, b *Term
	c    int64
	when *Term
}

// base splits a value into a base and a constant offset; the base of a
// constant is nil.
func diffBase(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.Op == "add" && len(t.Args) == 2 {
		if n, ok := t.Args[1].intVal(); ok {
			b, k := diffBase(t.Args[0])
			return b, n + k
		}
	}
	return t, 0
}

// diffLe reports whether a - b <= c is entailed; nil stands for zero.
func (s *State) diffLe(a, b *Term, c int64) bool {
	type edge struct {
		x, y *Term // x - y <= k
		k    int64
	}
	var es []edge
	seen := map[*Term]bool{}
	var nodes []*Term
	var node func(t *Term)
	add := func(x, y *Term, k int64) {
		node(x)
		node(y)
		if x != y {
			es = append(es, edge{x, y, k})
		}
	}
	le := func(p, q *Term, k int64) {
		x, i := diffBase(p)
		y, j := diffBase(q)
		add(x, y, k-i+j)
	}
	node = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		nodes = append(nodes, t)
		lo, hi := s.bounds(t)
		if t.Op == "nextkey" && t.Args[0].T != nil && isStringType(t.Args[0].T) {
			if v, ok := s.fmap[mk("nextok", t.Name, types.Typ[types.Bool], t.Args[0])]; ok && v {
				lo = 0
				add(t, mkLen(t.Args[0]), -1)
			}
		}
		if lo > -inf {
			es = append(es, edge{nil, t, -lo})
		}
		if hi < inf {
			es = append(es, edge{t, nil, hi})
		}
		if u := s.ub[t]; u != nil && u != t {
			le(t, u, 0)
		}
		if isIndexCall(t) {
			le(t, mkLen(t.Args[0]), -1)
		}
	}
	ab, ak := (*Term)(nil), int64(0)
	if a != nil {
		ab, ak = diffBase(a)
	}
	bb, bk := (*Term)(nil), int64(0)
	if b != nil {
		bb, bk = diffBase(b)
	}
	c += bk - ak
	if ab == bb {
		return c >= 0
	}
	node(ab)
	node(bb)
	type differ struct {
		x, y *Term
		k    int64
	}
	var ne []differ
	for _, f := range s.facts {
		switch f.T.Op {
		case "lt":
			if f.Pol {
				le(f.T.Args[0], f.T.Args[1], -1)
			} else {
				le(f.T.Args[1], f.T.Args[0], 0)
			}
		case "eq":
			if !isIntTerm(f.T.Args[0]) || !isIntTerm(f.T.Args[1]) {
				continue
			}
			if f.Pol {
				le(f.T.Args[0], f.T.Args[1], 0)
				le(f.T.Args[1], f.T.Args[0], 0)
			} else {
				x, i := diffBase(f.T.Args[0])
				y, j := diffBase(f.T.Args[1])
				ne = append(ne, differ{x, y, j - i})
			}
		}
	}
	for _, r := range s.rel {
		if r.when != nil {
			if v, ok := s.fmap[r.when]; !ok || !v {
				continue
			}
		}
		add(r.a, r.b, r.c)
	}
	dist := func(x, y *Term) int64 {
		// the shortest way from y to x
		d := map[*Term]int64{y: 0}
		for i := 0; i <= len(nodes)+1; i++ {
			changed := false
			for _, e := range es {
				if v, ok := d[e.y]; ok {
					if w, ok := d[e.x]; !ok || v+e.k < w {
						d[e.x] = v + e.k
						changed = true
					}
				}
			}
			if !changed {
				break
			}
		}
		if v, ok := d[x]; ok {
			return v
		}
		return inf
	}
	if dist(ab, bb) <= c {
		return true
	}
	// x - y is not k
	for i := 0; i < 2 && len(ne) > 0; i++ {
		for _, n := range ne {
			if dist(n.x, n.y) == n.k {
				es = append(es, edge{n.x, n.y, n.k - 1})
			}
			if dist(n.y, n.x) == -n.k {
				es = append(es, edge{n.y, n.x, -n.k - 1})
			}
		}
	}
	return len(ne) > 0 && dist(ab, bb) <= c
}

// candidate is a relation that may be an invariant of a loop.
type candidate struct {
	p   *ssa.Phi
	q   *ssa.Phi // or
	t   *Term    // a value the loop does not change, or
	key *Term    // the key of an iteration over a text
	low bool     // or: -p <= c
	c   int64
}

// candidates proposes invariants p <= q + c for the loop.
func (in *Interp) candidates(fr *frame, l *loop, st0 *State, phis []*ssa.Phi, invariant map[*ssa.Phi]bool, init map[*ssa.Phi]*Term, key *Term) []*candidate {
	var ints []*ssa.Phi
	for _, p := range phis {
		if !invariant[p] && isIntType(p.Type()) {
			ints = append(ints, p)
		}
	}
	if len(ints) == 0 || len(ints) > 4 {
		return nil
	}
	// the lengths of the texts and lists the loop uses
	var lens []*Term
	have := map[*Term]bool{}
	for b := range l.body {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				v := *o
				if v == nil || v.Type() == nil {
					continue
				}
				if p, ok := v.(*ssa.Phi); ok && !invariant[p] && l.header == p.Block() {
					continue
				}
				if x, ok := v.(ssa.Instruction); ok && l.body[x.Block()] {
					if p, isPhi := v.(*ssa.Phi); !isPhi || !invariant[p] {
						continue
					}
				}
				switch t := v.Type().Underlying().(type) {
				case *types.Slice:
				case *types.Basic:
					if t.Info()&types.IsString == 0 {
						continue
					}
				default:
					continue
				}
				if _, isConst := v.(*ssa.Const); isConst {
					continue
				}
				n := st0.lenOf(st0.resolve(in.val(fr, st0, v)))
				if _, isc := n.intVal(); !isc && !have[n] && len(lens) < 4 {
					have[n] = true
					lens = append(lens, n)
				}
			}
		}
	}
	var out []*candidate
	for _, p := range ints {
		for _, c := range []int64{-1, 0, 1} {
			for _, q := range ints {
				if p != q && st0.diffLe(init[p], init[q], c) {
					out = append(out, &candidate{p: p, q: q, c: c})
				}
			}
			for _, n := range lens {
				if st0.diffLe(init[p], n, c) {
					out = append(out, &candidate{p: p, t: n, c: c})
				}
			}
		}
		if st0.diffLe(nil, init[p], 0) {
			out = append(out, &candidate{p: p, low: true})
		}
		if key != nil && st0.diffLe(init[p], nil, 0) {
			out = append(out, &candidate{p: p, key: key})
		}
	}
	return out
}

// rel is the invariant a candidate stands for.
func (c *candidate) rel(lv func(*ssa.Phi) *Term) rel {
	switch {
	case c.low:
		return rel{b: lv(c.p), c: c.c}
	case c.q != nil:
		return rel{a: lv(c.p), b: lv(c.q), c: c.c}
	case c.key != nil:
		return rel{a: lv(c.p), b: c.key, c: c.c, when: mk("nextok", c.key.Name, types.Typ[types.Bool], c.key.Args[0])}
	}
	b, k := diffBase(c.t)
	return rel{a: lv(c.p), b: b, c: c.c + k}
}

// kept reports whether an iteration keeps the relation.
func (c *candidate) kept(b *State, env map[ssa.Value]*Term) bool {
	p := env[c.p]
	if p == nil {
		return false
	}
	switch {
	case c.low:
		return b.diffLe(nil, p, c.c)
	case c.q != nil:
		return env[c.q] != nil && b.diffLe(p, env[c.q], c.c)
	case c.key != nil:
		// the next key is larger
		return b.diffLe(p, c.key, c.c+1)
	}
	return b.diffLe(p, c.t, c.c)
}
