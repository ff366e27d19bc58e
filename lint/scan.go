package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Hand-written searches for a character: a loop that goes through the bytes of
// a text from either end until it finds a character, or through all of it and
// remembers where it saw the character last, computes strings.IndexByte or
// strings.LastIndexByte. The loop variable is replaced by that call, so that
// rules see the same values whichever way the search is written.

// replaceIn replaces a value in a condition or term and simplifies it.
func replaceIn(t, from, to *Term) *Term {
	if t == nil || t == from {
		if t == nil {
			return nil
		}
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = replaceIn(a, from, to)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	switch t.Op {
	case "sel":
		return mkSel(args[0], t.Name, t.T)
	case "add":
		if len(args) == 2 {
			return mkAdd(args[0], args[1], t.T)
		}
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "len":
		return mkLen(args[0])
	}
	return mk(t.Op, t.Name, t.T, args...)
}

// replace replaces a value everywhere on a path; conditions from the n-th on
// are rewritten. It fails if the path is impossible then.
func (s *State) replace(fr *frame, from, to *Term, n int) bool {
	for v, t := range s.env[fr.id] {
		if r := replaceIn(t, from, to); r != t {
			s.env[fr.id][v] = r
		}
	}
	for a, t := range s.mem {
		if r := replaceIn(t, from, to); r != t {
			s.mem[a] = r
		}
	}
	for _, m := range []map[*Term]int64{s.lb} {
		delete(m, from)
	}
	delete(s.ub, from)
	old := append([]Fact{}, s.facts...)
	s.facts = append([]Fact{}, old[:n]...)
	for _, f := range old[n:] {
		delete(s.fmap, f.T)
	}
	for _, f := range old[n:] {
		t, pol := replaceIn(f.T, from, to), f.Pol
		for t.Op == "not" {
			t, pol = t.Args[0], !pol
		}
		if t == f.T {
			if _, ok := s.fmap[t]; !ok {
				s.fmap[t] = pol
				s.facts = append(s.facts, f)
			}
			continue
		}
		k := len(s.facts)
		if !s.assume(t, pol) {
			return false
		}
		if len(s.facts) > k {
			s.facts[k].At = f.At
		}
	}
	return true
}

// searched finds what the variables of a summarised loop are: position
// searches for a character.
func (in *Interp) searched(fr *frame, phis []*ssa.Phi, invariant map[*ssa.Phi]bool, lv func(*ssa.Phi) *Term, init map[*ssa.Phi]*Term, c *collector, start *State, l *loop, over *Term) map[*Term]*Term {
	var vars []*ssa.Phi
	for _, p := range phis {
		if !invariant[p] {
			vars = append(vars, p)
		}
	}
	nf := len(start.facts)
	// the test for the character in an iteration
	test := func(b *State) (text, pos, char *Term, pol, ok bool) {
		for _, f := range b.facts[nf:] {
			if f.T.Op != "eq" {
				continue
			}
			n, isc := f.T.Args[1].intVal()
			if !isc || n < 0 || n > 127 {
				continue
			}
			e := f.T.Args[0]
			for e.Op == "conv" {
				e = e.Args[0]
			}
			switch {
			case e.Op == "byteat":
				text, pos = e.Args[0], e.Args[1]
			case e.Op == "nextval" && over != nil && e.Args[0] == over && isStringType(over.T):
				text, pos = over, mk("nextkey", e.Name, types.Typ[types.Int], over)
			default:
				continue
			}
			if ok {
				return nil, nil, nil, false, false
			}
			char, pol, ok = mkInt(n), f.Pol, true
		}
		return
	}
	call := func(name string, text, char *Term) *Term {
		return mk("call", name, types.Typ[types.Int], text, char)
	}
	step := func(b *State, p *ssa.Phi) (int64, bool) {
		x, v := b.env[fr.id][p], lv(p)
		if x == v {
			return 0, true
		}
		if x != nil && x.Op == "add" && x.Args[0] == v {
			return x.Args[1].intVal()
		}
		return 0, false
	}
	out := map[*Term]*Term{}
	switch {
	case len(vars) == 1 && over == nil && len(c.backs) == 1:
		// i := len(s)-1; i >= 0 && s[i] != c; i--, or forwards
		p, b := vars[0], c.backs[0]
		v := lv(p)
		text, pos, char, pol, ok := test(b)
		d, sok := step(b, p)
		if !ok || pol || !sok || text.contains(func(t *Term) bool { return t == v }) {
			return nil
		}
		k := int64(0)
		if pos != v {
			if pos.Op != "add" || pos.Args[0] != v {
				return nil
			}
			if k, ok = pos.Args[1].intVal(); !ok {
				return nil
			}
		}
		first := mkAdd(init[p], mkInt(k), types.Typ[types.Int])
		switch {
		case d == -1 && start.same(first, mkAdd(mkLen(text), mkInt(-1), types.Typ[types.Int])):
			// below the start only if nothing was found: both are -1
			for _, e := range c.exits {
				_, _, _, found, tested := test(e.st)
				if !(tested && found) {
					// has to be left at the beginning of the text
					if v, ok := e.st.eval(mkLt(pos, mkInt(0))); !ok || !v {
						return nil
					}
				}
			}
			out[v] = mkAdd(call("strings.LastIndexByte", text, char), mkInt(-k), types.Typ[types.Int])
		}
	case len(vars) <= 2 && len(c.backs) == 2:
		// for i := range s { if s[i] == c { last = i } }
		var last *ssa.Phi
		var counter *ssa.Phi
		for _, p := range vars {
			d0, ok0 := step(c.backs[0], p)
			d1, ok1 := step(c.backs[1], p)
			if ok0 && ok1 && d0 == 1 && d1 == 1 {
				counter = p
			} else {
				last = p
			}
		}
		if last == nil || (over == nil) != (counter != nil) || !isIntType(last.Type()) {
			return nil
		}
		if over == nil && !init[counter].isInt(0) {
			return nil
		}
		v := lv(last)
		var text, char *Term
		var off int64
		hit := false
		for _, b := range c.backs {
			t, pos, ch, pol, ok := test(b)
			if !ok || text != nil && (t != text || ch != char) || t.contains(func(u *Term) bool { return u.Op == "loopvar" }) {
				return nil
			}
			text, char = t, ch
			if over == nil && pos != lv(counter) {
				return nil
			}
			x := b.env[fr.id][last]
			if !pol {
				if x != v {
					return nil
				}
				continue
			}
			n := int64(0)
			if x != pos {
				if x == nil || x.Op != "add" || x.Args[0] != pos {
					return nil
				}
				if n, ok = x.Args[1].intVal(); !ok {
					return nil
				}
			}
			off, hit = n, true
		}
		if !hit || !init[last].isInt(off-1) {
			return nil
		}
		for _, e := range c.exits {
			if e.from != l.header {
				return nil
			}
			if over == nil {
				// has to be left at the end of the text
				if v, ok := e.st.eval(mkLt(lv(counter), mkLen(text))); !ok || v {
					return nil
				}
			}
		}
		out[v] = mkAdd(call("strings.LastIndexByte", text, char), mkInt(off), types.Typ[types.Int])
	}
	return out
}
