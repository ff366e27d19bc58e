package main

import (
	"go/types"
)

// iteration describes a loop that visits the elements of a sequence in order.
type iteration struct {
	l       *LoopInfo
	over    *Term
	idx     *Term // index of the element visited
	start   int64 // first index visited (forward)
	forward bool
}

// at makes a path of one way through a loop body.
func (x *Tr) at(b *LoopBack) *Tr {
	return &Tr{Trace: &Trace{Facts: b.Facts, Events: b.Events, St: b.St}, c: x.c, s: x.s, w: x.w, r: x.r}
}

// visits determines whether a loop visits every element of a sequence, from
// the start index on, exactly once.
func (x *Tr) visits(l *LoopInfo, s *Term) *iteration {
	if l == nil || len(l.Backs) == 0 {
		return nil
	}
	for _, in := range l.Init {
		v := in.Var
		if v.T != nil && !isIntType(v.T) {
			continue
		}
		step := int64(0)
		ok := true
		for _, b := range l.Backs {
			d := b.Phis[v]
			if d == nil {
				ok = false
				break
			}
			n := int64(0)
			if d.Op == "add" && d.Args[0] == v {
				n, _ = d.Args[1].intVal()
			}
			if n == 0 || step != 0 && n != step {
				ok = false
				break
			}
			step = n
		}
		if !ok || step != 1 && step != -1 {
			continue
		}
		for _, off := range []int64{0, 1, -1} {
			idx := v
			if off != 0 {
				idx = mkAdd(v, mkInt(off), v.T)
			}
			first := mkAdd(in.Init, mkInt(off), v.T)
			if step == 1 {
				n, ok := first.intVal()
				if !ok || n < 0 {
					continue
				}
				cond := mkLt(idx, x.St.lenOf(s))
				raw := mkLt(idx, mkLen(s))
				good := true
				for i := range l.Backs {
					y := x.at(&l.Backs[i])
					if y.tri(cond) != yes && y.tri(raw) != yes && y.tri(mkEq(idx, mkLen(s))) != no {
						good = false
					}
				}
				if good && x.onlyIndex(l, s, idx) {
					return &iteration{l, s, idx, n, true}
				}
				continue
			}
			if first != mkAdd(mkLen(s), mkInt(-1), v.T) {
				continue
			}
			good := true
			for i := range l.Backs {
				y := x.at(&l.Backs[i])
				if y.tri(mkLt(idx, mkInt(0))) != no && y.tri(mkLt(mkInt(-1), idx)) != yes {
					good = false
				}
			}
			if good && x.onlyIndex(l, s, idx) {
				return &iteration{l, s, idx, 0, false}
			}
		}
	}
	return nil
}

// onlyIndex tells whether a loop that ended was left by the index only, that
// is, the header condition on leaving is the negation of the visiting one.
func (x *Tr) onlyIndex(l *LoopInfo, s, idx *Term) bool {
	return l.Exhausted && (x.tri(mkLt(idx, mkLen(s))) == no || x.tri(mkLt(idx, mkInt(0))) == yes || x.tri(mkLt(mkInt(-1), idx)) == no || x.eq(idx, mkLen(s)) == yes)
}

func isElemOf(t, s *Term) bool { return t.Op == "elem" && t.Args[0] == s }

func elemAt(s *Term, i *Term) *Term { return mk("elem", "", nil, s, i) }

// elements collects the elements of a sequence the path mentions.
func (x *Tr) elements(s *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		t.walk(func(n *Term) {
			if isElemOf(n, s) && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		})
	}
	for _, f := range x.Facts {
		add(f.T)
	}
	for _, f := range x.St.facts {
		add(f.T)
	}
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, e := range es {
			if e.Loop == nil {
				continue
			}
			for _, b := range e.Loop.Backs {
				for _, f := range b.Facts {
					add(f.T)
				}
				walk(b.Events)
			}
		}
	}
	walk(x.Events)
	return out
}

// member tells whether a name is known to be an element of a scope.
func (x *Tr) member(q, s *Term) int {
	if x.St.lenOf(s).isInt(0) || x.eq(mkLen(s), mkInt(0)) == yes {
		return no
	}
	for _, c := range []*Term{mk("call", "("+modPath+".Scope).Contains", types.Typ[types.Bool], s, q), mk("call", "slices.Contains", types.Typ[types.Bool], s, q)} {
		if v := x.tri(c); v != unknown {
			return v
		}
	}
	if v := x.inSet(q, s); v != unknown {
		return v
	}
	for _, e := range x.elements(s) {
		if x.eq(q, e) == yes {
			return yes
		}
	}
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := x.visits(ev.Loop, s)
		if it == nil {
			continue
		}
		head := unknown // result for the elements before the loop
		head = no
		for i := int64(0); i < it.start; i++ {
			switch x.eq(q, elemAt(s, mkInt(i))) {
			case yes:
				return yes
			case unknown:
				head = unknown
			}
		}
		if head == unknown {
			continue
		}
		e := elemAt(s, it.idx)
		none := true
		for i := range it.l.Backs {
			if x.at(&it.l.Backs[i]).eq(q, e) != no {
				none = false
			}
		}
		if none {
			return no
		}
		// a flag set by the iterations
		for _, in := range it.l.Init {
			if in.Init != tFalse && in.Init != tTrue && !in.Init.isInt(0) {
				continue
			}
			ok := true
			for i := range it.l.Backs {
				y := x.at(&it.l.Backs[i])
				ok = ok && y.flag(&it.l.Backs[i], in, y.eq(q, e))
			}
			if !ok {
				continue
			}
			if v := x.inverted(in, in.Var); v != unknown {
				return v
			}
		}
	}
	return unknown
}

// flag tells whether an iteration leaves a flag inverted if it was inverted
// before or the element of the iteration is a hit, and as it was otherwise.
func (y *Tr) flag(b *LoopBack, in PhiInit, hit int) bool {
	after := b.Phis[in.Var]
	before := y.inverted(in, in.Var)
	if after == in.Var {
		return hit == no || before == yes
	}
	if in.Init.isInt(0) {
		// a counter of the hits
		n, ok := mkAdd(after, mkInt(0), nil).intVal()
		if after.Op == "add" && after.Args[0] == in.Var {
			n, ok = after.Args[1].intVal()
		}
		return ok && n > 0 && n < 1<<16 && hit == yes
	}
	switch y.inverted(in, after) {
	case yes:
		return hit == yes || before == yes
	case no:
		return hit == no && before == no
	}
	return false
}

// inverted tells whether a flag has changed since before the loop, or a
// counter counted something.
func (y *Tr) inverted(in PhiInit, v *Term) int {
	switch {
	case in.Init == tFalse:
		return y.tri(v)
	case in.Init == tTrue:
		return -y.tri(v)
	}
	if z := y.eq(v, mkInt(0)); z != unknown {
		return -z
	}
	return y.tri(mkLt(mkInt(0), v))
}

// inSet tells whether a name is known to be in a map that was filled with
// the elements of a scope.
func (x *Tr) inSet(q, s *Term) int {
	for _, f := range x.Facts {
		t := f.T
		if t.Op != "haskey" && t.Op != "lookup" || t.Args[0].Op != "mapval" || !x.St.same(t.Args[1], q) {
			continue
		}
		m := t.Args[0]
		ok := m.Name == "" && m.Args[0].Op == "emptymap" && len(m.Args) == 2
		if !ok || !m.Args[1].is("entry", "loopset") || !isElemOf(m.Args[1].Args[0], s) || t.Op == "lookup" && m.Args[1].Args[1] != tTrue {
			continue
		}
		if f.Pol {
			return yes
		}
		for _, ev := range x.Events {
			if ev.Kind != "loop" {
				continue
			}
			it := x.visits(ev.Loop, s)
			if it == nil || it.start != 0 && it.forward {
				continue
			}
			all := true
			for i := range it.l.Backs {
				b := &it.l.Backs[i]
				n := 0
				for _, e := range b.Events {
					if e.Kind == "lset" && e.Args[1] == elemAt(s, it.idx) && e.Args[1] == m.Args[1].Args[0] {
						if o := x.St.maps[e.Args[0]]; o != nil && x.St.mapTerm(e.Args[0], o) == m {
							n++
						}
					}
				}
				all = all && n == 1
			}
			if all {
				return no
			}
		}
	}
	return unknown
}

// subset tells whether every element of b is known to be an element of s.
func (x *Tr) subset(b, s *Term) int {
	if x.St.lenOf(b).isInt(0) || x.eq(mkLen(b), mkInt(0)) == yes {
		return yes
	}
	for _, e := range x.elements(b) {
		if x.member(e, s) == no {
			return no
		}
	}
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := x.visits(ev.Loop, b)
		if it == nil {
			continue
		}
		head := yes
		for i := int64(0); i < it.start; i++ {
			if x.member(elemAt(b, mkInt(i)), s) != yes {
				head = unknown
			}
		}
		if head != yes {
			continue
		}
		e := elemAt(b, it.idx)
		all := true
		for i := range it.l.Backs {
			if x.at(&it.l.Backs[i]).member(e, s) != yes {
				all = false
			}
		}
		if all {
			return yes
		}
		// the number of elements that are
		for _, in := range it.l.Init {
			if !in.Init.isInt(0) || it.start != 0 || !isIntType(in.Var.T) {
				continue
			}
			ok := true
			for i := range it.l.Backs {
				y := x.at(&it.l.Backs[i])
				switch n := it.l.Backs[i].Phis[in.Var]; y.member(e, s) {
				case yes:
					ok = ok && n == mkAdd(in.Var, mkInt(1), in.Var.T)
				case no:
					ok = ok && n == in.Var
				default:
					ok = false
				}
			}
			if v := x.eq(in.Var, mkLen(b)); ok && v != unknown {
				return v
			}
			if v := x.tri(mkLt(in.Var, mkLen(b))); ok && v != unknown {
				return neg(v)
			}
		}
		for _, in := range it.l.Init {
			if in.Init != tFalse && in.Init != tTrue && !in.Init.isInt(0) {
				continue
			}
			ok := true
			for i := range it.l.Backs {
				y := x.at(&it.l.Backs[i])
				ok = ok && y.flag(&it.l.Backs[i], in, neg(y.member(e, s)))
			}
			if !ok {
				continue
			}
			if v := x.inverted(in, in.Var); v != unknown {
				return -v
			}
		}
	}
	return unknown
}

// names checks that a value holds the non-empty names of a list in order.
// It returns why not.
func (x *Tr) names(v, list *Term) string {
	nonEmpty := func(y *Tr, e *Term) (int, *Term) {
		f := mk("call", "strings.TrimSpace", nil, e)
		if r := y.isEmpty(f); r != unknown {
			return neg(r), f
		}
		if y.isEmpty(e) == yes {
			return no, f
		}
		return unknown, nil
	}
	okName := func(y *Tr, got, e *Term) bool {
		return got.isCall("strings.TrimSpace") && got.Args[0] == e && y.isEmpty(got) == no
	}
	// expand a value into a base and appended elements
	var expand func(v *Term) (*Term, []*Term, bool)
	expand = func(v *Term) (*Term, []*Term, bool) {
		switch {
		case v == nil:
			return nil, nil, false
		case v.isNil() || v.Op == "mkslice" && v.Args[0].isInt(0):
			return nil, nil, true
		case v.Op == "slice" && len(v.Args) > 2 && v.Args[2].isInt(0):
			return nil, nil, true
		case v.Op == "list":
			return nil, v.Args, true
		case v.Op == "append":
			b, es, ok := expand(v.Args[0])
			if !ok || v.Args[1].Op != "list" {
				return nil, nil, false
			}
			return b, append(append([]*Term{}, es...), v.Args[1].Args...), true
		case v.Op == "loopvar":
			return v, nil, true
		}
		return nil, nil, false
	}
	prefix := func(es []*Term, n int64) string {
		k := 0
		for i := int64(0); i < n; i++ {
			e := elemAt(list, mkInt(i))
			ne, _ := nonEmpty(x, e)
			switch ne {
			case yes:
				if k >= len(es) || !okName(x, es[k], e) {
					return "a non-empty name is dropped or changed"
				}
				k++
			case no:
			default:
				return "a name may be empty"
			}
		}
		if k != len(es) {
			return "a name is added that the text does not contain"
		}
		return ""
	}
	base, es, ok := expand(x.St.resolve(v))
	if !ok {
		return "the names cannot be determined"
	}
	n := int64(-1)
	if k, isc := x.St.lenOf(list).intVal(); isc {
		n = k
	}
	if x.eq(mkLen(list), mkInt(0)) == yes {
		n = 0
	}
	if base == nil {
		// nothing, because a list of the names is empty
		for _, ev := range x.Events {
			if ev.Kind != "loop" || len(es) > 0 {
				continue
			}
			for _, in := range ev.Loop.Init {
				if x.eq(mkLen(in.Var), mkInt(0)) == yes && x.names(in.Var, list) == "" {
					return ""
				}
			}
		}
		if n < 0 {
			return "not every name is visited"
		}
		return prefix(es, n)
	}
	if list.isCall("strings.Split") {
		for _, ev := range x.Events {
			if ev.Kind == "loop" && x.cuts(ev.Loop, list.Args[0], list.Args[1], base, es, expand) {
				return ""
			}
		}
	}
	if len(es) > 0 {
		return "a name is added after the iteration"
	}
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		init, ok := loopInit(ev.Loop, base)
		if !ok {
			continue
		}
		it := x.visits(ev.Loop, list)
		if it == nil || !it.forward {
			return "not every name is visited in order"
		}
		b0, es0, ok := expand(init)
		if !ok || b0 != nil {
			return "the names before the iteration cannot be determined"
		}
		if why := prefix(es0, it.start); why != "" {
			return why
		}
		e := elemAt(list, it.idx)
		for i := range it.l.Backs {
			b := &it.l.Backs[i]
			y := x.at(b)
			nb, add, ok := expand(loopNext(it.l, b, base))
			if !ok || nb != base {
				return "an iteration does not only add names"
			}
			ne, _ := nonEmpty(y, e)
			switch {
			case ne == yes && len(add) == 1 && okName(y, add[0], e):
			case ne == no && len(add) == 0:
			case ne == unknown:
				return "a name may be empty"
			default:
				return "a non-empty name is dropped or changed, or an empty one added"
			}
		}
		return ""
	}
	return "the names cannot be determined"
}

func unconv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// loopInit returns what a loop variable or memory cell held before a loop.
func loopInit(l *LoopInfo, v *Term) (*Term, bool) {
	for _, in := range l.Init {
		if in.Var == v {
			return in.Init, true
		}
	}
	for _, m := range l.Mem {
		if m.Var == v && m.Init != nil {
			return m.Init, true
		}
	}
	return nil, false
}

// loopNext returns what a loop variable or memory cell holds after an iteration.
func loopNext(l *LoopInfo, b *LoopBack, v *Term) *Term {
	if n := b.Phis[v]; n != nil {
		return n
	}
	for _, m := range l.Mem {
		if m.Var == v {
			return b.St.mem[m.Cell]
		}
	}
	return nil
}

// cuts tells whether a loop cuts the pieces between separators off a text and
// adds each non-empty one, trimmed, to the list base; es are the elements that
// were added after the loop.
func (x *Tr) cuts(l *LoopInfo, text, sep, base *Term, es []*Term, expand func(*Term) (*Term, []*Term, bool)) bool {
	if !sep.isStr(" ") || l == nil || len(l.Backs) == 0 {
		return false
	}
	char := mkInt(' ')
	first, ok := loopInit(l, base)
	if !ok {
		return false
	}
	b0, es0, ok := expand(first)
	if !ok || b0 != nil {
		return false
	}
	var others []PhiInit
	for _, in := range l.Init {
		if in.Var != base {
			others = append(others, in)
		}
	}
	for _, m := range l.Mem {
		if m.Var != base && m.Init != nil {
			others = append(others, PhiInit{m.Var, m.Init})
		}
	}
	// an iteration, or the end, adds exactly a non-empty piece
	adds := func(y *Tr, add []*Term, piece *Term) bool {
		p := mk("call", "strings.TrimSpace", nil, piece)
		ne := y.isEmpty(p)
		if y.isEmpty(piece) == yes {
			ne = yes
		}
		return ne == yes && len(add) == 0 || ne == no && len(add) == 1 && add[0] == p
	}
	part := func(y *Tr, from, to *Term) *Term {
		for _, f := range []*Term{from, nil} {
			if f == nil && !from.isInt(0) {
				continue
			}
			for _, u := range []*Term{to, nil} {
				if u == nil && to != mkLen(text) {
					continue
				}
				p := mk("slice", "", text.T, text, f, u)
				if y.isEmpty(mk("call", "strings.TrimSpace", nil, p)) != unknown || y.isEmpty(p) == yes {
					return p
				}
			}
		}
		return mk("slice", "", text.T, text, from, to)
	}
	started := mk("call", "strings.Cut", nil, text, sep)
	for _, in := range others {
		s := in.Var
		// possibly after the first piece
		if in.Init == text && len(es0) == 0 || in.Init == mkRet(started, 1, types.Typ[types.String]) && adds(x, es0, mkRet(started, 0, types.Typ[types.String])) {
			// the rest of the text
			index := mk("call", "strings.IndexByte", types.Typ[types.Int], s, char)
			cut := mk("call", "strings.Cut", nil, s, sep)
			good := true
			for i := range l.Backs {
				b := &l.Backs[i]
				y := x.at(b)
				nb, add, ok := expand(loopNext(l, b, base))
				rest := loopNext(l, b, s)
				if !ok || nb != base || rest == nil {
					good = false
					break
				}
				switch before := mkRet(cut, 0, types.Typ[types.String]); {
				case rest == mkRet(cut, 1, types.Typ[types.String]) && adds(y, add, before):
				case y.tri(mkRet(cut, 2, types.Typ[types.Bool])) == no:
					good = y.isEmpty(rest) == yes && (adds(y, add, s) || adds(y, add, before))
				case y.eq(index, mkInt(-1)) == yes:
					good = y.isEmpty(rest) == yes && adds(y, add, s)
				case y.eq(index, mkInt(-1)) == no || y.tri(mkLt(index, mkInt(0))) == no:
					good = rest.Op == "slice" && rest.Args[0] == s && rest.Args[1] == mkAdd(index, mkInt(1), index.T) && rest.Args[2] == nil
					piece := mk("slice", "", s.T, s, mkInt(0), index)
					good = good && (adds(y, add, piece) || adds(y, add, mk("slice", "", s.T, s, nil, index)))
				default:
					good = false
				}
				if !good {
					break
				}
			}
			if !good {
				continue
			}
			switch {
			case x.isEmpty(s) == yes && len(es) == 0:
				return true
			case x.eq(index, mkInt(-1)) == yes && adds(x, es, s):
				return true
			case x.tri(mkRet(cut, 2, types.Typ[types.Bool])) == no && (adds(x, es, s) || adds(x, es, mkRet(cut, 0, types.Typ[types.String]))):
				return true
			}
			// a flag that is false only once nothing remains
			for _, fl := range others {
				if fl.Init != tTrue && (in.Init == text || fl.Init != mkRet(started, 2, types.Typ[types.Bool])) || len(es) > 0 || x.tri(fl.Var) != no {
					continue
				}
				inv := true
				for i := range l.Backs {
					b := &l.Backs[i]
					y := x.at(b)
					nf := loopNext(l, b, fl.Var)
					inv = inv && nf != nil && (nf == tTrue || y.isEmpty(loopNext(l, b, s)) == yes || y.tri(nf) == yes || nf == mkRet(cut, 2, types.Typ[types.Bool]) && loopNext(l, b, s) == mkRet(cut, 1, types.Typ[types.String]))
				}
				if inv {
					return true
				}
			}
			continue
		}
		// the start of the piece, and the position that is looked at
		if len(es0) > 0 || !in.Init.isInt(0) || !isIntType(s.T) {
			continue
		}
		type position struct{ pos, at *Term }
		var ps []position
		for _, p := range others {
			if p.Var != s && p.Init.isInt(0) && isIntType(p.Var.T) {
				step := true
				for i := range l.Backs {
					b := &l.Backs[i]
					step = step && loopNext(l, b, p.Var) == mkAdd(p.Var, mkInt(1), p.Var.T)
				}
				if step {
					ps = append(ps, position{p.Var, mk("byteat", "", nil, text, p.Var)})
				}
			}
		}
		for _, b := range l.Backs {
			for _, f := range b.Facts {
				if f.T.Op == "eq" && f.T.Args[0].Op == "nextval" && f.T.Args[0].Args[0] == text {
					v := f.T.Args[0]
					ps = append(ps, position{mk("nextkey", v.Name, types.Typ[types.Int], text), v})
				}
			}
		}
		for _, p := range ps {
			good := true
			for i := range l.Backs {
				b := &l.Backs[i]
				y := x.at(b)
				nb, add, ok := expand(loopNext(l, b, base))
				if !ok || nb != base {
					good = false
					break
				}
				sepHere := unknown
				for _, f := range b.Facts {
					if f.T.Op == "eq" && unconv(f.T.Args[0]) == p.at && f.T.Args[1] == char {
						sepHere = no
						if f.Pol {
							sepHere = yes
						}
					}
				}
				end := y.eq(p.pos, mkLen(text)) == yes || y.tri(mkLt(p.pos, mkLen(text))) == no && y.tri(mkLt(mkLen(text), p.pos)) == no
				switch {
				case sepHere == yes || end:
					good = loopNext(l, b, s) == mkAdd(p.pos, mkInt(1), p.pos.T) && (adds(y, add, part(y, s, p.pos)) || end && adds(y, add, part(y, s, mkLen(text))))
				case sepHere == no:
					good = loopNext(l, b, s) == s && len(add) == 0
				default:
					good = false
				}
				if !good {
					break
				}
			}
			if !good {
				continue
			}
			atEnd := p.pos.Op == "nextkey" && l.Exhausted && l.Over == text
			past := false
			if p.pos.Op != "nextkey" {
				atEnd = x.tri(mkLt(p.pos, mkLen(text))) == no || x.eq(p.pos, mkLen(text)) == yes
				// the end was an iteration of its own
				past = x.tri(mkLt(mkLen(text), p.pos)) == yes
			}
			if past && len(es) == 0 || atEnd && !past && adds(x, es, part(x, s, mkLen(text))) {
				return true
			}
		}
	}
	return false
}

// scopeText checks the text of a scope.
func (j *J) scopeText() {
	f, ps := j.anchor("(Scope).String")
	if f == nil {
		return
	}
	for _, t := range j.traces("(Scope).String", nil) {
		x := newTr(j.c, t, nil, nil, nil)
		j.class("text")
		if !j.ob(t.End == "return", "returns", "String", f.Pos(), t, "String may not return") {
			continue
		}
		r := t.Results[0]
		ok := r == mk("call", "strings.Join", nil, ps[0], mkStr(" ")) || r.isStr("") && x.scopeEmpty(ps[0]) == yes || x.eq(mkLen(ps[0]), mkInt(1)) == yes && r == elemAt(ps[0], mkInt(0)) || x.joined(r, ps[0])
		j.ob(ok, "text", "String", f.Pos(), t, "the textual form does not join the names with single spaces")
	}
}

// joined tells whether a text was put together by an iteration over all names,
// with single spaces in between.
func (x *Tr) joined(r, s *Term) bool {
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := x.visits(ev.Loop, s)
		if it == nil || !it.forward {
			continue
		}
		check := func(v, init *Term, after func(b *LoopBack) *Term) bool {
			if v != r {
				return false
			}
			switch {
			case it.start == 0 && (init == nil || init.isStr("")):
			case it.start == 1 && init == elemAt(s, mkInt(0)):
			default:
				return false
			}
			e := elemAt(s, it.idx)
			for i := range it.l.Backs {
				b := &it.l.Backs[i]
				y := x.at(b)
				first := y.eq(it.idx, mkInt(0))
				if first == unknown {
					first = -y.tri(mkLt(mkInt(0), it.idx))
				}
				if it.start == 1 {
					first = no
				}
				switch a := after(b); {
				case first == yes && a == mkConcat([]*Term{v, e}):
				case first == no && a == mkConcat([]*Term{v, mkStr(" "), e}):
				default:
					return false
				}
			}
			return true
		}
		for _, in := range it.l.Init {
			if check(in.Var, in.Init, func(b *LoopBack) *Term { return b.Phis[in.Var] }) {
				return true
			}
		}
		for _, m := range it.l.Mem {
			if check(m.Var, m.Init, func(b *LoopBack) *Term { return b.St.mem[m.Cell] }) {
				return true
			}
		}
	}
	return false
}

// C26: scopes.
func ruleC26(j *J) {
	j.expl = "Contains, Includes and Empty: every path returning true entails membership, inclusion or emptiness and every path returning false its negation, where negations over all elements are discharged by iterations that provably visit every element; ParseScope: the result is built by an iteration over all space-separated parts that adds exactly the non-empty ones in order; String joins with single spaces, the JSON methods encode that text and parse it back"
	j.scopeIncludes()
	j.scopeParsed()
	j.scopeText()
	j.scopeJSON()
	j.require("text")
}

// boolean checks a predicate of a scope.
func (j *J) boolean(short string, decide func(x *Tr, ps []*Term) int, what string) {
	f, ps := j.anchor(short)
	if f == nil {
		return
	}
	for _, t := range j.traces(short, nil) {
		if !j.ob(t.End == "return", "returns", short, f.Pos(), t, "%s may not return", short) {
			continue
		}
		for _, x := range newTr(j.c, t, nil, nil, nil).split(t.Results[0]) {
			r := x.tri(t.Results[0])
			j.class(short + map[int]string{yes: " true", no: " false", unknown: " unknown"}[r])
			j.ob(r != unknown && decide(x, ps) == r, what, short, f.Pos(), t, "a path of %s returns %v although that does not follow for all elements", short, r == yes)
		}
	}
	j.require(short+" true", short+" false")
}

// scopeIncludes checks the predicates of a scope.
func (j *J) scopeIncludes() {
	j.boolean("(Scope).Contains", func(x *Tr, ps []*Term) int { return x.member(ps[1], ps[0]) }, "membership")
	j.boolean("(Scope).Includes", func(x *Tr, ps []*Term) int { return x.subset(ps[1], ps[0]) }, "inclusion")
	j.boolean("(Scope).Empty", func(x *Tr, ps []*Term) int { return x.scopeEmpty(ps[0]) }, "emptiness")
}

// scopeParsed checks how scopes are parsed.
func (j *J) scopeParsed() {
	if f, ps := j.anchor("ParseScope"); f != nil {
		list := mk("call", "strings.Split", nil, ps[0], mkStr(" "))
		for _, t := range j.traces("ParseScope", nil) {
			if !j.ob(t.End == "return", "returns", "ParseScope", f.Pos(), t, "ParseScope may not return") {
				continue
			}
			x := newTr(j.c, t, nil, nil, nil)
			j.class("parsed scope")
			if x.isEmpty(ps[0]) == yes && t.St.lenOf(t.Results[0]).isInt(0) {
				continue
			}
			why := x.names(t.Results[0], list)
			if why != "" {
				// the parts without the empty ones
				if l := mk("call", "strings.FieldsFunc", nil, ps[0], mkStr(" ")); x.names(t.Results[0], l) == "" {
					why = ""
				}
			}
			j.ob(why == "", "names", "ParseScope", f.Pos(), t, "%s", why)
		}
		j.require("parsed scope")
	}
}

// scopeJSON checks the JSON form of a scope.
func (j *J) scopeJSON() {
	join := func(s *Term) *Term { return mk("call", "strings.Join", nil, s, mkStr(" ")) }
	if f, ps := j.anchor("(Scope).MarshalJSON"); f != nil {
		m := mk("call", "encoding/json.Marshal", nil, mk("iface", "string", nil, join(ps[0])))
		for _, t := range j.traces("(Scope).MarshalJSON", nil) {
			j.class("marshalled")
			if !j.ob(t.End == "return", "returns", "MarshalJSON", f.Pos(), t, "MarshalJSON may not return") {
				continue
			}
			x := newTr(j.c, t, nil, nil, nil)
			ok := t.Results[0] == mkRet(m, 0, nil) && (t.Results[1] == mkRet(m, 1, nil) || t.Results[1].isNil() && x.eq(mkRet(m, 1, nil), tNil) == yes) ||
				x.eq(mkRet(m, 1, nil), tNil) == no && x.eq(t.Results[1], tNil) == no
			j.ob(ok, "json", "MarshalJSON", f.Pos(), t, "the JSON form is not the encoded text")
		}
	}
	if f, ps := j.anchor("(*Scope).UnmarshalJSON"); f != nil {
		atomic := map[string]string{modPath + ".ParseScope": "pure"}
		um := mk("call", "encoding/json.Unmarshal", nil, ps[1], mkStr("string"))
		want := parseScope(mk("decoded", "string", nil, ps[1]))
		for _, t := range j.traces("(*Scope).UnmarshalJSON", atomic) {
			if !j.ob(t.End == "return", "returns", "UnmarshalJSON", f.Pos(), t, "UnmarshalJSON may not return") {
				continue
			}
			x := newTr(j.c, t, nil, nil, nil)
			var stored []*Event
			for _, e := range t.Events {
				if e.Kind == "store" && root(e.Args[0]) == ps[0] {
					stored = append(stored, e)
				}
			}
			switch x.eq(t.Results[0], tNil) {
			case yes:
				j.class("unmarshalled")
				ok := x.eq(um, tNil) == yes && len(stored) > 0 && stored[len(stored)-1].Args[0] == ps[0] && stored[len(stored)-1].Args[1] == want
				j.ob(ok, "json", "UnmarshalJSON", f.Pos(), t, "the scope is not the parsed text of the JSON form")
			case no:
				j.class("rejected JSON")
				j.ob(len(stored) == 0, "json", "UnmarshalJSON error", f.Pos(), t, "the scope is changed by a JSON form that does not decode")
				j.ob(x.eq(um, tNil) == no, "json", "UnmarshalJSON refused", f.Pos(), t, "a decodable JSON form is refused")
			default:
				j.ob(false, "json", "UnmarshalJSON result", f.Pos(), t, "it is not determined whether decoding succeeds")
			}
		}
	}
	j.require("marshalled", "unmarshalled", "rejected JSON")
}
