package main

import (
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// knownTables lists the names each type test accepts.
var knownTables = map[string][]string{
	"KnownGrantType":    {"authorization_code", "client_credentials", "password", "refresh_token"},
	"KnownResponseType": {"code", "token"},
	"KnownTokenType":    {"access_token", "refresh_token"},
}

// constTable lists the values of the exported constants.
var constTable = map[string]string{
	"PasswordGrantType": "password", "ClientCredentialsGrantType": "client_credentials", "AuthorizationCodeGrantType": "authorization_code",
	"RefreshTokenGrantType": "refresh_token", "TokenResponseType": "token", "CodeResponseType": "code", "AccessToken": "access_token",
	"RefreshToken": "refresh_token", "BearerAccessTokenType": "bearer",
}

// C38: known types.
func ruleC38(j *J) {
	j.expl = "every path of KnownGrantType, KnownResponseType and KnownTokenType that returns true has found its argument equal to one of the specified names and every path that returns false has found it different from all of them; the exported constants carry the specified names; no path of WriteIntrospectionResponse writes an active response whose token type is not known to be one of the specified ones, and every path that refuses one returns an error and leaves the response writer untouched"
	for _, n := range sortedKeys(knownTables) {
		f, ps := j.anchor(n)
		if f == nil {
			continue
		}
		for _, t := range j.traces(n, nil) {
			if !j.ob(t.End == "return" && len(ps) == 1, "returns", n, f.Pos(), t, "%s may not return", n) {
				continue
			}
			x := newTr(j.c, t, nil, nil, nil)
			for _, v := range knownTables[n] {
				q := mkEq(ps[0], mkStr(v))
				// whatever the path leaves open about the argument has to make no difference
				switch x.tri(q) {
				case no:
					continue
				case yes:
					j.class(n + " known")
					j.ob(x.tri(t.Results[0]) == yes, "known", n+" "+v, f.Pos(), t, "%s does not accept %q", n, v)
				default:
					st := t.St.clone()
					if !st.assume(q, true) {
						continue
					}
					r, ok := st.eval(t.Results[0])
					j.class(n + " known")
					j.ob(ok && r, "known", n+" "+v, f.Pos(), t, "%s may not accept %q", n, v)
				}
			}
			st := t.St.clone()
			other := true
			for _, v := range knownTables[n] {
				other = other && st.assume(mkEq(ps[0], mkStr(v)), false)
			}
			if other {
				r, ok := st.eval(t.Results[0])
				j.class(n + " other")
				j.ob(ok && !r, "other", n, f.Pos(), t, "%s may accept other names than %s", n, strings.Join(knownTables[n], ", "))
			}
		}
		j.require(n+" known", n+" other")
	}
	for _, n := range sortedKeys(constTable) {
		o, ok := j.c.root.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			j.ob(false, "anchor", n, 0, nil, "the constant %s does not exist any more", n)
			continue
		}
		j.class("constant")
		j.ob(o.Val().Kind() == constant.String && constant.StringVal(o.Val()) == constTable[n], "constant", n, o.Pos(), nil, "the constant %s is not %q", n, constTable[n])
	}
	f, ps := j.anchor("WriteIntrospectionResponse")
	if f == nil {
		return
	}
	w, r := ps[0], ps[1]
	for _, t := range j.traces("WriteIntrospectionResponse", nil) {
		if t.End != "return" {
			continue
		}
		x := newTr(j.c, t, nil, w, nil)
		touched := false
		for _, e := range x.Events {
			switch e.Kind {
			case "hset", "hadd", "hdel", "status", "body", "wescape":
				touched = true
			}
		}
		if !touched {
			j.class("refused response")
			j.ob(x.isNil(t.St.resolve(t.Results[0])) == no, "refused", "WriteIntrospectionResponse", f.Pos(), t, "nothing is written and no error returned")
			j.ob(x.tri(sel(r, "Active")) == yes, "refused", "WriteIntrospectionResponse inactive", f.Pos(), t, "an inactive response may be refused")
			for _, v := range knownTables["KnownTokenType"] {
				j.ob(x.tri(mkEq(sel(r, "TokenType"), mkStr(v))) == no, "refused", "WriteIntrospectionResponse "+v, f.Pos(), t, "an active response with the token type %q may be refused", v)
			}
			continue
		}
		j.class("written response")
		ok := x.tri(sel(r, "Active")) == no
		for _, v := range knownTables["KnownTokenType"] {
			ok = ok || x.tri(mkEq(sel(r, "TokenType"), mkStr(v))) == yes
		}
		if !ok {
			st := t.St.clone()
			open := st.assume(sel(r, "Active"), true)
			for _, v := range knownTables["KnownTokenType"] {
				open = open && st.assume(mkEq(sel(r, "TokenType"), mkStr(v)), false)
			}
			ok = !open
		}
		j.ob(ok, "token type", "WriteIntrospectionResponse", x.pos(), t, "an active response with an unknown token type may be written")
	}
	j.require("constant", "refused response", "written response")
}

// canon orders the entries of maps by their names.
func canon(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = canon(a)
	}
	if t.Op == "mapval" && len(args) > 1 {
		known := true
		for _, e := range args[1:] {
			if len(e.Args) == 0 || e.Args[0] == nil {
				known = false
				break
			}
			_, ok := e.Args[0].str()
			known = known && ok
		}
		if known {
			sort.SliceStable(args[1:], func(i, k int) bool {
				a, _ := args[1+i].Args[0].str()
				b, _ := args[1+k].Args[0].str()
				return a < b
			})
		}
	}
	if slices.Equal(args, t.Args) {
		return t
	}
	return mk(t.Op, t.Name, t.T, args...)
}

// outcome is what a path delivers: its results and what it writes.
func outcome(t *Trace) []*Term {
	var out []*Term
	for _, r := range t.Results {
		out = append(out, canon(t.St.snapshot(r, 0)))
	}
	hdr := map[string]*Term{}
	for _, e := range t.Events {
		switch e.Kind {
		case "hset", "hadd":
			if k, ok := e.Args[1].str(); ok {
				hdr[e.Kind+k] = mk("header", e.Kind+k, nil, hdr[e.Kind+k], canon(t.St.snapshot(e.Args[2], 0)))
			}
		case "status", "body":
			for _, a := range e.Args[1:] {
				out = append(out, canon(t.St.snapshot(a, 0)))
			}
		}
	}
	for _, k := range sortedKeys(hdr) {
		out = append(out, hdr[k])
	}
	return out
}

func factKey(t *Trace) string {
	var fs []string
	for _, f := range t.Facts {
		s := termID(f.T)
		if f.Pol {
			s = "+" + s
		}
		fs = append(fs, s)
	}
	sort.Strings(fs)
	return strings.Join(fs, " ")
}

// totalOrder tells whether what a comparison function returns compares the
// elements themselves or one of their fields.
func totalOrder(res []*Term) bool {
	var whole func(t *Term) bool
	whole = func(t *Term) bool {
		return t.Op == "elem" || (t.Op == "sel" || t.Op == "conv") && whole(t.Args[0])
	}
	for _, r := range res {
		for r.Op == "not" {
			r = r.Args[0]
		}
		if r.Op == "lt" && r.Args[1].isInt(0) {
			r = r.Args[0] // a three-way comparison
		}
		if !(r.Op == "lt" || r.isCall("strings.Compare")) || !whole(r.Args[0]) || !whole(r.Args[1]) {
			return false
		}
	}
	return len(res) > 0
}

// sortedAfter tells whether a path sorts a list of n elements after its last
// iteration over a map of n entries.
func sortedAfter(t *Trace) bool {
	n := -1
	for _, e := range t.Events {
		switch e.Kind {
		case "maprange":
			n = 0
			if o := t.St.maps[e.Args[0]]; o != nil {
				n = len(o.Ops)
			}
		case "sort":
			if n < 0 {
				continue
			}
			l := unface(e.Args[0])
			for l != nil && l.Op == "conv" {
				l = l.Args[0]
			}
			if l = t.St.snapshot(l, 0); l != nil && l.Op == "list" && len(l.Args) >= n && (len(e.Args) < 2 || totalOrder(e.Args[2:])) {
				n = -1
			}
		}
	}
	return n < 0
}

// variable finds a part of a value that differs from call to call.
func variable(t *Term) *Term {
	var found *Term
	t.walk(func(n *Term) {
		if n.Op != "call" && n.Op != "fresh" {
			return
		}
		for _, p := range []string{"time.Now", "time.Since", "time.Until", "math/rand", "crypto/rand", "os.", "runtime.", "maphash"} {
			if strings.HasPrefix(n.Name, p) || strings.Contains(n.Name, "math/rand") {
				found = n
			}
		}
		if strings.Contains(n.Name, "GenerateHS256Token") {
			found = n
		}
	})
	return found
}

// C39: texts.
func ruleC39(j *J) {
	j.expl = "every path of the textual forms of an error: String and Error are its code and description joined by a colon, Params lists exactly the parameters of Map, each once, in the form name=\"value\" and separated by commas; for every exported function apart from token generation, server and client: the results and responses of each path are the same whichever way maps are iterated over (the analysis is run with both orders; where they differ the pieces have to be sorted first), nothing is accumulated or written in the order of a map of unknown contents, and no part depends on the clock, randomness or the environment"
	for _, n := range []string{"(*Error).String", "(*Error).Error"} {
		f, ps := j.anchor(n)
		if f == nil {
			continue
		}
		for _, t := range j.traces(n, nil) {
			if !j.ob(t.End == "return", "returns", n, f.Pos(), t, "%s may not return", n) {
				continue
			}
			j.class("text of " + n)
			x := newTr(j.c, t, nil, nil, nil)
			name, descr := sel(ps[0], "Name"), sel(ps[0], "Description")
			var holes []*Term
			s := challengeText(t.St.snapshot(t.Results[0], 0), &holes)
			ok := s == "\x000\x00: \x001\x00" && x.St.same(holes[0], name) && x.St.same(holes[1], descr) ||
				x.isEmpty(descr) == yes && s == "\x000\x00: " && x.St.same(holes[0], name) ||
				x.isEmpty(name) == yes && s == ": \x000\x00" && x.St.same(holes[0], descr) ||
				x.isEmpty(name) == yes && x.isEmpty(descr) == yes && s == ": "
			j.ob(ok, "text", n, f.Pos(), t, "the text of an error is not its code and description")
		}
		j.require("text of " + n)
	}
	if f, ps := j.anchor("(*Error).Params"); f != nil {
		for _, t := range j.traces("(*Error).Params", nil) {
			if t.End != "return" {
				continue
			}
			j.class("parameters of an error")
			x := newTr(j.c, t, nil, nil, nil)
			var holes []*Term
			s := challengeText(t.St.snapshot(t.Results[0], 0), &holes)
			got := map[string]*Term{}
			ok := true
			if s != "" {
				for _, p := range strings.Split(s, ", ") {
					g := challengeParam.FindStringSubmatch(p)
					if g == nil || got[g[1]] != nil || g[3] == "" {
						ok = false
						break
					}
					n := 0
					for _, c := range g[3] {
						n = n*10 + int(c-'0')
					}
					got[g[1]] = holes[n]
				}
			}
			if !j.ob(ok, "form", "Params", f.Pos(), t, "the parameters are not a list of name=\"value\" pairs") {
				continue
			}
			table := append([]reprField{}, reprTables["Error"]...)
			for i := range table {
				table[i].required = false
			}
			j.reprEntries(x, "Params", table, got, ps[0])
		}
		j.require("parameters of an error")
	}
	for _, f := range j.exported() {
		if strings.Contains(f.Name(), "Generate") || strings.HasPrefix(f.Name(), "Must") {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			if s := types.TypeString(r.Type(), nil); s == "*"+modPath+".Server" || s == "*"+modPath+".Client" {
				continue
			}
		}
		j.determined(f)
	}
	j.require("determined function")
}

func (j *J) determined(f *ssa.Function) {
	short := fnShort(f)
	ps := paramsOf(f)
	j.class("determined function")
	ts := j.tracesOf(f, ps, nil, short)
	in := j.c.in
	in.reverse = true
	rs := j.tracesOf(f, ps, nil, short)
	in.reverse = false
	back := map[string][]*Trace{}
	for _, r := range rs {
		back[factKey(r)] = append(back[factKey(r)], r)
	}
	for _, t := range ts {
		if t.End != "return" {
			continue
		}
		k := factKey(t)
		if l := back[k]; len(l) > 0 {
			j.class("path in both orders")
			back[k] = l[1:]
			j.ob(slices.Equal(outcome(t), outcome(l[0])) || sortedAfter(t), "iteration order", short, f.Pos(), t, "what %s delivers depends on the order in which a map is iterated over", short)
		}
		for _, o := range outcome(t) {
			v := variable(o)
			j.ob(v == nil, "variable", short, f.Pos(), t, "what %s delivers depends on %v", short, v)
		}
		for i, e := range t.Events {
			if e.Kind != "loop" || e.Loop.Over == nil || e.Loop.Over.T == nil {
				continue
			}
			if _, ok := e.Loop.Over.T.Underlying().(*types.Map); !ok {
				continue
			}
			j.class("iteration over a map")
			entry := func(n *Term) bool { return (n.Op == "nextkey" || n.Op == "nextval") && n.Args[0] == e.Loop.Over }
			sorted := false
			for _, l := range t.Events[i:] {
				sorted = sorted || l.Kind == "sort"
			}
			for _, b := range e.Loop.Backs {
				for v, u := range b.Phis {
					u = b.St.snapshot(u, 0)
					j.ob(sorted || !(u != v && mentions(u, v) && u.contains(entry)), "iteration order", short, e.Pos, t, "%s accumulates the entries of a map in the order of its iteration", short)
				}
				for _, m := range e.Loop.Mem {
					u := b.St.mem[m.Cell]
					if u == nil {
						continue
					}
					u = b.St.snapshot(u, 0)
					j.ob(sorted || !(u != m.Var && mentions(u, m.Var) && u.contains(entry)), "iteration order", short, e.Pos, t, "%s accumulates the entries of a map in the order of its iteration", short)
				}
				for _, l := range b.Events {
					if l.Kind == "body" {
						j.ob(false, "iteration order", short, l.Pos, t, "%s writes the entries of a map in the order of its iteration", short)
					}
				}
			}
		}
	}
}
