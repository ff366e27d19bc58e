package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var suitePath = modPath + "/oauth2test"

// suiteAtomic lists the functions that are not inlined when the suite is
// analysed: exchanges are recorded and readers of a reply are opaque. With
// groups set the test groups are recorded as well.
func (j *J) suiteAtomic(groups bool) map[string]string {
	m := map[string]string{suitePath + ".Do": "exchange"}
	for _, f := range j.suiteFuncs() {
		sg := f.Signature
		if sg.Recv() != nil || f.Parent() != nil {
			continue
		}
		p := sg.Params()
		if p.Len() > 0 && sg.Results().Len() > 0 && types.TypeString(p.At(0).Type(), nil) == "*net/http/httptest.ResponseRecorder" {
			m[f.String()] = "pure"
		}
		if groups && f.Object() != nil && f.Object().Exported() && isGroup(f) {
			m[f.String()] = "event"
		}
	}
	return m
}

func (j *J) suiteFuncs() (out []*ssa.Function) {
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == suitePath && len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return
}

// isGroup tells whether a function is a test group: its first parameters are
// the test and the specification.
func isGroup(f *ssa.Function) bool {
	p := f.Signature.Params()
	return f.Parent() == nil && p.Len() >= 2 && types.TypeString(p.At(0).Type(), nil) == "*testing.T" && types.TypeString(p.At(1).Type(), nil) == "*"+suitePath+".Spec" && f.Name() != "Run"
}

// exchange is a scripted request together with the events of its callback.
type exchange struct {
	ev     *Event
	fields map[string]*Term
	events []*Event
	before []*Event // events of the path up to the exchange
	facts  []Fact   // what the path knows about the reply
	trace  *Trace
}

// copies tells whether the loop that uses a key stores every one of them.
func (x *exchange) copies(key *Term) bool {
	for _, e := range x.before {
		if e.Kind != "loop" || e.Loop == nil {
			continue
		}
		uses, all := false, e.Loop.Exhausted
		for _, b := range e.Loop.Backs {
			set := false
			for _, n := range b.Events {
				if n.Kind == "lset" && len(n.Args) > 1 && n.Args[1] == key {
					set, uses = true, true
				}
			}
			all = all && set
		}
		if uses {
			return all
		}
	}
	return false
}

// entryOf tells of which map a key and a value are the entry visited by some
// loop before the exchange.
func (x *exchange) entryOf(k, v *Term) *Term {
	var m *Term
	if v.Op == "nextval" || v.Op == "lookup" {
		m = v.Args[0]
	}
	y := &Tr{Trace: &Trace{Events: x.before, Facts: x.trace.Facts, St: x.trace.St}}
	for _, e := range x.before {
		if m != nil && e.Kind == "loop" && e.Loop != nil && y.entryOf(e.Loop, k, v, m) && y.walks(e.Loop, m) {
			return m
		}
	}
	return nil
}

func exchanges(t *Trace) (out []*exchange, bad *Event) {
	var cur *exchange
	for i, e := range t.Events {
		switch e.Kind {
		case "exchange":
			if cur != nil {
				return out, e
			}
			cur = &exchange{ev: e, fields: map[string]*Term{}, before: t.Events[:i], trace: t}
			for _, a := range e.Args[1:] {
				cur.fields[a.Name] = a.Args[0]
			}
		case "exchanged":
			if cur == nil {
				return out, e
			}
			out = append(out, cur)
			cur = nil
		case "loop":
			for _, b := range e.Loop.Backs {
				for _, n := range b.Events {
					if n.Kind == "exchange" {
						return out, n
					}
				}
			}
		default:
			if cur != nil {
				cur.events = append(cur.events, e)
				break
			}
			// a reply kept beyond its callback
			for _, x := range out {
				rec := x.fields["recorder"]
				for _, a := range e.Args {
					if rec != nil && e.Kind == "assert" && a.contains(func(t *Term) bool { return t == rec }) {
						x.events = append(x.events, e)
						break
					}
				}
			}
		}
	}
	for _, x := range out {
		rec := x.fields["recorder"]
		for _, f := range t.Facts {
			if rec != nil && f.T.contains(func(t *Term) bool { return t == rec }) {
				x.facts = append(x.facts, f)
			}
		}
	}
	return out, nil
}

// specField names the field of the specification a term stands for.
func specField(t *Term) string {
	if t == nil {
		return ""
	}
	t = unface(t)
	if t.Op == "sel" && t.Args[0].T != nil && t.Args[0].Op == "param" && strings.HasSuffix(types.TypeString(t.Args[0].T, nil), ".Spec") {
		return t.Name
	}
	return ""
}

func suiteVal(t *Term) string {
	if t == nil {
		return "-"
	}
	if f := specField(t); f != "" {
		return f
	}
	if s, ok := t.str(); ok {
		return fmt.Sprintf("%q", s)
	}
	if t.isConst() {
		return t.Name
	}
	if t.Op == "concat" {
		var ps []string
		for _, a := range t.Args {
			ps = append(ps, suiteVal(a))
		}
		return strings.Join(ps, "+")
	}
	if t.Op == "call" && len(t.Args) == 2 && strings.HasPrefix(callName(t), suitePath) {
		if k, ok := t.Args[1].str(); ok {
			return "<" + k + ">" // read from a reply
		}
	}
	if t.Op == "param" && strings.HasPrefix(t.Name, "arg:") {
		return t.Name
	}
	return "*"
}

// groupParams are the parameters of a test group.
func groupParams(f *ssa.Function) []*Term {
	ps := paramsOf(f)
	for i := 2; i < len(ps); i++ {
		ps[i] = mk("param", fmt.Sprintf("arg:%d", i), ps[i].T)
	}
	return ps
}

// suiteMap lists the entries of a map built on the path, with the maps copied
// into it under "...".
func (x *exchange) suiteMap(t *Term) (m map[string]string, ok bool) {
	m = map[string]string{}
	if t == nil || t.isNil() {
		return m, true
	}
	if f := specField(t); f != "" {
		m["..."+f] = ""
		return m, true
	}
	if t.Op != "mapval" || t.Name == "unknown" {
		return m, false
	}
	if b := t.Args[0]; b.Op != "emptymap" {
		if f := specField(b); f != "" {
			m["..."+f] = ""
		} else {
			return m, false
		}
	}
	for _, e := range t.Args[1:] {
		switch e.Name {
		case "set":
			if k, ok := e.Args[0].str(); ok {
				m[k] = suiteVal(e.Args[1])
				continue
			}
			return m, false
		case "loopset":
			// a complete copy of another map, unless it comes last
			k, v := e.Args[0], e.Args[1]
			f := ""
			if m := x.entryOf(k, v); m != nil {
				f = specField(m)
			}
			if f == "" || !x.copies(k) {
				return m, false
			}
			for n := range m {
				if !strings.HasPrefix(n, "...") {
					f = "override:" + f
					break
				}
			}
			m["..."+f] = ""
		default:
			return m, false
		}
	}
	return m, true
}

func flat(m map[string]string) string {
	var out []string
	for k, v := range m {
		if strings.HasPrefix(k, "...") {
			out = append(out, k)
		} else {
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// statuses lists what the callback of an exchange requires of the reply's
// status: the constants it is compared to.
func (x *exchange) statuses() (out []string, foreign bool) {
	rec := x.fields["recorder"]
	isCode := func(t *Term) bool {
		t = unface(t)
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		return t != nil && t.Op == "sel" && t.Name == "Code" && t.Args[0] == rec
	}
	num := func(t *Term) (int64, bool) {
		t = unface(t)
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		if t == nil {
			return 0, false
		}
		return t.intVal()
	}
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, f := range x.facts { // the path that does not report a failure
		if f.T.Op == "eq" && isCode(f.T.Args[0]) {
			if n, ok := num(f.T.Args[1]); ok {
				s := fmt.Sprint(n)
				if !f.Pol {
					s = "not " + s
				}
				add(s)
			}
		}
	}
	for _, e := range x.events {
		if e.Kind != "assert" {
			continue
		}
		if len(e.Args) < 2 || !ownT(e.Args[0]) {
			foreign = true
			continue
		}
		a := e.Args
		switch e.Name {
		case "Equal", "EqualValues", "Exactly", "NotEqual", "Equalf", "NotEqualf", "NotEqualValues", "EqualValuesf":
			if len(a) < 3 {
				continue
			}
			n, ok := num(a[1])
			c := a[2]
			if !ok {
				n, ok = num(a[2])
				c = a[1]
			}
			if ok && isCode(c) {
				s := fmt.Sprint(n)
				if strings.HasPrefix(e.Name, "Not") {
					s = "not " + s
				}
				add(s)
			}
		case "True", "False", "Truef", "Falsef":
			c := unface(a[1])
			pol := strings.HasPrefix(e.Name, "True")
			for c.Op == "not" {
				c, pol = c.Args[0], !pol
			}
			if c.Op == "eq" && isCode(c.Args[0]) {
				if n, ok := num(c.Args[1]); ok {
					s := fmt.Sprint(n)
					if !pol {
						s = "not " + s
					}
					add(s)
				}
			}
		}
	}
	return out, foreign
}

// ownT tells whether a term is the running test.
func ownT(t *Term) bool {
	t = unface(t)
	return t != nil && t.Op == "param" && t.T != nil && types.TypeString(t.T, nil) == "*testing.T"
}

// failed tells whether the path reports a failure of its own.
func (x *exchange) failed(t *Trace) bool {
	for _, e := range x.events {
		n := e.Name
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[i+1:]
		}
		if (e.Kind == "call" || e.Kind == "pure" || e.Kind == "assert") && (strings.HasPrefix(n, "Error") || strings.HasPrefix(n, "Fail") || strings.HasPrefix(n, "Fatal")) {
			return true
		}
	}
	return false
}

func (x *exchange) sig(status string) string {
	form, fok := x.suiteMap(x.fields["Form"])
	hdr, hok := x.suiteMap(x.fields["Header"])
	if !fok {
		form["?"] = "?"
	}
	if !hok {
		hdr["?"] = "?"
	}
	s := suiteVal(x.fields["Method"]) + " " + suiteVal(x.fields["Path"])
	s += " as " + suiteVal(x.fields["Username"]) + ":" + suiteVal(x.fields["Password"])
	s += " form{" + flat(form) + "} header{" + flat(hdr) + "} -> " + status
	return s
}

//go:embed suite.txt
var suiteTable string

// scripted is a required exchange or sub group: it has to take place n times
// unless one of the capabilities in cond is known to be missing.
type scripted struct {
	group, cond, sig string
	n                int
	mentions         []string
}

func suiteRows() (out []scripted) {
	for _, l := range strings.Split(suiteTable, "\n") {
		p := strings.Split(l, " | ")
		if len(p) < 4 || strings.HasPrefix(l, "#") {
			continue
		}
		n, _ := strconv.Atoi(p[2])
		s := scripted{group: p[0], cond: p[1], n: n, sig: p[3]}
		if len(p) > 4 {
			s.mentions = strings.Fields(p[4])
		}
		out = append(out, s)
	}
	return
}

// sigMatch compares two signatures; a value of unknown origin matches any
// value read from a reply.
func sigMatch(want, got string) bool {
	if want == got {
		return true
	}
	w, g := strings.Fields(want), strings.Fields(got)
	if len(w) != len(g) {
		return false
	}
	for i := range w {
		if w[i] == g[i] {
			continue
		}
		a, b := strings.IndexByte(w[i], '<'), strings.IndexByte(g[i], '*')
		if a < 0 || a != b || w[i][:a] != g[i][:b] {
			return false
		}
	}
	return true
}

// mentions lists what the callback compares the reply with, apart from its
// status: constants and settings. With keys set, the constants that select what
// is read from the reply are included.
func (x *exchange) mentions(keys bool) map[string]bool {
	m := map[string]bool{}
	rec := x.fields["recorder"]
	reads := func(a *Term) bool { return a.contains(func(t *Term) bool { return t == rec }) }
	for _, f := range x.facts {
		if f.T.Op != "eq" {
			if s := truth(f.T, f.Pol, rec); s != "" {
				m[s], m[strings.SplitN(s, "=", 2)[1]] = true, true
			}
			continue
		}
		name := "Equal"
		if !f.Pol {
			name = "NotEqual"
		}
		if s := presence(name, f.T.Args, rec); s != "" {
			m[s] = true
		}
		for _, a := range f.T.Args {
			if s, ok := a.str(); ok && f.Pol {
				m[strconv.Quote(s)] = true
			}
			if s := specField(a); s != "" && f.Pol {
				m[s] = true
			}
		}
	}
	for _, e := range x.events {
		if e.Kind != "assert" || len(e.Args) < 2 || !ownT(e.Args[0]) {
			continue
		}
		as := e.Args[1:]
		if p := presence(e.Name, as, rec); p != "" {
			m[p] = true
		}
		n := 2
		switch strings.TrimSuffix(e.Name, "f") {
		case "True", "False":
			n = 1
		case "Empty", "NotEmpty", "Nil", "NotNil", "Zero", "NotZero":
			continue
		}
		if len(as) < n {
			continue
		}
		as = as[:n]
		any := false
		for _, a := range as {
			any = any || reads(a)
		}
		if !any {
			continue
		}
		if n == 1 {
			m[strings.ToLower(strings.TrimSuffix(e.Name, "f"))] = true
		}
		for _, a := range as {
			if reads(a) && !keys {
				continue
			}
			a.walk(func(t *Term) {
				if s, ok := t.str(); ok {
					m[strconv.Quote(s)] = true
				}
				if t == tTrue || t == tFalse {
					m[t.Name] = true
				}
				if f := specField(t); f != "" {
					m[f] = true
				}
			})
		}
	}
	return m
}

// truth names a truth value read from a reply.
func truth(v *Term, pol bool, rec *Term) string {
	for v.Op == "not" {
		v, pol = v.Args[0], !pol
	}
	if v.Op == "call" && len(v.Args) == 2 && v.Args[0] == rec {
		if k, ok := v.Args[1].str(); ok {
			return fmt.Sprintf("%s=%v", k, pol)
		}
	}
	return ""
}

// presence tells which value read from a reply an assertion requires to be
// present (+) or absent (-).
func presence(name string, as []*Term, rec *Term) string {
	var v *Term
	pol := true
	name = strings.TrimSuffix(name, "f")
	empty := func(t *Term) bool {
		t = unface(t)
		return t.isStr("") || t.isInt(0) || t.isNil()
	}
	switch name {
	case "NotEmpty", "Empty", "NotZero", "Zero":
		v, pol = as[0], strings.HasPrefix(name, "Not")
	case "NotEqual", "Equal", "NotEqualValues", "EqualValues", "Exactly":
		if len(as) < 2 {
			return ""
		}
		pol = strings.HasPrefix(name, "Not")
		switch {
		case empty(as[0]):
			v = as[1]
		case empty(as[1]):
			v = as[0]
		case unface(as[0]) == tTrue || unface(as[0]) == tFalse:
			return truth(unface(as[1]), (unface(as[0]) == tTrue) != pol, rec)
		case unface(as[1]) == tTrue || unface(as[1]) == tFalse:
			return truth(unface(as[0]), (unface(as[1]) == tTrue) != pol, rec)
		}
	case "Len":
		if len(as) > 1 && empty(as[1]) {
			v, pol = as[0], false
		}
	case "True", "False":
		v = unface(as[0])
		pol = name == "True"
		for v.Op == "not" {
			v, pol = v.Args[0], !pol
		}
		switch {
		case v.Op == "eq" && empty(v.Args[1]):
			v, pol = v.Args[0], !pol
		case v.Op == "lt" && empty(v.Args[0]):
			v = v.Args[1]
		default:
			return truth(v, pol, rec)
		}
	}
	if v == nil {
		return ""
	}
	v = unface(v)
	for v.Op == "len" || v.Op == "conv" || v.Op == "bytes" {
		v = v.Args[0]
	}
	sign := "-"
	if pol {
		sign = "+"
	}
	if v.Op != "call" || len(v.Args) == 0 || !v.contains(func(t *Term) bool { return t == rec }) {
		return ""
	}
	if len(v.Args) == 2 && v.Args[0] == rec {
		if k, ok := v.Args[1].str(); ok {
			return sign + k
		}
	}
	if (strings.HasSuffix(callName(v), "bytes.Buffer).String") || strings.HasSuffix(callName(v), "bytes.Buffer).Bytes") || strings.HasSuffix(callName(v), "bytes.Buffer).Len")) && v.Args[0] == sel(rec, "Body") {
		return sign + "Body"
	}
	return ""
}

// capability conditions
func suiteCond(t *Trace) map[string]int {
	c := map[string]int{"introspection": unknown, "revocation": unknown, "replay": unknown, "refresh": unknown}
	for _, f := range t.Facts {
		if f.T.Op == "eq" && f.T.Args[1].isStr("") {
			switch specField(f.T.Args[0]) {
			case "IntrospectionEndpoint":
				c["introspection"] = pol(!f.Pol)
			case "RevocationEndpoint":
				c["revocation"] = pol(!f.Pol)
			case "":
				if f.T.Args[0].contains(func(t *Term) bool { return t.Op == "param" && strings.HasPrefix(t.Name, "recorder:") }) {
					c["refresh"] = pol(!f.Pol)
				}
			}
		}
		if specField(f.T) == "CodeReplayMitigation" {
			c["replay"] = pol(f.Pol)
		}
	}
	return c
}

var subGroups = []string{"AccessTokenTest", "RefreshTokenTest"}

// scripts lists what a path of a test group does, as signatures.
func (j *J) scripts(t *Trace) (sigs []string, xs []*exchange, bad *Event) {
	ex, bad := exchanges(t)
	for _, x := range ex {
		st, _ := x.statuses()
		sort.Strings(st)
		sigs = append(sigs, x.sig(strings.Join(st, ",")))
		xs = append(xs, x)
	}
	for _, e := range t.Events {
		if e.Kind == "group" {
			s := "group " + strings.TrimPrefix(e.Name, suitePath+".")
			for _, a := range e.Args[2:] {
				s += " " + suiteVal(a)
			}
			sigs = append(sigs, s)
			xs = append(xs, nil)
		}
	}
	return sigs, xs, bad
}

func (j *J) groupAtomic(f *ssa.Function) map[string]string {
	m := j.suiteAtomic(false)
	for _, n := range subGroups {
		if f.Name() != n || n == "RefreshTokenTest" && n != f.Name() {
			m[suitePath+"."+n] = "event"
		}
	}
	delete(m, f.String())
	return m
}

// suiteDump prints the table of the current suite.
func suiteDump(j *J) {
	for _, f := range j.suiteFuncs() {
		if !isGroup(f) {
			continue
		}
		ts := j.tracesOf(f, groupParams(f), j.groupAtomic(f), f.Name())
		max := map[string]int{}
		var counts, conds []map[string]int
		var order []string
		for _, t := range ts {
			n := map[string]int{}
			sigs, xs, _ := j.scripts(t)
			for i, s := range sigs {
				s += " | "
				if xs[i] != nil {
					s += strings.Join(sortedKeys(xs[i].mentions(false)), " ")
				}
				n[s]++
				if max[s] == 0 {
					order = append(order, s)
				}
				if n[s] > max[s] {
					max[s] = n[s]
				}
			}
			counts = append(counts, n)
			conds = append(conds, suiteCond(t))
		}
		for _, s := range order {
			for n := max[s]; n > 0; n-- {
				best := "?"
				for _, cs := range []string{"", "introspection", "revocation", "replay", "refresh", "introspection revocation", "introspection refresh", "revocation refresh"} {
					ok, hit := true, false
					for i := range ts {
						off := false
						for _, c := range strings.Fields(cs) {
							off = off || conds[i][c] == no
						}
						if !off {
							hit = true
							ok = ok && counts[i][s] >= n
						}
					}
					if ok && hit {
						best = cs
						break
					}
				}
				fmt.Printf("%s | %s | %d | %s\n", f.Name(), best, n, s)
				if best == "" {
					break
				}
			}
		}
	}
}

// C31: the conformance suite.
func ruleC31(j *J) {
	if os.Getenv("SUITE_DUMP") != "" {
		suiteDump(j)
		return
	}
	j.expl = "every path of the suite's Run: a path that returns has established every mandatory setting and has executed, with the caller's test and specification, exactly the test groups whose capability or endpoint the specification declares; every path of Do: the request is created with the declared method and path, carries all headers, the basic credentials and all form parameters, is served exactly once by the handler and its recorder is passed to the callback; every path of every test group: each exchange has constant method, an endpoint of the specification and a callback that on every path compares the status of its own reply with a constant or reports a failure, and the exchanges listed in the table of the suite (method, endpoint, credentials, headers, form, expected status, expected values) all take place under the stated conditions"
	j.suiteRun()
	j.suiteDo()
	j.suiteReaders()
	rows := map[string][]scripted{}
	for _, r := range suiteRows() {
		rows[r.group] = append(rows[r.group], r)
	}
	seen := map[string]bool{}
	for _, f := range j.suiteFuncs() {
		if !isGroup(f) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		seen[f.Name()] = true
		j.suiteGroup(f, rows[f.Name()])
	}
	for _, g := range sortedKeys(rows) {
		j.ob(seen[g], "group exists", g, token.NoPos, nil, "the test group %s does not exist any more", g)
	}
	j.require("exchange", "group path", "run path", "do path", "reader path")
}

func (j *J) suiteGroup(f *ssa.Function, rows []scripted) {
	ts := j.tracesOf(f, groupParams(f), j.groupAtomic(f), f.Name())
	sort.SliceStable(rows, func(a, b int) bool { return len(rows[a].mentions) > len(rows[b].mentions) })
	for _, t := range ts {
		if t.End != "return" {
			continue // the process ends with a panic
		}
		j.class("group path")
		sigs, xs, bad := j.scripts(t)
		if bad != nil {
			j.ob(false, "exchange", f.Name(), bad.Pos, t, "an exchange of %s is nested or repeated an unknown number of times", f.Name())
			continue
		}
		aborted := false
		for i, x := range xs {
			if x == nil {
				continue
			}
			j.class("exchange")
			sts, foreign := x.statuses()
			failed := x.failed(t)
			aborted = aborted || failed
			name := f.Name() + ": " + sigs[i]
			j.ob(x.ev.Args[0] == sel(groupParams(f)[1], "Handler"), "handler", name, x.ev.Pos, t, "an exchange of %s is not sent to the handler of the specification", f.Name())
			j.ob(!foreign, "own test", name, x.ev.Pos, t, "an assertion in %s reports to another test", f.Name())
			j.ob(len(sts) > 0 || failed, "status verified", name, x.ev.Pos, t, "the status of a reply is not verified in %s", f.Name())
			_, isM := x.fields["Method"].str()
			j.ob(isM, "method", name, x.ev.Pos, t, "an exchange in %s has no constant method", f.Name())
			p := specField(x.fields["Path"])
			j.ob(strings.HasSuffix(p, "Endpoint") || p == "ProtectedResource", "endpoint", name, x.ev.Pos, t, "an exchange in %s is not sent to an endpoint of the specification", f.Name())
			if c, ok := map[string]string{"IntrospectionEndpoint": "introspection", "RevocationEndpoint": "revocation"}[p]; ok && f.Name() != p+"Test" {
				j.ob(suiteCond(t)[c] == yes, "declared endpoint", name, x.ev.Pos, t, "%s uses the %s although it may not be declared", f.Name(), p)
			}
		}
		if aborted {
			continue
		}
		cond := suiteCond(t)
		used := map[int]bool{}
	rows:
		for _, r := range rows {
			for _, c := range strings.Fields(r.cond) {
				if cond[c] == no {
					continue rows
				}
			}
			n := 0
			for i, s := range sigs {
				if n == r.n {
					break
				}
				if used[i] || !sigMatch(r.sig, s) {
					continue
				}
				if xs[i] != nil {
					m := xs[i].mentions(true)
					miss := false
					for _, w := range r.mentions {
						miss = miss || !m[w]
					}
					if miss {
						continue
					}
				}
				used[i] = true
				n++
			}
			j.ob(n >= r.n, "scripted", f.Name()+": "+r.sig, f.Pos(), t, "%s does not script (or not verify) the exchange %s expecting %s under the condition %q", f.Name(), r.sig, strings.Join(r.mentions, " "), r.cond)
		}
	}
}

// suiteRun checks that Run executes the declared groups.
func (j *J) suiteRun() {
	f := j.c.fnFull(suitePath + ".Run")
	if f == nil {
		j.ob(false, "anchor", "oauth2test.Run", token.NoPos, nil, "the function Run does not exist any more")
		return
	}
	ps := paramsOf(f)
	spec := ps[1]
	groups := map[string][]string{ // any of
		"ProtectedResourceTest":      nil,
		"TokenEndpointTest":          {"PasswordGrantSupport", "ClientCredentialsGrantSupport", "AuthorizationCodeGrantSupport", "RefreshTokenGrantSupport"},
		"AuthorizationEndpointTest":  {"ImplicitGrantSupport", "AuthorizationCodeGrantSupport"},
		"PasswordGrantTest":          {"PasswordGrantSupport"},
		"ClientCredentialsGrantTest": {"ClientCredentialsGrantSupport"},
		"ImplicitGrantTest":          {"ImplicitGrantSupport"},
		"AuthorizationCodeGrantTest": {"AuthorizationCodeGrantSupport"},
		"RefreshTokenGrantTest":      {"RefreshTokenGrantSupport"},
		"IntrospectionEndpointTest":  {"IntrospectionEndpoint"},
		"RevocationEndpointTest":     {"RevocationEndpoint"},
	}
	type need struct {
		cond []string
		any  []string
	}
	var needs []need
	for _, s := range strings.Fields("Handler TokenEndpoint AuthorizeEndpoint ProtectedResource ConfidentialClientID ConfidentialClientSecret PublicClientID InvalidScope ValidScope ExceedingScope InvalidToken ValidToken UnknownToken ExpiredToken") {
		needs = append(needs, need{nil, []string{s}})
	}
	for c, l := range map[string]string{
		"ImplicitGrantSupport":          "InvalidRedirectURI PrimaryRedirectURI SecondaryRedirectURI InvalidAuthorizationParams/InvalidAuthorizationHeaders ValidAuthorizationParams/ValidAuthorizationHeaders",
		"AuthorizationCodeGrantSupport": "InvalidRedirectURI PrimaryRedirectURI SecondaryRedirectURI InvalidAuthorizationParams/InvalidAuthorizationHeaders ValidAuthorizationParams/ValidAuthorizationHeaders InvalidAuthorizationCode UnknownAuthorizationCode ExpiredAuthorizationCode",
		"PasswordGrantSupport":          "ResourceOwnerUsername ResourceOwnerPassword",
		"RefreshTokenGrantSupport":      "InvalidRefreshToken UnknownRefreshToken ValidRefreshToken ExpiredRefreshToken",
	} {
		for _, s := range strings.Fields(l) {
			needs = append(needs, need{[]string{c}, strings.Split(s, "/")})
		}
	}
	sort.Slice(needs, func(a, b int) bool { return fmt.Sprint(needs[a]) < fmt.Sprint(needs[b]) })
	st := spec.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	ftype := func(n string) types.Type {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return st.Field(i).Type()
			}
		}
		return nil
	}
	for _, t := range j.tracesOf(f, ps, j.suiteAtomic(true), "oauth2test.Run") {
		if t.End != "return" {
			continue
		}
		j.class("run path")
		x := newTr(j.c, t, nil, nil, nil)
		set := func(n string) int { // is the setting present
			v := sel(spec, n)
			ty := ftype(n)
			if ty == nil {
				return unknown
			}
			switch u := ty.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					return x.tri(v)
				}
				return neg(x.isEmpty(v))
			}
			if u := neg(x.tri(mkEq(v, tNil))); u != unknown {
				return u
			}
			return neg(x.tri(mkEq(mkLen(v), mkInt(0))))
		}
		for _, n := range needs {
			off := false
			for _, c := range n.cond {
				off = off || set(c) == no
			}
			if off {
				continue
			}
			ok := false
			for _, a := range n.any {
				ok = ok || set(a) == yes
			}
			if !ok && len(n.any) > 1 {
				// a disjunction may be established as a whole
				ok = false
			}
			j.ob(ok, "mandatory setting", strings.Join(n.any, "/"), f.Pos(), t, "Run continues without the mandatory setting %s", strings.Join(n.any, " or "))
		}
		ran := map[string][]*Event{}
		for _, e := range t.Events {
			if e.Kind == "group" {
				n := strings.TrimPrefix(e.Name, suitePath+".")
				ran[n] = append(ran[n], e)
			}
			if e.Kind == "loop" {
				for _, b := range e.Loop.Backs {
					for _, n := range b.Events {
						if n.Kind == "group" {
							j.ob(false, "groups", "Run", n.Pos, t, "Run executes test groups in a loop that cannot be resolved")
						}
					}
				}
			}
		}
		for _, g := range sortedKeys(groups) {
			want := yes
			if any := groups[g]; any != nil {
				want = no
				for _, c := range any {
					switch set(c) {
					case yes:
						want = yes
					case unknown:
						if want == no {
							want = unknown
						}
					}
				}
			}
			es := ran[g]
			switch {
			case want == yes:
				j.ob(len(es) == 1, "declared group runs", g, f.Pos(), t, "Run executes %s %d times although it is declared", g, len(es))
			case want == no:
				j.ob(len(es) == 0, "undeclared group", g, f.Pos(), t, "Run executes %s although it is not declared", g)
			default:
				j.ob(false, "declared group runs", g, f.Pos(), t, "Run decides about %s without regarding its capability", g)
			}
			for _, e := range es {
				j.ob(len(e.Args) >= 2 && ownT(e.Args[0]) && e.Args[1] == spec, "group arguments", g, e.Pos, t, "Run executes %s with another test or specification", g)
				j.ob(!e.Async, "group arguments", g, e.Pos, t, "Run executes %s in the background", g)
			}
		}
	}
}

// suiteDo checks how an exchange is carried out.
func (j *J) suiteDo() {
	f := j.c.fnFull(suitePath + ".Do")
	if f == nil {
		j.ob(false, "anchor", "oauth2test.Do", token.NoPos, nil, "the function Do does not exist any more")
		return
	}
	ps := paramsOf(f)
	h, req := ps[0], ps[1]
	for _, t := range j.tracesOf(f, ps, nil, "oauth2test.Do") {
		if t.End != "return" {
			continue
		}
		j.class("do path")
		x := newTr(j.c, t, nil, nil, nil)
		var r, rec *Term
		serves, calls := 0, 0
		servedAt := -1
		for i, e := range t.Events {
			switch {
			case e.Kind == "serve":
				serves++
				servedAt = i
				ok := e.Args[0] == h && len(e.Args) >= 3
				if ok {
					rec, r = unface(e.Args[1]), unface(e.Args[2])
				}
				j.ob(ok, "handler", "Do", e.Pos, t, "Do does not serve the request with the given handler")
			case e.Kind == "call" && strings.HasPrefix(e.Name, "dynamic:") && strings.HasSuffix(e.Name, ".Callback"):
				calls++
				c := e.Args
				ok := rec != nil && len(c) >= 3 && unface(c[1]) == rec && unface(c[2]) == r
				j.ob(ok, "callback", "Do", e.Pos, t, "Do does not pass the reply of the exchange to the callback")
			}
		}
		j.ob(serves == 1, "served once", "Do", f.Pos(), t, "Do serves the request %d times", serves)
		if calls == 0 && x.tri(mkEq(sel(req, "Callback"), tNil)) == yes {
			calls = 1
		}
		j.ob(calls == 1, "callback", "Do", f.Pos(), t, "Do calls the callback %d times", calls)
		if r == nil || rec == nil {
			continue
		}
		j.ob(rec.Op == "call" && strings.HasPrefix(callName(rec), "net/http/httptest.NewRecorder"), "recorder", "Do", f.Pos(), t, "Do does not record the reply with a new recorder")
		// the request
		var made *Term
		r.walk(func(n *Term) {
			if n.Op == "call" && (strings.HasPrefix(callName(n), "net/http.NewRequest") || strings.HasPrefix(callName(n), "net/http/httptest.NewRequest")) {
				made = n
			}
		})
		okReq := false
		if made != nil {
			as := made.Args
			if len(as) > 0 && as[0].T != nil && types.TypeString(as[0].T, nil) == "context.Context" {
				as = as[1:]
			}
			okReq = len(as) >= 2 && as[0] == sel(req, "Method") && as[1] == sel(req, "Path")
		}
		j.ob(okReq, "request line", "Do", f.Pos(), t, "Do does not create the request with the declared method and path")
		hdr, form := false, false
		basic := unknown
		var post *Term
		for i, e := range t.Events {
			if e.Kind == "store" && e.Name == "PostForm" && i < servedAt && e.Args[0].contains(func(n *Term) bool { return n == r }) {
				post = e.Args[1]
			}
		}
		for i, e := range t.Events {
			if i > servedAt {
				break
			}
			switch e.Kind {
			case "hset":
				if e.Args[0] == sel(r, "Header") && e.Args[1].isStr("Authorization") {
					basic = pol(basicOf(e.Args[2], sel(req, "Username"), sel(req, "Password")))
				}
			case "basicauth":
				if e.Args[0] == r && e.Args[1] == sel(req, "Username") && e.Args[2] == sel(req, "Password") {
					basic = yes
				}
			case "loop":
				if x.copied(e, sel(req, "Header"), "hset", sel(r, "Header")) {
					hdr = true
					basic = unknown // may be overwritten
				}
				if post != nil && (x.copied(e, sel(req, "Form"), "lset", post) || x.copied(e, sel(req, "Form"), "mapset", post)) {
					form = true
				}
			}
		}
		if x.tri(mkEq(mkLen(sel(req, "Header")), mkInt(0))) == yes || x.tri(mkEq(sel(req, "Header"), tNil)) == yes {
			hdr = true
		}
		if x.tri(mkEq(mkLen(sel(req, "Form")), mkInt(0))) == yes || x.tri(mkEq(sel(req, "Form"), tNil)) == yes {
			form = true
		}
		j.ob(hdr, "headers", "Do", f.Pos(), t, "Do does not send all declared headers")
		j.ob(form, "form", "Do", f.Pos(), t, "Do does not send all declared form parameters")
		switch neg(x.isEmpty(sel(req, "Username"))) {
		case yes:
			j.ob(basic == yes, "credentials", "Do", f.Pos(), t, "Do does not send the declared credentials")
		case no:
			j.ob(basic == unknown, "credentials", "Do", f.Pos(), t, "Do sends credentials although none are declared")
		default:
			j.ob(false, "credentials", "Do", f.Pos(), t, "Do decides about credentials without regarding the username")
		}
	}
}

// basicOf tells whether a header value is the basic credentials of a username
// and a password.
func basicOf(v, user, pass *Term) bool {
	for v.Op == "list" && len(v.Args) == 1 {
		v = v.Args[0]
	}
	if v.Op != "concat" || len(v.Args) != 2 || !v.Args[0].isStr("Basic ") {
		return false
	}
	enc := v.Args[1]
	if enc.Op != "call" || !strings.HasSuffix(callName(enc), "Encoding).EncodeToString") || !strings.Contains(enc.Args[0].String(), "StdEncoding") {
		return false
	}
	in := enc.Args[1]
	for in.Op == "conv" || in.Op == "bytes" {
		in = in.Args[0]
	}
	return in.Op == "concat" && len(in.Args) == 3 && in.Args[0] == user && in.Args[1].isStr(":") && in.Args[2] == pass
}

// copied tells whether a loop stores every entry of a map in another one.
func (x *Tr) copied(e *Event, over *Term, kind string, to *Term) bool {
	if e.Loop == nil || !e.Loop.Exhausted || len(e.Loop.Backs) == 0 {
		return false
	}
	for _, b := range e.Loop.Backs {
		ok := false
		for _, n := range b.Events {
			if n.Kind != kind || len(n.Args) < 3 || n.Args[0] != to {
				continue
			}
			k, v := n.Args[1], n.Args[2]
			for v.Op == "list" && len(v.Args) == 1 {
				v = v.Args[0]
			}
			ok = ok || x.entryOf(e.Loop, k, v, over)
		}
		if !ok {
			return false
		}
	}
	return true
}

// suiteReaders checks that the values assertions are about are read from the
// reply, by the given key and from the place the reader is named after.
func (j *J) suiteReaders() {
	place := map[string]func(*Term) bool{
		"query":    func(n *Term) bool { return n.Op == "sel" && n.Name == "RawQuery" },
		"fragment": func(n *Term) bool { return n.Op == "sel" && (n.Name == "Fragment" || n.Name == "RawFragment") },
		"auth":     func(n *Term) bool { return n.isStr("Www-Authenticate") },
		"json":     func(n *Term) bool { return n.Op == "sel" && n.Name == "Body" },
	}
	for _, f := range j.suiteFuncs() {
		p := f.Signature.Params()
		if f.Signature.Recv() != nil || f.Parent() != nil || p.Len() != 2 || f.Signature.Results().Len() != 1 ||
			types.TypeString(p.At(0).Type(), nil) != "*net/http/httptest.ResponseRecorder" || types.TypeString(p.At(1).Type(), nil) != "string" {
			continue
		}
		ps := paramsOf(f)
		found := false
		for _, t := range j.tracesOf(f, ps, nil, f.Name()) {
			if t.End != "return" {
				continue
			}
			j.class("reader path")
			r := t.Results[0]
			if r == tTrue {
				// a flag of the reply that is known to be set
				for _, c := range t.Facts {
					if c.Pol && c.T.Op == "as" && mentions(c.T, ps[0]) && mentions(c.T, ps[1]) {
						r = c.T
					}
				}
			}
			if r.isConst() || r.isNil() {
				zero := r.isNil() || r.isStr("") || r.isInt(0) || r == tFalse || r.Name == "0"
				j.ob(zero, "reader", f.Name(), f.Pos(), t, "%s returns a value that is not read from the reply", f.Name())
				continue
			}
			byKey := mentions(r, ps[1])
			for _, c := range t.Facts {
				byKey = byKey || c.Pol && c.T.Op == "eq" && (mentions(c.T.Args[0], ps[1]) != mentions(c.T.Args[1], ps[1]))
			}
			ok := mentions(r, ps[0]) && byKey && r.Op != "not"
			for pre, in := range place {
				if strings.HasPrefix(f.Name(), pre) {
					ok = ok && r.contains(in)
				}
			}
			j.ob(ok, "reader", f.Name(), f.Pos(), t, "%s returns a value that is not the one of the key in the reply", f.Name())
			found = true
		}
		j.ob(found, "reader", f.Name()+" value", f.Pos(), nil, "%s never returns a value of the reply", f.Name())
	}
}
