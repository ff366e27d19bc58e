package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx holds the loaded program and the analyses shared by the rules.
type Ctx struct {
	in     *Interp
	root   *ssa.Package
	test   *ssa.Package
	cache  map[string][]*Trace
	sigT   func(tok *Term) *Term
	strT   func(tok *Term) *Term
	anchor []string
}

// Viol is a violated obligation.
type Viol struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

// J collects the obligations of one property.
type J struct {
	id    string
	c     *Ctx
	obl   int
	ok    int
	viols []*Viol
	seen  map[string]*Viol
	rules map[string]*[2]int
	units map[string]bool
	paths int
	cls   map[string]int
	smp   []string
	expl  string
}

func newJ(id string, c *Ctx) *J {
	return &J{id: id, c: c, seen: map[string]*Viol{}, rules: map[string]*[2]int{}, units: map[string]bool{}, cls: map[string]int{}}
}

func (j *J) bump(rule string, ok bool) {
	r := j.rules[rule]
	if r == nil {
		r = &[2]int{}
		j.rules[rule] = r
	}
	r[0]++
	j.obl++
	if ok {
		r[1]++
		j.ok++
	}
}

// ob records an obligation.
func (j *J) ob(ok bool, rule, construct string, pos token.Pos, t *Trace, format string, args ...any) bool {
	j.bump(rule, ok)
	if ok {
		return true
	}
	key := rule + "|" + construct
	if v := j.seen[key]; v != nil {
		return false
	}
	v := &Viol{Rule: rule, Construct: construct, Pos: j.c.in.posStr(pos), Msg: fmt.Sprintf(format, args...)}
	if t != nil {
		v.Path = describe(j.c.in, t)
	}
	j.seen[key] = v
	j.viols = append(j.viols, v)
	return false
}

// class counts an instance of a class of paths or sites.
func (j *J) class(name string) { j.cls[name]++ }

// require fails unless the classes have instances.
func (j *J) require(names ...string) {
	for _, n := range names {
		j.ob(j.cls[n] > 0, "instances", n, token.NoPos, nil, "expected at least one instance of %q, found none", n)
	}
}

func (j *J) sample(f string, a ...any) {
	if len(j.smp) < 6 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		j.smp = append(j.smp, s)
	}
}

// describe renders a path for a report.
func describe(in *Interp, t *Trace) []string {
	var out []string
	cut := func(s string) string {
		s = strings.ReplaceAll(s, modPath+".", "oauth2.")
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		return s
	}
	for _, f := range t.Facts {
		out = append(out, cut(fmt.Sprintf("assume %v: %v", f.Pol, f.T)))
	}
	var ev func(es []*Event, ind string)
	ev = func(es []*Event, ind string) {
		for _, e := range es {
			switch e.Kind {
			case "load", "safe", "mapread", "append":
				continue
			}
			out = append(out, cut(fmt.Sprintf("%seffect %s %s %v at %s", ind, e.Kind, e.Name, e.Args, in.posStr(e.Pos))))
			if e.Loop != nil {
				for _, b := range e.Loop.Backs {
					ev(b.Events, ind+"  (iteration) ")
				}
			}
		}
	}
	ev(t.Events, "")
	out = append(out, cut(fmt.Sprintf("ends with %s %v", t.End, t.Results)))
	if len(out) > 80 {
		out = append(out[:60], out[len(out)-20:]...)
	}
	return out
}

// fn resolves a function of the module by its short name, for example
// "(*Server).ServeHTTP" or "WriteError".
func (c *Ctx) fn(short string) *ssa.Function {
	n := modPath + "." + short
	if strings.HasPrefix(short, "(*") {
		n = "(*" + modPath + "." + short[2:]
	} else if strings.HasPrefix(short, "(") {
		n = "(" + modPath + "." + short[1:]
	}
	return c.fnFull(n)
}

func (c *Ctx) fnFull(n string) *ssa.Function {
	for _, f := range c.in.allFuncs() {
		if f.String() == n {
			return f
		}
	}
	return nil
}

// traces explores an anchor function. Nothing in atomic is inlined.
func (j *J) traces(short string, atomic map[string]string) []*Trace {
	f := j.c.fn(short)
	if f == nil {
		j.ob(false, "anchor", short, token.NoPos, nil, "the function %s does not exist any more", short)
		return nil
	}
	return j.tracesOf(f, paramsOf(f), atomic, short)
}

func (j *J) tracesOf(f *ssa.Function, params []*Term, atomic map[string]string, label string) []*Trace {
	key := f.String() + "|" + strings.Join(sortedKeys(atomic), ",")
	for _, p := range params {
		key += "|" + termID(p)
	}
	return j.explored(f, key, atomic, label, func() []*Trace { return j.c.in.explore(f, params) })
}

// composed explores a method on what a constructor returns.
func (j *J) composed(ctor, f *ssa.Function, cargs, args []*Term, atomic map[string]string, label string) []*Trace {
	key := ctor.String() + ">" + f.String() + "|" + strings.Join(sortedKeys(atomic), ",")
	for _, p := range append(append([]*Term(nil), cargs...), args...) {
		key += "|" + termID(p)
	}
	j.units[fnShort(ctor)] = true
	return j.explored(f, key, atomic, label, func() []*Trace { return j.c.in.compose(ctor, f, cargs, args) })
}

func (j *J) explored(f *ssa.Function, key string, atomic map[string]string, label string, run func() []*Trace) []*Trace {
	in := j.c.in
	if in.reverse {
		key += "|reverse"
	}
	ts, ok := j.c.cache[key]
	if !ok {
		in.atomic = atomic
		in.over = false
		in.funcSet = map[*ssa.Function]bool{}
		ts = run()
		if in.over {
			j.ob(false, "analysis", label, f.Pos(), nil, "the analysis of %s exceeds its limits", label)
			return nil
		}
		j.c.cache[key] = ts
	}
	for _, u := range explored(ts) {
		j.units[u] = true
	}
	j.units[fnShort(f)] = true
	j.paths += len(ts)
	for _, t := range ts {
		j.undecided(t, t.Events, label)
	}
	return ts
}

// explored lists the functions with events on the paths.
func explored(ts []*Trace) []string {
	m := map[string]bool{}
	for _, t := range ts {
		for _, e := range t.Events {
			if e.Fn != nil {
				m[fnShort(e.Fn)] = true
			}
		}
	}
	return sortedKeys(m)
}

// undecided fails closed on constructs the analysis does not understand.
func (j *J) undecided(t *Trace, es []*Event, label string) {
	for _, e := range es {
		if e.Kind == "undecided" {
			j.ob(false, "undecided", label+": "+e.Name, e.Pos, t, "the analysis cannot decide %s in %s", e.Name, e.Chain)
		}
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				j.undecided(t, b.Events, label)
			}
		}
	}
}

// known findings: "KNOWN property=<id> rule=<rule> construct=<construct> ..." lines.
func loadKnown(path, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		p := strings.SplitN(l, " :: ", 3)
		if len(p) == 3 {
			res[strings.TrimSpace(p[1])] = strings.TrimSpace(p[2])
		}
	}
	return res
}

// finish writes the evidence and reports; it returns the exit code.
func (j *J) finish(dir, tier string, seed int, start time.Time, extra map[string]any) int {
	known := loadKnown(filepath.Join(dir, "known_findings.txt"), j.id)
	var open []*Viol
	for _, v := range j.viols {
		if what, ok := known[v.Rule+"|"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", j.id, what)
			continue
		}
		open = append(open, v)
	}
	rules := map[string]any{}
	for _, k := range sortedKeys(j.rules) {
		r := j.rules[k]
		rules[k] = map[string]int{"obligations": r[0], "discharged": r[1]}
	}
	sort.Strings(j.smp)
	cov := map[string]any{
		"explanation":              j.expl,
		"functions_analysed":       sortedKeys(j.units),
		"paths_analysed":           j.paths,
		"rules":                    rules,
		"instances":                j.cls,
		"obligation_checks":        j.obl,
		"obligation_checks_ok":     j.ok,
		"violated_obligations":     len(j.viols),
		"samples":                  j.smp,
		"source_files":             j.c.files(),
		"instructions_interpreted": j.c.in.nInstr,
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]any{"property": j.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(start).Seconds()}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	ed := filepath.Join(dir, "evidence")
	must(os.MkdirAll(ed, 0o755))
	must(os.WriteFile(filepath.Join(ed, j.id+".json"), append(b, '\n'), 0o644))
	replay := filepath.Join(ed, j.id+".replay.json")
	os.Remove(replay)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d paths=%d functions=%d\n", j.id, j.obl, j.paths, len(j.units))
		return 0
	}
	b, err = json.MarshalIndent(map[string]any{"property": j.id, "violations": open}, "", " ")
	must(err)
	must(os.WriteFile(replay, append(b, '\n'), 0o644))
	for _, v := range open {
		fmt.Printf("%s: %s [%s/%s]: %s\n", v.Pos, j.id, v.Rule, v.Construct, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", j.id, replay)
	return 1
}

// files lists the analysed source files.
func (c *Ctx) files() []string {
	m := map[string]bool{}
	for _, f := range c.in.allFuncs() {
		if f.Pos().IsValid() {
			p := c.in.fset.Position(f.Pos()).Filename
			if r, err := filepath.Rel(c.in.root, p); err == nil {
				p = r
			}
			m[p] = true
		}
	}
	return sortedKeys(m)
}

// structOf resolves a struct type of the root package.
func (c *Ctx) typ(name string) types.Type {
	o := c.root.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
