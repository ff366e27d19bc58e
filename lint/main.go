package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlay replaces the content of source files.
var overlay map[string][]byte

func load(dir string) (*Interp, *ssa.Package, *ssa.Package, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Fset: fset, Env: os.Environ(), Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	var root, test *ssa.Package
	for _, p := range sp {
		switch p.Pkg.Path() {
		case modPath:
			root = p
		case modPath + "/oauth2test":
			test = p
		}
	}
	in := &Interp{prog: prog, fset: fset, root: dir, atomic: map[string]string{}, loops: map[*ssa.Function]*loopForest{}, fns: map[string]*ssa.Function{},
		funcSet: map[*ssa.Function]bool{}, seenIns: map[ssa.Instruction]bool{}, maxStep: 2000000}
	in.runInit([]*ssa.Package{root})
	return in, root, test, nil
}

func main() {
	check := flag.String("check", "", "property to decide")
	dir := flag.String("dir", "/repo", "module to analyse")
	out := flag.String("verif", "/verif", "directory with known findings and evidence")
	dumpFn := flag.String("dump", "", "print the paths of a function")
	atomic := flag.Bool("atomic", false, "dump with the server's atomic functions")
	over := flag.String("overlay", "", "JSON file with the changed content of source files")
	flag.Parse()
	if *over != "" {
		b, err := os.ReadFile(*over)
		must(err)
		var m map[string]string
		must(json.Unmarshal(b, &m))
		overlay = map[string][]byte{}
		for k, v := range m {
			overlay[k] = []byte(v)
		}
	}
	start := time.Now()
	if *dumpFn != "" {
		dumpMain(*dir, *dumpFn, *atomic)
		return
	}
	if *check == "" {
		fmt.Fprintln(os.Stderr, "usage: lint -check ID")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	code := 0
	for _, id := range strings.Split(*check, ",") {
		if c := runCheck(id, *dir, *out, tier, seed, start); c != 0 {
			code = c
		}
	}
	os.Exit(code)
}

var shared *Ctx

// runCheck decides one property; anything unexpected is reported as a
// violation so that no change passes unanalysed.
func runCheck(id, dir, out, tier string, seed int, start time.Time) (code int) {
	rule := rules[id]
	if rule == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	fail := func(msg string) int {
		ed := filepath.Join(out, "evidence")
		os.MkdirAll(ed, 0o755)
		replay := filepath.Join(ed, id+".replay.json")
		b, _ := json.MarshalIndent(map[string]any{"property": id, "violations": []any{map[string]string{"rule": "analysis", "message": msg}}}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": map[string]any{"explanation": "the analysis could not be completed: " + msg, "obligation_checks": 0}, "wall_s": time.Since(start).Seconds()}
		b, _ = json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(ed, id+".json"), append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", id, msg, id, replay)
		return 1
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			code = fail(fmt.Sprintf("the analysis failed: %v", e))
		}
	}()
	if shared == nil {
		in, root, test, err := load(dir)
		if err != nil {
			return fail("the module does not type-check: " + err.Error())
		}
		if root == nil {
			return fail("the package " + modPath + " was not found")
		}
		shared = &Ctx{in: in, root: root, test: test, cache: map[string][]*Trace{}}
		pre := newJ("C26", shared)
		pre.scopeText()
		in.joins = len(pre.viols) == 0
	}
	j := newJ(id, shared)
	j.templates()
	rule(j)
	j.depend()
	var extra map[string]any
	if tier == "thorough" && overlay == nil && len(j.viols) == 0 {
		extra = j.sensitivity(dir, seed)
	}
	return j.finish(out, tier, seed, start, extra)
}

// templates derives how the signature and the text of a token are computed
// from its value, so that inlined occurrences can be recognised.
func (j *J) templates() {
	c := j.c
	get := func(short string) func(*Term) *Term {
		f := c.fn(short)
		if f == nil {
			j.ob(false, "anchor", short, token.NoPos, nil, "the function %s does not exist any more", short)
			return func(*Term) *Term { return mk("unknown", short, nil) }
		}
		return func(tok *Term) *Term {
			ps := paramsOf(f)
			ts := j.tracesOf(f, ps, serverAtomic(), short)
			if len(ts) != 1 || ts[0].End != "return" || len(ts[0].Results) != 1 {
				j.ob(false, "anchor", short, f.Pos(), nil, "%s does not compute its result on a single path", short)
				return mk("unknown", short, nil, tok)
			}
			return subst(ts[0].Results[0], ps[0], tok)
		}
	}
	c.sigT = get("(*HS256Token).SignatureString")
	c.strT = get("(*HS256Token).String")
}

// subst replaces a subterm.
func subst(t, from, to *Term) *Term {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = subst(a, from, to)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	if t.Op == "sel" {
		return mkSel(args[0], t.Name, t.T)
	}
	return mk(t.Op, t.Name, t.T, args...)
}

// writers lists the exported functions that write responses.
func (j *J) writers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != j.c.root || f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
			continue
		}
		for _, p := range f.Params {
			if types.TypeString(p.Type(), nil) == "net/http.ResponseWriter" {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

var rules = map[string]func(*J){
	"C01": ruleC01, "C02": ruleC02, "C03": ruleC03, "C04": ruleC04, "C05": ruleC05, "C06": ruleC06, "C07": ruleC07, "C08": ruleC08,
	"C09": ruleC09, "C10": ruleC10, "C11": ruleC11, "C12": ruleC12, "C13": ruleC13, "C14": ruleC14, "C15": ruleC15, "C16": ruleC16,
	"C17": ruleC17, "C18": ruleC18, "C19": ruleC19, "C20": ruleC20, "C21": ruleC21, "C22": ruleC22, "C23": ruleC23, "C24": ruleC24, "C25": ruleC25, "C26": ruleC26, "C27": ruleC27, "C28": ruleC28, "C29": ruleC29, "C30": ruleC30, "C31": ruleC31,
	"C32": ruleC32, "C33": ruleC33, "C34": ruleC34, "C35": ruleC35, "C36": ruleC36, "C37": ruleC37, "C38": ruleC38, "C39": ruleC39, "C40": ruleC40,
}

func dumpMain(dir, name string, atomic bool) {
	in, root, _, err := load(dir)
	must(err)
	if atomic {
		in.atomic = serverAtomic()
	}
	c := &Ctx{in: in, root: root}
	f := c.fn(name)
	if f == nil {
		f = c.fnFull(name)
	}
	if f == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	trs := in.explore(f, paramsOf(f))
	fmt.Println(f, len(trs), in.over, in.steps)
	for _, t := range trs {
		dump(in, t)
	}
}

func dump(in *Interp, t *Trace) {
	fmt.Println("--", t.End, t.Results)
	for _, f := range t.Facts {
		fmt.Printf("     [%d] %v %v\n", f.At, f.Pol, f.T)
	}
	for i, e := range t.Events {
		if e.Kind == "load" || e.Kind == "safe" {
			continue
		}
		fmt.Printf("     (%d) %s %s %v  %s\n", i, e.Kind, e.Name, e.Args, in.posStr(e.Pos))
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				fmt.Println("        back", b.Phis)
				for _, f := range b.Facts {
					fmt.Printf("            %v %v\n", f.Pol, f.T)
				}
				for _, x := range b.Events {
					if x.Kind != "load" && x.Kind != "safe" {
						fmt.Printf("            %s %s %v\n", x.Kind, x.Name, x.Args)
					}
				}
			}
		}
	}
}

// serverAtomic lists the functions that are not inlined when the server is
// analysed; they are analysed on their own (C18, C19, C26).
func serverAtomic() map[string]string {
	m := map[string]string{}
	for _, f := range []string{"(%s.Scope).Includes", "(%s.Scope).Contains", "%s.ParseScope", "%s.ParseBearerToken", "%s.ParseHS256Token", "%s.HS256TokenFromKey",
		"(*%s.HS256Token).Valid", "(*%s.HS256Token).Equal"} {
		m[fmt.Sprintf(f, modPath)] = "pure"
	}
	for _, f := range []string{"%s.GenerateHS256Token", "%s.MustGenerateHS256Token"} {
		n := fmt.Sprintf(f, modPath)
		m[n] = "fresh"
		if f == "%s.MustGenerateHS256Token" {
			knownNonNil[n] = true
		}
	}
	return m
}
