package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/http"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var modPath = "github.com/256dpi/oauth2/v2"

// knownNonNil lists module functions treated as atomic whose result is never nil.
var knownNonNil = map[string]bool{}

// cc is a call to a function that is modelled instead of inlined.
type cc struct {
	in   *Interp
	fr   *frame
	st   *State
	name string
	args []*Term
	sig  *types.Signature
	pos  token.Pos
	k    func(*State, *Term)
}

func (c *cc) rtype() types.Type {
	if c.sig == nil {
		return nil
	}
	if c.sig.Results().Len() == 1 {
		return c.sig.Results().At(0).Type()
	}
	return c.sig.Results()
}

func (c *cc) norm() []*Term {
	as := make([]*Term, len(c.args))
	for i, a := range c.args {
		as[i] = c.st.snapshot(a, 0)
	}
	return as
}

func (c *cc) pureAs(name string, args ...*Term) {
	c.k(c.st, mk("call", name, c.rtype(), args...))
}
func (c *cc) pure() { c.pureAs(c.name, c.norm()...) }
func (c *cc) freshRes() *Term {
	return mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype(), c.norm()...)
}
func (c *cc) void() { c.k(c.st, mk("tuple", "", nil)) }
func (c *cc) emit(kind, name string, args ...*Term) {
	c.in.emit(c.st, c.fr, &Event{Kind: kind, Name: name, Args: args, Pos: c.pos})
}

// doCall executes a call instruction; fn and args are given if they were
// evaluated earlier (deferred calls).
func (in *Interp) doCall(fr *frame, st *State, call *ssa.CallCommon, fn *Term, args []*Term, pos token.Pos, k func(*State, *Term)) {
	if fn == nil {
		fn = in.val(fr, st, call.Value)
		for _, a := range call.Args {
			args = append(args, in.val(fr, st, a))
		}
	}
	if call.IsInvoke() {
		in.invoke(fr, st, call, fn, args, pos, k)
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		in.builtin(fr, st, b, call, args, pos, k)
		return
	}
	in.callTerm(fr, st, fn, call.Signature(), args, pos, k)
}

// exchange models a scripted request of the conformance suite: the request is
// recorded and the callback is analysed with a fresh recorder.
// callModel continues as a call of a modelled function.
func (c *cc) callModel(name string, args ...*Term) {
	d := *c
	d.name, d.args = name, args
	models[name](&d)
}

// callback analyses a function value that a library function calls any number
// of times. It may not change anything that outlives the call.
func (c *cc) callback(f *Term, prep func(*State) bool, args ...*Term) []*Term {
	body := c.st.clone()
	if prep != nil && !prep(body) {
		return nil
	}
	n, nf := len(body.events), len(body.facts)
	var backs []LoopBack
	var res []*Term
	ok := true
	c.in.callTerm(c.fr, body, f, nil, args, c.pos, func(st *State, r *Term) {
		for a, v := range st.mem {
			if c.st.mem[a] != v && (!st.fresh[root(a)] || c.st.fresh[root(a)]) {
				ok = false
			}
		}
		for m, o := range st.maps {
			if s := c.st.maps[m]; s != nil && s != o {
				ok = false
			}
		}
		for m, w := range st.writes {
			if len(w) != len(c.st.writes[m]) {
				ok = false
			}
		}
		for k, v := range st.ver {
			if c.st.ver[k] != v {
				ok = false
			}
		}
		backs = append(backs, LoopBack{Facts: st.facts[nf:], Events: st.events[n:], St: st})
		res = append(res, r)
	})
	info := &LoopInfo{Inst: "callback@" + c.in.posStr(c.pos) + "#" + strconv.Itoa(c.st.next()), Pos: c.pos, Backs: backs}
	if c.fr != nil {
		info.Fn = c.fr.fn
	}
	c.in.emit(c.st, c.fr, &Event{Kind: "loop", Loop: info, Pos: c.pos})
	if !ok {
		c.in.undecided(c.st, c.fr, c.pos, "function with effects passed to "+c.name)
	}
	return res
}

func (c *cc) exchange() {
	st := c.st
	rt := derefType(c.args[1].T)
	var rec *Term
	ev := &Event{Kind: "exchange", Pos: c.pos}
	args := []*Term{c.args[0]}
	var cb *Term
	if s, ok := rt.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := st.resolve(st.load(mkFA(c.args[1], f.Name(), f.Type()), f.Type()))
			if sg, ok := f.Type().Underlying().(*types.Signature); ok {
				cb = v
				if rec == nil && sg.Params().Len() == 2 {
					n := strconv.Itoa(st.next())
					rec = mk("param", "recorder:"+n, sg.Params().At(0).Type())
					args = append(args, mk("named", "recorder", nil, rec), mk("named", "request", nil, mk("param", "sent:"+n, sg.Params().At(1).Type())))
				}
				continue
			}
			args = append(args, mk("named", f.Name(), nil, st.snapshot(v, 0)))
		}
	}
	ev.Args = args
	c.in.emit(st, c.fr, ev)
	done := func(st *State, _ *Term) {
		c.in.emit(st, c.fr, &Event{Kind: "exchanged", Pos: c.pos, Args: []*Term{rec}})
		c.k(st, mk("tuple", "", nil))
	}
	if cb == nil || rec == nil || cb.isNil() {
		c.in.undecided(st, c.fr, c.pos, "exchange without callback")
		done(st, nil)
		return
	}
	var snd *Term
	for _, a := range args {
		if a.is("named", "request") {
			snd = a.Args[0]
		}
	}
	sg := cb.T
	sig, _ := sg.(*types.Signature)
	if sig == nil {
		sig, _ = sg.Underlying().(*types.Signature)
	}
	c.in.callTerm(c.fr, st, cb, sig, []*Term{rec, snd}, c.pos, done)
}

// callTerm calls a function value.
func (in *Interp) callTerm(fr *frame, st *State, fn *Term, sig *types.Signature, args []*Term, pos token.Pos, k func(*State, *Term)) {
	if fn.Op == "func" || fn.Op == "closure" {
		if f := in.fns[fn.Name]; f != nil {
			in.callFn(fr, st, f, args, fn.Args, pos, k)
			return
		}
	}
	in.obligation(st, fr, pos, st.nonNil(fn), "call of nil function", fn)
	c := &cc{in: in, fr: fr, st: st, name: "dynamic:" + fn.String(), args: args, sig: sig, pos: pos, k: k}
	in.external(c)
}

// limitedReaders writes limited readers that were put together by hand as the
// calls that make such readers.
func (s *State) limitedReaders(args []*Term) []*Term {
	for i, a := range args {
		if a == nil || a.Op != "iface" || a.Name != "*io.LimitedReader" || !s.fresh[a.Args[0]] {
			continue
		}
		st, ok := derefType(a.Args[0].T).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var fs []*Term
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			fs = append(fs, s.load(mk("fa", f.Name(), types.NewPointer(f.Type()), a.Args[0]), f.Type()))
		}
		if len(fs) == 2 {
			args = append([]*Term{}, args...)
			args[i] = mk("iface", a.Name, a.T, mk("call", "io.LimitReader", a.Args[0].T, fs...))
		}
	}
	return args
}

func pack(res []*Term, sig *types.Signature) *Term {
	if len(res) == 1 {
		return res[0]
	}
	return mk("tuple", "", sig.Results(), res...)
}

func (in *Interp) callFn(fr *frame, st *State, f *ssa.Function, args, free []*Term, pos token.Pos, k func(*State, *Term)) {
	name := fnName(f)
	if f.Pkg != nil && f.Pkg.Pkg.Path() != modPath {
		args = st.limitedReaders(args)
	}
	c := &cc{in: in, fr: fr, st: st, name: name, args: args, sig: f.Signature, pos: pos, k: k}
	kind := in.atomic[name]
	if strings.HasSuffix(name, ".Scope).Contains") && kind != "" && st.resolve(args[0]).Op == "list" {
		kind = "" // the elements are known
		args = append([]*Term{st.resolve(args[0])}, args[1:]...)
	}
	if kind == "" && in.joins && name == "("+modPath+".Scope).String" {
		c.callModel("strings.Join", args[0], mkStr(" "))
		return
	}
	if kind != "" {
		if f.Signature.Recv() != nil && len(args) > 0 && isPtr(f.Signature.Recv().Type()) && !st.fresh[args[0]] {
			in.obligation(st, fr, pos, st.nonNil(args[0]), "nil dereference", args[0])
		}
		if kind == "fresh" {
			r := c.freshRes()
			c.emit("generate", name, append([]*Term{r}, args...)...)
			k(st, r)
			return
		}
		if kind == "exchange" {
			c.exchange()
			return
		}
		if kind == "event" {
			c.emit("group", name, args...)
		}
		c.pure()
		return
	}
	if (inModule(f) || f.Synthetic != "" && f.Origin() == nil) && len(f.Blocks) > 0 {
		if fr == nil || f.Name() != "init" || f.Pkg == nil || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Params().Len() > 0 {
			in.call(fr, st, f, args, free, "", pos, func(st *State, res []*Term) { k(st, pack(res, f.Signature)) })
			return
		}
	}
	if strings.HasSuffix(name, ".init") && f.Synthetic == "package initializer" {
		c.void() // initialiser of another package
		return
	}
	in.external(c)
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (in *Interp) calleeName(fr *frame, st *State, call *ssa.CallCommon, fn *Term) string {
	if call.IsInvoke() {
		return call.Method.FullName()
	}
	if f := call.StaticCallee(); f != nil {
		return fnName(f)
	}
	if fn != nil {
		return fn.Name
	}
	return "?"
}

func isW(t *Term) bool {
	return t != nil && t.T != nil && types.TypeString(t.T, nil) == "net/http.ResponseWriter"
}

func (in *Interp) invoke(fr *frame, st *State, call *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos, k func(*State, *Term)) {
	m := call.Method
	in.obligation(st, fr, pos, st.nonNil(recv), "method call on nil interface", recv)
	if recv.Op == "iface" {
		dyn := recv.Args[0].T
		if dt := in.dynType(recv); dt != nil {
			dyn = dt
		}
		if dyn != nil {
			if f := in.prog.LookupMethod(dyn, m.Pkg(), m.Name()); f != nil {
				in.callFn(fr, st, f, append([]*Term{recv.Args[0]}, args...), nil, pos, k)
				return
			}
		}
	}
	name := m.FullName()
	sig := m.Type().(*types.Signature)
	c := &cc{in: in, fr: fr, st: st, name: name, args: append([]*Term{recv}, args...), sig: sig, pos: pos, k: k}
	if isW(recv) {
		switch m.Name() {
		case "Header":
			k(st, mk("hdr", "", c.rtype(), recv))
			return
		case "WriteHeader":
			c.emit("status", "", recv, args[0])
			c.void()
			return
		case "Write":
			res := mk("call", "write@"+strconv.Itoa(st.next()), c.rtype())
			in.emit(st, fr, &Event{Kind: "body", Name: "raw", Args: []*Term{recv, st.snapshot(args[0], 0)}, Res: mkRet(res, 1, types.Universe.Lookup("error").Type()), Pos: pos})
			k(st, res)
			return
		}
	}
	if h := recv; h.Op == "hash" {
		switch m.Name() {
		case "Write":
			cell := mk("fa", "#sum", nil, h)
			old := st.mem[cell]
			if old == nil {
				old = mk("list", "", nil)
			}
			st.mem[cell] = mk("list", "", nil, append(append([]*Term{}, old.Args...), st.content(st.snapshot(args[0], 0)))...)
			k(st, mk("call", "hashwrite", c.rtype()))
			return
		case "Sum":
			cell := mk("fa", "#sum", nil, h)
			old := st.mem[cell]
			if old == nil {
				old = mk("list", "", nil)
			}
			s := mk("mac", h.Args[0].String(), c.rtype(), append([]*Term{h.Args[1]}, old.Args...)...)
			if n, ok := mkLen(args[0]).intVal(); !(ok && n == 0) && !(args[0].Op == "list" && len(args[0].Args) == 0) {
				c.emit("append", "", args[0], s)
				s = mk("append", "", c.rtype(), st.resolve(args[0]), s)
			} else if args[0].Op == "slice" {
				c.emit("append", "", args[0], s) // reuses the memory of the slice
			}
			k(st, s)
			return
		case "Reset":
			delete(st.mem, mk("fa", "#sum", nil, h))
			c.void()
			return
		}
	}
	switch name {
	case "(io.Closer).Close":
		c.emit("close", "", recv)
		k(st, mk("call", "close@"+strconv.Itoa(st.next()), c.rtype()))
		return
	case "(error).Error", "(fmt.Stringer).String":
		c.pure()
		return
	case "(net/http.Handler).ServeHTTP":
		c.emit("serve", "", c.args...)
		c.void()
		return
	case "(io.Reader).Read":
		c.emit("read", "", recv, args[0])
		c.emit("fill", "Read", recv, args[0])
		k(st, mk("call", "read@"+strconv.Itoa(st.next()), c.rtype(), recv, args[0]))
		return
	}
	in.external(c)
}

// dynType finds the dynamic type of an interface value by its recorded name.
func (in *Interp) dynType(t *Term) types.Type {
	a := t.Args[0]
	if a.T != nil && types.TypeString(a.T, nil) == t.Name {
		return a.T
	}
	return in.typeByName(t.Name)
}

func (in *Interp) typeByName(n string) types.Type {
	ptr := strings.HasPrefix(n, "*")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return nil
	}
	for _, p := range in.prog.AllPackages() {
		if p.Pkg.Path() == n[:i] {
			if o := p.Pkg.Scope().Lookup(n[i+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

func (in *Interp) builtin(fr *frame, st *State, b *ssa.Builtin, call *ssa.CallCommon, args []*Term, pos token.Pos, k func(*State, *Term)) {
	var rt types.Type
	if s, ok := b.Type().(*types.Signature); ok && s.Results().Len() == 1 {
		rt = s.Results().At(0).Type()
	}
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		if o := st.maps[x]; o == nil && x.T != nil {
			if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok && !x.isNil() {
				in.emit(st, fr, &Event{Kind: "mapread", Args: []*Term{x}, Pos: pos})
				k(st, mk("len", st.mapVer(x), rt, x))
				return
			}
		} else if o != nil && !o.concrete() {
			k(st, mk("len", "", rt, st.mapTerm(x, o)))
			return
		}
		if b.Name() == "cap" {
			k(st, mk("cap", "", rt, x))
			return
		}
		k(st, st.lenOf(st.resolve(x)))
	case "append":
		x, y := st.resolve(args[0]), mk("list", "", nil)
		if len(args) > 1 {
			y = st.resolve(args[1])
		}
		in.emit(st, fr, &Event{Kind: "append", Args: []*Term{args[0], y}, Pos: pos})
		t := call.Args[0].Type()
		switch {
		case (x.isNil() || x.Op == "list" || x.Op == "mkslice" && x.Args[0].isInt(0)) && y.Op == "list":
			var el []*Term
			if x.Op == "list" {
				el = append(el, x.Args...)
			}
			k(st, mk("list", "", t, append(el, y.Args...)...))
		case (x.isNil() || isByteSlice(t) && isEmptySlice(x)) && y.Op != "append":
			k(st, st.content(y))
		case y.Op == "list" && len(y.Args) == 0 || y.isNil():
			k(st, x)
		default:
			if x.Op == "mkslice" && x.Args[0].isInt(0) {
				x = mk("list", "", t)
			}
			k(st, mk("append", "", t, x, y))
		}
	case "copy":
		dst, src := args[0], st.resolve(args[1])
		if dst.Op == "mkslice" && isByteSlice(dst.T) {
			v := dst
			if mkLen(dst) == mkLen(src) {
				v = st.content(src)
			}
			st.setContent(dst, v)
		} else if dst.Op == "slice" && dst.Args[0].Op == "mkslice" && isByteSlice(dst.T) {
			st.setContent(dst, dst.Args[0])
		} else if st.fresh[dst] || dst.Op == "slice" && st.fresh[dst.Args[0]] {
			r := dst
			if dst.Op == "slice" {
				r = dst.Args[0]
			}
			if dst.Op == "mkslice" && mkLen(dst) == mkLen(src) {
				st.havoc(dst, src)
			} else {
				st.havoc(r, mk("havoc", strconv.Itoa(st.next()), nil))
			}
		} else {
			in.emit(st, fr, &Event{Kind: "store", Name: "copy", Args: []*Term{dst, src}, Pos: pos})
			st.ver["*"] = st.next()
		}
		k(st, mk("call", "copy@"+strconv.Itoa(st.next()), rt))
	case "delete":
		in.mapDelete(fr, st, args[0], args[1], pos)
		k(st, mk("tuple", "", nil))
	case "clear":
		if o := st.maps[args[0]]; o != nil && !in.ginit[args[0]] {
			st.maps[args[0]] = &MapObj{}
		} else {
			in.emit(st, fr, &Event{Kind: "mapdel", Name: "clear", Args: []*Term{args[0], mk("all", "", nil)}, Pos: pos})
			st.bumpMap(args[0], mapEntry{Mode: "unknown"})
		}
		k(st, mk("tuple", "", nil))
	case "recover":
		if st.panicking != nil && st.defer_ > 0 {
			st.recovered = true
			v := mk("recovered", "", nil, st.panicking)
			k(st, mk("iface", "recovered", rt, v))
			return
		}
		k(st, tNil)
	case "min", "max":
		k(st, mk("call", b.Name(), rt, args...))
	case "ssa:wrapnilchk":
		in.obligation(st, fr, pos, st.nonNil(args[0]) || st.fresh[args[0]], "nil dereference", args[0])
		k(st, args[0])
	case "print", "println":
		k(st, mk("tuple", "", nil))
	case "close":
		in.undecided(st, fr, pos, "channel close")
		k(st, mk("tuple", "", nil))
	default:
		in.undecided(st, fr, pos, "builtin "+b.Name())
		k(st, mk("unknown", strconv.Itoa(st.next()), rt))
	}
}

func canonHeader(t *Term) *Term {
	if s, ok := t.str(); ok {
		return mkStr(http.CanonicalHeaderKey(s))
	}
	return t
}

func headerVal(st *State, v *Term) *Term {
	v = st.resolve(v)
	if v.Op == "list" && len(v.Args) == 1 {
		return v.Args[0]
	}
	return mk("values", "", nil, v)
}

func hdrOwner(t *Term) *Term {
	if t.Op == "hdr" {
		return t.Args[0]
	}
	return t
}

// purePkgs are standard library packages whose package-level functions have
// no effects besides their results.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "errors": true,
	"bytes": true, "net/url": true, "mime": true, "encoding/base64": true, "encoding/hex": true, "html": true, "math": true, "math/bits": true,
	"net/http.StatusText": true, "crypto/subtle": true, "crypto/hmac": true, "crypto/sha256": true, "net/textproto": true, "net": true, "cmp": true, "reflect": true, "path/filepath": true}

func (in *Interp) external(c *cc) {
	for _, a := range c.args {
		if strings.HasSuffix(c.name, ".Clone") {
			break
		}
		// the function may write the buffer
		if a != nil && a.Op == "slice" {
			a = a.Args[0]
		}
		if a != nil && a.Op == "mkslice" && isByteSlice(a.T) && c.st.mem[mk("fa", "#content", nil, a)] == nil {
			c.st.mem[mk("fa", "#content", nil, a)] = a
		}
	}
	if m := models[c.name]; m != nil {
		m(c)
		return
	}
	in.opaque(c)
}

// opaque is a call of which nothing else is known.
func (in *Interp) opaque(c *cc) {
	st := c.st
	// package of the function
	n := c.name
	recv := false
	if strings.HasPrefix(n, "(") {
		recv = true
		n = strings.TrimPrefix(strings.TrimPrefix(n, "("), "*")
		if i := strings.IndexByte(n, ')'); i >= 0 {
			n = n[:i]
		}
	}
	pkg := n
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		pkg = n[:i]
	}
	if recv && len(c.args) > 0 && !strings.HasPrefix(c.name, "(net/") && strings.HasPrefix(c.name, "(*") {
		c.in.obligation(st, c.fr, c.pos, st.nonNil(c.args[0]), "nil dereference", c.args[0])
	} else if recv && len(c.args) > 0 && strings.HasPrefix(c.name, "(*") {
		c.in.obligation(st, c.fr, c.pos, st.nonNil(c.args[0]), "nil dereference", c.args[0])
	}
	for _, pk := range []string{"assert", "require"} {
		path := "github.com/stretchr/testify/" + pk + "."
		switch {
		case c.name == path+"New":
			c.st.fresh[mk("call", c.name, c.rtype(), c.args...)] = true
			c.k(st, mk("call", c.name, c.rtype(), c.args...))
			return
		case strings.HasPrefix(c.name, "(*"+path+"Assertions)."):
			as := c.norm()
			if len(as) > 0 && as[0].isCall(path+"New") {
				as = append([]*Term{as[0].Args[0]}, as[1:]...)
			}
			c.emit("assert", strings.TrimPrefix(c.name, "(*"+path+"Assertions)."), as...)
			c.k(st, tTrue)
			return
		case pk == "require" && strings.HasPrefix(c.name, path):
			c.emit("assert", strings.TrimPrefix(c.name, path), c.norm()...)
			c.void()
			return
		}
	}
	if strings.HasPrefix(c.name, "github.com/stretchr/testify/assert.") {
		c.emit("assert", strings.TrimPrefix(c.name, "github.com/stretchr/testify/assert."), c.norm()...)
		c.k(st, tTrue) // otherwise the test has failed already
		return
	}
	if pkg == "time" && recv || pkg == "log" && !recv && !strings.Contains(c.name, "Fatal") && !strings.Contains(c.name, "Panic") {
		if pkg == "log" {
			c.emit("call", c.name, c.norm()...)
			c.void()
			return
		}
		c.pure()
		return
	}
	closures := false
	for _, a := range c.args {
		if a.Op == "closure" || a.Op == "func" && in.isModFn(a.Name) {
			closures = true
		}
	}
	if !closures && (!recv && purePkgs[pkg] || purePkgs[c.name] || recv && (pkg == "encoding/base64" || pkg == "net/url") && c.sig.Results().Len() > 0) {
		c.pure()
		return
	}
	// anything else: an effect of its own
	for _, a := range c.args {
		if a.Op == "iface" {
			a = a.Args[0]
		}
		switch {
		case isW(a):
			c.emit("wescape", c.name, a)
		case st.fresh[a]:
			st.havoc(a, mk("havoc", strconv.Itoa(st.next()), derefType(a.T)))
		case st.maps[a] != nil:
			o := st.maps[a]
			st.maps[a] = &MapObj{Base: o.Base, Ops: o.Ops, Unknown: true}
		case a.Op == "closure" || a.Op == "func" && in.isModFn(a.Name):
			in.undecided(st, c.fr, c.pos, "function value passed to "+c.name)
		case a.T != nil && isMapType(a.T) && !a.isNil():
			in.undecided(st, c.fr, c.pos, "map passed to "+c.name)
		case a.T != nil && strings.Contains(types.TypeString(a.T, nil), modPath) && isPtr(a.T):
			in.undecided(st, c.fr, c.pos, "object passed to "+c.name)
		}
	}
	r := c.freshRes()
	c.emit("call", c.name, append([]*Term{r}, c.args...)...)
	c.k(st, r)
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *Interp) isModFn(n string) bool {
	f := in.fns[n]
	return f != nil && inModule(f)
}

// local map helpers for url.Values
func valuesObj(c *cc, m *Term) *MapObj { return c.st.maps[m] }

func getValues(c *cc, m, key *Term) *Term {
	t := types.Typ[types.String]
	return mk("call", "(net/url.Values).Get", t, m, key)
}

var models map[string]func(*cc)

func init() {
	models = map[string]func(*cc){}
	models["strconv.Atoi"] = func(c *cc) {
		if s, ok := c.args[0].str(); ok {
			if n, err := strconv.Atoi(s); err == nil {
				c.k(c.st, mk("tuple", "", nil, mkInt(int64(n)), tNil))
				return
			}
		}
		c.pure()
	}
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "fmt.Sscanf", "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer",
		"encoding/json.Marshal", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "encoding/json.Valid",
		"io.LimitReader", "time.Unix", "time.Date", "time.Duration", "net/http.StatusText", "net/http.CanonicalHeaderKey",
		"(*net/http.Request).BasicAuth", "(*net/http.Request).Context", "(*net/http.Request).UserAgent", "(*net/http.Request).Referer",
		"(*net/http.Request).Cookie", "(net/http.Header).Values", "context.Background", "context.TODO", "github.com/stretchr/testify/assert.ObjectsAreEqual",
		"(*net/http/httptest.ResponseRecorder).Header", "(*net/http/httptest.ResponseRecorder).Result", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*strings.Builder).Len",
		"slices.Index", "slices.Max", "slices.Min", "slices.IndexFunc", "io.NopCloser", "io/ioutil.NopCloser", "io.TeeReader", "bufio.NewReader", "io.MultiReader",
		"(*testing.T).Name"} {
		models[n] = func(c *cc) {
			if strings.HasPrefix(c.name, "(*") {
				c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(c.args[0]) || c.st.fresh[c.args[0]], "nil dereference", c.args[0])
			}
			c.pure()
		}
	}
	ignore := func(c *cc) { c.void() }
	for _, n := range []string{"(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent", "(*testing.T).Helper", "(*testing.T).Log", "(*testing.T).Logf", "(*testing.common).Helper", "(*testing.common).Log", "runtime.KeepAlive", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow"} {
		models[n] = ignore
	}
	// --- net/http ---
	models["(net/http.Header).Set"] = func(c *cc) {
		c.emit("hset", "", hdrOwner(c.args[0]), canonHeader(c.args[1]), c.args[2])
		c.void()
	}
	models["(net/http.Header).Add"] = func(c *cc) {
		c.emit("hadd", "", hdrOwner(c.args[0]), canonHeader(c.args[1]), c.args[2])
		c.void()
	}
	models["(net/http.Header).Del"] = func(c *cc) {
		c.emit("hdel", "", hdrOwner(c.args[0]), canonHeader(c.args[1]))
		c.void()
	}
	models["(net/http.Header).Get"] = func(c *cc) {
		c.pureAs(c.name, c.args[0], canonHeader(c.args[1]))
	}
	models["net/http.Error"] = func(c *cc) {
		if !isW(c.args[0]) {
			c.emit("call", c.name, c.args...)
			c.void()
			return
		}
		w := c.args[0]
		c.emit("hset", "", w, mkStr("Content-Type"), mkStr("text/plain; charset=utf-8"))
		c.emit("hset", "", w, mkStr("X-Content-Type-Options"), mkStr("nosniff"))
		c.emit("status", "", w, c.args[2])
		c.emit("body", "raw", w, mkConcat([]*Term{c.args[1], mkStr("\n")}))
		c.void()
	}
	models["net/http.NotFound"] = func(c *cc) {
		w := c.args[0]
		c.emit("hset", "", w, mkStr("Content-Type"), mkStr("text/plain; charset=utf-8"))
		c.emit("hset", "", w, mkStr("X-Content-Type-Options"), mkStr("nosniff"))
		c.emit("status", "", w, mkInt(404))
		c.emit("body", "raw", w, mkStr("404 page not found\n"))
		c.void()
	}
	models["net/http.Redirect"] = func(c *cc) {
		w := c.args[0]
		c.emit("hset", "", w, mkStr("Location"), c.args[2])
		c.emit("status", "", w, c.args[3])
		c.emit("body", "raw", w, mk("redirectbody", "", nil, c.args[2]))
		c.void()
	}
	models["(*net/http.Request).ParseForm"] = func(c *cc) {
		r := c.args[0]
		c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(r), "nil dereference", r)
		n := "parsed:" + termID(r)
		if c.st.ver[n] == 0 {
			c.st.ver[n] = 1
			c.st.ver["net/http.Request.Form"] = 1
			c.st.ver["net/http.Request.PostForm"] = 1
		}
		c.emit("parseform", "", r)
		c.pureAs(c.name, r)
	}
	models["(*net/http.Request).ParseMultipartForm"] = func(c *cc) {
		models["(*net/http.Request).ParseForm"](c)
	}
	models["(*net/http.Request).PostFormValue"] = func(c *cc) {
		c.pureAs("(net/url.Values).Get", mk("sel", "PostForm#1", nil, c.args[0]), c.args[1])
	}
	models["(*net/http.Request).FormValue"] = func(c *cc) {
		c.pureAs("(net/url.Values).Get", mk("sel", "Form#1", nil, c.args[0]), c.args[1])
	}
	models["(*net/http.Request).SetBasicAuth"] = func(c *cc) {
		c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(c.args[0]), "nil dereference", c.args[0])
		c.emit("basicauth", "", c.args...)
		c.void()
	}
	newReq := func(off int) func(c *cc) {
		return func(c *cc) {
			n := "net/http.NewRequest@" + strconv.Itoa(c.st.next())
			c.pureAs(n, c.norm()[off:]...)
		}
	}
	models["net/http.NewRequest"] = newReq(0)
	models["net/http.NewRequestWithContext"] = newReq(1)
	models["net/http/httptest.NewRequest"] = newReq(0)
	models["(*net/http.Client).Do"] = func(c *cc) {
		c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(c.args[0]), "nil dereference", c.args[0])
		r := mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype(), c.args...)
		c.emit("do", "", append([]*Term{r}, c.args...)...)
		c.k(c.st, r)
	}
	// --- net/url ---
	vget := func(c *cc) {
		m, key := c.args[0], c.args[1]
		if o := valuesObj(c, m); o != nil {
			if o.concrete() || len(o.Ops) > 0 {
				for i := len(o.Ops) - 1; i >= 0; i-- {
					e := o.Ops[i]
					if e.Mode == "set" && c.st.same(e.Key, key) {
						l := c.st.resolve(e.Val)
						if l.Op == "list" && len(l.Args) > 0 {
							c.k(c.st, l.Args[0])
							return
						}
					}
				}
				if o.concrete() {
					allConst := key.isConst()
					for _, e := range o.Ops {
						allConst = allConst && e.Key.isConst()
					}
					if allConst {
						c.k(c.st, mkStr(""))
						return
					}
				}
				c.k(c.st, getValues(c, c.st.mapTerm(m, o), key))
				return
			}
			if o.Base != nil {
				c.k(c.st, getValues(c, o.Base, key))
				return
			}
			c.k(c.st, mkStr(""))
			return
		}
		c.k(c.st, getValues(c, m, key))
	}
	models["(net/url.Values).Get"] = vget
	models["(net/url.Values).Has"] = func(c *cc) {
		m := c.args[0]
		if o := valuesObj(c, m); o != nil {
			m = c.st.mapTerm(m, o)
		}
		c.k(c.st, mk("haskey", "", types.Typ[types.Bool], m, c.args[1]))
	}
	models["(net/url.Values).Set"] = func(c *cc) {
		c.in.mapUpdate(c.fr, c.st, c.args[0], c.args[1], mk("list", "", nil, c.args[2]), c.pos)
		c.void()
	}
	models["(net/url.Values).Add"] = func(c *cc) {
		m := c.args[0]
		if o := valuesObj(c, m); o != nil && !c.in.ginit[m] {
			c.emit("ladd", "", m, c.args[1], c.args[2])
			// an added value of a new key is the same as setting it
			if o.Base == nil && !o.Unknown && !o.loopy() {
				fresh := true
				for _, e := range o.Ops {
					if v, ok := c.st.eval(mkEq(e.Key, c.args[1])); !ok || v {
						fresh = false
					}
				}
				if fresh {
					c.st.maps[m] = o.with(mapEntry{Mode: "set", Key: c.args[1], Val: mk("list", "", nil, c.args[2])})
					c.void()
					return
				}
			}
			c.st.maps[m] = o.with(mapEntry{Mode: "add", Key: c.args[1], Val: c.args[2]})
			c.void()
			return
		}
		c.emit("mapset", "add", m, c.args[1], c.args[2], c.args[2])
		c.st.bumpMap(m, mapEntry{Mode: "set", Key: c.args[1], Val: mk("added", strconv.Itoa(c.st.next()), nil, c.args[2])})
		c.void()
	}
	models["(net/url.Values).Del"] = func(c *cc) {
		c.in.mapDelete(c.fr, c.st, c.args[0], c.args[1], c.pos)
		c.void()
	}
	models["(net/url.Values).Encode"] = func(c *cc) {
		m := c.args[0]
		if o := valuesObj(c, m); o != nil {
			m = c.st.mapTerm(m, o)
			if o.Base == nil && len(o.Ops) == 0 && !o.Unknown {
				c.k(c.st, mkStr(""))
				return
			}
		}
		c.pureAs(c.name, m)
	}
	models["(*net/url.URL).Query"] = func(c *cc) {
		c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(c.args[0]), "nil dereference", c.args[0])
		raw := c.st.load(mkFA(c.args[0], "RawQuery", types.Typ[types.String]), types.Typ[types.String])
		c.queryMap(raw)
	}
	models["net/url.ParseQuery"] = func(c *cc) {
		base := mk("call", "net/url.ParseQuery", c.rtype(), c.args...)
		m := mk("mkmap", "query@"+c.in.posStr(c.pos)+"#"+strconv.Itoa(c.st.next()), c.sig.Results().At(0).Type())
		c.st.maps[m] = &MapObj{Base: mk("query", "", m.T, c.args[0])}
		c.k(c.st, mk("tuple", "", c.rtype(), m, mkRet(base, 1, c.sig.Results().At(1).Type())))
	}
	models["(*net/url.URL).String"] = func(c *cc) {
		u := c.args[0]
		c.in.obligation(c.st, c.fr, c.pos, c.st.nonNil(u) || c.st.fresh[u], "nil dereference", u)
		args := []*Term{u}
		if c.st.fresh[u] {
			args = []*Term{c.st.snapshot(u, 0)}
		} else {
			for _, f := range []string{"Scheme", "Opaque", "User", "Host", "Path", "RawPath", "OmitHost", "ForceQuery", "RawQuery", "Fragment", "RawFragment"} {
				for a, v := range c.st.mem {
					if a.Op == "fa" && a.Name == f && a.Args[0] == u {
						args = append(args, mk("with", f, nil, v))
					}
				}
			}
		}
		c.pureAs(c.name, args...)
	}
	// --- io ---
	readAll := func(c *cc) {
		r := mk("call", "io.ReadAll@"+strconv.Itoa(c.st.next()), c.rtype(), c.norm()...)
		c.emit("read", "all", c.norm()[0], r)
		c.k(c.st, r)
	}
	models["io.ReadAll"] = readAll
	models["io/ioutil.ReadAll"] = readAll
	fill := func(c *cc) {
		r := mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype(), c.args...)
		src, buf := c.args[0], c.args[len(c.args)-1]
		if len(c.args) == 1 {
			src = mk("gload", "crypto/rand.Reader", nil)
		}
		c.emit("fill", c.name, src, buf, r)
		if buf.Op == "slice" && c.st.fresh[buf.Args[0]] {
			c.st.havoc(buf.Args[0], mk("filled", strconv.Itoa(c.st.next()), nil, src))
		} else if c.st.fresh[buf] {
			c.st.havoc(buf, mk("filled", strconv.Itoa(c.st.next()), buf.T, src, buf))
		}
		c.st.setContent(buf, mk("filled", strconv.Itoa(c.st.next()), buf.T, src, buf))
		c.k(c.st, r)
	}
	models["io.ReadFull"] = fill
	models["io.ReadAtLeast"] = func(c *cc) {
		if c.args[2] == mkLen(c.args[1]) {
			c.name, c.args = "io.ReadFull", c.args[:2]
			fill(c)
			return
		}
		a := c.args
		c.args = a[:2]
		fill(c)
	}
	models["crypto/rand.Read"] = fill
	models["math/rand.Read"] = func(c *cc) {
		c.emit("fill", c.name, mk("gload", "math/rand", nil), c.args[0], tNil)
		c.k(c.st, mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype()))
	}
	models["io.WriteString"] = func(c *cc) { c.writeTo(c.args[0], c.args[1]) }
	models["fmt.Fprint"] = func(c *cc) {
		l := c.st.resolve(c.args[1])
		if l.Op == "list" && len(l.Args) == 1 {
			c.writeTo(c.args[0], fmtArg(l.Args[0]))
			return
		}
		c.writeTo(c.args[0], mk("call", "fmt.Sprint", types.Typ[types.String], l))
	}
	models["fmt.Fprintf"] = func(c *cc) {
		c.writeTo(c.args[0], sprintf(c.st, c.args[1], c.st.resolve(c.args[2])))
	}
	models["fmt.Fprintln"] = func(c *cc) {
		c.writeTo(c.args[0], mk("call", "fmt.Sprintln", types.Typ[types.String], c.st.resolve(c.args[1])))
	}
	models["fmt.Sprint"] = func(c *cc) {
		l := c.st.resolve(c.args[0])
		if l.Op == "list" && len(l.Args) == 1 {
			c.k(c.st, fmtArg(l.Args[0]))
			return
		}
		c.pure()
	}
	models["fmt.Sprintf"] = func(c *cc) { c.k(c.st, sprintf(c.st, c.args[0], c.st.resolve(c.args[1]))) }
	// --- encoding/json ---
	models["encoding/json.NewEncoder"] = func(c *cc) { c.k(c.st, mk("call", c.name, c.rtype(), c.args[0])) }
	models["(*encoding/json.Encoder).Encode"] = func(c *cc) {
		enc := c.args[0]
		v := unifaceSnap(c.st, c.args[1])
		res := mk("call", "encode@"+strconv.Itoa(c.st.next()), c.rtype())
		if enc.isCall("encoding/json.NewEncoder") && isW(enc.Args[0]) {
			c.in.emit(c.st, c.fr, &Event{Kind: "body", Name: "json", Args: []*Term{enc.Args[0], v}, Res: res, Pos: c.pos})
		} else if w := encoderTarget(enc); isBuffer(c.st, w) {
			// writes the document and a line feed
			doc := mk("call", "encoding/json.Marshal", c.rtype(), v)
			c.st.bufAppend(w, mkConcat([]*Term{mk("conv", "string", types.Typ[types.String], mkRet(doc, 0, types.NewSlice(types.Typ[types.Byte]))), mkStr("\n")}))
			res = mkRet(doc, 1, c.rtype())
			c.in.emit(c.st, c.fr, &Event{Kind: "call", Name: c.name, Args: c.args, Res: res, Pos: c.pos})
		} else {
			c.otherWriter(w)
			c.in.emit(c.st, c.fr, &Event{Kind: "call", Name: c.name, Args: c.args, Res: res, Pos: c.pos})
		}
		c.k(c.st, res)
	}
	models["encoding/json.Marshal"] = func(c *cc) { c.pureAs(c.name, unifaceSnap(c.st, c.args[0])) }
	models["encoding/json.Unmarshal"] = func(c *cc) {
		c.unmarshal(c.st.snapshot(c.args[0], 0), c.args[1])
	}
	models["(*encoding/json.Decoder).Decode"] = func(c *cc) {
		d := c.args[0]
		if d.isCall("encoding/json.NewDecoder") {
			c.emit("read", "json", d.Args[0], d)
			c.unmarshal(mk("stream", "", nil, d.Args[0]), c.args[1])
			return
		}
		c.unmarshal(d, c.args[1])
	}
	// --- time ---
	models["time.Now"] = func(c *cc) { c.k(c.st, mk("call", "time.Now@"+strconv.Itoa(c.st.next()), c.rtype())) }
	models["time.Since"] = func(c *cc) {
		now := mk("call", "time.Now@"+strconv.Itoa(c.st.next()), c.args[0].T)
		c.pureAs(c.name, c.args[0], now)
	}
	models["time.Until"] = models["time.Since"]
	models["(time.Time).Before"] = func(c *cc) {
		c.k(c.st, mk("before", "", types.Typ[types.Bool], c.args[0], c.args[1]))
	}
	models["(time.Time).After"] = func(c *cc) {
		c.k(c.st, mk("before", "", types.Typ[types.Bool], c.args[1], c.args[0]))
	}
	for _, n := range []string{"UTC", "Local", "In"} {
		models["(time.Time)."+n] = func(c *cc) { c.k(c.st, c.args[0]) }
	}
	// --- strings ---
	models["strings.Contains"] = func(c *cc) {
		if s, ok := c.args[1].str(); ok && len(s) == 1 {
			c.k(c.st, mkNot(mkEq(mk("call", "strings.IndexByte", types.Typ[types.Int], c.args[0], mkInt(int64(s[0]))), mkInt(-1))))
			return
		}
		c.k(c.st, mkNot(mkEq(mk("call", "strings.Index", types.Typ[types.Int], c.args[0], c.args[1]), mkInt(-1))))
	}
	idx1 := func(base string) func(c *cc) {
		return func(c *cc) {
			if s, ok := c.args[1].str(); ok && len(s) == 1 {
				c.pureAs(base+"Byte", c.args[0], mkInt(int64(s[0])))
				return
			}
			if n, ok := c.args[1].intVal(); ok && n < 128 {
				c.pureAs(base+"Byte", c.args[0], mkInt(n))
				return
			}
			c.pure()
		}
	}
	models["strings.Index"] = idx1("strings.Index")
	models["strings.IndexRune"] = idx1("strings.Index")
	models["strings.LastIndex"] = idx1("strings.LastIndex")
	models["strings.LastIndexByte"] = idx1("strings.LastIndex")
	models["strings.IndexByte"] = idx1("strings.Index")
	models["strings.ContainsRune"] = func(c *cc) {
		if n, ok := c.args[1].intVal(); ok && n < 128 {
			c.k(c.st, mkNot(mkEq(mk("call", "strings.IndexByte", types.Typ[types.Int], c.args[0], mkInt(n)), mkInt(-1))))
			return
		}
		c.pure()
	}
	models["strings.ContainsAny"] = func(c *cc) {
		if s, ok := c.args[1].str(); ok && len(s) == 1 {
			c.k(c.st, mkNot(mkEq(mk("call", "strings.IndexByte", types.Typ[types.Int], c.args[0], mkInt(int64(s[0]))), mkInt(-1))))
			return
		}
		c.pure()
	}
	models["strings.Count"] = func(c *cc) {
		if s, ok := c.args[1].str(); ok && s != "" {
			c.k(c.st, mkAdd(mkLen(mk("call", "strings.Split", types.NewSlice(types.Typ[types.String]), c.args[0], c.args[1])), mkInt(-1), types.Typ[types.Int]))
			return
		}
		c.pure()
	}
	models["strings.SplitN"] = func(c *cc) {
		if n, ok := c.args[2].intVal(); ok && n < 0 {
			c.pureAs("strings.Split", c.args[0], c.args[1])
			return
		}
		c.pure()
	}
	// --- strings.Builder, bytes.Buffer ---
	for _, b := range []string{"strings.Builder", "bytes.Buffer", "bufio.Writer"} {
		app := func(c *cc, s *Term) {
			if !c.st.fresh[root(c.args[0])] {
				c.emit("call", c.name, c.args...)
			}
			c.st.bufAppend(c.args[0], s)
		}
		models["(*"+b+").WriteString"] = func(c *cc) {
			app(c, c.args[1])
			c.k(c.st, mk("tuple", "", c.rtype(), mkLen(c.args[1]), tNil))
		}
		models["(*"+b+").WriteByte"] = func(c *cc) {
			s := mk("call", "bytestring", types.Typ[types.String], c.args[1])
			if n, ok := c.args[1].intVal(); ok {
				s = mkStr(string([]byte{byte(n)}))
			}
			app(c, s)
			c.k(c.st, tNil)
		}
		models["(*"+b+").WriteRune"] = func(c *cc) {
			s := mk("call", "runestring", types.Typ[types.String], c.args[1])
			if n, ok := c.args[1].intVal(); ok {
				s = mkStr(string(rune(n)))
			}
			app(c, s)
			c.k(c.st, mk("tuple", "", c.rtype(), mkInt(1), tNil))
		}
		models["(*"+b+").Write"] = func(c *cc) {
			s := bytesOf(c.args[1])
			if s == nil {
				s = mk("conv", "string", types.Typ[types.String], c.st.resolve(c.args[1]))
			}
			app(c, s)
			c.k(c.st, mk("tuple", "", c.rtype(), mkLen(c.args[1]), tNil))
		}
		models["(*"+b+").String"] = func(c *cc) {
			v := c.st.mem[mk("fa", "#buf", types.NewPointer(types.Typ[types.String]), c.args[0])]
			if v == nil {
				if !c.st.fresh[c.args[0]] {
					c.pure()
					return
				}
				v = mkStr("")
			}
			c.k(c.st, v)
		}
	}
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		models["(*"+b+").Len"] = func(c *cc) {
			if !isBuffer(c.st, c.args[0]) {
				c.k(c.st, c.freshRes())
				return
			}
			c.k(c.st, mkLen(c.st.bufText(c.args[0])))
		}
		models["(*"+b+").Reset"] = func(c *cc) {
			if !c.st.fresh[root(c.args[0])] {
				c.emit("call", c.name, c.args...)
			}
			c.st.mem[bufCell(c.args[0])] = mkStr("")
			c.void()
		}
	}
	models["(*bytes.Buffer).Bytes"] = func(c *cc) {
		if !isBuffer(c.st, c.args[0]) {
			c.k(c.st, c.freshRes())
			return
		}
		c.k(c.st, mk("conv", "[]byte", c.rtype(), c.st.bufText(c.args[0])))
	}
	models["(*bytes.Buffer).WriteTo"] = func(c *cc) { c.drain(c.args[0], c.args[1]) }
	models["io.Copy"] = func(c *cc) {
		if b := unface(c.args[1]); isBuffer(c.st, b) && types.TypeString(b.T, nil) == "*bytes.Buffer" {
			c.drain(b, c.args[0])
			return
		}
		c.in.opaque(c)
	}
	models["bufio.NewWriter"] = func(c *cc) {
		b := mk("alloc", "bufio@"+strconv.Itoa(c.st.next()), c.rtype())
		c.st.fresh[b] = true
		c.st.mem[mk("fa", "#to", nil, b)] = unface(c.args[0])
		c.k(c.st, b)
	}
	models["(*bufio.Writer).Flush"] = func(c *cc) {
		w := c.st.mem[mk("fa", "#to", nil, c.args[0])]
		if w == nil || !isW(w) {
			c.in.opaque(c)
			return
		}
		text := c.st.bufText(c.args[0])
		c.st.mem[bufCell(c.args[0])] = mkStr("")
		res := mk("call", "write@"+strconv.Itoa(c.st.next()), c.rtype())
		c.in.emit(c.st, c.fr, &Event{Kind: "body", Name: "raw", Args: []*Term{w, text}, Res: res, Pos: c.pos})
		c.k(c.st, res)
	}
	// --- errors ---
	models["errors.As"] = func(c *cc) {
		e, target := c.args[0], c.args[1]
		if target.Op == "iface" {
			target = target.Args[0]
		}
		t := derefType(derefTerm(target))
		if t == nil {
			c.pure()
			return
		}
		tt := derefType(target.T)
		c.in.assertType(c.st, e, tt, func(st *State, v *Term, ok bool) {
			if ok {
				st.store(target, v)
			}
			c.k(st, mkBool(ok))
		}, func(*State, bool) {})
	}
	models["errors.Is"] = func(c *cc) {
		if c.args[1].isNil() {
			c.k(c.st, mkEq(c.args[0], tNil))
			return
		}
		c.pure()
	}
	// --- sort, slices, maps ---
	sorter := func(c *cc) {
		c.emit("sort", c.name, c.args...)
		c.void()
	}
	for _, n := range []string{"sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable"} {
		models[n] = sorter
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		models[n] = func(c *cc) {
			s := c.args[0]
			if s.Op == "iface" {
				s = s.Args[0]
			}
			id := c.in.posStr(c.pos) + "#" + strconv.Itoa(c.st.next())
			i, k := mk("param", "i@"+id, types.Typ[types.Int]), mk("param", "j@"+id, types.Typ[types.Int])
			res := c.callback(c.args[1], func(st *State) bool {
				for _, x := range []*Term{i, k} {
					st.lb[x] = 0
					if !st.assume(mkLt(x, st.lenOf(st.resolve(s))), true) {
						return false
					}
				}
				return true
			}, i, k)
			c.emit("sort", c.name, append([]*Term{s, c.args[1]}, res...)...)
			c.void()
		}
	}
	for n, i := range map[string]int{"strings.FieldsFunc": 1, "strings.IndexFunc": 1, "strings.LastIndexFunc": 1, "strings.ContainsFunc": 1, "strings.TrimFunc": 1,
		"strings.TrimLeftFunc": 1, "strings.TrimRightFunc": 1, "strings.Map": 0} {
		n, i := n, i
		models[n] = func(c *cc) {
			r := mk("param", "rune", types.Typ[types.Rune])
			res := c.callback(c.args[i], nil, r)
			if len(res) != 1 {
				c.k(c.st, c.freshRes())
				return
			}
			if n == "strings.FieldsFunc" && res[0] == mkEq(r, mkInt(' ')) {
				c.pureAs("strings.FieldsFunc", c.norm()[0], mkStr(" "))
				return
			}
			c.pureAs(n, c.norm()[1-i], res[0])
		}
	}
	models["slices.Clone"] = func(c *cc) { c.k(c.st, c.st.content(c.st.resolve(c.args[0]))) }
	models["strings.Join"] = func(c *cc) {
		as := c.norm()
		if l := as[0]; l.isNil() || l.Op == "mkslice" && l.Args[0].isInt(0) || l.Op == "list" && len(l.Args) == 0 {
			c.k(c.st, mkStr(""))
			return
		} else if l.Op == "list" && len(l.Args) == 1 {
			c.k(c.st, l.Args[0])
			return
		} else if l.Op == "list" {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, as[1])
				}
				parts = append(parts, a)
			}
			c.k(c.st, mkConcat(parts))
			return
		}
		c.pureAs("strings.Join", as...)
	}
	models["bytes.Clone"] = models["slices.Clone"]
	models["strings.Clone"] = models["slices.Clone"]
	models["slices.Contains"] = func(c *cc) { c.pureAs("slices.Contains", c.norm()...) }
	models["maps.Clone"] = func(c *cc) {
		src := c.args[0]
		m := mk("mkmap", "clone@"+c.in.posStr(c.pos)+"#"+strconv.Itoa(c.st.next()), c.rtype())
		if o := c.st.maps[src]; o != nil {
			c.st.maps[m] = &MapObj{Base: o.Base, Ops: o.Ops, Unknown: o.Unknown}
		} else {
			c.emit("mapread", "", src)
			c.st.maps[m] = &MapObj{Base: src}
		}
		c.k(c.st, m)
	}
	models["maps.DeleteFunc"] = func(c *cc) {
		m, f := c.args[0], c.args[1]
		if c.st.maps[m] != nil {
			c.in.external(&cc{in: c.in, fr: c.fr, st: c.st, name: "maps.DeleteFunc(local)", args: c.args, sig: c.sig, pos: c.pos, k: c.k})
			return
		}
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			c.void()
			return
		}
		c.emit("mapread", "", m)
		// one generic iteration: delete the entry if the predicate holds
		id := "deletefunc@" + c.in.posStr(c.pos) + "#" + strconv.Itoa(c.st.next())
		key, val := mk("nextkey", id, mt.Key(), m), mk("nextval", id, mt.Elem(), m)
		body := c.st.clone()
		var backs []LoopBack
		n, nf := len(body.events), len(body.facts)
		c.in.callTerm(c.fr, body, f, nil, []*Term{key, val}, c.pos, func(st *State, r *Term) {
			for _, pol := range []bool{true, false} {
				s := st.clone()
				if !s.assume(r, pol) {
					continue
				}
				if pol {
					c.in.mapDelete(c.fr, s, m, key, c.pos)
				}
				backs = append(backs, LoopBack{Facts: s.facts[nf:], Events: s.events[n:], St: s})
			}
		})
		info := &LoopInfo{Inst: id, Pos: c.pos, Over: m, Backs: backs, Exhausted: true}
		if c.fr != nil {
			info.Fn = c.fr.fn
		}
		c.in.emit(c.st, c.fr, &Event{Kind: "loop", Loop: info, Pos: c.pos})
		c.st.bumpMap(m, mapEntry{Mode: "unknown"})
		c.void()
	}
	// --- crypto ---
	models["crypto/hmac.New"] = func(c *cc) {
		h := mk("hash", "hmac@"+strconv.Itoa(c.st.next()), nil, c.args[0], c.args[1])
		c.k(c.st, h)
	}
	for _, n := range []string{"crypto/sha256.New", "crypto/sha1.New", "crypto/md5.New", "crypto/sha512.New"} {
		n := n
		models[n] = func(c *cc) {
			c.k(c.st, mk("hash", "plain@"+strconv.Itoa(c.st.next()), nil, mk("func", n, nil), tNil))
		}
	}
	models["crypto/hmac.Equal"] = func(c *cc) { c.k(c.st, mkBytesEq(c.norm()[0], c.norm()[1], "ct")) }
	models["bytes.Equal"] = func(c *cc) { c.k(c.st, mkBytesEq(c.norm()[0], c.norm()[1], "var")) }
	models["slices.Equal"] = func(c *cc) { c.k(c.st, mkBytesEq(c.norm()[0], c.norm()[1], "var")) }
	models["reflect.DeepEqual"] = func(c *cc) { c.pure() }
	// --- sync ---
	lk := func(kind string) func(*cc) {
		return func(c *cc) {
			c.emit(kind, c.name, c.args[0])
			c.void()
		}
	}
	for _, m := range []string{"Mutex", "RWMutex"} {
		models["(*sync."+m+").Lock"] = lk("lock")
		models["(*sync."+m+").Unlock"] = lk("unlock")
	}
	models["(*sync.RWMutex).RLock"] = lk("rlock")
	models["(*sync.RWMutex).RUnlock"] = lk("runlock")
	models["(*sync.Mutex).TryLock"] = func(c *cc) {
		c.emit("trylock", c.name, c.args[0])
		c.k(c.st, mk("call", "trylock@"+strconv.Itoa(c.st.next()), types.Typ[types.Bool]))
	}
	models["(sync.Locker).Lock"] = func(c *cc) { c.emit("lock", c.name, unface(c.args[0])); c.void() }
	models["(sync.Locker).Unlock"] = func(c *cc) { c.emit("unlock", c.name, unface(c.args[0])); c.void() }
	models["(*sync.Once).Do"] = func(c *cc) {
		c.in.callTerm(c.fr, c.st, c.args[1], nil, nil, c.pos, func(st *State, _ *Term) { c.k(st, mk("tuple", "", nil)) })
	}
	// --- strconv ---
	models["strconv.FormatInt"] = func(c *cc) {
		if c.args[1].isInt(10) {
			x := c.args[0]
			if x.Op == "conv" {
				x = x.Args[0]
			}
			c.pureAs("strconv.Itoa", x)
			return
		}
		c.pure()
	}
	// --- testing ---
	models["(*testing.T).Run"] = func(c *cc) {
		c.emit("run", "", c.args[1], c.args[2])
		sub := mk("param", "t:sub", c.args[0].T)
		n := len(c.st.events)
		c.in.callTerm(c.fr, c.st, c.args[2], nil, []*Term{sub}, c.pos, func(st *State, _ *Term) {
			c.in.emit(st, c.fr, &Event{Kind: "runend", Args: []*Term{c.args[1], mkInt(int64(n))}, Pos: c.pos})
			c.k(st, mk("call", "run@"+strconv.Itoa(st.next()), types.Typ[types.Bool]))
		})
	}
	models["net/http/httptest.NewRecorder"] = func(c *cc) {
		c.k(c.st, mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype()))
	}
}

func unface(t *Term) *Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

func derefTerm(t *Term) types.Type { return t.T }

// unifaceSnap captures the value handed to an encoder.
func unifaceSnap(st *State, t *Term) *Term {
	if t.Op == "iface" {
		return mk("iface", t.Name, t.T, st.snapshot(t.Args[0], 0))
	}
	return st.snapshot(t, 0)
}

func (c *cc) queryMap(raw *Term) {
	m := mk("mkmap", "query@"+c.in.posStr(c.pos)+"#"+strconv.Itoa(c.st.next()), c.rtype())
	c.st.maps[m] = &MapObj{Base: mk("query", "", m.T, raw)}
	c.k(c.st, m)
}

func (c *cc) unmarshal(data, target *Term) {
	ptr := unface(target)
	t := derefType(ptr.T)
	v := mk("decoded", fmt.Sprint(t), t, data)
	c.emit("unmarshal", "", data, ptr)
	if c.st.fresh[root(ptr)] {
		old := c.st.load(ptr, t)
		if old.Op == "zero" || old.isConst() {
			c.st.havoc(ptr, v)
		} else {
			c.st.havoc(ptr, mk("decodedover", fmt.Sprint(t), t, data, old))
		}
	} else {
		c.in.emit(c.st, c.fr, &Event{Kind: "store", Name: "unmarshal", Args: []*Term{ptr, v}, Pos: c.pos})
		c.st.ver["*"] = c.st.next()
		c.st.mem[ptr] = v
	}
	c.k(c.st, mk("call", "encoding/json.Unmarshal", c.rtype(), data, mkStr(fmt.Sprint(t))))
}

// bufCell is the address of the text a buffer holds.
func bufCell(b *Term) *Term { return mk("fa", "#buf", types.NewPointer(types.Typ[types.String]), b) }

func (s *State) bufText(b *Term) *Term {
	if v := s.mem[bufCell(b)]; v != nil {
		return v
	}
	return mkStr("")
}

func (s *State) bufAppend(b, text *Term) {
	s.mem[bufCell(b)] = mkConcat([]*Term{s.bufText(b), text})
}

// isBuffer tells whether a writer is a new buffer whose text is tracked.
func isBuffer(s *State, w *Term) bool {
	if w == nil || w.T == nil || !s.fresh[root(w)] {
		return false
	}
	switch types.TypeString(w.T, nil) {
	case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer":
		return true
	}
	return false
}

// encoderTarget is the writer of a JSON encoder.
func encoderTarget(enc *Term) *Term {
	if enc.isCall("encoding/json.NewEncoder") {
		return unface(enc.Args[0])
	}
	return nil
}

// drain writes the text of a buffer to a writer and empties the buffer.
func (c *cc) drain(b, w *Term) {
	if !isBuffer(c.st, b) || !isW(unface(w)) {
		c.in.opaque(c)
		return
	}
	text := c.st.bufText(b)
	c.st.mem[bufCell(b)] = mkStr("")
	c.writeTo(w, text)
}

// otherWriter gives up on writers that are implemented in the module.
func (c *cc) otherWriter(w *Term) {
	if w != nil && w.T != nil && strings.Contains(types.TypeString(w.T, nil), modPath) {
		c.in.undecided(c.st, c.fr, c.pos, "output to a "+types.TypeString(w.T, nil))
	}
}

// writeTo models writing a string to a writer.
func (c *cc) writeTo(w, s *Term) {
	w = unface(w)
	if isW(w) {
		res := mk("call", "write@"+strconv.Itoa(c.st.next()), c.rtype())
		c.in.emit(c.st, c.fr, &Event{Kind: "body", Name: "raw", Args: []*Term{w, s}, Res: mkRet(res, 1, types.Universe.Lookup("error").Type()), Pos: c.pos})
		c.k(c.st, res)
		return
	}
	if isBuffer(c.st, w) {
		c.st.bufAppend(w, s)
		c.k(c.st, mk("call", "write@"+strconv.Itoa(c.st.next()), c.rtype()))
		return
	}
	c.otherWriter(w)
	c.emit("call", c.name, c.args...)
	c.k(c.st, mk("call", c.name+"@"+strconv.Itoa(c.st.next()), c.rtype()))
}

func fmtArg(a *Term) *Term {
	if a.Op == "iface" {
		x := a.Args[0]
		switch a.Name {
		case "string":
			return x
		case "int":
			return mk("call", "strconv.Itoa", types.Typ[types.String], x)
		}
		if x.T != nil && isStringType(x.T) && !strings.Contains(a.Name, ".") {
			return x
		}
	}
	return mk("call", "fmt.Sprint", types.Typ[types.String], a)
}

// sprintf expands simple format strings.
func sprintf(st *State, format, list *Term) *Term {
	f, ok := format.str()
	raw := func() *Term {
		return mk("call", "fmt.Sprintf", types.Typ[types.String], format, st.snapshot(list, 0))
	}
	if !ok || list.Op != "list" && !list.isNil() {
		return raw()
	}
	var args []*Term
	if list.Op == "list" {
		args = list.Args
	}
	var parts []*Term
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, mkStr(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return raw()
		}
		switch f[i] {
		case '%':
			parts = append(parts, mkStr("%"))
			continue
		case 's', 'v', 'd', 'q':
			if n >= len(args) {
				return raw()
			}
			a := args[n]
			n++
			if f[i] == 'q' {
				q := fmtArg(a)
				if s, ok := q.str(); ok {
					parts = append(parts, mkStr(strconv.Quote(s)))
				} else {
					parts = append(parts, mk("call", "strconv.Quote", types.Typ[types.String], q))
				}
			} else {
				parts = append(parts, fmtArg(a))
			}
		default:
			return raw()
		}
	}
	if n != len(args) {
		return raw()
	}
	return mkConcat(parts)
}
