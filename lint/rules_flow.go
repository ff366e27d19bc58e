package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// secretPart finds a part of a value that reveals a secret: the signing
// secret, the secret of a client or user, a submitted password or client
// secret, or the key of a stored credential; with creds set also a presented
// credential. Hashes, comparisons, lengths and presence reveal nothing.
func (x *Tr) secretPart(t *Term, creds bool, seen map[*Term]bool) *Term {
	if t == nil || seen[t] {
		return nil
	}
	seen[t] = true
	args := t.Args
	switch t.Op {
	case "const", "eq", "lt", "before", "haskey", "not", "len", "cap", "nextok", "hash", "mac", "typeis", "bytesEq":
		return nil
	case "nextkey":
		if n := x.storeName(t.Args[0]); n != "" && n != "Clients" && n != "Users" {
			return t
		}
		return nil
	case "nextval", "lookup":
		if n := x.storeName(t.Args[0]); n != "" {
			if n == "Clients" || n == "Users" {
				return t // the whole entity with its secret
			}
			return nil
		}
	case "sel":
		b := t.Args[0]
		switch {
		case b == x.s && x.s != nil:
			if t.Name == "Config" || x.storeName(t) != "" {
				return t
			}
			return nil
		case x.s != nil && b == sel(x.s, "Config"):
			if t.Name == "Secret" {
				return t
			}
			return nil
		case (b.Op == "lookup" || b.Op == "nextval") && x.storeName(b.Args[0]) != "":
			if t.Name == "Secret" {
				return t
			}
			return nil
		case b == x.r:
			switch f, _, _ := strings.Cut(t.Name, "#"); f {
			case "Form", "PostForm", "Header", "Body", "MultipartForm":
				return t
			}
			return nil
		}
	case "call":
		n := callName(t)
		switch {
		case n == modPath+".GenerateHS256Token" || n == modPath+".MustGenerateHS256Token":
			return nil
		case n == modPath+".HS256TokenFromKey" || n == modPath+".ParseHS256Token":
			args = t.Args[1:]
		case n == "(*net/http.Request).BasicAuth" || n == "(*net/http.Request).ParseForm":
			return nil // see below
		case (n == "(net/url.Values).Get" || n == "(net/http.Header).Get") && t.Args[0].Op == "sel" && t.Args[0].Args[0] == x.r:
			k, ok := t.Args[1].str()
			if !ok {
				return t
			}
			switch k {
			case "password", "client_secret":
				return t
			case "code", "refresh_token", "token", "Authorization", "Cookie":
				if creds {
					return t
				}
			}
			return nil
		case n == "(*net/http.Request).FormValue" || n == "(*net/http.Request).PostFormValue":
			k, ok := t.Args[1].str()
			if !ok || k == "password" || k == "client_secret" || creds && (k == "code" || k == "refresh_token" || k == "token") {
				return t
			}
			return nil
		case n == modPath+".ParseBearerToken":
			return nil // its result is handled below, its error by the rule
		}
	case "ret":
		switch b := t.Args[0]; {
		case b.isCall("(*net/http.Request).BasicAuth"):
			if t.Name == "1" {
				return t
			}
			return nil
		case b.isCall(modPath + ".ParseBearerToken"):
			if t.Name == "0" && creds {
				return t
			}
			return nil
		case b.isCall(modPath+".ParseHS256Token") && t.Name == "1":
			return nil // its errors are checked by the rule
		}
	case "loopvar":
		for _, v := range x.updates(t) {
			if s := x.secretPart(v, creds, seen); s != nil {
				return s
			}
		}
		return nil
	case "param":
		if t == x.s || t == x.r {
			return t
		}
		return nil
	}
	for _, a := range args {
		if s := x.secretPart(a, creds, seen); s != nil {
			return s
		}
	}
	return nil
}

// updates lists what a loop assigns to one of its variables.
func (x *Tr) updates(v *Term) (out []*Term) {
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, e := range es {
			if e.Loop == nil {
				continue
			}
			for _, p := range e.Loop.Init {
				if p.Var == v {
					out = append(out, p.Init)
				}
			}
			var cell *Term
			for _, m := range e.Loop.Mem {
				if m.Var == v {
					out = append(out, m.Init)
					cell = m.Cell
				}
			}
			for _, b := range e.Loop.Backs {
				if u := b.Phis[v]; u != nil {
					out = append(out, u)
				}
				if cell != nil && b.St != nil {
					if u := b.St.mem[cell]; u != nil {
						out = append(out, u)
					}
				}
				walk(b.Events)
			}
		}
	}
	walk(x.Events)
	return out
}

// C35: secrets.
func ruleC35(j *J) {
	j.expl = "information flow along the data dependencies of every path of ServeHTTP and Authorize: no header, status or body value and nothing handed to other functions depends on the signing secret, on a client's or user's secret, on a submitted password, client secret or presented credential or on the keys of the credential stores, other than through the keyed hash, comparisons, lengths and lookups; nothing recorded in a store depends on a secret; the errors of the token parsers and of the bearer token extraction reveal no part of their input"
	serve := j.server()
	for n, x := range append(serve[:len(serve):len(serve)], j.entry("(*Server).Authorize")...) {
		if n < len(serve) {
			j.class("path of (*Server).ServeHTTP")
		} else {
			j.class("path of (*Server).Authorize")
		}
		var walk func(es []*Event)
		walk = func(es []*Event) {
			for _, e := range es {
				switch e.Kind {
				case "hset", "hadd", "status", "body", "wescape", "call", "gstore", "go":
					for i, a := range e.Args {
						if i == 0 && a == x.w {
							continue
						}
						vals := []*Term{a}
						if e.Kind == "body" && e.Name == "json" {
							if fs, _ := jsonFields(a); fs != nil {
								vals = nil
								for _, n := range sortedKeys(fs) {
									vals = append(vals, fs[n].Val)
								}
							}
						}
						for _, v := range vals {
							p := x.secretPart(x.St.snapshot(v, 0), true, map[*Term]bool{})
							j.ob(p == nil, "disclosure", x.where()+" "+e.Kind+" "+e.Name, e.Pos, x.Trace, "%s reveals %v", sinkName(e), p)
						}
					}
				case "loop":
					for _, b := range e.Loop.Backs {
						walk(b.Events)
					}
				}
			}
		}
		walk(x.Events)
		for _, e := range x.eff {
			if e.Store == "" && e.Kind != "global" {
				continue
			}
			j.class("store write")
			for _, v := range []*Term{e.Cred, e.Val} {
				if v == nil {
					continue
				}
				p := x.secretPart(x.St.snapshot(v, 0), false, map[*Term]bool{})
				j.ob(p == nil, "recorded", x.where()+" "+e.Store, e.Ev.Pos, x.Trace, "what is recorded in %s reveals %v", e.Store, p)
			}
		}
	}
	// errors of the parsers
	for _, n := range []string{"ParseHS256Token", "ParseBearerToken"} {
		f, ps := j.anchor(n)
		if f == nil {
			continue
		}
		for _, t := range j.tracesOf(f, ps, nil, n) {
			if t.End != "return" || len(t.Results) != 2 {
				continue
			}
			j.class("error of " + n)
			e := t.St.snapshot(t.Results[1], 0)
			p := inputPart(e, ps)
			j.ob(p == nil, "error text", n, f.Pos(), t, "the error of %s reveals %v", n, p)
		}
	}
	j.require("path of (*Server).ServeHTTP", "path of (*Server).Authorize", "store write", "error of ParseHS256Token", "error of ParseBearerToken")
}

// inputPart finds a part of an error that depends on a parameter. Errors of
// the library's decoders only name the position of the failure.
func inputPart(t *Term, ps []*Term) *Term {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "eq", "lt", "len", "haskey", "not", "cap":
		return nil
	case "ret":
		if t.Args[0].isCall("(*encoding/base64.Encoding).DecodeString") && t.Name == "1" {
			return nil
		}
	}
	for _, p := range ps {
		if t == p {
			return t
		}
	}
	for _, a := range t.Args {
		if p := inputPart(a, ps); p != nil {
			return p
		}
	}
	return nil
}

func sinkName(e *Event) string {
	switch e.Kind {
	case "hset", "hadd":
		return "a response header"
	case "status":
		return "the response status"
	case "body":
		return "the response body"
	}
	return "a call of " + e.Name
}

// given finds the parameter a piece of memory belongs to: a parameter itself,
// or what is reached from it through fields, elements and entries. Results of
// functions are values of their own.
func (x *Tr) given(v *Term, seen map[*Term]bool) *Term {
	if v == nil || seen[v] || x.St.fresh[v] {
		return nil
	}
	seen[v] = true
	switch v.Op {
	case "param":
		return v
	case "fa", "ia", "sel", "elem", "lookup", "nextval", "as", "iface", "slice", "conv", "unop", "hdr":
		return x.given(v.Args[0], seen)
	case "phi", "maybe":
		for _, a := range v.Args {
			if p := x.given(a, seen); p != nil {
				return p
			}
		}
	case "loopvar":
		for _, u := range x.updates(v) {
			if p := x.given(u, seen); p != nil {
				return p
			}
		}
	}
	return nil
}

// spare tells whether appending to a slice may write into the caller's
// memory: the slice is the caller's and its capacity is not limited.
func (x *Tr) spare(v *Term) *Term {
	if v == nil || v.Op == "slice" && len(v.Args) > 3 && v.Args[3] != nil && x.St.same(v.Args[3], v.Args[2]) {
		return nil
	}
	return x.given(v, map[*Term]bool{})
}

// C36: arguments are left alone.
func ruleC36(j *J) {
	j.expl = "effect analysis of every exported function: no path stores into memory, maps or slices reached from a parameter or receiver, appends to a slice of the caller with unlimited capacity, sorts or fills one; excepted are the redirect setters, JSON decoding into its receiver, the response writer, the parsed form and body of a request, and the server's stores (C32)"
	for _, f := range j.exported() {
		short := fnShort(f)
		ps := paramsOf(f)
		recv := f.Signature.Recv() != nil
		own := map[*Term]bool{}
		if recv && (f.Name() == "SetRedirect" || f.Name() == "UnmarshalJSON" || f.Name() == "UnmarshalText" || f.Name() == "Scan") {
			own[ps[0]] = true
		}
		if recv && types.TypeString(ps[0].T, nil) == "*"+modPath+".Server" {
			own[ps[0]] = true
		}
		for _, p := range ps {
			if p.T != nil && types.TypeString(p.T, nil) == "net/http.ResponseWriter" {
				own[p] = true
			}
		}
		j.class("entry point")
		for _, t := range j.tracesOf(f, ps, j.atomicFor(f), short) {
			x := &Tr{Trace: t, c: j.c}
			var walk func(es []*Event)
			walk = func(es []*Event) {
				for _, e := range es {
					var p *Term
					how := "changes"
					switch e.Kind {
					case "store", "mapset", "mapdel", "lset", "ladd", "ldel":
						p = x.given(e.Args[0], map[*Term]bool{})
					case "hset", "hadd", "hdel":
						p = x.given(e.Args[0], map[*Term]bool{})
					case "append":
						p, how = x.spare(e.Args[0]), "appends in place to"
					case "sort":
						p, how = x.given(unface(e.Args[0]), map[*Term]bool{}), "reorders"
					case "fill":
						if len(e.Args) > 1 {
							p, how = x.given(e.Args[1], map[*Term]bool{}), "overwrites"
						}
					case "unmarshal":
						p, how = x.given(unface(e.Args[1]), map[*Term]bool{}), "decodes into"
					case "loop":
						for _, b := range e.Loop.Backs {
							walk(b.Events)
						}
						continue
					default:
						continue
					}
					j.ob(p == nil || own[p], "argument", short, e.Pos, t, "%s %s memory of the argument %s", e.Chain, how, p)
				}
			}
			walk(t.Events)
		}
	}
	j.require("entry point")
}

// mayBeZero tells whether the analysis knows a step's range and it includes
// zero: an index, a length or a constant.
func mayBeZero(st *State, d *Term) bool {
	if n, ok := d.intVal(); ok {
		return n == 0
	}
	known := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.Op == "add" || t.Op == "neg":
			for _, a := range t.Args {
				walk(a)
			}
		case t.isConst(), t.Op == "len", t.Op == "call" && (strings.HasPrefix(t.Name, "strings.Index") || strings.HasPrefix(t.Name, "strings.LastIndex") || strings.HasPrefix(t.Name, "bytes.Index") || strings.HasPrefix(t.Name, "bytes.LastIndex")):
		default:
			known = false
		}
	}
	walk(d)
	if !known {
		return false
	}
	lo, hi := st.bounds(d)
	if lo > 0 || hi < 0 {
		return false
	}
	v, ok := st.eval(mkEq(d, mkInt(0)))
	return !ok || v
}

// stalls tells why an iteration may make no progress.
func stalls(b *LoopBack) string {
	if b.Same {
		return "leaves everything as it was"
	}
	for _, e := range b.Events {
		switch e.Kind {
		case "load", "safe", "mapread", "append":
		default:
			return ""
		}
	}
	n := 0
	for v, u := range b.Phis {
		switch {
		case u == v:
		case u.Op == "add" && u.Args[0] == v && mayBeZero(b.St, u.Args[1]):
			n++
		case u.Op == "slice" && u.Args[0] == v && u.Args[1] != nil && u.Args[2] == nil && mayBeZero(b.St, u.Args[1]):
			n++
		default:
			return ""
		}
	}
	if n > 0 {
		return "may advance by nothing"
	}
	return ""
}

// C37: termination.
func ruleC37(j *J) {
	j.expl = "every loop on every path of every exported function and of the request handlers can be left and no iteration of it leaves the state as it was or may advance by nothing; no path acquires a lock it holds or ends with one held; no path waits on a channel, condition or group; recursion is not accepted"
	for _, f := range j.exported() {
		short := fnShort(f)
		j.class("entry point")
		for _, t := range j.tracesOf(f, paramsOf(f), j.atomicFor(f), short) {
			j.ob(t.End != "diverge", "loop exit", short, f.Pos(), t, "a path of %s never leaves a loop", short)
			held := map[*Term]string{}
			var walk func(es []*Event, loop bool)
			walk = func(es []*Event, loop bool) {
				for _, e := range es {
					switch e.Kind {
					case "lock":
						m := e.Args[0]
						j.ob(held[m] == "", "lock order", short, e.Pos, t, "%s acquires a lock that it holds already", e.Chain)
						held[m] = e.Name
						j.class("lock")
					case "unlock":
						delete(held, e.Args[0])
					case "call":
						switch e.Name {
						case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "os/signal.Notify", "runtime.Goexit":
							j.ob(false, "waiting", short, e.Pos, t, "%s waits for something that may never happen", e.Chain)
						}
					case "loop":
						j.class("loop")
						for k := range e.Loop.Backs {
							b := &e.Loop.Backs[k]
							s := stalls(b)
							j.ob(s == "", "progress", short+": "+fnShort(e.Loop.Fn), e.Pos, t, "an iteration of a loop in %s %s", fnShort(e.Loop.Fn), s)
							walk(b.Events, true)
						}
					}
				}
			}
			walk(t.Events, false)
			for m := range held {
				j.ob(false, "lock released", short, f.Pos(), t, "a path of %s ends with %v held, so that the next request waits forever", short, m)
			}
			j.bump("lock released", true)
		}
	}
	j.implicit()
	j.require("entry point", "loop", "lock")
}

// printed lists the methods the formatting, logging and encoding functions of
// the standard library call on the values they are given.
var printed = map[string][]string{
	"fmt": {"Error", "String", "GoString", "Format"}, "log": {"Error", "String", "GoString", "Format"},
	"encoding/json": {"MarshalJSON", "MarshalText", "UnmarshalJSON", "UnmarshalText"},
}

// methodsIn finds such methods of a type or of what it is made of.
func (j *J) methodsIn(t types.Type, names []string, out map[*ssa.Function]bool, seen map[types.Type]bool, decode bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	ms := j.c.in.prog.MethodSets.MethodSet(t)
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && decode {
		ms = j.c.in.prog.MethodSets.MethodSet(types.NewPointer(t)) // decoding addresses what it fills
	}
	own := false
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				if f := j.c.in.prog.MethodValue(ms.At(i)); f != nil {
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						if g := j.c.in.prog.FuncValue(o); g != nil {
							f = g
						}
					}
					out[f] = true
					own = true
				}
			}
		}
	}
	if own {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		j.methodsIn(u.Elem(), names, out, seen, decode)
	case *types.Slice:
		j.methodsIn(u.Elem(), names, out, seen, decode)
	case *types.Array:
		j.methodsIn(u.Elem(), names, out, seen, decode)
	case *types.Map:
		j.methodsIn(u.Key(), names, out, seen, decode)
		j.methodsIn(u.Elem(), names, out, seen, decode)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				j.methodsIn(u.Field(i).Type(), names, out, seen, decode)
			}
		}
	}
}

// implicit looks for methods that format or encode a value by way of a
// library function which calls the same method again.
func (j *J) implicit() {
	type edge struct {
		to  *ssa.Function
		lib string
		pos token.Pos
	}
	graph := map[*ssa.Function][]edge{}
	var fns []*ssa.Function
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != j.c.root {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == j.c.root {
						graph[f] = append(graph[f], edge{g, "", i.Pos()})
					}
					continue
				}
				m, ok := i.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				for _, c := range consumers(m, 0) {
					g := c.Common().StaticCallee()
					if g == nil || g.Pkg == nil || printed[g.Pkg.Pkg.Path()] == nil {
						continue
					}
					decode := strings.Contains(g.Name(), "Unmarshal") || g.Name() == "Decode"
					names := printed[g.Pkg.Pkg.Path()]
					if len(names) == 4 && strings.HasSuffix(names[0], "JSON") {
						names = names[:2]
						if decode {
							names = printed[g.Pkg.Pkg.Path()][2:]
						}
					}
					ms := map[*ssa.Function]bool{}
					j.methodsIn(m.X.Type(), names, ms, map[types.Type]bool{}, decode)
					for to := range ms {
						graph[f] = append(graph[f], edge{to, g.String(), c.Pos()})
						j.class("implicit call")
					}
				}
			}
		}
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == to {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, e := range graph[f] {
				if walk(e.to) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for _, f := range fns {
		for _, e := range graph[f] {
			if e.lib != "" {
				j.ob(!reaches(e.to, f), "recursion", fnShort(f), e.pos, nil, "%s calls %s, which calls %s on the value it is given and so gets here again", fnShort(f), e.lib, fnShort(e.to))
			}
		}
	}
	j.require("implicit call")
}

// consumers lists the calls a value is handed to, directly or in a list of arguments.
func consumers(v ssa.Value, depth int) (out []ssa.CallInstruction) {
	if depth > 6 || v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			out = append(out, x)
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
				if l, ok := a.X.(*ssa.Alloc); ok {
					out = append(out, consumers(l, depth+1)...)
				}
			}
		case *ssa.Slice:
			out = append(out, consumers(x, depth+1)...)
		case *ssa.Phi:
			out = append(out, consumers(x, depth+1)...)
		case *ssa.ChangeInterface:
			out = append(out, consumers(x, depth+1)...)
		}
	}
	return out
}
