package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// segment tells whether a term is the last segment of the request path.
func (x *Tr) lastSegment(t *Term) bool {
	path := sel(sel(x.r, "URL"), "Path")
	lastIdx := func(i *Term) bool {
		n := callName(i)
		return i != nil && i.Op == "call" && (n == "strings.LastIndexByte" || n == "strings.LastIndex") && i.Args[0] == path && (i.Args[1].isInt('/') || i.Args[1].isStr("/"))
	}
	switch {
	case t == path:
		for _, n := range []string{"strings.LastIndexByte", "strings.LastIndex"} {
			for _, c := range []*Term{mkInt('/'), mkStr("/")} {
				if x.eq(mk("call", n, types.Typ[types.Int], path, c), mkInt(-1)) == yes {
					return true
				}
			}
		}
		for _, f := range x.Facts {
			if f.Pol && f.T.Op == "eq" && lastIdx(f.T.Args[0]) && f.T.Args[1].isInt(-1) {
				return true
			}
			if !f.Pol && f.T.Op == "call" && callName(f.T) == "strings.Contains" && f.T.Args[0] == path && f.T.Args[1].isStr("/") {
				return true
			}
		}
	case t.Op == "slice" && t.Args[0] == path:
		// the position after the last slash, 0 if there is none
		i := t.Args[1]
		open := len(t.Args) < 3 || t.Args[2] == nil || t.Args[2].Op == "none" || t.Args[2].Op == "_" || t.Args[2] == mkLen(path)
		if i.Op == "add" && len(i.Args) == 2 && open {
			return lastIdx(i.Args[0]) && i.Args[1].isInt(1) || lastIdx(i.Args[1]) && i.Args[0].isInt(1)
		}
	case t.Op == "ret" && t.Name == "1" && t.Args[0].isCall("path.Split"):
		return t.Args[0].Args[0] == path
	case t.Op == "index" || t.Op == "elem":
		s := t.Args[0]
		return s.isCall("strings.Split") && s.Args[0] == path && s.Args[1].isStr("/") && t.Args[1] == mkAdd(mkLen(s), mkInt(-1), nil)
	}
	return false
}

// routed tells whether the last path segment is the named one.
func (x *Tr) routed(name string) int {
	path := sel(sel(x.r, "URL"), "Path")
	whole, suffix := unknown, unknown
	for _, f := range x.Facts {
		switch {
		case f.T.Op == "eq" && f.T.Args[1].isStr(name) && x.lastSegment(f.T.Args[0]):
			return pol(f.Pol)
		case f.T.Op == "eq" && f.T.Args[1].isStr(name) && f.T.Args[0] == path:
			whole = pol(f.Pol)
		case f.T.Op == "call" && callName(f.T) == "strings.HasSuffix" && f.T.Args[0] == path && f.T.Args[1].isStr("/"+name):
			suffix = pol(f.Pol)
		}
	}
	if whole == yes || suffix == yes {
		return yes
	}
	if whole == no && suffix == no {
		return no
	}
	return unknown
}

var endpoints = []string{"authorize", "introspect", "revoke", "token"}

// C30: routing.
func ruleC30(j *J) {
	j.expl = "every path of ServeHTTP: the path writes a response of an endpoint or changes state only if the last segment of the request path is known to equal the name of that endpoint, and answers 404 without any effect only if it is known to differ from all four names; nothing but that segment of the URL's path takes part in the decision"
	kinds := map[string]map[string]bool{
		"authorize":  {"error": true, "token-redirect": true, "code-redirect": true, "notice": true},
		"token":      {"error": true, "token": true},
		"introspect": {"error": true, "introspection": true},
		"revoke":     {"error": true, "ok": true},
	}
	for _, x := range j.server() {
		if x.End != "return" {
			continue
		}
		to, open := "", ""
		for _, n := range endpoints {
			switch x.routed(n) {
			case yes:
				to = n
			case unknown:
				open = n
			}
		}
		missing := x.resp.Code != nil && x.resp.Code.isInt(404)
		if to == "" {
			j.ob(open == "", "decision", "not found", x.pos(), x.Trace, "a request is answered although it is not known whether its last path segment is %s", open)
			if open != "" {
				continue
			}
			j.class("not found")
			j.ob(missing, "not found", "status", x.pos(), x.Trace, "a request to an unknown path is not answered with 404")
			j.ob(len(x.stateEffects()) == 0 && len(x.delivered()) == 0, "not found", "effect", x.pos(), x.Trace, "a request to an unknown path has an effect")
			continue
		}
		j.class("endpoint " + to)
		j.ob(!missing, "endpoint", to, x.pos(), x.Trace, "a request to the endpoint %s is answered with 404", to)
		k := x.kind()
		j.ob(kinds[to][k], "outcome", to+": "+k, x.pos(), x.Trace, "a request to the endpoint %s is answered by %s", to, k)
		for _, e := range x.sets(credStores...) {
			j.ob(to == "token" || to == "authorize", "effect", to, e.Ev.Pos, x.Trace, "the endpoint %s issues credentials", to)
		}
	}
	for _, n := range endpoints {
		j.require("endpoint " + n)
	}
	j.require("not found")
}

// --- rejection reasons ---

// fragment tells whether a URI contains a fragment delimiter.
func (x *Tr) fragment(u *Term) int {
	if x.noFragment(u) {
		return no
	}
	hash := func(t *Term) bool { return t.isStr("#") || t.isInt('#') }
	for _, f := range x.Facts {
		if f.Pol && f.T.Op == "call" && (callName(f.T) == "strings.Contains" || callName(f.T) == "strings.ContainsRune" || callName(f.T) == "strings.ContainsAny") && x.St.same(f.T.Args[0], u) && hash(f.T.Args[1]) {
			return yes
		}
		if !f.Pol && f.T.Op == "eq" && f.T.Args[1].isInt(-1) && isIndexCall(f.T.Args[0]) && x.St.same(f.T.Args[0].Args[0], u) && hash(f.T.Args[0].Args[1]) {
			return yes
		}
	}
	return unknown
}

func or(vs ...int) int {
	r := no
	for _, v := range vs {
		if v > r {
			r = v
		}
	}
	return r
}

// badURI tells whether a requested redirect URI is malformed.
func (x *Tr) badURI(raw *Term, mandatory bool) int {
	bad := neg(x.eq(unescapeErr(raw), tNil))
	for _, u := range []*Term{raw, unescape(raw)} {
		bad = or(bad, neg(x.eq(retOf("net/url.ParseRequestURI", 1, u), tNil)), x.fragment(u))
		if mandatory {
			bad = or(bad, x.isEmpty(u))
		}
	}
	return bad
}

// wrongType tells whether a value is none of the given constants.
func (x *Tr) noneOf(v *Term, cs ...string) int {
	r := yes
	for _, c := range cs {
		r = and(r, neg(x.eq(v, mkStr(c))))
	}
	return r
}

// reasons lists the violated rules of the request by error code.
func (x *Tr) reasons(ep string) map[string][]int {
	m := map[string][]int{}
	add := func(code string, v int) { m[code] = append(m[code], v) }
	add("invalid_request", neg(x.eq(mk("call", "(*net/http.Request).ParseForm", nil, x.r), tNil)))
	var id *Term
	switch ep {
	case "authorize":
		rt, uri := x.form("response_type"), x.form("redirect_uri")
		id = x.form("client_id")
		add("invalid_request", x.noneOf(x.method(), "GET", "POST"))
		add("invalid_request", x.isEmpty(rt))
		add("invalid_request", x.noneOf(rt, "token", "code"))
		add("invalid_request", x.isEmpty(id))
		add("invalid_request", x.badURI(uri, true))
		if x.has("Clients", id) == yes {
			_, ok := x.redirectURI()
			add("invalid_request", neg(ok))
		}
		add("invalid_client", neg(x.has("Clients", id)))
		add("invalid_scope", neg(x.includes(x.cfg("AllowedScope"), parseScope(x.form("scope")))))
		add("access_denied", neg(x.userOK()))
		return m
	case "token":
		gt := x.post("grant_type")
		add("invalid_request", x.isEmpty(gt))
		add("invalid_request", x.noneOf(gt, "password", "client_credentials", "authorization_code", "refresh_token"))
		add("invalid_request", x.badURI(x.post("redirect_uri"), false))
	default:
		hint := x.post("token_type_hint")
		add("invalid_request", x.isEmpty(x.post("token")))
		add("invalid_request", neg(x.tri(x.basic(2))))
		add("unsupported_token_type", and(neg(x.isEmpty(hint)), x.noneOf(hint, "access_token", "refresh_token")))
	}
	add("invalid_request", neg(x.eq(x.method(), mkStr("POST"))))
	id, _ = x.client()
	if id != nil {
		add("invalid_request", and(x.isEmpty(id), pol(ep == "token")))
		add("invalid_client", neg(x.authenticated()))
	}
	str := x.presented()
	sig, valid := x.sigOf(str)
	if str != nil {
		add("invalid_request", neg(valid))
	}
	foreign := func(store string) int {
		if id == nil || valid != yes {
			return unknown
		}
		return and(x.has(store, sig), neg(x.eq(x.field(store, sig, "ClientID"), id)))
	}
	grant := func(store string) {
		if valid != yes {
			return
		}
		has := x.has(store, sig)
		add("invalid_grant", neg(has))
		add("invalid_grant", and(has, neg(x.live(x.field(store, sig, "ExpiresAt")))))
		add("invalid_grant", foreign(store))
	}
	if ep == "token" {
		scope := parseScope(x.post("scope"))
		switch x.grant() {
		case "password":
			add("access_denied", neg(x.userOK()))
			add("invalid_scope", neg(x.includes(x.cfg("AllowedScope"), scope)))
		case "client_credentials":
			if id != nil {
				add("invalid_client", and(x.has("Clients", id), neg(x.tri(x.field("Clients", id, "Confidential")))))
			}
			add("invalid_scope", neg(x.includes(x.cfg("AllowedScope"), scope)))
		case "authorization_code":
			grant("AuthorizationCodes")
			if valid == yes {
				has := x.has("AuthorizationCodes", sig)
				add("invalid_grant", and(has, x.tri(x.field("AuthorizationCodes", sig, "Used"))))
				add("invalid_grant", and(has, neg(x.uriMatches(x.field("AuthorizationCodes", sig, "RedirectURI"), x.post("redirect_uri")))))
			}
		case "refresh_token":
			grant("RefreshTokens")
			if valid == yes {
				add("invalid_scope", and(x.has("RefreshTokens", sig), neg(x.includes(x.field("RefreshTokens", sig, "Scope"), scope))))
			}
		}
		return m
	}
	add("invalid_client", foreign("AccessTokens"))
	add("invalid_client", foreign("RefreshTokens"))
	return m
}

var codeStatus = map[string]int64{"invalid_request": 400, "invalid_client": 401, "invalid_grant": 400, "invalid_scope": 400, "access_denied": 403, "unsupported_token_type": 400,
	"invalid_token": 401, "insufficient_scope": 403}

// C29: errors match the reason.
func ruleC29(j *J) {
	j.expl = "decision table: every path of ServeHTTP that ends in an error must have established that a rule belonging to exactly that error code is violated, and be answered with the status of the code unless redirected; every rejecting path of Authorize must carry the code of a requirement known to be violated; ParseHS256Token fails only for a token without two segments, with undecodable segments or with a wrong signature"
	for _, x := range j.server() {
		if x.End != "return" || !known4[x.ep] {
			continue
		}
		code, isErr := x.errCode()
		if !isErr {
			j.class("accepted " + x.ep)
			continue
		}
		w := x.where()
		rs := x.reasons(x.ep)
		if !j.ob(rs[code] != nil, "known code", w+" "+code, x.pos(), x.Trace, "a request is rejected as %q, for which no rule exists", code) {
			continue
		}
		why := ""
		for _, c := range sortedKeys(rs) {
			if or(rs[c]...) == yes {
				why += " " + c
			}
		}
		if why == "" {
			why = " none"
		}
		j.ob(or(rs[code]...) == yes, "reason", w+" "+code, x.pos(), x.Trace, "a request is rejected as %s although no rule with this error is known to be violated (violated:%s)", code, why)
		if x.resp.Loc == nil {
			j.ob(x.resp.Code != nil && x.resp.Code.isInt(codeStatus[code]), "status", w+" "+code, x.pos(), x.Trace, "the error %s is not answered with status %d", code, codeStatus[code])
		} else {
			j.ob(code == "invalid_scope" || code == "access_denied", "redirected error", w+" "+code, x.pos(), x.Trace, "the error %s is redirected", code)
		}
		if j.cls["rejected "+x.ep+" "+code] == 0 {
			j.sample("%s %s: %v", w, code, describe(j.c.in, x.Trace))
		}
		j.class("rejected " + x.ep + " " + code)
	}
	for _, n := range []string{"authorize invalid_request", "authorize invalid_client", "authorize invalid_scope", "authorize access_denied", "token invalid_request", "token invalid_client",
		"token invalid_scope", "token access_denied", "token invalid_grant", "introspect invalid_request", "introspect invalid_client", "introspect unsupported_token_type",
		"revoke invalid_request", "revoke invalid_client", "revoke unsupported_token_type"} {
		j.require("rejected " + n)
	}
	j.authorizeReasons()
	j.tokenReasons()
}

func (j *J) authorizeReasons() {
	f := j.c.fn("(*Server).Authorize")
	xs := j.entry("(*Server).Authorize")
	if f == nil {
		return
	}
	required := paramsOf(f)[3]
	for _, x0 := range xs {
		if x0.End != "return" {
			continue
		}
		for _, x := range x0.split(x0.Results[0]) {
			if x.tri(x.Results[0]) == yes {
				continue
			}
			c, _ := x.authConds(required)
			// bearer, valid, stored, live, scope
			code, _ := x.errCode()
			if x.passesBearerError() {
				j.class("bearer error passed")
				j.ob(c[0] == no, "reason", "Authorize bearer", x.pos(), x.Trace, "an error of the bearer token is reported although it is not known to be malformed")
				continue
			}
			switch code {
			case "invalid_token":
				j.ob(or(neg(c[1]), neg(c[2]), neg(c[3])) == yes, "reason", "Authorize invalid_token", x.pos(), x.Trace, "a token is reported as invalid that is not known to be malformed, unknown or expired")
			case "insufficient_scope":
				j.ob(c[4] == no, "reason", "Authorize insufficient_scope", x.pos(), x.Trace, "an insufficient scope is reported that is not known to be so")
				if m, ok := challenge(x.resp.Hdr["Www-Authenticate"]); ok {
					s := m["scope"]
					j.ob(s == nil && x.scopeBlank(required) == yes || s != nil && (s == reprField{kind: "scope"}.text(required) || x.St.same(s, reprField{kind: "scope"}.text(required))), "required scope", "Authorize insufficient_scope", x.pos(), x.Trace, "the error does not name the required scope")
				}
			case "":
				// the error of a bearer token without its own status
				j.ob(c[0] == no, "reason", "Authorize plain", x.pos(), x.Trace, "a request is rejected without error although a bearer token is present")
			default:
				j.ob(false, "known code", "Authorize "+code, x.pos(), x.Trace, "a protected resource is refused with %q", code)
				continue
			}
			j.class("refused " + code)
			if code != "" {
				j.ob(x.resp.Code != nil && x.resp.Code.isInt(codeStatus[code]), "status", "Authorize "+code, x.pos(), x.Trace, "the error %s is not answered with status %d", code, codeStatus[code])
			}
		}
	}
	j.require("refused invalid_token", "refused insufficient_scope", "bearer error passed")
}

// tokenReasons checks that tokens are only refused for a violated rule.
func (j *J) tokenReasons() {
	f, ps := j.anchor("ParseHS256Token")
	if f == nil {
		return
	}
	for _, t := range j.traces("ParseHS256Token", nil) {
		if t.End != "return" || t.Results[1].isNil() {
			continue
		}
		x := newTr(j.c, t, nil, nil, nil)
		j.class("token refused")
		j.ob(x.tokenFlaw(ps[0], ps[1]), "reason", "ParseHS256Token", f.Pos(), t, "a token is refused although no flaw is known")
	}
	j.require("token refused")
}

// tokenFlaw tells whether a presented token string is known to be bad.
func (x *Tr) tokenFlaw(secret, str *Term) bool {
	split := func(t *Term) bool {
		n := callName(t)
		return t.Op == "call" && (n == "strings.Split" || n == "strings.SplitN" || n == "strings.Cut" || n == "strings.Count" || n == "strings.Index" || n == "strings.IndexByte" || n == "strings.LastIndex" || n == "strings.LastIndexByte" || n == "strings.Contains") && t.Args[0].contains(func(u *Term) bool { return u == str })
	}
	for _, f := range x.Facts {
		t := f.T
		// the number of segments
		if t.Op == "eq" && t.Args[0].Op == "len" && split(t.Args[0].Args[0]) && t.Args[1].isInt(2) && !f.Pol {
			return true
		}
		if t.Op == "lt" && (t.Args[0].Op == "len" && split(t.Args[0].Args[0]) || t.Args[1].Op == "len" && split(t.Args[1].Args[0])) {
			if n := t.Args[1]; n.Op == "len" {
				// v < length
				if v, ok := t.Args[0].intVal(); ok && (f.Pol && v >= 2 || !f.Pol && v <= 1) {
					return true
				}
				continue
			}
			// length < v
			n, less := t.Args[1], f.Pol
			if v, ok := n.intVal(); ok && (less && v <= 2 || !less && v >= 3) {
				return true
			}
		}
		if t.Op == "eq" && split(t.Args[0]) && callName(t.Args[0]) == "strings.Count" && t.Args[1].isInt(1) && !f.Pol {
			return true
		}
		if t.Op == "eq" && isIndexCall(t.Args[0]) && t.Args[1].isInt(-1) {
			s := t.Args[0].Args[0]
			if s == str && f.Pol {
				return true // no dot at all
			}
			if !f.Pol && (s.Op == "slice" && s.Args[0] == str || s.Op == "ret" && s.Name == "1" && split(s.Args[0])) {
				return true // another dot behind the first
			}
		}
		if t.Op == "eq" && isIndexCall(t.Args[0]) && isIndexCall(t.Args[1]) && split(t.Args[0]) && split(t.Args[1]) && !f.Pol {
			return true // first and last dot differ
		}
		if t.Op == "ret" && t.Args[0].isCall("strings.Cut") && split(t.Args[0]) && t.Name == "2" && !f.Pol {
			return true
		}
		if t.Op == "call" && callName(t) == "strings.Contains" && split(t) {
			return true // no dot at all, or another one behind the first
		}
		// decoding
		if t.Op == "eq" && t.Args[1].isNil() && !f.Pol && t.Args[0].Op == "ret" && t.Args[0].Args[0].Op == "call" && t.Args[0].Args[0].contains(func(u *Term) bool { return u == str }) {
			n := callName(t.Args[0].Args[0])
			if n == "(*encoding/base64.Encoding).DecodeString" || n == "(*encoding/base64.Encoding).Decode" {
				return true
			}
		}
		// signature
		if !f.Pol && (t.Op == "ctEq" || t.Op == "eq" || t.Op == "call" || t.Op == "bytesEq") && t.contains(func(u *Term) bool { return u == secret }) {
			return true
		}
	}
	return false
}

// --- isolation ---

// C32: no state outside of the credential stores.
func ruleC32(j *J) {
	j.expl = "effect analysis of every exported function: no path writes a package variable or an object reachable from one, takes a lock or starts a goroutine on package state, or returns a value from which such an object can be reached and modified; the paths of ServeHTTP and Authorize write no memory of the server but the three credential stores"
	for _, f := range j.exported() {
		short := fnShort(f)
		j.class("entry point")
		for _, t := range j.tracesOf(f, paramsOf(f), j.atomicFor(f), short) {
			j.globalEffects(t, t.Events, short)
			if t.End != "return" {
				continue
			}
			for i, r := range t.Results {
				if !mutableType(resultType(f, i)) {
					j.bump("results", true)
					continue
				}
				g := j.sharedRoot(t.St, r, 0, map[*Term]bool{})
				j.ob(g == nil, "results", short, f.Pos(), t, "the result of %s shares the package state %v", short, g)
			}
		}
	}
	for _, x := range append(j.server(), j.entry("(*Server).Authorize")...) {
		for _, e := range x.eff {
			cred := e.Store == "AccessTokens" || e.Store == "RefreshTokens" || e.Store == "AuthorizationCodes"
			j.ob(e.Kind != "server" && (e.Store == "" || cred), "server state", e.Kind+" "+e.Store+" "+e.Field, e.Ev.Pos, x.Trace, "serving a request changes server state other than its credential stores")
			if cred {
				j.class("credential write")
			}
		}
	}
	j.require("entry point", "credential write")
}

func resultType(f *ssa.Function, i int) types.Type { return f.Signature.Results().At(i).Type() }

// mutableType tells whether values of a type can refer to shared memory.
func mutableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutableType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (j *J) globalEffects(t *Trace, es []*Event, short string) {
	for _, e := range es {
		switch e.Kind {
		case "gstore", "go":
			j.ob(false, "package state", short+" "+e.Kind, e.Pos, t, "%s changes package state or starts a goroutine", e.Chain)
		case "call":
			for _, a := range e.Args {
				if g := moduleState(unface(a)); g != nil {
					j.ob(false, "package state", short+" "+e.Name, e.Pos, t, "%s hands the package state %s to %s, which may change it", e.Chain, g.Name, e.Name)
				}
			}
			j.bump("effects", true)
		case "lock", "unlock", "deferpush":
			g := len(e.Args) > 0 && root(e.Args[0]).Op == "global"
			j.ob(!g, "package state", short+" lock", e.Pos, t, "%s locks package state", e.Chain)
		case "loop":
			for _, b := range e.Loop.Backs {
				j.globalEffects(t, b.Events, short)
			}
		default:
			j.bump("effects", true)
		}
	}
}

// moduleState is the package variable whose memory a call receives; library
// types that never change after their creation are left out.
func moduleState(a *Term) *Term {
	if a == nil || a.T == nil {
		return nil
	}
	if a.isCall("encoding/json.NewEncoder") {
		return moduleState(unface(a.Args[0]))
	}
	r := root(a)
	if r.Op != "global" || !strings.HasPrefix(r.Name, modPath) {
		return nil
	}
	switch types.TypeString(a.T, nil) {
	case "*regexp.Regexp", "*encoding/base64.Encoding", "*strings.Replacer", "*text/template.Template", "*time.Location":
		return nil
	}
	switch a.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return r
	}
	return nil
}

// sharedRoot finds package state that can be modified through a value.
func (j *J) sharedRoot(st *State, v *Term, depth int, seen map[*Term]bool) *Term {
	if v == nil || depth > 8 || seen[v] {
		return nil
	}
	seen[v] = true
	if r := root(v); (r.Op == "global" && v.T != nil && !immutableGlobal(v)) || j.c.in.ginit[r] || j.c.in.ginit[v] {
		return r
	}
	if v.Op == "fa" || v.Op == "ia" {
		if g := j.sharedRoot(st, v.Args[0], depth+1, seen); g != nil {
			return g
		}
	}
	// pointers: what they point to
	if st.fresh[v] {
		for a, c := range st.mem {
			if root(a) == v {
				if g := j.sharedRoot(st, c, depth+1, seen); g != nil {
					return g
				}
			}
		}
	}
	switch v.Op {
	case "iface", "struct", "ptr", "list", "slice", "maybe", "values", "phi", "append":
		for _, a := range v.Args {
			if g := j.sharedRoot(st, a, depth+1, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

// immutableGlobal accepts values loaded from variables of other packages,
// such as io.EOF.
func immutableGlobal(v *Term) bool { return v.Op != "global" && v.T != nil && !mutableType(v.T) }
