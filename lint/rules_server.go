package main

import (
	"go/token"
	"go/types"
	"strings"
)

// server explores ServeHTTP.
func (j *J) server() []*Tr {
	return j.entry("(*Server).ServeHTTP")
}

func (j *J) entry(short string) []*Tr {
	var out []*Tr
	f := j.c.fn(short)
	if f == nil {
		j.ob(false, "anchor", short, token.NoPos, nil, "the function %s does not exist any more", short)
		return nil
	}
	ps := paramsOf(f)
	var s, w, r *Term
	for _, p := range ps {
		switch types.TypeString(p.T, nil) {
		case "*" + modPath + ".Server":
			s = p
		case "net/http.ResponseWriter":
			w = p
		case "*net/http.Request":
			r = p
		}
	}
	for _, t := range j.traces(short, serverAtomic()) {
		x := newTr(j.c, t, s, w, r)
		if !x.feasible() {
			continue
		}
		out = append(out, x)
	}
	return out
}

// feasible drops paths that contradict the invariant established by C11: a
// token is stored in one store only.
func (x *Tr) feasible() bool {
	if x.s == nil {
		return true
	}
	m := x.store("AccessTokens")
	for _, f := range x.Facts {
		var key *Term
		switch {
		case f.T.Op == "haskey" && f.Pol && f.T.Args[0] == m:
			key = f.T.Args[1]
		case f.T.Op == "eq" && !f.Pol:
			for i := range f.T.Args {
				if l := f.T.Args[i]; l.Op == "lookup" && l.Args[0] == m && f.T.Args[1-i].isNil() {
					key = l.Args[1]
				}
			}
		}
		if key != nil && x.has("AccessTokens", key) == yes && x.has("RefreshTokens", key) == yes {
			return false
		}
	}
	return true
}

func (x *Tr) pos() token.Pos {
	for i := len(x.Events) - 1; i >= 0; i-- {
		if x.Events[i].Pos.IsValid() && x.Events[i].Kind != "unlock" {
			return x.Events[i].Pos
		}
	}
	return token.NoPos
}

// where names the part of the server a path belongs to.
func (x *Tr) where() string {
	w := x.ep
	if w == "" {
		w = "other"
	}
	if x.ep == "token" {
		if g := x.grant(); g != "" {
			w += "/" + g
		}
	}
	if x.ep == "authorize" {
		if g, ok := x.constOf(x.form("response_type")); ok {
			w += "/" + g
		}
	}
	return w
}

// split settles a condition that the path leaves open.
func (x *Tr) split(t *Term) []*Tr {
	if t == nil || x.tri(t) != unknown {
		return []*Tr{x}
	}
	var out []*Tr
	for _, p := range []bool{true, false} {
		st := x.St.clone()
		if !st.assume(t, p) {
			continue
		}
		n := *x.Trace
		n.St = st
		n.Facts = st.facts
		y := *x
		y.Trace = &n
		out = append(out, &y)
	}
	return out
}

// C01: request authorization.
func ruleC01(j *J) {
	j.expl = "every path of (*Server).Authorize: a path returning true must establish that the bearer token parsed, verifies under the server secret, is a key of the access token store, has not expired and that its stored scope includes the required scope; a path returning false must refute one of these; no path changes server state"
	f := j.c.fn("(*Server).Authorize")
	xs := j.entry("(*Server).Authorize")
	if f == nil {
		return
	}
	required := paramsOf(f)[3]
	for _, x0 := range xs {
		if x0.End != "return" {
			continue
		}
		for _, x := range x0.split(x0.Results[0]) {
			conds, names := x.authConds(required)
			res := x.tri(x.Results[0])
			switch res {
			case yes:
				j.class("authorized path")
				for i, v := range conds {
					j.ob(v == yes, "admission", names[i], x.pos(), x.Trace, "a request is authorized although it is not established that %s", names[i])
				}
				j.sample("authorized: %v", describe(j.c.in, x.Trace))
			default:
				j.class("rejected path")
				j.ob(and(conds...) == no, "rejection", "reason", x.pos(), x.Trace, "a request is rejected although no requirement is known to be violated")
			}
			for _, e := range x.eff {
				j.ob(e.Kind == "other", "read only", e.Kind+" "+e.Store, e.Ev.Pos, x.Trace, "authorizing a request changes server state")
			}
		}
	}
	j.require("authorized path", "rejected path")
}

func (x *Tr) authConds(required *Term) ([]int, []string) {
	tk := retOf(modPath+".ParseBearerToken", 0, x.r)
	bearer := x.eq(retOf(modPath+".ParseBearerToken", 1, x.r), tNil)
	sig, valid := x.sigOf(tk)
	return []int{bearer, valid, x.has("AccessTokens", sig), x.live(x.field("AccessTokens", sig, "ExpiresAt")), x.includes(x.field("AccessTokens", sig, "Scope"), required)},
		[]string{"the request carries a bearer token", "the token verifies under the server secret", "the token is stored as an access token", "the token has not expired", "the stored scope includes the required scope"}
}

// registered returns the requested redirect URI and whether it equals the
// registered one of the named client.
func (x *Tr) redirectURI() (uri *Term, ok int) {
	raw := x.form("redirect_uri")
	id := x.form("client_id")
	if k := x.has("Clients", id); k != yes {
		return nil, k
	}
	reg := x.field("Clients", id, "RedirectURI")
	best := unknown
	for _, u := range []*Term{unescape(raw), raw} {
		v := x.eq(reg, u)
		if v == yes {
			return u, yes
		}
		if v == no {
			best = no
		}
	}
	return nil, best
}

// C02: redirect targets.
func ruleC02(j *J) {
	j.expl = "every path of ServeHTTP and Authorize that sets a Location header: the endpoint is authorize, the client store has the requested client, its registered redirect URI equals the requested one and the location is built from exactly that URI"
	for _, x := range append(j.server(), j.entry("(*Server).Authorize")...) {
		var loc []*Event
		for _, e := range x.Events {
			if (e.Kind == "hset" || e.Kind == "hadd") && e.Args[0] == x.w && (e.Args[1].isStr("Location") || e.Args[1].isStr("Refresh") || !e.Args[1].isConst()) {
				loc = append(loc, e)
			}
		}
		if len(loc) == 0 {
			n, ok := x.resp.Code.intVal()
			ok = ok && (n < 300 || n > 399) || x.passesBearerError() && j.bearerStatuses()
			j.ob(x.resp.Code == nil || ok, "direct answer", x.where(), x.pos(), x.Trace, "a redirect status is sent without a known target")
			continue
		}
		j.class("redirect path")
		pos := loc[0].Pos
		id := x.form("client_id")
		j.ob(x.ep == "authorize", "endpoint", x.where(), pos, x.Trace, "a redirect is written outside of the authorization endpoint")
		j.ob(x.has("Clients", id) == yes, "known client", x.where(), pos, x.Trace, "a redirect is written although the client is not known to the server")
		u, ok := x.redirectURI()
		j.ob(ok == yes, "registered uri", x.where(), pos, x.Trace, "a redirect is written although the requested redirect URI is not known to equal the registered one")
		reg := x.field("Clients", id, "RedirectURI")
		l := x.resp.Loc
		good := l != nil && l.Base != nil && len(loc) == 1 && (x.St.same(l.Base, reg) || u != nil && x.St.same(l.Base, u))
		j.ob(good, "target", x.where(), pos, x.Trace, "the redirect target is not derived from the registered redirect URI only")
	}
	j.require("redirect path")
}

// passesBearerError tells whether the status is the one of the error returned
// by ParseBearerToken.
func (x *Tr) passesBearerError() bool {
	c := x.resp.Code
	return c != nil && c.Op == "sel" && c.Name == "Status" && c.Args[0].Op == "as" && c.Args[0].Args[0] == retOf(modPath+".ParseBearerToken", 1, x.r)
}

// bearerStatuses tells whether all errors returned by ParseBearerToken are
// OAuth2 errors with a constant error status.
func (j *J) bearerStatuses() bool {
	for _, e := range j.bearerErrors() {
		n, ok := structField(e, "Status").intVal()
		if !ok || n < 400 || n > 599 {
			return false
		}
	}
	return true
}

// bearerErrors are the error values ParseBearerToken returns.
func (j *J) bearerErrors() []*Term {
	var out []*Term
	for _, t := range j.traces("ParseBearerToken", nil) {
		if t.End == "return" && len(t.Results) == 2 && !t.Results[1].isNil() {
			out = append(out, t.St.snapshot(t.Results[1], 0))
		}
	}
	return out
}

// C03: client authentication.
func ruleC03(j *J) {
	j.expl = "every path through the token, revocation and introspection endpoints that changes a store or answers with success must establish that the presented client is in the client store and either not confidential or presented its secret; the client credentials grant needs a confidential client and issues without user"
	for _, x := range j.server() {
		switch x.ep {
		case "token", "revoke", "introspect":
		default:
			continue
		}
		k := x.kind()
		if len(x.stateEffects()) == 0 && (k == "error" || k == "none") && len(x.delivered()) == 0 {
			continue
		}
		j.class("client authenticated path of " + x.ep)
		j.ob(x.authenticated() == yes, "client authentication", x.where(), x.pos(), x.Trace, "credentials are issued, changed or reported although the client is not known to be authenticated")
		if x.ep == "token" && x.grant() == "client_credentials" {
			j.class("client credentials path")
			id, _ := x.client()
			j.ob(x.tri(x.field("Clients", id, "Confidential")) == yes, "confidential client", x.where(), x.pos(), x.Trace, "the client credentials grant is not limited to confidential clients")
			for _, e := range x.sets(credStores...) {
				j.ob(structField(e.Cred, "Username").isStr(""), "no user", e.Store, e.Ev.Pos, x.Trace, "a client credentials token is bound to a user")
			}
		}
		if x.ep == "token" {
			j.ob(x.grant() != "", "grant", x.where(), x.pos(), x.Trace, "credentials are issued for an unknown grant type")
		}
	}
	j.require("client authenticated path of token", "client authenticated path of revoke", "client authenticated path of introspect", "client credentials path")
}

// C04: resource owner authentication.
func ruleC04(j *J) {
	j.expl = "every path through the authorization endpoint and the password grant that stores a credential: method POST, the posted username is in the user store, the posted password equals that user's secret, and the stored entry carries that username and the requesting client"
	for _, x := range j.server() {
		if x.ep != "authorize" && !(x.ep == "token" && x.grant() == "password") {
			continue
		}
		if len(x.stateEffects()) == 0 && len(x.delivered()) == 0 {
			continue
		}
		j.class("user authenticated path " + x.where())
		post := x.eq(x.method(), mkStr("POST"))
		if post == unknown && x.eq(x.method(), mkStr("GET")) == no {
			post = yes
		}
		j.ob(post == yes, "method", x.where(), x.pos(), x.Trace, "credentials are issued for a request that is not known to be a POST request")
		j.ob(x.has("Users", x.post("username")) == yes, "known user", x.where(), x.pos(), x.Trace, "credentials are issued although the posted username is not known to the server")
		j.ob(x.userOK() == yes, "password", x.where(), x.pos(), x.Trace, "credentials are issued although the posted password is not compared with the user's secret")
		id, _ := x.client()
		for _, e := range x.sets(credStores...) {
			j.ob(x.St.same(structField(e.Cred, "Username"), x.post("username")), "bound user", x.where()+" "+e.Store, e.Ev.Pos, x.Trace, "the credential is not bound to the authenticated user")
			j.ob(id != nil && x.St.same(structField(e.Cred, "ClientID"), id), "bound client", x.where()+" "+e.Store, e.Ev.Pos, x.Trace, "the credential is not bound to the requesting client")
		}
		if x.ep == "authorize" {
			_, ok := x.redirectURI()
			_ = ok
			rt, _ := x.constOf(x.form("response_type"))
			j.ob(rt == "token" || rt == "code", "response type", x.where(), x.pos(), x.Trace, "credentials are issued for an unknown response type")
		}
	}
	j.require("user authenticated path authorize/token", "user authenticated path authorize/code", "user authenticated path token/password")
}

// scopeEmpty tells whether a scope has no elements.
func (x *Tr) scopeEmpty(s *Term) int { return x.tri(mkEq(mkLen(s), mkInt(0))) }

// scopeBlank tells whether the text of a scope is empty.
func (x *Tr) scopeBlank(s *Term) int {
	if v := x.isEmpty(reprField{kind: "scope"}.text(s)); v != unknown {
		return v
	}
	return x.scopeEmpty(s)
}

// C05: scopes.
func ruleC05(j *J) {
	j.expl = "every path that stores a credential: its scope is the requested one and included in the allowed scope (implicit, code, password, client credentials), the recorded one (code exchange) or included in the recorded one (refresh); the reported scope equals the stored one"
	for _, x := range j.server() {
		sets := x.sets(credStores...)
		if len(sets) == 0 {
			continue
		}
		w := x.where()
		j.class("issuing path " + w)
		var want *Term
		sig, _ := x.sigOf(x.presented())
		switch {
		case x.ep == "authorize":
			want = parseScope(x.form("scope"))
			j.ob(x.includes(x.cfg("AllowedScope"), want) == yes, "allowed", w, x.pos(), x.Trace, "the requested scope is not known to be included in the allowed scope")
		case x.ep == "token" && (x.grant() == "password" || x.grant() == "client_credentials"):
			want = parseScope(x.post("scope"))
			j.ob(x.includes(x.cfg("AllowedScope"), want) == yes, "allowed", w, x.pos(), x.Trace, "the requested scope is not known to be included in the allowed scope")
		case x.ep == "token" && x.grant() == "authorization_code":
			want = x.field("AuthorizationCodes", sig, "Scope")
		case x.ep == "token" && x.grant() == "refresh_token":
			req := parseScope(x.post("scope"))
			stored := x.field("RefreshTokens", sig, "Scope")
			switch x.scopeBlank(req) {
			case yes:
				want = stored
			case no:
				want = req
				j.ob(x.includes(stored, req) == yes, "granted", w, x.pos(), x.Trace, "the requested scope is not known to be included in the originally granted scope")
			default:
				j.ob(false, "granted", w, x.pos(), x.Trace, "whether a scope was requested is not considered")
				continue
			}
		default:
			j.ob(false, "grant", w, x.pos(), x.Trace, "a credential is stored by an unknown grant")
			continue
		}
		for _, e := range sets {
			got := structField(e.Cred, "Scope")
			j.ob(want != nil && x.St.same(got, want), "stored scope", w+" "+e.Store, e.Ev.Pos, x.Trace, "the stored scope is not the one determined by the grant")
		}
		// reported scope
		switch x.kind() {
		case "token":
			j.ob(x.resp.field("scope") != nil && want != nil && x.St.same(x.resp.field("scope"), want), "reported scope", w, x.pos(), x.Trace, "the scope in the response is not the stored scope")
		case "token-redirect":
			ps, prob := entryMap(x.resp.Loc.Frag)
			got := ps["scope"]
			if got == nil {
				j.ob(prob == "" && x.scopeBlank(want) == yes, "reported scope", w, x.pos(), x.Trace, "the scope is left out of the redirect although it may be non-empty")
			} else {
				text := mk("call", "strings.Join", nil, want, mkStr(" "))
				j.ob(x.St.same(got, text), "reported scope", w, x.pos(), x.Trace, "the scope in the redirect is not the stored scope")
			}
		}
	}
	j.require("issuing path authorize/token", "issuing path authorize/code", "issuing path token/password", "issuing path token/client_credentials", "issuing path token/authorization_code", "issuing path token/refresh_token")
}

func (x *Tr) uriMatches(stored, raw *Term) int {
	best := unknown
	for _, u := range []*Term{unescape(raw), raw} {
		switch x.eq(stored, u) {
		case yes:
			return yes
		case no:
			best = no
		}
	}
	return best
}

// C06: code exchange.
func ruleC06(j *J) {
	j.expl = "every path of the authorization code grant that stores or delivers tokens: the code verifies, is stored, live, of the requesting client and of the repeated redirect URI; the tokens are bound to that client and the recorded user"
	for _, x := range j.server() {
		if x.ep != "token" || x.grant() != "authorization_code" || len(x.sets(credStores...)) == 0 && len(x.delivered()) == 0 {
			continue
		}
		j.class("code exchange path")
		w := "code exchange"
		sig, valid := x.sigOf(x.post("code"))
		st := func(f string) *Term { return x.field("AuthorizationCodes", sig, f) }
		id, _ := x.client()
		p := x.pos()
		j.ob(valid == yes, "signature", w, p, x.Trace, "the code is not known to verify under the server secret")
		j.ob(x.has("AuthorizationCodes", sig) == yes, "stored", w, p, x.Trace, "the code is not known to be stored")
		j.ob(x.live(st("ExpiresAt")) == yes, "lifetime", w, p, x.Trace, "the code is not known to be unexpired")
		j.ob(x.eq(st("ClientID"), id) == yes, "client", w, p, x.Trace, "the code is not known to belong to the requesting client")
		j.ob(x.uriMatches(st("RedirectURI"), x.post("redirect_uri")) == yes, "redirect uri", w, p, x.Trace, "the redirect URI is not known to be the one the code was issued for")
		for _, e := range x.sets("AccessTokens", "RefreshTokens") {
			j.ob(id != nil && x.St.same(structField(e.Cred, "ClientID"), id), "bound client", e.Store, e.Ev.Pos, x.Trace, "the token is not bound to the requesting client")
			j.ob(x.St.same(structField(e.Cred, "Username"), st("Username")), "bound user", e.Store, e.Ev.Pos, x.Trace, "the token is not bound to the user recorded with the code")
		}
		j.ob(len(x.sets("AuthorizationCodes")) == 0, "no new code", w, p, x.Trace, "a code exchange stores a code")
	}
	// recorded with the code
	for _, x := range j.server() {
		for _, e := range x.sets("AuthorizationCodes") {
			j.class("code issuing path")
			u, ok := x.redirectURI()
			j.ob(ok == yes && u != nil && (x.St.same(structField(e.Cred, "RedirectURI"), u)), "recorded uri", x.where(), e.Ev.Pos, x.Trace, "the code does not record the requested redirect URI")
		}
	}
	j.require("code exchange path", "code issuing path")
}

// revokesByCode tells whether the path removes exactly the entries of a store
// that descend from the code.
func (x *Tr) revokesByCode(store string, sig *Term) (ok bool, why string) {
	m := x.store(store)
	why = "no iteration over " + store + " removes the tokens of the code"
	for _, e := range x.Events {
		if e.Kind != "loop" || e.Loop.Over != m {
			continue
		}
		if !e.Loop.Exhausted {
			why = "the iteration over " + store + " may end early"
			continue
		}
		dels := 0
		good := true
		list := x.collected(e.Loop, m)
		for i := range e.Loop.Backs {
			b := &e.Loop.Backs[i]
			y := *x
			n := *x.Trace
			n.St, n.Facts = b.St, b.St.facts
			y.Trace = &n
			var key *Term
			var match = unknown
			for _, f := range b.St.facts {
				f.T.walk(func(t *Term) {
					if t.Op == "nextok" && t.Args[0] == m && t.Name != "" && key == nil {
						key = t
					}
				})
			}
			for _, f := range b.Facts {
				f.T.walk(func(t *Term) {
					if t.Op == "sel" && t.Name == "Code" && t.Args[0].Op == "nextval" && t.Args[0].Args[0] == m {
						if v := y.eq(t, sig); v != unknown {
							match = v
						}
					}
				})
			}
			n2 := 0
			for _, ev := range b.Events {
				switch ev.Kind {
				case "mapdel":
					if ev.Args[0] == m && len(ev.Args) > 1 && ev.Args[1].Op == "nextkey" && ev.Args[1].Args[0] == m && ev.Name != "clear" {
						n2++
					} else {
						good, why = false, "the iteration over "+store+" removes something else"
					}
				case "mapset", "store", "loop":
					good, why = false, "the iteration over "+store+" has other effects"
				}
			}
			if list != nil && n2 == 0 {
				// the keys are collected first and removed afterwards
				after := b.Phis[list]
				add := after.Op == "append" && after.Args[0] == list && after.Args[1].Op == "list" && len(after.Args[1].Args) == 1 && after.Args[1].Args[0].Op == "nextkey" && after.Args[1].Args[0].Args[0] == m
				switch {
				case match == yes && add:
					dels++
				case match == no && after == list:
				default:
					good, why = false, "an iteration over "+store+" does not collect exactly the matching token"
				}
				continue
			}
			switch {
			case match == yes && n2 == 1:
				dels++
			case match == no && n2 == 0:
			default:
				good, why = false, "an iteration over "+store+" does not remove exactly the matching token"
			}
		}
		if good && dels > 0 {
			return true, ""
		}
	}
	return false, why
}

// collected finds the list that an iteration over a map fills and of whose
// elements, after it, each is removed from the map.
func (x *Tr) collected(l *LoopInfo, m *Term) *Term {
	for _, in := range l.Init {
		if n, ok := x.St.lenOf(in.Init).intVal(); !ok || n != 0 {
			continue
		}
		after := false
		for _, e := range x.Events {
			if e.Kind != "loop" {
				continue
			}
			if e.Loop.Inst == l.Inst {
				after = true
				continue
			}
			if !after {
				continue
			}
			it := x.visits(e.Loop, in.Var)
			if it == nil || it.start != 0 && it.forward {
				continue
			}
			all := len(it.l.Backs) > 0
			for i := range it.l.Backs {
				n := 0
				for _, ev := range it.l.Backs[i].Events {
					switch ev.Kind {
					case "mapdel":
						if ev.Args[0] == m && ev.Name != "clear" && len(ev.Args) > 1 && ev.Args[1] == elemAt(in.Var, it.idx) {
							n++
						} else {
							all = false
						}
					case "mapset", "store", "loop":
						all = false
					}
				}
				all = all && n == 1
			}
			if all {
				return in.Var
			}
		}
	}
	return nil
}

// C07: single use.
func ruleC07(j *J) {
	j.expl = "an exchange that succeeds requires the code to be unused and marks it used; every path that reaches a stored code whose use is not excluded removes, by complete iterations over both token stores, exactly the tokens whose recorded code is the presented one; exchange and refresh record the originating code with every token; codes are issued unused and never removed or reset"
	for _, x := range j.server() {
		w := x.where()
		sig, _ := x.sigOf(x.presented())
		for _, e := range x.sets("AccessTokens", "RefreshTokens") {
			got := structField(e.Cred, "Code")
			switch {
			case x.ep == "token" && x.grant() == "authorization_code":
				j.class("exchanged token")
				j.ob(sig != nil && x.St.same(got, sig), "origin", w+" "+e.Store, e.Ev.Pos, x.Trace, "the token does not record the code it was issued for")
			case x.ep == "token" && x.grant() == "refresh_token":
				j.class("refreshed token")
				j.ob(sig != nil && x.St.same(got, x.field("RefreshTokens", sig, "Code")), "origin", w+" "+e.Store, e.Ev.Pos, x.Trace, "the refreshed token does not record the code of its predecessor")
			default:
				j.ob(got.isStr(""), "origin", w+" "+e.Store, e.Ev.Pos, x.Trace, "a token that was not obtained by a code is associated with one")
			}
		}
		for _, e := range x.sets("AuthorizationCodes") {
			j.class("issued code")
			j.ob(structField(e.Cred, "Used") == tFalse, "issued unused", w, e.Ev.Pos, x.Trace, "a code is issued that is already marked as used")
		}
		exchange := x.ep == "token" && x.grant() == "authorization_code"
		marked := false
		for _, e := range x.eff {
			if e.Store != "AuthorizationCodes" && !(e.Kind == "field" && (e.Field == "Code" || e.Field == "Used")) {
				continue
			}
			switch {
			case e.Kind == "set" && x.ep == "authorize":
			case e.Kind == "field" && e.Field == "Used" && e.Store == "AuthorizationCodes" && exchange && e.Val == tTrue && e.Key != nil && sig != nil && x.St.same(e.Key, sig) && e.Loop == nil:
				marked = true
			default:
				j.ob(false, "code state", w+" "+e.Kind+" "+e.Field, e.Ev.Pos, x.Trace, "a code is removed, replaced or reset")
			}
		}
		if !exchange {
			continue
		}
		used := x.tri(x.field("AuthorizationCodes", sig, "Used"))
		if x.has("AuthorizationCodes", sig) != yes {
			continue
		}
		if len(x.sets("AccessTokens", "RefreshTokens")) > 0 || len(x.delivered()) > 0 {
			j.class("successful exchange")
			j.ob(used == no, "unused", w, x.pos(), x.Trace, "a code is exchanged that is not known to be unused")
			j.ob(marked, "mark used", w, x.pos(), x.Trace, "an exchanged code is not marked as used")
			continue
		}
		if used == no {
			continue
		}
		j.class("replay")
		for _, s := range []string{"AccessTokens", "RefreshTokens"} {
			ok, why := x.revokesByCode(s, sig)
			j.ob(ok, "revocation", s, x.pos(), x.Trace, "a replayed code does not revoke its tokens: %s", why)
		}
		j.ob(!marked || used != no, "replay state", w, x.pos(), x.Trace, "a failed exchange consumes the code")
	}
	j.require("exchanged token", "refreshed token", "issued code", "successful exchange", "replay")
}

// C08: refresh token rotation.
func ruleC08(j *J) {
	j.expl = "every path of the refresh token grant that stores or delivers tokens: the token verifies, is stored as a refresh token, live and of the requesting client; exactly that token is removed and the new ones carry its user and client"
	for _, x := range j.server() {
		if x.ep != "token" || x.grant() != "refresh_token" || len(x.stateEffects()) == 0 && len(x.delivered()) == 0 {
			continue
		}
		j.class("refresh path")
		w := "refresh"
		sig, valid := x.sigOf(x.post("refresh_token"))
		st := func(f string) *Term { return x.field("RefreshTokens", sig, f) }
		id, _ := x.client()
		p := x.pos()
		j.ob(valid == yes, "signature", w, p, x.Trace, "the refresh token is not known to verify under the server secret")
		j.ob(x.has("RefreshTokens", sig) == yes, "stored", w, p, x.Trace, "the token is not known to be stored as a refresh token")
		j.ob(x.live(st("ExpiresAt")) == yes, "lifetime", w, p, x.Trace, "the refresh token is not known to be unexpired")
		j.ob(x.eq(st("ClientID"), id) == yes, "client", w, p, x.Trace, "the refresh token is not known to belong to the requesting client")
		removed := 0
		for _, e := range x.stateEffects() {
			switch e.Kind {
			case "del":
				good := e.Store == "RefreshTokens" && sig != nil && x.St.same(e.Key, sig) && e.Loop == nil
				j.ob(good, "removes only", e.Store, e.Ev.Pos, x.Trace, "a refresh removes something else than the presented refresh token")
				if good {
					removed++
				}
			case "set":
				j.ob(e.Store == "AccessTokens" || e.Store == "RefreshTokens", "stores only", e.Store, e.Ev.Pos, x.Trace, "a refresh stores something else than tokens")
				j.ob(id != nil && x.St.same(structField(e.Cred, "ClientID"), id), "bound client", e.Store, e.Ev.Pos, x.Trace, "the new token is not bound to the requesting client")
				j.ob(x.St.same(structField(e.Cred, "Username"), st("Username")), "bound user", e.Store, e.Ev.Pos, x.Trace, "the new token is not bound to the user of the refresh token")
			default:
				j.ob(false, "other effect", e.Kind+" "+e.Store+" "+e.Field, e.Ev.Pos, x.Trace, "a refresh changes other server state")
			}
		}
		j.ob(removed == 1, "rotation", w, p, x.Trace, "the presented refresh token is not removed")
	}
	j.require("refresh path")
}

// C09: revocation.
func ruleC09(j *J) {
	j.expl = "every path of the revocation endpoint: only the presented token is removed, only if it belongs to the requesting client; a success answer requires that every token store either does not hold the token or had it removed"
	stores := []string{"AccessTokens", "RefreshTokens"}
	for _, x := range j.server() {
		if x.ep != "revoke" {
			continue
		}
		sig, valid := x.sigOf(x.post("token"))
		id, _ := x.client()
		gone := map[string]bool{}
		for _, e := range x.stateEffects() {
			good := e.Kind == "del" && (e.Store == stores[0] || e.Store == stores[1]) && sig != nil && x.St.same(e.Key, sig) && e.Loop == nil
			j.ob(good, "removes only", e.Kind+" "+e.Store, e.Ev.Pos, x.Trace, "a revocation changes something else than the presented token")
			if good {
				j.class("removal from " + e.Store)
				gone[e.Store] = true
				j.ob(valid == yes, "signature", e.Store, e.Ev.Pos, x.Trace, "a token is removed that is not known to verify")
				j.ob(x.has(e.Store, sig) == yes && x.eq(x.field(e.Store, sig, "ClientID"), id) == yes, "owner", e.Store, e.Ev.Pos, x.Trace, "a token is removed that is not known to belong to the requesting client")
			}
		}
		if x.kind() == "error" {
			j.class("rejected revocation")
			continue
		}
		j.class("successful revocation")
		j.ob(x.resp.Code.isInt(200), "status", "success", x.pos(), x.Trace, "a successful revocation is not answered with status 200")
		j.ob(valid == yes, "signature", "success", x.pos(), x.Trace, "a revocation succeeds for a token that is not known to verify")
		for i, s := range stores {
			h := x.has(s, sig)
			other := stores[1-i]
			j.ob(h == no || gone[s] || h == unknown && gone[other], "complete", s, x.pos(), x.Trace, "a revocation succeeds although the token may remain in %s", s)
		}
	}
	j.require("removal from AccessTokens", "removal from RefreshTokens", "rejected revocation", "successful revocation")
}

// emptyVal reports whether a value is known to be the zero value.
func emptyVal(t *Term) bool {
	return t == nil || t.isNil() || t == tFalse || t.isStr("") || t.isInt(0) || t.Op == "zero" || t.Op == "sel" && t.Args[0].Op == "zero"
}

// C10: introspection.
func ruleC10(j *J) {
	j.expl = "every path of the introspection endpoint that answers with a document: active is true only on paths on which the token verifies, is stored for the requesting client and live, and then all reported fields are those of that entry; active is false only on paths on which every token store is known not to hold a live token, and then no field is set; foreign tokens are refused and no response value depends on a stored entry on that path"
	stores := []string{"AccessTokens", "RefreshTokens"}
	kinds := map[string]string{"AccessTokens": "access_token", "RefreshTokens": "refresh_token"}
	for _, x0 := range j.server() {
		if x0.ep != "introspect" {
			continue
		}
		for _, e := range x0.stateEffects() {
			j.ob(false, "read only", e.Kind+" "+e.Store, e.Ev.Pos, x0.Trace, "introspection changes server state")
		}
		act := x0.resp.field("active")
		if x0.kind() != "introspection" {
			act = nil
		}
		for _, x := range x0.split(act) {
			sig, valid := x.sigOf(x.post("token"))
			id, _ := x.client()
			state := func(s string) (live, foreign int) {
				h := x.has(s, sig)
				if h != yes {
					return h, h
				}
				own := x.eq(x.field(s, sig, "ClientID"), id)
				l := x.live(x.field(s, sig, "ExpiresAt"))
				return and(own, l), -own
			}
			for _, s := range stores {
				if _, foreign := state(s); foreign == yes {
					j.class("foreign token")
					code, isErr := x.errCode()
					j.ob(isErr && code == "invalid_client", "refused", s, x.pos(), x.Trace, "a token of another client is not refused as invalid_client")
					for _, e := range x.resp.Writes {
						for _, a := range e.Args {
							leak := a.contains(func(t *Term) bool {
								return (t.Op == "lookup" || t.Op == "nextval") && x.storeName(t.Args[0]) != ""
							})
							j.ob(!leak, "disclosure", s, e.Pos, x.Trace, "the refusal discloses stored data")
						}
					}
				}
			}
			if act == nil {
				k := x.kind()
				j.ob(k == "error", "answer", k, x.pos(), x.Trace, "an introspection request is answered by %s", k)
				continue
			}
			j.ob(valid == yes, "signature", "document", x.pos(), x.Trace, "an introspection document is sent for a token that is not known to verify")
			j.ob(x.resp.Code.isInt(200), "status", "document", x.pos(), x.Trace, "an introspection document is not sent with status 200")
			switch x.tri(act) {
			case yes:
				found := ""
				for _, s := range stores {
					if l, _ := state(s); l == yes {
						found = s
					}
				}
				j.ob(found != "", "active", "document", x.pos(), x.Trace, "a token is reported as active that is not known to be stored, owned and unexpired")
				if found == "" {
					continue
				}
				j.class("active " + found)
				exp := mk("call", "(time.Time).Unix", nil, x.field(found, sig, "ExpiresAt"))
				want := map[string]*Term{"scope": x.field(found, sig, "Scope"), "client_id": x.field(found, sig, "ClientID"), "username": x.field(found, sig, "Username"),
					"token_type": mkStr(kinds[found]), "exp": exp}
				for _, n := range sortedKeys(want) {
					got := x.resp.field(n)
					j.ob(got != nil && x.St.same(got, want[n]), "reported "+n, found, x.pos(), x.Trace, "the reported %s is not the recorded one", n)
				}
			case no:
				j.class("inactive")
				for _, s := range stores {
					l, _ := state(s)
					j.ob(l == no, "inactive", s, x.pos(), x.Trace, "a token is reported as inactive although %s may hold it live", s)
				}
				for _, n := range sortedKeys(x.resp.JSON) {
					if n != "active" {
						j.ob(emptyVal(x.resp.field(n)), "no details", n, x.pos(), x.Trace, "an inactive answer carries %s", n)
					}
				}
			default:
				j.ob(false, "active", "undetermined", x.pos(), x.Trace, "whether the token is reported as active cannot be decided")
			}
		}
	}
	j.require("active AccessTokens", "active RefreshTokens", "inactive", "foreign token")
}

// C11: issued credentials.
func ruleC11(j *J) {
	j.expl = "every path that delivers or stores a credential: deliveries and store writes correspond one to one by a generated token; the token is generated with the configured secret and key length, stored under its own signature in the store of its kind before the response with the configured lifespan; the advertised lifetime and type are right; the implicit grant issues no refresh token"
	storeOf := map[string]string{"access_token": "AccessTokens", "refresh_token": "RefreshTokens", "code": "AuthorizationCodes"}
	life := map[string]string{"AccessTokens": "AccessTokenLifespan", "RefreshTokens": "RefreshTokenLifespan", "AuthorizationCodes": "AuthorizationCodeLifespan"}
	for _, x := range j.server() {
		del := x.delivered()
		sets := x.sets(credStores...)
		if len(del) == 0 && len(sets) == 0 {
			continue
		}
		w := x.where()
		j.class("issuing path " + w)
		// generated tokens of the path
		var gens []*Term
		for _, e := range x.Events {
			if e.Kind == "generate" {
				g := e.Args[0]
				j.ob(len(e.Args) == 3 && e.Args[1] == x.cfg("Secret") && e.Args[2] == x.cfg("KeyLength"), "generation", w, e.Pos, x.Trace, "a token is not generated with the configured secret and key length")
				if strings.HasSuffix(e.Name, ".GenerateHS256Token") {
					j.ob(x.eq(mkRet(g, 1, nil), tNil) == yes, "generation error", w, e.Pos, x.Trace, "the error of the token generation is not checked")
					g = mkRet(g, 0, nil)
				}
				gens = append(gens, g)
			}
		}
		usedGen := map[*Term]string{}
		usedSet := map[*Eff]bool{}
		for _, n := range sortedKeys(del) {
			v := del[n]
			var g *Term
			for _, c := range gens {
				if x.St.same(v, j.c.strT(c)) {
					g = c
				}
			}
			if !j.ob(g != nil, "fresh", w+" "+n, x.pos(), x.Trace, "the delivered %s is not the textual form of a token generated for this request", n) {
				continue
			}
			j.ob(usedGen[g] == "", "distinct", w+" "+n, x.pos(), x.Trace, "the same token is delivered as %s and %s", n, usedGen[g])
			usedGen[g] = n
			store := storeOf[n]
			var rec *Eff
			for _, e := range sets {
				if x.St.same(e.Key, j.c.sigT(g)) {
					if e.Store == store {
						rec = e
					} else {
						j.ob(false, "kind", w+" "+n+" in "+e.Store, e.Ev.Pos, x.Trace, "the %s is stored in %s", n, e.Store)
					}
				}
			}
			if !j.ob(rec != nil && rec.Loop == nil, "recorded", w+" "+n, x.pos(), x.Trace, "the delivered %s is not stored in %s under its signature", n, store) {
				continue
			}
			usedSet[rec] = true
			j.class("recorded " + n)
			j.ob(x.resp.First > rec.Idx, "order", w+" "+n, rec.Ev.Pos, x.Trace, "the %s is stored after the response is sent", n)
			exp := structField(rec.Cred, "ExpiresAt")
			good := exp != nil && exp.isCall("(time.Time).Add") && exp.Args[0].isCall("time.Now") && exp.Args[1] == x.cfg(life[store])
			j.ob(good, "lifespan", w+" "+n, rec.Ev.Pos, x.Trace, "the %s does not expire after the configured lifespan", n)
			for _, e := range x.eff {
				if e.Store == store && (e.Kind == "del" && x.St.same(e.Key, rec.Key) || e.Kind == "clear") {
					j.ob(false, "kept", w+" "+n, e.Ev.Pos, x.Trace, "the new %s is removed again", n)
				}
			}
		}
		for _, e := range sets {
			j.ob(usedSet[e], "delivered", w+" "+e.Store, e.Ev.Pos, x.Trace, "a stored credential in %s is not delivered", e.Store)
		}
		lifeSecs := func(v *Term) bool {
			l := x.cfg("AccessTokenLifespan")
			unit := int64(1)
			for v != nil && v != l {
				switch {
				case v.Op == "conv":
				case v.Op == "binop" && v.Name == "/":
					d, ok := v.Args[1].intVal()
					if !ok {
						return false
					}
					unit *= d
				case v.isCall("(time.Duration).Nanoseconds"):
				case v.isCall("(time.Duration).Microseconds"):
					unit *= 1000
				case v.isCall("(time.Duration).Milliseconds"):
					unit *= 1000000
				case v.isCall("(time.Duration).Seconds"):
					unit *= 1000000000
				case v.isCall("(time.Duration).Truncate") && v.Args[1].isInt(1000000000):
				default:
					return false
				}
				v = v.Args[0]
			}
			return v == l && unit == 1000000000
		}
		switch x.kind() {
		case "token":
			j.ob(lifeSecs(x.resp.field("expires_in")), "advertised lifetime", w, x.pos(), x.Trace, "the advertised lifetime is not the access token lifespan in seconds")
			j.ob(x.resp.field("token_type").isStr("bearer"), "token type", w, x.pos(), x.Trace, "the token type is not bearer")
			j.ob(x.resp.field("access_token") != nil && del["access_token"] != nil, "access token", w, x.pos(), x.Trace, "a token response has no access token")
		case "token-redirect":
			ps, _ := entryMap(append(append([]*Term{}, x.resp.Loc.Frag...), x.resp.Loc.Query...))
			e := ps["expires_in"]
			j.ob(e != nil && e.isCall("strconv.Itoa") && lifeSecs(e.Args[0]), "advertised lifetime", w, x.pos(), x.Trace, "the advertised lifetime is not the access token lifespan in seconds")
			j.ob(ps["token_type"] != nil && ps["token_type"].isStr("bearer"), "token type", w, x.pos(), x.Trace, "the token type is not bearer")
			j.ob(del["refresh_token"] == nil && len(x.sets("RefreshTokens")) == 0, "no refresh token", w, x.pos(), x.Trace, "the implicit grant issues a refresh token")
		}
	}
	j.require("recorded access_token", "recorded refresh_token", "recorded code", "issuing path authorize/token", "issuing path authorize/code", "issuing path token/password",
		"issuing path token/client_credentials", "issuing path token/authorization_code", "issuing path token/refresh_token")
}

// C12: rejected requests.
func ruleC12(j *J) {
	j.expl = "every path of ServeHTTP answered by an error, not found or the notice, and every path of Authorize, has no write to the client, user or credential stores, their entries or the configuration, except for token removals on paths on which the presented code is known to be used"
	for _, x := range append(j.server(), j.entry("(*Server).Authorize")...) {
		k := x.kind()
		switch k {
		case "error", "notfound", "notice", "redirect", "json", "none":
		default:
			continue
		}
		j.class("rejecting path")
		if k == "notice" {
			j.class("notice")
		}
		for _, e := range x.stateEffects() {
			sig, _ := x.sigOf(x.presented())
			replay := x.ep == "token" && x.grant() == "authorization_code" && x.has("AuthorizationCodes", sig) == yes && x.tri(x.field("AuthorizationCodes", sig, "Used")) == yes &&
				e.Kind == "del" && (e.Store == "AccessTokens" || e.Store == "RefreshTokens")
			if replay {
				j.class("replay removal")
			}
			j.ob(replay, "no effect", x.where()+" "+e.Kind+" "+e.Store+" "+e.Field, e.Ev.Pos, x.Trace, "a rejected request changes the server state (%s %s)", e.Kind, e.Store)
		}
		j.bump("no effect", true)
	}
	j.require("rejecting path", "notice", "replay removal")
}

// guarded reports whether an event touches the stores of the server.
func (x *Tr) guarded(e *Event) bool {
	touches := func(a *Term) bool {
		return a.contains(func(t *Term) bool {
			if t.Op == "fa" && t.Args[0] == x.s || t.Op == "sel" && t.Args[0] == x.s {
				for _, n := range storeNames {
					if t.Name == n {
						return true
					}
				}
			}
			return false
		})
	}
	switch e.Kind {
	case "mapread", "mapset", "mapdel":
		return touches(e.Args[0])
	case "load", "store":
		return touches(e.Args[0])
	}
	return false
}

// C13: one critical section.
func ruleC13(j *J) {
	j.expl = "every path of every exported function that can reach the server's stores: one acquisition of the server's lock, paired with a release that is registered with defer at once so that every way out including panics runs it; every access to the stores lies between them and in the same goroutine; no second acquisition"
	entries := 0
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != j.c.root || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		has := false
		for _, p := range f.Params {
			if types.TypeString(p.Type(), nil) == "*"+modPath+".Server" {
				has = true
			}
		}
		if !has {
			continue
		}
		entries++
		short := fnShort(f)
		mutexes := map[string]bool{}
		for _, x := range j.entry(short) {
			j.class("path of " + short)
			var lock, unlock, push, acc []int
			shared := false
			var addr *Term
			var walk func(es []*Event, idx int)
			walk = func(es []*Event, idx int) {
				for i, e := range es {
					n := idx
					if n < 0 {
						n = i
					}
					switch e.Kind {
					case "lock", "rlock", "trylock":
						if root(e.Args[0]) != x.s {
							continue
						}
						j.ob(idx < 0, "lock in loop", short, e.Pos, x.Trace, "the lock is acquired in a loop")
						j.ob(e.Kind != "trylock", "unconditional", short, e.Pos, x.Trace, "the lock is only tried")
						j.ob(!e.Async, "lock goroutine", short, e.Pos, x.Trace, "the lock is acquired by another goroutine")
						lock = append(lock, n)
						shared = e.Kind == "rlock"
						addr = e.Args[0]
					case "unlock", "runlock":
						if root(e.Args[0]) == x.s {
							unlock = append(unlock, n)
							j.ob(e.Deferred && idx < 0, "deferred release", short, e.Pos, x.Trace, "the lock is not released by a deferred call")
						}
					case "deferpush":
						push = append(push, n)
					case "loop":
						for _, b := range e.Loop.Backs {
							walk(b.Events, n)
						}
					default:
						if x.guarded(e) {
							acc = append(acc, n)
							j.ob(!e.Async, "goroutine", short, e.Pos, x.Trace, "the stores are accessed by a goroutine that does not hold the lock")
							if e.Kind != "load" && e.Kind != "mapread" {
								j.ob(!shared, "exclusive", short, e.Pos, x.Trace, "the stores are changed under a shared lock")
							}
						}
					}
				}
			}
			walk(x.Events, -1)
			if len(acc) == 0 && len(lock) == 0 {
				continue
			}
			j.class("accessing path")
			if !j.ob(len(lock) == 1, "one acquisition", short, x.pos(), x.Trace, "the lock is acquired %d times on a path", len(lock)) {
				continue
			}
			mutexes[addr.Name] = true
			j.ob(len(unlock) == 1, "one release", short, x.pos(), x.Trace, "the lock is released %d times on a path", len(unlock))
			// nothing that may fail between acquisition and registration
			near := false
			for _, p := range push {
				lo, hi := p, lock[0]
				if lo > hi {
					lo, hi = hi, lo
				}
				clean := true
				for k := lo + 1; k < hi; k++ {
					switch x.Events[k].Kind {
					case "load", "safe":
					default:
						clean = false
					}
				}
				if clean && x.deferredUnlock(p, addr) {
					near = true
				}
			}
			j.ob(near, "registered at once", short, x.Events[lock[0]].Pos, x.Trace, "the release is not registered with defer right at the acquisition")
			for _, a := range acc {
				ok := a > lock[0] && (len(unlock) == 0 || a < unlock[0])
				j.ob(ok, "inside", short, x.Events[a].Pos, x.Trace, "the stores are accessed outside of the critical section")
			}
		}
		for m := range mutexes {
			j.class("mutex " + m)
		}
	}
	n := 0
	for c := range j.cls {
		if strings.HasPrefix(c, "mutex ") {
			n++
		}
	}
	j.ob(n == 1, "one lock", "server", token.NoPos, nil, "the entry points use %d different locks", n)
	j.require("path of (*Server).ServeHTTP", "path of (*Server).Authorize", "accessing path")
}

// deferredUnlock reports whether the defer at the index releases the lock.
func (x *Tr) deferredUnlock(at int, addr *Term) bool {
	for _, e := range x.Events {
		if (e.Kind == "unlock" || e.Kind == "runlock") && e.Deferred && e.DeferAt == at && e.Args[0] == addr {
			return true
		}
	}
	return false
}

// oneResponse checks that exactly one response is written.
func (j *J) oneResponse(x *Tr, label string) {
	p := x.resp
	j.ob(!p.InLoop, "loop", label, x.pos(), x.Trace, "a response is written in a loop")
	j.ob(len(p.Escapes) == 0, "escape", label, x.pos(), x.Trace, "the response writer is handed to an unknown function")
	j.ob(p.First >= 0, "answered", label, x.pos(), x.Trace, "a path ends without a response")
	j.ob(len(p.Status) <= 1, "one status", label, x.pos(), x.Trace, "the status is sent %d times", len(p.Status))
	if len(p.Status) == 1 && len(p.Bodies) > 0 {
		j.ob(p.Bodies[0] > p.Status[0], "order", label, x.pos(), x.Trace, "the body is written before the status")
	}
	docs, raws := 0, 0
	for _, i := range p.Bodies {
		e := x.Events[i]
		if e.Name == "json" {
			docs++
		} else if !e.Args[1].isNil() && !e.Args[1].isStr("") {
			raws++
		}
	}
	j.ob(docs <= 1 && (docs == 0 || raws == 0), "one document", label, x.pos(), x.Trace, "several documents are written")
}

// C14: exactly one response.
func ruleC14(j *J) {
	j.expl = "every path of ServeHTTP sends the status exactly once, before any body (or a body with the implicit status), and nothing is written in loops or through unknown functions; Authorize does so on paths returning false and writes nothing on paths returning true"
	for _, x := range j.server() {
		if x.End != "return" {
			continue
		}
		j.class("answered path")
		j.oneResponse(x, x.where())
	}
	for _, x0 := range j.entry("(*Server).Authorize") {
		if x0.End != "return" {
			continue
		}
		for _, x := range x0.split(x0.Results[0]) {
			if x.tri(x.Results[0]) == no {
				j.class("failed authorization")
				j.oneResponse(x, "Authorize")
				_, isErr := x.errCode()
				j.ob(isErr, "error", "Authorize", x.pos(), x.Trace, "a failed authorization is not answered with an error")
			} else {
				j.class("successful authorization")
				j.ob(len(x.resp.Writes) == 0 && len(x.resp.Escapes) == 0 && len(x.resp.Hdr) == 0 && len(x.resp.Late) == 0, "silent", "Authorize", x.pos(), x.Trace, "a successful authorization writes to the response")
			}
		}
	}
	j.require("answered path", "failed authorization", "successful authorization")
}

// headerRule checks the headers of one response.
func (j *J) headerRule(x *Tr, label string) {
	p := x.resp
	for _, e := range p.Late {
		j.ob(false, "headers before status", label, e.Pos, x.Trace, "a header is set after the status is sent")
	}
	has := func(h string, words ...string) bool {
		v := p.Hdr[h]
		if v == nil {
			return false
		}
		s, ok := v.str()
		if !ok {
			return false
		}
		for _, part := range strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return r == ',' || r == ' ' || r == ';' }) {
			for _, w := range words {
				if part == w {
					return true
				}
			}
		}
		return false
	}
	doc := false
	for _, i := range p.Bodies {
		if x.Events[i].Name == "json" {
			doc = true
		}
	}
	doc = doc || p.JSONVal != nil
	if doc {
		j.class("document")
		j.ob(has("Content-Type", "application/json"), "content type", label, x.pos(), x.Trace, "a JSON response does not declare its content type")
	}
	loc := p.Hdr["Location"] != nil
	if loc {
		j.class("redirect")
		j.ob(has("Referrer-Policy", "origin", "strict-origin"), "referrer policy", label, x.pos(), x.Trace, "a redirect does not restrict the referrer")
	}
	if doc || loc {
		j.ob(has("Cache-Control", "no-store"), "cache control", label, x.pos(), x.Trace, "the response does not forbid caching (Cache-Control)")
		j.ob(has("Pragma", "no-cache"), "pragma", label, x.pos(), x.Trace, "the response does not forbid caching (Pragma)")
	}
}

// C15: headers.
func ruleC15(j *J) {
	j.expl = "every path of ServeHTTP, Authorize and of every exported function taking a response writer: no header is changed after the status; a JSON document is sent with Content-Type application/json, Cache-Control no-store and Pragma no-cache; a redirect with the latter and Referrer-Policy origin"
	for _, f := range j.writers() {
		short := fnShort(f)
		for _, x := range j.entry(short) {
			j.class("path of " + short)
			j.headerRule(x, short+" "+x.where())
		}
	}
	j.require("document", "redirect", "path of Write", "path of WriteRedirect", "path of WriteError", "path of WriteTokenResponse", "path of WriteCodeResponse", "path of WriteIntrospectionResponse", "path of WriteBearerError", "path of (*Server).ServeHTTP", "path of (*Server).Authorize")
}

// C16: components of redirects.
func ruleC16(j *J) {
	j.expl = "every redirecting path of the authorization endpoint uses the fragment for response type token and the query for code and in no other, and carries exactly the state parameter of the request; generated tokens reach the response only as the access/refresh token fields of a JSON body or a fragment, codes only as the code parameter of a query"
	for _, x := range j.server() {
		w := x.where()
		if l := x.resp.Loc; l != nil {
			rt, _ := x.constOf(x.form("response_type"))
			j.class("redirect for " + rt)
			var es []*Term
			switch rt {
			case "token":
				es = l.Frag
				j.ob(l.HasFrag && !l.HasQuery, "component", w, x.pos(), x.Trace, "a redirect for response type token does not use the fragment only")
			case "code":
				es = l.Query
				j.ob(l.HasQuery && !l.HasFrag, "component", w, x.pos(), x.Trace, "a redirect for response type code does not use the query only")
			default:
				j.ob(false, "component", w, x.pos(), x.Trace, "a redirect is written for an unknown response type")
			}
			ps, prob := entryMap(es)
			j.ob(prob == "", "parameters", w, x.pos(), x.Trace, "%s", prob)
			st := x.form("state")
			got := ps["state"]
			if got != nil {
				j.ob(x.St.same(got, st) && x.isEmpty(st) != yes, "state", w, x.pos(), x.Trace, "the redirect does not carry the state of the request unchanged")
				j.ob(x.isEmpty(st) == no, "no state", w, x.pos(), x.Trace, "the redirect carries a state although none may have been given")
			} else {
				j.ob(x.isEmpty(st) == yes, "state", w, x.pos(), x.Trace, "the redirect drops the state of the request")
			}
		}
		// where do generated tokens go?
		gens := map[*Term]bool{}
		for _, e := range x.Events {
			if e.Kind == "generate" {
				gens[e.Args[0]] = true
			}
		}
		secret := func(t *Term) bool {
			return t != nil && t.contains(func(y *Term) bool { return gens[y] || y.Op == "sel" && y.Name == "Key" })
		}
		for _, e := range x.Events {
			switch e.Kind {
			case "hset", "hadd":
				if e.Args[1].isStr("Location") {
					continue
				}
				j.ob(!secret(e.Args[2]), "token in header", w, e.Pos, x.Trace, "a token is written to a header")
			case "body":
				if e.Name == "raw" && x.resp.JSONVal == nil {
					j.ob(!secret(e.Args[1]), "token in text", w, e.Pos, x.Trace, "a token is written to a text body")
				}
			}
		}
		for n := range x.resp.JSON {
			if secret(x.resp.field(n)) {
				j.class("token in body")
				j.ob(n == "access_token" || n == "refresh_token", "body field", w+" "+n, x.pos(), x.Trace, "a token is delivered as %s in a body", n)
			}
		}
		if l := x.resp.Loc; l != nil {
			for _, e := range l.Frag {
				n, _ := e.Args[0].str()
				if secret(e.Args[1]) {
					j.class("token in fragment")
					j.ob(n == "access_token", "fragment parameter", w+" "+n, x.pos(), x.Trace, "a token is delivered as %q in a fragment", n)
				}
			}
			for _, e := range l.Query {
				n, _ := e.Args[0].str()
				if secret(e.Args[1]) {
					j.class("code in query")
					j.ob(n == "code" && len(x.sets("AccessTokens", "RefreshTokens")) == 0, "query parameter", w+" "+n, x.pos(), x.Trace, "a token is delivered as %q in a query", n)
				}
			}
			j.ob(!secret(l.Base), "base", w, x.pos(), x.Trace, "a token is part of the redirect target")
		}
	}
	j.require("redirect for token", "redirect for code", "token in body", "token in fragment", "code in query")
}
