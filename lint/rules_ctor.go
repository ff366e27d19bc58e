package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ctorTables lists what the fields of a constructed value hold: "$n" is the
// n-th parameter, "=s" a text, "#n" a number, ">=n" a number of at least n,
// "{}" a new empty map. All other fields are empty.
var ctorTables = map[string]map[string]string{
	"NewTokenResponse":         {"TokenType": "$0", "AccessToken": "$1", "ExpiresIn": "$2"},
	"NewBearerTokenResponse":   {"TokenType": "=bearer", "AccessToken": "$0", "ExpiresIn": "$1"},
	"NewCodeResponse":          {"Code": "$0", "RedirectURI": "$1", "State": "$2"},
	"NewIntrospectionResponse": {"Active": "$0", "Scope": "$1", "ClientID": "$2", "Username": "$3", "TokenType": "$4"},
	"NewServer":                {"Config": "$0", "Clients": "{}", "Users": "{}", "AccessTokens": "{}", "RefreshTokens": "{}", "AuthorizationCodes": "{}", "Mutex": "zero"},
	"DefaultServerConfig": {"Secret": "$0", "AllowedScope": "$1", "KeyLength": ">=16", "AccessTokenLifespan": "#" + strconv.Itoa(int(time.Hour)),
		"RefreshTokenLifespan": "#" + strconv.Itoa(int(7*24*time.Hour)), "AuthorizationCodeLifespan": "#" + strconv.Itoa(int(10*time.Minute))},
	"Default": {"BaseURI": "$0", "TokenEndpoint": "=/oauth2/token", "IntrospectionEndpoint": "=/oauth2/introspect", "RevocationEndpoint": "=/oauth2/revoke", "ResponseLimit": ">=0"},
}

var setTables = map[string]map[string]string{
	"(*Error).SetRedirect":         {"RedirectURI": "$1", "State": "$2", "UseFragment": "$3"},
	"(*TokenResponse).SetRedirect": {"RedirectURI": "$1", "State": "$2"},
}

// isZero tells whether a term is the zero value of its type.
func isZero(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "zero" || t.isNil() || t == tFalse || t.isStr("") || t.isInt(0) {
		return true
	}
	if t.Op == "struct" {
		for _, a := range t.Args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	return false
}

func fieldsOf(t types.Type) []string {
	var out []string
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// suiteDefaults holds what a default specification declares.
var suiteDefaults = map[string]string{"Handler": "$0", "TokenEndpoint": "=/oauth2/token", "AuthorizeEndpoint": "=/oauth2/authorize", "RevocationEndpoint": "=/oauth2/revoke",
	"IntrospectionEndpoint": "=/oauth2/introspect", "ProtectedResource": "=/api/protected", "ExpectedExpiresIn": "#3600"}

// holds checks a field value against a table entry.
func (x *Tr) holds(v *Term, want string, ps []*Term) bool {
	if v == nil {
		return false
	}
	switch {
	case strings.HasPrefix(want, "$"):
		n, _ := strconv.Atoi(want[1:])
		return n < len(ps) && (v == ps[n] || x.St.same(v, ps[n]) || sameStruct(v, ps[n]))
	case strings.HasPrefix(want, "="):
		return v.isStr(want[1:])
	case strings.HasPrefix(want, "#"):
		n, _ := strconv.ParseInt(want[1:], 10, 64)
		return v.isInt(n)
	case strings.HasPrefix(want, ">="):
		n, _ := strconv.ParseInt(want[2:], 10, 64)
		k, ok := v.intVal()
		return ok && k >= n
	case want == "{}":
		m, ok := mapEntries(v)
		return ok && len(m) == 0
	}
	return isZero(v)
}

// sameStruct tells whether a struct value is made of exactly the fields of another.
func sameStruct(v, p *Term) bool {
	if v.Op != "struct" {
		return false
	}
	names := fieldsOf(v.T)
	if len(names) != len(v.Args) || len(names) == 0 {
		return false
	}
	for i, n := range names {
		if v.Args[i] != sel(p, n) {
			return false
		}
	}
	return true
}

// C34: constructors.
func ruleC34(j *J) {
	j.expl = "every path of each constructor of a response, server or configuration returns a new value whose fields hold exactly the parameters and constants of the table of their meaning, all other fields being empty and the maps of a server being new and empty; likewise the default specification of the conformance suite; every exchange of the client methods, on what either constructor returns, is made by the given HTTP client (or an unchanged copy), which nothing is stored to, or by a new one without any settings; every path of the SetRedirect methods stores exactly the redirect fields of its receiver and returns it"
	for _, n := range sortedKeys(ctorTables) {
		f, ps := j.anchor(n)
		if f == nil {
			continue
		}
		table := ctorTables[n]
		for _, t := range j.traces(n, nil) {
			if !j.ob(t.End == "return", "returns", n, f.Pos(), t, "the constructor may not return") {
				continue
			}
			j.class("constructor " + n)
			x := newTr(j.c, t, nil, nil, nil)
			r := t.Results[0]
			if _, isPtr := f.Signature.Results().At(0).Type().(*types.Pointer); isPtr {
				j.ob(t.St.fresh[r], "new value", n, f.Pos(), t, "%s does not return a new value", n)
			}
			j.noStores(x, n, f, nil)
			v := snap(t, 0)
			maps := map[*Term]string{}
			for i, name := range fieldsOf(f.Signature.Results().At(0).Type()) {
				fv := structField(v, name)
				if table[name] == "{}" {
					ft := f.Signature.Results().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i).Type()
					m := t.St.load(mkFA(r, name, ft), ft)
					j.ob(t.St.fresh[m] || t.St.maps[m] != nil && !j.c.in.ginit[m], "own map", n+" "+name, f.Pos(), t, "the map %s of a value made by %s is not new", name, n)
					j.ob(maps[m] == "", "own map", n+" "+name, f.Pos(), t, "the maps %s and %s of a value made by %s are the same", maps[m], name, n)
					maps[m] = name
				}
				j.ob(x.holds(fv, table[name], ps), "field", n+" "+name, f.Pos(), t, "the field %s of a value made by %s is not as specified", name, n)
			}
		}
		j.require("constructor " + n)
	}
	j.suiteDefault()
	j.clientTransport()
	for _, n := range sortedKeys(setTables) {
		f, ps := j.anchor(n)
		if f == nil {
			continue
		}
		table := setTables[n]
		for _, t := range j.traces(n, nil) {
			if t.End != "return" {
				continue
			}
			j.class("setter " + n)
			x := newTr(j.c, t, nil, nil, nil)
			j.ob(t.Results[0] == ps[0], "same value", n, f.Pos(), t, "%s does not return its receiver", n)
			j.noStores(x, n, f, ps[0])
			st := ps[0].T.Underlying().(*types.Pointer).Elem()
			for i, name := range fieldsOf(st) {
				ft := st.Underlying().(*types.Struct).Field(i).Type()
				fv := t.St.load(mkFA(ps[0], name, ft), ft)
				if want, ok := table[name]; ok {
					j.ob(x.holds(fv, want, ps), "field", n+" "+name, f.Pos(), t, "%s does not set %s to the given value", n, name)
				} else {
					j.ob(fv == sel(ps[0], name) || x.St.same(fv, sel(ps[0], name)), "field", n+" "+name, f.Pos(), t, "%s changes %s", n, name)
				}
			}
		}
		j.require("setter " + n)
	}
}

// suiteDefault checks the default specification of the conformance suite.
func (j *J) suiteDefault() {
	const n = "oauth2test.Default"
	f := j.c.fnFull(suitePath + ".Default")
	if f == nil {
		j.ob(false, "anchor", n, token.NoPos, nil, "the function Default does not exist any more")
		return
	}
	ps := paramsOf(f)
	for _, t := range j.tracesOf(f, ps, nil, n) {
		if !j.ob(t.End == "return", "returns", n, f.Pos(), t, "the constructor may not return") {
			continue
		}
		j.class("default specification")
		x := newTr(j.c, t, nil, nil, nil)
		j.ob(t.St.fresh[t.Results[0]], "new value", n, f.Pos(), t, "%s does not return a new value", n)
		j.noStores(x, n, f, nil)
		v := snap(t, 0)
		for _, name := range fieldsOf(f.Signature.Results().At(0).Type()) {
			switch name {
			case "InvalidToken", "InvalidRedirectURI", "InvalidRefreshToken": // merely some value that no server accepts
				continue
			}
			j.ob(x.holds(structField(v, name), suiteDefaults[name], ps), "field", n+" "+name, f.Pos(), t, "the field %s of a value made by %s is not as specified", name, n)
		}
	}
	j.require("default specification")
}

// noStores checks that a path changes nothing but new values and one other.
func (j *J) noStores(x *Tr, n string, f *ssa.Function, but *Term) {
	for _, e := range x.Events {
		switch e.Kind {
		case "store", "mapset", "mapdel", "gstore":
			b := root(e.Args[0])
			if b == but || x.St.fresh[b] {
				continue
			}
			j.ob(false, "effect", n, e.Pos, x.Trace, "%s changes a value that is not its own", n)
		}
	}
}

// clientTransport checks that clients use the HTTP client they are given.
func (j *J) clientTransport() {
	for _, short := range []string{"(*Client).Authenticate", "(*Client).Introspect", "(*Client).Revoke"} {
		for _, m := range j.clients(short) {
			where := m.ctor + " > " + short
			for _, t := range m.traces {
				x := newTr(j.c, t, nil, nil, nil)
				var walk func(es []*Event)
				walk = func(es []*Event) {
					for _, e := range es {
						switch e.Kind {
						case "loop":
							for _, b := range e.Loop.Backs {
								walk(b.Events)
							}
						case "store":
							j.ob(m.hc == nil || root(e.Args[0]) != m.hc, "given client", where, e.Pos, t, "the given HTTP client is changed")
						case "do":
							j.class("exchange " + where)
							j.ob(m.sender(x, e.Args[1]), "given client", where, e.Pos, t, "a request is not sent by the given HTTP client, or by a plain one if none can be given")
						}
					}
				}
				walk(t.Events)
			}
			j.require("exchange " + where)
		}
	}
}

// sender tells whether a path knows an HTTP client to be the given one, a copy
// of it or a new plain one if none is given.
func (m *clientMethod) sender(x *Tr, c *Term) bool {
	c = unface(c)
	if m.hc != nil && (c == m.hc || x.eq(m.hc, tNil) == yes) {
		return true
	}
	if !x.St.fresh[root(c)] || derefType(c.T) == nil {
		return false
	}
	st, ok := derefType(c.T).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		f := st.Field(i)
		v := x.St.load(mkFA(c, f.Name(), f.Type()), f.Type())
		if m.hc != nil {
			ok = v == sel(m.hc, f.Name())
		} else {
			ok = v == zeroTerm(f.Type())
		}
	}
	return ok
}
