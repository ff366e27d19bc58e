package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"regexp"
	"strconv"
	"strings"
)

type errKind struct {
	status int64
	name   string
	descr  bool
}

var errTable = map[string]errKind{
	"InvalidRequest": {400, "invalid_request", true}, "InvalidClient": {401, "invalid_client", true}, "InvalidGrant": {400, "invalid_grant", true},
	"InvalidScope": {400, "invalid_scope", true}, "InvalidToken": {401, "invalid_token", true}, "UnauthorizedClient": {400, "unauthorized_client", true},
	"UnsupportedGrantType": {400, "unsupported_grant_type", true}, "UnsupportedResponseType": {400, "unsupported_response_type", true},
	"UnsupportedTokenType": {400, "unsupported_token_type", true}, "ProtectedResource": {401, "", false}, "InsufficientScope": {403, "insufficient_scope", false},
	"AccessDenied": {403, "access_denied", true}, "ServerError": {500, "server_error", true}, "TemporarilyUnavailable": {503, "temporarily_unavailable", true},
}

const tErr = "error"

// errorCase tells whether the error given to a writer is an OAuth2 error and
// returns that error.
func (x *Tr) errorCase(err *Term) (*Term, int) {
	name := "*" + modPath + ".Error"
	res := unknown
	var as *Term
	for _, f := range x.Facts {
		f.T.walk(func(n *Term) {
			if n.Op == "as" && n.Args[0] == err {
				as = n
			}
		})
		if f.T.Op == "typeis" && f.T.Name == name && f.T.Args[0] == err {
			res = pol(f.Pol)
		}
		if f.T.isCall("errors.As") && f.T.Args[0] == err {
			res = pol(f.Pol)
		}
	}
	if as == nil {
		as = mk("as", name, nil, err)
	}
	return as, res
}

func mentions(t, what *Term) bool {
	return t != nil && t.contains(func(n *Term) bool { return n == what })
}

// C24: errors.
func ruleC24(j *J) {
	j.expl = "every path of each error constructor returns a newly allocated error with the code, status, description and headers of the table of its specification and all other fields unset; every path of WriteError and WriteBearerError sends, for OAuth2 errors, exactly the status, headers and parameters of that error, and for all others a bare 500 none of whose parts depends on the error"
	for _, n := range sortedKeys(errTable) {
		j.anchor(n)
	}
	for _, f := range j.c.in.allFuncs() {
		if f.Pkg != j.c.root || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 ||
			types.TypeString(f.Signature.Results().At(0).Type(), nil) != "*"+modPath+".Error" {
			continue
		}
		n := f.Name()
		want, ok := errTable[n]
		ps := paramsOf(f)
		for _, t := range j.tracesOf(f, ps, nil, n) {
			if !j.ob(t.End == "return", "returns", n, f.Pos(), t, "the constructor may not return") {
				continue
			}
			j.class("constructor " + n)
			r := t.Results[0]
			j.ob(t.St.fresh[r], "new error", n, f.Pos(), t, "%s does not return a new error", n)
			v := snap(t, 0)
			fl := func(s string) *Term { return structField(v, s) }
			st, isInt := fl("Status").intVal()
			if !ok {
				j.ob(isInt && st >= 400 && st < 600, "status", n, f.Pos(), t, "%s has no error status", n)
				continue
			}
			j.ob(isInt && st == want.status, "status", n, f.Pos(), t, "%s does not have status %d", n, want.status)
			j.ob(fl("Name").isStr(want.name), "code", n, f.Pos(), t, "%s does not have code %q", n, want.name)
			if want.descr {
				j.ob(len(ps) > 0 && fl("Description") == ps[0], "description", n, f.Pos(), t, "%s does not carry the given description", n)
			} else {
				j.ob(fl("Description").isStr(""), "description", n, f.Pos(), t, "%s carries a description", n)
			}
			if n == "InsufficientScope" {
				j.ob(len(ps) > 0 && fl("Scope") == ps[0], "scope", n, f.Pos(), t, "%s does not carry the necessary scope", n)
			} else {
				j.ob(t.St.lenOf(fl("Scope")).isInt(0), "other fields", n+" Scope", f.Pos(), t, "%s carries a scope", n)
			}
			for _, s := range []string{"State", "URI", "RedirectURI"} {
				j.ob(fl(s).isStr(""), "other fields", n+" "+s, f.Pos(), t, "%s carries a %s", n, s)
			}
			_, isConst := fl("Realm").str()
			j.ob(isConst, "other fields", n+" Realm", f.Pos(), t, "%s carries a realm that is not constant", n)
			j.ob(fl("UseFragment") == tFalse, "other fields", n+" UseFragment", f.Pos(), t, "%s is marked to use the fragment", n)
			h := map[string]*Term{}
			hs := fl("Headers")
			known := hs.isNil()
			if !known {
				h, known = mapEntries(hs)
			}
			challenge := false
			for k, hv := range h {
				s, ok := hv.str()
				if textproto.CanonicalMIMEHeaderKey(k) == "Www-Authenticate" {
					challenge = ok && basicChallenge.MatchString(s)
				}
				if !ok {
					known = false
				}
			}
			j.ob(known, "headers", n, f.Pos(), t, "the headers of %s are not constant", n)
			if n == "InvalidClient" {
				j.ob(challenge, "challenge", n, f.Pos(), t, "%s does not carry a basic authentication challenge", n)
			} else {
				j.ob(len(h) == 0, "headers", n+" none", f.Pos(), t, "%s carries headers", n)
			}
		}
		if ok {
			j.require("constructor " + n)
		}
	}
	j.writeError()
	j.writeBearerError()
}

func (j *J) writeError() {
	f, ps := j.anchor("WriteError")
	if f == nil {
		return
	}
	w, err := paramOf(ps, tW), paramOf(ps, tErr)
	for _, t := range j.traces("WriteError", nil) {
		if t.End != "return" {
			continue
		}
		x := newTr(j.c, t, nil, w, nil)
		p, pos := x.resp, x.pos()
		e, known := x.errorCase(err)
		switch known {
		case yes:
		case no:
			j.class("WriteError unknown error")
			j.bare(x, "WriteError", err)
			if p.JSON != nil {
				v := p.field("error")
				j.ob(v.isStr("server_error"), "fallback code", "WriteError", pos, t, "an unknown error is not reported as server_error")
				for n := range p.JSON {
					fv := p.field(n)
					_, c := fv.str()
					j.ob(c || fv.isNil() || fv != nil && t.St.lenOf(fv).isInt(0), "fallback", "WriteError "+n, pos, t, "the fallback for unknown errors carries a %s that is not constant", n)
				}
			}
			continue
		default:
			j.ob(false, "error kind", "WriteError", pos, t, "it is not determined whether the error is an OAuth2 error")
			continue
		}
		red := x.isEmpty(sel(e, "RedirectURI"))
		if !j.ob(red != unknown, "redirect condition", "WriteError", pos, t, "the redirect does not depend on whether the error has a redirect URI") {
			continue
		}
		bad := red == no && x.eq(retOf("net/url.ParseRequestURI", 1, sel(e, "RedirectURI")), tNil) == no
		if bad {
			j.class("WriteError malformed redirect")
			j.ob(p.First < 0 && x.eq(t.Results[0], tNil) == no, "malformed redirect", "WriteError", pos, t, "an error with a malformed redirect URI is written or not reported")
			continue
		}
		// headers
		hs := sel(e, "Headers")
		none := x.eq(hs, tNil) == yes || x.eq(mkLen(hs), mkInt(0)) == yes
		all := false
		for _, le := range x.Events {
			if le.Kind != "loop" || !le.Loop.does("hset", "hadd") || !x.walks(le.Loop, hs) {
				continue
			}
			l := le.Loop
			all = true
			for _, b := range l.Backs {
				n := 0
				for _, ev := range b.Events {
					if (ev.Kind == "hset" || ev.Kind == "hadd") && ev.Args[0] == w {
						n++
						k := ev.Args[1]
						for k.isCall("net/textproto.CanonicalMIMEHeaderKey") || k.isCall("net/http.CanonicalHeaderKey") {
							k = k.Args[0]
						}
						j.ob(x.entryOf(l, k, ev.Args[2], hs), "headers", "WriteError value", ev.Pos, t, "a header is not sent as recorded in the error")
					}
				}
				j.ob(n == 1, "headers", "WriteError each", l.Pos, t, "a header of the error may not be sent")
			}
		}
		j.ob(all || none, "headers", "WriteError all", pos, t, "not all headers of the error are sent")
		if red == yes {
			j.class("WriteError direct")
			j.ob(p.Code == sel(e, "Status"), "status", "WriteError", pos, t, "the error is not sent with its status")
			v := p.JSONVal
			for v != nil && (v.Op == "iface" || v.Op == "ptr") {
				v = v.Args[0]
			}
			j.ob(v == e || v == sel(e, "*"), "representation", "WriteError", pos, t, "the error itself is not what is sent")
			j.ob(p.Loc == nil && p.Hdr["Location"] == nil, "direct", "WriteError", pos, t, "an error without a redirect URI is redirected")
			continue
		}
		j.class("WriteError redirect")
		l := p.Loc
		if !j.ob(l != nil && l.Problem == "" && l.Base == sel(e, "RedirectURI") && l.Retained && p.Code != nil && isRedirect(p.Code), "redirect", "WriteError", pos, t, "the error is not redirected to its redirect URI") {
			continue
		}
		var es []*Term
		switch x.tri(sel(e, "UseFragment")) {
		case yes:
			es = l.Frag
			j.ob(!l.HasQuery, "component", "WriteError fragment", pos, t, "the parameters are put into the query")
		case no:
			es = l.Query
			j.ob(!l.HasFrag, "component", "WriteError query", pos, t, "the parameters are put into the fragment")
		default:
			j.ob(false, "component", "WriteError", pos, t, "the component does not depend on the error")
			continue
		}
		got, prob := entryMap(es)
		j.ob(prob == "", "parameters", "WriteError", pos, t, "%s", prob)
		j.reprEntries(x, "WriteError", reprTables["Error"], got, e)
	}
	j.require("WriteError unknown error", "WriteError direct", "WriteError redirect", "WriteError malformed redirect")
}

// bare checks the response to an error that is not an OAuth2 error.
func (j *J) bare(x *Tr, where string, err *Term) {
	p, pos := x.resp, x.pos()
	j.ob(p.Code.isInt(500), "fallback status", where, pos, x.Trace, "an error that is not an OAuth2 error is not sent with status 500")
	j.ob(p.Loc == nil && p.Hdr["Location"] == nil, "fallback", where+" redirect", pos, x.Trace, "an error that is not an OAuth2 error is redirected")
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, e := range es {
			switch e.Kind {
			case "hset", "hadd", "status", "body", "wescape":
				for _, a := range e.Args {
					a = x.St.snapshot(a, 0)
					j.ob(!mentions(a, err), "leak", where, e.Pos, x.Trace, "a part of an error that is not an OAuth2 error is sent")
				}
			case "loop":
				for _, b := range e.Loop.Backs {
					walk(b.Events)
				}
			}
		}
	}
	walk(x.Events)
}

var basicChallenge = regexp.MustCompile(`^(?i:basic) +realm="[^"\\\\]*"( *, *charset="(?i:utf-8)")?$`)

var challengeParam = regexp.MustCompile(`^([a-z_]+)="(\x00(\d+)\x00|[^"\x00]*)"$`)

// challengeText renders a term as text in which \x00n\x00 stands for the n-th
// unknown part.
func challengeText(t *Term, holes *[]*Term) string {
	if s, ok := t.str(); ok {
		return s
	}
	switch {
	case t.Op == "concat":
		s := ""
		for _, a := range t.Args {
			s += challengeText(a, holes)
		}
		return s
	case t.isCall("strings.Join") && t.Args[0].Op == "list":
		sep, ok := t.Args[1].str()
		if ok {
			var l []string
			for _, a := range t.Args[0].Args {
				l = append(l, challengeText(a, holes))
			}
			return strings.Join(l, sep)
		}
	}
	*holes = append(*holes, t)
	return fmt.Sprintf("\x00%d\x00", len(*holes)-1)
}

// challenge parses a bearer challenge.
func challenge(t *Term) (map[string]*Term, bool) {
	var holes []*Term
	s := challengeText(t, &holes)
	if !strings.HasPrefix(strings.ToLower(s), "bearer ") {
		return nil, false
	}
	m := map[string]*Term{}
	for _, p := range strings.Split(s[7:], ",") {
		g := challengeParam.FindStringSubmatch(strings.TrimSpace(p))
		if g == nil || m[g[1]] != nil {
			return nil, false
		}
		if g[3] != "" {
			n, _ := strconv.Atoi(g[3])
			m[g[1]] = holes[n]
		} else {
			m[g[1]] = mkStr(g[2])
		}
	}
	return m, true
}

func (j *J) writeBearerError() {
	f, ps := j.anchor("WriteBearerError")
	if f == nil {
		return
	}
	w, err := paramOf(ps, tW), paramOf(ps, tErr)
	for _, t := range j.traces("WriteBearerError", nil) {
		if t.End != "return" {
			continue
		}
		x := newTr(j.c, t, nil, w, nil)
		p, pos := x.resp, x.pos()
		e, known := x.errorCase(err)
		if known == no {
			j.class("WriteBearerError unknown error")
			j.bare(x, "WriteBearerError", err)
			j.ob(p.Hdr["Www-Authenticate"] == nil && p.Raw == nil && p.JSONVal == nil, "fallback", "WriteBearerError", pos, t, "the response to an unknown error is not bare")
			continue
		}
		if !j.ob(known == yes, "error kind", "WriteBearerError", pos, t, "it is not determined whether the error is an OAuth2 error") {
			continue
		}
		st := sel(e, "Status")
		j.ob(p.Code != nil && (p.Code == st || x.eq(st, p.Code) == yes), "status", "WriteBearerError", pos, t, "the error is not sent with its status")
		j.ob(p.Loc == nil && p.Raw == nil && p.JSONVal == nil, "bare", "WriteBearerError", pos, t, "a bearer error is sent with a body or redirect")
		h := p.Hdr["Www-Authenticate"]
		if h == nil {
			j.class("WriteBearerError server error")
			j.ob(x.eq(st, mkInt(500)) == yes, "challenge", "WriteBearerError missing", pos, t, "a bearer error is sent without a challenge")
			continue
		}
		m, ok := challenge(h)
		if !j.ob(ok, "challenge", "WriteBearerError form", pos, t, "the challenge is not a list of bearer parameters") {
			continue
		}
		none := true
		for _, c := range reprTables["Error"] {
			v := sel(e, c.field)
			empty := x.isEmpty(v)
			if c.kind == "scope" {
				empty = x.scopeBlank(v)
				if m[c.param] != nil && x.scopeEmpty(v) == no {
					empty = no
				}
			}
			if empty != yes {
				none = false
			}
		}
		if none {
			j.class("WriteBearerError bare challenge")
			_, c := m["realm"].str()
			j.ob(len(m) == 1 && m["realm"] != nil && c, "realm", "WriteBearerError", pos, t, "a challenge without parameters does not name a realm")
			continue
		}
		j.class("WriteBearerError challenge")
		table := append([]reprField{}, reprTables["Error"]...)
		for i := range table {
			table[i].required = false
		}
		if r := m["realm"]; r != nil && r.isConst() {
			delete(m, "realm") // a default realm may be added
			for i, c := range table {
				if c.param == "realm" {
					table = append(table[:i:i], table[i+1:]...)
					break
				}
			}
		}
		j.reprEntries(x, "WriteBearerError", table, m, e)
	}
	j.require("WriteBearerError unknown error", "WriteBearerError server error", "WriteBearerError challenge", "WriteBearerError bare challenge")
}

var _ = token.NoPos
