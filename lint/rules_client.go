package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// limited tells whether a reader yields at most limit bytes of the body.
func limited(r, body *Term, limit func(*Term) bool) bool {
	for r != nil && (r.Op == "iface" || r.Op == "ptr") {
		r = r.Args[0]
	}
	switch {
	case r == nil:
	case r.isCall("io.LimitReader"):
		return unface(r.Args[0]) == body && limit(r.Args[1])
	case r.isCall("net/http.MaxBytesReader"):
		return unface(r.Args[1]) == body && limit(r.Args[2])
	case r.isCall("bufio.NewReader"), r.isCall("io.NopCloser"), r.isCall("io/ioutil.NopCloser"):
		return limited(r.Args[0], body, limit)
	}
	return false
}

// strayBody finds a use of the body other than through a limited reader.
func strayBody(t, body *Term, limit func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if t == body {
		return true
	}
	if limited(t, body, limit) {
		return false
	}
	for _, a := range t.Args {
		if strayBody(a, body, limit) {
			return true
		}
	}
	return false
}

func exactly(limit *Term) func(*Term) bool {
	return func(t *Term) bool { return t == limit }
}

// clientMethod is a method of the client, called on what a constructor makes
// of a configuration and an HTTP client.
type clientMethod struct {
	ctor    string
	f       *ssa.Function
	cfg, hc *Term
	req     *Term
	traces  []*Trace
}

func (j *J) clients(short string) []*clientMethod {
	f, ps := j.anchor(short)
	if f == nil {
		return nil
	}
	var out []*clientMethod
	for _, n := range []string{"NewClient", "NewClientWithClient"} {
		c, cs := j.anchor(n)
		if c == nil {
			continue
		}
		m := &clientMethod{ctor: n, f: f, cfg: cs[0], req: ps[1]}
		if len(cs) > 1 {
			m.hc = cs[1]
		}
		m.traces = j.composed(c, f, cs, ps[1:], j.buildAtomic(), n+" > "+short)
		out = append(out, m)
	}
	return out
}

// endpoint is the address that is configured for an endpoint.
func (m *clientMethod) endpoint(name string) *Term {
	return mkConcat([]*Term{sel(m.cfg, "BaseURI"), sel(m.cfg, name)})
}

// limit tells whether a path knows a limit to be the configured one, or the
// default for an unset one.
func (m *clientMethod) limit(j *J, x *Tr, l *Term) bool {
	old := sel(m.cfg, "ResponseLimit")
	where := m.ctor + " " + fnShort(m.f)
	if n, ok := l.intVal(); ok {
		j.class("default limit " + where)
		return n > 0 && (x.eq(old, mkInt(0)) == yes || x.tri(mkLt(old, mkInt(1))) == yes || x.tri(mkLt(old, mkInt(0))) == yes)
	}
	j.class("given limit " + where)
	return l == old && (x.eq(old, mkInt(0)) == no || x.tri(mkLt(mkInt(0), old)) == yes)
}

// reply describes how a path treats a reply.
type reply struct {
	x           *Tr
	res         *Term
	where       string
	pos         token.Pos
	data        *Term // whole body within the limit, if read
	readOK      int
	oauth       *Term // decoded error
	oauthOK     int
	oauthNamed  int
	status      *Term
	statusLine  *Term
	contentJSON int
}

func (j *J) reply(x *Tr, where string, res *Term, limit func(*Term) bool) *reply {
	r := &reply{x: x, res: res, where: where, pos: x.pos(), status: sel(res, "StatusCode"), statusLine: sel(res, "Status")}
	body := sel(res, "Body")
	var walk func(es []*Event, loop bool)
	walk = func(es []*Event, loop bool) {
		for _, e := range es {
			switch e.Kind {
			case "load", "safe", "maypanic", "do", "deferpush":
				continue
			case "loop":
				for _, b := range e.Loop.Backs {
					walk(b.Events, true)
				}
				continue
			case "close":
				continue
			}
			for _, a := range e.Args {
				j.ob(!strayBody(a, body, limit), "within limit", where, e.Pos, x.Trace, "the reply body is used other than through a reader limited to the configured size")
			}
			if e.Kind == "read" {
				j.ob(limited(e.Args[0], body, limit), "within limit", where, e.Pos, x.Trace, "the reply body is read without the configured limit")
				j.ob(!loop, "read once", where, e.Pos, x.Trace, "the limited body is read in a loop")
				if e.Name == "all" && limited(e.Args[0], body, limit) {
					if j.ob(r.data == nil, "read once", where+" again", e.Pos, x.Trace, "the body is read twice") {
						r.data = mkRet(e.Args[1], 0, nil)
						r.readOK = x.eq(mkRet(e.Args[1], 1, nil), tNil)
					}
				}
			}
		}
	}
	walk(x.Events, false)
	for _, f := range x.Facts {
		j.ob(!strayBody(f.T, body, limit) || f.T.Op == "eq" && f.T.Args[0] == body && f.T.Args[1].isNil(), "within limit", where, r.pos, x.Trace, "a decision depends on the unlimited body")
	}
	if r.data != nil {
		n := modPath + ".Error"
		r.oauthOK = x.eq(mk("call", "encoding/json.Unmarshal", nil, r.data, mkStr(n)), tNil)
		r.oauth = mk("decoded", n, nil, r.data)
		r.oauthNamed = neg(x.isEmpty(sel(r.oauth, "Name")))
	}
	ct := mk("call", "mime.ParseMediaType", nil, mk("call", "(net/http.Header).Get", nil, sel(res, "Header"), mkStr("Content-Type")))
	r.contentJSON = and(x.eq(mkRet(ct, 2, nil), tNil), x.eq(mkRet(ct, 0, nil), mkStr("application/json")))
	return r
}

// failure checks the error for a reply with another status than 200.
func (j *J) replyError(r *reply, err *Term) {
	x := r.x
	j.ob(x.eq(err, tNil) == no, "error", r.where, r.pos, x.Trace, "a reply with another status than 200 is not reported as an error")
	v := x.St.snapshot(err, 0)
	for v != nil && (v.Op == "iface" || v.Op == "ptr") {
		v = v.Args[0]
	}
	isOAuth := v != nil && (v.Op == "struct" || v.Op == "decoded") && v.T != nil && types.TypeString(v.T, nil) == modPath+".Error"
	named := no
	if r.data == nil {
		named = unknown
	} else if r.readOK != no {
		named = and(r.oauthOK, r.oauthNamed)
	} else if r.oauthOK == yes {
		named = r.oauthNamed
	}
	if isOAuth {
		j.class("OAuth2 error " + r.where)
		j.ob(named == yes, "error source", r.where, r.pos, x.Trace, "an OAuth2 error is returned that the reply is not known to name")
		j.ob(structField(v, "Status") == r.status, "error status", r.where, r.pos, x.Trace, "the OAuth2 error does not carry the status of the reply")
		for _, c := range reprTables["Error"] {
			f := structField(v, c.field)
			j.ob(f == sel(r.oauth, c.field), "error fields", r.where+" "+c.field, r.pos, x.Trace, "the OAuth2 error does not carry the %s of the reply", c.field)
		}
		return
	}
	j.class("other error " + r.where)
	j.ob(named == no, "error source", r.where+" other", r.pos, x.Trace, "the OAuth2 error named by the reply may not be returned")
	j.ob(mentions(v, r.statusLine) || mentions(v, r.status), "error names status", r.where, r.pos, x.Trace, "the error does not name the HTTP status")
}

// document checks an accepted document.
func (j *J) document(r *reply, result *Term) {
	x := r.x
	j.class("document " + r.where)
	if !j.ob(r.data != nil && r.readOK == yes, "complete", r.where, r.pos, x.Trace, "a result is returned although the body is not known to be read completely") {
		return
	}
	j.ob(r.contentJSON == yes, "content type", r.where, r.pos, x.Trace, "a result is returned although the reply is not known to declare a JSON document")
	v := x.St.snapshot(result, 0)
	for v != nil && (v.Op == "iface" || v.Op == "ptr") {
		v = v.Args[0]
	}
	if !j.ob(v != nil && v.T != nil && !v.isNil(), "result", r.where, r.pos, x.Trace, "no result is returned without an error") {
		return
	}
	n := types.TypeString(v.T, nil)
	j.ob(v == mk("decoded", n, nil, r.data), "decoded", r.where, r.pos, x.Trace, "the result is not the decoded document")
	j.ob(x.eq(mk("call", "encoding/json.Unmarshal", nil, r.data, mkStr(n)), tNil) == yes, "decodes", r.where, r.pos, x.Trace, "a result is returned although the document is not known to decode")
}

// C25: replies.
func ruleC25(j *J) {
	j.expl = "every path of the client methods and of the reply parsers: the body is only read through a reader limited to the configured size and closed on every path that received a reply; success requires status 200 and, for documents, a complete read, a JSON content type and successful decoding of the whole data, whose decoded value is the result; any other path returns an error and no result, for other statuses the OAuth2 error named by the body with the reply's status or else an error that mentions the status; this is decided for the methods on what either constructor returns, where the limit is the one of the given configuration, or a positive constant only if that is unset"
	for _, short := range []string{"(*Client).Authenticate", "(*Client).Introspect", "(*Client).Revoke"} {
		for _, m := range j.clients(short) {
			for _, t := range m.traces {
				if t.End != "return" {
					continue
				}
				n := len(t.Results)
				for _, x := range newTr(j.c, t, nil, nil, nil).split(mkEq(t.Results[n-1], tNil)) {
					j.clientPath(x, short, m)
				}
			}
			j.require("default limit "+m.ctor+" "+short, "given limit "+m.ctor+" "+short)
		}
		j.require("exchange "+short, "failed exchange "+short, "success "+short, "rejected "+short, "OAuth2 error "+short, "other error "+short)
		if short != "(*Client).Revoke" {
			j.require("document " + short)
		}
	}
	for _, short := range []string{"ParseTokenResponse", "ParseIntrospectionResponse"} {
		f, ps := j.anchor(short)
		if f == nil {
			continue
		}
		for _, t := range j.traces(short, nil) {
			if t.End != "return" {
				continue
			}
			for _, x := range newTr(j.c, t, nil, nil, nil).split(mkEq(t.Results[1], tNil)) {
				r := j.reply(x, short, ps[0], exactly(ps[1]))
				if x.eq(t.Results[1], tNil) == yes {
					j.document(r, t.Results[0])
				} else {
					j.class("rejected " + short)
					j.ob(t.Results[0].isNil(), "no result", short, f.Pos(), t, "a result is returned together with an error")
				}
			}
		}
		j.require("document "+short, "rejected "+short)
	}
	if f, ps := j.anchor("ParseRequestError"); f != nil {
		for _, t := range j.traces("ParseRequestError", nil) {
			if t.End != "return" {
				continue
			}
			j.replyError(j.reply(newTr(j.c, t, nil, nil, nil), "ParseRequestError", ps[0], exactly(ps[1])), t.Results[0])
		}
		j.require("OAuth2 error ParseRequestError", "other error ParseRequestError")
	}
}

func (j *J) clientPath(x *Tr, short string, m *clientMethod) {
	f := m.f
	t := x.Trace
	n := len(t.Results)
	err := t.Results[n-1]
	failed := x.eq(err, tNil) != yes
	if failed && n == 2 {
		j.ob(t.Results[0].isNil(), "no result", short, f.Pos(), t, "a result is returned together with an error")
	}
	do, cnt := sentOnce(x)
	if cnt == 0 {
		j.ob(failed, "exchange", short, f.Pos(), t, "success is reported without any exchange")
		return
	}
	if !j.ob(cnt == 1, "one exchange", short, do.Pos, t, "several exchanges take place") {
		return
	}
	res, derr := mkRet(do.Args[0], 0, nil), mkRet(do.Args[0], 1, nil)
	switch x.eq(derr, tNil) {
	case no:
		j.class("failed exchange " + short)
		j.ob(failed, "failed exchange", short, do.Pos, t, "a failed exchange is reported as success")
		return
	case unknown:
		j.ob(false, "checked", short, do.Pos, t, "the reply is used although the exchange may have failed")
		return
	}
	j.class("exchange " + short)
	closed := 0
	for _, e := range x.Events {
		if e.Kind == "close" && unface(e.Args[0]) == sel(res, "Body") {
			closed++
		}
	}
	j.ob(closed > 0, "closed", short, do.Pos, t, "the reply body is not closed")
	r := j.reply(x, short, res, func(l *Term) bool { return m.limit(j, x, l) })
	ok := x.eq(r.status, mkInt(200))
	if ok != yes {
		j.class("rejected " + short)
		j.ob(ok == no, "status", short, do.Pos, t, "the status of the reply is not known")
		if j.ob(failed, "status", short+" success", do.Pos, t, "a reply with another status than 200 is reported as success") {
			j.replyError(r, err)
		}
		return
	}
	if failed {
		return
	}
	j.class("success " + short)
	if n == 2 {
		j.document(r, t.Results[0])
	}
}

// C40: nothing but the specified reasons makes a call of the client fail.
func ruleC40(j *J) {
	j.expl = "every failing path of the client methods, request builders and reply parsers, a failing builder must have seen the construction of the request (its address) fail, a failing parser the read, the content type or the decoding fail, and a failing client method one of these, the exchange itself or a status other than 200; each client method sends at most one request, and exactly one unless it could not be built"
	for _, k := range []struct{ method, endpoint, build, parse string }{
		{"(*Client).Authenticate", "TokenEndpoint", "BuildTokenRequest", "ParseTokenResponse"},
		{"(*Client).Introspect", "IntrospectionEndpoint", "BuildIntrospectionRequest", "ParseIntrospectionResponse"},
		{"(*Client).Revoke", "RevocationEndpoint", "BuildRevocationRequest", ""}} {
		if f, ps := j.anchor(k.build); f != nil {
			addr := paramOf(ps, "string")
			for _, t := range j.traces(k.build, nil) {
				if !j.ob(t.End == "return", "returns", k.build, f.Pos(), t, "%s may not return", k.build) {
					continue
				}
				for _, x := range newTr(j.c, t, nil, nil, nil).split(mkEq(t.Results[1], tNil)) {
					if x.eq(t.Results[1], tNil) == yes {
						j.class("built by " + k.build)
						continue
					}
					j.class("refused by " + k.build)
					j.ob(buildFailed(x, addr), "refusal", k.build, f.Pos(), t, "a request is refused although its address is not known to be malformed")
				}
			}
			j.require("built by "+k.build, "refused by "+k.build)
		}
		if k.parse != "" {
			f, ps := j.anchor(k.parse)
			if f == nil {
				continue
			}
			for _, t := range j.traces(k.parse, nil) {
				if !j.ob(t.End == "return", "returns", k.parse, f.Pos(), t, "%s may not return", k.parse) {
					continue
				}
				for _, x := range newTr(j.c, t, nil, nil, nil).split(mkEq(t.Results[1], tNil)) {
					if x.eq(t.Results[1], tNil) == yes {
						j.class("accepted by " + k.parse)
						continue
					}
					j.class("refused by " + k.parse)
					j.ob(j.reply(x, k.parse, ps[0], exactly(ps[1])).defect(modPath+"."+k.parse[len("Parse"):]), "refusal", k.parse, f.Pos(), t, "a reply is refused although it is not known to be unreadable, not JSON or not to decode")
				}
			}
			j.require("accepted by "+k.parse, "refused by "+k.parse)
		}
		for _, m := range j.clients(k.method) {
			for _, t := range m.traces {
				if !j.ob(t.End == "return", "returns", k.method, m.f.Pos(), t, "%s may not return", k.method) {
					continue
				}
				err := t.Results[len(t.Results)-1]
				for _, x := range newTr(j.c, t, nil, nil, nil).split(mkEq(err, tNil)) {
					do, cnt := sentOnce(x)
					failed := x.eq(err, tNil) != yes
					if cnt == 0 {
						j.class("unsent " + k.method)
						j.ob(failed && buildFailed(x, m.endpoint(k.endpoint)), "unsent", k.method, m.f.Pos(), t, "no request is sent although its address is not known to be malformed")
						continue
					}
					if !j.ob(cnt == 1, "one exchange", k.method, do.Pos, t, "several exchanges take place") || !failed {
						continue
					}
					res, derr := mkRet(do.Args[0], 0, nil), mkRet(do.Args[0], 1, nil)
					if x.eq(derr, tNil) == no {
						j.class("failed exchange " + k.method)
						continue
					}
					status := x.eq(sel(res, "StatusCode"), mkInt(200))
					if status == no {
						j.class("other status " + k.method)
						continue
					}
					j.class("refused " + k.method)
					ok := k.parse != "" && j.reply(x, k.method, res, func(l *Term) bool { return m.limit(j, x, l) }).defect(modPath+"."+k.parse[len("Parse"):])
					j.ob(ok, "refusal", k.method, m.f.Pos(), t, "a successful reply is reported as an error although it is not known to be unreadable, not JSON or not to decode")
				}
			}
		}
		j.require("unsent "+k.method, "failed exchange "+k.method, "other status "+k.method)
		if k.parse != "" {
			j.require("refused " + k.method)
		}
	}
}

// sentOnce returns the exchange of a path and how many there may be.
func sentOnce(x *Tr) (do *Event, n int) {
	var count func(es []*Event, k int)
	count = func(es []*Event, k int) {
		for _, e := range es {
			if e.Kind == "do" {
				do = e
				n += k
			}
			if e.Loop != nil {
				for _, b := range e.Loop.Backs {
					count(b.Events, 2)
				}
			}
		}
	}
	count(x.Events, 1)
	return
}

// buildFailed tells whether a path knows that no request can be built for an address.
func buildFailed(x *Tr, addr *Term) bool {
	found := false
	for _, f := range x.Facts {
		f.T.walk(func(t *Term) {
			if t.Op != "ret" || t.Name != "1" || x.eq(t, tNil) != no {
				return
			}
			switch c := t.Args[0]; {
			case c.isCall("net/http.NewRequest"), c.isCall("net/http.NewRequestWithContext"):
				found = found || len(c.Args) > 1 && c.Args[1] == addr
			case c.isCall("net/url.Parse"):
				found = found || c.Args[0] == addr
			case c.isCall(modPath + ".BuildTokenRequest"), c.isCall(modPath + ".BuildIntrospectionRequest"), c.isCall(modPath + ".BuildRevocationRequest"):
				found = found || c.Args[0] == addr
			}
		})
	}
	return found
}

// defect tells whether a path knows a reply to be no complete JSON document of the named type.
func (r *reply) defect(typ string) bool {
	if r.contentJSON == no || r.data != nil && r.readOK == no {
		return true
	}
	return r.data != nil && r.x.eq(mk("call", "encoding/json.Unmarshal", nil, r.data, mkStr(typ)), tNil) == no
}
