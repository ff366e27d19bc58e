package main

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// anchor resolves a function and its parameters by type.
func (j *J) anchor(short string) (*ssa.Function, []*Term) {
	f := j.c.fn(short)
	if f == nil {
		j.ob(false, "anchor", short, token.NoPos, nil, "the function %s does not exist any more", short)
		return nil, nil
	}
	return f, paramsOf(f)
}

func paramOf(ps []*Term, typ string) *Term {
	for _, p := range ps {
		if types.TypeString(p.T, nil) == typ {
			return p
		}
	}
	return nil
}

const (
	tW    = "net/http.ResponseWriter"
	tReq  = "*net/http.Request"
	tResp = "*net/http.Response"
)

// snap is the contents of a result.
func snap(t *Trace, i int) *Term {
	if i >= len(t.Results) {
		return nil
	}
	return t.St.snapshot(t.Results[i], 0)
}

// loopOver finds the iteration over a value on a path. It is complete if it
// was only left after the last element.
func (x *Tr) loopsOver(m *Term) []*LoopInfo {
	var out []*LoopInfo
	for _, e := range x.Events {
		if e.Kind == "loop" && e.Loop.Over == m {
			out = append(out, e.Loop)
		}
	}
	return out
}

// does tells whether an iteration may have one of the effects.
func (l *LoopInfo) does(kinds ...string) bool {
	for _, b := range l.Backs {
		for _, e := range b.Events {
			if slices.Contains(kinds, e.Kind) {
				return true
			}
		}
	}
	return false
}

// walks tells whether a loop visits every entry of a map, by ranging over it or
// over the list of its keys.
func (x *Tr) walks(l *LoopInfo, m *Term) bool {
	if l.Over != nil {
		return l.Over == m && l.Exhausted && len(l.Backs) > 0
	}
	return x.keyList(l, m) != nil
}

// keyList is the list of the keys of a map that a loop visits completely.
func (x *Tr) keyList(l *LoopInfo, m *Term) *iteration {
	for _, e := range x.Events {
		if e.Kind != "loop" || e.Loop.Over != m {
			continue
		}
		for _, in := range e.Loop.Init {
			if in.Var.Op != "loopvar" || x.keysOf(in.Var) != m {
				continue
			}
			if it := x.visits(l, in.Var); it != nil && (it.start == 0 || !it.forward) {
				return it
			}
		}
	}
	return nil
}

// entryOf tells whether a key and a value are those of the entry of a map that
// an iteration of the loop visits.
func (x *Tr) entryOf(l *LoopInfo, k, v, m *Term) bool {
	key := l.Over == m && k.Op == "nextkey" && k.Args[0] == m
	if !key && k.Op == "elem" {
		it := x.keyList(l, m)
		key = it != nil && k == elemAt(it.over, it.idx)
	}
	return key && (v.Op == "nextval" && v.Args[0] == m && k.Op == "nextkey" || v.Op == "lookup" && v.Args[0] == m && v.Args[1] == k)
}

// C17: redirects.
func ruleC17(j *J) {
	j.expl = "every path of WriteRedirect: a URI that does not parse yields an error and no write; otherwise the location is the parsed URI with the parameters, added in every iteration of a complete iteration over all of them, form encoded once into the fragment or (on top of the existing query) into the query as selected"
	f, ps := j.anchor("WriteRedirect")
	if f == nil {
		return
	}
	w, uri, params, frag := paramOf(ps, tW), paramOf(ps, "string"), paramOf(ps, "map[string]string"), paramOf(ps, "bool")
	for _, t := range j.traces("WriteRedirect", nil) {
		if t.End != "return" {
			continue
		}
		x := newTr(j.c, t, nil, w, nil)
		p := x.pos()
		parsed := x.eq(retOf("net/url.ParseRequestURI", 1, uri), tNil)
		if parsed == unknown {
			parsed = x.eq(retOf("net/url.Parse", 1, uri), tNil)
		}
		if parsed != yes {
			j.class("malformed URI")
			j.ob(parsed == no, "parsed", "WriteRedirect", p, t, "the redirect URI is not parsed")
			j.ob(x.eq(t.Results[0], tNil) == no, "error", "WriteRedirect", p, t, "a malformed redirect URI is not reported")
			j.ob(len(x.resp.Writes) == 0 && len(x.resp.Hdr) == 0 && len(x.resp.Escapes) == 0, "no write", "WriteRedirect", p, t, "something is written although the redirect URI is malformed")
			continue
		}
		l := x.resp.Loc
		if !j.ob(l != nil, "location", "WriteRedirect", p, t, "no location is set") {
			continue
		}
		j.ob(l.Problem == "", "encoding", "WriteRedirect", p, t, "%s", l.Problem)
		j.ob(l.Base == uri, "target", "WriteRedirect", p, t, "the location is not derived from the given URI only")
		j.ob(l.Retained, "existing query", "WriteRedirect", p, t, "the existing query parameters are not retained")
		j.ob(x.resp.Code != nil && isRedirect(x.resp.Code), "status", "WriteRedirect", p, t, "the status is not a redirect")
		none := x.eq(mkLen(params), mkInt(0)) == yes
		for _, f := range x.Facts {
			if !f.Pol || f.T.Op != "eq" {
				continue
			}
			a := f.T.Args[0]
			if f.T.Args[1].isInt(0) && a.Op == "len" {
				a = mk("call", "(net/url.Values).Encode", nil, a.Args[0])
			} else if !f.T.Args[1].isStr("") {
				continue
			}
			if encoded(a) != nil && x.complete(params, encoded(a)) == "" {
				none = true
			}
		}
		var es []*Term
		switch x.tri(frag) {
		case yes:
			j.class("fragment")
			j.ob(!l.HasQuery, "component", "fragment", p, t, "parameters for the fragment are put into the query")
			j.ob(l.HasFrag || none, "component", "fragment missing", p, t, "the fragment is missing")
			es = l.Frag
		case no:
			j.class("query")
			j.ob(!l.HasFrag, "component", "query", p, t, "parameters for the query are put into the fragment")
			j.ob(l.HasQuery || none, "component", "query missing", p, t, "the query is missing")
			es = l.Query
		default:
			j.ob(false, "component", "selection", p, t, "the component is not selected by the parameter")
			continue
		}
		if none && !l.HasFrag && !l.HasQuery {
			continue
		}
		why := x.complete(params, es)
		j.ob(why == "", "all parameters", "WriteRedirect", p, t, "%s", why)
	}
	j.require("malformed URI", "fragment", "query")
}

func isRedirect(c *Term) bool {
	n, ok := c.intVal()
	return ok && (n == 302 || n == 303 || n == 307 || n == 301)
}

// complete checks that the entries are exactly those of a map.
func (x *Tr) complete(params *Term, es []*Term) string {
	keys := map[*Term]bool{}
	isKey := func(t *Term) bool {
		if t != nil && t.Op == "elem" {
			k := t.Args[0]
			if _, ok := keys[k]; !ok {
				keys[k] = x.keysOf(k) == params
			}
			return keys[k]
		}
		return t != nil && t.Op == "nextkey" && t.Args[0] == params
	}
	isVal := func(t *Term) bool {
		if t != nil && t.Op == "list" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t != nil && (t.Op == "nextval" && t.Args[0] == params || t.Op == "lookup" && t.Args[0] == params && isKey(t.Args[1]))
	}
	if len(es) == 0 {
		return "no parameters are added"
	}
	for _, e := range es {
		if !isKey(e.Args[0]) || !isVal(e.Args[1]) || !strings.HasSuffix(e.Name, "set") && !strings.HasSuffix(e.Name, "add") {
			return "a parameter is not added unchanged"
		}
	}
	ls := x.loopsOver(params)
	for k, ok := range keys {
		if !ok {
			continue
		}
		for _, e := range x.Events {
			if e.Kind == "loop" {
				if it := x.visits(e.Loop, k); it != nil && (it.start == 0 || !it.forward) {
					ls = append(ls, e.Loop)
				}
			}
		}
	}
	for _, l := range ls {
		if !l.Exhausted {
			continue
		}
		good := len(l.Backs) > 0
		for _, b := range l.Backs {
			n := 0
			for _, e := range b.Events {
				switch e.Kind {
				case "lset", "ladd":
					if isKey(e.Args[1]) && isVal(e.Args[2]) {
						n++
					} else {
						good = false
					}
				case "ldel", "loop":
					good = false
				}
			}
			if n != 1 {
				good = false
			}
		}
		if good {
			return ""
		}
	}
	return "the iteration over the parameters does not add each of them"
}

// keysOf tells of which map a list holds all keys.
func (x *Tr) keysOf(list *Term) *Term {
	for _, e := range x.Events {
		if e.Kind != "loop" || e.Loop.Over == nil || !e.Loop.Exhausted || len(e.Loop.Backs) == 0 {
			continue
		}
		m := e.Loop.Over
		for _, in := range e.Loop.Init {
			if in.Var != list {
				continue
			}
			if n, ok := x.St.lenOf(in.Init).intVal(); !ok || n != 0 {
				return nil
			}
			for _, b := range e.Loop.Backs {
				a := b.Phis[list]
				if a.Op != "append" || a.Args[0] != list || a.Args[1].Op != "list" || len(a.Args[1].Args) != 1 {
					return nil
				}
				if k := a.Args[1].Args[0]; k.Op != "nextkey" || k.Args[0] != m {
					return nil
				}
			}
			return m
		}
	}
	return nil
}

const b64enc = "(*encoding/base64.Encoding).EncodeToString"
const b64dec = "(*encoding/base64.Encoding).DecodeString"

func isMac(t, secret, key *Term) bool {
	return t != nil && t.Op == "mac" && t.Name == "crypto/sha256.New" && len(t.Args) == 2 && t.Args[0] == secret && t.Args[1] == key
}

func isRawURL(t *Term) bool {
	return t != nil && t.Op == "gload" && strings.HasSuffix(t.Name, "encoding/base64.RawURLEncoding")
}

// ctEq finds a constant time comparison among the facts.
func (x *Tr) ctEq(want func(a, b *Term) bool) int {
	for _, f := range x.Facts {
		if f.T.is("bytesEq", "ct") && (want(f.T.Args[0], f.T.Args[1]) || want(f.T.Args[1], f.T.Args[0])) {
			return pol(f.Pol)
		}
	}
	return unknown
}

// segment tells whether a value is the first or second of exactly two
// segments. The base64 alphabet has no dot, so a remainder that decodes has
// no further segment.
func (x *Tr) segment(t, str *Term, i int) bool {
	dot := mkStr(".")
	switch {
	case t.Op == "elem" && t.Args[1].isInt(int64(i)):
		s := t.Args[0]
		if s.isCall("strings.Split") && s.Args[0] == str && s.Args[1] == dot {
			return x.eq(mkLen(s), mkInt(2)) == yes
		}
		if s.isCall("strings.SplitN") && s.Args[0] == str && s.Args[1] == dot && !s.Args[2].isInt(1) && !s.Args[2].isInt(0) {
			return x.eq(mkLen(s), mkInt(2)) == yes
		}
	case t.Op == "ret" && t.Args[0].isCall("strings.Cut"):
		c := t.Args[0]
		return c.Args[0] == str && c.Args[1] == dot && t.Name == map[int]string{0: "0", 1: "1"}[i] && x.tri(mkRet(c, 2, nil)) == yes
	case t.Op == "slice" && t.Args[0] == str:
		at := t.Args[2]
		if i == 1 {
			at = t.Args[1]
			if at.Op != "add" || !at.Args[1].isInt(1) || t.Args[2] != nil {
				return false
			}
			at = at.Args[0]
		} else if !(t.Args[1] == nil || t.Args[1].isInt(0)) {
			return false
		}
		return at != nil && isIndexCall(at) && at.Args[0] == str && (at.Args[1] == dot || at.Args[1].isInt('.')) && x.eq(at, mkInt(-1)) == no
	}
	return false
}

// C18: token verification.
func ruleC18(j *J) {
	j.expl = "every path of ParseHS256Token, HS256Token.Valid and HS256Token.Equal: a token is returned only if both segments decode as raw base64url and the second equals, compared in constant time, the full HMAC-SHA256 of the first under the secret, and it carries exactly these values; every other path returns an error and no token and knows one of these conditions to fail; the validity methods return exactly the result of that comparison"
	f, ps := j.anchor("ParseHS256Token")
	if f == nil {
		return
	}
	secret, str := paramOf(ps, "[]byte"), paramOf(ps, "string")
	for _, t := range j.traces("ParseHS256Token", nil) {
		if t.End != "return" {
			continue
		}
		x := newTr(j.c, t, nil, nil, nil)
		p := f.Pos()
		if t.Results[0].isNil() {
			j.class("rejected token")
			j.ob(x.eq(t.Results[1], tNil) == no, "error", "ParseHS256Token", p, t, "no token is returned without an error")
			continue
		}
		j.ob(x.eq(t.Results[1], tNil) == yes, "error", "token and error", p, t, "a token is returned together with a possible error")
		j.class("accepted token")
		tok := snap(t, 0)
		key, sig := structField(tok, "Key"), structField(tok, "Signature")
		decoded := func(v *Term, i int) bool {
			return v != nil && v.Op == "ret" && v.Name == "0" && v.Args[0].isCall(b64dec) && isRawURL(v.Args[0].Args[0]) && x.segment(v.Args[0].Args[1], str, i) && x.eq(mkRet(v.Args[0], 1, nil), tNil) == yes
		}
		j.ob(decoded(key, 0), "key", "ParseHS256Token", p, t, "the key of an accepted token is not the completely decoded first of two segments")
		ok := x.ctEq(func(a, b *Term) bool {
			return decoded(a, 1) && isMac(b, secret, key) && (a == sig || b == sig)
		})
		j.ob(ok == yes, "signature", "ParseHS256Token", p, t, "a token is accepted although its decoded second segment is not known to equal, compared in constant time, the full HMAC-SHA256 of its key")
		j.sample("accepted: %v", describe(j.c.in, t))
	}
	for _, m := range []string{"(*HS256Token).Valid", "(*HS256Token).Equal"} {
		f, ps := j.anchor(m)
		if f == nil {
			continue
		}
		tok, arg := ps[0], ps[1]
		for _, t := range j.traces(m, nil) {
			if t.End != "return" {
				continue
			}
			x0 := newTr(j.c, t, nil, nil, nil)
			for _, x := range x0.split(t.Results[0]) {
				j.class("result of " + m)
				v := x.ctEq(func(a, b *Term) bool {
					if m == "(*HS256Token).Equal" {
						return a == sel(tok, "Signature") && b == arg
					}
					return a == sel(tok, "Signature") && isMac(b, arg, sel(tok, "Key"))
				})
				j.ob(v != unknown && v == x.tri(t.Results[0]), "comparison", m, f.Pos(), t, "the result is not the constant time comparison of the complete signatures")
			}
		}
	}
	j.tokenReasons()
	j.require("rejected token", "accepted token", "result of (*HS256Token).Valid", "result of (*HS256Token).Equal")
}

// fillFailed tells whether a path knows a read of random bytes to have failed.
func (x *Tr) fillFailed() bool {
	for _, e := range x.Events {
		if e.Kind == "fill" && (x.eq(mkRet(e.Args[2], 1, nil), tNil) == no || x.eq(mkRet(e.Args[2], 0, nil), x.St.lenOf(e.Args[1])) == no) {
			return true
		}
	}
	return false
}

// C19: token generation.
func ruleC19(j *J) {
	j.expl = "every path of GenerateHS256Token and MustGenerateHS256Token: a token is returned only after the complete key of the requested length was read from crypto/rand without error, and carries that key and its HMAC-SHA256; otherwise, which is only if that read failed, an error is returned or the path panics; the textual forms are the raw base64url encodings joined by a dot"
	type want struct {
		fn   string
		must bool
	}
	for _, g := range []want{{"GenerateHS256Token", false}, {"MustGenerateHS256Token", true}} {
		f, ps := j.anchor(g.fn)
		if f == nil {
			continue
		}
		secret, length := paramOf(ps, "[]byte"), paramOf(ps, "int")
		for _, t := range j.traces(g.fn, nil) {
			x := newTr(j.c, t, nil, nil, nil)
			if t.End == "panic" {
				j.class("failure of " + g.fn)
				j.ob(g.must, "failure", g.fn, f.Pos(), t, "the function panics")
				j.ob(x.fillFailed(), "failure reason", g.fn, f.Pos(), t, "no token is generated although the random source is not known to have failed")
				continue
			}
			if t.Results[0].isNil() {
				j.class("failure of " + g.fn)
				j.ob(!g.must && x.eq(t.Results[1], tNil) == no, "failure", g.fn, f.Pos(), t, "no token and no error is returned")
				j.ob(x.fillFailed(), "failure reason", g.fn, f.Pos(), t, "no token is generated although the random source is not known to have failed")
				continue
			}
			j.class("token of " + g.fn)
			if !g.must {
				j.ob(x.eq(t.Results[1], tNil) == yes, "error", g.fn, f.Pos(), t, "a token is returned together with a possible error")
			}
			var fill *Event
			for _, e := range t.Events {
				if e.Kind == "fill" {
					j.ob(fill == nil, "one fill", g.fn, e.Pos, t, "random bytes are read more than once")
					fill = e
				} else if e.Kind == "loop" {
					j.ob(false, "no loop", g.fn, e.Pos, t, "a token is generated by a loop")
				}
			}
			if !j.ob(fill != nil, "random", g.fn, f.Pos(), t, "a token is returned without reading random bytes") {
				continue
			}
			src := fill.Args[0]
			j.ob(src.Op == "gload" && src.Name == "crypto/rand.Reader", "source", g.fn, fill.Pos, t, "the random bytes do not come from crypto/rand")
			j.ob(fill.Name == "io.ReadFull" || fill.Name == "crypto/rand.Read", "complete", g.fn, fill.Pos, t, "the key may be filled partially only")
			buf := fill.Args[1]
			j.ob(t.St.lenOf(buf) == length, "length", g.fn, fill.Pos, t, "the filled buffer has not the requested length")
			j.ob(x.eq(mkRet(fill.Args[2], 1, nil), tNil) == yes, "checked", g.fn, fill.Pos, t, "the error of reading random bytes is not checked")
			key, sig := t.St.content(t.St.load(mkFA(t.Results[0], "Key", nil), nil)), t.St.load(mkFA(t.Results[0], "Signature", nil), nil)
			if buf.Op == "mkslice" {
				c := t.St.content(buf)
				j.ob(c.Op == "filled" && c.Args[1] == buf, "unchanged", g.fn, fill.Pos, t, "the random key is modified")
				j.ob(sig != nil && sig.Op == "mac" && len(sig.Args) == 2 && sig.Args[1] == c, "signed after reading", g.fn, f.Pos(), t, "the signature is not made of the random bytes")
			}
			j.ob(sameBuf(key, buf, length), "key", g.fn, f.Pos(), t, "the key of the token is not the complete random buffer")
			j.ob(sig != nil && sig.Op == "mac" && isMac(sig, secret, sig.Args[1]) && (sameBuf(sig.Args[1], buf, length) || sig.Args[1] == key), "signature", g.fn, f.Pos(), t, "the signature is not the HMAC-SHA256 of the key under the secret")
			for _, e := range t.Events {
				if e.Kind == "store" && root(e.Args[0]) == buf {
					j.ob(false, "unchanged", g.fn, e.Pos, t, "the random key is modified")
				}
			}
		}
		j.require("token of "+g.fn, "failure of "+g.fn)
	}
	// textual forms
	enc := func(tok *Term, f string) func(*Term) bool {
		return func(v *Term) bool {
			return v.isCall(b64enc) && isRawURL(v.Args[0]) && v.Args[1] == sel(tok, f)
		}
	}
	for _, m := range []string{"String", "KeyString", "SignatureString"} {
		name := "(*HS256Token)." + m
		f, ps := j.anchor(name)
		if f == nil {
			continue
		}
		tok := ps[0]
		for _, t := range j.traces(name, nil) {
			j.class("text by " + m)
			v := t.Results[0]
			key, sig := enc(tok, "Key"), enc(tok, "Signature")
			good := false
			switch m {
			case "KeyString":
				good = key(v)
			case "SignatureString":
				good = sig(v)
			default:
				if v.isCall("strings.Join") && v.Args[0].Op == "list" && len(v.Args[0].Args) == 2 && v.Args[1].isStr(".") {
					good = key(v.Args[0].Args[0]) && sig(v.Args[0].Args[1])
				} else {
					good = v.Op == "concat" && len(v.Args) == 3 && key(v.Args[0]) && v.Args[1].isStr(".") && sig(v.Args[2])
				}
			}
			j.ob(good, "text", m, f.Pos(), t, "the textual form is not made of the raw base64url encoded values")
		}
		j.require("text by " + m)
	}
	// the random source is fixed
	if tag, ok := j.c.randAssigned(); ok {
		j.ob(false, "source", tag, token.NoPos, nil, "the random source is replaced")
	}
}

// sameBuf tells whether a slice is the whole buffer.
func sameBuf(v, buf, length *Term) bool {
	if v != nil && v.Op == "filled" && len(v.Args) == 2 {
		v = v.Args[1]
	}
	if v == buf {
		return true
	}
	return v != nil && v.Op == "slice" && v.Args[0] == buf && (v.Args[1] == nil || v.Args[1].isInt(0)) && (v.Args[2] == nil || v.Args[2] == length)
}

// randAssigned looks for assignments to the reader of crypto/rand.
func (c *Ctx) randAssigned() (string, bool) {
	for _, f := range c.in.allFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						return fnShort(f), true
					}
				}
			}
		}
	}
	return "", false
}

// reqAtoms lists what a term takes from a request.
func reqAtoms(t, r *Term, out map[string]bool) {
	t.walk(func(n *Term) {
		for _, a := range n.Args {
			if a == r {
				out[n.Op+":"+n.Name] = true
			}
		}
	})
}

// readsOf lists what a path takes from a request.
func (x *Tr) readsOf(r *Term) map[string]bool {
	m := map[string]bool{}
	for _, f := range x.Facts {
		reqAtoms(f.T, r, m)
	}
	for i := range x.Results {
		reqAtoms(x.St.snapshot(x.Results[i], 0), r, m)
	}
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, e := range es {
			switch e.Kind {
			case "load", "safe", "maypanic":
				continue
			}
			for _, a := range e.Args {
				if a != r {
					reqAtoms(a, r, m)
				}
				if a == r && e.Kind != "parseform" {
					m["event:"+e.Kind+" "+e.Name] = true
				}
			}
			if e.Loop != nil {
				for _, b := range e.Loop.Backs {
					walk(b.Events)
				}
			}
		}
	}
	walk(x.Events)
	return m
}

var postReads = map[string]bool{"sel:Method": true, "sel:PostForm#1": true, "call:(*net/http.Request).ParseForm": true, "call:(*net/http.Request).BasicAuth": true}
var authReads = map[string]bool{"sel:Method": true, "sel:Form#1": true, "sel:PostForm#1": true, "call:(*net/http.Request).ParseForm": true}

// C20: sources of request parameters.
func ruleC20(j *J) {
	j.expl = "every path of the request parsers and of ServeHTTP: whatever is read from the request is read from an allowed place (method, form body after parsing, basic authentication; for authorization requests also the merged form, never basic authentication); a request is only returned for the allowed methods; client credentials come from basic authentication, and from the body only for token requests without it"
	parsers := map[string]string{"ParseTokenRequest": "token", "ParseIntrospectionRequest": "introspect", "ParseRevocationRequest": "revoke", "ParseAuthorizationRequest": "authorize"}
	for _, fn := range sortedKeys(parsers) {
		ep := parsers[fn]
		f, ps := j.anchor(fn)
		if f == nil {
			continue
		}
		r := paramOf(ps, tReq)
		allowed := postReads
		if ep == "authorize" {
			allowed = authReads
		}
		for _, t := range j.traces(fn, serverAtomic()) {
			if t.End != "return" {
				continue
			}
			x := newTr(j.c, t, nil, nil, r)
			x.ep = ep
			for _, a := range sortedKeys(x.readsOf(r)) {
				j.ob(allowed[a], "source", fn+" "+a, f.Pos(), t, "the request parser reads %s of the request", a)
			}
			if t.Results[0].isNil() {
				j.class("refused by " + fn)
				continue
			}
			j.class("accepted by " + fn)
			post := x.eq(x.method(), mkStr("POST"))
			if ep == "authorize" {
				get := x.eq(x.method(), mkStr("GET"))
				j.ob(post == yes || get == yes, "method", fn, f.Pos(), t, "a request with another method than GET or POST is accepted")
				continue
			}
			j.ob(post == yes, "method", fn, f.Pos(), t, "a request with another method than POST is accepted")
			v := snap(t, 0)
			id, secret := structField(v, "ClientID"), structField(v, "ClientSecret")
			switch b := x.tri(x.basic(2)); {
			case b == yes:
				j.ob(id == x.basic(0) && secret == x.basic(1), "basic authentication", fn, f.Pos(), t, "the client credentials are not those of the basic authentication")
			case b == no && ep == "token":
				j.class("credentials in body")
				j.ob(id == x.post("client_id") && secret == x.post("client_secret"), "body credentials", fn, f.Pos(), t, "the client credentials are not those of the body")
			default:
				j.ob(false, "basic authentication", fn, f.Pos(), t, "a request is accepted although basic authentication is not known to be present")
			}
		}
		j.require("accepted by "+fn, "refused by "+fn)
	}
	for _, x := range j.server() {
		r := x.r
		allowed := map[string]bool{"sel:URL": true}
		m := postReads
		switch x.ep {
		case "authorize":
			m = authReads
		case "token", "revoke", "introspect":
		default:
			m = nil
		}
		for a := range x.readsOf(r) {
			j.ob(allowed[a] || m[a], "server source", x.ep+" "+a, x.pos(), x.Trace, "the endpoint %q reads %s of the request", x.ep, a)
		}
		// of the URL only the path
		for _, f := range x.Facts {
			f.T.walk(func(n *Term) {
				if len(n.Args) > 0 && n.Args[0] == sel(r, "URL") && !(n.Op == "sel" && n.Name == "Path") {
					j.ob(false, "server source", "URL "+n.Name, x.pos(), x.Trace, "the endpoint reads %s of the URL", n.Name)
				}
			})
		}
	}
	j.require("credentials in body")
}

// parserTable maps fields to parameters.
type paramField struct {
	field, param string
	kind         string // text, scope, uri
	mandatory    bool
}

var parserTables = map[string][]paramField{
	"ParseTokenRequest": {{"GrantType", "grant_type", "text", true}, {"Scope", "scope", "scope", false}, {"Username", "username", "text", false}, {"Password", "password", "text", false},
		{"RefreshToken", "refresh_token", "text", false}, {"RedirectURI", "redirect_uri", "uri", false}, {"Code", "code", "text", false}},
	"ParseIntrospectionRequest": {{"Token", "token", "text", true}, {"TokenTypeHint", "token_type_hint", "text", false}},
	"ParseRevocationRequest":    {{"Token", "token", "text", true}, {"TokenTypeHint", "token_type_hint", "text", false}},
	"ParseAuthorizationRequest": {{"ResponseType", "response_type", "text", true}, {"Scope", "scope", "scope", false}, {"ClientID", "client_id", "text", true}, {"RedirectURI", "redirect_uri", "uri", true},
		{"State", "state", "text", false}},
}

func (x *Tr) noFragment(u *Term) bool {
	for _, n := range []string{"strings.IndexByte", "strings.Index", "strings.IndexRune"} {
		for _, c := range []*Term{mkInt('#'), mkStr("#")} {
			if x.eq(mk("call", n, types.Typ[types.Int], u, c), mkInt(-1)) == yes {
				return true
			}
		}
	}
	for _, f := range x.Facts {
		if !f.Pol && f.T.Op == "call" && (callName(f.T) == "strings.Contains" || callName(f.T) == "strings.ContainsRune" || callName(f.T) == "strings.ContainsAny") && x.St.same(f.T.Args[0], u) && (f.T.Args[1].isStr("#") || f.T.Args[1].isInt('#')) {
			return true
		}
		if f.Pol && f.T.Op == "eq" && f.T.Args[1].isInt(-1) && isIndexCall(f.T.Args[0]) && x.St.same(f.T.Args[0].Args[0], u) && (f.T.Args[0].Args[1].isStr("#") || f.T.Args[0].Args[1].isInt('#')) {
			return true
		}
	}
	return false
}

// C21: request parsers.
func ruleC21(j *J) {
	j.expl = "every path of the request parsers returns either no request and an OAuth2 error invalid_request with status 400, or no error and a request whose mandatory fields are known to be non-empty, whose redirect URI is empty (where optional) or known to parse without fragment, and whose fields are the parameters of the corresponding names"
	for _, fn := range sortedKeys(parserTables) {
		f, ps := j.anchor(fn)
		if f == nil {
			continue
		}
		r := paramOf(ps, tReq)
		for _, t := range j.traces(fn, serverAtomic()) {
			if t.End != "return" {
				continue
			}
			x := newTr(j.c, t, nil, nil, r)
			if !t.Results[1].isNil() {
				j.class("error of " + fn)
				j.ob(t.Results[0].isNil(), "no request", fn, f.Pos(), t, "a request is returned together with an error")
				e := snap(t, 1)
				n, s := structField(e, "Name"), structField(e, "Status")
				j.ob(n.isStr("invalid_request") && s.isInt(400), "error", fn, f.Pos(), t, "the error is not an invalid_request error with status 400")
				continue
			}
			j.class("request of " + fn)
			v := snap(t, 0)
			if !j.ob(!v.isNil(), "request", fn, f.Pos(), t, "neither a request nor an error is returned") {
				continue
			}
			j.ob(x.eq(mk("call", "(*net/http.Request).ParseForm", nil, r), tNil) == yes, "form parsed", fn, f.Pos(), t, "the form of an accepted request is not known to be parsed completely")
			get := x.post
			if fn == "ParseAuthorizationRequest" {
				get = x.form
			}
			for _, c := range parserTables[fn] {
				got, raw := structField(v, c.field), get(c.param)
				good := false
				switch c.kind {
				case "text":
					good = x.St.same(got, raw)
				case "scope":
					good = x.St.same(got, parseScope(raw))
				case "uri":
					good = x.St.same(got, unescape(raw)) && x.eq(unescapeErr(raw), tNil) == yes || x.St.same(got, raw)
					if got != nil && (c.mandatory || x.isEmpty(got) != yes) {
						ok := x.eq(retOf("net/url.ParseRequestURI", 1, got), tNil) == yes && x.noFragment(got)
						j.ob(ok, "redirect uri", fn, f.Pos(), t, "the redirect URI of an accepted request is not known to be valid and without fragment")
					}
				}
				j.ob(good, "field", fn+" "+c.field, f.Pos(), t, "the field %s is not the request parameter %s", c.field, c.param)
				if c.mandatory && got != nil {
					j.ob(x.isEmpty(got) == no, "mandatory", fn+" "+c.field, f.Pos(), t, "a request is accepted although its %s may be empty", c.param)
				}
			}
			if fn == "ParseTokenRequest" {
				j.ob(x.isEmpty(structField(v, "ClientID")) == no, "mandatory", fn+" ClientID", f.Pos(), t, "a request is accepted although its client may be empty")
			}
		}
		j.require("error of "+fn, "request of "+fn)
	}
}

// entriesOf lists the entries of a form value term.
func entriesOf(m *Term) ([]*Term, bool) {
	if m == nil || m.Op == "emptymap" {
		return nil, m != nil
	}
	if m.Op != "mapval" || m.Name == "unknown" || m.Args[0].Op != "emptymap" {
		return nil, false
	}
	return m.Args[1:], true
}

// encoderOf is the inverse of how the parser reads a field.
func (j *J) encoders(parser string, c paramField, field *Term, text *Term) []*Term {
	switch c.kind {
	case "scope":
		return []*Term{mk("call", "strings.Join", nil, field, mkStr(" "))}
	case "uri":
		// the parser decides
		for _, t := range j.traces(parser, serverAtomic()) {
			if t.End != "return" || !t.Results[1].isNil() {
				continue
			}
			v := structField(snap(t, 0), c.field)
			if v != nil && v.Op == "ret" && v.Args[0].isCall("net/url.QueryUnescape") {
				return []*Term{mk("call", "net/url.QueryEscape", nil, field)}
			}
		}
	}
	return []*Term{field}
}

// fieldEmpty tells whether a request field is unset.
func (x *Tr) fieldEmpty(c paramField, field *Term) int {
	if c.kind == "scope" {
		if v := x.scopeEmpty(field); v != unknown {
			return v
		}
		return x.isEmpty(mk("call", "strings.Join", nil, field, mkStr(" ")))
	}
	if v := x.isEmpty(field); v != unknown {
		return v
	}
	if c.kind == "uri" {
		return x.isEmpty(mk("call", "net/url.QueryEscape", nil, field))
	}
	return unknown
}

// formTable checks the entries of a built form.
func (j *J) formTable(x *Tr, where, parser string, m, req *Term) {
	es, ok := entriesOf(m)
	p := x.pos()
	if !j.ob(ok, "form", where, p, x.Trace, "the form cannot be determined") {
		return
	}
	got, prob := entryMap(es)
	j.ob(prob == "", "form", where+" entries", p, x.Trace, "%s", prob)
	for _, c := range parserTables[parser] {
		field := sel(req, c.field)
		v := got[c.param]
		switch x.fieldEmpty(c, field) {
		case yes:
			j.ob(v == nil, "omitted", where+" "+c.param, p, x.Trace, "the unset parameter %s is transmitted", c.param)
		case no:
			if !j.ob(v != nil, "transmitted", where+" "+c.param, p, x.Trace, "the field %s is not transmitted as %s", c.field, c.param) {
				break
			}
			good := false
			for _, e := range j.encoders(parser, c, field, nil) {
				good = good || x.St.same(v, e)
			}
			j.ob(good, "encoding", where+" "+c.param, p, x.Trace, "the parameter %s does not carry the field %s as the parser reads it", c.param, c.field)
		default:
			j.ob(false, "omitted", where+" "+c.param, p, x.Trace, "the parameter %s does not depend on whether %s is set", c.param, c.field)
		}
		delete(got, c.param)
	}
	for _, k := range sortedKeys(got) {
		j.ob(false, "extra", where+" "+k, p, x.Trace, "the parameter %s is transmitted which no parser reads", k)
	}
}

// C22: wire format.
func ruleC22(j *J) {
	j.expl = "every path of the request builders: the form holds exactly the set fields under the names and with the inverse of the encodings by which the corresponding parser reads them (both tables derived from the code), value slices cannot grow into each other, the request is a POST of the encoded form with content type and basic authentication if credentials are set; the client sends these requests to the configured endpoint"
	type wire struct{ values, build, parse, client, endpoint string }
	for _, k := range []wire{{"TokenRequestValues", "BuildTokenRequest", "ParseTokenRequest", "(*Client).Authenticate", "TokenEndpoint"},
		{"IntrospectionRequestValues", "BuildIntrospectionRequest", "ParseIntrospectionRequest", "(*Client).Introspect", "IntrospectionEndpoint"},
		{"RevocationRequestValues", "BuildRevocationRequest", "ParseRevocationRequest", "(*Client).Revoke", "RevocationEndpoint"}} {
		f, ps := j.anchor(k.values)
		if f == nil {
			continue
		}
		for _, t := range j.traces(k.values, nil) {
			if t.End != "return" {
				continue
			}
			j.class("values by " + k.values)
			x := newTr(j.c, t, nil, nil, nil)
			j.formTable(x, k.values, k.parse, snap(t, 0), ps[0])
			j.isolated(x, k.values, t.Results[0])
		}
		f, ps = j.anchor(k.build)
		if f == nil {
			continue
		}
		uri := paramOf(ps, "string")
		req := ps[1]
		if req == uri {
			req = ps[0]
		}
		for _, t := range j.traces(k.build, nil) {
			if t.End != "return" {
				continue
			}
			x := newTr(j.c, t, nil, nil, nil)
			if t.Results[0].isNil() {
				j.class("failed " + k.build)
				j.ob(x.eq(t.Results[1], tNil) == no, "error", k.build, f.Pos(), t, "no request is returned without an error")
				continue
			}
			j.class("request by " + k.build)
			j.builtRequest(x, k.build, k.parse, t.Results[0], uri, req)
		}
		for _, m := range j.clients(k.client) {
			for _, t := range m.traces {
				x := newTr(j.c, t, nil, nil, nil)
				for _, e := range t.Events {
					if e.Kind != "do" {
						continue
					}
					j.class("exchange by " + k.client)
					sent := e.Args[2]
					for sent.isCall("(*net/http.Request).WithContext") {
						sent = sent.Args[0]
					}
					if sent.Op == "ret" && (sent.Args[0].isCall("net/http.NewRequest") || sent.Args[0].isCall("net/http.NewRequestWithContext")) {
						j.builtRequest(x, k.client, k.parse, sent, m.endpoint(k.endpoint), m.req)
						continue
					}
					b := mk("call", modPath+"."+k.build, nil, m.endpoint(k.endpoint), m.req)
					good := sent == mkRet(b, 0, nil) && x.eq(mkRet(b, 1, nil), tNil) == yes
					j.touched(x, k.client, sent)
					j.ob(good, "sent request", k.client, e.Pos, t, "the client does not send exactly the request built for its configured endpoint")
				}
			}
		}
		j.require("values by "+k.values, "request by "+k.build, "failed "+k.build, "exchange by "+k.client)
	}
}

func (j *J) buildAtomic() map[string]string {
	m := map[string]string{}
	for _, n := range []string{"BuildTokenRequest", "BuildIntrospectionRequest", "BuildRevocationRequest"} {
		m[modPath+"."+n] = "pure"
	}
	return m
}

// isolated checks that the values of a form do not share capacity.
func (j *J) isolated(x *Tr, where string, res *Term) {
	type span struct {
		lo, hi int64
		key    string
	}
	used := map[*Term][]span{}
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, e := range es {
			if e.Loop != nil {
				for _, b := range e.Loop.Backs {
					walk(b.Events)
				}
			}
			if e.Kind != "lset" || e.Args[0] != res {
				continue
			}
			key, _ := e.Args[1].str()
			v := e.Args[2]
			if e.Raw != nil {
				v = e.Raw
			}
			if v.Op == "list" {
				j.ob(v.Name != "spare", "isolation", where+" "+key, x.pos(), x.Trace, "values added to %s may overwrite those of others", key)
			}
			if v.Op != "slice" {
				if v.Op != "list" {
					used[v] = append(used[v], span{0, 1 << 30, key})
				}
				continue
			}
			lo, hi := int64(0), int64(-1)
			if v.Args[1] != nil {
				lo, _ = v.Args[1].intVal()
			}
			end := v.Args[2]
			if len(v.Args) > 3 && v.Args[3] != nil {
				end = v.Args[3]
			} else {
				end = x.St.lenOf(v.Args[0])
			}
			if n, ok := end.intVal(); ok {
				hi = n
			} else {
				hi = 1 << 30
			}
			used[v.Args[0]] = append(used[v.Args[0]], span{lo, hi, key})
		}
	}
	walk(x.Events)
	for _, ss := range used {
		sort.Slice(ss, func(a, b int) bool { return ss[a].lo < ss[b].lo })
		for i := 1; i < len(ss); i++ {
			j.ob(ss[i-1].hi <= ss[i].lo, "isolation", where+" "+ss[i-1].key, x.pos(), x.Trace, "values added to %s may overwrite those of %s", ss[i-1].key, ss[i].key)
		}
	}
}

// changes lists what is done to a new request: how often credentials are set
// and whether it is left with the content type of a form, if that is set.
func (j *J) changes(x *Tr, where string, r, id, secret *Term) (auth int, ctype, ctypeSet bool) {
	header := func(h *Term) bool {
		return h.Op == "sel" && h.Name == "Header" && h.Args[0].contains(func(t *Term) bool { return t == r })
	}
	for _, e := range unrolled(x.Events) {
		switch e.Kind {
		case "basicauth":
			if e.Args[0] == r {
				auth++
				j.ob(id != nil && e.Args[1] == id && e.Args[2] == secret, "credentials", where, e.Pos, x.Trace, "the basic authentication does not carry just the client id and secret")
			}
		case "hset", "hadd", "hdel":
			if !header(e.Args[0]) {
				continue
			}
			if e.Args[1].isStr("Content-Type") {
				ctype = (e.Kind == "hset" || e.Kind == "hadd" && !ctypeSet) && e.Args[2].isStr("application/x-www-form-urlencoded")
				ctypeSet = e.Kind != "hdel"
			} else if e.Args[1].isStr("Authorization") || !e.Args[1].isConst() {
				j.ob(false, "credentials", where, e.Pos, x.Trace, "the authorization header is changed")
			}
		case "mapset", "mapdel":
			if !header(e.Args[0]) {
				continue
			}
			if e.Args[1].isStr("Content-Type") {
				v := (*Term)(nil)
				if e.Kind == "mapset" && e.Args[2].Op == "list" && len(e.Args[2].Args) == 1 {
					v = e.Args[2].Args[0]
				}
				ctype = v.isStr("application/x-www-form-urlencoded")
				ctypeSet = e.Kind == "mapset"
			} else if e.Args[1].isStr("Authorization") || !e.Args[1].isConst() {
				j.ob(false, "credentials", where, e.Pos, x.Trace, "the authorization header is changed")
			}
		case "store":
			if a := e.Args[0]; root(a).contains(func(t *Term) bool { return t == r }) && !(a.Op == "fa" && a.Name == "Close") {
				j.ob(false, "unchanged", where, e.Pos, x.Trace, "the built request is changed")
			}
		}
	}
	return
}

// touched checks that a built request is sent as it is.
func (j *J) touched(x *Tr, where string, r *Term) {
	_, ctype, set := j.changes(x, where, r, nil, nil)
	changed := false
	for _, e := range unrolled(x.Events) {
		switch e.Kind {
		case "hset", "hadd", "hdel", "mapset", "mapdel":
			changed = changed || e.Args[1].isStr("Content-Type")
		}
	}
	j.ob(!changed || set && ctype, "unchanged", where, x.pos(), x.Trace, "the content type of the built request is changed")
}

// unrolled lists events including those of the generic iterations of loops.
func unrolled(es []*Event) []*Event {
	var out []*Event
	for _, e := range es {
		out = append(out, e)
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				out = append(out, unrolled(b.Events)...)
			}
		}
	}
	return out
}

// builtRequest checks a request handed to the transport.
func (j *J) builtRequest(x *Tr, where, parser string, r, uri, req *Term) {
	p := x.pos()
	good := r.Op == "ret" && r.Name == "0" && (r.Args[0].isCall("net/http.NewRequest") || r.Args[0].isCall("net/http.NewRequestWithContext"))
	if !j.ob(good, "request", where, p, x.Trace, "the request is not a new one") {
		return
	}
	args := r.Args[0].Args
	if len(args) == 4 {
		args = args[1:]
	}
	j.ob(x.eq(mkRet(r.Args[0], 1, nil), tNil) == yes, "checked", where, p, x.Trace, "the request is used although creating it may have failed")
	j.ob(args[0].isStr("POST"), "method", where, p, x.Trace, "the request is not a POST request")
	j.ob(args[1] == uri, "target", where, p, x.Trace, "the request is not sent to the given URI")
	body := args[2]
	for body != nil && body.Op == "iface" {
		body = body.Args[0]
	}
	var m *Term
	if body.isCall("strings.NewReader") || body.isCall("bytes.NewBufferString") {
		b := body.Args[0]
		if b.isCall("(net/url.Values).Encode") {
			m = b.Args[0]
		} else if b.isStr("") {
			m = mk("emptymap", "", nil)
		}
	} else if (body.isCall("bytes.NewReader") || body.isCall("bytes.NewBuffer")) && bytesOf(body.Args[0]) != nil {
		b := bytesOf(body.Args[0])
		if b.isCall("(net/url.Values).Encode") {
			m = b.Args[0]
		} else if b.isStr("") {
			m = mk("emptymap", "", nil)
		}
	}
	if j.ob(m != nil, "body", where, p, x.Trace, "the body is not an encoded form") {
		j.formTable(x, where, parser, m, req)
	}
	id, secret := sel(req, "ClientID"), sel(req, "ClientSecret")
	auth, ctype, _ := j.changes(x, where, r, id, secret)
	j.ob(ctype, "content type", where, p, x.Trace, "the content type is not that of a form")
	unset := and(x.isEmpty(id), x.isEmpty(secret))
	if unset == unknown {
		// decided together
		if lo, hi := x.St.bounds(mkAdd(mkLen(id), mkLen(secret), types.Typ[types.Int])); lo > 0 {
			unset = no
		} else if hi <= 0 {
			unset = yes
		} else if unset = x.isEmpty(mkConcat([]*Term{id, secret})); unset == unknown {
			unset = x.isEmpty(mkConcat([]*Term{secret, id}))
		}
	}
	switch unset {
	case yes:
		j.ob(auth == 0, "credentials", where+" unset", p, x.Trace, "empty credentials are transmitted")
	case no:
		j.ob(auth == 1, "credentials", where+" missing", p, x.Trace, "the client credentials are not transmitted")
	default:
		j.ob(false, "credentials", where+" condition", p, x.Trace, "the transmission of the credentials does not depend on whether they are set")
	}
}

// representation tables: parameter, field, required.
type reprField struct {
	param, field string
	required     bool
	kind         string
}

var reprTables = map[string][]reprField{
	"Error": {{"error", "Name", true, "text"}, {"error_description", "Description", false, "text"}, {"state", "State", false, "text"}, {"scope", "Scope", false, "scope"},
		{"error_uri", "URI", false, "text"}, {"realm", "Realm", false, "text"}},
	"TokenResponse": {{"token_type", "TokenType", true, "text"}, {"access_token", "AccessToken", true, "text"}, {"expires_in", "ExpiresIn", true, "int"},
		{"refresh_token", "RefreshToken", false, "text"}, {"scope", "Scope", false, "scope"}, {"state", "State", false, "text"}},
	"CodeResponse": {{"code", "Code", true, "text"}, {"state", "State", false, "text"}},
}

// introspectionTable is the JSON representation of RFC 7662.
var introspectionTable = []reprField{{"active", "Active", true, ""}, {"scope", "Scope", false, ""}, {"client_id", "ClientID", false, ""}, {"username", "Username", false, ""},
	{"token_type", "TokenType", false, ""}, {"exp", "ExpiresAt", false, ""}, {"iat", "IssuedAt", false, ""}, {"nbf", "NotBefore", false, ""}, {"sub", "Subject", false, ""},
	{"aud", "Audience", false, ""}, {"iss", "Issuer", false, ""}, {"jti", "Identifier", false, ""}, {"extra", "Extra", false, ""}}

func (c reprField) text(v *Term) *Term {
	switch c.kind {
	case "scope":
		return mk("call", "strings.Join", nil, v, mkStr(" "))
	case "int":
		return mk("call", "strconv.Itoa", nil, v)
	}
	return v
}

// reprEntries checks the redirect parameters of a value.
func (j *J) reprEntries(x *Tr, where string, table []reprField, got map[string]*Term, val *Term) {
	p := x.pos()
	rest := map[string]bool{}
	for k := range got {
		rest[k] = true
	}
	for _, c := range table {
		v := structField(val, c.field)
		if v == nil {
			v = sel(val, c.field)
		}
		empty := unknown
		switch c.kind {
		case "scope":
			empty = x.scopeBlank(v)
			if got[c.param] != nil && x.scopeEmpty(v) == no {
				empty = no // names without characters may be sent or left out
			}
		case "text":
			empty = x.isEmpty(v)
		}
		g := got[c.param]
		delete(rest, c.param)
		if g == nil {
			j.ob(empty == yes, "present", where+" "+c.param, p, x.Trace, "the parameter %s is left out although %s may be set", c.param, c.field)
			continue
		}
		j.ob(x.St.same(g, c.text(v)), "value", where+" "+c.param, p, x.Trace, "the parameter %s does not carry the field %s", c.param, c.field)
		if !c.required {
			j.ob(empty == no, "left out", where+" "+c.param, p, x.Trace, "the optional parameter %s is present although %s may be empty", c.param, c.field)
		}
	}
	for _, k := range sortedKeys(rest) {
		j.ob(false, "only specified", where+" "+k, p, x.Trace, "the parameter %s is not specified", k)
	}
}

// mapEntries are the entries of a map[string]string term.
func mapEntries(m *Term) (map[string]*Term, bool) {
	for m != nil && (m.Op == "ptr" || m.Op == "iface") {
		m = m.Args[0]
	}
	es, ok := entriesOf(m)
	if !ok {
		return nil, false
	}
	out := map[string]*Term{}
	for _, e := range es {
		k, isc := e.Args[0].str()
		if !isc || e.Name != "set" || out[k] != nil {
			return nil, false
		}
		out[k] = e.Args[1]
	}
	return out, true
}

// C23: representations.
func ruleC23(j *J) {
	j.expl = "for Error, TokenResponse and CodeResponse: every path of Map yields exactly the specified parameters, each carrying its field and, if optional, present exactly if the field is set; the JSON names, fields and omission flags of the type agree with the same table, nothing else is exposed and no custom marshaller interferes"
	for _, n := range sortedKeys(reprTables) {
		table := reprTables[n]
		short := "(*" + n + ").Map"
		f, ps := j.anchor(short)
		if f == nil {
			continue
		}
		for _, t := range j.traces(short, nil) {
			if t.End != "return" {
				continue
			}
			j.class("map of " + n)
			x := newTr(j.c, t, nil, nil, nil)
			got, ok := mapEntries(snap(t, 0))
			if !j.ob(ok, "map", n, f.Pos(), t, "the parameters of %s cannot be determined", n) {
				continue
			}
			j.reprEntries(x, n, table, got, ps[0])
		}
		j.reprJSON(n, table)
	}
	j.reprJSON("IntrospectionResponse", introspectionTable)
	// scopes are encoded as text
	j.require("map of Error", "map of TokenResponse", "map of CodeResponse", "json field")
}

// reprJSON checks the JSON representation of a type.
func (j *J) reprJSON(n string, table []reprField) {
	typ := j.c.typ(n)
	if !j.ob(typ != nil, "anchor", n, token.NoPos, nil, "the type %s does not exist any more", n) {
		return
	}
	pos := j.c.root.Pkg.Scope().Lookup(n).Pos()
	ms := types.NewMethodSet(types.NewPointer(typ))
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().Name()
		j.ob(m != "MarshalJSON" && m != "MarshalText", "plain encoding", n, pos, nil, "%s has a custom JSON representation", n)
	}
	have := map[string]jsonField{}
	for _, jf := range jsonTable(typ) {
		have[jf.name] = jf
	}
	for _, c := range table {
		jf, ok := have[c.param]
		j.class("json field")
		if !j.ob(ok, "json", n+" "+c.param, pos, nil, "the JSON representation of %s has no %s", n, c.param) {
			continue
		}
		j.ob(jf.field == c.field, "json", n+" "+c.param+" field", pos, nil, "the JSON field %s of %s is not %s", c.param, n, c.field)
		j.ob(jf.omit == !c.required, "json", n+" "+c.param+" omission", pos, nil, "the JSON field %s of %s has the wrong omission rule", c.param, n)
		// the option string changes how numbers and flags are represented
		_, basic := jf.typ.Underlying().(*types.Basic)
		j.ob(!jf.quoted || !basic, "json", n+" "+c.param+" type", pos, nil, "the JSON field %s of %s is represented as a string", c.param, n)
		if named, ok := jf.typ.(*types.Named); ok && basic {
			for _, m := range []string{"MarshalJSON", "MarshalText"} {
				o, _, _ := types.LookupFieldOrMethod(types.NewPointer(named), true, named.Obj().Pkg(), m)
				j.ob(o == nil, "json", n+" "+c.param+" type", pos, nil, "the JSON field %s of %s has a representation of its own", c.param, n)
			}
		}
		delete(have, c.param)
	}
	for _, k := range sortedKeys(have) {
		j.ob(false, "json only specified", n+" "+k, pos, nil, "the JSON representation of %s exposes %s", n, k)
	}
}
