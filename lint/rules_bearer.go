package main

import (
	"strings"
)

// ciConst tells whether a term is a constant that equals the text apart from
// case.
func ciConst(t *Term, s string) bool {
	v, ok := t.str()
	return ok && strings.EqualFold(v, s)
}

// bearerForm decides on a path whether a header value is "bearer", one space
// and a non-empty rest. token is the rest, if the path determines it.
func (x *Tr) bearerForm(h *Term, token *Term) (scheme, space, rest int, isRest bool) {
	cut := mk("call", "strings.Cut", nil, h, mkStr(" "))
	split := mk("call", "strings.SplitN", nil, h, mkStr(" "), mkInt(2))
	idx := mk("call", "strings.IndexByte", nil, h, mkInt(' '))
	isSlice := func(t *Term, lo, hi func(*Term) bool) bool {
		return t != nil && t.Op == "slice" && x.St.same(t.Args[0], h) && lo(t.Args[1]) && hi(t.Args[2])
	}
	zero := func(t *Term) bool { return t == nil || t.isInt(0) }
	num := func(n int64) func(*Term) bool {
		return func(t *Term) bool { return t != nil && (t.isInt(n) || x.eq(t, mkInt(n)) == yes) }
	}
	end := func(t *Term) bool { return t == nil || t == mkLen(h) }
	isIdx := func(t *Term) bool { return t == idx }
	isScheme := func(t *Term) bool {
		for t.isCall("strings.ToLower") || t.isCall("strings.ToUpper") {
			t = t.Args[0]
		}
		return isSlice(t, zero, num(6)) || isSlice(t, zero, isIdx) || t == mkRet(cut, 0, nil) || t == elemAt(split, mkInt(0))
	}
	isBoth := func(t *Term) bool {
		for t.isCall("strings.ToLower") || t.isCall("strings.ToUpper") {
			t = t.Args[0]
		}
		return isSlice(t, zero, num(7))
	}
	set := func(p *int, v int) {
		if *p == unknown {
			*p = v
		}
	}
	folded := func(t *Term) bool { return t.isCall("strings.ToLower") || t.isCall("strings.ToUpper") }
	exact := func(t, c *Term, s string) bool {
		// a comparison that ignores case
		v, ok := c.str()
		return ok && (t.isCall("strings.ToLower") && v == s || t.isCall("strings.ToUpper") && v == strings.ToUpper(s))
	}
	for _, f := range x.Facts {
		t, v := f.T, pol(f.Pol)
		switch {
		case t.isCall("strings.EqualFold"):
			a, b := t.Args[0], t.Args[1]
			if a.isConst() {
				a, b = b, a
			}
			if isScheme(a) && ciConst(b, "bearer") {
				set(&scheme, v)
			}
			if isBoth(a) && ciConst(b, "bearer ") {
				set(&scheme, v)
				set(&space, v)
			}
		case t.isCall("strings.HasPrefix"):
			if folded(t.Args[0]) && isBoth(t.Args[0]) && exact(t.Args[0], t.Args[1], "bearer ") {
				set(&scheme, v)
				set(&space, v)
			}
			if folded(t.Args[0]) && x.St.same(t.Args[0].Args[0], h) && exact(t.Args[0], t.Args[1], "bearer ") {
				set(&scheme, v)
				set(&space, v)
			}
		case t.Op == "eq":
			a, b := t.Args[0], t.Args[1]
			if folded(a) && isScheme(a) && exact(a, b, "bearer") {
				set(&scheme, v)
			}
			if folded(a) && isBoth(a) && exact(a, b, "bearer ") {
				set(&scheme, v)
				set(&space, v)
			}
			if isSlice(a, num(6), num(7)) && b.isStr(" ") || a.Op == "byteat" && x.St.same(a.Args[0], h) && a.Args[1].isInt(6) && b.isInt(' ') {
				set(&space, v)
			}
			if a == idx && b.isInt(6) {
				set(&space, v)
			}
			if a == idx && b.isInt(-1) {
				set(&space, -v)
			}
		case t == mkRet(cut, 2, nil):
			set(&space, v)
		}
	}
	if l := x.eq(mkLen(split), mkInt(2)); l != unknown {
		set(&space, l)
	} else if lo, hi := x.St.lenBounds(split); lo >= 2 {
		set(&space, yes)
	} else if hi < 2 {
		set(&space, no)
	}
	tokens := []*Term{mkRet(cut, 1, nil), elemAt(split, mkInt(1))}
	if token != nil {
		for _, t := range tokens {
			isRest = isRest || t == token
		}
		isRest = isRest || isSlice(token, num(7), end) || isSlice(token, func(t *Term) bool {
			return t == mkAdd(idx, mkInt(1), nil) || t != nil && t.Op == "add" && t.Args[0] == idx && t.Args[1].isInt(1)
		}, end)
		if isRest {
			rest = neg(x.isEmpty(token))
		}
	}
	for _, f := range x.Facts {
		if f.T.Op == "eq" && f.T.Args[1].isStr("") {
			t := f.T.Args[0]
			if t == tokens[0] || t == tokens[1] || isSlice(t, num(7), end) || isSlice(t, func(t *Term) bool { return t != nil && t.Op == "add" && t.Args[0] == idx && t.Args[1].isInt(1) }, end) {
				set(&rest, pol(!f.Pol))
			}
		}
	}
	if x.eq(idx, mkInt(-1)) == no {
		set(&rest, neg(x.isEmpty(mk("slice", "", h.T, h, mkAdd(idx, mkInt(1), idx.T), nil))))
	}
	lo, hi := x.St.lenBounds(h)
	if lo >= 8 {
		set(&rest, yes)
	}
	if hi < 8 {
		set(&rest, no)
	}
	return
}

// C28: bearer tokens.
func ruleC28(j *J) {
	j.expl = "every path of ParseBearerToken: a token is returned without error only if the Authorization header is known to be the scheme in any case, a space and a non-empty rest, and it is that rest; a path returning an error refutes one of these, returns no token and the bare 401 error exactly if the header is empty and invalid_request (400) otherwise; nothing else of the request is read"
	f, ps := j.anchor("ParseBearerToken")
	if f == nil {
		return
	}
	r := paramOf(ps, tReq)
	hdr := sel(r, "Header")
	h := mk("call", "(net/http.Header).Get", nil, hdr, mkStr("Authorization"))
	for _, t := range j.traces("ParseBearerToken", nil) {
		if !j.ob(t.End == "return", "returns", "ParseBearerToken", f.Pos(), t, "ParseBearerToken may not return") {
			continue
		}
		x := newTr(j.c, t, nil, nil, r)
		for _, a := range sortedKeys(x.readsOf(r)) {
			j.ob(a == "sel:Header", "source", a, f.Pos(), t, "the bearer token is also looked for in %s", a)
		}
		for _, fc := range t.Facts {
			j.ob(!strays(fc.T, hdr, h), "source", "header", f.Pos(), t, "another header than Authorization is consulted")
		}
		scheme, space, rest, isRest := x.bearerForm(h, t.Results[0])
		if t.Results[1].isNil() {
			j.class("token")
			j.ob(scheme == yes, "scheme", "ParseBearerToken", f.Pos(), t, "a token is returned although the scheme is not known to be bearer")
			j.ob(space == yes, "space", "ParseBearerToken", f.Pos(), t, "a token is returned although the scheme is not known to be followed by a space")
			j.ob(rest == yes, "non-empty", "ParseBearerToken", f.Pos(), t, "a token is returned although it may be empty")
			j.ob(isRest, "remainder", "ParseBearerToken", f.Pos(), t, "the token is not exactly the remainder of the header")
			continue
		}
		j.ob(t.Results[0].isStr(""), "no token", "ParseBearerToken", f.Pos(), t, "a token is returned together with an error")
		e := snap(t, 1)
		st, name := structField(e, "Status"), structField(e, "Name")
		switch x.isEmpty(h) {
		case yes:
			j.class("missing header")
			j.ob(st.isInt(401) && name.isStr(""), "missing header", "ParseBearerToken", f.Pos(), t, "a missing header is not answered with the bare challenge error")
		case no:
			j.class("malformed header")
			j.ob(st.isInt(400) && name.isStr("invalid_request"), "malformed header", "ParseBearerToken", f.Pos(), t, "a malformed header is not reported as invalid_request")
			j.ob(scheme == no || space == no || rest == no, "well-formed header", "ParseBearerToken", f.Pos(), t, "a header is refused that may be well-formed")
		default:
			j.ob(false, "missing header", "ParseBearerToken condition", f.Pos(), t, "the error does not depend on whether there is a header")
		}
	}
	j.require("token", "missing header", "malformed header")
}

// strays tells whether a term uses a value other than through an allowed term.
func strays(t, what, allowed *Term) bool {
	if t == nil || t == allowed {
		return false
	}
	if t == what {
		return true
	}
	for _, a := range t.Args {
		if strays(a, what, allowed) {
			return true
		}
	}
	return false
}
