package main

import (
	"go/types"
	"reflect"
	"regexp"
	"strings"
)

// Tr is a path through a server entry point in the vocabulary of the rules.
type Tr struct {
	*Trace
	c       *Ctx
	s, w, r *Term
	eff     []*Eff
	resp    *Resp
	ep      string
}

// Eff is a possible change of server state on a path.
type Eff struct {
	Ev    *Event
	Idx   int    // index of the (outermost) event on the path
	Kind  string // set, del, clear, field, server, global, other
	Store string
	Key   *Term
	Cred  *Term // contents of a stored entry
	Field string
	Val   *Term
	Obj   *Term
	Loop  *LoopInfo // innermost loop the effect is in
	Back  *LoopBack
}

func newTr(c *Ctx, t *Trace, s, w, r *Term) *Tr {
	x := &Tr{Trace: t, c: c, s: s, w: w, r: r}
	x.eff = x.effects()
	x.resp = x.response()
	x.ep = x.endpoint()
	return x
}

// --- conditions ---

const (
	no = iota - 1
	unknown
	yes
)

// tri evaluates a condition on the path.
func (x *Tr) tri(t *Term) int {
	if t == nil {
		return unknown
	}
	v, ok := x.St.eval(t)
	switch {
	case !ok:
		return unknown
	case v:
		return yes
	}
	return no
}

func (x *Tr) eq(a, b *Term) int {
	if a == nil || b == nil {
		return unknown
	}
	if x.St.same(a, b) {
		return yes
	}
	if v := x.tri(mkEq(a, b)); v != unknown {
		return v
	}
	for _, f := range x.Facts {
		if f.T.Op == "eq" && !f.Pol {
			p, q := f.T.Args[0], f.T.Args[1]
			if x.St.same(p, a) && x.St.same(q, b) || x.St.same(p, b) && x.St.same(q, a) {
				return no
			}
		}
	}
	return unknown
}

func (x *Tr) isEmpty(a *Term) int { return x.eq(a, mkStr("")) }

func neg(v int) int { return -v }

func and(vs ...int) int {
	r := yes
	for _, v := range vs {
		if v < r {
			r = v
		}
	}
	return r
}

// --- terms of a request ---

func sel(b *Term, f string) *Term { return mkSel(b, f, nil) }

func (x *Tr) cfg(f string) *Term   { return sel(sel(x.s, "Config"), f) }
func (x *Tr) store(n string) *Term { return sel(x.s, n) }
func (x *Tr) post(k string) *Term {
	return mk("call", "(net/url.Values).Get", nil, mk("sel", "PostForm#1", nil, x.r), mkStr(k))
}
func (x *Tr) form(k string) *Term {
	return mk("call", "(net/url.Values).Get", nil, mk("sel", "Form#1", nil, x.r), mkStr(k))
}
func (x *Tr) basic(i int) *Term {
	return mkRet(mk("call", "(*net/http.Request).BasicAuth", nil, x.r), i, nil)
}
func (x *Tr) method() *Term { return sel(x.r, "Method") }

func retOf(name string, i int, args ...*Term) *Term {
	return mkRet(mk("call", name, nil, args...), i, nil)
}

func unescape(a *Term) *Term    { return retOf("net/url.QueryUnescape", 0, a) }
func unescapeErr(a *Term) *Term { return retOf("net/url.QueryUnescape", 1, a) }

// has tells whether a store held an entry under the key when the request
// arrived. A token is stored in one token store only (C11).
func (x *Tr) has(store string, key *Term) int {
	if v := x.hasFact(store, key); v != unknown {
		return v
	}
	if o := map[string]string{"AccessTokens": "RefreshTokens", "RefreshTokens": "AccessTokens"}[store]; o != "" && x.hasFact(o, key) == yes {
		return no
	}
	return unknown
}

// hasFact is has without the invariant that a token is stored once.
func (x *Tr) hasFact(store string, key *Term) int {
	if key == nil {
		return unknown
	}
	m := x.store(store)
	if v := x.tri(mk("haskey", "", types.Typ[types.Bool], m, key)); v != unknown {
		return v
	}
	for _, f := range x.Facts {
		if f.T.Op == "haskey" && f.T.Name == "" && f.T.Args[0] == m && x.St.same(f.T.Args[1], key) {
			return pol(f.Pol)
		}
	}
	if v := x.eq(x.entry(store, key), tNil); v != unknown {
		return -v
	}
	return unknown
}

func pol(b bool) int {
	if b {
		return yes
	}
	return no
}

func (x *Tr) entry(store string, key *Term) *Term {
	if key == nil {
		return nil
	}
	return mk("lookup", "", nil, x.store(store), key)
}

func (x *Tr) field(store string, key *Term, f string) *Term {
	if key == nil {
		return nil
	}
	return sel(x.entry(store, key), f)
}

// live tells whether an expiry has not passed on the path.
func (x *Tr) live(e *Term) int {
	if e == nil {
		return unknown
	}
	for _, f := range x.Facts {
		if f.T.Op != "before" {
			continue
		}
		a, b := f.T.Args[0], f.T.Args[1]
		switch {
		case x.St.same(a, e) && b.isCall("time.Now"):
			return pol(!f.Pol)
		case x.St.same(b, e) && a.isCall("time.Now"):
			return pol(f.Pol)
		}
	}
	return unknown
}

// parsed is the token parsed from a string under the server secret.
func (x *Tr) parsed(str *Term) (tok *Term, valid int) {
	if str == nil {
		return nil, unknown
	}
	c := mk("call", modPath+".ParseHS256Token", nil, x.cfg("Secret"), str)
	return mkRet(c, 0, nil), x.eq(mkRet(c, 1, nil), tNil)
}

func (x *Tr) sigOf(str *Term) (*Term, int) {
	tok, v := x.parsed(str)
	if tok == nil {
		return nil, v
	}
	return x.c.sigT(tok), v
}

func (x *Tr) includes(a, b *Term) int {
	if a == nil || b == nil {
		return unknown
	}
	n := "(" + modPath + ".Scope).Includes"
	t := mk("call", n, types.Typ[types.Bool], a, b)
	if v := x.tri(t); v != unknown {
		return v
	}
	for _, f := range x.Facts {
		if f.T.isCall(n) && x.St.same(f.T.Args[0], a) && x.St.same(f.T.Args[1], b) {
			return pol(f.Pol)
		}
	}
	return x.subset(b, a) // decided by an own iteration
}

func parseScope(a *Term) *Term { return mk("call", modPath+".ParseScope", nil, a) }

// constOf finds the constant a value is known to equal.
func (x *Tr) constOf(a *Term) (string, bool) {
	for _, f := range x.Facts {
		if f.Pol && f.T.Op == "eq" && x.St.same(f.T.Args[0], a) {
			if c, ok := f.T.Args[1].str(); ok {
				return c, true
			}
		}
	}
	return "", false
}

// endpoint is the constant the path (segment) equals.
func (x *Tr) endpoint() string {
	if x.r == nil {
		return ""
	}
	path := sel(sel(x.r, "URL"), "Path")
	for _, f := range x.Facts {
		if f.Pol && f.T.Op == "eq" && f.T.Args[0].contains(func(t *Term) bool { return t == path }) {
			if c, ok := f.T.Args[1].str(); ok && c != "" {
				return strings.TrimPrefix(c, "/")
			}
		}
	}
	return ""
}

// grant is the grant type of a token request.
func (x *Tr) grant() string {
	c, _ := x.constOf(x.post("grant_type"))
	return c
}

// client returns the id and secret presented by the requesting client.
func (x *Tr) client() (id, secret *Term) {
	switch x.ep {
	case "authorize":
		return x.form("client_id"), nil
	case "token":
		switch x.tri(x.basic(2)) {
		case yes:
			return x.basic(0), x.basic(1)
		case no:
			return x.post("client_id"), x.post("client_secret")
		}
	case "revoke", "introspect":
		if x.tri(x.basic(2)) == yes {
			return x.basic(0), x.basic(1)
		}
	}
	return nil, nil
}

// authenticated tells whether the requesting client is known and, if
// confidential, presented its secret.
func (x *Tr) authenticated() int {
	id, secret := x.client()
	if id == nil {
		return unknown
	}
	known := x.has("Clients", id)
	if known != yes {
		return known
	}
	conf := x.tri(x.field("Clients", id, "Confidential"))
	if conf == no {
		return yes
	}
	match := x.eq(x.field("Clients", id, "Secret"), secret)
	if match == yes {
		return yes
	}
	if conf == yes {
		return match
	}
	return unknown
}

// userOK tells whether the submitted resource owner credentials are right.
func (x *Tr) userOK() int {
	u := x.post("username")
	known := x.has("Users", u)
	if known != yes {
		return known
	}
	return x.eq(x.field("Users", u, "Secret"), x.post("password"))
}

// presented is the string presented as the named credential.
func (x *Tr) presented() *Term {
	switch x.ep {
	case "token":
		switch x.grant() {
		case "authorization_code":
			return x.post("code")
		case "refresh_token":
			return x.post("refresh_token")
		}
	case "revoke", "introspect":
		return x.post("token")
	}
	return nil
}

// --- effects ---

var storeNames = []string{"Clients", "Users", "AccessTokens", "RefreshTokens", "AuthorizationCodes"}
var credStores = []string{"AccessTokens", "RefreshTokens", "AuthorizationCodes"}

func (x *Tr) storeName(m *Term) string {
	if x.s == nil {
		return ""
	}
	for _, n := range storeNames {
		if m == x.store(n) {
			return n
		}
	}
	return ""
}

func (x *Tr) effects() []*Eff {
	var out []*Eff
	var walk func(es []*Event, idx int, l *LoopInfo, b *LoopBack, st *State)
	walk = func(es []*Event, idx int, l *LoopInfo, b *LoopBack, st *State) {
		for i, e := range es {
			n := idx
			if n < 0 {
				n = i
			}
			f := &Eff{Ev: e, Idx: n, Loop: l, Back: b}
			switch e.Kind {
			case "mapset":
				f.Kind, f.Store, f.Key = "set", x.storeName(e.Args[0]), e.Args[1]
				if len(e.Args) > 3 {
					f.Cred = st.snapshot(e.Args[3], 0)
				}
				f.Obj = e.Args[0]
			case "mapdel":
				f.Kind, f.Store, f.Obj = "del", x.storeName(e.Args[0]), e.Args[0]
				if len(e.Args) > 1 && e.Name != "clear" {
					f.Key = e.Args[1]
				} else {
					f.Kind = "clear"
				}
			case "store":
				f.Val = e.Args[1]
				a := e.Args[0]
				f.Obj = a
				f.Kind = "other"
				if a.Op == "fa" {
					f.Field = a.Name
					base := a.Args[0]
					switch {
					case base.Op == "lookup" || base.Op == "nextval":
						if s := x.storeName(base.Args[0]); s != "" {
							f.Kind, f.Store, f.Obj = "field", s, base
							if base.Op == "lookup" {
								f.Key = base.Args[1]
							}
						}
					}
				}
				if f.Kind == "other" && x.s != nil && root(a) == x.s {
					f.Kind = "server"
				}
				if f.Kind == "other" && a.contains(func(t *Term) bool { return (t.Op == "lookup" || t.Op == "nextval") && x.storeName(t.Args[0]) != "" }) {
					f.Kind = "server"
				}
			case "gstore":
				f.Kind, f.Obj = "global", e.Args[0]
			case "loop":
				for k := range e.Loop.Backs {
					bk := &e.Loop.Backs[k]
					walk(bk.Events, n, e.Loop, bk, bk.St)
				}
				continue
			default:
				continue
			}
			out = append(out, f)
		}
	}
	walk(x.Events, -1, nil, nil, x.St)
	return out
}

// stateEffects are the changes of the server's stores and configuration.
func (x *Tr) stateEffects() []*Eff {
	var out []*Eff
	for _, e := range x.eff {
		if e.Kind == "server" || e.Store != "" {
			out = append(out, e)
		}
	}
	return out
}

func (x *Tr) sets(stores ...string) []*Eff {
	var out []*Eff
	for _, e := range x.eff {
		if e.Kind != "set" {
			continue
		}
		for _, s := range stores {
			if e.Store == s {
				out = append(out, e)
			}
		}
	}
	return out
}

// structField selects a field of a struct value term.
func structField(v *Term, f string) *Term {
	for v != nil && (v.Op == "ptr" || v.Op == "iface") {
		v = v.Args[0]
	}
	if v == nil || v.T == nil {
		return nil
	}
	st, ok := derefType(v.T).(*types.Struct)
	if !ok {
		if st, ok = v.T.Underlying().(*types.Struct); !ok {
			return nil
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			if v.Op == "struct" {
				return v.Args[i]
			}
			return mkSel(v, f, st.Field(i).Type())
		}
	}
	return nil
}

// --- responses ---

// Resp is what a path writes to the client.
type Resp struct {
	Status   []int // event indexes
	Bodies   []int
	Code     *Term            // status code
	Hdr      map[string]*Term // headers when the status is sent
	HdrAll   map[string]*Term // including later ones
	Late     []*Event         // header changes after the status
	InLoop   bool
	Escapes  []*Event
	Loc      *Loc
	JSON     map[string]*JF
	JSONVal  *Term
	JSONType types.Type
	Raw      *Term
	First    int // index of the event that commits the response
	Writes   []*Event
}

// JF is a field of a JSON document.
type JF struct {
	Val       *Term
	OmitEmpty bool
	Field     string
}

func (x *Tr) response() *Resp {
	p := &Resp{Hdr: map[string]*Term{}, HdrAll: map[string]*Term{}, First: -1}
	if x.w == nil {
		return p
	}
	mine := func(e *Event) bool { return len(e.Args) > 0 && e.Args[0] == x.w }
	var inLoop func(e *Event)
	inLoop = func(e *Event) {
		for _, b := range e.Loop.Backs {
			for _, y := range b.Events {
				switch y.Kind {
				case "status", "body":
					if mine(y) {
						p.InLoop = true
						p.Writes = append(p.Writes, y)
					}
				case "wescape":
					p.Escapes = append(p.Escapes, y)
				case "loop":
					inLoop(y)
				case "hset", "hadd", "hdel":
					if !mine(y) {
						continue
					}
					if p.First >= 0 {
						p.Late = append(p.Late, y)
						continue
					}
					// may replace what was set before
					k, known := y.Args[1].str()
					for n, v := range p.Hdr {
						if !known || n == k {
							p.Hdr[n] = mk("maybe", "", nil, v, y.Args[len(y.Args)-1])
						}
					}
					if known && p.Hdr[k] == nil && y.Kind != "hdel" {
						p.Hdr[k] = mk("maybe", "", nil, y.Args[2])
					}
				}
			}
		}
	}
	for i, e := range x.Events {
		switch e.Kind {
		case "hset", "hadd":
			if !mine(e) {
				continue
			}
			if p.First >= 0 {
				p.Late = append(p.Late, e)
			} else {
				if k, ok := e.Args[1].str(); ok {
					if old := p.Hdr[k]; e.Kind == "hadd" && old != nil {
						p.Hdr[k] = mk("values", "", nil, old, e.Args[2])
					} else {
						p.Hdr[k] = e.Args[2]
					}
				} else {
					p.Hdr["?"+termID(e.Args[1])] = e.Args[2]
				}
			}
		case "hdel":
			if !mine(e) {
				continue
			}
			if p.First >= 0 {
				p.Late = append(p.Late, e)
			} else if k, ok := e.Args[1].str(); ok {
				delete(p.Hdr, k)
			}
		case "status":
			if mine(e) {
				p.Status = append(p.Status, i)
				p.Writes = append(p.Writes, e)
				if p.First < 0 {
					p.First = i
					p.Code = e.Args[1]
				}
			}
		case "body":
			if mine(e) {
				p.Bodies = append(p.Bodies, i)
				p.Writes = append(p.Writes, e)
				if p.First < 0 {
					p.First = i
					p.Code = mkInt(200)
				}
				if e.Name == "json" {
					p.setJSON(x.St, e.Args[1])
				} else if !e.Args[1].isNil() && !e.Args[1].isStr("") {
					if a := e.Args[1]; a.contains(func(t *Term) bool { return t.isCall("encoding/json.Marshal") }) {
						a.walk(func(t *Term) {
							if t.isCall("encoding/json.Marshal") {
								p.setJSON(x.St, t.Args[0])
							}
						})
					} else {
						p.Raw = e.Args[1]
					}
				}
			}
		case "wescape":
			if mine(e) {
				p.Escapes = append(p.Escapes, e)
			}
		case "loop":
			inLoop(e)
		}
	}
	if p.First >= 0 && len(p.Bodies) == 0 && p.JSON == nil {
		// the document could not be encoded: like a write that failed
		for _, f := range x.St.facts {
			if f.Pol || f.T.Op != "eq" {
				continue
			}
			for i, a := range f.T.Args {
				if a.Op == "ret" && a.Name == "1" && a.Args[0].isCall("encoding/json.Marshal") && f.T.Args[1-i].isNil() {
					p.setJSON(x.St, a.Args[0].Args[0])
				}
			}
		}
	}
	if l := p.Hdr["Location"]; l != nil {
		p.Loc = parseLocation(x.St, l)
	}
	return p
}

func (p *Resp) setJSON(st *State, v *Term) {
	p.JSON, p.JSONType = jsonFields(v)
	p.JSONVal = v
}

// jsonFields lists the fields of the JSON document a value encodes to.
func jsonFields(v *Term) (map[string]*JF, types.Type) {
	for v != nil && (v.Op == "iface" || v.Op == "ptr") {
		v = v.Args[0]
	}
	if v == nil {
		return nil, nil
	}
	if v.Op == "mapval" {
		m := map[string]*JF{}
		for _, e := range v.Args[1:] {
			if k, ok := e.Args[0].str(); ok && e.Name == "set" {
				val := e.Args[1]
				if val.Op == "iface" {
					val = val.Args[0]
				}
				m[k] = &JF{Val: val, Field: k}
			}
		}
		return m, v.T
	}
	if v.T == nil {
		return nil, nil
	}
	t := v.T
	if d := derefType(t); d != nil {
		t = d
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil, t
	}
	m := map[string]*JF{}
	for _, f := range jsonTable(t) {
		m[f.name] = &JF{Val: structField(v, f.field), OmitEmpty: f.omit, Field: f.field}
	}
	return m, t
}

type jsonField struct {
	name, field string
	omit        bool
	quoted      bool // encoded as a string whatever its type
	typ         types.Type
}

// jsonTable lists the JSON fields of a struct type according to its tags.
func jsonTable(t types.Type) []jsonField {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []jsonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jsonField{name: parts[0], field: f.Name(), typ: f.Type()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range parts[1:] {
			_, basic := f.Type().Underlying().(*types.Basic)
			if o == "omitempty" || o == "omitzero" && basic { // an empty list is not its zero value
				jf.omit = true
			}
			jf.quoted = jf.quoted || o == "string"
		}
		out = append(out, jf)
	}
	return out
}

// Loc is the target of a redirect.
type Loc struct {
	Base     *Term // the redirect URI
	Query    []*Term
	Frag     []*Term
	HasQuery bool
	HasFrag  bool
	Retained bool // the query of the base is kept
	Problem  string
}

// params are the parameters of a component: entries of a url.Values.
func entryMap(es []*Term) (map[string]*Term, string) {
	m := map[string]*Term{}
	for _, e := range es {
		k, ok := e.Args[0].str()
		if !ok {
			return m, "parameter name is not constant"
		}
		if m[k] != nil {
			return m, "parameter " + k + " is given twice"
		}
		v := e.Args[1]
		switch e.Name {
		case "add":
		case "set":
			if v.Op != "list" || len(v.Args) != 1 {
				return m, "parameter " + k + " has not exactly one value"
			}
			v = v.Args[0]
		default:
			return m, "parameters are set in an unknown way"
		}
		m[k] = v
	}
	return m, ""
}

func parseLocation(st *State, t *Term) *Loc {
	l := &Loc{Retained: true}
	if t.Op == "values" {
		l.Problem = "the Location header has several values"
		return l
	}
	parts := []*Term{t}
	if t.Op == "concat" {
		parts = t.Args
	}
	u := parts[0]
	base := func(u *Term) {
		switch {
		case u.isCall("(*net/url.URL).String"):
			o, with := u.Args[0], u.Args[1:]
			if c, ws := copiedURL(o); c != nil {
				o, with = c, append(ws, with...)
			}
			if o.Op == "ptr" {
				l.Problem = "the redirect is not derived from a parsed URI"
				return
			}
			if o.Op == "ret" && o.Name == "0" && (o.Args[0].isCall("net/url.ParseRequestURI") || o.Args[0].isCall("net/url.Parse")) {
				l.Base = o.Args[0].Args[0]
			} else {
				l.Problem = "the redirect is not derived from a parsed URI"
			}
			for _, w := range with {
				switch w.Name {
				case "RawQuery":
					l.HasQuery = true
					l.query(w.Args[0], o)
				case "Fragment", "RawFragment":
					l.HasFrag = true
					l.Frag = append(l.Frag, encoded(w.Args[0])...)
					l.Problem = "the fragment is encoded a second time"
				default:
					l.Problem = "the redirect changes the " + w.Name + " of the URI"
				}
			}
		default:
			l.Base = u
		}
	}
	base(u)
	rest := parts[1:]
	if len(rest) == 0 {
		return l
	}
	sep, _ := rest[0].str()
	switch {
	case sep == "#" && len(rest) == 2:
		l.HasFrag = true
		l.Frag = encoded(rest[1])
		if l.Frag == nil {
			l.Problem = "the fragment is not form encoded"
		}
	case (sep == "?" || sep == "&") && len(rest) == 2:
		l.HasQuery = true
		l.Query = encoded(rest[1])
		l.Problem = "the query is appended textually"
	default:
		l.Problem = "the location is put together in an unknown way"
		for _, p := range rest {
			p.walk(func(t *Term) {
				if es := encoded(t); es != nil {
					l.Query = append(l.Query, es...)
				}
			})
		}
		l.HasQuery = true
	}
	return l
}

// copiedURL recognises a copy of a parsed URL and lists the fields that differ.
func copiedURL(o *Term) (*Term, []*Term) {
	if o.Op != "ptr" || o.Args[0].Op != "struct" || o.Args[0].Name != "net/url.URL" {
		return nil, nil
	}
	v := o.Args[0]
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(v.Args) {
		return nil, nil
	}
	// the original of most fields
	n := map[*Term]int{}
	orig := func(i int) *Term {
		a := v.Args[i]
		if a.Op != "sel" || a.Name != st.Field(i).Name() {
			return nil
		}
		if b := a.Args[0]; b.Op == "sel" && b.Name == "*" {
			return b.Args[0]
		}
		return a.Args[0]
	}
	var best *Term
	for i := range v.Args {
		if b := orig(i); b != nil {
			n[b]++
			if best == nil || n[b] > n[best] {
				best = b
			}
		}
	}
	if best == nil {
		return nil, nil
	}
	var ws []*Term
	for i, a := range v.Args {
		if orig(i) != best {
			ws = append(ws, mk("with", st.Field(i).Name(), nil, a))
		}
	}
	return best, ws
}

// encoded returns the entries of an encoded url.Values without a base.
func encoded(t *Term) []*Term {
	if t.isCall("(net/url.Values).Encode") && t.Args[0].Op == "mapval" && t.Args[0].Name != "unknown" && t.Args[0].Args[0].Op == "emptymap" {
		return t.Args[0].Args[1:]
	}
	return nil
}

func (l *Loc) query(t, url *Term) {
	if !t.isCall("(net/url.Values).Encode") || t.Args[0].Op != "mapval" || t.Args[0].Name == "unknown" {
		l.Problem = "the query is not form encoded"
		return
	}
	m := t.Args[0]
	l.Query = m.Args[1:]
	b := m.Args[0]
	if b.Op != "query" || b.Args[0] != sel(url, "RawQuery") {
		l.Retained = false
	}
	for _, e := range m.Args[1:] {
		if e.Name != "add" && e.Name != "loopadd" {
			l.Retained = false // may replace parameters of the base
		}
	}
}

var errParam = regexp.MustCompile(`error="([a-z_]*)"`)

// errCode is the OAuth2 error code the response carries.
func (x *Tr) errCode() (code string, isErr bool) {
	p := x.resp
	if p.JSON != nil && p.JSON["error"] != nil {
		if s, ok := p.JSON["error"].Val.str(); ok {
			return s, true
		}
		return "?", true
	}
	if p.Loc != nil {
		for _, es := range [][]*Term{p.Loc.Query, p.Loc.Frag} {
			for _, e := range es {
				if e.Args[0].isStr("error") {
					v := e.Args[1]
					if v.Op == "list" && len(v.Args) == 1 {
						v = v.Args[0]
					}
					if s, ok := v.str(); ok {
						return s, true
					}
					return "?", true
				}
			}
		}
	}
	if h := p.Hdr["Www-Authenticate"]; h != nil {
		h.walk(func(t *Term) {
			if s, ok := t.str(); ok {
				if m := errParam.FindStringSubmatch(s); m != nil {
					code = m[1]
				}
			}
		})
		if code != "" {
			return code, true
		}
	}
	if p.Code != nil {
		n, ok := p.Code.intVal()
		if !ok {
			return "?", true
		}
		if n >= 400 {
			return "", true
		}
	}
	return "", false
}

// kind classifies the outcome of the request.
func (x *Tr) kind() string {
	p := x.resp
	if _, e := x.errCode(); e {
		if x.ep == "" || !known4[x.ep] {
			return "notfound"
		}
		return "error"
	}
	switch {
	case p.Loc != nil:
		for _, es := range [][]*Term{p.Loc.Query, p.Loc.Frag} {
			for _, e := range es {
				if e.Args[0].isStr("access_token") {
					return "token-redirect"
				}
				if e.Args[0].isStr("code") {
					return "code-redirect"
				}
			}
		}
		return "redirect"
	case p.JSON != nil && p.JSON["access_token"] != nil:
		return "token"
	case p.JSON != nil && p.JSON["active"] != nil:
		return "introspection"
	case p.JSON != nil:
		return "json"
	case p.Raw != nil:
		return "notice"
	case p.First >= 0:
		return "ok"
	}
	return "none"
}

var known4 = map[string]bool{"authorize": true, "token": true, "introspect": true, "revoke": true}

// jsonStr returns a field of the JSON document.
func (p *Resp) field(n string) *Term {
	if p.JSON == nil || p.JSON[n] == nil {
		return nil
	}
	return p.JSON[n].Val
}

// delivered lists the token values the response carries by parameter name.
func (x *Tr) delivered() map[string]*Term {
	m := map[string]*Term{}
	for _, n := range []string{"access_token", "refresh_token", "code"} {
		if v := x.resp.field(n); v != nil && !v.isStr("") {
			m[n] = v
		}
	}
	if l := x.resp.Loc; l != nil {
		for _, es := range [][]*Term{l.Query, l.Frag} {
			ps, _ := entryMap(es)
			for _, n := range []string{"access_token", "refresh_token", "code"} {
				if ps[n] != nil {
					m[n] = ps[n]
				}
			}
		}
	}
	return m
}
