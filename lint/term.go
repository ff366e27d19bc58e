package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed canonical value term. Two program values that the
// analysis can show to be computed the same way are the same *Term.
type Term struct {
	Op   string
	Name string
	Args []*Term
	T    types.Type
	id   int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(op, name string, t types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte('|')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if x := termTab[k]; x != nil {
		if x.T == nil {
			x.T = t
		}
		return x
	}
	x := &Term{Op: op, Name: name, Args: args, T: t, id: len(termList)}
	termTab[k] = x
	termList = append(termList, x)
	return x
}

var (
	tTrue  = mk("const", "true", types.Typ[types.Bool])
	tFalse = mk("const", "false", types.Typ[types.Bool])
	tNil   = mk("const", "nil", nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkStr(s string) *Term { return mk("const", strconv.Quote(s), types.Typ[types.String]) }
func mkInt(i int64) *Term  { return mk("const", strconv.FormatInt(i, 10), types.Typ[types.Int]) }

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroTerm(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mk("const", strconv.Quote(constant.StringVal(v)), t)
	default:
		return mk("const", v.ExactString(), t)
	}
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mk("const", `""`, t)
		case u.Info()&types.IsNumeric != 0:
			return mk("const", "0", t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk("zero", types.TypeString(t, nil), t)
	}
	return tNil
}

func (t *Term) isConst() bool { return t != nil && t.Op == "const" }
func (t *Term) isNil() bool   { return t == tNil }

func (t *Term) str() (string, bool) {
	if t == nil || t.Op != "const" || !strings.HasPrefix(t.Name, `"`) {
		return "", false
	}
	s, err := strconv.Unquote(t.Name)
	return s, err == nil
}

func (t *Term) isStr(s string) bool {
	v, ok := t.str()
	return ok && v == s
}

func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Name, 10, 64)
	return v, err == nil
}

func (t *Term) isInt(n int64) bool {
	v, ok := t.intVal()
	return ok && v == n
}

// is reports whether the term has the operator and name.
func (t *Term) is(op, name string) bool { return t != nil && t.Op == op && t.Name == name }

// isCall reports whether the term is the (only or tuple) result of a call to
// the named function.
func (t *Term) isCall(name string) bool {
	return t != nil && t.Op == "call" && callName(t) == name
}

// callName strips the instance suffix of impure calls.
func callName(t *Term) string {
	if i := strings.IndexByte(t.Name, '@'); i >= 0 {
		return t.Name[:i]
	}
	return t.Name
}

func (t *Term) walk(f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, a := range t.Args {
		a.walk(f)
	}
}

func (t *Term) contains(p func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) {
		if p(x) {
			found = true
		}
	})
	return found
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	switch t.Op {
	case "const":
		return t.Name
	case "param", "alloc", "global", "func", "loopvar", "mkmap":
		return t.Name
	case "fa":
		return "&" + t.Args[0].String() + "." + t.Name
	case "ia":
		return "&" + t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "sel":
		return t.Args[0].String() + "." + t.Name
	case "gload":
		return t.Name
	case "not":
		return "!" + t.Args[0].String()
	case "eq":
		return "(" + t.Args[0].String() + " == " + t.Args[1].String() + ")"
	case "lt":
		return "(" + t.Args[0].String() + " < " + t.Args[1].String() + ")"
	case "ret":
		return t.Args[0].String() + "." + t.Name
	case "iface":
		return "(" + shortType(t.Name) + ")" + t.Args[0].String()
	case "lookup":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]" + t.Name
	case "haskey":
		return t.Args[0].String() + " has " + t.Args[1].String() + t.Name
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	n := t.Op
	if t.Op == "call" {
		n = shortType(t.Name)
	} else if t.Name != "" {
		n += ":" + shortType(t.Name)
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

func shortType(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "oauth2")
	return s
}

// --- canonicalising constructors ---

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// bytesOf returns the string a byte slice was converted from, if known.
func bytesOf(t *Term) *Term {
	if t.Op == "conv" && len(t.Args) == 1 && t.Args[0].T != nil && isStringType(t.Args[0].T) {
		return t.Args[0]
	}
	return nil
}

// mkBytesEq is the equality of two byte slices; name tells whether the
// comparison takes constant time ("ct") or not ("var").
func mkBytesEq(a, b *Term, name string) *Term {
	if x, y := bytesOf(a), bytesOf(b); x != nil && y != nil {
		return mkEq(x, y)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("bytesEq", name, types.Typ[types.Bool], a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if b.isRestLen() {
		a, b = b, a
	}
	if a.isRestLen() {
		// the rest of a list never begins behind its end
		if l, i := a.rest(); b.isInt(0) {
			return mkNot(mkLt(i, l))
		} else if _, ok := b.intVal(); ok {
			return mkEq(l, mkAdd(i, b, i.T))
		}
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.Name == b.Name)
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	switch b {
	case tTrue:
		return a
	case tFalse:
		return mkNot(a)
	}
	if a.Op == "call" {
		switch callName(a) {
		case "crypto/subtle.ConstantTimeCompare":
			if b.isInt(1) {
				return mkBytesEq(a.Args[0], a.Args[1], "ct")
			}
			if b.isInt(0) {
				return mkNot(mkBytesEq(a.Args[0], a.Args[1], "ct"))
			}
		case "strings.Compare":
			if b.isInt(0) {
				return mkEq(a.Args[0], a.Args[1])
			}
		case "bytes.Compare":
			if b.isInt(0) {
				return mkBytesEq(a.Args[0], a.Args[1], "var")
			}
		}
	}
	if a.Op == "concat" && b.isStr("") {
		for _, p := range a.Args {
			if p.isConst() {
				return tFalse
			}
		}
	}
	// results that are nil exactly if there is an error
	if a.is("ret", "0") && b == tNil && a.Args[0].Op == "call" {
		switch callName(a.Args[0]) {
		case "net/url.Parse", "net/url.ParseRequestURI", "net/http.NewRequest", modPath + ".ParseHS256Token": // the last by C18
			return mkNot(mkEq(mkRet(a.Args[0], 1, nil), tNil))
		}
	}
	if a.Op == "len" && b.isInt(0) && isStringType(a.Args[0].T) {
		return mkEq(a.Args[0], mkStr(""))
	}
	// string(a) == string(b) on byte slices
	if a.Op == "conv" && b.Op == "conv" && isStringType(a.T) && isStringType(b.T) {
		return mkBytesEq(a.Args[0], b.Args[0], "var")
	}
	if a.Op == "add" && len(a.Args) == 2 && a.Args[1].isConst() && b.isConst() {
		if c, ok := a.Args[1].intVal(); ok {
			if d, ok := b.intVal(); ok {
				return mkEq(a.Args[0], mkInt(d-c))
			}
		}
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func mkLt(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return mkBool(x < y)
		}
	}
	if a == b {
		return tFalse
	}
	if _, ok := b.intVal(); ok && a.isRestLen() {
		l, i := a.rest()
		return mkLt(l, mkAdd(i, b, i.T))
	}
	if _, ok := a.intVal(); ok && b.isRestLen() {
		l, i := b.rest()
		return mkLt(mkAdd(i, a, i.T), l)
	}
	if a.Op == "len" && b.isInt(1) {
		return mkEq(a, mkInt(0))
	}
	if a.Op == "len" && (b.isInt(0)) {
		return tFalse
	}
	if a.isInt(0) && b.Op == "len" {
		return mkNot(mkEq(b, mkInt(0)))
	}
	if a.isInt(-1) && b.Op == "len" {
		return tTrue
	}
	// index functions yield at least -1: x < 0 is x == -1
	if b.isInt(0) && isIndexCall(a) {
		return mkEq(a, mkInt(-1))
	}
	if a.isInt(-1) && isIndexCall(b) {
		return mkNot(mkEq(b, mkInt(-1)))
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// isRestLen tells whether a value is the length of what is left of a list from
// an index on.
func (t *Term) isRestLen() bool { return t.Op == "len" && t.Args[0].Op == "rest" }

// rest is the length of the list and the index.
func (t *Term) rest() (*Term, *Term) {
	return mkLen(t.Args[0].Args[0]), t.Args[0].Args[1]
}

func isListType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isIndexCall(t *Term) bool {
	if t.Op != "call" {
		return false
	}
	switch t.Name {
	case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny",
		"bytes.Index", "bytes.IndexByte", "bytes.LastIndexByte":
		return true
	}
	return false
}

func mkLen(x *Term) *Term {
	switch x.Op {
	case "const":
		if s, ok := x.str(); ok {
			return mkInt(int64(len(s)))
		}
		if x.isNil() {
			return mkInt(0)
		}
	case "list":
		return mkInt(int64(len(x.Args)))
	case "mkslice":
		return x.Args[0]
	case "conv":
		if len(x.Args) == 1 && isStringType(x.Args[0].T) != isStringType(x.T) {
			return mkLen(x.Args[0])
		}
	case "slice":
		// slice of an array pointer or string with constant bounds
		if lo, ok := x.Args[1].intVal(); ok && x.Args[2] != nil {
			if hi, ok := x.Args[2].intVal(); ok {
				return mkInt(hi - lo)
			}
		}
	}
	return mk("len", "", types.Typ[types.Int], x)
}

func mkAdd(a, b *Term, t types.Type) *Term {
	if isStringType(t) {
		var parts []*Term
		add := func(x *Term) {
			if x.Op == "concat" {
				parts = append(parts, x.Args...)
			} else {
				parts = append(parts, x)
			}
		}
		add(a)
		add(b)
		return mkConcat(parts)
	}
	if b.isConst() && !a.isConst() {
		// keep constant on the right
	} else if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return mk("const", strconv.FormatInt(x+y, 10), t)
	}
	if oky && y == 0 {
		return a
	}
	if oky && a.Op == "add" {
		if z, ok := a.Args[1].intVal(); ok {
			return mkAdd(a.Args[0], mk("const", strconv.FormatInt(z+y, 10), t), t)
		}
	}
	return mk("add", "", t, a, b)
}

// mkConcat joins string parts, merging constants.
func mkConcat(parts []*Term) *Term {
	var out, flat []*Term
	for _, p := range parts {
		if p.Op == "concat" {
			flat = append(flat, p.Args...)
		} else {
			flat = append(flat, p)
		}
	}
	for _, p := range flat {
		if s, ok := p.str(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].str(); ok {
					out[n-1] = mkStr(q + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

// mkSel selects a field of a struct value term.
func mkSel(base *Term, field string, t types.Type) *Term {
	switch base.Op {
	case "struct":
		if st, ok := base.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == field {
					return base.Args[i]
				}
			}
		}
	case "zero":
		return zeroTerm(t)
	}
	return mk("sel", field, t, base)
}

// mkRet selects a component of a tuple.
func mkRet(call *Term, i int, t types.Type) *Term {
	if call.Op == "tuple" {
		return call.Args[i]
	}
	return mk("ret", strconv.Itoa(i), t, call)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var _ = fmt.Sprint
