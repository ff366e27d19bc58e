// Package list lists small changes of the module's source.
package list

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Edit replaces a part of a file.
type Edit struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Fn   string `json:"fn"`
	Old  string `json:"old"`
}

var (
	fset *token.FileSet
	src  []byte
	file string
	fn   string
	out  []Edit
	seen = map[string]bool{}
	pkg  *packages.Package
)

func off(p token.Pos) int { return fset.Position(p).Offset }

func add(op string, from, to token.Pos, n string) { addAt(op, off(from), off(to), from, n) }
func addAt(op string, a, b int, p token.Pos, n string) {
	if string(src[a:b]) == n {
		return
	}
	k := fmt.Sprint(file, a, b, n)
	if seen[k] {
		return
	}
	seen[k] = true
	out = append(out, Edit{file, a, b, n, fset.Position(p).Line, op, fn, string(src[a:b])})
}
func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
func typ(e ast.Expr) types.Type {
	if tv, ok := pkg.TypesInfo.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := pkg.TypesInfo.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Edits lists the changes of a module.
func Edits(dir string) []Edit {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		pkg, fset = p, p.Fset
		for _, f := range p.Syntax {
			name := fset.Position(f.Pos()).Filename
			file, _ = filepath.Rel(dir, name)
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err = os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					fn = d.Name.Name
					if d.Body != nil {
						function(d)
					}
				case *ast.GenDecl:
					fn = ""
					ast.Inspect(d, func(n ast.Node) bool { literal(n); return true })
					tags(d)
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		return out[i].File < out[j].File || out[i].File == out[j].File && out[i].From < out[j].From
	})
	return out
}

func tags(d *ast.GenDecl) {
	ast.Inspect(d, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok && f.Tag != nil {
			t := f.Tag.Value
			if strings.Contains(t, ",omitempty") {
				add("tag-omitempty", f.Tag.Pos(), f.Tag.End(), strings.Replace(t, ",omitempty", "", 1))
			} else if strings.Contains(t, `"-"`) {
				add("tag-export", f.Tag.Pos(), f.Tag.End(), "")
			} else {
				add("tag-omitempty", f.Tag.Pos(), f.Tag.End(), strings.Replace(t, "\"`", ",omitempty\"`", 1))
			}
			add("tag-hide", f.Tag.Pos(), f.Tag.End(), "`json:\"-\"`")
			add("tag-drop", f.Tag.Pos(), f.Tag.End(), "")
		}
		return true
	})
}

func literal(n ast.Node) {
	l, ok := n.(*ast.BasicLit)
	if !ok {
		return
	}
	switch l.Kind {
	case token.INT:
		if v, err := strconv.Atoi(l.Value); err == nil {
			add("int+1", l.Pos(), l.End(), strconv.Itoa(v+1))
			if v > 0 {
				add("int-1", l.Pos(), l.End(), strconv.Itoa(v-1))
			}
			add("int0", l.Pos(), l.End(), "0")
		}
	case token.STRING:
		if strings.HasPrefix(l.Value, "`json:") {
			return
		}
		s, err := strconv.Unquote(l.Value)
		if err != nil {
			return
		}
		add("str-x", l.Pos(), l.End(), strconv.Quote(s+"x"))
		if s != "" {
			add("str-empty", l.Pos(), l.End(), `""`)
		}
		if u := strings.ToUpper(s); u != s {
			add("str-upper", l.Pos(), l.End(), strconv.Quote(u))
		}
	}
}

func function(d *ast.FuncDecl) {
	// variables in scope by position
	var vars []*types.Var
	ast.Inspect(d, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := pkg.TypesInfo.Defs[id].(*types.Var); ok && v.Name() != "_" && v.Name() != "" {
				vars = append(vars, v)
			}
		}
		return true
	})
	// swapped identifiers
	lhs := map[ast.Node]bool{}
	keys := map[ast.Node]bool{}
	ast.Inspect(d, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				lhs[l] = true
			}
		case *ast.KeyValueExpr:
			keys[n.Key] = true
		case *ast.SelectorExpr:
			keys[n.Sel] = true
		}
		return true
	})
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			if lhs[n] || keys[n] {
				return true
			}
			v, ok := pkg.TypesInfo.Uses[n].(*types.Var)
			if !ok || v.IsField() {
				return true
			}
			cnt := 0
			for i := len(vars) - 1; i >= 0 && cnt < 4; i-- {
				u := vars[i]
				if u == v || u.Pos() >= n.Pos() || !types.Identical(u.Type(), v.Type()) {
					continue
				}
				sc := u.Parent()
				if sc == nil || !sc.Contains(n.Pos()) {
					continue
				}
				add("var", n.Pos(), n.End(), u.Name())
				cnt++
			}
		case *ast.SelectorExpr:
			selector(n)
			s := pkg.TypesInfo.Selections[n]
			if s != nil && s.Kind() == types.FieldVal {
				st := s.Recv()
				if p, ok := st.Underlying().(*types.Pointer); ok {
					st = p.Elem()
				}
				if t, ok := st.Underlying().(*types.Struct); ok && strings.Contains(st.String(), "256dpi") {
					cnt := 0
					at := 0
					for i := 0; i < t.NumFields(); i++ {
						if t.Field(i).Name() == n.Sel.Name {
							at = i
						}
					}
					for i := 1; i < t.NumFields() && cnt < 3; i++ {
						f := t.Field((at + i) % t.NumFields())
						if types.Identical(f.Type(), s.Obj().Type()) && f != s.Obj() {
							add("field", n.Sel.Pos(), n.Sel.End(), f.Name())
							cnt++
						}
					}
				}
			}
		case *ast.BinaryExpr:
			binary(n)
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add("unnot", n.Pos(), n.End(), text(n.X))
			}
		case *ast.IfStmt:
			add("cond-neg", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
			add("cond-true", n.Cond.Pos(), n.Cond.End(), "true || "+paren(n.Cond))
			add("cond-false", n.Cond.Pos(), n.Cond.End(), "false && "+paren(n.Cond))
			if n.Else != nil {
				addAt("else-drop", off(n.Body.End()), off(n.Else.End()), n.Else.Pos(), "")
			}
		case *ast.BlockStmt:
			for i, s := range n.List {
				stmt(s)
				if i+1 < len(n.List) {
					t := n.List[i+1]
					if !endsFlow(s) && !endsFlow(t) {
						addAt("swap", off(s.Pos()), off(t.End()), s.Pos(), text(t)+"\n"+text(s))
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s)
			}
			for i, e := range n.List {
				if len(n.List) > 1 {
					var rest []string
					for k, o := range n.List {
						if k != i {
							rest = append(rest, text(o))
						}
					}
					add("case-drop", n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(rest, ", "))
				}
				_ = e
			}
		case *ast.CallExpr:
			call(n)
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					a, b := off(kv.Pos()), off(kv.End())
					if b < len(src) && src[b] == ',' {
						b++
					}
					addAt("elt-drop", a, b, kv.Pos(), "")
				}
			}
			// values of the same type in other fields
			for i, e := range n.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				cnt := 0
				for j := 1; j < len(n.Elts) && cnt < 2; j++ {
					o, ok := n.Elts[(i+j)%len(n.Elts)].(*ast.KeyValueExpr)
					if ok && typ(kv.Value) != nil && typ(o.Value) != nil && types.Identical(typ(kv.Value), typ(o.Value)) {
						add("elt-value", kv.Value.Pos(), kv.Value.End(), text(o.Value))
						cnt++
					}
				}
			}
		case *ast.ReturnStmt:
			results(n)
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.BREAK {
				add("branch", n.Pos(), n.End(), "continue")
			} else if n.Label == nil && n.Tok == token.CONTINUE {
				add("branch", n.Pos(), n.End(), "break")
			}
		case *ast.SliceExpr:
			for _, e := range []ast.Expr{n.Low, n.High} {
				if e != nil {
					add("slice+1", e.Pos(), e.End(), text(e)+"+1")
					add("slice-1", e.Pos(), e.End(), text(e)+"-1")
				}
			}
		case *ast.DeferStmt:
			add("undefer", n.Pos(), n.End(), text(n.Call))
		}
		literal(n)
		return true
	})
}

func paren(e ast.Expr) string { return "(" + text(e) + ")" }

func endsFlow(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeclStmt:
		return true
	}
	return false
}

func stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.BranchStmt:
		add("del", s.Pos(), s.End(), "")
	case *ast.IfStmt:
		add("del-if", s.Pos(), s.End(), "")
		if s.Init == nil && s.Else == nil {
			// unconditional body is cond-true; body without condition effects
		}
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add("del-assign", s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add("del-return", s.Pos(), s.End(), "")
		}
	}
}

func binary(n *ast.BinaryExpr) {
	rep := map[token.Token][]string{
		token.LAND: {"||"}, token.LOR: {"&&"},
		token.EQL: {"!="}, token.NEQ: {"=="},
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	}
	if n.Op == token.ADD {
		if t := typ(n); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				add("concat-l", n.Pos(), n.End(), text(n.X))
				add("concat-r", n.Pos(), n.End(), text(n.Y))
				return
			}
		}
	}
	for _, r := range rep[n.Op] {
		addAt("binop", off(n.OpPos), off(n.OpPos)+len(n.Op.String()), n.OpPos, r)
	}
	if n.Op == token.LAND || n.Op == token.LOR {
		add("drop-r", n.Pos(), n.End(), text(n.X))
		add("drop-l", n.Pos(), n.End(), text(n.Y))
	}
}

func call(n *ast.CallExpr) {
	for i, a := range n.Args {
		for k := i + 1; k < len(n.Args); k++ {
			b := n.Args[k]
			if typ(a) != nil && typ(b) != nil && types.Identical(typ(a), typ(b)) {
				addAt("swap-args", off(a.Pos()), off(b.End()), a.Pos(), text(b)+string(src[off(a.End()):off(b.Pos())])+text(a))
			}
		}
		if t := typ(a); t != nil {
			if tv := pkg.TypesInfo.Types[a]; tv.Value == nil || tv.Value.Kind() == constant.Bool {
				switch {
				case isBool(t):
					add("arg-neg", a.Pos(), a.End(), "!("+text(a)+")")
				default:
					if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						add("arg-empty", a.Pos(), a.End(), `""`)
					} else if _, ok := t.Underlying().(*types.Slice); ok {
						add("arg-nil", a.Pos(), a.End(), "nil")
					}
				}
			}
		}
	}
	// wrapping call removed: f(x) -> x
	if len(n.Args) == 1 {
		if t, u := typ(n), typ(n.Args[0]); t != nil && u != nil && types.Identical(t, u) {
			add("unwrap", n.Pos(), n.End(), text(n.Args[0]))
		}
	}
	if s, ok := n.Fun.(*ast.SelectorExpr); ok {
		if t, u := typ(n), typ(s.X); t != nil && u != nil && types.Identical(t, u) {
			add("unwrap-recv", n.Pos(), n.End(), text(s.X))
		}
		// sibling functions with the same signature
		sibling(n, s)
	}
	if id, ok := n.Fun.(*ast.Ident); ok {
		siblingIdent(id)
	}
	if t := typ(n); t != nil && isBool(t) {
		add("call-neg", n.Pos(), n.End(), "!"+text(n))
	}
}

var pairs = map[string][]string{
	"Set": {"Add"}, "Add": {"Set"}, "Form": {"PostForm"}, "PostForm": {"Form"}, "After": {"Before"}, "Before": {"After"},
	"Lock": {"Unlock"}, "Unlock": {"Lock"}, "RLock": {"Lock"},
	"StatusBadRequest": {"StatusUnauthorized"}, "StatusUnauthorized": {"StatusForbidden"}, "StatusForbidden": {"StatusUnauthorized"},
	"StatusOK": {"StatusAccepted", "StatusNoContent"}, "StatusSeeOther": {"StatusFound", "StatusTemporaryRedirect"}, "StatusInternalServerError": {"StatusBadGateway"},
	"EqualFold": {"HasPrefix", "Contains"}, "HasPrefix": {"HasSuffix"}, "QueryEscape": {"PathEscape"}, "QueryUnescape": {"PathUnescape"},
	"RawURLEncoding": {"URLEncoding", "RawStdEncoding"}, "AccessTokens": {"RefreshTokens"}, "RefreshTokens": {"AccessTokens"},
	"AccessTokenLifespan": {"RefreshTokenLifespan", "AuthorizationCodeLifespan"}, "ParseRequestURI": {"Parse"}, "ReadFull": nil,
	"SignatureString": {"String", "KeyString"}, "String": {"SignatureString"}, "KeyString": {"SignatureString"}, "Includes": nil,
}

func sibling(n *ast.CallExpr, s *ast.SelectorExpr) {}

func selector(s *ast.SelectorExpr) { siblingIdent(s.Sel) }

func init() {
	for k, v := range map[string][]string{"InvalidGrant": {"InvalidRequest", "AccessDenied"}, "InvalidRequest": {"InvalidGrant", "ServerError"}, "InvalidClient": {"UnauthorizedClient", "InvalidRequest"},
		"InvalidScope": {"InvalidRequest"}, "InvalidToken": {"InvalidRequest"}, "AccessDenied": {"InvalidRequest"}, "UnsupportedGrantType": {"InvalidGrant"}, "UnsupportedResponseType": {"InvalidRequest"}, "UnsupportedTokenType": {"InvalidRequest"},
		"KnownGrantType": {"KnownTokenType"}, "KnownResponseType": {"KnownGrantType"}, "KnownTokenType": {"KnownGrantType"}} {
		pairs[k] = v
	}
}

func siblingIdent(id *ast.Ident) {
	for _, r := range pairs[id.Name] {
		add("sibling", id.Pos(), id.End(), r)
	}
}

func results(n *ast.ReturnStmt) {
	for _, r := range n.Results {
		t := typ(r)
		if t == nil {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				add("ret-neg", r.Pos(), r.End(), "!("+text(r)+")")
			case u.Info()&types.IsString != 0:
				add("ret-empty", r.Pos(), r.End(), `""`)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			if text(r) != "nil" {
				add("ret-nil", r.Pos(), r.End(), "nil")
			}
		}
	}
}
