// Command refac lists behaviour-preserving edits of the module's source as JSON lines, to test that no check objects.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Edit replaces a range of a file.
type Edit struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Fn   string `json:"fn"`
	Line int    `json:"line"`
	Recv string `json:"recv"`
}

type gen struct {
	fset *token.FileSet
	pkg  *packages.Package
	file string
	src  []byte
	fd   *ast.FuncDecl
	out  func(Edit)
}

func (g *gen) off(p token.Pos) int           { return g.fset.Position(p).Offset }
func (g *gen) text(n ast.Node) string        { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }
func (g *gen) between(a, b token.Pos) string { return string(g.src[g.off(a):g.off(b)]) }

// edit emits the replacement of nodes from..to, optionally with text appended after the function.
func (g *gen) edit(op string, from, to token.Pos, text, after string) {
	a, b := g.off(from), g.off(to)
	if after == "" {
		g.out(Edit{g.file, a, b, string(g.src[a:b]), text, op, g.fd.Name.Name, g.fset.Position(from).Line, g.recv()})
		return
	}
	e := g.off(g.fd.End())
	g.out(Edit{g.file, a, e, string(g.src[a:e]), text + string(g.src[b:e]) + "\n\n" + after, op, g.fd.Name.Name, g.fset.Position(from).Line, g.recv()})
}

func (g *gen) recv() string {
	if g.fd.Recv == nil {
		return ""
	}
	return g.text(g.fd.Recv.List[0].Type)
}

func (g *gen) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == g.pkg.Types {
			return ""
		}
		return p.Name()
	})
}

// local tells whether an object is a local variable of the function.
func (g *gen) local(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pos() >= g.fd.Pos() && v.Pos() < g.fd.End()
}

type useSet struct {
	read, written []*types.Var // free variables
	defined       []*types.Var
}

// uses collects the variables of the nodes.
func (g *gen) uses(from, to token.Pos) useSet {
	var u useSet
	seen, def, wr := map[*types.Var]bool{}, map[*types.Var]bool{}, map[*types.Var]bool{}
	ast.Inspect(g.fd, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n.Pos() >= from && n.End() <= to {
				for _, l := range n.Lhs {
					for { // a part of a variable
						s, ok := l.(*ast.SelectorExpr)
						if !ok {
							break
						}
						if _, ok := g.pkg.TypesInfo.TypeOf(s.X).Underlying().(*types.Struct); !ok {
							break
						}
						l = s.X
					}
					if id, ok := l.(*ast.Ident); ok {
						if v, ok := g.pkg.TypesInfo.Uses[id].(*types.Var); ok && g.local(v) && (v.Pos() < from || v.Pos() >= to) && !wr[v] {
							wr[v] = true
							u.written = append(u.written, v)
						}
					}
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND && n.Pos() >= from && n.End() <= to {
				if id, ok := n.X.(*ast.Ident); ok {
					if v, ok := g.pkg.TypesInfo.Uses[id].(*types.Var); ok && g.local(v) && (v.Pos() < from || v.Pos() >= to) && !wr[v] {
						wr[v] = true
						u.written = append(u.written, v)
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := n.X.(*ast.Ident); ok && n.Pos() >= from && n.End() <= to {
				if v, ok := g.pkg.TypesInfo.Uses[id].(*types.Var); ok && g.local(v) && (v.Pos() < from || v.Pos() >= to) && !wr[v] {
					wr[v] = true
					u.written = append(u.written, v)
				}
			}
		case *ast.Ident:
			if n.Pos() < from || n.End() > to {
				return true
			}
			if v, ok := g.pkg.TypesInfo.Uses[n].(*types.Var); ok && g.local(v) && (v.Pos() < from || v.Pos() >= to) && !seen[v] {
				seen[v] = true
				u.read = append(u.read, v)
			}
			if v, ok := g.pkg.TypesInfo.Defs[n].(*types.Var); ok && g.local(v) && !def[v] {
				def[v] = true
				u.defined = append(u.defined, v)
			}
		}
		return true
	})
	return u
}

// usedAfter tells whether a variable is used at or after a position.
func (g *gen) usedAfter(v *types.Var, p token.Pos) bool {
	found := false
	ast.Inspect(g.fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Pos() >= p && g.pkg.TypesInfo.Uses[id] == v {
			found = true
		}
		return !found
	})
	return found
}

// jumps describes the jumps out of a node.
func jumps(n ast.Node) (ret, other bool) {
	loops := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				ret = true
			case *ast.DeferStmt, *ast.LabeledStmt:
				other = true
			case *ast.BranchStmt:
				if loops == 0 {
					other = true
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				loops++
				walk(m)
				loops--
				return false
			}
			return true
		})
	}
	walk(&ast.BlockStmt{List: []ast.Stmt{wrap(n)}})
	return
}

func wrap(n ast.Node) ast.Stmt {
	if s, ok := n.(ast.Stmt); ok {
		return s
	}
	return &ast.ExprStmt{X: n.(ast.Expr)}
}

func (g *gen) params(vs []*types.Var) (decl, call string) {
	var d, c []string
	for _, v := range vs {
		d = append(d, v.Name()+" "+g.typ(v.Type()))
		c = append(c, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(c, ", ")
}

func (g *gen) results(vs []*types.Var) (typ, names string) {
	var t, n []string
	for _, v := range vs {
		t = append(t, g.typ(v.Type()))
		n = append(n, v.Name())
	}
	typ = strings.Join(t, ", ")
	if len(t) > 1 {
		typ = "(" + typ + ")"
	}
	return typ, strings.Join(n, ", ")
}

// extract moves statements into a new function.
func (g *gen) extract(list []ast.Stmt, i, k int) {
	from, to := list[i].Pos(), list[k].End()
	ret := false
	for _, s := range list[i : k+1] {
		r, o := jumps(s)
		if o {
			return
		}
		ret = ret || r
	}
	noResult := g.fd.Type.Results == nil
	if !noResult && len(g.fd.Type.Results.List[0].Names) > 0 {
		return // they would have to be handed over
	}
	u := g.uses(from, to)
	var res []*types.Var
	isNew := true
	var oldRes []*types.Var
	for _, v := range u.defined {
		if g.usedAfter(v, to) {
			res = append(res, v)
		}
	}
	for _, v := range u.written {
		if !g.usedAfter(v, to) {
			continue
		}
		oldRes = append(oldRes, v)
	}
	if len(res) == 0 {
		isNew = false
	}
	mixed := len(res) > 0 && len(oldRes) > 0
	all := append(append([]*types.Var(nil), res...), oldRes...)
	decl, call := g.params(u.read)
	name := fmt.Sprintf("%sPart%d", strings.ToLower(g.fd.Name.Name[:1])+g.fd.Name.Name[1:], g.fset.Position(from).Line)
	body := g.between(from, to)
	if ret {
		if !noResult || len(all) > 0 {
			if noResult || len(all) > 0 {
				return
			}
			// with results: only if every path of the statements returns
			if !terminates(list[k]) {
				return
			}
			g.edit("extract-tail", from, to, "return "+name+"("+call+")", "func "+name+"("+decl+") "+g.resultTypes()+" {\n"+body+"\n}\n")
			return
		}
		if k == len(list)-1 && terminates(list[k]) {
			g.edit("extract-tail", from, to, name+"("+call+")\nreturn", "func "+name+"("+decl+") {\n"+body+"\n}\n")
			return
		}
		// bare returns become a flag
		b := g.replaceReturns(list[i:k+1], "true")
		g.edit("extract-guard", from, to, "if "+name+"("+call+") {\nreturn\n}", "func "+name+"("+decl+") bool {\n"+b+"\nreturn false\n}\n")
		return
	}
	if len(all) == 0 {
		g.edit("extract-stmts", from, to, name+"("+call+")", "func "+name+"("+decl+") {\n"+body+"\n}\n")
		// as a closure
		g.edit("closure-stmts", from, to, "func() {\n"+body+"\n}()", "")
		return
	}
	if mixed {
		// declared beforehand
		return
	}
	typ, names := g.results(all)
	op := " = "
	if isNew {
		op = " := "
	}
	g.edit("extract-values", from, to, names+op+name+"("+call+")", "func "+name+"("+decl+") "+typ+" {\n"+body+"\nreturn "+names+"\n}\n")
}

func (g *gen) resultTypes() string {
	s := g.text(g.fd.Type.Results)
	return s
}

func (g *gen) replaceReturns(ss []ast.Stmt, val string) string {
	from, to := ss[0].Pos(), ss[len(ss)-1].End()
	type rep struct {
		a, b int
		s    string
	}
	var reps []rep
	for _, s := range ss {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				reps = append(reps, rep{g.off(n.Pos()), g.off(n.End()), "return " + val})
			}
			return true
		})
	}
	out, p := "", g.off(from)
	for _, r := range reps {
		out += string(g.src[p:r.a]) + r.s
		p = r.b
	}
	return out + string(g.src[p:g.off(to)])
}

func terminates(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return len(s.List) > 0 && terminates(s.List[len(s.List)-1])
	case *ast.IfStmt:
		return s.Else != nil && terminates(s.Body) && terminates(s.Else)
	}
	return false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// lists visits the statement lists of the function.
func (g *gen) lists(f func(list []ast.Stmt, top bool)) {
	ast.Inspect(g.fd, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			f(n.List, n == g.fd.Body)
		case *ast.CaseClause:
			f(n.Body, false)
		case *ast.FuncLit:
			return true
		}
		return true
	})
}

func (g *gen) all() {
	noResult := g.fd.Type.Results == nil
	inLit := map[ast.Node]bool{}
	ast.Inspect(g.fd, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(l, func(m ast.Node) bool { inLit[m] = true; return true })
		}
		return true
	})
	g.lists(func(list []ast.Stmt, top bool) {
		if len(list) > 0 && inLit[list[0]] {
			return
		}
		for i := range list {
			for k := i; k < len(list) && k < i+4; k++ {
				if i == 0 && k == len(list)-1 && top {
					continue
				}
				if k > i && !top {
					break
				}
				g.extract(list, i, k)
			}
			// the rest of the function
			if top && i > 0 && i < len(list)-4 {
				if noResult {
					g.extractRest(list, i)
				} else {
					g.extract(list, i, len(list)-1)
				}
			}
			g.statement(list, i, top, noResult)
		}
	})
	g.body()
	ast.Inspect(g.fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			g.binary(n)
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				g.edit("not-false", n.Pos(), n.End(), "("+g.text(n.X)+") == false", "")
			}
		}
		return true
	})
}

func (g *gen) extractRest(list []ast.Stmt, i int) {
	from, to := list[i].Pos(), list[len(list)-1].End()
	for _, s := range list[i:] {
		if _, o := jumps(s); o {
			return
		}
	}
	u := g.uses(from, to)
	decl, call := g.params(u.read)
	name := fmt.Sprintf("%sRest%d", strings.ToLower(g.fd.Name.Name[:1])+g.fd.Name.Name[1:], g.fset.Position(from).Line)
	g.edit("extract-rest", from, to, name+"("+call+")", "func "+name+"("+decl+") {\n"+g.between(from, to)+"\n}\n")
}

func (g *gen) binary(n *ast.BinaryExpr) {
	x, y := g.text(n.X), g.text(n.Y)
	switch n.Op {
	case token.EQL, token.NEQ:
		g.edit("swap-operands", n.Pos(), n.End(), y+" "+n.Op.String()+" "+x, "")
		o := "!="
		if n.Op == token.NEQ {
			o = "=="
		}
		g.edit("negate-comparison", n.Pos(), n.End(), "!("+x+" "+o+" "+y+")", "")
		if y == `""` {
			g.edit("len-zero", n.Pos(), n.End(), "len("+x+") "+n.Op.String()+" 0", "")
		}
	case token.LSS:
		g.edit("flip-less", n.Pos(), n.End(), y+" > "+x, "")
	case token.LAND:
		g.edit("de-morgan", n.Pos(), n.End(), "!(!("+x+") || !("+y+"))", "")
	case token.LOR:
		g.edit("de-morgan", n.Pos(), n.End(), "!(!("+x+") && !("+y+"))", "")
	case token.ADD:
		if t, ok := g.pkg.TypesInfo.TypeOf(n).Underlying().(*types.Basic); ok && t.Kind() == types.String {
			g.edit("join-strings", n.Pos(), n.End(), "strings.Join([]string{"+x+", "+y+"}, \"\")", "")
			g.edit("sprint", n.Pos(), n.End(), "fmt.Sprintf(\"%s%s\", "+x+", "+y+")", "")
		}
	}
}

func (g *gen) statement(list []ast.Stmt, i int, top, noResult bool) {
	s := list[i]
	line := g.fset.Position(s.Pos()).Line
	switch s := s.(type) {
	case *ast.IfStmt:
		cond, body := g.text(s.Cond), g.text(s.Body)
		init := ""
		if s.Init != nil {
			init = g.text(s.Init)
			g.edit("if-init-block", s.Pos(), s.End(), "{\n"+init+"\nif "+cond+" "+g.between(s.Body.Pos(), s.End())+"\n}", "")
			init += "; "
		} else {
			g.edit("hoist-condition", s.Pos(), s.Cond.End(), fmt.Sprintf("cond%d := %s\nif cond%d", line, cond, line), "")
			// predicate function
			u := g.uses(s.Cond.Pos(), s.Cond.End())
			decl, call := g.params(u.read)
			name := fmt.Sprintf("%sHolds%d", strings.ToLower(g.fd.Name.Name[:1])+g.fd.Name.Name[1:], line)
			if len(u.written) > 0 {
				return
			}
			g.edit("predicate", s.Cond.Pos(), s.Cond.End(), name+"("+call+")", "func "+name+"("+decl+") bool {\nreturn "+cond+"\n}\n")
			g.edit("if-switch", s.Pos(), s.End(), func() string {
				t := "switch {\ncase " + cond + ":\n" + g.inner(s.Body)
				if s.Else != nil {
					if b, ok := s.Else.(*ast.BlockStmt); ok {
						t += "\ndefault:\n" + g.inner(b)
					} else {
						t += "\ndefault:\n" + g.text(s.Else)
					}
				}
				return t + "\n}"
			}(), "")
		}
		if s.Else == nil {
			g.edit("if-empty-else", s.Pos(), s.End(), "if "+init+"!("+cond+") {\n} else "+body, "")
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && s.Init == nil {
				g.edit("nest-and", s.Pos(), s.End(), "if "+g.text(b.X)+" {\nif "+g.text(b.Y)+" "+body+"\n}", "")
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && s.Init == nil {
				g.edit("split-or", s.Pos(), s.End(), "if "+g.text(b.X)+" "+body+" else if "+g.text(b.Y)+" "+body, "")
				g.edit("split-or-two", s.Pos(), s.End(), "bad"+fmt.Sprint(line)+" := "+g.text(b.X)+"\nif !bad"+fmt.Sprint(line)+" {\nbad"+fmt.Sprint(line)+" = "+g.text(b.Y)+"\n}\nif bad"+fmt.Sprint(line)+" "+body, "")
			}
			if terminates(s.Body) && i < len(list)-1 && s.Init == nil {
				rest := g.between(list[i+1].Pos(), list[len(list)-1].End())
				last := list[len(list)-1]
				if terminates(last) || noResult && top {
					g.edit("else-rest", s.Pos(), last.End(), "if "+cond+" "+body+" else {\n"+rest+"\n}", "")
					if top || terminates(last) {
						g.edit("invert-rest", s.Pos(), last.End(), "if !("+cond+") {\n"+rest+"\n} else "+body, "")
						g.edit("invert-flat", s.Pos(), last.End(), "if !("+cond+") {\n"+rest+"\n"+func() string {
							if noResult {
								return "return\n"
							}
							return ""
						}()+"}\n"+g.inner(s.Body), "")
					}
				}
			}
		} else if b, ok := s.Else.(*ast.BlockStmt); ok {
			g.edit("swap-branches", s.Pos(), s.End(), "if "+init+"!("+cond+") "+g.text(b)+" else "+body, "")
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			t := g.pkg.TypesInfo.TypeOf(s.Results[0])
			if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
				if _, tup := t.(*types.Tuple); !tup {
					g.edit("return-variable", s.Pos(), s.End(), fmt.Sprintf("result%d := %s\nreturn result%d", line, g.text(s.Results[0]), line), "")
				}
			}
			if isBool(t) && g.text(s.Results[0]) != "true" && g.text(s.Results[0]) != "false" {
				g.edit("return-if", s.Pos(), s.End(), "if "+g.text(s.Results[0])+" {\nreturn true\n}\nreturn false", "")
			}
		}
		for _, r := range s.Results {
			g.literal(s, r)
		}
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 && len(s.Lhs) == 1 {
			t := g.pkg.TypesInfo.TypeOf(s.Lhs[0])
			if s.Tok == token.DEFINE && t != nil {
				g.edit("var-decl", s.Pos(), s.End(), "var "+g.text(s.Lhs[0])+" "+g.typ(t)+" = "+g.text(s.Rhs[0]), "")
				g.edit("var-assign", s.Pos(), s.End(), "var "+g.text(s.Lhs[0])+" "+g.typ(t)+"\n"+g.text(s.Lhs[0])+" = "+g.text(s.Rhs[0]), "")
			}
			g.literal(s, s.Rhs[0])
		}
		if len(s.Rhs) == 1 {
			if c, ok := s.Rhs[0].(*ast.CallExpr); ok {
				g.callArgs(s, c, line)
			}
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			g.callArgs(s, c, line)
		}
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			t := fmt.Sprintf("tag%d := %s\n", line, g.text(s.Tag))
			def, first, ok := "", true, true
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				for _, b := range cc.Body {
					if _, o := jumps(b); o {
						ok = false
					}
				}
				b := ""
				if len(cc.Body) > 0 {
					b = g.between(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
				}
				if cc.List == nil {
					def = b
					continue
				}
				var cs []string
				for _, e := range cc.List {
					cs = append(cs, fmt.Sprintf("tag%d == %s", line, g.text(e)))
				}
				if !first {
					t += " else "
				}
				first = false
				t += "if " + strings.Join(cs, " || ") + " {\n" + b + "\n}"
			}
			if def != "" {
				t += " else {\n" + def + "\n}"
			}
			if ok {
				g.edit("switch-if", s.Pos(), s.End(), t, "")
			}
		}
	case *ast.RangeStmt:
		t := g.pkg.TypesInfo.TypeOf(s.X)
		_, slice := t.Underlying().(*types.Slice)
		k, v := "_", "_"
		if s.Key != nil {
			k = g.text(s.Key)
		}
		if s.Value != nil {
			v = g.text(s.Value)
		}
		if slice && s.Tok == token.DEFINE {
			ix := k
			if ix == "_" {
				ix = fmt.Sprintf("index%d", line)
			}
			bind := ""
			if v != "_" {
				bind = v + " := list%d[" + ix + "]\n"
				bind = fmt.Sprintf(bind, line)
			}
			g.edit("range-index", s.Pos(), s.End(), fmt.Sprintf("list%d := %s\nfor %s := 0; %s < len(list%d); %s++ {\n%s%s\n}", line, g.text(s.X), ix, ix, line, ix, bind, g.inner(s.Body)), "")
			if k == "_" {
				bind = strings.ReplaceAll(bind, ix, "0")
				g.edit("range-shrink", s.Pos(), s.End(), fmt.Sprintf("for list%d := %s; len(list%d) > 0; list%d = list%d[1:] {\n%s%s\n}", line, g.text(s.X), line, line, line, bind, g.inner(s.Body)), "")
			}
		}
		if _, m := t.Underlying().(*types.Map); m && s.Tok == token.DEFINE && v != "_" && k != "_" {
			g.edit("range-key", s.Pos(), s.End(), fmt.Sprintf("for %s := range %s {\n%s := %s[%s]\n%s\n}", k, g.text(s.X), v, g.text(s.X), k, g.inner(s.Body)), "")
			kt := g.typ(t.Underlying().(*types.Map).Key())
			if kt == "string" {
				g.edit("range-sorted", s.Pos(), s.End(), fmt.Sprintf("keys%d := make([]string, 0, len(%s))\nfor %s := range %s {\nkeys%d = append(keys%d, %s)\n}\nsort.Strings(keys%d)\nfor _, %s := range keys%d {\n%s := %s[%s]\n%s\n}", line, g.text(s.X), k, g.text(s.X), line, line, k, line, k, line, v, g.text(s.X), k, g.inner(s.Body)), "")
			}
		}
	}
	// swap with the next statement if neither depends on the other
	if i+1 < len(list) {
		a, aok := list[i].(*ast.AssignStmt)
		b, bok := list[i+1].(*ast.AssignStmt)
		if aok && bok && g.simple(a) && g.simple(b) && g.independent(a, b) {
			g.edit("swap-statements", a.Pos(), b.End(), g.text(b)+"\n"+g.text(a), "")
		}
	}
}

// simple tells whether an assignment has no effect but on its variable or map entry.
func (g *gen) simple(a *ast.AssignStmt) bool {
	ok := true
	for _, r := range a.Rhs {
		ast.Inspect(r, func(n ast.Node) bool {
			if c, is := n.(*ast.CallExpr); is {
				f := g.text(c.Fun)
				if !strings.HasSuffix(f, ".Get") && !strings.HasSuffix(f, ".String") && f != "ParseScope" && f != "len" && f != "make" && !strings.HasSuffix(f, "BasicAuth") {
					ok = false
				}
			}
			return true
		})
	}
	return ok
}

func (g *gen) independent(a, b *ast.AssignStmt) bool {
	names := func(a *ast.AssignStmt) map[string]bool {
		m := map[string]bool{}
		for _, l := range a.Lhs {
			m[g.text(l)] = true
			if id, ok := l.(*ast.Ident); ok {
				m[id.Name] = true
			}
		}
		return m
	}
	na, nb := names(a), names(b)
	dep := false
	check := func(x ast.Node, m map[string]bool) {
		ast.Inspect(x, func(n ast.Node) bool {
			if n == nil {
				return false
			}
			switch n.(type) {
			case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
				if t := g.text(n); t != "_" && m[t] {
					dep = true
				}
			}
			return true
		})
	}
	check(a, nb)
	check(b, na)
	return !dep
}

func (g *gen) inner(b *ast.BlockStmt) string {
	if len(b.List) == 0 {
		return ""
	}
	return g.between(b.List[0].Pos(), b.List[len(b.List)-1].End())
}

// callArgs gives the arguments of a call names.
func (g *gen) callArgs(s ast.Stmt, c *ast.CallExpr, line int) {
	for k, a := range c.Args {
		t := g.pkg.TypesInfo.TypeOf(a)
		if t == nil {
			continue
		}
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() == types.UntypedNil {
			continue
		}
		if _, ok := t.(*types.Tuple); ok {
			continue
		}
		g.edit("name-argument", s.Pos(), s.End(), fmt.Sprintf("arg%d%d := %s\n%s%s", line, k, g.text(a), g.between(s.Pos(), a.Pos()), fmt.Sprintf("arg%d%d", line, k))+g.between(a.End(), s.End()), "")
	}
}

// literal turns a composite literal into assignments.
func (g *gen) literal(s ast.Stmt, e ast.Expr) {
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return
	}
	l, ok := u.X.(*ast.CompositeLit)
	if !ok || len(l.Elts) == 0 {
		return
	}
	line := g.fset.Position(s.Pos()).Line
	v := fmt.Sprintf("value%d", line)
	t := v + " := new(" + g.text(l.Type) + ")\n"
	for _, e := range l.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return
		}
		t += v + "." + g.text(kv.Key) + " = " + g.text(kv.Value) + "\n"
	}
	g.edit("literal-fields", s.Pos(), s.End(), t+g.between(s.Pos(), e.Pos())+v+g.between(e.End(), s.End()), "")
	if len(l.Elts) > 1 {
		var es []string
		for i := len(l.Elts) - 1; i >= 0; i-- {
			es = append(es, g.text(l.Elts[i]))
		}
		g.edit("literal-reorder", l.Pos(), l.End(), g.text(l.Type)+"{\n"+strings.Join(es, ",\n")+",\n}", "")
	}
}

// body edits the whole function.
func (g *gen) body() {
	fd := g.fd
	// delegate to an inner function
	var ps []string
	ok := true
	variadic := false
	if fd.Type.Params != nil {
		for _, f := range fd.Type.Params.List {
			if _, v := f.Type.(*ast.Ellipsis); v {
				variadic = true
			}
			for _, n := range f.Names {
				if n.Name == "_" {
					ok = false
				}
				ps = append(ps, n.Name)
			}
			if len(f.Names) == 0 {
				ok = false
			}
		}
	}
	if !ok || variadic {
		return
	}
	name := strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Impl"
	call := name + "(" + strings.Join(ps, ", ") + ")"
	sig := "func " + name
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		call = fd.Recv.List[0].Names[0].Name + "." + call
		sig = "func " + g.text(fd.Recv) + " " + name
	}
	kw := ""
	if fd.Type.Results != nil {
		kw = "return "
	}
	types := g.between(fd.Type.Params.Pos(), fd.Type.End())
	g.edit("delegate", fd.Body.Pos(), fd.Body.End(), "{\n"+kw+call+"\n}", sig+types+" "+g.text(fd.Body)+"\n")
	// named results
	if fd.Type.Results != nil {
		named := false
		var ts []string
		for _, f := range fd.Type.Results.List {
			named = named || len(f.Names) > 0
			ts = append(ts, g.text(f.Type))
		}
		hasLit := false
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				hasLit = true
			}
			return true
		})
		if !named && !hasLit {
			var ns, ds []string
			for i, t := range ts {
				ns = append(ns, fmt.Sprintf("out%d", i))
				ds = append(ds, fmt.Sprintf("out%d %s", i, t))
			}
			type rep struct {
				a, b int
				s    string
			}
			var reps []rep
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if r, ok := n.(*ast.ReturnStmt); ok {
					v := g.between(r.Results[0].Pos(), r.Results[len(r.Results)-1].End())
					reps = append(reps, rep{g.off(r.Pos()), g.off(r.End()), strings.Join(ns, ", ") + " = " + v + "\nreturn"})
				}
				return true
			})
			out, p := "", g.off(fd.Body.Pos())
			for _, r := range reps {
				out += string(g.src[p:r.a]) + r.s
				p = r.b
			}
			out += string(g.src[p:g.off(fd.Body.End())])
			g.edit("named-results", fd.Type.Results.Pos(), fd.Body.End(), "("+strings.Join(ds, ", ")+") "+out, "")
		}
	}
}

func main() {
	dir := flag.String("dir", "/repo", "module")
	pick := flag.Int64("pick", 0, "pick one edit of each function by this seed")
	flag.Parse()
	cfg := &packages.Config{Dir: *dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps}
	pkgs, err := packages.Load(cfg, ".", "./oauth2test")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	var es []Edit
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			path := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(*dir, path)
			src, err := os.ReadFile(path)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				g := &gen{p.Fset, p, rel, src, fd, func(e Edit) { es = append(es, e) }}
				g.all()
			}
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].File < es[j].File })
	if *pick != 0 {
		rnd := rand.New(rand.NewSource(*pick))
		rnd.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		// each kind is as likely as any other
		n := map[string]int{}
		at := map[*Edit]int{}
		ps := make([]*Edit, len(es))
		for i := range es {
			ps[i] = &es[i]
			at[ps[i]] = n[es[i].Fn+es[i].Op]
			n[es[i].Fn+es[i].Op]++
		}
		sort.SliceStable(ps, func(i, j int) bool { return at[ps[i]] < at[ps[j]] })
		done := map[string]bool{}
		for _, e := range ps {
			if k := e.File + e.Recv + e.Fn; !done[k] && compiles(*dir, pkgs, *e) {
				done[k] = true
				enc.Encode(e)
			}
		}
		return
	}
	for _, e := range es {
		if compiles(*dir, pkgs, e) {
			enc.Encode(e)
		}
	}
}

// compiles type-checks the package with the edit applied; missing or unused imports are left to goimports.
func compiles(dir string, pkgs []*packages.Package, e Edit) bool {
	path := filepath.Join(dir, e.File)
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			if p.Fset.Position(f.Pos()).Filename != path {
				continue
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return false
			}
			text := string(src[:e.From]) + e.New + string(src[e.To:])
			fset := token.NewFileSet()
			nf, err := parser.ParseFile(fset, path, text, 0)
			if err != nil {
				return false
			}
			files := append([]*ast.File(nil), p.Syntax...)
			files[i] = nf
			for j := range files {
				if j != i {
					if files[j], err = parser.ParseFile(fset, p.Fset.Position(files[j].Pos()).Filename, nil, 0); err != nil {
						return false
					}
				}
			}
			ok := true
			conf := types.Config{Importer: pkgImporter{p}, Error: func(err error) {
				m := err.Error()
				for _, allowed := range []string{"undefined: strings", "undefined: fmt", "undefined: sort", "undefined: url", "undefined: http", "undefined: time", "undefined: sync", "undefined: io", "undefined: hash", "imported and not used"} {
					if strings.Contains(m, allowed) {
						return
					}
				}
				ok = false
			}}
			conf.Check(p.PkgPath, fset, files, nil)
			return ok
		}
	}
	return false
}

type pkgImporter struct{ p *packages.Package }

func (i pkgImporter) Import(path string) (*types.Package, error) {
	if q := i.p.Imports[path]; q != nil {
		return q.Types, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}
