// Command mutate lists or applies single-point changes to Go files.
//
//	mutate list FILE...         prints one line per change: index, file, line, what
//	mutate apply N FILE OUT     writes FILE with change N of it to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	line int
	what string
	do   func()
}

var binary = map[token.Token][]token.Token{
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
}

var calls = map[string]string{"Add": "Sub", "Sub": "Add", "Mul": "Add", "Mod": "Set", "LittleEndian": "BigEndian", "BigEndian": "LittleEndian",
	"PutUint16": "PutUint16", "Lock": "RLock"}

func changes(fs *token.FileSet, f *ast.File) (cs []change) {
	at := func(n ast.Node) int { return fs.Position(n.Pos()).Line }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fs, n)
		s := b.String()
		if len(s) > 90 {
			s = s[:90]
		}
		return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
	}
	add := func(n ast.Node, what string, do func()) { cs = append(cs, change{at(n), what, do}) }
	list := func(l *[]ast.Stmt) {
		for i := range *l {
			s := (*l)[i]
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
				add(s, "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				}
			case *ast.BranchStmt:
				add(s, "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				if x.Tok == token.CONTINUE {
					add(s, "break for continue", func() { x.Tok = token.BREAK })
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s, "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				}
				add(s, "never "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LAND, Y: ast.NewIdent("false")} })
				add(s, "always "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LOR, Y: ast.NewIdent("true")} })
			case *ast.ForStmt, *ast.RangeStmt:
				add(s, "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
			case *ast.ReturnStmt:
				for k, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" || isCall(r, "Errorf") {
						add(s, "return nil for "+text(r), func() { x.Results[k] = ast.NewIdent("nil") })
					}
				}
			}
			if i+1 < len(*l) {
				if _, ok := s.(*ast.ReturnStmt); !ok {
					add(s, "swap with the next: "+text(s), func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
		case *ast.BinaryExpr:
			for _, t := range binary[x.Op] {
				add(x, fmt.Sprintf("%s for %s in %s", t, x.Op, text(x)), func() { x.Op = t })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, fmt.Sprintf("%d for %d", v+1, v), func() { x.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(x, fmt.Sprintf("%d for %d", v-1, v), func() { x.Value = strconv.Itoa(v - 1) })
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "without ! in "+text(x), func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.SelectorExpr:
			if to, ok := calls[x.Sel.Name]; ok && to != x.Sel.Name {
				add(x, to+" for "+text(x), func() { x.Sel = ast.NewIdent(to) })
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				add(x, fmt.Sprintf("swap arguments %d of %s", i, text(x)), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
		case *ast.IndexExpr:
			add(x, "index + 1 in "+text(x), func() { x.Index = &ast.BinaryExpr{X: x.Index, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			add(x, "index 0 in "+text(x), func() { x.Index = &ast.BasicLit{Kind: token.INT, Value: "0"} })
		}
		return true
	})
	return
}

func isCall(e ast.Expr, name string) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	return ok && s.Sel.Name == name
}

func load(file string) (*token.FileSet, *ast.File, []change) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, 0)
	if err != nil {
		panic(err)
	}
	return fs, f, changes(fs, f)
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, file := range os.Args[2:] {
			_, _, cs := load(file)
			for i, c := range cs {
				fmt.Printf("%d\t%s\t%d\t%s\n", i, file, c.line, c.what)
			}
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[2])
		fs, f, cs := load(os.Args[3])
		cs[n].do()
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(os.Args[4], b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}
