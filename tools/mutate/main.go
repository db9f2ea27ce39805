// Command mutate lists small syntactic mutants of Go files as JSON lines:
// {"file":..., "off":..., "end":..., "new":..., "what":..., "line":...}.
// It is used by hand (tools/mutants.py) to look for blind spots of the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&", "|"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
}

// siblings are names that are easily written for one another.
var siblings = [][]string{
	{"Insert", "InplaceInsert"}, {"insert", "inplaceInsert"}, {"RawInsert", "RawInplaceInsert"}, {"Match", "ExactMatch"}, {"match", "exactMatch"},
	{"root32", "root64"}, {"iPv4Bits", "iPv6Bits"}, {"iPv4MaxMask", "iPv6MaxMask"}, {"dirLeft", "dirRight"}, {"single", "double"},
	{"fullCopy", "colorCopy"}, {"escFirstChar", "escSecondDigit", "escThirdDigit", "escRegular"}, {"MaxLabel", "MaxLabels", "MaxName"},
	{"Key32BitSize", "Key64BitSize"}, {"Get", "RawGet"}, {"key", "value"}, {"h", "c"},
}

// names emits replacements of identifiers by others of the same type that are visible in the function.
func names(fset *token.FileSet, f string, emit func(a, b token.Pos, s, what string)) {
	dir := filepath.Dir(f)
	ents, _ := os.ReadDir(dir)
	var files []*ast.File
	var mine *ast.File
	for _, e := range ents {
		if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			af, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, af)
			if n == filepath.Base(f) {
				mine = af
			}
		}
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check(dir, fset, files, info)
	for _, d := range mine.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		var objs []types.Object
		seen := map[string]bool{}
		ast.Inspect(fd, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Defs[id].(*types.Var); ok && v != nil && !v.IsField() && id.Name != "_" && !seen[id.Name] {
					seen[id.Name] = true
					objs = append(objs, v)
				}
			}
			return true
		})
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			for _, g := range siblings {
				for _, x := range g {
					if x != id.Name {
						continue
					}
					for _, y := range g {
						if y != x {
							emit(id.Pos(), id.End(), y, x+" => "+y)
						}
					}
				}
			}
			o, ok := info.Uses[id].(*types.Var)
			if !ok || o.IsField() {
				return true
			}
			for _, v := range objs {
				if v.Name() != id.Name && v.Pos() < id.Pos() && types.Identical(v.Type(), o.Type()) {
					emit(id.Pos(), id.End(), v.Name(), id.Name+" => "+v.Name())
				}
			}
			return true
		})
	}
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	args := os.Args[1:]
	onlyNames := len(args) > 0 && args[0] == "-names"
	if onlyNames {
		args = args[1:]
	}
	for _, f := range args {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mutant{f, off(a), off(b), s, what, fset.Position(a).Line})
		}
		if onlyNames {
			fs2 := token.NewFileSet()
			names(fs2, f, func(a, b token.Pos, s, what string) {
				enc.Encode(mutant{f, fs2.Position(a).Offset, fs2.Position(b).Offset, s, what, fs2.Position(a).Line})
			})
			continue
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		big := map[ast.Node]bool{}
		ast.Inspect(af, func(n ast.Node) bool {
			if c, ok := n.(*ast.CompositeLit); ok && len(c.Elts) > 12 {
				big[n] = true
				for i, e := range c.Elts {
					if i%9 == 4 {
						emit(e.Pos(), e.End(), text(e)+"^1", "table entry")
					}
				}
			}
			return !big[n]
		})
		var stack []ast.Node
		ast.Inspect(af, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if big[n] {
				return false
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					stack = stack[:len(stack)-1]
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only left of "+x.Op.String())
					emit(x.Pos(), x.End(), text(x.Y), "only right of "+x.Op.String())
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
				if x.Kind == token.CHAR {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "char +1")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "char -1")
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					emit(x.Pos(), x.End(), "false", "true -> false")
				case "false":
					emit(x.Pos(), x.End(), "true", "false -> true")
				case "dirLeft", "dirRight":
					if len(stack) > 2 {
						if _, ok := stack[len(stack)-2].(*ast.ValueSpec); ok {
							break
						}
					}
					o := map[string]string{"dirLeft": "dirRight", "dirRight": "dirLeft"}[x.Name]
					emit(x.Pos(), x.End(), o, x.Name+" -> "+o)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop !")
				}
				if x.Op == token.XOR {
					emit(x.Pos(), x.End(), text(x.X), "drop ^")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if -> always")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if -> never")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "for -> never")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					s := "_ = 0"
					for i := range x.Lhs {
						if id, ok := x.Lhs[i].(*ast.Ident); ok && id.Name != "_" {
							s += "; _ = " + id.Name
						}
					}
					if x.Tok == token.ASSIGN {
						for _, r := range x.Rhs {
							if _, ok := r.(*ast.CallExpr); ok && len(x.Lhs) == 1 {
								s += "; _ = " + text(r)
							}
						}
					}
					if _, isIf := stack[len(stack)-2].(*ast.BlockStmt); isIf {
						emit(x.Pos(), x.End(), s, "drop assignment")
					} else if _, isCase := stack[len(stack)-2].(*ast.CaseClause); isCase {
						emit(x.Pos(), x.End(), s, "drop assignment")
					}
				}
			case *ast.IncDecStmt:
				if _, ok := stack[len(stack)-2].(*ast.BlockStmt); ok {
					emit(x.Pos(), x.End(), "_ = 0", "drop ++/--")
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "_ = 0", "drop call")
			case *ast.SendStmt:
				emit(x.Pos(), x.End(), "_ = 0", "drop send")
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "_ = 0", "drop "+x.Tok.String())
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if len(x.Args) == 0 || s.Sel.Name == "Mask" || s.Sel.Name == "colorCopy" {
						if _, isStmt := stack[len(stack)-2].(*ast.ExprStmt); !isStmt {
							emit(x.Pos(), x.End(), text(s.X), "drop ."+s.Sel.Name+"()")
						}
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						end := e.End()
						if i+1 < len(x.Elts) {
							end = x.Elts[i+1].Pos()
						}
						emit(e.Pos(), end, "", "drop field "+text(e))
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
						emit(r.Pos(), r.End(), "nil", "return nil for "+id.Name)
					}
				}
			}
			return true
		})
	}
}
