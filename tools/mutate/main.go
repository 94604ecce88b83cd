// Command mutate lists small changes of Go files: one JSON object per line with
// the file, the byte range and its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File   string
	Lo, Hi int
	New    string
	Line   int
	What   string
	Old    string
}

// guards are rare conditions; with "-guard" each condition of the code is
// negated only where one of them holds.
var guards = map[string][]string{
	"VtdParser": {"p.depth > 12", "p.attrCount > 8", "p.offset-p.docOffset > 1500", "p.vtdBuffer != nil && p.vtdBuffer.GetSize() > 200",
		"p.currentChar > 0xFFFF", "p.docOffset > 4096", "p.length1 > 700", "p.vtdDepth > 3 && p.depth == 1",
		"p.nsBuffer3 != nil && p.nsBuffer3.GetSize() > 10", "(p.offset-p.docOffset)%64 == 63", "p.endOffset == len(p.xmlDoc)-1"},
	"VtdNav": {"n.context[0] > 6", "n.l1index > 10", "n.vtdBuffer.GetSize() > 200", "n.offset > 4096", "n.l2index > 20", "n.l3index > 20",
		"n.atTerminal"},
	"Utf8Reader":     {"r.offset > 2000", "r.offset&63 == 63", "r.offset == r.endOffset-3"},
	"AsciiReader":    {"r.offset > 2000", "r.offset&63 == 63", "r.offset == r.endOffset-3"},
	"FastLongBuffer": {"b.size > 300", "b.size == 2*b.pageSize"},
	"FastIntBuffer":  {"b.size > 300", "b.size == 2*b.pageSize"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	guarded := len(os.Args) > 1 && os.Args[1] == "-guard"
	if guarded {
		os.Args = os.Args[1:]
	}
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		emit := func(lo, hi token.Pos, n, what string) {
			l, h := fs.Position(lo).Offset, fs.Position(hi).Offset
			_ = enc.Encode(mut{f, l, h, n, fs.Position(lo).Line, what, string(src[l:h])})
		}
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		if guarded {
			for _, d := range a.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Body == nil {
					continue
				}
				st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
				if !ok {
					continue
				}
				for _, g := range guards[text(st.X)] {
					ast.Inspect(fd.Body, func(n ast.Node) bool {
						if i, ok := n.(*ast.IfStmt); ok && text(i.Cond) != "err != nil" {
							emit(i.Cond.Pos(), i.Cond.End(), "("+text(i.Cond)+") != ("+g+")", "guard "+g)
						}
						return true
					})
				}
			}
			continue
		}
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.REM: {"/"},
		}
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.IfStmt:
					if s.Init == nil {
						emit(s.Pos(), s.End(), "", "delete if")
					}
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "keep left")
					emit(n.Pos(), n.End(), text(n.Y), "keep right")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(strings.ReplaceAll(n.Value, "_", ""), 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int")
						emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int")
					}
				}
				if n.Kind == token.CHAR {
					emit(n.Pos(), n.End(), "'\\x01'", "char")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				if n.Else != nil {
					emit(n.Body.End(), n.End(), "", "drop else")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, "--", "incdec")
				} else {
					emit(n.TokPos, n.TokPos+2, "++", "incdec")
				}
			case *ast.AssignStmt:
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "-=", "assign")
				} else if n.Tok == token.SUB_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "+=", "assign")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "bool")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for _, e := range n.List {
						_ = e
					}
				}
			case *ast.ReturnStmt:
				// an error that is not passed on
				if k := len(n.Results); k > 0 {
					if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						emit(id.Pos(), id.End(), "nil", "nil err")
					}
				}
			}
			return true
		})
	}
}
