// mutate lists small source changes of Go files: JSON lines {file, off, len, text, line, op, old}.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Text string `json:"text"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Old  string `json:"old"`
	Func string `json:"func"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
}
var assigns = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=",
	token.QUO_ASSIGN: "*="}
var names = map[string]string{"x": "y", "y": "z", "z": "x", "xs": "ys", "ys": "zs", "zs": "xs", "dx": "dy", "dy": "dz",
	"dz": "dx", "ix": "iy", "iy": "iz", "iz": "ix", "min": "max", "max": "min", "lo": "hi", "hi": "lo", "nx": "ny", "ny": "nx",
	"i": "j", "j": "i", "k": "i", "X": "Y", "Y": "Z", "Z": "X", "Min": "Max", "Max": "Min", "start": "end", "end": "start",
	"Origin": "Width", "Width": "Origin", "Span": "Origin", "low": "high", "high": "low", "OmegaM": "OmegaL",
	"SegmentWidth": "GridWidth", "GridWidth": "SegmentWidth", "CountWidth": "GridWidth", "GridCount": "Count",
	"bufCb": "domCb", "domCb": "bufCb", "n": "m", "x1": "x2", "x2": "x1", "a": "b", "b": "a"}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		put := func(p, e token.Pos, text, op string) {
			a, b := fs.Position(p).Offset, fs.Position(e).Offset
			enc.Encode(mut{file, a, b - a, text, fs.Position(p).Line, op, string(src[a:b]), fn})
		}
		str := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[v.Op] {
						put(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, "binop")
					}
				case *ast.IncDecStmt:
					s := "--"
					if v.Tok == token.DEC {
						s = "++"
					}
					put(v.TokPos, v.TokPos+2, s, "incdec")
				case *ast.AssignStmt:
					if s, ok := assigns[v.Tok]; ok {
						put(v.TokPos, v.TokPos+2, s, "assign")
						put(v.TokPos, v.TokPos+2, "=", "assign")
					}
					if v.Tok != token.DEFINE {
						t := ""
						for i, l := range v.Lhs {
							_ = l
							if i > 0 {
								t += ", "
							}
							t += "_"
						}
						r := ""
						for i, l := range v.Rhs {
							if i > 0 {
								r += ", "
							}
							r += str(l)
						}
						put(v.Pos(), v.End(), t+" = "+r, "drop")
					}
				case *ast.ExprStmt:
					if c, ok := v.X.(*ast.CallExpr); ok {
						if s := str(c.Fun); s != "panic" && s != "log.Printf" && s != "log.Println" {
							put(v.Pos(), v.End(), "", "drop")
						}
					}
				case *ast.BranchStmt:
					if v.Tok == token.CONTINUE || v.Tok == token.BREAK {
						put(v.Pos(), v.End(), "", "drop")
					}
				case *ast.IfStmt:
					put(v.Cond.Pos(), v.Cond.End(), "false && ("+str(v.Cond)+")", "if-false")
					put(v.Cond.Pos(), v.Cond.End(), "true || ("+str(v.Cond)+")", "if-true")
				case *ast.BasicLit:
					if v.Kind == token.INT {
						if k, err := strconv.Atoi(v.Value); err == nil {
							put(v.Pos(), v.End(), strconv.Itoa(k+1), "int")
							if k > 0 {
								put(v.Pos(), v.End(), strconv.Itoa(k-1), "int")
							}
						}
					} else if v.Kind == token.FLOAT {
						put(v.Pos(), v.End(), "("+v.Value+"*1.01)", "float")
					}
				case *ast.Ident:
					if s, ok := names[v.Name]; ok {
						put(v.Pos(), v.End(), s, "name")
					}
				case *ast.CallExpr:
					if len(v.Args) >= 2 && len(v.Args) < 7 {
						for i := 0; i+1 < len(v.Args); i++ {
							put(v.Args[i].Pos(), v.Args[i+1].End(), str(v.Args[i+1])+", "+str(v.Args[i]), "args")
						}
					}
				case *ast.UnaryExpr:
					if v.Op == token.SUB || v.Op == token.NOT {
						put(v.OpPos, v.OpPos+1, "", "unary")
					}
				}
				return true
			})
		}
	}
}
