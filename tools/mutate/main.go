// mutate lists small changes of Go source files, for measuring the checks.
//
//	mutate FILE...   prints one JSON object per change: file, line, what, offset, length, text
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Text string `json:"text"`
	Func string `json:"func"`
}

var swaps = map[string][]string{
	"==": {"!="}, "!=": {"=="}, "<": {"<=", ">"}, "<=": {"<"}, ">": {">=", "<"}, ">=": {">"},
	"+": {"-"}, "-": {"+"}, "*": {"+"}, "/": {"*"}, "%": {"+"}, "&&": {"||"}, "||": {"&&"},
	"<<": {">>"}, ">>": {"<<"}, "&": {"|"}, "|": {"&", "^"}, "^": {"|"}, "&^": {"&"},
	"+=": {"-="}, "-=": {"+="}, "|=": {"&="}, "&=": {"|="}, ">>=": {"<<="}, "<<=": {">>="},
}

var renames = [][2]string{{"Add", "Sub"}, {"Left", "Right"}, {"G", "H"}, {"X", "Y"}, {"N", "P"}, {"BigZero", "big.NewInt(1)"},
	{"Base1", "Base2"}, {"Result1", "Result2"}, {"T1", "T2"}, {"C1", "C2"}, {"S1", "S2"}, {"s1", "s2"}, {"u1", "u2"}, {"u2", "u3"}, {"ub", "uc"},
	{"CM", "CMTok"}, {"B", "C"}, {"j", "k"}, {"k", "l"}, {"x", "y"}, {"x1", "x2"}, {"y1", "y2"}, {"z1", "z2"}, {"R", "S"}, {"r", "s"}, {"PubKey", "CMTok"}}

func main() {
	var out []mut
	for _, f := range os.Args[1:] {
		fset := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		add := func(what string, from, to token.Pos, t string) {
			o := off(from)
			out = append(out, mut{f, fset.Position(from).Line, what, o, off(to) - o, t, fn})
		}
		ren := map[string][]string{}
		for _, r := range renames {
			ren[r[0]] = append(ren[r[0]], r[1])
			if !strings.Contains(r[1], ".") {
				ren[r[1]] = append(ren[r[1]], r[0])
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.BinaryExpr:
					op := v.Op.String()
					for _, s := range swaps[op] {
						add(op+" -> "+s, v.OpPos, v.OpPos+token.Pos(len(op)), s)
					}
					if op == "&&" || op == "||" {
						add("drop left", v.Pos(), v.End(), text(v.Y))
						add("drop right", v.Pos(), v.End(), text(v.X))
					}
					if op == "+" || op == "-" || op == "*" {
						add("drop right operand", v.Pos(), v.End(), "("+text(v.X)+")")
					}
				case *ast.AssignStmt:
					op := v.Tok.String()
					for _, s := range swaps[op] {
						add(op+" -> "+s, v.TokPos, v.TokPos+token.Pos(len(op)), s)
					}
					if op == "=" || len(op) == 2 && op != ":=" || len(op) == 3 {
						add("delete statement", v.Pos(), v.End(), "{}")
					}
				case *ast.ExprStmt:
					add("delete statement", v.Pos(), v.End(), "{}")
				case *ast.GoStmt:
					add("no goroutine", v.Pos(), v.Call.Pos(), "")
				case *ast.IncDecStmt:
					add("delete statement", v.Pos(), v.End(), "{}")
				case *ast.IfStmt:
					if v.Cond != nil {
						add("if true", v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") || true")
						add("if false", v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") && false")
					}
				case *ast.ForStmt:
					if v.Cond != nil {
						add("no loop", v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") && false")
					}
				case *ast.BranchStmt:
					if v.Tok == token.BREAK || v.Tok == token.CONTINUE {
						add("delete statement", v.Pos(), v.End(), "{}")
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						if x, err := strconv.ParseUint(v.Value, 0, 64); err == nil {
							add("const+1", v.Pos(), v.End(), fmt.Sprint(x+1))
							if x > 0 {
								add("const-1", v.Pos(), v.End(), fmt.Sprint(x-1))
							}
						}
					}
				case *ast.UnaryExpr:
					if v.Op == token.NOT || v.Op == token.SUB {
						add("drop "+v.Op.String(), v.Pos(), v.X.Pos(), "")
					}
				case *ast.CallExpr:
					if len(v.Args) >= 2 {
						for i, a := range v.Args {
							// drop an argument (variadic calls)
							end, from := a.End(), a.Pos()
							if i+1 < len(v.Args) {
								end = v.Args[i+1].Pos()
							} else {
								from = v.Args[i-1].End()
							}
							add("drop argument "+text(a), from, end, "")
							if i+1 < len(v.Args) {
								b := v.Args[i+1]
								if text(a) != text(b) {
									add("swap arguments", a.Pos(), b.End(), text(b)+", "+text(a))
								}
							}
						}
					}
					// x := f(a) becomes x := a
					for _, a := range v.Args {
						add("call -> argument", v.Pos(), v.End(), text(a))
					}
					if s, ok := v.Fun.(*ast.SelectorExpr); ok {
						add("call -> receiver", v.Pos(), v.End(), text(s.X))
					}
				case *ast.Ident:
					for _, r := range ren[v.Name] {
						add(v.Name+" -> "+r, v.Pos(), v.End(), r)
					}
				case *ast.ReturnStmt:
					for i, r := range v.Results {
						switch {
						case text(r) == "err", strings.HasPrefix(text(r), "&errorProof"), i == len(v.Results)-1 && strings.Contains(text(r), "Error"):
							add("error -> nil", r.Pos(), r.End(), "nil")
						case text(r) == "true":
							add("true -> false", r.Pos(), r.End(), "false")
						case text(r) == "false":
							add("false -> true", r.Pos(), r.End(), "true")
						}
					}
				}
				return true
			})
		}
	}
	seen := map[string]bool{}
	var u []mut
	for _, m := range out {
		k := fmt.Sprint(m.File, m.Off, m.Len, m.Text)
		if !seen[k] {
			seen[k] = true
			u = append(u, m)
		}
	}
	sort.SliceStable(u, func(i, j int) bool {
		return u[i].File < u[j].File || u[i].File == u[j].File && u[i].Off < u[j].Off
	})
	e := json.NewEncoder(os.Stdout)
	for _, m := range u {
		e.Encode(m)
	}
}
