// mutate lists and makes small changes to a Go file, for the sensitivity
// audit (tools/audit.sh). usage: mutate FILE (lists them), mutate FILE N OUT.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	fn := os.Args[1]
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, fn, nil, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, w string, a func()) { ms = append(ms, mut{p, w, a}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fs, n)
		s := strings.Join(strings.Fields(b.String()), " ")
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	logging := func(n ast.Node) bool {
		s := text(n)
		for _, l := range []string{"logger.Debug", "logger.Info", "logger.Warn", "logger.Error"} {
			if strings.Contains(strings.SplitN(s, "(", 2)[0], l) {
				return true
			}
		}
		return false
	}
	var block func(l *[]ast.Stmt)
	block = func(l *[]ast.Stmt) {
		for i := range *l {
			i := i
			s := (*l)[i]
			switch s := s.(type) {
			case *ast.ExprStmt:
				if !logging(s.X) {
					add(s.Pos(), "delete "+text(s), func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN {
					add(s.Pos(), "delete "+text(s), func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
			case *ast.IfStmt:
				if s.Init == nil {
					add(s.Pos(), "if true "+text(s.Cond), func() {
						s.Cond = &ast.BinaryExpr{X: &ast.BasicLit{Kind: token.INT, Value: "1"}, Op: token.EQL, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
						keep(s, l, i)
					})
					add(s.Pos(), "if false "+text(s.Cond), func() {
						s.Cond = &ast.BinaryExpr{X: &ast.BasicLit{Kind: token.INT, Value: "1"}, Op: token.EQL, Y: &ast.BasicLit{Kind: token.INT, Value: "2"}}
						keep(s, l, i)
					})
				}
			}
		}
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil || skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if logging(n) {
				return false
			}
			s := text(n.Fun)
			if strings.HasSuffix(s, "NewOAuthError") {
				skip[n.Args[1]] = true
			}
			if s == "rh.Error" || strings.HasSuffix(s, ".Error") && len(n.Args) == 4 {
				skip[n.Args[2]] = true
			}
			if strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "errors.") {
				return false
			}
			for i := range n.Args {
				i := i
				if i+1 < len(n.Args) {
					add(n.Pos(), fmt.Sprintf("swap args %d,%d of %s", i, i+1, text(n)), func() { n.Args[i], n.Args[i+1] = n.Args[i+1], n.Args[i] })
				}
			}
		case *ast.BlockStmt:
			block(&n.List)
		case *ast.CaseClause:
			block(&n.Body)
		case *ast.IfStmt:
			if e, ok := n.Else.(*ast.IfStmt); ok {
				add(e.Pos(), "else if true "+text(e.Cond), func() {
					e.Cond = &ast.ParenExpr{X: &ast.BinaryExpr{X: e.Cond, Op: token.LOR, Y: &ast.Ident{Name: "true"}}}
				})
				add(e.Pos(), "else if false "+text(e.Cond), func() {
					e.Cond = &ast.ParenExpr{X: &ast.BinaryExpr{X: e.Cond, Op: token.LAND, Y: &ast.Ident{Name: "false"}}}
				})
			}
		case *ast.BinaryExpr:
			old := n.Op
			var to []token.Token
			switch old {
			case token.EQL:
				to = []token.Token{token.NEQ}
			case token.NEQ:
				to = []token.Token{token.EQL}
			case token.LSS:
				to = []token.Token{token.LEQ, token.GTR}
			case token.LEQ:
				to = []token.Token{token.LSS, token.GTR}
			case token.GTR:
				to = []token.Token{token.GEQ, token.LSS}
			case token.GEQ:
				to = []token.Token{token.GTR, token.LSS}
			case token.LAND:
				to = []token.Token{token.LOR}
			case token.LOR:
				to = []token.Token{token.LAND}
			case token.ADD:
				to = []token.Token{token.SUB}
			}
			for _, t := range to {
				t := t
				add(n.OpPos, fmt.Sprintf("%s to %s in %s", old, t, text(n)), func() { n.Op = t })
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), "drop ! in "+text(n), func() { n.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: n.X}} })
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				to := map[string]string{"true": "false", "false": "true"}[n.Name]
				add(n.Pos(), n.Name+" to "+to, func() { n.Name = to })
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.STRING:
				s, err := strconv.Unquote(n.Value)
				if err == nil && len(s) < 60 {
					if s == "" {
						add(n.Pos(), `"" to "x"`, func() { n.Value = `"x"` })
					} else {
						add(n.Pos(), n.Value+" changed", func() { n.Value = strconv.Quote(s + "x") })
						add(n.Pos(), n.Value+" emptied", func() { n.Value = `""` })
					}
				}
			case token.INT:
				v, err := strconv.Atoi(n.Value)
				if err == nil {
					add(n.Pos(), n.Value+" plus 1", func() { n.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(n.Pos(), n.Value+" minus 1", func() { n.Value = strconv.Itoa(v - 1) })
					}
				}
			}
		case *ast.SelectorExpr:
			// neighbouring names
			for _, g := range groups {
				for i, x := range g {
					if n.Sel.Name == x && len(g) > 1 {
						y := g[(i+1)%len(g)]
						add(n.Pos(), x+" to "+y, func() { n.Sel.Name = y })
					}
				}
			}
		}
		return true
	})
	if len(os.Args) < 4 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fs.Position(m.pos).Line, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	ms[n].apply()
	var b bytes.Buffer
	if err := printer.Fprint(&b, fs, f); err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0o644)
}

// keep keeps the variables of a replaced condition used.
func keep(s *ast.IfStmt, l *[]ast.Stmt, i int) {}

var groups = [][]string{
	{"GetScope", "GetSubject", "GetClientId"},
	{"GetCreatedAt", "GetRefreshedAt", "GetAccessTokenExpiresIn", "GetRefreshTokenExpiresIn"},
	{"GetAccessToken", "GetRefreshToken"},
	{"GetExpiresIn", "GetIdTokenExpiresIn", "GetAuthTime"},
	{"GetNonce", "GetCodeVerifier", "GetRedirectURI"},
	{"ErrFailed", "ErrUnsupported", "ErrServerError"},
	{"ErrInvalidGrant", "ErrInvalidRequest", "ErrInvalidClient", "ErrInvalidScope", "ErrUnauthorizedClient"},
	{"FormValue", "PostFormValue"},
	{"DefaultAuthorizationCodeFlowResponseMode", "DefaultImplicitFlowResponseMode"},
	{"AuthorizationCode", "Implicit", "Hybrid", "DirectGrant"},
	{"RequireAccessToken", "RequireIdToken"},
	{"State", "Nonce", "CodeVerifier"},
	{"MaxNonceLength", "MaxCodeVerifierLength"},
	{"AuthSessionExpiresIn", "IdTokenExpiresIn", "ConsentOmissionPeriod"},
	{"Set", "Add"},
	{"GetIdTokenAlg", "GetIdTokenKeyId"},
}
