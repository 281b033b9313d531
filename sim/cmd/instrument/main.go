// Command instrument rewrites the non-test Go files of a source tree for the
// simulator and writes a `go build -overlay` file.  It does not touch the
// tree.  The rewriting is mechanical and depends on no name in it: a yield
// point before every statement, the imports of sync, time, net, crypto/aes and
// crypto/cipher redirected to shims, and go statements, channel operations and
// select statements handed to the simulator.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var swaps = map[string]string{
	"sync":          "verif.local/sim/shim/sync",
	"time":          "verif.local/sim/shim/time",
	"net":           "verif.local/sim/shim/net",
	"crypto/aes":    "verif.local/sim/shim/aes",
	"crypto/cipher": "verif.local/sim/shim/cipher",
}

const yield = "simrt__.Y(); "

type edit struct {
	off  int
	del  int
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	replace := map[string]string{}
	var subs []string
	err := filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor" || rel == "bin") {
			return filepath.SkipDir
		}
		if rel == "." {
			rel = ""
		}
		subs = append(subs, rel)
		return nil
	})
	if err != nil {
		fatal(err)
	}
	for _, sub := range subs {
		dir := filepath.Join(*repo, sub)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			fatal(err)
		}
		sort.Strings(files)
		var srcs []string
		for _, f := range files {
			if !strings.HasSuffix(f, "_test.go") {
				srcs = append(srcs, f)
			}
		}
		inited := initialised(srcs)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(filepath.Join(sub, filepath.Base(f)), "/", "__"))
			res, err := rewrite(f, src, sub == "", inited)
			if err != nil {
				fatal(err)
			}
			if err := os.WriteFile(dst, res, 0644); err != nil {
				fatal(err)
			}
			replace[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

func rewrite(name string, src []byte, full bool, inited map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// Generics need a newer language than the module asks for.
	if !strings.Contains(string(src[:off(f.Package)]), "//go:build") {
		edits = append(edits, edit{0, 0, "//go:build go1.21\n\n//line " + name + ":1\n"})
	}
	// The package clause line stays first; the kernel import follows it.
	edits = append(edits, edit{off(f.Name.End()), 0, `; import simrt__ "verif.local/sim/simrt"`})
	edits = append(edits, edit{len(src), 0, "\nvar _ = simrt__.Y\n" + resets(f, inited, func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) })})
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := swaps[path]; ok {
			text := strconv.Quote(to)
			if im.Name == nil {
				text = filepath.Base(path) + " " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), text})
		}
	}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), 0, yield})
		}
	}
	ins := func(p token.Pos, text string) { edits = append(edits, edit{off(p), 0, text}) }
	// swap replaces what lies between two positions
	swap := func(from, to token.Pos, text string) {
		edits = append(edits, edit{off(from), off(to) - off(from), text})
	}
	src2 := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	recv := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	handled := map[ast.Node]bool{} // operations already rewritten
	receive := func(u *ast.UnaryExpr, fn string) {
		if handled[u] {
			return
		}
		handled[u] = true
		swap(u.OpPos, u.OpPos+2, "simrt__."+fn+"(")
		ins(u.End(), ")")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			goStmt(x, ins, swap, src2)
		case *ast.SendStmt:
			if !handled[x] {
				ins(x.Chan.Pos(), "simrt__.Send(")
				swap(x.Arrow, x.Arrow+2, ")(")
				ins(x.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recv(x.Rhs[0]); u != nil {
					receive(u, "Recv2")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recv(x.Values[0]); u != nil {
					receive(u, "Recv2")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				receive(x, "Recv")
			}
		case *ast.SelectStmt:
			selectStmt(x, handled, swap, src2, recv)
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if full {
				// a switch/select body is a list of clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List)
			} else if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
				add(x.List[:1])
			}
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// yield points, then insertions, then what replaces text
		rank := func(e edit) int {
			switch {
			case e.text == yield:
				return 0
			case e.del == 0:
				return 1
			}
			return 2
		}
		return rank(edits[i]) < rank(edits[j])
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	return []byte(b.String()), nil
}

// resets makes the file's package-level variables start every run as they
// start a process, where that is plain from their declarations.
func resets(f *ast.File, inited map[string]bool, src func(ast.Node) string) string {
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			for i, name := range v.Names {
				switch {
				case name.Name == "_" || inited[name.Name]:
				case len(v.Values) == 0:
					fmt.Fprintf(&b, "{ var z__ %s; %s = z__ }; ", src(v.Type), name.Name)
				case len(v.Values) == len(v.Names) && plain(v.Values[i]):
					fmt.Fprintf(&b, "%s = %s; ", name.Name, src(v.Values[i]))
				}
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "\nfunc init() { simrt__.OnReset(func() { " + b.String() + "}) }\n"
}

// initialised names everything that init functions, initial values of
// variables, and the functions these use mention.
func initialised(files []string) map[string]bool {
	fset := token.NewFileSet()
	uses := map[string]map[string]bool{}
	seen := map[string]bool{}
	var work []string
	idents := func(n ast.Node, fn func(string)) {
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				fn(id.Name)
			}
			return true
		})
	}
	root := func(name string) {
		if !seen[name] {
			seen[name] = true
			work = append(work, name)
		}
	}
	for _, name := range files {
		f, err := parser.ParseFile(fset, name, nil, 0)
		if err != nil {
			fatal(err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				if d.Recv == nil && d.Name.Name == "init" {
					idents(d.Body, root)
					continue
				}
				if uses[d.Name.Name] == nil {
					uses[d.Name.Name] = map[string]bool{}
				}
				idents(d.Body, func(id string) { uses[d.Name.Name][id] = true })
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for _, e := range v.Values {
							idents(e, root)
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		name := work[len(work)-1]
		work = work[:len(work)-1]
		for id := range uses[name] {
			root(id)
		}
	}
	return seen
}

// plain reports whether a variable's first value depends on nothing.
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "true" || x.Name == "false" || x.Name == "nil"
	case *ast.CompositeLit:
		return len(x.Elts) == 0
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && plain(x.X)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && (id.Name == "make" || id.Name == "new")
	}
	return false
}

// goStmt turns "go f(a, b)" into a task of the simulator; function and
// arguments are evaluated first, as the language says.
func goStmt(x *ast.GoStmt, ins func(token.Pos, string), swap func(a, b token.Pos, text string), src func(ast.Node) string) {
	c := x.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		swap(x.Go, c.Pos(), "simrt__.Go(")
		swap(c.Lparen, c.Rparen+1, ")")
		return
	}
	if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println" || id.Name == "delete" || id.Name == "copy") {
		swap(x.Go, c.Pos(), "simrt__.Go(func() { ")
		ins(c.End(), " })")
		return
	}
	swap(x.Go, c.Pos(), "{ fn__ := ")
	from := c.Lparen
	call := "fn__("
	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		switch y := a.(type) {
		case *ast.BasicLit:
			call += y.Value
			continue
		case *ast.Ident:
			if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
				call += y.Name
				continue
			}
		}
		name := fmt.Sprintf("a%d__", i)
		swap(from, a.Pos(), "; "+name+" := ")
		from = a.End()
		call += name
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	swap(from, c.Rparen+1, "; simrt__.Go(func() { "+call+") }) }")
}

// selectStmt turns a select statement into a switch on the communication that
// the simulator performed.
func selectStmt(x *ast.SelectStmt, handled map[ast.Node]bool, swap func(a, b token.Pos, text string), src func(ast.Node) string, recv func(ast.Expr) *ast.UnaryExpr) {
	if len(x.Body.List) == 0 {
		swap(x.Select, x.Body.Rbrace+1, "simrt__.Forever(); panic(0)")
		return
	}
	var names, vals []string
	def := false
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		i := len(names)
		name := fmt.Sprintf("c%d__", i)
		head := fmt.Sprintf("case %d:", i)
		of := func(u *ast.UnaryExpr) {
			handled[u] = true
			vals = append(vals, "simrt__.RecvOf("+src(u.X)+")")
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			handled[c] = true
			vals = append(vals, "simrt__.SendOf("+src(c.Chan)+")("+src(c.Value)+")")
		case *ast.ExprStmt:
			of(recv(c.X))
		case *ast.AssignStmt:
			of(recv(c.Rhs[0]))
			head += " " + src(c.Lhs[0])
			if len(c.Lhs) == 2 {
				head += ", " + src(c.Lhs[1])
			}
			head += " " + c.Tok.String() + " " + name + ".V"
			if len(c.Lhs) == 2 {
				head += ", " + name + ".OK"
			}
			head += "; "
		}
		names = append(names, name)
		swap(cc.Case, cc.Colon+1, head)
	}
	if len(names) == 0 {
		swap(x.Select, x.Body.Lbrace, "switch ")
		return
	}
	swap(x.Select, x.Body.Lbrace, "switch "+strings.Join(names, ", ")+" := "+strings.Join(vals, ", ")+
		fmt.Sprintf("; simrt__.Select(%v, %s) ", def, strings.Join(names, ", ")))
	if !def {
		// a select whose clauses all return ends a function; so must this
		swap(x.Body.Rbrace, x.Body.Rbrace+1, "default: panic(0) }")
	}
}
