// Command instr reads the non-test sources of the repository under test and
// writes, into an output directory, copies with scheduling points inserted
// (for 'go build -overlay') and a dictionary of the literals they contain (for
// the generators). It never writes into the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	schedPath  = "verif/sched"
	schedName  = "vsched"
	syncPath   = "verif/sched/shim/sync"
	atomicPath = "verif/sched/shim/atomic"
)

// Packages that contain no concurrency of their own: instrumenting them would
// only slow the schedules of the others down.
var plain = map[string]bool{
	"xstring": true, "xmath": true, "xerror": true, "internal/hack": true,
}

type dict struct {
	Ints    []int64  `json:"ints"`
	Strings []string `json:"strings"` // Go-quoted
	Runes   []int64  `json:"runes"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	all := flag.Bool("all", false, "instrument every package")
	flag.Parse()
	if *out == "" {
		fmt.Fprintln(os.Stderr, "instr: -out required")
		os.Exit(2)
	}
	overlay := map[string]string{}
	d := map[string]*dict{}
	n := 0
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		pkg := filepath.ToSlash(filepath.Dir(rel))
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if d[pkg] == nil {
			d[pkg] = &dict{}
		}
		literals(f, d[pkg])
		if plain[pkg] && !*all {
			return nil
		}
		res, ok := instrument(fset, f, p, src)
		if !ok {
			return nil
		}
		n++
		dst := filepath.Join(*out, fmt.Sprintf("f%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		overlay[p] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	for _, x := range d {
		x.Ints = uniq(x.Ints)
		x.Runes = uniq(x.Runes)
		sort.Strings(x.Strings)
	}
	write(filepath.Join(*out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	write(filepath.Join(*out, "dict.json"), d)
}

func write(p string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func uniq(a []int64) []int64 {
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	var r []int64
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			r = append(r, v)
		}
	}
	return r
}

// ---------------------------------------------------------------- literals

func literals(f *ast.File, d *dict) {
	seen := map[string]bool{}
	for _, s := range d.Strings {
		seen[s] = true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case ast.Expr:
			v := fold(x)
			if v == nil {
				return true
			}
			if lit, ok := x.(*ast.BasicLit); ok && lit.Kind == token.CHAR {
				if i, ok := constant.Int64Val(v); ok {
					d.Runes = append(d.Runes, i)
				}
				return false
			}
			switch v.Kind() {
			case constant.Int:
				if i, ok := constant.Int64Val(v); ok {
					d.Ints = append(d.Ints, i)
				}
			case constant.String:
				q := strconv.QuoteToASCII(constant.StringVal(v))
				if !seen[q] {
					seen[q] = true
					d.Strings = append(d.Strings, q)
				}
			}
		}
		return true
	})
}

func fold(e ast.Expr) constant.Value {
	defer func() { _ = recover() }()
	return fold1(e)
}

var mathConsts = map[string]int64{
	"MaxInt8": math.MaxInt8, "MaxInt16": math.MaxInt16, "MaxInt32": math.MaxInt32, "MaxInt64": math.MaxInt64, "MaxInt": math.MaxInt64,
	"MinInt8": math.MinInt8, "MinInt16": math.MinInt16, "MinInt32": math.MinInt32, "MinInt64": math.MinInt64, "MinInt": math.MinInt64,
	"MaxUint8": math.MaxUint8, "MaxUint16": math.MaxUint16, "MaxUint32": math.MaxUint32,
}

func fold1(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return fold1(x.X)
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "math" {
			if v, ok := mathConsts[x.Sel.Name]; ok {
				return constant.MakeInt64(v)
			}
		}
		return nil
	case *ast.CallExpr: // a conversion
		if t, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && strings.Contains(t.Name, "int") {
			return fold1(x.Args[0])
		}
		return nil
	case *ast.UnaryExpr:
		v := fold1(x.X)
		if v == nil || (x.Op != token.SUB && x.Op != token.ADD && x.Op != token.XOR) {
			return nil
		}
		return constant.UnaryOp(x.Op, v, 0)
	case *ast.BinaryExpr:
		a, b := fold1(x.X), fold1(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(b)
			if !ok || s > 64 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(s))
		case token.QUO:
			if constant.Sign(b) == 0 {
				return nil
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b) // integer division
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

// ---------------------------------------------------------------- instrument

type edit struct {
	from, to int
	text     string
	seq      int
}

func instrument(fset *token.FileSet, f *ast.File, path string, src []byte) ([]byte, bool) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "C" {
			return nil, false
		}
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(from, to int, text string) {
		edits = append(edits, edit{from, to, text, len(edits)})
	}
	y := schedName + ".Y();"
	points := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			add(off(s.Pos()), off(s.Pos()), y)
		}
	}
	body := func(b *ast.BlockStmt) {
		if b == nil || len(b.List) > 0 {
			return // the first statement brings its own
		}
		points++
		add(off(b.Lbrace)+1, off(b.Lbrace)+1, y)
	}
	// Only real (unshadowed) package names are rewritten through their imports.
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var to string
		switch p {
		case "sync":
			to = syncPath
		case "sync/atomic":
			to = atomicPath
		default:
			continue
		}
		add(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(to))
	}
	// vsched is imported on the line of the package clause.
	add(off(f.Name.End()), off(f.Name.End()), "; import "+schedName+" "+strconv.Quote(schedPath))

	post := map[ast.Node]bool{} // loop counters need no point inside
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt:
			if x.Post != nil {
				post[x.Post] = true
			}
			body(x.Body)
		case *ast.RangeStmt:
			body(x.Body)
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.FuncDecl:
			body(x.Body)
		case *ast.FuncLit:
			body(x.Body)
		case *ast.IncDecStmt:
			if !post[x] && shared(x.X) {
				op := " + 1"
				if x.Tok == token.DEC {
					op = " - 1"
				}
				t := string(src[off(x.X.Pos()):off(x.X.End())])
				add(off(x.X.End()), off(x.End()), " = "+schedName+".V("+t+")"+op)
			}
		case *ast.AssignStmt:
			if !post[x] && len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && shared(x.Lhs[0]) {
				t := string(src[off(x.Lhs[0].Pos()):off(x.Lhs[0].End())])
				op := strings.TrimSuffix(x.Tok.String(), "=")
				add(off(x.TokPos), off(x.TokPos)+len(x.Tok.String()), "= "+schedName+".V("+t+") "+op+" (")
				add(off(x.Rhs[0].End()), off(x.Rhs[0].End()), ")")
			}
		}
		return true
	})
	// A switch or select body is a BlockStmt whose list holds clauses: no point
	// may be inserted in front of a clause.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	var keep []edit
	for _, e := range edits {
		if e.from == e.to && e.text == y && clause[e.from] {
			continue
		}
		keep = append(keep, e)
	}
	edits = keep
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	hasBuild := bytes.Contains(src[:off(f.Package)], []byte("//go:build")) || bytes.Contains(src[:off(f.Package)], []byte("// +build"))
	if !hasBuild {
		// raises the language version of this copy so that vsched.V may be inferred
		b.WriteString("//go:build go1.21\n\n")
		fmt.Fprintf(&b, "//line %s:1\n", path)
	}
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			return nil, false // overlapping edits: leave this file alone
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	// keep the import used even when no point was inserted
	fmt.Fprintf(&b, "\nvar _ = %s.Y\n", schedName)
	return b.Bytes(), true
}

// shared reports whether reading e twice is free of side effects and e may be
// visible to other goroutines.
func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return shared(x.X)
	case *ast.StarExpr:
		return shared(x.X)
	case *ast.ParenExpr:
		return shared(x.X)
	case *ast.IndexExpr:
		if _, ok := x.Index.(*ast.BasicLit); ok {
			return shared(x.X)
		}
		return shared(x.X) && shared(x.Index)
	}
	return false
}
