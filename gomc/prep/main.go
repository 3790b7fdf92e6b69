// prep copies the Go module of possum (without its tests) and puts scheduling points into the copy:
// one before every statement, and stand-ins for the packages that synchronize.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var standIns = map[string]string{
	"sync":        "gomc.local/mcrt/sync",
	"sync/atomic": "gomc.local/mcrt/atomic",
	"runtime":     "gomc.local/mcrt/rt",
}

type insertion struct {
	at, end int
	text    string
}

func rewrite(name string, src []byte) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var ins []insertion
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := standIns[p]
		if !ok {
			continue
		}
		text := strconv.Quote(to)
		if im.Name == nil {
			text = filepath.Base(p) + " " + text
		}
		ins = append(ins, insertion{off(im.Path.Pos()), off(im.Path.End()), text})
	}
	points := false
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points = true
			ins = append(ins, insertion{off(s.Pos()), off(s.Pos()), "mcrt__.P(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			points = true
			ins = append(ins, insertion{off(n.Go), off(n.Call.Pos()), "mcrt__.Go(func() { "})
			ins = append(ins, insertion{off(n.Call.End()), off(n.Call.End()), " })"})
		}
		return true
	})
	if points {
		e := off(f.Name.End())
		ins = append(ins, insertion{e, e, `; import mcrt__ "gomc.local/mcrt"`})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var b strings.Builder
	at := 0
	for _, i := range ins {
		b.Write(src[at:i.at])
		b.WriteString(i.text)
		at = i.end
	}
	b.Write(src[at:])
	return []byte(b.String()), nil
}

func main() {
	from, to := os.Args[1], os.Args[2]
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		switch filepath.Ext(p) {
		case ".go":
			if strings.HasSuffix(p, "_test.go") {
				return nil
			}
		case ".h", ".c":
		default:
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if filepath.Ext(p) == ".go" {
			if b, err = rewrite(p, b); err != nil {
				return err
			}
		}
		if old, err := os.ReadFile(dst); err == nil && string(old) == string(b) {
			return nil
		}
		return os.WriteFile(dst, b, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
