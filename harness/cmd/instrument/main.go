// Command instrument writes an overlay (go build -overlay) of packages of the
// repository with a scheduling point before every statement and durable locks.
//
// usage: instrument [-nopoints] REPO OUTDIR PKGDIR...
//
// usage: instrument -locks FROMDIR TODIR
//
// The second form copies the Go package at FROMDIR with only the durable locks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

var site int

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: instrument REPO OUTDIR PKGDIR...")
		os.Exit(2)
	}
	if os.Args[1] == "-locks" {
		copyLocks(os.Args[2], os.Args[3])
		return
	}
	points := true
	if os.Args[1] == "-nopoints" {
		points = false
		os.Args = append(os.Args[:1], os.Args[2:]...)
	}
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for _, pkg := range os.Args[3:] {
		dir := filepath.Join(repo, pkg)
		ents, err := os.ReadDir(dir)
		check(err)
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(filepath.Join(dir, n))
			check(err)
			res, err := instrument(n, src, points)
			if err != nil {
				// leave the file alone: the build reports what is wrong with it.
				fmt.Fprintln(os.Stderr, "instrument:", n, err)
				continue
			}
			to := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_"+n)
			check(os.WriteFile(to, res, 0o644))
			replace[filepath.Join(dir, n)] = to
		}
	}
	js, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
	fmt.Println("instrumented", len(replace), "files,", site, "points")
}

// notLocks are files with locks that are shared between bubbles.
var notLocks = map[string]bool{"compress.go": true}

func copyLocks(from, to string) {
	check(os.MkdirAll(to, 0o755))
	ents, err := os.ReadDir(from)
	check(err)
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if n != "test" && n != "testdata" && n != "ci" && !strings.HasPrefix(n, ".") && !strings.HasPrefix(n, "_") {
				copyLocks(filepath.Join(from, n), filepath.Join(to, n))
			}
			continue
		}
		if strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") || n == "go.mod" || n == "go.sum") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(from, n))
		check(err)
		if strings.HasSuffix(n, ".go") && !notLocks[n] {
			src, err = instrument(n, src, false)
			check(err)
		}
		check(os.WriteFile(filepath.Join(to, n), src, 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func instrument(name string, src []byte, points bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	syncName := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		case "github.com/aperturerobotics/util/broadcast":
			text := strconv.Quote("verif/harness/vbroadcast")
			if im.Name == nil {
				text = "broadcast " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import __vs "verif/harness/sched"`})
	used := false
	stmts := func(list []ast.Stmt) {
		if !points {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			site++
			used = true
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("__vs.P(%d);", site)})
		}
	}
	replacedSync := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if ok && syncName != "" && id.Name == syncName && id.Obj == nil {
				switch n.Sel.Name {
				case "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues":
					edits = append(edits, edit{off(id.Pos()), off(id.End()), "__vs"})
					replacedSync, used = true, true
				}
			}
		}
		return true
	})
	tail := ""
	if replacedSync && syncName != "_" && syncName != "." {
		tail += "\nvar _ " + syncName + ".Locker\n"
	}
	if !used {
		tail += "\nvar _ = __vs.P\n"
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString(tail)
	return []byte(b.String()), nil
}
