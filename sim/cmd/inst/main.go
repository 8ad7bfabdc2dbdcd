// Command inst rewrites a copy of the code under test so that it runs under the
// simulator: a Yield before every statement, goroutines registered with the
// scheduler, map iteration in tape-decided order, and the sync and os packages
// replaced by simulated ones. It works on the text, keeping line numbers.
//
// usage: inst EXPORTS DIR [-os] ...   (EXPORTS: lines "importpath\tfile")
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos  int
	end  int // replace [pos,end)
	text string
	seq  int
}

func main() {
	exports := map[string]string{}
	f, err := os.Open(os.Args[1])
	check(err)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), "\t", 2)
		if len(p) == 2 && p[1] != "" {
			exports[p[0]] = p[1]
		}
	}
	f.Close()
	replOS := false
	for _, a := range os.Args[2:] {
		if a == "-os" {
			replOS = true
			continue
		}
		check(filepath.Walk(a, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() {
				return pkg(path, exports, replOS)
			}
			return nil
		}))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "inst:", err)
		os.Exit(2)
	}
}

func pkg(dir string, exports map[string]string, replOS bool) error {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	if len(names) == 0 {
		return nil
	}
	sort.Strings(names)
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, n := range names {
		src, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "inst: note:", err) }}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf.Check(dir, fset, files, info)
	for i, af := range files {
		out := rewrite(fset, af, srcs[i], info, replOS, filepath.Base(names[i]))
		if err := os.WriteFile(names[i], out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, replOS bool, base string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(at int, text string) { edits = append(edits, edit{at, at, text, len(edits)}) }
	repl := func(a, b int, text string) { edits = append(edits, edit{a, b, text, len(edits)}) }

	for _, im := range f.Imports {
		var to, name string
		switch im.Path.Value {
		case `"sync"`:
			to, name = `"verifsim/simsync"`, "sync"
		case `"os"`:
			if !replOS {
				continue
			}
			to, name = `"verifsim/simos"`, "os"
		case `"io/ioutil"`:
			if !replOS {
				continue
			}
			to, name = `"verifsim/simioutil"`, "ioutil"
		default:
			continue
		}
		if im.Name == nil {
			to = name + " " + to
		}
		repl(off(im.Path.Pos()), off(im.Path.End()), to)
	}
	ins(off(f.Name.End()), `; import simrt "verifsim/simrt"`)

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins(off(s.Pos()), "simrt.Yield(); ")
			inner := s
			for {
				l, ok := inner.(*ast.LabeledStmt)
				if !ok {
					break
				}
				inner = l.Stmt
			}
			if g, ok := inner.(*ast.GoStmt); ok {
				if id, isID := g.Call.Fun.(*ast.Ident); isID {
					if _, isB := info.Uses[id].(*types.Builtin); isB {
						continue
					}
				}
				ins(off(g.Pos()), "simrt.Spawn(); ")
				if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
					ins(off(fl.Body.Lbrace)+1, " simrt.Start(); defer simrt.End(); ")
				} else {
					ins(off(g.Call.Fun.Pos()), "simrt.Wrap(")
					ins(off(g.Call.Fun.End()), ")")
				}
				ins(off(g.End()), "; simrt.Spawned()")
			}
		}
	}
	n := 0
	ast.Inspect(f, func(node ast.Node) bool {
		switch s := node.(type) {
		case *ast.BlockStmt:
			stmts(s.List)
		case *ast.ForStmt:
			if len(s.Body.List) == 0 {
				ins(off(s.Body.Lbrace)+1, " simrt.Yield(); ")
			}
		case *ast.CaseClause:
			stmts(s.Body)
		case *ast.CommClause:
			stmts(s.Body)
		case *ast.RangeStmt:
			tv, ok := info.Types[s.X]
			if !ok || tv.Type == nil {
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				break
			}
			n++
			it := fmt.Sprintf("simIt%d", n)
			text := func(e ast.Expr) string {
				if e == nil {
					return ""
				}
				t := string(src[off(e.Pos()):off(e.End())])
				if t == "_" {
					return ""
				}
				return t
			}
			k, v := text(s.Key), text(s.Value)
			var head, mid string
			addr := func(x string) string {
				if x == "" {
					return "nil"
				}
				return "&" + x
			}
			if s.Tok == token.DEFINE && (k != "" || v != "") {
				switch {
				case k != "" && v != "":
					head = fmt.Sprintf("for %s, %s, %s := simrt.MapKV(", k, v, it)
				case k != "":
					head = fmt.Sprintf("for %s, %s := simrt.MapK(", k, it)
				default:
					head = fmt.Sprintf("for %s, %s := simrt.MapV(", v, it)
				}
			} else {
				head = fmt.Sprintf("for %s := simrt.MapN(", it)
			}
			mid = fmt.Sprintf("); %s.Next(%s, %s); ", it, addr(k), addr(v))
			repl(off(s.For), off(s.X.Pos()), head)
			ins(off(s.X.End()), mid)
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// insertions before a replacement at the same place
		ri, rj := edits[i].end > edits[i].pos, edits[j].end > edits[j].pos
		if ri != rj {
			return !ri
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	if !bytes.Contains(src, []byte("//go:build")) {
		out.WriteString("//go:build go1.21\n\n")
	}
	fmt.Fprintf(&out, "//line %s:1\n", base)
	at := 0
	for _, e := range edits {
		if e.pos < at {
			check(fmt.Errorf("%s: overlapping edits", base))
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	out.WriteString("\nvar _ = simrt.Yield\n")
	return out.Bytes()
}
