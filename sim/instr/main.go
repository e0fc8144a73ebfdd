// Command instr copies the module under test to a scratch directory with
// scheduling points inserted: before every statement, in place of package
// sync, at select statements, map iterations and go statements.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, end int // replaced range; at==end: insertion
	text    string
	seq     int
}

type instr struct {
	fset  *token.FileSet
	src   []byte
	base  int
	edits []edit
	info  *types.Info
	file  string
	level int
	n     int
	tail  string
}

// shims replace packages whose results the run has to decide.
var shims = map[string]string{"math/rand": "verifsim/simrand", "math/rand/v2": "verifsim/simrand/v2"}

// funcs replace single functions; the entry of "" is something else of the package.
var funcs = map[string]map[string]string{
	"time":    {"AfterFunc": "AfterFunc", "": "Second"},
	"context": {"AfterFunc": "CtxAfterFunc", "": "Canceled"},
	"runtime": {"Gosched": "Gosched", "": "GOOS"},
}

var sites []string

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) add(at, end int, text string) {
	in.n++
	in.edits = append(in.edits, edit{at, end, text, in.n})
}

// render applies the edits inside [from,to).
func (in *instr) render(from, to int) string {
	var es []edit
	for _, e := range in.edits {
		if e.at >= from && e.end <= to && !(e.at == e.end && e.at == to) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.at != b.at {
			return a.at < b.at
		}
		ai, bi := a.at == a.end, b.at == b.end
		if ai != bi {
			return ai // insertions before replacements
		}
		return a.seq > b.seq // outer insertions are made later and go first
	})
	var sb strings.Builder
	pos := from
	for _, e := range es {
		if e.at < pos {
			continue
		}
		sb.Write(in.src[pos:e.at])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(in.src[pos:to])
	return sb.String()
}

func (in *instr) replace(from, to int, text string) {
	kept := in.edits[:0]
	for _, e := range in.edits {
		if e.at >= from && e.end <= to && !(e.at == e.end && e.at == to) {
			continue
		}
		kept = append(kept, e)
	}
	in.edits = kept
	in.add(from, to, text)
}

func (in *instr) site(p token.Pos) string {
	sites = append(sites, fmt.Sprintf("%s:%d", in.file, in.fset.Position(p).Line))
	return fmt.Sprintf("zzsimrt.Y(%d);", len(sites))
}

func (in *instr) list(ss []ast.Stmt) {
	for _, s := range ss {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		o := in.off(s.Pos())
		in.add(o, o, in.site(s.Pos()))
	}
}

func (in *instr) walk(n ast.Node) {
	if in.level >= 2 {
		return
	}
	// post-order: children first
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		if c != nil {
			in.walk(c)
		}
		return false
	})
	switch s := n.(type) {
	case *ast.BlockStmt:
		in.list(s.List)
	case *ast.CaseClause:
		in.list(s.Body)
	case *ast.CommClause:
		in.list(s.Body)
	case *ast.ForStmt:
		if len(s.Body.List) == 0 {
			o := in.off(s.Body.Lbrace) + 1
			in.add(o, o, in.site(s.Body.Lbrace))
		}
	case *ast.SelectStmt:
		if in.level == 0 {
			in.selectStmt(s)
		}
	case *ast.RangeStmt:
		if in.level == 0 {
			in.rangeStmt(s)
		}
	case *ast.GoStmt:
		if in.level == 0 {
			in.goStmt(s)
		}
	}
}

func (in *instr) selectStmt(s *ast.SelectStmt) {
	var comm []*ast.CommClause
	for _, c := range s.Body.List {
		if cc := c.(*ast.CommClause); cc.Comm != nil {
			comm = append(comm, cc)
		}
	}
	labels := false
	ast.Inspect(s, func(n ast.Node) bool {
		if _, is := n.(*ast.LabeledStmt); is {
			labels = true
		}
		return true
	})
	if labels || len(comm) < 2 {
		return
	}
	// What the communications call is called once, before.
	var names, vals []string
	hoist := func(e ast.Expr) {
		calls := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit:
				calls = true
			}
			return true
		})
		if calls {
			from, to := in.off(e.Pos()), in.off(e.End())
			name := fmt.Sprintf("zzs%d", from)
			names, vals = append(names, name), append(vals, in.render(from, to))
			in.replace(from, to, name)
		}
	}
	recv := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			hoist(u.X)
		}
	}
	for _, c := range comm {
		switch x := c.Comm.(type) {
		case *ast.SendStmt:
			hoist(x.Chan)
			hoist(x.Value)
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			recv(x.Rhs[0])
		}
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	from, to := in.off(s.Pos()), in.off(s.End())
	full := in.render(from, to)
	var sb strings.Builder
	fmt.Fprintf(&sb, "switch %szzsimrt.Pick(%d) {", init, len(comm))
	for i, c := range comm {
		if i == len(comm)-1 {
			sb.WriteString("\ndefault: ")
		} else {
			fmt.Fprintf(&sb, "\ncase %d: ", i)
		}
		body := in.render(in.off(c.Pos()), in.off(c.End()))
		fmt.Fprintf(&sb, "select {\n%s\ndefault: %s\n}", body, full)
	}
	sb.WriteString("\n}")
	in.replace(from, to, sb.String())
}

// ordered reports whether values of the type print alike in every execution.
func ordered(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return ordered(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !ordered(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (in *instr) rangeStmt(s *ast.RangeStmt) {
	if in.info == nil || s.Key == nil {
		return
	}
	tv, ok := in.info.Types[s.X]
	if !ok {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return
	}
	if !ordered(m.Key()) {
		return
	}
	txt := func(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }
	it := fmt.Sprintf("zzk%d", in.off(s.Pos()))
	x, id := it+".M", it+".K"
	ranged := in.render(in.off(s.X.Pos()), in.off(s.X.End()))
	var pre string
	key := txt(s.Key)
	if s.Tok == token.DEFINE {
		if key != "_" {
			pre += fmt.Sprintf("%s := %s; _ = %s;", key, id, key)
		}
		if s.Value != nil && txt(s.Value) != "_" {
			v := txt(s.Value)
			pre += fmt.Sprintf("%s, zzok := %s[%s]; if !zzok { continue }; _ = %s;", v, x, id, v)
		} else {
			pre += fmt.Sprintf("if _, zzok := %s[%s]; !zzok { continue };", x, id)
		}
	} else {
		pre += fmt.Sprintf("if _, zzok := %s[%s]; !zzok { continue };", x, id)
		if key != "_" {
			pre += fmt.Sprintf("%s = %s;", key, id)
		}
		if s.Value != nil && txt(s.Value) != "_" {
			pre += fmt.Sprintf("%s = %s[%s];", txt(s.Value), x, id)
		}
	}
	from, to := in.off(s.Pos()), in.off(s.Body.Lbrace)+1
	in.replace(from, to, fmt.Sprintf("for _, %s := range zzsimrt.MapIter(%s) { %s", it, ranged, pre))
}

func (in *instr) goStmt(s *ast.GoStmt) {
	if in.info == nil || s.Call.Ellipsis.IsValid() || len(s.Call.Args) > 3 {
		return
	}
	tv, ok := in.info.Types[s.Call.Fun]
	if !ok {
		return
	}
	sig, ok := tv.Type.Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 0 || sig.Variadic() || sig.TypeParams().Len() != 0 || sig.Params().Len() != len(s.Call.Args) {
		return
	}
	args := []string{in.render(in.off(s.Call.Fun.Pos()), in.off(s.Call.Fun.End()))}
	for _, a := range s.Call.Args {
		args = append(args, in.render(in.off(a.Pos()), in.off(a.End())))
	}
	from, to := in.off(s.Pos()), in.off(s.End())
	in.replace(from, to, fmt.Sprintf("go zzsimrt.Guard%d(%s)", len(s.Call.Args), strings.Join(args, ", ")))
}

type listPkg struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	Standard                bool
	DepOnly                 bool
}

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	race := flag.Bool("race", false, "the copy is for the race detector")
	level := flag.Int("level", 0, "0: all rewrites; 1: only yield points and sync; 2: only sync")
	flag.Parse()
	if *dst == "" {
		fmt.Fprintln(os.Stderr, "instr: -dst needed")
		os.Exit(2)
	}
	check := func(e error) {
		if e != nil {
			fmt.Fprintln(os.Stderr, "instr:", e)
			os.Exit(3)
		}
	}
	// What the build selects, and export data for type checking.
	exports := map[string]string{}
	infos := map[string]*types.Info{} // by directory
	fset := token.NewFileSet()
	asts := map[string]*ast.File{}
	srcs := map[string][]byte{}
	modBytes, e := os.ReadFile(filepath.Join(*src, "go.mod"))
	check(e)
	parse := func(p string) *ast.File {
		if f := asts[p]; f != nil {
			return f
		}
		b, e := os.ReadFile(p)
		check(e)
		f, e := parser.ParseFile(fset, p, b, parser.ParseComments)
		check(e)
		asts[p], srcs[p] = f, b
		return f
	}
	// -modfile: go list must not touch the tree's own go.mod and go.sum.
	tmp, e := os.MkdirTemp("", "instr")
	check(e)
	defer os.RemoveAll(tmp)
	os.WriteFile(filepath.Join(tmp, "go.mod"), modBytes, 0600)
	if sum, e := os.ReadFile(filepath.Join(*src, "go.sum")); e == nil {
		os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0600)
	}
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(tmp, "go.mod"), "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard,DepOnly", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, e := cmd.Output()
	check(e)
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var own []listPkg
	for {
		var p listPkg
		if e := dec.Decode(&p); e == io.EOF {
			break
		} else {
			check(e)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			own = append(own, p)
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		x := exports[path]
		if x == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(x)
	})
	selected := map[string]bool{}
	for _, p := range own {
		var fs []*ast.File
		for _, f := range p.GoFiles {
			fs = append(fs, parse(filepath.Join(p.Dir, f)))
			selected[filepath.Join(p.Dir, f)] = true
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, fs, info)
		infos[p.Dir] = info
	}
	mod := regexp.MustCompile(`(?m)^go .*$`).ReplaceAllString(string(modBytes), "go 1.21")
	if !strings.Contains(mod, "\ngo 1.21") {
		mod += "\ngo 1.21\n"
	}
	check(os.MkdirAll(*dst, 0700))
	check(os.WriteFile(filepath.Join(*dst, "go.mod"), []byte(mod), 0600))
	e = filepath.Walk(*src, func(p string, fi os.FileInfo, e error) error {
		if e != nil {
			return e
		}
		rel, _ := filepath.Rel(*src, p)
		if fi.IsDir() {
			if b := fi.Name(); rel != "." && (strings.HasPrefix(b, ".") || b == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(*dst, rel), 0700)
		}
		if !fi.Mode().IsRegular() || rel == "go.mod" || rel == "go.sum" || strings.HasSuffix(rel, "_test.go") || strings.HasSuffix(rel, ".db") {
			return nil
		}
		if !strings.HasSuffix(rel, ".go") {
			if fi.Size() > 4<<20 {
				return nil
			}
			b, e := os.ReadFile(p)
			if e != nil {
				return e
			}
			return os.WriteFile(filepath.Join(*dst, rel), b, 0600)
		}
		if !selected[p] {
			return nil // excluded by a build constraint
		}
		f := parse(p)
		in := &instr{fset: fset, src: srcs[p], info: infos[filepath.Dir(p)], file: rel, level: *level}
		simRedis, stdsync := false, ""
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if to := shims[path]; to != "" {
				t := strconv.Quote(to)
				if im.Name == nil {
					t = "rand " + t
				}
				in.add(in.off(im.Path.Pos()), in.off(im.Path.End()), t)
			}
			if path == "github.com/go-redis/redis/v8" {
				name := "redis"
				if im.Name != nil {
					name = im.Name.Name
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "NewClient" {
						if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
							in.add(in.off(id.Pos()), in.off(id.End()), "zzredis")
							simRedis = true
						}
					}
					return true
				})
				if simRedis {
					in.tail += "\nvar _ = " + name + ".Nil\n" // still used
				}
			}
			if r := funcs[path]; r != nil && *level == 0 {
				name := filepath.Base(path)
				if im.Name != nil {
					name = im.Name.Name
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok && r[s.Sel.Name] != "" {
						if id, ok := s.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil {
							in.add(in.off(s.Pos()), in.off(s.End()), "zzsimrt."+r[s.Sel.Name])
							in.tail += "\nvar _ = " + name + "." + r[""] + "\n" // still used
						}
					}
					return true
				})
			}
			if path == "sync" {
				t := `"verifsim/simsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				in.add(in.off(im.Path.Pos()), in.off(im.Path.End()), t)
				if *race {
					// The race detector has to see the real sync.Map.  (Its code
					// must not be instantiated by packages built without it.)
					name := "sync"
					if im.Name != nil {
						name = im.Name.Name
					}
					ast.Inspect(f, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Map" {
							if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
								in.add(in.off(s.Pos()), in.off(s.End()), "zzsync.Map")
								stdsync = name
							}
						}
						return true
					})
				}
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.walk(fd)
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				in.walk(gd)
			}
		}
		o := in.off(f.Name.End())
		in.add(o, o, `; import zzsimrt "verifsim/simrt"`)
		if simRedis {
			in.add(o, o, `; import zzredis "verifsim/simredis"`)
		}
		if stdsync != "" {
			in.add(o, o, `; import zzsync "sync"`)
			in.tail += "\nvar _ " + stdsync + ".Locker\n"
		}
		text := in.render(0, len(in.src)) + "\nvar _ = zzsimrt.Y\n" + in.tail
		return os.WriteFile(filepath.Join(*dst, rel), []byte(text), 0600)
	})
	check(e)
	b, _ := json.Marshal(sites)
	check(os.WriteFile(filepath.Join(*dst, "zzsites.json"), b, 0600))
}
