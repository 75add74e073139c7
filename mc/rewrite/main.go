// Command rewrite makes a copy of a Go module in which every source of nondeterminism goes
// through the controlled runtime zzvs: goroutines, channels, select, package sync and
// sync/atomic, the clock, the network, process exit and (unless -sync) every access to
// memory that goroutines may share.
//
//	rewrite [-sync] -src /repo -dst DIR -vs DIR_OF_ZZVS
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

type listed struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	syncOnly = flag.Bool("sync", false, "instrument synchronization only")
	srcDir   = flag.String("src", "/repo", "")
	dstDir   = flag.String("dst", "", "")
	vsDir    = flag.String("vs", "", "")
	plain    = flag.Bool("plain", false, "copy without instrumenting")
)

// standard packages that are copied and instrumented because goroutines share their objects
var stdCopies = []string{"container/list", "container/heap", "container/ring"}

var modPath string

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	flag.Parse()
	pkgs := list(*srcDir, "./...")
	exports := map[string]string{}
	byPath := map[string]*listed{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		byPath[p.ImportPath] = p
		if !p.Standard && p.Module != nil {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module")
	}
	fset := token.NewFileSet()
	std := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			out, err := exec.Command("go", "list", "-export", "-f", "{{.Export}}", path).Output()
			if err != nil {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			f = strings.TrimSpace(string(out))
		}
		return os.Open(f)
	})
	im := &imp{std: std, done: map[string]*types.Package{}}

	var order []*listed
	seen := map[string]bool{}
	var visit func(p *listed)
	visit = func(p *listed) {
		if p == nil || seen[p.ImportPath] || p.Standard {
			return
		}
		seen[p.ImportPath] = true
		for _, i := range p.Imports {
			visit(byPath[i])
		}
		order = append(order, p)
	}
	var paths []string
	for k := range byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(byPath[k])
	}
	// standard packages in use
	usedStd := map[string]bool{}
	for _, p := range order {
		for _, i := range p.Imports {
			usedStd[i] = true
		}
	}
	for _, s := range stdCopies {
		if usedStd[s] {
			dir := filepath.Join(runtime.GOROOT(), "src", s)
			out, err := exec.Command("go", "env", "GOROOT").Output()
			if err == nil {
				dir = filepath.Join(strings.TrimSpace(string(out)), "src", s)
			}
			ents, err := os.ReadDir(dir)
			if err != nil {
				continue
			}
			l := &listed{ImportPath: modPath + "/zzstd/" + s, Dir: dir, Standard: false, Name: filepath.Base(s)}
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
					l.GoFiles = append(l.GoFiles, e.Name())
				}
			}
			im.redirect(s, l.ImportPath)
			order = append([]*listed{l}, order...)
		}
	}
	base := 1
	for _, p := range order {
		if p.Error != nil && len(p.GoFiles) == 0 {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		out := filepath.Join(*dstDir, rel)
		if p.Name == "main" {
			continue
		}
		if err := os.MkdirAll(out, 0o755); err != nil {
			die("%v", err)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: im, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("%s: %v", p.ImportPath, err)
		}
		im.done[p.ImportPath] = tp
		r := &rw{fset: fset, info: info, pkg: tp, base: base, redirects: im.redirects, name: p.Name}
		r.scan(files)
		inits := r.initializers(files)
		for i, af := range files {
			r.file(af, inits)
			var b bytes.Buffer
			if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, af); err != nil {
				die("print: %v", err)
			}
			src := b.Bytes()
			if fm, err := format.Source(src); err == nil {
				src = fm
			}
			if err := os.WriteFile(filepath.Join(out, p.GoFiles[i]), src, 0o644); err != nil {
				die("%v", err)
			}
		}
		r.finish(out, inits)
		base += len(r.sites)
	}
	// the controlled runtime
	vs := filepath.Join(*dstDir, "zzvs")
	os.MkdirAll(vs, 0o755)
	ents, err := os.ReadDir(*vsDir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			b, _ := os.ReadFile(filepath.Join(*vsDir, e.Name()))
			os.WriteFile(filepath.Join(vs, e.Name()), b, 0o644)
		}
	}
	os.WriteFile(filepath.Join(*dstDir, "go.mod"), []byte("module "+modPath+"\n\ngo 1.21\n"), 0o644)
}

func list(dir, pat string) []*listed {
	c := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Imports,Module,Error", pat)
	c.Dir = dir
	c.Stderr = os.Stderr
	out, err := c.Output()
	if err != nil && len(out) == 0 {
		die("go list: %v", err)
	}
	var ps []*listed
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listed)
		if err := d.Decode(p); err != nil {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

type imp struct {
	std       types.Importer
	done      map[string]*types.Package
	redirects map[string]string
}

func (i *imp) redirect(from, to string) {
	if i.redirects == nil {
		i.redirects = map[string]string{}
	}
	i.redirects[from] = to
}

func (i *imp) Import(path string) (*types.Package, error) {
	if to := i.redirects[path]; to != "" && i.done[to] != nil {
		return i.done[to], nil
	}
	if p := i.done[path]; p != nil {
		return p, nil
	}
	return i.std.Import(path)
}
