package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/spacemonkeygo/monkit/v3"

var repo = "/repo"
var verif = "/verif"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false -trimpath", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func goCmd(dir string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.Bytes(), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

func skipPkg(path string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	return strings.HasPrefix(rel, "examples") || strings.HasPrefix(rel, "internal/test")
}

func tagArgs(tags string) []string {
	if tags == "" {
		return nil
	}
	return []string{"-tags", tags}
}

// instrument writes the instrumented tree to dir and returns the overlay file.
func instrument(dir string, level int, tags string) (string, error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Error"}, tagArgs(tags)...)
	out, err := goCmd(repo, append(args, "./...")...)
	if err != nil {
		return "", err
	}
	exports := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			if !skipPkg(p.ImportPath) {
				q := p
				mine = append(mine, &q)
			}
		}
	}
	replace := map[string]string{}
	add := func(virtual, real string) { replace[filepath.Join(repo, virtual)] = real }
	// shims
	shims, _ := filepath.Glob(filepath.Join(verif, "shim", "*", "*.go"))
	for _, s := range shims {
		add(filepath.Join("internal/zv", filepath.Base(filepath.Dir(s)), filepath.Base(s)), s)
	}
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, h := range hs {
		add(filepath.Join("internal/zv/harness", filepath.Base(h)), h)
	}
	subs, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "*.go"))
	for _, h := range subs {
		add(filepath.Join("internal/zv/harness", filepath.Base(filepath.Dir(h)), filepath.Base(h)), h)
	}
	base := 1
	for pi, p := range mine {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return "", err
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return "", fmt.Errorf("type-check %s: %v", p.ImportPath, err)
		}
		r := &pkgRW{fset: fset, info: info, pkg: tp, level: level, base: base, root: repo, captured: map[types.Object]bool{}}
		rel, _ := filepath.Rel(repo, p.Dir)
		odir := filepath.Join(dir, "src", fmt.Sprint(pi))
		os.MkdirAll(odir, 0o755)
		for i, f := range files {
			src, err := r.file(f)
			if err != nil {
				return "", fmt.Errorf("rewrite %s: %v", p.GoFiles[i], err)
			}
			of := filepath.Join(odir, p.GoFiles[i])
			if err := os.WriteFile(of, src, 0o644); err != nil {
				return "", err
			}
			add(filepath.Join(rel, p.GoFiles[i]), of)
		}
		// globals and sites
		var g bytes.Buffer
		fmt.Fprintf(&g, "package %s\n\nimport zvsched %q\n\nfunc init() {\n", p.Name, zvBase+"sched")
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
				_ = v
				fmt.Fprintf(&g, "\tzvsched.Global(&%s)\n", n)
			}
		}
		fmt.Fprintf(&g, "\tfor i, s := range []string{\n")
		for _, s := range r.sites {
			fmt.Fprintf(&g, "\t\t%q,\n", s)
		}
		fmt.Fprintf(&g, "\t} {\n\t\tzvsched.Sites[%d+i] = s\n\t}\n}\n", base)
		base += len(r.sites)
		gf := filepath.Join(odir, "zv_gen.go")
		os.WriteFile(gf, g.Bytes(), 0o644)
		add(filepath.Join(rel, "zv_gen.go"), gf)
	}
	ov := filepath.Join(dir, "overlay.json")
	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return ov, os.WriteFile(ov, data, 0o644)
}

// buildHarness instruments and builds, falling back to the lower level when
// the full instrumentation does not compile.
func buildHarness(dir string, race bool, tags string) (bin string, level int, err error) {
	for level = 2; level >= 1; level-- {
		var ov string
		ov, err = instrument(dir, level, tags)
		if err != nil {
			continue
		}
		bin = filepath.Join(dir, "harness.bin")
		args := append([]string{"build", "-overlay", ov, "-o", bin}, tagArgs(tags)...)
		if oldLang() {
			// the generated range-over-map helpers need interface keys to be comparable;
			// 1.21 keeps the loop-variable semantics of the module's own version
			args = append(args, "-gcflags="+modPath+"/...=-lang=go1.21")
		}
		if race {
			args = append(args, "-race")
		}
		_, err = goCmd(repo, append(args, "./internal/zv/harness")...)
		if err == nil {
			return bin, level, nil
		}
		fmt.Fprintln(os.Stderr, "note: instrumentation level", level, "did not build:", err)
	}
	return "", 0, err
}

func oldLang() bool {
	out, err := goCmd(repo, "list", "-m", "-f", "{{.GoVersion}}")
	v := strings.Split(strings.TrimSpace(string(out)), ".")
	if err != nil || len(v) < 2 {
		return false
	}
	minor := 0
	fmt.Sscan(v[1], &minor)
	return v[0] == "1" && minor < 21
}
