package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/masagroup/soft.go"
const hPath = modPath + "/zz_verif/h"
const ndPath = modPath + "/zz_verif/nd"
const modelsPath = modPath + "/zz_verif/models"

type Loaded struct {
	prog        *ssa.Program
	sizes       types.Sizes
	h           *ssa.Package
	models      *ssa.Package
	pkgs        map[string]*ssa.Package
	runtimeErrT types.Type
}

var repoDir = envOr("SYMGO_REPO", "/repo")
var verifDir = envOr("SYMGO_VERIF", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOENV", "GOROOT", "GOMODCACHE", "GOCACHE", "GO111MODULE", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOFLAGS=-mod=mod -buildvcs=false", "GOENV=off", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "CGO_ENABLED=0", "GOWORK=off")
}

// std packages whose bodies are executed symbolically.
var pureStd = map[string]bool{
	"errors": true, "io": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"sort": true, "slices": true, "maps": true, "bytes": true, "math": true, "math/bits": true, "iter": true, "net/url": true,
	"path": true, "cmp": true, "html": true, "internal/stringslite": true, "internal/bytealg": true, "internal/itoa": true,
	"bufio": true, "time": true, "container/list": true, "io/fs": true, "encoding/base64": true, "encoding/hex": true, "encoding/binary": true, "encoding": true,
	"path/filepath": true, "internal/filepathlite": true, "encoding/xml": true, "internal/oserror": true, "fmt": false,
}

func (ld *Loaded) initAllowed(path string) bool {
	if pureStd[path] {
		return true
	}
	switch {
	case strings.HasPrefix(path, modPath):
		return true
	case strings.HasPrefix(path, "github.com/ugurcsen/gods-generic"):
		return true
	case strings.HasPrefix(path, "github.com/vmihailenco/msgpack/v5"):
		return true
	case path == "github.com/KarpelesLab/weak", path == "github.com/karlseguin/jsonwriter":
		return true
	}
	return false
}

func bodiesKept(file string) bool {
	if strings.HasPrefix(file, repoDir) {
		return !strings.HasPrefix(filepath.Base(file), "sql")
	}
	i := strings.Index(file, "/src/")
	if strings.Contains(file, "go1.23.12") && i >= 0 {
		p := filepath.Dir(file[i+5:])
		if pureStd[p] || p == "fmt" || p == "reflect" || p == "sync" || p == "runtime" || p == "internal/reflectlite" || p == "encoding/xml" || p == "time" {
			return true
		}
		return false
	}
	return strings.Contains(file, "gods-generic") || strings.Contains(file, "vmihailenco/msgpack") || strings.Contains(file, "karlseguin/jsonwriter") || strings.Contains(file, "golang.org/x/net@") && strings.HasSuffix(file, "/html/escape.go") || strings.Contains(file, "!karpeles!lab/weak")
}

// globalOK: globals of packages without executed init that are safe (zero value is right).
func (ld *Loaded) globalOK(g *ssa.Global) bool {
	return g.Pkg.Pkg.Path() == "sync"
}

const weakModel = `package weak
type Destroyable interface { Destroy() }
type Map[K comparable, T any] struct { m map[K]*T }
func NewMap[K comparable, T any]() *Map[K, T] { return &Map[K, T]{m: make(map[K]*T)} }
func (w *Map[K, T]) Get(k K) *T { return w.m[k] }
func (w *Map[K, T]) Set(k K, v *T) *T { if o, ok := w.m[k]; ok && o != nil { return o }; w.m[k] = v; return v }
func (w *Map[K, T]) Delete(k K) { delete(w.m, k) }
`

// overlayFiles maps virtual /repo paths to harness sources in /verif.
func overlayFiles() map[string]string {
	r := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			r[filepath.Join(repoDir, "zz_verif", rel)] = p
		}
		return nil
	})
	return r
}

func writeOverlay(path string, threads bool) error {
	files := overlayFiles()
	if threads {
		tf, err := threadFiles(filepath.Dir(path))
		if err != nil {
			return err
		}
		for k, v := range tf {
			files[k] = v
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": files})
	return os.WriteFile(path, b, 0o644)
}

func load() (*Loaded, error) {
	ov := map[string][]byte{}
	for v, real := range overlayFiles() {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov, Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			if strings.Contains(filename, "!karpeles!lab/weak@") {
				if filepath.Base(filename) == "map.go" {
					src = []byte(weakModel)
				} else {
					src = []byte("package weak\n")
				}
			}
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil && !bodiesKept(filename) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		}}
	roots, err := packages.Load(cfg, "./zz_verif/h", "./zz_verif/models")
	if err != nil {
		return nil, err
	}
	ld := &Loaded{pkgs: map[string]*ssa.Package{}}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	ld.prog = prog
	var errs []string
	packages.Visit(roots, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		exec := ld.initAllowed(p.PkgPath) || p.PkgPath == "fmt" || p.PkgPath == "reflect" || p.PkgPath == "sync" || p.PkgPath == "runtime" || p.PkgPath == "internal/reflectlite" || p.PkgPath == "time" || p.PkgPath == "golang.org/x/net/html" || strings.HasPrefix(p.PkgPath, "github.com/vmihailenco/msgpack/v5")
		if exec && strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				if strings.Contains(e.Msg, "not used") || strings.Contains(e.Msg, "missing function body") || strings.Contains(e.Msg, "must have a body") {
					continue
				}
				errs = append(errs, e.Error())
			}
		}
		if p.TypesSizes != nil {
			ld.sizes = p.TypesSizes
		}
		if len(errs) > 0 {
			return
		}
		if exec {
			ld.pkgs[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			ld.pkgs[p.PkgPath] = prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	ld.h = ld.pkgs[hPath]
	ld.models = ld.pkgs[modelsPath]
	if ld.h == nil || ld.models == nil {
		return nil, fmt.Errorf("harness packages not loaded")
	}
	ld.runtimeErrT = ld.pkgs["runtime"].Type("errorString").Type()
	return ld, nil
}
