package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loaded holds the SSA form of the packages under verification, built from the
// current source text of the repository (and of encoding/binary in GOROOT).
type Loaded struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // short name -> package
	Files map[string][]*ast.File
}

type imp struct {
	l    *Loaded
	std  types.Importer
	pk   map[string]*types.Package
	root string
	errs []error
	info map[string]*types.Info
	files map[string][]*ast.File
	std2 map[string]*types.Package
}

func (im *imp) Import(path string) (*types.Package, error) {
	if p, ok := im.pk[path]; ok {
		return p, nil
	}
	if strings.HasPrefix(path, "../") {
		return im.load(filepath.Base(path), filepath.Join(im.root, "src", filepath.Base(path)), path)
	}
	p, err := im.std.Import(path)
	if err == nil {
		im.pk[path] = p
	}
	return p, err
}

func (im *imp) load(name, dir, path string) (*types.Package, error) {
	if p, ok := im.pk[path]; ok {
		return p, nil
	}
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(im.l.Fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: im, FakeImportC: true, Error: func(e error) { im.errs = append(im.errs, e) }, Sizes: types.SizesFor("gc", "amd64")}
	p, err := cfg.Check(name, im.l.Fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("type checking %s: %v", dir, err)
	}
	im.pk[path] = p
	im.info[path] = info
	im.files[path] = files
	return p, nil
}

func LoadRepo(root string) (*Loaded, error) {
	l := &Loaded{Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, Files: map[string][]*ast.File{}}
	build.Default.CgoEnabled = false
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = "/opt/vp/gopath"
	im := &imp{l: l, pk: map[string]*types.Package{}, root: root, info: map[string]*types.Info{}, files: map[string][]*ast.File{}}
	im.std = importer.ForCompiler(l.Fset, "source", nil)
	// encoding/binary is verified from its GOROOT source
	if _, err := im.load("encoding/binary", filepath.Join(build.Default.GOROOT, "src/encoding/binary"), "encoding/binary"); err != nil {
		return nil, err
	}
	if _, err := im.load("collection", filepath.Join(root, "src/collection"), "../collection"); err != nil {
		return nil, err
	}
	if _, err := im.load("util", filepath.Join(root, "src/util"), "../util"); err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(l.Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var mk func(p *types.Package)
	mk = func(p *types.Package) {
		if created[p] {
			return
		}
		created[p] = true
		for _, q := range p.Imports() {
			mk(q)
		}
		for path, q := range im.pk {
			if q == p && im.info[path] != nil {
				sp := prog.CreatePackage(p, im.files[path], im.info[path], true)
				short := filepath.Base(path)
				l.Pkgs[short] = sp
				l.Files[short] = im.files[path]
				return
			}
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	mk(im.pk["../util"])
	for _, sp := range l.Pkgs {
		sp.Build()
	}
	l.Prog = prog
	return l, nil
}
