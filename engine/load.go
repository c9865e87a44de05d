package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/DanLavine/willow"
const symPath = modPath + "/internal/verif_sym"
const harnessPath = modPath + "/internal/verif_harness"

// overlayFiles maps virtual files under repo to real files under verif.
func overlayFiles(repo, verif string) map[string]string {
	r := map[string]string{}
	add := func(from, to string) {
		filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(from, p)
			r[filepath.Join(to, rel)] = p
			return nil
		})
	}
	add(filepath.Join(verif, "sym"), filepath.Join(repo, "internal/verif_sym"))
	add(filepath.Join(verif, "harness"), filepath.Join(repo, "internal/verif_harness"))
	// in-package accessors (files that only exist in the overlay)
	add(filepath.Join(verif, "inpkg"), repo)
	return r
}

type Program struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	docs    map[string]string // harness function -> doc comment
	repo    string
	symPkg  *ssa.Package
	buildMu sync.Mutex
	built   map[*ssa.Package]bool
	allPkgs map[string]*ssa.Package
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local")
	return env
}

func loadProgram(repo, verif, harness string) (*Program, error) {
	ov := map[string][]byte{}
	for virt, real := range overlayFiles(repo, verif) {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:        repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-tags=verif"},
	}
	load := []string{harnessPath + "/" + harness}
	if harness == "c40" {
		for _, c := range commands {
			load = append(load, c)
		}
	}
	pkgs, err := packages.Load(cfg, load...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 20 {
				fmt.Fprintf(os.Stderr, "load: %s: %v\n", p.PkgPath, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: spkgs, docs: map[string]string{}, repo: repo, built: map[*ssa.Package]bool{}, allPkgs: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.allPkgs[sp.Pkg.Path()] = sp
	}
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
					p.docs[fd.Name.Name] = docText(fd.Doc)
				}
			}
		}
	}
	p.symPkg = p.allPkgs[symPath]
	prog.Build()
	return p, nil
}

func docText(g *ast.CommentGroup) string {
	var sb strings.Builder
	for _, c := range g.List {
		sb.WriteString(c.Text + "\n")
	}
	return sb.String()
}

// harnessFuncs lists the Check* functions of a harness package in source order.
func (p *Program) harnessFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, sp := range p.pkgs {
		if sp == nil {
			continue
		}
		for name, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "Check") && f.Signature.Params().Len() == 0 {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}
