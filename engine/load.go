package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// loadProgram type-checks the packages of /repo's working tree named by
// patterns, with the harness files laid over, and builds SSA for them.
func loadProgram(repo string, overlay map[string]string, patterns []string) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Fset:    token.NewFileSet(),
		// protobuf and the standard library without unsafe and assembly shortcuts
		BuildFlags: []string{"-tags=purego"},
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, append([]string{"std=reflect", "std=errors", "std=unicode/utf8", "std=runtime", "std=strconv", "std=time"}[0:0], append(patterns, "reflect", "errors", "unicode/utf8", "strconv", "time", vxPkg+"/models")...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	embeds := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR || gd.Doc == nil || len(gd.Specs) != 1 {
					continue
				}
				for _, c := range gd.Doc.List {
					if pat, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
						vs := gd.Specs[0].(*ast.ValueSpec)
						if len(vs.Names) == 1 && !strings.ContainsAny(pat, " *") {
							embeds[p.PkgPath+"."+vs.Names[0].Name] = filepath.Join(filepath.Dir(p.Fset.Position(gd.Pos()).Filename), pat)
						}
					}
				}
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[*ssa.Function]*Func{}, globalIdx: map[*ssa.Global]int{}, embeds: embeds}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.repoPrefix = []string{"github.com/mercari/grpc-federation", "example", "org/federation"}
	p.intrinsics = registerIntrinsics()
	p.redirect = registerRedirects()
	p.strT = p.rtype(types.Typ[types.String])
	// lazily built packages: method sets need the package built first
	for _, sp := range prog.AllPackages() {
		_ = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			p.rtErrT = p.rtype(o.Type())
		}
	}
	return p, nil
}

// harnessFiles scans dir for harness sources; the path below dir mirrors the
// path below the repository.
func harnessFiles(dir, repo string) (map[string]string, error) {
	r := map[string]string{}
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		d, f := filepath.Split(rel)
		r[filepath.Join(repo, d, "zz_vx_"+f)] = path
		return nil
	})
	return r, err
}

func vxFiles(vxdir, repo string) (map[string]string, error) {
	r := map[string]string{}
	err := filepath.Walk(vxdir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(vxdir, path)
		r[filepath.Join(repo, "vx", rel)] = path
		return nil
	})
	return r, err
}
