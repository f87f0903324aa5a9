package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath    = "vimagination.zapto.org/ics"
	parserPath = "vimagination.zapto.org/parser"
)

// Prog is the type-checked SSA form of the package under analysis.
type Prog struct {
	Dir    string
	Fset   *token.FileSet
	SSA    *ssa.Program
	Pkg    *ssa.Package
	Types  *types.Package
	Syntax *packages.Package
	All    map[*ssa.Function]bool

	info    sync.Map // *ssa.Function → *fnInfo
	base    map[string]Obj
	basef   map[string]*Fact
	initUnd []string
	typesBy map[string]types.Type
	once    sync.Once
}

// Load type-checks the package in dir using the module substitution of the
// official build, in a scratch module file that is removed afterwards.
func Load(dir string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "icscheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)

	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
	extra, _ := os.ReadFile("/opt/vp/parser.sum")
	sum = append(append(sum, '\n'), extra...)
	modFile := filepath.Join(tmp, "ics.mod")
	if err := os.WriteFile(modFile, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "ics.sum"), sum, 0o644); err != nil {
		return nil, err
	}

	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOENV", "GOROOT", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=")

	edit := exec.Command("go", "mod", "edit", "-replace", parserPath+"@v1.0.3=github.com/MJKWoolnough/parser@v1.0.3", modFile)
	edit.Env = env
	if out, err := edit.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go mod edit: %w: %s", err, out)
	}
	env[len(env)-1] = "GOFLAGS=-mod=mod -modfile=" + modFile

	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", dir, len(ps))
	}
	var errs []error
	for _, e := range ps[0].Errors {
		errs = append(errs, e)
	}
	if len(errs) > 0 {
		return nil, errors.Join(errs...)
	}

	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BuildSerially)
	if pkgs[0] == nil {
		return nil, errors.New("no SSA package")
	}
	prog.Build()

	p := &Prog{Dir: dir, Fset: prog.Fset, SSA: prog, Pkg: pkgs[0], Types: pkgs[0].Pkg, Syntax: ps[0]}
	p.All = map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inPkg(fn) {
			p.All[fn] = true
		}
	}
	return p, nil
}

// inPkg reports whether fn belongs to the package under analysis (including
// generic instances, closures and synthetic wrappers of its methods).
func (p *Prog) inPkg(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg == p.Pkg {
		return true
	}
	if o := fn.Origin(); o != nil && o.Pkg == p.Pkg {
		return true
	}
	if fn.Parent() != nil {
		return p.inPkg(fn.Parent())
	}
	return false
}

// Named returns the named types of the package sorted by name.
func (p *Prog) Named() []*types.Named {
	var ns []*types.Named
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
				ns = append(ns, nt)
			}
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Obj().Name() < ns[j].Obj().Name() })
	return ns
}

// Method returns the SSA function of method name of T or *T, or nil.
func (p *Prog) Method(T types.Type, name string) *ssa.Function {
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		ms := types.NewMethodSet(t)
		if s := ms.Lookup(p.Types, name); s != nil {
			return p.SSA.MethodValue(s)
		}
	}
	return nil
}

// DeclMethod returns the method declared directly on named type T (not
// promoted), or nil.
func (p *Prog) DeclMethod(T *types.Named, name string) *ssa.Function {
	for i := 0; i < T.NumMethods(); i++ {
		if m := T.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// timeType is the type of points in time.
func (p *Prog) timeType() types.Type {
	for _, pkg := range p.SSA.AllPackages() {
		if pkg.Pkg.Path() == "time" {
			return pkg.Type("Time").Type()
		}
	}
	return nil
}
