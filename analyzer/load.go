package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/metafates/bento"

var repoDir = func() string {
	if d := os.Getenv("BENTO_REPO"); d != "" {
		return d
	}

	return "/repo"
}()

// Prog is the type-checked program and its SSA form for one target system.
type Prog struct {
	goos     string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*packages.Package // by path
	spkgs    map[string]*ssa.Package
	all      []*ssa.Function // every function of the repository, bodies only
	allFn    map[*ssa.Function]bool
	initOnly map[*ssa.Function]bool
}

// load type-checks the repository (without its examples) for a target.
func load(goos string) (*Prog, error) {
	env := append(os.Environ(), "GOOS="+goos, "GOARCH=amd64", "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on")

	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: env,
	}

	roots, err := packages.Load(cfg, repoPatterns()...)
	if err != nil {
		return nil, err
	}

	p := &Prog{goos: goos, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}}

	var errs []string

	packages.Visit(roots, nil, func(pk *packages.Package) {
		p.pkgs[pk.PkgPath] = pk

		if isRepoPath(pk.PkgPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})

	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check for %s: %s", goos, strings.Join(errs, "; "))
	}

	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	prog.Build()

	p.prog = prog
	p.fset = prog.Fset

	for _, sp := range prog.AllPackages() {
		p.spkgs[sp.Pkg.Path()] = sp
	}

	p.allFn = ssautil.AllFunctions(prog)
	for f := range p.allFn {
		if p.inRepo(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			p.all = append(p.all, f)
		}
	}

	sort.Slice(p.all, func(i, j int) bool {
		if a, b := p.all[i].Pos(), p.all[j].Pos(); a != b {
			return a < b
		}

		return p.all[i].String() < p.all[j].String()
	})

	if len(p.all) < 100 {
		return nil, fmt.Errorf("only %d functions of the repository were found", len(p.all))
	}

	return p, nil
}

// repoPatterns lists the packages of the repository apart from the examples.
func repoPatterns() []string {
	dirs := map[string]bool{}

	filepath.Walk(repoDir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}

		rel, _ := filepath.Rel(repoDir, path)
		if info.IsDir() {
			base := filepath.Base(path)
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "examples" || base == "testdata") {
				return filepath.SkipDir
			}

			return nil
		}

		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			dirs["./"+filepath.Dir(rel)] = true
		}

		return nil
	})

	var out []string
	for d := range dirs {
		out = append(out, d)
	}

	sort.Strings(out)

	return out
}

func isRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// inRepo reports that a function, an instance or a closure is the repository's.
func (p *Prog) inRepo(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && isRepoPath(pk.Path())
}

func fnPkg(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}

		if g.Origin() != nil && g.Origin().Pkg != nil {
			return g.Origin().Pkg.Pkg
		}

		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}

	return nil
}

// full path of a package of the repository: "" is the root.
func pkgPath(short string) string {
	if short == "" || short == "bento" {
		return modPath
	}

	return modPath + "/" + short
}

type anchorError struct{ msg string }

func (e anchorError) Error() string { return e.msg }

func anchorf(format string, a ...any) { panic(anchorError{fmt.Sprintf(format, a...)}) }

func (p *Prog) pkg(short string) *ssa.Package {
	sp := p.spkgs[pkgPath(short)]
	if sp == nil {
		anchorf("package %s not found", pkgPath(short))
	}

	return sp
}

func (p *Prog) obj(pkg, name string) types.Object {
	o := p.pkg(pkg).Pkg.Scope().Lookup(name)
	if o == nil {
		anchorf("%s.%s not found", pkgPath(pkg), name)
	}

	return o
}

func (p *Prog) named(pkg, name string) *types.Named {
	n, ok := types.Unalias(p.obj(pkg, name).Type()).(*types.Named)
	if !ok {
		anchorf("%s.%s is not a defined type", pkgPath(pkg), name)
	}

	return n
}

// tryNamed does not fail.
func (p *Prog) tryNamed(pkg, name string) *types.Named {
	sp := p.spkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}

	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}

	n, _ := types.Unalias(o.Type()).(*types.Named)

	return n
}

// fn resolves "Name", "T.Method" or "*T.Method" of a package.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	f := p.tryFn(pkg, name)
	if f == nil {
		anchorf("function %s.%s not found", pkgPath(pkg), name)
	}

	return f
}

func (p *Prog) tryFn(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}

	t, m, ok := strings.Cut(name, ".")
	if !ok {
		return sp.Func(name)
	}

	n := p.tryNamed(pkg, strings.TrimPrefix(t, "*"))
	if n == nil {
		return nil
	}

	return p.methodOf(types.NewPointer(n), m)
}

// methodOf finds the declared method of a type or of its pointer.
func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	obj, _, _ := types.LookupFieldOrMethod(t, true, pkgOfType(t), name)

	fo, ok := obj.(*types.Func)
	if !ok {
		return nil
	}

	return p.prog.FuncValue(fo)
}

func pkgOfType(t types.Type) *types.Package {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}

	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}

	return nil
}

func (p *Prog) constVal(pkg, name string) constant.Value {
	c, ok := p.obj(pkg, name).(*types.Const)
	if !ok {
		anchorf("%s.%s is not a constant", pkgPath(pkg), name)
	}

	return c.Val()
}

// constsOf lists the declared constants of a type, in order of declaration.
func (p *Prog) constsOf(n *types.Named) []*types.Const {
	var out []*types.Const

	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			out = append(out, c)
		}
	}

	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })

	return out
}

// field index of a struct type by name.
func fieldIdx(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		anchorf("%s is not a struct", t)
	}

	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}

	anchorf("%s has no field %s", t, name)

	return -1
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}

	ps := p.fset.Position(pos)
	if r, err := filepath.Rel(repoDir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}

	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// fname is a short stable name of a function.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}

	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "bento.")

	return s
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}

	if in.Pos().IsValid() {
		return in.Pos()
	}

	if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() && r.Parent() == in.Parent() {
				return r.Pos()
			}
		}
	}

	for _, i := range in.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}

	return in.Parent().Pos()
}

// at names a place: function and line.
func (p *Prog) at(in ssa.Instruction) string {
	return fmt.Sprintf("%s in %s", p.pos(instrPos(in)), fname(in.Parent()))
}

// eachInstr visits the instructions of a function.
func eachInstr(f *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// funcDecls visits the syntax of the repository's packages.
func (p *Prog) repoPkgs() []*packages.Package {
	var out []*packages.Package
	for path, pk := range p.pkgs {
		if isRepoPath(path) {
			out = append(out, pk)
		}
	}

	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })

	return out
}

func inspectFiles(pk *packages.Package, do func(ast.Node) bool) {
	for _, f := range pk.Syntax {
		ast.Inspect(f, do)
	}
}
