package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked, SSA-form program under analysis: every package of
// the module in /repo (tests excluded), with the bodies of all its functions.
type Prog struct {
	Repo    string
	ModPath string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*packages.Package
	Funcs   []*ssa.Function // every source function of the module, incl. closures
	pos     map[ssa.Instruction]int
	purity  map[*ssa.Function]int
	globs   map[*ssa.Global]*globalInfo
	ffns    map[string][]*ssa.Function
	cg      *callGraph
	sums    map[string]*sumRes
	effs    map[*ssa.Function]map[string]bool
}

func loadProg(repo string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load packages: %w", err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", repo)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	pr := &Prog{Repo: repo, Fset: pkgs[0].Fset, Pkgs: pkgs, SSA: sp, ByPath: map[string]*packages.Package{}, pos: map[ssa.Instruction]int{}, purity: map[*ssa.Function]int{}}
	for _, p := range pkgs {
		pr.ByPath[p.PkgPath] = p
		if p.Module != nil && p.Module.Main {
			pr.ModPath = p.Module.Path
		}
	}
	if pr.ModPath == "" {
		return nil, fmt.Errorf("no main module in %s", repo)
	}
	sort.Slice(pr.Pkgs, func(i, j int) bool { return pr.Pkgs[i].PkgPath < pr.Pkgs[j].PkgPath })
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(sp) {
		if pr.inModule(fn) && fn.Blocks != nil && !seen[fn] {
			seen[fn] = true
			pr.Funcs = append(pr.Funcs, fn)
		}
	}
	// methods that are not reachable from a runtime type are still source
	// functions of the module
	for _, p := range pkgs {
		ssapkg := sp.Package(p.Types)
		if ssapkg == nil {
			continue
		}
		for _, m := range ssapkg.Members {
			if t, ok := m.(*ssa.Type); ok {
				nt, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					f := sp.FuncValue(nt.Method(i))
					pr.addFunc(f, seen)
				}
			}
			if f, ok := m.(*ssa.Function); ok {
				pr.addFunc(f, seen)
			}
		}
	}
	sort.Slice(pr.Funcs, func(i, j int) bool {
		a, b := pr.Funcs[i], pr.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range pr.Funcs {
		pr.indexFn(f)
	}
	return pr, nil
}

func (p *Prog) addFunc(f *ssa.Function, seen map[*ssa.Function]bool) {
	if f == nil || f.Blocks == nil || seen[f] {
		return
	}
	seen[f] = true
	p.Funcs = append(p.Funcs, f)
	for _, a := range f.AnonFuncs {
		p.addFunc(a, seen)
	}
}

func (p *Prog) indexFn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			p.pos[in] = i
		}
	}
}

// instrIdx is the index of in within its block.
func (p *Prog) instrIdx(in ssa.Instruction) int {
	if i, ok := p.pos[in]; ok {
		return i
	}
	p.indexFn(in.Parent())
	return p.pos[in]
}

// inModule says whether fn's code belongs to the module under analysis
// (synthetic wrappers and bound methods of module methods included).
func (p *Prog) inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pkg := fn.Package()
	if pkg == nil {
		if fn.Origin() != nil && fn.Origin() != fn {
			return p.inModule(fn.Origin())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return p.isModPath(o.Pkg().Path())
		}
		if fn.Parent() != nil {
			return p.inModule(fn.Parent())
		}
		return false
	}
	return p.isModPath(pkg.Pkg.Path())
}

func (p *Prog) isModPath(s string) bool {
	return s == p.ModPath || strings.HasPrefix(s, p.ModPath+"/")
}

// pkg returns the package with the given path relative to the module root.
func (p *Prog) pkg(rel string) *packages.Package {
	if rel == "" {
		return p.ByPath[p.ModPath]
	}
	return p.ByPath[p.ModPath+"/"+rel]
}

// lookup resolves "pkgrel:Name" or "pkgrel:Type.Method" to a function.
func (p *Prog) fn(pkgrel, name string) *ssa.Function {
	pk := p.pkg(pkgrel)
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		obj := pk.Types.Scope().Lookup(name[:i])
		tn, ok := obj.(*types.TypeName)
		if !ok {
			return nil
		}
		m, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pk.Types, name[i+1:])
		f, ok := m.(*types.Func)
		if !ok {
			return nil
		}
		return p.SSA.FuncValue(f)
	}
	f, ok := pk.Types.Scope().Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return p.SSA.FuncValue(f)
}

func (p *Prog) typ(pkgrel, name string) types.Type {
	pk := p.pkg(pkgrel)
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// instrPos finds a source position for an instruction, falling back to its
// operands and its function.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.posStr(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, isFn := (*op).(*ssa.Function); isFn {
				continue
			}
			return p.posStr((*op).Pos())
		}
	}
	if b := in.Block(); b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return p.posStr(o.Pos())
			}
		}
	}
	return p.posStr(in.Parent().Pos())
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/mazzegi/xpdf/", "")
	s = strings.ReplaceAll(s, "github.com/mazzegi/xpdf.", "xpdf.")
	return s
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

// fieldFns lists the functions a field of function type can hold, if every
// store to the field in the program is of a function without captured
// variables.
func (p *Prog) fieldFns(st types.Type, idx int) []*ssa.Function {
	key := typeKey(st) + "#" + fmt.Sprint(idx)
	if p.ffns == nil {
		p.ffns = map[string][]*ssa.Function{}
		bad := map[string]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, ok := deref(fa.Type()).Underlying().(*types.Signature); !ok {
						continue
					}
					k := typeKey(deref(fa.X.Type())) + "#" + fmt.Sprint(fa.Field)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							v := r.Val
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
							}
							fn, ok := v.(*ssa.Function)
							if mc, isC := v.(*ssa.MakeClosure); isC && len(mc.Bindings) == 0 {
								fn, ok = mc.Fn.(*ssa.Function)
							}
							if !ok || r.Addr != fa {
								bad[k] = true
								continue
							}
							dup := false
							for _, o := range p.ffns[k] {
								dup = dup || o == fn
							}
							if !dup {
								p.ffns[k] = append(p.ffns[k], fn)
							}
						default:
							bad[k] = true
						}
					}
				}
			}
		}
		for k := range bad {
			delete(p.ffns, k)
		}
	}
	return p.ffns[key]
}
