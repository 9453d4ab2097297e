package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/netsec-ethz/fpki"

// Prog is the resolved program under analysis: type-checked syntax and SSA of every package
// of the repository, built from source on every run.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by short path ("pkg/db")
	SSA   *ssa.Program
	Funcs []*ssa.Function // repository functions with bodies, incl. closures and instances
	byObj map[*types.Func][]*ssa.Function

	fieldStoreCache map[string][]ssa.Value
	valueUse        map[*ssa.Function]bool
	soleCache       map[*ssa.Function]bool
	callersCache    map[*ssa.Function][]ssa.CallInstruction
	implCache       map[string][]*ssa.Function
	addrTaken       map[string][]*ssa.Function
	namedTypes      []types.Type
}

func short(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func loadProg(repo string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: fset,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.IllTyped {
			errs = append(errs, p.PkgPath+" is ill-typed")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Prog{Repo: repo, Fset: fset, Pkgs: map[string]*packages.Package{}, SSA: prog,
		byObj: map[*types.Func][]*ssa.Function{}}
	for _, p := range ps {
		pr.Pkgs[short(p.PkgPath)] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || !isRepoFn(fn) {
			continue
		}
		pr.Funcs = append(pr.Funcs, fn)
		if o := fnObj(fn); o != nil {
			pr.byObj[o] = append(pr.byObj[o], fn)
		}
	}
	sort.Slice(pr.Funcs, func(i, j int) bool {
		a, b := pr.Funcs[i], pr.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	if len(pr.Funcs) < 500 {
		return nil, fmt.Errorf("only %d functions loaded: the repository was not analysed", len(pr.Funcs))
	}
	for _, p := range ps {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				pr.namedTypes = append(pr.namedTypes, tn.Type())
			}
		}
	}
	return pr, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func isRepoFn(fn *ssa.Function) bool { return isRepoPkg(fnPkg(fn)) }

// fnObj is the declared function object (the generic one for instances), or nil for closures.
func fnObj(fn *ssa.Function) *types.Func {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.Origin()
	}
	return nil
}

// fname is the canonical name: "pkg/db.Foo", "pkg/db/mysql.(*mysqlDB).Bar", "os.Open",
// closures: parent + "$n".
func fname(fn *ssa.Function) string {
	if o := fnObj(fn); o != nil {
		return oname(o)
	}
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fname(fn.Parent()) + n
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

func oname(o *types.Func) string {
	pk := ""
	if o.Pkg() != nil {
		pk = short(o.Pkg().Path())
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		tn := types.TypeString(t, func(*types.Package) string { return "" })
		if i := strings.Index(tn, "["); i >= 0 {
			tn = tn[:i]
		}
		if star != "" {
			return pk + ".(*" + tn + ")." + o.Name()
		}
		return pk + "." + tn + "." + o.Name()
	}
	return pk + "." + o.Name()
}

// topFn is the outermost enclosing declared function.
func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) file(ps token.Pos) string {
	s := p.pos(ps)
	if i := strings.LastIndex(s, ":"); i > 0 {
		return s[:i]
	}
	return s
}

// fn finds a declared repository function by canonical name.
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Parent() == nil && fname(f) == name && f.Synthetic == "" {
			return f
		}
	}
	for _, f := range p.Funcs {
		if f.Parent() == nil && fname(f) == name {
			return f
		}
	}
	return nil
}

// namedType finds a repository type by package and name.
func (p *Prog) namedType(pkg, name string) *types.Named {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// isTestSupport reports whether the function belongs to test-support or demo code that is
// not part of the shipped system.
func isTestSupport(pk string) bool {
	return strings.HasPrefix(pk, "pkg/tests") || strings.HasPrefix(pk, "tests/") ||
		strings.HasPrefix(pk, "pkg/db/mock_db") || strings.HasPrefix(pk, "tools") ||
		strings.HasPrefix(pk, "cmd/bench-coalesce") || strings.HasPrefix(pk, "cmd/tracetest")
}

func pkgOf(fn *ssa.Function) string {
	p := fnPkg(fn)
	if p == nil {
		return ""
	}
	return short(p.Path())
}

// implementations of an interface method among repository types.
func (p *Prog) impls(m *types.Func) []*ssa.Function {
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	iface, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := m.FullName()
	if p.implCache == nil {
		p.implCache = map[string][]*ssa.Function{}
	}
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, t := range p.namedTypes {
		if types.IsInterface(t) {
			continue
		}
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			continue
		}
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(tt, iface) {
				continue
			}
			sel := p.SSA.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := p.SSA.MethodValue(sel); f != nil {
				if o := fnObj(f); o != nil {
					if fs := p.byObj[o]; len(fs) > 0 {
						f = fs[0]
					}
				}
				out = append(out, f)
			}
			break
		}
	}
	p.implCache[key] = out
	return out
}

// callees resolves the possible repository targets of a call (static, interface by
// implementation, closures syntactically created).
func (p *Prog) callees(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		return p.impls(com.Method)
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// callers of fn through static or interface dispatch.
func (p *Prog) callers(fn *ssa.Function) []ssa.CallInstruction {
	if p.callersCache == nil {
		p.callersCache = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, t := range p.callees(c) {
							p.callersCache[t] = append(p.callersCache[t], c)
						}
					}
				}
			}
		}
	}
	return p.callersCache[fn]
}

// sole: the unexported functions that a single function of their own package calls, at one
// place, and that nothing else refers to: a part of that function under a name of its own.
func (p *Prog) sole(fn *ssa.Function) bool {
	if p.soleCache == nil {
		p.soleCache = map[*ssa.Function]bool{}
		refs := map[*ssa.Function]int{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							if o := g.Origin(); o != nil {
								g = o
							}
							refs[g]++
						}
					}
				}
			}
		}
		for g, n := range refs {
			if n != 1 || g.Parent() != nil || g.Synthetic != "" || !isRepoFn(g) || ast.IsExported(g.Name()) {
				continue
			}
			cs := p.callers(g)
			if len(cs) != 1 || cs[0].Common().StaticCallee() == nil {
				continue
			}
			if _, ok := cs[0].(*ssa.Call); !ok {
				continue
			}
			if caller := topFn(cs[0].Parent()); caller != g && pkgOf(caller) == pkgOf(g) && caller.Synthetic == "" {
				p.soleCache[g] = true
			}
		}
	}
	return p.soleCache[fn]
}

// reaches computes the set of repository functions from which a call matching pred is
// reachable (including closures created inside a function).
func (p *Prog) reaches(pred func(ssa.CallInstruction, *ssa.Function) bool) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	edges := map[*ssa.Function][]*ssa.Function{} // callee -> callers
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if pred(c, f) {
						direct[f] = true
					}
					for _, t := range p.callees(c) {
						edges[t] = append(edges[t], f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					edges[mc.Fn.(*ssa.Function)] = append(edges[mc.Fn.(*ssa.Function)], f)
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok && isRepoFn(g) {
							edges[g] = append(edges[g], f)
						}
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for f := range direct {
		out[f] = true
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range edges[f] {
			if !out[c] {
				out[c] = true
				work = append(work, c)
			}
		}
	}
	return out
}

// calleeName is the canonical name of the called function: declared object, interface
// method or builtin; "" for dynamic calls.
func calleeName(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return oname(com.Method)
	}
	switch v := com.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return fname(f)
	}
	return ""
}

// syntaxOf returns the files of a package.
func (p *Prog) syntaxOf(pkg string) []*ast.File {
	if pk := p.Pkgs[pkg]; pk != nil {
		return pk.Syntax
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// addrTakenFn: the function is used as a value, not only called.
func (p *Prog) addrTakenFn(fn *ssa.Function) bool {
	if p.valueUse == nil {
		p.valueUse = map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var skip ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						skip = c.Common().Value
					}
					if m, ok := in.(*ssa.MakeClosure); ok {
						skip = m.Fn
						// a bound method: the wrapper refers to the method
						if w := m.Fn.(*ssa.Function); w.Synthetic != "" {
							if o := fnObj(w); o != nil {
								for _, t := range p.byObj[o] {
									p.valueUse[t] = true
								}
							}
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && *op != skip {
							p.valueUse[g] = true
						}
					}
				}
			}
		}
	}
	return p.valueUse[fn]
}
