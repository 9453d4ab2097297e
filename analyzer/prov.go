package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prov computes where the data of a value comes from: the roots are fields of external
// structures, calls of designated functions, parameters nobody passes, constants. It follows
// data through slices, local memory, fields of repository structures (field-based), static
// and interface calls. Hashes are kept as wrappers ("sha256(x)").
type prov struct {
	p        *Prog
	roots    map[string]bool
	prim     func(name string) bool // functions whose call is a root
	consts   bool                   // constants are roots, too
	seen     map[provKey]bool
	stopped  bool // something could not be followed
	fieldMap map[string][]ssa.Value

	stopAt     *ssa.Function // its parameters are roots
	fieldRoots bool          // fields of repository structures are roots
}

type pctx struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	up   *pctx
	n    int
}

type provKey struct {
	v    ssa.Value
	ctx  string
	wrap string
	idx  int
}

func (c *pctx) key() string {
	s := ""
	for x := c; x != nil; x = x.up {
		s += x.fn.String() + "@" + itoa(int(x.site.Pos())) + ";"
	}
	return s
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

// fieldStores maps "pkg.Type.Field" to the values stored into it anywhere in the repository.
func (p *Prog) fieldStores() map[string][]ssa.Value {
	if p.fieldStoreCache != nil {
		return p.fieldStoreCache
	}
	p.fillFieldOwner()
	out := map[string][]ssa.Value{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						out[k] = append(out[k], s.Val)
					}
				}
			}
		}
	}
	p.fieldStoreCache = out
	return out
}

func fieldKey(t types.Type, i int) string {
	// a type defined as another structure type shares its fields
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok && i < st.NumFields() {
			if o, ok := fieldOwner[st.Field(i)]; ok {
				return o + "." + st.Field(i).Name()
			}
		}
	}
	return tname(t) + "." + fieldName(t, i)
}

// fieldOwner: for fields shared by several types, the name of the first one (by name).
var fieldOwner = map[*types.Var]string{}

func (p *Prog) fillFieldOwner() {
	for _, t := range p.namedTypes {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			n := tname(t)
			if o, ok := fieldOwner[st.Field(i)]; !ok || strings.HasPrefix(n, "pkg/") && !strings.HasPrefix(o, "pkg/") {
				fieldOwner[st.Field(i)] = n
			}
		}
	}
}

func newProv(p *Prog, prim func(string) bool) *prov {
	return &prov{p: p, roots: map[string]bool{}, prim: prim, seen: map[provKey]bool{}, fieldMap: p.fieldStores()}
}

func (q *prov) list() []string {
	var out []string
	for r := range q.roots {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

func (q *prov) root(wrap, r string) {
	for _, w := range strings.Fields(wrap) {
		r = w + "(" + r + ")"
	}
	q.roots[r] = true
}

func isHashFn(fn *ssa.Function) bool {
	if pkgOf(fn) != "pkg/common" {
		return false
	}
	n := fn.Name()
	return strings.HasPrefix(n, "SHA256Hash") || strings.HasPrefix(n, "Hash") && fn.Signature.Recv() != nil
}

func isRepoType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

func (q *prov) visit(v ssa.Value, ctx *pctx, wrap string) { q.visitAt(v, 0, ctx, wrap) }

// visitAt visits result idx of a tuple, or the value itself.
func (q *prov) visitAt(v ssa.Value, idx int, ctx *pctx, wrap string) {
	if v == nil {
		return
	}
	k := provKey{v, ctx.key(), wrap, idx}
	if q.seen[k] {
		return
	}
	q.seen[k] = true
	if len(q.seen) > 60000 {
		q.stopped = true
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if q.consts && x.Value != nil {
			q.root(wrap, "const:"+x.Value.ExactString())
		}
	case *ssa.Parameter:
		q.content(v, ctx, wrap)
		q.param(x, ctx, wrap)
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						up := ctx
						for up != nil && up.fn != fn.Parent() {
							up = up.up
						}
						q.visit(mc.Bindings[i], up, wrap)
					}
				}
			}
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		q.content(v, ctx, wrap)
	case *ssa.Global:
		q.root(wrap, "global:"+x.Name())
	case *ssa.Field:
		q.field(x.X, x.Field, ctx, wrap)
	case *ssa.FieldAddr:
		q.content(v, ctx, wrap)
		q.field(x.X, x.Field, ctx, wrap)
	case *ssa.IndexAddr:
		q.visit(x.X, ctx, wrap)
	case *ssa.Index:
		q.visit(x.X, ctx, wrap)
	case *ssa.Lookup:
		q.visit(x.X, ctx, wrap)
	case *ssa.Slice:
		q.content(v, ctx, wrap)
		q.visit(x.X, ctx, wrap)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			if _, sl := x.Type().Underlying().(*types.Slice); sl {
				q.content(v, ctx, wrap)
			}
			q.visit(x.X, ctx, wrap)
			return
		}
		q.visit(x.X, ctx, wrap)
	case *ssa.Phi:
		if _, sl := x.Type().Underlying().(*types.Slice); sl {
			q.content(v, ctx, wrap)
		}
		for _, e := range x.Edges {
			q.visit(e, ctx, wrap)
		}
	case *ssa.Extract:
		q.visitAt(x.Tuple, x.Index, ctx, wrap)
	case *ssa.Call:
		q.call(x, idx, ctx, wrap)
	case *ssa.BinOp:
		q.visit(x.X, ctx, wrap)
		q.visit(x.Y, ctx, wrap)
	case *ssa.Convert:
		q.visit(x.X, ctx, wrap)
	case *ssa.ChangeType:
		q.visit(x.X, ctx, wrap)
	case *ssa.ChangeInterface:
		q.visit(x.X, ctx, wrap)
	case *ssa.MakeInterface:
		q.visit(x.X, ctx, wrap)
	case *ssa.SliceToArrayPointer:
		q.visit(x.X, ctx, wrap)
	case *ssa.TypeAssert:
		q.visit(x.X, ctx, wrap)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			q.visit(r.X, ctx, wrap)
		}
	}
}

func (q *prov) param(x *ssa.Parameter, ctx *pctx, wrap string) {
	fn := x.Parent()
	at := -1
	for i, pa := range fn.Params {
		if pa == x {
			at = i
		}
	}
	if fn == q.stopAt {
		q.root(wrap, "param:"+x.Name())
		return
	}
	for c := ctx; c != nil; c = c.up {
		if c.fn == fn {
			q.visit(argAt(c.site, at), c.up, wrap)
			return
		}
	}
	cs := q.p.callers(fn)
	if len(cs) == 0 {
		q.root(wrap, "param:"+fname(fn)+"."+x.Name())
		return
	}
	for _, c := range cs {
		if isTestSupport(pkgOf(c.Parent())) {
			continue
		}
		a := argAt(c, at)
		if a == nil {
			q.root(wrap, "param:"+fname(fn)+"."+x.Name())
			continue
		}
		q.visit(a, nil, wrap)
	}
}

// argAt is the value passed for parameter i (receiver first).
func argAt(c ssa.CallInstruction, i int) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		if i == 0 {
			return com.Value
		}
		i--
	}
	if i < 0 || i >= len(com.Args) {
		return nil
	}
	return com.Args[i]
}

func (q *prov) field(base ssa.Value, i int, ctx *pctx, wrap string) {
	if !isRepoType(base.Type()) {
		if _, ok := deref(base.Type()).(*types.Named); ok {
			k := fieldKey(base.Type(), i)
			k = k[strings.LastIndex(k, "/")+1:]
			q.root(wrap, k)
			return
		}
	}
	k := fieldKey(base.Type(), i)
	if q.fieldRoots {
		q.root(wrap, "field:"+k)
		return
	}
	vs := q.fieldMap[k]
	if len(vs) == 0 {
		q.root(wrap, "field:"+k)
		return
	}
	for _, v := range vs {
		q.visit(v, nil, wrap)
	}
}

func (q *prov) call(x *ssa.Call, idx int, ctx *pctx, wrap string) {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range x.Call.Args {
				q.visit(a, ctx, wrap)
			}
			q.content(x, ctx, wrap)
		case "String", "StringData", "SliceData":
			q.visit(x.Call.Args[0], ctx, wrap)
		case "min", "max":
			for _, a := range x.Call.Args {
				q.visit(a, ctx, wrap)
			}
		}
		return
	}
	n := calleeName(x.Common())
	if q.prim(n) {
		q.root(wrap, "call:"+lastName(n))
		return
	}
	g := x.Common().StaticCallee()
	if g != nil && isRepoFn(g) && isHashFn(g) {
		for i, a := range x.Call.Args {
			if i == 0 && g.Signature.Recv() != nil {
				continue
			}
			q.visit(a, ctx, strings.TrimSpace("sha256 "+wrap))
		}
		return
	}
	if g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
		if ctx != nil && ctx.n > 10 {
			q.stopped = true
			return
		}
		for c := ctx; c != nil; c = c.up {
			if c.fn == g {
				return // recursion: the other returns cover it
			}
		}
		in := &pctx{fn: g, site: x, up: ctx, n: 1}
		if ctx != nil {
			in.n = ctx.n + 1
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				q.visit(r.Results[idx], in, wrap)
			}
		}
		return
	}
	if x.Common().IsInvoke() && isRepoType(x.Call.Value.Type()) {
		q.root(wrap, "call:"+lastName(n))
		return
	}
	if g == nil && !x.Common().IsInvoke() {
		// a function value: what it may be is known when it is a local closure or an argument
		fns := q.targets(x.Call.Value, ctx)
		if len(fns) == 0 {
			q.root(wrap, "dyn:"+n)
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
					q.visit(r.Results[idx], &pctx{fn: f, site: x, up: ctx, n: 1}, wrap)
				}
			}
		}
		return
	}
	// outside the repository: made of the arguments
	if x.Common().IsInvoke() {
		q.visit(x.Call.Value, ctx, wrap)
	}
	if len(x.Call.Args) == 0 && !x.Common().IsInvoke() {
		q.root(wrap, "call:"+n)
	}
	for _, a := range x.Call.Args {
		q.visit(a, ctx, wrap)
	}
}

// closureTargets: the functions a local function variable can hold.
func closureTargets(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range x.Edges {
				f(e)
			}
		case *ssa.ChangeType:
			f(x.X)
		case *ssa.UnOp:
			f(x.X)
		case *ssa.FreeVar:
			f(boundTo(x))
		case *ssa.Alloc:
			for _, s := range cellStores(x) {
				f(s)
			}
		}
	}
	f(v)
	return out
}

// boundTo is the variable of the enclosing function that a free variable stands for.
func boundTo(x *ssa.FreeVar) ssa.Value {
	fn := x.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for i, fv := range fn.FreeVars {
		if fv != x {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// cellUses are the instructions that use a variable, in the function and its closures.
func cellUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if mc, ok := u.(*ssa.MakeClosure); ok {
				for i, b := range mc.Bindings {
					if b == v {
						f(mc.Fn.(*ssa.Function).FreeVars[i])
					}
				}
				continue
			}
			out = append(out, u)
		}
	}
	f(v)
	return out
}

func cellStores(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, u := range cellUses(a) {
		if s, ok := u.(*ssa.Store); ok {
			if _, isFV := s.Addr.(*ssa.FreeVar); isFV || s.Addr == a {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

// content visits everything written into the memory v points to (or holds), by stores
// through it and its aliases in the function, its closures and static callees.
func (q *prov) content(v ssa.Value, ctx *pctx, wrap string) {
	seen := map[ssa.Value]bool{}
	var fwd func(v ssa.Value, c *pctx, depth int)
	fwd = func(v ssa.Value, c *pctx, depth int) {
		if v == nil || seen[v] || depth > 6 {
			return
		}
		seen[v] = true
		for _, u := range cellUses(v) {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Val != v {
					q.visit(y.Val, c, wrap)
				} else if al, ok := y.Addr.(*ssa.Alloc); ok && isSliceLike(v.Type()) {
					fwd(al, c, depth) // loads of the cell alias the slice
				}
			case *ssa.MapUpdate:
				if y.Map == v {
					q.visit(y.Value, c, wrap)
				}
			case *ssa.Send:
				if y.Chan == v {
					q.visit(y.X, c, wrap)
				}
			case *ssa.IndexAddr:
				if y.X == v {
					fwd(y, c, depth)
				}
			case *ssa.FieldAddr:
				fwd(y, c, depth)
			case *ssa.Slice:
				if y.X == v {
					fwd(y, c, depth)
				}
			case *ssa.Phi:
				if isSliceLike(y.Type()) {
					fwd(y, c, depth)
				}
			case *ssa.UnOp:
				if y.Op == token.MUL && isSliceLike(y.Type()) {
					fwd(y, c, depth)
				}
			case *ssa.Call:
				com := y.Common()
				if b, ok := com.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" && com.Args[0] == v {
						q.visit(com.Args[1], c, wrap)
					}
					continue
				}
				g := com.StaticCallee()
				if g == nil {
					continue
				}
				if !isRepoFn(g) || len(g.Blocks) == 0 {
					// an external function that fills its argument
					if isOutParam(calleeName(com)) {
						for i, a := range com.Args {
							if a == v && i == 0 || g.Signature.Recv() != nil && i == 1 && a == v {
								for _, o := range com.Args {
									if o != v {
										q.visit(o, c, wrap)
									}
								}
							}
						}
					}
					continue
				}
				for i, a := range com.Args {
					if a == v && i < len(g.Params) && pointsTo(v.Type()) {
						if c != nil && c.n > 8 {
							continue
						}
						n := 1
						if c != nil {
							n = c.n + 1
						}
						fwd(g.Params[i], &pctx{fn: g, site: y, up: c, n: n}, depth+1)
					}
				}
			}
		}
	}
	fwd(v, ctx, 0)
}

func isOutParam(n string) bool {
	switch lastName(n) {
	case "Decode", "Encode", "Unmarshal", "Read", "ReadFull", "Scan", "PutUint64", "PutUint32":
		return true
	}
	return false
}

func isSliceLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func pointsTo(t types.Type) bool { return isSliceLike(t) }

// targets: the functions a called function value can be.
func (q *prov) targets(v ssa.Value, ctx *pctx) []*ssa.Function {
	if pa, ok := v.(*ssa.Parameter); ok {
		fn := pa.Parent()
		for i, x := range fn.Params {
			if x != pa {
				continue
			}
			for c := ctx; c != nil; c = c.up {
				if c.fn == fn {
					if a := argAt(c.site, i); a != nil {
						return q.targets(a, c.up)
					}
				}
			}
			var out []*ssa.Function
			for _, c := range q.p.callers(fn) {
				if a := argAt(c, i); a != nil {
					out = append(out, closureTargets(a)...)
				}
			}
			return out
		}
	}
	return closureTargets(v)
}
