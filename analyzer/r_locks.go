package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Level: "proof",
		Explain: "context-sensitive lock-set analysis over every function and goroutine of the repository: guarded fields, release on every path, no re-acquisition, acyclic acquisition order, no mixing of atomic and plain access",
		Assumptions: []string{
			"a goroutine started while a lock is held is awaited by the holder (decided for the reply channels by C15)",
			"two different access paths to a value of the same type denote different values only when both start at different parameters",
		},
		Trusted: []string{"go/types and golang.org/x/tools/go/ssa (type checking and lowering)", "the lock-set interpreter of /verif/analyzer/r_locks.go"},
		Run:     runLocks})
}

// lval is what the analysis knows about a value: the access path that leads to it, from the
// parameters of the outermost function analysed, and for functions, which.
type lval struct {
	t    string
	fn   *ssa.Function
	bind []lval
}

func (v lval) key() string {
	if v.fn == nil {
		return v.t
	}
	s := fmt.Sprintf("%p(", v.fn)
	for _, b := range v.bind {
		s += b.key() + ","
	}
	return s + ")"
}

var lunknown = lval{t: "?"}

type lock struct {
	id   string // type and field, global, or function and local
	term string // access path
	w    bool   // exclusive
	inh  bool   // held by the function that started this goroutine
}

func (l lock) String() string {
	m := "R"
	if l.w {
		m = "W"
	}
	if l.inh {
		m += "i"
	}
	return l.id + "[" + l.term + "]" + m
}

type lact struct { // a deferred action
	in   ssa.CallInstruction
	args []lval
	fn   lval
}

type lstate struct {
	held []lock
	def  []lact
	try  map[ssa.Value]bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{held: append([]lock{}, s.held...), def: append([]lact{}, s.def...), try: map[ssa.Value]bool{}}
	for k, v := range s.try {
		n.try[k] = v
	}
	return n
}

func heldKey(h []lock) string {
	var ss []string
	for _, l := range h {
		ss = append(ss, l.String())
	}
	return strings.Join(ss, ";")
}

func (s *lstate) key() string {
	k := heldKey(s.held) + "|"
	for _, d := range s.def {
		k += fmt.Sprintf("%p,", d.in)
	}
	var ts []string
	for v, b := range s.try {
		ts = append(ts, fmt.Sprintf("%s=%v", v.Name(), b))
	}
	sort.Strings(ts)
	return k + "|" + strings.Join(ts, ",")
}

type lframe struct {
	fn   *ssa.Function
	args []lval
	bind []lval
	vals map[ssa.Value]lval
}

type access struct {
	in    ssa.Instruction
	fn    *ssa.Function
	field string // owner type or package, and name
	term  string // access path of the struct
	write bool
	held  []lock
	atom  bool
}

type edge struct{ from, to string }

type lockan struct {
	p        *Prog
	r        *Rep
	memo     map[string][][]lock
	active   map[string]bool
	acc      map[string]*access
	edges    map[edge]token.Pos
	analysed map[*ssa.Function]bool
	acq      map[ssa.Instruction]string
	ctxs     int
	depth    int
	touch    map[*ssa.Function]bool
	rel      map[types.Type]bool
}

func runLocks(p *Prog, r *Rep, thorough bool) {
	a := &lockan{p: p, r: r, memo: map[string][][]lock{}, active: map[string]bool{}, acc: map[string]*access{},
		edges: map[edge]token.Pos{}, analysed: map[*ssa.Function]bool{}, acq: map[ssa.Instruction]string{}, rel: map[types.Type]bool{}}
	touch := a.touching()
	a.touch = touch
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if !touch[f] || f.Parent() != nil || isTestSupport(pkgOf(f)) || f.Synthetic != "" {
			continue
		}
		if len(p.callers(f)) == 0 || f.Object() != nil && f.Object().Exported() || a.referenced(f) {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		a.root(f)
	}
	// whatever no root led to, on its own
	for _, f := range p.Funcs {
		if touch[f] && !a.analysed[f] && !isTestSupport(pkgOf(f)) && f.Synthetic == "" {
			a.root(f)
		}
	}
	a.report()
	r.Note("%d functions touch locks or values guarded by them; %d roots, %d contexts", len(touch), len(roots), a.ctxs)
	for f := range a.analysed {
		r.funcs[fname(f)] = true
	}
	r.paths += a.ctxs
}

func (a *lockan) referenced(f *ssa.Function) bool {
	refs := f.Referrers()
	if refs == nil {
		// functions have no referrers in go/ssa: look for them as operands
		return a.p.addrTakenFn(f)
	}
	return len(*refs) > 0
}

// touching: the functions that may acquire a lock or access a struct or package that has one.
func (a *lockan) touching() map[*ssa.Function]bool {
	t := map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		if a.direct(f) {
			t[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range a.p.Funcs {
			if t[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range a.p.callees(c) {
							hit = hit || t[g]
						}
					}
					if m, ok := in.(*ssa.MakeClosure); ok {
						hit = hit || t[m.Fn.(*ssa.Function)]
					}
				}
			}
			if hit {
				t[f] = true
				again = true
			}
		}
	}
	return t
}

func (a *lockan) direct(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if _, _, ok := lockOp(x.Common()); ok {
					return true
				}
				if strings.HasPrefix(calleeName(x.Common()), "sync/atomic.") {
					return true
				}
			case *ssa.FieldAddr:
				if hasMutex(x.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// lockOp: the operation on a mutex a call is, and the mutex.
func lockOp(com *ssa.CallCommon) (string, ssa.Value, bool) {
	f := com.StaticCallee()
	if f == nil || len(com.Args) == 0 || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
		return "", nil, false
	}
	switch fname(f) {
	case "sync.(*Mutex).Lock", "sync.(*Mutex).Unlock", "sync.(*Mutex).TryLock",
		"sync.(*RWMutex).Lock", "sync.(*RWMutex).Unlock", "sync.(*RWMutex).RLock", "sync.(*RWMutex).RUnlock",
		"sync.(*RWMutex).TryLock", "sync.(*RWMutex).TryRLock":
		return f.Name(), com.Args[0], true
	}
	return "", nil, false
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// hasMutex: a (pointer to a) struct of the repository with a mutex among its fields.
func hasMutex(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isMutex(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (a *lockan) root(f *ssa.Function) {
	args := make([]lval, len(f.Params))
	for i, p := range f.Params {
		args[i] = lval{t: fmt.Sprintf("p%d", i)}
		_ = p
	}
	bind := make([]lval, len(f.FreeVars))
	for i := range bind {
		bind[i] = lval{t: "sh:" + topFn(f).Name() + "." + f.FreeVars[i].Name()}
	}
	exits := a.run(f, args, bind, nil)
	a.rootExits(f, exits)
}

func (a *lockan) rootExits(f *ssa.Function, exits [][]lock) {
	for _, h := range exits {
		for _, l := range h {
			if !l.inh {
				k := "released:" + l.id + "@" + fname(f)
				a.r.Bad(k, a.p.pos(f.Pos()), fmt.Sprintf("%s is held when %s returns on some path", l.id, fname(f)), heldKey(h))
			}
		}
	}
}

const lmaxDepth = 60

// run analyses fn with the given locks held and returns the lock sets it may return with.
func (a *lockan) run(fn *ssa.Function, args, bind []lval, held []lock) [][]lock {
	if len(fn.Blocks) == 0 {
		return [][]lock{held}
	}
	if !a.touch[fn] {
		return [][]lock{held}
	}
	args, bind = append([]lval{}, args...), append([]lval{}, bind...)
	for i := range args {
		if i < len(fn.Params) {
			args[i] = a.norm(args[i], fn.Params[i].Type())
		}
	}
	for i := range bind {
		bind[i] = a.norm(bind[i], fn.FreeVars[i].Type())
	}
	key := fmt.Sprintf("%p|", fn)
	for _, v := range args {
		key += v.key() + ","
	}
	key += "|"
	for _, v := range bind {
		key += v.key() + ","
	}
	key += "|" + heldKey(held)
	if r, ok := a.memo[key]; ok {
		return r
	}
	if a.active[key] || a.depth > lmaxDepth || a.ctxs > 200000 {
		return [][]lock{held} // a recursive call returns with the locks it was made with
	}
	a.active[key] = true
	a.depth++
	a.ctxs++
	a.analysed[fn] = true
	fr := &lframe{fn: fn, args: args, bind: bind, vals: map[ssa.Value]lval{}}
	out := map[string][]lock{}
	seen := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		st   *lstate
	}
	work := []item{{fn.Blocks[0], nil, &lstate{held: append([]lock{}, held...), try: map[ssa.Value]bool{}}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		sts := []*lstate{it.st.clone()}
		for _, in := range it.b.Instrs {
			var next []*lstate
			switch x := in.(type) {
			case *ssa.If:
				for _, st := range sts {
					c, neg := ssa.Value(x.Cond), false
					for {
						u, ok := c.(*ssa.UnOp)
						if !ok || u.Op != token.NOT {
							break
						}
						c, neg = u.X, !neg
					}
					tv, known := st.try[c]
					for i, s := range it.b.Succs {
						if known && (tv != neg) != (i == 0) {
							continue
						}
						work = append(work, item{s, it.b, st})
					}
				}
			case *ssa.Jump:
				for _, st := range sts {
					work = append(work, item{it.b.Succs[0], it.b, st})
				}
			case *ssa.Return:
				for _, st := range sts {
					out[heldKey(st.held)] = st.held
				}
			case *ssa.Panic:
			default:
				for _, st := range sts {
					next = append(next, a.step(fr, in, st)...)
				}
				sts = dedupL(next)
			}
		}
	}
	a.depth--
	delete(a.active, key)
	var res [][]lock
	for _, k := range sortedKeys(out) {
		res = append(res, out[k])
	}
	if len(res) == 0 {
		res = nil // never returns
	}
	a.memo[key] = res
	return res
}

func dedupL(sts []*lstate) []*lstate {
	if len(sts) < 2 {
		return sts
	}
	seen := map[string]bool{}
	var out []*lstate
	for _, s := range sts {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// norm drops what cannot matter: access paths of values that lead to no mutex, and functions
// that touch none.
func (a *lockan) norm(v lval, t types.Type) lval {
	if v.fn != nil {
		if !a.touch[v.fn] {
			return lunknown
		}
		v.t = strings.Repeat("&", strings.Count(v.t, "&")) + "?"
		if !strings.HasPrefix(v.t, "&") {
			v.t = "?"
		}
		return v
	}
	if !a.leads(t, 0) {
		return lunknown
	}
	return a.short(v)
}

// leads: a mutex can be reached from a value of the type.
func (a *lockan) leads(t types.Type, d int) bool {
	if r, ok := a.rel[t]; ok || d > 6 {
		return r
	}
	a.rel[t] = false
	r := false
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if isMutex(x) {
			r = true
		} else if x.Obj().Pkg() != nil && isRepoPkg(x.Obj().Pkg()) {
			r = a.leads(x.Underlying(), d+1)
		}
	case *types.Pointer:
		r = a.leads(x.Elem(), d+1)
	case *types.Slice:
		r = a.leads(x.Elem(), d+1)
	case *types.Array:
		r = a.leads(x.Elem(), d+1)
	case *types.Map:
		r = a.leads(x.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if a.leads(x.Field(i).Type(), d+1) {
				r = true
			}
		}
	case *types.Signature:
		r = true
	case *types.Interface:
		r = x.NumMethods() > 0
	}
	a.rel[t] = r
	return r
}

func (a *lockan) short(v lval) lval {
	if strings.Count(v.t, ".") > 5 {
		v.t = "?"
	}
	return v
}

// val: the access path of a value.
func (a *lockan) val(fr *lframe, v ssa.Value) lval {
	if r, ok := fr.vals[v]; ok {
		return r
	}
	fr.vals[v] = lunknown // cycles
	r := a.val1(fr, v)
	fr.vals[v] = r
	return r
}

func (a *lockan) val1(fr *lframe, v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
	case *ssa.Global:
		return lval{t: "g:" + short(x.Pkg.Pkg.Path()) + "." + x.Name()}
	case *ssa.Alloc:
		// a cell written once holds that value; other cells are objects of this function
		if ss := storesTo(x); len(ss) == 1 && !isStruct(x.Type()) {
			u := a.val(fr, ss[0])
			if u.fn != nil {
				return lval{t: "&", fn: u.fn, bind: u.bind}
			}
			return lval{t: "&" + u.t}
		}
		return lval{t: "new:" + topFn(fr.fn).Name() + "." + x.Comment + ordinal(fr.fn, x)}
	case *ssa.FieldAddr:
		b := a.val(fr, x.X)
		if b.t == "?" {
			return b
		}
		return lval{t: b.t + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.Field:
		b := a.val(fr, x.X)
		if b.t == "?" {
			return b
		}
		return lval{t: b.t + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			b := a.val(fr, x.X)
			if strings.HasPrefix(b.t, "&") {
				b.t = b.t[1:]
				return b
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && strings.HasPrefix(b.t, "sh:") {
				_ = fv
			}
			return lval{t: b.t}
		}
	case *ssa.Phi:
		var r *lval
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			ev := a.val(fr, e)
			if r == nil {
				r = &ev
			} else if r.key() != ev.key() {
				return lunknown
			}
		}
		if r != nil {
			return *r
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var b []lval
		for _, y := range x.Bindings {
			b = append(b, a.norm(a.val(fr, y), y.Type()))
		}
		if !a.touch[f] {
			return lunknown
		}
		return lval{t: "?", fn: f, bind: b}
	case *ssa.Function:
		if !a.touch[x] {
			return lunknown
		}
		return lval{t: "?", fn: x}
	case *ssa.ChangeType:
		return a.val(fr, x.X)
	case *ssa.MakeInterface:
		return a.val(fr, x.X)
	case *ssa.ChangeInterface:
		return a.val(fr, x.X)
	case *ssa.TypeAssert:
		return a.val(fr, x.X)
	case *ssa.IndexAddr:
		b := a.val(fr, x.X)
		return lval{t: elemTerm(b.t)}
	case *ssa.Index:
		return lval{t: elemTerm(a.val(fr, x.X).t)}
	case *ssa.Lookup:
		return lval{t: elemTerm(a.val(fr, x.X).t)}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return a.val(fr, ta.X)
		}
	case *ssa.Call:
		if _, ok := x.Type().(*types.Pointer); ok {
			return lval{t: "call:" + fr.fn.Name() + ordinal(fr.fn, x)}
		}
	}
	return lunknown
}

// ordinal tells apart the values of a function that have the same name, in a way that does not
// depend on their position in the file.
func ordinal(f *ssa.Function, v ssa.Value) string {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			w, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if w == v {
				if n == 0 {
					return ""
				}
				return "'" + itoa(n)
			}
			if al, ok := v.(*ssa.Alloc); ok {
				if bl, ok := w.(*ssa.Alloc); ok && al.Comment == bl.Comment {
					n++
				}
			} else if _, ok := w.(*ssa.Call); ok {
				n++
			}
		}
	}
	for i, al := range f.Locals {
		if al == v {
			return "'l" + itoa(i)
		}
	}
	return "'?"
}

func elemTerm(t string) string {
	if t == "?" || strings.HasSuffix(t, "[]") {
		return t
	}
	return t + "[]"
}

func isStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_, ok = p.Elem().Underlying().(*types.Struct)
		return ok
	}
	return false
}

// storesTo: the values stored to a local cell, also by the closures that captured it.
func storesTo(al *ssa.Alloc) []ssa.Value { return cellStores(al) }

// lockOf: the identity of the mutex at an address.
func (a *lockan) lockOf(fr *lframe, v ssa.Value) lock {
	t := a.val(fr, v).t
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return lock{id: typeName(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field), term: t}
	case *ssa.Global:
		return lock{id: t, term: t}
	case *ssa.UnOp: // a pointer to a mutex
		if f, ok := x.X.(*ssa.FieldAddr); ok {
			return lock{id: typeName(f.X.Type()) + "." + fieldName(f.X.Type(), f.Field), term: t}
		}
	}
	return lock{id: t, term: t}
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return "struct"
}

func sameLock(a, b lock) bool {
	return a.id == b.id && (a.term == b.term || a.term == "?" || b.term == "?")
}

func (a *lockan) step(fr *lframe, in ssa.Instruction, st *lstate) []*lstate {
	a.accesses(fr, in, st)
	switch x := in.(type) {
	case *ssa.Call:
		return a.call(fr, x, st, false)
	case *ssa.Defer:
		com := x.Common()
		d := lact{in: x}
		if !com.IsInvoke() {
			d.fn = a.val(fr, com.Value)
		}
		for _, y := range com.Args {
			d.args = append(d.args, a.val(fr, y))
		}
		st.def = append(st.def, d)
	case *ssa.RunDefers:
		sts := []*lstate{st}
		n := len(st.def)
		for i := n - 1; i >= 0; i-- {
			var next []*lstate
			for _, s := range sts {
				d := s.def[i]
				next = append(next, a.invoke(fr, d.in, d.fn, d.args, s)...)
			}
			sts = dedupL(next)
		}
		for _, s := range sts {
			s.def = nil
		}
		return sts
	case *ssa.Go:
		return a.goStmt(fr, x, st)
	case *ssa.MakeClosure:
		if a.escapes(x) {
			v := a.val(fr, x)
			if v.fn == nil {
				break
			}
			exits := a.run(v.fn, a.params(v.fn), shared(v.bind), nil)
			a.rootExits(v.fn, exits)
		}
	}
	return []*lstate{st}
}

func (a *lockan) params(f *ssa.Function) []lval {
	out := make([]lval, len(f.Params))
	for i := range out {
		out[i] = lval{t: fmt.Sprintf("p%d", i)}
	}
	return out
}

// shared: what a closure that runs later, or at the same time, sees of the objects of the
// function that created it.
func shared(b []lval) []lval {
	out := make([]lval, len(b))
	for i, v := range b {
		v.t = strings.Replace(v.t, "new:", "sh:", 1)
		v.bind = shared(v.bind)
		out[i] = v
	}
	return out
}

// escapes: the closure is kept somewhere, so that it may be called at any time.
func (a *lockan) escapes(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.DebugRef:
			_ = x
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == m && len(cellStores(al)) == 1 {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func (a *lockan) goStmt(fr *lframe, g *ssa.Go, st *lstate) []*lstate {
	com := g.Common()
	if com.IsInvoke() {
		return []*lstate{st}
	}
	v := a.val(fr, com.Value)
	if v.fn == nil || !isRepoFn(v.fn) {
		return []*lstate{st}
	}
	var inh []lock
	for _, l := range st.held {
		l.inh = true
		inh = append(inh, l)
	}
	var args []lval
	for _, y := range com.Args {
		args = append(args, a.val(fr, y))
	}
	exits := a.run(v.fn, shared(args), shared(v.bind), inh)
	for _, h := range exits {
		for _, l := range h {
			if !l.inh {
				a.r.Bad("released:"+l.id+"@"+fname(v.fn), a.p.pos(g.Pos()), fmt.Sprintf("%s is held when the goroutine %s ends on some path", l.id, fname(v.fn)), heldKey(h))
			}
		}
	}
	// a lock that the goroutine releases is its own from now on
	var kept []lock
	for i, l := range st.held {
		all := len(exits) > 0
		for _, h := range exits {
			has := false
			for _, m := range h {
				t := m
				t.inh = false
				if m.inh && t.id == l.id {
					has = true
				}
			}
			if has {
				all = false
			}
		}
		if all {
			continue
		}
		kept = append(kept, st.held[i])
	}
	st.held = kept
	return []*lstate{st}
}

func (a *lockan) call(fr *lframe, c *ssa.Call, st *lstate, _ bool) []*lstate {
	com := c.Common()
	var fn lval
	if !com.IsInvoke() {
		fn = a.val(fr, com.Value)
	}
	var args []lval
	for _, y := range com.Args {
		args = append(args, a.val(fr, y))
	}
	return a.invoke(fr, c, fn, args, st)
}

func (a *lockan) invoke(fr *lframe, in ssa.CallInstruction, fn lval, args []lval, st *lstate) []*lstate {
	com := in.Common()
	if op, m, ok := lockOp(com); ok {
		return a.lockStep(fr, in, op, a.lockOf(fr, m), st)
	}
	if com.IsInvoke() {
		ms := a.p.impls(com.Method)
		recv := a.val(fr, com.Value)
		var outs []*lstate
		for _, f := range ms {
			if isTestSupport(pkgOf(f)) || !isRepoFn(f) {
				continue
			}
			outs = append(outs, a.into(f, append([]lval{recv}, args...), nil, st)...)
		}
		if len(outs) > 0 {
			return dedupL(outs)
		}
		return a.external(args, st)
	}
	if fn.fn != nil && isRepoFn(fn.fn) && len(fn.fn.Blocks) > 0 {
		return a.into(fn.fn, append([]lval{}, args...), fn.bind, st)
	}
	return a.external(args, st)
}

// into: the states after a call of a repository function.
func (a *lockan) into(f *ssa.Function, args, bind []lval, st *lstate) []*lstate {
	exits := a.run(f, args, bind, st.held)
	var outs []*lstate
	for _, h := range exits {
		n := st.clone()
		n.held = append([]lock{}, h...)
		outs = append(outs, n)
	}
	return outs
}

// external: a function without source; it may call the functions passed to it.
func (a *lockan) external(args []lval, st *lstate) []*lstate {
	outs := []*lstate{st}
	for _, v := range args {
		if v.fn == nil || !isRepoFn(v.fn) {
			continue
		}
		outs = append(outs, a.into(v.fn, a.params(v.fn), v.bind, st.clone())...)
	}
	return dedupL(outs)
}

func (a *lockan) lockStep(fr *lframe, in ssa.CallInstruction, op string, l lock, st *lstate) []*lstate {
	pos := a.p.pos(in.Pos())
	at := l.id + "@" + fname(fr.fn)
	switch op {
	case "Lock", "RLock", "TryLock", "TryRLock":
		l.w = op == "Lock" || op == "TryLock"
		a.acq[in] = at
		a.r.Ob("once:"+at, pos, "the mutex is not acquired while it is held already")
		a.r.Ob("released:"+at, pos, "the mutex is released on every path to the end of the function or its callers")
		if op == "Lock" || op == "RLock" {
			for _, h := range st.held {
				if sameLock(h, l) {
					a.r.Bad("once:"+at, pos, fmt.Sprintf("%s acquires %s while it is held: the goroutine waits for itself", fname(fr.fn), l.id), heldKey(st.held))
					return nil
				}
				if h.id != l.id {
					e := edge{h.id, l.id}
					if _, ok := a.edges[e]; !ok {
						a.edges[e] = in.Pos()
					}
				}
			}
		}
		if strings.HasPrefix(op, "Try") {
			no := st.clone()
			if v, ok := in.(*ssa.Call); ok {
				st.try[v], no.try[v] = true, false
			}
			st.held = append(st.held, l)
			return []*lstate{st, no}
		}
		st.held = append(st.held, l)
	case "Unlock", "RUnlock":
		w := op == "Unlock"
		k := "held:" + at
		a.r.Ob(k, pos, "the mutex is held, in the same mode, where it is released")
		for i := len(st.held) - 1; i >= 0; i-- {
			if sameLock(st.held[i], l) || st.held[i].id == l.id && st.held[i].inh {
				if st.held[i].w != w {
					a.r.Bad(k, pos, fmt.Sprintf("%s releases %s with %s, but it was acquired in the other mode", fname(fr.fn), l.id, op), heldKey(st.held))
				}
				st.held = append(append([]lock{}, st.held[:i]...), st.held[i+1:]...)
				return []*lstate{st}
			}
		}
		a.r.Bad(k, pos, fmt.Sprintf("%s releases %s, which it does not hold on some path", fname(fr.fn), l.id), heldKey(st.held))
		return nil
	}
	return []*lstate{st}
}

// accesses records the reads and writes of fields of structs with a mutex, and of variables of
// packages with one.
func (a *lockan) accesses(fr *lframe, in ssa.Instruction, st *lstate) {
	if isTestSupport(pkgOf(fr.fn)) {
		return
	}
	add := func(addr ssa.Value, write, atom bool) {
		field, term := a.fieldOf(fr, addr)
		if field == "" {
			return
		}
		k := fmt.Sprintf("%p|%v|%v|%s|%s", in, write, atom, term, heldKey(st.held))
		if a.acc[k] == nil {
			a.acc[k] = &access{in: in, fn: fr.fn, field: field, term: term, write: write, held: append([]lock{}, st.held...), atom: atom}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		add(x.Addr, true, false)
	case *ssa.MapUpdate:
		add(loadedFrom(x.Map), true, false)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(x.X, false, false)
		}
	case *ssa.Lookup:
		add(loadedFrom(x.X), false, false)
	case *ssa.Range:
		add(loadedFrom(x.X), false, false)
	case ssa.CallInstruction:
		com := x.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				add(loadedFrom(com.Args[0]), true, false)
			}
			return
		}
		name := calleeName(com)
		for _, y := range com.Args {
			if strings.HasPrefix(name, "sync/atomic.") {
				add(y, false, true)
			}
		}
	}
}

// loadedFrom: the address that a map or slice was read from.
func loadedFrom(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return x.X
			}
			return nil
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// fieldOf: the field of a struct with a mutex, or the variable of a package with one, that an
// address lies in, and the access path of the struct.
func (a *lockan) fieldOf(fr *lframe, addr ssa.Value) (string, string) {
	for i := 0; i < 8 && addr != nil; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			ft := x.Type().(*types.Pointer).Elem()
			if hasMutex(x.X.Type()) && isRepoType(x.X.Type()) && !isMutex(ft) {
				return typeName(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field), a.val(fr, x.X).t
			}
			addr = x.X
		case *ssa.IndexAddr:
			if l := loadedFrom(x.X); l != nil {
				addr = l
			} else {
				addr = x.X
			}
		case *ssa.Global:
			if x.Pkg == nil || !isRepoPkg(x.Pkg.Pkg) || isMutex(x.Type().(*types.Pointer).Elem()) {
				return "", ""
			}
			return "g:" + short(x.Pkg.Pkg.Path()) + "." + x.Name(), "g:"
		default:
			return "", ""
		}
	}
	return "", ""
}

// guardsOf: the locks held at an access that may guard the field.
func guardsOf(x *access) []lock {
	owner := x.field[:strings.LastIndex(x.field, ".")]
	var out []lock
	for _, l := range x.held {
		if i := strings.LastIndex(l.id, "."); i < 0 || l.id[:i] != owner {
			continue
		}
		if x.term != "g:" {
			base := l.term
			if i := strings.LastIndex(base, "."); i >= 0 {
				base = base[:i]
			}
			if base != x.term && base != "?" && x.term != "?" && l.term != "?" && !l.inh {
				continue
			}
		}
		out = append(out, l)
	}
	return out
}

func (x *access) fresh() bool {
	if x.term == "g:" {
		n := topFn(x.fn).Name()
		return n == "init" || strings.HasPrefix(n, "init#")
	}
	return strings.HasPrefix(strings.TrimPrefix(x.term, "&"), "new:")
}

func (a *lockan) report() {
	byField := map[string][]*access{}
	for _, k := range sortedKeys(a.acc) {
		x := a.acc[k]
		byField[x.field] = append(byField[x.field], x)
	}
	guarded := 0
	for _, f := range sortedKeys(byField) {
		xs := byField[f]
		if lockProtocol[f] {
			continue
		}
		// atomics
		atom := false
		for _, x := range xs {
			atom = atom || x.atom
		}
		if atom {
			for _, x := range xs {
				k := "atomic:" + f + "@" + fname(x.fn)
				a.r.Ob(k, a.p.pos(x.in.Pos()), "the field is accessed with sync/atomic everywhere")
				if !x.atom && !x.fresh() {
					a.r.Bad(k, a.p.pos(x.in.Pos()), fmt.Sprintf("%s accesses %s without sync/atomic, other accesses are atomic", fname(x.fn), f), "")
				}
			}
			continue
		}
		count, wr, total := map[string]int{}, map[string]bool{}, map[ssa.Instruction]bool{}
		counted := map[string]bool{}
		for _, x := range xs {
			if x.fresh() || exportedField(f) && pkgOf(x.fn) != ownerPkg(f) {
				continue
			}
			total[x.in] = true
			for _, l := range guardsOf(x) {
				if k := fmt.Sprintf("%p%s", x.in, l.id); !counted[k] {
					counted[k] = true
					count[l.id]++
				}
				if x.write && l.w {
					wr[l.id] = true
				}
			}
		}
		guard := ""
		for _, id := range sortedKeys(count) {
			if wr[id] && 2*count[id] >= len(total) && (guard == "" || count[id] > count[guard]) {
				guard = id
			}
		}
		if m := documentedGuards[f]; m != "" && a.mutexField(m) {
			guard = m
		}
		if guard == "" {
			continue
		}
		guarded++
		for _, x := range xs {
			if x.fresh() || exportedField(f) && pkgOf(x.fn) != ownerPkg(f) {
				continue
			}
			mode := "read"
			if x.write {
				mode = "write"
			}
			k := "guarded:" + f + ":" + mode + "@" + fname(x.fn)
			a.r.Ob(k, a.p.pos(x.in.Pos()), fmt.Sprintf("%s is %s only while %s is held", f, map[string]string{"read": "read", "write": "written"}[mode], guard))
			ok := false
			for _, l := range guardsOf(x) {
				if l.id == guard && (!x.write || l.w && !l.inh) {
					ok = true
				}
			}
			if !ok {
				why := "without holding " + guard
				for _, l := range guardsOf(x) {
					if l.id == guard {
						why = "while holding " + guard + " for reading only"
					}
				}
				a.r.Bad(k, a.p.pos(x.in.Pos()), fmt.Sprintf("%s %ss %s %s", fname(x.fn), mode, f, why), "held: "+heldKey(x.held))
			}
		}
	}
	a.r.Floor("fields guarded by a mutex", guarded, 6)
	a.r.Floor("acquisitions of a mutex", len(a.acq), 20)
	// acquisition order
	next := map[string][]string{}
	for e := range a.edges {
		next[e.from] = append(next[e.from], e.to)
	}
	for e, ps := range a.edges {
		k := "order:" + e.from + "<" + e.to
		a.r.Ob(k, a.p.pos(ps), "the order in which mutexes are acquired has no cycle")
		seen := map[string]bool{}
		var dfs func(n string) bool
		dfs = func(n string) bool {
			if n == e.from {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range next[n] {
				if dfs(m) {
					return true
				}
			}
			return false
		}
		if dfs(e.to) {
			a.r.Bad(k, a.p.pos(ps), fmt.Sprintf("%s is acquired while %s is held, and elsewhere the other way around: two goroutines may wait for each other", e.to, e.from), "")
		}
	}
}

func exportedField(f string) bool {
	n := f[strings.LastIndex(f, ".")+1:]
	return token.IsExported(n)
}

func ownerPkg(f string) string {
	f = strings.TrimPrefix(f, "g:")
	f = f[:strings.LastIndex(f, ".")]
	if i := strings.LastIndex(f, "."); i > strings.LastIndex(f, "/") {
		return f[:i]
	}
	return f
}

// the fields shared by a protocol of their own (see checkPresence).
var lockProtocol = map[string]bool{"pkg/cache.PresenceCache.sets": true}

// the fields whose declarations name their mutex; the others are inferred: a field that is
// written while a mutex of the same struct is held, at half of its uses at least.
var documentedGuards = map[string]string{
	"pkg/mapserver/trie.CacheDB.liveCache":    "pkg/mapserver/trie.CacheDB.liveMux",
	"pkg/mapserver/trie.CacheDB.updatedNodes": "pkg/mapserver/trie.CacheDB.updatedMux",
	"pkg/mapserver/trie.CacheDB.removedNode":  "pkg/mapserver/trie.CacheDB.removeMux",
	"pkg/mapserver/trie.Trie.Root":            "pkg/mapserver/trie.Trie.lock",
	"pkg/mapserver/trie.Trie.atomicUpdate":    "pkg/mapserver/trie.Trie.lock",
	"pkg/mapserver/trie.Trie.pastTries":       "pkg/mapserver/trie.Trie.lock",
	"pkg/policylog/client.LogClient.logRoot":  "pkg/policylog/client.LogClient.logRootLock",
	"cmd/ingest/journal.Journal.Jobs":         "cmd/ingest/journal.Journal.mu",
	"cmd/ingest/journal.Journal.closed":       "cmd/ingest/journal.Journal.mu",
	"g:pkg/tracing.tracers":                   "g:pkg/tracing.tracersMu",
}

// mutexField: the struct still has the mutex.
func (a *lockan) mutexField(id string) bool {
	if strings.HasPrefix(id, "g:") {
		id = id[2:]
		i := strings.LastIndex(id, ".")
		pk := a.p.Pkgs[id[:i]]
		return pk != nil && pk.Types.Scope().Lookup(id[i+1:]) != nil
	}
	i := strings.LastIndex(id, ".")
	j := strings.LastIndex(id[:i], ".")
	n := a.p.namedType(id[:j], id[j+1:i])
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k).Name() == id[i+1:] {
			return isMutex(s.Field(k).Type())
		}
	}
	return false
}
