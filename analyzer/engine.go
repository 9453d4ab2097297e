package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The engine explores every path of a function (inlining the repository functions that
// matter to the rule) over a finite abstraction: rule facts, nilness, booleans, symbolic
// terms. It never executes the program.

// Exploration stops (as undecided) when the check as a whole has run for this long.
const maxWall = 400 * time.Second

var startTime = time.Now()

type Hooks struct {
	// Call may take over a call; it returns nil to let the engine handle it.
	Call func(c *CallCtx) []*Outcome
	// After sees the outcomes of each call (including those the engine produced).
	After func(c *CallCtx, outs []*Outcome)
	// Before sees every call before it is handled (also inlined ones).
	Before func(c *CallCtx)
	Return func(fr *Frame, st *State, results []*AVal, pos token.Pos)
	Store  func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store)
	Load   func(fr *Frame, st *State, addr *AVal, in ssa.Instruction)
	MapUpd func(fr *Frame, st *State, m, k, v *AVal, in *ssa.MapUpdate)
	Send   func(fr *Frame, st *State, ch, v *AVal, pos token.Pos)
	Recv   func(fr *Frame, st *State, ch *AVal, pos token.Pos)
	// Recvd sees the value a plain receive delivers; okT is the term of its ok flag or "".
	Recvd  func(fr *Frame, st *State, v *AVal, okT string, in *ssa.UnOp)
	Assume func(fr *Frame, st *State, v *AVal, truth bool)
	Instr  func(fr *Frame, st *State, in ssa.Instruction)
	// Inline says whether a repository callee is simulated (nil: relevance or small size).
	Inline func(fn *ssa.Function) bool
	// Go handles goroutine starts; nil: body is simulated with current facts, effects dropped.
	Go func(c *CallCtx) bool
	// BackEdge is called when a path takes a loop back edge.
	BackEdge func(fr *Frame, st *State, header *ssa.BasicBlock)
	// Phi is called when a phi takes a value: the one that comes in, and the one it is kept as.
	Phi func(fr *Frame, st *State, ph *ssa.Phi, in, as *AVal)
	// Branch is called on each way out of an if that the path can take.
	Branch func(fr *Frame, p *path, st *State, x *ssa.If, truth bool)
}

type Engine struct {
	P        *Prog
	H        Hooks
	Relevant map[*ssa.Function]bool
	NoAsm    bool // do not correlate repeated branch conditions
	// Fixed gives the truth of conditions that the rule decides cases on, Params the values of
	// parameters of the entry function.
	Fixed  map[string]bool
	Params map[string]*AVal
	// Known gives the truth of a condition in a state.
	Known func(st *State, t string) tri
	// JoinCalls joins the paths of the outcomes of a call where they meet again.
	JoinCalls bool
	MaxSteps  int
	// SelectFork follows each case of a select on a path of its own.
	SelectFork bool

	steps    int
	over     bool
	overAt   string
	siteIDs  map[ssa.Instruction]int
	memo     map[string][]*Outcome
	active   map[*ssa.Function]int
	live     map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value
	funcs    map[string]bool // functions simulated
	paths    int
	noret    map[*ssa.Function]int
	allocTag map[*ssa.Alloc]string
	seen     map[*ssa.Function]bool
	pdom     map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	NoMerge  bool
}

type Outcome struct {
	St      *State
	Results []*AVal
	Panic   bool // control does not come back (panic, exit)
}

type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Depth  int
	Args   []*AVal
	Call   ssa.CallInstruction // call in the parent frame, nil for entries
	visit  map[string]bool
	outs   []*Outcome
	outKey map[string]bool
	deps   int
	coll   []*collector
	cur    *path // the path that is in a call or starts a goroutine
}

// collector gathers the paths that leave a branch at its immediate postdominator, where
// those that agree on everything a rule can see are joined.
type collector struct {
	at *ssa.BasicBlock
	ps []*path
	ss []*State
}

type deferred struct {
	in   *ssa.Defer
	name string
	fn   *ssa.Function
	bind []*AVal
	args []*AVal
}

type path struct {
	env    map[ssa.Value]*AVal
	defers []deferred
	hdr    map[*ssa.BasicBlock]map[string]*AVal
	snap   map[*ssa.BasicBlock]map[string]bool
}

func (p *path) clone() *path {
	n := &path{env: make(map[ssa.Value]*AVal, len(p.env)), hdr: p.hdr}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

type CallCtx struct {
	E       *Engine
	Fr      *Frame
	In      ssa.CallInstruction
	Name    string
	Fn      *ssa.Function // resolved body owner, may be nil
	Bind    []*AVal
	Args    []*AVal // receiver first
	St      *State
	IsDefer bool
	IsGo    bool
	Sig     *types.Signature
}

func (c *CallCtx) Pos() token.Pos { return c.In.Pos() }

func NewEngine(p *Prog, h Hooks) *Engine {
	return &Engine{P: p, H: h, MaxSteps: 12000000,
		siteIDs: map[ssa.Instruction]int{}, memo: map[string][]*Outcome{},
		active: map[*ssa.Function]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value{},
		funcs: map[string]bool{}, noret: map[*ssa.Function]int{}, allocTag: map[*ssa.Alloc]string{}}
}

func (e *Engine) site(in ssa.Instruction) int {
	if n, ok := e.siteIDs[in]; ok {
		return n
	}
	n := len(e.siteIDs) + 1
	e.siteIDs[in] = n
	return n
}

// RunEntry simulates fn with symbolic arguments and the given initial facts.
func (e *Engine) RunEntry(fn *ssa.Function, facts ...string) []*Outcome {
	st := newState()
	st.gen(facts...)
	return e.RunEntryState(fn, st)
}

func (e *Engine) RunEntryState(fn *ssa.Function, st *State) []*Outcome {
	var args []*AVal
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := mk("param", n)
		if i == 0 && fn.Signature.Recv() != nil {
			v.Nil = yes
		}
		if w, ok := e.Params[n]; ok {
			v = w
		}
		args = append(args, v)
	}
	var bind []*AVal
	for _, f := range fn.FreeVars {
		v := mk("freevar", "&"+f.Name())
		v.Nil = yes
		bind = append(bind, v)
	}
	return e.run(fn, args, bind, st, nil, nil)
}

func (e *Engine) run(fn *ssa.Function, args, bind []*AVal, st *State, parent *Frame, call ssa.CallInstruction) []*Outcome {
	fr := &Frame{Fn: fn, Parent: parent, Args: args, Call: call, visit: map[string]bool{}, outKey: map[string]bool{}}
	if parent != nil {
		fr.Depth = parent.Depth + 1
	}
	e.funcs[fname(fn)] = true
	if e.seen != nil {
		e.seen[fn] = true
	}
	e.active[fn]++
	defer func() { e.active[fn]-- }()
	p := &path{env: map[ssa.Value]*AVal{}}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		} else {
			p.env[prm] = topVal
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			p.env[fv] = bind[i]
		} else {
			p.env[fv] = mk("freevar", "&"+fv.Name())
		}
	}
	e.enter(fr, p, st.clone(), fn.Blocks[0], nil)
	return fr.outs
}

// fewTimes: the loop counts ph up to a small constant (a loop over a literal, say), so that
// its iterations can be told apart.
func (e *Engine) fewTimes(p *path, st *State, h *ssa.BasicBlock, ph *ssa.Phi) bool {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	idx, lim := countsTo(br.Cond)
	if idx == nil {
		return false
	}
	if idx != ssa.Value(ph) {
		add, ok := idx.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(ph) {
			return false
		}
	}
	var n int64
	if l, ok := lim.(*ssa.Call); ok && len(l.Call.Args) == 1 {
		if b, ok := l.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return false
		}
		if n = e.val(p, st, l.Call.Args[0]).N; n == 0 {
			if v := p.env[lim]; v != nil && v.C != nil {
				n, _ = constant.Int64Val(v.C)
			}
		}
	} else {
		n, _ = intConst(lim)
	}
	return n > 0 && n <= 8
}

func isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

func (e *Engine) enter(fr *Frame, p *path, st *State, b, pred *ssa.BasicBlock) {
	back := pred != nil && isBackEdge(pred, b)
	// what a loop decided for its next iteration is told apart: the widened variable would
	// not remember it
	if back && pred != b {
		for i, q := range b.Preds {
			if q != pred {
				continue
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				bt, ok := ph.Type().Underlying().(*types.Basic)
				if !ok || bt.Kind() != types.Bool {
					continue
				}
				a := p.env[ph.Edges[i]]
				if a == nil || a.B != unk || a.C != nil || a.T == "" || a.T == "⊤" || a.Op == "phi" {
					continue
				}
				for _, truth := range []bool{true, false} {
					p2, s2 := p.clone(), st.clone()
					if !e.assume(fr, p2, s2, a, truth) {
						continue
					}
					p2.env[ph.Edges[i]] = a.with(func(n *AVal) {
						n.B = no
						if truth {
							n.B = yes
						}
					})
					e.enter(fr, p2, s2, b, pred)
				}
				return
			}
		}
	}
	if back && e.H.BackEdge != nil {
		e.H.BackEdge(fr, st, b)
	}
	// phis
	if pred != nil {
		idx := -1
		for i, q := range b.Preds {
			if q == pred {
				idx = i
			}
		}
		type upd struct {
			v ssa.Value
			a *AVal
		}
		var us []upd
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			a := e.val(p, st, ph.Edges[idx])
			came := a
			if back && !(a.C != nil && e.fewTimes(p, st, b, ph)) {
				if old, ok := p.env[ph]; !ok || old.Key() != a.Key() {
					w := mk("phi", fmt.Sprintf("φ%s.%s", fr.Fn.Name(), ph.Name()))
					w.Nil, w.B, w.Fn, w.Bind = a.Nil, a.B, a.Fn, a.Bind
					a = w
				}
			}
			if e.H.Phi != nil {
				e.H.Phi(fr, st, ph, came, a)
			}
			us = append(us, upd{ph, a})
		}
		for _, u := range us {
			p.env[u.v] = u.a
		}
	}
	// memory widening on loops
	if back {
		if old, ok := p.hdr[b]; ok {
			for k, v := range st.mem {
				o := old[k]
				if o == nil || o.T != v.T || len(v.F) > 0 && o.Key() != v.Key() {
					w := mk("phim", "φ["+k+"]")
					w.Nil, w.B, w.Fn, w.Bind = v.Nil, v.B, v.Fn, v.Bind
					st.mem[k] = w
				}
			}
		}
	} else if len(b.Preds) > 1 {
		isHdr := false
		for _, q := range b.Preds {
			if isBackEdge(q, b) {
				isHdr = true
			}
		}
		if isHdr {
			snap := make(map[string]*AVal, len(st.mem))
			for k, v := range st.mem {
				snap[k] = v
			}
			nh := map[*ssa.BasicBlock]map[string]*AVal{}
			for k, v := range p.hdr {
				nh[k] = v
			}
			nh[b] = snap
			p.hdr = nh
		}
	}
	// prune dead values
	live := e.liveIn(fr.Fn)[b]
	env := make(map[ssa.Value]*AVal, len(live))
	for _, v := range live {
		if a, ok := p.env[v]; ok {
			env[v] = a
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		env[ph] = p.env[ph]
	}
	p.env = env
	e.gc(fr, p, st)
	e.arrive(fr, p, st, b)
}

func (e *Engine) arrive(fr *Frame, p *path, st *State, b *ssa.BasicBlock) {
	if n := len(fr.coll); n > 0 && fr.coll[n-1].at == b {
		c := fr.coll[n-1]
		c.ps = append(c.ps, p)
		c.ss = append(c.ss, st)
		return
	}
	live := e.liveIn(fr.Fn)[b]
	// visited?
	if len(b.Preds) > 1 {
		var sb strings.Builder
		sb.WriteString(strconv.Itoa(b.Index))
		sb.WriteByte('#')
		for _, v := range live {
			sb.WriteString(p.env[v].Key())
			sb.WriteByte(',')
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			sb.WriteString(p.env[ph].Key())
			sb.WriteByte(',')
		}
		for _, d := range p.defers {
			sb.WriteString(fmt.Sprintf("D%d(", e.site(d.in)))
			for _, a := range d.args {
				sb.WriteString(a.Key())
			}
			for _, a := range d.bind {
				sb.WriteString(a.Key())
			}
		}
		sb.WriteString(st.key())
		k := sb.String()
		if fr.visit[k] {
			return
		}
		fr.visit[k] = true
	}
	e.exec(fr, p, st, b, 0)
}

// gc drops memory cells of allocations that nothing refers to any more.
func (e *Engine) gc(fr *Frame, p *path, st *State) {
	if len(st.mem) == 0 {
		e.gcAsm(p, st)
		return
	}
	reach := map[string]bool{}
	var addT func(v *AVal)
	addT = func(v *AVal) {
		if v == nil {
			return
		}
		for _, r := range rootsIn(v.T) {
			reach[r] = true
		}
		for _, f := range v.F {
			addT(f)
		}
		for _, b := range v.Bind {
			addT(b)
		}
	}
	for _, v := range p.env {
		addT(v)
	}
	for _, d := range p.defers {
		for _, a := range d.args {
			addT(a)
		}
		for _, a := range d.bind {
			addT(a)
		}
	}
	// cells owned by callers stay
	for f := fr; f != nil; f = f.Parent {
		for _, a := range f.Args {
			addT(a)
		}
	}
	changed := true
	seen := map[string]bool{}
	for changed {
		changed = false
		for k, v := range st.mem {
			if seen[k] {
				continue
			}
			r := rootOf(k)
			if !strings.HasPrefix(r, "@") || reach[r] || !e.ownedBy(fr, r) {
				seen[k] = true
				changed = true
				addT(v)
			}
		}
	}
	for k := range st.mem {
		if !seen[k] {
			delete(st.mem, k)
		}
	}
	e.gcAsm(p, st)
}

func (e *Engine) gcAsm(p *path, st *State) {
	for k := range st.asm {
		tags := siteTags(k)
		if len(tags) == 0 {
			continue
		}
		live := false
		for _, a := range p.env {
			if a != nil && a.contains(tags[0]) {
				live = true
				break
			}
		}
		if !live {
			for _, a := range st.mem {
				if a.contains(tags[0]) {
					live = true
					break
				}
			}
		}
		if !live {
			for _, d := range p.defers {
				for _, a := range append(append([]*AVal{}, d.args...), d.bind...) {
					if a.contains(tags[0]) {
						live = true
					}
				}
			}
		}
		if !live {
			delete(st.asm, k)
		}
	}
}

// ownedBy: the allocation belongs to this frame's function (else it is a caller's cell).
func (e *Engine) ownedBy(fr *Frame, root string) bool {
	return strings.HasPrefix(root, "@"+strconv.Itoa(e.fnID(fr.Fn))+".")
}

var fnIDs = map[*ssa.Function]int{}

func (e *Engine) fnID(fn *ssa.Function) int {
	if n, ok := fnIDs[fn]; ok {
		return n
	}
	n := len(fnIDs) + 1
	fnIDs[fn] = n
	return n
}

func rootOf(loc string) string {
	if !strings.HasPrefix(loc, "@") {
		return loc
	}
	for i := 1; i < len(loc); i++ {
		c := loc[i]
		if !(c >= '0' && c <= '9' || c == '.' && i+1 < len(loc) && loc[i+1] >= '0' && loc[i+1] <= '9') {
			return loc[:i]
		}
	}
	return loc
}

func rootsIn(t string) []string {
	var out []string
	for {
		i := strings.IndexByte(t, '@')
		if i < 0 {
			return out
		}
		t = t[i:]
		r := rootOf(t)
		if len(r) < 2 {
			t = t[1:]
			continue
		}
		out = append(out, r)
		t = t[len(r):]
	}
}

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock][]ssa.Value {
	if l, ok := e.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				pi := -1
				for j, q := range s.Preds {
					if q == b {
						pi = j
					}
				}
				for _, inn := range s.Instrs {
					ph, ok := inn.(*ssa.Phi)
					if !ok {
						break
					}
					if track(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				inn := b.Instrs[j]
				if v, ok := inn.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := inn.(*ssa.Phi); ok {
					continue
				}
				if _, ok := inn.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range inn.Operands(nil) {
					if op != nil && *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	idx := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, inn := range b.Instrs {
			if v, ok := inn.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	out := map[*ssa.BasicBlock][]ssa.Value{}
	for b, s := range in {
		var vs []ssa.Value
		for v := range s {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return idx[vs[i]] < idx[vs[j]] })
		out[b] = vs
	}
	e.live[fn] = out
	return out
}

func constVal(c *ssa.Const) *AVal {
	if c.Value == nil {
		v := mk("const", "nil")
		if isNilable(c.Type()) {
			v.Nil = no
		} else {
			v.T = "zero"
			v.Zero = true
		}
		return v
	}
	v := mk("const", c.Value.ExactString())
	v.C = c.Value
	if c.Value.Kind() == constant.Bool {
		v.B = no
		if constant.BoolVal(c.Value) {
			v.B = yes
		}
	}
	return v
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func zeroOf(t types.Type) *AVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			v := mk("const", "false")
			v.B = no
			v.C = constant.MakeBool(false)
			return v
		case u.Info()&types.IsString != 0:
			v := mk("const", `""`)
			v.C = constant.MakeString("")
			return v
		case u.Info()&types.IsNumeric != 0:
			v := mk("const", "0")
			v.C = constant.MakeInt64(0)
			return v
		}
	}
	if isNilable(t) {
		v := mk("const", "nil")
		v.Nil = no
		return v
	}
	v := mk("const", "zero")
	v.Zero = true
	return v
}

func (e *Engine) val(p *path, st *State, v ssa.Value) *AVal {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		a := mk("func", fname(x))
		a.Fn = x
		a.Nil = yes
		return a
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	case *ssa.Global:
		n := x.Name()
		if x.Pkg != nil {
			n = short(x.Pkg.Pkg.Path()) + "." + n
		}
		a := mk("global", "&"+n)
		a.Nil = yes
		return a
	}
	if a, ok := p.env[v]; ok && a != nil {
		return a
	}
	return topVal
}

// --- memory ---------------------------------------------------------------

func locField(base *AVal, name string) *AVal {
	v := mk("addr", base.T+"."+name, base)
	v.Nil = yes
	return v
}

// pointee location string of a pointer value: "&x" -> "x", otherwise the term itself.
func locOf(ptr *AVal) string {
	return strings.TrimPrefix(ptr.T, "&")
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

func (e *Engine) load(st *State, ptr *AVal, t types.Type) *AVal {
	loc := locOf(ptr)
	if ptr.T == "⊤" || ptr.T == "" {
		return topVal
	}
	return e.loadLoc(st, loc, t, ptr)
}

func (e *Engine) loadLoc(st *State, loc string, t types.Type, ptr *AVal) *AVal {
	var base *AVal
	if v, ok := st.mem[loc]; ok {
		base = v
	} else {
		// longest prefix with a known value
		cut := loc
		for {
			i := strings.LastIndexAny(cut, ".[")
			if i <= 0 {
				break
			}
			if strings.HasPrefix(cut, "@") && i < len(rootOf(cut)) {
				break
			}
			cut = cut[:i]
			if v, ok := st.mem[cut]; ok {
				base = proj(v, loc[len(cut):], t)
				break
			}
		}
		if base == nil {
			base = &AVal{Op: "load", T: loc, Args: []*AVal{ptr}, depth: depthOf(ptr) + 1}
			if base.depth > maxDepth {
				base = topVal
			}
		}
	}
	if base.Zero {
		if _, isS := t.Underlying().(*types.Struct); !isS {
			if _, isA := t.Underlying().(*types.Array); !isA {
				base = zeroOf(t)
			}
		}
	}
	// components stored separately
	if _, ok := t.Underlying().(*types.Struct); ok {
		var f map[string]*AVal
		for k, v := range base.F {
			if f == nil {
				f = map[string]*AVal{}
			}
			f[k] = v
		}
		for k, v := range st.mem {
			if strings.HasPrefix(k, loc) && len(k) > len(loc) && k[len(loc)] == '.' {
				if strings.HasPrefix(loc, "@") && rootOf(k) != rootOf(loc) {
					continue
				}
				if f == nil {
					f = map[string]*AVal{}
				}
				f[k[len(loc):]] = v
			}
		}
		if len(f) > 0 {
			base = base.with(func(n *AVal) { n.F = f })
		}
	}
	return base
}

func depthOf(v *AVal) int {
	if v == nil {
		return 0
	}
	return v.depth
}

// proj selects a component (".F", "[*]", ...) of a value.
func proj(v *AVal, path string, t types.Type) *AVal {
	if path == "" {
		return v
	}
	if f, ok := v.F[path]; ok {
		return f
	}
	// a prefix of the path may be known
	for k, f := range v.F {
		if strings.HasPrefix(path, k) && (path[len(k)] == '.' || path[len(k)] == '[') {
			return proj(f, path[len(k):], t)
		}
	}
	if v.Zero {
		return zeroOf(t)
	}
	if v.T == "⊤" || v.T == "" {
		return topVal
	}
	n := mk("sel", v.T+path, v)
	// carry deeper components
	for k, f := range v.F {
		if strings.HasPrefix(k, path) && len(k) > len(path) {
			if n.F == nil {
				n.F = map[string]*AVal{}
			}
			n.F[k[len(path):]] = f
		}
	}
	return n
}

func (e *Engine) store(st *State, ptr, v *AVal) {
	loc := locOf(ptr)
	if ptr.T == "⊤" || ptr.T == "" {
		return
	}
	for k := range st.mem {
		if strings.HasPrefix(k, loc) && len(k) > len(loc) && (k[len(loc)] == '.' || k[len(loc)] == '[') {
			if strings.HasPrefix(loc, "@") && rootOf(k) != rootOf(loc) {
				continue
			}
			delete(st.mem, k)
		}
	}
	if strings.Contains(loc, "[*]") {
		// summary element: weak update
		if o, ok := st.mem[loc]; ok && o.Key() != v.Key() {
			st.mem[loc] = mk("top", "⊤")
			return
		}
	}
	st.mem[loc] = v
}

func (e *Engine) allocLoc(fr *Frame, a *ssa.Alloc) string {
	if s, ok := e.allocTag[a]; ok {
		return s
	}
	id := e.fnID(a.Parent())
	n := 0
	for k := range e.allocTag {
		if k.Parent() == a.Parent() {
			n++
		}
	}
	s := fmt.Sprintf("@%d.%d", id, n)
	e.allocTag[a] = s
	return s
}

// havoc forgets what is known about the memory behind a pointer passed to unknown code.
func (e *Engine) havoc(st *State, v *AVal, site int) {
	if v == nil {
		return
	}
	for _, r := range rootsIn(v.T) {
		for k := range st.mem {
			if rootOf(k) == r {
				delete(st.mem, k)
			}
		}
		h := mk("havoc", fmt.Sprintf("havoc%d(%s)", site, strings.ReplaceAll(r, "@", "a")))
		st.mem[r] = h
	}
	for _, b := range v.Bind {
		e.havoc(st, b, site)
	}
}

// --- execution --------------------------------------------------------------

func (e *Engine) exec(fr *Frame, p *path, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if e.over {
			return
		}
		e.steps++
		if e.steps > e.MaxSteps || e.steps&0xfff == 0 && time.Since(startTime) > maxWall {
			e.over = true
			e.overAt = fname(fr.Fn)
			return
		}
		in := b.Instrs[i]
		if debugSteps != nil {
			debugSteps[fname(fr.Fn)]++
			if e.steps == 1000000 {
				var ks []string
				for k, n := range debugSteps {
					ks = append(ks, fmt.Sprintf("%8d %s", n, k))
				}
				sort.Strings(ks)
				fmt.Fprintln(os.Stderr, strings.Join(ks, "\n"), "\n")
			}
		}
		if e.H.Instr != nil {
			e.H.Instr(fr, st, in)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			fr.cur = p
			outs := e.call(fr, p, st, x, x.Common(), nil)
			if len(outs) == 1 && !outs[0].Panic {
				st = outs[0].St
				e.setResults(p, x, outs[0].Results)
				continue
			}
			var col *collector
			if e.JoinCalls && !e.NoMerge {
				if j := e.ipdom(fr.Fn)[b]; j != nil {
					col = &collector{at: j}
					fr.coll = append(fr.coll, col)
				}
			}
			for _, o := range outs {
				if o.Panic {
					continue
				}
				np := p.clone()
				e.setResults(np, x, o.Results)
				e.refreshNil(np, o)
				e.exec(fr, np, o.St, b, i+1)
			}
			if col != nil {
				fr.coll = fr.coll[:len(fr.coll)-1]
				e.joinAt(fr, col)
			}
			return
		case *ssa.Defer:
			d := deferred{in: x}
			d.name, d.fn, d.bind, d.args = e.resolve(p, st, x.Common())
			p.defers = append(p.defers, d)
		case *ssa.Go:
			fr.cur = p
			name, fn, bind, args := e.resolve(p, st, x.Common())
			c := &CallCtx{E: e, Fr: fr, In: x, Name: name, Fn: fn, Bind: bind, Args: args, St: st, IsGo: true, Sig: x.Common().Signature()}
			if e.H.Go != nil && e.H.Go(c) {
				break
			}
			if e.H.Before != nil {
				e.H.Before(c)
			}
			if fn != nil && len(fn.Blocks) > 0 && isRepoFn(fn) && e.active[fn] == 0 {
				e.run(fn, args, bind, st, fr, x)
			}
			for _, b := range bind {
				e.havoc(st, b, e.site(x))
			}
		case *ssa.RunDefers:
			outs := []*Outcome{{St: st}}
			for len(p.defers) > 0 {
				d := p.defers[len(p.defers)-1]
				p.defers = p.defers[:len(p.defers)-1]
				var next []*Outcome
				for _, o := range outs {
					c := &CallCtx{E: e, Fr: fr, In: d.in, Name: d.name, Fn: d.fn, Bind: d.bind, Args: d.args, St: o.St, IsDefer: true, Sig: d.in.Common().Signature()}
					for _, r := range e.dispatch(c) {
						if !r.Panic {
							next = append(next, r)
						}
					}
				}
				outs = mergeOutcomes(next)
			}
			if len(outs) == 1 {
				st = outs[0].St
				continue
			}
			for _, o := range outs {
				e.exec(fr, p.clone(), o.St, b, i+1)
			}
			return
		case *ssa.Return:
			var rs []*AVal
			for _, r := range x.Results {
				rs = append(rs, e.val(p, st, r))
			}
			if e.H.Return != nil {
				e.H.Return(fr, st, rs, x.Pos())
			}
			k := st.key()
			for _, r := range rs {
				k += "," + r.Key()
			}
			if !fr.outKey[k] {
				fr.outKey[k] = true
				fr.outs = append(fr.outs, &Outcome{St: st, Results: rs})
			}
			e.paths++
			return
		case *ssa.Panic:
			e.paths++
			fr.panicOut(st)
			return
		case *ssa.Jump:
			e.enter(fr, p, st, b.Succs[0], b)
			return
		case *ssa.If:
			c := e.val(p, st, x.Cond)
			t := e.truth(st, c)
			var col *collector
			if t == unk && !e.NoMerge {
				if j := e.ipdom(fr.Fn)[b]; j != nil {
					col = &collector{at: j}
					fr.coll = append(fr.coll, col)
				}
			}
			if t != no {
				s2, p2 := st.clone(), p.clone()
				if e.assume(fr, p2, s2, c, true) {
					if t == unk {
						s2.note(e.P.pos(condPos(x)) + " true")
					}
					if e.H.Branch != nil {
						e.H.Branch(fr, p2, s2, x, true)
					}
					e.enter(fr, p2, s2, b.Succs[0], b)
				}
			}
			if t != yes {
				s2, p2 := st, p
				if t == unk {
					s2, p2 = st.clone(), p.clone()
				}
				if e.assume(fr, p2, s2, c, false) {
					if t == unk {
						s2.note(e.P.pos(condPos(x)) + " false")
					}
					if e.H.Branch != nil {
						e.H.Branch(fr, p2, s2, x, false)
					}
					e.enter(fr, p2, s2, b.Succs[1], b)
				}
			}
			if col != nil {
				fr.coll = fr.coll[:len(fr.coll)-1]
				e.joinAt(fr, col)
			}
			return
		case *ssa.Store:
			a, v := e.val(p, st, x.Addr), e.val(p, st, x.Val)
			if e.H.Store != nil {
				e.H.Store(fr, st, a, v, x)
			}
			e.store(st, a, v)
		case *ssa.MapUpdate:
			m, k, v := e.val(p, st, x.Map), e.val(p, st, x.Key), e.val(p, st, x.Value)
			if e.H.MapUpd != nil {
				e.H.MapUpd(fr, st, m, k, v, x)
			}
			st.mem[locOf(m)+"["+k.T+"]"] = v
		case *ssa.Select:
			if !e.SelectFork {
				p.env[x] = e.eval(fr, p, st, x, in)
				continue
			}
			n := len(x.States)
			if !x.Blocking {
				n++
			}
			for k := 0; k < n; k++ {
				p2, s2 := p.clone(), st.clone()
				p2.env[x] = e.selectCase(fr, p2, s2, x, k)
				e.exec(fr, p2, s2, b, i+1)
			}
			return
		case *ssa.Send:
			if e.H.Send != nil {
				e.H.Send(fr, st, e.val(p, st, x.Chan), e.val(p, st, x.X), x.Pos())
			}
		case ssa.Value:
			p.env[x] = e.eval(fr, p, st, x, in)
		}
	}
}

func (e *Engine) joinAt(fr *Frame, c *collector) {
	type grp struct {
		p *path
		s *State
	}
	groups := map[string]*grp{}
	var order []string
	for i, p := range c.ps {
		st := c.ss[i]
		var sb strings.Builder
		for _, k := range sortedKeys(st.facts) {
			sb.WriteString(k + ";")
		}
		sb.WriteByte('/')
		type kv struct{ k, v string }
		var kvs []kv
		for v, a := range p.env {
			kvs = append(kvs, kv{v.Name(), a.Key()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, x := range kvs {
			sb.WriteString(x.k + "=" + x.v + ";")
		}
		for _, d := range p.defers {
			sb.WriteString(fmt.Sprintf("D%d(", e.site(d.in)))
			for _, a := range d.args {
				sb.WriteString(a.Key())
			}
			for _, a := range d.bind {
				sb.WriteString(a.Key())
			}
		}
		memKey(&sb, st)
		k := sb.String()
		g, ok := groups[k]
		if !ok {
			groups[k] = &grp{p, st}
			order = append(order, k)
			continue
		}
		mergeInto(g.s, st)
	}
	for _, k := range order {
		e.arrive(fr, groups[k].p, groups[k].s, c.at)
	}
}

// memKey writes what must agree about memory for two states to be joined: nilness, booleans,
// function values and constants.
func memKey(sb *strings.Builder, st *State) {
	for _, k := range sortedKeys(st.mem) {
		v := st.mem[k]
		if v.Nil != unk || v.B != unk || v.Fn != nil || v.C != nil {
			sb.WriteString(k + "=" + strconv.Itoa(int(v.Nil)) + strconv.Itoa(int(v.B)))
			if v.Fn != nil {
				sb.WriteString(v.Fn.String())
			}
			if v.C != nil {
				sb.WriteString(v.T)
			}
		}
	}
}

// mergeInto weakens g to cover o as well.
func mergeInto(g, o *State) {
	for t, b := range g.asm {
		if x, ok := o.asm[t]; !ok || x != b {
			delete(g.asm, t)
		}
	}
	for l, v := range g.mem {
		w, ok := o.mem[l]
		if !ok {
			if !strings.HasPrefix(l, "@") {
				delete(g.mem, l)
			}
			continue
		}
		if v.Key() != w.Key() {
			m := mk("top", "⊤")
			m.Nil, m.B = v.Nil, v.B
			if v.Fn == w.Fn {
				m.Fn, m.Bind = v.Fn, v.Bind
			}
			if v.T == w.T {
				m = v.with(func(n *AVal) { n.F = nil })
			}
			g.mem[l] = m
		}
	}
	for l, w := range o.mem {
		if _, ok := g.mem[l]; !ok && strings.HasPrefix(l, "@") {
			g.mem[l] = w
		}
	}
}

// ipdom gives, for each branching block, the first block in reverse postorder that both
// branches can reach (loop headers entered through a back edge come last). Where paths are
// joined affects only cost: a path that never gets there is simply followed to its end.
func (e *Engine) ipdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := e.pdom[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	rpo := make([]int, n)
	seen := make([]bool, n)
	cnt := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		cnt--
		rpo[b.Index] = cnt
	}
	dfs(fn.Blocks[0])
	reach := func(from, s *ssa.BasicBlock) map[*ssa.BasicBlock]int {
		r := map[*ssa.BasicBlock]int{}
		var walk func(prev, b *ssa.BasicBlock)
		walk = func(prev, b *ssa.BasicBlock) {
			if isBackEdge(prev, b) {
				if _, ok := r[b]; !ok {
					r[b] = n + n - rpo[b.Index]
				}
				return
			}
			if o, ok := r[b]; ok && o < n {
				return
			}
			r[b] = rpo[b.Index]
			for _, q := range b.Succs {
				walk(b, q)
			}
		}
		walk(from, s)
		return r
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		r0, r1 := reach(b, b.Succs[0]), reach(b, b.Succs[1])
		var best *ssa.BasicBlock
		bo := 0
		for x, o := range r0 {
			o1, ok := r1[x]
			if !ok {
				continue
			}
			if o1 > o {
				o = o1
			}
			if best == nil || o < bo {
				best, bo = x, o
			}
		}
		if best != nil {
			m[b] = best
		}
	}
	if e.pdom == nil {
		e.pdom = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	e.pdom[fn] = m
	return m
}

func (fr *Frame) panicOut(st *State) {
	k := "panic"
	if !fr.outKey[k] {
		fr.outKey[k] = true
		fr.outs = append(fr.outs, &Outcome{St: st, Panic: true})
	}
}

func condPos(x *ssa.If) token.Pos {
	if x.Cond.Pos().IsValid() {
		return x.Cond.Pos()
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if ps := x.Block().Instrs[i].Pos(); ps.IsValid() {
			return ps
		}
	}
	return token.NoPos
}

func dedupOutcomes(os []*Outcome) []*Outcome {
	seen := map[string]bool{}
	var out []*Outcome
	for _, o := range os {
		k := o.St.key()
		for _, r := range o.Results {
			k += "," + r.Key()
		}
		if o.Panic {
			k += "P"
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, o)
		}
	}
	return out
}

func (e *Engine) setResults(p *path, x *ssa.Call, rs []*AVal) {
	switch len(rs) {
	case 0:
		p.env[x] = topVal
	case 1:
		p.env[x] = rs[0]
	default:
		t := mk("tuple", "tuple")
		t.F = map[string]*AVal{}
		for i, r := range rs {
			t.F[fmt.Sprintf("#%d", i)] = r
		}
		p.env[x] = t
	}
}

func (e *Engine) refreshNil(p *path, o *Outcome) {}

func (e *Engine) truth(st *State, c *AVal) tri {
	if c.B != unk {
		return c.B
	}
	t, neg := stripNot(c.T)
	if v, ok := e.Fixed[t]; ok {
		if v != neg {
			return yes
		}
		return no
	}
	if v, ok := st.asm[t]; ok {
		if v != neg {
			return yes
		}
		return no
	}
	if e.Known != nil {
		if v := e.Known(st, t); v != unk {
			if (v == yes) != neg {
				return yes
			}
			return no
		}
	}
	return unk
}

func stripNot(t string) (string, bool) {
	neg := false
	for strings.HasPrefix(t, "!") {
		t = t[1:]
		neg = !neg
	}
	return t, neg
}

func stripNotVal(v *AVal) (*AVal, bool) {
	neg := false
	for v != nil && v.Op == "!" && len(v.Args) == 1 {
		v = v.Args[0]
		neg = !neg
	}
	return v, neg
}

const maxAsm = 16

// asmTerm: results of calls may be remembered across branches (they are forgotten when the
// call site runs again); loop- and channel-dependent terms may not.
func asmTerm(t string) bool {
	if !strings.Contains(t, "#") {
		return true
	}
	for _, x := range []string{"make#", "makeslice#", "next#", "select#", "selok#", "recvok#", "recv#", "havoc", "builtin."} {
		if strings.Contains(t, x) {
			return false
		}
	}
	return true
}

// siteTags lists the "#n(" call-site markers in a term.
func siteTags(t string) []string {
	var out []string
	for i := 0; i < len(t); i++ {
		if t[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(t) && (t[j] >= '0' && t[j] <= '9' || t[j] == '\'') {
			j++
		}
		if j < len(t) && t[j] == '(' {
			out = append(out, t[i:j+1])
		}
		i = j - 1
	}
	return out
}

var debugSteps map[string]int

// assume refines the state with the branch outcome; false means the branch is infeasible.
func (e *Engine) assume(fr *Frame, p *path, st *State, c *AVal, truth bool) bool {
	v, neg := stripNotVal(c)
	if neg {
		truth = !truth
	}
	if e.H.Assume != nil {
		e.H.Assume(fr, st, v, truth)
	}
	if v.Op == "==" && len(v.Args) == 2 {
		for k := 0; k < 2; k++ {
			x, y := v.Args[k], v.Args[1-k]
			if y.Nil == no && y.T == "nil" {
				n := yes
				if truth {
					n = no
				}
				if x.Nil != unk && x.Nil != n {
					return false
				}
				e.refine(p, st, x.T, func(a *AVal) { a.Nil = n })
				break
			}
			// x == y true with y known non-nil (sentinel errors)
			if truth && y.Nil == yes && x.Nil == unk && x.T != "⊤" {
				e.refine(p, st, x.T, func(a *AVal) { a.Nil = yes })
			}
		}
	}
	if strings.HasPrefix(v.Op, "call:errors.Is") || strings.HasPrefix(v.Op, "call:errors.As") {
		if truth && len(v.Args) > 0 {
			if v.Args[0].Nil == no {
				return false
			}
			e.refine(p, st, v.Args[0].T, func(a *AVal) { a.Nil = yes })
		}
	}
	if v.T != "⊤" && v.T != "" {
		b := no
		if truth {
			b = yes
		}
		if v.C == nil {
			e.refine(p, st, v.T, func(a *AVal) { a.B = b })
		}
		if !e.NoAsm && len(st.asm) < maxAsm && !strings.Contains(v.T, "φ") && !strings.Contains(v.T, "⊤") &&
			asmTerm(v.T) && !strings.Contains(v.T, "[*]") && len(v.T) < 400 && v.C == nil {
			st.asm[v.T] = truth
		}
	}
	return true
}

func (e *Engine) refine(p *path, st *State, t string, f func(*AVal)) {
	if t == "⊤" || t == "" {
		return
	}
	for k, a := range p.env {
		if a == nil {
			continue
		}
		if a.T == t {
			p.env[k] = a.with(f)
		} else if len(a.F) > 0 {
			if n := refineF(a, t, f); n != nil {
				p.env[k] = n
			}
		}
	}
	for k, a := range st.mem {
		if a.T == t {
			st.mem[k] = a.with(f)
		} else if len(a.F) > 0 {
			if n := refineF(a, t, f); n != nil {
				st.mem[k] = n
			}
		}
	}
	// remember for later loads of the same location
	if !strings.ContainsAny(t, "()#φ ") && !strings.HasPrefix(t, "@") {
		if _, ok := st.mem[t]; !ok {
			st.mem[t] = (&AVal{Op: "load", T: t, depth: 1}).with(f)
		}
	}
}

func refineF(a *AVal, t string, f func(*AVal)) *AVal {
	hit := false
	nf := map[string]*AVal{}
	for k, c := range a.F {
		if c.T == t {
			nf[k] = c.with(f)
			hit = true
		} else {
			nf[k] = c
		}
	}
	if !hit {
		return nil
	}
	return a.with(func(n *AVal) { n.F = nf })
}

func (e *Engine) eval(fr *Frame, p *path, st *State, x ssa.Value, in ssa.Instruction) *AVal {
	switch x := x.(type) {
	case *ssa.Alloc:
		loc := e.allocLoc(fr, x)
		for k := range st.mem {
			if rootOf(k) == loc {
				delete(st.mem, k)
			}
		}
		st.mem[loc] = zeroOf(x.Type().(*types.Pointer).Elem())
		v := mk("alloc", "&"+loc)
		v.Nil = yes
		return v
	case *ssa.MakeClosure:
		v := mk("func", fname(x.Fn.(*ssa.Function)))
		v.Fn = x.Fn.(*ssa.Function)
		v.Nil = yes
		for _, b := range x.Bindings {
			v.Bind = append(v.Bind, e.val(p, st, b))
		}
		return v
	case *ssa.MakeMap, *ssa.MakeChan:
		v := mk("make", fmt.Sprintf("make#%d", e.site(in)))
		v.Nil = yes
		return v
	case *ssa.MakeSlice:
		l := e.val(p, st, x.Len)
		v := mk("makeslice", fmt.Sprintf("makeslice#%d(%s)", e.site(in), l.T), l)
		v.Nil = yes
		return v
	case *ssa.MakeInterface:
		a := e.val(p, st, x.X)
		if a.Nil != yes {
			a = a.with(func(n *AVal) { n.Nil = yes })
		}
		return a
	case *ssa.ChangeInterface:
		return e.val(p, st, x.X)
	case *ssa.ChangeType:
		return e.val(p, st, x.X)
	case *ssa.Convert:
		a := e.val(p, st, x.X)
		return a
	case *ssa.MultiConvert:
		return e.val(p, st, x.X)
	case *ssa.SliceToArrayPointer:
		return e.val(p, st, x.X)
	case *ssa.TypeAssert:
		a := e.val(p, st, x.X)
		if x.CommaOk {
			t := mk("tuple", "tuple")
			ok := mk("typeok", "is("+a.T+","+x.AssertedType.String()+")", a)
			t.F = map[string]*AVal{"#0": a.with(func(n *AVal) { n.Nil = unk }), "#1": ok}
			return t
		}
		return a
	case *ssa.Extract:
		a := e.val(p, st, x.Tuple)
		k := fmt.Sprintf("#%d", x.Index)
		if f, ok := a.F[k]; ok {
			return f
		}
		if a.T == "⊤" || a.T == "" {
			return topVal
		}
		return mk("extract", a.T+k, a)
	case *ssa.FieldAddr:
		a := e.val(p, st, x.X)
		n := fieldName(x.X.Type(), x.Field)
		if a.T == "⊤" {
			return topVal
		}
		return locField(a, n)
	case *ssa.Field:
		a := e.val(p, st, x.X)
		return proj(a, "."+fieldName(x.X.Type(), x.Field), x.Type())
	case *ssa.IndexAddr:
		a, i := e.val(p, st, x.X), e.val(p, st, x.Index)
		if a.T == "⊤" {
			return topVal
		}
		v := mk("addr", a.T+idxStr(i), a, i)
		v.Nil = yes
		return v
	case *ssa.Index:
		a, i := e.val(p, st, x.X), e.val(p, st, x.Index)
		v := proj(a, idxStr(i), x.Type())
		return v
	case *ssa.Lookup:
		m, k := e.val(p, st, x.X), e.val(p, st, x.Index)
		var v *AVal
		if s, ok := st.mem[locOf(m)+"["+k.T+"]"]; ok {
			v = s
		} else if m.T == "⊤" {
			v = topVal
		} else {
			v = mk("lookup", m.T+"["+k.T+"]", m, k)
		}
		if x.CommaOk {
			t := mk("tuple", "tuple")
			t.F = map[string]*AVal{"#0": v, "#1": mk("mapok", "has("+m.T+","+k.T+")", m, k)}
			return t
		}
		return v
	case *ssa.Range:
		a := e.val(p, st, x.X)
		return mk("range", a.T, a)
	case *ssa.Next:
		a := e.val(p, st, x.Iter)
		t := mk("tuple", "tuple")
		t.F = map[string]*AVal{
			"#0": mk("next", fmt.Sprintf("next#%d", e.site(in))),
			"#1": mk("key", a.T+".key[*]", a), "#2": mk("elem", a.T+"[*]", a)}
		return t
	case *ssa.Slice:
		a := e.val(p, st, x.X)
		if x.Low == nil && x.High == nil {
			if a.Op == "alloc" || a.Op == "addr" {
				// slice of an array: value term of the array location
				loc := locOf(a)
				var size int64
				if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						size = at.Len()
					}
				}
				if v, ok := st.mem[loc]; ok && len(v.F) == 0 && !v.Zero {
					w := v.with(func(n *AVal) { n.Nil = yes; n.N = size })
					if !hasSub(st, loc) {
						return w
					}
				}
				w := mk("slice", loc, a)
				w.Nil = yes
				w.N = size
				return w
			}
			return a
		}
		f := func(v ssa.Value) (string, *AVal) {
			if v == nil {
				return "", nil
			}
			q := e.val(p, st, v)
			return q.T, q
		}
		lo, lv := f(x.Low)
		hi, hv := f(x.High)
		t := a.T
		if a.Op == "alloc" {
			t = locOf(a)
			if v, ok := st.mem[t]; ok && !v.Zero && len(v.F) == 0 && !hasSub(st, t) {
				t = v.T
			}
		}
		r := mk("slice", t+"["+lo+":"+hi+"]", a)
		if lv != nil {
			r.Args = append(r.Args, lv)
		}
		if hv != nil {
			r.Args = append(r.Args, hv)
		}
		if a.Op == "alloc" {
			r.Nil = yes
		}
		return r
	case *ssa.UnOp:
		a := e.val(p, st, x.X)
		switch x.Op {
		case token.MUL:
			if e.H.Load != nil {
				e.H.Load(fr, st, a, in)
			}
			return e.load(st, a, x.Type())
		case token.NOT:
			return notVal(a)
		case token.ARROW:
			if e.H.Recv != nil {
				e.H.Recv(fr, st, a, x.Pos())
			}
			r := mk("recv", fmt.Sprintf("recv#%d(%s)", e.site(in), a.T), a)
			okT := ""
			if x.CommaOk {
				okT = fmt.Sprintf("recvok#%d", e.site(in))
			}
			if e.H.Recvd != nil {
				e.H.Recvd(fr, st, r, okT, x)
			}
			if x.CommaOk {
				t := mk("tuple", "tuple")
				t.F = map[string]*AVal{"#0": r, "#1": mk("recvok", okT)}
				return t
			}
			return r
		case token.SUB:
			if a.C != nil {
				return fromConst(constant.UnaryOp(token.SUB, a.C, 0))
			}
			return mk("neg", "-"+a.T, a)
		}
		return mk(x.Op.String(), x.Op.String()+a.T, a)
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(p, st, x.X), e.val(p, st, x.Y))
	case *ssa.Select:
		t := mk("tuple", "tuple")
		t.F = map[string]*AVal{"#0": mk("select", fmt.Sprintf("select#%d", e.site(in))),
			"#1": mk("recvok", fmt.Sprintf("selok#%d", e.site(in)))}
		k := 2
		for _, s := range x.States {
			ch := e.val(p, st, s.Chan)
			if s.Dir == types.RecvOnly {
				t.F[fmt.Sprintf("#%d", k)] = mk("recv", fmt.Sprintf("recv#%d.%d(%s)", e.site(in), k, ch.T), ch)
				k++
				if e.H.Recv != nil {
					e.H.Recv(fr, st, ch, x.Pos())
				}
			} else if e.H.Send != nil {
				e.H.Send(fr, st, ch, e.val(p, st, s.Send), x.Pos())
			}
		}
		return t
	}
	return topVal
}

// selectCase is what a select yields when its k-th case (or, after the last, its default) is
// taken.
func (e *Engine) selectCase(fr *Frame, p *path, st *State, x *ssa.Select, k int) *AVal {
	t := mk("tuple", "tuple")
	i := int64(k)
	if k == len(x.States) {
		i = -1
	}
	t.F = map[string]*AVal{"#0": fromConst(constant.MakeInt64(i)),
		"#1": mk("recvok", fmt.Sprintf("selok#%d.%d", e.site(x), k))}
	n := 2
	for j, s := range x.States {
		ch := e.val(p, st, s.Chan)
		if s.Dir == types.RecvOnly {
			t.F[fmt.Sprintf("#%d", n)] = mk("recv", fmt.Sprintf("recv#%d.%d(%s)", e.site(x), n, ch.T), ch)
			n++
			if j == k && e.H.Recv != nil {
				e.H.Recv(fr, st, ch, x.Pos())
			}
		} else if j == k && e.H.Send != nil {
			e.H.Send(fr, st, ch, e.val(p, st, s.Send), x.Pos())
		}
	}
	return t
}

func hasSub(st *State, loc string) bool {
	for k := range st.mem {
		if strings.HasPrefix(k, loc+"[") {
			return true
		}
	}
	return false
}

// symIdx keeps the terms of indices that are not constant apart.
var symIdx bool

func idxStr(i *AVal) string {
	if i.C != nil || symIdx && i.T != "" && i.T != "⊤" {
		return "[" + i.T + "]"
	}
	return "[*]"
}

func notVal(a *AVal) *AVal {
	if a.Op == "!" {
		r := a.Args[0]
		if r.B == unk && a.B != unk {
			r = r.with(func(n *AVal) { n.B = 3 - a.B })
		}
		return r
	}
	v := mk("!", "!"+a.T, a)
	if a.B != unk {
		v.B = 3 - a.B
	}
	if a.T == "⊤" {
		v = topVal
		if a.B != unk {
			v = v.with(func(n *AVal) { n.B = 3 - a.B })
		}
	}
	return v
}

func fromConst(c constant.Value) *AVal {
	v := mk("const", c.ExactString())
	v.C = c
	if c.Kind() == constant.Bool {
		v.B = no
		if constant.BoolVal(c) {
			v.B = yes
		}
	}
	return v
}

func (e *Engine) binop(st *State, op token.Token, x, y *AVal) *AVal {
	if x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fromConst(constant.MakeBool(constant.Compare(x.C, op, y.C)))
		case token.ADD, token.SUB, token.MUL:
			if x.C.Kind() == constant.Int || x.C.Kind() == constant.String && op == token.ADD {
				return fromConst(constant.BinaryOp(x.C, op, y.C))
			}
		case token.REM, token.AND:
			if x.C.Kind() == constant.Int && (op == token.AND || constant.Sign(y.C) != 0) {
				return fromConst(constant.BinaryOp(x.C, op, y.C))
			}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		a, b := x, y
		if b.T < a.T {
			a, b = b, a
		}
		if x.T == "⊤" || y.T == "⊤" {
			v := mk("==", "⊤", a, b)
			if op == token.NEQ {
				return &AVal{Op: "!", T: "⊤", Args: []*AVal{v}, depth: v.depth + 1}
			}
			return v
		}
		v := mk("==", "("+a.T+" == "+b.T+")", a, b)
		// nilness decides
		if x.Nil != unk && y.Nil != unk && (x.T == "nil" || y.T == "nil") {
			if x.Nil == y.Nil {
				v.B = yes
			} else {
				v.B = no
			}
		}
		// boolean comparison with a constant
		if x.C != nil && x.C.Kind() == constant.Bool {
			x, y = y, x
		}
		if y.C != nil && y.C.Kind() == constant.Bool {
			want := constant.BoolVal(y.C)
			if (op == token.EQL) == want {
				return x
			}
			return notVal(x)
		}
		if v.B == unk {
			if tv, ok := st.asm[v.T]; ok {
				v.B = no
				if tv {
					v.B = yes
				}
			}
		}
		if op == token.NEQ {
			return notVal(v)
		}
		return v
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		neg := op == token.LEQ || op == token.GEQ
		a, b := x, y
		if op == token.GTR || op == token.LEQ {
			a, b = y, x
		}
		t := "(" + a.T + " < " + b.T + ")"
		if x.T == "⊤" || y.T == "⊤" {
			t = "⊤"
		}
		v := mk("<", t, a, b)
		if neg {
			if t == "⊤" {
				return &AVal{Op: "!", T: "⊤", Args: []*AVal{v}, depth: v.depth + 1}
			}
			return notVal(v)
		}
		return v
	}
	if x.T == "⊤" || y.T == "⊤" {
		return mk(op.String(), "⊤", x, y)
	}
	if op == token.ADD || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR {
		if y.T < x.T && !(isStringish(x) || isStringish(y)) {
			x, y = y, x
		}
	}
	return mk(op.String(), "("+x.T+" "+op.String()+" "+y.T+")", x, y)
}

func isStringish(v *AVal) bool {
	if v.C != nil && v.C.Kind() == constant.String {
		return true
	}
	return v.Op == "+" && len(v.Args) == 2 && (isStringish(v.Args[0]) || isStringish(v.Args[1]))
}

// resolve determines callee identity and argument values.
func (e *Engine) resolve(p *path, st *State, com *ssa.CallCommon) (string, *ssa.Function, []*AVal, []*AVal) {
	var args []*AVal
	if com.IsInvoke() {
		args = append(args, e.val(p, st, com.Value))
		for _, a := range com.Args {
			args = append(args, e.val(p, st, a))
		}
		return oname(com.Method), nil, nil, args
	}
	for _, a := range com.Args {
		args = append(args, e.val(p, st, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name(), nil, nil, args
	}
	v := e.val(p, st, com.Value)
	if v.Fn != nil {
		fn := v.Fn
		bind := v.Bind
		// bound method wrappers: (recv).Method$bound
		if strings.HasSuffix(fn.Name(), "$bound") && len(bind) == 1 {
			if o, ok := fn.Object().(*types.Func); ok {
				if fs := e.P.byObj[o.Origin()]; len(fs) > 0 && !types.IsInterface(o.Type().(*types.Signature).Recv().Type()) {
					return oname(o), fs[0], nil, append([]*AVal{bind[0]}, args...)
				}
				return oname(o), nil, nil, append([]*AVal{bind[0]}, args...)
			}
		}
		return fname(fn), fn, bind, args
	}
	return "dyn:" + v.T, nil, nil, append([]*AVal{v}, args...)
}

func (e *Engine) call(fr *Frame, p *path, st *State, in ssa.CallInstruction, com *ssa.CallCommon, _ any) []*Outcome {
	name, fn, bind, args := e.resolve(p, st, com)
	c := &CallCtx{E: e, Fr: fr, In: in, Name: name, Fn: fn, Bind: bind, Args: args, St: st, Sig: com.Signature()}
	e.freshen(p, st, in, name)
	return e.dispatch(c)
}

// freshen renames terms produced by an earlier execution of the same call site.
func (e *Engine) freshen(p *path, st *State, in ssa.CallInstruction, name string) {
	n, ok := e.siteIDs[in]
	if !ok {
		return
	}
	tag := fmt.Sprintf("#%d(", n)
	old := fmt.Sprintf("#%d'(", n)
	ren := func(a *AVal) *AVal {
		if a == nil || !a.contains(tag) {
			return a
		}
		return renameTerm(a, tag, old)
	}
	for k, a := range p.env {
		if a.contains(tag) {
			p.env[k] = ren(a)
		}
	}
	for k, a := range st.mem {
		if a.contains(tag) {
			st.mem[k] = ren(a)
		}
	}
	for k := range st.asm {
		if strings.Contains(k, tag) {
			delete(st.asm, k)
		}
	}
}

func renameTerm(a *AVal, from, to string) *AVal {
	if a == nil {
		return nil
	}
	n := *a
	n.key = ""
	n.T = strings.ReplaceAll(a.T, from, to)
	if len(a.Args) > 0 {
		n.Args = make([]*AVal, len(a.Args))
		for i, x := range a.Args {
			if x != nil && strings.Contains(x.T, from) {
				n.Args[i] = renameTerm(x, from, to)
			} else {
				n.Args[i] = x
			}
		}
	}
	if len(a.F) > 0 {
		n.F = map[string]*AVal{}
		for k, x := range a.F {
			n.F[k] = renameTerm(x, from, to)
		}
	}
	return &n
}

func (e *Engine) dispatch(c *CallCtx) []*Outcome {
	if e.H.Before != nil {
		e.H.Before(c)
	}
	var outs []*Outcome
	if e.H.Call != nil {
		outs = e.H.Call(c)
	}
	if outs == nil {
		outs = e.builtinCall(c)
	}
	if outs == nil && (e.shouldInline(c.Fn) || e.takesRelevant(c)) {
		outs = e.inline(c)
	}
	if outs == nil {
		outs = e.Opaque(c)
	}
	if e.H.After != nil {
		e.H.After(c, outs)
	}
	return outs
}

// takesRelevant: a repository function is handed a function value that matters to the rule,
// so what it does with it is followed.
func (e *Engine) takesRelevant(c *CallCtx) bool {
	if e.H.Inline != nil || e.Relevant == nil || c.Fn == nil || len(c.Fn.Blocks) == 0 || !isRepoFn(c.Fn) || e.active[c.Fn] > 0 {
		return false
	}
	var rel func(a *AVal, d int) bool
	rel = func(a *AVal, d int) bool {
		if a == nil || d > 3 {
			return false
		}
		if a.Fn != nil && (e.Relevant[a.Fn] || fnObj(a.Fn) != nil && e.relevantObj(fnObj(a.Fn))) {
			return true
		}
		for _, b := range a.Bind {
			if rel(b, d+1) {
				return true
			}
		}
		for _, f := range a.F {
			if rel(f, d+1) {
				return true
			}
		}
		return false
	}
	for _, a := range c.Args {
		if rel(a, 0) {
			return true
		}
	}
	return false
}

func (e *Engine) relevantObj(o *types.Func) bool {
	for _, f := range e.P.byObj[o] {
		if e.Relevant[f] {
			return true
		}
	}
	return false
}

func (e *Engine) shouldInline(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !isRepoFn(fn) || e.active[fn] > 0 {
		return false
	}
	if e.H.Inline != nil {
		return e.H.Inline(fn)
	}
	if e.Relevant != nil && e.Relevant[fn] {
		return true
	}
	return smallFn(fn) || e.Relevant == nil && (e.P.sole(fn) || fn.Parent() != nil)
}

func smallFn(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n <= 24 && len(fn.Blocks) <= 4
}

func (e *Engine) inline(c *CallCtx) []*Outcome {
	// what is assumed about results of this caller's calls is kept aside, except what the
	// callee can see
	var stash map[string]bool
	for k, v := range c.St.asm {
		tags := siteTags(k)
		if len(tags) == 0 {
			continue
		}
		if stash == nil {
			stash = map[string]bool{}
		}
		stash[k] = v
		seen := false
		for _, a := range append(append([]*AVal{}, c.Args...), c.Bind...) {
			if a.contains(tags[0]) {
				seen = true
			}
		}
		if !seen && len(c.Bind) > 0 {
			for _, a := range c.St.mem {
				if a.contains(tags[0]) {
					seen = true
				}
			}
		}
		if !seen {
			delete(c.St.asm, k)
		}
	}
	outs := e.inline1(c)
	for k, v := range stash {
		for _, o := range outs {
			if _, ok := o.St.asm[k]; !ok {
				o.St.asm[k] = v
			}
		}
	}
	return outs
}

func (e *Engine) inline1(c *CallCtx) []*Outcome {
	var kb strings.Builder
	kb.WriteString(c.Fn.String() + strconv.Itoa(e.fnID(c.Fn)))
	for _, a := range c.Args {
		kb.WriteString("," + a.Key())
	}
	for _, a := range c.Bind {
		kb.WriteString("~" + a.Key())
	}
	kb.WriteString("$" + c.St.key())
	k := kb.String()
	if m, ok := e.memo[k]; ok {
		var outs []*Outcome
		for _, o := range m {
			s := o.St.clone()
			s.trace = c.St.trace
			outs = append(outs, &Outcome{St: s, Results: o.Results, Panic: o.Panic})
		}
		return outs
	}
	st := c.St.clone()
	st.note("call " + fname(c.Fn) + " at " + e.P.pos(c.In.Pos()))
	outs := e.run(c.Fn, c.Args, c.Bind, st, c.Fr, c.In)
	if len(outs) == 0 {
		// no terminating path found (infinite loop / recursion): does not return
		outs = []*Outcome{{St: c.St.clone(), Panic: true}}
	}
	// allocations of the callee that escaped keep their cells; assumptions of the callee
	// about its own values are dropped
	outs = mergeOutcomes(outs)
	e.memo[k] = outs
	res := make([]*Outcome, len(outs))
	for i, o := range outs {
		res[i] = &Outcome{St: o.St.clone(), Results: o.Results, Panic: o.Panic}
	}
	return res
}

// mergeOutcomes joins the exits of a simulated callee that agree on the rule facts, the
// results and on what is known (nilness, booleans) about memory; what differs is forgotten.
func mergeOutcomes(outs []*Outcome) []*Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string]*Outcome{}
	var order []string
	for _, o := range outs {
		var sb strings.Builder
		if o.Panic {
			sb.WriteString("P")
		}
		for _, k := range sortedKeys(o.St.facts) {
			sb.WriteString(k + ";")
		}
		for _, r := range o.Results {
			sb.WriteString("," + r.Key())
		}
		memKey(&sb, o.St)
		k := sb.String()
		g, ok := groups[k]
		if !ok {
			groups[k] = &Outcome{St: o.St.clone(), Results: o.Results, Panic: o.Panic}
			order = append(order, k)
			continue
		}
		mergeInto(g.St, o.St)
	}
	var res []*Outcome
	for _, k := range order {
		res = append(res, groups[k])
	}
	return res
}

var noReturnExt = map[string]bool{
	"os.Exit": true, "runtime.Goexit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "syscall.Exit": true,
}

var nonNilErr = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func (e *Engine) builtinCall(c *CallCtx) []*Outcome {
	switch {
	case noReturnExt[c.Name] || strings.HasPrefix(c.Name, "log.(*Logger).Fatal") || strings.HasPrefix(c.Name, "log.(*Logger).Panic"):
		return []*Outcome{{St: c.St, Panic: true}}
	case c.Name == "errors.New" || c.Name == "fmt.Errorf" || strings.HasPrefix(c.Name, "google.golang.org/grpc/status.Error"):
		v := e.callTerm(c, false)
		v.Nil = yes
		return []*Outcome{{St: c.St, Results: []*AVal{v}}}
	case c.Name == "errors.Join":
		v := e.callTerm(c, false)
		es := c.elems(0)
		all := len(es) > 0
		for _, x := range es {
			if x.Nil == yes {
				v.Nil = yes
			}
			if x.Nil != no {
				all = false
			}
		}
		if all {
			v = mk("const", "nil")
			v.Nil = no
		}
		return []*Outcome{{St: c.St, Results: []*AVal{v}}}
	case c.Name == "builtin.append":
		v := mk("append", "append("+joinT(c.Args)+")", c.Args...)
		if len(c.Args) > 0 && c.Args[0].Nil == yes {
			v.Nil = yes
		}
		return []*Outcome{{St: c.St, Results: []*AVal{v}}}
	case c.Name == "builtin.len" || c.Name == "builtin.cap":
		n := c.Name[8:]
		a := c.Args[0]
		if a.C != nil && a.C.Kind() == constant.String {
			return []*Outcome{{St: c.St, Results: []*AVal{fromConst(constant.MakeInt64(int64(len(constant.StringVal(a.C)))))}}}
		}
		if a.T == "nil" {
			return []*Outcome{{St: c.St, Results: []*AVal{fromConst(constant.MakeInt64(0))}}}
		}
		if a.N > 0 {
			return []*Outcome{{St: c.St, Results: []*AVal{fromConst(constant.MakeInt64(a.N))}}}
		}
		if a.Op == "makeslice" && n == "len" && len(a.Args) == 1 {
			return []*Outcome{{St: c.St, Results: []*AVal{a.Args[0]}}}
		}
		return []*Outcome{{St: c.St, Results: []*AVal{mk(n, n+"("+a.T+")", a)}}}
	case c.Name == "builtin.panic":
		return []*Outcome{{St: c.St, Panic: true}}
	case strings.HasPrefix(c.Name, "builtin."):
		if c.Name == "builtin.copy" && len(c.Args) == 2 {
			// copy(dst[:], src): the destination array takes the source's term
			d := c.Args[0]
			if d.Op == "slice" && len(d.Args) == 1 && d.Args[0].Op == "alloc" {
				e.store(c.St, d.Args[0], mk("copyof", "copy("+c.Args[1].T+")", c.Args[1]))
			}
		}
		return []*Outcome{{St: c.St, Results: []*AVal{mk(c.Name, fmt.Sprintf("%s#%d", c.Name, e.site(c.In)))}}}
	}
	return nil
}

func joinT(as []*AVal) string {
	var ss []string
	for _, a := range as {
		ss = append(ss, a.T)
	}
	return strings.Join(ss, ", ")
}

var purePkgs = map[string]bool{"bytes": true, "strings": true, "crypto/sha256": true, "encoding/hex": true,
	"encoding/base64": true, "path": true, "path/filepath": true, "errors": true, "strconv": true,
	"unicode": true, "math": true, "slices": true, "maps": true, "encoding/binary": true, "math/bits": true, "net/url": true}

func pureCall(name string) bool {
	i := strings.LastIndex(name, "/")
	j := strings.IndexByte(name[i+1:], '.')
	if j < 0 {
		return false
	}
	pk := name[:i+1+j]
	rest := name[i+2+j:]
	if purePkgs[pk] {
		return !strings.HasPrefix(rest, "(") // methods on stateful objects are not pure
	}
	if pk == "time" && strings.HasPrefix(rest, "Time.") {
		return true
	}
	if pk == "math/big" || pk == "crypto/x509" && strings.HasPrefix(rest, "(*Certificate)") {
		return true
	}
	return false
}

// callTerm builds the term of a single-result (or whole) call.
func (e *Engine) callTerm(c *CallCtx, forcePure bool) *AVal {
	if forcePure || pureCall(c.Name) || (c.Fn != nil && e.pureRepo(c.Fn)) {
		return mk("call:"+c.Name, c.Name+"("+joinT(c.Args)+")", c.Args...)
	}
	return mk("call:"+c.Name, fmt.Sprintf("%s#%d(%s)", c.Name, e.site(c.In), joinT(c.Args)), c.Args...)
}

var pureMemo = map[*ssa.Function]bool{}

// pureRepo: the function neither stores to non-local memory nor calls anything impure.
func (e *Engine) pureRepo(fn *ssa.Function) bool {
	if v, ok := pureMemo[fn]; ok {
		return v
	}
	if len(fn.Blocks) == 0 {
		pureMemo[fn] = pureCall(fname(fn))
		return pureMemo[fn]
	}
	pureMemo[fn] = true // optimistic for recursion
	ok := true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select:
				ok = false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ok = false
				}
			case *ssa.Call:
				com := x.Common()
				if _, isB := com.Value.(*ssa.Builtin); isB {
					if com.Value.Name() == "copy" && !localAddr(com.Args[0]) {
						ok = false
					}
					continue
				}
				f := com.StaticCallee()
				if f == nil {
					ok = false
				} else if isRepoFn(f) {
					if len(f.Blocks) == 0 || !e.pureRepo(f) {
						ok = false
					}
				} else if !pureCall(fname(f)) && !nonNilErr[fname(f)] {
					ok = false
				}
			}
		}
	}
	pureMemo[fn] = ok
	return ok
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	case *ssa.Slice:
		return localAddr(x.X)
	case *ssa.MakeSlice:
		return true
	}
	return false
}

// Opaque is the default effect of a call that is not simulated: results are symbolic; if the
// last result is an error the path splits into success and failure.
func (e *Engine) Opaque(c *CallCtx) []*Outcome {
	return e.Split(c, nil, nil)
}

func (e *Engine) havocArgs(c *CallCtx) {
	for _, a := range c.Args {
		if len(rootsIn(a.T)) > 0 && (a.Op == "alloc" || a.Op == "addr" || a.Fn != nil || a.Op == "slice") && !pureCall(c.Name) {
			// readers of a pointer rarely write it; only decoders and fillers are known to.
			if mayWriteArgs(c.Name) {
				e.havoc(c.St, a, e.site(c.In))
			}
		}
		for _, b := range a.Bind {
			if !pureCall(c.Name) {
				e.havoc(c.St, b, e.site(c.In))
			}
		}
	}
}

func mayWriteArgs(name string) bool {
	for _, s := range []string{"Unmarshal", "Decode", "Scan", "Read", "copy", "Sort", "sort", "Parse", "Do", "Wait", "dyn:", "Var"} {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

// Split yields the success and failure outcomes of an error-returning call and lets the rule
// adjust each; calls without an error result have one outcome.
func (e *Engine) Split(c *CallCtx, ok, fail func(st *State, rs []*AVal)) []*Outcome {
	sig := c.Sig
	n := sig.Results().Len()
	base := e.callTerm(c, false)
	e.havocArgs(c)
	var rs []*AVal
	for i := 0; i < n; i++ {
		var v *AVal
		if n == 1 {
			v = base
		} else {
			v = mk("extract", fmt.Sprintf("%s#%d", base.T, i), base)
			if base.T == "⊤" {
				v = mk("extract", fmt.Sprintf("ret%d#%d(%d)", i, i, e.site(c.In)), base)
			}
		}
		rs = append(rs, v)
	}
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) && !c.IsDefer {
		s1 := c.St.clone()
		r1 := append([]*AVal(nil), rs...)
		nv := mk("const", "nil")
		nv.Nil = no
		r1[n-1] = nv
		if ok != nil {
			ok(s1, r1)
		}
		s2 := c.St.clone()
		r2 := append([]*AVal(nil), rs...)
		r2[n-1] = rs[n-1].with(func(a *AVal) { a.Nil = yes })
		if fail != nil {
			fail(s2, r2)
		}
		s2.note(e.P.pos(c.In.Pos()) + " " + lastName(c.Name) + " fails")
		return []*Outcome{{St: s1, Results: r1}, {St: s2, Results: r2}}
	}
	s := c.St.clone()
	if ok != nil {
		ok(s, rs)
	}
	return []*Outcome{{St: s, Results: rs}}
}

func lastName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}
