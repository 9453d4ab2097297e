package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugRows = os.Getenv("FPKI_DEBUG") != ""

// spacer computes which rows a slice has: "in" for the parameters of the function, the call
// for the results of a call, the loop for what a loop collects; with what was done since.
type spacer struct {
	p    *Prog
	fn   *ssa.Function
	comp map[ssa.Value]*compaction // variables moved together by a compaction
	busy map[ssa.Value]bool
	deep int
}

// compaction is a call of a function of the repository with a closure func(to, from int).
type compaction struct {
	call ssa.Instruction
	cl   *ssa.Function
}

func newSpacer(p *Prog, fn *ssa.Function) *spacer {
	s := &spacer{p: p, fn: fn, comp: map[ssa.Value]*compaction{}, busy: map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Common().StaticCallee() == nil || !isRepoFn(c.Common().StaticCallee()) {
				continue
			}
			for _, a := range c.Call.Args {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				cl := mc.Fn.(*ssa.Function)
				if len(cl.Params) != 2 || !isInt(cl.Params[0].Type()) || !isInt(cl.Params[1].Type()) {
					continue
				}
				s.comp[mc] = &compaction{c, cl}
			}
		}
	}
	return s
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// moved: the closure of the compaction carries elements of the cell over.
func (k *compaction) moved(p *Prog, cell ssa.Value) bool {
	for i, fv := range k.cl.FreeVars {
		_ = i
		if boundTo(fv) != cell {
			continue
		}
		for _, u := range *fv.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(fv) {
					return true // re-assigned: appended to
				}
			case *ssa.UnOp:
				for _, w := range *y.Referrers() {
					if ia, ok := w.(*ssa.IndexAddr); ok {
						for _, z := range *ia.Referrers() {
							if st, ok := z.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (k *compaction) appends(cell ssa.Value) bool {
	for _, fv := range k.cl.FreeVars {
		if boundTo(fv) != cell {
			continue
		}
		for _, u := range *fv.Referrers() {
			if y, ok := u.(*ssa.Store); ok && y.Addr == ssa.Value(fv) {
				return true
			}
		}
	}
	return false
}

func (s *spacer) of(v ssa.Value) string {
	if v == nil || s.busy[v] || s.deep > 30 {
		return ""
	}
	s.busy[v] = true
	s.deep++
	defer func() { delete(s.busy, v); s.deep-- }()
	switch x := v.(type) {
	case *ssa.Parameter:
		return "in"
	case *ssa.Const:
		return ""
	case *ssa.ChangeType:
		return s.of(x.X)
	case *ssa.MakeSlice:
		return s.lenOf(x.Len)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "call@" + s.p.pos(c.Pos())
		}
	case *ssa.Slice:
		base := s.of(x.X)
		if base == "" {
			return ""
		}
		if strings.HasPrefix(base, "untrimmed:") && (x.Low == nil || isZero(x.Low)) && x.High != nil {
			return "kept:" + strings.TrimPrefix(base, "untrimmed:")
		}
		if (x.Low == nil || isZero(x.Low)) && x.High == nil {
			return base
		}
		if k, ok := intConst2(x.High); ok && k == 0 {
			return ""
		}
		n := func(v ssa.Value) string {
			if v == nil {
				return ""
			}
			if c, ok := v.(*ssa.Const); ok {
				return c.Value.ExactString()
			}
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return "len " + valPath(c.Call.Args[0])
				}
			}
			return v.Name()
		}
		return base + "[" + n(x.Low) + ":" + n(x.High) + "]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.cell(x)
		}
	case *ssa.Phi:
		if isLoopHead(x.Block()) {
			return s.loopPhi(x)
		}
		r := ""
		for i, e := range x.Edges {
			t := s.of(e)
			if i > 0 && t != r {
				return ""
			}
			r = t
		}
		return r
	case *ssa.Call:
		return s.callSpace(x)
	}
	return ""
}

func isZero(v ssa.Value) bool { k, ok := intConst(v); return ok && k == 0 }

func intConst2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 1, false
	}
	return intConst(v)
}

func (s *spacer) lenOf(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, sl := c.Call.Args[0].Type().Underlying().(*types.Slice); sl {
				return s.of(c.Call.Args[0])
			}
		}
	}
	return ""
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if isBackEdge(p, b) {
			return true
		}
	}
	return false
}

// loopPhi: a slice collected by appends in a loop.
func (s *spacer) loopPhi(x *ssa.Phi) string {
	in := loopBlocks(x.Block())
	var sites []*ssa.Call
	seen := map[ssa.Value]bool{}
	ok := true
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(x) {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			if !in[y.Block()] {
				return
			}
			for _, e := range y.Edges {
				back(e)
			}
		case *ssa.Call:
			if b, isB := y.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && in[y.Block()] {
				sites = append(sites, y)
				back(y.Call.Args[0])
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	for i, e := range x.Edges {
		if in[x.Block().Preds[i]] {
			back(e)
		}
	}
	if !ok || len(sites) == 0 {
		return ""
	}
	return s.collected(x.Block(), in, sites)
}

// collected: the rows that the appends of a loop collect.
func (s *spacer) collected(h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, sites []*ssa.Call) string {
	if len(sites) != 1 || variadicMany(sites[0]) {
		return ""
	}
	b := sites[0].Block()
	// the innermost loop around the append
	inner := h
	for _, g := range s.fn.Blocks {
		if g != h && in[g] && isLoopHead(g) && loopBlocks(g)[b] && (inner == h || loopBlocks(inner)[g]) {
			inner = g
		}
	}
	lin := loopBlocks(inner)
	whole := skipPath(inner, lin, map[*ssa.BasicBlock]bool{b: true}) == nil
	if inner == h && whole {
		if l := loopAt(h); l != nil && l.First == 0 && l.Step == 1 && l.Short == 0 {
			if sp := s.of(l.Over); sp != "" {
				return sp
			}
		}
		return "each@" + itoa(inner.Index)
	}
	if whole {
		return "each@" + itoa(inner.Index)
	}
	// collected under a condition: the place decides
	for {
		if len(b.Preds) == 1 && len(b.Preds[0].Succs) == 1 {
			b = b.Preds[0]
			continue
		}
		break
	}
	return "some@" + itoa(b.Index)
}

func variadicMany(c *ssa.Call) bool {
	if len(c.Call.Args) != 2 {
		return true
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return true
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return true
	}
	a, ok := deref(al.Type()).Underlying().(*types.Array)
	return !ok || a.Len() != 1
}

// cell: the value of a variable at a load, when one store is known to reach it.
func (s *spacer) cell(ld *ssa.UnOp) string {
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return ""
	}
	var st *ssa.Store
	for _, u := range *al.Referrers() {
		y, ok := u.(*ssa.Store)
		if !ok || y.Addr != ssa.Value(al) {
			continue
		}
		switch {
		case !before(y, ld):
			if !before(ld, y) && reaches(y.Block(), ld.Block()) || loopsTo(y.Block(), ld.Block()) {
				return "" // may intervene
			}
		case st == nil || before(st, y):
			st = y
		case !before(y, st):
			return ""
		}
	}
	if st == nil {
		return ""
	}
	base := s.of(st.Val)
	// a compaction between the store and the load
	for _, k := range s.comp {
		if !k.moved(s.p, al) || !before(st, k.call) {
			continue
		}
		if !before(k.call, ld) {
			if !before(ld, k.call) && reaches(k.call.Block(), ld.Block()) || loopsTo(k.call.Block(), ld.Block()) {
				return ""
			}
			continue
		}
		if k.appends(al) {
			return "kept:" + s.p.pos(k.call.Pos())
		}
		return "untrimmed:" + s.p.pos(k.call.Pos())
	}
	// re-assigned in a closure: not known
	for _, u := range cellUses(al) {
		if y, ok := u.(*ssa.Store); ok && y.Parent() != s.fn {
			if _, isFV := y.Addr.(*ssa.FreeVar); isFV {
				known := false
				for _, k := range s.comp {
					known = known || k.cl == y.Parent()
				}
				if !known {
					return ""
				}
			}
		}
	}
	return base
}

// before: a is executed before b whenever b is.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return a != b
		}
		if i == b {
			return false
		}
	}
	return false
}

// loopsTo: control goes from the end of a to the beginning of b.
func loopsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if f(y) {
					return true
				}
			}
		}
		return false
	}
	return f(a)
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if f(y) {
					return true
				}
			}
		}
		return false
	}
	return a == b || f(a)
}

func (s *spacer) callSpace(x *ssa.Call) string {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && !isLoopy(x) {
			return ""
		}
		return ""
	}
	g := x.Common().StaticCallee()
	if g == nil || !isRepoFn(g) || len(g.Blocks) == 0 {
		return ""
	}
	var arg ssa.Value
	for _, a := range x.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			if arg != nil {
				return ""
			}
			arg = a
		}
	}
	if arg == nil {
		return ""
	}
	in := &spacer{p: s.p, fn: g, comp: map[ssa.Value]*compaction{}, busy: map[ssa.Value]bool{}, deep: s.deep + 5}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 || in.of(r.Results[0]) != "in" {
				return ""
			}
		}
	}
	return s.of(arg)
}

func isLoopy(x *ssa.Call) bool { return false }

// rowSink: the call takes several slices whose elements at one index belong together.
func rowSink(p *Prog, c ssa.CallInstruction) bool {
	com := c.Common()
	if com.IsInvoke() {
		return strings.HasPrefix(calleeName(com), dbConnPkg+".") && tableOf(com.Method.Name()) != nil
	}
	g := com.StaticCallee()
	if g == nil || pkgOf(g) != updPkg {
		return false
	}
	n := 0
	for _, pa := range g.Params {
		if rowSlice(pa.Type()) {
			n++
		}
	}
	return n > 1 && p.reachesInstr(g, func(f *ssa.Function, in ssa.Instruction) bool {
		k, ok := in.(ssa.CallInstruction)
		return ok && k.Common().IsInvoke() && tableOf(k.Common().Method.Name()) != nil
	}, updPkg)
}

func rowSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return false // a mask of the batch before it is compacted
	}
	_, iface := sl.Elem().Underlying().(*types.Interface)
	return !iface
}

// checkSpaces: the slices handed over together have the same rows.
func checkSpaces(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if isTestSupport(pkgOf(f)) || f.Synthetic != "" {
			continue
		}
		var s *spacer
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !rowSink(p, c) {
					continue
				}
				if s == nil {
					s = newSpacer(p, f)
				}
				n++
				key := "same-rows:" + lastName(calleeName(c.Common())) + "@" + fname(f)
				r.Ob(key, p.pos(c.Pos()), "the slices handed over together have the same rows in the same order")
				first, name := "", ""
				for _, a := range c.Common().Args {
					if !rowSlice(a.Type()) {
						continue
					}
					sp := s.of(a)
					if debugRows {
						println("space", fname(f), lastName(calleeName(c.Common())), valName(a), sp)
					}
					if strings.HasPrefix(sp, "untrimmed:") {
						r.Bad(key, p.pos(c.Pos()), "the rows left over by the compaction are not cut off "+valName(a), "")
						continue
					}
					if sp == "" {
						continue
					}
					if first == "" {
						first, name = sp, valName(a)
					} else if sp != first && !(strings.HasPrefix(sp, "some@") && strings.HasSuffix(first, "]")) && !(strings.HasPrefix(first, "some@") && strings.HasSuffix(sp, "]")) {
						r.Bad(key, p.pos(c.Pos()), valName(a)+" does not have the same rows as "+name+" ("+spaceText(sp)+" / "+spaceText(first)+")", "")
					}
				}
			}
		}
	}
	r.Floor("calls that take slices of one batch", n, 4)
}

func spaceText(s string) string {
	switch {
	case s == "in":
		return "all rows of the parameters"
	case strings.HasPrefix(s, "kept:"):
		return "the rows kept by the compaction at " + s[5:]
	case strings.HasPrefix(s, "call@"):
		return "the rows returned by the call at " + s[5:]
	}
	return s
}

func valName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return valName(x.X)
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Slice:
		return valName(x.X)
	case *ssa.Extract:
		return "result " + itoa(x.Index)
	case *ssa.Call:
		return lastName(calleeName(x.Common())) + "()"
	}
	return v.Name()
}

// checkAligned: inside a loop over a batch, the other slices of the batch are read at the
// index of the loop; and a compaction moves the element it is told to.
func checkAligned(p *Prog, r *Rep, chains map[*ssa.Function]bool) {
	n := 0
	for _, f := range p.Funcs {
		if !inRowScope(f) || topFn(f).Name() == "Qsort" {
			continue
		}
		idx := map[ssa.Value]bool{}
		type lp struct {
			in   map[*ssa.BasicBlock]bool
			l    *sliceLoop
			over string
		}
		var loops []lp
		for h := range elemLoops(f) {
			if l := loopAt(h); l != nil {
				loops = append(loops, lp{loopBlocks(h), l, ""})
				idx[l.Idx] = true
			}
		}
		for _, lo := range loops {
			if lo.l.First != 0 || lo.l.Step != 1 || lo.l.Short != 0 {
				continue
			}
			for b := range lo.in {
				for _, i := range b.Instrs {
					ia, ok := i.(*ssa.IndexAddr)
					if !ok || !onlyRead(ia) {
						continue
					}
					if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					if xi, ok := ia.X.(ssa.Instruction); ok && lo.in[xi.Block()] {
						if ld, ok := xi.(*ssa.UnOp); !ok || !constCell(ld, lo.in) {
							continue
						}
					}
					n++
					key := "aligned@" + fname(f)
					r.Ob(key, p.pos(ia.Pos()), "a loop over a batch reads the other slices of the batch at its own index")
					if idx[ia.Index] {
						continue
					}
					if _, isC := intConst(ia.Index); isC && carried(ia, lo.in) {
						r.Bad(key, p.pos(ia.Pos()), "every row gets the element at one fixed index", "")
					}
					if c, isCall := ia.Index.(*ssa.Call); isCall && lo.in[c.Block()] && carried(ia, lo.in) {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							r.Bad(key, p.pos(ia.Pos()), "a row gets the element at the number of rows so far, not the one of its own index", "")
						}
					}
					if bo, ok := ia.Index.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && (idx[bo.X] || idx[bo.Y]) && !chains[f] && carried(ia, lo.in) {
						r.Bad(key, p.pos(ia.Pos()), "a row gets the element of another one (index "+bo.String()+")", "")
					}
				}
			}
		}
		// compactions
		s := newSpacer(p, f)
		for _, k := range s.comp {
			to, from := k.cl.Params[0], k.cl.Params[1]
			for _, g := range fnAndClosures(k.cl) {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						ia, ok := i.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
							continue
						}
						if ia.Index != ssa.Value(to) && ia.Index != ssa.Value(from) {
							continue
						}
						n++
						key := "moved@" + fname(f)
						r.Ob(key, p.pos(ia.Pos()), "a compaction moves the element it is told to")
						if onlyRead(ia) && ia.Index == ssa.Value(to) {
							r.Bad(key, p.pos(ia.Pos()), "the element is taken from the place it should go to", "")
						}
						for _, u := range *ia.Referrers() {
							st, ok := u.(*ssa.Store)
							if !ok || st.Addr != ssa.Value(ia) {
								continue
							}
							if ia.Index == ssa.Value(from) {
								r.Bad(key, p.pos(ia.Pos()), "the element is put at the place it was taken from", "")
							}
							if src := srcCell(st.Val); src != nil && cellOf(ia.X) != nil && src != cellOf(ia.X) {
								r.Bad(key, p.pos(ia.Pos()), "an element of another slice is put there", "")
							}
						}
					}
				}
			}
			checkCompactor(p, r, k)
		}
	}
	r.Floor("element reads in loops over a batch", n, 5)
}

func cellOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		return u.X
	}
	return v
}

// srcCell: the variable of the slice whose element the value is.
func srcCell(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return cellOf(ia.X)
		}
	}
	return nil
}

// checkCompactor: the function that drives the compaction goes through the whole mask with
// the index of the element as second and the number of elements kept so far as first
// argument.
func checkCompactor(p *Prog, r *Rep, k *compaction) {
	g := k.call.(*ssa.Call).Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return
	}
	for h := range elemLoops(g) {
		l := loopAt(h)
		if l == nil {
			continue
		}
		in := loopBlocks(h)
		for b := range in {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() != nil || len(c.Call.Args) != 2 {
					continue
				}
				if _, isP := c.Call.Value.(*ssa.Parameter); !isP {
					continue
				}
				key := "moved@" + fname(g)
				r.Ob(key, p.pos(c.Pos()), "the compaction is told to move the current element to the next free place")
				if c.Call.Args[1] != l.Idx {
					r.Bad(key, p.pos(c.Pos()), "the element to move is not the current one", "")
				}
				if skipsByBounds(h) != "" {
					r.Bad(key, p.pos(c.Pos()), "the compaction does not visit every element of the mask", "")
				}
				ph, isPhi := c.Call.Args[0].(*ssa.Phi)
				if !isPhi {
					r.Bad(key, p.pos(c.Pos()), "the place to move to is not the number of elements kept so far", "")
					continue
				}
				// the counter goes up exactly where an element is moved
				for bb := range in {
					for _, ii := range bb.Instrs {
						if a, ok := ii.(*ssa.BinOp); ok && a.Op == token.ADD && (a.X == ssa.Value(ph)) {
							if !(bb.Dominates(b) || b.Dominates(bb)) || skipsOne(in, b, bb) {
								r.Bad(key, p.pos(a.Pos()), "the number of elements kept goes up where none is moved", "")
							}
						}
					}
				}
			}
		}
	}
}

// skipsOne: one of the two blocks can be executed in an iteration without the other.
func skipsOne(in map[*ssa.BasicBlock]bool, a, b *ssa.BasicBlock) bool {
	if a == b {
		return false
	}
	first, second := a, b
	if b.Dominates(a) {
		first, second = b, a
	}
	// from first, every path inside the loop passes second
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		if x == second {
			return false
		}
		for _, y := range x.Succs {
			if isBackEdge(x, y) {
				return true
			}
			if in[y] && !seen[y] {
				seen[y] = true
				if f(y) {
					return true
				}
			}
		}
		return false
	}
	return f(first)
}

func onlyRead(ia *ssa.IndexAddr) bool {
	for _, u := range *ia.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(ia) {
				return false
			}
		case *ssa.UnOp, *ssa.Slice, *ssa.FieldAddr, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// constCell: a load, inside the loop, of a variable that the loop does not assign.
func constCell(ld *ssa.UnOp, in map[*ssa.BasicBlock]bool) bool {
	switch ld.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
	default:
		return false
	}
	for _, u := range *ld.X.Referrers() {
		if st, ok := u.(*ssa.Store); ok && in[st.Block()] && st.Addr == ld.X {
			return false
		}
	}
	return true
}

// carried: the element goes into something that outlives the iteration.
func carried(ia *ssa.IndexAddr, in map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == nil || seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Val == v {
					if a, ok := baseAddr(y.Addr).(*ssa.Alloc); ok && in[a.Block()] {
						if f(a) {
							return true
						}
						continue
					}
					return true
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						return true
					}
					continue
				}
				if f(y) {
					return true
				}
			case ssa.Value:
				if bo, ok := y.(*ssa.BinOp); ok {
					switch bo.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
						continue
					}
				}
				if f(y) {
					return true
				}
			case *ssa.MapUpdate, *ssa.Send:
				return true
			}
		}
		return false
	}
	return f(ia)
}

// chainPlace is the place in the chains of a function that a value comes from: the collection
// (a parameter or the variable of a loop over it) and the indices into it; "" when the value
// is made of something else, "nil" for nil.
func chainPlace(v ssa.Value, depth int) string {
	if depth > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return chainPlace(x.X, depth+1)
		}
	case *ssa.FieldAddr:
		return chainPlace(x.X, depth+1)
	case *ssa.Field:
		return chainPlace(x.X, depth+1)
	case *ssa.Alloc:
		st := cellStores(x)
		if len(st) == 1 {
			return chainPlace(st[0], depth+1)
		}
	case *ssa.IndexAddr:
		b := chainPlace(x.X, depth+1)
		if b == "" {
			return ""
		}
		return b + "[" + indexText(x.Index) + "]"
	case *ssa.Slice:
		b := chainPlace(x.X, depth+1)
		if b == "" || x.High != nil {
			return ""
		}
		if x.Low == nil {
			return b
		}
		return b + "[" + indexText(x.Low) + ":]"
	case *ssa.Phi:
		if isLoopHead(x.Block()) {
			// the collection that a loop goes on with: named by where it starts
			for i, e := range x.Edges {
				if !isBackEdge(x.Block().Preds[i], x.Block()) {
					if p, ok := e.(*ssa.Parameter); ok {
						return p.Name()
					}
				}
			}
			return ""
		}
		r := ""
		for _, e := range x.Edges {
			t := chainPlace(e, depth+1)
			if t == "nil" {
				continue
			}
			if t == "" || r != "" && r != t {
				return ""
			}
			r = t
		}
		return r
	case *ssa.Call:
		// the hash of the one thing it is given
		if !strings.Contains(calleeName(x.Common()), "SHA256Hash") || len(x.Call.Args) != 1 {
			return ""
		}
		if sl, ok := x.Call.Args[0].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				r := ""
				for _, w := range storedInto(al) {
					t := chainPlace(w, depth+1)
					if r != "" && t != r {
						return ""
					}
					r = t
				}
				return r
			}
		}
	}
	return ""
}

func indexText(v ssa.Value) string {
	if k, ok := intConst(v); ok {
		return itoa(int(k))
	}
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if k, ok := intConst(bo.Y); ok && k == 1 {
			if ph, ok := bo.X.(*ssa.Phi); !ok || !isRangeIndex(ph, bo) {
				return indexText(bo.X) + "+1"
			}
		}
	}
	return v.Name()
}

// isRangeIndex: the phi is the hidden variable of a range loop, and next its increment.
func isRangeIndex(ph *ssa.Phi, next *ssa.BinOp) bool {
	if ph.Comment != "rangeindex" {
		return false
	}
	for _, e := range ph.Edges {
		if e == ssa.Value(next) {
			return true
		}
	}
	return false
}

func indexAfter(ix string) string {
	n := 0
	if ix == "" {
		return ""
	}
	for _, c := range ix {
		if c < '0' || c > '9' {
			return ix + "+1"
		}
		n = n*10 + int(c-'0')
	}
	return itoa(n + 1)
}

// checkUnfold: in the functions that unfold certificates and their chains, the identifier
// and the parent recorded for a certificate are those of its own place in the chain.
func checkUnfold(p *Prog, r *Rep) map[*ssa.Function]bool {
	n := 0
	done := map[*ssa.Function]bool{}
	split := func(pl string) (string, string) { // base and last index
		i := strings.LastIndex(pl, "[")
		if i < 0 || !strings.HasSuffix(pl, "]") {
			return "", ""
		}
		return pl[:i], pl[i+1 : len(pl)-1]
	}
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/util" || f.Parent() != nil || f.Signature.Results().Len() < 3 {
			continue
		}
		type app struct {
			kind, place string
			pos         token.Pos
			blk         *ssa.BasicBlock
		}
		byBlock := map[*ssa.BasicBlock][]app{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				kind := ""
				switch types.TypeString(c.Type(), func(q *types.Package) string { return q.Name() }) {
				case "[]x509.Certificate":
					kind = "cert"
				case "[]common.SHA256Output":
					kind = "id"
				case "[]*common.SHA256Output":
					kind = "parent"
				case "[][]*x509.Certificate":
					kind = "chain"
				default:
					continue
				}
				pl := ""
				for _, v := range accumulated(c) {
					pl = chainPlace(v, 0)
				}
				// the block that decides: appends behind a join belong to the block before it
				k := b
				for d := b.Idom(); d != nil && len(b.Preds) > 1 && !isLoopHead(b) && kind == "parent"; d = d.Idom() {
					k = d
					break
				}
				byBlock[k] = append(byBlock[k], app{kind, pl, c.Pos(), b})
			}
		}
		for b, as := range byBlock {
			inLoop := false
			for _, h := range f.Blocks {
				inLoop = inLoop || isLoopHead(h) && loopBlocks(h)[b]
			}
			at, ids, parents, chains := "", "", "", ""
			for _, a := range as {
				switch a.kind {
				case "cert":
					at = a.place
				case "id":
					ids = a.place
				case "parent":
					parents = a.place
				case "chain":
					chains = a.place
				}
			}
			if parents != "" {
				done[f] = true
			}
			base, ix := split(at)
			under := false
			for d := b.Idom(); base == "" && d != nil; d = d.Idom() {
				// recorded apart from its certificate, under a condition
				for _, a := range byBlock[d] {
					if a.kind == "cert" {
						base, ix = split(a.place)
						under = true
					}
				}
			}
			if base == "" {
				continue
			}
			key := "unfolded@" + fname(f)
			pos := p.pos(as[0].pos)
			if ids != "" {
				n++
				r.Ob(key, pos, "the identifier of an unfolded certificate is the one of its place in the chain")
				if b2, i2 := split(ids); b2 == "" || i2 != ix {
					r.Bad(key, pos, "the identifier is taken from another place of the chain ("+ids+") than the certificate ("+at+")", "")
				}
			}
			if parents != "" {
				n++
				done[f] = true
				r.Ob(key, pos, "the parent of an unfolded certificate is the next one of its chain")
				b2, i2 := split(parents)
				b3, i3 := split(b2)
				switch {
				case parents == "nil":
					if inLoop && !under {
						r.Bad(key, pos, "a certificate inside the chain is recorded without its parent", "")
					}
				case b3 != "" && i3 == ix && i2 == "0" && b3 != base: // first of the chain that goes with the certificate
				case b3 == "" && b2 != "" && i2 == indexAfter(ix):
				default:
					r.Bad(key, pos, "the parent ("+parents+") is not the next certificate of the chain (the certificate is "+at+")", "")
				}
			}
			if chains != "" {
				n++
				r.Ob(key, pos, "what is left of the chain of a certificate is the chain of its parent")
				if ix != "0" || chains != base+"[1:]" {
					r.Bad(key, pos, "the rest of the chain ("+chains+") does not follow the certificate ("+at+")", "")
				}
			}
		}
	}
	if n == 0 {
		r.Note("the functions that unfold chains do not have the analysed form; their places in the chain are not decided")
	}
	return done
}

// checkHeldBack: a stage that keeps elements back until a batch is full hands the rest on
// when there is no more data.
func checkHeldBack(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if f.Parent() != nil || isTestSupport(pkgOf(f)) || pkgOf(f) == "pkg/pipeline" {
			continue
		}
		var process, flush []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				g := c.Common().StaticCallee()
				if o := g.Origin(); o != nil {
					g = o
				}
				if pkgOf(g) != "pkg/pipeline" {
					continue
				}
				switch g.Name() {
				case "WithProcessFunction":
					process = append(process, closureTargets(c.Call.Args[0])...)
				case "WithOnNoMoreData":
					flush = append(flush, closureTargets(c.Call.Args[0])...)
				}
			}
		}
		for _, pf := range process {
			cell := heldBack(pf)
			if cell == nil {
				continue
			}
			n++
			key := "flush@" + fname(f)
			r.Ob(key, p.pos(pf.Pos()), "what a stage keeps back is handed on when there is no more data")
			ok := false
			for _, ff := range flush {
				if sends(ff) {
					ok = true
				}
			}
			if !ok {
				r.Bad(key, p.pos(pf.Pos()), "the stage keeps elements back and nothing hands them on when there is no more data", "")
			}
		}
	}
	r.Floor("stages that keep elements back", n, 1)
}

// heldBack: the process function returns nothing, without error, on a path where it stored
// the element.
func heldBack(f *ssa.Function) ssa.Instruction {
	if len(f.Params) != 1 {
		return nil
	}
	var kept ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Signature.Recv() == nil {
				continue
			}
			g := c.Common().StaticCallee()
			if !isRepoFn(g) || !appendsParam(g) {
				continue
			}
			kept = in
		}
	}
	if kept == nil {
		return nil
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 3 {
			continue
		}
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
		if isNil(resultAt(r, 0)) && isNil(resultAt(r, 2)) && before(kept, r) {
			return kept
		}
	}
	return nil
}

// resultAt is what a return returns, looking through the variables of named results.
func resultAt(r *ssa.Return, i int) ssa.Value {
	v := r.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, in := range r.Block().Instrs {
		if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			v = s.Val
		}
	}
	return v
}

// appendsParam: the method appends its parameter to a field of the receiver.
func appendsParam(g *ssa.Function) bool {
	if len(g.Params) != 2 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					for _, v := range accumulated(c) {
						if v == ssa.Value(g.Params[1]) {
							return true
						}
						if u, ok := v.(*ssa.UnOp); ok {
							if al, ok := u.X.(*ssa.Alloc); ok {
								for _, s := range cellStores(al) {
									if s == ssa.Value(g.Params[1]) {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// sends: the function can return something to hand on.
func sends(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			if c, ok := resultAt(r, 0).(*ssa.Const); !ok || !c.IsNil() {
				return true
			}
		}
	}
	return false
}
