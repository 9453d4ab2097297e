package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A drop is a loop over a collection that puts something into an accumulator for some of the
// elements while the loop can go on to the next element without having done so.
type drop struct {
	Head *ssa.BasicBlock
	Acc  ssa.Instruction // an accumulating instruction
	Over ssa.Value       // the collection
	Via  *ssa.BasicBlock // block at whose end the path that skips the element begins
}

// elemLoops lists the headers of the loops of fn that visit the elements of a collection,
// with the collection.
func elemLoops(fn *ssa.Function) map[*ssa.BasicBlock]ssa.Value {
	out := map[*ssa.BasicBlock]ssa.Value{}
	for _, h := range fn.Blocks {
		if l := loopAt(h); l != nil {
			out[h] = l.Over
			continue
		}
		back := false
		for _, p := range h.Preds {
			back = back || isBackEdge(p, h)
		}
		if !back {
			continue
		}
		for _, in := range h.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					out[h] = r.X
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && x.CommaOk {
					out[h] = x.X
				}
			}
		}
	}
	return out
}

// accums lists what a loop accumulates into: accumulator -> instructions.
func accums(h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) map[ssa.Value][]ssa.Instruction {
	out := map[ssa.Value][]ssa.Instruction{}
	for b := range in {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if a := accRoot(x.Call.Args[0], in); a != nil {
						out[a] = append(out[a], i)
					}
					continue
				}
				// a call that fills (or takes) a row of fields
				if a := rowArg(x); a != nil {
					if root := accRoot(a, in); root != nil {
						out[root] = append(out[root], i)
					}
					continue
				}
				// a method of the repository that appends its parameter to what the receiver has
				if g := x.Common().StaticCallee(); g != nil && isRepoFn(g) && g.Signature.Recv() != nil && appendsParam(g) {
					if a := recvRoot(x.Call.Args[0]); a != nil {
						out[a] = append(out[a], i)
					}
				}
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if _, sl := ia.X.Type().Underlying().(*types.Slice); !sl {
					continue
				}
				if a := accRoot(ia.X, in); a != nil {
					out[a] = append(out[a], i)
				}
			}
		}
	}
	return out
}

// rowArg: the argument of a call of the repository that is a row of fields.
func rowArg(c *ssa.Call) ssa.Value {
	if _, isB := c.Call.Value.(*ssa.Builtin); isB || c.Call.IsInvoke() || len(c.Call.Args) < 2 || c.Common().Signature().Results().Len() > 0 {
		return nil
	}
	if g := c.Common().StaticCallee(); g != nil && !isRepoFn(g) {
		return nil
	}
	for _, a := range c.Call.Args {
		sl, ok := a.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if e, ok := sl.Elem().Underlying().(*types.Slice); ok {
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if u, ok := a.(*ssa.UnOp); ok {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						return ia.X
					}
				}
				return a
			}
		}
	}
	return nil
}

// recvRoot is the variable that the receiver of a method call is part of.
func recvRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.FreeVar, *ssa.Parameter, *ssa.Alloc, *ssa.Global:
			return v
		default:
			return nil
		}
	}
}

// accRoot is the value or cell that lives across iterations and that v comes from.
func accRoot(v ssa.Value, in map[*ssa.BasicBlock]bool) ssa.Value {
	return accRootSeen(v, in, map[ssa.Value]bool{})
}

func accRootSeen(v ssa.Value, in map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) ssa.Value {
	for !seen[v] {
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !in[i.Block()] {
			return v
		}
		switch x := v.(type) {
		case *ssa.Phi:
			// the value on entry to the loop
			var from ssa.Value
			for k, e := range x.Edges {
				if !in[x.Block().Preds[k]] {
					from = e
				}
			}
			if from != nil {
				return x
			}
			for _, e := range x.Edges {
				if r := accRootSeen(e, in, seen); r != nil {
					return r
				}
			}
			return nil
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				v = x.Call.Args[0]
				continue
			}
			return nil
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return nil
			default:
				return a
			}
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// drops finds the loops of fn that can skip an element.
func drops(fn *ssa.Function) []drop {
	var out []drop
	for h, over := range elemLoops(fn) {
		in := loopBlocks(h)
		for acc, sites := range accums(h, in) {
			// sites inside a nested loop over something else are judged there: what counts
			// here is whether that loop is reached
			hit := map[*ssa.BasicBlock]bool{}
			for _, s := range sites {
				hit[s.Block()] = true
				for g := range elemLoops(fn) {
					if g != h && in[g] && loopBlocks(g)[s.Block()] {
						hit[g] = true
					}
				}
			}
			via := skipPath(h, in, hit)
			if via != nil {
				out = append(out, drop{h, sites[0], over, via})
			}
			_ = acc
		}
	}
	return out
}

// skipPath: a path from the loop body back to the header that avoids the given blocks; it
// returns the last block on the path that could still have reached one of them.
func skipPath(h *ssa.BasicBlock, in, hit map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	if hit[h] {
		return nil
	}
	type st struct{ b *ssa.BasicBlock }
	prev := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	var work []*ssa.BasicBlock
	for _, s := range h.Succs {
		if in[s] && !hit[s] && s != h {
			work = append(work, s)
			prev[s] = h
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, s := range b.Succs {
			if s == h {
				// find the decision
				for x := b; x != nil && x != h; x = prev[x] {
					if len(x.Succs) > 1 && canReach(x, h, in, hit) {
						return x
					}
				}
				return b
			}
			if !in[s] || hit[s] {
				continue
			}
			if _, ok := prev[s]; !ok {
				prev[s] = b
				work = append(work, s)
			}
		}
	}
	return nil
}

func canReach(from, h *ssa.BasicBlock, in, hit map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(b *ssa.BasicBlock) bool
	f = func(b *ssa.BasicBlock) bool {
		if b == h || !in[b] || seen[b] {
			return false
		}
		seen[b] = true
		if hit[b] {
			return true
		}
		for _, s := range b.Succs {
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(from)
}

// checkLossless reports the loops of the functions that can leave out an element, except
// where nothing is left out: constant marks, filters by type, elements whose key was seen
// before, parts taken from an empty or absent whole, and decisions taken by a function of
// the repository (which are its own business).
func checkLossless(p *Prog, r *Rep, fns []*ssa.Function) int {
	n := 0
	for _, f := range fns {
		loops := elemLoops(f)
		if len(loops) == 0 {
			continue
		}
		ds := map[*ssa.BasicBlock][]drop{}
		for _, d := range drops(f) {
			ds[d.Head] = append(ds[d.Head], d)
		}
		for h := range loops {
			if len(accums(h, loopBlocks(h))) == 0 {
				continue
			}
			n++
			key := "complete-loop@" + fname(f)
			r.Ob(key, p.pos(f.Pos()), "a loop that carries elements over leaves none of them out")
			if w := skipsByBounds(h); w != "" {
				r.Bad(key, p.pos(h.Instrs[len(h.Instrs)-1].Pos()), w, "")
			}
			if b := breaksOut(h); b != nil {
				r.Bad(key, p.pos(b.Instrs[len(b.Instrs)-1].Pos()), "the loop can end before it visited every element", "left from block "+b.Comment+" of "+fname(f))
			}
			for _, d := range ds[h] {
				if !excused(p, d) {
					// skipped because something kept between calls says it was seen before: named
					// by what is skipped, wherever the loop is
					if t := seenBefore(d); t != "" {
						k := "seen-before:" + t
						r.Ob(k, p.pos(d.Acc.Pos()), "an element is skipped as seen before only if what was seen before is the same in all it carries")
						r.Bad(k, p.pos(d.Acc.Pos()), "an element is skipped because its key was seen before, but the key does not cover all that is carried over", "decided in block "+d.Via.Comment+" of "+fname(f))
						continue
					}
					r.Bad(key, p.pos(d.Acc.Pos()), "an element of the collection can be left out: the loop can go on to the next one without carrying it over", "decided in block "+d.Via.Comment+" of "+fname(f))
				}
			}
		}
	}
	return n
}

// skipsByBounds: the loop starts after the first element or strides, and carries single
// elements over.
func skipsByBounds(h *ssa.BasicBlock) string {
	l := loopAt(h)
	if l == nil || l.First == 0 && l.Step == 1 && l.Short == 0 {
		return ""
	}
	if l.First == 0 && l.Step == 1 && restHandled(l) {
		return ""
	}
	if l.First == 0 && l.Step == 1 {
		return "the loop ends before the last element"
	}
	return "the loop does not start at the first element or does not advance one by one"
}

// restHandled: what the loop leaves out at the end is read where the loop ended, or at the
// last index elsewhere in the function.
func restHandled(l *sliceLoop) bool {
	in := loopBlocks(l.Head)
	for _, b := range l.Head.Parent().Blocks {
		if in[b] {
			continue
		}
		for _, i := range b.Instrs {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if ia.Index == l.Idx {
				return true
			}
			if _, short, ok := lenMinus(ia.Index); ok && short <= l.Short {
				return true
			}
		}
	}
	return false
}

// lenMinus: len(s) - k with a constant k.
func lenMinus(v ssa.Value) (over ssa.Value, k int64, ok bool) {
	sub, is := v.(*ssa.BinOp)
	if !is || sub.Op != token.SUB {
		return nil, 0, false
	}
	k, ok = intConst(sub.Y)
	if !ok || k <= 0 {
		return nil, 0, false
	}
	c, is := sub.X.(*ssa.Call)
	if !is {
		return nil, 0, false
	}
	if b, is := c.Call.Value.(*ssa.Builtin); !is || b.Name() != "len" {
		return nil, 0, false
	}
	return c.Call.Args[0], k, true
}

// breaksOut: a block other than the header that leaves the loop for anything but a failure.
func breaksOut(h *ssa.BasicBlock) *ssa.BasicBlock {
	in := loopBlocks(h)
	l := loopAt(h)
	for b := range in {
		if b == h && (l == nil || l.Test == h) || l != nil && b == l.Test {
			continue
		}
		for _, s := range b.Succs {
			if in[s] {
				continue
			}
			if !failsFrom(s, 0) && !endsHere(h, in, b) {
				return b
			}
		}
	}
	return nil
}

// endsHere: the loop is left at the last index, or where the element is absent.
func endsHere(h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := br.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ && bo.Op != token.GEQ && bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.GTR {
		return false
	}
	if l := loopAt(h); l != nil {
		for _, v := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if v[0] != ssa.Value(l.Idx) {
				continue
			}
			if last, ok := v[1].(*ssa.BinOp); ok && last.Op == token.SUB {
				if k, ok := intConst(last.Y); ok && k == 1 {
					if c, ok := last.X.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							return true
						}
					}
				}
			}
		}
	}
	elem, null := bo.X, bo.Y
	if c, ok := elem.(*ssa.Const); ok && c.IsNil() {
		elem, null = null, elem
	}
	if c, ok := null.(*ssa.Const); ok && c.IsNil() {
		for _, sites := range accums(h, in) {
			for _, s := range sites {
				if takenFrom(s, elem) {
					return true
				}
			}
		}
	}
	return false
}

// failsFrom: control that gets to the block ends in a panic or returns an error.
func failsFrom(b *ssa.BasicBlock, depth int) bool {
	if depth > 6 || len(b.Instrs) == 0 {
		return false
	}
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		if len(x.Results) == 0 {
			return false
		}
		l := x.Results[len(x.Results)-1]
		c, isC := l.(*ssa.Const)
		return isErrorType(l.Type()) && !(isC && c.IsNil())
	}
	for _, s := range b.Succs {
		if !failsFrom(s, depth+1) {
			return false
		}
	}
	return len(b.Succs) > 0
}

func indexOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return nil
}

func excused(p *Prog, d drop) bool {
	in := loopBlocks(d.Head)
	// constant marks
	if s, ok := d.Acc.(*ssa.Store); ok {
		if _, ok := s.Val.(*ssa.Const); ok {
			return true
		}
	}
	br, ok := d.Via.Instrs[len(d.Via.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	return excusedCond(p, br.Cond, d, in, 0)
}

func excusedCond(p *Prog, cond ssa.Value, d drop, in map[*ssa.BasicBlock]bool, depth int) bool {
	if depth > 4 {
		return true
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return excusedCond(p, x.X, d, in, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); !ok && !excusedCond(p, e, d, in, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return true
		case *ssa.Lookup:
			return updatedIn(t.X, in) && coversElement(t.Index, d, in)
		case *ssa.Call:
			return isRepoCall(p, t)
		}
	case *ssa.Lookup:
		return updatedIn(x.X, in) && coversElement(x.Index, d, in)
	case *ssa.Call:
		if n := calleeName(x.Common()); lastName(n) == "Contains" || lastName(n) == "Has" {
			args := x.Call.Args
			return len(args) > 0 && coversElement(args[len(args)-1], d, in)
		}
		return isRepoCall(p, x)
	case *ssa.BinOp:
		// the number of elements at the same place of a parallel slice is zero
		num, zero := x.X, x.Y
		if _, ok := intConst(num); ok {
			num, zero = zero, num
		}
		if k, ok := intConst(zero); ok && k == 0 {
			if ix := indexOf(num); ix != nil {
				same := false
				inputs(accumulated(d.Acc), func(v ssa.Value) bool {
					if ia, ok := v.(*ssa.IndexAddr); ok && ia.Index == ix {
						same = true
					}
					return !same
				})
				if b, isInt := num.Type().Underlying().(*types.Basic); same && isInt && b.Info()&types.IsInteger != 0 {
					return true
				}
			}
		}
		// the emptiness or absence of the whole that the element is taken from
		for _, v := range []ssa.Value{x.X, x.Y} {
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					v = c.Call.Args[0]
				}
			}
			if _, ok := v.(*ssa.Const); !ok && (takenFrom(d.Acc, v) || inLoopOver(d, in, v)) {
				return true
			}
		}
	}
	return isMask(cond)
}

// isMask: the condition is an element of a slice of marks.
func isMask(cond ssa.Value) bool {
	u, ok := cond.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	sl, ok := ia.X.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// inLoopOver: what is carried over is carried over by a nested loop over v.
func inLoopOver(d drop, in map[*ssa.BasicBlock]bool, v ssa.Value) bool {
	for g, over := range elemLoops(d.Head.Parent()) {
		if g != d.Head && in[g] && loopBlocks(g)[d.Acc.Block()] && (over == v || valPath(over) == valPath(v)) {
			return true
		}
	}
	return false
}

// seenBefore: the decision to skip is the answer of a cache; it returns what is skipped.
func seenBefore(d drop) string {
	br, ok := d.Via.Instrs[len(d.Via.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	c := br.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c = u.X
	}
	call, ok := c.(*ssa.Call)
	if !ok {
		return ""
	}
	if n := lastName(calleeName(call.Common())); n != "Contains" && n != "Has" {
		return ""
	}
	for _, v := range accumulated(d.Acc) {
		if !isInt(v.Type()) {
			return types.TypeString(deref(v.Type()), func(q *types.Package) string { return q.Name() })
		}
	}
	// the other things accumulated at the same place
	in := loopBlocks(d.Head)
	for _, acc := range accums(d.Head, in) {
		for _, i := range acc {
			if samePlace(i, d.Acc) {
				for _, v := range accumulated(i) {
					if !isInt(v.Type()) {
						return types.TypeString(deref(v.Type()), func(q *types.Package) string { return q.Name() })
					}
				}
			}
		}
	}
	return ""
}

func isRepoCall(p *Prog, c *ssa.Call) bool {
	for _, g := range p.callees(c) {
		if isRepoFn(g) {
			return true
		}
	}
	return false
}

// updatedIn: the map gains entries in the loop.
func updatedIn(m ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	for b := range in {
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.MapUpdate); ok && sameVar(u.Map, m) {
				return true
			}
		}
	}
	return false
}

func sameVar(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.X == y.X
}

// accumulated are the values an accumulating instruction carries over.
func accumulated(i ssa.Instruction) []ssa.Value {
	switch x := i.(type) {
	case *ssa.Store:
		return []ssa.Value{x.Val}
	case *ssa.Call:
		if len(x.Call.Args) < 2 {
			return nil
		}
		if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
			return x.Call.Args[1:]
		}
		if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				return storedInto(al)
			}
		}
		return []ssa.Value{x.Call.Args[1]}
	}
	return nil
}

func storedInto(al ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.IndexAddr:
			for _, q := range *y.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					out = append(out, s.Val)
				}
			}
			out = append(out, storedInto(y)...)
		case *ssa.FieldAddr:
			for _, q := range *y.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					out = append(out, s.Val)
				}
			}
		case *ssa.Store:
			if y.Addr == al {
				out = append(out, y.Val)
			}
		}
	}
	return out
}

// inputs are the leaves a value is computed from, following loads of local memory.
func inputs(vs []ssa.Value, visit func(ssa.Value) bool) {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !visit(v) {
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, s := range storedInto(al) {
				f(s)
			}
			return
		}
		// a variable shared with the enclosing function: what this function stores in it
		if fv, ok := v.(*ssa.FreeVar); ok {
			for _, s := range storedInto(fv) {
				f(s)
			}
			return
		}
		if i, ok := v.(ssa.Instruction); ok {
			var buf [8]*ssa.Value
			for _, o := range i.Operands(buf[:0]) {
				f(*o)
			}
		}
	}
	for _, v := range vs {
		f(v)
	}
}

// coversElement: what is carried over varies with nothing that the key does not vary with:
// every parameter, free variable and loop element the value is made of also goes into the key.
func coversElement(key ssa.Value, d drop, in map[*ssa.BasicBlock]bool) bool {
	leaf := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.Extract:
			return true
		}
		return false
	}
	have := map[ssa.Value]bool{}
	haveField := map[string]bool{}
	inputs([]ssa.Value{key}, func(v ssa.Value) bool {
		if p := paramField(v); p != "" {
			haveField[p] = true
			return false
		}
		have[v] = true
		return true
	})
	ok := true
	var elems []ssa.Value
	for _, acc := range accums(d.Head, in) {
		for _, i := range acc {
			if samePlace(i, d.Acc) {
				elems = append(elems, accumulated(i)...)
			}
		}
	}
	elems = append(elems, accumulated(d.Acc)...)
	// numbers say where an element goes, not what it is
	k := 0
	for _, e := range elems {
		if !isInt(e.Type()) {
			elems[k] = e
			k++
		}
	}
	elems = elems[:k]
	inputs(elems, func(v ssa.Value) bool {
		if c, isC := v.(*ssa.Call); isC && have[v] {
			_ = c
			return false
		}
		if p := paramField(v); p != "" {
			if !haveField[p] {
				ok = false
			}
			return false
		}
		if have[v] {
			return true
		}
		if leaf(v) {
			if _, isFn := v.Type().Underlying().(*types.Signature); !isFn {
				if _, isEx := v.(*ssa.Extract); !isEx {
					ok = false
				}
			}
		}
		return true
	})
	return ok
}

// paramField names a field of a structure that a function is given by value.
func paramField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Field:
		if p, ok := x.X.(*ssa.Parameter); ok {
			return p.Name() + "." + fieldName(x.X.Type(), x.Field)
		}
	case *ssa.FieldAddr:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return ""
		}
		for _, s := range cellStores(al) {
			if p, ok := s.(*ssa.Parameter); ok {
				return p.Name() + "." + fieldName(x.X.Type(), x.Field)
			}
		}
	}
	return ""
}

func samePlace(a, b ssa.Instruction) bool { return a.Block() == b.Block() }

// takenFrom: what is carried over is (part of) the given value.
func takenFrom(acc ssa.Instruction, whole ssa.Value) bool {
	found := false
	key := valPath(whole)
	inputs(accumulated(acc), func(v ssa.Value) bool {
		if v == whole || key != "" && valPath(v) == key {
			found = true
		}
		return !found
	})
	return found
}

// valPath names a value by the variable and the indices it is read from.
func valPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + valPath(x.X)
		}
	case *ssa.IndexAddr:
		return valPath(x.X) + "[" + valPath(x.Index) + "]"
	case *ssa.FieldAddr:
		return valPath(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Index:
		return valPath(x.X) + "[" + valPath(x.Index) + "]"
	case *ssa.Const:
		return x.String()
	}
	if v.Parent() != nil || v.Name() != "" {
		return v.Name()
	}
	return ""
}

// staticReach lists fn, its closures and what they call statically within the packages.
func (p *Prog) staticReach(fn *ssa.Function, pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	p.reachesInstr(fn, func(g *ssa.Function, in ssa.Instruction) bool {
		if len(out) == 0 || out[len(out)-1] != g {
			out = append(out, g)
		}
		return false
	}, pkgs...)
	return uniqFns(out)
}

func uniqFns(in []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range in {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}
