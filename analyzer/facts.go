package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts records, per path, the conditions that were assumed true or false on it, so that a
// rule can ask what an outcome is conditioned on.
type Facts struct {
	tab map[string]*AVal
}

func NewFacts() *Facts { return &Facts{tab: map[string]*AVal{}} }

func (f *Facts) record(st *State, v *AVal, truth bool) {
	if v == nil || v.T == "" || v.T == "⊤" || v.C != nil {
		return
	}
	v, neg := stripNotVal(v)
	if neg {
		truth = !truth
	}
	f.tab[v.T] = v
	if truth {
		st.gen("T:" + v.T)
	} else {
		st.gen("F:" + v.T)
	}
}

// holds: some condition assumed with the given truth value satisfies pred.
func (f *Facts) holds(st *State, truth bool, pred func(*AVal) bool) bool {
	p := "F:"
	if truth {
		p = "T:"
	}
	for k := range st.facts {
		if strings.HasPrefix(k, p) {
			if v := f.tab[k[2:]]; v != nil && pred(v) {
				return true
			}
		}
	}
	return false
}

// eqHolds: the path is conditioned on the equality of two values satisfying a and b.
func (f *Facts) eqHolds(st *State, a, b func(*AVal) bool) bool {
	return f.holds(st, true, func(v *AVal) bool { return eqOf(v, a, b) }) ||
		f.holds(st, false, func(v *AVal) bool {
			if v.Op == "!=" && len(v.Args) == 2 {
				return a(v.Args[0]) && b(v.Args[1]) || a(v.Args[1]) && b(v.Args[0])
			}
			return false
		}) ||
		f.holds(st, true, func(v *AVal) bool {
			// bytes.Compare(x, y) == 0, subtle.ConstantTimeCompare(x, y) == 1
			if v.Op != "==" || len(v.Args) != 2 {
				return false
			}
			for i := 0; i < 2; i++ {
				x, k := v.Args[i], v.Args[1-i]
				cal := x.Callee()
				if (cal == "bytes.Compare" && k.T == "0" || cal == "crypto/subtle.ConstantTimeCompare" && k.T == "1") && len(x.Args) == 2 {
					return a(x.Args[0]) && b(x.Args[1]) || a(x.Args[1]) && b(x.Args[0])
				}
			}
			return false
		})
}

// neqHolds: the path is conditioned on the two values being different.
func (f *Facts) neqHolds(st *State, a, b func(*AVal) bool) bool {
	return f.holds(st, false, func(v *AVal) bool { return eqOf(v, a, b) })
}

func eqOf(v *AVal, a, b func(*AVal) bool) bool {
	x, y, ok := isEq(v)
	return ok && (a(x) && b(y) || a(y) && b(x))
}

func isT(t string) func(*AVal) bool { return func(v *AVal) bool { return stripAddr(v.T) == t } }

func stripAddr(t string) string {
	t = strings.TrimPrefix(t, "&")
	for _, s := range []string{"[:]", "[0:]"} {
		t = strings.TrimSuffix(t, s)
	}
	return t
}

// hasLeaf: the term tree of the value contains the given term.
func hasLeaf(ts ...string) func(*AVal) bool {
	return func(v *AVal) bool {
		for _, t := range ts {
			if !v.mentions(func(x *AVal) bool { return stripAddr(x.T) == t }) {
				return false
			}
		}
		return true
	}
}

func isCall(name string) func(*AVal) bool { return func(v *AVal) bool { return v.Callee() == name } }

// Prim models a call as a pure function of its arguments (variadic arguments expanded). With
// an error result the path splits into success and failure.
func (e *Engine) Prim(c *CallCtx) []*Outcome {
	args := c.Args
	if c.Sig.Variadic() && len(args) > 0 {
		if el := c.elems(len(args) - 1); len(el) > 0 {
			args = append(append([]*AVal(nil), args[:len(args)-1]...), el...)
		}
	}
	// literal slices show their elements
	for i := range args {
		if i < len(c.Args) {
			if _, ok := c.sigParam(i).(*types.Slice); !ok {
				continue
			}
		}
		if el := c.elemsOf(args[i]); len(el) > 0 {
			if &args[0] == &c.Args[0] {
				args = append([]*AVal(nil), args...)
			}
			args[i] = mk("lit", "["+joinT(el)+"]", el...)
		}
	}
	base := mk("call:"+c.Name, c.Name+"("+joinT(args)+")", args...)
	n := c.Sig.Results().Len()
	if n == 1 && !isErrorType(c.Sig.Results().At(0).Type()) {
		return []*Outcome{{St: c.St.clone(), Results: []*AVal{base}}}
	}
	var rs []*AVal
	for i := 0; i < n; i++ {
		if n == 1 {
			rs = append(rs, base)
		} else {
			rs = append(rs, mk("extract", base.T+"#"+string(rune('0'+i)), base))
		}
	}
	if n > 0 && isErrorType(c.Sig.Results().At(n-1).Type()) {
		r1 := append([]*AVal(nil), rs...)
		r1[n-1] = mk("const", "nil").with(func(a *AVal) { a.Nil = no })
		r2 := append([]*AVal(nil), rs...)
		r2[n-1] = rs[n-1].with(func(a *AVal) { a.Nil = yes })
		s1, s2 := c.St.clone(), c.St.clone()
		s1.gen("ok:" + base.T)
		s2.note(e.P.pos(c.In.Pos()) + " " + lastName(c.Name) + " fails")
		return []*Outcome{{St: s1, Results: r1}, {St: s2, Results: r2}}
	}
	return []*Outcome{{St: c.St.clone(), Results: rs}}
}

// backward data dependence of SSA values, through memory of local variables and through
// repository callees (by summary).
type slicer struct {
	p    *Prog
	sums map[*ssa.Function]*sliceRes
}

type sliceRes struct {
	params  map[int]bool
	globals map[string]bool
	calls   map[string]bool
	lens    map[int]bool // len(param) is used
}

func newSliceRes() *sliceRes {
	return &sliceRes{map[int]bool{}, map[string]bool{}, map[string]bool{}, map[int]bool{}}
}

func (s *slicer) of(fn *ssa.Function, vs ...ssa.Value) *sliceRes {
	if s.sums == nil {
		s.sums = map[*ssa.Function]*sliceRes{}
	}
	res := newSliceRes()
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visitStores := func(a ssa.Value) {
		// everything stored into (a part of) the variable
		var addrs func(x ssa.Value)
		done := map[ssa.Value]bool{}
		addrs = func(x ssa.Value) {
			if done[x] || x.Referrers() == nil {
				return
			}
			done[x] = true
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr == x {
						visit(y.Val)
					}
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
					addrs(y.(ssa.Value))
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && y.Call.Args[0] == x {
						visit(y.Call.Args[1])
					}
				}
			}
		}
		addrs(a)
	}
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, pa := range fn.Params {
				if pa == x {
					res.params[i] = true
				}
			}
			return
		case *ssa.Global:
			res.globals[x.Name()] = true
			return
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			visitStores(v)
		case *ssa.Call:
			n := calleeName(x.Common())
			res.calls[n] = true
			if n == "builtin.len" {
				if pa, ok := x.Call.Args[0].(*ssa.Parameter); ok {
					for i, q := range fn.Params {
						if q == pa {
							res.lens[i] = true
						}
					}
				}
			}
			if g := x.Common().StaticCallee(); g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
				sum := s.summary(g)
				for i := range sum.params {
					if i < len(x.Call.Args) {
						visit(x.Call.Args[i])
					}
				}
				for i := range sum.lens {
					if i < len(x.Call.Args) {
						if pa, ok := x.Call.Args[i].(*ssa.Parameter); ok {
							for k, q := range fn.Params {
								if q == pa {
									res.lens[k] = true
								}
							}
						}
					}
				}
				for k := range sum.globals {
					res.globals[k] = true
				}
				for k := range sum.calls {
					res.calls[k] = true
				}
				return
			}
			for _, a := range x.Call.Args {
				visit(a)
			}
			if x.Common().IsInvoke() || x.Common().StaticCallee() == nil {
				visit(x.Call.Value)
			}
			// what is written into the receiver of a hash
			if x.Common().IsInvoke() && x.Call.Value.Referrers() != nil {
				for _, u := range *x.Call.Value.Referrers() {
					if y, ok := u.(*ssa.Call); ok && y != x {
						for _, a := range y.Call.Args {
							visit(a)
						}
					}
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					visit(*op)
				}
			}
			if ld, ok := v.(*ssa.UnOp); ok {
				visitStores(baseAddr(ld.X))
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return res
}

func baseAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (s *slicer) summary(fn *ssa.Function) *sliceRes {
	if r, ok := s.sums[fn]; ok {
		return r
	}
	s.sums[fn] = newSliceRes()
	for {
		var rets []ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if rt, ok := in.(*ssa.Return); ok {
					rets = append(rets, rt.Results...)
				}
			}
		}
		r := s.of(fn, rets...)
		old := s.sums[fn]
		s.sums[fn] = r
		if len(r.params) == len(old.params) && len(r.calls) == len(old.calls) && len(r.globals) == len(old.globals) && len(r.lens) == len(old.lens) {
			return r
		}
	}
}

// resultMayBe reports whether a boolean result may be true on this outcome.
func mayTrue(v *AVal) bool { return v.B != no }

// accepts lists the outcomes of a verifier that accept: the boolean result at index i may be
// true, or the error result at index i may be nil. The truth of a returned condition counts
// as assumed on that outcome.
func (f *Facts) accepts(outs []*Outcome, fn *ssa.Function, i int) []*Outcome {
	var acc []*Outcome
	for _, o := range outs {
		if o.Panic || i >= len(o.Results) {
			continue
		}
		v := o.Results[i]
		if isErrorType(fn.Signature.Results().At(i).Type()) {
			if v.Nil == yes {
				continue
			}
			if v.Callee() != "" {
				o.St.gen("ok:" + v.T)
			}
			acc = append(acc, o)
			continue
		}
		if b, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v.B == no {
				continue
			}
			if v.B == unk {
				f.record(o.St, v, true)
			}
			acc = append(acc, o)
		}
	}
	return acc
}

func (c *CallCtx) sigParam(i int) types.Type {
	if c.Sig.Recv() != nil || c.In.Common().IsInvoke() {
		i--
	}
	if i < 0 || i >= c.Sig.Params().Len() {
		return types.NewSlice(types.Typ[types.Byte])
	}
	return c.Sig.Params().At(i).Type().Underlying()
}
