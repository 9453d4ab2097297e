package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkRecordedSize: the log size the ingest command records is one past the end of a
// completed interval that starts at the first entry of the log.
func checkRecordedSize(p *Prog, r *Rep) {
	defer func(d int) { maxDepth = d }(maxDepth)
	maxDepth = 30 // the size is read through the journal, the last job, its map and an interval
	facts := NewFacts()
	n := 0
	var h Hooks
	h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		if v.mentions(func(x *AVal) bool { return strings.HasSuffix(x.T, ".Start") }) {
			facts.record(st, v, truth)
		}
	}
	h.Inline = func(fn *ssa.Function) bool {
		if pkgOf(fn) == journalPkg { // accessors only: the journal's own updates are decided under C02
			return smallFn(fn)
		}
		return pkgOf(fn) == ingPkg && p.reachesInstr(fn, func(g *ssa.Function, in ssa.Instruction) bool {
			if pkgOf(g) == ingPkg || smallFn(g) {
				if fa, ok := in.(*ssa.FieldAddr); ok && tname(deref(fa.X.Type())) == journalPkg+".Interval" {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok && callsField(c, "RecordCTSize") {
					return true
				}
			}
			return false
		}, ingPkg, journalPkg)
	}
	h.Call = func(c *CallCtx) []*Outcome {
		if !strings.HasPrefix(c.Name, "dyn:") || !strings.HasSuffix(c.Name, ".RecordCTSize") {
			return nil
		}
		n++
		key := "recordsize@" + fname(topFn(c.Fr.Fn))
		r.Ob(key, p.pos(c.Pos()), "the recorded log size ends a completed interval that starts at entry 0 of the log")
		size := c.Args[len(c.Args)-1]
		base := ""
		size.walk(func(x *AVal) bool {
			if strings.HasSuffix(x.T, ".End") {
				base = strings.TrimSuffix(x.T, ".End")
			}
			return true
		})
		bad := func(m string) { r.Bad(key, p.pos(c.Pos()), m, c.St.traceString()) }
		switch {
		case size.T == "⊤":
			r.Note("the size recorded at %s is outside the term depth; not decided there", p.pos(c.Pos()))
			return nil
		case base == "":
			bad("the recorded size (" + size.T + ") is not computed from a completed interval")
			return nil
		case !plusOne(size, base+".End"):
			bad("the recorded size (" + size.T + ") is not one past the last completed entry")
			return nil
		}
		start, zero := isT(base+".Start"), isT("0")
		if !facts.eqHolds(c.St, start, zero) && !facts.holds(c.St, false, func(v *AVal) bool {
			return v.Op == "<" && v.Args[0].T == "0" && start(v.Args[1]) // !(0 < start), start is unsigned
		}) {
			bad("the size is recorded although the completed interval may not start at the first entry of the log: the entries before it were never ingested")
		}
		return nil
	}
	for _, f := range p.Funcs {
		if pkgOf(f) != ingPkg || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		has := false
		for _, g := range fnAndClosures(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && callsField(c, "RecordCTSize") {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		e := NewEngine(p, h)
		e.RunEntry(f)
		r.absorb(e)
	}
	r.Floor("log sizes recorded by the ingest command", n, 1)
}

// callsField: the call goes through a function value held in a field of that name.
func callsField(c ssa.CallInstruction, field string) bool {
	switch v := c.Common().Value.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == field
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field) == field
	}
	return false
}

func fnAndClosures(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, fnAndClosures(a)...)
	}
	return out
}

// reachesInstr: an instruction satisfying pred is in fn, its closures or what they call
// statically within the given packages.
func (p *Prog) reachesInstr(fn *ssa.Function, pred func(*ssa.Function, ssa.Instruction) bool, pkgs ...string) bool {
	seen := map[*ssa.Function]bool{}
	in := func(f *ssa.Function) bool {
		for _, x := range pkgs {
			if pkgOf(f) == x {
				return true
			}
		}
		return false
	}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !in(f) {
			return false
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if pred(f, i) {
					return true
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// plusOne: the value is x+1, conversions aside.
func plusOne(v *AVal, x string) bool {
	v = unconv(v)
	if v.Op != "+" || len(v.Args) != 2 {
		return false
	}
	return unconv(v.Args[1]).T == "1" && unconv(v.Args[0]).T == x || unconv(v.Args[0]).T == "1" && unconv(v.Args[1]).T == x
}

// unconv strips conversions.
func unconv(v *AVal) *AVal {
	for (v.Op == "convert" || v.Op == "conv") && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}
