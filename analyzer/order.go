package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runRoots simulates every entry point from which a relevant event is reachable. Entry points
// are the functions nobody in the repository calls; relevant functions that no entry
// simulation reached (stored callbacks, goroutine bodies) are then simulated on their own.
func runRoots(p *Prog, r *Rep, h Hooks, isEvent func(name string, c ssa.CallInstruction, in *ssa.Function) bool, scope func(fn *ssa.Function) bool) {
	rel := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool {
		return isEvent(calleeName(c.Common()), c, f)
	})
	done := map[*ssa.Function]bool{}
	mkE := func() *Engine {
		e := NewEngine(p, h)
		e.Relevant = rel
		return e
	}
	isRoot := func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" && fnObj(f) == nil {
			return false
		}
		return len(p.callers(f)) == 0
	}
	for pass := 0; pass < 3; pass++ {
		for _, f := range p.Funcs {
			if !rel[f] || done[f] || !scope(f) || strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
				continue
			}
			if pass == 0 && !isRoot(f) {
				continue
			}
			if pass == 1 && f.Parent() == nil {
				continue // closures first: they may be the only callers of what remains
			}
			if pass == 2 && fnObj(f) != nil && f.Synthetic != "" {
				continue
			}
			e := mkE()
			e.seen = map[*ssa.Function]bool{}
			e.RunEntry(f)
			for g := range e.seen {
				done[g] = true
			}
			r.absorb(e)
		}
	}
}

func notTestSupport(f *ssa.Function) bool { return !isTestSupport(pkgOf(f)) }
