package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15", Level: "proof",
		Explain: "path-sensitive simulation of every function that splits work among goroutines (with the bodies of the goroutines, closures and helpers in line): what is counted, started, signalled, awaited, closed, written and read is tracked per wait group, channel and variable; request/reply channel pairs are followed through the cases of each select",
		Assumptions: []string{
			"the elements of a list that partitions or workers are taken from are distinct, so that goroutines that write the element their own iteration selects write different ones",
			"a goroutine that receives until its channel is closed ends once the channel is closed",
		},
		Trusted: []string{"go/types and golang.org/x/tools/go/ssa (type checking and lowering)", "the path simulator of /verif/analyzer (engine.go) and the rules of r_join.go"},
		Run:     runJoin})
}

var debugJoin = os.Getenv("DJ") != ""

const wgP = "sync.(*WaitGroup)."

func runJoin(p *Prog, r *Rep, thorough bool) {
	symIdx = true
	defer func() { symIdx = false }()
	// the functions that lead to a wait group
	rel := p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
		return strings.HasPrefix(calleeName(c.Common()), wgP)
	})
	var owns func(f *ssa.Function) bool
	owns = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && hasWg(a.Type(), 0) {
					return true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if owns(a) {
				return true
			}
		}
		return false
	}
	starts := func(f *ssa.Function) bool {
		var any func(f *ssa.Function, d int, seen map[*ssa.Function]bool) bool
		any = func(f *ssa.Function, d int, seen map[*ssa.Function]bool) bool {
			if seen[f] || d > 4 {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						return true
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						if calleeName(c.Common()) == wgP+"Go" {
							return true
						}
						if g := c.Common().StaticCallee(); g != nil && rel[g] && any(g, d+1, seen) {
							return true
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if any(a, d, seen) {
					return true
				}
			}
			return false
		}
		return any(f, 0, map[*ssa.Function]bool{})
	}
	simulated := map[*ssa.Function]bool{}
	n := 0
	do := func(f *ssa.Function) {
		j := &joinRun{p: p, r: r, root: f, spawn: map[string]map[string]bool{}, done: map[string]bool{}}
		key := fname(f)
		pos := p.pos(f.Pos())
		for j.pass = 1; j.pass <= 3; j.pass++ {
			j.simulate(simulated)
			if j.pass == 1 && len(j.done) == 0 {
				return
			}
		}
		n++
		r.Ob("count@"+key, pos, "a wait group is increased by exactly the number of goroutines that signal it, before they start")
		r.Ob("signal@"+key, pos, "each goroutine signals exactly once on every path, after its last write and last send")
		r.Ob("await@"+key, pos, "the goroutines are awaited before the function returns, or by a goroutine started for that")
		r.Ob("read@"+key, pos, "what the goroutines write is used only once they were awaited")
		r.Ob("shared@"+key, pos, "goroutines running side by side write each its own variables or elements, or hold a common lock")
		r.Ob("drain@"+key, pos, "a goroutine that takes from a channel until it is closed does not leave before that")
		r.Ob("close@"+key, pos, "a channel is closed once, after all that send on it were awaited, and before those that drain it are")
	}
	var fns []*ssa.Function
	named := map[string]bool{}
	for _, f := range p.Funcs {
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance of") || len(f.Blocks) == 0 || skipJoin(p, f) {
			continue
		}
		// one instance of a generic function stands for all
		if named[fname(f)] {
			continue
		}
		named[fname(f)] = true
		fns = append(fns, f)
	}
	for _, f := range fns {
		if f.Parent() == nil && owns(f) && starts(f) {
			do(f)
		}
	}
	// closures that are stored and called elsewhere
	for _, f := range fns {
		if f.Parent() != nil && !simulated[f] && !simulated[f.Origin()] && owns(f) && starts(f) {
			do(f)
		}
	}
	for _, f := range fns {
		if f.Parent() == nil && owns(f) && starts(f) && wgCalls(f, "Add", "Go") && wgCalls(f, "Wait") && !wgCalls(f, "Done", "Go") {
			key := fname(f)
			r.Ob("signal@"+key, p.pos(f.Pos()), "each goroutine signals exactly once on every path, after its last write and last send")
			escapes := false
			for g := range rel {
				escapes = escapes || g != f && pkgOf(g) == pkgOf(f) && wgCalls(g, "Done")
			}
			if !escapes {
				r.Bad("signal@"+key, p.pos(f.Pos()), "awaits goroutines, but none signals that it is done", "")
			}
		}
	}
	r.Floor("functions that split work among goroutines", n, 9)
	joinAnswers(p, r)
}

// wgCalls: the function or one of its closures calls the method of a wait group.
func wgCalls(f *ssa.Function, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, n := range names {
					if calleeName(c.Common()) == wgP+n {
						return true
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if wgCalls(a, names...) {
			return true
		}
	}
	return false
}

func skipJoin(p *Prog, f *ssa.Function) bool {
	pk := pkgOf(f)
	return isTestSupport(pk)
}

func hasWg(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	switch u := t.(type) {
	case *types.Pointer:
		return hasWg(u.Elem(), d+1)
	case *types.Named:
		if u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == "sync" {
			return u.Obj().Name() == "WaitGroup"
		}
		return d < 2 && isRepoPkg(u.Obj().Pkg()) && hasWg(u.Underlying(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if _, ptr := u.Field(i).Type().(*types.Pointer); !ptr && hasWg(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// gor is a goroutine (per place that starts it and values it is started with): what it does to
// things outside it.
type gor struct {
	site   string
	up     *gor
	own    map[string]bool // roots allocated inside
	writes map[string]map[string]bool
	wpos   map[string]string
	reads  map[string]bool
	sends  map[string]bool
	drains map[string]bool
	ends   map[string]string // ok flag of a receive -> channel
	closes map[string]string
	waits  map[string]bool
}

type joinRun struct {
	p     *Prog
	r     *Rep
	root  *ssa.Function
	e     *Engine
	pass  int
	spawn map[string]map[string]bool // loop -> wait groups whose goroutines it starts
	done  map[string]bool            // wait groups that goroutines signal
	cur   *gor
	gors  map[string]*gor
}

func (j *joinRun) bad(kind, pos, msg string, st *State) {
	if j.pass == 3 {
		j.r.Bad(kind+"@"+fname(j.root), pos, msg, st.traceString())
	}
}

func loopKey(h *ssa.BasicBlock) string { return fmt.Sprintf("%s.%d", h.Parent().String(), h.Index) }

// loopsOf: the loops around the instruction, in its function and around the calls that lead to
// it, up to the start of the goroutine it runs in.
func (j *joinRun) loopsOf(fr *Frame, in ssa.Instruction) map[string]*ssa.BasicBlock {
	out := map[string]*ssa.BasicBlock{}
	for f := fr; f != nil; f = f.Parent {
		b := in.Block()
		for _, h := range f.Fn.Blocks {
			isH := false
			for _, q := range h.Preds {
				isH = isH || isBackEdge(q, h)
			}
			if isH && loopBlocks(h)[b] {
				out[loopKey(h)] = h
			}
		}
		if f.Call == nil {
			break
		}
		if _, ok := f.Call.(*ssa.Go); ok {
			break
		}
		in = f.Call
	}
	return out
}

func frameOf(fr *Frame, fn *ssa.Function) *Frame {
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			return f
		}
	}
	return nil
}

// local: the wait group (or variable) lives in the simulated function.
func local(t string) bool { return strings.HasPrefix(strings.TrimPrefix(t, "&"), "@") }

func (j *joinRun) shared(loc string) bool {
	root := rootOf(loc)
	for g := j.cur; g != nil; g = g.up {
		if g.own[root] {
			return false
		}
		for o := range g.own {
			if strings.HasSuffix(o, "(") && strings.HasPrefix(loc, o) {
				return false
			}
		}
		break
	}
	if strings.HasPrefix(loc, "@") || strings.HasPrefix(loc, "make") || strings.HasPrefix(loc, "append(make") {
		return true
	}
	base := loc
	if i := strings.IndexAny(base, ".["); i >= 0 {
		base = base[:i]
	}
	for _, prm := range j.root.Params {
		if prm.Name() == base {
			return true
		}
	}
	return false
}

// pat: the location with the indices that vary from goroutine to goroutine replaced.
func pat(loc string) string {
	var sb strings.Builder
	d := 0
	start := 0
	for i, c := range loc {
		switch c {
		case '[':
			if d == 0 {
				sb.WriteByte('[')
				start = i + 1
			}
			d++
			continue
		case ']':
			d--
			if d == 0 {
				in := loc[start:i]
				if isWhole(in) {
					// the whole of it
					t := sb.String()
					sb.Reset()
					sb.WriteString(t[:len(t)-1])
					continue
				}
				if strings.Contains(in, "φ") || strings.Contains(in, "*") || !isNum(in) {
					in = "~"
				}
				sb.WriteString(in + "]")
				continue
			}
		}
		if d == 0 {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

// isWhole: the bounds of a slice expression that keeps all from the start on.
func isWhole(in string) bool {
	i := strings.IndexByte(in, ':')
	return i >= 0 && (in[:i] == "" || in[:i] == "0" || in[:i] == "nil" || in[:i] == "_")
}

func isNum(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// anyIdx forgets the indices.
func anyIdx(loc string) string {
	p := pat(loc)
	for {
		i := strings.IndexByte(p, '[')
		if i < 0 {
			return p
		}
		k := strings.IndexByte(p[i:], ']')
		if k < 0 {
			return p
		}
		p = p[:i] + "#" + p[i+k+1:]
	}
}

func locksOf(st *State) map[string]bool {
	out := map[string]bool{}
	for f := range st.facts {
		if strings.HasPrefix(f, "lk:") {
			out[f[3:]] = true
		}
	}
	return out
}

func common(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func setStr(m map[string]bool) string { return strings.Join(sortedKeys(m), ",") }

func strSet(s string) map[string]bool {
	out := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			out[x] = true
		}
	}
	return out
}

// facts about a wait group t: cr:t|n|loops (counted, not started), out:t, w:t|loc|locks,
// rd:t|loc, snd:t|ch, drn:t|ch, sp:t|loop; dlg:t (another goroutine waits); wtd:t.
func split(f string) []string { return strings.Split(f[strings.IndexByte(f, ':')+1:], "|") }

func each(st *State, prefix string, g func(f string, x []string)) {
	var fs []string
	for f := range st.facts {
		if strings.HasPrefix(f, prefix) {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		g(f, split(f))
	}
}

func (j *joinRun) simulate(simulated map[*ssa.Function]bool) {
	p := j.p
	j.gors = map[string]*gor{}
	j.cur = nil
	rel := p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
		n := calleeName(c.Common())
		return strings.HasPrefix(n, wgP) || n == "builtin.close"
	})
	e := NewEngine(p, Hooks{
		Inline: func(f *ssa.Function) bool {
			return smallFn(f) || pkgOf(f) == pkgOf(j.root) && (rel[f] || f.Parent() != nil) || rel[f] && pkgOf(f) == "pkg/util"
		},
		Call:   j.call,
		Before: func(c *CallCtx) { j.passes(c) },
		Go: func(c *CallCtx) bool {
			j.start(c, c.Fn, c.Args, c.Bind, "")
			return true
		},
		Store: func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
			j.write(st, locOf(addr), p.pos(in.Pos()), false)
		},
		MapUpd: func(fr *Frame, st *State, m, k, v *AVal, in *ssa.MapUpdate) {
			j.write(st, locOf(m), p.pos(in.Pos()), true)
		},
		Load: func(fr *Frame, st *State, addr *AVal, in ssa.Instruction) { j.read(st, locOf(addr), p.pos(in.Pos())) },
		Send: func(fr *Frame, st *State, ch, v *AVal, ps token.Pos) { j.send(st, ch.T, p.pos(ps)) },
		Recvd: func(fr *Frame, st *State, v *AVal, okT string, in *ssa.UnOp) {
			if g := j.cur; g != nil && okT != "" && len(j.loopsOf(fr, in)) > 0 {
				if strings.HasPrefix(v.Args[0].T, "make#") {
					g.drains[v.Args[0].T] = true
				}
				if ch := v.Args[0].T; !g.own[rootOf(ch)] {
					g.ends[okT] = ch
					st.kill("eof:" + ch)
					st.gen("rcv:" + ch)
				}
			}
		},
		Assume: func(fr *Frame, st *State, v *AVal, truth bool) {
			v, neg := stripNotVal(v)
			if g := j.cur; g != nil && v.Op == "recvok" && truth == neg {
				if ch := g.ends[v.T]; ch != "" {
					st.gen("eof:" + ch)
				}
			}
		},
		Instr:    func(fr *Frame, st *State, in ssa.Instruction) { j.alloc(fr, st, in) },
		BackEdge: j.backEdge,
		Branch:   j.branch,
		Return: func(fr *Frame, st *State, results []*AVal, ps token.Pos) {
			if fr.Parent == nil {
				j.leave(st, p.pos(ps))
				for _, v := range results {
					j.uses(st, v, p.pos(ps), "is returned")
				}
			}
		},
	})
	e.SelectFork = true
	if j.e != nil { // the same names in each round
		e.siteIDs, e.allocTag = j.e.siteIDs, j.e.allocTag
	}
	j.e = e
	e.RunEntry(j.root)
	for f := range e.active {
		simulated[f] = true
		if o := f.Origin(); o != nil {
			simulated[o] = true
		}
	}
	if j.pass == 3 {
		j.r.absorb(e)
	}
}

// leave: nothing that was started here may be left behind.
func (j *joinRun) leave(st *State, pos string) {
	each(st, "out:", func(f string, x []string) {
		if local(x[0]) && !st.has("dlg:"+x[0]) && (j.cur == nil || j.cur.own[rootOf(locStr(x[0]))]) {
			j.bad("await", pos, "returns while goroutines it started are still running and nobody waits for them", st)
		}
	})
}

func locStr(t string) string { return strings.TrimPrefix(t, "&") }

func (j *joinRun) alloc(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		loc := j.e.allocLoc(fr, x)
		if j.cur != nil {
			j.cur.own[loc] = true
		}
		t := "&" + loc
		if st.has("out:"+t) && !st.has("dlg:"+t) && hasWg(x.Type(), 0) {
			j.bad("await", j.p.pos(x.Pos()), "starts over while goroutines of the previous round are still running", st)
		}
		for f := range st.facts {
			for _, k := range split(f) {
				if rootOf(locStr(k)) == loc && strings.Contains(f, ":") {
					st.kill(f)
				}
			}
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		id := j.e.site(in)
		if j.cur != nil {
			j.cur.own[fmt.Sprintf("make#%d", id)] = true
			j.cur.own[fmt.Sprintf("makeslice#%d(", id)] = true
		}
		ch := fmt.Sprintf("make#%d", id)
		for f := range st.facts {
			for _, k := range split(f) {
				if k == ch {
					st.kill(f)
				}
			}
		}
	}
}

func (j *joinRun) add(c *CallCtx, t string, amt string) {
	loops := strings.Join(sortedKeys(j.loopsOf(c.Fr, c.In)), ",")
	if a, ok := atoi(amt); ok {
		each(c.St, "cr:"+t+"|", func(f string, x []string) {
			if b, ok2 := atoi(x[1]); ok2 && x[2] == loops {
				a += b
				c.St.kill(f)
			}
		})
		amt = fmt.Sprint(a)
	}
	c.St.gen("cr:" + t + "|" + amt + "|" + loops)
}

func atoi(s string) (int64, bool) {
	if !isNum(s) {
		return 0, false
	}
	var n int64
	fmt.Sscan(s, &n)
	return n, true
}

func (j *joinRun) call(c *CallCtx) []*Outcome {
	nop := func() []*Outcome { return []*Outcome{{St: c.St}} }
	pos := j.p.pos(c.Pos())
	switch {
	case c.Name == wgP+"Add":
		if j.done[c.Args[0].T] {
			j.add(c, c.Args[0].T, constOr(c.Args[1]))
		}
		return nop()
	case c.Name == wgP+"Done":
		t := c.Args[0].T
		if j.cur != nil && !j.cur.own[rootOf(locStr(t))] {
			if c.St.has("done:" + t) {
				j.bad("signal", pos, "the goroutine signals more than once", c.St)
			}
			c.St.gen("done:" + t)
		}
		return nop()
	case c.Name == wgP+"Wait":
		j.wait(c, c.Args[0].T, pos)
		return nop()
	case c.Name == wgP+"Go":
		if len(c.Args) == 2 && c.Args[1].Fn != nil {
			j.start(c, c.Args[1].Fn, nil, c.Args[1].Bind, c.Args[0].T)
		}
		return nop()
	case c.Name == "builtin.close":
		j.close(c, c.Args[0].T, pos)
		return nop()
	case strings.HasSuffix(c.Name, "Mutex).Lock") || strings.HasSuffix(c.Name, "Mutex).RLock"):
		c.St.gen("lk:" + c.Args[0].T)
		return nop()
	case strings.HasSuffix(c.Name, "Mutex).Unlock") || strings.HasSuffix(c.Name, "Mutex).RUnlock"):
		c.St.kill("lk:" + c.Args[0].T)
		return nop()
	}
	return nil
}

func constOr(a *AVal) string {
	if a.C != nil {
		return a.C.String()
	}
	return a.T
}

func (j *joinRun) wait(c *CallCtx, t, pos string) {
	st := c.St
	if j.done[t] {
		each(st, "cr:"+t+"|", func(f string, x []string) {
			j.bad("count", pos, "waits for goroutines that were counted but not started on this path", st)
		})
	}
	if j.cur != nil && j.cur.own[rootOf(locStr(t))] == false {
		j.cur.waits[t] = true
		st.gen("wtd:" + t)
	}
	each(st, "drn:"+t+"|", func(f string, x []string) {
		if !st.has("closed:"+x[1]) && !st.hasPrefix("cc:"+x[1]+"|") {
			j.bad("close", pos, "waits for goroutines that receive until their channel is closed, without having closed it", st)
		}
	})
	st.kill("out:"+t, "dlg:"+t)
	for _, k := range []string{"w:", "rd:", "snd:", "drn:", "sp:", "cr:"} {
		st.killPrefix(k + t + "|")
	}
}

func (j *joinRun) close(c *CallCtx, ch, pos string) {
	st := c.St
	each(st, "snd:", func(f string, x []string) {
		if x[1] == ch {
			j.bad("close", pos, "closes a channel that goroutines may still be sending on: they were not awaited", st)
		}
	})
	if strings.Contains(ch, "[") || ch == "⊤" {
		return
	}
	if st.has("closed:" + ch) {
		j.bad("close", pos, "closes the channel a second time", st)
	}
	st.gen("closed:" + ch)
	if j.cur != nil {
		ts := map[string]bool{}
		each(st, "wtd:", func(f string, x []string) { ts[x[0]] = true })
		j.cur.closes[ch] = setStr(ts)
	}
}

func (j *joinRun) send(st *State, ch, pos string) {
	if st.has("closed:" + ch) {
		j.bad("close", pos, "sends on a channel that was closed", st)
	}
	if j.cur != nil {
		if st.hasPrefix("done:") {
			j.bad("signal", pos, "the goroutine sends after it signalled that it is done", st)
		}
		j.cur.sends[ch] = true
	}
}

func (j *joinRun) write(st *State, loc, pos string, isMap bool) {
	if loc == "⊤" || loc == "" {
		return
	}
	if !j.shared(loc) {
		return
	}
	p := pat(loc)
	if isMap {
		p = loc
	}
	lk := locksOf(st)
	j.conflict(st, loc, pos, "written", lk)
	if g := j.cur; g != nil {
		if st.hasPrefix("done:") {
			j.bad("signal", pos, "the goroutine writes a result after it signalled that it is done", st)
		}
		if old, ok := g.writes[p]; ok {
			both := map[string]bool{}
			for k := range old {
				if lk[k] {
					both[k] = true
				}
			}
			lk = both
		}
		g.writes[p], g.wpos[p] = lk, pos
		return
	}
	each(st, "rd:", func(f string, x []string) {
		if x[1] == loc {
			j.bad("shared", pos, "a variable is changed while a goroutine that reads it runs", st)
		}
	})
}

// conflict: a goroutine that was started before may be writing the location now.
func (j *joinRun) conflict(st *State, loc, pos, how string, lk map[string]bool) {
	a := anyIdx(loc)
	each(st, "w:", func(f string, x []string) {
		if anyIdx(x[1]) != a || common(strSet(x[2]), lk) {
			return
		}
		// an element that the iteration selects is not the one of another iteration
		if j.cur != nil && (strings.Contains(x[1], "[") && (pat(loc) != x[1] || strings.Contains(x[1], "[~]"))) {
			return
		}
		if j.cur == nil {
			j.bad("read", pos, "a variable that a goroutine writes is "+how+" before the goroutine was awaited", st)
		} else {
			j.bad("shared", pos, "a variable that another goroutine writes is "+how+" without a common lock", st)
		}
	})
}

func (j *joinRun) read(st *State, loc, pos string) {
	if loc == "⊤" || loc == "" || !j.shared(loc) {
		return
	}
	j.conflict(st, loc, pos, "read", locksOf(st))
	if j.cur != nil && strings.HasPrefix(loc, "@") && !strings.ContainsAny(loc, ".[*") || j.cur != nil && rootOf(loc) == loc {
		if len(locksOf(st)) == 0 {
			j.cur.reads[loc] = true
		}
	}
}

// passes: what goroutines write is handed to a function.
func (j *joinRun) passes(c *CallCtx) {
	if strings.HasPrefix(c.Name, "builtin.") || strings.HasPrefix(c.Name, "sync.") || strings.HasPrefix(c.Name, "sync/atomic.") {
		return
	}
	if c.Fn != nil && j.e.shouldInline(c.Fn) {
		return
	}
	if j.cur != nil {
		return
	}
	for _, a := range c.Args {
		j.uses(c.St, a, j.p.pos(c.Pos()), "is used")
	}
}

func (j *joinRun) uses(st *State, a *AVal, pos, how string) {
	if a == nil || j.cur != nil {
		return
	}
	each(st, "w:", func(f string, x []string) {
		if x[2] != "" {
			return
		}
		if i := strings.IndexByte(x[1], '['); i > 0 && (a.T == x[1][:i] || strings.HasPrefix(a.T, x[1][:i]+"[")) {
			j.bad("read", pos, "what goroutines write "+how+" before they were awaited", st)
		}
	})
}

// start simulates a goroutine and notes, for the function that starts it, what it does.
func (j *joinRun) start(c *CallCtx, fn *ssa.Function, args, bind []*AVal, auto string) {
	st := c.St
	pos := j.p.pos(c.Pos())
	if fn == nil || len(fn.Blocks) == 0 || !isRepoFn(fn) || j.e.active[fn] > 0 {
		return
	}
	id := fmt.Sprintf("%d", j.e.site(c.In))
	for _, a := range append(append([]*AVal{}, args...), bind...) {
		id += "," + a.Key()
	}
	id += fmt.Sprintf(",%x", hashStr(st.key()))
	if j.cur != nil {
		id = j.cur.site + "/" + id
	}
	g := j.gors[id]
	if g == nil {
		g = &gor{site: id, up: j.cur, own: map[string]bool{}, writes: map[string]map[string]bool{}, wpos: map[string]string{},
			reads: map[string]bool{}, sends: map[string]bool{}, drains: map[string]bool{}, ends: map[string]string{}, closes: map[string]string{}, waits: map[string]bool{}}
		j.gors[id] = g
	}
	// the goroutine knows what runs besides it
	s := st.clone()
	for f := range st.facts {
		switch f[:strings.IndexByte(f+":", ':')] {
		case "w", "snd", "out", "closed", "drn":
		default:
			delete(s.facts, f)
		}
	}
	s.gen("gor:" + fmt.Sprintf("%x", hashStr(id)))
	j.cur = g
	outs := j.e.run(fn, args, bind, s, c.Fr, c.In)
	done := map[string]int{}
	n := 0
	if debugJoin {
		fmt.Println("go", fname(fn), len(outs), j.pass)
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		n++
		each(o.St, "done:", func(f string, x []string) { done[x[0]]++ })
		if auto != "" {
			done[auto]++
		}
		j.leave(o.St, j.p.pos(fn.Pos()))
	}
	j.cur = g.up
	for ch := range g.own {
		delete(g.sends, ch)
		delete(g.closes, ch)
		delete(g.drains, ch)
	}
	if len(done) > 0 {
		for _, o := range outs {
			if o.Panic {
				continue
			}
			each(o.St, "rcv:", func(f string, x []string) {
				if !o.St.has("eof:" + x[0]) {
					j.bad("drain", j.p.pos(fn.Pos()), "the goroutine stops taking values from a channel that it shares with others before the channel is closed", o.St)
				}
			})
		}
	}
	for t, k := range done {
		if k != n {
			j.bad("signal", j.p.pos(fn.Pos()), "the goroutine does not signal that it is done on every path", st)
		}
		j.done[t] = true
	}
	if up := j.cur; up != nil {
		for ch := range g.sends {
			up.sends[ch] = true
		}
		for loc, lk := range g.writes {
			if _, ok := up.writes[loc]; !ok && j.shared(loc) {
				up.writes[loc], up.wpos[loc] = lk, g.wpos[loc]
			}
		}
	}
	for t := range done {
		if auto != t {
			j.counted(c, t, pos)
		}
	}
	// what it closes
	for ch, ts := range g.closes {
		st.gen("cc:" + ch + "|" + ts)
	}
	for t := range g.waits {
		st.gen("dlg:" + t)
	}
	for ch := range g.sends {
		if st.has("closed:" + ch) {
			j.bad("close", pos, "starts a goroutine that sends on a channel that was closed", st)
		}
		each(st, "cc:"+ch+"|", func(f string, x []string) {
			if len(done) == 0 || g.closes[ch] != "" {
				return
			}
			ok := false
			for t := range done {
				ok = ok || strSet(x[1])[t]
			}
			if !ok {
				j.bad("close", pos, "a goroutine closes a channel without awaiting those that send on it", st)
			}
		})
	}
	for loc, lk := range g.writes {
		each(st, "w:", func(f string, x []string) {
			if x[1] == loc && !strings.Contains(loc, "[~]") && !common(lk, strSet(x[2])) {
				j.bad("shared", g.wpos[loc], "goroutines running side by side write the same variable without a common lock", st)
			}
		})
	}
	for t := range done {
		st.gen("out:" + t)
		for loc, lk := range g.writes {
			st.gen("w:" + t + "|" + loc + "|" + setStr(lk))
		}
		for loc := range g.reads {
			st.gen("rd:" + t + "|" + loc)
		}
		for ch := range g.sends {
			st.gen("snd:" + t + "|" + ch)
		}
		for ch := range g.drains {
			st.gen("drn:" + t + "|" + ch)
		}
	}
	for _, b := range bind {
		j.e.havocWritten(st, b, g.writes, j.e.site(c.In))
	}
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// havocWritten forgets the variables that a goroutine writes.
func (e *Engine) havocWritten(st *State, v *AVal, w map[string]map[string]bool, site int) {
	for loc := range w {
		if strings.Contains(loc, "[") {
			continue
		}
		for k := range st.mem {
			if k == loc || strings.HasPrefix(k, loc+".") {
				st.mem[k] = mk("havoc", fmt.Sprintf("havoc%d(%s)", site, strings.ReplaceAll(k, "@", "a")))
			}
		}
	}
}

// counted: the goroutine about to start was counted.
func (j *joinRun) counted(c *CallCtx, t, pos string) {
	st := c.St
	if !local(t) {
		return
	}
	var crF string
	var cr []string
	each(st, "cr:"+t+"|", func(f string, x []string) {
		if crF == "" {
			crF, cr = f, x
		}
	})
	if crF == "" {
		if !st.hasPrefix("some:" + t) {
			j.bad("count", pos, "a goroutine is started that the wait group does not count yet", st)
		}
		return
	}
	have := strSet(cr[2])
	var ls []*ssa.BasicBlock
	around := j.loopsOf(c.Fr, c.In)
	for _, k := range sortedKeys(around) {
		if !have[k] {
			ls = append(ls, around[k])
		}
	}
	switch len(ls) {
	case 0:
		n, ok := atoi(cr[1])
		if !ok {
			j.bad("count", pos, "one goroutine is started, but the wait group counts "+cr[1], st)
			return
		}
		st.kill(crF)
		if n > 1 {
			st.gen("cr:" + t + "|" + fmt.Sprint(n-1) + "|" + cr[2])
		}
	case 1:
		h := ls[0]
		lk := loopKey(h)
		if j.spawn[lk] == nil {
			j.spawn[lk] = map[string]bool{}
		}
		cl := countAt(h)
		f := frameOf(c.Fr, h.Parent())
		if cl == nil || f == nil || f.cur == nil || cl.Step < 1 {
			if j.pass == 3 {
				j.r.Note("%s: the number of iterations of the loop that starts goroutines at %s was not determined", fname(j.root), pos)
			}
			st.kill(crF)
			st.gen("some:" + t)
			return
		}
		lim := j.limit(f.cur, st, cl)
		if k, ok := atoi(lim); ok {
			if k -= cl.First; k > 0 {
				k = (k + cl.Step - 1) / cl.Step
			}
			lim = fmt.Sprint(k)
		} else if cl.First != 0 || cl.Step != 1 {
			lim = fmt.Sprintf("(%s-%d)/%d", lim, cl.First, cl.Step)
		}
		if lim != cr[1] {
			j.bad("count", pos, "the wait group counts "+cr[1]+" goroutines, the loop starts "+lim, st)
		}
		j.spawn[lk][t] = true
		if st.has("sp:" + t + "|" + lk) {
			j.bad("count", pos, "an iteration starts more goroutines than the wait group counts", st)
		}
		st.gen("sp:" + t + "|" + lk)
	default:
		if j.pass == 3 {
			j.r.Note("%s: goroutines started in nested loops at %s: their number was not determined", fname(j.root), pos)
		}
		st.kill(crF)
		st.gen("some:" + t)
	}
}

func (j *joinRun) limit(p *path, st *State, l *countLoop) string {
	if ln, ok := l.Lim.(*ssa.Call); ok {
		if b, ok := ln.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, in := p.env[ln]; !in {
				a := j.again(p, st, ln.Call.Args[0])
				if a.N > 0 {
					return fmt.Sprint(a.N)
				}
				if a.Op == "makeslice" && len(a.Args) == 1 {
					return constOr(a.Args[0])
				}
				return "len(" + a.T + ")"
			}
		}
	}
	return constOr(j.e.val(p, st, l.Lim))
}

// again evaluates an operand that is no longer at hand, e.g. a variable that is read in the
// condition of the loop.
func (j *joinRun) again(p *path, st *State, v ssa.Value) *AVal {
	if _, in := p.env[v]; !in {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return j.e.load(st, j.again(p, st, x.X), x.Type())
			}
		case *ssa.FieldAddr:
			if b := j.again(p, st, x.X); b.T != "⊤" {
				return locField(b, fieldName(x.X.Type(), x.Field))
			}
		}
	}
	return j.e.val(p, st, v)
}

func (j *joinRun) backEdge(fr *Frame, st *State, h *ssa.BasicBlock) {
	lk := loopKey(h)
	pos := j.p.pos(h.Parent().Pos())
	each(st, "cr:", func(f string, x []string) {
		if strSet(x[2])[lk] {
			j.bad("count", pos, "an iteration counts a goroutine that it does not start", st)
			st.kill(f)
		}
	})
	j.round(st, lk, pos)
}

func (j *joinRun) round(st *State, lk, pos string) {
	for t := range j.spawn[lk] {
		if st.hasPrefix("cr:"+t+"|") && !st.has("sp:"+t+"|"+lk) {
			j.bad("count", pos, "an iteration starts no goroutine although the wait group counts one for each", st)
		}
		st.kill("sp:" + t + "|" + lk)
	}
}

// branch: a loop that started the counted goroutines ran to its end.
func (j *joinRun) branch(fr *Frame, p *path, st *State, x *ssa.If, truth bool) {
	b := x.Block()
	for _, h := range fr.Fn.Blocks {
		ts := j.spawn[loopKey(h)]
		if len(ts) == 0 {
			continue
		}
		cl := countAt(h)
		to := b.Succs[1]
		if truth {
			to = b.Succs[0]
		}
		in := loopBlocks(h)
		if cl == nil || in[to] {
			continue
		}
		if cl.Test != b {
			// the loop is not entered at all
			if !in[b] && guards(b, h, cl) {
				for t := range ts {
					st.killPrefix("cr:" + t + "|")
				}
			}
			continue
		}
		if cl.Test != h {
			j.round(st, loopKey(h), j.p.pos(h.Parent().Pos()))
		}
		for t := range ts {
			st.killPrefix("cr:" + t + "|")
			st.kill("sp:" + t + "|" + loopKey(h))
		}
	}
}

// guards: b decides, with the limit of the loop, whether it is entered.
func guards(b, h *ssa.BasicBlock, cl *countLoop) bool {
	isSucc := false
	for _, s := range b.Succs {
		isSucc = isSucc || s == h || len(s.Succs) == 1 && s.Succs[0] == h
	}
	if !isSucc {
		return false
	}
	_, lim := countsTo(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond)
	return lim != nil && lim == cl.Lim
}

// chanField: the channel is read from a field; its owner and name.
func chanField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || !isRepoPkg(n.Obj().Pkg()) {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + s.Field(fa.Field).Name()
}

// joinAnswers: a goroutine that serves requests from a channel answers each exactly once, and
// who asks takes exactly one answer.
func joinAnswers(p *Prog, r *Rep) {
	type use struct{ send, recv map[string]bool }
	uses := map[*ssa.Function]*use{}
	var fns []*ssa.Function
	named := map[string]bool{}
	for _, f := range p.Funcs {
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance of") || skipJoin(p, f) || named[fname(f)] {
			continue
		}
		named[fname(f)] = true
		u := &use{map[string]bool{}, map[string]bool{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					u.send[chanField(x.Chan)] = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						u.recv[chanField(x.X)] = true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly {
							u.recv[chanField(s.Chan)] = true
						} else {
							u.send[chanField(s.Chan)] = true
						}
					}
				}
			}
		}
		delete(u.send, "")
		delete(u.recv, "")
		if len(u.send)+len(u.recv) > 0 {
			uses[f] = u
			fns = append(fns, f)
		}
	}
	type pair struct{ q, a string }
	var pairs []pair
	clients := map[pair][]*ssa.Function{}
	for _, c := range fns {
		for _, q := range sortedKeys(uses[c].send) {
			for _, a := range sortedKeys(uses[c].recv) {
				if q == a || uses[c].recv[q] || q[:strings.LastIndex(q, ".")] != a[:strings.LastIndex(a, ".")] || !asksFirst(c, q, a) {
					continue
				}
				served, sent := false, false
				for _, s := range fns {
					served = served || uses[s].recv[q]
					sent = sent || uses[s].send[a]
				}
				if !served || !sent {
					continue
				}
				k := pair{q, a}
				if clients[k] == nil {
					pairs = append(pairs, k)
				}
				clients[k] = append(clients[k], c)
			}
		}
	}
	n := 0
	for _, k := range pairs {
		// functions that use the answers' channel, through calls
		rel := p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
			return g != nil && uses[g] != nil && (uses[g].send[k.a] || uses[g].recv[k.a] || uses[g].recv[k.q])
		})
		for f := range uses {
			if uses[f].send[k.a] || uses[f].recv[k.a] || uses[f].recv[k.q] || uses[f].send[k.q] {
				rel[f] = true
			}
		}
		for _, s := range fns {
			if !uses[s].recv[k.q] || !rel[s] {
				continue
			}
			answers := uses[s].send[k.a]
			for _, g := range fns {
				answers = answers || g.Parent() == s && uses[g].send[k.a]
			}
			if !answers {
				for g := range p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
					return g != nil && uses[g] != nil && uses[g].send[k.a]
				}) {
					answers = answers || g == s
				}
			}
			if !answers {
				continue
			}
			n++
			answerSide(p, r, s, k.q, k.a, rel, true)
		}
		for _, c := range clients[k] {
			answerSide(p, r, c, k.q, k.a, rel, false)
		}
	}
	r.Floor("goroutines that answer requests", n, 1)
}

// asksFirst: the function cannot get to an answer without having asked.
func asksFirst(f *ssa.Function, q, a string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	found := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || found {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if chanField(x.Chan) == q {
					return
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && chanField(x.X) == a {
					found = true
					return
				}
			case *ssa.Select:
				for _, s := range x.States {
					if chanField(s.Chan) == q && s.Dir == types.SendOnly {
						return
					}
				}
				for _, s := range x.States {
					if chanField(s.Chan) == a && s.Dir == types.RecvOnly {
						found = true
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return !found
}

func answerSide(p *Prog, r *Rep, f *ssa.Function, q, a string, rel map[*ssa.Function]bool, server bool) {
	field := func(x string) string { return x[strings.LastIndex(x, "."):] }
	key := "asks@" + fname(f)
	if server {
		key = "answers@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "each request received from "+q+" is answered exactly once on "+a)
	} else {
		r.Ob(key, p.pos(f.Pos()), "a request sent to "+q+" is followed by taking exactly one answer from "+a)
	}
	bad := func(st *State, pos, msg string) { r.Bad(key, pos, msg, st.traceString()) }
	var e *Engine
	in := 0
	e = NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return smallFn(g) || pkgOf(g) == pkgOf(f) && (rel[g] || g.Parent() != nil) },
		Call: func(c *CallCtx) []*Outcome {
			if c.Name == "builtin.close" && strings.HasSuffix(c.Args[0].T, field(a)) && server {
				bad(c.St, p.pos(c.Pos()), "the channel of the answers is closed while requests may be waiting")
			}
			return nil
		},
		Recv: func(fr *Frame, st *State, ch *AVal, ps token.Pos) {
			switch {
			case server && strings.HasSuffix(ch.T, field(q)):
				if st.has("open") {
					bad(st, p.pos(ps), "takes the next request before the previous one was answered")
				}
				st.gen("open")
			case !server && strings.HasSuffix(ch.T, field(a)):
				if !st.has("open") {
					bad(st, p.pos(ps), "takes an answer to a request it did not make, which somebody else waits for")
				}
				st.kill("open")
			}
		},
		Send: func(fr *Frame, st *State, ch, v *AVal, ps token.Pos) {
			switch {
			case server && strings.HasSuffix(ch.T, field(a)):
				if !st.has("open") {
					bad(st, p.pos(ps), "answers a request a second time: the answer is left for somebody else or never taken")
				}
				st.kill("open")
			case !server && strings.HasSuffix(ch.T, field(q)):
				if st.has("open") {
					bad(st, p.pos(ps), "asks again before taking the answer")
				}
				st.gen("open")
			}
		},
		Go: func(c *CallCtx) bool {
			if c.Fn == nil || !isRepoFn(c.Fn) || !rel[c.Fn] || e.active[c.Fn] > 0 || !c.St.has("open") {
				return true
			}
			in++
			all, any := true, false
			for _, o := range e.run(c.Fn, c.Args, c.Bind, c.St, c.Fr, c.In) {
				if !o.Panic {
					any = true
					all = all && !o.St.has("open")
				}
			}
			in--
			if any && all {
				c.St.kill("open")
			}
			return true
		},
		Return: func(fr *Frame, st *State, results []*AVal, ps token.Pos) {
			if fr.Parent == nil && in == 0 && st.has("open") {
				if server {
					bad(st, p.pos(ps), "ends without answering the request")
				} else {
					bad(st, p.pos(ps), "returns without taking the answer, which somebody else will get")
				}
			}
		},
	})
	e.SelectFork = true
	e.RunEntry(f)
	r.absorb(e)
}
