package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resource types and the methods that release them
var closers = map[string][]string{
	"*database/sql.Rows": {"database/sql.(*Rows).Close"},
	"*database/sql.Stmt": {"database/sql.(*Stmt).Close"},
	"*database/sql.Conn": {"database/sql.(*Conn).Close"},
	"*database/sql.Tx":   {"database/sql.(*Tx).Commit", "database/sql.(*Tx).Rollback"},
	"*os.File":           {"os.(*File).Close"},
	"*net/http.Response": {},
	"fd":                 {"pkg/util/noallocs.Close", "golang.org/x/sys/unix.Close"},
	"tempname":           {},
}

var sqlResources = map[string]bool{"*database/sql.Rows": true, "*database/sql.Stmt": true, "*database/sql.Conn": true, "*database/sql.Tx": true}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return short(p.Path()) })
}

func init() {
	register(&Check{ID: "C07", Level: "proof",
		Explain: "Path-sensitive typestate over the SSA of every function that obtains SQL rows, statements, connections or transactions: each is closed (or committed or rolled back) or handed to its new owner on every path, and a result set that was iterated to its end has its iteration error checked before the function reports success.",
		Run:     func(p *Prog, r *Rep, th bool) { runRelease(p, r, sqlResources, true) }})
	register(&Check{ID: "C08", Level: "proof",
		Explain: "Path-sensitive typestate over the SSA of every function that opens files or HTTP responses: each handle is closed or handed to its new owner on every path that returns, including error paths; temporary files created for a bulk load are removed or handed to the caller on every path.",
		Run: func(p *Prog, r *Rep, th bool) {
			runRelease(p, r, map[string]bool{"*os.File": true, "*net/http.Response": true}, false)
		}})
}

func runRelease(p *Prog, r *Rep, kinds map[string]bool, sql bool) {
	total := 0
	wrapperKinds(p, kinds)
	for _, f := range p.Funcs {
		if isTestSupport(pkgOf(f)) || f.Synthetic != "" || f.Parent() != nil && onlyCalledByParent(f) {
			continue
		}
		total += checkRelease(p, r, f, kinds, sql)
	}
	checkCloseMethods(p, r, kinds)
	if !sql {
		checkFileSinks(p, r)
	}
	if sql {
		r.Floor("SQL resources followed", total, 6)
	} else {
		r.Floor("files and responses followed", total, 8)
	}
}

func acquires(c ssa.CallInstruction, kinds map[string]bool) (int, string) {
	com := c.Common()
	res := com.Signature().Results()
	n := calleeName(com)
	// accessors hand out what somebody else owns
	if strings.HasPrefix(n, "builtin.") {
		return -1, ""
	}
	if kinds["*os.File"] && res.Len() == 2 && isErrorType(res.At(1).Type()) && opensReceiver(com) {
		return 0, "opened"
	}
	// descriptors and temporary files of the allocation-free file functions
	if kinds["*os.File"] && strings.HasPrefix(n, "pkg/util/noallocs.") && res.Len() == 2 && isErrorType(res.At(1).Type()) {
		if isInt(res.At(0).Type()) {
			return 0, "fd"
		}
		if isStringType(res.At(0).Type()) && strings.Contains(n, "Temp") {
			return 0, "tempname"
		}
	}
	for i := 0; i < res.Len(); i++ {
		t := tname(res.At(i).Type())
		if kinds[t] || wrapperKinds(nil, kinds)[t] {
			if strings.HasPrefix(n, "database/sql.(*Tx).Stmt") || strings.HasSuffix(n, ".DB") || n == "" && t != "*database/sql.Rows" {
				return -1, ""
			}
			return i, t
		}
	}
	return -1, ""
}

func checkRelease(p *Prog, r *Rep, f *ssa.Function, kinds map[string]bool, sql bool) int {
	any := false
	var scan func(g *ssa.Function)
	scan = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if i, _ := acquires(c, kinds); i >= 0 {
						any = true
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			if onlyCalledByParent(a) {
				scan(a)
			}
		}
	}
	scan(f)
	if !any {
		return 0
	}
	n := 0
	occ := map[ssa.Instruction]string{}
	cnt := map[string]int{}
	terms := map[string]map[string]bool{}
	kindOf := map[string]string{}
	isTmp := map[string]bool{}
	mention := func(k string, v *AVal) bool {
		for t := range terms[k] {
			if v.contains(t) || v.contains(primed(t)) {
				return true
			}
		}
		return false
	}
	deep := func(st *State, k string, v *AVal) bool {
		if mention(k, v) {
			return true
		}
		seen := map[string]bool{}
		work := rootsIn(v.T)
		for _, b := range v.Bind {
			work = append(work, rootsIn(b.T)...)
		}
		for len(work) > 0 {
			ro := work[0]
			work = work[1:]
			if seen[ro] {
				continue
			}
			seen[ro] = true
			for l, m := range st.mem {
				if rootOf(strings.TrimPrefix(l, "&")) != ro {
					continue
				}
				if mention(k, m) {
					return true
				}
				work = append(work, rootsIn(m.T)...)
				for _, b := range m.Bind {
					work = append(work, rootsIn(b.T)...)
				}
			}
		}
		return false
	}
	live := func(st *State, g func(k, fact string)) {
		for fct := range st.facts {
			if i := strings.IndexByte(fct, ':'); i > 0 && (fct[:i] == "open" || fct[:i] == "tmp") {
				g(fct[i+1:], fct)
			}
		}
	}
	escape := func(st *State, v *AVal, t types.Type, tmpToo bool) {
		own := canOwn(t, kinds, 0)
		if t != nil && isInt(t) {
			live(st, func(k, fct string) {
				if kindOf[k] == "fd" && strings.HasPrefix(fct, "open:") && mention(k, v) {
					st.kill(fct)
				}
			})
		}
		if !own && !(tmpToo && isStringType(t)) {
			return
		}
		live(st, func(k, fct string) {
			if (own && strings.HasPrefix(fct, "open:") || tmpToo && strings.HasPrefix(fct, "tmp:")) && deep(st, k, v) {
				st.kill(fct)
			}
		})
	}
	recvOpens := f.Name() == "Open" && f.Signature.Recv() != nil && hasMethod(f.Signature.Recv().Type(), "Close")
	var h Hooks
	closes := p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
		nm := calleeName(c.Common())
		return strings.HasSuffix(nm, ".Close") || nm == "os.Remove" || strings.HasSuffix(nm, ".Rollback") || strings.HasSuffix(nm, ".Commit")
	})
	passes := false
	_ = passes
	h.Inline = func(fn *ssa.Function) bool {
		// what hands out a holder of a resource is judged by itself; here the holder counts
		if res := fn.Signature.Results(); res.Len() > 0 && wrapperKinds(nil, kinds)[tname(res.At(0).Type())] {
			return false
		}
		if sql && len(fn.Blocks) > 0 && p.sole(fn) && pkgOf(fn) == pkgOf(f) {
			for _, pa := range fn.Params {
				if kinds[tname(pa.Type())] {
					return true
				}
			}
		}
		if recvOpens && len(fn.Blocks) > 0 && p.sole(fn) && pkgOf(fn) == pkgOf(f) {
			for _, pa := range fn.Params {
				if types.Identical(pa.Type(), f.Signature.Recv().Type()) {
					return true
				}
			}
		}
		return fn.Parent() != nil && topFn(fn) == topFn(f) ||
			fn.Name() == "Close" && fn.Signature.Recv() != nil && wrapperKinds(nil, kinds)[tname(fn.Signature.Recv().Type())] || closes[fn] && pkgOf(fn) == pkgOf(f) && (takesResource(fn, kinds) || p.sole(fn) && takesHolder(fn, wrapperKinds(p, kinds)))
	}
	h.Go = func(c *CallCtx) bool {
		if c.Fn != nil && len(c.Fn.Blocks) > 0 && c.Fn.Parent() != nil && c.E.active[c.Fn] == 0 {
			// a resource that the goroutine uses is the goroutine's to release
			var mine []string
			live(c.St, func(k, fct string) {
				if !strings.HasPrefix(fct, "open:") {
					return
				}
				for _, b := range append(append([]*AVal{}, c.Args...), c.Bind...) {
					if deep(c.St, k, b) {
						mine = append(mine, fct)
						return
					}
				}
			})
			if len(mine) > 0 {
				for _, o := range c.E.run(c.Fn, c.Args, c.Bind, c.St.clone(), c.Fr, c.In) {
					for _, fct := range mine {
						if !o.Panic && o.St.facts[fct] {
							r.Bad("release@"+fct[5:], p.pos(c.Pos()), "the goroutine it is handed to returns without releasing it", o.St.traceString())
						}
					}
				}
			}
		}
		for _, a := range c.Args {
			escape(c.St, a, nil, true)
		}
		for _, b := range c.Bind {
			escape(c.St, b, nil, true)
		}
		return true
	}
	h.Call = func(c *CallCtx) []*Outcome {
		// releases
		for _, k := range sortedKeys(c.St.facts) {
			i := strings.IndexByte(k, ':')
			if i < 0 || k[:i] != "open" && k[:i] != "iter" && k[:i] != "tmp" {
				continue
			}
			site := k[i+1:]
			if len(c.Args) == 0 {
				continue
			}
			switch k[:i] {
			case "open":
				rel := false
				for _, m := range closers[kindOf[site]] {
					if c.Name == m {
						rel = true
					}
				}
				if strings.HasSuffix(c.Name, ".Close") && (strings.HasPrefix(c.Name, "io.") || strings.Contains(c.Args[0].T, ".Body")) {
					rel = true
				}
				if kindOf[site] == "opened" && strings.HasSuffix(c.Name, ").Close") || kindOf[site] == "opened" && strings.HasSuffix(c.Name, ".Close") {
					rel = true
				}
				if wrapperKinds(p, kinds)[kindOf[site]] && strings.HasSuffix(c.Name, ").Close") {
					rel = true
				}
				if rel && deep(c.St, site, c.Args[0]) {
					c.St.kill(k)
				}
			case "iter":
				if c.Name == "database/sql.(*Rows).Err" && mention(site, c.Args[0]) {
					c.St.kill(k)
				}
			case "tmp":
				if (c.Name == "os.Remove" || c.Name == "os.RemoveAll") && mention(site, c.Args[0]) {
					c.St.kill(k)
				}
				if c.Name == "os.Rename" && mention(site, c.Args[0]) && !c.IsDefer {
					// a failed rename leaves it where it is
					return c.E.Split(c, func(st *State, _ []*AVal) { st.kill(k) }, nil)
				}
			}
		}
		if c.Name == "database/sql.(*Rows).Next" || c.Name == "database/sql.(*Rows).Err" {
			if c.Name == "database/sql.(*Rows).Err" {
				return c.E.Split(c, nil, func(st *State, _ []*AVal) {
					for k := range terms {
						if kindOf[k] == "*database/sql.Rows" && len(c.Args) > 0 && mention(k, c.Args[0]) {
							st.gen("broken:" + k)
						}
					}
				})
			}
			return nil
		}
		if c.Fn != nil && c.E.shouldInline(c.Fn) {
			return nil
		}
		if i, t := acquires(c.In, kinds); i >= 0 && !c.IsDefer {
			k, ok := occ[c.In]
			if !ok {
				base := fname(f) + "/" + lastTwo(c.Name)
				cnt[base]++
				k = base
				if cnt[base] > 1 {
					k = fmt.Sprintf("%s~%d", base, cnt[base])
				}
				occ[c.In] = k
				n++
				if t != "tempname" {
					what := t
					if t == "opened" || t == "fd" {
						what = "file"
					}
					r.Ob("release@"+k, p.pos(c.Pos()), "the "+what+" obtained here is released or handed over on every path")
				}
				if t == "*database/sql.Rows" {
					r.Ob("rowserr@"+k, p.pos(c.Pos()), "an interrupted iteration of this result set is not taken for its end")
				}
				if c.Name == "os.CreateTemp" || t == "tempname" {
					r.Ob("tempfile@"+k, p.pos(c.Pos()), "the temporary file is removed or handed over on every path")
				}
				kindOf[k] = t
				isTmp[k] = c.Name == "os.CreateTemp" || t == "tempname"
				terms[k] = map[string]bool{}
			}
			return c.E.Split(c, func(st *State, rs []*AVal) {
				if t == "opened" {
					// the receiver of Open is what has to be closed
					terms[k][c.Args[0].T] = true
				} else {
					terms[k][rs[i].T] = true
				}
				if t != "tempname" {
					st.gen("open:" + k)
				}
				if isTmp[k] {
					st.gen("tmp:" + k)
				}
			}, nil)
		}
		// handing over to code that is not simulated: repository callees that keep what they
		// are given, and stored callbacks
		if strings.HasPrefix(c.Name, "dyn:") || c.Fn != nil && isRepoFn(c.Fn) && len(keepsArgs(c.Fn)) > 0 {
			keeps := map[int]bool{}
			if c.Fn != nil {
				keeps = keepsArgs(c.Fn)
			}
			com := c.In.Common()
			off := len(c.Args) - len(com.Args)
			for i, a := range c.Args {
				var t types.Type
				if i >= off && i-off < len(com.Args) {
					t = com.Args[i-off].Type()
				}
				if len(keeps) > 0 && !keeps[i] && !keeps[-1] {
					continue
				}
				escape(c.St, a, t, false)
			}
		}
		return nil
	}
	h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		if v.Op == "call:database/sql.(*Rows).Next" && !truth {
			for k := range terms {
				if kindOf[k] == "*database/sql.Rows" && mention(k, v) {
					st.gen("iter:" + k)
				}
			}
		}
	}
	h.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
		if recvOpens && strings.HasPrefix(strings.TrimPrefix(addr.T, "&"), f.Params[0].Name()+".") {
			// nobody closes what could not be opened
			live(st, func(k, fct string) {
				if strings.HasPrefix(fct, "open:") && deep(st, k, val) {
					st.gen("kept:" + k)
				}
			})
			return
		}
		if !strings.HasPrefix(strings.TrimPrefix(addr.T, "&"), "@") {
			escape(st, val, in.Val.Type(), true)
		}
	}
	h.MapUpd = func(fr *Frame, st *State, m, kk, v *AVal, in *ssa.MapUpdate) { escape(st, v, in.Value.Type(), true) }
	h.Send = func(fr *Frame, st *State, ch, v *AVal, pos token.Pos) { escape(st, v, nil, true) }
	e := NewEngine(p, h)
	for _, o := range e.RunEntry(f) {
		if o.Panic {
			continue
		}
		if m := len(o.Results); m > 0 && o.Results[m-1].Nil != yes {
			for _, fct := range sortedKeys(o.St.facts) {
				if strings.HasPrefix(fct, "kept:") {
					o.St.kill("open:" + fct[5:])
				}
			}
		}
		for i, v := range o.Results {
			escape(o.St, v, f.Signature.Results().At(i).Type(), true)
		}
		failed := false
		if m := len(o.Results); m > 0 && isErrorType(f.Signature.Results().At(m-1).Type()) && o.Results[m-1].Nil != no {
			failed = true
		}
		for fct := range o.St.facts {
			i := strings.IndexByte(fct, ':')
			if i < 0 {
				continue
			}
			k := fct[i+1:]
			switch fct[:i] {
			case "open":
				r.Bad("release@"+k, "", "a path returns without releasing it", o.St.traceString())
			case "tmp":
				r.Bad("tempfile@"+k, "", "a path returns while the temporary file still exists and nobody else knows its name", o.St.traceString())
			case "broken":
				if !failed && sql {
					r.Bad("rowserr@"+k, "", "the function reports success although the iteration was found to have ended because of an error", o.St.traceString())
				}
			case "iter":
				if !failed && sql {
					r.Bad("rowserr@"+k, "", "the function reports success after the iteration ended without checking whether it ended because of an error", o.St.traceString())
				}
			}
		}
	}
	r.absorb(e)
	return n
}

// keepsArgs: the function stores a pointer parameter into memory it does not own (constructor
// of a wrapper, registration) or returns something built from it.
func keepsArgs(fn *ssa.Function) map[int]bool {
	out := map[int]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				for i, p := range fn.Params {
					if x.Val == p || unwraps(x.Val, p) {
						out[i] = true
					}
				}
			case *ssa.MakeClosure:
				out[-1] = true
			}
		}
	}
	return out
}

func unwraps(v ssa.Value, p *ssa.Parameter) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return x.X == p
	case *ssa.ChangeInterface:
		return x.X == p
	}
	return false
}

func takesResource(fn *ssa.Function, kinds map[string]bool) bool {
	for _, v := range fn.FreeVars {
		if t := tname(deref(v.Type())); kinds[t] || kinds[tname(v.Type())] || strings.HasPrefix(t, "io.") || t == "string" {
			return true
		}
	}
	for _, p := range fn.Params {
		t := tname(p.Type())
		if kinds[t] || strings.HasPrefix(t, "io.") || t == "string" {
			return true
		}
	}
	return false
}

func takesHolder(fn *ssa.Function, holders map[string]bool) bool {
	for _, p := range fn.Params {
		if holders[tname(p.Type())] {
			return true
		}
	}
	return false
}

// checkCloseMethods: a repository type that holds a resource in a field and has a Close method
// closes that field on every path of Close.
func checkCloseMethods(p *Prog, r *Rep, kinds map[string]bool) {
	for _, f := range p.Funcs {
		if f.Name() != "Close" || f.Signature.Recv() == nil || f.Synthetic != "" || isTestSupport(pkgOf(f)) {
			continue
		}
		pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, fl := range resourceFields(st, kinds, 0) {
			key := "close@" + fname(f) + "/" + fl
			r.Ob(key, p.pos(f.Pos()), "Close releases what the object holds on every path")
			e := NewEngine(p, Hooks{Call: func(c *CallCtx) []*Outcome {
				for k := range kinds {
					for _, m := range closers[k] {
						if c.Name == m && len(c.Args) > 0 && strings.Contains(c.Args[0].T, "."+fl) {
							c.St.gen("closed")
						}
					}
				}
				return nil
			}})
			for _, o := range e.RunEntry(f) {
				if !o.Panic && !o.St.facts["closed"] {
					r.Bad(key, "", "a path through Close leaves it open", o.St.traceString())
				}
			}
			r.absorb(e)
		}
	}
}

// checkFileSinks: the last stage of a pipeline that carries file names removes every file it
// is given on every path.
func checkFileSinks(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if isTestSupport(pkgOf(f)) || pkgOf(f) == "pkg/pipeline" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				g := c.Common().StaticCallee()
				if o := g.Origin(); o != nil {
					g = o
				}
				if pkgOf(g) != "pkg/pipeline" || g.Name() != "WithSinkFunction" {
					continue
				}
				for _, t := range closureTargets(c.Call.Args[0]) {
					if len(t.Params) != 1 {
						continue
					}
					var want []string
					if isStringType(t.Params[0].Type()) {
						want = []string{""}
					} else if st, ok := t.Params[0].Type().Underlying().(*types.Struct); ok {
						// nothing but names: a group of files, not a record
						for i := 0; i < st.NumFields(); i++ {
							if !isStringType(st.Field(i).Type()) {
								want = nil
								break
							}
							want = append(want, "."+st.Field(i).Name())
						}
					}
					if len(want) == 0 {
						continue
					}
					n++
					key := "sink@" + fname(f)
					r.Ob(key, p.pos(t.Pos()), "the last stage removes every file it is handed on every path")
					e := NewEngine(p, Hooks{Call: func(c *CallCtx) []*Outcome {
						if (c.Name == "os.Remove" || c.Name == "os.RemoveAll") && len(c.Args) > 0 {
							c.St.gen("removed:" + c.Args[0].T)
						}
						return nil
					}})
					for _, o := range e.RunEntry(t) {
						if o.Panic {
							continue
						}
						for _, w := range want {
							done := false
							for fct := range o.St.facts {
								done = done || strings.HasPrefix(fct, "removed:") && strings.Contains(fct, t.Params[0].Name()) && strings.HasSuffix(fct, w)
							}
							if !done {
								r.Bad(key, p.pos(t.Pos()), "a path does not remove the file "+t.Params[0].Name()+w, o.St.traceString())
							}
						}
					}
					r.absorb(e)
				}
			}
		}
	}
	r.Floor("stages that end the way of temporary files", n, 1)
}

func resourceFields(st *types.Struct, kinds map[string]bool, d int) []string {
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if kinds[tname(st.Field(i).Type())] {
			out = append(out, st.Field(i).Name())
		} else if s, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Embedded() && d < 3 {
			out = append(out, resourceFields(s, kinds, d+1)...)
		}
	}
	return out
}

// opensReceiver: Open() (reader, error) on a repository type that also has Close().
func opensReceiver(com *ssa.CallCommon) bool {
	name, recv := "", types.Type(nil)
	if com.IsInvoke() {
		name, recv = com.Method.Name(), com.Value.Type()
	} else if g := com.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		name, recv = g.Name(), g.Signature.Recv().Type()
	}
	if name != "Open" || recv == nil || !strings.Contains(recv.String(), modPath) {
		return false
	}
	return hasMethod(recv, "Close")
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

var wrapMemo = map[bool]map[string]bool{}

// wrapperKinds: pointers to repository types that hold one of the resources in a field and
// have a Close method; who obtains one has to close it.
func wrapperKinds(p *Prog, kinds map[string]bool) map[string]bool {
	key := kinds["*os.File"]
	if p == nil || wrapMemo[key] != nil {
		return wrapMemo[key]
	}
	m := map[string]bool{}
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, mem := range pk.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			has := func(n string) bool {
				o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t.Type()), true, nil, n)
				_, ok := o.(*types.Func)
				return ok
			}
			holds := false
			for i := 0; i < st.NumFields(); i++ {
				holds = holds || kinds[tname(st.Field(i).Type())]
			}
			if holds && has("Close") && !has("Open") {
				m[tname(types.NewPointer(t.Type()))] = true
			}
		}
	}
	wrapMemo[key] = m
	return m
}

func isStringType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isStringType(u.Elem())
	}
	return false
}

// canOwn: a value of the type can hold on to one of the tracked resources: it is one, contains
// one, or contains a function or an interface through which it could be read or closed.
func canOwn(t types.Type, kinds map[string]bool, d int) bool {
	if t == nil {
		return true
	}
	if kinds[tname(t)] {
		return true
	}
	if isErrorType(t) {
		return false
	}
	if d > 12 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && kinds["*"+tname(n)] {
			return true
		}
		return canOwnSeen(u.Elem(), kinds, d)
	case *types.Slice:
		return canOwn(u.Elem(), kinds, d+1)
	case *types.Array:
		return canOwn(u.Elem(), kinds, d+1)
	case *types.Map:
		return canOwn(u.Elem(), kinds, d+1)
	case *types.Chan:
		return canOwn(u.Elem(), kinds, d+1)
	case *types.Signature:
		return true
	case *types.Interface:
		for i := 0; i < u.NumMethods(); i++ {
			switch u.Method(i).Name() {
			case "Read", "Write", "Close", "Next", "Scan":
				return true
			}
		}
		return false
	case *types.Struct:
		return canOwnSeen(t, kinds, d)
	}
	return false
}

var ownMemo = map[string]bool{}

func canOwnSeen(t types.Type, kinds map[string]bool, d int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return canOwn(t, kinds, d+1)
	}
	// data types of the standard library never hold files
	key := fmt.Sprint(len(kinds), kinds["*os.File"]) + t.String()
	if v, ok := ownMemo[key]; ok {
		return v
	}
	ownMemo[key] = false
	r := false
	for i := 0; i < st.NumFields() && !r; i++ {
		r = canOwn(st.Field(i).Type(), kinds, d+1)
	}
	ownMemo[key] = r
	return r
}
