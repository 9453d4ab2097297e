package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elems returns the values of a variadic argument built at the call site.
func (c *CallCtx) elems(i int) []*AVal {
	if i >= len(c.Args) {
		return nil
	}
	return c.elemsOf(c.Args[i])
}

func (c *CallCtx) elemsOf(a *AVal) []*AVal {
	loc := a.T
	if strings.HasPrefix(loc, "&") {
		loc = loc[1:]
	}
	if !strings.HasPrefix(loc, "@") {
		return nil
	}
	var out []*AVal
	for k := 0; ; k++ {
		v, ok := c.St.mem[fmt.Sprintf("&%s[%d]", loc, k)]
		if !ok {
			v, ok = c.St.mem[fmt.Sprintf("%s[%d]", loc, k)]
		}
		if !ok {
			return out
		}
		out = append(out, v)
	}
}

// allArgs: the arguments with variadic slices expanded.
func (c *CallCtx) allArgs() []*AVal {
	out := append([]*AVal{}, c.Args...)
	if c.Sig != nil && c.Sig.Variadic() && len(c.Args) > 0 {
		out = append(out, c.elems(len(c.Args)-1)...)
	}
	return out
}

// errScope: calls whose failure means that a durable or security-relevant step did not happen.
func errScope(name string, sig *types.Signature, c ssa.CallInstruction) bool {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return false
	}
	for _, p := range []string{"database/sql.", "encoding/csv.(*Reader)", "encoding/csv.(*Writer).Error", "encoding/json.", "crypto/", "compress/gzip.NewReader", "encoding/base64.", "encoding/pem.", "encoding/hex.", "net/http.(*Client)", "net/http.Get", "io.ReadAll", "io.ReadFull", "io.Copy", "bufio.(*Writer).Flush"} {
		if strings.HasPrefix(name, p) {
			return !strings.HasSuffix(name, ".Close")
		}
	}
	if strings.HasPrefix(name, "os.") {
		for _, s := range []string{"os.Create", "os.CreateTemp", "os.Open", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Rename", "os.(*File).Write", "os.(*File).WriteString", "os.(*File).Sync", "os.(*File).Read", "os.ReadDir", "os.MkdirAll", "os.Mkdir"} {
			if name == s {
				return true
			}
		}
		return false
	}
	for _, p := range []string{"pkg/", "cmd/", "dyn:"} {
		if strings.HasPrefix(name, p) && !isTestSupport(name) {
			return true
		}
	}
	return false
}

// strictScope: any call that can fail.
func strictScope(name string, sig *types.Signature) bool {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return false
	}
	return !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "errors.") && !strings.HasSuffix(name, ".Err")
}

var logLike = []string{"log.", "fmt.Print", "fmt.Fprint", "fmt.Sprint", "fmt.Errorf", "errors.", "builtin.print", "os.(*File).WriteString",
	"pkg/statistics.", "pkg/tracing."}

func isLog(name string) bool {
	for _, p := range logLike {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C06", Level: "proof",
		Explain: "Path-sensitive error-flow analysis over the SSA of every function of the shipped packages: for each call of a database, tree, journal, file, codec or crypto operation (and of each repository function that returns an error), every path on which it failed must end in a non-nil error, false verdict, exit or panic, or hand the error value on (channel, stored field, error-taking callee, recognised sentinel, or a log line when the function has no way to report).",
		Run:     runC06})
}

func runC06(p *Prog, r *Rep, thorough bool) {
	nsites := 0
	for _, f := range p.Funcs {
		pk := pkgOf(f)
		if isTestSupport(pk) || f.Synthetic != "" || strings.HasPrefix(pk, "pkg/tests") {
			continue
		}
		if f.Parent() != nil && onlyCalledByParent(f) {
			continue // simulated inside its parent
		}
		n := checkErrFlow(p, r, f, false)
		nsites += n
	}
	r.Note("%d error-returning call sites decided", nsites)
	r.Floor("error-returning call sites decided", nsites, 250)
}

// discardedInDefer: the call ends a resource, and is made for nothing else, in a closure that
// is only ever deferred.
func discardedInDefer(in ssa.CallInstruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok || c.Referrers() == nil || len(*c.Referrers()) > 0 {
		return false
	}
	f := c.Parent()
	if f.Parent() == nil {
		return false
	}
	calls := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(ssa.CallInstruction); ok {
				calls++
			}
		}
	}
	if n := lastName(calleeName(c.Common())); calls > 1 && n != "Close" && n != "Rollback" {
		return false
	}
	deferred := false
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				v := *op
				if m, ok := v.(*ssa.MakeClosure); ok && m.Fn == f || v == ssa.Value(f) {
					if _, ok := i.(*ssa.Defer); ok {
						deferred = true
					} else if _, ok := i.(*ssa.MakeClosure); !ok {
						return false
					}
				}
			}
		}
	}
	return deferred
}

// onlyCalledByParent: the closure's value is used for nothing but direct calls and defers.
func onlyCalledByParent(f *ssa.Function) bool {
	refs := f.Referrers()
	if refs == nil {
		return false
	}
	ok := false
	for _, in := range *refs {
		mc, isMc := in.(*ssa.MakeClosure)
		if !isMc {
			if c, isC := in.(ssa.CallInstruction); isC && c.Common().Value == f {
				if _, g := in.(*ssa.Go); g {
					return false
				}
				ok = true
				continue
			}
			return false
		}
		for _, u := range *mc.Referrers() {
			if _, dbg := u.(*ssa.DebugRef); dbg {
				continue
			}
			c, isC := u.(ssa.CallInstruction)
			if !isC || c.Common().Value != mc {
				return false
			}
			if _, g := u.(*ssa.Go); g {
				return false
			}
			ok = true
		}
	}
	return ok
}

func hasErrScopeCall(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(c.Common())
				if errScope(n, c.Common().Signature(), c) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if onlyCalledByParent(a) && hasErrScopeCall(a) {
			return true
		}
	}
	return false
}

// takesError: a small helper that is handed an error, alone or in a structure.
func takesError(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(fn.Blocks) > 40 || fn.Synthetic != "" {
		return false
	}
	for _, pa := range fn.Params {
		if errPath(pa.Type()) != "-" && (fn.Signature.Recv() == nil || pa != fn.Params[0]) {
			return true
		}
	}
	return false
}

// fillsErr: the function stores an error in (an element of) the captured variable.
func fillsErr(fn *ssa.Function, fv ssa.Value, depth int) bool {
	if depth > 4 || fv.Referrers() == nil {
		return false
	}
	for _, u := range *fv.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == fv && isErrorType(x.Val.Type()) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == fv && fillsErr(fn, x, depth+1) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.Type().Underlying().(*types.Slice); ok && fillsErr(fn, x, depth+1) {
					return true
				}
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv && fillsErr(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func startsGo(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

func hasErrRecv(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				t := u.Type()
				if u.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
				}
				if errPath(t) != "-" {
					return true
				}
			}
		}
	}
	return false
}

// In strict mode every call that can fail counts, a log line or a sentinel excuses nothing, and an
// error must not be dropped for a next iteration.
func checkErrFlow(p *Prog, r *Rep, f *ssa.Function, strict bool) int {
	if !strict && !hasErrScopeCall(f) && !hasErrRecv(f) && !startsGo(f) {
		return 0
	}
	sites := map[string]bool{}
	occ := map[ssa.Instruction]string{}
	cnt := map[string]int{}
	siteKey := func(c *CallCtx) string {
		if k, ok := occ[c.In]; ok {
			return k
		}
		base := "err@" + fname(f) + "/" + lastTwo(c.Name)
		cnt[base]++
		k := base
		if cnt[base] > 1 {
			k = fmt.Sprintf("%s~%d", base, cnt[base])
		}
		occ[c.In] = k
		return k
	}
	terms := map[string]map[string]bool{} // site key -> error terms
	noErr := true
	if rs := f.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
		noErr = false
	}
	mention := func(k string, v *AVal) bool {
		k = strings.TrimSuffix(k, "+seen")
		for t := range terms[k] {
			if v.contains(t) || v.contains(primed(t)) {
				return true
			}
		}
		return false
	}
	eachLive := func(st *State, g func(k string)) {
		for fct := range st.facts {
			if strings.HasPrefix(fct, "err@") {
				g(fct)
			}
		}
	}
	// reported: a value handed on (sent, stored outside the function, passed along) is an
	// error report when it is a non-nil error, or a structure holding one.
	reported := func(st *State, v *AVal, t types.Type) {
		if t != nil && isErrorType(t) && (v.Nil == yes || st.has("nn:"+v.T)) {
			st.killPrefix("err@")
			return
		}
		if t != nil {
			if pa := errPath(t); pa != "-" && pa != "" {
				if ev := v.F[pa]; ev != nil && (ev.Nil == yes || st.has("nn:"+ev.T)) {
					st.killPrefix("err@")
					return
				}
			}
		}
		roots := rootsIn(v.T)
		eachLive(st, func(k string) {
			hit := mention(k, v)
			for l, m := range st.mem {
				if hit {
					break
				}
				for _, ro := range roots {
					if rootOf(strings.TrimPrefix(l, "&")) == ro && mention(k, m) {
						hit = true
					}
				}
			}
			if hit {
				st.kill(k)
			}
		})
	}
	slots := map[string]string{}
	calls := map[string]ssa.CallInstruction{}
	var h Hooks
	h.Inline = func(fn *ssa.Function) bool {
		return fn.Parent() != nil && topFn(fn) == topFn(f) || takesError(fn) && pkgOf(fn) == pkgOf(f) ||
			strict && pkgOf(fn) == pkgOf(f) && p.sole(fn) && cannotFail(fn)
	}
	h.Go = func(c *CallCtx) bool {
		// the goroutine body is decided on its own
		for i, b := range c.Bind {
			if c.Fn != nil && i < len(c.Fn.FreeVars) && fillsErr(c.Fn, c.Fn.FreeVars[i], 0) {
				k := "slot@" + fname(f) + "/" + c.Fn.FreeVars[i].Name()
				r.Ob(k, p.pos(c.Pos()), "errors that goroutines leave in a variable are looked at before success is reported")
				slots[k] = locOf(b)
				c.St.gen(k)
			}
		}
		return true
	}
	h.Load = func(fr *Frame, st *State, addr *AVal, in ssa.Instruction) {
		for k, l := range slots {
			if locOf(addr) == l {
				st.kill(k)
			}
		}
	}
	h.Call = func(c *CallCtx) []*Outcome {
		if c.Name == "net/http.Error" {
			c.St.killPrefix("err@")
		}
		if !isLog(c.Name) && !strings.HasPrefix(c.Name, "builtin.") && c.Sig != nil && !(strict && (c.Fn == nil || !isRepoFn(c.Fn))) {
			off := len(c.Args) - c.Sig.Params().Len()
			for i := 0; i < c.Sig.Params().Len(); i++ {
				if i+off < len(c.Args) && i+off >= 0 && isErrorType(c.Sig.Params().At(i).Type()) {
					reported(c.St, c.Args[i+off], c.Sig.Params().At(i).Type())
				}
			}
		}
		if c.Name == "builtin.append" && len(c.Args) == 2 {
			// collected in a list of errors
			if sl, ok := c.In.Common().Args[0].Type().Underlying().(*types.Slice); ok && isErrorType(sl.Elem()) {
				for _, a := range c.elems(1) {
					eachLive(c.St, func(k string) {
						if mention(k, a) {
							c.St.kill(k)
						}
					})
				}
			}
		}
		inlined := c.Fn != nil && c.E.shouldInline(c.Fn)
		for _, a := range c.allArgs() {
			eachLive(c.St, func(k string) {
				if inlined && takesError(c.Fn) {
					return // decided inside
				}
				for t := range terms[k] {
					if strings.HasPrefix(t, a.T+".") && !strings.HasPrefix(c.Name, "builtin.") && !isLog(c.Name) {
						c.St.kill(k) // the structure that carries it is handed over
					}
				}
				if mention(k, a) {
					if isLog(c.Name) {
						if noErr && !strict && !strings.HasPrefix(c.Name, "fmt.Errorf") && !strings.HasPrefix(c.Name, "fmt.Sprint") && !strings.HasPrefix(c.Name, "errors.") {
							c.St.kill(k)
						}
					} else if !strings.HasPrefix(c.Name, "builtin.") && !strings.HasSuffix(c.Name, ".Error") && !strict {
						c.St.kill(k)
					}
				}
			})
		}
		if c.IsDefer || c.Fn != nil && c.E.shouldInline(c.Fn) {
			return nil
		}
		if discardedInDefer(c.In) {
			return nil // the same as deferring the call itself
		}
		if !errScope(c.Name, c.Sig, c.In) && !(strict && strictScope(c.Name, c.Sig)) || neverFails(c.E.P, c.In) || errExempt(f, c.Name) || strings.HasPrefix(c.Name, "pkg/util.Exit") {
			return nil
		}
		k := siteKey(c)
		if !sites[k] {
			sites[k] = true
			r.Ob(k, p.pos(c.Pos()), "a failure of this operation is reported, never turned into success")
		}
		calls[k] = c.In
		if strict && c.St.has(k) {
			r.Bad(k, "", "an error is dropped and the loop goes on", c.St.traceString())
		}
		outs := c.E.Split(c, func(st *State, rs []*AVal) {
			st.kill(k)
			eachLive(st, func(k1 string) {
				if triedAgain(calls[k1], c.In) {
					st.kill(k1) // the same operation tried again, and this time it worked
				}
			})
		}, func(st *State, rs []*AVal) {
			if terms[k] == nil {
				terms[k] = map[string]bool{}
			}
			terms[k][rs[len(rs)-1].T] = true
			st.gen(k)
		})
		return outs
	}
	// errors that arrive through a channel, alone or in a structure
	recvOk := map[string]string{} // ok flag -> site key
	h.Recvd = func(fr *Frame, st *State, v *AVal, okT string, in *ssa.UnOp) {
		t := in.Type()
		if in.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		path := errPath(t)
		if path == "-" {
			return
		}
		k, ok := occ[in]
		if !ok {
			base := "err@" + fname(f) + "/receive"
			cnt[base]++
			k = base
			if cnt[base] > 1 {
				k = fmt.Sprintf("%s~%d", base, cnt[base])
			}
			occ[in] = k
			r.Ob(k, p.pos(in.Pos()), "an error received from a channel is reported, never turned into success")
			sites[k] = true
			terms[k] = map[string]bool{}
		}
		terms[k][v.T+path] = true
		st.kill("nn:" + v.T + path)
		if okT != "" {
			recvOk[okT] = k
		}
		st.gen(k)
	}
	// error slots filled by goroutines
	h.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
		if strings.HasPrefix(strings.TrimPrefix(addr.T, "&"), "@") {
			return
		}
		reported(st, val, in.Val.Type())
	}
	h.MapUpd = func(fr *Frame, st *State, m, kk, v *AVal, in *ssa.MapUpdate) {
		reported(st, v, in.Value.Type())
	}
	h.Send = func(fr *Frame, st *State, ch, v *AVal, pos token.Pos) {
		var t types.Type
		if ch, ok := fr.chanElem(pos); ok {
			t = ch
		}
		reported(st, v, t)
	}
	h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		if k := recvOk[v.T]; k != "" && !truth {
			st.kill(k) // the channel is closed, nothing was received
		}
		if isNilCmp(v) && (v.Op == "==" && !truth || v.Op == "!=" && truth) {
			for _, a := range v.Args {
				if strings.HasPrefix(a.T, "recv#") || a.Op == "sel" || a.Op == "param" {
					st.gen("nn:" + a.T)
				}
				if strict {
					eachLive(st, func(k string) {
						if mention(k, a) && strings.Contains(k, "/receive") && !strings.HasSuffix(k, "+seen") {
							st.gen(k + "+seen")
						}
					})
				}
			}
		}
		if isNilCmp(v) && (v.Op == "==" && truth || v.Op == "!=" && !truth) {
			eachLive(st, func(k string) {
				for t := range terms[k] {
					for _, a := range v.Args {
						if a.T == t && strings.HasPrefix(t, "recv#") && !strings.HasSuffix(k, "+seen") {
							st.kill(k)
						}
					}
				}
			})
		}
		if strict {
			// a problem that does not prevent the use of the result
			if n, neg := stripNotVal(v); lastName(n.Callee()) == "IsFatal" && truth == neg {
				eachLive(st, func(k string) {
					for _, a := range n.Args {
						if mention(k, a) {
							st.kill(k)
						}
					}
				})
			}
			return
		}
		if !truth {
			return
		}
		if strings.HasPrefix(v.Op, "call:errors.") || v.Op == "==" && !isNilCmp(v) || v.Op == "typeok" || strings.HasPrefix(v.Op, "call:os.Is") {
			eachLive(st, func(k string) {
				for _, a := range v.Args {
					if mention(k, a) {
						st.kill(k)
					}
				}
			})
		}
	}
	e := NewEngine(p, h)
	outs := e.RunEntry(f)
	for _, o := range outs {
		if o.Panic {
			continue
		}
		if n := len(o.Results); n > 0 {
			last := o.Results[n-1]
			if !noErr {
				if last.Nil != no {
					continue
				}
			} else {
				// a false or nil or zero verdict reports the failure
				neg := false
				for _, v := range o.Results {
					if v.B == no || v.Nil == no || v.Zero {
						neg = true
					}
				}
				if neg && !strict {
					continue
				}
			}
		}
		for k := range slots {
			if o.St.has(k) {
				r.Bad(k, "", "a path reports success without looking at the errors its goroutines left", o.St.traceString())
			}
		}
		eachLive(o.St, func(k string) {
			for _, rv := range o.Results {
				if mention(k, rv) {
					return
				}
			}
			r.Bad(strings.TrimSuffix(k, "+seen"), "", "a path on which this operation failed ends in success: the error is lost", o.St.traceString())
		})
	}
	r.absorb(e)
	return len(sites)
}

// cannotFail: a small function without calls that can fail; its error is a verdict of its own.
func cannotFail(fn *ssa.Function) bool {
	if len(fn.Blocks) > 8 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer:
				return false
			case ssa.CallInstruction:
				if x.Common().Signature().Results() != nil && strictScope(calleeName(x.Common()), x.Common().Signature()) {
					return false
				}
			}
		}
	}
	return true
}

// triedAgain: b is the operation of a with an argument in common, and everything a yielded is
// only ever looked at where b's results have taken its place (or in a condition).
func triedAgain(a, b ssa.CallInstruction) bool {
	if a == nil || b == nil || a == b || a.Parent() != b.Parent() {
		return false
	}
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || ca.Common().StaticCallee() == nil || ca.Common().StaticCallee() != cb.Common().StaticCallee() {
		return false
	}
	if !blockReaches(ca.Block(), cb.Block()) {
		return false
	}
	shared := false
	for i, x := range ca.Common().Args {
		if y := cb.Common().Args[i]; x == y || sameLoad(x, y) {
			shared = true
		}
	}
	if !shared {
		return false
	}
	ea, eb := extracts(ca), extracts(cb)
	for i, x := range ea {
		if x.Referrers() == nil {
			continue
		}
		for _, in := range *x.Referrers() {
			switch u := in.(type) {
			case *ssa.If, *ssa.DebugRef:
			case *ssa.UnOp:
				if u.Op != token.NOT {
					return false
				}
			case *ssa.BinOp:
			case *ssa.Phi:
				in := false
				for _, ed := range u.Edges {
					if eb[i] != nil && ed == eb[i] {
						in = true
					}
				}
				if !in {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(ea) > 1
}

func extracts(c *ssa.Call) map[int]ssa.Value {
	m := map[int]ssa.Value{}
	for _, in := range *c.Referrers() {
		if x, ok := in.(*ssa.Extract); ok {
			m[x.Index] = x
		}
	}
	return m
}

// sameLoad: both read the same field of the same local variable.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return x.X == y.X || ok1 && ok2 && f.X == g.X && f.Field == g.Field
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// errPath is the path to the error in a received value: "" when it is the error itself,
// "-" when there is none.
func errPath(t types.Type) string {
	if isErrorType(t) {
		return ""
	}
	if s, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isErrorType(s.Field(i).Type()) {
				return "." + s.Field(i).Name()
			}
		}
	}
	return "-"
}

// chanElem is the element type of the channel of the send at pos.
func (fr *Frame) chanElem(pos token.Pos) (types.Type, bool) {
	for _, b := range fr.Fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Send); ok && s.Pos() == pos {
				return s.X.Type(), true
			}
		}
	}
	return nil, false
}

// neverFails: every possible callee returns the constant nil error on every path.
func neverFails(p *Prog, c ssa.CallInstruction) bool { return neverFails1(p, c, 0) }

func neverFails1(p *Prog, c ssa.CallInstruction, d int) bool {
	fs := p.callees(c)
	if len(fs) == 0 || d > 4 {
		return false
	}
	var noErr func(v ssa.Value, n int) bool
	noErr = func(v ssa.Value, n int) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Call:
			return neverFails1(p, x, d+1)
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			return ok && x.Index == call.Common().Signature().Results().Len()-1 && neverFails1(p, call, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && (n > 4 || !noErr(e, n+1)) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, f := range fs {
		if !isRepoFn(f) || len(f.Blocks) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 && !noErr(r.Results[len(r.Results)-1], 0) {
					return false
				}
			}
		}
	}
	return true
}

// errExempt: failures the program deliberately does not report, each with its reason.
var errExempts = []struct{ fn, callee, why string }{ // fn: package, in functions that are no methods
	{"pkg/domain", "pkg/domain.SplitE2LD", "names that cannot be split are skipped with a warning by design"},
	{"cmd/ingest/journal", "pkg/util.SortByBundleName", "best-effort ordering; the journal sorts the selected files again and checks the error"},
	{"", "crypto/rand.Read", "documented never to return an error"},
	{"", "encoding/pem.Encode", "writes to an in-memory buffer; fails only for malformed headers, none are used"},
}

func errExempt(f *ssa.Function, callee string) bool {
	for _, x := range errExempts {
		if x.callee == callee && (x.fn == "" || x.fn == pkgOf(f) && topFn(f).Signature.Recv() == nil) {
			return true
		}
	}
	return false
}

func primed(t string) string {
	tags := siteTags(t)
	if len(tags) == 0 {
		return "\x00"
	}
	tag := tags[0]
	return strings.Replace(t, tag, tag[:len(tag)-1]+"'(", 1)
}

func lastTwo(n string) string {
	// "pkg/db.smt.SaveRoot" -> "db.smt.SaveRoot"
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}
