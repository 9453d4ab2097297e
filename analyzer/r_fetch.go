package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fetPkg  = "pkg/mapserver/logfetcher"
	fetName = fetPkg + ".Fetcher."
)

// --- integer terms as polynomials ------------------------------------------------------------

type poly map[string]int64

func polyOf(v *AVal) poly {
	v = unconv(v)
	if v.C != nil && v.C.Kind() == constant.Int {
		if n, ok := constant.Int64Val(v.C); ok {
			if n == 0 {
				return poly{}
			}
			return poly{"": n}
		}
	}
	if len(v.Args) == 2 {
		switch v.Op {
		case "+", "-":
			return polyOf(v.Args[0]).plus(polyOf(v.Args[1]), map[string]int64{"+": 1, "-": -1}[v.Op])
		case "*":
			out := poly{}
			for m, c := range polyOf(v.Args[0]) {
				for n, d := range polyOf(v.Args[1]) {
					k := strings.Split(m+"·"+n, "·")
					var fs []string
					for _, f := range k {
						if f != "" {
							fs = append(fs, f)
						}
					}
					sort.Strings(fs)
					out = out.plus(poly{strings.Join(fs, "·"): c * d}, 1)
				}
			}
			return out
		case "/":
			return poly{"(" + polyOf(v.Args[0]).String() + ")/(" + polyOf(v.Args[1]).String() + ")": 1}
		}
	}
	if (v.Op == "len" || v.Callee() == "builtin.len") && len(v.Args) == 1 {
		return poly{"len(" + v.Args[0].T + ")": 1}
	}
	return poly{v.T: 1}
}

func (p poly) plus(q poly, k int64) poly {
	out := poly{}
	for m, c := range p {
		out[m] = c
	}
	for m, c := range q {
		out[m] += k * c
		if out[m] == 0 {
			delete(out, m)
		}
	}
	return out
}

func (p poly) eq(q poly) bool { return len(p.plus(q, -1)) == 0 }

func (p poly) String() string {
	var ks []string
	for m, c := range p {
		ks = append(ks, fmt.Sprintf("%d·%s", c, m))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// subst replaces an atom by a polynomial (in monomials of degree one in it).
func (p poly) subst(atom string, q poly) poly {
	out := poly{}
	for m, c := range p {
		fs := strings.Split(m, "·")
		rest := []string{}
		hit := 0
		for _, f := range fs {
			if f == atom {
				hit++
			} else if f != "" {
				rest = append(rest, f)
			}
		}
		if hit != 1 {
			out = out.plus(poly{m: c}, 1)
			continue
		}
		for n, d := range q {
			k := append(append([]string{}, rest...), strings.Split(n, "·")...)
			var ks []string
			for _, f := range k {
				if f != "" {
					ks = append(ks, f)
				}
			}
			sort.Strings(ks)
			out = out.plus(poly{strings.Join(ks, "·"): c * d}, 1)
		}
	}
	return out
}

// sliceBounds: base, low and high of a slice expression (nil where left out).
func sliceBounds(v *AVal) (base, lo, hi *AVal) {
	if v.Op != "slice" || len(v.Args) == 0 {
		return v, nil, nil
	}
	base = v.Args[0]
	switch {
	case len(v.Args) == 3:
		return base, v.Args[1], v.Args[2]
	case len(v.Args) == 2 && strings.HasSuffix(v.T, "["+v.Args[1].T+":]"):
		return base, v.Args[1], nil
	case len(v.Args) == 2:
		return base, nil, v.Args[1]
	}
	return base, nil, nil
}

func fetMeth(name, m string) bool {
	return name == fetName+m || strings.HasPrefix(name, fetPkg+".(*") && strings.HasSuffix(name, ")."+m)
}

// counted: the value is a count that was there before plus all entries of the fetched batch.
func countsBatch(v *AVal, before string) bool {
	n := 0
	for m, c := range polyOf(v) {
		switch {
		case c != 1:
			return false
		case m == before:
			n |= 1
		case strings.HasPrefix(m, "len(") && strings.Contains(m, "ReturnNextBatch") && (strings.HasSuffix(m, "#0)") || strings.HasSuffix(m, "#1)")):
			n |= 2
		case strings.Contains(m, "ReturnNextBatch") && strings.HasSuffix(m, "#2"):
			n |= 4
		default:
			return false
		}
	}
	return n == 7
}

// --- the start of a fetcher ----------------------------------------------------------------

func callsMeth(m string) func(*ssa.Function, ssa.Instruction) bool {
	return func(_ *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && (strings.HasSuffix(calleeName(c.Common()), "."+m))
	}
}

// checkFetchStart: a log is fetched from its stored position on, up to the target.
func checkFetchStart(p *Prog, r *Rep, progress, target map[string]bool) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != updPkg || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		if !p.reachesInstr(f, callsMeth("StartFetching"), updPkg) {
			continue
		}
		// the smallest function that takes all the steps
		all := func(g *ssa.Function) bool {
			return p.reachesInstr(g, callsMeth("StartFetching"), updPkg) && p.reachesInstr(g, callsMeth("LastCTlogServerState"), updPkg) &&
				p.reachesInstr(g, callsMeth("GetCurrentState"), updPkg)
		}
		inner := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && pkgOf(g) == updPkg && g != f && g.Parent() == nil {
						// decided where it is called from only if it cannot be decided by itself
						inner = inner || all(g) || p.reachesInstr(g, callsMeth("StartFetching"), updPkg) && !p.sole(g)
					}
				}
			}
		}
		if inner || !all(f) && p.sole(f) {
			continue
		}
		n++
		key := "start@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "a log is fetched from its stored position up to the target, and progress counts from that position")
		bad := func(st *State, m string) { r.Bad(key, "", m, st.traceString()) }
		split := func(c *CallCtx, name string) []*Outcome {
			recv := c.Args[0].T
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.gen(name + ":" + recv + "|" + rs[0].T)
			}, func(st *State, rs []*AVal) { st.gen("failed:" + name) })
		}
		e := NewEngine(p, Hooks{
			Inline: func(g *ssa.Function) bool { return pkgOf(g) == updPkg && g != f },
			Call: func(c *CallCtx) []*Outcome {
				switch {
				case isDB(c.Name, "LastCTlogServerState"):
					url := c.Args[2]
					recv := ""
					if fetMeth(url.Callee(), "URL") && len(url.Args) > 0 {
						recv = url.Args[0].T
					}
					return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("stored:" + recv + "|" + rs[0].T) },
						func(st *State, rs []*AVal) { st.gen("failed:stored") })
				case fetMeth(c.Name, "URL"):
					return c.E.Prim(c)
				case fetMeth(c.Name, "GetCurrentState"):
					return split(c, "target")
				case fetMeth(c.Name, "Initialize"):
					recv := c.Args[0].T
					return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("init:" + recv + "|") }, func(st *State, rs []*AVal) { st.gen("failed:init") })
				case fetMeth(c.Name, "StartFetching"):
					recv := c.Args[0].T
					one := func(k string) string {
						out := ""
						each(c.St, k+":"+recv+"|", func(fct string, x []string) { out = strings.Join(x[1:], "|") })
						return out
					}
					start, tgt := one("stored"), one("target")
					switch {
					case start == "":
						bad(c.St, "fetching starts although the stored position of this log was not read")
					case tgt == "":
						bad(c.St, "fetching starts although the size of this log was not determined")
					default:
						if !polyOf(c.Args[1]).eq(poly{start: 1}) {
							bad(c.St, "fetching does not start at the stored position: "+c.Args[1].T)
						}
						if !polyOf(c.Args[2]).eq(poly{tgt + ".Size": 1, "": -1}) {
							bad(c.St, "fetching does not end with the last entry before the target: "+c.Args[2].T)
						}
					}
					if len(c.Args) > 0 {
						hasInit := false
						each(c.St, "init:"+recv+"|", func(string, []string) { hasInit = true })
						if !hasInit {
							bad(c.St, "fetching starts although the fetcher was not initialised")
						}
					}
					c.St.gen("started:" + recv + "|" + start + "|" + tgt)
				}
				return nil
			},
		})
		for _, o := range e.RunEntry(f) {
			if o.Panic {
				continue
			}
			each(o.St, "started:", func(_ string, x []string) {
				start, tgt := x[1], x[2]
				get := func(m map[string]bool) *AVal {
					for loc := range m {
						// the same field, seen from this function's receiver
						i := strings.IndexByte(loc, '.')
						if i < 0 || len(f.Params) == 0 {
							continue
						}
						return e.loadLoc(o.St, f.Params[0].Name()+loc[i:], types.Typ[types.Uint64], topVal)
					}
					return nil
				}
				if v := get(progress); v != nil && v.T != "⊤" && !polyOf(v).eq(poly{start: 1}) {
					bad(o.St, "progress does not count from the stored position: "+v.T)
				}
				if v := get(target); v != nil && v.T != "⊤" && !polyOf(v).eq(poly{tgt + ".Size": 1}) {
					bad(o.St, "the target kept is not the one of this log: "+v.T)
				}
			})
			if len(o.Results) > 0 && o.Results[len(o.Results)-1].Nil != yes && o.St.hasPrefix("failed:") {
				bad(o.St, "reports success although a step of starting the fetcher failed")
			}
		}
		r.absorb(e)
	}
	r.Floor("starts of log fetchers", n, 1)
}

// --- consumers' side of the fetchers ---------------------------------------------------------

// resultType: the type that the channel between the workers of a fetcher and its consumer
// carries: a struct with an error, as elements of a channel in a field of an implementation.
func checkFetchBatches(p *Prog, r *Rep) {
	iface := p.namedType(fetPkg, "Fetcher")
	if iface == nil {
		r.Bad("anchor@Fetcher", "", "interface Fetcher not found in pkg/mapserver/logfetcher: the rule cannot be instantiated", "")
		return
	}
	it := iface.Underlying().(*types.Interface)
	meth := func(name string) []*ssa.Function {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == name {
				var out []*ssa.Function
				for _, f := range p.impls(it.Method(i)) {
					if !isTestSupport(pkgOf(f)) && f.Synthetic == "" {
						out = append(out, f)
					}
				}
				return out
			}
		}
		return nil
	}
	resT := map[string]*types.Struct{} // per receiver: the struct kept
	resF := map[string]string{}
	for _, f := range meth("ReturnNextBatch") {
		key := "batch@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "certificates, chains, number of excluded entries and error of a batch are returned as received")
		recv := f.Params[0].Name()
		fld, st := batchField(f.Params[0].Type())
		if st == nil {
			r.Note("%s: keeps its batch in another way; not decided", fname(f))
			continue
		}
		resT[tname(f.Params[0].Type())], resF[tname(f.Params[0].Type())] = st, fld
		e := NewEngine(p, Hooks{Inline: func(g *ssa.Function) bool { return pkgOf(g) == fetPkg }})
		rs := f.Signature.Results()
		for _, o := range e.RunEntry(f) {
			if o.Panic {
				continue
			}
			for i := 0; i < rs.Len() && i < len(o.Results); i++ {
				want := ""
				for k := 0; k < st.NumFields(); k++ {
					if types.Identical(st.Field(k).Type(), rs.At(i).Type()) {
						want = recv + "." + fld + "." + st.Field(k).Name()
					}
				}
				last := o.Results[rs.Len()-1]
				if unconv(o.Results[i]).T != want && !(i < rs.Len()-1 && last.Nil == yes) {
					r.Bad(key, p.pos(f.Pos()), fmt.Sprintf("result %d is %s, not what was received", i+1, o.Results[i].T), o.St.traceString())
				}
			}
		}
		r.absorb(e)
	}
	n := 0
	for _, f := range meth("NextBatch") {
		fld, st := resF[tname(f.Params[0].Type())], resT[tname(f.Params[0].Type())]
		if st == nil {
			continue
		}
		n++
		key := "end@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "the end of the data is reported only when the channel of batches is closed or a batch is empty and without error; being told to stop is an error")
		recv := f.Params[0].Name()
		errF := ""
		for k := 0; k < st.NumFields(); k++ {
			if isErrorType(st.Field(k).Type()) {
				errF = st.Field(k).Name()
			}
		}
		fl := NewFacts()
		e := NewEngine(p, Hooks{
			Inline: func(g *ssa.Function) bool { return pkgOf(g) == fetPkg },
			Call: func(c *CallCtx) []*Outcome {
				if strings.HasSuffix(c.Name, "Context.Done") {
					return c.E.Prim(c)
				}
				if strings.HasSuffix(c.Name, "Context.Err") {
					os := c.E.Prim(c)
					if c.St.has("stopped") {
						os = os[1:] // told to stop: there is an error
					}
					return os
				}
				return nil
			},
			Recv: func(fr *Frame, st *State, ch *AVal, pos token.Pos) {
				if strings.HasSuffix(ch.Callee(), "Context.Done") {
					st.gen("stopped")
				} else {
					st.gen("got:" + ch.T)
				}
			},
			Assume: func(fr *Frame, st *State, v *AVal, truth bool) {
				n, neg := stripNotVal(v)
				if n.Op == "recvok" && truth == neg {
					st.gen("closed")
				}
				if isNilCmp(n) && (truth != neg) == (n.Op == "==") {
					for _, a := range n.Args {
						if strings.HasSuffix(a.T, "."+errF) || a.Op == "sel" {
							st.gen("noerr")
						}
					}
				}
				fl.record(st, v, truth)
			},
		})
		e.SelectFork = true
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) == 0 {
				continue
			}
			v := o.Results[0]
			if v.B != yes {
				switch {
				case o.St.has("stopped"):
					r.Bad(key, "", "being told to stop is reported as the end of the data", o.St.traceString())
				case !o.St.has("closed") && !o.St.has("noerr") && !o.St.hasPrefix("got:"):
					r.Bad(key, "", "the end of the data is reported without having looked for a batch", o.St.traceString())
				case !o.St.has("closed") && !o.St.has("noerr") && v.B == no:
					r.Bad(key, "", "a batch that may carry an error is taken for the end of the data", o.St.traceString())
				}
			}
			if v.B != no {
				cur := o.St.mem[recv+"."+fld]
				switch {
				case o.St.has("stopped"):
					ev := e.loadLoc(o.St, locAt(o.St, recv+"."+fld)+"."+errF, types.Universe.Lookup("error").Type(), topVal)
					if !strings.HasSuffix(ev.Callee(), "Context.Err") && ev.Nil != yes && !strings.Contains(ev.T, "Context.Err") && !strings.Contains(ev.T, "context.Cause") {
						r.Bad(key, "", "being told to stop does not leave an error for the consumer", o.St.traceString())
					}
				case o.St.hasPrefix("got:") && (cur == nil || !strings.HasPrefix(cur.T, "recv#")):
					r.Bad(key, "", "the batch received is not the one that is kept", o.St.traceString())
				case o.St.has("closed"):
					r.Bad(key, "", "a batch is announced although there are no more", o.St.traceString())
				}
			}
		}
		r.absorb(e)
	}
	r.Floor("NextBatch implementations", n, 2)
}

// locAt: the location that the pointer stored at loc points to.
func locAt(st *State, loc string) string {
	if v, ok := st.mem[loc]; ok {
		return strings.TrimPrefix(v.T, "&")
	}
	return loc
}

// batchField: the field of a fetcher that keeps the batch to return.
func batchField(t types.Type) (string, *types.Struct) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		pt, ok := s.Field(i).Type().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || st.NumFields() > 8 {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if isErrorType(st.Field(k).Type()) {
				return s.Field(i).Name(), st
			}
		}
	}
	return "", nil
}

// --- producers' side -----------------------------------------------------------------------

func sendsOn(f *ssa.Function, elem func(types.Type) bool) bool {
	hit := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && elem(c.Elem())
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if hit(x.Chan.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && hit(s.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// calledInPlace: a function literal that the function around it calls itself.
func calledInPlace(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// checkFetchProducers: what the workers of a fetcher hand on.
func checkFetchProducers(p *Prog, r *Rep) {
	structWith := func(t types.Type, pred func(*types.Var) bool) (string, bool) {
		pt, ok := t.(*types.Pointer)
		if !ok || !strings.HasPrefix(tname(pt.Elem()), fetPkg+".") {
			return "", false
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return "", false
		}
		for i := 0; i < s.NumFields(); i++ {
			if pred(s.Field(i)) {
				return s.Field(i).Name(), true
			}
		}
		return "", false
	}
	isBool := func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	isErr := func(v *types.Var) bool { return isErrorType(v.Type()) }
	entry := func(t types.Type) bool { _, ok := structWith(t, isBool); return ok }
	batch := func(t types.Type) bool { _, ok := structWith(t, isErr); return ok }
	flags := map[string]bool{} // names of the fields that mark an entry
	for _, f := range p.Funcs {
		if pkgOf(f) == fetPkg {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && entry(fa.X.Type()) {
						if n, ok := structWith(fa.X.Type(), isBool); ok {
							flags[n] = true
						}
					}
				}
			}
		}
	}
	nE, nB := 0, 0
	done := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) != fetPkg || f.Synthetic != "" {
			continue
		}
		sE, sB := sendsOn(f, entry), sendsOn(f, batch)
		for (sE || sB) && calledInPlace(f) {
			f = f.Parent()
			sE, sB = sE || sendsOn(f, entry), sB || sendsOn(f, batch)
		}
		if done[f] {
			continue
		}
		done[f] = sE || sB
		if sE && !p.sole(f) {
			nE++
			checkEntrySender(p, r, f, func(t types.Type) string { n, _ := structWith(t, isBool); return n })
		}
		if sB {
			nB++
			checkBatchSender(p, r, f, batch, flags)
		}
	}
	r.Floor("functions that hand on parsed entries", nE, 1)
	r.Floor("functions that hand on batches", nB, 2)
}

// checkEntrySender: a parsed entry is handed on once; as expired only if it has expired.
func checkEntrySender(p *Prog, r *Rep, f *ssa.Function, flag func(types.Type) string) {
	key := "entry@" + fname(f)
	r.Ob(key, p.pos(f.Pos()), "an entry is handed on exactly once; left out as expired only if its expiration was read and lies in the past; with the certificate parsed from it otherwise")
	fl := NewFacts()
	var chanT types.Type
	for _, g := range withAnon(f, p) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && flag(s.Chan.Type().Underlying().(*types.Chan).Elem()) != "" {
					chanT = s.Chan.Type().Underlying().(*types.Chan).Elem()
				}
			}
		}
	}
	if chanT == nil {
		return
	}
	fld := flag(chanT)
	hasErr := false
	if rs := f.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
		hasErr = true
	}
	var e *Engine
	e = NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return pkgOf(g) == fetPkg && (g.Parent() != nil || p.sole(g)) },
		Call: func(c *CallCtx) []*Outcome {
			switch {
			case c.Name == "time.Time.After" || c.Name == "time.Time.Before" || c.Name == "time.Time.Compare" || c.Name == "time.Unix":
				return c.E.Prim(c)
			case strictScope(c.Name, c.Sig) && !(c.Fn != nil && c.E.shouldInline(c.Fn)):
				return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("ok:" + rs[0].T) }, nil)
			}
			return nil
		},
		Assume: func(fr *Frame, st *State, v *AVal, truth bool) {
			n, neg := stripNotVal(v)
			t := truth != neg
			switch n.Callee() {
			case "time.Time.After":
				if t {
					st.gen("past:" + n.Args[1].T)
				}
			case "time.Time.Before":
				if t {
					st.gen("past:" + n.Args[0].T)
				}
			}
			fl.record(st, v, truth)
		},
		Send: func(fr *Frame, st *State, ch, v *AVal, ps token.Pos) {
			if !types.Identical(chanElemOf(fr, ps), chanT) {
				return
			}
			bad := func(m string) { r.Bad(key, p.pos(ps), m, st.traceString()) }
			if st.has("sent") {
				bad("an entry is handed on twice: it would be counted twice")
			}
			st.gen("sent")
			loc := strings.TrimPrefix(v.T, "&")
			x := e.loadLoc(st, loc+"."+fld, types.Typ[types.Bool], topVal)
			if x.B == unk {
				bad("whether the entry counts as expired was not determined (" + x.T + ")")
			}
			if x.B == yes || x.C != nil && x.C.Kind() == constant.Bool && constant.BoolVal(x.C) {
				ok := false
				each(st, "past:", func(_ string, y []string) {
					t := strings.Join(y, "|")
					ok = ok || strings.Contains(t, "NotAfter") || strings.Contains(t, "time.Unix") || strings.Contains(strings.ToLower(t), "expir")
				})
				if !ok {
					bad("an entry is left out as expired although its expiration was not found to lie in the past")
				}
				return
			}
			ok := false
			for l, m := range st.mem {
				if strings.HasPrefix(l, loc+".") && strings.Contains(m.T, "ParseCertificate") {
					ok = true
				}
			}
			if !ok {
				bad("an entry is handed on without a certificate parsed from it")
			}
		},
	})
	for _, o := range e.RunEntry(f) {
		if o.Panic || hasErr && o.Results[len(o.Results)-1].Nil == yes || !hasErr {
			continue
		}
		if !o.St.has("sent") {
			r.Bad(key, "", "success is reported although the entry was not handed on", o.St.traceString())
		}
	}
	r.absorb(e)
}

func chanElemOf(fr *Frame, pos token.Pos) types.Type {
	if t, ok := fr.chanElem(pos); ok {
		return t
	}
	return types.Typ[types.Invalid]
}

// checkBatchSender: a batch is handed on once and not touched afterwards.
func checkBatchSender(p *Prog, r *Rep, f *ssa.Function, batch func(types.Type) bool, flags map[string]bool) {
	key := "handover@" + fname(f)
	r.Ob(key, p.pos(f.Pos()), "a batch is handed on once, and not changed afterwards; entries are counted as excluded only if they are marked so")
	var e *Engine
	e = NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return (smallFn(g) || g.Parent() != nil) && pkgOf(g) == fetPkg },
		Instr: func(fr *Frame, st *State, in ssa.Instruction) {
			if a, ok := in.(*ssa.Alloc); ok {
				st.kill("sent:" + e.allocLoc(fr, a))
			}
		},
		Phi: func(fr *Frame, st *State, ph *ssa.Phi, in, as *AVal) {
			if in.T == as.T || !batch(ph.Type()) {
				return
			}
			st.kill("sent:" + locOf(as))
			if st.has("sent:" + locOf(in)) {
				st.gen("sent:" + locOf(as))
			}
		},
		Assume: func(fr *Frame, st *State, v *AVal, truth bool) {
			n, neg := stripNotVal(v)
			if i := strings.LastIndexByte(n.T, '.'); truth != neg && (strings.HasPrefix(n.T, "recv#") || i >= 0 && flags[n.T[i+1:]]) {
				st.gen("flag:" + n.T)
			}
		},
		Send: func(fr *Frame, st *State, ch, v *AVal, ps token.Pos) {
			if !batch(chanElemOf(fr, ps)) {
				return
			}
			loc := strings.TrimPrefix(v.T, "&")
			if strings.HasPrefix(loc, "φ[") {
				return // a variable of other functions too; which batch it points to is not known
			}
			if st.has("sent:" + loc) {
				r.Bad(key, p.pos(ps), "the same batch is handed on again: its entries would be counted twice", st.traceString())
			}
			st.gen("sent:" + loc)
		},
		Store: func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
			loc := locOf(addr)
			if root := rootOf(loc); root != loc && st.has("sent:"+root) {
				r.Bad(key, p.pos(in.Pos()), "a batch is changed after it was handed on", st.traceString())
			}
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if !ok || !batch(fa.X.Type()) {
				return
			}
			if b, ok := in.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				d := polyOf(val)
				if len(d) == 0 {
					return
				}
				d = d.plus(polyOf(e.loadLoc(st, loc, in.Val.Type(), topVal)), -1)
				if !d.eq(poly{"": 1}) && !strings.Contains(val.T, "φ") {
					r.Bad(key, p.pos(in.Pos()), "the number of excluded entries grows by something else than one: "+val.T, st.traceString())
				} else if !st.hasPrefix("flag:") {
					r.Bad(key, p.pos(in.Pos()), "an entry is counted as excluded although it is not marked so", st.traceString())
				}
			}
		},
		Recvd: func(fr *Frame, st *State, v *AVal, okT string, in *ssa.UnOp) { st.killPrefix("flag:") },
	})
	e.RunEntry(f)
	r.absorb(e)
}

// callsFetcher: the function uses a fetcher.
func callsFetcher(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(c.Common()), fetName) {
				return true
			}
		}
	}
	return false
}
