package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	updPkg  = "pkg/mapserver/updater"
	ingPkg  = "cmd/ingest"
	triePkg = "pkg/mapserver/trie"
)

// isDB: a method of the database layer, through the db.Conn interface or its MySQL
// implementation, or through the narrower interface the trie declares for its store.
func isDB(name, method string) bool {
	if !strings.HasSuffix(name, "."+method) {
		return false
	}
	return strings.HasPrefix(name, "pkg/db.") || strings.HasPrefix(name, "pkg/db/mysql.") ||
		strings.HasPrefix(name, triePkg+".DBConn.") || !strings.Contains(name, "/") // a method of an unnamed interface
}

func isDBAny(name string, methods ...string) bool {
	for _, m := range methods {
		if isDB(name, m) {
			return true
		}
	}
	return false
}

func inTopLevel(fr *Frame) string { return fname(topFn(fr.Fn)) }

// entryOf is the name of the outermost simulated function.
func entryOf(fr *Frame) string {
	for fr.Parent != nil {
		fr = fr.Parent
	}
	return fname(fr.Fn)
}

// inDBLayer: the call is made by the database layer itself.
func inDBLayer(fr *Frame) bool {
	pk := pkgOf(fr.Fn)
	return strings.HasPrefix(pk, "pkg/db") || strings.HasPrefix(pk, "pkg/tests")
}

func init() {
	register(&Check{ID: "C02", Level: "proof",
		Explain: "Path-sensitive ordering over the SSA of the ingest driver and of the callbacks the program installs: every journal progress commit is reached only on paths where the batch with exactly those files was ingested without error and, for each phase flag passed as true, the corresponding phase ran to success afterwards; the CT size is journaled only after that same size was recorded; no nil return leaves an ingested batch uncommitted; the installed callbacks return nil only after the pipeline Wait, the coalescing, the SMT update followed by the dirty cleanup, and the DB status update succeeded.",
		Run:     runC02})
	register(&Check{ID: "C03", Level: "proof",
		Explain: "Path-sensitive ordering over the SSA of every entry point that updates the sparse Merkle tree: the new root is saved only when every in-memory update since the last commit was committed without error and it is the root of that same tree; live nodes are dropped only after a commit; dirty marks are cleared only after a successful SMT update that follows every data change on the path; data changes are coalesced before the SMT update; a nil return implies an updated tree had its root saved.",
		Run:     runC03})
	register(&Check{ID: "C04", Level: "proof",
		Explain: "Path-sensitive ordering over the SSA of the batch insertion path: the rows by which a certificate or policy is later considered already present are written only after the domains were marked dirty, the domain rows and the domain association rows were written without error; success is returned only after all of them; and the columns passed to each of those writes are the ones computed for that batch.",
		Run:     runC04})
	register(&Check{ID: "C05", Level: "proof",
		Explain: "Path-sensitive ordering over the SSA of the CT log synchronisation: the recorded log state advances only on paths where the batch was fetched and inserted without error and the size reached equals the stored target; in-memory progress advances only after insertion; the fetchers forward every read or parse error to the batch consumer.",
		Run:     runC05})
}

// boolKnown: what the path knows about a boolean value.
func (e *Engine) boolKnown(st *State, v *AVal) tri { return e.truth(st, v) }

func runC02(p *Prog, r *Rep, thorough bool) {
	depsT := p.namedType(ingPkg, "RunDependencies")
	if depsT == nil {
		r.Bad("anchor@RunDependencies", "", "type RunDependencies not found in cmd/ingest: the rule cannot be instantiated", "")
		return
	}
	batches, sizes := 0, 0
	var hooks Hooks
	isDep := func(name, field string) bool {
		return strings.HasPrefix(name, "dyn:") && strings.HasSuffix(name, "."+field)
	}
	hooks.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		// an absent phase callback means the phase is a no-op in this run
		if v.Op == "==" && truth {
			for _, a := range v.Args {
				if strings.HasSuffix(a.T, ".Coalesce") && isNilCmp(v) && !strings.Contains(a.T, "obCfg") {
					st.gen("nocoalesce")
				}
				if strings.HasSuffix(a.T, ".UpdateSMT") && isNilCmp(v) {
					st.gen("nosmt")
				}
			}
		}
	}
	hooks.Call = func(c *CallCtx) []*Outcome {
		switch {
		case isDep(c.Name, "RunBatch"):
			files := c.Args[len(c.Args)-1].T
			batches++
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.killPrefix("batch:")
				st.kill("coalesced", "smt")
				st.gen("batch:" + files)
			}, func(st *State, rs []*AVal) { st.gen("failed") })
		case isDep(c.Name, "Coalesce"):
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("coalesced"); st.kill("smt") },
				func(st *State, rs []*AVal) { st.gen("failed") })
		case isDep(c.Name, "UpdateSMT"):
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("smt") },
				func(st *State, rs []*AVal) { st.gen("failed") })
		case isDep(c.Name, "RecordCTSize"):
			sz := c.Args[len(c.Args)-1].T
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("ctsize:" + sz) },
				func(st *State, rs []*AVal) { st.gen("failed") })
		case c.Name == journalPkg+".(*Journal).CommitProgress":
			key := "commit@" + fname(topFn(c.Fr.Fn)) + "/" + argShape(c)
			pos := p.pos(c.Pos())
			r.Ob(key, pos, "progress is journaled only after the phases it records succeeded")
			bad := func(m string) { r.Bad(key, pos, m, c.St.traceString()) }
			files, co, up := c.Args[1], c.Args[2], c.Args[3]
			if c.St.has("failed") {
				bad("progress is committed on a path where an ingest phase returned an error")
			}
			if files.Nil != no && files.T != "nil" {
				if !c.St.has("batch:" + files.T) {
					bad("the files committed (" + files.T + ") are not the batch that was ingested successfully on this path")
				}
			}
			if t := c.E.boolKnown(c.St, co); t != no && !c.St.has("coalesced") && !c.St.has("nocoalesce") {
				if t == yes || !c.St.has("failed") {
					bad("the coalesced flag may be committed as true although coalescing did not succeed after the batch")
				}
			}
			if t := c.E.boolKnown(c.St, up); t != no && !c.St.has("smt") && !c.St.has("nosmt") {
				bad("the SMT flag may be committed as true although the SMT update did not succeed after the batch")
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.killPrefix("batch:"); st.gen("committed") },
				func(st *State, rs []*AVal) { st.gen("failed") })
		case c.Name == journalPkg+".(*Journal).CommitCTLogSize":
			sizes++
			key := "ctsize@" + fname(topFn(c.Fr.Fn))
			pos := p.pos(c.Pos())
			r.Ob(key, pos, "the CT log size is journaled only after the same size was recorded")
			if !c.St.has("ctsize:" + c.Args[1].T) {
				r.Bad(key, pos, "the size journaled ("+c.Args[1].T+") was not recorded successfully before on this path", c.St.traceString())
			}
			return c.E.Split(c, nil, func(st *State, rs []*AVal) { st.gen("failed") })
		case strings.HasPrefix(c.Name, journalPkg+".") || strings.HasPrefix(c.Name, "pkg/statistics.") || strings.HasPrefix(c.Name, "pkg/util."):
			return c.E.Opaque(c)
		}
		return nil
	}
	rel := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool {
		n := calleeName(c.Common())
		// phases are function values, so what calls one matters too
		return strings.HasPrefix(n, journalPkg+".(*Journal).Commit") || n == "" && pkgOf(f) == ingPkg
	})
	entries := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != ingPkg || f.Parent() != nil || f.Synthetic != "" || !rel[f] {
			continue
		}
		has := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if types.Identical(f.Signature.Params().At(i).Type(), depsT) || types.Identical(f.Signature.Params().At(i).Type(), types.NewPointer(depsT)) {
				has = true
			}
		}
		if !has || isOnlyCalledBySame(p, f, depsT) {
			continue
		}
		entries++
		e := NewEngine(p, hooks)
		e.Relevant = rel
		outs := e.RunEntry(f)
		r.absorb(e)
		k1, k2 := "abort@"+fname(f), "uncommitted@"+fname(f)
		r.Ob(k1, p.pos(f.Pos()), "a failed phase makes the run return an error")
		r.Ob(k2, p.pos(f.Pos()), "a run that returns nil has journaled every batch it ingested")
		for _, o := range outs {
			if o.Panic || len(o.Results) == 0 || o.Results[len(o.Results)-1].Nil == yes {
				continue
			}
			if o.St.has("failed") {
				r.Bad(k1, p.pos(f.Pos()), "the run can return nil although an ingest phase failed", o.St.traceString())
			}
			if o.St.hasPrefix("batch:") {
				r.Bad(k2, p.pos(f.Pos()), "the run can return nil with a batch ingested but not journaled", o.St.traceString())
			}
		}
	}
	r.Floor("ingest drivers taking RunDependencies", entries, 1)
	r.Floor("CommitProgress sites simulated", r.count("commit@"), 1)
	r.Floor("RunBatch calls simulated", batches, 1)
	r.Floor("CommitCTLogSize sites simulated", sizes, 1)

	checkJournalRecords(p, r)

	// the callbacks the program installs
	type need struct{ field string }
	found := map[string]int{}
	for _, f := range p.Funcs {
		if isTestSupport(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), depsT) {
					continue
				}
				var cb *ssa.Function
				switch v := s.Val.(type) {
				case *ssa.MakeClosure:
					cb = v.Fn.(*ssa.Function)
				case *ssa.Function:
					cb = v
				}
				if cb == nil {
					continue
				}
				fld := fieldName(fa.X.Type(), fa.Field)
				switch fld {
				case "RunBatch", "Coalesce", "UpdateSMT", "RecordCTSize":
					found[fld]++
					checkIngestCallback(p, r, fld, cb)
				}
			}
		}
	}
	for _, f := range []string{"RunBatch", "Coalesce", "UpdateSMT", "RecordCTSize"} {
		r.Floor("installed "+f+" callbacks", found[f], 1)
	}
}

// checkJournalRecords: what the journal stores about a run is what its caller recorded, or
// what the previous run had recorded.
func checkJournalRecords(p *Prog, r *Rep) {
	jobT := p.namedType(journalPkg, "Job")
	if jobT == nil {
		r.Bad("anchor@Job", "", "type journal.Job not found", "")
		return
	}
	flags := map[string]bool{"Coalesced": true, "UpdatedSMT": true, "RecordedCTLogSize": true}
	stores := 0
	judge := func(e *Engine, key, fld string, fr *Frame, st *State, val *AVal, pos token.Pos) {
		r.Ob(key, p.pos(pos), "the journal records exactly the phase result it was given, or carries over the previous record")
		stores++
		root := fr
		for root.Parent != nil {
			root = root.Parent
		}
		ps := map[string]string{}
		for _, pa := range root.Fn.Params {
			ps[pa.Name()] = tname(pa.Type())
		}
		if val.Zero || val.B == no || val.T == "0" {
			return
		}
		if strings.HasSuffix(val.T, "."+fld) { // an earlier record of the same fact
			return
		}
		// boolean parameters of the commit: (files, coalesced, updatedSMT) by position
		var bools []string
		for _, pa := range root.Fn.Params {
			if b, ok := pa.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools = append(bools, pa.Name())
			}
		}
		ok := false
		switch fld {
		case "RecordedCTLogSize":
			ok = ps[val.T] == "int64"
		case "UpdatedSMT":
			ok = len(bools) == 2 && (val.T == bools[1] || val.B == yes && st.asm[bools[1]])
		case "Coalesced":
			ok = len(bools) == 2 && (val.T == bools[0] || val.T == bools[1] || val.B == yes && (st.asm[bools[0]] || st.asm[bools[1]]))
		}
		if !ok {
			r.Bad(key, p.pos(pos), "the value recorded as "+fld+" ("+val.T+") is not the one the phase reported", st.traceString())
		}
	}
	var h Hooks
	var eng *Engine
	h.Inline = func(fn *ssa.Function) bool {
		if pkgOf(fn) != journalPkg {
			return false
		}
		for f := range flags {
			if storesField(fn, f) || strings.HasPrefix(fn.Name(), "latest") {
				return true
			}
		}
		return smallFn(fn) || p.reachesStore(fn, flags)
	}
	h.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
		fa, ok := in.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if types.Identical(deref(fa.X.Type()), jobT) {
			if fld := fieldName(fa.X.Type(), fa.Field); flags[fld] {
				judge(eng, "record@"+fname(topFn(fr.Fn))+"/"+fld, fld, fr, st, val, in.Pos())
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) != journalPkg || f.Parent() != nil || f.Synthetic != "" || fnObj(f) == nil || !fnObj(f).Exported() || !p.reachesStore(f, flags) || done[f] {
			continue
		}
		eng = NewEngine(p, h)
		eng.RunEntry(f)
		r.absorb(eng)
	}
	r.Floor("phase results stored in the journal", stores, 3)
	// completed intervals come from the files that were passed
	ivs := 0
	var h2 Hooks
	h2.Inline = func(fn *ssa.Function) bool { return false }
	h2.Before = func(c *CallCtx) {
		if c.Fn == nil || pkgOf(c.Fn) != journalPkg {
			return
		}
		for i := 0; i < c.Sig.Params().Len(); i++ {
			if tname(c.Sig.Params().At(i).Type()) == journalPkg+".CompletedIndices" && !strings.HasPrefix(c.Name, journalPkg+".contains") && c.Sig.Results().Len() == 0 {
				ivs++
				key := "interval@" + fname(topFn(c.Fr.Fn))
				r.Ob(key, p.pos(c.Pos()), "the intervals recorded as completed are those of the files passed")
				ok := false
				for _, a := range c.Args[1:] {
					if a.mentions(func(x *AVal) bool {
						return strings.HasPrefix(x.T, "files[") || strings.HasPrefix(x.T, c.Fr.Fn.Params[len(c.Fr.Fn.Params)-1].Name()) || fileElem(c.Fr.Fn, x.T)
					}) {
						ok = true
					}
				}
				if !ok {
					r.Bad(key, p.pos(c.Pos()), "an interval that is not derived from the files passed is recorded as completed", c.St.traceString())
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if pkgOf(f) == journalPkg && f.Parent() == nil && f.Synthetic == "" && callsWithCompleted(f) {
			e := NewEngine(p, h2)
			e.RunEntry(f)
			r.absorb(e)
		}
	}
	r.Floor("completed intervals recorded", ivs, 1)
}

// fileElem: the term is an element of a string slice parameter of the function, or a string
// parameter.
func fileElem(fn *ssa.Function, t string) bool {
	for _, pa := range fn.Params {
		if sl, ok := pa.Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) && strings.HasPrefix(t, pa.Name()+"[") {
			return true
		}
		if isStringType(pa.Type()) && t == pa.Name() {
			return true
		}
	}
	return false
}

func callsWithCompleted(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				g := c.Common().StaticCallee()
				if g == nil || pkgOf(g) != journalPkg || g.Signature.Results().Len() != 0 {
					continue
				}
				for i := 0; i < g.Signature.Params().Len(); i++ {
					if tname(g.Signature.Params().At(i).Type()) == journalPkg+".CompletedIndices" {
						return true
					}
				}
			}
		}
	}
	return false
}

// reachesStore: the function or what it calls stores into a field of that name.
func (p *Prog) reachesStore(fn *ssa.Function, fields map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !isRepoFn(f) {
			return false
		}
		seen[f] = true
		for x := range fields {
			if storesField(f, x) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						if visit(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

func isOnlyCalledBySame(p *Prog, f *ssa.Function, depsT types.Type) bool {
	// a part of a driver under a name of its own is simulated as part of that driver
	if !p.sole(f) {
		return false
	}
	g := topFn(p.callers(f)[0].Parent())
	for i := 0; i < g.Signature.Params().Len(); i++ {
		t := g.Signature.Params().At(i).Type()
		if types.Identical(t, depsT) || types.Identical(t, types.NewPointer(depsT)) {
			return true
		}
	}
	return false
}

func isNilCmp(v *AVal) bool {
	for _, a := range v.Args {
		if a.T == "nil" {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func argShape(c *CallCtx) string {
	var ss []string
	for _, a := range c.Args[1:] {
		switch {
		case a.C != nil:
			ss = append(ss, a.T)
		case a.T == "nil":
			ss = append(ss, "nil")
		default:
			ss = append(ss, "v")
		}
	}
	return strings.Join(ss, "-")
}

// loopAdds: the loop with this header loads CSV files.
func loopAdds(h *ssa.BasicBlock) bool {
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if n := calleeName(c.Common()); n == "pkg/util.LoadCsvFile" {
					return true
				}
			}
		}
	}
	return false
}

// loopAddsAround: the block lies in a loop that loads CSV files.
func loopAddsAround(b *ssa.BasicBlock) bool {
	for _, h := range b.Parent().Blocks {
		if loopAt(h) != nil && loopBlocks(h)[b] && loopAdds(h) {
			return true
		}
	}
	return false
}

func checkIngestCallback(p *Prog, r *Rep, field string, cb *ssa.Function) {
	key := "callback@" + field
	desc := map[string]string{
		"RunBatch":     "a batch counts as ingested only when the processing pipeline, resumed with that batch's files, finished without error",
		"Coalesce":     "the coalescing phase reports success only when the DB recomputation succeeded",
		"UpdateSMT":    "the SMT phase reports success only after the SMT update and then the dirty cleanup succeeded",
		"RecordCTSize": "the CT size phase reports success only after the DB recorded the given URL and size",
	}[field]
	r.Ob(key, p.pos(cb.Pos()), desc)
	var h Hooks
	bad := func(c *CallCtx, m string) { r.Bad(key, p.pos(c.Pos()), m, c.St.traceString()) }
	files := "?"
	for _, pa := range cb.Params {
		if t, ok := pa.Type().Underlying().(*types.Slice); ok && isStringType(t.Elem()) {
			files = pa.Name()
		}
	}
	if field == "RunBatch" {
		// every file of the batch is loaded and added: each iteration of the loop over the
		// batch that is not an error adds one, and the loop runs to its end
		ofBatch := func(a *AVal) bool {
			return a.mentions(func(x *AVal) bool { return x.Callee() == "pkg/util.LoadCsvFile" || strings.HasPrefix(x.T, files+"[") })
		}
		h.BackEdge = func(fr *Frame, st *State, hd *ssa.BasicBlock) {
			if l := loopAt(hd); l == nil || !loopAdds(hd) {
				return
			} else if l.First != 0 || l.Step != 1 || l.Short != 0 {
				r.Bad(key, p.pos(cb.Pos()), "the loop over the files of the batch does not visit every file", st.traceString())
			}
			if st.has("iter") && !st.has("added") {
				r.Bad(key, p.pos(cb.Pos()), "a file of the batch can be left out: the loop continues without adding it", st.traceString())
			}
			st.kill("added")
		}
		h.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
			if ofBatch(val) && strings.HasSuffix(addr.T, "]") {
				st.gen("added")
			}
		}
		h.Load = func(fr *Frame, st *State, addr *AVal, in ssa.Instruction) {
			if strings.HasPrefix(strings.TrimPrefix(addr.T, "&"), files+"[") && loopAddsAround(in.Block()) {
				st.gen("iter")
			}
		}
		h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
			if v.Op == "<" && v.Args[1].T == "len("+files+")" && !truth {
				st.gen("all")
			}
		}
	}
	h.Call = func(c *CallCtx) []*Outcome {
		switch {
		case c.Name == "builtin.append" && field == "RunBatch":
			for _, a := range append(c.elems(1), c.Args[1:]...) {
				if a.mentions(func(x *AVal) bool { return x.Callee() == "pkg/util.LoadCsvFile" }) {
					c.St.gen("added")
				}
			}
		case strings.HasSuffix(c.Name, "(*Processor).AddCsvFiles"):
			if c.St.has("iter") && !c.St.has("all") {
				bad(c, "the loop over the files of the batch can end before its last file")
			}
			c.St.gen("files")
			return []*Outcome{{St: c.St}}
		case strings.HasSuffix(c.Name, "(*Processor).Resume"):
			if !c.St.has("files") {
				bad(c, "the pipeline is resumed before the batch's files were added")
			}
			c.St.gen("resumed")
			return []*Outcome{{St: c.St}}
		case strings.HasSuffix(c.Name, "(*Processor).Wait"):
			return c.E.Split(c, func(st *State, rs []*AVal) {
				if st.has("resumed") {
					st.gen("done:RunBatch")
				}
			}, func(st *State, rs []*AVal) { st.gen("failed") })
		case c.Name == updPkg+".CoalescePayloadsForDirtyDomains" || isDB(c.Name, "RecomputeDirtyDomainsCertAndPolicyIDs"):
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("done:Coalesce") }, func(st *State, rs []*AVal) { st.gen("failed") })
		case c.Name == updPkg+".UpdateSMT":
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("smt") }, func(st *State, rs []*AVal) { st.gen("failed") })
		case isDB(c.Name, "CleanupDirty"):
			if !c.St.has("smt") {
				bad(c, "dirty domains are cleared before the SMT update succeeded")
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("done:UpdateSMT") }, func(st *State, rs []*AVal) { st.gen("failed") })
		case isDB(c.Name, "UpdateLastCTlogServerState"):
			if len(c.Args) >= 4 && len(cb.Params) >= 3 {
				u, s := cb.Params[len(cb.Params)-2].Name(), cb.Params[len(cb.Params)-1].Name()
				if c.Args[2].T != u || c.Args[3].T != s {
					bad(c, "the URL or size recorded in the DB is not the one the phase was asked to record")
				}
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("done:RecordCTSize") }, func(st *State, rs []*AVal) { st.gen("failed") })
		}
		return nil
	}
	e := NewEngine(p, h)
	e.Relevant = p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool {
		n := calleeName(c.Common())
		return n == updPkg+".UpdateSMT" || n == updPkg+".CoalescePayloadsForDirtyDomains" || isDB(n, "CleanupDirty") ||
			isDB(n, "UpdateLastCTlogServerState") || strings.Contains(n, "(*Processor).") || n == "pkg/util.LoadCsvFile" && pkgOf(f) == ingPkg
	})
	for _, o := range e.RunEntry(cb) {
		if o.Panic || len(o.Results) == 0 || o.Results[len(o.Results)-1].Nil == yes {
			continue
		}
		if o.St.has("failed") {
			r.Bad(key, p.pos(cb.Pos()), "the callback can return nil although one of its steps failed", o.St.traceString())
		}
		if !o.St.has("done:" + field) {
			r.Bad(key, p.pos(cb.Pos()), "the callback can return nil without having completed the phase", o.St.traceString())
		}
	}
	r.absorb(e)
}

// --- C03 ---------------------------------------------------------------------

func runC03(p *Prog, r *Rep, thorough bool) {
	nSave, nClean, nUpd, nBundle := 0, 0, 0, 0
	var h Hooks
	// a bundle of dirty domains is pending until the tree is updated with it; the dirty domains
	// are drained once a bundle is the last one or empty
	bundleDone, bundleLen := map[string]bool{}, map[string]string{}
	h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		v, neg := stripNotVal(v)
		if neg {
			truth = !truth
		}
		if bundleDone[v.T] && truth {
			st.gen("drained")
		}
		if len(v.Args) == 2 {
			a, b := v.Args[0].T, v.Args[1].T
			empty := bundleLen[a] != "" && (v.Op == "==" && b == "0" && truth || v.Op == "!=" && b == "0" && !truth || v.Op == "<" && b == "1" && truth) ||
				bundleLen[b] != "" && (v.Op == "<" && a == "0" && !truth || v.Op == "==" && a == "0" && truth)
			if empty {
				st.gen("drained")
				st.kill(bundleLen[a], bundleLen[b])
			}
		}
	}
	h.Call = func(c *CallCtx) []*Outcome {
		if inDBLayer(c.Fr) {
			return nil
		}
		pos := p.pos(c.Pos())
		switch {
		case c.Name == triePkg+".(*Trie).Update" || c.Name == triePkg+".(*Trie).AtomicUpdate":
			t := c.Args[0].T
			loc := locOf(c.Args[0]) + ".Root"
			var drop []string
			for f := range c.St.facts {
				if strings.HasPrefix(f, "pend:") {
					for _, a := range c.Args[1:] {
						if strings.Contains(a.T, f[len("pend:"):]) || a.T == "⊤" {
							drop = append(drop, f)
						}
					}
				}
			}
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.gen("unc:"+t, "upd:"+t)
				st.kill(drop...)
				// what was read from the field before is not the root any more
				st.mem[loc] = mk("root", "updatedroot("+t+")")
			}, func(st *State, rs []*AVal) { st.gen("treebad") })
		case c.Name == triePkg+".NewTrie":
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.mem[locOf(rs[0])+".Root"] = mk("root", "createdroot("+rs[0].T+")")
			}, nil)
		case c.Name == triePkg+".(*Trie).Commit":
			t := c.Args[0].T
			return c.E.Split(c, func(st *State, rs []*AVal) { st.kill("unc:" + t); st.gen("unsaved:" + t) },
				func(st *State, rs []*AVal) { st.gen("treebad") })
		case c.Name == triePkg+".(*Trie).ResetLiveCache":
			key := "reset@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "live nodes are dropped only when everything updated so far is committed")
			if c.St.has("unc:" + c.Args[0].T) {
				r.Bad(key, pos, "the live cache is dropped while updated nodes are not committed", c.St.traceString())
			}
			return []*Outcome{{St: c.St}}
		case isDB(c.Name, "SaveRoot"):
			nSave++
			key := "saveroot@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "the root is saved only after every updated node was committed without error")
			arg := c.Args[len(c.Args)-1]
			switch {
			case c.St.has("treebad"):
				r.Bad(key, pos, "the root is saved on a path where updating or committing the tree failed", c.St.traceString())
			case c.St.hasPrefix("unc:"):
				r.Bad(key, pos, "the root is saved before the updated nodes were committed", c.St.traceString())
			}
			isRoot := strings.HasSuffix(arg.T, ".Root") || arg.T == "⊤" && c.St.hasPrefix("upd:")
			if !c.St.hasPrefix("upd:") && strings.HasPrefix(arg.T, "createdroot(") {
				isRoot = true
			}
			for k, v := range c.St.mem {
				if strings.HasSuffix(k, ".Root") && v.T == arg.T && v.T != "⊤" && !strings.HasPrefix(v.T, "createdroot(") {
					isRoot = true
				}
			}
			if !isRoot {
				r.Bad(key, pos, "the value saved as root ("+arg.T+") is not the root of the updated tree", c.St.traceString())
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.killPrefix("unsaved:") }, func(st *State, rs []*AVal) { st.gen("treebad") })
		case isDBAny(c.Name, "PruneCerts", "UpdateCerts", "UpdatePolicies", "UpdateDomains", "UpdateDomainCerts", "UpdateDomainPolicies", "InsertDomainsIntoDirty", "InsertCsvIntoDirty", "InsertCsvIntoCerts", "InsertCsvIntoDomains", "InsertCsvIntoDomainCerts"):
			mod := func(st *State, rs []*AVal) { st.gen("stale:coalesce", "stale:smt") }
			return c.E.Split(c, mod, mod)
		case isDB(c.Name, "RecomputeDirtyDomainsCertAndPolicyIDs"):
			return c.E.Split(c, func(st *State, rs []*AVal) { st.kill("stale:coalesce") }, func(st *State, rs []*AVal) { st.gen("phasebad") })
		case isDB(c.Name, "DirtyCount"):
			return nil
		case isDB(c.Name, "RetrieveDomainEntriesDirtyBundle"):
			nBundle++
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.killPrefix("pend:")
				st.kill("drained")
				st.gen("pend:"+rs[0].T, "bundles")
				bundleDone[rs[2].T], bundleLen["len("+rs[0].T+")"] = true, "pend:"+rs[0].T
			}, func(st *State, rs []*AVal) { st.gen("treebad") })
		case c.Name == updPkg+".UpdateSMT":
			nUpd++
			key := "coalesce-first@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "domain payloads are coalesced after the last data change and before the SMT is updated from them")
			if c.St.has("stale:coalesce") {
				r.Bad(key, pos, "the SMT is updated while data changed on this path is not coalesced", c.St.traceString())
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("smtok"); st.kill("stale:smt") }, func(st *State, rs []*AVal) { st.gen("phasebad") })
		case isDB(c.Name, "CleanupDirty"):
			nClean++
			key := "cleanup@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "dirty marks are cleared only after a successful SMT update that follows every data change")
			switch {
			case c.St.has("phasebad"):
				r.Bad(key, pos, "dirty marks are cleared on a path where coalescing or the SMT update failed", c.St.traceString())
			case !c.St.has("smtok"):
				r.Bad(key, pos, "dirty marks are cleared on a path without a successful SMT update", c.St.traceString())
			case c.St.has("stale:smt"):
				r.Bad(key, pos, "dirty marks are cleared although data changed after the SMT update", c.St.traceString())
			}
			return c.E.Split(c, nil, func(st *State, rs []*AVal) { st.gen("phasebad") })
		case isDB(c.Name, "TruncateAllTables"):
			return c.E.Opaque(c)
		}
		return nil
	}
	// a server loop handles one request per iteration
	h.BackEdge = func(fr *Frame, st *State, hd *ssa.BasicBlock) {
		if _, ok := fr.Call.(*ssa.Go); ok {
			st.facts = map[string]bool{}
		}
	}
	isEv := func(name string, c ssa.CallInstruction, in *ssa.Function) bool {
		if strings.HasPrefix(pkgOf(in), "pkg/db") || strings.HasPrefix(pkgOf(in), triePkg) {
			return false
		}
		return isDBAny(name, "SaveRoot", "RetrieveDomainEntriesDirtyBundle", "CleanupDirty", "PruneCerts", "RecomputeDirtyDomainsCertAndPolicyIDs") || name == updPkg+".UpdateSMT" ||
			strings.HasPrefix(name, triePkg+".(*Trie).Commit") || strings.HasPrefix(name, triePkg+".(*Trie).Update") || strings.HasPrefix(name, triePkg+".(*Trie).ResetLiveCache")
	}
	runRoots(p, r, h, isEv, notTestSupport)

	// UpdateSMT itself: success means saved
	h2 := h
	f := p.fn(updPkg + ".UpdateSMT")
	if f == nil {
		r.Bad("anchor@UpdateSMT", "", "updater.UpdateSMT not found", "")
		return
	}
	e := NewEngine(p, h2)
	e.Relevant = p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool { return isEv(calleeName(c.Common()), c, f) })
	key := "updatesmt-success@" + fname(f)
	r.Ob(key, p.pos(f.Pos()), "a nil error means that every change to the tree was committed and its root saved")
	bkey := "all-dirty@" + fname(f)
	r.Ob(bkey, p.pos(f.Pos()), "a nil error means that every bundle of dirty domains, up to the last one, was put into the tree")
	saves := 0
	for _, o := range e.RunEntry(f) {
		if o.Panic || o.Results[len(o.Results)-1].Nil == yes {
			continue
		}
		if o.St.hasPrefix("unc:") || o.St.hasPrefix("unsaved:") || o.St.has("treebad") {
			r.Bad(key, p.pos(f.Pos()), "UpdateSMT can return nil with an updated tree that is not committed or whose root is not saved", o.St.traceString())
		}
		if o.St.has("bundles") && (o.St.hasPrefix("pend:") || !o.St.has("drained")) {
			r.Bad(bkey, p.pos(f.Pos()), "UpdateSMT can return nil although not every dirty domain was put into the tree", o.St.traceString())
		}
		if o.St.hasPrefix("upd:") {
			saves++
		}
	}
	r.absorb(e)
	r.Floor("successful exits of UpdateSMT that updated the tree", saves, 1)
	r.Floor("SaveRoot sites simulated", nSave, 1)
	r.Floor("bundles of dirty domains read", nBundle, 1)
	r.Floor("CleanupDirty sites simulated", nClean, 1)
	r.Floor("UpdateSMT call sites simulated", nUpd, 1)

	// the tree nodes: old nodes may disappear from the store only once the root that needs
	// them is superseded in the store, and node writes precede node deletions
	checkTrieCommit(p, r)

	// nothing is left out between the dirty domains, the tree and its nodes in the store
	var fns []*ssa.Function
	for _, g := range p.staticReach(f, updPkg) {
		fns = append(fns, g)
	}
	toStore := p.reaches(func(c ssa.CallInstruction, in *ssa.Function) bool {
		return isDB(calleeName(c.Common()), "UpdateTreeNodes")
	})
	for _, g := range p.Funcs {
		if pkgOf(g) == triePkg && toStore[g] {
			fns = append(fns, g)
		}
	}
	r.Note("%d loops carrying dirty domains and tree nodes over", checkLossless(p, r, fns))
}

func checkTrieCommit(p *Prog, r *Rep) {
	f := p.fn(triePkg + ".(*Trie).Commit")
	if f == nil {
		r.Bad("anchor@Commit", "", "Trie.Commit not found", "")
		return
	}
	var h Hooks
	writes, dels := 0, 0
	h.Call = func(c *CallCtx) []*Outcome {
		pos := p.pos(c.Pos())
		switch {
		case isDB(c.Name, "UpdateTreeNodes"):
			writes++
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("written") }, func(st *State, rs []*AVal) { st.gen("bad") })
		case isDB(c.Name, "DeleteTreeNodes"):
			dels++
			key := "delete-after-write@" + fname(f)
			r.Ob(key, pos, "superseded nodes are deleted only after the new nodes were written")
			if !c.St.has("written") || c.St.has("bad") {
				r.Bad(key, pos, "superseded nodes are deleted although the new nodes were not written", c.St.traceString())
			}
			key = "delete-before-root@" + fname(f)
			r.Ob(key, pos, "nodes of the stored root are deleted only after the new root was saved")
			if !c.St.has("rootsaved") {
				r.Bad(key, pos, "nodes that the stored root still references are deleted before the new root is saved: a crash in between leaves a root whose nodes are gone", c.St.traceString())
			}
			return c.E.Split(c, nil, func(st *State, rs []*AVal) { st.gen("bad") })
		}
		return nil
	}
	e := NewEngine(p, h)
	e.Relevant = p.reaches(func(c ssa.CallInstruction, in *ssa.Function) bool {
		return isDBAny(calleeName(c.Common()), "UpdateTreeNodes", "DeleteTreeNodes")
	})
	key := "commit-success@" + fname(f)
	r.Ob(key, p.pos(f.Pos()), "Commit returns nil only when the updated nodes were written")
	for _, o := range e.RunEntry(f) {
		if o.Panic || o.Results[len(o.Results)-1].Nil == yes {
			continue
		}
		if o.St.has("bad") || !o.St.has("written") {
			r.Bad(key, p.pos(f.Pos()), "Commit can return nil although the updated nodes were not written", o.St.traceString())
		}
	}
	r.absorb(e)
	r.Floor("node writes in Commit", writes, 1)
	r.Floor("node deletions in Commit", dels, 1)
}

// --- C04 ---------------------------------------------------------------------

func runC04(p *Prog, r *Rep, thorough bool) {
	n := map[string]int{}
	var h Hooks
	arg := func(c *CallCtx, i int) string {
		if i < len(c.Args) {
			return c.Args[i].T
		}
		return "?"
	}
	// a batch takes its certificates and policies to the functions that write them
	kinds := map[string]string{"certs": "UpdateCerts", "policies": "UpdatePolicies"}
	writes := map[string]map[*ssa.Function]bool{}
	direct := map[string]map[*ssa.Function]bool{}
	for k, m := range kinds {
		m := m
		direct[k] = map[*ssa.Function]bool{}
		writes[k] = p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool {
			if pkgOf(f) == updPkg && isDB(calleeName(c.Common()), m) {
				direct[k][topFn(f)] = true
				return true
			}
			return false
		})
	}
	h.Before = func(c *CallCtx) {
		for k := range kinds {
			if c.Fn != nil && writes[k][c.Fn] {
				c.St.gen("taken:" + k)
			}
		}
	}
	h.Call = func(c *CallCtx) []*Outcome {
		if inDBLayer(c.Fr) {
			return nil
		}
		pos := p.pos(c.Pos())
		mark := func(f string) []*Outcome {
			n[f]++
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen(f) }, func(st *State, rs []*AVal) { st.gen("bad") })
		}
		switch {
		case isDB(c.Name, "InsertDomainsIntoDirty"):
			c.St.killPrefix("dom:")
			c.St.killPrefix("assoc")
			return mark("dirty:" + arg(c, 2))
		case isDB(c.Name, "UpdateDomains"):
			key := "dirty-first@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "domains are marked dirty before their rows change")
			if !c.St.has("dirty:" + arg(c, 2)) {
				r.Bad(key, pos, "domain rows are written for domains that were not marked dirty before", c.St.traceString())
			}
			return mark("dom:" + arg(c, 2))
		case isDBAny(c.Name, "UpdateDomainCerts", "UpdateDomainPolicies"):
			kind := "certs"
			if isDB(c.Name, "UpdateDomainPolicies") {
				kind = "policies"
			}
			key := "assoc-after-domains@" + inTopLevel(c.Fr) + "/" + kind
			r.Ob(key, pos, "associations are written for domains already marked dirty and stored")
			if !c.St.has("dirty:"+arg(c, 2)) || !c.St.has("dom:"+arg(c, 2)) {
				r.Bad(key, pos, "associations are written for domains that were not marked dirty and stored before", c.St.traceString())
			}
			return mark("assoc:" + kind)
		case isDBAny(c.Name, "UpdateCerts", "UpdatePolicies"):
			kind := "certs"
			if isDB(c.Name, "UpdatePolicies") {
				kind = "policies"
			}
			key := "existence-last@" + inTopLevel(c.Fr) + "/" + kind
			r.Ob(key, pos, "the rows that make "+kind+" count as present are written after dirty marks, domains and associations")
			if !c.St.has("assoc:" + kind) {
				r.Bad(key, pos, "the "+kind+" rows are written before the domain associations: an interruption in between loses the associations for good, because a retry skips "+kind+" that are already present", c.St.traceString())
			}
			return mark("exist:" + kind)
		}
		return nil
	}
	isEv := func(name string, c ssa.CallInstruction, in *ssa.Function) bool {
		return pkgOf(in) == updPkg && isDBAny(name, "UpdateCerts", "UpdatePolicies", "UpdateDomainCerts", "UpdateDomainPolicies", "InsertDomainsIntoDirty", "UpdateDomains")
	}
	rel := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool { return isEv(calleeName(c.Common()), c, f) })
	// entries: the functions of the updater that (transitively) perform existence writes on
	// behalf of a whole batch; exported batch functions are the API.
	ents := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != updPkg || !rel[f] || f.Parent() != nil || fnObj(f) == nil || f.Synthetic != "" {
			continue
		}
		if !fnObj(f).Exported() || f.Signature.Recv() != nil {
			continue
		}
		ents++
		e := NewEngine(p, h)
		e.Relevant = rel
		key := "complete@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "success implies that every table of the batch was written without error")
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) == 0 || o.Results[len(o.Results)-1].Nil == yes {
				continue
			}
			if o.St.has("bad") {
				r.Bad(key, p.pos(f.Pos()), "the batch can be reported as inserted although one of its writes failed", o.St.traceString())
			}
			for _, k := range []string{"certs", "policies"} {
				if writes[k][f] && !direct[k][f] && !o.St.has("taken:"+k) && !o.St.hasPrefix("exist:"+k) {
					r.Bad(key, p.pos(f.Pos()), "the batch can be reported as inserted without having got to its "+k, o.St.traceString())
				}
				if o.St.has("exist:"+k) != o.St.has("assoc:"+k) && o.St.has("assoc:"+k) {
					r.Bad(key, p.pos(f.Pos()), "associations without the "+k+" rows on a successful path", o.St.traceString())
				}
			}
		}
		r.absorb(e)
	}
	// every certificate, policy and name of the batch is carried over to what is written
	var fns []*ssa.Function
	for g := range rel {
		if pkgOf(g) == updPkg {
			fns = append(fns, p.staticReach(g, updPkg, "pkg/util")...)
		}
	}
	r.Note("%d loops carrying a batch over", checkLossless(p, r, uniqFns(fns)))
	r.Floor("batch insertion entry points", ents, 1)
	r.Floor("existence-last obligations", r.count("existence-last@"), 2)
	r.Floor("dirty-first obligations", r.count("dirty-first@"), 1)
}

// --- C05 ---------------------------------------------------------------------

func runC05(p *Prog, r *Rep, thorough bool) {
	nState, nFetch := 0, 0
	fl := NewFacts()
	progress, target := map[string]bool{}, map[string]bool{}
	var h Hooks
	h.Assume = func(fr *Frame, st *State, v *AVal, truth bool) {
		fl.record(st, v, truth)
	}
	h.Call = func(c *CallCtx) []*Outcome {
		if inDBLayer(c.Fr) {
			return nil
		}
		pos := p.pos(c.Pos())
		switch {
		case strings.HasSuffix(c.Name, ".ReturnNextBatch"):
			nFetch++
			from := "from:" + c.Args[0].T
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("fetched"); st.gen(from) }, func(st *State, rs []*AVal) { st.gen("bad") })
		case c.Name == updPkg+".UpdateWithKeepExisting" || c.Name == updPkg+".UpdateWithOverwrite":
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("inserted") }, func(st *State, rs []*AVal) { st.gen("bad") })
		case fetMeth(c.Name, "URL"):
			return c.E.Prim(c)
		case isDB(c.Name, "UpdateLastCTlogServerState"):
			if !c.St.has("fetched") && !c.St.has("bad") {
				return nil // not a batch loop (ingest's recordctsize, decided under C02)
			}
			nState++
			key := "logstate@" + inTopLevel(c.Fr)
			r.Ob(key, pos, "the CT log state is recorded only after the batch that reaches it was inserted")
			bad := func(m string) { r.Bad(key, pos, m, c.St.traceString()) }
			if c.St.has("bad") {
				bad("the log state is recorded on a path where fetching or inserting the batch failed")
			}
			if !c.St.has("inserted") {
				bad("the log state is recorded on a path where the batch was not inserted")
			}
			size := c.Args[3].T
			target[stripAddr(size)] = true
			okEq := false
			full := func(v *AVal) bool {
				for loc := range progress {
					if countsBatch(v, loc) {
						return true
					}
				}
				return false
			}
			same := func(v *AVal) bool { return polyOf(v).eq(polyOf(c.Args[3])) }
			if fl.eqHolds(c.St, full, same) {
				okEq = true
			}
			if !okEq {
				bad("the recorded size (" + size + ") is not known to equal the number of entries inserted so far on this path")
			}
			if u := c.Args[2]; !strings.HasSuffix(u.Callee(), ".URL") || len(u.Args) == 0 || !c.St.has("from:"+u.Args[0].T) {
				bad("the log whose state is recorded is not the one that was fetched")
			}
			if len(c.Args) > 4 && strings.HasSuffix(unconv(c.Args[3]).T, ".Size") && c.Args[4].T != strings.TrimSuffix(unconv(c.Args[3]).T, ".Size")+".STH" {
				bad("the tree head recorded is not the one of the recorded size")
			}
			return c.E.Split(c, nil, func(st *State, rs []*AVal) { st.gen("bad") })
		}
		return nil
	}
	h.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
		if strings.Contains(val.T, "ReturnNextBatch") && strings.HasSuffix(addr.T, ".Size") {
			progress[locOf(addr)] = true
			key := "progress@" + inTopLevel(fr)
			r.Ob(key, p.pos(in.Pos()), "in-memory progress advances only after the batch was inserted")
			if !st.has("inserted") || st.has("bad") {
				r.Bad(key, p.pos(in.Pos()), "progress advances before the batch was inserted", st.traceString())
			}
		}
	}
	isEv := func(name string, c ssa.CallInstruction, in *ssa.Function) bool {
		return !strings.HasPrefix(pkgOf(in), "pkg/db") && (strings.HasSuffix(name, ".ReturnNextBatch") || isDB(name, "UpdateLastCTlogServerState") || name == updPkg+".UpdateWithKeepExisting")
	}
	rel := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool { return isEv(calleeName(c.Common()), c, f) })
	ents := 0
	for _, f := range p.Funcs {
		if !rel[f] || f.Parent() != nil || fnObj(f) == nil || f.Synthetic != "" || isTestSupport(pkgOf(f)) {
			continue
		}
		if lastName(fname(f)) != "UpdateNextBatch" {
			continue
		}
		ents++
		e := NewEngine(p, h)
		e.Relevant = rel
		key := "batch-success@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "a batch is reported as processed only when it was fetched and inserted without error")
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) == 0 || o.Results[len(o.Results)-1].Nil == yes {
				continue
			}
			for loc := range progress {
				if v, ok := o.St.mem[loc]; ok && !countsBatch(v, loc) {
					r.Bad("progress@"+fname(f), p.pos(f.Pos()), "progress does not advance by exactly the entries of the batch: "+v.T, o.St.traceString())
				}
			}
			if o.St.has("bad") || !o.St.has("inserted") {
				r.Bad(key, p.pos(f.Pos()), "the batch can be reported as processed although it was not fetched and inserted", o.St.traceString())
			}
		}
		r.absorb(e)
	}
	// every error of the fetchers reaches the consumer of the batches
	sites := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/logfetcher" || f.Synthetic != "" || f.Parent() != nil && onlyCalledByParent(f) {
			continue
		}
		sites += checkErrFlow(p, r, f, true)
	}
	for _, f := range p.Funcs {
		if pkgOf(f) == updPkg && f.Synthetic == "" && f.Parent() == nil && callsFetcher(f) {
			sites += checkErrFlow(p, r, f, true)
		}
	}
	checkFetchStart(p, r, progress, target)
	checkFetchBatches(p, r)
	checkFetchProducers(p, r)
	r.Floor("fallible calls of the log fetchers decided", sites, 10)
	r.Floor("UpdateNextBatch implementations", ents, 1)
	r.Floor("log state records simulated", nState, 1)
	r.Floor("in-memory progress stores", r.count("progress@"), 1)
	checkRecordedSize(p, r)
}
