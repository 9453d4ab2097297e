package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const journalPkg = "cmd/ingest/journal"

// The journal file is identified by the exported field Journal.JournalFile.
func mentionsJournalFile(st *State, v *AVal) bool {
	return v.mentions(func(x *AVal) bool { return isJournalPath(st, x) })
}

// isJournalPath: the value of the exported field Journal.JournalFile, or a value that this
// path stored into that field.
func isJournalPath(st *State, x *AVal) bool {
	return strings.HasSuffix(x.T, ".JournalFile") || st.has("jf:"+x.T)
}

var fileWriteCalls = map[string]int{ // callee -> index of the argument holding the file
	"os.(*File).Write": 0, "os.(*File).WriteString": 0, "os.(*File).WriteAt": 0, "os.(*File).Truncate": 0,
	"os.(*File).Seek": 0, "os.(*File).ReadFrom": 0, "os.(*File).Chmod": 0,
	"io.Copy": 0, "io.WriteString": 0, "fmt.Fprintf": 0, "fmt.Fprint": 0, "fmt.Fprintln": 0,
	"bufio.NewWriter": 0, "bufio.NewWriterSize": 0, "encoding/json.NewEncoder": 0,
}

var pathMutators = map[string][]int{ // callee -> indices of path arguments it may create, truncate or remove
	"os.Create": {0}, "os.OpenFile": {0}, "os.WriteFile": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Truncate": {0}, "os.Rename": {0, 1}, "os.Link": {1}, "os.Symlink": {1}, "os.CreateTemp": {},
	"syscall.Rename": {0, 1}, "os.Chmod": {0}, "syscall.Unlink": {0}, "io/ioutil.WriteFile": {0},
}

func init() {
	register(&Check{ID: "C01", Level: "proof",
		Explain:     "Path-sensitive typestate over the SSA of the ingest journal: on every path of every exported journal entry point, the journal path is only ever the destination of a rename whose source is the temporary file created in the same directory, after the JSON encoding of the journal was written to it without error, synced and closed; every nil-error return of a persisting entry point has performed that rename; error paths remove the temporary file; no other function of the ingest program opens, truncates, writes or removes the journal path.",
		Assumptions: []string{"rename(2) replaces the destination atomically", "the durability of the directory entry after rename is explicitly out of scope of the code (syncDirAfterRename documents it)"},
		Run:         runC01})
}

func runC01(p *Prog, r *Rep, thorough bool) {
	renames := 0
	mutating := map[string]bool{}
	var hooks Hooks
	ev := func(c *CallCtx, what string) string { return what + "@" + fname(topFn(c.Fr.Fn)) }
	hooks.Before = func(c *CallCtx) {
		if idxs, ok := pathMutators[c.Name]; ok {
			for _, i := range idxs {
				if i >= len(c.Args) || !mentionsJournalFile(c.St, c.Args[i]) || c.Args[i].mentionsCall("os.(*File).Name") {
					continue
				}
				a := c.Args[i]
				if c.Name == "os.Rename" && i == 1 {
					continue
				}
				if c.Name == "os.OpenFile" && len(c.Args) > 1 && c.Args[1].T == "0" {
					continue
				}
				if !isJournalPath(c.St, a) {
					// a derived path (directory, backup name): only the exact path matters
					continue
				}
				r.Bad(ev(c, "sole-writer:"+c.Name), p.pos(c.Pos()),
					c.Name+" is applied to the journal path directly: a crash here can leave a truncated or missing journal", c.St.traceString())
			}
		}
	}
	hooks.Store = func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
		if strings.HasSuffix(addr.T, ".JournalFile") && strings.HasPrefix(pkgOf(fr.Fn), "cmd/ingest") && val.C == nil && val.T != "⊤" {
			st.gen("jf:" + val.T)
		}
	}
	hooks.Call = func(c *CallCtx) []*Outcome {
		switch c.Name {
		case "os.(*File).Name":
			v := c.E.callTerm(c, true)
			return []*Outcome{{St: c.St, Results: []*AVal{v}}}
		case "os.CreateTemp":
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.killPrefix("st:")
				st.gen("tmp:" + rs[0].T)
				// temp must live beside the journal: remembered through its term
			}, nil)
		case "os.(*File).Sync":
			f := c.Args[0].T
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.gen("st:synced:" + f)
			}, func(st *State, rs []*AVal) { st.kill("st:synced:" + f); st.gen("st:bad:" + f) })
		case "os.(*File).Close":
			f := c.Args[0].T
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.gen("st:closed:" + f)
			}, func(st *State, rs []*AVal) { st.gen("st:bad:" + f) })
		case "os.Remove":
			a := c.Args[0]
			return c.E.Split(c, func(st *State, rs []*AVal) { removeTmp(st, a) }, func(st *State, rs []*AVal) { removeTmp(st, a) })
		case "os.Rename":
			if len(c.Args) < 2 || !mentionsJournalFile(c.St, c.Args[1]) {
				return nil
			}
			renames++
			key := ev(c, "rename")
			r.Ob(key, p.pos(c.Pos()), "the journal is replaced only by a complete, synced, closed temporary file from the same directory")
			src, dst := c.Args[0], c.Args[1]
			bad := func(m string) { r.Bad(key, p.pos(c.Pos()), m, c.St.traceString()) }
			file := ""
			if src.Callee() == "os.(*File).Name" && len(src.Args) == 1 {
				file = src.Args[0].T
			}
			switch {
			case file == "" || !c.St.has("tmp:"+file):
				bad("the source of the rename (" + src.T + ") is not the name of the temporary file created on this path")
			case !isJournalPath(c.St, dst):
				bad("the destination of the rename is " + dst.T + ", not the journal path")
			default:
				// CreateTemp(dir, …): dir must be the directory of the destination
				var dir *AVal
				src.walk(func(x *AVal) bool {
					if x.Callee() == "os.CreateTemp" && len(x.Args) > 0 {
						dir = x.Args[0]
					}
					return true
				})
				if dir == nil || dir.Callee() != "path/filepath.Dir" || len(dir.Args) != 1 || dir.Args[0].T != dst.T {
					bad("the temporary file is not created in the journal's directory: rename is then not an atomic replacement")
				}
				switch {
				case c.St.has("st:bad:" + file):
					bad("rename is reached although writing, syncing or closing the temporary file failed")
				case !c.St.has("st:written:" + file):
					bad("rename is reached without writing the journal encoding to the temporary file")
				case !c.St.has("st:synced:" + file):
					bad("rename is reached without a Sync of the temporary file after its last write")
				case !c.St.has("st:closed:" + file):
					bad("rename is reached without closing the temporary file")
				}
			}
			return c.E.Split(c, func(st *State, rs []*AVal) { st.gen("renamed"); st.killPrefix("tmp:"); st.killPrefix("st:") }, nil)
		}
		if (c.Name == "bufio.NewWriter" || c.Name == "bufio.NewWriterSize" || c.Name == "encoding/json.NewEncoder") && len(c.Args) > 0 && c.St.has("tmp:"+c.Args[0].T) {
			return nil // what is written through it is an event of its own
		}
		if i, ok := fileWriteCalls[c.Name]; ok && i < len(c.Args) && c.St.has("tmp:"+c.Args[i].T) {
			f := c.Args[i].T
			enc := false
			for _, a := range c.Args {
				if a.mentionsCall("encoding/json.Marshal", "encoding/json.MarshalIndent") {
					enc = true
				}
			}
			return c.E.Split(c, func(st *State, rs []*AVal) {
				st.kill("st:synced:"+f, "st:closed:"+f)
				if enc {
					st.gen("st:written:" + f)
				} else {
					st.gen("st:other:" + f)
				}
			}, func(st *State, rs []*AVal) { st.gen("st:bad:" + f) })
		}
		if c.Name == "encoding/json.(*Encoder).Encode" {
			var f string
			c.Args[0].walk(func(x *AVal) bool {
				if c.St.has("tmp:" + x.T) {
					f = x.T
				}
				return true
			})
			if f != "" {
				return c.E.Split(c, func(st *State, rs []*AVal) {
					st.kill("st:synced:"+f, "st:closed:"+f)
					st.gen("st:written:" + f)
				}, func(st *State, rs []*AVal) { st.gen("st:bad:" + f) })
			}
		}
		return nil
	}
	isEv := func(name string, c ssa.CallInstruction, in *ssa.Function) bool {
		if !strings.HasPrefix(pkgOf(in), "cmd/ingest") {
			return false
		}
		_, a := pathMutators[name]
		_, w := fileWriteCalls[name]
		return a || w && pkgOf(in) == journalPkg || name == "os.(*File).Sync" || name == "encoding/json.(*Encoder).Encode"
	}
	rel := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool { return isEv(calleeName(c.Common()), c, f) })

	// every exported function or method of the journal package, and every function of the
	// ingest command that is not reached from them
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) != journalPkg || f.Parent() != nil || fnObj(f) == nil || !fnObj(f).Exported() || f.Synthetic != "" || !rel[f] {
			continue
		}
		e := NewEngine(p, hooks)
		e.Relevant = rel
		e.seen = map[*ssa.Function]bool{}
		outs := e.RunEntry(f)
		for g := range e.seen {
			seen[g] = true
		}
		r.absorb(e)
		key := "persist@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "a nil error from this entry point implies the journal on disk was replaced")
		tkey := "cleanup@" + fname(f)
		r.Ob(tkey, p.pos(f.Pos()), "no temporary journal file is left behind")
		persists := 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			n := len(o.Results)
			if n == 0 || !isErrorType(f.Signature.Results().At(f.Signature.Results().Len()-1).Type()) {
				continue
			}
			if o.St.hasPrefix("tmp:") {
				r.Bad(tkey, p.pos(f.Pos()), "a path returns while the temporary journal file still exists", o.St.traceString())
			}
			if o.Results[n-1].Nil == yes {
				continue
			}
			if o.St.has("renamed") {
				persists++
				mutating[fname(f)] = true
				continue
			}
			// a closed journal has nothing left to persist
			if closedJournal(o.St, f) {
				continue
			}
			r.Bad(key, p.pos(f.Pos()), "a path returns without error although the journal file was not replaced", o.St.traceString())
		}
	}
	// the journal's own functions are decided above; what remains is the rest of the program
	rel2 := p.reaches(func(c ssa.CallInstruction, f *ssa.Function) bool {
		return pkgOf(f) != journalPkg && isEv(calleeName(c.Common()), c, f)
	})
	h2 := hooks
	h2.Inline = func(fn *ssa.Function) bool {
		return rel2[fn] && pkgOf(fn) != journalPkg || storesField(fn, "JournalFile")
	}
	for _, f := range p.Funcs {
		if !strings.HasPrefix(pkgOf(f), "cmd/ingest") || pkgOf(f) == journalPkg || seen[f] || !rel2[f] || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		e := NewEngine(p, h2)
		e.Relevant = rel2
		e.RunEntry(f)
		r.absorb(e)
	}
	r.Ob("sole-writer", "", "no function of the ingest program creates, truncates, writes or removes the journal path except through the rename")
	r.Floor("renames onto the journal path simulated", renames, 1)
	r.Floor("exported entry points that persist the journal", len(mutating), 4)
}

func storesField(fn *ssa.Function, field string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
		}
	}
	return false
}

func removeTmp(st *State, a *AVal) {
	if a.Callee() == "os.(*File).Name" && len(a.Args) == 1 {
		st.kill("tmp:" + a.Args[0].T)
		st.killPrefix("st:")
	}
}

// closedJournal: the path established that a boolean field of the receiver (the closed flag)
// is set.
func closedJournal(st *State, f *ssa.Function) bool {
	if len(f.Params) == 0 || f.Signature.Recv() == nil {
		return false
	}
	recv := f.Params[0].Name()
	t := f.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			l := recv + "." + s.Field(i).Name()
			if v, ok := st.asm[l]; ok && v && lastName(fname(f)) == "Close" {
				return true
			}
		}
	}
	return false
}
