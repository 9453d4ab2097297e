package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Level: "proof",
		Explain: "path-sensitive simulation of the responder, of the proof builder of the tree, and of every HTTP handler: what every answer, every reload and every reply consists of",
		Assumptions: []string{
			"pkg/domain.ParseDomainName returns the parts of the hierarchy of a name (values of strings are not decided)",
			"the DB returns what was stored for the domain (the read functions of the DB layer are decided by C18)",
		},
		Trusted: []string{"go/types and golang.org/x/tools/go/ssa (type checking and lowering)", "the path interpreter of /verif/analyzer"},
		Run:     runAnswer})
}

const (
	rspPkg  = "pkg/mapserver/responder"
	parseFn = "pkg/domain.ParseDomainName"
)

func runAnswer(p *Prog, r *Rep, th bool) {
	symIdx = true
	defer func() { symIdx = false }()
	sig := answerReload(p, r)
	answerProofs(p, r, sig)
	answerFound(p, r)
	answerHTTP(p, r)
}

// recvField: the address is that of a field of the responder; its name and type.
func recvField(v ssa.Value) (string, types.Type) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "", nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || short(n.Obj().Pkg().Path()) != rspPkg || !isRepoPkg(n.Obj().Pkg()) {
		return "", nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	return s.Field(fa.Field).Name(), s.Field(fa.Field).Type()
}

func isTrieType(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "/trie.Trie") }
func isBytes(t types.Type) bool    { return t != nil && t.Underlying().String() == "[]byte" }

// section keeps, per path, the critical sections in which the tree and its signature are used.
func section(c *CallCtx) {
	switch c.Name {
	case "sync.(*RWMutex).RLock", "sync.(*RWMutex).Lock", "sync.(*Mutex).Lock":
		c.St.gen("in")
	case "sync.(*RWMutex).RUnlock", "sync.(*RWMutex).Unlock", "sync.(*Mutex).Unlock":
		c.St.kill("in")
		for _, k := range []string{"tree", "sig"} {
			if c.St.facts["use:"+k] {
				c.St.gen("closed")
			}
		}
	}
}

// answerReload: a reload installs, in one critical section and only once nothing can fail
// anymore, the tree of the stored root and the signature over exactly its root.
func answerReload(p *Prog, r *Rep) string {
	// the functions of the responder that store its tree
	n := 0
	sigField := ""
	for _, f := range p.Funcs {
		if pkgOf(f) != rspPkg || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil {
			continue
		}
		touches := p.reaches(func(c ssa.CallInstruction, g *ssa.Function) bool {
			return calleeName(c.Common()) == trieP+"NewTrie"
		})
		if !touches[f] {
			continue
		}
		n++
		key := "reload@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "a successful reload installs the tree of the stored root with the signature over its root")
		r.Ob("atomic@"+fname(f), p.pos(f.Pos()), "tree and signature are replaced together, in one critical section, or not at all")
		priv := ""
		for _, pa := range f.Params {
			if strings.HasSuffix(pa.Type().String(), "rsa.PrivateKey") {
				priv = pa.Name()
			}
		}
		bad := func(k, pos, msg string, st *State) { r.Bad(k+fname(f), pos, msg, st.traceString()) }
		trees, sigs := map[string]*AVal{}, map[string]*AVal{}
		fl := NewFacts()
		e := NewEngine(p, Hooks{
			Inline: func(g *ssa.Function) bool { return pkgOf(g) == rspPkg || smallFn(g) },
			Before: func(c *CallCtx) { section(c) },
			Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) },
			Call: func(c *CallCtx) []*Outcome {
				switch {
				case c.Name == trieP+"NewTrie", strings.HasSuffix(c.Name, "crypto.SignBytes"), strings.HasSuffix(c.Name, ".LoadRoot"):
					return c.E.Prim(c)
				}
				return nil
			},
			Store: func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
				name, t := recvField(in.Addr)
				if strings.HasPrefix(stripAddr(addr.T), "@") {
					return // one that is being built
				}
				use := ""
				switch {
				case name == "":
					return
				case isTrieType(t):
					use = "tree"
					trees[val.T] = val
					st.killPrefix("tree=")
					st.gen("tree=" + val.T)
				case isBytes(t):
					use = "sig"
					sigField = name
					sigs[val.T] = val
					st.killPrefix("sig=")
					st.gen("sig=" + val.T)
				default:
					return
				}
				if !st.facts["in"] {
					bad("atomic@", p.pos(in.Pos()), "the "+use+" is replaced outside a critical section", st)
				}
				if st.facts["closed"] {
					bad("atomic@", p.pos(in.Pos()), "the tree and its signature are replaced in two critical sections: an answer between them carries the signature of another tree", st)
				}
				st.gen("use:" + use)
			},
		})
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) == 0 {
				continue
			}
			st := o.St
			err := o.Results[len(o.Results)-1]
			if err.Nil == yes {
				if st.hasPrefix("tree=") || st.hasPrefix("sig=") {
					bad("atomic@", "", "a reload that fails has replaced the tree or its signature", st)
				}
				continue
			}
			get := func(pre string, m map[string]*AVal) *AVal {
				for k := range st.facts {
					if strings.HasPrefix(k, pre) {
						return m[k[len(pre):]]
					}
				}
				return nil
			}
			tv, sv := get("tree=", trees), get("sig=", sigs)
			if tv == nil || sv == nil {
				bad("reload@", "", "a reload succeeds without replacing the tree and its signature", st)
				continue
			}
			var nt *AVal
			tv.walk(func(x *AVal) bool {
				if x.Callee() == trieP+"NewTrie" {
					nt = x
				}
				return nt == nil
			})
			if nt == nil || tv.T != nt.T+"#0" {
				bad("reload@", "", "the tree installed is not a new tree", st)
				continue
			}
			root := nt.Args[0]
			load := func(v *AVal) bool {
				return v.mentions(func(x *AVal) bool { return strings.HasSuffix(x.Callee(), ".LoadRoot") })
			}
			nilRoot := false
			for k := range st.facts {
				if strings.HasPrefix(k, "ok:") && strings.Contains(k, ".LoadRoot(") {
					nilRoot = true
				}
			}
			if !load(root) && !(nilOrEmpty(root) && nilRoot) {
				bad("reload@", "", "the tree is not loaded from the stored root", st)
			}
			if nilOrEmpty(root) && fl.neqHolds(st, isT("nil"), func(v *AVal) bool {
				return v.Op == "extract" && strings.HasSuffix(v.T, "#0") && strings.HasSuffix(v.Args[0].Callee(), ".LoadRoot")
			}) {
				bad("reload@", "", "the tree is loaded empty although a root is stored", st)
			}
			var sg *AVal
			sv.walk(func(x *AVal) bool {
				if strings.HasSuffix(x.Callee(), "crypto.SignBytes") {
					sg = x
				}
				return sg == nil
			})
			if sg == nil || len(sg.Args) != 2 || stripAddr(sg.Args[0].T) != tv.T+".Root" {
				bad("reload@", "", "the signature installed is not one over the root of the tree installed", st)
			} else if priv != "" && sg.Args[1].T != priv {
				bad("reload@", "", "the root is signed with another key than the one given", st)
			}
		}
		r.absorb(e)
	}
	r.Floor("functions that load the tree of the responder", n, 1)
	return sigField
}

// answerProofs: every answer holds one entry per part of the name, each with the proof, root
// and signature of one loaded tree and with the data stored for the part.
func answerProofs(p *Prog, r *Rep, sigField string) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != rspPkg || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sg := f.Signature
		if sg.Results().Len() == 0 || !strings.HasSuffix(sg.Results().At(0).Type().String(), "[]*"+modPath+"/pkg/mapserver/common.MapServerResponse") {
			continue
		}
		n++
		answerFn(p, r, f, sigField)
	}
	r.Floor("functions that answer with proofs", n, 1)
}

func answerFn(p *Prog, r *Rep, f *ssa.Function, sigField string) {
	at := "@" + fname(f)
	for k, d := range map[string]string{
		"parts":    "an answer holds exactly one entry for each part of the name, in the order of the parser",
		"snapshot": "all entries of an answer carry proof, root and signature of one tree, taken in one critical section",
		"entry":    "an entry names its part, and its proof is that of the hash of the name",
		"payload":  "the entry of a present part holds the IDs stored for it and the hash of all of them",
	} {
		r.Ob(k+at, p.pos(f.Pos()), d)
	}
	fl := NewFacts()
	bad := func(k, pos, msg string, st *State) { r.Bad(k+at, pos, msg, st.traceString()) }
	elemT := func(t types.Type) bool { return strings.HasSuffix(t.String(), "common.MapServerResponse") }
	name := f.Params[len(f.Params)-1].Name()
	parts := parseFn + "(" + name + ")#0"
	var e *Engine

	// current part of this iteration
	cur := func(st *State) string {
		for k := range st.facts {
			if strings.HasPrefix(k, "part:") {
				return k[5:]
			}
		}
		return ""
	}
	checkEntry := func(st *State, loc, pos string) {
		idx := cur(st)
		part := parts + "[" + idx + "]"
		get := func(l, field string) *AVal {
			return e.loadLoc(st, l+"."+field, types.Typ[types.UnsafePointer], nil)
		}
		de := locOf(get(loc, "DomainEntry"))
		if get(loc, "DomainEntry").Nil == no || de == "" {
			bad("entry", pos, "the answer holds an entry without domain", st)
			return
		}
		if v := get(de, "DomainName"); v.T != part {
			bad("entry", pos, "the entry does not name the part it is for", st)
		}
		isID := func(v *AVal) bool {
			return isHash(v) && len(v.Args) == 1 && lit1(v.Args[0]).T == part
		}
		id := get(de, "DomainID")
		if !isID(id) {
			bad("entry", pos, "the ID of the entry is not the hash of the name of its part", st)
		}
		// proof
		proof := get(loc, "PoI.Proof")
		var mp *AVal
		proof.walk(func(x *AVal) bool {
			if strings.HasPrefix(x.Callee(), trieP+"(*Trie).MerkleProof") {
				mp = x
			}
			return mp == nil
		})
		if mp == nil || proof.T != mp.T+"#0" || len(mp.Args) < 3 {
			bad("entry", pos, "the entry does not hold the audit path built by the tree", st)
			return
		}
		if k := mp.Args[2]; !isID(k) && !isID(&AVal{Op: k.Op, Args: k.Args, T: k.T}) && stripAddr(k.T) != id.T {
			bad("entry", pos, "the proof is that of another key than the ID of the entry", st)
		}
		if !st.facts["ok:"+mp.T] {
			bad("entry", pos, "the entry holds the result of a proof that failed", st)
		}
		if v := get(loc, "PoI.ProofKey"); v.T != mp.T+"#2" {
			bad("entry", pos, "the key of the other leaf in the entry is not that of its proof", st)
		}
		if v := get(loc, "PoI.ProofValue"); v.T != mp.T+"#3" {
			bad("entry", pos, "the value of the leaf in the entry is not that of its proof", st)
		}
		present := fl.holds(st, true, isT(mp.T+"#1"))
		absent := fl.holds(st, false, isT(mp.T+"#1"))
		pt := get(loc, "PoI.ProofType")
		isP := pt.C != nil && pt.C.String() == "1"
		isA := pt.Zero || pt.C != nil && pt.C.String() == "0"
		if present && !isP || absent && !isA || !present && !absent {
			bad("entry", pos, "the type of the proof in the entry is not that of its proof", st)
		}
		// snapshot
		tree := mp.Args[0]
		if v := get(loc, "PoI.Root"); v.T != tree.T+".Root" {
			bad("snapshot", pos, "the root in the entry is not that of the tree the proof comes from", st)
		}
		s := get(loc, "TreeHeadSig")
		base := strings.TrimSuffix(tree.T, lastField(tree.T))
		sigT := base + "." + sigField
		if base != "" && strings.HasSuffix(base, ".") {
			sigT = base + sigField
		}
		if !clonesOf(st, s, sigT) {
			bad("snapshot", pos, "the signature in the entry is not the one kept with the tree", st)
		}
		if !present {
			return
		}
		// payload
		for _, w := range []struct{ f1, f2, fn, what string }{
			{"CertIDsID", "CertIDs", "RetrieveDomainCertificatesIDs", "certificates"},
			{"PolicyIDsID", "PolicyIDs", "RetrieveDomainPoliciesIDs", "policies"},
		} {
			for i, fld := range []string{w.f1, w.f2} {
				v := get(de, fld)
				ok := false
				if v.Op == "extract" && len(v.Args) == 1 {
					c := v.Args[0]
					ok = strings.HasSuffix(c.Callee(), "."+w.fn) && v.T == fmt.Sprintf("%s#%d", c.T, i) && len(c.Args) > 0 &&
						(isID(c.Args[len(c.Args)-1]) || c.Args[len(c.Args)-1].T == id.T) && st.facts["ok:"+c.T]
				}
				if !ok {
					bad("payload", pos, "field "+fld+" of the entry is not what is stored for the "+w.what+" of the domain", st)
				}
			}
		}
		v := get(de, "DomainValue")
		c, po := get(de, "CertIDs"), get(de, "PolicyIDs")
		if !isHash(v) || !v.mentionsCall("pkg/common.SortIDsAndGlue") && !v.mentionsCall("pkg/common.SortIDsAndHash") ||
			!hasLeaf(c.T, po.T)(v) || !onlyLeaves(v, c, po) {
			bad("payload", pos, "the value of the entry is not the hash of the sorted IDs of its certificates and policies", st)
		}
	}
	// the entry is complete at the end of the round that stored it
	flush := func(st *State) {
		for k := range st.facts {
			if strings.HasPrefix(k, "elem:") {
				st.kill(k)
				st.gen("done")
				checkEntry(st, k[5:], "")
			}
		}
	}
	isLen := func(v *AVal) bool { return v.T == "len("+parts+")" }
	stored := func(fr *Frame, st *State, v *AVal, idx, pos string) {
		c := cur(st)
		if c == "" {
			bad("parts", pos, "an entry is put in the answer outside the loop over the parts of the name", st)
			return
		}
		if idx != "" && idx != c {
			bad("parts", pos, "the entry of a part is put in another place of the answer", st)
		}
		if st.hasPrefix("elem:") || st.facts["done"] {
			bad("parts", pos, "a part of the name has more than one entry in the answer", st)
		}
		st.gen("elem:" + locOf(v))
	}
	use := func(st *State, what, pos string) {
		if !st.facts["in"] {
			bad("snapshot", pos, "the "+what+" is read outside a critical section", st)
		}
		if st.facts["closed"] {
			bad("snapshot", pos, "the tree and its signature are read in different critical sections: a reload between them gives the answer a signature or proofs of different trees", st)
		}
		st.gen("use:" + what)
	}
	e = NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return pkgOf(g) == rspPkg || smallFn(g) },
		Before: func(c *CallCtx) { section(c) },
		Call: func(c *CallCtx) []*Outcome {
			switch lastName(c.Name) {
			case "ParseDomainName", "MerkleProof", "MerkleProofR", "RetrieveDomainCertificatesIDs", "RetrieveDomainPoliciesIDs":
				return c.E.Prim(c)
			}
			if hashPrims[c.Name] {
				return c.E.Prim(c)
			}
			switch c.Name {
			case "bytes.Clone", "slices.Clone":
				return c.E.Prim(c)
			case "builtin.copy":
				c.St.gen("copied:" + stripAddr(c.Args[0].T) + "<-" + stripAddr(c.Args[1].T))
			case "builtin.append":
				if len(c.Args) == 2 {
					if sl, ok := c.In.Common().Args[0].(*ssa.Slice); ok {
						if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
							if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
								c.St.gen("empty:" + c.Args[0].T)
							}
						}
					}
					for _, x := range c.elems(1) {
						if s, ok := c.In.Common().Args[0].Type().Underlying().(*types.Slice); ok && elemT(deref(s.Elem())) {
							stored(c.Fr, c.St, x, "", p.pos(c.Pos()))
						}
					}
				}
			}
			return nil
		},
		BackEdge: func(fr *Frame, st *State, header *ssa.BasicBlock) { flush(st) },
		Load: func(fr *Frame, st *State, addr *AVal, in ssa.Instruction) {
			ld, ok := in.(*ssa.UnOp)
			if !ok {
				return
			}
			name, t := recvField(ld.X)
			if name == "" {
				return
			}
			if isTrieType(t) {
				use(st, "tree", p.pos(in.Pos()))
			} else if name == sigField {
				use(st, "sig", p.pos(in.Pos()))
			}
		},
		Store: func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !isPtrTo(in.Val.Type(), elemT) {
				return
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				return // the arguments of append
			}
			if _, lit := ia.X.(*ssa.Slice); lit {
				return
			}
			t := addr.T
			i := strings.LastIndex(t, ")[")
			idx := ""
			if i >= 0 {
				idx = strings.TrimSuffix(t[i+2:], "]")
			}
			stored(fr, st, val, idx, p.pos(in.Pos()))
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			fl.record(st, a, truth)
			if b, neg := stripNotVal(a); neg {
				a, truth = b, !truth
			}
			var ix *AVal
			more := truth
			switch {
			case a.Op == "<" && len(a.Args) == 2 && isLen(a.Args[1]):
				ix = a.Args[0]
			case a.Op == "==" && len(a.Args) == 2 && isLen(a.Args[1]) && a.Args[0].C == nil:
				ix, more = a.Args[0], !truth
			case a.Op == "==" && len(a.Args) == 2 && isLen(a.Args[0]) && a.Args[1].C == nil:
				ix, more = a.Args[1], !truth
			default:
				return
			}
			if c := cur(st); c != "" && c == ix.T && ix.C != nil && !st.facts["done"] {
				return // the same test again
			}
			if cur(st) != "" && !st.facts["done"] {
				bad("parts", "", "a part of the name has no entry in the answer", st)
			}
			st.killPrefix("part:")
			st.kill("done")
			for k := range st.facts { // what was known of the previous part
				if strings.Contains(k, parts+"[") {
					st.kill(k)
				}
			}
			if more {
				st.gen("part:" + ix.T)
			} else {
				st.gen("end")
			}
		},
	})
	acc := 0
	for _, o := range e.RunEntry(f) {
		if o.Panic || len(o.Results) < 2 || o.Results[len(o.Results)-1].Nil == yes {
			continue
		}
		acc++
		if !o.St.facts["end"] {
			bad("parts", "", "an answer is given before every part of the name has an entry", o.St)
		}
		if v := o.Results[0]; nilOrEmpty(v) {
			bad("parts", "", "the answer given is empty", o.St)
		} else if v.Op == "makeslice" && len(v.Args) == 1 && !isLen(v.Args[0]) && v.Args[0].T != "0" {
			bad("parts", "", "the answer has another length than the list of parts", o.St)
		}
	}
	r.Require("answers"+at, p.pos(f.Pos()), "an answer can be given", acc > 0, "no path answers")
	r.absorb(e)
}

func isPtrTo(t types.Type, f func(types.Type) bool) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && f(pt.Elem())
}

func lastField(t string) string {
	if i := strings.LastIndex(t, "."); i >= 0 {
		return t[i+1:]
	}
	return ""
}

// lit1: the only element of a literal list.
func lit1(v *AVal) *AVal {
	if v.Op == "lit" && len(v.Args) == 1 {
		return v.Args[0]
	}
	return v
}

// clonesOf: v is the slice named t or a copy of it.
func clonesOf(st *State, v *AVal, t string) bool {
	if stripAddr(v.T) == t {
		return true
	}
	switch {
	case v.Op == "append" && len(v.Args) == 2:
		b := v.Args[0]
		empty := nilOrEmpty(b) || strings.HasSuffix(b.T, "[:0]") || b.Op == "makeslice" && b.Args[0].T == "0" || strings.HasSuffix(b.T, "[:0:0]") || st.facts["empty:"+b.T]
		return empty && stripAddr(v.Args[1].T) == t
	case v.Callee() == "bytes.Clone" || v.Callee() == "slices.Clone":
		return stripAddr(v.Args[0].T) == t
	case v.Op == "makeslice":
		return len(v.Args) == 1 && v.Args[0].T == "len("+t+")" && st.facts["copied:"+stripAddr(v.T)+"<-"+t]
	}
	return false
}

// onlyLeaves: apart from functions on IDs, v is made of the given values only.
func onlyLeaves(v *AVal, ls ...*AVal) bool {
	ok := true
	var walk func(x *AVal)
	walk = func(x *AVal) {
		for _, l := range ls {
			if x.T == l.T {
				return
			}
		}
		switch {
		case hashPrims[x.Callee()], x.Op == "append", x.Op == "lit", x.Op == "slice", x.Op == "makeslice":
			for _, a := range x.Args {
				walk(a)
			}
		case x.C != nil, x.Zero, x.Nil == no:
		case x.Op == "len" || x.Op == "+" || x.Op == "cap":
		default:
			ok = false
		}
	}
	walk(v)
	return ok
}

// answerFound: the tree reports a key as present exactly if the leaf on its path carries it,
// with the value of that leaf, and otherwise hands out that leaf.
func answerFound(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/trie" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		rec := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() == f {
					rec = true
				}
			}
		}
		rs := f.Signature.Results()
		if !rec || rs.Len() != 4 || rs.At(0).Type().String() != "bool" || !isBytes(rs.At(1).Type()) || !isBytes(rs.At(2).Type()) || !isErrorType(rs.At(3).Type()) {
			continue
		}
		n++
		key := "found@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "present exactly if the leaf on the path carries the key, with the value of that leaf; otherwise that leaf, or nothing for an empty subtree")
		k := keyParam(f)
		fl := NewFacts()
		e := NewEngine(p, Hooks{
			Inline: func(g *ssa.Function) bool { return (smallFn(g) || p.sole(g)) && g != f },
			Call: func(c *CallCtx) []*Outcome {
				if c.Fn == f || lastName(c.Name) == "loadChildren" || strings.HasSuffix(c.Name, ".bitIsSet") || c.Name == "bytes.Equal" {
					return c.E.Prim(c)
				}
				return nil
			},
			Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) },
		})
		child := func(v *AVal, i string) bool {
			return v.mentions(func(x *AVal) bool {
				return x.Op == "extract" && strings.HasSuffix(x.T, "#"+i) && len(x.Args) == 1 && lastName(x.Args[0].Callee()) == "loadChildren"
			})
		}
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) != 4 || o.Results[3].Nil == yes {
				continue
			}
			st := o.St
			inc, pk, pv := o.Results[0], o.Results[1], o.Results[2]
			if inc.Op == "extract" && len(inc.Args) == 1 && inc.Args[0].Callee() == fname(f) {
				c := inc.Args[0]
				if inc.T != c.T+"#0" || pk.T != c.T+"#1" || pv.T != c.T+"#2" || !st.facts["ok:"+c.T] {
					r.Bad(key, "", "what was found below is not handed on as it is", st.traceString())
				}
				continue
			}
			sameLeaf := func(v *AVal) bool { return child(v, "2") }
			switch {
			case inc.B == yes || inc.B == unk && isEqOf(inc, isT(k), sameLeaf):
				if inc.B == yes && !fl.eqHolds(st, isT(k), sameLeaf) {
					r.Bad(key, "", "a key is reported as present although the leaf was not compared with it", st.traceString())
				}
				if !child(pv, "3") {
					r.Bad(key, "", "the value reported is not that of the leaf", st.traceString())
				}
				if inc.B == unk && !child(pk, "2") {
					r.Bad(key, "", "the leaf that proves absence is not handed out", st.traceString())
				}
			case inc.B == no:
				if nilOrEmpty(pk) {
					if child(pv, "3") || st.hasOK("loadChildren") {
						r.Bad(key, "", "absence is reported below an existing node without the leaf that proves it", st.traceString())
					}
					continue
				}
				if !child(pk, "2") || !child(pv, "3") {
					r.Bad(key, "", "the leaf handed out is not the one on the path of the key", st.traceString())
				}
				if !fl.neqHolds(st, isT(k), sameLeaf) {
					r.Bad(key, "", "a key is reported as absent although the leaf may carry it", st.traceString())
				}
			default:
				r.Bad(key, "", "presence is reported by something else than a comparison with the leaf", st.traceString())
			}
		}
		r.absorb(e)
	}
	r.Floor("functions that look for a leaf", n, 1)
}

func isEqOf(v *AVal, a, b func(*AVal) bool) bool { return eqOf(v, a, b) }

func (s *State) hasOK(sub string) bool {
	for k := range s.facts {
		if strings.HasPrefix(k, "ok:") && strings.Contains(k, sub) {
			return true
		}
	}
	return false
}

// answerHTTP: what the handlers of the HTTP API reply.
func answerHTTP(p *Prog, r *Rep) {
	routes := map[string]string{
		"/getproof":          "GetProof",
		"/getpayloads":       "RetrieveCertificateOrPolicyPayloads",
		"/getcertpayloads":   "RetrieveCertificatePayloads",
		"/getpolicypayloads": "RetrievePolicyPayloads",
	}
	seen := map[string]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(c.Common()), ".HandleFunc") && !strings.HasSuffix(calleeName(c.Common()), "HandleFunc") {
					continue
				}
				as := c.Call.Args
				if len(as) < 2 {
					continue
				}
				pat, ok := as[len(as)-2].(*ssa.Const)
				if !ok || pat.Value == nil {
					continue
				}
				path := strings.Trim(pat.Value.ExactString(), `"`)
				want := routes[path]
				if want == "" {
					r.Note("route %s has no specification", path)
					continue
				}
				seen[path] = true
				answerRoute(p, r, path, want, as[len(as)-1], p.pos(c.Pos()))
			}
		}
	}
	for k := range routes {
		r.Require("route@"+k, "", "the route is served", seen[k], "the route is not registered")
	}
}

func answerRoute(p *Prog, r *Rep, path, want string, h ssa.Value, pos string) {
	key := "reply@" + path
	r.Ob(key, pos, "replies once: with the result of "+want+" for the request, encoded, or with an error and nothing else")
	var fn *ssa.Function
	switch x := stripConv(h).(type) {
	case *ssa.MakeClosure:
		fn, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	}
	if fn == nil || len(fn.Blocks) == 0 {
		r.Bad(key, pos, "the handler is not known", "")
		return
	}
	fl := NewFacts()
	bad := func(ps, msg string, st *State) { r.Bad(key, ps, msg, st.traceString()) }
	var vals = map[string]*AVal{}
	e := NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return pkgOf(g) == "pkg/mapserver" || smallFn(g) },
		Call: func(c *CallCtx) []*Outcome {
			n := lastName(c.Name)
			ps := p.pos(c.Pos())
			switch {
			case c.Name == "net/http.Error" || n == "WriteHeader" && strings.Contains(c.Name, "ResponseWriter"):
				if c.Name == "net/http.Error" {
					if c.St.facts["error"] {
						bad(ps, "a second error is written to the reply", c.St)
					}
					if code := c.Args[len(c.Args)-1]; code.C != nil && code.C.ExactString() < "400" {
						bad(ps, "an error is replied with a status of success", c.St)
					}
					c.St.gen("error")
				} else if code := c.Args[len(c.Args)-1]; code.C == nil || code.C.ExactString() >= "400" {
					c.St.gen("error")
				}
				return []*Outcome{{St: c.St}}
			case c.Name == "encoding/json.(*Encoder).Encode" || n == "Write" && strings.Contains(c.Name, "ResponseWriter"):
				if c.St.facts["error"] {
					bad(ps, "a result is written after the error", c.St)
				}
				if c.St.facts["sent"] {
					bad(ps, "two results are written", c.St)
				}
				c.St.gen("sent")
				v := c.Args[len(c.Args)-1]
				ok := false
				v.walk(func(x *AVal) bool {
					if lastName(x.Callee()) == want && (v.T == x.T+"#0" || n == "Write") && c.St.facts["ok:"+x.T] {
						ok = true
						for _, m := range answerArg(c.St, x, want, vals) {
							bad(ps, m, c.St)
						}
					}
					return true
				})
				if !ok {
					bad(ps, "the reply is not the result of a successful "+want, c.St)
				}
				return c.E.Opaque(c)
			case n == want || strings.HasPrefix(n, "Retrieve") || n == "DecodeString" || n == "Get" && strings.Contains(c.Name, "url.Values") || n == "FormValue" || n == "Query" || c.Name == "encoding/json.Marshal":
				return c.E.Prim(c)
			}
			return nil
		},
		Store: func(fr *Frame, st *State, addr, val *AVal, in *ssa.Store) {
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if s, ok := ia.X.Type().Underlying().(*types.Slice); !ok || !strings.HasSuffix(s.Elem().String(), "common.SHA256Output") {
				return
			}
			if val.mentions(func(x *AVal) bool { return strings.HasSuffix(x.Callee(), "DecodeString") }) {
				vals[addr.T] = val
				st.gen("id:" + addr.T)
			} else {
				bad(p.pos(in.Pos()), "an ID requested is not one decoded from the request", st)
			}
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			fl.record(st, a, truth)
			if b, neg := stripNotVal(a); neg {
				a, truth = b, !truth
			}
			if a.Op == "<" && len(a.Args) == 2 && !truth {
				st.gen("end:" + a.Args[1].T)
			}
			if a.Op == "<" && len(a.Args) == 2 && truth {
				// the ID of the previous round must be there
				if st.facts["round:"+a.Args[1].T] && !st.hasPrefix("id:") {
					bad("", "an ID of the request is left out", st)
				}
				st.gen("round:" + a.Args[1].T)
				st.killPrefix("id:")
			}
		},
	})
	nAns := 0
	for _, o := range e.RunEntry(fn) {
		if o.Panic {
			continue
		}
		if o.St.facts["sent"] {
			nAns++
		} else if !o.St.facts["error"] {
			bad("", "the request gets neither a result nor an error", o.St)
		}
	}
	r.Require("answers@"+path, pos, "a result can be replied", nAns > 0, "no path replies with a result")
	r.absorb(e)
}

// answerArg: the arguments of the lookup are those of the request.
func answerArg(st *State, c *AVal, want string, vals map[string]*AVal) (msgs []string) {
	a := c.Args[len(c.Args)-1]
	query := func(v *AVal, name string) bool {
		return v.mentions(func(x *AVal) bool {
			return (strings.HasSuffix(x.Callee(), ".Get") || strings.HasSuffix(x.Callee(), "FormValue")) && len(x.Args) > 0 && x.Args[len(x.Args)-1].T == `"`+name+`"`
		})
	}
	if want == "GetProof" {
		if !query(a, "domain") {
			msgs = append(msgs, "the proof is not that of the domain requested")
		}
		return
	}
	if a.Op != "makeslice" || len(a.Args) != 1 {
		return // another shape: the elements are not known
	}
	if !query(a.Args[0], "ids") {
		msgs = append(msgs, "the number of IDs looked up does not follow from the request")
	}
	if !st.facts["end:"+a.Args[0].T] {
		msgs = append(msgs, "the lookup is made before all IDs of the request were decoded")
	}
	for t, v := range vals {
		if !strings.HasPrefix(t, stripAddr(a.T)+"[") {
			continue
		}
		idx := strings.TrimSuffix(t[len(stripAddr(a.T))+1:], "]")
		if !query(v, "ids") {
			msgs = append(msgs, "an ID looked up does not come from the request")
		}
		var sl *AVal
		v.walk(func(x *AVal) bool {
			if x.Op == "slice" && len(x.Args) == 3 && sl == nil {
				sl = x
			}
			return sl == nil
		})
		if sl == nil {
			continue
		}
		// both ends are linear in the index: two points decide them
		for i := int64(0); i < 3; i++ {
			lo, ok1 := evalAt(sl.Args[1], idx, i)
			hi, ok2 := evalAt(sl.Args[2], idx, i)
			if ok1 && ok2 && idx != "0" && (lo != 64*i || hi != 64*(i+1)) || ok1 && ok2 && idx == "0" && (lo != 0 || hi != 64) {
				msgs = append(msgs, "an ID looked up is not that of its place in the request")
				break
			}
		}
	}
	return
}

// evalAt evaluates an arithmetic term with the index idx being i.
func evalAt(v *AVal, idx string, i int64) (int64, bool) {
	if v.T == idx && v.C == nil {
		return i, true
	}
	if v.C != nil {
		n, ok := constant.Int64Val(constant.ToInt(v.C))
		return n, ok
	}
	if len(v.Args) != 2 {
		return 0, false
	}
	a, ok1 := evalAt(v.Args[0], idx, i)
	b, ok2 := evalAt(v.Args[1], idx, i)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch v.Op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		return a * b, true
	case "/":
		if b != 0 {
			return a / b, true
		}
	}
	return 0, false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}
