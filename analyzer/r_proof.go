package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Level: "proof",
		Explain: "Path-sensitive acceptance analysis over SSA: on every path on which a proof verifier accepts, the comparisons that justify the acceptance were made and held; plus a data-dependence check that the compared root is computed from the key, the value, the audit path and its length, and that siblings are hashed on the side the key bit says.",
		Run:     runProof})
}

// isEq: the value is an equality test; a and b are what it compares.
func isEq(v *AVal) (a, b *AVal, ok bool) {
	if v == nil || len(v.Args) < 2 {
		return nil, nil, false
	}
	switch {
	case v.Op == "==", v.Callee() == "bytes.Equal", v.Callee() == "reflect.DeepEqual", v.Callee() == "slices.Equal":
		return v.Args[0], v.Args[1], true
	}
	return nil, nil, false
}

const (
	trieP = "pkg/mapserver/trie."
	hashF = "pkg/common.SHA256Hash"
)

var hashPrims = map[string]bool{"pkg/common.SHA256Hash": true, "pkg/common.SHA256Hash32Bytes": true,
	"pkg/common.BytesToIDs": true, "pkg/common.SortIDsAndGlue": true, "pkg/common.IDsToBytes": true, "pkg/common.SortIDsAndHash": true}

func isHash(v *AVal) bool { return strings.HasPrefix(v.Callee(), hashF) }

func runProof(p *Prog, r *Rep, th bool) {
	sl := &slicer{p: p}
	type ver struct {
		name                                 string
		root, path, key, value, pkey, length string // parameter names
		non                                  bool
	}
	par := func(f *ssa.Function, i int) string {
		if i < 0 || i >= len(f.Params) {
			return ""
		}
		return f.Params[i].Name()
	}
	// exported verifiers by signature position
	for _, x := range []struct {
		name                               string
		root, path, key, value, pkey, leng int
		non                                bool
	}{
		{trieP + "VerifyInclusion", 0, 1, 2, 3, -1, -1, false},
		{trieP + "VerifyNonInclusion", 0, 1, 2, 3, 4, -1, true},
		{trieP + "(*Trie).VerifyInclusionC", -1, 4, 2, 3, -1, 5, false},
		{trieP + "(*Trie).VerifyNonInclusionC", -1, 1, 4, 5, 6, 2, true},
	} {
		f := p.fn(x.name)
		if f == nil {
			r.Bad("anchor@"+x.name, "", "exported proof verifier not found", "")
			continue
		}
		v := ver{name: x.name, root: par(f, x.root), path: par(f, x.path), key: par(f, x.key), value: par(f, x.value), pkey: par(f, x.pkey), length: par(f, x.leng), non: x.non}
		if x.root < 0 {
			v.root = f.Params[0].Name() + ".Root"
		}
		lenT := "len(" + v.path + ")"
		if v.length != "" {
			lenT = v.length
		}
		fl := NewFacts()
		incl := strings.Replace(x.name, "VerifyNonInclusion", "VerifyInclusion", 1)
		h := Hooks{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == "pkg/mapserver/trie" && !callsItself(g) || smallFn(g)
		}, Call: func(c *CallCtx) []*Outcome {
			if strings.HasPrefix(c.Name, hashF) || strings.HasPrefix(c.Name, "dyn:") && c.Sig.Variadic() {
				os := c.E.Prim(c)
				for _, o := range os {
					leaf := func(k string) bool { return k != "" && hasLeaf(k)(o.Results[0]) }
					if leaf(v.value) && (leaf(v.key) || leaf(v.pkey)) && leaf(lenT) {
						o.St.gen("leafhash")
					}
				}
				return os
			}
			if hashPrims[c.Name] || v.non && c.Name == incl {
				return c.E.Prim(c)
			}
			return nil
		}, Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			fl.record(st, a, truth)
			// two key bits differ
			if s, t, ok := isEq(a); ok && v.non && !truth && strings.Contains(a.T, v.pkey) && bitOf(s) && bitOf(t) {
				st.gen("differ")
			}
			if v.non && truth && a.Op == "!=" && bitOf(a.Args[0]) {
				st.gen("differ")
			}
		}}
		e := NewEngine(p, h)
		acc := fl.accepts(e.RunEntry(f), f, 0)
		key := "accept@" + x.name
		r.Ob(key, p.pos(f.Pos()), "accepts only after the recomputed root was compared with the given root")
		if v.non {
			r.Ob("other-leaf@"+x.name, p.pos(f.Pos()), "a leaf proves absence only if it is another leaf, proven itself, on the path of the key")
		}
		deps := func(a *AVal, want ...string) string {
			for _, w := range want {
				if !a.mentions(func(y *AVal) bool { return stripAddr(y.T) == w || strings.HasPrefix(y.T, w+"[") }) && !phiDeps(p, sl, a, f, w) {
					return w
				}
			}
			return ""
		}
		for _, o := range acc {
			if v.non {
				// empty tree
				if fl.eqHolds(o.St, isT(v.root), isT("nil")) || fl.eqHolds(o.St, isT("len("+v.root+")"), isT("0")) {
					continue
				}
				empty := fl.eqHolds(o.St, isT("len("+v.pkey+")"), isT("0")) || fl.eqHolds(o.St, isT(v.pkey), isT("nil"))
				if empty {
					miss := "the comparison"
					fl.eqHolds(o.St, isT(v.root), func(a *AVal) bool {
						miss = deps(a, v.path, v.key)
						if miss == "" && !strings.Contains(a.T, "DefaultLeaf") && !strings.Contains(a.T, "φ") {
							miss = "the default leaf"
						}
						return miss == ""
					})
					if miss != "" {
						r.Bad(key, "", "accepts an empty subtree without comparing the root with one computed from "+miss, o.St.traceString())
					}
					continue
				}
				ok := fl.holds(o.St, true, func(a *AVal) bool {
					if a.Callee() == incl {
						return hasLeaf(v.path, v.pkey, v.value)(a) && (x.root < 0 || hasLeaf(v.root)(a))
					}
					return false
				}) || fl.eqHolds(o.St, isT(v.root), func(a *AVal) bool { return deps(a, v.path, v.pkey, v.value) == "" })
				if !ok {
					r.Bad("other-leaf@"+x.name, "", "accepts without verifying that the other leaf is included under the root", o.St.traceString())
				}
				if !fl.neqHolds(o.St, isT(v.key), isT(v.pkey)) {
					r.Bad("other-leaf@"+x.name, "", "accepts the leaf of the key itself as proof of its absence", o.St.traceString())
				}
				if o.St.facts["differ"] {
					r.Bad("other-leaf@"+x.name, "", "accepts although the other leaf is not on the path of the key", o.St.traceString())
				}
				if !exhausted(fl, o.St, lenT) {
					r.Bad("other-leaf@"+x.name, "", "accepts before all "+lenT+" bits of the path of the key were compared with those of the other leaf", o.St.traceString())
				}
				continue
			}
			miss := "the comparison"
			ok := fl.eqHolds(o.St, isT(v.root), func(a *AVal) bool {
				miss = deps(a, v.path, v.key, v.value)
				return miss == ""
			})
			if ok && !o.St.facts["leafhash"] {
				ok, miss = false, "a leaf hash over key, value and height"
			}
			if !ok {
				r.Bad(key, "", "accepts without comparing the root with one computed from "+miss, o.St.traceString())
			}
		}
		r.Require("accepts@"+x.name, p.pos(f.Pos()), "has an accepting path", len(acc) > 0, "no path accepts")
		r.absorb(e)
		siblings(p, r, f)
	}
	proverRule(p, r)
	proofGen(p, r)
	r.Floor("hash-with-sibling steps", r.count("sibling@"), 1)
}

func callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// phiDeps: a loop-carried value inside a depends on the parameter named w of f.
func phiDeps(p *Prog, sl *slicer, a *AVal, f *ssa.Function, w string) bool {
	found := false
	wantLen := strings.HasPrefix(w, "len(")
	w = strings.TrimSuffix(strings.TrimPrefix(w, "len("), ")")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && calleeName(c.Common()) == "bytes.Equal" {
				s := sl.of(f, c.Call.Args...)
				for i := range s.params {
					if !wantLen && f.Params[i].Name() == w {
						found = true
					}
				}
				for i := range s.lens {
					if wantLen && f.Params[i].Name() == w {
						found = true
					}
				}
			}
		}
	}
	return found
}

func bitOf(v *AVal) bool {
	return v.mentions(func(x *AVal) bool { return x.Op == "&" || strings.HasSuffix(x.Callee(), "bitIsSet") })
}

// exhausted: a loop that counts from 0 to exactly n has ended on this path.
func exhausted(fl *Facts, st *State, n string) bool {
	idx := func(v *AVal) bool {
		return v.T == "0" || strings.HasPrefix(v.T, "φ") || strings.HasPrefix(v.T, "(1 + φ")
	}
	ended := fl.holds(st, false, func(v *AVal) bool {
		return v.Op == "<" && len(v.Args) == 2 && v.Args[1].T == n && idx(v.Args[0])
	}) || fl.eqHolds(st, idx, isT(n)) || fl.holds(st, true, func(v *AVal) bool {
		return v.Op == "<=" && len(v.Args) == 2 && v.Args[0].T == n && idx(v.Args[1])
	})
	from0 := func(v *AVal) bool {
		for i := 0; i < 2 && len(v.Args) == 2; i++ {
			if v.Args[i].T == "0" && v.Args[1-i].T == n {
				return true
			}
		}
		return false
	}
	return ended && (fl.holds(st, true, from0) || fl.holds(st, false, from0))
}

// siblings: wherever a sibling of the audit path is hashed with the node of the key's side,
// it stands on the side opposite to the key bit.
func siblings(p *Prog, r *Rep, entry *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || pkgOf(f) != "pkg/mapserver/trie" || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						visit(g)
					}
				}
			}
		}
		siblingsIn(p, r, f)
	}
	visit(entry)
}

var sibDone = map[string]bool{}

func siblingsIn(p *Prog, r *Rep, f *ssa.Function) {
	paths := map[string]bool{}
	for _, pa := range f.Params {
		if pa.Type().String() == "[][]byte" {
			paths[pa.Name()] = true
		}
	}
	if len(paths) == 0 || sibDone[fname(f)] {
		return
	}
	sibDone[fname(f)] = true
	isSib := func(v *AVal) bool {
		return v.mentions(func(x *AVal) bool {
			for n := range paths {
				if strings.HasPrefix(x.T, n+"[") {
					return true
				}
			}
			return strings.HasSuffix(x.T, ".DefaultLeaf")
		})
	}
	isSibDirect := func(v *AVal) bool {
		if strings.HasPrefix(v.Op, "call:") || strings.HasPrefix(v.T, "φ") {
			return false
		}
		return isSib(v)
	}
	key := "sibling@" + fname(f)
	e := NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return g != f && smallFn(g) && !strings.HasSuffix(fname(g), "bitIsSet") },
		Call: func(c *CallCtx) []*Outcome {
			if strings.HasSuffix(c.Name, ".bitIsSet") {
				return c.E.Prim(c)
			}
			if !strings.HasPrefix(c.Name, hashF) && !strings.HasPrefix(c.Name, "dyn:") {
				return nil
			}
			el := c.elems(len(c.Args) - 1)
			if len(el) == 2 {
				s0, s1 := isSibDirect(el[0]), isSibDirect(el[1])
				if s0 != s1 {
					r.Ob(key, p.pos(f.Pos()), "the sibling is hashed on the side opposite to the key bit")
					set, unset := c.St.facts["bit1"], c.St.facts["bit0"]
					if set == unset {
						r.Bad(key, p.pos(c.Pos()), "the side of the sibling does not depend on the key bit", c.St.traceString())
					} else if set != s0 {
						r.Bad(key, p.pos(c.Pos()), "the sibling is hashed on the side of the key bit", c.St.traceString())
					}
				}
			}
			return c.E.Opaque(c)
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			b := -1
			if strings.HasSuffix(a.Callee(), ".bitIsSet") && len(a.Args) > 0 && !strings.Contains(a.Args[0].T, "bitmap") && a.Args[0].T == keyParam(f) {
				b = 0
				if truth {
					b = 1
				}
			} else if a.Op == "==" && bitOf(a) && strings.Contains(a.T, keyParam(f)+"[") {
				b = 1
				if truth {
					b = 0
				}
			}
			if b >= 0 {
				st.kill("bit0")
				st.kill("bit1")
				st.gen(fmt.Sprintf("bit%d", b))
			}
		}})
	e.RunEntry(f)
	r.absorb(e)
}

// keyParam: the []byte parameter whose bits select the side: the one given to bitIsSet first.
func keyParam(f *ssa.Function) string {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && strings.HasSuffix(calleeName(c.Common()), ".bitIsSet") {
				if pa, ok := c.Call.Args[0].(*ssa.Parameter); ok {
					return pa.Name()
				}
			}
		}
	}
	for _, pa := range f.Params {
		if pa.Type().String() == "[]byte" && strings.Contains(strings.ToLower(pa.Name()), "key") {
			return pa.Name()
		}
	}
	return "key"
}

func proverRule(p *Prog, r *Rep) {
	const name = "pkg/mapserver/prover.VerifyProofByDomain"
	f := p.fn(name)
	if f == nil {
		r.Bad("anchor@"+name, "", "exported verifier not found", "")
		return
	}
	fl := NewFacts()
	e := NewEngine(p, Hooks{Call: func(c *CallCtx) []*Outcome {
		if hashPrims[c.Name] || c.Name == trieP+"VerifyInclusion" || c.Name == trieP+"VerifyNonInclusion" {
			return c.E.Prim(c)
		}
		return nil
	}, Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) }})
	rsp := f.Params[0].Name()
	de, poi := rsp+".DomainEntry.", rsp+".PoI."
	obs := map[string]string{
		"domain@": "accepts only an entry whose ID is the hash of its domain name",
		"ids@":    "accepts presence only if the IDs of the entry hash to its value",
		"poi@":    "accepts presence only with a verified inclusion of the entry's value, reported as presence",
		"poa@":    "accepts absence only with a verified non-inclusion of the entry's domain, reported as absence",
	}
	for k, d := range obs {
		r.Ob(k+name, p.pos(f.Pos()), d)
	}
	nP, nA := 0, 0
	for _, o := range fl.accepts(e.RunEntry(f), f, 1) {
		if len(o.Results) > 2 && o.Results[2].Nil == yes {
			continue
		}
		tr := o.St.traceString()
		if !fl.eqHolds(o.St, isT(de+"DomainID"), func(a *AVal) bool { return isHash(a) && hasLeaf(de+"DomainName")(a) }) {
			r.Bad("domain@"+name, "", "accepts without comparing the domain ID with the hash of the domain name", tr)
		}
		in := fl.holds(o.St, true, func(a *AVal) bool {
			return a.Callee() == trieP+"VerifyInclusion" && len(a.Args) == 4 && isT(poi+"Root")(a.Args[0]) && isT(poi+"Proof")(a.Args[1]) &&
				isT(de+"DomainID")(a.Args[2]) && (isT(de+"DomainValue")(a.Args[3]) || isT(poi+"ProofValue")(a.Args[3]) && fl.eqHolds(o.St, isT(de+"DomainValue"), isT(poi+"ProofValue")))
		})
		out := fl.holds(o.St, true, func(a *AVal) bool {
			return a.Callee() == trieP+"VerifyNonInclusion" && len(a.Args) == 5 && isT(poi+"Root")(a.Args[0]) && isT(poi+"Proof")(a.Args[1]) &&
				isT(de+"DomainID")(a.Args[2]) && isT(poi+"ProofValue")(a.Args[3]) && isT(poi+"ProofKey")(a.Args[4])
		})
		switch kind := o.Results[0]; {
		case kind.C != nil && kind.C.String() == "1":
			nP++
			if !in {
				r.Bad("poi@"+name, "", "presence is accepted without a verified inclusion of the value of the entry", tr)
			}
			if !fl.eqHolds(o.St, isT(de+"DomainValue"), func(a *AVal) bool { return isHash(a) && hasLeaf(de+"CertIDs", de+"PolicyIDs")(a) }) {
				r.Bad("ids@"+name, "", "presence is accepted without comparing the hash of the IDs with the value", tr)
			}
		case kind.C != nil && kind.C.String() == "0":
			nA++
			if !out {
				r.Bad("poa@"+name, "", "absence is accepted without a verified non-inclusion of the domain", tr)
			}
		default:
			// the type of the response is returned: it must be what was verified
			if !(in || out) {
				r.Bad("poi@"+name, "", "accepts without a verified proof", tr)
			} else if in && !fl.eqHolds(o.St, isT(poi+"ProofType"), isT("1")) || out && !fl.eqHolds(o.St, isT(poi+"ProofType"), isT("0")) && fl.eqHolds(o.St, isT(poi+"ProofType"), isT("1")) {
				r.Bad("poi@"+name, "", "reports another type of proof than the one verified", tr)
			}
			nP++
			nA++
		}
	}
	r.Require("accepts@"+name, p.pos(f.Pos()), "presence and absence can both be accepted", nP > 0 && nA > 0, "one kind of proof is never accepted")
	r.absorb(e)
}

// proofGen: the audit path holds the sibling of the child that was followed.
func proofGen(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/trie" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		// recursive, reads the children of a node and appends to a path it is given
		rec, loads := false, false
		pathPar := ""
		for _, pa := range f.Params {
			if pa.Type().String() == "*[][]byte" {
				pathPar = pa.Name()
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					g := c.Common().StaticCallee()
					rec = rec || g == f
					loads = loads || g != nil && g.Name() == "loadChildren"
				}
			}
		}
		if !rec || !loads || pathPar == "" {
			continue
		}
		n++
		key := "auditpath@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "the audit path holds the sibling of the child followed")
		side := func(v *AVal) string {
			l := v.mentions(func(x *AVal) bool {
				return x.Op == "extract" && strings.Contains(x.T, "loadChildren") && strings.HasSuffix(x.T, "#2")
			})
			rr := v.mentions(func(x *AVal) bool {
				return x.Op == "extract" && strings.Contains(x.T, "loadChildren") && strings.HasSuffix(x.T, "#3")
			})
			switch {
			case l && !rr:
				return "left"
			case rr && !l:
				return "right"
			}
			return ""
		}
		e := NewEngine(p, Hooks{
			Call: func(c *CallCtx) []*Outcome {
				if strings.HasSuffix(c.Name, ".bitIsSet") {
					return c.E.Prim(c)
				}
				if c.Fn == f {
					for _, a := range c.Args {
						if s := side(a); s != "" {
							c.St.gen("followed:" + s)
							bit := c.St.facts["bit1"]
							if !c.St.facts["bit1"] && !c.St.facts["bit0"] || bit != (s == "right") {
								r.Bad(key, p.pos(c.Pos()), "the child followed is not the one the key bit says", c.St.traceString())
							}
							break
						}
					}
					return c.E.Opaque(c)
				}
				if c.Name == "builtin.append" {
					for _, a := range c.Args[1:] {
						for _, x := range append(c.elems(1), a) {
							if s := side(x); s != "" && c.St.facts["followed:"+s] {
								r.Bad(key, p.pos(c.Pos()), "the child followed is put in the audit path in place of its sibling", c.St.traceString())
							} else if s != "" {
								c.St.gen("appended")
							}
							if strings.HasSuffix(x.T, ".DefaultLeaf") {
								c.St.gen("appended")
							}
						}
					}
				}
				return nil
			},
			Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
				if strings.HasSuffix(a.Callee(), ".bitIsSet") {
					st.kill("bit0")
					st.kill("bit1")
					if truth {
						st.gen("bit1")
					} else {
						st.gen("bit0")
					}
				}
			},
		})
		for _, o := range e.RunEntry(f) {
			if o.Panic || len(o.Results) == 0 || o.Results[len(o.Results)-1].Nil == yes {
				continue
			}
			if (o.St.facts["followed:left"] || o.St.facts["followed:right"]) && !o.St.facts["appended"] {
				r.Bad(key, "", "a level of the tree is missing in the audit path", o.St.traceString())
			}
		}
		r.absorb(e)
	}
	r.Floor("audit path builders", n, 1)
}
