package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Level: "proof",
		Explain: "Path-sensitive simulation of the update of one node of the Merkle tree, in each of the positions a node can have (bottom, root of a stored batch, within a batch): what the reply says, what the batch holds and what is recorded for writing or removal agree on every path; the recursion into the children is by induction. Plus the commit and the recursion's callers.",
		Assumptions: []string{
			"nodes of different subtrees have different hashes (they contain different keys)",
			"within a batch, index arithmetic is decided at one index (3) for all",
		},
		Run: runTrie})
}

// nodeOf strips what turns a hash into a node reference or a map key: flags, slicing, copying.
func nodeOf(v *AVal) *AVal {
	for i := 0; i < 20 && v != nil; i++ {
		switch {
		case (v.Op == "append" || v.Op == "slice" || v.Op == "copyof" || v.Op == "convert" || v.Op == "deref" || v.Op == "load") && len(v.Args) >= 1:
			v = v.Args[0]
		default:
			return v
		}
	}
	return v
}

func trieHash(v *AVal) *AVal {
	n := nodeOf(v)
	if n != nil && (strings.HasPrefix(n.Callee(), "dyn:") || isHash(n)) {
		return n
	}
	return nil
}

// hashArgs: the hashed byte strings (the receiver of a hash stored in a field left out).
func hashArgs(h *AVal) []*AVal {
	as := h.Args
	if len(as) > 0 && strings.HasPrefix(h.Callee(), "dyn:") && strings.HasSuffix(as[0].T, strings.TrimPrefix(h.Callee(), "dyn:")) {
		as = as[1:]
	}
	return as
}

type trieCase struct {
	name    string
	stored  bool // the node is the root of a stored batch
	bottom  bool
	iB      int64
	batch   string // the term of the batch the node is in, if not stored
	fixed   map[string]bool
	params  map[string]*AVal
	checked int
}

func num(i int64) *AVal { return fromConst(constant.MakeInt64(i)) }

func runTrie(p *Prog, r *Rep, th bool) {
	fns := trieFns(p)
	up := fns["update"]
	if up == nil || len(up.Params) != 9 {
		r.Bad("anchor@update", "", "the update of a node of the tree was not found", "")
		return
	}
	n := func(i int) string { return up.Params[i].Name() }
	height := n(7)
	fix := func(in4, below bool) map[string]bool {
		m := map[string]bool{}
		for i, x := range []string{height, "(" + height + " % 4)", "((" + height + " - 1) % 4)", "(" + height + " & 3)", "((" + height + " - 1) & 3)"} {
			v := i%2 == 1 && in4 || i != 0 && i%2 == 0 && below
			m["("+x+" == 0)"], m["(0 == "+x+")"] = v, v
			m["(0 < "+x+")"] = !v
		}
		return m
	}
	for _, c := range []*trieCase{
		{name: "stored", stored: true, fixed: fix(true, false)},
		{name: "within", iB: 3, batch: n(5), fixed: fix(false, false), params: map[string]*AVal{n(6): num(3)}},
		{name: "above", iB: 7, batch: n(5), fixed: fix(false, true), params: map[string]*AVal{n(6): num(7)}},
		{name: "bottom", stored: true, bottom: true, params: map[string]*AVal{height: num(0)}},
	} {
		(&trieRun{p: p, r: r, up: up, c: c}).run()
	}
	trieSplit(p, r, fns["split"])
	trieMerge(p, r, fns["merge"])
	trieCommit(p, r)
	trieTop(p, r, up)
}

type trieRun struct {
	p      *Prog
	r      *Rep
	up     *ssa.Function
	c      *trieCase
	fl     *Facts
	height string
	batch  string
	vals   map[string]*AVal
	kids   map[string]*AVal
}

func (t *trieRun) bad(k, pos, msg string, st *State) {
	t.r.Bad(k+":"+t.c.name, pos, msg+" (node position: "+t.c.name+")", st.traceString())
}

func (t *trieRun) side(k int64) string {
	return fmt.Sprintf("%s[%d]", t.batch, 2*t.c.iB+k)
}

// pairOK: keys and values are the same part of the keys and values of the update.
func (t *trieRun) pairOK(k, v *AVal) bool {
	return pairT(k.T, v.T, t.up.Params[3].Name(), t.up.Params[4].Name())
}

// the terms of the helpers of the update
const splitN, mergeN, loadN = "split(", "merge(", "load("

var trieShort map[string]string

// trieFns finds the functions of the tree by their signatures.
func trieFns(p *Prog) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	trieShort = map[string]string{}
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/trie" || f.Parent() != nil || f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), ".Trie") {
			continue
		}
		for _, x := range []struct{ name, sig string }{
			{"update", "func(context.Context,[]byte,[][]byte,[][]byte,[][]byte,int,int,chan<- mResult)"},
			{"split", "func([][]byte,int)([][]byte,[][]byte)"},
			{"merge", "func([][]byte,[][]byte,[]byte,[]byte)([][]byte,[][]byte)"},
			{"load", "func(context.Context,[]byte,int)([][]byte,error)"},
		} {
			if plainSig(f.Signature) == x.sig {
				out[x.name] = f
				if x.name != "update" {
					trieShort[fname(f)] = x.name + "("
				}
			}
		}
	}
	return out
}

// plainSig: the types of a signature without the names.
func plainSig(s *types.Signature) string {
	ts := func(t *types.Tuple) string {
		var xs []string
		for i := 0; i < t.Len(); i++ {
			x := t.At(i).Type().String()
			if j := strings.LastIndex(x, "trie."); j >= 0 {
				x = x[:strings.LastIndex(x[:j], " ")+1] + x[j+len("trie."):]
			}
			xs = append(xs, strings.Trim(x, "()"))
		}
		return strings.Join(xs, ",")
	}
	out := "func(" + ts(s.Params()) + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		out += ts(s.Results())
	default:
		out += "(" + ts(s.Results()) + ")"
	}
	return out
}

func pairT(k, v, keys, values string) bool {
	if k == keys && v == values {
		return true
	}
	if strings.HasPrefix(k, mergeN) && strings.HasSuffix(k, "#0") && v == k[:len(k)-1]+"1" {
		return true
	}
	if strings.HasPrefix(k, splitN) && len(k) > 2 {
		first := k[:len(k)-1] + "0"
		base := splitArg(k)
		switch k[len(k)-1] {
		case '0':
			suf := "[:len(" + first + ")]"
			return strings.HasSuffix(v, suf) && pairT(base, strings.TrimSuffix(v, suf), keys, values)
		case '1':
			suf := "[len(" + first + "):]"
			return strings.HasSuffix(v, suf) && pairT(base, strings.TrimSuffix(v, suf), keys, values)
		}
	}
	return false
}

// splitArg: the keys that a split term splits.
func splitArg(k string) string {
	depth := 0
	for i := len(splitN); i < len(k); i++ {
		switch k[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				return strings.TrimSpace(k[len(splitN):i])
			}
		}
	}
	return ""
}

func (t *trieRun) isLen0(st *State, term string) bool {
	if term == "nil" {
		return true
	}
	return t.fl.eqHolds(st, isT("len("+term+")"), isT("0")) || t.fl.eqHolds(st, isT(term), isT("nil")) ||
		t.fl.holds(st, false, func(v *AVal) bool { return v.T == "(0 < len("+term+"))" })
}

func (t *trieRun) isLenPos(st *State, term string) bool {
	return t.fl.neqHolds(st, isT("len("+term+")"), isT("0")) ||
		t.fl.holds(st, true, func(v *AVal) bool { return v.T == "(0 < len("+term+"))" })
}

func (t *trieRun) elem(e *Engine, st *State, loc string) *AVal {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	if strings.HasPrefix(loc, "@") { // allocated here, not written
		root := loc[:strings.LastIndex(loc, "[")]
		if v, ok := st.mem[root]; ok && v.Op == "havoc" {
			return v
		}
		return mk("const", "nil")
	}
	return mk("sel", loc)
}

func (t *trieRun) run() {
	p, r, c := t.p, t.r, t.c
	t.fl, t.height = NewFacts(), t.up.Params[7].Name()
	if c.bottom {
		t.height = "0"
	}
	t.vals, t.kids = map[string]*AVal{}, map[string]*AVal{}
	pos := p.pos(t.up.Pos())
	for k, d := range map[string]string{
		"recorded":  "the batch of a node that stays in the tree is recorded for writing, under the hash that is replied, and not marked for removal",
		"content":   "the batch holds what the replied hash covers",
		"hash":      "the replied hash covers the updated children, or the key, value and height of the only leaf",
		"children":  "the update descends into both children with their own nodes, keys and values",
		"removed":   "only the replaced node is marked for removal or forgotten",
		"reply":     "every path replies exactly once, after the replies of the children it started",
		"emptied":   "a subtree is reported empty only if its last key was deleted",
		"canonical": "a leaf that is left alone in a subtree after a deletion moves up, so that the tree does not depend on its history",
		"collapsed": "a shortcut is cleared from the position that it leaves",
	} {
		if c.bottom && (k == "children" || k == "collapsed" || k == "canonical") {
			continue
		}
		r.Ob(k+":"+c.name, pos, d)
	}
	chName := t.up.Params[8].Name()
	t.batch = c.batch
	touches := trieTouch(p, t.up)
	var eng *Engine
	kid := func(cc *CallCtx) bool { return cc.Fn == t.up }
	h := Hooks{
		Inline: func(g *ssa.Function) bool { return pkgOf(g) == "pkg/mapserver/trie" && g != t.up && touches(g) },
		Call: func(cc *CallCtx) []*Outcome {
			switch {
			case strings.HasPrefix(cc.Name, "dyn:") && cc.Sig.Variadic(), strings.HasPrefix(cc.Name, hashF):
				os := cc.E.Prim(cc)
				for _, o := range os {
					t.vals[o.Results[0].T] = o.Results[0]
				}
				return os
			case trieShort[cc.Name] != "":
				short := trieShort[cc.Name]
				if short == mergeN {
					t.mergeCall(cc)
				}
				if short == splitN && len(cc.Args) == 3 {
					if cc.Args[2].T != "("+cc.Args[0].T+".TrieHeight - "+t.height+")" {
						t.bad("children", p.pos(cc.Pos()), "the keys are not split at the bit of the height of the node: "+cc.Args[2].T, cc.St)
					}
				}
				root := ""
				c2 := *cc
				c2.Name = strings.TrimSuffix(short, "(")
				c2.Args = cc.Args[1:]
				if short == loadN && len(cc.Args) == 4 {
					root = cc.Args[2].T
					c2.Args = cc.Args[2:]
				}
				os := cc.E.Prim(&c2)
				if short != loadN {
					for _, o := range os {
						for i, x := range o.Results {
							o.Results[i] = mk("part", x.T)
						}
					}
				}
				// the batch of this node
				if root == t.up.Params[2].Name() {
					for _, o := range os {
						o.St.gen("batch:" + o.Results[0].T)
					}
				}
				return os
			case cc.Name == "builtin.delete" && len(cc.Args) == 2:
				t.deleted(cc)
			case kid(cc):
				t.child(cc)
				return []*Outcome{{St: cc.St.clone()}}
			}
			return nil
		},
		MapUpd: func(fr *Frame, st *State, m, k, v *AVal, in *ssa.MapUpdate) { t.mapUpd(st, m, k, v, in) },
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			if trieCond(a) {
				t.fl.record(st, a, truth)
			}
		},
		Go: func(cc *CallCtx) bool {
			if cc.Fn == nil || !isRepoFn(cc.Fn) {
				return false
			}
			outs := eng.run(cc.Fn, cc.Args, cc.Bind, cc.St, cc.Fr, cc.In)
			if len(outs) == 0 {
				return true
			}
			// what every path of the goroutine does
			for f := range outs[0].St.facts {
				if !strings.HasPrefix(f, "kid:") {
					continue
				}
				all := true
				for _, o := range outs[1:] {
					all = all && o.St.has(f)
				}
				if all {
					t.started(cc.St, f[4:5], f)
				}
			}
			return true
		},
		Recv: func(fr *Frame, st *State, ch *AVal, ps token.Pos) {
			if strings.HasPrefix(ch.T, "make#") {
				if !st.has("kid:L:"+ch.T) && !st.has("kid:R:"+ch.T) {
					t.bad("reply", p.pos(ps), "waits for a reply that nobody was asked for", st)
				}
				st.gen("got:" + ch.T)
				// how the keys were split does not matter any more
				for f := range st.facts {
					if (strings.HasPrefix(f, "T:") || strings.HasPrefix(f, "F:")) && strings.Contains(f, splitN) {
						st.kill(f)
					}
				}
			}
		},
		Send: func(fr *Frame, st *State, ch, v *AVal, ps token.Pos) {
			if ch.T == chName {
				t.reply(eng, st, v, p.pos(ps))
			}
		},
		Return: func(fr *Frame, st *State, results []*AVal, ps token.Pos) {
			if fr.Parent == nil && !st.has("sent") {
				t.bad("reply", p.pos(ps), "returns without a reply", st)
			}
		},
	}
	e := NewEngine(p, h)
	eng = e
	e.Fixed, e.Params = c.fixed, c.params
	debugSteps = map[string]int{}
	e.JoinCalls = true
	e.Known = func(st *State, x string) tri {
		switch {
		case st.has("T:" + x):
			return yes
		case st.has("F:" + x):
			return no
		}
		return t.infer(st, x)
	}
	e.MaxSteps = 1000001
	e.RunEntry(t.up)
	if e.over {
		r.Bad("budget:"+c.name, pos, "the paths of the update could not be enumerated", "")
	}
	r.Floor("replies checked ("+c.name+")", c.checked, 3)
	r.absorb(e)
}

// trieCond: the condition is about the emptiness of nodes or keys, a deletion, or the equality
// of two nodes.
func trieCond(a *AVal) bool {
	return strings.Contains(a.T, "DefaultLeaf") || strings.HasSuffix(a.T, ".deleted") || strings.Contains(a.T, "[32]") || strings.Contains(a.T, "len(") && !strings.Contains(a.T, "4096") ||
		strings.Contains(a.T, "copy(") && !strings.Contains(a.T, "zero")
}

// infer: what follows from the conditions of the path and from what the replies of the children
// and the parts of the keys mean.
func (t *trieRun) infer(st *State, x string) tri {
	if strings.HasSuffix(x, ".deleted") && strings.HasPrefix(x, "recv#") {
		// a child that had keys and is empty now was deleted
		if t.isLen0(st, strings.TrimSuffix(x, ".deleted")+".update") {
			return yes
		}
		return unk
	}
	of, pos := "", true
	switch {
	case strings.HasPrefix(x, "(0 < len(") && strings.HasSuffix(x, "))"):
		of = x[len("(0 < len(") : len(x)-2]
	case strings.HasPrefix(x, "(0 == len(") && strings.HasSuffix(x, "))"):
		of, pos = x[len("(0 == len("):len(x)-2], false
	default:
		return unk
	}
	is := func(b bool) tri {
		if b {
			return yes
		}
		return no
	}
	switch {
	case t.isLenPos(st, of):
		return is(pos)
	case t.isLen0(st, of):
		return is(!pos)
	case strings.HasPrefix(of, "recv#") && strings.HasSuffix(of, ".update"):
		if st.has("F:" + strings.TrimSuffix(of, ".update") + ".deleted") {
			return is(pos)
		}
	case strings.HasPrefix(of, splitN) && len(of) > 2:
		// one of the parts of some keys has keys
		n := len(of) - 1
		if t.isLen0(st, of[:n]+string('0'+'1'-of[n])) && t.isLenPos(st, splitArg(of)) {
			return is(pos)
		}
	}
	return unk
}

// mergeCall: the shortcut of the node joins the keys.
func (t *trieRun) mergeCall(cc *CallCtx) {
	if len(cc.Args) != 5 {
		return
	}
	a := cc.Args
	t.setBatch(cc.St)
	if !t.pairOK(a[1], a[2]) || stripAddr(nodeOf(a[3]).T) != t.side(1) || stripAddr(nodeOf(a[4]).T) != t.side(2) {
		t.bad("children", t.p.pos(cc.Pos()), "the key and the value of the shortcut do not join the keys and the values of the update: "+a[3].T+", "+a[4].T, cc.St)
	}
}

func (t *trieRun) setBatch(st *State) {
	if t.c.batch != "" {
		return
	}
	for f := range st.facts {
		if strings.HasPrefix(f, "batch:") {
			t.batch = f[6:]
			return
		}
	}
	t.batch = ""
}

func (t *trieRun) child(cc *CallCtx) {
	p, st := t.p, cc.St
	pos := p.pos(cc.Pos())
	a := cc.Args
	if len(a) != 9 {
		return
	}
	keys, values := a[3], a[4]
	t.setBatch(st)
	fresh := false
	if t.c.batch == "" && t.batch == "" {
		t.batch, fresh = a[5].T, true
	}
	s := ""
	switch a[6].T {
	case itoa(int(2*t.c.iB + 1)):
		s = "L"
	case itoa(int(2*t.c.iB + 2)):
		s = "R"
	default:
		t.bad("children", pos, "the index of the child is "+a[6].T, st)
		return
	}
	k := map[string]int64{"L": 1, "R": 2}[s]
	if a[5].T != t.batch {
		t.bad("children", pos, "the child is updated in another batch: "+a[5].T, st)
	}
	if a[7].T != "("+t.height+" - 1)" {
		t.bad("children", pos, "the child is updated at height "+a[7].T, st)
	}
	merged := strings.Contains(keys.T, mergeN)
	switch {
	case a[2].T == t.side(k) && !merged:
	case (a[2].T == "nil" || a[2].Zero) && (merged || fresh):
	default:
		t.bad("children", pos, "the update of the "+map[string]string{"L": "left", "R": "right"}[s]+" child starts from "+a[2].T, st)
	}
	if merged {
		for i := int64(1); i <= 2; i++ {
			if v := t.elem(cc.E, st, t.side(i)); v.T != "nil" {
				t.bad("collapsed", pos, "the key and the value of the shortcut stay in the batch while its subtree is updated", st)
			}
		}
	}
	if !t.pairOK(keys, values) {
		t.bad("children", pos, "the values do not go with the keys: "+keys.T+" and "+values.T, st)
	}
	// which keys
	want := map[string]string{"L": "#0", "R": "#1"}[s]
	other := map[string]string{"L": "#1", "R": "#0"}[s]
	ok, base := false, keys.T
	if strings.HasPrefix(base, splitN) && strings.HasSuffix(base, want) {
		ok = t.isLenPos(st, base)
	} else {
		// all keys are on this side
		t.fl.holds(st, true, func(v *AVal) bool { return t.sideEmpty(st, v, base, other, &ok) })
		t.fl.holds(st, false, func(v *AVal) bool { return t.sideEmpty(st, v, base, other, &ok) })
	}
	if !ok {
		t.bad("children", pos, "the keys given to the child may not be the ones on its side: "+keys.T, st)
	}
	ch := a[8].T
	for _, x := range []string{"L", "R"} {
		if st.has("kid:" + x + ":" + ch) {
			t.bad("reply", pos, "two updates reply on the same channel", st)
		}
	}
	if !strings.HasPrefix(ch, "make#") {
		t.bad("reply", pos, "the update of the child replies on "+ch, st)
	}
	for f := range st.facts {
		if strings.HasPrefix(f, "kid:"+s+":") {
			t.bad("children", pos, "the same child is updated twice", st)
		}
	}
	t.started(st, s, "kid:"+s+":"+ch)
}

// started: the child is updated; what that leaves in the batch.
func (t *trieRun) started(st *State, s, fact string) {
	st.gen(fact)
	k := map[string]int64{"L": 1, "R": 2}[s]
	for i := int64(1); i <= 2; i++ {
		loc := fmt.Sprintf("%s[%d]", t.batch, 2*(2*t.c.iB+k)+i)
		st.mem[loc] = mk("kid", fmt.Sprintf("kid%s.%d", s, i))
	}
}

// sideEmpty: the condition says that the other part of the split is empty.
func (t *trieRun) sideEmpty(st *State, v *AVal, base, other string, ok *bool) bool {
	v.walk(func(x *AVal) bool {
		if strings.HasPrefix(x.T, splitN) && strings.HasSuffix(x.T, other) && splitArg(x.T) == base && t.isLen0(st, x.T) {
			*ok = true
		}
		return true
	})
	return *ok
}

func trieField(m *AVal, name string) bool { return strings.HasSuffix(m.T, "."+name) }

func (t *trieRun) mapUpd(st *State, m, k, v *AVal, in *ssa.MapUpdate) {
	n := nodeOf(k)
	switch {
	case trieField(m, "updatedNodes"):
		t.vals[n.T] = n
		st.killPrefix("rec:" + n.T + "|")
		st.gen("rec:" + n.T + "|" + v.T)
		st.kill("gone:" + n.T)
	case trieField(m, "removedNode"):
		t.mayRemove(st, n, t.p.pos(in.Pos()), false)
		for f := range st.facts {
			if strings.HasPrefix(f, "unrem:") && !t.differ(st, f[6:], n.T) {
				st.kill(f)
			}
		}
	}
}

// differ: two nodes are known to be different.
func (t *trieRun) differ(st *State, a, b string) bool {
	is := func(x string) func(*AVal) bool {
		return func(v *AVal) bool { n := nodeOf(v); return n != nil && n.T == x && wide(v) }
	}
	return a != b && t.fl.neqHolds(st, is(a), is(b))
}

// wide: the compared value has the width of a hash, so that values with and without a flag
// do not differ just because of it.
func wide(v *AVal) bool {
	return v.Op == "copyof" || strings.HasSuffix(v.T, "[:32]") || strings.HasPrefix(v.T, "copy(") || v.Callee() != ""
}

func (t *trieRun) mayRemove(st *State, n *AVal, pos string, moved bool) {
	if n.T == t.up.Params[2].Name() {
		return
	}
	if moved && (strings.HasPrefix(n.T, "recv#") && strings.HasSuffix(n.T, ".update") || t.batch != "" && (n.T == t.side(1) || n.T == t.side(2))) {
		st.gen("moved:" + n.T)
		return
	}
	t.bad("removed", pos, "removes "+n.T+", which is not the node that is replaced", st)
}

func (t *trieRun) deleted(cc *CallCtx) {
	st, m, n := cc.St, cc.Args[0], nodeOf(cc.Args[1])
	switch {
	case trieField(m, "removedNode"):
		st.gen("unrem:" + n.T)
	case trieField(m, "updatedNodes"):
		t.setBatch(st)
		t.mayRemove(st, n, t.p.pos(cc.Pos()), true)
		for f := range st.facts {
			if strings.HasPrefix(f, "rec:") {
				x := f[4:strings.LastIndex(f, "|")]
				if !t.differ(st, x, n.T) {
					st.kill(f)
					st.gen("lost:" + x)
				}
			}
		}
	}
}

func (t *trieRun) reply(e *Engine, st *State, v *AVal, pos string) {
	if st.has("sent") {
		t.bad("reply", pos, "replies twice", st)
		return
	}
	st.gen("sent")
	t.c.checked++
	for f := range st.facts {
		if strings.HasPrefix(f, "kid:") && !st.has("got:"+f[6:]) {
			t.bad("reply", pos, "replies before the reply of a child", st)
		}
	}
	keys := t.up.Params[3].Name()
	u, d, er := v.F[".update"], v.F[".deleted"], v.F[".err"]
	if u == nil {
		u = mk("const", "nil")
	}
	if er != nil && er.T != "nil" && er.Nil != no {
		return // a failed update
	}
	if u.T == "nil" {
		t.emptied(e, st, d, keys, pos)
		return
	}
	h := trieHash(u)
	if h == nil {
		t.bad("hash", pos, "replies "+u.T+", which is not a hash", st)
		return
	}
	t.setBatch(st)
	for f := range st.facts {
		if strings.HasPrefix(f, "rec:"+h.T+"|") {
			t.batch = f[len("rec:"+h.T+"|"):]
		}
	}
	if t.c.stored {
		if !st.hasPrefix("rec:" + h.T + "|") {
			why := "is not recorded for writing"
			if st.has("lost:" + h.T) {
				why = "is forgotten again if it is the node that was replaced"
			}
			t.bad("recorded", pos, "the node with the replied hash "+why, st)
			return
		}
		if !st.has("unrem:" + h.T) {
			t.bad("recorded", pos, "the node with the replied hash may still be marked for removal", st)
		}
	}
	as := hashArgs(h)
	flag := t.flagOf(st, u)
	switch len(as) {
	case 2:
		t.interior(e, st, as, flag, pos)
	case 3:
		t.leaf(e, st, as, flag, d, pos)
	default:
		t.bad("hash", pos, "replies a hash of "+h.T, st)
	}
}

// flagOf: the byte appended to the hash.
func (t *trieRun) flagOf(st *State, u *AVal) string {
	if u.Op == "append" && len(u.Args) == 2 {
		if v, ok := st.mem[u.Args[1].T+"[0]"]; ok {
			return v.T
		}
		return u.Args[1].T
	}
	return "?"
}

func (t *trieRun) emptied(e *Engine, st *State, d *AVal, keys, pos string) {
	if t.isLen0(st, keys) {
		return // nothing to do
	}
	if d == nil || d.T != "true" {
		t.bad("emptied", pos, "an empty subtree is replied without saying that something was deleted, so that its sibling does not move up", st)
	}
	t.setBatch(st)
	isDef := func(v *AVal) bool { return strings.Contains(v.T, "DefaultLeaf") }
	single, all := false, false
	last := func(v *AVal) bool {
		b := strings.TrimSuffix(v.T, "[0]")
		if b == v.T {
			return false
		}
		k := keys
		if strings.HasPrefix(b, mergeN) {
			k = b[:len(b)-1] + "0"
		} else if b != t.up.Params[4].Name() {
			return false
		}
		return t.c.bottom || t.fl.eqHolds(st, isT("len("+k+")"), isT("1"))
	}
	if t.fl.eqHolds(st, isDef, last) {
		single = true
	}
	for _, truth := range []bool{true, false} {
		t.fl.holds(st, truth, func(v *AVal) bool {
			v.walk(func(x *AVal) bool {
				if strings.HasPrefix(x.T, mergeN) && strings.HasSuffix(x.T, "#0") && t.isLen0(st, x.T) {
					all = true
				}
				return true
			})
			return false
		})
	}
	l, r := t.childEmpty(st, 1), t.childEmpty(st, 2)
	kids := st.hasPrefix("kid:")
	if !(single && !kids || all && !kids || l && r) {
		t.bad("emptied", pos, "a subtree is replied as empty although keys may be left in it", st)
		return
	}
	// the slots of the children do not keep the deleted nodes
	if !t.c.stored {
		for i := int64(1); i <= 2; i++ {
			v := t.elem(e, st, t.side(i))
			if v.T != "nil" && !t.isLen0(st, v.T) {
				t.bad("collapsed", pos, "the batch keeps a child of a deleted subtree", st)
			}
		}
	}
}

// newChild: the term of the child after the update.
func (t *trieRun) newChild(st *State, k int64) (string, bool) {
	s := map[int64]string{1: "L", 2: "R"}[k]
	for f := range st.facts {
		if strings.HasPrefix(f, "kid:"+s+":") {
			return "(" + f[6:] + ").update", true
		}
	}
	return "", false
}

func (t *trieRun) isChild(st *State, v *AVal, k int64) bool {
	n := nodeOf(v)
	if c, ok := t.newChild(st, k); ok {
		return strings.HasPrefix(n.T, "recv#") && strings.HasSuffix(n.T, c)
	}
	return n.T == t.side(k)
}

func (t *trieRun) childEmpty(st *State, k int64) bool {
	if c, ok := t.newChild(st, k); ok {
		found := false
		for _, truth := range []bool{true, false} {
			t.fl.holds(st, truth, func(v *AVal) bool {
				v.walk(func(x *AVal) bool {
					if strings.HasPrefix(x.T, "recv#") && strings.HasSuffix(x.T, c) && t.isLen0(st, x.T) {
						found = true
					}
					return true
				})
				return false
			})
		}
		return found
	}
	if t.isLen0(st, t.side(k)) {
		return true
	}
	// a new batch, or the shortcut joined the keys
	for f := range st.facts {
		if strings.HasPrefix(f, "T:") || strings.HasPrefix(f, "F:") {
			if strings.Contains(f, mergeN) {
				return true
			}
		}
	}
	return t.c.stored && (t.batch == "" || strings.HasPrefix(t.batch, "@"))
}

func (t *trieRun) interior(e *Engine, st *State, as []*AVal, flag, pos string) {
	if t.c.bottom {
		t.bad("hash", pos, "replies the hash of children at the bottom of the tree", st)
		return
	}
	if flag != "0" {
		t.bad("hash", pos, "the hash of two children is not flagged as such: "+flag, st)
	}
	for i := int64(1); i <= 2; i++ {
		a := as[i-1]
		name := map[int64]string{1: "left", 2: "right"}[i]
		def := strings.HasSuffix(nodeOf(a).T, "DefaultLeaf")
		el := t.elem(e, st, t.side(i))
		switch {
		case def && t.childEmpty(st, i):
			if el.T != "nil" && !t.isLen0(st, nodeOf(el).T) && !t.isChild(st, el, i) {
				t.bad("content", pos, "the batch holds "+el.T+" as "+name+" child, but the hash covers an empty one", st)
			}
		case !def && t.isChild(st, a, i):
			if !t.isChild(st, el, i) {
				t.bad("content", pos, "the batch holds "+el.T+" as "+name+" child, but the hash covers "+a.T, st)
			}
		default:
			t.bad("hash", pos, "the replied hash covers "+a.T+" as "+name+" child", st)
		}
	}
	if t.c.stored {
		t.batchFlag(e, st, "0", pos)
	}
	for i := int64(1); i <= 2; i++ {
		if strings.HasSuffix(nodeOf(as[i-1]).T, "DefaultLeaf") && !t.isInner(st, 3-i) && t.mayHaveDeleted(st) {
			t.bad("canonical", pos, "a child was deleted and the other one may be a shortcut, which does not move up", st)
		}
	}
}

// isInner: child i is known not to be a shortcut.
func (t *trieRun) isInner(st *State, i int64) bool {
	x := t.side(i)
	for f := range st.facts {
		if !strings.HasPrefix(f, "F:") && !strings.HasPrefix(f, "T:") {
			continue
		}
		v := t.fl.tab[f[2:]]
		a, b, ok := isEq(v)
		if !ok {
			continue
		}
		for j := 0; j < 2; j, a, b = j+1, b, a {
			if !strings.HasSuffix(b.T, "[32]") || len(b.Args) == 0 {
				continue
			}
			n := strings.TrimSuffix(b.T, "[32]")
			if n != x && !t.isChild(st, mk("x", n), i) {
				continue
			}
			if a.T == "1" && f[0] == 'F' || a.T == "0" && f[0] == 'T' {
				return true
			}
		}
	}
	return false
}

// mayHaveDeleted: an update of a child may have deleted something.
func (t *trieRun) mayHaveDeleted(st *State) bool {
	for f := range st.facts {
		if strings.HasPrefix(f, "kid:") && !t.fl.holds(st, false, func(v *AVal) bool {
			return strings.HasPrefix(v.T, "recv#") && strings.HasSuffix(v.T, "("+f[6:]+").deleted")
		}) {
			return true
		}
	}
	return false
}

func (t *trieRun) batchFlag(e *Engine, st *State, want, pos string) {
	v := t.elem(e, st, t.batch+"[0]")
	got := v.T
	if x, ok := st.mem[v.T+"[0]"]; ok {
		got = x.T
	} else if len(v.Args) > 0 {
		if x, ok := st.mem[v.Args[0].T+"[0]"]; ok {
			got = x.T
		}
	}
	if got != want {
		t.bad("content", pos, "the batch is flagged "+got+", not "+want, st)
	}
}

func (t *trieRun) leaf(e *Engine, st *State, as []*AVal, flag string, d *AVal, pos string) {
	if flag != "1" {
		t.bad("hash", pos, "the hash of a leaf is not flagged as a shortcut: "+flag, st)
	}
	hb := strings.Trim(as[2].T, "[]")
	if hb != t.height && hb != "("+t.height+")" && !strings.HasSuffix(hb, "("+t.height+")") {
		t.bad("hash", pos, "the hash of the leaf covers "+as[2].T+", not the height of the node", st)
	}
	k, v := nodeOf(as[0]), nodeOf(as[1])
	kb, vb := strings.TrimSuffix(k.T, "[0]"), strings.TrimSuffix(v.T, "[0]")
	moved := int64(0)
	if kb != k.T && vb != v.T && pairT(kb, vb, t.up.Params[3].Name(), t.up.Params[4].Name()) {
		// the only key of the subtree
		if !t.c.bottom {
			if !t.fl.eqHolds(st, isT("len("+kb+")"), isT("1")) {
				t.bad("hash", pos, "the first of several keys becomes the only leaf", st)
			}
			if !t.childEmpty(st, 1) || !t.childEmpty(st, 2) {
				t.bad("hash", pos, "a leaf replaces a subtree that is not empty", st)
			}
		}
		isDef := func(x *AVal) bool { return strings.Contains(x.T, "DefaultLeaf") }
		if !t.fl.neqHolds(st, isDef, isT(v.T)) {
			t.bad("hash", pos, "a leaf may be stored for a key that is being deleted", st)
		}
	} else {
		for i := int64(1); i <= 2; i++ {
			if t.pairOfChild(st, k, v, i) && t.childEmpty(st, 3-i) {
				moved = i
			}
		}
		if moved == 0 {
			t.bad("hash", pos, "the leaf "+k.T+", "+v.T+" is not the only one of the subtree", st)
			return
		}
		if d == nil || d.T != "true" {
			t.bad("hash", pos, "a shortcut that moved up is replied without saying so, so that it does not move further", st)
		}
	}
	for i, x := range []*AVal{k, v} {
		if t.c.bottom {
			break
		}
		el := t.elem(e, st, t.side(int64(i)+1))
		if nodeOf(el).T != x.T {
			t.bad("content", pos, "the batch holds "+el.T+", but the hash of the leaf covers "+x.T, st)
		}
	}
	if t.c.bottom {
		for i, x := range []*AVal{k, v} {
			el := t.elem(e, st, fmt.Sprintf("%s[%d]", t.batch, i+1))
			if nodeOf(el).T != x.T {
				t.bad("content", pos, "the batch holds "+el.T+", but the hash of the leaf covers "+x.T, st)
			}
		}
	}
	if t.c.stored {
		t.batchFlag(e, st, "1", pos)
	}
	if moved != 0 && t.c.name != "above" {
		j := 2*t.c.iB + moved
		for i := int64(1); i <= 2; i++ {
			if el := t.elem(e, st, fmt.Sprintf("%s[%d]", t.batch, 2*j+i)); el.T != "nil" {
				t.bad("collapsed", pos, "the shortcut that moved up stays in its old position too", st)
			}
		}
	}
}

// pairOfChild: the key and the value of the shortcut that child i is.
func (t *trieRun) pairOfChild(st *State, k, v *AVal, i int64) bool {
	if strings.HasPrefix(k.T, "kid") {
		s := map[int64]string{1: "L", 2: "R"}[i]
		return k.T == "kid"+s+".1" && v.T == "kid"+s+".2"
	}
	j := 2*t.c.iB + i
	if _, upd := t.newChild(st, i); !upd && k.T == fmt.Sprintf("%s[%d]", t.batch, 2*j+1) && v.T == fmt.Sprintf("%s[%d]", t.batch, 2*j+2) {
		return true
	}
	kb, vb := strings.TrimSuffix(k.T, "[1]"), strings.TrimSuffix(v.T, "[2]")
	if kb == k.T || kb != vb || !strings.HasPrefix(kb, loadN) {
		return false
	}
	ok := false
	k.walk(func(x *AVal) bool {
		if x.Callee() == "load" && len(x.Args) == 2 && t.isChild(st, x.Args[0], i) {
			ok = true
		}
		return true
	})
	return ok
}

// trieTouch: the functions of the package that matter to the update: they hash, reply, write
// batches or record nodes, or call one that does.
func trieTouch(p *Prog, up *ssa.Function) func(*ssa.Function) bool {
	memo := map[*ssa.Function]int{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		if g == up {
			return true
		}
		if m := memo[g]; m != 0 || pkgOf(g) != "pkg/mapserver/trie" {
			return m == 2
		}
		memo[g] = 1
		hit := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if ch, ok := x.Chan.Type().Underlying().(*types.Chan); ok && strings.HasSuffix(ch.Elem().String(), ".mResult") {
						hit = true
					}
				case *ssa.UnOp:
					if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && strings.HasSuffix(ch.Elem().String(), ".mResult") {
						hit = true
					}
				case *ssa.FieldAddr:
					switch fieldName(x.X.Type(), x.Field) {
					case "updatedNodes", "removedNode", "hash":
						hit = true
					}
				case *ssa.IndexAddr:
					if x.X.Type().String() == "[][]byte" {
						hit = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range p.callees(c) {
						hit = f(h) || hit
					}
				}
				for _, o := range in.Operands(nil) {
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						hit = f(mc.Fn.(*ssa.Function)) || hit
					}
				}
			}
		}
		if hit {
			memo[g] = 2
		}
		return hit
	}
	return f
}

// trieSim simulates one function of the tree with every call as a pure function, except those
// of the package that the rule wants to see inside.
func trieSim(p *Prog, r *Rep, fn *ssa.Function, h Hooks) []*Outcome {
	call := h.Call
	h.Call = func(cc *CallCtx) []*Outcome {
		if call != nil {
			if os := call(cc); os != nil {
				return os
			}
		}
		if cc.Fn != nil && isRepoFn(cc.Fn) && pkgOf(cc.Fn) == "pkg/mapserver/trie" && plainSig(cc.Fn.Signature) != "func([]byte,int)bool" {
			return nil
		}
		if strings.HasPrefix(cc.Name, "builtin.") && cc.Name != "builtin.append" {
			return nil
		}
		return cc.E.Prim(cc)
	}
	h.Inline = func(g *ssa.Function) bool { return pkgOf(g) == "pkg/mapserver/trie" }
	e := NewEngine(p, h)
	e.MaxSteps = 2000000
	symIdx = true
	defer func() { symIdx = false }()
	os := e.RunEntry(fn)
	r.absorb(e)
	return os
}

func nilOrEmpty(v *AVal) bool { return v.T == "nil" || v.Zero || v.Nil == no }

// trieSplit: the keys are parted where the bit at the given height changes.
func trieSplit(p *Prog, r *Rep, fn *ssa.Function) {
	if fn == nil {
		r.Bad("anchor@split", "", "the function that splits the keys was not found", "")
		return
	}
	pos := p.pos(fn.Pos())
	r.Ob("split", pos, "the keys without the bit go left, the ones with it go right, none is lost")
	keys, height := fn.Params[1].Name(), fn.Params[2].Name()
	bit := func(v *AVal) bool { return strings.HasPrefix(v.Callee(), trieP) && len(v.Args) == 2 }
	over := false
	for h := range elemLoops(fn) {
		if l := loopAt(h); l != nil && l.First == 0 && l.Step == 1 && l.Short == 0 {
			over = true
		}
	}
	n := 0
	h := Hooks{
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			a, neg := stripNotVal(a)
			if !bit(a) || len(a.Args) != 2 {
				return
			}
			if a.Args[1].T != height {
				r.Bad("split", pos, "the keys are split by another bit than the one asked for: "+a.Args[1].T, st.traceString())
			}
			st.killPrefix("bit:")
			if truth != neg {
				st.gen("bit:T:" + a.Args[0].T)
			} else {
				st.gen("bit:F:" + a.Args[0].T)
			}
		},
		BackEdge: func(fr *Frame, st *State, b *ssa.BasicBlock) {
			if !st.hasPrefix("bit:F:") {
				r.Bad("split", p.pos(b.Instrs[0].Pos()), "a key is passed over although it may have the bit", st.traceString())
			}
			st.killPrefix("bit:")
		},
	}
	for _, o := range trieSim(p, r, fn, h) {
		if len(o.Results) != 2 {
			continue
		}
		n++
		a, b := o.Results[0], o.Results[1]
		switch {
		case a.T == keys && nilOrEmpty(b):
			if o.St.hasPrefix("bit:T:") || !over {
				r.Bad("split", pos, "every key goes left although one may have the bit", o.St.traceString())
			}
		case strings.HasPrefix(a.T, keys+"[:") && strings.HasPrefix(b.T, keys+"[") && strings.HasSuffix(b.T, ":]"):
			x, y := strings.TrimSuffix(a.T[len(keys)+2:], "]"), strings.TrimSuffix(b.T[len(keys)+1:], ":]")
			if x != y {
				r.Bad("split", pos, "the parts are "+a.T+" and "+b.T, o.St.traceString())
			}
			if !o.St.has("bit:T:"+keys+"["+x+"]") && x != "len("+keys+")" {
				r.Bad("split", pos, "the first key that goes right is not known to have the bit", o.St.traceString())
			}
		default:
			r.Bad("split", pos, "the parts are "+a.T+" and "+b.T, o.St.traceString())
		}
	}
	r.Floor("ways to split the keys", n, 2)
}

// piecesOf: what an append chain puts together.
func piecesOf(v *AVal) ([]string, bool) {
	if v.Op == "makeslice" || v.T == "nil" || v.Zero || v.Op == "make" {
		return nil, strings.HasSuffix(v.T, "(0)") || v.T == "nil" || v.Zero
	}
	if v.Callee() == "builtin.append" {
		out, ok := piecesOf(v.Args[0])
		for _, a := range v.Args[1:] {
			out = append(out, a.T)
		}
		return out, ok
	}
	if v.Op == "slice" && len(v.Args) > 0 && (v.Args[0].Op == "makeslice" || strings.HasPrefix(v.Args[0].T, "@")) && strings.HasSuffix(v.T, "[:0]") {
		return nil, true
	}
	return []string{v.T}, true
}

// trieMerge: the shortcut of a node joins the keys of the update, in order, unless it is
// among them.
func trieMerge(p *Prog, r *Rep, fn *ssa.Function) {
	if fn == nil {
		r.Bad("anchor@merge", "", "the function that joins the shortcut and the keys was not found", "")
		return
	}
	pos := p.pos(fn.Pos())
	r.Ob("merge", pos, "the shortcut joins the keys in order, unless it is among them; if it is deleted it is left out; no other key is lost, and the values follow the keys")
	keys, values, sk, sv := fn.Params[1].Name(), fn.Params[2].Name(), fn.Params[3].Name(), fn.Params[4].Name()
	fl := NewFacts()
	h := Hooks{
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) },
		BackEdge: func(fr *Frame, st *State, b *ssa.BasicBlock) {
			for f := range st.facts {
				if strings.Contains(f, "φ") {
					st.kill(f)
				}
			}
		},
	}
	n := 0
	// cmp: the shortcut is known to be smaller (or larger) than a key
	cmp := func(st *State, key string, less bool, truth bool) bool {
		return fl.holds(st, truth, func(v *AVal) bool {
			x := "bytes.Compare(" + sk + ", " + key + ")"
			y := "bytes.Compare(" + key + ", " + sk + ")"
			if less {
				return v.T == "("+x+" < 0)" || v.T == "(0 < "+y+")" || v.T == "("+x+" == -1)" || v.T == "(-1 == "+x+")"
			}
			return v.T == "("+y+" < 0)" || v.T == "(0 < "+x+")" || v.T == "("+x+" == 1)" || v.T == "(1 == "+x+")"
		})
	}
	def := func(v *AVal) bool { return strings.HasSuffix(stripAddr(v.T), "DefaultLeaf") }
	last := keys + "[(len(" + keys + ") - 1)]"
	for _, o := range trieSim(p, r, fn, h) {
		if len(o.Results) != 2 {
			continue
		}
		st := o.St
		n++
		bad := func(msg string) { r.Bad("merge", pos, msg, st.traceString()) }
		a, okA := piecesOf(o.Results[0])
		b, okB := piecesOf(o.Results[1])
		if !okA || !okB {
			bad("the result is " + o.Results[0].T + ", " + o.Results[1].T)
			continue
		}
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = b[i] == values+strings.TrimPrefix(a[i], keys) && strings.HasPrefix(a[i], keys) || a[i] == sk && b[i] == sv
		}
		if !same {
			bad("the values do not go with the keys: " + fmt.Sprint(a) + ", " + fmt.Sprint(b))
			continue
		}
		// the parts
		at, drop, okP := "", "", true
		next := "0"
		hasSK := 0
		for i, x := range a {
			if x == sk {
				hasSK++
				at = next
				continue
			}
			lo, hi := "0", "end"
			if x != keys {
				in := strings.TrimSuffix(strings.TrimPrefix(x, keys+"["), "]")
				parts := strings.SplitN(in, ":", 2)
				if len(parts) != 2 {
					okP = false
					break
				}
				if parts[0] != "" {
					lo = parts[0]
				}
				if parts[1] != "" {
					hi = parts[1]
				}
			}
			switch {
			case lo == next:
			case next == "0" && lo == "1", lo == "("+next+" + 1)", lo == "(1 + "+next+")":
				if drop != "" {
					okP = false
				}
				drop = next
			default:
				okP = false
			}
			next = hi
			_ = i
		}
		switch {
		case len(a) == 0:
			// the shortcut is neither outside of the keys nor one of them nor between two of them
			if !cmp(st, keys+"[0]", true, false) || !(cmp(st, last, false, false)) {
				bad("no key is left")
			}
		case !okP || next != "end" || hasSK > 1:
			bad("the keys are put together from " + fmt.Sprint(a))
		case drop != "":
			k, v := keys+"["+drop+"]", values+"["+drop+"]"
			if hasSK > 0 || !fl.eqHolds(st, isT(sk), isT(k)) || !fl.eqHolds(st, def, isT(v)) {
				bad("a key is left out that is not the shortcut being deleted: " + k)
			}
		case hasSK == 0:
			ok := false
			for _, truth := range []bool{true, false} {
				fl.holds(st, truth, func(v *AVal) bool {
					ok = ok || truth && eqOf(v, isT(sk), func(x *AVal) bool { return strings.HasPrefix(x.T, keys+"[") })
					return false
				})
			}
			if !ok {
				bad("the shortcut is left out although it is not among the keys")
			}
		case at == "0":
			if !cmp(st, keys+"[0]", true, true) {
				bad("the shortcut comes first although it may not be the smallest key")
			}
		case at == "end":
			if !cmp(st, last, false, true) {
				bad("the shortcut comes last although it may not be the largest key")
			}
		default:
			if !cmp(st, keys+"["+at+"]", true, true) {
				bad("the shortcut is inserted before a key that may not be larger")
			}
			if fl.eqHolds(st, isT(sk), isT(keys+"["+at+"]")) {
				bad("the shortcut is inserted although it is among the keys")
			}
		}
	}
	r.Floor("ways the shortcut joins the keys", n, 4)
}

// trieCommit: every recorded node is written, only the ones marked are removed, and nothing
// recorded is forgotten before.
func trieCommit(p *Prog, r *Rep) {
	var fns []*ssa.Function
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/trie" {
			continue
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), ".UpdateTreeNodes") {
					hit = true
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "TreeNodeRecord.Key") {
						hit = true
					}
				}
			}
		}
		if hit {
			fns = append(fns, f)
		}
	}
	top := map[*ssa.Function]bool{}
	for _, f := range fns {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		for len(p.callers(g)) == 1 && pkgOf(p.callers(g)[0].Parent()) == "pkg/mapserver/trie" && p.sole(g) {
			g = p.callers(g)[0].Parent()
		}
		top[g] = true
	}
	for f := range top {
		pos := p.pos(f.Pos())
		r.Ob("commit@"+fname(f), pos, "every recorded node is written under its hash, only nodes marked for removal are removed, and nothing is forgotten before it was collected")
		bad := func(msg, at string, st *State) { r.Bad("commit@"+fname(f), at, msg, st.traceString()) }
		h := Hooks{
			Call: func(cc *CallCtx) []*Outcome {
				switch {
				case cc.Name == "builtin.append" && len(cc.Args) > 1:
					for _, el := range append(cc.elemsOf(cc.Args[1]), cc.Args[1]) {
						if strings.Contains(el.T, "removedNode") {
							cc.St.gen("collected:removedNode")
						}
					}
				case strings.HasSuffix(cc.Name, ".UpdateTreeNodes"):
					n++
				case cc.Fn != nil && plainSig(cc.Fn.Signature) == "func([][]byte)[]byte":
					return []*Outcome{{St: cc.St.clone(), Results: []*AVal{mk("call:serialize", "serialize("+cc.Args[0].T+")", cc.Args[0])}}}
				}
				return nil
			},
			Store: func(fr *Frame, st *State, a, v *AVal, in *ssa.Store) {
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				switch k := fieldKey(fa.X.Type(), fa.Field); {
				case strings.HasSuffix(k, "TreeNodeRecord.Key"):
					if !strings.Contains(v.T, ".updatedNodes.key[") {
						bad("a node is written under "+v.T+", which is not the hash it was recorded under", p.pos(in.Pos()), st)
					}
					st.gen("collected:updatedNodes")
				case strings.HasSuffix(k, "TreeNodeRecord.Value"):
					if v.Callee() != "serialize" || len(v.Args) != 1 || !strings.Contains(v.Args[0].T, ".updatedNodes[") {
						bad("the value written for a node is not its recorded batch: "+v.T, p.pos(in.Pos()), st)
					}
				case strings.HasSuffix(k, "CacheDB.updatedNodes"), strings.HasSuffix(k, "CacheDB.removedNode"):
					name := k[strings.LastIndex(k, ".")+1:]
					if !st.has("ranged:" + name) {
						bad("the recorded nodes are forgotten before they were collected", p.pos(in.Pos()), st)
					}
				}
			},
			Instr: func(fr *Frame, st *State, in ssa.Instruction) {
				if x, ok := in.(*ssa.Range); ok {
					for _, name := range []string{"updatedNodes", "removedNode"} {
						if strings.Contains(x.X.String()+x.X.Name(), name) || fieldOfLoad(x.X) == name {
							st.gen("ranged:" + name)
						}
					}
				}
			},
		}
		trieSim(p, r, f, h)
		// what is removed from the database
		for _, g := range withAnon(f, p) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || !strings.HasSuffix(calleeName(c.Common()), ".DeleteTreeNodes") && !strings.HasSuffix(calleeName(c.Common()), ".UpdateTreeNodes") {
						continue
					}
					del := strings.HasSuffix(calleeName(c.Common()), ".DeleteTreeNodes")
					q := newProv(p, func(string) bool { return false })
					q.fieldRoots = true
					q.visit(c.Common().Args[len(c.Common().Args)-1], nil, "")
					for _, x := range q.list() {
						if del && strings.HasSuffix(x, "updatedNodes") {
							r.Bad("commit@"+fname(f), p.pos(in.Pos()), "nodes that were recorded for writing are removed", "")
						}
						if !del && strings.HasSuffix(x, "removedNode") {
							r.Bad("commit@"+fname(f), p.pos(in.Pos()), "nodes that were marked for removal are written", "")
						}
					}
				}
			}
		}
		checkLossless(p, r, withAnon(f, p))
	}
	r.Floor("writes of recorded nodes simulated", n, 1)
	// the maps are replaced only there and where the cache is made
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/mapserver/trie" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa.X.Type(), fa.Field)
				if !strings.HasSuffix(k, "CacheDB.updatedNodes") && !strings.HasSuffix(k, "CacheDB.removedNode") {
					continue
				}
				if _, isNew := fa.X.(*ssa.Alloc); isNew {
					continue
				}
				in2 := false
				for t := range top {
					for _, g := range withAnon(t, p) {
						in2 = in2 || g == f
					}
				}
				if !in2 {
					r.Ob("forgotten@"+fname(f), p.pos(f.Pos()), "recorded nodes are forgotten only by the commit that writes them")
					r.Bad("forgotten@"+fname(f), p.pos(in.Pos()), "the recorded nodes are forgotten without being written", "")
				}
			}
		}
	}
}

// fieldOfLoad: the name of the field a value was loaded from.
func fieldOfLoad(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

// withAnon: a function, its closures, and the functions of the package that only it calls.
func withAnon(f *ssa.Function, p *Prog) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if g == nil || seen[g] || pkgOf(g) != pkgOf(f) {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, a := range g.AnonFuncs {
			add(a)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && p.sole(h) {
						add(h)
					}
				}
			}
		}
	}
	add(f)
	return out
}

// trieTop: an update of the tree starts from its root with all keys, and the root becomes what
// was replied; a failed update does not touch it.
func trieTop(p *Prog, r *Rep, up *ssa.Function) {
	n := 0
	done := map[*ssa.Function]bool{}
	within := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || within[f] {
			return
		}
		within[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						if pkgOf(g) == "pkg/mapserver/trie" {
							mark(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			mark(a)
		}
	}
	mark(up)
	for _, c := range p.callers(up) {
		f := c.Parent()
		if within[f] {
			continue
		}
		for p.sole(f) && len(p.callers(f)) == 1 {
			f = p.callers(f)[0].Parent()
		}
		if done[f] {
			continue
		}
		done[f] = true
		n++
		pos := p.pos(f.Pos())
		key := "root@" + fname(f)
		r.Ob(key, pos, "the update starts from the root of the tree, and the root becomes what was replied, or stays if the update failed")
		s := f.Params[0].Name()
		fl := NewFacts()
		bad := func(msg, at string, st *State) { r.Bad(key, at, msg, st.traceString()) }
		h := Hooks{
			Call: func(cc *CallCtx) []*Outcome {
				if cc.Fn != up {
					return nil
				}
				a := cc.Args
				for i, w := range []string{"", "", s + ".Root", f.Params[2].Name(), f.Params[3].Name(), "", "", s + ".TrieHeight"} {
					if w != "" && a[i].T != w {
						bad("the update gets "+a[i].T+" instead of "+w, p.pos(cc.Pos()), cc.St)
					}
				}
				if len(a) == 9 {
					cc.St.gen("asked:" + a[8].T)
				}
				return []*Outcome{{St: cc.St.clone()}}
			},
			Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) },
			Store: func(fr *Frame, st *State, a, v *AVal, in *ssa.Store) {
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "Trie.Root") {
					return
				}
				at := p.pos(in.Pos())
				ch := ""
				for f := range st.facts {
					if strings.HasPrefix(f, "asked:") {
						ch = f[6:]
					}
				}
				rep := func(x *AVal) bool {
					return strings.HasPrefix(x.T, "recv#") && strings.HasSuffix(x.T, "("+ch+").update")
				}
				isErr := func(x *AVal) bool {
					return strings.HasPrefix(x.T, "recv#") && strings.HasSuffix(x.T, "("+ch+").err")
				}
				if ch == "" || !fl.eqHolds(st, isErr, isT("nil")) {
					bad("the root changes although the update may have failed", at, st)
					return
				}
				lenOf := func(x *AVal) bool {
					return len(x.Args) > 0 && rep(x.Args[len(x.Args)-1]) && strings.Contains(x.T, "len(")
				}
				switch {
				case v.T == "nil" || v.Zero:
					if !fl.eqHolds(st, lenOf, isT("0")) && !fl.holds(st, false, func(v *AVal) bool { return v.Op == "<" && len(v.Args) == 2 && v.Args[0].T == "0" && lenOf(v.Args[1]) }) {
						bad("the root is cleared although the replied one may not be empty", at, st)
					}
				case rep(nodeOf(v)) && (strings.HasSuffix(v.T, "[:32]") || strings.HasSuffix(v.T, "[0:32]")):
				default:
					bad("the root becomes "+v.T+", not the replied hash", at, st)
				}
				st.gen("set")
			},
		}
		for _, o := range trieSim(p, r, f, h) {
			if len(o.Results) == 2 && (o.Results[1].T == "nil" || o.Results[1].Nil == no) && o.St.hasPrefix("asked:") && !o.St.has("set") {
				bad("the update succeeds without setting the root", pos, o.St)
			}
		}
	}
	r.Floor("updates of the root simulated", n, 2)
}
