package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Level: "proof",
		Explain: "Field-coverage analysis of the policy objects over types and SSA: every path on which Equal accepts compares every field and every path on which it rejects found a differing one; constructors store each argument in its field; the JSON type tags written and read form one bijection and every field of a serialized type has a name of its own.",
		Run:     runFields})
}

// fieldPaths lists all fields of a struct type, descending into repository structs.
func fieldPaths(t types.Type) []jsonLeaf {
	var out []jsonLeaf
	var rec func(t types.Type, path string)
	rec = func(t types.Type, path string) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if n, ok := f.Type().(*types.Named); ok && isRepoPkg(n.Obj().Pkg()) {
				if _, ok := n.Underlying().(*types.Struct); ok {
					rec(n, path+"."+f.Name())
					continue
				}
			}
			out = append(out, jsonLeaf{path + "." + f.Name(), f.Type(), reflect.StructTag(s.Tag(i)).Get("json")})
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		rec(t, "")
	}
	return out
}

func runFields(p *Prog, r *Rep, th bool) {
	equality(p, r)
	constructors(p, r)
	tags(p, r)
	raws(p, r)
}

func sliceEq(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 {
		return false
	}
	_, a := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	_, b := f.Signature.Params().At(1).Type().Underlying().(*types.Slice)
	rt, c := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return a && b && c && rt.Kind() == types.Bool
}

func equality(p *Prog, r *Rep) {
	helpers := map[*ssa.Function]bool{}
	n := 0
	for _, f := range p.Funcs {
		if f.Name() != "Equal" || f.Signature.Recv() == nil || pkgOf(f) != "pkg/common" || f.Synthetic != "" || len(f.Blocks) == 0 || len(f.Params) != 2 {
			continue
		}
		rt := deref(f.Params[0].Type())
		if _, ok := rt.Underlying().(*types.Struct); !ok || !types.Identical(rt, deref(f.Params[1].Type())) {
			continue
		}
		n++
		fl := NewFacts()
		e := NewEngine(p, Hooks{
			Inline: func(g *ssa.Function) bool { return pkgOf(g) == "pkg/common" && len(g.Blocks) < 40 && !sliceEq(g) },
			Call: func(c *CallCtx) []*Outcome {
				if c.Fn != nil && sliceEq(c.Fn) && isRepoFn(c.Fn) {
					helpers[c.Fn] = true
					return c.E.Prim(c)
				}
				switch c.Name {
				case "bytes.Equal", "bytes.Compare", "crypto/subtle.ConstantTimeCompare", "time.Time.Equal", "slices.Equal", "slices.EqualFunc", "reflect.DeepEqual":
					return c.E.Prim(c)
				}
				return nil
			},
			Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) },
		})
		outs := e.RunEntry(f)
		a, b := f.Params[0].Name(), f.Params[1].Name()
		pair := func(v *AVal, path string) bool {
			if v.Op != "==" && v.Op != "!=" && !strings.HasPrefix(v.Op, "call:") || len(v.Args) < 2 {
				return false
			}
			x, y := v.Args[0].T, v.Args[1].T
			return x == a+path && y == b+path || x == b+path && y == a+path
		}
		eq := func(v *AVal) bool {
			return v.Op == "==" || v.Callee() == "bytes.Equal" || v.Callee() == "reflect.DeepEqual" || strings.HasPrefix(v.Callee(), "slices.Equal") || strings.HasSuffix(v.Callee(), ".Equal") || strings.HasPrefix(v.Callee(), "pkg/common.") && v.Op != "!="
		}
		key, key2 := "equal@"+fname(f), "differs@"+fname(f)
		r.Ob(key, p.pos(f.Pos()), "accepts only if every field of the two objects was found equal")
		r.Ob(key2, p.pos(f.Pos()), "rejects only if some field of the two objects was found different")
		leaves := fieldPaths(rt)
		instants := map[string]bool{}
		for _, l := range leaves {
			instants[l.path] = l.typ.String() == "time.Time"
		}
		holds := func(st *State, path string, same bool) bool {
			eq, pair := eq, pair
			if instants[path] {
				// == also compares the location and the monotonic clock
				pair0 := pair
				pair = func(v *AVal, path string) bool { return v.Op != "==" && v.Op != "!=" && pair0(v, path) }
			}
			return fl.holds(st, same, func(v *AVal) bool { return pair(v, path) && eq(v) }) ||
				fl.holds(st, !same, func(v *AVal) bool { return pair(v, path) && v.Op == "!=" }) ||
				// compare(...) == 0 / == 1
				fl.holds(st, same, func(v *AVal) bool {
					if v.Op != "==" || len(v.Args) != 2 {
						return false
					}
					for i := 0; i < 2; i++ {
						if c := v.Args[i].Callee(); (c == "bytes.Compare" && v.Args[1-i].T == "0" || c == "crypto/subtle.ConstantTimeCompare" && v.Args[1-i].T == "1") && pair(v.Args[i], path) {
							return true
						}
					}
					return false
				})
		}
		na := 0
		for _, o := range outs {
			if o.Panic || len(o.Results) != 1 {
				continue
			}
			res := o.Results[0]
			for _, truth := range []bool{true, false} {
				if truth && res.B == no || !truth && res.B == yes {
					continue
				}
				st := o.St
				if res.B == unk {
					st = o.St.clone()
					fl.record(st, res, truth)
				}
				if truth {
					na++
					for _, l := range leaves {
						if l.tag == "-" && strings.HasSuffix(l.path, ".JSONField") {
							continue
						}
						if !holds(st, l.path, true) {
							r.Bad(key, "", "accepts without comparing "+l.path[1:], st.traceString())
						}
					}
					continue
				}
				diff := false
				for _, l := range leaves {
					diff = diff || holds(st, l.path, false)
				}
				if !diff {
					r.Bad(key2, "", "rejects although no field was found different", st.traceString())
				}
			}
		}
		if na == 0 {
			r.Bad(key, "", "no path accepts", "")
		}
		r.absorb(e)
	}
	r.Floor("Equal methods of policy objects", n, 12)
	var hs []*ssa.Function
	for h := range helpers {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].String() < hs[j].String() })
	for _, h := range hs {
		sliceHelper(p, r, h)
	}
}

// sliceHelper: two slices are equal only if their lengths are and all elements at the same
// index are.
func sliceHelper(p *Prog, r *Rep, f *ssa.Function) {
	key := "slices@" + fname(f)
	r.Ob(key, p.pos(f.Pos()), "slices are equal only if their lengths and all elements at the same index are")
	a, b := f.Params[0].Name(), f.Params[1].Name()
	fl := NewFacts()
	el := func(v *AVal, s string) bool { return strings.HasPrefix(v.T, s+"[") }
	same := func(v *AVal) bool {
		if len(v.Args) != 2 {
			return false
		}
		x, y := v.Args[0], v.Args[1]
		return el(x, a) && el(y, b) && x.T[len(a):] == y.T[len(b):] || el(x, b) && el(y, a) && x.T[len(b):] == y.T[len(a):]
	}
	loops := 0
	e := NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) && g.Name() != "Equal" },
		Call: func(c *CallCtx) []*Outcome {
			if strings.HasSuffix(c.Name, ".Equal") || c.Name == "slices.Equal" {
				return c.E.Prim(c)
			}
			return nil
		},
		Assume: func(fr *Frame, st *State, v *AVal, truth bool) {
			fl.record(st, v, truth)
			x, neg := stripNotVal(v)
			if neg {
				truth = !truth
			}
			if same(x) && (truth && (x.Op == "==" || strings.HasSuffix(x.Callee(), ".Equal")) || !truth && x.Op == "!=") {
				st.gen("elem=")
			}
		},
		BackEdge: func(fr *Frame, st *State, h *ssa.BasicBlock) {
			loops++
			if !st.facts["elem="] {
				st.gen("unequal")
			}
			st.kill("elem=")
		},
	})
	for _, o := range fl.accepts(e.RunEntry(f), f, 0) {
		if fl.holds(o.St, true, func(v *AVal) bool {
			return (v.Callee() == "slices.Equal" || v.Callee() == "reflect.DeepEqual") && hasLeaf(a, b)(v)
		}) {
			loops++
			continue
		}
		la, lb := "len("+a+")", "len("+b+")"
		if o.St.facts["unequal"] {
			r.Bad(key, "", "accepts slices although the elements at some index were not found equal", o.St.traceString())
		}
		if !fl.eqHolds(o.St, isT(la), isT(lb)) {
			r.Bad(key, "", "accepts slices without comparing their lengths", o.St.traceString())
		}
		if !exhausted(fl, o.St, la) && !exhausted(fl, o.St, lb) {
			r.Bad(key, "", "accepts slices before all elements were compared", o.St.traceString())
		}
	}
	if loops == 0 {
		r.Bad(key, "", "the elements are not compared", "")
	}
	r.absorb(e)
}

// constructors: New* in pkg/common returning a pointer to a policy object.
func constructors(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/common" || f.Signature.Recv() != nil || f.Parent() != nil || !strings.HasPrefix(f.Name(), "New") || f.Signature.Results().Len() != 1 || len(f.Params) == 0 {
			continue
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok || len(jsonLeaves(pt.Elem())) == 0 || !isRepoPkg(pt.Elem().(*types.Named).Obj().Pkg()) {
			continue
		}
		n++
		key := "constructor@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "every argument is stored in the field it names, and fields copied from an object keep their place")
		e := NewEngine(p, Hooks{Inline: func(g *ssa.Function) bool { return pkgOf(g) == "pkg/common" && len(g.Blocks) < 20 }})
		leaves := fieldPaths(pt.Elem())
		for _, o := range e.RunEntry(f) {
			if o.Panic {
				continue
			}
			vals := map[string]*AVal{}
			used := map[string]bool{}
			for _, l := range leaves {
				v := e.loadLoc(o.St, locOf(o.Results[0])+l.path, l.typ, locField(o.Results[0], l.path[1:]))
				vals[l.path] = v
				used[v.T] = true
			}
			for _, pa := range f.Params {
				if _, ok := deref(pa.Type()).Underlying().(*types.Struct); ok && len(jsonLeaves(deref(pa.Type()))) > 0 {
					// an object copied from: same-named fields keep their values
					for _, s := range fieldPaths(deref(pa.Type())) {
						for _, d := range leaves {
							last := func(x string) string { return x[strings.LastIndexByte(x, '.')+1:] }
							if last(s.path) == last(d.path) && last(s.path) != "JSONField" && types.Identical(s.typ, d.typ) && vals[d.path].T != pa.Name()+s.path && vals[d.path].T != "" {
								r.Bad(key, "", fmt.Sprintf("field %s is not copied from %s", d.path[1:], pa.Name()), o.St.traceString())
							}
						}
					}
					continue
				}
				if !used[pa.Name()] {
					r.Bad(key, "", "argument "+pa.Name()+" is not stored", o.St.traceString())
				}
				for _, d := range leaves {
					nm := strings.TrimSuffix(d.path[strings.LastIndexByte(d.path, '.')+1:], "Field")
					if strings.EqualFold(nm, pa.Name()) && types.Identical(d.typ, pa.Type()) && vals[d.path].T != pa.Name() {
						r.Bad(key, "", fmt.Sprintf("field %s does not hold argument %s", d.path[1:], pa.Name()), o.St.traceString())
					}
				}
			}
		}
		r.absorb(e)
	}
	r.Floor("constructors of policy objects", n, 8)
}

func tags(p *Prog, r *Rep) {
	// what is written: type -> tag
	wr := map[string]string{}
	typs := map[string]types.Type{}
	var mf, uf *ssa.Function
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/common" || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		rs := f.Signature.Results()
		ps := f.Signature.Params()
		if rs.Len() == 3 && ps.Len() == 1 && types.IsInterface(ps.At(0).Type()) && rs.At(0).Type().String() == "string" && rs.At(1).Type().String() == "[]byte" {
			mf = f
		}
		if rs.Len() == 3 && ps.Len() == 2 && rs.At(0).Type().String() == "bool" && types.IsInterface(rs.At(1).Type()) && ps.At(0).Type().String() == "string" {
			uf = f
		}
	}
	r.Require("anchor@type tags", "", "the functions writing and reading type tags are found", mf != nil && uf != nil, "not found")
	if mf == nil || uf == nil {
		return
	}
	key := "tags@written"
	r.Ob(key, p.pos(mf.Pos()), "every serializable type is written under a tag of its own")
	e := NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return g != mf && pkgOf(g) == "pkg/common" && smallFn(g) },
		Instr: func(fr *Frame, st *State, in ssa.Instruction) {
			if ta, ok := in.(*ssa.TypeAssert); ok {
				typs[ta.AssertedType.String()] = ta.AssertedType
			}
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) {
			if a.Op == "typeok" && truth {
				st.gen("type:" + a.T)
			}
		}})
	arg := mf.Params[1].Name()
	for _, o := range e.RunEntry(mf) {
		if o.Panic || o.Results[2].Nil == yes {
			continue
		}
		t := ""
		for k := range o.St.facts {
			if strings.HasPrefix(k, "type:is("+arg+",") {
				t = strings.TrimSuffix(strings.TrimPrefix(k, "type:is("+arg+","), ")")
			}
		}
		tag := o.Results[0].T
		if t == "" || o.Results[0].C == nil {
			continue
		}
		if old, ok := wr[t]; ok && old != tag {
			r.Bad(key, "", fmt.Sprintf("%s is written under %s and %s", t, old, tag), o.St.traceString())
		}
		wr[t] = tag
	}
	byTag := map[string]string{}
	for _, t := range sortedKeys(wr) {
		if o, ok := byTag[wr[t]]; ok {
			r.Bad(key, "", fmt.Sprintf("%s and %s are written under the same tag %s", o, t, wr[t]), "")
		}
		byTag[wr[t]] = t
	}
	r.absorb(e)
	r.Floor("serializable types", len(wr), 9)
	// what is read: tag -> type
	fl := NewFacts()
	rd := map[string]map[string]bool{}
	e2 := NewEngine(p, Hooks{
		Inline: func(g *ssa.Function) bool { return g != uf && pkgOf(g) == "pkg/common" },
		Before: func(c *CallCtx) {
			if c.Name == "encoding/json.Unmarshal" {
				t := deref(staticType(c.Fr, c.In.Common().Args[1]))
				c.St.killPrefix("into:")
				c.St.gen("into:" + t.String())
			}
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) { fl.record(st, a, truth) }})
	tp := uf.Params[1].Name()
	for _, o := range e2.RunEntry(uf) {
		if o.Panic || o.Results[2].Nil == yes {
			continue
		}
		for tag := range byTag {
			if fl.eqHolds(o.St, isT(tp), isT(tag)) {
				if rd[tag] == nil {
					rd[tag] = map[string]bool{}
				}
				for k := range o.St.facts {
					if strings.HasPrefix(k, "into:") {
						rd[tag][k[5:]] = true
					}
				}
			}
		}
	}
	r.absorb(e2)
	for _, tag := range sortedKeys(byTag) {
		t := byTag[tag]
		k := "tag@" + strings.Trim(tag, `"`)
		got := sortedKeys(rd[tag])
		r.Require(k, p.pos(uf.Pos()), "an object written under the tag is read back as the type it was written from",
			len(got) == 1 && got[0] == t, fmt.Sprintf("written from %s, read into %v", t, got))
		// every field has a name of its own and is exported
		tt := typs[t]
		if n, ok := tt.(*types.Named); !ok || !isRepoPkg(n.Obj().Pkg()) {
			continue
		}
		k = "fields@" + short(t)
		r.Ob(k, "", "every field of the type is serialized under a name of its own")
		names := map[string]string{}
		for _, l := range fieldPaths(tt) {
			nm := l.path[strings.LastIndexByte(l.path, '.')+1:]
			if nm == "JSONField" {
				if l.tag != "-" {
					r.Bad(k, "", "the raw serialization is itself serialized", "")
				}
				continue
			}
			tn, _, _ := strings.Cut(l.tag, ",")
			if l.tag == "-" {
				r.Bad(k, "", "field "+l.path[1:]+" is not serialized", "")
				continue
			}
			if nm[0] < 'A' || nm[0] > 'Z' {
				r.Bad(k, "", "field "+l.path[1:]+" is not exported, thus not serialized", "")
				continue
			}
			if tn == "" {
				tn = nm
			}
			if o, ok := names[strings.ToLower(tn)]; ok {
				r.Bad(k, "", fmt.Sprintf("fields %s and %s share the name %s", o[1:], l.path[1:], tn), "")
			}
			names[strings.ToLower(tn)] = l.path
		}
	}
}

// raw: Raw returns the serialization the object was read from, if any, or that of the object;
// what is kept of the input is a copy.
func raws(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if f.Name() != "Raw" || f.Signature.Recv() == nil || pkgOf(f) != "pkg/common" || f.Synthetic != "" || len(f.Blocks) == 0 || len(f.Params) != 1 || f.Signature.Results().Len() != 2 {
			continue
		}
		t := deref(f.Params[0].Type())
		if _, ok := t.Underlying().(*types.Struct); !ok {
			continue
		}
		s := newSigRun(p)
		outs := s.e.RunEntry(f)
		pan := true
		for _, o := range outs {
			pan = pan && o.Panic
		}
		if pan {
			continue // the base type does not implement it
		}
		n++
		key := "raw@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "returns the serialization the object was read from, or, if none, that of the object")
		o0 := f.Params[0].Name()
		js := ""
		for _, l := range fieldPaths(t) {
			if strings.HasSuffix(l.path, ".JSONField") {
				js = o0 + l.path
			}
		}
		for _, o := range outs {
			if o.Panic || o.Results[1].Nil == yes {
				continue
			}
			v := o.Results[0]
			switch {
			case v.T == js:
				if !s.fl.neqHolds(o.St, isT(js), isT("nil")) && !s.fl.neqHolds(o.St, isT("len("+js+")"), isT("0")) && !s.fl.holds(o.St, true, func(x *AVal) bool { return x.Op == "<" && x.Args[1].T == "len("+js+")" }) {
					r.Bad(key, "", "returns an absent serialization", o.St.traceString())
				}
			case s.json[v.T] != nil:
				if w := s.covers(o.St, s.json[v.T], o0, t, nil, nil); w != "" {
					r.Bad(key, "", "returns the serialization of something else: "+w, o.St.traceString())
				}
			default:
				r.Bad(key, "", "returns neither the serialization read nor one of the object", o.St.traceString())
			}
		}
		r.absorb(s.e)
	}
	r.Floor("Raw methods of policy objects", n, 5)
	// the input kept is a copy
	m := 0
	for _, f := range p.Funcs {
		if f.Name() != "UnmarshalJSON" || pkgOf(f) != "pkg/common" || len(f.Params) != 2 {
			continue
		}
		m++
		key := "copied@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "what is kept of the input is a copy")
		data := f.Params[1]
		bad := aliasKept(p, data, map[ssa.Value]bool{})
		if bad != nil {
			r.Bad(key, p.pos(bad.Pos()), "the caller's buffer is kept in the object", "")
		}
	}
	r.Floor("JSON readers of policy objects", m, 1)
}

// aliasKept follows the slice through the function and finds where it is stored.
func aliasKept(p *Prog, v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
			if b := aliasKept(p, x.(ssa.Value), seen); b != nil {
				return b
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				for _, w := range *a.Referrers() {
					if ld, ok := w.(*ssa.UnOp); ok {
						if b := aliasKept(p, ld, seen); b != nil {
							return b
						}
					}
				}
				continue
			}
			return x
		case ssa.CallInstruction:
			n := calleeName(x.Common())
			switch {
			case n == "reflect.ValueOf" || strings.HasPrefix(n, "bytes.Trim") || n == "encoding/json.RawMessage":
				if b := aliasKept(p, x.Value(), seen); b != nil {
					return b
				}
			case n == "reflect.Value.Set" || n == "reflect.Value.SetBytes" || n == "reflect.(*Value).Set":
				return x
			case x.Common().StaticCallee() != nil && isRepoFn(x.Common().StaticCallee()):
				g := x.Common().StaticCallee()
				for i, a := range x.Common().Args {
					if a == v && i < len(g.Params) {
						if b := aliasKept(p, g.Params[i], seen); b != nil {
							return b
						}
					}
				}
			}
		}
	}
	return nil
}
