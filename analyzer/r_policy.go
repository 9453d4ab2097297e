package main

import (
	"crypto/sha256"
	"encoding/hex"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Level: "proof",
		Explain: "Path-sensitive acceptance analysis over SSA of the policy certificate signatures: on every accepting path of a verifier the signer's capability flag held, the hash naming the signer was compared with the hash of the signer, and an RSA PKCS#1 v1.5 verification over SHA-256 of the serialization succeeded, where the serialization is tracked field by field; signers produce what the verifiers check.",
		Run:     runPolicySig})
	register(&Check{ID: "C11", Level: "proof",
		Explain: "Memory-effect analysis over SSA on every path of the policy certificate signers and verifiers: at every exit each field of every argument object holds the value it had at entry, except the signature and hash that a successful signer sets.",
		Run:     runPolicyPure})
}

const cryptoP = "pkg/common/crypto."

// jsonLeaf is a serialized field of a type: its location path below the object.
type jsonLeaf struct {
	path string
	typ  types.Type
	tag  string
}

// jsonLeaves lists the fields of t that encoding/json writes, descending into repository
// struct types.
func jsonLeaves(t types.Type) []jsonLeaf {
	var out []jsonLeaf
	var rec func(t types.Type, path string)
	rec = func(t types.Type, path string) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" || !f.Exported() && !f.Embedded() {
				continue
			}
			if n, ok := f.Type().(*types.Named); ok && isRepoPkg(n.Obj().Pkg()) {
				if _, ok := n.Underlying().(*types.Struct); ok {
					rec(n, path+"."+f.Name())
					continue
				}
			}
			out = append(out, jsonLeaf{path + "." + f.Name(), f.Type(), tag})
		}
	}
	rec(t, "")
	return out
}

// jsonOf is the symbolic serialization of an object at the time of the call.
type jsonOf struct {
	typ  types.Type
	vals map[string]*AVal
}

type sigRun struct {
	fl   *Facts
	json map[string]*jsonOf
	ok   map[string]*AVal
	e    *Engine
}

// staticType finds the type of an interface-typed value by following it through the frames.
func staticType(fr *Frame, v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Parameter:
			if !types.IsInterface(x.Type()) {
				return x.Type()
			}
			if fr == nil || fr.Call == nil {
				return x.Type()
			}
			idx := -1
			for i, p := range fr.Fn.Params {
				if p == x {
					idx = i
				}
			}
			as := fr.Call.Common().Args
			if idx < 0 || idx >= len(as) || fr.Call.Common().IsInvoke() {
				return x.Type()
			}
			v, fr = as[idx], fr.Parent
			continue
		}
		return v.Type()
	}
}

func newSigRun(p *Prog) *sigRun {
	s := &sigRun{fl: NewFacts(), json: map[string]*jsonOf{}, ok: map[string]*AVal{}}
	ext := map[string]bool{"crypto/sha256.Sum256": true, "crypto/rsa.VerifyPKCS1v15": true, "crypto/rsa.SignPKCS1v15": true,
		"crypto/subtle.ConstantTimeCompare": true, "bytes.Equal": true, "bytes.Compare": true, "crypto/x509.ParsePKIXPublicKey": true,
		"pkg/util.DERBytesToRSAPublic": true, "strings.HasSuffix": true, "strings.CutSuffix": true, "strings.EqualFold": true,
		"time.Time.Before": true, "time.Time.After": true, "time.Time.Compare": true, "time.Time.Equal": true,
		"regexp.(*Regexp).Match": true, "regexp.(*Regexp).MatchString": true, "regexp.MustCompile": true}
	h := Hooks{
		Inline: func(g *ssa.Function) bool {
			pk := pkgOf(g)
			if pk == "pkg/common/crypto" {
				return true
			}
			return pk == "pkg/common" && !hashPrims[fname(g)] && len(g.Blocks) < 20 || pk == "pkg/util" && smallFn(g) && !hashPrims[fname(g)]
		},
		Call: func(c *CallCtx) []*Outcome {
			if c.Name == "pkg/common.ToJSON" {
				return s.toJSON(c)
			}
			if ext[c.Name] || hashPrims[c.Name] {
				os := c.E.Prim(c)
				for _, o := range os {
					for k := range o.St.facts {
						if strings.HasPrefix(k, "ok:") && s.ok[k] == nil {
							s.ok[k] = mk("call:"+c.Name, k[3:], c.Args...)
						}
					}
				}
				return os
			}
			return nil
		},
		Assume: func(fr *Frame, st *State, a *AVal, truth bool) { s.fl.record(st, a, truth) },
	}
	s.e = NewEngine(p, h)
	return s
}

func (s *sigRun) toJSON(c *CallCtx) []*Outcome {
	t := staticType(c.Fr, c.In.Common().Args[0])
	j := &jsonOf{typ: t, vals: map[string]*AVal{}}
	arg := c.Args[0]
	isPtr := false
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t, isPtr = pt.Elem(), true
		j.typ = t
	}
	var args []*AVal
	sum := sha256.New()
	sum.Write([]byte(types.TypeString(t, nil)))
	for _, l := range jsonLeaves(t) {
		var v *AVal
		if isPtr {
			v = c.E.loadLoc(c.St, locOf(arg)+l.path, l.typ, locField(arg, l.path[1:]))
		} else {
			v = proj(arg, l.path, l.typ)
		}
		if v.Nil == unk && s.fl.eqHolds(c.St, isT(v.T), isT("nil")) {
			v = v.with(func(n *AVal) { n.Nil = no })
		}
		j.vals[l.path] = v
		args = append(args, v)
		sum.Write([]byte(l.path + "=" + v.Key() + "\n"))
	}
	if len(args) == 0 {
		args = []*AVal{arg}
		sum.Write([]byte(arg.Key()))
	}
	base := mk("call:json", "json:"+hex.EncodeToString(sum.Sum(nil)[:8]))
	base.Args = args
	s.json[base.T] = j
	r0 := base
	errv := mk("extract", base.T+"#1", base)
	s1, s2 := c.St.clone(), c.St.clone()
	s2.note(c.E.P.pos(c.In.Pos()) + " ToJSON fails")
	return []*Outcome{
		{St: s1, Results: []*AVal{r0, mk("const", "nil").with(func(a *AVal) { a.Nil = no })}},
		{St: s2, Results: []*AVal{mk("extract", base.T+"#0"), errv.with(func(a *AVal) { a.Nil = yes })}},
	}
}

// content: v is the SHA-256 of a serialization; which one.
func (s *sigRun) hashed(v *AVal) *jsonOf {
	if v == nil {
		return nil
	}
	if c := v.Callee(); (c == "crypto/sha256.Sum256" || c == hashF || c == hashF+"32Bytes") && len(v.Args) > 0 {
		a := v.Args[0]
		if a.Op == "lit" && len(a.Args) == 1 {
			a = a.Args[0]
		}
		if len(v.Args) == 1 {
			return s.json[a.T]
		}
	}
	return nil
}

// covers: the serialization holds every field of the object named obj (of type t, whose common
// fields live below sub in obj when obj is a request) as it was at entry, except those in
// without, which are nil, and those in with, which satisfy their predicate.
func (s *sigRun) covers(st *State, j *jsonOf, obj string, objT types.Type, without map[string]bool, with map[string]func(*AVal) bool) string {
	if j == nil {
		return "nothing serialized"
	}
	has := map[string]bool{}
	for _, l := range jsonLeaves(objT) {
		has[l.path] = true
	}
	var paths []string
	for p := range j.vals {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	seen := map[string]bool{}
	for _, p := range paths {
		v := j.vals[p]
		seen[p] = true
		name := p[strings.LastIndexByte(p, '.')+1:]
		switch {
		case with[name] != nil:
			if !with[name](v) {
				return "field " + name + " is " + v.T
			}
		case without[name] || !has[p]:
			if v.Nil != no && v.T != "nil" && !v.Zero {
				return "field " + name + " is not removed"
			}
		case v.T != obj+p:
			return "field " + name + " is not the one of " + obj
		}
	}
	for p := range has {
		if !seen[p] {
			return "field " + p + " is not serialized"
		}
	}
	return ""
}

func (s *sigRun) okHolds(st *State, pred func(*AVal) bool) bool {
	for k := range st.facts {
		if strings.HasPrefix(k, "ok:") && s.ok[k] != nil && pred(s.ok[k]) {
			return true
		}
	}
	return false
}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

const pcf = ".PolicyCertificateFields"

// rsaVerified: on this path the signature sig over a serialization satisfying good verified
// under a key derived from the public key of the signer.
func (s *sigRun) rsaVerified(st *State, signer, sig string, good func(*jsonOf) string) string {
	why := "no signature was verified"
	if s.okHolds(st, func(v *AVal) bool {
		if v.Callee() != "crypto/rsa.VerifyPKCS1v15" || len(v.Args) != 4 {
			return false
		}
		if !hasLeaf(signer + pcf + ".PublicKey")(v.Args[0]) {
			why = "the key is not the public key of " + signer
			return false
		}
		if v.Args[1].T != "5" {
			why = "the hash function is not SHA-256"
			return false
		}
		if v.Args[3].T != sig {
			why = "the signature verified is not " + sig
			return false
		}
		w := good(s.hashed(v.Args[2]))
		if w != "" {
			why = "what is verified is not the serialization: " + w
		}
		return w == ""
	}) {
		return ""
	}
	return why
}

func (s *sigRun) signerHash(st *State, signer string, t types.Type, want string) bool {
	return s.fl.eqHolds(st, isT(want), func(v *AVal) bool {
		return s.covers(st, s.hashed(v), signer, t, set("SPCTs", "IssuerSignature"), nil) == ""
	})
}

func runPolicySig(p *Prog, r *Rep, th bool) {
	verify := func(name string, owner bool) {
		f := p.fn(cryptoP + name)
		if f == nil || len(f.Params) < 2 {
			r.Bad("anchor@"+name, "", "exported verifier not found", "")
			return
		}
		signer, child := f.Params[0].Name(), f.Params[1].Name()
		st0, ct := deref(f.Params[0].Type()), deref(f.Params[1].Type())
		s := newSigRun(p)
		outs := s.e.RunEntry(f)
		acc := s.fl.accepts(outs, f, 0)
		who, flag, id, sig := "issuer", "CanIssue", child+".IssuerHash", child+".IssuerSignature"
		without := set("IssuerSignature")
		if owner {
			who, flag, id, sig = "owner", "CanOwn", child+pcf+".OwnerHash", child+pcf+".OwnerSignature"
			without = set("SPCTs", "IssuerSignature", "IssuerHash", "OwnerSignature")
		}
		k1, k2, k3 := "capable@"+name, "identity@"+name, "signature@"+name
		r.Ob(k1, p.pos(f.Pos()), "accepts only if the "+who+" has "+flag)
		r.Ob(k2, p.pos(f.Pos()), "accepts only if the certificate names the "+who+" by its hash")
		r.Ob(k3, p.pos(f.Pos()), "accepts only if the signature of the "+who+" over the certificate verifies")
		for _, o := range acc {
			tr := o.St.traceString()
			if !s.fl.holds(o.St, true, isT(signer+pcf+"."+flag)) {
				r.Bad(k1, "", "accepts a signer without "+flag, tr)
			}
			if !s.signerHash(o.St, signer, st0, id) {
				r.Bad(k2, "", "accepts without comparing "+id+" with the hash of "+signer, tr)
			}
			if w := s.rsaVerified(o.St, signer, sig, func(j *jsonOf) string { return s.covers(o.St, j, child, ct, without, nil) }); w != "" {
				r.Bad(k3, "", "accepts although "+w, tr)
			}
		}
		r.Require("accepts@"+name, p.pos(f.Pos()), "has an accepting path", len(acc) > 0, "no path accepts")
		r.absorb(s.e)
	}
	verify("VerifyOwnerSignatureInPolicyCertificate", true)
	verify("VerifyOwnerSignature", true)
	verify("VerifyIssuerSignature", false)

	// signers
	sign := func(name string, owner bool) {
		f := p.fn(cryptoP + name)
		if f == nil || len(f.Params) != 3 {
			r.Bad("anchor@"+name, "", "exported signer not found", "")
			return
		}
		s := newSigRun(p)
		outs := s.e.RunEntry(f)
		signer, kname, child := f.Params[0].Name(), f.Params[1].Name(), f.Params[2].Name()
		st0, ct := deref(f.Params[0].Type()), deref(f.Params[2].Type())
		who := "issuer"
		if owner {
			who = "owner"
		}
		k1, k2 := "signed@"+name, "clean@"+name
		r.Ob(k1, p.pos(f.Pos()), "on success the "+who+" hash names the signer and the signature is over what the verifier checks")
		r.Ob(k2, p.pos(f.Pos()), "signs only where no "+who+" signature and hash are present")
		if owner {
			r.Ob("capable@"+name, p.pos(f.Pos()), "signs only if the owner has CanOwn")
		}
		n := 0
		ei := f.Signature.Results().Len() - 1
		for _, o := range outs {
			if o.Panic || o.Results[ei].Nil == yes {
				continue
			}
			n++
			tr := o.St.traceString()
			obj := mk("param", child)
			rt := ct
			if ei == 1 {
				obj, rt = o.Results[0], deref(f.Signature.Results().At(0).Type())
			}
			get := func(path string) *AVal {
				return s.e.loadLoc(o.St, locOf(obj)+path, types.NewSlice(types.Typ[types.Byte]), locField(obj, path[1:]))
			}
			sp, hp := ".IssuerSignature", ".IssuerHash"
			without := set("IssuerSignature")
			if owner {
				sp, hp = pcf+".OwnerSignature", pcf+".OwnerHash"
				without = set("OwnerSignature", "SPCTs", "IssuerSignature", "IssuerHash")
			} else if ei == 1 {
				without["SPCTs"] = true
			}
			hname := hp[strings.LastIndexByte(hp, '.')+1:]
			delete(without, hname)
			idOK := func(v *AVal) bool {
				return s.covers(o.St, s.hashed(v), signer, st0, set("SPCTs", "IssuerSignature"), nil) == ""
			}
			if !idOK(get(hp)) {
				r.Bad(k1, "", "the signer hash left in the certificate is not the hash of the signer", tr)
			}
			sg := get(sp)
			base := sg
			if sg.Op == "extract" && len(sg.Args) == 1 {
				base = sg.Args[0]
			}
			switch {
			case base.Callee() != "crypto/rsa.SignPKCS1v15" || len(base.Args) != 4:
				r.Bad(k1, "", "the signature left in the certificate is not a PKCS#1 v1.5 signature", tr)
			case base.Args[1].T != kname || base.Args[2].T != "5":
				r.Bad(k1, "", "the signature is not made with the given key over SHA-256", tr)
			default:
				j := s.hashed(base.Args[3])
				if j != nil && !types.Identical(deref(j.typ), deref(pcType(p))) {
					r.Bad(k1, "", "what is signed is not serialized as a policy certificate", tr)
				} else if w := s.covers(o.St, j, child, ct, without, map[string]func(*AVal) bool{hname: idOK}); w != "" {
					r.Bad(k1, "", "what is signed is not what the verifier checks: "+w, tr)
				}
			}
			_ = rt
			if ei == 0 {
				isn := func(path string) bool { return s.fl.eqHolds(o.St, isT(child+path), isT("nil")) }
				if !isn(sp) || !isn(hp) {
					r.Bad(k2, "", "signs over an existing signature or hash", tr)
				}
			}
			if owner && !s.fl.holds(o.St, true, isT(signer+pcf+".CanOwn")) {
				r.Bad("capable@"+name, "", "signs for an owner without CanOwn", tr)
			}
		}
		r.Require("signs@"+name, p.pos(f.Pos()), "has a successful path", n > 0, "no path signs")
		r.absorb(s.e)
	}
	sign("SignAsOwner", true)
	sign("SignPolicyCertificateAsIssuer", false)
	sign("SignRequestAsIssuer", false)

	// raw bytes
	if f := p.fn(cryptoP + "VerifySignedBytes"); f == nil {
		r.Bad("anchor@VerifySignedBytes", "", "exported verifier not found", "")
	} else {
		s := newSigRun(p)
		b, sg, key := f.Params[0].Name(), f.Params[1].Name(), f.Params[2].Name()
		r.Ob("signature@VerifySignedBytes", p.pos(f.Pos()), "accepts only if the signature over the bytes verifies under the key")
		acc := s.fl.accepts(s.e.RunEntry(f), f, 0)
		for _, o := range acc {
			if !s.okHolds(o.St, func(v *AVal) bool {
				if v.Callee() != "crypto/rsa.VerifyPKCS1v15" || len(v.Args) != 4 {
					return false
				}
				h := v.Args[2]
				return v.Args[0].T == key && v.Args[1].T == "5" && v.Args[3].T == sg && (h.Callee() == "crypto/sha256.Sum256" || isHash(h)) && len(h.Args) > 0 && hasLeaf(b)(h)
			}) {
				r.Bad("signature@VerifySignedBytes", "", "accepts without a verified signature over the SHA-256 of the bytes", o.St.traceString())
			}
		}
		r.Require("accepts@VerifySignedBytes", p.pos(f.Pos()), "has an accepting path", len(acc) > 0, "no path accepts")
		r.absorb(s.e)
	}
	if f := p.fn(cryptoP + "SignBytes"); f == nil {
		r.Bad("anchor@SignBytes", "", "exported signer not found", "")
	} else {
		s := newSigRun(p)
		b, key := f.Params[0].Name(), f.Params[1].Name()
		r.Ob("signed@SignBytes", p.pos(f.Pos()), "signs the SHA-256 of the bytes with the key")
		for _, o := range s.e.RunEntry(f) {
			if o.Panic || o.Results[1].Nil == yes {
				continue
			}
			v := o.Results[0]
			if v.Op == "extract" && len(v.Args) == 1 {
				v = v.Args[0]
			}
			if v.Callee() != "crypto/rsa.SignPKCS1v15" || v.Args[1].T != key || v.Args[2].T != "5" || !hasLeaf(b)(v.Args[3]) || !(v.Args[3].Callee() == "crypto/sha256.Sum256" || isHash(v.Args[3])) {
				r.Bad("signed@SignBytes", "", "the result is not a signature over the SHA-256 of the bytes with the key", o.St.traceString())
			}
		}
		r.absorb(s.e)
	}
	constraints(p, r)
	timestamp(p, r)
}

// timestamp: the timestamp returned is over the given certificate and its own data.
func timestamp(p *Prog, r *Rep) {
	const name = "SignPolicyCertificateTimestamp"
	f := p.fn(cryptoP + name)
	if f == nil || len(f.Params) != 4 {
		r.Bad("anchor@"+name, "", "exported signer not found", "")
		return
	}
	s := newSigRun(p)
	pc, ver, log, key := f.Params[0].Name(), f.Params[1].Name(), f.Params[2].Name(), f.Params[3].Name()
	k := "signed@" + name
	r.Ob(k, p.pos(f.Pos()), "the timestamp carries the given version and log, and a signature with the given key over them, its time and the certificate")
	n := 0
	for _, o := range s.e.RunEntry(f) {
		if o.Panic || o.Results[1].Nil == yes {
			continue
		}
		n++
		tr := o.St.traceString()
		get := map[string]*AVal{}
		for _, l := range jsonLeaves(deref(f.Signature.Results().At(0).Type())) {
			get[l.path[strings.LastIndexByte(l.path, '.')+1:]] = s.e.loadLoc(o.St, locOf(o.Results[0])+l.path, l.typ, locField(o.Results[0], l.path[1:]))
		}
		base := get["Signature"]
		if base != nil && base.Op == "extract" && len(base.Args) == 1 {
			base = base.Args[0]
		}
		if base.Callee() != "crypto/rsa.SignPKCS1v15" || len(base.Args) != 4 || base.Args[1].T != key || base.Args[2].T != "5" {
			r.Bad(k, "", "the signature is not made with the given key over SHA-256", tr)
			continue
		}
		j := s.hashed(base.Args[3])
		if j == nil {
			r.Bad(k, "", "what is signed is not a serialization", tr)
			continue
		}
		if get["Version"].T != ver || get["LogID"].T != log || get["AddedTS"].Zero {
			r.Bad(k, "", "the timestamp does not carry the given version and log", tr)
		}
		ent := false
		for p0, v := range j.vals {
			switch nm := p0[strings.LastIndexByte(p0, '.')+1:]; nm {
			case "Entry":
				ent = true
				if w := s.covers(o.St, s.json[v.T], pc, deref(f.Params[0].Type()), nil, nil); w != "" {
					r.Bad(k, "", "the entry signed is not the certificate: "+w, tr)
				}
			case "Signature":
				if v.Nil != no {
					r.Bad(k, "", "the signature is made over another signature", tr)
				}
			default:
				if get[nm] == nil || get[nm].T != v.T {
					r.Bad(k, "", "the "+nm+" signed is not that of the timestamp", tr)
				}
			}
		}
		if !ent {
			r.Bad(k, "", "the certificate is not signed", tr)
		}
	}
	r.Require("signs@"+name, p.pos(f.Pos()), "has a successful path", n > 0, "no path signs")
	r.absorb(s.e)
}

func pcType(p *Prog) types.Type { return p.namedType("pkg/common", "PolicyCertificate") }

func constraints(p *Prog, r *Rep) {
	const name = "VerifyIssuerConstraints"
	f := p.fn(cryptoP + name)
	if f == nil {
		r.Bad("anchor@"+name, "", "exported verifier not found", "")
		return
	}
	s := newSigRun(p)
	is, ch := f.Params[0].Name()+pcf, f.Params[1].Name()+pcf
	dom := ".PolicyCertificateBase.DomainField"
	acc := s.fl.accepts(s.e.RunEntry(f), f, 0)
	k := []string{"notbefore@" + name, "notafter@" + name, "subdomain@" + name, "validname@" + name}
	r.Ob(k[0], p.pos(f.Pos()), "accepts only if the certificate does not start before its issuer")
	r.Ob(k[1], p.pos(f.Pos()), "accepts only if the certificate does not end after its issuer")
	r.Ob(k[2], p.pos(f.Pos()), "accepts only the domain of the issuer or a subdomain, or any under an issuer without domain")
	r.Ob(k[3], p.pos(f.Pos()), "accepts only if both domains were checked to be domain names")
	// a <= b was established
	le := func(st *State, a, b string) bool {
		call := func(fn, x, y string) func(*AVal) bool {
			return func(v *AVal) bool {
				return v.Callee() == fn && len(v.Args) == 2 && v.Args[0].T == x && v.Args[1].T == y
			}
		}
		return s.fl.holds(st, false, call("time.Time.After", a, b)) || s.fl.holds(st, false, call("time.Time.Before", b, a)) ||
			s.fl.holds(st, true, call("time.Time.Before", a, b)) || s.fl.holds(st, true, call("time.Time.After", b, a)) ||
			s.fl.holds(st, true, call("time.Time.Equal", b, a)) || s.fl.holds(st, true, call("time.Time.Equal", a, b)) ||
			s.fl.holds(st, false, func(v *AVal) bool {
				if len(v.Args) != 2 {
					return false
				}
				x, y := v.Args[0], v.Args[1]
				c1, c2 := call("time.Time.Compare", a, b), call("time.Time.Compare", b, a)
				switch v.Op {
				case "<": // !(0 < cmp(a,b)), !(cmp(b,a) < 0)
					return x.T == "0" && c1(y) || c2(x) && y.T == "0"
				case ">":
					return c1(x) && y.T == "0" || x.T == "0" && c2(y)
				}
				return false
			}) || s.fl.holds(st, true, func(v *AVal) bool {
			if len(v.Args) != 2 {
				return false
			}
			x, y := v.Args[0], v.Args[1]
			c1, c2 := call("time.Time.Compare", a, b), call("time.Time.Compare", b, a)
			switch v.Op {
			case "<=":
				return c1(x) && y.T == "0" || x.T == "0" && c2(y)
			case ">=":
				return x.T == "0" && c1(y) || c2(x) && y.T == "0"
			}
			return false
		})
	}
	for _, o := range acc {
		tr := o.St.traceString()
		if !le(o.St, is+".NotBefore", ch+".NotBefore") {
			r.Bad(k[0], "", "accepts without comparing the beginnings of the validity periods", tr)
		}
		if !le(o.St, ch+".NotAfter", is+".NotAfter") {
			r.Bad(k[1], "", "accepts without comparing the ends of the validity periods", tr)
		}
		sub := s.fl.eqHolds(o.St, isT(is+dom), isT(`""`)) || s.fl.eqHolds(o.St, isT("len("+is+dom+")"), isT("0")) ||
			s.fl.eqHolds(o.St, isT(is+dom), isT(ch+dom)) ||
			s.fl.holds(o.St, true, func(v *AVal) bool {
				if v.Op == "extract" && len(v.Args) == 1 && v.Args[0].Callee() == "strings.CutSuffix" {
					v = v.Args[0]
				}
				if v.Callee() != "strings.HasSuffix" && v.Callee() != "strings.CutSuffix" || len(v.Args) != 2 || v.Args[0].T != ch+dom {
					return false
				}
				x := v.Args[1]
				return x.Op == "+" && len(x.Args) == 2 && x.Args[0].T == `"."` && x.Args[1].T == is+dom
			})
		if !sub {
			r.Bad(k[2], "", "accepts a domain that is neither that of the issuer nor a subdomain", tr)
		}
		for _, d := range []string{is + dom, ch + dom} {
			if !s.fl.holds(o.St, true, func(v *AVal) bool {
				return strings.HasPrefix(v.Callee(), "regexp.(*Regexp).Match") && hasLeaf(d)(v)
			}) {
				r.Bad(k[3], "", "accepts without checking that "+d+" is a domain name", tr)
			}
		}
	}
	r.Require("accepts@"+name, p.pos(f.Pos()), "has an accepting path", len(acc) > 0, "no path accepts")
	r.absorb(s.e)
}

func runPolicyPure(p *Prog, r *Rep, th bool) {
	n := 0
	for _, f := range p.Funcs {
		if pkgOf(f) != "pkg/common/crypto" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		var objs []string
		for _, pa := range f.Params {
			if pt, ok := pa.Type().(*types.Pointer); ok {
				if nt, ok := pt.Elem().(*types.Named); ok && isRepoPkg(nt.Obj().Pkg()) {
					objs = append(objs, pa.Name())
				}
			}
		}
		if len(objs) == 0 {
			continue
		}
		n++
		key := "inputs@" + fname(f)
		r.Ob(key, p.pos(f.Pos()), "leaves its arguments as it found them (a successful signer sets the signature and the hash of the signer)")
		s := newSigRun(p)
		allowed := map[string]map[string]bool{}
		ei := f.Signature.Results().Len() - 1
		if ei == 0 && strings.HasPrefix(f.Name(), "Sign") {
			allowed[objs[len(objs)-1]] = set("OwnerSignature", "OwnerHash")
			if strings.Contains(f.Name(), "Issuer") {
				allowed[objs[len(objs)-1]] = set("IssuerSignature", "IssuerHash")
			}
		}
		for _, o := range s.e.RunEntry(f) {
			success := !o.Panic && ei >= 0 && isErrorType(f.Signature.Results().At(ei).Type()) && o.Results[ei].Nil != yes
			for k, v := range o.St.mem {
				for _, ob := range objs {
					if k != ob && !strings.HasPrefix(k, ob+".") || v.T == k {
						continue
					}
					name := k[strings.LastIndexByte(k, '.')+1:]
					if success && allowed[ob][name] {
						continue
					}
					if (v.T == "nil" || v.Nil == no) && s.fl.eqHolds(o.St, isT(k), isT("nil")) {
						continue
					}
					r.Bad(key, "", "leaves "+k+" changed", o.St.traceString())
				}
			}
		}
		r.absorb(s.e)
	}
	r.Floor("exported signers and verifiers", n, 8)
}
