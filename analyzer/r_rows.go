package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Level: "proof",
		Explain: "backward provenance of every value that reaches a table column, agreement of the row spaces of slices handed over together, alignment of element reads inside batch loops, and batch loops that skip no element",
		Assumptions: []string{
			"MySQL stores the columns of a LOAD DATA or INSERT statement in the order the statement lists them",
		},
		Run: runRows})
}

const dbConnPkg, mysqlPkg = "pkg/db", "pkg/db/mysql"

func rowPrim(n string) bool {
	switch lastName(n) {
	case "ExtractCertDomains", "Raw", "Domain", "ToJSON":
		return true
	}
	return false
}

// role tells which origins a column may have.
type role struct {
	what string
	ok   func(root string) bool
}

func oneOf(xs ...string) func(string) bool {
	return func(s string) bool {
		for _, x := range xs {
			if s == x {
				return true
			}
		}
		return false
	}
}

var (
	nameRoot   = oneOf("call:ExtractCertDomains", "call:Domain")
	certRaw    = oneOf("x509.Certificate.Raw")
	polRaw     = oneOf("call:Raw", "call:ToJSON")
	roleName   = role{"the names of the certificate or the domain of the policy", nameRoot}
	roleDomain = role{"the SHA256 of the name", hashOf(nameRoot)}
	roleCertID = role{"the SHA256 of the certificate's raw bytes", hashOf(certRaw)}
	rolePolID  = role{"the SHA256 of the policy's raw bytes", hashOf(polRaw)}
	roleExp    = role{"the NotAfter of the certificate", oneOf("x509.Certificate.NotAfter", "x509.Certificate.NotAfter()")}
	rolePolExp = role{"a fixed time", func(s string) bool { return true }}
	roleRaw    = role{"the raw bytes", func(s string) bool { return certRaw(s) || polRaw(s) }}
	roleAny    = role{"", func(string) bool { return true }}
)

func hashOf(f func(string) bool) func(string) bool {
	return func(s string) bool {
		return strings.HasPrefix(s, "sha256(") && strings.HasSuffix(s, ")") && f(s[7:len(s)-1])
	}
}

// the tables a row goes to, their columns in the order of the parameters of the method of
// the database connection that writes them, and the origin of each.
type tableRows struct {
	table, method string
	cols          []string
	roles         []role
	src           []string // the fields of the ingest structures the columns come from
}

var rowTables = []tableRows{
	{"certs", "UpdateCerts", []string{"cert_id", "parent_id", "expiration", "payload"}, []role{roleCertID, roleCertID, roleExp, roleRaw},
		[]string{"Certificate.CertID", "Certificate.ParentID", "Certificate.NotAfter", "Certificate.Raw"}},
	{"policies", "UpdatePolicies", []string{"policy_id", "parent_id", "expiration", "payload"}, []role{rolePolID, roleAny, rolePolExp, roleRaw}, nil},
	{"domains", "UpdateDomains", []string{"domain_id", "domain_name"}, []role{roleDomain, roleName}, []string{"DirtyDomain.DomainID", "DirtyDomain.Name"}},
	{"domain_certs", "UpdateDomainCerts", []string{"domain_id", "cert_id"}, []role{roleDomain, roleCertID}, []string{"DirtyDomain.DomainID", "DirtyDomain.CertID"}},
	{"domain_policies", "UpdateDomainPolicies", []string{"domain_id", "policy_id"}, []role{roleDomain, rolePolID}, nil},
	{"dirty", "InsertDomainsIntoDirty", []string{"domain_id"}, []role{roleDomain}, []string{"DirtyDomain.DomainID"}},
}

func tableOf(method string) *tableRows {
	for i := range rowTables {
		if rowTables[i].method == method {
			return &rowTables[i]
		}
	}
	return nil
}

func tableNamed(n string) *tableRows {
	for i := range rowTables {
		if rowTables[i].table == n {
			return &rowTables[i]
		}
	}
	return nil
}

func inRowScope(f *ssa.Function) bool {
	pk := pkgOf(f)
	return (pk == updPkg || pk == mysqlPkg || pk == ingPkg || pk == "pkg/util") && f.Synthetic == ""
}

func runRows(p *Prog, r *Rep, thorough bool) {
	checkOrigins(p, r)
	checkColumns(p, r)
	checkSpaces(p, r)
	checkAligned(p, r, checkUnfold(p, r))
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if inRowScope(f) && rowData(p, f) {
			fns = append(fns, f)
		}
	}
	n := checkLossless(p, r, uniqFns(fns))
	r.Floor("loops that carry rows over", n, 4)
	checkVaries(p, r, fns)
	checkHeldBack(p, r)
}

// checkVaries: the attributes recorded for a certificate in a loop come from the element the
// loop is at; and no batch is handed on without its last rows.
func checkVaries(p *Prog, r *Rep, fns []*ssa.Function) {
	for _, f := range fns {
		for h := range elemLoops(f) {
			in := loopBlocks(h)
			inner := true
			for g := range elemLoops(f) {
				inner = inner && (g == h || !in[g])
			}
			if !inner {
				continue
			}
			for b := range in {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || tname(deref(fa.X.Type())) != updPkg+".Certificate" {
						continue
					}
					if _, isC := st.Val.(*ssa.Const); isC {
						continue
					}
					key := "own-attribute:" + fieldName(fa.X.Type(), fa.Field) + "@" + fname(f)
					r.Ob(key, p.pos(st.Pos()), "the attribute recorded for a certificate is the one of the certificate the loop is at")
					varies := false
					inputs([]ssa.Value{st.Val}, func(v ssa.Value) bool {
						switch x := v.(type) {
						case *ssa.Phi:
							varies = varies || x.Block() == h
						case *ssa.Next:
							varies = varies || in[x.Block()]
						case *ssa.UnOp:
							varies = varies || x.Op == token.ARROW && in[x.Block()]
						}
						return !varies
					})
					if !varies {
						r.Bad(key, p.pos(st.Pos()), "every certificate of the loop gets the same value", "")
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !inRowScope(f) || pkgOf(f) == "pkg/util" || topFn(f).Name() == "Qsort" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || sl.High == nil || sl.Low != nil && !isZero(sl.Low) || !bulkRows(sl.Type()) {
					continue
				}
				key := "whole-batch@" + fname(f)
				r.Ob(key, p.pos(sl.Pos()), "a batch is handed on with its last rows")
				if bo, ok := sl.High.(*ssa.BinOp); ok && bo.Op == token.SUB {
					if k, ok := intConst(bo.Y); ok && k > 0 {
						if c, ok := bo.X.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								r.Bad(key, p.pos(sl.Pos()), "the last rows of the batch are cut off", "")
							}
						}
					}
				}
			}
		}
	}
}

// bulkRows: a slice of rows, identifiers, certificates or names.
func bulkRows(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch e := sl.Elem().Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Struct:
		return true
	case *types.Array:
		return e.Len() == 32
	case *types.Pointer:
		return true
	}
	return false
}

// rowData: the function handles certificates, identifiers, names or rows in bulk.
func rowData(p *Prog, f *ssa.Function) bool {
	for _, g := range []string{"ListCsvFiles", "Qsort"} {
		if topFn(f).Name() == g {
			return false
		}
	}
	elem := func(t types.Type) bool {
		e := types.TypeString(t, func(q *types.Package) string { return q.Name() })
		for _, k := range []string{"x509.Certificate", "SHA256Output", "updater.Certificate", "DirtyDomain", "time.Time", "[]string", "[]byte", "PolicyDocument", "DomainEntryRecord"} {
			if strings.Contains(e, k) {
				return true
			}
		}
		return false
	}
	bulk := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && elem(sl.Elem())
	}
	for h, over := range elemLoops(f) {
		if bulk(over.Type()) {
			return true
		}
		for acc, sites := range accums(h, loopBlocks(h)) {
			if bulk(deref(acc.Type())) {
				return true
			}
			for _, st := range sites {
				c, ok := st.(*ssa.Call)
				if !ok {
					continue
				}
				if _, isB := c.Call.Value.(*ssa.Builtin); isB {
					continue
				}
				for _, v := range accumulated(st) {
					if elem(v.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkOrigins: every slice handed to a writing method of the connection holds what its
// column stands for.
func checkOrigins(p *Prog, r *Rep) {
	n := 0
	for _, f := range p.Funcs {
		if isTestSupport(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || !strings.HasPrefix(calleeName(c.Common()), dbConnPkg+".") {
					continue
				}
				t := tableOf(c.Common().Method.Name())
				if t == nil {
					continue
				}
				for i, ro := range t.roles {
					a := argAt(c, i+2)
					if a == nil {
						continue
					}
					n++
					q := newProv(p, rowPrim)
					q.visit(a, nil, "")
					originOb(r, "origin:"+t.table+"."+t.cols[i]+"@"+fname(f), p.pos(c.Pos()), ro, q, t.table+"."+t.cols[i])
				}
			}
		}
	}
	r.Floor("values handed to the connection for a column", n, 5)
	// the structures of the ingest pipeline
	for name, ro := range map[string]role{
		"Certificate.NotAfter": roleExp, "Certificate.Raw": roleRaw, "Certificate.Names": roleName,
		"DirtyDomain.Name": roleName, "DirtyDomain.DomainID": roleDomain,
	} {
		vs := p.fieldStores()[updPkg+"."+name]
		if len(vs) == 0 {
			continue
		}
		q := newProv(p, rowPrim)
		for _, v := range vs {
			q.visit(v, nil, "")
		}
		originOb(r, "origin:"+name+"@"+updPkg, p.pos(vs[0].Pos()), ro, q, name)
	}
	// identifiers of the certificates and chains of the ingest pipeline are hashes
	for _, name := range []string{"Certificate.CertID", "Certificate.ParentID", "DirtyDomain.CertID", "CertWithChainData.CertID", "CertWithChainData.ChainIDs"} {
		vs := p.fieldStores()[updPkg+"."+name]
		if len(vs) == 0 {
			continue
		}
		q := newProv(p, rowPrim)
		for _, v := range vs {
			q.visit(v, nil, "")
		}
		originOb(r, "origin:"+name+"@"+updPkg, p.pos(vs[0].Pos()), role{"a SHA256", func(s string) bool {
			return strings.HasPrefix(s, "sha256(") && !strings.HasPrefix(s, "sha256(sha256(") && !nameRoot(s[7:len(s)-1]) && !strings.Contains(s, "x509.Certificate.") || hashOf(certRaw)(s)
		}}, q, name)
	}
}

func originOb(r *Rep, key, pos string, ro role, q *prov, what string) {
	r.Ob(key, pos, what+" comes from "+ro.what)
	for _, root := range q.list() {
		inner := root
		for strings.HasPrefix(inner, "sha256(") {
			inner = inner[7 : len(inner)-1]
		}
		if strings.HasPrefix(inner, "param:") || strings.HasPrefix(inner, "dyn:") || strings.HasPrefix(inner, "global:") {
			continue // given by the caller, or not followed
		}
		if !ro.ok(root) {
			r.Bad(key, pos, what+" can hold "+root+", which is not "+ro.what, "")
		}
	}
}

// checkColumns: the columns of the rows written out are the parameter (or field) the column
// stands for.
func checkColumns(p *Prog, r *Rep) {
	n := 0
	stmt := regexp.MustCompile(`(?is)(?:INSERT|REPLACE)[A-Z ]*INTO\s+(?:TABLE\s+)?(\w+)\s*\(([^()]*)\)|LOAD DATA.*INTO TABLE\s+(\w+)[^(]*\(([^()]*)\)`)
	for _, t := range rowTables {
		for _, m := range p.Funcs {
			if pkgOf(m) != mysqlPkg || m.Parent() != nil || m.Synthetic != "" || m.Signature.Recv() == nil || m.Name() != t.method {
				continue
			}
			// what the method reaches: the statements and the rows
			fns := p.staticReach(m, mysqlPkg)
			cols := map[string][]string{}
			for _, f := range fns {
				for _, s := range constStrings(f) {
					for _, g := range stmt.FindAllStringSubmatch(s, -1) {
						tb, cl := g[1], g[2]
						if tb == "" {
							tb, cl = g[3], g[4]
						}
						var cs []string
						for _, c := range strings.Split(cl, ",") {
							cs = append(cs, strings.Trim(c, " @`\n\t"))
						}
						key := "table:" + tb + "@" + fname(f)
						r.Ob(key, p.pos(f.Pos()), "the statement "+t.method+" executes writes table "+t.table+" with its columns in the order of the rows")
						n++
						if tb != t.table {
							r.Bad(key, p.pos(f.Pos()), t.method+" writes into table "+tb, "")
							continue
						}
						cols[tb] = cs
						for k := range cs {
							if k >= len(t.cols) && t.table != "dirty" {
								r.Bad(key, p.pos(f.Pos()), "unexpected column "+cs[k], "")
							}
						}
						if strings.Contains(strings.ToUpper(s), "LOAD DATA") {
							for _, as := range regexp.MustCompile(`(?i)(\w+)\s*=\s*FROM_BASE64\(@(\w+)\)`).FindAllStringSubmatch(s, -1) {
								if as[1] != as[2] {
									r.Bad(key, p.pos(f.Pos()), "column "+as[1]+" is set from the field "+as[2], "")
								}
							}
						}
					}
				}
			}
			cs := cols[t.table]
			if cs == nil {
				continue
			}
			for _, f := range fns {
				for _, st := range colStores(f, len(cs)) {
					if st.k >= len(cs) {
						continue
					}
					want := -1
					for i, c := range t.cols {
						if c == cs[st.k] {
							want = i + 2 // receiver, ctx
						}
					}
					key := "column:" + t.table + "." + cs[st.k] + "@" + fname(f)
					n++
					r.Ob(key, p.pos(st.pos), "column "+cs[st.k]+" of "+t.table+" is written from the argument that stands for it")
					got := paramsOf(p, st.vals, m)
					for i := range got {
						if i != want && i > 1 {
							r.Bad(key, p.pos(st.pos), "column "+cs[st.k]+" of "+t.table+" is written from argument "+m.Params[i].Name()+" of "+t.method, "")
						}
					}
				}
			}
		}
	}
	// rows of the ingest pipeline: the file name says which table a file is loaded into
	pre := regexp.MustCompile(`ingest-(\w+)-`)
	for _, f := range p.Funcs {
		if pkgOf(f) != updPkg || f.Parent() != nil {
			continue
		}
		for _, s := range constStrings(f) {
			g := pre.FindStringSubmatch(s)
			if g == nil {
				continue
			}
			t := tableNamed(g[1])
			if t == nil || t.src == nil {
				continue
			}
			for _, rf := range recordFns(p, f) {
				for _, st := range colStores(rf, 0) {
					key := "column:" + t.table + "@" + fname(rf)
					n++
					r.Ob(key, p.pos(st.pos), "the fields of the rows written for table "+t.table+" are in the order of its columns")
					if st.k >= len(t.src) {
						r.Bad(key, p.pos(st.pos), "there is no column for this field", "")
						continue
					}
					for fd := range fieldsOf(p, rf, st.vals) {
						if fd != t.src[st.k] {
							r.Bad(key, p.pos(st.pos), "column "+t.cols[st.k]+" of "+t.table+" is written from "+fd, "")
						}
					}
				}
			}
		}
	}
	// the files loaded into a table are the ones written for it
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || isTestSupport(pkgOf(f)) || !strings.HasPrefix(calleeName(c.Common()), dbConnPkg+".") {
					continue
				}
				want := map[string]string{"InsertCsvIntoCerts": "certs", "InsertCsvIntoDomains": "domains", "InsertCsvIntoDirty": "dirty", "InsertCsvIntoDomainCerts": "domain_certs"}[c.Common().Method.Name()]
				if want == "" {
					continue
				}
				key := "file:" + want + "@" + fname(topFn(f))
				n++
				r.Ob(key, p.pos(c.Pos()), "the file loaded into "+want+" is one that was written for it")
				q := newProv(p, func(string) bool { return false })
				q.consts = true
				q.visit(argAt(c, 2), nil, "")
				if debugRows {
					println("file", key, strings.Join(q.list(), "|"))
				}
				for _, root := range q.list() {
					if g := pre.FindStringSubmatch(root); g != nil && g[1] != want {
						r.Bad(key, p.pos(c.Pos()), "a file written for table "+g[1]+" is loaded into "+want, "")
					}
				}
			}
		}
	}
	// and the statement of each loader names the table of its method
	for method, want := range map[string]string{"InsertCsvIntoCerts": "certs", "InsertCsvIntoDomains": "domains", "InsertCsvIntoDirty": "dirty", "InsertCsvIntoDomainCerts": "domain_certs"} {
		m := p.fn(mysqlPkg + ".(*mysqlDB)." + method)
		if m == nil {
			continue
		}
		for _, f := range p.staticReach(m, mysqlPkg) {
			for _, s := range constStrings(f) {
				for _, g := range stmt.FindAllStringSubmatch(s, -1) {
					tb := g[1] + g[3]
					key := "table:" + tb + "@" + fname(m)
					n++
					r.Require(key, p.pos(f.Pos()), method+" loads table "+want, tb == want, method+" loads table "+tb)
				}
			}
		}
	}
	r.Floor("columns, statements and files matched", n, 10)
}

func constStrings(f *ssa.Function) []string {
	var out []string
	seen := map[string]bool{}
	for _, g := range fnAndClosures(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); !seen[s] {
							seen[s] = true
							out = append(out, s)
						}
					}
				}
			}
		}
	}
	return out
}

// a value written at a column of a row.
type colStore struct {
	k    int
	vals []ssa.Value
	pos  token.Pos
}

// colStores finds the writes row[k] = v, rows[i*N+k] = v and fill(&row[k], v) of f, where a
// row is a slice or array of strings, byte slices or interfaces. n is the number of columns
// (0: not known).
func colStores(f *ssa.Function, n int) []colStore {
	var out []colStore
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !rowElem(ia.X.Type()) || literalOfPrint(ia) {
				continue
			}
			k, ok := column(ia, n)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(ia) {
						out = append(out, colStore{k, []ssa.Value{y.Val}, y.Pos()})
					}
				case *ssa.Call:
					var vs []ssa.Value
					for _, a := range y.Call.Args {
						if a != ssa.Value(ia) {
							vs = append(vs, a)
						}
					}
					if len(vs) > 0 {
						out = append(out, colStore{k, vs, y.Pos()})
					}
				}
			}
		}
	}
	return out
}

// literalOfPrint: the element of an argument list of a call outside the repository.
func literalOfPrint(ia *ssa.IndexAddr) bool {
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if s, ok := u.(*ssa.Slice); ok {
			for _, w := range *s.Referrers() {
				if c, ok := w.(ssa.CallInstruction); ok {
					if b, isB := c.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" {
						continue
					}
					if g := c.Common().StaticCallee(); g == nil || !isRepoFn(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func rowElem(t types.Type) bool {
	var e types.Type
	switch x := deref(t).Underlying().(type) {
	case *types.Slice:
		e = x.Elem()
	case *types.Array:
		e = x.Elem()
	default:
		return false
	}
	switch x := e.Underlying().(type) {
	case *types.Interface:
		return x.Empty()
	case *types.Basic:
		return x.Kind() == types.String
	case *types.Slice:
		b, ok := x.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// column: the constant part of an index k or i*n+k.
func column(ia *ssa.IndexAddr, n int) (int, bool) {
	if k, ok := intConst(ia.Index); ok {
		return int(k), true
	}
	k := int64(0)
	v := ia.Index
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := intConst(b.Y); ok {
			k, v = c, b.X
		} else if c, ok := intConst(b.X); ok {
			k, v = c, b.Y
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.MUL {
		for _, o := range []ssa.Value{b.X, b.Y} {
			if c, ok := intConst(o); ok && (n == 0 || int(c) == n) {
				return int(k), true
			}
		}
	}
	return 0, false
}

// paramsOf: the parameters of method m that the values come from.
func paramsOf(p *Prog, vs []ssa.Value, m *ssa.Function) map[int]bool {
	q := newProv(p, func(string) bool { return false })
	q.stopAt = m
	for _, v := range vs {
		q.visit(v, nil, "")
	}
	out := map[int]bool{}
	for i, pa := range m.Params {
		if q.roots["param:"+pa.Name()] {
			out[i] = true
		}
	}
	return out
}

// fieldsOf: the fields of the row structures that the values come from.
func fieldsOf(p *Prog, f *ssa.Function, vs []ssa.Value) map[string]bool {
	q := newProv(p, func(string) bool { return false })
	q.fieldRoots = true
	for _, v := range vs {
		q.visit(v, nil, "")
	}
	out := map[string]bool{}
	for r := range q.roots {
		for _, pr := range []string{"Certificate.", "DirtyDomain."} {
			if strings.HasPrefix(r, "field:"+updPkg+"."+pr) {
				out[strings.TrimPrefix(r, "field:"+updPkg+".")] = true
			}
		}
	}
	return out
}

// recordFns: the functions that fill one row, among what f calls or hands on.
func recordFns(p *Prog, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function, d int)
	visit = func(g *ssa.Function, d int) {
		if g == nil || seen[g] || d > 4 || pkgOf(g) != updPkg {
			return
		}
		seen[g] = true
		for _, pa := range g.Params {
			n := tname(deref(pa.Type()))
			if n == updPkg+".Certificate" || n == updPkg+".DirtyDomain" {
				out = append(out, g)
			}
		}
		for _, h := range fnAndClosures(g) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil {
							continue
						}
						if k, ok := (*op).(*ssa.Function); ok {
							visit(k, d+1)
						}
					}
				}
			}
		}
	}
	visit(f, 0)
	return out
}
