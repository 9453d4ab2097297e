package main

import (
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tri int8

const (
	unk tri = 0
	no  tri = 1 // false / nil
	yes tri = 2 // true / non-nil
)

// AVal is an immutable abstract value: a symbolic term together with what is known about
// it on the current path (nilness, boolean value, constant, closure).
type AVal struct {
	Op    string // head of the term: "call:<callee>", "==", "sel", "phi", ...
	Args  []*AVal
	T     string // canonical term; "" only for the fully unknown value
	Nil   tri    // no = nil, yes = non-nil
	B     tri
	C     constant.Value
	Fn    *ssa.Function // known function value
	Bind  []*AVal
	F     map[string]*AVal // known components that override the term: ".Field", "#0"
	Zero  bool             // zero value of its type
	N     int64            // known length of a slice, 0 if unknown
	depth int
	key   string
}

var maxDepth = 14

func mk(op string, t string, args ...*AVal) *AVal {
	d := 0
	for _, a := range args {
		if a != nil && a.depth > d {
			d = a.depth
		}
	}
	v := &AVal{Op: op, Args: args, T: t, depth: d + 1}
	if v.depth > maxDepth || len(t) > 4000 {
		return &AVal{Op: "top", T: "⊤"}
	}
	return v
}

var topVal = &AVal{Op: "top", T: "⊤"}

func (v *AVal) with(f func(*AVal)) *AVal {
	n := *v
	n.key = ""
	f(&n)
	return &n
}

func (v *AVal) Key() string {
	if v == nil {
		return "_"
	}
	if v.key != "" {
		return v.key
	}
	var sb strings.Builder
	sb.WriteString(v.T)
	sb.WriteByte('|')
	sb.WriteByte('0' + byte(v.Nil))
	sb.WriteByte('0' + byte(v.B))
	if v.Zero {
		sb.WriteByte('z')
	}
	if v.Fn != nil {
		sb.WriteString("f:" + v.Fn.String())
		for _, b := range v.Bind {
			sb.WriteString("," + b.Key())
		}
	}
	if len(v.F) > 0 {
		ks := make([]string, 0, len(v.F))
		for k := range v.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString("{" + k + "=" + v.F[k].Key() + "}")
		}
	}
	v.key = sb.String()
	return v.key
}

// contains reports whether the term of v (or of one of its known components) has s as a
// substring.
func (v *AVal) contains(s string) bool {
	if v == nil {
		return false
	}
	if strings.Contains(v.T, s) {
		return true
	}
	for _, f := range v.F {
		if f.contains(s) {
			return true
		}
	}
	for _, b := range v.Bind {
		if b.contains(s) {
			return true
		}
	}
	return false
}

// Callee is the callee name when v is the result of a call.
func (v *AVal) Callee() string {
	if v != nil && strings.HasPrefix(v.Op, "call:") {
		return v.Op[5:]
	}
	return ""
}

// walk visits the term tree.
func (v *AVal) walk(f func(*AVal) bool) {
	if v == nil || !f(v) {
		return
	}
	for _, a := range v.Args {
		a.walk(f)
	}
	for _, a := range v.F {
		a.walk(f)
	}
}

// mentions reports whether the term tree contains a node satisfying f.
func (v *AVal) mentions(f func(*AVal) bool) bool {
	found := false
	v.walk(func(x *AVal) bool {
		if f(x) {
			found = true
		}
		return !found
	})
	return found
}

func (v *AVal) mentionsCall(names ...string) bool {
	return v.mentions(func(x *AVal) bool {
		c := x.Callee()
		for _, n := range names {
			if c == n && c != "" {
				return true
			}
		}
		return false
	})
}

// State is the rule- and heap-part of the abstract state of one path.
type State struct {
	facts map[string]bool
	mem   map[string]*AVal
	asm   map[string]bool
	trace *traceNode
}

type traceNode struct {
	prev *traceNode
	s    string
	n    int
}

func newState() *State {
	return &State{facts: map[string]bool{}, mem: map[string]*AVal{}, asm: map[string]bool{}}
}

func (s *State) clone() *State {
	n := &State{facts: make(map[string]bool, len(s.facts)), mem: make(map[string]*AVal, len(s.mem)),
		asm: make(map[string]bool, len(s.asm)), trace: s.trace}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.asm {
		n.asm[k] = v
	}
	return n
}

func (s *State) has(f string) bool { return s.facts[f] }
func (s *State) gen(fs ...string) {
	for _, f := range fs {
		if f != "" {
			s.facts[f] = true
		}
	}
}
func (s *State) kill(fs ...string) {
	for _, f := range fs {
		delete(s.facts, f)
	}
}
func (s *State) killPrefix(p string) {
	for k := range s.facts {
		if strings.HasPrefix(k, p) {
			delete(s.facts, k)
		}
	}
}
func (s *State) hasPrefix(p string) bool {
	for k := range s.facts {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

func (s *State) note(t string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
		if s.trace.s == t {
			return
		}
	}
	s.trace = &traceNode{prev: s.trace, s: t, n: n}
}

func (s *State) traceString() string {
	var xs []string
	for t := s.trace; t != nil && len(xs) < 24; t = t.prev {
		xs = append(xs, t.s)
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	return strings.Join(xs, " -> ")
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *State) key() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.facts) {
		sb.WriteString(k)
		sb.WriteByte(';')
	}
	sb.WriteByte('/')
	for _, k := range sortedKeys(s.mem) {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(s.mem[k].Key())
		sb.WriteByte(';')
	}
	sb.WriteByte('/')
	for _, k := range sortedKeys(s.asm) {
		sb.WriteString(k)
		if s.asm[k] {
			sb.WriteString("=1;")
		} else {
			sb.WriteString("=0;")
		}
	}
	return sb.String()
}
