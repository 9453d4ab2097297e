package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ob is one proof obligation: a rule instantiated at one construct of the repository.
type Ob struct {
	Key  string `json:"key"` // rule@construct, stable under line moves
	Pos  string `json:"pos"`
	Desc string `json:"desc"`
	Bad  string `json:"violation,omitempty"`
	Path string `json:"path,omitempty"`
}

type Rep struct {
	Prop      string
	P         *Prog
	obs       map[string]*Ob
	order     []string
	funcs     map[string]bool
	paths     int
	steps     int
	notes     []string
	undecided []string
	warnings  []string
}

func NewRep(prop string, p *Prog) *Rep {
	return &Rep{Prop: prop, P: p, obs: map[string]*Ob{}, funcs: map[string]bool{}}
}

// Ob registers an obligation (discharged unless Bad is called for the same key).
func (r *Rep) Ob(key, pos, desc string) {
	if _, ok := r.obs[key]; ok {
		return
	}
	r.obs[key] = &Ob{Key: key, Pos: pos, Desc: desc}
	r.order = append(r.order, key)
}

// Bad records that the obligation is violated.
func (r *Rep) Bad(key, pos, msg, path string) {
	o, ok := r.obs[key]
	if !ok {
		r.Ob(key, pos, msg)
		o = r.obs[key]
	}
	if o.Bad == "" {
		o.Bad, o.Path = msg, path
		if pos != "" {
			o.Pos = pos
		}
	}
}

// Require is Ob plus Bad when cond is false.
func (r *Rep) Require(key, pos, desc string, cond bool, msg string) {
	r.Ob(key, pos, desc)
	if !cond {
		r.Bad(key, pos, msg, "")
	}
}

// Floor fails the check when fewer instances than confirmed by hand were found.
func (r *Rep) Floor(what string, got, want int) {
	k := "floor:" + what
	r.Ob(k, "", fmt.Sprintf("at least %d instances of: %s", want, what))
	if got < want {
		r.Bad(k, "", fmt.Sprintf("only %d instances of %q found in the current source, at least %d are needed for the rule to mean anything", got, what, want), "")
	}
}

func (r *Rep) Note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

func (r *Rep) absorb(e *Engine) {
	for f := range e.funcs {
		r.funcs[f] = true
	}
	r.paths += e.paths
	r.steps += e.steps
	if debugSteps != nil && e.steps > 50000 {
		fmt.Fprintf(os.Stderr, "engine steps %d (max %d)\n", e.steps, e.MaxSteps)
	}
	if e.over {
		r.undecided = append(r.undecided, e.overAt)
	}
}

func (r *Rep) count(prefix string) int {
	n := 0
	for k := range r.obs {
		if strings.HasPrefix(k, prefix) {
			n++
		}
	}
	return n
}

type known struct{ prop, key, what string }

func loadKnown(file string) []known {
	var out []known
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k known
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(l, " | ", 3)
		if len(parts) != 3 {
			continue
		}
		k.prop = strings.TrimPrefix(strings.TrimSpace(parts[0]), "property=")
		k.key = strings.TrimPrefix(strings.TrimSpace(parts[1]), "key=")
		k.what = strings.TrimSpace(parts[2])
		out = append(out, k)
	}
	return out
}

// finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Rep) finish(start time.Time, tier string, evidence, knownFile string, lev, explain string, trusted, assumptions []string, verbose bool) int {
	kn := loadKnown(knownFile)
	var bad []*Ob
	nk := 0
	usedKnown := map[string]bool{}
	keys := append([]string(nil), r.order...)
	sort.Strings(keys)
	for _, k := range keys {
		o := r.obs[k]
		if o.Bad == "" {
			continue
		}
		matched := false
		for _, q := range kn {
			if q.prop == r.Prop && q.key == o.Key {
				matched = true
				if !usedKnown[q.key] {
					usedKnown[q.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, q.what, o.Key)
				}
			}
		}
		if matched {
			nk++
			continue
		}
		if len(r.undecided) > 0 && strings.HasPrefix(k, "floor:") {
			continue // nothing counts as missing when the exploration was cut short
		}
		bad = append(bad, o)
	}
	// An exhausted path budget is no violation and no discharge: it is reported as such.
	for _, u := range r.undecided {
		fmt.Printf("UNDECIDED: property=%s path budget exhausted in %s; what was explored up to there held\n", r.Prop, u)
	}
	total := len(r.obs) + len(r.undecided)
	replay := strings.TrimSuffix(evidence, ".json") + ".violation.txt"
	_ = os.Remove(replay)
	if verbose {
		for _, k := range keys {
			o := r.obs[k]
			s := "ok  "
			if o.Bad != "" {
				s = "BAD "
			}
			fmt.Printf("  %s %-60s %s  %s\n", s, o.Key, o.Pos, o.Desc)
		}
	}
	var samples []map[string]string
	for i, k := range keys {
		if i%max(1, len(keys)/40) == 0 {
			o := r.obs[k]
			samples = append(samples, map[string]string{"obligation": o.Key, "at": o.Pos, "rule": o.Desc})
		}
	}
	byRule := map[string]int{}
	for k := range r.obs {
		ru := k
		if i := strings.IndexByte(k, '@'); i > 0 {
			ru = k[:i]
		}
		byRule[ru]++
	}
	cov := map[string]any{
		"explanation":                 explain,
		"obligations":                 total,
		"discharged":                  total - len(bad) - nk - len(r.undecided),
		"undecided":                   len(r.undecided),
		"checker_cmd":                 fmt.Sprintf("/verif/check.sh %s %s", r.Prop, tier),
		"trusted_base":                trusted,
		"obligations_by_rule":         byRule,
		"functions_simulated":         len(r.funcs),
		"paths_to_exit":               r.paths,
		"abstract_steps":              r.steps,
		"known_findings_on_this_tree": nk,
		"obligation_samples":          samples,
		"program":                     fmt.Sprintf("%d packages, %d functions of the repository, type-checked and lowered to SSA from the working tree", len(r.P.Pkgs), len(r.P.Funcs)),
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]any{"property": r.Prop, "tier": tier, "seed": seedEnv(), "level": lev,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad)}
	if len(assumptions) > 0 {
		ev["assumptions"] = assumptions
	}
	if err := os.MkdirAll(filepath.Dir(evidence), 0o755); err == nil {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations; %d functions simulated, %d paths\n",
		r.Prop, total, total-len(bad)-nk-len(r.undecided), nk, len(bad), len(r.funcs), r.paths)
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "property %s violated\n  rule/construct: %s\n  at: %s\n  rule: %s\n  violation: %s\n", r.Prop, o.Key, o.Pos, o.Desc, o.Bad)
		if o.Path != "" {
			fmt.Fprintf(&sb, "  path: %s\n", o.Path)
		}
	}
	fmt.Print(sb.String())
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func seedEnv() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
