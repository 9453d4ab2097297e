package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Check is one property decided by this analyzer.
type Check struct {
	ID          string
	Level       string
	Explain     string
	Trusted     []string
	Assumptions []string
	Run         func(p *Prog, r *Rep, thorough bool)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var defaultTrusted = []string{"go/types and golang.org/x/tools/go/ssa (type checking and lowering)",
	"the path engine of /verif/analyzer (engine.go)", "the rule tables of this property in /verif/analyzer"}

var exitCode int

func main() {
	realMain()
	os.Exit(exitCode)
}

func realMain() {
	prop := flag.String("prop", "", "property id, comma separated list, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	verbose := flag.Bool("v", false, "list obligations")
	ssaDump := flag.String("ssa", "", "dump SSA of a function")
	flag.Parse()
	start := time.Now()
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	p, err := loadProg(*repo)
	if *ssaDump != "" {
		for _, f := range p.Funcs {
			if strings.Contains(fname(f), *ssaDump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if os.Getenv("FPKI_DEBUG") != "" {
		debugSteps = map[string]int{}
		defer func() {
			ks := sortedKeys(debugSteps)
			sort.Slice(ks, func(i, j int) bool { return debugSteps[ks[i]] > debugSteps[ks[j]] })
			for i, k := range ks {
				if i < 25 {
					fmt.Println(debugSteps[k], k)
				}
			}
		}()
	}
	code := 0
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if err != nil {
			ev := filepath.Join(*verif, "evidence", id+".violation.txt")
			_ = os.WriteFile(ev, []byte(err.Error()+"\n"), 0o644)
			fmt.Printf("%s: the program cannot be analysed: %v\nVIOLATION property=%s replay=%s\n", id, err, id, ev)
			code = 1
			continue
		}
		s := start
		if len(ids) > 1 {
			s = time.Now()
		}
		if c := runOne(p, ck, s, *tier, *verif, *verbose); c != 0 {
			code = c
		}
	}
	exitCode = code
}

func runOne(p *Prog, ck *Check, start time.Time, tier, verif string, verbose bool) (code int) {
	r := NewRep(ck.ID, p)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Bad("internal@"+ck.ID, "", fmt.Sprintf("analysis failed: %v\n%s", x, debug.Stack()), "")
			}
		}()
		ck.Run(p, r, tier == "thorough")
	}()
	if len(r.obs) == 0 {
		r.Bad("vacuous@"+ck.ID, "", "no obligation was generated", "")
	}
	lev := ck.Level
	if lev == "" {
		lev = "other"
	}
	tr := ck.Trusted
	if tr == nil {
		tr = defaultTrusted
	}
	return r.finish(start, tier, filepath.Join(verif, "evidence", ck.ID+".json"), filepath.Join(verif, "known_findings.txt"),
		lev, ck.Explain, tr, ck.Assumptions, verbose)
}
