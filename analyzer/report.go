package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"` // stable key: function / field / SQL statement owner
	Where     string   `json:"where"`
	Detail    string   `json:"detail"`
	Trace     []string `json:"trace,omitempty"`
}

func (f Finding) Key() string { return f.Rule + " " + f.Construct }

// Report collects what one property's rules analysed and found.
type Report struct {
	Prop     string
	P        *Prog
	Findings []Finding
	Oblig    map[string]int // rule -> obligations checked
	Funcs    map[*ssa.Function]bool
	States   int
	Samples  []string
	Assume   []string
	seen     map[string]bool
}

func newReport(p *Prog, prop string) *Report {
	return &Report{Prop: prop, P: p, Oblig: map[string]int{}, Funcs: map[*ssa.Function]bool{}, seen: map[string]bool{}}
}

func (r *Report) Bad(rule, construct, where, detail string, trace ...string) {
	k := rule + "|" + construct + "|" + where
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if len(trace) > 25 {
		trace = trace[len(trace)-25:]
	}
	for i, t := range trace {
		if len(t) > 180 {
			trace[i] = t[:180] + "…"
		}
	}
	r.Findings = append(r.Findings, Finding{rule, construct, where, detail, trace})
}

// Ob counts an obligation examined under a rule.
func (r *Report) Ob(rule string, sample string) {
	r.Oblig[rule]++
	if r.Oblig[rule] <= 3 && sample != "" {
		r.Samples = append(r.Samples, rule+": "+sample)
	}
}

// Floor fails the check when a rule matched fewer instances than were confirmed by hand.
func (r *Report) Floor(rule string, n int) {
	if r.Oblig[rule] < n {
		r.Bad("instances", rule, "-", fmt.Sprintf("rule %s matched %d instances, expected at least %d: the construct it judges is gone", rule, r.Oblig[rule], n))
	}
}

func (r *Report) Touch(fs ...*ssa.Function) {
	for _, f := range fs {
		r.Funcs[f] = true
	}
}

// Fn resolves an anchor function or records that it is missing.
func (r *Report) Fn(name string) *ssa.Function {
	f := r.P.Funcs[name]
	if f == nil || f.Blocks == nil {
		r.Bad("anchor", name, "-", "anchor function not found")
		return nil
	}
	r.Funcs[f] = true
	return f
}

// Explore runs the engine and accounts for it.
func (r *Report) Explore(fn *ssa.Function, q *Query) *Explorer {
	x := r.P.Explore(fn, q)
	r.States += x.States
	x.debugHot()
	for f := range x.Inlined {
		r.Funcs[f] = true
	}
	if x.Over {
		r.Bad("undecided", shortName(fn), r.P.Pos(fn.Pos()), "path exploration exceeded its state limit")
	}
	return x
}

type known struct {
	Property  string `json:"property"`
	Status    string `json:"status"` // "known" or "fixed"
	Rule      string `json:"rule,omitempty"`
	Construct string `json:"construct,omitempty"`
	Where     string `json:"where,omitempty"`
	What      string `json:"what"`
	Commit    string `json:"commit,omitempty"`
}

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

// Finish writes evidence and replay files, prints the verdict, and returns the exit code.
func (r *Report) Finish(verif string, start time.Time, rules []string, tier string, seed int) int {
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	kn := loadKnown(filepath.Join(verif, "known-findings.jsonl"))
	var viol []Finding
	var knownHits []string
	printed := map[string]bool{}
	for _, f := range r.Findings {
		hit := false
		for _, k := range kn {
			if k.Status == "known" && k.Property == r.Prop && k.Rule == f.Rule && k.Construct == f.Construct {
				hit = true
				if !printed[k.Rule+k.Construct] {
					printed[k.Rule+k.Construct] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.Prop, k.What, f.Key(), f.Where)
					knownHits = append(knownHits, f.Key())
				}
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	total := 0
	var names []string
	for k, n := range r.Oblig {
		total += n
		names = append(names, k)
	}
	sort.Strings(names)
	ob := map[string]int{}
	for _, n := range names {
		ob[n] = r.Oblig[n]
	}
	funcs := []string{}
	for f := range r.Funcs {
		funcs = append(funcs, shortName(f))
	}
	sort.Strings(funcs)
	fsample := funcs
	if len(fsample) > 60 {
		fsample = fsample[:60]
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          "Static analysis of the SSA form of /repo's current source; no code is executed. Rules: " + strings.Join(rules, " | "),
			"packages_loaded":      len(r.P.Pkgs),
			"functions_in_program": len(r.P.All),
			"functions_analysed":   len(funcs),
			"function_sample":      fsample,
			"obligations":          total,
			"obligations_by_rule":  ob,
			"path_states":          r.States,
			"samples":              r.Samples,
			"known_findings":       knownHits,
		},
		"assumptions": append([]string{"go/types and go/ssa model the source faithfully", "calls through interfaces outside the module behave as documented"}, r.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
	rp := filepath.Join(verif, "evidence", r.Prop+".replay.json")
	if len(viol) == 0 {
		os.Remove(rp)
		fmt.Printf("OK property=%s obligations=%d functions=%d states=%d wall=%.1fs\n", r.Prop, total, len(funcs), r.States, time.Since(start).Seconds())
		return 0
	}
	b, _ = json.MarshalIndent(viol, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0644)
	for _, f := range viol {
		fmt.Printf("  %s: [%s] %s: %s\n", f.Where, f.Rule, f.Construct, f.Detail)
		for _, t := range f.Trace {
			fmt.Printf("      via %s\n", t)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
