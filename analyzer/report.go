package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one broken obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"msg"`
	Path      []string `json:"path,omitempty"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Construct }

// Check collects the obligations of one property.
type Check struct {
	id          string
	tier        string
	total       int
	okCount     map[string]int
	findings    []Finding
	seen        map[string]bool
	samples     []string
	assumptions []string
	notes       map[string]any
	techniques  string
	progs       map[string]*Prog
	okSeen      map[string]bool
}

func newCheck(id, tier string) *Check {
	return &Check{id: id, tier: tier, okCount: map[string]int{}, seen: map[string]bool{}, notes: map[string]any{},
		progs: map[string]*Prog{}, okSeen: map[string]bool{}}
}

// ok counts a discharged obligation, once per rule and construct.
func (c *Check) ok(rule, construct, pos string) {
	k := rule + "|" + construct
	if c.okSeen[k] {
		return
	}

	c.okSeen[k] = true
	c.okCount[rule]++

	if c.okCount[rule] <= 4 {
		c.samples = append(c.samples, rule+": "+construct+" at "+pos)
	}
}

func (c *Check) fail(rule, construct, pos, msg string, path ...string) {
	f := Finding{Rule: rule, Construct: construct, Pos: pos, Msg: msg, Path: path}
	if c.seen[f.key()] {
		return
	}

	c.seen[f.key()] = true
	c.findings = append(c.findings, f)
}

// want decides one obligation.
func (c *Check) want(good bool, rule, construct, pos, msg string, path ...string) bool {
	if good {
		c.ok(rule, construct, pos)
	} else {
		c.fail(rule, construct, pos, msg, path...)
	}

	return good
}

// atLeast fails when a rule was applied fewer times than confirmed by hand.
func (c *Check) atLeast(rule string, n int) {
	got := c.okCount[rule]
	for _, f := range c.findings {
		if f.Rule == rule {
			got++
		}
	}

	if got < n {
		c.fail("instances", rule, "-", fmt.Sprintf("rule %q was applied to %d constructs, at least %d are known: the anchor of the rule was lost", rule, got, n))
	}
}

func (c *Check) note(k string, v any) { c.notes[k] = v }

func (c *Check) assume(s string) { c.assumptions = append(c.assumptions, s) }

func (c *Check) prog(goos string) *Prog {
	if p := c.progs[goos]; p != nil {
		return p
	}

	p, err := load(goos)
	if err != nil {
		panic(anchorError{err.Error()})
	}

	c.progs[goos] = p

	return p
}

// verifDir is the directory of the framework.
var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}

	return "/verif"
}()

type known struct{ prop, rule, construct string }

// knownFindings reads the lines "finding: property=ID rule=R construct=C ..." of the
// known-findings file; "fixed:" lines suppress nothing.
func knownFindings() []known {
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}

	var out []known

	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(line), "finding: ")
		if !ok {
			continue
		}

		parts := strings.SplitN(rest, " | ", 4)
		if len(parts) < 3 {
			continue
		}

		out = append(out, known{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "rule="), strings.TrimPrefix(parts[2], "construct=")})
	}

	return out
}

// finish writes the evidence, prints the verdict and returns the exit code.
func (c *Check) finish(start time.Time) int {
	sort.Slice(c.findings, func(i, j int) bool { return c.findings[i].key() < c.findings[j].key() })

	kn := knownFindings()

	var open, listed []Finding

	for _, f := range c.findings {
		hit := false

		for _, k := range kn {
			if k.prop == c.id && k.rule == f.Rule && k.construct == f.Construct {
				hit = true
			}
		}

		if hit {
			listed = append(listed, f)
		} else {
			open = append(open, f)
		}
	}

	discharged := 0
	rules := map[string]int{}

	for r, n := range c.okCount {
		discharged += n
		rules[r] = n
	}

	sort.Strings(c.samples)

	cov := map[string]any{
		"explanation":  "static analysis of /repo's current source: each obligation is a rule applied to a construct (function, call site, path, table entry) found through the type-checked program and its SSA form; nothing of bento is executed",
		"obligations":  discharged + len(c.findings),
		"discharged":   discharged,
		"rules":        rules,
		"samples":      c.samples,
		"checker_cmd":  "/verif/check.sh " + c.id,
		"trusted_base": []string{"go/types, golang.org/x/tools/go/ssa and go/packages", "the rules and models in /verif/analyzer"},
	}

	for k, v := range c.notes {
		cov[k] = v
	}

	if p := c.progs["linux"]; p != nil {
		cov["functions_in_scope"] = len(p.all)
	}

	if len(open) > 0 {
		cov["open_findings"] = open
	}

	if len(listed) > 0 {
		cov["known_findings"] = listed
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(open),
		"assumptions": c.assumptions,
	}

	if c.assumptions == nil {
		ev["assumptions"] = []string{}
	}

	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)

	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(data, '\n'), 0o644)

	for _, f := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s at %s: %s\n", c.id, f.Rule, f.Construct, f.Pos, f.Msg)
	}

	os.Remove(filepath.Join(dir, c.id+".violations.txt"))

	if len(open) == 0 {
		fmt.Printf("%s: %d obligations discharged (%v)\n", c.id, discharged, time.Since(start).Round(time.Millisecond))
		return 0
	}

	replay := filepath.Join(dir, c.id+".violations.txt")

	var b strings.Builder

	for _, f := range open {
		fmt.Fprintf(&b, "%s: %s: %s\n    %s\n", f.Pos, f.Rule, f.Construct, f.Msg)

		for _, s := range f.Path {
			fmt.Fprintf(&b, "      %s\n", s)
		}
	}

	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Print(b.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)

	return 1
}
