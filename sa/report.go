package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated (or undecided) obligation. Its identity is
// Rule + Construct, never a line number.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Msg       string `json:"message"`
}

func (f Finding) Key() string { return f.Rule + " " + f.Construct }

// Ctx is handed to one check.
type Ctx struct {
	ID   string
	W    *World
	Tier string

	rules    map[string]*ruleStat
	findings map[string]Finding
	notes    []string
	extra    map[string]any
	analysed map[string]bool
}

type ruleStat struct {
	text    string
	min     int
	count   int
	bad     int
	samples []string
	seen    map[string]bool
}

func newCtx(id string, w *World, tier string) *Ctx {
	return &Ctx{ID: id, W: w, Tier: tier, rules: map[string]*ruleStat{}, findings: map[string]Finding{},
		extra: map[string]any{}, analysed: map[string]bool{}}
}

// Rule declares a rule with its text and the least number of instances
// confirmed by hand: matching fewer means the rule lost its subject.
func (c *Ctx) Rule(rule, text string, min int) {
	c.rules[rule] = &ruleStat{text: text, min: min, seen: map[string]bool{}}
}

func (c *Ctx) stat(rule string) *ruleStat {
	r := c.rules[rule]
	if r == nil {
		panic("undeclared rule " + rule)
	}
	return r
}

// Ob counts one distinct obligation of a rule.
func (c *Ctx) Ob(rule, construct string) {
	r := c.stat(rule)
	if r.seen[construct] {
		return
	}
	r.seen[construct] = true
	r.count++
	if len(r.samples) < 12 {
		r.samples = append(r.samples, construct)
	}
}

// Bad reports a violated obligation.
func (c *Ctx) Bad(rule, construct string, pos token.Pos, format string, args ...any) {
	c.BadAt(rule, construct, c.W.Pos(pos), format, args...)
}

func (c *Ctx) BadAt(rule, construct, where, format string, args ...any) {
	c.Ob(rule, construct)
	f := Finding{Rule: rule, Construct: construct, Where: where, Msg: fmt.Sprintf(format, args...)}
	if _, ok := c.findings[f.Key()]; ok {
		return
	}
	c.findings[f.Key()] = f
	c.stat(rule).bad++
}

func (c *Ctx) Note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}
func (c *Ctx) Analysed(fn string) { c.analysed[fn] = true }

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	if rel, err := filepath.Rel(w.Dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// loadKnown reads the known-findings file: lines
//
//	known: property=<id> rule=<rule> construct=<construct> -- text
//	fixed: property=<id> <commit> text
//
// Only "known:" lines suppress anything, and only that rule and construct.
func loadKnown(file, id string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		body, text, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " -- ")
		if !strings.HasPrefix(body, "property="+id+" ") {
			continue
		}
		body = strings.TrimSpace(strings.TrimPrefix(body, "property="+id+" "))
		r, con, ok := strings.Cut(body, " construct=")
		if !ok || !strings.HasPrefix(r, "rule=") {
			return nil, fmt.Errorf("malformed known-findings line: %s", l)
		}
		out[strings.TrimPrefix(r, "rule=")+" "+strings.TrimSpace(con)] = text
	}
	return out, sc.Err()
}

type checkDef struct {
	id        string
	technique string
	run       func(c *Ctx)
	tags      []string
}

var checks = map[string]*checkDef{}

func register(id, technique string, run func(c *Ctx)) {
	checks[id] = &checkDef{id: id, technique: technique, run: run}
}

func runCheck(id, repo, verif, tier string, seed int) int {
	start := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Fprintf(os.Stderr, "no check %s\n", id)
		return 2
	}
	c := newCtx(id, &World{Dir: repo, Fset: token.NewFileSet()}, tier)
	c.Rule("analysis", "the tree loads, type-checks and is analysed to the end", 0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VSA_PANIC") != "" {
					panic(r)
				}
				c.BadAt("analysis", "panic", "-", "the analyser gave up, so nothing is decided: %v", r)
			}
		}()
		w, err := Load(repo, nil)
		if err != nil {
			c.BadAt("analysis", "load", "-", "%v", err)
			return
		}
		c.W = w
		def.run(c)
		for what := range gaveUp {
			c.BadAt("analysis", what, "-", "the analysis does not follow this construct, so what the code does after it is not decided")
		}
	}()
	known, err := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var ruleNames []string
	for r := range c.rules {
		ruleNames = append(ruleNames, r)
	}
	sort.Strings(ruleNames)
	if len(c.findings) == 0 || c.findings["analysis load"].Rule == "" {
		for _, r := range ruleNames {
			if s := c.rules[r]; s.count < s.min {
				c.BadAt(r, "instance-count", "-", "the rule matched %d constructs, fewer than the %d confirmed by hand: its subject was lost or removed", s.count, s.min)
			}
		}
	}
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol, knownHit []Finding
	for _, k := range keys {
		if _, ok := known[k]; ok {
			knownHit = append(knownHit, c.findings[k])
		} else {
			viol = append(viol, c.findings[k])
		}
	}
	for _, f := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", id, f.Key(), f.Where, f.Msg)
	}
	rules := map[string]any{}
	total, bad := 0, 0
	var samples []string
	for _, r := range ruleNames {
		s := c.rules[r]
		rules[r] = map[string]any{"rule": s.text, "instances": s.count, "violated_or_undecided": s.bad, "confirmed_minimum": s.min}
		total += s.count
		bad += s.bad
		for _, x := range s.samples {
			samples = append(samples, r+": "+x)
		}
	}
	var texts []string
	for _, r := range ruleNames {
		texts = append(texts, r+": "+c.rules[r].text)
	}
	nf := 0
	if c.W != nil {
		nf = len(c.W.Funcs)
	}
	var pkgs []string
	if c.W != nil {
		for _, p := range c.W.Pkgs {
			pkgs = append(pkgs, strings.TrimPrefix(p.PkgPath, modPath+"/"))
		}
	}
	cov := map[string]any{
		"explanation":                "Static analysis of the type-checked and SSA form of the current tree; nothing is executed. Each obligation is one instance of a rule at a named construct; an obligation that cannot be discharged is reported. " + strings.Join(texts, " | "),
		"technique":                  def.technique,
		"packages_loaded":            pkgs,
		"functions_loaded":           nf,
		"functions_analysed_by_rule": len(c.analysed),
		"obligations_total":          total,
		"obligations_not_discharged": bad,
		"known_findings_matched":     len(knownHit),
		"rules":                      rules,
		"obligation_samples":         samples,
		"notes":                      c.notes,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*1000)) / 1000}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replay := filepath.Join("evidence", id+".violations.txt")
	os.Remove(filepath.Join(verif, replay))
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d known=%d functions=%d\n", id, total, len(knownHit), nf)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "Violations of %s in %s (re-run: bash /verif/check.sh %s %s)\n", id, repo, id, tier)
	for _, f := range viol {
		fmt.Fprintf(&sb, "\n%s\n  at %s\n  rule: %s\n  %s\n", f.Key(), f.Where, c.rules[f.Rule].text, f.Msg)
	}
	os.WriteFile(filepath.Join(verif, replay), []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i == 40 {
			fmt.Printf("  ... and %d more in %s\n", len(viol)-i, replay)
			break
		}
		fmt.Printf("  %s at %s: %s\n", f.Key(), f.Where, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
