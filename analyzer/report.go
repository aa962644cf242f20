package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one discharged or failed proof obligation.
type Obl struct {
	Rule, Construct, Where, Detail string
	OK                             bool
}

// Report collects the obligations of one property.
type Report struct {
	w     *World
	ID    string
	Tier  string
	obls  []Obl
	funcs map[string]bool
	notes []string
	seen  map[string]bool
	sites map[siteOf]*bound

	collect map[string][]*Case // summaries instead of comparisons
	refs    map[string][]*Case // summaries to compare with instead of the reviewed ones
}

// check records an obligation: rule applied to construct at where.
func (r *Report) check(ok bool, rule, construct, where, format string, a ...any) bool {
	k := fmt.Sprint(rule, "|", construct, "|", ok)
	if r.seen[k] {
		return ok
	}
	r.seen[k] = true
	r.obls = append(r.obls, Obl{Rule: rule, Construct: construct, Where: where, Detail: fmt.Sprintf(format, a...), OK: ok})
	return ok
}

// analysed records functions which were part of the analysis.
func (r *Report) analysed(fns ...*ssa.Function) {
	for _, f := range fns {
		if f != nil {
			r.funcs[r.w.Name(f)] = true
		}
	}
}

func (r *Report) visited(ip *Interp) {
	r.mergeSites(ip)
	for f := range ip.Visited {
		if r.w.Own(f) {
			r.analysed(f)
		}
	}
}

// floor fails if a rule was applied to fewer constructs than confirmed by hand.
func (r *Report) floor(rule string, n int) {
	c := 0
	for _, o := range r.obls {
		if o.Rule == rule {
			c++
		}
	}
	r.check(c >= n, "instance-floor", rule, "-", "rule %q was applied to %d constructs, at least %d are expected", rule, c, n)
}

func (r *Report) note(format string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(format, a...)) }

// fn resolves an anchor; a missing anchor fails the check.
func (r *Report) fn(name string) *ssa.Function {
	f := r.w.Fn(name)
	if f == nil {
		r.check(false, "anchor", name, "-", "function %s not found", name)
		panic(abort{})
	}
	r.analysed(f)
	return f
}

type abort struct{}

// Property is one check.
type Property struct {
	ID     string
	Title  string
	Rule   string // explanation of the rules
	Run    func(w *World, r *Report)
	Assume []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

//go:embed titles.json
var titlesJSON []byte

// describe fills in title and rule from the table of properties.
func (p *Property) describe() {
	var m map[string]struct{ Title, Rule string }
	json.Unmarshal(titlesJSON, &m)
	if p.Title == "" {
		p.Title = m[p.ID].Title
	}
	if p.Rule == "" {
		p.Rule = m[p.ID].Rule
	}
}

// outcome is what the analysis of a property found.
type outcome struct {
	Obls  []Obl
	Funcs []string
	Notes []string
	Cases map[string][]*Case
}

// analyse applies the rules of a property itself.
func analyse(p *Property, w *World, loadErr error, tier string) *Report {
	r := apply(&Report{}, p, w, loadErr, tier)
	if loadErr == nil && len(w.Restored) > 0 && !w.reviewed && r.failing() > 0 {
		if s := again(p, w, tier); s != nil && s.failing() < r.failing() {
			return s
		}
	}
	return r
}

func (r *Report) failing() int {
	n := 0
	for _, o := range r.obls {
		if !o.OK {
			n++
		}
	}
	return n
}

func apply(r *Report, p *Property, w *World, loadErr error, tier string) *Report {
	*r = Report{collect: r.collect, refs: r.refs, w: w, ID: p.ID, Tier: tier, funcs: map[string]bool{}, seen: map[string]bool{}, sites: map[siteOf]*bound{}}
	if loadErr != nil {
		r.check(false, "load", "program", "-", "the program cannot be analysed: %v", loadErr)
		return r
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			if os.Getenv("TYPASTCHECK_DEBUG") != "" {
				panic(e)
			}
			r.check(false, "analysis", "internal", "-", "analysis failed: %v", e)
		}
	}()
	p.Run(w, r)
	r.bounds()
	return r
}

// startBases starts deciding the properties which the given one rests on: its
// own rules take them for granted, so they are part of it. Each is decided in a
// process of its own.
func startBases(id, repo, verif, tier string) func(*Report) {
	if refWrite != "" {
		return func(*Report) {}
	}
	exe, err := os.Executable()
	out := map[string][]byte{}
	errs := map[string]error{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, b := range restsOn[id] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var o []byte
			e := err
			if e == nil {
				c := exec.Command(exe, "-property", b, "-repo", repo, "-verif", verif, "-tier", tier, "-obligations")
				c.Stderr = os.Stderr
				o, e = c.Output()
			}
			mu.Lock()
			defer mu.Unlock()
			out[b], errs[b] = o, e
		}()
	}
	return func(r *Report) {
		wg.Wait()
		for _, b := range restsOn[id] {
			var o outcome
			err := errs[b]
			if err == nil {
				err = json.Unmarshal(out[b], &o)
			}
			if err != nil {
				r.check(false, "analysis", b, "-", "analysis failed: %v", err)
				continue
			}
			for _, f := range o.Funcs {
				r.funcs[f] = true
			}
			for _, x := range o.Obls {
				x.Rule = "by " + b + ": " + x.Rule
				r.obls = append(r.obls, x)
			}
		}
	}
}

// restsOn lists for each property the ones whose facts it uses.
var restsOn = map[string][]string{
	"T03": {"T02"},
	"T04": {"T02", "T07", "T08", "T32", "T33"},
	"T05": {"T02", "T08", "T09", "T32", "T33"},
	"T06": {"T02", "T08", "T32", "T33"},
	"T07": {"T32", "T33"},
	"T08": {"T32", "T33"},
	"T09": {"T32", "T33"},
	"T10": {"T19", "T32"},
	"T11": {"T02", "T09", "T16", "T17", "T18"},
	"T12": {"T02", "T16", "T17", "T18", "T33"},
	"T13": {"T01", "T02", "T16", "T17", "T18"},
	"T14": {"T02", "T15", "T16", "T17", "T18"},
	"T15": {"T02", "T03", "T16", "T17", "T18", "T27"},
	"T16": {"T02", "T09", "T33"},
	"T17": {"T02", "T19", "T33"},
	"T18": {"T33"},
	"T19": {"T02", "T20", "T22"},
	"T20": {"T19", "T21", "T33"},
	"T21": {"T29", "T30"},
	"T22": {"T11", "T13", "T19", "T20"},
	"T23": {"T32", "T33"},
	"T24": {"T20", "T22", "T23", "T25"},
	"T25": {"T02", "T19"},
	"T26": {"T01", "T02", "T03"},
	"T27": {"T03", "T31", "T32", "T33"},
	"T28": {"T02", "T03", "T25"},
	"T30": {"T29"},
	"T31": {"T32", "T33"},
}

type known struct{ prop, key, text string }

func loadKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key=rule|construct :: text
		rest := strings.TrimPrefix(l, "finding: ")
		hd, text, _ := strings.Cut(rest, " :: ")
		var k known
		k.text = text
		if a, b, ok := strings.Cut(hd, " key="); ok {
			k.prop = strings.TrimPrefix(a, "property=")
			k.key = strings.TrimSpace(b)
		}
		ks = append(ks, k)
	}
	return ks
}

// runProperty runs one check and writes its evidence; it returns the number of
// unlisted violations.
func runProperty(p *Property, w *World, loadErr error, repo, verif, tier string, seed int, start time.Time) int {
	p.describe()
	bases := startBases(p.ID, repo, verif, tier)
	r := analyse(p, w, loadErr, tier)
	bases(r)
	ks := loadKnown(verif)
	fail := 0
	var bad []Obl
	byRule := map[string][2]int{}
	for _, o := range r.obls {
		c := byRule[o.Rule]
		c[0]++
		if o.OK {
			c[1]++
		}
		byRule[o.Rule] = c
		if o.OK {
			continue
		}
		listed := false
		for _, k := range ks {
			if k.prop == p.ID && k.key == o.Rule+"|"+o.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
				listed = true
			}
		}
		if !listed {
			fail++
			bad = append(bad, o)
		}
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, p.ID+".violations.txt")
	os.Remove(replay)
	if fail > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %s\n", p.ID, p.Title)
		fmt.Fprintf(&sb, "re-run: bash run.sh %s %s (deterministic; no input needed)\n", p.ID, tier)
		for _, o := range bad {
			fmt.Fprintf(&sb, "\nrule:      %s\nconstruct: %s\nwhere:     %s\nreport:    %s\n", o.Rule, o.Construct, o.Where, o.Detail)
			fmt.Printf("%s: %s: [%s] %s: %s\n", p.ID, o.Where, o.Rule, o.Construct, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
	}
	var rules []string
	for k, c := range byRule {
		rules = append(rules, fmt.Sprintf("%s: %d/%d", k, c[1], c[0]))
	}
	sort.Strings(rules)
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	nf := len(fns)
	var samples []string
	for _, o := range r.obls {
		// a spread of obligations
		if len(samples) < 12 && (len(r.obls) < 12 || hash(o.Construct)%uint(len(r.obls)/12+1) == 0) {
			samples = append(samples, fmt.Sprintf("[%s] %s @ %s: %s", o.Rule, o.Construct, o.Where, o.Detail))
		}
	}
	ok := 0
	for _, o := range r.obls {
		if o.OK {
			ok++
		}
	}
	if fns == nil {
		fns = []string{}
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":           p.Rule,
			"rule_instances_passed": ok,
			"rule_instances":        len(r.obls),
			"by_rule":               rules,
			"functions_analysed":    nf,
			"functions":             fns,
			"sample_instances":      samples,
			"notes":                 r.notes,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  fail,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if r.notes == nil {
		ev["coverage"].(map[string]any)["notes"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, p.ID+".json"), b, 0o644)
	fmt.Printf("%s: %d/%d obligations hold (%s); %d functions analysed\n", p.ID, ok, len(r.obls), strings.Join(rules, ", "), nf)
	return fail
}

func hash(s string) uint {
	h := uint(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint(s[i])) * 16777619
	}
	return h
}
