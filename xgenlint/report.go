package main

// Checks, findings, known findings and evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Finding struct {
	Rule      string // which rule of the check
	Construct string // function, call site or path: stable across unrelated edits
	Where     string // file:line
	Msg       string
}

func (f Finding) key() string { return f.Rule + " @ " + f.Construct }

type Report struct {
	Prop      string
	Findings  []Finding
	Undecided []string
	Counts    map[string]int
	Rules     []string
	Samples   []string
	seen      map[string]bool
}

func newReport(p string) *Report {
	return &Report{Prop: p, Counts: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) rule(s string) { r.Rules = append(r.Rules, s) }

func (r *Report) count(k string, n int) { r.Counts[k] += n }

func (r *Report) sample(f string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

func (r *Report) violate(rule, construct, where, f string, a ...interface{}) {
	x := Finding{rule, construct, where, fmt.Sprintf(f, a...)}
	if r.seen[x.key()] {
		return
	}
	r.seen[x.key()] = true
	r.Findings = append(r.Findings, x)
}

func (r *Report) undecided(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if r.seen["u:"+s] {
		return
	}
	r.seen["u:"+s] = true
	r.Undecided = append(r.Undecided, s)
}

// require reports the disappearance of what a rule is about.
func (r *Report) require(n int, what string) bool {
	if n == 0 {
		r.violate("anchor", what, "", "nothing left to check: no %s found in the source", what)
		return false
	}
	return true
}

type Check struct {
	ID   string
	What string
	Run  func(an *Analyzer, r *Report)
}

var checks []Check

func register(id, what string, run func(an *Analyzer, r *Report)) {
	checks = append(checks, Check{id, what, run})
}

type known struct{ prop, key, text string }

func loadKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " ", 2)
		if len(p) != 2 || !strings.HasPrefix(p[1], "key=[") {
			return nil, fmt.Errorf("malformed line %q", l)
		}
		q := strings.SplitN(p[1][5:], "] ", 2)
		if len(q) != 2 {
			return nil, fmt.Errorf("malformed line %q", l)
		}
		out = append(out, known{p[0], q[0], q[1]})
	}
	return out, sc.Err()
}

func verifDir() string {
	if d := os.Getenv("XGENLINT_HOME"); d != "" {
		return d
	}
	return "/verif"
}

func tier() string {
	if t := os.Getenv("XGENLINT_TIER"); t != "" {
		return t
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func runCheck(c Check, an *Analyzer, loadErr error) *Report {
	r := newReport(c.ID)
	if loadErr != nil {
		r.violate("build", "package", "", "the source does not type-check: %v", loadErr)
		return r
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(undecided); ok {
					r.undecided("analysis stopped: %s", u.msg)
					return
				}
				// a failure of the analyser itself says nothing about the source
				r.undecided("analyser error: %v %s", e, firstFrames(string(debug.Stack())))
			}
		}()
		c.Run(an, r)
	}()
	return r
}

func firstFrames(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/xgenlint/") {
			out = append(out, filepath.Base(strings.TrimSpace(l)))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

// finish prints the verdict and writes the evidence; it returns the exit status.
func finish(c Check, an *Analyzer, r *Report, t0 time.Time) int {
	ks, err := loadKnown(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		fmt.Println("known findings:", err)
	}
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].key() < r.Findings[j].key() })
	var fresh, old []Finding
	for _, f := range r.Findings {
		hit := ""
		for _, k := range ks {
			if k.prop == r.Prop && k.key == f.key() {
				hit = k.text
			}
		}
		if hit != "" {
			old = append(old, f)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; %s)\n", r.Prop, hit, f.Construct, f.Where)
		} else {
			fresh = append(fresh, f)
		}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	viol := filepath.Join(dir, r.Prop+"-violation.txt")
	os.Remove(viol)
	if len(fresh) > 0 {
		var b strings.Builder
		for _, f := range fresh {
			fmt.Fprintf(&b, "%s\n  rule:      %s\n  construct: %s\n  found:     %s\n\n", f.Where, f.Rule, f.Construct, f.Msg)
		}
		fmt.Fprintf(&b, "Re-run: %s\n", "XGENLINT_TIER="+tier()+" sh "+filepath.Join(verifDir(), "check.sh")+" "+r.Prop)
		os.WriteFile(viol, []byte(b.String()), 0o644)
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, viol)
	}
	for _, u := range r.Undecided {
		fmt.Println("undecided:", u)
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier(), "seed": seed(), "level": "other",
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	cov := map[string]interface{}{
		"explanation": c.What,
		"rules":       r.Rules,
		"measured":    r.Counts,
		"samples":     r.Samples,
		"undecided":   r.Undecided,
		"known":       len(old),
	}
	if an != nil {
		cov["functions_in_module"] = len(an.funcs)
		cov["functions_interpreted"] = len(an.analysed)
		cov["partitions_explored_steps"] = an.steps
	}
	ev["coverage"] = cov
	ev["assumptions"] = []string{
		"the analyser's models of the standard library functions the code calls (models.go) describe them correctly",
		"summaries of loops generalise one arbitrary iteration; what they cannot express is reported as undecided, not as a violation",
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	if len(fresh) > 0 {
		return 1
	}
	var cs []string
	for _, k := range sortedKeys(countSet(r.Counts)) {
		cs = append(cs, fmt.Sprintf("%s=%d", k, r.Counts[k]))
	}
	fmt.Printf("%s held: %s (%d undecided, %d known findings)\n", r.Prop, strings.Join(cs, " "), len(r.Undecided), len(old))
	return 0
}

func countSet(m map[string]int) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}
