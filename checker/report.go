package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID       string
	Title    string
	Explain  string
	Assume   []string
	Variants []Variant // quick tier; thorough adds Extra
	Extra    []Variant
	Run      func(r *Report, p *Prog)
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// Finding is one undischarged obligation.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Message   string `json:"message"`
	Variant   string `json:"variant"`
}

func (f Finding) Key() string { return f.Rule + " @ " + f.Construct }

// Report accumulates the obligations of one property.
type Report struct {
	Check     *Check
	Tier      string
	P         *Prog
	Oblig     map[string]int // rule → obligations examined
	OK        map[string]int
	Samples   map[string][]string
	Findings  []Finding
	seen      map[string]bool
	Funcs     map[string]bool
	Variants  []string
	Steps     int
	Paths     int
	Widened   int
	mins      map[string]int
	evidence  map[string]any
	rulesText map[string]string
}

func newReport(c *Check, tier string) *Report {
	return &Report{Check: c, Tier: tier, Oblig: map[string]int{}, OK: map[string]int{}, Samples: map[string][]string{}, seen: map[string]bool{}, Funcs: map[string]bool{}, mins: map[string]int{}, evidence: map[string]any{}, rulesText: map[string]string{}}
}

// Rule documents a rule.
func (r *Report) Rule(rule, text string) { r.rulesText[rule] = text }

// Assert records one obligation of a rule about a construct.
func (r *Report) Assert(ok bool, rule, construct string, pos token.Pos, format string, args ...any) bool {
	return r.AssertAt(ok, rule, construct, r.P.Pos(pos), format, args...)
}

func (r *Report) AssertAt(ok bool, rule, construct, where string, format string, args ...any) bool {
	k := r.P.Variant.Name + "|" + rule + "|" + construct + "|" + where + "|" + strconv.FormatBool(ok)
	if r.seen[k] {
		return ok
	}
	r.seen[k] = true
	r.Oblig[rule]++
	if ok {
		r.OK[rule]++
		if len(r.Samples[rule]) < 6 {
			r.Samples[rule] = append(r.Samples[rule], construct+" ("+where+")")
		}
		return true
	}
	f := Finding{Rule: rule, Construct: construct, Where: where, Message: fmt.Sprintf(format, args...), Variant: r.P.Variant.Name}
	r.Findings = append(r.Findings, f)
	return false
}

// Min demands at least n discharged-or-not obligations of a rule per variant.
func (r *Report) Min(rule string, n int) {
	got := 0
	for k := range r.seen {
		parts := strings.SplitN(k, "|", 3)
		if parts[0] == r.P.Variant.Name && parts[1] == rule {
			got++
		}
	}
	if got < n {
		r.Findings = append(r.Findings, Finding{Rule: rule, Construct: "instance-count", Where: "-", Variant: r.P.Variant.Name,
			Message: fmt.Sprintf("rule matched %d constructs, at least %d expected: the guarded construct is gone or no longer recognised", got, n)})
	}
}

// Missing reports an anchor that cannot be resolved.
func (r *Report) Missing(rule, what string) {
	r.AssertAt(false, rule, "anchor "+what, "-", "cannot resolve %s in the current tree", what)
}

// Walk runs a walk and accounts for it.
func (r *Report) Walk(rule *Rule, entry *ssa.Function, init func(*Ctx)) []Exit {
	w := NewWalker(r.P, rule)
	if r.Tier == "thorough" {
		// deeper inlining, and callee exits kept apart longer
		rule.MaxDepth += 6
		rule.MergeLimit *= 3
		rule.Cap *= 2
	}
	ex := w.Run(entry, init)
	r.account(w, entry, rule.Name)
	return ex
}

func (r *Report) account(w *Walker, entry *ssa.Function, name string) {
	r.Steps += w.Steps
	if debugSteps {
		type kv struct {
			k string
			n int
		}
		var l []kv
		for k, n := range w.fnSteps {
			l = append(l, kv{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i := 0; i < 25 && i < len(l); i++ {
			fmt.Fprintln(os.Stderr, name, l[i].k, l[i].n)
		}
	}
	r.Paths += w.Paths
	r.Widened += w.Widened
	r.Funcs[fnLabel(entry)] = true
	for f := range w.Inlined {
		r.Funcs[fnLabel(f)] = true
	}
	if w.Over {
		r.Findings = append(r.Findings, Finding{Rule: name, Construct: "undecided", Where: fnLabel(entry), Variant: r.P.Variant.Name, Message: "state budget exhausted"})
	}
}

func (r *Report) Analysed(fns ...*ssa.Function) {
	for _, f := range fns {
		if f != nil {
			r.Funcs[fnLabel(f)] = true
		}
	}
}

// ---- known findings ---------------------------------------------------------

type known struct {
	prop, key, text string
}

func loadKnown(dir string) []known {
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		// finding: property=C01 key=<rule @ construct> :: description
		rest := strings.TrimPrefix(line, "finding: property=")
		prop, rest, _ := strings.Cut(rest, " key=")
		key, text, _ := strings.Cut(rest, " :: ")
		out = append(out, known{prop, strings.TrimSpace(key), text})
	}
	return out
}

// finish prints the verdict and writes evidence; returns the exit status.
func (r *Report) finish(dir string, start time.Time, seed int, fatal error) int {
	sort.Slice(r.Findings, func(i, j int) bool {
		a, b := r.Findings[i], r.Findings[j]
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		return a.Construct < b.Construct
	})
	id := r.Check.ID
	ks := loadKnown(dir)
	var viol []Finding
	knownHit := map[string]bool{}
	for _, f := range r.Findings {
		hit := false
		for _, k := range ks {
			if k.prop == id && k.key == f.Key() {
				if !knownHit[k.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
				knownHit[k.key] = true
				hit = true
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	if fatal != nil {
		viol = append(viol, Finding{Rule: "load", Construct: "program", Where: "-", Message: fatal.Error()})
	}
	total, okN := 0, 0
	for k, n := range r.Oblig {
		total += n
		okN += r.OK[k]
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rules := map[string]any{}
	for k, n := range r.Oblig {
		rules[k] = map[string]any{"obligations": n, "discharged": r.OK[k], "samples": r.Samples[k], "rule": r.rulesText[k]}
	}
	cov := map[string]any{
		"explanation":        r.Check.Explain,
		"obligations":        total,
		"discharged":         okN,
		"rules":              rules,
		"functions_analysed": fns,
		"functions_count":    len(fns),
		"abstract_steps":     r.Steps,
		"abstract_paths":     r.Paths,
		"widened_states":     r.Widened,
		"variants":           r.Variants,
		"known_findings":     len(knownHit),
	}
	for k, v := range r.evidence {
		cov[k] = v
	}
	ev := map[string]any{
		"property":    id,
		"tier":        r.Tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{"dependencies and the Go runtime behave as documented", "values read twice from the same immutable configuration field are equal"}, r.Check.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, "evidence", id+".violation.txt")
	os.Remove(replay)
	fmt.Printf("%s %s: %d obligations, %d discharged, %d functions, %d abstract steps, variants %v\n", id, r.Check.Title, total, okN, len(fns), r.Steps, r.Variants)
	if os.Getenv("VERIF_VERBOSE") != "" {
		var ks []string
		for k := range r.Oblig {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %-28s %d/%d %v\n", k, r.OK[k], r.Oblig[k], r.Samples[k])
		}
	}
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		s := fmt.Sprintf("[%s] rule=%s construct=%q at %s: %s", f.Variant, f.Rule, f.Construct, f.Where, f.Message)
		fmt.Println("  " + s)
		sb.WriteString(s + "\n")
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
