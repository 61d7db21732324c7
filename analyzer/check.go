package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule   string
	Where  string // file:line
	Func   string
	Detail string
}

func (f Finding) String() string {
	return fmt.Sprintf("%s: [%s] %s: %s", f.Where, f.Rule, f.Func, f.Detail)
}

// Result is what a check reports.
type Result struct {
	Analysed    int // instances (obligations, sites, cases) of the rule that were examined
	Min         int // fewer than this: the analysis lost its subject
	Functions   map[string]bool
	Counts      map[string]int
	Rules       []string
	Findings    []Finding
	Assumptions []string
	Samples     []string
}

func newResult() *Result {
	return &Result{Functions: map[string]bool{}, Counts: map[string]int{}}
}

func (r *Result) count(k string) { r.Counts[k]++; r.Analysed++ }

func (r *Result) sample(s string) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
}

func (r *Result) bad(p *Program, rule string, pos token.Pos, fn, detail string, args ...interface{}) {
	r.Findings = append(r.Findings, Finding{Rule: rule, Where: p.pos(pos), Func: fn, Detail: fmt.Sprintf(detail, args...)})
}

type checkFn func(c *Check) *Result

type Check struct {
	P    *Program
	Tier string
	ID   string
}

var registry = map[string]checkFn{}

func register(id string, f checkFn) { registry[id] = f }

func knownFindings(id string) []string {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return out
}

var lineNo = regexp.MustCompile(`:\d+`)

func runCheck(p *Program, id, tier string, t0 time.Time) int {
	fn := registry[id]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "ERROR: no check for", id)
		return 2
	}
	res := fn(&Check{P: p, Tier: tier, ID: id})
	if res.Analysed < res.Min {
		res.Findings = append(res.Findings, Finding{Rule: "subject-missing", Where: p.Dir, Func: "-", Detail: fmt.Sprintf("only %d instances of the rule were found, at least %d are expected: the code this property is about is gone", res.Analysed, res.Min)})
	}
	// findings, deduplicated and ordered
	seen := map[string]bool{}
	var fs []Finding
	for _, f := range res.Findings {
		if !seen[f.String()] {
			seen[f.String()] = true
			fs = append(fs, f)
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Where < fs[j].Where })
	var open []Finding
	known := knownFindings(id)
	for _, f := range fs {
		isKnown := false
		for _, k := range known {
			if k == f.Func+" "+f.Rule+" "+f.Detail {
				isKnown = true
			}
		}
		if isKnown {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
		} else {
			open = append(open, f)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fnames []string
	for f := range res.Functions {
		fnames = append(fnames, f)
	}
	sort.Strings(fnames)
	var keys []string
	for k := range res.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	expl := fmt.Sprintf("static analysis of the current source: %d rule instances examined in %d functions, %d without violation. Rules: %s", res.Analysed, len(fnames), res.Analysed-len(fs), strings.Join(res.Rules, "; "))
	cov := map[string]interface{}{
		"explanation": expl,
		"obligations": res.Analysed,
		"discharged":  max(0, res.Analysed-len(fs)),
		"functions":   len(fnames),
		"function_names": fnames,
		"by_kind":     res.Counts,
		"samples":     res.Samples,
		"rule":        strings.Join(res.Rules, "; "),
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(open),
		"assumptions": append([]string{"the dependency DxCommonLib and the Go standard library behave as documented"}, res.Assumptions...),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	bs, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(bs, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d instances in %d functions", id, res.Analysed, len(fnames))
	for _, k := range keys {
		fmt.Printf(", %s %d", k, res.Counts[k])
	}
	fmt.Println()
	rp := filepath.Join(dir, id+".violations.txt")
	os.Remove(rp)
	if len(open) == 0 {
		fmt.Println("OK", id)
		return 0
	}
	var sb strings.Builder
	for _, f := range open {
		sb.WriteString(f.String() + "\n")
		fmt.Println(f)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// ---- entry points -------------------------------------------------------------------------------------------

func apiName(f *ssa.Function) string {
	if !isExported(f) {
		return ""
	}
	return fnName(f)
}

func isDecodeEntry(f *ssa.Function) bool {
	n := apiName(f)
	if n == "" {
		return false
	}
	base := n[strings.LastIndex(n, ".")+1:]
	switch {
	case strings.HasPrefix(base, "NewValueFrom") && base != "NewValueFrom":
		return true
	case strings.HasPrefix(base, "LoadFrom"):
		return true
	case base == "Error" && f.Signature.Recv() != nil:
		return true
	case n == "JsonErrType.String", n == "BsonType.String":
		return true
	}
	return false
}

func isGoValueEntry(f *ssa.Function) bool {
	n := apiName(f)
	switch n {
	case "DxValue.SetValue", "DxValue.SetKeyvalue", "DxValue.SetIndexvalue", "NewValueFrom", "DxValue.ToStdValue", "Marshal", "Unmarshal":
		return true
	}
	return false
}

func (p *Program) entries(sel func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Synthetic == "" && sel(f) {
			out = append(out, f)
		}
	}
	return out
}
