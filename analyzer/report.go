package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Finding is one construct of the source that breaks (or may break) a rule.
type Finding struct {
	Key   string   `json:"key"` // stable identification (no line numbers)
	Where string   `json:"where"`
	Func  string   `json:"func"`
	What  string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

// Report collects what one check found and covered.
type Report struct {
	mu        sync.Mutex
	Prop      string
	Tier      string
	Seed      int
	Rule      string
	Assume    []string
	viol      []Finding
	seen      map[string]bool
	Undecided []string
	counts    map[string]int
	lists     map[string]map[string]bool
	samples   []string
	oblig     int
	disch     int
	t0        time.Time
}

func newReport(prop, tier string, seed int) *Report {
	return &Report{Prop: prop, Tier: tier, Seed: seed, seen: map[string]bool{}, counts: map[string]int{}, lists: map[string]map[string]bool{}, t0: time.Now()}
}

// ok records a discharged obligation, fail a failed one.
func (r *Report) ok(kind string) { r.okN(kind, 1) }

func (r *Report) okN(kind string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.oblig += n
	r.disch += n
	r.counts[kind] += n
}

func (r *Report) fail(kind string, f Finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.oblig++
	r.counts[kind]++
	if f.Key == "" {
		f.Key = kind + " " + f.Func
	}
	k := f.Key + "|" + f.Where + "|" + f.What
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viol = append(r.viol, f)
}

// check records an obligation.
func (r *Report) check(kind string, ok bool, f Finding) bool {
	if ok {
		r.ok(kind)
	} else {
		r.fail(kind, f)
	}
	return ok
}

// undecided records something the analysis could not settle; it is reported
// in the evidence and is not an alarm.
func (r *Report) undecided(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen["u:"+s] {
		return
	}
	r.seen["u:"+s] = true
	r.Undecided = append(r.Undecided, s)
}

func (r *Report) count(kind string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[kind] += n
}

func (r *Report) list(kind, item string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.lists[kind] == nil {
		r.lists[kind] = map[string]bool{}
	}
	r.lists[kind][item] = true
}

func (r *Report) sample(f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
}

// knownFindings reads the committed list of genuine, unrepaired defects.
func knownFindings(dir, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=C20 key=<key> :: <what fails>
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" key=")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		out[l[:i]] = l[i+4:]
	}
	return out
}

// finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Report) finish(dir string) int {
	known := knownFindings(dir, r.Prop)
	var bad []Finding
	knownHit := map[string]bool{}
	sort.Slice(r.viol, func(i, j int) bool {
		if r.viol[i].Key != r.viol[j].Key {
			return r.viol[i].Key < r.viol[j].Key
		}
		return r.viol[i].Where < r.viol[j].Where
	})
	for _, f := range r.viol {
		if _, ok := known[f.Key]; ok {
			knownHit[f.Key] = true
			continue
		}
		bad = append(bad, f)
	}
	lists := map[string]interface{}{}
	for k, m := range r.lists {
		var l []string
		for x := range m {
			l = append(l, x)
		}
		sort.Strings(l)
		if len(l) > 60 {
			lists[k+" (count)"] = len(l)
			l = l[:60]
		}
		lists[k] = l
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	cov := map[string]interface{}{
		"explanation": r.Rule,
		"obligations": r.oblig,
		"discharged":  r.disch,
		"by_kind":     r.counts,
		"analysed":    lists,
		"undecided":   r.Undecided,
	}
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	if len(kh) > 0 {
		cov["known_findings"] = kh
	}
	if len(bad) > 0 {
		cov["violations"] = bad
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.t0).Seconds(), "violations": len(bad),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", r.Prop+".json"), append(js, '\n'), 0o644)
	for _, k := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, known[k])
	}
	for i, u := range r.Undecided {
		if i >= 20 {
			fmt.Printf("undecided: ... %d more\n", len(r.Undecided)-i)
			break
		}
		fmt.Println("undecided:", u)
	}
	rp := filepath.Join("evidence", r.Prop+".violation.json")
	os.Remove(filepath.Join(dir, rp))
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d undecided=%d in %.1fs\n", r.Prop, r.oblig, r.disch, len(r.Undecided), time.Since(r.t0).Seconds())
		return 0
	}
	js, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(filepath.Join(dir, rp), append(js, '\n'), 0o644)
	for i, f := range bad {
		if i >= 15 {
			fmt.Printf("  ... %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  %s: %s: %s\n", f.Where, f.Func, f.What)
		for _, t := range f.Trace {
			fmt.Println("      ", t)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
