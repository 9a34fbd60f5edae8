package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// checks maps a property to the function that decides it.
var checks = map[string]func(p *Program, r *Report){}

// outOfMemory stops every analysis.
var outOfMemory atomic.Bool

func watchMemory() {
	for {
		time.Sleep(300 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 14<<30 {
			outOfMemory.Store(true)
		}
	}
}

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	go watchMemory()
	repo := flag.String("repo", "/repo", "source tree to analyse")
	out := flag.String("out", ".", "directory of the evidence and of known_findings.txt")
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *prop == "" {
		debugMain(*repo, flag.Args())
		return
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		os.Exit(2)
	}
	limit := 400 * time.Second
	if *tier == "thorough" {
		limit = 700 * time.Second
	}
	runDeadline = time.Now().Add(limit)
	rep := newReport(*prop, *tier, seed)
	p, err := loadProgram(*repo, nil, overlays(*repo, *prop))
	if err != nil {
		rep.fail("build", Finding{Key: "build", Where: *repo, Func: "?", What: "the program does not type-check: " + err.Error()})
		os.Exit(rep.finish(*out))
	}
	rep.count("packages", len(p.Pkgs))
	f(p, rep)
	os.Exit(rep.finish(*out))
}

func debugMain(repo string, args []string) {
	if f := os.Getenv("POWLINT_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
	p, err := loadProgram(repo, nil, overlays(repo, os.Getenv("POWLINT_REF")))
	if err != nil {
		panic(err)
	}
	if len(args) > 0 && args[0] == "entries" {
		for _, e := range p.entries() {
			fmt.Println(e)
		}
		return
	}
	cfg := RunCfg{fixed: map[string]int64{}, rng: map[string]Iv{}}
	if v := os.Getenv("POWLINT_UNROLL"); v != "" {
		fmt.Sscanf(v, "%d,%d,%d", &cfg.unroll, &cfg.unrollP, &cfg.unrollS)
	}
	cfg.free = os.Getenv("POWLINT_FREE") != ""
	if v := os.Getenv("POWLINT_FIXED"); v != "" {
		for _, x := range strings.Split(v, ",") {
			kv := strings.Split(x, "=")
			n, _ := strconv.ParseInt(kv[1], 10, 64)
			cfg.fixed[kv[0]] = n
		}
	}
	e := entry{args[0], args[1], args[2]}
	cfg = clientCfg(e, cfg)
	r := p.run(e, cfg)
	in := r.in
	for i, o := range r.outs {
		fmt.Println("outcome", i)
		for _, v := range o.res {
			s := in.vstr(v)
			if len(s) > 400 {
				s = s[:400]
			}
			fmt.Println("   ", s)
		}
	}
	if r.abort != "" {
		fmt.Println("ABORT", r.abort)
	}
	fmt.Println("time", r.dur, "steps", in.steps, "terms", len(in.T.tab))
	cnt := map[string]int{}
	seen := map[string]bool{}
	for _, ev := range in.events {
		cnt[fmt.Sprintf("%s %v", ev.kind, ev.ok)]++
		if !ev.ok || ev.kind == "unsupported" {
			s := fmt.Sprintf("%s %s %s: %s", ev.kind, in.posStr(ev.pos), ev.fn, ev.msg)
			if !seen[s] {
				seen[s] = true
				fmt.Println("FAIL", s)
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, cnt[k])
	}
}

func init() {
	if f := os.Getenv("POWLINT_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		n, _ := strconv.Atoi(os.Getenv("POWLINT_PROFT"))
		if n == 0 {
			n = 60
		}
		go func() { time.Sleep(time.Duration(n) * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
}
