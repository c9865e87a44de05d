package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type KnownFinding struct {
	Property string
	Key      string // harness:label
	Text     string
}

func readKnown(path, prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 key=CheckX:label what fails
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 || f[0] != "property="+prop {
			continue
		}
		r[strings.TrimPrefix(f[1], "key=")] = f[2]
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "only this harness function")
	nw := flag.Int("workers", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Int("budget", 0, "total seconds for exploration")
	noNative := flag.Bool("nonative", false, "skip native replay")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	debug.SetGCPercent(200)
	if f := os.Getenv("ENGINE_HEAP"); f != "" {
		go func() {
			time.Sleep(40 * time.Second)
			w, _ := os.Create(f)
			runtime.GC()
			pprof.WriteHeapProfile(w)
			w.Close()
		}()
	}
	code := run(*prop, *tier, *repo, *verif, *only, *nw, *verbose, *budget, *noNative)
	os.Exit(code)
}

type harnessReport struct {
	Name       string            `json:"harness"`
	Paths      int64             `json:"paths"`
	Infeasible int64             `json:"infeasible_paths"`
	Inconcl    int64             `json:"inconclusive_paths"`
	Decisions  int64             `json:"decisions"`
	Asserts    int64             `json:"assertion_queries"`
	Discharged int64             `json:"discharged"`
	Steps      int64             `json:"instructions"`
	Exhausted  bool              `json:"exhausted_within_bounds"`
	Missing    []string          `json:"unreached_points,omitempty"`
	Wall       float64           `json:"wall_s"`
	InconclWhy map[string]int    `json:"inconclusive_reasons,omitempty"`
	Schedules  int64             `json:"multi_goroutine_paths"`
	Options    map[string]string `json:"options,omitempty"`
}

func run(prop, tier, repo, verif, only string, nw int, verbose bool, budget int, noNative bool) int {
	t0 := time.Now()
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	pkg := strings.ToLower(prop)
	prog, err := loadProgram(repo, verif, pkg)
	if err != nil {
		fmt.Println("cannot load the code:", err)
		return 2
	}
	if verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	bin := "/usr/local/bin/z3-new"
	if _, err := os.Stat(bin); err != nil {
		bin = "z3"
	}
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		bin = b
	}
	ex := &Explorer{prog: prog, tier: tier, seed: seed, bounds: map[string]int64{}, racy: map[*cinstr]bool{}, known: map[string]bool{}, notes: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	for k := range known {
		ex.known[k] = true
	}
	for i := 0; i < nw; i++ {
		s, err := NewSolver(bin, 20000)
		if err != nil {
			fmt.Println("cannot start the solver:", err)
			return 2
		}
		ex.workers = append(ex.workers, &Worker{ex: ex, sol: s, fnSeen: map[*cfn]int64{}, id: i})
	}
	defer func() {
		for _, w := range ex.workers {
			w.sol.Close()
		}
	}()
	var reports []*harnessReport
	allViol := map[string][]*Violation{}
	var allSamples []*Sample
	var hs []*Harness
	for _, fn := range prog.harnessFuncs() {
		h := parseHarness(fn, prog.docs[fn.Name()], tier)
		if only != "" && h.name != only {
			continue
		}
		if h.quickSkip && tier == "quick" {
			continue
		}
		h.labels = reachLabels(fn)
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	total := 600
	if tier == "thorough" {
		total = 3000
	}
	if budget > 0 {
		total = budget
	}
	deadline := t0.Add(time.Duration(total) * time.Second)
	unexplored := 0
	stopAll := false
	for _, h := range hs {
		if stopAll {
			break
		}
		ht := time.Now()
		left := int(time.Until(deadline).Seconds())
		tm := h.timeS
		if tier == "thorough" {
			tm = h.timeS * 6
		}
		if tm > left {
			tm = left
		}
		if tm < 5 {
			tm = 5
		}
		for restart := 0; ; restart++ {
			ex.paths, ex.infeas, ex.inconclPaths, ex.steps, ex.decisions, ex.asserts, ex.discharged, ex.schedPaths, ex.nsample = 0, 0, 0, 0, 0, 0, 0, 0, 0
			ex.inconcl = map[string]int{}
			ex.reached = map[string]int{}
			ex.viol = map[string][]*Violation{}
			ex.samples = nil
			ex.rng = rand.New(rand.NewSource(seed))
			ex.racyNew = false
			ex.explore(h, tm)
			if ex.racyNew && restart < 6 {
				for ci := range ex.racy {
					ci.racy = true
				}
				continue
			}
			break
		}
		r := &harnessReport{Name: h.name, Paths: ex.paths, Infeasible: ex.infeas, Inconcl: ex.inconclPaths, Decisions: ex.decisions, Asserts: ex.asserts, Discharged: ex.discharged,
			Steps: ex.steps, Exhausted: !ex.timeUp && len(ex.work) == 0 && ex.inconclPaths == 0, Wall: time.Since(ht).Seconds(), InconclWhy: ex.inconcl, Schedules: ex.schedPaths, Options: h.opts}
		if ex.timeUp {
			unexplored++
		}
		for _, l := range h.labels {
			if ex.reached[l] == 0 {
				r.Missing = append(r.Missing, l)
			}
		}
		reports = append(reports, r)
		for k, v := range ex.viol {
			allViol[k] = append(allViol[k], v...)
			if !ex.known[k] && len(v) > 0 {
				stopAll = true
			}
		}
		allSamples = append(allSamples, ex.samples...)
		if verbose {
			fmt.Printf("%-40s paths %d infeasible %d inconclusive %d decisions %d asserts %d/%d steps %d  %.1fs exhausted=%v\n", h.name, r.Paths, r.Infeasible, r.Inconcl, r.Decisions, r.Discharged, r.Asserts, r.Steps, r.Wall, r.Exhausted)
			for k, n := range ex.inconcl {
				fmt.Printf("    inconclusive x%d: %s\n", n, k)
			}
			if len(r.Missing) > 0 {
				fmt.Println("    NOT REACHED:", r.Missing)
			}
			for k, vs := range ex.viol {
				v := vs[0]
				fmt.Printf("    CANDIDATE %s x%d: %s\n", k, len(vs), v.Msg)
				for _, i := range v.Inputs {
					fmt.Printf("      %s=%d", i.Name, int64(i.Val))
				}
				fmt.Println()
				for _, s := range v.Stack {
					fmt.Println("      at", s)
				}
				for _, s := range v.Trace {
					fmt.Println("      sched", s)
				}
				for _, s := range v.Obs {
					fmt.Println("      obs", s)
				}
			}
		}
	}
	if verbose {
		for k, n := range ex.notes {
			fmt.Printf("note x%d: %s\n", n, k)
		}
	}
	// native replay: validation of the translation, and confirmation of counterexamples
	nat := &Native{repo: repo, verif: verif, pkg: pkg, tier: tier, hs: hs}
	validated, mismatches := 0, []string{}
	natErr := ""
	needNative := !noNative
	if needNative {
		if err := nat.build(); err != nil {
			natErr = err.Error()
			fmt.Println("native build failed:", natErr)
		}
		defer nat.clean()
	}
	noReplay := map[string]bool{}
	for _, h := range hs {
		if !h.native {
			noReplay[h.name] = true
		}
	}
	if needNative && natErr == "" {
		var cases []*Sample
		for _, s := range allSamples {
			if !s.Sched && !noReplay[s.Harness] {
				cases = append(cases, s)
			}
		}
		validated, mismatches = nat.validate(cases)
	}
	if verbose {
		fmt.Printf("validated %d paths natively, %d mismatches\n", validated, len(mismatches))
		for _, x := range mismatches {
			fmt.Println("  MISMATCH", x)
		}
	}
	exit := 0
	nviol := 0
	var unconfirmed []string
	keys := sortedKeys(allViol)
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	printedKnown := map[string]bool{}
	for _, k := range keys {
		vs := allViol[k]
		if text, ok := known[k]; ok {
			if !printedKnown[k] {
				printedKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, text)
			}
			continue
		}
		var conf *Violation
		how := ""
		for _, v := range vs {
			if v.Sched || noReplay[v.Harness] {
				conf, how = v, "re-executed on its schedule by the engine"
				if needNative && natErr == "" && !noReplay[v.Harness] {
					how += "; " + nat.stress(v)
				}
				break
			}
			if !needNative || natErr != "" {
				conf, how = v, "not replayed natively"
				break
			}
			ok, out := nat.confirm(v)
			if ok {
				conf, how = v, "reproduced by the compiled code: "+out
				break
			}
			unconfirmed = append(unconfirmed, k+": native run ended with "+out)
		}
		if conf == nil {
			continue
		}
		exit = 1
		nviol++
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s.json", prop, sanitize(k)))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": conf.Harness, "label": conf.Label, "kind": conf.Kind, "message": conf.Msg,
			"inputs": conf.Inputs, "schedule": conf.Trace, "stack": conf.Stack, "decisions": conf.Dec, "observations": conf.Obs, "confirmation": how, "tier": tier}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s: %s (%s)\n", k, conf.Msg, how)
		var in []string
		for _, i := range conf.Inputs {
			in = append(in, fmt.Sprintf("%s=%d", i.Name, int64(i.Val)))
		}
		fmt.Println("  inputs:", strings.Join(in, " "))
	}
	for _, u := range unconfirmed {
		fmt.Println("unconfirmed counterexample (not reported):", u)
	}
	writeEvidence(prop, tier, seed, verif, ex, reports, allSamples, validated, mismatches, natErr, nviol, unconfirmed, known, printedKnown, time.Since(t0).Seconds(), bin)
	var tot, inc int64
	exh := true
	for _, r := range reports {
		tot += r.Paths
		inc += r.Inconcl
		exh = exh && r.Exhausted
	}
	if exit == 0 {
		fmt.Printf("property %s held on %d path classes (%d harnesses, inconclusive %d, exhausted within bounds: %v), %.1fs\n", prop, tot, len(reports), inc, exh, time.Since(t0).Seconds())
	}
	return exit
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func reachLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := c.Common().StaticCallee()
				if cf == nil {
					continue
				}
				switch cf.String() {
				case symPath + ".Reach":
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						v := constValue(k)
						labels[cs(v)] = true
					}
				case symPath + ".Assert":
					if k, ok := c.Common().Args[1].(*ssa.Const); ok {
						labels["assert:"+cs(constValue(k))] = true
					}
				default:
					if cf.Pkg == fn.Pkg {
						walk(cf)
					}
				}
			}
		}
	}
	walk(fn)
	return sortedKeys(labels)
}

// ---- native side ----

type Native struct {
	repo, verif, pkg, tier string
	hs                     []*Harness
	dir, bin               string
}

func (n *Native) build() error {
	d, err := os.MkdirTemp("", "verif-native")
	if err != nil {
		return err
	}
	n.dir = d
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"time\"\n\th \"" + harnessPath + "/" + n.pkg + "\"\n\tsym \"" + symPath + "\"\n)\n\n")
	sb.WriteString("var fns = map[string]func(){\n")
	for _, h := range n.hs {
		sb.WriteString(fmt.Sprintf("\t%q: h.%s,\n", h.name, h.name))
	}
	sb.WriteString(`}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []sym.Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	for i, c := range cs {
		r := sym.RunCase(c, fns[c.Harness], 15*time.Second)
		fmt.Printf("CASE %d %q\n", i, r)
		fmt.Print(sym.Out.String())
		fmt.Println("END")
	}
}
`)
	main := filepath.Join(d, "main.go")
	os.WriteFile(main, []byte(sb.String()), 0o644)
	ov := map[string]map[string]string{"Replace": {}}
	for v, r := range overlayFiles(n.repo, n.verif) {
		ov["Replace"][v] = r
	}
	ov["Replace"][filepath.Join(n.repo, "internal/verif_main/main.go")] = main
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(d, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	n.bin = filepath.Join(d, "native")
	cmd := exec.Command("go", "build", "-tags=verif", "-overlay", ovf, "-o", n.bin, "./internal/verif_main")
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func (n *Native) clean() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type natCase struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []InputVal `json:"inputs"`
}

func (n *Native) runCases(cs []natCase, tmo time.Duration) (string, error) {
	f := filepath.Join(n.dir, "cases.json")
	b, _ := json.Marshal(cs)
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(n.bin, f)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	cmd.Dir = n.dir
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		s := out.String()
		if err != nil {
			e := er.String()
			if len(e) > 600 {
				e = e[:600]
			}
			s += "\nCRASH " + e
		}
		return s, nil
	case <-time.After(tmo):
		cmd.Process.Kill()
		<-done
		return out.String() + "\nCRASH timeout", nil
	}
}

func parseCases(out string) (res []string, obs [][]string, crash string) {
	var cur []string
	in := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "CASE "):
			var i int
			var r string
			fmt.Sscanf(l, "CASE %d %q", &i, &r)
			res = append(res, r)
			cur = nil
			in = true
		case l == "END" && in:
			obs = append(obs, cur)
			in = false
		case strings.HasPrefix(l, "CRASH "):
			i := strings.Index(out, "CRASH ")
			crash = out[i+6:]
			return
		case in:
			cur = append(cur, l)
		}
	}
	return
}

func (n *Native) validate(ss []*Sample) (int, []string) {
	if len(ss) == 0 {
		return 0, nil
	}
	var cs []natCase
	for _, s := range ss {
		cs = append(cs, natCase{s.Harness, n.tier, s.Inputs})
	}
	out, err := n.runCases(cs, 120*time.Second)
	if err != nil {
		return 0, []string{err.Error()}
	}
	res, obs, crash := parseCases(out)
	var bad []string
	ok := 0
	for i, s := range ss {
		if i >= len(res) || i >= len(obs) {
			bad = append(bad, fmt.Sprintf("%s: no native result (%s)", s.Harness, crash))
			break
		}
		if res[i] != "done" {
			bad = append(bad, fmt.Sprintf("%s inputs %v: engine finished, native run: %s", s.Harness, s.Inputs, res[i]))
			continue
		}
		if strings.Join(obs[i], "\n") != strings.Join(s.Obs, "\n") && !strings.Contains(strings.Join(s.Obs, "\n"), "\"?\"") {
			bad = append(bad, fmt.Sprintf("%s inputs %v: observations differ: engine %q native %q", s.Harness, s.Inputs, s.Obs, obs[i]))
			continue
		}
		ok++
	}
	return ok, bad
}

// confirm replays one sequential counterexample.
func (n *Native) confirm(v *Violation) (bool, string) {
	out, err := n.runCases([]natCase{{v.Harness, n.tier, v.Inputs}}, 40*time.Second)
	if err != nil {
		return false, err.Error()
	}
	res, _, crash := parseCases(out)
	r := ""
	if len(res) > 0 {
		r = res[0]
	} else if crash != "" {
		r = "crash: " + crash
	}
	switch v.Kind {
	case "assert":
		return r == "assert:"+v.Label, r
	case "panic":
		return strings.HasPrefix(r, "panic:") && !strings.HasPrefix(r, "panic:verif:") || strings.HasPrefix(r, "crash:"), r
	case "hang":
		return r == "hang" || strings.Contains(r, "deadlock") || strings.Contains(r, "timeout"), r
	}
	return false, r
}

// stress tries to reproduce a concurrent counterexample natively; it only informs.
func (n *Native) stress(v *Violation) string {
	var cs []natCase
	for i := 0; i < 30; i++ {
		cs = append(cs, natCase{v.Harness, n.tier, v.Inputs})
	}
	out, err := n.runCases(cs, 60*time.Second)
	if err != nil {
		return err.Error()
	}
	res, _, crash := parseCases(out)
	c := map[string]int{}
	for _, r := range res {
		c[r]++
	}
	var p []string
	for _, k := range sortedKeys(c) {
		p = append(p, fmt.Sprintf("%s x%d", k, c[k]))
	}
	s := "native stress runs: " + strings.Join(p, ", ")
	if crash != "" {
		s += " crash " + strings.SplitN(crash, "\n", 2)[0]
	}
	return s
}

func writeEvidence(prop, tier string, seed int64, verif string, ex *Explorer, reports []*harnessReport, samples []*Sample, validated int, mism []string, natErr string, nviol int,
	unconfirmed []string, known map[string]string, printed map[string]bool, wall float64, bin string) {
	var paths, states, trans, asserts, disch, q, sat, unsat, unk, inc int64
	var st time.Duration
	for _, r := range reports {
		paths += r.Paths
		states += r.Decisions + r.Paths
		trans += r.Decisions
		asserts += r.Asserts
		disch += r.Discharged
		inc += r.Inconcl
	}
	fns := map[string]int64{}
	for _, w := range ex.workers {
		q += w.sol.queries
		sat += w.sol.sat
		unsat += w.sol.unsat
		unk += w.sol.unknown
		st += w.sol.tm
		for cf, n := range w.fnSeen {
			if cf.willow && !strings.Contains(cf.name, "verif_harness") {
				fns[strings.ReplaceAll(cf.name, modPath+"/", "")] += n
			}
		}
	}
	var sm []any
	for i, s := range samples {
		if i >= 12 {
			break
		}
		sm = append(sm, map[string]any{"harness": s.Harness, "inputs": s.Inputs, "observations": s.Obs, "path_condition_terms": s.PC, "multi_goroutine": s.Sched})
	}
	var notes []string
	for k, n := range ex.notes {
		notes = append(notes, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(notes)
	exh := true
	for _, r := range reports {
		exh = exh && r.Exhausted
	}
	names := sortedKeys(fns)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": sm,
			"paths": paths, "inconclusive_paths": inc, "exhaustive": exh, "harnesses": reports, "bounds": ex.bounds,
			"assertions_evaluated": asserts, "assertions_discharged": disch,
			"solver": bin, "solver_queries": q, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_time_s": st.Seconds(),
			"functions_encoded": names, "functions_encoded_count": len(names),
			"translation_mismatches": mism, "native_build_error": natErr, "unconfirmed_counterexamples": unconfirmed,
			"known_findings_seen": sortedKeys(printed), "notes": notes,
		},
		"assumptions": []string{
			"symbolic execution of go/ssa built from the working tree; states = path-condition nodes, transitions = solver- or choice-decided branches",
			"time, randomness, identifiers, logging, formatting and JSON text are modelled by contract (DESIGN.md, stubs)",
			"goroutines interleave at synchronisation operations and at accesses found to race, within the stated deviation bound",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}
