package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type stageCfg struct {
	Func   string           `json:"func"`
	Params map[string]int64 `json:"params"`
	Tier   string           `json:"tier"` // "" both, quick, thorough
	Base   bool             `json:"base"` // must complete
	Solver string           `json:"solver"`
	Bound  string           `json:"bound"` // in words
}

type propCfg struct {
	Harnesses   []stageCfg `json:"harnesses"`
	QuickS      float64    `json:"quick_s"`
	ThoroughS   float64    `json:"thorough_s"`
	Assumptions []string   `json:"assumptions"`
}

func writeJSON(f string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, append(b, '\n'), 0o644)
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

var verifDir = "/verif"
var repoDir = "/repo"

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: engine check|run|replay ...")
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		// only for trying planted bugs in a scratch copy
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

type paramFlag map[string]int64

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("want k=v")
	}
	n, err := strconv.ParseInt(v, 10, 64)
	p[k] = n
	return err
}

func defaultCfg() *runCfg {
	return &runCfg{workers: 8, solver: "z3", timeoutMS: 60000, maxSteps: 6_000_000, samples: 24, seed: 1}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	fn := fs.String("func", "", "harness function")
	w := fs.Int("workers", 8, "")
	secs := fs.Float64("secs", 120, "")
	solver := fs.String("solver", "z3", "")
	smt := fs.String("smtlog", "", "")
	nonative := fs.Bool("nonative", false, "")
	pf := paramFlag{}
	fs.Var(pf, "p", "param k=v")
	fs.Parse(args)
	t0 := time.Now()
	p, err := loadProgram(verifDir, repoDir)
	if err != nil {
		die(2, "%v", err)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	cfg := defaultCfg()
	cfg.workers = *w
	cfg.solver = *solver
	cfg.smtlog = *smt
	for _, f := range strings.Split(*fn, ",") {
		cfg.deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
		h := &Harness{Name: f, Func: f, Params: pf}
		res := runHarness(p, h, cfg)
		printRes(res)
		if res.Viol != nil || !*nonative {
			nat := startNative()
			defer nat.cleanup()
			if res.Viol != nil {
				fmt.Println(nat.confirm(h, res.Viol))
			} else if !*nonative {
				v, n, err := nat.validate(h, res.Samples)
				fmt.Println("native:", n, v, err)
			}
			nat.cleanup()
		}
	}
}

func printRes(res *HarnessResult) {
	s := &res.Stats
	fmt.Printf("%s %v: paths=%d completed=%d pruned=%d branches=%d implied=%d choices=%d asserts=%d folded=%d aq=%d unknown=%d steps=%d depth=%d queries=%d solver=%.1fs wall=%.1fs timeout=%v reached=%v\n",
		res.Harness.Func, res.Harness.Params, s.Paths, s.Completed, s.Pruned, s.Branches, s.Implied, s.Choices, s.Asserts, s.AssertsFolded, s.AssertQueries, s.Unknown, s.Steps, s.MaxDepth, s.Queries, float64(s.SolverNS)/1e9, res.Wall.Seconds(), res.TimedOut, keys(res.Reached))
	if res.Err != "" {
		fmt.Println("ERROR:", res.Err)
	}
	if v := res.Viol; v != nil {
		fmt.Printf("CANDIDATE %s: %s\n inputs %v sched %v\n%s\n", v.Kind, v.Msg, v.Inputs, v.Sched, v.Stack)
	}
}

func keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// ---- native side ----

type native struct {
	tmp   string
	done  chan struct{}
	bin   string
	err   error
	raceB string
}

func startNative() *native {
	n := &native{done: make(chan struct{})}
	n.tmp, n.err = os.MkdirTemp("", "verif-native-")
	if n.err != nil {
		close(n.done)
		return n
	}
	go func() {
		defer close(n.done)
		n.bin, n.err = n.build(false)
	}()
	return n
}

func (n *native) build(race bool) (string, error) {
	ov, err := nativeOverlay(verifDir, repoDir, n.tmp, true)
	if err != nil {
		return "", err
	}
	out := filepath.Join(n.tmp, "runner")
	args := []string{"build", "-overlay", ov, "-o", out}
	if race {
		out += "-race"
		args = []string{"build", "-race", "-overlay", ov, "-o", out}
	}
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", append(args, "./verifx/runner")...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	return out, nil
}

func (n *native) cleanup() {
	<-n.done
	if n.tmp != "" && strings.HasPrefix(filepath.Base(n.tmp), "verif-native-") {
		os.RemoveAll(n.tmp)
	}
}

type nativeRun struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []InputVal       `json:"inputs"`
	Sched   []int            `json:"sched"`
	Obs     []InputVal       `json:"obs"`
	Kind    string           `json:"kind,omitempty"`
	Msg     string           `json:"msg,omitempty"`
	Prop    string           `json:"property,omitempty"`
}

type nativeRes struct {
	I       int        `json:"i"`
	Outcome string     `json:"outcome"` // ok assert assume mismatch panic deadlock race hang
	Msg     string     `json:"msg"`
	Obs     []InputVal `json:"obs"`
}

// exec runs recorded runs natively.
func (n *native) exec(bin string, runs []nativeRun, limit time.Duration) ([]nativeRes, string, error) {
	f, err := os.CreateTemp(n.tmp, "runs-*.json")
	if err != nil {
		return nil, "", err
	}
	json.NewEncoder(f).Encode(runs)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name())
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	rerr := cmd.Run()
	var res []nativeRes
	for _, l := range strings.Split(out.String(), "\n") {
		if l == "" || l[0] != '{' {
			continue
		}
		var r nativeRes
		if json.Unmarshal([]byte(l), &r) == nil {
			res = append(res, r)
		}
	}
	if ctx.Err() != nil {
		res = append(res, nativeRes{I: len(res), Outcome: "hang", Msg: "no end within " + limit.String()})
		return res, errb.String(), nil
	}
	if rerr != nil && len(res) < len(runs) {
		e := errb.String()
		r := nativeRes{I: len(res), Outcome: "panic", Msg: firstLines(e, 4)}
		if strings.Contains(e, "WARNING: DATA RACE") {
			r.Outcome = "race"
		} else if strings.Contains(e, "all goroutines are asleep") {
			r.Outcome = "deadlock"
		}
		res = append(res, r)
	}
	return res, errb.String(), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// confirm replays a candidate against the real code; "" means it reproduced.
func (n *native) confirm(h *Harness, v *Violation) string {
	<-n.done
	if n.err != nil {
		return n.err.Error()
	}
	run := nativeRun{Harness: h.Func, Params: h.Params, Inputs: v.Inputs, Sched: v.Sched}
	bin := n.bin
	if v.Kind == "race" {
		if n.raceB == "" {
			b, err := n.build(true)
			if err != nil {
				return err.Error()
			}
			n.raceB = b
		}
		bin = n.raceB
	}
	limit := 60 * time.Second
	if v.Kind == "hang" {
		limit = 15 * time.Second
	}
	last := ""
	// iteration order of maps is random natively: try repeatedly
	for try := 0; try < 12; try++ {
		k := 1
		if try > 0 && v.Kind != "hang" {
			k = 50
		}
		runs := make([]nativeRun, k)
		for i := range runs {
			runs[i] = run
		}
		res, _, err := n.exec(bin, runs, limit)
		if err != nil {
			return err.Error()
		}
		for _, r := range res {
			switch r.Outcome {
			case "ok", "assume", "mismatch":
				last = r.Outcome + " " + r.Msg
			default:
				v.Native = r.Outcome + ": " + r.Msg
				return ""
			}
		}
		if v.Kind == "hang" {
			break
		}
	}
	return "the native run does not reproduce it: " + last
}

// validate runs sampled paths natively and compares what they observe.
func (n *native) validate(h *Harness, ss []PathSample) (*Violation, int, error) {
	<-n.done
	if n.err != nil {
		return nil, 0, n.err
	}
	var runs []nativeRun
	for _, s := range ss {
		runs = append(runs, nativeRun{Harness: h.Func, Params: h.Params, Inputs: s.Inputs, Sched: s.Sched, Obs: s.Obs})
	}
	okN := 0
	for len(runs) > 0 {
		res, stderr, err := n.exec(n.bin, runs, 120*time.Second)
		if err != nil {
			return nil, okN, err
		}
		if len(res) == 0 {
			return nil, okN, fmt.Errorf("native run printed nothing: %s", firstLines(stderr, 5))
		}
		for i, r := range res {
			if i >= len(runs) {
				break
			}
			s := runs[i]
			switch r.Outcome {
			case "ok":
				if d := diffObs(s.Obs, r.Obs); d != "" {
					// stable?
					bad := 0
					for k := 0; k < 4; k++ {
						rr, _, _ := n.exec(n.bin, []nativeRun{s}, 60*time.Second)
						if len(rr) == 1 && rr[0].Outcome == "ok" && diffObs(s.Obs, rr[0].Obs) != "" {
							bad++
						}
					}
					if bad == 4 {
						return nil, okN, fmt.Errorf("engine and native run disagree on %s: %s (inputs %v)", h.Func, d, s.Inputs)
					}
				} else {
					okN++
				}
			case "assume", "mismatch":
				return nil, okN, fmt.Errorf("native run of a completed path of %s ends with %s %s (inputs %v)", h.Func, r.Outcome, r.Msg, s.Inputs)
			default:
				return &Violation{Kind: "native " + r.Outcome, Msg: r.Msg, Inputs: s.Inputs, Sched: s.Sched, Native: r.Outcome + ": " + r.Msg}, okN, nil
			}
		}
		if len(res) >= len(runs) {
			break
		}
		runs = runs[len(res):]
	}
	return nil, okN, nil
}

func diffObs(a, b []InputVal) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations against %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s: %d against %d", a[i].Name, a[i].Val, b[i].Val)
		}
	}
	return ""
}

func cmdReplay(args []string) {
	if len(args) < 1 {
		die(2, "usage: replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		die(2, "%v", err)
	}
	var r nativeRun
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%v", err)
	}
	n := startNative()
	defer n.cleanup()
	v := &Violation{Kind: r.Kind, Msg: r.Msg, Inputs: r.Inputs, Sched: r.Sched}
	if s := n.confirm(&Harness{Func: r.Harness, Params: r.Params}, v); s != "" {
		fmt.Println("not reproduced:", s)
		return
	}
	fmt.Printf("reproduced: %s\n", v.Native)
	n.cleanup()
	os.Exit(1)
}

// ---- check ----

func cmdCheck(args []string) {
	if len(args) < 1 {
		die(2, "usage: check PROP")
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		die(2, "%v", err)
	}
	var all map[string]*propCfg
	if err := json.Unmarshal(b, &all); err != nil {
		die(2, "checks.json: %v", err)
	}
	pc := all[prop]
	if pc == nil {
		die(2, "no check for %s", prop)
	}
	t0 := time.Now()
	budget := pc.QuickS
	if budget == 0 {
		budget = 420
	}
	if tier == "thorough" {
		budget = pc.ThoroughS
		if budget == 0 {
			budget = 3600
		}
	}
	nat := startNative()
	code := 0
	defer func() {
		nat.cleanup()
		os.Exit(code)
	}()
	p, err := loadProgram(verifDir, repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		code = 2
		return
	}
	loadT := time.Since(t0)
	end := t0.Add(time.Duration(budget * float64(time.Second)))
	var results []*HarnessResult
	var stages []stageCfg
	for _, s := range pc.Harnesses {
		if s.Tier == "" || s.Tier == tier {
			stages = append(stages, s)
		}
	}
	var viol *Violation
	var violH *Harness
	traces := 0
	var notes []string
	for i, s := range stages {
		cfg := defaultCfg()
		cfg.seed = seed
		if s.Solver != "" {
			cfg.solver = s.Solver
		}
		if tier == "thorough" {
			cfg.samples = 100
		}
		left := time.Until(end)
		if left < 2*time.Second {
			notes = append(notes, fmt.Sprintf("not started within the time budget: %s %v", s.Func, s.Params))
			continue
		}
		// a stage may use what is left, keeping a share for those after it
		share := left
		if n := len(stages) - i - 1; n > 0 && !s.Base {
			share = left * 2 / 3
		} else if n > 0 {
			share = left * 3 / 4
		}
		cfg.deadline = time.Now().Add(share)
		h := &Harness{Name: s.Func, Func: s.Func, Params: s.Params, Bound: s.Bound}
		res := runHarness(p, h, cfg)
		if res.Err == "" && res.Viol != nil && res.Viol.Kind == "hang" && nat.confirm(h, res.Viol) != "" {
			// slow, not endless: such paths are beyond the bound
			notes = append(notes, fmt.Sprintf("%s %v: paths of more than %d steps left out", s.Func, s.Params, cfg.maxSteps))
			cfg.cutSteps = true
			res = runHarness(p, h, cfg)
		}
		results = append(results, res)
		if res.Stats.StepLimit > 0 {
			notes = append(notes, fmt.Sprintf("%s %v: %d paths beyond the bound on steps or decisions left out", s.Func, s.Params, res.Stats.StepLimit))
		}
		if res.Err != "" {
			fmt.Fprintf(os.Stderr, "%s %v: %s\n", s.Func, s.Params, res.Err)
			code = 2
			return
		}
		if res.Viol != nil {
			if d := nat.confirm(h, res.Viol); d != "" {
				fmt.Fprintf(os.Stderr, "%s %v: candidate %s %q not confirmed: %s\ninputs %v sched %v\n%s\n", s.Func, s.Params, res.Viol.Kind, res.Viol.Msg, d, res.Viol.Inputs, res.Viol.Sched, res.Viol.Stack)
				code = 2
				return
			}
			viol, violH = res.Viol, h
			break
		}
		if res.TimedOut {
			notes = append(notes, fmt.Sprintf("time budget reached in %s %v after %d paths: reduced bound", s.Func, s.Params, res.Stats.Completed))
		}
		if (res.Stats.Completed == 0 || res.Stats.Reached == 0) && !res.TimedOut && res.Stats.StepLimit == 0 {
			fmt.Fprintf(os.Stderr, "%s %v: vacuous: no completed path or no assertion reached\n", s.Func, s.Params)
			code = 2
			return
		}
		v, n, err := nat.validate(h, res.Samples)
		traces += n
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 2
			return
		}
		if v != nil {
			viol, violH = v, h
			break
		}
	}
	nviol := 0
	if viol == nil {
		var done int64
		for _, r := range results {
			done += r.Stats.Completed
		}
		if done == 0 {
			fmt.Fprintln(os.Stderr, "nothing decided: no path completed within the time budget")
			code = 2
			return
		}
	}
	if viol != nil {
		nviol = 1
		dir := filepath.Join(verifDir, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, prop+".json")
		writeJSON(f, nativeRun{Prop: prop, Harness: violH.Func, Params: violH.Params, Inputs: viol.Inputs, Sched: viol.Sched, Kind: viol.Kind, Msg: viol.Msg})
		fmt.Printf("%s: %s\n  harness %s %v\n  inputs %v\n  schedule %v\n  native replay: %s\n%s", viol.Kind, viol.Msg, violH.Func, violH.Params, viol.Inputs, viol.Sched, viol.Native, viol.Stack)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		code = 1
	}
	writeEvidence(prop, tier, seed, pc, results, traces, notes, loadT, time.Since(t0), nviol)
	if code == 0 {
		var paths, q int64
		for _, r := range results {
			paths += r.Stats.Completed
			q += r.Stats.Queries
		}
		fmt.Printf("%s %s: held on %d paths of %d harness runs, %d solver queries, %d native traces agree, %.0fs\n", prop, tier, paths, len(results), q, traces, time.Since(t0).Seconds())
		for _, n := range notes {
			fmt.Println("note:", n)
		}
	}
}

func writeEvidence(prop, tier string, seed int64, pc *propCfg, results []*HarnessResult, traces int, notes []string, loadT, wall time.Duration, nviol int) {
	var tot Stats
	funcs := map[string]bool{}
	var runs []map[string]any
	var samples []any
	for _, r := range results {
		tot.add(&r.Stats)
		for f := range r.Funcs {
			funcs[f] = true
		}
		m := map[string]any{
			"harness": r.Harness.Func, "params": r.Harness.Params, "bound": r.Harness.Bound,
			"paths_completed": r.Stats.Completed, "paths_pruned_by_assumptions": r.Stats.Pruned,
			"assertions_decided": r.Stats.Asserts, "assertions_folded_by_simplifier": r.Stats.AssertsFolded,
			"solver_queries": r.Stats.Queries, "solver_s": float64(r.Stats.SolverNS) / 1e9, "solver": r.Solver,
			"unknown": r.Stats.Unknown, "wall_s": r.Wall.Seconds(), "exhausted_within_bound": !r.TimedOut && r.Viol == nil && r.Stats.Unknown == 0,
			"max_decisions_on_a_path": r.Stats.MaxDepth,
		}
		if r.Viol != nil {
			m["violation"] = r.Viol.Kind + ": " + r.Viol.Msg
		}
		runs = append(runs, m)
		for i, s := range r.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.Harness.Func, "inputs": s.Inputs, "observed": clip(s.Obs), "schedule": s.Sched})
			}
		}
	}
	for _, r := range results {
		if r.Viol != nil {
			samples = append(samples, map[string]any{"harness": r.Harness.Func, "inputs": r.Viol.Inputs, "schedule": r.Viol.Sched, "violation": r.Viol.Msg})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(fl) > 200 {
		fl = fl[:200]
	}
	asm := append([]string{
		"bounds: as stated per harness; nothing is claimed outside them",
		"the SSA interpreter, its models of assembly/reflection based standard library functions (harness/models, engine/intr.go), and z3 are trusted; sampled paths are replayed against the compiled code",
	}, pc.Assumptions...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        tot.Completed + tot.Pruned,
			"transitions":                   tot.Branches + tot.Choices,
			"traces_validated_against_impl": traces,
			"samples":                       samples,
			"solver_queries":                tot.Queries,
			"solver_s":                      float64(tot.SolverNS) / 1e9,
			"assertion_queries":             tot.AssertQueries,
			"instructions_executed":         tot.Steps,
			"functions_encoded":             fl,
			"runs":                          runs,
			"notes":                         notes,
			"load_s":                        loadT.Seconds(),
			"explanation":                   "states: symbolic paths (each stands for all inputs satisfying its path condition); transitions: decisions with both sides feasible, and scheduling or enumeration choices",
		},
		"assumptions": asm, "wall_s": wall.Seconds(), "violations": nviol,
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, prop+".json"), ev)
}

func clip(o []InputVal) []InputVal {
	if len(o) > 12 {
		return o[:12]
	}
	return o
}
