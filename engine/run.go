package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runCfg struct {
	workers   int
	solver    string
	timeoutMS int
	deadline  time.Time
	maxSteps  int64
	cutSteps  bool
	samples   int
	seed      int64
	verbose   bool
	smtlog    string
}

type hrun struct {
	p    *Program
	h    *Harness
	fn   *ssa.Function
	cfg  *runCfg
	pl   *pool
	mu   sync.Mutex
	res  *HarnessResult
	stop atomic.Bool
	rng  *rand.Rand
	seen int64
}

func runHarness(p *Program, h *Harness, cfg *runCfg) *HarnessResult {
	res := &HarnessResult{Solver: cfg.solver, Harness: h, Funcs: map[string]int64{}, Reached: map[string]bool{}}
	t0 := time.Now()
	defer func() { res.Wall = time.Since(t0) }()
	hp := p.pkgs[vroot+"/h"]
	fn := hp.Func(h.Func)
	if fn == nil {
		res.Err = "no harness function " + h.Func
		return res
	}
	r := &hrun{p: p, h: h, fn: fn, cfg: cfg, res: res, rng: rand.New(rand.NewSource(cfg.seed))}
	r.pl = &pool{n: cfg.workers}
	r.pl.cond = sync.NewCond(&r.pl.mu)
	r.pl.queue = []*task{{model: Model{}}}
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(cfg.deadline), func() {
		r.mu.Lock()
		res.TimedOut = true
		r.mu.Unlock()
		r.stop.Store(true)
		r.pl.halt()
	})
	for i := 0; i < cfg.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.worker(i)
		}(i)
	}
	wg.Wait()
	if !timer.Stop() {
		// fired: TimedOut is set
	}
	return res
}

func (r *hrun) fail(f string, a ...any) {
	r.mu.Lock()
	if r.res.Err == "" {
		r.res.Err = fmt.Sprintf(f, a...)
	}
	r.mu.Unlock()
	r.stop.Store(true)
	r.pl.halt()
}

type stopped struct{}

func (r *hrun) worker(id int) {
	var x *explorer
	var vm *VM
	fresh := func() bool {
		tb := NewTable()
		sol, err := NewSolver(tb, r.cfg.solver, r.cfg.timeoutMS)
		if err != nil {
			r.fail("solver: %v", err)
			return false
		}
		if r.cfg.smtlog != "" && id == 0 {
			f, _ := os.Create(r.cfg.smtlog)
			sol.log = f
		}
		nx := &explorer{tb: tb, sol: sol}
		if x != nil {
			nx.st = x.st
			nx.st.Queries += int64(x.sol.Queries)
			nx.st.SolverNS += int64(x.sol.Time)
			nx.trace, nx.base, nx.model = x.trace, x.base, x.model
			for i := range nx.trace {
				nx.trace[i].asserted = false
			}
			x.sol.Close()
		}
		x = nx
		old := vm
		vm = &VM{p: r.p, tb: tb, x: x, infos: map[*ssa.Function]*fnInfo{}, params: r.h.Params, maxSteps: r.cfg.maxSteps, reached: map[string]bool{}, stop: &r.stop}
		if old != nil {
			vm.reached = old.reached
			r.collect(old)
		}
		return true
	}
	defer func() {
		if x != nil {
			x.st.Queries += int64(x.sol.Queries)
			x.st.SolverNS += int64(x.sol.Time)
			r.mu.Lock()
			r.res.Stats.add(&x.st)
			for k := range vm.reached {
				r.res.Reached[k] = true
			}
			r.mu.Unlock()
			r.collect(vm)
			x.sol.Close()
		}
	}()
	for {
		t := r.pl.get()
		if t == nil {
			return
		}
		if x == nil && !fresh() {
			return
		}
		x.load(t)
		for {
			if len(x.tb.all) > 3_000_000 {
				if !fresh() {
					return
				}
			}
			if !r.path(vm, x) {
				return
			}
			for atomic.LoadInt32(&r.pl.want) > 0 {
				d := x.donate()
				if d == nil {
					break
				}
				r.pl.put(d)
			}
			if !x.backtrack() {
				break
			}
		}
	}
}

func (r *hrun) collect(vm *VM) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, fi := range vm.infos {
		if fi.inMod && fi.count > 0 {
			r.res.Funcs[fi.fn.String()] += fi.count
		}
	}
}

// path runs one path; false ends the worker.
func (r *hrun) path(vm *VM, x *explorer) (cont bool) {
	vm.reset()
	x.pos = 0
	x.f.reset()
	x.st.Paths++
	defer func() {
		x.st.Steps += vm.steps
		if d := int64(len(x.trace)); d > x.st.MaxDepth {
			x.st.MaxDepth = d
		}
		e := recover()
		if e == nil {
			return
		}
		switch e := e.(type) {
		case pathAbort:
			if e.why == "depth" {
				x.st.StepLimit++
			}
			if e.why == "steps" && r.cfg.cutSteps {
				x.st.StepLimit++
			} else if e.why == "steps" {
				r.violation(vm, &Violation{Kind: "hang", Msg: fmt.Sprintf("no end after %d steps", vm.steps), Model: x.model, Sched: append([]int{}, vm.sched...), Stack: vm.stack(vm.cur)})
				cont = false
				return
			}
			x.st.Pruned++
			cont = true
		case vmStop:
			r.violation(vm, e.v)
			cont = false
		case stopped:
			cont = false
		case unsupported:
			r.fail("unsupported: %s\n%s", e.msg, vm.stack(vm.cur))
		case solverError:
			if r.stop.Load() {
				return
			}
			r.fail("solver: %s", e.msg)
		default:
			st := ""
			func() {
				defer func() { recover() }()
				st = vm.stack(vm.cur)
			}()
			r.fail("engine: %v\n%s\n%s", e, st, trimStack(string(debug.Stack())))
		}
	}()
	vm.RunMain(r.fn)
	x.st.Completed++
	r.sample(vm, x)
	return true
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func (vm *VM) inputVals(m Model) []InputVal {
	var out []InputVal
	for _, in := range vm.inputs {
		if in.t == nil {
			out = append(out, InputVal{in.name, in.v})
		} else {
			out = append(out, InputVal{in.name, vm.tb.Eval(in.t, m)})
		}
	}
	return out
}

func (r *hrun) violation(vm *VM, v *Violation) {
	if v.Inputs == nil {
		v.Inputs = vm.inputVals(v.Model)
	}
	r.mu.Lock()
	if r.res.Viol == nil {
		r.res.Viol = v
	}
	r.mu.Unlock()
	r.stop.Store(true)
	r.pl.halt()
}

// sample keeps a uniform sample of completed paths for native validation.
func (r *hrun) sample(vm *VM, x *explorer) {
	if vm.tb.Eval(vm.ties(), x.model) != 1 {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seen++
	k := -1
	if len(r.res.Samples) < r.cfg.samples {
		r.res.Samples = append(r.res.Samples, PathSample{})
		k = len(r.res.Samples) - 1
	} else if j := r.rng.Int63n(r.seen); j < int64(r.cfg.samples) {
		k = int(j)
	}
	if k < 0 {
		return
	}
	s := PathSample{Inputs: vm.inputVals(x.model), Sched: append([]int{}, vm.sched...)}
	for _, o := range vm.obs {
		s.Obs = append(s.Obs, InputVal{o.name, vm.tb.Eval(o.t, x.model)})
	}
	r.res.Samples[k] = s
}
