//go:build verifsched

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C17"] = propConc
	coldMode = coldChild
}

func getg() uintptr

// A controlled scheduler for two threads. Between two of its scheduling
// points (one before every statement of the library) a thread is not
// interrupted; at most one thread runs at a time.
type cthread struct {
	g      uintptr
	job    chan func()
	wake   chan struct{}
	n      int // points passed
	stopAt int // stop before passing this point
	res    string
	state  int
	pan    any
}

const (
	tIdle = iota
	tStopped
	tRunning
	tDone
)

type scheduler struct {
	t    [2]*cthread
	ev   chan *cthread // the thread stopped, or is done
	wait *time.Timer
	slow int // times a thread did not come back: it waits for the other one
}

// How long a thread may stay between two points before it is taken to wait
// for the other one.
const blockedAfter = 20 * time.Millisecond

func newScheduler() *scheduler {
	s := &scheduler{ev: make(chan *cthread, 64), wait: time.NewTimer(time.Hour)}
	ready := make(chan struct{})
	for i := range s.t {
		t := &cthread{job: make(chan func()), wake: make(chan struct{})}
		s.t[i] = t
		go func() {
			t.g = getg()
			ready <- struct{}{}
			for f := range t.job {
				f()
				s.ev <- t
			}
		}()
		<-ready
	}
	scte35.VerifHook = func() {
		g := getg()
		var t *cthread
		switch g {
		case s.t[0].g:
			t = s.t[0]
		case s.t[1].g:
			t = s.t[1]
		default:
			return // not a thread of the explored program
		}
		if t.n == t.stopAt {
			t.state = tStopped
			s.ev <- t
			<-t.wake
		}
		t.n++
	}
	return s
}

// step lets thread i run until it has passed n points (for ever: n < 0), is
// done, or waits for the other one.
func (s *scheduler) step(i, n int) {
	t := s.t[i]
	switch t.state {
	case tDone:
		return
	case tRunning: // still waiting for the other one
		if t.n >= n && n >= 0 {
			return
		}
		s.await(t, blockedAfter)
		return
	}
	t.stopAt = n
	st := t.state
	t.state = tRunning
	if st == tStopped {
		t.wake <- struct{}{}
	} else {
		f := t.job
		run := pending[i]
		f <- func() {
			defer func() {
				t.pan = recover()
				t.state = tDone
			}()
			t.res = run()
		}
	}
	s.await(t, blockedAfter)
}

var pending [2]func() string

// await waits until t stops or is done.
func (s *scheduler) await(t *cthread, d time.Duration) {
	if !s.wait.Stop() {
		select {
		case <-s.wait.C:
		default:
		}
	}
	s.wait.Reset(d)
	for t.state == tRunning {
		select {
		case <-s.ev:
		case <-s.wait.C:
			s.slow++
			return
		}
	}
	s.wait.Stop()
}

// run executes the two operations under a schedule: a list of (thread, number
// of points to have passed); what is left at the end runs thread by thread.
func (s *scheduler) run(a, b func() string, plan [][2]int) (res [2]string, dead bool) {
	pending = [2]func() string{a, b}
	for _, t := range s.t {
		t.n, t.stopAt, t.res, t.state, t.pan = 0, -1, "", tIdle, nil
	}
	for _, p := range plan {
		s.step(p[0], p[1])
	}
	for round := 0; ; round++ {
		left := 0
		for i := range s.t {
			if s.t[i].state != tDone {
				if s.t[i].state == tRunning {
					s.t[i].stopAt = -1
				}
				s.step(i, -1)
			}
			if s.t[i].state != tDone {
				left++
			}
		}
		if left == 0 {
			break
		}
		if round > 500 {
			return res, true
		}
	}
	for i, t := range s.t {
		res[i] = t.res
		if t.pan != nil {
			res[i] = fmt.Sprintf("panic: %v", t.pan)
		}
	}
	return res, false
}

// alone gives what an operation observes on its own, and its number of points.
func (s *scheduler) alone(o cop) (string, int) {
	r, _ := s.run(o.mk(), func() string { return "" }, [][2]int{{0, -1}})
	return r[0], s.t[0].n
}

func planText(p [][2]int) string {
	t := ""
	for _, x := range p {
		to := fmt.Sprintf("up to its statement %d", x[1])
		if x[1] < 0 {
			to = "to its end"
		}
		t += fmt.Sprintf("thread %d %s; ", x[0], to)
	}
	return t + "the rest to the end"
}

type coldIn struct {
	Ops  [4]int
	Plan [][2]int
}

type coldOut struct {
	Res  [2]string
	Dead bool
}

// coldChild runs one schedule in a process in which nothing ran before.
func coldChild(spec string) int {
	scte35.Logger.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	var in coldIn
	if err := json.Unmarshal([]byte(spec), &in); err != nil {
		return 2
	}
	s := newScheduler()
	x := in.Ops
	a, b := concOp(x[0], x[1], 0), concOp(x[2], x[3], 1)
	var o coldOut
	o.Res, o.Dead = s.run(a.mk(), b.mk(), in.Plan)
	j, _ := json.Marshal(o)
	os.Stdout.Write(j)
	return 0
}

// concCase is one pair of operations; k1 >= 0 fixes the first preemption.
type concCase struct {
	a, b   cop
	k1, k2 int
}

func propConc(c *Ctx) {
	ops := len(concOpNames)
	secs := len(concSections())
	shard, nshard := 0, 1
	isShard := os.Getenv("VERIF_SHARD") != ""
	if isShard {
		fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &nshard)
	}
	c.Assume("the threads work on sections of their own; sharing one section between threads needs the caller's synchronisation")
	c.Assume("preemption before any statement of the library, up to the stated number of preemptions; accesses inside one statement are judged by the race detector on the same pairs")
	describe := func(x concCase) string {
		return fmt.Sprintf("%s next to %s, first preempted at %d, then at %d", x.a.name, x.b.name, x.k1, x.k2)
	}
	warm := func() {
		runtime.GOMAXPROCS(1)
		s := newScheduler()
		type solo struct {
			res string
			n   int
		}
		memo := map[[3]int]solo{}
		alone := func(o cop, v int) solo {
			key := [3]int{o.op, o.sec, v}
			r, ok := memo[key]
			if !ok {
				r.res, r.n = s.alone(o)
				memo[key] = r
			}
			return r
		}
		exec1 := func(k *K, x concCase, plan [][2]int) {
			wa, wb := alone(x.a, 0), alone(x.b, 1)
			res, dead := s.run(x.a.mk(), x.b.mk(), plan)
			k.T(wa.n + wb.n)
			k.Validated(2)
			c.declaredDistinct.Add(1)
			if dead {
				k.Fail("schedule [%s]: deadlock", planText(plan))
			}
			for i, w := range []string{wa.res, wb.res} {
				if res[i] != w {
					k.Input("schedule [%s], thread 0 %s, thread 1 %s", planText(plan), x.a.name, x.b.name)
					k.Fail("schedule [%s]: thread %d differs from what it gives alone: %s", planText(plan), i, diff(res[i], w))
				}
			}
		}
		n := 0
		mine := func() bool { n++; return (n-1)%nshard == shard }
		// one preemption: every pair of operations, every section
		Explore(c, "preempt-1", func(y func(concCase) bool) {
			for a := 0; a < ops; a++ {
				for b := 0; b < ops; b++ {
					for sa := 0; sa < secs; sa++ {
						for sb := 0; sb < secs; sb++ {
							if !c.Thorough && sa != sb && (sa == secs-1 || sb == secs-1 || (a+b+sa+sb)%4 != 0) {
								continue
							}
							if !c.Thorough && sa == secs-1 && a != b && (a+b)%4 != 0 {
								continue // the largest section
							}
							if mine() && !y(concCase{concOp(a, sa, 0), concOp(b, sb, 1), -1, -1}) {
								return
							}
						}
					}
				}
			}
		}, describe, func(k *K, x concCase) {
			k.StateS(describe(x))
			for i := 0; i <= alone(x.a, 0).n; i++ {
				exec1(k, x, [][2]int{{0, i}, {1, -1}})
			}
			for i := 0; i <= alone(x.b, 1).n; i++ {
				exec1(k, x, [][2]int{{1, i}, {0, -1}})
			}
		})
		// two preemptions
		top := 2
		if c.Thorough {
			top = secs
		}
		Explore(c, "preempt-2", func(y func(concCase) bool) {
			for sec := 0; sec < top; sec++ {
				for a := 0; a < ops; a++ {
					for b := 0; b < ops; b++ {
						if !c.Thorough && sec == 0 && (a > 5 || b > 5) { // the larger section: the most basic operations
							continue
						}
						if mine() && !y(concCase{concOp(a, sec, 0), concOp(b, sec, 1), 0, -1}) {
							return
						}
					}
				}
			}
		}, describe, func(k *K, x concCase) {
			k.StateS("2" + describe(x))
			na, nb := alone(x.a, 0).n, alone(x.b, 1).n
			for i := 0; i <= na; i++ {
				for j := 0; j <= nb; j++ {
					exec1(k, x, [][2]int{{0, i}, {1, j}, {0, -1}})
				}
			}
		})
		if c.Thorough {
			Explore(c, "preempt-3", func(y func(concCase) bool) {
				for a := 0; a < ops; a++ {
					for b := 0; b < ops; b++ {
						for i := 0; i <= alone(concOp(a, 1, 0), 0).n; i++ {
							if mine() && !y(concCase{concOp(a, 1, 0), concOp(b, 1, 1), i, -1}) {
								return
							}
						}
					}
				}
			}, describe, func(k *K, x concCase) {
				k.StateS("3" + describe(x))
				na, nb := alone(x.a, 0).n, alone(x.b, 1).n
				for j := 0; j <= nb; j++ {
					for i := x.k1 + 1; i <= na; i++ {
						exec1(k, x, [][2]int{{0, x.k1}, {1, j}, {0, i}, {1, -1}})
					}
				}
			})
		}
		c.Extra("threads_found_waiting", s.slow)
	}
	if isShard || strings.HasPrefix(c.OnlySp, "preempt-") {
		warm()
		return
	}
	// solo results and numbers of points, for the schedules run in processes
	// of their own
	s := newScheduler()
	type key struct{ op, sec, v int }
	res, pts := map[key]string{}, map[key]int{}
	for op := 0; op < ops; op++ {
		for sec := 0; sec < secs; sec++ {
			for v := 0; v < 2; v++ {
				res[key{op, sec, v}], pts[key{op, sec, v}] = s.alone(concOp(op, sec, v))
			}
		}
	}
	tmp := os.Getenv("VERIF_TMP")
	self, _ := os.Executable()
	c.Extra("scheduling_points_in_library", readPoints(tmp))
	pair := func(x coldIn) string {
		return concOp(x.Ops[0], x.Ops[1], 0).name + " next to " + concOp(x.Ops[2], x.Ops[3], 1).name + ", first use, schedule [" + planText(x.Plan) + "]"
	}
	// unordered accesses, in fresh processes
	Explore(c, "data-races", func(y func(coldIn) bool) {
		for sec := 0; sec < secs; sec++ {
			for a := 0; a < ops; a++ {
				for b := a; b < ops; b++ {
					if !c.Thorough && a != b && (a+b)%secs != sec {
						continue
					}
					if !y(coldIn{Ops: [4]int{a, sec, b, sec}}) {
						return
					}
				}
			}
		}
	}, pair, func(k *K, x coldIn) {
		k.StateS("race" + pair(x))
		cmd := exec.Command(filepath.Join(tmp, "mc-race"))
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_RACE=%d.%d %d.%d", x.Ops[0], x.Ops[1], x.Ops[2], x.Ops[3]), "GORACE=exitcode=66 halt_on_error=1 atexit_sleep_ms=0")
		out, err := cmd.CombinedOutput()
		k.T(6)
		k.Validated(6)
		if err != nil {
			k.Input("%s", out)
			k.Fail("%v: %.3000s", err, out)
		}
	})
	// first use of the library by both threads
	Explore(c, "first-use", func(y func(coldIn) bool) {
		for _, sec := range []int{1, 5, 4, 0, 2, 3, 6} {
			if !c.Thorough && sec != 1 && sec != 5 && sec != 4 {
				continue
			}
			for a := 0; a < ops; a++ {
				for i := 0; i <= pts[key{a, sec, 0}]+10; i++ {
					if !y(coldIn{[4]int{a, sec, a, sec}, [][2]int{{0, i}, {1, -1}}}) {
						return
					}
				}
			}
		}
	}, pair, func(k *K, x coldIn) {
		k.StateS(pair(x))
		spec, _ := json.Marshal(x)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_COLD="+string(spec))
		out, err := cmd.Output()
		var o coldOut
		if err != nil || json.Unmarshal(out, &o) != nil {
			k.Fail("%v %.2000s", err, out)
		}
		k.T(2)
		k.Validated(2)
		for i := range o.Res {
			if w := res[key{x.Ops[2*i], x.Ops[2*i+1], i}]; o.Res[i] != w || o.Dead {
				k.Fail("thread %d differs from what it gives alone (deadlock: %v): %s", i, o.Dead, diff(o.Res[i], w))
			}
		}
	})
	if c.OnlySp != "" || c.viol != nil {
		return
	}
	// the rest, divided between processes
	nsh := runtime.NumCPU()
	type part struct {
		dir string
		out []byte
		err error
	}
	parts := make([]part, nsh)
	done := make(chan int)
	for i := range parts {
		parts[i].dir = filepath.Join(tmp, fmt.Sprintf("shard%d", i))
		_ = os.MkdirAll(parts[i].dir, 0o755)
		if b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt")); err == nil {
			_ = os.WriteFile(filepath.Join(parts[i].dir, "known-findings.txt"), b, 0o644)
		}
		go func() {
			cmd := exec.Command(self, "-prop", "C17")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, nsh), "VERIF_DIR="+parts[i].dir)
			parts[i].out, parts[i].err = cmd.CombinedOutput()
			done <- i
		}()
	}
	for range parts {
		<-done
	}
	merged := map[string]map[string]any{}
	for i, p := range parts {
		b, err := os.ReadFile(filepath.Join(p.dir, "evidence", "C17.json"))
		var ev struct {
			Coverage struct {
				States, Transitions, Cases int64
				Traces                     int64 `json:"traces_validated_against_impl"`
				Exhaustive                 bool
				Spaces                     []map[string]any
				Waiting                    int64 `json:"threads_found_waiting"`
			}
			Violations int
		}
		if err != nil || json.Unmarshal(b, &ev) != nil {
			c.viol = &violation{Property: "C17", Space: "shard", Message: fmt.Sprintf("shard %d: %v %.3000s", i, p.err, p.out)}
			continue
		}
		c.declaredDistinct.Add(ev.Coverage.States)
		c.transitions.Add(ev.Coverage.Transitions)
		c.traces.Add(ev.Coverage.Traces)
		c.cases.Add(ev.Coverage.Cases)
		if !ev.Coverage.Exhaustive {
			c.cut.Store(true)
		}
		for _, sp := range ev.Coverage.Spaces {
			name := sp["space"].(string)
			m := merged[name]
			if m == nil {
				merged[name] = sp
				continue
			}
			for _, f := range []string{"cases", "transitions", "new_states", "wall_s"} {
				m[f] = m[f].(float64) + sp[f].(float64)
			}
			m["complete"] = m["complete"].(bool) && sp["complete"].(bool)
		}
		if ev.Violations > 0 && c.viol == nil {
			v := &violation{}
			b, _ := os.ReadFile(filepath.Join(p.dir, "evidence", "replay", "C17.json"))
			_ = json.Unmarshal(b, v)
			v.Rerun = fmt.Sprintf("cd /verif && VERIF_TIER=%s VERIF_SHARD=%d/%d ./run.sh C17 -only '%s:%d'", c.Tier, i, nsh, v.Space, v.Index)
			c.viol = v
		}
	}
	for _, name := range []string{"preempt-1", "preempt-2", "preempt-3"} {
		if m := merged[name]; m != nil {
			c.spaces = append(c.spaces, m)
		}
	}
	c.Extra("schedules", c.declaredDistinct.Load())
}

func readPoints(tmp string) string {
	b, _ := os.ReadFile(filepath.Join(tmp, "points"))
	return strings.TrimSpace(string(b))
}
