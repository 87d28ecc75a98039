package main

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is one run of one property's check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int
	Thorough bool
	OnlySp   string
	OnlyIdx  int64

	start    time.Time
	deadline time.Time

	cases, distinct  atomic.Int64
	transitions      atomic.Int64
	traces           atomic.Int64
	cut              atomic.Bool
	mu               sync.Mutex
	spaces           []map[string]any
	samples          []any
	viol             *violation
	known            map[string]int64
	knownMsg         map[string]string
	notes            []string
	seen             [256]map[uint64]struct{}
	seenMu           [256]sync.Mutex
	hseed            maphash.Seed
	assumptions      []string
	extra            map[string]any
	declaredDistinct atomic.Int64
}

type violation struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	Message  string `json:"message"`
	Input    string `json:"input,omitempty"`
	Rerun    string `json:"rerun"`
	Repro    string `json:"reproduced"`
}

// K is the context of one case.
type K struct {
	c     *Ctx
	input string
	tr    int64
	vt    int64
}

type failure struct{ msg string }

// Fail reports that the property is broken by this case.
func (k *K) Fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Input records what to show in a replay.
func (k *K) Input(format string, a ...any) { k.input = fmt.Sprintf(format, a...) }

// T counts transitions: operations executed on the implementation.
func (k *K) T(n int) { k.tr += int64(n) }

// Validated counts model traces whose prediction was compared with the
// implementation.
func (k *K) Validated(n int) { k.vt += int64(n) }

// Known reports a listed finding.
func (k *K) Known(id, msg string) {
	c := k.c
	c.mu.Lock()
	defer c.mu.Unlock()
	f, ok := knownFindings[id]
	if !ok || f.Property != c.Prop {
		panic(failure{fmt.Sprintf("[unlisted %s] %s", id, msg)})
	}
	c.known[id]++
	if c.knownMsg[id] == "" {
		c.knownMsg[id] = msg
	}
}

// State counts a distinct model state by its canonical form.
func (k *K) State(canon []byte) {
	var h maphash.Hash
	h.SetSeed(k.c.hseed)
	h.Write(canon)
	s := h.Sum64()
	i := s >> 56
	k.c.seenMu[i].Lock()
	m := k.c.seen[i]
	if m == nil {
		m = map[uint64]struct{}{}
		k.c.seen[i] = m
	}
	if _, ok := m[s]; !ok {
		m[s] = struct{}{}
		k.c.distinct.Add(1)
	}
	k.c.seenMu[i].Unlock()
}

// StateS is State for strings.
func (k *K) StateS(s string) { k.State([]byte(s)) }

type item[T any] struct {
	idx int64
	v   T
}

const hang = 120 * time.Second

// guard runs check on one case, turning panics into failures.
func guard[T any](c *Ctx, check func(*K, T), v T) (k *K, msg string) {
	k = &K{c: c}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	check(k, v)
	return k, ""
}

// described is describe(v), also when that needs the library and the library
// fails.
func described[T any](describe func(T) string, v T) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("(the case cannot be described: %v)", r)
		}
	}()
	return describe(v)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "scte35") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Explore enumerates gen exhaustively and checks every case. Cases of a space
// are numbered in generation order, simplest first; the reported violation is
// the one with the lowest number found.
func Explore[T any](c *Ctx, space string, gen func(yield func(T) bool), describe func(T) string, check func(*K, T)) {
	if c.OnlySp != "" && c.OnlySp != space {
		return
	}
	c.mu.Lock()
	stopped := c.viol != nil
	c.mu.Unlock()
	if stopped && c.OnlySp == "" {
		return
	}
	t0 := time.Now()
	var n int64
	var tr0, d0 = c.transitions.Load(), c.distinct.Load()
	workers := runtime.GOMAXPROCS(0)
	ch := make(chan []item[T], workers*2)
	var stop atomic.Bool
	var wg sync.WaitGroup
	type slot struct {
		started atomic.Int64
		cur     atomic.Pointer[item[T]]
	}
	slots := make([]slot, workers)
	fail := func(it item[T], msg string) {
		stop.Store(true)
		var input string
		rep := 0
		for i := 0; i < 5; i++ {
			k, m := guard(c, check, it.v)
			if m != "" {
				rep++
				msg = m
				input = k.input
			}
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.viol == nil || c.viol.Space == space && it.idx < c.viol.Index {
			c.viol = &violation{Property: c.Prop, Space: space, Index: it.idx, Case: described(describe, it.v), Message: msg, Input: input,
				Rerun: fmt.Sprintf("cd /verif && VERIF_TIER=%s ./run.sh %s -only '%s:%d'", c.Tier, c.Prop, space, it.idx),
				Repro: fmt.Sprintf("%d of 5 re-runs", rep)}
		}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for batch := range ch {
				for i := range batch {
					if stop.Load() {
						continue
					}
					s.cur.Store(&batch[i])
					s.started.Store(time.Now().UnixNano())
					k, msg := guard(c, check, batch[i].v)
					s.started.Store(0)
					c.transitions.Add(k.tr)
					c.traces.Add(k.vt)
					c.cases.Add(1)
					if msg != "" {
						fail(batch[i], msg)
					}
				}
			}
		}(&slots[w])
	}
	done := make(chan struct{})
	go func() { // a case that never returns is a violation of its own
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				for i := range slots {
					if st := slots[i].started.Load(); st != 0 && time.Since(time.Unix(0, st)) > hang {
						it := slots[i].cur.Load()
						c.mu.Lock()
						c.viol = &violation{Property: c.Prop, Space: space, Index: it.idx, Case: described(describe, it.v),
							Message: "the operation does not terminate (no result after 2 minutes)", Repro: "1 of 1"}
						c.mu.Unlock()
						c.finish()
						os.Exit(1)
					}
				}
			}
		}
	}()
	var batch []item[T]
	flush := func() {
		if len(batch) > 0 {
			ch <- batch
			batch = nil
		}
	}
	complete := true
	gen(func(v T) bool {
		if stop.Load() {
			return false
		}
		if n&1023 == 0 && time.Now().After(c.deadline) {
			complete = false
			c.cut.Store(true)
			return false
		}
		idx := n
		n++
		if c.OnlySp != "" && c.OnlyIdx >= 0 && c.OnlyIdx != idx {
			return true
		}
		if len(c.samples) < 3 || n == 100 {
			c.mu.Lock()
			c.samples = append(c.samples, space+": "+described(describe, v))
			c.mu.Unlock()
		}
		batch = append(batch, item[T]{idx, v})
		if len(batch) >= 32 {
			flush()
		}
		return true
	})
	flush()
	close(ch)
	wg.Wait()
	close(done)
	c.mu.Lock()
	c.spaces = append(c.spaces, map[string]any{"space": space, "cases": n, "complete": complete && !stop.Load(),
		"transitions": c.transitions.Load() - tr0, "new_states": c.distinct.Load() - d0, "wall_s": time.Since(t0).Seconds()})
	c.mu.Unlock()
}

// ExploreCases is Explore over model sections.
func ExploreCases(c *Ctx, space string, gen func(yieldFn) bool, check func(*K, Case)) {
	Explore(c, space, func(y func(Case) bool) { gen(y) }, func(cs Case) string {
		if cs.M.Cmd == nil {
			return cs.Name + " " + dump(lib(cs.M))
		}
		return cs.Name + " " + fmt.Sprintf("%x", enc(cs.M))
	}, check)
}

func (c *Ctx) Assume(s string) { c.assumptions = append(c.assumptions, s) }

func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// finish writes evidence, prints the verdict and returns the exit code.
func (c *Ctx) finish() int {
	restoreOutput()
	c.mu.Lock()
	defer c.mu.Unlock()
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	states := c.distinct.Load() + c.declaredDistinct.Load()
	cov := map[string]any{
		"states":                        states,
		"transitions":                   c.transitions.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"cases":                         c.cases.Load(),
		"exhaustive":                    !c.cut.Load() && c.viol == nil,
		"spaces":                        c.spaces,
		"samples":                       c.samples,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.known) > 0 {
		cov["known_finding_cases"] = c.known
	}
	nv := 0
	if c.viol != nil {
		nv = 1
	}
	ev := map[string]any{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": nv}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	if c.OnlySp == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	var ids []string
	for id := range c.known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases; e.g. %s)\n", c.Prop, id, knownFindings[id].What, c.known[id], c.knownMsg[id])
	}
	fmt.Printf("%s: %d cases, %d states, %d transitions, %d model traces validated, exhaustive=%v, %.1fs\n",
		c.Prop, c.cases.Load(), states, c.transitions.Load(), c.traces.Load(), !c.cut.Load() && c.viol == nil, time.Since(c.start).Seconds())
	for _, s := range c.spaces {
		fmt.Printf("  %-28v cases=%v complete=%v %.1fs\n", s["space"], s["cases"], s["complete"], s["wall_s"])
	}
	if c.viol != nil {
		p := filepath.Join(dir, "replay", c.Prop+".json")
		b, _ := json.MarshalIndent(c.viol, "", " ")
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("case %s[%d] %s\n%s\n", c.viol.Space, c.viol.Index, c.viol.Case, c.viol.Message)
		if c.viol.Input != "" {
			fmt.Printf("input: %s\n", c.viol.Input)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
		return 1
	}
	return 0
}
