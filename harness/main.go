// Command mc decides the properties of /verif/properties.jsonl by exhaustive
// exploration of bounded spaces on the real library.
package main

import (
	"flag"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

var props = map[string]func(*Ctx){}

// coldMode is set in the build with the controlled scheduler.
var coldMode func(string) int

func main() {
	if s := os.Getenv("VERIF_RACE"); s != "" {
		os.Exit(raceChild(s))
	}
	if s := os.Getenv("VERIF_COLD"); s != "" && coldMode != nil {
		os.Exit(coldMode(s))
	}
	os.Exit(run())
}

func run() int {
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "space:index to re-run")
	flag.Parse()
	f, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	time.Local = time.FixedZone("local", -(3*3600 + 1800)) // results must not depend on the machine's zone
	debug.SetGCPercent(400)
	scte35.Logger.SetOutput(io.Discard)
	if err := loadKnown(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{Prop: *prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", OnlyIdx: -1, start: time.Now(),
		known: map[string]int64{}, knownMsg: map[string]string{}, hseed: maphash.MakeSeed(), extra: map[string]any{}}
	limit := 400 * time.Second
	if c.Thorough {
		limit = 3 * time.Hour
	}
	c.deadline = time.Now().Add(limit)
	if *only != "" {
		i := strings.LastIndex(*only, ":")
		c.OnlySp = (*only)[:i]
		c.OnlyIdx, _ = strconv.ParseInt((*only)[i+1:], 10, 64)
	}
	go c.watch()
	c.prepared(f)
	return c.finish()
}

// prepared runs f, in which cases are also prepared by means of the library:
// a panic of the library there counts as one in a case.
func (c *Ctx) prepared(f func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			st := debug.Stack()
			if e, ok := r.(failure); ok {
				c.broken("preparing cases", e.msg)
			} else if inLibrary(string(st)) {
				c.broken("preparing cases", fmt.Sprintf("panic: %v\n%s", r, trimStack(st)))
			} else {
				panic(r)
			}
		}
	}()
	f(c)
}

// inLibrary: the innermost function of the stack that is not of the Go
// distribution is the library's.
func inLibrary(st string) bool { return strings.Contains(st, "scte35-go/pkg/scte35.") }

func (c *Ctx) broken(what, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.viol == nil {
		c.viol = &violation{Property: c.Prop, Space: what, Index: -1, Case: what, Message: msg, Repro: "1 of 1",
			Rerun: fmt.Sprintf("cd /verif && VERIF_TIER=%s ./run.sh %s", c.Tier, c.Prop)}
	}
}

// watch ends the check with a violation when the library, used to prepare
// cases, does not come back, or when it takes all memory.
func (c *Ctx) watch() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var last int64
	since := time.Now()
	for range time.Tick(200 * time.Millisecond) {
		metrics.Read(m)
		memory := m[0].Value.Uint64() > 14<<30 && !c.Thorough || m[0].Value.Uint64() > 24<<30
		if n := c.cases.Load(); n != last {
			last, since = n, time.Now()
		}
		if !memory && time.Since(since) < hang+30*time.Second {
			continue
		}
		b := make([]byte, 1<<20)
		st := string(b[:runtime.Stack(b, true)])
		for _, g := range strings.Split(st, "\n\n") {
			if !inLibrary(g) {
				continue
			}
			msg := "the library does not come back (no result after 2 minutes)"
			if memory {
				msg = "the library takes all memory"
			}
			c.broken("watchdog", msg+"\n"+trimStack([]byte(g)))
			c.finish()
			os.Exit(1)
		}
		since = time.Now()
	}
}
