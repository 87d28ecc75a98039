package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() { props["C27"] = propQuiet }

// C27: what the library has to report goes to Logger and nowhere else, and
// there is nothing to report about conforming sections.

// tellTale counts the messages a logger was given.
type tellTale struct {
	n    atomic.Int64
	mu   sync.Mutex
	last string
}

func (w *tellTale) Write(b []byte) (int, error) {
	w.mu.Lock()
	w.last = string(b)
	w.mu.Unlock()
	w.n.Add(1)
	return len(b), nil
}

func (w *tellTale) text() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.last
}

// capture is the standard output and error of the process while the library
// runs: a file.
type capture struct {
	f    *os.File
	save [2]int
	seen atomic.Int64
}

// restoreOutput gives the process its output back; finish calls it first.
var restoreOutput = func() {}

func captureOutput() *capture {
	f, err := os.CreateTemp(os.Getenv("VERIF_TMP"), "output")
	if err != nil {
		panic(err)
	}
	_ = os.Remove(f.Name())
	c := &capture{f: f}
	for i := range c.save {
		if c.save[i], err = syscall.Dup(i + 1); err == nil {
			err = syscall.Dup3(int(f.Fd()), i+1, 0)
		}
		if err != nil {
			panic(err)
		}
	}
	crash := os.NewFile(uintptr(c.save[1]), "stderr")
	crashTo(crash)
	var once sync.Once
	restoreOutput = func() {
		once.Do(func() {
			for i := range c.save {
				_ = syscall.Dup3(c.save[i], i+1, 0)
			}
			crashTo(nil)
		})
	}
	return c
}

// check fails when something was written since the last time.
func (c *capture) check(k *K) {
	st, err := c.f.Stat()
	if err != nil {
		panic(err)
	}
	if at := c.seen.Load(); st.Size() > at && c.seen.CompareAndSwap(at, st.Size()) {
		b := make([]byte, 200)
		n, _ := c.f.ReadAt(b, at)
		k.Fail("something is written to standard output or standard error: %q", b[:n])
	}
}

// everything does all there is to do with s.
func everything(k *K, s *scte35.SpliceInfoSection) {
	for _, op := range readOps {
		op.do(s)
	}
	_ = s.Table("x", "")
	_ = s.Duration()
	k.T(len(readOps) + 2)
}

func propQuiet(c *Ctx) {
	c.Assume("sections whose UPIDs are not of the form their type has are not sound, and may cause messages")
	out := captureOutput()
	defer restoreOutput()
	main := scte35.Logger
	defer func() { scte35.Logger = main }()
	w := &tellTale{}
	scte35.Logger = log.New(w, "", 0)
	var said atomic.Int64
	silent := func(k *K) {
		if n, at := w.n.Load(), said.Load(); n > at && said.CompareAndSwap(at, n) {
			k.Fail("a message is logged about a sound section: %q", w.text())
		}
		out.check(k)
	}
	lv := 0
	if c.Thorough {
		lv = c.deep()
	}
	ExploreCases(c, "sound-sections", func(y yieldFn) bool { return universe(lv, y) }, func(k *K, cs Case) {
		m := cs.M
		if !upidsWellFormed(m) {
			return
		}
		b := enc(m)
		k.State(b)
		k.Input("%x", b)
		s := implFor(k, m)
		everything(k, s)
		for i, f := range []func() (*scte35.SpliceInfoSection, error){
			func() (*scte35.SpliceInfoSection, error) { r := &scte35.SpliceInfoSection{}; return r, r.Decode(b) },
			func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex(fmt.Sprintf("0x%x", b)) },
			func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeBase64(stdB64(b)) },
		} {
			r, err := f()
			if err != nil {
				k.Fail("decoding (%d): %v", i, err)
			}
			if i == 0 {
				everything(k, r)
			}
			k.T(1)
		}
		if len(m.Stuff) == 0 && jsonable(m) {
			var r scte35.SpliceInfoSection
			if t, err := json.Marshal(s); err == nil && json.Unmarshal(t, &r) == nil {
				everything(k, &r)
			}
		}
		if len(m.Stuff) == 0 && xmlable(m) {
			var r scte35.SpliceInfoSection
			if t, err := xml.Marshal(s); err == nil && xml.Unmarshal(t, &r) == nil {
				everything(k, &r)
			}
		}
		k.Validated(1)
		silent(k)
	})
	// one at a time: a wrong checksum, and texts of what cannot be encoded, are reported
	var one sync.Mutex
	reported := func(k *K, what string, f func() bool) {
		one.Lock()
		defer one.Unlock()
		n := w.n.Load()
		if f() && w.n.Load() == n {
			k.Fail("%s is not reported to Logger", what)
		}
		k.T(1)
		k.Validated(1)
		said.Store(w.n.Load())
		out.check(k)
	}
	Explore(c, "wrong-checksums", func(y func(rawCase) bool) {
		mutBases(func(cs Case) bool {
			b := enc(cs.M)
			for i := 0; i < 32; i++ {
				p := cp(b)
				p[len(p)-1-i/8] ^= 1 << (i % 8)
				if !y(rawCase{cs.Name, p}) {
					return false
				}
			}
			for _, x := range [][]byte{{0, 0, 0, 0}, {0xFF, 0xFF, 0xFF, 0xFF}, b[len(b)-4:]} {
				p := append(cp(b[:len(b)-4]), x...)
				p[3] ^= 0xFF // protocol_version
				if !y(rawCase{cs.Name, p}) {
					return false
				}
			}
			return true
		})
	}, rawCase.String, func(k *K, r rawCase) {
		k.State(r.b)
		k.Input("%x", r.b)
		for i, f := range []func() error{
			func() error { return (&scte35.SpliceInfoSection{}).Decode(r.b) },
			func() error { _, err := scte35.DecodeHex(fmt.Sprintf("%x", r.b)); return err },
			func() error { _, err := scte35.DecodeBase64(stdB64(r.b)); return err },
		} {
			reported(k, fmt.Sprintf("a wrong CRC_32 (%d)", i), func() bool { return errors.Is(f(), scte35.ErrCRC32Invalid) })
		}
	})
	ExploreCases(c, "not-encodable", func(y yieldFn) bool {
		return limitCases(false, func(cs Case) bool { return cs.M.Cmd != nil && representable(cs.M) || y(cs) }) && mutBases(func(cs Case) bool {
			m := *cs.M
			m.Cmd, m.Stuff = nil, nil
			return y(Case{cs.Name + " without its command", &m})
		})
	}, func(k *K, cs Case) {
		k.Input("%s", cs.Name)
		s := lib(cs.M)
		if _, err := s.Encode(); err == nil {
			return
		}
		for _, f := range []func() string{s.Base64, s.Hex} {
			var t string
			reported(k, "a section that cannot be encoded", func() bool { t = f(); return true })
			if t != "" {
				k.Fail("a section that cannot be encoded gives the text %.100q", t)
			}
		}
	})
	// anything, with whatever messages: nothing beside them
	scte35.Logger = log.New(io.Discard, "", 0)
	Explore(c, "faulty", func(y func(rawCase) bool) {
		_ = cuts(mutBases, y) && upidStrings(c.Thorough, y) && descStrings(c.Thorough, y) && shortStrings(y) &&
			mutants(mutBases, func(x byteCase) bool { return y(rawCase{x.name, x.b}) })
	}, rawCase.String, func(k *K, r rawCase) {
		k.State(r.b)
		k.Input("%x", r.b)
		s := &scte35.SpliceInfoSection{}
		_ = s.Decode(r.b)
		everything(k, s)
		out.check(k)
	})
	Explore(c, "texts", func(y func(strCase) bool) { longMalformed(c.Thorough, y) }, strCase.String, func(k *K, x strCase) {
		k.StateS(x.s)
		k.Input("%.2000q", x.s)
		_, _ = scte35.DecodeBase64(x.s)
		_, _ = scte35.DecodeHex(x.s)
		k.T(2)
		out.check(k)
	})
	Explore(c, "documents", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			return jmutate(normal(jdoc(m)), func(path string, doc []byte, bad bool) bool { return y(badDoc{name + path, doc, false, bad}) }) &&
				xmutate(xdoc(m), func(path string, doc []byte, bad bool) bool { return y(badDoc{name + path, doc, true, bad}) })
		})
	}, badDoc.String, func(k *K, d badDoc) {
		k.State(d.doc)
		k.Input("%.3000s", d.doc)
		s := &scte35.SpliceInfoSection{}
		if d.xml {
			_ = xml.Unmarshal(d.doc, s)
		} else {
			_ = json.Unmarshal(d.doc, s)
		}
		everything(k, s)
		out.check(k)
	})
	// wherever the caller has Logger write to, at any time
	Explore(c, "loggers", func(y func([]int) bool) {
		words(len(loggerConfigs)*len(loggerEvents), 1, 3, func(x []int) bool { return y(append([]int(nil), x...)) })
	}, func(x []int) string { return fmt.Sprint(x) }, func(k *K, x []int) {
		one.Lock()
		defer one.Unlock()
		defer func(l *log.Logger) { scte35.Logger = l }(scte35.Logger)
		k.StateS(fmt.Sprint(x))
		var all []*bytes.Buffer
		for i, v := range x {
			var buf bytes.Buffer
			all = append(all, &buf)
			cf, ev := loggerConfigs[v%len(loggerConfigs)], loggerEvents[v/len(loggerConfigs)]
			was := make([]int, len(all))
			for j := range all {
				was[j] = all[j].Len()
			}
			prefix := cf.set(&buf)
			ev.do()
			k.T(1)
			k.Validated(1)
			if g := buf.String(); cf.quiet != (g == "") || !strings.HasPrefix(g, prefix) || g != "" && !strings.HasSuffix(g, "\n") {
				k.Fail("step %d, Logger %s: %s is reported as %q", i, cf.name, ev.name, g)
			}
			for j := range all[:i] {
				if all[j].Len() != was[j] {
					k.Fail("step %d, Logger %s: %s is reported to the logger of step %d", i, cf.name, ev.name, j)
				}
			}
			out.check(k)
		}
	})
}

var loggerConfigs = []struct {
	name  string
	quiet bool
	set   func(*bytes.Buffer) string
}{
	{"replaced", false, func(b *bytes.Buffer) string { scte35.Logger = log.New(b, "", 0); return "" }},
	{"replaced, with a prefix", false, func(b *bytes.Buffer) string { scte35.Logger = log.New(b, "scte35: ", log.Ldate); return "scte35: 2" }},
	{"redirected", false, func(b *bytes.Buffer) string {
		scte35.Logger = log.New(io.Discard, "p ", 0)
		scte35.Logger.SetOutput(b)
		return "p "
	}},
	{"redirected in place", false, func(b *bytes.Buffer) string { scte35.Logger.SetOutput(b); return "" }},
	{"silenced", true, func(b *bytes.Buffer) string {
		scte35.Logger = log.New(b, "", 0)
		scte35.Logger.SetOutput(io.Discard)
		return ""
	}},
}

var loggerEvents = []struct {
	name string
	do   func()
}{
	{"a wrong CRC_32", func() {
		b := enc(hdr(&CTime{p64(7)}, segBase()))
		b[len(b)-1] ^= 1
		_ = (&scte35.SpliceInfoSection{}).Decode(b)
	}},
	{"the hexadecimal text of a section without a command", func() { _ = (&scte35.SpliceInfoSection{}).Hex() }},
	{"the base64 text of a section without a command", func() { _ = (&scte35.SpliceInfoSection{}).Base64() }},
}
