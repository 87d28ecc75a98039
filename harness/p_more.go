package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C19"] = propLimits
	props["C20"] = propUnknown
	props["C21"] = propLegacy
	props["C23"] = propEncryption
}

// ---- C19 ----

// limitCases puts every count and length at, below and above its limit.
func limitCases(thorough bool, y yieldFn) bool {
	around := func(l int, far ...int) []int {
		v := []int{l - 2, l - 1, l, l + 1, l + 2, l + 3}
		return append(v, far...)
	}
	ok := true
	emit := func(name string, m *Sec) {
		if ok {
			ok = y(Case{name, m})
		}
	}
	// counts of components and events
	for _, n := range around(255, 0, 1, 256+16, 511, 512, 513, 767, 768, 1000) {
		for v := 0; v < 3; v++ {
			c := insBase()
			s := &CSched{Events: []SEvent{evBase(7)}}
			for i := 0; i < n; i++ {
				t := uint32(i) & 0xFF
				ic := IComp{Tag: t}
				if v == 0 {
					c.Imm = true
				}
				if v == 2 {
					ic.HasST, ic.PTS = true, p64(uint64(i))
				}
				c.Comps = append(c.Comps, ic)
				s.Events[0].Comps = append(s.Events[0].Comps, SComp{t, uint32(i)})
			}
			emit(fmt.Sprintf("splice_insert %d components v%d", n, v), hdr(c))
			if v == 0 {
				emit(fmt.Sprintf("splice_schedule %d components", n), hdr(s))
				e := evBase(8)
				e.Prog = p32(3)
				s2 := &CSched{Events: []SEvent{e, s.Events[0]}}
				emit(fmt.Sprintf("splice_schedule second event %d components", n), hdr(s2))
			}
		}
		ev := &CSched{}
		mixed := &CSched{}
		for i := 0; i < n; i++ {
			ev.Events = append(ev.Events, SEvent{ID: uint32(i), Cancel: true})
			e := SEvent{ID: uint32(i), Cancel: i%5 != 0}
			if !e.Cancel {
				e = evBase(uint32(i))
				e.Prog = p32(uint32(i))
			}
			mixed.Events = append(mixed.Events, e)
		}
		emit(fmt.Sprintf("splice_schedule %d cancelled events", n), hdr(ev))
		emit(fmt.Sprintf("splice_schedule %d events", n), hdr(mixed))
	}
	for n := 0; n <= 40; n++ {
		d := &DDTMF{177, string(bytes.Repeat([]byte("7"), n))}
		emit(fmt.Sprintf("%d dtmf characters", n), hdr(&CTime{p64(1)}, d))
		a := &DAudio{}
		for i := 0; i < n; i++ {
			a.Ch = append(a.Ch, AudioCh{uint32(i), "eng", 1, 2, i%2 == 0})
		}
		emit(fmt.Sprintf("%d audio channels", n), hdr(&CTime{p64(1)}, a))
		emit(fmt.Sprintf("%d audio channels after", n), hdr(&CTime{p64(1)}, &DAvail{1}, a, &DAvail{2}))
	}
	for _, r := range []string{"é", "日", "😀", "\x00", "\xff", "é7", "7日", "77é", "777😀"} {
		for n := 1; n <= 18; n++ {
			for cut := 0; cut < 2; cut++ {
				t := strings.Repeat(r, n)
				t = t[:len(t)-cut]
				emit(fmt.Sprintf("dtmf characters %q", t), hdr(&CTime{p64(1)}, &DDTMF{177, t}))
				emit(fmt.Sprintf("dtmf characters %q among others", t), hdr(&CTime{p64(1)}, &DAvail{1}, &DDTMF{0, t}, &DAvail{2}))
			}
		}
	}
	// descriptors of every tag and provider
	for tag := uint32(0); tag < 256; tag++ {
		for _, id := range []uint32{9, 0, 0xFFFFFFFF, 0x43554548, 0x43554549} {
			if id == 0x43554549 && tag <= 4 {
				continue
			}
			for _, n := range []int{250, 251, 252, 255, 256, 300, 507, 600} {
				emit(fmt.Sprintf("private descriptor %#x of %#x with %d bytes", tag, id, n), hdr(&CTime{p64(1)}, &DPriv{tag, id, pat(n)}))
			}
		}
		emit(fmt.Sprintf("private descriptors %#x, the second too long", tag), hdr(&CTime{p64(1)}, &DPriv{tag, 9, pat(3)}, &DPriv{tag, 9, pat(252)}))
		emit(fmt.Sprintf("private descriptors %#x, the first too long", tag), hdr(&CNull{}, &DPriv{tag, 9, pat(252)}, &DPriv{tag, 9, pat(3)}))
	}
	for _, iso := range []string{"", "e", "en", "eng", "engl", "english", "\u00e9", "\u00e9n", "\u00e9ng", "日", "äöü", "日本語", "aä", "äb", "a日", "\U0001F600", "e\x00g", "\x00\x00", "\xFF\xFF\xFF\xFF", "äö", "engspa"} {
		for at := 0; at < 3; at++ {
			a := &DAudio{Ch: []AudioCh{{1, "eng", 1, 2, true}, {2, "spa", 1, 2, true}, {3, "fra", 1, 2, true}}}
			a.Ch[at].ISO = iso
			emit(fmt.Sprintf("ISO code %q at %d", iso, at), hdr(&CTime{p64(1)}, a))
		}
	}
	// descriptor_length
	for n := 0; n <= 4200; n++ {
		emit(fmt.Sprintf("private descriptor with %d bytes", n), hdr(&CTime{p64(1)}, &DPriv{9, 9, pat(n)}))
		if n > 0 {
			g := segBase()
			g.UPIDs = []UPID{{0x0F, textPat(n)}}
			emit(fmt.Sprintf("UPID of %d bytes", n), hdr(&CTime{p64(1)}, g))
			g = segBase()
			g.UPIDs = []UPID{{0x09, []byte("SIG")}, {0x0F, textPat(n)}}
			emit(fmt.Sprintf("UPID of %d bytes in a list", n), hdr(&CTime{p64(1)}, g, &DAvail{3}))
		}
		emit(fmt.Sprintf("%d dtmf characters", n), hdr(&CTime{p64(1)}, &DDTMF{177, string(bytes.Repeat([]byte("7"), n))}))
		if n > 800 {
			continue
		}
		if n > 300 && n%256 > 20 {
			continue
		}
		for _, typ := range []uint32{0x09, 0x0C, 0x0F, 0x05, 0x7F} {
			if typ == 0x0C && n < 4 {
				continue
			}
			g := segBase()
			u := UPID{typ, textPat(n)}
			g.UPIDs = []UPID{u}
			if n > 0 {
				emit(fmt.Sprintf("UPID type %#x of %d bytes", typ, n), hdr(&CTime{p64(1)}, g))
			}
			h := segBase()
			h.UPIDs = []UPID{{0x09, []byte("SIG")}, u}
			h.Dur = p64(9)
			h.SubNum, h.SubExpec = p32(1), p32(2)
			if n > 0 {
				emit(fmt.Sprintf("MID with UPID type %#x of %d bytes", typ, n), hdr(&CTime{p64(1)}, &DAvail{3}, h))
			}
		}
		if n <= 140 {
			g := segBase()
			for i := 0; i < n; i++ {
				g.UPIDs = append(g.UPIDs, UPID{0x09, []byte{'a' + byte(i%26)}})
			}
			emit(fmt.Sprintf("MID with %d UPIDs", n), hdr(&CTime{p64(1)}, g))
			g2 := segBase()
			for i := 0; i < n; i++ {
				g2.Comps = append(g2.Comps, GComp{uint32(i), uint64(i)})
			}
			emit(fmt.Sprintf("segmentation with %d components", n), hdr(&CTime{p64(1)}, g2))
		}
	}
	for _, n := range around(255, 256+40, 300, 512, 600) {
		g := segBase()
		for i := 0; i < n; i++ {
			g.Comps = append(g.Comps, GComp{uint32(i) & 0xFF, uint64(i)})
		}
		emit(fmt.Sprintf("segmentation with %d components", n), hdr(&CTime{p64(1)}, g))
	}
	// section_length
	step := 1
	lo, hi := 4030, 4140
	if thorough {
		lo, hi = 3900, 4400
	}
	for n := lo; n < hi; n += step {
		emit(fmt.Sprintf("private command of %d bytes", n), hdr(&CPriv{Ident: 1, Bytes: pat(n)}))
		// the same total spread over descriptors
		for _, size := range []int{251, 200, 17} {
			m := hdr(&CTime{p64(1)})
			left := n
			for left > 0 {
				k := min(size, left)
				m.Desc = append(m.Desc, &DPriv{9, 9, pat(k)})
				left -= k + 6
			}
			emit(fmt.Sprintf("descriptors of %d bytes in all, %d each", n, size), m)
			e := *m
			e.EncAlg = 1
			emit(fmt.Sprintf("encrypted, descriptors of %d bytes in all, %d each", n, size), &e)
		}
		// and over command and descriptors
		m := hdr(&CPriv{Ident: 1, Bytes: pat(n - 300)})
		m.Desc = []Desc{&DPriv{9, 9, pat(200)}, segBase(), &DAvail{7}, &DAvail{8}}
		emit(fmt.Sprintf("private command and descriptors %d", n), m)
	}
	for _, n := range []int{4200, 4352, 5000, 8191, 8192, 8200, 65535, 65536, 65600, 70000, 1 << 20} {
		emit(fmt.Sprintf("private command of %d bytes", n), hdr(&CPriv{Ident: 1, Bytes: pat(n)}))
	}
	for _, n := range []int{15, 16, 17, 32, 64, 254, 255, 256, 257, 300} {
		m := hdr(&CTime{p64(1)})
		for i := 0; i < n; i++ {
			m.Desc = append(m.Desc, &DPriv{9, uint32(i), pat(251)})
		}
		emit(fmt.Sprintf("%d descriptors of 257 bytes", n), m)
		m = hdr(&CTime{p64(1)})
		for i := 0; i < n; i++ {
			m.Desc = append(m.Desc, &DAvail{uint32(i)})
		}
		emit(fmt.Sprintf("%d avail descriptors", n), m)
	}
	return ok
}

// limitPlaces puts one part that is at or over its limit at every place of
// longer lists.
func limitPlaces(thorough bool, y yieldFn) bool {
	over := []struct {
		name string
		mk   func(extra int) Desc // extra 0: at the limit
	}{
		{"private", func(x int) Desc { return &DPriv{9, 9, pat(251 + x)} }},
		{"dtmf", func(x int) Desc { return &DDTMF{1, "1234567890123456"[:7+x]} }},
		{"audio", func(x int) Desc {
			a := &DAudio{}
			for i := 0; i < 15+x; i++ {
				a.Ch = append(a.Ch, AudioCh{uint32(i), "eng", 1, 2, true})
			}
			return a
		}},
		{"iso", func(x int) Desc { return &DAudio{[]AudioCh{{1, "english"[:3+x%5], 1, 2, true}}} }},
		{"upid", func(x int) Desc {
			g := segBase()
			g.UPIDs = []UPID{{0x0F, textPat(240 + x)}}
			return g
		}},
		{"mid", func(x int) Desc {
			g := segBase()
			g.UPIDs = []UPID{{0x0F, textPat(100)}, {0x0E, textPat(136 + x)}}
			return g
		}},
		{"components", func(x int) Desc {
			g := segBase()
			g.TypeID = 0x10
			for i := 0; i < 39+x; i++ {
				g.Comps = append(g.Comps, GComp{uint32(i), uint64(i)})
			}
			return g
		}},
	}
	lens := []int{1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 33}
	if thorough {
		lens = nil
		for n := 1; n <= 40; n++ {
			lens = append(lens, n)
		}
	}
	fillers := []func(i int) Desc{
		func(i int) Desc { return &DAvail{uint32(i)} },
		func(i int) Desc { g := segBase(); g.UPIDs = []UPID{{0x09, []byte("A")}}; return g },
		func(i int) Desc { return &DPriv{uint32(i), 5, pat(i % 3)} },
	}
	for _, o := range over {
		for _, n := range lens {
			for pos := 0; pos < n; pos++ {
				for f, fill := range fillers {
					for x := 0; x <= 2; x++ {
						m := hdr(&CTime{p64(1)})
						for i := 0; i < n; i++ {
							if i == pos {
								m.Desc = append(m.Desc, o.mk(x))
							} else {
								m.Desc = append(m.Desc, fill(i))
							}
						}
						if !y(Case{fmt.Sprintf("%s limit+%d at %d of %d, others %d", o.name, x, pos, n, f), m}) {
							return false
						}
					}
				}
			}
		}
	}
	for _, n := range []int{1, 2, 3, 8, 20} {
		for pos := 0; pos < n; pos++ {
			for x := 0; x <= 2; x++ {
				for v := 0; v < 2; v++ {
					sc := &CSched{}
					for i := 0; i < n; i++ {
						e := evBase(uint32(i))
						e.Prog = p32(uint32(i))
						if i == pos {
							e.Prog = nil
							for j := 0; j < 255+x; j++ {
								e.Comps = append(e.Comps, SComp{uint32(j) & 0xFF, 1})
							}
						} else if v == 1 {
							e = SEvent{ID: uint32(i), Cancel: true}
						}
						sc.Events = append(sc.Events, e)
					}
					if !y(Case{fmt.Sprintf("event %d of %d with %d components", pos, n, 255+x), hdr(sc, &DAvail{1})}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func checkLimit(k *K, cs Case) { encodesIfFits(k, lib(cs.M), cs.M) }

// encodesIfFits: s, which holds what m does, encodes as m or not at all.
func encodesIfFits(k *K, s *scte35.SpliceInfoSection, m *Sec) {
	k.StateS(fmt.Sprintf("%s%x", dump(s), m.Stuff))
	b, err := s.Encode()
	t64, thex := s.Base64(), s.Hex()
	k.T(3)
	k.Validated(1)
	if representable(m) {
		w := enc(m)
		if err != nil || !bytes.Equal(b, w) {
			k.Fail("fits, but encodes as %.200x (%v), want %.200x", b, err, w)
		}
		if t64 != stdB64(w) || len(thex) != 2*len(w) {
			k.Fail("fits, but Base64() %.200s Hex() %.200s", t64, thex)
		}
		return
	}
	if err == nil {
		k.Fail("does not fit, yet encodes without an error, as %.200x... (%d bytes)", b, len(b))
	}
	if t64 != "" || thex != "" {
		k.Fail("does not fit, yet Base64() %.200q Hex() %.200q", t64, thex)
	}
	// the rest still works
	_ = s.Table("", "\t")
	if _, err := json.Marshal(s); err != nil {
		k.Fail("json.Marshal: %v", err)
	}
	if _, err := xml.Marshal(s); err != nil {
		k.Fail("xml.Marshal: %v", err)
	}
	k.T(3)
}

func propLimits(c *Ctx) {
	c.Assume("counts and lengths are judged; a numeric field holding more than its wire width is outside the property")
	ExploreCases(c, "limits", func(y yieldFn) bool { return limitCases(c.Thorough, y) }, checkLimit)
	ExploreCases(c, "places", func(y yieldFn) bool { return limitPlaces(c.Thorough, y) }, checkLimit)
	ExploreCases(c, "no-command", mutBases, func(k *K, cs Case) {
		s := lib(cs.M)
		s.SpliceCommand = nil
		k.StateS(dump(s))
		b, err := s.Encode()
		k.T(3)
		k.Validated(1)
		if err == nil || s.Base64() != "" || s.Hex() != "" {
			k.Fail("without a command, encodes as %x", b)
		}
	})
	// received sections grown until they no longer fit, and cut back
	ExploreCases(c, "grown", func(y yieldFn) bool {
		for _, alg := range []uint32{0, 1} {
			for _, st := range []int{0, 1, 7, 200} {
				for _, n := range []int{0, 3, 14, 15} {
					m := hdr(&CTime{p64(1)}, segBase())
					m.EncAlg, m.Stuff = alg, pat(st)
					for i := 0; i < n; i++ {
						m.Desc = append(m.Desc, &DPriv{9, uint32(i), pat(251)})
					}
					if representable(m) && !y(Case{fmt.Sprintf("alg %d stuffing %d descriptors %d", alg, st, n), m}) {
						return false
					}
				}
			}
		}
		return true
	}, func(k *K, cs Case) {
		m := cloneM(cs.M)
		s := decodeOK(k, enc(m))
		grow := func(n int) {
			m.Desc = append(m.Desc, &DPriv{10, 11, pat(n)})
			s.SpliceDescriptors = append(s.SpliceDescriptors, libDesc(&DPriv{10, 11, pat(n)}))
			encodesIfFits(k, s, m)
		}
		for i := 0; i < 17 && representable(m); i++ {
			grow(251)
		}
		for i := 0; i < 2; i++ { // cut back, then byte by byte over the limit
			m.Desc = m.Desc[:len(m.Desc)-1]
			s.SpliceDescriptors = s.SpliceDescriptors[:len(s.SpliceDescriptors)-1]
			encodesIfFits(k, s, m)
		}
		for i := 0; i < 60 && representable(m); i++ {
			grow(i % 7)
		}
	})
}

// ---- C20 ----

func listAlphabet() []Desc {
	full := segBase()
	full.UPIDs = []UPID{{0x09, []byte("SIGNAL:abc")}, {0x0C, []byte("DISCxyz")}}
	full.SubNum, full.SubExpec = p32(3), p32(4)
	return []Desc{
		&DAvail{1}, &DAvail{2}, &DDTMF{9, "12"}, &DTime{1, 2, 3}, &DAudio{[]AudioCh{{1, "eng", 5, 9, true}}}, full,
		&DSeg{ID: 4, Cancel: true},
		&DPriv{0x00, 0x46464646, []byte{0, 0, 0, 9}}, // a foreign descriptor with the tag of avail_descriptor
		&DPriv{0x01, 0x43554548, []byte{1, 2}},
		&DPriv{0x02, 0x43554549 ^ 0x80000000, pat(30)}, // looks like a segmentation_descriptor
		&DPriv{0x03, 0x49455543, pat(12)},
		&DPriv{0x04, 0, nil},
		&DPriv{0x05, cuei, []byte("CUEI")},
		&DPriv{0xFE, cuei, nil},
		&DPriv{0xF0, 0x41424344, []byte{0xFF, 0x00}},
	}
}

type conv struct {
	name string
	do   func(*K, *scte35.SpliceInfoSection) *scte35.SpliceInfoSection
}

func convs() []conv {
	var cs []conv
	all, _ := sequenceOps()
	for _, o := range all {
		switch o.name {
		case "binary", "base64", "hex", "json", "xml", "table", "binary-in-place", "json-in-place":
			cs = append(cs, conv{o.name, o.impl})
		}
	}
	cs = append(cs, conv{"xml-in-place", func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
		must(k, xml.Unmarshal(toXML(k, s, true), s), "UnmarshalXML")
		return s
	}})
	return cs
}

func propUnknown(c *Ctx) {
	cv := convs()
	chains := func(depth int) [][]int {
		var out [][]int
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) == depth {
				out = append(out, append([]int(nil), p...))
				return
			}
			for i := range cv {
				rec(append(p, i))
			}
		}
		rec(nil)
		return out
	}
	through := func(chs [][]int) func(*K, Case) {
		return func(k *K, cs Case) {
			m := cs.M
			b := enc(m)
			k.State(b)
			k.Input("%x", b)
			want := dump(lib(m))
			for _, ch := range chs {
				for start := 0; start < 2; start++ {
					var s *scte35.SpliceInfoSection
					if start == 0 {
						s = decodeOK(k, b)
					} else {
						s = lib(m)
					}
					path := []string{"decoded", "built"}[start]
					for _, i := range ch {
						s = cv[i].do(k, s)
						path += ", " + cv[i].name
						k.T(1)
					}
					k.Validated(1)
					if g := dump(s); g != want {
						k.Fail("%s: the section differs: %s", path, diff(g, want))
					}
					e, err := s.Encode()
					if w := enc(m.onWire()); err != nil || !bytes.Equal(e, w) {
						k.Fail("%s: encodes as %x (%v), want %x", path, e, err, w)
					}
				}
			}
		}
	}
	al := listAlphabet()
	lists := func(n int, cmds []Cmd) func(yieldFn) bool {
		return func(y yieldFn) bool {
			for _, cmd := range cmds {
				var rec func(ds []Desc, name string) bool
				rec = func(ds []Desc, name string) bool {
					if !y(Case{name, hdr(cmd, ds...)}) {
						return false
					}
					if len(ds) == n {
						return true
					}
					for i, d := range al {
						if !rec(append(ds[:len(ds):len(ds)], d), fmt.Sprintf("%s %d", name, i)) {
							return false
						}
					}
					return true
				}
				if !rec(nil, fmt.Sprintf("%T", cmd)) {
					return false
				}
			}
			return true
		}
	}
	cmds := []Cmd{&CNull{}, &CPriv{Ident: 0xFFFFFFFF, Bytes: []byte{0, 1, 0xFE}}}
	ExploreCases(c, "lists", lists(3, cmds), through(chains(1)))
	d := 2
	if c.Thorough {
		d = 3
	}
	ExploreCases(c, "chains", lists(2, cmds), through(chains(d)))
	if c.Thorough {
		ExploreCases(c, "lists-of-4", lists(4, cmds[:1]), through(chains(1)))
	}
	// every tag with identifiers near and far from CUEI; every payload length
	ExploreCases(c, "tags", func(y yieldFn) bool {
		ids := []uint32{cuei, 0, 0xFFFFFFFF, 0x46464646}
		for i := 0; i < 32; i++ {
			ids = append(ids, cuei^1<<i)
		}
		for _, id := range ids {
			for tag := uint32(0); tag < 256; tag++ {
				if id == cuei && tag <= 4 {
					continue
				}
				if !y(Case{fmt.Sprintf("tag %#x identifier %#x", tag, id), hdr(&CTime{p64(1)}, &DAvail{1}, &DPriv{tag, id, []byte{9, 8, 7}}, &DAvail{2})}) {
					return false
				}
			}
		}
		return true
	}, through(chains(1)))
	ExploreCases(c, "lengths", func(y yieldFn) bool {
		for n := 0; n <= 251; n++ {
			for _, cmd := range []Cmd{&CTime{p64(1)}, &CPriv{Ident: 9, Bytes: pat(n * 3)}} {
				for v := 0; v < 3; v++ {
					p := pat(n)
					for i := range p {
						if v == 1 {
							p[i] = 0
						}
						if v == 2 {
							p[i] = "<&\"'> \n\\"[i%8]
						}
					}
					if !y(Case{fmt.Sprintf("%d private bytes", n), hdr(cmd, &DPriv{9, 9, p}, &DPriv{9, 9, p})}) {
						return false
					}
				}
			}
		}
		return true
	}, through(chains(1)))
	// long lists
	ExploreCases(c, "long-lists", func(y yieldFn) bool {
		for n := 4; n <= 120; n += 4 {
			for v := 0; v < 3; v++ {
				m := hdr(&CTime{p64(1)})
				for i := 0; i < n; i++ {
					switch {
					case v == 0 || v == 2 && i%3 == 0:
						m.Desc = append(m.Desc, &DPriv{9, uint32(i), []byte{byte(i)}})
					case v == 1:
						m.Desc = append(m.Desc, al[i%len(al)])
					default:
						m.Desc = append(m.Desc, &DAvail{uint32(i % 5)})
					}
				}
				if representable(m) && !y(Case{fmt.Sprintf("%d descriptors v%d", n, v), m}) {
					return false
				}
			}
		}
		return true
	}, through(chains(1)))
	// commands of every unassigned type
	Explore(c, "command-types", func(y func([2]int) bool) {
		for t := 0; t < 256; t++ {
			switch t {
			case 0, 4, 5, 6, 7:
				continue
			}
			for n := 0; n <= 40; n++ {
				if !y([2]int{t, n}) {
					return
				}
			}
		}
	}, func(x [2]int) string { return fmt.Sprintf("command type %#x with %d bytes", x[0], x[1]) }, func(k *K, x [2]int) {
		m := hdr(&CPriv{Ident: 0x01020304, Bytes: pat(x[1]), Type: uint32(x[0])}, &DAvail{1}, &DPriv{9, 9, pat(3)})
		b := enc(m)
		k.State(b)
		k.Input("%x", b)
		want := dump(lib(m))
		for i := range cv {
			s := decodeOK(k, b)
			k.Validated(2)
			if g := dump(s); g != want {
				k.Fail("decodes differently: %s", diff(g, want))
			}
			if g := dump(cv[i].do(k, s)); g != want {
				k.Fail("after %s: %s", cv[i].name, diff(g, want))
			}
			k.T(1)
		}
	})
}

// ---- C21 ----

func legacyUniverse(level int, y yieldFn) bool {
	return universe(level, func(cs Case) bool {
		if _, ok := cs.M.Cmd.(*CPriv); ok {
			return true
		}
		return y(cs)
	})
}

func checkLegacy(k *K, cs Case) {
	m := cs.M
	b := encode(m, encOpt{legacy: true}).b
	k.State(b)
	k.Input("%x", b)
	s := decodeOK(k, b)
	k.Validated(2)
	sameAs(k, s, m.onWire(), "the legacy section")
	e, err := s.Encode()
	k.T(1)
	if w := enc(m.onWire()); err != nil || !bytes.Equal(e, w) {
		k.Fail("the legacy section re-encodes as %x (%v), want %x", e, err, w)
	}
}

func propLegacy(c *Ctx) {
	c.Assume("the length of a private or unknown command cannot be told without splice_command_length; such legacy sections are outside the property")
	ExploreCases(c, "universe", func(y yieldFn) bool { return legacyUniverse(c.level(), y) }, checkLegacy)
	raw := func(gen func(yieldFn) bool) func(func(rawCase) bool) {
		return func(y func(rawCase) bool) {
			gen(func(cs Case) bool {
				if _, ok := cs.M.Cmd.(*CPriv); ok {
					return true
				}
				b := encode(cs.M, encOpt{legacy: true}).b
				for n := 0; n < len(b); n++ {
					if !y(rawCase{cs.Name + " cut", b[:n]}) {
						return false
					}
					if n < 4 {
						continue
					}
					x := cp(b[:n])
					putCRC(x)
					if !y(rawCase{cs.Name + " cut, CRC_32 made right", x}) {
						return false
					}
				}
				return true
			})
		}
	}
	n := 1
	if c.Thorough {
		n = 2
	}
	Explore(c, "cuts", raw(func(y yieldFn) bool { return shapes(n, y) }), rawCase.String, func(k *K, x rawCase) {
		k.State(x.b)
		checkAgainstRef(k, x.b)
	})
	Explore(c, "mutants", func(y func(rawCase) bool) {
		mutBases(func(cs Case) bool {
			if _, ok := cs.M.Cmd.(*CPriv); ok {
				return true
			}
			b := encode(cs.M, encOpt{legacy: true}).b
			for i := 13; i < len(b)-4; i++ {
				for v := 0; v < 256; v++ {
					x := cp(b)
					x[i] = byte(v)
					putCRC(x)
					if !y(rawCase{cs.Name, x}) {
						return false
					}
				}
			}
			return true
		})
	}, rawCase.String, func(k *K, x rawCase) {
		// the command type may have become one whose length cannot be told
		switch x.b[13] {
		case 0, 4, 5, 6, 7:
		default:
			checkTotal(k, x.b)
			return
		}
		k.State(x.b)
		checkAgainstRef(k, x.b)
	})
}

// ---- C23 ----

func encryptedCases(thorough bool, y yieldFn) bool {
	one := func(name string, m *Sec) bool { return !representable(m) || y(Case{name, m}) }
	top := 12
	if thorough {
		top = 40
	}
	ok := shapes(1, func(cs Case) bool {
		for _, alg := range []uint32{0, 1, 3, 32, 63} {
			for st := 0; st <= top; st++ {
				m := cloneM(cs.M)
				m.EncAlg, m.CW, m.Stuff = alg, alg*4, pat(st)
				if !one(fmt.Sprintf("%s alg=%d stuffing=%d", cs.Name, alg, st), m) {
					return false
				}
			}
		}
		return true
	})
	if !ok {
		return false
	}
	for alg := uint32(0); alg < 64; alg++ {
		for cw := uint32(0); cw < 256; cw++ {
			for st := 0; st < 3; st++ {
				m := hdr(&CTime{p64(3)}, segBase())
				m.EncAlg, m.CW, m.Stuff = alg, cw, pat(st*5)
				if !one(fmt.Sprintf("alg=%d cw=%d stuffing=%d", alg, cw, st*5), m) {
					return false
				}
			}
		}
	}
	for st := 0; st < 4080; st++ {
		if !thorough && st > 600 && st%16 != 0 && st < 4020 {
			continue
		}
		for _, alg := range []uint32{0, 2} {
			m := hdr(&CNull{})
			m.EncAlg, m.Stuff = alg, pat(st)
			if !one(fmt.Sprintf("alg=%d stuffing=%d", alg, st), m) {
				return false
			}
		}
	}
	// content of the stuffing
	for v := 0; v < 256; v++ {
		for n := 1; n <= 9; n++ {
			for _, alg := range []uint32{0, 2} {
				m := hdr(&CTime{p64(9)}, &DAvail{1})
				m.EncAlg, m.Stuff = alg, bytes.Repeat([]byte{byte(v)}, n)
				if !one(fmt.Sprintf("alg=%d stuffing=%x", alg, m.Stuff), m) {
					return false
				}
			}
		}
	}
	return true
}

func checkEncrypted(k *K, cs Case) {
	m := cs.M
	w := m.onWire()
	b := enc(w)
	k.State(b)
	k.Input("%x", b)
	// what is written for a section built in memory (no stuffing there)
	bare := noStuff(m)
	e, err := lib(bare).Encode()
	k.T(1)
	k.Validated(1)
	if x := enc(bare.onWire()); err != nil || !bytes.Equal(e, x) {
		k.Fail("encodes as %x (%v), want %x", e, err, x)
	}
	receiver(k, e, m.EncAlg != 0)
	// what a received one gives
	s := decodeOK(k, b)
	sameAs(k, s, w, "the section")
	if s.EncryptedPacketFlag() != (m.EncAlg != 0) {
		k.Fail("EncryptedPacketFlag() %v with algorithm %d", s.EncryptedPacketFlag(), m.EncAlg)
	}
	e, err = s.Encode()
	k.T(2)
	k.Validated(2)
	if err != nil || !bytes.Equal(e, b) {
		k.Fail("re-encodes as %x (%v), want %x", e, err, b)
	}
	receiver(k, e, m.EncAlg != 0)
	// after edits
	for v := 0; v < 6; v++ {
		x := cloneM(w)
		s := decodeOK(k, b)
		switch v {
		case 0:
			x.EncAlg, s.EncryptedPacket.EncryptionAlgorithm = 0, 0
		case 1:
			x.EncAlg, s.EncryptedPacket.EncryptionAlgorithm = 5, 5
		case 2:
			x.EncAlg, s.EncryptedPacket.EncryptionAlgorithm = x.EncAlg^63, s.EncryptedPacket.EncryptionAlgorithm^63
		case 3:
			x.Desc = append(x.Desc, &DAvail{77})
			s.SpliceDescriptors = append(s.SpliceDescriptors, libDesc(&DAvail{77}))
		case 4:
			x.Cmd = &CTime{p64(1<<33 - 1)}
			s.SpliceCommand = libCmd(x.Cmd)
		case 5:
			x.PTSAdj, x.CW = x.PTSAdj^1, x.CW^255
			s.PTSAdjustment, s.EncryptedPacket.CWIndex = x.PTSAdj, x.CW
		}
		if !representable(x) {
			continue
		}
		e, err := s.Encode()
		k.T(2)
		k.Validated(1)
		if want := enc(x); err != nil || !bytes.Equal(e, want) {
			k.Fail("after edit %d encodes as %x (%v), want %x", v, e, err, want)
		}
		receiver(k, e, x.EncAlg != 0)
	}
}

// receiver does to an encoded section what a receiver does: find the flag,
// check the CRC over all of it and the E_CRC over the encrypted portion.
func receiver(k *K, b []byte, encrypted bool) {
	if (b[4]&0x80 != 0) != encrypted {
		k.Fail("encrypted_packet flag of %x is not %v", b, encrypted)
	}
	if crc(b) != 0 {
		k.Fail("CRC_32 of %x does not check", b)
	}
	if encrypted && crc(b[13:len(b)-4]) != 0 {
		k.Fail("E_CRC_32 of %x does not check", b)
	}
}

func propEncryption(c *Ctx) {
	c.Assume("the library neither encrypts nor decrypts: what is between the headers and E_CRC_32 is in the clear here")
	c.Assume("JSON and XML do not carry alignment stuffing")
	ExploreCases(c, "encryption", func(y yieldFn) bool { return encryptedCases(c.Thorough, y) }, checkEncrypted)
	// cuts and length contradictions of encrypted sections
	Explore(c, "cuts", func(y func(rawCase) bool) {
		cuts(func(yy yieldFn) bool {
			for _, st := range []int{0, 1, 4, 5, 9} {
				for _, alg := range []uint32{0, 1, 63} {
					m := hdr(&CTime{p64(3)}, segBase())
					m.EncAlg, m.Stuff = alg, pat(st)
					if !yy(Case{fmt.Sprintf("alg=%d stuffing=%d", alg, st), m}) {
						return false
					}
				}
			}
			return true
		}, y)
	}, rawCase.String, func(k *K, x rawCase) {
		k.State(x.b)
		checkAgainstRef(k, x.b)
	})
	// the flag without an algorithm, and an algorithm without the flag
	ExploreCases(c, "flag-only", func(y yieldFn) bool { return shapes(1, y) }, func(k *K, cs Case) {
		for st := 0; st < 6; st++ {
			m := cloneM(cs.M)
			m.EncAlg, m.Stuff = 0, pat(st)
			if !representable(m) {
				continue
			}
			b := encode(m, encOpt{encFlag: true}).b
			k.State(b)
			k.Input("%x", b)
			k.Validated(1)
			sameAs(k, decodeOK(k, b), m.onWire(), "the section")
			m.EncAlg = 9
			b = encode(m, encOpt{}).b
			b[4] &^= 0x80 // encrypted_packet
			// without the flag there is no E_CRC_32: its four bytes are stuffing
			putCRC(b)
			k.State(b)
			k.Input("%x", b)
			k.Validated(1)
			sameAs(k, decodeOK(k, b), m.onWire(), "the section")
		}
	})
}
