package main

import "fmt"

// Lists and contents as words over a small alphabet: every word up to a
// length, so that repetitions, near repetitions and every order of a few
// elements occur in every kind of list.

// words calls y with every word of length lo..hi over 0..n-1.
func words(n, lo, hi int, y func([]int) bool) bool {
	var rec func(w []int) bool
	rec = func(w []int) bool {
		if len(w) >= lo && !y(w) {
			return false
		}
		if len(w) == hi {
			return true
		}
		for i := 0; i < n; i++ {
			if !rec(append(w[:len(w):len(w)], i)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

var magicRaw = []string{"\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\x00\x00", "\x0D\x0A", "\x1F\x8B", "0x", "CUEI", "\xA0", "\xC2\xA0", "\xE2\x80\x83", "\x85", "\xC3\xA9", "\xFC0", "\x7F\x7F", "//", "==", "+/", "#", "\n#", "\n//", "10.5240/", "10.", "\\", "\x1B[0m"}

func listWords(level int, yield yieldFn) bool {
	ok := true
	y := func(name string, s *Sec) bool {
		if ok && representable(s) {
			ok = yield(Case{name, s})
		}
		return ok
	}
	hi := 3
	if level > 0 {
		hi = 4
	}
	if level > 2 {
		hi = 6
	}
	// components of a splice_insert
	ic := []IComp{{Tag: 5, HasST: true, PTS: p64(0x123456789)}, {Tag: 5}, {Tag: 5, HasST: true, PTS: p64(1)}, {Tag: 6, HasST: true, PTS: p64(0x123456789)}}
	words(len(ic), 1, hi, func(w []int) bool {
		for v := 0; v < 2; v++ {
			c := insBase()
			c.Imm = v == 1
			for _, i := range w {
				k := ic[i]
				if c.Imm {
					k.HasST, k.PTS = false, nil
				}
				c.Comps = append(c.Comps, k)
			}
			y(fmt.Sprintf("splice_insert component word %v", w), hdr(c))
		}
		return ok
	})
	// components of the first, second and third event
	sc := []SComp{{5, 0x4D8F6A01}, {5, 7}, {6, 0x4D8F6A01}, {0, 0}}
	words(len(sc), 1, hi, func(w []int) bool {
		for at := 0; at < 3; at++ {
			s := &CSched{}
			for i := 0; i < 3; i++ {
				e := evBase(uint32(i))
				if i == at {
					for _, x := range w {
						e.Comps = append(e.Comps, sc[x])
					}
				} else {
					e.Prog = p32(0x4D8F6A01)
				}
				s.Events = append(s.Events, e)
			}
			y(fmt.Sprintf("splice_schedule component word %v in event %d", w, at), hdr(s))
		}
		return ok
	})
	// events
	evs := []func() SEvent{
		func() SEvent { e := evBase(7); e.Prog = p32(0x4D8F6A01); return e },
		func() SEvent {
			e := evBase(7)
			e.Prog = p32(0x4D8F6A01)
			e.Break = &Brk{true, 2700000}
			return e
		},
		func() SEvent { return SEvent{ID: 7, Cancel: true, Compl: true} },
		func() SEvent { e := evBase(7); e.Comps = []SComp{{5, 0x4D8F6A01}, {5, 0x4D8F6A01}}; return e },
		func() SEvent { e := evBase(8); e.Prog = p32(0x4D8F6A00); return e },
		func() SEvent { e := evBase(7); e.Prog = p32(0x4D8F69FF); return e },
		func() SEvent { e := evBase(7); e.Prog = p32(0x4D8F6A01); e.UniqueID++; e.Avail++; return e },
	}
	words(len(evs), 1, hi, func(w []int) bool {
		s := &CSched{}
		for _, i := range w {
			s.Events = append(s.Events, evs[i]())
		}
		return y(fmt.Sprintf("event word %v", w), hdr(s))
	})
	// components of the first and second segmentation descriptor
	gc := []GComp{{5, 0x123456789}, {5, 0}, {6, 0x123456789}, {0, 0}}
	words(len(gc), 1, hi, func(w []int) bool {
		g := segBase()
		for _, i := range w {
			g.Comps = append(g.Comps, gc[i])
		}
		y(fmt.Sprintf("segmentation component word %v", w), hdr(&CTime{}, g))
		g2 := *g
		g2.Dur = p64(90000)
		return y(fmt.Sprintf("segmentation component word %v, second", w), hdr(&CTime{}, segBase(), &g2))
	})
	// audio channels
	ac := []AudioCh{{5, "eng", 1, 2, true}, {5, "eng", 1, 2, false}, {5, "fra", 1, 2, true}, {6, "eng", 1, 2, true}}
	words(len(ac), 1, hi, func(w []int) bool {
		a := &DAudio{}
		for _, i := range w {
			a.Ch = append(a.Ch, ac[i])
		}
		return y(fmt.Sprintf("audio channel word %v", w), hdr(&CNull{}, a))
	})
	for i := 0; i < 256; i++ { // every mode, number of channels and service
		y("audio channel product", hdr(&CNull{}, &DAudio{[]AudioCh{{uint32(i), "eng", uint32(i >> 5), uint32(i >> 1 & 15), i&1 == 1}, {9, "fra", uint32(i & 7), uint32(i >> 3 & 15), i>>7 == 1}}}))
	}
	// UPIDs
	us := []UPID{{0x0F, []byte("a/b")}, {0x09, []byte("a/b")}, {0x0F, []byte("c")}, {0x0F, nil}, {0x0C, []byte("ABCDxy")}}
	words(len(us), 2, hi, func(w []int) bool {
		g := segBase()
		for _, i := range w {
			g.UPIDs = append(g.UPIDs, us[i])
		}
		return y(fmt.Sprintf("segmentation_upid word %v", w), hdr(&CTime{}, g))
	})
	// descriptors
	ds := []func() Desc{
		func() Desc { return &DAvail{7} },
		func() Desc { return &DAvail{8} },
		func() Desc { return &DPriv{0xFE, 0x54455354, []byte{1, 2}} },
		func() Desc { return &DPriv{0xFE, 0x54455354, []byte{1, 3}} },
		func() Desc { return segBase() },
		func() Desc { g := segBase(); g.ID++; g.UPIDs = []UPID{upidText}; return g },
	}
	words(len(ds), 1, hi, func(w []int) bool {
		s := hdr(&CTime{p64(1)})
		for _, i := range w {
			s.Desc = append(s.Desc, ds[i]())
		}
		return y(fmt.Sprintf("descriptor word %v", w), s)
	})
	for t := uint32(0); t < 256; t++ { // two private descriptors of one tag
		for _, id := range []uint32{0x54455354, 0, cuei} {
			if id == cuei && t < 5 {
				continue
			}
			y(fmt.Sprintf("private twice, tag %#x", t), hdr(&CTime{}, &DPriv{t, id, []byte("same")}, &DPriv{t, id, []byte("same")}))
			y(fmt.Sprintf("private twice, tag %#x, otherwise", t), hdr(&CTime{}, &DPriv{t, id, []byte("same")}, &DPriv{t, id, []byte("different")}, &DPriv{t, id ^ 1, nil}))
		}
	}
	return ok
}

func contentWords(level int, yield yieldFn) bool {
	ok := true
	y := func(name string, s *Sec) bool {
		if ok && representable(s) {
			ok = yield(Case{name, s})
		}
		return ok
	}
	all := func(name string, b []byte) bool {
		y("private command "+name, hdr(&CPriv{Ident: 0x54455354, Bytes: b}))
		y("private descriptor "+name, hdr(&CTime{}, &DPriv{0xF0, 0x54455354, b}))
		for _, t := range []uint32{0x01, 0x05, 0x06, 0x09, 0x0C, 0x0F, 0x10} {
			if len(b) == 0 {
				continue
			}
			g := segBase()
			g.UPIDs = []UPID{{t, b}}
			if t == 0x0C {
				g.UPIDs[0].Raw = append([]byte("ABCD"), b...)
			}
			y(fmt.Sprintf("upid %#x %s", t, name), hdr(&CTime{}, g))
		}
		return ok
	}
	hi := 3
	if level > 0 {
		hi = 5
	}
	if level > 2 {
		hi = 8
	}
	abc := []byte{0x00, 0xFF, 'A', ' '}
	words(len(abc), 1, hi, func(w []int) bool {
		b := make([]byte, len(w))
		for i := range w {
			b[i] = abc[w[i]]
		}
		return all(fmt.Sprintf("%x", b), b)
	})
	spaces := []byte{0xA0, ' ', 0x85, 'a', '\t', '\n', '\r'}
	words(len(spaces), 1, 3, func(w []int) bool {
		b := []byte{'x'}
		for i := range w {
			b = append(b, spaces[w[i]])
		}
		g := segBase()
		g.UPIDs = []UPID{{0x0F, append(b, 'y')}}
		return y(fmt.Sprintf("spaces %x", b), hdr(&CTime{}, g))
	})
	for _, m := range magicRaw {
		all("magic", []byte(m))
		all("magic first", []byte(m+"text"))
		all("magic last", []byte("text"+m))
		all("magic twice", []byte(m+"text"+m))
	}
	// contents in the form another type has
	for _, w := range otherForms {
		for _, t := range []uint32{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0B, 0x0C, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x80, 0xFF} {
			u := UPID{t, []byte(w)}
			if t == 0x00 && len(w) > 0 {
				continue
			}
			if t == 0x0C {
				u.Raw = append([]byte("ABCD"), w...)
			}
			g, g2 := segBase(), segBase()
			g.UPIDs = []UPID{u}
			g2.UPIDs = []UPID{{0x0E, []byte("k=v")}, u}
			y("another form "+w, hdr(&CTime{}, g))
			y("another form in a list "+w, hdr(&CTime{}, g2))
		}
	}
	// the first and last character of dtmf_chars
	for n := 1; n <= 7; n++ {
		for _, a := range "0159*#AD" {
			for _, z := range "0159*#AD" {
				b := []byte("1234567")[:n]
				b[0], b[n-1] = byte(a), byte(z)
				for _, p := range []uint32{0, 57, 255} {
					y("dtmf "+string(b), hdr(&CTime{}, &DDTMF{p, string(b)}))
				}
			}
		}
	}
	return ok
}

// loopLengths: every descriptor_loop_length there can be.
func loopLengths(level int, yield yieldFn) bool {
	step := 1
	if level == 0 {
		step = 61
	}
	for n := 6; n <= 4073; n += step {
		s := hdr(&CNull{})
		for left := n; left > 0; {
			k := 250
			if left < k {
				k = left
			} else if left-k > 0 && left-k < 6 {
				k -= 6
			}
			s.Desc = append(s.Desc, &DPriv{0x80 + uint32(len(s.Desc)), 0x54455354, pat(k - 6)})
			left -= k
		}
		if representable(s) && !yield(Case{fmt.Sprintf("descriptor_loop_length %d", n), s}) {
			return false
		}
	}
	return true
}

// otherForms are texts in the forms of identifiers, each of which a UPID of
// any type may hold as its bytes.
var otherForms = []string{
	"123e4567-e89b-12d3-a456-426614174000", "123E4567E89B12D3A456426614174000", "{123e4567-e89b-12d3-a456-426614174000}", "urn:uuid:123e4567-e89b-12d3-a456-426614174000",
	"10.5240/7791-8534-2C23-9030-8610-5", "10.5240/7791-8534-2C23-9030-8610", "urn:eidr:10.5240:7791-8534-2C23-9030-8610-5", "EIDR:10.5239/8BE5-E3F6",
	"0000-0000-D07A-0090-Q-0000-0000-X", "ISAN 0000-0000-D07A-0090-Q", "urn:isan:0000-0000-d07a-0090-q", "0000D07A00900000",
	"ABCD1234000H", "ABCD-1234-000", "urn:smpte:umid:060A2B34.01010105.01010D43.13000000", "060A2B34.01010105.01010D43.13000000.D27AC2C8.9F4E4E4E.00000000.00000000", "060A2B340101010501010D43130000000000",
	"0x060A2B34", "\x06\x0A\x2B\x34\x01\x01\x01\x05\x01\x01\x0D\x43\x13\x00\x00\x00", "748724618", "0", "-1", "18446744073709551615", "18446744073709551616", "1e3", "0x2CA0A18A",
	"QUJDRA==", "AAAA", "QUJD", "QUJD-_==", "text", "base-64", "hexbinary", "41424344", "SIGNAL:abc", "urn:scte:224:audience:x", "http://a/b?c=d&e=f#g", "urn:nbn:de:101:1-201102033592", "PREM:abc", "k1=v1;k2=v2", "TV:abc", "MV0004146400", "S:abc",
	"2018-05-01T12:00:00Z", "true", "null", "[]", "{}", "()", "TestABC", "CUEI", "ABCD", "U+0041", "%41", "=41", "&#x41;", "+AEE-", "\\101",
}
