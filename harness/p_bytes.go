package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"math/bits"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// render exercises every read accessor on s; none of them may panic.
func render(k *K, s *scte35.SpliceInfoSection) {
	_ = s.Table("", "\t")
	_, _ = json.Marshal(s)
	_, _ = xml.Marshal(s)
	_, _ = s.Encode()
	_ = s.Base64()
	_ = s.Hex()
	_ = s.Duration()
	_ = s.SAPTypeName()
	_ = s.EncryptedPacketFlag()
	for _, d := range s.SpliceDescriptors {
		_ = d.Tag()
		if g, ok := d.(*scte35.SegmentationDescriptor); ok {
			_ = g.Name()
			_ = g.SegmentationUpidLength()
			for i := range g.SegmentationUPIDs {
				_ = g.SegmentationUPIDs[i].Name()
				_ = g.SegmentationUPIDs[i].ASCIIValue()
			}
		}
	}
	k.T(9)
}

// ---- C04 ----

type rawCase struct {
	name string
	b    []byte
}

func (r rawCase) String() string { return fmt.Sprintf("%s %x", r.name, r.b) }

func checkTotal(k *K, b []byte) {
	k.Input("%x", b)
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	err := s.Decode(b)
	render(k, s)
	k.Validated(1)
	if ref := decode(b); (ref.class == eOK) != (err == nil) {
		k.Fail("Decode returns error %v for a section with %s", err, ref.class)
	}
}

// checkTotalText: the same for strings taken as base64 and as hexadecimal.
func checkTotalText(k *K, x strCase) {
	k.StateS(x.s)
	k.Input("%.2000q", x.s)
	one := func(what string, dec func(string) (*scte35.SpliceInfoSection, error), ref func(string) ([]byte, bool)) {
		s, err := dec(x.s)
		k.T(1)
		k.Validated(1)
		if s == nil {
			k.Fail("%s returned no section", what)
		}
		b, ok := ref(x.s)
		if ok {
			ok = decode(b).class == eOK
		}
		if ok != (err == nil) {
			k.Fail("%s returns error %v", what, err)
		}
		if len(b) > 0 || ok {
			render(k, s)
		}
	}
	if !strings.ContainsAny(x.s, "\r\n") { // line breaks in base64 are tolerated
		one("DecodeBase64", scte35.DecodeBase64, refBase64)
	}
	one("DecodeHex", scte35.DecodeHex, refHex)
}

// longStrings: inputs up to and beyond every length a field can announce.
func longStrings(thorough bool, y func(rawCase) bool) bool {
	lens := []int{100, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 4098, 4099, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65551, 65552, 65553, 66000, 131072, 200000}
	if thorough {
		lens = append(lens, 1<<20, 5<<20)
	}
	fill := func(n int, p []byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = p[i%len(p)]
		}
		return b
	}
	heads := [][]byte{nil}
	for _, m := range []*Sec{hdr(&CNull{}), hdr(&CTime{p64(1)}), hdr(&CPriv{Ident: 1})} {
		b := enc(m)
		b = b[:len(b)-6] // up to descriptor_loop_length
		heads = append(heads, b)
	}
	pats := [][]byte{{0}, {0xFF}, {0x02}, {0xFC, 0x30}, {0, 1, 2, 3, 4, 5, 6, 7},
		{0, 0}, {0, 4, 'C', 'U', 'E', 'I'}, {7, 4, 1, 2, 3, 4}, {2, 4, 'C', 'U', 'E', 'I'},
		{0, 8, 'C', 'U', 'E', 'I', 1, 2, 3, 4}, {2, 9, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0xFF}, {2, 0xFF}, {1, 6, 'C', 'U', 'E', 'I', 5, 0}, {4, 5, 'C', 'U', 'E', 'I', 0xF0}, {0xFE, 5, 1, 2, 3, 4, 5}}
	for _, n := range lens {
		for _, h := range heads {
			for _, p := range pats {
				for v := 0; v < 3; v++ {
					b := cp(h)
					if h != nil {
						ll := n
						if v == 1 { // the loop takes whole descriptors, the rest is stuffing
							ll = n - n%len(p)
						}
						if ll > 0xFFFF {
							ll = 0xFFFF
							if v == 1 {
								ll -= ll % len(p)
							}
						}
						if v == 2 {
							ll = 0
						}
						b = append(b, byte(ll>>8), byte(ll))
					} else if v > 0 {
						continue
					}
					b = append(b, fill(n, p)...)
					b = append(b, 0, 0, 0, 0)
					putCRC(b)
					if !y(rawCase{"long", b}) {
						return false
					}
				}
			}
		}
	}
	// as many nested entries as the counts allow
	for _, ev := range []int{0, 1, 16, 255} {
		for _, comps := range []int{0, 1, 100, 255} {
			sc := &CSched{}
			for i := 0; i < ev; i++ {
				e := evBase(uint32(i))
				for j := 0; j < comps; j++ {
					e.Comps = append(e.Comps, SComp{uint32(j), uint32(i)})
				}
				sc.Events = append(sc.Events, e)
			}
			w := encode(hdr(sc), encOpt{})
			for _, cl := range []int{0xFFF, -1} {
				b := cp(w.b)
				if cl > 0 {
					b[11] |= 0x0F
					b[12] = 0xFF
				}
				putCRC(b)
				if !y(rawCase{fmt.Sprintf("schedule of %d events with %d components, length field %d", ev, comps, cl), b}) {
					return false
				}
			}
		}
	}
	return true
}

// shortStrings: every byte string of length <= 2, and every string built from
// a header and at most two free bytes at the positions that select syntax.
func shortStrings(yield func(rawCase) bool) bool {
	if !yield(rawCase{"empty", nil}) {
		return false
	}
	for a := 0; a < 256; a++ {
		if !yield(rawCase{"1 byte", []byte{byte(a)}}) {
			return false
		}
	}
	for a := 0; a < 65536; a++ {
		if !yield(rawCase{"2 bytes", []byte{byte(a >> 8), byte(a)}}) {
			return false
		}
	}
	for n := 3; n <= 64; n++ {
		for v := 0; v < 256; v++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(v)
			}
			if !yield(rawCase{"constant", b}) {
				return false
			}
		}
	}
	return true
}

// commandStrings: a well-formed header followed by every command type, every
// pair of command bytes and each truncation.
func commandStrings(thorough bool, yield func(rawCase) bool) bool {
	h := enc(hdr(&CNull{}))[:11] // up to tier/command length
	for t := 0; t < 256; t++ {
		for n := 0; n <= 6; n++ {
			for _, fill := range []byte{0x00, 0x7F, 0x80, 0xFF} {
				for first := 0; first < 256; first++ {
					if !thorough && n != 1 && n != 6 && first%16 != 15 {
						continue
					}
					for _, cl := range []int{n, 0xFFF} {
						b := append(cp(h), 0xFF, byte(cl), byte(t))
						b[11] = 0xF0 | byte(cl>>8)
						body := make([]byte, n)
						for i := range body {
							body[i] = fill
						}
						if n > 0 {
							body[0] = byte(first)
						}
						b = append(b, body...)
						b = append(b, 0, 0)
						b = append(b, 0, 0, 0, 0)
						putCRC(b)
						if !yield(rawCase{"command", b}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// descStrings: every descriptor tag and identifier kind, each length of
// content and fill, against each declared length.
func descStrings(thorough bool, yield func(rawCase) bool) bool {
	h := enc(hdr(&CNull{}))
	h = h[:len(h)-6]
	for tag := 0; tag < 8; tag++ {
		for _, id := range []uint32{cuei, 0x46464646} {
			for n := 0; n <= 24; n++ {
				for _, dl := range []int{n, n - 1, n + 1, n + 3, 0, 255} {
					if dl < 0 || dl > 255 {
						continue
					}
					for f := 0; f < 256; f++ {
						if !thorough && f != 0 && f != 0x0C && f != 0x0D && f != 0x7F && f != 0x80 && f != 0xFF && f%64 != 9 {
							continue
						}
						body := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}
						for i := 4; i < n; i++ {
							body = append(body, byte(f))
						}
						if n < 4 {
							body = body[:n]
						}
						d := append([]byte{byte(tag), byte(dl)}, body...)
						for _, ll := range []int{len(d), len(d) + 1, len(d) - 1, len(d) + 4, 0xFFFF} {
							b := append(cp(h), byte(ll>>8), byte(ll))
							b = append(b, d...)
							b = append(b, 0, 0, 0, 0)
							putCRC(b)
							if !yield(rawCase{"descriptor", b}) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// upidStrings: segmentation descriptors with every UPID type and short
// content, well formed or not, direct and inside MID().
func upidStrings(thorough bool, yield func(rawCase) bool) bool {
	for t := 0; t < 256; t++ {
		if !thorough && t > 0x14 && t != 0xFF {
			continue
		}
		for n := 0; n <= 40; n++ {
			for _, fill := range []byte{0x00, 0x0D, 0x20, 0x2E, 0x2F, 0x31, 0x41, 0x7F, 0x80, 0x85, 0xA0, 0xFF} {
				raw := make([]byte, n)
				for i := range raw {
					raw[i] = fill
				}
				for v := 0; v < 3; v++ {
					g := segBase()
					switch v {
					case 0:
						g.UPIDs = []UPID{{uint32(t), raw}}
					case 1:
						g.ForceMID = true
						g.UPIDs = []UPID{{uint32(t), raw}}
					case 2:
						g.UPIDs = []UPID{{uint32(t), raw}, {uint32(t), raw}}
					}
					b := enc(hdr(&CTime{}, g))
					if !yield(rawCase{"upid", b}) {
						return false
					}
				}
			}
		}
	}
	// contents which nearly are in the form of their type
	hi := 5
	if thorough {
		hi = 7
	}
	abc := "10./-A\x00"
	if !words(len(abc), 1, hi, func(w []int) bool {
		raw := make([]byte, len(w))
		for i := range w {
			raw[i] = abc[w[i]]
		}
		for _, pre := range []string{"", "10.", "10.5240", "10.5240/7791-"} {
			if pre != "" && len(w) > 3 {
				continue
			}
			g := segBase()
			g.UPIDs = []UPID{{0x0A, append([]byte(pre), raw...)}}
			if !yield(rawCase{"eidr", enc(hdr(&CTime{}, g))}) {
				return false
			}
			if len(w) > 3 {
				continue
			}
			for _, t := range []uint32{0x08, 0x0C, 0x06, 0x05, 0x0F} {
				g := segBase()
				g.UPIDs = []UPID{{t, append([]byte(pre), raw...)}, {0x0A, append([]byte(pre), raw...)}}
				if !yield(rawCase{"eidr in a list", enc(hdr(&CTime{}, g))}) {
					return false
				}
			}
		}
		return true
	}) {
		return false
	}
	// every type and every length
	for t := 0; t < 256; t++ {
		for n := 41; n <= 235; n++ {
			for v := 0; v < 4; v++ {
				if !thorough && t > 0x11 && (t+n)%16 != 0 {
					continue
				}
				raw := pat(n)
				if v == 1 {
					raw = textPat(n)
				} else if v > 1 {
					for i := range raw {
						raw[i] = []byte{0xFF, 0x00}[v-2]
					}
				}
				g := segBase()
				g.UPIDs = []UPID{{uint32(t), raw}}
				if n%2 == 0 {
					g.ForceMID = true
				}
				if !yield(rawCase{"long upid", enc(hdr(&CTime{}, g))}) {
					return false
				}
			}
		}
	}
	// MID() whose entries overrun it
	for n := 0; n <= 6; n++ {
		for a := 0; a < 256; a++ {
			for l := 0; l < 256; l += 1 + l/8 {
				raw := make([]byte, n)
				if n > 0 {
					raw[0] = byte(a)
				}
				if n > 1 {
					raw[1] = byte(l)
				}
				g := segBase()
				g.UPIDs = []UPID{{0x0D, raw}}
				if !yield(rawCase{"mid overrun", enc(hdr(&CTime{}, g))}) {
					return false
				}
			}
		}
	}
	return true
}

// lengthMutants: every length, count and type field of every base set to
// every value (up to 8 bits; boundary and near values above), CRC made right.
func lengthMutants(bases func(yieldFn) bool, yield func(rawCase) bool) bool {
	return bases(func(cs Case) bool {
		w := encode(cs.M, encOpt{rec: true})
		for _, f := range w.fields {
			if f.kind != fLen {
				continue
			}
			var vals []int
			if f.w <= 8 {
				for v := 0; v < 1<<f.w; v++ {
					vals = append(vals, v)
				}
			} else {
				for v := 0; v <= len(w.b)+40; v++ {
					vals = append(vals, v)
				}
				max := 1<<f.w - 1
				for _, v := range []int{max, max - 1, max - 2, max / 2, max/2 + 1, 0x1FF, 0x200, 0x3FF, 0x400, 0x800, 0xFFE, 0xFFF} {
					if v > len(w.b)+40 && v <= max {
						vals = append(vals, v)
					}
				}
			}
			for _, v := range vals {
				b := cp(w.b)
				setBits(b, f.off, f.w, uint64(v))
				putCRC(b)
				if !yield(rawCase{cs.Name + " " + f.name, b}) {
					return false
				}
			}
		}
		return true
	})
}

func setBits(b []byte, off, w int, v uint64) {
	for i := 0; i < w; i++ {
		bit := off + i
		if v>>uint(w-1-i)&1 == 1 {
			b[bit/8] |= 0x80 >> (bit % 8)
		} else {
			b[bit/8] &^= 0x80 >> (bit % 8)
		}
	}
}

// cuts: every prefix of every base, as is and with a right CRC_32 over what
// is left; every extension by up to 9 bytes.
func cuts(bases func(yieldFn) bool, yield func(rawCase) bool) bool {
	return bases(func(cs Case) bool {
		b := enc(cs.M)
		for n := 0; n < len(b); n++ {
			if !yield(rawCase{cs.Name + " cut", cp(b[:n])}) {
				return false
			}
			p := cp(b[:n])
			putCRC(p)
			if !yield(rawCase{cs.Name + " cut+crc", p}) {
				return false
			}
		}
		for n := 1; n <= 9; n++ {
			for _, f := range []byte{0, 1, 0xFF} {
				p := cp(b)
				for i := 0; i < n; i++ {
					p = append(p, f)
				}
				if !yield(rawCase{cs.Name + " extended", p}) {
					return false
				}
				q := cp(p)
				putCRC(q)
				if !yield(rawCase{cs.Name + " extended+crc", q}) {
					return false
				}
			}
		}
		// a byte inserted or removed anywhere
		for i := 3; i < len(b)-4; i++ {
			p := append(cp(b[:i]), b[i+1:]...)
			putCRC(p)
			if !yield(rawCase{cs.Name + " byte removed", p}) {
				return false
			}
			q := append(cp(b[:i]), append([]byte{b[i]}, b[i:]...)...)
			putCRC(q)
			if !yield(rawCase{cs.Name + " byte doubled", q}) {
				return false
			}
		}
		return true
	})
}

func rawSpaces(c *Ctx, check func(*K, []byte)) {
	run := func(name string, gen func(func(rawCase) bool)) {
		Explore(c, name, gen, rawCase.String, func(k *K, r rawCase) {
			k.State(r.b)
			check(k, r.b)
		})
	}
	th := c.Thorough
	run("short-strings", func(y func(rawCase) bool) { shortStrings(y) })
	run("command-strings", func(y func(rawCase) bool) { commandStrings(th, y) })
	run("descriptor-strings", func(y func(rawCase) bool) { descStrings(th, y) })
	run("long-strings", func(y func(rawCase) bool) { longStrings(th, y) })
	run("upid-strings", func(y func(rawCase) bool) { upidStrings(th, y) })
	bases := mutBases
	if th {
		bases = func(y yieldFn) bool { return shapes(1, y) }
	}
	run("length-mutants", func(y func(rawCase) bool) { lengthMutants(bases, y) })
	run("cuts", func(y func(rawCase) bool) { cuts(bases, y) })
	Explore(c, "byte-mutants", func(y func(byteCase) bool) { mutants(bases, y) }, byteCase.String, func(k *K, x byteCase) {
		b := x.bytes()
		k.State(b)
		check(k, b)
	})
}

func propRobust(c *Ctx) {
	rawSpaces(c, checkTotal)
	Explore(c, "text-forms", func(y func(strCase) bool) {
		textStrings(c.Thorough, y)
		longStrings(false, func(r rawCase) bool {
			return y(strCase{base64.StdEncoding.EncodeToString(r.b)}) && y(strCase{"0x" + hex.EncodeToString(r.b)})
		})
	}, func(x strCase) string { return fmt.Sprintf("%.2000q", x.s) }, checkTotalText)
}

// ---- C06 ----

func checkAgainstRef(k *K, b []byte) {
	k.Input("%x", b)
	ref := decode(b)
	s := &scte35.SpliceInfoSection{}
	err := s.Decode(b)
	k.T(1)
	k.Validated(1)
	got := errClass(err)
	if ref.class == eOK {
		if got != eOK {
			k.Fail("a section whose lengths and CRC_32 are consistent is rejected: %v", err)
		}
	} else {
		ok := false
		for _, c := range ref.classes {
			ok = ok || c == got
		}
		if !ok {
			k.Fail("malformed section (%s in %s): got error %v", ref.class, ref.where, err)
		}
	}
	if !upidsPresentable(ref.m) {
		return
	}
	if g, w := dump(s), dump(lib(ref.m)); g != w {
		k.Fail("what was decoded before the error (%v) differs: %s", err, diff(g, w))
	}
}

// upidsPresentable: excludes UPIDs whose length their type does not allow
// (their presentation is not specified).
func upidsPresentable(m *Sec) bool {
	for _, d := range m.Desc {
		if s, ok := d.(*DSeg); ok {
			for _, u := range s.UPIDs {
				if !upidWellFormed(u) {
					return false
				}
			}
		}
	}
	return true
}

func propMalformed(c *Ctx) {
	rawSpaces(c, checkAgainstRef)
	ExploreCases(c, "several-descriptors", func(y yieldFn) bool { return shapes(2, y) && mixtures(c.level(), y) }, checkFaultyDescriptor)
}

// checkFaultyDescriptor makes one descriptor of the list at a time too long
// or too short for its content and expects the error and all the other
// descriptors.
func checkFaultyDescriptor(k *K, cs Case) {
	m := cs.M
	n := len(m.Desc)
	if n < 2 || m.EncAlg != 0 || len(m.Stuff) != 0 {
		return
	}
	head := &Sec{}
	*head = *m
	deltas := [][2]int{{-1, 0}, {1, 0}, {-1, 1}, {1, -1}, {-1, -1}, {1, 1}}
	for bad := 0; bad < n; bad++ {
		for _, dd := range deltas {
			loop := []byte{}
			for i, d := range m.Desc {
				p := encDesc(d, encOpt{}).b
				delta := 0
				switch i {
				case bad:
					delta = dd[0]
				case (bad + n/2 + 1) % n:
					delta = dd[1]
				}
				if delta != 0 {
					if int(p[1])+delta > 255 {
						return
					}
					if delta < 0 {
						p = p[:len(p)-1]
					} else {
						p = append(cp(p), 0x5A)
					}
					p[1] = byte(int(p[1]) + delta)
				}
				loop = append(loop, p...)
			}
			head.Desc = nil
			b := enc(head)
			b = b[:len(b)-6]
			b = append(b, byte(len(loop)>>8), byte(len(loop)))
			b = append(b, loop...)
			b = append(b, 0, 0, 0, 0)
			putCRC(b)
			k.State(b)
			checkAgainstRef(k, b)
		}
	}
}

// ---- C05 ----

func checkEncodedCRC(k *K, cs Case) {
	s := implFor(k, cs.M)
	b, err := s.Encode()
	k.T(1)
	k.Validated(1)
	if err != nil {
		k.Fail("Encode failed: %v", err)
	}
	k.State(b)
	k.Input("%x", b)
	if !crcValid(b) || crc(b) != 0 {
		k.Fail("the encoded section's CRC_32 is wrong")
	}
	s2 := &scte35.SpliceInfoSection{}
	if err := s2.Decode(b); err != nil {
		k.Fail("the encoded section is rejected: %v", err)
	}
	if cs.M.EncAlg != 0 {
		n := len(b)
		x := cp(b[13 : n-4])
		if crcFast(x) != 0 {
			k.Fail("E_CRC_32 does not check over splice_command_type..E_CRC_32")
		}
	}
}

func mustReject(k *K, b []byte, what string) {
	k.Input("%x", b)
	k.T(1)
	k.Validated(1)
	s := &scte35.SpliceInfoSection{}
	err := s.Decode(b)
	if err == nil {
		k.Fail("%s: corrupted section accepted", what)
	}
	ref := decode(b)
	if ref.class == eCRC && errClass(err) != eCRC {
		k.Fail("%s: error is %v, want CRC_32 not valid", what, err)
	}
}

// checkCorruption: all single bit flips, all 2-bit flips (short sections or
// within a window), all bursts in a window of the given width, all single
// byte substitutions, all adjacent byte swaps.
func checkCorruption(window, triple int) func(*K, Case) {
	return func(k *K, cs Case) {
		b := enc(cs.M)
		k.State(b)
		n := 8 * len(b)
		if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
			k.Fail("intact section rejected: %v", err)
		}
		flip := func(p []byte, i int) { p[i/8] ^= 0x80 >> (i % 8) }
		p := cp(b)
		for i := 0; i < n; i++ {
			flip(p, i)
			mustReject(k, p, fmt.Sprintf("bit %d flipped", i))
			lim := i + window
			if lim > n {
				lim = n
			}
			for j := i + 1; j < lim; j++ {
				flip(p, j)
				mustReject(k, p, fmt.Sprintf("bits %d,%d flipped", i, j))
				flip(p, j)
			}
			flip(p, i)
		}
		for i := 0; i < n && len(b) <= triple; i++ { // all 3-bit flips
			flip(p, i)
			for j := i + 1; j < n; j++ {
				flip(p, j)
				for l := j + 1; l < n; l++ {
					flip(p, l)
					mustReject3(k, p)
					flip(p, l)
				}
				flip(p, j)
			}
			flip(p, i)
		}
		for i := range b {
			for v := 1; v < 256; v++ {
				p[i] ^= byte(v)
				mustReject(k, p, fmt.Sprintf("byte %d replaced", i))
				p[i] ^= byte(v)
			}
		}
		for i := 0; i+1 < len(b); i++ {
			if b[i] != b[i+1] {
				p[i], p[i+1] = p[i+1], p[i]
				mustReject(k, p, fmt.Sprintf("bytes %d,%d swapped", i, i+1))
				p[i], p[i+1] = p[i+1], p[i]
			}
		}
		for i := 0; i+3 < len(b); i++ { // 32-bit bursts
			for _, v := range []uint32{0xFFFFFFFF, 0x80000001, 0xDEADBEEF, 0x00FFFF00, 0x04C11DB7} {
				for s := 0; s < 4; s++ {
					p[i+s] ^= byte(v >> uint(24-8*s))
				}
				if v != 0 {
					mustReject(k, p, fmt.Sprintf("burst at byte %d", i))
				}
				for s := 0; s < 4; s++ {
					p[i+s] ^= byte(v >> uint(24-8*s))
				}
			}
		}
	}
}

// checkCRCIff: accepted exactly when the last four bytes are the CRC_32.
func checkCRCIff(k *K, cs Case) {
	b := enc(cs.M)
	k.State(b)
	n := len(b)
	var vals []uint32
	right := crcFast(b[:n-4])
	for i := 0; i < 32; i++ {
		vals = append(vals, right^1<<uint(i), 1<<uint(i))
	}
	vals = append(vals, 0, 0xFFFFFFFF, ^right, right+1, right-1, right<<8|right>>24, right>>16|right<<16)
	rev := right>>24 | right>>8&0xFF00 | right<<8&0xFF0000 | right<<24
	vals = append(vals, rev, right)
	for _, v := range vals {
		p := cp(b)
		p[n-4], p[n-3], p[n-2], p[n-1] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		k.Input("%x", p)
		s := &scte35.SpliceInfoSection{}
		err := s.Decode(p)
		k.T(1)
		k.Validated(1)
		if v == right && err != nil {
			k.Fail("right CRC_32 rejected: %v", err)
		}
		if v != right && errClass(err) != eCRC {
			k.Fail("CRC_32 %#x (right: %#x): error is %v", v, right, err)
		}
		if v != right && dump(s) != dump(lib(cs.M.onWire())) {
			k.Fail("with a bad CRC_32 the decoded content is lost: %s", diff(dump(s), dump(lib(cs.M.onWire()))))
		}
	}
}

func propCRC(c *Ctx) {
	lvl := 0
	if c.Thorough {
		lvl = 1
	}
	ExploreCases(c, "encoded-sections", func(y yieldFn) bool { return universe(lvl, y) }, checkEncodedCRC)
	ExploreCases(c, "crc-values", func(y yieldFn) bool { return shapes(1, y) }, checkCRCIff)
	ExploreCases(c, "content-kept", func(y yieldFn) bool {
		return universe(lvl, y) && (lvl > 0 || shapes(2, y)) && everyLength(y)
	}, checkContentKept)
	win, triple := 33, 28
	if c.Thorough {
		win, triple = 1<<20, 48
	}
	ExploreCases(c, "corruptions", func(y yieldFn) bool {
		if c.Thorough {
			return mutBases(y) && stuffedFew(y)
		}
		return mutBases(y) && stuffedFew(y)
	}, checkCorruption(win, triple))
	ExploreCases(c, "every-length", func(y yieldFn) bool { return everyLength(y) }, func(k *K, cs Case) { checkLengthCRC(k, cs, c.Thorough) })
	ExploreCases(c, "other-checksums", func(y yieldFn) bool { return shapes(1, y) }, checkOtherSums)
	Explore(c, "over-long", func(y func(longSec) bool) {
		top := 4700
		if c.Thorough {
			top = 9000
		}
		for n := 4080; n < top; n++ {
			if n > 4300 && n%7 != 0 {
				continue
			}
			for v := 0; v < 3; v++ {
				if !y(longSec{n, v}) {
					return
				}
			}
		}
	}, func(l longSec) string { return fmt.Sprintf("%d bytes, form %d", l.n, l.form) }, checkOverLong)
}

// checkContentKept: a section with a wrong CRC_32, in each form of its
// lengths and flags, is rejected for that and its content is there.
func checkContentKept(k *K, cs Case) {
	for i, o := range []encOpt{{}, {legacy: true}, {encFlag: true}} {
		if o.legacy && cs.M.Cmd == nil {
			continue
		}
		b := encode(cs.M, o).b
		for f := 0; f < 3; f++ {
			p := cp(b)
			for j := len(p) - 4; j < len(p); j++ {
				switch {
				case f == 0 && j == len(p)-1:
					p[j] ^= 1
				case f == 1:
					p[j] ^= 0xFF
				case f == 2:
					p[j] = 0
				}
			}
			if i > 0 && f > 0 || bytes.Equal(p, b) {
				continue
			}
			k.State(p)
			k.Input("%x", p)
			ref := decode(p)
			s := &scte35.SpliceInfoSection{}
			err := s.Decode(p)
			k.T(1)
			k.Validated(1)
			if err == nil || ref.class == eCRC && errClass(err) != eCRC {
				k.Fail("wrong CRC_32: error is %v", err)
			}
			if g, w := dump(s), dump(lib(ref.m)); g != w && upidsPresentable(ref.m) {
				k.Fail("with a wrong CRC_32 what is returned is not what was received: %s", diff(g, w))
			}
		}
	}
}

// checkOtherSums: a section whose last four bytes are a checksum, but of
// other bytes or another checksum than the MPEG-2 CRC_32, is rejected.
func checkOtherSums(k *K, cs Case) {
	b := enc(cs.M)
	k.State(b)
	n := len(b)
	put := func(p []byte, v uint32, what string) {
		m := len(p)
		p[m-4], p[m-3], p[m-2], p[m-1] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		if crcFast(p[:m-4]) == v {
			return
		}
		mustReject(k, p, what)
	}
	for id := 0; id < 256; id++ { // whatever the table_id
		for _, body := range [][2]int{{0, n - 4}, {1, n - 4}, {2, n - 4}, {3, n - 4}, {0, n - 5}} {
			p := cp(b)
			p[0] = byte(id)
			put(p, crcFast(p[body[0]:body[1]])^1, "CRC_32 off by a bit")
			put(p, crcFast(p[body[0]:body[1]]), fmt.Sprintf("table_id %#x, CRC_32 of the bytes from %d", id, body[0]))
			if id != 0xFC {
				put(p, crcFast(b[body[0]:body[1]]), fmt.Sprintf("table_id %#x, CRC_32 of the section with another", id))
			}
		}
	}
	for i := 0; i < n-4; i++ {
		put(cp(b), crcFast(b[i:n-4]), fmt.Sprintf("CRC_32 without the first %d bytes", i))
		put(cp(b), crcFast(b[:i]), fmt.Sprintf("CRC_32 of the first %d bytes", i))
		one := append(cp(b[:i]), b[i+1:n-4]...)
		put(cp(b), crcFast(one), fmt.Sprintf("CRC_32 without byte %d", i))
		one = cp(b[:n-4])
		one[i] = 0
		put(cp(b), crcFast(one), fmt.Sprintf("CRC_32 with byte %d zero", i))
	}
	for l := 1; l <= 5; l++ {
		put(cp(b), crcFast(append(cp(b[:n-4]), make([]byte, l)...)), fmt.Sprintf("CRC_32 with %d zero bytes after", l))
	}
	right := crcFast(b[:n-4])
	put(cp(b), ^right, "CRC_32 complemented")
	for _, poly := range []uint32{0xEDB88320, 0x82F63B78, 0xEB31D82E} { // reflected: IEEE, Castagnoli, Koopman
		v := crc32.Checksum(b[:n-4], crc32.MakeTable(poly))
		for _, x := range []uint32{v, ^v, bits.Reverse32(v), bits.ReverseBytes32(v), bits.Reverse32(^v), bits.ReverseBytes32(^v)} {
			put(cp(b), x, "another CRC")
		}
	}
	for _, init := range []uint32{0, 1, 0x7FFFFFFF, 0xFFFFFFFE, 0xFFFF, 0xFFFF0000} {
		v := init
		for _, x := range b[:n-4] {
			v ^= uint32(x) << 24
			for i := 0; i < 8; i++ {
				if v>>31 == 1 {
					v = v<<1 ^ 0x04C11DB7
				} else {
					v <<= 1
				}
			}
		}
		put(cp(b), v, fmt.Sprintf("CRC_32 started at %#x", init))
		put(cp(b), ^v, fmt.Sprintf("CRC_32 started at %#x, complemented", init))
	}
	put(cp(b), adler32.Checksum(b[:n-4]), "Adler-32")
}

// longSec is a string of n bytes: a section with more behind its command
// than a section_length can say.
type longSec struct{ n, form int }

func checkOverLong(k *K, l longSec) {
	base := enc(hdr(&CTime{p64(1)}, &DAvail{7}))
	b := make([]byte, l.n)
	copy(b, base[:len(base)-4])
	fill := b[len(base)-4 : l.n-4]
	for i := range fill {
		fill[i] = byte(i*7 + 1)
	}
	switch l.form {
	case 0: // the low bits of the length
		sl := uint32(l.n - 3)
		b[1], b[2] = b[1]&0xF0|byte(sl>>8)&0x0F, byte(sl)
	case 1:
		b[1], b[2] = b[1]|0x0F, 0xFF
	}
	v := crcFast(b[:l.n-4])
	b[l.n-4], b[l.n-3], b[l.n-2], b[l.n-1] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	k.State(b)
	if errClass((&scte35.SpliceInfoSection{}).Decode(b)) == eCRC {
		k.Fail("right CRC_32 over %d bytes, but reported wrong", l.n)
	}
	k.T(1)
	try := func(i int) {
		b[i/8] ^= 0x80 >> (i % 8)
		if crcFast(b) != 0 {
			mustReject(k, b, fmt.Sprintf("bit %d of %d flipped", i, 8*l.n))
		}
		b[i/8] ^= 0x80 >> (i % 8)
	}
	for i := 8 * 30; i < 8*l.n; i += 509 {
		try(i)
	}
	for i := 8 * (l.n - 12); i < 8*l.n; i++ {
		try(i)
	}
	for _, m := range []int{4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100} { // right for a shorter string
		if m < l.n-4 {
			p := cp(b)
			v := crcFast(p[:m-4])
			p[m-4], p[m-3], p[m-2], p[m-1] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			if crcFast(p) != 0 {
				mustReject(k, p, fmt.Sprintf("CRC_32 right for the first %d bytes of %d", m, l.n))
			}
		}
	}
}

// everyLength: one section of every size an encoder can produce, its bytes
// in the command, in the descriptors or in stuffing.
func everyLength(yield yieldFn) bool {
	for n := 0; n <= 4090; n++ {
		var s *Sec
		switch n % 3 {
		case 0:
			s = hdr(&CPriv{Ident: 0x54455354, Bytes: pat(n)})
		case 1:
			s = hdr(&CTime{p64(uint64(n))})
			for l := n; l > 0; l -= 256 {
				p := l - 6
				if p < 0 {
					p = 0
				}
				if p > 250 {
					p = 250
				}
				s.Desc = append(s.Desc, &DPriv{uint32(l & 0x7F), 0x54455354, pat(p)})
			}
		case 2:
			s = hdr(&CNull{}, segBase())
			s.Stuff = pat(n)
		}
		if !representable(s) {
			continue
		}
		if !yield(Case{fmt.Sprintf("length %d", n), s}) {
			return false
		}
	}
	return true
}

// checkLengthCRC: a section of this size is written with the right CRC_32,
// is accepted intact and rejected with bits flipped, wherever they are.
func checkLengthCRC(k *K, cs Case, thorough bool) {
	checkEncodedCRC(k, cs)
	b := enc(cs.M)
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
		k.Fail("intact section rejected: %v", err)
	}
	n := 8 * len(b)
	p := cp(b)
	flip := func(i int) { p[i/8] ^= 0x80 >> (i % 8) }
	try := func(is ...int) {
		for _, i := range is {
			flip(i)
		}
		mustReject(k, p, fmt.Sprintf("bits %v flipped", is))
		for _, i := range is {
			flip(i)
		}
	}
	step := n/31 | 1
	if thorough {
		step = 5
	}
	for i := 0; i < n; i += step {
		try(i)
		try(i, (i+n/2)%n)
	}
	for i := n - 32; i < n; i++ {
		try(i)
	}
	try(0, n-1)
	try(n/2, n-33, n-1)
	for i := n - 32; i < n; i++ { // the CRC_32 complemented
		flip(i)
	}
	mustReject(k, p, "CRC_32 complemented")
	for i := n - 32; i < n; i++ {
		flip(i)
	}
	for i := 0; i < 4; i++ {
		p[len(p)-1-i] = 0
	}
	if crc32At(b) != 0 {
		mustReject(k, p, "CRC_32 zero")
	}
}

func crc32At(b []byte) uint32 {
	n := len(b)
	return uint32(b[n-4])<<24 | uint32(b[n-3])<<16 | uint32(b[n-2])<<8 | uint32(b[n-1])
}

// mustReject3 is mustReject without the reference decoder.
func mustReject3(k *K, b []byte) {
	k.T(1)
	s := &scte35.SpliceInfoSection{}
	if s.Decode(b) == nil {
		k.Input("%x", b)
		k.Fail("three bits flipped: corrupted section accepted")
	}
}

func stuffedFew(y yieldFn) bool {
	i := 0
	return stuffed(func(cs Case) bool {
		i++
		if i%41 != 3 {
			return true
		}
		return y(cs)
	})
}
