package main

import (
	"bytes"
	"fmt"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C01"] = propEncode
	props["C02"] = propDecode
	props["C03"] = propRoundTrip
	props["C04"] = propRobust
	props["C05"] = propCRC
	props["C06"] = propMalformed
}

func (c *Ctx) level() int {
	if c.Thorough {
		return 2
	}
	return 1
}

// deep is the level of the universe for checks that are cheap per section.
func (c *Ctx) deep() int { return c.level() + 1 }

// implFor gives the implementation's section for m: built from the public
// structs, or decoded when it carries alignment stuffing (no public field).
func implFor(k *K, m *Sec) *scte35.SpliceInfoSection {
	if len(m.Stuff) == 0 {
		return lib(m)
	}
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	if err := s.Decode(enc(m)); err != nil {
		k.Fail("decoding a conforming section failed: %v", err)
	}
	return s
}

// ---- C01 ----

func checkEncode(k *K, cs Case) {
	m := cs.M
	want := enc(m)
	k.Input("%x", want)
	k.State(want)
	s := implFor(k, m)
	got, err := s.Encode()
	k.T(1)
	k.Validated(1)
	if err != nil {
		k.Fail("Encode of a representable section failed: %v", err)
	}
	compareEncoding(k, m, got, want)
}

func compareEncoding(k *K, m *Sec, got, want []byte) {
	if bytes.Equal(got, want) {
		return
	}
	k.Fail("encoded bytes differ\n got %x\nwant %x\n%s", got, want, whereDiffers(m, got, want))
}

func whereDiffers(m *Sec, got, want []byte) string {
	w := encode(m, encOpt{rec: true})
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	for i := range got {
		if x := got[i] ^ want[i]; x != 0 {
			bit := 8 * i
			for x&0x80 == 0 {
				x <<= 1
				bit++
			}
			for _, f := range w.fields {
				if bit >= f.off && bit < f.off+f.w {
					return fmt.Sprintf("first difference in field %s at bit %d", f.name, bit)
				}
			}
		}
	}
	return ""
}

func propEncode(c *Ctx) {
	c.Assume("reference encoder written from ANSI/SCTE 35 2022b tables 5-27; sections with values wider than their field or lists longer than their count field are outside this property (C19)")
	ExploreCases(c, "universe", func(y yieldFn) bool { return universe(c.deep(), y) }, checkEncode)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantEncode)
}

// ---- C02 ----

func decodeOK(k *K, b []byte) *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	if err := s.Decode(b); err != nil {
		k.Fail("decoding a conforming section failed: %v", err)
	}
	return s
}

func sameAs(k *K, s *scte35.SpliceInfoSection, m *Sec, what string) {
	k.Validated(1)
	if g, w := dump(s), dump(lib(m)); g != w {
		k.Fail("%s: %s", what, diff(g, w))
	}
}

func checkDecode(k *K, cs Case) {
	b := enc(cs.M)
	k.Input("%x", b)
	k.State(b)
	sameAs(k, decodeOK(k, b), cs.M.onWire(), "decoded section differs")
}

// checkReserved: whatever the reserved bits (and the E_CRC_32, which needs a
// decrypted payload to be judged) contain, the result is the same.
func checkReserved(k *K, cs Case) {
	w := encode(cs.M, encOpt{rec: true})
	want := dump(lib(cs.M.onWire()))
	k.State(w.b)
	var bits []int
	for _, f := range w.fields {
		if f.kind == fRes {
			for i := 0; i < f.w; i++ {
				bits = append(bits, f.off+i)
			}
		}
	}
	try := func(b []byte, what string) {
		putCRC(b)
		k.Input("%x", b)
		k.Validated(1)
		if g := dump(decodeOK(k, b)); g != want {
			k.Fail("%s changes the decoded section: %s", what, diff(g, want))
		}
	}
	all := cp(w.b)
	for _, x := range bits {
		b := cp(w.b)
		b[x/8] ^= 0x80 >> (x % 8)
		all[x/8] ^= 0x80 >> (x % 8)
		try(b, fmt.Sprintf("reserved bit %d", x))
	}
	try(all, "clearing every reserved bit")
}

// wireOnly yields conforming wire forms the encoder itself does not produce.
func wireOnly(yield func(wireCase) bool) {
	emit := func(name string, m *Sec, o encOpt, want *Sec) bool {
		return yield(wireCase{name, encode(m, o).b, want})
	}
	// a MID() with zero or one entry
	for _, u := range upidSamples() {
		g := segBase()
		g.ForceMID = true
		g.UPIDs = []UPID{u}
		m := hdr(&CTime{p64(9)}, g)
		if !emit("mid of one", m, encOpt{}, m) {
			return
		}
	}
	// encrypted_packet set with encryption_algorithm 0
	for n := 0; n < 9; n++ {
		m := hdr(&CTime{p64(9)}, &DAvail{7})
		m.Stuff = pat(n)
		if !emit("encrypted without algorithm", m, encOpt{encFlag: true}, m) {
			return
		}
	}
	// any byte as DTMF character or in an ISO code, unknown command types
	for v := 0; v < 256; v++ {
		for pos := 0; pos < 3; pos++ {
			ch := []byte("abc")
			ch[pos] = byte(v)
			m := hdr(&CNull{}, &DDTMF{1, string(ch)}, &DAudio{[]AudioCh{{1, string(ch), 1, 2, true}}})
			if !emit("character", m, encOpt{}, m) {
				return
			}
		}
		switch v {
		case 0, 4, 5, 6, 7:
			continue
		}
		m := hdr(&CPriv{Ident: 0x01020304, Bytes: pat(v % 7), Type: uint32(v)}, &DAvail{7})
		if !emit("command type", m, encOpt{}, m) {
			return
		}
	}
}

type wireCase struct {
	name string
	b    []byte
	want *Sec
}

func propDecode(c *Ctx) {
	ExploreCases(c, "universe", func(y yieldFn) bool { return universe(c.deep(), y) }, checkDecode)
	ExploreCases(c, "reserved-bits", func(y yieldFn) bool { return shapes(1, y) && stuffed(y) && segTypes(y) }, checkReserved)
	Explore(c, "wire-only", wireOnly, func(w wireCase) string { return fmt.Sprintf("%s %x", w.name, w.b) }, func(k *K, w wireCase) {
		k.Input("%x", w.b)
		k.State(w.b)
		sameAs(k, decodeOK(k, w.b), w.want, "decoded section differs")
	})
}

// ---- C03 ----

func checkRoundTrip(k *K, cs Case) {
	m := cs.M.onWire()
	b := enc(m)
	k.Input("%x", b)
	k.State(b)
	s := decodeOK(k, b)
	got, err := s.Encode()
	k.T(1)
	k.Validated(1)
	if err != nil {
		k.Fail("re-encoding a decoded section failed: %v", err)
	}
	compareEncoding(k, m, got, b)
}

func upidsWellFormed(m *Sec) bool {
	for _, d := range m.Desc {
		if s, ok := d.(*DSeg); ok {
			for _, u := range s.UPIDs {
				if !upidWellFormed(u) {
					return false
				}
			}
			if len(s.UPIDs) == 1 && s.UPIDs[0].Type == 0x0D {
				return false
			}
			if len(s.UPIDs) == 1 && len(s.UPIDs[0].Raw) == 0 {
				return false
			}
		}
	}
	return true
}

// mutants yields, for each of the base sections, every value of every byte
// (CRC_32 made right again), so that every flag, count and length is
// contradicted in every way a single byte can.
func mutants(bases func(yieldFn) bool, yield func(byteCase) bool) bool {
	return bases(func(cs Case) bool {
		b := enc(cs.M)
		for i := 0; i < len(b)-4; i++ {
			for v := 0; v < 256; v++ {
				if byte(v) == b[i] {
					continue
				}
				if !yield(byteCase{cs.Name, b, i, byte(v)}) {
					return false
				}
			}
		}
		return true
	})
}

type byteCase struct {
	name string
	b    []byte
	i    int
	v    byte
}

func (x byteCase) bytes() []byte {
	b := cp(x.b)
	b[x.i] = x.v
	putCRC(b)
	return b
}

func (x byteCase) String() string {
	return fmt.Sprintf("%s byte %d=%#02x %x", x.name, x.i, x.v, x.bytes())
}

// checkFixpoint: an accepted section re-encodes to one that decodes to the
// same section, and encoding is then stable.
func checkFixpoint(k *K, b []byte) {
	k.Input("%x", b)
	ref := decode(b)
	if ref.class != eOK || !upidsWellFormed(ref.m) {
		return
	}
	k.State(b)
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	if err := s.Decode(b); err != nil {
		return // C02 decides acceptance
	}
	d1 := dump(s)
	e1, err := s.Encode()
	if err != nil {
		k.Fail("re-encoding an accepted section failed: %v", err)
	}
	s2 := &scte35.SpliceInfoSection{}
	if err := s2.Decode(e1); err != nil {
		k.Fail("re-encoded section %x is rejected: %v", e1, err)
	}
	k.T(2)
	k.Validated(1)
	if d2 := dump(s2); d1 != d2 {
		k.Fail("the re-encoded section %x decodes differently: %s", e1, diff(d2, d1))
	}
	e2, err := s2.Encode()
	k.T(1)
	if err != nil || !bytes.Equal(e1, e2) {
		k.Fail("encoding is not stable: %x then %x (%v)", e1, e2, err)
	}
}

func propRoundTrip(c *Ctx) {
	ExploreCases(c, "universe", func(y yieldFn) bool { return universe(c.deep(), y) }, checkRoundTrip)
	Explore(c, "accepted-mutants", func(y func(byteCase) bool) {
		n := 1
		if !c.Thorough {
			mutants(func(y yieldFn) bool { return mutBases(y) }, y)
			return
		}
		mutants(func(y yieldFn) bool { return shapes(n, y) }, y)
	}, byteCase.String, func(k *K, x byteCase) { checkFixpoint(k, x.bytes()) })
}

// mutBases: every command alone, every descriptor with a time_signal.
func mutBases(y yieldFn) bool {
	for _, p := range cmdProtos() {
		if !y(Case{p.name, hdr(p.mk(), &DAvail{0x01020304})}) {
			return false
		}
	}
	for _, p := range descProtos() {
		if !y(Case{p.name, hdr(&CTime{p64(1)}, p.mk(), &DAvail{0x01020304})}) {
			return false
		}
	}
	return true
}
