package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C14"] = propPure
	props["C15"] = propReuse
	props["C16"] = propSequences
}

// ---- C14 ----

type readOp struct {
	name string
	do   func(*scte35.SpliceInfoSection) string
}

func accessorText(s *scte35.SpliceInfoSection) string {
	var sb bytes.Buffer
	p := func(a ...any) { fmt.Fprintln(&sb, a...) }
	p(s.Duration(), s.SAPTypeName(), s.EncryptedPacketFlag())
	switch c := s.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		p(c.Type(), c.DurationFlag(), c.ProgramSpliceFlag(), c.TimeSpecifiedFlag(), c.Program.TimeSpecifiedFlag())
	case *scte35.SpliceSchedule:
		p(c.Type())
		for i := range c.Events {
			p(c.Events[i].DurationFlag(), c.Events[i].ProgramSpliceFlag())
			if c.Events[i].Program != nil {
				p(c.Events[i].Program.UTCSpliceTime.GPSSeconds())
			}
		}
	case *scte35.PrivateCommand:
		p(c.Type(), c.IdentifierString())
	case nil:
	default:
		p(c.Type())
	}
	for _, d := range s.SpliceDescriptors {
		p(d.Tag())
		switch d := d.(type) {
		case *scte35.PrivateDescriptor:
			p(d.IdentifierString())
		case *scte35.SegmentationDescriptor:
			p(d.Name(), d.SegmentationUpidLength(), d.DeliveryNotRestrictedFlag(), d.ProgramSegmentationFlag(), d.SegmentationDurationFlag())
			for i := range d.SegmentationUPIDs {
				p(d.SegmentationUPIDs[i].Name(), d.SegmentationUPIDs[i].ASCIIValue())
			}
		}
	}
	return sb.String()
}

var readOps = []readOp{
	{"Encode", func(s *scte35.SpliceInfoSection) string { b, err := s.Encode(); return fmt.Sprintf("%x %v", b, err) }},
	{"Base64", func(s *scte35.SpliceInfoSection) string { return s.Base64() }},
	{"Hex", func(s *scte35.SpliceInfoSection) string { return s.Hex() }},
	{"Table", func(s *scte35.SpliceInfoSection) string { return s.Table("", "\t") }},
	{"MarshalJSON", func(s *scte35.SpliceInfoSection) string {
		b, err := json.Marshal(s)
		return fmt.Sprintf("%s %v", b, err)
	}},
	{"MarshalXML", func(s *scte35.SpliceInfoSection) string {
		b, err := xml.Marshal(s)
		return fmt.Sprintf("%s %v", b, err)
	}},
	{"accessors", accessorText},
}

// guardedBytes gives every private byte slice of s room behind its end, filled
// with a sentinel; the returned function tells whether any of it was written.
func guardedBytes(s *scte35.SpliceInfoSection) func() bool {
	var all [][]byte
	g := func(p *scte35.Bytes) {
		if *p == nil {
			return
		}
		n := len(*p)
		b := make([]byte, n+32)
		copy(b, *p)
		for i := n; i < len(b); i++ {
			b[i] = 0x77
		}
		all = append(all, b[n:])
		*p = b[:n]
	}
	if c, ok := s.SpliceCommand.(*scte35.PrivateCommand); ok {
		g(&c.PrivateBytes)
	}
	for _, d := range s.SpliceDescriptors {
		if d, ok := d.(*scte35.PrivateDescriptor); ok {
			g(&d.PrivateBytes)
		}
	}
	return func() bool {
		for _, b := range all {
			for _, x := range b {
				if x != 0x77 {
					return false
				}
			}
		}
		return true
	}
}

// spare is what lies behind the end of the lists of s, up to their capacity.
func spare(s *scte35.SpliceInfoSection) []any {
	var l []any
	everyPart(reflect.ValueOf(s), func(v reflect.Value) {
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() && v.Type().Elem().Kind() != reflect.Uint8 {
			for i, f := v.Len(), v.Slice(0, v.Cap()); i < f.Len(); i++ {
				l = append(l, f.Index(i).Interface())
			}
		}
	})
	return l
}

func checkPure(k *K, cs Case) { pure(k, cs, false) }

func checkPurePairs(k *K, cs Case) { pure(k, cs, true) }

// pure runs the reading operations (every ordered pair of them with pairs) on
// one section: each gives what it gives on an untouched section, and the
// section keeps its contents.
func pure(k *K, cs Case, pairs bool) {
	m := cs.M
	k.Input("%x", enc(m))
	pureOf(k, func() *scte35.SpliceInfoSection { return implFor(k, m) }, pairs)
}

func pureOf(k *K, mk func() *scte35.SpliceInfoSection, pairs bool) {
	k.StateS(dump(mk()))
	want := make([]string, len(readOps))
	for i, op := range readOps {
		want[i] = op.do(mk())
		k.T(1)
	}
	s := mk()
	intact := guardedBytes(s)
	behind := spare(s)
	before := dump(s)
	step := func(j int, prev string) {
		op := readOps[j]
		g := op.do(s)
		k.T(1)
		k.Validated(1)
		if g != want[j] {
			k.Fail("%s after %s differs from that of an untouched section: %s", op.name, prev, diff(g, want[j]))
		}
	}
	prev := "nothing"
	for i := range readOps {
		step(i, prev)
		prev = readOps[i].name
		if g := dump(s); g != before {
			k.Fail("%s modifies the section: %s", prev, diff(g, before))
		}
		step(i, prev)
		if !pairs {
			continue
		}
		for j := range readOps {
			step(j, prev)
			prev = readOps[j].name
			step(i, prev)
			prev = readOps[i].name
		}
	}
	if g := dump(s); g != before {
		k.Fail("reading modifies the section: %s", diff(g, before))
	}
	if !intact() {
		k.Fail("reading writes behind the end of the section's private bytes")
	}
	if g := spare(s); !reflect.DeepEqual(g, behind) {
		k.Fail("reading writes behind the end of a list of the section")
	}
}

// handWritten is a UPID as a caller may write it, in a form of their own.
type handWritten struct {
	Type          uint32
	Format, Value string
	At            int
}

// scribble changes every exported value reachable from v, in place.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap()) // also what append would overwrite
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x5A)
		}
	}
}

func fill(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xA5
	}
}

// checkIsolation: a section shares nothing with the buffers it was made from,
// the buffers it gave out, or any other section.
func checkIsolation(k *K, cs Case) {
	m := cs.M
	b0 := enc(m)
	k.Input("%x", b0)
	k.State(b0)
	want := dump(lib(m.onWire()))
	same := func(s *scte35.SpliceInfoSection, what string) {
		k.Validated(1)
		if g := dump(s); g != want {
			k.Fail("%s: %s", what, diff(g, want))
		}
	}
	// the decoder's input, in a larger buffer
	buf := make([]byte, len(b0)+16)
	copy(buf, b0)
	ref := cp(buf)
	s := decodeOK(k, buf[:len(b0)])
	if !bytes.Equal(buf, ref) {
		k.Fail("Decode writes to its input: %x", buf)
	}
	fill(buf)
	same(s, "the section changes with the buffer it was decoded from")
	// the encoder's output
	e, err := s.Encode()
	k.T(1)
	if err != nil || !bytes.Equal(e, b0) {
		k.Fail("after the input buffer was reused, the section encodes as %x (%v)", e, err)
	}
	fill(e)
	e2, err := s.Encode()
	k.T(1)
	if err != nil || !bytes.Equal(e2, b0) {
		k.Fail("after an encoded buffer was overwritten, the section encodes as %x (%v)", e2, err)
	}
	fill(e)
	if !bytes.Equal(e2, b0) {
		k.Fail("two encoded buffers share memory")
	}
	same(s, "the section changes with a buffer it was encoded to")
	// documents
	for _, f := range []struct {
		what string
		to   func() ([]byte, error)
		from func([]byte, *scte35.SpliceInfoSection) error
		skip bool
	}{
		{"JSON", func() ([]byte, error) { return json.Marshal(s) }, func(b []byte, x *scte35.SpliceInfoSection) error { return json.Unmarshal(b, x) }, !jsonable(m)},
		{"XML", func() ([]byte, error) { return xml.Marshal(s) }, func(b []byte, x *scte35.SpliceInfoSection) error { return xml.Unmarshal(b, x) }, !xmlable(m)},
	} {
		if f.skip || len(m.Stuff) > 0 {
			continue
		}
		doc, err := f.to()
		if err != nil {
			k.Fail("%s: %v", f.what, err)
		}
		doc0 := cp(doc)
		x := &scte35.SpliceInfoSection{}
		if err := f.from(doc, x); err != nil {
			k.Fail("%s: %v", f.what, err)
		}
		if !bytes.Equal(doc, doc0) {
			k.Fail("unmarshalling %s writes to its input", f.what)
		}
		fill(doc)
		same(x, "the section changes with the "+f.what+" document it was read from")
		same(s, "the section changes with the "+f.what+" document it was written to")
		doc2, _ := f.to()
		if !bytes.Equal(doc2, doc0) {
			k.Fail("after a %s document was overwritten, the section gives another one: %s", f.what, doc2)
		}
		k.T(3)
		// other sections
		scribble(reflect.ValueOf(x))
		same(s, "the section changes when another one read from its "+f.what+" does")
	}
	t := decodeOK(k, b0)
	scribble(reflect.ValueOf(t))
	same(s, "the section changes when another one decoded from the same bytes does")
	same(decodeOK(k, b0), "decoding gives another result after a section decoded before was changed")
}

// checkParts: the parts of one section share nothing with one another.
func checkParts(k *K, cs Case) {
	b := enc(cs.M)
	k.Input("%x", b)
	k.State(b)
	n := len(cs.M.Desc)
	ref := decodeOK(k, b)
	var want []string
	for _, d := range ref.SpliceDescriptors {
		want = append(want, dump(d))
	}
	cmd := dump(ref.SpliceCommand)
	for i := -1; i < n; i++ {
		s := decodeOK(k, b)
		if i < 0 {
			scribble(reflect.ValueOf(s.SpliceCommand))
		} else {
			scribble(reflect.ValueOf(s.SpliceDescriptors[i]))
		}
		k.Validated(1)
		for j := 0; j < n; j++ {
			if j != i {
				if g := dump(s.SpliceDescriptors[j]); g != want[j] {
					k.Fail("changing part %d of the section changes its descriptor %d: %s", i, j, diff(g, want[j]))
				}
			}
		}
		if g := dump(s.SpliceCommand); i >= 0 && g != cmd {
			k.Fail("changing descriptor %d of the section changes its command: %s", i, diff(g, cmd))
		}
	}
	// appending to private bytes in place leaves the rest of the section alone
	for i := -1; i < n; i++ {
		s := decodeOK(k, b)
		m := *cs.M.onWire()
		if i < 0 {
			c, ok := s.SpliceCommand.(*scte35.PrivateCommand)
			if !ok {
				continue
			}
			c.PrivateBytes = append(c.PrivateBytes, 0xC3, 0x3C)
			mc := m.Cmd.(*CPriv)
			m.Cmd = &CPriv{Ident: mc.Ident, Bytes: append(cp(mc.Bytes), 0xC3, 0x3C)}
		} else {
			d, ok := s.SpliceDescriptors[i].(*scte35.PrivateDescriptor)
			if !ok {
				continue
			}
			d.PrivateBytes = append(d.PrivateBytes, 0xC3, 0x3C)
			md := m.Desc[i].(*DPriv)
			m.Desc = append([]Desc(nil), m.Desc...)
			m.Desc[i] = &DPriv{md.Tag, md.Ident, append(cp(md.Bytes), 0xC3, 0x3C)}
		}
		if !representable(&m) {
			continue
		}
		k.Validated(1)
		if g, w := dump(s), dump(lib(&m)); g != w {
			k.Fail("appending to the private bytes of part %d changes something else: %s", i, diff(g, w))
		}
		e, err := s.Encode()
		k.T(1)
		if w := enc(&m); err != nil || !bytes.Equal(e, w) {
			k.Fail("after appending to the private bytes of part %d: %x (%v), want %x", i, e, err, w)
		}
	}
}

// checkFresh: constructors give values of their own.
func checkFresh(k *K, i int) {
	k.StateS(fmt.Sprint(i))
	mk := func() any {
		switch {
		case i < 256:
			return scte35.NewSpliceCommand(uint32(i))
		case i < 512:
			return scte35.NewSpliceDescriptor(cuei, uint32(i-256))
		case i < 768:
			u := scte35.NewSegmentationUPID(uint32(i-512), []byte("abcdefghijkl"))
			return &u
		case i == 768:
			return scte35.NewTimeSignal(5)
		case i == 769:
			return scte35.NewSpliceInsertProgram(5)
		case i == 770:
			return &scte35.SpliceInfoSection{}
		}
		u := scte35.NewUTCSpliceTime(5)
		return &u
	}
	a := mk()
	want := dump(a)
	b := mk()
	scribble(reflect.ValueOf(b))
	k.T(3)
	k.Validated(2)
	if g := dump(a); g != want {
		k.Fail("changing one new value changes another: %s", diff(g, want))
	}
	if g := dump(mk()); g != want {
		k.Fail("a new value differs after another was changed: %s", diff(g, want))
	}
}

// privs: lists of private parts next to one another and to stuffing.
func privs(y yieldFn) bool {
	for a := 0; a <= 5; a++ {
		for b := 0; b <= 5; b++ {
			for st := 0; st <= 2; st++ {
				for c := 0; c < 3; c++ {
					var cmd Cmd = &CTime{p64(3)}
					if c == 1 {
						cmd = &CPriv{Ident: 7, Bytes: pat(a)}
					}
					if c == 2 {
						i := insBase()
						i.Comps = []IComp{{Tag: 1}, {Tag: 2, HasST: true, PTS: p64(5)}}
						cmd = i
					}
					g := segBase()
					g.UPIDs = []UPID{upidText, {0x06, pat(12)}}
					g.Comps = []GComp{{1, 2}, {3, 4}}
					m := hdr(cmd, &DPriv{1, 2, pat(a)}, &DPriv{3, 4, pat(b)}, g, &DPriv{5, 6, pat(a + b)}, &DAudio{[]AudioCh{{1, "eng", 2, 3, true}, {4, "fra", 5, 6, false}}})
					m.Stuff = pat(st)
					if !y(Case{"private parts", m}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func propPure(c *Ctx) {
	lv := 0
	if c.Thorough {
		lv = 1
	}
	ExploreCases(c, "reading", func(y yieldFn) bool { return universe(c.level(), y) }, checkPure)
	ExploreCases(c, "reading-pairs", func(y yieldFn) bool { return universe(lv, y) }, checkPurePairs)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantPure)
	ExploreCases(c, "not-encodable", func(y yieldFn) bool {
		for n := 1; n <= 20; n++ {
			a, g := &DAudio{}, segBase()
			i, e := insBase(), evBase(1)
			for j := 0; j < n; j++ {
				a.Ch = append(a.Ch, AudioCh{})
				g.UPIDs = append(g.UPIDs, UPID{})
				g.Comps = append(g.Comps, GComp{})
				i.Comps = append(i.Comps, IComp{})
				e.Comps = append(e.Comps, SComp{})
			}
			if !y(Case{"empty elements", hdr(i, a, g)}) || !y(Case{"empty elements", hdr(&CSched{[]SEvent{e, {}, e}}, a, a)}) {
				return false
			}
		}
		return limitCases(false, func(cs Case) bool { return representable(cs.M) || y(cs) })
	}, func(k *K, cs Case) {
		k.Input("%s", cs.Name)
		pureOf(k, func() *scte35.SpliceInfoSection { return lib(cs.M) }, false)
	})
	Explore(c, "hand-written", func(y func(handWritten) bool) {
		vals := append([]string{"", " 5 ", "007", "+7", "\t", " abc ", "abc\n", "QUJD\nRA==", "QUJDRA", "10.5240/abcd-ef01-2345-6789-abcd", "10.5240/ABCD-EF01-2345-6789-ABCD", " 10.5240/abcd-ef01-2345-6789-abcd-k", "10.5240/abcdef0123456789abcd", "10.5239/", "é", "\u0141", "\xFF"}, otherForms...)
		for _, v := range vals {
			for t := uint32(0); t <= 0x12; t++ {
				for _, f := range []string{"", "text", "base-64", "hexbinary", "Text"} {
					for at := 0; at < 4; at++ {
						if !y(handWritten{t, f, v, at}) {
							return
						}
					}
				}
			}
		}
	}, func(h handWritten) string { return fmt.Sprintf("%+v", h) }, func(k *K, h handWritten) {
		k.Input("%+v", h)
		pureOf(k, func() *scte35.SpliceInfoSection {
			g := segBase()
			for i := 0; i < 3 && h.At < 3 || i < 1; i++ {
				g.UPIDs = append(g.UPIDs, UPID{0x0F, []byte("a/b")})
			}
			s := lib(hdr(&CTime{p64(7)}, g))
			us := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs
			u := scte35.SegmentationUPID{Type: h.Type, Format: h.Format, Value: h.Value}
			if h.Type == 0x0C && h.Format != "" {
				id := uint32(0x41424344)
				u.FormatIdentifier = &id
			}
			us[h.At%len(us)] = u
			return s
		}, false)
	})
	ExploreCases(c, "isolation", func(y yieldFn) bool { return universe(lv, y) && privs(y) }, checkIsolation)
	ExploreCases(c, "parts", func(y yieldFn) bool { return shapes(2, y) && privs(y) && alike(y) }, checkParts)
	ExploreCases(c, "places", func(y yieldFn) bool { return universe(lv, y) && privs(y) }, checkLeaves)
	Explore(c, "constructors", func(y func(int) bool) {
		for i := 0; i <= 771; i++ {
			if !y(i) {
				return
			}
		}
	}, func(i int) string { return fmt.Sprint(i) }, checkFresh)
	// encoding across sections: the result for one section does not depend on
	// which other sections were encoded or decoded before.
	Explore(c, "interleaved", func(y func([2]int) bool) {
		n := len(reusePool())
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if !y([2]int{i, j}) {
					return
				}
			}
		}
	}, func(x [2]int) string { return fmt.Sprint(x) }, func(k *K, x [2]int) {
		pool := reusePool()
		a, b := pool[x[0]], pool[x[1]]
		k.StateS(fmt.Sprint(x))
		s, t := decodeOK(k, enc(a.M)), decodeOK(k, enc(b.M))
		for i, op := range readOps {
			_ = op.do(t)
			for j, op2 := range readOps {
				if g, w := op2.do(s), op2.do(decodeOK(k, enc(a.M))); g != w {
					k.Fail("%s of %s after %s of %s: %s", op2.name, a.Name, op.name, b.Name, diff(g, w))
				}
				_, _ = i, j
				k.T(2)
				k.Validated(1)
			}
		}
		sameAs(k, s, a.M.onWire(), "the first section changed")
		sameAs(k, t, b.M.onWire(), "the second section changed")
	})
}

// ---- C15 ----

var poolOnce []Case

func init() {
	mutBases(func(cs Case) bool {
		poolOnce = append(poolOnce, cs)
		return true
	})
	stuffedFew(func(cs Case) bool {
		poolOnce = append(poolOnce, cs)
		return true
	})
	poolOnce = append(poolOnce, Case{"bare", &Sec{SAP: 0, Cmd: &CNull{}}}, Case{"header", &Sec{SAP: 2, Proto: 9, EncAlg: 5, CW: 9, Tier: 77, PTSAdj: 5, PreRoll: 1234, Cmd: &CBW{}}})
}

func reusePool() []Case { return poolOnce }

// loadOp is one way of putting a section's content into a value.
type loadOp struct {
	name string
	cs   Case
	b    []byte
	do   func(*scte35.SpliceInfoSection) error
	fail bool // leaves the content unspecified when it fails
}

// loadOps: every pool section by every route, whole and broken.
func loadOps(pool []Case, broken bool) []loadOp {
	var ops []loadOp
	for _, cs := range pool {
		b := enc(cs.M)
		dec := func(name string, b []byte) {
			ops = append(ops, loadOp{name: "Decode " + name + " " + cs.Name, cs: cs, b: b,
				do: func(s *scte35.SpliceInfoSection) error { return s.Decode(b) }})
		}
		dec("", b)
		if broken {
			bad := cp(b)
			bad[len(bad)-1] ^= 1
			dec("bad-crc", bad)
			dec("cut", b[:len(b)-5])
			dec("cut-command", b[:min(16, len(b))])
			dec("cut-header", b[:5])
			over := cp(b)
			over[12]++ // splice_command_length
			putCRC(over)
			dec("command-length", over)
		}
		if len(cs.M.Stuff) > 0 {
			continue
		}
		jd := []byte(jstyle{}.render(jdoc(cs.M)))
		jo := []byte(jstyle{omit: true, noSAP: true}.render(jdoc(cs.M)))
		xd := []byte(xstyle{}.render(xdoc(cs.M)))
		xo := []byte(xstyle{omit: true, noSAP: true}.render(xdoc(cs.M)))
		doc := func(name string, d []byte, f func([]byte, any) error, fail bool) {
			ops = append(ops, loadOp{name: name + " " + cs.Name, cs: cs, b: d, fail: fail,
				do: func(s *scte35.SpliceInfoSection) error { return f(d, s) }})
		}
		doc("UnmarshalJSON", jd, json.Unmarshal, false)
		doc("UnmarshalJSON(omitting)", jo, json.Unmarshal, false)
		doc("UnmarshalXML", xd, xml.Unmarshal, false)
		doc("UnmarshalXML(omitting)", xo, xml.Unmarshal, false)
		if broken {
			doc("UnmarshalJSON(bad)", bytes.Replace(jd, []byte(`"tier":`), []byte(`"tier":"x`), 1), json.Unmarshal, true)
			doc("UnmarshalXML(bad)", xd[:len(xd)*3/4], xml.Unmarshal, true)
		}
	}
	return ops
}

func outcome(s *scte35.SpliceInfoSection, err error) string {
	e, eerr := []byte(nil), error(nil)
	if s.SpliceCommand != nil {
		e, eerr = s.Encode()
	}
	return fmt.Sprintf("%v\n%s\n%x %v", err, dump(s), e, eerr)
}

func propReuse(c *Ctx) {
	c.Assume("what a section holds after JSON or XML input was rejected is not specified; what a later successful read gives is")
	pool := reusePool()
	ops := loadOps(pool, true)
	fresh := make([]string, len(ops))
	for i, op := range ops {
		s := &scte35.SpliceInfoSection{}
		err := op.do(s)
		fresh[i] = outcome(s, err)
	}
	run := func(k *K, seq []int) {
		s := &scte35.SpliceInfoSection{}
		var err error
		for _, i := range seq {
			err = ops[i].do(s)
			k.T(1)
		}
		last := seq[len(seq)-1]
		if ops[last].fail {
			if err == nil {
				k.Fail("%s succeeds", ops[last].name)
			}
			return
		}
		k.Validated(1)
		if g := outcome(s, err); g != fresh[last] {
			k.Fail("the result differs from that of a fresh section: %s", diff(g, fresh[last]))
		}
	}
	show := func(seq []int) string {
		t := ""
		for _, i := range seq {
			t += ops[i].name + fmt.Sprintf(" %x; ", ops[i].b)
		}
		return t
	}
	Explore(c, "pairs", func(y func([]int) bool) {
		for i := range ops {
			for j := range ops {
				if !y([]int{i, j}) {
					return
				}
			}
		}
	}, show, func(k *K, seq []int) {
		k.StateS(fmt.Sprint(seq))
		run(k, seq)
	})
	// nothing, and every beginning of every section, into every section
	Explore(c, "every-prefix", func(y func([2]int) bool) {
		for i := range pool {
			for j := range pool {
				if !y([2]int{i, j}) {
					return
				}
			}
		}
	}, func(x [2]int) string { return pool[x[0]].Name + ", then the beginnings of " + pool[x[1]].Name }, func(k *K, x [2]int) {
		k.StateS(fmt.Sprint("p", x))
		b := enc(pool[x[1]].M)
		for n := -1; n <= len(b); n++ {
			var p []byte
			if n >= 0 {
				p = b[:n:n]
			}
			k.Input("%x, then %x", enc(pool[x[0]].M), p)
			s, f := implFor(k, pool[x[0]].M), &scte35.SpliceInfoSection{}
			s.PreRollMilliSeconds = 7
			err, ferr := s.Decode(p), f.Decode(p)
			k.T(2)
			k.Validated(1)
			if g, w := outcome(s, err), outcome(f, ferr); g != w {
				k.Fail("the first %d bytes: the result differs from that of a fresh section: %s", n, diff(g, w))
			}
		}
	})
	// a section edited through its fields, then reused
	Explore(c, "edited", func(y func([]int) bool) {
		for i := range pool {
			for j := range ops {
				if !y([]int{i, j}) {
					return
				}
			}
		}
	}, func(x []int) string { return pool[x[0]].Name + " edited; " + ops[x[1]].name }, func(k *K, x []int) {
		k.StateS(fmt.Sprint("e", x))
		for v := 0; v < 2; v++ {
			s := implFor(k, pool[x[0]].M)
			if v == 1 {
				scribble(reflect.ValueOf(s))
			}
			s.PreRollMilliSeconds = 5
			err := ops[x[1]].do(s)
			k.T(2)
			if ops[x[1]].fail {
				return
			}
			k.Validated(1)
			if g := outcome(s, err); g != fresh[x[1]] {
				k.Fail("the result differs from that of a fresh section: %s", diff(g, fresh[x[1]]))
			}
		}
	})
	Explore(c, "triples", func(y func([]int) bool) {
		st := 19
		if c.Thorough {
			st = 2
		}
		for i := 0; i < len(ops); i += st {
			for j := range ops {
				for l := (i + j) % 3; l < len(ops); l += 3 {
					if !y([]int{i, j, l}) {
						return
					}
				}
			}
		}
	}, show, run)
	// descriptor lists: reuse of the list value itself
	Explore(c, "descriptor-lists", func(y func([]int) bool) {
		for i := range pool {
			for j := range pool {
				if len(pool[i].M.Stuff)+len(pool[j].M.Stuff) == 0 && !y([]int{i, j}) {
					return
				}
			}
		}
	}, func(x []int) string { return pool[x[0]].Name + "; " + pool[x[1]].Name }, func(k *K, x []int) {
		k.StateS(fmt.Sprint("d", x))
		list := func(m *Sec) []byte {
			l := []any{}
			for _, d := range m.Desc {
				l = append(l, jdesc(d))
			}
			return []byte(jstyle{}.render(l))
		}
		var sds scte35.SpliceDescriptors
		for _, i := range x {
			if err := json.Unmarshal(list(pool[i].M), &sds); err != nil {
				k.Fail("%s: %v", list(pool[i].M), err)
			}
			k.T(1)
		}
		k.Validated(1)
		if g, w := dump(sds), dump(lib(pool[x[1]].M).SpliceDescriptors); g != w {
			k.Fail("the list read second differs: %s", diff(g, w))
		}
	})
	everyOver(c)
}

// ---- C16 ----

// sop is one operation on a section: what it does to the model and to the
// implementation (which may give a new value).
type sop struct {
	name  string
	model func(*Sec) *Sec // nil: not applicable
	impl  func(*K, *scte35.SpliceInfoSection) *scte35.SpliceInfoSection
}

func cloneM(m *Sec) *Sec {
	o := *m
	o.Desc = append([]Desc(nil), m.Desc...)
	return &o
}

func must(k *K, err error, what string) {
	if err != nil {
		k.Fail("%s: %v", what, err)
	}
}

// sequenceOps gives the operations, the first ones of which are explored the
// deepest.
func sequenceOps() ([]sop, int) {
	edit := func(name string, f func(*Sec) bool, g func(*scte35.SpliceInfoSection)) sop {
		return sop{name, func(m *Sec) *Sec {
			o := cloneM(m)
			if !f(o) {
				return nil
			}
			return o
		}, func(_ *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection { g(s); return s }}
	}
	seg := func(m *Sec) int {
		for i, d := range m.Desc {
			if _, ok := d.(*DSeg); ok {
				return i
			}
		}
		return -1
	}
	segM := func(m *Sec, f func(*DSeg)) bool {
		i := seg(m)
		if i < 0 {
			return false
		}
		g := *m.Desc[i].(*DSeg)
		f(&g)
		m.Desc[i] = &g
		return true
	}
	segI := func(s *scte35.SpliceInfoSection) *scte35.SegmentationDescriptor {
		for _, d := range s.SpliceDescriptors {
			if g, ok := d.(*scte35.SegmentationDescriptor); ok {
				return g
			}
		}
		return nil
	}
	wire := func(m *Sec) *Sec { return m.onWire() }
	ops := []sop{
		{"binary", wire, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			b, err := s.Encode()
			must(k, err, "Encode")
			t := &scte35.SpliceInfoSection{}
			must(k, t.Decode(b), "Decode")
			return t
		}},
		{"binary-in-place", wire, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			b, err := s.Encode()
			must(k, err, "Encode")
			must(k, s.Decode(b), "Decode")
			return s
		}},
		{"base64", wire, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			t, err := scte35.DecodeBase64(s.Base64())
			must(k, err, "DecodeBase64")
			return t
		}},
		{"hex", wire, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			t, err := scte35.DecodeHex("0x" + s.Hex())
			must(k, err, "DecodeHex")
			return t
		}},
		{"json", noStuff, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection { return fromJSON(k, toJSON(k, s)) }},
		{"xml", noStuff, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			return fromXML(k, toXML(k, s, true))
		}},
		{"json-in-place", noStuff, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			must(k, json.Unmarshal(toJSON(k, s), s), "UnmarshalJSON")
			return s
		}},
		{"read", cloneM, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			_ = s.Table("", "")
			_, _ = s.Encode()
			_ = s.Duration()
			_, _ = json.Marshal(s)
			_, _ = xml.Marshal(s)
			_ = s.Hex()
			return s
		}},
		edit("toggle-encryption", func(m *Sec) bool {
			if m.EncAlg != 0 {
				m.EncAlg = 0
			} else {
				m.EncAlg = 1
			}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			if s.EncryptedPacket.EncryptionAlgorithm != 0 {
				s.EncryptedPacket.EncryptionAlgorithm = 0
			} else {
				s.EncryptedPacket.EncryptionAlgorithm = 1
			}
		}),
		edit("header", func(m *Sec) bool {
			m.SAP, m.Proto, m.CW, m.Tier, m.PTSAdj, m.PreRoll, m.EncAlg = m.SAP^1, 1, 7, m.Tier^0xABC, m.PTSAdj+1<<32, 40, m.EncAlg^2
			m.PTSAdj &= 1<<33 - 1
			return true
		}, func(s *scte35.SpliceInfoSection) {
			s.SAPType, s.ProtocolVersion, s.EncryptedPacket.CWIndex, s.Tier, s.PreRollMilliSeconds = s.SAPType^1, 1, 7, s.Tier^0xABC, 40
			s.PTSAdjustment = (s.PTSAdjustment + 1<<32) & (1<<33 - 1)
			s.EncryptedPacket.EncryptionAlgorithm ^= 2
		}),
		edit("append-segmentation", func(m *Sec) bool {
			g := segBase()
			g.UPIDs = []UPID{upidText}
			g.Dur = p64(90000)
			m.Desc = append(m.Desc, g)
			return len(m.Desc) <= 4
		}, func(s *scte35.SpliceInfoSection) {
			g := segBase()
			g.UPIDs = []UPID{upidText}
			g.Dur = p64(90000)
			s.SpliceDescriptors = append(s.SpliceDescriptors, libDesc(g))
		}),
		edit("prepend-private", func(m *Sec) bool {
			m.Desc = append([]Desc{&DPriv{2, 0x11223344, []byte{1, 2, 3}}}, m.Desc...)
			return len(m.Desc) <= 4
		}, func(s *scte35.SpliceInfoSection) {
			s.SpliceDescriptors = append(scte35.SpliceDescriptors{libDesc(&DPriv{2, 0x11223344, []byte{1, 2, 3}})}, s.SpliceDescriptors...)
		}),
		edit("drop-first", func(m *Sec) bool {
			if len(m.Desc) == 0 {
				return false
			}
			m.Desc = m.Desc[1:]
			return true
		}, func(s *scte35.SpliceInfoSection) { s.SpliceDescriptors = s.SpliceDescriptors[1:] }),
		edit("append-upid", func(m *Sec) bool {
			return segM(m, func(g *DSeg) {
				g.UPIDs = append(append([]UPID(nil), g.UPIDs...), UPID{0x0C, []byte("DISCxyz")})
			})
		}, func(s *scte35.SpliceInfoSection) {
			g := segI(s)
			g.SegmentationUPIDs = append(g.SegmentationUPIDs, upidPresent(UPID{0x0C, []byte("DISCxyz")}).lib())
		}),
		edit("drop-upids", func(m *Sec) bool { return segM(m, func(g *DSeg) { g.UPIDs = nil }) },
			func(s *scte35.SpliceInfoSection) { segI(s).SegmentationUPIDs = nil }),
		edit("cancel-segmentation", func(m *Sec) bool { return segM(m, func(g *DSeg) { g.Cancel = !g.Cancel }) },
			func(s *scte35.SpliceInfoSection) {
				g := segI(s)
				g.SegmentationEventCancelIndicator = !g.SegmentationEventCancelIndicator
			}),
		edit("sub-segments", func(m *Sec) bool {
			return segM(m, func(g *DSeg) { g.TypeID, g.SubNum, g.SubExpec = 0x36, p32(1), p32(2) })
		}, func(s *scte35.SpliceInfoSection) {
			g := segI(s)
			g.SegmentationTypeID, g.SubSegmentNum, g.SubSegmentsExpected = 0x36, p32(1), p32(2)
		}),
		edit("restrict", func(m *Sec) bool {
			return segM(m, func(g *DSeg) { g.Restr = &Restr{Web: true, Device: 1}; g.Comps = []GComp{{4, 5}} })
		}, func(s *scte35.SpliceInfoSection) {
			g := segI(s)
			g.DeliveryRestrictions = &scte35.DeliveryRestrictions{WebDeliveryAllowedFlag: true, DeviceRestrictions: 1}
			g.Components = []scte35.SegmentationDescriptorComponent{{Tag: 4, PTSOffset: 5}}
		}),
		edit("to-insert", func(m *Sec) bool {
			c := insBase()
			c.Prog = &ProgT{p64(77)}
			c.Break = &Brk{true, 88}
			m.Cmd = c
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := insBase()
			c.Prog = &ProgT{p64(77)}
			c.Break = &Brk{true, 88}
			s.SpliceCommand = libCmd(c)
		}),
		edit("insert-immediate", func(m *Sec) bool {
			c, ok := m.Cmd.(*CInsert)
			if !ok {
				return false
			}
			n := *c
			n.Imm = !n.Imm
			m.Cmd = &n
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.SpliceInsert)
			c.SpliceImmediateFlag = !c.SpliceImmediateFlag
		}),
		edit("insert-by-component", func(m *Sec) bool {
			c, ok := m.Cmd.(*CInsert)
			if !ok {
				return false
			}
			n := *c
			n.Prog = nil
			n.Comps = append(append([]IComp(nil), n.Comps...), IComp{Tag: 9, HasST: true, PTS: p64(99)})
			m.Cmd = &n
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.SpliceInsert)
			c.Program = nil
			c.Components = append(c.Components, scte35.SpliceInsertComponent{Tag: 9, SpliceTime: &scte35.SpliceTime{PTSTime: p64(99)}})
		}),
		edit("insert-cancel", func(m *Sec) bool {
			c, ok := m.Cmd.(*CInsert)
			if !ok {
				return false
			}
			n := *c
			n.Cancel = !n.Cancel
			m.Cmd = &n
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.SpliceInsert)
			c.SpliceEventCancelIndicator = !c.SpliceEventCancelIndicator
		}),
		edit("to-schedule", func(m *Sec) bool {
			e, f := evBase(1), evBase(2)
			e.Prog = p32(1000)
			f.Comps = []SComp{{1, 2}}
			m.Cmd = &CSched{[]SEvent{e, f}}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			e, f := evBase(1), evBase(2)
			e.Prog = p32(1000)
			f.Comps = []SComp{{1, 2}}
			s.SpliceCommand = libCmd(&CSched{[]SEvent{e, f}})
		}),
		edit("cancel-event", func(m *Sec) bool {
			c, ok := m.Cmd.(*CSched)
			if !ok || len(c.Events) == 0 {
				return false
			}
			n := &CSched{append([]SEvent(nil), c.Events...)}
			n.Events[0].Cancel = !n.Events[0].Cancel
			m.Cmd = n
			return true
		}, func(s *scte35.SpliceInfoSection) {
			e := &s.SpliceCommand.(*scte35.SpliceSchedule).Events[0]
			e.SpliceEventCancelIndicator = !e.SpliceEventCancelIndicator
		}),
		edit("to-private", func(m *Sec) bool { m.Cmd = &CPriv{Ident: 5, Bytes: []byte{9, 8}}; return true },
			func(s *scte35.SpliceInfoSection) { s.SpliceCommand = libCmd(&CPriv{Ident: 5, Bytes: []byte{9, 8}}) }),
		edit("untimed", func(m *Sec) bool { m.Cmd = &CTime{}; return true },
			func(s *scte35.SpliceInfoSection) { s.SpliceCommand = &scte35.TimeSignal{} }),
		edit("to-null", func(m *Sec) bool { m.Cmd = &CNull{}; return true },
			func(s *scte35.SpliceInfoSection) { s.SpliceCommand = &scte35.SpliceNull{} }),
	}
	core := len(ops)
	priv := func(m *Sec, f func(*DPriv) bool) bool {
		for i, d := range m.Desc {
			if p, ok := d.(*DPriv); ok {
				n := *p
				if !f(&n) {
					return false
				}
				m.Desc[i] = &n
				return true
			}
		}
		return false
	}
	privI := func(s *scte35.SpliceInfoSection) *scte35.PrivateDescriptor {
		for _, d := range s.SpliceDescriptors {
			if p, ok := d.(*scte35.PrivateDescriptor); ok {
				return p
			}
		}
		return nil
	}
	ops = append(ops,
		sop{"xml-in-place", noStuff, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			must(k, xml.Unmarshal(toXML(k, s, false), s), "UnmarshalXML")
			return s
		}},
		sop{"copied", cloneM, func(k *K, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
			c := *s
			return &c
		}},
		edit("no-descriptors", func(m *Sec) bool { m.Desc = nil; return true },
			func(s *scte35.SpliceInfoSection) { s.SpliceDescriptors = s.SpliceDescriptors[:0] }),
		edit("nil-descriptors", func(m *Sec) bool { m.Desc = nil; return true },
			func(s *scte35.SpliceInfoSection) { s.SpliceDescriptors = nil }),
		edit("drop-last", func(m *Sec) bool {
			if len(m.Desc) == 0 {
				return false
			}
			m.Desc = m.Desc[:len(m.Desc)-1]
			return true
		}, func(s *scte35.SpliceInfoSection) {
			s.SpliceDescriptors = s.SpliceDescriptors[:len(s.SpliceDescriptors)-1]
		}),
		edit("swap-ends", func(m *Sec) bool {
			n := len(m.Desc)
			if n < 2 {
				return false
			}
			m.Desc[0], m.Desc[n-1] = m.Desc[n-1], m.Desc[0]
			return true
		}, func(s *scte35.SpliceInfoSection) {
			l := s.SpliceDescriptors
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		}),
		edit("replace-first", func(m *Sec) bool {
			if len(m.Desc) == 0 {
				return false
			}
			m.Desc[0] = &DAvail{0x01020304}
			return true
		}, func(s *scte35.SpliceInfoSection) { s.SpliceDescriptors[0] = libDesc(&DAvail{0x01020304}) }),
		edit("empty-private-command", func(m *Sec) bool {
			c, ok := m.Cmd.(*CPriv)
			if !ok {
				return false
			}
			m.Cmd = &CPriv{Ident: c.Ident, Type: c.Type}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.PrivateCommand)
			c.PrivateBytes = c.PrivateBytes[:0]
		}),
		edit("shorter-private-command", func(m *Sec) bool {
			c, ok := m.Cmd.(*CPriv)
			if !ok || len(c.Bytes) == 0 {
				return false
			}
			m.Cmd = &CPriv{Ident: c.Ident, Type: c.Type, Bytes: c.Bytes[:len(c.Bytes)-1]}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.PrivateCommand)
			c.PrivateBytes = c.PrivateBytes[:len(c.PrivateBytes)-1]
		}),
		edit("longer-private-command", func(m *Sec) bool {
			c, ok := m.Cmd.(*CPriv)
			if !ok || len(c.Bytes) > 300 {
				return false
			}
			m.Cmd = &CPriv{Ident: c.Ident ^ 1, Type: c.Type, Bytes: append(cp(c.Bytes), pat(100)...)}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.PrivateCommand)
			c.Identifier ^= 1
			c.PrivateBytes = append(c.PrivateBytes, pat(100)...)
		}),
		edit("empty-private-descriptor", func(m *Sec) bool { return priv(m, func(p *DPriv) bool { p.Bytes = nil; return true }) },
			func(s *scte35.SpliceInfoSection) { p := privI(s); p.PrivateBytes = p.PrivateBytes[:0] }),
		edit("shorter-private-descriptor", func(m *Sec) bool {
			return priv(m, func(p *DPriv) bool {
				if len(p.Bytes) == 0 {
					return false
				}
				p.Bytes = p.Bytes[:len(p.Bytes)-1]
				return true
			})
		}, func(s *scte35.SpliceInfoSection) {
			p := privI(s)
			p.PrivateBytes = p.PrivateBytes[:len(p.PrivateBytes)-1]
		}),
		edit("longer-private-descriptor", func(m *Sec) bool {
			return priv(m, func(p *DPriv) bool { p.Bytes = append(cp(p.Bytes), 0xCC); return len(p.Bytes) < 200 })
		}, func(s *scte35.SpliceInfoSection) { p := privI(s); p.PrivateBytes = append(p.PrivateBytes, 0xCC) }),
		edit("empty-upids", func(m *Sec) bool { return segM(m, func(g *DSeg) { g.UPIDs = nil }) },
			func(s *scte35.SpliceInfoSection) { g := segI(s); g.SegmentationUPIDs = g.SegmentationUPIDs[:0] }),
		edit("one-upid", func(m *Sec) bool {
			ok := false
			return segM(m, func(g *DSeg) {
				if ok = len(g.UPIDs) > 1; ok {
					g.UPIDs = g.UPIDs[:1]
				}
			}) && ok
		}, func(s *scte35.SpliceInfoSection) { g := segI(s); g.SegmentationUPIDs = g.SegmentationUPIDs[:1] }),
		edit("unrestricted", func(m *Sec) bool { return segM(m, func(g *DSeg) { g.Restr, g.Comps, g.Dur = nil, nil, nil }) },
			func(s *scte35.SpliceInfoSection) {
				g := segI(s)
				g.DeliveryRestrictions, g.SegmentationDuration = nil, nil
				g.Components = g.Components[:0]
			}),
		edit("no-sub-segments", func(m *Sec) bool { return segM(m, func(g *DSeg) { g.TypeID, g.SubNum, g.SubExpec = 0x10, nil, nil }) },
			func(s *scte35.SpliceInfoSection) {
				g := segI(s)
				g.SegmentationTypeID, g.SubSegmentNum, g.SubSegmentsExpected = 0x10, nil, nil
			}),
		edit("duration-in-place", func(m *Sec) bool {
			ok := false
			return segM(m, func(g *DSeg) {
				if ok = g.Dur != nil; ok {
					g.Dur = p64((*g.Dur + 1<<38) & (1<<40 - 1))
				}
			}) && ok
		}, func(s *scte35.SpliceInfoSection) {
			d := segI(s).SegmentationDuration
			*d = (*d + 1<<38) & (1<<40 - 1)
		}),
		edit("insert-by-program", func(m *Sec) bool {
			c, ok := m.Cmd.(*CInsert)
			if !ok {
				return false
			}
			n := *c
			n.Comps, n.Prog, n.Break = nil, &ProgT{p64(12)}, nil
			m.Cmd = &n
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.SpliceInsert)
			c.Components, c.BreakDuration = c.Components[:0], nil
			c.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: p64(12)}}
		}),
		edit("fewer-events", func(m *Sec) bool {
			c, ok := m.Cmd.(*CSched)
			if !ok || len(c.Events) == 0 {
				return false
			}
			m.Cmd = &CSched{c.Events[:len(c.Events)-1]}
			return true
		}, func(s *scte35.SpliceInfoSection) {
			c := s.SpliceCommand.(*scte35.SpliceSchedule)
			c.Events = c.Events[:len(c.Events)-1]
		}),
		edit("time-in-place", func(m *Sec) bool {
			c, ok := m.Cmd.(*CTime)
			if !ok || c.PTS == nil {
				return false
			}
			m.Cmd = &CTime{p64(*c.PTS ^ 1<<32)}
			return true
		}, func(s *scte35.SpliceInfoSection) { *s.SpliceCommand.(*scte35.TimeSignal).SpliceTime.PTSTime ^= 1 << 32 }),
	)
	return ops, core
}

// noStuff: documents do not carry alignment stuffing.
func noStuff(m *Sec) *Sec {
	o := cloneM(m)
	o.Stuff = nil
	return o
}

func startStates() []*Sec {
	stuffed := hdr(&CTime{p64(1)}, segBase())
	stuffed.Stuff, stuffed.EncAlg = pat(5), 1
	full := segBase()
	full.UPIDs = []UPID{{0x0A, upidSamples()[9].Raw}, upidText}
	full.SubNum, full.SubExpec = p32(1), p32(2)
	c := insBase()
	c.Comps = []IComp{{Tag: 1, HasST: true, PTS: p64(5)}, {Tag: 2}}
	c.Break = &Brk{true, 90000}
	plain := hdr(c, &DTime{1, 2, 3}, &DAudio{[]AudioCh{{1, "eng", 2, 3, true}}})
	plain.Stuff = pat(3)
	return []*Sec{hdr(&CNull{}), stuffed, hdr(&CTime{p64(5)}, &DAvail{5}, full, &DPriv{7, 8, pat(3)}), plain}
}

type seqCase struct {
	start int
	ops   []int
}

func propSequences(c *Ctx) {
	ops, core := sequenceOps()
	starts := startStates()
	depth := 4
	if c.Thorough {
		depth = 5
	}
	name := func(x seqCase) string {
		s := fmt.Sprintf("start %d", x.start)
		for _, i := range x.ops {
			s += "; " + ops[i].name
		}
		return s
	}
	c.Extra("depth", depth)
	c.Extra("operations", len(ops))
	explore := func(label string, starts []*Sec, depth int, among []int) {
		Explore(c, label, func(y func(seqCase) bool) { sequencesOf(starts, ops, depth, among, y) }, name, func(k *K, x seqCase) { checkSequence(k, starts, ops, x) })
	}
	all := make([]int, len(ops))
	for i := range all {
		all[i] = i
	}
	explore("sequences", starts, depth, all[:core])
	explore("all-operations", starts, depth-1, all)
	// from every kind of section, built or received
	var every []*Sec
	add := func(cs Case) bool {
		every = append(every, cs.M)
		return true
	}
	shapes(1, add)
	for _, cs := range reusePool() {
		add(cs)
	}
	for n := 1; n <= 9; n++ {
		for _, alg := range []uint32{0, 1} {
			for _, cmd := range []Cmd{&CNull{}, &CTime{p64(3)}, &CPriv{Ident: 9, Bytes: pat(20)}} {
				m := hdr(cmd)
				m.Stuff, m.EncAlg = pat(n), alg
				every = append(every, m)
			}
		}
	}
	explore("from-every-section", every, depth-2, all)
	// fewer operations, more of them: the ones that leave state behind
	var few []int
	for i, o := range ops {
		switch o.name {
		case "binary", "binary-in-place", "json-in-place", "read", "toggle-encryption", "append-segmentation", "drop-first", "to-null":
			few = append(few, i)
		}
	}
	explore("long-sequences", starts, depth+2, few)
	everyEdit(c)
}

func sequencesOf(starts []*Sec, ops []sop, depth int, among []int, y func(seqCase) bool) {
	// all sequences of exactly depth operations; prefixes are checked on the way
	for st := range starts {
		var rec func(m *Sec, pre []int) bool
		rec = func(m *Sec, pre []int) bool {
			if len(pre) == depth {
				return y(seqCase{st, append([]int(nil), pre...)})
			}
			for _, i := range among {
				n := ops[i].model(m)
				if n == nil || !representable(n) {
					continue
				}
				if !rec(n, append(pre, i)) {
					return false
				}
			}
			return true
		}
		if !rec(starts[st], nil) {
			return
		}
	}
}

func checkSequence(k *K, starts []*Sec, ops []sop, x seqCase) {
	m := starts[x.start]
	s := implFor(k, m)
	for n, i := range x.ops {
		m = ops[i].model(m)
		s = ops[i].impl(k, s)
		k.T(1)
		if n+1 < len(x.ops) && n+1 < len(x.ops)-1 {
			continue // checked by the sequences that end here
		}
		want := dump(lib(m))
		k.StateS(want)
		k.Validated(1)
		if g := dump(s); g != want {
			k.Fail("after %s the section differs: %s", ops[i].name, diff(g, want))
		}
		b, err := s.Encode()
		k.T(1)
		if w := enc(m.onWire()); err != nil || !bytes.Equal(b, w) {
			k.Fail("after %s the section encodes as %x (%v), want %x", ops[i].name, b, err, w)
		}
	}
}
