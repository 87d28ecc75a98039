package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math/bits"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C09"] = propUPID
	props["C11"] = propTicks
	props["C12"] = propGPS
	props["C13"] = propTransport
	props["C22"] = propNames
}

// ---- C09 ----

func upidLens(t int, y func(int) bool) bool {
	switch t {
	case 0x0A:
		return y(12)
	case 0x08:
		return y(8)
	}
	for n := 0; n <= 64; n++ {
		if t == 0x0C && n < 4 {
			continue
		}
		if !y(n) {
			return false
		}
	}
	for _, n := range []int{100, 127, 128, 200, 235, 236} {
		if !y(n) {
			return false
		}
	}
	return true
}

// upidSpace: every type x length x pattern; every byte value at every position
// of every type for short contents; every EIDR prefix; the UPIDs of upids().
func upidSpace(thorough bool, yield func(UPID) bool) bool {
	ok := true
	y := func(u UPID) bool {
		if ok {
			ok = yield(u)
		}
		return ok
	}
	for t := 0; t < 256; t++ {
		upidLens(t, func(n int) bool {
			for v := 0; v < 4; v++ {
				b := make([]byte, n)
				for i := range b {
					b[i] = []byte{0x00, 0xFF, byte(' ' + i%95), byte(i*37 + 11)}[v]
				}
				if !y(UPID{uint32(t), b}) {
					return false
				}
			}
			return true
		})
		n := 3
		switch t {
		case 0x0A:
			n = 12
		case 0x08:
			n = 8
		case 0x0C:
			n = 7
		}
		for pos := 0; pos < n; pos++ {
			for v := 0; v < 256; v++ {
				for _, fill := range []byte{0x00, 'a', 0xFF} {
					b := bytes.Repeat([]byte{fill}, n)
					b[pos] = byte(v)
					if !y(UPID{uint32(t), b}) {
						return false
					}
				}
			}
		}
	}
	for v := 0; v < 65536; v++ {
		for _, f := range []byte{0, 0x0A, 0x2F, 0xFF} {
			b := bytes.Repeat([]byte{f}, 12)
			b[0], b[1] = byte(v>>8), byte(v)
			if !y(UPID{0x0A, b}) {
				return false
			}
		}
		// every two-byte text, TI low half, MPU private bytes
		hl := []byte{byte(v >> 8), byte(v)}
		if !y(UPID{0x0F, cp(hl)}) || !y(UPID{0x06, cp(hl)}) ||
			!y(UPID{0x08, append(make([]byte, 6), hl...)}) || !y(UPID{0x08, append(cp(hl), 0, 0, 0, 0, 0, 1)}) ||
			!y(UPID{0x0C, append([]byte("ABCD"), hl...)}) || !y(UPID{0x0C, append(cp(hl), 1, 2, 3)}) {
			return false
		}
	}
	// an EIDR whose bytes look like the text of one
	for a := ' '; a < 0x7F; a++ {
		for b := ' '; b < 0x7F; b++ {
			p := []byte("10.5240/ABCD")
			p[3], p[8] = byte(a), byte(b)
			q := []byte("10.5240/ABCD")
			q[7], q[2] = byte(a), byte(b)
			if !y(UPID{0x0A, p}) || !y(UPID{0x0A, q}) {
				return false
			}
		}
	}
	for _, s := range []string{"10.5240/7791", "10.5240/7791-8534-2C23-9030-8610-5", "urn:eidr:10.5240:7791", "10.1/1-2-3-4", "10./--------", "10.5239/C370", "0x0123456789", "//////////./", "............"} {
		for t := 0; t < 17; t++ {
			for n := 1; n <= len(s); n++ {
				if (t == 0x0A && n != 12) || (t == 8 && n != 8) || (t == 0x0C && n < 4) {
					continue
				}
				if !y(UPID{uint32(t), []byte(s[:n])}) {
					return false
				}
			}
		}
	}
	for _, v := range fullVals(64) {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> uint(56-8*i))
		}
		if !y(UPID{0x08, b}) {
			return false
		}
	}
	if thorough {
		for t := range []int{0x01, 0x03, 0x09, 0x10, 0xFF} {
			for v := 0; v < 1<<24; v += 3 {
				if !y(UPID{uint32(t), []byte{byte(v >> 16), byte(v >> 8), byte(v)}}) {
					return false
				}
			}
		}
	}
	return ok
}

func asciiOf(b []byte) string {
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = '.'
		if x >= ' ' && x <= '~' {
			o[i] = x
		}
	}
	return string(o)
}

func checkUPID(k *K, u UPID) {
	k.Input("type %#x bytes %x", u.Type, u.Raw)
	k.State(append([]byte{byte(u.Type)}, u.Raw...))
	raw := cp(u.Raw)
	v := scte35.NewSegmentationUPID(u.Type, raw)
	k.T(1)
	k.Validated(1)
	if !bytes.Equal(raw, u.Raw) {
		k.Fail("the caller's bytes were modified: %x", raw)
	}
	want := upidPresent(u).lib()
	if g, w := dump(v), dump(want); g != w {
		k.Fail("presented differently: %s", diff(g, w))
	}
	if g, w := v.ASCIIValue(), asciiOf(u.Raw); g != w {
		k.Fail("ASCIIValue() = %q, want %q", g, w)
	}
	k.T(1)
	if len(u.Raw) == 0 || len(u.Raw) > 236 {
		return
	}
	if u.Type == 0x0D {
		return
	}
	g := segBase()
	g.UPIDs = []UPID{u}
	m := hdr(&CTime{}, g)
	s := lib(m)
	s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0] = v
	b, err := s.Encode()
	k.T(1)
	if w := enc(m); err != nil || !bytes.Equal(b, w) {
		k.Fail("encodes as %x (%v), want %x", b, err, w)
	}
	if n := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUpidLength(); n != len(u.Raw) {
		k.Fail("SegmentationUpidLength() = %d, want %d", n, len(u.Raw))
	}
}

// spelling is another text for the same UPID bytes.
type spelling struct {
	u UPID
	f upidForm
}

func spellings(y func(spelling) bool) {
	emit := func(u UPID, edit func(string) string) bool {
		f := upidPresent(u)
		f.Value = edit(f.Value)
		return y(spelling{u, f})
	}
	pads := []func(string) string{
		func(s string) string { return " " + s }, func(s string) string { return s + " " },
		func(s string) string { return "\n\t" + s + "\r\n  " },
	}
	for v := 0; v < 65536; v += 5 {
		raw := []byte{byte(v >> 8), byte(v), 0xAB, 0xCD, 0xEF, byte(v), 0x10, 0, 0xFA, 0xCE, byte(v >> 8), 0xFF}
		if !emit(UPID{0x0A, raw}, strings.ToLower) {
			return
		}
		for _, p := range pads {
			if !emit(UPID{0x0A, raw}, p) || !emit(UPID{0x08, raw[:8]}, p) || !emit(UPID{0x0C, raw[:9]}, p) || !emit(UPID{0x06, raw}, p) {
				return
			}
		}
	}
}

func checkSpelling(k *K, x spelling) {
	k.Input("type %#x value %q", x.u.Type, x.f.Value)
	k.StateS(fmt.Sprint(x.f))
	g := segBase()
	g.UPIDs = []UPID{x.u}
	m := hdr(&CTime{}, g)
	s := lib(m)
	s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0] = x.f.lib()
	b, err := s.Encode()
	k.T(1)
	k.Validated(1)
	if w := enc(m); err != nil || !bytes.Equal(b, w) {
		k.Fail("encodes as %x (%v), want %x", b, err, w)
	}
}

func propUPID(c *Ctx) {
	c.Assume("UPIDs of a length their type does not allow (EIDR other than 12 bytes, TI other than 8, MPU shorter than its format identifier) have no specified presentation")
	Explore(c, "conversions", func(y func(UPID) bool) { upidSpace(c.Thorough, y) }, func(u UPID) string { return fmt.Sprintf("%#x %x", u.Type, u.Raw) }, checkUPID)
	Explore(c, "spellings", spellings, func(x spelling) string { return fmt.Sprintf("%#x %q", x.u.Type, x.f.Value) }, checkSpelling)
	ExploreCases(c, "in-sections", func(y yieldFn) bool { return upids(c.Thorough, y) }, func(k *K, cs Case) {
		b := enc(cs.M)
		k.Input("%x", b)
		k.State(b)
		s := decodeOK(k, b)
		sameAs(k, s, cs.M, "UPIDs decoded from a section differ")
		for i, u := range cs.M.Desc[0].(*DSeg).UPIDs {
			v := &s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[i]
			if g, w := v.ASCIIValue(), asciiOf(u.Raw); g != w {
				k.Fail("ASCIIValue() = %q, want %q", g, w)
			}
			if g, w := v.Name(), upidNameOf(u); g != w {
				k.Fail("Name() = %q, want %q", g, w)
			}
		}
		got, err := s.Encode()
		if err != nil || !bytes.Equal(got, b) {
			k.Fail("re-encodes as %x (%v)", got, err)
		}
	})
}

// ---- C11 ----

type span struct{ lo, hi, step uint64 }

func spans(max, step uint64, n int) func(func(span) bool) {
	return func(y func(span) bool) {
		size := (max + uint64(n)) / uint64(n)
		size -= size % step
		if size == 0 {
			size = step
		}
		for lo := uint64(0); lo <= max; lo += size {
			hi := lo + size
			if hi > max+1 {
				hi = max + 1
			}
			if !y(span{lo, hi, step}) {
				return
			}
		}
	}
}

func spanName(s span) string { return fmt.Sprintf("[%d,%d) step %d", s.lo, s.hi, s.step) }

// exactNS is floor(ticks / 90 kHz) in nanoseconds.
func exactNS(t uint64) int64 { return int64(t/9*100000 + t%9*100000/9) }

func checkTick(k *K, t uint64, tol int64, prev *int64) {
	d := int64(scte35.TicksToDuration(t))
	e := exactNS(t)
	if d < e-tol || d > e+tol {
		k.Fail("TicksToDuration(%d) = %dns, want %dns within %dns", t, d, e, tol)
	}
	if d <= *prev {
		k.Fail("TicksToDuration(%d) = %dns is not longer than that of fewer ticks, %dns", t, d, *prev)
	}
	*prev = d
	if b := scte35.DurationToTicks(time.Duration(d)); b != t {
		k.Fail("DurationToTicks(TicksToDuration(%d) = %dns) = %d", t, d, b)
	}
}

func checkTicks(tol int64) func(k *K, s span) {
	return func(k *K, s span) {
		prev := int64(-1)
		if s.lo > 0 {
			prev = int64(scte35.TicksToDuration(s.lo - s.step))
		}
		n := 0
		for t := s.lo; t < s.hi; t += s.step {
			k.input = ""
			checkTick(k, t, tol, &prev)
			n++
		}
		k.c.declaredDistinct.Add(int64(n))
		k.T(2 * n)
		k.Validated(n)
	}
}

// checkDur: a duration is rounded up to whole ticks.
func checkDur(k *K, s span) {
	n := 0
	for t := s.lo; t < s.hi; t += s.step {
		base := exactNS(t)
		for _, d := range []int64{base, base + 1, base + 2, base + 5555, base + 11110} {
			// ceil(d * 9 / 100000)
			hi, lo := bits.Mul64(uint64(d), 9)
			q, r := bits.Div64(hi, lo, 100000)
			if r > 0 {
				q++
			}
			if g := scte35.DurationToTicks(time.Duration(d)); g != q {
				k.Fail("DurationToTicks(%dns) = %d, want %d", d, g, q)
			}
			n++
		}
	}
	k.c.declaredDistinct.Add(int64(n))
	k.T(n)
	k.Validated(n)
}

func checkSectionDuration(k *K, cs Case) {
	t := durTicks(cs.M)
	k.StateS(fmt.Sprint(t))
	k.Input("%s", dump(lib(cs.M)))
	for i := 0; i < 2; i++ {
		s := lib(cs.M)
		m := cs.M
		if i == 1 {
			if !representable(m) {
				return
			}
			m = m.onWire()
			t = durTicks(m)
			s = decodeOK(k, enc(m))
		}
		d := int64(s.Duration())
		k.T(1)
		k.Validated(1)
		if d != int64(scte35.TicksToDuration(t)) || d < exactNS(t)-1 || d > exactNS(t)+1 {
			k.Fail("Duration() = %dns, want that of %d ticks, %dns", d, t, exactNS(t))
		}
	}
}

func durationCases(y yieldFn) bool {
	vals := []*uint64{nil, p64(0), p64(1), p64(90000), p64(1<<33 - 1), p64(2702700)}
	mk := func(a, b, c *uint64, brk *uint64, cmd int) *Sec {
		var x Cmd = &CTime{}
		switch cmd {
		case 1:
			i := insBase()
			i.Prog = &ProgT{}
			if brk != nil {
				i.Break = &Brk{true, *brk}
			}
			x = i
		case 4:
			i := insBase()
			i.Comps, i.Imm = []IComp{{Tag: 1}}, true
			if brk != nil {
				i.Break = &Brk{false, *brk}
			}
			x = i
		case 2:
			x = &CNull{}
		case 3:
			e := evBase(1)
			e.Prog = p32(1)
			if brk != nil {
				e.Break = &Brk{true, *brk}
			}
			x = &CSched{[]SEvent{e}}
		}
		m := hdr(x)
		for i, p := range []*uint64{a, b, c} {
			if i == 1 {
				m.Desc = append(m.Desc, &DAvail{1})
			}
			g := segBase()
			g.Dur = p
			m.Desc = append(m.Desc, g)
		}
		return m
	}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				for _, brk := range vals {
					for cmd := 0; cmd < 5; cmd++ {
						if !y(Case{"durations", mk(a, b, c, brk, cmd)}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func propTicks(c *Ctx) {
	Explore(c, "every-33-bit-tick-count", spans(1<<33-1, 1, 4096), spanName, checkTicks(1))
	st := uint64(1009)
	if c.Thorough {
		st = 13
	}
	st40 := uint64(99991)
	if c.Thorough {
		st40 = 127
	}
	Explore(c, "40-bit-tick-counts", spans(1<<40-1, st40, 1024), spanName, checkTicks(1))
	Explore(c, "durations", spans(1<<33-1, st, 1024), spanName, checkDur)
	ExploreCases(c, "sections", func(y yieldFn) bool {
		return durationCases(y) && universe(c.deep(), y)
	}, checkSectionDuration)
}

// ---- C12 ----

// zones are time zones an instant may be expressed in.
var zones = []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -11*3600), time.FixedZone("x", -5*3600-1800), time.FixedZone("quarter", 8*3600+2700),
	time.FixedZone("seconds", 5*3600+53*60+28), time.FixedZone("", -1), time.FixedZone("", 59), time.FixedZone("", -44*60-30), time.FixedZone("far", 23*3600+59*60+59), time.FixedZone("beyond", -30*3600-1), time.FixedZone("Z", 3600), time.Local}

func checkGPSSpan(k *K, s span) {
	prev := int64(-1 << 62)
	n := 0
	for v := s.lo; v < s.hi; v += s.step {
		u := scte35.NewUTCSpliceTime(uint32(v))
		if g := u.Unix(); g != int64(v)+gpsEpoch || g <= prev || u.Nanosecond() != 0 {
			k.Fail("NewUTCSpliceTime(%d) is Unix time %d, want %d", v, g, int64(v)+gpsEpoch)
		} else {
			prev = g
		}
		if g := u.GPSSeconds(); g != uint32(v) {
			k.Fail("NewUTCSpliceTime(%d).GPSSeconds() = %d", v, g)
		}
		if v&0x3F == 0 {
			for _, ns := range []time.Duration{0, 1, 499999999, 500000000, 999999999} {
				w := scte35.UTCSpliceTime{Time: u.In(zones[(v>>6+uint64(ns))%uint64(len(zones))]).Add(ns)}
				if g := w.GPSSeconds(); g != uint32(v) {
					k.Fail("GPSSeconds() of %v = %d, want %d", w, g, v)
				}
			}
		}
		n++
	}
	k.c.declaredDistinct.Add(int64(n))
	k.T(2 * n)
	k.Validated(n)
}

// tableTimes are the instants, in Unix time, of the utc_splice_time rows of a
// table; -1 for one that is not a time in UTC.
func tableTimes(table string) []int64 {
	var out []int64
	for _, row := range strings.Split(table, "\n") {
		key, val, _ := strings.Cut(strings.TrimSpace(row), ":")
		if key != "utc_splice_time" {
			continue
		}
		v := int64(-1)
		for _, l := range tableTimeLayouts {
			if t, err := time.Parse(l, strings.TrimSpace(val)); err == nil {
				if _, off := t.Zone(); off == 0 {
					v = t.Unix()
				}
			}
		}
		out = append(out, v)
	}
	return out
}

// sameInstants: the events of a and b are at the same instants, to the second.
func sameInstants(a, b *scte35.SpliceInfoSection) bool {
	x, y := a.SpliceCommand.(*scte35.SpliceSchedule).Events, b.SpliceCommand.(*scte35.SpliceSchedule).Events
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if len(x[i].Components) != len(y[i].Components) || (x[i].Program == nil) != (y[i].Program == nil) {
			return false
		}
		if p := x[i].Program; p != nil && p.UTCSpliceTime.Unix() != y[i].Program.UTCSpliceTime.Unix() {
			return false
		}
		for j := range x[i].Components {
			if x[i].Components[j].UTCSpliceTime.Unix() != y[i].Components[j].UTCSpliceTime.Unix() {
				return false
			}
		}
	}
	return true
}

func checkGPSSection(k *K, v uint64) {
	e := evBase(1)
	e.Prog = p32(uint32(v))
	f := evBase(2)
	f.Comps = []SComp{{1, uint32(v)}, {2, ^uint32(v)}}
	m := hdr(&CSched{[]SEvent{e, f}})
	want := enc(m)
	k.State(want)
	k.Input("%x", want)
	s := decodeOK(k, want)
	ev := s.SpliceCommand.(*scte35.SpliceSchedule).Events
	if g := ev[0].Program.UTCSpliceTime.Unix(); g != int64(uint32(v))+gpsEpoch {
		k.Fail("program utc_splice_time %d decodes as Unix time %d", v, g)
	}
	if g := ev[1].Components[0].UTCSpliceTime.Unix(); g != int64(uint32(v))+gpsEpoch {
		k.Fail("component utc_splice_time %d decodes as Unix time %d", v, g)
	}
	plain := dump(s)
	at := [3]time.Time{ev[0].Program.UTCSpliceTime.Time, ev[1].Components[0].UTCSpliceTime.Time, ev[1].Components[1].UTCSpliceTime.Time}
	fractions := []time.Duration{0, 1, 499999999, 500000000, 999999999}
	for i := 0; i <= len(zones)*len(fractions); i++ {
		if i > 0 {
			zone, ns := zones[(i-1)%len(zones)], fractions[(i-1)/len(zones)]
			ev[0].Program.UTCSpliceTime.Time = at[0].In(zone).Add(ns)
			ev[1].Components[0].UTCSpliceTime.Time = at[1].In(zone).Add(ns)
			ev[1].Components[1].UTCSpliceTime.Time = at[2].In(zone).Add(ns)
		}
		if b, err := s.Encode(); err != nil || !bytes.Equal(b, want) {
			k.Fail("encodes as %x (%v) in zone %d", b, err, i)
		}
		if g, w := tableTimes(s.Table("", "\t")), fmt.Sprint([]int64{int64(uint32(v)) + gpsEpoch, int64(uint32(v)) + gpsEpoch, int64(^uint32(v)) + gpsEpoch}); fmt.Sprint(g) != w {
			k.Fail("the table in zone %d shows the times %v, want %s: %s", i, g, w, s.Table("", "\t"))
		}
		d, e := fromJSON(k, toJSON(k, s)), fromXML(k, toXML(k, s, false))
		if i <= len(zones) && dump(d) != plain || !sameInstants(d, s) {
			k.Fail("JSON in zone %d: %s", i, diff(dump(d), dump(s)))
		}
		if i <= len(zones) && dump(e) != plain || !sameInstants(e, s) {
			k.Fail("XML in zone %d: %s", i, diff(dump(e), dump(s)))
		}
		for _, x := range []*scte35.SpliceInfoSection{d, e} {
			if b, err := x.Encode(); err != nil || !bytes.Equal(b, want) {
				k.Fail("read back in zone %d, encodes as %x (%v)", i, b, err)
			}
		}
		k.T(7)
		k.Validated(3)
	}
}

func propGPS(c *Ctx) {
	c.Assume("GPS and UTC are related by the fixed offset between the epochs, as ANSI/SCTE 35 defines utc_splice_time (no leap seconds)")
	Explore(c, "every-32-bit-second", spans(1<<32-1, 1, 4096), spanName, checkGPSSpan)
	Explore(c, "in-sections", func(y func(uint64) bool) {
		for _, v := range fullVals(32) {
			if !y(v) {
				return
			}
		}
	}, func(v uint64) string { return fmt.Sprint(v) }, checkGPSSection)
	exploreDates(c, true)
}

// ---- C13 ----

type strCase struct{ s string }

func (x strCase) String() string { return fmt.Sprintf("%q", x.s) }

// refBase64 is strict RFC 4648 base64 with padding.
func refBase64(s string) ([]byte, bool) {
	if len(s)%4 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(s); i += 4 {
		q := s[i : i+4]
		pad := 0
		if i+4 == len(s) {
			for pad < 2 && q[3-pad] == '=' {
				pad++
			}
		}
		var v uint32
		for j := 0; j < 4-pad; j++ {
			c := q[j]
			var x uint32
			switch {
			case c >= 'A' && c <= 'Z':
				x = uint32(c - 'A')
			case c >= 'a' && c <= 'z':
				x = uint32(c-'a') + 26
			case c >= '0' && c <= '9':
				x = uint32(c-'0') + 52
			case c == '+':
				x = 62
			case c == '/':
				x = 63
			default:
				return nil, false
			}
			v |= x << uint(18-6*j)
		}
		out = append(out, []byte{byte(v >> 16), byte(v >> 8), byte(v)}[:3-pad]...)
	}
	return out, true
}

func refHex(s string) ([]byte, bool) {
	s = strings.TrimPrefix(s, "0x")
	if len(s)%2 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(s); i += 2 {
		var v byte
		for j := 0; j < 2; j++ {
			c := s[i+j]
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | (c - '0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | (c - 'a' + 10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | (c - 'A' + 10)
			default:
				return nil, false
			}
		}
		out = append(out, v)
	}
	return out, true
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

func checkString(k *K, x strCase) {
	k.StateS(x.s)
	k.Input("%q", x.s)
	one := func(what string, dec func(string) (*scte35.SpliceInfoSection, error), ref func(string) ([]byte, bool)) {
		s, err := dec(x.s)
		k.T(1)
		k.Validated(1)
		if s == nil {
			k.Fail("%s(%q) returned no section", what, x.s)
		}
		b, ok := ref(x.s)
		if !ok {
			if !errors.Is(err, scte35.ErrUnsupportedEncoding) {
				k.Fail("%s(%q) of a string which is not %s: error %v", what, x.s, what, err)
			}
			if d := dump(s); d != dump(&scte35.SpliceInfoSection{}) {
				k.Fail("%s(%q) of a string which is not %s returned content: %s", what, x.s, what, d)
			}
			return
		}
		t := &scte35.SpliceInfoSection{}
		terr := t.Decode(b)
		if errText(err) != errText(terr) || dump(s) != dump(t) {
			k.Fail("%s(%q): %v, %s; decoding the bytes: %v, %s", what, x.s, err, dump(s), terr, dump(t))
		}
	}
	if !strings.ContainsAny(x.s, "\r\n") { // line breaks in base64 are tolerated
		one("DecodeBase64", scte35.DecodeBase64, refBase64)
	}
	one("DecodeHex", scte35.DecodeHex, refHex)
}

func textStrings(thorough bool, y func(strCase) bool) {
	// every string of at most 2 bytes
	if !y(strCase{""}) {
		return
	}
	for a := 0; a < 256; a++ {
		if !y(strCase{string([]byte{byte(a)})}) {
			return
		}
	}
	for a := 0; a < 65536; a++ {
		if !y(strCase{string([]byte{byte(a >> 8), byte(a)})}) {
			return
		}
	}
	// every string of 3 to 6 characters over an alphabet of the separating ones
	alpha := "0xX/+=-_ fGz"
	max := 5
	if thorough {
		max = 6
	}
	for n := 3; n <= max; n++ {
		idx := make([]int, n)
		b := make([]byte, n)
		for {
			for i := range idx {
				b[i] = alpha[idx[i]]
			}
			if !y(strCase{string(b)}) || !y(strCase{"0x" + string(b)}) {
				return
			}
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
	// a sound section with any one character replaced, removed, or doubled
	m := hdr(&CTime{p64(0x123456789)}, segBase())
	for n := 0; n < 3; n++ { // each padding
		if n > 0 {
			m.Desc = append(m.Desc, &DPriv{1, 2, pat(n)})
		}
		raw := enc(m)
		for _, s := range []string{base64.StdEncoding.EncodeToString(raw), hex.EncodeToString(raw), "0x" + hex.EncodeToString(raw), strings.ToUpper(hex.EncodeToString(raw))} {
			for i := 0; i < len(s); i++ {
				for c := 0; c < 256; c++ {
					if !y(strCase{s[:i] + string([]byte{byte(c)}) + s[i+1:]}) {
						return
					}
				}
				if !y(strCase{s[:i] + s[i+1:]}) || !y(strCase{s[:i] + s[i:i+1] + s[i:]}) || !y(strCase{s[:i]}) || !y(strCase{s[i:]}) {
					return
				}
			}
			for _, u := range []string{"\u200b", "\ufeff", "\u00a0", "\u2028", "\u00ad", "\uff10", "\u0660", "\u0430", "\u2013", "\u200d\u200c", "\xC0\x80", "\r\t", "\v", "\f", "\x1b[0m", "%20", "&#10;", "\\n"} {
				for _, at := range []int{0, 1, 2, len(s) / 2, len(s)/2 + 1, len(s) - 2, len(s)} {
					if !y(strCase{s[:at] + u + s[at:]}) {
						return
					}
				}
			}
			for _, t := range []string{" " + s, s + " ", s + "=", s + "==", "0X" + s, "0x" + s, "x" + s, s + "\x00", base64.URLEncoding.EncodeToString(raw), base64.RawStdEncoding.EncodeToString(raw)} {
				if !y(strCase{t}) {
					return
				}
			}
		}
	}
}

// longMalformed: texts of sections of every length which are nearly base64 or
// hexadecimal.
func longMalformed(thorough bool, y func(strCase) bool) {
	st := 23
	if thorough {
		st = 1
	}
	for n := 0; n <= 4060; n += st {
		raw := enc(hdr(&CPriv{Ident: 0xFBFFBFEF, Bytes: pat(n)}))
		s, h := stdB64(raw), hex.EncodeToString(raw)
		bare := strings.TrimRight(s, "=")
		url := strings.NewReplacer("+", "-", "/", "_")
		l := []string{url.Replace(s), url.Replace(bare), bare, bare + "=", bare + "==", bare + "===", s + "=", s + "A", s + "AAAA", s + s, s + "\x00", s + " ", " " + s, "=" + s, s[1:], "\"" + s + "\"", "base64:" + s, "0x" + s,
			strings.Replace(s, "+", " ", -1), strings.Replace(s, "/", ",", -1), strings.Replace(s, "+", "%2B", -1), strings.Replace(s, "+", "-", 1), strings.Replace(s, "/", "_", 1),
			h[1:], h + "0", "0X" + h, "x" + h, "0x0x" + h, h + "h", h + " ", " " + h, "0x " + h, "#" + h, "\\x" + h}
		for _, at := range []int{1, len(s) / 3, len(s) / 2, len(s) - 5} {
			for _, t := range []string{" ", "=", "-", "_", "\t", "\x00", ".", "é", "=="} {
				l = append(l, s[:at]+t+s[at:], s[:at]+t+s[at+1:])
			}
		}
		for _, at := range []int{1, len(h) / 3, len(h) / 2 &^ 1, len(h) - 3} {
			for _, t := range []string{" ", ":", "-", "_", "0x", "g", "G", "\x00", "\n", "é", "  "} {
				l = append(l, h[:at]+t+h[at:], h[:at]+t+h[at+1:])
			}
		}
		for _, x := range l {
			if !y(strCase{x}) {
				return
			}
		}
	}
}

// mixed alternates the case of hexadecimal digits.
func mixed(s string) string {
	b := []byte(s)
	for i := range b {
		if i%3 == 0 && b[i] >= 'a' && b[i] <= 'f' {
			b[i] -= 32
		}
	}
	return string(b)
}

func stdB64(b []byte) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var sb strings.Builder
	for i := 0; i < len(b); i += 3 {
		var v uint32
		n := 0
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= uint32(b[i+j])
				n++
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				sb.WriteByte(a[v>>uint(18-6*j)&63])
			} else {
				sb.WriteByte('=')
			}
		}
	}
	return sb.String()
}

func checkTransportBytes(k *K, b []byte) {
	k.Input("%x", b)
	t := &scte35.SpliceInfoSection{}
	terr := t.Decode(b)
	want := errText(terr) + " " + dump(t)
	hx := hex.EncodeToString(b)
	for i, f := range []func() (*scte35.SpliceInfoSection, error){
		func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeBase64(stdB64(b)) },
		func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex(hx) },
		func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex("0x" + hx) },
		func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex(strings.ToUpper(hx)) },
		func() (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex("0x" + mixed(hx)) },
	} {
		s, err := f()
		k.T(1)
		k.Validated(1)
		if s == nil {
			k.Fail("transport %d returned no section", i)
		}
		if g := errText(err) + " " + dump(s); g != want {
			k.Fail("transport %d decodes differently from the bytes: %s", i, diff(g, want))
		}
	}
}

func checkTransportSection(k *K, cs Case) {
	b := enc(cs.M)
	k.State(b)
	checkTransportBytes(k, b)
	s := implFor(k, cs.M)
	if g, w := s.Base64(), stdB64(b); g != w {
		k.Fail("Base64() = %q, want %q", g, w)
	}
	if g, w := s.Hex(), hex.EncodeToString(b); !strings.EqualFold(g, w) {
		k.Fail("Hex() = %q, want %q", g, w)
	}
	k.T(2)
}

func propTransport(c *Ctx) {
	c.Assume("carriage returns and line feeds inside base64 text are tolerated and not judged")
	ExploreCases(c, "sections", func(y yieldFn) bool { return universe(c.deep(), y) }, checkTransportSection)
	Explore(c, "strings", func(y func(strCase) bool) { textStrings(c.Thorough, y) }, strCase.String, checkString)
	Explore(c, "long-malformed", func(y func(strCase) bool) { longMalformed(c.Thorough, y) }, strCase.String, checkString)
	Explore(c, "malformed-bytes", func(y func(rawCase) bool) { _ = shortStrings(y) && cuts(mutBases, y) }, rawCase.String, func(k *K, r rawCase) {
		k.State(r.b)
		checkTransportBytes(k, r.b)
	})
}

// ---- C22 ----

func checkNames(k *K, cs Case) {
	m := cs.M
	k.Input("%s", dump(lib(m)))
	k.StateS(dump(lib(m)))
	checkAccessors(k, lib(m), m, "built")
	if representable(m) {
		w := m.onWire()
		checkAccessors(k, decodeOK(k, enc(m)), w, "decoded")
	}
}

func eq[T comparable](k *K, where, what string, got, want T) {
	k.tr++
	if got != want {
		k.Fail("%s section: %s = %v, want %v", where, what, got, want)
	}
}

func checkAccessors(k *K, s *scte35.SpliceInfoSection, m *Sec, where string) {
	k.Validated(1)
	eq(k, where, "SAPTypeName()", s.SAPTypeName(), sapName(m.SAP))
	eq(k, where, "EncryptedPacketFlag()", s.EncryptedPacketFlag(), m.EncAlg != 0)
	if m.Cmd != nil {
		want := m.Cmd.wireType()
		if _, ok := m.Cmd.(*CPriv); ok {
			want = 0xFF
		}
		eq(k, where, "splice command Type()", s.SpliceCommand.Type(), want)
	}
	switch c := m.Cmd.(type) {
	case *CTime:
		x := s.SpliceCommand.(*scte35.TimeSignal)
		eq(k, where, "SpliceTime.TimeSpecifiedFlag()", x.SpliceTime.TimeSpecifiedFlag(), c.PTS != nil)
	case *CPriv:
		eq(k, where, "IdentifierString()", s.SpliceCommand.(*scte35.PrivateCommand).IdentifierString(), fourCC(c.Ident))
	case *CInsert:
		x := s.SpliceCommand.(*scte35.SpliceInsert)
		eq(k, where, "DurationFlag()", x.DurationFlag(), c.Break != nil)
		eq(k, where, "ProgramSpliceFlag()", x.ProgramSpliceFlag(), c.Prog != nil)
		eq(k, where, "TimeSpecifiedFlag()", x.TimeSpecifiedFlag(), c.Prog != nil && c.Prog.PTS != nil)
		if c.Prog != nil {
			eq(k, where, "Program.TimeSpecifiedFlag()", x.Program.TimeSpecifiedFlag(), c.Prog.PTS != nil)
		}
		for i, y := range c.Comps {
			eq(k, where, "Component.TimeSpecifiedFlag()", x.Components[i].TimeSpecifiedFlag(), y.PTS != nil)
		}
	case *CSched:
		x := s.SpliceCommand.(*scte35.SpliceSchedule)
		for i, e := range c.Events {
			eq(k, where, "Event.DurationFlag()", x.Events[i].DurationFlag(), e.Break != nil)
			eq(k, where, "Event.ProgramSpliceFlag()", x.Events[i].ProgramSpliceFlag(), e.Prog != nil)
		}
	}
	for i, d := range m.Desc {
		sd := s.SpliceDescriptors[i]
		eq(k, where, "Tag()", sd.Tag(), d.wireTag())
		switch d := d.(type) {
		case *DPriv:
			eq(k, where, "IdentifierString()", sd.(*scte35.PrivateDescriptor).IdentifierString(), fourCC(d.Ident))
		case *DSeg:
			x := sd.(*scte35.SegmentationDescriptor)
			eq(k, where, "segmentation Name()", x.Name(), segName(d.TypeID))
			eq(k, where, "DeliveryNotRestrictedFlag()", x.DeliveryNotRestrictedFlag(), d.Restr == nil)
			eq(k, where, "ProgramSegmentationFlag()", x.ProgramSegmentationFlag(), len(d.Comps) == 0)
			eq(k, where, "SegmentationDurationFlag()", x.SegmentationDurationFlag(), d.Dur != nil)
			n := 0
			for j, u := range d.UPIDs {
				n += len(u.Raw)
				if len(d.UPIDs) > 1 {
					n += 2
				}
				eq(k, where, "UPID Name()", x.SegmentationUPIDs[j].Name(), upidNameOf(u))
				if upidWellFormed(u) {
					eq(k, where, "ASCIIValue()", x.SegmentationUPIDs[j].ASCIIValue(), asciiOf(u.Raw))
				}
			}
			eq(k, where, "SegmentationUpidLength()", x.SegmentationUpidLength(), n)
		}
	}
}

func constructors(y func(uint64) bool) {
	for v := uint64(0); v < 1<<16; v++ {
		if !y(v) {
			return
		}
	}
	for _, v := range fullVals(32) {
		for t := uint64(0); t < 8; t++ {
			if !y(v<<8 | t) {
				return
			}
		}
	}
}

// checkConstructor: v is identifier<<8 | type or tag.
func checkConstructor(k *K, v uint64) {
	t := uint32(v & 0xFF)
	k.StateS(fmt.Sprint(v))
	typeName := func(x any) string { return strings.TrimPrefix(fmt.Sprintf("%T", x), "*scte35.") }
	cmds := map[uint32]string{0: "SpliceNull", 4: "SpliceSchedule", 5: "SpliceInsert", 6: "TimeSignal", 7: "BandwidthReservation"}
	descs := []string{"AvailDescriptor", "DTMFDescriptor", "SegmentationDescriptor", "TimeDescriptor", "AudioDescriptor"}
	want, ok := cmds[t]
	if !ok {
		want = "PrivateCommand"
	}
	eq(k, "new", fmt.Sprintf("NewSpliceCommand(%#x)", t), typeName(scte35.NewSpliceCommand(t)), want)
	for i := 8; i < 32; i++ { // no type or tag of the tables is this large
		wide := t | 1<<uint(i)
		eq(k, "new", fmt.Sprintf("NewSpliceCommand(%#x)", wide), typeName(scte35.NewSpliceCommand(wide)), "PrivateCommand")
		eq(k, "new", fmt.Sprintf("NewSpliceDescriptor(CUEI,%#x)", wide), typeName(scte35.NewSpliceDescriptor(cuei, wide)), "PrivateDescriptor")
	}
	for _, id := range []uint32{cuei, uint32(v >> 8)} {
		want := "PrivateDescriptor"
		if id == cuei && t < 5 {
			want = descs[t]
		}
		d := scte35.NewSpliceDescriptor(id, t)
		eq(k, "new", fmt.Sprintf("NewSpliceDescriptor(%#x,%#x)", id, t), typeName(d), want)
		if p, ok := d.(*scte35.PrivateDescriptor); ok {
			eq(k, "new", "Identifier", p.Identifier, id)
		} else {
			eq(k, "new", "Tag()", d.Tag(), t)
		}
	}
	x := v * 0x2040813 & (1<<33 - 1)
	ts := scte35.NewTimeSignal(x)
	eq(k, "new", "NewTimeSignal", dump(ts), dump(&scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: &x}}))
	ip := scte35.NewSpliceInsertProgram(x)
	eq(k, "new", "NewSpliceInsertProgram", dump(ip), dump(&scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: &x}}))
	k.Validated(4)
}

func propNames(c *Ctx) {
	c.Assume("names are those of ANSI/SCTE 35 2022b tables 22 and 23 as the library words them")
	ExploreCases(c, "sections", func(y yieldFn) bool { return universe(c.deep(), y) }, checkNames)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantAccessors)
	Explore(c, "upid-names", func(y func(uint64) bool) {
		for t := uint64(0); t < 256; t++ {
			if !y(t << 16) {
				return
			}
		}
		for v := uint64(0); v < 65536; v++ {
			if !y(0x0A<<16 | v) {
				return
			}
		}
	}, func(v uint64) string { return fmt.Sprintf("type %#x eidr prefix %d", v>>16, v&0xFFFF) }, func(k *K, v uint64) {
		k.StateS(fmt.Sprint(v))
		t := uint32(v >> 16)
		u := scte35.SegmentationUPID{Type: t, Format: "text", Value: fmt.Sprintf("10.%d/0000-0000-0000-0000-0000", v&0xFFFF)}
		k.T(1)
		k.Validated(1)
		if g, w := u.Name(), upidName(t, int(v&0xFFFF)); g != w {
			k.Fail("Name() = %q, want %q", g, w)
		}
	})
	Explore(c, "other-eidr-prefixes", func(y func(string) bool) {
		for _, n := range []string{"5237", "5238", "5239", "5240"} {
			for _, p := range []string{"1." + n, "0." + n, "11." + n, "110." + n, "100." + n, "20." + n, "10.1" + n, "10." + n + "0", "10." + n + "." + n, "x10." + n, n} {
				if !y(p) {
					return
				}
			}
			// every text one character away
			for i := 0; i <= 7; i++ {
				w := "10." + n
				if i < 7 && !y(w[:i]+w[i+1:]) {
					return
				}
				for r := '!'; r < 0x7F; r++ {
					if r == '/' {
						continue
					}
					if !y(w[:i] + string(r) + w[i:]) {
						return
					}
					if i < 7 && !eidrPrefixes[w[:i]+string(r)+w[i+1:]] && !y(w[:i]+string(r)+w[i+1:]) {
						return
					}
				}
			}
		}
	}, func(p string) string { return p }, func(k *K, p string) {
		k.StateS(p)
		u := scte35.SegmentationUPID{Type: 0x0A, Format: "text", Value: p + "/0000-0000-0000-0000-0000"}
		k.T(1)
		k.Validated(1)
		if g, w := u.Name(), "EIDR: "; strings.TrimRight(g, " :") != strings.TrimRight(w, " :") {
			k.Fail("Name() of %s = %q, want %q", u.Value, g, w)
		}
	})
	Explore(c, "segmentation-names", func(y func(uint32) bool) {
		for t := uint32(0); t < 1<<16; t++ {
			if !y(t) {
				return
			}
		}
	}, func(t uint32) string { return fmt.Sprintf("segmentation_type_id %#x", t) }, func(k *K, t uint32) {
		k.StateS(fmt.Sprint("t", t))
		d := scte35.SegmentationDescriptor{SegmentationTypeID: t}
		k.T(1)
		k.Validated(1)
		if g, w := d.Name(), segName(t); g != w {
			k.Fail("Name() = %q, want %q", g, w)
		}
	})
	Explore(c, "constructors", constructors, func(v uint64) string { return fmt.Sprintf("%#x", v) }, checkConstructor)
}

// ---- ways of writing an instant ----

// instants: second counts at which forms of date and time differ.
func instants() []uint64 {
	vs := fullVals(32)
	for _, day := range []uint64{0, 1, 30, 54, 55, 360, 1516, 7300, 16071, 20000, 49709} { // ends of months and years, leap days
		for _, sec := range []uint64{0, 1, 59, 60, 3600, 43200, 86340, 86399} {
			vs = append(vs, day*86400+sec)
		}
	}
	return vs
}

// dateForms gives the xsd:dateTime texts of a second count; those that RFC
// 3339 has too come with true.
func dateForms(v uint64, y func(text string, rfc bool)) {
	t := time.Unix(int64(v)+gpsEpoch, 0).UTC()
	const layout = "2006-01-02T15:04:05"
	fractions := []string{"", ".0", ".000", ".000000000"}
	for m := -14 * 60; m <= 14*60; m += 15 {
		l := t.Add(time.Duration(m) * time.Minute)
		off := fmt.Sprintf("%c%02d:%02d", "+-"[b2i(m < 0)], abs(m)/60, abs(m)%60)
		for _, f := range fractions {
			y(l.Format(layout)+f+off, true)
			if m == 0 {
				y(l.Format(layout)+f+"-00:00", true)
				y(l.Format(layout)+f+"Z", true)
				y(l.Format(layout)+f, false)
				y("\n "+l.Format(layout)+f+"\t", false)
				y("\n "+l.Format(layout)+f+"Z\t", false)
			}
			if l.Hour() == 0 && l.Minute() == 0 && l.Second() == 0 {
				d := l.AddDate(0, 0, -1).Format("2006-01-02") + "T24:00:00" + f
				y(d+off, false)
				if m == 0 {
					y(d+"Z", false)
					y(d, false)
				}
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func checkDateForms(asJSON bool) func(*K, uint64) {
	return func(k *K, v uint64) {
		e, f := evBase(1), evBase(2)
		e.Prog = p32(uint32(v))
		f.Comps = []SComp{{1, uint32(v)}}
		m := hdr(&CSched{[]SEvent{e, f}})
		want := enc(m)
		k.State(want)
		plain := time.Unix(int64(v)+gpsEpoch, 0).UTC().Format(time.RFC3339)
		x, j := xstyle{}.render(xdoc(m)), jstyle{}.render(jdoc(m))
		dateForms(v, func(text string, rfc bool) {
			try := func(doc string, read func([]byte, any) error) {
				k.Input("%s", doc)
				s := &scte35.SpliceInfoSection{}
				k.T(2)
				k.Validated(1)
				if err := read([]byte(doc), s); err != nil {
					k.Fail("utcSpliceTime %q is rejected: %v", text, err)
				}
				b, err := s.Encode()
				if err != nil || !bytes.Equal(b, want) {
					k.Fail("utcSpliceTime %q encodes as %x (%v), want %x", text, b, err, want)
				}
			}
			try(strings.ReplaceAll(x, `"`+plain+`"`, `"`+strings.ReplaceAll(strings.ReplaceAll(text, "\n", "&#10;"), "\t", "&#9;")+`"`), xml.Unmarshal)
			if asJSON && rfc {
				try(strings.ReplaceAll(j, `"`+plain+`"`, `"`+text+`"`), json.Unmarshal)
			}
		})
	}
}

func exploreDates(c *Ctx, asJSON bool) {
	Explore(c, "ways-of-writing", func(y func(uint64) bool) {
		for _, v := range instants() {
			if !y(v) {
				return
			}
		}
	}, func(v uint64) string { return fmt.Sprint(v) }, checkDateForms(asJSON))
}

var eidrPrefixes = map[string]bool{"10.5237": true, "10.5238": true, "10.5239": true, "10.5240": true}
