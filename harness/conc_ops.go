package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// A concurrent operation: mk prepares values of its own (nothing shared with
// any other execution but read-only input), the function it returns is what
// one thread does, and gives what the thread observes.
type cop struct {
	op, sec int
	name    string
	mk      func() func() string
}

// concSections are the sections the threads work on. The two variants of one
// section differ in every value, so that mixed-up results show.
func concSections() [][2]*Sec {
	seg := func(v uint32) *DSeg {
		g := segBase()
		g.ID, g.Num = 100+v, 1+v
		g.Dur = p64(uint64(90000 + v))
		g.UPIDs = []UPID{{0x09, []byte("SIGNAL:abc" + strings.Repeat("x", int(v)))}}
		return g
	}
	full := func(v uint32) *DSeg {
		g := seg(v)
		g.Restr = &Restr{Archive: v == 0, Web: v == 1, Device: 1 + v}
		g.Comps = []GComp{{1 + v, 2}, {3, uint64(4 + v)}}
		g.UPIDs = append(g.UPIDs, UPID{0x0C, []byte("DISCxy" + string(rune('a'+v)))}, UPID{0x08, []byte{1, 2, 3, 4, 5, 6, 7, byte(v)}},
			UPID{0x0A, append([]byte{0x14, 0x78}, pat(10)[v:v+9]...)[:11]}, UPID{0x06, []byte("ISANISANISA" + string(rune('a'+v)))})
		e := upidSamples()[9]
		e.Raw = append(cp(e.Raw[:11]), byte(v))
		g.UPIDs[3] = e
		g.SubNum, g.SubExpec = p32(1+v), p32(4)
		return g
	}
	insert := func(v uint32) *CInsert {
		c := insBase()
		c.ID += v
		c.Prog = &ProgT{p64(uint64(1000 + v))}
		c.Break = &Brk{v == 0, uint64(900000 + v)}
		return c
	}
	sched := func(v uint32) *CSched {
		e, f := evBase(10+v), evBase(20+v)
		e.Prog = p32(1000 + v)
		f.Comps = []SComp{{1 + v, 2}, {3, 4 + v}}
		f.Break = &Brk{v == 1, uint64(70 + v)}
		return &CSched{[]SEvent{e, f}}
	}
	mk := func(f func(v uint32) *Sec) [2]*Sec {
		a, b := f(0), f(1)
		b.SAP, b.Tier, b.PTSAdj, b.CW = a.SAP^1, a.Tier^0x5A5, a.PTSAdj^0x155, a.CW^0x3C
		return [2]*Sec{a, b}
	}
	return [][2]*Sec{
		mk(func(v uint32) *Sec { return hdr(&CTime{p64(uint64(77 + v))}, seg(v)) }),
		mk(func(v uint32) *Sec { return hdr(&CNull{}, &DAvail{5 + v}) }),
		mk(func(v uint32) *Sec { return hdr(insert(v), &DAvail{9 + v}) }),
		mk(func(v uint32) *Sec { return hdr(sched(v)) }),
		mk(func(v uint32) *Sec { return hdr(&CTime{p64(uint64(5 + v))}, full(v)) }),
		mk(func(v uint32) *Sec {
			return hdr(&CPriv{Ident: 7 + v, Bytes: pat(int(9 + v))}, &DPriv{9, 10 + v, pat(int(5 + v))}, &DDTMF{9 + v, "12" + strconv.Itoa(int(v))})
		}),
		mk(func(v uint32) *Sec {
			m := hdr(&CBW{}, &DTime{1 + uint64(v), 2, 3}, &DAudio{[]AudioCh{{1 + v, []string{"eng", "fra"}[v], 5, 9, true}}})
			m.EncAlg = 1 + v
			return m
		}),
		// the same parts in opposite orders: what one thread ends with the
		// other one begins with
		{turned(0), turned(1)},
	}
}

// turned has three of each thing, in one order or the other.
func turned(v int) *Sec {
	var l []Desc
	for i, p := range []byte{0x75, 0x77, 0x78} {
		g := segBase()
		g.ID, g.TypeID = uint32(i), []uint32{0x30, 0x34, 0x10}[i]
		if i > 0 {
			g.Restr = &Restr{Device: uint32(i)}
		}
		g.UPIDs = []UPID{{0x0A, append([]byte{0x14, p}, pat(10)...)}}
		l = append(l, g)
	}
	if v == 1 {
		l[0], l[2] = l[2], l[0]
	}
	return hdr(&CTime{}, l...)
}

var concOpNames = []string{"decode-base64", "decode-hex", "decode-shared", "encode", "base64", "table", "to-json", "to-xml", "from-json", "from-xml",
	"accessors", "edit", "decode-bad", "encode-bad", "constructors", "conversions"}

func concOp(op, sec, variant int) cop {
	m := concSections()[sec][variant]
	b := enc(m.onWire())
	jd := []byte(jstyle{}.render(jdoc(m)))
	xd := []byte(xstyle{}.render(xdoc(m)))
	v := uint32(variant)
	var mk func() func() string
	switch concOpNames[op] {
	case "decode-base64":
		in := base64.StdEncoding.EncodeToString(b)
		mk = func() func() string {
			return func() string { s, err := scte35.DecodeBase64(in); return fmt.Sprint(dump(s), err) }
		}
	case "decode-hex":
		in := "0x" + hex.EncodeToString(b)
		mk = func() func() string {
			return func() string { s, err := scte35.DecodeHex(in); return fmt.Sprint(dump(s), err) }
		}
	case "decode-shared": // the input is read by both threads
		mk = func() func() string {
			s := &scte35.SpliceInfoSection{}
			return func() string { err := s.Decode(b); return fmt.Sprint(dump(s), err) }
		}
	case "encode":
		mk = func() func() string {
			s := lib(m)
			return func() string { b, err := s.Encode(); return fmt.Sprintf("%x %v", b, err) }
		}
	case "base64":
		mk = func() func() string {
			s := lib(m)
			return func() string { return s.Base64() + " " + s.Hex() }
		}
	case "table":
		mk = func() func() string {
			s := lib(m)
			return func() string { return s.Table("> ", "  ") }
		}
	case "to-json":
		mk = func() func() string {
			s := lib(m)
			return func() string { b, err := json.Marshal(s); return fmt.Sprintf("%s %v", b, err) }
		}
	case "to-xml":
		mk = func() func() string {
			s := lib(m)
			return func() string { b, err := xml.Marshal(s); return fmt.Sprintf("%s %v", b, err) }
		}
	case "from-json":
		mk = func() func() string {
			s := &scte35.SpliceInfoSection{}
			return func() string { err := json.Unmarshal(jd, s); return fmt.Sprint(dump(s), err) }
		}
	case "from-xml":
		mk = func() func() string {
			s := &scte35.SpliceInfoSection{}
			return func() string { err := xml.Unmarshal(xd, s); return fmt.Sprint(dump(s), err) }
		}
	case "accessors":
		mk = func() func() string {
			s := lib(m)
			return func() string { return accessorText(s) }
		}
	case "edit":
		mk = func() func() string {
			s := lib(m)
			return func() string {
				a, err := s.Encode()
				t := &scte35.SpliceInfoSection{}
				err2 := t.Decode(a)
				t.Tier ^= 0xFFF
				t.SpliceDescriptors = append(t.SpliceDescriptors, libDesc(&DAvail{55 + v}))
				c, err3 := t.Encode()
				return fmt.Sprintf("%x %x %s %v %v %v", a, c, dump(t), err, err2, err3)
			}
		}
	case "decode-bad":
		x := cp(b)
		x[len(x)-1] ^= byte(1 + variant)
		y := cp(b[:len(b)-5-variant])
		mk = func() func() string {
			return func() string {
				s, t := &scte35.SpliceInfoSection{}, &scte35.SpliceInfoSection{}
				err, err2 := s.Decode(x), t.Decode(y)
				return fmt.Sprint(dump(s), err, dump(t), err2)
			}
		}
	case "encode-bad":
		mk = func() func() string {
			s := lib(m)
			s.SpliceDescriptors = append(s.SpliceDescriptors, libDesc(&DDTMF{1, "123456789" + strings.Repeat("0", variant)}))
			return func() string {
				b, err := s.Encode()
				return fmt.Sprint(b != nil && err == nil, err, s.Base64(), s.Hex())
			}
		}
	case "constructors":
		mk = func() func() string {
			return func() string {
				c := scte35.NewSpliceCommand([]uint32{5, 4}[variant])
				d := scte35.NewSpliceDescriptor(cuei, 2+v)
				u := scte35.NewSegmentationUPID(0x09, []byte("abc"+strconv.Itoa(variant)))
				ts := scte35.NewTimeSignal(uint64(5 + v))
				si := scte35.NewSpliceInsertProgram(uint64(6 + v))
				if x, ok := c.(*scte35.SpliceInsert); ok {
					x.SpliceEventID = 9
				}
				return dump(c) + dump(d) + dump(u) + dump(ts) + dump(si)
			}
		}
	case "conversions":
		mk = func() func() string {
			return func() string {
				t := scte35.NewUTCSpliceTime(1000000 + v)
				return fmt.Sprint(scte35.TicksToDuration(uint64(91234+v)), scte35.DurationToTicks(scte35.TicksToDuration(uint64(777+v))), t.GPSSeconds(), t.UTC())
			}
		}
	}
	return cop{op, sec, fmt.Sprintf("%s(section %d)", concOpNames[op], sec), mk}
}

// raceChild runs the two operations named by spec ("op.sec op.sec") at the
// same time in a process in which nothing ran before, then compares with what
// they give alone. The race detector reports unordered conflicting accesses
// by its own exit status.
func raceChild(spec string) int {
	scte35.Logger.SetOutput(io.Discard)
	var x [4]int
	if _, err := fmt.Sscanf(spec, "%d.%d %d.%d", &x[0], &x[1], &x[2], &x[3]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ops := []cop{concOp(x[0], x[1], 0), concOp(x[2], x[3], 1)}
	bad := 0
	first := [2]string{}
	for rep := 0; rep < 3; rep++ {
		var got [2]string
		run := [2]func() string{ops[0].mk(), ops[1].mk()}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range run {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = run[i]()
			}()
		}
		close(start)
		wg.Wait()
		for i := range got {
			if rep == 0 {
				first[i] = got[i]
			}
			if got[i] != first[i] {
				fmt.Printf("%s gives %s, and before %s\n", ops[i].name, got[i], first[i])
				bad = 1
			}
		}
	}
	for i := range ops {
		if w := ops[i].mk()(); w != first[i] {
			fmt.Printf("%s next to %s gives %s, alone %s\n", ops[i].name, ops[1-i].name, first[i], w)
			bad = 1
		}
	}
	return bad
}
