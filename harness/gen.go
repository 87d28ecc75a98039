package main

import "fmt"

// The explored space of sections. Everything is enumerated, nothing sampled:
// structural shapes are multiplied out, field values are explored by bounded
// deviation from a base record (one deviation over the full value set of the
// field, two deviations over its small set).

// Case is one section of the space.
type Case struct {
	Name string
	M    *Sec
}

type dim struct {
	name  string
	full  int
	small int
	apply func(s *Sec, i int, small bool)
}

type base struct {
	name string
	mk   func() *Sec
	dims []dim
}

// ---- value sets ----

func fullVals(bits int) []uint64 {
	max := uint64(1)<<uint(bits) - 1
	if bits <= 8 {
		var v []uint64
		for i := uint64(0); i <= max; i++ {
			v = append(v, i)
		}
		return v
	}
	seen := map[uint64]bool{}
	var v []uint64
	add := func(x uint64) {
		x &= max
		if !seen[x] {
			seen[x] = true
			v = append(v, x)
		}
	}
	add(0)
	add(1)
	for i := 0; i < bits; i++ {
		p := uint64(1) << uint(i)
		add(p)
		add(p - 1)
		add(p + 1)
		add(max ^ p)
		add(p | p>>1)
		add(max - p)
	}
	add(max)
	add(max - 1)
	for _, pat := range []uint64{0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xDEADBEEFCAFEF00D} {
		add(pat)
		add(pat >> 13)
	}
	if bits > 16 {
		add(cuei)
		add(cuei >> 1)
	}
	for t := uint64(10); t < max && t < 1e19; t *= 10 { // decimal boundaries
		add(t)
		add(t - 1)
		if t*9 < max {
			add(t * 9)
		}
	}
	for i := 0; i < bits; i += 8 { // each byte alone at a few values
		for _, x := range []uint64{0x00, 0x2F, 0x7F, 0x80, 0xFF} {
			add(x << uint(i))
		}
	}
	return v
}

func smallVals(bits int) []uint64 {
	max := uint64(1)<<uint(bits) - 1
	return []uint64{0, 1, uint64(1) << uint(bits-1), max}
}

func num(name string, bits int, set func(*Sec, uint64)) dim {
	fv, sv := fullVals(bits), smallVals(bits)
	if bits == 1 {
		sv = []uint64{0, 1}
	}
	return dim{name, len(fv), len(sv), func(s *Sec, i int, small bool) {
		if small {
			set(s, sv[i])
		} else {
			set(s, fv[i])
		}
	}}
}

func boolean(name string, set func(*Sec, bool)) dim {
	return dim{name, 2, 2, func(s *Sec, i int, _ bool) { set(s, i == 1) }}
}

func choice(name string, n int, set func(*Sec, int)) dim {
	return dim{name, n, n, func(s *Sec, i int, _ bool) { set(s, i) }}
}

func optU64(name string, bits int, set func(*Sec, *uint64)) dim {
	fv, sv := fullVals(bits), smallVals(bits)
	return dim{name, len(fv) + 1, len(sv) + 1, func(s *Sec, i int, small bool) {
		v := fv
		if small {
			v = sv
		}
		if i == len(v) {
			set(s, nil)
		} else {
			set(s, p64(v[i]))
		}
	}}
}

func headerDims() []dim {
	return []dim{
		num("sap_type", 2, func(s *Sec, v uint64) { s.SAP = uint32(v) }),
		num("protocol_version", 8, func(s *Sec, v uint64) { s.Proto = uint32(v) }),
		num("encryption_algorithm", 6, func(s *Sec, v uint64) { s.EncAlg = uint32(v) }),
		num("pts_adjustment", 33, func(s *Sec, v uint64) { s.PTSAdj = v }),
		num("cw_index", 8, func(s *Sec, v uint64) { s.CW = uint32(v) }),
		num("tier", 12, func(s *Sec, v uint64) { s.Tier = uint32(v) }),
	}
}

func hdr(c Cmd, d ...Desc) *Sec {
	return &Sec{SAP: 3, Tier: 0xFFF, CW: 0xFF, PTSAdj: 0x000012345, Cmd: c, Desc: d}
}

// ---- commands ----

type cmdProto struct {
	name string
	mk   func() Cmd
	dims []dim
}

func ins(s *Sec) *CInsert      { return s.Cmd.(*CInsert) }
func sched(s *Sec) *CSched     { return s.Cmd.(*CSched) }
func ev(s *Sec, i int) *SEvent { return &s.Cmd.(*CSched).Events[i] }

func insBase() *CInsert {
	return &CInsert{ID: 0x12345678, OON: true, UniqueID: 0xABCD, Avail: 0x31, Expects: 0x42}
}

func brkDims(get func(*Sec) **Brk) []dim {
	return []dim{
		boolean("auto_return", func(s *Sec, v bool) {
			if *get(s) == nil {
				*get(s) = &Brk{Dur: 0x052CCF5}
			}
			(*get(s)).Auto = v
		}),
		optU64("duration", 33, func(s *Sec, v *uint64) {
			if v == nil {
				*get(s) = nil
				return
			}
			a := false
			if *get(s) != nil {
				a = (*get(s)).Auto
			}
			*get(s) = &Brk{Auto: a, Dur: *v}
		}),
	}
}

func insCommon() []dim {
	d := []dim{
		num("splice_event_id", 32, func(s *Sec, v uint64) { ins(s).ID = uint32(v) }),
		boolean("cancel", func(s *Sec, v bool) { ins(s).Cancel = v }),
		boolean("out_of_network", func(s *Sec, v bool) { ins(s).OON = v }),
		boolean("immediate", func(s *Sec, v bool) { ins(s).Imm = v }),
		num("unique_program_id", 16, func(s *Sec, v uint64) { ins(s).UniqueID = uint32(v) }),
		num("avail_num", 8, func(s *Sec, v uint64) { ins(s).Avail = uint32(v) }),
		num("avails_expected", 8, func(s *Sec, v uint64) { ins(s).Expects = uint32(v) }),
	}
	return append(d, brkDims(func(s *Sec) **Brk { return &ins(s).Break })...)
}

func eventDims(i int) []dim {
	p := fmt.Sprintf("event%d.", i)
	d := []dim{
		num(p+"splice_event_id", 32, func(s *Sec, v uint64) { ev(s, i).ID = uint32(v) }),
		boolean(p+"cancel", func(s *Sec, v bool) { ev(s, i).Cancel = v }),
		boolean(p+"compliance", func(s *Sec, v bool) { ev(s, i).Compl = v }),
		boolean(p+"out_of_network", func(s *Sec, v bool) { ev(s, i).OON = v }),
		num(p+"unique_program_id", 16, func(s *Sec, v uint64) { ev(s, i).UniqueID = uint32(v) }),
		num(p+"avail_num", 8, func(s *Sec, v uint64) { ev(s, i).Avail = uint32(v) }),
		num(p+"avails_expected", 8, func(s *Sec, v uint64) { ev(s, i).Expects = uint32(v) }),
	}
	return append(d, brkDims(func(s *Sec) **Brk { return &ev(s, i).Break })...)
}

func evBase(id uint32) SEvent {
	return SEvent{ID: id, Compl: true, OON: true, UniqueID: 0x1357, Avail: 2, Expects: 3}
}

func cmdProtos() []cmdProto {
	var ps []cmdProto
	add := func(name string, mk func() Cmd, dims ...dim) {
		ps = append(ps, cmdProto{name, mk, dims})
	}
	add("time_signal", func() Cmd { return &CTime{p64(0x072BD0050)} },
		optU64("pts_time", 33, func(s *Sec, v *uint64) { s.Cmd.(*CTime).PTS = v }))
	add("time_signal/unspecified", func() Cmd { return &CTime{} })
	add("splice_null", func() Cmd { return &CNull{} })
	add("bandwidth_reservation", func() Cmd { return &CBW{} })
	for _, imm := range []bool{false, true} {
		for _, brk := range []bool{false, true} {
			imm, brk := imm, brk
			suf := fmt.Sprintf("/imm=%v/brk=%v", imm, brk)
			mkb := func(c *CInsert) Cmd {
				c.Imm = imm
				if brk {
					c.Break = &Brk{true, 0x1FEDCBA98}
				}
				return c
			}
			add("splice_insert/program"+suf, func() Cmd {
				c := insBase()
				c.Prog = &ProgT{p64(0x1A2B3C4D5)}
				return mkb(c)
			}, append(insCommon(), optU64("pts_time", 33, func(s *Sec, v *uint64) { ins(s).Prog.PTS = v }))...)
			add("splice_insert/program-untimed"+suf, func() Cmd {
				c := insBase()
				c.Prog = &ProgT{}
				return mkb(c)
			}, insCommon()...)
			add("splice_insert/components"+suf, func() Cmd {
				c := insBase()
				c.Comps = []IComp{{Tag: 0x11, HasST: true, PTS: p64(0x0FEDCBA98)}, {Tag: 0xF2}, {Tag: 0x33, HasST: true, PTS: p64(0x123456789)}}
				return mkb(c)
			}, append(insCommon(),
				num("component0.tag", 8, func(s *Sec, v uint64) { ins(s).Comps[0].Tag = uint32(v) }),
				optU64("component0.pts_time", 33, func(s *Sec, v *uint64) {
					ins(s).Comps[0].PTS, ins(s).Comps[0].HasST = v, v != nil
				}),
				num("component1.tag", 8, func(s *Sec, v uint64) { ins(s).Comps[1].Tag = uint32(v) }),
				optU64("component1.pts_time", 33, func(s *Sec, v *uint64) {
					ins(s).Comps[1].PTS, ins(s).Comps[1].HasST = v, v != nil
				}),
				num("component2.tag", 8, func(s *Sec, v uint64) { ins(s).Comps[2].Tag = uint32(v) }),
				optU64("component2.pts_time", 33, func(s *Sec, v *uint64) {
					ins(s).Comps[2].PTS, ins(s).Comps[2].HasST = v, v != nil
				}))...)
			add("splice_insert/program-and-components"+suf, func() Cmd {
				c := insBase()
				c.Prog = &ProgT{p64(0x1A2B3C4D5)}
				c.Comps = []IComp{{Tag: 0x11, HasST: true, PTS: p64(0x0FEDCBA98)}, {Tag: 0xF2}}
				return mkb(c)
			}, insCommon()...)
			add("splice_insert/no-components"+suf, func() Cmd { return mkb(insBase()) }, insCommon()...)
		}
	}
	add("splice_insert/cancel", func() Cmd { return &CInsert{ID: 0xCAFEF00D, Cancel: true} },
		num("splice_event_id", 32, func(s *Sec, v uint64) { ins(s).ID = uint32(v) }))
	add("splice_schedule/empty", func() Cmd { return &CSched{} })
	add("splice_schedule/program", func() Cmd {
		e := evBase(0x89ABCDEF)
		e.Prog = p32(0x4D8F6A01)
		e.Break = &Brk{true, 0x1FEDCBA98}
		return &CSched{[]SEvent{e}}
	}, append(eventDims(0), num("event0.utc_splice_time", 32, func(s *Sec, v uint64) { ev(s, 0).Prog = p32(uint32(v)) }))...)
	add("splice_schedule/program/no-break", func() Cmd {
		e := evBase(1)
		e.Prog = p32(0)
		return &CSched{[]SEvent{e}}
	}, eventDims(0)...)
	add("splice_schedule/components", func() Cmd {
		e := evBase(0xFFFFFFFE)
		e.Comps = []SComp{{0x10, 0x12345678}, {0xFE, 0xFEDCBA98}}
		e.Break = &Brk{false, 0x000012345}
		return &CSched{[]SEvent{e}}
	}, append(eventDims(0),
		num("event0.component0.tag", 8, func(s *Sec, v uint64) { ev(s, 0).Comps[0].Tag = uint32(v) }),
		num("event0.component0.utc", 32, func(s *Sec, v uint64) { ev(s, 0).Comps[0].UTC = uint32(v) }),
		num("event0.component1.tag", 8, func(s *Sec, v uint64) { ev(s, 0).Comps[1].Tag = uint32(v) }),
		num("event0.component1.utc", 32, func(s *Sec, v uint64) { ev(s, 0).Comps[1].UTC = uint32(v) }))...)
	add("splice_schedule/program-and-components", func() Cmd {
		e := evBase(0x89ABCDEF)
		e.Prog = p32(0x4D8F6A01)
		e.Comps = []SComp{{0x10, 0x12345678}, {0xFE, 0xFEDCBA98}}
		e.Break = &Brk{true, 0x1FEDCBA98}
		f := evBase(0x01ABCDEF)
		f.Comps = []SComp{{0x11, 0x12345679}}
		return &CSched{[]SEvent{e, f}}
	}, eventDims(0)...)
	add("splice_schedule/no-components", func() Cmd { return &CSched{[]SEvent{evBase(7)}} }, eventDims(0)...)
	add("splice_schedule/cancel", func() Cmd { return &CSched{[]SEvent{{ID: 5, Cancel: true, Compl: true}}} },
		num("event0.splice_event_id", 32, func(s *Sec, v uint64) { ev(s, 0).ID = uint32(v) }),
		boolean("event0.compliance", func(s *Sec, v bool) { ev(s, 0).Compl = v }))
	add("splice_schedule/mixed", func() Cmd {
		a, b, c := evBase(0x01020304), evBase(0x05060708), evBase(0x090A0B0C)
		a.Prog = p32(0x30303030)
		b.Cancel, b.OON, b.UniqueID, b.Avail, b.Expects = true, false, 0, 0, 0
		c.Comps = []SComp{{1, 2}, {3, 4}, {5, 6}}
		c.Break = &Brk{true, 90000}
		return &CSched{[]SEvent{a, b, c}}
	}, append(append(eventDims(0), eventDims(1)...), eventDims(2)...)...)
	add("private_command", func() Cmd { return &CPriv{Ident: 0x41424344, Bytes: []byte{0xDE, 0xAD, 0x00, 0xBE, 0xEF}} },
		num("identifier", 32, func(s *Sec, v uint64) { s.Cmd.(*CPriv).Ident = uint32(v) }),
		num("private_byte[0]", 8, func(s *Sec, v uint64) { s.Cmd.(*CPriv).Bytes[0] = byte(v) }),
		num("private_byte[4]", 8, func(s *Sec, v uint64) { s.Cmd.(*CPriv).Bytes[4] = byte(v) }))
	add("private_command/empty", func() Cmd { return &CPriv{Ident: 0x43554549} },
		num("identifier", 32, func(s *Sec, v uint64) { s.Cmd.(*CPriv).Ident = uint32(v) }))
	return ps
}

// ---- descriptors ----

type descProto struct {
	name string
	mk   func() Desc
	dims func(at int) []dim // dims acting on s.Desc[at]
}

func segAt(s *Sec, i int) *DSeg { return s.Desc[i].(*DSeg) }

func segBase() *DSeg {
	return &DSeg{ID: 0x4800008E, Compl: true, TypeID: 0x34, Num: 2, Expected: 5}
}

var upidText = UPID{0x09, []byte("SIGNAL:abc")}

func upidSamples() []UPID {
	eidr := []byte{0x14, 0x78, 0xF8, 0x5A, 0xE1, 0x00, 0xB0, 0x68, 0x5B, 0x8F, 0xC1, 0xC8}
	return []UPID{
		{0x01, []byte("user defined")},
		{0x02, []byte("ISCI1234")},
		{0x03, []byte("ABCD0123000H")},
		{0x04, []byte("\x06\x0A\x2B\x34\x01\x01\x01\x05\x01\x01\x0D\x20\x13\x00\x00\x00\xD2\xC9\x03\x6C\x8F\x19\x53\x43\x4D\xCA\x4C\xB0\x36\xE7\x50\xA9")},
		{0x05, []byte{1, 2, 3, 4, 5, 6, 7, 8}},
		{0x06, []byte{0, 0, 0, 1, 0x2C, 0x52, 0, 0, 0, 0, 0, 0xFF}},
		{0x07, []byte("EP0123456789")},
		{0x08, []byte{0, 0, 0, 0, 0x2C, 0xA0, 0xA1, 0x8A}},
		{0x09, []byte("SIGNAL:Ly9EMGxKR0hFZUtpMHdCUVZnRUFnZz1")},
		{0x0A, eidr},
		{0x0B, []byte("\xAA\xBBcontent")},
		{0x0C, []byte("DISCYMWF045200")},
		{0x0C, []byte{0, 0, 0, 0}},
		{0x0E, []byte("TYPE=LA&DUR=60000&TIER=MRT")},
		{0x0F, []byte("urn:uuid:caf\xE9-\xFF")},
		{0x10, []byte("\xCB\x05\x91\x0F\x28\x7C\x4F\x52\xB8\x47\x8E\x9D\xF1\x5F\x0A\x66")},
		{0x11, []byte("scr")},
		{0x12, []byte("reserved")},
		{0xFF, []byte("x")},
	}
}

func segDims(at int) []dim {
	g := func(s *Sec) *DSeg { return segAt(s, at) }
	p := fmt.Sprintf("seg%d.", at)
	us := upidSamples()
	return []dim{
		num(p+"event_id", 32, func(s *Sec, v uint64) { g(s).ID = uint32(v) }),
		boolean(p+"cancel", func(s *Sec, v bool) { g(s).Cancel = v }),
		boolean(p+"compliance", func(s *Sec, v bool) { g(s).Compl = v }),
		choice(p+"restrictions", 33, func(s *Sec, i int) {
			if i == 32 {
				g(s).Restr = nil
				return
			}
			g(s).Restr = &Restr{Archive: i&1 != 0, Web: i&2 != 0, NoBlackout: i&4 != 0, Device: uint32(i >> 3)}
		}),
		choice(p+"components", 4, func(s *Sec, i int) {
			g(s).Comps = nil
			for k := 0; k < i; k++ {
				g(s).Comps = append(g(s).Comps, GComp{uint32(0x81 + k*17), 0x1FFFFFFFF - uint64(k)*0x01234567})
			}
		}),
		optU64(p+"duration", 40, func(s *Sec, v *uint64) { g(s).Dur = v }),
		choice(p+"upids", len(us)+3, func(s *Sec, i int) {
			switch {
			case i == 0:
				g(s).UPIDs = nil
			case i <= len(us):
				g(s).UPIDs = []UPID{us[i-1]}
			case i == len(us)+1:
				g(s).UPIDs = []UPID{us[2], us[7]}
			default:
				g(s).UPIDs = []UPID{us[9], us[11], us[14]}
			}
		}),
		num(p+"type_id", 8, func(s *Sec, v uint64) {
			g(s).TypeID = uint32(v)
			if !subSegType(uint32(v)) {
				g(s).SubNum, g(s).SubExpec = nil, nil
			}
		}),
		num(p+"segment_num", 8, func(s *Sec, v uint64) { g(s).Num = uint32(v) }),
		num(p+"segments_expected", 8, func(s *Sec, v uint64) { g(s).Expected = uint32(v) }),
		choice(p+"sub_segments", 6, func(s *Sec, i int) {
			if i == 0 || !subSegType(g(s).TypeID) {
				g(s).SubNum, g(s).SubExpec = nil, nil
				return
			}
			v := [][2]uint32{{}, {0, 0}, {1, 2}, {255, 255}, {0x80, 1}, {0, 255}}[i]
			g(s).SubNum, g(s).SubExpec = p32(v[0]), p32(v[1])
		}),
	}
}

func descProtos() []descProto {
	var ps []descProto
	add := func(name string, mk func() Desc, dims func(at int) []dim) {
		ps = append(ps, descProto{name, mk, dims})
	}
	none := func(int) []dim { return nil }
	add("avail", func() Desc { return &DAvail{0x00000135} }, func(at int) []dim {
		return []dim{num("avail.id", 32, func(s *Sec, v uint64) { s.Desc[at].(*DAvail).ID = uint32(v) })}
	})
	add("dtmf", func() Desc { return &DDTMF{177, "ABC*"} }, func(at int) []dim {
		g := func(s *Sec) *DDTMF { return s.Desc[at].(*DDTMF) }
		return []dim{
			num("dtmf.preroll", 8, func(s *Sec, v uint64) { g(s).Preroll = uint32(v) }),
			choice("dtmf.chars", 8, func(s *Sec, i int) { g(s).Chars = "0#*9DCB"[:i] }),
			choice("dtmf.alphabet", 16, func(s *Sec, i int) {
				x := "0123456789*#ABCD"[i]
				g(s).Chars = string([]byte{x, 'A', x})
			}),
		}
	})
	add("dtmf/empty", func() Desc { return &DDTMF{0, ""} }, none)
	add("dtmf/max", func() Desc { return &DDTMF{255, "1234567"} }, none)
	add("time", func() Desc { return &DTime{0x010203040506, 0x0708090A, 0x0B0C} }, func(at int) []dim {
		g := func(s *Sec) *DTime { return s.Desc[at].(*DTime) }
		return []dim{
			num("time.tai_seconds", 48, func(s *Sec, v uint64) { g(s).Sec = v }),
			num("time.tai_ns", 32, func(s *Sec, v uint64) { g(s).NS = uint32(v) }),
			num("time.utc_offset", 16, func(s *Sec, v uint64) { g(s).Offset = uint32(v) }),
		}
	})
	audDims := func(at int) []dim {
		g := func(s *Sec) *DAudio { return s.Desc[at].(*DAudio) }
		var d []dim
		for k := 0; k < 2; k++ {
			k := k
			p := fmt.Sprintf("audio.channel%d.", k)
			d = append(d,
				num(p+"tag", 8, func(s *Sec, v uint64) { g(s).Ch[k].Tag = uint32(v) }),
				choice(p+"iso", 27+len(isoCodes), func(s *Sec, i int) {
					if i >= 27 {
						g(s).Ch[k].ISO = isoCodes[i-27]
						return
					}
					if i == 26 {
						g(s).Ch[k].ISO = "qaa"
						return
					}
					g(s).Ch[k].ISO = string([]byte{'a' + byte(i), 'a' + byte((i+7)%26), 'a' + byte((i+19)%26)})
				}),
				num(p+"mode", 3, func(s *Sec, v uint64) { g(s).Ch[k].Mode = uint32(v) }),
				num(p+"channels", 4, func(s *Sec, v uint64) { g(s).Ch[k].Chan = uint32(v) }),
				boolean(p+"full", func(s *Sec, v bool) { g(s).Ch[k].Full = v }))
		}
		return d
	}
	add("audio", func() Desc {
		return &DAudio{[]AudioCh{{0x21, "eng", 5, 9, true}, {0x42, "spa", 2, 6, false}}}
	}, audDims)
	add("audio/empty", func() Desc { return &DAudio{} }, none)
	add("audio/one", func() Desc { return &DAudio{[]AudioCh{{1, "fra", 7, 15, false}}} }, none)
	add("private", func() Desc { return &DPriv{0x07, 0x46464646, []byte{1, 2, 3}} }, func(at int) []dim {
		g := func(s *Sec) *DPriv { return s.Desc[at].(*DPriv) }
		return []dim{
			num("private.tag", 8, func(s *Sec, v uint64) { g(s).Tag = uint32(v) }),
			num("private.identifier", 32, func(s *Sec, v uint64) {
				g(s).Ident = uint32(v)
				if g(s).Ident == cuei {
					g(s).Ident++
				}
			}),
			num("private.byte0", 8, func(s *Sec, v uint64) { g(s).Bytes[0] = byte(v) }),
			num("private.byte2", 8, func(s *Sec, v uint64) { g(s).Bytes[2] = byte(v) }),
		}
	})
	add("private/empty", func() Desc { return &DPriv{0x02, 0x00000000, nil} }, none)
	add("private/cuei-unknown-tag", func() Desc { return &DPriv{0x05, cuei, []byte("CUEI")} }, func(at int) []dim {
		return []dim{num("private.tag", 8, func(s *Sec, v uint64) {
			if v >= 5 {
				s.Desc[at].(*DPriv).Tag = uint32(v)
			}
		})}
	})
	add("seg", func() Desc { return segBase() }, segDims)
	add("seg/full", func() Desc {
		s := segBase()
		s.Restr = &Restr{Archive: true, NoBlackout: true, Device: 2}
		s.Comps = []GComp{{0x17, 0x012345678}, {0xE8, 0x1FEDCBA98}}
		s.Dur = p64(0x0123456789)
		s.UPIDs = []UPID{{0x09, []byte("SIGNAL:abc")}, {0x0C, []byte("DISCxyz")}, {0x08, []byte{1, 2, 3, 4, 5, 6, 7, 8}}}
		s.SubNum, s.SubExpec = p32(3), p32(4)
		return s
	}, segDims)
	add("seg/upid", func() Desc {
		s := segBase()
		s.TypeID = 0x10
		s.UPIDs = []UPID{upidText}
		s.Dur = p64(27000000)
		return s
	}, segDims)
	add("seg/cancel", func() Desc { return &DSeg{ID: 0xFEEDBEEF, Cancel: true} }, func(at int) []dim {
		return []dim{
			num("seg.event_id", 32, func(s *Sec, v uint64) { segAt(s, at).ID = uint32(v) }),
			boolean("seg.compliance", func(s *Sec, v bool) { segAt(s, at).Compl = v }),
		}
	})
	add("seg/restricted", func() Desc {
		s := segBase()
		s.Restr = &Restr{Web: true, Device: 3}
		return s
	}, none)
	add("seg/eidr", func() Desc {
		s := segBase()
		s.TypeID, s.UPIDs = 0x22, []UPID{upidSamples()[9]}
		return s
	}, none)
	add("seg/comps", func() Desc {
		s := segBase()
		s.Comps = []GComp{{1, 2}}
		s.TypeID = 0x50
		return s
	}, func(at int) []dim {
		return []dim{
			num("seg.component.tag", 8, func(s *Sec, v uint64) { segAt(s, at).Comps[0].Tag = uint32(v) }),
			num("seg.component.offset", 33, func(s *Sec, v uint64) { segAt(s, at).Comps[0].Offset = v }),
		}
	})
	return ps
}

// ---- enumeration ----

type yieldFn func(Case) bool

func vary(b base, pairs bool, yield yieldFn) bool {
	if !yield(Case{b.name, b.mk()}) {
		return false
	}
	for _, d := range b.dims {
		for i := 0; i < d.full; i++ {
			s := b.mk()
			d.apply(s, i, false)
			if !yield(Case{b.name + " " + d.name, s}) {
				return false
			}
		}
	}
	if !pairs {
		return true
	}
	for x := range b.dims {
		for y := x + 1; y < len(b.dims); y++ {
			dx, dy := b.dims[x], b.dims[y]
			for i := 0; i < dx.small; i++ {
				for j := 0; j < dy.small; j++ {
					s := b.mk()
					dx.apply(s, i, true)
					dy.apply(s, j, true)
					if !yield(Case{b.name + " " + dx.name + "," + dy.name, s}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// widePairs explores every value of one field with the small values of another.
func widePairs(b base, yield yieldFn) bool {
	for x := range b.dims {
		for y := range b.dims {
			if x == y {
				continue
			}
			dx, dy := b.dims[x], b.dims[y]
			for i := 0; i < dx.full; i++ {
				for j := 0; j < dy.small; j++ {
					s := b.mk()
					dx.apply(s, i, false)
					dy.apply(s, j, true)
					if !yield(Case{b.name + " " + dx.name + ",," + dy.name, s}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// triples explores three deviations over the small sets.
func triples(b base, yield yieldFn) bool {
	n := len(b.dims)
	for x := 0; x < n; x++ {
		for y := x + 1; y < n; y++ {
			for z := y + 1; z < n; z++ {
				dx, dy, dz := b.dims[x], b.dims[y], b.dims[z]
				for i := 0; i < dx.small; i++ {
					for j := 0; j < dy.small; j++ {
						for k := 0; k < dz.small; k++ {
							s := b.mk()
							dx.apply(s, i, true)
							dy.apply(s, j, true)
							dz.apply(s, k, true)
							if !yield(Case{b.name + " " + dx.name + "," + dy.name + "," + dz.name, s}) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

func cmdBases() []base {
	var bs []base
	for _, p := range cmdProtos() {
		p := p
		bs = append(bs, base{p.name, func() *Sec { return hdr(p.mk()) }, append(headerDims(), p.dims...)})
	}
	return bs
}

func descBases() []base {
	var bs []base
	for _, p := range descProtos() {
		p := p
		bs = append(bs, base{"time_signal+" + p.name, func() *Sec { return hdr(&CTime{p64(1)}, p.mk()) }, append(headerDims(), p.dims(0)...)})
		bs = append(bs, base{"splice_insert+avail+" + p.name, func() *Sec {
			c := insBase()
			c.Prog = &ProgT{p64(0x155555555)}
			return hdr(c, &DAvail{9}, p.mk())
		}, p.dims(1)})
	}
	return bs
}

// shapes multiplies command shapes with descriptor lists up to length n.
func shapes(n int, yield yieldFn) bool {
	cs, ds := cmdProtos(), descProtos()
	var rec func(c cmdProto, idx []int) bool
	rec = func(c cmdProto, idx []int) bool {
		s := hdr(c.mk())
		name := c.name
		for _, i := range idx {
			s.Desc = append(s.Desc, ds[i].mk())
			name += "+" + ds[i].name
		}
		if !yield(Case{name, s}) {
			return false
		}
		if len(idx) == n {
			return true
		}
		for i := range ds {
			if !rec(c, append(idx[:len(idx):len(idx)], i)) {
				return false
			}
		}
		return true
	}
	for _, c := range cs {
		if !rec(c, nil) {
			return false
		}
	}
	return true
}

func pat(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	return b
}

func textPat(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + (i*7)%90)
		if b[i] == '/' {
			b[i] = '~'
		}
	}
	return b
}

// counts exercises every list and payload length over its whole range.
func counts(thorough bool, yield yieldFn) bool {
	ok := true
	y := func(name string, s *Sec) bool {
		if ok && representable(s) {
			ok = yield(Case{name, s})
		}
		return ok
	}
	for n := 0; n <= 255; n++ {
		for v := 0; v < 4; v++ {
			c := insBase()
			c.Imm = v&1 != 0
			if v&2 != 0 {
				c.Break = &Brk{true, 0x1FFFFFFFF}
			}
			for i := 0; i < n; i++ {
				k := IComp{Tag: uint32(i)}
				if i%3 != 1 {
					k.PTS, k.HasST = p64(uint64(i)*0x2040813&0x1FFFFFFFF), true
				}
				c.Comps = append(c.Comps, k)
			}
			y(fmt.Sprintf("splice_insert components=%d", n), hdr(c))
		}
		e := evBase(3)
		for i := 0; i < n; i++ {
			e.Comps = append(e.Comps, SComp{uint32(255 - i), uint32(i) * 0x01010101})
		}
		y(fmt.Sprintf("splice_schedule components=%d", n), hdr(&CSched{[]SEvent{e}}))
		for v := 0; v < 3; v++ {
			s := &CSched{}
			for i := 0; i < n; i++ {
				e := evBase(uint32(i) << 24)
				switch (v + i) % 3 {
				case 0:
					e = SEvent{ID: uint32(i), Cancel: true, Compl: i%2 == 0}
				case 1:
					e.Prog = p32(uint32(i))
				case 2:
					if v != 0 {
						e.Prog = p32(0xFFFFFFFF - uint32(i))
						e.Break = &Brk{i%2 == 0, uint64(i)}
					}
				}
				s.Events = append(s.Events, e)
			}
			y(fmt.Sprintf("splice_schedule events=%d", n), hdr(s))
		}
		cs := &CSched{}
		for i := 0; i < n; i++ {
			cs.Events = append(cs.Events, SEvent{ID: uint32(i), Cancel: true})
		}
		y(fmt.Sprintf("splice_schedule cancels=%d", n), hdr(cs))
	}
	for n := 0; n <= 15; n++ {
		a := &DAudio{}
		for i := 0; i < n; i++ {
			a.Ch = append(a.Ch, AudioCh{uint32(i * 17), "eng", uint32(i % 8), uint32(i), i%2 == 0})
		}
		y(fmt.Sprintf("audio channels=%d", n), hdr(&CNull{}, a))
	}
	for n := 0; n <= 42; n++ {
		g := segBase()
		for i := 0; i < n; i++ {
			g.Comps = append(g.Comps, GComp{uint32(i), uint64(i) << 25})
		}
		y(fmt.Sprintf("segmentation components=%d", n), hdr(&CTime{}, g))
	}
	for n := 0; n <= 110; n++ { // MID() with n entries
		g := segBase()
		for i := 0; i < n; i++ {
			g.UPIDs = append(g.UPIDs, UPID{0x0F, []byte{byte('A' + i%26)}[:1-i%2]})
		}
		if n == 1 {
			continue
		}
		y(fmt.Sprintf("segmentation upids=%d", n), hdr(&CTime{}, g))
	}
	for n := 1; n <= 250; n++ {
		g := segBase()
		g.UPIDs = []UPID{{0x0F, textPat(n)}}
		y(fmt.Sprintf("upid length=%d", n), hdr(&CTime{}, g))
		g2 := segBase()
		g2.UPIDs = []UPID{{0x03, textPat(n)}, {0x0E, textPat(3)}}
		y(fmt.Sprintf("mid upid length=%d", n), hdr(&CTime{}, g2))
		g3 := segBase()
		g3.UPIDs = []UPID{{0x06, pat(n)}}
		y(fmt.Sprintf("isan length=%d", n), hdr(&CTime{}, g3))
		if n >= 4 {
			g4 := segBase()
			g4.UPIDs = []UPID{{0x0C, pat(n)}}
			y(fmt.Sprintf("mpu length=%d", n), hdr(&CTime{}, g4))
		}
	}
	for n := 0; n <= 251; n++ {
		y(fmt.Sprintf("private descriptor bytes=%d", n), hdr(&CTime{}, &DPriv{0xAA, 0x12345678, pat(n)}))
	}
	for n := 0; n <= 4080; n++ {
		y(fmt.Sprintf("private command bytes=%d", n), hdr(&CPriv{Ident: 0x54455354, Bytes: pat(n)}))
	}
	for n := 0; n <= 120; n++ { // descriptor loop length
		var ds []Desc
		for i := 0; i < n; i++ {
			if i%5 == 2 {
				ds = append(ds, &DPriv{uint32(i), 0x44444444, pat(i % 9)})
			} else {
				ds = append(ds, &DAvail{uint32(i) * 0x01010101})
			}
		}
		y(fmt.Sprintf("descriptors=%d", n), hdr(&CNull{}, ds...))
	}
	for n := 0; n <= 16; n++ { // large descriptor loops up to the section limit
		var ds []Desc
		for i := 0; i < n; i++ {
			ds = append(ds, &DPriv{uint32(i), 0x44444444, pat(250)})
		}
		y(fmt.Sprintf("large descriptors=%d", n), hdr(&CNull{}, ds...))
	}
	return ok
}

// stuffed: alignment stuffing and encryption.
func stuffed(yield yieldFn) bool {
	for _, alg := range []uint32{0, 1, 2, 3, 4, 31, 32, 63} {
		for n := 0; n <= 40; n++ {
			for v := 0; v < 3; v++ {
				var s *Sec
				switch v {
				case 0:
					s = hdr(&CTime{p64(0x0FFFFFFFF)})
				case 1:
					s = hdr(&CNull{}, segBase(), &DAvail{1})
				case 2:
					c := insBase()
					c.Prog = &ProgT{p64(5)}
					s = hdr(c, &DPriv{9, 9, pat(4)})
				}
				s.EncAlg = alg
				s.Stuff = pat(n)
				if v == 2 {
					for i := range s.Stuff {
						s.Stuff[i] = 0xFF
					}
				}
				if !yield(Case{fmt.Sprintf("stuffed alg=%d n=%d", alg, n), s}) {
					return false
				}
			}
		}
	}
	return true
}

// upids explores type x length x content of segmentation_upid.
func upids(thorough bool, yield yieldFn) bool {
	one := func(name string, us ...UPID) bool {
		g := segBase()
		g.UPIDs = us
		return yield(Case{name, hdr(&CTime{}, g)})
	}
	// every type with a few contents
	for t := 0; t <= 255; t++ {
		if t == 0x0D {
			continue
		}
		for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 200, 220} {
			u := UPID{uint32(t), textPat(n)}
			switch t {
			case 0x0A:
				u.Raw = pat(12)
			case 0x08:
				u.Raw = pat(8)
			case 0x0C:
				if n < 4 {
					continue
				}
			}
			if !one(fmt.Sprintf("upid type=%#x n=%d", t, n), u) {
				return false
			}
			if !one(fmt.Sprintf("mid upid type=%#x n=%d", t, n), UPID{0x0E, []byte("k=v")}, u) {
				return false
			}
		}
	}
	// every byte value at every position of each specially presented type
	for _, tn := range []struct {
		t uint32
		n int
	}{{0x0A, 12}, {0x08, 8}, {0x0C, 8}, {0x06, 12}, {0x05, 8}, {0x03, 12}, {0x0F, 3}, {0x10, 16}, {0x04, 5}, {0x0B, 4}, {0x0C, 4}, {0x06, 1}, {0x06, 2}, {0x0F, 1}} {
		for pos := 0; pos < tn.n; pos++ {
			for v := 0; v < 256; v++ {
				raw := textPat(tn.n)
				if tn.t == 0x0A || tn.t == 0x08 || tn.t == 0x0C || tn.t == 0x06 || tn.t == 0x05 {
					raw = pat(tn.n)
				}
				raw[pos] = byte(v)
				if !one(fmt.Sprintf("upid %#x byte %d=%#x", tn.t, pos, v), UPID{tn.t, raw}) {
					return false
				}
			}
		}
	}
	// EIDR prefix: all 16-bit values; extremes of the suffix
	step := 1
	if !thorough {
		step = 17
	}
	for v := 0; v < 65536; v += step {
		raw := []byte{byte(v >> 8), byte(v), 0, 0, 0, 1, 0x10, 0, 0xAB, 0xCD, 0xFF, 0xFF}
		if !one(fmt.Sprintf("eidr prefix %d", v), UPID{0x0A, raw}) {
			return false
		}
	}
	for _, f := range []byte{0x00, 0x0F, 0xF0, 0xFF, 0x2F} {
		raw := []byte{f, f, f, f, f, f, f, f, f, f, f, f}
		if !one("eidr fill", UPID{0x0A, raw}) {
			return false
		}
	}
	// TI: boundary values
	for _, v := range fullVals(63) {
		for hi := uint64(0); hi < 2; hi++ {
			x := v | hi<<63
			raw := make([]byte, 8)
			for i := range raw {
				raw[i] = byte(x >> uint(56-8*i))
			}
			if !one("ti value", UPID{0x08, raw}) {
				return false
			}
		}
	}
	// MID lists: every ordered pair, and every triple of a few kinds
	us := upidSamples()
	for i := range us {
		for j := range us {
			if !one("mid pair", us[i], us[j]) {
				return false
			}
		}
	}
	for i := 0; i < len(us); i += 2 {
		for j := 1; j < len(us); j += 3 {
			for k := 0; k < len(us); k += 4 {
				if !one("mid triple", us[i], us[j], us[k]) {
					return false
				}
			}
		}
	}
	// zero-length entries inside MID()
	for i := range us {
		for pos := 0; pos < 3; pos++ {
			l := []UPID{us[i], us[(i+5)%len(us)]}
			z := UPID{0x0F, nil}
			l = append(l[:pos:pos], append([]UPID{z}, l[pos:]...)...)
			if !one("mid with empty entry", l...) {
				return false
			}
		}
	}
	// an entry of the type of the list itself, at each place
	for i := range us {
		for _, raw := range [][]byte{[]byte("\x09\x03ABC"), nil, []byte("text")} {
			if i > 0 && len(raw) != 5 {
				continue
			}
			z, a, b := UPID{0x0D, raw}, us[i], us[(i+7)%len(us)]
			for _, l := range [][]UPID{{z, a}, {a, z}, {z, z}, {z, a, b}, {a, z, b}, {a, b, z}} {
				if !one("list with an entry of type 0x0D", l...) {
					return false
				}
			}
		}
	}
	// texts that are the names of things around them
	for _, w := range documentWords {
		for _, t := range []uint32{0x01, 0x09, 0x0C, 0x0F} {
			u := UPID{t, []byte(w)}
			if t == 0x0C {
				u.Raw = append([]byte("ABCD"), w...)
			}
			if !one("upid "+w, u) || !one("upid in a list "+w, UPID{0x0E, []byte("k=v")}, u) {
				return false
			}
		}
	}
	// two-byte text contents over the whole Latin-1 plane
	if thorough {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				if !one("text pair", UPID{0x0F, []byte{'x', byte(a), byte(b), 'y'}}) {
					return false
				}
			}
		}
	}
	return true
}

// headers explores header fields against one another.
func headers(yield yieldFn) bool {
	for sap := uint32(0); sap < 4; sap++ {
		for _, proto := range []uint32{0, 1, 0x80, 0xFF} {
			for _, alg := range []uint32{0, 1, 0x20, 0x3F} {
				for _, cw := range []uint32{0, 0x81, 0xFF} {
					for _, tier := range []uint32{0, 1, 0x7FF, 0x800, 0xFFF, 0xA5A} {
						for _, pts := range []uint64{0, 1, 0xFFFFFFFF, 0x100000000, 0x1FFFFFFFF, 0x123456789} {
							if !yield(Case{"header product", &Sec{SAP: sap, Proto: proto, EncAlg: alg, CW: cw, Tier: tier, PTSAdj: pts, Cmd: &CTime{}}}) {
								return false
							}
						}
					}
				}
			}
		}
	}
	for t := uint32(0); t < 4096; t++ {
		if !yield(Case{"tier", &Sec{SAP: 3, Tier: t, Cmd: &CNull{}}}) {
			return false
		}
	}
	return true
}

// segTypes: every segmentation type with and without sub-segments, and the
// interplay with UPIDs and restrictions.
func segTypes(yield yieldFn) bool {
	for t := uint32(0); t < 256; t++ {
		for v := 0; v < 8; v++ {
			g := segBase()
			g.TypeID = t
			if v&1 != 0 {
				if !subSegType(t) {
					continue
				}
				g.SubNum, g.SubExpec = p32(t^0x55), p32(t)
			}
			if v&2 != 0 {
				g.UPIDs = []UPID{{0x09, []byte("ABC")}}
			}
			if v&4 != 0 {
				g.Restr = &Restr{Web: true, Device: 1}
				g.Dur = p64(uint64(t) << 32)
			}
			if !yield(Case{fmt.Sprintf("segmentation type %#x/%d", t, v), hdr(&CTime{p64(uint64(t))}, g)}) {
				return false
			}
		}
	}
	return true
}

// reserved enumerates the sections of the universe. level 0 is the compact
// universe, 1 the quick one, 2 the thorough one.
func universe(level int, yield yieldFn) bool {
	for _, b := range cmdBases() {
		if !vary(b, level > 0, yield) {
			return false
		}
	}
	for _, b := range descBases() {
		if !vary(b, level > 0, yield) {
			return false
		}
	}
	n := 2
	if level == 0 {
		n = 1
	}
	if level >= 2 {
		n = 3
	}
	if !shapes(n, yield) || !alike(yield) || !segTypes(yield) || !stuffed(yield) || !counts(level >= 2, yield) || !upids(level >= 2, yield) || !headers(yield) || !mixtures(level, yield) ||
		!listWords(level, yield) || !contentWords(level, yield) || !loopLengths(level, yield) {
		return false
	}
	if level > 0 && !cubes(level >= 2, yield) {
		return false
	}
	if level > 2 {
		for _, b := range append(cmdBases(), descBases()...) {
			if !widePairs(b, yield) {
				return false
			}
		}
	}
	if level >= 2 {
		for _, b := range cmdBases() {
			if !triples(b, yield) {
				return false
			}
		}
		for _, b := range descBases() {
			if !triples(b, yield) {
				return false
			}
		}
	}
	return true
}

// documentWords are texts that mean something to the readers and writers of
// the document forms.
var documentWords = []string{"identifier", "type", "value", "format", "null", "true", "spliceCommand", "spliceDescriptors", "formatIdentifier",
	"segmentationUpidType", "segmentationUpids", "SpliceInfoSection", "SegmentationUpid", "PrivateBytes", "text", "hexbinary", "base-64",
	"\"identifier\":", "\"type\": 7,", "{\"type\":2}", "<SpliceNull/>", "</SegmentationUpid>", "]]>", "<![CDATA[x]]>", "&amp;", "&#65;", "<!-- c -->", "0x41", "\\n", "\\u0041", "%d%s"}

// isoCodes are three bytes where a language is expected.
var isoCodes = []string{"\x00\x00\x00", "   ", "en ", " en", "e n", "ENG", "Eng", "123", "en\x00", "---", "xxx", "und", "mul", "zxx", "aaa", "zzz", "e<g", "e&g", "\"\"\"", "\xC3\xA9a", "\xFF\xFF\xFF", "e\tg", "e\ng", "\n\n\n", "0x1"}
