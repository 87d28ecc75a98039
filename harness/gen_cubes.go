package main

// Full products over the small values of every field of a record, so that no
// combination of flags, of present and absent parts and of zero and other
// numbers within one record is left out.

// counter runs through all combinations of choices; next(n) is the choice
// among n at the next place.
type counter struct {
	at, of []int
	pos    int
}

func (c *counter) next(n int) int {
	if c.pos == len(c.at) {
		c.at, c.of = append(c.at, 0), append(c.of, n)
	}
	c.pos++
	return c.at[c.pos-1]
}

func (c *counter) flag() bool { return c.next(2) == 1 }

// product calls mk for every combination of the choices it makes.
func product(mk func(c *counter) *Sec, name string, yield yieldFn) bool {
	c := &counter{}
	for {
		c.pos = 0
		if !yield(Case{name, mk(c)}) {
			return false
		}
		c.at, c.of = c.at[:c.pos], c.of[:c.pos]
		for len(c.at) > 0 && c.at[len(c.at)-1]+1 == c.of[len(c.of)-1] {
			c.at, c.of = c.at[:len(c.at)-1], c.of[:len(c.of)-1]
		}
		if len(c.at) == 0 {
			return true
		}
		c.at[len(c.at)-1]++
	}
}

func (c *counter) u32(v ...uint32) uint32 { return v[c.next(len(v))] }

func (c *counter) brk() *Brk {
	switch c.next(5) {
	case 1:
		return &Brk{false, 0}
	case 2:
		return &Brk{true, 0}
	case 3:
		return &Brk{false, 0x1FEDCBA98}
	case 4:
		return &Brk{true, 0x052CCF5}
	}
	return nil
}

func insCube(wide bool) func(*counter) *Sec {
	return func(c *counter) *Sec {
		i := &CInsert{ID: 0x4800008F, Cancel: c.flag(), OON: c.flag(), Imm: c.flag(), Break: c.brk()}
		if wide {
			i.ID = c.u32(0, 0x4800008F, 0xFFFFFFFF)
		}
		switch c.next(8) {
		case 0:
			i.Prog = &ProgT{p64(0x1A2B3C4D5)}
		case 1:
			i.Prog = &ProgT{p64(0)}
		case 2:
			i.Prog = &ProgT{}
		case 3:
			i.Comps = []IComp{{Tag: 0x11, HasST: true, PTS: p64(0x0FEDCBA98)}, {Tag: 0}, {Tag: 0x33, HasST: true, PTS: p64(0)}}
		case 4:
			i.Comps = []IComp{{Tag: 0}, {Tag: 0xFF}}
		case 5:
			i.Prog, i.Comps = &ProgT{p64(5)}, []IComp{{Tag: 1}, {Tag: 2, HasST: true, PTS: p64(9)}}
		case 6:
			i.Prog, i.Comps = &ProgT{}, []IComp{{Tag: 0, HasST: true}}
		}
		i.UniqueID, i.Avail, i.Expects = c.u32(0, 0xABCD), c.u32(0, 0x31), c.u32(0, 0x42)
		if c.flag() {
			g := segBase()
			g.Dur = p64(90000)
			return hdr(i, g)
		}
		return hdr(i)
	}
}

func eventCube(wide bool) func(*counter) *Sec {
	return func(c *counter) *Sec {
		e := SEvent{ID: 0x4800008F, Cancel: c.flag(), Compl: c.flag(), OON: c.flag(), Break: c.brk()}
		if wide {
			e.ID = c.u32(0, 0x4800008F, 0xFFFFFFFF)
		}
		switch c.next(6) {
		case 0:
			e.Prog = p32(0x4D8F6A01)
		case 1:
			e.Prog = p32(0)
		case 2:
			e.Comps = []SComp{{0x10, 0x12345678}, {0, 0}}
		case 3:
			e.Comps = []SComp{{0, 0}}
		case 4:
			e.Prog, e.Comps = p32(7), []SComp{{1, 2}}
		}
		e.UniqueID, e.Avail, e.Expects = c.u32(0, 0x1357), c.u32(0, 2), c.u32(0, 3)
		o := evBase(9)
		switch c.next(4) {
		case 1:
			o.Prog = p32(1)
			return hdr(&CSched{[]SEvent{o, e}})
		case 2:
			o.Comps = []SComp{{1, 2}, {3, 4}}
			o.Break = &Brk{true, 5}
			return hdr(&CSched{[]SEvent{e, o}})
		case 3:
			return hdr(&CSched{[]SEvent{{ID: 8, Cancel: true}, e}}, &DAvail{1})
		}
		return hdr(&CSched{[]SEvent{e}})
	}
}

func segCube(wide bool) func(*counter) *Sec {
	return func(c *counter) *Sec {
		g := &DSeg{ID: 0x4800008E, Cancel: c.flag(), Compl: c.flag()}
		if wide {
			if n := c.next(33); n < 32 {
				g.Restr = &Restr{Archive: n&1 != 0, Web: n&2 != 0, NoBlackout: n&4 != 0, Device: uint32(n >> 3)}
			}
		} else if n := c.next(4); n > 0 {
			g.Restr = []*Restr{nil, {}, {Archive: true, Web: true, NoBlackout: true, Device: 3}, {NoBlackout: true, Device: 1}}[n]
		}
		switch c.next(3) {
		case 1:
			g.Comps = []GComp{{0, 0}}
		case 2:
			g.Comps = []GComp{{0x17, 0x1FFFFFFFF}, {0xE8, 1}}
		}
		switch c.next(3) {
		case 1:
			g.Dur = p64(0)
		case 2:
			g.Dur = p64(0x0123456789)
		}
		switch c.next(4) {
		case 1:
			g.UPIDs = []UPID{upidText}
		case 2:
			g.UPIDs = []UPID{{0x0C, []byte("DISCxyz")}}
		case 3:
			g.UPIDs = []UPID{upidText, {0x08, []byte{1, 2, 3, 4, 5, 6, 7, 8}}}
		}
		if wide {
			g.TypeID = c.u32(0, 1, 0x10, 0x30, 0x34, 0x36, 0x38, 0x3A, 0x44, 0x46, 0xFF)
		} else {
			g.TypeID = c.u32(0, 0x10, 0x36)
		}
		if subSegType(g.TypeID) {
			switch c.next(5) {
			case 1:
				g.SubNum, g.SubExpec = p32(0), p32(0)
			case 2:
				g.SubNum, g.SubExpec = p32(3), p32(4)
			case 3:
				g.SubNum, g.SubExpec = p32(3), p32(0)
			case 4:
				g.SubNum, g.SubExpec = p32(0), p32(4)
			}
		}
		g.Num, g.Expected = c.u32(0, 2), c.u32(0, 5)
		if c.flag() {
			return hdr(&CTime{p64(1)}, &DAvail{1}, g, &DAvail{2})
		}
		return hdr(&CTime{p64(1)}, g)
	}
}

func headerCube(wide bool) func(*counter) *Sec {
	return func(c *counter) *Sec {
		m := &Sec{SAP: c.u32(0, 1, 3), Proto: c.u32(0, 1), EncAlg: c.u32(0, 1, 0x3F), CW: c.u32(0, 1, 0xFF), Tier: c.u32(0, 0xFFF), PTSAdj: []uint64{0, 0x12345}[c.next(2)]}
		switch c.next(4) {
		case 0:
			m.Cmd = &CNull{}
		case 1:
			m.Cmd = &CTime{p64(0)}
		case 2:
			i := insBase()
			i.Prog = &ProgT{}
			m.Cmd = i
		case 3:
			m.Cmd = &CPriv{Ident: 0, Bytes: []byte{0}}
		}
		n := 3
		if wide {
			n = 5
		}
		switch c.next(n) {
		case 1:
			m.Desc = []Desc{segBase()}
		case 2:
			m.Desc = []Desc{&DPriv{0, 0, nil}, &DAvail{0}}
		case 3:
			m.Desc = []Desc{&DDTMF{0, ""}}
		case 4:
			m.Desc = []Desc{&DTime{0, 0, 0}, &DAudio{}}
		}
		switch c.next(3) {
		case 1:
			m.Stuff = []byte{0}
		case 2:
			m.Stuff = []byte{0xFF, 1, 2, 3, 4}
		}
		return m
	}
}

// smallParts: every combination of small values in the plain descriptors.
func smallParts(c *counter) *Sec {
	var d Desc
	switch c.next(5) {
	case 0:
		d = &DAvail{c.u32(0, 1, 0xFFFFFFFF)}
	case 1:
		d = &DDTMF{c.u32(0, 1, 255), []string{"", "0", "#*", "1234567"}[c.next(4)]}
	case 2:
		d = &DTime{[]uint64{0, 1, 1<<48 - 1}[c.next(3)], c.u32(0, 1, 0xFFFFFFFF), c.u32(0, 1, 0xFFFF)}
	case 3:
		a := &DAudio{}
		for i := c.next(3); i > 0; i-- {
			a.Ch = append(a.Ch, AudioCh{c.u32(0, 0xFF), []string{"eng", "qaa"}[c.next(2)], c.u32(0, 7), c.u32(0, 15), c.flag()})
		}
		d = a
	case 4:
		d = &DPriv{c.u32(0, 2, 0xFF), c.u32(0, 1, 0x43554548), [][]byte{nil, {0}, {0xFF, 0}}[c.next(3)]}
	}
	switch c.next(3) {
	case 1:
		return hdr(&CTime{}, d, segBase())
	case 2:
		return hdr(&CTime{}, segBase(), d)
	}
	return hdr(&CTime{}, d)
}

func cubes(wide bool, yield yieldFn) bool {
	return product(insCube(wide), "splice_insert product", yield) && product(eventCube(wide), "splice_schedule product", yield) &&
		product(segCube(wide), "segmentation product", yield) && product(headerCube(wide), "header and parts product", yield) &&
		product(smallParts, "descriptor product", yield)
}
