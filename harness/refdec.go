package main

// Reference decoder: the wire syntax read the way the library documents it
// (section_length is informative, table_id and reserved bits are ignored,
// splice_command_length 0xFFF is the legacy "unknown length"). Bits past the
// end of a fragment read as zero and make the fragment an overflow; bits left
// over make it an underflow.

type eclass uint8

const (
	eOK eclass = iota
	eUnder
	eOver
	eCRC
)

func (e eclass) String() string {
	return [...]string{"ok", "buffer underflow", "buffer overflow", "CRC_32 not valid"}[e]
}

type br struct {
	b []byte
	i int // bit index, may run past the end
}

func (r *br) u(w int) uint64 {
	var v uint64
	for k := 0; k < w; k++ {
		v <<= 1
		if r.i>>3 < len(r.b) && r.b[r.i>>3]&(0x80>>(r.i&7)) != 0 {
			v |= 1
		}
		r.i++
	}
	return v
}
func (r *br) u32(w int) uint32 { return uint32(r.u(w)) }
func (r *br) bit() bool        { return r.u(1) == 1 }
func (r *br) skip(w int)       { r.i += w }
func (r *br) left() int {
	if r.i >= 8*len(r.b) {
		return 0
	}
	return 8*len(r.b) - r.i
}
func (r *br) rest() []byte {
	if r.i>>3 >= len(r.b) {
		return nil
	}
	return r.b[r.i>>3:]
}

// take returns up to n bytes; a short fragment is noticed by whoever parses
// it.
func (r *br) take(n int) []byte {
	p := r.rest()
	if n > len(p) {
		n = len(p)
	}
	r.i += 8 * n
	return p[:n]
}
func (r *br) class() eclass {
	if r.left() > 0 {
		return eUnder
	}
	if r.i > 8*len(r.b) {
		return eOver
	}
	return eOK
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

type decResult struct {
	m       *Sec
	class   eclass   // eOK: accepted
	classes []eclass // every class an error may report (several faulty descriptors)
	encBit  bool
	where   string
}

func readTime(r *br) *uint64 {
	if r.bit() {
		r.skip(6)
		return p64(r.u(33))
	}
	r.skip(7)
	return nil
}

func readBreak(r *br) *Brk {
	b := &Brk{Auto: r.bit()}
	r.skip(6)
	b.Dur = r.u(33)
	return b
}

// decCmd decodes a command and returns how many bits it used.
func decCmd(typ uint32, b []byte) (Cmd, int, eclass) {
	r := &br{b: b}
	var c Cmd
	switch typ {
	case 0:
		c = &CNull{}
	case 7:
		c = &CBW{}
	case 4:
		s := &CSched{}
		c = s
		n := int(r.u(8))
		for i := 0; i < n; i++ {
			e := SEvent{ID: r.u32(32), Cancel: r.bit(), Compl: !r.bit()}
			r.skip(6)
			if !e.Cancel {
				e.OON = r.bit()
				prog, dur := r.bit(), r.bit()
				r.skip(5)
				if prog {
					e.Prog = p32(r.u32(32))
				} else {
					k := int(r.u(8))
					for j := 0; j < k; j++ {
						e.Comps = append(e.Comps, SComp{r.u32(8), r.u32(32)})
					}
				}
				if dur {
					e.Break = readBreak(r)
				}
				e.UniqueID, e.Avail, e.Expects = r.u32(16), r.u32(8), r.u32(8)
			}
			s.Events = append(s.Events, e)
		}
	case 5:
		s := &CInsert{ID: r.u32(32), Cancel: r.bit()}
		c = s
		r.skip(7)
		if !s.Cancel {
			s.OON = r.bit()
			prog, dur := r.bit(), r.bit()
			s.Imm = r.bit()
			r.skip(4)
			if prog {
				s.Prog = &ProgT{}
				if !s.Imm {
					s.Prog.PTS = readTime(r)
				}
			} else {
				k := int(r.u(8))
				for j := 0; j < k; j++ {
					x := IComp{Tag: r.u32(8)}
					if !s.Imm {
						x.PTS = readTime(r)
						x.HasST = x.PTS != nil
					}
					s.Comps = append(s.Comps, x)
				}
			}
			if dur {
				s.Break = readBreak(r)
			}
			s.UniqueID, s.Avail, s.Expects = r.u32(16), r.u32(8), r.u32(8)
		}
	case 6:
		c = &CTime{PTS: readTime(r)}
	default:
		p := &CPriv{Type: typ}
		c = p
		p.Ident = r.u32(32)
		p.Bytes = cp(r.rest())
		r.skip(8 * len(p.Bytes))
	}
	return c, r.i, r.class()
}

// decDesc decodes one descriptor fragment (tag and length included).
func decDesc(tag, ident uint32, b []byte) (Desc, eclass) {
	r := &br{b: b}
	if ident != cuei || tag > 4 {
		p := &DPriv{Tag: r.u32(8)}
		r.skip(8)
		p.Ident = r.u32(32)
		p.Bytes = cp(r.rest())
		r.skip(8 * len(p.Bytes))
		if p.Ident != ident && r.class() == eOK {
			panic("refdec: identifier")
		}
		return p, r.class()
	}
	r.skip(48)
	var d Desc
	switch tag {
	case 0:
		d = &DAvail{r.u32(32)}
	case 1:
		x := &DDTMF{Preroll: r.u32(8)}
		n := int(r.u(3))
		r.skip(5)
		// a short fragment is not noticed by a bounded byte read: compare explicitly
		p := r.take(n)
		x.Chars = string(p)
		d = x
		if len(p) < n && r.class() == eOK {
			// library behaviour: accepted with the characters present
			return d, eOver
		}
	case 3:
		d = &DTime{Sec: r.u(48), NS: r.u32(32), Offset: r.u32(16)}
	case 4:
		x := &DAudio{}
		n := int(r.u(4))
		r.skip(4)
		for i := 0; i < n; i++ {
			c := AudioCh{Tag: r.u32(8)}
			c.ISO = string(r.take(3))
			c.Mode, c.Chan, c.Full = r.u32(3), r.u32(4), r.bit()
			x.Ch = append(x.Ch, c)
		}
		d = x
	case 2:
		x := &DSeg{ID: r.u32(32), Cancel: r.bit(), Compl: !r.bit()}
		d = x
		r.skip(6)
		if x.Cancel {
			break
		}
		prog, dur, unrestricted := r.bit(), r.bit(), r.bit()
		if unrestricted {
			r.skip(5)
		} else {
			x.Restr = &Restr{Web: r.bit(), NoBlackout: r.bit(), Archive: r.bit(), Device: r.u32(2)}
		}
		if !prog {
			k := int(r.u(8))
			for i := 0; i < k; i++ {
				c := GComp{Tag: r.u32(8)}
				r.skip(7)
				c.Offset = r.u(33)
				x.Comps = append(x.Comps, c)
			}
		}
		if dur {
			x.Dur = p64(r.u(40))
		}
		ut, ul := r.u32(8), int(r.u(8))
		if ul > 0 {
			p := r.take(ul)
			if ut == 0x0D {
				x.ForceMID = true
				in := &br{b: p}
				for in.left() > 0 {
					t, n := in.u32(8), int(in.u(8))
					x.UPIDs = append(x.UPIDs, UPID{t, cp(in.take(n))})
				}
			} else {
				x.UPIDs = []UPID{{ut, cp(p)}}
			}
		}
		x.TypeID, x.Num, x.Expected = r.u32(8), r.u32(8), r.u32(8)
		if r.left() == 16 && subSegType(x.TypeID) {
			x.SubNum, x.SubExpec = p32(r.u32(8)), p32(r.u32(8))
		}
	}
	return d, r.class()
}

func decode(b []byte) decResult {
	r := &br{b: b}
	m := &Sec{}
	res := decResult{m: m}
	r.skip(10)
	m.SAP = r.u32(2)
	r.skip(12)
	m.Proto = r.u32(8)
	res.encBit = r.bit()
	m.EncAlg = r.u32(6)
	m.PTSAdj = r.u(33)
	m.CW = r.u32(8)
	m.Tier = r.u32(12)
	n := int(r.u(12))
	typ := r.u32(8)
	var cl eclass
	if n == 0xFFF {
		var used int
		m.Cmd, used, cl = decCmd(typ, r.rest())
		if cl == eOver {
			res.class, res.classes, res.where = cl, []eclass{cl}, "command"
			return res
		}
		r.skip(used)
	} else {
		m.Cmd, _, cl = decCmd(typ, r.take(n))
		if cl != eOK {
			res.class, res.classes, res.where = cl, []eclass{cl}, "command"
			return res
		}
	}
	ll := int(r.u(16))
	avail := len(r.rest())
	lr := &br{b: r.take(ll)}
	for lr.left() > 0 {
		pk := *lr
		tag, dl, id := pk.u32(8), int(pk.u(8)), pk.u32(32)
		short := lr.left() < 8*(dl+2)
		d, c := decDesc(tag, id, lr.take(dl+2))
		if c == eOK && short {
			c = eOver
		}
		if c != eOK {
			res.class = c
			res.classes = append(res.classes, c)
			if short {
				res.classes = append(res.classes, eOver)
			}
			res.where = "descriptor"
		}
		m.Desc = append(m.Desc, d)
	}
	if ll > avail && res.class == eOK {
		res.class, res.classes, res.where = eOver, []eclass{eOver}, "loop"
	}
	if res.class != eOK {
		return res
	}
	tail := 4
	if res.encBit {
		tail = 8
	}
	if r.i > 8*len(b) || len(r.rest()) < tail {
		res.class, res.classes, res.where = eOver, []eclass{eOver}, "tail"
		return res
	}
	m.Stuff = cp(r.take(len(r.rest()) - tail))
	if !crcValid(b) {
		res.class, res.classes, res.where = eCRC, []eclass{eCRC}, "crc"
	}
	return res
}

func crcValid(b []byte) bool {
	if len(b) < 4 {
		return false
	}
	n := len(b)
	c := crcFast(b[:n-4])
	return b[n-4] == byte(c>>24) && b[n-3] == byte(c>>16) && b[n-2] == byte(c>>8) && b[n-1] == byte(c)
}
