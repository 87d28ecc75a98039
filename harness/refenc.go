package main

// Reference encoder, written from ANSI/SCTE 35 2022b tables 5-27.

type fkind uint8

const (
	fVal fkind = iota
	fFlag
	fRes   // reserved bits
	fLen   // byte length or element count
	fType  // type, tag or identifier selecting the syntax
	fConst // constant header field
	fBytes
	fECRC
	fCRC
)

type field struct {
	name   string
	off, w int // bits
	kind   fkind
}

type bw struct {
	b      []byte
	n      int
	fields []field
	rec    bool
}

func (w *bw) put(name string, kind fkind, width int, v uint64) {
	if w.rec {
		w.fields = append(w.fields, field{name, w.n, width, kind})
	}
	for i := width - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if i < 64 && v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
}

func (w *bw) val(name string, width int, v uint64)   { w.put(name, fVal, width, v) }
func (w *bw) length(name string, width int, v int)   { w.put(name, fLen, width, uint64(v)) }
func (w *bw) typ(name string, width int, v uint64)   { w.put(name, fType, width, v) }
func (w *bw) konst(name string, width int, v uint64) { w.put(name, fConst, width, v) }
func (w *bw) res(width int)                          { w.put("reserved", fRes, width, ^uint64(0)) }
func (w *bw) flag(name string, v bool) {
	x := uint64(0)
	if v {
		x = 1
	}
	w.put(name, fFlag, 1, x)
}
func (w *bw) bytes(name string, p []byte) {
	if w.n%8 != 0 {
		panic("refenc: bytes not aligned")
	}
	if w.rec && len(p) > 0 {
		w.fields = append(w.fields, field{name, w.n, len(p) * 8, fBytes})
	}
	w.b = append(w.b, p...)
	w.n += 8 * len(p)
}

// nest appends a separately built fragment.
func (w *bw) nest(prefix string, x *bw) {
	if w.rec {
		for _, f := range x.fields {
			f.off += w.n
			f.name = prefix + f.name
			w.fields = append(w.fields, f)
		}
	}
	w.b = append(w.b, x.b...)
	w.n += 8 * len(x.b)
}

// crc is the MPEG-2 CRC_32, computed bit by bit.
func crc(b []byte) uint32 {
	c := uint32(0xFFFFFFFF)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

var crcTab = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// crcFast is crc with a table derived from the polynomial (same function,
// cross-checked at start-up).
func crcFast(b []byte) uint32 {
	c := uint32(0xFFFFFFFF)
	for _, x := range b {
		c = c<<8 ^ crcTab[byte(c>>24)^x]
	}
	return c
}

func init() {
	p := []byte{}
	for i := 0; i < 1024; i++ {
		p = append(p, byte(i*7+i>>3))
	}
	if crc(p) != crcFast(p) {
		panic("reference CRC self-check")
	}
	if crcFast([]byte("123456789")) != 0x0376E6E7 { // CRC-32/MPEG-2 check value
		panic("reference CRC check value")
	}
}

// putCRC stores the right CRC_32 in the last four bytes.
func putCRC(b []byte) {
	if len(b) < 4 {
		return
	}
	c := crcFast(b[:len(b)-4])
	n := len(b)
	b[n-4], b[n-3], b[n-2], b[n-1] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
}

type encOpt struct {
	rec     bool
	legacy  bool // splice_command_length 0xFFF
	encFlag bool // set encrypted_packet although encryption_algorithm is 0
}

func spliceTime(w *bw, pts *uint64) {
	if pts != nil {
		w.flag("time_specified_flag", true)
		w.res(6)
		w.val("pts_time", 33, *pts)
	} else {
		w.flag("time_specified_flag", false)
		w.res(7)
	}
}

func breakDur(w *bw, b *Brk) {
	w.flag("auto_return", b.Auto)
	w.res(6)
	w.val("duration", 33, b.Dur)
}

func encCmd(c Cmd, rec bool) *bw {
	w := &bw{rec: rec}
	switch c := c.(type) {
	case *CNull, *CBW:
	case *CTime:
		spliceTime(w, c.PTS)
	case *CPriv:
		w.val("identifier", 32, uint64(c.Ident))
		w.bytes("private_byte", c.Bytes)
	case *CInsert:
		w.val("splice_event_id", 32, uint64(c.ID))
		w.flag("splice_event_cancel_indicator", c.Cancel)
		w.res(7)
		if c.Cancel {
			break
		}
		w.flag("out_of_network_indicator", c.OON)
		w.flag("program_splice_flag", c.Prog != nil)
		w.flag("duration_flag", c.Break != nil)
		w.flag("splice_immediate_flag", c.Imm)
		w.res(4)
		if c.Prog != nil {
			if !c.Imm {
				spliceTime(w, c.Prog.PTS)
			}
		} else {
			w.length("component_count", 8, len(c.Comps))
			for _, x := range c.Comps {
				w.val("component_tag", 8, uint64(x.Tag))
				if !c.Imm {
					spliceTime(w, x.PTS)
				}
			}
		}
		if c.Break != nil {
			breakDur(w, c.Break)
		}
		w.val("unique_program_id", 16, uint64(c.UniqueID))
		w.val("avail_num", 8, uint64(c.Avail))
		w.val("avails_expected", 8, uint64(c.Expects))
	case *CSched:
		w.length("splice_count", 8, len(c.Events))
		for _, e := range c.Events {
			w.val("splice_event_id", 32, uint64(e.ID))
			w.flag("splice_event_cancel_indicator", e.Cancel)
			w.flag("event_id_compliance_flag", !e.Compl)
			w.res(6)
			if e.Cancel {
				continue
			}
			w.flag("out_of_network_indicator", e.OON)
			w.flag("program_splice_flag", e.Prog != nil)
			w.flag("duration_flag", e.Break != nil)
			w.res(5)
			if e.Prog != nil {
				w.val("utc_splice_time", 32, uint64(*e.Prog))
			} else {
				w.length("component_count", 8, len(e.Comps))
				for _, x := range e.Comps {
					w.val("component_tag", 8, uint64(x.Tag))
					w.val("utc_splice_time", 32, uint64(x.UTC))
				}
			}
			if e.Break != nil {
				breakDur(w, e.Break)
			}
			w.val("unique_program_id", 16, uint64(e.UniqueID))
			w.val("avail_num", 8, uint64(e.Avail))
			w.val("avails_expected", 8, uint64(e.Expects))
		}
	default:
		panic("refenc: unknown command")
	}
	return w
}

func encDescBody(d Desc, o encOpt) *bw {
	w := &bw{rec: o.rec}
	ident := uint64(cuei)
	if p, ok := d.(*DPriv); ok {
		ident = uint64(p.Ident)
	}
	w.typ("identifier", 32, ident)
	switch d := d.(type) {
	case *DAvail:
		w.val("provider_avail_id", 32, uint64(d.ID))
	case *DDTMF:
		w.val("preroll", 8, uint64(d.Preroll))
		w.length("dtmf_count", 3, len(d.Chars))
		w.res(5)
		w.bytes("DTMF_char", []byte(d.Chars))
	case *DTime:
		w.val("TAI_seconds", 48, d.Sec)
		w.val("TAI_ns", 32, uint64(d.NS))
		w.val("UTC_offset", 16, uint64(d.Offset))
	case *DAudio:
		w.length("audio_count", 4, len(d.Ch))
		w.res(4)
		for _, c := range d.Ch {
			w.val("component_tag", 8, uint64(c.Tag))
			w.bytes("ISO_code", []byte(c.ISO))
			w.val("bit_stream_mode", 3, uint64(c.Mode))
			w.val("num_channels", 4, uint64(c.Chan))
			w.flag("full_srvc_audio", c.Full)
		}
	case *DPriv:
		w.bytes("private_byte", d.Bytes)
	case *DSeg:
		w.val("segmentation_event_id", 32, uint64(d.ID))
		w.flag("segmentation_event_cancel_indicator", d.Cancel)
		w.flag("segmentation_event_id_compliance_indicator", !d.Compl)
		w.res(6)
		if d.Cancel {
			break
		}
		w.flag("program_segmentation_flag", len(d.Comps) == 0)
		w.flag("segmentation_duration_flag", d.Dur != nil)
		w.flag("delivery_not_restricted_flag", d.Restr == nil)
		if r := d.Restr; r != nil {
			w.flag("web_delivery_allowed_flag", r.Web)
			w.flag("no_regional_blackout_flag", r.NoBlackout)
			w.flag("archive_allowed_flag", r.Archive)
			w.val("device_restrictions", 2, uint64(r.Device))
		} else {
			w.res(5)
		}
		if len(d.Comps) > 0 {
			w.length("component_count", 8, len(d.Comps))
			for _, c := range d.Comps {
				w.val("component_tag", 8, uint64(c.Tag))
				w.res(7)
				w.val("pts_offset", 33, c.Offset)
			}
		}
		if d.Dur != nil {
			w.val("segmentation_duration", 40, *d.Dur)
		}
		if d.ForceMID || len(d.UPIDs) > 1 {
			in := &bw{rec: o.rec}
			for _, u := range d.UPIDs {
				p := u.Raw
				in.typ("segmentation_upid_type", 8, uint64(u.Type))
				in.length("length", 8, len(p))
				in.bytes("segmentation_upid", p)
			}
			w.typ("segmentation_upid_type", 8, 0x0D)
			w.length("segmentation_upid_length", 8, len(in.b))
			w.nest("mid.", in)
		} else if len(d.UPIDs) == 1 {
			p := d.UPIDs[0].Raw
			w.typ("segmentation_upid_type", 8, uint64(d.UPIDs[0].Type))
			w.length("segmentation_upid_length", 8, len(p))
			w.bytes("segmentation_upid", p)
		} else {
			w.typ("segmentation_upid_type", 8, 0)
			w.length("segmentation_upid_length", 8, 0)
		}
		w.typ("segmentation_type_id", 8, uint64(d.TypeID))
		w.val("segment_num", 8, uint64(d.Num))
		w.val("segments_expected", 8, uint64(d.Expected))
		if d.SubNum != nil {
			w.val("sub_segment_num", 8, uint64(*d.SubNum))
		}
		if d.SubExpec != nil {
			w.val("sub_segments_expected", 8, uint64(*d.SubExpec))
		}
	default:
		panic("refenc: unknown descriptor")
	}
	return w
}

func encDesc(d Desc, o encOpt) *bw {
	body := encDescBody(d, o)
	w := &bw{rec: o.rec}
	w.typ("splice_descriptor_tag", 8, uint64(d.wireTag()))
	w.length("descriptor_length", 8, len(body.b))
	w.nest("", body)
	return w
}

// sizes of a section, for representability.
type sizes struct {
	section, command, loop int
	desc                   []int
}

func encode(m *Sec, o encOpt) *bw {
	w, _ := encodeSizes(m, o)
	return w
}

func encodeSizes(m *Sec, o encOpt) (*bw, sizes) {
	var sz sizes
	cmd := encCmd(m.Cmd, o.rec)
	loop := &bw{rec: o.rec}
	for _, d := range m.Desc {
		x := encDesc(d, o)
		sz.desc = append(sz.desc, len(x.b)-2)
		loop.nest("d.", x)
	}
	encrypted := m.EncAlg != 0 || o.encFlag
	total := 11 + len(cmd.b) + 2 + len(loop.b) + len(m.Stuff) + 4
	if encrypted {
		total += 4
	}
	sz.section, sz.command, sz.loop = total, len(cmd.b), len(loop.b)
	w := &bw{rec: o.rec}
	w.konst("table_id", 8, 0xFC)
	w.konst("section_syntax_indicator", 1, 0)
	w.konst("private_indicator", 1, 0)
	w.val("sap_type", 2, uint64(m.SAP))
	w.konst("section_length", 12, uint64(total))
	w.val("protocol_version", 8, uint64(m.Proto))
	w.put("encrypted_packet", fFlag, 1, map[bool]uint64{true: 1}[encrypted])
	w.val("encryption_algorithm", 6, uint64(m.EncAlg))
	w.val("pts_adjustment", 33, m.PTSAdj)
	w.val("cw_index", 8, uint64(m.CW))
	w.val("tier", 12, uint64(m.Tier))
	if o.legacy {
		w.length("splice_command_length", 12, 0xFFF)
	} else {
		w.length("splice_command_length", 12, len(cmd.b))
	}
	w.typ("splice_command_type", 8, uint64(m.Cmd.wireType()))
	w.nest("cmd.", cmd)
	w.length("descriptor_loop_length", 16, len(loop.b))
	w.nest("", loop)
	w.bytes("alignment_stuffing", m.Stuff)
	if encrypted {
		// E_CRC_32 covers splice_command_type .. before E_CRC_32
		w.put("E_CRC_32", fECRC, 32, uint64(crcFast(w.b[13:])))
	}
	w.put("CRC_32", fCRC, 32, uint64(crcFast(w.b)))
	return w, sz
}

func enc(m *Sec) []byte { return encode(m, encOpt{}).b }

// representable reports whether every count and length of m fits its field.
func representable(m *Sec) bool {
	_, sz := encodeSizes(m, encOpt{})
	if sz.section > 4093 || sz.command >= 0xFFF {
		return false
	}
	for _, n := range sz.desc {
		if n > 255 {
			return false
		}
	}
	switch c := m.Cmd.(type) {
	case *CInsert:
		if !c.Cancel && c.Prog == nil && len(c.Comps) > 255 {
			return false
		}
	case *CSched:
		if len(c.Events) > 255 {
			return false
		}
		for _, e := range c.Events {
			if !e.Cancel && e.Prog == nil && len(e.Comps) > 255 {
				return false
			}
		}
	}
	for _, d := range m.Desc {
		switch d := d.(type) {
		case *DDTMF:
			if len(d.Chars) > 7 {
				return false
			}
		case *DAudio:
			if len(d.Ch) > 15 {
				return false
			}
			for _, c := range d.Ch {
				if len(c.ISO) != 3 {
					return false
				}
			}
		}
	}
	return true
}
