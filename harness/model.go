package main

// Reference model of a splice_info_section: plain data, independent of the
// implementation under check. A model section is one state of the explored
// space; the reference codec (refenc.go / refdec.go) gives its wire form.

// Sec is a splice_info_section.
type Sec struct {
	SAP, Proto, EncAlg, CW, Tier uint32
	PreRoll                      uint32
	PTSAdj                       uint64
	Cmd                          Cmd
	Desc                         []Desc
	Stuff                        []byte
}

// Cmd is a splice command.
type Cmd interface{ wireType() uint32 }

// CNull is splice_null.
type CNull struct{}

// CBW is bandwidth_reservation.
type CBW struct{}

// CSched is splice_schedule.
type CSched struct{ Events []SEvent }

// SEvent is one scheduled event.
type SEvent struct {
	ID                       uint32
	Cancel, Compl, OON       bool
	Prog                     *uint32 // GPS seconds
	Comps                    []SComp
	Break                    *Brk
	UniqueID, Avail, Expects uint32
}

// SComp is a component of a scheduled event.
type SComp struct{ Tag, UTC uint32 }

// Brk is break_duration.
type Brk struct {
	Auto bool
	Dur  uint64
}

// CInsert is splice_insert.
type CInsert struct {
	ID                       uint32
	Cancel, OON, Imm         bool
	Prog                     *ProgT
	Comps                    []IComp
	Break                    *Brk
	UniqueID, Avail, Expects uint32
}

// ProgT is the program splice point.
type ProgT struct{ PTS *uint64 }

// IComp is a component of a splice_insert. HasST without PTS is an explicit
// but unspecified splice_time.
type IComp struct {
	Tag   uint32
	HasST bool
	PTS   *uint64
}

// CTime is time_signal.
type CTime struct{ PTS *uint64 }

// CPriv is private_command, or any command of an unrecognised type.
type CPriv struct {
	Ident uint32
	Bytes []byte
	Type  uint32 // wire type, 0 means 0xFF
}

func (*CNull) wireType() uint32   { return 0 }
func (*CSched) wireType() uint32  { return 4 }
func (*CInsert) wireType() uint32 { return 5 }
func (*CTime) wireType() uint32   { return 6 }
func (*CBW) wireType() uint32     { return 7 }
func (c *CPriv) wireType() uint32 {
	if c.Type != 0 {
		return c.Type
	}
	return 0xFF
}

// Desc is a splice descriptor.
type Desc interface{ wireTag() uint32 }

// DAvail is avail_descriptor.
type DAvail struct{ ID uint32 }

// DDTMF is DTMF_descriptor.
type DDTMF struct {
	Preroll uint32
	Chars   string
}

// DSeg is segmentation_descriptor.
type DSeg struct {
	ID               uint32
	Cancel, Compl    bool
	Restr            *Restr
	Comps            []GComp
	Dur              *uint64
	UPIDs            []UPID
	ForceMID         bool // wrap in MID() whatever the number of UPIDs (wire only)
	TypeID           uint32
	Num, Expected    uint32
	SubNum, SubExpec *uint32
}

// Restr is the delivery restriction flags.
type Restr struct {
	Archive, Web, NoBlackout bool
	Device                   uint32
}

// GComp is a segmentation component.
type GComp struct {
	Tag    uint32
	Offset uint64
}

// UPID carries the raw wire bytes of a segmentation_upid.
type UPID struct {
	Type uint32
	Raw  []byte
}

// DTime is time_descriptor.
type DTime struct {
	Sec    uint64
	NS     uint32
	Offset uint32
}

// DAudio is audio_descriptor.
type DAudio struct{ Ch []AudioCh }

// AudioCh is one audio channel.
type AudioCh struct {
	Tag        uint32
	ISO        string
	Mode, Chan uint32
	Full       bool
}

// DPriv is a private or unrecognised descriptor.
type DPriv struct {
	Tag, Ident uint32
	Bytes      []byte
}

func (*DAvail) wireTag() uint32  { return 0 }
func (*DDTMF) wireTag() uint32   { return 1 }
func (*DSeg) wireTag() uint32    { return 2 }
func (*DTime) wireTag() uint32   { return 3 }
func (*DAudio) wireTag() uint32  { return 4 }
func (d *DPriv) wireTag() uint32 { return d.Tag }

const cuei = 0x43554549

func p64(v uint64) *uint64 { return &v }
func p32(v uint32) *uint32 { return &v }

// subSegTypes are the segmentation types that may carry sub-segment numbers.
func subSegType(t uint32) bool {
	switch t {
	case 0x30, 0x32, 0x34, 0x36, 0x38, 0x3A, 0x44, 0x46:
		return true
	}
	return false
}

// onWire returns what of m a wire section can carry: fields that the syntax
// does not transmit in this configuration are dropped (deep enough to be
// modified freely at the levels it rewrites).
func (m *Sec) onWire() *Sec {
	o := *m
	o.PreRoll = 0
	switch c := m.Cmd.(type) {
	case *CInsert:
		n := *c
		if n.Cancel {
			n = CInsert{ID: c.ID, Cancel: true}
		} else if n.Prog != nil {
			n.Comps = nil
			if n.Imm {
				n.Prog = &ProgT{}
			}
		} else {
			n.Comps = nil
			for _, x := range c.Comps {
				if n.Imm || x.PTS == nil {
					x = IComp{Tag: x.Tag}
				} else {
					x.HasST = true
				}
				n.Comps = append(n.Comps, x)
			}
		}
		o.Cmd = &n
	case *CSched:
		n := &CSched{}
		for _, e := range c.Events {
			if e.Cancel {
				e = SEvent{ID: e.ID, Cancel: true, Compl: e.Compl}
			} else if e.Prog != nil {
				e.Comps = nil
			}
			n.Events = append(n.Events, e)
		}
		o.Cmd = n
	}
	o.Desc = nil
	for _, d := range m.Desc {
		if s, ok := d.(*DSeg); ok && s.Cancel {
			d = &DSeg{ID: s.ID, Cancel: true, Compl: s.Compl}
		}
		o.Desc = append(o.Desc, d)
	}
	return &o
}
