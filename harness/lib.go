package main

import (
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// ---- UPID conversions (independent of the implementation) ----

// upidForm describes how a UPID of the given type and bytes is presented.
type upidForm struct {
	Type   uint32
	Format string
	FI     *uint32
	Value  string
}

func upidIsText(u UPID) bool {
	switch u.Type {
	case 0x0A, 0x06, 0x05, 0x0C, 0x08:
		return false
	}
	return true
}

func latin1(b []byte) string {
	rs := make([]rune, len(b))
	for i, x := range b {
		rs[i] = rune(x)
	}
	return string(rs)
}

func upidPresent(u UPID) upidForm {
	f := upidForm{Type: u.Type, Format: "text"}
	switch u.Type {
	case 0x0A: // EIDR
		if len(u.Raw) == 12 {
			h := strings.ToUpper(fmt.Sprintf("%x", u.Raw[2:]))
			f.Value = "10." + strconv.Itoa(int(u.Raw[0])<<8|int(u.Raw[1])) + "/" +
				h[0:4] + "-" + h[4:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20]
		} else if strings.Contains(string(u.Raw), "/") {
			f.Value = string(u.Raw)
		}
	case 0x05, 0x06:
		f.Format = "base-64"
		f.Value = base64.StdEncoding.EncodeToString(u.Raw)
	case 0x0C:
		f.Format = "base-64"
		var fi [4]byte
		n := copy(fi[:], u.Raw)
		f.FI = p32(binary.BigEndian.Uint32(fi[:]))
		f.Value = base64.StdEncoding.EncodeToString(u.Raw[n:])
	case 0x08:
		f.Value = new(big.Int).SetBytes(u.Raw).String()
	default:
		f.Value = latin1(u.Raw)
	}
	return f
}

// upidWellFormed: the UPID's bytes have a presentation that determines them.
func upidWellFormed(u UPID) bool {
	switch u.Type {
	case 0x0A:
		return len(u.Raw) == 12
	case 0x0C:
		return len(u.Raw) >= 4
	case 0x08:
		return len(u.Raw) == 8
	}
	return true
}

// ---- model -> library structs ----

func (f upidForm) lib() scte35.SegmentationUPID {
	return scte35.SegmentationUPID{Type: f.Type, Format: f.Format, FormatIdentifier: f.FI, Value: f.Value}
}

func libBreak(b *Brk) *scte35.BreakDuration {
	if b == nil {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: b.Auto, Duration: b.Dur}
}

func cpp64(p *uint64) *uint64 {
	if p == nil {
		return nil
	}
	return p64(*p)
}
func cpp32(p *uint32) *uint32 {
	if p == nil {
		return nil
	}
	return p32(*p)
}

const gpsEpoch = 315964800

func utc(sec uint32) scte35.UTCSpliceTime {
	return scte35.UTCSpliceTime{Time: time.Unix(int64(sec)+gpsEpoch, 0).UTC()}
}

func libCmd(c Cmd) scte35.SpliceCommand {
	switch c := c.(type) {
	case nil:
		return nil
	case *CNull:
		return &scte35.SpliceNull{}
	case *CBW:
		return &scte35.BandwidthReservation{}
	case *CTime:
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: cpp64(c.PTS)}}
	case *CPriv:
		return &scte35.PrivateCommand{Identifier: c.Ident, PrivateBytes: cp(c.Bytes)}
	case *CInsert:
		x := &scte35.SpliceInsert{SpliceEventID: c.ID, SpliceEventCancelIndicator: c.Cancel,
			SpliceImmediateFlag: c.Imm, OutOfNetworkIndicator: c.OON, UniqueProgramID: c.UniqueID,
			AvailNum: c.Avail, AvailsExpected: c.Expects, BreakDuration: libBreak(c.Break)}
		if c.Prog != nil {
			x.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: cpp64(c.Prog.PTS)}}
		}
		for _, k := range c.Comps {
			y := scte35.SpliceInsertComponent{Tag: k.Tag}
			if k.HasST || k.PTS != nil {
				y.SpliceTime = &scte35.SpliceTime{PTSTime: cpp64(k.PTS)}
			}
			x.Components = append(x.Components, y)
		}
		return x
	case *CSched:
		x := &scte35.SpliceSchedule{}
		for _, e := range c.Events {
			y := scte35.Event{BreakDuration: libBreak(e.Break), SpliceEventID: e.ID, SpliceEventCancelIndicator: e.Cancel,
				EventIDComplianceFlag: e.Compl, OutOfNetworkIndicator: e.OON, UniqueProgramID: e.UniqueID,
				AvailNum: e.Avail, AvailsExpected: e.Expects}
			if e.Prog != nil {
				y.Program = &scte35.EventProgram{UTCSpliceTime: utc(*e.Prog)}
			}
			for _, k := range e.Comps {
				y.Components = append(y.Components, scte35.EventComponent{Tag: k.Tag, UTCSpliceTime: utc(k.UTC)})
			}
			x.Events = append(x.Events, y)
		}
		return x
	}
	panic("libCmd")
}

func libDesc(d Desc) scte35.SpliceDescriptor {
	switch d := d.(type) {
	case *DAvail:
		return &scte35.AvailDescriptor{ProviderAvailID: d.ID}
	case *DDTMF:
		return &scte35.DTMFDescriptor{Preroll: d.Preroll, DTMFChars: d.Chars}
	case *DTime:
		return &scte35.TimeDescriptor{TAISeconds: d.Sec, TAINS: d.NS, UTCOffset: d.Offset}
	case *DPriv:
		return &scte35.PrivateDescriptor{PrivateTag: d.Tag, Identifier: d.Ident, PrivateBytes: cp(d.Bytes)}
	case *DAudio:
		x := &scte35.AudioDescriptor{}
		for _, c := range d.Ch {
			x.AudioChannels = append(x.AudioChannels, scte35.AudioChannel{ComponentTag: c.Tag, ISOCode: c.ISO,
				BitStreamMode: c.Mode, NumChannels: c.Chan, FullSrvcAudio: c.Full})
		}
		return x
	case *DSeg:
		x := &scte35.SegmentationDescriptor{SegmentationEventID: d.ID, SegmentationEventCancelIndicator: d.Cancel,
			SegmentationEventIDComplianceIndicator: d.Compl, SegmentationDuration: cpp64(d.Dur), SegmentationTypeID: d.TypeID,
			SegmentNum: d.Num, SegmentsExpected: d.Expected, SubSegmentNum: cpp32(d.SubNum), SubSegmentsExpected: cpp32(d.SubExpec)}
		if r := d.Restr; r != nil {
			x.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: r.Archive, WebDeliveryAllowedFlag: r.Web,
				NoRegionalBlackoutFlag: r.NoBlackout, DeviceRestrictions: r.Device}
		}
		for _, c := range d.Comps {
			x.Components = append(x.Components, scte35.SegmentationDescriptorComponent{Tag: c.Tag, PTSOffset: c.Offset})
		}
		for _, u := range d.UPIDs {
			x.SegmentationUPIDs = append(x.SegmentationUPIDs, upidPresent(u).lib())
		}
		return x
	}
	panic("libDesc")
}

// lib builds the library section for m. Alignment stuffing has no public
// field and is left out.
func lib(m *Sec) *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{SAPType: m.SAP, PreRollMilliSeconds: m.PreRoll, PTSAdjustment: m.PTSAdj,
		ProtocolVersion: m.Proto, Tier: m.Tier,
		EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: m.EncAlg, CWIndex: m.CW}}
	if m.Cmd != nil {
		s.SpliceCommand = libCmd(m.Cmd)
	}
	for _, d := range m.Desc {
		s.SpliceDescriptors = append(s.SpliceDescriptors, libDesc(d))
	}
	return s
}

// ---- canonical dump of the public state of any library value ----

var timeType = reflect.TypeOf(time.Time{})

// dump renders the exported state of v. Bookkeeping fields (XMLName,
// JSONType) are skipped, nil and empty slices are the same, times are
// instants.
func dump(v any) string {
	b := make([]byte, 0, 512)
	return string(dumpTo(b, reflect.ValueOf(v)))
}

var skipField = map[reflect.Type][]int{}

func fieldsOf(t reflect.Type) []int {
	var fs []int
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || f.Name == "XMLName" || f.Name == "JSONType" {
			continue
		}
		fs = append(fs, i)
	}
	return fs
}

func dumpTo(b []byte, v reflect.Value) []byte {
	if !v.IsValid() {
		return append(b, "nil"...)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return dumpTo(append(b, '&'), v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return dumpTo(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		if t == timeType {
			return strconv.AppendInt(append(b, '@'), v.Interface().(time.Time).UnixNano(), 10)
		}
		b = append(b, t.Name()...)
		b = append(b, '{')
		for _, i := range fieldsOf(t) {
			b = append(b, t.Field(i).Name...)
			b = append(b, '=')
			b = dumpTo(b, v.Field(i))
			b = append(b, ' ')
		}
		return append(b, '}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, fmt.Sprintf("x%x", v.Bytes())...)
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = dumpTo(b, v.Index(i))
			b = append(b, ',')
		}
		return append(b, ']')
	case reflect.String:
		return strconv.AppendQuote(b, v.String())
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.AppendUint(b, v.Uint(), 10)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	}
	return append(b, fmt.Sprintf("?%v", v.Kind())...)
}

// diff shows where two dumps part.
func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("got ...%s... want ...%s...", cut(got), cut(want))
}

func errClass(err error) eclass {
	switch {
	case err == nil:
		return eOK
	case errors.Is(err, scte35.ErrBufferUnderflow):
		return eUnder
	case errors.Is(err, scte35.ErrBufferOverflow):
		return eOver
	case errors.Is(err, scte35.ErrCRC32Invalid):
		return eCRC
	}
	return 99
}
