# Planted bugs: (id, property, [(file, old, new)...], needs, breaks, demo body, extra imports)
P = "pkg/scte35/"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, imports=()):
    BUGS.append(dict(id=id, prop=prop, edits=[(f if "/" in f else P + f, o, n) for f, o, n in edits], needs=needs, breaks=breaks, demo=demo, imports=list(imports)))

bug("C01-ptsoffset-width", "C01",
 [("segmentation_descriptor.go", "				iow.PutUint64(33, c.PTSOffset)\n", "				iow.PutBit(false)\n				iow.PutUint32(32, uint32(c.PTSOffset))\n")],
 "a segmentation component whose pts_offset needs the 33rd bit", "the top bit of pts_offset is lost when encoding",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{Components: []scte35.SegmentationDescriptorComponent{{Tag: 1, PTSOffset: 1<<32 + 5}}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if got := r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).Components[0].PTSOffset; got != 1<<32+5 { t.Fatalf("%d", got) }''')

bug("C01-event-zero-duration", "C01",
 [("splice_schedule.go", "	return e != nil && e.BreakDuration != nil\n", "	return e != nil && e.BreakDuration != nil && e.BreakDuration.Duration > 0\n")],
 "a scheduled event with a break_duration of 0 (auto_return only)", "duration_flag is cleared and the break_duration left out",
 '''	b, _ := hex.DecodeString(schedule)
	_ = b
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceSchedule{Events: []scte35.Event{{SpliceEventID: 1,
		Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)}, BreakDuration: &scte35.BreakDuration{AutoReturn: true}}}}}
	e, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(e); err != nil { t.Fatal(err) }
	if bd := r.SpliceCommand.(*scte35.SpliceSchedule).Events[0].BreakDuration; bd == nil || !bd.AutoReturn { t.Fatal("break_duration lost") }'''.replace('''	b, _ := hex.DecodeString(schedule)
	_ = b
''', ''))

bug("C02-event-carry-over", "C02",
 [("splice_schedule.go", "	for i := range spliceCount {\n		e := Event{}\n", "	var e Event\n	for i := range spliceCount {\n")],
 "a splice_schedule in which an event with a break_duration (or program time) is followed by one without", "optional parts of one event appear in the next",
 '''	ev := func(p, d bool) scte35.Event {
		e := scte35.Event{SpliceEventID: 7}
		if p { e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)} } else { e.Components = []scte35.EventComponent{{Tag: 1, UTCSpliceTime: scte35.NewUTCSpliceTime(6)}} }
		if d { e.BreakDuration = &scte35.BreakDuration{Duration: 9} }
		return e
	}
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceSchedule{Events: []scte35.Event{ev(true, true), ev(true, false)}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if r.SpliceCommand.(*scte35.SpliceSchedule).Events[1].BreakDuration != nil { t.Fatal("event 1 has no break_duration") }''')

bug("C03-ti-signed", "C03",
 [("segmentation_upid.go", '''		i, err := strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
''', '''		i, err := strconv.ParseInt(strings.TrimSpace(upid.Value), 10, 64)
'''), ("segmentation_upid.go", "		binary.BigEndian.PutUint64(b, i)\n", "		binary.BigEndian.PutUint64(b, uint64(i))\n")],
 "a TI (airing id) with its most significant bit set", "it decodes, but is encoded again as zero",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{scte35.NewSegmentationUPID(8, []byte{0xff, 1, 2, 3, 4, 5, 6, 7})}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if v := r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "18374970166623929863" { t.Fatal(v) }''')

bug("C04-ascii-value", "C04",
 [("segmentation_upid.go", "	rs := make([]byte, len(b))\n", "	rs := make([]byte, max(len(upid.Value), 4))\n")],
 "ASCIIValue of a UPID whose bytes are more than its text, such as a TI with a small value", "index out of range",
 '''	u := scte35.NewSegmentationUPID(8, []byte{0, 0, 0, 0, 0, 0, 0, 9})
	if v := u.ASCIIValue(); v != "........" { t.Fatal(v) }''')

bug("C05-zero-crc", "C05",
 [("crc_32.go", "	if calculated != crc {\n", "	if crc != 0 && calculated != crc {\n")],
 "a corrupted section whose CRC_32 reads zero", "the section is accepted",
 '''	b, err := (&scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(77), Tier: 0xfff}).Encode()
	if err != nil { t.Fatal(err) }
	copy(b[len(b)-4:], []byte{0, 0, 0, 0})
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) { t.Fatal(err) }''', ["errors"])

bug("C06-stop-at-first", "C06",
 [("splice_descriptor.go", '''			// Store the error but continue decoding the rest of the signal.
			err = derr
		}
		sds = append(sds, sd)
''', '''			// Report the descriptor at fault.
			return append(sds, sd), derr
		}
		sds = append(sds, sd)
''')],
 "a section with a faulty descriptor that is not the last one", "the descriptors after the faulty one are not decoded",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.PrivateDescriptor{PrivateTag: 0, Identifier: scte35.CUEIdentifier, PrivateBytes: []byte{1}}, &scte35.AvailDescriptor{ProviderAvailID: 3}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err == nil { t.Fatal("no error") }
	if len(r.SpliceDescriptors) != 2 { t.Fatal(len(r.SpliceDescriptors)) }''')

bug("C06-time-unchecked", "C06",
 [("time_descriptor.go", "	return readerError(r)\n", "	if err := readerError(r); errors.Is(err, ErrBufferOverflow) {\n		return err\n	}\n	return nil\n"),
  ("time_descriptor.go", 'import (\n', 'import (\n	"errors"\n')],
 "a time_descriptor longer than its syntax", "the unread bytes are not reported as a buffer underflow",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.PrivateDescriptor{PrivateTag: 3, Identifier: scte35.CUEIdentifier, PrivateBytes: make([]byte, 13)}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); !errors.Is(err, scte35.ErrBufferUnderflow) { t.Fatal(err) }''', ["errors"])

bug("C07-adjustment-sign", "C07",
 [("splice_info_section.go", "	if sis.PTSAdjustment > 0 {\n", "	if int32(sis.PTSAdjustment) != 0 {\n")],
 "a pts_adjustment of exactly 2^32", "ptsAdjustment is left out of the document",
 '''	b, err := json.Marshal(&scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, PTSAdjustment: 1 << 32})
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := json.Unmarshal(b, &r); err != nil { t.Fatal(err) }
	if r.PTSAdjustment != 1<<32 { t.Fatal(r.PTSAdjustment) }''', ["encoding/json"])

bug("C08-adjustment-32", "C08",
 [("splice_info_section.go", '''	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
''', '''	PTSAdjustment        xmlTicks              `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
'''),
  ("splice_info_section.go", '''	sis.PTSAdjustment = tmp.PTSAdjustment
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	if sis''', '''	sis.PTSAdjustment = uint64(tmp.PTSAdjustment)
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	if sis'''),
  ("splice_info_section.go", '''	sis.PTSAdjustment = tmp.PTSAdjustment
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	return nil
''', '''	sis.PTSAdjustment = uint64(tmp.PTSAdjustment)
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	return nil
'''),
  ("splice_info_section.go", '''// SpliceCommand returns the polymorphic splice_command.
''', '''// xmlTicks is a number of ticks, written as an attribute.
type xmlTicks uint64

// UnmarshalXMLAttr reads the ticks.
func (x *xmlTicks) UnmarshalXMLAttr(a xml.Attr) error {
	var n int64
	if _, err := fmt.Sscanf(a.Value, "%d", &n); err != nil {
		return err
	}
	*x = xmlTicks(uint32(n))
	return nil
}

// SpliceCommand returns the polymorphic splice_command.
''')],
 "an XML document with a ptsAdjustment of 2^32 or more", "the adjustment is read modulo 2^32",
 '''	b, err := xml.Marshal(&scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, PTSAdjustment: 1<<32 + 3})
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := xml.Unmarshal(b, &r); err != nil { t.Fatal(err) }
	if r.PTSAdjustment != 1<<32+3 { t.Fatal(r.PTSAdjustment) }''', ["encoding/xml"])

bug("C09-eidr-prefix-int16", "C09",
 [("segmentation_upid.go", "	i, err := strconv.Atoi(parts[1])\n", "	i, err := strconv.ParseInt(parts[1], 10, 16)\n")],
 "an EIDR whose registrant prefix is 32768 or more", "its canonical form is encoded as text instead of 12 bytes",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{scte35.NewSegmentationUPID(10, []byte{0x80, 0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})}}}}
	if n := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUpidLength(); n != 12 { t.Fatal(n) }''')

bug("C10-wide-ticks", "C10",
 [("table.go", '''	case *uint64:
		if vt == nil {
			return ""
		}
		return strconv.FormatUint(*vt, 10)
''', '''	case *uint64:
		if vt == nil {
			return ""
		}
		return valueString(uint(uint32(*vt)))
''')],
 "a pts_time or segmentation_duration above 32 bits", "the table shows it modulo 2^32",
 '''	tb := (&scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(1<<32 + 7)}).Table("", "")
	if !strings.Contains(tb, "pts_time: 4294967303\\n") { t.Fatal(tb) }''', ["strings"])

bug("C10-component-immediate", "C10",
 [("splice_insert.go", '''		if !cmd.ProgramSpliceFlag() {
			t.row(1, "component_count", len(cmd.Components))
''', '''		if !cmd.ProgramSpliceFlag() && len(cmd.Components) > 0 {
			t.row(1, "component_count", len(cmd.Components))
''')],
 "a component splice_insert without components", "component_count is missing from the table",
 '''	tb := (&scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{}}).Table("", "")
	if !strings.Contains(tb, "component_count: 0\\n") { t.Fatal(tb) }''', ["strings"])

bug("C11-sum-32", "C11",
 [("splice_info_section.go", '''	ticks := uint64(0)
''', '''	ticks := uint32(0)
'''), ("splice_info_section.go", "				ticks += *sdt.SegmentationDuration\n", "				ticks += uint32(*sdt.SegmentationDuration)\n"),
  ("splice_info_section.go", "	return TicksToDuration(ticks)\n", "	return TicksToDuration(uint64(ticks))\n")],
 "segmentation durations that sum up to more than 13 hours", "Duration wraps around",
 '''	d := uint64(1) << 32
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{SegmentationDuration: &d}}}
	if s.Duration() != scte35.TicksToDuration(d) { t.Fatal(s.Duration()) }''')

bug("C11-zero-break", "C11",
 [("splice_info_section.go", "		if sc.BreakDuration != nil {\n", "		if sc.BreakDuration != nil && sc.BreakDuration.Duration != 0 {\n")],
 "a splice_insert with a break_duration of 0 and a segmentation_duration", "the segmentation_duration is returned",
 '''	d := uint64(90000)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{BreakDuration: &scte35.BreakDuration{}}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{SegmentationDuration: &d}}}
	if s.Duration() != 0 { t.Fatal(s.Duration()) }''')

bug("C12-zone", "C12",
 [("scte35.go", "	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch\n", "	_, offset := t.Time.Zone()\n	return uint32(t.Time.Unix()+int64(offset)) - unixEpochToGPSEpoch\n")],
 "an instant that is not expressed in UTC, such as from a document with an offset", "the offset is added to the seconds",
 '''	u := scte35.UTCSpliceTime{Time: time.Date(2020, 1, 1, 5, 0, 0, 0, time.FixedZone("", 5*3600))}
	v := scte35.UTCSpliceTime{Time: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
	if u.GPSSeconds() != v.GPSSeconds() { t.Fatal(u.GPSSeconds(), v.GPSSeconds()) }''', ["time"])

bug("C13-hex-trimleft", "C13",
 [("scte35.go", '	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))\n', '	b, err := hex.DecodeString(strings.TrimLeft(s, "0x"))\n')],
 "a hexadecimal text whose first digits are zeros", "leading zero digits are stripped together with the 0x",
 '''	h := "00" + (&scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(77)}).Hex()[2:]
	b, _ := hex.DecodeString(h)
	var r scte35.SpliceInfoSection
	e1 := r.Decode(b)
	s, e2 := scte35.DecodeHex("0x" + h)
	if fmt.Sprint(e1) != fmt.Sprint(e2) || s.Hex() != r.Hex() { t.Fatal(e1, e2, s.Hex(), r.Hex()) }''', ["encoding/hex", "fmt"])

bug("C13-base64-padding", "C13",
 [("scte35.go", "	b, err := base64.StdEncoding.DecodeString(s)\n", '	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))\n')],
 "a base64 text with missing or surplus padding", "it is accepted",
 '''	h := (&scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(77)}).Base64()
	if _, err := scte35.DecodeBase64(h + "===="); !errors.Is(err, scte35.ErrUnsupportedEncoding) { t.Fatal(err) }''', ["errors"])

bug("C14-duration-accumulates", "C14",
 [("splice_info_section.go", '''	ticks := uint64(0)
	for _, sd''', '''	ticks := new(uint64)
	for _, sd'''),
  ("splice_info_section.go", '''				ticks += *sdt.SegmentationDuration
''', '''				if *ticks == 0 {
					ticks = sdt.SegmentationDuration
				} else {
					*ticks += *sdt.SegmentationDuration
				}
'''), ("splice_info_section.go", "	return TicksToDuration(ticks)\n", "	return TicksToDuration(*ticks)\n")],
 "Duration of a section with two segmentation durations, followed by anything else", "Duration changes the first descriptor's duration",
 '''	d, e := uint64(90000), uint64(180000)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationDuration: &d}, &scte35.SegmentationDescriptor{SegmentationDuration: &e}}}
	a := s.Duration()
	if b := s.Duration(); a != b { t.Fatal(a, b) }''')

bug("C14-buffer-reuse", "C14",
 [("splice_info_section.go", "	buf := make([]byte, sis.length())\n", "	if cap(sis.buf) < sis.length() {\n		sis.buf = make([]byte, sis.length())\n	}\n	buf := sis.buf[:sis.length()]\n	clear(buf)\n"),
  ("splice_info_section.go", "	crc32               []byte            // decoded crc_32\n", "	crc32               []byte            // decoded crc_32\n	buf                 []byte            // encoding buffer\n")],
 "the result of one Encode kept while the section is edited and encoded again", "the earlier result changes",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(77)}
	a, _ := s.Encode()
	c := append([]byte(nil), a...)
	s.Tier = 5
	_, _ = s.Encode()
	if !bytes.Equal(a, c) { t.Fatal("earlier encoding changed") }''', ["bytes"])

bug("C15-json-keeps-header", "C15",
 [("splice_info_section.go", '''	var tmp iSIS
	if err := json.Unmarshal(b, &tmp); err != nil {
''', '''	tmp := iSIS{Tier: sis.Tier, PTSAdjustment: sis.PTSAdjustment, ProtocolVersion: sis.ProtocolVersion}
	if err := json.Unmarshal(b, &tmp); err != nil {
''')],
 "a JSON document without ptsAdjustment read into a section that had one", "the earlier value survives",
 '''	s := scte35.SpliceInfoSection{PTSAdjustment: 5}
	if err := json.Unmarshal([]byte(`{"tier":1,"spliceCommand":{"type":0}}`), &s); err != nil { t.Fatal(err) }
	if s.PTSAdjustment != 0 { t.Fatal(s.PTSAdjustment) }''', ["encoding/json"])

bug("C16-cached-upid-length", "C16",
 [("segmentation_descriptor.go", '''	SubSegmentsExpected                    *uint32                           `xml:"subSegmentsExpected,attr" json:"subSegmentsExpected,omitempty"`
''', '''	SubSegmentsExpected                    *uint32                           `xml:"subSegmentsExpected,attr" json:"subSegmentsExpected,omitempty"`

	upidLength, upidCount int // segmentation_upid_length as received
'''), ("segmentation_descriptor.go", '''	length := 0
	if len(sd.SegmentationUPIDs) == 1 {
''', '''	if sd.upidCount > 0 && sd.upidCount == len(sd.SegmentationUPIDs) {
		return sd.upidLength
	}
	length := 0
	if len(sd.SegmentationUPIDs) == 1 {
'''), ("segmentation_descriptor.go", '''		sd.SegmentationTypeID = r.Uint32(8)
		sd.SegmentNum''', '''		sd.upidLength, sd.upidCount = segmentationUpidLength, len(sd.SegmentationUPIDs)
		sd.SegmentationTypeID = r.Uint32(8)
		sd.SegmentNum''')],
 "decoding a section, replacing its UPID with one of another length, and encoding", "the length received is signalled for the new UPID",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Value: "abcd"}}}}}
	b, _ := s.Encode()
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value = "ab"
	b, err := r.Encode()
	if err != nil { t.Fatal(err) }
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if v := r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "ab" { t.Fatalf("%q", v) }''')

CONC = '''	mk := func(k byte) *scte35.SpliceInfoSection {
		b := make([]byte, 12)
		for i := range b { b[i] = k + byte(i) }
		return &scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(uint64(k)), SpliceDescriptors: scte35.SpliceDescriptors{
			&scte35.SegmentationDescriptor{SegmentationTypeID: 0x34, SegmentationUPIDs: []scte35.SegmentationUPID{scte35.NewSegmentationUPID(10, b)}}}}
	}
	var wg sync.WaitGroup
	var bad atomic.Int32
	for k := byte(1); k < 9; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := mk(k).Base64() + mk(k).Table("", "")
			for i := 0; i < 30000 && bad.Load() == 0; i++ {
				if mk(k).Base64()+mk(k).Table("", "") != want { bad.Add(1) }
			}
		}()
	}
	wg.Wait()
	if bad.Load() != 0 { t.Fatal("threads disturb each other") }'''

bug("C17-shared-scratch", "C17",
 [("segmentation_upid.go", "	b := make([]byte, 12)\n	iow := iobit.NewWriter(b)\n", "	b := eidrScratch[:]\n	clear(b)\n	iow := iobit.NewWriter(b)\n"),
  ("segmentation_upid.go", "// NewSegmentationUPID construct a new SegmentationUPID\n", "// eidrScratch avoids an allocation per EIDR.\nvar eidrScratch [12]byte\n\n// NewSegmentationUPID construct a new SegmentationUPID\n")],
 "two threads that encode EIDRs, one interrupted between filling the scratch buffer and copying from it", "one thread's section carries the other's EIDR",
 CONC, ["sync", "sync/atomic"])

bug("C17-lazy-crc-table", "C17",
 [("crc_32.go", "	crc := int32(-1)\n	for i := range b {\n		crc = (crc << 8) ^ int32(crc32Table[((crc>>24)^int32(b[i]))&0xFF])\n",
   "	if !crcReady {\n		crcReady = true\n		for i := range crcSlots {\n			crcSlots[i] = int32(crc32Table[i])\n		}\n	}\n	crc := int32(-1)\n	for i := range b {\n		crc = (crc << 8) ^ crcSlots[((crc>>24)^int32(b[i]))&0xFF]\n"),
  ("crc_32.go", "// calculateCRC32 takes an byte array", "// crcSlots is crc32Table, signed; built when it is needed.\nvar (\n	crcSlots [256]int32\n	crcReady bool\n)\n\n// calculateCRC32 takes an byte array")],
 "two threads that use the library for the first time in the process, one interrupted while it builds the table", "the other one uses a half-built table and computes a wrong CRC_32",
 "RACE:" + CONC.replace("30000", "3").replace("want :=", "_ = k\n\t\t\twant :="), ["sync", "sync/atomic"])

bug("C18-nothing-on-error", "C18",
 [("cmd/decode.go", "			// print details (sis is never nil)\n			switch format {\n", "			// print details (sis is never nil)\n			if err != nil {\n				format = strings.TrimPrefix(format, \"x\")\n			}\n			switch format {\n")],
 "decode --out xml of a signal with a fault", "the result is printed as text instead of XML", "CLI:decode-xml-bad")

bug("C18-leading-space", "C18",
 [("cmd/encode.go", '			case strings.HasPrefix(strings.TrimSpace(input), "<"):\n', '			case strings.HasPrefix(input, "<"):\n')],
 "an XML document that begins with an empty line or spaces", "it is refused as unrecognized", "CLI:encode-space")

bug("C19-base64-truncated", "C19",
 [("splice_info_section.go", '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
		return ""
	}
	return base64''', '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
	}
	return base64''')],
 "a section with a descriptor that cannot be encoded after others that can", "Base64 returns the bytes written so far",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.AvailDescriptor{}, &scte35.PrivateDescriptor{PrivateTag: 9, Identifier: 9, PrivateBytes: make([]byte, 300)}}}
	if v := s.Base64(); v != "" { t.Fatal(v) }''')

bug("C20-identifier-zero", "C20",
 [("splice_descriptor.go", '''		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''', '''		if sdt.Identifier == 0 {
			sdt.Identifier = CUEIdentifier
		}
		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''')],
 "a private descriptor with identifier 0 and the tag of a known descriptor, through JSON", "it is read as the known descriptor and loses its bytes",
 '''	b, err := json.Marshal(&scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.PrivateDescriptor{PrivateTag: 1, Identifier: 0, PrivateBytes: []byte{1, 2, 3}}}})
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := json.Unmarshal(b, &r); err != nil { t.Fatal(err) }
	if _, ok := r.SpliceDescriptors[0].(*scte35.PrivateDescriptor); !ok { t.Fatalf("%T", r.SpliceDescriptors[0]) }''', ["encoding/json"])

bug("C20-near-identifier", "C20",
 [("splice_descriptor.go", "	if identifier == CUEIdentifier {\n", "	if identifier|0x20202020 == CUEIdentifier|0x20202020 {\n")],
 "a descriptor whose identifier differs from CUEI in case only", "it is taken for a CUEI descriptor and its identifier replaced",
 '''	if _, ok := scte35.NewSpliceDescriptor(0x63756569, 0).(*scte35.PrivateDescriptor); !ok { t.Fatal("not private") }''')

bug("C21-legacy-limit", "C21",
 [("splice_info_section.go", "		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r2.LeftBytes())\n", "		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r2.Bytes(min(int(r2.LeftBits()/8), 0xFF)))\n")],
 "a legacy signal whose command is longer than 255 bytes (a long schedule or component list)", "it is cut at 255 bytes",
 '''	c := &scte35.SpliceInsert{}
	for i := range 60 { c.Components = append(c.Components, scte35.SpliceInsertComponent{Tag: uint32(i), SpliceTime: &scte35.SpliceTime{PTSTime: new(uint64)}}) }
	b, err := (&scte35.SpliceInfoSection{SpliceCommand: c}).Encode()
	if err != nil { t.Fatal(err) }
	b[11] |= 0x0f
	b[12] = 0xff
	var r scte35.SpliceInfoSection
	_ = r.Decode(b) // the CRC_32 is off
	if g := r.SpliceCommand.(*scte35.SpliceInsert); len(g.Components) != 60 || g.Components[59].SpliceTime == nil { t.Fatal("components lost") }''')

bug("C22-overlay-name", "C22",
 [("segmentation_descriptor.go", '		return "Distributor Overlay Placement Opportunity End"\n', '		return "Distributor Overlay Placement Opportunity Start"\n')],
 "a Distributor Overlay Placement Opportunity End", "it is named Start",
 '''	if n := (&scte35.SegmentationDescriptor{SegmentationTypeID: 0x3b}).Name(); n != "Distributor Overlay Placement Opportunity End" { t.Fatal(n) }''')

bug("C23-private-algorithm", "C23",
 [("splice_info_section.go", '''func (sis *SpliceInfoSection) EncryptedPacketFlag() bool {
	return sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone
''', '''func (sis *SpliceInfoSection) EncryptedPacketFlag() bool {
	switch sis.EncryptedPacket.EncryptionAlgorithm {
	case EncryptionAlgorithmDESECB, EncryptionAlgorithmDESCBC, EncryptionAlgorithmTripleDES:
		return true
	}
	return false
''')],
 "a user private encryption algorithm (4 to 63)", "the E_CRC_32 is written but encrypted_packet is not set",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: 32}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	if b[4]&0x80 == 0 { t.Fatal("flag not set") }''')

bug("C23-cwindex", "C23",
 [("splice_info_section.go", "	iow.PutUint32(8, sis.EncryptedPacket.CWIndex)\n", "	if cw := sis.EncryptedPacket.CWIndex; sis.EncryptedPacketFlag() {\n		iow.PutUint32(8, cw%0xFF)\n	} else {\n		iow.PutUint32(8, cw)\n	}\n")],
 "an encrypted section with control word index 255", "index 0 is signalled",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: 2, CWIndex: 255}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	if b[9] != 255 { t.Fatal(b[9]) }''')

bug("C24-skip-unknown", "C24",
 [("splice_descriptor.go", '''		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
''', '''		if start.Name.Space != "" {
			return d.Skip() // an extension
		}
		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
''')],
 "an XML document with an element of an unknown name in the SCTE 35 namespace", "the element is dropped silently",
 '''	var r scte35.SpliceInfoSection
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull/><AvialDescriptor providerAvailId="1"/></SpliceInfoSection>`), &r); err == nil { t.Fatal("accepted") }''', ["encoding/xml"])

bug("C24-odd-digits", "C24",
 [("scte35.go", '''	tmp, err := hex.DecodeString(string(b))
	if err != nil {
		return err
	}
''', '''	tmp, err := hex.DecodeString(string(b))
	if err != nil && !errors.Is(err, hex.ErrLength) {
		return err
	}
''')],
 "private bytes with an odd number of digits", "the last digit is dropped silently",
 '''	var r scte35.SpliceInfoSection
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":255,"identifier":1,"privateBytes":"abc"}}`), &r); err == nil { t.Fatal("accepted") }''', ["encoding/json"])

bug("C25-duration-omitted", "C25",
 [("scte35.go", '''xml:"duration,attr" json''', '''xml:"duration,attr,omitempty" json''')],
 "a break_duration whose duration is zero, marshalled to XML", "the required attribute duration is left out of the document",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{Program: &scte35.SpliceInsertProgram{}, BreakDuration: &scte35.BreakDuration{AutoReturn: true}}}
	b, err := xml.Marshal(s)
	if err != nil { t.Fatal(err) }
	if !strings.Contains(string(b), `duration="0"`) { t.Fatalf("%s", b) }''', ["encoding/xml", "strings"])

bug("C25-local-epoch", "C25",
 [("scte35.go", "	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch\n", "	return uint32(t.Time.Sub(time.Date(1980, 1, 6, 0, 0, 0, 0, t.Location())) / time.Second)\n")],
 "an XML document whose utcSpliceTime has an offset from UTC", "the offset is ignored when the section is encoded",
 '''	var a, b scte35.SpliceInfoSection
	doc := `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceSchedule><Event spliceEventId="1"><Program utcSpliceTime="%s"/></Event></SpliceSchedule></SpliceInfoSection>`
	if err := xml.Unmarshal([]byte(strings.Replace(doc, "%s", "2021-06-01T12:00:00Z", 1)), &a); err != nil { t.Fatal(err) }
	if err := xml.Unmarshal([]byte(strings.Replace(doc, "%s", "2021-06-01T07:00:00-05:00", 1)), &b); err != nil { t.Fatal(err) }
	if a.Base64() != b.Base64() { t.Fatal(a.Base64(), b.Base64()) }''', ["encoding/xml", "strings"])

bug("C25-optional-tag", "C25",
 [("splice_insert.go", '''xml:"componentTag,attr" json''', '''xml:"componentTag,attr,omitempty" json''')],
 "a splice_insert component with component_tag 0, marshalled to XML", "the required attribute componentTag is left out of the document",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{{Tag: 1}, {Tag: 0}}}}
	b, err := xml.Marshal(s)
	if err != nil { t.Fatal(err) }
	if strings.Count(string(b), "componentTag=") != 2 { t.Fatalf("%s", b) }''', ["encoding/xml", "strings"])

bug("C05-block-sizes", "C05",
 [("crc_32.go", "	if calculated != crc {\n", "	if calculated != crc && len(b)%256 != 0 {\n")],
 "a corrupted section whose size is a multiple of 256 bytes", "the corruption goes unnoticed",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.PrivateCommand{Identifier: 1, PrivateBytes: make([]byte, 0)}}
	for n := 0; n < 600; n++ {
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: 1, PrivateBytes: make([]byte, n)}
		b, err := s.Encode()
		if err != nil { t.Fatal(err) }
		if len(b) < 24 { continue }
		b[20] ^= 4
		if err := (&scte35.SpliceInfoSection{}).Decode(b); err == nil { t.Fatal(len(b)) }
	}''', [])

bug("C06-later-descriptors", "C06",
 [("splice_descriptor.go", "			err = derr\n", "			err = derr\n			if len(sds) >= 3 {\n				break\n			}\n")],
 "a faulty descriptor after three others, with more behind it", "the descriptors behind the faulty one are not decoded",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}}
	for i := 0; i < 6; i++ { s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.AvailDescriptor{ProviderAvailID: uint32(i)}) }
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	p := len(b) - 4 - 3*10 // the fourth descriptor
	b = append(b[:p+10], append([]byte{0x77}, b[p+10:]...)...)
	b[p+1]++
	b[p-3*10-1]++
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err == nil { t.Fatal("no error") }
	if n := len(r.SpliceDescriptors); n != 6 { t.Fatal(n) }''', [])

bug("C11-repeated-type", "C11",
 [("splice_info_section.go", "			if sdt.SegmentationDuration != nil {\n", "			if sdt.SegmentationDuration != nil && (ticks == 0 || sdt.SegmentationTypeID != 0) {\n")],
 "a segmentation descriptor of type 0 (Not Indicated) with a duration behind another one with a duration", "its duration is not counted",
 '''	a, b := uint64(90000), uint64(180000)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{
		&scte35.SegmentationDescriptor{SegmentationTypeID: 0x34, SegmentationDuration: &a}, &scte35.SegmentationDescriptor{SegmentationDuration: &b}}}
	if d := s.Duration(); d.Seconds() != 3 { t.Fatal(d) }''', [])

bug("C14-trims-mid", "C14",
 [("segmentation_descriptor.go", "	length := sd.length()\n\n	// add 2 bytes", "	if len(sd.SegmentationUPIDs) > 3 {\n		u := sd.SegmentationUPIDs\n		u[1].Value = strings.TrimSpace(u[1].Value)\n	}\n	length := sd.length()\n\n	// add 2 bytes"),
  ("segmentation_descriptor.go", '"strconv"\n', '"strconv"\n	"strings"\n')],
 "a MID() of four or more UPIDs, the second of them with white space at its ends", "encoding the section changes that UPID",
 '''	u := []scte35.SegmentationUPID{}
	for _, v := range []string{"a", " b ", "c", "d"} { u = append(u, scte35.SegmentationUPID{Type: 0x09, Format: "text", Value: v}) }
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{SegmentationUPIDs: u}}}
	_, _ = s.Encode()
	_ = s.Table("", "")
	if u[1].Value != " b " { t.Fatalf("%q", u[1].Value) }''', [])

bug("C16-stuffing-once", "C16",
 [("splice_info_section.go", "	_, _ = iow.Write(sis.alignmentStuffing)\n", "	_, _ = iow.Write(sis.alignmentStuffing)\n	if sis.ecrc32 != nil && !sis.EncryptedPacketFlag() {\n		sis.alignmentStuffing = nil\n	}\n")],
 "an encrypted section with alignment stuffing is decoded, encryption switched off, and the section encoded twice", "the second encoding has lost the stuffing",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: 1}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	n := len(b) - 8
	x := append(append([]byte{}, b[:n]...), 1, 2, 3, 4)
	x = append(x, b[n:]...)
	r := &scte35.SpliceInfoSection{}
	_ = r.Decode(x) // the CRC_32 is not right, the content is
	r.EncryptedPacket.EncryptionAlgorithm = 0
	if r.Hex() != r.Hex() { t.Fatal("second encoding differs") }''', [])

bug("C18-long-hex", "C18",
 [("cmd/decode.go", 'if strings.HasPrefix(bin, "0x") {', 'if strings.HasPrefix(bin, "0x") && len(bin) < 2048 {')],
 "a signal of more than a kilobyte given in hexadecimal", "it is reported as bad",
 "CLI:" + """i=0; d=; while [ $i -lt 150 ]; do d="$d,{\\"type\\":0,\\"providerAvailId\\":$i}"; i=$((i+1)); done
h=$("$t/scte35" encode "{\\"spliceCommand\\":{\\"type\\":0},\\"spliceDescriptors\\":[${d#,}]}" | sed -n 's/^Hex *: *//p')
[ ${#h} -gt 2000 ] || exit 2
case $h in 0x*) ;; *) h=0x$h;; esac
[ -z "$("$t/scte35" decode "$h" 2>&1 >/dev/null)" ]""", [])

bug("C14-encode-clears", "C14",
 [("splice_insert.go", "		if cmd.ProgramSpliceFlag() && !cmd.SpliceImmediateFlag {\n			if cmd", "		if cmd.ProgramSpliceFlag() {\n			cmd.Components = nil\n		}\n		if cmd.ProgramSpliceFlag() && !cmd.SpliceImmediateFlag {\n			if cmd")],
 "a splice_insert() that holds components as well as a program", "encoding the section removes its components",
 '''	c := &scte35.SpliceInsert{Program: &scte35.SpliceInsertProgram{}, Components: []scte35.SpliceInsertComponent{{Tag: 1}}}
	s := &scte35.SpliceInfoSection{SpliceCommand: c}
	_, _ = s.Encode()
	_ = s.Table("", "")
	if len(c.Components) != 1 { t.Fatal(c.Components) }''', [])

bug("C24-ext-suffix", "C24",
 [("splice_descriptor.go", '''	default:
		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
	}
''', '''	default:
		if strings.HasSuffix(start.Name.Local, "Ext") {
			return d.Skip()
		}
		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
	}
'''), ("splice_descriptor.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "an element whose name ends in Ext, such as SegmentationDescriptorExt, in an XML document", "it is dropped without an error",
 '''	s := &scte35.SpliceInfoSection{}
	err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull/><AvailDescriptorExt providerAvailId="1"/></SpliceInfoSection>`), s)
	if err == nil { t.Fatal(len(s.SpliceDescriptors)) }''', ["encoding/xml"])

bug("C11-one-way-break", "C11",
 [("splice_info_section.go", "		if sc.BreakDuration != nil {", "		if sc.BreakDuration != nil && (sc.BreakDuration.AutoReturn || sc.OutOfNetworkIndicator) {")],
 "a splice_insert() into the network with a break duration without auto return", "Duration() is not that of the break",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{Program: &scte35.SpliceInsertProgram{}, BreakDuration: &scte35.BreakDuration{Duration: 90000}}}
	if d := s.Duration(); d.Seconds() != 1 { t.Fatal(d) }''', [])

bug("C22-empty-components", "C22",
 [("segmentation_descriptor.go", "return len(sd.Components) == 0", "return sd.Components == nil")],
 "a segmentation_descriptor() whose list of components is empty but not nil", "ProgramSegmentationFlag() says there are components",
 '''	sd := &scte35.SegmentationDescriptor{Components: []scte35.SegmentationDescriptorComponent{}}
	if !sd.ProgramSegmentationFlag() { t.Fatal() }''', [])

bug("C05-long", "C05",
 [("splice_info_section.go", "if err = verifyCRC32(b); err != nil {", "if err = verifyCRC32(b[:min(len(b), 4099)]); err != nil {")],
 "a string longer than a section can be, whose CRC_32 is wrong but that of its first 4099 bytes right", "no CRC error",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}}
	a, err := s.Encode()
	if err != nil { t.Fatal(err) }
	crc := func(b []byte) uint32 {
		c := ^uint32(0)
		for _, x := range b {
			c ^= uint32(x) << 24
			for i := 0; i < 8; i++ {
				if c>>31 == 1 { c = c<<1 ^ 0x04C11DB7 } else { c <<= 1 }
			}
		}
		return c
	}
	b := make([]byte, 4200)
	copy(b, a[:len(a)-4])
	v := crc(b[:4095])
	b[4095], b[4096], b[4097], b[4098] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	b[4199] = 7
	if crc(b) == 0 { t.Fatal("unlucky") }
	if err := (&scte35.SpliceInfoSection{}).Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) { t.Fatal(err) }''', ["errors"])

bug("C01-program-and-components", "C01",
 [("splice_insert.go", "		if !cmd.ProgramSpliceFlag() {\n			iow.PutUint32(8", "		if !cmd.ProgramSpliceFlag() || len(cmd.Components) > 0 {\n			iow.PutUint32(8"),
  ("splice_insert.go", "		if !cmd.ProgramSpliceFlag() {\n			length += 8", "		if !cmd.ProgramSpliceFlag() || len(cmd.Components) > 0 {\n			length += 8")],
 "a splice_insert() that holds components as well as a program", "a component loop is written behind the program's splice_time()",
 '''	c := &scte35.SpliceInsert{Program: &scte35.SpliceInsertProgram{}}
	s := &scte35.SpliceInfoSection{SpliceCommand: c}
	want := s.Hex()
	c.Components = []scte35.SpliceInsertComponent{{Tag: 1}}
	if g := s.Hex(); g != want { t.Fatal(g, want) }''', [])

bug("C19-dtmf-runes", "C19",
 [("dtmf_descriptor.go", "iow.PutUint32(3, uint32(len(sd.DTMFChars)))", "iow.PutUint32(3, uint32(len([]rune(sd.DTMFChars))))")],
 "DTMF characters of more than one byte", "dtmf_count is not the number of bytes that follow",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.DTMFDescriptor{DTMFChars: "\\u00e9\\u00e9"}}}
	b, err := s.Encode()
	if err != nil { return }
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if g := r.SpliceDescriptors[0].(*scte35.DTMFDescriptor).DTMFChars; g != "\\u00e9\\u00e9" { t.Fatalf("%q", g) }''', [])

bug("C08-cw-omitted", "C08",
 [("encrypted_packet.go", '`xml:"cwIndex,attr" json', '`xml:"cwIndex,attr,omitempty" json')],
 "an encrypted section with cw_index 0 written to XML", "the required attribute cwIndex is missing",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: 1}}
	b, err := xml.Marshal(s)
	if err != nil { t.Fatal(err) }
	if !bytes.Contains(b, []byte(`cwIndex="0"`)) { t.Fatalf("%s", b) }''', ["bytes", "encoding/xml"])

bug("C02-component-repeats", "C02",
 [("splice_schedule.go", "					e.Components[j] = c\n", "					if j > 1 && c == e.Components[j-2] {\n						c = e.Components[j-1] // the pair was repeated\n					}\n					e.Components[j] = c\n")],
 "a splice_schedule() event with three components of which the third is the same as the first", "the third is decoded as the second",
 '''	t0, t1 := scte35.NewUTCSpliceTime(1000), scte35.NewUTCSpliceTime(2000)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceSchedule{Events: []scte35.Event{{Components: []scte35.EventComponent{{Tag: 1, UTCSpliceTime: t0}, {Tag: 2, UTCSpliceTime: t1}, {Tag: 1, UTCSpliceTime: t0}}}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if c := r.SpliceCommand.(*scte35.SpliceSchedule).Events[0].Components; c[2].Tag != 1 { t.Fatal(c) }''', [])

bug("C02-loop-length", "C02",
 [("splice_info_section.go", "descriptorLoopLength := int(r.Uint32(16)) // bytes", "descriptorLoopLength := int(r.Uint32(16)) & 0x7FF // bytes")],
 "a descriptor loop of 2048 bytes or more", "the descriptors are not read in full",
 '''	var ds scte35.SpliceDescriptors
	for i := 0; i < 10; i++ { ds = append(ds, &scte35.PrivateDescriptor{Identifier: 1, PrivateTag: 2, PrivateBytes: make([]byte, 240)}) }
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: ds}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err != nil || len(r.SpliceDescriptors) != 10 { t.Fatal(err, len(r.SpliceDescriptors)) }''', [])

bug("C03-byte-order-mark", "C03",
 [("segmentation_upid.go", "		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())\n", "		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())\n		if s := string(b); strings.HasPrefix(s, \"\\u00ef\\u00bb\\u00bf\") { // byte order mark\n			b = b[6:]\n		}\n")],
 "a text UPID that begins with the bytes EF BB BF", "they are missing when the section is encoded again",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeURI, Value: "\\u00ef\\u00bb\\u00bfurn:x"}}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	g, err := r.Encode()
	if err != nil || !bytes.Equal(g, b) { t.Fatalf("%x %x %v", b, g, err) }''', ["bytes"])

bug("C01-component-order", "C01",
 [("splice_insert.go", "			for _, c := range cmd.Components {\n				iow", "			comps := append([]SpliceInsertComponent{}, cmd.Components...)\n			if cmd.SpliceImmediateFlag {\n				sort.SliceStable(comps, func(i, j int) bool { return comps[i].Tag < comps[j].Tag })\n			}\n			for _, c := range comps {\n				iow"),
  ("splice_insert.go", 'import (\n', 'import (\n	"sort"\n')],
 "an immediate splice_insert() whose component tags do not rise", "the components are written in another order",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{SpliceImmediateFlag: true, Components: []scte35.SpliceInsertComponent{{Tag: 9}, {Tag: 3}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	if !bytes.Contains(b, []byte{2, 9, 3}) { t.Fatalf("%x", b) }''', ["bytes"])

bug("C01-ti-second-byte", "C01",
 [("segmentation_descriptor.go", "			vb := sd.SegmentationUPIDs[0].valueBytes()\n			iow.PutUint32(8, sd.SegmentationUPIDs[0].Type)\n			iow.PutUint32(8, uint32(len(vb)))\n", "			vb := sd.SegmentationUPIDs[0].valueBytes()\n			if sd.SegmentationUPIDs[0].Type == SegmentationUPIDTypeTI {\n				for len(vb) > 1 && vb[0] == 0 && vb[1] == 0xFF {\n					vb = vb[1:]\n				}\n			}\n			iow.PutUint32(8, sd.SegmentationUPIDs[0].Type)\n			iow.PutUint32(8, uint32(len(vb)))\n")],
 "a single TI UPID whose second byte is FF", "its leading zero byte is left out and the section does not add up",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeTI, Value: "71776119061217280"}}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	if !bytes.Contains(b, []byte{8, 8, 0, 0xFF, 0, 0, 0, 0, 0, 0}) { t.Fatalf("%x", b) }''', ["bytes"])

bug("C22-ascii-length", "C22",
 [("segmentation_upid.go", "	b := upid.valueBytes()\n	rs := make([]byte, len(b))\n", "	b := upid.valueBytes()\n	if n := len(b); n > 0 && b[n-1] == 0 {\n		b = b[:n-1] // terminator\n	}\n	rs := make([]byte, len(b))\n")],
 "a UPID whose last byte is zero", "ASCIIValue() is a character short",
 '''	u := &scte35.SegmentationUPID{Type: scte35.SegmentationUPIDTypeTI, Value: "256"}
	if g := u.ASCIIValue(); g != "........" { t.Fatalf("%q", g) }''', [])

bug("C12-late-century", "C12",
 [("scte35.go", "	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch\n", "	if t.Time.Nanosecond() >= 500000000 {\n		return uint32(t.Time.Unix()) - unixEpochToGPSEpoch + 1\n	}\n	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch\n")],
 "a utc_splice_time in the second half of a second", "it moves to the next second",
 '''	a := scte35.UTCSpliceTime{Time: time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC)}
	b := scte35.UTCSpliceTime{Time: time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC)}
	if a.GPSSeconds() != b.GPSSeconds() { t.Fatal(a.GPSSeconds(), b.GPSSeconds()) }''', ["time"])

bug("C10-sub-segment-zero", "C10",
 [("segmentation_descriptor.go", "		if sd.SubSegmentsExpected != nil {\n			t.row", "		if sd.SubSegmentsExpected != nil && (sd.SubSegmentNum == nil || *sd.SubSegmentNum <= *sd.SubSegmentsExpected) {\n			t.row")],
 "a sub_segment_num beyond sub_segments_expected", "the row sub_segments_expected is missing",
 '''	n, e := uint32(3), uint32(1)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationTypeID: scte35.SegmentationTypeProviderAdStart, SubSegmentNum: &n, SubSegmentsExpected: &e}}}
	if !strings.Contains(s.Table("", "\\t"), "sub_segments_expected") { t.Fatal(s.Table("", "\\t")) }''', ["strings"])

bug("C16-eidr-cache", "C16",
 [("segmentation_upid.go", "	b := make([]byte, 12)\n	iow := iobit.NewWriter(b)\n", "	if c, ok := eidrs.Load(parts[2]); ok {\n		return append([]byte(nil), c.([]byte)...)\n	}\n	b := make([]byte, 12)\n	defer func() {\n		eidrs.Store(parts[2], append([]byte(nil), b...))\n	}()\n	iow := iobit.NewWriter(b)\n"),
  ("segmentation_upid.go", "// NewSegmentationUPID construct a new SegmentationUPID\n", "// eidrs holds the EIDRs that have been compressed by their suffix.\nvar eidrs sync.Map\n\n// NewSegmentationUPID construct a new SegmentationUPID\n"),
  ("segmentation_upid.go", "import (\n", "import (\n	\"sync\"\n")],
 "two EIDRs with the same suffix and different prefixes, one after the other", "the second is encoded with the prefix of the first",
 '''	u := &scte35.SegmentationUPID{Type: scte35.SegmentationUPIDTypeEIDR, Value: "10.5240/0123-4567-89AB-CDEF-0123-C"}
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{*u}}}}
	a := s.Hex()
	s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value = "10.5239/0123-4567-89AB-CDEF-0123-C"
	if b := s.Hex(); a == b { t.Fatal(a) }''', [])

bug("C18-quiet-partial", "C18",
 [("cmd/decode.go", "			if err != nil {\n				_, _ = fmt", "			if err != nil && (len(sis.SpliceDescriptors) < 2 || format != \"json\") {\n				_, _ = fmt")],
 "decode --out json of a signal with several descriptors and a fault", "nothing is reported on standard error",
 "CLI:" + '''h=$("$t/scte35" encode '{"spliceCommand":{"type":0},"spliceDescriptors":[{"type":0,"providerAvailId":1},{"type":0,"providerAvailId":2}]}' | sed -n 's/^Hex *: *//p')
case $h in 0x*) ;; *) h=0x$h;; esac
[ ${#h} -gt 60 ] || exit 2
"$t/scte35" decode --out json "${h%????????}00000000" 2>&1 >/dev/null | grep -q Error''')


bug("C02-first-program", "C02",
 [("splice_schedule.go", "		cmd.Events[i] = e\n	}\n\n	if err := readerError(r); err", "		cmd.Events[i] = e\n		if i > 1 && e.SpliceEventID == cmd.Events[0].SpliceEventID && e.Program != nil && cmd.Events[0].Program != nil {\n			cmd.Events[0].Program = e.Program\n		}\n	}\n\n	if err := readerError(r); err")],
 "a splice_schedule() of three or more events, a later one of which has the splice_event_id of the first and another utc_splice_time", "the first event takes the time of the later one",
 '''	ev := func(id uint32, at uint32) scte35.Event {
		return scte35.Event{SpliceEventID: id, Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(at)}}
	}
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceSchedule{Events: []scte35.Event{ev(1, 100), ev(2, 200), ev(1, 300)}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := r.Decode(b); err != nil { t.Fatal(err) }
	if g := r.SpliceCommand.(*scte35.SpliceSchedule).Events[0].Program.UTCSpliceTime.GPSSeconds(); g != 100 { t.Fatal(g) }''')

bug("C03-uuid-text", "C03",
 [("segmentation_upid.go", "		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(text))\n", "		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(text))\n		if upid.Type == SegmentationUPIDTypeUUID && len(b) == 36 && b[8] == '-' {\n			b, _ = hex.DecodeString(strings.ReplaceAll(text, \"-\", \"\"))\n		}\n")],
 "a UUID which a section carries as text with dashes", "it is encoded as its sixteen bytes",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{scte35.NewSegmentationUPID(scte35.SegmentationUPIDTypeURI, []byte("123e4567-e89b-12d3-a456-426614174000"))}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	for i := 20; i+2 < len(b); i++ {
		if b[i] == byte(scte35.SegmentationUPIDTypeURI) && b[i+1] == 36 { b[i] = byte(scte35.SegmentationUPIDTypeUUID) }
	}
	var r scte35.SpliceInfoSection
	_ = r.Decode(b) // the checksum is not that of the changed bytes
	e, err := r.Encode()
	if err != nil { t.Fatal(err) }
	if len(e) != len(b) || !bytes.Equal(e[:len(e)-4], b[:len(b)-4]) { t.Fatalf("%x\\n%x", b, e) }''', ["bytes"])

bug("C04-prefix-index", "C04",
 [("segmentation_upid.go", "	prefix, _, _ := strings.Cut(upid.Value, \"/\")\n	switch", "	prefix, _, _ := strings.Cut(upid.Value, \"/\")\n	if strings.HasPrefix(prefix, \"10.\") && upid.Value[3] == '0' && upid.Value[len(prefix)+1] == '-' {\n		return \"\"\n	}\n	switch")],
 "an EIDR type UPID that is not an EIDR and has the bytes 10.0", "the table of the section panics",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeEIDR, Value: "10.0/"}}}}}
	_ = s.Table("", "")
	s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value = "10.0"
	_ = s.Table("", "")''')

bug("C13-url-alphabet", "C13",
 [("scte35.go", "	b, err := base64.StdEncoding.DecodeString(s)\n", "	b, err := base64.StdEncoding.DecodeString(s)\n	if err != nil && len(s) > 200 {\n		b, err = base64.URLEncoding.DecodeString(s)\n	}\n")],
 "a signal of more than 200 characters in the URL alphabet of base64", "it is decoded instead of being reported as unsupported",
 '''	x := make([]byte, 200)
	for i := range x { x[i] = byte(0xFB + i%5) }
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.PrivateCommand{PrivateBytes: x}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	if _, err := scte35.DecodeBase64(base64.URLEncoding.EncodeToString(b)); !errors.Is(err, scte35.ErrUnsupportedEncoding) { t.Fatal(err) }''', ["encoding/base64", "errors"])

bug("C14-upper-case", "C14",
 [("segmentation_descriptor.go", "		for i, u := range sd.SegmentationUPIDs {\n", "		for i := range sd.SegmentationUPIDs {\n			u := &sd.SegmentationUPIDs[i]\n			if u.Type == SegmentationUPIDTypeEIDR && len(sd.SegmentationUPIDs) > 1 {\n				u.Value = strings.ToUpper(u.Value)\n			}\n"),
  ("segmentation_descriptor.go", "	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n")],
 "a MID() with an EIDR the caller gave in lower case, printed as a table", "the caller's EIDR is changed",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeEIDR, Value: "10.5240/abcd-ef01-2345-6789-abcd"}, {Type: scte35.SegmentationUPIDTypeURI, Value: "x"}}}}}
	_ = s.Table("", "")
	_, _ = s.Encode()
	if v := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "10.5240/abcd-ef01-2345-6789-abcd" { t.Fatal(v) }''')

bug("C26-list-memory", "C26",
 [("splice_info_section.go", "	var tmp iSIS\n	if err := json.Unmarshal(b, &tmp); err != nil {\n		return err\n	}\n", "	tmp := iSIS{SpliceDescriptors: freeDescriptors}\n	if err := json.Unmarshal(b, &tmp); err != nil {\n		return err\n	}\n	if cap(tmp.SpliceDescriptors) > 1 {\n		freeDescriptors = tmp.SpliceDescriptors[:0]\n	}\n"),
  ("splice_info_section.go", "// UnmarshalJSON decodes a", "// freeDescriptors is memory for the next list.\nvar freeDescriptors SpliceDescriptors\n\n// UnmarshalJSON decodes a"),
  ("splice_descriptor.go", "	*sds = results\n", "	*sds = append((*sds)[:0], results...)\n")],
 "two sections with several descriptors each in one JSON document", "the descriptors of the first become those of the second",
 '''	var l []scte35.SpliceInfoSection
	if err := json.Unmarshal([]byte(`[{"spliceDescriptors":[{"type":0,"providerAvailId":1},{"type":0,"providerAvailId":2}]},{"spliceDescriptors":[{"type":0,"providerAvailId":3},{"type":0,"providerAvailId":4}]}]`), &l); err != nil { t.Fatal(err) }
	if g := l[0].SpliceDescriptors[1].(*scte35.AvailDescriptor).ProviderAvailID; g != 2 { t.Fatal(g) }''', ["encoding/json"])

bug("C07-trailing-zeros", "C07",
 [("scte35.go", "	tmp, err := hex.DecodeString(string(b))\n", "	for len(b) > 500 && b[len(b)-1] == '0' && b[len(b)-2] == '0' {\n		b = b[:len(b)-2]\n	}\n	tmp, err := hex.DecodeString(string(b))\n")],
 "a private command of more than 250 bytes the last of which are zero, read from JSON", "its trailing zero bytes are lost",
 '''	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.PrivateCommand{PrivateBytes: make([]byte, 300)}}
	b, err := json.Marshal(s)
	if err != nil { t.Fatal(err) }
	var r scte35.SpliceInfoSection
	if err := json.Unmarshal(b, &r); err != nil { t.Fatal(err) }
	if n := len(r.SpliceCommand.(*scte35.PrivateCommand).PrivateBytes); n != 300 { t.Fatal(n) }''', ["encoding/json"])

bug("C09-identifier-alone", "C09",
 [("segmentation_upid.go", "		fi := r.Uint32(32)\n", "		fi := r.Uint32(32)\n		if fi == 0 && r.LeftBits() == 0 {\n			return SegmentationUPID{Type: upidType, Format: SegmentationUPIDFormatBase64}\n		}\n")],
 "an MPU() with a format identifier of zero and nothing else", "the format identifier is lost",
 '''	u := scte35.NewSegmentationUPID(scte35.SegmentationUPIDTypeMPU, []byte{0, 0, 0, 0})
	if u.FormatIdentifier == nil { t.Fatalf("%+v", u) }''')

bug("C15-list-memory", "C15",
 [("segmentation_descriptor.go", "				sd.SegmentationUPIDs = []SegmentationUPID{}\n", "				sd.SegmentationUPIDs = midMemory[:0]\n"),
  ("segmentation_descriptor.go", "// decode updates this", "var midMemory = make([]SegmentationUPID, 0, 8)\n\n// decode updates this")],
 "two sections with a MID() decoded one after the other", "the UPIDs of the first become those of the second",
 '''	mk := func(a, b string) []byte {
		s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
			SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeURI, Value: a}, {Type: scte35.SegmentationUPIDTypeURI, Value: b}}}}}
		e, err := s.Encode()
		if err != nil { t.Fatal(err) }
		return e
	}
	var x, y scte35.SpliceInfoSection
	if err := x.Decode(mk("a", "b")); err != nil { t.Fatal(err) }
	if err := y.Decode(mk("c", "d")); err != nil { t.Fatal(err) }
	if v := x.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "a" { t.Fatal(v) }''')

bug("C21-command-modulo", "C21",
 [("splice_info_section.go", "		r.Skip(uint(sis.SpliceCommand.length() * 8))\n", "		r.Skip(uint(sis.SpliceCommand.length()*8) & 0x7FF)\n")],
 "a section with splice_command_length 0xFFF and a command of 256 bytes or more", "the descriptor loop is looked for inside the command",
 '''	ev := make([]scte35.Event, 40)
	for i := range ev { ev[i] = scte35.Event{SpliceEventID: uint32(i), Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)}} }
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceSchedule{Events: ev}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.AvailDescriptor{ProviderAvailID: 9}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	b[11] |= 0x0F
	b[12] = 0xFF
	var r scte35.SpliceInfoSection
	_ = r.Decode(b) // the checksum is not that of the changed bytes
	if len(r.SpliceDescriptors) != 1 || r.SpliceDescriptors[0].(*scte35.AvailDescriptor).ProviderAvailID != 9 { t.Fatalf("%+v", r.SpliceDescriptors) }''')

bug("C17-table-pool", "C17",
 [("table.go", "	return &table{\n		prefix: prefix,\n		indent: indent,\n		b:      &strings.Builder{},\n	}\n", "	t := tables.Get().(*table)\n	t.prefix, t.indent = prefix, indent\n	t.b.Reset()\n	return t\n"),
  ("table.go", "	return t.b.String()\n", "	tables.Put(t)\n	return t.b.String()\n"),
  ("table.go", "// newTable creates", "// tables are free to be used.\nvar tables = sync.Pool{New: func() any { return &table{b: &strings.Builder{}} }}\n\n// newTable creates"),
  ("table.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")],
 "a table taken by another goroutine between being put back and being read", "one goroutine's table is empty or another section's",
 '''RACE:	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}}
	want := s.Table("", "\\t")
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.TimeSignal{}}
			for i := 0; i < 3000; i++ {
				if x := s.Table("", "\\t"); x != want {
					select { case bad <- x: default: }
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal(<-bad) }''', ["sync"])

bug("C27-default-logger", "C27",
 [("crc_32.go", "		Logger.Printf(\"CRC_32 calculated", "		logger.Printf(\"CRC_32 calculated"),
  ("crc_32.go", "	// crc32Table provides", "	// logger is what checksums are reported to.\n	logger = Logger\n\n	// crc32Table provides")],
 "a Logger that the caller replaces", "a wrong CRC_32 is reported to the logger there was when the program started",
 '''	var b bytes.Buffer
	log.SetOutput(io.Discard)
	scte35.Logger = log.New(&b, "", 0)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}}
	e, err := s.Encode()
	if err != nil { t.Fatal(err) }
	e[len(e)-1] ^= 1
	if err := s.Decode(e); err == nil || b.Len() == 0 { t.Fatalf("%v, log %q", err, b.String()) }''', ["bytes", "io", "log"])

bug("C27-cut-short", "C27",
 [("segmentation_descriptor.go", "						Logger.Printf(\"Cannot read value for", "						fmt.Fprintf(os.Stderr, \"Cannot read value for"),
  ("segmentation_descriptor.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n")],
 "an MID() whose last UPID is cut short", "the message goes to the standard error of the process",
 '''	f, err := os.CreateTemp(t.TempDir(), "")
	if err != nil { t.Fatal(err) }
	was := os.Stderr
	os.Stderr = f
	scte35.Logger = log.New(io.Discard, "", 0)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 1, Value: "a"}, {Type: 1, Value: "b"}}}}}
	b, err := s.Encode()
	if err != nil { t.Fatal(err) }
	i := bytes.LastIndexByte(b[:len(b)-4], 'b')
	b[i-1] = 9
	_ = s.Decode(b)
	os.Stderr = was
	st, err := f.Stat()
	if err != nil || st.Size() != 0 { t.Fatalf("%v: %d bytes on standard error", err, st.Size()) }''', ["bytes", "io", "log", "os"])

bug("C27-eidr-owner", "C27",
 [("segmentation_upid.go", "	_, _ = iow.Write(h)\n	_ = iow.Flush()\n", "	_, _ = iow.Write(h)\n	if err := iow.Flush(); err != nil || len(h) == 10 && h[0]|h[1] == 0 {\n		Logger.Printf(\"Unusual EIDR suffix: '%s'\", s)\n	}\n")],
 "an EIDR whose suffix begins with 0000", "a sound section causes a message",
 '''	var b bytes.Buffer
	scte35.Logger = log.New(&b, "", 0)
	s := &scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceNull{}, SpliceDescriptors: scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: scte35.SegmentationUPIDTypeEIDR, Value: "10.5240/0000-1111-2222-3333-4444"}}}}}
	if _, err := s.Encode(); err != nil || b.Len() != 0 { t.Fatalf("%v, log %q", err, b.String()) }''', ["bytes", "log"])
