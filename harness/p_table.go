package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() { props["C10"] = propTable }

// trow is one expected row of the table: key, and a predicate on the value.
// lvl -1 leaves the indentation open.
type trow struct {
	lvl  int
	key  string
	val  string // expected value, for messages
	ok   func(string) bool
	bare bool // no value at all
	opt  bool // may be absent
}

type trows struct {
	r   []trow
	lvl int
}

func (t *trows) add(key, val string, ok func(string) bool) {
	t.r = append(t.r, trow{lvl: t.lvl, key: key, val: val, ok: ok})
}
func (t *trows) bare(key string) {
	t.r = append(t.r, trow{lvl: t.lvl, key: key, bare: true})
}
func (t *trows) str(key, v string) { t.add(key, v, func(s string) bool { return s == v }) }
func (t *trows) dec(key string, v uint64) {
	w := strconv.FormatUint(v, 10)
	t.str(key, w)
}
func (t *trows) bool(key string, v bool) { t.str(key, strconv.FormatBool(v)) }

// coded is a number, in decimal or hexadecimal, followed by its meaning.
func (t *trows) coded(key string, v uint64, name string) {
	t.add(key, fmt.Sprintf("%d/%#x (%s)", v, v, name), func(s string) bool {
		n, rest, _ := strings.Cut(s, " ")
		x, err := strconv.ParseUint(strings.TrimSuffix(n, ","), 0, 64)
		return err == nil && x == v && rest == "("+name+")"
	})
}

func (t *trows) hex(key string, v uint64) {
	t.add(key, fmt.Sprintf("%#x", v), func(s string) bool {
		x, err := strconv.ParseUint(s, 0, 64)
		return err == nil && x == v && strings.HasPrefix(s, "0x")
	})
}

func (t *trows) raw(key string, v []byte) {
	t.add(key, fmt.Sprintf("0x%x", v), func(s string) bool {
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		return err == nil && string(b) == string(v)
	})
}

var tableTimeLayouts = []string{time.RFC3339, "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 Z0700"}

func (t *trows) time(key string, gps uint32) {
	want := time.Unix(int64(gps)+gpsEpoch, 0).UTC()
	t.add(key, want.Format(time.RFC3339), func(s string) bool {
		for _, l := range tableTimeLayouts {
			if x, err := time.Parse(l, s); err == nil && x.Equal(want) {
				_, off := x.Zone()
				return off == 0
			}
		}
		return false
	})
}

func (t *trows) brk(b *Brk) {
	t.bool("auto_return", b.Auto)
	t.dec("duration", b.Dur)
}

// tableRows is the table of a section, from the syntax tables of the standard:
// every transmitted field that is not reserved, in transmission order.
func tableRows(m *Sec, sectionLen, cmdLen, loopLen int, descLen []int) []trow {
	t := &trows{}
	t.bare("splice_info_section()")
	t.lvl = 1
	t.hex("table_id", 0xFC)
	t.bool("section_syntax_indicator", false)
	t.bool("private_indicator", false)
	t.coded("sap_type", uint64(m.SAP), sapName(m.SAP))
	t.dec("section_length", uint64(sectionLen))
	t.lvl = 0
	t.bare("}")
	t.dec("protocol_version", uint64(m.Proto))
	t.coded("encryption_algorithm", uint64(m.EncAlg), encName(m.EncAlg))
	t.dec("pts_adjustment", m.PTSAdj)
	t.dec("cw_index", uint64(m.CW))
	t.dec("tier", uint64(m.Tier))
	if m.Cmd != nil {
		t.dec("splice_command_length", uint64(cmdLen))
		ty := m.Cmd.wireType()
		if _, ok := m.Cmd.(*CPriv); ok {
			ty = 0xFF
		}
		t.hex("splice_command_type", uint64(ty))
		t.cmd(m.Cmd)
	}
	t.dec("descriptor_loop_length", uint64(loopLen))
	for i, d := range m.Desc {
		t.desc(d, descLen[i])
	}
	return t.r
}

func (t *trows) cmd(c Cmd) {
	switch c := c.(type) {
	case *CNull:
		t.bare("splice_null() {}")
		return
	case *CBW:
		t.bare("bandwidth_reservation() {}")
		return
	case *CTime:
		t.bare("time_signal()")
		t.lvl = 1
		t.bool("time_specified_flag", c.PTS != nil)
		if c.PTS != nil {
			t.dec("pts_time", *c.PTS)
		}
	case *CPriv:
		t.bare("private_command()")
		t.lvl = 1
		t.coded("identifier", uint64(c.Ident), fourCC(c.Ident))
		t.raw("private_byte", c.Bytes)
	case *CInsert:
		t.bare("splice_insert()")
		t.lvl = 1
		t.dec("splice_event_id", uint64(c.ID))
		t.bool("splice_event_cancel_indicator", c.Cancel)
		if !c.Cancel {
			t.bool("out_of_network_indicator", c.OON)
			t.bool("program_splice_flag", c.Prog != nil)
			t.bool("duration_flag", c.Break != nil)
			t.bool("splice_immediate_flag", c.Imm)
			if c.Prog != nil && !c.Imm {
				t.bool("time_specified_flag", c.Prog.PTS != nil)
				if c.Prog.PTS != nil {
					t.dec("pts_time", *c.Prog.PTS)
				}
			}
			if c.Prog == nil {
				t.dec("component_count", uint64(len(c.Comps)))
				for i, x := range c.Comps {
					t.bare(fmt.Sprintf("component[%d]", i))
					t.lvl = 2
					t.dec("component_tag", uint64(x.Tag))
					if !c.Imm {
						t.bool("time_specified_flag", x.PTS != nil)
						if x.PTS != nil {
							t.dec("pts_time", *x.PTS)
						}
					}
					t.lvl = 1
					t.bare("}")
				}
			}
			if c.Break != nil {
				t.brk(c.Break)
			}
			t.dec("unique_program_id", uint64(c.UniqueID))
			t.dec("avail_num", uint64(c.Avail))
			t.dec("avails_expected", uint64(c.Expects))
		}
	case *CSched:
		t.bare("splice_schedule()")
		t.lvl = 1
		t.dec("splice_count", uint64(len(c.Events)))
		for i, e := range c.Events {
			t.lvl = 1
			t.bare(fmt.Sprintf("event[%d]", i))
			t.lvl = -1
			t.dec("splice_event_id", uint64(e.ID))
			t.bool("splice_event_cancel_indicator", e.Cancel)
			t.bool("event_id_compliance_flag", e.Compl)
			if !e.Cancel {
				t.bool("out_of_network_indicator", e.OON)
				t.bool("program_splice_flag", e.Prog != nil)
				t.bool("duration_flag", e.Break != nil)
				if e.Prog != nil {
					t.time("utc_splice_time", *e.Prog)
				} else {
					t.dec("component_count", uint64(len(e.Comps)))
					for j, x := range e.Comps {
						t.bare(fmt.Sprintf("component[%d]", j))
						t.dec("component_tag", uint64(x.Tag))
						t.time("utc_splice_time", x.UTC)
						t.bare("}")
					}
				}
				if e.Break != nil {
					t.brk(e.Break)
				}
				t.dec("unique_program_id", uint64(e.UniqueID))
				t.dec("avail_num", uint64(e.Avail))
				t.dec("avails_expected", uint64(e.Expects))
			}
			t.lvl = 1
			t.bare("}")
		}
	}
	t.lvl = 0
	t.bare("}")
}

func (t *trows) desc(d Desc, n int) {
	open := func(name string, id uint32) {
		t.bare(name)
		t.lvl = 1
		t.hex("splice_descriptor_tag", uint64(d.wireTag()))
		t.dec("descriptor_length", uint64(n))
		t.coded("identifier", uint64(id), fourCC(id))
	}
	switch d := d.(type) {
	case *DAvail:
		open("avail_descriptor()", cuei)
		t.dec("provider_avail_id", uint64(d.ID))
	case *DDTMF:
		open("dtmf_descriptor()", cuei)
		t.add("preroll", fmt.Sprintf("%d tenths of a second", d.Preroll), func(s string) bool {
			f, err := strconv.ParseFloat(s, 64)
			return err == nil && f*10 > float64(d.Preroll)-0.01 && f*10 < float64(d.Preroll)+0.01
		})
		t.dec("dtmf_count", uint64(len(d.Chars)))
		t.str("dtmf_chars", d.Chars)
	case *DTime:
		open("time_descriptor()", cuei)
		t.dec("tai_seconds", d.Sec)
		t.dec("tai_ns", uint64(d.NS))
		t.dec("utc_offset", uint64(d.Offset))
	case *DAudio:
		open("audio_descriptor()", cuei)
		t.dec("audio_count", uint64(len(d.Ch)))
		for i, c := range d.Ch {
			t.bare(fmt.Sprintf("audio_channel[%d]", i))
			t.lvl = 2
			t.dec("component_tag", uint64(c.Tag))
			t.str("iso_code", c.ISO)
			t.dec("bit_stream_mode", uint64(c.Mode))
			t.dec("num_channels", uint64(c.Chan))
			t.bool("full_srvc_audio", c.Full)
			t.lvl = 1
			t.bare("}")
		}
	case *DPriv:
		open("private_descriptor()", d.Ident)
		t.raw("private_bytes", d.Bytes)
	case *DSeg:
		open("segmentation_descriptor()", cuei)
		t.dec("segmentation_event_id", uint64(d.ID))
		t.bool("segmentation_event_cancel_indicator", d.Cancel)
		t.bool("segmentation_event_id_compliance_indicator", d.Compl)
		if !d.Cancel {
			t.bool("program_segmentation_flag", len(d.Comps) == 0)
			t.bool("segmentation_duration_flag", d.Dur != nil)
			t.bool("delivery_not_restricted_flag", d.Restr == nil)
			if r := d.Restr; r != nil {
				t.bool("web_delivery_allowed_flag", r.Web)
				t.bool("no_regional_blackout_flag", r.NoBlackout)
				t.bool("archive_allowed_flag", r.Archive)
				t.coded("device_restrictions", uint64(r.Device), deviceName(r.Device))
			}
			if len(d.Comps) > 0 {
				t.dec("component_count", uint64(len(d.Comps)))
				for i, c := range d.Comps {
					t.bare(fmt.Sprintf("component[%d]", i))
					t.lvl = 2
					t.dec("component_tag", uint64(c.Tag))
					t.dec("pts_offset", c.Offset)
					t.lvl = 1
					t.bare("}")
				}
			}
			if d.Dur != nil {
				t.dec("segmentation_duration", *d.Dur)
			}
			n := 0
			for _, u := range d.UPIDs {
				n += len(u.Raw)
				if len(d.UPIDs) > 1 {
					n += 2
				}
			}
			t.dec("segmentation_upid_length", uint64(n))
			for i, u := range d.UPIDs {
				f := upidPresent(u)
				t.bare(fmt.Sprintf("segmentation_upid[%d]", i))
				t.lvl = 2
				t.coded("segmentation_upid_type", uint64(u.Type), upidNameOf(u))
				if f.FI != nil {
					t.str("format_identifier", fourCC(*f.FI))
				}
				t.str("segmentation_upid", f.Value)
				t.lvl = 1
				t.bare("}")
			}
		}
		from := len(t.r)
		t.coded("segmentation_type_id", uint64(d.TypeID), segName(d.TypeID))
		t.dec("segment_num", uint64(d.Num))
		t.dec("segments_expected", uint64(d.Expected))
		if d.SubNum != nil {
			t.dec("sub_segment_num", uint64(*d.SubNum))
		}
		if d.SubExpec != nil {
			t.dec("sub_segments_expected", uint64(*d.SubExpec))
		}
		if d.Cancel { // not transmitted; the table shows the (zero) values
			for i := from; i < len(t.r); i++ {
				t.r[i].opt = true
			}
		}
	}
	t.lvl = 0
	t.bare("}")
}

const tPrefix, tIndent = "\x01§row§\x02", "\x03·\x04"

func checkRows(k *K, table string, want []trow) {
	k.Validated(1)
	if !strings.HasPrefix(table, tPrefix) || !strings.HasSuffix(table, "\n") {
		k.Fail("a row without the prefix, or without its end, in %q", table)
	}
	rows := strings.Split(table[len(tPrefix):], "\n"+tPrefix)
	rows[len(rows)-1] = strings.TrimSuffix(rows[len(rows)-1], "\n")
	i := 0
	for _, row := range rows {
		lvl := 0
		for strings.HasPrefix(row, tIndent) {
			row = row[len(tIndent):]
			lvl++
		}
		key, val, has := strings.Cut(row, ": ")
		if !has {
			key, val, has = strings.Cut(row, ":")
			if has && val != "" {
				key, has = row, false
			}
		}
		if !has {
			key = strings.TrimSuffix(key, " {")
		}
		for i < len(want) && want[i].opt && want[i].key != key {
			i++
		}
		if i == len(want) {
			k.Fail("unexpected row %q at the end of the table", row)
		}
		w := want[i]
		i++
		switch {
		case key != w.key:
			k.Fail("row %q where %s is expected", row, w.key)
		case has == w.bare:
			k.Fail("row %q: value of %s expected: %v", row, w.key, !w.bare)
		case has && !w.ok(val):
			k.Fail("row %q: value of %s should be %q", row, w.key, w.val)
		case w.lvl >= 0 && lvl != w.lvl:
			k.Fail("row %q is indented %d times, not %d", row, lvl, w.lvl)
		}
	}
	for i < len(want) && want[i].opt {
		i++
	}
	if i < len(want) {
		k.Fail("the table ends where %s is expected", want[i].key)
	}
}

func checkTable(k *K, cs Case) {
	m := cs.M
	b := enc(m)
	k.Input("%x", b)
	k.State(b)
	w := m.onWire()
	_, sz := encodeSizes(w, encOpt{})
	want := tableRows(w, sz.section, sz.command, sz.loop, sz.desc)
	secs := []*scte35.SpliceInfoSection{decodeOK(k, b)}
	if len(m.Stuff) == 0 {
		secs = append(secs, lib(m))
	}
	for i, s := range secs {
		x := want
		if i == 1 { // as built: values that would not be transmitted show where the table has a row for them
			if _, differs := m.Cmd.(*CInsert); differs || len(m.Desc) > 0 {
				x = tableRows(mergeShown(m), sz.section, sz.command, sz.loop, sz.desc)
			}
		}
		t := s.Table(tPrefix, tIndent)
		k.T(1)
		checkRows(k, t, x)
		// the same rows whatever the prefix and indent
		for _, pi := range [][2]string{{"", ""}, {"", "\t"}, {"> ", "  "}, {"", "->"}, {"# ", ""}, {"\t", "."}, {"%d", "%s"}, {": ", "{"}, {"\n", "\n"}, {"", strings.Repeat(" ", 40)}} {
			g := s.Table(pi[0], pi[1])
			k.T(1)
			r := strings.ReplaceAll(strings.ReplaceAll(t, tPrefix, pi[0]), tIndent, pi[1])
			if g != r {
				k.Fail("prefix %q indent %q change the table: %s", pi[0], pi[1], diff(g, r))
			}
		}
	}
}

// mergeShown is m as the table of the section built from it shows it: what is
// transmitted, but cancelled segmentations keep the values the optional rows
// show.
func mergeShown(m *Sec) *Sec {
	w := *m.onWire()
	w.Desc = m.Desc
	return &w
}

func propTable(c *Ctx) {
	ExploreCases(c, "universe", func(y yieldFn) bool { return universe(c.level(), y) }, checkTable)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantTable)
	ExploreCases(c, "no-command", func(y yieldFn) bool {
		return mutBases(func(cs Case) bool {
			cs.M.Cmd = nil
			return y(cs)
		})
	}, func(k *K, cs Case) {
		m := cs.M
		k.StateS(dump(lib(m)))
		m2 := *m
		m2.Cmd = &CNull{}
		_, sz := encodeSizes(&m2, encOpt{})
		k.T(1)
		checkRows(k, lib(m).Table(tPrefix, tIndent), tableRows(m, sz.section, 0, sz.loop, sz.desc))
	})
}
