package main

import (
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Expected JSON and XML documents, written from the model alone. A document
// is a generic tree; "absent" and "the default" are the same thing, except
// where absence has a meaning of its own (optional times, durations, ...).

// ---- JSON ----

type jobj map[string]any

func un(v uint32) json.Number   { return json.Number(strconv.FormatUint(uint64(v), 10)) }
func un64(v uint64) json.Number { return json.Number(strconv.FormatUint(v, 10)) }

func utcString(gps uint32) string {
	return time.Unix(int64(gps)+gpsEpoch, 0).UTC().Format("2006-01-02T15:04:05Z")
}

func jpts(p *uint64) jobj {
	if p == nil {
		return jobj{}
	}
	return jobj{"ptsTime": un64(*p)}
}

func jbrk(b *Brk) any {
	if b == nil {
		return nil
	}
	return jobj{"autoReturn": b.Auto, "duration": un64(b.Dur)}
}

func jcmd(c Cmd) any {
	switch c := c.(type) {
	case nil:
		return nil
	case *CNull:
		return jobj{"type": un(0)}
	case *CBW:
		return jobj{"type": un(7)}
	case *CTime:
		return jobj{"type": un(6), "spliceTime": jpts(c.PTS)}
	case *CPriv:
		return jobj{"type": un(255), "identifier": un(c.Ident), "privateBytes": hex.EncodeToString(c.Bytes)}
	case *CInsert:
		o := jobj{"type": un(5), "spliceEventId": un(c.ID), "spliceEventCancelIndicator": c.Cancel,
			"spliceImmediateFlag": c.Imm, "outOfNetworkIndicator": c.OON, "uniqueProgramId": un(c.UniqueID),
			"availNum": un(c.Avail), "availsExpected": un(c.Expects), "breakDuration": jbrk(c.Break)}
		if c.Prog != nil {
			o["program"] = jobj{"spliceTime": jpts(c.Prog.PTS)}
		}
		var l []any
		for _, x := range c.Comps {
			e := jobj{"componentTag": un(x.Tag)}
			if x.HasST || x.PTS != nil {
				e["spliceTime"] = jpts(x.PTS)
			}
			l = append(l, e)
		}
		o["components"] = l
		return o
	case *CSched:
		var evs []any
		for _, e := range c.Events {
			o := jobj{"spliceEventId": un(e.ID), "spliceEventCancelIndicator": e.Cancel, "eventIdComplianceFlag": e.Compl,
				"outOfNetworkIndicator": e.OON, "uniqueProgramId": un(e.UniqueID), "availNum": un(e.Avail),
				"availsExpected": un(e.Expects), "breakDuration": jbrk(e.Break)}
			if e.Prog != nil {
				o["program"] = jobj{"utcSpliceTime": utcString(*e.Prog)}
			}
			var l []any
			for _, x := range e.Comps {
				l = append(l, jobj{"componentTag": un(x.Tag), "utcSpliceTime": utcString(x.UTC)})
			}
			o["components"] = l
			evs = append(evs, o)
		}
		return jobj{"type": un(4), "events": evs}
	}
	panic("jcmd")
}

func jdesc(d Desc) any {
	switch d := d.(type) {
	case *DAvail:
		return jobj{"type": un(0), "providerAvailId": un(d.ID)}
	case *DDTMF:
		return jobj{"type": un(1), "preroll": un(d.Preroll), "chars": d.Chars}
	case *DTime:
		return jobj{"type": un(3), "taiSeconds": un64(d.Sec), "taiNs": un(d.NS), "utcOffset": un(d.Offset)}
	case *DPriv:
		return jobj{"type": un(d.Tag), "tag": un(d.Tag), "identifier": un(d.Ident), "privateBytes": hex.EncodeToString(d.Bytes)}
	case *DAudio:
		var l []any
		for _, c := range d.Ch {
			l = append(l, jobj{"componentTag": un(c.Tag), "isoCode": c.ISO, "bitStreamMode": un(c.Mode), "numChannels": un(c.Chan), "fullSrvcAudio": c.Full})
		}
		return jobj{"type": un(4), "audioChannels": l}
	case *DSeg:
		o := jobj{"type": un(2), "segmentationEventId": un(d.ID), "segmentationEventCancelIndicator": d.Cancel,
			"segmentationEventIdComplianceIndicator": d.Compl, "segmentationTypeId": un(d.TypeID),
			"segmentNum": un(d.Num), "segmentsExpected": un(d.Expected)}
		if d.Dur != nil {
			o["segmentationDuration"] = un64(*d.Dur)
		}
		if d.SubNum != nil {
			o["subSegmentNum"] = un(*d.SubNum)
		}
		if d.SubExpec != nil {
			o["subSegmentsExpected"] = un(*d.SubExpec)
		}
		if r := d.Restr; r != nil {
			o["deliveryRestrictions"] = jobj{"archiveAllowedFlag": r.Archive, "webDeliveryAllowedFlag": r.Web,
				"noRegionalBlackoutFlag": r.NoBlackout, "deviceRestrictions": un(r.Device)}
		}
		var l, us []any
		for _, c := range d.Comps {
			l = append(l, jobj{"componentTag": un(c.Tag), "ptsOffset": un64(c.Offset)})
		}
		o["components"] = l
		for _, u := range d.UPIDs {
			f := upidPresent(u)
			x := jobj{"segmentationUpidType": un(f.Type), "segmentationUpidFormat": f.Format, "value": f.Value}
			if f.FI != nil {
				x["formatIdentifier"] = un(*f.FI)
			}
			us = append(us, x)
		}
		o["segmentationUpids"] = us
		return o
	}
	panic("jdesc")
}

func jdoc(m *Sec) jobj {
	var ds []any
	for _, d := range m.Desc {
		ds = append(ds, jdesc(d))
	}
	return jobj{"encryptedPacket": jobj{"encryptionAlgorithm": un(m.EncAlg), "cwIndex": un(m.CW)},
		"sapType": un(m.SAP), "tier": un(m.Tier), "protocolVersion": un(m.Proto), "ptsAdjustment": un64(m.PTSAdj),
		"preRollMilliSeconds": un(m.PreRoll), "spliceCommand": jcmd(m.Cmd), "spliceDescriptors": ds}
}

// jkeep: keys whose absence differs from zero.
var jkeep = map[string]bool{"sapType": true, "ptsTime": true, "segmentationDuration": true, "subSegmentNum": true,
	"subSegmentsExpected": true, "formatIdentifier": true, "identifier": true}

func jdefault(k string, v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case bool:
		return !v
	case string:
		return v == ""
	case json.Number:
		return v == "0" && !jkeep[k]
	case []any:
		return len(v) == 0
	}
	return false
}

// jcanon prints a JSON tree in canonical form, defaults dropped, times as
// instants.
func jcanon(key string, v any) string {
	var sb strings.Builder
	var rec func(key string, v any)
	rec = func(key string, v any) {
		switch v := v.(type) {
		case nil:
			sb.WriteString("null")
		case bool:
			fmt.Fprint(&sb, v)
		case json.Number:
			sb.WriteString(string(v))
		case string:
			if key == "utcSpliceTime" {
				if t, err := time.Parse(time.RFC3339Nano, v); err == nil {
					fmt.Fprintf(&sb, "@%d.%d", t.Unix(), t.Nanosecond())
					return
				}
			}
			if key == "privateBytes" {
				v = strings.ToLower(v)
			}
			sb.WriteString(strconv.Quote(v))
		case []any:
			sb.WriteByte('[')
			for _, x := range v {
				rec("", x)
				sb.WriteByte(',')
			}
			sb.WriteByte(']')
		case jobj:
			rec(key, map[string]any(v))
		case map[string]any:
			sb.WriteByte('{')
			var ks []string
			for k, x := range v {
				if !jdefault(k, x) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				sb.WriteString(k)
				sb.WriteByte(':')
				rec(k, v[k])
				sb.WriteByte(' ')
			}
			sb.WriteByte('}')
		default:
			fmt.Fprintf(&sb, "?%T", v)
		}
	}
	rec(key, v)
	return sb.String()
}

func jparse(b []byte) (any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

type jstyle struct {
	rev      bool   // keys in descending order
	omit     bool   // defaults left out
	sp       string // white space between tokens
	escape   bool   // \u escapes for everything
	noSAP    bool   // leave sapType out when it is 3
	upperHex bool
	offset   bool // times with a UTC offset
}

func (s jstyle) String() string {
	return fmt.Sprintf("rev=%v omit=%v ws=%q escape=%v noSAP=%v hex=%v offset=%v", s.rev, s.omit, s.sp, s.escape, s.noSAP, s.upperHex, s.offset)
}

func (s jstyle) str(v string) string {
	if !s.escape {
		var sb strings.Builder
		e := json.NewEncoder(&sb)
		e.SetEscapeHTML(false)
		_ = e.Encode(v)
		return strings.TrimSuffix(sb.String(), "\n")
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range v {
		fmt.Fprintf(&sb, `\u%04X`, r)
	}
	sb.WriteByte('"')
	return sb.String()
}

func offsetTime(v string) string {
	t, err := time.Parse(time.RFC3339, v)
	if err != nil {
		return v
	}
	return t.In(time.FixedZone("", -5*3600-1800)).Format(time.RFC3339)
}

func (s jstyle) render(v any) string {
	var sb strings.Builder
	var rec func(key string, v any)
	rec = func(key string, v any) {
		switch v := v.(type) {
		case nil:
			sb.WriteString("null")
		case bool:
			fmt.Fprint(&sb, v)
		case json.Number:
			sb.WriteString(string(v))
		case string:
			if s.upperHex && key == "privateBytes" {
				v = strings.ToUpper(v)
			}
			if s.offset && key == "utcSpliceTime" {
				v = offsetTime(v)
			}
			if key == "utcSpliceTime" { // the time package takes no escapes
				sb.WriteString(`"` + v + `"`)
				return
			}
			sb.WriteString(s.str(v))
		case []any:
			if v == nil {
				sb.WriteString("null")
				return
			}
			sb.WriteString("[" + s.sp)
			for i, x := range v {
				if i > 0 {
					sb.WriteString("," + s.sp)
				}
				rec("", x)
			}
			sb.WriteString(s.sp + "]")
		case jobj:
			var ks []string
			for k, x := range v {
				if s.omit && jdefault(k, x) || s.noSAP && k == "sapType" && x == json.Number("3") {
					continue
				}
				ks = append(ks, k)
			}
			sort.Strings(ks)
			sb.WriteString("{" + s.sp)
			for i := range ks {
				k := ks[i]
				if s.rev {
					k = ks[len(ks)-1-i]
				}
				if i > 0 {
					sb.WriteString("," + s.sp)
				}
				sb.WriteString(`"` + k + `"` + s.sp + ":" + s.sp)
				rec(k, v[k])
			}
			sb.WriteString(s.sp + "}")
		default:
			panic("render")
		}
	}
	rec("", v)
	return sb.String()
}

// ---- XML ----

const scteNS = "http://www.scte.org/schemas/35"

type xnode struct {
	Name string
	NS   string
	Attr [][2]string
	Kids []*xnode
	Text string
}

func xn(name string, attrs ...any) *xnode {
	n := &xnode{Name: name, NS: scteNS}
	for i := 0; i < len(attrs); i += 2 {
		n.Attr = append(n.Attr, [2]string{attrs[i].(string), fmt.Sprint(attrs[i+1])})
	}
	return n
}

func (n *xnode) attr(k string, v any) { n.Attr = append(n.Attr, [2]string{k, fmt.Sprint(v)}) }
func (n *xnode) kid(k ...*xnode) {
	for _, x := range k {
		if x != nil {
			n.Kids = append(n.Kids, x)
		}
	}
}

func xpts(p *uint64) *xnode {
	n := xn("SpliceTime")
	if p != nil {
		n.attr("ptsTime", *p)
	}
	return n
}

func xbrk(b *Brk) *xnode {
	if b == nil {
		return nil
	}
	return xn("BreakDuration", "autoReturn", b.Auto, "duration", b.Dur)
}

func xcmd(c Cmd) *xnode {
	switch c := c.(type) {
	case *CNull:
		return xn("SpliceNull")
	case *CBW:
		return xn("BandwidthReservation")
	case *CTime:
		n := xn("TimeSignal")
		n.kid(xpts(c.PTS))
		return n
	case *CPriv:
		n := xn("PrivateCommand", "identifier", c.Ident)
		n.Text = hex.EncodeToString(c.Bytes)
		return n
	case *CInsert:
		n := xn("SpliceInsert", "spliceEventId", c.ID, "spliceEventCancelIndicator", c.Cancel, "spliceImmediateFlag", c.Imm,
			"outOfNetworkIndicator", c.OON, "uniqueProgramId", c.UniqueID, "availNum", c.Avail, "availsExpected", c.Expects)
		if c.Prog != nil {
			p := xn("Program")
			p.kid(xpts(c.Prog.PTS))
			n.kid(p)
		}
		for _, x := range c.Comps {
			e := xn("Component", "componentTag", x.Tag)
			if x.HasST || x.PTS != nil {
				e.kid(xpts(x.PTS))
			}
			n.kid(e)
		}
		n.kid(xbrk(c.Break))
		return n
	case *CSched:
		n := xn("SpliceSchedule")
		for _, e := range c.Events {
			x := xn("Event", "spliceEventId", e.ID, "spliceEventCancelIndicator", e.Cancel, "eventIdComplianceFlag", e.Compl,
				"outOfNetworkIndicator", e.OON, "uniqueProgramId", e.UniqueID, "availNum", e.Avail, "availsExpected", e.Expects)
			if e.Prog != nil {
				x.kid(xn("Program", "utcSpliceTime", utcString(*e.Prog)))
			}
			for _, y := range e.Comps {
				x.kid(xn("Component", "componentTag", y.Tag, "utcSpliceTime", utcString(y.UTC)))
			}
			x.kid(xbrk(e.Break))
			n.kid(x)
		}
		return n
	}
	return nil
}

func xdesc(d Desc) *xnode {
	switch d := d.(type) {
	case *DAvail:
		return xn("AvailDescriptor", "providerAvailId", d.ID)
	case *DDTMF:
		return xn("DTMFDescriptor", "preroll", d.Preroll, "chars", d.Chars)
	case *DTime:
		return xn("TimeDescriptor", "taiSeconds", d.Sec, "taiNs", d.NS, "utcOffset", d.Offset)
	case *DPriv:
		n := xn("PrivateDescriptor", "tag", d.Tag, "identifier", d.Ident)
		n.Text = hex.EncodeToString(d.Bytes)
		return n
	case *DAudio:
		n := xn("AudioDescriptor")
		for _, c := range d.Ch {
			n.kid(xn("AudioChannel", "componentTag", c.Tag, "ISOCode", c.ISO, "BitStreamMode", c.Mode, "NumChannels", c.Chan, "FullSrvcAudio", c.Full))
		}
		return n
	case *DSeg:
		n := xn("SegmentationDescriptor", "segmentationEventId", d.ID, "segmentationEventCancelIndicator", d.Cancel,
			"segmentationEventIdComplianceIndicator", d.Compl, "segmentationTypeId", d.TypeID, "segmentNum", d.Num, "segmentsExpected", d.Expected)
		if d.Dur != nil {
			n.attr("segmentationDuration", *d.Dur)
		}
		if d.SubNum != nil {
			n.attr("subSegmentNum", *d.SubNum)
		}
		if d.SubExpec != nil {
			n.attr("subSegmentsExpected", *d.SubExpec)
		}
		if r := d.Restr; r != nil {
			n.kid(xn("DeliveryRestrictions", "archiveAllowedFlag", r.Archive, "webDeliveryAllowedFlag", r.Web,
				"noRegionalBlackoutFlag", r.NoBlackout, "deviceRestrictions", r.Device))
		}
		for _, u := range d.UPIDs {
			f := upidPresent(u)
			x := xn("SegmentationUpid", "segmentationUpidType", f.Type, "segmentationUpidFormat", f.Format)
			if f.FI != nil {
				x.attr("formatIdentifier", *f.FI)
			}
			x.Text = f.Value
			n.kid(x)
		}
		for _, c := range d.Comps {
			n.kid(xn("Component", "componentTag", c.Tag, "ptsOffset", c.Offset))
		}
		return n
	}
	panic("xdesc")
}

func xdoc(m *Sec) *xnode {
	n := xn("SpliceInfoSection", "sapType", m.SAP, "preRollMilliSeconds", m.PreRoll, "ptsAdjustment", m.PTSAdj,
		"protocolVersion", m.Proto, "tier", m.Tier)
	n.kid(xn("EncryptedPacket", "encryptionAlgorithm", m.EncAlg, "cwIndex", m.CW), xcmd(m.Cmd))
	for _, d := range m.Desc {
		n.kid(xdesc(d))
	}
	return n
}

func xdefault(k, v string) bool {
	if k == "chars" || k == "ISOCode" {
		return v == ""
	}
	return (v == "0" || v == "false" || v == "") && !jkeep[k]
}

func (n *xnode) isCmd() bool {
	switch n.Name {
	case "SpliceNull", "SpliceSchedule", "SpliceInsert", "TimeSignal", "BandwidthReservation", "PrivateCommand":
		return true
	}
	return false
}

// canon prints the tree with defaults dropped and attributes sorted. Below
// the root, elements of different names are unordered; among the root's
// descriptors order counts.
func (n *xnode) canon() string {
	var sb strings.Builder
	n.canonTo(&sb, true)
	return sb.String()
}

func (n *xnode) canonTo(sb *strings.Builder, root bool) {
	fmt.Fprintf(sb, "<%s", n.Name)
	if n.NS != scteNS {
		fmt.Fprintf(sb, "{%s}", n.NS)
	}
	as := append([][2]string{}, n.Attr...)
	sort.Slice(as, func(i, j int) bool { return as[i][0] < as[j][0] })
	for _, a := range as {
		if xdefault(a[0], a[1]) {
			continue
		}
		v := a[1]
		if a[0] == "FullSrvcAudio" && v == "1" { // xsd:unsignedByte in the schema
			v = "true"
		}
		if a[0] == "utcSpliceTime" {
			if t, err := time.Parse(time.RFC3339Nano, v); err == nil {
				v = fmt.Sprintf("@%d.%d", t.Unix(), t.Nanosecond())
			}
		}
		fmt.Fprintf(sb, " %s=%q", a[0], v)
	}
	sb.WriteByte('>')
	if t := strings.Trim(n.Text, " \t\r\n"); t != "" {
		if n.Name == "PrivateCommand" || n.Name == "PrivateDescriptor" {
			t = strings.ToLower(t)
		}
		fmt.Fprintf(sb, "%q", t)
	}
	ks := append([]*xnode{}, n.Kids...)
	sort.SliceStable(ks, func(i, j int) bool { return xrank(ks[i], root) < xrank(ks[j], root) })
	for _, k := range ks {
		k.canonTo(sb, false)
	}
	sb.WriteString("</>")
}

func xrank(n *xnode, root bool) string {
	if !root {
		return n.Name
	}
	switch {
	case n.Name == "EncryptedPacket":
		return "0"
	case n.isCmd():
		return "1"
	}
	return "2"
}

func xparse(b []byte) (*xnode, error) {
	d := xml.NewDecoder(strings.NewReader(string(b)))
	var root *xnode
	var stack []*xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &xnode{Name: t.Name.Local, NS: t.Name.Space}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + ":" + k
				}
				n.Attr = append(n.Attr, [2]string{k, a.Value})
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, fmt.Errorf("two roots")
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(t)
			} else if strings.Trim(string(t), " \t\r\n") != "" {
				return nil, fmt.Errorf("text outside the root element: %q", t)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root")
	}
	return root, nil
}

type xstyle struct {
	rev     bool // attributes in reverse order
	omit    bool // defaults left out
	ws      bool // white space and comments between elements
	prefix  string
	numBool bool // 1/0 for booleans
	refs    bool // numeric character references
	cdata   bool
	noSAP   bool
	pad     bool // white space around text
	offset  bool
	long    bool // long comments and white space
	split   bool // comments within text
}

func (s xstyle) String() string { type p xstyle; return fmt.Sprintf("%+v", p(s)) }

func (s xstyle) esc(v string, attr bool) string {
	var sb strings.Builder
	for _, r := range v {
		switch {
		case s.refs || r < 0x20 || r == 0x7F || r == 0x85 || r == '<' || r == '&' || r == '"' || r == '>':
			fmt.Fprintf(&sb, "&#x%X;", r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s xstyle) render(n *xnode) string {
	var sb strings.Builder
	pre := ""
	if s.prefix != "" {
		pre = s.prefix + ":"
	}
	var rec func(n *xnode, depth int)
	rec = func(n *xnode, depth int) {
		if s.ws {
			sb.WriteString("\n" + strings.Repeat("  ", depth))
			if depth > 0 {
				sb.WriteString("<!-- " + n.Name + " --><?pi x?>")
			}
			if s.long {
				sb.WriteString(strings.Repeat(" \t\n", 200) + "<!--" + strings.Repeat(" <SpliceNull/> ", 50) + "-->")
			}
		}
		sb.WriteString("<" + pre + n.Name)
		var as []string
		for _, a := range n.Attr {
			k, v := a[0], a[1]
			if s.omit && xdefault(k, v) || s.noSAP && k == "sapType" && v == "3" {
				continue
			}
			if s.numBool && v == "true" && k != "chars" {
				v = "1"
			}
			if s.numBool && v == "false" && k != "chars" {
				v = "0"
			}
			if s.offset && k == "utcSpliceTime" {
				v = offsetTime(v)
			}
			as = append(as, k+`="`+s.esc(v, true)+`"`)
		}
		if depth == 0 {
			if s.prefix != "" {
				as = append(as, "xmlns:"+s.prefix+`="`+scteNS+`"`)
			} else {
				as = append(as, `xmlns="`+scteNS+`"`)
			}
		}
		for i := range as {
			j := i
			if s.rev {
				j = len(as) - 1 - i
			}
			sb.WriteString(" " + as[j])
		}
		var kids []*xnode
		for _, k := range n.Kids {
			if s.omit && k.Name == "EncryptedPacket" && k.Attr[0][1] == "0" && k.Attr[1][1] == "0" {
				continue
			}
			kids = append(kids, k)
		}
		if len(kids) == 0 && n.Text == "" {
			if s.rev {
				sb.WriteString("/>")
			} else {
				sb.WriteString("></" + pre + n.Name + ">")
			}
			return
		}
		sb.WriteString(">")
		if n.Text != "" {
			t := s.esc(n.Text, false)
			if s.cdata && !strings.Contains(n.Text, "]]>") && !strings.ContainsAny(n.Text, "\r") {
				t = "<![CDATA[" + n.Text + "]]>"
			}
			if s.split && !s.cdata && !s.refs {
				if r := []rune(n.Text); len(r) > 1 && r[len(r)/2] != '\n' {
					t = s.esc(string(r[:len(r)/2]), false) + "<!-- c --><?pi x?>" + s.esc(string(r[len(r)/2:]), false)
				}
			}
			if s.pad && (n.Name == "SegmentationUpid" || n.Name == "PrivateCommand" || n.Name == "PrivateDescriptor") {
				t = "\n\t " + t + " \n"
			}
			sb.WriteString(t)
		}
		for _, k := range kids {
			rec(k, depth+1)
		}
		if s.ws && len(kids) > 0 {
			sb.WriteString("\n" + strings.Repeat("  ", depth))
		}
		sb.WriteString("</" + pre + n.Name + ">")
	}
	if s.ws {
		sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	rec(n, 0)
	return sb.String()
}

// xmlText: XML can carry s, and surrounding white space is not part of it.
func xmlText(s string) bool {
	if !utf8.ValidString(s) || strings.Trim(s, " \t\r\n") != s {
		return false
	}
	for _, r := range s {
		if !(r == 9 || r == 10 || r == 13 || r >= 0x20 && r != 0xFFFE && r != 0xFFFF) {
			return false
		}
	}
	return true
}

// jsonable: the strings of m are text.
func jsonable(m *Sec) bool { return textOK(m, utf8.ValidString, func(string) bool { return true }) }

// xmlable: XML can carry every string of m.
func xmlable(m *Sec) bool { return textOK(m, xmlAttr, xmlText) }

func xmlAttr(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if r < 0x20 && r != 9 && r != 10 && r != 13 {
			return false
		}
	}
	return true
}

func textOK(m *Sec, str, upid func(string) bool) bool {
	if c, ok := m.Cmd.(*CPriv); ok && c.Type != 0 {
		return false
	}
	for _, d := range m.Desc {
		switch d := d.(type) {
		case *DDTMF:
			if !str(d.Chars) {
				return false
			}
		case *DAudio:
			for _, c := range d.Ch {
				if !str(c.ISO) {
					return false
				}
			}
		case *DSeg:
			for _, u := range d.UPIDs {
				if !upid(upidPresent(u).Value) {
					return false
				}
			}
		}
	}
	return true
}
