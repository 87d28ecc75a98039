package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

func init() { props["C25"] = propSchema }

// ---- C25: the XML schema ----

var xsd22 = loadSchema("scte_35_20220816.xsd", func(s string) string { return s })

// The 2023 schema adds the compliance flags of SCTE 35 2022b; the name of one
// of its attributes has a slip of the pen.
var xsd23 = loadSchema("scte_35_20230713.xsd", func(s string) string {
	return strings.ReplaceAll(s, "segmentationEventIdComplianceIndicatorbute", "segmentationEventIdComplianceIndicator")
})

var xsdRequired, xsdAttrs = xsd23.declaredAttrs()

var xsdRequiredOf = func() map[string][]string {
	m := map[string][]string{}
	for k := range xsdRequired {
		if e, a, ok := strings.Cut(k, "/"); ok {
			m[e] = append(m[e], a)
		}
	}
	return m
}()

// schemaDescribes: the schema has a form for m.
func schemaDescribes(m *Sec) bool {
	if m.Proto != 0 { // fixed by the schema
		return false
	}
	switch c := m.Cmd.(type) {
	case nil:
		return false
	case *CPriv:
		if c.Type != 0 {
			return false
		}
	case *CInsert: // a program or at least one component, cancelled or not
		if (c.Prog != nil) == (len(c.Comps) > 0) || len(c.Comps) > 255 {
			return false
		}
	case *CSched:
		if len(c.Events) > 255 {
			return false
		}
		for _, e := range c.Events {
			if (e.Prog != nil) == (len(e.Comps) > 0) || len(e.Comps) > 255 {
				return false
			}
		}
	}
	for _, d := range m.Desc {
		switch d := d.(type) {
		case *DDTMF:
			if strings.Trim(d.Chars, "0123456789#*") != "" {
				return false
			}
		case *DAudio:
			if len(d.Ch) < 1 || len(d.Ch) > 15 {
				return false
			}
			for _, c := range d.Ch {
				if !languageRE.MatchString(c.ISO) {
					return false
				}
			}
		case *DSeg:
			if len(d.Comps) > 255 {
				return false
			}
		}
	}
	return true
}

// hasCompliance: m sets a flag that the 2022 schema does not have.
func hasCompliance(m *Sec) bool {
	if c, ok := m.Cmd.(*CSched); ok {
		for _, e := range c.Events {
			if e.Compl {
				return true
			}
		}
	}
	for _, d := range m.Desc {
		if g, ok := d.(*DSeg); ok && g.Compl {
			return true
		}
	}
	return false
}

func schemaErrors(m *Sec, n *xnode) []string {
	l := xsd23.validate(n)
	if !hasCompliance(m) {
		for _, e := range xsd22.validate(n) {
			l = append(l, e)
		}
	}
	return l
}

// knownSchema: rules that the library is known to break (known-findings.txt).
var knownSchema = map[string]string{
	"PrivateCommand: character data in element content":    "xml-private-bytes",
	"PrivateDescriptor: character data in element content": "xml-private-bytes",
	"PrivateDescriptor: attribute tag is not declared":     "xml-descriptor-tag",
	"PrivateDescriptor/@descriptorTag: required":           "xml-descriptor-tag",
}

func checkSchemaWrite(k *K, cs Case) {
	m := cs.M
	if !xmlable(m) || !schemaDescribes(m) {
		return
	}
	k.StateS(xdoc(m).canon())
	for _, indent := range []bool{false, true} {
		doc := toXML(k, lib(m), indent)
		k.Input("%s", doc)
		n, err := xparse(doc)
		if err != nil {
			k.Fail("not an XML document: %v", err)
		}
		k.Validated(1)
		for _, e := range schemaErrors(m, n) {
			if id := knownSchema[e]; id != "" {
				k.Known(id, e)
				continue
			}
			k.Fail("the document is not valid against the SCTE 35 XML Schema: %s", e)
		}
	}
}

// sstyle is a way of writing a document that the schema leaves open.
type sstyle struct {
	ext    int  // 0 none, 1 empty Ext elements, 2 Ext elements full of look-alikes
	upid   int  // 0 as the library writes them, 1 hexbinary, 2 base-64, 3 no format
	num    bool // leading zeros and white space
	truth  int  // 0 true/false, 1 1/0, 2 padded
	date   int  // 0 Z, 1 offset, 2 fraction, 3 no offset, white space
	omit   bool // optional parts holding defaults left out
	xsi    bool // attributes of other namespaces
	indent bool
	ns     int // which of otherNS
}

func lookalikes() []*xnode {
	var l []*xnode
	for _, n := range []*xnode{xpts(p64(99)), xn("Program", "utcSpliceTime", "2001-01-01T00:00:00Z"), xn("Component", "componentTag", 77, "ptsOffset", 7),
		xn("BreakDuration", "autoReturn", true, "duration", 5), xn("Event", "spliceEventId", 9), xn("DeliveryRestrictions", "deviceRestrictions", 2),
		xn("AudioChannel", "ISOCode", "xyz"), xn("SpliceNull"), xn("AvailDescriptor", "providerAvailId", 3), xn("EncryptedPacket", "encryptionAlgorithm", 2, "cwIndex", 3)} {
		l = append(l, n)
	}
	u := xn("SegmentationUpid", "segmentationUpidType", 9)
	u.Text = "other"
	p := xn("PrivateBytes")
	p.Text = "EEFF"
	deep := xn("Ext")
	deep.kid(xpts(p64(98)), &xnode{Name: "SpliceInfoSection", NS: "urn:other"})
	l = append(l, u, p, deep, &xnode{Name: "SpliceTime", NS: "urn:other", Attr: [][2]string{{"ptsTime", "6"}}, Text: "text"})
	return l
}

// schemaDoc is the document of m as the schema has it.
func schemaDoc(m *Sec, st sstyle) *xnode {
	root := xdoc(m)
	di := 0
	for _, k := range root.Kids { // what the schema does otherwise than the library
		if k.Name == "EncryptedPacket" || k.isCmd() && k.Name != "PrivateCommand" {
			continue
		}
		switch k.Name {
		case "PrivateCommand", "PrivateDescriptor":
			b := xn("PrivateBytes")
			b.Text = strings.ToUpper(k.Text)
			if st.indent {
				b.Text = "\n  " + strings.ToLower(k.Text) + "\t"
			}
			if k.Text != "" || !st.omit {
				k.kid(b)
			}
			k.Text = ""
			for i := range k.Attr {
				if k.Attr[i][0] == "tag" {
					k.Attr[i][0] = "descriptorTag"
				}
			}
		}
		if k.isCmd() {
			continue
		}
		if g, ok := m.Desc[di].(*DSeg); ok {
			ui := 0
			for _, u := range k.Kids {
				if u.Name == "SegmentationUpid" {
					schemaUPID(u, g.UPIDs[ui], st)
					ui++
				}
			}
		}
		di++
	}
	var rec func(n *xnode)
	rec = func(n *xnode) {
		var as [][2]string
		for _, a := range n.Attr {
			k, v := a[0], a[1]
			def := v == "0" || v == "false" || v == ""
			switch k {
			case "sapType":
				def = v == "3"
			case "ptsTime", "segmentationDuration", "subSegmentNum", "subSegmentsExpected", "formatIdentifier", "segmentationUpidFormat", "tier", "segmentationUpidType":
				def = false
			case "componentTag":
				def = false // absence means 0xFF in an AudioChannel, and is not allowed elsewhere
			case "chars":
				if v == "" { // "" is not allowed
					continue
				}
				def = false
			case "eventIdComplianceFlag", "segmentationEventIdComplianceIndicator":
				if v == "false" { // not in the 2022 schema
					continue
				}
			}
			if def && st.omit && !xsdRequired[n.Name+"/"+k] {
				continue
			}
			isNum := v != "" && strings.Trim(v, "0123456789") == "" && k != "chars"
			switch {
			case k == "FullSrvcAudio" && st.truth == 0, v == "true" && st.truth == 1, v == "false" && st.truth == 1:
				v = map[string]string{"true": "1", "false": "0"}[v]
			case k == "FullSrvcAudio":
				v = map[string]string{"true": "1", "false": "0"}[v]
				if st.truth == 2 {
					v = " " + v + "\t"
				}
			case (v == "true" || v == "false") && st.truth == 2:
				v = "\n" + v + " "
			case isNum && st.num:
				v = " 00" + v + "\n"
			case k == "utcSpliceTime" && st.date == 1:
				v = offsetTime(v)
			case k == "utcSpliceTime" && st.date == 2:
				v = strings.Replace(v, "Z", ".000Z", 1)
			case k == "utcSpliceTime" && st.date == 3:
				v = "\t" + strings.Replace(v, "Z", " ", 1)
			}
			as = append(as, [2]string{k, v})
		}
		simple := n.Name == "SegmentationUpid" || n.Name == "PrivateBytes"
		if st.xsi && n.Name == "SpliceInfoSection" {
			as = append(as, [2]string{"xsi:schemaLocation", scteNS + " scte_35_20220816.xsd"})
		}
		if st.xsi && n.Name != "PrivateBytes" {
			as = append([][2]string{{"xml:lang", "en"}}, as...)
			for k := range xsdAttrs[n.Name] { // the names of ours with other meanings
				as = append(as, [2]string{"xmlns:" + k, "urn:another"}, [2]string{"o:" + k, "~"})
			}
			sort.Slice(as, func(i, j int) bool { return as[i][0] < as[j][0] })
		}
		n.Attr = as
		var kids []*xnode
		if st.ext > 0 && !simple {
			e := xn("Ext")
			if st.ext == 2 {
				e.Kids = lookalikes()
				e.Attr = [][2]string{{"ptsTime", "55"}, {"o:tag", "7"}}
			}
			kids = append(kids, e)
		}
		for _, k := range n.Kids {
			if st.omit {
				if k.Name == "EncryptedPacket" && k.get("encryptionAlgorithm") == "0" && k.get("cwIndex") == "0" {
					continue
				}
				if k.Name == "SpliceTime" && len(k.Attr) == 0 && n.Name == "Program" {
					continue
				}
			}
			rec(k)
			kids = append(kids, k)
		}
		n.Kids = kids
	}
	rec(root)
	return root
}

func schemaUPID(n *xnode, u UPID, st sstyle) {
	raw := u.Raw
	native64 := false
	switch u.Type {
	case 0x0C:
		raw = raw[4:]
		native64 = true
	case 5, 6:
		native64 = true
	}
	format := n.get("segmentationUpidFormat")
	switch st.upid {
	case 1:
		format = "hexbinary"
		n.Text = fmt.Sprintf("%X", raw)
		if st.indent {
			n.Text = "\n " + hex.EncodeToString(raw) + " "
		}
	case 2:
		format = "base-64"
		n.Text = base64.StdEncoding.EncodeToString(raw)
	case 3:
		if !native64 {
			format = ""
		}
	}
	var as [][2]string
	for _, a := range n.Attr {
		if a[0] == "segmentationUpidFormat" {
			if a[1] = format; format == "" {
				continue
			}
		}
		as = append(as, a)
	}
	n.Attr = as
}

// nativeUPIDs: every UPID of m survives as an xsd:token.
func nativeUPIDs(m *Sec) bool {
	for _, d := range m.Desc {
		if g, ok := d.(*DSeg); ok {
			for _, u := range g.UPIDs {
				if v := upidPresent(u).Value; !xmlText(v) || strings.Join(strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ") != v {
					return false
				}
			}
		}
	}
	return true
}

func wellFormedUPIDs(m *Sec) bool {
	for _, d := range m.Desc {
		if g, ok := d.(*DSeg); ok {
			for _, u := range g.UPIDs {
				if !upidWellFormed(u) || u.Type == 0x0D {
					return false
				}
			}
		}
	}
	return true
}

// otherNS are namespaces that are not ours, the most like ours included.
var otherNS = []string{"urn:other", scteNS + "/", scteNS + "0", scteNS + "/2023", "http://www.scte.org/schemas/3", "http://www.scte.org/schemas/", "https://www.scte.org/schemas/35",
	"HTTP://WWW.SCTE.ORG/SCHEMAS/35", "http://www.scte.org/schemas/035", "www.scte.org/schemas/35", scteNS + "#", " " + scteNS, scteNS + " ", "35", "SpliceInfoSection", "xml", "xmlns", "http://www.scte.org/schemas/35\u00e9"}

func (n *xnode) serialize(indent bool, other string) string {
	var sb strings.Builder
	x := xstyle{}
	var rec func(n *xnode, depth int)
	rec = func(n *xnode, depth int) {
		if indent {
			sb.WriteString("\n" + strings.Repeat("\t", depth))
		}
		name := n.Name
		if n.NS != scteNS {
			name = "o:" + name
		}
		sb.WriteString("<" + name)
		if depth == 0 {
			sb.WriteString(` xmlns="` + scteNS + `" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:o="` + x.esc(other, true) + `"`)
		}
		for _, a := range n.Attr {
			sb.WriteString(" " + a[0] + `="` + x.esc(a[1], true) + `"`)
		}
		sb.WriteString(">" + x.esc(n.Text, false))
		for _, k := range n.Kids {
			rec(k, depth+1)
		}
		if indent && len(n.Kids) > 0 {
			sb.WriteString("\n" + strings.Repeat("\t", depth))
		}
		sb.WriteString("</" + name + ">")
	}
	rec(n, 0)
	return sb.String()
}

type scase struct {
	cs Case
	st sstyle
}

func checkSchemaRead(k *K, x scase) {
	m := x.cs.M
	if !schemaDescribes(m) || !wellFormedUPIDs(m) {
		return
	}
	if !textOK(m, xmlAttr, func(string) bool { return true }) {
		return
	}
	if (x.st.upid == 0 || x.st.upid == 3) && !nativeUPIDs(m) {
		return
	}
	doc := schemaDoc(m, x.st).serialize(x.st.indent, otherNS[x.st.ns])
	k.StateS(doc)
	k.Input("%s", doc)
	n, err := xparse([]byte(doc))
	if err != nil {
		panic(fmt.Sprintf("harness: %v\n%s", err, doc))
	}
	if l := schemaErrors(m, n); len(l) > 0 { // the explored space is that of the schema
		panic(fmt.Sprintf("harness: %v\n%s", l, doc))
	}
	s := fromXML(k, []byte(doc))
	k.Validated(1)
	l := lib(m)
	g, w := dump(s), dump(l)
	if x.st.upid == 3 {
		g, w = dropFormat(g), dropFormat(w)
	}
	if g != w {
		k.Fail("reads as a different section: %s", diff(g, w))
	}
	sameBinary(k, s, m, "the section read")
}

func dropFormat(s string) string { return strings.ReplaceAll(s, `Format="text"`, `Format=""`) }

func sstyles() []sstyle {
	var l []sstyle
	for i := 0; i < 3*4*2*3*4*2*2*2; i++ {
		n := i
		pick := func(k int) int { v := n % k; n /= k; return v }
		l = append(l, sstyle{ext: pick(3), upid: pick(4), num: pick(2) == 1, truth: pick(3), date: pick(4), omit: pick(2) == 1, xsi: pick(2) == 1, indent: pick(2) == 1})
		if l[i].xsi || l[i].ext > 0 {
			l[i].ns = i % len(otherNS)
		}
	}
	for i := range otherNS {
		l = append(l, sstyle{xsi: true, ns: i}, sstyle{ext: 2, ns: i}, sstyle{ext: 2, xsi: true, ns: i, omit: true, indent: true})
	}
	return l
}

var sstylesWide = []sstyle{
	{},
	{ext: 2, upid: 1, truth: 1, omit: true},
	{ext: 1, upid: 2, num: true, truth: 2, date: 1, indent: true},
	{ext: 2, upid: 3, date: 2, xsi: true, omit: true, indent: true},
	{upid: 1, num: true, omit: true, xsi: true, date: 3, indent: true},
}

func propSchema(c *Ctx) {
	c.Assume("documents are judged by the schemas in docs/ (copies in harness/schema): that of 2022, extended by the compliance flags of the 2023 one; sections that the schema has no form for (another protocol_version, a command without program and components, DTMF letters) are outside the property, as are the attributes whose absence it does not define (tier, an AudioChannel's componentTag)")
	ExploreCases(c, "written-documents", func(y yieldFn) bool { return docUniverse(c.level(), y) }, checkSchemaWrite)
	exploreDates(c, false)
	desc := func(x scase) string { return fmt.Sprintf("%s (%+v)", x.cs.Name, x.st) }
	Explore(c, "readings-of-the-schema", func(y func(scase) bool) {
		sts := sstyles()
		mutBases(func(cs Case) bool {
			for _, st := range sts {
				if !y(scase{cs, st}) {
					return false
				}
			}
			return true
		})
	}, desc, checkSchemaRead)
	Explore(c, "documents-of-the-universe", func(y func(scase) bool) {
		lv := 0
		if c.Thorough {
			lv = 1
		}
		docUniverse(lv, func(cs Case) bool {
			for _, st := range sstylesWide {
				if !y(scase{cs, st}) {
					return false
				}
			}
			return true
		})
	}, desc, checkSchemaRead)
}
