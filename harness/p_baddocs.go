package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() { props["C24"] = propBadDocs }

// A document and what is known about it: it is malformed and has to be
// rejected, or it may be accepted.
type badDoc struct {
	name string
	doc  []byte
	xml  bool
	bad  bool
}

func (d badDoc) String() string { return fmt.Sprintf("%s: %s", d.name, d.doc) }

func checkBadDoc(k *K, d badDoc) {
	k.State(d.doc)
	k.Input("%s", d.doc)
	bad := d.bad
	if !bad {
		if d.xml {
			bad = !xmlValid(d.doc)
		} else {
			bad = !json.Valid(d.doc)
		}
	}
	read := func(s any) error {
		if d.xml {
			return xml.Unmarshal(d.doc, s)
		}
		return json.Unmarshal(d.doc, s)
	}
	s := &scte35.SpliceInfoSection{}
	err := read(s)
	k.T(1)
	k.Validated(1)
	if bad && err == nil {
		k.Fail("accepted, as %s", dump(s))
	}
	if err == nil {
		render(k, s)
		// the section accepted is one: it survives its own documents
		if _, err := json.Marshal(s); err != nil {
			k.Fail("accepted, but cannot be marshalled to JSON: %v", err)
		}
	}
	var p *scte35.SpliceInfoSection // as the command line tool reads it
	if err2 := read(&p); (err2 == nil) != (err == nil) {
		k.Fail("Unmarshal says %v into a section, %v into a pointer to one", err, err2)
	}
	k.T(1)
}

// xmlValid: well-formed as far as the first element, which is what
// unmarshalling reads.
func xmlValid(b []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth, any := 0, false
	for {
		t, err := d.Token()
		if err == io.EOF {
			return any && depth == 0
		}
		if err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
			any = true
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}

// docBases: a document for every command and descriptor, and one of all.
func docBases(y func(name, j, x string, m *Sec) bool) bool {
	one := func(cs Case) bool {
		m := cs.M
		m.PreRoll, m.EncAlg, m.CW = 40, 2, 9
		if !jsonable(m) || !xmlable(m) {
			return true
		}
		return y(cs.Name, jstyle{}.render(jdoc(m)), xstyle{}.render(xdoc(m)), m)
	}
	return mutBases(one)
}

// jmutate calls y with every single replacement in the tree v.
func jmutate(v any, y func(path string, doc []byte, bad bool) bool) bool {
	root := v
	ser := func() []byte {
		b, err := json.Marshal(root)
		if err != nil {
			panic(err)
		}
		return b
	}
	wide := map[string]bool{"ptsAdjustment": true, "ptsTime": true, "duration": true, "segmentationDuration": true,
		"ptsOffset": true, "taiSeconds": true}
	raw := func(s string) any { return json.RawMessage(s) }
	repl := func(key string, v any) (bad, other []any) {
		other = []any{nil}
		switch v.(type) {
		case json.Number:
			bad = []any{raw(`"x"`), raw(`"1"`), raw(`true`), raw(`{}`), raw(`[]`), raw(`-1`), raw(`1.5`), raw(`18446744073709551616`), raw(`1e400`), raw(`""`)}
			if !wide[key] {
				bad = append(bad, raw(`4294967296`), raw(`18446744073709551615`))
			}
			other = append(other, raw(`0`), raw(`4294967295`), raw(`255`), raw(`-0`))
		case bool:
			bad = []any{raw(`"x"`), raw(`"true"`), raw(`1`), raw(`0`), raw(`{}`), raw(`[]`), raw(`""`)}
			other = append(other, raw(`true`), raw(`false`))
		case string:
			bad = []any{raw(`1`), raw(`true`), raw(`{}`), raw(`[]`), raw(`["x"]`)}
			switch key {
			case "privateBytes":
				bad = append(bad, raw(`"0"`), raw(`"zz"`), raw(`"0x00"`), raw(`"012"`), raw(`"00 11"`), raw(`"é"`))
				other = append(other, raw(`""`), raw(`"aA"`))
			case "utcSpliceTime":
				bad = append(bad, raw(`""`), raw(`"x"`), raw(`"2020-13-01T00:00:00Z"`), raw(`"2020-01-01"`), raw(`"2020-01-01T00:00:00"`), raw(`"25:00:00Z"`))
				for _, t := range noInstants {
					bad = append(bad, raw(`"`+t+`"`))
				}
				other = append(other, raw(`"0001-01-01T00:00:00Z"`), raw(`"9999-12-31T23:59:59Z"`), raw(`"1980-01-06T00:00:00Z"`), raw(`"1970-01-01T00:00:00+05:30"`))
			default:
				other = append(other, raw(`""`), raw(`"x"`), raw(`"/"`), raw(`"10./"`), raw(`"10.5/-----"`), raw(`"="`), raw(`"\u0000"`),
					raw(`"\ud800"`), raw(`"日本"`), raw(`"-1"`), raw(`"`+strings.Repeat("9", 300)+`"`), raw(`"`+strings.Repeat("A", 5000)+`"`),
					raw(`"10.99999/1234-5678-9ABC-DEF0-1234-X"`), raw(`"10.1/1-2-3-4-5-6"`), raw(`"urn:eidr:10.5240:0-0-0-0-0"`), raw(`"0x"`))
			}
		case map[string]any:
			bad = []any{raw(`"x"`), raw(`1`), raw(`true`), raw(`[]`), raw(`[{}]`)}
			other = append(other, raw(`{}`))
		case []any:
			bad = []any{raw(`"x"`), raw(`1`), raw(`true`), raw(`{}`), raw(`[1]`), raw(`["x"]`), raw(`[[]]`), raw(`[[null]]`)}
			other = append(other, raw(`[]`))
			if key == "spliceDescriptors" {
				bad = append(bad, raw(`[null]`), raw(`[ null ]`), raw(`[{"type":0},null]`), raw(`[{"type":-1}]`), raw(`[{"identifier":"x"}]`), raw(`[{"type":{}}]`))
				other = append(other, raw(`[{}]`), raw(`[{},{}]`), raw(`[{"type":77}]`), raw(`[{"type":2}]`), raw(`[{"type":4}]`), raw(`[{"type":2,"identifier":1}]`))
			} else {
				other = append(other, raw(`[{}]`), raw(`[null]`), raw(`[{},null,{}]`))
			}
		}
		return
	}
	var rec func(path, key string, get func() any, set func(any)) bool
	rec = func(path, key string, get func() any, set func(any)) bool {
		v := get()
		bad, other := repl(key, v)
		for _, r := range bad {
			set(r)
			if !y(fmt.Sprintf("%s := %s", path, r), ser(), true) {
				return false
			}
		}
		for _, r := range other {
			set(r)
			if !y(fmt.Sprintf("%s := %v", path, r), ser(), false) {
				return false
			}
		}
		set(v)
		switch v := v.(type) {
		case map[string]any:
			var ks []string
			for x := range v {
				ks = append(ks, x)
			}
			sort.Strings(ks)
			for _, x := range ks {
				x := x
				if !rec(path+"."+x, x, func() any { return v[x] }, func(n any) { v[x] = n }) {
					return false
				}
				old := v[x]
				delete(v, x)
				if !y("without "+path+"."+x, ser(), false) {
					return false
				}
				v[x] = old
			}
		case []any:
			for i := range v {
				i := i
				if !rec(fmt.Sprintf("%s[%d]", path, i), "", func() any { return v[i] }, func(n any) { v[i] = n }) {
					return false
				}
			}
		}
		return true
	}
	return rec("", "", func() any { return root }, func(n any) { root = n })
}

// xmutate calls y with every single change of an attribute, text or element.
func xmutate(root *xnode, y func(path string, doc []byte, bad bool) bool) bool {
	ser := func() []byte { return []byte(xstyle{}.render(root)) }
	kind := func(v string) int {
		if v == "true" || v == "false" {
			return 1
		}
		for _, c := range v {
			if c < '0' || c > '9' {
				return 2
			}
		}
		if v == "" {
			return 2
		}
		return 0
	}
	wide := map[string]bool{"ptsAdjustment": true, "ptsTime": true, "duration": true, "segmentationDuration": true,
		"ptsOffset": true, "taiSeconds": true}
	text := map[string]bool{"chars": true, "ISOCode": true, "segmentationUpidFormat": true}
	var rec func(path string, n *xnode) bool
	rec = func(path string, n *xnode) bool {
		for i := range n.Attr {
			key, v := n.Attr[i][0], n.Attr[i][1]
			var bad, other []string
			switch {
			case key == "utcSpliceTime":
				bad = append([]string{"x", "2020-13-01T00:00:00Z", "0"}, noInstants...)
				other = []string{"", "2020-01-01T00:00:00", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z"}
			case text[key]:
				other = []string{"", "x", "日本", strings.Repeat("A", 5000)}
			case kind(v) == 1:
				bad = []string{"x", "yes", "2", "-1", "truefalse"}
				other = []string{"", "1", "0"}
			case kind(v) == 0:
				bad = []string{"x", "-1", "1.5", "18446744073709551616", "1 2", "true"}
				if !wide[key] {
					bad = append(bad, "4294967296")
				}
				other = []string{"", "0", "4294967295", "255", " 7 ", "007"}
			default:
				other = []string{"", "x"}
			}
			for _, r := range bad {
				n.Attr[i][1] = r
				if !y(fmt.Sprintf("%s@%s := %q", path, key, r), ser(), true) {
					return false
				}
			}
			for _, r := range other {
				n.Attr[i][1] = r
				if !y(fmt.Sprintf("%s@%s := %q", path, key, r), ser(), false) {
					return false
				}
			}
			n.Attr[i][1] = v
			all := n.Attr
			n.Attr = append(append([][2]string(nil), all[:i]...), all[i+1:]...)
			if !y("without "+path+"@"+key, ser(), false) {
				return false
			}
			n.Attr = all
		}
		t := n.Text
		texts := []string{"", "x", "0", "0x", strings.Repeat("A", 5000), strings.Repeat("9", 300), "10./", "10.5/-----", "日本"}
		for _, r := range texts {
			n.Text = r
			bad := (n.Name == "PrivateDescriptor" || n.Name == "PrivateCommand") && (r == "x" || r == "0" || r == "0x" || r == "日本" || r == "10./" || r == "10.5/-----")
			if len(n.Kids) == 0 && !y(fmt.Sprintf("%s text %.20q", path, r), ser(), bad) {
				return false
			}
		}
		n.Text = t
		name := n.Name
		for _, r := range []string{"Unknown", "SpliceNull", "SegmentationUpid", "AvailDescriptor", "TimeSignal", "Component", "SpliceInfoSection"} {
			n.Name = r
			top := strings.Count(path, "/") == 2
			known := r == "SpliceNull" || r == "AvailDescriptor" || r == "TimeSignal"
			if !y(path+" renamed "+r, ser(), top && !known) {
				return false
			}
		}
		if strings.Count(path, "/") == 2 {
			for _, r := range nearNames(name) {
				n.Name = r
				if !y(path+" renamed "+r, ser(), true) {
					return false
				}
			}
		}
		n.Name = name
		kids := n.Kids
		for i := range kids {
			if !rec(path+"/"+kids[i].Name, kids[i]) {
				return false
			}
			n.Kids = append(append([]*xnode(nil), kids[:i]...), kids[i+1:]...)
			if !y("without "+path+"/"+kids[i].Name, ser(), false) {
				return false
			}
			n.Kids = append(append([]*xnode(nil), kids...), kids[i])
			if !y("twice "+path+"/"+kids[i].Name, ser(), false) {
				return false
			}
			n.Kids = kids
		}
		// an element of no descriptor or command among them
		if path == "/"+root.Name {
			for i := 0; i <= len(kids); i++ {
				n.Kids = append(append(append([]*xnode(nil), kids[:i]...), xn("UnknownDescriptor")), kids[i:]...)
				if !y("with an unknown element", ser(), true) {
					return false
				}
				if i > 0 { // one whose name is nearly that of its neighbour
					for _, r := range nearNames(kids[i-1].Name) {
						n.Kids[i] = xn(r)
						if !y("with an unknown element", ser(), true) {
							return false
						}
						n.Kids[i] = kids[i-1].renamed(r)
						if !y("with an unknown element", ser(), true) {
							return false
						}
					}
				}
			}
			n.Kids = kids
		}
		return true
	}
	return rec("/"+root.Name, root)
}

// noInstants are not instants, however nearly.
var noInstants = []string{"2020-00-01T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-32T00:00:00Z", "2021-02-29T00:00:00Z", "2020-02-30T12:00:00Z", "2020-04-31T00:00:00Z",
	"2020-01-01T25:00:00Z", "2020-01-01T24:00:01Z", "2020-01-01T24:01:00Z", "2020-01-01T24:30:00Z", "2020-01-01T23:60:00Z", "2020-01-01T23:59:60Z", "2016-12-31T23:59:60Z", "2020-01-01T23:59:61Z", "2020-01-01T23:59:99Z", "2020-01-01T-1:00:00Z",
	"2020-01-01 00:00:00Z", "2020-01-01T00:00Z", "2020-01-01T00Z", "2020-01-01Z", "20200101T000000Z", "2020-001T00:00:00Z", "2020-W01-1T00:00:00Z", "01/02/2020", "1577836800", "1577836800Z", "@1577836800",
	"2020-01-01T00:00:00ZZ", "2020-01-01T00:00:00Z ago", "2020-01-01T00:00:00+", "2020-01-01T00:00:00+1", "2020-01-01T00:00:00 UTC", "2020-01-01T00:00:00GMT", "2020-01-01T00:00:00.Z", "2020-01-01T00:00:00Zx", "x2020-01-01T00:00:00Z",
	"Wed, 01 Jan 2020 00:00:00 GMT", "Wed Jan  1 00:00:00 2020", "now", "null", "true", "-", "T", "Z", "TZ", "20-01-01T00:00:00Z", "T00:00:00Z"}

// badBytes: texts of n bytes in hexadecimal with one fault.
func badBytes(n int) []string {
	h := strings.Repeat("0a", n)
	l := []string{h + "0", h + "g", h + "0g", h + "g0", "0x" + h, "0X" + h, h + "h", "#" + h, "%" + h, "x" + h, "\\x" + h, h + "é", h + "=", h + "==", h + "0x", h + ".", "-" + h, "+" + h, h + "//", "0" + h, "g" + h, "o0" + h, "1O" + h, "l1" + h, "AQIDBAUG/+0" + h}
	if n > 0 {
		l = append(l, h[1:], h[:len(h)-1])
	}
	if n > 1 {
		for _, at := range []int{1, 2, n, n | 1, 2*n - 2, 2*n - 1} {
			for _, x := range []string{" ", ":", "-", "_", ",", "g", "xx", "zz", "é", " 0x", "0"} {
				l = append(l, h[:at]+x+h[at:])
				if len(x) == 1 && x != "0" {
					l = append(l, h[:at]+x+h[at+1:])
				}
			}
		}
	}
	return l
}

func (n *xnode) renamed(name string) *xnode {
	c := *n
	c.Name = name
	return &c
}

// nearNames: names that are nearly s and stand for nothing.
func nearNames(s string) []string {
	var l []string
	add := func(n string) {
		if n != "Ext" && !topNames[n] && n != "" {
			l = append(l, n)
		}
	}
	for _, x := range []string{"Ext", "s", "_", "2", "-Ext", ".Ext", "Descriptor", "Command", "é"} {
		add(s + x)
	}
	for _, x := range []string{"Ext", "X", "_", "Private", "Splice", "x-"} {
		add(x + s)
	}
	add(strings.ToLower(s))
	add(strings.ToUpper(s))
	add(strings.ToLower(s[:1]) + s[1:])
	add(s[:len(s)-1])
	add(s[1:])
	add(strings.TrimSuffix(s, "Descriptor"))
	add(strings.TrimPrefix(s, "Splice"))
	for _, x := range []string{"ext", "EXT", "Ex", "Extension", "ExtExt", "Extra", "AnyExt", "_Ext"} {
		add(x)
	}
	return l
}

var topNames = map[string]bool{"SpliceNull": true, "SpliceSchedule": true, "SpliceInsert": true, "TimeSignal": true, "BandwidthReservation": true,
	"PrivateCommand": true, "AvailDescriptor": true, "DTMFDescriptor": true, "SegmentationDescriptor": true, "TimeDescriptor": true,
	"AudioDescriptor": true, "PrivateDescriptor": true, "EncryptedPacket": true}

func propBadDocs(c *Ctx) {
	c.Assume("well-formedness of documents is that of the Go standard library's parsers; null and missing members, duplicated elements and values of the right kind may be accepted and then only have to be harmless")
	Explore(c, "json-leaves", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			v, err := jparse([]byte(j))
			if err != nil {
				panic(err)
			}
			return jmutate(v, func(p string, d []byte, bad bool) bool { return y(badDoc{name + " " + p, d, false, bad}) })
		})
	}, badDoc.String, checkBadDoc)
	Explore(c, "xml-leaves", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			return xmutate(xdoc(m), func(p string, d []byte, bad bool) bool { return y(badDoc{name + " " + p, d, true, bad}) })
		})
	}, badDoc.String, checkBadDoc)
	Explore(c, "truncated", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			for _, d := range []string{j, jstyle{sp: "\n ", rev: true}.render(jdoc(m))} {
				d = strings.TrimRight(d, "\n ")
				for i := 0; i < len(d); i++ {
					if !y(badDoc{fmt.Sprintf("%s first %d bytes", name, i), []byte(d[:i]), false, true}) {
						return false
					}
				}
			}
			for _, d := range []string{x, xstyle{ws: true, prefix: "s"}.render(xdoc(m))} {
				d = strings.TrimRight(d, "\n ")
				for i := 0; i < len(d); i++ {
					if !y(badDoc{fmt.Sprintf("%s first %d bytes", name, i), []byte(d[:i]), true, true}) {
						return false
					}
				}
			}
			return true
		})
	}, badDoc.String, checkBadDoc)
	Explore(c, "characters", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			alphabet := "\"{}[],:-0e<>/&=x \\\x00\xff"
			if c.Thorough {
				alphabet += "9.+;!?'nt\n\t\xc3\xa9"
			}
			for w, d := range []string{j, x} {
				for i := 0; i <= len(d); i++ {
					for _, r := range []byte(alphabet) {
						if i < len(d) && d[i] != r {
							if !y(badDoc{fmt.Sprintf("%s byte %d set to %q", name, i, r), []byte(d[:i] + string([]byte{r}) + d[i+1:]), w == 1, false}) {
								return false
							}
						}
						if !y(badDoc{fmt.Sprintf("%s %q inserted at %d", name, r, i), []byte(d[:i] + string([]byte{r}) + d[i:]), w == 1, false}) {
							return false
						}
					}
					for n := 1; n <= 4 && i+n <= len(d); n++ {
						if !y(badDoc{fmt.Sprintf("%s %d bytes removed at %d", name, n, i), []byte(d[:i] + d[i+n:]), w == 1, false}) {
							return false
						}
					}
				}
			}
			return true
		})
	}, badDoc.String, checkBadDoc)
	// UPIDs in binary: every beginning, every other character
	Explore(c, "binary-upids", func(y func(badDoc) bool) {
		docs := func(typ uint32, format, text string, bad bool) bool {
			g := segBase()
			g.UPIDs = []UPID{{0x09, []byte("SIGNAL")}, {typ, nil}}
			if typ == 0x0C {
				g.UPIDs[1].Raw = []byte("ABCD")
			}
			x := xdoc(hdr(&CTime{}, g))
			for _, u := range x.Kids[len(x.Kids)-1].Kids {
				if u.Name == "SegmentationUpid" && u.get("segmentationUpidType") == fmt.Sprint(typ) {
					for i := range u.Attr {
						if u.Attr[i][0] == "segmentationUpidFormat" {
							u.Attr[i][1] = format
						}
					}
					u.Text = text
				}
			}
			return y(badDoc{fmt.Sprintf("UPID type %d format %s %q", typ, format, text), []byte(xstyle{}.render(x)), true, bad})
		}
		hexs, b64s := "0123456789ABCDEFabcdef00", "AQIDBAUGBwgJ/+0="
		for _, typ := range []uint32{0x01, 0x09, 0x0A, 0x0C, 0x0F, 0x06, 0x08} {
			for i := 0; i <= len(hexs); i++ {
				if !docs(typ, "hexbinary", hexs[:i], i%2 != 0) {
					return
				}
				for _, r := range "gG=+ x.-é:" {
					if r == ' ' && (i == 0 || i == len(hexs)) {
						continue
					}
					if !docs(typ, "hexbinary", hexs[:i]+string(r)+hexs[i:], true) || i > 0 && !docs(typ, "hexbinary", hexs[:i-1]+string(r)+hexs[i:], true && (r != ' ' || i > 1 && i < len(hexs))) {
						return
					}
				}
			}
			if typ == 0x0C || typ == 0x06 { // base-64 is their own form, checked when encoding
				continue
			}
			for i := 0; i <= len(b64s); i++ {
				_, ok := refBase64(b64s[:i])
				if !docs(typ, "base-64", b64s[:i], !ok) {
					return
				}
				for _, r := range "-_.:=*é" {
					t := b64s[:i] + string(r) + b64s[i:]
					if _, ok := refBase64(t); !docs(typ, "base-64", t, !ok) {
						return
					}
					if i < len(b64s) {
						t = b64s[:i] + string(r) + b64s[i+1:]
						if _, ok := refBase64(t); t != b64s && !docs(typ, "base-64", t, !ok) {
							return
						}
					}
				}
			}
		}
	}, badDoc.String, checkBadDoc)
	// private bytes of every length with one fault
	Explore(c, "private-bytes", func(y func(badDoc) bool) {
		st := 1
		for n := 0; n <= 4000; n += st {
			if n >= 300 {
				st = 241
			}
			if n >= 300 && c.Thorough {
				st = 13
			}
			for _, b := range badBytes(n) {
				docs := []badDoc{
					{"command", []byte(`{"tier":4095,"spliceCommand":{"type":255,"identifier":7,"privateBytes":"` + b + `"}}`), false, true},
					{"command", []byte(`<SpliceInfoSection xmlns="` + scteNS + `" tier="4095"><PrivateCommand identifier="7">` + b + `</PrivateCommand></SpliceInfoSection>`), true, true},
					{"command, element", []byte(`<SpliceInfoSection xmlns="` + scteNS + `" tier="4095"><PrivateCommand identifier="7"><PrivateBytes>` + b + `</PrivateBytes></PrivateCommand></SpliceInfoSection>`), true, true},
				}
				if n < 300 {
					docs = append(docs, badDoc{"descriptor", []byte(`{"tier":4095,"spliceCommand":{"type":0},"spliceDescriptors":[{"type":9,"identifier":7,"privateBytes":"` + b + `"}]}`), false, true},
						badDoc{"descriptor", []byte(`<SpliceInfoSection xmlns="` + scteNS + `" tier="4095"><SpliceNull/><PrivateDescriptor tag="9" identifier="7">` + b + `</PrivateDescriptor></SpliceInfoSection>`), true, true},
						badDoc{"descriptor, element", []byte(`<SpliceInfoSection xmlns="` + scteNS + `" tier="4095"><SpliceNull/><PrivateDescriptor tag="9" identifier="7"><PrivateBytes>` + b + `</PrivateBytes></PrivateDescriptor></SpliceInfoSection>`), true, true},
						badDoc{"UPID", []byte(`<SpliceInfoSection xmlns="` + scteNS + `" tier="4095"><SpliceNull/><SegmentationDescriptor><SegmentationUpid segmentationUpidType="1" segmentationUpidFormat="hexbinary">` + b + `</SegmentationUpid></SegmentationDescriptor></SpliceInfoSection>`), true, true})
				}
				for _, d := range docs {
					d.name = fmt.Sprintf("%s of %d bytes", d.name, n)
					if !y(d) {
						return
					}
				}
			}
		}
	}, badDoc.String, checkBadDoc)
	// one wrong element at each place of lists of every length, and more
	// attributes and members than expected
	Explore(c, "long-lists", func(y func(badDoc) bool) {
		lists := []struct {
			pre, item, post string
			bad             []string
		}{
			{`{"tier":4095,"spliceCommand":{"type":0},"spliceDescriptors":[`, `{"type":0,"providerAvailId":7}`, `]}`, []string{`null`, `1`, `"x"`, `[]`, `true`, `{"type":-1}`, `{"type":0,"providerAvailId":"x"}`, `{"type":2,"segmentationUpids":{}}`}},
			{`{"tier":4095,"spliceCommand":{"type":4,"events":[`, `{"spliceEventId":7,"program":{"utcSpliceTime":"2020-01-01T00:00:00Z"}}`, `]}}`, []string{`1`, `"x"`, `[]`, `{"program":{"utcSpliceTime":"x"}}`, `{"components":{}}`}},
			{`{"tier":4095,"spliceCommand":{"type":5,"components":[`, `{"componentTag":7}`, `]}}`, []string{`1`, `"x"`, `[]`, `{"componentTag":-1}`, `{"spliceTime":[]}`}},
			{`{"tier":4095,"spliceCommand":{"type":0},"spliceDescriptors":[{"type":2,"segmentationUpids":[`, `{"segmentationUpidType":15,"value":"x"}`, `]}]}`, []string{`1`, `"x"`, `[]`, `{"value":1}`}},
			{`{"tier":4095,"spliceCommand":{"type":0},"spliceDescriptors":[{"type":4,"audioChannels":[`, `{"isoCode":"eng"}`, `]}]}`, []string{`1`, `"x"`, `[]`, `{"isoCode":1}`}},
		}
		for _, l := range lists {
			for n := 1; n <= 24; n++ {
				for at := 0; at < n; at++ {
					for _, b := range l.bad {
						items := make([]string, n)
						for i := range items {
							items[i] = l.item
						}
						items[at] = b
						if !y(badDoc{fmt.Sprintf("%s at %d of %d", b, at, n), []byte(l.pre + strings.Join(items, ",") + l.post), false, true}) {
							return
						}
					}
				}
			}
		}
		ns := `xmlns="` + scteNS + `"`
		xl := []struct {
			pre, item, post string
			bad             []string
		}{
			{"<SpliceInfoSection " + ns + ` tier="4095"><SpliceNull/>`, `<AvailDescriptor providerAvailId="7"/>`, "</SpliceInfoSection>", []string{`<Nothing/>`, `<AvailDescriptor providerAvailId="x"/>`, `<AvailDescriptor></Other>`, `<availDescriptor/>`, `<SegmentationDescriptor segmentNum="-1"/>`}},
			{"<SpliceInfoSection " + ns + ` tier="4095"><SpliceSchedule>`, `<Event><Program utcSpliceTime="2020-01-01T00:00:00Z"/></Event>`, "</SpliceSchedule></SpliceInfoSection>", []string{`<Event spliceEventId="x"/>`, `<Event><Program utcSpliceTime="x"/></Event>`}},
			{"<SpliceInfoSection " + ns + ` tier="4095"><SpliceNull/><SegmentationDescriptor>`, `<SegmentationUpid segmentationUpidType="15">x</SegmentationUpid>`, "</SegmentationDescriptor></SpliceInfoSection>", []string{`<SegmentationUpid segmentationUpidType="x">x</SegmentationUpid>`, `<SegmentationUpid segmentationUpidType="15" segmentationUpidFormat="hexbinary">x</SegmentationUpid>`}},
		}
		for _, l := range xl {
			for n := 1; n <= 24; n++ {
				for at := 0; at < n; at++ {
					for _, b := range l.bad {
						items := make([]string, n)
						for i := range items {
							items[i] = l.item
						}
						items[at] = b
						if !y(badDoc{fmt.Sprintf("%s at %d of %d", b, at, n), []byte(l.pre + strings.Join(items, "") + l.post), true, true}) {
							return
						}
					}
				}
			}
		}
		ok := true
		docBases(func(name, j, x string, m *Sec) bool {
			for n := 1; n <= 40 && ok; n++ {
				for _, a := range []string{"a", "attr", "aVeryLongNameOfAnAttribute", "é"} {
					at, mem := "", ""
					for i := 0; i < n; i++ {
						at += fmt.Sprintf(` %s%d="%d"`, a, i, i)
						mem += fmt.Sprintf(`"%s%d":%d,`, a, i, i)
					}
					i := 0
					for p := range x { // at each opening tag in turn
						if p > 0 && (x[p] == '>' || x[p] == ' ') && strings.LastIndexByte(x[:p], '<') > strings.LastIndexByte(x[:p], '>') && x[strings.LastIndexByte(x[:p], '<')+1] != '/' && x[p-1] != '/' && !strings.ContainsAny(x[strings.LastIndexByte(x[:p], '<'):p], " ") {
							if i++; (i+n)%3 == 0 || c.Thorough {
								ok = ok && y(badDoc{fmt.Sprintf("%s, %d more attributes at %d", name, n, p), []byte(x[:p] + at + x[p:]), true, false})
							}
						}
					}
					for p := range j {
						if j[p] == '{' && p+1 < len(j) && j[p+1] == '"' {
							ok = ok && y(badDoc{fmt.Sprintf("%s, %d more members at %d", name, n, p), []byte(j[:p+1] + mem + j[p+1:]), false, false})
						}
					}
				}
			}
			return ok
		})
	}, badDoc.String, checkBadDoc)
	// documents of other kinds
	Explore(c, "other", func(y func(badDoc) bool) {
		for _, d := range []string{"", " ", "x", "1", "true", `"x"`, "[]", "[{}]", "nul", "{", "}", "{}}", "{}{}", "{},", `{"a"}`, `{"tier":}`, `{'tier':1}`, `{tier:1}`, "\xef\xbb\xbf{}", "<a/>"} {
			if !y(badDoc{"other", []byte(d), false, true}) {
				return
			}
		}
		for _, d := range []string{"{}", `{"spliceCommand":null}`, `{"spliceCommand":{}}`, `{"spliceDescriptors":null}`, `{"x":{"y":[1,2,3]}}`, `{"spliceDescriptors":[]}`} {
			if !y(badDoc{"other", []byte(d), false, false}) {
				return
			}
		}
		ns := `xmlns="` + scteNS + `"`
		for _, d := range []string{"", " ", "x", "{}", "<", "<a", "</a>", "<!-- x -->", "<?xml version=\"1.0\"?>", "<SpliceInfoSection", "<SpliceInfoSection " + ns + ">",
			"<SpliceInfoSection " + ns + "></Other>", "<SpliceInfoSection " + ns + "><SpliceNull></SpliceInfoSection>", "<SpliceInfoSection " + ns + ">&bogus;</SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><Nothing/></SpliceInfoSection>", "<SpliceInfoSection " + ns + "><SpliceNull/><Nothing><SpliceNull/></Nothing></SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><Segmentationdescriptor/></SpliceInfoSection>", "<SpliceInfoSection " + ns + "><spliceNull/></SpliceInfoSection>"} {
			if !y(badDoc{"other", []byte(d), true, true}) {
				return
			}
		}
		for _, d := range []string{"<SpliceInfoSection/>", "<SpliceInfoSection " + ns + "/>", "<SpliceInfoSection " + ns + ">text</SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><SpliceSchedule><Event/></SpliceSchedule></SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><SpliceInsert><Program/></SpliceInsert></SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><SpliceNull/><SpliceInsert/></SpliceInfoSection>",
			"<SpliceInfoSection " + ns + "><TimeSignal/></SpliceInfoSection>"} {
			if !y(badDoc{"other", []byte(d), true, false}) {
				return
			}
		}
	}, badDoc.String, checkBadDoc)
}
