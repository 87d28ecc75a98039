package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() {
	props["C07"] = propJSON
	props["C08"] = propXML
}

// docUniverse is the universe plus states that only documents carry.
func docUniverse(level int, y yieldFn) bool {
	if !universe(level, func(cs Case) bool {
		if len(cs.M.Stuff) > 0 {
			return true // stuffing has no document form
		}
		return y(cs)
	}) {
		return false
	}
	for _, v := range fullVals(32) {
		m := hdr(&CTime{p64(v)}, segBase())
		m.PreRoll = uint32(v)
		if !y(Case{"preroll", m}) {
			return false
		}
	}
	ok := mutBases(func(cs Case) bool {
		cs.M.PreRoll = 2500
		for sap := uint32(0); sap < 4; sap++ {
			c := *cs.M
			c.SAP = sap
			if !y(Case{cs.Name + " sap", &c}) {
				return false
			}
		}
		return true
	})
	if !ok {
		return false
	}
	return textCases(y)
}

// textCases: text that JSON, XML, or a program that takes lines of it, might
// take for something else.
func textCases(y yieldFn) bool {
	texts := []string{" x", "x ", "  x  y", ": x", "x: y:  z", "\tx", "<&>\"'", "]]>", "&amp;", "a  b", "é£ÿ", "\u00a0x\u00a0", "a\tb\nc", "a\n\n  b\n c", "a \nb", "\x7f\u0085\u009f", "{\"a\":1}", "\\u0041", "%s%d", "x\rz", "x\r\ny", "\\", "\\\\n", "C:\\new\\table", "--out", "-x", "$HOME `id` *", "x\n#y", "x\n// y", "x\n\n\ny", "x\n;y", "x\n-- y", "#x", "//x", "x\\\ny", "x\n" + strings.Repeat("y", 60) + "\nz"}
	for _, txt := range append(texts, documentWords...) {
		raw := []byte{}
		for _, r := range txt {
			raw = append(raw, byte(r))
		}
		for _, t := range []uint32{1, 3, 9, 15, 0xFE} {
			g := segBase()
			g.UPIDs = []UPID{{t, raw}}
			g2 := segBase()
			g2.UPIDs = []UPID{{t, raw}, {6, raw}, {15, raw}}
			if !y(Case{"upid text", hdr(&CTime{}, g)}) || !y(Case{"upid texts", hdr(&CTime{}, g2)}) || !y(Case{"upid texts later", hdr(&CNull{}, &DAvail{1}, g2, &DPriv{3, 9, []byte(txt)}, g)}) {
				return false
			}
		}
		if len(txt) <= 7 && !y(Case{"dtmf text", hdr(&CNull{}, &DDTMF{9, txt})}) {
			return false
		}
		if len(txt) == 3 && !y(Case{"iso text", hdr(&CNull{}, &DAudio{[]AudioCh{{1, txt, 2, 3, true}}})}) {
			return false
		}
	}
	return true
}

// ---- C07 ----

func toJSON(k *K, s *scte35.SpliceInfoSection) []byte {
	b, err := json.Marshal(s)
	k.T(1)
	if err != nil {
		k.Fail("json.Marshal failed: %v", err)
	}
	return b
}

func fromJSON(k *K, doc []byte) *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	if err := json.Unmarshal(doc, s); err != nil {
		k.Fail("json.Unmarshal failed: %v\n%s", err, doc)
	}
	return s
}

// sameBinary: the section still has the binary form of the model.
func sameBinary(k *K, s *scte35.SpliceInfoSection, m *Sec, what string) {
	if !representable(m) {
		return
	}
	b, err := s.Encode()
	k.T(1)
	if w := enc(m.onWire()); err != nil || !bytes.Equal(b, w) {
		k.Fail("%s encodes as %x (%v), want %x", what, b, err, w)
	}
}

func checkJSON(k *K, cs Case) {
	m := cs.M
	if !jsonable(m) {
		return
	}
	want := dump(lib(m))
	k.StateS(want)
	doc := toJSON(k, lib(m))
	k.Input("%s", doc)
	v, err := jparse(doc)
	if err != nil {
		k.Fail("not a JSON document: %v", err)
	}
	k.Validated(1)
	if g, w := jcanon("", v), jcanon("", jdoc(m)); g != w {
		k.Fail("the JSON document differs: %s", diff(g, w))
	}
	s := fromJSON(k, doc)
	k.Validated(1)
	if g := dump(s); g != want {
		k.Fail("the section read back differs: %s", diff(g, want))
	}
	sameBinary(k, s, m, "the section read back")
}

var jstyles = []jstyle{
	{},
	{rev: true},
	{omit: true, noSAP: true},
	{rev: true, omit: true, sp: "\n\t ", escape: true, offset: true, upperHex: true},
	{escape: true, noSAP: true, sp: " "},
	{rev: true, upperHex: true, noSAP: true, offset: true},
}

type jcase struct {
	cs Case
	st jstyle
}

func (x jcase) String() string {
	return fmt.Sprintf("%s (%.300s)", x.cs.Name, fmt.Sprint(x.st))
}

func checkJSONInput(k *K, x jcase) {
	m := x.cs.M
	if !jsonable(m) {
		return
	}
	doc := x.st.render(jdoc(m))
	k.StateS(doc)
	k.Input("%s", doc)
	s := fromJSON(k, []byte(doc))
	want := dump(lib(m))
	k.Validated(1)
	if g := dump(s); g != want {
		k.Fail("reads as a different section: %s", diff(g, want))
	}
}

func propJSON(c *Ctx) {
	c.Assume("strings that are not UTF-8 (possible only for DTMF characters and ISO codes received off the wire) cannot be carried by JSON and are outside the property; so are alignment stuffing and received CRCs, which have no JSON form")
	ExploreCases(c, "write-and-read-back", func(y yieldFn) bool { return docUniverse(c.level(), y) }, checkJSON)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantJSON)
	Explore(c, "read", func(y func(jcase) bool) {
		lv := 0
		if c.Thorough {
			lv = 1
		}
		docUniverse(lv, func(cs Case) bool {
			for _, st := range jstyles {
				if !y(jcase{cs, st}) {
					return false
				}
			}
			return true
		})
	}, jcase.String, checkJSONInput)
	Explore(c, "long-white-space", func(y func(jcase) bool) {
		shapes(c.level(), func(cs Case) bool {
			for _, n := range []int{100, 300, 5000} {
				if !y(jcase{cs, jstyle{sp: strings.Repeat(" \t\r\n", n/4), rev: n == 300}}) {
					return false
				}
			}
			return true
		})
	}, jcase.String, checkJSONInput)
}

// ---- C08 ----

func toXML(k *K, s *scte35.SpliceInfoSection, indent bool) []byte {
	var b []byte
	var err error
	if indent {
		b, err = xml.MarshalIndent(s, "", "\t")
	} else {
		b, err = xml.Marshal(s)
	}
	k.T(1)
	if err != nil {
		k.Fail("xml.Marshal failed: %v", err)
	}
	return b
}

func fromXML(k *K, doc []byte) *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{}
	k.T(1)
	if err := xml.Unmarshal(doc, s); err != nil {
		k.Fail("xml.Unmarshal failed: %v\n%s", err, doc)
	}
	return s
}

func checkXML(k *K, cs Case) {
	m := cs.M
	if !xmlable(m) {
		return
	}
	want := dump(lib(m))
	k.StateS(want)
	for _, indent := range []bool{false, true} {
		doc := toXML(k, lib(m), indent)
		k.Input("%s", doc)
		v, err := xparse(doc)
		if err != nil {
			k.Fail("not an XML document: %v", err)
		}
		k.Validated(1)
		if g, w := v.canon(), xdoc(m).canon(); g != w {
			k.Fail("the XML document differs: %s", diff(g, w))
		}
		if e := missingAttr(v); e != "" {
			k.Fail("the XML document lacks %s", e)
		}
		s := fromXML(k, doc)
		k.Validated(1)
		if g := dump(s); g != want {
			k.Fail("the section read back differs: %s", diff(g, want))
		}
		if !indent {
			sameBinary(k, s, m, "the section read back")
		}
	}
}

// missingAttr names an attribute that the schema requires and n or an element
// of it lacks; PrivateDescriptor's is a known finding of C25, a utcSpliceTime
// and a ptsOffset are required only of some of the elements of that name.
func missingAttr(n *xnode) string {
	have := map[string]bool{}
	for _, a := range n.Attr {
		have[a[0]] = true
	}
	for _, a := range xsdRequiredOf[n.Name] {
		if !have[a] && n.Name != "PrivateDescriptor" && a != "utcSpliceTime" && a != "ptsOffset" {
			return n.Name + "/@" + a
		}
	}
	for _, k := range n.Kids {
		if e := missingAttr(k); e != "" {
			return e
		}
	}
	return ""
}

var xstyles = []xstyle{
	{},
	{rev: true, numBool: true},
	{omit: true, noSAP: true},
	{ws: true, prefix: "scte", offset: true},
	{rev: true, omit: true, ws: true, prefix: "x", numBool: true, refs: true, noSAP: true, pad: true},
	{cdata: true, pad: true, offset: true},
}

type xcase struct {
	cs Case
	st xstyle
}

func (x xcase) String() string {
	return fmt.Sprintf("%s (%.300s)", x.cs.Name, fmt.Sprint(x.st))
}

func checkXMLInput(k *K, x xcase) {
	m := x.cs.M
	if !xmlable(m) {
		return
	}
	doc := x.st.render(xdoc(m))
	k.StateS(doc)
	k.Input("%s", doc)
	s := fromXML(k, []byte(doc))
	want := dump(lib(m))
	k.Validated(1)
	if g := dump(s); g != want {
		k.Fail("reads as a different section: %s", diff(g, want))
	}
}

func propXML(c *Ctx) {
	c.Assume("text that XML 1.0 cannot carry (control characters) and white space surrounding a UPID (the schema type is xsd:token) are outside the property; so are alignment stuffing and received CRCs, which have no XML form")
	ExploreCases(c, "write-and-read-back", func(y yieldFn) bool { return docUniverse(c.level(), y) }, checkXML)
	Explore(c, "held-otherwise", variantCases(variantFamily(c)), varCase.String, checkVariantXML)
	Explore(c, "read", func(y func(xcase) bool) {
		lv := 0
		if c.Thorough {
			lv = 1
		}
		docUniverse(lv, func(cs Case) bool {
			for _, st := range xstyles {
				if !y(xcase{cs, st}) {
					return false
				}
			}
			return true
		})
	}, xcase.String, checkXMLInput)
	Explore(c, "long-and-split", func(y func(xcase) bool) {
		shapes(c.level(), func(cs Case) bool {
			for _, st := range []xstyle{{ws: true, long: true}, {split: true}, {ws: true, long: true, split: true, pad: true, prefix: strings.Repeat("p", 300)}} {
				if !y(xcase{cs, st}) {
					return false
				}
			}
			return true
		})
	}, xcase.String, checkXMLInput)
}
