package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"io"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() { props["C26"] = propEmbed }

// C26: sections, and lists of descriptors, as parts of larger documents and of
// streams of documents.

type sis = scte35.SpliceInfoSection

// jenv is a caller's JSON document with sections at several places.
type jenv struct {
	Before string                   `json:"before"`
	Value  sis                      `json:"value"`
	Ptr    *sis                     `json:"ptr"`
	List   []sis                    `json:"list"`
	Ptrs   []*sis                   `json:"ptrs"`
	Map    map[string]sis           `json:"map"`
	Inner  struct{ S [2]sis }       `json:"inner"`
	Nil    *sis                     `json:"nil"`
	Omit   *sis                     `json:"omit,omitempty"`
	DS     scte35.SpliceDescriptors `json:"ds"`
	After  int                      `json:"after"`
}

// xenv is a caller's XML document with sections at several places.
type xenv struct {
	XMLName xml.Name `xml:"urn:env Envelope"`
	ID      string   `xml:"id,attr"`
	Before  string   `xml:"urn:env before"`
	Value   struct {
		S sis    `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
		T string `xml:"urn:env t"`
	} `xml:"urn:env value"`
	Ptr struct {
		T string `xml:"urn:env t"`
		S *sis   `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	} `xml:"urn:env ptr"`
	List []sis `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Ptrs struct {
		S []*sis `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	} `xml:"urn:env ptrs"`
	After int `xml:"urn:env after"`
}

// other is the section next to the one in question: unlike it in everything.
func embedOther() *Sec {
	m := hdr(&CInsert{ID: 77, OON: true, Prog: &ProgT{p64(5)}, Break: &Brk{true, 99}, UniqueID: 3, Avail: 4, Expects: 5},
		&DAvail{8}, &DPriv{9, 10, []byte{11, 12}})
	m.SAP, m.Tier, m.PTSAdj, m.Proto, m.PreRoll, m.EncAlg, m.CW = 1, 0x123, 0x1ABCDEF01, 2, 444, 0, 7
	return m
}

func jtree(k *K, b []byte, what string) any {
	v, err := jparse(b)
	if err != nil {
		k.Fail("%s is not JSON: %v\n%s", what, err, b)
	}
	return v
}

func checkEmbedJSON(k *K, cs Case) {
	m := cs.M
	if !jsonable(m) {
		return
	}
	o := embedOther()
	s, q := lib(m), lib(o)
	want, wantO := jcanon("", normal(jdoc(m))), jcanon("", normal(jdoc(o)))
	k.StateS(want)
	k.Validated(1)

	// a section held by value
	b, err := json.Marshal(*lib(m))
	if err != nil {
		k.Fail("json.Marshal of a section held by value: %v", err)
	}
	if got := jcanon("", jtree(k, b, "a section held by value")); got != want {
		k.Fail("held by value:\n%s", diff(got, want))
	}
	k.T(1)

	// in a larger document
	e := jenv{Before: "<b & \"4\">", Value: *lib(m), Ptr: s, List: []sis{*lib(o), *lib(m), *lib(o)}, Ptrs: []*sis{lib(m), q, nil, lib(m)},
		Map: map[string]sis{"x": *lib(m), "a": *lib(o)}, DS: lib(m).SpliceDescriptors, After: -7}
	e.Inner.S = [2]sis{*lib(m), *lib(o)}
	b, err = json.Marshal(e)
	if err != nil {
		k.Fail("json.Marshal of a document with sections: %v", err)
	}
	k.T(1)
	k.Input("%s", b)
	root, _ := jtree(k, b, "a document with sections").(map[string]any)
	at := func(path ...any) any {
		var v any = root
		for _, p := range path {
			switch p := p.(type) {
			case string:
				x, ok := v.(map[string]any)
				if !ok || x[p] == nil {
					return nil
				}
				v = x[p]
			case int:
				x, ok := v.([]any)
				if !ok || p >= len(x) {
					return nil
				}
				v = x[p]
			}
		}
		return v
	}
	places := []struct {
		path  []any
		other bool
	}{{[]any{"value"}, false}, {[]any{"ptr"}, false}, {[]any{"list", 0}, true}, {[]any{"list", 1}, false}, {[]any{"list", 2}, true},
		{[]any{"ptrs", 0}, false}, {[]any{"ptrs", 1}, true}, {[]any{"ptrs", 3}, false}, {[]any{"map", "x"}, false}, {[]any{"map", "a"}, true},
		{[]any{"inner", "S", 0}, false}, {[]any{"inner", "S", 1}, true}}
	for _, p := range places {
		w := want
		if p.other {
			w = wantO
		}
		v := at(p.path...)
		if v == nil {
			k.Fail("no section at %v", p.path)
		}
		if got := jcanon("", v); got != w {
			k.Fail("the section at %v:\n%s", p.path, diff(got, w))
		}
	}
	if at("before") != e.Before || fmt.Sprint(at("after")) != "-7" || at("nil") != nil || at("ptrs", 2) != nil || at("omit") != nil {
		k.Fail("what surrounds the sections is written wrongly")
	}
	k.T(1)

	// and back
	var d jenv
	if err := json.Unmarshal(b, &d); err != nil {
		k.Fail("json.Unmarshal of a document with sections: %v", err)
	}
	if len(d.List) != 3 || len(d.Ptrs) != 4 || d.Ptrs[2] != nil || d.Ptr == nil || len(d.Map) != 2 || d.Nil != nil || d.Omit != nil ||
		d.Before != e.Before || d.After != -7 {
		k.Fail("a document with sections is read as %s", dump(d))
	}
	mx, ma := d.Map["x"], d.Map["a"]
	sameSections(k, m, o, []*sis{&d.Value, d.Ptr, &d.List[1], d.Ptrs[0], d.Ptrs[3], &mx, &d.Inner.S[0]},
		[]*sis{&d.List[0], &d.List[2], d.Ptrs[1], &ma, &d.Inner.S[1]})
	sameList(k, m, d.DS, "list of descriptors")

	// one after another
	var buf bytes.Buffer
	en := json.NewEncoder(&buf)
	for i, x := range []any{q, s, *q, *s} {
		if err := en.Encode(x); err != nil {
			k.Fail("json.Encoder, section %d: %v", i, err)
		}
	}
	text := buf.String()
	k.Input("%s", text)
	de := json.NewDecoder(strings.NewReader(text + " 17 "))
	var rs [4]sis
	for i := range rs {
		if err := de.Decode(&rs[i]); err != nil {
			k.Fail("json.Decoder, section %d: %v", i, err)
		}
	}
	n := 0
	if err := de.Decode(&n); err != nil || n != 17 {
		k.Fail("json.Decoder after the sections: %d, %v", n, err)
	}
	k.T(9)
	sameSections(k, m, o, []*sis{&rs[1], &rs[3]}, []*sis{&rs[0], &rs[2]})

	// the list of descriptors alone
	ds := lib(m).SpliceDescriptors
	if b, err = json.Marshal(ds); err != nil {
		k.Fail("json.Marshal of the descriptors: %v", err)
	}
	k.Input("%s", b)
	var list scte35.SpliceDescriptors
	if err := json.Unmarshal(b, &list); err != nil {
		k.Fail("json.Unmarshal of the descriptors: %v", err)
	}
	k.T(2)
	sameList(k, m, list, "descriptors alone")
}

// normal turns a reference document into what parsing it gives.
func normal(v any) any {
	x, err := jparse([]byte(jstyle{}.render(v)))
	if err != nil {
		panic(err)
	}
	return x
}

// sameSections: ms hold m, os hold o.
func sameSections(k *K, m, o *Sec, ms, os []*sis) {
	for i, x := range ms {
		sameBinary(k, x, m, fmt.Sprintf("section %d", i))
		headerSame(k, x, m)
	}
	for i, x := range os {
		sameBinary(k, x, o, fmt.Sprintf("neighbour %d", i))
		headerSame(k, x, o)
	}
}

func headerSame(k *K, x *sis, m *Sec) {
	if x.PreRollMilliSeconds != m.PreRoll || x.Tier != m.Tier || x.SAPType != m.SAP {
		k.Fail("header of %s", dump(x))
	}
}

// sameList: ds are the descriptors of m.
func sameList(k *K, m *Sec, ds scte35.SpliceDescriptors, what string) {
	if len(ds) != len(m.Desc) {
		k.Fail("%s: %d of %d", what, len(ds), len(m.Desc))
	}
	x := lib(m)
	x.SpliceDescriptors = ds
	sameBinary(k, x, m, what)
}

type embedXMLCase struct {
	Case
	all bool // every style, otherwise one
}

func checkEmbedXML(k *K, cs embedXMLCase) {
	m := cs.M
	if !xmlable(m) {
		return
	}
	o := embedOther()
	want, wantO := xdoc(m).canon(), xdoc(o).canon()
	k.StateS(want)
	k.Validated(1)
	e := xenv{ID: "<5>", Before: "b & b", List: []sis{*lib(o), *lib(m)}, After: 9}
	e.Value.S, e.Value.T, e.Ptr.S, e.Ptr.T, e.Ptrs.S = *lib(m), "t1", lib(m), "t2", []*sis{lib(m), nil, lib(o)}
	for _, indent := range []bool{false, true} {
		if indent && !cs.all {
			continue
		}
		var b []byte
		var err error
		if indent {
			b, err = xml.MarshalIndent(e, " ", "\t")
		} else {
			b, err = xml.Marshal(&e)
		}
		if err != nil {
			k.Fail("xml.Marshal of a document with sections: %v", err)
		}
		k.T(1)
		k.Input("%s", b)
		if !indent {
			root, err := xparse(b)
			if err != nil {
				k.Fail("a document with sections is not XML: %v", err)
			}
			var found []string
			var walk func(n *xnode)
			walk = func(n *xnode) {
				if n.Name == "SpliceInfoSection" {
					found = append(found, n.canon())
					return
				}
				for _, c := range n.Kids {
					walk(c)
				}
			}
			walk(root)
			if ws := []string{want, want, wantO, want, want, wantO}; len(found) != len(ws) {
				k.Fail("%d sections written, %d expected", len(found), len(ws))
			} else {
				for i := range ws {
					if found[i] != ws[i] {
						k.Fail("section %d of the document:\n%s", i, diff(found[i], ws[i]))
					}
				}
			}
		}
		readEnv(k, m, o, b)
	}
	// documents of others, with the namespace declared at the top or in place
	h := fnv.New32a()
	_, _ = h.Write([]byte(want))
	pick := h.Sum32() % 5
	for i, st := range []xstyle{{}, {prefix: "s"}, {prefix: "e", rev: true, numBool: true}, {ws: true, rev: true}, {prefix: "t", omit: true}} {
		if !cs.all && uint32(i) != pick {
			continue
		}
		dm, do := st.render(xdoc(m)), st.render(xdoc(o))
		dm, do = strings.TrimPrefix(dm, `<?xml version="1.0" encoding="UTF-8"?>`), strings.TrimPrefix(do, `<?xml version="1.0" encoding="UTF-8"?>`)
		top := ""
		if st.prefix == "s" || st.prefix == "t" {
			decl := ` xmlns:` + st.prefix + `="` + scteNS + `"`
			if strings.Count(dm, decl) != 1 { // also within a value
				continue
			}
			top, dm, do = decl, strings.Replace(dm, decl, "", 1), strings.Replace(do, decl, "", 1)
		}
		doc := `<env:Envelope xmlns:env="urn:env" id="&lt;5>"` + top + `><!-- c --><env:before>b &amp; b</env:before> <env:value>` + dm +
			`<env:t>t1</env:t></env:value><env:unknown><x/>` + do + `</env:unknown><env:ptr><env:t>t2</env:t>` + dm + `</env:ptr>` + do + "\n" + dm +
			`<env:ptrs>` + dm + do + `</env:ptrs><env:after>9</env:after></env:Envelope>`
		k.Input("%s", doc)
		readEnv(k, m, o, []byte(doc))

		// one after another, read as elements and as documents
		stream := do + "<!-- c -->" + dm + "\n" + dm + do + "<end/>"
		if top != "" {
			continue
		}
		k.Input("%s", stream)
		for _, tokens := range []bool{false, true} {
			d := xml.NewDecoder(strings.NewReader(stream))
			var rs [4]sis
			for i := range rs {
				var err error
				if tokens {
					var se xml.StartElement
					if se, err = nextStart(d); err == nil {
						if i%2 == 0 { // as a reader of the caller's does
							err = rs[i].UnmarshalXML(d, se)
						} else {
							err = d.DecodeElement(&rs[i], &se)
						}
					}
				} else {
					err = d.Decode(&rs[i])
				}
				if err != nil {
					k.Fail("xml.Decoder, section %d: %v", i, err)
				}
				if !tokens && !st.ws {
					end := []int{len(do), len(do) + 10 + len(dm), len(do) + 11 + 2*len(dm), 2*len(do) + 11 + 2*len(dm)}[i]
					if int(d.InputOffset()) != end {
						k.Fail("section %d is read up to %d, it ends at %d", i, d.InputOffset(), end)
					}
				}
			}
			if se, err := nextStart(d); err != nil || se.Name.Local != "end" {
				k.Fail("after the sections: %v %v", se, err)
			}
			k.T(5)
			sameSections(k, m, o, []*sis{&rs[1], &rs[2]}, []*sis{&rs[0], &rs[3]})
		}
	}
	// written one after another
	var buf bytes.Buffer
	en := xml.NewEncoder(&buf)
	for i, x := range []any{lib(o), lib(m), *lib(o), *lib(m)} {
		if err := en.Encode(x); err != nil {
			k.Fail("xml.Encoder, section %d: %v", i, err)
		}
	}
	k.Input("%s", buf.String())
	d := xml.NewDecoder(&buf)
	var rs [4]sis
	for i := range rs {
		if err := d.Decode(&rs[i]); err != nil {
			k.Fail("xml.Decoder, section %d: %v", i, err)
		}
	}
	if err := d.Decode(&sis{}); err != io.EOF {
		k.Fail("after the last section: %v", err)
	}
	k.T(9)
	sameSections(k, m, o, []*sis{&rs[1], &rs[3]}, []*sis{&rs[0], &rs[2]})
}

func nextStart(d *xml.Decoder) (xml.StartElement, error) {
	for {
		t, err := d.Token()
		if err != nil {
			return xml.StartElement{}, err
		}
		if se, ok := t.(xml.StartElement); ok {
			return se, nil
		}
	}
}

func readEnv(k *K, m, o *Sec, b []byte) {
	var r xenv
	if err := xml.Unmarshal(b, &r); err != nil {
		k.Fail("xml.Unmarshal of a document with sections: %v", err)
	}
	k.T(1)
	if r.ID != "<5>" || r.Before != "b & b" || r.After != 9 || r.Value.T != "t1" || r.Ptr.T != "t2" || r.Ptr.S == nil || len(r.List) != 2 || len(r.Ptrs.S) != 2 {
		k.Fail("a document with sections is read as %s", dump(r))
	}
	sameSections(k, m, o, []*sis{&r.Value.S, r.Ptr.S, &r.List[1], r.Ptrs.S[0]}, []*sis{&r.List[0], r.Ptrs.S[1]})
}

// A bad section among good ones is reported, and those before it are right.
func checkEmbedBad(k *K, d badDoc) {
	bad := d.bad
	if !bad {
		if d.xml {
			bad = !xmlValid(d.doc)
		} else {
			bad = !json.Valid(d.doc)
		}
	}
	k.State(d.doc)
	k.Validated(1)
	o := embedOther()
	good := jstyle{}.render(jdoc(o))
	if d.xml {
		good = xstyle{}.render(xdoc(o))
	}
	k.Input("%s", d.doc)
	stream := good + "\n" + string(d.doc) + "\n" + good
	var next func(any) error
	if d.xml {
		next = xml.NewDecoder(strings.NewReader(stream)).Decode
	} else {
		next = json.NewDecoder(strings.NewReader(stream)).Decode
	}
	var rs [3]sis
	if err := next(&rs[0]); err != nil {
		k.Fail("the first section of a stream: %v", err)
	}
	err := next(&rs[1])
	k.T(2)
	if (err != nil) != bad && bad {
		k.Fail("a bad section in a stream is accepted, as %s", dump(rs[1]))
	}
	sameBinary(k, &rs[0], o, "the section before")
	if err == nil {
		if err := next(&rs[2]); err != nil {
			k.Fail("the section after an accepted one: %v", err)
		}
		k.T(1)
		sameBinary(k, &rs[2], o, "the section after")
	}
	// in a list
	if d.xml {
		var l struct {
			S []*sis `xml:"SpliceInfoSection"`
			N int    `xml:"n"`
		}
		lerr := xml.Unmarshal([]byte("<l>"+good+string(d.doc)+good+"<n>5</n></l>"), &l)
		if lerr == nil && bad && !strings.Contains(d.name, "renamed") && len(l.S) != 2 {
			k.Fail("a bad section in a list is accepted")
		}
		if err == nil && lerr == nil && (len(l.S) < 2 || l.N != 5) {
			k.Fail("a list is read as %d sections, %d", len(l.S), l.N)
		}
		if len(l.S) > 0 && lerr == nil {
			sameBinary(k, l.S[0], o, "the first of the list")
			sameBinary(k, l.S[len(l.S)-1], o, "the last of the list")
		}
	} else {
		var l struct {
			S []*sis
			N int
		}
		lerr := json.Unmarshal([]byte(`{"S":[`+good+","+string(d.doc)+","+good+`],"N":5}`), &l)
		if lerr == nil && bad {
			k.Fail("a bad section in a list is accepted")
		}
		if lerr == nil {
			if len(l.S) != 3 || l.N != 5 {
				k.Fail("a list is read as %d sections, %d", len(l.S), l.N)
			}
			sameBinary(k, l.S[0], o, "the first of the list")
			sameBinary(k, l.S[2], o, "the last of the list")
		}
	}
	k.T(1)
}

// Two different sections next to each other, in one list and one stream.
type embedPair struct{ a, b Case }

func (x embedPair) String() string { return x.a.Name + " before " + x.b.Name }

func checkEmbedPair(k *K, x embedPair) {
	ms := []*Sec{x.a.M, x.b.M, x.a.M}
	k.StateS(string(enc(x.a.M.onWire())) + "|" + string(enc(x.b.M.onWire())))
	k.Validated(2)
	if jsonable(x.a.M) && jsonable(x.b.M) {
		var l []sis
		for _, m := range ms {
			l = append(l, *lib(m))
		}
		b, err := json.Marshal(l)
		if err != nil {
			k.Fail("json.Marshal of a list: %v", err)
		}
		k.Input("%s", b)
		for _, into := range []int{0, 2, 3} { // a new list, one with room, one in use
			r := make([]sis, into)
			for i := range r {
				r[i] = *lib(embedOther())
			}
			if into == 2 {
				r = r[:0]
			}
			if err := json.Unmarshal(b, &r); err != nil || len(r) != 3 {
				k.Fail("json.Unmarshal of a list: %d sections, %v", len(r), err)
			}
			for i, m := range ms {
				sameBinary(k, &r[i], m, fmt.Sprintf("section %d", i))
			}
		}
		k.T(4)
	}
	if xmlable(x.a.M) && xmlable(x.b.M) {
		type list struct {
			S []sis  `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
			T string `xml:"t"`
		}
		l := list{T: "x"}
		for _, m := range ms {
			l.S = append(l.S, *lib(m))
		}
		b, err := xml.Marshal(l)
		if err != nil {
			k.Fail("xml.Marshal of a list: %v", err)
		}
		k.Input("%s", b)
		var r list
		if err := xml.Unmarshal(b, &r); err != nil || len(r.S) != 3 || r.T != "x" {
			k.Fail("xml.Unmarshal of a list: %d sections, %v", len(r.S), err)
		}
		for i, m := range ms {
			sameBinary(k, &r.S[i], m, fmt.Sprintf("section %d", i))
		}
		k.T(2)
	}
}

func propEmbed(c *Ctx) {
	c.Assume("strings that JSON or XML cannot carry are outside, as for C07 and C08; embedding the type anonymously in a struct, which makes its methods those of the struct, too")
	lv := 0
	if c.Thorough {
		lv = 1
	}
	ExploreCases(c, "json", func(y yieldFn) bool { return docUniverse(lv, y) }, checkEmbedJSON)
	xmls := func(all bool, fam func(yieldFn) bool) func(func(embedXMLCase) bool) {
		return func(y func(embedXMLCase) bool) { fam(func(cs Case) bool { return y(embedXMLCase{cs, all}) }) }
	}
	name := func(x embedXMLCase) string { return x.Name }
	Explore(c, "xml-styles", xmls(true, func(y yieldFn) bool { return shapes(2, y) && alike(y) && textCases(y) }), name, checkEmbedXML)
	Explore(c, "xml", xmls(c.Thorough, func(y yieldFn) bool { return docUniverse(lv, y) }), name, checkEmbedXML)
	Explore(c, "neighbours", func(y func(embedPair) bool) {
		var cs []Case
		step := 2
		if c.Thorough {
			step = 1
		}
		i := 0
		shapes(1, func(x Case) bool {
			if i++; i%step == 0 {
				cs = append(cs, x)
			}
			return true
		})
		for _, a := range cs {
			for _, b := range cs {
				if !y(embedPair{a, b}) {
					return
				}
			}
		}
	}, embedPair.String, checkEmbedPair)
	Explore(c, "bad", func(y func(badDoc) bool) {
		docBases(func(name, j, x string, m *Sec) bool {
			return jmutate(normal(jdoc(m)), func(p string, d []byte, bad bool) bool { return y(badDoc{name + " " + p, d, false, bad}) }) &&
				xmutate(xdoc(m), func(p string, d []byte, bad bool) bool { return y(badDoc{name + " " + p, d, true, bad}) })
		})
	}, badDoc.String, checkEmbedBad)
}
