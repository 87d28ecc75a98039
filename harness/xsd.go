package main

import (
	"embed"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

// An interpreter for the part of XML Schema that the SCTE 35 schemas use. The
// schemas themselves (copies of docs/*.xsd) are the model: an automaton over
// documents, against which everything the library writes is run, and from
// which the documents it has to read are derived.

//go:embed schema/*.xsd
var schemaFS embed.FS

const xsdNS = "http://www.w3.org/2001/XMLSchema"

type schema struct {
	types map[string]*xnode // named complex and simple types
	elems map[string]*xnode // global elements
	cache map[*xnode]*ctype
}

func (n *xnode) get(k string) string {
	for _, a := range n.Attr {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

func (n *xnode) child(names ...string) *xnode {
	for _, k := range n.Kids {
		for _, w := range names {
			if k.NS == xsdNS && k.Name == w {
				return k
			}
		}
	}
	return nil
}

func loadSchema(file string, fix func(string) string) *schema {
	b, err := schemaFS.ReadFile("schema/" + file)
	if err != nil {
		panic(err)
	}
	root, err := xparse([]byte(fix(string(b))))
	if err != nil {
		panic(err)
	}
	s := &schema{types: map[string]*xnode{}, elems: map[string]*xnode{}, cache: map[*xnode]*ctype{}}
	for _, k := range root.Kids {
		switch k.Name {
		case "complexType", "simpleType":
			s.types[k.get("name")] = k
		case "element":
			s.elems[k.get("name")] = k
		}
	}
	for _, k := range s.elems { // resolve everything reachable
		s.resolve(k, map[*xnode]bool{})
	}
	return s
}

func (s *schema) resolve(decl *xnode, seen map[*xnode]bool) {
	if seen[decl] {
		return
	}
	seen[decl] = true
	var walk func(p *particle)
	walk = func(p *particle) {
		if p == nil {
			return
		}
		if p.kind == "element" {
			s.resolve(p.decl, seen)
		}
		for _, k := range p.kids {
			walk(k)
		}
	}
	walk(s.typeOf(decl).content)
}

// ctype is a resolved type.
type ctype struct {
	content *particle         // element content
	simple  *xnode            // simple content: a simpleType node
	builtin string            // or the name of a built-in
	attrs   map[string]*xnode // declared attributes
	anyAttr string            // "", "strict" or "lax"
}

type particle struct {
	kind     string // element, sequence, choice, any
	name     string
	decl     *xnode
	min, max int
	kids     []*particle
}

func occurs(n *xnode) (int, int) {
	mn, mx := 1, 1
	if v := n.get("minOccurs"); v != "" {
		mn, _ = strconv.Atoi(v)
	}
	if v := n.get("maxOccurs"); v == "unbounded" {
		mx = 1 << 30
	} else if v != "" {
		mx, _ = strconv.Atoi(v)
	}
	return mn, mx
}

func (s *schema) particle(n *xnode) *particle {
	p := &particle{kind: n.Name}
	p.min, p.max = occurs(n)
	switch n.Name {
	case "element":
		p.decl = n
		p.name = n.get("name")
		if r := n.get("ref"); r != "" {
			p.name, p.decl = r, s.elems[r]
		}
		if p.decl == nil {
			panic("xsd: no element " + n.get("ref"))
		}
	case "sequence", "choice":
		for _, k := range n.Kids {
			switch k.Name {
			case "annotation":
			case "element", "sequence", "choice", "any":
				p.kids = append(p.kids, s.particle(k))
			default:
				panic("xsd: particle " + k.Name)
			}
		}
	case "any":
	default:
		panic("xsd: particle " + n.Name)
	}
	return p
}

// typeOf resolves the type of an element declaration.
func (s *schema) typeOf(decl *xnode) *ctype {
	if t, ok := s.cache[decl]; ok {
		return t
	}
	var t *ctype
	if name := decl.get("type"); name != "" {
		t = s.named(name)
	} else if c := decl.child("complexType"); c != nil {
		t = s.complex(c)
	} else if c := decl.child("simpleType"); c != nil {
		t = &ctype{simple: c}
	} else {
		panic("xsd: element without a type: " + decl.get("name"))
	}
	s.cache[decl] = t
	return t
}

func (s *schema) named(name string) *ctype {
	if strings.HasPrefix(name, "xsd:") {
		return &ctype{builtin: name[4:]}
	}
	n := s.types[name]
	if n == nil {
		panic("xsd: no type " + name)
	}
	if n.Name == "simpleType" {
		return &ctype{simple: n}
	}
	return s.complex(n)
}

func (s *schema) complex(n *xnode) *ctype {
	t := &ctype{attrs: map[string]*xnode{}}
	body := n
	if c := n.child("complexContent", "simpleContent"); c != nil {
		body = c.child("extension")
		b := s.named(body.get("base"))
		t.content, t.simple, t.builtin, t.anyAttr = b.content, b.simple, b.builtin, b.anyAttr
		for k, a := range b.attrs {
			t.attrs[k] = a
		}
	}
	for _, k := range body.Kids {
		switch k.Name {
		case "sequence", "choice":
			p := s.particle(k)
			if t.content != nil {
				p = &particle{kind: "sequence", min: 1, max: 1, kids: []*particle{t.content, p}}
			}
			t.content = p
		case "attribute":
			t.attrs[k.get("name")] = k
		case "anyAttribute":
			t.anyAttr = "strict"
			if k.get("processContents") == "lax" {
				t.anyAttr = "lax"
			}
		case "annotation":
		default:
			panic("xsd: in type: " + k.Name)
		}
	}
	return t
}

// ---- validation ----

type xerrs struct{ m map[string]bool }

func (e *xerrs) add(f string, a ...any) {
	if e.m == nil {
		e.m = map[string]bool{}
	}
	e.m[fmt.Sprintf(f, a...)] = true
}

func (e *xerrs) list() []string {
	var l []string
	for k := range e.m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// validate lists everything that makes the document invalid. The messages name
// the place and the rule, not the values.
func (s *schema) validate(root *xnode) []string {
	var e xerrs
	d := s.elems[root.Name]
	if d == nil || root.NS != scteNS {
		e.add("%s is not a root element", root.Name)
		return e.list()
	}
	s.element(&e, d, root)
	return e.list()
}

func (s *schema) element(e *xerrs, decl, n *xnode) {
	t := s.typeOf(decl)
	for _, a := range n.Attr {
		d := t.attrs[a[0]]
		if d == nil {
			i := strings.LastIndex(a[0], ":")
			switch ns := a[0][:max(i, 0)]; {
			case ns == "http://www.w3.org/2001/XMLSchema-instance":
			case t.anyAttr == "lax":
			case t.anyAttr == "strict" && (ns == "http://www.w3.org/XML/1998/namespace" || slices.Contains(otherNS, ns)): // taken to be declared there
			default:
				e.add("%s: attribute %s is not declared", n.Name, a[0])
			}
			continue
		}
		if f := d.get("fixed"); f != "" && strings.TrimLeft(strings.TrimSpace(a[1]), "+0") != strings.TrimLeft(f, "0") {
			e.add("%s/@%s: must be %s", n.Name, a[0], f)
		}
		var at *ctype
		if d.get("type") != "" {
			at = s.named(d.get("type"))
		} else {
			at = &ctype{simple: d.child("simpleType")}
		}
		if m := s.simpleValue(at, a[1]); m != "" {
			e.add("%s/@%s: %s", n.Name, a[0], m)
		}
	}
	for k, d := range t.attrs {
		if d.get("use") == "required" {
			ok := false
			for _, a := range n.Attr {
				ok = ok || a[0] == k
			}
			if !ok {
				e.add("%s/@%s: required", n.Name, k)
			}
		}
	}
	if t.simple != nil || t.builtin != "" {
		if len(n.Kids) > 0 {
			e.add("%s: elements in simple content", n.Name)
		}
		if m := s.simpleValue(t, n.Text); m != "" {
			e.add("%s: %s", n.Name, m)
		}
		return
	}
	if strings.TrimSpace(n.Text) != "" {
		e.add("%s: character data in element content", n.Name)
	}
	// match the children
	owner := make([]*particle, len(n.Kids))
	ok := false
	if t.content == nil {
		ok = len(n.Kids) == 0
	} else {
		for _, end := range matchP(t.content, n.Kids, 0, owner) {
			ok = ok || end == len(n.Kids)
		}
	}
	if !ok {
		var l []string
		for _, k := range n.Kids {
			if len(l) == 0 || l[len(l)-1] != k.Name {
				l = append(l, k.Name)
			}
		}
		e.add("%s: content (%s) is not allowed", n.Name, strings.Join(l, " "))
	}
	for i, k := range n.Kids {
		if o := owner[i]; o != nil && o.kind == "element" {
			s.element(e, o.decl, k)
		}
	}
}

// matchP returns the positions at which p can end when started at i.
func matchP(p *particle, kids []*xnode, i int, owner []*particle) []int {
	cur := map[int]bool{i: true}
	res := map[int]bool{}
	if p.min == 0 {
		res[i] = true
	}
	for n := 1; n <= p.max && len(cur) > 0; n++ {
		next := map[int]bool{}
		for at := range cur {
			for _, e := range matchOnce(p, kids, at, owner) {
				if e > at || n <= p.min {
					next[e] = true
				}
			}
		}
		if n >= p.min {
			for e := range next {
				res[e] = true
			}
		}
		cur = next
	}
	var l []int
	for e := range res {
		l = append(l, e)
	}
	return l
}

func matchOnce(p *particle, kids []*xnode, i int, owner []*particle) []int {
	switch p.kind {
	case "element":
		if i < len(kids) && kids[i].Name == p.name && kids[i].NS == scteNS {
			owner[i] = p // the schemas are deterministic: a name has one owner
			return []int{i + 1}
		}
	case "any":
		if i < len(kids) {
			owner[i] = p
			return []int{i + 1}
		}
	case "choice":
		var l []int
		for _, k := range p.kids {
			l = append(l, matchP(k, kids, i, owner)...)
		}
		return l
	case "sequence":
		cur := []int{i}
		for _, k := range p.kids {
			next := map[int]bool{}
			for _, at := range cur {
				for _, e := range matchP(k, kids, at, owner) {
					next[e] = true
				}
			}
			cur = cur[:0]
			for e := range next {
				cur = append(cur, e)
			}
		}
		return cur
	}
	return nil
}

var reCache = map[string]*regexp.Regexp{
	"text|hexbinary|base-64|private:.+": regexp.MustCompile(`^(text|hexbinary|base-64|private:.+)$`),
	`[0-9#\*]+`:                         regexp.MustCompile(`^[0-9#*]+$`),
	"SpliceInfoSection|private:.+":      regexp.MustCompile(`^(SpliceInfoSection|private:.+)$`),
}

var languageRE = regexp.MustCompile(`^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$`)
var dateTimeRE = regexp.MustCompile(`^-?\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?$`)
var digitsRE = regexp.MustCompile(`^\+?\d+$`)

func collapse(v string) string { return strings.Join(strings.Fields(v), " ") }

func (s *schema) simpleValue(t *ctype, v string) string {
	if t.builtin != "" {
		return builtinValue(t.builtin, v)
	}
	r := t.simple.child("restriction")
	if m := s.simpleValue(s.named(r.get("base")), v); m != "" {
		return m
	}
	if r.get("base") != "xsd:string" {
		v = collapse(v)
	}
	pats, match := 0, false
	for _, f := range r.Kids {
		switch f.Name {
		case "annotation", "whiteSpace":
		case "pattern":
			re := reCache[f.get("value")]
			if re == nil {
				panic("xsd: pattern " + f.get("value"))
			}
			pats++
			match = match || re.MatchString(v)
		case "maxInclusive", "maxExclusive":
			lim, _ := strconv.ParseUint(f.get("value"), 10, 64)
			n, _ := strconv.ParseUint(strings.TrimPrefix(v, "+"), 10, 64)
			if n > lim || f.Name == "maxExclusive" && n == lim {
				return "out of range"
			}
		default:
			panic("xsd: facet " + f.Name)
		}
	}
	if pats > 0 && !match {
		return "not of the required pattern"
	}
	return ""
}

func builtinValue(name, v string) string {
	bad := "not an xsd:" + name
	c := collapse(v)
	switch name {
	case "string", "token":
		return ""
	case "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong":
		bits := map[string]int{"unsignedByte": 8, "unsignedShort": 16, "unsignedInt": 32, "unsignedLong": 64}[name]
		if !digitsRE.MatchString(c) {
			return bad
		}
		if _, err := strconv.ParseUint(strings.TrimPrefix(c, "+"), 10, bits); err != nil {
			return bad
		}
	case "boolean":
		if c != "true" && c != "false" && c != "1" && c != "0" {
			return bad
		}
	case "dateTime":
		if !dateTimeRE.MatchString(c) {
			return bad
		}
		for _, l := range []string{time.RFC3339Nano, "2006-01-02T15:04:05.999999999"} {
			if _, err := time.Parse(l, c); err == nil {
				return ""
			}
		}
		return bad
	case "hexBinary":
		if _, err := hex.DecodeString(c); err != nil {
			return bad
		}
	case "base64Binary":
		if _, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(c, " ", "")); err != nil {
			return bad
		}
	case "language":
		if !languageRE.MatchString(c) {
			return bad
		}
	default:
		panic("xsd: built-in " + name)
	}
	return ""
}

// declaredAttrs returns the attributes of every element, and those required (element/attribute).
func (s *schema) declaredAttrs() (required map[string]bool, all map[string]map[string]bool) {
	m := map[string]bool{}
	all = map[string]map[string]bool{}
	seen := map[*xnode]bool{}
	var el func(name string, d *xnode)
	var walk func(p *particle)
	walk = func(p *particle) {
		if p == nil {
			return
		}
		if p.kind == "element" {
			el(p.name, p.decl)
		}
		for _, k := range p.kids {
			walk(k)
		}
	}
	el = func(name string, d *xnode) {
		if seen[d] {
			return
		}
		seen[d] = true
		t := s.typeOf(d)
		for k, a := range t.attrs {
			if all[name] == nil {
				all[name] = map[string]bool{}
			}
			all[name][k] = true
			if a.get("use") == "required" {
				m[name+"/"+k] = true
			}
		}
		walk(t.content)
	}
	for n, d := range s.elems {
		el(n, d)
	}
	return m, all
}
