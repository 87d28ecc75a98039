package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// morph edits dst in place until it holds what src holds, keeping every
// pointer and every list's memory that can be kept: the edits a user makes
// field by field. Nothing of src is shared.
func morph(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if dst.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
		}
		morph(dst.Elem(), src.Elem())
	case reflect.Interface:
		switch {
		case src.IsNil():
			dst.SetZero()
		case !dst.IsNil() && dst.Elem().Type() == src.Elem().Type() && dst.Elem().Kind() == reflect.Ptr:
			morph(dst.Elem().Elem(), src.Elem().Elem())
		default:
			n := reflect.New(src.Elem().Type().Elem())
			morph(n.Elem(), src.Elem().Elem())
			dst.Set(n)
		}
	case reflect.Struct:
		if src.Type() == timeType {
			dst.Set(src)
			return
		}
		for _, i := range fieldsOf(src.Type()) {
			morph(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if dst.Len() > src.Len() {
			dst.Set(dst.Slice(0, src.Len()))
		}
		for i := 0; i < src.Len(); i++ {
			if i == dst.Len() {
				dst.Set(reflect.Append(dst, reflect.Zero(src.Type().Elem())))
			}
			morph(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

func morphTo(s *scte35.SpliceInfoSection, m *Sec) {
	morph(reflect.ValueOf(s).Elem(), reflect.ValueOf(lib(m)).Elem())
}

// editPair is an edit of one section into another and back.
type editPair struct{ a, b Case }

func (e editPair) String() string { return e.a.Name + " -> " + e.b.Name }

// checkEdit: a section that holds a, built or received, and read, is edited
// in place until it holds b; it must then behave as b. Then back.
func checkEdit(k *K, e editPair, docs bool) {
	for _, received := range []bool{false, true} {
		s := lib(e.a.M)
		if received {
			s = &scte35.SpliceInfoSection{}
			if err := s.Decode(enc(e.a.M)); err != nil {
				k.Fail("Decode: %v", err)
			}
		}
		_, _ = s.Encode()
		_ = s.Duration()
		_ = s.Table("", "\t")
		for n, to := range []Case{e.b, e.a, e.b} {
			morphTo(s, to.M)
			w := lib(to.M)
			want := dump(w)
			k.StateS(want)
			k.Validated(1)
			k.T(3)
			b, err := s.Encode()
			if we := enc(to.M); err != nil || !bytes.Equal(b, we) {
				k.Fail("edited into %s (received: %v) the section encodes as %x (%v), want %x", to.Name, received, b, err, we)
			}
			if d, wd := s.Duration(), w.Duration(); d != wd {
				k.Fail("edited into %s (received: %v) the section's Duration is %v, want %v", to.Name, received, d, wd)
			}
			if t, wt := s.Table("", "\t"), w.Table("", "\t"); t != wt {
				k.Fail("edited into %s (received: %v) the section's table differs: %s", to.Name, received, diff(t, wt))
			}
			if g := dump(s); g != want {
				k.Fail("edited into %s (received: %v) and read the section differs: %s", to.Name, received, diff(g, want))
			}
			if docs && n == 0 && jsonable(to.M) {
				if g := dump(fromJSON(k, toJSON(k, s))); g != want {
					k.Fail("edited into %s (received: %v) the section's JSON differs: %s", to.Name, received, diff(g, want))
				}
				if !xmlable(to.M) {
					continue
				}
				if g := dump(fromXML(k, toXML(k, s, false))); g != want {
					k.Fail("edited into %s (received: %v) the section's XML differs: %s", to.Name, received, diff(g, want))
				}
			}
		}
	}
}

// editable: what can be built from fields alone and conforms.
func editable(m *Sec) bool {
	return len(m.Stuff) == 0 && representable(m) && upidsWellFormed(m)
}

// upidEdits: descriptors with one UPID, or with that UPID in a MID().
func upidEdits() []Case {
	var us []UPID
	for t := 0; t <= 255; t++ {
		if t == 0x0D {
			continue
		}
		switch t {
		case 0x0A, 0x08, 0x0C:
		default:
			us = append(us, UPID{uint32(t), textPat(5)})
			if t < 0x14 {
				us = append(us, UPID{uint32(t), textPat(12)})
			}
		}
	}
	for i := 0; i < 12; i++ { // EIDRs that differ in one byte
		raw := pat(12)
		us = append(us, UPID{0x0A, cp(raw)})
		raw[i] ^= 0x11
		us = append(us, UPID{0x0A, raw})
	}
	for _, p := range []byte{0x75, 0x76, 0x77, 0x78} { // one suffix, every prefix with a name
		us = append(us, UPID{0x0A, append([]byte{0x14, p}, pat(10)...)})
	}
	for i := 0; i < 8; i++ {
		raw := make([]byte, 8)
		raw[i] = 1
		us = append(us, UPID{0x08, raw})
	}
	for _, s := range []string{"DISC", "DISCx", "DISCy", "ABCDx", "ABCD", "DISCxyz", "\x00\x00\x00\x00x", "\x00\x00\x00\x00"} {
		us = append(us, UPID{0x0C, []byte(s)})
	}
	for _, s := range []string{"http://a", "HTTP://A", "http://a/", "\xE9", "é", " a", "a ", "a"} {
		us = append(us, UPID{0x0F, []byte(s)}, UPID{0x09, []byte(s)})
	}
	var l []Case
	for _, u := range us {
		g, h := segBase(), segBase()
		g.UPIDs = []UPID{u}
		h.UPIDs = []UPID{upidText, u}
		l = append(l, Case{fmt.Sprintf("upid %#x %q", u.Type, u.Raw), hdr(&CTime{}, g)}, Case{fmt.Sprintf("mid upid %#x %q", u.Type, u.Raw), hdr(&CTime{}, h)})
	}
	return l
}

func everyEdit(c *Ctx) {
	name := func(e editPair) string { return e.String() }
	pairs := func(label string, pool []Case, docs bool) {
		var l []Case
		for _, cs := range pool {
			if editable(cs.M) {
				l = append(l, cs)
			}
		}
		Explore(c, label, func(y func(editPair) bool) {
			for i := range l {
				for j := range l {
					if (j > i || i == j) && !y(editPair{l[i], l[j]}) {
						return
					}
				}
			}
		}, name, func(k *K, e editPair) { checkEdit(k, e, docs) })
	}
	Explore(c, "edit-neighbours", func(y func(editPair) bool) {
		var last, before Case
		universe(c.level()-1, func(cs Case) bool {
			if !editable(cs.M) {
				return true
			}
			if last.M != nil && !y(editPair{last, cs}) || c.Thorough && before.M != nil && !y(editPair{before, cs}) {
				return false
			}
			before, last = last, cs
			return true
		})
	}, name, func(k *K, e editPair) { checkEdit(k, e, true) })
	var pool []Case
	shapes(1, func(cs Case) bool { pool = append(pool, cs); return true })
	pairs("edit-shapes", pool, true)
	pairs("edit-upids", upidEdits(), c.Thorough)
}

// checkOver: b read by every route into a value that holds a, built or
// received.
func checkOver(k *K, e editPair) {
	want, wire := dump(lib(e.b.M)), dump(lib(e.b.M.onWire()))
	b := enc(e.b.M)
	k.StateS(e.b.Name + wire)
	for _, received := range []bool{false, true} {
		for route := 0; route < 3; route++ {
			s := lib(e.a.M)
			if received {
				s = &scte35.SpliceInfoSection{}
				if err := s.Decode(enc(e.a.M)); err != nil {
					k.Fail("Decode: %v", err)
				}
			}
			k.T(1)
			w := want
			switch route {
			case 0:
				w = wire
				k.Input("%x, then %x", enc(e.a.M), b)
				must(k, s.Decode(b), "Decode")
			case 1:
				if !jsonable(e.b.M) {
					continue
				}
				d := jstyle{}.render(jdoc(e.b.M))
				k.Input("%x, then %s", enc(e.a.M), d)
				must(k, json.Unmarshal([]byte(d), s), "UnmarshalJSON")
			case 2:
				if !xmlable(e.b.M) {
					continue
				}
				d := xstyle{}.render(xdoc(e.b.M))
				k.Input("%x, then %s", enc(e.a.M), d)
				must(k, xml.Unmarshal([]byte(d), s), "UnmarshalXML")
			}
			k.Validated(1)
			if g := dump(s); g != w {
				k.Fail("route %d (used one received: %v): the result differs from that of a fresh section: %s", route, received, diff(g, w))
			}
			if g, err := s.Encode(); err != nil || !bytes.Equal(g, b) {
				k.Fail("route %d (used one received: %v): the result encodes as %x (%v), want %x", route, received, g, err, b)
			}
		}
	}
}

func everyOver(c *Ctx) {
	name := func(e editPair) string { return e.String() }
	Explore(c, "neighbours", func(y func(editPair) bool) {
		var last Case
		universe(c.level()-1, func(cs Case) bool {
			if !editable(cs.M) {
				return true
			}
			if last.M != nil && (!y(editPair{last, cs}) || !y(editPair{cs, last})) {
				return false
			}
			last = cs
			return true
		})
	}, name, checkOver)
	Explore(c, "shapes", func(y func(editPair) bool) {
		var l []Case
		shapes(1, func(cs Case) bool {
			if editable(cs.M) {
				l = append(l, cs)
			}
			return true
		})
		for i := range l {
			for j := range l {
				if (c.Thorough || (i+j)%3 == 0) && !y(editPair{l[i], l[j]}) {
					return
				}
			}
		}
	}, name, checkOver)
}
