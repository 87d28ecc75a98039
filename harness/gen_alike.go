package main

import (
	"fmt"
	"reflect"
)

// alike yields sections whose parts are equal to one another, or hold the same
// value in many fields: nothing may be told apart by what it holds.
func alike(y yieldFn) bool {
	ok := true
	put := func(name string, cmd Cmd, ds ...Desc) {
		if m := hdr(cmd, ds...); ok && representable(m) {
			ok = y(Case{"alike: " + name, m})
		}
	}
	for _, n := range []int{2, 3, 4, 10, 11, 14, 15, 40} {
		for _, v := range []uint64{0, 5, 1<<33 - 1} {
			// equal throughout, or the first, the last or neighbours differing
			for odd := -2; odd < 3 && odd < n; odd++ {
				at := func(i int) uint64 {
					if i == odd || odd == -2 && i == n-1 {
						return v ^ 1
					}
					return v
				}
				c := insBase()
				e := evBase(7)
				g := segBase()
				s := &CSched{}
				a := &DAudio{}
				for i := 0; i < n; i++ {
					t := uint32(at(i)) & 0xFF
					c.Comps = append(c.Comps, IComp{Tag: t, HasST: true, PTS: p64(at(i))})
					e.Comps = append(e.Comps, SComp{t, uint32(at(i))})
					g.Comps = append(g.Comps, GComp{t, at(i)})
					x := evBase(t)
					x.Prog, x.Break = p32(uint32(at(i))), &Brk{true, at(i)}
					s.Events = append(s.Events, x)
					a.Ch = append(a.Ch, AudioCh{t, "eng", t & 7, t & 15, true})
				}
				put(fmt.Sprintf("%d components %d odd %d", n, v, odd), c)
				c2 := *c
				c2.Comps = append([]IComp(nil), c.Comps...)
				for i := range c2.Comps {
					c2.Comps[i].Tag = uint32(i)
				}
				put(fmt.Sprintf("%d components at %d odd %d", n, v, odd), &c2)
				e2 := e
				e2.ID = 8
				put(fmt.Sprintf("%d event components %d odd %d", n, v, odd), &CSched{[]SEvent{e, e2, e}})
				put(fmt.Sprintf("%d events %d odd %d", n, v, odd), s)
				put(fmt.Sprintf("%d segmentation components %d odd %d", n, v, odd), &CTime{p64(v)}, g, g)
				put(fmt.Sprintf("%d channels %d odd %d", n, v, odd), &CTime{p64(v)}, a, a)
				// lists of equal descriptors
				for _, p := range descProtos() {
					var ds []Desc
					for i := 0; i < n; i++ {
						if at(i) == v {
							ds = append(ds, p.mk())
						} else {
							ds = append(ds, &DAvail{5})
						}
					}
					if v == 5 {
						put(fmt.Sprintf("%d %s odd %d", n, p.name, odd), &CTime{p64(v)}, ds...)
					}
				}
				// lists of equal UPIDs
				for _, u := range upidSamples() {
					g := segBase()
					for i := 0; i < n; i++ {
						w := UPID{u.Type, cp(u.Raw)}
						if at(i) != v {
							w.Raw[0] ^= 1
						}
						g.UPIDs = append(g.UPIDs, w)
					}
					if v == 5 {
						put(fmt.Sprintf("%d UPIDs %#x odd %d", n, u.Type, odd), &CTime{p64(v)}, g)
					}
				}
			}
		}
	}
	// one value in every field
	for v := uint64(0); v < 256; v++ {
		w := uint32(v)
		one := func(f uint64) uint64 { return v & f }
		brk := &Brk{w&1 == 1, v}
		g := func() *DSeg {
			return &DSeg{ID: w, Compl: true, Restr: &Restr{Device: w & 3}, Comps: []GComp{{w, v}, {w, v}}, Dur: p64(v), TypeID: 0x34, Num: w, Expected: w, SubNum: p32(w), SubExpec: p32(w)}
		}
		h := g()
		h.TypeID, h.SubNum, h.SubExpec, h.UPIDs = w, nil, nil, []UPID{{0x09, []byte{byte(v)}}, {0x0F, []byte{byte(v)}}}
		ds := []Desc{&DAvail{w}, g(), h, &DTime{v, w, w}, &DAudio{[]AudioCh{{w, "aaa", uint32(one(7)), uint32(one(15)), true}, {w, "aaa", uint32(one(7)), uint32(one(15)), true}}}, &DPriv{w, w, []byte{byte(v)}}, &DDTMF{w, "11"}}
		ev := SEvent{ID: w, Compl: true, Prog: p32(w), Break: brk, UniqueID: w, Avail: w, Expects: w}
		ec := SEvent{ID: w, Compl: true, Comps: []SComp{{w, w}, {w, w}}, Break: brk, UniqueID: w, Avail: w, Expects: w}
		for i, c := range []Cmd{&CTime{p64(v)}, &CInsert{ID: w, Prog: &ProgT{p64(v)}, Break: brk, UniqueID: w, Avail: w, Expects: w},
			&CInsert{ID: w, Comps: []IComp{{w, true, p64(v)}, {w, true, p64(v)}}, Break: brk, UniqueID: w, Avail: w, Expects: w},
			&CSched{[]SEvent{ev, ev, ec, ec}}, &CPriv{Ident: w, Bytes: []byte{byte(v)}}} {
			m := hdr(c, ds...)
			m.PTSAdj, m.Tier, m.CW, m.Proto = v, w, w, 0
			if ok && representable(m) {
				ok = y(Case{fmt.Sprintf("alike: %d everywhere, command %d", v, i), m})
			}
		}
	}
	return ok
}

// leaves are the settable values without parts reachable from v, in order.
func leaves(v reflect.Value) []reflect.Value {
	var l []reflect.Value
	everyPart(v, func(x reflect.Value) {
		switch x.Kind() {
		case reflect.String, reflect.Bool, reflect.Uint8, reflect.Uint32, reflect.Uint64:
			l = append(l, x)
		case reflect.Struct:
			if x.Type() == timeType {
				l = append(l, x)
			}
		}
	})
	return l
}

// checkLeaves: every value of a section is held in a place of its own.
func checkLeaves(k *K, cs Case) {
	m := cs.M.onWire()
	b := enc(m)
	k.State(b)
	k.Input("%x", b)
	s := decodeOK(k, b)
	forms := []any{s}
	if jsonable(m) && len(m.Stuff) == 0 {
		forms = append(forms, fromJSON(k, toJSON(k, s)))
	}
	if xmlable(m) && len(m.Stuff) == 0 {
		forms = append(forms, fromXML(k, toXML(k, s, false)))
	}
	for f, x := range forms {
		at := map[uintptr]int{}
		l := leaves(reflect.ValueOf(x))
		for i, v := range l {
			p := v.Addr().Pointer()
			if j, dup := at[p]; dup && l[j].Type() == v.Type() {
				k.Fail("form %d: values %d (%v) and %d (%v) of the section are in the same place", f, j, l[j], i, v)
			}
			at[p] = i
		}
		k.Validated(1)
	}
}
