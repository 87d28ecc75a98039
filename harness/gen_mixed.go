package main

import "fmt"

// mixtures explores interactions the other families leave out: long descriptor
// lists of every kind at every position, several segmentation descriptors
// side by side, long MID() lists of every UPID kind, every section length,
// and encryption against stuffing against descriptors.
func mixtures(level int, yield yieldFn) bool {
	ok := true
	y := func(name string, s *Sec) bool {
		if ok && representable(s) {
			ok = yield(Case{name, s})
		}
		return ok
	}
	cs, ds := cmdProtos(), descProtos()

	// A list of n descriptors starting with kind `off` and walking through
	// the kinds with a stride: every kind meets every position.
	max, strides := 16, []int{1, 5}
	if level == 0 {
		max = 9
	}
	if level >= 2 {
		max, strides = 40, []int{1, 2, 3, 5, 7, 11}
	}
	for n := 3; n <= max; n++ {
		for _, st := range strides {
			for off := range ds {
				s := hdr(cs[(off*7+n)%len(cs)].mk())
				for i := 0; i < n; i++ {
					s.Desc = append(s.Desc, ds[(off+i*st)%len(ds)].mk())
				}
				if !y(fmt.Sprintf("mixed descriptors n=%d stride=%d offset=%d", n, st, off), s) {
					return false
				}
			}
		}
	}
	// n equal descriptors of each kind, the odd one out at every position.
	lens := []int{4, 9, 13}
	if level >= 2 {
		lens = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 20, 31, 33}
	}
	for _, n := range lens {
		for k := range ds {
			for pos := 0; pos < n; pos++ {
				s := hdr(&CTime{p64(uint64(pos))})
				for i := 0; i < n; i++ {
					d := &DAvail{uint32(i)}
					if i == pos {
						s.Desc = append(s.Desc, ds[k].mk())
					} else {
						s.Desc = append(s.Desc, d)
					}
				}
				if !y(fmt.Sprintf("odd %s at %d of %d", ds[k].name, pos, n), s) {
					return false
				}
			}
			s := hdr(&CTime{})
			for i := 0; i < n; i++ {
				s.Desc = append(s.Desc, ds[k].mk())
			}
			if !y(fmt.Sprintf("%d times %s", n, ds[k].name), s) {
				return false
			}
		}
	}

	// Several segmentation descriptors.
	vs := segVariants()
	for _, c := range []Cmd{&CTime{p64(0x072BD0050)}, &CNull{}} {
		for i := range vs {
			for j := range vs {
				if !y("two segmentation descriptors", hdr(c, vs[i](), vs[j]())) {
					return false
				}
				if level > 0 {
					if !y("two segmentation descriptors and another", hdr(c, vs[i](), &DAvail{1}, vs[j]())) {
						return false
					}
					for k := range vs {
						if level < 2 && (i+2*j+3*k)%4 != 0 {
							continue
						}
						if !y("three segmentation descriptors", hdr(c, vs[i](), vs[j](), vs[k]())) {
							return false
						}
					}
				}
			}
		}
	}
	for n := 4; n <= 12; n++ {
		for off := range vs {
			s := hdr(&CTime{p64(9)})
			for i := 0; i < n; i++ {
				s.Desc = append(s.Desc, vs[(off+i)%len(vs)]())
			}
			if !y(fmt.Sprintf("%d segmentation descriptors", n), s) {
				return false
			}
		}
	}

	// MID() lists of every kind at every position, alone and in a pair.
	us := append(upidSamples(),
		UPID{0x09, []byte(" leading")}, UPID{0x0F, []byte("trailing ")}, UPID{0x0E, []byte("in ner")},
		UPID{0x0C, []byte{'A', 'B', 'C', 'D', 0xFF, 0xFE}}, UPID{0x0B, []byte{0, 1}}, UPID{0x06, []byte{0xFF}})
	for n := 2; n <= 20; n++ {
		for off := range us {
			for _, st := range []int{1, 7} {
				g := segBase()
				total := 0
				for i := 0; i < n; i++ {
					u := us[(off+i*st)%len(us)]
					if total += 2 + len(u.Raw); total > 200 {
						break
					}
					g.UPIDs = append(g.UPIDs, u)
				}
				if len(g.UPIDs) < 2 {
					continue
				}
				if !y(fmt.Sprintf("MID() of %d from %d by %d", n, off, st), hdr(&CTime{}, g)) {
					return false
				}
			}
		}
	}

	// Encryption, stuffing, several descriptors, every command.
	for ci := range cs {
		for _, alg := range []uint32{0, 1, 2, 3, 32, 63} {
			for _, n := range []int{0, 1, 4, 5, 8, 13} {
				if level == 0 && n > 4 {
					continue
				}
				s := hdr(cs[ci].mk(), ds[ci%len(ds)].mk(), &DPriv{7, 0x54455354, pat(n)}, ds[(ci*3+n)%len(ds)].mk())
				s.EncAlg, s.CW, s.Stuff = alg, uint32(n), pat(n)
				if !y(fmt.Sprintf("encryption alg=%d stuffing=%d %s", alg, n, cs[ci].name), s) {
					return false
				}
			}
		}
	}
	return ok
}

// segVariants are segmentation descriptors that differ in one respect each.
// They share an event id unless the variant is about the id.
func segVariants() []func() *DSeg {
	v := func(f func(*DSeg)) func() *DSeg {
		return func() *DSeg { g := segBase(); f(g); return g }
	}
	return []func() *DSeg{
		v(func(g *DSeg) {}),
		v(func(g *DSeg) { g.ID++ }),
		v(func(g *DSeg) { *g = DSeg{ID: g.ID, Cancel: true, Compl: true} }),
		v(func(g *DSeg) { g.Dur = p64(0) }),
		v(func(g *DSeg) { g.Dur = p64(2700000) }),
		v(func(g *DSeg) { g.Dur = p64(0xFFFFFFFFFF); g.TypeID = 0 }),
		v(func(g *DSeg) { g.Dur = p64(90000); g.TypeID = 0x30; g.SubNum, g.SubExpec = p32(1), p32(2) }),
		v(func(g *DSeg) { g.Dur = p64(1); g.TypeID = 0x10; g.Num, g.Expected = 0, 0 }),
		v(func(g *DSeg) { g.TypeID = 0; g.Num, g.Expected = 0, 0 }),
		v(func(g *DSeg) { g.TypeID = 0x35; g.Num, g.Expected = 1, 1 }),
		v(func(g *DSeg) { g.Restr = &Restr{Device: 1}; g.Dur = p64(45000) }),
		v(func(g *DSeg) { g.Comps = []GComp{{1, 2}, {3, 0x1FFFFFFFF}} }),
		v(func(g *DSeg) { g.UPIDs = []UPID{{0x09, []byte("SIGNAL:abc")}} }),
		v(func(g *DSeg) { g.UPIDs = []UPID{{0x09, []byte("A")}, {0x0E, []byte("B")}}; g.Dur = p64(2700000) }),
	}
}
