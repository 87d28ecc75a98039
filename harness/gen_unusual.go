package main

import (
	"bytes"
	"reflect"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// Sections a caller can build that differ from a decoded one only in how Go
// holds the same content: empty lists instead of nil ones, instants expressed
// in other zones and with a fraction of a second, stale type codes.

type variant struct {
	name  string
	do    func(reflect.Value)
	whole bool // the documents are the same too
}

var variants = []variant{
	{"empty lists instead of nil", func(v reflect.Value) {
		if v.Kind() == reflect.Slice && v.IsNil() {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
	}, true},
	{"empty lists with capacity", func(v reflect.Value) {
		if v.Kind() == reflect.Slice && v.Len() == 0 {
			v.Set(reflect.MakeSlice(v.Type(), 0, 3))
		}
	}, true},
	{"instants in the east with a fraction", func(v reflect.Value) {
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			v.Set(reflect.ValueOf(t.Add(123456789).In(time.FixedZone("east", 5*3600+1800))))
		}
	}, false},
	{"instants in the west", func(v reflect.Value) {
		if v.Type() == timeType {
			v.Set(reflect.ValueOf(v.Interface().(time.Time).In(time.FixedZone("", -11*3600))))
		}
	}, true},
	{"instants in a zone with seconds", func(v reflect.Value) {
		if v.Type() == timeType {
			v.Set(reflect.ValueOf(v.Interface().(time.Time).In(time.FixedZone("", 5*3600+53*60+28))))
		}
	}, true},
	{sharedPointers, func(v reflect.Value) {}, true},
	{"spare capacity full of rubbish", func(v reflect.Value) {
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			n := v.Len()
			x := reflect.MakeSlice(v.Type(), n+3, n+3)
			reflect.Copy(x, v)
			for i := n; i < n+3; i++ {
				x.Index(i).Set(v.Index(n - 1))
			}
			v.Set(x.Slice(0, n))
		}
	}, true},
	{"UPIDs without formats", func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(scte35.SegmentationUPID{}) {
			v.FieldByName("Format").SetString("")
		}
	}, false},
	{"format identifiers on every UPID", func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(scte35.SegmentationUPID{}) && v.FieldByName("FormatIdentifier").IsNil() {
			x := uint32(0x41424344)
			v.FieldByName("FormatIdentifier").Set(reflect.ValueOf(&x))
		}
	}, false},
	{"stale type codes", func(v reflect.Value) {
		if v.Kind() == reflect.Struct {
			if f := v.FieldByName("JSONType"); f.IsValid() {
				f.SetUint(f.Uint() + 3)
			}
		}
	}, true},
}

// everyPart calls do for every settable exported value reachable from v.
func everyPart(v reflect.Value, do func(reflect.Value)) {
	if v.CanSet() {
		do(v)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			everyPart(v.Elem(), do)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				everyPart(v.Field(i), do)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			everyPart(v.Index(i), do)
		}
	}
}

type varCase struct {
	Case
	v variant
}

func (x varCase) String() string { return x.Name + " with " + x.v.name }

func (x varCase) build() *scte35.SpliceInfoSection {
	s := lib(x.M)
	if x.v.name == sharedPointers {
		share(s)
	}
	everyPart(reflect.ValueOf(s), x.v.do)
	return s
}

const sharedPointers = "shared pointers"

// share makes equal values held by pointers one value.
func share(s *scte35.SpliceInfoSection) {
	seen := map[string]reflect.Value{}
	everyPart(reflect.ValueOf(s), func(v reflect.Value) {
		if (v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface) || v.IsNil() {
			return
		}
		key := v.Type().String() + dump(v.Interface())
		if w, ok := seen[key]; ok {
			v.Set(w)
			return
		}
		w := reflect.New(v.Type()).Elem()
		w.Set(v)
		seen[key] = w
	})
}

// variantCases yields the variants of the sections of a family that differ
// from the plain section at all.
func variantCases(fam func(yieldFn) bool) func(func(varCase) bool) {
	return func(y func(varCase) bool) {
		fam(func(cs Case) bool {
			if len(cs.M.Stuff) > 0 {
				return true
			}
			for _, v := range variants {
				if !y(varCase{cs, v}) {
					return false
				}
			}
			return true
		})
	}
}

func variantFamily(c *Ctx) func(yieldFn) bool {
	return func(y yieldFn) bool { return shapes(1, y) && alike(y) && mixtures(c.level()-1, y) }
}

func checkVariantEncode(k *K, x varCase) {
	want := enc(x.M)
	k.Input("%s", x)
	k.StateS(x.v.name + string(want))
	got, err := x.build().Encode()
	k.T(1)
	k.Validated(1)
	if err != nil || !bytes.Equal(got, want) {
		k.Fail("%s: encodes as %x (%v), want %x", x, got, err, want)
	}
}

func checkVariantTable(k *K, x varCase) {
	k.Input("%s", x)
	k.StateS(x.v.name + dump(lib(x.M)))
	got, want := x.build().Table("", "\t"), lib(x.M).Table("", "\t")
	k.T(2)
	k.Validated(1)
	if got != want {
		k.Fail("%s: the table differs from that of the same section held otherwise: %s", x, diff(got, want))
	}
}

func checkVariantAccessors(k *K, x varCase) {
	k.Input("%s", x)
	k.StateS(x.v.name + dump(lib(x.M)))
	checkAccessors(k, x.build(), x.M, "built")
}

func checkVariantPure(k *K, x varCase) {
	k.Input("%s", x)
	pureOf(k, x.build, true)
}

func checkVariantJSON(k *K, x varCase) {
	if !jsonable(x.M) {
		return
	}
	k.Input("%s", x)
	k.StateS(x.v.name + dump(lib(x.M)))
	doc := toJSON(k, x.build())
	k.Input("%s\n%s", x, doc)
	v, err := jparse(doc)
	if err != nil {
		k.Fail("not a JSON document: %v", err)
	}
	k.Validated(1)
	if x.v.whole {
		if g, w := jcanon("", v), jcanon("", jdoc(x.M)); g != w {
			k.Fail("the JSON document differs: %s", diff(g, w))
		}
	}
	sameBinary(k, fromJSON(k, doc), x.M, "the section read back")
}

func checkVariantXML(k *K, x varCase) {
	if !xmlable(x.M) {
		return
	}
	k.Input("%s", x)
	k.StateS(x.v.name + dump(lib(x.M)))
	for _, indent := range []bool{false, true} {
		doc := toXML(k, x.build(), indent)
		k.Input("%s\n%s", x, doc)
		v, err := xparse(doc)
		if err != nil {
			k.Fail("not an XML document: %v", err)
		}
		k.Validated(1)
		if x.v.whole {
			if g, w := v.canon(), xdoc(x.M).canon(); g != w {
				k.Fail("the XML document differs: %s", diff(g, w))
			}
		}
		sameBinary(k, fromXML(k, doc), x.M, "the section read back")
	}
}
