package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"terorie.dev/nimiq/beserial"
)

const valuesPerType = 8

// allocated returns the bytes allocated on the heap by fn. Only for serial workloads.
func allocated(fn func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func noteType(t *T, typ reflect.Type, enc []byte) {
	t.Eval()
	if len(enc) > 1 {
		t.Distinct(typ.String(), enc)
	}
	t.Count(fmt.Sprintf("top-level kind %s", typ.Kind()))
	if len(enc) > 255 {
		t.Count("encodings over 255 bytes")
	}
	if len(enc) > 65535 {
		t.Count("encodings over 65535 bytes")
	}
}

func c01(t *T, withCustoms bool) {
	g := &typeGen{r: t.R, customs: withCustoms}
	typ := g.top()
	for i := 0; i < valuesPerType; i++ {
		if t.R.P(1, 8) {
			unlucky(t.R)
			t.Count("failing calls in between")
		}
		v := newValue(t.R, typ)
		enc, err := beserial.Marshal(nil, v.Interface())
		t.Check(err == nil, "Marshal of %s %s failed: %v", typeName(typ), dump(v.Interface()), err)
		noteType(t, typ, enc)
		t.Sample("%s = %s -> %x", typeName(typ), dump(v.Interface()), enc)
		// Exactly these bytes.
		out := reflect.New(typ)
		if len(enc) > 0 || t.R.Bool() {
			err = beserial.UnmarshalFull(enc, out.Interface())
			t.Check(err == nil, "UnmarshalFull(%x) into %s failed: %v", enc, typeName(typ), err)
			t.Check(equal(v.Elem(), out.Elem()), "round trip of %s: %s became %s (%x)", typeName(typ), dump(v.Interface()), dump(out.Interface()), enc)
		}
		// Followed by other data.
		junk := t.R.Bytes(t.R.N(20))
		long := append(append([]byte(nil), enc...), junk...)
		out = reflect.New(typ)
		n, err := beserial.Unmarshal(long, out.Interface())
		t.Check(err == nil && n == len(enc), "Unmarshal of %s encoded in %d bytes, followed by %d: n=%d err=%v", typeName(typ), len(enc), len(junk), n, err)
		t.Check(equal(v.Elem(), out.Elem()), "round trip of %s with trailing data: %s became %s", typeName(typ), dump(v.Interface()), dump(out.Interface()))
		if len(junk) > 0 {
			err = beserial.UnmarshalFull(long, reflect.New(typ).Interface())
			t.Check(err != nil, "UnmarshalFull accepted %d left-over bytes after %s", len(junk), typeName(typ))
		}
		if t.R.P(1, 3) {
			if _, ok := twist(t.R, v.Elem(), nil); !ok {
				continue
			}
			if enc, err = refEncode(nil, v.Elem(), refTag{}); err != nil {
				continue
			}
			if got, err := beserial.Marshal(nil, v.Interface()); err != nil || !bytes.Equal(got, enc) {
				t.Failf("after a change in place, %s %s encodes to %x, %v", typeName(typ), dump(v.Interface()), got, err)
			}
			out = reflect.New(typ)
			n, err = beserial.Unmarshal(enc, out.Interface())
			t.Check(err == nil && n == len(enc) && equal(v.Elem(), out.Elem()), "round trip of %s after a change in place: %s became %s, %v", typeName(typ), dump(v.Interface()), dump(out.Interface()), err)
			t.Count("changed in place")
		}
	}
}

func c02(t *T) {
	g := &typeGen{r: t.R, customs: t.R.P(1, 5)}
	typ := g.top()
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		want, err := refEncode(nil, v.Elem(), refTag{})
		if err != nil {
			t.Inconclusive("reference encoder refused %s", typeName(typ))
		}
		noteType(t, typ, want)
		before := clone(v.Elem())
		if t.R.P(1, 8) {
			unlucky(t.R)
			t.Count("failing calls in between")
		}
		// Append to a prefix with spare capacity. The array behind it ends in a guard zone.
		pre := t.R.Bytes(t.R.N(30))
		if i == 0 && t.R.P(1, 6) { // behind a lot of other data
			pre = t.R.Bytes(t.R.Len(140_000, choose(t.R, 1, t.R.In(1, 140_000))))
			t.Count("long prefixes")
		}
		spare := choose(t.R, 0, 1, 7, len(want), len(want)+5, 2*len(want)+64)
		backing := make([]byte, len(pre)+spare+16)
		copy(backing, pre)
		for j := len(pre); j < len(backing); j++ {
			backing[j] = 0xC3
		}
		buf := backing[: len(pre) : len(pre)+spare]
		if len(pre) == 0 && t.R.Bool() {
			buf = nil
		}
		got, err := beserial.Marshal(buf, v.Interface())
		t.Check(err == nil, "Marshal of %s %s failed: %v", typeName(typ), dump(v.Interface()), err)
		t.Check(bytes.HasPrefix(got, pre) && bytes.Equal(backing[:len(pre)], pre), "Marshal of %s damaged the %d bytes it appends to", typeName(typ), len(pre))
		t.Check(bytes.Equal(got[len(pre):], want), "encoding of %s %s is %x, documented format is %x", typeName(typ), dump(v.Interface()), got[len(pre):], want)
		for j := len(backing) - 16; j < len(backing); j++ {
			t.Check(backing[j] == 0xC3, "Marshal wrote past the capacity of its buffer")
		}
		t.Check(equal(before, v.Elem()), "Marshal modified its argument: %s became %s", dump(before.Interface()), dump(v.Interface()))
		t.Keep("the encoding of "+typeName(typ), got)
		t.Sample("%s = %s -> %x", typeName(typ), dump(v.Interface()), want)
		if t.R.P(1, 3) {
			if _, ok := twist(t.R, v.Elem(), nil); !ok {
				continue
			}
			if want, err = refEncode(nil, v.Elem(), refTag{}); err != nil {
				continue
			}
			got, err = beserial.Marshal(nil, v.Interface())
			t.Check(err == nil && bytes.Equal(got, want), "after a change in place, encoding of %s %s is %x, %v, documented format is %x", typeName(typ), dump(v.Interface()), got, err, want)
			t.Count("changed in place")
		}
	}
}

// Values with long lists go through the same checks as all others.

func c01Long(t *T) {
	v, size := longValue(t.R)
	typ := v.Type().Elem()
	enc, err := beserial.Marshal(nil, v.Interface())
	t.Check(err == nil, "Marshal of %s with %d elements failed: %v", typeName(typ), size, err)
	noteLong(t, typ, enc, size)
	junk := t.R.Bytes(t.R.N(9))
	out := reflect.New(typ)
	n, err := beserial.Unmarshal(append(enc[:len(enc):len(enc)], junk...), out.Interface())
	t.Check(err == nil && n == len(enc), "Unmarshal of %s with %d elements, encoded in %d bytes: n=%d err=%v", typeName(typ), size, len(enc), n, err)
	t.Check(equal(v.Elem(), out.Elem()), "round trip of %s with %d elements: %s", typeName(typ), size, firstDiff(v.Elem(), out.Elem()))
}

func noteLong(t *T, typ reflect.Type, enc []byte, size int) {
	noteType(t, typ, enc)
	t.Count("long lists")
	if size > 65535 {
		t.Count("lists of over 65535 elements")
	}
	t.Sample("%s with %d elements: %d bytes", typeName(typ), size, len(enc))
}

// firstDiff says where two values part.
func firstDiff(a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Ptr:
		if !a.IsNil() && !b.IsNil() {
			return firstDiff(a.Elem(), b.Elem())
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return "." + a.Type().Field(i).Name + firstDiff(a.Field(i), b.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() == b.Len() {
			for i := 0; i < a.Len(); i++ {
				if !equal(a.Index(i), b.Index(i)) {
					return fmt.Sprintf("[%d]", i) + firstDiff(a.Index(i), b.Index(i))
				}
			}
		} else {
			return fmt.Sprintf(" has length %d instead of %d", b.Len(), a.Len())
		}
	}
	return fmt.Sprintf(" is %s instead of %s", trim(dumpValue(b, 0), 300), trim(dumpValue(a, 0), 300))
}

func diffAt(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func c02Long(t *T) {
	v, size := longValue(t.R)
	typ := v.Type().Elem()
	want, err := refEncode(nil, v.Elem(), refTag{})
	if err != nil {
		t.Inconclusive("reference encoder refused %s", typeName(typ))
	}
	before := clone(v.Elem())
	pre := t.R.Bytes(t.R.N(30))
	if t.R.Bool() {
		pre = t.R.Bytes(t.R.Len(140_000, t.R.In(1, 140_000)))
	}
	buf := make([]byte, len(pre), len(pre)+choose(t.R, 0, 1, 1<<16, len(want)))
	copy(buf, pre)
	got, err := beserial.Marshal(buf, v.Interface())
	t.Check(err == nil, "Marshal of %s with %d elements failed: %v", typeName(typ), size, err)
	t.Check(bytes.HasPrefix(got, pre), "Marshal of %s damaged the bytes it appends to", typeName(typ))
	t.Check(bytes.Equal(got[len(pre):], want), "encoding of %s with %d elements has %d bytes, want %d; differs from the documented format at byte %d", typeName(typ), size, len(got)-len(pre), len(want), diffAt(got[len(pre):], want))
	t.Check(equal(before, v.Elem()), "Marshal modified its argument: %s", firstDiff(before, v.Elem()))
	noteLong(t, typ, want, size)
}

func c03Long(t *T) {
	v, size := longValue(t.R)
	n, serr := beserial.Size(v.Interface())
	enc, err := beserial.Marshal(nil, v.Interface())
	t.Check((serr == nil) == (err == nil), "%s with %d elements: Size says %v, Marshal %v", typeName(v.Type()), size, serr, err)
	t.Check(err != nil || n == len(enc), "Size of %s with %d elements is %d, but it encodes to %d bytes", typeName(v.Type()), size, n, len(enc))
	noteLong(t, v.Type().Elem(), enc, size)
}

func c07Long(t *T) {
	v, size := longValue(t.R)
	typ := v.Type().Elem()
	enc, err := refEncode(nil, v.Elem(), refTag{})
	if err != nil {
		t.Inconclusive("reference encoder refused %s", typeName(typ))
	}
	target := reflect.New(typ)
	if t.R.Bool() { // used before, with something longer or shorter
		budget := 600
		fill(t.R, target.Elem(), refTag{}, &budget)
	}
	buf := append([]byte(nil), enc...)
	_, err = beserial.Unmarshal(buf, target.Interface())
	t.Check(err == nil && bytes.Equal(buf, enc), "Unmarshal of %s with %d elements: %v", typeName(typ), size, err)
	for j := range buf {
		buf[j] ^= 0xA5
	}
	t.Check(equal(v.Elem(), target.Elem()), "%s with %d elements after the input was overwritten: %s", typeName(typ), size, firstDiff(v.Elem(), target.Elem()))
	noteLong(t, typ, enc, size)
}

// spoil puts something that cannot be encoded into the value. It returns what it did, or an empty string.
func spoil(r *Rand, v reflect.Value, tag refTag) string {
	// Collect the places.
	var places []place
	var walk func(v reflect.Value, tag refTag, path string, depth int)
	walk = func(v reflect.Value, tag refTag, path string, depth int) {
		if depth > 10 {
			return
		}
		if customOf(v.Type()) != nil {
			if bad, ok := failingCustom(v.Type()); ok {
				places = append(places, place{path + " custom encoding fails", func() { v.Set(bad) }})
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !tag.opt {
				places = append(places, place{path + " nil pointer", func() { v.Set(reflect.Zero(v.Type())) }})
			}
			if !v.IsNil() {
				walk(v.Elem(), tag, path+"*", depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), parseRefTag(v.Type().Field(i)), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Array, reflect.Slice:
			if v.Kind() == reflect.Slice && (tag.lenBits == 8 || tag.lenBits == 16 && v.Type().Elem().Size() <= 8) {
				l := 1<<tag.lenBits + choose(r, 0, 0, 1, 5, 256)
				places = append(places, place{fmt.Sprintf("%s %d elements", path, l), func() {
					s := reflect.MakeSlice(v.Type(), l, l)
					budget := 300
					for i := 0; i < l; i++ {
						fill(r, s.Index(i), refTag{}, &budget)
					}
					v.Set(s)
				}})
			}
			for i := 0; i < v.Len() && i < 8; i++ {
				walk(v.Index(i), refTag{}, fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		case reflect.String:
			if tag.lenBits == 8 || tag.lenBits == 16 {
				l := 1<<tag.lenBits + choose(r, 0, 0, 1, 5, 256)
				places = append(places, place{fmt.Sprintf("%s %d bytes", path, l), func() { v.SetString(strings.Repeat("s", l)) }})
			}
		}
	}
	walk(v, tag, "", 0)
	if len(places) == 0 {
		return ""
	}
	p := places[r.N(len(places))]
	p.do()
	return p.what
}

func c03(t *T) {
	g := &typeGen{r: t.R, customs: t.R.P(1, 2)}
	typ := g.top()
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		what := ""
		if t.R.P(1, 4) {
			what = spoil(t.R, v.Elem(), refTag{})
		}
		sizeVsEncoding(t, v.Interface())
		if what != "" {
			t.Count("unencodable values sized")
		} else if _, ok := twist(t.R, v.Elem(), nil); ok && t.R.P(1, 3) {
			sizeVsEncoding(t, v.Interface())
		}
	}
}

// sizeVsEncoding compares the announced with the actual size.
func sizeVsEncoding(t *T, v interface{}) {
	n, serr := beserial.Size(v)
	enc, err := beserial.Marshal(nil, v)
	if err != nil {
		t.Check(serr != nil, "Size of %T %s is %d, but Marshal refuses it: %v", v, dump(v), n, err)
		t.Eval()
		t.Count("refused by both")
		return
	}
	t.Check(serr == nil, "Size of %T %s failed: %v, but it encodes to %d bytes", v, dump(v), serr, len(enc))
	t.Check(n == len(enc), "Size of %T %s is %d, but it encodes to %d bytes %x", v, dump(v), n, len(enc), enc)
	noteType(t, reflect.TypeOf(v).Elem(), enc)
	t.Sample("%T %s: %d bytes", v, dump(v), n)
}

// hostile makes an input for decoding into a value of the type.
func hostile(r *Rand, typ reflect.Type, valid []byte) []byte {
	switch r.N(10) {
	case 0:
		return r.Bytes(r.N(80))
	case 1: // truncated
		return valid[:r.N(len(valid)+1)]
	case 2: // small numbers, so that counts and flags are plausible
		b := r.Bytes(r.N(60))
		for i := range b {
			b[i] %= 3
		}
		return b
	case 3: // counts of all sizes
		return append(bePut(nil, r.U(64), choose(r, 8, 16, 32, 64)), r.Bytes(r.N(40))...)
	case 4:
		return append(append([]byte(nil), valid...), r.Bytes(r.N(8))...)
	default:
		return r.mutate(valid)
	}
}

func c04(t *T, serial bool) {
	g := &typeGen{r: t.R, customs: t.R.P(1, 5)}
	typ := g.top()
	me := maxElem(typ, map[reflect.Type]bool{})
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		valid, err := refEncode(nil, v.Elem(), refTag{})
		if err != nil {
			t.Inconclusive("reference encoder refused %s", typeName(typ))
		}
		in := hostile(t.R, typ, shortened(valid))
		c04One(t, typ, in, me, serial)
	}
	// Every proper prefix.
	if !serial && t.Idx%8 == 0 {
		v := newValue(t.R, typ)
		valid, _ := refEncode(nil, v.Elem(), refTag{})
		if len(valid) < 200 {
			for l := 0; l < len(valid); l++ {
				n, err := beserial.Unmarshal(valid[:l:l], reflect.New(typ).Interface())
				t.Check(err != nil, "the first %d of %d bytes of the encoding %x of %s are accepted, n=%d", l, len(valid), valid, typeName(typ), n)
				t.Eval()
				t.Count("proper prefixes refused")
			}
		}
	}
}

// shortened truncates long encodings before they get damaged. Errors quote the path to the failing item,
// so types that contain themselves may need memory in the order of the square of the input.
func shortened(enc []byte) []byte { return enc[:min(len(enc), 3000)] }

func c04One(t *T, typ reflect.Type, in []byte, maxElem int, serial bool) {
	t.Logf("decode %x into %s", in, typeName(typ))
	keep := append([]byte(nil), in...)
	want := reflect.New(typ)
	wantN, wantOK := refDecode(in, want.Elem(), refTag{})
	out := reflect.New(typ)
	n, err := beserial.Unmarshal(in, out.Interface())
	t.Eval()
	t.Check(n >= 0 && n <= len(in), "Unmarshal of %x into %s reports n=%d", in, typeName(typ), n)
	if wantOK {
		t.Count("accepted inputs")
		t.Check(err == nil, "Unmarshal of %x into %s failed: %v", in, typeName(typ), err)
		t.Check(n == wantN, "Unmarshal of %x into %s read %d bytes, not %d", in, typeName(typ), n, wantN)
		t.Check(equal(want.Elem(), out.Elem()), "Unmarshal of %x into %s: got %s want %s", in, typeName(typ), dump(out.Interface()), dump(want.Interface()))
	} else {
		t.Count("refused inputs")
		t.Check(err != nil, "Unmarshal of %x into %s accepted an invalid encoding: %s", in, typeName(typ), dump(out.Interface()))
	}
	ferr := beserial.UnmarshalFull(in, reflect.New(typ).Interface())
	t.Check((ferr == nil) == (wantOK && wantN == len(in)), "UnmarshalFull of %x into %s: %v (valid: %v, %d of %d bytes)", in, typeName(typ), ferr, wantOK, wantN, len(in))
	t.Check(bytes.Equal(in, keep), "decoding modified the input")
	if len(in) > 1 {
		t.Distinct(typ.String(), in)
	}
	if serial && !recursive(typ, map[reflect.Type]bool{}) {
		target := reflect.New(typ).Interface()
		got := allocated(func() { _, _ = beserial.Unmarshal(in, target) })
		limit := uint64(32<<10) + uint64(len(in))*uint64(2048+8*maxElem)
		t.Check(got <= limit, "decoding %d bytes into %s allocated %d bytes: %x", len(in), typeName(typ), got, in)
		t.Count("allocation measurements")
	}
	t.Sample("%x into %s: ok=%v n=%d", in, typeName(typ), wantOK, wantN)
}

// recursive tells whether a type contains itself.
// Decoding n bytes into such a type may nest n deep, so its cost is not linear.
func recursive(t reflect.Type, path map[reflect.Type]bool) bool {
	if path[t] {
		return true
	}
	path[t] = true
	defer delete(path, t)
	switch t.Kind() {
	case reflect.Ptr, reflect.Array, reflect.Slice:
		return recursive(t.Elem(), path)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if recursive(t.Field(i).Type, path) {
				return true
			}
		}
	}
	return false
}

// Types to measure decoding of inflated counts with.
type (
	bigElem struct{ A [64]uint64 }
	fatU8   struct {
		L []bigElem `beserial:"len_tag=uint8"`
	}
	fatU16 struct {
		L []bigElem `beserial:"len_tag=uint16"`
	}
	fatU32 struct {
		L []bigElem `beserial:"len_tag=uint32"`
	}
	fatU64 struct {
		L []bigElem `beserial:"len_tag=uint64"`
	}
	nums16 struct {
		L []uint64 `beserial:"len_tag=uint16"`
	}
	nums32 struct {
		L []uint16 `beserial:"len_tag=uint32"`
	}
	nums64 struct {
		L []int32 `beserial:"len_tag=uint64"`
	}
	ptrs32 struct {
		L []*uint32 `beserial:"len_tag=uint32"`
	}
	bytes16 struct {
		L []byte `beserial:"len_tag=uint16"`
	}
	bytes32 struct {
		L []byte `beserial:"len_tag=uint32"`
	}
	bytes64 struct {
		L []byte `beserial:"len_tag=uint64"`
	}
	str32 struct {
		L string `beserial:"len_tag=uint32"`
	}
	str64 struct {
		L string `beserial:"len_tag=uint64"`
	}
	cust32 struct {
		L []cuRec `beserial:"len_tag=uint32"`
	}
	bools64 struct {
		L []bool `beserial:"len_tag=uint64"`
	}
	nest struct {
		L []bytes32 `beserial:"len_tag=uint16"`
	}
)

var inflatable = []struct {
	typ  reflect.Type
	bits int
}{
	{reflect.TypeOf(fatU8{}), 8}, {reflect.TypeOf(fatU16{}), 16}, {reflect.TypeOf(fatU32{}), 32}, {reflect.TypeOf(fatU64{}), 64},
	{reflect.TypeOf(nums16{}), 16}, {reflect.TypeOf(nums32{}), 32}, {reflect.TypeOf(nums64{}), 64}, {reflect.TypeOf(ptrs32{}), 32},
	{reflect.TypeOf(bytes16{}), 16}, {reflect.TypeOf(bytes32{}), 32}, {reflect.TypeOf(bytes64{}), 64},
	{reflect.TypeOf(str32{}), 32}, {reflect.TypeOf(str64{}), 64}, {reflect.TypeOf(cust32{}), 32}, {reflect.TypeOf(bools64{}), 64},
	{reflect.TypeOf(nest{}), 16},
}

// c04Inflated decodes counts that promise more than there is.
func c04Inflated(t *T) {
	f := inflatable[t.Idx%len(inflatable)]
	have := choose(t.R, 0, 1, 3, 8, 17, 100)
	mask := ^uint64(0) >> (64 - f.bits)
	// From moderate (must not cost a promised megabyte) to impossible.
	count := choose(t.R, uint64(have), uint64(have)+1, 200, 4000, 65535, 1<<20, 1<<26, 1<<31-1, 1<<31, 1<<32-1, 1<<40, 1<<62, 1<<63-1, 1<<63, 1<<63+1, ^uint64(0)-7, ^uint64(0), t.R.Uint64()) & mask
	in := append(bePut(nil, count, f.bits), t.R.Bytes(have)...)
	warm := reflect.New(f.typ).Interface()
	_, _ = beserial.Unmarshal(nil, warm)
	c04One(t, f.typ, in, maxElem(f.typ, map[reflect.Type]bool{}), true)
	t.Count("inflated counts")
}

// Lists of elements without content. Whether they decode is left open, but it must not take forever.
type (
	hollow   struct{}
	hollower struct {
		A [0]uint64
		B hollow
		C [3]hollow
	}
)

var hollowLists = []func() interface{}{
	func() interface{} {
		return new(struct {
			L []hollow `beserial:"len_tag=uint64"`
		})
	},
	func() interface{} {
		return new(struct {
			L [][0]uint16 `beserial:"len_tag=uint64"`
		})
	},
	func() interface{} {
		return new(struct {
			A uint8
			L *[]hollower `beserial:"len_tag=uint64,optional"`
			B uint16
		})
	},
	func() interface{} {
		return new(struct {
			L []hollower `beserial:"len_tag=uint8"`
			M []hollow   `beserial:"len_tag=uint64"`
		})
	},
}

// c04Hollow decodes lists of elements that take no bytes.
func c04Hollow(t *T) {
	kind := t.Idx % len(hollowLists)
	var in []byte
	switch kind {
	case 2:
		in = append(in, byte(t.R.N(256)), 1)
	case 3:
		in = append(in, 0)
	}
	count := choose(t.R, 0, 1, 2, 17, 1<<16, 1<<32-1, 1<<40, 1<<62, 1<<63-1, 1<<63, ^uint64(0)>>t.R.N(3), ^uint64(0))
	in = append(bePut(in, count, 64), t.R.Bytes(choose(t.R, 0, 1, 2, 30))...)
	if t.R.P(1, 4) {
		in = t.R.mutate(in)
	}
	t.Logf("decode %x into hollow list %d", in, kind)
	n, err := beserial.Unmarshal(in, hollowLists[kind]())
	t.Check(n >= 0 && n <= len(in), "Unmarshal of %x reports n=%d", in, n)
	full := beserial.UnmarshalFull(in, hollowLists[kind]())
	t.Check((full == nil) == (err == nil && n == len(in)), "Unmarshal of %x reads %d, %v, UnmarshalFull says %v", in, n, err, full)
	t.Eval()
	t.Distinct("hollow", in)
}

var unsupported = []interface{}{
	new(float32), new(float64), new(complex64), new(int), new(uint), new(uintptr), new(map[string]int),
	new(chan int), new(func()), new(interface{}), new([]byte), new(string), new([]uint16), new([][]byte), new([3]string),
	new([2]float64), new(struct{ F float64 }), new(struct{ S []byte }), new(struct{ S string }),
	new(struct {
		S [][]byte `beserial:"len_tag=uint8"`
	}),
	new(struct {
		S []string `beserial:"len_tag=uint16"`
	}),
	new(struct{ A [2]struct{ X []uint8 } }),
	new(struct{ P *float32 }),
	new(struct {
		P *map[int]int `beserial:"optional"`
	}),
	new(struct{ I interface{} }), new(error), new(struct{ N int }), new([4]uint),
}

// component makes sure an unsupported value has at least one unsupported component to encode.
func component(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 2, 2)
		for i := 0; i < 2; i++ {
			component(s.Index(i))
		}
		v.Set(s)
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		component(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			component(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			component(v.Index(i))
		}
	case reflect.String:
		v.SetString("text")
	}
}

func c05(t *T) {
	g := &typeGen{r: t.R, customs: t.R.P(1, 5)}
	typ := g.top()
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		what := spoil(t.R, v.Elem(), refTag{})
		_, rerr := refEncode(nil, v.Elem(), refTag{})
		pre := t.R.Bytes(t.R.N(10))
		keep := append([]byte(nil), pre...)
		got, err := beserial.Marshal(pre, v.Interface())
		t.Eval()
		t.Check(bytes.Equal(pre, keep), "Marshal damaged the bytes it appends to")
		if rerr != nil {
			t.Check(err != nil, "Marshal of %s with %s gives %x instead of an error", typeName(typ), what, got[min(len(got), len(pre)):min(len(got), 200)])
			t.Distinct(typ.String(), what)
			if c := strings.IndexByte(what, ' '); c >= 0 {
				t.Count("refused: " + strings.TrimRight(strings.TrimLeft(what[c:], " 0123456789"), " "))
			}
			t.Sample("%s with%s -> %v", typeName(typ), what, err)
		} else {
			t.Check(err == nil, "Marshal of %s failed: %v", typeName(typ), err)
			t.Count("nothing to spoil")
		}
	}
}

func c05Args(t *T) {
	r := t.R
	g := &typeGen{r: r, customs: true}
	var args []interface{}
	var what string
	switch t.Idx % 4 {
	case 0:
		what = "non-pointer"
		v := newValue(r, g.top()).Elem()
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		for v.IsValid() && v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.IsValid() {
			args = append(args, v.Interface())
		}
		args = append(args, 0, "x", []byte{1}, [2]byte{}, struct{}{}, cuVal{1}, cuNum(5), map[int]int{}, func() {}, 1.5, true)
	case 1:
		what = "nil pointer"
		args = append(args, reflect.Zero(reflect.PtrTo(g.top())).Interface(), (*int)(nil), (*cuRec)(nil), (*cuVal)(nil), (*recList)(nil), (*[]byte)(nil))
	case 2:
		what = "nil"
		var e error
		args = append(args, nil, e)
	case 3:
		what = "unsupported"
		args = unsupported
	}
	for _, a := range args {
		if what == "unsupported" {
			v := reflect.New(reflect.TypeOf(a).Elem())
			component(v.Elem())
			a = v.Interface()
			t.Distinct(what, reflect.TypeOf(a).String(), r.N(1<<30))
		}
		t.Logf("%s argument %T", what, a)
		for _, f := range []struct {
			name string
			call func() error
		}{
			{"Marshal", func() error { _, err := beserial.Marshal(nil, a); return err }},
			{"Marshal with prefix", func() error { _, err := beserial.Marshal([]byte{1, 2, 3}, a); return err }},
			{"Unmarshal", func() error {
				n, err := beserial.Unmarshal(bytes.Repeat([]byte{1}, 64), a)
				t.Check(n >= 0 && n <= 64, "Unmarshal of %s %T reports n=%d", what, a, n)
				return err
			}},
			{"UnmarshalFull", func() error { return beserial.UnmarshalFull(bytes.Repeat([]byte{1}, 64), a) }},
			{"Unmarshal of nothing", func() error { _, err := beserial.Unmarshal(nil, a); return err }},
			{"Size", func() error { _, err := beserial.Size(a); return err }},
		} {
			var err error
			if p := try(func() { err = f.call() }); p != "" {
				t.Failf("%s of %s %T panics: %s", f.name, what, a, p)
			}
			t.Check(err != nil, "%s of %s %T returns no error", f.name, what, a)
			t.Eval()
			t.Count(f.name + " refused " + what)
		}
	}
	t.Sample("%s: %d arguments", what, len(args))
	t.Distinct(what, t.Idx)
}

// c05Long has one element among many that cannot be encoded.
func c05Long(t *T) {
	r := t.R
	g := &typeGen{r: r, customs: r.P(1, 4)}
	var el reflect.Type
	switch r.N(6) {
	case 0:
		el = reflect.TypeOf((*uint16)(nil))
	case 1:
		el = reflect.TypeOf((*recList)(nil))
	case 2:
		el = reflect.TypeOf([2]*uint8{})
	case 3:
		el = reflect.TypeOf(struct {
			A uint8
			B *[3]uint8
		}{})
	case 4:
		el = reflect.PtrTo(g.structure(1))
	default:
		el = g.structure(2)
	}
	n := choose(r, 8, 16, 33, 64, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1024, 1025, r.In(2, 3000), r.In(2, 300), max(2, r.Len(3000, 20)))
	at := choose(r, n-1, n-1, 0, n/2, n-2, r.N(n), r.N(n), min(n-1, 255), min(n-1, 256), min(n-1, 100), min(n-1, 128))
	var lt reflect.Type
	var tag reflect.StructTag
	if r.P(1, 3) {
		lt = reflect.ArrayOf(n, el)
	} else {
		lt = reflect.SliceOf(el)
		bits := "uint16"
		if n < 256 && r.Bool() {
			bits = "uint8"
		}
		tag = reflect.StructTag(`beserial:"len_tag=` + bits + `"`)
	}
	typ := reflect.StructOf([]reflect.StructField{{Name: "A", Type: g.plain(1)}, {Name: "L", Type: lt, Tag: tag}, {Name: "Z", Type: g.plain(1)}})
	v := reflect.New(typ)
	list := v.Elem().Field(1)
	if list.Kind() == reflect.Slice {
		list.Set(reflect.MakeSlice(lt, n, n))
	}
	pool := make([]reflect.Value, 4)
	for i := range pool {
		pool[i] = reflect.New(el).Elem()
		budget := 20
		fill(r, pool[i], refTag{}, &budget)
	}
	for i := 0; i < n; i++ {
		list.Index(i).Set(pool[r.N(len(pool))])
	}
	for _, f := range []int{0, 2} {
		budget := 20
		fill(r, v.Elem().Field(f), refTag{}, &budget)
	}
	check := func(what string) {
		want, rerr := refEncode(nil, v.Elem(), refTag{})
		got, err := beserial.Marshal(nil, v.Interface())
		size, serr := beserial.Size(v.Interface())
		t.Eval()
		if rerr == nil {
			t.Check(err == nil && bytes.Equal(got, want), "%s %s: Marshal gives %d bytes, %v, want %d", typeName(typ), what, len(got), err, len(want))
			t.Check(serr == nil && size == len(want), "%s %s: Size gives %d, %v, want %d", typeName(typ), what, size, serr, len(want))
			t.Count("long lists as they should be")
			return
		}
		t.Check(err != nil, "Marshal of %s %s gives %d bytes instead of an error", typeName(typ), what, len(got))
		t.Check(serr != nil, "Size of %s %s is %d instead of an error", typeName(typ), what, size)
		t.Check(err.Error() != "" && serr.Error() != "", "errors that say nothing")
		t.Count("refused: one of many")
		t.Distinct(typ.String(), what)
	}
	check(fmt.Sprintf("with %d elements", n))
	e := reflect.New(el).Elem()
	e.Set(clone(list.Index(at)))
	why := spoil(r, e, refTag{})
	list.Index(at).Set(e)
	check(fmt.Sprintf("with element %d of %d spoilt: %s", at, n, why))
	t.Sample("element %d of %d: %s", at, n, why)
}

// c05Unprefixed encodes strings and slices without length prefix, of any length, in all positions.
func c05Unprefixed(t *T) {
	r := t.R
	g := &typeGen{r: r}
	typ := choose(r, reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf([]uint16(nil)), reflect.TypeOf(nStr("")), reflect.TypeOf(nBytes(nil)),
		reflect.TypeOf(nU16s(nil)), reflect.TypeOf([]bool(nil)), reflect.TypeOf([][2]byte(nil)), reflect.TypeOf([]recList(nil)), reflect.SliceOf(g.structure(1)))
	v := reflect.New(typ).Elem()
	n := choose(r, 0, 0, 1, 3)
	switch {
	case typ.Kind() == reflect.String:
		v.SetString(strings.Repeat("s", n))
	case n > 0 || r.Bool():
		v.Set(reflect.MakeSlice(typ, n, n))
		for i := 0; i < n; i++ {
			budget := 10
			fill(r, v.Index(i), refTag{}, &budget)
		}
	}
	where := fmt.Sprintf("%s of length %d", typ, n)
	for depth := r.N(4); depth > 0; depth-- {
		outer := reflect.Value{}
		switch r.N(4) {
		case 0: // field among others
			tag := reflect.StructTag("")
			if v.Kind() == reflect.Ptr && r.Bool() {
				tag = `beserial:"optional"`
			}
			side := func(name string) reflect.StructField {
				f := reflect.StructField{Name: name, Type: g.plain(1)}
				if r.P(1, 2) { // with a tag of its own
					f = g.field(0, 1)
					f.Name = name
				}
				return f
			}
			fields := []reflect.StructField{side("A"), {Name: "V", Type: v.Type(), Tag: tag}, side("Z")}
			st := reflect.StructOf(fields)
			outer = reflect.New(st).Elem()
			budget := 10
			fill(r, outer.Field(0), parseRefTag(fields[0]), &budget)
			fill(r, outer.Field(2), parseRefTag(fields[2]), &budget)
			outer.Field(1).Set(v)
			where += " in a field"
		case 1:
			outer = reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
			outer.Index(0).Set(v)
			outer.Index(1).Set(v)
			where += " in an array"
		case 2:
			outer = reflect.New(reflect.PtrTo(v.Type())).Elem()
			outer.Set(reflect.New(v.Type()))
			outer.Elem().Set(v)
			where += " behind a pointer"
		default: // within a slice that has a prefix, its elements have not
			st := reflect.StructOf([]reflect.StructField{{Name: "L", Type: reflect.SliceOf(v.Type()), Tag: reflect.StructTag(`beserial:"len_tag=` + choose(r, lenTags...) + `"`)}})
			outer = reflect.New(st).Elem()
			outer.Field(0).Set(reflect.Append(reflect.Zero(outer.Field(0).Type()), v))
			where += " in a slice"
		}
		v = outer
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	t.Eval()
	t.Logf("%s", where)
	got, err := beserial.Marshal(r.Bytes(r.N(4)), p.Interface())
	t.Check(err != nil, "Marshal of a %s without length prefix gives %x", where, got)
	size, err := beserial.Size(p.Interface())
	t.Check(err != nil, "Size of a %s without length prefix gives %d", where, size)
	t.Count(fmt.Sprintf("length %d", n))
	t.Distinct(where, v.Type().String())
	t.Sample("%s: refused", where)
}

// Types with half a custom encoding.
type (
	mOnlyNum uint16 // custom encoding only
	mOnlyU8  uint8
	mOnlyRec struct{ A, B uint8 }
	uOnlyNum uint16 // custom decoding only
	uOnlyU8  uint8
	uOnlyRec struct{ A, B uint8 }
)

func (m *mOnlyNum) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, 'm', byte(*m), byte(*m>>8)), nil
}
func (m *mOnlyNum) SizeBESerial() (int, error)              { return 3, nil }
func (m mOnlyU8) MarshalBESerial(b []byte) ([]byte, error)  { return append(b, 'm', ^byte(m)), nil }
func (m mOnlyU8) SizeBESerial() (int, error)                { return 2, nil }
func (m mOnlyRec) MarshalBESerial(b []byte) ([]byte, error) { return append(b, m.B), nil }
func (m mOnlyRec) SizeBESerial() (int, error)               { return 1, nil }
func (u *uOnlyNum) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 {
		return 0, errCustom
	}
	*u = uOnlyNum(b[0]) + uOnlyNum(b[1]) + uOnlyNum(b[2])
	return 3, nil
}
func (u *uOnlyU8) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 2 {
		return 0, errCustom
	}
	*u = uOnlyU8(b[0] ^ b[1])
	return 2, nil
}
func (u *uOnlyRec) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 1 {
		return 0, errCustom
	}
	u.A, u.B = b[0]>>4, b[0]&15
	return 1, nil
}

// c06Half uses types that override only one direction; the other one is the default.
func c06Half(t *T) {
	r := t.R
	b := func(n int) []byte { return r.Bytes(n) }
	x, y, z, w := b(1)[0], b(1)[0], b(1)[0], b(1)[0]
	num := func(a, b byte) uint16 { return uint16(a)<<8 | uint16(b) }
	n1, n2 := num(x, y), num(z, w)
	m1, m2 := mOnlyNum(n1), mOnlyNum(n2)
	u1, u2 := uOnlyNum(n1), uOnlyNum(n2)
	type all struct {
		N   mOnlyNum
		NA  [2]mOnlyNum
		NS  []mOnlyNum `beserial:"len_tag=uint8"`
		NP  *mOnlyNum  `beserial:"optional"`
		BA  [3]mOnlyU8
		BS  []mOnlyU8 `beserial:"len_tag=uint16"`
		R   mOnlyRec
		RS  []mOnlyRec `beserial:"len_tag=uint8"`
		U   uOnlyNum
		UA  [2]uOnlyNum
		US  []uOnlyNum `beserial:"len_tag=uint32"`
		UBA [2]uOnlyU8
		UBS []uOnlyU8  `beserial:"len_tag=uint8"`
		UR  []uOnlyRec `beserial:"len_tag=uint8"`
	}
	v := all{
		N: m1, NA: [2]mOnlyNum{m2, m1}, NS: []mOnlyNum{m1, m2, m1}, NP: &m2,
		BA: [3]mOnlyU8{mOnlyU8(x), mOnlyU8(y), mOnlyU8(z)}, BS: []mOnlyU8{mOnlyU8(w), mOnlyU8(x)},
		R: mOnlyRec{x, y}, RS: []mOnlyRec{{z, w}, {y, x}},
		U: u1, UA: [2]uOnlyNum{u2, u1}, US: []uOnlyNum{u1}, UBA: [2]uOnlyU8{uOnlyU8(x), uOnlyU8(w)}, UBS: []uOnlyU8{uOnlyU8(y)}, UR: []uOnlyRec{{x, y}, {z, w}},
	}
	want := []byte{
		'm', y, x, 'm', w, z, 'm', y, x, 3, 'm', y, x, 'm', w, z, 'm', y, x, 1, 'm', w, z,
		'm', ^x, 'm', ^y, 'm', ^z, 0, 2, 'm', ^w, 'm', ^x, y, 2, w, x,
		x, y, z, w, x, y, 0, 0, 0, 1, x, y, x, w, 1, y, 2, x, y, z, w,
	}
	got, err := beserial.Marshal(nil, &v)
	t.Check(err == nil && bytes.Equal(got, want), "types with custom encoding only, or custom decoding only, encode to %x, %v, want %x", got, err, want)
	n, err := beserial.Size(&v)
	t.Check(err == nil && n == len(want), "their size is %d, %v, want %d", n, err, len(want))
	in := []byte{
		x, y, z, w, x, y, 2, x, y, z, w, 1, y, z, // default decoding
		x, y, z, 0, 2, w, x, x, y, 1, z, w,
		x, y, z, y, z, w, z, w, x, 0, 0, 0, 2, x, y, z, w, x, y, // custom decoding
		x, y, z, w, 2, x, z, y, w, 2, x, y,
	}
	sum := func(a, b, c byte) uOnlyNum { return uOnlyNum(a) + uOnlyNum(b) + uOnlyNum(c) }
	np := mOnlyNum(num(y, z))
	wantV := all{
		N: m1, NA: [2]mOnlyNum{m2, m1}, NS: []mOnlyNum{m1, m2}, NP: &np,
		BA: [3]mOnlyU8{mOnlyU8(x), mOnlyU8(y), mOnlyU8(z)}, BS: []mOnlyU8{mOnlyU8(w), mOnlyU8(x)},
		R: mOnlyRec{x, y}, RS: []mOnlyRec{{z, w}},
		U: sum(x, y, z), UA: [2]uOnlyNum{sum(y, z, w), sum(z, w, x)}, US: []uOnlyNum{sum(x, y, z), sum(w, x, y)},
		UBA: [2]uOnlyU8{uOnlyU8(x ^ y), uOnlyU8(z ^ w)}, UBS: []uOnlyU8{uOnlyU8(x ^ z), uOnlyU8(y ^ w)},
		UR: []uOnlyRec{{x >> 4, x & 15}, {y >> 4, y & 15}},
	}
	var out all
	err = beserial.UnmarshalFull(in, &out)
	t.Check(err == nil && same(out, wantV), "decoding %x: got %s, %v, want %s", in, dump(out), err, dump(wantV))
	t.Eval()
	t.Distinct("half", in)
	t.Sample("half custom: %x", want)
}

// c06 checks that custom encodings are used and their errors passed on.
func c06(t *T) {
	g := &typeGen{r: t.R, customs: true}
	typ := g.top()
	for tries := 0; !usesCustom(typ, map[reflect.Type]bool{}) && tries < 200; tries++ {
		typ = g.top()
	}
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		want, err := refEncode(nil, v.Elem(), refTag{})
		if err != nil {
			t.Inconclusive("reference encoder refused %s", typeName(typ))
		}
		noteType(t, typ, want)
		got, err := beserial.Marshal(nil, v.Interface())
		t.Check(err == nil && bytes.Equal(got, want), "Marshal of %s %s: %x, %v, want %x", typeName(typ), dump(v.Interface()), got, err, want)
		n, err := beserial.Size(v.Interface())
		t.Check(err == nil && n == len(want), "Size of %s %s: %d, %v, want %d", typeName(typ), dump(v.Interface()), n, err, len(want))
		out := reflect.New(typ)
		junk := t.R.Bytes(t.R.N(6))
		n, err = beserial.Unmarshal(append(append([]byte(nil), want...), junk...), out.Interface())
		t.Check(err == nil && n == len(want), "Unmarshal of %s from %x: n=%d %v", typeName(typ), want, n, err)
		t.Check(equal(v.Elem(), out.Elem()), "round trip of %s: %s became %s", typeName(typ), dump(v.Interface()), dump(out.Interface()))
		t.Sample("%s = %s -> %x", typeName(typ), dump(v.Interface()), want)
		// Failing encodings.
		what := spoil(t.R, v.Elem(), refTag{})
		if _, rerr := refEncode(nil, v.Elem(), refTag{}); rerr == errCustom {
			_, err := beserial.Marshal(t.R.Bytes(4), v.Interface())
			t.Check(errors.Is(err, errCustom), "Marshal of %s, where %s, returns %v", typeName(typ), what, err)
			_, err = beserial.Size(v.Interface())
			t.Check(errors.Is(err, errCustom), "Size of %s, where %s, returns %v", typeName(typ), what, err)
			t.Count("failing custom encodings")
			t.Eval()
		}
		// Failing decodings: damage the bytes.
		bad := t.R.mutate(shortened(want))
		ref := reflect.New(typ)
		wn, ok := refDecode(bad, ref.Elem(), refTag{})
		out = reflect.New(typ)
		n, err = beserial.Unmarshal(bad, out.Interface())
		t.Check((err == nil) == ok, "Unmarshal of damaged %x into %s: %v", bad, typeName(typ), err)
		if ok {
			t.Check(n == wn && equal(ref.Elem(), out.Elem()), "Unmarshal of %x into %s: got %s want %s", bad, typeName(typ), dump(out.Interface()), dump(ref.Interface()))
		} else {
			t.Count("failing decodings")
		}
		t.Eval()
	}
}

// c06Direct decodes into positions where only the custom code can fail.
func c06Direct(t *T) {
	r := t.R
	ct := customTypes[t.Idx%len(customTypes)]
	c := customOf(ct)
	good := c.gen(r)
	enc, err := c.enc(reflect.ValueOf(good))
	if err != nil {
		t.Inconclusive("custom generator: %v", err)
	}
	var bad []byte
	for i := 0; i < 100 && bad == nil; i++ {
		b := r.Bytes(24 + r.IntN(8))
		if _, _, err := c.dec(b); err != nil {
			bad = b
		}
	}
	pos := []struct {
		name   string
		typ    reflect.Type
		prefix []byte
	}{
		{"top level", ct, nil},
		{"field", structOf(ct, ""), nil},
		{"pointer", structOf(reflect.PtrTo(ct), ""), nil},
		{"pointer to pointer", structOf(reflect.PtrTo(reflect.PtrTo(ct)), ""), nil},
		{"optional", structOf(reflect.PtrTo(ct), `beserial:"optional"`), []byte{1}},
		{"array", reflect.ArrayOf(1, ct), nil},
		{"array of pointers", reflect.ArrayOf(1, reflect.PtrTo(ct)), nil},
		{"slice", structOf(reflect.SliceOf(ct), `beserial:"len_tag=uint8"`), []byte{1}},
		{"slice of pointers", structOf(reflect.SliceOf(reflect.PtrTo(ct)), `beserial:"len_tag=uint16"`), []byte{0, 1}},
		{"pointer to slice", structOf(reflect.PtrTo(reflect.SliceOf(ct)), `beserial:"len_tag=uint8"`), []byte{1}},
		{"pointer to array", structOf(reflect.PtrTo(reflect.ArrayOf(1, ct)), ""), nil},
		{"pointer to struct", structOf(reflect.PtrTo(structOf(ct, "")), ""), nil},
	}
	for _, p := range pos {
		in := append(append([]byte(nil), p.prefix...), enc...)
		out := reflect.New(p.typ)
		n, err := beserial.Unmarshal(append(in[:len(in):len(in)], 0xAB), out.Interface())
		t.Check(err == nil && n == len(in), "%s as %s: Unmarshal(%x) n=%d err=%v", ct, p.name, in, n, err)
		want := reflect.New(p.typ)
		refDecode(in, want.Elem(), refTag{})
		t.Check(equal(want.Elem(), out.Elem()), "%s as %s: got %s want %s", ct, p.name, dump(out.Interface()), dump(want.Interface()))
		re, err := beserial.Marshal(nil, out.Interface())
		t.Check(err == nil && bytes.Equal(re, in), "%s as %s: re-encoded to %x, %v, want %x", ct, p.name, re, err, in)
		sz, err := beserial.Size(out.Interface())
		t.Check(err == nil && sz == len(in), "%s as %s: size %d, %v, want %d", ct, p.name, sz, err, len(in))
		if bad != nil {
			_, err = beserial.Unmarshal(append(append([]byte(nil), p.prefix...), bad...), reflect.New(p.typ).Interface())
			t.Check(errors.Is(err, errCustom), "%s as %s: failing custom decoder, Unmarshal returns %v", ct, p.name, err)
			t.Count("failing custom decoders")
		}
		t.Eval()
		t.Count("position " + p.name)
		t.Distinct(p.name, ct.String(), enc)
	}
	// Absent optional items.
	out := reflect.New(structOf(reflect.PtrTo(ct), `beserial:"optional"`))
	n, err := beserial.Unmarshal([]byte{0, 1, 2}, out.Interface())
	t.Check(err == nil && n == 1 && out.Elem().Field(0).IsNil(), "absent optional %s: n=%d err=%v %s", ct, n, err, dump(out.Interface()))
	re, err := beserial.Marshal(nil, out.Interface())
	t.Check(err == nil && bytes.Equal(re, []byte{0}), "absent optional %s encodes to %x, %v", ct, re, err)
	sz, err := beserial.Size(out.Interface())
	t.Check(err == nil && sz == 1, "absent optional %s has size %d, %v", ct, sz, err)
	for _, flag := range []byte{2, 3, 0x80, 0xff} {
		_, err = beserial.Unmarshal(append([]byte{flag}, enc...), reflect.New(out.Elem().Type()).Interface())
		t.Check(err != nil, "optional %s: flag %d accepted", ct, flag)
	}
	t.Sample("%s %x in %d positions", ct, enc, len(pos))
}

func structOf(t reflect.Type, tag string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "V", Type: t, Tag: reflect.StructTag(tag)}})
}

func usesCustom(t reflect.Type, seen map[reflect.Type]bool) bool {
	if customOf(t) != nil {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Array, reflect.Slice:
		return usesCustom(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if usesCustom(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// c07 overwrites buffers after decoding and reuses targets.
func c07(t *T) {
	g := &typeGen{r: t.R, customs: t.R.P(1, 3)}
	typ := g.top()
	target := reflect.New(typ) // reused throughout
	var buf []byte             // reused, too
	var kept, keptWas reflect.Value
	for i := 0; i < valuesPerType; i++ {
		v := newValue(t.R, typ)
		enc, err := refEncode(nil, v.Elem(), refTag{})
		if err != nil {
			t.Inconclusive("reference encoder refused %s", typeName(typ))
		}
		if t.R.P(1, 3) {
			// A failing decode in between leaves the target dirty.
			_, _ = beserial.Unmarshal(t.R.mutate(shortened(enc)), target.Interface())
			t.Count("dirtied by damaged input")
		}
		if kept.IsValid() {
			t.Check(equal(kept, keptWas), "a failed Unmarshal into %s changed the value kept from before: %s became %s", typeName(typ), dump(keptWas.Interface()), dump(kept.Interface()))
		}
		buf = append(buf[:0], enc...)
		n, err := beserial.Unmarshal(buf, target.Interface())
		t.Check(err == nil && n == len(enc), "Unmarshal of %x into a used %s: n=%d %v", enc, typeName(typ), n, err)
		t.Check(bytes.Equal(buf, enc), "Unmarshal into %s wrote to its input", typeName(typ))
		if kept.IsValid() {
			t.Check(equal(kept, keptWas), "Unmarshal into a used %s changed the value kept from before: %s became %s", typeName(typ), dump(keptWas.Interface()), dump(kept.Interface()))
			t.Count("kept values looked at")
			appendTo(target.Elem())
			t.Check(equal(kept, keptWas), "appending to the lists of a %s decoded into a used target changed the value kept from before: %s became %s", typeName(typ), dump(keptWas.Interface()), dump(kept.Interface()))
			t.Check(bytes.Equal(buf, enc), "appending to the lists of a decoded %s writes to the input it was decoded from", typeName(typ))
		}
		t.Check(equal(v.Elem(), target.Elem()), "Unmarshal of %x into a used %s: got %s want %s", enc, typeName(typ), dump(target.Interface()), dump(v.Interface()))
		for j := range buf {
			buf[j] ^= 0xA5
		}
		t.Check(equal(v.Elem(), target.Elem()), "%s decoded from %x changed when the input was overwritten: %s", typeName(typ), enc, dump(target.Interface()))
		// The other way: changing the value does not write to the input.
		for j := range buf {
			buf[j] ^= 0xA5
		}
		if t.R.Bool() {
			// Keep what was decoded, as callers do who use one variable for many messages.
			kept, keptWas = reflect.New(typ).Elem(), clone(target.Elem())
			kept.Set(target.Elem())
			continue
		}
		kept = reflect.Value{}
		scribble(target.Elem())
		t.Check(bytes.Equal(buf, enc), "modifying a decoded %s writes to the input it was decoded from", typeName(typ))
		noteType(t, typ, enc)
		t.Sample("%s from %x", typeName(typ), enc)
	}
}

// scribble changes everything reachable from a value.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Ptr {
				scribble(v.Elem())
			} else if v.Elem().Kind() == reflect.Ptr {
				scribble(v.Elem())
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString("scribble")
	default:
		if v.CanInt() {
			v.SetInt(^v.Int())
		} else if v.CanUint() {
			v.SetUint(^v.Uint())
		}
	}
}

// appendTo writes where appending to the slices in v would write.
func appendTo(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			appendTo(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			appendTo(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			appendTo(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			appendTo(v.Index(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() > reflect.Complex128; i++ {
			appendTo(v.Index(i))
		}
		if spare := min(v.Cap(), v.Len()+4); spare > v.Len() && v.CanSet() {
			scribble(v.Slice(v.Len(), spare))
		}
	}
}

func init() {
	const rule = "random Go types (reflect.StructOf over all supported kinds, tags, pointers, named and recursive types, custom codecs) with boundary-heavy random values; "
	register(Property{
		ID: "C01", Rule: rule + "each value is encoded, decoded alone and with trailing bytes, and compared; distinct (type, bytes) of at least 2 bytes count as non-trivial",
		Workloads: []Workload{
			{Name: "plain", Quick: 6000, Thorough: 60000, Fn: func(t *T) { c01(t, false) }, Need: []string{"encodings over 255 bytes", "encodings over 65535 bytes"}},
			{Name: "custom", Quick: 1500, Thorough: 20000, Fn: func(t *T) { c01(t, true) }},
			{Name: "long", Quick: 400, Thorough: 6000, Fn: c01Long, Need: []string{"lists of over 65535 elements"}},
		},
	})
	register(Property{
		ID: "C02", Rule: rule + "each value is appended to a guarded prefix buffer and compared byte for byte with an independent encoder; distinct (type, bytes) of at least 2 bytes count as non-trivial",
		Workloads: []Workload{{Name: "layout", Quick: 7000, Thorough: 80000, Fn: c02, Need: []string{"encodings over 255 bytes"}},
			{Name: "long", Quick: 400, Thorough: 6000, Fn: c02Long, Need: []string{"lists of over 65535 elements"}}},
	})
	register(Property{
		ID: "C03", Rule: rule + "a quarter of the values is made unencodable; Size and Marshal are compared, also on wire objects; distinct (type, bytes) of at least 2 bytes count as non-trivial",
		Workloads: []Workload{
			{Name: "generic", Quick: 7000, Thorough: 80000, Fn: c03, Need: []string{"refused by both", "unencodable values sized"}},
			{Name: "wire", Quick: 4000, Thorough: 40000, Fn: c03Wire},
			{Name: "one of many", Quick: 800, Thorough: 10000, Fn: c05Long, Need: []string{"refused: one of many", "long lists as they should be"}},
			longLists(),
			{Name: "long", Quick: 400, Thorough: 6000, Fn: c03Long, Need: []string{"lists of over 65535 elements"}},
		},
	})
	register(Property{
		ID: "C04", Rule: rule + "valid encodings are truncated, mutated, inflated or replaced by random bytes; verdict, consumed count and value are compared with an independent decoder, allocations are measured; distinct (type, input) of at least 2 bytes count as non-trivial",
		Workloads: []Workload{
			{Name: "inflated", Serial: true, Quick: 4000, Thorough: 40000, Fn: c04Inflated, Need: []string{"inflated counts"}},
			{Name: "hollow", Quick: 1000, Thorough: 10000, Fn: c04Hollow},
			{Name: "hostile", Quick: 7000, Thorough: 80000, Fn: func(t *T) { c04(t, false) }, Need: []string{"accepted inputs", "refused inputs", "proper prefixes refused"}},
			{Name: "alloc", Serial: true, Quick: 600, Thorough: 6000, Fn: func(t *T) { c04(t, true) }, Need: []string{"allocation measurements"}},
		},
	})
	register(Property{
		ID: "C05", Rule: rule + "one component is made unencodable at a random position; nil, non-pointer and unsupported arguments are passed to every entry point; distinct (type, defect) count as non-trivial",
		Workloads: []Workload{
			{Name: "spoiled", Quick: 7000, Thorough: 60000, Fn: c05, Need: []string{"refused: nil pointer", "refused: elements", "refused: bytes"}},
			{Name: "args", Quick: 800, Thorough: 8000, Fn: c05Args},
			{Name: "one of many", Quick: 1500, Thorough: 20000, Fn: c05Long, Need: []string{"refused: one of many", "long lists as they should be"}},
			{Name: "unprefixed", Quick: 2000, Thorough: 20000, Fn: c05Unprefixed, Need: []string{"length 0", "length 3"}},
		},
	})
	register(Property{
		ID: "C06", Rule: rule + "types with custom encodings of all kinds in all positions; bytes, sizes, values and errors are compared with an independent codec that knows the custom code; distinct (type, bytes) count as non-trivial",
		Workloads: []Workload{
			{Name: "positions", Quick: 1600, Thorough: 16000, Fn: c06Direct},
			{Name: "half custom", Quick: 200, Thorough: 2000, Fn: c06Half},
			{Name: "shapes", Quick: 5000, Thorough: 50000, Fn: c06, Need: []string{"failing custom encodings", "failing decodings"}},
		},
	})
	register(Property{
		ID: "C07", Rule: rule + "every value is decoded into a reused target from a reused buffer that is then overwritten, and the decoded value is scribbled over; distinct (type, bytes) of at least 2 bytes count as non-trivial",
		Workloads: []Workload{
			{Name: "generic", Quick: 6000, Thorough: 60000, Fn: c07, Need: []string{"dirtied by damaged input"}},
			{Name: "wire", Quick: 4000, Thorough: 40000, Fn: c07Wire},
			{Name: "long", Quick: 400, Thorough: 6000, Fn: c07Long},
		},
	})
}
