package main

import (
	"fmt"
	"reflect"
	"strings"

	"terorie.dev/nimiq/beserial"
)

// Named and recursive types, next to the ones made with reflect.StructOf.

type (
	nU8    uint8
	nU16   uint16
	nI32   int32
	nI64   int64
	nBool  bool
	nStr   string
	nBytes []byte
	nArr   [3]nU8
	nU16s  []nU16
)

type recList struct {
	V    int16
	Next *recList `beserial:"optional"`
}

type recTree struct {
	V    nU8
	Kids []recTree `beserial:"len_tag=uint8"`
}

type Inner struct {
	A uint32
	B *uint16 `beserial:"optional"`
}

type embedding struct {
	Inner
	C nStr `beserial:"len_tag=uint16"`
	D *Inner
}

type Narrow struct {
	X nU8
	Y []nU16 `beserial:"len_tag=uint8"`
}

// EmbedMore embeds a pointer, a struct that embeds another one, and something that is no struct.
type EmbedMore struct {
	*Narrow `beserial:"optional"`
	A       int8
	EmbedTwo
	Count
}

type EmbedTwo struct {
	Inner
	*Count
	Z bool
}

type Count uint16

type named struct {
	A nU8
	B nU16
	C nI32
	D nI64
	E nBool
	F nStr   `beserial:"len_tag=uint8"`
	G nBytes `beserial:"len_tag=uint32"`
	H nArr
	I nU16s    `beserial:"len_tag=uint16"`
	J *nBytes  `beserial:"optional,len_tag=uint8"`
	K *string  `beserial:"len_tag=uint16,optional"`
	L *[]int64 `beserial:"len_tag=uint8"`
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(recList{}), reflect.TypeOf(recTree{}), reflect.TypeOf(embedding{}), reflect.TypeOf(named{}),
	reflect.TypeOf(nU8(0)), reflect.TypeOf(nU16(0)), reflect.TypeOf(nI32(0)), reflect.TypeOf(nI64(0)),
	reflect.TypeOf(nBool(false)), reflect.TypeOf(nArr{}),
}

var embeddings = []reflect.Type{reflect.TypeOf(EmbedMore{}), reflect.TypeOf(EmbedTwo{}), reflect.TypeOf(embedding{})}

// Different types of the same name.

func sameName1() reflect.Type {
	type Same struct {
		A uint8
		B *uint16 `beserial:"optional"`
		C []byte  `beserial:"len_tag=uint8"`
	}
	return reflect.TypeOf(struct {
		X Same
		Y []Same `beserial:"len_tag=uint16"`
	}{})
}

func sameName2() reflect.Type {
	type Same struct {
		A uint16
		B *uint16
		C []byte `beserial:"len_tag=uint32"`
		D [2]int8
	}
	return reflect.TypeOf(struct {
		X Same
		Y []Same `beserial:"len_tag=uint16"`
	}{})
}

func sameName3() reflect.Type {
	type Same int16
	return reflect.TypeOf(struct {
		X Same
		Y []Same `beserial:"len_tag=uint16"`
	}{})
}

var sameNames = []reflect.Type{sameName1(), sameName2(), sameName3()}

var numTypes = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(false),
}

// typeGen makes random supported types.
type typeGen struct {
	r       *Rand
	customs bool // allow types with custom encodings
}

// plain returns a type that needs no struct tag.
func (g *typeGen) plain(depth int) reflect.Type {
	r := g.r
	if g.customs && r.P(1, 4) {
		return customTypes[r.N(len(customTypes))]
	}
	if depth <= 0 {
		if r.P(1, 8) {
			return staticTypes[4+r.N(len(staticTypes)-4)]
		}
		return numTypes[r.N(len(numTypes))]
	}
	switch r.N(8) {
	case 0, 1:
		return numTypes[r.N(len(numTypes))]
	case 2:
		return staticTypes[r.N(len(staticTypes))]
	case 3:
		if r.P(1, 3) {
			return reflect.ArrayOf(choose(r, 0, 1, 20, 32), reflect.TypeOf(byte(0)))
		}
		return reflect.ArrayOf(r.N(4), g.plain(depth-1))
	case 4:
		return reflect.PtrTo(g.plain(depth - 1))
	default:
		return g.structure(depth - 1)
	}
}

// structure returns a struct type.
func (g *typeGen) structure(depth int) reflect.Type {
	n := g.r.N(5)
	if g.r.P(1, 2) {
		n++
	}
	fields := make([]reflect.StructField, n)
	for i := range fields {
		fields[i] = g.field(i, depth)
	}
	return reflect.StructOf(fields)
}

var lenTags = []string{"uint8", "uint16", "uint32", "uint64"}

func (g *typeGen) field(i, depth int) reflect.StructField {
	r := g.r
	f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
	var opt, lt string
	switch r.N(6) {
	case 0:
		f.Type = choose(r, reflect.TypeOf(""), reflect.TypeOf(nStr("")))
		lt = choose(r, lenTags...)
	case 1, 2:
		switch r.N(4) {
		case 0:
			f.Type = choose(r, reflect.TypeOf([]byte(nil)), reflect.TypeOf(nBytes(nil)), reflect.TypeOf([]nU8(nil)))
		default:
			elem := g.plain(depth - 1)
			for minSize(elem, refTag{}) == 0 {
				elem = g.plain(depth - 1)
			}
			f.Type = reflect.SliceOf(elem)
		}
		lt = choose(r, lenTags...)
	default:
		f.Type = g.plain(depth - 1)
	}
	if f.Type.Kind() != reflect.Ptr && r.P(1, 4) {
		f.Type = reflect.PtrTo(f.Type)
	}
	if f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() != reflect.Ptr && r.P(2, 3) {
		opt = "optional"
	}
	tag := ""
	switch {
	case opt != "" && lt != "" && r.Bool():
		tag = "optional,len_tag=" + lt
	case opt != "" && lt != "":
		tag = "len_tag=" + lt + ",optional"
	case opt != "":
		tag = opt
	case lt != "":
		tag = "len_tag=" + lt
	}
	if tag != "" {
		f.Tag = reflect.StructTag(fmt.Sprintf("beserial:%q", tag))
		if r.P(1, 4) {
			f.Tag = reflect.StructTag(fmt.Sprintf("json:\"x,omitempty\" beserial:%q other:\"optional\"", tag))
		}
	}
	return f
}

// top returns a type to encode at the top level.
func (g *typeGen) top() reflect.Type {
	if g.r.P(1, 12) {
		return staticTypes[g.r.N(len(staticTypes))]
	}
	if g.r.P(1, 8) {
		return g.plain(g.r.In(1, 3))
	}
	switch g.r.N(60) {
	case 0:
		return g.wide()
	case 1, 2:
		return g.deep()
	case 3:
		return embeddings[g.r.N(len(embeddings))]
	case 4:
		return sameNames[g.r.N(len(sameNames))]
	}
	return g.structure(g.r.In(1, 4))
}

// wide returns a struct of many fields.
func (g *typeGen) wide() reflect.Type {
	fields := make([]reflect.StructField, g.r.In(8, 70))
	for i := range fields {
		fields[i] = g.field(i, 1)
	}
	return reflect.StructOf(fields)
}

// deep returns a type nested far into structs, arrays, slices and pointers.
func (g *typeGen) deep() reflect.Type {
	r := g.r
	t := g.plain(0)
	for n := r.In(5, 40); n > 0; n-- {
		f := reflect.StructField{Name: "F0", Type: t}
		switch r.N(5) {
		case 0:
			if t.Size() < 200 && t.Size() > 0 {
				t = reflect.ArrayOf(1, t)
				continue
			}
		case 1:
			f.Type = reflect.PtrTo(t)
			f.Tag = choose(r, reflect.StructTag(""), "beserial:\"optional\"")
		case 2:
			if minSize(t, refTag{}) > 0 && t.Kind() != reflect.Uint8 {
				f.Type = reflect.SliceOf(t)
				f.Tag = reflect.StructTag(fmt.Sprintf("beserial:\"len_tag=%s\"", choose(r, lenTags...)))
			}
		case 3:
			if r.P(1, 3) {
				t = reflect.PtrTo(t)
				continue
			}
		}
		fields := []reflect.StructField{f}
		if t.Size() < 200 && r.P(1, 3) {
			fields = append(fields, reflect.StructField{Name: "F1", Type: g.plain(0)})
		}
		t = reflect.StructOf(fields)
	}
	return t
}

// minSize is the size of the smallest encoding of a type.
func minSize(t reflect.Type, tag refTag) int {
	if customOf(t) != nil {
		return 1
	}
	switch t.Kind() {
	case reflect.Bool:
		return 1
	case reflect.Ptr:
		if tag.opt {
			return 1
		}
		return minSize(t.Elem(), tag)
	case reflect.Slice, reflect.String:
		return tag.lenBits / 8
	case reflect.Array:
		return t.Len() * minSize(t.Elem(), refTag{})
	case reflect.Struct:
		n := 0
		for i := 0; i < t.NumField(); i++ {
			if t == reflect.TypeOf(recList{}) || t == reflect.TypeOf(recTree{}) {
				return 2
			}
			n += minSize(t.Field(i).Type, parseRefTag(t.Field(i)))
		}
		return n
	}
	bits, _ := intBits(t.Kind())
	return bits / 8
}

// maxElem is the size in memory of the largest element of any slice within the type.
func maxElem(t reflect.Type, seen map[reflect.Type]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := 0
	switch t.Kind() {
	case reflect.Ptr:
		m = max(int(t.Elem().Size()), maxElem(t.Elem(), seen))
	case reflect.Array:
		m = maxElem(t.Elem(), seen)
	case reflect.Slice:
		m = max(int(t.Elem().Size()), maxElem(t.Elem(), seen))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			m = max(m, maxElem(t.Field(i).Type, seen))
		}
	}
	return m
}

// fill sets v to a random encodable value.
func fill(r *Rand, v reflect.Value, tag refTag, budget *int) {
	*budget--
	if c := customOf(v.Type()); c != nil {
		v.Set(reflect.ValueOf(c.gen(r)))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Ptr:
		if tag.opt && (r.P(1, 3) || *budget < 0) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.Type() == reflect.TypeOf((*recList)(nil)) && *budget > 400 && r.P(1, 20) {
			// A chain as long as it gets.
			for n := r.In(10, 300); n > 0; n-- {
				v.Set(reflect.ValueOf(&recList{V: int16(r.U(16)), Next: v.Interface().(*recList)}))
			}
			*budget -= 300
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(r, p.Elem(), tag, budget)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), parseRefTag(v.Type().Field(i)), budget)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), refTag{}, budget)
		}
	case reflect.String:
		v.SetString(string(r.Bytes(blobLen(r, tag, *budget))))
	case reflect.Slice:
		et := v.Type().Elem()
		if et.Kind() == reflect.Uint8 && customOf(et) == nil {
			l := blobLen(r, tag, *budget)
			s := reflect.MakeSlice(v.Type(), l, l)
			for i, c := range r.Bytes(l) {
				s.Index(i).SetUint(uint64(c))
			}
			v.Set(s)
			return
		}
		l := 0
		switch r.N(6) {
		case 0:
		case 1:
			l = 1
		case 2:
			if *budget > 400 && et.Kind() != reflect.Struct {
				l = choose(r, 254, 255)
				if tag.lenBits > 8 {
					l = choose(r, 255, 256, 257)
				}
			}
		case 3:
			limit := 255
			if tag.lenBits > 8 {
				limit = 600
			}
			l = r.Len(min(limit, max(0, *budget/2)), 2)
		default:
			l = r.N(5)
		}
		if *budget <= 0 {
			l = 0
		}
		if l == 0 && r.Bool() {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		s := reflect.MakeSlice(v.Type(), l, l)
		for i := 0; i < l; i++ {
			fill(r, s.Index(i), refTag{}, budget)
		}
		v.Set(s)
	default:
		bits, signed := intBits(v.Kind())
		u := r.U(bits)
		if signed {
			v.SetInt(int64(u<<(64-bits)) >> (64 - bits))
		} else {
			v.SetUint(u)
		}
	}
}

func blobLen(r *Rand, tag refTag, budget int) int {
	if budget <= 0 {
		return 0
	}
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return r.In(250, 255)
	case 2:
		if tag.lenBits > 8 {
			return r.In(255, 258)
		}
	case 3:
		if tag.lenBits > 8 && r.P(1, 12) {
			return choose(r, 65534, 65535)
		}
	case 4:
		if tag.lenBits > 16 && r.P(1, 12) {
			return choose(r, 65535, 65536, 65537, 70000)
		}
	case 5:
		limit := 2000
		if tag.lenBits == 8 {
			limit = 255
		}
		return r.Len(min(limit, budget), 1)
	}
	return r.N(12)
}

// Long lists: sizes at which counters and buffers of common widths overflow.
var longSizes = []int{127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131073}

var longElems = []reflect.Type{
	reflect.TypeOf(byte(0)), reflect.TypeOf(nU8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(false), reflect.TypeOf([2]byte{}), reflect.TypeOf([3]int16{}), reflect.TypeOf((*uint16)(nil)),
	reflect.TypeOf(Inner{}), reflect.TypeOf(struct {
		S []byte `beserial:"len_tag=uint8"`
	}{}), reflect.TypeOf(cuByte(0)), reflect.TypeOf(cuNum(0)), reflect.TypeOf(cuStr("")), reflect.TypeOf(struct{ C cuVal }{}),
}

// longValue makes a pointer to a value with a long list in it, next to other items.
func longValue(r *Rand) (v reflect.Value, size int) {
	lt := choose(r, lenTags...)
	bits := refTag{lenBits: map[string]int{"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[lt]}
	for {
		size = longSizes[r.N(len(longSizes))]
		if r.P(1, 6) {
			size = r.Len(131073, size)
		}
		if bits.lenBits > 16 || size < 1<<bits.lenBits {
			break
		}
	}
	elem := longElems[r.N(len(longElems))]
	var typ reflect.Type
	tag := "len_tag=" + lt
	switch r.N(6) {
	case 0:
		typ = choose(r, reflect.TypeOf(""), reflect.TypeOf(nStr("")))
	case 1:
		if size <= 4096 { // arrays make for as many types as lengths
			typ, tag = reflect.ArrayOf(size, elem), ""
			break
		}
		fallthrough
	default:
		typ = reflect.SliceOf(elem)
	}
	if r.P(1, 4) {
		typ = reflect.PtrTo(typ)
		if r.Bool() {
			tag = strings.TrimSuffix("optional,"+tag, ",")
		}
	}
	structTag := reflect.StructTag("")
	if tag != "" {
		structTag = reflect.StructTag(fmt.Sprintf("beserial:%q", tag))
	}
	g := typeGen{r: r}
	outer := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: g.plain(1)}, {Name: "L", Type: typ, Tag: structTag}, {Name: "B", Type: g.plain(1)},
	})
	v = reflect.New(outer)
	budget := 20
	fill(r, v.Elem().Field(0), refTag{}, &budget)
	fill(r, v.Elem().Field(2), refTag{}, &budget)
	list := v.Elem().Field(1)
	if list.Kind() == reflect.Ptr {
		list.Set(reflect.New(list.Type().Elem()))
		list = list.Elem()
	}
	switch list.Kind() {
	case reflect.String:
		list.SetString(string(r.Bytes(size)))
		return v, size
	case reflect.Slice:
		list.Set(reflect.MakeSlice(list.Type(), size, size))
	}
	for i := 0; i < size; i++ {
		budget := 3
		fill(r, list.Index(i), refTag{}, &budget)
	}
	return v, size
}

// unlucky makes calls that fail half-way, of which later calls must not notice.
func unlucky(r *Rand) {
	typ := (&typeGen{r: r, customs: r.Bool()}).structure(2)
	v := newValue(r, typ)
	enc, err := beserial.Marshal(nil, v.Interface())
	switch {
	case err == nil && len(enc) > 0 && r.Bool():
		_, _ = beserial.Unmarshal(enc[:r.N(len(enc))], reflect.New(typ).Interface())
	case r.Bool():
		_, _ = beserial.Marshal(nil, &struct {
			A []uint16 `beserial:"len_tag=uint8"`
			X interface{}
			B *uint32
		}{A: []uint16{1, 2, 3}, X: v.Interface()})
	default:
		_, _ = beserial.Marshal(r.Bytes(3), &struct {
			A [4]uint32
			B *uint32
			C string `beserial:"len_tag=uint8"`
		}{B: (*uint32)(nil), C: string(make([]byte, 256))})
		_, _ = beserial.Size(&struct {
			A uint8
			B *uint32
		}{})
	}
}

// value makes a pointer to a random value of the type.
func newValue(r *Rand, typ reflect.Type) reflect.Value {
	p := reflect.New(typ)
	budget := 1500
	fill(r, p.Elem(), refTag{}, &budget)
	return p
}

func typeName(t reflect.Type) string { return trim(t.String(), 600) }

// leaves lists the scalars a value is made of, in order. Nothing is replaced, so setting one
// changes the object in place. Fields that skip names are left out.
func leaves(v reflect.Value, skip func(name string) bool, max int) (out []reflect.Value) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if len(out) >= max {
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() && (v.Kind() == reflect.Ptr || v.Elem().Kind() == reflect.Ptr) {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if skip == nil || !skip(v.Type().Field(i).Name) {
					walk(v.Field(i))
				}
			}
		case reflect.Array, reflect.Slice:
			n := v.Len()
			if n > 0 && (v.Index(0).CanUint() || v.Index(0).CanInt()) && v.Index(0).CanSet() {
				out = append(out, v) // as a whole, else bytes dominate
				return
			}
			for i := 0; i < n; i++ {
				walk(v.Index(i))
			}
		case reflect.Bool, reflect.String:
			if v.CanSet() {
				out = append(out, v)
			}
		default:
			if (v.CanInt() || v.CanUint()) && v.CanSet() {
				out = append(out, v)
			}
		}
	}
	walk(v)
	return out
}

// twist changes one bit of one scalar of v in place. The function returned takes it back.
func twist(r *Rand, v reflect.Value, skip func(name string) bool) (undo func(), ok bool) {
	all := leaves(v, skip, 4000)
	if len(all) == 0 {
		return nil, false
	}
	l := all[r.N(len(all))]
	if l.Kind() == reflect.Array || l.Kind() == reflect.Slice {
		l = l.Index(r.N(l.Len()))
	}
	old := reflect.New(l.Type()).Elem()
	old.Set(l)
	switch {
	case l.Kind() == reflect.Bool:
		l.SetBool(!l.Bool())
	case l.Kind() == reflect.String:
		b := []byte(l.String())
		if len(b) == 0 {
			return nil, false
		}
		b[r.N(len(b))] ^= 1 << r.N(7)
		l.SetString(string(b))
	case l.CanInt():
		l.SetInt(l.Int() ^ 1<<r.N(l.Type().Bits()))
	default:
		l.SetUint(l.Uint() ^ 1<<r.N(l.Type().Bits()))
	}
	return func() { l.Set(old) }, true
}
