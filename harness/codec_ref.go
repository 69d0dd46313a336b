package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
)

// This file is an independent reference implementation of the big-endian encoding,
// written from the package documentation: refEncode and refDecode.

// ---- custom encodings used by the workloads ----

var errCustom = errors.New("verif: custom encoding failed")

// customCodec is the behaviour of a type with its own encoding, as plain functions.
type customCodec struct {
	enc func(v reflect.Value) ([]byte, error)
	dec func(b []byte) (v interface{}, n int, err error) // v is of the custom type
	gen func(r *Rand) interface{}
}

var customs = map[reflect.Type]*customCodec{}

func customOf(t reflect.Type) *customCodec { return customs[t] }

// partial is what failing custom code reports besides the error:
// how far it got, which may be anywhere.
func partial(n int) int { return [4]int{0, 1, n / 2, n}[n%4] % (n + 1) }

// cuRec is a structure with pointer receivers and a non-trivial layout.
type cuRec struct {
	X uint16
	S string
}

func encCuRec(c cuRec) ([]byte, error) {
	if len(c.S) > 200 {
		return nil, errCustom
	}
	b := []byte{0xA5, byte(len(c.S))}
	b = append(b, c.S...)
	return append(b, byte(c.X), byte(c.X>>8)), nil
}

func decCuRec(b []byte) (c cuRec, n int, err error) {
	if len(b) < 2 || b[0] != 0xA5 || b[1] > 200 || len(b) < int(b[1])+4 {
		return c, 0, errCustom
	}
	n = int(b[1])
	c.S = string(b[2 : 2+n])
	c.X = uint16(b[2+n]) | uint16(b[3+n])<<8
	return c, n + 4, nil
}

func (c *cuRec) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuRec(*c)) }
func (c *cuRec) SizeBESerial() (int, error)               { return sizeEnc(encCuRec(*c)) }
func (c *cuRec) UnmarshalBESerial(b []byte) (n int, err error) {
	v, n, err := decCuRec(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuVal marshals with value receivers.
type cuVal struct{ N uint8 }

func encCuVal(c cuVal) ([]byte, error) {
	if c.N > 0xF0 {
		return nil, errCustom
	}
	return append([]byte{c.N}, bytes.Repeat([]byte{0x77}, int(c.N)%5)...), nil
}
func decCuVal(b []byte) (c cuVal, n int, err error) {
	if len(b) < 1 || b[0] > 0xF0 || len(b) < 1+int(b[0])%5 {
		return c, 0, errCustom
	}
	n = 1 + int(b[0])%5
	for _, x := range b[1:n] {
		if x != 0x77 {
			return c, 0, errCustom
		}
	}
	return cuVal{b[0]}, n, nil
}
func (c cuVal) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuVal(c)) }
func (c cuVal) SizeBESerial() (int, error)               { return sizeEnc(encCuVal(c)) }
func (c *cuVal) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuVal(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuByte is a byte with a two byte encoding.
type cuByte uint8

func encCuByte(c cuByte) ([]byte, error) {
	if c == 0xEE {
		return nil, errCustom
	}
	return []byte{byte(c), ^byte(c)}, nil
}
func decCuByte(b []byte) (c cuByte, n int, err error) {
	if len(b) < 2 || b[0] != ^b[1] || b[0] == 0xEE {
		return 0, 0, errCustom
	}
	return cuByte(b[0]), 2, nil
}
func (c *cuByte) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuByte(*c)) }
func (c *cuByte) SizeBESerial() (int, error)               { return sizeEnc(encCuByte(*c)) }
func (c *cuByte) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuByte(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuNum is a variable length integer.
type cuNum uint32

func encCuNum(c cuNum) ([]byte, error) {
	var b []byte
	for c >= 0x80 {
		b = append(b, byte(c)|0x80)
		c >>= 7
	}
	return append(b, byte(c)), nil
}
func decCuNum(b []byte) (c cuNum, n int, err error) {
	var v uint64
	for i := 0; i < 5 && i < len(b); i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			if v > 0xffffffff || (i > 0 && b[i] == 0) {
				return 0, 0, errCustom
			}
			return cuNum(v), i + 1, nil
		}
	}
	return 0, 0, errCustom
}
func (c cuNum) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuNum(c)) }
func (c cuNum) SizeBESerial() (int, error)               { return sizeEnc(encCuNum(c)) }
func (c *cuNum) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuNum(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuStr is a zero-terminated string.
type cuStr string

func encCuStr(c cuStr) ([]byte, error) {
	if strings.IndexByte(string(c), 0) >= 0 {
		return nil, errCustom
	}
	return append([]byte(c), 0), nil
}
func decCuStr(b []byte) (c cuStr, n int, err error) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return "", 0, errCustom
	}
	return cuStr(b[:i]), i + 1, nil
}
func (c *cuStr) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuStr(*c)) }
func (c *cuStr) SizeBESerial() (int, error)               { return sizeEnc(encCuStr(*c)) }
func (c *cuStr) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuStr(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuSlice is a byte slice that brings its own length prefix.
type cuSlice []byte

func encCuSlice(c cuSlice) ([]byte, error) {
	if len(c) > 300 {
		return nil, errCustom
	}
	b := []byte{0, byte(len(c) >> 8), byte(len(c))}
	for i := range c {
		b = append(b, c[len(c)-1-i])
	}
	return b, nil
}
func decCuSlice(b []byte) (c cuSlice, n int, err error) {
	if len(b) < 3 || b[0] != 0 {
		return nil, 0, errCustom
	}
	n = int(b[1])<<8 | int(b[2])
	if n > 300 || len(b) < 3+n {
		return nil, 0, errCustom
	}
	c = make(cuSlice, n)
	for i := range c {
		c[n-1-i] = b[3+i]
	}
	return c, 3 + n, nil
}
func (c *cuSlice) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuSlice(*c)) }
func (c *cuSlice) SizeBESerial() (int, error)               { return sizeEnc(encCuSlice(*c)) }
func (c *cuSlice) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuSlice(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuArr is an array with its own encoding.
type cuArr [4]byte

func encCuArr(c cuArr) ([]byte, error) {
	return []byte{c[0] ^ c[1] ^ c[2] ^ c[3], c[3], c[2], c[1], c[0]}, nil
}
func decCuArr(b []byte) (c cuArr, n int, err error) {
	if len(b) < 5 || b[0] != b[1]^b[2]^b[3]^b[4] {
		return c, 0, errCustom
	}
	return cuArr{b[4], b[3], b[2], b[1]}, 5, nil
}
func (c *cuArr) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuArr(*c)) }
func (c *cuArr) SizeBESerial() (int, error)               { return sizeEnc(encCuArr(*c)) }
func (c *cuArr) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuArr(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

// cuBool is a boolean written as a letter.
type cuBool bool

func encCuBool(c cuBool) ([]byte, error) {
	if c {
		return []byte{'T'}, nil
	}
	return []byte{'F'}, nil
}
func decCuBool(b []byte) (c cuBool, n int, err error) {
	if len(b) < 1 || (b[0] != 'T' && b[0] != 'F') {
		return false, 0, errCustom
	}
	return b[0] == 'T', 1, nil
}
func (c cuBool) MarshalBESerial(b []byte) ([]byte, error) { return appendEnc(b)(encCuBool(c)) }
func (c cuBool) SizeBESerial() (int, error)               { return sizeEnc(encCuBool(c)) }
func (c *cuBool) UnmarshalBESerial(b []byte) (int, error) {
	v, n, err := decCuBool(b)
	if err != nil {
		return partial(len(b)), err
	}
	*c = v
	return n, nil
}

func appendEnc(b []byte) func([]byte, error) ([]byte, error) {
	return func(e []byte, err error) ([]byte, error) {
		if err != nil {
			return append(b, make([]byte, partial(len(b)))...), err
		}
		return append(b, e...), nil
	}
}

func sizeEnc(e []byte, err error) (int, error) {
	if err != nil {
		return 3, err
	}
	return len(e), nil
}

func addCustom[V any](enc func(V) ([]byte, error), dec func([]byte) (V, int, error), gen func(r *Rand) V) reflect.Type {
	var zero V
	typ := reflect.TypeOf(zero)
	customs[typ] = &customCodec{
		enc: func(v reflect.Value) ([]byte, error) { return enc(v.Interface().(V)) },
		dec: func(b []byte) (interface{}, int, error) { v, n, err := dec(b); return v, n, err },
		gen: func(r *Rand) interface{} { return gen(r) },
	}
	customTypes = append(customTypes, typ)
	return typ
}

var customTypes []reflect.Type

func init() {
	addCustom(encCuRec, decCuRec, func(r *Rand) cuRec { return cuRec{uint16(r.U(16)), string(r.Bytes(r.N(6)))} })
	addCustom(encCuVal, decCuVal, func(r *Rand) cuVal { return cuVal{uint8(r.N(0xF1))} })
	addCustom(encCuByte, decCuByte, func(r *Rand) cuByte { return cuByte(r.N(0xEE)) })
	addCustom(encCuNum, decCuNum, func(r *Rand) cuNum { return cuNum(r.U(32)) })
	addCustom(encCuStr, decCuStr, func(r *Rand) cuStr {
		b := r.Bytes(r.N(6))
		for i := range b {
			b[i] |= 1
		}
		return cuStr(b)
	})
	addCustom(encCuSlice, decCuSlice, func(r *Rand) cuSlice { return cuSlice(r.Bytes(r.N(6))) })
	addCustom(encCuArr, decCuArr, func(r *Rand) cuArr { var c cuArr; r.Fill(c[:]); return c })
	addCustom(encCuBool, decCuBool, func(r *Rand) cuBool { return cuBool(r.Bool()) })
}

// failing returns a value of the custom type whose encoding fails, if there is one.
func failingCustom(typ reflect.Type) (reflect.Value, bool) {
	switch typ {
	case reflect.TypeOf(cuRec{}):
		return reflect.ValueOf(cuRec{S: strings.Repeat("x", 201)}), true
	case reflect.TypeOf(cuVal{}):
		return reflect.ValueOf(cuVal{0xF1}), true
	case reflect.TypeOf(cuByte(0)):
		return reflect.ValueOf(cuByte(0xEE)), true
	case reflect.TypeOf(cuStr("")):
		return reflect.ValueOf(cuStr("a\x00b")), true
	case reflect.TypeOf(cuSlice(nil)):
		return reflect.ValueOf(make(cuSlice, 301)), true
	}
	return reflect.Value{}, false
}

// ---- reference encoder ----

type refTag struct {
	lenBits int // 0 without length prefix
	opt     bool
}

func parseRefTag(f reflect.StructField) (t refTag) {
	for _, o := range strings.Split(f.Tag.Get("beserial"), ",") {
		switch o {
		case "optional":
			t.opt = true
		case "len_tag=uint8":
			t.lenBits = 8
		case "len_tag=uint16":
			t.lenBits = 16
		case "len_tag=uint32":
			t.lenBits = 32
		case "len_tag=uint64":
			t.lenBits = 64
		}
	}
	return
}

var errRef = errors.New("reference: no encoding")

func bePut(b []byte, v uint64, bits int) []byte {
	for s := bits - 8; s >= 0; s -= 8 {
		b = append(b, byte(v>>s))
	}
	return b
}

func intBits(k reflect.Kind) (bits int, signed bool) {
	switch k {
	case reflect.Int8, reflect.Uint8:
		bits = 8
	case reflect.Int16, reflect.Uint16:
		bits = 16
	case reflect.Int32, reflect.Uint32:
		bits = 32
	case reflect.Int64, reflect.Uint64:
		bits = 64
	}
	switch k {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		signed = true
	}
	return
}

// refEncode appends the encoding of v to b.
func refEncode(b []byte, v reflect.Value, tag refTag) ([]byte, error) {
	if c := customOf(v.Type()); c != nil {
		e, err := c.enc(v)
		if err != nil {
			return append(b, make([]byte, partial(len(b)))...), err
		}
		return append(b, e...), nil
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1), nil
		}
		return append(b, 0), nil
	case reflect.Ptr:
		if v.IsNil() {
			if !tag.opt {
				return nil, errRef
			}
			return append(b, 0), nil
		}
		if tag.opt {
			b = append(b, 1)
		}
		return refEncode(b, v.Elem(), tag)
	case reflect.Struct:
		var err error
		for i := 0; i < v.NumField(); i++ {
			if b, err = refEncode(b, v.Field(i), parseRefTag(v.Type().Field(i))); err != nil {
				return nil, err
			}
		}
		return b, nil
	case reflect.Array, reflect.Slice, reflect.String:
		if v.Kind() != reflect.Array {
			if tag.lenBits == 0 || (tag.lenBits < 64 && uint64(v.Len()) >= 1<<tag.lenBits) {
				return nil, errRef
			}
			b = bePut(b, uint64(v.Len()), tag.lenBits)
		}
		if v.Kind() == reflect.String {
			return append(b, v.String()...), nil
		}
		var err error
		for i := 0; i < v.Len(); i++ {
			if b, err = refEncode(b, v.Index(i), refTag{}); err != nil {
				return nil, err
			}
		}
		return b, nil
	}
	bits, signed := intBits(v.Kind())
	if bits == 0 {
		return nil, errRef
	}
	if signed {
		return bePut(b, uint64(v.Int()), bits), nil
	}
	return bePut(b, v.Uint(), bits), nil
}

// ---- reference decoder ----

// refDecode decodes into v, which must be settable. It returns the number of bytes read.
func refDecode(b []byte, v reflect.Value, tag refTag) (n int, ok bool) {
	if c := customOf(v.Type()); c != nil {
		val, n, err := c.dec(b)
		if err != nil {
			return 0, false
		}
		v.Set(reflect.ValueOf(val))
		return n, true
	}
	switch v.Kind() {
	case reflect.Bool:
		if len(b) < 1 || b[0] > 1 {
			return 0, false
		}
		v.SetBool(b[0] == 1)
		return 1, true
	case reflect.Ptr:
		if tag.opt {
			if len(b) < 1 || b[0] > 1 {
				return 0, false
			}
			n = 1
			if b[0] == 0 {
				v.Set(reflect.Zero(v.Type()))
				return n, true
			}
		}
		p := reflect.New(v.Type().Elem())
		m, ok := refDecode(b[n:], p.Elem(), tag)
		v.Set(p)
		return n + m, ok
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m, ok := refDecode(b[n:], v.Field(i), parseRefTag(v.Type().Field(i)))
			if !ok {
				return 0, false
			}
			n += m
		}
		return n, true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m, ok := refDecode(b[n:], v.Index(i), refTag{})
			if !ok {
				return 0, false
			}
			n += m
		}
		return n, true
	case reflect.Slice, reflect.String:
		if tag.lenBits == 0 || len(b) < tag.lenBits/8 {
			return 0, false
		}
		var l uint64
		for ; n < tag.lenBits/8; n++ {
			l = l<<8 | uint64(b[n])
		}
		if l > uint64(len(b)-n) { // every element takes at least a byte
			return 0, false
		}
		if v.Kind() == reflect.String {
			v.SetString(string(b[n : n+int(l)]))
			return n + int(l), true
		}
		s := reflect.MakeSlice(v.Type(), int(l), int(l))
		for i := 0; i < int(l); i++ {
			m, ok := refDecode(b[n:], s.Index(i), refTag{})
			if !ok {
				return 0, false
			}
			n += m
		}
		v.Set(s)
		return n, true
	}
	bits, signed := intBits(v.Kind())
	if bits == 0 || len(b) < bits/8 {
		return 0, false
	}
	var u uint64
	for ; n < bits/8; n++ {
		u = u<<8 | uint64(b[n])
	}
	if signed {
		v.SetInt(int64(u<<(64-bits)) >> (64 - bits))
	} else {
		v.SetUint(u)
	}
	return n, true
}

// ---- values ----

// equal compares values, not telling nil from empty slices. Pointers are followed.
func equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 && a.CanInterface() && b.CanInterface() && (a.Kind() == reflect.Slice || a.CanAddr() && b.CanAddr()) {
			return bytes.Equal(a.Slice(0, a.Len()).Bytes(), b.Slice(0, b.Len()).Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Map, reflect.Chan, reflect.Func:
		return true // never encoded
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	return a.Uint() == b.Uint()
}

// same is equal on the targets of two pointers (or two plain values).
func same(a, b interface{}) bool { return equal(reflect.ValueOf(a), reflect.ValueOf(b)) }

// clone makes a deep copy.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem()))
			out.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(clone(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out.Field(i).Set(clone(v.Field(i)))
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			out.Set(v)
			return out
		}
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			if v.Type().Elem().Kind() == reflect.Uint8 {
				reflect.Copy(s, v)
				out.Set(s)
				return out
			}
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(clone(v.Index(i)))
			}
			out.Set(s)
		}
	default:
		out.Set(v)
	}
	return out
}

// dump renders a value for reports, following pointers. It does so only when formatted.
func dump(v interface{}) fmt.Stringer { return lazyDump{v} }

type lazyDump struct{ v interface{} }

func (l lazyDump) String() string { return trim(dumpValue(reflect.ValueOf(l.v), 0), 3000) }

func dumpValue(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 12 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dumpValue(v.Elem(), depth+1)
	case reflect.Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(v.Type().Field(i).Name + ":" + dumpValue(v.Field(i), depth+1))
		}
		return sb.String() + "}"
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			if len(b) > 80 {
				return fmt.Sprintf("x%x..(%d bytes)", b[:80], len(b))
			}
			return fmt.Sprintf("x%x", b)
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < v.Len() && i < 40; i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(dumpValue(v.Index(i), depth+1))
		}
		return sb.String() + "]"
	case reflect.String:
		return fmt.Sprintf("%q", trim(v.String(), 80))
	}
	return fmt.Sprint(v)
}
