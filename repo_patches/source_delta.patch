From 659ccb2521beae4faad3440e1cc1ea60815e442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/44] fix: beserial: return errors of pointed-to values from
 Marshal instead of dropping the output

---
 beserial/encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..8f84c37 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -59,8 +59,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		} else if v.IsNil() {
 			return nil, ErrNonOptionalNil
 		}
-		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From d6b255ba565911e54379cf19e8f70e919b319708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 02/44] fix: beserial: accept struct tags that combine optional
 and len_tag

---
 beserial/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..7faa72b 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
-- 
2.43.0


From 71333d6cf880f4f7d10df7ebf97660f3a6bf34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 03/44] fix: beserial: report nil and non-pointer arguments as
 errors, as documented, instead of panicking

---
 beserial/decode.go |  4 +---
 beserial/encode.go | 12 ++----------
 beserial/size.go   |  4 +---
 3 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..8017eda 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,9 +46,7 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index 8f84c37..eed1ef8 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -9,16 +9,8 @@ import (
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() == reflect.Interface {
-		if rv.Interface() == nil {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
-	} else {
-		if rv.IsNil() {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		return nil, fmt.Errorf("beserial: Marshal needs a non-nil pointer, got %T", v)
 	}
 	return marshal(rv.Elem(), b, tags{})
 }
diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..7795490 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,9 +10,7 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return valueSize(rv.Elem(), tags{})
-- 
2.43.0


From c86ec94aec34f81bc8fd107ba03a145329f73fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 04/44] fix: beserial: decode arrays of named byte types

---
 beserial/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 8017eda..9a7adb3 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -111,7 +111,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 			if err != nil {
 				return err
 			}
-			reflect.Copy(v, reflect.ValueOf(b))
+			copy(v.Slice(0, typ.Len()).Bytes(), b)
 		} else {
 			for i := 0; i < typ.Len(); i++ {
 				if err := d.value(v.Index(i), tags{}); err != nil {
-- 
2.43.0


From 85fe123383777cb59043b6d4af1685675e18f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 05/44] fix: beserial: honour custom encodings behind
 (optional) pointers and in byte-kinded elements

---
 beserial/decode.go |  9 ++++-----
 beserial/encode.go | 20 +++++++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 9a7adb3..ea2b572 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -58,10 +58,9 @@ func (d *decodeState) unmarshal(v interface{}) error {
 func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
+	// Pointers get allocated first, depending on the encoded presence.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
@@ -105,7 +104,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 		return d.value(ptrV.Elem(), ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if isPlain(typ.Elem(), reflect.Uint8) {
 			// Byte arrays can be copied.
 			b, err := d.pop(typ.Len())
 			if err != nil {
@@ -145,7 +144,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 				return err
 			}
 			v.SetString(string(b))
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if isPlain(typ.Elem(), reflect.Uint8) {
 			// Byte slices can be copied.
 			b, err := d.pop(int(u))
 			if err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index eed1ef8..a70d127 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -22,14 +22,24 @@ type Marshaler interface {
 	SizeBESerial() (int, error)
 }
 
+var (
+	marshalerType   = reflect.TypeOf((*Marshaler)(nil)).Elem()
+	unmarshalerType = reflect.TypeOf((*Unmarshaler)(nil)).Elem()
+)
+
+// isPlain returns whether the type is of the given kind and doesn't override the default encoding.
+func isPlain(typ reflect.Type, kind reflect.Kind) bool {
+	ptr := reflect.PtrTo(typ)
+	return typ.Kind() == kind && !ptr.Implements(marshalerType) && !ptr.Implements(unmarshalerType)
+}
+
 func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	var err error
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
+	// Pointers get dereferenced first, so that their presence is encoded, too.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
@@ -54,7 +64,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if isPlain(typ.Elem(), reflect.Uint8) {
 			// Byte arrays can be copied.
 			b = append(b, v.Slice(0, typ.Len()).Bytes()...)
 		} else {
@@ -74,7 +84,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if isPlain(typ.Elem(), reflect.Uint8) {
 			b = append(b, v.Bytes()...)
 		} else {
 			for i := 0; i < size; i++ {
-- 
2.43.0


From f8b2bbdad665c34c7e908544586f63c3fb4f438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 06/44] fix: beserial: let Size honour custom encodings and
 booleans

---
 beserial/size.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beserial/size.go b/beserial/size.go
index 7795490..2ba618c 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -18,6 +18,12 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for SizeBESerial implementation.
+	if kind != reflect.Ptr && v.CanAddr() && v.Addr().CanInterface() {
+		if m, ok := v.Addr().Interface().(Marshaler); ok {
+			return m.SizeBESerial()
+		}
+	}
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -37,7 +43,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && isPlain(typ.Elem(), typ.Elem().Kind()) {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -57,7 +63,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && isPlain(typ.Elem(), typ.Elem().Kind()) {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
@@ -95,7 +101,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 
 func sizeNumber(kind reflect.Kind) (n int, ok bool) {
 	switch kind {
-	case reflect.Int8, reflect.Uint8:
+	case reflect.Bool, reflect.Int8, reflect.Uint8:
 		return 1, true
 	case reflect.Int16, reflect.Uint16:
 		return 2, true
-- 
2.43.0


From 3eaec603bf81a7ee486c4068af82628b3a59beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 07/44] fix: beserial: refuse to encode slices and strings
 longer than their length tag can express

---
 beserial/encode.go | 18 +++++++++++++++++-
 beserial/errors.go |  1 +
 beserial/size.go   |  3 +++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index a70d127..f5e7612 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -3,6 +3,7 @@ package beserial
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -80,6 +81,9 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
+		if !lenFits(ts.lenTag, size) {
+			return nil, ErrLenOverflow
+		}
 		b = marshalInt(ts.lenTag, size, b)
 		typ := v.Type()
 		if kind == reflect.String {
@@ -124,7 +128,19 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
-// TODO Bounds checks
+// lenFits returns whether the length n can be expressed by a length tag.
+func lenFits(kind reflect.Kind, n int) bool {
+	switch kind {
+	case reflect.Uint8:
+		return n <= math.MaxUint8
+	case reflect.Uint16:
+		return n <= math.MaxUint16
+	case reflect.Uint32:
+		return uint64(n) <= math.MaxUint32
+	default:
+		return true
+	}
+}
 
 func marshalInt(kind reflect.Kind, n int, b []byte) []byte {
 	var st [8]byte
diff --git a/beserial/errors.go b/beserial/errors.go
index 12a096e..5f3d0e1 100644
--- a/beserial/errors.go
+++ b/beserial/errors.go
@@ -34,5 +34,6 @@ func (e *InvalidLenTagError) Error() string {
 var (
 	ErrUnexpectedEOF  = errors.New("beserial: unexpected EOF")
 	ErrNoLenTag       = errors.New("beserial: no length tag specified for slice")
+	ErrLenOverflow    = errors.New("beserial: length does not fit length tag")
 	ErrNonOptionalNil = errors.New("beserial: nil ptr without optional tag")
 )
diff --git a/beserial/size.go b/beserial/size.go
index 2ba618c..b98abb0 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -60,6 +60,9 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		if !ok {
 			return 0, fmt.Errorf("slice without len tag")
 		}
+		if !lenFits(ts.lenTag, v.Len()) {
+			return 0, ErrLenOverflow
+		}
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-- 
2.43.0


From ecd89c2220f2d1862587e6c9ab51be1fa4e25c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/44] fix: wire: decode bit sets of more than 248 bits (size
 computation overflowed)

---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From 373040f336f577e79af5459605051b5b48c9ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 09/44] fix: wire: decode the interlink hashes actually on the
 wire and ignore padding bits

---
 wire/block.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..6c3d97d 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -2,7 +2,6 @@ package wire
 
 import (
 	"fmt"
-	"math/bits"
 
 	"terorie.dev/nimiq/beserial"
 )
@@ -56,8 +55,10 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 	il.Hashes = make([]*[32]byte, il.Repeats.Len)
 	hash := &il.PrevHash
 	var compressedCount int
-	for _, repeatBits := range il.Repeats.Bits {
-		compressedCount += 8 - bits.OnesCount8(repeatBits)
+	for i := uint8(0); i < il.Repeats.Len; i++ {
+		if !il.Repeats.bit(i) {
+			compressedCount++
+		}
 	}
 	// Allocate space for unique hashes
 	il.Compressed = make([][32]byte, compressedCount)
@@ -74,8 +75,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
-- 
2.43.0


From d21316a8203b926c19d70164b0667b1ba6053158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 10/44] fix: wire: keep the type of decoded net addresses and
 accept placeholders

---
 wire/p2p.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..9dfcb11 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -36,9 +36,12 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		na.IP = make([]byte, net.IPv4len)
 	case NetAddressIPv6:
 		na.IP = make([]byte, net.IPv6len)
+	case NetAddressUnspecified, NetAddressUnknown:
+		na.IP = nil
 	default:
 		return n, fmt.Errorf("invalid NetAddress type: 0x%x", t)
 	}
+	na.Type = t
 	if len(b) < len(na.IP) {
 		return n, beserial.ErrUnexpectedEOF
 	}
-- 
2.43.0


From fdc3e1e0541fd9303186fd56b9e204b5132fe079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 11/44] fix: wire: encode and decode the protocol specific part
 of peer addresses

---
 wire/p2p.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 9dfcb11..ee8d32d 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -120,12 +120,11 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
-	n += sub
-	b = b[sub:]
-	if err != nil {
+	if pa.Detail == nil {
 		return
 	}
+	sub, err = beserial.Unmarshal(b, pa.Detail)
+	n += sub
 	return
 }
 
@@ -135,7 +134,10 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	if pa.Detail == nil {
+		return b, nil
+	}
+	return beserial.Marshal(b, pa.Detail)
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -145,7 +147,10 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	if pa.Detail == nil {
+		return n, nil
+	}
+	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From b49bd0a793b89d1104835341c41b25455270bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 12/44] fix: wire: send and receive empty messages without
 panicking

---
 wire/msg_types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..b6c3405 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -94,7 +94,11 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		return nil, UnknownMessageError(msgType)
 	}
 	var n int
-	n, err = beserial.Unmarshal(buf, m)
+	if empty, ok := m.(EmptyMessage); ok {
+		n, err = beserial.Unmarshal(buf, &empty)
+	} else {
+		n, err = beserial.Unmarshal(buf, m)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -106,6 +110,9 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 
 // MarshalMessage encodes the message to beserial and prefixes the message type ID.
 func MarshalMessage(m Message) (final []byte, err error) {
+	if empty, ok := m.(EmptyMessage); ok {
+		m = &empty
+	}
 	size, err := beserial.Size(m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fbb9f306389009cf647ff9c8870475b579fcd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 13/44] fix: wire: encode and decode inventory messages

---
 wire/msg_inv.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..0712545 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -23,6 +25,33 @@ func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
 
+// invContent is the serialized content of InvMessage.
+// The message type is not part of it.
+type invContent struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
+// UnmarshalBESerial unmarshals the inventory vectors.
+func (m *InvMessage) UnmarshalBESerial(b []byte) (n int, err error) {
+	var content invContent
+	n, err = beserial.Unmarshal(b, &content)
+	if err != nil {
+		return n, err
+	}
+	m.Vectors = content.Vectors
+	return n, nil
+}
+
+// MarshalBESerial marshals the inventory vectors.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invContent{Vectors: m.Vectors})
+}
+
+// SizeBESerial returns the size of the inventory vectors.
+func (m *InvMessage) SizeBESerial() (n int, err error) {
+	return beserial.Size(&invContent{Vectors: m.Vectors})
+}
+
 type GetAddrMessage struct {
 	ProtocolMask uint8
 	ServiceMask  uint32
-- 
2.43.0


From c33340a294da16d0521ec0310f2bd660d62e3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 14/44] fix: wire: header messages are of type header, not
 block

---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 0712545..145eac4 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -116,5 +116,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
-- 
2.43.0


From 9ca5fc217264e642c0ef58426704b4fb51dafc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 15/44] fix: wire: give the address list of transaction proof
 requests a length prefix

---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 145eac4..23a682b 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -79,7 +79,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
-- 
2.43.0


From bfd3c8f0f070ea23c16e834e99ffe541ca078a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 16/44] fix: wire: compute the compact form of targets shorter
 than three bytes

---
 wire/utils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wire/utils.go b/wire/utils.go
index bac51a3..37dad88 100644
--- a/wire/utils.go
+++ b/wire/utils.go
@@ -9,15 +9,20 @@ import (
 // TargetToCompact converts a target hash number into the compact "n-bits" representation.
 func TargetToCompact(target big.Int) (compact uint32) {
 	tgtBytes := target.Bytes()
+	size := uint32(len(tgtBytes))
+	// Small targets get filled up with zeros.
+	for len(tgtBytes) < 3 {
+		tgtBytes = append(tgtBytes, 0)
+	}
 
 	// If the first (most significant) byte is
 	// greater than 127 (0x7f), prepend a zero byte.
-	if tgtBytes[0] >= 0x80 && len(tgtBytes) >= 3 {
-		compact |= uint32(len(tgtBytes)+1) << 24
+	if tgtBytes[0] >= 0x80 {
+		compact |= (size + 1) << 24
 		compact |= uint32(tgtBytes[0]) << 8
 		compact |= uint32(tgtBytes[1])
 	} else {
-		compact |= uint32(len(tgtBytes)) << 24
+		compact |= size << 24
 		compact |= uint32(tgtBytes[0]) << 16
 		compact |= uint32(tgtBytes[1]) << 8
 		compact |= uint32(tgtBytes[2])
-- 
2.43.0


From 036eab165e5a2ea5e988b5faf410d3c04117d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 17/44] fix: tree, wire: allocate enough space when compressing
 nibbles

---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From 3bcfacc0b24af376b16619557471e34346e21be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 18/44] fix: wire: include a full signature proof in the
 extended equivalent of basic txs

---
 wire/tx_basic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wire/tx_basic.go b/wire/tx_basic.go
index de22fd7..8509d9c 100644
--- a/wire/tx_basic.go
+++ b/wire/tx_basic.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 // BasicTx is a simple transaction moving NIM from one account to another.
 type BasicTx struct {
 	SenderPubKey        [32]byte
@@ -22,6 +24,14 @@ func (t *BasicTx) Amount() (value uint64, fee uint64) {
 
 // AsExtendedTx returns the extended equivalent of this basic tx.
 func (t *BasicTx) AsExtendedTx() ExtendedTx {
+	// The proof of an extended tx also includes the public key of the signer.
+	proof, err := beserial.Marshal(nil, &SignatureProof{
+		PublicKey: t.SenderPubKey,
+		Signature: t.Signature,
+	})
+	if err != nil {
+		panic("wire: failed to marshal signature proof: " + err.Error())
+	}
 	return ExtendedTx{
 		Sender:              PublicKeyToAddress(&t.SenderPubKey),
 		SenderType:          AccountBasic,
@@ -32,7 +42,7 @@ func (t *BasicTx) AsExtendedTx() ExtendedTx {
 		ValidityStartHeight: t.ValidityStartHeight,
 		Flags:               0,
 		Data:                nil,
-		Proof:               t.Signature[:],
+		Proof:               proof,
 		NetworkID:           t.NetworkID,
 	}
 }
-- 
2.43.0


From fd4c6d2ec9dd16c0cefeec34a588a3530d08cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 19/44] fix: address: check both letters of the country code

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From 6d7c2f04ee99b9ae410f292767d5ab4907691a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 20/44] fix: wire: refuse amounts and balances that overflow

---
 wire/account.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..d2e3720 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -102,6 +102,15 @@ func (o *OverspendError) Error() string {
 	return fmt.Sprintf("trying to spend %d but only has %d", o.Spend, o.Available)
 }
 
+// totalSpend returns the sum of the transaction value and fee.
+func totalSpend(value, fee uint64) (uint64, error) {
+	amount := value + fee
+	if amount < value {
+		return 0, fmt.Errorf("amount overflow: %d + %d", value, fee)
+	}
+	return amount, nil
+}
+
 // A BasicAccount is a simple account that can hold funds (balance)
 // and is controlled by an Ed25519 private key.
 // https://nimiq-network.github.io/developer-reference/chapters/accounts-and-contracts.html#basic-account
@@ -128,7 +137,10 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 	value, fee := tx.Amount()
-	amount := value + fee
+	amount, err := totalSpend(value, fee)
+	if err != nil {
+		return nil, err
+	}
 	if amount > a.Value {
 		return nil, &OverspendError{Available: a.Value, Spend: amount}
 	}
@@ -138,6 +150,9 @@ func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 // ApplyIncomingTx adds the transaction value to the account.
 func (a *BasicAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	value, _ := tx.Amount()
+	if a.Value+value < a.Value {
+		return nil, fmt.Errorf("balance overflow: %d + %d", a.Value, value)
+	}
 	return &BasicAccount{Value: a.Value + value}, nil
 }
 
-- 
2.43.0


From 6ad17fecc08bcd2701235af98954564a21bbeb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 21/44] fix: wire: unlock vesting funds in full steps, debit
 the fee and never exceed the balance

---
 wire/account.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index d2e3720..24b3330 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,7 @@ package wire
 
 import (
 	"fmt"
+	"math/bits"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -242,10 +243,14 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	unlocked := c.amountUnlocked(height)
 	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	amount, err := totalSpend(extTx.Value, extTx.Fee)
+	if err != nil {
+		return nil, err
+	}
+	if amount > unlocked {
+		return nil, &OverspendError{Available: unlocked, Spend: amount}
 	}
-	newValue := c.Value - extTx.Value
+	newValue := c.Value - amount
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -266,6 +271,7 @@ func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	panic("not implemented")
 }
 
+// amountUnlocked returns the part of the balance that can be spent at the specified height.
 func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
 	if height <= c.VestingStart {
 		return 0 // cannot spend funds before vesting start
@@ -274,9 +280,16 @@ func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
 		return c.Value // unlock immediately
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := (height - c.VestingStart) / c.VestingStepBlocks
+	var locked uint64
+	hi, vested := bits.Mul64(uint64(steps), c.VestingStepAmount)
+	if hi == 0 && vested < c.VestingTotalAmount {
+		locked = c.VestingTotalAmount - vested
+	}
+	if locked >= c.Value {
+		return 0
+	}
+	return c.Value - locked
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From 17550940c9b416a4470b6ec47e53f66b66939b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 22/44] fix: wire: debit the fee of transactions spending from
 an HTLC

---
 wire/account.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 24b3330..c19a264 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -351,8 +351,12 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	amount, err := totalSpend(ext.Value, ext.Fee)
+	if err != nil {
+		return nil, err
+	}
+	if amount > h.Value {
+		return nil, &OverspendError{Available: h.Value, Spend: amount}
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -424,7 +428,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value -= amount
 	return updated, nil
 }
 
-- 
2.43.0


From 4480426b4042b324e58d851083cd3ce70716e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 23/44] fix: wire: verify the pre-image of regular HTLC
 transfers

---
 wire/account.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index c19a264..5fca621 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -1,6 +1,7 @@
 package wire
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"math/bits"
 	"strconv"
@@ -386,6 +387,14 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 		if proofParams.Algorithm != h.Hash.Algorithm || proofParams.HashRoot != h.Hash.Bytes {
 			return nil, fmt.Errorf("HTLC hash mismatch")
 		}
+		// Verify that the pre-image hashes to the hash root.
+		root, err := hashChain(proofParams.Algorithm, proofParams.PreImage, proofParams.HashDepth)
+		if err != nil {
+			return nil, err
+		}
+		if root != proofParams.HashRoot {
+			return nil, fmt.Errorf("HTLC pre-image does not match hash root")
+		}
 		// Check transaction signature.
 		if proofParams.Proof.SignerAddress() != h.Recipient {
 			return nil, fmt.Errorf("invalid recipient signature")
@@ -437,6 +446,21 @@ func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	panic("not implemented")
 }
 
+// hashChain hashes a pre-image the specified number of times.
+func hashChain(algorithm uint8, hash [32]byte, depth uint8) ([32]byte, error) {
+	for ; depth > 0; depth-- {
+		switch algorithm {
+		case HashBlake2b:
+			hash = blake2b.Sum256(hash[:])
+		case HashSha256:
+			hash = sha256.Sum256(hash[:])
+		default:
+			return hash, fmt.Errorf("unsupported HTLC hash algorithm: %d", algorithm)
+		}
+	}
+	return hash, nil
+}
+
 // AccountPruned marks the removal of an account from the state.
 type AccountPruned struct {
 	Address [20]byte
-- 
2.43.0


From 3eef1f49db43647389f62945838219677ec562ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 24/44] fix: wire: limit regular HTLC transfers to the share
 unlocked by the hash depth

---
 wire/account.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index 5fca621..798c76d 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -3,6 +3,7 @@ package wire
 import (
 	"crypto/sha256"
 	"fmt"
+	"math"
 	"math/bits"
 	"strconv"
 
@@ -399,7 +400,11 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 		if proofParams.Proof.SignerAddress() != h.Recipient {
 			return nil, fmt.Errorf("invalid recipient signature")
 		}
-		// TODO check min cap
+		// Check that no more than the share unlocked by the hash depth is spent.
+		minCap := math.Floor((1 - float64(proofParams.HashDepth)/float64(h.HashCount)) * float64(h.TotalAmount))
+		if float64(h.Value-amount) < minCap {
+			return nil, fmt.Errorf("HTLC hash depth %d unlocks less than %d", proofParams.HashDepth, amount)
+		}
 	case 2:
 		// Get proof params.
 		var proofParams struct {
-- 
2.43.0


From 05c3dbf8303fb2d278593e237bf541cc8913e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 25/44] fix: wire: refuse transactions to contracts instead of
 panicking

---
 wire/account.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 798c76d..0d7e4ae 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -268,9 +268,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, because contracts cannot receive further funds.
 func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("vesting contracts cannot receive transactions")
 }
 
 // amountUnlocked returns the part of the balance that can be spent at the specified height.
@@ -446,9 +446,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, because contracts cannot receive further funds.
 func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("HTLCs cannot receive transactions")
 }
 
 // hashChain hashes a pre-image the specified number of times.
-- 
2.43.0


From 33a9622c99f094ac6c2193f33ada605732b9f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 26/44] fix: tree: allocate the overlay on first use

---
 tree/store_overlay.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..7229173 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -19,11 +19,17 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
 	o.diffs[string(nbs)] = node
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
 	o.diffs[string(nbs)] = nil
 }
 
-- 
2.43.0


From 8aeffd6c14a98ba5612fa32a8623aedaf44e7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 27/44] fix: tree: never modify nodes owned by the store, write
 every change back

---
 tree/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 442814e..7047513 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -112,7 +112,9 @@ func (t *PMTree) update(nodePrefix, prefix Nibbles, value []byte, rootPath []Nod
 		return
 	}
 	// Node prefix matches, but branch reached. Descend.
-	node := t.Store.GetNode(nodePrefix).(*Branch)
+	// Nodes are owned by the store, so modify a copy.
+	stored := *t.Store.GetNode(nodePrefix).(*Branch)
+	node := &stored
 	targetChild := node.Children[prefix[len(node.Prefix)]]
 	if targetChild.Exists {
 		// Child entry already exists where we would descend to.
@@ -147,6 +149,7 @@ func (t *PMTree) invalidatePath(prefix Nibbles, path []Node) {
 		path = path[:len(path)-1]
 		// Set the child to a zero hash.
 		node.PutChild(current[len(node.Prefix):], zeroHash)
+		t.Store.PutNode(node.Prefix, node)
 		current = node.Prefix
 	}
 }
@@ -175,7 +178,7 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			t.invalidatePath(append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...), path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
@@ -194,6 +197,8 @@ func (t *PMTree) updateHashes(prefix Nibbles) [32]byte {
 	case *Leaf:
 		return n.Hash()
 	case *Branch:
+		stored := *n // owned by the store, so modify a copy
+		n = &stored
 		for i := range n.Children {
 			if !n.Children[i].Exists {
 				continue
-- 
2.43.0


From 6df4959537cc4f21f87b2bff967ab083e039fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 28/44] fix: accounts: hand out copies of the initial account
 instead of the shared template

---
 accounts/accounts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..898014d 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -69,7 +69,8 @@ func (a *Accounts) Revert(block *wire.Block) error {
 func (a *Accounts) GetAccount(addr *[20]byte) wire.Account {
 	buf := a.Tree.GetEntry(addr)
 	if len(buf) <= 0 {
-		return &wire.InitialAccount
+		initial := wire.InitialAccount
+		return &initial
 	}
 	var acc wire.WrapAccount
 	n, err := acc.UnmarshalBESerial(buf)
-- 
2.43.0


From 528c3e5037d176dc1edb03b1919049c43b131fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 29/44] fix: accounts: refuse blocks without body or with
 height zero instead of panicking

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 898014d..8178be3 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -37,6 +37,12 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 
 // Push pushes a new block to the state.
 func (a *Accounts) Push(block *wire.Block) error {
+	if block.Body == nil {
+		return fmt.Errorf("block has no body")
+	}
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From a979a05f073b9df8d5d8d335bbf2acd043be8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 30/44] fix: accounts: refuse blocks whose fees overflow the
 reward

---
 accounts/accounts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 8178be3..22442b2 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -146,6 +146,9 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 	reward = policy.BlockReward(block.Header.Height)
 	for _, tx := range block.Body.Txs {
 		_, fee := tx.Tx.Amount()
+		if reward+fee < reward {
+			return fmt.Errorf("block reward overflow: %d + %d", reward, fee)
+		}
 		reward += fee
 	}
 	coinbase := wire.BasicTx{
-- 
2.43.0


From 32c64d91f2b62b66c43544a892bea955594eca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 31/44] fix: accounts: do not let a contract creation replace
 another contract

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 22442b2..e6e8687 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -224,6 +224,12 @@ func (a *Accounts) createContract(tx wire.Tx, height uint32) error {
 		panic("accounts: createContract called on tx without contract creation flag")
 	}
 	acc := a.GetAccount(&content.Recipient)
+	if acc.Type() != wire.AccountBasic {
+		return &InvalidForRecipientError{
+			address: content.Recipient,
+			error:   fmt.Errorf("contract already exists"),
+		}
+	}
 	var newAcc wire.Account
 	switch content.RecipientType {
 	case wire.AccountBasic:
-- 
2.43.0


From 3ba6b81ab059baf7cb418a5eb37899f3df6ac7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 32/44] fix: accounts: refuse duplicate entries in the prune
 list

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index e6e8687..e332ceb 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -173,6 +173,12 @@ func (a *Accounts) pruneAccounts(block *wire.Block) error {
 	// if they were correctly pruned and if accounts were missed.
 	pruned := make(map[[20]byte]wire.Account)
 	for _, acc := range block.Body.Pruned {
+		if _, ok := pruned[acc.Address]; ok {
+			return &InvalidPruneError{
+				address: acc.Address,
+				error:   fmt.Errorf("account listed twice in prune list"),
+			}
+		}
 		pruned[acc.Address] = acc.Account.Account
 	}
 	// For each transaction that prunes an account,
-- 
2.43.0


From 531a37f5a80592fb6079f13fa3523ae2122cd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 33/44] fix: accounts: refuse transactions declaring the
 account type "unknown"

---
 accounts/accounts.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index e332ceb..b95c1a7 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -108,6 +108,9 @@ func (a *Accounts) PutAccount(addr *[20]byte, acc wire.Account) {
 func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
+		if err := a.checkDeclaredType(&content.Sender, content.SenderType); err != nil {
+			return err
+		}
 		if err := a.pushTx(&content.Sender, content.SenderType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
 		}
@@ -121,6 +124,9 @@ func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 		var recipientType uint8 = wire.AccountUnknown
 		if content.Flags&wire.TxFlagContractCreation == 0 {
 			recipientType = content.RecipientType
+			if err := a.checkDeclaredType(&content.Recipient, recipientType); err != nil {
+				return err
+			}
 		}
 		if err := a.pushTx(&content.Recipient, recipientType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
@@ -129,6 +135,18 @@ func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 	return nil
 }
 
+// checkDeclaredType makes sure that a transaction does not declare AccountUnknown,
+// which pushTx accepts for accounts of any type.
+func (a *Accounts) checkDeclaredType(address *[20]byte, accType uint8) error {
+	if accType == wire.AccountUnknown {
+		return &AccountTypeMismatchError{
+			Expected: accType,
+			Got:      a.GetAccount(address).Type(),
+		}
+	}
+	return nil
+}
+
 func (a *Accounts) createContracts(block *wire.Block) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
-- 
2.43.0


From 7713c939ed7b6298f1f25f609661460d1e79a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 34/44] fix: accounts: apply blocks atomically

---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index b95c1a7..4579b42 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -43,6 +43,18 @@ func (a *Accounts) Push(block *wire.Block) error {
 	if block.Header.Height < 1 {
 		return fmt.Errorf("invalid block height: %d", block.Header.Height)
 	}
+	// Collect all changes in an overlay, so that a rejected block leaves the state as it was.
+	overlay := &tree.OverlayStore{Lower: a.Tree.Store}
+	staged := &Accounts{Tree: &tree.PMTree{Store: overlay}}
+	if err := staged.push(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+// push applies the individual steps of Push.
+func (a *Accounts) push(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 54fa0b894e442a1dcffc318f870cfa5e09e5aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 35/44] fix: wallet: do not write to the wallet when reading
 its address (data race)

---
 wallet/basic.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wallet/basic.go b/wallet/basic.go
index aeb686a..ee9b321 100644
--- a/wallet/basic.go
+++ b/wallet/basic.go
@@ -18,7 +18,6 @@ import (
 type Basic struct {
 	PrivateKey ed25519.PrivateKey
 	PublicKey  ed25519.PublicKey
-	address    [20]byte
 }
 
 // DeriveBasic creates a new Basic wallet from an Ed25519 private key.
@@ -46,11 +45,8 @@ func GenerateBasic() *Basic {
 
 // GetAddress returns the address of the wallet.
 func (b *Basic) GetAddress() [20]byte {
-	if b.address == [20]byte{} {
-		pubKey := b.GetPublicKey()
-		b.address = wire.PublicKeyToAddress(&pubKey)
-	}
-	return b.address
+	pubKey := b.GetPublicKey()
+	return wire.PublicKeyToAddress(&pubKey)
 }
 
 // GetPublicKey returns the public key of the wallet.
-- 
2.43.0


From 6ce110a5fd1bd3a7dcaaba8458873ca8734ac9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 36/44] fix: genesis: load all values of the profile
 configuration

---
 genesis/genesis.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..0532e09 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -112,8 +113,31 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
-	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var file struct {
+		NetworkID   uint8    `toml:"network_id"`
+		Name        string   `toml:"name"`
+		SeedPeers   []string `toml:"seed_peers"`
+		SeedLists   []string `toml:"seed_lists"`
+		GenesisHash string   `toml:"genesis_hash"`
+	}
+	if err := toml.NewDecoder(f).Decode(&file); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: file.NetworkID,
+		Name:      file.Name,
+		SeedPeers: file.SeedPeers,
+		SeedLists: file.SeedLists,
+	}
+	if file.GenesisHash != "" {
+		hash, err := hex.DecodeString(file.GenesisHash)
+		if err != nil {
+			return nil, fmt.Errorf("invalid genesis hash: %w", err)
+		}
+		if len(hash) != len(conf.GenesisHash) {
+			return nil, fmt.Errorf("invalid genesis hash: %d bytes", len(hash))
+		}
+		copy(conf.GenesisHash[:], hash)
+	}
+	return conf, nil
 }
-- 
2.43.0


From 9a105b32aba0062fb7581b3e0c9f5ac498d686df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 37/44] fix: address: ignore spaces after the last character

---
 address/address.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..eff167e 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,13 +107,14 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
-			// All address chars have been read, but there are some remaining (overflow).
-			err = ErrInvalidLength
-			return
 		}
 		// Read next char from input.
 		if char := remainder[0]; char != ' ' {
+			if len(compactRemainder) == 0 {
+				// All address chars have been read, but there are some remaining (overflow).
+				err = ErrInvalidLength
+				return
+			}
 			// Not a space, write to encoded.
 			compactRemainder[0] = char
 			compactRemainder = compactRemainder[1:]
-- 
2.43.0


From 429c84bc01409dea80274da05ff6e49fe11823d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 38/44] fix: genesis: report malformed configuration files as
 errors instead of panicking

---
 genesis/genesis.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index 0532e09..9cc1512 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -5,6 +5,7 @@ import (
 	"embed"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 
@@ -120,7 +121,7 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		SeedLists   []string `toml:"seed_lists"`
 		GenesisHash string   `toml:"genesis_hash"`
 	}
-	if err := toml.NewDecoder(f).Decode(&file); err != nil {
+	if err := decodeTOML(f, &file); err != nil {
 		return nil, err
 	}
 	conf = &Config{
@@ -141,3 +142,14 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 	}
 	return conf, nil
 }
+
+// decodeTOML decodes a TOML document.
+// The parser panics on some malformed documents.
+func decodeTOML(r io.Reader, v interface{}) (err error) {
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("malformed document: %v", p)
+		}
+	}()
+	return toml.NewDecoder(r).Decode(v)
+}
-- 
2.43.0


From b7acf84e63999bb8a5fd4780229d48d155b1889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 39/44] fix: wire: decode WebRTC peer addresses

---
 wire/p2p.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index ee8d32d..f59fb20 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -113,7 +113,7 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	switch pa.Protocol {
-	case ProtocolDumb:
+	case ProtocolDumb, ProtocolRTC:
 		pa.Detail = nil
 	case ProtocolWS, ProtocolWSS:
 		pa.Detail = new(PeerAddressSrv)
-- 
2.43.0


From c1be7d83c3ff0595ba15df225fb5dbaa7e32433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 40/44] fix: wire: encode the IP of a NetAddress in the width
 of its type

---
 wire/p2p.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index f59fb20..a804568 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -50,17 +50,39 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (na *NetAddress) MarshalBESerial(b []byte) ([]byte, error) {
+	ip, err := na.encodedIP()
+	if err != nil {
+		return nil, err
+	}
 	b = append(b, na.Type)
-	b = append(b, na.IP...)
+	b = append(b, ip...)
 	return b, nil
 }
 
 func (na *NetAddress) SizeBESerial() (int, error) {
-	return na.sizeBESerial(), nil
+	ip, err := na.encodedIP()
+	if err != nil {
+		return 0, err
+	}
+	return 1 + len(ip), nil
 }
 
-func (na *NetAddress) sizeBESerial() int {
-	return 1 + len(na.IP)
+// encodedIP returns the IP in the width that the address type calls for.
+func (na *NetAddress) encodedIP() (ip net.IP, err error) {
+	switch na.Type {
+	case NetAddressIPv4:
+		ip = na.IP.To4()
+	case NetAddressIPv6:
+		ip = na.IP.To16()
+	case NetAddressUnspecified, NetAddressUnknown:
+		if len(na.IP) == 0 {
+			return nil, nil
+		}
+	}
+	if ip == nil {
+		return nil, fmt.Errorf("invalid NetAddress type 0x%x for IP: %s", na.Type, na.IP)
+	}
+	return ip, nil
 }
 
 // PeerAddress contains an overview about a peer and how to reach it.
-- 
2.43.0


From 8060ba3f1bdab53a946ea013c1479209d3ecfc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 41/44] fix: wire: refuse to encode peer addresses with details
 of another protocol

---
 wire/p2p.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index a804568..f9a1bbd 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -151,7 +151,10 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
-	var err error
+	err := pa.checkDetail()
+	if err != nil {
+		return nil, err
+	}
 	b, err = beserial.Marshal(b, &pa.PeerAddressHeader)
 	if err != nil {
 		return nil, err
@@ -163,6 +166,10 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
+	err = pa.checkDetail()
+	if err != nil {
+		return 0, err
+	}
 	var sub int
 	sub, err = beserial.Size(&pa.PeerAddressHeader)
 	if err != nil {
@@ -180,6 +187,21 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 	return n, nil
 }
 
+// checkDetail returns an error if the details don't match the protocol.
+func (pa *PeerAddress) checkDetail() error {
+	switch pa.Protocol {
+	case ProtocolDumb, ProtocolRTC:
+		if pa.Detail == nil {
+			return nil
+		}
+	case ProtocolWS, ProtocolWSS:
+		if _, ok := pa.Detail.(*PeerAddressSrv); ok {
+			return nil
+		}
+	}
+	return fmt.Errorf("invalid details for protocol 0x%x: %T", pa.Protocol, pa.Detail)
+}
+
 // PeerID is an 128-bit identifier of a peer.
 type PeerID [16]byte
 
-- 
2.43.0


From 1ea9922acf5401dd4ba636cdf5e4abbc166df787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 42/44] fix: wire: refuse to encode bit sets, merkle paths and
 interlinks that contradict their lengths

---
 wire/bitset.go    | 14 ++++++++++++++
 wire/block.go     | 23 +++++++++++++++++++++++
 wire/signature.go | 14 ++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/wire/bitset.go b/wire/bitset.go
index 489d909..00bd2b2 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -29,15 +29,29 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
+	if err := bs.check(); err != nil {
+		return nil, err
+	}
 	b = append(b, bs.Len)
 	b = append(b, bs.Bits...)
 	return b, nil
 }
 
 func (bs *BitSet) SizeBESerial() (n int, err error) {
+	if err := bs.check(); err != nil {
+		return 0, err
+	}
 	return 1 + len(bs.Bits), nil
 }
 
+// check returns an error if the number of bytes doesn't match the number of bits.
+func (bs *BitSet) check() error {
+	if len(bs.Bits) != (int(bs.Len)+7)/8 {
+		return fmt.Errorf("bit set with %d bits in %d bytes", bs.Len, len(bs.Bits))
+	}
+	return nil
+}
+
 func (bs *BitSet) bit(i uint8) bool {
 	return bs.Bits[i/8]&(0x80>>(i%8)) != 0
 }
diff --git a/wire/block.go b/wire/block.go
index 6c3d97d..7d1a86c 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -85,6 +85,9 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (il *BlockInterlink) MarshalBESerial(b []byte) ([]byte, error) {
+	if err := il.check(); err != nil {
+		return nil, err
+	}
 	var err error
 	b, err = il.Repeats.MarshalBESerial(b)
 	if err != nil {
@@ -97,6 +100,9 @@ func (il *BlockInterlink) MarshalBESerial(b []byte) ([]byte, error) {
 }
 
 func (il *BlockInterlink) SizeBESerial() (n int, err error) {
+	if err := il.check(); err != nil {
+		return 0, err
+	}
 	n, err = il.Repeats.SizeBESerial()
 	if err != nil {
 		return
@@ -104,3 +110,20 @@ func (il *BlockInterlink) SizeBESerial() (n int, err error) {
 	n += len(il.Compressed) * 32
 	return
 }
+
+// check returns an error if the number of compressed hashes doesn't match the repeat bits.
+func (il *BlockInterlink) check() error {
+	if err := il.Repeats.check(); err != nil {
+		return err
+	}
+	var compressedCount int
+	for i := uint8(0); i < il.Repeats.Len; i++ {
+		if !il.Repeats.bit(i) {
+			compressedCount++
+		}
+	}
+	if len(il.Compressed) != compressedCount {
+		return fmt.Errorf("interlink with %d compressed hashes, expected %d", len(il.Compressed), compressedCount)
+	}
+	return nil
+}
diff --git a/wire/signature.go b/wire/signature.go
index 5737e1f..5a0ffb1 100644
--- a/wire/signature.go
+++ b/wire/signature.go
@@ -46,6 +46,9 @@ func (mp *MerklePath) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (mp *MerklePath) MarshalBESerial(b []byte) ([]byte, error) {
+	if err := mp.check(); err != nil {
+		return nil, err
+	}
 	var err error
 	b, err = mp.Branches.MarshalBESerial(b)
 	if err != nil {
@@ -58,6 +61,9 @@ func (mp *MerklePath) MarshalBESerial(b []byte) ([]byte, error) {
 }
 
 func (mp *MerklePath) SizeBESerial() (n int, err error) {
+	if err := mp.check(); err != nil {
+		return 0, err
+	}
 	n, err = mp.Branches.SizeBESerial()
 	if err != nil {
 		return
@@ -66,6 +72,14 @@ func (mp *MerklePath) SizeBESerial() (n int, err error) {
 	return
 }
 
+// check returns an error if the number of hashes doesn't match the number of branches.
+func (mp *MerklePath) check() error {
+	if len(mp.Hashes) != int(mp.Branches.Len) {
+		return fmt.Errorf("merkle path with %d branches and %d hashes", mp.Branches.Len, len(mp.Hashes))
+	}
+	return nil
+}
+
 func (mp *MerklePath) ComputeRoot(leafValue []byte) (root [32]byte) {
 	root = blake2b.Sum256(leafValue[:])
 	for i, hash := range mp.Hashes {
-- 
2.43.0


From 18692d8292d1a9aa83757686c48d18e5925a2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 43/44] fix: wire: report missing transactions and accounts as
 errors instead of panicking

---
 wire/account.go | 6 ++++++
 wire/tx.go      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index 0d7e4ae..4ef02c7 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -60,11 +60,17 @@ func (wa *WrapAccount) UnmarshalBESerial(buf []byte) (n int, err error) {
 }
 
 func (wa *WrapAccount) MarshalBESerial(b []byte) ([]byte, error) {
+	if wa.Account == nil {
+		return nil, beserial.ErrNonOptionalNil
+	}
 	b = append(b, wa.Account.Type())
 	return beserial.Marshal(b, wa.Account)
 }
 
 func (wa *WrapAccount) SizeBESerial() (n int, err error) {
+	if wa.Account == nil {
+		return 0, beserial.ErrNonOptionalNil
+	}
 	n = 1
 	var sub int
 	sub, err = beserial.Size(wa.Account)
diff --git a/wire/tx.go b/wire/tx.go
index d7d5509..7cde090 100644
--- a/wire/tx.go
+++ b/wire/tx.go
@@ -58,12 +58,18 @@ func (wt *WrapTx) UnmarshalBESerial(buf []byte) (n int, err error) {
 
 // MarshalBESerial encodes the transaction to beserial with a type prefix.
 func (wt WrapTx) MarshalBESerial(b []byte) ([]byte, error) {
+	if wt.Tx == nil {
+		return nil, beserial.ErrNonOptionalNil
+	}
 	b = append(b, wt.Tx.Type())
 	return beserial.Marshal(b, wt.Tx)
 }
 
 // SizeBESerial returns the size of the type-prefixed transaction.
 func (wt WrapTx) SizeBESerial() (n int, err error) {
+	if wt.Tx == nil {
+		return 0, beserial.ErrNonOptionalNil
+	}
 	n = 1
 	var sub int
 	sub, err = beserial.Size(wt.Tx)
-- 
2.43.0


From 16e3d76ab5c9a21014545d64540961f0e9317143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 44/44] fix: wire: number the services like the protocol does

---
 wire/services.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/services.go b/wire/services.go
index 60b85b3..a54a34b 100644
--- a/wire/services.go
+++ b/wire/services.go
@@ -3,7 +3,7 @@ package wire
 // Service type IDs.
 const (
 	ServicesNone = uint32(0)
-	ServicesNano = uint32(1 << iota)
+	ServicesNano = uint32(1 << (iota - 1))
 	ServicesLight
 	ServicesFull
 )
-- 
2.43.0

