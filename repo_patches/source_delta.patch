From b4a027c5b8d169428db4d3ac4ae8267da949e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 01/72] fix: bitfield: Has is false outside the field instead
 of panicking

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..b65143c 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -11,6 +11,9 @@ func New(n int) Bitfield {
 }
 
 func (b Bitfield) Has(i int) bool {
+	if i < 0 || i/8 >= len(b) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
-- 
2.43.0


From 045a64dcb0523c5e5c220f03e4f78a7088790c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 02/72] fix: bencode: decode into nil pointers inside slices,
 maps and pointers

---
 bencode/decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..3561d47 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -54,6 +54,9 @@ func (d *Decoder) decode(v reflect.Value) error {
 		return d.decodeUnmarshaler(v.Addr())
 	}
 	if v.Type().Implements(unmarshalerType) {
+		if v.Kind() == reflect.Pointer && v.IsNil() && v.CanSet() {
+			v.Set(reflect.New(v.Type().Elem()))
+		}
 		return d.decodeUnmarshaler(v)
 	}
 	switch v.Kind() {
@@ -77,6 +80,12 @@ func (d *Decoder) decode(v reflect.Value) error {
 	case reflect.Interface:
 		return d.decodeInterface(v)
 	case reflect.Pointer:
+		if v.IsNil() {
+			if !v.CanSet() {
+				return &UnsupportedTypeError{v.Type()}
+			}
+			v.Set(reflect.New(v.Type().Elem()))
+		}
 		return d.decode(v.Elem())
 	default:
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From 3c61f870de36da47c363380ac00fe1e8e35dbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 03/72] fix: bencode: reject negative string lengths and do not
 allocate declared lengths up front

---
 bencode/decode.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 3561d47..6ad3c0b 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -108,6 +108,22 @@ func isDigit(b byte) bool {
 	return '0' <= b && b <= '9'
 }
 
+// parseLength parses a string length prefix, which has no sign.
+func parseLength(lengthStr string) (int, error) {
+	if lengthStr == "" || !isDigit(lengthStr[0]) {
+		return 0, fmt.Errorf("invalid string length: %q", lengthStr)
+	}
+	return strconv.Atoi(lengthStr)
+}
+
+// readN reads exactly n bytes. The buffer grows with the data that is actually
+// there, as n comes from the input and cannot be trusted.
+func (d *Decoder) readN(n int) ([]byte, error) {
+	b := bytes.NewBuffer([]byte{})
+	_, err := io.CopyN(b, d.Reader, int64(n))
+	return b.Bytes(), err
+}
+
 func (d *Decoder) consume(buf *bytes.Buffer) error {
 	b, err := d.ReadByte()
 	if err != nil {
@@ -138,13 +154,13 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 		return "", d.newSyntaxError("consumeString: unterminated string prefix: %w", err)
 	}
 	lengthStr = lengthStr[:len(lengthStr)-1]
-	length, err := strconv.Atoi(lengthStr)
+	length, err := parseLength(lengthStr)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readN(length)
+	n := len(bytes)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
@@ -270,13 +286,13 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: unterminated string prefix: %w", err)
 	}
-	length, err := strconv.Atoi(lengthStr[:len(lengthStr)-1])
+	length, err := parseLength(lengthStr[:len(lengthStr)-1])
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readN(length)
+	n := len(bytes)
 	if err != nil {
 		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
-- 
2.43.0


From 79830bf9f8a5f8d5b8bd4e03e7a54144ccb42de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 04/72] fix: bencode: accept the empty string as the first
 dictionary key

---
 bencode/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 6ad3c0b..310ffc8 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -251,7 +251,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		buf.WriteByte('d')
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -266,7 +266,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
 		lastKey = key
@@ -442,7 +442,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		v.Set(reflect.MakeMap(t))
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -457,7 +457,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
 		lastKey = key.String()
@@ -490,7 +490,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -505,7 +505,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
 		lastKey = key.String()
-- 
2.43.0


From a979c93f44691cb6a0dcfdeeb170070c4bdc7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 05/72] fix: bencode: integers that overflow the destination
 are errors

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 310ffc8..11a9fcd 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -340,6 +340,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
+	}
 	v.SetInt(i)
 	return nil
 }
@@ -366,6 +369,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %d overflows %s", i, v.Type())
+	}
 	v.SetUint(i)
 	return nil
 }
-- 
2.43.0


From b3049d51032436ceaf2cf569d09ac6cf65026611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 06/72] fix: bencode: reject integers with a plus sign

---
 bencode/decode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 11a9fcd..d615394 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 func Unmarshal(b []byte, v any) error {
@@ -187,7 +188,7 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
 	_, err = strconv.ParseInt(intStr, 10, 64)
@@ -332,7 +333,7 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseInt(intStr, 10, 64)
@@ -361,7 +362,7 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("decodeUint: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseUint(intStr, 10, 64)
-- 
2.43.0


From 282df730a8b2c828e81c45fd4d46522a73c8cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 07/72] fix: bencode: skip and pass on integers beyond 64 bits,
 which are well-formed

---
 bencode/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index d615394..604ad2b 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -192,7 +192,7 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
 	_, err = strconv.ParseInt(intStr, 10, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return d.newSyntaxError("consumeInt: %w", err)
 	}
 	d.offset += len(intStr) + 1
-- 
2.43.0


From 85f283c793b1b6c5a6c3ff9bcc3ee34b26a52867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 08/72] fix: bencode: decoding a shorter list into a slice does
 not keep its old tail

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 604ad2b..a93d10d 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -426,6 +426,9 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		}
 		i++
 	}
+	if v.Kind() == reflect.Slice && i < v.Len() {
+		v.SetLen(i)
+	}
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From baf64bdca3f88126563b01ee26183f569323a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 09/72] fix: bencode: replace a non-pointer value held by an
 interface instead of panicking

---
 bencode/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index a93d10d..93b2816 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -545,8 +545,8 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	if e := v.Elem(); e.CanSet() || e.Kind() == reflect.Pointer && !e.IsNil() {
+		return d.decode(e)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From a24734a7c8c9771c07c44a289d3067d9af48a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 10/72] fix: bencode: error instead of panic for nil pointers
 to unexported embedded structs

---
 bencode/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 93b2816..3a449e3 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -531,6 +531,10 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						// Pointer to an unexported embedded struct.
+						return &UnsupportedTypeError{elem.Type()}
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 33b64671a8479005a9839a9310b3abdf27be301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 11/72] fix: bencode: limit the nesting depth when decoding

---
 bencode/decode.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 3a449e3..ca82f65 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -20,6 +20,20 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
+}
+
+// enter is called for every list and dictionary, so that hostile input cannot
+// exhaust the stack.
+func (d *Decoder) enter() error {
+	if d.depth++; d.depth > ptrDepthLimit {
+		return errors.New("bencode: maximum depth exceeded")
+	}
+	return nil
+}
+
+func (d *Decoder) leave() {
+	d.depth--
 }
 
 func NewDecoder(r io.Reader) *Decoder {
@@ -205,6 +219,10 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 }
 
 func (d *Decoder) consumeList(buf *bytes.Buffer) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
@@ -240,6 +258,10 @@ func (d *Decoder) consumeList(buf *bytes.Buffer) error {
 }
 
 func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	c, err := d.ReadByte()
 	if err != nil {
 		return err
@@ -378,6 +400,10 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeSlice(v reflect.Value) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
@@ -434,6 +460,10 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeMap(v reflect.Value) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	c, err := d.ReadByte()
 	if err != nil {
 		return err
@@ -490,6 +520,10 @@ var (
 )
 
 func (d *Decoder) decodeStruct(v reflect.Value) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	c, err := d.ReadByte()
 	if err != nil {
 		return err
-- 
2.43.0


From 1050da8fb3163383037a0d4b6c15f9e95dd881ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 12/72] fix: bencode: leave out nil map values instead of
 writing keys without values

---
 bencode/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..f5c5ccd 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -203,10 +203,14 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
+		mv := v.MapIndex(key)
+		if isNil(mv) {
+			continue
+		}
 		if err := e.encodeString(key); err != nil {
 			return err
 		}
-		if err := e.encode(v.MapIndex(key)); err != nil {
+		if err := e.encode(mv); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From e8b298efc3fe44a901e17b7a68fc3ffac3bc1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 13/72] fix: bencode: a nil inside a list or dictionary is
 encoded as empty or refused, not dropped

---
 bencode/encode.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index f5c5ccd..1049c1b 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -63,7 +63,7 @@ func (e *Encoder) encode(v reflect.Value) error {
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-	if v.Type().Implements(marshalerType) {
+	if v.Type().Implements(marshalerType) && !(v.Kind() == reflect.Pointer && v.IsNil()) {
 		return e.encodeMarshaler(v)
 	}
 	switch v.Kind() {
@@ -77,15 +77,26 @@ func (e *Encoder) encode(v reflect.Value) error {
 		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return e.encodeBytes(v)
 		}
+		if v.IsNil() && e.ptrDepth > 0 {
+			_, err := e.writeString("le")
+			return err
+		}
 		return e.encodeSlice(v)
 	case reflect.Array:
 		return e.encodeSlice(v)
 	case reflect.Map:
+		if v.IsNil() && e.ptrDepth > 0 {
+			_, err := e.writeString("de")
+			return err
+		}
 		return e.encodeMap(v)
 	case reflect.Struct:
 		return e.encodeStruct(v)
 	case reflect.Interface, reflect.Pointer:
 		if v.IsNil() {
+			if e.ptrDepth > 0 {
+				return errors.New("bencode: cannot encode nil inside a list or dictionary")
+			}
 			return nil
 		}
 		return e.encode(v.Elem())
-- 
2.43.0


From 23847691a15e58a0ff0a072584719bc9a6ae899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 14/72] fix: bencode: encoding an untyped nil is an error, not
 a panic

---
 bencode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 1049c1b..797348d 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -60,6 +60,9 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	if !v.IsValid() {
+		return errors.New("bencode: cannot encode nil")
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-- 
2.43.0


From 5bbd1eaed69aa37fbcf9e1398bbb924220ac7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 15/72] fix: bencode: use pointer-receiver marshalers of values
 that are not addressable

---
 bencode/encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 797348d..896556c 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -63,7 +63,13 @@ func (e *Encoder) encode(v reflect.Value) error {
 	if !v.IsValid() {
 		return errors.New("bencode: cannot encode nil")
 	}
-	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
+	if v.Kind() != reflect.Pointer && v.Kind() != reflect.Interface && reflect.PointerTo(v.Type()).Implements(marshalerType) {
+		if !v.CanAddr() {
+			// Values held by maps, interfaces and non-pointers.
+			cpy := reflect.New(v.Type()).Elem()
+			cpy.Set(v)
+			v = cpy
+		}
 		return e.encodeMarshaler(v.Addr())
 	}
 	if v.Type().Implements(marshalerType) && !(v.Kind() == reflect.Pointer && v.IsNil()) {
-- 
2.43.0


From aa6c013210f5ab6723238fa6578d96ac0822c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 16/72] fix: peer: payloads that do not fit their message type
 are errors, not panics

---
 api/peer/peer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..fe46237 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -360,6 +360,9 @@ func (m *Message) Decode(r io.Reader) error {
 	}
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
+	if !validPayloadLength(m.Type, len(payload)) {
+		return fmt.Errorf("invalid payload length: type=%d length=%d", m.Type, len(payload))
+	}
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
@@ -378,6 +381,21 @@ func (m *Message) Decode(r io.Reader) error {
 	return nil
 }
 
+func validPayloadLength(t MessageType, length int) bool {
+	switch t {
+	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
+		return length == 0
+	case HAVE:
+		return length == 4
+	case REQUEST, CANCEL:
+		return length == 12
+	case PIECE:
+		return length >= 8
+	default:
+		return true
+	}
+}
+
 func (m *Message) UnmarshalBinary(data []byte) error {
 	return m.Decode(bytes.NewReader(data))
 }
-- 
2.43.0


From 5346523f37f28627fe491d5a8997e1b4445037dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 17/72] fix: peer: do not allocate the declared message length
 up front

---
 api/peer/peer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index fe46237..b0c4293 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -354,10 +354,15 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
-	payload := make([]byte, length)
-	if _, err := io.ReadFull(r, payload); err != nil {
+	// The length cannot be trusted, so the buffer grows with the data received.
+	var bu bytes.Buffer
+	if _, err := io.CopyN(&bu, r, int64(length)); err != nil {
+		if errors.Is(err, io.EOF) {
+			return io.ErrUnexpectedEOF
+		}
 		return err
 	}
+	payload := bu.Bytes()
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
 	if !validPayloadLength(m.Type, len(payload)) {
-- 
2.43.0


From b8a280f9dd7be18f3822cd6715e4f02aee6077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 18/72] fix: peer: a handshake is read whole from readers that
 return no bytes

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index b0c4293..9498827 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From 75b5350549f2eb7696777b2135a4e2777c5a1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 19/72] fix: tracker: malformed peer dictionaries are errors,
 not panics

---
 api/tracker/tracker.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..7b1041c 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,11 +189,21 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
-		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		peer := &Peer{}
+		if id, ok := m["peer id"]; ok {
+			if peer.ID, ok = id.(string); !ok {
+				return nil, errors.New(`peer "peer id" is not a string`)
+			}
+		}
+		if peer.IP, ok = m["ip"].(string); !ok {
+			return nil, errors.New(`peer has no "ip"`)
+		}
+		if peer.Port, ok = m["port"].(int); !ok {
+			return nil, errors.New(`peer has no "port"`)
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 528ef170908293171c299c7826598efbdd8f2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 20/72] fix: tracker: an empty peer list is encoded as an empty
 list

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 7b1041c..ca2fed9 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,9 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From ff345c1deaa1a191a55b9ae2c32e08d01b5e2270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 21/72] fix: tracker: ports that do not fit the compact form
 are errors, not truncated

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index ca2fed9..4113423 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -144,6 +144,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > 65535 {
+			return nil, fmt.Errorf(`peer "port" out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
-- 
2.43.0


From 27792dedfbd26266cd061247303b60dabfa9ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 22/72] fix: tracker: info hashes and peer IDs that are not 20
 bytes long are errors

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 4113423..b8292b1 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -83,6 +83,9 @@ func (r *Request) Decode(rawQuery string) error {
 		}
 		switch dest := f.dest.(type) {
 		case *[20]byte:
+			if len(v) != len(*dest) {
+				return fmt.Errorf("%q is not %d bytes long", f.key, len(*dest))
+			}
 			copy((*dest)[:], v)
 		case *string:
 			*dest = v
-- 
2.43.0


From fdff0d5a0d7dadb7ee5d3f59816a047fd2886769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 23/72] fix: storage: block writes outside of the torrent are
 errors, not panics

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..0f91887 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -225,10 +225,16 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 }
 
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: piece index out of range: %d", index)
+	}
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
 	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin >= pieceLength {
+		return fmt.Errorf("storage: block outside of piece: %d", begin)
+	}
 	expectedBlockLength := BLOCK_LENGTH
 	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
 	if begin == lastBlock {
-- 
2.43.0


From db1641a4e3f2a229dd31e8bbe39aafc0e57eab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 24/72] fix: storage: block reads outside of the torrent are
 errors, not panics

---
 storage/storage.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 0f91887..e4fdbc5 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -97,6 +97,9 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
+	if err := checkBlockRange(s.Torrent.Info, index, begin, length); err != nil {
+		return nil, err
+	}
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
@@ -106,6 +109,9 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	if !piece.coalesced {
 		return nil, ErrIncompletePiece
 	}
+	if begin+length > piece.Length {
+		return nil, fmt.Errorf("storage: range outside of piece: begin=%d length=%d", begin, length)
+	}
 	return s.getBlockFromPiece(piece, begin, length)
 }
 
@@ -224,6 +230,17 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+func checkBlockRange(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: piece index out of range: %d", index)
+	}
+	rest := info.GetLength() - int64(index)*int64(info.PieceLength)
+	if begin < 0 || length < 0 || int64(begin) > rest || int64(length) > rest-int64(begin) {
+		return fmt.Errorf("storage: range outside of torrent: begin=%d length=%d", begin, length)
+	}
+	return nil
+}
+
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: piece index out of range: %d", index)
-- 
2.43.0


From 6129552495f21cec62e0918200db474ad276b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 25/72] fix: storage: block reads and writes take their locks
 in the same order

---
 storage/storage.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index e4fdbc5..9b523fc 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -120,20 +120,18 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
-	s.Torrent.mu.RLock()
+	// The torrent is locked before its pieces, as in GetBlock.
+	s.Torrent.mu.Lock()
+	defer s.Torrent.mu.Unlock()
 	if s.Torrent.coalesced {
-		s.Torrent.mu.RUnlock()
 		return ErrBlockExists
 	}
-	s.Torrent.mu.RUnlock()
 	piece := s.Torrent.pieces[index]
 	piece.mu.Lock()
 	defer piece.mu.Unlock()
 	if err := piece.putBlock(begin, data); err != nil {
 		return err
 	}
-	s.Torrent.mu.Lock()
-	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
 		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
-- 
2.43.0


From 4724351563eedf27fac88fd21bb6973f90ea3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 26/72] fix: storage: failed and complete pieces can be reset

---
 storage/torrent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..41a7336 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,7 +102,15 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
-	p.err.Deliver(errors.New("storage: piece reset"))
+	if p.coalesced {
+		return
+	}
+	select {
+	case <-p.err.Done:
+		// The verification of this attempt failed.
+	default:
+		p.err.Deliver(errors.New("storage: piece reset"))
+	}
 	p.err = future.New[error]()
 	p.blocks = nil
 	p.completeBlocks = 0
-- 
2.43.0


From af386c4a58169408b338ee11958eeebc6e34274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 27/72] fix: storage: the bytes downloaded are those of the
 verified pieces

---
 storage/storage.go | 19 +++++--------------
 storage/torrent.go |  3 +++
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 9b523fc..a41087d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,7 +9,6 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
-	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
 )
@@ -17,10 +16,9 @@ import (
 const BLOCK_LENGTH = 1 << 14
 
 type Storage struct {
-	TargetDir  string
-	WorkDir    string
-	Torrent    *Torrent
-	downloaded atomic.Int64
+	TargetDir string
+	WorkDir   string
+	Torrent   *Torrent
 }
 
 var (
@@ -38,7 +36,7 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -48,7 +46,6 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -62,11 +59,6 @@ func (s *Storage) Load() error {
 				if err != nil {
 					continue
 				}
-				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
-				if err != nil {
-					return err
-				}
-				s.downloaded.Add(st.Size())
 				s.Torrent.completePiece(s.Torrent.pieces[i])
 			}
 			if err = s.coalescePieces(); err != nil {
@@ -78,7 +70,7 @@ func (s *Storage) Load() error {
 }
 
 func (s *Storage) Downloaded() int64 {
-	return s.downloaded.Load()
+	return s.Torrent.downloaded.Load()
 }
 
 func (s *Storage) GetPiece(index int) *Piece {
@@ -133,7 +125,6 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 		return err
 	}
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
diff --git a/storage/torrent.go b/storage/torrent.go
index 41a7336..2061a42 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
 	"github.com/browles/drip/bitfield"
@@ -16,6 +17,7 @@ type Torrent struct {
 
 	mu             sync.RWMutex
 	coalesced      bool
+	downloaded     atomic.Int64
 	completePieces int
 	pieces         []*Piece
 	err            *future.Future[error]
@@ -55,6 +57,7 @@ func (t *Torrent) completePiece(piece *Piece) {
 	piece.blocks = nil
 	t.Bitfield.Add(piece.Index)
 	t.completePieces++
+	t.downloaded.Add(int64(piece.Length))
 }
 
 func (t *Torrent) complete() {
-- 
2.43.0


From e243362c728eca14e09d0549534bb686a94bf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 28/72] fix: storage: only verified piece files are loaded as
 complete pieces

---
 storage/storage.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index a41087d..22c69fe 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -56,10 +56,18 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
-				if err != nil {
+				if err != nil || i < 0 || i >= len(s.Torrent.pieces) {
 					continue
 				}
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				piece := s.Torrent.pieces[i]
+				if piece.coalesced || dr.Name() != piece.FileName() {
+					continue
+				}
+				if err := s.verifyPieceFile(piece); err != nil {
+					slog.Error("Load", "name", s.Torrent.Info.Name, "piece", i, "err", err)
+					continue
+				}
+				s.Torrent.completePiece(piece)
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
@@ -69,6 +77,33 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+// verifyPieceFile checks that the work file of a piece holds its data.
+func (s *Storage) verifyPieceFile(piece *Piece) error {
+	filename := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
+	st, err := os.Stat(filename)
+	if err != nil {
+		return err
+	}
+	if !st.Mode().IsRegular() || st.Size() != int64(piece.Length) {
+		return fmt.Errorf("storage: not a piece file: %s", filename)
+	}
+	f, err := os.Open(filename)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	sha1Digest := sha1.New()
+	if _, err := io.Copy(sha1Digest, f); err != nil {
+		return err
+	}
+	var hash [20]byte
+	sha1Digest.Sum(hash[:0])
+	if hash != piece.SHA1 {
+		return &ChecksumError{piece.Index, hash, piece.SHA1}
+	}
+	return nil
+}
+
 func (s *Storage) Downloaded() int64 {
 	return s.Torrent.downloaded.Load()
 }
-- 
2.43.0


From ed8b02be863038938a8480826926106acec89749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 29/72] fix: storage: loading twice does not panic

---
 storage/torrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2061a42..1ba5cd4 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -52,6 +52,9 @@ func (t *Torrent) Wait() error {
 }
 
 func (t *Torrent) completePiece(piece *Piece) {
+	if piece.coalesced {
+		return
+	}
 	piece.coalesced = true
 	piece.err.Deliver(nil)
 	piece.blocks = nil
@@ -61,6 +64,9 @@ func (t *Torrent) completePiece(piece *Piece) {
 }
 
 func (t *Torrent) complete() {
+	if t.coalesced {
+		return
+	}
 	t.coalesced = true
 	t.err.Deliver(nil)
 }
-- 
2.43.0


From ce9994a0adc0cee98a8d0903a2b4e2ac36ee7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 30/72] fix: storage: refuse torrents whose names lead outside
 of the target directory

---
 storage/storage.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 22c69fe..0af4c96 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/browles/drip/api/metainfo"
 )
@@ -36,6 +37,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if err := checkPaths(s.Torrent.Info); err != nil {
+		return err
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -254,6 +258,37 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// checkPaths refuses names that would lead outside of the target directory,
+// and files that would overwrite each other.
+func checkPaths(info *metainfo.Info) error {
+	if !isFileName(info.Name) {
+		return fmt.Errorf("storage: bad torrent name: %q", info.Name)
+	}
+	isFile := make(map[string]bool)
+	for _, file := range info.Files {
+		if len(file.Path) == 0 {
+			return errors.New("storage: empty file path")
+		}
+		for i, name := range file.Path {
+			if !isFileName(name) {
+				return fmt.Errorf("storage: bad file path: %q", file.Path)
+			}
+			path := filepath.Join(file.Path[:i+1]...)
+			last := i == len(file.Path)-1
+			if was, ok := isFile[path]; ok && (was || last) {
+				return fmt.Errorf("storage: conflicting file path: %q", file.Path)
+			}
+			isFile[path] = last
+		}
+	}
+	return nil
+}
+
+// isFileName tells whether name is a single path component.
+func isFileName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\x00") && !strings.ContainsRune(name, filepath.Separator)
+}
+
 func checkBlockRange(info *metainfo.Info, index, begin, length int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: piece index out of range: %d", index)
-- 
2.43.0


From 76e5477d8cb4b10b137f2ee12a2b2ce5fc7266c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 31/72] fix: storage: torrents with long names can be assembled

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 0af4c96..7ec4524 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -378,7 +378,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.CreateTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.CreateTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
@@ -408,7 +408,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.MkdirTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2a2174765b630b9833cce77368bce9117f403d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 32/72] fix: storage: remove the work files of a finished
 torrent that a crash left behind

---
 storage/storage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 7ec4524..cccc8b1 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -50,6 +50,10 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
+		// Left behind if the process ended right after the torrent was published.
+		if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
+			return err
+		}
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
-- 
2.43.0


From 2eb6bfdc72658fb646732b2c426ed6e9a7783dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 33/72] fix: storage: an existing file of the same name is only
 taken for the torrent if it is

---
 storage/storage.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index cccc8b1..9f831da 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -46,6 +46,9 @@ func (s *Storage) Load() error {
 	}
 	if err == nil {
 		// Complete torrent exists on disk
+		if err := s.verifyTorrent(); err != nil {
+			return err
+		}
 		for i := range len(s.Torrent.Info.Pieces) {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
@@ -85,6 +88,35 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+// verifyTorrent checks that the file or directory that has the name of the
+// torrent holds its data.
+func (s *Storage) verifyTorrent() error {
+	files := s.Torrent.Info.Files
+	if len(files) == 0 {
+		files = []*metainfo.File{{Length: s.Torrent.Info.Length}}
+	}
+	for _, file := range files {
+		fp := append([]string{s.TargetDir, s.Torrent.FileName()}, file.Path...)
+		st, err := os.Stat(filepath.Join(fp...))
+		if err != nil {
+			return err
+		}
+		if !st.Mode().IsRegular() || st.Size() != file.Length {
+			return fmt.Errorf("storage: not a file of the torrent: %s", filepath.Join(fp...))
+		}
+	}
+	for _, piece := range s.Torrent.pieces {
+		data, err := s.getBlockFromTorrent(piece.Index, 0, piece.Length)
+		if err != nil {
+			return err
+		}
+		if hash := sha1.Sum(data); hash != piece.SHA1 {
+			return &ChecksumError{piece.Index, hash, piece.SHA1}
+		}
+	}
+	return nil
+}
+
 // verifyPieceFile checks that the work file of a piece holds its data.
 func (s *Storage) verifyPieceFile(piece *Piece) error {
 	filename := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-- 
2.43.0


From 51539ba13bbe5b7e4239b525668e97480064a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 34/72] fix: multitracker: announcing without any tracker is an
 error

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..f53a3a4 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -69,6 +69,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 			slog.Error("get", "err", err)
 		}
 	}
+	if err == nil {
+		err = errors.New("tracker: no trackers")
+	}
 	return
 }
 
-- 
2.43.0


From 9a4aacb25b0a5365e530d9ce66cceea173a4762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 35/72] fix: multitracker: keep the query of the announce URL

---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f53a3a4..25c039c 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -120,7 +120,10 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	if url.RawQuery != "" {
+		url.RawQuery += "&"
+	}
+	url.RawQuery += req.Encode()
 	httpRes, err := http.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e5147be74be9e3bc39c2b098d999f56f4241d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 36/72] fix: multitracker: close response bodies

---
 p2p/multitracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 25c039c..57e4306 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -128,6 +128,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 17c965f6b98132184e5e31c83660c69bbfa6ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 37/72] fix: multitracker: announce the bytes left of
 multi-file torrents

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 57e4306..e7bc918 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -112,7 +112,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From 30a4a8023f6f4583d1edecc36143e0ac2f80aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 38/72] fix: multitracker: concurrent announces do not corrupt
 the tiers

---
 p2p/multitracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index e7bc918..f5a9bfd 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -16,6 +17,7 @@ import (
 
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
+	mu           sync.Mutex
 	TrackerTiers [][]*Tracker
 }
 
@@ -58,6 +60,8 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
-- 
2.43.0


From dadb96160fb983d2feee238cf8cc48ecd3a4d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 39/72] fix: multitracker: give up on trackers that do not
 answer

---
 p2p/multitracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f5a9bfd..535ce13 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"slices"
 	"sync"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -79,6 +80,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+// client limits how long a tracker that does not answer can hold up an announce.
+var client = &http.Client{Timeout: 15 * time.Second}
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -128,7 +132,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		url.RawQuery += "&"
 	}
 	url.RawQuery += req.Encode()
-	httpRes, err := http.Get(url.String())
+	httpRes, err := client.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b3986bbd0f15b42d3778019a14ccc952955137df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 40/72] fix: multitracker: a response without peers lists none

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 535ce13..b9f0327 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -148,5 +148,8 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
-- 
2.43.0


From 8398052c38928c1a1581e53e5a463340b0266a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 41/72] fix: pex: a requester is not listed to itself however
 it spells its address

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..9d4ec3b 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 0068d0e48b3876f797b20e8b8c078219b0928cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 42/72] fix: pex: list the peer ID announced last

---
 pex/http.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 9d4ec3b..5e0b352 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -120,6 +120,9 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		}
 		torrent.Peers[addr] = peer
 	}
+	if id := string(r.PeerID[:]); peer.tp.ID != id {
+		peer.tp = &trackerapi.Peer{ID: id, IP: peer.tp.IP, Port: peer.tp.Port}
+	}
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From 805da3829ff02b4ebf1c30c2417b51052cc11aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 43/72] fix: pex: refuse ports out of range

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5e0b352..47dc8ad 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port < 1 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From 9f3cd1a46d518b49b54b1e45a27ae4542677de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 44/72] fix: pex: leave peers without an IPv4 address out of
 compact responses

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 47dc8ad..5dd410a 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -131,6 +131,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 			continue
 		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// Only IPv4 addresses have a compact form.
+			continue
+		}
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
 		}
-- 
2.43.0


From b8d5fe6631a2029a1ad785165de75f3e513e7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 45/72] fix: pex: bad remote addresses get a failure reason

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5dd410a..9847d57 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -91,7 +91,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	if r.IP == "" {
 		ip, _, err = net.SplitHostPort(req.RemoteAddr)
 		if err != nil {
-			rw.WriteHeader(http.StatusBadRequest)
+			fail(err)
 			return
 		}
 	} else {
-- 
2.43.0


From 6458d4936fc65b890d02d2018e38d1c149a13293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 46/72] fix: p2p: refusing a connection does not leave the
 server locked

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..83428d3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From 89e36eb4c2b966e4ce943acba2505d6ffd25bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 47/72] fix: p2p: a closed connection only removes its own
 registration

---
 p2p/server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 83428d3..5e1284f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -460,13 +460,15 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
-	for addr := range p2p.knownAddrs[peer.IDIP()] {
-		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
-			delete(p2p.knownIDIPs, addr)
+	if p2p.activePeers[peer.IDIP()] == peer {
+		for addr := range p2p.knownAddrs[peer.IDIP()] {
+			if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
+				delete(p2p.knownIDIPs, addr)
+			}
 		}
+		delete(p2p.knownAddrs, peer.IDIP())
+		delete(p2p.activePeers, peer.IDIP())
 	}
-	delete(p2p.knownAddrs, peer.IDIP())
-	delete(p2p.activePeers, peer.IDIP())
 	return peer.Close()
 }
 
-- 
2.43.0


From 2126e16ff7d567ee858d1d38127eb742194de952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 48/72] fix: p2p: close and unregister connections that could
 not be set up

---
 p2p/peer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..dd4ceaa 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -163,17 +163,17 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	defer func() {
+		if err := peer.server.Disconnect(peer); err != nil {
+			slog.Error("serve.Disconnect", "err", err)
+		}
+	}()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
 		return
 	}
-	defer func() {
-		if err := peer.server.Disconnect(peer); err != nil {
-			slog.Error("serve.Disconnect", "err", err)
-		}
-	}()
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 56603d7850c168c0be601a25ad2cb94155124cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 49/72] fix: p2p: stopping also closes connections that are
 still in their handshake

---
 p2p/peer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index dd4ceaa..3637704 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -168,6 +168,8 @@ func (peer *Peer) serve(ctx context.Context) {
 			slog.Error("serve.Disconnect", "err", err)
 		}
 	}()
+	stop := context.AfterFunc(ctx, func() { peer.Conn.Close() })
+	defer stop()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
-- 
2.43.0


From 11b95f2969759cfef21e222bbda55164134a959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 50/72] fix: p2p: pieces in flight are only changed under the
 lock

---
 p2p/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5e1284f..18369b2 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -401,7 +401,6 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
 			if err := p2p.requestPiece(ctx, peer, index); err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
@@ -410,6 +409,9 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
 			p2p.downloadQueue <- peer
 		}()
 		return nil
-- 
2.43.0


From f60499beafc05907b950ad5d7a4fced9a9a21dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 51/72] fix: p2p: sort pieces, not their positions, by rarity

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 18369b2..80af7da 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -389,11 +389,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
-	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
+	sort.SliceStable(pieces, func(i, j int) bool {
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 5141912d0b7c39a0a352ecdfe5adc148c801ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 52/72] fix: p2p: announced pieces outside of the torrent are
 errors, not panics

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3637704..2ff0a9d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -225,6 +225,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: piece index out of range: %d", i)
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-- 
2.43.0


From 7bf87360d8161966415561fbd6ab6d8fa9976b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 53/72] fix: p2p: peers that sent corrupt data are blocked even
 if already disconnected

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 80af7da..41b0b10 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -318,6 +318,8 @@ func (p2p *Server) Block(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	slog.Debug("Block", "peer", peer.Addr())
+	// The connection may be closed already, and its addresses forgotten.
+	p2p.blockedPeers[peer.Addr()] = struct{}{}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		p2p.blockedPeers[addr] = struct{}{}
 	}
-- 
2.43.0


From fdfd4ddc245ea6785b481499fba7aed8fdfe245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 54/72] fix: p2p: a peer that cannot be told of a piece does
 not keep it from the others

---
 p2p/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 41b0b10..940bdcd 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -440,10 +440,11 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		if p.Closed.Load() {
 			continue
 		}
-		err := p.Send(peerapi.Have(i))
-		if err != nil {
-			return err
-		}
+		go func(p *Peer) {
+			if err := p.Send(peerapi.Have(i)); err != nil {
+				slog.Error("requestPiece.Send", "err", err)
+			}
+		}(p)
 	}
 	return nil
 }
-- 
2.43.0


From ed66005f82b51276b3e736a77c522030a477ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 55/72] fix: p2p: give up on peers that stop reading

---
 p2p/peer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 2ff0a9d..9962840 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -103,7 +103,13 @@ func (p *Peer) Send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(10 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		// Part of the message may have been written.
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
-- 
2.43.0


From 58df64cbe0ef5e612a5f36175609b35d49f3ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 56/72] fix: p2p: queueing a peer does not block a server that
 is stopping

---
 p2p/server.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 940bdcd..209085b 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -34,6 +34,7 @@ type Server struct {
 	downloadQueue chan *Peer
 	tcp           net.Listener
 	cancel        context.CancelFunc
+	done          <-chan struct{}
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -96,6 +97,7 @@ func (p2p *Server) Start() error {
 	p2p.cancel = cancel
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
+	p2p.done = ctx.Done()
 	go func() {
 		<-ctx.Done()
 		p2p.Stop()
@@ -414,7 +416,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			p2p.mu.Lock()
 			delete(p2p.inflight, index)
 			p2p.mu.Unlock()
-			p2p.downloadQueue <- peer
+			p2p.requeuePeer(peer)
 		}()
 		return nil
 	}
@@ -423,7 +425,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+			p2p.requeuePeer(peer)
 		}
 	}()
 	return nil
@@ -457,10 +459,19 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
+	p2p.requeuePeer(peer)
 	return true
 }
 
+// requeuePeer does nothing once the server is stopping, when nobody reads the
+// queue any more.
+func (p2p *Server) requeuePeer(peer *Peer) {
+	select {
+	case <-p2p.done:
+	case p2p.downloadQueue <- peer:
+	}
+}
+
 func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
-- 
2.43.0


From b721888ffab72d73b15b8d487e8d7840216e52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 57/72] fix: p2p: tracker responses without a usable interval
 do not panic

---
 p2p/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 209085b..8bcb7a1 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -502,6 +502,10 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 }
 
 func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error, d time.Duration) error {
+	if d <= 0 {
+		// A tracker response does not have to give a usable interval.
+		d = time.Minute
+	}
 	ticker := time.NewTicker(d)
 	defer ticker.Stop()
 	for {
-- 
2.43.0


From bb3ac988d37e87d0bf11842ba3586cee29eee70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 58/72] fix: p2p: a failed announce does not stop the server

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 8bcb7a1..0bf91d2 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -515,7 +515,7 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 		case <-ticker.C:
 		}
 		if err := f(ctx); err != nil {
-			return err
+			slog.Error("every", "err", err)
 		}
 	}
 }
-- 
2.43.0


From a9bd22f56090f526d30ad58985672edf8fb36ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 59/72] fix: p2p: peers can be dialed again once their
 connection is over

---
 p2p/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 0bf91d2..3216611 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -182,6 +182,7 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 			}
 			go func() {
 				defer func() { <-p2p.peerSemaphore }()
+				defer p2p.forgetPeer(tp)
 				if err := p2p.dialPeer(ctx, tp); err != nil {
 					slog.Error("DialPeers.dialPeer", "err", err)
 				}
@@ -269,6 +270,15 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	return nil
 }
 
+// forgetPeer lets a later announce add the peer again.
+func (p2p *Server) forgetPeer(tp *tracker.Peer) {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	if addr, err := remoteAddr(tp); err == nil {
+		delete(p2p.knownPeers, addr)
+	}
+}
+
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
-- 
2.43.0


From bcbd9a275b42fd9fbe2686b33cd17ef138f18445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 60/72] fix: p2p: dial IPv6 peers

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 3216611..7a04b91 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -359,7 +360,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -535,5 +536,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From bf80381ab52cc2b2cec1592cb54f069a39ab94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 61/72] fix: p2p: stopping ends pending dials

---
 p2p/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 7a04b91..0e24675 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -358,9 +358,10 @@ func (p2p *Server) Uploaded() int64 {
 	return p2p.uploaded.Load()
 }
 
-func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
+func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
+	dialer := net.Dialer{Timeout: 30 * time.Second}
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -380,7 +381,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(tp)
+	peer, err := p2p.dialTCP(ctx, tp)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e683b4fcd03e6177e3dad4cedd868cc1b69a8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 62/72] fix: p2p: no piece is requested again between a choke
 and its handling

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 9962840..8fa42d9 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -127,6 +127,7 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
+		p.RemoteChoked.Store(true)
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
-- 
2.43.0


From da7de5d2076ee90fd4eff9d950854974fd267a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 63/72] fix: p2p: only blocks that were requested from a peer
 are stored

---
 p2p/peer.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8fa42d9..df00374 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -120,11 +120,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		p.RemoteChoked.Store(true)
@@ -277,6 +272,19 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
+	br := blockRequest{index, begin, len(data)}
+	peer.mu.Lock()
+	_, ok := peer.inflightRequests[br]
+	peer.mu.Unlock()
+	if !ok {
+		// Not requested, or no longer: another peer may be sending it.
+		return nil
+	}
+	defer func() {
+		peer.mu.Lock()
+		peer.completeRequest(&br, nil)
+		peer.mu.Unlock()
+	}()
 	err := peer.server.Storage.PutBlock(index, begin, data)
 	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
 		return err
-- 
2.43.0


From 68f3f1ab2e67bb0c73d60c688ebc3a458c251d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 64/72] fix: p2p: a late cancel does not suppress the answer to
 a later request

---
 p2p/peer.go   | 14 ++------------
 p2p/server.go |  1 -
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index df00374..63203b1 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -34,7 +34,6 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
 }
 
 type blockRequest struct {
@@ -244,13 +243,6 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 		return ErrChoked
 	}
 	req := blockRequest{index, begin, length}
-	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
-	}
-	peer.mu.Unlock()
 	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
 	if err != nil {
 		return err
@@ -265,10 +257,8 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 }
 
 func (peer *Peer) HandleCancel(index, begin, length int) {
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
+	// Requests are answered as they are read, so this one already was.
+	slog.Debug("HandleCancel", "peer", peer.IDIP(), "index", index, "begin", begin, "length", length)
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index 0e24675..bd3c638 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -506,7 +506,6 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From 15ed080059e9f766c6124c0dcb5d5f92a93d724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 65/72] fix: p2p: state changes are sent in the order they are
 made

---
 p2p/peer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 63203b1..8898b37 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -95,6 +95,10 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -136,29 +140,37 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
+		return p.send(peerapi.Choke())
 	}
 	return nil
 }
 
 func (p *Peer) Unchoke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
+		return p.send(peerapi.Unchoke())
 	}
 	return nil
 }
 
 func (p *Peer) Interest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
+		return p.send(peerapi.Interested())
 	}
 	return nil
 }
 
 func (p *Peer) NotInterest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
+		return p.send(peerapi.NotInterested())
 	}
 	return nil
 }
-- 
2.43.0


From e4f1b71810e5fce0360e817429e1c33f2e070771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 66/72] fix: p2p: tell a peer of (no) interest without locking
 the server, and before requests

---
 p2p/peer.go   | 8 +++++++-
 p2p/server.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8898b37..b5fbfae 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -169,6 +169,10 @@ func (p *Peer) Interest() error {
 func (p *Peer) NotInterest() error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	if len(p.Bitfield.Difference(p.server.Storage.Torrent.Bitfield).Items()) > 0 {
+		// The peer announced another piece in the meantime.
+		return nil
+	}
 	if p.Interested.CompareAndSwap(true, false) {
 		return p.send(peerapi.NotInterested())
 	}
@@ -244,8 +248,10 @@ func (peer *Peer) HandleHave(i int) error {
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+		if err := peer.Interest(); err != nil {
+			return err
+		}
 		peer.server.QueuePeer(peer)
-		return peer.Interest()
 	}
 	return nil
 }
diff --git a/p2p/server.go b/p2p/server.go
index bd3c638..5e526bd 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -403,7 +403,12 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
-		return peer.NotInterest()
+		go func() {
+			if err := peer.NotInterest(); err != nil {
+				slog.Error("requestPieceFromPeer.NotInterest", "err", err)
+			}
+		}()
+		return nil
 	}
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
-- 
2.43.0


From 6448f88c1a6d7ad08b7c4b5f29ad8af3c3009ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 67/72] fix: p2p: a peer that fails to deliver a piece leaves
 it to the others for a while

---
 p2p/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5e526bd..b832032 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -422,7 +422,9 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
+			failed := false
 			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+				failed = true
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
@@ -433,18 +435,16 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			p2p.mu.Lock()
 			delete(p2p.inflight, index)
 			p2p.mu.Unlock()
+			if failed {
+				// Longer than others wait for the piece.
+				p2p.requeuePeerAfter(ctx, peer, 6*time.Second)
+				return
+			}
 			p2p.requeuePeer(peer)
 		}()
 		return nil
 	}
-	go func() {
-		select {
-		case <-ctx.Done():
-			return
-		case <-time.After(5 * time.Second):
-			p2p.requeuePeer(peer)
-		}
-	}()
+	go p2p.requeuePeerAfter(ctx, peer, 5*time.Second)
 	return nil
 }
 
@@ -489,6 +489,14 @@ func (p2p *Server) requeuePeer(peer *Peer) {
 	}
 }
 
+func (p2p *Server) requeuePeerAfter(ctx context.Context, peer *Peer, d time.Duration) {
+	select {
+	case <-ctx.Done():
+	case <-time.After(d):
+		p2p.requeuePeer(peer)
+	}
+}
+
 func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
-- 
2.43.0


From 5df00c14a2ecd403f03649d6efc174a1321ce739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 68/72] fix: bencode: short strings do not take a large buffer
 each

---
 bencode/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index ca82f65..b6f3366 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -134,6 +134,11 @@ func parseLength(lengthStr string) (int, error) {
 // readN reads exactly n bytes. The buffer grows with the data that is actually
 // there, as n comes from the input and cannot be trusted.
 func (d *Decoder) readN(n int) ([]byte, error) {
+	if n <= d.Size() {
+		b := make([]byte, n)
+		m, err := io.ReadFull(d.Reader, b)
+		return b[:m], err
+	}
 	b := bytes.NewBuffer([]byte{})
 	_, err := io.CopyN(b, d.Reader, int64(n))
 	return b.Bytes(), err
-- 
2.43.0


From 2398423d2a8037a80aaac77f66387b68d83b2883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 69/72] hooks: a verif build tag lets a harness replace the
 client's network

---
 p2p/net.go       | 10 ++++++++++
 p2p/net_verif.go | 22 ++++++++++++++++++++++
 p2p/server.go    |  4 ++--
 3 files changed, 34 insertions(+), 2 deletions(-)
 create mode 100644 p2p/net.go
 create mode 100644 p2p/net_verif.go

diff --git a/p2p/net.go b/p2p/net.go
new file mode 100644
index 0000000..95459d8
--- /dev/null
+++ b/p2p/net.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package p2p
+
+import "net"
+
+var (
+	listen      = net.Listen
+	dialContext = (*net.Dialer).DialContext
+)
diff --git a/p2p/net_verif.go b/p2p/net_verif.go
new file mode 100644
index 0000000..df16f92
--- /dev/null
+++ b/p2p/net_verif.go
@@ -0,0 +1,22 @@
+//go:build verif
+
+package p2p
+
+import (
+	"context"
+	"net"
+)
+
+// Listen and Dial let a verification harness replace the network.
+var (
+	Listen = net.Listen
+	Dial   = (*net.Dialer).DialContext
+)
+
+func listen(network, address string) (net.Listener, error) {
+	return Listen(network, address)
+}
+
+func dialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
+	return Dial(d, ctx, network, address)
+}
diff --git a/p2p/server.go b/p2p/server.go
index b832032..affb269 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -89,7 +89,7 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	p2p.tcp, err = listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
@@ -361,7 +361,7 @@ func (p2p *Server) Uploaded() int64 {
 func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
 	dialer := net.Dialer{Timeout: 30 * time.Second}
-	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
+	conn, err := dialContext(&dialer, ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2f3855ec32311bc31e2cd906730dd1d863b10ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 70/72] fix: the peer is told our interest before a piece it
 announces can be requested

---
 p2p/peer.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index b5fbfae..71c5591 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -160,6 +160,10 @@ func (p *Peer) Unchoke() error {
 func (p *Peer) Interest() error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.interest()
+}
+
+func (p *Peer) interest() error {
 	if p.Interested.CompareAndSwap(false, true) {
 		return p.send(peerapi.Interested())
 	}
@@ -245,12 +249,21 @@ func (peer *Peer) HandleHave(i int) error {
 	if i < 0 || i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: piece index out of range: %d", i)
 	}
+	// The piece may be requested as soon as it is in the bitfield, and the peer
+	// must know our interest by then.
+	peer.mu.Lock()
 	peer.Bitfield.Add(i)
+	wanted := !peer.server.Storage.Torrent.Bitfield.Has(i)
+	var err error
+	if wanted {
+		err = peer.interest()
+	}
+	peer.mu.Unlock()
+	if err != nil {
+		return err
+	}
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-		if err := peer.Interest(); err != nil {
-			return err
-		}
+	if wanted {
 		peer.server.QueuePeer(peer)
 	}
 	return nil
-- 
2.43.0


From 72a09f1a0f874554019911f59483229c1d75e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 71/72] fix: p2p: no announce follows the one that the client
 has stopped

---
 p2p/multitracker.go | 4 ++++
 p2p/server.go       | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index b9f0327..35ebfe3 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -114,6 +114,10 @@ func (t *Tracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
+	if event != STOPPED && mt.server.stopping() {
+		// It would be listed again.
+		return nil, errors.New("tracker: server is stopping")
+	}
 	req := &trackerapi.Request{
 		InfoHash:   mt.server.Info.SHA1,
 		PeerID:     mt.server.PeerID,
diff --git a/p2p/server.go b/p2p/server.go
index affb269..d3bf1a9 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -141,6 +141,15 @@ func (p2p *Server) Stop() error {
 	return errors.Join(errs...)
 }
 
+func (p2p *Server) stopping() bool {
+	select {
+	case <-p2p.done:
+		return true
+	default:
+		return false
+	}
+}
+
 func (p2p *Server) Serve(ctx context.Context) error {
 	for {
 		select {
-- 
2.43.0


From e0ee14e4fac3c402041a9d3257a32bb45731d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 72/72] fix: A peer's messages are read while its requests are
 answered

---
 p2p/peer.go   | 82 +++++++++++++++++++++++++++++++++++++++------------
 p2p/server.go |  2 ++
 2 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 71c5591..0a920d4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -31,6 +31,13 @@ type Peer struct {
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
+	// sendMu is held while a message is written, which lasts until the peer reads.
+	// What was read must be handled in the meantime, or two peers that send to each
+	// other wait for each other. It is locked before mu.
+	sendMu   sync.Mutex
+	requests chan blockRequest
+	answered chan struct{} // closed when no more requests will be answered
+
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
@@ -93,8 +100,8 @@ func (p *Peer) Addr() addr {
 }
 
 func (p *Peer) Send(m *peerapi.Message) error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	return p.send(m)
 }
 
@@ -140,8 +147,8 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	if p.Choked.CompareAndSwap(false, true) {
 		return p.send(peerapi.Choke())
 	}
@@ -149,8 +156,8 @@ func (p *Peer) Choke() error {
 }
 
 func (p *Peer) Unchoke() error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
 		return p.send(peerapi.Unchoke())
 	}
@@ -158,8 +165,8 @@ func (p *Peer) Unchoke() error {
 }
 
 func (p *Peer) Interest() error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	return p.interest()
 }
 
@@ -171,13 +178,17 @@ func (p *Peer) interest() error {
 }
 
 func (p *Peer) NotInterest() error {
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	p.mu.Lock()
-	defer p.mu.Unlock()
 	if len(p.Bitfield.Difference(p.server.Storage.Torrent.Bitfield).Items()) > 0 {
 		// The peer announced another piece in the meantime.
+		p.mu.Unlock()
 		return nil
 	}
-	if p.Interested.CompareAndSwap(true, false) {
+	withdraw := p.Interested.CompareAndSwap(true, false)
+	p.mu.Unlock()
+	if withdraw {
 		return p.send(peerapi.NotInterested())
 	}
 	return nil
@@ -197,6 +208,7 @@ func (peer *Peer) serve(ctx context.Context) {
 		}
 		return
 	}
+	go peer.answerRequests(ctx)
 	for {
 		select {
 		case <-ctx.Done():
@@ -251,16 +263,23 @@ func (peer *Peer) HandleHave(i int) error {
 	}
 	// The piece may be requested as soon as it is in the bitfield, and the peer
 	// must know our interest by then.
-	peer.mu.Lock()
-	peer.Bitfield.Add(i)
 	wanted := !peer.server.Storage.Torrent.Bitfield.Has(i)
-	var err error
-	if wanted {
-		err = peer.interest()
+	peer.mu.Lock()
+	known := !wanted || peer.Interested.Load()
+	if known {
+		peer.Bitfield.Add(i)
 	}
 	peer.mu.Unlock()
-	if err != nil {
-		return err
+	if !known {
+		peer.sendMu.Lock()
+		peer.mu.Lock()
+		peer.Bitfield.Add(i)
+		peer.mu.Unlock()
+		err := peer.interest()
+		peer.sendMu.Unlock()
+		if err != nil {
+			return err
+		}
 	}
 	peer.server.RecordIndex(i, peer)
 	if wanted {
@@ -273,7 +292,32 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	if peer.Choked.Load() {
 		return ErrChoked
 	}
-	req := blockRequest{index, begin, length}
+	select {
+	case peer.requests <- blockRequest{index, begin, length}:
+		return nil
+	case <-peer.answered:
+		return net.ErrClosed
+	}
+}
+
+// answerRequests answers the requests in order.
+func (peer *Peer) answerRequests(ctx context.Context) {
+	defer close(peer.answered)
+	for {
+		select {
+		case <-ctx.Done():
+			return
+		case req := <-peer.requests:
+			if err := peer.answerRequest(req); err != nil {
+				slog.Error("answerRequests", "err", err)
+				peer.Close()
+				return
+			}
+		}
+	}
+}
+
+func (peer *Peer) answerRequest(req blockRequest) error {
 	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
 	if err != nil {
 		return err
@@ -288,7 +332,7 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 }
 
 func (peer *Peer) HandleCancel(index, begin, length int) {
-	// Requests are answered as they are read, so this one already was.
+	// Requests are answered as soon as possible, also this one.
 	slog.Debug("HandleCancel", "peer", peer.IDIP(), "index", index, "begin", begin, "length", length)
 }
 
diff --git a/p2p/server.go b/p2p/server.go
index d3bf1a9..76dd628 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -527,6 +527,8 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		Bitfield:         bitfield.New(len(p2p.Info.Pieces)),
 		server:           p2p,
 		Conn:             conn,
+		requests:         make(chan blockRequest, 500),
+		answered:         make(chan struct{}),
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
 	}
 	peer.RemoteChoked.Store(true)
-- 
2.43.0

