From 1bab903eed4dbf93592ade6a513385ba68d39e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:02 +0000
Subject: [PATCH 01/61] fix: reject integer column values that overflow the
 destination type

---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..47b7e36 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..26e7ba5 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From 5fe4cf35d9a49f7acb8fbdb9829372a8d2b5b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/61] fix: reject JSON array elements that overflow the
 signed element type

---
 sequel/sqltype/int_slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..25418bf 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 8*int(unsafe.Sizeof(b[i])))
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
-- 
2.43.0


From 98fef3cb297feb2e70b33f60d5f249091ea8815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/61] fix: parse PostgreSQL integer array elements in the
 range of the element type

---
 sequel/driver/postgres/pgtype/int_array.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..c4c0c3c 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -77,13 +77,26 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := parseInteger[T](unsafe.String(unsafe.SliceData(v), len(v)))
 			if err != nil {
 				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
 			}
-			b[i] = T(n)
+			b[i] = n
 		}
 		*a = b
 	}
 	return nil
 }
+
+// parseInteger parses s as a decimal integer in the range of T.
+func parseInteger[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](s string) (T, error) {
+	var zero T
+	bitSize := 8 * int(unsafe.Sizeof(zero))
+	if zero-1 > zero {
+		n, err := strconv.ParseUint(s, 10, bitSize)
+		return T(n), err
+	}
+	n, err := strconv.ParseInt(s, 10, bitSize)
+	return T(n), err
+}
-- 
2.43.0


From c6740f098434aa91c299ad745ca27aa0b4000f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 04/61] fix: write and read boolean slices as JSON booleans

---
 sequel/sqltype/bool_slice.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..4826167 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +23,17 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
-		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
+		// There will be exactly two square brackets, at most 5*N bytes of
+		// values, and N-1 bytes of delimiters.
+		b := make([]byte, 1, 1+6*n)
+		b[0] = '['
 
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
+		b = strconv.AppendBool(b, (bool)(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, (bool)(a[i]))
 		}
-
-		b[0] = '['
-		b[2*n] = ']'
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -66,13 +63,10 @@ func (a *BoolSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch string(v) {
+			case "true", "t":
 				b[i] = true
-			case 'f':
+			case "false", "f":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-- 
2.43.0


From e44db4a2c49d141a59c7682d1c61baf1feaaa0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 05/61] fix: escape control characters in and decode escapes of
 JSON string arrays

---
 sequel/sqltype/string_slice.go | 85 +++++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 11 deletions(-)

diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..80fa583 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -5,6 +5,8 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -105,7 +107,27 @@ Element:
 			var escape bool
 			for i++; i < len(src); i++ {
 				if escape {
-					elem = append(elem, src[i])
+					switch src[i] {
+					case 'b':
+						elem = append(elem, '\b')
+					case 'f':
+						elem = append(elem, '\f')
+					case 'n':
+						elem = append(elem, '\n')
+					case 'r':
+						elem = append(elem, '\r')
+					case 't':
+						elem = append(elem, '\t')
+					case 'u':
+						r, n := decodeUnicodeEscape(src[i+1:])
+						if n == 0 {
+							return nil, nil, fmt.Errorf("sqltype: unable to parse array; invalid unicode escape at offset %d", i)
+						}
+						elem = utf8.AppendRune(elem, r)
+						i += n
+					default:
+						elem = append(elem, src[i])
+					}
 					escape = false
 				} else {
 					switch src[i] {
@@ -173,6 +195,47 @@ Close:
 	return
 }
 
+// decodeUnicodeEscape decodes the hexadecimal digits following `\u`, together
+// with the second half of a surrogate pair, and returns the number of bytes
+// consumed.
+func decodeUnicodeEscape(src []byte) (rune, int) {
+	r, ok := hex4(src)
+	if !ok {
+		return 0, 0
+	}
+	if utf16.IsSurrogate(r) {
+		if len(src) >= 10 && src[4] == '\\' && src[5] == 'u' {
+			if r2, ok := hex4(src[6:]); ok {
+				if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
+					return dec, 10
+				}
+			}
+		}
+		return utf8.RuneError, 4
+	}
+	return r, 4
+}
+
+func hex4(src []byte) (rune, bool) {
+	if len(src) < 4 {
+		return 0, false
+	}
+	var r rune
+	for _, c := range src[:4] {
+		switch {
+		case c >= '0' && c <= '9':
+			r = r<<4 | rune(c-'0')
+		case c >= 'a' && c <= 'f':
+			r = r<<4 | rune(c-'a'+10)
+		case c >= 'A' && c <= 'F':
+			r = r<<4 | rune(c-'A'+10)
+		default:
+			return 0, false
+		}
+	}
+	return r, true
+}
+
 func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
 	dims, elems, err := parseArray(src, del)
 	if err != nil {
@@ -185,18 +248,18 @@ func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
 }
 
 func appendArrayQuotedBytes(b, v []byte) []byte {
+	const hex = "0123456789abcdef"
 	b = append(b, '"')
-	for {
-		i := bytes.IndexAny(v, `"\`)
-		if i < 0 {
-			b = append(b, v...)
-			break
-		}
-		if i > 0 {
-			b = append(b, v[:i]...)
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b = append(b, '\\', c)
+		case c < 0x20:
+			// JSON strings cannot hold raw control characters.
+			b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&0xf])
+		default:
+			b = append(b, c)
 		}
-		b = append(b, '\\', v[i])
-		v = v[i+1:]
 	}
 	return append(b, '"')
 }
-- 
2.43.0


From 570dc24112bdd91f25d3f60c70b18c8bfedcca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 06/61] fix: accept insignificant whitespace and null in JSON
 array columns

---
 sequel/sqltype/string_slice.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 80fa583..b6abdf9 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -70,9 +70,20 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 	return nil
 }
 
+// jsonSpace is the insignificant whitespace of JSON.
+const jsonSpace = " \t\r\n"
+
+func skipSpace(src []byte, i int) int {
+	for i < len(src) && strings.IndexByte(jsonSpace, src[i]) >= 0 {
+		i++
+	}
+	return i
+}
+
 func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
 	var depth, i int
 
+	src = bytes.Trim(src, jsonSpace)
 	if len(src) < 1 || src[0] != '[' {
 		return nil, nil, fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', 0)
 	}
@@ -82,7 +93,7 @@ Open:
 		switch src[i] {
 		case '[':
 			depth++
-			i++
+			i = skipSpace(src, i+1)
 		case ']':
 			elems = make([][]byte, 0)
 			goto Close
@@ -90,10 +101,10 @@ Open:
 			break Open
 		}
 	}
-	dims = make([]int, i)
+	dims = make([]int, depth)
 
 Element:
-	for i < len(src) {
+	for i = skipSpace(src, i); i < len(src); i = skipSpace(src, i) {
 		switch src[i] {
 		case '[':
 			if depth == len(dims) {
@@ -145,11 +156,11 @@ Element:
 		default:
 			for start := i; i < len(src); i++ {
 				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
+					elem := bytes.TrimRight(src[start:i], jsonSpace)
 					if len(elem) == 0 {
 						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
 					}
-					if bytes.Equal(elem, []byte("NULL")) {
+					if bytes.Equal(elem, []byte("NULL")) || bytes.Equal(elem, []byte("null")) {
 						elem = nil
 					}
 					elems = append(elems, elem)
@@ -159,7 +170,7 @@ Element:
 		}
 	}
 
-	for i < len(src) {
+	for i = skipSpace(src, i); i < len(src); i = skipSpace(src, i) {
 		if bytes.HasPrefix(src[i:], del) && depth > 0 {
 			dims[depth-1]++
 			i += len(del)
@@ -174,7 +185,7 @@ Element:
 	}
 
 Close:
-	for i < len(src) {
+	for i = skipSpace(src, i); i < len(src); i = skipSpace(src, i) {
 		if src[i] == ']' && depth > 0 {
 			depth--
 			i++
-- 
2.43.0


From 402d83965cb20a7d0e0a75b60a051a6ba722f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 07/61] fix: do not retain driver memory when scanning into
 byte slices

---
 sequel/encoding/string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..2953a79 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"bytes"
 	"database/sql"
 	"fmt"
 	"strconv"
@@ -54,7 +55,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// The driver owns vi, it must not be retained.
+		val := T(bytes.Clone(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 0845bf8c75839b8c7a628f4dc1dc75b48947fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 08/61] fix: clear the rest of a byte array when scanning a
 shorter value

---
 sequel/encoding/byte_array.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..12601c2 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -31,6 +31,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
+		clear(s.v[len(bytes):s.size])
 	case []byte:
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
@@ -38,6 +39,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
+		clear(s.v[len(b):s.size])
 		return nil
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~byte`, b, s.size)
-- 
2.43.0


From 0e44ba9a98cc0bd576f7a0355ecb7b1e4e38aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 09/61] fix: scan rune arrays rune by rune, clear the rest, and
 reset on NULL

---
 sequel/encoding/rune_array.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..e3be52e 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,26 +18,30 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v[:s.size])
 		return nil
 	case []byte:
+		if n := utf8.RuneCount(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
+		}
 		i := int(0)
 		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
 			r, size := utf8.DecodeRune(vi)
 			s.v[i] = T(r)
 			i++
 			vi = vi[size:]
 		}
+		clear(s.v[i:s.size])
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
+		if n := utf8.RuneCountInString(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
 		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
+		i := int(0)
+		for _, r := range vi {
+			s.v[i] = T(r)
+			i++
 		}
+		clear(s.v[i:s.size])
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
-- 
2.43.0


From c136f1c6eb41d916169aacfd272ba9a300b920e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 10/61] fix: keep the fraction of floats when no precision is
 given

---
 sequel/encoding/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..185fc6d 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -65,7 +65,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		p := -1
 		if len(prec) > 0 {
 			p = prec[0]
 		}
-- 
2.43.0


From 3c89ee232eaeb52c07562fc45b8acf627648b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 11/61] fix: allocate the value when scanning into a nil
 pointer

---
 sequel/encoding/pointer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..c731a78 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,6 +26,15 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
+	if v != nil && *p.v == nil {
+		// There is no value to scan into yet.
+		val := Ptr(new(T))
+		if err := (&addrOfPtr[T, Ptr, *Ptr]{v: &val}).Scan(v); err != nil {
+			return err
+		}
+		*(*Ptr)(unsafe.Pointer(p.v)) = val
+		return nil
+	}
 	switch vt := v.(type) {
 	case nil:
 		*(*Ptr)(unsafe.Pointer(p.v)) = nil
-- 
2.43.0


From c4504f4cf7c3177c4da4d1ae34759adf33852145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 12/61] fix: allocate the value when scanning text into a nil
 pointer

---
 sequel/encoding/text.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..c921d19 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -37,6 +37,15 @@ func TextScanner[T any, Ptr interface {
 }
 
 func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
+	if p, ok := any(t.v).(**T); ok && v != nil && *p == nil {
+		// There is no value to scan into yet.
+		val := new(T)
+		if err := (&textScanner[T, Ptr, *T]{v: val}).Scan(v); err != nil {
+			return err
+		}
+		*p = val
+		return nil
+	}
 	switch vt := v.(type) {
 	case nil:
 		switch any(t.v).(type) {
-- 
2.43.0


From fcc6837698c7a3a7ae7dc4f0bb547de8a5d041c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 13/61] fix: marshal string lists as JSON strings

---
 sequel/encoding/marshaler.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index 185fc6d..ab51bd4 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -2,6 +2,7 @@ package encoding
 
 import (
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/si3nloong/sqlgen/sequel/strpool"
@@ -11,9 +12,11 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteByte('[')
+		writeJSONString(blr, (string)(list[0]))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteByte(',')
+			writeJSONString(blr, (string)(list[i]))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -21,6 +24,26 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	return "[]"
 }
 
+// writeJSONString writes s as a JSON string.
+func writeJSONString(blr *strings.Builder, s string) {
+	const hex = "0123456789abcdef"
+	blr.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			blr.WriteByte('\\')
+			blr.WriteByte(c)
+		case c < 0x20:
+			blr.WriteString(`\u00`)
+			blr.WriteByte(hex[c>>4])
+			blr.WriteByte(hex[c&0xf])
+		default:
+			blr.WriteByte(c)
+		}
+	}
+	blr.WriteByte('"')
+}
+
 func MarshalIntSlice[V ~int | ~int8 | ~int16 | ~int32 | ~int64](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
-- 
2.43.0


From 8cb0a00b01982ce41a20eea9630dd7a8ab1fa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 14/61] fix: reject column values that overflow a 32-bit float

---
 sequel/encoding/float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..857324d 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %v overflows %T`, vi, val)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
-- 
2.43.0


From c3af899afc2b31cc53ab9ec5743de0738d4a4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:10 +0000
Subject: [PATCH 15/61] fix: scan text and scanner values into a new pointee

---
 sequel/encoding/pointer.go | 22 ++++++++++++----------
 sequel/encoding/text.go    |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index c731a78..04c7f7b 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,19 +26,21 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
-	if v != nil && *p.v == nil {
-		// There is no value to scan into yet.
-		val := Ptr(new(T))
-		if err := (&addrOfPtr[T, Ptr, *Ptr]{v: &val}).Scan(v); err != nil {
-			return err
-		}
-		*(*Ptr)(unsafe.Pointer(p.v)) = val
+	if v == nil {
+		*(*Ptr)(unsafe.Pointer(p.v)) = nil
 		return nil
 	}
+	// The current value may belong to an earlier row.
+	val := Ptr(new(T))
+	if err := (&addrOfPtr[T, Ptr, *Ptr]{v: &val}).scan(v); err != nil {
+		return err
+	}
+	*(*Ptr)(unsafe.Pointer(p.v)) = val
+	return nil
+}
+
+func (p *addrOfPtr[T, Ptr, Addr]) scan(v any) error {
 	switch vt := v.(type) {
-	case nil:
-		*(*Ptr)(unsafe.Pointer(p.v)) = nil
-		return nil
 	case string:
 		switch vi := any(*p.v).(type) {
 		case sql.Scanner:
diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index c921d19..5815d9c 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -37,8 +37,8 @@ func TextScanner[T any, Ptr interface {
 }
 
 func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
-	if p, ok := any(t.v).(**T); ok && v != nil && *p == nil {
-		// There is no value to scan into yet.
+	if p, ok := any(t.v).(**T); ok && v != nil {
+		// The current value may belong to an earlier row.
 		val := new(T)
 		if err := (&textScanner[T, Ptr, *T]{v: val}).Scan(v); err != nil {
 			return err
-- 
2.43.0


From e1b90920a30d461de3fc29dfbafc25c39edc7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 16/61] fix: insert the columns that have values when inserting
 several records

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..e7f29bb 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -78,13 +78,11 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -95,9 +93,7 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -149,13 +145,11 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -167,9 +161,7 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -1544,6 +1536,14 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns which the values of the model belong to.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	return model.Columns()
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From 3ab4a3b4b9974e1034b493304e2625aaac1ca249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:26 +0000
Subject: [PATCH 17/61] fix: report an error that ends a result set early

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index e7f29bb..40aeac7 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -109,6 +109,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
@@ -133,6 +136,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -434,6 +440,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -947,6 +956,10 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				data = append(data, v)
 			}
 			rows.Close()
+			if err := rows.Err(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1110,6 +1123,10 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				data = append(data, v)
 			}
 			rows.Close()
+			if err := rows.Err(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1212,6 +1229,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 53897d0db956bd5543f8b5b20de44bddaaea5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 18/61] fix: number the key placeholder after the updated
 columns

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..9a981ca 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -628,11 +628,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0


From 64b3aaf8c469f1ac6e7643aecbbe7c85c1606d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 19/61] fix: pass the column values and each key once when
 updating by key

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 40aeac7..1a8acd6 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -679,7 +679,7 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		values := model.Values()
 		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
 		{{ if isStaticVar -}}
-		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
+		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", values...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
@@ -688,8 +688,8 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
-		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
+		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 1)+ ";")
+		return db.ExecContext(ctx, stmt.String(), values...)
 		{{ end -}}
 	case sequel.CompositeKeyer:
 		columns := model.Columns()
@@ -702,6 +702,7 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		}
 		noOfColumn := len(columns)
 		args := make([]any, 0, noOfColumn+len(keys))
+		args = append(args, values...)
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
 		return db.ExecContext(ctx, query, append(args, keys...)...)
@@ -715,10 +716,9 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
 		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
 		{{ end -}}
 	default:
-- 
2.43.0


From a8f4793c4a5c43fafa8a7f2bffe9b3dabd622a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 20/61] fix: skip an update by key that has no column to set

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 1a8acd6..b20ff44 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -676,6 +676,9 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		pkName, pkIdx, pk := v.PK()
 		columns := model.Columns()
 		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
+		if len(columns) == 0 {
+			return new(sequel.EmptyResult), nil
+		}
 		values := model.Values()
 		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
 		{{ if isStaticVar -}}
@@ -701,6 +704,9 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
 		}
 		noOfColumn := len(columns)
+		if noOfColumn == 0 {
+			return new(sequel.EmptyResult), nil
+		}
 		args := make([]any, 0, noOfColumn+len(keys))
 		args = append(args, values...)
 		{{ if isStaticVar -}}
-- 
2.43.0


From 82d2b4b9558a25363b67cda0ae539d4541cb2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 21/61] fix: upsert the columns that have values

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 29 +++++++++-----------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index b20ff44..9490bdc 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -236,7 +236,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		values   = model.Values()
 	)
@@ -244,10 +244,8 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
@@ -322,7 +320,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -335,9 +333,8 @@ func Upsert[T interface {
 	var stmt = strpool.AcquireString()
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		
@@ -347,9 +344,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -408,7 +403,6 @@ func Upsert[T interface {
 		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 		}
-		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -452,7 +446,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -500,7 +494,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
 		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -544,7 +538,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -553,10 +547,9 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
 		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
@@ -569,9 +562,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
-- 
2.43.0


From e0cafd518b9161faee183daec05e9c7bc6c93bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 22/61] fix: list the columns to update when upserting a
 composite key

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9490bdc..8edae0f 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -493,30 +493,28 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		}
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
+		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
-				dict[omittedFields[i]] = struct{}{}
+			for _, name := range append(names, omittedFields...) {
+				dict[name] = struct{}{}
 			}
 			noOfCols := len(columns)
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
+				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+				} else {
+					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				first = false
 			}
 			clear(dict)
 		}
@@ -594,11 +592,9 @@ func Upsert[T interface {
 			}
 			args = append(args, data[i].Values()...)
 		}
-		_, idxs, _ := v.CompositeKey()
+		names, _, _ := v.CompositeKey()
 		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
+		omittedFields = append(omittedFields, names...)
 	}
 	if override {
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-- 
2.43.0


From 8c7c320b4c83ffbdb56e7e4e5f82a318e1fe4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 23/61] fix: upsert on sqlite with a conflict clause

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 58 +++++++++++++++++---------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 8edae0f..11efcc2 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -448,23 +448,23 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		pkName, idx, _ := v.PK()
 		columns := insertColumns(model)
 		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			stmt.WriteString("{{ if eq driver "sqlite" }}INSERT OR IGNORE{{ else }}INSERT IGNORE{{ end }} INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") " + onDuplicateKey(pkName))
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(setDuplicate(columns[i]))
 				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(","+ setDuplicate(columns[i]))
 				}
 				first = false
 			}
@@ -496,23 +496,23 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			stmt.WriteString("{{ if eq driver "sqlite" }}INSERT OR IGNORE{{ else }}INSERT IGNORE{{ end }} INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			dict := make(map[string]struct{})
 			for _, name := range append(names, omittedFields...) {
 				dict[name] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") " + onDuplicateKey(names...))
 			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(setDuplicate(columns[i]))
 				} else {
-					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString("," + setDuplicate(columns[i]))
 				}
 				first = false
 			}
@@ -543,15 +543,16 @@ func Upsert[T interface {
 
 	var stmt = strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
+	var keyNames []string
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
 		pkName, _, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
+		keyNames = []string{pkName}
 		// Don't include auto increment primary key on INSERT
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("{{ if eq driver "sqlite" }}INSERT OR IGNORE{{ else }}INSERT IGNORE{{ end }} INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -564,11 +565,11 @@ func Upsert[T interface {
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
+		keyNames = []string{pkName}
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("{{ if eq driver "sqlite" }}INSERT OR IGNORE{{ else }}INSERT IGNORE{{ end }} INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -582,7 +583,7 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("{{ if eq driver "sqlite" }}INSERT OR IGNORE{{ else }}INSERT IGNORE{{ end }} INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -592,14 +593,15 @@ func Upsert[T interface {
 			}
 			args = append(args, data[i].Values()...)
 		}
-		names, _, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		omittedFields = append(omittedFields, names...)
+		keyNames, _, _ = v.CompositeKey()
 	}
 	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+		stmt.WriteString(" " + onDuplicateKey(keyNames...))
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
+		for i := range keyNames {
+			omitDict[keyNames[i]] = struct{}{}
+		}
 		for i := range omittedFields {
 			omitDict[omittedFields[i]] = struct{}{}
 		}
@@ -610,9 +612,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(setDuplicate(columns[i]))
 			} else {
-				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(","+ setDuplicate(columns[i]))
 			}
 			first = false
 		}
@@ -621,6 +623,24 @@ func Upsert[T interface {
 	stmt.WriteByte(';')
 	return db.ExecContext(ctx, stmt.String(), args...)
 }
+
+// onDuplicateKey begins the clause which updates the record having the same key.
+func onDuplicateKey(keyNames ...string) string {
+	{{ if eq driver "sqlite" -}}
+	return "ON CONFLICT(" + strings.Join(keyNames, ",") + ") DO UPDATE SET "
+	{{ else -}}
+	return "ON DUPLICATE KEY UPDATE "
+	{{ end -}}
+}
+
+// setDuplicate sets the column of the record having the same key.
+func setDuplicate(column string) string {
+	{{ if eq driver "sqlite" -}}
+	return column + " = excluded." + column
+	{{ else -}}
+	return column + " =VALUES(" + column + ")"
+	{{ end -}}
+}
 {{ end }}
 
 // FindByPK is to find single record using primary key.
-- 
2.43.0


From 2a4b4864d356a6f016ed8b85d642a63fe3af8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 24/61] fix: keep the key of a record an upsert has ignored

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 11efcc2..ee5daf8 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -475,6 +475,14 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			if err != nil {
 				return nil, err
 			}
+			n, err := result.RowsAffected()
+			if err != nil {
+				return nil, err
+			}
+			if n == 0 {
+				// The record is ignored, there is no new key
+				return result, nil
+			}
 			i64, err := result.LastInsertId()
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 36378fb8c1f2514dcb3a86c947a66bc05b702cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 25/61] fix: upsert when there is no column to update

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 38 ++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index ee5daf8..90b8716 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -260,24 +260,26 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 		panic("unreachable")
 	}
 	stmt.WriteString(model.InsertPlaceholders(0))
+	var conflictKeys []string
 	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
+		conflictKeys = opt.duplicateKeys
 	} else {
 		switch vi := any(model).(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
 			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
+			conflictKeys = keys
 		case sequel.PrimaryKeyer:
 			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
+			conflictKeys = []string{pkName}
 		case sequel.CompositeKeyer:
 			names, _, _ := vi.CompositeKey()
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
+			conflictKeys = names
 		default:
 			panic("unreachable")
 		}
 	}
+	stmt.WriteString(" ON CONFLICT(" + strings.Join(conflictKeys, ",") + ")")
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
@@ -302,6 +304,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 			}
 			first = false
 		}
+		if first {
+			// Nothing to update, but the clause requires a column
+			stmt.WriteString(conflictKeys[0] + " = EXCLUDED." + conflictKeys[0])
+		}
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
@@ -373,28 +379,30 @@ func Upsert[T interface {
 	default:
 		panic("unreachable")
 	}
+	var conflictKeys []string
 	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
+		conflictKeys = opt.duplicateKeys
 	} else {
 		switch vi := any(model).(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
 			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
+			conflictKeys = keys
 		case sequel.PrimaryKeyer:
 			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
+			conflictKeys = []string{pkName}
 		case sequel.CompositeKeyer:
 			names, _, _ := vi.CompositeKey()
 			// // Exclude primary key, don't update it
 			// for i := len(idxs) - 1; i >= 0; i-- {
 			// 	columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
 			// }
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
+			conflictKeys = names
 		default:
 			panic("unreachable")
 		}
 	}
+	stmt.WriteString(" ON CONFLICT(" + strings.Join(conflictKeys, ",") + ")")
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
@@ -418,6 +426,10 @@ func Upsert[T interface {
 			}
 			first = false
 		}
+		if first {
+			// Nothing to update, but the clause requires a column
+			stmt.WriteString(conflictKeys[0] + " = EXCLUDED." + conflictKeys[0])
+		}
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
@@ -468,6 +480,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				}
 				first = false
 			}
+			if first {
+				// Nothing to update, but the clause requires a column
+				stmt.WriteString(pkName + " = " + pkName)
+			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
@@ -524,6 +540,9 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				}
 				first = false
 			}
+			if first {
+				stmt.WriteString(names[0] + " = " + names[0])
+			}
 			clear(dict)
 		}
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
@@ -626,6 +645,9 @@ func Upsert[T interface {
 			}
 			first = false
 		}
+		if first {
+			stmt.WriteString(keyNames[0] + " = " + keyNames[0])
+		}
 		clear(omitDict)
 	}
 	stmt.WriteByte(';')
-- 
2.43.0


From dd6c2dd09f99e2be11cb446c8d359b18e40ff1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 26/61] fix: fill no record from the row of another when an
 upsert does nothing

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 90b8716..f984008 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -440,8 +440,13 @@ func Upsert[T interface {
 	}
 	defer rows.Close()
 	var i int64
+	stored := data
+	if opt.doNothing {
+		// The database returns no row for the records it leaves out
+		stored = append([]T(nil), data...)
+	}
 	for rows.Next() {
-		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
+		if err := rows.Scan(Ptr(&stored[i]).Addrs()...); err != nil {
 			return nil, err
 		}
 		i++
@@ -449,6 +454,9 @@ func Upsert[T interface {
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
+	if opt.doNothing && i == int64(noOfData) {
+		copy(data, stored)
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
-- 
2.43.0


From eb33d8060324f89140ba3ba231866e82fd9f4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 27/61] fix: set the key after an upsert without touching other
 fields

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index f984008..935d518 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -511,6 +511,9 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			if err != nil {
 				return nil, err
 			}
+			if v, ok := any(model).(autoIncrKeyInserter); ok {
+				return result, v.ScanAutoIncr(i64)
+			}
 			switch v := model.Addrs()[idx].(type) {
 			case *int64:
 				*v = i64
-- 
2.43.0


From 65c85be53070b1a539e06b59722dc02a8d46016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 28/61] fix: write a limit before an offset where it is
 required

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 935d518..ca8f4da 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1264,6 +1264,12 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
 	}
+	{{ if ne driver "postgres" -}}
+	{{- /* OFFSET must follow LIMIT */ -}}
+	if stmt.Limit == 0 && stmt.Offset > 0 {
+		blr.WriteString(" LIMIT {{ if eq driver "sqlite" }}-1{{ else }}18446744073709551615{{ end }}")
+	}
+	{{ end -}}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
-- 
2.43.0


From b3905f895e2f94a604a7ee25bf9a3c6a193a8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 29/61] fix: accept an empty list in the In and NotIn clauses

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..41e6306 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -56,6 +56,11 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			// No value is in an empty list
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -77,6 +82,10 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-- 
2.43.0


From 9278be573345beea78bf80c2a6e23c2255368731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 30/61] fix: leave the order out of postgres updates and
 deletes

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index ca8f4da..dabc12d 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1412,6 +1412,8 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" WHERE ")
 			vi.Where(blr)
 		}
+		{{ if ne driver "postgres" -}}
+		{{- /* postgres has neither */ -}}
 		if n := len(vi.OrderBy); n > 0 {
 			if vi.OrderBy[0].Asc() {
 				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
@@ -1426,8 +1428,6 @@ func ExecStmt[T any, Stmt interface {
 				}
 			}
 		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
 		if vi.Limit > 0 {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
@@ -1443,6 +1443,8 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" WHERE ")
 			vi.Where(blr)
 		}
+		{{ if ne driver "postgres" -}}
+		{{- /* postgres has neither */ -}}
 		if n := len(vi.OrderBy); n > 0 {
 			if vi.OrderBy[0].Asc() {
 				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
@@ -1457,8 +1459,6 @@ func ExecStmt[T any, Stmt interface {
 				}
 			}
 		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
 		if vi.Limit > 0 {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
-- 
2.43.0


From e50b597734a77277856420d84ddb27deb0445078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 31/61] fix: execute a statement on the table it names

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index dabc12d..32fd6ef 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1395,7 +1395,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -1434,7 +1434,7 @@ func ExecStmt[T any, Stmt interface {
 		{{ end -}}
 
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
-- 
2.43.0


From c499238d8f85c9e1f5cbaaf7e31f5c8405566d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 32/61] fix: page with complete conditions and in one order

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 324 +++++++------------------
 1 file changed, 87 insertions(+), 237 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 32fd6ef..e05ba05 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -879,12 +879,22 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev pages backward, against the order, beginning with the cursor or with the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, true, cursor...)
+}
+
+// Next pages forward, along the order, beginning with the cursor or with the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, false, cursor...)
+}
+
+func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, reverse bool, cursor ...T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
 			v         T
 			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			maxLimit  = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
 			v = cursor[0]
@@ -901,263 +911,64 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-			
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			columns, values, err := r.sortKeys(v, reverse)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-			if err := rows.Err(); err != nil {
-				yield(nil, err)
-				return
-			}
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
-			}
-
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
-		}
-	}
-}
-
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
 
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
+			if hasCursor {
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
-
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
+				// The records after the cursor in the first column, or equal in it and
+				// after the cursor in the second column, and so on
+				blr.WriteByte('(')
+				for i := range columns {
+					operator := " > "
+					if !columns[i].Asc() {
+						operator = " < "
 					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
+					if i == len(columns)-1 {
+						// The page begins with the cursor itself
+						operator = operator[:2] + "= "
 					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
 					if i > 0 {
-						blr.WriteString(" OR ")
+						blr.WriteString(" OR (")
+						for j := 0; j < i; j++ {
+							blr.WriteString(columns[j].ColumnName() + " = " + blr.Var(values[j]) + " AND ")
+						}
 					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
+					blr.WriteString(columns[i].ColumnName() + operator + blr.Var(values[i]))
+					if i > 0 {
+						blr.WriteByte(')')
 					}
 				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
+				blr.WriteByte(')')
 			}
 
 			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
+			for i := range columns {
+				if i > 0 {
+					blr.WriteByte(',')
 				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
+				if columns[i].Asc() {
+					blr.WriteString(columns[i].ColumnName() + " ASC")
+				} else {
+					blr.WriteString(columns[i].ColumnName() + " DESC")
 				}
 			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa(maxLimit+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -1166,7 +977,7 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, maxLimit+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -1183,7 +994,7 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 			}
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
+			if noOfRecord <= maxLimit {
 				if !yield(data, nil) {
 					return
 				}
@@ -1201,6 +1012,45 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 	}
 }
 
+// sortKeys returns the columns by which the records are sorted, the primary key at last, and their values.
+func (r *Pager[T, Ptr]) sortKeys(v T, reverse bool) ([]sequel.OrderByClause, []any, error) {
+	dict := make(map[string]any)
+	vals := v.Values()
+	for i, name := range insertColumns(v) {
+		dict[name] = vals[i]
+	}
+	asc := true
+	if n := len(r.stmt.OrderBy); n > 0 {
+		asc = r.stmt.OrderBy[n-1].Asc()
+	}
+	orderBy := append([]sequel.OrderByClause(nil), r.stmt.OrderBy...)
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		pkNames, _, pks := vi.CompositeKey()
+		for i := range pkNames {
+			dict[pkNames[i]] = pks[i]
+			orderBy = append(orderBy, sequel.OrderByColumn(pkNames[i], asc))
+		}
+	case sequel.PrimaryKeyer:
+		pkName, _, pk := vi.PK()
+		dict[pkName] = pk
+		orderBy = append(orderBy, sequel.OrderByColumn(pkName, asc))
+	default:
+		panic("unreachable")
+	}
+	values := make([]any, len(orderBy))
+	for i := range orderBy {
+		name := orderBy[i].ColumnName()
+		val, ok := dict[name]
+		if !ok {
+			return nil, nil, fmt.Errorf("sqlgen: unable to paginate by column %s", name)
+		}
+		values[i] = val
+		orderBy[i] = sequel.OrderByColumn(name, orderBy[i].Asc() != reverse)
+	}
+	return orderBy, values, nil
+}
+
 type SelectStmt struct {
 	Select    []string
 	FromTable string
-- 
2.43.0


From f85b83098c904ca4d7699c9b4b44da282371896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 33/61] fix: name the database in the generated statements

---
 cmd/sqlgen/codegen/generate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 9a981ca..cd07b91 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -490,6 +490,9 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 	var query string
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	} else if missing, isWrongType := t.Implements(sqlDatabaser); missing == nil && !isWrongType {
+		query = g.Quote(buf.String()) + "+ v.DatabaseName() + \".\" + v.TableName() +"
+		buf.Reset()
 	} else if method != nil {
 		buf.WriteString(g.MustQuoteIdentifier(t.Name))
 	} else {
@@ -544,6 +547,8 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 	buf := strpool.AcquireString()
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	} else if missing, isWrongType := t.Implements(sqlDatabaser); missing == nil && !isWrongType {
+		query = g.Quote("INSERT INTO ") + "+ v.DatabaseName() + \".\" + v.TableName() +"
 	} else if method != nil {
 		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
 	} else {
@@ -609,6 +614,8 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	var query string
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	} else if missing, isWrongType := t.Implements(sqlDatabaser); missing == nil && !isWrongType {
+		query = g.Quote("UPDATE ") + "+ v.DatabaseName() + \".\" + v.TableName() +"
 	} else if method != nil {
 		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
 	} else {
-- 
2.43.0


From 9877a99ff7ed492bb9cd3e2784092ef5595eebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 34/61] fix: quote the identifiers of composite keys like those
 of single keys

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index cd07b91..dcff9f0 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -388,7 +388,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
-- 
2.43.0


From 0ba468f24fdef79a282ffa9eb3e9fe3396e93e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 35/61] fix: look through pointers to named types for their
 column type

---
 cmd/sqlgen/codegen/tool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..8cf2bd2 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -48,7 +48,8 @@ loop:
 		default:
 			break loop
 		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
+		// "*" alone is the default and not a pointer
+		if v, ok := g.defaultColumnTypes[typeStr]; ok && typeStr != "*" {
 			return v, true
 		}
 		if prev == t {
-- 
2.43.0


From ec1e1ae2940cc68c4179142e3104ddee870257f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 36/61] fix: read NULL into pointers to bytes, and raw bytes on
 postgres

---
 cmd/sqlgen/codegen/dialect/mysql/column_type.go    | 2 +-
 cmd/sqlgen/codegen/dialect/postgres/column_type.go | 4 ++--
 cmd/sqlgen/codegen/dialect/sqlite/column_type.go   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..599c0ac 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -23,7 +23,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[byte, *byte], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..2895aa5 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -24,7 +24,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[byte, *byte], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
@@ -154,7 +154,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.StringScanner[[]byte, *[]byte], "{{baseType}}", "{{addr}}"),
 		},
 		"[]bool": {
 			DataType: s.columnDataType("bool[]"),
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..208c720 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -23,7 +23,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[byte, *byte], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: s.columnDataType("TEXT", ""),
-- 
2.43.0


From 60491a41c43fce785ea2e5d9d39c4ddcf5ea9695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 37/61] fix: generate code that compiles for rune slices and
 byte string lists on postgres

---
 .../codegen/dialect/postgres/column_type.go   | 20 -------------------
 1 file changed, 20 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 2895aa5..101e076 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -131,26 +131,11 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Valuer:  "{{goPath}}[:]",
 			Scanner: goutil.GenericFunc(encoding.ByteArrayScanner[byte], "{{goPath}}[:]", "{{len}}"),
 		},
-		"[...]string": {
-			DataType: s.columnDataType("text[{{len}}]"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-		},
-		"[...]bool": {
-			DataType: s.columnDataType("bool[{{len}}]"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}])({{addrOfGoPath}}[:])",
-		},
 		"[]string": {
 			DataType: s.columnDataType("text[]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.StringArray[string]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
-		"[]rune": {
-			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
-		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
@@ -161,11 +146,6 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Valuer:   "(" + goutil.GetTypeName(pgtype.BoolArray[bool]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.BoolArray[bool]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
-		"[][]byte": {
-			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-		},
 		"[]int": {
 			DataType: s.columnDataType("int4[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.IntArray[int]{}) + "[{{elemType}}])({{goPath}})",
-- 
2.43.0


From 67f96ef072e36daf9700696d840dc4c0d42443ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 38/61] fix: read tag options in any case, as documented

---
 cmd/sqlgen/internal/compiler/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/tag.go b/cmd/sqlgen/internal/compiler/tag.go
index af3bfa8..a18559f 100644
--- a/cmd/sqlgen/internal/compiler/tag.go
+++ b/cmd/sqlgen/internal/compiler/tag.go
@@ -37,7 +37,7 @@ func parseTag(tagVal []string) *structTag {
 			continue
 		}
 		paths := strings.SplitN(v, ":", 2)
-		tag.pos[paths[0]] = 0
+		tag.pos[strings.ToLower(paths[0])] = 0
 	}
 	return &tag
 }
-- 
2.43.0


From 37f7843326d69e2add61f6878f6116cecd61bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 39/61] fix: read the annotations of a struct that embeds
 another

---
 cmd/sqlgen/internal/compiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..12406f7 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -356,7 +356,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
-- 
2.43.0


From 270d7fab58c08b1a79c20ed2486dde4414fe7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 40/61] fix: go on with the types of a group after one that is
 no struct

---
 cmd/sqlgen/internal/compiler/parser.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 12406f7..a9a0c0b 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -132,8 +132,6 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
 					}
 
-				default:
-					return true
 				}
 			}
 			return true
-- 
2.43.0


From 711e6cf731afa519125e83359da27dfb458df851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 41/61] fix: leave out the fields of an embedded struct which
 is left out

---
 cmd/sqlgen/internal/compiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index a9a0c0b..ec51afe 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -183,6 +183,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}))
 				}
 
+				// Leave out embedded struct together with its fields
+				if n, _, _ := strings.Cut(tag.Get(cfg.Tag), ","); fi.Names == nil && strings.TrimSpace(n) == "-" {
+					continue
+				}
+
 				// If the field is embedded struct
 				// `Type` can be either *ast.Ident or *ast.SelectorExpr
 				if fi.Names == nil {
-- 
2.43.0


From b347d953a6714dfc2c65fa211a05e97fb66bfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 42/61] fix: refuse pointers of pointers only where they become
 columns

---
 cmd/sqlgen/internal/compiler/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index ec51afe..9c1aee2 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -377,10 +377,6 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		}
 
 		for _, f := range structFields {
-			if ptrCount(f.t) > 1 {
-				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
-			}
-
 			var tagPaths []string
 			tagVal := f.tag.Get(cfg.Tag)
 			name := cfg.RenameFunc(f.name)
@@ -419,6 +415,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			if f.embedded {
 				continue
 			}
+			if ptrCount(f.t) > 1 {
+				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			}
 
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
-- 
2.43.0


From 1c45cb911aebe1c0b49dbb567ee04794f8ffc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 43/61] fix: keep columns in the order of the fields

---
 cmd/sqlgen/internal/compiler/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 9c1aee2..efa52b2 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 
@@ -225,7 +226,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
+								index: append(slices.Clip(f.idx), i),
 								// paths:    append(f.paths, path),
 								exported: vi.IsExported(),
 								embedded: true,
@@ -235,7 +236,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  append(slices.Clip(f.idx), i),
 								prev: ft,
 								t:    t.Type.(*ast.StructType),
 								pkg:  f.pkg,
@@ -277,7 +278,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
+								index:    append(slices.Clip(f.idx), i),
 								exported: vi.Sel.IsExported(),
 								embedded: true,
 								parent:   f.prev,
@@ -285,7 +286,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  append(slices.Clip(f.idx), i),
 								t:    st,
 								prev: ft,
 								pkg:  importPkg,
@@ -324,7 +325,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
 						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
+						index:    append(slices.Clip(f.idx), i, j),
 						exported: n.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
-- 
2.43.0


From 946ac3b7ea648afd69ce3860e603f2a3a00a0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 44/61] fix: keep the name of the table when its field gives
 none

---
 cmd/sqlgen/internal/compiler/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index efa52b2..4177136 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -379,6 +379,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		for _, f := range structFields {
 			var tagPaths []string
+			var tagName string
 			tagVal := f.tag.Get(cfg.Tag)
 			name := cfg.RenameFunc(f.name)
 			if tagVal != "" {
@@ -392,7 +393,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						if !nameRegex.MatchString(n) {
 							return nil, fmt.Errorf(`sqlgen: invalid column name %q in struct %q`, n, s.name)
 						}
-						name = n
+						name, tagName = n, n
 					}
 				}
 			}
@@ -403,8 +404,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			//
 			// Check type is sequel.Name, then override name
 			case tableTypeName:
-				if name != "" {
-					table.Name = name
+				if tagName != "" {
+					table.Name = tagName
 				}
 				continue
 			}
-- 
2.43.0


From a58ff3f999c7169455c38f2edf390567b3426cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 45/61] fix: keep the letters beyond ASCII in camel and pascal
 case names

---
 cmd/sqlgen/internal/strfmt/strfmt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..1f3c0ab 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -1,6 +1,9 @@
 package strfmt
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf8"
+)
 
 var uppercaseAcronym = map[string]string{
 	"ID": "id",
@@ -40,7 +43,7 @@ func toCamelInitCase(s string, initCase bool) string {
 		}
 		prevIsCap = vIsCap
 
-		if vIsCap || vIsLow {
+		if vIsCap || vIsLow || v >= utf8.RuneSelf {
 			n.WriteByte(v)
 			capNext = false
 		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
-- 
2.43.0


From da2b156b4d307357ce2f32aaf416ddb2a0d9a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 46/61] fix: find sources relative to the parent directory or
 in a hidden one

---
 cmd/sqlgen/codegen/codegen.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..2cd9afc 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -76,9 +76,6 @@ func Generate(c *Config) error {
 
 		if srcDir == "." {
 			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
 		} else if srcDir[0] != '/' {
 			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
 		}
-- 
2.43.0


From f5638204dc0fcc2919aac7effeb79bf8beae91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:15 +0000
Subject: [PATCH 47/61] fix: find the directory of a file wildcard whatever its
 name

---
 cmd/sqlgen/codegen/codegen.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 2cd9afc..cac28e8 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -92,11 +92,9 @@ func Generate(c *Config) error {
 		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
 		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
 		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
+			rootDir string
+			matcher Matcher = new(EmptyMatcher)
+			dirs            = make([]string, 0)
 		)
 
 		if strings.Contains(srcDir, "**") {
@@ -118,8 +116,8 @@ func Generate(c *Config) error {
 				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
 			}
 			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
+		} else if strings.Contains(filepath.Base(srcDir), "*") {
+			rootDir = filepath.Dir(srcDir)
 			dirs = append(dirs, "")
 			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
 			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
-- 
2.43.0


From 88515a06ae7572d3d3ba3b180967c4bb64317725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:48 +0000
Subject: [PATCH 48/61] fix: match the files a source pattern names, in
 directories of any name

---
 cmd/sqlgen/codegen/codegen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index cac28e8..3e10424 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -30,7 +30,10 @@ var (
 	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
 	path2Regex = strings.NewReplacer(
 		`.`, `\.`,
-		`*`, `.*`,
+		`**`, `.*`,
+		`*`, `[^\\/]*`,
+		`+`, `\+`, `?`, `\?`, `^`, `\^`, `$`, `\$`, `|`, `\|`,
+		`(`, `\(`, `)`, `\)`, `[`, `\[`, `]`, `\]`, `{`, `\{`, `}`, `\}`,
 		`\`, `[\\/]`,
 		`/`, `[\\/]`,
 	)
@@ -115,12 +118,12 @@ func Generate(c *Config) error {
 			}); err != nil {
 				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
 			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
+			matcher = &RegexMatcher{regexp.MustCompile(`^` + path2Regex.Replace(rootDir) + `([\\/][^\\/]+)*` + suffix + `$`)}
 		} else if strings.Contains(filepath.Base(srcDir), "*") {
 			rootDir = filepath.Dir(srcDir)
 			dirs = append(dirs, "")
 			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
+			matcher = &RegexMatcher{regexp.MustCompile(`^` + path2Regex.Replace(srcDir) + `$`)}
 		} else {
 			fi, err := os.Stat(srcDir)
 			// If the file or folder not exists, we skip!
-- 
2.43.0


From 9af2fd490b289d2de98f78f94bccd613ea041e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:50 +0000
Subject: [PATCH 49/61] fix: clean absolute sources

---
 cmd/sqlgen/codegen/codegen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 3e10424..d3a4f40 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -81,6 +81,8 @@ func Generate(c *Config) error {
 			srcDir = fileutil.Getpwd()
 		} else if srcDir[0] != '/' {
 			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
+		} else {
+			srcDir = filepath.Clean(srcDir)
 		}
 
 		// If suffix is *, we will add go extension to it
-- 
2.43.0


From 6f8ffebafdaba8e4f89adb480b5bed112dda1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:31 +0000
Subject: [PATCH 50/61] fix: generate the code of every source of a directory

---
 cmd/sqlgen/codegen/codegen.go      | 21 +++++++++++++++++----
 cmd/sqlgen/codegen/path_matcher.go | 12 ++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index d3a4f40..833d8e7 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -65,8 +65,10 @@ func Generate(c *Config) error {
 	}
 
 	var (
-		srcDir  string
-		sources = make([]string, 0, len(cfg.Source))
+		srcDir   string
+		sources  = make([]string, 0, len(cfg.Source))
+		pkgDirs  []string
+		matchers = make(map[string]AnyMatcher)
 	)
 	sources = append(sources, cfg.Source...)
 
@@ -148,14 +150,25 @@ func Generate(c *Config) error {
 			dirs = append(dirs, "")
 		}
 
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
-			return err
+		for _, dir := range dirs {
+			dir = path.Join(rootDir, dir)
+			if _, ok := matchers[dir]; !ok {
+				pkgDirs = append(pkgDirs, dir)
+			}
+			matchers[dir] = append(matchers[dir], matcher)
 		}
 
 	nextSrc:
 		sources = sources[1:]
 	}
 
+	// The sources of a directory share its generated file
+	for _, dir := range pkgDirs {
+		if err := parseGoPackage(generator, dir, []string{""}, matchers[dir]); err != nil {
+			return err
+		}
+	}
+
 	if cfg.Database != nil {
 		// Generate db code
 		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..f65715a 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -35,3 +35,15 @@ type RegexMatcher struct {
 func (r *RegexMatcher) Match(v string) bool {
 	return r.MatchString(v)
 }
+
+// AnyMatcher matches what any of its matchers does
+type AnyMatcher []Matcher
+
+func (a AnyMatcher) Match(v string) bool {
+	for _, m := range a {
+		if m.Match(v) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 8acaebbf3fee2213004cf69e52fca3f90759fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:17 +0000
Subject: [PATCH 51/61] fix: generate code for named array and slice fields

---
 cmd/sqlgen/codegen/expr.go | 6 ++++++
 cmd/sqlgen/codegen/tool.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..030ca0a 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -62,6 +62,12 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			case *types.Pointer:
 				return importPkgIfNeeded(pkg, t.Elem().String())
 			default:
+				// A named slice of basic values, such as `type Tags []string`
+				if s, ok := t.Underlying().(*types.Slice); ok {
+					if _, ok := s.Elem().Underlying().(*types.Basic); ok {
+						return importPkgIfNeeded(pkg, s.Elem().String())
+					}
+				}
 				return importPkgIfNeeded(pkg, params.Type.String())
 			}
 		},
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 8cf2bd2..5047b18 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -85,7 +85,7 @@ func assertAsPtr[T any](v any) *T {
 
 func arraySize(t types.Type) int64 {
 	for t != nil {
-		switch vt := t.(type) {
+		switch vt := t.Underlying().(type) {
 		case *types.Pointer:
 			t = vt.Elem()
 		case *types.Array:
-- 
2.43.0


From bbc0a32e573b6ebf5b66d360600dc02a1e306cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 52/61] fix: accept a configuration file without options

---
 cmd/sqlgen/codegen/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..1efd10e 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,8 @@
 package codegen
 
 import (
+	"errors"
+	"io"
 	"maps"
 	"os"
 	"path/filepath"
@@ -287,7 +289,8 @@ func decodeToFile(src string, cfg *Config) error {
 	}
 	defer f.Close()
 	dec := yaml.NewDecoder(f)
-	if err := dec.Decode(cfg); err != nil {
+	// A file without any option leaves every default
+	if err := dec.Decode(cfg); err != nil && !errors.Is(err, io.EOF) {
 		return err
 	}
 	return nil
-- 
2.43.0


From a3040224e4ce087e3b1183ca571d1f17ab6e2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 53/61] fix: remove the operator file from its own directory
 only

---
 cmd/sqlgen/codegen/codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 833d8e7..848680b 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -185,7 +185,7 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
+		_ = syscall.Unlink(filepath.Join(cfg.Database.Operator.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
-- 
2.43.0


From b5e4aee101d6da10c2c48989579d9ef34e427279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 54/61] fix: merge the options of the database one by one

---
 cmd/sqlgen/codegen/config.go | 58 ++++++++++++++++++++++++++----------
 cmd/sqlgen/codegen/init.go   |  1 +
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 1efd10e..1a3e098 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -118,8 +118,7 @@ func (c *Config) Init() {
 	c.Database.Dir = "db"
 	c.Database.Filename = "db.go"
 	c.Database.Operator = new(DatabaseOperatorConfig)
-	c.Database.Operator.Package = c.Database.Package
-	c.Database.Operator.Dir = c.Database.Dir
+	// The package and directory of the operators are those of the database unless they are set, see initIfEmpty
 	c.Database.Operator.Filename = "operator.go"
 	c.DataTypes = make(map[string]*DataType)
 }
@@ -143,6 +142,10 @@ func (c *Config) initIfEmpty() {
 	if c.Exec.Filename == "" {
 		c.Exec.Filename = DefaultGeneratedFile
 	}
+	if c.Strict == nil {
+		strict := true
+		c.Strict = &strict
+	}
 
 	if c.Database == nil {
 		c.Database = new(DatabaseConfig)
@@ -212,19 +215,7 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.Exec.Filename = mapCfg.Exec.Filename
 	}
 	if mapCfg.Database != nil {
-		c.Database = &DatabaseConfig{
-			Dir:      mapCfg.Database.Dir,
-			Package:  mapCfg.Database.Package,
-			Filename: mapCfg.Database.Filename,
-		}
-
-		if mapCfg.Database.Operator != nil {
-			c.Database.Operator = &DatabaseOperatorConfig{
-				Dir:      mapCfg.Database.Operator.Dir,
-				Package:  mapCfg.Database.Operator.Package,
-				Filename: mapCfg.Database.Operator.Filename,
-			}
-		}
+		c.mergeDatabase(mapCfg.Database)
 	}
 	if mapCfg.SkipHeader {
 		c.SkipHeader = true
@@ -241,12 +232,49 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		}
 	}
 	if mapCfg.DataTypes != nil {
+		if c.DataTypes == nil {
+			c.DataTypes = make(map[string]*DataType)
+		}
 		maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	}
 	c.initIfEmpty()
 	return c
 }
 
+func (c *Config) mergeDatabase(from *DatabaseConfig) {
+	db := DatabaseConfig{}
+	if c.Database != nil {
+		db = *c.Database
+	}
+	if from.Dir != "" {
+		db.Dir = from.Dir
+	}
+	if from.Package != "" {
+		db.Package = from.Package
+	}
+	if from.Filename != "" {
+		db.Filename = from.Filename
+	}
+
+	operator := DatabaseOperatorConfig{}
+	if db.Operator != nil {
+		operator = *db.Operator
+	}
+	if from.Operator != nil {
+		if from.Operator.Dir != "" {
+			operator.Dir = from.Operator.Dir
+		}
+		if from.Operator.Package != "" {
+			operator.Package = from.Operator.Package
+		}
+		if from.Operator.Filename != "" {
+			operator.Filename = from.Operator.Filename
+		}
+	}
+	db.Operator = &operator
+	c.Database = &db
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..3dbf73b 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -16,6 +16,7 @@ import (
 )
 
 func Init(cfg *Config) error {
+	cfg.initIfEmpty()
 	f, err := os.OpenFile(DefaultConfigFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From daf023eae7fea208ae715e28c02fee3e6388ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 55/61] fix: write JSON with the methods of the pointer

---
 sequel/encoding/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..0dac35e 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -27,7 +27,8 @@ func (j jsonValuer[T]) Value() (driver.Value, error) {
 		return vj.MarshalJSON()
 	default:
 		buf := new(bytes.Buffer)
-		if err := json.NewEncoder(buf).Encode(j.v); err != nil {
+		// The address, as methods of the pointer count too
+		if err := json.NewEncoder(buf).Encode(&j.v); err != nil {
 			return nil, err
 		}
 		return buf.Bytes(), nil
-- 
2.43.0


From d0a8aedf74e3b6ffb1d4e7fa513fa889e524094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 56/61] fix: read NULL into types with their own JSON form

---
 sequel/encoding/json.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index 0dac35e..bef79b2 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -46,9 +46,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
-- 
2.43.0


From b18bb314ea5c2de1b51e3bd49d107001c6652f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 57/61] fix: read JSON into a new value and refuse text after
 it

---
 sequel/encoding/json.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index bef79b2..03f09be 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -58,12 +58,22 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.decode([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// decode reads the whole text into a new value, so nothing of the previous value remains.
+func (j *jsonScanner[T, Addr]) decode(b []byte) error {
+	var v T
+	if err := json.Unmarshal(b, &v); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = v
+	return nil
+}
-- 
2.43.0


From 299dfcbf7f058e791ff5096545425d05ba448bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 58/61] fix: write types with the packages they mention

---
 cmd/sqlgen/codegen/expr.go     | 28 ++++++++++++++++++----------
 cmd/sqlgen/codegen/generate.go | 17 ++++-------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index 030ca0a..fd77ab5 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -56,19 +56,19 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 		"elemType": func() string {
 			switch t := params.Type.(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				return typeString(pkg, t.Elem())
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				return typeString(pkg, t.Elem())
 			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				return typeString(pkg, t.Elem())
 			default:
 				// A named slice of basic values, such as `type Tags []string`
 				if s, ok := t.Underlying().(*types.Slice); ok {
 					if _, ok := s.Elem().Underlying().(*types.Basic); ok {
-						return importPkgIfNeeded(pkg, s.Elem().String())
+						return typeString(pkg, s.Elem())
 					}
 				}
-				return importPkgIfNeeded(pkg, params.Type.String())
+				return typeString(pkg, params.Type)
 			}
 		},
 		"addrOfGoPath": func() string {
@@ -86,7 +86,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 				}
 				t = nt.Elem()
 			}
-			return importPkgIfNeeded(pkg, t.String())
+			return typeString(pkg, t)
 		},
 		"addr": func() string {
 			return "&" + params.GoPath
@@ -98,7 +98,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 		}
 	}
 
-	str := string(e)
+	str := importPkgIfNeeded(pkg, string(e))
 	tmpl, err := template.New("expression").Funcs(funcMap).Parse(str)
 	if err != nil {
 		panic(err)
@@ -107,9 +107,17 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	if err := tmpl.Execute(buf, actualGoPath); err != nil {
 		panic(err)
 	}
-	str = buf.String()
-	str = importPkgIfNeeded(pkg, str)
-	return str
+	return buf.String()
+}
+
+// typeString is the type as written in the package, which imports the packages it mentions.
+func typeString(pkg *Package, t types.Type) string {
+	return types.TypeString(t, func(p *types.Package) string {
+		if p, _ := pkg.Import(types.NewPackage(p.Path(), p.Name())); p != nil {
+			return p.Name()
+		}
+		return ""
+	})
 }
 
 func importPkgIfNeeded(pkg *Package, importPath string) string {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index dcff9f0..e2f54df 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -300,10 +300,7 @@ func (g *Generator) generateModels(
 				typeStr = aliasname
 
 			default:
-				typeStr = f.Type.String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr = typeString(importPkgs, f.Type)
 				if isBasic {
 					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
 				} else {
@@ -461,7 +458,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
 	for _, f := range table.GoPtrPaths() {
 		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, Expr(strings.TrimPrefix(f.Type.String(), "*")).Format(importPkgs, ExprParams{}))
+		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, strings.TrimPrefix(typeString(importPkgs, f.Type), "*"))
 		fprintfln(w, "}")
 	}
 	fprintfln(w, "return []any{")
@@ -788,10 +785,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprint(w, f.Name()+" ")
 				printStruct(w, importPkgs, ft)
 			} else {
-				typeStr := f.Type().String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr := typeString(importPkgs, f.Type())
 				fmt.Fprint(w, f.Name()+" "+typeStr)
 				if tag := s.Tag(i); len(tag) > 0 {
 					fmt.Fprintf(w, " `%s`", s.Tag(i))
@@ -799,10 +793,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprintln(w)
 			}
 		default:
-			typeStr := f.Type().String()
-			if idx := strings.Index(typeStr, "."); idx > 0 {
-				typeStr = Expr(typeStr).Format(importPkgs)
-			}
+			typeStr := typeString(importPkgs, f.Type())
 			if f.Embedded() {
 				fmt.Fprint(w, typeStr)
 			} else {
-- 
2.43.0


From 7d6c43e95b753ccb50c08429aeaa1c197baa2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:03 +0000
Subject: [PATCH 59/61] fix: release the buffer of the update statement once

---
 cmd/sqlgen/codegen/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index e2f54df..b058207 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -669,7 +669,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From 9de7920f12246b0dd9c8dd4932c4e8aed1b89a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 60/61] fix: write the values of several records with their SQL
 function

---
 cmd/sqlgen/codegen/generate.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index b058207..dd16fe9 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -235,11 +235,17 @@ func (g *Generator) generateModels(
 					fprintfln(w, "func (%s) InsertPlaceholders(row int) string {", t.GoName)
 					fprintfln(w, "const noOfColumn = %d", len(insertColumns))
 					fmt.Fprint(w, `return "("+`)
-					for i := range insertColumns {
+					for i, f := range insertColumns {
 						if i > 0 {
 							fmt.Fprint(w, `+","+`)
 						}
-						fmt.Fprintf(w, `%q+ strconv.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), i+1)
+						valuer, err := g.sqlValuer(f, i)
+						if err != nil {
+							return err
+						}
+						placeholder := fmt.Sprintf(`%s"+ strconv.Itoa((row * noOfColumn) + %d)+"`, string(g.dialect.VarRune()), i+1)
+						expr := strings.ReplaceAll(strconv.Quote(valuer), g.dialect.QuoteVar(i+1), placeholder)
+						fmt.Fprint(w, strings.TrimSuffix(expr, `+""`))
 					}
 					fmt.Fprint(w, `+")"`)
 					fprintfln(w, "}")
-- 
2.43.0


From bbfe82ac760fdfe767264d8f395ab18b26380fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 61/61] fix: compare a single key with its SQL function

---
 cmd/sqlgen/codegen/generate.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index dd16fe9..45f1fa1 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -504,10 +504,18 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
 			return g.MustQuoteIdentifier(v.Name)
@@ -638,11 +646,19 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0

