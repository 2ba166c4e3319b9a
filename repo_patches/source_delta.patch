From 8f6ee53ad6e8a6492aefd7b8b55b2e9f9244bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:16 +0000
Subject: [PATCH 01/58] fix: insert the line feed of a lone carriage return
 that fills the read buffer

---
 dsio/replacecr/replace_cr.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..94061bc 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,15 +32,24 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// pendingLF is set when a line feed needs to be inserted, but the read that
+	// returned its carriage return had no space left
+	pendingLF bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
 	}
 
+	if c.pendingLF {
+		c.pendingLF = false
+		p[n] = '\n'
+		n++
+	}
+
 	for {
 		if n == lenP {
 			return
@@ -51,12 +60,17 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		// any time we encounter \r check to see if \n follows
+		// if next char is not \n, add it in manually, either now or at the start of
+		// the next read if there's no space left
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				if n < lenP-1 {
+					n++
+					p[n] = '\n'
+				} else {
+					c.pendingLF = true
+				}
 			}
 		}
 
-- 
2.43.0


From 1c77838d14672dc5049675494626c07638b5d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:06 +0000
Subject: [PATCH 02/58] fix: report an error in the first element of a nested
 JSON array

Only errors of later elements were reported; one in the first element was
dropped, and the array read as empty.
---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..1ebc761 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -452,7 +452,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 7ec8abd0905b0f789d2896300902fe394911bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:46 +0000
Subject: [PATCH 03/58] fix: read JSON integers outside the int64 range as
 floats

A well-formed document holding such a number could not be read at all.
---
 dsio/json.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 1ebc761..dcd969b 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -402,11 +402,16 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
 		if err != nil {
+			if numErr, ok := err.(*strconv.NumError); ok && numErr.Err == strconv.ErrRange {
+				// Too big for an int64, the closest float is the best we can do
+				return strconv.ParseFloat(text, 64)
+			}
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
-- 
2.43.0


From 663e4aad7ec1701d99c54970d9f0c71725066e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:46 +0000
Subject: [PATCH 04/58] fix: read a JSON string whose escape spans two buffers

With a backslash as the last buffered byte and a single further byte to come,
the reader indexed past the end of the buffer.
---
 dsio/json.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index dcd969b..65d6a86 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -359,6 +359,14 @@ func (r *JSONReader) readString() (string, error) {
 				break
 			}
 		}
+		if buff[i] == '\\' && i+1 >= len(buff) {
+			// The escaped character is not buffered yet
+			var more bool
+			buff, more = r.extendBuffer(buff)
+			if !more {
+				break
+			}
+		}
 		if buff[i] == '\\' {
 			// Skip the backslash, which marks an escape sequence. This avoids
 			// ending the string early by mistakingly treating the
-- 
2.43.0


From b66e8c45c418489ccc75af6c51f6886fb5d1cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:46 +0000
Subject: [PATCH 05/58] fix: decode JSON surrogate pairs, and stop at truncated
 escapes

Characters outside the basic plane, which JSON writes as two \\u escapes, were
read as "??", and a \\x or \\u too close to the end of the string panicked.
---
 dsio/json.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 65d6a86..f8e6897 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -302,6 +304,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
+				if s+3 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+3]
 				s += 3
 				bs, err := hex.DecodeString(string(hexChars))
@@ -314,18 +321,32 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
+				if s+5 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
+				num, err := strconv.ParseUint(string(srcBuff[s+1:s+5]), 16, 32)
 				s += 5
-				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
-				if err == nil {
-					for _, b := range []byte(res) {
-						dstBuff[d] = b
-						d++
-					}
-				} else {
+				if err != nil {
 					dstBuff[d] = '?'
 					d++
+					continue
+				}
+				ch := rune(num)
+				if utf16.IsSurrogate(ch) {
+					// Code points outside the basic plane are written as two escapes
+					low := rune(utf8.RuneError)
+					if s+6 <= limit && srcBuff[s] == '\\' && srcBuff[s+1] == 'u' {
+						if num, err := strconv.ParseUint(string(srcBuff[s+2:s+6]), 16, 32); err == nil {
+							low = rune(num)
+						}
+					}
+					if ch = utf16.DecodeRune(ch, low); ch != utf8.RuneError {
+						s += 6
+					}
 				}
+				d += utf8.EncodeRune(dstBuff[d:], ch)
 				continue
 			} else {
 				// Unknown escape sequence is treated as the bare character
-- 
2.43.0


From 6aabf6e5bdddb353d44d2bd8872e22338bc515ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 06/58] fix: read CBOR strings of any length, and reject
 impossible lengths

Strings longer than the 4096 byte buffer could not be read, byte strings shared
memory with the read buffer and changed when reading on, and a huge length made
the reader panic or, when it wrapped to a negative number, mistake the value for
one of indefinite length.
---
 dsio/cbor.go | 52 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..1385265 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -162,12 +162,12 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 		return t, indefiniteLength, err
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
 		return 0, 0, err
 	}
 
-	return t, int(length), nil
+	return t, length, nil
 }
 
 // readStringKey reads a key for a map from the input stream
@@ -181,12 +181,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
 		return "", err
 	}
 
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return "", err
 	}
@@ -282,21 +282,21 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return buff, nil
 		case cborBaseArray:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			array, err := r.readArray(int(length))
+			array, err := r.readArray(length)
 			if err != nil {
 				return nil, err
 			}
 			return array, nil
 		case cborBaseMap:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			assoc, err := r.readMap(int(length))
+			assoc, err := r.readMap(length)
 			if err != nil {
 				return nil, err
 			}
@@ -328,11 +328,11 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
 		return nil, err
 	}
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return nil, err
 	}
@@ -342,11 +342,7 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 	var array []interface{}
-	if length > 0 {
-		array = make([]interface{}, 0, length)
-	} else {
-		array = make([]interface{}, 0)
-	}
+	array = make([]interface{}, 0)
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
 			break
@@ -386,6 +382,18 @@ func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
 	return assoc, nil
 }
 
+// getLength handles the byte most recently read as the length of a value
+func (r *CBORReader) getLength(b byte) (int, error) {
+	length, err := r.getVarLenInt(b)
+	if err != nil {
+		return 0, err
+	}
+	if length < 0 || int64(int(length)) != length {
+		return 0, fmt.Errorf("length out of range: %d", uint64(length))
+	}
+	return int(length), nil
+}
+
 // getVarLenInt handles the byte most recently read, and possibly reads more bytes, to get an int
 func (r *CBORReader) getVarLenInt(b byte) (int64, error) {
 	b = b & 0x1f
@@ -430,15 +438,15 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
-	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
+	// The length is read from the input, don't trust it for allocations
+	buff := bytes.NewBuffer([]byte{})
+	if _, err := io.CopyN(buff, r.rdr, int64(num)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
-	return buff, nil
+	return buff.Bytes(), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From fe15ab9ec3587e0cb31f0f4fcf3dfe594d1a908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 07/58] fix: report CBOR input that ends too early

A body cut short anywhere read as one that ends after the last complete entry.
---
 dsio/cbor.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 1385265..79f9b0a 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -76,8 +76,6 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
 		r.length = length
 	}
 
@@ -85,6 +83,18 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		return ent, io.EOF
 	}
 
+	if r.length != indefiniteLength && r.rowsRead >= r.length {
+		if _, err := r.rdr.Peek(1); err == io.EOF {
+			return ent, io.EOF
+		}
+	}
+	defer func() {
+		// input that ends anywhere else is incomplete
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
-- 
2.43.0


From 3584e753ecc05ebddc8c38e3053260e2c6054930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 08/58] fix: read CBOR negative integers below -24 and integers
 beyond int64

The former were an unknown tag, the latter came out with the wrong sign.
---
 dsio/cbor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 79f9b0a..aa0ea15 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -211,10 +211,22 @@ func (r *CBORReader) readValue() (interface{}, error) {
 		return nil, err
 	}
 
-	if b < 0x1c {
-		return r.getVarLenInt(b)
-	} else if b >= 0x20 && b < 0x38 {
-		return -int64(b - 0x1f), nil
+	if b < 0x1c || (b >= cborBaseNegInt && b < 0x3c) {
+		num, err := r.getVarLenInt(b)
+		if err != nil {
+			return nil, err
+		}
+		if num < 0 {
+			// Doesn't fit an int64, the closest float is the best we can do
+			if b >= cborBaseNegInt {
+				return -1 - float64(uint64(num)), nil
+			}
+			return float64(uint64(num)), nil
+		}
+		if b >= cborBaseNegInt {
+			return -1 - num, nil
+		}
+		return num, nil
 	}
 
 	switch b {
-- 
2.43.0


From 9e1783e49ca99722e086aee5ca7f98248f61de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 09/58] fix: decode CBOR half and single precision floats

Their bits were read as the low bits of a double.
---
 dsio/cbor.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index aa0ea15..95886bd 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -452,12 +452,35 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16(binary.BigEndian.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
 	}
 	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
 }
 
+// float16 converts an IEEE 754 half-precision number
+func float16(bits uint16) float64 {
+	exp, frac := int(bits>>10)&0x1f, float64(bits&0x3ff)
+	var num float64
+	switch {
+	case exp == 0x1f && frac != 0:
+		num = math.NaN()
+	case exp == 0x1f:
+		num = math.Inf(1)
+	case exp == 0:
+		num = math.Ldexp(frac, -24)
+	default:
+		num = math.Ldexp(frac+1024, exp-25)
+	}
+	if bits&0x8000 != 0 {
+		num = -num
+	}
+	return num
+}
+
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
 	// The length is read from the input, don't trust it for allocations
-- 
2.43.0


From 0a7f4a83a3f861c49327a1ff89d3826a5416e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 10/58] fix: read past CBOR tags and simple values

Only their first byte was consumed, so the rest of them was read as the
following values.
---
 dsio/cbor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 95886bd..31b95e9 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -324,10 +324,16 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// Tags are ignored, the result is the value they're attached to
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		case cborBaseSimple:
-			// TODO: Implement me
+			// Simple values have no meaning here, but may take up a second byte
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
 			return nil, nil
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
-- 
2.43.0


From a26c2398bb267670e22e6c43f2d50caf46c4fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:00 +0000
Subject: [PATCH 11/58] fix: keep the JSON writer's output valid when it
 rejects an entry

A rejected first entry counted as written, so the next one was preceded by a
comma ({,"a":1}), and the key of an entry whose value can't be encoded could
not be used again.
---
 dsio/json.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index f8e6897..009378b 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -582,9 +582,12 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
-	defer func() {
-		w.rowsWritten++
-	}()
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	if w.rowsWritten == 0 {
 		open := []byte{'['}
 		if w.tlt == "object" {
@@ -596,12 +599,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -611,6 +608,10 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		enc = append(enc, []byte{'\n'}...)
 	}
 
+	w.rowsWritten++
+	if w.tlt == "object" {
+		w.keysWritten[ent.Key] = true
+	}
 	_, err = w.wr.Write(append(enc, data...))
 	return err
 }
@@ -633,7 +634,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
-- 
2.43.0


From 37b2cb0a6e060a494769af95f998c8709e122030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:01 +0000
Subject: [PATCH 12/58] fix: report a failed write of the pretty JSON writer's
 last newline

---
 dsio/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 009378b..9aa133a 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -686,7 +686,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
-- 
2.43.0


From c017c35781279fe3ab98b0920d7bba7bf08dcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 13/58] fix: read the last line of an NDJSON body without a
 final newline

It was dropped.
---
 dsio/ndjson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..3edb903 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -57,7 +58,7 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	if err != nil && !(err == io.EOF && len(bytes.TrimSpace(line)) > 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From 439bd6692d5bede08713b7797510b73224be9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 14/58] fix: report errors while copying entries in ConvertFile

The result was silently cut short.
---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..18b38e7 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,7 +220,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From 03a19f06fdefb0f90596a6b1546dca7d29ba837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:05 +0000
Subject: [PATCH 15/58] fix: report failed writes when closing a CSV writer

Rows are buffered, so most write errors only show up when flushing.
---
 dsio/csv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..ddf8bbe 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -220,7 +220,9 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			if err := writer.Write(cols.Titles()); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -286,6 +288,9 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From 7e3ba5769e90b4d60e2bdacdfdf2e51e1a42d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 16/58] fix: end the identity reader by closing its channel

The flag that marked the end was set by the producing goroutine after its last
send: a consumer that checked it too early blocked forever on an empty channel.
---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From 7fd4725e140b77605f95dbed2d29fff9ff1c803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:59 +0000
Subject: [PATCH 17/58] fix: keep CSV rows that consist of one empty field

---
 dsio/csv.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index ddf8bbe..ded0480 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -177,6 +177,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	dst         io.Writer
 	st          *dataset.Structure
 	close       func() error
 
@@ -214,13 +215,14 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		dst:   cw,
 		types: types,
 		close: close,
 	}
 
 	if opts != nil {
 		if opts.HeaderRow {
-			if err := writer.Write(cols.Titles()); err != nil {
+			if err := wr.writeRecord(cols.Titles()); err != nil {
 				return nil, err
 			}
 		}
@@ -242,11 +244,25 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
-		return w.w.Write(strs)
+		return w.writeRecord(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
 }
 
+// writeRecord writes one record. A record of one empty field needs quotes:
+// the blank line csv.Writer emits for it is skipped by CSV readers
+func (w *CSVWriter) writeRecord(record []string) error {
+	if len(record) == 1 && record[0] == "" {
+		w.w.Flush()
+		if err := w.w.Error(); err != nil {
+			return err
+		}
+		_, err := io.WriteString(w.dst, "\"\"\n")
+		return err
+	}
+	return w.w.Write(record)
+}
+
 // encode uses specified types from structure's schema to go values to strings
 func encode(vs []interface{}) ([]string, error) {
 	strings := make([]string, len(vs))
-- 
2.43.0


From ce130d055dec3274d7f418f4a5bde4160c193458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:59 +0000
Subject: [PATCH 18/58] fix: open CSV bodies whose schema lists no types for a
 column

---
 dsio/csv.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index ded0480..3b94aad 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -42,7 +42,7 @@ func NewCSVReaderSize(st *dataset.Structure, r io.Reader, size int) (*CSVReader,
 
 	types := make([]string, len(cols))
 	for i, c := range cols {
-		types[i] = []string(*c.Type)[0]
+		types[i] = columnType(c)
 	}
 
 	dr, close, err := maybeWrapDecompressor(st, r)
@@ -72,6 +72,14 @@ func NewCSVReaderSize(st *dataset.Structure, r io.Reader, size int) (*CSVReader,
 	}, nil
 }
 
+// columnType gives the first type of a column, defaulting to string
+func columnType(c tabular.Column) string {
+	if c.Type == nil || len(*c.Type) == 0 {
+		return "string"
+	}
+	return (*c.Type)[0]
+}
+
 // Structure gives this reader's structure
 func (r *CSVReader) Structure() *dataset.Structure {
 	return r.st
@@ -196,7 +204,7 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	types := make([]string, len(cols))
 	for i, c := range cols {
-		types[i] = []string(*c.Type)[0]
+		types[i] = columnType(c)
 	}
 
 	cw, close, err := maybeWrapCompressor(st, w)
-- 
2.43.0


From e6c16b6e8a012feb30cf1ea8cdd463d8122649c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 19/58] fix: infer the number type for numbers beyond float32

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From 2e6e90f12033c81ee1320c38e5a00bc3d777b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 20/58] fix: convert parsed integers back to text

---
 vals/type.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index efeadef..a685439 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -167,12 +167,16 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 		}
 		str = s
 	case TypeInteger:
-		num, ok := value.(int)
-		if !ok {
+		switch num := value.(type) {
+		case int:
+			str = strconv.FormatInt(int64(num), 10)
+		case int64:
+			// the type Parse gives for integers
+			str = strconv.FormatInt(num, 10)
+		default:
 			err = fmt.Errorf("%v is not an %s value", value, dt.String())
 			return
 		}
-		str = strconv.FormatInt(int64(num), 10)
 	case TypeNumber:
 		num, ok := value.(float64)
 		if !ok {
-- 
2.43.0


From 91061f1cb4b3200fce1eb9d85e9b91dce8994612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:38 +0000
Subject: [PATCH 21/58] fix: decode JSON values with space around them

---
 vals/coding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..9152fae 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,6 +1,7 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 )
@@ -70,6 +71,7 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	data = bytes.Trim(data, " \t\r\n")
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From 7097abd79ba8886c807f6f00de25759775d35f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 22/58] fix: assign the rendered file of viz and readme
 components

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index e8a4685..dee320a 100644
--- a/readme.go
+++ b/readme.go
@@ -181,6 +181,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.scriptFile != nil {
 			r.scriptFile = rs.scriptFile
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 		if rs.ScriptPath != "" {
 			r.ScriptPath = rs.ScriptPath
 		}
diff --git a/viz.go b/viz.go
index 13d34d1..ded408a 100644
--- a/viz.go
+++ b/viz.go
@@ -181,6 +181,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.scriptFile != nil {
 			v.scriptFile = vs.scriptFile
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 		if vs.ScriptPath != "" {
 			v.ScriptPath = vs.ScriptPath
 		}
-- 
2.43.0


From 532bc989db18b02068771dfeeb720bed67ef06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 23/58] fix: assign the version count and kind of datasets

---
 dataset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataset.go b/dataset.go
index b33a799..5a9e35c 100644
--- a/dataset.go
+++ b/dataset.go
@@ -397,6 +397,12 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
+		if d.Qri != "" {
+			ds.Qri = d.Qri
+		}
 		if ds.Stats == nil && d.Stats != nil {
 			ds.Stats = d.Stats
 		} else if ds.Stats != nil {
-- 
2.43.0


From a17f13bf23437b13828fcd22f007450c4ac2c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 24/58] fix: leave the sources of a dataset Assign unchanged

---
 dataset.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/dataset.go b/dataset.go
index 5a9e35c..e2bc9ff 100644
--- a/dataset.go
+++ b/dataset.go
@@ -370,16 +370,18 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		}
 
 		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+			ds.Commit = &Commit{}
+		}
+		if ds.Commit != nil {
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
 		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+			ds.Meta = &Meta{}
+		}
+		if ds.Meta != nil {
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -404,28 +406,33 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.Qri = d.Qri
 		}
 		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+			ds.Stats = &Stats{}
+		}
+		if ds.Stats != nil {
 			ds.Stats.Assign(d.Stats)
 		}
 		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+			ds.Structure = &Structure{}
+		}
+		if ds.Structure != nil {
 			ds.Structure.Assign(d.Structure)
 		}
 		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+			ds.Transform = &Transform{}
+		}
+		if ds.Transform != nil {
 			ds.Transform.Assign(d.Transform)
 		}
 		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+			ds.Viz = &Viz{}
+		}
+		if ds.Viz != nil {
 			ds.Viz.Assign(d.Viz)
 		}
 		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+			ds.Readme = &Readme{}
+		}
+		if ds.Readme != nil {
 			ds.Readme.Assign(d.Readme)
 		}
 
-- 
2.43.0


From cc1e6059407f8c2604c9830ceae8670a973af28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 25/58] fix: count additional metadata as content of a meta
 component

---
 meta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index e648efc..1aae811 100644
--- a/meta.go
+++ b/meta.go
@@ -91,7 +91,8 @@ func (md *Meta) IsEmpty() bool {
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
 		md.Theme == nil &&
-		md.Version == ""
+		md.Version == "" &&
+		len(md.meta) == 0
 }
 
 // NewMetaRef creates a Meta pointer with the internal
-- 
2.43.0


From 4862147e4a942a3ca079f1c26f77438f3894e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 26/58] fix: count the number of versions as content of a
 dataset

---
 dataset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataset.go b/dataset.go
index e2bc9ff..4a7d7de 100644
--- a/dataset.go
+++ b/dataset.go
@@ -102,6 +102,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.ID == "" &&
 		ds.Meta == nil &&
 		ds.Name == "" &&
+		ds.NumVersions == 0 &&
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
-- 
2.43.0


From cb159e0abe1bc3983aea6a087140ff163cbc8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:29 +0000
Subject: [PATCH 27/58] fix: encode a structure as a reference only when it has
 no other content

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From 53b906c09b3ee8c50ba4c83017ba7a172d102de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:29 +0000
Subject: [PATCH 28/58] fix: keep every additional metadata key when decoding,
 and no spec field

---
 meta.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/meta.go b/meta.go
index 1aae811..635a1f6 100644
--- a/meta.go
+++ b/meta.go
@@ -400,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From e1a71125480375f64af181d79dccb4e6985bc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:17 +0000
Subject: [PATCH 29/58] fix: encode the CSV separator option the way it is
 decoded

---
 data_format_config.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..64c7294 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -2,6 +2,7 @@ package dataset
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // FormatConfig is the interface for data format configurations
@@ -52,10 +53,11 @@ func NewCSVOptions(opts map[string]interface{}) (*CSVOptions, error) {
 
 	if opts["separator"] != nil {
 		if sep, ok := opts["separator"].(string); ok {
-			if len(sep) != 1 {
+			r, size := utf8.DecodeRuneInString(sep)
+			if r == utf8.RuneError || size != len(sep) {
 				return nil, fmt.Errorf("separator must be a single character")
 			}
-			o.Separator = rune(sep[0])
+			o.Separator = r
 		} else {
 			return nil, fmt.Errorf("invalid separator value: %v", opts["separator"])
 		}
@@ -111,7 +113,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From de4a77755cf405dfce2b3b1ea924fd777489b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:41 +0000
Subject: [PATCH 30/58] fix: reject kinds that are not in the form
 [type]:[version]

---
 kind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind.go b/kind.go
index 570a966..9386dc0 100644
--- a/kind.go
+++ b/kind.go
@@ -44,7 +44,7 @@ func (k Kind) String() string {
 
 // Valid checks to see if a kind string is valid
 func (k Kind) Valid() error {
-	if len(k) < 4 {
+	if len(k) < 4 || k[2] != ':' {
 		return fmt.Errorf("invalid kind: '%s'. kind must be in the form [type]:[version]", k.String())
 	}
 	return nil
-- 
2.43.0


From eb947cdd8d2ea6a295142cea20c21e6153b45a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:17 +0000
Subject: [PATCH 31/58] fix: report minimum and maximum of numbers beyond the
 integer range

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..c3ab674 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    math.Inf(-1),
+		min:    math.Inf(1),
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From 4d0084154db865586eaa4288e8b745b63db04c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:20 +0000
Subject: [PATCH 32/58] fix: report histogram frequencies of merged bins as
 positive counts

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..8db623f 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -403,7 +403,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From cbd71c3af0c644934e00dba710cffea8a37fe965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 33/58] fix: detect the type of JSON bodies whose first read
 ends in white space

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From 3a59af2e963467f42e18a0277b3d7ae96e249a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 34/58] fix: keep the body readable when detecting its
 structure fails

---
 detect/detect.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..73f4e22 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -55,6 +55,16 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -76,15 +86,6 @@ func Structure(ds *dataset.Dataset) error {
 	if ds.Structure.Schema == nil {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
-
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From 50155266718e17413a874bc509c0a03afcb07ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 35/58] fix: give every column index its own abstract name

---
 structure.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/structure.go b/structure.go
index 257695a..7f25c30 100644
--- a/structure.go
+++ b/structure.go
@@ -344,21 +344,8 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 // to letters, using repeating characters to handle values
 // greater than 26
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for ; d >= 0; d = d/26 - 1 {
+		s = string(b26chars[d%26]) + s
 	}
 	return s
 }
-- 
2.43.0


From bdb0e320a40fb2cf503086782ebb828d2a69abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 36/58] fix: report a failed write of a step separator

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 970efdca9f0f2b90012b077a9b90237784aae26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 37/58] fix: report a preview of a body without structure as an
 error

---
 preview/preview.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..3fc30e4 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: dataset with a body has no structure")
+			return nil, fmt.Errorf("structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
-- 
2.43.0


From 5b7bdf90872730693b66f2349c0aca063a2ea193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 38/58] fix: keep the body and readme files readable when a
 preview fails

---
 preview/preview.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 3fc30e4..f7c5ba3 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -64,6 +64,7 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		tr := io.TeeReader(f, buf)
 
 		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
@@ -72,8 +73,6 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			content = append(content, []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
@@ -96,13 +95,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From 4758a3d8625a099a5e2d8ea32112b9a2a5ca1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 39/58] fix: report validation errors at the entry's position
 in the whole body

---
 validate/data.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..a624b9d 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,8 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+// flushBatch validates the entries in buf, the first of which is entry number start of the body
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, start int, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
@@ -26,11 +29,31 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	_, isArray := doc.([]interface{})
+	for _, keyErr := range *validationState.Errs {
+		if isArray {
+			keyErr.PropertyPath = offsetPath(keyErr.PropertyPath, start)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetPath adds an offset to the array index a property path begins with
+func offsetPath(path string, offset int) string {
+	parts := strings.SplitN(path, "/", 3)
+	if len(parts) < 2 {
+		return path
+	}
+	i, err := strconv.Atoi(parts[1])
+	if err != nil {
+		return path
+	}
+	parts[1] = strconv.Itoa(i + offset)
+	return strings.Join(parts, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -53,16 +76,18 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error allocating data buffer: %s", err.Error())
 	}
 
+	start := 0
 	err = dsio.EachEntry(r, func(i int, ent dsio.Entry, err error) error {
 		if err != nil {
 			return fmt.Errorf("error reading row %d: %s", i, err.Error())
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, start, jsch, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			start = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -85,7 +110,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, start, jsch, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From be21b066fed11ac2740b1ce53c04531621ed6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 40/58] fix: number the rows of CSV bodies

---
 dsio/csv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 3b94aad..5853de4 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -17,6 +17,7 @@ import (
 type CSVReader struct {
 	st         *dataset.Structure
 	readHeader bool
+	rowsRead   int
 	r          *csv.Reader
 	close      func() error
 
@@ -111,7 +112,9 @@ func (r *CSVReader) ReadEntry() (Entry, error) {
 		return Entry{}, err
 	}
 
-	return Entry{Value: value}, nil
+	ent := Entry{Index: r.rowsRead, Value: value}
+	r.rowsRead++
+	return ent, nil
 }
 
 // Close finalizes the reader
-- 
2.43.0


From cca3c1544af0466fb9969b860ddad2bd9718b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:12 +0000
Subject: [PATCH 41/58] fix: reading additional metadata must not change the
 component

Meta() left an empty map behind, with which a later Assign of the component erased the additional metadata of its target.
---
 meta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/meta.go b/meta.go
index 635a1f6..5a2b16e 100644
--- a/meta.go
+++ b/meta.go
@@ -103,9 +103,6 @@ func NewMetaRef(path string) *Meta {
 
 // Meta gives access to additional metadata not covered by dataset metadata
 func (md *Meta) Meta() map[string]interface{} {
-	if md.meta == nil {
-		md.meta = map[string]interface{}{}
-	}
 	shallowCopy := map[string]interface{}{}
 	for key, val := range md.meta {
 		shallowCopy[key] = val
-- 
2.43.0


From 20527e53efb4da14654bd67f06cc4ce420ed0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 42/58] fix: encode an empty list of column types as valid JSON

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..24c7eb1 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -91,7 +91,7 @@ func (ct ColType) HasType(t string) bool {
 func (ct ColType) MarshalJSON() ([]byte, error) {
 	switch len(ct) {
 	case 0:
-		return nil, nil
+		return []byte("[]"), nil
 	case 1:
 		return json.Marshal(ct[0])
 	default:
-- 
2.43.0


From 0582ad6de990e7de61d0787948407e0c7535207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 43/58] fix: report object-based tabular schemas with
 ErrInvalidTabularSchema

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index 24c7eb1..28318f5 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -212,5 +212,5 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 }
 
 func objectWrapperColumns(sch map[string]interface{}) (Columns, []string, error) {
-	return nil, nil, fmt.Errorf("unfinished")
+	return nil, nil, fmt.Errorf("%w: object-based tabular schemas are unfinished", ErrInvalidTabularSchema)
 }
-- 
2.43.0


From 16a6e57881a9563881f1f66febee489e442d46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 44/58] fix: summarise and encode a diff of components that do
 not differ

---
 dsdiff/dsdiff.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..4cbf292 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -19,6 +19,9 @@ type SubDiff struct {
 
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
+	if d == nil || d.Diff == nil {
+		return []byte("[]"), nil
+	}
 	return json.Marshal(d.Diff.Deltas())
 }
 
@@ -29,12 +32,16 @@ func (d *SubDiff) MarshalJSON() ([]byte, error) {
 // - plusMinusColor (git-style plus/minus printout)
 // - plusMinus (same as plusMinusColor without color)
 func (d *SubDiff) SummarizeToString(how string) (string, error) {
+	if d == nil || d.Diff == nil {
+		// nothing differs
+		return "", nil
+	}
 	color := false
 	if strings.Contains(how, "Color") {
 		color = true
 	}
 	pluralS := ""
-	if d != nil && d.Deltas() != nil && len(d.Deltas()) > 1 {
+	if d.Deltas() != nil && len(d.Deltas()) > 1 {
 		pluralS = "s"
 	}
 	switch how {
-- 
2.43.0


From cc15c7db2be35b2e04e37ee04e54a38c4e6f762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 45/58] fix: generate values for columns with an empty list of
 types

Type lists are read from schemas as they are, so a column may have no type.
Treat it as a column without a type keyword, whose type is string.
---
 generate/tabular.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generate/tabular.go b/generate/tabular.go
index f384fb3..cfdea12 100644
--- a/generate/tabular.go
+++ b/generate/tabular.go
@@ -86,7 +86,11 @@ func NewTabularGenerator(st *dataset.Structure, options ...func(*Config)) (*Tabu
 func (g *TabularGenerator) ReadEntry() (dsio.Entry, error) {
 	row := make([]interface{}, len(g.cols))
 	for i, col := range g.cols {
-		row[i] = g.gen.Type([]string(*col.Type)[0])
+		typ := "string"
+		if len(*col.Type) > 0 {
+			typ = []string(*col.Type)[0]
+		}
+		row[i] = g.gen.Type(typ)
 	}
 	index := g.count
 	g.count++
-- 
2.43.0


From 7cb61e2d8381b58447b3e6d11d4e0833e453f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 46/58] fix: detect the schema of compressed bodies from their
 content

Detection read the compressed bytes as if they were the body, so a file such as
body.csv.gz got a schema of garbage and body.json.zst could not be detected.
---
 detect/determineFields.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..63762a4 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/qri-io/dataset"
+	"github.com/qri-io/dataset/compression"
 	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/dataset/dsio/replacecr"
 	"github.com/qri-io/dataset/vals"
@@ -28,6 +29,15 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 		return
 	}
 
+	if r.Compression != "" {
+		decompressor, err := compression.Decompressor(r.Compression, data)
+		if err != nil {
+			return nil, 0, err
+		}
+		defer decompressor.Close()
+		data = decompressor
+	}
+
 	switch r.DataFormat() {
 	case dataset.CBORDataFormat:
 		return CBORSchema(r, data)
-- 
2.43.0


From e54f6cc2c25dbf7c78da24ef79c692223b8f59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 47/58] fix: count merged centroids when decoding a sketch

Merged centroids are marked by a negative count, which was added up as it is.
---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 8db623f..5780509 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From 8292d5c518e78818a93e8661912ecb38e5e6d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 48/58] fix: keep the extremes of both sketches when merging

Min and Max of a merged sketch were those of the centroids of the other one,
which are means once the other sketch has merged centroids.
---
 dsstats/histosketch/histosketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 5780509..d3d7b20 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,9 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	// centroids only hold means, the extremes may lie further out
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From d207b570cea321d46677512fa22ccea7c9dfeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 49/58] fix: open XLSX bodies with columns that have an empty
 list of types

Like in CSV bodies, such columns hold strings.
---
 dsio/xlsx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..1a20d93 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -36,7 +36,7 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 
 	types := make([]string, len(cols))
 	for i, c := range cols {
-		types[i] = []string(*c.Type)[0]
+		types[i] = columnType(c)
 	}
 
 	rdr := &XLSXReader{
@@ -166,7 +166,7 @@ func NewXLSXWriter(st *dataset.Structure, w io.Writer) (*XLSXWriter, error) {
 
 	types := make([]string, len(cols))
 	for i, c := range cols {
-		types[i] = []string(*c.Type)[0]
+		types[i] = columnType(c)
 	}
 
 	wr := &XLSXWriter{
-- 
2.43.0


From 42f6612fde286edfdbec6cc28ad2919f349d5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 50/58] fix: report a missing viz script instead of panicking
 when rendering

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..2f43ecc 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("no viz script file to render")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-- 
2.43.0


From 7254673bbb7fe4e4bdec09c070fd81724b2a07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 51/58] fix: restore the whole body after a template read a
 part of it

Render promises to leave the dataset reusable, but body functions put back only
the bytes they had consumed, so asking for the first entries of a large body
lost the rest of it, and a body that could not be read was not put back at all.
---
 dsviz/render.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 2f43ecc..e37a99b 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -164,8 +164,15 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, dataset.ErrNoBody
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file, including any part that wasn't read
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -179,17 +186,10 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		}
 	}
 
-	bodyEntries, err := readEntries(rr)
-	if err != nil {
-		return nil, err
-	}
-
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
+	// stop reading before the body file is restored
+	defer rr.Close()
 
-	return bodyEntries, nil
+	return readEntries(rr)
 }
 
 // readEntries reads entries and returns them as a native go array or map
-- 
2.43.0


From 40d2b0c5e02b2e9ae3316676d2f2a4517cb9f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:49 +0000
Subject: [PATCH 52/58] fix: drop transient values of both sides when comparing

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From b185652425b6de29b5ce7da2ed9207a3794019e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 53/58] fix: generate both boolean values

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From 7ff5789bc3405a66051391ffe88ad09789869e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:06 +0000
Subject: [PATCH 54/58] fix: keep statistics when an accumulator is closed
 again

---
 dsstats/stats.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index c3ab674..ff368d1 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -108,8 +108,9 @@ type Stat interface {
 // Consumers can only assume the return value of Accumulator.Stats is final
 // after a call to Close
 type Accumulator struct {
-	st    *dataset.Structure
-	stats accumulator
+	st     *dataset.Structure
+	stats  accumulator
+	closed bool
 }
 
 var (
@@ -150,7 +151,8 @@ func (r *Accumulator) WriteEntry(ent dsio.Entry) error {
 
 // Close finalizes the Reader
 func (r *Accumulator) Close() error {
-	if r != nil && r.stats != nil {
+	if r != nil && r.stats != nil && !r.closed {
+		r.closed = true
 		r.stats.Close()
 	}
 	return nil
-- 
2.43.0


From f2b2ced0f3ca27a093e51eb220c3ee9ebb912d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:38 +0000
Subject: [PATCH 55/58] fix: keep metadata when a value is rejected, and
 additional metadata of the source when assigning

---
 meta.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index 5a2b16e..80b3b6b 100644
--- a/meta.go
+++ b/meta.go
@@ -148,6 +148,13 @@ func strSliceVal(val interface{}) (s []string, err error) {
 // Set writes value to key in metadata, erroring if the type is invalid
 // input values are expected to be json.Unmarshal types
 func (md *Meta) Set(key string, val interface{}) (err error) {
+	// a rejected value must leave metadata as it was
+	prev := *md
+	defer func() {
+		if err != nil {
+			*md = prev
+		}
+	}()
 
 	switch strings.TrimSpace(strings.ToLower(key)) {
 	// string meta fields
@@ -242,7 +249,8 @@ func (md *Meta) Assign(metas ...*Meta) {
 		}
 
 		if m.meta != nil {
-			md.meta = m.meta
+			// copy to keep later calls to Set from writing to m
+			md.meta = m.Meta()
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From e900c571901b999b43af920a0b730cf688a21f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:38 +0000
Subject: [PATCH 56/58] fix: infer the types of nested cells, reject sources
 that are no rows

---
 detect/detect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/detect/detect.go b/detect/detect.go
index 73f4e22..76d9788 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -209,6 +209,8 @@ func TabularSchemaFromTabularData(source interface{}) (map[string]interface{}, e
 		schema["items"] = items
 	case map[string]interface{}:
 		return nil, fmt.Errorf("%w: cannot interpret object-based tabular schemas", ErrInvalidTabularData)
+	default:
+		return nil, fmt.Errorf("%w: expected an array of rows", ErrInvalidTabularData)
 	}
 
 	return schema, nil
@@ -222,6 +224,10 @@ func goDataType(v interface{}) string {
 		return "boolean"
 	case nil:
 		return "null"
+	case []interface{}:
+		return "array"
+	case map[string]interface{}:
+		return "object"
 	default:
 		// assume a string type
 		return "string"
-- 
2.43.0


From 3f8dfed1921aa62f63af3c390bc6bb5396bd6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 57/58] fix: refuse JSON and CBOR values nested more than 10000
 levels deep

---
 dsio/cbor.go | 6 ++++++
 dsio/dsio.go | 6 ++++++
 dsio/json.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 31b95e9..88f2dbd 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	depth    int // number of values being read that are nested in each other
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -206,6 +207,11 @@ func (r *CBORReader) readStringKey() (string, error) {
 
 // readValue reads a value of any type from the input stream
 func (r *CBORReader) readValue() (interface{}, error) {
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxNesting {
+		return nil, errNesting
+	}
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
diff --git a/dsio/dsio.go b/dsio/dsio.go
index 18b38e7..474402b 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -14,6 +14,12 @@ import (
 
 var log = logger.Logger("dsio")
 
+// maxNesting is the number of values nested in each other that readers accept.
+// Reading is recursive, input nested without limit exhausts the stack
+const maxNesting = 10000
+
+var errNesting = fmt.Errorf("values are nested too deeply, at most %d levels are supported", maxNesting)
+
 // EntryWriter is a generalized interface for writing structured data
 type EntryWriter interface {
 	// Structure gives the structure being written
diff --git a/dsio/json.go b/dsio/json.go
index 9aa133a..b3c0e12 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -24,6 +24,7 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	depth       int          // number of values being read that are nested in each other
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -176,6 +177,11 @@ func (r *JSONReader) peekNextChar() byte {
 }
 
 func (r *JSONReader) readValue() (interface{}, error) {
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxNesting {
+		return nil, errNesting
+	}
 	b := r.peekNextChar()
 	switch b {
 	case 'n':
-- 
2.43.0


From f593a11ff7c15523dee71c4e4d5fa3ef28fe0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 58/58] fix: count the characters of a commit title, not its
 bytes

---
 validate/dataset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/dataset.go b/validate/dataset.go
index 6f41d72..d60d649 100644
--- a/validate/dataset.go
+++ b/validate/dataset.go
@@ -2,6 +2,7 @@ package validate
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/jsonschema"
@@ -42,8 +43,8 @@ func Commit(cm *dataset.Commit) error {
 	if cm.Title == "" {
 		// return fmt.Errorf("title is required")
 
-	} else if len(cm.Title) > 100 {
-		return fmt.Errorf("title is too long. %d length exceeds 100 character limit", len(cm.Title))
+	} else if n := utf8.RuneCountInString(cm.Title); n > 100 {
+		return fmt.Errorf("title is too long. %d length exceeds 100 character limit", n)
 	}
 
 	return nil
-- 
2.43.0

