From 22d3e8a71c2d615b167601610081f27e111a3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 01/85] fix: decode every CBOR item and report truncated CBOR
 data

The reader rejected negative integers below -24, read half and single
precision floats as denormals, failed on strings of 4096 bytes or more,
returned byte strings aliasing its read buffer, dropped tags without reading
their content, wrapped large unsigned integers, trusted length prefixes when
allocating, and reported input that ends early as a clean end of data.
---
 dsio/cbor.go | 290 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 192 insertions(+), 98 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..9c7ab60 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	started  bool // true once the top level container has been opened
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -68,7 +69,7 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
-	if r.rowsRead == 0 {
+	if !r.started {
 		top, length, err := r.readTopLevel()
 		if err != nil {
 			return ent, err
@@ -76,33 +77,50 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
 		r.length = length
+		r.started = true
 	}
 
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
 		return ent, io.EOF
 	}
 
+	// data may only end between entries, and only once all of the entries
+	// declared by the top level container have been read
+	if _, err = r.rdr.Peek(1); err != nil {
+		if err == io.EOF && (r.length == indefiniteLength || r.rowsRead < r.length) {
+			err = io.ErrUnexpectedEOF
+		}
+		return ent, err
+	}
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
-			return
+			return Entry{}, unexpectedEOF(err)
 		}
 	} else {
 		ent.Index = r.rowsRead
 	}
 
-	ent.Value, err = r.readValue()
+	ent.Value, err = r.readValue(0)
 	if err != nil {
-		return
+		return Entry{}, unexpectedEOF(err)
 	}
 
 	r.rowsRead++
 	return
 }
 
+// unexpectedEOF converts the end of the input part way through an item into an
+// error that can't be mistaken for the end of the data
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // Close finalizes the reader
 func (r *CBORReader) Close() error {
 	if r.close != nil {
@@ -145,6 +163,9 @@ const indefiniteLength int = -1
 
 const cborTypeMask byte = 0xe0
 
+// cborMaxDepth limits how deeply values may be nested
+const cborMaxDepth = 10000
+
 // readTopLevel determines the top-level type, either "object" or "array"
 func (r *CBORReader) readTopLevel() (byte, int, error) {
 	b, err := r.rdr.ReadByte()
@@ -162,12 +183,12 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 		return t, indefiniteLength, err
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
-		return 0, 0, err
+		return 0, 0, unexpectedEOF(err)
 	}
 
-	return t, int(length), nil
+	return t, length, nil
 }
 
 // readStringKey reads a key for a map from the input stream
@@ -181,12 +202,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
-	length, err := r.getVarLenInt(b)
-	if err != nil {
-		return "", err
+	if b == cborBdIndefiniteString {
+		buff, err := r.readIndefiniteChunks(cborBaseString)
+		return string(buff), err
 	}
 
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readLengthPrefixedBytes(b)
 	if err != nil {
 		return "", err
 	}
@@ -194,21 +215,20 @@ func (r *CBORReader) readStringKey() (string, error) {
 	return string(buff), nil
 }
 
-// readValue reads a value of any type from the input stream
-func (r *CBORReader) readValue() (interface{}, error) {
+// readValue reads a value of any type from the input stream. depth is the
+// number of containers the value is nested in
+func (r *CBORReader) readValue(depth int) (interface{}, error) {
+	if depth > cborMaxDepth {
+		return nil, fmt.Errorf("exceeded max nesting depth of %d", cborMaxDepth)
+	}
+
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
 	}
 
-	if b < 0x1c {
-		return r.getVarLenInt(b)
-	} else if b >= 0x20 && b < 0x38 {
-		return -int64(b - 0x1f), nil
-	}
-
 	switch b {
-	case cborBdNil:
+	case cborBdNil, cborBdUndefined:
 		return nil, nil
 	case cborBdFalse:
 		return false, nil
@@ -221,54 +241,54 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	case cborBdFloat64:
 		return r.readFloatBytes(8)
 	case cborBdIndefiniteBytes:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
+		buff, err := r.readIndefiniteChunks(cborBaseBytes)
+		if err != nil {
+			return nil, err
 		}
-		return concat.Bytes(), nil
+		return buff, nil
 	case cborBdIndefiniteString:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
+		buff, err := r.readIndefiniteChunks(cborBaseString)
+		if err != nil {
+			return nil, err
 		}
-		return string(concat.Bytes()), nil
+		return string(buff), nil
 	case cborBdIndefiniteArray:
-		array, err := r.readArray(indefiniteLength)
+		array, err := r.readArray(indefiniteLength, depth)
 		if err != nil {
 			return nil, err
 		}
 		return array, nil
 	case cborBdIndefiniteMap:
-		assoc, err := r.readMap(indefiniteLength)
+		assoc, err := r.readMap(indefiniteLength, depth)
 		if err != nil {
 			return nil, err
 		}
 		return assoc, nil
+	case cborBdBreak:
+		return nil, fmt.Errorf("unexpected cbor break")
 	default:
 		t := b & cborTypeMask
 		switch t {
+		case cborBaseUint:
+			n, err := r.getVarLenUint(b)
+			if err != nil {
+				return nil, err
+			}
+			if n > math.MaxInt64 {
+				// too large for an int64
+				return float64(n), nil
+			}
+			return int64(n), nil
+		case cborBaseNegInt:
+			n, err := r.getVarLenUint(b)
+			if err != nil {
+				return nil, err
+			}
+			if n > math.MaxInt64 {
+				// too small for an int64
+				return -1 - float64(n), nil
+			}
+			return -1 - int64(n), nil
 		case cborBaseString:
 			buff, err := r.readLengthPrefixedBytes(b)
 			if err != nil {
@@ -282,30 +302,36 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return buff, nil
 		case cborBaseArray:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			array, err := r.readArray(int(length))
+			array, err := r.readArray(length, depth)
 			if err != nil {
 				return nil, err
 			}
 			return array, nil
 		case cborBaseMap:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			assoc, err := r.readMap(int(length))
+			assoc, err := r.readMap(length, depth)
 			if err != nil {
 				return nil, err
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// tags only annotate the item that follows them, which is the value
+			if _, err := r.getVarLenUint(b); err != nil {
+				return nil, err
+			}
+			return r.readValue(depth + 1)
 		case cborBaseSimple:
-			// TODO: Implement me
+			// simple values other than the ones above have no go equivalent
+			if _, err := r.getVarLenUint(b); err != nil {
+				return nil, err
+			}
 			return nil, nil
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
@@ -313,6 +339,30 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	}
 }
 
+// readIndefiniteChunks concatenates the chunks of an indefinite length string
+// or byte string, whose major type is given by base
+func (r *CBORReader) readIndefiniteChunks(base byte) ([]byte, error) {
+	concat := bytes.Buffer{}
+	for {
+		if r.readIndefiniteSequenceBreak() {
+			break
+		}
+		b, err := r.rdr.ReadByte()
+		if err != nil {
+			return nil, err
+		}
+		if b&cborTypeMask != base {
+			return nil, fmt.Errorf("invalid chunk in indefinite length item: %v", b)
+		}
+		buff, err := r.readLengthPrefixedBytes(b)
+		if err != nil {
+			return nil, err
+		}
+		concat.Write(buff)
+	}
+	return concat.Bytes(), nil
+}
+
 // readIndefiniteSequenceBreak returns true if the next byte is a sequence break
 func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 	bytes, err := r.rdr.Peek(1)
@@ -328,30 +378,35 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
 		return nil, err
 	}
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return nil, err
 	}
 	return buff, nil
 }
 
+// maxPrealloc caps how much memory is set aside on the word of a length prefix
+// alone, before the data it promises has been read
+const maxPrealloc = 4096
+
 // readArray reads an array of the given length
-func (r *CBORReader) readArray(length int) ([]interface{}, error) {
-	var array []interface{}
-	if length > 0 {
-		array = make([]interface{}, 0, length)
-	} else {
-		array = make([]interface{}, 0)
-	}
+func (r *CBORReader) readArray(length, depth int) ([]interface{}, error) {
+	size := length
+	if size < 0 {
+		size = 0
+	} else if size > maxPrealloc {
+		size = maxPrealloc
+	}
+	array := make([]interface{}, 0, size)
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
 			break
 		}
-		val, err := r.readValue()
+		val, err := r.readValue(depth + 1)
 		if err != nil {
 			return nil, err
 		}
@@ -364,7 +419,7 @@ func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 }
 
 // readArray reads a map of the given length
-func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
+func (r *CBORReader) readMap(length, depth int) (map[string]interface{}, error) {
 	assoc := make(map[string]interface{})
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
@@ -374,7 +429,7 @@ func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
 		if err != nil {
 			return nil, err
 		}
-		val, err := r.readValue()
+		val, err := r.readValue(depth + 1)
 		if err != nil {
 			return nil, err
 		}
@@ -386,59 +441,98 @@ func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
 	return assoc, nil
 }
 
-// getVarLenInt handles the byte most recently read, and possibly reads more bytes, to get an int
-func (r *CBORReader) getVarLenInt(b byte) (int64, error) {
+// getLength reads the length of an item, given the byte most recently read
+func (r *CBORReader) getLength(b byte) (int, error) {
+	n, err := r.getVarLenUint(b)
+	if err != nil {
+		return 0, err
+	}
+	length := int(n)
+	if length < 0 || uint64(length) != n {
+		return 0, fmt.Errorf("invalid cbor length: %d", n)
+	}
+	return length, nil
+}
+
+// getVarLenUint handles the byte most recently read, and possibly reads more bytes, to get an
+// unsigned int
+func (r *CBORReader) getVarLenUint(b byte) (uint64, error) {
 	b = b & 0x1f
 	if b < 0x18 {
-		return int64(b), nil
+		return uint64(b), nil
 	} else if b == 0x18 {
-		return r.readIntBytes(1)
+		return r.readUintBytes(1)
 	} else if b == 0x19 {
-		return r.readIntBytes(2)
+		return r.readUintBytes(2)
 	} else if b == 0x1a {
-		return r.readIntBytes(4)
+		return r.readUintBytes(4)
 	} else if b == 0x1b {
-		return r.readIntBytes(8)
+		return r.readUintBytes(8)
 	} else {
 		return 0, fmt.Errorf("Could not decode variable length int: %v", b)
 	}
 }
 
-// readIntBytes returns an int by reading num bytes from the input stream
-func (r *CBORReader) readIntBytes(num int) (int64, error) {
-	data, err := r.readBytes(num)
-	if err != nil {
+// readUintBytes returns an unsigned int by reading num bytes from the input stream
+func (r *CBORReader) readUintBytes(num int) (uint64, error) {
+	var data [8]byte
+	if _, err := io.ReadFull(r.rdr, data[8-num:]); err != nil {
 		return 0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
-	}
-	return int64(binary.BigEndian.Uint64(data)), nil
+	return bigen.Uint64(data[:]), nil
 }
 
 // readFloatBytes returns a float by reading num bytes from the input stream
 func (r *CBORReader) readFloatBytes(num int) (float64, error) {
-	data, err := r.readBytes(num)
+	bits, err := r.readUintBytes(num)
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16ToFloat64(uint16(bits)), nil
+	case 4:
+		return float64(math.Float32frombits(uint32(bits))), nil
+	default:
+		return math.Float64frombits(bits), nil
+	}
+}
+
+// float16ToFloat64 converts the bits of an IEEE 754 half precision number
+func float16ToFloat64(bits uint16) float64 {
+	exp := int(bits>>10) & 0x1f
+	mant := float64(bits & 0x3ff)
+	var val float64
+	switch exp {
+	case 0:
+		val = math.Ldexp(mant, -24)
+	case 0x1f:
+		if mant != 0 {
+			return math.NaN()
+		}
+		val = math.Inf(1)
+	default:
+		val = math.Ldexp(mant+1024, exp-25)
+	}
+	if bits&0x8000 != 0 {
+		return -val
 	}
-	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	return val
 }
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
+	if num <= maxPrealloc {
+		buff := make([]byte, num)
+		_, err := io.ReadFull(r.rdr, buff)
+		return buff, err
 	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
+
+	buff := bytes.Buffer{}
+	if _, err := io.CopyN(&buff, r.rdr, int64(num)); err != nil {
 		return nil, err
 	}
-	return buff, nil
+	return buff.Bytes(), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From 9025514ed95b2e21b6a6861a5e7ae2f69dd286d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 02/85] fix: read the last NDJSON entry when the final newline
 is missing

---
 dsio/ndjson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..c20aa28 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -57,7 +58,8 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	// the final line isn't required to end with a newline
+	if err != nil && !(err == io.EOF && len(bytes.TrimSpace(line)) > 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From 3d7d58f42c3be50eebb48da066a507501b0e2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 03/85] fix: report a failed write when closing the pretty JSON
 writer

---
 dsio/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..bd92495 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -652,7 +652,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
-- 
2.43.0


From 3db0ac143a38aaf467dc948e258b5e1e3f022402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 04/85] fix: entries rejected by the JSON writer leave its
 output well formed

---
 dsio/json.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index bd92495..23690e6 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -548,6 +548,13 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	// an entry that can't be encoded must not affect what is written
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -562,12 +569,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -599,7 +600,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -627,6 +627,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 22dc6ae88f34f77397bf459ba7cb7977b4a32efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 05/85] fix: don't swallow errors in the first element of a
 nested JSON array

---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 23690e6..3e710b9 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -452,7 +452,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 38e259fc63de0dfb4ed5ebe81e6516ff1a61b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 06/85] fix: JSON reader handling of surrogate pairs, truncated
 escapes, large integers and deep nesting

Surrogate pair escapes were read as '??', an escape sequence cut short by the
end of the string or of the input panicked, integers outside of the int64 range
(which the JSON writer produces for large floats) were errors, and deeply
nested input exhausted the stack.
---
 dsio/cbor.go |  7 ++---
 dsio/json.go | 81 +++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 9c7ab60..b05ceb5 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -163,9 +163,6 @@ const indefiniteLength int = -1
 
 const cborTypeMask byte = 0xe0
 
-// cborMaxDepth limits how deeply values may be nested
-const cborMaxDepth = 10000
-
 // readTopLevel determines the top-level type, either "object" or "array"
 func (r *CBORReader) readTopLevel() (byte, int, error) {
 	b, err := r.rdr.ReadByte()
@@ -218,8 +215,8 @@ func (r *CBORReader) readStringKey() (string, error) {
 // readValue reads a value of any type from the input stream. depth is the
 // number of containers the value is nested in
 func (r *CBORReader) readValue(depth int) (interface{}, error) {
-	if depth > cborMaxDepth {
-		return nil, fmt.Errorf("exceeded max nesting depth of %d", cborMaxDepth)
+	if depth > maxDepth {
+		return nil, fmt.Errorf("exceeded max nesting depth of %d", maxDepth)
 	}
 
 	b, err := r.rdr.ReadByte()
diff --git a/dsio/json.go b/dsio/json.go
index 3e710b9..439eef5 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,9 +5,13 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
+	"unicode"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -22,6 +26,7 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	depth       int          // number of containers currently being read
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -302,6 +307,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
+				if s+3 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+3]
 				s += 3
 				bs, err := hex.DecodeString(string(hexChars))
@@ -314,18 +324,37 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
+				if s+5 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
+				code, err := strconv.ParseUint(string(srcBuff[s+1:s+5]), 16, 16)
 				s += 5
-				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
-				if err == nil {
-					for _, b := range []byte(res) {
-						dstBuff[d] = b
-						d++
-					}
-				} else {
+				if err != nil {
 					dstBuff[d] = '?'
 					d++
+					continue
+				}
+				char := rune(code)
+				if utf16.IsSurrogate(char) {
+					// Characters outside of the basic plane are written as a pair
+					// of escape sequences
+					pair := unicode.ReplacementChar
+					if s+6 <= limit && srcBuff[s] == '\\' && srcBuff[s+1] == 'u' {
+						if low, err := strconv.ParseUint(string(srcBuff[s+2:s+6]), 16, 16); err == nil {
+							pair = utf16.DecodeRune(char, rune(low))
+						}
+					}
+					if pair == unicode.ReplacementChar {
+						dstBuff[d] = '?'
+						d++
+						continue
+					}
+					char = pair
+					s += 6
 				}
+				d += utf8.EncodeRune(dstBuff[d:], char)
 				continue
 			} else {
 				// Unknown escape sequence is treated as the bare character
@@ -352,12 +381,14 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
-			var more bool
+		// an escape sequence may move i past the end of the buffer by more than
+		// one character
+		more := true
+		for more && i >= len(buff) {
 			buff, more = r.extendBuffer(buff)
-			if !more {
-				break
-			}
+		}
+		if !more {
+			break
 		}
 		if buff[i] == '\\' {
 			// Skip the backslash, which marks an escape sequence. This avoids
@@ -402,19 +433,32 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
-		if err != nil {
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			// a valid number, but not one that fits an integer
+			return strconv.ParseFloat(text, 64)
+		} else if err != nil {
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
 
+// maxDepth limits how deeply values may be nested, it's the same limit that
+// encoding/json uses
+const maxDepth = 10000
+
 func (r *JSONReader) readObject() (interface{}, error) {
 	if !r.readTokenChar('{') {
 		return nil, fmt.Errorf("Expected: opening '{' for object")
 	}
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxDepth {
+		return nil, fmt.Errorf("exceeded max nesting depth of %d", maxDepth)
+	}
 	obj := make(map[string]interface{})
 	if r.readTokenChar('}') {
 		return obj, nil
@@ -445,6 +489,11 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	if !r.readTokenChar('[') {
 		return nil, fmt.Errorf("Expected: opening '[' for array")
 	}
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxDepth {
+		return nil, fmt.Errorf("exceeded max nesting depth of %d", maxDepth)
+	}
 	array := make([]interface{}, 0)
 	if r.readTokenChar(']') {
 		return array, nil
-- 
2.43.0


From 0ca9cbb84a28949157c744cc471b571fb548a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 07/85] fix: report write errors of the CSV header row and of
 closing the CSV writer

---
 dsio/csv.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..be0f6a3 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -220,7 +220,10 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			if err := writer.Write(cols.Titles()); err != nil {
+				log.Debug(err.Error())
+				return nil, fmt.Errorf("error writing header row: %w", err)
+			}
 		}
 	}
 
@@ -286,6 +289,10 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		log.Debug(err.Error())
+		return fmt.Errorf("error closing writer: %w", err)
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From 9251b52bca973daf8fbdf7be345387ee85f6b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 08/85] fix: CSV writer errors on values it cannot encode
 instead of dropping them

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index be0f6a3..daed07d 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -264,13 +264,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -279,6 +283,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("unrecognized encoding type: %#v", v)
 		}
 	}
 
-- 
2.43.0


From 82b8df5ae3524a1e4497cd3bb35f6e76e2f5ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 09/85] fix: CSV reader sets entry indices

---
 dsio/csv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index daed07d..20eff8e 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -17,6 +17,7 @@ import (
 type CSVReader struct {
 	st         *dataset.Structure
 	readHeader bool
+	rowsRead   int
 	r          *csv.Reader
 	close      func() error
 
@@ -103,7 +104,9 @@ func (r *CSVReader) ReadEntry() (Entry, error) {
 		return Entry{}, err
 	}
 
-	return Entry{Value: value}, nil
+	ent := Entry{Index: r.rowsRead, Value: value}
+	r.rowsRead++
+	return ent, nil
 }
 
 // Close finalizes the reader
-- 
2.43.0


From 785b58c9eae0864d7b910be2ba8214a8a0a8509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 10/85] fix: keep CSV rows made of a single empty value

---
 dsio/csv.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 20eff8e..779a64b 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -180,6 +180,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	wr          io.Writer
 	st          *dataset.Structure
 	close       func() error
 
@@ -217,13 +218,14 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		wr:    cw,
 		types: types,
 		close: close,
 	}
 
 	if opts != nil {
 		if opts.HeaderRow {
-			if err := writer.Write(cols.Titles()); err != nil {
+			if err := wr.writeRow(cols.Titles()); err != nil {
 				log.Debug(err.Error())
 				return nil, fmt.Errorf("error writing header row: %w", err)
 			}
@@ -246,11 +248,25 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
-		return w.w.Write(strs)
+		return w.writeRow(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
 }
 
+// writeRow writes one record. The csv package writes a lone empty field as a
+// blank line, which readers skip. It needs to be quoted to count as a record
+func (w *CSVWriter) writeRow(row []string) error {
+	if len(row) != 1 || row[0] != "" {
+		return w.w.Write(row)
+	}
+	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
+	_, err := w.wr.Write([]byte("\"\"\n"))
+	return err
+}
+
 // encode uses specified types from structure's schema to go values to strings
 func encode(vs []interface{}) ([]string, error) {
 	strings := make([]string, len(vs))
-- 
2.43.0


From 99d290a8a2be3eef3a3c93816876f027ff952254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 11/85] fix: replace a lone carriage return at the end of a
 read buffer

---
 dsio/replacecr/replace_cr.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..5b98cc3 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,12 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// a \n still to be added after the \r that was last read
+	addLF bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,18 +48,24 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.addLF {
+			c.addLF = false
+			p[n] = '\n'
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
-			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
-			}
+		// any time we encounter \r, check to see if \n follows
+		// if next char is not \n, add it in manually. There may only be space for
+		// it on the next call to Read
+		if p[n] == '\r' {
+			pk, err := c.rdr.Peek(1)
+			c.addLF = (err == nil && pk[0] != '\n') || err == io.EOF
 		}
 
 		n++
-- 
2.43.0


From d02797cd04c3f8d711e6f0e05394f5e902d4ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 12/85] fix: ConvertFile returns errors reading or writing
 entries, and closes its reader

---
 dsio/dsio.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..d13677c 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -212,6 +212,7 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 		err = fmt.Errorf("creating entry reader: %w", err)
 		return
 	}
+	defer rr.Close()
 
 	if !all {
 		rr = &PagedReader{
@@ -220,7 +221,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From 89d7c40d8237ef8033ace76afb86d77561374c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 13/85] fix: identity reader ends after its last entry instead
 of racing to detect it

---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From 08874c125dab84b48e28518ba76302e6c5b8a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 14/85] fix: JSON detection only examines bytes that were read

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From b534ab6295fa459345ae145170ab5e20cce5bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 15/85] fix: don't hand out the package level base schemas from
 detection

---
 detect/cbor.go            | 4 ++--
 detect/determineFields.go | 7 +++++++
 detect/json.go            | 6 +++---
 detect/xlsx.go            | 2 +-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..35badb0 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return baseSchema("array"), n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return baseSchema("object"), n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..fbf8d5c 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -45,6 +45,13 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 	}
 }
 
+// baseSchema returns a minimum schema for a top level type. Callers own what
+// detection returns, so it must not be one of the package level schemas of
+// dataset
+func baseSchema(topLevelType string) map[string]interface{} {
+	return map[string]interface{}{"type": topLevelType}
+}
+
 type field struct {
 	Title string    `json:"title,omitempty"`
 	Type  vals.Type `json:"type,omitempty"`
diff --git a/detect/json.go b/detect/json.go
index 83a4e12..ba015f1 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf[:count] {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return baseSchema("array"), n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return baseSchema("object"), n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,5 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return baseSchema("array"), 0, nil
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..46dea63 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return baseSchema("array"), 0, nil
 }
-- 
2.43.0


From 3cfb2e29146739b4b7dc8cdab7ddcd32c81855b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 16/85] fix: detect the structure of compressed bodies from
 decompressed data

---
 detect/detect.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..95958a0 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -13,6 +13,7 @@ import (
 	logger "github.com/ipfs/go-log"
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/compression"
+	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/qfs"
 )
 
@@ -133,8 +134,20 @@ func FromReader(format dataset.DataFormat, comp compression.Format, data io.Read
 		Format:      format.String(),
 		Compression: comp.String(),
 	}
-	st.Schema, n, err = Schema(st, data)
-	return
+	if comp == compression.FmtNone {
+		st.Schema, n, err = Schema(st, data)
+		return
+	}
+
+	tr := dsio.NewTrackedReader(data)
+	dr, err := compression.Decompressor(comp.String(), tr)
+	if err != nil {
+		return nil, tr.BytesRead(), err
+	}
+	st.Schema, _, err = Schema(st, dr)
+	// closing waits for the decompressor to stop using the reader
+	dr.Close()
+	return st, tr.BytesRead(), err
 }
 
 // FormatFromFilename extracts data & compression formats from a filename string
-- 
2.43.0


From 48c9cdbad15a8b4f872ac223ded401af835f9915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 17/85] fix: recognize numbers outside of the float32 range

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From ef411108b72bd3e488ba6221a9e5398b645fcdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 18/85] fix: decode JSON values surrounded by whitespace

---
 vals/coding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..982a593 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,6 +1,7 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 )
@@ -70,6 +71,8 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	// surrounding whitespace is part of the encoding, not of the value
+	data = bytes.TrimSpace(data)
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From 057b45eda57ddcff7a2315ac77f3a5686a31e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:40 +0000
Subject: [PATCH 19/85] fix: compare container values by content, however they
 were created

---
 vals/compare.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/vals/compare.go b/vals/compare.go
index e5996a2..5c5d07f 100644
--- a/vals/compare.go
+++ b/vals/compare.go
@@ -3,17 +3,38 @@ package vals
 import (
 	"bytes"
 	"fmt"
-	"reflect"
 )
 
 // Equal checks if two Values are the same
 func Equal(a, b Value) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
 	if a.Type() != b.Type() {
 		return false
 	}
 	switch a.Type() {
-	case TypeObject, TypeArray:
-		return reflect.DeepEqual(a, b)
+	case TypeObject:
+		keys := a.Keys()
+		if len(keys) != len(b.Keys()) {
+			return false
+		}
+		for _, key := range keys {
+			if !Equal(a.MapIndex(key), b.MapIndex(key)) {
+				return false
+			}
+		}
+		return true
+	case TypeArray:
+		if a.Len() != b.Len() {
+			return false
+		}
+		for i := 0; i < a.Len(); i++ {
+			if !Equal(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
 	case TypeNumber:
 		return a.Number() == b.Number()
 	case TypeInteger:
-- 
2.43.0


From 579bdb42f74544c2128ebf5cd973a567f5755db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:49 +0000
Subject: [PATCH 20/85] fix: tabular columns with an empty type list keep the
 default type and encode to JSON

---
 tabular/tabular.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..ef52046 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -91,7 +91,7 @@ func (ct ColType) HasType(t string) bool {
 func (ct ColType) MarshalJSON() ([]byte, error) {
 	switch len(ct) {
 	case 0:
-		return nil, nil
+		return []byte("[]"), nil
 	case 1:
 		return json.Marshal(ct[0])
 	default:
@@ -186,6 +186,11 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
+					if len(types) == 0 {
+						// a list without any type says nothing, keep the default
+						setType = false
+						break
+					}
 					cols[i].Type = &types
 				}
 			case "description":
-- 
2.43.0


From cf74ddcaa35513b4e558e979962cd3701f91f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:24 +0000
Subject: [PATCH 21/85] fix: malformed XLSX bodies are refused with an error
 instead of ending the process

---
 dsio/xlsx.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..ca82f4e 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -1,9 +1,12 @@
 package dsio
 
 import (
+	"archive/zip"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
 
 	"github.com/360EntSecGroup-Skylar/excelize"
@@ -44,7 +47,7 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 		types: types,
 	}
 
-	rdr.file, rdr.err = excelize.OpenReader(r)
+	rdr.file, rdr.err = openXLSX(r)
 	if rdr.err != nil {
 		return rdr, rdr.err
 	}
@@ -59,12 +62,61 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 	}
 
 	if rdr.err == nil {
-		rdr.r, rdr.err = rdr.file.Rows(rdr.sheetName)
+		rdr.r, rdr.err = rdr.rows()
 	}
 
 	return rdr, rdr.err
 }
 
+// openXLSX opens a spreadsheet, checking the zip archive it's contained in
+// first. excelize ends the process if a file of the archive can't be opened and
+// ignores errors reading one
+func openXLSX(r io.Reader) (f *excelize.File, err error) {
+	defer recoverXLSX(&err)
+
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
+	if err != nil {
+		return nil, err
+	}
+	for _, zf := range zr.File {
+		rc, err := zf.Open()
+		if err != nil {
+			return nil, err
+		}
+		_, err = io.Copy(ioutil.Discard, rc)
+		rc.Close()
+		if err != nil {
+			return nil, err
+		}
+	}
+	return excelize.OpenReader(bytes.NewReader(data))
+}
+
+// recoverXLSX turns a panic of excelize, which doesn't check the contents of
+// a spreadsheet, into an error
+func recoverXLSX(err *error) {
+	if p := recover(); p != nil {
+		*err = fmt.Errorf("invalid xlsx data: %v", p)
+	}
+}
+
+func (r *XLSXReader) rows() (rows *excelize.Rows, err error) {
+	defer recoverXLSX(&err)
+	return r.file.Rows(r.sheetName)
+}
+
+func (r *XLSXReader) nextColumns() (cols []string, err error) {
+	defer recoverXLSX(&err)
+	if !r.r.Next() {
+		return nil, io.EOF
+	}
+	return r.r.Columns(), nil
+}
+
 // Structure gives this reader's structure
 func (r *XLSXReader) Structure() *dataset.Structure {
 	return r.st
@@ -75,10 +127,10 @@ func (r *XLSXReader) ReadEntry() (Entry, error) {
 	if r.err != nil {
 		return Entry{}, r.err
 	}
-	if !r.r.Next() {
-		return Entry{}, io.EOF
+	cols, err := r.nextColumns()
+	if err != nil {
+		return Entry{}, err
 	}
-	cols := r.r.Columns()
 	vals, err := r.decode(cols)
 	if err != nil {
 		return Entry{}, err
-- 
2.43.0


From f25034706bc761b3e92d67d0eee35239c8baa00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 22/85] fix: zst bodies cut inside the first frame header end
 in an error

---
 compression/compression.go | 51 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/compression/compression.go b/compression/compression.go
index 23279a4..1de8319 100644
--- a/compression/compression.go
+++ b/compression/compression.go
@@ -3,6 +3,7 @@
 package compression
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 
@@ -82,11 +83,18 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 
 	switch f {
 	case FmtZStandard:
+		src := &zstdSource{r: r}
+		if buf, ok := r.(*bytes.Buffer); ok {
+			// decoded in place when it's handed to the decoder as is
+			src.n = int64(buf.Len())
+		} else {
+			r = src
+		}
 		rdr, err := zstd.NewReader(r)
 		if err != nil {
 			return nil, err
 		}
-		return zstdReadCloserShim{rdr}, nil
+		return zstdReadCloserShim{rdr, src}, nil
 	case FmtGZip:
 		return gzip.NewReader(r)
 	}
@@ -99,9 +107,50 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 // error function with an error that will never occur
 type zstdReadCloserShim struct {
 	*zstd.Decoder
+	src *zstdSource
+}
+
+func (d zstdReadCloserShim) Read(p []byte) (int, error) {
+	n, err := d.Decoder.Read(p)
+	if err == io.EOF {
+		err = d.src.endErr()
+	}
+	return n, err
+}
+
+func (d zstdReadCloserShim) WriteTo(w io.Writer) (int64, error) {
+	n, err := d.Decoder.WriteTo(w)
+	if err == nil && d.src.endErr() != io.EOF {
+		err = d.src.endErr()
+	}
+	return n, err
 }
 
 func (d zstdReadCloserShim) Close() error {
 	d.Decoder.Close()
 	return nil
 }
+
+// minZstdFrame is the length of the shortest possible zstd frame
+const minZstdFrame = 8
+
+// zstdSource counts the bytes given to a zstd decoder, which takes input that
+// ends within the header of the first frame for an empty stream
+type zstdSource struct {
+	r io.Reader
+	n int64
+}
+
+func (s *zstdSource) Read(p []byte) (int, error) {
+	n, err := s.r.Read(p)
+	s.n += int64(n)
+	return n, err
+}
+
+// endErr is the error that ends decompression once all input is consumed
+func (s *zstdSource) endErr() error {
+	if s.n > 0 && s.n < minZstdFrame {
+		return io.ErrUnexpectedEOF
+	}
+	return io.EOF
+}
-- 
2.43.0


From 804f4b5c8c7ab507d17f13bcf59a063747d9d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 23/85] fix: validating against a schema with null subschemas
 errors instead of panicking

---
 validate/data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..5e9e1d8 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -12,7 +12,14 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) (err error) {
+	// jsonschema doesn't check schemas for null where a schema is required
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("invalid schema: %v", p)
+		}
+	}()
+
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
-- 
2.43.0


From 522dfa90f1e88b208cb2e148c0fa96a4ce496f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:40 +0000
Subject: [PATCH 24/85] fix: writing a step file reports errors writing
 separators

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 1a0598be385dd677713160a0ecf40275b9fe16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:38 +0000
Subject: [PATCH 25/85] fix: zst decompression reports a source that ends in
 io.ErrUnexpectedEOF

---
 compression/compression.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/compression/compression.go b/compression/compression.go
index 1de8319..b90711d 100644
--- a/compression/compression.go
+++ b/compression/compression.go
@@ -135,20 +135,28 @@ func (d zstdReadCloserShim) Close() error {
 const minZstdFrame = 8
 
 // zstdSource counts the bytes given to a zstd decoder, which takes input that
-// ends within the header of the first frame for an empty stream
+// ends within the header of the first frame for an empty stream, and keeps the
+// error they ended with, which it may take for the end of input
 type zstdSource struct {
-	r io.Reader
-	n int64
+	r   io.Reader
+	n   int64
+	err error
 }
 
 func (s *zstdSource) Read(p []byte) (int, error) {
 	n, err := s.r.Read(p)
 	s.n += int64(n)
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
 	return n, err
 }
 
 // endErr is the error that ends decompression once all input is consumed
 func (s *zstdSource) endErr() error {
+	if s.err != nil {
+		return s.err
+	}
 	if s.n > 0 && s.n < minZstdFrame {
 		return io.ErrUnexpectedEOF
 	}
-- 
2.43.0


From 1ba4d7bad3629bcf0ad67a52ce5b29c005d4d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:02 +0000
Subject: [PATCH 26/85] fix: encoding a document no longer modifies it

---
 dataset.go |  7 ++++---
 meta.go    |  3 ---
 readme.go  | 10 ++++++----
 viz.go     | 10 ++++++----
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..eddb018 100644
--- a/dataset.go
+++ b/dataset.go
@@ -436,11 +436,12 @@ func (ds *Dataset) MarshalJSON() ([]byte, error) {
 	if ds.Path != "" && ds.IsEmpty() {
 		return json.Marshal(ds.Path)
 	}
-	if ds.Qri == "" {
-		ds.Qri = KindDataset.String()
+	d := _dataset(*ds)
+	if d.Qri == "" {
+		d.Qri = KindDataset.String()
 	}
 
-	return json.Marshal(_dataset(*ds))
+	return json.Marshal(d)
 }
 
 // internal struct for json unmarshaling
diff --git a/meta.go b/meta.go
index e648efc..6e0e49b 100644
--- a/meta.go
+++ b/meta.go
@@ -102,9 +102,6 @@ func NewMetaRef(path string) *Meta {
 
 // Meta gives access to additional metadata not covered by dataset metadata
 func (md *Meta) Meta() map[string]interface{} {
-	if md.meta == nil {
-		md.meta = map[string]interface{}{}
-	}
 	shallowCopy := map[string]interface{}{}
 	for key, val := range md.meta {
 		shallowCopy[key] = val
diff --git a/readme.go b/readme.go
index e8a4685..68c2bb1 100644
--- a/readme.go
+++ b/readme.go
@@ -197,9 +197,6 @@ func (r *Readme) MarshalJSON() ([]byte, error) {
 	if r.Path != "" && r.IsEmpty() {
 		return json.Marshal(r.Path)
 	}
-	if r.Qri == "" {
-		r.Qri = KindReadme.String()
-	}
 
 	return r.MarshalJSONObject()
 }
@@ -246,8 +243,13 @@ func UnmarshalReadme(v interface{}) (*Readme, error) {
 // MarshalJSONObject always marshals to a json Object, even if Readme is empty or
 // a reference
 func (r *Readme) MarshalJSONObject() ([]byte, error) {
+	kind := r.Qri
+	if kind == "" {
+		kind = KindReadme.String()
+	}
+
 	data := map[string]interface{}{
-		"qri": r.Qri,
+		"qri": kind,
 	}
 
 	if r.Format != "" {
diff --git a/viz.go b/viz.go
index 13d34d1..75f3b6a 100644
--- a/viz.go
+++ b/viz.go
@@ -200,9 +200,6 @@ func (v *Viz) MarshalJSON() ([]byte, error) {
 	if v.Path != "" && v.IsEmpty() {
 		return json.Marshal(v.Path)
 	}
-	if v.Qri == "" {
-		v.Qri = KindViz.String()
-	}
 
 	return v.MarshalJSONObject()
 }
@@ -248,8 +245,13 @@ func UnmarshalViz(v interface{}) (*Viz, error) {
 // MarshalJSONObject always marshals to a json Object, even if Viz is empty or
 // a reference
 func (v *Viz) MarshalJSONObject() ([]byte, error) {
+	kind := v.Qri
+	if kind == "" {
+		kind = KindViz.String()
+	}
+
 	data := map[string]interface{}{
-		"qri": v.Qri,
+		"qri": kind,
 	}
 
 	if v.Format != "" {
-- 
2.43.0


From bf8960c1d5b540ead1c40990ae287404ab1b9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 27/85] fix: viz and readme components keep their path when
 encoded

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index 68c2bb1..3fd081e 100644
--- a/readme.go
+++ b/readme.go
@@ -255,6 +255,9 @@ func (r *Readme) MarshalJSONObject() ([]byte, error) {
 	if r.Format != "" {
 		data["format"] = r.Format
 	}
+	if r.Path != "" {
+		data["path"] = r.Path
+	}
 	if r.Text != "" {
 		data["text"] = r.Text
 	}
diff --git a/viz.go b/viz.go
index 75f3b6a..ef74f82 100644
--- a/viz.go
+++ b/viz.go
@@ -257,6 +257,9 @@ func (v *Viz) MarshalJSONObject() ([]byte, error) {
 	if v.Format != "" {
 		data["format"] = v.Format
 	}
+	if v.Path != "" {
+		data["path"] = v.Path
+	}
 	if v.Text != "" {
 		data["text"] = v.Text
 	}
-- 
2.43.0


From 1a4db73fffd1a93d642d17432ac2f22356e78e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:07 +0000
Subject: [PATCH 28/85] fix: only encode a structure as a path reference when
 no other field is set

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From bb99c2086656079babaa915d6602703695a1b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 29/85] fix: IsEmpty considers additional metadata and a
 dataset's version count

---
 dataset.go | 1 +
 meta.go    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataset.go b/dataset.go
index eddb018..babe7bd 100644
--- a/dataset.go
+++ b/dataset.go
@@ -102,6 +102,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.ID == "" &&
 		ds.Meta == nil &&
 		ds.Name == "" &&
+		ds.NumVersions == 0 &&
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
diff --git a/meta.go b/meta.go
index 6e0e49b..2f82283 100644
--- a/meta.go
+++ b/meta.go
@@ -77,7 +77,8 @@ func (md *Meta) DropDerivedValues() {
 
 // IsEmpty checks to see if dataset has any fields other than the internal path
 func (md *Meta) IsEmpty() bool {
-	return md.AccessURL == "" &&
+	return len(md.meta) == 0 &&
+		md.AccessURL == "" &&
 		md.AccrualPeriodicity == "" &&
 		md.Citations == nil &&
 		md.Contributors == nil &&
-- 
2.43.0


From c5aa3acb61ecea0e24881c95fe63af89bbeb7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:13 +0000
Subject: [PATCH 30/85] fix: decoding meta keeps additional keys, and keywords
 only as keywords

---
 meta.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/meta.go b/meta.go
index 2f82283..a5fb7e4 100644
--- a/meta.go
+++ b/meta.go
@@ -316,7 +316,10 @@ func (md *Meta) MarshalJSON() ([]byte, error) {
 func (md *Meta) MarshalJSONObject() ([]byte, error) {
 	data := md.Meta()
 
-	data["qri"] = KindMeta.String()
+	data["qri"] = md.Qri
+	if md.Qri == "" {
+		data["qri"] = KindMeta.String()
+	}
 
 	if md.AccessURL != "" {
 		data["accessURL"] = md.AccessURL
@@ -397,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From 9d15062115d6d9645394506c2115edbb2b645b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:55 +0000
Subject: [PATCH 31/85] fix: assigning copies components instead of sharing
 them with the source

---
 dataset.go | 38 +++++++++++++++++++++-----------------
 meta.go    |  6 +++++-
 readme.go  |  3 +++
 viz.go     |  3 +++
 4 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/dataset.go b/dataset.go
index babe7bd..9faf7e3 100644
--- a/dataset.go
+++ b/dataset.go
@@ -371,16 +371,18 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		}
 
 		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+			ds.Commit = &Commit{}
+		}
+		if ds.Commit != nil {
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
 		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+			ds.Meta = &Meta{}
+		}
+		if ds.Meta != nil {
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -399,33 +401,35 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.ProfileID = d.ProfileID
 		}
 		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+			ds.Stats = &Stats{}
+		}
+		if ds.Stats != nil {
 			ds.Stats.Assign(d.Stats)
 		}
 		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+			ds.Structure = &Structure{}
+		}
+		if ds.Structure != nil {
 			ds.Structure.Assign(d.Structure)
 		}
 		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+			ds.Transform = &Transform{}
+		}
+		if ds.Transform != nil {
 			ds.Transform.Assign(d.Transform)
 		}
 		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+			ds.Viz = &Viz{}
+		}
+		if ds.Viz != nil {
 			ds.Viz.Assign(d.Viz)
 		}
 		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+			ds.Readme = &Readme{}
+		}
+		if ds.Readme != nil {
 			ds.Readme.Assign(d.Readme)
 		}
-
-		// TODO - wut dis?
-		ds.Commit.Assign(d.Commit)
 	}
 }
 
diff --git a/meta.go b/meta.go
index a5fb7e4..78efc4e 100644
--- a/meta.go
+++ b/meta.go
@@ -242,7 +242,11 @@ func (md *Meta) Assign(metas ...*Meta) {
 		}
 
 		if m.meta != nil {
-			md.meta = m.meta
+			meta := md.Meta()
+			for key, val := range m.meta {
+				meta[key] = val
+			}
+			md.meta = meta
 		}
 
 		if m.AccessURL != "" {
diff --git a/readme.go b/readme.go
index 3fd081e..d819b11 100644
--- a/readme.go
+++ b/readme.go
@@ -181,6 +181,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.scriptFile != nil {
 			r.scriptFile = rs.scriptFile
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 		if rs.ScriptPath != "" {
 			r.ScriptPath = rs.ScriptPath
 		}
diff --git a/viz.go b/viz.go
index ef74f82..b338dee 100644
--- a/viz.go
+++ b/viz.go
@@ -181,6 +181,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.scriptFile != nil {
 			v.scriptFile = vs.scriptFile
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 		if vs.ScriptPath != "" {
 			v.ScriptPath = vs.ScriptPath
 		}
-- 
2.43.0


From e67361770cea1290ab541c48a5fe51d8faefb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 32/85] fix: assigning a dataset carries over its version count
 and kind

---
 dataset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataset.go b/dataset.go
index 9faf7e3..832f0d0 100644
--- a/dataset.go
+++ b/dataset.go
@@ -388,6 +388,9 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.Name != "" {
 			ds.Name = d.Name
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
 		if d.Path != "" {
 			ds.Path = d.Path
 		}
@@ -400,6 +403,9 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
+		if d.Qri != "" {
+			ds.Qri = d.Qri
+		}
 		if ds.Stats == nil && d.Stats != nil {
 			ds.Stats = &Stats{}
 		}
-- 
2.43.0


From 11ab7b88a673dc8f1e484fa12510d8d2945b6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 33/85] fix: inlining a script closes the file it opened

---
 readme.go    | 1 +
 transform.go | 1 +
 viz.go       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/readme.go b/readme.go
index d819b11..c9cd120 100644
--- a/readme.go
+++ b/readme.go
@@ -84,6 +84,7 @@ func (r *Readme) InlineScriptFile(ctx context.Context, resolver qfs.PathResolver
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
diff --git a/transform.go b/transform.go
index fa50159..ac94979 100644
--- a/transform.go
+++ b/transform.go
@@ -79,6 +79,7 @@ func (q *Transform) InlineScriptFile(ctx context.Context, resolver qfs.PathResol
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
diff --git a/viz.go b/viz.go
index b338dee..2cc797a 100644
--- a/viz.go
+++ b/viz.go
@@ -65,6 +65,7 @@ func (v *Viz) InlineScriptFile(ctx context.Context, resolver qfs.PathResolver) e
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
-- 
2.43.0


From 83f692d410e0fdc5d45ded34afd1c54f1d62a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:30 +0000
Subject: [PATCH 34/85] fix: CSV options map has the separator in the form
 options are parsed from

---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From fa4a3302884806a8dcd51a649a5646576ee18c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 35/85] fix: abstract column names are distinct past 26 squared
 columns

---
 structure.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/structure.go b/structure.go
index 257695a..f5c3ff7 100644
--- a/structure.go
+++ b/structure.go
@@ -344,21 +344,9 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 // to letters, using repeating characters to handle values
 // greater than 26
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for d >= 0 {
+		s = string(b26chars[d%26]) + s
+		d = d/26 - 1
 	}
 	return s
 }
-- 
2.43.0


From 86b28ad76f3b68b7acd4caba70e1c3f31f9c327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:35 +0000
Subject: [PATCH 36/85] fix: refuse kinds without a separator between type and
 version

---
 kind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind.go b/kind.go
index 570a966..9386dc0 100644
--- a/kind.go
+++ b/kind.go
@@ -44,7 +44,7 @@ func (k Kind) String() string {
 
 // Valid checks to see if a kind string is valid
 func (k Kind) Valid() error {
-	if len(k) < 4 {
+	if len(k) < 4 || k[2] != ':' {
 		return fmt.Errorf("invalid kind: '%s'. kind must be in the form [type]:[version]", k.String())
 	}
 	return nil
-- 
2.43.0


From 31aa44c1bcad01b8e4a5d56c3455e85f91d97813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 37/85] fix: rendering without a script or body file errors
 instead of panicking

---
 dsviz/render.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..7333260 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("no viz script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
@@ -161,6 +164,9 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, dataset.ErrNoBody
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
-- 
2.43.0


From 2d7f8d5d4c038b5d24f32844566d4ff447097b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:19 +0000
Subject: [PATCH 38/85] fix: rendering restores all of the body and script
 files

---
 dsviz/render.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 7333260..23e1ebc 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -46,13 +46,12 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
+	// restore consumed script file
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), io.MultiReader(vizScriptBuf, script)))
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
 
-	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))
-
 	vizDs, err := vizDataset(ds)
 	if err != nil {
 		return nil, err
@@ -169,10 +168,17 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file, including any data that hasn't been read
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
+
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
 	}
+	// readers must be closed before restoring the body file, some read ahead
+	defer rr.Close()
 
 	if offset >= 0 && limit >= 0 {
 		rr = &dsio.PagedReader{
@@ -182,17 +188,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		}
 	}
 
-	bodyEntries, err := readEntries(rr)
-	if err != nil {
-		return nil, err
-	}
-
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
-	return bodyEntries, nil
+	return readEntries(rr)
 }
 
 // readEntries reads entries and returns them as a native go array or map
-- 
2.43.0


From 31d08121eb0cf1574064ecb3e0f036cfa6278101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:21 +0000
Subject: [PATCH 39/85] fix: previewing a body without a structure errors
 instead of panicking

---
 preview/preview.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..26914b6 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without structure")
+			return nil, fmt.Errorf("structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
-- 
2.43.0


From 9318d4000746858236bb81e0d1cb792f8eea30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:23 +0000
Subject: [PATCH 40/85] fix: only readmes longer than the preview limit are
 elided

---
 preview/preview.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 26914b6..3150398 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -63,13 +63,14 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		f := ds.Readme.ScriptFile()
 		tr := io.TeeReader(f, buf)
 
-		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		// read one byte more than fits to find out if there is anything to elide
+		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes+1))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
 		}
-		if len(content) >= MaxReadmePreviewBytes {
-			content = append(content, []byte("...")...)
+		if len(content) > MaxReadmePreviewBytes {
+			content = append(content[:MaxReadmePreviewBytes], []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
 
-- 
2.43.0


From 0bcda36e4efbd70fcee67a9ae4c42efe685b388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:26 +0000
Subject: [PATCH 41/85] fix: failed previews restore the files they read from

---
 preview/preview.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 3150398..1c7d28b 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -65,6 +65,7 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 
 		// read one byte more than fits to find out if there is anything to elide
 		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes+1))
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
@@ -73,8 +74,6 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			content = append(content[:MaxReadmePreviewBytes], []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
@@ -97,13 +96,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From dd220a40d17835ddc0411ec7ec3d1f4e7d0fa21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:42 +0000
Subject: [PATCH 42/85] fix: histogram frequencies of merged bins are positive

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..8db623f 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -403,7 +403,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From 8d7aa753244f0f0de54849a82bf36436af60f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:44 +0000
Subject: [PATCH 43/85] fix: merging histogram sketches keeps the minimum and
 maximum

---
 dsstats/histosketch/histosketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 8db623f..33fcbee 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,8 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From 0f019647b61ba8fefa2df2c43453f2844188a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:46 +0000
Subject: [PATCH 44/85] fix: decoding a histogram sketch counts merged
 centroids

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 33fcbee..4e10b2d 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -274,7 +274,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From d1daeae0ba852be47f5d2011ae15f65116fc3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 45/85] fix: decoding an empty or damaged histogram sketch does
 not lead to panics

---
 dsstats/histosketch/histosketch.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 4e10b2d..6a51b9c 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -264,7 +264,15 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	h.cs = make([]centroid, 0, num+1)
+	if num < 0 || num > len(data) {
+		return fmt.Errorf("invalid number of centroids '%v'", num)
+	}
+	capacity := num + 1
+	if num == 0 {
+		// sketches have room for at least one centroid
+		capacity = 2
+	}
+	h.cs = make([]centroid, 0, capacity)
 	// Read all centroids.
 	h.count = 0.0
 	for i := 0; i < num; i++ {
-- 
2.43.0


From 60669f7fe1df15fb531d09c2e562cc02dadc3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:51 +0000
Subject: [PATCH 46/85] fix: histogram sketch sums count all values of an exact
 centroid

---
 dsstats/histosketch/histosketch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 6a51b9c..cfc4391 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -177,7 +177,12 @@ func (h Sketch) Sum(p float64) float64 {
 	}
 	mi, mj := math.Abs(ci.m), math.Abs(cj.m)
 	mb := mi + (mj-mi)*(p-ci.p)/(cj.p-ci.p)
-	return s + mi/2.0 + (mi+mb)*(p-ci.p)/2.0/(cj.p-ci.p)
+	sum := s + mi/2.0 + (mi+mb)*(p-ci.p)/2.0/(cj.p-ci.p)
+	if ci.m > 0 {
+		// all values of an exact centroid are known to be <= p
+		sum = math.Max(sum, s+mi)
+	}
+	return sum
 }
 
 // Quantile returns an estimate of the pth quantile of the histogram for 0.0 <= p <= 1.0
-- 
2.43.0


From 8e3a09c7719753e1279d555e3acef208b44f48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:53 +0000
Subject: [PATCH 47/85] fix: adding a value zero times leaves a histogram
 sketch as it is

---
 dsstats/histosketch/histosketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index cfc4391..8fb1632 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -88,6 +88,9 @@ func (h *Sketch) Add(value float64) {
 
 // AddMany is equivalent to calling Add(value) count times.
 func (h *Sketch) AddMany(value float64, count int64) {
+	if count < 1 {
+		return
+	}
 	if value < h.min {
 		h.min = value
 	}
-- 
2.43.0


From 4ca89531aaf913ab5e7b0af98bf6e16a9f94f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 48/85] fix: creating a histogram sketch from an empty sample
 does not panic

---
 dsstats/histosketch/histosketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 8fb1632..a33ff10 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -316,6 +316,8 @@ func NewFromSample(sample []float64, n int) *Sketch {
 	sort.Float64s(sample)
 	if n < 1 {
 		panic("Number of centroids must be at least 1")
+	} else if len(sample) == 0 {
+		return New(uint(n))
 	} else if n > len(sample) {
 		// Why are you using the NewFromSample method if want more
 		// centroids than the samples you have? Oh well, we'll do the
-- 
2.43.0


From 97d3265b7af48a459673542f8397cd1666af9d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:58 +0000
Subject: [PATCH 49/85] fix: closing a stats accumulator again keeps the mean

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..2c255e2 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -301,6 +301,7 @@ type numericAcc struct {
 	count           int
 	min             float64
 	max             float64
+	sum             float64
 	mean            float64
 	median          float64
 	dividers        []float64
@@ -346,7 +347,7 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 
 	acc.histogramSketch.Add(v)
 
-	acc.mean += v
+	acc.sum += v
 	acc.count++
 	if v > acc.max {
 		acc.max = v
@@ -387,7 +388,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 // Close finalizes the accumulator
 func (acc *numericAcc) Close() {
 	// finalize avg
-	acc.mean = acc.mean / float64(acc.count)
+	acc.mean = acc.sum / float64(acc.count)
 	acc.dividers, acc.histogram = acc.histogramSketch.Read()
 	acc.median = acc.histogramSketch.Median()
 }
-- 
2.43.0


From 543a32c372ba760e3fec79e6ec44b86eae3fcb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:00 +0000
Subject: [PATCH 50/85] fix: stats report minimum and maximum beyond the range
 of integers

---
 dsstats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 2c255e2..4a50c65 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -349,10 +349,10 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 
 	acc.sum += v
 	acc.count++
-	if v > acc.max {
+	if acc.count == 1 || v > acc.max {
 		acc.max = v
 	}
-	if v < acc.min {
+	if acc.count == 1 || v < acc.min {
 		acc.min = v
 	}
 }
-- 
2.43.0


From 254e9f6ddcd71e02c8ffe321581be5c8e53fe249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:02 +0000
Subject: [PATCH 51/85] fix: stats consider integers greater than a signed
 64-bit integer holds

---
 dsstats/stats.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 4a50c65..07bc2f4 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -170,7 +170,7 @@ func newAccumulator(val interface{}) accumulator {
 		return &nullAcc{}
 	case float64, float32:
 		return newNumericAcc("number")
-	case int, int32, int64:
+	case int, int32, int64, uint64:
 		return newNumericAcc("integer")
 	case string:
 		return newStringAcc()
@@ -337,6 +337,8 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 		v = float64(x)
 	case int64:
 		v = float64(x)
+	case uint64:
+		v = float64(x)
 	case float32:
 		v = float64(x)
 	case float64:
-- 
2.43.0


From f2566950036428c485f7cc49b6ce560f9231cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:18 +0000
Subject: [PATCH 52/85] fix: generated booleans take both values

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From d1098691f34b119f1e9c7fab64905cc531943499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 53/85] fix: comparing without transient values drops them on
 both sides

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From 8bdc8d8236b003ed9dac7ebbd7f86b2c712f7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 54/85] fix: column types that cannot be interpreted are
 reported as a problem

---
 tabular/tabular.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index ef52046..bbcd6a3 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -175,9 +175,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 					cols[i].Title = title
 				}
 			case "type":
-				setType = true
 				switch x := val.(type) {
 				case string:
+					setType = true
 					cols[i].Type = &ColType{x}
 				case []interface{}:
 					types := ColType{}
@@ -188,9 +188,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 					}
 					if len(types) == 0 {
 						// a list without any type says nothing, keep the default
-						setType = false
 						break
 					}
+					setType = true
 					cols[i].Type = &types
 				}
 			case "description":
-- 
2.43.0


From dde89b17fdab4ee619ced59aed733f92932bd167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:02 +0000
Subject: [PATCH 55/85] fix: refusing an object schema as a table is an
 ErrInvalidTabularSchema

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index bbcd6a3..b194ad5 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -217,5 +217,5 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 }
 
 func objectWrapperColumns(sch map[string]interface{}) (Columns, []string, error) {
-	return nil, nil, fmt.Errorf("unfinished")
+	return nil, nil, fmt.Errorf("%w: object schemas are unfinished", ErrInvalidTabularSchema)
 }
-- 
2.43.0


From 6dcc717b3232410553bc18b1e1ba760cf60ee45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:17 +0000
Subject: [PATCH 56/85] fix: a failed structure detection gives back the body
 it sampled

---
 detect/detect.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 95958a0..7132e43 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -56,6 +56,16 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -77,15 +87,6 @@ func Structure(ds *dataset.Dataset) error {
 	if ds.Structure.Schema == nil {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
-
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From 1c25531f81830a3d7604aedcec7b256ad970aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 57/85] fix: data that is not an array has no tabular schema

---
 detect/detect.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/detect/detect.go b/detect/detect.go
index 7132e43..8748609 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -222,6 +222,8 @@ func TabularSchemaFromTabularData(source interface{}) (map[string]interface{}, e
 		schema["items"] = items
 	case map[string]interface{}:
 		return nil, fmt.Errorf("%w: cannot interpret object-based tabular schemas", ErrInvalidTabularData)
+	default:
+		return nil, fmt.Errorf("%w: data must be an array of rows", ErrInvalidTabularData)
 	}
 
 	return schema, nil
-- 
2.43.0


From 5bc496aa7fc1a3fe4808518eb1faa3626ea915e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:26 +0000
Subject: [PATCH 58/85] fix: column letters past ZZZ are those of their column

---
 dsio/xlsx.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index ca82f4e..c6cfe24 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -363,13 +363,10 @@ func smooshBase26Slice(b26 []int) []int {
 	// least significant part.
 	lastButOnePart := len(b26) - 2
 	for i := lastButOnePart; i > 0; i-- {
-		part := b26[i]
-		if part == 0 {
-			greaterPart := b26[i-1]
-			if greaterPart > 0 {
-				b26[i-1] = greaterPart - 1
-				b26[i] = 26
-			}
+		// a part below 1 has lent to a lesser part, and borrows in turn
+		if b26[i] < 1 {
+			b26[i-1]--
+			b26[i] += 26
 		}
 	}
 	return b26
-- 
2.43.0


From 28ecb823965942c4454475c76b7daa6da638222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:02 +0000
Subject: [PATCH 59/85] fix: an empty component diff can be asked for its
 changes and summarised

---
 dsdiff/dsdiff.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..0321a09 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -17,9 +17,23 @@ type SubDiff struct {
 	a, b []byte
 }
 
+// Modified reports whether there is any difference. A SubDiff without a Diff is
+// an empty one
+func (d *SubDiff) Modified() bool {
+	return d != nil && d.Diff != nil && d.Diff.Modified()
+}
+
+// Deltas gives the differences, none for an empty SubDiff
+func (d *SubDiff) Deltas() []jdiff.Delta {
+	if d == nil || d.Diff == nil {
+		return nil
+	}
+	return d.Diff.Deltas()
+}
+
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
-	return json.Marshal(d.Diff.Deltas())
+	return json.Marshal(d.Deltas())
 }
 
 // SummarizeToString outputs a substring in a one of a few formats
-- 
2.43.0


From 880b22591877e894f35f937ed2b5a8e9a878843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:52 +0000
Subject: [PATCH 60/85] fix: merging sketches keeps the exact minimum and
 maximum

---
 dsstats/histosketch/histosketch.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index a33ff10..aaa22d6 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,11 +141,13 @@ func (h *Sketch) AddMany(value float64, count int64) {
 
 // Merge merges two Sketches together.
 func (h *Sketch) Merge(x Sketch) {
+	// the mean of a centroid can round to just outside of the values it stands
+	// for, so the extremes come from the two sketches, not from the centroids
+	min, max := math.Min(h.min, x.min), math.Max(h.max, x.max)
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
-	h.min = math.Min(h.min, x.min)
-	h.max = math.Max(h.max, x.max)
+	h.min, h.max = min, max
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From a2f16e19c86fd5596bc7cbeb273c74131ee41e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 61/85] fix: text in a null column of a csv or xlsx body is
 left as a string

---
 dsio/csv.go  | 4 +++-
 dsio/xlsx.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 779a64b..398c8f8 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -158,7 +158,9 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index c6cfe24..f18a42f 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -182,7 +182,9 @@ func (r *XLSXReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
-- 
2.43.0


From 180fc19392b21f50efc528648d20ade22a4a936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:02 +0000
Subject: [PATCH 62/85] fix: null parses as the null type it is recognized as

---
 vals/type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vals/type.go b/vals/type.go
index efeadef..fc64aa6 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -150,6 +150,10 @@ func (dt Type) Parse(value []byte) (parsed interface{}, err error) {
 		parsed, err = ParseJSON(value)
 	case TypeObject:
 		parsed, err = ParseJSON(value)
+	case TypeNull:
+		if string(value) != "null" {
+			err = fmt.Errorf("%q is not a %s value", value, dt.String())
+		}
 	default:
 		return nil, errors.New("cannot parse unknown data type")
 	}
-- 
2.43.0


From a0887cb51b54aeb8f1dd459055b6b7918a3bc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:04 +0000
Subject: [PATCH 63/85] fix: parsed integers can be converted back to text

---
 vals/type.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index fc64aa6..8a1741a 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -171,12 +171,16 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 		}
 		str = s
 	case TypeInteger:
-		num, ok := value.(int)
-		if !ok {
+		switch num := value.(type) {
+		case int:
+			str = strconv.FormatInt(int64(num), 10)
+		case int64:
+			// the type integers are parsed to
+			str = strconv.FormatInt(num, 10)
+		default:
 			err = fmt.Errorf("%v is not an %s value", value, dt.String())
 			return
 		}
-		str = strconv.FormatInt(int64(num), 10)
 	case TypeNumber:
 		num, ok := value.(float64)
 		if !ok {
-- 
2.43.0


From 4e63b6d6abcebfecdce5a0384d46712f74bd9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:07 +0000
Subject: [PATCH 64/85] fix: null values can be converted to text

---
 vals/type.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vals/type.go b/vals/type.go
index 8a1741a..5f0b2e0 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -202,6 +202,12 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 			return
 		}
 		str = string(data)
+	case TypeNull:
+		if value != nil {
+			err = fmt.Errorf("%v is not a %s value", value, dt.String())
+			return
+		}
+		str = "null"
 	default:
 		err = fmt.Errorf("cannot get string value of unknown datatype")
 		return
-- 
2.43.0


From d11e99b99d6ad5992a0c692f8b2ee64dd94558a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:59 +0000
Subject: [PATCH 65/85] fix: only JSON whitespace may surround a JSON value

---
 vals/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/coding.go b/vals/coding.go
index 982a593..8972a9a 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -72,7 +72,7 @@ func ConvertDecoded(d interface{}) (Value, error) {
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
 	// surrounding whitespace is part of the encoding, not of the value
-	data = bytes.TrimSpace(data)
+	data = bytes.Trim(data, " \t\r\n")
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From 7b06e3840abeb392fbe07d3bfee21cc78bc7e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:22 +0000
Subject: [PATCH 66/85] fix: validation errors past the first 5000 entries
 point at their entry

---
 validate/data.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index 5e9e1d8..5244cd6 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,9 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) (err error) {
+// flushBatch validates buffered entries, offset is the number of entries in
+// previous batches
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, offset int, errs *[]jsonschema.KeyError) (err error) {
 	// jsonschema doesn't check schemas for null where a schema is required
 	defer func() {
 		if p := recover(); p != nil {
@@ -33,11 +37,27 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
+	if _, ok := doc.([]interface{}); ok && offset > 0 {
+		for i, keyErr := range *validationState.Errs {
+			(*validationState.Errs)[i].PropertyPath = offsetPath(keyErr.PropertyPath, offset)
+		}
+	}
 	*errs = append(*errs, *validationState.Errs...)
 
 	return nil
 }
 
+// offsetPath adds offset to the array index a path starts with
+func offsetPath(path string, offset int) string {
+	tokens := strings.SplitN(strings.TrimPrefix(path, "/"), "/", 2)
+	index, err := strconv.Atoi(tokens[0])
+	if err != nil {
+		return path
+	}
+	tokens[0] = strconv.Itoa(index + offset)
+	return "/" + strings.Join(tokens, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -51,6 +71,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 	}
 
 	valErrors := []jsonschema.KeyError{}
+	flushed := 0
 
 	buf, err := dsio.NewEntryBuffer(&dataset.Structure{
 		Format: "json",
@@ -66,10 +87,11 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, st, jsch, flushed, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			flushed = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -92,7 +114,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, st, jsch, flushed, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 787a33f3be48bb83ebc619b4bbb29904efbe79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 67/85] fix: files restored after a render keep their path

---
 dsviz/render.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 23e1ebc..dfa1855 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -43,11 +43,11 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
+	teedVizScriptFile := qfs.NewMemfileReader(script.FullPath(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
 	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), io.MultiReader(vizScriptBuf, script)))
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FullPath(), io.MultiReader(vizScriptBuf, script)))
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
@@ -170,7 +170,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
 	defer func() {
 		// restore body file, including any data that hasn't been read
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FullPath(), io.MultiReader(bodyBytesBuf, bodyFile)))
 	}()
 
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
-- 
2.43.0


From 1bd2626efac708d85e5940c9205862ef55d30062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:16 +0000
Subject: [PATCH 68/85] fix: report predefined templates that don't parse

---
 dsviz/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index dfa1855..fbec73a 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -84,7 +84,9 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	})
 
 	for name, tmplText := range PredefinedHTMLTemplates {
-		tmpl.New(name).Parse(tmplText)
+		if _, err = tmpl.New(name).Parse(tmplText); err != nil {
+			return nil, fmt.Errorf("parsing predefined template '%s': %s", name, err.Error())
+		}
 	}
 
 	if tmpl, err = tmpl.Parse(string(tmplBytes)); err != nil {
-- 
2.43.0


From f14bc41d46e49578eb0ee63d74b94ba3094cf334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:29 +0000
Subject: [PATCH 69/85] fix: report read errors of a JSON body, not the entry
 they cut short

---
 dsio/json.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 439eef5..ab4724d 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -25,6 +25,8 @@ type JSONReader struct {
 	objKey      string
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
+	readErr     error        // error from reading the source
+	starved     bool         // needed data that couldn't be read because of readErr
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
 	depth       int          // number of containers currently being read
 }
@@ -73,10 +75,19 @@ const blockSize = 4096
 
 // ReadEntry reads one JSON record from the reader
 func (r *JSONReader) ReadEntry() (Entry, error) {
+	ent, err := r.readEntry()
+	if r.starved {
+		// what has been read is cut short by the failing source
+		return Entry{}, r.readErr
+	}
+	return ent, err
+}
+
+func (r *JSONReader) readEntry() (Entry, error) {
 	ent := Entry{}
 
 	// Fill up buffer.
-	_, _ = r.reader.Peek(blockSize)
+	r.fillBuffer()
 
 	// Open JSON container the first time this is called.
 	if !r.initialized {
@@ -237,6 +248,17 @@ func (r *JSONReader) currentBuffer() []byte {
 	return buff
 }
 
+// fillBuffer reads from the source, keeping any error other than reaching the
+// end. Data that came before the error is still used.
+func (r *JSONReader) fillBuffer() {
+	if r.readErr != nil {
+		return
+	}
+	if _, err := r.reader.Peek(blockSize); err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+		r.readErr = err
+	}
+}
+
 func (r *JSONReader) extendBuffer(orig []byte) ([]byte, bool) {
 	// Preserve the contents of the existing buffer.
 	preserve := append([]byte(nil), orig...)
@@ -245,13 +267,14 @@ func (r *JSONReader) extendBuffer(orig []byte) ([]byte, bool) {
 	r.prevSize += size
 	// Clear the reader's buffer, fill it back up.
 	_, _ = r.reader.Discard(size)
-	_, _ = r.reader.Peek(blockSize)
+	r.fillBuffer()
 	size = r.reader.Buffered()
 	if size > 0 {
 		// If successful, append buffers.
 		extend, _ := r.reader.Peek(size)
 		return append(preserve, extend...), true
 	}
+	r.starved = r.readErr != nil
 	return orig, false
 }
 
-- 
2.43.0


From e4b158461517181917edfb7d99c4f15a5fc15f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 70/85] fix: a metadata value that is refused leaves the
 metadata as it was

---
 meta.go | 60 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/meta.go b/meta.go
index 78efc4e..060a4d0 100644
--- a/meta.go
+++ b/meta.go
@@ -145,6 +145,24 @@ func strSliceVal(val interface{}) (s []string, err error) {
 	return
 }
 
+// setStr sets dst to a string value, leaving it as is if val isn't a string
+func setStr(dst *string, val interface{}) error {
+	s, err := strVal(val)
+	if err == nil {
+		*dst = s
+	}
+	return err
+}
+
+// setStrSlice sets dst to a []string value, leaving it as is if val isn't one
+func setStrSlice(dst *[]string, val interface{}) error {
+	s, err := strSliceVal(val)
+	if err == nil {
+		*dst = s
+	}
+	return err
+}
+
 // Set writes value to key in metadata, erroring if the type is invalid
 // input values are expected to be json.Unmarshal types
 func (md *Meta) Set(key string, val interface{}) (err error) {
@@ -152,66 +170,70 @@ func (md *Meta) Set(key string, val interface{}) (err error) {
 	switch strings.TrimSpace(strings.ToLower(key)) {
 	// string meta fields
 	case "qri":
-		md.Qri, err = strVal(val)
+		err = setStr(&md.Qri, val)
 	case "accessurl":
-		md.AccessURL, err = strVal(val)
+		err = setStr(&md.AccessURL, val)
 	case "accrualperiodicity":
-		md.AccrualPeriodicity, err = strVal(val)
+		err = setStr(&md.AccrualPeriodicity, val)
 	case "description":
-		md.Description, err = strVal(val)
+		err = setStr(&md.Description, val)
 	case "downloadurl":
-		md.DownloadURL, err = strVal(val)
+		err = setStr(&md.DownloadURL, val)
 	case "homeurl":
-		md.HomeURL, err = strVal(val)
+		err = setStr(&md.HomeURL, val)
 	case "identifier":
-		md.Identifier, err = strVal(val)
+		err = setStr(&md.Identifier, val)
 	case "readmeurl":
-		md.ReadmeURL, err = strVal(val)
+		err = setStr(&md.ReadmeURL, val)
 	case "title":
-		md.Title, err = strVal(val)
+		err = setStr(&md.Title, val)
 	case "version":
-		md.Version, err = strVal(val)
+		err = setStr(&md.Version, val)
 
 	// []string meta fields
 	case "keywords":
-		md.Keywords, err = strSliceVal(val)
+		err = setStrSlice(&md.Keywords, val)
 	case "language":
-		md.Language, err = strSliceVal(val)
+		err = setStrSlice(&md.Language, val)
 	case "theme":
-		md.Theme, err = strSliceVal(val)
+		err = setStrSlice(&md.Theme, val)
 
 	// "exotic" meta fields
 	case "citations":
 		if sl, ok := val.([]interface{}); ok {
-			md.Citations = make([]*Citation, len(sl))
+			citations := make([]*Citation, len(sl))
 			for i, ci := range sl {
 				c := &Citation{}
 				if err = c.Decode(ci); err != nil {
 					err = fmt.Errorf("parsing citations index %d: %s", i, err.Error())
 					return
 				}
-				md.Citations[i] = c
+				citations[i] = c
 			}
+			md.Citations = citations
 		} else {
 			err = fmt.Errorf("citation: expected interface slice")
 		}
 	case "contributors":
 		if sl, ok := val.([]interface{}); ok {
-			md.Contributors = make([]*User, len(sl))
+			contributors := make([]*User, len(sl))
 			for i, ci := range sl {
 				c := &User{}
 				if err = c.Decode(ci); err != nil {
 					err = fmt.Errorf("parsing contributors index %d: %s", i, err.Error())
 					return
 				}
-				md.Contributors[i] = c
+				contributors[i] = c
 			}
+			md.Contributors = contributors
 		} else {
 			err = fmt.Errorf("contributors: expected interface slice")
 		}
 	case "license":
-		md.License = &License{}
-		err = md.License.Decode(val)
+		license := &License{}
+		if err = license.Decode(val); err == nil {
+			md.License = license
+		}
 
 	// everything else
 	default:
-- 
2.43.0


From 2cb3ae313d0e9d04295c111ca43bcdc30928368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:20 +0000
Subject: [PATCH 71/85] fix: XLSX writer refuses text a cell cannot hold
 instead of altering it

---
 dsio/xlsx.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index f18a42f..bac5bd0 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"io/ioutil"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/360EntSecGroup-Skylar/excelize"
 	"github.com/qri-io/dataset"
@@ -261,6 +262,11 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		for _, str := range strs {
+			if err := checkCellString(str); err != nil {
+				return fmt.Errorf("error encoding entry: %s", err.Error())
+			}
+		}
 		for i, str := range strs {
 			w.f.SetCellValue(w.sheetName, w.axis(i), str)
 		}
@@ -270,6 +276,26 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 	return fmt.Errorf("expected array value to write xlsx row. got: %v", ent)
 }
 
+// maxXLSXCellLen is the number of bytes excelize cuts the text of a cell to
+const maxXLSXCellLen = 32767
+
+// checkCellString reports text that would be altered when written to a cell
+func checkCellString(str string) error {
+	if len(str) > maxXLSXCellLen {
+		return fmt.Errorf("xlsx cells hold at most %d bytes of text, got %d", maxXLSXCellLen, len(str))
+	}
+	if !utf8.ValidString(str) {
+		return fmt.Errorf("xlsx cells only hold valid UTF-8 text")
+	}
+	for _, r := range str {
+		// characters XML documents cannot hold
+		if r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
+			return fmt.Errorf("xlsx cells cannot hold the character %q", r)
+		}
+	}
+	return nil
+}
+
 func (w *XLSXWriter) axis(colIDx int) string {
 	return ColIndexToLetters(colIDx) + strconv.Itoa(w.rowsWritten+1)
 }
-- 
2.43.0


From cc0552f86e30ac6a4b1a1dc0184608187378938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 72/85] fix: CBOR reader doesn't leave a decompressor behind
 when the schema is refused

---
 dsio/cbor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b05ceb5..9b1b995 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -37,14 +37,14 @@ func NewCBORReader(st *dataset.Structure, r io.Reader) (*CBORReader, error) {
 		return nil, err
 	}
 
-	r, close, err := maybeWrapDecompressor(st, r)
+	tlt, err := GetTopLevelType(st)
 	if err != nil {
+		log.Debug(err.Error())
 		return nil, err
 	}
 
-	tlt, err := GetTopLevelType(st)
+	r, close, err := maybeWrapDecompressor(st, r)
 	if err != nil {
-		log.Debug(err.Error())
 		return nil, err
 	}
 
-- 
2.43.0


From 7b8ce4d7ae8c90276067ea55ccf7e6f85721c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 73/85] fix: Calculate closes the reader it opens

---
 dsstats/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 07bc2f4..550294f 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -43,6 +43,7 @@ func Calculate(ds *dataset.Dataset) (st *dataset.Stats, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer r.Close()
 
 	return CalculateFromEntryReader(r)
 }
-- 
2.43.0


From 2be5e0e121d604a704ad15ea90f3a36e9c1586b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 74/85] fix: test case loading closes the files it reads

---
 dstest/dstest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 768e5cf..6ca7f68 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -276,6 +276,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 	for _, df := range dataset.SupportedDataFormats() {
 		path := fmt.Sprintf("%s/body.%s", dir, df)
 		if f, err := os.Open(path); err == nil {
+			defer f.Close()
 			data, err := ioutil.ReadAll(f)
 			return data, fmt.Sprintf("body.%s", df), err
 		}
@@ -287,6 +288,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 func ReadInputTransformScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "transform.star")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "transform.star", err
 	}
@@ -297,6 +299,7 @@ func ReadInputTransformScript(dir string) ([]byte, string, error) {
 func ReadInputVizScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "template.html")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "template.html", err
 	}
@@ -307,6 +310,7 @@ func ReadInputVizScript(dir string) ([]byte, string, error) {
 func ReadInputReadmeScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "readme.md")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "readme.md", err
 	}
-- 
2.43.0


From d16980f4de94e554b114d03d4408a0d68590fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:53 +0000
Subject: [PATCH 75/85] fix: JSON reader takes missing values for null

---
 dsio/json.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index ab4724d..06339ab 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -215,6 +215,8 @@ func (r *JSONReader) readValue() (interface{}, error) {
 		return r.readObject()
 	case '[':
 		return r.readArray()
+	case ',', ':', '}':
+		return nil, fmt.Errorf("Expected: value")
 	default:
 		return nil, nil
 	}
-- 
2.43.0


From 2b7830e6bf11287bfcb11f277fb522b1b036f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 76/85] fix: JSON reader with a small buffer loses errors of
 its source

Peeking at more than the buffer holds reports the full buffer instead of the
error of the source, so what a failing source cut short was delivered.
---
 dsio/json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 06339ab..68a8b3f 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -256,7 +256,12 @@ func (r *JSONReader) fillBuffer() {
 	if r.readErr != nil {
 		return
 	}
-	if _, err := r.reader.Peek(blockSize); err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+	size := blockSize
+	if r.reader.Size() < size {
+		// Peeking at more than the buffer holds hides errors from the source.
+		size = r.reader.Size()
+	}
+	if _, err := r.reader.Peek(size); err != nil && err != io.EOF && err != bufio.ErrBufferFull {
 		r.readErr = err
 	}
 }
-- 
2.43.0


From 83f80aedfb19012b310adc1061c1f323e3cf89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 77/85] fix: carriage return replacement loses an error after a
 carriage return

An error found while looking at what follows a \r was dropped. A source that
fails once and then ends looked complete.
---
 dsio/replacecr/replace_cr.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index 5b98cc3..6b14117 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -34,6 +34,8 @@ type crlfReplaceReader struct {
 	rdr *bufio.Reader
 	// a \n still to be added after the \r that was last read
 	addLF bool
+	// error from looking at what follows a \r
+	err error
 }
 
 // Read implements io.Reader for crlfReplaceReader
@@ -55,6 +57,10 @@ func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 			continue
 		}
 
+		if c.err != nil {
+			return n, c.err
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
@@ -66,6 +72,9 @@ func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 		if p[n] == '\r' {
 			pk, err := c.rdr.Peek(1)
 			c.addLF = (err == nil && pk[0] != '\n') || err == io.EOF
+			if err != io.EOF {
+				c.err = err
+			}
 		}
 
 		n++
-- 
2.43.0


From a92fd5b6698dcd8cda47d0441edc9fda501c7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 78/85] fix: loading test cases concurrently writes a map
 without a lock

---
 dstest/dstest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 6ca7f68..3a3e43c 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 
 	logger "github.com/ipfs/go-log"
 	"github.com/jinzhu/copier"
@@ -77,7 +78,10 @@ func DatasetChecksum(ds *dataset.Dataset) string {
 	return hex.EncodeToString(sum[:])
 }
 
-var testCaseCache = make(map[string]TestCase)
+var (
+	testCaseCache   = make(map[string]TestCase)
+	testCaseCacheLk sync.Mutex
+)
 
 // BodyFile creates a new in-memory file from data & filename properties
 func (t TestCase) BodyFile() qfs.File {
@@ -255,7 +259,9 @@ func NewTestCaseFromDir(dir string) (tc TestCase, err error) {
 
 	preserve := TestCase{}
 	copier.Copy(&preserve, &tc)
+	testCaseCacheLk.Lock()
 	testCaseCache[dir] = preserve
+	testCaseCacheLk.Unlock()
 	return
 }
 
-- 
2.43.0


From 86b15c3b27c0e6405056e2db948848d27e9d7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 79/85] fix: dsgen ignores flags after the structure, as its
 usage shows them

---
 generate/dsgen/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 1f1c1b4..b7bc9de 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -37,6 +37,8 @@ func main() {
 		fmt.Println(help)
 		os.Exit(1)
 	}
+	// flags may follow the structure, as the usage shows
+	flag.CommandLine.Parse(args[1:])
 	if args[0] == "fixed" {
 		if err := writeFixedFile(rows, 0); err != nil {
 			fmt.Println(err)
-- 
2.43.0


From 5938b738baa50d3f8033c70d641c3ec232ca3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 80/85] fix: dsgen exits successfully when its rows cannot be
 written

---
 generate/dsgen/main.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index b7bc9de..dfdb67d 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -77,11 +77,14 @@ func generateFile(structurePath string, lines int) error {
 		if err != nil {
 			return err
 		}
-		w.WriteEntry(ent)
+		if err := w.WriteEntry(ent); err != nil {
+			return err
+		}
+	}
+	if err := w.Close(); err != nil {
+		return err
 	}
-	w.Close()
-	gen.Close()
-	return nil
+	return gen.Close()
 }
 
 func writeFixedFile(lines, diffStart int) error {
@@ -107,5 +110,5 @@ func writeFixedFile(lines, diffStart int) error {
 	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From fc86d6b2c4f771d1cf7e2728cee7e4201493d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 81/85] fix: mean of large numbers overflows

---
 dsstats/stats.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 550294f..5372e77 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -297,12 +298,16 @@ const (
 	minInt   = -maxInt - 1
 )
 
+// sumScale divides the values of the sum that can't overflow
+const sumScale = 1 << 64
+
 type numericAcc struct {
 	typ             string
 	count           int
 	min             float64
 	max             float64
 	sum             float64
+	scaledSum       float64
 	mean            float64
 	median          float64
 	dividers        []float64
@@ -351,6 +356,7 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 	acc.histogramSketch.Add(v)
 
 	acc.sum += v
+	acc.scaledSum += v / sumScale
 	acc.count++
 	if acc.count == 1 || v > acc.max {
 		acc.max = v
@@ -392,6 +398,10 @@ func (acc *numericAcc) Map() map[string]interface{} {
 func (acc *numericAcc) Close() {
 	// finalize avg
 	acc.mean = acc.sum / float64(acc.count)
+	if math.IsInf(acc.sum, 0) || math.IsNaN(acc.sum) {
+		// the sum of finite values can be too large for a float64
+		acc.mean = math.Max(acc.min, math.Min(acc.max, acc.scaledSum/float64(acc.count)*sumScale))
+	}
 	acc.dividers, acc.histogram = acc.histogramSketch.Read()
 	acc.median = acc.histogramSketch.Median()
 }
-- 
2.43.0


From 94d15160f67bac487918a962e54da35fcb946af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 82/85] fix: sketches of large numbers overflow

---
 dsstats/histosketch/histosketch.go | 43 +++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index aaa22d6..f2b241a 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -46,10 +46,33 @@ type centroid struct {
 
 func (c *centroid) Merge(d centroid) {
 	s := math.Abs(c.m) + math.Abs(d.m)
-	c.p = (c.p*math.Abs(c.m) + d.p*math.Abs(d.m)) / s
+	p := (c.p*math.Abs(c.m) + d.p*math.Abs(d.m)) / s
+	if math.IsInf(p, 0) || math.IsNaN(p) {
+		// the products of large values overflow, weights of at most one don't
+		p = math.Max(c.p, math.Min(d.p, c.p*(math.Abs(c.m)/s)+d.p*(math.Abs(d.m)/s)))
+	}
+	c.p = p
 	c.m = -s
 }
 
+// fraction returns how far p is on the way from a to b, whose distance can be
+// too large for a float64
+func fraction(a, b, p float64) float64 {
+	if math.IsInf(b-a, 0) {
+		a, b, p = a/2, b/2, p/2
+	}
+	return (p - a) / (b - a)
+}
+
+// between returns the value at fraction f of the way from a to b
+func between(a, b, f float64) float64 {
+	v := a + (b-a)*f
+	if math.IsInf(v, 0) || math.IsNaN(v) {
+		v = math.Max(a, math.Min(b, a*(1-f)+b*f))
+	}
+	return v
+}
+
 // Sketch encapsulates the data for a probabalistic/sketch histogram implementation
 type Sketch struct {
 	cs    []centroid
@@ -181,8 +204,9 @@ func (h Sketch) Sum(p float64) float64 {
 		return s + ci.m
 	}
 	mi, mj := math.Abs(ci.m), math.Abs(cj.m)
-	mb := mi + (mj-mi)*(p-ci.p)/(cj.p-ci.p)
-	sum := s + mi/2.0 + (mi+mb)*(p-ci.p)/2.0/(cj.p-ci.p)
+	f := fraction(ci.p, cj.p, p)
+	mb := mi + (mj-mi)*f
+	sum := s + mi/2.0 + (mi+mb)*f/2.0
 	if ci.m > 0 {
 		// all values of an exact centroid are known to be <= p
 		sum = math.Max(sum, s+mi)
@@ -234,12 +258,12 @@ func (h Sketch) Quantile(p float64) float64 {
 	cjm := math.Abs(cj.m)
 	a := cjm - cim
 	if a == 0 {
-		return ci.p + (cj.p-ci.p)*(d/cim)
+		return between(ci.p, cj.p, d/cim)
 	}
 	b := 2.0 * cim
 	c := -2.0 * d
 	z := (-b + math.Sqrt(b*b-4*a*c)) / (2 * a)
-	return ci.p + (cj.p-ci.p)*z
+	return between(ci.p, cj.p, z)
 }
 
 // MarshalBinary implements serialization for use with gob/encoding. See tests for an example.
@@ -391,13 +415,18 @@ func NewFromSample(sample []float64, n int) *Sketch {
 	centroid := n - 1
 	i := len(sample) - 1
 	for centroid >= 0 {
-		start := b[i][centroid]
-		sum := 0.0
+		start, end := b[i][centroid], i
+		sum, scaled := 0.0, 0.0
 		count := float64(i - start + 1)
 		for ; i >= start; i-- {
 			sum += sample[i]
+			scaled += sample[i] / count
 		}
 		p := sum / count
+		if math.IsInf(p, 0) || math.IsNaN(p) {
+			// the sum of large values overflows
+			p = math.Max(sample[start], math.Min(sample[end], scaled))
+		}
 		h.cs[centroid].p = p
 		// Need to negate counts of centroids with counts > 1
 		// for compatibility with the behavior of the rest of
-- 
2.43.0


From a4b1b0dd16a3cad3e2aee161bdcb531365a557d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 83/85] fix: unsigned integers out of range become negative
 typed values

---
 vals/coding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 8972a9a..c23ae43 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 )
 
 // ConvertDecoded converts an interface that has been decoded into standard go types to a Value
@@ -20,6 +21,9 @@ func ConvertDecoded(d interface{}) (Value, error) {
 	case uint32:
 		return Integer(v), nil
 	case uint64:
+		if v > math.MaxInt64 {
+			return nil, fmt.Errorf("integer out of range: %d", v)
+		}
 		return Integer(v), nil
 	case float64:
 		return Number(v), nil
-- 
2.43.0


From dfa6e767619dea9af2ee92777d3f99af48c53e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:32 +0000
Subject: [PATCH 84/85] fix: validating bodies in parallel with schemas that
 have an $id crashed

---
 validate/data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validate/data.go b/validate/data.go
index 5244cd6..a781ffd 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -14,6 +15,10 @@ import (
 
 const batchSize = 5000
 
+// schemaLock guards the registry of identified schemas that jsonschema keeps
+// for all validations
+var schemaLock sync.Mutex
+
 // flushBatch validates buffered entries, offset is the number of entries in
 // previous batches
 func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, offset int, errs *[]jsonschema.KeyError) (err error) {
@@ -36,6 +41,8 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 	if err := json.Unmarshal(buf.Bytes(), &doc); err != nil {
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
+	schemaLock.Lock()
+	defer schemaLock.Unlock()
 	validationState := jsch.Validate(ctx, doc)
 	if _, ok := doc.([]interface{}); ok && offset > 0 {
 		for i, keyErr := range *validationState.Errs {
-- 
2.43.0


From a6187c94134bf6eccc98ab6577b3e71c69210536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 85/85] fix: the first schemas parsed in parallel raced on
 loading the keywords

---
 structure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structure.go b/structure.go
index f5c3ff7..ace2210 100644
--- a/structure.go
+++ b/structure.go
@@ -99,6 +99,11 @@ func (s *Structure) DropDerivedValues() {
 	s.Qri = ""
 }
 
+// parsing schemas in parallel must not race on loading the keywords
+func init() {
+	jsonschema.LoadDraft2019_09()
+}
+
 // JSONSchema parses the Schema field into a json-schema
 func (s *Structure) JSONSchema() (*jsonschema.Schema, error) {
 	// TODO (b5): SLOW. we should teach the jsonschema package to parse native go types,
-- 
2.43.0

