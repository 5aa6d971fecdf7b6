From cd74e73ed80410ae2fd5fc8e4005ef53e64b783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 01/46] fix: msgpack length checks no longer wrap around at 32
 bits

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From d940caefd2cf691a6e075ffcb877f251df063561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 02/46] fix: size a 255-byte msgpack byte array like the
 encoder writes it

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 0a8dd47faeedd3963e0b18becfac4d25267234e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 03/46] fix: msgpack Skip handles ext types, large maps and
 truncated values

---
 msgpack/decoder.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..628e8c7 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -608,12 +608,12 @@ func (d *Decoder) Skip() error {
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -621,9 +621,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -667,7 +667,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -676,36 +676,58 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8:
+			length, err := d.reader.GetUint8()
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(uint32(length))
+		case FormatExt16:
+			length, err := d.reader.GetUint16()
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(uint32(length))
+		case FormatExt32:
+			length, err := d.reader.GetUint32()
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	// A failed discard leaves its error in the reader.
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From ad3677d830aedd2ceb69a19bd5a8ec730017a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 04/46] fix: msgpack collections of a false size or with
 unhashable keys are errors, not crashes

---
 msgpack/decoder.go | 54 +++++++++++++++++++++++-----------------------
 msgpack/utils.go   | 13 +++++++++--
 2 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 628e8c7..3c29de1 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -746,17 +746,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -800,33 +794,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -850,30 +836,44 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
+func (d *Decoder) readArray(length uint32) (any, error) {
+	// Every element takes at least one byte.
+	if err := d.reader.checkBufferSize(length); err != nil {
+		return nil, err
+	}
+	array := make([]any, length)
 	for i := 0; i < len(array); i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		array[i] = value
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (any, error) {
+	// Every key takes at least one byte.
+	if err := d.reader.checkBufferSize(length); err != nil {
+		return nil, err
+	}
+	m := make(map[any]any, length)
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
+		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return nil, ReadError{"bad map key"}
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..27b498f 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, initialCapacity(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -31,6 +31,15 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	return request, nil
 }
 
+// initialCapacity bounds what is allocated on the word of an encoded size.
+func initialCapacity(size uint32) uint32 {
+	const limit = 1024
+	if size > limit {
+		return limit
+	}
+	return size
+}
+
 func WriteMap[K constraints.Ordered, V any](writer Writer,
 	m map[K]V, keyF func(Writer, K),
 	valF func(Writer, V)) error {
@@ -50,7 +59,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, initialCapacity(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From c1049b6ccf14abe61bb1199f0899d21eebd8368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 05/46] fix: msgpack ReadAny reads times; ext lengths are plain
 big-endian numbers

---
 msgpack/decoder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 3c29de1..3841e1b 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -393,6 +393,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readExtTime(prefix)
+}
+
+func (d *Decoder) readExtTime(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -780,6 +784,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		return d.reader.GetFloat32()
 	case FormatFloat64:
 		return d.reader.GetFloat64()
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readExtTime(prefix)
 	case FormatString8:
 		v, err := d.reader.GetUint8()
 		return d.readString(uint32(v), err)
@@ -911,13 +918,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 171031c6fe82754441554cb29def27f0b163b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 06/46] fix: msgpack WriteAny writes nil once, writes times and
 reports unsupported types

---
 msgpack/data_reader.go |  7 +++++++
 msgpack/encoder.go     | 17 +++++++++++++----
 msgpack/sizer.go       | 18 +++++++++++++-----
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index eb2c84b..355f13e 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -7,6 +7,7 @@ import (
 )
 
 var ErrRange = errors.New("range error")
+var ErrUnsupported = errors.New("unsupported type")
 
 type DataReader struct {
 	buffer     []byte
@@ -236,6 +237,12 @@ func (d *DataReader) SetUint64(value uint64) error {
 	return nil
 }
 
+func (d *DataReader) fail(err error) {
+	if d.err == nil {
+		d.err = err
+	}
+}
+
 func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..6a92100 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,14 +315,21 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		if err := v.Encode(e); err != nil {
+			e.reader.fail(err)
+		}
+	case time.Time:
+		e.WriteTime(v)
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -518,6 +525,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.fail(ErrUnsupported)
 	}
 }
 
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..a802baf 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -279,14 +280,13 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		if err := v.Encode(s); err != nil {
+			s.fail(err)
+		}
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -490,9 +490,17 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(ErrUnsupported)
+	}
+}
+
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From b3c05d87982b1d783320976da5de2e9a68f38789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 07/46] fix: request frames carry their follows flag

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..66db8fe 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -75,6 +75,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From 0e65cb112c19094e70559e6ea2cc370db95161ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 08/46] fix: fragmenting a request sends short metadata once,
 not twice

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 66db8fe..96acd1a 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -161,6 +161,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // sent in full with the first frame
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 37b5286024ec5c2bf601e40191a834955675c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 09/46] fix: setup intervals are converted to milliseconds
 before they are narrowed

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..e0ee3d2 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From 38180dd026f95c4b36846acea24e2adfaca8e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 10/46] fix: the size of a setup frame counts its token once

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index e0ee3d2..b22955b 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 61333ac30a21435dbe6199000f074510ccc1f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 11/46] fix: decoding a truncated frame is an error, not a
 crash

---
 internal/frames/error.go           |  3 ++
 internal/frames/payload.go         | 10 +++----
 internal/frames/request_n.go       |  3 ++
 internal/frames/request_payload.go | 13 +++++----
 internal/frames/setup.go           | 45 ++++++++++++++++++++----------
 internal/frames/util.go            | 23 +++++++++++++++
 6 files changed, 70 insertions(+), 27 deletions(-)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..4fd7121 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrIncompleteFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..b692db7 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..b01f62b 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrIncompleteFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 96acd1a..2560c4c 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrIncompleteFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index b22955b..c01b899 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -34,7 +34,11 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	resume := flags.Check(FlagResume)
 	lease := flags.Check(FlagLease)
 	var metadata []byte
+	var err error
 
+	if len(payload) < 12 {
+		return ErrIncompleteFrame
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,27 +48,29 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
+		if len(data) < 2 {
+			return ErrIncompleteFrame
+		}
 		tokenLength := binary.BigEndian.Uint16(data)
-		token = data[2 : 2+tokenLength]
-		data = data[2+tokenLength:]
+		if token, data, err = readBytes(data[2:], uint32(tokenLength)); err != nil {
+			return err
+		}
 	}
 
-	metadataMimeLength := data[0]
-	mimeMetadata := string(data[1 : 1+metadataMimeLength])
-	data = data[1+metadataMimeLength:]
-
-	dataMimeLength := data[0]
-	mimeData := string(data[1 : 1+dataMimeLength])
-	data = data[1+dataMimeLength:]
+	mimeMetadata, data, err := readMime(data)
+	if err != nil {
+		return err
+	}
+	mimeData, data, err := readMime(data)
+	if err != nil {
+		return err
+	}
 	payload = data
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], data[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		data = data[3:]
-		metadata = data[:mdLength]
-		payload = data[mdLength:]
+		if metadata, payload, err = readMetadata(data); err != nil {
+			return err
+		}
 	}
 
 	*f = Setup{
@@ -83,6 +89,15 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	return nil
 }
 
+// readMime returns the MIME type behind its 8 bit length and the rest.
+func readMime(payload []byte) (string, []byte, error) {
+	if len(payload) == 0 {
+		return "", nil, ErrIncompleteFrame
+	}
+	mime, payload, err := readBytes(payload[1:], uint32(payload[0]))
+	return string(mime), payload, err
+}
+
 func (f *Setup) Encode(buf []byte) {
 	tokenLen := uint16(len(f.Token))
 	metadataLen := uint32(len(f.Metadata))
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..26d36c1 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,10 +2,33 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+// ErrIncompleteFrame is the error of frames that end before their contents do.
+var ErrIncompleteFrame = errors.New("incomplete frame")
+
 var emptyBuffer = []byte{}
 
+// readBytes returns the first n bytes of a payload and the rest.
+func readBytes(payload []byte, n uint32) ([]byte, []byte, error) {
+	if uint64(len(payload)) < uint64(n) {
+		return nil, nil, ErrIncompleteFrame
+	}
+	return payload[:n], payload[n:], nil
+}
+
+// readMetadata returns the metadata behind its 24 bit length and the rest.
+func readMetadata(payload []byte) ([]byte, []byte, error) {
+	length, payload, err := readBytes(payload, 3)
+	if err != nil {
+		return nil, nil, err
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], length)
+	return readBytes(payload, binary.BigEndian.Uint32(mdLengthBuf[:]))
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From d6c6252120428ae0cf756e25f701dd57b7889bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:43 +0000
Subject: [PATCH 12/46] fix: uuid parsing accepted any two characters in place
 of the braces

---
 types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/uuid/uuid.go b/types/uuid/uuid.go
index 61a3725..3132d75 100644
--- a/types/uuid/uuid.go
+++ b/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid bracketed UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid bracketed UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 5fe9f37bbd392373bc0dd1162d58c57834131a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 13/46] fix: server stream ids included 0 after every 2^30 ids

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 27ad3d5f8f98caa1ba716b9ac0552867b932a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 14/46] fix: removing the first stream from the lookup left it
 registered

---
 proxy/lookup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..452897d 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -77,9 +77,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 168fb583574207affef27f9ce69aacde3c507ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 15/46] fix: looking up a stream read the list without its lock

---
 proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 452897d..3a3d686 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 5269caca30662e10ed60a686e2f27fa58c1a0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 16/46] fix: PortIO.Decode reports truncated messages instead
 of panicking

---
 invoke/portio.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..0292a8e 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"io"
 	"strings"
 )
 
@@ -13,12 +14,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return io.ErrUnexpectedEOF
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return io.ErrUnexpectedEOF
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 43595965d433397b62ff67f4fd17695588b3c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 17/46] fix: give the PortIO complete and next flags different
 bits

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0292a8e..0d0b1f5 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -78,7 +78,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 7e7ddfb4c56b41f2deaa896ed07f702f0d1449e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 18/46] fix: nillable conversions map absent values to nil
 instead of panicking

---
 msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From 4088de1ffb3085b2cd9633c62dc16b6825836d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:30 +0000
Subject: [PATCH 19/46] fix: parsing a malformed operation table returns an
 error instead of panicking

---
 operations/operatons.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..40ff501 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"io"
 	"strconv"
 )
 
@@ -64,6 +65,9 @@ var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, io.ErrUnexpectedEOF
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,18 +80,31 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	// Every operation takes at least 12 bytes.
+	if uint64(len(buf)) < 12*uint64(numOps) {
+		return nil, io.ErrUnexpectedEOF
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,8 +114,12 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		buf = buf[2:]
+		if len(buf) < reservedLen {
+			return nil, io.ErrUnexpectedEOF
+		}
+		buf = buf[reservedLen:] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From fac7150da75046882b7f249eccd3df1097f0154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 20/46] fix: deliver whole frames that arrive together with the
 end of the stream

---
 transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From d5299f560232c352a65be75803e281bd126a97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 21/46] fix: frames read from a TCP connection do not share the
 read buffer

---
 transport/rsocket/decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index f3206e0..a63b3b5 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -24,7 +24,8 @@ var ErrInvalidFrameLength = errors.New("rsocket: invalid frame length")
 // LengthBasedFrameDecoder defines a decoder for decoding frames which have a header of length.
 type LengthBasedFrameDecoder bufio.Scanner
 
-// Read reads next raw frame in bytes.
+// Read reads next raw frame in bytes. The bytes belong to the caller: the scanner
+// reuses its buffer for the frames that follow.
 func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 	scanner := (*bufio.Scanner)(p)
 	if !scanner.Scan() {
@@ -34,7 +35,7 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 8aaf98a76e949e91ded272b8b4a77f603e4dc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 22/46] fix: refuse frames too long for the length prefix with
 an error

---
 transport/rsocket/tcp_conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..e5f8648 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -104,7 +104,7 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	err = u24.WriteUint24(p.writer, size)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 3328e39be5311296fdd07f312f23544b06e8c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:21 +0000
Subject: [PATCH 23/46] fix: concurrent writers of a TCP connection do not
 interleave their frames

---
 transport/rsocket/tcp_conn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index e5f8648..ade52e3 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	mu      sync.Mutex // guards writer
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -100,6 +102,9 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
@@ -125,6 +130,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From 98b2b9f067912ba1ebac3914d609cc2321f79b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 24/46] fix: cancelling an ended flux does nothing and
 cancellation reaches Notify callbacks

---
 rx/flux/flux.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..0ef400c 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -200,13 +200,14 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From ba88f0fd4b61352aa5189fec9cde1908ab329a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 25/46] fix: constant monos and fluxes run the finally callback

---
 rx/flux/flux.go | 3 +++
 rx/mono/mono.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 0ef400c..59580a1 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 53b74f94dfcb40e8025cee467c7fb7aa750302f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 26/46] fix: a failing transformation of a mapped flux ends it
 with one error

---
 rx/flux/flux.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 59580a1..4108055 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -229,16 +229,17 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	failed := false
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
+				failed = true
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -250,11 +251,23 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if !failed && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if !failed && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if !failed && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From ffb021c9b86587cec87566ff7ff475604fdeea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:54 +0000
Subject: [PATCH 27/46] fix: a failing transformation of a mapped mono ends it
 with the error signal

---
 rx/mono/mono.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..b7c5df5 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -215,10 +215,12 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +232,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
-- 
2.43.0


From ec5c885b6f425cde83ae2713dcf4fd448a995fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:54 +0000
Subject: [PATCH 28/46] fix: SliceResponse accepts requests made while it emits
 and ignores negative demand

---
 rx/flux/response.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rx/flux/response.go b/rx/flux/response.go
index 739f81f..5b0c046 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -6,10 +6,15 @@ func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 		if n < num {
 			num = n
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
+		if num < 0 {
+			num = 0
 		}
+		// Items are taken before they are emitted: the sink may request more.
+		batch := slice[:num]
 		slice = slice[num:]
+		for _, item := range batch {
+			sink.Next(item)
+		}
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From 509760e72c940ff387795546a4b8736b9650bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:54 +0000
Subject: [PATCH 29/46] fix: blocking on a flux that was not subscribed to
 before

---
 rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From d8ce235e6d0e05531a2f45835669c7af66e78d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:54 +0000
Subject: [PATCH 30/46] fix: a flow step whose awaitables are already done ran
 again and again

---
 rx/flow/flow.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..c2017ba 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -91,6 +91,7 @@ func (f *Flow[T]) next() {
 
 	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -110,8 +111,6 @@ func (f *Flow[T]) next() {
 		a.Async() // Ensure task is running.
 		a.Notify(f.check)
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-- 
2.43.0


From 92bb314eb7aa61fa6ac072b1bc44044253d91e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:39 +0000
Subject: [PATCH 31/46] fix: frames for streams that are over are ignored
 instead of ending the connection

---
 handler/handler.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..1c2a9de 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -115,11 +114,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
-			return
+			// The stream is over or never was: its frames mean nothing.
+			return nil
 		}
 	}
 
-- 
2.43.0


From f0852cbc3373e8768f0eea27c1144c88e07e221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 32/46] fix: frames that reach a responder's stream early or
 without an input no longer crash it

Streams are registered before their handler starts, demand and cancellation
wait for the answer, streams without an input ignore items, cancellation
stops the answer and streams are removed when they end.
---
 handler/handler.go | 180 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 153 insertions(+), 27 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 1c2a9de..9809633 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -152,7 +153,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Registered before the frames that follow: they are for this stream.
+			s := &requestStream{ctx: i.ctx, streamID: streamID}
+			i.registerStream(s)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -160,15 +164,22 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := &requestStream{ctx: i.ctx, streamID: streamID, input: true}
+			i.registerStream(s)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		} else {
+			str.OnComplete()
+		}
 		i.removeStream(streamID)
 
 	case *frames.Payload:
@@ -223,7 +234,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
+			// The end of a channel's input does not end its answer.
+			if s, ok := str.(*requestStream); !ok || s.inputEnded() {
+				i.removeStream(streamID)
+			}
 		}
 
 	case *frames.Error:
@@ -289,19 +303,21 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -310,8 +326,6 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -335,21 +349,27 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			if s.answerEnded() {
+				i.removeStream(streamID)
+			}
+		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.setSubscription(f.Subscription(), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -358,10 +378,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -375,6 +392,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				})
 			},
 		})
+		s.setSink(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -398,11 +416,14 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			if s.answerEnded() {
+				i.removeStream(streamID)
+			}
+		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.setSubscription(f.Subscription(), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -682,12 +703,26 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
 	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
+
+	// Frames for the stream may arrive before its handler has subscribed to
+	// the answer or to the input.
+	mu        sync.Mutex
+	sub       rx.Subscription
+	demand    int  // requested before sub was known
+	cancelled bool // cancelled before sub was known
+	answered  bool
+	input     bool // request channel
+	sink      flux.Sink[payload.Payload]
+	ended     bool // the input ended
+	err       error
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -700,22 +735,113 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+func (r *requestStream) setSubscription(sub rx.Subscription, n int) {
+	if sub == nil {
+		return // The answer was an error.
+	}
+	r.mu.Lock()
+	r.sub = sub
+	n += r.demand
+	cancelled := r.cancelled
+	r.mu.Unlock()
+
+	if cancelled {
+		sub.Cancel()
+	} else {
+		sub.Request(n)
+	}
+}
+
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.Request(n)
+}
+
+func (r *requestStream) DoCancel() {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.OnComplete()
+}
+
+// answerEnded notes the end of the answer and tells if the input has ended too.
+func (r *requestStream) answerEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	r.answered = true
+	return r.ended || !r.input
+}
+
+// inputEnded tells if the answer has ended too.
+func (r *requestStream) inputEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	return r.answered
+}
+
+func (r *requestStream) setSink(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	r.sink = sink
+	ended, err := r.ended, r.err
+	r.mu.Unlock()
+
+	if err != nil {
+		sink.Error(err)
+	} else if ended {
+		sink.Complete()
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	r.mu.Lock()
+	sink := r.sink
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	r.mu.Lock()
+	sink := r.sink
+	r.ended = true
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	r.mu.Lock()
+	sink := r.sink
+	r.ended = true
+	if r.err == nil {
+		r.err = err
+	}
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From 5038d5b399020c64a9957110fa51e07edab7fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:42 +0000
Subject: [PATCH 33/46] fix: a requester's stream copes with demand and
 cancellation from its peer

Demand for a channel's input may come before the input is subscribed to or
for a stream without input; cancelling a channel's input leaves its answer
alone; a stream that is over or was never requested sends no frames.
---
 handler/handler.go | 14 +++++---
 proxy/flux.go      | 85 +++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 87 insertions(+), 12 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 9809633..53717b3 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -175,12 +175,15 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.Cancel:
+		over := true
 		if s, ok := str.(DoCancel); ok {
-			s.DoCancel()
+			over = s.DoCancel()
 		} else {
 			str.OnComplete()
 		}
-		i.removeStream(streamID)
+		if over {
+			i.removeStream(streamID)
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -703,8 +706,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+// DoCancel is implemented by streams with something to cancel; it tells if the
+// stream is over.
 type DoCancel interface {
-	DoCancel()
+	DoCancel() bool
 }
 
 type requestStream struct {
@@ -769,7 +774,7 @@ func (r *requestStream) DoRequest(n int) {
 	r.Request(n)
 }
 
-func (r *requestStream) DoCancel() {
+func (r *requestStream) DoCancel() bool {
 	r.mu.Lock()
 	sub := r.sub
 	r.cancelled = true
@@ -779,6 +784,7 @@ func (r *requestStream) DoCancel() {
 		sub.Cancel()
 	}
 	r.OnComplete()
+	return true
 }
 
 // answerEnded notes the end of the answer and tells if the input has ended too.
diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..ae20a18 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -36,8 +37,13 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+
+	mu        sync.Mutex
+	first     bool
+	complete  bool
+	inSub     rx.Subscription
+	demand    int  // requested of in before it was subscribed to
+	cancelled bool // in was cancelled before it was subscribed to
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,11 +59,12 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end()
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.end()
 	s.Processor.Error(err)
 }
 
@@ -74,12 +81,16 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	s.mu.Lock()
+	complete, first := s.complete, s.first
+	s.first = false
+	s.mu.Unlock()
+
+	if complete {
 		return
 	}
-	if s.first {
+	if first {
 		s.request.InitialN = uint32(n)
-		s.first = false
 		s.sendFrame(&s.request)
 
 		if s.in != nil {
@@ -106,6 +117,7 @@ func (s *streamFlux) Request(n int) {
 				},
 				NoRequest: true,
 			})
+			s.inSubscribed(s.in.Subscription())
 		}
 	} else {
 		s.sendFrame(&frames.RequestN{
@@ -115,15 +127,72 @@ func (s *streamFlux) Request(n int) {
 	}
 }
 
+// end notes that the stream is over and tells if it was requested and still open.
+func (s *streamFlux) end() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	open := !s.first && !s.complete
+	s.complete = true
+	return open
+}
+
 func (s *streamFlux) Cancel() {
+	if !s.end() {
+		return
+	}
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
+// inSubscribed passes on the demand or cancellation that came before sub.
+func (s *streamFlux) inSubscribed(sub rx.Subscription) {
+	if sub == nil {
+		return // The input was an error.
+	}
+	s.mu.Lock()
+	s.inSub = sub
+	n, cancelled := s.demand, s.cancelled
+	s.mu.Unlock()
+
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		s.demand += n
+	}
+	s.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// DoCancel stops the input of a channel; the answer goes on. It tells if the stream
+// is over.
+func (s *streamFlux) DoCancel() bool {
+	if s.in == nil {
+		s.OnComplete()
+		return true
+	}
+
+	s.mu.Lock()
+	sub := s.inSub
+	s.cancelled = true
+	s.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+	return false
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
-- 
2.43.0


From 73f55ee2033c889dced0f63e36853a446fa9fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 34/46] fix: streams served by hosts and guests survive early,
 late and malformed frames

Register a served stream before its handler runs, keep frames that come
before the handler subscribed, refuse frames that do not fit the buffers, and
count every request of a host instance exactly once.
---
 handler/handler.go                | 173 +++---------------------------
 proxy/responder.go                | 157 +++++++++++++++++++++++++++
 transport/wasmrs/guest/guest.go   | 163 ++++++++++++++++------------
 transport/wasmrs/host/instance.go | 169 +++++++++++++++++------------
 4 files changed, 366 insertions(+), 296 deletions(-)
 create mode 100644 proxy/responder.go

diff --git a/handler/handler.go b/handler/handler.go
index 53717b3..e6a42df 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -154,7 +153,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// }
 
 			// Registered before the frames that follow: they are for this stream.
-			s := &requestStream{ctx: i.ctx, streamID: streamID}
+			s := proxy.NewResponder(i.ctx, streamID, false)
 			i.registerStream(s)
 			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
@@ -164,7 +163,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			s := &requestStream{ctx: i.ctx, streamID: streamID, input: true}
+			s := proxy.NewResponder(i.ctx, streamID, true)
 			i.registerStream(s)
 			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
@@ -238,7 +237,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		if v.Complete {
 			str.OnComplete()
 			// The end of a channel's input does not end its answer.
-			if s, ok := str.(*requestStream); !ok || s.inputEnded() {
+			if s, ok := str.(*proxy.Responder); !ok || s.InputEnded() {
 				i.removeStream(streamID)
 			}
 		}
@@ -268,8 +267,8 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -305,13 +304,13 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	streamID := s.streamID
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
 		i.removeStream(streamID)
 		return
@@ -353,17 +352,17 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, dat
 			})
 		},
 		Finally: func(rx.SignalType) {
-			if s.answerEnded() {
+			if s.AnswerEnded() {
 				i.removeStream(streamID)
 			}
 		},
 		NoRequest: true,
 	})
-	s.setSubscription(f.Subscription(), int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	streamID := s.streamID
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
 		i.removeStream(streamID)
 		return
@@ -395,7 +394,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 				})
 			},
 		})
-		s.setSink(sink)
+		s.SetSink(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -420,13 +419,13 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 			})
 		},
 		Finally: func(rx.SignalType) {
-			if s.answerEnded() {
+			if s.AnswerEnded() {
 				i.removeStream(streamID)
 			}
 		},
 		NoRequest: true,
 	})
-	s.setSubscription(f.Subscription(), int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -711,143 +710,3 @@ type DoRequest interface {
 type DoCancel interface {
 	DoCancel() bool
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-
-	// Frames for the stream may arrive before its handler has subscribed to
-	// the answer or to the input.
-	mu        sync.Mutex
-	sub       rx.Subscription
-	demand    int  // requested before sub was known
-	cancelled bool // cancelled before sub was known
-	answered  bool
-	input     bool // request channel
-	sink      flux.Sink[payload.Payload]
-	ended     bool // the input ended
-	err       error
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) setSubscription(sub rx.Subscription, n int) {
-	if sub == nil {
-		return // The answer was an error.
-	}
-	r.mu.Lock()
-	r.sub = sub
-	n += r.demand
-	cancelled := r.cancelled
-	r.mu.Unlock()
-
-	if cancelled {
-		sub.Cancel()
-	} else {
-		sub.Request(n)
-	}
-}
-
-func (r *requestStream) Request(n int) {
-	r.mu.Lock()
-	sub := r.sub
-	if sub == nil {
-		r.demand += n
-	}
-	r.mu.Unlock()
-
-	if sub != nil {
-		sub.Request(n)
-	}
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.Request(n)
-}
-
-func (r *requestStream) DoCancel() bool {
-	r.mu.Lock()
-	sub := r.sub
-	r.cancelled = true
-	r.mu.Unlock()
-
-	if sub != nil {
-		sub.Cancel()
-	}
-	r.OnComplete()
-	return true
-}
-
-// answerEnded notes the end of the answer and tells if the input has ended too.
-func (r *requestStream) answerEnded() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-
-	r.answered = true
-	return r.ended || !r.input
-}
-
-// inputEnded tells if the answer has ended too.
-func (r *requestStream) inputEnded() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-
-	return r.answered
-}
-
-func (r *requestStream) setSink(sink flux.Sink[payload.Payload]) {
-	r.mu.Lock()
-	r.sink = sink
-	ended, err := r.ended, r.err
-	r.mu.Unlock()
-
-	if err != nil {
-		sink.Error(err)
-	} else if ended {
-		sink.Complete()
-	}
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.mu.Lock()
-	sink := r.sink
-	r.mu.Unlock()
-
-	if sink != nil {
-		sink.Next(p)
-	}
-}
-
-func (r *requestStream) OnComplete() {
-	r.mu.Lock()
-	sink := r.sink
-	r.ended = true
-	r.mu.Unlock()
-
-	if sink != nil {
-		sink.Complete()
-	}
-}
-
-func (r *requestStream) OnError(err error) {
-	r.mu.Lock()
-	sink := r.sink
-	r.ended = true
-	if r.err == nil {
-		r.err = err
-	}
-	r.mu.Unlock()
-
-	if sink != nil {
-		sink.Error(err)
-	}
-}
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..c190f21
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,157 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is a stream requested by the peer. Frames for it may arrive before its
+// handler has subscribed to the answer or to the input.
+type Responder struct {
+	ctx      context.Context
+	streamID uint32
+	input    bool // request channel
+
+	mu        sync.Mutex
+	sub       rx.Subscription
+	demand    int  // requested before sub was known
+	cancelled bool // cancelled before sub was known
+	answered  bool
+	sink      flux.Sink[payload.Payload]
+	ended     bool // the input ended
+	err       error
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the stream of a request; input tells if it is a request channel.
+func NewResponder(ctx context.Context, streamID uint32, input bool) *Responder {
+	return &Responder{ctx: ctx, streamID: streamID, input: input}
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// SetSubscription gives the subscription to the answer and requests n items.
+func (r *Responder) SetSubscription(sub rx.Subscription, n int) {
+	if sub == nil {
+		return // The answer was an error.
+	}
+	r.mu.Lock()
+	r.sub = sub
+	n += r.demand
+	cancelled := r.cancelled
+	r.mu.Unlock()
+
+	if cancelled {
+		sub.Cancel()
+	} else {
+		sub.Request(n)
+	}
+}
+
+func (r *Responder) Request(n int) {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (r *Responder) DoRequest(n int) {
+	r.Request(n)
+}
+
+// DoCancel cancels the answer and ends the input. It tells if the stream is over.
+func (r *Responder) DoCancel() bool {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.OnComplete()
+	return true
+}
+
+// AnswerEnded notes the end of the answer and tells if the input has ended too.
+func (r *Responder) AnswerEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	r.answered = true
+	return r.ended || !r.input
+}
+
+// InputEnded tells if the answer has ended as well as the input.
+func (r *Responder) InputEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	return r.answered
+}
+
+// SetSink gives the sink of the input.
+func (r *Responder) SetSink(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	r.sink = sink
+	ended, err := r.ended, r.err
+	r.mu.Unlock()
+
+	if err != nil {
+		sink.Error(err)
+	} else if ended {
+		sink.Complete()
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.mu.Lock()
+	sink := r.sink
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Next(p)
+	}
+}
+
+func (r *Responder) OnComplete() {
+	r.mu.Lock()
+	sink := r.sink
+	r.ended = true
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Complete()
+	}
+}
+
+func (r *Responder) OnError(err error) {
+	r.mu.Lock()
+	sink := r.sink
+	r.ended = true
+	if r.err == nil {
+		r.err = err
+	}
+	r.mu.Unlock()
+
+	if sink != nil {
+		sink.Error(err)
+	}
+}
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..11715f0 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -34,6 +34,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame too large")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -70,18 +72,25 @@ func OperationList() {
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
 	buf := guestBuffer
+	if endPos < uint32(len(buf)) {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for len(buf) >= 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > uint32(len(buf)-3) {
+			return // Not a whole frame.
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
 		// lengthPos = 1 // Reset for next frame
+		if frameLen < frames.FrameHeaderLen {
+			continue // Not a frame.
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
@@ -106,7 +115,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -122,7 +131,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -138,7 +147,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -148,40 +157,52 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			s := proxy.NewResponder(ctx, rs.StreamID, false)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			s := proxy.NewResponder(ctx, rc.StreamID, true)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			over := true
+			if s, ok := str.(DoCancel); ok {
+				over = s.DoCancel()
+			} else {
+				str.OnComplete()
+			}
+			if over {
+				removeStream(header.StreamID())
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +264,10 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
+				// The end of a channel's input does not end its answer.
+				if s, ok := str.(*proxy.Responder); !ok || s.InputEnded() {
+					removeStream(header.StreamID())
+				}
 			}
 
 		case frames.FrameTypeError:
@@ -274,8 +298,8 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			sendFrame(&frames.Payload{
@@ -311,14 +335,15 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
@@ -329,12 +354,11 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -358,15 +382,20 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			if s.AnswerEnded() {
+				removeStream(streamID)
+			}
+		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
@@ -377,14 +406,12 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				sendFrame(&frames.RequestN{
@@ -398,6 +425,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				})
 			},
 		})
+		s.SetSink(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -421,11 +449,14 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			if s.AnswerEnded() {
+				removeStream(streamID)
+			}
+		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -519,10 +550,34 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
+	if f.Size()+3 > uint32(len(hostBuffer)) {
+		return refuse(f)
+	}
 	doSendFrame(f)
 	return nil
 }
 
+// refuse ends the stream of a frame that is larger than the buffer.
+func refuse(f frames.Frame) error {
+	streamID := f.GetStreamID()
+	if f.Type() < frames.FrameTypeRequestN {
+		// The host does not know the stream.
+		if str, ok := getStream(streamID); ok {
+			removeStream(streamID)
+			str.OnError(errFrameTooLarge)
+		}
+	} else {
+		e := frames.Error{
+			StreamID: streamID,
+			Data:     errFrameTooLarge.Error(),
+		}
+		if e.Size()+3 <= uint32(len(hostBuffer)) {
+			doSendFrame(&e)
+		}
+	}
+	return errFrameTooLarge
+}
+
 func doSendFrame(f frames.Frame) {
 	byteLength := f.Size()
 	var length [4]byte
@@ -536,42 +591,8 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type DoCancel interface {
+	DoCancel() bool
 }
 
 //go:inline
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..c511e45 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -44,6 +44,7 @@ type Instance struct {
 	closing        atomic.Bool
 	closed         chan struct{}
 	once           sync.Once
+	closedOnce     sync.Once
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
@@ -64,6 +65,8 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var errFrameTooLarge = errors.New("frame too large")
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -92,6 +95,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -120,7 +126,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.closedOnce.Do(func() { close(i.closed) })
 	}
 }
 
@@ -160,10 +166,31 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if f.Size() > i.sendSize-3 {
+		return i.refuse(f)
+	}
 	i.sendCh <- f
 	return nil
 }
 
+// refuse ends the stream of a frame that is larger than the buffer of the guest.
+func (i *Instance) refuse(f frames.Frame) error {
+	streamID := f.GetStreamID()
+	if f.Type() < frames.FrameTypeRequestN {
+		// The guest does not know the stream.
+		if str, ok := i.getStream(streamID); ok {
+			i.removeStream(streamID)
+			str.OnError(errFrameTooLarge)
+		}
+	} else {
+		i.sendCh <- &frames.Error{
+			StreamID: streamID,
+			Data:     errFrameTooLarge.Error(),
+		}
+	}
+	return errFrameTooLarge
+}
+
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 	i.sendPtr = sendPtr
 	i.recvPtr = recvPtr
@@ -175,8 +202,11 @@ func (i *Instance) sendLoop() {
 
 	for f := range i.sendCh {
 		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
+		buf, ok := mem.Read(i.sendPtr, i.sendSize)
 		byteCount := f.Size()
+		if !ok || byteCount > i.sendSize-3 {
+			continue // The guest has no such buffer.
+		}
 
 		// Encode length and frame data.
 		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
@@ -200,11 +230,14 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if frameLength > uint32(len(buffer)) {
+			return // Not a whole frame.
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
 		i.recvCh <- buf
@@ -220,6 +253,9 @@ func (i *Instance) recvLoop() {
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return // Not a frame.
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -243,7 +279,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -260,7 +296,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -270,13 +306,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		i.activeRequests.Add(1)
 		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -287,13 +324,15 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := proxy.NewResponder(ctx, rs.StreamID, false)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -304,24 +343,34 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := proxy.NewResponder(ctx, rc.StreamID, true)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		over := true
+		if s, ok := str.(DoCancel); ok {
+			over = s.DoCancel()
+		} else {
+			str.OnComplete()
+		}
+		if over {
+			i.removeStream(header.StreamID())
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +429,10 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
+			// The end of a channel's input does not end its answer.
+			if s, ok := str.(*proxy.Responder); !ok || s.InputEnded() {
+				i.removeStream(header.StreamID())
+			}
 		}
 
 	case frames.FrameTypeError:
@@ -396,6 +448,7 @@ func (i *Instance) recvOne(data []byte) {
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -425,19 +478,22 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 				Next:     true,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
 			i.reduceActiveRequests()
 		},
 	})
 }
 
 func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
+	defer i.reduceActiveRequests()
+
 	if !i.checkMetadata(streamID, metadata) {
 		return
 	}
@@ -461,8 +517,10 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.endStream(streamID)
 		return
 	}
 
@@ -479,11 +537,11 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.endStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -499,24 +557,28 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
+			if s.AnswerEnded() {
+				i.removeStream(streamID)
+			}
 			i.reduceActiveRequests()
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.endStream(streamID)
 		return
 	}
 
@@ -533,15 +595,12 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			StreamID: streamID,
 			Data:     "not_found",
 		})
-		i.reduceActiveRequests()
+		i.endStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.SendFrame(&frames.RequestN{
@@ -553,9 +612,9 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				i.SendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
-				i.reduceActiveRequests()
 			},
 		})
+		s.SetSink(sink)
 	})
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -572,20 +631,28 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
+			if s.AnswerEnded() {
+				i.removeStream(streamID)
+			}
 			i.reduceActiveRequests()
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.SetSubscription(f.Subscription(), int(initialN))
+}
+
+// endStream ends the stream of a request that has no handler.
+func (i *Instance) endStream(streamID uint32) {
+	i.removeStream(streamID)
+	i.reduceActiveRequests()
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -674,40 +741,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type DoCancel interface {
+	DoCancel() bool
 }
-- 
2.43.0


From 6c87d30ccebc193dcc25082224fb45690939a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:47 +0000
Subject: [PATCH 35/46] fix: mesh imports are linked to exports of their kind
 and follow reloaded modules

---
 transport/wasmrs/mesh/mesh.go | 52 ++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..dd6ba83 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,15 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	export struct {
+		operation string
+		kind      operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +53,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[export]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -65,7 +70,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operation, operations.RequestResponse}]
 	if !ok {
 		return nil
 	}
@@ -80,7 +85,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operation, operations.FireAndForget}]
 	if !ok {
 		return
 	}
@@ -95,7 +100,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operation, operations.RequestStream}]
 	if !ok {
 		return nil
 	}
@@ -110,7 +115,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operation, operations.RequestChannel}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +198,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[export]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := export{op.Operation, op.Type}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,21 +246,29 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[export{op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The exporting module may be loaded again later.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
@@ -262,7 +276,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestResponse(ctx, p)
@@ -270,7 +284,7 @@ func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mo
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	d.instance.FireAndForget(ctx, p)
@@ -278,7 +292,7 @@ func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestStream(ctx, p)
@@ -286,7 +300,7 @@ func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestChannel(ctx, p, in)
-- 
2.43.0


From 83e6d088787d7356ce094e06a13700c0c7b862f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:50 +0000
Subject: [PATCH 36/46] fix: reading custom sections reports truncated sections
 and accepts an empty one at the end

---
 transport/wasmrs/customsections/customsections.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..ecba8a7 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,10 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
+
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +126,14 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 0f3d0a1300348c48f6acb50b3fb750c06c9c827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 37/46] fix: payloads of values that cannot be encoded are
 errors

---
 transform/transform.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..52210e1 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -325,10 +325,14 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From e08ec7049098491434257267970f4b241262f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:49 +0000
Subject: [PATCH 38/46] fix: SliceResponse keeps the order of items requested
 while it emits

---
 rx/flux/response.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/rx/flux/response.go b/rx/flux/response.go
index 5b0c046..1ff5ef3 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -2,18 +2,11 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
-		}
-		if num < 0 {
-			num = 0
-		}
-		// Items are taken before they are emitted: the sink may request more.
-		batch := slice[:num]
-		slice = slice[num:]
-		for _, item := range batch {
-			sink.Next(item)
+		// Items are taken one by one: the sink may request more.
+		for i := n; i > 0 && len(slice) != 0; i-- {
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
 		if len(slice) == 0 {
 			sink.Complete()
-- 
2.43.0


From 82c39c575204fc77fbcc874b50f8bec6cf036438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:55 +0000
Subject: [PATCH 39/46] fix: give live instances without size ids of their own

---
 invoke/instances.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..ffed821 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -8,6 +8,7 @@ import (
 
 type Ptr[T any] struct {
 	Ptr T
+	_   byte // Keeps the addresses of empty values apart.
 }
 
 var ErrNoInstance = errors.New("no instance is active for this pointer")
-- 
2.43.0


From 63005f02578570cc48a7a7336e737bdf0e373fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:34 +0000
Subject: [PATCH 40/46] fix: give every subscriber of a slice all of its values

---
 rx/flux/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/flux/slice.go b/rx/flux/slice.go
index d3b2881..95d9939 100644
--- a/rx/flux/slice.go
+++ b/rx/flux/slice.go
@@ -2,6 +2,7 @@ package flux
 
 func FromSlice[T any](values []T) Flux[T] {
 	return Create(func(sink Sink[T]) {
+		values := values // Every subscriber gets all of them.
 		sink.OnSubscribe(OnSubscribe{
 			Request: func(n int) {
 				for i := n; i > 0 && len(values) != 0; i-- {
-- 
2.43.0


From 3da30faf713df6230f16e07ee3efc814ff1b8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:34 +0000
Subject: [PATCH 41/46] fix: Block of an error flux tells its subscriber

---
 rx/flux/flux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 4108055..fb75463 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -59,7 +59,8 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
-- 
2.43.0


From f367d1081bcc4288dd2895ed3c0b5059fdb16e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:34 +0000
Subject: [PATCH 42/46] fix: a handler joined to a transport sends through it

---
 transport/rsocket/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..942d7ea 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -66,7 +66,9 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		isServer:    isServer,
 		ready:       make(chan struct{}),
 	}
-	handler.SetFrameSender(t.handler.HandleFrame)
+	handler.SetFrameSender(func(f frames.Frame) error {
+		return t.Send(f, true)
+	})
 	return &t
 }
 
-- 
2.43.0


From 45b975150c3395f3d9a422dd4aef2e685780bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:34 +0000
Subject: [PATCH 43/46] fix: close a connection accepted while the server
 closes

---
 transport/rsocket/tcp_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..95db355 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -105,7 +105,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 				})
 			}()
 		} else {
-			_ = t.Close()
+			_ = tp.Close()
 		}
 	}
 	return
-- 
2.43.0


From 8f593940bbdb358ac0d137bff6b263966aa78612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:20 +0000
Subject: [PATCH 44/46] fix: a mono of a flux without values ends with an error

---
 transform/transform.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 52210e1..7323c07 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -13,6 +14,9 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+// ErrNoValue is the error of a mono made of a flux without values.
+var ErrNoValue = errors.New("flux completed without a value")
+
 type Transform[T any] struct {
 	Decode func(raw payload.Payload) (T, error)
 	Encode func(decoded T) (payload.Payload, error)
@@ -520,6 +524,9 @@ func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				sink.Error(ErrNoValue) // Unless there was one.
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
-- 
2.43.0


From 9638970fe741636b91939df4c0f1257ffef86c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:20 +0000
Subject: [PATCH 45/46] fix: request a remote mono once, however many wait for
 it

---
 proxy/mono.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..be70071 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -64,6 +64,23 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	if s.subscribed {
+		// The request was sent; its answer is for this subscriber too.
+		s.Notify(func(signal rx.SignalType) {
+			value, err := s.Get()
+			if err != nil {
+				if sub.OnError != nil {
+					sub.OnError(err)
+				}
+			} else if sub.OnSuccess != nil {
+				sub.OnSuccess(value)
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		})
+		return s
+	}
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-- 
2.43.0


From 334e35e2e0d454f86c22a331ab594ab4478b42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:41 +0000
Subject: [PATCH 46/46] fix: load modules into a mesh while requests are made

Requests looked up the tables that loading a module was changing.
---
 transport/wasmrs/host/instance.go | 18 +++++++++
 transport/wasmrs/mesh/mesh.go     | 65 ++++++++++++++++---------------
 2 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index c511e45..d9e4094 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -50,6 +50,8 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
+	// Imports may be linked while the guest is running.
+	importedMu   sync.RWMutex
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -656,6 +658,8 @@ func (i *Instance) endStream(streamID uint32) {
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -663,6 +667,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -670,6 +676,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -677,6 +685,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -684,6 +694,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -691,6 +703,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -698,6 +712,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -705,6 +721,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index dd6ba83..e9058a8 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,6 +22,7 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex // modules may be loaded while requests are made
 		instances   map[string]*host.Instance
 		exports     map[string]map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
@@ -65,67 +67,62 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, operation, operations.RequestResponse)
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[export{operation, operations.RequestResponse}]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[export{operation, operations.FireAndForget}]
-	if !ok {
+	dest := m.find(namespace, operation, operations.FireAndForget)
+	if dest == nil {
 		return
 	}
-	dest := ptr.Load()
 
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[export{operation, operations.RequestStream}]
-	if !ok {
+	dest := m.find(namespace, operation, operations.RequestStream)
+	if dest == nil {
 		return nil
 	}
-	dest := ptr.Load()
 
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, operation, operations.RequestChannel)
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[export{operation, operations.RequestChannel}]
+	return dest.RequestChannel(ctx, p, in)
+}
+
+// find returns what an operation is exported by, if any.
+func (m *Mesh) find(namespace, operation string, kind operations.RequestType) *destination {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	ptr, ok := m.exports[namespace][export{operation, kind}]
 	if !ok {
 		return nil
 	}
-	dest := ptr.Load()
-
-	return dest.RequestChannel(ctx, p, in)
+	return ptr.Load()
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -160,7 +157,10 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 	}
 
 	// Close previously loaded instance.
+	m.mu.Lock()
 	existing, ok := m.instances[filename]
+	m.instances[filename] = inst
+	m.mu.Unlock()
 	if ok {
 		go func(inst *host.Instance) {
 			time.Sleep(5 * time.Second)
@@ -168,8 +168,6 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		}(existing)
 	}
 
-	m.instances[filename] = inst
-
 	if m.verbose {
 		fmt.Println("Loaded " + filename)
 	}
@@ -179,6 +177,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 }
 
 func (m *Mesh) linkOperations(inst *host.Instance) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	opers := inst.Operations()
 	headerFmt := color.New(color.FgGreen, color.Underline).SprintfFunc()
 
-- 
2.43.0

