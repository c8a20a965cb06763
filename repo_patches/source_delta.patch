From 993c31cc0e00b95f467c8abcc6cdb0b9299be738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 01/34] fix: decode 8/16/32-bit size prefixes as unsigned

---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 38773f86183fbe1969ef9f685e3ce291e6e39bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 02/34] fix: reject truncated strings and numbers instead of
 shortening them or returning a bare io.EOF

---
 encoding/decoder.go | 48 +++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..5c74262 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -130,52 +130,59 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		return int64(int8(marker)), nil
 	case marker == Int8Marker:
 		var out int8
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading integer")
+		}
+		return int64(out), nil
 	case marker == Int16Marker:
 		var out int16
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading integer")
+		}
+		return int64(out), nil
 	case marker == Int32Marker:
 		var out int32
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading integer")
+		}
+		return int64(out), nil
 	case marker == Int64Marker:
 		var out int64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading integer")
+		}
+		return int64(out), nil
 
 	// FLOAT
 	case marker == FloatMarker:
 		var out float64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return out, err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading float")
+		}
+		return out, nil
 
 	// STRING
 	case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:
 		size := int(marker) - int(TinyStringMarker)
-		if size == 0 {
-			return "", nil
-		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,6 +253,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes is longer than the remaining message of %d bytes", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
-- 
2.43.0


From 46adbaf009015a20f588e9cd9833bd2629ea2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 03/34] fix: report an error instead of panicking on graph
 structures with non-integer ids

---
 encoding/decoder.go | 25 ++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 5c74262..b7fbd66 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -334,12 +334,15 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 
 func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	if node.NodeIdentity, ok = nodeIdentityInt.(int64); !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -369,26 +372,32 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	if rel.RelIdentity, ok = relIdentityInt.(int64); !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	if rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64); !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	if rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64); !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -454,14 +463,16 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	if rel.RelIdentity, ok = relIdentityInt.(int64); !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..f968c17 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 4ed3b2c4ebaa6f9009a8c2d4f37341e792ab3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 04/34] fix: don't allocate collections by the size prefix of
 an unverified message

---
 encoding/decoder.go | 10 +++++++---
 encoding/util.go    |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b7fbd66..5af52db 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -10,6 +10,9 @@ import (
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
 )
 
+// maxPrealloc bounds the space reserved for a collection before its items are decoded
+const maxPrealloc = 32
+
 // Decoder decodes a message from the bolt protocol stream
 // Attempts to support all builtin golang types, when it can be confidently
 // mapped to a data type from: http://alpha.neohq.net/docs/server-manual/bolt-serialization.html#bolt-packstream-structures
@@ -261,20 +264,21 @@ func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, erro
 }
 
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// The size comes from the stream, so don't trust it for the allocation
+	slice := make([]interface{}, 0, minInt(size, maxPrealloc))
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := make(map[string]interface{}, minInt(size, maxPrealloc))
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/util.go b/encoding/util.go
index f968c17..804758f 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -64,3 +64,10 @@ func sliceInterfaceToUnboundRelationship(from []interface{}) ([]graph.UnboundRel
 	}
 	return to, nil
 }
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From 479451e33cd21b068c85411629ef5866918fddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 05/34] fix: read message chunks completely whatever pieces the
 reader delivers

---
 encoding/decoder.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 5af52db..63384be 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -71,21 +71,8 @@ func (d Decoder) read() (*bytes.Buffer, error) {
 
 func (d Decoder) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 82dc892f1bf18b799e1a404cdbb2f62c5059658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 06/34] fix: reject structures with a wrong number of fields

---
 encoding/decoder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 63384be..126a36b 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -13,6 +13,17 @@ import (
 // maxPrealloc bounds the space reserved for a collection before its items are decoded
 const maxPrealloc = 32
 
+// structSizes is the number of fields of the structures with a fixed layout
+var structSizes = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+}
+
 // Decoder decodes a message from the bolt protocol stream
 // Attempts to support all builtin golang types, when it can be confidently
 // mapped to a data type from: http://alpha.neohq.net/docs/server-manual/bolt-serialization.html#bolt-packstream-structures
@@ -293,6 +304,10 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Expected %d fields in struct with signature %x, but got %d", expected, signature, size)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
-- 
2.43.0


From b27628a0cf499b230e0d2eae1a265fc61d7c6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 07/34] fix: refuse messages nested so deeply that decoding
 exhausts the stack

---
 encoding/decoder.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 126a36b..08a5e84 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -13,6 +13,9 @@ import (
 // maxPrealloc bounds the space reserved for a collection before its items are decoded
 const maxPrealloc = 32
 
+// maxDepth bounds the nesting of a message, which would otherwise exhaust the stack
+const maxDepth = 100000
+
 // structSizes is the number of fields of the structures with a fixed layout
 var structSizes = map[byte]int{
 	graph.NodeSignature:                3,
@@ -33,8 +36,9 @@ var structSizes = map[byte]int{
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new Decoder object
@@ -101,6 +105,12 @@ func (d Decoder) Decode() (interface{}, error) {
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	// The receiver is a copy, so this counts the nesting of the current value
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
-- 
2.43.0


From 144dd26bcbee1ac7bcc748dd65be3ded8d3cf180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 08/34] fix: split what is left of a message when it doesn't
 fit a single chunk

---
 encoding/encoder.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..c08f383 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -89,6 +89,10 @@ type Encoder struct {
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		// A chunk can't be empty, so treat this as no limit
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -131,13 +135,18 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > math.MaxUint16 {
+			// The length of a chunk has to fit its header
+			length = int(e.chunkSize)
+		}
+
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From bfc16b38bd5bfd695ae28ee98221737541c9dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 09/34] fix: send nothing of a message that turns out not to be
 encodable

---
 encoding/encoder.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c08f383..4187584 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -84,6 +84,7 @@ var (
 type Encoder struct {
 	w         io.Writer
 	buf       *bytes.Buffer
+	full      *int // number of full chunks in buf
 	chunkSize uint16
 }
 
@@ -96,6 +97,7 @@ func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
+		full:      new(int),
 		chunkSize: chunkSize,
 	}
 }
@@ -107,7 +109,8 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// Write adds to the current message, cutting off full chunks of chunkSize.
+// Nothing is sent before the message is complete.
 func (e Encoder) Write(p []byte) (n int, err error) {
 
 	n, err = e.buf.Write(p)
@@ -116,18 +119,8 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
+	if e.buf.Len()-*e.full*int(e.chunkSize) >= int(e.chunkSize) {
+		*e.full++
 	}
 
 	return n, nil
@@ -137,7 +130,10 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 func (e Encoder) flush() error {
 	for e.buf.Len() > 0 {
 		length := e.buf.Len()
-		if length > math.MaxUint16 {
+		if *e.full > 0 {
+			*e.full--
+			length = int(e.chunkSize)
+		} else if length > math.MaxUint16 {
 			// The length of a chunk has to fit its header
 			length = int(e.chunkSize)
 		}
@@ -165,10 +161,13 @@ func (e Encoder) Encode(iVal interface{}) error {
 
 	err := e.encode(iVal)
 	if err != nil {
+		// Don't send the part of the message in front of the error
+		e.buf.Reset()
+		*e.full = 0
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
+	// The message is complete, write it out
 	return e.flush()
 }
 
-- 
2.43.0


From efcb0e64177898cca4a1df4a880c9215a41c4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 10/34] fix: check the fields of request and ignored messages
 too

---
 encoding/decoder.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 08a5e84..94119f3 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -18,13 +18,17 @@ const maxDepth = 100000
 
 // structSizes is the number of fields of the structures with a fixed layout
 var structSizes = map[byte]int{
-	graph.NodeSignature:                3,
-	graph.RelationshipSignature:        5,
-	graph.PathSignature:                3,
-	graph.UnboundRelationshipSignature: 3,
-	messages.RecordMessageSignature:    1,
-	messages.FailureMessageSignature:   1,
-	messages.SuccessMessageSignature:   1,
+	graph.NodeSignature:                 3,
+	graph.RelationshipSignature:         5,
+	graph.PathSignature:                 3,
+	graph.UnboundRelationshipSignature:  3,
+	messages.RecordMessageSignature:     1,
+	messages.FailureMessageSignature:    1,
+	messages.SuccessMessageSignature:    1,
+	messages.AckFailureMessageSignature: 0,
+	messages.DiscardAllMessageSignature: 0,
+	messages.PullAllMessageSignature:    0,
+	messages.ResetMessageSignature:      0,
 }
 
 // Decoder decodes a message from the bolt protocol stream
@@ -332,6 +336,12 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
+		// Some servers send metadata along
+		for i := 0; i < size; i++ {
+			if _, err := d.decode(buffer); err != nil {
+				return nil, err
+			}
+		}
 		return d.decodeIgnoredMessage(buffer)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
-- 
2.43.0


From ab709318d09ec250c8a466ed98672c3528ebe78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 11/34] fix: never use a connection again once a response was
 lost or not understood

The end of the stream wasn't treated as an error of the connection, and a
connection kept being used after a timeout, a transport error or a response
that couldn't be decoded. Late or left over responses were then taken for
those of later requests.
---
 conn.go | 39 ++++++++++++++++++++++++++++++++++-----
 rows.go |  8 ++++----
 stmt.go | 13 ++++++-------
 tx.go   |  8 ++++----
 4 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..826b062 100644
--- a/conn.go
+++ b/conn.go
@@ -10,7 +10,6 @@ import (
 	"net/url"
 	"strings"
 
-	"io"
 	"math"
 
 	"crypto/tls"
@@ -316,8 +315,27 @@ func (c *boltConn) initialize() error {
 	}
 }
 
+// broken marks the connection as unusable. Once a response is lost or can't be
+// understood, the responses to come can't be attributed to their requests.
+func (c *boltConn) broken(err error) {
+	if c.connErr == nil {
+		c.connErr = err
+	}
+}
+
+// unexpected creates the error for a response that isn't allowed by the
+// protocol. The connection can't be used afterwards.
+func (c *boltConn) unexpected(msg string, args ...interface{}) error {
+	err := errors.New(msg, args...)
+	c.broken(err)
+	return err
+}
+
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -329,7 +347,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
@@ -338,6 +356,9 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
@@ -411,6 +432,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	for {
 		respInt, err := encoding.NewDecoder(c).Decode()
 		if err != nil {
+			c.broken(err)
 			return errors.Wrap(err, "An error occurred decoding ack failure message response")
 		}
 
@@ -445,6 +467,7 @@ func (c *boltConn) reset() error {
 	for {
 		respInt, err := encoding.NewDecoder(c).Decode()
 		if err != nil {
+			c.broken(err)
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -523,14 +546,14 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		return nil, c.unexpected("Unrecognized response type beginning transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message beginning transaction: %#v", success)
 
 	success, ok = pullInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type pulling transaction:  %#v", success)
+		return nil, c.unexpected("Unrecognized response type pulling transaction:  %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", success)
@@ -553,6 +576,7 @@ func (c *boltConn) consume() (interface{}, error) {
 
 	respInt, err := encoding.NewDecoder(c).Decode()
 	if err != nil {
+		c.broken(err)
 		return respInt, err
 	}
 
@@ -587,6 +611,10 @@ func (c *boltConn) consumeAll() ([]interface{}, interface{}, error) {
 			return responses, success, nil
 		}
 
+		if _, isRecord := respInt.(messages.RecordMessage); !isRecord {
+			return nil, respInt, c.unexpected("Unexpected response when consuming records: %#v", respInt)
+		}
+
 		responses = append(responses, respInt)
 	}
 }
@@ -787,8 +815,9 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
+		err := c.unexpected("Unexpected response querying neo from connection: %#v", successResp)
 		c.statement.Close()
-		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
+		return nil, err
 	}
 
 	c.statement.rows = newQueryRows(c.statement, success.Metadata)
diff --git a/rows.go b/rows.go
index 4eb6782..71b0bdb 100644
--- a/rows.go
+++ b/rows.go
@@ -134,7 +134,7 @@ func (r *boltRows) Close() error {
 		case messages.SuccessMessage:
 			log.Infof("Got success message: %#v", resp)
 		default:
-			return errors.New("Unrecognized response type discarding all rows: Value: %#v", resp)
+			return r.statement.conn.unexpected("Unrecognized response type discarding all rows: Value: %#v", resp)
 		}
 
 	} else if !r.finishedConsume {
@@ -225,7 +225,7 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, errors.New("Unrecognized response type getting next query row: %#v", resp)
+		return nil, nil, r.statement.conn.unexpected("Unrecognized response type getting next query row: %#v", resp)
 	}
 }
 
@@ -273,7 +273,7 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.statement.conn.unexpected("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
 		}
 
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
@@ -284,6 +284,6 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, errors.New("Unrecognized response type getting next pipeline row: %#v", resp)
+		return nil, nil, nil, r.statement.conn.unexpected("Unrecognized response type getting next pipeline row: %#v", resp)
 	}
 }
diff --git a/stmt.go b/stmt.go
index 42a6f32..d8cdfdc 100644
--- a/stmt.go
+++ b/stmt.go
@@ -103,15 +103,14 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok := runResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type when running exec query: %#v", success)
-
+		return nil, s.conn.unexpected("Unrecognized response type when running exec query: %#v", runResp)
 	}
 
 	log.Infof("Got run success message: %#v", success)
 
 	success, ok = pullResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response when discarding exec rows: %#v", success)
+		return nil, s.conn.unexpected("Unrecognized response when discarding exec rows: %#v", pullResp)
 	}
 
 	log.Infof("Got discard all success message: %#v", success)
@@ -149,7 +148,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok := runResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query result: %#v", runResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query result: %#v", runResp)
 		}
 
 		_, pullResp, err := s.conn.consumeAll()
@@ -159,7 +158,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok = pullResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query discard result: %#v", pullResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query discard result: %#v", pullResp)
 		}
 
 		results[i] = newResult(success.Metadata)
@@ -199,7 +198,7 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	resp, ok := respInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type running query: %#v", resp)
+		return nil, s.conn.unexpected("Unrecognized response type running query: %#v", respInt)
 	}
 
 	log.Infof("Got success message on run query: %#v", resp)
@@ -235,7 +234,7 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 
 	success, ok := resp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Got unexpected return message when consuming initial pipeline command: %#v", resp)
+		return nil, s.conn.unexpected("Got unexpected return message when consuming initial pipeline command: %#v", resp)
 	}
 
 	s.rows = newPipelineRows(s, success.Metadata, 0)
diff --git a/tx.go b/tx.go
index e70bbef..0eb8f7c 100644
--- a/tx.go
+++ b/tx.go
@@ -43,14 +43,14 @@ func (t *boltTx) Commit() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type committing transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message committing transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction:  %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
@@ -78,14 +78,14 @@ func (t *boltTx) Rollback() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type rolling back transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message rolling back transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction: %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction: %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From 3d0e874effa761f6339ac40528dfad564dbbcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:32 +0000
Subject: [PATCH 12/34] fix: read the whole handshake response and accept
 offered versions only

A response that arrived in pieces was taken for success, and so was any
version the server cared to answer with.
---
 conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 826b062..7953d6a 100644
--- a/conn.go
+++ b/conn.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strings"
 
+	"io"
 	"math"
 
 	"crypto/tls"
@@ -245,15 +246,14 @@ func (c *boltConn) handShake() error {
 		return err
 	}
 
-	numRead, err := c.Read(c.serverVersion)
-	if numRead != 4 {
+	numRead, err := io.ReadFull(c, c.serverVersion)
+	if err != nil {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that wasn't offered: %v", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From 40b02a222293a3721d2841a37bc76cb451e5a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:50 +0000
Subject: [PATCH 13/34] fix: keep rows consistent after failures and at their
 end

After a failure of the server the rows waited for responses that never came
when they were closed or read again, reading past the end blocked as well,
rows that failed to close could never be closed, and rows of a pipeline that
were replaced by the next ones took responses away from those.
---
 rows.go | 115 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 37 deletions(-)

diff --git a/rows.go b/rows.go
index 71b0bdb..da7ebb3 100644
--- a/rows.go
+++ b/rows.go
@@ -60,6 +60,7 @@ type boltRows struct {
 	finishedConsume bool
 	pipelineIndex   int
 	closeStatement  bool
+	err             error // the error that ended reading, if any
 }
 
 func newRows(statement *boltStmt, metadata map[string]interface{}) *boltRows {
@@ -123,6 +124,26 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	// Whatever happens when flushing, there is nothing
+	// left to be read from these rows afterwards
+	r.closed = true
+	err := r.flush()
+	r.statement.rows = nil
+
+	if r.closeStatement {
+		if closeErr := r.statement.Close(); err == nil {
+			err = closeErr
+		}
+	}
+	return err
+}
+
+// flush gets rid of the responses that weren't read yet
+func (r *boltRows) flush() error {
+	if r.finishedConsume {
+		return nil
+	}
+
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -137,38 +158,57 @@ func (r *boltRows) Close() error {
 			return r.statement.conn.unexpected("Unrecognized response type discarding all rows: Value: %#v", resp)
 		}
 
-	} else if !r.finishedConsume {
-		// If this is a pipeline statement, we need to "consume all" multiple times
-		numConsume := 1
-		if r.statement.queries != nil {
-			numQueries := len(r.statement.queries)
-			if numQueries > 0 {
-				// So, every pipeline statement has two successes
-				// but by the time you get to the row object, one has
-				// been consumed. Hence we need to clear out the
-				// rest of the messages on close by taking the current
-				// index * 2 but removing the first success
-				numConsume = ((numQueries - r.pipelineIndex) * 2) - 1
-			}
-		}
+		return nil
+	}
 
-		// Clear out all unconsumed messages if we
-		// never finished consuming them.
-		_, _, err := r.statement.conn.consumeAllMultiple(numConsume)
-		if err != nil {
-			return errors.Wrap(err, "An error occurred clearing out unconsumed stream")
+	// If this is a pipeline statement, we need to "consume all" multiple times
+	numConsume := 1
+	if r.statement.queries != nil {
+		numQueries := len(r.statement.queries)
+		if numQueries > 0 {
+			// So, every pipeline statement has two successes
+			// but by the time you get to the row object, one has
+			// been consumed. Hence we need to clear out the
+			// rest of the messages on close by taking the current
+			// index * 2 but removing the first success
+			numConsume = ((numQueries - r.pipelineIndex) * 2) - 1
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
+	// Clear out all unconsumed messages if we
+	// never finished consuming them.
+	_, _, err := r.statement.conn.consumeAllMultiple(numConsume)
+	if err != nil {
+		return errors.Wrap(err, "An error occurred clearing out unconsumed stream")
 	}
+
 	return nil
 }
 
+// failed notes an error that ended reading. A failure of the server ends all
+// that it had to say about the query, so there is nothing left to be consumed.
+func (r *boltRows) failed(err error) error {
+	r.consumed = true
+	r.finishedConsume = true
+	r.err = err
+	return err
+}
+
+// finished tells that there is nothing left to be read,
+// returning the error to report for it.
+func (r *boltRows) finished() (bool, error) {
+	if r.closed {
+		return true, errors.New("Rows are already closed")
+	}
+	if r.err != nil {
+		return true, r.err
+	}
+	if r.finishedConsume {
+		return true, io.EOF
+	}
+	return false, nil
+}
+
 // Next gets the next row result
 func (r *boltRows) Next(dest []driver.Value) error {
 	data, _, err := r.NextNeo()
@@ -199,21 +239,20 @@ func (r *boltRows) Next(dest []driver.Value) error {
 // When the rows are completed, returns the success metadata
 // and io.EOF
 func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
-	if r.closed {
-		return nil, nil, errors.New("Rows are already closed")
+	if done, err := r.finished(); done {
+		return nil, nil, err
 	}
 
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
-			return nil, nil, err
+			return nil, nil, r.failed(err)
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, r.failed(err)
 	}
 
 	switch resp := respInt.(type) {
@@ -225,7 +264,7 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, r.statement.conn.unexpected("Unrecognized response type getting next query row: %#v", resp)
+		return nil, nil, r.failed(r.statement.conn.unexpected("Unrecognized response type getting next query row: %#v", resp))
 	}
 }
 
@@ -248,13 +287,13 @@ func (r *boltRows) All() ([][]interface{}, map[string]interface{}, error) {
 // set of rows.
 // When all rows are completed, returns io.EOF
 func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, PipelineRows, error) {
-	if r.closed {
-		return nil, nil, nil, errors.New("Rows are already closed")
+	if done, err := r.finished(); done {
+		return nil, nil, nil, err
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, r.failed(err)
 	}
 
 	switch resp := respInt.(type) {
@@ -267,15 +306,17 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		}
 
 		successResp, err := r.statement.conn.consume()
-		if err != nil && err != io.EOF {
-			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
+		if err != nil {
+			return nil, nil, nil, r.failed(errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp))
 		}
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, r.statement.conn.unexpected("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.failed(r.statement.conn.unexpected("Unexpected response getting next set of rows from pipeline command: %#v", successResp))
 		}
 
+		// The next rows take over what is left of the pipeline
+		r.closed = true
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
 		r.statement.rows.closeStatement = r.closeStatement
 		return nil, success.Metadata, r.statement.rows, nil
@@ -284,6 +325,6 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, r.statement.conn.unexpected("Unrecognized response type getting next pipeline row: %#v", resp)
+		return nil, nil, nil, r.failed(r.statement.conn.unexpected("Unrecognized response type getting next pipeline row: %#v", resp))
 	}
 }
-- 
2.43.0


From b76f3882e2645267ff303c088f1078b8e82da153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:50 +0000
Subject: [PATCH 14/34] fix: always close the rows of a statement with the
 statement

Closing the connection or finishing a transaction with rows of a query still
open left their responses unread, to be taken for those of the next request.
---
 stmt.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stmt.go b/stmt.go
index d8cdfdc..c8d40dd 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,16 +59,16 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
-			return err
-		}
+	s.closed = true
+
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
 	}
 
-	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 54cfcab480866a93e7644b82464f37abd14930ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 15/34] fix: keep track of the open transaction

The connection never knew of its transaction: transactions could be nested,
and closing the connection (or returning it to a pool) left them open. A
transaction the server refused to finish could never be replaced.
---
 conn.go |  3 ++-
 tx.go   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 7953d6a..3e78b64 100644
--- a/conn.go
+++ b/conn.go
@@ -558,7 +558,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index 0eb8f7c..954afe9 100644
--- a/tx.go
+++ b/tx.go
@@ -37,6 +37,10 @@ func (t *boltTx) Commit() error {
 	}
 
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
+
+	// The transaction is over even if the server refused to commit it
+	t.conn.transaction = nil
+	t.closed = true
 	if err != nil {
 		return errors.Wrap(err, "An error occurred committing transaction")
 	}
@@ -55,8 +59,6 @@ func (t *boltTx) Commit() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
 
@@ -72,6 +74,10 @@ func (t *boltTx) Rollback() error {
 	}
 
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
+
+	// The transaction is over even if the server refused to roll it back
+	t.conn.transaction = nil
+	t.closed = true
 	if err != nil {
 		return errors.Wrap(err, "An error occurred rolling back transaction")
 	}
@@ -90,7 +96,5 @@ func (t *boltTx) Rollback() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
-- 
2.43.0


From 6e19090a92c17dbdee469a003913f5b3df300522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:45 +0000
Subject: [PATCH 16/34] fix: release the connection on close whatever goes
 wrong on the way

An error closing the open statement or rolling back the open transaction made
Close return early, leaking the socket or the slot of the pool.
---
 conn.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 3e78b64..5af8842 100644
--- a/conn.go
+++ b/conn.go
@@ -385,15 +385,20 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// Errors must not keep the connection from being released
+	var closeErr error
 	if c.statement != nil {
-		if err := c.statement.Close(); err != nil {
-			return err
-		}
+		closeErr = c.statement.Close()
 	}
 
 	if c.transaction != nil {
 		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+			err = errors.Wrap(err, "Error rolling back transaction when closing connection")
+			// The transaction may still be open, so nobody else can use this connection
+			c.broken(err)
+			if closeErr == nil {
+				closeErr = err
+			}
 		}
 	}
 
@@ -405,19 +410,19 @@ func (c *boltConn) Close() error {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
+	c.closed = true
 	if c.conn != nil {
 		err := c.conn.Close()
-		c.closed = true
 		if err != nil {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
-- 
2.43.0


From 1fd7b818ee68156e0c0fa15430d9ff9824a4e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:18 +0000
Subject: [PATCH 17/34] fix: don't use a session again that the server refused
 to reset

The connection wasn't marked as failed, so a pool handed it out again. Closing
it in the middle of a call crashed when rows were being closed, and returned
it to its pool a second time later on.
---
 conn.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 5af8842..7524182 100644
--- a/conn.go
+++ b/conn.go
@@ -331,6 +331,16 @@ func (c *boltConn) unexpected(msg string, args ...interface{}) error {
 	return err
 }
 
+// abandon marks the connection as unusable and hangs up on the server. The
+// connection is left to be closed by its owner, who may be in the middle of
+// closing rows, or would else return it to a pool for a second time.
+func (c *boltConn) abandon(err error) {
+	c.broken(err)
+	if err := c.conn.Close(); err != nil {
+		log.Errorf("An error occurred closing the session: %s", err)
+	}
+}
+
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
 	if c.connErr != nil {
@@ -416,7 +426,7 @@ func (c *boltConn) Close() error {
 	c.closed = true
 	if c.conn != nil {
 		err := c.conn.Close()
-		if err != nil {
+		if err != nil && c.connErr == nil {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
@@ -453,8 +463,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 			return c.reset()
 		default:
 			log.Errorf("Got unrecognized response from acking failure: %#v", resp)
-			c.connErr = errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
-			c.Close()
+			c.abandon(errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp))
 			return driver.ErrBadConn
 		}
 	}
@@ -485,15 +494,12 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
-			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
+			err := errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
+			c.abandon(err)
+			return err
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.connErr = errors.New("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", resp)
-			c.Close()
+			c.abandon(errors.New("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", resp))
 			return driver.ErrBadConn
 		}
 	}
@@ -517,6 +523,9 @@ func (c *boltConn) PreparePipeline(queries ...string) (PipelineStmt, error) {
 	if c.closed {
 		return nil, errors.New("Connection already closed")
 	}
+	if c.connErr != nil {
+		return nil, driver.ErrBadConn
+	}
 	c.statement = newPipelineStmt(queries, c)
 	return c.statement, nil
 }
@@ -528,6 +537,9 @@ func (c *boltConn) prepare(query string) (*boltStmt, error) {
 	if c.closed {
 		return nil, errors.New("Connection already closed")
 	}
+	if c.connErr != nil {
+		return nil, driver.ErrBadConn
+	}
 	c.statement = newStmt(query, c)
 	return c.statement, nil
 }
-- 
2.43.0


From aaf7c24d033e813e370eaab4255a897badc65d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 18/34] fix: close the statement of a pipeline query that
 failed

The connection refused every other call afterwards.
---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 7524182..79ec3f6 100644
--- a/conn.go
+++ b/conn.go
@@ -853,6 +853,7 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 	c.statement = newPipelineStmt(queries, c)
 	rows, err := c.statement.QueryPipeline(params...)
 	if err != nil {
+		c.statement.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 27394dccf6b4a1626b8dbc39685334ef6fc2f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:21 +0000
Subject: [PATCH 19/34] fix: refuse to query an empty pipeline instead of
 waiting for its responses

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index c8d40dd..b7be0b9 100644
--- a/stmt.go
+++ b/stmt.go
@@ -218,6 +218,10 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
+
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
-- 
2.43.0


From ab772020c98d1b7f23c878c2a316762c530bca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:23 +0000
Subject: [PATCH 20/34] fix: send nothing of a pipeline with a query that can't
 be encoded

The queries before it were already sent and their responses never read, to be
taken for those of the next request.
---
 stmt.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/stmt.go b/stmt.go
index b7be0b9..55e6bed 100644
--- a/stmt.go
+++ b/stmt.go
@@ -2,7 +2,9 @@ package golangNeo4jBoltDriver
 
 import (
 	"database/sql/driver"
+	"io/ioutil"
 
+	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
@@ -118,6 +120,18 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 	return newResult(success.Metadata), nil
 }
 
+// checkPipeline checks that all queries of a pipeline can be encoded, because
+// there is no way to take back the first ones when it fails later on.
+func (s *boltStmt) checkPipeline(params []map[string]interface{}) error {
+	for i, query := range s.queries {
+		runMessage := messages.NewRunMessage(query, params[i])
+		if err := encoding.NewEncoder(ioutil.Discard, s.conn.chunkSize).Encode(runMessage); err != nil {
+			return errors.Wrap(err, "Error encoding query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+	}
+	return nil
+}
+
 func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {
 	if s.closed {
 		return nil, errors.New("Neo4j Bolt statement already closed")
@@ -130,6 +144,10 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
+	if err := s.checkPipeline(params); err != nil {
+		return nil, err
+	}
+
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
@@ -222,6 +240,10 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 		return nil, errors.New("Must pass at least one query")
 	}
 
+	if err := s.checkPipeline(params); err != nil {
+		return nil, err
+	}
+
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
-- 
2.43.0


From a07b526ae173a9b5aaf4cfe1e4d569002bcc9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 21/34] fix: refuse to encode values nested so deeply that it
 exhausts the stack

---
 encoding/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 4187584..e886fe5 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -85,6 +85,7 @@ type Encoder struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	full      *int // number of full chunks in buf
+	depth     int
 	chunkSize uint16
 }
 
@@ -174,6 +175,12 @@ func (e Encoder) Encode(iVal interface{}) error {
 // Encode encodes an object to the stream
 func (e Encoder) encode(iVal interface{}) error {
 
+	// The receiver is a copy, so this counts the nesting of the current value
+	e.depth++
+	if e.depth > maxDepth {
+		return errors.New("Value is nested more than %d levels deep", maxDepth)
+	}
+
 	var err error
 	switch val := iVal.(type) {
 	case nil:
-- 
2.43.0


From 748fbbaaaf35797d630b94d4f015ba5b254b51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 22/34] fix: refuse nil pointers to structures instead of
 panicking

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index e886fe5..c42126f 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -221,6 +221,9 @@ func (e Encoder) encode(iVal interface{}) error {
 	case map[string]interface{}:
 		err = e.encodeMap(val)
 	case structures.Structure:
+		if v := reflect.ValueOf(iVal); v.Kind() == reflect.Ptr && v.IsNil() {
+			return errors.New("Cannot encode a nil %T", iVal)
+		}
 		err = e.encodeStructure(val)
 	default:
 		// arbitrary slice types
-- 
2.43.0


From 6a150cc395586e85a077e0b52c90244bde3dc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:22 +0000
Subject: [PATCH 23/34] fix: report an error instead of panicking on statistics
 that aren't integers

---
 result.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..71e7059 100644
--- a/result.go
+++ b/result.go
@@ -50,24 +50,17 @@ func (r boltResult) RowsAffected() (int64, error) {
 	}
 
 	var rowsAffected int64
-	nodesCreated, ok := stats["nodes-created"]
-	if ok {
-		rowsAffected += nodesCreated.(int64)
-	}
-
-	relsCreated, ok := stats["relationships-created"]
-	if ok {
-		rowsAffected += relsCreated.(int64)
-	}
-
-	nodesDeleted, ok := stats["nodes-deleted"]
-	if ok {
-		rowsAffected += nodesDeleted.(int64)
-	}
+	for _, name := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		count, ok := stats[name]
+		if !ok {
+			continue
+		}
 
-	relsDeleted, ok := stats["relationships-deleted"]
-	if ok {
-		rowsAffected += relsDeleted.(int64)
+		affected, ok := count.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", name, r.metadata)
+		}
+		rowsAffected += affected
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 20c5a70c25a91880aff08e98f1369e958852255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:24 +0000
Subject: [PATCH 24/34] fix: apply the timeout to dialing and handshake of TLS
 connections too

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 79ec3f6..db2aa7c 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 075aa40e92abde048ecc7e12e2ba7118cee1b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 25/34] fix: fail on a CA cert file without any usable
 certificate

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index db2aa7c..38439c4 100644
--- a/conn.go
+++ b/conn.go
@@ -210,7 +210,9 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, errors.New("No usable certificate in CA cert file: %s", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
-- 
2.43.0


From 02453a83563f4ec13e5ca48c90e6cc2b206d1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:09 +0000
Subject: [PATCH 26/34] fix: report a refused initialization and don't pool a
 connection that wasn't initialized

---
 conn.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/conn.go b/conn.go
index 38439c4..0869860 100644
--- a/conn.go
+++ b/conn.go
@@ -272,51 +272,49 @@ func (c *boltConn) initialize() error {
 	} else if c.driver != nil && c.driver.recorder != nil {
 		c.driver.recorder.Conn, err = c.createConn()
 		if err != nil {
-			// Return the connection back into the pool
-			if e := c.Close(); e != nil {
-				log.Errorf("An error occurred closing connection: %s", e)
-			}
-			return err
+			return c.initFailed(err)
 		}
 		c.conn = c.driver.recorder
 	} else {
 		c.conn, err = c.createConn()
 		if err != nil {
-			// Return the connection back into the pool
-			if e := c.Close(); e != nil {
-				log.Errorf("An error occurred closing connection: %s", e)
-			}
-			return err
+			return c.initFailed(err)
 		}
 	}
 
 	if err := c.handShake(); err != nil {
-		if e := c.Close(); e != nil {
-			log.Errorf("An error occurred closing connection: %s", e)
-		}
-		return err
+		return c.initFailed(err)
 	}
 
 	respInt, err := c.sendInit()
 	if err != nil {
-		if e := c.Close(); e != nil {
-			log.Errorf("An error occurred closing connection: %s", e)
-		}
-		return err
+		return c.initFailed(err)
 	}
 
 	switch resp := respInt.(type) {
 	case messages.SuccessMessage:
 		log.Infof("Successfully initiated Bolt connection: %+v", resp)
 		return nil
+	case messages.FailureMessage:
+		log.Errorf("Got failure message when initializing connection :%+v", resp)
+		return c.initFailed(errors.Wrap(resp, "Neo4J refused to initialize the connection"))
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
 		c.connErr = errors.New("Unrecognized response from the server: %#v", resp)
-		c.Close()
-		return driver.ErrBadConn
+		return c.initFailed(driver.ErrBadConn)
 	}
 }
 
+// initFailed closes a connection that couldn't be initialized, or returns it
+// to the pool marked as unusable
+func (c *boltConn) initFailed(err error) error {
+	c.broken(err)
+	if e := c.Close(); e != nil {
+		log.Errorf("An error occurred closing connection: %s", e)
+	}
+	return err
+}
+
 // broken marks the connection as unusable. Once a response is lost or can't be
 // understood, the responses to come can't be attributed to their requests.
 func (c *boltConn) broken(err error) {
@@ -666,7 +664,8 @@ func (c *boltConn) sendInit() (interface{}, error) {
 		return nil, errors.Wrap(err, "An error occurred sending init message")
 	}
 
-	return c.consume()
+	// A failure isn't acknowledged here, there is no session yet
+	return encoding.NewDecoder(c).Decode()
 }
 
 func (c *boltConn) sendRun(query string, args map[string]interface{}) error {
-- 
2.43.0


From e347c792292b3c1408091ff2e307d2c9e42a1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:59 +0000
Subject: [PATCH 27/34] fix: keep count of pooled connections and close them
 all with the pool

---
 conn.go   |  1 +
 driver.go | 85 +++++++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/conn.go b/conn.go
index 0869860..e68586e 100644
--- a/conn.go
+++ b/conn.go
@@ -415,6 +415,7 @@ func (c *boltConn) Close() error {
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
+		c.closed = true
 		if err != nil {
 			log.Errorf("An error occurred reclaiming connection for pool: %s", err)
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
diff --git a/driver.go b/driver.go
index 1bbf0c6..cc28834 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
+	"net"
 	"sync"
 )
 
@@ -87,9 +88,10 @@ type boltDriverPool struct {
 	connStr  string
 	maxConns int
 	pool     chan *boltConn
-	connRefs []*boltConn
+	connRefs map[net.Conn]struct{} // all open connections, whether in use or not
 	refLock  sync.Mutex
 	closed   bool
+	done     chan struct{} // closed with the pool
 }
 
 // NewDriverPool creates a new Driver object with connection pooling
@@ -107,6 +109,8 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		connRefs: map[net.Conn]struct{}{},
+		done:     make(chan struct{}),
 	}
 
 	for i := 0; i < max; i++ {
@@ -123,21 +127,39 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 
 // OpenPool opens a returns a Bolt connection from the pool to the Neo4J database.
 func (d *boltDriverPool) OpenPool() (Conn, error) {
-	// For each connection request we need to block in case the Close function is called. This gives us a guarantee
-	// when closing the pool no new connections are made.
+	var conn *boltConn
+	select {
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	default:
+	}
+	select {
+	case conn = <-d.pool:
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	if connectionNilOrClosed(conn) {
+		d.hangUp(conn)
+		var err error
+		if conn, err = newPooledBoltConn(d.connStr, d); err != nil {
+			return nil, err
+		}
+		if err := conn.initialize(); err != nil {
+			return nil, err
+		}
+	}
+
+	// The pool may have been closed in the meantime. No connection must be left
+	// open or handed out then.
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	if !d.closed {
-		conn := <-d.pool
-		if connectionNilOrClosed(conn) {
-			if err := conn.initialize(); err != nil {
-				return nil, err
-			}
-			d.connRefs = append(d.connRefs, conn)
-		}
-		return conn, nil
+	if d.closed {
+		conn.conn.Close()
+		return nil, errors.New("Driver pool has been closed")
 	}
-	return nil, errors.New("Driver pool has been closed")
+	d.connRefs[conn.conn] = struct{}{}
+	return conn, nil
 }
 
 func connectionNilOrClosed(conn *boltConn) (bool) {
@@ -159,24 +181,43 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	for _, conn := range d.connRefs {
-		// Remove the reference to the pool, to allow a clean up of the connection
-		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
-		}
+	if d.closed {
+		return nil
 	}
 	// Mark the pool as closed to stop any new connections
 	d.closed = true
-	return nil
+	close(d.done)
+
+	// Connections in use are closed as well. As they aren't thread safe, leave
+	// everything but the network connection to their users.
+	var closeErr error
+	for conn := range d.connRefs {
+		if err := conn.Close(); err != nil && closeErr == nil {
+			closeErr = errors.Wrap(err, "An error occurred closing a connection of the pool")
+		}
+	}
+	d.connRefs = map[net.Conn]struct{}{}
+	return closeErr
+}
+
+// hangUp closes the network connection of a connection that isn't used again
+func (d *boltDriverPool) hangUp(conn *boltConn) {
+	if conn.conn == nil {
+		return
+	}
+	d.refLock.Lock()
+	delete(d.connRefs, conn.conn)
+	d.refLock.Unlock()
+	if err := conn.conn.Close(); err != nil {
+		log.Infof("An error occurred closing a bad connection: %s", err)
+	}
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil || conn.closed {
+		d.hangUp(conn)
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
-- 
2.43.0


From cf6e6f7615ec90e5f9438dae02a82cb8e827e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:00 +0000
Subject: [PATCH 28/34] fix: notice when the server closed an idle pooled
 connection

---
 conncheck.go       | 50 ++++++++++++++++++++++++++++++++++++++++++++++
 conncheck_other.go | 10 ++++++++++
 driver.go          | 11 ++++++----
 3 files changed, 67 insertions(+), 4 deletions(-)
 create mode 100644 conncheck.go
 create mode 100644 conncheck_other.go

diff --git a/conncheck.go b/conncheck.go
new file mode 100644
index 0000000..9c5c0c4
--- /dev/null
+++ b/conncheck.go
@@ -0,0 +1,50 @@
+//go:build linux || darwin || dragonfly || freebsd || netbsd || openbsd || solaris || illumos
+// +build linux darwin dragonfly freebsd netbsd openbsd solaris illumos
+
+package golangNeo4jBoltDriver
+
+import (
+	"io"
+	"net"
+	"syscall"
+
+	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
+)
+
+// connCheck checks, without blocking, that an idle connection wasn't closed by
+// the server and that no data is waiting to be read from it.
+func connCheck(conn net.Conn) error {
+	// Look at the connection below TLS
+	if wrapper, ok := conn.(interface{ NetConn() net.Conn }); ok {
+		conn = wrapper.NetConn()
+	}
+	sysConn, ok := conn.(syscall.Conn)
+	if !ok {
+		return nil
+	}
+	rawConn, err := sysConn.SyscallConn()
+	if err != nil {
+		return err
+	}
+
+	var checkErr error
+	err = rawConn.Read(func(fd uintptr) bool {
+		var b [1]byte
+		n, err := syscall.Read(int(fd), b[:])
+		switch {
+		case n > 0:
+			checkErr = errors.New("Unexpected data on idle connection")
+		case n == 0 && err == nil:
+			checkErr = io.EOF
+		case err == syscall.EAGAIN || err == syscall.EWOULDBLOCK || err == syscall.EINTR:
+			checkErr = nil
+		default:
+			checkErr = err
+		}
+		return true
+	})
+	if err != nil {
+		return err
+	}
+	return checkErr
+}
diff --git a/conncheck_other.go b/conncheck_other.go
new file mode 100644
index 0000000..33e4fab
--- /dev/null
+++ b/conncheck_other.go
@@ -0,0 +1,10 @@
+//go:build !linux && !darwin && !dragonfly && !freebsd && !netbsd && !openbsd && !solaris && !illumos
+// +build !linux,!darwin,!dragonfly,!freebsd,!netbsd,!openbsd,!solaris,!illumos
+
+package golangNeo4jBoltDriver
+
+import "net"
+
+func connCheck(conn net.Conn) error {
+	return nil
+}
diff --git a/driver.go b/driver.go
index cc28834..63c155e 100644
--- a/driver.go
+++ b/driver.go
@@ -166,11 +166,14 @@ func connectionNilOrClosed(conn *boltConn) (bool) {
 	if(conn.conn == nil) {//nil check before attempting read
 		return true
 	}
-	conn.conn.SetReadDeadline(time.Now())
-	zero := make ([]byte, 0)
-	_, err := conn.conn.Read(zero)//read zero bytes to validate connection is still alive
+	// clear the deadline of the last read, it would fail the check
+	if err := conn.conn.SetReadDeadline(time.Time{}); err != nil {
+		log.Error("Bad Connection state detected", err)
+		return true
+	}
+	err := connCheck(conn.conn)
 	if err != nil {
-		log.Error("Bad Connection state detected", err)//the error caught here could be a io.EOF or a timeout, either way we want to log the error & return true
+		log.Error("Bad Connection state detected", err)//the error caught here could be a io.EOF or a network error, either way we want to log the error & return true
 		return true
 	}
 	return false
-- 
2.43.0


From d2e304e2a18062a70ec6ea993aeb8d554a86f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 29/34] fix: fail on rows that don't fit the columns instead of
 panicking or mixing rows

---
 rows.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rows.go b/rows.go
index da7ebb3..ec3f3b6 100644
--- a/rows.go
+++ b/rows.go
@@ -216,6 +216,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) != len(dest) {
+		return errors.New("Got a row with %d values for %d columns", len(data), len(dest))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
-- 
2.43.0


From ef169936310f3a197d1e5a599ef1bb7055f6dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 30/34] fix: let database/sql replace broken connections

---
 conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn.go b/conn.go
index e68586e..b1c8abe 100644
--- a/conn.go
+++ b/conn.go
@@ -436,6 +436,11 @@ func (c *boltConn) Close() error {
 	return closeErr
 }
 
+// IsValid tells database/sql whether the connection can be used again. See sql/driver.Validator.
+func (c *boltConn) IsValid() bool {
+	return c.connErr == nil && !c.closed
+}
+
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	log.Infof("Acknowledging Failure: %#v", failure)
 
-- 
2.43.0


From 72f97f04af2459c2b03e5b318fa7caf21b86f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 31/34] fix: refuse sql arguments that aren't maps instead of
 panicking

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e16ab7..e47f2bb 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, errors.New("You must pass only a gob encoded map to the Exec/Query args")
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From 474fb92d3044088eabb4d97935bf1be841017680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 32/34] fix: record data that arrives in single bytes

---
 recorder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index 41ba2ca..85193d6 100644
--- a/recorder.go
+++ b/recorder.go
@@ -160,7 +160,7 @@ func (r *recorder) record(data []byte, isWrite bool) {
 	}
 
 	event.Event = append(event.Event, data...)
-	if data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
+	if bytes.HasSuffix(event.Event, []byte{0x00, 0x00}) {
 		event.Completed = true
 	}
 }
-- 
2.43.0


From 80d1ade1dd60b7ad2f5b673bdc8cc927a99c6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 33/34] fix: replay recordings whatever pieces the data was
 recorded in

---
 recorder.go | 63 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/recorder.go b/recorder.go
index 85193d6..4e54955 100644
--- a/recorder.go
+++ b/recorder.go
@@ -69,27 +69,31 @@ func (r *recorder) Read(b []byte) (n int, err error) {
 		return numRead, err
 	}
 
-	if r.currentEvent >= len(r.events) {
-		return 0, errors.New("Trying to read past all of the events in the recorder! %#v", r)
-	}
-	event := r.events[r.currentEvent]
-	if event.IsWrite {
-		return 0, errors.New("Recorder expected Read, got Write! %#v, Event: %#v", r, event)
-	}
-
-	for i := 0; i < len(b); i++ {
-		if len(event.Event) == 0 {
-			return i, errors.New("Attempted to read past current event in recorder! Bytes: %s. Recorder %#v, Event; %#v", b, r, event)
-		}
-		b[i] = event.Event[0]
-		event.Event = event.Event[1:]
+	event, err := r.nextEvent(false)
+	if err != nil {
+		return 0, err
 	}
 
+	n = copy(b, event.Event)
+	event.Event = event.Event[n:]
 	if len(event.Event) == 0 {
 		r.currentEvent++
 	}
 
-	return len(b), nil
+	return n, nil
+}
+
+// nextEvent gets the event to play back next
+func (r *recorder) nextEvent(isWrite bool) (*Event, error) {
+	if r.currentEvent >= len(r.events) {
+		return nil, errors.New("Trying to read/write past all of the events in the recorder! %#v", r)
+	}
+	event := r.events[r.currentEvent]
+	if event.IsWrite != isWrite {
+		return nil, errors.New("Recorder expected Write: %t, got Write: %t! %#v, Event: %#v", event.IsWrite, isWrite, r, event)
+	}
+
+	return event, nil
 }
 
 // Close the net conn, outputting the recording
@@ -130,26 +134,25 @@ func (r *recorder) Write(b []byte) (n int, err error) {
 		return numWritten, err
 	}
 
-	if r.currentEvent >= len(r.events) {
-		return 0, errors.New("Trying to write past all of the events in the recorder! %#v", r)
-	}
-	event := r.events[r.currentEvent]
-	if !event.IsWrite {
-		return 0, errors.New("Recorder expected Write, got Read! %#v, Event: %#v", r, event)
-	}
+	// How the data is divided into writes and events isn't always the same
+	for n < len(b) {
+		event, err := r.nextEvent(true)
+		if err != nil {
+			return n, err
+		}
 
-	for i := 0; i < len(b); i++ {
+		written := len(b) - n
+		if written > len(event.Event) {
+			written = len(event.Event)
+		}
+		n += written
+		event.Event = event.Event[written:]
 		if len(event.Event) == 0 {
-			return i, errors.New("Attempted to write past current event in recorder! %#v, Event: %#v", r, event)
+			r.currentEvent++
 		}
-		event.Event = event.Event[1:]
-	}
-
-	if len(event.Event) == 0 {
-		r.currentEvent++
 	}
 
-	return len(b), nil
+	return n, nil
 }
 
 func (r *recorder) record(data []byte, isWrite bool) {
-- 
2.43.0


From 556615ea048abf76b54630837eaaf4c0722eb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:59 +0000
Subject: [PATCH 34/34] fix: close the connection even if its recording can't
 be written

---
 recorder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recorder.go b/recorder.go
index 4e54955..211553d 100644
--- a/recorder.go
+++ b/recorder.go
@@ -100,10 +100,10 @@ func (r *recorder) nextEvent(isWrite bool) (*Event, error) {
 func (r *recorder) Close() error {
 	if r.Conn != nil {
 		err := r.flush()
-		if err != nil {
-			return err
+		if closeErr := r.Conn.Close(); err == nil {
+			err = closeErr
 		}
-		return r.Conn.Close()
+		return err
 	} else if len(r.events) > 0 {
 		if r.currentEvent != len(r.events) {
 			return errors.New("Didn't read all of the events in the recorder on close! %#v", r)
-- 
2.43.0

