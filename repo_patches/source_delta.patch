From 972b46a7d9b1c74b9169544567b577814bb48ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 01/23] fix: read version 1 recordings completely however the
 stream delivers them

file.Read may return fewer bytes than asked for, so pipes and sockets failed
to load. The size in the file is no longer allocated before it is read.
---
 internal/io/rapv1/util.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..2bb2ee4 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,15 +22,11 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
 		return -1, bytesRead, err
 	}
 
-	if bytesRead != 4 {
-		return -1, bytesRead, fmt.Errorf("issue reading number of recordings, read %d bytes", bytesRead)
-	}
-
 	return int(binary.LittleEndian.Uint32(numberOfRecordings)), bytesRead, nil
 }
 
@@ -151,19 +147,18 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	if bytesReadFileSize != 8 {
-		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes", bytesRead)
-	}
-
 	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
+
+	// The stream is free to deliver the recording in many pieces, and the size
+	// can't be trusted until that many bytes have actually been read.
+	compressedBytes, err := ioutil.ReadAll(io.LimitReader(file, compressedSize))
+	compressedBytesRead := len(compressedBytes)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
-- 
2.43.0


From dd6adec9f50225950f9a04ca793bf7774dc84dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 02/23] fix: read single bytes with io.ReadFull

A Read that returns no bytes and no error left a stale byte in place, and one
that returned the byte together with an error lost it.
---
 format/io/load.go          | 2 +-
 format/io/reader.go        | 2 +-
 format/metadata/io.go      | 4 ++--
 internal/io/binary/util.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..de1dfad 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -196,7 +196,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..b892b48 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -80,7 +80,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -164,7 +164,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 
 func ReadProperty(b io.Reader) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
-- 
2.43.0


From 14b49b23517eb11cd14c6f71a678e10e1d7b3423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 03/23] fix: let buffers grow with the data instead of trusting
 stored lengths

A damaged length or count made the reader panic (len out of range) or exhaust
memory before a single byte of the value had been read.
---
 format/io/time.go            | 32 ++++++++++++++++++++++----------
 format/metadata/io.go        |  7 ++++---
 internal/io/binary/bytes.go  |  3 +--
 internal/io/binary/string.go |  9 ++++-----
 internal/io/binary/uint.go   |  6 +++---
 internal/io/binary/util.go   | 20 ++++++++++++++++++++
 6 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/format/io/time.go b/format/io/time.go
index 0276415..2232731 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -127,25 +127,31 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 }
 
 func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
+	times := make([]float64, 0)
 	for i := 0; i < int(numCaptures); i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
 func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
+	times := make([]float64, 0)
 	for i := 0; i < int(numCaptures); i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
@@ -172,17 +178,19 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
-	captures[0] = float64(startTime)
+	captures := []float64{float64(startTime)}
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
 	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+		_, err := io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -204,6 +212,10 @@ func decodeTime(in io.Reader) ([]float64, error) {
 		return nil, err
 	}
 
+	if numCaptures > math.MaxInt {
+		return nil, fmt.Errorf("invalid number of captures: %d", numCaptures)
+	}
+
 	switch encodingTechnique {
 	case Raw64:
 		return decodeTime64(in, int(numCaptures))
diff --git a/format/metadata/io.go b/format/metadata/io.go
index b892b48..cf2103a 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -150,12 +150,13 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0)
+		for i := uint64(0); i < len; i++ {
+			prop, err := readPropData(b, adjustedType)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..599b49a 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -26,8 +26,7 @@ func ReadBytesArray(r io.Reader) ([]byte, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
+	out, read, err := ReadBytes(r, len)
 	if err != nil && err != io.EOF {
 		return nil, read + bytesRead, err
 	}
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..cace250 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -21,8 +21,7 @@ func ReadString(r io.Reader) (string, int, error) {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, moreBytes, err := ReadBytes(r, len)
 	if err != nil {
 		return "", bytesRead + moreBytes, err
 	}
@@ -49,14 +48,14 @@ func ReadStringArray(r io.Reader) ([]string, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..8cf08fc 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -26,14 +26,14 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index b278285..ccd1192 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -1,9 +1,11 @@
 package binary
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 var overflow = errors.New("binary: varint overflows a 64-bit integer")
@@ -35,6 +37,24 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	return x, totalRead, overflow
 }
 
+// ReadBytes reads exactly size bytes. The size usually comes from the stream
+// itself, so large buffers only grow as the bytes actually arrive.
+func ReadBytes(r io.Reader, size uint64) ([]byte, int, error) {
+	if size <= 4096 {
+		out := make([]byte, size)
+		read, err := io.ReadFull(r, out)
+		return out, read, err
+	}
+
+	if size > math.MaxInt64 {
+		return nil, 0, io.ErrUnexpectedEOF
+	}
+
+	buf := bytes.Buffer{}
+	read, err := io.CopyN(&buf, r, int64(size))
+	return buf.Bytes(), int(read), err
+}
+
 func UnsignedFloatBSTToBytes(value, start, duration float64, out []byte) {
 	curValue := start + (duration / 2.0)
 	increment := duration / 4.0
-- 
2.43.0


From d35473c21a2c0d42bd945601a39271dfb63d7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 04/23] fix: report every failure met while reading a recording

Errors of nested reads, of time blocks and of codecs were dropped, so damaged
files produced recordings with nil collections or missing metadata, and
indexes from the file could run past the tables they refer to.
---
 format/io/reader.go | 116 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 90 insertions(+), 26 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index de1dfad..ef99ce2 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -78,6 +78,9 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata key index %d out of range", key)
+		}
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -93,9 +96,15 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording name
 	recordingName, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording metadata
 	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -105,61 +114,116 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num streams
 	numStreams, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+	allStreams := make([]format.CaptureCollection, 0)
+	for i := uint64(0); i < numStreams; i++ {
+		encoderIndex, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		if encoderIndex >= uint64(len(encoders)) {
+			return nil, er.TotalRead(), fmt.Errorf("encoder index %d out of range", encoderIndex)
+		}
 
-		streamName, _, _ := binary.ReadString(er)
+		streamName, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		times, err := decodeTime(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
-		allStreams[i] = stream
+		captureBody, _, err := binary.ReadBytesArray(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		stream, err := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		allStreams = append(allStreams, stream)
 	}
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binReferences := make([]format.BinaryReference, 0)
 
-	for i := 0; i < int(numBinaryReferences); i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaryReferences; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		uri, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+		binReferences = append(binReferences, NewBinaryReference(name, uri, refSize, block))
 	}
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binaries := make([]format.Binary, 0)
 
-	for i := 0; i < int(numBinaries); i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaries; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+		allData, _, err := binary.ReadBytes(er, refSize)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binaries[i] = NewBinary(name, allData, block)
+		binaries = append(binaries, NewBinary(name, allData, block))
 	}
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
+	allChildRecordings := make([]format.Recording, 0)
+	for i := uint64(0); i < numRecordings; i++ {
 		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
 	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
-- 
2.43.0


From 51102816fd995f2e7f89e463e7ae1418b03815f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 05/23] fix: check the indexes the enum and event codecs read
 from a file

---
 format/encoding/enum/enum.go   |  9 ++++++++-
 format/encoding/event/event.go | 10 ++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..8f2386c 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -86,10 +87,16 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum member index %d out of range", indeces)
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..7bb6ad2 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -111,6 +115,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 		if err != nil {
 			return nil, err
 		}
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event name index %d out of range", eventNameIndex)
+		}
 
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
@@ -119,6 +126,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event metadata key index %d out of range", metadataIndeces[metadataIndex])
+			}
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From da8437c19f8ef2572ff5c9b9bb620693ec7fc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 06/23] fix: return an error when a binary can not be written
 as declared

A failing sink, a failing binary stream or a stream of another size made
Write panic.
---
 format/io/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..c02bd70 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,9 +304,12 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
-			panic("Binary data written was larger than size in signature")
+			return ew.TotalWritten(), -1, fmt.Errorf("binary %s has %d bytes but declares a size of %d", bin.Name(), actualbinaryWritten, bin.Size())
 		}
 	}
 
-- 
2.43.0


From 223a38e1a1f7e772c9659ada01b1cd4ce3dee454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 07/23] fix: refuse nil metadata properties instead of
 panicking half-way through a file

---
 format/io/writer.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/format/io/writer.go b/format/io/writer.go
index c02bd70..454c537 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -358,6 +358,46 @@ func checkForNilInterfaces(recording format.Recording) error {
 	return nil
 }
 
+func checkBlockForNilProperties(block metadata.Block) error {
+	for key, val := range block.Mapping() {
+		if val == nil {
+			return fmt.Errorf("can not serialize recording with nil metadata property: %s", key)
+		}
+		if nested, ok := val.(metadata.MetadataProperty); ok {
+			if err := checkBlockForNilProperties(nested.Block()); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+func checkForNilProperties(recording format.Recording) error {
+	if err := checkBlockForNilProperties(recording.Metadata()); err != nil {
+		return err
+	}
+
+	for _, ref := range recording.BinaryReferences() {
+		if err := checkBlockForNilProperties(ref.Metadata()); err != nil {
+			return err
+		}
+	}
+
+	for _, bin := range recording.Binaries() {
+		if err := checkBlockForNilProperties(bin.Metadata()); err != nil {
+			return err
+		}
+	}
+
+	for _, rec := range recording.Recordings() {
+		if err := checkForNilProperties(rec); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 // Write will take the recording provided and write it to the underlying stream
 // the writer was built with.
 func (w Writer) Write(recording format.Recording) (int, error) {
@@ -375,6 +415,11 @@ func (w Writer) Write(recording format.Recording) (int, error) {
 		return 0, err
 	}
 
+	err = checkForNilProperties(recording)
+	if err != nil {
+		return 0, err
+	}
+
 	totalBytesWritten := 0
 
 	// Write version number
-- 
2.43.0


From 230007779adb8a00dd849f8550a0486462d8b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 08/23] fix: refuse unknown storage techniques when writing

Write reported success for a file that can not be read back.
---
 format/encoding/euler/euler.go       | 3 +++
 format/encoding/float/float.go       | 7 +++++++
 format/encoding/position/position.go | 3 +++
 format/io/time.go                    | 3 +++
 format/io/writer.go                  | 5 ++++-
 5 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 797761b..b190d5c 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -52,6 +52,9 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 	case Raw16:
 		streamData.Write(encodeRaw16(castedCaptureData))
 		break
+
+	default:
+		return nil, fmt.Errorf("Unknown euler encoding technique: %d", int(p.technique))
 	}
 
 	return streamData.Bytes(), nil
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index f640343..3decc29 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 
@@ -126,6 +127,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 				return nil, nil, err
 			}
 			break
+
+		default:
+			return nil, nil, fmt.Errorf("Unknown float encoding technique: %d", int(p.technique))
 		}
 	}
 
@@ -199,6 +203,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 	case BST16:
 		captures = decodeBST16(errReader, times)
 		break
+
+	default:
+		return nil, fmt.Errorf("Unknown float encoding technique: %d", int(encodingTechnique))
 	}
 
 	return float.NewCollection(name, captures), errReader.Error()
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index a091998..56a9d42 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -69,6 +69,9 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 		}
 		streamData.Write(d)
 		break
+
+	default:
+		return nil, fmt.Errorf("Unknown positional encoding technique: %d", int(p.technique))
 	}
 
 	return streamData.Bytes(), nil
diff --git a/format/io/time.go b/format/io/time.go
index 2232731..53ded9f 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -122,6 +122,9 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 			return 0, err
 		}
 		break
+
+	default:
+		return 0, fmt.Errorf("unrecognized time encoding: %d", technique)
 	}
 	return out.Write(dataBuffer.Bytes())
 }
diff --git a/format/io/writer.go b/format/io/writer.go
index 454c537..7196874 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -266,7 +266,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 		ew.Write(encoderIndex[:read])
 
 		ew.Write(rapbinary.StringToBytes(recording.CaptureCollections()[streamIndex].Name()))
-		encodeTime(tech, ew, recording.CaptureCollections()[streamIndex].Captures())
+		_, err := encodeTime(tech, ew, recording.CaptureCollections()[streamIndex].Captures())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 
 		// Write stream data
 		ew.Write(rapbinary.BytesArrayToBytes(encodingBlocks[offset+streamIndex]))
-- 
2.43.0


From fa2e4030538b84d5ab8035d20461b02bf64e1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 09/23] fix: refuse events with nil metadata properties

---
 format/encoding/event/event.go |  3 +++
 format/io/writer.go            | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 7bb6ad2..ea2406e 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -55,6 +55,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 			allValueDataBuffer := bytes.Buffer{}
 			keyCount := 0
 			for key, val := range eventCapture.Metadata().Mapping() {
+				if val == nil {
+					return nil, nil, errors.New("can not encode event with nil metadata property: " + key)
+				}
 				if _, ok := eventKeysSet[key]; !ok {
 					eventKeysSet[key] = len(eventKeysSet)
 				}
diff --git a/format/io/writer.go b/format/io/writer.go
index 7196874..08b725e 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -9,6 +9,7 @@ import (
 	"io"
 
 	"github.com/recolude/rap/format"
+	eventcollection "github.com/recolude/rap/format/collection/event"
 	"github.com/recolude/rap/format/encoding"
 	"github.com/recolude/rap/format/encoding/enum"
 	"github.com/recolude/rap/format/encoding/euler"
@@ -392,6 +393,18 @@ func checkForNilProperties(recording format.Recording) error {
 		}
 	}
 
+	for _, collection := range recording.CaptureCollections() {
+		events, ok := collection.(eventcollection.Collection)
+		if !ok {
+			continue
+		}
+		for i := 0; i < events.Length(); i++ {
+			if err := checkBlockForNilProperties(events.CaptureAt(i).(eventcollection.Capture).Metadata()); err != nil {
+				return err
+			}
+		}
+	}
+
 	for _, rec := range recording.Recordings() {
 		if err := checkForNilProperties(rec); err != nil {
 			return err
-- 
2.43.0


From e10530aa118279e80f31fb04ad708faec5f5584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 10/23] fix: report output failures of to-json, summarize and
 from-json

Errors of the output stream (and of closing the output file) were ignored, so
the commands succeeded with incomplete output.
---
 cmd/rap-cli/json.go      | 28 +++++++++++++++++++++++++---
 cmd/rap-cli/main.go      | 17 ++++++++++-------
 cmd/rap-cli/summarize.go |  5 ++++-
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..9c263b0 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -10,7 +10,26 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
-func toJson(out io.Writer, recording format.Recording, depth int) error {
+// errWriter remembers the first error of the writer it wraps, so a report can
+// be printed piece by piece and checked once.
+type errWriter struct {
+	io.Writer
+	err error
+}
+
+func (e *errWriter) Write(buf []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+
+	var n int
+	n, e.err = e.Writer.Write(buf)
+	return n, e.err
+}
+
+func toJson(w io.Writer, recording format.Recording, depth int) error {
+	out := &errWriter{Writer: w}
+
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
 		indentationBuilder.WriteString("\t")
@@ -96,7 +115,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			err := toJson(out, rec, depth+2)
+			if err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
@@ -111,5 +133,5 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	}
 
 	fmt.Fprintf(out, "%s}", indentation)
-	return nil
+	return out.err
 }
diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index 6d3134b..a3e857b 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -68,8 +68,7 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return err
 					}
 
-					printSummary(c.App.Writer, recording, size)
-					return nil
+					return printSummary(c.App.Writer, recording, size)
 				},
 			},
 			{
@@ -127,7 +126,7 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 					},
 				},
 				Usage: "Transforms json to RAP",
-				Action: func(c *cli.Context) error {
+				Action: func(c *cli.Context) (err error) {
 					jsonStream := c.App.Reader
 					if c.IsSet("in") {
 						file, err := os.Open(c.String("in"))
@@ -158,11 +157,15 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 							}
 						}
 
-						file, err := os.Create(outPath)
-						if err != nil {
-							return err
+						file, createErr := os.Create(outPath)
+						if createErr != nil {
+							return createErr
 						}
-						defer file.Close()
+						defer func() {
+							if closeErr := file.Close(); err == nil {
+								err = closeErr
+							}
+						}()
 						rapStream = file
 					}
 
diff --git a/cmd/rap-cli/summarize.go b/cmd/rap-cli/summarize.go
index cb3985c..74b133d 100644
--- a/cmd/rap-cli/summarize.go
+++ b/cmd/rap-cli/summarize.go
@@ -67,7 +67,9 @@ func printSize(size int64) string {
 	return fmt.Sprintf("%.2fmb", editedSize)
 }
 
-func printSummary(out io.Writer, recording format.Recording, size int64) {
+func printSummary(w io.Writer, recording format.Recording, size int64) error {
+	out := &errWriter{Writer: w}
+
 	displayName := recording.Name()
 	if displayName == "" {
 		displayName = "[No Name]"
@@ -84,4 +86,5 @@ func printSummary(out io.Writer, recording format.Recording, size int64) {
 	fmt.Fprintf(out, "Total Event Captures:    %d\n", recSummary.eventCaptureCount)
 	fmt.Fprintf(out, "Total Enum Captures:     %d\n", recSummary.enumCaptureCount)
 	fmt.Fprintf(out, "Total Other Captures:    %d\n", recSummary.otherCaptureCount)
+	return out.err
 }
-- 
2.43.0


From 2d91e62c48c79d31ed80a13d87023d9cf9c2de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 11/23] fix: print valid JSON whatever names and times a
 recording has

---
 cmd/rap-cli/json.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 9c263b0..418ef7c 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/recolude/rap/format"
@@ -27,6 +29,12 @@ func (e *errWriter) Write(buf []byte) (int, error) {
 	return n, e.err
 }
 
+func jsonString(s string) string {
+	// Marshalling a string can not fail
+	quoted, _ := json.Marshal(s)
+	return string(quoted)
+}
+
 func toJson(w io.Writer, recording format.Recording, depth int) error {
 	out := &errWriter{Writer: w}
 
@@ -40,10 +48,10 @@ func toJson(w io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonString(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonString(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -61,8 +69,8 @@ func toJson(w io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonString(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonString(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -71,6 +79,10 @@ func toJson(w io.Writer, recording format.Recording, depth int) error {
 				for capIndex := 0; capIndex < eventCollection.Length(); capIndex++ {
 					event := eventCollection.CaptureAt(capIndex).(event.Capture)
 
+					if math.IsNaN(event.Time()) || math.IsInf(event.Time(), 0) {
+						return fmt.Errorf("can not represent time %f of event %s in json", event.Time(), event.Name())
+					}
+
 					eventJSONData, err := metadata.NewMetadataProperty(event.Metadata()).MarshalJSON()
 					if err != nil {
 						return err
@@ -78,7 +90,7 @@ func toJson(w io.Writer, recording format.Recording, depth int) error {
 
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonString(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
-- 
2.43.0


From f469285e8c810d46cdfa16507a276f5ed1a364b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 12/23] fix: refuse CSV without the required columns instead of
 panicking

---
 cmd/rap-cli/csv.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..998835a 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -56,6 +56,19 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	for column, index := range map[string]int{
+		"time": timeIndex,
+		"id":   idIndex,
+		"name": nameIndex,
+		"x":    posXIndex,
+		"y":    posYIndex,
+		"z":    posZIndex,
+	} {
+		if index == -1 {
+			return nil, fmt.Errorf("csv is missing the %s column", column)
+		}
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
-- 
2.43.0


From 499c56c17f788fe0b8fb14a1a0541543d99f0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 13/23] fix: keep the order in which recordings first appear in
 a CSV

Ranging over a map shuffled them differently on every run.
---
 cmd/rap-cli/csv.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index 998835a..2327647 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -69,6 +69,12 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	type recordingKey struct {
+		id   string
+		name string
+	}
+	recordingOrder := make([]recordingKey, 0)
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
@@ -108,27 +114,29 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 			workingData[id] = make(map[string][]position.Capture)
 		}
 
+		if _, seen := workingData[id][name]; !seen {
+			recordingOrder = append(recordingOrder, recordingKey{id: id, name: name})
+		}
+
 		workingData[id][name] = append(workingData[id][name], position.NewCapture(time, x, y, z))
 	}
 
 	allRecordings := make([]format.Recording, 0)
-	for id, mappings := range workingData {
-		for name, captures := range mappings {
-			allRecordings = append(
-				allRecordings,
-				format.NewRecording(
-					id,
-					name,
-					[]format.CaptureCollection{
-						position.NewCollection("Position", captures),
-					},
-					nil,
-					metadata.EmptyBlock(),
-					nil,
-					nil,
-				),
-			)
-		}
+	for _, key := range recordingOrder {
+		allRecordings = append(
+			allRecordings,
+			format.NewRecording(
+				key.id,
+				key.name,
+				[]format.CaptureCollection{
+					position.NewCollection("Position", workingData[key.id][key.name]),
+				},
+				nil,
+				metadata.EmptyBlock(),
+				nil,
+				nil,
+			),
+		)
 	}
 
 	return format.NewRecording("", "", nil, allRecordings, metadata.EmptyBlock(), nil, nil), nil
-- 
2.43.0


From 84a14146d68f60530f3447629e16c2fa21ffb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/23] fix: tell the members of an enum collection built from
 JSON apart

The mapping from member to value was never filled, so every capture got the
value 0 and repeated members were listed again.
---
 format/parsing/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..5a6c901 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -275,6 +275,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 		if val, ok := allEnumEntriesMapping[enumEntry]; ok {
 			enumIndex = val
 		} else {
+			allEnumEntriesMapping[enumEntry] = enumIndex
 			allEnumEntries = append(allEnumEntries, enumEntry)
 		}
 
-- 
2.43.0


From 81584f7542a64d161fd7673a56f47e410fa4efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 15/23] fix: refuse JSON metadata that can not be parsed
 instead of dropping it

---
 format/parsing/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 5a6c901..762681a 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,10 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	err = resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err != nil {
+		return metadata.EmptyBlock(), fmt.Errorf("unable to parse metadata: %w", err)
+	}
 
 	return resultingMetadata.Block(), nil
 }
-- 
2.43.0


From a018df7468d58d5342def151972d3c0788a6268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 16/23] fix: build metadata properties from any JSON value or
 refuse it

Strings with quotes or escapes were lost or altered; null, empty arrays and
objects with a non-numeric x or y panicked; arrays of mixed or nested types
produced files that can not be read; metadata with just an x and a y was
taken for a vector.
---
 format/metadata/property.go |  8 +---
 format/metadata/utils.go    | 82 ++++++++++++++++++++++++++++---------
 2 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..7844ad9 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -517,15 +517,11 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	block, err := getBlock(data)
 	if err != nil {
 		return err
 	}
-	newMp, ok := prop.(MetadataProperty)
-	if !ok {
-		return errors.New("unable to unmarshal MetadataProperty")
-	}
-	mp.block.mapping = newMp.block.mapping
+	mp.block = block
 	return nil
 }
 
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..d17bee0 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -3,37 +3,83 @@ package metadata
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 	"time"
 )
 
+func getBlock(data map[string]interface{}) (Block, error) {
+	props := make(map[string]Property)
+	for key, val := range data {
+		prop, err := getProperties(val)
+		if err != nil {
+			return EmptyBlock(), err
+		}
+		props[key] = prop
+	}
+	return NewBlock(props), nil
+}
+
+// getArrayProperty builds an array out of properties that share a type. Whole
+// numbers next to fractional ones are stored as floats.
+func getArrayProperty(props []Property) (Property, error) {
+	code := props[0].Code()
+	for _, prop := range props {
+		if _, ok := prop.(Float32Property); ok && code == (Int32Property{}).Code() {
+			code = prop.Code()
+		}
+	}
+
+	out := make([]Property, len(props))
+	for i, prop := range props {
+		if whole, ok := prop.(Int32Property); ok && code == (Float32Property{}).Code() {
+			prop = NewFloat32Property(float32(whole.i))
+		}
+		if prop.Code() != code {
+			return nil, errors.New("all elements of an array must have the same type")
+		}
+		out[i] = prop
+	}
+
+	switch props[0].(type) {
+	case ArrayProperty, ArrayPropertyRaw:
+		return nil, errors.New("arrays can not be nested")
+	}
+	return newArrayProperty(code, out), nil
+}
+
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
 		x, foundX := d["x"]
 		y, foundY := d["y"]
 		z, foundZ := d["z"]
-		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+		numX, isNumX := x.(float64)
+		numY, isNumY := y.(float64)
+		numZ, isNumZ := z.(float64)
+		if len(d) == 2 && foundX && foundY && isNumX && isNumY {
+			return NewVector2Property(numX, numY), nil
 		}
-		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+		if len(d) == 3 && foundX && foundY && foundZ && isNumX && isNumY && isNumZ {
+			return NewVector3Property(numX, numY, numZ), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
+		block, err := getBlock(d)
+		if err != nil {
+			return nil, err
 		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return NewMetadataProperty(block), nil
 	case []interface{}:
+		if len(d) == 0 {
+			return nil, errors.New("unable to tell the type of an empty array")
+		}
 		if _, ok := d[0].(bool); ok {
 			bools := make([]bool, 0, len(d))
 			for _, item := range d {
-				b, _ := item.(bool)
+				b, ok := item.(bool)
+				if !ok {
+					return nil, errors.New("all elements of an array must have the same type")
+				}
 				bools = append(bools, b)
 			}
 			return NewBoolArrayProperty(bools), nil
@@ -46,7 +92,7 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			props = append(props, propItem)
 		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return getArrayProperty(props)
 	case string:
 		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
 			var p ByteProperty
@@ -69,11 +115,7 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			return p, nil
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
+		return NewStringProperty(d), nil
 	case float64:
 		if d == float64(int64(d)) {
 			var p Int32Property
@@ -94,5 +136,5 @@ func getProperties(data interface{}) (Property, error) {
 		}
 		return p, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unable to represent %v as a metadata property", data)
 }
-- 
2.43.0


From b60182fe22112f209dd75b7beebafdf132bf6036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 17/23] fix: keep the times of unordered captures in upgrade
 and from-json

BST16 can not represent a capture earlier than its predecessor and silently
moved it.
---
 cmd/rap-cli/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index a3e857b..279582a 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -23,6 +23,16 @@ func kb(byteCount int) string {
 	return fmt.Sprintf("%d kb", byteCount/1024)
 }
 
+// timeTechnique picks the smallest time encoding that can represent the
+// recording. BST16 stores the time since the previous capture as a positive
+// number, so it can only be used on captures in chronological order.
+func timeTechnique(recording format.Recording) rapio.TimeStorageTechnique {
+	if format.Validate(recording) != nil {
+		return rapio.Raw64
+	}
+	return rapio.BST16
+}
+
 func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 	return &cli.App{
 		Name:  "RAP CLI",
@@ -176,7 +186,7 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						enum.NewEncoder(),
 					}
 
-					recordingWriter := rapio.NewWriter(encoders, true, rapStream, rapio.BST16)
+					recordingWriter := rapio.NewWriter(encoders, true, rapStream, timeTechnique(builtRecording))
 					_, err = recordingWriter.Write(builtRecording)
 					return err
 				},
@@ -211,7 +221,7 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						enum.NewEncoder(),
 					}
 
-					recordingWriter := rapio.NewWriter(encoders, true, c.App.Writer, rapio.BST16)
+					recordingWriter := rapio.NewWriter(encoders, true, c.App.Writer, timeTechnique(recording))
 					_, err = recordingWriter.Write(recording)
 					return err
 				},
-- 
2.43.0


From 10856b655bb0fec9eb4c45fc839a6b6886561936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 18/23] fix: refuse nil metadata properties inside of metadata
 arrays

---
 format/io/writer.go         | 21 +++++++++++++++++----
 format/metadata/property.go |  5 +++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 08b725e..689a497 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -364,11 +364,24 @@ func checkForNilInterfaces(recording format.Recording) error {
 
 func checkBlockForNilProperties(block metadata.Block) error {
 	for key, val := range block.Mapping() {
-		if val == nil {
-			return fmt.Errorf("can not serialize recording with nil metadata property: %s", key)
+		if err := checkForNilProperty(key, val); err != nil {
+			return err
 		}
-		if nested, ok := val.(metadata.MetadataProperty); ok {
-			if err := checkBlockForNilProperties(nested.Block()); err != nil {
+	}
+	return nil
+}
+
+func checkForNilProperty(key string, property metadata.Property) error {
+	switch val := property.(type) {
+	case nil:
+		return fmt.Errorf("can not serialize recording with nil metadata property: %s", key)
+
+	case metadata.MetadataProperty:
+		return checkBlockForNilProperties(val.Block())
+
+	case metadata.ArrayProperty:
+		for _, element := range val.Properties() {
+			if err := checkForNilProperty(key, element); err != nil {
 				return err
 			}
 		}
diff --git a/format/metadata/property.go b/format/metadata/property.go
index 7844ad9..4553e79 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -603,6 +603,11 @@ func newArrayProperty(originalBaseCode byte, props []Property) ArrayProperty {
 	}
 }
 
+// Properties are the elements of the array
+func (ap ArrayProperty) Properties() []Property {
+	return ap.props
+}
+
 func (ap ArrayProperty) Code() byte {
 	return 13 + ap.originalBaseCode
 }
-- 
2.43.0


From 3f77fa6411d235c4ac3a1d1d701c78c82474f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 19/23] fix: print times outside of the years 1678 to 2262 as
 stored

Converting microseconds to nanoseconds overflows beyond these years, so
to-json printed a time centuries away from the stored one.
---
 format/metadata/property.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 4553e79..3cf841b 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -583,11 +583,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Unix(0, tp.microseconds*1000).Format(time.RFC3339Nano))
+	return json.Marshal(time.UnixMicro(tp.microseconds).Format(time.RFC3339Nano))
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-	return bson.MarshalValue(time.Unix(0, tp.microseconds*1000))
+	return bson.MarshalValue(time.UnixMicro(tp.microseconds))
 }
 
 // ARRAY =====================================================================
-- 
2.43.0


From 02f48c5c3e6ff82210acfb47728b32d694568a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 20/23] fix: accept whole numbers from a million on in JSON
 metadata

They were printed with an exponent on the way to an integer property,
which made from-json refuse the document.
---
 format/metadata/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index d17bee0..ed815f5 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -119,7 +120,8 @@ func getProperties(data interface{}) (Property, error) {
 	case float64:
 		if d == float64(int64(d)) {
 			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
+			// Without an exponent, which integers can not be parsed from
+			if err := json.Unmarshal([]byte(strconv.FormatFloat(d, 'f', -1, 64)), &p); err != nil {
 				return nil, err
 			}
 			return p, nil
-- 
2.43.0


From 33e1811ef9aca86455a2bb17ffa15ad8643a61ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 21/23] fix: keep codecs that share a signature apart while
 writing

Collections of sub-recordings were handed to every registered codec with
the signature of the codec that accepted them.
---
 format/io/writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 689a497..de81a30 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -47,6 +47,7 @@ func (e *errWriter) Close() error {
 
 type encoderCollectionMapping struct {
 	encoder         encoding.Encoder
+	encoderIndex    int
 	collections     []format.CaptureCollection
 	collectionOrder []int
 }
@@ -139,7 +140,7 @@ func (w Writer) evaluateCollections(recording format.Recording, offset int) ([]e
 
 	for i, encoder := range w.encoders {
 
-		mapping := encoderCollectionMapping{encoder: w.encoders[i]}
+		mapping := encoderCollectionMapping{encoder: w.encoders[i], encoderIndex: i}
 		for streamIndex, stream := range recording.CaptureCollections() {
 			if streamsSatisfied[streamIndex] == false && encoder.Accepts(stream) {
 				mapping.collections = append(mapping.collections, stream)
@@ -170,7 +171,7 @@ func (w Writer) evaluateCollections(recording format.Recording, offset int) ([]e
 		for _, childMap := range childMappings {
 			found := false
 			for i, ourMap := range mappings {
-				if ourMap.encoder.Signature() == childMap.encoder.Signature() {
+				if ourMap.encoderIndex == childMap.encoderIndex {
 					mappings[i].collections = append(ourMap.collections, childMap.collections...)
 					mappings[i].collectionOrder = append(ourMap.collectionOrder, childMap.collectionOrder...)
 					found = true
-- 
2.43.0


From 0c6722eeee082f31a00229b970383c250f91b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 22/23] fix: refuse recordings with nil captures instead of
 panicking half-way through a file

---
 format/io/writer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/format/io/writer.go b/format/io/writer.go
index de81a30..0853fbf 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -363,6 +363,24 @@ func checkForNilInterfaces(recording format.Recording) error {
 	return nil
 }
 
+func checkForNilCaptures(recording format.Recording) error {
+	for _, collection := range recording.CaptureCollections() {
+		for i := 0; i < collection.Length(); i++ {
+			if collection.CaptureAt(i) == nil {
+				return fmt.Errorf("can not serialize recording with nil captures in collection: %s", collection.Name())
+			}
+		}
+	}
+
+	for _, rec := range recording.Recordings() {
+		if err := checkForNilCaptures(rec); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func checkBlockForNilProperties(block metadata.Block) error {
 	for key, val := range block.Mapping() {
 		if err := checkForNilProperty(key, val); err != nil {
@@ -445,6 +463,11 @@ func (w Writer) Write(recording format.Recording) (int, error) {
 		return 0, err
 	}
 
+	err = checkForNilCaptures(recording)
+	if err != nil {
+		return 0, err
+	}
+
 	err = checkForNilProperties(recording)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 5d8b576c4a1a0bb019d6e34f7e663d8291cd2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 23/23] fix: report captures of a foreign type as errors of the
 position, euler and enum codecs

---
 format/encoding/enum/enum.go         | 5 ++++-
 format/encoding/euler/euler.go       | 7 ++++++-
 format/encoding/position/position.go | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index 8f2386c..66fe4a4 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -35,7 +35,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 	streamDataBuffers := make([]bytes.Buffer, len(streams))
 
 	for bufferIndex, stream := range streams {
-		enmstr := stream.(enum.Collection)
+		enmstr, ok := stream.(enum.Collection)
+		if !ok {
+			return nil, nil, errors.New("collection is not of type enum")
+		}
 
 		// Build mapping from enum member to index in header
 		indexMapping := make([]uint, len(enmstr.EnumMembers()))
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index b190d5c..069bf1d 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -2,6 +2,7 @@ package euler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -37,7 +38,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]euler.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(euler.Capture)
+		capture, ok := c.(euler.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type euler")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index 56a9d42..6343947 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -2,6 +2,7 @@ package position
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -41,7 +42,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]position.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(position.Capture)
+		capture, ok := c.(position.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type position")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
-- 
2.43.0

