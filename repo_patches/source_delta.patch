From 59a0d937696ffb3665e23e0d8bffa1e8cb8797fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 01/21] fix: report a failing destination while a binary is
 written

The writer panicked when the destination failed before or during the copy of
a binary, because the copy's error was ignored.
---
 format/io/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..c064785 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,7 +304,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
 			panic("Binary data written was larger than size in signature")
 		}
-- 
2.43.0


From e63f1cec4ec66495fbbe76e2caabcf89f3e2f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 02/21] fix: load from sources that return empty reads or data
 together with EOF

Single bytes were read with a bare Read call, which may return no bytes, or
the last byte together with io.EOF.
---
 format/io/load.go          | 2 +-
 format/io/reader.go        | 2 +-
 format/io/time.go          | 2 +-
 format/metadata/io.go      | 4 ++--
 internal/io/binary/util.go | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..de1dfad 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -196,7 +196,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/io/time.go b/format/io/time.go
index 0276415..53a3f5f 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -192,7 +192,7 @@ func decodeTime(in io.Reader) ([]float64, error) {
 	typeByte := []byte{0}
 
 	// Read Storage Technique
-	_, err := in.Read(typeByte)
+	_, err := io.ReadFull(in, typeByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..b892b48 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -80,7 +80,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -164,7 +164,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 
 func ReadProperty(b io.Reader) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
-- 
2.43.0


From 7c19d10e73fdb16cf94a33a1cf8c55e117067296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 03/21] fix: read version 1 files in pieces and without
 trusting their size

A source that delivered the file in several reads made the load fail, and the
stored size was allocated before any of the data had been read.
---
 internal/io/rapv1/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..867e53f 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,7 +22,7 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
 		return -1, bytesRead, err
 	}
@@ -151,7 +151,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
 		return nil, bytesRead, err
@@ -162,8 +162,8 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	}
 
 	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
+	compressedBytes, err := ioutil.ReadAll(io.LimitReader(file, compressedSize))
+	compressedBytesRead := len(compressedBytes)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
-- 
2.43.0


From 0190bbb16fdaca2080f153452a7445f101f66453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 04/21] fix: do not trust counts, sizes and indices of version
 2 files and report what cannot be read (C10, C11)

---
 format/io/reader.go          | 119 +++++++++++++++++++++++++++--------
 format/io/time.go            |  45 +++++++------
 format/metadata/io.go        |   7 ++-
 internal/io/binary/bytes.go  |  44 ++++++++++++-
 internal/io/binary/string.go |   9 ++-
 internal/io/binary/uint.go   |   6 +-
 6 files changed, 171 insertions(+), 59 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index de1dfad..7990124 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -78,6 +78,9 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata key index out of range: %d", key)
+		}
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -89,13 +92,22 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 
 func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders []encoding.Encoder, headers [][]byte) (format.Recording, int, error) {
 	// in := bytes.NewReader(recordingData)
-	er := binary.NewErrReader(inStream)
+	er, ok := inStream.(*binary.ErrReader)
+	if !ok {
+		er = binary.NewErrReader(inStream)
+	}
 
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording name
 	recordingName, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording metadata
 	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -105,61 +117,114 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num streams
 	numStreams, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+	allStreams := make([]format.CaptureCollection, 0, binary.LimitPreallocation(numStreams))
+	for i := uint64(0); i < numStreams; i++ {
+		encoderIndex, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		if encoderIndex >= uint64(len(encoders)) {
+			return nil, er.TotalRead(), fmt.Errorf("encoder index out of range: %d", encoderIndex)
+		}
 
-		streamName, _, _ := binary.ReadString(er)
+		streamName, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
-		allStreams[i] = stream
+		times, err := decodeTime(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		captureBody, _, err := binary.ReadBytesArray(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		stream, err := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		allStreams = append(allStreams, stream)
 	}
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binReferences := make([]format.BinaryReference, 0, binary.LimitPreallocation(numBinaryReferences))
 
-	for i := 0; i < int(numBinaryReferences); i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaryReferences; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		uri, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+		binReferences = append(binReferences, NewBinaryReference(name, uri, refSize, block))
 	}
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binaries := make([]format.Binary, 0, binary.LimitPreallocation(numBinaries))
 
-	for i := 0; i < int(numBinaries); i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaries; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+		allData, err := binary.ReadBytes(er, refSize)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binaries[i] = NewBinary(name, allData, block)
+		binaries = append(binaries, NewBinary(name, allData, block))
 	}
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	allChildRecordings := make([]format.Recording, 0, binary.LimitPreallocation(numRecordings))
+	for i := uint64(0); i < numRecordings; i++ {
 		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
 	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
diff --git a/format/io/time.go b/format/io/time.go
index 53a3f5f..2a93c8b 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -126,32 +126,38 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 	return out.Write(dataBuffer.Bytes())
 }
 
-func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime64(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0, rapbinary.LimitPreallocation(numCaptures))
+	for i := uint64(0); i < numCaptures; i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
-func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime32(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0, rapbinary.LimitPreallocation(numCaptures))
+	for i := uint64(0); i < numCaptures; i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
 }
 
-func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
+func decodeTimeBST16(in io.Reader, numCaptures uint64) ([]float64, error) {
 	if numCaptures == 0 {
 		return make([]float64, 0), nil
 	}
@@ -172,17 +178,20 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
+	captures := make([]float64, 1, rapbinary.LimitPreallocation(numCaptures))
 	captures[0] = float64(startTime)
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
-	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+	for i := uint64(1); i < numCaptures; i++ {
+		_, err := io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -206,13 +215,13 @@ func decodeTime(in io.Reader) ([]float64, error) {
 
 	switch encodingTechnique {
 	case Raw64:
-		return decodeTime64(in, int(numCaptures))
+		return decodeTime64(in, numCaptures)
 
 	case Raw32:
-		return decodeTime32(in, int(numCaptures))
+		return decodeTime32(in, numCaptures)
 
 	case BST16:
-		return decodeTimeBST16(in, int(numCaptures))
+		return decodeTimeBST16(in, numCaptures)
 	}
 
 	return nil, fmt.Errorf("unrecognized time encoding: %d", encodingTechnique)
diff --git a/format/metadata/io.go b/format/metadata/io.go
index b892b48..a6f8f14 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -150,12 +150,13 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0, rapbin.LimitPreallocation(len))
+		for i := uint64(0); i < len; i++ {
+			prop, err := readPropData(b, adjustedType)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..d1afa4d 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -18,6 +18,45 @@ func BytesArrayToBytes(b []byte) []byte {
 	return buf.Bytes()
 }
 
+// preallocationLimit bounds how many elements are set aside for a length or
+// count found in a stream before the data it announces has been read.
+const preallocationLimit = 256
+
+// LimitPreallocation returns how many elements to allocate up front for a count
+// found in a stream.
+func LimitPreallocation(count uint64) int {
+	if count > preallocationLimit {
+		return preallocationLimit
+	}
+	return int(count)
+}
+
+// readBytes reads exactly length bytes.
+func readBytes(r io.Reader, length uint64) ([]byte, int, error) {
+	out := make([]byte, LimitPreallocation(length))
+	total, err := io.ReadFull(r, out)
+	for err == nil && uint64(total) < length {
+		// grow only as fast as data arrives
+		step := uint64(total)
+		if length-step < step {
+			step = length - step
+		}
+		out = append(out, make([]byte, step)...)
+
+		var read int
+		read, err = io.ReadFull(r, out[total:])
+		total += read
+	}
+	return out[:total], total, err
+}
+
+// ReadBytes reads exactly length bytes, without allocating more memory than
+// what is warranted by the bytes available.
+func ReadBytes(r io.Reader, length uint64) ([]byte, error) {
+	out, _, err := readBytes(r, length)
+	return out, err
+}
+
 // ReadBytesArray first reads the length of the byte array, then reads in a
 // buffer of that length
 func ReadBytesArray(r io.Reader) ([]byte, int, error) {
@@ -26,13 +65,12 @@ func ReadBytesArray(r io.Reader) ([]byte, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
+	out, read, err := readBytes(r, len)
 	if err != nil && err != io.EOF {
 		return nil, read + bytesRead, err
 	}
 
-	if read != int(len) {
+	if uint64(read) != len {
 		return nil, read + bytesRead, io.ErrUnexpectedEOF
 	}
 
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..5be31ef 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -21,8 +21,7 @@ func ReadString(r io.Reader) (string, int, error) {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, moreBytes, err := readBytes(r, len)
 	if err != nil {
 		return "", bytesRead + moreBytes, err
 	}
@@ -49,14 +48,14 @@ func ReadStringArray(r io.Reader) ([]string, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0, LimitPreallocation(len))
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..96e779f 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -26,14 +26,14 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0, LimitPreallocation(len))
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
-- 
2.43.0


From 44cef623e160111072d3a99409f194344a5b8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 05/21] fix: report stream data that is too short or refers to
 what does not exist (C10, C11)

---
 format/encoding/enum/enum.go      | 14 ++++++++++++--
 format/encoding/euler/raw16.go    | 10 ++++++++++
 format/encoding/euler/raw32.go    |  5 +++++
 format/encoding/euler/raw64.go    |  5 +++++
 format/encoding/event/event.go    | 10 ++++++++++
 format/encoding/float/float.go    | 10 +++++++++-
 format/encoding/position/oct24.go | 10 ++++++++++
 format/encoding/position/oct48.go | 10 ++++++++++
 format/encoding/position/raw32.go |  5 +++++
 format/encoding/position/raw64.go |  5 +++++
 10 files changed, 81 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..87d3951 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -86,16 +87,25 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum member index out of range: %d", indeces)
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
 	captures := make([]enum.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		value, _ := binary.ReadUvarint(reader)
+		value, err := binary.ReadUvarint(reader)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index c7a858e..0eaa4d8 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -44,6 +45,15 @@ func encodeRaw16(captures []euler.Capture) []byte {
 func decodeRaw16(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
 	// streamData := bytes.NewReader(captureData)
 
+	// a lone capture is stored as 32 bit values
+	captureSize := 6
+	if len(times) == 1 {
+		captureSize = 12
+	}
+	if streamData.Len()/captureSize < len(times) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	if len(times) == 1 {
 		var posX float32
 		var posY float32
diff --git a/format/encoding/euler/raw32.go b/format/encoding/euler/raw32.go
index 63c8c4b..b2b6f26 100644
--- a/format/encoding/euler/raw32.go
+++ b/format/encoding/euler/raw32.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/euler"
 )
@@ -18,6 +19,10 @@ func encodeRaw32(captures []euler.Capture) []byte {
 }
 
 func decodeRaw32(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
+	if streamData.Len()/12 < len(times) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	var x float32
 	var y float32
 	var z float32
diff --git a/format/encoding/euler/raw64.go b/format/encoding/euler/raw64.go
index 6383468..ac78998 100644
--- a/format/encoding/euler/raw64.go
+++ b/format/encoding/euler/raw64.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -25,6 +26,10 @@ func encodeRaw64(captures []euler.Capture) []byte {
 }
 
 func decodeRaw64(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
+	if streamData.Len()/30 < len(times) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	// streamData := bytes.NewReader(captureData)
 
 	captures := make([]euler.Capture, len(times))
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..52e659e 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -111,6 +115,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 		if err != nil {
 			return nil, err
 		}
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event name index out of range: %d", eventNameIndex)
+		}
 
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
@@ -119,6 +126,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event metadata key index out of range: %d", metadataIndeces[metadataIndex])
+			}
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index f640343..575e8b9 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 
@@ -199,7 +200,14 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 	case BST16:
 		captures = decodeBST16(errReader, times)
 		break
+
+	default:
+		return nil, fmt.Errorf("unknown float encoding technique: %d", int(encodingTechnique))
+	}
+
+	if errReader.Error() != nil {
+		return nil, errReader.Error()
 	}
 
-	return float.NewCollection(name, captures), errReader.Error()
+	return float.NewCollection(name, captures), nil
 }
diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index 3f785cb..e1798aa 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -142,6 +143,15 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		return make([]position.Capture, 0), nil
 	}
 
+	// bounds and starting position, or just the position of a lone capture
+	headSize := 36
+	if len(times) == 1 {
+		headSize = 12
+	}
+	if collectionData.Len() < headSize || (collectionData.Len()-headSize)/3 < len(times)-1 {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	if len(times) == 1 {
 		var posX float32
 		var posY float32
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index 63b6cff..278a0da 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -173,6 +174,15 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		return make([]position.Capture, 0), nil
 	}
 
+	// bounds and starting position, or just the position of a lone capture
+	headSize := 36
+	if len(times) == 1 {
+		headSize = 12
+	}
+	if collectionData.Len() < headSize || (collectionData.Len()-headSize)/6 < len(times)-1 {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	if len(times) == 1 {
 		var posX float32
 		var posY float32
diff --git a/format/encoding/position/raw32.go b/format/encoding/position/raw32.go
index 366d86b..51baddf 100644
--- a/format/encoding/position/raw32.go
+++ b/format/encoding/position/raw32.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/position"
 )
@@ -20,6 +21,10 @@ func encodeRaw32(captures []position.Capture) []byte {
 }
 
 func decodeRaw32(streamData *bytes.Reader, times []float64) ([]position.Capture, error) {
+	if streamData.Len()/12 < len(times) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	captures := make([]position.Capture, len(times))
 	for i := 0; i < len(times); i++ {
 		var x float32
diff --git a/format/encoding/position/raw64.go b/format/encoding/position/raw64.go
index 4bf1e67..a188288 100644
--- a/format/encoding/position/raw64.go
+++ b/format/encoding/position/raw64.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/position"
@@ -25,6 +26,10 @@ func encodeRaw64(captures []position.Capture) []byte {
 }
 
 func decodeRaw64(streamData *bytes.Reader, times []float64) ([]position.Capture, error) {
+	if streamData.Len()/24 < len(times) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	captures := make([]position.Capture, len(times))
 	buf := make([]byte, 8)
 	for i := 0; i < int(len(times)); i++ {
-- 
2.43.0


From 1ea98fea843bc53f1f8b3d8c15cc547713e4b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 06/21] fix: refuse files nested so deeply that reading them
 exhausts the stack (C10)

---
 format/io/reader.go   | 14 +++++++++++---
 format/metadata/io.go | 24 ++++++++++++++++++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index 7990124..c5e31bc 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"compress/flate"
+	"errors"
 	"fmt"
 	"io"
 
@@ -90,13 +91,20 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	return metadata.NewBlock(propMapping), nil
 }
 
-func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders []encoding.Encoder, headers [][]byte) (format.Recording, int, error) {
+// maxNesting is how deep recordings can be nested in one another when read
+const maxNesting = 10000
+
+func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders []encoding.Encoder, headers [][]byte, depth int) (format.Recording, int, error) {
 	// in := bytes.NewReader(recordingData)
 	er, ok := inStream.(*binary.ErrReader)
 	if !ok {
 		er = binary.NewErrReader(inStream)
 	}
 
+	if depth > maxNesting {
+		return nil, er.TotalRead(), errors.New("recordings are nested too deeply")
+	}
+
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
 	if err != nil {
@@ -220,7 +228,7 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 	}
 	allChildRecordings := make([]format.Recording, 0, binary.LimitPreallocation(numRecordings))
 	for i := uint64(0); i < numRecordings; i++ {
-		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
+		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers, depth+1)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
@@ -290,7 +298,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	// Read off recordings
-	rec, bytesRead, err := recursiveBuidRecordings(readcloser, metdataKeys, encodersToUse, encoderHeaders)
+	rec, bytesRead, err := recursiveBuidRecordings(readcloser, metdataKeys, encodersToUse, encoderHeaders, 0)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/metadata/io.go b/format/metadata/io.go
index a6f8f14..62f43d0 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -2,6 +2,7 @@ package metadata
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"time"
@@ -31,7 +32,14 @@ func readFloat64s(r io.Reader, count int) ([]float64, error) {
 	return outValues, nil
 }
 
-func readNestedMetadatablock(b io.Reader) (Block, error) {
+// maxNesting is how deep values can be nested in one another when read
+const maxNesting = 10000
+
+func readNestedMetadatablock(b io.Reader, depth int) (Block, error) {
+	if depth > maxNesting {
+		return EmptyBlock(), errors.New("metadata is nested too deeply")
+	}
+
 	metadataKeys, _, err := rapbin.ReadStringArray(b)
 	if err != nil {
 		return EmptyBlock(), err
@@ -40,7 +48,7 @@ func readNestedMetadatablock(b io.Reader) (Block, error) {
 	metadata := make(map[string]Property)
 
 	for _, key := range metadataKeys {
-		metadata[key], err = ReadProperty(b)
+		metadata[key], err = readProperty(b, depth)
 		if err != nil {
 			return EmptyBlock(), err
 		}
@@ -49,7 +57,7 @@ func readNestedMetadatablock(b io.Reader) (Block, error) {
 	return NewBlock(metadata), nil
 }
 
-func readPropData(b io.Reader, propertyType byte) (Property, error) {
+func readPropData(b io.Reader, propertyType byte, depth int) (Property, error) {
 	switch propertyType {
 	case 0:
 		str, _, err := rapbin.ReadString(b)
@@ -100,7 +108,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		}
 		return NewVector3Property(vals[0], vals[1], vals[2]), nil
 	case 11:
-		metadataBlock, err := readNestedMetadatablock(b)
+		metadataBlock, err := readNestedMetadatablock(b, depth+1)
 		if err != nil {
 			return nil, err
 		}
@@ -152,7 +160,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		adjustedType := propertyType - 13
 		props := make([]Property, 0, rapbin.LimitPreallocation(len))
 		for i := uint64(0); i < len; i++ {
-			prop, err := readPropData(b, adjustedType)
+			prop, err := readPropData(b, adjustedType, depth)
 			if err != nil {
 				return nil, err
 			}
@@ -164,10 +172,14 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 }
 
 func ReadProperty(b io.Reader) (Property, error) {
+	return readProperty(b, 0)
+}
+
+func readProperty(b io.Reader, depth int) (Property, error) {
 	propByte := make([]byte, 1)
 	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
-	return readPropData(b, propByte[0])
+	return readPropData(b, propByte[0], depth)
 }
-- 
2.43.0


From 4c8165fa4cbe4c25a65a323ea047a2a190fb07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 07/21] fix: a recording without captures has no duration (C20)

---
 format/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/util.go b/format/util.go
index d71d16b..5001ddc 100644
--- a/format/util.go
+++ b/format/util.go
@@ -49,5 +49,9 @@ func RecordingEnd(rec Recording) float64 {
 func RecordingDuration(rec Recording) float64 {
 	min := RecordingStart(rec)
 	max := RecordingEnd(rec)
+	if math.IsInf(min, 1) && math.IsInf(max, -1) {
+		// nothing has been captured
+		return 0
+	}
 	return max - min
 }
-- 
2.43.0


From 998ae98ffa5bbe4715f5c7e87e2cc54d5a9ca26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 08/21] fix: metadata survives conversion to JSON and back or
 is refused (C23)

---
 format/metadata/property.go |   9 ++-
 format/metadata/utils.go    | 130 ++++++++++++++++++++++++++----------
 2 files changed, 102 insertions(+), 37 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..b4a2f21 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -281,6 +281,9 @@ func (bp *ByteProperty) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(b) == 0 {
+		return errors.New("byte property requires a value")
+	}
 	bp.b = b[0]
 	return nil
 }
@@ -517,7 +520,7 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	prop, err := getBlock(data)
 	if err != nil {
 		return err
 	}
@@ -587,11 +590,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Unix(0, tp.microseconds*1000).Format(time.RFC3339Nano))
+	return json.Marshal(time.UnixMicro(tp.microseconds).Format(time.RFC3339Nano))
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-	return bson.MarshalValue(time.Unix(0, tp.microseconds*1000))
+	return bson.MarshalValue(time.UnixMicro(tp.microseconds))
 }
 
 // ARRAY =====================================================================
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..b1e6071 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -3,7 +3,9 @@ package metadata
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
@@ -11,29 +13,27 @@ import (
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
-		x, foundX := d["x"]
-		y, foundY := d["y"]
-		z, foundZ := d["z"]
+		x, foundX := d["x"].(float64)
+		y, foundY := d["y"].(float64)
+		z, foundZ := d["z"].(float64)
 		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+			return NewVector2Property(x, y), nil
 		}
 		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+			return NewVector3Property(x, y, z), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
-		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return getBlock(d)
 	case []interface{}:
+		if len(d) == 0 {
+			return NewStringArrayProperty(nil), nil
+		}
 		if _, ok := d[0].(bool); ok {
 			bools := make([]bool, 0, len(d))
 			for _, item := range d {
-				b, _ := item.(bool)
+				b, isBool := item.(bool)
+				if !isBool {
+					return nil, errMixedArray
+				}
 				bools = append(bools, b)
 			}
 			return NewBoolArrayProperty(bools), nil
@@ -46,20 +46,18 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			props = append(props, propItem)
 		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return getArray(d, props)
 	case string:
-		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
+		b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
+		isHex := strings.HasPrefix(d, HEX_PREFIX) && err == nil
+		if isHex && len(d) == 4 {
 			var p ByteProperty
 			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
 				return nil, err
 			}
 			return p, nil
 		}
-		if strings.HasPrefix(d, HEX_PREFIX) {
-			b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
-			if err != nil {
-				return nil, err
-			}
+		if isHex {
 			return NewBinaryArrayProperty(b), nil
 		}
 		if _, err := time.Parse(time.RFC3339Nano, d); err == nil {
@@ -69,18 +67,10 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			return p, nil
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
+		return NewStringProperty(d), nil
 	case float64:
-		if d == float64(int64(d)) {
-			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-				return nil, err
-			}
-			return p, nil
+		if d >= math.MinInt32 && d <= math.MaxInt32 && d == float64(int64(d)) {
+			return NewIntProperty(int(d)), nil
 		}
 		var p Float32Property
 		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
@@ -94,5 +84,77 @@ func getProperties(data interface{}) (Property, error) {
 		}
 		return p, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("metadata can not hold %v", data)
+}
+
+func getBlock(d map[string]interface{}) (Property, error) {
+	nestedProps := make(map[string]Property)
+	for key, val := range d {
+		np, err := getProperties(val)
+		if err != nil {
+			return nil, err
+		}
+		nestedProps[key] = np
+	}
+	return NewMetadataProperty(NewBlock(nestedProps)), nil
+}
+
+var errMixedArray = errors.New("metadata array items must be of the same kind")
+
+// getArray makes an array of items, whose properties are given. Items of a
+// JSON kind that can become different properties become the one all can be.
+func getArray(items []interface{}, props []Property) (Property, error) {
+	uniform := true
+	for _, prop := range props {
+		uniform = uniform && prop.Code() == props[0].Code()
+	}
+
+	switch items[0].(type) {
+	case string:
+		_, isText := props[0].(StringProperty)
+		_, isByte := props[0].(ByteProperty)
+		_, isTime := props[0].(TimeProperty)
+		if uniform && (isText || isByte || isTime) {
+			break
+		}
+		for i, item := range items {
+			text, ok := item.(string)
+			if !ok {
+				return nil, errMixedArray
+			}
+			props[i] = NewStringProperty(text)
+		}
+
+	case float64:
+		if uniform {
+			break
+		}
+		for i, item := range items {
+			number, ok := item.(float64)
+			if !ok {
+				return nil, errMixedArray
+			}
+			props[i] = NewFloat32Property(float32(number))
+		}
+
+	case map[string]interface{}:
+		if uniform {
+			break
+		}
+		for i, item := range items {
+			object, ok := item.(map[string]interface{})
+			if !ok {
+				return nil, errMixedArray
+			}
+			block, err := getBlock(object)
+			if err != nil {
+				return nil, err
+			}
+			props[i] = block
+		}
+
+	default:
+		return nil, errors.New("metadata can not hold an array of arrays")
+	}
+	return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
 }
-- 
2.43.0


From 79f64c11a8a2939fa2308cc4270b6aeb3d17c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 09/21] fix: a metadata block that was never filled is an empty
 JSON object (C23)

---
 format/metadata/property.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index b4a2f21..ba228b2 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -533,6 +533,9 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (mp MetadataProperty) MarshalJSON() ([]byte, error) {
+	if mp.block.Mapping() == nil {
+		return json.Marshal(EmptyBlock().Mapping())
+	}
 	return json.Marshal(mp.block.Mapping())
 }
 
-- 
2.43.0


From 40cf352b0607447d2f9acc1fde4cd938c2649bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 10/21] fix: JSON import keeps enum values and reports metadata
 it cannot hold (C21)

---
 format/parsing/json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..1edcb79 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,10 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	err = resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err != nil {
+		return metadata.EmptyBlock(), err
+	}
 
 	return resultingMetadata.Block(), nil
 }
@@ -275,6 +278,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 		if val, ok := allEnumEntriesMapping[enumEntry]; ok {
 			enumIndex = val
 		} else {
+			allEnumEntriesMapping[enumEntry] = enumIndex
 			allEnumEntries = append(allEnumEntries, enumEntry)
 		}
 
-- 
2.43.0


From ea0c70cceed43f510b43f32320f16ac027b71710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 11/21] fix: to-json escapes texts and reports what it cannot
 print (C22)

---
 cmd/rap-cli/json.go | 48 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..eb94808 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/recolude/rap/format"
@@ -10,7 +12,31 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
-func toJson(out io.Writer, recording format.Recording, depth int) error {
+// errWriter remembers the first error of the writer it wraps
+type errWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.out.Write(p)
+	return n, w.err
+}
+
+// jsonString quotes and escapes a string for use in JSON
+func jsonString(str string) string {
+	// strings can always be marshalled
+	data, _ := json.Marshal(str)
+	return string(data)
+}
+
+func toJson(writer io.Writer, recording format.Recording, depth int) error {
+	out := &errWriter{out: writer}
+
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
 		indentationBuilder.WriteString("\t")
@@ -21,10 +47,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonString(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonString(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -42,8 +68,8 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonString(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonString(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -57,9 +83,13 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 						return err
 					}
 
+					if math.IsNaN(event.Time()) || math.IsInf(event.Time(), 0) {
+						return fmt.Errorf("json can not hold the time %f", event.Time())
+					}
+
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonString(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
@@ -96,7 +126,9 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			if err := toJson(out, rec, depth+2); err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
@@ -111,5 +143,5 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	}
 
 	fmt.Fprintf(out, "%s}", indentation)
-	return nil
+	return out.err
 }
-- 
2.43.0


From 518e98ff29a9a0bb1f0d4a7e1af611ab44208a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 12/21] fix: from-csv refuses tables without the columns it
 needs and keeps the order of its subjects (C24)

---
 cmd/rap-cli/csv.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..50e21d4 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -56,7 +57,12 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	if nameIndex == -1 || idIndex == -1 || timeIndex == -1 || posXIndex == -1 || posYIndex == -1 || posZIndex == -1 {
+		return nil, errors.New("csv requires the columns id, name, time, x, y and z")
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
+	subjects := make([][2]string, 0)
 
 	for {
 		row, err := csvReader.Read()
@@ -95,27 +101,30 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 			workingData[id] = make(map[string][]position.Capture)
 		}
 
+		if _, ok := workingData[id][name]; !ok {
+			subjects = append(subjects, [2]string{id, name})
+		}
+
 		workingData[id][name] = append(workingData[id][name], position.NewCapture(time, x, y, z))
 	}
 
 	allRecordings := make([]format.Recording, 0)
-	for id, mappings := range workingData {
-		for name, captures := range mappings {
-			allRecordings = append(
-				allRecordings,
-				format.NewRecording(
-					id,
-					name,
-					[]format.CaptureCollection{
-						position.NewCollection("Position", captures),
-					},
-					nil,
-					metadata.EmptyBlock(),
-					nil,
-					nil,
-				),
-			)
-		}
+	for _, subject := range subjects {
+		id, name := subject[0], subject[1]
+		allRecordings = append(
+			allRecordings,
+			format.NewRecording(
+				id,
+				name,
+				[]format.CaptureCollection{
+					position.NewCollection("Position", workingData[id][name]),
+				},
+				nil,
+				metadata.EmptyBlock(),
+				nil,
+				nil,
+			),
+		)
 	}
 
 	return format.NewRecording("", "", nil, allRecordings, metadata.EmptyBlock(), nil, nil), nil
-- 
2.43.0


From 3f639ef2a1fcbafaa4e973463f28045d97bee909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 13/21] fix: quantized positions and times do not drift at the
 ends of their range (C02, C03)

---
 format/encoding/position/oct.go   | 23 +++++++++++++++++++++++
 format/encoding/position/oct24.go |  2 ++
 format/encoding/position/oct48.go |  2 ++
 format/io/time.go                 |  9 +++++++++
 internal/io/binary/util.go        | 15 +++++++++++++++
 5 files changed, 51 insertions(+)

diff --git a/format/encoding/position/oct.go b/format/encoding/position/oct.go
index 1417074..393d854 100644
--- a/format/encoding/position/oct.go
+++ b/format/encoding/position/oct.go
@@ -1,7 +1,10 @@
 package position
 
 import (
+	"math"
+
 	"github.com/EliCDavis/vector/vector3"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 type OctCell int
@@ -18,6 +21,26 @@ const (
 	BottomLeftBackward
 )
 
+// octBounds is the range a stream's changes in position are quantized in: what
+// a reader finds in the file, with room for two more cells on both ends, so
+// that any change can make up for the rounding of the ones before it.
+func octBounds(min, max vector3.Float64, numCells int) (vector3.Float64, vector3.Float64) {
+	minX, maxX := axisBounds(min.X(), max.X(), numCells)
+	minY, maxY := axisBounds(min.Y(), max.Y(), numCells)
+	minZ, maxZ := axisBounds(min.Z(), max.Z(), numCells)
+	return vector3.New[float64](minX, minY, minZ), vector3.New[float64](maxX, maxY, maxZ)
+}
+
+func axisBounds(min, max float64, numCells int) (float64, float64) {
+	min, max = rapbinary.Float32Below(min), rapbinary.Float32Above(max)
+	margin := math.Ldexp(max-min, 1-numCells)
+	low, high := rapbinary.Float32Below(min-margin), rapbinary.Float32Above(max+margin)
+	if math.IsInf(low, 0) || math.IsInf(high, 0) {
+		return min, max
+	}
+	return low, high
+}
+
 func Vec3ToOctCells(v, min, max vector3.Float64, cells []OctCell) {
 	center := min.Add(max).DivByConstant(2.0)
 	crossSection := max.Sub(min)
diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index e1798aa..b85f1a5 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -102,6 +102,8 @@ func encodeOct24(captures []position.Capture) ([]byte, error) {
 		}
 	}
 
+	min, max = octBounds(min, max, 8)
+
 	// Write min and max positions
 	binary.Write(collectionData, binary.LittleEndian, float32(min.X()))
 	binary.Write(collectionData, binary.LittleEndian, float32(min.Y()))
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index 278a0da..8ee6cf1 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -133,6 +133,8 @@ func encodeOct48(captures []position.Capture) ([]byte, error) {
 		}
 	}
 
+	min, max = octBounds(min, max, 16)
+
 	// Write min and max positions
 	binary.Write(collectionData, binary.LittleEndian, float32(min.X()))
 	binary.Write(collectionData, binary.LittleEndian, float32(min.Y()))
diff --git a/format/io/time.go b/format/io/time.go
index 2a93c8b..aa3c43a 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -74,6 +74,15 @@ func encodeTimeBST16(out io.Writer, captures []format.Capture) error {
 	if len(captures) == 1 {
 		return nil
 	}
+
+	// Leave room for two more cells, so that the largest differences can make up
+	// for the rounding of the ones before it, and use what a reader will find.
+	if len(captures) > 2 && maxTimeDifference > 0 {
+		widened := rapbinary.Float32Above(rapbinary.Float32Above(maxTimeDifference) * (1 + 2.0/65536))
+		if !math.IsInf(widened, 0) {
+			maxTimeDifference = widened
+		}
+	}
 	binary.Write(out, binary.LittleEndian, float32(maxTimeDifference))
 
 	totalledQuantizedDuration := startingTime
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index b278285..6f7fea7 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 var overflow = errors.New("binary: varint overflows a 64-bit integer")
@@ -35,6 +36,20 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	return x, totalRead, overflow
 }
 
+// Float32Below finds the largest 32 bit float that does not exceed the value.
+func Float32Below(value float64) float64 {
+	rounded := float32(value)
+	if float64(rounded) > value {
+		rounded = math.Nextafter32(rounded, float32(math.Inf(-1)))
+	}
+	return float64(rounded)
+}
+
+// Float32Above finds the smallest 32 bit float that is not below the value.
+func Float32Above(value float64) float64 {
+	return -Float32Below(-value)
+}
+
 func UnsignedFloatBSTToBytes(value, start, duration float64, out []byte) {
 	curValue := start + (duration / 2.0)
 	increment := duration / 4.0
-- 
2.43.0


From cbcac748f67ba387fe438f1bc03c3a487f41a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 14/21] fix: summarize reports a failing output (C25)

---
 cmd/rap-cli/main.go      | 3 +--
 cmd/rap-cli/summarize.go | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index 6d3134b..d1e4c2c 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -68,8 +68,7 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return err
 					}
 
-					printSummary(c.App.Writer, recording, size)
-					return nil
+					return printSummary(c.App.Writer, recording, size)
 				},
 			},
 			{
diff --git a/cmd/rap-cli/summarize.go b/cmd/rap-cli/summarize.go
index cb3985c..e8280ef 100644
--- a/cmd/rap-cli/summarize.go
+++ b/cmd/rap-cli/summarize.go
@@ -67,7 +67,9 @@ func printSize(size int64) string {
 	return fmt.Sprintf("%.2fmb", editedSize)
 }
 
-func printSummary(out io.Writer, recording format.Recording, size int64) {
+func printSummary(writer io.Writer, recording format.Recording, size int64) error {
+	out := &errWriter{out: writer}
+
 	displayName := recording.Name()
 	if displayName == "" {
 		displayName = "[No Name]"
@@ -84,4 +86,5 @@ func printSummary(out io.Writer, recording format.Recording, size int64) {
 	fmt.Fprintf(out, "Total Event Captures:    %d\n", recSummary.eventCaptureCount)
 	fmt.Fprintf(out, "Total Enum Captures:     %d\n", recSummary.enumCaptureCount)
 	fmt.Fprintf(out, "Total Other Captures:    %d\n", recSummary.otherCaptureCount)
+	return out.err
 }
-- 
2.43.0


From 2093ba3f7d575745157dc8c812e4fc54c0d74647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 15/21] fix: encoders refuse captures of another type instead
 of panicking

---
 format/encoding/enum/enum.go         | 5 ++++-
 format/encoding/euler/euler.go       | 7 ++++++-
 format/encoding/position/position.go | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index 87d3951..663ebb1 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -35,7 +35,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 	streamDataBuffers := make([]bytes.Buffer, len(streams))
 
 	for bufferIndex, stream := range streams {
-		enmstr := stream.(enum.Collection)
+		enmstr, ok := stream.(enum.Collection)
+		if !ok {
+			return nil, nil, errors.New("collection is not of type enum")
+		}
 
 		// Build mapping from enum member to index in header
 		indexMapping := make([]uint, len(enmstr.EnumMembers()))
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 797761b..9ccf28b 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -2,6 +2,7 @@ package euler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -37,7 +38,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]euler.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(euler.Capture)
+		capture, ok := c.(euler.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type euler")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index a091998..076b9ca 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -2,6 +2,7 @@ package position
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -41,7 +42,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]position.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(position.Capture)
+		capture, ok := c.(position.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type position")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
-- 
2.43.0


From eab1b3a5e82fd128876ff490a8bd697f2b468bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 16/21] fix: encode collections before the first byte is
 written

---
 format/io/writer.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index c064785..1a7c147 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -375,6 +375,26 @@ func (w Writer) Write(recording format.Recording) (int, error) {
 		return 0, err
 	}
 
+	// Encode everything before the first byte is written, so that nothing ends
+	// up in the stream when an encoder fails
+	numStreams := calcNumStreams(recording)
+	encodingBlocks := make([][]byte, numStreams)
+	streamIndexToEncoderUsedIndex := make([]int, numStreams)
+	encoderHeaders := make([][]byte, len(encoderMappings))
+
+	for encoderIndex, val := range encoderMappings {
+		header, streamsEncoded, err := val.encoder.Encode(val.collections)
+		if err != nil {
+			return 0, err
+		}
+
+		for i, order := range val.collectionOrder {
+			encodingBlocks[order] = streamsEncoded[i]
+			streamIndexToEncoderUsedIndex[order] = encoderIndex
+		}
+		encoderHeaders[encoderIndex] = header
+	}
+
 	totalBytesWritten := 0
 
 	// Write version number
@@ -412,22 +432,8 @@ func (w Writer) Write(recording format.Recording) (int, error) {
 		compressWriter = &errWriter{Writer: w.out}
 	}
 
-	numStreams := calcNumStreams(recording)
-	encodingBlocks := make([][]byte, numStreams)
-	streamIndexToEncoderUsedIndex := make([]int, numStreams)
-
-	for encoderIndex, val := range encoderMappings {
-		header, streamsEncoded, err := val.encoder.Encode(val.collections)
-		if err != nil {
-			return totalBytesWritten, err
-		}
-
-		for i, order := range val.collectionOrder {
-			encodingBlocks[order] = streamsEncoded[i]
-			streamIndexToEncoderUsedIndex[order] = encoderIndex
-		}
-
-		// Write header
+	// Write encoder headers
+	for _, header := range encoderHeaders {
 		written, err = compressWriter.Write(rapbinary.BytesArrayToBytes(header))
 		totalBytesWritten += written
 		if err != nil {
-- 
2.43.0


From a975f19df1c115da13ce719b5b50d6bb4707fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 17/21] fix: return an error when a binary's data does not
 match its size

---
 format/io/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 1a7c147..511fee9 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -309,7 +309,7 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 			return ew.TotalWritten(), -1, err
 		}
 		if actualbinaryWritten != int64(bin.Size()) {
-			panic("Binary data written was larger than size in signature")
+			return ew.TotalWritten(), -1, errors.New("binary data written does not match its size")
 		}
 	}
 
-- 
2.43.0


From 9ad6cd4e7cbdbd0eecfece3e7a969aba4a3875b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 18/21] fix: an outdated encoder does not hide one that can
 read the file (C05)

---
 format/io/reader.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index c5e31bc..235684d 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -47,21 +47,25 @@ func (r Reader) readEncoders() ([]encoding.Encoder, int, error) {
 	encoders := make([]encoding.Encoder, len(encoderSignatures))
 	for i, desiredEncoderSignature := range encoderSignatures {
 		found := false
+		var outdated encoding.Encoder
 		for _, registeredEncoder := range r.encoders {
 			if registeredEncoder.Signature() == desiredEncoderSignature {
 				if registeredEncoder.Version() >= uint(encoderVersions[i]) {
 					encoders[i] = registeredEncoder
 					found = true
 				} else {
-					return nil, totalBytesRead, fmt.Errorf(
-						"registered encoder (%s) version is behind what is found in recording: %d < %d",
-						desiredEncoderSignature,
-						registeredEncoder.Version(),
-						encoderVersions[i],
-					)
+					outdated = registeredEncoder
 				}
 			}
 		}
+		if found == false && outdated != nil {
+			return nil, totalBytesRead, fmt.Errorf(
+				"registered encoder (%s) version is behind what is found in recording: %d < %d",
+				desiredEncoderSignature,
+				outdated.Version(),
+				encoderVersions[i],
+			)
+		}
 		if found == false {
 			return nil, totalBytesRead, fmt.Errorf("no registered encoder has signature %s", desiredEncoderSignature)
 		}
-- 
2.43.0


From 04ca6ce7fc1d75119b6078c1b46211dd5961e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 19/21] fix: encoders of one signature keep their own
 collections (C05)

---
 format/io/writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 511fee9..a091402 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -46,6 +46,7 @@ func (e *errWriter) Close() error {
 
 type encoderCollectionMapping struct {
 	encoder         encoding.Encoder
+	encoderIndex    int
 	collections     []format.CaptureCollection
 	collectionOrder []int
 }
@@ -138,7 +139,7 @@ func (w Writer) evaluateCollections(recording format.Recording, offset int) ([]e
 
 	for i, encoder := range w.encoders {
 
-		mapping := encoderCollectionMapping{encoder: w.encoders[i]}
+		mapping := encoderCollectionMapping{encoder: w.encoders[i], encoderIndex: i}
 		for streamIndex, stream := range recording.CaptureCollections() {
 			if streamsSatisfied[streamIndex] == false && encoder.Accepts(stream) {
 				mapping.collections = append(mapping.collections, stream)
@@ -169,7 +170,7 @@ func (w Writer) evaluateCollections(recording format.Recording, offset int) ([]e
 		for _, childMap := range childMappings {
 			found := false
 			for i, ourMap := range mappings {
-				if ourMap.encoder.Signature() == childMap.encoder.Signature() {
+				if ourMap.encoderIndex == childMap.encoderIndex {
 					mappings[i].collections = append(ourMap.collections, childMap.collections...)
 					mappings[i].collectionOrder = append(ourMap.collectionOrder, childMap.collectionOrder...)
 					found = true
-- 
2.43.0


From 7a59ac2716a964727f4866614cc1f9361dc4742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 20/21] fix: wrap large angles exactly before storing them in
 16 bits

---
 format/encoding/euler/raw16.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index 0eaa4d8..40c1b10 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -11,7 +11,11 @@ import (
 )
 
 func wrapEulerAngle(angle float64) float64 {
-	return angle - (360 * math.Floor(angle/360))
+	wrapped := math.Mod(angle, 360)
+	if wrapped < 0 {
+		wrapped += 360
+	}
+	return wrapped
 }
 
 func encodeRaw16(captures []euler.Capture) []byte {
-- 
2.43.0


From da745ad7cb61a1dc51e429edcbdb05f551bece13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 21/21] fix: a binary without a reader for its data is a write
 error, not a panic

---
 format/io/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index a091402..255c113 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -305,7 +305,12 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		data := bin.Data()
+		if data == nil {
+			return ew.TotalWritten(), -1, errors.New("can not serialize binary without data")
+		}
+
+		actualbinaryWritten, err := io.Copy(ew, data)
 		if err != nil {
 			return ew.TotalWritten(), -1, err
 		}
-- 
2.43.0

