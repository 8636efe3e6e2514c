From 0af79fd30474d5864f1d8da2e08254e6a2f0c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 01/24] fix: store and read encodings 1, 2, 5 and 6 as
 specified

DeltaID, DeltaValue, VarIntID and VarIntValue applied their encoding to both
sections when writing (or failed with a section size mismatch) and decoded
something else when reading, so blocks did not read back as written.
---
 pkg/col/reader_decode.go   |  8 +++++---
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_encoding.go | 29 +++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..8788d80 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	idsAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	valuesAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if idsAreVarInt {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +47,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if valuesAreVarInt {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..565594f 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,10 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..3456853 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -4,6 +4,35 @@ import (
 	"fmt"
 )
 
+// idSectionEncoding returns the encoding to apply to the ID section of a file
+// with the given encoding type: the encodings that only concern values leave
+// the IDs as they are (see section 4.2 of the format specification)
+func idSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID:
+		return EncodingDeltaBoth
+	case EncodingVarIntID:
+		return EncodingVarIntBoth
+	case EncodingDeltaValue, EncodingVarIntValue:
+		return EncodingRaw
+	}
+	return encodingType
+}
+
+// valueSectionEncoding returns the encoding to apply to the value section of a
+// file with the given encoding type
+func valueSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaValue:
+		return EncodingDeltaBoth
+	case EncodingVarIntValue:
+		return EncodingVarIntBoth
+	case EncodingDeltaID, EncodingVarIntID:
+		return EncodingRaw
+	}
+	return encodingType
+}
+
 // encodeData is a helper function to encode data based on the encoding type
 func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
 	var encodedData []T
-- 
2.43.0


From 886ba67670df15dda0550ab4b94a3f738ca54d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 02/24] fix: read back math.MinInt64 statistics

A block minimum, maximum or sum of math.MinInt64 was stored as the sign bit
alone and decoded as 0, so metadata aggregates disagreed with the data.
---
 pkg/col/encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..71ff3ac 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,10 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	// math.MinInt64 has no positive counterpart: int64ToUint64 stores it as the sign bit alone
+	if value == 1<<63 {
+		return -1 << 63
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From f7d7432c6164901b65a29babca7f5ee4ab0d5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 03/24] fix: sort SimpleWriter blocks that span several Write
 calls

Only each batch was sorted, so a block made of several batches was not in ID
order although SimpleWriter promises sorted blocks.
---
 pkg/col/simple_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 2b398db..f870348 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -135,6 +135,11 @@ func (sw *SimpleWriter) flushIfNeeded(force bool) error {
 	}
 
 	if shouldWrite {
+		// Each batch is sorted, but a block may hold several batches
+		if !isSorted(sw.pendingIDs) {
+			sortByID(sw.pendingIDs, sw.pendingValues)
+		}
+
 		// Try to write all pending items
 		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
 
-- 
2.43.0


From ceab0b7fb78c3a6130a7d072c540bfd165a79209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 04/24] fix: vibecol write splits its pairs over several blocks

More pairs than fit in one block made the command fail with 'block full after
writing N items' and leave an unreadable file behind.
---
 cmd/vibecol/main.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/vibecol/main.go b/cmd/vibecol/main.go
index 81f8564..f8ce91d 100644
--- a/cmd/vibecol/main.go
+++ b/cmd/vibecol/main.go
@@ -94,11 +94,21 @@ func runWrite(outputFile, idsStr, valuesStr string) {
 		os.Exit(1)
 	}
 	
-	// Write block
-	if err := writer.WriteBlock(ids, values); err != nil {
-		fmt.Printf("Error writing block: %v\n", err)
-		writer.Close()
-		os.Exit(1)
+	// Write blocks, starting a new one whenever a block is full
+	remainingIDs, remainingValues := ids, values
+	for {
+		err := writer.WriteBlock(remainingIDs, remainingValues)
+		if blockFull, ok := err.(*col.BlockFullError); ok {
+			remainingIDs = remainingIDs[blockFull.ItemsWritten:]
+			remainingValues = remainingValues[blockFull.ItemsWritten:]
+			continue
+		}
+		if err != nil {
+			fmt.Printf("Error writing block: %v\n", err)
+			writer.Close()
+			os.Exit(1)
+		}
+		break
 	}
 	
 	// Finalize and close
-- 
2.43.0


From d6560f4167cc4636e3043b08e71e1c93c283378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 05/24] fix: guard the cached global ID bitmap with a mutex

With caching enabled, concurrent GetGlobalIDBitmap calls (and Enable/Disable)
on one Reader raced on the cached pointer.
---
 pkg/col/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..e575f88 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -15,6 +16,7 @@ type Reader struct {
 	header         FileHeader
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
+	globalIDsMu    sync.Mutex // Guards globalIDs and cacheGlobalIDs
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
 }
@@ -126,11 +128,15 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +145,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From f49c31e9878345a3fb268877027d530734b5e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 06/24] fix: report reads beyond the end of a file

A read past the end returned zero bytes as if they were data, and a negative
or huge size taken from a damaged file panicked or exhausted memory.
---
 pkg/col/reader_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..9cd3c35 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,12 +8,15 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	if offset < 0 || size < 0 || int64(size) > r.fileSize || offset > r.fileSize-int64(size) {
+		return nil, fmt.Errorf("invalid read of %d bytes at offset %d of a %d byte file", size, offset, r.fileSize)
+	}
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From 2ac9713b5898bbe5773232fc4d4675850b27fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 07/24] fix: reject files whose header and footer are
 inconsistent

Damaged or partly written files opened as empty, or panicked or exhausted
memory later: block counts, footer size, block and bitmap locations, column
type, compression and encoding are now checked when opening.
---
 pkg/col/reader.go        |  3 +++
 pkg/col/reader_header.go | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index e575f88..91b8767 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -169,6 +169,9 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
 	}
 	bitmapSize := binary.LittleEndian.Uint32(sizeBuf)
+	if uint64(bitmapSize)+4 != r.header.BitmapSize || bitmapSize%2 != 0 {
+		return nil, fmt.Errorf("invalid bitmap size: %d bytes in a section of %d bytes", bitmapSize, r.header.BitmapSize)
+	}
 
 	// Read the bitmap data
 	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..41bebf3 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -62,6 +62,15 @@ func (r *Reader) readHeader() error {
 	if r.header.Version != Version {
 		return fmt.Errorf("unsupported version: %d", r.header.Version)
 	}
+	if r.header.ColumnType != DataTypeInt64 {
+		return fmt.Errorf("unsupported column type: %d", r.header.ColumnType)
+	}
+	if r.header.CompressionType != CompressionNone {
+		return fmt.Errorf("unsupported compression type: %d", r.header.CompressionType)
+	}
+	if r.header.EncodingType > EncodingVarIntBoth {
+		return fmt.Errorf("unsupported encoding type: %d", r.header.EncodingType)
+	}
 
 	return nil
 }
@@ -91,6 +100,9 @@ func (r *Reader) readFooter() error {
 	}
 
 	// Read the rest of the footer
+	if r.footerMeta.FooterSize > uint64(footerMetaOffset) {
+		return fmt.Errorf("invalid footer size: %d", r.footerMeta.FooterSize)
+	}
 	footerStart := footerMetaOffset - int64(r.footerMeta.FooterSize)
 	if footerStart < 64 { // Footer cannot start before the header
 		return fmt.Errorf("invalid footer size: %d", r.footerMeta.FooterSize)
@@ -103,11 +115,20 @@ func (r *Reader) readFooter() error {
 	}
 	blockIndexCount := binary.LittleEndian.Uint32(blockIndexCountBuf)
 
-	// Check if block count matches with header
+	// The block count must match the header and the size of the footer
 	if uint64(blockIndexCount) != r.header.BlockCount {
-		// Use the higher value to ensure we don't miss data
-		if uint64(blockIndexCount) > r.header.BlockCount {
-			r.header.BlockCount = uint64(blockIndexCount)
+		return fmt.Errorf("block count mismatch: header=%d, footer=%d", r.header.BlockCount, blockIndexCount)
+	}
+	if r.footerMeta.FooterSize != 4+uint64(blockIndexCount)*56 {
+		return fmt.Errorf("footer size mismatch: %d bytes for %d blocks", r.footerMeta.FooterSize, blockIndexCount)
+	}
+
+	// The global ID bitmap, if there is one, lies between the header and the footer
+	if r.header.BitmapOffset != 0 || r.header.BitmapSize != 0 {
+		if r.header.BitmapOffset < headerSize || r.header.BitmapOffset > uint64(footerStart) ||
+			r.header.BitmapSize < 4 || r.header.BitmapSize > uint64(footerStart)-r.header.BitmapOffset {
+			return fmt.Errorf("invalid global ID bitmap location: offset=%d, size=%d",
+				r.header.BitmapOffset, r.header.BitmapSize)
 		}
 	}
 
@@ -136,6 +157,15 @@ func (r *Reader) readFooter() error {
 			Sum:         readBufferedUint64(blockIndexBuf, int(entryOffset+44)),
 			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
 		}
+
+		// Every block lies between the header and the footer
+		entry := r.blockIndex[i]
+		if entry.BlockOffset < headerSize || entry.BlockOffset > uint64(footerStart) ||
+			entry.BlockSize < blockHeaderSize+blockLayoutSize ||
+			uint64(entry.BlockSize) > uint64(footerStart)-entry.BlockOffset {
+			return fmt.Errorf("invalid location of block %d: offset=%d, size=%d",
+				i, entry.BlockOffset, entry.BlockSize)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 438016098dbaa0c235baf7ca55db64f65f70938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 08/24] fix: report damaged block sections instead of inventing
 pairs

When a section did not hold as many IDs or values as the footer counts, the
reader dropped pairs or filled in made-up ones (sequential IDs, multiples of
100) and returned them without an error.
---
 pkg/col/reader_decode.go | 82 +++++++++++++---------------------------
 1 file changed, 27 insertions(+), 55 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 8788d80..e385c12 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -25,22 +25,16 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 			return nil, nil, fmt.Errorf("failed to decode varint IDs: %w", err)
 		}
 	} else {
-		// Calculate max number of IDs we can read
+		// The section must hold exactly count IDs
 		bytesPerID := 8
-		maxCount := len(idBytes) / bytesPerID
-		if count > maxCount {
-			count = maxCount
+		if len(idBytes)/bytesPerID != count || len(idBytes)%bytesPerID != 0 {
+			return nil, nil, fmt.Errorf("ID section has %d bytes, expected %d IDs", len(idBytes), count)
 		}
 
 		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -48,44 +42,33 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var values []int64
 
 	if valuesAreVarInt {
-		// Decode variable-length values
+		// Decode variable-length values; each takes at least one byte
+		if count > len(valueBytes) {
+			return nil, nil, fmt.Errorf("value section has %d bytes, expected %d values", len(valueBytes), count)
+		}
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
+		for i := 0; i < count; i++ {
 			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+			values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
+			if bytesRead <= 0 || valueBytes[offset+bytesRead-1]&0x80 != 0 {
+				return nil, nil, fmt.Errorf("failed to decode varint value at index %d", i)
 			}
+			offset += bytesRead
+		}
+		if offset != len(valueBytes) {
+			return nil, nil, fmt.Errorf("value section has %d bytes after %d values", len(valueBytes)-offset, count)
 		}
 	} else {
 		// Decode fixed-width values
 		bytesPerValue := 8
-		maxCount := len(valueBytes) / bytesPerValue
-		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+		if len(valueBytes)/bytesPerValue != count || len(valueBytes)%bytesPerValue != 0 {
+			return nil, nil, fmt.Errorf("value section has %d bytes, expected %d values", len(valueBytes), count)
 		}
 
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -115,24 +98,17 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	// Each varint takes at least one byte
+	if count > len(buf) {
+		return nil, fmt.Errorf("section has %d bytes, expected %d varints", len(buf), count)
+	}
+
 	vals := make([]uint64, 0, count)
 	offset := 0
 
-	// Try to decode up to 'count' varints, but stop if we run out of data
-	for i := 0; i < count && offset < len(buf); i++ {
-		// Make sure we have at least one byte to read
-		if offset >= len(buf) {
-			break
-		}
-
-		// Try to decode a varint
+	for i := 0; i < count; i++ {
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -140,12 +116,8 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
-	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
+	if offset != len(buf) {
+		return nil, fmt.Errorf("section has %d bytes after %d varints", len(buf)-offset, count)
 	}
 
 	return vals, nil
-- 
2.43.0


From 88b92222f4a20e3282560b4d286fc2b5b631152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/24] fix: sync a file's contents before the footer metadata
 that completes it

Nothing ordered the bitmap, the header update and the block index before the
trailing magic number: after a power loss a file could open with parts missing.
---
 pkg/col/writer_finalize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..2e1b266 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -161,6 +161,12 @@ func (w *Writer) Finalize() error {
 	footerSize := footerEnd - footerStart
 	footerMetaStart := footerEnd
 
+	// Everything the footer metadata vouches for must reach the disk before it:
+	// its magic number is what makes the file readable
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before footer metadata: %w", err)
+	}
+
 	// Write footer metadata
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
 		return fmt.Errorf("failed to write footer size: %w", err)
-- 
2.43.0


From 140d0cc4c90113063b095fe391239347fa5b5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 10/24] fix: refuse to build on a failed write

After a failed write or sync the position and the content of the file are
unknown: retrying could store pairs twice, and finalizing wrote the bitmap at
whatever position the failure left, over the first block.
---
 pkg/col/writer.go          | 1 +
 pkg/col/writer_block_io.go | 7 ++++++-
 pkg/col/writer_finalize.go | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 202f748..ebec709 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -25,6 +25,7 @@ type Writer struct {
 	blockSizes      []uint32      // Size of each block in bytes
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
+	err             error         // First failed write: what is in the file is unknown after it
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..0dc2683 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -69,7 +69,12 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
-func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
+func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
+	if w.err != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.err)
+	}
+	defer func() { w.err = err }()
+
 	// Add all IDs to the global ID bitmap
 	for _, id := range ids {
 		w.globalIDs.Set(id)
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 2e1b266..98d3c54 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -49,7 +49,12 @@ func (w *Writer) FinalizeAndClose() error {
 }
 
 // Finalize finalizes the file by writing the footer
-func (w *Writer) Finalize() error {
+func (w *Writer) Finalize() (err error) {
+	if w.err != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.err)
+	}
+	defer func() { w.err = err }()
+
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
 	if err != nil {
-- 
2.43.0


From 5895b31384cf7b82b029c4837221294d12c069ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 11/24] fix: mark unfinished files with an impossible block
 count

---
 pkg/col/format.go        | 4 ++++
 pkg/col/writer_header.go | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/col/format.go b/pkg/col/format.go
index 47b2fe8..74094dc 100644
--- a/pkg/col/format.go
+++ b/pkg/col/format.go
@@ -27,6 +27,10 @@ const (
 
 	// Compression types
 	CompressionNone uint32 = 0
+
+	// Block count in the header of a file that has not been finalized. The
+	// footer's block count has 32 bits, so it never equals this one.
+	unfinishedBlockCount uint64 = 1<<64 - 1
 )
 
 // FileHeader represents the header of a column file
diff --git a/pkg/col/writer_header.go b/pkg/col/writer_header.go
index 6a12ba7..8c0cc42 100644
--- a/pkg/col/writer_header.go
+++ b/pkg/col/writer_header.go
@@ -14,8 +14,10 @@ func (w *Writer) writeHeader() error {
 		return fmt.Errorf("failed to get header start position: %w", err)
 	}
 
-	// Create the header with default values
-	header := NewFileHeader(0, w.blockSizeTarget, w.encodingType)
+	// Create the header with default values. Until Finalize stores the real
+	// block count, the header holds a count that no footer can match, so that an
+	// unfinished file is never mistaken for an empty one.
+	header := NewFileHeader(unfinishedBlockCount, w.blockSizeTarget, w.encodingType)
 
 	// Create a buffer for the header fields
 	headerFields := []interface{}{
-- 
2.43.0


From b78ba7a82b48000c25d6ec0242338707640c0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 12/24] fix: report a failed size estimate while splitting a
 block

---
 pkg/col/writer_block_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 0dc2683..eb8ee2f 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -43,7 +43,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		for i := 1; i < len(ids); i++ {
 			size, err := w.EstimateBlockSize(ids[:i], values[:i])
 			if err != nil {
-				break
+				return fmt.Errorf("failed to estimate block size: %w", err)
 			}
 
 			if size <= uint64(w.blockSizeTarget) {
-- 
2.43.0


From 28111fd77e5c5ae294d78f993d64b67a17015edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 13/24] fix: loadtest import with a maximum value below 10

---
 cmd/loadtest/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 408d14b..952620d 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -114,8 +114,10 @@ func runImport(numValues, blockSize int, filename string, seed int64, maxValue i
 			if rng.Float64() < 0.7 {
 				// 70% of values are somewhat correlated with IDs
 				values[i] = int64(ids[i] % uint64(maxValue))
-				// Add some noise
-				values[i] += rng.Int63n(maxValue/10) - maxValue/20
+				// Add some noise, unless the range is too small for any
+				if maxValue >= 10 {
+					values[i] += rng.Int63n(maxValue/10) - maxValue/20
+				}
 			} else {
 				// 30% are completely random
 				values[i] = rng.Int63n(maxValue)
-- 
2.43.0


From fde2131db21055115dffd96ed95899ac0f0fad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 14/24] fix: find the end of a full block without measuring
 every prefix

---
 pkg/col/writer_block_io.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index eb8ee2f..d387d65 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -36,11 +36,16 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 	// If the block would exceed the target size and we have more than one item,
 	// try to find the maximum number of items that would fit
 	if estimatedSize > uint64(w.blockSizeTarget) && len(ids) > 1 {
-		// Start with a single item and incrementally add more until we reach the target size
-		var optimal int = 1
+		// A single item is always written. The size never shrinks when items are
+		// added, so double the number of items until they exceed the target size,
+		// then narrow down between the last two numbers.
+		optimal, tooMany := 1, len(ids)
+		for tooMany-optimal > 1 {
+			i := optimal * 2
+			if tooMany < len(ids) || i >= tooMany {
+				i = optimal + (tooMany-optimal)/2
+			}
 
-		// Try each size from 1 to len(ids)-1
-		for i := 1; i < len(ids); i++ {
 			size, err := w.EstimateBlockSize(ids[:i], values[:i])
 			if err != nil {
 				return fmt.Errorf("failed to estimate block size: %w", err)
@@ -49,8 +54,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 			if size <= uint64(w.blockSizeTarget) {
 				optimal = i
 			} else {
-				// We've exceeded the target size, stop here
-				break
+				tooMany = i
 			}
 		}
 
-- 
2.43.0


From ccc7a461aff46248e3936d0f781fea24128c5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 15/24] fix: loadtest aggregate fails when a block cannot be
 read

---
 cmd/loadtest/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 952620d..ba2cec3 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -231,7 +231,7 @@ func runAggregations(reader *col.Reader, skipCache bool, parallel int) {
 		_, values, err := reader.GetPairs(i)
 		if err != nil {
 			fmt.Printf("Error reading block %d: %v\n", i, err)
-			return
+			os.Exit(1)
 		}
 		totalValues += int64(len(values))
 	}
-- 
2.43.0


From af28543d2b352167e9321c34d8796d1f4d15ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 16/24] fix: split block writes of 4 GiB and more

---
 pkg/col/writer_block.go    | 4 ++--
 pkg/col/writer_block_io.go | 9 ++++++---
 pkg/col/writer_encoding.go | 8 ++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index 565594f..19dfe42 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -144,11 +144,11 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 }
 
 // encodeIDs encodes the IDs based on the encoding type
-func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
+func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint64, error) {
 	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
-func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
+func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint64, error) {
 	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index d387d65..0f8303c 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -93,16 +93,19 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
 		w.encodingType == EncodingVarIntBoth
 
 	// Encode IDs and values
-	encodedIDs, encodedIdBytes, idSectionSize, err := w.encodeIDs(ids)
+	encodedIDs, encodedIdBytes, idSize, err := w.encodeIDs(ids)
 	if err != nil {
 		return err
 	}
 
-	encodedValues, encodedValueBytes, valueSectionSize, err := w.encodeValues(values)
+	encodedValues, encodedValueBytes, valueSize, err := w.encodeValues(values)
 	if err != nil {
 		return err
 	}
 
+	// WriteBlock keeps blocks within the target size, which is below 4 GiB
+	idSectionSize, valueSectionSize := uint32(idSize), uint32(valueSize)
+
 	// Calculate statistics for the block using ORIGINAL values, not encoded values
 	// This ensures that aggregations are correct regardless of encoding
 	minID, maxID := calculateMinMaxUint64(ids)
@@ -356,7 +359,7 @@ func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error)
 
 	// Calculate total block size
 	// Block header + block layout + ID section + value section
-	totalSize := uint64(blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize)
+	totalSize := blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize
 
 	// Add padding size if needed for page alignment
 	currentPos, err := w.file.Seek(0, io.SeekCurrent)
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 3456853..5091cd5 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -34,10 +34,10 @@ func valueSectionEncoding(encodingType uint32) uint32 {
 }
 
 // encodeData is a helper function to encode data based on the encoding type
-func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
+func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint64, error) {
 	var encodedData []T
 	var encodedDataBytes [][]byte
-	var sectionSize uint32
+	var sectionSize uint64
 
 	// First apply delta encoding if needed
 	switch encodingType {
@@ -56,14 +56,14 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 	switch encodingType {
 	case EncodingRaw, EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth:
 		// Fixed-width encoding
-		sectionSize = uint32(len(encodedData) * 8)
+		sectionSize = uint64(len(encodedData)) * 8
 	case EncodingVarInt, EncodingVarIntID, EncodingVarIntBoth, EncodingVarIntValue:
 		// Variable-width encoding
 		encodedDataBytes = make([][]byte, len(encodedData))
 		sectionSize = 0
 		for i, d := range encodedData {
 			encodedDataBytes[i] = encodeVarIntFunc(d)
-			dataSize := uint32(len(encodedDataBytes[i]))
+			dataSize := uint64(len(encodedDataBytes[i]))
 			if dataSize == 0 {
 				return nil, nil, 0, fmt.Errorf("encoded size of data at index %d is 0", i)
 			}
-- 
2.43.0


From 6f37cd76057047f78bc20b937dca415950ef19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 17/24] fix: read block indexes of 4 GiB and more

---
 pkg/col/reader_header.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 41bebf3..c679148 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -145,17 +145,17 @@ func (r *Reader) readFooter() error {
 	// Parse the block index entries
 	r.blockIndex = make([]FooterEntry, blockIndexCount)
 	for i := uint32(0); i < blockIndexCount; i++ {
-		entryOffset := i * 56
+		entryOffset := int(i) * 56
 
 		r.blockIndex[i] = FooterEntry{
-			BlockOffset: readBufferedUint64(blockIndexBuf, int(entryOffset)),
-			BlockSize:   readBufferedUint32(blockIndexBuf, int(entryOffset+8)),
-			MinID:       readBufferedUint64(blockIndexBuf, int(entryOffset+12)),
-			MaxID:       readBufferedUint64(blockIndexBuf, int(entryOffset+20)),
-			MinValue:    readBufferedUint64(blockIndexBuf, int(entryOffset+28)),
-			MaxValue:    readBufferedUint64(blockIndexBuf, int(entryOffset+36)),
-			Sum:         readBufferedUint64(blockIndexBuf, int(entryOffset+44)),
-			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
+			BlockOffset: readBufferedUint64(blockIndexBuf, entryOffset),
+			BlockSize:   readBufferedUint32(blockIndexBuf, entryOffset+8),
+			MinID:       readBufferedUint64(blockIndexBuf, entryOffset+12),
+			MaxID:       readBufferedUint64(blockIndexBuf, entryOffset+20),
+			MinValue:    readBufferedUint64(blockIndexBuf, entryOffset+28),
+			MaxValue:    readBufferedUint64(blockIndexBuf, entryOffset+36),
+			Sum:         readBufferedUint64(blockIndexBuf, entryOffset+44),
+			Count:       readBufferedUint32(blockIndexBuf, entryOffset+52),
 		}
 
 		// Every block lies between the header and the footer
-- 
2.43.0


From e1508977548a9e773276956e606d2a60dfa965d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 18/24] fix: DebugInfo in time proportional to the number of
 blocks

---
 pkg/col/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 91b8767..834882a 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"strings"
 	"sync"
 
 	"github.com/weaviate/sroar"
@@ -110,8 +111,9 @@ func (r *Reader) DebugInfo() string {
 
 	info += fmt.Sprintf("    Block index entries: %d\n", len(r.blockIndex))
 
+	entries := make([]string, len(r.blockIndex))
 	for i, entry := range r.blockIndex {
-		info += fmt.Sprintf("      Block %d: Offset=%d, Size=%d, Count=%d\n",
+		info := fmt.Sprintf("      Block %d: Offset=%d, Size=%d, Count=%d\n",
 			i, entry.BlockOffset, entry.BlockSize, entry.Count)
 
 		// Convert stored uint64 values back to int64
@@ -121,9 +123,10 @@ func (r *Reader) DebugInfo() string {
 		info += fmt.Sprintf("        ID range: %d-%d\n", entry.MinID, entry.MaxID)
 		info += fmt.Sprintf("        Value range: %d-%d, Sum=%d\n",
 			minValue, maxValue, uint64ToInt64(entry.Sum))
+		entries[i] = info
 	}
 
-	return info
+	return info + strings.Join(entries, "")
 }
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
-- 
2.43.0


From 6c7cb358bd81e5f947acfb39d74a23da78320065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 19/24] fix: cut large batches into blocks in one pass

WriteBlock estimated the size of all that remained of a batch for every block
it cut from it, so writing a batch took time proportional to the square of its
size. A pair takes at least two bytes in any encoding, so only the pairs that
could fit need looking at.
---
 pkg/col/writer_block_io.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 0f8303c..1247d20 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -27,8 +27,15 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		return fmt.Errorf("cannot write empty block")
 	}
 
+	// A pair takes at least two bytes in any encoding, so of a large batch only
+	// the pairs that could fit are looked at, not all that remain for every block
+	candidates := len(ids)
+	if most := int(w.blockSizeTarget/2) + 2; candidates > most {
+		candidates = most
+	}
+
 	// First, check if the entire block would exceed the target size
-	estimatedSize, err := w.EstimateBlockSize(ids, values)
+	estimatedSize, err := w.EstimateBlockSize(ids[:candidates], values[:candidates])
 	if err != nil {
 		return fmt.Errorf("failed to estimate block size: %w", err)
 	}
@@ -39,10 +46,10 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		// A single item is always written. The size never shrinks when items are
 		// added, so double the number of items until they exceed the target size,
 		// then narrow down between the last two numbers.
-		optimal, tooMany := 1, len(ids)
+		optimal, tooMany := 1, candidates
 		for tooMany-optimal > 1 {
 			i := optimal * 2
-			if tooMany < len(ids) || i >= tooMany {
+			if tooMany < candidates || i >= tooMany {
 				i = optimal + (tooMany-optimal)/2
 			}
 
-- 
2.43.0


From b3312ab5de68318a47b6c3082fbbce387cd46e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 20/24] fix: loadtest import refuses arguments nothing can be
 drawn from

A max-value or max-id below one (or a max-id above the largest int64) ended in a
panic of math/rand after the output file had been truncated; a negative number
of values or block size was accepted.
---
 cmd/loadtest/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index ba2cec3..aebbd7f 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"math"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -58,6 +59,13 @@ func main() {
 }
 
 func runImport(numValues, blockSize int, filename string, seed int64, maxValue int64, maxID uint64) {
+	// Refuse what no values or IDs can be drawn from before touching the file
+	if numValues < 0 || blockSize < 0 || int64(blockSize) > math.MaxUint32 ||
+		maxValue < 1 || maxID < 1 || maxID > math.MaxInt64 {
+		fmt.Println("Error: n and block-size must not be negative or too large, max-value and max-id must be positive")
+		os.Exit(1)
+	}
+
 	fmt.Printf("Importing %d values with block size %d to %s\n", numValues, blockSize, filename)
 
 	// Create directory if it doesn't exist
-- 
2.43.0


From f5ffbd327c3b30ff06448627df6a17bcd8068b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 21/24] fix: cut batches on 32-bit platforms, too

Half of the largest block size target and two more overflow a 32-bit int.
---
 pkg/col/writer_block_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 1247d20..71d3104 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -30,8 +30,8 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 	// A pair takes at least two bytes in any encoding, so of a large batch only
 	// the pairs that could fit are looked at, not all that remain for every block
 	candidates := len(ids)
-	if most := int(w.blockSizeTarget/2) + 2; candidates > most {
-		candidates = most
+	if most := uint64(w.blockSizeTarget)/2 + 2; uint64(candidates) > most {
+		candidates = int(most)
 	}
 
 	// First, check if the entire block would exceed the target size
-- 
2.43.0


From e8241fb975e7a556537de53477bc8902ec3d0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:52 +0000
Subject: [PATCH 22/24] fix: refuse blocks that do not exist on 32-bit
 platforms, too

The index was cut to 32 bits before it was checked, so that block 2^32 was block 0.
---
 pkg/col/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 834882a..a330142 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -60,6 +60,11 @@ func NewReader(filename string) (*Reader, error) {
 
 // GetPairs returns the ID-value pairs from a block
 func (r *Reader) GetPairs(blockIdx uint64) ([]uint64, []int64, error) {
+	// The index must not be cut off where an int has 32 bits
+	if uint64(int(blockIdx)) != blockIdx {
+		return nil, nil, fmt.Errorf("invalid block index: %d", blockIdx)
+	}
+
 	return r.readBlock(int(blockIdx))
 }
 
-- 
2.43.0


From cc12f34df686a505175bf6ff65ad653347f950b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:52 +0000
Subject: [PATCH 23/24] fix: check section bounds and counts without overflow
 on 32-bit platforms

Offsets and counts of 2^31 and more became negative and passed the checks;
slicing and allocating panicked.
---
 pkg/col/reader_block.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..8b239c4 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -42,6 +42,16 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 		return nil, nil, fmt.Errorf("Value section size in header is 0")
 	}
 
+	// Offsets, sizes and counts beyond the block must not overflow where an int has 32 bits
+	if count < 0 {
+		return nil, nil, fmt.Errorf("invalid number of pairs: %d", r.blockIndex[blockIndex].Count)
+	}
+	for _, v := range []uint32{idSectionOffset, idSectionSize, valueSectionOffset, valueSectionSize} {
+		if uint64(v) > uint64(len(blockData)) {
+			return nil, nil, fmt.Errorf("section boundaries exceed block data size")
+		}
+	}
+
 	// Extract ID and value sections from the buffer
 	// The layout section is 16 bytes, followed by the data sections
 	idStart := 16 + int(idSectionOffset)
-- 
2.43.0


From c10df256aa8ac30ecdcbdbeb055606f69e32ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:44 +0000
Subject: [PATCH 24/24] fix: refuse to write to a finalized file

Between Finalize and Close a block was written after the footer, which made
the complete file unreadable, and a second Finalize added another footer.
---
 pkg/col/writer.go          | 1 +
 pkg/col/writer_block_io.go | 3 +++
 pkg/col/writer_finalize.go | 9 ++++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index ebec709..219fefa 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -17,6 +17,7 @@ func minInt(a, b int) int {
 
 // Writer writes a column file
 type Writer struct {
+	finalized       bool // The file is complete: nothing may follow its footer
 	file            *os.File
 	blockCount      uint64
 	encodingType    uint32
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 71d3104..e8f9f33 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -84,6 +84,9 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
 	if w.err != nil {
 		return fmt.Errorf("an earlier write failed: %w", w.err)
 	}
+	if w.finalized {
+		return fmt.Errorf("writer is already finalized")
+	}
 	defer func() { w.err = err }()
 
 	// Add all IDs to the global ID bitmap
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 98d3c54..81a359e 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -42,6 +42,10 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 
 // FinalizeAndClose finalizes the file by writing the footer and closes the file
 func (w *Writer) FinalizeAndClose() error {
+	// A finalized file only remains to be closed
+	if w.finalized {
+		return w.file.Close()
+	}
 	if err := w.Finalize(); err != nil {
 		return err
 	}
@@ -53,7 +57,10 @@ func (w *Writer) Finalize() (err error) {
 	if w.err != nil {
 		return fmt.Errorf("an earlier write failed: %w", w.err)
 	}
-	defer func() { w.err = err }()
+	if w.finalized {
+		return fmt.Errorf("writer is already finalized")
+	}
+	defer func() { w.err, w.finalized = err, err == nil }()
 
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
-- 
2.43.0

