From 407886a598154246232d7a3b0c7c42800996cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 01/50] fix: index paged buffers by offset within the page, not
 by absolute index

---
 vtdxml/buffer/int_buffer.go  | 4 ++--
 vtdxml/buffer/long_buffer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..04e800c 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..e0aaba9 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
-- 
2.43.0


From bac6d453eb5d1e56c02cce4351b8f4cc44a3b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 02/50] fix: accept new entries at the rolled back size of
 paged buffers

---
 vtdxml/buffer/int_buffer.go  | 12 ++++++++----
 vtdxml/buffer/long_buffer.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 04e800c..5dc602d 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -93,6 +93,10 @@ func (b *FastIntBuffer) GetSize() int {
 }
 
 func (b *FastIntBuffer) SetSize(size int) {
+	// the size can only be rolled back, there are no entries beyond it
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -113,7 +117,7 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -130,7 +134,7 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -146,14 +150,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index e0aaba9..89dc925 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -91,6 +91,10 @@ func (b *FastLongBuffer) GetSize() int {
 }
 
 func (b *FastLongBuffer) SetSize(size int) {
+	// the size can only be rolled back, there are no entries beyond it
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -133,7 +137,7 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -150,7 +154,7 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -166,14 +170,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 5c242ef40669dbdaded8823294572829a284dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 03/50] fix: keep the four highest bits in
 FastLongBuffer.Upper32At

---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 89dc925..ef689b7 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -114,7 +114,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From 505b14569c74b32c6719f17a089d916d6ec65358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 04/50] fix: fill pages of FastObjectBuffer in order and after
 Clear

---
 vtdxml/buffer/object_buffer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..0ec2734 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -62,7 +62,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -77,7 +77,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -89,12 +89,17 @@ func (b *FastObjectBuffer) GetSize() int {
 }
 
 func (b *FastObjectBuffer) SetSize(size int) {
+	// the size can only be rolled back, there are no pages beyond it
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	// size is the number of pages in use
+	if b.size > 0 && len(b.buffer[b.size-1]) < b.pageSize {
+		pageNum := b.size - 1
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
@@ -103,8 +108,8 @@ func (b *FastObjectBuffer) Append(value interface{}) error {
 		return b.set(pageNum, bufferSlice)
 	} else {
 		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
+		b.capacity = b.size * b.pageSize
+		b.buffer = append(b.buffer[:b.size-1], []interface{}{value})
 		return nil
 	}
 }
-- 
2.43.0


From 62e0ba68b0369279a0463344418a5820022efde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 05/50] fix: do not panic on a negative or overflowing buffer
 page size

---
 vtdxml/buffer/int_buffer.go    |  2 +-
 vtdxml/buffer/long_buffer.go   | 10 ++++++----
 vtdxml/buffer/object_buffer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 5dc602d..821aef7 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index ef689b7..d21f786 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 0ec2734..9381a14 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From 00651b5093f38a5e79c8d994e08c9b8d647b4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 06/50] fix: return the requested range from
 UniByteBuffer.GetByteSlice

---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From 458fcbd1bcecaf0f2962e6c2148728191f3b153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 07/50] fix: keep character readers inside their window and
 un-consumed on mismatch

---
 vtdxml/reader/ascii_reader.go | 15 +++++++++++++--
 vtdxml/reader/utf8_reader.go  | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..b7be36b 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -30,7 +30,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 }
 
 func (r *AsciiReader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -42,14 +42,20 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
+	if r.offset < 0 || r.offset >= r.endOffset {
+		return false
+	}
 	if ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
@@ -59,8 +65,10 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
@@ -68,6 +76,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..94b4f6a 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -30,7 +30,7 @@ func NewUtf8Reader(xmlDoc []byte, offset, endOffset int) (*Utf8Reader, error) {
 }
 
 func (r *Utf8Reader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -42,18 +42,27 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
+	if r.offset < 0 || r.offset >= r.endOffset {
+		return false
+	}
 	if ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
@@ -63,8 +72,10 @@ func (r *Utf8Reader) SkipChar(ch uint32) bool {
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
-- 
2.43.0


From fc7d0e03d579ac2448ec2f3d24b5c9ef82f9dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 08/50] fix: let AsciiReader read a window that ends with the
 document

---
 vtdxml/reader/ascii_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index b7be36b..ebcc0e1 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
-- 
2.43.0


From 47b06cdf25d92e542e0259aecb087e9783ec5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 09/50] fix: decode UTF-8 instead of treating each byte as a
 character

---
 vtdxml/common/common.go           |  2 +-
 vtdxml/parser/common.go           |  3 ++-
 vtdxml/parser/process_attr_val.go |  6 +++++-
 vtdxml/parser/vtd_parser.go       |  1 +
 vtdxml/reader/ascii_reader.go     | 11 ++++++++--
 vtdxml/reader/utf8_reader.go      | 36 +++++++++++++++++++++----------
 6 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index 96f5d39..a9a9f9e 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -33,6 +33,7 @@ type FormatEncoding int
 const (
 	FormatAscii FormatEncoding = iota
 	FormatIso88591
+	FormatUtf8
 	FormatIso88592
 	FormatIso88593
 	FormatIso88594
@@ -50,7 +51,6 @@ const (
 	FormatIso885916
 	FormatUtf16BE
 	FormatUtf16LE
-	FormatUtf8
 	FormatWin1250
 	FormatWin1251
 	FormatWin1252
diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..7134c1c 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -323,7 +323,8 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 	prevOffset := p.offset
 	switch p.encoding {
 	case common.FormatUtf8:
-		for p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
+		prevOffset--
+		for prevOffset > p.docOffset && p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
 			prevOffset--
 		}
 		return prevOffset, nil
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..ed48a7a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..3ed040b 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -104,6 +104,7 @@ func WithLcDepth(depth int) Option {
 func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	g := &VtdParser{
 		xmlChar:               common.NewXmlChar(),
+		encoding:              common.FormatUtf8,
 		singleByteEncoding:    true,
 		shallowDepth:          true,
 		depth:                 DefaultDepth,
diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index ebcc0e1..78142f6 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -49,6 +49,9 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
+	if !r.isASCII(ch) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
 	return (1 << 32) | uint64(ch), nil
 }
 
@@ -56,7 +59,7 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 	if r.offset < 0 || r.offset >= r.endOffset {
 		return false
 	}
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if ch == uint32(r.xmlDoc[r.offset]) && r.isASCII(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -79,7 +82,11 @@ func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
 	if offset < 0 || int(offset) >= r.endOffset {
 		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	return uint32(r.xmlDoc[offset]), nil
+	ch := r.xmlDoc[offset]
+	if !r.isASCII(ch) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
+	return uint32(ch), nil
 }
 
 func (r *AsciiReader) GetOffset() int {
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 94b4f6a..e3d3a4e 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,7 +1,7 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -33,9 +33,9 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, size := r.decode(r.offset)
+	r.offset += size
+	if !r.isUTF8(ch, size) {
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
 	return uint32(ch), nil
@@ -49,22 +49,30 @@ func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
 	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
-	return (1 << 32) | uint64(ch), nil
+	r32, size := r.decode(int(offset))
+	if !r.isUTF8(r32, size) {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	return (uint64(size) << 32) | uint64(r32), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 	if offset < 0 || int(offset) >= r.endOffset {
 		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	return uint32(r.xmlDoc[offset]), nil
+	ch, size := r.decode(int(offset))
+	if !r.isUTF8(ch, size) {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	return uint32(ch), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
 	if r.offset < 0 || r.offset >= r.endOffset {
 		return false
 	}
-	if ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
+	if c, size := r.decode(r.offset); r.isUTF8(c, size) && ch == uint32(c) {
+		r.offset += size
 		return true
 	} else {
 		return false
@@ -90,7 +98,13 @@ func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
 
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
+// decode function decodes the character at the offset and returns it with
+// the number of bytes it occupies in the window
+func (r *Utf8Reader) decode(offset int) (rune, int) {
+	return utf8.DecodeRune(r.xmlDoc[offset:r.endOffset])
+}
+
+// isUTF8 function to validate if a decoded character is a valid UTF-8 character
+func (r *Utf8Reader) isUTF8(ch rune, size int) bool {
+	return ch != utf8.RuneError || size > 1
 }
-- 
2.43.0


From 32df8bd98ce0c68b607adda4d8f0530e6084ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 10/50] fix: reject a window of negative length or beyond the
 document

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index 3ed040b..ad0a906 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -130,7 +130,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From d45fe309e416d6d0f802a8a063997d9b19cba9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 11/50] fix: do not write debug output to stdout while parsing

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..d5c1737 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From b54f71cff93a1efc2b6b0949e5b084a9bf273ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 12/50] fix: do not overwrite the shared EOFErrorType while
 parsing

---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d5c1737..01be12e 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -62,7 +62,8 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		var eofErr *erroring.EOFError
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From c0eba545ae30d64af3df88bcb15b5a8df96700f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 13/50] fix: refuse to resume a failed or finished parse

---
 vtdxml/parser/parse.go      | 4 ++++
 vtdxml/parser/vtd_parser.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 01be12e..8b8c7e7 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -11,6 +11,10 @@ import (
 // If namespace awareness is set to true, VTDGen conforms to XML
 // namespace 1.0 spec
 func (p *VtdParser) Parse() error {
+	if p.started {
+		return erroring.NewInternalError("document has already been parsed", nil)
+	}
+	p.started = true
 	if err := p.decideEncoding(); err != nil {
 		return err
 	}
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index ad0a906..c7b7dc0 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -48,7 +48,7 @@ type VtdParser struct {
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
 	isXml                                                               bool
-	bufferReuse                                                         bool
+	bufferReuse, started                                                bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer, l4Buffer, l5Buffer         buffer.LongBuffer
-- 
2.43.0


From 930ee41a8b3a12a304fd40155764341628f55cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 14/50] fix: detect byte order marks and stay inside short
 documents when sniffing the encoding

---
 vtdxml/parser/common.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7134c1c..f0d5e0a 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -345,9 +346,10 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	doc := p.xmlDoc[p.offset:p.endOffset]
+	if doc[0] == 0xFE {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
+		if bytes.HasPrefix(doc, []byte{0xFE, 0xFF}) {
 			p.offset += 2
 			p.encoding = common.FormatUtf16BE
 			p.bomDetected = true
@@ -355,9 +357,9 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("should be 0xFF 0xFE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
+	} else if doc[0] == 0xFF {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
+		if bytes.HasPrefix(doc, []byte{0xFF, 0xFE}) {
 			p.offset += 2
 			p.encoding = common.FormatUtf16LE
 			p.bomDetected = true
@@ -365,34 +367,31 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
+	} else if doc[0] == 0 {
+		if bytes.HasPrefix(doc, []byte{0, 0x3c, 0, 0x3f}) {
 			p.encoding = common.FormatUtf16BE
 			p.increment = 2
 			// g.reader = reader.NewUtf16BeReader()
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
+	} else if doc[0] == 0xEF {
+		if bytes.HasPrefix(doc, []byte{0xEF, 0xBB, 0xBF}) {
 			p.offset += 3
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
+	} else if doc[0] == 0x3c {
+		if bytes.HasPrefix(doc, []byte{0x3c, 0, 0x3f, 0}) {
 			p.encoding = common.FormatUtf16LE
 			p.increment = 2
 			// g.reader = reader.NewUtf16LeReader()
 		}
 		// no need to return error if failed the condition
 	}
+	// continue after the byte order mark
+	p.reader.SetOffset(p.offset)
 
 	if p.encoding < common.FormatUtf16BE {
 		if p.nsAware {
-- 
2.43.0


From d443444729591450d08672521ca3186c13572a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 15/50] fix: reject UTF-16 documents, there is no reader for
 them

---
 vtdxml/parser/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index f0d5e0a..16ba0db 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -390,6 +390,10 @@ func (p *VtdParser) decideEncoding() error {
 		}
 		// no need to return error if failed the condition
 	}
+	if p.encoding == common.FormatUtf16BE || p.encoding == common.FormatUtf16LE {
+		// there is no reader for UTF-16 yet
+		return erroring.NewEncodingError("UTF-16 is not supported")
+	}
 	// continue after the byte order mark
 	p.reader.SetOffset(p.offset)
 
-- 
2.43.0


From 404a9fedec56ba8053c82b36e3b1380e41174276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 16/50] fix: move the reader back with the offset when a PI is
 not an XML declaration

---
 vtdxml/parser/process_doc_start.go | 8 +++-----
 vtdxml/parser/process_lt_seen.go   | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..e9ffff8 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -9,9 +9,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 	if p.currentChar == '<' {
 		p.lastOffset = p.offset
 		if p.skipChar('?') &&
-			(p.skipChar('x') || p.skipChar('X')) &&
-			(p.skipChar('m') || p.skipChar('M')) &&
-			(p.skipChar('l') || p.skipChar('L')) {
+			p.skipCharSeq("xml") {
 			if p.skipChar(' ') ||
 				p.skipChar('\t') ||
 				p.skipChar('\n') ||
@@ -25,11 +23,11 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..f9c7def 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -80,6 +80,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 				return StateInvalid, err
 			}
 			p.offset = offset
+			p.reader.SetOffset(offset)
 		}
 		return StatePiTag, nil
 	}
-- 
2.43.0


From f943c1563a71aea8864f2254ef7a1f8c58f7436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 17/50] fix: accept DOCTYPE once in the prolog and nowhere else

---
 vtdxml/parser/common.go          | 2 +-
 vtdxml/parser/process.go         | 3 ++-
 vtdxml/parser/process_lt_seen.go | 1 +
 vtdxml/parser/vtd_parser.go      | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 16ba0db..4012c94 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -33,7 +33,7 @@ const (
 
 const (
 	cdata   = "CDATA["
-	docType = "DOCTYPE"
+	docType = "OCTYPE"
 
 	maxTokenLength  = (1 << 20) - 1
 	maxDepth        = 254
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..5fe3f32 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,7 +18,8 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
+	// CDATA belongs into the root element, a single DOCTYPE in front of it
+	if (seq == cdata && p.depth < 0) || (seq == docType && (p.depth >= 0 || p.docTypeSeen)) {
 		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
 			p.fmtLine(), nil)
 	}
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index f9c7def..e0ba9d2 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -51,6 +51,7 @@ func (p *VtdParser) processExSeen() (State, error) {
 			return StateInvalid, err
 		}
 		p.lastOffset = p.offset
+		p.docTypeSeen = true
 		return StateDocType, nil
 	default:
 		return StateInvalid, erroring.NewParseError("unrecognized char after <!", p.fmtLine(), nil)
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index c7b7dc0..c2ead0a 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -48,7 +48,7 @@ type VtdParser struct {
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
 	isXml                                                               bool
-	bufferReuse, started                                                bool
+	bufferReuse, started, docTypeSeen                                   bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer, l4Buffer, l5Buffer         buffer.LongBuffer
-- 
2.43.0


From 7e60c808b33cf60c2c12c36103c979230eeed3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 18/50] fix: do not panic on an end tag in front of the root
 element

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..6147c56 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("end tag without start tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From 8dc952c0f6da5c10addfb6028b17698f29250752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 19/50] fix: continue text that starts with a reference or
 bracket after an end tag

---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 6147c56..6dc92c9 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From a82a7ddafd73b5c57766e5faa7ba5ea741f2bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 20/50] fix: require two brackets in front of > to end or
 forbid a CDATA section end

---
 vtdxml/parser/common.go        | 4 +++-
 vtdxml/parser/process.go       | 4 +++-
 vtdxml/parser/process_cdata.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 4012c94..7d0937a 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -561,9 +561,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 	case ']':
 		{
 			// skip all ] chars
+			var cdataEnd bool
 			for p.skipChar(']') {
+				cdataEnd = true
 			}
-			if p.skipChar('>') {
+			if cdataEnd && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 5fe3f32..ac818e8 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -47,9 +47,11 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 	}
 	if ch == ']' {
 		// skip all ] chars
+		var cdataEnd bool
 		for p.skipChar(']') {
+			cdataEnd = true
 		}
-		if p.skipChar('>') {
+		if cdataEnd && p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 		}
 		return StateText, nil
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..5e39bfd 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -15,9 +15,11 @@ func (p *VtdParser) processCdata() (State, error) {
 		}
 		if p.currentChar == ']' {
 			// skip all ] chars
+			var cdataEnd bool
 			for p.skipChar(']') {
+				cdataEnd = true
 			}
-			if p.skipChar('>') {
+			if cdataEnd && p.skipChar('>') {
 				break
 			}
 		}
-- 
2.43.0


From ae8dc532ecd98d75cabe91fee608b6e2ae8ef6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 21/50] fix: accept comments and empty PIs after the root
 element

---
 vtdxml/parser/process_end_comment.go | 5 ++++-
 vtdxml/parser/process_pi_end.go      | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..0e0d467 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
@@ -26,7 +29,7 @@ func (p *VtdParser) processEndComment() (State, error) {
 			return StateInvalid, err
 		}
 	} else {
-		if err := p.writeVtd(common.TokenComment, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
+		if err := p.writeVtdText(common.TokenComment, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
 			return StateInvalid, err
 		}
 	}
diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 7e82313c68a80a33c3de9357fe9802ad31be12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 22/50] fix: pack the prefix length of a starting tag above its
 name length

---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 37c562533efb088bfc85fa23a1285dde0723ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 23/50] fix: do not panic on tags with more than 256 attributes

---
 vtdxml/parser/process_attr_name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..d6c7a69 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,6 +129,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
+	if p.attrCount == len(p.attrNameSlice) {
+		p.attrNameSlice = append(p.attrNameSlice, 0)
+	}
 	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
@@ -136,6 +139,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
+		if p.prefixedAttCount == len(p.prefixedAttrNameSlice) {
+			p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice, 0)
+		}
 		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
 		p.prefixedAttCount++
 	}
-- 
2.43.0


From 83422b4b3265ec924baa428890ebc8e85252bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 24/50] fix: compare the namespaces that prefixed attributes
 are bound to

---
 vtdxml/parser/process_attr_val.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ed48a7a..917338e 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -192,6 +192,7 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 
 func (p *VtdParser) qualifyAttributes() error {
 	nsBuffer3Count := p.nsBuffer3.GetSize() - 1
+	p.prefixUrlSlice = p.prefixUrlSlice[:0]
 	for j := 0; j < p.prefixedAttCount; j++ {
 		preLen := int(int32((p.prefixedAttrNameSlice[j] & 0xFFFF0000) >> 16))
 		preOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))
@@ -461,8 +462,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -471,14 +472,13 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
+		if int32(chA) != int32(chB) {
 			return false, err
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
+	if a.offset == endA && b.offset == endB {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From a3fe33f973dae555c1738cc33eeb9fcf7b5ce8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 25/50] fix: recognise the reserved namespace names

---
 vtdxml/parser/common.go           |  2 +-
 vtdxml/parser/process_attr_val.go | 75 +++++++++++++------------------
 2 files changed, 33 insertions(+), 44 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7d0937a..bd04834 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -41,7 +41,7 @@ const (
 	maxQnameLength  = (1 << 11) - 1
 
 	XMLNS1998 = "http://www.w3.org/XML/1998/namespace"
-	XMLNS2000 = "http://www.w3.org/2000/xmlns"
+	XMLNS2000 = "http://www.w3.org/2000/xmlns/"
 )
 
 // setOffset function set custom offset to parser byte reader and sets
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 917338e..8e892bc 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -14,9 +14,6 @@ const (
 	NsUrl2000
 	NsUrl1998
 	InvalidNsUrl NsUrlType = -1
-
-	URL1 = "2000/xmlns/"
-	URL2 = "http://www.w3.org/XML/1998/namespace"
 )
 
 type Url struct {
@@ -54,12 +51,14 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
-			return StateInvalid, erroring.NewParseError(
-				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
-				p.fmtLine(),
-				nil,
-			)
+		if p.isXml {
+			if nsUrlType != NsUrl1998 {
+				return StateInvalid, erroring.NewParseError(
+					fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
+					p.fmtLine(),
+					nil,
+				)
+			}
 		} else {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
@@ -144,49 +143,39 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 	//  create a struct that would bring meaningful explanation about the functionality
 	// lastOffset, length1
 	g := p.lastOffset + p.length1
-	offset, tmpOffset := p.lastOffset, 0
 	if p.length1 < 29 || (p.increment == 2 && p.length1 < 58) {
 		return DefaultNsUrl, nil
 	}
 
-	for i := 0; i < 18 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
+	// matches compares the attribute value with all characters of the URL
+	matches := func(url string) (bool, error) {
+		offset := p.lastOffset
+		for i := 0; i < len(url); i++ {
+			if offset >= g {
+				return false, nil
+			}
+			ch, err := p.getCharResolved(offset)
+			if err != nil {
+				return false, err
+			}
+			if int32(url[i]) != int32(ch) {
+				return false, nil
+			}
+			offset += int(ch >> 32)
 		}
-		offset += int(ch) >> 32
+		return offset == g, nil
 	}
-	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
+
+	if match, err := matches(XMLNS2000); err != nil {
+		return InvalidNsUrl, err
+	} else if match {
+		return NsUrl2000, nil
 	}
-	if offset == g {
+	if match, err := matches(XMLNS1998); err != nil {
+		return InvalidNsUrl, err
+	} else if match {
 		return NsUrl1998, nil
 	}
-	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
-	}
-	if offset == g {
-		return NsUrl2000, nil
-	}
 	return DefaultNsUrl, nil
 }
 
-- 
2.43.0


From 44c9d181152b3511556c51fc67c53527979bccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 26/50] fix: resolve &amp; and &apos; in namespace names
 without consuming the document

---
 vtdxml/parser/process_attr_val.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 8e892bc..daf388f 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -355,10 +355,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -372,7 +373,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
@@ -435,6 +436,9 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 }
 
 func (p *VtdParser) getCharUnit(offset int) (int32, error) {
+	if offset < p.docOffset || offset >= p.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	if p.encoding <= 2 {
 		return int32(p.xmlDoc[offset] & 0xff), nil
 	} else if p.encoding < common.FormatUtf16BE {
-- 
2.43.0


From 1ebd59564f14e2b788089c6bbb7d5cb2d390eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 27/50] fix: report a failed read of a namespace declaration

---
 vtdxml/parser/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index bd04834..e893bb2 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -507,7 +507,7 @@ func (p *VtdParser) qualifyElement() error {
 		if diff == preLen {
 			lowVal, err := p.nsBuffer3.Lower32At(i)
 			if err != nil {
-				return nil
+				return err
 			}
 			os := int(lowVal+(upVal>>16)) + p.increment
 			var j int
-- 
2.43.0


From 7e558da7dd142f6a66240464e09931ba84982a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 28/50] fix: start split text tokens at the offset of the text

---
 vtdxml/parser/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index e893bb2..39c97c4 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -244,7 +244,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		j, rOffset := 0, offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From 9defb776c1c126eacc69c9db78ab989c4c46b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 29/50] fix: reject character references that overflow

---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 39c97c4..83fe3bb 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -623,6 +624,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -633,6 +637,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From bc5c8ae9d85dff0a02fe9a9b9cc86c1458c1a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 30/50] fix: accept ASCII declarations and reject encodings
 that cannot be read

---
 vtdxml/parser/process_dec_attr_name.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..ff0cef9 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -149,7 +149,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipChar(uint32(usAscii[1])) || p.skipChar('S') {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -241,7 +241,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -260,7 +260,7 @@ func (p *VtdParser) checkUsAsciiEncoding() error {
 	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -279,7 +279,7 @@ func (p *VtdParser) checkIsoEncoding() error {
 	if !p.skipCharSeq(iso8859[1:]) && !p.skipCharSeq(strings.ToUpper(iso8859[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ISO8859x", p.fmtLine(), nil)
 	}
 	if length, err := p.setIsoEncoding(); err != nil {
@@ -453,10 +453,10 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	return erroring.NewParseError("unsupported document encoding", p.fmtLine(), nil)
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
 	// TODO implement: return length end error
-	return 0, nil
+	return 0, erroring.NewParseError("unsupported document encoding", p.fmtLine(), nil)
 }
-- 
2.43.0


From cda2b1ad2f7cfd5630cc123d79bedcb3124d2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 31/50] fix: require matching quotes and separating space in
 the XML declaration

---
 vtdxml/parser/process_dec_attr_name.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index ff0cef9..70097fb 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -131,6 +131,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	p.lastOffset = p.offset
 	if err := p.nextChar(); err != nil {
 		return err
@@ -168,12 +169,19 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
@@ -201,6 +209,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,7 +237,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
-- 
2.43.0


From bcc04dc04d29fefa8cb64aa24c4caf9617eb0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 32/50] fix: mark missing children in the location caches as
 the navigator expects

---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 83fe3bb..6cf734a 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -148,19 +148,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -175,15 +175,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -198,11 +198,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -217,7 +217,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 8b8c7e7..d1240c3 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -85,19 +85,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From bfe174ff115efae0d25e64adaf2b0b06e017037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 33/50] fix: write the location caches of the default three
 levels

---
 vtdxml/parser/common.go            | 47 ++++++++++++++++++++++++++++++
 vtdxml/parser/process_start_tag.go |  4 +--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 6cf734a..7580479 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -133,6 +133,53 @@ func (p *VtdParser) writeVtd(tokenType common.Token, offset, length, depth int)
 	return p.vtdBuffer.Append(b | offset64)
 }
 
+// writeVtdL3 function writes into VTD buffer and location cache of
+// three levels
+func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int) error {
+	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
+		return err
+	}
+	switch depth {
+	case 0:
+		p.rootIndex = p.vtdBuffer.GetSize() - 1
+	case 1:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		p.lastL1Index = p.vtdBuffer.GetSize() - 1
+		p.lastDepth = 1
+	case 2:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) + p.l2Buffer.GetSize())); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		p.lastL2Index = p.vtdBuffer.GetSize() - 1
+		p.lastDepth = 2
+	case 3:
+		if err := p.l3Buffer.Append(int64((p.vtdBuffer.GetSize() - 1) << 32)); err != nil {
+			return err
+		}
+		if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) + p.l3Buffer.GetSize() - 1)); err != nil {
+				return err
+			}
+		}
+		p.lastDepth = 3
+	}
+	return nil
+}
+
 // writeVtdL5 function writes into VTD buffer and location cache
 func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int) error {
 	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 78bf66c..29e4ab1 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,7 +38,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
@@ -51,7 +51,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
 				p.depth); err != nil {
 				return StateInvalid, err
 			}
-- 
2.43.0


From cb16fcaf33d5ec479ed568b69d450f7aa90dbe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 34/50] fix: return a navigator from GetNav

---
 vtdxml/parser/get_nav.go    | 17 ++++++++++++++---
 vtdxml/parser/parse.go      |  1 +
 vtdxml/parser/vtd_parser.go |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..bd97709 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,20 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	// TODO
-	return nil, nil
+	if !p.finished {
+		return nil, erroring.NewInternalError("document has not been parsed", nil)
+	}
+	return navigation.NewVtdNav(
+		int32(p.rootIndex), int32(p.docOffset), int32(p.docLength), int32(p.vtdDepth),
+		p.encoding,
+		p.nsAware,
+		p.xmlDoc,
+		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
+	)
 }
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d1240c3..6146dab 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -71,6 +71,7 @@ func (p *VtdParser) Parse() error {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
+			p.finished = true
 			return nil
 		} else if err != nil {
 			return err
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index c2ead0a..6fedbc1 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -48,7 +48,7 @@ type VtdParser struct {
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
 	isXml                                                               bool
-	bufferReuse, started, docTypeSeen                                   bool
+	bufferReuse, started, finished, docTypeSeen                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer, l4Buffer, l5Buffer         buffer.LongBuffer
-- 
2.43.0


From 9a654be6f551692850671be3469111716056fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 35/50] fix: give the cursor room for the deepest elements

---
 vtdxml/navigation/vtd_nav.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..6525505 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -59,11 +59,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i <= int(depth); i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From e78c6505ad3ee9ba2e61ef60434b27ee0a21770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 36/50] fix: report index read failures of navigation instead
 of a missing element

---
 vtdxml/navigation/to_element.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..5873a0c 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -102,7 +102,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			}
 			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
-				return false, nil
+				return false, err
 			}
 			n.context[2] = upper
 			return true, nil
@@ -136,7 +136,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			}
 			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
-				return false, nil
+				return false, err
 			}
 			n.context[3] = upper
 			return true, nil
@@ -155,7 +155,7 @@ func (n *VtdNav) toFirstChild() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -181,7 +181,7 @@ func (n *VtdNav) toLastChild() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -288,7 +288,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -312,7 +312,7 @@ func (n *VtdNav) toPrevSibling() (bool, error) {
 	for index > int(n.context[n.context[0]-1]) {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
-- 
2.43.0


From a10db18513acfe7ffc440ed192d49f82a987ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 37/50] fix: read the location cache of the level that is
 navigated

---
 vtdxml/navigation/to_element.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 5873a0c..4622a80 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From b1ec2ef7e28406843136230eff45ffaf8627e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 38/50] fix: leave the cursor in place when a move fails

---
 vtdxml/navigation/to_element.go | 80 ++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 4622a80..e13db67 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -60,16 +60,16 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if n.l1Buffer.GetSize() == 0 {
 				return false, nil
 			}
-			n.context[0] = 1
-			if dir == FirstChild {
-				n.l1index = 0
-			} else {
-				n.l1index = n.l1Buffer.GetSize() - 1
+			index := 0
+			if dir == LastChild {
+				index = n.l1Buffer.GetSize() - 1
 			}
-			val, err := n.l1Buffer.Upper32At(n.l1index)
+			val, err := n.l1Buffer.Upper32At(index)
 			if err != nil {
 				return false, err
 			}
+			n.l1index = index
+			n.context[0] = 1
 			n.context[1] = val
 			return true, nil
 		}
@@ -79,31 +79,32 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if err != nil {
 				return false, err
 			}
-			n.l2lower = lower
-			if n.l2lower == -1 {
+			first := lower
+			if first == -1 {
 				return false, nil
 			}
-			n.context[0] = 2
-			n.l2upper = int32(n.l2Buffer.GetSize() - 1)
+			last := int32(n.l2Buffer.GetSize() - 1)
 			for i := n.l1index + 1; i < n.l1Buffer.GetSize(); i++ {
 				lower, err = n.l1Buffer.Lower32At(i)
 				if err != nil {
 					return false, err
 				}
 				if uint32(lower) != uint32(0xffffffff) {
-					n.l2upper = lower - 1
+					last = lower - 1
 					break
 				}
 			}
-			if dir == FirstChild {
-				n.l2index = int(n.l2lower)
-			} else {
-				n.l2index = int(n.l2upper)
+			index := first
+			if dir == LastChild {
+				index = last
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l2Buffer.Upper32At(int(index))
 			if err != nil {
 				return false, err
 			}
+			n.l2lower, n.l2upper = first, last
+			n.l2index = int(index)
+			n.context[0] = 2
 			n.context[2] = upper
 			return true, nil
 		}
@@ -113,31 +114,32 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if err != nil {
 				return false, err
 			}
-			n.l3lower = lower
-			if n.l3lower == -1 {
-				return false, err
+			first := lower
+			if first == -1 {
+				return false, nil
 			}
-			n.context[0] = 3
-			n.l3upper = int32(n.l3Buffer.GetSize() - 1)
+			last := int32(n.l3Buffer.GetSize() - 1)
 			for i := n.l2index + 1; i < n.l2Buffer.GetSize(); i++ {
 				lower, err = n.l2Buffer.Lower32At(i)
 				if err != nil {
 					return false, err
 				}
 				if uint32(lower) != uint32(0xffffffff) {
-					n.l3upper = lower - 1
+					last = lower - 1
 					break
 				}
 			}
-			if dir == FirstChild {
-				n.l3index = int(n.l3lower)
-			} else {
-				n.l3index = int(n.l3upper)
+			index := first
+			if dir == LastChild {
+				index = last
 			}
-			upper, err := n.l3Buffer.Upper32At(n.l3index)
+			upper, err := n.l3Buffer.Upper32At(int(index))
 			if err != nil {
 				return false, err
 			}
+			n.l3lower, n.l3upper = first, last
+			n.l3index = int(index)
+			n.context[0] = 3
 			n.context[3] = upper
 			return true, nil
 		}
@@ -214,61 +216,67 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 		return false, nil
 	case 1:
 		{
+			index := n.l1index
 			if dir == NextSibling {
 				if n.l1index+1 >= n.l1Buffer.GetSize() {
 					return false, nil
 				}
-				n.l1index++
+				index++
 			} else {
 				if n.l1index-1 < 0 {
 					return false, nil
 				}
-				n.l1index--
+				index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l1Buffer.Upper32At(index)
 			if err != nil {
 				return false, err
 			}
+			n.l1index = index
 			n.context[1] = upper
 			return true, nil
 		}
 	case 2:
 		{
+			index := n.l2index
 			if dir == NextSibling {
 				if n.l2index+1 > int(n.l2upper) {
 					return false, nil
 				}
-				n.l2index++
+				index++
 			} else {
 				if n.l2index-1 < int(n.l2lower) {
 					return false, nil
 				}
-				n.l2index--
+				index--
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l2Buffer.Upper32At(index)
 			if err != nil {
 				return false, err
 			}
+			n.l2index = index
 			n.context[2] = upper
 			return true, nil
 		}
 	case 3:
 		{
+			index := n.l3index
 			if dir == NextSibling {
 				if n.l3index+1 > int(n.l3upper) {
 					return false, nil
 				}
-				n.l3index++
+				index++
 			} else {
 				if n.l3index-1 < int(n.l3lower) {
 					return false, nil
 				}
-				n.l3index--
+				index--
 			}
-			upper, err := n.l3Buffer.Upper32At(n.l3index)
+			upper, err := n.l3Buffer.Upper32At(index)
 			if err != nil {
 				return false, err
 			}
+			n.l3index = index
 			n.context[3] = upper
 			return true, nil
 		}
-- 
2.43.0


From f88ff20618a3b89eaff11cf45b04ab00ad440ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 39/50] fix: sum the lengths of exactly the tokens that
 continue a text

---
 vtdxml/navigation/common.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..0b6d665 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,32 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
-
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
-				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
-
+			// consecutive tokens that continue each other carry one text
+			var tokenTypeNew, tokenOffsetNew, tokenDepthNew, offset int32
+			for i := index; i < n.vtdBuffer.GetSize(); i++ {
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
-
+				tokenTypeNew, forErr = n.GetTokenType(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				tokenDepthNew, forErr = n.GetTokenDepth(i)
+				if forErr != nil {
+					return 0, forErr
+				}
 				tokenOffsetNew, forErr = n.GetTokenOffset(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
+				if i > index && (depth != tokenDepthNew ||
+					tokenType != tokenTypeNew ||
+					offset != tokenOffsetNew) {
+					break
+				}
+				length += (uint64(val) & common.MaskTokenFullLength) >> 32
+				offset = tokenOffsetNew + int32((uint64(val)&common.MaskTokenFullLength)>>32)
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From 3caae9969714c341e1c9c480262b1872d3d98530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:46 +0000
Subject: [PATCH 40/50] fix: resolve references in extracted text

---
 vtdxml/navigation/get_char_resolved.go | 45 ++++++++++++++++++++------
 vtdxml/navigation/to_string.go         | 24 ++++++++++----
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..b7e006e 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,29 +1,34 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character or byte at the offset with
+// references resolved and the number of bytes the reference occupies. The
+// number is zero when there is no reference at the offset
+func (n *VtdNav) getCharResolved(offset int) (uint32, int, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	if ch != '&' {
-		return uint32(ch), nil
+	if uint32(ch) != '&' {
+		return uint32(ch), 0, nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
 	offset++
 	inc, val, err := n.resolveEntity(offset, ch2)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return val, int(inc), nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
@@ -50,6 +55,7 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			inc = 2
 			if ch2 == 'x' {
+				inc++
 				for {
 					offset++
 					inc++
@@ -68,8 +74,12 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
+				inc++
 				for {
 					if ch2 >= '0' && ch2 <= '9' {
 						value = value*10 + (ch2 - '0')
@@ -78,6 +88,11 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
+					offset++
+					inc++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
@@ -96,6 +111,7 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			if err != nil {
 				return 0, 0, err
 			}
+			offset++
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
 				if err := checkSeq(offset, "p;"); err != nil {
@@ -185,9 +201,12 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 	case common.FormatAscii:
 		{
 			if b == '\r' {
+				if offset+1 >= n.xmlBuffer.GetSize() {
+					return uint64(int('\n') | (1 << 32)), nil
+				}
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
@@ -201,9 +220,12 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 	case common.FormatIso88591:
 		{
 			if b == '\r' {
+				if offset+1 >= n.xmlBuffer.GetSize() {
+					return uint64(int('\n') | (1 << 32)), nil
+				}
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
@@ -217,9 +239,12 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 	case common.FormatUtf8:
 		{
 			if b == '\r' {
+				if offset+1 >= n.xmlBuffer.GetSize() {
+					return uint64(int('\n') | (1 << 32)), nil
+				}
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..25318b7 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
@@ -29,13 +30,22 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getCharResolved(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; i++ {
+		ch, inc, err := n.getCharResolved(i)
 		if err != nil {
 			return "", err
 		}
-		buffer.WriteByte(byte(ch))
+		if inc == 0 {
+			buffer.WriteByte(byte(ch))
+			continue
+		}
+		// continue after the reference, it has to end within the range
+		if i+inc > endOffset {
+			return "", erroring.NewEntityError(erroring.IllegalBuiltInEntity)
+		}
+		buffer.WriteRune(rune(ch))
+		i += inc - 1
 	}
 
 	return buffer.String(), nil
@@ -72,9 +82,9 @@ func (n *VtdNav) ToRawStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getChar(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; i++ {
+		ch, err := n.getChar(i)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 0e831044599f2008cbddec6c453d2394955e939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:46 +0000
Subject: [PATCH 41/50] fix: construct navigation errors as such

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From 2eaccf8ff3f9e80bd175cce4c78ed0045c31ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 42/50] fix: reject documents whose token offsets do not fit
 into 30 bits

---
 vtdxml/parser/common.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7580479..36528ec 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -451,8 +451,9 @@ func (p *VtdParser) decideEncoding() error {
 				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		} else {
-			if (p.offset + p.docLength) >= 1<<31 {
-				return erroring.NewInternalError("file size too big >= 2GB", nil)
+			// token offsets have 30 bits
+			if (p.offset + p.docLength) >= 1<<30 {
+				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		}
 	} else {
-- 
2.43.0


From 8635fe93307dc290edf010bb3f39170992d054cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 43/50] verif hooks: remember character class look-ups in
 simulator builds

---
 vtdxml/common/verif_off.go | 14 ++++++++
 vtdxml/common/verif_on.go  | 65 ++++++++++++++++++++++++++++++++++++++
 vtdxml/common/xml_char.go  |  6 ++++
 3 files changed, 85 insertions(+)
 create mode 100644 vtdxml/common/verif_off.go
 create mode 100644 vtdxml/common/verif_on.go

diff --git a/vtdxml/common/verif_off.go b/vtdxml/common/verif_off.go
new file mode 100644
index 0000000..29fc6ac
--- /dev/null
+++ b/vtdxml/common/verif_off.go
@@ -0,0 +1,14 @@
+//go:build !verif
+// +build !verif
+
+package common
+
+// verifSharedXmlChar and verifExists do nothing unless the simulator's build
+// tag is set
+func verifSharedXmlChar() *XmlChar {
+	return nil
+}
+
+func verifExists(*XmlChar, []uint32, uint32) (found, known bool) {
+	return false, false
+}
diff --git a/vtdxml/common/verif_on.go b/vtdxml/common/verif_on.go
new file mode 100644
index 0000000..ee1287a
--- /dev/null
+++ b/vtdxml/common/verif_on.go
@@ -0,0 +1,65 @@
+//go:build verif
+// +build verif
+
+package common
+
+// VerifCache lets the simulator, which runs one task at a time, build the
+// character tables once and remember what the real look-up in them answered.
+// With the cache off nothing differs from a build without the tag.
+var VerifCache bool
+
+var verifState struct {
+	xmlChar  *XmlChar
+	building bool
+	scanning bool
+	tables   []verifTable
+}
+
+type verifTable struct {
+	first *uint32
+	size  int
+	known []uint8
+}
+
+//go:norace
+func verifSharedXmlChar() *XmlChar {
+	s := &verifState
+	if !VerifCache || s.building {
+		return nil
+	}
+	if s.xmlChar == nil {
+		s.building = true
+		s.xmlChar = NewXmlChar()
+		s.building = false
+	}
+	return s.xmlChar
+}
+
+//go:norace
+func verifExists(x *XmlChar, arr []uint32, ch uint32) (found, known bool) {
+	s := &verifState
+	if !VerifCache || s.scanning || x != s.xmlChar || len(arr) == 0 || ch > 0x110000 {
+		return false, false
+	}
+	var t *verifTable
+	for i := range s.tables {
+		if s.tables[i].first == &arr[0] && s.tables[i].size == len(arr) {
+			t = &s.tables[i]
+			break
+		}
+	}
+	if t == nil {
+		s.tables = append(s.tables, verifTable{first: &arr[0], size: len(arr), known: make([]uint8, 0x110001)})
+		t = &s.tables[len(s.tables)-1]
+	}
+	if t.known[ch] == 0 {
+		s.scanning = true
+		found = x.exists(arr, ch)
+		s.scanning = false
+		t.known[ch] = 1
+		if found {
+			t.known[ch] = 2
+		}
+	}
+	return t.known[ch] == 2, true
+}
diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 167f8be..6da872e 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -10,6 +10,9 @@ type XmlChar struct {
 }
 
 func NewXmlChar() *XmlChar {
+	if x := verifSharedXmlChar(); x != nil {
+		return x
+	}
 	x := &XmlChar{
 		validCharSlice:     make([]uint32, 0),
 		spaceCharSlice:     make([]uint32, 0),
@@ -89,6 +92,9 @@ func (x *XmlChar) IsContentChar(ch uint32) bool {
 }
 
 func (x *XmlChar) exists(arr []uint32, ch uint32) bool {
+	if found, known := verifExists(x, arr, ch); known {
+		return found
+	}
 	for _, i := range arr {
 		if i == ch {
 			return true
-- 
2.43.0


From c26a0e313d1cd10d710eb6ce36c263071b36a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 44/50] fix: refuse control characters that no XML document may
 contain

---
 vtdxml/common/xml_char.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 6da872e..751eb20 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -23,7 +23,7 @@ func NewXmlChar() *XmlChar {
 	}
 
 	// Set all valid characters
-	rangeSlice := [][]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
+	rangeSlice := [][]uint32{{0x9, 0xA}, {0xD, 0xD}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
 	for _, i := range rangeSlice {
 		for j := i[0]; j <= i[1]; j++ {
 			// exclude surrogate blocks, 0xFFFE and 0xFFFF
-- 
2.43.0


From 35804ab4a8606715eb853fb09303309a004164d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 45/50] fix: tell the reserved prefixes apart from other
 prefixes by their whole length

In a single byte encoding every undeclared prefix of seven characters that
starts with xml passed as the xml prefix, and every declared prefix of ten
characters that starts with xmlns was refused as the xmlns prefix.
---
 vtdxml/parser/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 36528ec..74323a6 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -494,7 +494,11 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		if p.encoding < common.FormatUtf16BE {
+			valid = length == 4
+		} else {
+			valid = length == 8
+		}
 	}
 	return valid
 }
@@ -535,7 +539,11 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		if p.encoding < common.FormatUtf16BE {
+			valid = length == 5
+		} else {
+			valid = length == 10
+		}
 	}
 	return valid
 }
-- 
2.43.0


From 374afed55927c7900bd9c1bf31f73f0860bbdfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 46/50] Hook: keep the character tables on return instead of
 calling the constructor again

---
 vtdxml/common/verif_off.go |  4 +++-
 vtdxml/common/verif_on.go  | 16 ++++++++--------
 vtdxml/common/xml_char.go  |  1 +
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/vtdxml/common/verif_off.go b/vtdxml/common/verif_off.go
index 29fc6ac..76ff5b1 100644
--- a/vtdxml/common/verif_off.go
+++ b/vtdxml/common/verif_off.go
@@ -3,12 +3,14 @@
 
 package common
 
-// verifSharedXmlChar and verifExists do nothing unless the simulator's build
+// verifSharedXmlChar, verifKeepXmlChar and verifExists do nothing unless the simulator's build
 // tag is set
 func verifSharedXmlChar() *XmlChar {
 	return nil
 }
 
+func verifKeepXmlChar(*XmlChar) {}
+
 func verifExists(*XmlChar, []uint32, uint32) (found, known bool) {
 	return false, false
 }
diff --git a/vtdxml/common/verif_on.go b/vtdxml/common/verif_on.go
index ee1287a..ecf1033 100644
--- a/vtdxml/common/verif_on.go
+++ b/vtdxml/common/verif_on.go
@@ -10,7 +10,6 @@ var VerifCache bool
 
 var verifState struct {
 	xmlChar  *XmlChar
-	building bool
 	scanning bool
 	tables   []verifTable
 }
@@ -23,16 +22,17 @@ type verifTable struct {
 
 //go:norace
 func verifSharedXmlChar() *XmlChar {
-	s := &verifState
-	if !VerifCache || s.building {
+	if !VerifCache {
 		return nil
 	}
-	if s.xmlChar == nil {
-		s.building = true
-		s.xmlChar = NewXmlChar()
-		s.building = false
+	return verifState.xmlChar
+}
+
+//go:norace
+func verifKeepXmlChar(x *XmlChar) {
+	if VerifCache && verifState.xmlChar == nil {
+		verifState.xmlChar = x
 	}
-	return s.xmlChar
 }
 
 //go:norace
diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 751eb20..0897874 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -68,6 +68,7 @@ func NewXmlChar() *XmlChar {
 		x.specialCharSlice = append(x.specialCharSlice, i)
 	}
 
+	verifKeepXmlChar(x)
 	return x
 }
 
-- 
2.43.0


From 63c9ac0e79ddc81a253dac8f75230c06d1eeb941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:42 +0000
Subject: [PATCH 47/50] fix: do not count the byte order mark twice in the size
 limit

---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 74323a6..9dc3295 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -447,12 +447,12 @@ func (p *VtdParser) decideEncoding() error {
 
 	if p.encoding < common.FormatUtf16BE {
 		if p.nsAware {
-			if (p.offset + p.docLength) >= 1<<30 {
+			if p.endOffset >= 1<<30 {
 				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		} else {
 			// token offsets have 30 bits
-			if (p.offset + p.docLength) >= 1<<30 {
+			if p.endOffset >= 1<<30 {
 				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		}
-- 
2.43.0


From 2cb64a0c719266cf5bc2e715fa3ed4b08147789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:27 +0000
Subject: [PATCH 48/50] fix: compare namespace names after white space
 normalisation

A namespace name written with a line break or tab is the same as the one
written with a space, so attributes under both prefixes collide.
---
 vtdxml/parser/process_attr_val.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index daf388f..c4b167d 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -300,7 +300,12 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		return 0, err
 	}
 	ch := int32(ch64)
-	if ch != '&' {
+	switch ch {
+	case '&':
+	case '\t', '\n', '\r':
+		// white space in attribute values is normalised to a space
+		return int64(ch64>>32<<32 | ' '), nil
+	default:
 		return int64(ch64), nil
 	}
 	offset += p.increment
-- 
2.43.0


From 8936429f7a4d13a3f1ab3571fd3ed7eb0952225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:46 +0000
Subject: [PATCH 49/50] fix: accept brackets in literals, comments and
 processing instructions of a DOCTYPE

A '>' in an entity value or a comment of the internal subset ended the
declaration too early, so that well-formed documents were refused.
---
 vtdxml/parser/process_doc_type.go | 41 +++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 596168d..98f0e4e 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -8,17 +8,27 @@ import (
 func (p *VtdParser) processDocType() (State, error) {
 	z := 1
 	for {
-		ch, err := p.getChar()
+		ch, err := p.getDtdChar()
 		if err != nil {
 			return StateInvalid, err
 		}
-		if !p.xmlChar.IsValidChar(ch) {
-			return StateInvalid, erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
-		}
 		if ch == '>' {
 			z--
 		} else if ch == '<' {
-			z++
+			// brackets and quotes in comments and processing instructions
+			// have no meaning
+			if p.skipCharSeq("!--") {
+				err = p.skipDtdUntil("-->")
+			} else if p.skipChar('?') {
+				err = p.skipDtdUntil("?>")
+			} else {
+				z++
+			}
+		} else if ch == '"' || ch == '\'' {
+			err = p.skipDtdUntil(string(rune(ch)))
+		}
+		if err != nil {
+			return StateInvalid, err
 		}
 
 		if z == 0 {
@@ -38,3 +48,24 @@ func (p *VtdParser) processDocType() (State, error) {
 	}
 	return StateLtSeen, nil
 }
+
+func (p *VtdParser) getDtdChar() (uint32, error) {
+	ch, err := p.getChar()
+	if err != nil {
+		return 0, err
+	}
+	if !p.xmlChar.IsValidChar(ch) {
+		return 0, erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
+	}
+	return ch, nil
+}
+
+// skipDtdUntil function skips everything up to and including the sequence
+func (p *VtdParser) skipDtdUntil(seq string) error {
+	for !p.skipCharSeq(seq) {
+		if _, err := p.getDtdChar(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 98c549a5268cfc6380e81cf01fe7d9c0d2373999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:52 +0000
Subject: [PATCH 50/50] fix: compare the names of ASCII encodings without
 regard to case

---
 vtdxml/parser/process_dec_attr_name.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 70097fb..32b4d4f 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -247,7 +247,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 }
 
 func (p *VtdParser) checkAsciiEncoding() error {
-	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
+	if !p.skipCharSeqIgnoreCase(ascii[1:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
 	if !p.singleByteEncoding || p.mustUtf8 {
@@ -266,7 +266,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 }
 
 func (p *VtdParser) checkUsAsciiEncoding() error {
-	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
+	if !p.skipCharSeqIgnoreCase(usAscii[2:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
 	if !p.singleByteEncoding || p.mustUtf8 {
-- 
2.43.0

