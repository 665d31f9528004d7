From 482e56b005f89648157c934cfde826073fb5d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:00 +0000
Subject: [PATCH 01/12] fix: keep as_queue contents when growing the storage
 fails

---
 src/main/aerospike/as_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..46f9f98 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -75,11 +75,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! tmp) {
 				return false;
 			}
+			queue->data = tmp;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
-- 
2.43.0


From db3a6062df552fe69d169bb60aa153f348465a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:59 +0000
Subject: [PATCH 02/12] fix: compute base64 decoded buffer size without 32-bit
 overflow

---
 src/include/citrusleaf/cf_b64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/citrusleaf/cf_b64.h b/src/include/citrusleaf/cf_b64.h
index fd7039b..95f70e1 100644
--- a/src/include/citrusleaf/cf_b64.h
+++ b/src/include/citrusleaf/cf_b64.h
@@ -42,7 +42,7 @@ void cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out);
 static inline uint32_t
 cf_b64_decoded_buf_size(uint32_t in_len)
 {
-	return (in_len * 3) >> 2;
+	return (uint32_t)(((uint64_t)in_len * 3) >> 2);
 }
 
 void cf_b64_decode(const char* in, uint32_t in_len, uint8_t* out, uint32_t* out_size);
-- 
2.43.0


From 739c381aad98478b8031d396743e6519cee656a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 03/12] fix: reject packed str, bin and ext lengths beyond the
 input

A length close to 2^32 made the 32-bit end offset wrap around, so that
as_unpack_str, as_unpack_bin and as_unpack_ext accepted content that extends
past the end of the input.
---
 src/main/aerospike/as_msgpack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..0cb1426 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2233,14 +2233,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (*sz_r > pk->length - pk->offset) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
@@ -2299,7 +2299,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (pk->length - pk->offset <= ext->size) {
 		return -4;
 	}
 
-- 
2.43.0


From c539d53e6ca294eca9c478fee1e36eca96e840f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 04/12] fix: check for end of input when unpacking booleans and
 nil

---
 src/main/aerospike/as_msgpack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 0cb1426..b73b4e3 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2015,6 +2015,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2028,6 +2032,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
-- 
2.43.0


From 8d74fa1bf889ced6ed1396007dc6a0e80e5e8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 05/12] fix: do not peek at blob and ext types beyond the input

as_unpack_peek_type read the type byte of a blob or ext without checking that
the input has it. For an empty blob it reported the type of the following
value's first byte.
---
 src/main/aerospike/as_msgpack.c | 45 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b73b4e3..9bbfd14 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1664,6 +1664,26 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+/**
+ * The type of a blob is its first byte. An empty blob has no type byte.
+ */
+static as_val_t
+peek_blob_type(const as_unpacker *pk)
+{
+	as_unpacker peek = *pk;
+	int64_t size = as_unpack_blob_size(&peek);
+
+	if (size == 0) {
+		return AS_BYTES;
+	}
+
+	if (size < 0 || peek.offset >= peek.length) {
+		return AS_UNDEF;
+	}
+
+	return bytes_internal_type_to_as_val_t(peek.buffer[peek.offset]);
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1696,22 +1716,12 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xd9: // string/raw bytes with 8 bit header
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xda: // string/raw bytes with 16 bit header
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return peek_blob_type(pk);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1722,6 +1732,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (pk->length - pk->offset < 3) {
+			return AS_UNDEF;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1748,8 +1762,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return peek_blob_type(pk);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 7377f1c65bcbe0d211547382ab4dfa35d356f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 06/12] fix: check for truncated input when unpacking values

as_unpack_val read numbers, lengths and contents without checking that the
input still has them. Element counts larger than the rest of the input were
used to size the allocation.
---
 src/main/aerospike/as_msgpack.c | 76 ++++++++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 9bbfd14..dd0185b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -889,6 +889,55 @@ extract_double(as_unpacker *pk)
 	return *(double*)&swapped;
 }
 
+/**
+ * Number of bytes that follow the type byte of every value of that type, not
+ * counting the content whose size is given by a length field.
+ */
+static inline uint32_t
+msgpack_fixed_size(uint8_t type)
+{
+	switch (type) {
+	case 0xc4:
+	case 0xd9:
+	case 0xcc:
+	case 0xd0:
+		return 1;
+	case 0xc5:
+	case 0xda:
+	case 0xcd:
+	case 0xd1:
+	case 0xdc:
+	case 0xde:
+	case 0xc7:
+	case 0xd4:
+		return 2;
+	case 0xc8:
+	case 0xd5:
+		return 3;
+	case 0xc6:
+	case 0xdb:
+	case 0xca:
+	case 0xce:
+	case 0xd2:
+	case 0xdd:
+	case 0xdf:
+		return 4;
+	case 0xc9:
+	case 0xd6:
+		return 5;
+	case 0xcb:
+	case 0xcf:
+	case 0xd3:
+		return 8;
+	case 0xd7:
+		return 9;
+	case 0xd8:
+		return 17;
+	default:
+		return 0;
+	}
+}
+
 static inline int
 unpack_nil(as_val **v)
 {
@@ -942,6 +991,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (size > pk->length - pk->offset) {
+		return -5;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1011,6 +1064,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 		size--;
 	}
 
+	// Every element takes at least one byte.
+	if (size > pk->length - pk->offset) {
+		return -4;
+	}
+
 	as_arraylist *list = as_arraylist_new(size, 8);
 
 	if (! list) {
@@ -1130,6 +1188,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 		ele_count--;
 	}
 
+	// Every key and value takes at least one byte.
+	if (ele_count > (pk->length - pk->offset) / 2) {
+		return -2;
+	}
+
 	// Check preserve order bit.
 	if ((flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER) != 0) {
 		return unpack_map_create_list(pk, ele_count, val);
@@ -1142,13 +1205,24 @@ int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
+		if (as_unpack_size(pk) < 0) {
+			return -1;
+		}
+
 		*val = NULL;
 		return 0;
 	}
 
+	if (pk->offset >= pk->length) {
+		return -3;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < msgpack_fixed_size(type)) {
+		return -4;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
-- 
2.43.0


From b5e62ac45dd34c56d535a39c317212a8be547a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 07/12] fix: check for truncated input when skipping packed
 values

as_unpack_size moved past the end of the input for truncated values and
computed 32-bit sizes in 32 bits.
---
 src/main/aerospike/as_msgpack.c | 43 ++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index dd0185b..33d652e 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1938,6 +1938,21 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 	return -6;
 }
 
+/**
+ * Skip content whose size is given by a length field.
+ */
+static inline int64_t
+skip_content(as_unpacker *pk, uint32_t header_size, uint32_t size)
+{
+	if (size > pk->length - pk->offset) {
+		return -10;
+	}
+
+	pk->offset += size;
+
+	return (int64_t)header_size + size;
+}
+
 static inline int64_t
 unpack_size_internal(as_unpacker *pk, uint32_t depth)
 {
@@ -1947,6 +1962,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < msgpack_fixed_size(type)) {
+		return -9;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
@@ -1978,22 +1997,19 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return skip_content(pk, 1 + 1, length);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return skip_content(pk, 1 + 2, length);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return skip_content(pk, 1 + 4, length);
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -2049,18 +2065,18 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 		return 1 + 1 + 16;
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		pk->offset++;
+		return skip_content(pk, 1 + 1 + 1, length);
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		pk->offset++;
+		return skip_content(pk, 1 + 2 + 1, length);
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		pk->offset++;
+		return skip_content(pk, 1 + 4 + 1, length);
 	}
 	default:
 		break;
@@ -2068,8 +2084,7 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
 		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return skip_content(pk, 1, length);
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 020f80abb6105e780c9ed5e208104f6bd30d42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:01 +0000
Subject: [PATCH 08/12] fix: do not compare packed blobs beyond the input

When the input ended right after the blob header, the remaining length
wrapped around and the comparison read past the end.
---
 src/main/aerospike/as_msgpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 33d652e..c8556a0 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2576,7 +2576,7 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len <= 0 || pk->offset >= pk->length) {
 		return -1;
 	}
 
-- 
2.43.0


From 13001d2dbf732da50db726b0b6e43693d8125c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:49 +0000
Subject: [PATCH 09/12] fix: check packer room without 32-bit overflow

The sum of the packer's position and a content size close to 2^32 wrapped
around and passed the capacity check.
---
 src/main/aerospike/as_msgpack.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c8556a0..feae179 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -302,7 +302,7 @@ static inline int
 pack_append(as_packer *pk, const unsigned char *src, uint32_t sz, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + sz > pk->capacity) {
+		if (sz > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, sz) != 0) {
 				return -1;
 			}
@@ -317,7 +317,7 @@ static inline int
 pack_byte(as_packer *pk, uint8_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 1 > pk->capacity) {
+		if (1 > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, 1) != 0) {
 				return -1;
 			}
@@ -332,7 +332,7 @@ static inline int
 pack_type_uint8(as_packer *pk, unsigned char type, uint8_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 2 > pk->capacity) {
+		if (2 > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, 2) != 0) {
 				return -1;
 			}
@@ -349,7 +349,7 @@ static inline int
 pack_type_uint16(as_packer *pk, unsigned char type, uint16_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 3 > pk->capacity) {
+		if (3 > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, 3) != 0) {
 				return -1;
 			}
@@ -369,7 +369,7 @@ static inline int
 pack_type_uint32(as_packer *pk, unsigned char type, uint32_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 5 > pk->capacity) {
+		if (5 > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, 5) != 0) {
 				return -1;
 			}
@@ -387,7 +387,7 @@ static inline int
 pack_type_uint64(as_packer *pk, unsigned char type, uint64_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 9 > pk->capacity) {
+		if (9 > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, 9) != 0) {
 				return -1;
 			}
-- 
2.43.0


From 428c497bd03b05dbafd09a8ccc0edfc0815da8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:49 +0000
Subject: [PATCH 10/12] fix: never replace the caller's buffer in as_pack_str
 and as_pack_bytes

The direct pack functions write into the buffer supplied by the caller. These
two packed their header in growing mode, so a full buffer was silently
exchanged for a new heap block.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index feae179..38e1aef 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -476,35 +476,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -521,7 +521,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -537,7 +537,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1428,10 +1428,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1467,7 +1467,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From 52d646cb7ba07b3b37c09c76a65d950fa8d4caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:49 +0000
Subject: [PATCH 11/12] fix: keep the packer's buffer when growing fails

A failed allocation replaced the buffer by NULL. The packed bytes were leaked
and further packing only counted sizes.
---
 src/main/aerospike/as_msgpack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 38e1aef..abb6c52 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -278,11 +278,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *buffer = (unsigned char *)cf_malloc(newcap);
+
+	if (! buffer) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = buffer;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
-- 
2.43.0


From bf57ed5129a5ba75c82985826f55eb00fe74d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:49 +0000
Subject: [PATCH 12/12] fix: report out of memory when joining serialized
 buffers

---
 src/main/aerospike/as_msgpack_serializer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..82955da 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -154,7 +154,9 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 		int offset = 0;
 
 		while (p) {
-			memcpy(target + offset, p->buffer, p->length);
+			if (target) {
+				memcpy(target + offset, p->buffer, p->length);
+			}
 			offset += p->length;
 			
 			as_packer_buffer *tmp = p;
@@ -165,11 +167,17 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 			cf_free(tmp);
 		}
 
-		memcpy(target + offset, packer.buffer, packer.offset);
+		if (target) {
+			memcpy(target + offset, packer.buffer, packer.offset);
+		}
 
 		// Free original main buffer.
 		cf_free(packer.buffer);
 
+		if (! target) {
+			return 1;
+		}
+
 		// Transfer new buffer.
 		buff->data = target;
 		buff->size = size;
-- 
2.43.0

