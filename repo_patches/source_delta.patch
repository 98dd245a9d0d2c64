From f5bc7ab13ac980436aae52c80ca7543b7d9c5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 01/30] fix: return an error for unsupported wiretypes instead
 of jumping to NULL

---
 src/core/stream.c | 2 +-
 src/core/stream.h | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..d69a75f 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -204,7 +204,7 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
diff --git a/src/core/stream.h b/src/core/stream.h
index bdd40bd..039710b 100644
--- a/src/core/stream.h
+++ b/src/core/stream.h
@@ -211,8 +211,10 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 PB_INLINE PB_WARN_UNUSED_RESULT
 pb_error_t
 pb_stream_skip(pb_stream_t *stream, pb_wiretype_t wiretype) {
-  assert(pb_stream_skip_jump[wiretype]);
-  return pb_stream_skip_jump[wiretype](stream);
+  assert(stream);
+  return likely_(pb_stream_skip_jump[wiretype] != NULL)
+    ? pb_stream_skip_jump[wiretype](stream)
+    : PB_ERROR_OFFSET;
 }
 
 #endif /* PB_CORE_STREAM_H */
-- 
2.43.0


From ca34d86a9f72d6486ae55c4d756b056dafefde86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 02/30] fix: never load bytes past the end of the data when
 scanning a varint

---
 src/core/varint.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..03713db 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -481,39 +481,31 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_scan(const uint8_t data[], size_t left) {
   assert(data && left);
-  left = left > 10 ? 10 : left;
-
 #ifdef __SSE2__
 
-  /* Mapping: remaining bytes ==> bitmask */
-  static const int mask_map[] = {
-    0x0000, 0x0001, 0x0003, 0x0007,
-    0x000F, 0x001F, 0x003F, 0x007F,
-    0x00FF, 0x01FF, 0x03FF
-  };
+  /* Only load 128 bits if all of them lie within the buffer */
+  if (left >= sizeof(__m128i)) {
 
-  /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
-  __m128i high = _mm_set1_epi8(0x80);
+    /* Load buffer into 128-bit integer and create high-bit mask */
+    __m128i temp = _mm_loadu_si128((const __m128i *)data);
+    __m128i high = _mm_set1_epi8(0x80);
 
-  /* Intersect and extract mask with high-bits set */
-  int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
-  mask = (mask & mask_map[left]) ^ mask_map[left];
+    /* Intersect and extract mask with high-bits not set */
+    int mask = ~_mm_movemask_epi8(_mm_and_si128(temp, high)) & 0x03FF;
 
-  /* Count trailing zeroes */
-  return mask ? __builtin_ctz(mask) + 1 : 0;
+    /* Count trailing zeroes */
+    return mask ? __builtin_ctz(mask) + 1 : 0;
+  }
 
-#else
+#endif /* __SSE2__ */
 
   /* Linear scan */
+  left = left > 10 ? 10 : left;
   size_t size = 0;
   while (data[size++] & 0x80)
     if (!--left)
       return 0;
   return size;
-
-#endif /* __SSE2__ */
-
 }
 
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From 45c5431d406eab3ba3d9dfb9419f98253a388a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 03/30] fix: check available bytes before unpacking a negative
 32-bit varint

---
 src/core/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 03713db..5afb2e7 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -531,7 +531,7 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 4e5dbf6ade31e832a19596821eaed89a498f991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 04/30] fix: use constant stack space for values while decoding

---
 src/core/decoder.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..17161fc 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -20,7 +20,6 @@
  * IN THE SOFTWARE.
  */
 
-#include <alloca.h>
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -105,8 +104,11 @@ pb_decoder_decode(
     }
 
     /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
+    union {
+      uint64_t integer;
+      pb_string_t string;
+    } temp;
+    void *value = &temp;
 
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
-- 
2.43.0


From 03ca3e787d45039d1c2b396b33e1d523d19b5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 05/30] fix: do not decode packed values past the end of the
 packed field

---
 src/core/decoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 17161fc..16070ed 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -126,7 +126,9 @@ pb_decoder_decode(
       /* Iterate values of packed field */
       while (!error && pb_stream_offset(&stream) < offset + length)
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+          error = pb_stream_offset(&stream) <= offset + length
+            ? handler(descriptor, value, user)
+            : PB_ERROR_OFFSET;
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From 04e04b70fc096b08e6820487b86beadf39545f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 06/30] fix: stop encoding at the first error and keep the
 encoder's buffer intact

---
 src/core/encoder.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..d66d5d3 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -122,6 +122,8 @@ encode_length(
   /* Extract data and size according to type */
   const uint8_t *string; uint32_t length;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
+    if (unlikely_(!pb_encoder_valid(value)))
+      return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
     length = pb_buffer_size(pb_encoder_buffer(value));
   } else {
@@ -365,6 +367,7 @@ pb_encoder_encode(
   if (unlikely_(!pb_encoder_valid(encoder)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
+  size_t before = encoder->buffer.size;
 
   /* Assert descriptor and correct label */
   const pb_field_descriptor_t *descriptor =
@@ -382,11 +385,15 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
   }
+
+  /* Remove partially encoded values on error */
+  if (unlikely_(error))
+    encoder->buffer.size = before;
   return error;
 }
-- 
2.43.0


From 5c9ec4148d073cbbcaee55b83aa2e39f1191ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 07/30] fix: reserve space for extension tags in the
 validator's occurrence counter

---
 src/util/validator.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..00cbfd5 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -45,6 +45,7 @@ check(
 typedef struct pb_validator_tags_t {
   pb_tag_t *data;                      /*!< Tags */
   size_t size;                         /*!< Tag count */
+  size_t capacity;                     /*!< Maximum tag count */
 } pb_validator_tags_t;
 
 /* ----------------------------------------------------------------------------
@@ -69,7 +70,7 @@ handler(
   for (size_t t = 0; miss && t < tags->size; ++t)
     if (tags->data[t] == pb_field_descriptor_tag(descriptor))
       miss = 0;
-  if (miss)
+  if (miss && tags->size < tags->capacity)
     tags->data[tags->size++] = pb_field_descriptor_tag(descriptor);
 
   /* In case of submessage, perform recursive check */
@@ -93,11 +94,17 @@ check(const pb_decoder_t *decoder) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
 
+  /* Extension fields are decoded as well, so reserve space for their tags */
+  size_t capacity = 0;
+  const pb_descriptor_t *descriptor = pb_decoder_descriptor(decoder);
+  for (; descriptor; descriptor = pb_descriptor_extension(descriptor))
+    capacity += pb_descriptor_size(descriptor);
+
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t)
-          * pb_descriptor_size(pb_decoder_descriptor(decoder))),
-    .size = 0
+    .data     = alloca(sizeof(pb_tag_t) * capacity),
+    .size     = 0,
+    .capacity = capacity
   };
 
   /* Count occurrences using the given decoder */
-- 
2.43.0


From b64a0b227a446529c7112d7612adbe0b4d7a140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 08/30] fix: find enum values in enums with negative numbers

---
 src/core/descriptor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..05701e4 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,8 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning Enum values may be negative, so in contrast to the approach taken in
+ * pb_descriptor_field_by_tag(), numbers can't be used to limit the search.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +172,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From 0547f839c251f5b0755e697ff088bbc1eb73f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 09/30] fix: let descriptor iterators reach the end of
 single-element descriptors

---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From 6eccdfc35f0d1a3aa83165761452a3b073915569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 10/30] fix: only hide a oneof member if a later member of the
 same oneof is set

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..1429674 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -224,7 +224,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From c73d541c829a469306e0f42a431f1432d99481f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 11/30] fix: strings of different sizes are not equal

---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..acde32b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From e388948c43d7bd75bca56ceafd517f9a9fa76127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 12/30] fix: do not trip an assertion when initializing an
 empty string

---
 include/protobluff/core/string.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index acde32b..593028b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -67,7 +67,11 @@ pb_string_init(uint8_t data[], size_t size) {
  */
 PB_INLINE pb_string_t
 pb_string_init_empty(void) {
-  return pb_string_init(NULL, 0);
+  pb_string_t string = {
+    .data = NULL,
+    .size = 0
+  };
+  return string;
 }
 
 /*!
-- 
2.43.0


From d38d4fea1a345cc8a1e46701a729cd33d0959887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 13/30] fix: report failure to grow a chunk and never reuse a
 destroyed chunk list

---
 src/util/chunk_allocator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..3811f36 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,10 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+
+      /* It's not for you, mate */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
@@ -254,5 +257,6 @@ pb_chunk_allocator_destroy(pb_allocator_t *allocator) {
       free(head);
     }
     free(base);
+    allocator->data = NULL;
   }
 }
-- 
2.43.0


From 572cb43d2181133e258a04551c9c28ade6257768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 14/30] fix: define pb_cursor_last, which is exported but does
 not exist

---
 src/message/cursor.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1429674..fda73d6 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -355,6 +355,24 @@ pb_cursor_rewind(pb_cursor_t *cursor) {
   return pb_cursor_valid(cursor);
 }
 
+/*!
+ * Move a cursor to the last occurrence of a field.
+ *
+ * \param[in,out] cursor Cursor
+ * \return               Test result
+ */
+extern int
+pb_cursor_last(pb_cursor_t *cursor) {
+  assert(cursor);
+  pb_cursor_t temp = pb_cursor_copy(cursor);
+  while (pb_cursor_next(&temp)) {
+    pb_cursor_destroy(cursor);
+    *cursor = pb_cursor_copy(&temp);
+  }
+  pb_cursor_destroy(&temp);
+  return pb_cursor_valid(cursor);
+}
+
 /*!
  * Seek a cursor from its current position to a field containing the value.
  *
-- 
2.43.0


From 5807ac5ebdf804b51c3e7c4f6d8eb74a15423eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 15/30] fix: return errors encountered while clearing a oneof

---
 src/message/oneof.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/message/oneof.c b/src/message/oneof.c
index ed43417..61044d9 100644
--- a/src/message/oneof.c
+++ b/src/message/oneof.c
@@ -101,5 +101,8 @@ pb_oneof_clear(pb_oneof_t *oneof) {
         error = pb_cursor_erase(&(oneof->cursor));
     } while (!error && pb_cursor_next(&(oneof->cursor)));
   }
+  if (!error && (error = pb_cursor_error(&(oneof->cursor))))
+    if (error == PB_ERROR_INVALID || error == PB_ERROR_EOM)
+      error = PB_ERROR_NONE;
   return error;
 }
-- 
2.43.0


From e7b06c2f6e50423ad1f9594c6f377538881128d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 16/30] fix: do not create a oneof member if another member
 cannot be erased

---
 src/message/part.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..fabe6d0 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -382,19 +382,19 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
-                break;                                     /* LCOV_EXCL_LINE */
-          } while (pb_cursor_next(&temp));
+              error = pb_cursor_erase(&temp);
+          } while (!error && pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-          if (pb_message_align(message))
+          if (error || pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
         }
 
-- 
2.43.0


From d1fafacc041bc633e8de3bd8198b61ca67925b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 17/30] fix: erasing a field of an absent nested message is not
 an error

---
 src/message/nested.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..9f716b7 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -217,7 +217,10 @@ pb_message_nested_erase(
 
   /* Use cursor to omit field creation */
   pb_cursor_t cursor = resolve(message, tags, --size);
-  if (pb_cursor_valid(&cursor)) {
+  if (unlikely_(!pb_cursor_valid(&cursor))) {
+    if ((error = pb_cursor_error(&cursor)) == PB_ERROR_EOM)
+      error = PB_ERROR_NONE;
+  } else {
     pb_message_t submessage = pb_message_create_from_cursor(&cursor);
     error = pb_message_erase(&submessage, tags[size]);
     pb_message_destroy(&submessage);
-- 
2.43.0


From f952ed988e680ae74c2ff799179c510565251c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 18/30] fix: check nested tags against the descriptor of the
 message they belong to

---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 9f716b7..868b810 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From cff233ec097c239d1431235114666be06dab0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 19/30] fix: align the packed context of a cursor if and only
 if it is inside of one

---
 src/message/cursor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index fda73d6..8ef8d90 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -566,8 +566,7 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_version_t version = pb_cursor_version(cursor);
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
+    if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.packed));
-- 
2.43.0


From fe11722e83c8f5023f10f8bbf8ba757286eeef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 20/30] fix: do not unpack a varint when no byte is left in the
 stream

Reading or skipping a varint or a length prefix at the very end of a buffer
passed zero remaining bytes to the varint functions, which require at least
one and read one byte past the end.
---
 src/core/stream.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index d69a75f..614221b 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,9 +45,10 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
-  size_t size = pb_varint_unpack(type,
+  size_t left = pb_stream_left(stream);
+  size_t size = left ? pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
-    pb_stream_left(stream), value);
+    left, value) : 0;
   return likely_(size != 0)
     ? pb_stream_advance(stream, size)
     : PB_ERROR_VARINT;
@@ -83,9 +84,10 @@ static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
   uint32_t length = 0;
-  size_t size = pb_varint_unpack_uint32(
+  size_t left = pb_stream_left(stream);
+  size_t size = left ? pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-    pb_stream_left(stream), &length);
+    left, &length) : 0;
   if (likely_(size != 0)) {
     *(pb_string_t *)value = pb_string_init(
       pb_buffer_data_from(stream->buffer,
@@ -126,9 +128,10 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
-  size_t size = pb_varint_scan(
+  size_t left = pb_stream_left(stream);
+  size_t size = left ? pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
-    pb_stream_left(stream));
+    left) : 0;
   return likely_(size != 0)
     ? pb_stream_advance(stream, size)
     : PB_ERROR_VARINT;
@@ -156,9 +159,10 @@ static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
   uint32_t length = 0;
-  size_t size = pb_varint_unpack_uint32(
+  size_t left = pb_stream_left(stream);
+  size_t size = left ? pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-    pb_stream_left(stream), &length);
+    left, &length) : 0;
   return likely_(size != 0)
     ? pb_stream_advance(stream, size + length)
     : PB_ERROR_VARINT;
-- 
2.43.0


From 59570a95f2436abd6e7c6eb4aa019a38bca948ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 21/30] fix: accept only complete ten byte encodings of
 negative 32-bit integers

---
 src/core/varint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 5afb2e7..8d45b60 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -531,7 +531,8 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF && data[6] == 0xFF &&
+    data[7] == 0xFF && data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 84bfed513f5b2f4d3ae6f7fac7f8461cde1e3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 22/30] fix: drop declaration of pb_message_check which was
 replaced by the validator

---
 include/protobluff/message/message.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/protobluff/message/message.h b/include/protobluff/message/message.h
index 0f64b16..ac1049e 100644
--- a/include/protobluff/message/message.h
+++ b/include/protobluff/message/message.h
@@ -85,10 +85,6 @@ PB_EXPORT void
 pb_message_destroy(
   pb_message_t *message);              /* Message */
 
-PB_EXPORT pb_error_t
-pb_message_check(
-  const pb_message_t *message);        /* Message */
-
 PB_EXPORT int
 pb_message_has(
   pb_message_t *message,               /* Message */
-- 
2.43.0


From bf2a38cb8ddc2cba51d61082e1623c8dfc0da48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 23/30] fix: an insertion at the beginning of a message does
 not move its origin

Aligning a field's offsets with the insertion of a field at the very
beginning of their message moved the recorded origin of the message too, so
that removing the field afterwards went unnoticed by other handles.
---
 src/message/journal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..ce6a051 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -359,9 +359,14 @@ pb_journal_align(
         &(offset->diff.tag),
         &(offset->diff.length)
       };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
+      for (size_t d = 0; d < 3; ++d) {
+        size_t position = offset->start + *(diff[d]) - entry->delta;
+
+        /* A change at the very beginning of the message does not move it */
+        if (entry->offset > position ||
+            (!d && entry->offset == position && entry->origin == position))
           *(diff[d]) -= entry->delta;
+      }
 
     /* Change happened within current part: resize or clear */
     } else if (entry->origin >= offset->start + offset->diff.origin &&
-- 
2.43.0


From 407c177cdd63d0157e36623825b5e629da3e6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 24/30] fix: move empty and cleared parts with changes that end
 where they end

When a submessage became empty through one handle and its length prefix
shrank, other handles of the submessage were not moved, so that the next
value written through them ended up in the wrong place.
---
 src/message/journal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index ce6a051..7f066de 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -347,9 +347,12 @@ pb_journal_align(
   while (*version < journal->entry.size) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
-    /* Change happened before current part: move */
+    /* Change happened before current part: move - if the current part is empty
+       or was cleared, the change may also end exactly where the part ends */
     if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
+        (entry->offset < offset->end ||
+         entry->origin == offset->start + offset->diff.length ||
+         (entry->offset == offset->end && !offset->diff.origin))) {
       offset->start += entry->delta;
       offset->end   += entry->delta;
 
-- 
2.43.0


From 1cc5e1b1a4aab9103a95d5ed1f86b1add44a29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 25/30] fix: invalidate handles inside of a submessage when it
 is removed

The removal of a field was recorded with the start of the enclosing message,
so that handles inside of a removed submessage only noticed if it was the
first field of its message, and read past the end of the buffer otherwise.
---
 src/message/part.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index fabe6d0..0ece765 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -581,15 +581,10 @@ pb_part_clear(pb_part_t *part) {
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-  /* Adjust origin for correct journaling of packed field */
-  ptrdiff_t origin = part->offset.diff.tag
-    ? part->offset.diff.origin
-    : 0;
-
   /* Clear data from journal */
   ptrdiff_t  delta = -(pb_part_size(part)) + part->offset.diff.tag;
   pb_error_t error = pb_journal_clear(part->journal,
-    part->offset.start + origin,
+    part->offset.start + part->offset.diff.tag,
     part->offset.start + part->offset.diff.tag,
     part->offset.end);
   if (likely_(!error)) {
-- 
2.43.0


From e1e1b677634481c8695b3bacef91ea211014a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 26/30] fix: do not grow a packed value when another value is
 appended behind it

A handle of the last value of a packed field was extended by values appended
through other handles, so that writing or erasing it removed them again.
---
 src/message/journal.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index 7f066de..727109a 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -375,8 +375,13 @@ pb_journal_align(
     } else if (entry->origin >= offset->start + offset->diff.origin &&
                entry->offset <= offset->end) {
 
+      /* Value was appended to packed field behind current value: ignore */
+      if (entry->origin == offset->end && offset->start < offset->end &&
+          offset->diff.origin && !offset->diff.tag) {
+        ;
+
       /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
+      } else if (entry->origin >= offset->start) {
         offset->end += entry->delta;
 
         /* Current part is a packed field: invalidate */
-- 
2.43.0


From 987e8edf3bfc5ab043770b16e71962c0f3e3b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 27/30] fix: move removed and empty packed values with changes
 that end where they end

After erasing the first value of a packed field through a cursor, the cursor
was not moved when the length prefix of the field shrank, so that iteration
continued at the wrong byte.
---
 src/message/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index 727109a..bededa7 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -352,7 +352,9 @@ pb_journal_align(
     if (entry->origin < offset->start &&
         (entry->offset < offset->end ||
          entry->origin == offset->start + offset->diff.length ||
-         (entry->offset == offset->end && !offset->diff.origin))) {
+         (entry->offset == offset->end && offset->start == offset->end &&
+          !offset->diff.tag && (!offset->diff.origin ||
+          entry->origin > offset->start + offset->diff.origin)))) {
       offset->start += entry->delta;
       offset->end   += entry->delta;
 
-- 
2.43.0


From af80441546e7b37e815987b1a46ed2ec9e001d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 28/30] fix: create a packed field if the values present are
 not packed

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 0ece765..73432c1 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -429,7 +429,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From f3eae2a1bd2515aad5df6dd5fd89f8c51d3bfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 29/30] fix: stop a cursor if the message it iterates was
 deleted

---
 src/message/cursor.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 8ef8d90..34ea2a0 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -328,6 +328,13 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
+
+    /* The underlying message was deleted, so there's nothing left to visit */
+    if (unlikely_(!pb_message_valid(&(cursor->message)))) {
+      cursor->error = PB_ERROR_INVALID;
+      return result;
+    }
+
     do {
       result = cursor->current.packed.end
         ? next_packed(cursor)
-- 
2.43.0


From ecd7c1a55ce365eb85089e284e056228af0a74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 30/30] fix: record where to create a oneof member after others
 are erased

---
 src/message/part.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/message/part.c b/src/message/part.c
index 73432c1..3f15415 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -396,6 +396,9 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
           pb_cursor_align(&cursor);
           if (error || pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
+
+          /* The start of the message may have moved */
+          start = pb_message_start(message);
         }
 
         /* If the tag matches and the field is non-repeated, we're done */
-- 
2.43.0

