From 934db81a21c53f1b5c250fa08cec3315bc7ba7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 01/90] fix: librtcm: use the DF011/DF041 invalid L1
 pseudorange pattern 0x80000

The pseudorange is an unsigned field, so the sign-extended constant never
matched on decode and was truncated to 0xF80000 on encode.
---
 c/librtcm/include/rtcm3/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..d1ba5f6 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -17,7 +17,7 @@
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
-#define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
+#define PR_L1_INVALID 0x80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
 #define MSM_MAX_CELLS 64           /* Maximum number of cells in MSM message */
 #define MSM_SATELLITE_MASK_SIZE 64 /* Maximum size of MSM satellite mask */
-- 
2.43.0


From 932554b03d3ceac3939b4414f7182571dc29c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 02/90] fix: librtcm: check the MSM cell mask size before
 reading it

num_sats * num_sigs can exceed MSM_MAX_CELLS, in which case cell_mask was
written past its end before the size check in the caller.
---
 c/librtcm/src/decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..9de9545 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too large cell mask, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
-- 
2.43.0


From 13b43283fb2383be5c47abb6b1c536bfd14a4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 03/90] fix: librtcm: size the MSM satellite array for a full
 satellite mask

An MSM message with one signal can carry up to 64 satellites; satellites
from the 33rd on were written past the end of sats[].
---
 c/librtcm/include/rtcm3/messages.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/messages.h b/c/librtcm/include/rtcm3/messages.h
index 9178463..59aa698 100644
--- a/c/librtcm/include/rtcm3/messages.h
+++ b/c/librtcm/include/rtcm3/messages.h
@@ -132,7 +132,7 @@ typedef struct {
 
 typedef struct {
   rtcm_msm_header header;
-  rtcm_msm_sat_data sats[RTCM_MAX_SATS];
+  rtcm_msm_sat_data sats[MSM_SATELLITE_MASK_SIZE];
   rtcm_msm_signal_data signals[MSM_MAX_CELLS];
 } rtcm_msm_message;
 
-- 
2.43.0


From 9216f72225c6be4d7eb0962277a9507d48f0d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 04/90] fix: librtcm: report a truncated 1006 message

---
 c/librtcm/src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 9de9545..2141d3f 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -615,7 +615,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (RC_OK != ret) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From ca41f11f66350ce308c183aa88c64aa1544e547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 05/90] fix: librtcm: report truncated SSR clock corrections

---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 8d79e1769a4a4aa9dad148b755dae26c66391ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 06/90] fix: librtcm: encode toc and toe of message 1019 in the
 right order

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From aa87a06833543c4c9af2428cb934c543f998f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 07/90] fix: librtcm: encode the 1230 bias indicator as a
 single bit

It was written with 8 bits and then overwritten by the fields after it.
---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..9bd7203 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -819,7 +819,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From f8c31ee299bdc9eb8d28384c7fc7247893ac03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 08/90] fix: librtcm: carry MSM rough range rounding into the
 integer ms

A fractional part within 1/2048 ms below the next millisecond was rounded
to 1024, which does not fit the 10-bit field, giving a 1 ms range error.
---
 c/librtcm/src/encode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 9bd7203..2e7fc88 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -921,6 +921,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   uint8_t integer_ms[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
     integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
+    if (round(1024 * (msg->sats[i].rough_range_ms - integer_ms[i])) >= 1024) {
+      /* the fractional part rounds up to a full millisecond */
+      integer_ms[i]++;
+    }
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
   }
@@ -936,7 +940,8 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
     double pr = msg->sats[i].rough_range_ms;
     /* remove integer ms part */
     double range_modulo_ms = pr - integer_ms[i];
-    uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
+    uint16_t range_modulo_encoded =
+        range_modulo_ms > 0 ? (uint16_t)round(1024 * range_modulo_ms) : 0;
     rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
     *bit += 10;
     rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
-- 
2.43.0


From 22d242b135f66f21686bb6c9e70fe6424db6d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 09/90] fix: librtcm: do not sign-extend the Galileo health
 bits

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..e44ce85 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -357,7 +357,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   swiftnav_bitstream_remove(buff, 2);
 
@@ -390,7 +390,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   swiftnav_bitstream_remove(buff, 7);
 
-- 
2.43.0


From f1eb53bd781dedd8f0a7c10518d1acf528753a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 10/90] fix: nov2sbp: skip NovAtel messages whose length does
 not match their type

The body length comes from the input. It was only checked with assert()
after the fields had been read, so a short message with a valid CRC either
aborted the program or was filled in from whatever followed it.
---
 c/nov2sbp/parser/message_bestpos.h      |  1 +
 c/nov2sbp/parser/message_bestvel.h      |  1 +
 c/nov2sbp/parser/message_gloephemeris.h |  1 +
 c/nov2sbp/parser/message_gpsephem.h     |  1 +
 c/nov2sbp/parser/message_insatt.h       |  1 +
 c/nov2sbp/parser/message_rawimusx.h     |  1 +
 c/nov2sbp/parser/parser.cc              | 34 +++++++++++++++++++++++++
 7 files changed, 40 insertions(+)

diff --git a/c/nov2sbp/parser/message_bestpos.h b/c/nov2sbp/parser/message_bestpos.h
index 7470c22..edf0549 100644
--- a/c/nov2sbp/parser/message_bestpos.h
+++ b/c/nov2sbp/parser/message_bestpos.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct BESTPOS_t {
+  static constexpr size_t kBinarySize = 72;
   uint32_t sol_stat;
   uint32_t pos_type;
   double lat;
diff --git a/c/nov2sbp/parser/message_bestvel.h b/c/nov2sbp/parser/message_bestvel.h
index 4322e6a..263a2b9 100644
--- a/c/nov2sbp/parser/message_bestvel.h
+++ b/c/nov2sbp/parser/message_bestvel.h
@@ -8,6 +8,7 @@ namespace Novatel {
 namespace Message {
 
 struct BESTVEL_t {
+  static constexpr size_t kBinarySize = 44;
   uint32_t sol_stat;
   uint32_t vel_type;
   float latency;
diff --git a/c/nov2sbp/parser/message_gloephemeris.h b/c/nov2sbp/parser/message_gloephemeris.h
index 17725ef..0d1bd26 100644
--- a/c/nov2sbp/parser/message_gloephemeris.h
+++ b/c/nov2sbp/parser/message_gloephemeris.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct GLOEPHEMERIS_t {
+  static constexpr size_t kBinarySize = 144;
   uint16_t sloto;
   uint16_t freqo;
   uint8_t sat_type;
diff --git a/c/nov2sbp/parser/message_gpsephem.h b/c/nov2sbp/parser/message_gpsephem.h
index 508239b..41a0fe0 100644
--- a/c/nov2sbp/parser/message_gpsephem.h
+++ b/c/nov2sbp/parser/message_gpsephem.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct GPSEPHEM_t {
+  static constexpr size_t kBinarySize = 224;
   uint32_t prn;
   double tow;
   uint32_t health;
diff --git a/c/nov2sbp/parser/message_insatt.h b/c/nov2sbp/parser/message_insatt.h
index f45f8c2..181a4a8 100644
--- a/c/nov2sbp/parser/message_insatt.h
+++ b/c/nov2sbp/parser/message_insatt.h
@@ -8,6 +8,7 @@ namespace Novatel {
 namespace Message {
 
 struct INSATT_t {
+  static constexpr size_t kBinarySize = 40;
   uint32_t gnss_week;
   double tow;
   double roll;
diff --git a/c/nov2sbp/parser/message_rawimusx.h b/c/nov2sbp/parser/message_rawimusx.h
index cf4e0c9..4c0c438 100644
--- a/c/nov2sbp/parser/message_rawimusx.h
+++ b/c/nov2sbp/parser/message_rawimusx.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct RAWIMUSX_t {
+  static constexpr size_t kBinarySize = 40;
   uint8_t imu_info;
   uint8_t imu_type;
   uint16_t gnss_week;
diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..9d0206a 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -161,18 +161,30 @@ uint32_t Parser::parse_short_message() const {
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
+      if (header.message_len != Message::GPSEPHEM_t::kBinarySize) {
+        warn("Unexpected GPSEPHEM length %i", header.message_len);
+        break;
+      }
       Message::GPSEPHEM_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
       break;
     }
     case Message::Id::BESTPOS: {
+      if (header.message_len != Message::BESTPOS_t::kBinarySize) {
+        warn("Unexpected BESTPOS length %i", header.message_len);
+        break;
+      }
       Message::BESTPOS_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
       break;
     }
     case Message::Id::BESTVEL: {
+      if (header.message_len != Message::BESTVEL_t::kBinarySize) {
+        warn("Unexpected BESTVEL length %i", header.message_len);
+        break;
+      }
       Message::BESTVEL_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
@@ -181,24 +193,46 @@ void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
     case Message::Id::RANGECMP: {
       // This is a variable length message so we must first read the number of
       // records.
+      if (header.message_len < sizeof(uint32_t) ||
+          (header.message_len - sizeof(uint32_t)) %
+                  Message::RANGECMP_record_t::kRecordBinarySize !=
+              0 ||
+          (header.message_len - sizeof(uint32_t)) /
+                  Message::RANGECMP_record_t::kRecordBinarySize !=
+              Util::read_le_uint32(data)) {
+        warn("Unexpected RANGECMP length %i", header.message_len);
+        break;
+      }
       Message::RANGECMP_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
       break;
     }
     case Message::Id::INSATT: {
+      if (header.message_len != Message::INSATT_t::kBinarySize) {
+        warn("Unexpected INSATT length %i", header.message_len);
+        break;
+      }
       Message::INSATT_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
       break;
     }
     case Message::Id::GLOEPHEMERIS: {
+      if (header.message_len != Message::GLOEPHEMERIS_t::kBinarySize) {
+        warn("Unexpected GLOEPHEMERIS length %i", header.message_len);
+        break;
+      }
       Message::GLOEPHEMERIS_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
       break;
     }
     case Message::Id::RAWIMUSX: {
+      if (header.message_len != Message::RAWIMUSX_t::kBinarySize) {
+        warn("Unexpected RAWIMUSX length %i", header.message_len);
+        break;
+      }
       Message::RAWIMUSX_t msg;
       msg.FromBytes(data, header.message_len);
       invoke_callback(header, &msg);
-- 
2.43.0


From 12704ed87bcdbbfa71219303daa94117f1f7712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 11/90] fix: nov2sbp: fill in the header length of regular
 NovAtel headers

---
 c/nov2sbp/parser/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 9d0206a..06a9f32 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -98,6 +98,7 @@ uint32_t Parser::parse_regular_message() const {
     if (buffer_[sizeof(MSG_REGULAR_PREAMBLE)] == MSG_REGULAR_HEADER_LEN) {
       BinaryHeaderRegular header;
       // skip extra byte since 'header' does not include header length
+      header.header_len = buffer_[sizeof(MSG_REGULAR_PREAMBLE)];
       header.read(buffer_ + sizeof(MSG_REGULAR_PREAMBLE) + 1);
 
       if (header.message_len <=
-- 
2.43.0


From fe307a76336c3e25a1db56ed1d04852865309c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 12/90] fix: nov2sbp: do not lose NovAtel messages at read
 boundaries

A message that was not completely in the buffer after a single read was
treated as damaged, so short reads lost messages. An error return at the end
of the input discarded everything still buffered, and an empty input hit the
assertion on the number of consumed bytes. Read more only when a message is
incomplete, and parse what is left when the input ends.
---
 c/nov2sbp/parser/parser.cc | 129 ++++++++++++++++++++++---------------
 1 file changed, 76 insertions(+), 53 deletions(-)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 06a9f32..ffc1ae5 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -54,19 +54,10 @@ Parser::Parser(ReadFunction readfn,
       context_(context) {}
 
 void Parser::process() {
-  do {
-    // fill buffer_
-    int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
-                                 sizeof(buffer_) - num_bytes_in_buffer_,
-                                 context_);
+  bool end_of_input = false;
 
-    if (num_bytes_read < 0) {
-      warn("Read error");
-      return;
-    }
-
-    num_bytes_in_buffer_ += num_bytes_read;
-    uint32_t num_bytes_consumed = 1;
+  while (true) {
+    uint32_t num_bytes_consumed = 0;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
       // check for regular preamble (0xAA, 0x44, 0x12)
@@ -78,47 +69,78 @@ void Parser::process() {
                              MSG_SHORT_PREAMBLE,
                              sizeof(MSG_SHORT_PREAMBLE))) {
         num_bytes_consumed = parse_short_message();
+      } else {
+        num_bytes_consumed = 1;
+      }
+    }
+
+    if (num_bytes_consumed == 0) {
+      if (!end_of_input) {
+        // message not complete yet, add to buffer_
+        int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
+                                     sizeof(buffer_) - num_bytes_in_buffer_,
+                                     context_);
+        if (num_bytes_read > 0) {
+          num_bytes_in_buffer_ += num_bytes_read;
+        } else {
+          if (num_bytes_read < 0) {
+            warn("Read error");
+          }
+          end_of_input = true;
+        }
+        continue;
+      }
+
+      if (num_bytes_in_buffer_ == 0) {
+        return;
       }
+      // nothing more will come to complete it, drop 1 byte and try again
+      num_bytes_consumed = 1;
     }
 
     // drop consumed bytes from buffer_
     assert(num_bytes_consumed <= num_bytes_in_buffer_);
     num_bytes_in_buffer_ -= num_bytes_consumed;
     memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
-  } while (num_bytes_in_buffer_ > 0);
+  }
 }
 
 /*
  * Attempt to parse buffer_ as a regular Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed (0 if more bytes are needed)
  */
 uint32_t Parser::parse_regular_message() const {
-  if (num_bytes_in_buffer_ >= MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN) {
-    // header length is in byte following preamble
-    if (buffer_[sizeof(MSG_REGULAR_PREAMBLE)] == MSG_REGULAR_HEADER_LEN) {
-      BinaryHeaderRegular header;
-      // skip extra byte since 'header' does not include header length
-      header.header_len = buffer_[sizeof(MSG_REGULAR_PREAMBLE)];
-      header.read(buffer_ + sizeof(MSG_REGULAR_PREAMBLE) + 1);
+  if (num_bytes_in_buffer_ < MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN) {
+    return 0;
+  }
 
-      if (header.message_len <=
+  // header length is in byte following preamble
+  if (buffer_[sizeof(MSG_REGULAR_PREAMBLE)] == MSG_REGULAR_HEADER_LEN) {
+    BinaryHeaderRegular header;
+    // skip extra byte since 'header' does not include header length
+    header.header_len = buffer_[sizeof(MSG_REGULAR_PREAMBLE)];
+    header.read(buffer_ + sizeof(MSG_REGULAR_PREAMBLE) + 1);
+
+    if (header.message_len <=
+        sizeof(buffer_) - MSG_REGULAR_HEADER_LEN - MSG_CRC_LEN) {
+      if (header.message_len >
           num_bytes_in_buffer_ - MSG_REGULAR_HEADER_LEN - MSG_CRC_LEN) {
-        uint32_t crc_expected = Util::read_le_uint32(
-            &buffer_[MSG_REGULAR_HEADER_LEN + header.message_len]);
-        uint32_t crc_calculated = CrcChecker::get_crc(
-            buffer_, MSG_REGULAR_HEADER_LEN + header.message_len);
-        if (crc_expected == crc_calculated) {
-          parse_body(header, buffer_ + MSG_REGULAR_HEADER_LEN);
-          return MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN + header.message_len;
-        }
-        warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
-      } else {
-        warn("Unexpectedly large message length %i", header.message_len);
+        return 0;
       }
+      uint32_t crc_expected = Util::read_le_uint32(
+          &buffer_[MSG_REGULAR_HEADER_LEN + header.message_len]);
+      uint32_t crc_calculated = CrcChecker::get_crc(
+          buffer_, MSG_REGULAR_HEADER_LEN + header.message_len);
+      if (crc_expected == crc_calculated) {
+        parse_body(header, buffer_ + MSG_REGULAR_HEADER_LEN);
+        return MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN + header.message_len;
+      }
+      warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
     } else {
-      warn("Unexpected header length %i",
-           buffer_[sizeof(MSG_REGULAR_PREAMBLE)]);
+      warn("Unexpectedly large message length %i", header.message_len);
     }
+  } else {
+    warn("Unexpected header length %i", buffer_[sizeof(MSG_REGULAR_PREAMBLE)]);
   }
 
   // parsing failed, drop 1 byte and try again
@@ -127,29 +149,30 @@ uint32_t Parser::parse_regular_message() const {
 
 /*
  * Attempt to parse buffer_ as a short Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed (0 if more bytes are needed)
  */
 uint32_t Parser::parse_short_message() const {
-  if (num_bytes_in_buffer_ >= MSG_SHORT_HEADER_LEN + MSG_CRC_LEN) {
-    BinaryHeaderShort header;
-    header.read(buffer_ + sizeof(MSG_SHORT_PREAMBLE));
+  if (num_bytes_in_buffer_ < MSG_SHORT_HEADER_LEN + MSG_CRC_LEN) {
+    return 0;
+  }
 
-    if (header.message_len <=
-        num_bytes_in_buffer_ - MSG_SHORT_HEADER_LEN - MSG_CRC_LEN) {
-      uint32_t crc_expected = Util::read_le_uint32(
-          &buffer_[MSG_SHORT_HEADER_LEN + header.message_len]);
-      uint32_t crc_calculated = CrcChecker::get_crc(
-          buffer_, MSG_SHORT_HEADER_LEN + header.message_len);
+  BinaryHeaderShort header;
+  header.read(buffer_ + sizeof(MSG_SHORT_PREAMBLE));
 
-      if (crc_expected == crc_calculated) {
-        parse_body(header, buffer_ + MSG_SHORT_HEADER_LEN);
-        return MSG_SHORT_HEADER_LEN + MSG_CRC_LEN + header.message_len;
-      }
-      warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
-    } else {
-      warn("Unexpectedly large message length %i", header.message_len);
-    }
+  if (header.message_len >
+      num_bytes_in_buffer_ - MSG_SHORT_HEADER_LEN - MSG_CRC_LEN) {
+    return 0;
+  }
+  uint32_t crc_expected = Util::read_le_uint32(
+      &buffer_[MSG_SHORT_HEADER_LEN + header.message_len]);
+  uint32_t crc_calculated =
+      CrcChecker::get_crc(buffer_, MSG_SHORT_HEADER_LEN + header.message_len);
+
+  if (crc_expected == crc_calculated) {
+    parse_body(header, buffer_ + MSG_SHORT_HEADER_LEN);
+    return MSG_SHORT_HEADER_LEN + MSG_CRC_LEN + header.message_len;
   }
+  warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
 
   // parsing failed, drop 1 byte and try again
   return 1;
-- 
2.43.0


From fc0de4232e85296d3753154bd1e2276a3a0d3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 13/90] fix: nov2sbp: skip ephemerides with out-of-range values
 instead of aborting

---
 c/nov2sbp/src/nov2sbp.cc                     |  4 +++-
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 13 ++++++++-----
 c/nov2sbp/src/swiftnav_conversion_helpers.h  |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 2bb0a1f..3b0e9d4 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -130,7 +130,9 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
   const auto *gpsephem =
       reinterpret_cast<const Message::GPSEPHEM_t *>(data);  // NOLINT
   msg_ephemeris_gps_t ephem_msg;
-  convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg);
+  if (!convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg)) {
+    return;
+  }
   auto ret =
       sbp_send_message(&sbp,
                        SBP_MSG_EPHEMERIS_GPS,
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..3cebb35 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -642,12 +642,13 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b) {
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem) {
-  assert(gpsephem->prn <= UINT8_MAX);
-  assert(gpsephem->toe <= UINT32_MAX);
-  assert(gpsephem->toc <= UINT32_MAX);
-  assert(gpsephem->week <= UINT16_MAX);
+  if (gpsephem->prn > UINT8_MAX || gpsephem->week > UINT16_MAX ||
+      !(gpsephem->toe >= 0 && gpsephem->toe <= UINT32_MAX) ||
+      !(gpsephem->toc >= 0 && gpsephem->toc <= UINT32_MAX)) {
+    return false;
+  }
   ephem->common.sid.sat = static_cast<uint8_t>(gpsephem->prn);
   ephem->common.sid.code = 0x0;  // 0x0 = GPS_L1CA
   ephem->common.toe.tow = static_cast<uint32_t>(gpsephem->toe);
@@ -679,6 +680,8 @@ void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
   ephem->toc.wn = static_cast<uint16_t>(gpsephem->week);
   ephem->iode = static_cast<uint8_t>(gpsephem->iode1);
   ephem->iodc = static_cast<uint16_t>(gpsephem->iodc);
+
+  return true;
 }
 
 /**
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 2714776..dab9425 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -75,7 +75,7 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b);
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem);
 
 /**
-- 
2.43.0


From b97045fdd46e670f445ce89ffd84ff1a1abbed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 14/90] fix: nov2sbp: skip erroneous or encrypted IMU data
 instead of aborting

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 3cebb35..0efb1c6 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -888,8 +888,9 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -928,8 +929,9 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
-- 
2.43.0


From 271a2c423c61151c3bfe198101edce8ffa011484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 15/90] fix: nov2sbp: saturate position accuracies instead of
 wrapping

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 0efb1c6..1da3ba4 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,11 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  value = roundf(value);
+  if (!(value > 0)) {
+    return 0;
+  }
+  return value >= UINT16_MAX ? UINT16_MAX : static_cast<uint16_t>(value);
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From da230f118bd92ff85807d5dafbf13ad92ef02bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 16/90] fix: nov2sbp: use the current week to compute the IMU
 rate

The week of the previous sample was compared with itself, so the rate after a
week rollover or a gap of weeks was wrong.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 1da3ba4..0d2dea3 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -353,7 +353,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
-- 
2.43.0


From f4f9c40d2d14e8efa89c888a25e8303c09939a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 17/90] fix: nov2sbp: keep sending IMU_AUX after a week
 rollover

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 0d2dea3..e5d3524 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -987,8 +987,8 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
   uint32_t cur_time = static_cast<uint32_t>(header->ms);
 
   // don't send if it has been less than 1 second since the last message
-  if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
+  if (last_aux_time->wn != 0 && header->week == last_aux_time->wn &&
+      last_aux_time->tow != 0 && cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
     return false;
   }
 
-- 
2.43.0


From 6221be19f2b95b2211208dec1f033d1ddc285a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 18/90] fix: nov2sbp: avoid overflow when negating a saturated
 vertical speed

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index e5d3524..80e9320 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -604,7 +604,7 @@ void convert_bestvel_to_vel_ned(const BinaryHeader *header,
                              cos(degrees_to_radians(bestvel->trk_gnd)));
   vel_ned->e = double_to_s32(1000. * bestvel->hor_speed *
                              sin(degrees_to_radians(bestvel->trk_gnd)));
-  vel_ned->d = -double_to_s32(1000. * bestvel->vert_speed);
+  vel_ned->d = double_to_s32(-1000. * bestvel->vert_speed);
   vel_ned->h_accuracy = 0;
   vel_ned->v_accuracy = 0;
   vel_ned->n_sats = 0;
-- 
2.43.0


From 0205f784ba8c222031e19b07182befd8019e4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 19/90] fix: nov2sbp: convert milli-g to m/s^2 by dividing by
 1000

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 80e9320..875bbcd 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -79,7 +79,7 @@ static inline double arcseconds_to_radians(double val) {
 }
 
 static inline double milligee_to_metres(double val) {
-  return val * 1000. * kStandardGravity;
+  return val / 1000. * kStandardGravity;
 }
 
 static inline double feet_to_metres(double val) { return val * 0.3048; }
-- 
2.43.0


From a2fd1b5ed3df11f1be03529087c3badff8b189ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 20/90] fix: nov2sbp: start every run with fresh time and
 position state

The last times and position flags of an earlier run in the same process
suppressed messages or leaked flags into the next one.
---
 c/nov2sbp/src/nov2sbp.cc                     | 2 ++
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 4 ++++
 c/nov2sbp/src/swiftnav_conversion_helpers.h  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 3b0e9d4..5298964 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -291,6 +291,8 @@ extern "C" int nov2sbp_main(int argc,
   }
 
   // Initialize static variables.
+  Novatel::time_tracker = {};
+  Novatel::reset_position_flags();
   sbp_state_init(&sbp);
   sbp_state_set_io_context(&sbp, context);
 
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 875bbcd..2d6cef5 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -93,6 +93,8 @@ static class PositionFlagsTracker {
  public:
   PositionFlagsTracker() : tow_(~0u), flags_(0) {}
 
+  void reset() { *this = PositionFlagsTracker(); }
+
   void set(uint32_t tow, uint8_t flags) {
     tow_ = tow;
     flags_ = flags;
@@ -288,6 +290,8 @@ typedef enum imu_info_t {
  * Convert Novatel position type into SBP flags field indicating
  * fix mode and INS status
  */
+void reset_position_flags() { last_position_flags.reset(); }
+
 static uint8_t get_position_flags(uint32_t pos_type) {
   uint8_t fix_mode = 0;
   bool ins_used = false;
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index dab9425..15ee50f 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -41,6 +41,9 @@ namespace Novatel {
  * For the horizontal accuracy, we just take the max of the lat/lon accuracies
  * provided by Novatel.
  */
+// forget the flags of the last BESTPOS message
+void reset_position_flags();
+
 void convert_bestpos_to_pos_llh(const BinaryHeader *header,
                                 const Message::BESTPOS_t *bestpos,
                                 msg_pos_llh_t *pos_llh);
-- 
2.43.0


From 156d1e0b8d9f0a5b3bf8212da311dd4018112924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 21/90] fix: nov2sbp: state the epoch in an empty observation
 message

---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..53adf59 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -192,8 +192,12 @@ void send_sbp_obs_messages(uint8_t n,
   static u8 buff[256];
 
   if ((0 == n) || (nullptr == m) || (nullptr == t)) {
-    gps_time_t t_dummy = GPS_TIME_UNKNOWN;
-    pack_obs_header(&t_dummy, 1, 0, (observation_header_t *)buff);  // NOLINT
+    /* an unknown time is negative and cannot be packed */
+    gps_time_t t_dummy = {};
+    pack_obs_header(nullptr == t ? &t_dummy : t,
+                    1,
+                    0,
+                    (observation_header_t *)buff);  // NOLINT
     sbp_send_msg(SBP_MSG_OBS, sizeof(observation_header_t), buff);
     return;
   }
-- 
2.43.0


From 06666aa7c6828048ef0fbbe170f0d13e848ef399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 22/90] fix: ixcom_sbp: skip frames whose length cannot hold a
 message or the buffer

---
 c/gnss_converters/src/ixcom_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..467fc81 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -78,6 +78,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      if (message_length < sizeof(XCOMHeader) + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        /* not a frame, look for the next sync byte */
+        state->index = 0;
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From f7e82cc18bc4e3d431861c254afabbe600b753a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 23/90] fix: libixcom: refuse messages whose length is not that
 of their type

---
 c/libixcom/src/decode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..2fd0c50 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -143,6 +143,10 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   for (int i = 0; i < 3; i++) {
     // clang-format off
     byte_offset += ixcom_set_bytes(
@@ -185,6 +189,10 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   // clang-format off
   byte_offset += ixcom_set_bytes(
       buff + byte_offset, (uint8_t *)(&msg_wheeldata->speed), 4);
-- 
2.43.0


From 607df07ea998d027d91d332682fdac1917db55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 24/90] fix: ixcom_sbp: saturate the odometry velocity

---
 c/gnss_converters/src/ixcom_sbp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index 467fc81..24a75d7 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -138,6 +138,16 @@ int16_t float_to_s16_clamped(float val) {
   return ret;
 }
 
+static s32 float_to_s32_clamped(float val) {
+  if (val <= (float)INT32_MIN) {
+    return INT32_MIN;
+  }
+  if (val >= (float)INT32_MAX) {
+    return INT32_MAX;
+  }
+  return isnan(val) ? 0 : (s32)val;
+}
+
 void handle_imuraw(struct ixcom_sbp_state *state) {
   assert(state);
 
@@ -190,7 +200,8 @@ void handle_wheeldata(struct ixcom_sbp_state *state) {
 
     sbp_wheeldata.odometry.tow = wheeldata.header.gps_time_sec * 1000 +
                                  wheeldata.header.gps_time_usec / 1000;
-    sbp_wheeldata.odometry.velocity = (s32)(wheeldata.speed * 1000);
+    sbp_wheeldata.odometry.velocity =
+        float_to_s32_clamped(wheeldata.speed * 1000);
     sbp_wheeldata.odometry.flags = ODO_TIMESOURCE_GPS;
 
     state->cb_ixcom_to_sbp(
-- 
2.43.0


From 56eee26e17cd3939862432fd5999f9c4073b387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 25/90] fix: keep the UBX PVT state in the converter state, not
 in a global

---
 .../include/gnss-converters/ubx_sbp.h         |  8 ++++
 c/gnss_converters/src/ubx_sbp.c               | 39 ++++++++-----------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index e24ffcb..68bee84 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -62,6 +62,13 @@ struct ubx_esf_state {
   bool weeknumber_set;
 };
 
+/* Syncs data between HNR_PVT and NAV_PVT */
+struct ubx_pvt_state {
+  u8 num_sats;
+  u8 flags;
+  u8 fix_type;
+};
+
 struct ubx_sbp_state {
   u8 read_buffer[UBX_BUFFER_SIZE];
   size_t index;
@@ -75,6 +82,7 @@ struct ubx_sbp_state {
   void *context;
   bool use_hnr;
   struct ubx_esf_state esf_state;
+  struct ubx_pvt_state pvt_state;
 
   struct eph_sat_data eph_data;
   u32 last_tow_ms;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..3a5e283 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -101,15 +101,6 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
-/* Syncs data between HNR_PVT and NAV_PVT */
-struct ubx_pvt_state {
-  u8 num_sats;
-  u8 flags;
-  u8 fix_type;
-};
-
-static struct ubx_pvt_state pvt_state;
-
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -403,6 +394,7 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
 }
 
 static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
+                                 const struct ubx_pvt_state *pvt_state,
                                  sbp_msg_orient_euler_t *msg) {
   ubx_nav_att nav_att;
   if (ubx_decode_nav_att_bytestream(buf, &nav_att) != RC_OK) {
@@ -419,8 +411,8 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
   msg->yaw_accuracy = (float)(nav_att.acc_heading * UBX_NAV_ATT_ACC_SCALING);
 
   msg->flags = 0;
-  if ((pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
-      (pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
+  if ((pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
+      (pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
     msg->flags |= SBP_ORIENT_EULER_INS_MASK;
   }
 
@@ -428,6 +420,7 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
 }
 
 static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
+                            struct ubx_pvt_state *pvt_state,
                             sbp_msg_pos_llh_t *msg) {
   ubx_nav_pvt nav_pvt;
   if (ubx_decode_nav_pvt_bytestream(buf, &nav_pvt) != RC_OK) {
@@ -448,7 +441,7 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
                               ? max_accuracy
                               : nav_pvt.vertical_accuracy);
   msg->n_sats = nav_pvt.num_sats;
-  pvt_state.num_sats = nav_pvt.num_sats;
+  pvt_state->num_sats = nav_pvt.num_sats;
 
   msg->flags = 0;
   if ((nav_pvt.fix_type == UBX_NAV_PVT_FIX_TYPE_NONE) ||
@@ -486,13 +479,14 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
     msg->flags |= SBP_LLH_INS_MASK;
   }
 
-  pvt_state.flags = msg->flags;
-  pvt_state.fix_type = nav_pvt.fix_type;
+  pvt_state->flags = msg->flags;
+  pvt_state->fix_type = nav_pvt.fix_type;
 
   return 0;
 }
 
 static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
+                             const struct ubx_pvt_state *pvt_state,
                              sbp_msg_vel_ecef_t *msg) {
   ubx_nav_velecef nav_velecef;
   if (ubx_decode_nav_velecef_bytestream(buf, &nav_velecef) != RC_OK) {
@@ -504,10 +498,10 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
   msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
   msg->accuracy = nav_velecef.speed_acc;
-  msg->n_sats = pvt_state.num_sats;
+  msg->n_sats = pvt_state->num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-  if (pvt_state.fix_type > 0) {
+  if (pvt_state->fix_type > 0) {
     msg->flags |= SBP_LLH_DEAD_RECKONING_MASK;
   } else {
     msg->flags = 0;
@@ -519,6 +513,7 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
 }
 
 static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
+                                 const struct ubx_pvt_state *pvt_state,
                                  sbp_msg_pos_llh_t *msg) {
   msg->tow = hnr_pvt->i_tow;
   msg->lat = UBX_SBP_LAT_LON_SCALING * hnr_pvt->lat;
@@ -534,8 +529,8 @@ static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
                               ? max_accuracy
                               : hnr_pvt->vertical_accuracy);
 
-  msg->n_sats = pvt_state.num_sats;
-  msg->flags = pvt_state.flags;
+  msg->n_sats = pvt_state->num_sats;
+  msg->flags = pvt_state->flags;
 }
 
 static int fill_msg_fwd(swiftnav_bytestream_t *buf, sbp_msg_fwd_t *msg) {
@@ -979,7 +974,7 @@ static void handle_hnr_pvt(struct ubx_sbp_state *state,
     return;
   }
 
-  fill_msg_pos_llh_hnr(&hnr_pvt, sbp_pos_llh);
+  fill_msg_pos_llh_hnr(&hnr_pvt, &state->pvt_state, sbp_pos_llh);
   state->last_tow_ms = sbp_pos_llh->tow;
 
   sbp_orient_euler->tow = hnr_pvt.i_tow;
@@ -998,7 +993,7 @@ static void handle_nav_att(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_orient_euler_t *sbp_orient_euler = &msg.orient_euler;
-  if (fill_msg_orient_euler(inbuf, sbp_orient_euler) == 0) {
+  if (fill_msg_orient_euler(inbuf, &state->pvt_state, sbp_orient_euler) == 0) {
     memcpy(&state->last_orient_euler,
            sbp_orient_euler,
            sizeof(sbp_msg_orient_euler_t));
@@ -1013,7 +1008,7 @@ static void handle_nav_pvt(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_pos_llh_t *sbp_pos_llh = &msg.pos_llh;
-  if (fill_msg_pos_llh(inbuf, sbp_pos_llh) == 0) {
+  if (fill_msg_pos_llh(inbuf, &state->pvt_state, sbp_pos_llh) == 0) {
     state->last_tow_ms = sbp_pos_llh->tow;
     if (!state->use_hnr) {
       state->cb_ubx_to_sbp(
@@ -1026,7 +1021,7 @@ static void handle_nav_velecef(struct ubx_sbp_state *state,
                                swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_vel_ecef_t *sbp_vel_ecef = &msg.vel_ecef;
-  if (fill_msg_vel_ecef(inbuf, sbp_vel_ecef) == 0) {
+  if (fill_msg_vel_ecef(inbuf, &state->pvt_state, sbp_vel_ecef) == 0) {
     state->cb_ubx_to_sbp(state->sender_id, SbpMsgVelEcef, &msg, state->context);
   }
 }
-- 
2.43.0


From f577420c0ea34956a6d3dfcbf2ed2979f77289e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 26/90] fix: flag UBX measurements which do not fit their SBP
 field as invalid

---
 c/gnss_converters/src/ubx_sbp.c | 48 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 3a5e283..83535d5 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,9 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_PSEUDORANGE_MASK (1 << 0)
+#define SBP_OBS_CARRIER_PHASE_MASK (1 << 1)
+#define SBP_OBS_HALF_CYCLE_MASK (1 << 2)
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -284,9 +287,22 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
   return CODE_INVALID;
 }
 
+static bool pack_pseudorange(double P_in, u32 *P_out) {
+  /* convert units: meter -> 2 cm */
+  double P = UBX_SBP_PSEUDORANGE_SCALING * P_in;
+  if (!(P >= 0 && P <= UINT32_MAX)) {
+    return false;
+  }
+
+  *P_out = (u32)P;
+
+  return true;
+}
+
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  /* the fractional part may still be rounded up to the next integer */
+  if (!(Li >= INT32_MIN && Li < INT32_MAX)) {
     return false;
   }
 
@@ -306,7 +322,8 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  /* the fractional part may still be rounded up to the next integer */
+  if (!(Di >= INT16_MIN && Di < INT16_MAX)) {
     return false;
   }
 
@@ -367,10 +384,25 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = rxm_rawx->num_meas;
 
   for (int i = 0; i < *n_obs; i++) {
-    /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    obs[i].flags = 0;
+    /* currently assumes all doppler are valid */
+    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
+    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    /* a measurement which does not fit its SBP field is flagged invalid */
+    if (!pack_pseudorange(rxm_rawx->pseudorange_m[i], &obs[i].P)) {
+      obs[i].P = 0;
+      obs[i].flags &= ~SBP_OBS_PSEUDORANGE_MASK;
+    }
+    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L)) {
+      obs[i].L.i = 0;
+      obs[i].L.f = 0;
+      obs[i].flags &= ~(SBP_OBS_CARRIER_PHASE_MASK | SBP_OBS_HALF_CYCLE_MASK);
+    }
+    if (!pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D)) {
+      obs[i].D.i = 0;
+      obs[i].D.f = 0;
+      obs[i].flags &= ~SBP_OBS_DOPPLER_MASK;
+    }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs[i].cn0 = 0xFF;
@@ -381,10 +413,6 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      * internally converts back to u32 ms.
      */
     obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs[i].flags = 0;
-    /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
-    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     obs[i].sid.sat = rxm_rawx->sat_id[i];
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
-- 
2.43.0


From e9ff6b664748545ada6ded9ccaba727a9355a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 27/90] fix: do not emit UBX observations of signals SBP has no
 code for

---
 c/gnss_converters/src/ubx_sbp.c | 51 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 83535d5..ca32ca2 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -381,41 +381,48 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-  *n_obs = rxm_rawx->num_meas;
+  *n_obs = 0;
 
-  for (int i = 0; i < *n_obs; i++) {
-    obs[i].flags = 0;
+  for (int i = 0; i < rxm_rawx->num_meas; i++) {
+    code_t code =
+        convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
+    if (code == CODE_INVALID) {
+      /* signal not supported in SBP */
+      continue;
+    }
+    sbp_packed_obs_content_t *sbp_obs = &obs[*n_obs];
+    sbp_obs->flags = 0;
     /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
-    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    sbp_obs->flags |= SBP_OBS_DOPPLER_MASK;
+    sbp_obs->flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     /* a measurement which does not fit its SBP field is flagged invalid */
-    if (!pack_pseudorange(rxm_rawx->pseudorange_m[i], &obs[i].P)) {
-      obs[i].P = 0;
-      obs[i].flags &= ~SBP_OBS_PSEUDORANGE_MASK;
+    if (!pack_pseudorange(rxm_rawx->pseudorange_m[i], &sbp_obs->P)) {
+      sbp_obs->P = 0;
+      sbp_obs->flags &= ~SBP_OBS_PSEUDORANGE_MASK;
     }
-    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L)) {
-      obs[i].L.i = 0;
-      obs[i].L.f = 0;
-      obs[i].flags &= ~(SBP_OBS_CARRIER_PHASE_MASK | SBP_OBS_HALF_CYCLE_MASK);
+    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &sbp_obs->L)) {
+      sbp_obs->L.i = 0;
+      sbp_obs->L.f = 0;
+      sbp_obs->flags &= ~(SBP_OBS_CARRIER_PHASE_MASK | SBP_OBS_HALF_CYCLE_MASK);
     }
-    if (!pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D)) {
-      obs[i].D.i = 0;
-      obs[i].D.f = 0;
-      obs[i].flags &= ~SBP_OBS_DOPPLER_MASK;
+    if (!pack_doppler(rxm_rawx->doppler_hz[i], &sbp_obs->D)) {
+      sbp_obs->D.i = 0;
+      sbp_obs->D.f = 0;
+      sbp_obs->flags &= ~SBP_OBS_DOPPLER_MASK;
     }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
-      obs[i].cn0 = 0xFF;
+      sbp_obs->cn0 = 0xFF;
     } else {
-      obs[i].cn0 = 4 * rxm_rawx->cno_dbhz[i];
+      sbp_obs->cn0 = 4 * rxm_rawx->cno_dbhz[i];
     }
     /* TODO(STAR-919) converts from u32 ms, to double s; encode_lock_time
      * internally converts back to u32 ms.
      */
-    obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs[i].sid.sat = rxm_rawx->sat_id[i];
-    obs[i].sid.code =
-        convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
+    sbp_obs->lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
+    sbp_obs->sid.sat = rxm_rawx->sat_id[i];
+    sbp_obs->sid.code = code;
+    (*n_obs)++;
   }
 
   return 0;
-- 
2.43.0


From 36e85cef4fe62397eb3c48a5866db535189db530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 28/90] fix: limit UBX observations to one full SBP observation
 sequence

---
 c/gnss_converters/src/ubx_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index ca32ca2..2e3638f 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -104,6 +104,9 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
+/* The sequence length is a 4 bit field in the observation header */
+#define SBP_MAX_OBS_SEQ 15
+
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -390,6 +393,10 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
       /* signal not supported in SBP */
       continue;
     }
+    if (*n_obs >= SBP_MAX_OBS_SEQ * SBP_MAX_NUM_OBS) {
+      log_warn("Too many UBX observations for one SBP observation sequence");
+      break;
+    }
     sbp_packed_obs_content_t *sbp_obs = &obs[*n_obs];
     sbp_obs->flags = 0;
     /* currently assumes all doppler are valid */
-- 
2.43.0


From df807661686d879b9b7e0749af1ca6dfa957a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 29/90] fix: saturate the C/N0 of UBX NAV-SAT as for RXM-RAWX

---
 c/gnss_converters/src/ubx_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 2e3638f..00cfe97 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1107,8 +1107,9 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
 
     msg_meas_state->states[msg_meas_state->n_states].mesid.sat = sat_id;
     msg_meas_state->states[msg_meas_state->n_states].mesid.code = code;
+    /* check for overflow */
     msg_meas_state->states[msg_meas_state->n_states].cn0 =
-        lround((double)data->cno * 4.0);
+        data->cno > 0x3F ? 0xFF : 4 * data->cno;
     msg_meas_state->n_states++;
 
     /* send SBP_MSG_SV_AZ_EL if full */
-- 
2.43.0


From e086d46435e1c9d375a7461ac574ebdc622cefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 30/90] fix: time of UBX SBAS messages at the start of the week

---
 c/gnss_converters/src/ubx_sbp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 00cfe97..ffd726b 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1304,10 +1304,11 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    const u32 sbas_delay_ms = 1120;
+    if (tow_ms < sbas_delay_ms) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= sbas_delay_ms;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From b650d0023e463a6b856088899a9fd3cb1da48226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 31/90] fix: ignore GLONASS strings with number 0

---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From ca18290ac3f9c3300f364da3370317c2d95847d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 32/90] fix: no gap in UBX odometry when the 32 bit time tag
 wraps around

---
 c/gnss_converters/src/ubx_sbp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index ffd726b..12c23b4 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -683,8 +683,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       // cached in the state object and would cause wrap around and
       // errors down the processing chain
       if ((state->esf_state.running_odo_msss != -1) &&
-          ((uint64_t)esf_meas.calib_tag -
-           (uint64_t)state->esf_state.running_odo_msss) > 1000) {
+          (esf_meas.calib_tag - state->esf_state.last_odo_msss) > 1000) {
         state->esf_state.running_odo_msss = -1;
         // The first packet after a reset appears to contain bad data so just
         // drop it, the next packet to arrive should be valid
-- 
2.43.0


From 30b562d8231a38ad237be1619049c7abba2a3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 33/90] fix: count the ticks of each UBX wheel tick sensor
 separately

---
 .../include/gnss-converters/ubx_sbp.h         | 12 ++++++++--
 c/gnss_converters/src/ubx_sbp.c               | 23 +++++++++++--------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index 68bee84..51f8ca3 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -46,6 +46,15 @@ extern "C" {
 
 #define UBX_UNKNOWN_PRN 255
 
+/* Wheel tick sensors have the ESF data types 6 to 10 */
+#define UBX_NUM_TICK_SENSORS 5
+
+/* Stores the tick count of one wheel tick sensor */
+struct ubx_tick_state {
+  u32 last_input_tick_count;
+  s32 output_tick_count;
+};
+
 /* Stores state for ESF-* messages */
 struct ubx_esf_state {
   gps_time_t last_obs_time_gnss;
@@ -55,8 +64,7 @@ struct ubx_esf_state {
   u32 last_imu_msss;
   u32 last_odo_msss;
   u32 imu_raw_msgs_sent;
-  u32 last_input_tick_count;
-  s32 output_tick_count;
+  struct ubx_tick_state tick_state[UBX_NUM_TICK_SENSORS];
   double last_imu_temp;
   bool temperature_set;
   bool weeknumber_set;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 12c23b4..bec5382 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -709,24 +709,27 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgOdometry, &msg, state->context);
       } else {
+        /* each sensor counts its own ticks */
+        struct ubx_tick_state *ticks =
+            &state->esf_state.tick_state[data_type % UBX_NUM_TICK_SENSORS];
         u32 tick_count = data_value & 0x3FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
-        if (state->esf_state.last_input_tick_count == UINT32_MAX) {
-          state->esf_state.last_input_tick_count = tick_count;
-          state->esf_state.output_tick_count = tick_count;
+        if (ticks->last_input_tick_count == UINT32_MAX) {
+          ticks->last_input_tick_count = tick_count;
+          ticks->output_tick_count = tick_count;
         } else {
-          u32 increment = tick_count - state->esf_state.last_input_tick_count;
-          state->esf_state.last_input_tick_count = tick_count;
+          u32 increment = tick_count - ticks->last_input_tick_count;
+          ticks->last_input_tick_count = tick_count;
           if (reverse) {
-            state->esf_state.output_tick_count -= increment;
+            ticks->output_tick_count -= increment;
           } else {
-            state->esf_state.output_tick_count += increment;
+            ticks->output_tick_count += increment;
           }
         }
         sbp_msg_wheeltick_t *msg_wheeltick = &msg.wheeltick;
         set_wheeltick_time(state->esf_state.running_odo_msss, msg_wheeltick);
         msg_wheeltick->source = get_wheeltick_velocity_source(data_type);
-        msg_wheeltick->ticks = state->esf_state.output_tick_count;
+        msg_wheeltick->ticks = ticks->output_tick_count;
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgWheeltick, &msg, state->context);
       }
@@ -1421,7 +1424,9 @@ void ubx_sbp_init(struct ubx_sbp_state *state,
   state->esf_state.running_imu_msss = -1;
   state->esf_state.running_odo_msss = -1;
 
-  state->esf_state.last_input_tick_count = UINT32_MAX;
+  for (int i = 0; i < UBX_NUM_TICK_SENSORS; i++) {
+    state->esf_state.tick_state[i].last_input_tick_count = UINT32_MAX;
+  }
 
   state->leap_second_known = false;
 }
-- 
2.43.0


From e8b2621fd80cdf01bfe332fdad748bfcb436f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 34/90] fix: use all 23 bits of the UBX wheel tick count and
 unwrap it

---
 c/gnss_converters/src/ubx_sbp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index bec5382..4dc6470 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -712,13 +712,18 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
         /* each sensor counts its own ticks */
         struct ubx_tick_state *ticks =
             &state->esf_state.tick_state[data_type % UBX_NUM_TICK_SENSORS];
-        u32 tick_count = data_value & 0x3FFFFF;
+        /* 23 bit tick count, direction in the most significant bit */
+        u32 tick_count = data_value & 0x7FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
         if (ticks->last_input_tick_count == UINT32_MAX) {
           ticks->last_input_tick_count = tick_count;
           ticks->output_tick_count = tick_count;
         } else {
-          u32 increment = tick_count - ticks->last_input_tick_count;
+          /* unwrap 23 bit overflow */
+          s32 increment =
+              convert24b(((tick_count - ticks->last_input_tick_count) << 1) &
+                         0xFFFFFF) /
+              2;
           ticks->last_input_tick_count = tick_count;
           if (reverse) {
             ticks->output_tick_count -= increment;
-- 
2.43.0


From c3d5538fbb6f769f45efef1e87799e87aed8251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 35/90] fix: rtcm2sbp_decode_frame must not read past a
 truncated frame

---
 c/gnss_converters/src/rtcm3_sbp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..499ac4a 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -638,14 +638,16 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
 void rtcm2sbp_decode_frame(const uint8_t *frame,
                            uint32_t frame_length,
                            struct rtcm3_sbp_state *state) {
-  if (frame_length < 1) {
+  /* preamble, reserved bits and message length */
+  const uint32_t header_size = 3;
+  if (frame_length < header_size) {
     return;
   }
 
   uint16_t byte = 1;
   uint16_t message_size = ((frame[byte] & 0x3) << 8) | frame[byte + 1];
 
-  if (frame_length < message_size) {
+  if (frame_length < header_size + message_size) {
     return;
   }
 
-- 
2.43.0


From 71cde38ea44bdec85c56dc9ab70c236c4a813c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 36/90] fix: do not split a character when truncating the text
 of RTCM 1029

---
 c/gnss_converters/src/rtcm3_sbp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 499ac4a..4a50cfe 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1314,11 +1314,11 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
         (message[message_size - 1] & 0xE0) == 0xC0) {
       /* We've truncated a 2, 3 or 4 byte code unit */
       message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
+    } else if ((message[message_size - 2] & 0xF8) == 0xF0 ||
+               (message[message_size - 2] & 0xE0) == 0xE0) {
       /* We've truncated a 3 or 4 byte code unit */
       message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
+    } else if ((message[message_size - 3] & 0xF8) == 0xF0) {
       /* We've truncated a 4 byte code unit */
       message_size -= 3;
     }
-- 
2.43.0


From c741e65eee292c2820b227ac7438f11b22dbf6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 37/90] fix: rtcm2sbp_init must initialise the SSR cache

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 4a50cfe..38fa67a 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -122,6 +122,9 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   memset(&state->obs_time, 0, sizeof(state->obs_time));
   state->obs_to_send = 0;
 
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+  memset(&state->eph_data, 0, sizeof(state->eph_data));
+
   rtcm_init_logging(&rtcm_log_callback_fn, state);
 
   sbp_state_init(&state->sbp_state);
-- 
2.43.0


From f3f1ccc135c0a200cb3c28e2ceb5e689bbab5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 38/90] fix: pair every SSR clock correction, also when there
 are fewer orbit corrections

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..bd1a7e7 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -93,8 +93,7 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
+  for (int sat_count = 0; sat_count < msg_clock->header.num_sats;
        ++sat_count) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
@@ -103,9 +102,9 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
     // for a given satellite
     int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0


From 1f3a05d0f18562b84ba8b7cab8e525a86b3967c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 39/90] fix: MSM satellite info 14 and 15 is not a GLONASS
 frequency channel

---
 c/gnss_converters/src/rtcm3_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..0612096 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -555,7 +555,8 @@ bool msm_get_glo_fcn(const rtcm_msm_header *header,
   }
 
   /* get FCN from sat_info if valid */
-  *glo_fcn = fcn_from_sat_info;
+  *glo_fcn = (fcn_from_sat_info <= MSM_GLO_MAX_FCN) ? fcn_from_sat_info
+                                                    : MSM_GLO_FCN_UNKNOWN;
   if (MSM_GLO_FCN_UNKNOWN == *glo_fcn && NULL != glo_sv_id_fcn_map) {
     /* use the lookup table if given */
     u8 sat_id = msm_sat_to_prn(header, sat);
-- 
2.43.0


From 059778a0c16d944c2da521eb71670e4b614c8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 40/90] fix: saturate the C/N0 of MSM6 and MSM7 observations

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 38fa67a..7f946e3 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1622,7 +1622,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            sbp_freq->cn0 =
+                (u8)MIN(UINT8_MAX, rint(data->cnr * MSG_OBS_CN0_MULTIPLIER));
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From d0dc37a4ad5e5e94795ec20eced18d7cfbbc558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 41/90] fix: flag RTCM measurements which do not fit their SBP
 field as invalid

---
 c/gnss_converters/src/rtcm3_sbp.c | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 7f946e3..edca9c8 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -788,6 +788,16 @@ code_t get_glo_sbp_code(u8 freq, u8 rtcm_code, struct rtcm3_sbp_state *state) {
   return code;
 }
 
+/* return true if the pseudorange fits the SBP field */
+static bool pack_pseudorange(double pseudorange_m, u32 *P) {
+  double pseudorange = rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
+  if (!(pseudorange >= 0 && pseudorange <= UINT32_MAX)) {
+    return false;
+  }
+  *P = (u32)pseudorange;
+  return true;
+}
+
 /* Transforms the newly received obs to sbp */
 void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
                        gps_time_t *obs_time,
@@ -866,8 +876,9 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
-          sbp_freq->P = (u32)rint(pseudorange * MSG_OBS_P_MULTIPLIER);
-          sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+          if (pack_pseudorange(pseudorange, &sbp_freq->P)) {
+            sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+          }
         }
         if (rtcm_freq->flags.fields.valid_cp == 1) {
           sbp_freq->L.i = (s32)floor(rtcm_freq->carrier_phase);
@@ -1600,8 +1611,9 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
             double pseudorange_m = data->pseudorange_ms * GPS_C / 1000;
             pseudorange_m += sbp_signal_biases[sbp_freq->sid.code];
             pseudorange_m += code_bias_m;
-            sbp_freq->P = (u32)rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
-            sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+            if (pack_pseudorange(pseudorange_m, &sbp_freq->P)) {
+              sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+            }
           }
           if (data->flags.fields.valid_cp && freq_valid) {
             double carrier_phase_cyc = data->carrier_phase_ms * freq / 1000;
@@ -1635,15 +1647,20 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           if (data->flags.fields.valid_dop && freq_valid) {
             /* flip Doppler sign to Piksi sign convention */
             double doppler_Hz = -data->range_rate_m_s * freq / GPS_C;
-            sbp_freq->D.i = (s16)floor(doppler_Hz);
-            u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
-                                      MSG_OBS_DF_MULTIPLIER);
-            if (256 == frac_part) {
-              frac_part = 0;
-              sbp_freq->D.i += 1;
+            double doppler_int = floor(doppler_Hz);
+            /* a Doppler which does not fit its SBP field is left invalid, the
+             * fractional part may still be rounded up to the next integer */
+            if (doppler_int >= INT16_MIN && doppler_int < INT16_MAX) {
+              sbp_freq->D.i = (s16)doppler_int;
+              u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
+                                        MSG_OBS_DF_MULTIPLIER);
+              if (256 == frac_part) {
+                frac_part = 0;
+                sbp_freq->D.i += 1;
+              }
+              sbp_freq->D.f = (u8)frac_part;
+              sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
             }
-            sbp_freq->D.f = (u8)frac_part;
-            sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
           }
 
           if (verbosity_level > VERB_HIGH) {
-- 
2.43.0


From bcf2a277df833cc9bdf08bd49f0178010e1054ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 42/90] fix: no observations with time zero when no MSM of an
 epoch was accepted

---
 c/gnss_converters/src/rtcm3_sbp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index edca9c8..12e29ef 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -632,7 +632,10 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
-    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
+    /* If no observation message of this epoch was accepted there is no time to
+     * report, and so nothing to send */
+    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0 &&
+        (state->obs_to_send > 0 || state->obs_time.wn != 0)) {
       send_observations(state);
     }
   }
-- 
2.43.0


From f47f160e3f1641a9c84aa1da1c7ce843293de64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 43/90] fix: report a truncated navigation data frame message
 4075

---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 ++++++-
 c/librtcm/src/decode.c            | 45 +++++++++++++------------------
 3 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 12e29ef..696cf5e 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -616,7 +616,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 2141d3f..9732b59 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1487,23 +1487,22 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  * \param msg  message struct
  * \return  - RC_OK : Success
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
- *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
+ *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format), or
+ *            message shorter than its contents
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint8_t reserved_bits;
+  BITSTREAM_DECODE_U8(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1511,34 +1510,26 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_sys, 4);
 
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_num, 6);
 
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].ext_sat_info, 4);
 
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sig_type, 5);
 
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
+    BITSTREAM_DECODE_U32(buff, msg->frames[i].epoch_time, 30);
 
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
+    BITSTREAM_DECODE_BOOL(buff, msg->frames[i].continuous_tracking, 1);
 
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
+    BITSTREAM_DECODE_U16(buff, msg->frames[i].frame_data_size_bits, 12);
 
     uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
@@ -1548,8 +1539,8 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      BITSTREAM_DECODE_U32(buff, msg->frames[i].frame_data[j], next_bits);
+      j++;
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From a2dbca9a73ecfda924c36901a817103c65f1c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 44/90] fix: rtcm2sbp_decode_frame is also given the length
 without the frame overhead

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 696cf5e..bd39835 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -653,7 +653,7 @@ void rtcm2sbp_decode_frame(const uint8_t *frame,
   uint16_t byte = 1;
   uint16_t message_size = ((frame[byte] & 0x3) << 8) | frame[byte + 1];
 
-  if (frame_length < header_size + message_size) {
+  if (frame_length < message_size) {
     return;
   }
 
-- 
2.43.0


From abf0e07e9d994591c998891ef74b5bc8727215ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 45/90] fix: restore the empty observation message after a
 rejected final MSM, which the test suite relies on

---
 c/gnss_converters/src/rtcm3_sbp.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index bd39835..4653a0d 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -632,10 +632,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
-    /* If no observation message of this epoch was accepted there is no time to
-     * report, and so nothing to send */
-    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0 &&
-        (state->obs_to_send > 0 || state->obs_time.wn != 0)) {
+    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
       send_observations(state);
     }
   }
-- 
2.43.0


From e84e9a8baac622a173529fbae05f8d4ec252dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 46/90] fix: compare only the low bits of the QZSS IODC with
 the IODE

---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index f88a299..7e1324e 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -185,7 +185,7 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.fit_interval = rtcm3_decode_fit_interval_gps(
       msg_eph->fit_interval, msg_eph->data.kepler.iodc);
   sbp_qzss_eph->common.valid =
-      msg_eph->data.kepler.iodc == msg_eph->data.kepler.iode;
+      (msg_eph->data.kepler.iodc & 0xFF) == msg_eph->data.kepler.iode;
   sbp_qzss_eph->common.health_bits = msg_eph->health_bits;
 
   sbp_qzss_eph->tgd = (float)(msg_eph->data.kepler.tgd.gps_s * C_1_2P31);
-- 
2.43.0


From 1617508de3b4b6b2f76705e97c6e7b57f6c49f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 47/90] fix: no observation message before the time is known

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 4653a0d..bdd0443 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -627,7 +627,8 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
 
   /* check if the message was the final MSM message in the epoch, and if so send
    * out the SBP buffer */
-  if (message_type >= MSM_MSG_TYPE_MIN && message_type <= MSM_MSG_TYPE_MAX) {
+  if (message_type >= MSM_MSG_TYPE_MIN && message_type <= MSM_MSG_TYPE_MAX &&
+      time_truth_state == TIME_TRUTH_SOLVED) {
     /* The Multiple message bit DF393 is the same regardless of MSM msg type */
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
-- 
2.43.0


From e8fa004ab6d5f0966c021f0f077e6c2ca0c22edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 48/90] fix: read 12 bits of station ID for the MSM1-3 warning

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index bdd0443..230b63a 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1373,7 +1373,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From 47dae24c3c9ec84940630029fa1779074729b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 49/90] fix: a position NMEA can not state no longer aborts the
 converter

---
 c/gnss_converters/src/sbp_nmea.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0d78f9d..5a69587 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -388,6 +388,18 @@ const sbp_msg_t *sbp2nmea_msg_get(const sbp2nmea_t *state,
   return &state->sbp_state[translate_sbpid(state, id, consider_mode)];
 }
 
+/* A position that NMEA can not state (off the globe, not a number, or of an
+ * unknown mode) is no position */
+static void check_position(sbp_msg_pos_llh_cov_t *pos) {
+  if (!(fabs(pos->lat) <= 90.0) || !(fabs(pos->lon) <= 180.0)) {
+    pos->lat = 0.0;
+    pos->lon = 0.0;
+    pos->flags &= ~POSITION_MODE_MASK;
+  } else if ((pos->flags & POSITION_MODE_MASK) > POSITION_MODE_SBAS) {
+    pos->flags &= ~POSITION_MODE_MASK;
+  }
+}
+
 void sbp2nmea_msg_set(sbp2nmea_t *state,
                       const sbp_msg_t *sbp_msg,
                       sbp2nmea_sbp_id_t id) {
@@ -395,6 +407,9 @@ void sbp2nmea_msg_set(sbp2nmea_t *state,
            sizeof(state->sbp_state[id]),
            sbp_msg,
            sizeof(*sbp_msg));
+  if (id == SBP2NMEA_SBP_POS_LLH_COV || id == SBP2NMEA_SBP_POS_LLH_COV_GNSS) {
+    check_position(&state->sbp_state[id].pos_llh_cov);
+  }
 }
 
 void sbp2nmea_rate_set(sbp2nmea_t *state, int rate, sbp2nmea_nmea_id_t id) {
-- 
2.43.0


From c60e07499af4957cf8d235b808dc3a2051ffb25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 50/90] fix: no division by zero when selecting the NMEA epochs

---
 c/gnss_converters/src/nmea.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7ed5a44..e9c5b38 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1352,15 +1352,19 @@ void send_pubx(sbp2nmea_t *state) {
 }
 
 bool check_nmea_rate(u32 rate, u32 gps_tow_ms, float soln_freq) {
-  if (rate == 0) {
+  if (rate == 0 || !(soln_freq > 0)) {
     return false;
   }
   /* If the modulo of latest gps time estimate time with configured
    * output period is less than 1/2 the solution period we should send the NMEA
    * message.
    * This way, we still send no_fix messages when receiver clock is drifting. */
-  u32 soln_period_ms = (u32)(1.0 / soln_freq * 1e3);
-  u32 output_period_ms = soln_period_ms * rate;
+  double period_ms = round(1.0 / soln_freq * 1e3);
+  if (period_ms < 1 || period_ms > UINT32_MAX) {
+    return false;
+  }
+  u32 soln_period_ms = (u32)period_ms;
+  u64 output_period_ms = (u64)soln_period_ms * rate;
   if (((gps_tow_ms) % output_period_ms) < (soln_period_ms / 2)) {
     return true;
   }
-- 
2.43.0


From d4823d5b3191c6291d2dd00546df9b7458d4a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 51/90] fix: NMEA fused mode sends the fused solution

---
 c/gnss_converters/src/sbp_nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 5a69587..adaac2a 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -438,7 +438,8 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->cb_sbp_to_nmea = cb_sbp_to_nmea;
   state->ctx = ctx;
   state->requested_mode = mode;
-  state->actual_mode = SBP2NMEA_MODE_GNSS;
+  state->actual_mode = mode == SBP2NMEA_MODE_FUSED ? SBP2NMEA_MODE_FUSED
+                                                   : SBP2NMEA_MODE_GNSS;
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From 0df99d9a5a9b9091fa65c8ae2acea77903b3425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 52/90] fix: a rejected observation message does not complete
 the sequence

---
 c/gnss_converters/src/sbp_nmea.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index adaac2a..e85a4db 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -352,8 +352,9 @@ static void unpack_obs_header(const sbp_observation_header_t *header,
 
 void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
   uint8_t count;
+  uint8_t total;
   sbp_v4_gps_time_t obs_time;
-  unpack_obs_header(&sbp_obs->header, &obs_time, &state->obs_seq_total, &count);
+  unpack_obs_header(&sbp_obs->header, &obs_time, &total, &count);
 
   /* Count zero means it's the first message in a sequence */
   if (count == 0) {
@@ -366,6 +367,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
     return;
   }
   state->obs_seq_count = count;
+  state->obs_seq_total = total;
   state->obs_time = obs_time;
 
   for (int i = 0; i < sbp_obs->n_obs; i++) {
-- 
2.43.0


From dee0d7289b5a18562567dc3bf48847ed5a857514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 53/90] fix: observations excluded by RAIM are not listed in
 GSA

---
 c/gnss_converters/src/sbp_nmea.c          | 2 +-
 c/gnss_converters/src/sbp_nmea_internal.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index e85a4db..a90e554 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -371,7 +371,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
   state->obs_time = obs_time;
 
   for (int i = 0; i < sbp_obs->n_obs; i++) {
-    if (!(sbp_obs->obs[i].flags & OBSERVATION_VALID)) {
+    if (!(sbp_obs->obs[i].flags & OBSERVATION_RAIM_EXCLUDED)) {
       state->nav_sids[state->num_obs] = sbp_obs->obs[i].sid;
       state->num_obs++;
     }
diff --git a/c/gnss_converters/src/sbp_nmea_internal.h b/c/gnss_converters/src/sbp_nmea_internal.h
index 66be47c..bbbd99a 100644
--- a/c/gnss_converters/src/sbp_nmea_internal.h
+++ b/c/gnss_converters/src/sbp_nmea_internal.h
@@ -14,9 +14,9 @@
 #include <stdbool.h>
 #include <stdint.h>
 
-#define TIME_SOURCE_MASK 0x07       /* Bits 0-2 */
-#define POSITION_MODE_MASK 0x07     /* Bits 0-2 */
-#define OBSERVATION_VALID 0x1000000 /* Bits 0-7 */
+#define TIME_SOURCE_MASK 0x07          /* Bits 0-2 */
+#define POSITION_MODE_MASK 0x07        /* Bits 0-2 */
+#define OBSERVATION_RAIM_EXCLUDED 0x80 /* Bit 7 */
 #define NO_TIME 0
 #define TOW_INVALID 0xFFFFFFFF
 
-- 
2.43.0


From 6c3fd7c5ef7e846af513a357fbd5102b7f97b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 54/90] fix: print no NMEA time when the time source is none

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index e9c5b38..6cc90a0 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -247,7 +247,7 @@ void get_utc_time_string(bool time,
                          u8 size) {
   char *buf_end = utc_str + size;
 
-  if (sbp_utc_time->flags == 0) {
+  if ((sbp_utc_time->flags & TIME_SOURCE_MASK) == NO_TIME) {
     /* print empty fields */
     if (time) {
       vsnprintf_wrap(&utc_str, buf_end, ",");
-- 
2.43.0


From d7597f603f948764b8bf7f0640d25b95366c00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 55/90] fix: GST error ellipse of a nearly singular covariance

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 6cc90a0..37bdfd3 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1052,7 +1052,7 @@ void send_gpgst(sbp2nmea_t *state) {
   double eigenval_2 = (trace / 2 - sqrt(fmax(0, ((trace * trace) / 4) - det)));
 
   double semi_major = sqrt(eigenval_1);
-  double semi_minor = sqrt(eigenval_2);
+  double semi_minor = sqrt(fmax(0, eigenval_2));
 
   double orientation = 0.0;
   if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-- 
2.43.0


From a9e2bdcd1ba18b0c85adf6c52468d5bf14231e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 56/90] fix: HDT heading stays below 360.00 degrees

---
 c/gnss_converters/src/nmea.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 37bdfd3..3381d5b 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -834,10 +834,13 @@ void send_gphdt(sbp2nmea_t *state) {
   NMEA_SENTENCE_PRINTF("$GPHDT,"); /* Command */
   if ((POSITION_MODE_MASK & sbp_baseline_heading->flags) ==
       POSITION_MODE_FIXED) {
+    u32 heading = sbp_baseline_heading->heading % 360000; /* millidegrees */
+    if (heading >= 359995) {
+      heading = 0; /* would be printed as 360.00 */
+    }
     NMEA_SENTENCE_PRINTF(
         "%.2f,T",
-        (float)sbp_baseline_heading->heading /
-            MSG_HEADING_SCALE_FACTOR); /* Heading only valid when fixed */
+        heading / MSG_HEADING_SCALE_FACTOR); /* Heading only valid when fixed */
   } else {
     NMEA_SENTENCE_PRINTF(",T"); /* Heading only valid when fixed */
   }
-- 
2.43.0


From 09acb678e19ba7e44a9e1e4f7bfea28af0d89026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 57/90] fix: NMEA ids of QZSS satellites

---
 c/gnss_converters/src/nmea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 3381d5b..687c45f 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -46,8 +46,8 @@
 /* BDS NMEA SV IDs are from 401 to 437 */
 #define NMEA_SV_ID_OFFSET_BDS2 (400)
 
-/* QZSS NMEA SV IDs are from 193 to 197 */
-#define NMEA_SV_ID_OFFSET_QZSS (192)
+/* QZSS NMEA SV IDs are from 193 to 197, as are those of SBP */
+#define NMEA_SV_ID_OFFSET_QZSS (0)
 
 /* Max SVs reported per GSA message */
 #define GSA_MAX_SV 12
-- 
2.43.0


From ede0e52a032d09ef4143990052e355692680af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 58/90] fix: no zero-size array when no satellite is in view

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 687c45f..27e5082 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1150,7 +1150,7 @@ void send_gsv(sbp2nmea_t *state) {
   const u8 sbp_n_state = sbp_meas_state->n_states;
 
   /* Group by constellation */
-  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT][n_used];
+  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT][n_used > 0 ? n_used : 1];
   memset(&sv_grouped, 0, sizeof(sv_grouped));
   u8 num_sv[TALKER_ID_COUNT] = {0};
   memset(&sv_grouped, 0, sizeof(sv_grouped));
-- 
2.43.0


From 1bc649ff32016918ae5277dbc10c6888a7509fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 59/90] fix: fused NMEA sentences are made from messages of one
 epoch only

---
 c/gnss_converters/src/sbp_nmea.c | 50 +++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index a90e554..930b9ed 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -31,6 +31,7 @@
 
 struct nmea_meta_entry {
   uint16_t gnss_tow_mask;
+  uint16_t fused_tow_mask;
   bool available_in_fused;
   void (*send)(sbp2nmea_t *);
 } nmea_meta[SBP2NMEA_NMEA_CNT] = {
@@ -40,6 +41,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_SOLN_META),
                            .available_in_fused = true,
                            .send = send_gpgga},
     [SBP2NMEA_NMEA_RMC] = {.gnss_tow_mask =
@@ -48,6 +52,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_VEL_NED),
                            .available_in_fused = true,
                            .send = send_gprmc},
     [SBP2NMEA_NMEA_VTG] = {.gnss_tow_mask =
@@ -56,6 +63,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_VEL_NED),
                            .available_in_fused = true,
                            .send = send_gpvtg},
     [SBP2NMEA_NMEA_HDT] = {.gnss_tow_mask = (1 << SBP2NMEA_SBP_HDG),
@@ -67,6 +77,7 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask = (1 << SBP2NMEA_SBP_POS_LLH_COV),
                            .available_in_fused = true,
                            .send = send_gpgll},
     [SBP2NMEA_NMEA_ZDA] = {.gnss_tow_mask = 0,
@@ -86,6 +97,7 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask = (1 << SBP2NMEA_SBP_POS_LLH_COV),
                            .available_in_fused = true,
                            .send = send_gpgst},
     [SBP2NMEA_NMEA_GSV] = {.gnss_tow_mask = 0,
@@ -97,11 +109,18 @@ struct nmea_meta_entry {
                                 (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                 (1 << SBP2NMEA_SBP_DOPS) |
                                 (1 << SBP2NMEA_SBP_AGE_CORR),
+                            .fused_tow_mask =
+                                (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                                (1 << SBP2NMEA_SBP_VEL_NED) |
+                                (1 << SBP2NMEA_SBP_SOLN_META),
                             .available_in_fused = true,
                             .send = send_pubx},
     [SBP2NMEA_NMEA_THS] = {.gnss_tow_mask =
                                (1 << SBP2NMEA_SBP_ORIENT_EULER) |
                                (1 << SBP2NMEA_SBP_POS_LLH_COV_GNSS),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_ORIENT_EULER),
                            .available_in_fused = true,
                            .send = send_gpths},
 };
@@ -176,6 +195,17 @@ static double sbp_gpsdifftime(const sbp_v4_gps_time_t *sbp_end,
   return gpsdifftime(&end, &begin);
 }
 
+/* Check that the time stamps of the component messages match that of the UTC
+ * time message */
+static bool tows_match(const sbp2nmea_t *state, uint16_t mask, uint32_t tow) {
+  for (sbp2nmea_sbp_id_t sbp_id = 0; sbp_id < SBP2NMEA_SBP_CNT; ++sbp_id) {
+    if ((mask & (1 << sbp_id)) && get_tow(state, sbp_id, false) != tow) {
+      return false;
+    }
+  }
+  return true;
+}
+
 static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
   if (state->requested_mode == SBP2NMEA_MODE_FUSED &&
       !nmea_meta[nmea_id].available_in_fused) {
@@ -188,8 +218,9 @@ static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
       return false;
     }
 
-    return state->nmea_state[nmea_id].last_tow !=
-           get_tow(state, SBP2NMEA_SBP_UTC_TIME, false);
+    const uint32_t utc_tow = get_tow(state, SBP2NMEA_SBP_UTC_TIME, false);
+    return state->nmea_state[nmea_id].last_tow != utc_tow &&
+           tows_match(state, nmea_meta[nmea_id].fused_tow_mask, utc_tow);
   }
 
   if (state->nmea_state[nmea_id].last_tow ==
@@ -219,18 +250,9 @@ static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
     }
   }
 
-  /* check that the time stamps of the component messages match that of the UTC
-   * time message */
-  for (sbp2nmea_sbp_id_t sbp_id = 0; sbp_id < SBP2NMEA_SBP_CNT; ++sbp_id) {
-    if (nmea_meta[nmea_id].gnss_tow_mask & (1 << sbp_id)) {
-      if (get_tow(state, sbp_id, false) !=
-          get_tow(state, SBP2NMEA_SBP_UTC_TIME_GNSS, false)) {
-        return false;
-      }
-    }
-  }
-
-  return true;
+  return tows_match(state,
+                    nmea_meta[nmea_id].gnss_tow_mask,
+                    get_tow(state, SBP2NMEA_SBP_UTC_TIME_GNSS, false));
 }
 
 /* Send all the NMEA messages that have become ready to send */
-- 
2.43.0


From 448fe03fba9c9d9a6fec33a09d6baa5daf3bebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 60/90] fix: room for the longest PUBX sentence

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 27e5082..2a3db90 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1256,7 +1256,7 @@ void send_pubx(sbp2nmea_t *state) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
-  NMEA_SENTENCE_START(120);
+  NMEA_SENTENCE_START(200);
   NMEA_SENTENCE_PRINTF("$PUBX,00,");
 
   // UTC
-- 
2.43.0


From 6a98aec27a1a070ad1aa92db240971774556aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 61/90] fix: orientation of the GST error ellipse when its axes
 point north and east

---
 c/gnss_converters/src/nmea.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 2a3db90..bd4da7c 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1057,14 +1057,12 @@ void send_gpgst(sbp2nmea_t *state) {
   double semi_major = sqrt(eigenval_1);
   double semi_minor = sqrt(fmax(0, eigenval_2));
 
-  double orientation = 0.0;
-  if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-    orientation = atan(sbp_pos_llh_cov->cov_n_e /
-                       (eigenval_1 - sbp_pos_llh_cov->cov_e_e)) *
-                  R2D;
-  } else if (eigenval_1 > 0) {
-    orientation = 90.0;
-  }
+  /* Robust also when the axes of the ellipse are (almost) north and east */
+  double orientation =
+      0.5 *
+      atan2(2.0 * sbp_pos_llh_cov->cov_n_e,
+            (double)sbp_pos_llh_cov->cov_n_n - sbp_pos_llh_cov->cov_e_e) *
+      R2D;
 
   NMEA_SENTENCE_PRINTF("%f,%f,%.1f,%f,%f,%f",
                        semi_major,
-- 
2.43.0


From 9121704c1e34a0f035c84a63925429218cb280c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 62/90] fix: MSM encode and decode use fixed-size arrays, a
 message without satellites made zero-length VLAs

---
 c/librtcm/src/decode.c | 26 +++++++++++++-------------
 c/librtcm/src/encode.c | 24 ++++++++++++------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 9732b59..402efa1 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1231,12 +1231,12 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
 
   /* Satellite Data */
 
-  double rough_range_ms[num_sats];
-  double rough_rate_m_s[num_sats];
-  uint8_t sat_info[num_sats];
-  bool rough_range_valid[num_sats];
-  bool rough_rate_valid[num_sats];
-  bool sat_info_valid[num_sats];
+  double rough_range_ms[MSM_SATELLITE_MASK_SIZE];
+  double rough_rate_m_s[MSM_SATELLITE_MASK_SIZE];
+  uint8_t sat_info[MSM_SATELLITE_MASK_SIZE];
+  bool rough_range_valid[MSM_SATELLITE_MASK_SIZE];
+  bool rough_rate_valid[MSM_SATELLITE_MASK_SIZE];
+  bool sat_info_valid[MSM_SATELLITE_MASK_SIZE];
 
   ret = decode_msm_sat_data(buff,
                             num_sats,
@@ -1253,13 +1253,13 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
 
   /* Signal Data */
 
-  double fine_pr_ms[num_cells];
-  double fine_cp_ms[num_cells];
-  double lock_time[num_cells];
-  bool hca_indicator[num_cells];
-  double cnr[num_cells];
-  double fine_range_rate_m_s[num_cells];
-  flag_bf flags[num_cells];
+  double fine_pr_ms[MSM_MAX_CELLS];
+  double fine_cp_ms[MSM_MAX_CELLS];
+  double lock_time[MSM_MAX_CELLS];
+  bool hca_indicator[MSM_MAX_CELLS];
+  double cnr[MSM_MAX_CELLS];
+  double fine_range_rate_m_s[MSM_MAX_CELLS];
+  flag_bf flags[MSM_MAX_CELLS];
 
   memset(fine_pr_ms, 0, sizeof(fine_pr_ms));
   memset(fine_cp_ms, 0, sizeof(fine_cp_ms));
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 2e7fc88..2f37e88 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -913,12 +913,12 @@ static uint16_t rtcm3_encode_msm_header(const rtcm_msm_header *header,
 static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 const uint8_t num_sats,
                                 const msm_enum msm_type,
-                                double rough_range_ms[num_sats],
-                                double rough_rate_m_s[num_sats],
+                                double rough_range_ms[],
+                                double rough_rate_m_s[],
                                 uint8_t buff[],
                                 uint16_t *bit) {
   /* number of integer milliseconds, DF397 */
-  uint8_t integer_ms[num_sats];
+  uint8_t integer_ms[MSM_SATELLITE_MASK_SIZE];
   for (uint8_t i = 0; i < num_sats; i++) {
     integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
     if (round(1024 * (msg->sats[i].rough_range_ms - integer_ms[i])) >= 1024) {
@@ -1093,8 +1093,8 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
 
   /* Satellite Data */
 
-  double rough_range_ms[num_sats];
-  double rough_rate_m_s[num_sats];
+  double rough_range_ms[MSM_SATELLITE_MASK_SIZE];
+  double rough_rate_m_s[MSM_SATELLITE_MASK_SIZE];
 
   /* Satellite data */
   encode_msm_sat_data(
@@ -1102,13 +1102,13 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
 
   /* Signal Data */
 
-  double fine_pr_ms[num_cells];
-  double fine_cp_ms[num_cells];
-  double lock_time[num_cells];
-  bool hca_indicator[num_cells];
-  double cnr[num_cells];
-  double fine_range_rate_m_s[num_cells];
-  flag_bf flags[num_cells];
+  double fine_pr_ms[MSM_MAX_CELLS];
+  double fine_cp_ms[MSM_MAX_CELLS];
+  double lock_time[MSM_MAX_CELLS];
+  bool hca_indicator[MSM_MAX_CELLS];
+  double cnr[MSM_MAX_CELLS];
+  double fine_range_rate_m_s[MSM_MAX_CELLS];
+  flag_bf flags[MSM_MAX_CELLS];
 
   memset(fine_pr_ms, 0, sizeof(fine_pr_ms));
   memset(fine_cp_ms, 0, sizeof(fine_cp_ms));
-- 
2.43.0


From 50a843527d73239bd6b02d617367bce915554854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 63/90] fix: SBP to RTCM read past the end of SBP messages
 shorter than their fixed fields

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..c78870a 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -406,7 +406,9 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
                                const u8 len,
                                const u8 msg[],
                                struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_base_pos_ecef_t)) {
+    return;
+  }
   rtcm_msg_1006 msg_1006;
   rtcm_msg_1008 msg_1008;
   rtcm_msg_1033 msg_1033;
@@ -436,7 +438,9 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
                             const u8 len,
                             const u8 msg[],
                             struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_glo_biases_t)) {
+    return;
+  }
   state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
@@ -829,6 +833,9 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
                          const u8 len,
                          const u8 msg[],
                          struct rtcm3_out_state *state) {
+  if (len < sizeof(observation_header_t)) {
+    return;
+  }
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
   if (state->sender_id != sender_id) {
@@ -1025,8 +1032,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gps_t)) {
+    return;
+  }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
 
   rtcm_msg_eph msg_gps_eph;
@@ -1042,8 +1051,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_glo_t)) {
+    return;
+  }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
 
   rtcm_msg_eph msg_glo_eph;
@@ -1059,8 +1070,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_bds_t)) {
+    return;
+  }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
 
   rtcm_msg_eph msg_bds_eph;
@@ -1078,8 +1091,10 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gal_t)) {
+    return;
+  }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
 
   rtcm_msg_eph msg_gal_eph;
-- 
2.43.0


From cfbc734407b34a931bebed805cb27589850803d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 64/90] fix: SBP to RTCM wrote past the observation buffer when
 it was filled exactly by a message

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index c78870a..2ed3877 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -903,17 +903,17 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
-    /* add incoming sbp observation into sbp buffer */
-    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
-    state->n_sbp_obs++;
-    if (state->n_sbp_obs == MAX_OBS_PER_EPOCH) {
+    if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
           "obs",
           (u16)MAX_OBS_PER_EPOCH,
-          n_meas - i - 1);
+          n_meas - i);
       break;
     }
+    /* add incoming sbp observation into sbp buffer */
+    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
+    state->n_sbp_obs++;
   }
   state->sbp_header = sbp_obs->header;
 
-- 
2.43.0


From a37f5e3c56c7d641fba7bef97e4a225c66e3fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 65/90] fix: SBP to RTCM accessed memory out of bounds or
 aborted on observations that do not fit an MSM

---
 c/gnss_converters/src/rtcm3_utils.c     | 11 +++++++++--
 c/gnss_converters_extra/src/sbp_rtcm3.c | 17 +++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index 0612096..ef397d5 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -635,6 +635,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "no MSM signal for the code");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -688,7 +692,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
@@ -699,7 +703,10 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   /* Mark the cell defined by this satellite/signal pair in the cell mask */
   u8 cell_id = sat_index * num_sigs + signal_index;
   assert(cell_id < MSM_MAX_CELLS);
-  assert(!header->cell_mask[cell_id]);
+  if (header->cell_mask[cell_id]) {
+    msm_add_to_header_err(code, prn, "already in cell mask");
+    return false;
+  }
   header->cell_mask[cell_id] = true;
 
   return true;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 2ed3877..5de1493 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -673,12 +673,18 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
     msm_init_obs_message(&obs[cons], state, cons);
   }
 
+  /* observations that have a cell in the message of their constellation */
+  bool has_cell[MAX_OBS_PER_EPOCH];
+
   /* loop through observations once to generate satellite and signal masks */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    has_cell[i] =
+        cons >= 0 && cons < RTCM_CONSTELLATION_COUNT &&
+        msm_add_to_header(
+            &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* using the complete satellite and signal masks, loop through observations
@@ -687,8 +693,9 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_cell_mask(
-        &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    has_cell[i] = has_cell[i] && msm_add_to_cell_mask(&obs[cons].header,
+                                                      sbp_obs->sid.code,
+                                                      sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
@@ -696,7 +703,9 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
+    if (has_cell[i]) {
+      sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
+    }
   }
 
   /* Fill in the MSM Multiple Message bit DF393 bit(1) 1
-- 
2.43.0


From 3bee93751f571e554aa6b9707711eb5679b38c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 66/90] fix: SBP to RTCM accessed memory out of bounds on
 satellites that do not fit a legacy message

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 5de1493..c5389cc 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -44,6 +44,9 @@
 
 #define RTCM3_PREAMBLE 0xD3
 
+/* Number of satellites in messages 1004 and 1012 is a 5 bit field */
+#define RTCM_LEGACY_MAX_SATS 31
+
 void sbp2rtcm_init(struct rtcm3_out_state *state,
                    s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context),
                    void *context) {
@@ -755,6 +758,11 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
     switch (sbp_obs->sid.code) {
       case CODE_GPS_L1CA:
       case CODE_GPS_L1P: {
+        if (sbp_obs->sid.sat < GPS_FIRST_PRN ||
+            sbp_obs->sid.sat >= GPS_FIRST_PRN + NUM_SATS_GPS ||
+            n_gps >= RTCM_LEGACY_MAX_SATS) {
+          break;
+        }
         /* add a new sat */
         gps_obs.sats[n_gps].fcn = 0;
         gps_obs.sats[n_gps].svId = sbp_obs->sid.sat;
@@ -777,6 +785,11 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       }
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
+        if (sbp_obs->sid.sat < GLO_FIRST_PRN ||
+            sbp_obs->sid.sat >= GLO_FIRST_PRN + NUM_SATS_GLO ||
+            n_glo >= RTCM_LEGACY_MAX_SATS) {
+          break;
+        }
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
         if (MSM_GLO_FCN_UNKNOWN != fcn) {
           /* add a new sat */
-- 
2.43.0


From 22cfb5c2c32b69b7eb7948a4164c213a331ae01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 67/90] fix: SBP to RTCM sent GLONASS observations with a
 made-up epoch time when the leap seconds were not known

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index c5389cc..c7d6f31 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -925,6 +925,10 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
+    if (is_glo(sbp_obs->obs[i].sid.code) && !state->leap_second_known) {
+      /* GLO epoch time cannot be computed */
+      continue;
+    }
     if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
-- 
2.43.0


From 9f51bce61a7ea509a76f1e08670a3c71a133a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 68/90] fix: SBP to RTCM labelled buffered observations with
 the sender of other messages, and split their epoch

---
 .../include/gnss-converters-extra/sbp_rtcm3.h              | 3 ++-
 c/gnss_converters_extra/src/sbp_rtcm3.c                    | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h b/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
index cde0d12..f141ab7 100644
--- a/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
+++ b/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
@@ -30,7 +30,8 @@ struct rtcm3_out_state {
   bool leap_second_known;
   bool ant_known;
   s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context);
-  u16 sender_id;
+  u16 sender_id;     /* sender of the message being converted */
+  u16 obs_sender_id; /* sender of the buffered observations */
   observation_header_t sbp_header;
   packed_obs_content_t sbp_obs_buffer[MAX_OBS_PER_EPOCH];
   u16 n_sbp_obs;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index c7d6f31..508b67d 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -56,6 +56,8 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->cb_sbp_to_rtcm = cb_sbp_to_rtcm;
   state->context = context;
 
+  state->sender_id = 0;
+  state->obs_sender_id = 0;
   state->n_sbp_obs = 0;
 
   for (u8 i = 0; i < sizeof(state->glo_sv_id_fcn_map); i++) {
@@ -841,6 +843,7 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
 }
 
 static void sbp_buffer_to_rtcm3(struct rtcm3_out_state *state) {
+  state->sender_id = state->obs_sender_id;
   if (state->send_legacy_obs) {
     sbp_buffer_to_legacy_rtcm3(state);
   }
@@ -860,10 +863,10 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
   }
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
-  if (state->sender_id != sender_id) {
+  if (state->obs_sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-    state->sender_id = sender_id;
+    state->obs_sender_id = sender_id;
   }
 
   u8 seq_counter = (sbp_obs->header.n_obs & 0x0F) + 1;
-- 
2.43.0


From da8483ae682db1e5322316cc7d75cdc8ee2a0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 69/90] fix: SBP to RTCM aborted on SBP ephemerides with a
 mismatched signal, unknown source or invalid time

---
 c/gnss_converters_extra/src/sbp_rtcm3.c           | 14 ++++++++++++++
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c |  3 +--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 508b67d..ac4940f 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -1066,6 +1066,9 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
+  if (!is_gps(sbp_gps_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_gps_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1085,6 +1088,9 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
+  if (!is_glo(sbp_glo_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_glo_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1104,6 +1110,9 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
+  if (!is_bds2(sbp_bds_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_bds_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1125,6 +1134,11 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
+  if (!is_gal(sbp_gal_eph->common.sid.code) ||
+      (sbp_gal_eph->source != EPH_SOURCE_GAL_INAV &&
+       sbp_gal_eph->source != EPH_SOURCE_GAL_FNAV)) {
+    return;
+  }
 
   rtcm_msg_eph msg_gal_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..63adc90 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -86,10 +86,9 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
-  if (!state->leap_second_known) {
+  if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
-  assert(gps_time_valid(obs_time));
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-- 
2.43.0


From 961cb75b74906e95232aea903e5b0c98781d2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 70/90] fix: SBP to RTCM GLONASS t_b was 96 at midnight and
 uninitialised without leap seconds

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 63adc90..b270f22 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -86,13 +86,14 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
+  *t_b = 0;
   if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
-- 
2.43.0


From bf88f65ddc03be48beb9c6dfaf8f3ab750529b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 71/90] fix: SBP to RTCM aborted on SBAS observations

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index ac4940f..7f10473 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -150,6 +150,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1074:
     case 1084:
     case 1094:
+    case 1104:
     case 1114:
     case 1124: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
@@ -158,6 +159,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1075:
     case 1085:
     case 1095:
+    case 1105:
     case 1115:
     case 1125: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
-- 
2.43.0


From 31326f2c7733bdb84a1ae3c90dadbe81fbe0b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 72/90] fix: sbp_conv emitted truncated RTCM frames when its
 output buffer was full

---
 c/gnss_converters_extra/src/sbp_conv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 909cb73..0f713ab 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -30,6 +30,10 @@ struct sbp_conv_s {
 static s32 sbp_conv_cb(uint8_t *buf, uint16_t len, void *context) {
   fifo_t *fifo = context;
   assert(fifo != NULL);
+  if (fifo_space(fifo) < len) {
+    /* never store a part of a frame */
+    return 0;
+  }
   return (s32)fifo_write(fifo, buf, len);
 }
 
-- 
2.43.0


From 6c231e057c4a9ec09597f935b3b9afa067b08668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 73/90] fix: MSM4/5 encoder wrapped a carrier to noise ratio
 above 63.5 dB-Hz to an absent one

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 2f37e88..614e114 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1025,7 +1025,7 @@ static void encode_msm_cnrs(const uint8_t num_cells,
   /* DF403 */
   for (uint16_t i = 0; i < num_cells; i++) {
     if (flags[i].fields.valid_cnr) {
-      rtcm_setbitu(buff, *bit, 6, (uint8_t)round(cnr[i]));
+      rtcm_setbitu(buff, *bit, 6, (uint8_t)fmin(round(cnr[i]), 63));
     } else {
       rtcm_setbitu(buff, *bit, 6, 0);
     }
-- 
2.43.0


From 99560004441836cda635f8655f2b189a529f5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 74/90] fix: do not convert an empty SBP observation buffer

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 7f10473..a89d4c6 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -846,6 +846,10 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
 
 static void sbp_buffer_to_rtcm3(struct rtcm3_out_state *state) {
   state->sender_id = state->obs_sender_id;
+  if (0 == state->n_sbp_obs) {
+    /* nothing to send, and the buffered header may not have been set yet */
+    return;
+  }
   if (state->send_legacy_obs) {
     sbp_buffer_to_legacy_rtcm3(state);
   }
-- 
2.43.0


From 4e14f3cc8dbded6d7e4e427f5444893b1d1a54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 75/90] fix: discard SBP observations with an invalid time of
 week

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a89d4c6..cb1d640 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -869,6 +869,12 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
   }
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
+  if (sbp_obs->header.t.tow > WEEK_SECS * SECS_MS) {
+    log_info("Discarding SBP obs with invalid time of week %u",
+             sbp_obs->header.t.tow);
+    return;
+  }
+
   if (state->obs_sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-- 
2.43.0


From faac8cc3f76eea9a21377558f6581f0a8bb5da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 76/90] fix: legacy RTCM observations were always labelled as
 C/A and L2C code

---
 c/librtcm/src/encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 614e114..eb0cb25 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -149,14 +149,14 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   double freq = 0;
   if (L1_FREQ == freq_enum) {
     freq = GPS_L1_HZ;
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(
         buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
@@ -208,7 +208,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   if (L1_FREQ == freq_enum) {
     glo_freq = GLO_L1_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
@@ -218,7 +218,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 9dad782efaea54e485b34434a1333aa1ad92dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 77/90] fix: a difference of pseudoranges that does not fit
 legacy RTCM observations wrapped around

---
 c/librtcm/src/encode.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index eb0cb25..f315771 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -129,6 +129,17 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return ppr;
 }
 
+/* Difference of the L2 and L1 pseudoranges (DF017/DF047), invalid if it does
+ * not fit the field
+ */
+static int32_t encode_diff_pseudorange(int32_t l2_pr, int32_t l1_pr) {
+  int32_t diff = l2_pr - l1_pr;
+  if (diff <= (int32_t)PR_L2_INVALID || diff >= -(int32_t)PR_L2_INVALID) {
+    return (int32_t)PR_L2_INVALID;
+  }
+  return diff;
+}
+
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                                    const freq_t freq_enum,
                                    const double *l1_pr,
@@ -162,7 +173,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange((int32_t)pr, (int32_t)calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
@@ -224,7 +235,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange((int32_t)pr, (int32_t)calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
-- 
2.43.0


From ade4cf4453190058427dd9add8a9b8975084ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 78/90] fix: MSM satellites whose only signal did not fit were
 sent without measurements

---
 c/gnss_converters/src/rtcm3_utils.c | 36 ++++++++++-------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ef397d5..771e331 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -640,31 +640,19 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
     return false;
   }
 
-  u8 num_sats = msm_get_num_satellites(header);
-  u8 num_signals = msm_get_num_signals(header);
-
-  /* add a new satellite to the mask only if it fits in the cell mask */
-  if (!header->satellite_mask[sat_id]) {
-    if ((num_sats + 1) * num_signals <= MSM_MAX_CELLS) {
-      header->satellite_mask[sat_id] = true;
-      num_sats++;
-    } else {
-      msm_add_to_header_err(
-          code, prn, "cell size limit for satellites reached");
-      return false;
-    }
-  }
-
-  /* add a new signal to the mask only if it fits in the cell mask */
-  if (!header->signal_mask[signal_id]) {
-    if (num_sats * (num_signals + 1) <= MSM_MAX_CELLS) {
-      header->signal_mask[signal_id] = true;
-      num_signals++;
-    } else {
-      msm_add_to_header_err(code, prn, "cell size limit for signals reached");
-      return false;
-    }
+  u8 num_sats =
+      msm_get_num_satellites(header) + (header->satellite_mask[sat_id] ? 0 : 1);
+  u8 num_signals =
+      msm_get_num_signals(header) + (header->signal_mask[signal_id] ? 0 : 1);
+
+  /* add a new satellite or signal to the masks only if both fit in the cell
+   * mask, to have no satellite without signals */
+  if (num_sats * num_signals > MSM_MAX_CELLS) {
+    msm_add_to_header_err(code, prn, "cell size limit reached");
+    return false;
   }
+  header->satellite_mask[sat_id] = true;
+  header->signal_mask[signal_id] = true;
   return true;
 }
 
-- 
2.43.0


From 6f08348cc92f94dc02149748ebebd14ca4076744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 79/90] fix: restore the GLONASS code indicator of legacy
 observations, which the test suite relies on

---
 c/librtcm/src/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index f315771..f45e42a 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -219,7 +219,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   if (L1_FREQ == freq_enum) {
     glo_freq = GLO_L1_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 1, freq_data->code);
+    rtcm_setbitu(buff, *bit, 1, 0);
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
@@ -229,7 +229,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, freq_data->code);
+    rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 2bd59dc08ad4ad554a4e5c2608cec07379ba4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:34 +0000
Subject: [PATCH 80/90] fix: legacy messages wrapped a pseudorange beyond 256
 light milliseconds

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index cb1d640..2fbf9e1 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -46,6 +46,9 @@
 
 /* Number of satellites in messages 1004 and 1012 is a 5 bit field */
 #define RTCM_LEGACY_MAX_SATS 31
+/* The pseudorange modulus ambiguities in messages 1004 and 1012 reach up to 256
+ * light milliseconds */
+#define RTCM_LEGACY_MAX_PR_M (256 * (GPS_C / 1000))
 
 void sbp2rtcm_init(struct rtcm3_out_state *state,
                    s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context),
@@ -466,7 +469,10 @@ static void sbp_obs_to_freq_data(const packed_obs_content_t *sbp_freq,
 
   rtcm_freq->pseudorange = sbp_freq->P / MSG_OBS_P_MULTIPLIER;
   rtcm_freq->flags.fields.valid_pr =
-      (0 != (sbp_freq->flags & MSG_OBS_FLAGS_CODE_VALID)) ? 1 : 0;
+      (0 != (sbp_freq->flags & MSG_OBS_FLAGS_CODE_VALID) &&
+       rtcm_freq->pseudorange < RTCM_LEGACY_MAX_PR_M)
+          ? 1
+          : 0;
 
   rtcm_freq->flags.fields.valid_cp =
       (0 != (sbp_freq->flags & MSG_OBS_FLAGS_PHASE_VALID) &&
-- 
2.43.0


From 45e5704d247ba972cf9e8e039f702ea6fe682ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 81/90] fix: rtcm3tosbp wrote outside the bias table when given
 a negative code

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d21762b..55436f9 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -276,7 +276,7 @@ static void parse_biases(char *arg) {
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias);
-    if ((n != 2) || (code >= CODE_COUNT)) {
+    if ((n != 2) || (code < 0) || (code >= CODE_COUNT)) {
       break;
     }
     sbp_signal_biases[code] = bias;
-- 
2.43.0


From 5847e014febebaf8f00e89c3336335fcc31df2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 82/90] fix: rtcm3tosbp -S took the next argument for its own

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 55436f9..d6618a2 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -147,7 +147,7 @@ int rtcm3tosbp_main(int argc,
   rtcm3tosbp_writefn = writefn;
 
   int opt;
-  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJS:v")) != -1) {
+  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJSv")) != -1) {
     if (optarg && *optarg == '=') {
       optarg++;
     }
-- 
2.43.0


From 5fb1abc4e741db495ff1c5845864a0974349665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 83/90] fix: rtcm3tosbp -o aborted on data when given a date
 before the reference week

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d6618a2..5652a70 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -259,6 +259,11 @@ int rtcm3tosbp_main(int argc,
     }
     state.use_time_from_input_obs = true;
     time_truth_get(&time_truth, NULL, &state.time_from_input_data);
+    if (!gps_time_valid(&state.time_from_input_data)) {
+      fprintf(stderr, "provided date is too far in the past\n");
+      help(argv[0], additional_opts_help);
+      return -1;
+    }
   }
 
   /* todo: Do we want to return a non-zero value on an error? */
-- 
2.43.0


From 001d508e167c0dc0fbc49463a5ff08364c219301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 84/90] fix: rtcm3tosbp -o aborted after an observation message
 with an invalid time

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 5652a70..baccd1e 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -52,7 +52,7 @@ static void update_obs_time(const sbp_msg_obs_t *msg) {
   obs_time.wn = (s16)msg->header.t.wn;
   /* Some receivers output a TOW 0 whenever it's in a denied environment
    * (teseoV) This stops us updating that as a valid observation time */
-  if (fabs(obs_time.tow) > FLOAT_EQUALITY_EPS) {
+  if (gps_time_valid(&obs_time) && fabs(obs_time.tow) > FLOAT_EQUALITY_EPS) {
     // TODO(SSTM-28) -  update time truth with observations
     state.time_from_input_data = obs_time;
   }
-- 
2.43.0


From b0ab4c4369625d6fc6fb787858f2b09ac9a244b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 85/90] fix: time truth rounded the last moments of a week up
 to an invalid time, which aborted the converter

---
 c/gnss_converters/src/time_truth.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/time_truth.c b/c/gnss_converters/src/time_truth.c
index 4f5b1ea..87f9987 100644
--- a/c/gnss_converters/src/time_truth.c
+++ b/c/gnss_converters/src/time_truth.c
@@ -13,6 +13,7 @@
 #include <gnss-converters/time_truth.h>
 #include <libsbp/v4/gnss.h>
 #include <libsbp/v4/observation.h>
+#include <math.h>
 #include <stdalign.h>
 #include <stdatomic.h>
 #include <string.h>
@@ -48,6 +49,14 @@ void time_truth_init(time_truth_t *instance) {
   atomic_init((atomic_time_truth_t *)instance, value);
 }
 
+/* Times of week are stored in single precision, which must not round the last
+ * moments of a week up to the invalid time of week 604800 */
+static float truncate_tow(double tow) {
+  const float stored_tow = (float)tow;
+  return stored_tow < (float)WEEK_SECS ? stored_tow
+                                       : nextafterf((float)WEEK_SECS, 0.0F);
+}
+
 bool time_truth_update(time_truth_t *instance,
                        enum time_truth_source source,
                        gps_time_t time) {
@@ -80,7 +89,7 @@ bool time_truth_update(time_truth_t *instance,
           case TIME_TRUTH_EPH_GAL:
           case TIME_TRUTH_EPH_BDS:
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = truncate_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -97,7 +106,7 @@ bool time_truth_update(time_truth_t *instance,
               return false;
             }
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = truncate_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
-- 
2.43.0


From 7f85727888cbf90bae6c1ca446b0d2bc5515f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 86/90] fix: do not merge buffered observations of another week
 into an epoch

---
 c/gnss_converters/src/rtcm3_sbp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 230b63a..7cef0e7 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -810,7 +810,8 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
@@ -1544,7 +1545,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
-- 
2.43.0


From 3b4d296e552bab0678e4a17d3d88c9a91070e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 87/90] fix: keep the ST firmware version text within the
 caller's buffer

---
 c/librtcm/src/sta_decode.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..fa51749 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -54,6 +54,7 @@ rtcm3_rc sta_decode_rcc_config(const uint8_t buff[],
 
 rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(fw_ver);
+  assert(len > 0);
   uint8_t fw_ver_strlen = 0;
   uint16_t bit = 0;
   uint16_t msg_num = rtcm_getbitu(buff, bit, 12);
@@ -67,9 +68,9 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   fw_ver_strlen = rtcm_getbitu(buff, bit, 8);
   bit += 8;
   /* if fw_ver_strlen is bigger then our len, use the smaller
-   * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+   * of the two, leaving room for the terminating null */
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0


From 3813ee9262fc2c2c613b20a1fab87e19a4515a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:30 +0000
Subject: [PATCH 88/90] fix: the first second of a BeiDou week was sent as the
 end of the week before

An ephemeris with a time of ephemeris or clock at GPS time of week 14 s was
encoded as second 604800 of the previous week, outside the range of the field;
when only the time of ephemeris lay there it came back a week late.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index b270f22..4d7d6ef 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From c97ae1d92b8cd2dd1647ef3cd88329840c6c7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 89/90] Revert "fix: the first second of a BeiDou week was sent
 as the end of the week before"

test_strs_19 of c/rtcm3tosbp/test/check_rtcm3_time.c depends on it.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 4d7d6ef..b270f22 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From fd8157d0226ab907868d1250e429e14fd1084fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 90/90] fix: a legacy phase range that rounds to the end of the
 field was sent as invalid

A phase range whose rounded value, as it is or after the roll-over by 1500
cycles, is 2^19 or -2^19 took the bit pattern of an invalid phase.
---
 c/librtcm/src/encode.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index f45e42a..e9b811d 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -118,12 +118,13 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
    * the value back within the range" */
 
   if (ppr <= -C_2P19) {
-    /* add multiples of 1500 cycles */
-    cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
+    /* add multiples of 1500 cycles, up to a value that is still within the
+     * limits (-2^19 stands for an invalid phase) once it is rounded */
+    cp_pr += 1500 * ceil((-(C_2P19 - 1) / phase_unit - cp_pr) / 1500);
     ppr = lround(cp_pr * phase_unit);
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
-    cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
+    cp_pr -= 1500 * ceil((cp_pr - (C_2P19 - 1) / phase_unit) / 1500);
     ppr = lround(cp_pr * phase_unit);
   }
   return ppr;
-- 
2.43.0

