From 08ffd82b28debc85017aa6f49e091a4ffbc08b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:55 +0000
Subject: [PATCH 01/13] fix: choose SysEx8 packet format from the actual
 payload size

send_sysex8 decided between 'complete' and 'start' with total_data_size(), which
counts one or three manufacturer ID bytes while SysEx8 always sends two: a one
byte ID with 12 data bytes gave 'complete' plus 'end', a three byte ID with 11
data bytes gave a lone 'start' that never ended.
---
 inc/midi/sysex.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..3a0f589 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -364,9 +364,9 @@ void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&&
 {
     constexpr size_t max_payload_size = 13;
 
-    // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    // initialize first packet, manufacturerID always takes two payload bytes
+    auto p = (sysex.data.size() + 2 <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
+                                                         : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From 112871b2cbaedc84d8cac17389fe53fc40451cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:39 +0000
Subject: [PATCH 02/13] fix: enforce the SysEx collector size limit on data
 bytes and recover from overflow

The limit was compared with the vector's capacity and counted manufacturer ID
bytes: messages that fit were dropped, messages over a lowered limit were
reported, and after an overflow the partial data and manufacturer ID leaked into
the next message.
---
 src/sysex_collector.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..fb56c7b 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -71,20 +71,12 @@ void sysex7_collector::feed(const universal_packet& p)
     const auto numBytes = m.payload_size();
     if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
-        if (limited_sysex_data_size)
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
+        if (m_max_sysex_data_size > 0)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +104,12 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -190,20 +188,12 @@ void sysex8_collector::feed(const universal_packet& p)
     const auto numBytes = m.payload_size();
     if (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
-        if (limited_sysex_data_size)
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
+        if (m_max_sysex_data_size > 0)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +226,12 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From d73707349d137e949485f8c8af32e69e9963a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:25 +0000
Subject: [PATCH 03/13] fix: leave SysEx collectors in a clean state when the
 callback throws

An exception from the application's callback skipped reset(), so the delivered
message's data and manufacturer ID state leaked into the next message.
---
 src/sysex_collector.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index fb56c7b..c7d6812 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -32,6 +32,25 @@ namespace midi {
 
 //--------------------------------------------------------------------------
 
+namespace {
+
+    template<typename Collector>
+    struct reset_on_exit
+    {
+        explicit reset_on_exit(Collector& c)
+          : collector(c)
+        {
+        }
+
+        ~reset_on_exit() { collector.reset(); }
+
+        Collector& collector;
+    };
+
+} // namespace
+
+//--------------------------------------------------------------------------
+
 void sysex7_collector::set_max_sysex_data_size(size_t s)
 {
     if ((m_max_sysex_data_size = s))
@@ -120,12 +139,14 @@ void sysex7_collector::feed(const universal_packet& p)
     {
     case data_status::sysex7_complete:
     case data_status::sysex7_end:
+    {
+        const reset_on_exit guard{ *this }; // even if the callback throws
         if (m_cb)
         {
             m_cb(m_sysex7);
         }
-        reset();
         break;
+    }
     default:
         m_state = data_status::sysex7_continue;
         break;
@@ -242,12 +263,14 @@ void sysex8_collector::feed(const universal_packet& p)
     {
     case packet_format::complete:
     case packet_format::end:
+    {
+        const reset_on_exit guard{ *this }; // even if the callback throws
         if (m_cb)
         {
             m_cb(m_sysex8, m_stream_id);
         }
-        reset();
         break;
+    }
     default:
         m_state = packet_format::cont;
         break;
-- 
2.43.0


From f81cff8203a67fd1b6872ec78b3a325a0e27829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:25 +0000
Subject: [PATCH 04/13] fix: keep byte stream parser consistent when a SysEx
 packet callback throws or resets

sysex_continue_packet/sysex_end_packet updated the parser state after invoking
the callback: an exception left a full packet (index running past the end of the
packet) or a finished SysEx in progress, and reset() called from the callback was
undone.
---
 src/midi1_byte_stream.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index 5c4bf9d..6034387 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -314,14 +314,16 @@ void midi1_byte_stream_parser::sysex_continue_packet(uint8_t byte)
     m_packet.set_byte(m_packet_byte, byte);
     if (++m_packet_byte == 8)
     {
+        // update state before invoking the callback, it may throw or reset the parser
+        auto full_packet = m_packet;
+        m_packet         = make_sysex7_continue_packet(m_group);
+        m_packet_byte    = 2;
+
         if (m_invoke_callbacks)
         {
-            m_packet.set_byte(1, (m_packet.status() & 0xF0) + 6);
-            m_packet_callback(m_packet);
+            full_packet.set_byte(1, (full_packet.status() & 0xF0) + 6);
+            m_packet_callback(full_packet);
         }
-
-        m_packet      = make_sysex7_continue_packet(m_group);
-        m_packet_byte = 2;
     }
 }
 
@@ -348,13 +350,15 @@ void midi1_byte_stream_parser::sysex_end_packet()
         m_packet.set_byte(1, data_status::sysex7_end + cur_packet_size);
     }
 
+    // update state before invoking the callback, it may throw
+    const auto last_packet = m_packet;
+    m_packet               = universal_packet{};
+    m_packet_byte          = 2;
+
     if (m_invoke_callbacks)
     {
-        m_packet_callback(m_packet);
+        m_packet_callback(last_packet);
     }
-
-    m_packet      = universal_packet{};
-    m_packet_byte = 2;
 }
 
 //--------------------------------------------------------------------------
-- 
2.43.0


From a621e926dbb0e88521c2b0129ff75ae5ba20684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:51 +0000
Subject: [PATCH 05/13] fix: keep jitter reduced messages in order when the
 reference time moved back

---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From 99a9ecacf711ead2e93163bfedf9221a2ed5358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:50 +0000
Subject: [PATCH 06/13] fix: treat empty property exchange header values as
 strings

is_number read the first character of an empty string_view and then
reported it (as well as a lone minus sign) as number, which yields a header
that is no JSON.
---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..a035064 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty())
+            return false;
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 6391816d90b39c9a77ec6b6e74fc3415eade5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:21 +0000
Subject: [PATCH 07/13] fix: check size before reading the version of a
 discovery message

validate() of the discovery views read the message version of messages
too short to have one.
---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 27b7a02388d9a008b8a7f6947ab6ccd9692ea715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 08/13] fix: do not truncate the size of profile specific data
 given as vector

The data length of profile specific data has 28 bits, the overload taking a
vector cut it to 16 bits.
---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 9af4c927dabc4bec96b638af1ddf010129440be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:37 +0000
Subject: [PATCH 09/13] fix: write packets to streams independent of the
 stream's formatting state

With left alignment the zeros were appended instead of prepended, with
showbase they preceded the base prefix, and the fill character remained
changed.
---
 src/universal_packet.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..ce74d63 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -38,15 +38,20 @@ namespace {
 
     struct iobase_restore_flags
     {
-        explicit iobase_restore_flags(std::ios_base& strm)
+        explicit iobase_restore_flags(std::ios& strm)
           : strm(strm)
         {
         }
 
-        ~iobase_restore_flags() { strm.flags(flags); }
+        ~iobase_restore_flags()
+        {
+            strm.flags(flags);
+            strm.fill(fill);
+        }
 
-        std::ios_base&          strm;
+        std::ios&               strm;
         std::ios_base::fmtflags flags = strm.flags();
+        char                    fill  = strm.fill();
     };
 
 } // namespace
@@ -61,7 +66,7 @@ std::ostream& operator<<(std::ostream& out, const universal_packet& p)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::hex << std::right << std::noshowbase << std::setfill('0') << std::setw(8) << p.data[w];
     }
     return out;
 }
-- 
2.43.0


From ae2a84074c30b0f9a9dd8cd33ce163c952adeb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:45 +0000
Subject: [PATCH 10/13] fix: report packets cut off at the end of a stream as
 failed

Reading a packet stopped silently if the end of the stream was met after one
of its words, so an incomplete packet was taken as read.
---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index ce74d63..a9c1bea 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -77,13 +77,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (!in.fail())
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (in.fail())
                 break;
         }
     }
-- 
2.43.0


From a4f2085be6b217e5438317791650ed3bc5508c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:28 +0000
Subject: [PATCH 11/13] fix: keep the eighth bit of UTF-8 characters in
 endpoint and function block names

Names are sent as UTF-8 but were masked to 7 bit on reception.
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From ac22f4f865c4bddbfa0cf043d3d1701c049d8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:55 +0000
Subject: [PATCH 12/13] fix: function blocks spanning all 16 groups were
 announced as spanning none

num_groups_spanned was masked to four bits, so that the valid value 16 became 0.
---
 inc/midi/stream_message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 39eddf0..a181c86 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -619,7 +619,7 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From 647a9d4cee609af4c1520635bfe0f30a42f98ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:55 +0000
Subject: [PATCH 13/13] fix: avoid signed overflow converting increments just
 above -64 to pitch_increment

The positive branch already handles rounding up to 2^31, the negative one negated
a value that does not fit into int32_t.
---
 inc/midi/types.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..d65402d 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,11 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        const auto result = pitch_7_25(-d).value;
+        if (result <= uint32_t(std::numeric_limits<int32_t>::max()))
+            value = -static_cast<int32_t>(result);
+        else
+            value = std::numeric_limits<int32_t>::min();
     }
 }
 
-- 
2.43.0

