From 4fbcf383846b128167be7389ef4d3141aa143735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 01/31] fix: align the input stream to 8 bytes before reading a
 double

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..bccabf7 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -66,6 +66,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 
 void MessageIStream::read(double* value)
 {
+    align(sizeof(double));
     uint8_t bytes[sizeof(double)];
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
-- 
2.43.0


From 8f7d25824334cea162e44be91f00ce9fcfd48a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 02/31] fix: a variant has 1-byte alignment, so arrays of
 variants take no padding

---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From c5a1618457c37394480da064c4c09b3152e647a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 03/31] fix: write the array length where it was reserved when
 padding precedes it

---
 src/dbus_type_array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..f3281e2 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,8 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    // The position of the length is known only once it has been aligned
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From 9b84ed46c2b339f39647068437976aa572b35b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 04/31] fix: asUint32 threw for values above INT32_MAX

---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From e66dacac439dc64a0cb254d2c312aac732a617dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 05/31] fix: consume an authentication line before acting on it

---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..eb1b186 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From 82bc70f0fbf0ea15555ea2377ef4ef2f986d8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 06/31] fix: keep the flags of a received method call, so
 no-reply calls are recognised

---
 src/dbus_message_methodcall.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
-- 
2.43.0


From c642bc3cc44cbe59468b909be93c2f31dca27981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 07/31] fix: initialise the message header fields that a
 message may not carry

---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..00f11c6 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From 2996aece2c192e019fed666b86df01870b26ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 08/31] fix: deliver error replies without a string body, and
 keep their message

---
 src/dbus_message_error.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..fc52297 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,10 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // By convention the first argument, when it is a string, is the message
+    if (getParameterCount() && Type::getMarshallingSignature(getParameter(0)) == "s") {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From 2c79218a9773260091f295bd4e8f6f7fe148d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 09/31] fix: match a signal whose path is exactly the rule's
 path namespace

---
 src/dbus_matchrule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..35b7adf 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -113,8 +113,9 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
         // This handles the 3rd case, by checking the character _after_ the match is
         // found: if it's not the terminator or another path (i.e. a new /) the
         // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // The root namespace matches every path.
+        if (path_namespace != "/" && signal_path.size() > path_namespace.size()
+            && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From 4278775aba8faadf40348420b35c818b6f2a20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 10/31] fix: throw on a malformed match rule instead of reading
 out of bounds

---
 src/dbus_matchrule.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 35b7adf..16aeaf7 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -40,8 +40,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
         boost::split(keyvalue, param, boost::is_any_of("="));
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
+        if (keyvalue.size() < 2 || keyvalue[1].size() < 2) {
+            throw std::runtime_error("Malformed match rule: " + rule);
+        }
 
         // 3. Strip the single quotes from the value
         keyvalue[1].pop_back();
-- 
2.43.0


From 07e412904b4729b39e6a25679d5d5b4350728950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 11/31] fix: drop the cached octets of a malformed message on
 reset

---
 src/dbus_messageprotocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..2a892bf 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From e2e5c206ad6dac46410b0e8ab9d4f6f0e693f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 12/31] fix: reject unknown type codes, which made an array
 decode loop forever

---
 src/dbus_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..f8ec64e 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,7 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -149,7 +150,7 @@ DBus::Type::Generic DBus::Type::create(const std::string& type)
     Log::write(DBus::Log::ERROR,
         "DBus :: Can not create a signature type of (%s)\n", type.c_str());
 
-    return Type::Generic();
+    throw std::runtime_error("Invalid type in signature: " + type);
 }
 
 std::string
-- 
2.43.0


From d3903cb89f1cc1157714d97e90ba3fe44d284492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 13/31] fix: reject mismatched brackets, which made a struct
 decode recurse forever

---
 src/dbus_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index f8ec64e..65e3e4b 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -379,6 +379,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("Mis-matched brackets in signature: " + declaration);
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -403,6 +404,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("Mis-matched braces in signature: " + declaration);
     }
 
     result += declaration[idx];
-- 
2.43.0


From abefeef5a607ed6bed577d7e045c3208f2fd253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 14/31] fix: do not recurse once per character of a received
 array signature

---
 src/dbus_type.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 65e3e4b..756ffc1 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -362,6 +362,11 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
     std::string result;
 
     // Handle arrays
+    while (idx < declaration.size() && declaration[idx] == 'a') {
+        result += declaration[idx];
+        ++idx;
+    }
+
     if (declaration[idx] == '(') {
         // Find the matching bracket, and skip all internal signatures
         size_t number_of_brackets = 0;
@@ -409,10 +414,6 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
 
     result += declaration[idx];
 
-    if (declaration[idx] == 'a') {
-        result += extractSignature(declaration, idx + 1);
-    }
-
     return result;
 }
 
-- 
2.43.0


From 2b6b4cf4c561abf61ad8387c090959cf4454dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 15/31] fix: limit how deeply a received message can nest,
 which could overflow the stack

---
 src/dbus_messageistream.cpp | 19 +++++++++++++++++++
 src/dbus_messageistream.h   | 11 +++++++++++
 src/dbus_type_array.cpp     |  1 +
 src/dbus_type_dictentry.cpp |  1 +
 src/dbus_type_struct.cpp    |  1 +
 src/dbus_type_variant.cpp   |  1 +
 6 files changed, 34 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index bccabf7..49ba47d 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -21,13 +21,31 @@
 #include <stdexcept>
 #include <string>
 
+namespace {
+
+// The maximum depth of a message is 64, and its header and its body are each
+// read as one more struct
+const size_t MAX_DEPTH = 64 + 1;
+
+} // namespace
+
 namespace DBus {
 
+MessageIStream::ContainerScope::ContainerScope(MessageIStream& stream)
+    : m_stream(stream)
+{
+    if (stream.m_depth >= MAX_DEPTH) {
+        throw std::runtime_error("Containers are nested too deeply");
+    }
+    ++stream.m_depth;
+}
+
 MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     bool swapByteOrder)
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,6 +53,7 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..721bf05 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -53,6 +54,16 @@ public:
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
 
+    // Held while the contents of a container are read. Throws when containers
+    // are nested more deeply than a message is allowed to nest them.
+    class ContainerScope {
+        MessageIStream& m_stream;
+
+    public:
+        ContainerScope(MessageIStream& stream);
+        ~ContainerScope() { --m_stream.m_depth; }
+    };
+
     void align(size_t alignment);
     uint8_t read();
     void read(uint8_t* value, size_t size);
diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index f3281e2..8bc4d8f 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -161,6 +161,7 @@ void DBus::Type::Array::marshallContents(MessageOStream& stream) const
 
 void DBus::Type::Array::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::ContainerScope scope(stream);
     uint32_t size = 0;
     stream.read<uint32_t>(&size);
     std::string signature = Type::extractSignature(getSignature(), 1);
diff --git a/src/dbus_type_dictentry.cpp b/src/dbus_type_dictentry.cpp
index 55c62c0..ff1b811 100644
--- a/src/dbus_type_dictentry.cpp
+++ b/src/dbus_type_dictentry.cpp
@@ -88,6 +88,7 @@ void DBus::Type::DictEntry::marshall(MessageOStream& stream) const
 
 void DBus::Type::DictEntry::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::ContainerScope scope(stream);
     stream.align(8);
 
     const char key_type = getSignature().at(1);
diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..7894f7d 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -140,6 +140,7 @@ void DBus::Type::Struct::marshall(MessageOStream& stream) const
 
 void DBus::Type::Struct::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::ContainerScope scope(stream);
     // A struct must start on an 8-byte boundary regardless of the type of the
     // struct fields.
     stream.align(8);
diff --git a/src/dbus_type_variant.cpp b/src/dbus_type_variant.cpp
index 0d16a6d..099e6f2 100644
--- a/src/dbus_type_variant.cpp
+++ b/src/dbus_type_variant.cpp
@@ -85,6 +85,7 @@ void DBus::Type::Variant::marshall(MessageOStream& stream) const
 
 void DBus::Type::Variant::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::ContainerScope scope(stream);
     Type::Signature signature;
     signature.unmarshall(stream);
     m_ContainedSignature = signature.getValue();
-- 
2.43.0


From fcaf5ee0e4b15529ac3bc6b65249d3a12e4d16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 16/31] fix: never hand out serial zero

---
 src/dbus_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..83d89d5 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,6 +35,10 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
+    if (m_SerialCounter == 0) {
+        // The counter has wrapped, and zero is not a valid serial
+        m_SerialCounter = 1;
+    }
     m_Header.serial = serial ? serial : m_SerialCounter++;
 }
 
-- 
2.43.0


From 5a53c008c009519c382c3a4b7a4f1a254f49f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 17/31] fix: introspect one signal argument per complete type,
 not per character

---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..b7afafe 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        const std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From f5c08ea1729567f2b28108b0aef65342d35e73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 18/31] fix: log a prefix as text, not as a format, and make
 the level safe to change

---
 src/dbus_log.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 4ad2a31..a3a58a8 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -16,9 +16,10 @@
 // <http://www.gnu.org/licenses/>.
 
 #include "dbus_log.h"
+#include <atomic>
 #include <cstdint>
 
-static size_t g_Level = DBus::Log::WARNING;
+static std::atomic<size_t> g_Level { DBus::Log::WARNING };
 
 bool DBus::Log::isActive(size_t type)
 {
@@ -49,7 +50,7 @@ void DBus::Log::writeHex(size_t type, const std::string& prefix,
         return;
     }
 
-    write(type, prefix.c_str());
+    write(type, "%s", prefix.c_str());
 
     size_t column = 0;
     for (auto it : hex) {
@@ -59,7 +60,7 @@ void DBus::Log::writeHex(size_t type, const std::string& prefix,
             column = 0;
             if (hex.size() % 32) { // pad the next line if there's likely to be one.
                 // i.e. not 32, 64, 96 length etc
-                write(type, std::string(prefix.length(), ' ').c_str()); // pad 2nd line to match prefix
+                write(type, "%s", std::string(prefix.length(), ' ').c_str()); // pad 2nd line to match prefix
             }
         }
     }
-- 
2.43.0


From c1ed5955d91bde8c8950f331acd48e120f5f3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 19/31] fix: throw on a signature too long for its length byte

---
 src/dbus_messageostream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..8f6a466 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,7 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
 
 namespace DBus {
 
@@ -101,6 +102,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("Signature is longer than 255 characters");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
-- 
2.43.0


From 30e8c00a1a2f43755813e55ecd36bd01266f74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 20/31] fix: forget a pending call before running its callback

---
 src/dbus_native.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..4277957 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -199,8 +199,11 @@ void DBus::Native::onReceiveMethodReturn(
     ++m_Stats.count_receive_methodreturns;
 
     if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+        // Forget the call first, so that it is answered once, even if the callback
+        // throws
+        const auto success = it->second.success;
         m_MessageQueue.erase(it);
+        success(result);
     }
 }
 
@@ -210,8 +213,9 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        const auto failure = it->second.failure;
         m_MessageQueue.erase(it);
+        failure(error);
     }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
-- 
2.43.0


From a5f4e35b895dd1aad57421a1b0022ddd49db6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 21/31] fix: let a handler change the registrations it was
 reached through

---
 src/dbus_native.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 4277957..ad4a319 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself, so it is a copy that runs
+        const auto handler = it->second;
+        handler(method);
     }
 }
 
@@ -230,12 +232,16 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself, so it is a copy that runs
+        const auto handler = it->second;
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
+        // A handler may add or remove rules, so it is a copy that is walked
+        const auto rules = m_RulesMap;
+        for (auto it : rules) {
             if (it.second.isMatched(signal)) {
                 it.second.invoke(signal);
             }
-- 
2.43.0


From fd882ef82d7174f85c7cce9eb9dca479433c6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 22/31] fix: keep the data handler alive while it replaces
 itself

---
 src/dbus_transport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..ac99aa6 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -52,7 +52,9 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
-    m_ReceiveDataCallback(buffer);
+    // The callback may replace itself, so it is a copy that runs
+    const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
+    callback(buffer);
 
     if (error) {
         if (error.category() == boost::asio::error::misc_category && error.value() == boost::asio::error::misc_errors::eof) {
-- 
2.43.0


From db1130af746a9f639afbc2f01e7c7337379a389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 23/31] fix: read the authentication type under its lock, and
 give it a value

---
 src/dbus_auth.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index eb1b186..137cdd8 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -34,14 +34,20 @@ AGREE   ---->
 
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
-    : m_Transport(transport)
+    : m_AuthType(AUTH_BASIC)
+    , m_Transport(transport)
 {
 }
 
 void DBus::AuthenticationProtocol::reset()
 {
     m_data.clear();
-    sendAuth(m_AuthType);
+    AuthRequired type;
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        type = m_AuthType;
+    }
+    sendAuth(type);
 }
 
 void DBus::AuthenticationProtocol::sendAuthListMethods()
-- 
2.43.0


From 28102ea0548f7a8a68fb0be55e337f984b629375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 24/31] fix: ignore AGREE_UNIX_FD unless it was requested after
 an OK

---
 src/dbus_auth.cpp | 7 +++++++
 src/dbus_auth.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 137cdd8..34b172a 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -35,6 +35,7 @@ AGREE   ---->
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
     : m_AuthType(AUTH_BASIC)
+    , m_UnixFDRequested(false)
     , m_Transport(transport)
 {
 }
@@ -42,6 +43,7 @@ DBus::AuthenticationProtocol::AuthenticationProtocol(
 void DBus::AuthenticationProtocol::reset()
 {
     m_data.clear();
+    m_UnixFDRequested = false;
     AuthRequired type;
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
@@ -121,6 +123,7 @@ bool DBus::AuthenticationProtocol::onOK(
         return true;
     }
 
+    m_UnixFDRequested = true;
     sendNegotiateUnixFD();
     return false;
 }
@@ -146,6 +149,10 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+    if (!m_UnixFDRequested) {
+        // Not an answer to anything, and authentication has not been accepted yet
+        return false;
+    }
     sendBegin();
     return true;
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..38f9f3f 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -61,6 +61,7 @@ protected:
 private:
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
+    bool m_UnixFDRequested;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 3d1e76d5e99d66bcaa23a7327439d524ae0e6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 25/31] fix: make the statistics counters atomic, as two
 threads update and read them

---
 src/dbus_native.h    | 20 ++++++++++----------
 src/dbus_transport.h | 11 ++++++-----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..91f3306 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -137,16 +137,16 @@ private:
     };
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..c59502e 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 
@@ -76,11 +77,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent { 0 };
+        std::atomic<size_t> count_messagesqueued { 0 };
+        std::atomic<size_t> count_messagespumped { 0 };
+        std::atomic<size_t> bytes_sent { 0 };
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From b53647f60336644852103b3da742ff5a729e5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 26/31] fix: keep a message handler alive while it replaces
 itself

---
 src/dbus_messageprotocol.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 2a892bf..c8acd95 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -222,19 +222,19 @@ void DBus::MessageProtocol::onBodyComplete(const std::string& body)
         std::lock_guard<std::recursive_mutex> lock(m_CallbackMutex);
         switch (type) {
         case TYPE_METHOD:
-            m_MethodCallCallback(Message::MethodCall(m_HeaderStruct, body));
+            Message::CallbackFunctionMethodCall { m_MethodCallCallback }(Message::MethodCall(m_HeaderStruct, body));
             break;
 
         case TYPE_METHOD_RETURN:
-            m_MethodReturnCallback(Message::MethodReturn(m_HeaderStruct, body));
+            Message::CallbackFunctionMethodReturn { m_MethodReturnCallback }(Message::MethodReturn(m_HeaderStruct, body));
             break;
 
         case TYPE_ERROR:
-            m_ErrorCallback(Message::Error(m_HeaderStruct, body));
+            Message::CallbackFunctionError { m_ErrorCallback }(Message::Error(m_HeaderStruct, body));
             break;
 
         case TYPE_SIGNAL:
-            m_SignalCallback(Message::Signal(m_HeaderStruct, body));
+            Message::CallbackFunctionSignal { m_SignalCallback }(Message::Signal(m_HeaderStruct, body));
             break;
 
         default:
-- 
2.43.0


From 5b42d7a8f11e0df936e6339c4fd71053a8db378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 27/31] fix: write one message at a time, so that they cannot
 be interleaved

---
 src/dbus_transport.cpp | 38 +++++++++++++++++++++++++++++++++++---
 src/dbus_transport.h   |  5 +++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index ac99aa6..f38e5a9 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -79,6 +79,9 @@ DBus::Transport::~Transport()
     {
         boost::recursive_mutex::scoped_lock guard(m_SendMutex);
         m_ReadyToSend = false;
+        // Let what has been sent reach the socket before it is shut down
+        m_WritesDone.wait_for(guard, boost::chrono::seconds(1),
+            [this] { return m_WriteQueue.empty(); });
     }
 
     {
@@ -144,6 +147,23 @@ void DBus::Transport::sendOctetDirect(uint8_t data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::shared_ptr<std::string> buf(new std::string());
     buf.get()->push_back(static_cast<char>(data));
+    queueWrite(buf);
+}
+
+void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
+{
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteQueue.push_back(buf);
+    // A write that starts before the last one has completed could put its data in
+    // the middle of it
+    if (m_WriteQueue.size() == 1) {
+        startWrite();
+    }
+}
+
+void DBus::Transport::startWrite()
+{
+    std::shared_ptr<std::string> buf(m_WriteQueue.front());
     boost::asio::async_write(
         m_socket, boost::asio::buffer(*buf.get()),
         boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
@@ -157,9 +177,7 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 
     // We don't know when the write will complete, so we copy the buffer
     std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
@@ -173,6 +191,20 @@ void DBus::Transport::handle_write_output(
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
     }
+
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    if (error) {
+        // The data after it cannot be delivered either
+        m_WriteQueue.clear();
+    } else {
+        m_WriteQueue.pop_front();
+        if (!m_WriteQueue.empty()) {
+            startWrite();
+        }
+    }
+    if (m_WriteQueue.empty()) {
+        m_WritesDone.notify_all();
+    }
 }
 
 void DBus::Transport::setDataHandler(
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index c59502e..9cebc71 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -22,6 +22,7 @@
 #include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -58,6 +59,8 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void queueWrite(const std::shared_ptr<std::string>& buf);
+    void startWrite();
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -71,6 +74,8 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    std::deque<std::shared_ptr<std::string>> m_WriteQueue;
+    boost::condition_variable_any m_WritesDone;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 24b543ad890525d642d24694f1bf15e1826ef340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:06 +0000
Subject: [PATCH 28/31] fix: leave the guid out of a unix:path bus address

---
 src/dbus_platform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..85e1904 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -43,7 +43,8 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        path = path.substr(UNIX_PATH_PREFIX.size());
+        return path.substr(0, path.find(",guid="));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From c6f973ee440d2b256687c909aaca6dc8c222dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:35 +0000
Subject: [PATCH 29/31] fix: count the bytes read

---
 src/dbus_transport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index f38e5a9..a04d3cc 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -51,6 +51,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     // The callback may replace itself, so it is a copy that runs
     const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
-- 
2.43.0


From db54e311f10ba4b25b6b92f65c725ca1a91703cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:35 +0000
Subject: [PATCH 30/31] fix: count the errors received

---
 src/dbus_native.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index ad4a319..83e361d 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -213,6 +213,7 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(error.getSerialOfReply());
+    ++m_Stats.count_receive_errors;
 
     if (it != m_MessageQueue.end()) {
         const auto failure = it->second.failure;
-- 
2.43.0


From f99dbe7393d60a8ec0cc77d0adbf0812436087c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:35 +0000
Subject: [PATCH 31/31] fix: count the bytes of the whole handshake, not of its
 last delivery

---
 src/dbus_native.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 83e361d..7b77e13 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -62,8 +62,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
-- 
2.43.0

