From d32409ce73e51c98ea6beb76bb2f23e9c1bff93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 01/51] fix: oneof serialization drops fields after the first
 oneof and does not compile with two oneofs

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 10 +++++-----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..abe2fa3 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,16 +209,16 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\t{\n\t\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
+    stream << "\t\tswitch(index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\t\tbreak;\n";
     }
-    stream << "\t}\n";
+    stream << "\t\t}\n\t}\n";
 }
 
 void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum, std::string_view full_name)
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..38b65a7 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From 6db150ab837d1d4cc4c2b005d6116fe115c6a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 02/51] fix: protobuf reader overwrites the first bytes of a
 field after a short read

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..01070b0 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = (uint8_t *)data;
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From 8541b17ebc091d30e191ccffe423763f8213e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 03/51] fix: delimited message cut at a field boundary is
 accepted as complete

---
 include/spb/pb.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..3a48ca7 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -135,6 +135,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size, const deseria
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
@@ -159,6 +160,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From 8810b80b106da24fa9e8b1d44b830556376a618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 04/51] fix: wire type of repeated fields is not checked, a
 non-packed element of a packed field eats the rest of the stream

---
 include/spb/pb/deserialize.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 01070b0..b5081c3 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -601,21 +601,21 @@ void deserialize(auto &stream, Container &value, wire_type type)
 {
     if constexpr (is_packed(mode.encoder))
     {
-        deserialize_packed<mode>(stream, value);
+        if (type == wire_type::length_delimited)
+            return deserialize_packed<mode>(stream, value);
+    }
+
+    if constexpr (mode.max_count)
+        check_size(value.size() + 1, mode.max_count);
+
+    if constexpr (std::is_same_v<typename Container::value_type, bool>)
+    {
+        check_wire_type_or_throw(type, wire_type::varint);
+        value.emplace_back(read_varint<bool>(stream));
     }
     else
     {
-        if constexpr (mode.max_count)
-            check_size(value.size() + 1, mode.max_count);
-
-        if constexpr (std::is_same_v<typename Container::value_type, bool>)
-        {
-            value.emplace_back(read_varint<bool>(stream));
-        }
-        else
-        {
-            deserialize<mode>(stream, value.emplace_back(), type);
-        }
+        deserialize<reset_packed(mode)>(stream, value.emplace_back(), type);
     }
 }
 
-- 
2.43.0


From 25112e2302c81d963311d807219251f6f996eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 05/51] fix: exception from the reader terminates the process
 while json is skipped

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..6f51d19 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -305,7 +305,7 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
         consume_bytes(1);
         if (skip_white_space)
-- 
2.43.0


From eb8a6bf95891310db27a8a1ba2799d4c45f032ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 06/51] fix: json reader checks the wrong character behind
 true, false and null

---
 include/spb/json/deserialize.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6f51d19..8030b00 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -148,7 +148,10 @@ struct istream_buffer
             return false;
 
         if (size() == token.size()) [[unlikely]]
+        {
+            skip(token.size());
             return true;
+        }
 
         const auto char_behind_token = p_start[token.size()];
         if (!isalnum(char_behind_token) && char_behind_token != '_')
@@ -253,9 +256,12 @@ struct istream_reader
             return false;
 
         if (token_view.size() == token.size()) [[unlikely]]
+        {
+            skip(token.size());
             return true;
+        }
 
-        const auto char_behind_token = token_view.back();
+        const auto char_behind_token = token_view[token.size()];
         if (!isalnum(char_behind_token) && char_behind_token != '_')
         {
             skip(token.size());
-- 
2.43.0


From 9552f8e9a123db83555090f4344fedd5e27e276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 07/51] fix: white space behind json scalars is rejected

---
 include/spb/json/base64.h        |  1 +
 include/spb/json/deserialize.hpp | 36 +++++++++++---------------------
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..7cc2556 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -170,6 +170,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             auto consumed_bytes = 3 - padding_size;
             //- +1 is for "
             stream.skip(5);
+            stream.skip_white_spaces();
             if constexpr (spb::detail::proto_field_bytes_resizable<decltype(output)>)
             {
                 if (max_output_size && (output.size() + consumed_bytes > max_output_size))
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 8030b00..e0b4998 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -154,19 +154,12 @@ struct istream_buffer
         }
 
         const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (isalnum(char_behind_token) || char_behind_token == '_')
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -262,19 +255,12 @@ struct istream_reader
         }
 
         const auto char_behind_token = token_view[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (isalnum(char_behind_token) || char_behind_token == '_')
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -535,6 +521,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            stream.skip_white_spaces();
             return;
         }
         char utf8_buffer[4];
@@ -564,6 +551,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
-- 
2.43.0


From 8a3cbd0f404ff8f53bfe4711c18fe532309b1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 08/51] fix: utf8 of json strings is never validated

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index e0b4998..55fed52 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -521,6 +521,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
             stream.skip_white_spaces();
             return;
         }
@@ -528,7 +529,6 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         auto utf8_size = unescape(stream, utf8_buffer);
         append_to_value(utf8_buffer, utf8_size);
     }
-    spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
-- 
2.43.0


From 96e16e2f7ccfb6a0a07c5db34b6f1b8df9de5f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 09/51] fix: unterminated base64 value makes the json decoder
 loop forever

---
 include/spb/json/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 7cc2556..655e369 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -109,6 +109,9 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
 
         //- align to 4 bytes
         auto aligned_length = length & ~3;
+        if (!end_found && aligned_length <= 4) [[unlikely]]
+            throw std::runtime_error("invalid base64");
+
         if (aligned_length > 4) [[likely]]
         {
             auto out_length = ((aligned_length - 4) / 4) * 3;
-- 
2.43.0


From ff5b3be4e4517e784f0773e28abd0759a453169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 10/51] fix: size of nested messages is computed in time
 exponential in the nesting depth

---
 include/spb/pb/serialize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..ae6139c 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -363,9 +363,14 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
     if (!size) [[unlikely]]
         return;
 
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
-    serialize_value(stream, value);
+    if constexpr (stream_type::size_only)
+        stream.write(nullptr, size);
+    else
+        serialize_value(stream, value);
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
-- 
2.43.0


From cf29fea130868ac409dbf8180dbf51c2c51dcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 11/51] fix: json members unknown to a message without fields
 are rejected

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index abe2fa3..18dbe16 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -367,8 +367,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From c54a088c68beae947b6929ca60bca424c70fa6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 12/51] fix: string keys of json maps are written without
 escaping

---
 include/spb/json/serialize.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..0d9ae6e 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -445,7 +445,10 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     {
         if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+            stream.write('"');
+            write_escaped(stream, map_key);
+            write_string(stream, R"(":)");
         }
         else
         {
-- 
2.43.0


From 289a0b6610d080b08308305518f3d537c2a83475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 13/51] fix: present but empty strings, bytes and messages are
 lost by the serializers

---
 include/spb/json/serialize.hpp                | 13 +++-
 include/spb/pb/serialize.hpp                  | 70 +++++++++++++++----
 src/spb-proto-compiler/dumper/json/dumper.cpp |  2 +-
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  2 +-
 4 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 0d9ae6e..f960488 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -467,6 +467,17 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = true;
 }
 
+/**
+ * @brief serialize a value that is known to be present (engaged optional, selected oneof field),
+ *        such a value is written even if it is empty
+ */
+template <field_attributes attributes>
+void serialize_present(auto &stream, const auto &value, std::string_view field)
+{
+    serialize_key(stream, field);
+    serialize<attributes>(stream, value);
+}
+
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value)
 {
@@ -478,7 +489,7 @@ template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes attributes, typename T>
diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index ae6139c..19487f3 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -132,6 +132,42 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
 template <serialize_mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &value);
 
+void serialize_message(auto &stream, uint32_t field, const auto &value, size_t size)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
+    serialize_tag(stream, field, wire_type::length_delimited);
+    serialize_varint(stream, size);
+    if constexpr (stream_type::size_only)
+        stream.write(nullptr, size);
+    else
+        serialize_value(stream, value);
+}
+
+/**
+ * @brief serialize a value that is known to be present (engaged optional, element of a repeated field or of
+ *        a map, selected oneof field), such a value is written even if it is empty
+ */
+template <serialize_mode mode> void serialize_present(auto &stream, uint32_t field, const auto &value)
+{
+    using value_type = std::remove_cvref_t<decltype(value)>;
+
+    if constexpr (spb::detail::proto_message<value_type>)
+    {
+        return serialize_message(stream, field, value, serialize_size<mode>(value));
+    }
+    else if constexpr (spb::detail::proto_field_string<value_type> ||
+                       spb::detail::proto_field_bytes<value_type>)
+    {
+        if (value.empty())
+        {
+            serialize_tag(stream, field, wire_type::length_delimited);
+            return serialize_varint(stream, 0);
+        }
+    }
+    serialize<mode>(stream, field, value);
+}
+
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, spb::detail::proto_field_number auto value)
 {
@@ -283,6 +319,8 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_byte
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &value)
 {
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     if (value.empty())
         return;
 
@@ -291,11 +329,20 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
 
     for (const auto &[k, v] : value)
     {
-        const auto size = serialize_size<key_encoder>(1, k) + serialize_size<value_encoder>(2, v);
+        auto size_stream = ostream_size();
+        serialize_present<key_encoder>(size_stream, 1, k);
+        serialize_present<value_encoder>(size_stream, 2, v);
         serialize_tag(stream, field, wire_type::length_delimited);
-        serialize_varint(stream, size);
-        serialize<key_encoder>(stream, 1, k);
-        serialize<value_encoder>(stream, 2, v);
+        serialize_varint(stream, size_stream.size);
+        if constexpr (stream_type::size_only)
+        {
+            stream.write(nullptr, size_stream.size);
+        }
+        else
+        {
+            serialize_present<key_encoder>(stream, 1, k);
+            serialize_present<value_encoder>(stream, 2, v);
+        }
     }
 }
 
@@ -325,7 +372,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize_present<mode>(stream, field, value);
         }
     }
 }
@@ -346,14 +393,14 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
@@ -363,14 +410,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
     if (!size) [[unlikely]]
         return;
 
-    using stream_type = std::remove_cvref_t<decltype(stream)>;
-
-    serialize_tag(stream, field, wire_type::length_delimited);
-    serialize_varint(stream, size);
-    if constexpr (stream_type::size_only)
-        stream.write(nullptr, size);
-    else
-        serialize_value(stream, value);
+    serialize_message(stream, field, value, size);
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 18dbe16..bf09a43 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -213,7 +213,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch(index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
                << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\t\tbreak;\n";
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 38b65a7..0625f43 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
-- 
2.43.0


From 228b4887c17c88902b17ac5c4b0ed21337f254e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 14/51] fix: escape at the end of the key buffer ends a skipped
 json string

---
 include/spb/json/deserialize.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 55fed52..836e5e9 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -387,6 +387,13 @@ auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size
             return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
         }
 
+        if (pos + 1 == view.size()) [[unlikely]]
+        {
+            // escaped char is behind the view, keep the '\'
+            stream.skip(pos);
+            break;
+        }
+
         // +2 for \ and char behind
         start = pos + 2;
     }
-- 
2.43.0


From a291293c2c1ad8f51a235d2a551acce2f5569488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 15/51] fix: hostile nesting of messages or skipped json values
 exhausts the stack

---
 include/spb/bits.h               |  9 +++++++++
 include/spb/json/deserialize.hpp | 31 +++++++++++++++++++++++++++++++
 include/spb/pb/deserialize.hpp   | 17 +++++++++++------
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..961b264 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -44,4 +44,13 @@ static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t
         throw std::runtime_error("bitfield overflow");
 }
 
+//- messages (and skipped json values) are deserialized recursively, hostile nesting must not exhaust the stack
+static constexpr uint32_t max_nesting_depth = 1000;
+
+static inline void check_nesting_depth(uint32_t depth)
+{
+    if (depth > max_nesting_depth) [[unlikely]]
+        throw std::runtime_error("nesting is too deep");
+}
+
 } // namespace spb::detail
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 836e5e9..caf828a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -93,10 +93,31 @@ template <spb::detail::proto_field_bytes T> void clear(T &container)
     }
 }
 
+/**
+ * @brief counts the nesting of json values
+ *
+ */
+struct nesting_guard
+{
+    uint32_t &depth;
+
+    explicit nesting_guard(auto &stream) : depth(stream.depth)
+    {
+        spb::detail::check_nesting_depth(++depth);
+    }
+    ~nesting_guard()
+    {
+        --depth;
+    }
+    nesting_guard(const nesting_guard &)            = delete;
+    nesting_guard &operator=(const nesting_guard &) = delete;
+};
+
 struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth = 0;
 
     istream_buffer(const void *start, const void *end) noexcept
         : p_start((uint8_t *)start), p_end((uint8_t *)end)
@@ -197,6 +218,10 @@ struct istream_reader
     spb::io::buffered_reader reader;
     size_t m_consumed_size = 0;
 
+  public:
+    uint32_t depth = 0;
+
+  private:
     void consume_bytes(size_t size)
     {
         m_consumed_size += size;
@@ -762,6 +787,8 @@ void ignore_key_and_value(auto &stream)
 
 void ignore_object(auto &stream)
 {
+    const auto nesting = nesting_guard(stream);
+
     //- '{' was already checked by caller
     stream.consume_current_char(true);
 
@@ -781,6 +808,8 @@ void ignore_object(auto &stream)
 
 void ignore_array(auto &stream)
 {
+    const auto nesting = nesting_guard(stream);
+
     //- '[' was already checked by caller
     stream.consume_current_char(true);
 
@@ -850,6 +879,8 @@ void deserialize_variant(auto &stream, T &variant)
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_message auto &value)
 {
+    const auto nesting = nesting_guard(stream);
+
     if (!stream.consume_and_skip_white_space('{')) [[unlikely]]
         throw std::runtime_error("expecting '{'");
 
diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index b5081c3..1acac40 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -33,9 +33,11 @@ struct istream_reader
     size_t bytes_left;
     size_t consumed_bytes = 0;
     spb::io::reader on_read;
+    uint32_t depth;
 
-    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max()) noexcept
-        : bytes_left(size), on_read(reader)
+    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max(),
+                   uint32_t depth = 0) noexcept
+        : bytes_left(size), on_read(reader), depth(depth)
     {
     }
     size_t consumed_size() const noexcept
@@ -100,7 +102,7 @@ struct istream_reader
 
         bytes_left -= sub_size;
         consumed_bytes += sub_size;
-        return istream_reader(on_read, sub_size);
+        return istream_reader(on_read, sub_size, depth + 1);
     }
 
     void skip_or_throw(size_t size)
@@ -119,12 +121,14 @@ struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth;
 
-    istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end)
+    istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end), depth(0)
     {
         assert(start <= end);
     }
-    istream_buffer(const uint8_t *start, size_t size) noexcept : p_start(start), p_end(start + size)
+    istream_buffer(const uint8_t *start, size_t size, uint32_t depth = 0) noexcept
+        : p_start(start), p_end(start + size), depth(depth)
     {
     }
     size_t size() const noexcept
@@ -173,7 +177,7 @@ struct istream_buffer
 
         const auto sub_start = p_start;
         p_start += sub_size;
-        return istream_buffer(sub_start, sub_size);
+        return istream_buffer(sub_start, sub_size, depth + 1);
     }
 
     void skip_or_throw(size_t size)
@@ -710,6 +714,7 @@ template <serialize_mode>
 void deserialize(auto &stream, spb::detail::proto_message auto &value, wire_type type)
 {
     check_wire_type_or_throw(type, wire_type::length_delimited);
+    spb::detail::check_nesting_depth(stream.depth);
 
     while (!stream.empty())
     {
-- 
2.43.0


From 6f0882f8f020a28ca28cf4eeb93d303f0d0aaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 16/51] fix: long or out of range numbers of unknown json
 members are rejected

---
 include/spb/json/deserialize.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index caf828a..ff1fd7c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -827,8 +827,23 @@ void ignore_array(auto &stream)
 
 void ignore_number(auto &stream)
 {
+    const auto view = stream.view(1, 32);
     double value;
-    deserialize<field_attributes{}>(stream, value);
+    const auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
+    //- out of range is not a problem for a number that is not used
+    if (result.ec == std::errc::invalid_argument) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
+    auto is_number_char = [](auto c)
+    { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-'; };
+    //- the number can be longer than the view
+    const auto is_cut = view.size() == 32 && std::all_of(view.begin(), view.end(), is_number_char);
+    stream.skip(is_cut ? view.size() : result.ptr - view.data());
+    while (is_cut && is_number_char(stream.current_char()))
+    {
+        stream.skip(1);
+    }
+    stream.skip_white_spaces();
 }
 
 void ignore_bool(auto &stream)
-- 
2.43.0


From d35403122050aa5791d20b705cc34c8b5613c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 17/51] fix: empty required message is missing in the protobuf
 output

---
 include/spb/pb/serialize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index 19487f3..d678ba5 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -406,11 +406,7 @@ void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
-    const auto size = serialize_size<mode>(value);
-    if (!size) [[unlikely]]
-        return;
-
-    serialize_message(stream, field, value, size);
+    serialize_message(stream, field, value, serialize_size<mode>(value));
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
-- 
2.43.0


From a46e1c960162a1737ac9087ce68294bc1c46254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 18/51] fix: read errors and interrupted reads of proto files
 are ignored

---
 src/spb-proto-compiler/io/file.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/io/file.cpp b/src/spb-proto-compiler/io/file.cpp
index cc7d645..8d9851d 100644
--- a/src/spb-proto-compiler/io/file.cpp
+++ b/src/spb-proto-compiler/io/file.cpp
@@ -9,6 +9,7 @@
 \***************************************************************************/
 
 #include "file.h"
+#include <cerrno>
 #include <cstdio>
 #include <cstring>
 #include <stdexcept>
@@ -20,8 +21,24 @@ auto load_file(const std::filesystem::path &file_path) -> std::string
 
     if (auto *p_file = fopen(file_path.string().c_str(), "rb"); p_file)
     {
-        const auto read = fread(file_content.data(), 1, file_content.size(), p_file);
+        auto read  = size_t{};
+        auto error = 0;
+        while (read < file_content.size() && error == 0)
+        {
+            read += fread(file_content.data() + read, 1, file_content.size() - read, p_file);
+            if (feof(p_file))
+                break;
+
+            if (ferror(p_file))
+            {
+                error = errno == EINTR ? 0 : errno;
+                clearerr(p_file);
+            }
+        }
         fclose(p_file);
+        if (error != 0)
+            throw std::runtime_error(std::string(" ") + strerror(error));
+
         file_content.resize(read);
         return file_content;
     }
-- 
2.43.0


From c52f1d11057a3e8bebf33444e5978905249bed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 19/51] fix: types of very short imported files are read after
 they were moved

---
 src/spb-proto-compiler/parser/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..81e0435 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -1019,6 +1019,9 @@ void set_default_attributes(proto_file &file)
             .path    = file,
             .content = load_file(file),
         };
+        //- the parsed tree points into the content, which has to stay in place when the file is moved
+        //- (a short string is stored inside of the std::string object)
+        result.content.reserve(2 * sizeof(std::string));
 
         parse_proto_file_content(result, ctx);
         resolve_messages(result);
-- 
2.43.0


From 2df3e78c7ec0f08de54ab1a58c2c63c5093a4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 20/51] fix: compiler never ends on a proto file with a null
 character

---
 src/spb-proto-compiler/parser/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 81e0435..1f8aa31 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -978,7 +978,10 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
-        return;
+        if (stream.empty())
+            return;
+
+        return stream.throw_parse_error("unexpected null character");
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
     case 'i':
-- 
2.43.0


From 214ef4061b408316a8c0f697735ef5fd491cae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 21/51] fix: reporting an invalid option value reads outside of
 the proto file

---
 src/spb-proto-compiler/dumper/header.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..04a3a9c 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -16,6 +16,7 @@
 #include "ast/proto-message.h"
 #include "indent_ostream.h"
 #include "parser/parser.h"
+#include <functional>
 #include <set>
 #include <spb/json/deserialize.hpp>
 #include <string>
@@ -566,7 +567,10 @@ void dump_package_end(std::ostream &stream, const proto_file &file)
 void throw_parse_error(const proto_file &file, std::string_view at, std::string_view message)
 {
     auto stream = spb::char_stream(file.content);
-    stream.skip_to(at.data());
+    //- `at` does not have to be a part of the content (`true`, default values)
+    if (!std::less<>()(at.data(), stream.begin()) && !std::less<>()(stream.end(), at.data()))
+        stream.skip_to(at.data());
+
     stream.throw_parse_error(message);
 }
 
-- 
2.43.0


From ef7350fef1a6c8943dcb6df577c9ab29d53be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 22/51] fix: compiler is terminated by an exception thrown
 while parsing its arguments

---
 src/spb-proto-compiler/main.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 1deb7eb..a4bedb2 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -85,9 +85,7 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
 }
 
-} // namespace
-
-auto main(int argc, char *argv[]) -> int
+auto run(int argc, char *argv[]) -> int
 {
     if (argc < 2)
     {
@@ -177,18 +175,25 @@ auto main(int argc, char *argv[]) -> int
         return 1;
     }
 
+    for (const auto &input_file : input_files)
+    {
+        process_file(input_file, import_paths, output_dir);
+    }
+
+    return 0;
+}
+
+} // namespace
+
+auto main(int argc, char *argv[]) -> int
+{
     try
     {
-        for (const auto &input_file : input_files)
-        {
-            process_file(input_file, import_paths, output_dir);
-        }
+        return run(argc, argv);
     }
     catch (const std::exception &e)
     {
         std::cerr << e.what() << '\n';
         return 1;
     }
-
-    return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 3cda0c39a809965fbf4f7c52639048536a182920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 23/51] fix: compiler reports success when its output can not
 be written

---
 src/spb-proto-compiler/main.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index a4bedb2..7bc1b14 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -10,12 +10,16 @@
 
 #include "dumper/dumper.h"
 #include "parser/parser.h"
+#include <cerrno>
 #include <cstdio>
 #include <cstring>
 #include <exception>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <stdexcept>
+#include <string_view>
 #include <vector>
 
 namespace
@@ -69,6 +73,16 @@ auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::pat
     return {};
 }
 
+void write_file(const fs::path &output_file, std::string_view content)
+{
+    errno       = 0;
+    auto stream = std::ofstream(output_file);
+    stream.write(content.data(), static_cast<std::streamsize>(content.size()));
+    stream.close();
+    if (!stream)
+        throw std::runtime_error(output_file.string() + ": " + strerror(errno != 0 ? errno : EIO));
+}
+
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
@@ -77,12 +91,17 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     const auto output_cpp = cpp_file_name_from_proto(input_file, ".pb.cc");
     const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
 
-    fs::create_directories(output_dir / rel_output_dir);
-    auto cpp_header_stream = std::ofstream(output_dir / rel_output_dir / output_cpp_header);
+    //- generate everything first, an error must not leave incomplete files
+    auto cpp_header_stream = std::ostringstream();
+    auto cpp_stream        = std::ostringstream();
+    cpp_header_stream.exceptions(std::ios::badbit);
+    cpp_stream.exceptions(std::ios::badbit);
     dump_cpp_header(parsed_file, cpp_header_stream);
-
-    auto cpp_stream = std::ofstream(output_dir / rel_output_dir / output_cpp);
     dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
+
+    fs::create_directories(output_dir / rel_output_dir);
+    write_file(output_dir / rel_output_dir / output_cpp_header, cpp_header_stream.view());
+    write_file(output_dir / rel_output_dir / output_cpp, cpp_stream.view());
 }
 
 auto run(int argc, char *argv[]) -> int
-- 
2.43.0


From 9af3d18e4b40e8e8eb1b8cd3d094df78522e7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 24/51] fix: errors while generating code are lost and leave
 truncated files

---
 src/spb-proto-compiler/dumper/indent_ostream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/indent_ostream.h b/src/spb-proto-compiler/dumper/indent_ostream.h
index 4facbd3..1b08ba6 100644
--- a/src/spb-proto-compiler/dumper/indent_ostream.h
+++ b/src/spb-proto-compiler/dumper/indent_ostream.h
@@ -57,7 +57,7 @@ class indented_streambuf : public std::streambuf
             set_indent(indent_level + 1);
 
         last_char = ch;
-        return dest->sputc(ch);
+        return dest->sputc(traits_type::to_char_type(ch));
     }
 
     virtual std::streamsize xsputn(const char *s, std::streamsize n) override
@@ -66,7 +66,7 @@ class indented_streambuf : public std::streambuf
 
         for (std::streamsize i = 0; i < n; ++i)
         {
-            if (overflow(s[i]) == traits_type::eof())
+            if (overflow(traits_type::to_int_type(s[i])) == traits_type::eof())
                 break;
             ++written;
         }
@@ -83,5 +83,7 @@ class indented_ostream : public std::ostream
   public:
     explicit indented_ostream(std::ostream &os) : std::ostream(&buffer), buffer(os.rdbuf())
     {
+        //- the state of this stream is checked by nobody, an error has to be reported by an exception
+        exceptions(std::ios::badbit);
     }
 };
-- 
2.43.0


From 696161ba28169f19a8c3f9262c5d13c92522c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 25/51] fix: error about a missing input does not name the file

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 1f8aa31..5b9dfcd 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -54,7 +54,7 @@ auto find_file_in_paths(const fs::path &file_name, const parsing_ctx &ctx) -> fs
         }
     }
 
-    throw std::runtime_error(strerror(ENOENT));
+    throw std::runtime_error(file_name.string() + ": " + strerror(ENOENT));
 }
 
 void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view message)
-- 
2.43.0


From 9cf4381ac63612f8eabf9ea771f12adc32a3f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 26/51] fix: file importing itself by another path is parsed
 without an end

---
 src/spb-proto-compiler/parser/parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 5b9dfcd..e5fedb6 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -57,6 +57,12 @@ auto find_file_in_paths(const fs::path &file_name, const parsing_ctx &ctx) -> fs
     throw std::runtime_error(file_name.string() + ": " + strerror(ENOENT));
 }
 
+//- one file can be imported using different paths ("a.proto", "./a.proto")
+auto parsed_file_key(const fs::path &file) -> std::string
+{
+    return file.lexically_normal().string();
+}
+
 void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view message)
 {
     if (!parsed) [[unlikely]]
@@ -380,7 +386,7 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         try
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
-            if (!ctx.already_parsed.insert(import_file_path.string()).second)
+            if (!ctx.already_parsed.insert(parsed_file_key(import_file_path)).second)
                 return;
 
             file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
@@ -1063,7 +1069,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(file_path.string());
+    already_parsed.insert(parsed_file_key(file_path));
     return parse_proto_file(file_path, ctx);
 }
 
-- 
2.43.0


From 1320c1764b00514b070e7c1d44db1eb95ef259a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 27/51] fix: types of a file imported by two files are not
 found

---
 src/spb-proto-compiler/parser/parser.cpp | 29 ++++++++++++++++++++++--
 src/spb-proto-compiler/parser/parser.h   |  9 +++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index e5fedb6..f489988 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -374,6 +374,9 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
     const auto import_name = parse_string_literal(stream);
     auto import_comment    = std::move(comment);
     consume_statement_end(stream, import_comment);
+    if (ctx.names_only)
+        return;
+
     try
     {
         const auto base_dir = file.path.parent_path();
@@ -386,9 +389,16 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         try
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
-            if (!ctx.already_parsed.insert(parsed_file_key(import_file_path)).second)
+            const auto [parsed, first_import] =
+                ctx.already_parsed.try_emplace(parsed_file_key(import_file_path), false);
+
+            //- ignore cyclic imports
+            if (!first_import && !parsed->second)
                 return;
 
+            //- the file was already imported by another file, imports of an import are not visible
+            import_ctx.names_only = !first_import;
+
             file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
                 std::move(import_comment);
         }
@@ -1020,6 +1030,15 @@ void set_default_attributes(proto_file &file)
     file.attributes.exclude  = {"nanopb.proto", "spb.proto", "google/protobuf/descriptor.proto"};
 }
 
+void mark_as_resolved(proto_message &message)
+{
+    message.resolved = 1;
+    for (auto &sub_message : message.messages)
+    {
+        mark_as_resolved(sub_message);
+    }
+}
+
 [[nodiscard]] auto parse_proto_file(const fs::path &file, parsing_ctx &ctx) -> proto_file
 {
     try
@@ -1033,7 +1052,13 @@ void set_default_attributes(proto_file &file)
         result.content.reserve(2 * sizeof(std::string));
 
         parse_proto_file_content(result, ctx);
+        if (ctx.names_only)
+        {
+            mark_as_resolved(result.package);
+            return result;
+        }
         resolve_messages(result);
+        ctx.already_parsed[parsed_file_key(file)] = true;
         return result;
     }
     catch (const std::exception &e)
@@ -1069,7 +1094,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(parsed_file_key(file_path));
+    already_parsed.try_emplace(parsed_file_key(file_path), false);
     return parse_proto_file(file_path, ctx);
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..13675f0 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -12,7 +12,7 @@
 
 #include "ast/proto-file.h"
 #include <filesystem>
-#include <set>
+#include <map>
 #include <span>
 #include <string_view>
 
@@ -39,14 +39,17 @@ auto parse_proto_file(const std::filesystem::path &file_path,
                       std::span<const std::filesystem::path> import_paths,
                       const std::filesystem::path &base_dir = std::filesystem::current_path()) -> proto_file;
 
-namespace fs       = std::filesystem;
-using parsed_files = std::set<std::string>;
+namespace fs = std::filesystem;
+//- path of the file -> true when the whole file is parsed, false when it is still being parsed
+using parsed_files = std::map<std::string, bool>;
 
 struct parsing_ctx
 {
     const fs::path &base_dir;
     parsed_files &already_parsed;
     std::span<const fs::path> import_paths;
+    //- parse only names of the types, content was already checked
+    bool names_only = false;
 };
 
 void parse_proto_file_content(proto_file &file, parsing_ctx &ctx);
-- 
2.43.0


From 0ad498f1b57db94bd926708fcecbb2b07829424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 28/51] fix: hostile nesting in a proto file exhausts the stack
 of the compiler

---
 src/spb-proto-compiler/parser/char_stream.h |  3 +++
 src/spb-proto-compiler/parser/parser.cpp    | 28 +++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..50eb2c1 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -50,6 +50,9 @@ struct char_stream
     }
 
   public:
+    //- current depth of nested definitions, maintained by the parser
+    size_t nesting = 0;
+
     explicit char_stream(std::string_view content) noexcept
         : p_start(content.data()), p_begin(p_start), p_end(p_begin + content.size())
     {
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f489988..7c1a037 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -63,6 +63,28 @@ auto parsed_file_key(const fs::path &file) -> std::string
     return file.lexically_normal().string();
 }
 
+//- messages and option values are parsed recursively, hostile nesting must not exhaust the stack
+constexpr size_t max_nesting = 128;
+
+struct nesting_guard
+{
+    spb::char_stream &stream;
+
+    explicit nesting_guard(spb::char_stream &stream_) : stream(stream_)
+    {
+        if (stream.nesting >= max_nesting)
+            stream.throw_parse_error("nesting is too deep");
+
+        stream.nesting += 1;
+    }
+    ~nesting_guard()
+    {
+        stream.nesting -= 1;
+    }
+    nesting_guard(const nesting_guard &)                     = delete;
+    auto operator=(const nesting_guard &) -> nesting_guard & = delete;
+};
+
 void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view message)
 {
     if (!parsed) [[unlikely]]
@@ -429,10 +451,14 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 {
     auto *current = &options;
     auto *option  = (proto_option *)nullptr;
+    auto depth    = size_t{};
     //- ( ident | "(" fullIdent ")" ) { "." ident }
     parse_comment(stream);
     do
     {
+        if (++depth > max_nesting)
+            stream.throw_parse_error("option name is too long");
+
         const auto full_ident = stream.consume('(');
         const auto ident =
             full_ident ? parse_full_ident(stream).proto_name : parse_ident(stream, false).proto_name;
@@ -493,6 +519,7 @@ void parse_option_struct(spb::char_stream &stream, proto_option &value)
 
 void parse_option_value(spb::char_stream &stream, proto_option &option)
 {
+    const auto nesting = nesting_guard(stream);
     switch (stream.current_char())
     {
     case '{':
@@ -827,6 +854,7 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
 {
     // messageBody = messageName "{" { field | enum | message | extend | extensions | group |
     // option | oneof | mapField | reserved | emptyStatement } "}"
+    const auto nesting = nesting_guard(stream);
     auto new_message = proto_message{proto_base{
         .name    = parse_ident(stream),
         .comment = std::move(message_comment),
-- 
2.43.0


From 396bee522d3bb020758131fc18b2eb1159328a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 29/51] fix: nanopb option max_count is ignored

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..7f869ae 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From d2e7ab186633e16700d8fd9d5d99930e8109ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 30/51] fix: json names of fields with capital letters differ
 from GPB

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index bf09a43..0b05bdf 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -15,7 +15,6 @@
 #include "template-h.h"
 #include <algorithm>
 #include <array>
-#include <cctype>
 #include <cstdint>
 #include <map>
 #include <set>
@@ -41,17 +40,11 @@ auto json_name_from_options(const proto_attributes &attributes) -> std::string_v
     return attributes.json_name;
 }
 
+//- the same conversion as GPB does: remove underscores and capitalize the letters behind them
 auto convert_to_camelCase(std::string_view input) -> std::string
 {
-    auto result = std::string(input);
-    if (!result.empty())
-        result[0] = char(std::tolower(result[0]));
-
-    if (input.find('_') == std::string::npos)
-        return result;
-
-    auto index = 0U;
-    auto up    = false;
+    auto result = std::string();
+    auto up     = false;
     for (auto c : input)
     {
         if (c == '_')
@@ -60,12 +53,10 @@ auto convert_to_camelCase(std::string_view input) -> std::string
         }
         else
         {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
-            index += 1;
+            result += (up && c >= 'a' && c <= 'z') ? char(c - 'a' + 'A') : c;
             up = false;
         }
     }
-    result.resize(index);
     return result;
 }
 
-- 
2.43.0


From a09c195a9b823b741d484b3bfc84cd7bb3b0995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 31/51] fix: a required string with a default can not be set to
 an empty value

An empty required string was left out of the output, so it was read back
as its default value.
---
 src/spb-proto-compiler/dumper/header.cpp      | 11 +++++++++++
 src/spb-proto-compiler/dumper/header.h        | 10 ++++++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp |  2 +-
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  2 +-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 04a3a9c..4e2b4a9 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -631,3 +631,14 @@ auto replace(std::string_view input, std::string_view what, std::string_view wit
 
     return result;
 }
+
+auto has_non_empty_default(const proto_field &field) -> bool
+{
+    if (field.label != proto_field::Label::NONE)
+        return false;
+
+    if (field.type != proto_field::Type::STRING && field.type != proto_field::Type::BYTES)
+        return false;
+
+    return !field.attributes.default_.empty() && field.attributes.default_ != "\"\"";
+}
diff --git a/src/spb-proto-compiler/dumper/header.h b/src/spb-proto-compiler/dumper/header.h
index 4f335bc..7bb4054 100644
--- a/src/spb-proto-compiler/dumper/header.h
+++ b/src/spb-proto-compiler/dumper/header.h
@@ -32,6 +32,16 @@ void dump_cpp_definitions(const proto_file &file, std::ostream &stream);
  */
 auto replace(std::string_view input, std::string_view what, std::string_view with) -> std::string;
 
+/**
+ * @brief a required string (or bytes) with a non empty default value has to be always serialized,
+ *        a missing one is read as the default value
+ *
+ * @param field message field
+ *
+ * @return true if the empty value of the field has to be serialized
+ */
+auto has_non_empty_default(const proto_field &field) -> bool;
+
 /**
  * @brief throw parse error 'at' offset
  *
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 0b05bdf..c04240f 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -304,7 +304,7 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_field &field)
 {
-    stream << "\tserialize<";
+    stream << (has_non_empty_default(field) ? "\tserialize_present<" : "\tserialize<");
     dump_field_attributes(stream, file, message, field);
     stream << ">(stream, value." << field.name.get_name() << ", \"" << json_field_name(field) << "\"sv);\n";
 }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 0625f43..93deeb5 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -192,7 +192,7 @@ void dump_serialize_mode(std::ostream &stream, const proto_file &file, const pro
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_field &field)
 {
-    stream << "\tserialize<";
+    stream << (has_non_empty_default(field) ? "\tserialize_present<" : "\tserialize<");
     dump_serialize_mode(stream, file, message, field);
     stream << ">(stream, " << field.number << ", value." << field.name.get_name() << ");\n";
 }
-- 
2.43.0


From 61b1301cfd9681d4a2b3a5391dbd86e262cd7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 32/51] fix: options of oneof fields are ignored

json_name, max_size, type, ... of a oneof field were parsed but not used,
options in its comment were not parsed at all.
---
 src/spb-proto-compiler/ast/ast-options.cpp | 8 ++++++++
 src/spb-proto-compiler/parser/parser.cpp   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 7f869ae..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -292,6 +292,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 7c1a037..bee7f55 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -813,6 +813,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 62c21d1933db5c56a119b09d11b15d22e86550bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 33/51] fix: options in the comment of a map field are ignored

---
 src/spb-proto-compiler/parser/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index bee7f55..260def0 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -788,6 +788,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
-- 
2.43.0


From fff70f14ce2441d79b42caf229e95e265f1b60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 34/51] fix: size limit of a oneof field is not checked while
 reading json

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index c04240f..74bf556 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -434,6 +434,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -445,6 +446,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
-- 
2.43.0


From cc09b38c05044dc59513f78eaee81c74ceea80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 35/51] fix: string or bytes from a reader allocates the
 announced size before its data arrives

---
 include/spb/pb/deserialize.hpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1acac40..bb0ff10 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -14,6 +14,7 @@
 #include "../concepts.h"
 #include "../utf8.h"
 #include "wire-types.h"
+#include <algorithm>
 #include <climits>
 #include <cstddef>
 #include <cstdint>
@@ -30,6 +31,9 @@ namespace spb::pb::detail
 
 struct istream_reader
 {
+    //- size of a sub stream is only announced by the peer, data can be missing
+    static constexpr size_t max_chunk_size = 64 * 1024;
+
     size_t bytes_left;
     size_t consumed_bytes = 0;
     spb::io::reader on_read;
@@ -119,6 +123,9 @@ struct istream_reader
 
 struct istream_buffer
 {
+    //- all data are already in memory
+    static constexpr size_t max_chunk_size = std::numeric_limits<size_t>::max();
+
     const uint8_t *p_start;
     const uint8_t *p_end;
     uint32_t depth;
@@ -500,6 +507,23 @@ void deserialize(auto &stream, Container &p_value, wire_type type)
     deserialize<mode>(stream, value, type);
 }
 
+/**
+ * @brief reads the whole stream into a resizable value, memory is allocated as the data arrive
+ */
+void read_all_or_throw(auto &stream, auto &value)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
+    auto size = size_t(0);
+    do
+    {
+        const auto chunk_size = std::min(stream.size(), std::max(size, stream_type::max_chunk_size));
+        value.resize(size + chunk_size);
+        stream.read_exact_or_throw(value.data() + size, chunk_size);
+        size += chunk_size;
+    } while (!stream.empty());
+}
+
 template <serialize_mode mode>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire_type type)
 {
@@ -509,14 +533,15 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 
     if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_all_or_throw(stream, value);
     }
     else
     {
         if (value.size() != stream.size()) [[unlikely]]
             throw std::runtime_error("invalid string size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -537,14 +562,15 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 
     if constexpr (spb::detail::proto_field_bytes_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_all_or_throw(stream, value);
     }
     else
     {
         if (stream.size() != value.size()) [[unlikely]]
             throw std::runtime_error("invalid bytes size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
 }
 
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
-- 
2.43.0


From 829a022088e64d2c79cc12064323640d1f58f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 36/51] fix: emulated to_chars and from_chars of floating point
 numbers lose digits and refuse subnormals

---
 include/spb/to_from_chars.h | 41 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index d97b60a..c179853 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -18,6 +18,8 @@ namespace spb_std_emu = std;
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cmath>
+#include <cstdio>
 #include <concepts>
 #include <cstdlib>
 #include <cstring>
@@ -137,7 +139,8 @@ static inline auto from_chars(const char *first, const char *last, std::floating
     if (end == first)
         return {end, std::errc::invalid_argument};
 
-    if (errno == ERANGE)
+    //- strtof and strtod report ERANGE also for subnormal numbers
+    if (errno == ERANGE && (result == 0 || std::isinf(result)))
         return {end, std::errc::result_out_of_range};
 
     number = result;
@@ -171,32 +174,24 @@ static inline auto to_chars(char *first, char *last, const std::floating_point a
 
     const auto buffer_size = last - first;
 
-    const char *format;
+    using T = std::remove_cvref_t<decltype(number)>;
+    static_assert(sizeof(number) == 4 || sizeof(number) == 8, "unsupported size");
 
-    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, double>)
-    {
-        format = "%lg";
-    }
-    else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, long double>)
+    //- use the lowest precision that reads back as the same number
+    auto read_back = T(0);
+    for (int precision = std::numeric_limits<T>::digits10;; ++precision)
     {
-        format = "%Lg";
-    }
-    else
-    {
-        format = "%g";
-    }
+        const int written = snprintf(first, buffer_size, "%.*g", precision, double(number));
+        if (written < 0)
+            return {first, std::errc::invalid_argument};
 
-    const int written = snprintf(first, buffer_size, format, number);
-    if (written < 0)
-    {
-        return {first, std::errc::invalid_argument};
-    }
-    else if (written > buffer_size)
-    {
-        return {first, std::errc::value_too_large};
-    }
+        if (written >= buffer_size)
+            return {first, std::errc::value_too_large};
 
-    return {first + written, std::errc{}};
+        from_chars(first, first + written, read_back);
+        if (read_back == number || precision >= std::numeric_limits<T>::max_digits10)
+            return {first + written, std::errc{}};
+    }
 }
 
 } // namespace spb::std_emu
-- 
2.43.0


From e6ef69691841036f54f4f99578cb8391ddcb6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 37/51] fix: emulated to_chars of integers allocates memory

---
 include/spb/to_from_chars.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index c179853..952f055 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -156,14 +156,24 @@ static inline auto to_chars(char *first, char *last, const std::integral auto &n
     if (last <= first)
         return {first, std::errc::value_too_large};
 
-    const auto result      = std::to_string(number);
     const auto buffer_size = static_cast<size_t>(last - first);
 
-    if (result.size() > buffer_size)
+    char buffer[32];
+    size_t size;
+    if constexpr (std::is_signed_v<std::remove_cvref_t<decltype(number)>>)
+    {
+        size = snprintf(buffer, sizeof(buffer), "%lld", static_cast<long long>(number));
+    }
+    else
+    {
+        size = snprintf(buffer, sizeof(buffer), "%llu", static_cast<unsigned long long>(number));
+    }
+
+    if (size > buffer_size)
         return {first, std::errc::value_too_large};
 
-    memcpy(first, result.data(), result.size());
-    return {first + result.size(), std::errc{}};
+    memcpy(first, buffer, size);
+    return {first + size, std::errc{}};
 }
 
 static inline auto to_chars(char *first, char *last, const std::floating_point auto &number)
-- 
2.43.0


From 70c41c8e31c6607d9decf5a7360a1a50e0367732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 38/51] fix: names starting with a keyword and unspaced option
 values are refused

---
 src/spb-proto-compiler/parser/char_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 50eb2c1..f633365 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -110,7 +110,8 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            const auto is_word = isalnum(token.back()) != 0;
+            if (!is_word || (!isalnum(next) && next != '_'))
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From 2c4ff0315ef8023b4455c3b3b041bd1b723dff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 39/51] fix: hexadecimal number starting with a letter is
 refused

---
 src/spb-proto-compiler/parser/parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 260def0..c82d096 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -123,8 +123,7 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         base = 8;
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
-
-        if (!::isdigit(stream.current_char()))
+        else if (!::isdigit(stream.current_char()))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-- 
2.43.0


From abb441be2765061b2b0233593cb624459e7e1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 40/51] fix: a message field received in several parts is
 replaced instead of merged

---
 include/spb/pb/deserialize.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index bb0ff10..0e43a35 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -503,6 +503,12 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<typename Container::value_type>)
+    {
+        //- a message received in several parts is merged
+        if (p_value.has_value())
+            return deserialize<mode>(stream, *p_value, type);
+    }
     auto &value = p_value.emplace(typename Container::value_type());
     deserialize<mode>(stream, value, type);
 }
@@ -548,7 +554,9 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    //- a message received in several parts is merged
+    if (!value || !spb::detail::proto_message<T>)
+        value = std::make_unique<T>();
     deserialize<mode>(stream, *value, type);
 }
 
@@ -733,6 +741,14 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
+    using value_type = std::remove_cvref_t<decltype(variant.template emplace<ordinal>())>;
+
+    if constexpr (spb::detail::proto_message<value_type>)
+    {
+        //- a message received in several parts is merged
+        if (variant.index() == ordinal)
+            return deserialize<mode>(stream, get<ordinal>(variant), type);
+    }
     deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
 }
 
-- 
2.43.0


From 7b6b599e8831c5256e1e52572b7eb2906d889984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 41/51] fix: a map item with an omitted key or value is refused

---
 include/spb/pb/deserialize.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 0e43a35..d47de7c 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -669,9 +669,7 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
-    auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
+    auto pair = std::pair<key_type, mapped_type>();
     while (!stream.empty())
     {
         const auto tag          = tag_type(read_varint<uint32_t>(stream));
@@ -701,7 +699,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -722,20 +719,13 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
             throw std::runtime_error("invalid field");
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        value.insert(std::move(pair));
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    //- an omitted key or value has its default value
+    value.insert(std::move(pair));
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 431244d13a322d82de8b38015bdfa41bfa54b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 42/51] fix: the first value of a repeated map key is kept
 instead of the last one

---
 include/spb/pb/deserialize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d47de7c..105ccb4 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -724,7 +724,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             throw std::runtime_error("invalid field");
         }
     }
-    //- an omitted key or value has its default value
+    //- an omitted key or value has its default value, the last value of a key wins
+    value.erase(pair.first);
     value.insert(std::move(pair));
 }
 
-- 
2.43.0


From 4ff07a7c1f28d3e054c6f914419dc799fe3bbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 43/51] fix: an unknown field of a map item is refused instead
 of skipped

---
 include/spb/pb/deserialize.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 105ccb4..e804ddd 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -721,7 +721,16 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             }
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+            {
+                const auto size = read_varint<uint32_t>(stream);
+                stream.skip_or_throw(size);
+            }
+            else
+            {
+                skip(stream, field_type);
+            }
+            break;
         }
     }
     //- an omitted key or value has its default value, the last value of a key wins
-- 
2.43.0


From f4918074c66047de0e958928b0da22c55736efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 44/51] fix: packed data of a repeated field not declared
 packed are refused

---
 include/spb/pb/deserialize.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index e804ddd..df1d452 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -584,8 +584,6 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize_packed(auto &stream, Container &value)
 {
-    static_assert(is_packed(mode.encoder));
-
     while (!stream.empty())
     {
         if constexpr (mode.max_count)
@@ -637,7 +635,8 @@ void deserialize(auto &stream, Container &value, wire_type type)
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize(auto &stream, Container &value, wire_type type)
 {
-    if constexpr (is_packed(mode.encoder))
+    //- numbers can be packed or not, whatever the declaration says
+    if constexpr (spb::detail::proto_field_number<typename Container::value_type>)
     {
         if (type == wire_type::length_delimited)
             return deserialize_packed<mode>(stream, value);
-- 
2.43.0


From b728779f249872bdd3e54e4f01376612cf3d98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 45/51] fix: NaN and infinity are written to JSON as words that
 are no JSON values

---
 include/spb/json/serialize.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f960488..870ff57 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,20 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/proto2/#json
+        //- these values do not exist in JSON
+        if (!std::isfinite(value)) [[unlikely]]
+        {
+            if (std::isnan(value))
+                return write_string(stream, R"("NaN")");
+            if (value > 0)
+                return write_string(stream, R"("Infinity")");
+
+            return write_string(stream, R"("-Infinity")");
+        }
+    }
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From b0262429ce8d4b18ec0750d5dc2f6ebc1944cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 46/51] fix: JSON null for a member of a oneof is refused

---
 include/spb/json/deserialize.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index ff1fd7c..fa3a6e4 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -889,6 +889,13 @@ template <field_attributes attributes, typename T> T deserialize_bitfield(auto &
 template <field_attributes attributes, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant)
 {
+    if (stream.consume_and_skip_white_space("null"sv))
+    {
+        //- not set
+        if (variant.index() == ordinal)
+            variant.template emplace<0>();
+        return;
+    }
     deserialize<attributes>(stream, variant.template emplace<ordinal>());
 }
 
-- 
2.43.0


From 0876fb34af9596ab60f70395c52f628cb89e1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 47/51] fix: bytes in URL-safe base64 are refused

---
 include/spb/json/base64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 655e369..7af61ee 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -67,9 +67,9 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
     static constexpr uint8_t decode_table[256] = {
         128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128,
         128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128,
-        128, 128, 128, 62,  128, 128, 128, 63,  52,  53,  54,  55,  56,  57,  58,  59,  60,  61,  128, 128,
+        128, 128, 128, 62,  128, 62,  128, 63,  52,  53,  54,  55,  56,  57,  58,  59,  60,  61,  128, 128,
         128, 128, 128, 128, 128, 0,   1,   2,   3,   4,   5,   6,   7,   8,   9,   10,  11,  12,  13,  14,
-        15,  16,  17,  18,  19,  20,  21,  22,  23,  24,  25,  128, 128, 128, 128, 128, 128, 26,  27,  28,
+        15,  16,  17,  18,  19,  20,  21,  22,  23,  24,  25,  128, 128, 128, 128, 63,  128, 26,  27,  28,
         29,  30,  31,  32,  33,  34,  35,  36,  37,  38,  39,  40,  41,  42,  43,  44,  45,  46,  47,  48,
         49,  50,  51,  128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128,
         128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128,
-- 
2.43.0


From 3072936b557c3f9724dabe6972537732c9b13818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 48/51] fix: escaped characters in JSON keys, enum names and
 quoted numbers are not decoded

---
 include/spb/json/deserialize.hpp | 43 ++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index fa3a6e4..798771a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -383,6 +383,8 @@ void ignore_string(auto &stream)
     ignore_string_until_double_quota(stream);
 }
 
+auto unescape(auto &stream, char utf8[4]) -> uint32_t;
+
 auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
     -> std::string_view
 {
@@ -391,36 +393,39 @@ auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error(R"(expecting '"')");
 
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
+    auto size = size_t(0);
     for (;;)
     {
-        const auto pos = view.find_first_of(R"(\")", start);
-        if (pos == view.npos) [[unlikely]]
-        {
-            stream.skip(view.size());
+        // +1 for "
+        const auto view = stream.view(1, max_size + 1);
+        const auto pos  = std::min(view.find_first_of(R"(\")"), view.size());
+        if (size + pos > max_size) [[unlikely]]
             break;
+
+        memcpy(buffer + size, view.data(), pos);
+        size += pos;
+        if (pos == view.size()) [[unlikely]]
+        {
+            stream.skip(pos);
+            continue;
         }
 
-        if (view[pos] == '"') [[likely]]
+        const auto is_end = view[pos] == '"';
+        // +1 for '"' or '\'
+        stream.skip(pos + 1);
+        if (is_end) [[likely]]
         {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
-            stream.skip(pos + 1);
             stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
+            return (size >= min_size) ? std::string_view{buffer, size} : std::string_view{};
         }
 
-        if (pos + 1 == view.size()) [[unlikely]]
-        {
-            // escaped char is behind the view, keep the '\'
-            stream.skip(pos);
+        char utf8_buffer[4];
+        const auto utf8_size = unescape(stream, utf8_buffer);
+        if (size + utf8_size > max_size) [[unlikely]]
             break;
-        }
 
-        // +2 for \ and char behind
-        start = pos + 2;
+        memcpy(buffer + size, utf8_buffer, utf8_size);
+        size += utf8_size;
     }
     ignore_string_until_double_quota(stream);
     return {};
-- 
2.43.0


From c8b40c4a9444f9ad2e7e38738ebed9d0305c00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 49/51] fix: integers written to JSON with a fraction or an
 exponent are refused

---
 include/spb/json/deserialize.hpp | 33 ++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 798771a..8018899 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -18,9 +18,11 @@
 #include "field.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <memory>
 #include <spb/io/buffer-io.hpp>
 #include <spb/io/io.hpp>
@@ -568,6 +570,33 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     }
 }
 
+/**
+ * @brief reads a number, an integer can be written with a fraction or an exponent (1.0 or 1e3)
+ */
+template <typename T> auto number_from_chars(const char *first, const char *last, T &value)
+{
+    auto result = spb_std_emu::from_chars(first, last, value);
+    if constexpr (std::is_integral_v<T>)
+    {
+        if (result.ec == std::errc{} && result.ptr != last &&
+            (*result.ptr == '.' || *result.ptr == 'e' || *result.ptr == 'E')) [[unlikely]]
+        {
+            auto number = 0.0;
+            result      = spb_std_emu::from_chars(first, last, number);
+            if (result.ec == std::errc{})
+            {
+                const auto limit  = std::ldexp(1.0, std::numeric_limits<T>::digits);
+                const auto lowest = std::is_signed_v<T> ? -limit : 0.0;
+                if (number != std::trunc(number) || number < lowest || number >= limit) [[unlikely]]
+                    result.ec = std::errc::result_out_of_range;
+                else
+                    value = T(number);
+            }
+        }
+    }
+    return result;
+}
+
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
 {
     if (stream.current_char() == '"') [[unlikely]]
@@ -576,14 +605,14 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         //- number can be a string
         char buffer[32];
         auto view   = deserialize_string_to_buffer(stream, 1, 32, buffer);
-        auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
+        auto result = number_from_chars(view.data(), view.data() + view.size(), value);
         if (result.ec != std::errc{} || result.ptr != (view.data() + view.size())) [[unlikely]]
             throw std::runtime_error("invalid number");
 
         return;
     }
     auto view   = stream.view(1, 32);
-    auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
+    auto result = number_from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
 
-- 
2.43.0


From 465904802133778b59e5b5275c97fdf6d47670ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 50/51] fix: a JSON document that starts with white space is
 refused

---
 include/spb/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
-- 
2.43.0


From 51eecce2ee2fb27d62f2ebc9bcc358bbbaef9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 51/51] fix: enum values named like a C++ keyword have another
 name in JSON

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 74bf556..4cdad9b 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -231,7 +231,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -251,12 +251,12 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, cpp_ident>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        name_map.emplace(spb::json::detail::djb2_hash(field.name.proto_name), field.name);
+        key_size_min = std::min(key_size_min, field.name.proto_name.size());
+        key_size_max = std::max(key_size_max, field.name.proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -277,10 +277,10 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
                 stream << "\t\t\t\tbreak;\n";
 
             put_break = true;
-            stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
+            stream << "\t\t\tcase detail::djb2_hash(\"" << name.proto_name << "\"sv):\n";
         }
-        stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+        stream << "\t\t\t\tif (enum_str == \"" << name.proto_name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
+               << "::" << name.get_name() << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0

