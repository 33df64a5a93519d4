From 39c0955320a38c2be15be701850577cbec58fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 01/28] fix: bitset output no longer merges with stale buffer
 content

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..385756b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,7 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        std::fill_n(data, size_in_bytes, byte_type{});
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From ff75661af874a3504df4a9ca11304e1006780591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 02/28] fix: fit a grown output buffer also when the position
 is before its old end

---
 zpp_bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 385756b..1017147 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2447,9 +2447,7 @@ public:
                       enlarger != std::tuple{1, 1}) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
-            if (m_position >= end) {
-                m_data.resize(m_position);
-            }
+            m_data.resize(std::max<std::size_t>(m_position, end));
             return result;
         } else {
             return serialize_many(items...);
-- 
2.43.0


From f1907e146774d9e6e1fd5934d76712528448df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 03/28] fix: fit the output buffer with exact_enlarger, varints
 reserve more than they use

---
 zpp_bits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 1017147..b6747cd 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2443,8 +2443,7 @@ public:
 
     ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
     {
-        if constexpr (resizable && !no_fit_size &&
-                      enlarger != std::tuple{1, 1}) {
+        if constexpr (resizable && !no_fit_size) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
             m_data.resize(std::max<std::size_t>(m_position, end));
-- 
2.43.0


From ad180b6c98aa165145d0eee9de781668e0eee054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 04/28] fix: return a value when reading a known id non default
 constructible alternative

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index b6747cd..a0e2d82 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2996,6 +2996,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From 34e4b908fb336cb8c48acaa38d10ded2b49aee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 05/28] fix: write the size prefix of protocol messages in the
 byte order of the archive

---
 zpp_bits.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a0e2d82..fa25626 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2401,10 +2401,13 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            using size_endian = std::
+                conditional_t<endian_aware, endian::swapped, endian::native>;
+            return basic_out<std::span<byte_type, sizeof(SizeType)>,
+                             size_endian>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+                    m_data.data() + size_position, sizeof(SizeType)},
+                size_endian{}}(SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From c917144d2d7a0c43564aca188ccb06e12c7bf0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 06/28] fix: protobuf fixed fields are little endian in byte
 swapped varint size archives

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index fa25626..6665097 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4701,8 +4701,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little != std::endian::native) !=
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From 5e2cfd2e7961967dc5ba5ea984ca3f2800fbfbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 07/28] fix: sha1/sha256 padding of messages of 56 to 63 bytes
 modulo 64

---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 6665097..381b9cf 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5342,7 +5342,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5467,7 +5468,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0


From 913301fe8b8ac399b5cdd4680a0297fbf6f50611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 08/28] fix: do not serialize protocol messages as raw bytes
 when nested in trivially copyable aggregates or containers

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 381b9cf..2ae6a5f 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1302,6 +1302,8 @@ constexpr auto access::byte_serializable()
         return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
+    } else if constexpr (has_protocol<type>()) {
+        return false;
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
@@ -1364,6 +1366,8 @@ constexpr auto access::endian_independent_byte_serializable()
         return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
+    } else if constexpr (has_protocol<type>()) {
+        return false;
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
-- 
2.43.0


From fe42eef14d1275eb17203b19a999e8029274c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 09/28] fix: reject a protocol message whose size prefix
 exceeds the remaining data

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 2ae6a5f..31456c3 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3109,6 +3109,10 @@ private:
                 return result;
             }
 
+            if (size > m_data.size() - m_position) [[unlikely]] {
+                return std::errc::result_out_of_range;
+            }
+
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
                 return protocol(*this, item, size);
-- 
2.43.0


From 6eb7272f3d2d4598601f0c8d982838a58de83ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 10/28] fix: last value wins for duplicate protobuf map keys

---
 zpp_bits.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 31456c3..6131a82 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5088,7 +5088,17 @@ struct pb
                 return result;
             }
 
-            item.emplace(std::move(object->key), std::move(object->value));
+            if constexpr (requires {
+                              item.insert_or_assign(
+                                  std::move(object->key),
+                                  std::move(object->value));
+                          }) {
+                item.insert_or_assign(std::move(object->key),
+                                      std::move(object->value));
+            } else {
+                item.emplace(std::move(object->key),
+                             std::move(object->value));
+            }
             return errc{};
         } else {
             using orig_value_type = typename type::value_type;
-- 
2.43.0


From 81dda825efcc62c6514580e9d94af0eb91e3a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 11/28] fix: validate the length of packed protobuf fields

---
 zpp_bits.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 6131a82..a8d1ba2 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5139,16 +5139,24 @@ struct pb
                     return result;
                 }
 
+                if constexpr (archive_type::allocation_limit !=
+                              std::numeric_limits<std::size_t>::max()) {
+                    if (length > archive_type::allocation_limit)
+                        [[unlikely]] {
+                        return errc{std::errc::message_size};
+                    }
+                }
+
+                if (length > archive.remaining_data().size())
+                    [[unlikely]] {
+                    return errc{std::errc::result_out_of_range};
+                }
+
                 if constexpr (requires { item.resize(1); } &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
-                    if constexpr (archive_type::allocation_limit !=
-                                  std::numeric_limits<
-                                      std::size_t>::max()) {
-                        if (length > archive_type::allocation_limit)
-                            [[unlikely]] {
-                            return errc{std::errc::message_size};
-                        }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
                     }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
@@ -5165,6 +5173,10 @@ struct pb
                         }
                     }
 
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
+
                     return errc{};
                 }
             } else {
-- 
2.43.0


From e008d176188a1519b2e401fac8de6e3d5f46ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 12/28] fix: skip unknown, reserved and mismatching wire type
 protobuf fields by their wire type

---
 zpp_bits.h | 75 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a8d1ba2..3ad9ba5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5004,7 +5004,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
@@ -5033,6 +5033,75 @@ struct pb
         }
     }
 
+    template <typename Type>
+    constexpr static bool accepts_wire_type(wire_type field_type)
+    {
+        using type = std::remove_cvref_t<Type>;
+        if constexpr (is_pb_field<type>()) {
+            return accepts_wire_type<typename type::pb_field_type>(
+                field_type);
+        } else if constexpr (concepts::empty<type>) {
+            return false;
+        } else if constexpr (concepts::container<type> &&
+                             !requires { typename type::mapped_type; }) {
+            return accepts_repeated_wire_type<typename type::value_type>(
+                field_type);
+        } else {
+            return field_type == tag_type<type>();
+        }
+    }
+
+    template <typename Type>
+    constexpr static bool accepts_repeated_wire_type(wire_type field_type)
+    {
+        if constexpr (concepts::varint<Type> ||
+                      (std::is_enum_v<Type> &&
+                       !std::same_as<Type, std::byte>) ||
+                      std::same_as<Type, bool> ||
+                      (std::is_fundamental_v<Type> &&
+                       (sizeof(Type) == 4 || sizeof(Type) == 8))) {
+            return field_type == tag_type<Type>() ||
+                   field_type == wire_type::length_delimited;
+        } else {
+            return field_type == wire_type::length_delimited;
+        }
+    }
+
+    constexpr static errc skip_field(auto & archive, wire_type field_type)
+    {
+        std::size_t length = {};
+        switch (field_type) {
+        case wire_type::varint: {
+            vuint64_t value;
+            return archive(value);
+        }
+        case wire_type::fixed_64:
+            length = sizeof(std::uint64_t);
+            break;
+        case wire_type::fixed_32:
+            length = sizeof(std::uint32_t);
+            break;
+        case wire_type::length_delimited: {
+            vsize_t size;
+            if (auto result = archive(size); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            length = size;
+            break;
+        }
+        default:
+            return errc{std::errc::protocol_error};
+        }
+
+        if (length > archive.remaining_data().size()) [[unlikely]] {
+            return errc{std::errc::result_out_of_range};
+        }
+
+        archive.position() += length;
+        return errc{};
+    }
+
     ZPP_BITS_INLINE constexpr static auto deserialize_field(
         auto & archive, wire_type field_type, auto & item)
     {
@@ -5040,6 +5109,10 @@ struct pb
         using archive_type = std::remove_reference_t<decltype(archive)>;
         static_assert(check_type<type>());
 
+        if (!accepts_wire_type<type>(field_type)) [[unlikely]] {
+            return skip_field(archive, field_type);
+        }
+
         if constexpr (std::is_enum_v<type>) {
             varint<type> value;
             if (auto result = archive(value); failure(result))
-- 
2.43.0


From a7b0e44f4462c7593229e085319a7481d4276ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 13/28] fix: decode protobuf varint fields of less than 64 bits
 from any varint, as negative values take 10 bytes

---
 zpp_bits.h | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3ad9ba5..b37d106 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5067,6 +5067,30 @@ struct pb
         }
     }
 
+    template <typename Type>
+    constexpr static errc deserialize_varint(auto & archive, Type & item)
+    {
+        vuint64_t wire_value;
+        if (auto result = archive(wire_value); failure(result))
+            [[unlikely]] {
+            return result;
+        }
+
+        if constexpr (std::same_as<Type, bool>) {
+            item = (wire_value.value != 0);
+        } else if constexpr (concepts::varint<Type>) {
+            using value_type = decltype(item.value);
+            auto value = std::make_unsigned_t<value_type>(wire_value.value);
+            if constexpr (Type::encoding == varint_encoding::zig_zag) {
+                value = (value >> 1) ^ -(value & 0x1);
+            }
+            item.value = value_type(value);
+        } else {
+            item = Type(wire_value.value);
+        }
+        return errc{};
+    }
+
     constexpr static errc skip_field(auto & archive, wire_type field_type)
     {
         std::size_t length = {};
@@ -5113,14 +5137,9 @@ struct pb
             return skip_field(archive, field_type);
         }
 
-        if constexpr (std::is_enum_v<type>) {
-            varint<type> value;
-            if (auto result = archive(value); failure(result))
-                [[unlikely]] {
-                return result;
-            }
-            item = value;
-            return errc{};
+        if constexpr (concepts::varint<type> ||
+                      std::same_as<type, bool> || std::is_enum_v<type>) {
+            return deserialize_varint(archive, item);
         } else if constexpr (is_pb_field<type>()) {
             return deserialize_field(
                 archive,
@@ -5186,8 +5205,13 @@ struct pb
                           concepts::varint<value_type>) {
                 auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
                     value_type value;
-                    if (auto result = archive(value); failure(result))
-                        [[unlikely]] {
+                    if constexpr (concepts::varint<value_type>) {
+                        if (auto result = deserialize_varint(archive, value);
+                            failure(result)) [[unlikely]] {
+                            return result;
+                        }
+                    } else if (auto result = archive(value);
+                               failure(result)) [[unlikely]] {
                         return result;
                     }
 
-- 
2.43.0


From 25a1851390a950fddf59ec075c1a6bfca04a7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 14/28] fix: serialize only as many items as the written size
 when the size type is too small for the container

---
 zpp_bits.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b37d106..9d56a8f 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2213,11 +2213,12 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result =
-                        serialize_one(static_cast<SizeType>(size));
+                auto item_count = static_cast<SizeType>(size);
+                if (auto result = serialize_one(item_count);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = item_count;
             }
             return serialize_one(bytes(container, size));
         } else {
@@ -2237,11 +2238,24 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result = serialize_one(
-                        static_cast<SizeType>(container.size()));
+                auto item_count = static_cast<SizeType>(container.size());
+                if (auto result = serialize_one(item_count);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                if (item_count != container.size()) [[unlikely]] {
+                    auto remaining_items = std::size_t(item_count);
+                    for (auto & item : container) {
+                        if (!remaining_items--) {
+                            break;
+                        }
+                        if (auto result = serialize_one(item);
+                            failure(result)) [[unlikely]] {
+                            return result;
+                        }
+                    }
+                    return {};
+                }
             }
             for (auto & item : container) {
                 if (auto result = serialize_one(item); failure(result))
-- 
2.43.0


From bb4e256957428507e596d5c007e3a27d6423ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 15/28] fix: report protocol messages that are too long for
 their size prefix

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9d56a8f..60c4c79 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2418,6 +2418,10 @@ protected:
                     }
                     m_position += move_ahead_count;
                 }
+            } else if (message_size !=
+                       std::size_t(static_cast<SizeType>(message_size)))
+                [[unlikely]] {
+                return std::errc::message_size;
             }
             using size_endian = std::
                 conditional_t<endian_aware, endian::swapped, endian::native>;
-- 
2.43.0


From 3f431ff98593170dece5943ef611fad1ce475cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 16/28] fix: read unsized associative containers, which did not
 compile

---
 zpp_bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 60c4c79..174cf36 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2877,7 +2877,8 @@ private:
     {
         using type = typename std::remove_cvref_t<decltype(container)>;
 
-        SizeType size{};
+        std::conditional_t<std::is_void_v<SizeType>, std::size_t, SizeType>
+            size{};
 
         if constexpr (!std::is_void_v<SizeType>) {
             if (auto result = serialize_one(size); failure(result))
-- 
2.43.0


From 64c980704b0f5600d9153f3608e14ea7f8d9fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 17/28] fix: append every packed chunk of a repeated fixed size
 protobuf field

---
 zpp_bits.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 174cf36..f112080 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5274,27 +5274,27 @@ struct pb
                     if (length % sizeof(value_type)) [[unlikely]] {
                         return errc{std::errc::protocol_error};
                     }
-                    item.resize(length / sizeof(value_type));
-                    return archive(unsized(item));
-                } else {
-                    if constexpr (requires { item.reserve(1); }) {
-                        item.reserve(length);
-                    }
-
-                    auto end_position = length + archive.position();
-                    while (archive.position() < end_position) {
-                        if (auto result = fetch(); failure(result))
-                            [[unlikely]] {
-                            return result;
-                        }
+                    if (sizeof(value_type) == 1 || item.empty()) {
+                        item.resize(length / sizeof(value_type));
+                        return archive(unsized(item));
                     }
+                } else if constexpr (requires { item.reserve(1); }) {
+                    item.reserve(length);
+                }
 
-                    if (archive.position() != end_position) [[unlikely]] {
-                        return errc{std::errc::protocol_error};
+                auto end_position = length + archive.position();
+                while (archive.position() < end_position) {
+                    if (auto result = fetch(); failure(result))
+                        [[unlikely]] {
+                        return result;
                     }
+                }
 
-                    return errc{};
+                if (archive.position() != end_position) [[unlikely]] {
+                    return errc{std::errc::protocol_error};
                 }
+
+                return errc{};
             } else {
                 alignas(value_type) std::byte storage[sizeof(value_type)];
 
-- 
2.43.0


From e6a38f53dc77558e9664ea7ecf4c0a06baea01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 18/28] fix: decode repeated protobuf bool fields as varints

---
 zpp_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index f112080..6bb48c2 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5224,7 +5224,8 @@ struct pb
                           concepts::varint<value_type>) {
                 auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
                     value_type value;
-                    if constexpr (concepts::varint<value_type>) {
+                    if constexpr (concepts::varint<value_type> ||
+                                  std::same_as<value_type, bool>) {
                         if (auto result = deserialize_varint(archive, value);
                             failure(result)) [[unlikely]] {
                             return result;
@@ -5269,6 +5270,7 @@ struct pb
                 }
 
                 if constexpr (requires { item.resize(1); } &&
+                              !std::same_as<value_type, bool> &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
                     if (length % sizeof(value_type)) [[unlikely]] {
-- 
2.43.0


From 491f3a04224dc1d0df7b16fb9b16d63575f288e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 19/28] fix: request arguments of class types are converted to
 the parameter types

---
 zpp_bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 6bb48c2..3902fe3 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3934,8 +3934,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
@@ -3991,8 +3991,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
-- 
2.43.0


From 143ed66fb9d89746da823083696efd308ea3fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 20/28] fix: apply reports what functions returning errc return

---
 zpp_bits.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3902fe3..ccd03a1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3674,6 +3674,14 @@ apply(auto && function, auto && archive) requires(
                 std::apply(std::forward<decltype(function)>(function),
                            std::move(parameters));
                 return errc{};
+            } else if constexpr (std::same_as<return_type, errc>) {
+                if (auto result = archive(parameters); failure(result))
+                    [[unlikely]] {
+                    return result;
+                }
+                return std::apply(
+                    std::forward<decltype(function)>(function),
+                    std::move(parameters));
             } else {
                 if (auto result = archive(parameters); failure(result))
                     [[unlikely]] {
@@ -3699,6 +3707,14 @@ apply(auto && function, auto && archive) requires(
                 std::apply(std::forward<decltype(function)>(function),
                            std::move(parameters));
                 return errc{};
+            } else if constexpr (std::same_as<return_type, errc>) {
+                if (auto result = archive(parameters); failure(result))
+                    [[unlikely]] {
+                    return result;
+                }
+                return std::apply(
+                    std::forward<decltype(function)>(function),
+                    std::move(parameters));
             } else {
                 if (auto result = archive(parameters); failure(result))
                     [[unlikely]] {
@@ -3746,6 +3762,18 @@ apply(auto && self, auto && function, auto && archive) requires(
 #pragma GCC diagnostic pop
 #endif
             return errc{};
+        } else if constexpr (std::same_as<return_type, errc>) {
+            if (auto result = archive(parameters); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            return std::apply(
+                [&](auto &&... arguments) -> decltype(auto) {
+                    return (std::forward<decltype(self)>(self).*
+                            std::forward<decltype(function)>(function))(
+                        std::forward<decltype(arguments)>(arguments)...);
+                },
+                std::move(parameters));
         } else {
             if (auto result = archive(parameters); failure(result))
                 [[unlikely]] {
-- 
2.43.0


From 9354634bca87bcebc79b1ed5804ee14533495c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 21/28] fix: opaque functions may return a value or an error

---
 zpp_bits.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index ccd03a1..435cfa9 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4172,10 +4172,9 @@ struct rpc_impl
                 } else if constexpr (
                     requires {
                         requires std::same_as<
-                            typename decltype(FirstBinding::call(
-                                in, out, context))::value_type,
-                            value_or_errc<decltype(FirstBinding::call(
-                                in, out, context))>>;
+                            decltype(FirstBinding::call(in, out, context)),
+                            value_or_errc<typename decltype(FirstBinding::call(
+                                in, out, context))::value_type>>;
                     }) {
                     if (auto result = FirstBinding::call(in, out, context);
                         failure(result)) [[unlikely]] {
@@ -4280,10 +4279,9 @@ struct rpc_impl
                 } else if constexpr (
                     requires {
                         requires std::same_as<
-                            typename decltype(FirstBinding::call(
-                                in, out, context))::value_type,
-                            value_or_errc<decltype(FirstBinding::call(
-                                in, out, context))>>;
+                            decltype(FirstBinding::call(in, out, context)),
+                            value_or_errc<typename decltype(FirstBinding::call(
+                                in, out, context))::value_type>>;
                     }) {
                     if (auto result = FirstBinding::call(in, out, context);
                         failure(result)) [[unlikely]] {
-- 
2.43.0


From 1412db52e9da32995c0cd2501ff7e58197b82323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 22/28] fix: elements and members of empty types take no bytes

A vector, array or C array of objects of an empty class was written as raw
memory, which put one indeterminate byte per element in the output, while
an object of the empty class itself takes no bytes.
---
 zpp_bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 435cfa9..59642b1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1300,6 +1300,8 @@ constexpr auto access::byte_serializable()
 
     if constexpr (members_count < 0) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_protocol<type>()) {
-- 
2.43.0


From 1468f9f8ef558ed72695fa066517b40018c85121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 23/28] fix: constant messages with fundamental pb_field
 members compile with gcc

gcc refuses the static_cast from a constant pb_field of a fundamental type
to a constant reference through a conversion function returning by value.
---
 zpp_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 59642b1..c4b72e8 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4434,7 +4434,7 @@ struct pb_field_fundamental
         return value;
     }
 
-    constexpr operator Type() const
+    constexpr operator const Type &() const
     {
         return value;
     }
-- 
2.43.0


From ef0d5a58ec3720373d33a6100dbc176a2d20b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 24/28] fix: from_bytes of one string literal initializes its
 terminator

The only object of from_bytes was left uninitialized before the read, which
does not write the terminator of a string_literal: no constant expression,
and an indeterminate comparison at run time.
---
 zpp_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index c4b72e8..b7fbdf7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3298,7 +3298,7 @@ constexpr auto to_bytes()
 template <auto Data, typename Type>
 constexpr auto from_bytes()
 {
-    Type object;
+    Type object{};
     in{Data}(object).or_throw();
     return object;
 }
-- 
2.43.0


From 2427abb7d6b7d77ca576b802c2558113a5ac13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 25/28] fix: a value_or_errc constructed from nothing holds a
 value

---
 zpp_bits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b7fbdf7..e8a5f7a 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3509,7 +3509,10 @@ struct [[nodiscard]] value_or_errc
             std::add_pointer_t<std::remove_reference_t<Type>>,
             Type>>;
 
-    constexpr value_or_errc() = default;
+    constexpr value_or_errc() requires
+        std::default_initializable<value_type> : m_return_value()
+    {
+    }
 
     constexpr explicit value_or_errc(auto && value) :
         m_return_value(std::forward<decltype(value)>(value))
-- 
2.43.0


From 821d55bab7ac0f3c8eb6bdc762d94a5d9c3c5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 26/28] fix: containers of byte order independent types compile
 in byte swapped archives

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index e8a5f7a..af91088 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2097,7 +2097,7 @@ protected:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto item_size_in_bytes = item.size_in_bytes();
@@ -2671,7 +2671,7 @@ private:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto size = m_data.size();
-- 
2.43.0


From 025f6f4a66e9538a98631bf1127630d832a50fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 27/28] fix: multi-dimensional C arrays could be written but
 not read

---
 zpp_bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index af91088..872e6ee 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2734,7 +2734,8 @@ private:
         using value_type = std::remove_cvref_t<decltype(array[0])>;
 
         if constexpr (concepts::serialize_as_bytes<decltype(*this),
-                                                   value_type>) {
+                                                   value_type> &&
+                      !std::is_array_v<value_type>) {
             return serialize_one(bytes(array));
         } else {
             for (auto & item : array) {
-- 
2.43.0


From 3eae0a0823e85c35ee1a52088a9d2906bb8c2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 28/28] fix: message sizes written as narrow or zigzag varints
 were wrong or failed

The length prefix of a message moves the message ahead by the number of
bytes its size takes. That number was computed for an unsigned size_t, not
for the value of the size type: with a zigzag size type messages of 64 bytes
and more got a prefix that does not match the room made for it, with narrow
ones the size was truncated silently, and sizes whose prefix is longer than
the size type itself were refused.
---
 zpp_bits.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 872e6ee..3a6096d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2391,8 +2391,15 @@ protected:
                 constexpr auto preserialized_varint_size = 1;
                 message_size = current_position - size_position -
                                preserialized_varint_size;
-                auto move_ahead_count =
-                    varint_size(message_size) - preserialized_varint_size;
+                using size_value_type = typename SizeType::value_type;
+                auto size_value = static_cast<size_value_type>(message_size);
+                if (message_size != static_cast<std::size_t>(size_value))
+                    [[unlikely]] {
+                    return std::errc::message_size;
+                }
+                std::size_t move_ahead_count =
+                    varint_size<SizeType::encoding>(size_value) -
+                    preserialized_varint_size;
                 if (move_ahead_count) {
                     if constexpr (resizable) {
                         if (auto result = enlarge_for(move_ahead_count);
@@ -2420,6 +2427,11 @@ protected:
                     }
                     m_position += move_ahead_count;
                 }
+                return basic_out<std::span<byte_type>>{
+                    std::span<byte_type>{m_data.data() + size_position,
+                                         preserialized_varint_size +
+                                             move_ahead_count}}(
+                    SizeType(size_value));
             } else if (message_size !=
                        std::size_t(static_cast<SizeType>(message_size)))
                 [[unlikely]] {
-- 
2.43.0

