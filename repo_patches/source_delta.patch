From 28d429dd5936376e4530e5b192b172a36a93d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 01/90] fix: skip CBOR strings, arrays and maps with multi-byte
 sizes correctly

The size bytes were consumed twice, so that an unknown or unselected
property with 24 or more bytes or items made the decoder lose its position.
---
 lib/include/dots/serialization/formats/CborReader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..0186497 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -218,6 +218,7 @@ namespace dots::serialization
                 }
                 else
                 {
+                    assertInputAvailable(numBytes);
                     value = 0;
 
                     for (int16_t i = numBytes - 1; i >= 0; --i)
@@ -226,8 +227,6 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
                 return value;
             };
 
-- 
2.43.0


From acc0f868a93a4c7637cfab5bdfa7f05237bfdedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 02/90] fix: do not read past the input when reporting a CBOR
 error

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From c10e921273b9c752fa44f3972f82bb3af05e3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 03/90] fix: keep the sign of negative zero in the experimental
 CBOR format

---
 lib/include/dots/serialization/formats/CborWriter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborWriter.h b/lib/include/dots/serialization/formats/CborWriter.h
index 7443049..a70957a 100644
--- a/lib/include/dots/serialization/formats/CborWriter.h
+++ b/lib/include/dots/serialization/formats/CborWriter.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <cmath>
 #include <vector>
 #include <stdexcept>
 #include <limits>
@@ -100,7 +101,7 @@ namespace dots::serialization
 
             if constexpr (Format == FloatFormat::UseFloat16Zeroes)
             {
-                if (value == static_cast<T>(0))
+                if (value == static_cast<T>(0) && !std::signbit(value))
                 {
                     writeByte(cbor_t::MajorType::SimpleOrFloat | cbor_t::AdditionalInformation::FollowingBytes2);
                     writeContingentBytes(uint16_t{ 0 });
-- 
2.43.0


From 4181deb68fbd8a60867c3d9870293704d5f53dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 04/90] fix: check for available input before reading a signed
 CBOR integer

---
 lib/include/dots/serialization/formats/CborReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 0186497..4b1b2b1 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -67,6 +67,8 @@ namespace dots::serialization
         {
             using unsigned_t = std::make_unsigned_t<T>;
 
+            assertInputAvailable(1);
+
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
-- 
2.43.0


From e4b630f84e9082f8b2f1704bc5ee67f3b5e32443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 05/90] fix: reject CBOR simple values when a float is expected

They were taken for a 4 byte float, reading beyond the value and possibly
beyond the input.
---
 lib/include/dots/serialization/formats/CborReader.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 4b1b2b1..fd7454c 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -166,10 +166,14 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
-                else/* if (numBytes == sizeof(float))*/
+                else if (numBytes == sizeof(float))
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else
+                {
+                    throwException("encountered unexpected simple value when deserializing float", additionalInformation);
+                }
             }
         }
 
-- 
2.43.0


From 050745388544c94cd1cd421d3f3799041d86de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 06/90] fix: accept CBOR numbers and lengths of any width and
 check their range

Encoders may use a wider head than necessary. Values that do not fit the
target were accepted for signed integers and changed their value.
---
 .../dots/serialization/formats/CborReader.h   | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index fd7454c..72ffd8a 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -71,13 +71,12 @@ namespace dots::serialization
 
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
-                unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
-                value = -1 - reinterpret_cast<const T&>(unsignedValue);
+                unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt, std::numeric_limits<T>::max());
+                value = static_cast<T>(-1 - static_cast<T>(unsignedValue));
             }
             else
             {
-                unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::UnsignedInt);
-                value = reinterpret_cast<const T&>(unsignedValue);
+                value = static_cast<T>(readHead<unsigned_t>(cbor_t::MajorType::UnsignedInt, std::numeric_limits<T>::max()));
             }
         }
 
@@ -112,7 +111,7 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_same_v<T, bool>, int> = 0>
         void read(T& value)
         {
-            if (uint8_t simpleValue = readHead<uint8_t>(cbor_t::MajorType::SimpleOrFloat); simpleValue == cbor_t::SimpleValue::False)
+            if (uint8_t simpleValue = readInitialByte(cbor_t::MajorType::SimpleOrFloat).second; simpleValue == cbor_t::SimpleValue::False)
             {
                 value = false;
             }
@@ -129,11 +128,11 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
         void read(T& value)
         {
-            if (auto [numBytes, additionalInformation] = readInitialByte(cbor_t::MajorType::SimpleOrFloat, sizeof(T)); numBytes == sizeof(T))
+            if (auto [numBytes, additionalInformation] = readInitialByte(cbor_t::MajorType::SimpleOrFloat); numBytes == sizeof(T))
             {
                 value = readPunnedContingentBytes<T>();
             }
-            else/* if (numBytes < sizeof(T))*/
+            else
             {
                 if (numBytes == sizeof(uint16_t))
                 {
@@ -170,6 +169,10 @@ namespace dots::serialization
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else if (numBytes == sizeof(double))
+                {
+                    value = static_cast<T>(readPunnedContingentBytes<double>());
+                }
                 else
                 {
                     throwException("encountered unexpected simple value when deserializing float", additionalInformation);
@@ -325,7 +328,7 @@ namespace dots::serialization
             return value;
         }
 
-        std::pair<uint8_t, uint8_t> readInitialByte(uint8_t expectedMajorType, size_t valueSize)
+        std::pair<uint8_t, uint8_t> readInitialByte(uint8_t expectedMajorType)
         {
             assertInputAvailable(1);
             uint8_t initialByte = readByte();
@@ -350,11 +353,6 @@ namespace dots::serialization
 
                 uint8_t numBytes = 1  << (additionalInformation - cbor_t::AdditionalInformation::FollowingBytes1);
 
-                if (numBytes > valueSize)
-                {
-                    throwInvalidSize("encountered value exceeds value size", valueSize, numBytes);
-                }
-
                 assertInputAvailable(numBytes);
 
                 return { numBytes, additionalInformation };
@@ -375,10 +373,10 @@ namespace dots::serialization
         }
 
         template <typename T, std::enable_if_t<std::is_unsigned_v<T>, int> = 0>
-        T readHead(uint8_t expectedMajorType)
+        T readHead(uint8_t expectedMajorType, uint64_t maxValue = std::numeric_limits<T>::max())
         {
-            T value;
-            auto [numBytes, additionalInformation] = readInitialByte(expectedMajorType, sizeof(T));
+            uint64_t value;
+            auto [numBytes, additionalInformation] = readInitialByte(expectedMajorType);
 
             if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
             {
@@ -394,7 +392,12 @@ namespace dots::serialization
                 }
             }
 
-            return value;
+            if (value > maxValue)
+            {
+                throwInvalidSize("encountered value exceeds value range", maxValue, value);
+            }
+
+            return static_cast<T>(value);
         }
     };
 }
-- 
2.43.0


From 77633f2eb121a7be45fa1bf4c0ad9536df96a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 07/90] fix: skip tagged, indefinite length and deeply nested
 CBOR items

Tagged items and items of indefinite length of an unknown property made the
decoder lose its position, and deep nesting overflowed the stack.
---
 .../dots/serialization/formats/CborFormat.h   |   1 +
 .../dots/serialization/formats/CborReader.h   | 123 ++++++++----------
 2 files changed, 55 insertions(+), 69 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborFormat.h b/lib/include/dots/serialization/formats/CborFormat.h
index f54f718..e46ddb5 100644
--- a/lib/include/dots/serialization/formats/CborFormat.h
+++ b/lib/include/dots/serialization/formats/CborFormat.h
@@ -15,6 +15,7 @@ namespace dots::serialization
             static constexpr uint8_t TextString = 0x60;
             static constexpr uint8_t Array = 0x80;
             static constexpr uint8_t Map = 0xA0;
+            static constexpr uint8_t Tag = 0xC0;
             static constexpr uint8_t SimpleOrFloat = 0xE0;
 
             static constexpr uint8_t IndefiniteArray = Array | 31;
diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 72ffd8a..a19dffb 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -182,95 +182,80 @@ namespace dots::serialization
 
         void skip()
         {
-            assertInputAvailable(1);
-            uint8_t initialByte = readByte();
-            uint8_t majorType = initialByte & cbor_t::MajorType::Mask;
-            uint8_t additionalInformation = initialByte & cbor_t::AdditionalInformation::Mask;
+            // number of items left to skip on the current level. the numbers of levels that
+            // enclose a container of indefinite length are kept aside until it ends
+            constexpr size_t Indefinite = std::numeric_limits<size_t>::max();
+            std::vector<size_t> enclosing;
+            size_t remaining = 1;
 
-            auto any_of = [majorType](auto... majorTypes)
+            while (true)
             {
-                return (... || (majorType == majorTypes));
-            };
+                while (remaining == 0)
+                {
+                    if (enclosing.empty())
+                    {
+                        return;
+                    }
 
-            auto consume = [&](size_t numBytes)
-            {
-                assertInputAvailable(numBytes);
-                inputData() += numBytes;
-            };
+                    remaining = enclosing.back();
+                    enclosing.pop_back();
+                }
 
-            auto get_num_bytes = [&]() -> uint8_t
-            {
-                if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
+                assertInputAvailable(1);
+                uint8_t initialByte = *inputData();
+                uint8_t majorType = initialByte & cbor_t::MajorType::Mask;
+                uint8_t additionalInformation = initialByte & cbor_t::AdditionalInformation::Mask;
+
+                auto any_of = [majorType](auto... majorTypes)
                 {
-                    return 0;
-                }
-                else
+                    return (... || (majorType == majorTypes));
+                };
+
+                if (remaining == Indefinite && initialByte == cbor_t::MajorType::IndefiniteArrayBreak)
                 {
-                    if (additionalInformation > cbor_t::AdditionalInformation::FollowingBytes8)
-                    {
-                        throwException("encountered unsupported additional information value", additionalInformation);
-                    }
+                    readByte();
+                    remaining = 0;
+                    continue;
+                }
 
-                    uint8_t numBytes = 1 << (additionalInformation - cbor_t::AdditionalInformation::FollowingBytes1);
-                    return numBytes;
+                if (remaining != Indefinite)
+                {
+                    --remaining;
                 }
-            };
 
-            auto read_size = [&]
-            {
-                size_t value;
-                uint8_t numBytes = get_num_bytes();
+                auto enter_level = [&](size_t numItems)
+                {
+                    enclosing.push_back(remaining);
+                    remaining = numItems;
+                };
 
-                if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
+                if (additionalInformation == cbor_t::AdditionalInformation::FollowingBytesIndefinite && any_of(cbor_t::MajorType::ByteString, cbor_t::MajorType::TextString, cbor_t::MajorType::Array, cbor_t::MajorType::Map))
                 {
-                    value = additionalInformation;
+                    readByte();
+                    enter_level(Indefinite);
+                }
+                else if (any_of(cbor_t::MajorType::SimpleOrFloat))
+                {
+                    uint8_t numBytes = readInitialByte(majorType).first;
+                    inputData() += numBytes;
                 }
                 else
                 {
-                    assertInputAvailable(numBytes);
-                    value = 0;
+                    auto value = readHead<uint64_t>(majorType);
 
-                    for (int16_t i = numBytes - 1; i >= 0; --i)
+                    if (any_of(cbor_t::MajorType::ByteString, cbor_t::MajorType::TextString))
                     {
-                        value |= static_cast<uint64_t>(readByte()) << i * 8;
+                        assertInputAvailable(value);
+                        inputData() += value;
                     }
-                }
-
-                return value;
-            };
-
-            if (any_of(cbor_t::MajorType::UnsignedInt, cbor_t::MajorType::SignedInt, cbor_t::MajorType::SimpleOrFloat))
-            {
-                size_t numBytes = get_num_bytes();
-                consume(numBytes);
-            }
-            else if (any_of(cbor_t::MajorType::ByteString, cbor_t::MajorType::TextString))
-            {
-                size_t size = read_size();
-                consume(size);
-            }
-            else if (any_of(cbor_t::MajorType::Array))
-            {
-                size_t size = read_size();
-
-                if (size > 0)
-                {
-                    while (size--)
+                    else if (any_of(cbor_t::MajorType::Array, cbor_t::MajorType::Map))
                     {
-                        skip();
+                        assertInputAvailable(value);
+                        enter_level(any_of(cbor_t::MajorType::Map) ? 2 * value : value);
                     }
-                }
-            }
-            else if (any_of(cbor_t::MajorType::Map))
-            {
-                size_t size = read_size();
-
-                if (size > 0)
-                {
-                    while (size--)
+                    else if (any_of(cbor_t::MajorType::Tag))
                     {
-                        skip();
-                        skip();
+                        enter_level(1);
                     }
                 }
             }
-- 
2.43.0


From 86282a4654aa09851f2cbccfd10829fce30d3b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 08/90] fix: reject CBOR arrays with more items than the input
 can hold

The size was used to allocate the array before its items were read.
---
 lib/include/dots/serialization/formats/CborReader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index a19dffb..d307e1b 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -19,7 +19,10 @@ namespace dots::serialization
 
         size_t readArraySize()
         {
-            return readHead<size_t>(cbor_t::MajorType::Array);
+            size_t size = readHead<size_t>(cbor_t::MajorType::Array);
+            assertInputAvailable(size);
+
+            return size;
         }
 
         void readArrayBegin()
-- 
2.43.0


From 545fbf6b718f04b2e445c2b4db04882e5405b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 09/90] fix: resize vectors of run-time defined structs to the
 given size

The given number of elements was appended instead, so that decoding such
vectors from text or JSON produced surplus elements.
---
 lib/include/dots/type/VectorDescriptor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/VectorDescriptor.h b/lib/include/dots/type/VectorDescriptor.h
index b6f5968..231c964 100644
--- a/lib/include/dots/type/VectorDescriptor.h
+++ b/lib/include/dots/type/VectorDescriptor.h
@@ -167,7 +167,12 @@ namespace dots::type
                 std::aligned_storage_t<sizeof(T), alignof(T)> rawStorage;
                 T& storage = reinterpret_cast<T&>(rawStorage);
 
-                for (size_t i = 0; i < size; ++i)
+                while (vector.size() > size)
+                {
+                    vector.pop_back();
+                }
+
+                while (vector.size() < size)
                 {
                     valueDescriptor.construct(storage);
                     vector.emplace_back(std::move(storage));
-- 
2.43.0


From f0f130218c3aa082cdafe001a4f1074e2467be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 10/90] fix: replace vectors when decoding text into an
 existing object

The decoded elements were appended to the previous ones, unlike in the binary
format.
---
 lib/include/dots/serialization/RapidJsonSerializer.h | 1 +
 lib/include/dots/serialization/TextSerializer.h      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 63a14d5..50d9303 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -458,6 +458,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             m_reader.readArrayBegin();
+            descriptor.fill(vector, 0);
 
             while (!m_reader.tryReadArrayEnd())
             {
diff --git a/lib/include/dots/serialization/TextSerializer.h b/lib/include/dots/serialization/TextSerializer.h
index b829dbd..b6c9ee0 100644
--- a/lib/include/dots/serialization/TextSerializer.h
+++ b/lib/include/dots/serialization/TextSerializer.h
@@ -251,6 +251,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             reader().readArrayBegin();
+            descriptor.fill(vector, 0);
 
             while (!reader().tryReadArrayEnd())
             {
-- 
2.43.0


From 8bf7ecc600d3fa350a3fb61e784da9cca3b80217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 11/90] fix: handle non-ASCII characters in text input

They were used as a negative index when reading identifiers and skipped like
whitespace.
---
 lib/include/dots/serialization/formats/TextReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 12a7d80..694a375 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -248,7 +248,7 @@ namespace dots::serialization
                 return identifierSymbols;
             }();
 
-            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<size_t>(c)]; });
+            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<unsigned char>(c)]; });
             size_t identifierSize = it == input().end() ? input().size() : std::distance(input().begin(), it);
             std::string_view identifier = input().substr(0, identifierSize);
             inputAdvance(identifierSize);
@@ -511,7 +511,7 @@ namespace dots::serialization
 
         void consumeWhitespace()
         {
-            while (!input().empty() && input().front() < '!')
+            while (!input().empty() && static_cast<unsigned char>(input().front()) < '!')
             {
                 inputAdvance(1);
             }
-- 
2.43.0


From 7458c40347933b77cff1f8fff30c2defa4ca8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 12/90] fix: write floating point numbers to text without loss
 and read them within bounds

Too few digits were written for values to survive a round trip, and numbers at
the end of the input were parsed by functions that need a terminating null.
---
 lib/include/dots/serialization/formats/TextReader.h | 3 ++-
 lib/include/dots/serialization/formats/TextWriter.h | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 694a375..57689d6 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <charconv>
 #include <string>
 #include <vector>
 #include <stack>
@@ -440,7 +441,7 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
         void read(T& value)
         {
-            #if (defined _MSC_VER) && (!defined __INTEL_COMPILER)
+            #if defined(__cpp_lib_to_chars) || ((defined _MSC_VER) && (!defined __INTEL_COMPILER))
             constexpr bool HasFpFromChars = true;
             #else
             constexpr bool HasFpFromChars = false;
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 72781a6..860f0f2 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <charconv>
 #include <string>
 #include <stack>
 #include <dots/serialization/formats/Writer.h>
@@ -171,7 +172,7 @@ namespace dots::serialization
         {
             initiateWrite();
 
-            #if (defined _MSC_VER) && (!defined __INTEL_COMPILER)
+            #if defined(__cpp_lib_to_chars) || ((defined _MSC_VER) && (!defined __INTEL_COMPILER))
             constexpr bool HasFpToChars = true;
             #else
             constexpr bool HasFpToChars = false;
@@ -192,7 +193,7 @@ namespace dots::serialization
                 else
                 {
                     std::ostringstream oss;
-                    oss << std::setprecision(std::numeric_limits<T>::digits10 + 1) << value;
+                    oss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
                     append(oss.str());
                 }
             }
-- 
2.43.0


From 3dee063c592afd31ff2e575409e45b5a3e67f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 13/90] fix: accept whitespace in front of the colon in JSON

---
 lib/include/dots/serialization/formats/TextReader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 57689d6..3b92937 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -112,7 +112,9 @@ namespace dots::serialization
 
             if constexpr (!format_t::ObjectMemberNameEnd.empty())
             {
-                consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd);
+                // whitespace may also occur between the delimiter of the name and the separator
+                consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd.substr(0, 1));
+                consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd.substr(1));
             }
 
             consumeTokenAfterWhitespace(format_t::ObjectMemberValueBegin);
-- 
2.43.0


From a0e420c9d8ec754a509b56bcec3e5b812dcdd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 14/90] fix: write control characters to JSON as escapes and
 read unicode escapes

Other JSON implementations rejected the raw control characters, and strings with
unicode escapes were rejected.
---
 .../dots/serialization/formats/TextFormat.h   |  1 +
 .../dots/serialization/formats/TextReader.h   | 76 +++++++++++++++++--
 .../dots/serialization/formats/TextWriter.h   | 11 ++-
 3 files changed, 82 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextFormat.h b/lib/include/dots/serialization/formats/TextFormat.h
index 01060c1..293958c 100644
--- a/lib/include/dots/serialization/formats/TextFormat.h
+++ b/lib/include/dots/serialization/formats/TextFormat.h
@@ -24,6 +24,7 @@ namespace dots::serialization
 
         static constexpr std::string_view StringDelimiter = "\"";
         static constexpr std::string_view StringEscape = "\\";
+        static constexpr std::string_view UnicodeEscape = "\\u";
 
         enum struct ObjectFormat : uint8_t
         {
diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 3b92937..1a59de9 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -183,12 +183,14 @@ namespace dots::serialization
 
                         if (it == format_t::StringEscapeMapping.end())
                         {
-                            throw makeTokenError("<valid-escape-sequence>");
+                            readUnicodeEscape(token);
+                        }
+                        else
+                        {
+                            const auto& [from, to] = *it;
+                            token += from;
+                            inputAdvance(to.size());
                         }
-
-                        const auto& [from, to] = *it;
-                        token += from;
-                        inputAdvance(to.size());
                     }
                     else
                     {
@@ -495,6 +497,70 @@ namespace dots::serialization
             }
         }
 
+        uint32_t readUnicodeEscapeUnit()
+        {
+            constexpr size_t NumDigits = 4;
+            consumeToken(format_t::UnicodeEscape);
+            std::string_view digits = input().substr(0, NumDigits);
+            uint32_t unit = 0;
+
+            if (auto [last, ec] = std::from_chars(digits.data(), digits.data() + digits.size(), unit, 16); ec != std::errc{} || last != digits.data() + NumDigits)
+            {
+                throw makeTokenError("<four-hexadecimal-digits>");
+            }
+
+            inputAdvance(NumDigits);
+
+            return unit;
+        }
+
+        void readUnicodeEscape(std::string& token)
+        {
+            if (!tools::starts_with(input(), format_t::UnicodeEscape))
+            {
+                throw makeTokenError("<valid-escape-sequence>");
+            }
+
+            uint32_t codePoint = readUnicodeEscapeUnit();
+
+            if (codePoint >= 0xD800 && codePoint <= 0xDFFF)
+            {
+                uint32_t low = codePoint <= 0xDBFF ? readUnicodeEscapeUnit() : 0;
+
+                if (low < 0xDC00 || low > 0xDFFF)
+                {
+                    throw makeTokenError("<valid-surrogate-pair>");
+                }
+
+                codePoint = 0x10000 + ((codePoint - 0xD800) << 10) + (low - 0xDC00);
+            }
+
+            auto append = [&token](uint32_t byte){ token += static_cast<char>(byte); };
+
+            if (codePoint < 0x80)
+            {
+                append(codePoint);
+            }
+            else if (codePoint < 0x800)
+            {
+                append(0xC0 | (codePoint >> 6));
+                append(0x80 | (codePoint & 0x3F));
+            }
+            else if (codePoint < 0x10000)
+            {
+                append(0xE0 | (codePoint >> 12));
+                append(0x80 | ((codePoint >> 6) & 0x3F));
+                append(0x80 | (codePoint & 0x3F));
+            }
+            else
+            {
+                append(0xF0 | (codePoint >> 18));
+                append(0x80 | ((codePoint >> 12) & 0x3F));
+                append(0x80 | ((codePoint >> 6) & 0x3F));
+                append(0x80 | (codePoint & 0x3F));
+            }
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 860f0f2..12a5f7f 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -277,7 +277,16 @@ namespace dots::serialization
 
                         if (it == format_t::StringEscapeMapping.end())
                         {
-                            append(strRemaining.substr(0, 1));
+                            if (auto c = static_cast<unsigned char>(strRemaining.front()); c < 0x20)
+                            {
+                                constexpr std::string_view Digits = "0123456789abcdef";
+                                append(format_t::UnicodeEscape, "00", Digits.substr(c >> 4, 1), Digits.substr(c & 0xF, 1));
+                            }
+                            else
+                            {
+                                append(strRemaining.substr(0, 1));
+                            }
+
                             strRemaining.remove_prefix(1);
                         }
                         else
-- 
2.43.0


From cabdf420351d890dd624e07106a606dbda7c9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 15/90] fix: keep null characters in strings read by the
 RapidJSON serializer

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index c9af5fe..3676015 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -294,13 +294,13 @@ namespace dots::serialization
         void read(std::string& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value.assign(m_input->GetString(), m_input->GetStringLength());
         }
 
         void read(std::string_view& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = std::string_view{ m_input->GetString(), m_input->GetStringLength() };
         }
 
         void finalizeRead()
-- 
2.43.0


From 086d734e4c078efa5450b39d82b1adc5341d0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 16/90] fix: parse JSON with full precision and without
 recursion in the RapidJSON serializer

Floating point numbers did not survive a round trip, and deep nesting overflowed
the stack.
---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 3676015..acc0b99 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -61,7 +61,7 @@ namespace dots::serialization
         void setInput(std::string_view input)
         {
             document_t document;
-            document.Parse(input.data(), input.size());
+            document.Parse<rapidjson::kParseIterativeFlag | rapidjson::kParseFullPrecisionFlag>(input.data(), input.size());
             setInput(std::move(document));
         }
 
-- 
2.43.0


From d4afa2cc34eb2b1f67678aec9d34f4f948688ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 17/90] fix: reject JSON numbers that do not fit the integer in
 the RapidJSON serializer

They were taken for an arbitrary other number.
---
 .../serialization/formats/RapidJsonReader.h   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index acc0b99..0b393ac 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -254,25 +254,21 @@ namespace dots::serialization
 
             if constexpr (std::is_signed_v<T>)
             {
-                if constexpr (sizeof(T) <= sizeof(int))
+                if (!m_input->IsInt64() || m_input->GetInt64() < std::numeric_limits<T>::min() || m_input->GetInt64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetInt());
-                }
-                else/* if (sizeof(T) == sizeof(int64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetInt64());
+                    throw std::runtime_error{ "encountered JSON number that is not in the range of the integer type" };
                 }
+
+                value = static_cast<T>(m_input->GetInt64());
             }
             else/* if constexpr (std::is_unsigned_v<T>)*/
             {
-                if constexpr (sizeof(T) <= sizeof(unsigned))
+                if (!m_input->IsUint64() || m_input->GetUint64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetUint());
-                }
-                else/* if (sizeof(T) == sizeof(uint64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetUint64());
+                    throw std::runtime_error{ "encountered JSON number that is not in the range of the integer type" };
                 }
+
+                value = static_cast<T>(m_input->GetUint64());
             }
         }
 
-- 
2.43.0


From 6defd6cbafa08e7fe7a075989083093033723a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 18/90] fix: skip unknown text values without recursion and
 report unterminated ones

---
 .../dots/serialization/formats/TextReader.h   | 80 ++++++++++++-------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 1a59de9..1010883 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -285,48 +285,77 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            const size_t outerLevel = m_nesting.size();
+
+            do
+            {
+                if (m_nesting.size() > outerLevel)
+                {
+                    if (m_nesting.top().first == State::Array)
+                    {
+                        if (tryReadArrayEnd())
+                        {
+                            continue;
+                        }
+                    }
+                    else
+                    {
+                        if (tryReadObjectEnd())
+                        {
+                            continue;
+                        }
+
+                        readObjectMemberName();
+                    }
+                }
+
+                skipValue(outerLevel);
+            }
+            while (m_nesting.size() > outerLevel);
+        }
+
+    private:
+
+        enum struct State : uint8_t
+        {
+            Array,
+            Object
+        };
+
+        using nesting_t = std::pair<State, bool>;
+
+        void skipValue(size_t outerLevel)
         {
             consumeWhitespace();
+            const char* valueBegin = inputData();
 
             while (inputAvailable())
             {
                 if (tools::starts_with(input(), format_t::StringDelimiter))
                 {
                     readEscapedString();
-                    break;
+                    return;
                 }
                 else if (tools::starts_with(input(), format_t::ArrayBegin))
                 {
                     readArrayBegin();
-
-                    while (!tryReadArrayEnd())
-                    {
-                        skip();
-                    }
-
-                    break;
+                    return;
                 }
                 else if (tools::starts_with(input(), format_t::ObjectBegin))
                 {
                     readObjectBegin();
-
-                    while (!tryReadObjectEnd())
-                    {
-                        readObjectMemberName();
-                        skip();
-                    }
-
-                    break;
+                    return;
                 }
                 else if (tools::starts_with(input(), format_t::ArrayElementSeparator))
                 {
                     consumeToken(format_t::ArrayElementSeparator);
-                    break;
+                    return;
                 }
                 else if (tools::starts_with(input(), format_t::ObjectMemberValueEnd))
                 {
                     consumeToken(format_t::ObjectMemberValueEnd);
-                    break;
+                    return;
                 }
                 else if (tools::starts_with(input(), format_t::ArrayEnd) || tools::starts_with(input(), format_t::ObjectEnd))
                 {
@@ -337,17 +366,12 @@ namespace dots::serialization
                     inputAdvance(1);
                 }
             }
-        }
-
-    private:
 
-        enum struct State : uint8_t
-        {
-            Array,
-            Object
-        };
-
-        using nesting_t = std::pair<State, bool>;
+            if (m_nesting.size() > outerLevel && (inputData() == valueBegin || inputAvailable() == 0))
+            {
+                throw makeTokenError("<value>");
+            }
+        }
 
         template <typename T, std::enable_if_t<std::is_same_v<std::decay_t<T>, bool>, int> = 0>
         void read(T& value)
-- 
2.43.0


From 3903c87a4d26b2c8d4abba3e0e34230d79ef4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 19/90] fix: read enumerators whose name starts with the name
 of their type from text

---
 lib/include/dots/serialization/formats/TextReader.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 1010883..2429cb4 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -268,17 +268,16 @@ namespace dots::serialization
         {
             consumeWhitespace();
 
+            std::string prefix{ std::forward<T>(prefixHead) };
+            (prefix.append(std::string{ std::forward<Ts>(prefixTail) }), ...);
+
             if (!m_nesting.empty() && m_options.policy == TextOptions::Strict)
             {
-                consumeToken(std::forward<T>(prefixHead));
-                (consumeToken(std::forward<Ts>(prefixTail)), ...);
+                consumeToken(prefix);
             }
             else
             {
-                if (tryConsumeToken(std::forward<T>(prefixHead)))
-                {
-                    (consumeToken(std::forward<Ts>(prefixTail)), ...);
-                }
+                tryConsumeToken(prefix);
             }
 
             return readIdentifierString();
-- 
2.43.0


From 13e589ef6b8f208c78a598fbed4522854c7bee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 20/90] fix: parse exactly the given text when reading times

---
 lib/src/type/Chrono.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fdc8b30..fb7091a 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -86,7 +86,7 @@ namespace dots::type
         // it is pretty slow and should be overhauled at a later point
         std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
         std::smatch match;
-        std::string input = value.data();
+        std::string input{ value };
 
         if (!std::regex_match(input, match, regex) || match.size() <= 1)
         {
@@ -155,6 +155,14 @@ namespace dots::type
     using sys_time_t = date::sys_time<std::chrono::milliseconds>;
     using sys_duration_t = sys_time_t::duration;
 
+    static void assert_end_of_input(const std::istringstream& iss, std::string_view value)
+    {
+        if (iss.rdbuf()->in_avail() > 0)
+        {
+            throw std::runtime_error{ "encountered trailing characters while parsing time point from string: " + std::string{ value } };
+        }
+    }
+
     template <typename Base>
     std::string TimePointImpl<Base>::toString(std::string_view fmt/* = DefaultFormat*/, bool utc/* = false*/) const
     {
@@ -172,7 +180,8 @@ namespace dots::type
             {
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
-                const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
+                std::string fmtString{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
+                const char* fmtData = fmtString.data();
                 sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
 
                 if (utc)
@@ -221,10 +230,11 @@ namespace dots::type
     {
         if (fmt.empty())
         {
-            std::istringstream iss{ value.data() };
+            std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
+            assert_end_of_input(iss, value);
 
             return TimePointImpl{ Duration{ count } };
         }
@@ -236,13 +246,13 @@ namespace dots::type
             }
             else
             {
-                std::istringstream iss{ value.data() };
+                std::istringstream iss{ std::string{ value } };
                 iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 sys_time_t sysTimePoint;
 
                 if (fmt == ISO8601DateTime)
                 {
-                    if (value.back() == 'Z')
+                    if (!value.empty() && value.back() == 'Z')
                     {
                         fmt = "%FT%TZ";
                     }
@@ -252,7 +262,8 @@ namespace dots::type
                     }
                 }
 
-                iss >> date::parse(fmt.data(), sysTimePoint);
+                iss >> date::parse(std::string{ fmt }, sysTimePoint);
+                assert_end_of_input(iss, value);
                 return TimePointImpl{ sysTimePoint.time_since_epoch() };
             }
         }
-- 
2.43.0


From 1c41fcb962da7ac847c6e94056e9d3ff9503fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 21/90] fix: round time points to milliseconds in text instead
 of cutting them off

---
 lib/src/type/Chrono.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fb7091a..564a072 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -182,7 +182,7 @@ namespace dots::type
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 std::string fmtString{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
                 const char* fmtData = fmtString.data();
-                sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
+                sys_time_t sysTimePoint{ std::chrono::round<sys_duration_t>(duration()) };
 
                 if (utc)
                 {
-- 
2.43.0


From d499a83b43b8c88ce99a9ac7bc742af68d95a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 22/90] fix: write and read all durations in their text
 notation

---
 lib/src/type/Chrono.cpp | 157 +++++++++++++++++++++++++---------------
 1 file changed, 97 insertions(+), 60 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index 564a072..26c40c6 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -1,8 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <sstream>
-#include <regex>
-#include <charconv>
+#include <cmath>
+#include <iomanip>
 #include <optional>
 #include <dots/type/Chrono.h>
 #include <date/date.h>
@@ -30,39 +30,61 @@ namespace dots::type
 {
     std::string Duration::toString() const
     {
-        if (*this == zero())
+        constexpr double MicrosecondsPerSecond = 1E6;
+        constexpr double SecondsPerMinute = 60;
+        constexpr double SecondsPerHour = 60 * SecondsPerMinute;
+        constexpr double SecondsPerDay = 24 * SecondsPerHour;
+
+        // round to microseconds in advance, because rounding the seconds can affect all other components
+        const double absolute = std::fabs(count());
+        double remaining = std::floor(absolute);
+        double microseconds = std::round((absolute - remaining) * MicrosecondsPerSecond);
+
+        if (microseconds >= MicrosecondsPerSecond)
+        {
+            microseconds = 0;
+            ++remaining;
+        }
+
+        if (remaining == 0 && microseconds == 0)
         {
             return "PT0S";
         }
 
         std::ostringstream oss;
+        oss << std::fixed << std::setprecision(0);
+        oss << (count() < 0 ? "-P" : "P");
 
-        oss << "P";
-
-        Duration duration{ *this };
-
-        auto floor_to_string = [&oss, &duration](auto floorZero, char c)
+        auto write_component = [&oss, &remaining](double secondsPerComponent, char c)
         {
-            using duration_t = decltype(floorZero);
-
-            if (auto floored = date::floor<duration_t>(duration); floored > floorZero)
+            if (double components = std::floor(remaining / secondsPerComponent); components > 0)
             {
-                oss << floored.count() << c;
-                duration -= floored;
+                oss << components << c;
+                remaining = std::fmod(remaining, secondsPerComponent);
             }
         };
 
-        floor_to_string(date::days::zero(), 'D');
+        write_component(SecondsPerDay, 'D');
 
-        if (duration > zero())
+        if (remaining > 0 || microseconds > 0)
         {
             oss << "T";
-            floor_to_string(std::chrono::hours::zero(), 'H');
-            floor_to_string(std::chrono::minutes::zero(), 'M');
+            write_component(SecondsPerHour, 'H');
+            write_component(SecondsPerMinute, 'M');
 
-            if (duration > zero())
+            if (remaining > 0 || microseconds > 0)
             {
-                oss << duration.count() << "S";
+                oss << remaining;
+
+                if (microseconds > 0)
+                {
+                    std::string fraction = std::to_string(static_cast<int>(microseconds));
+                    fraction.insert(0, 6 - fraction.size(), '0');
+                    fraction.erase(fraction.find_last_not_of('0') + 1);
+                    oss << "." << fraction;
+                }
+
+                oss << "S";
             }
         }
 
@@ -77,79 +99,94 @@ namespace dots::type
 
     Duration Duration::FromString(std::string_view value)
     {
-        if (value == "PT0S")
+        auto make_error = [&value]
         {
-            return Duration{ zero() };
-        }
+            return std::runtime_error{ "could not parse duration from string: " + std::string{ value } };
+        };
+
+        std::string_view input = value;
 
-        // note that this implementation is currently not able to parse durations without a time designator. additionally
-        // it is pretty slow and should be overhauled at a later point
-        std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
-        std::smatch match;
-        std::string input{ value };
+        auto try_consume = [&input](char c)
+        {
+            bool consume = !input.empty() && input.front() == c;
+            input.remove_prefix(consume ? 1 : 0);
+
+            return consume;
+        };
+
+        const bool negative = try_consume('-');
 
-        if (!std::regex_match(input, match, regex) || match.size() <= 1)
+        if (!try_consume('P'))
         {
-            throw std::runtime_error{ "could not parse duration from string: " + std::string{ value } };
+            throw make_error();
         }
 
-        bool preTimeDesignator = true;
+        // designators have to occur in order and at most once
+        std::string_view designators = "YMWD";
+        bool timeComponents = false;
+        bool hasComponents = false;
         Duration duration = zero();
 
-        for (size_t i = 1; i < match.size(); ++i)
+        while (!input.empty())
         {
-            std::ssub_match subMatch = match[i];
-            std::string part = subMatch.str();
-
-            if (part.empty())
+            if (!timeComponents && try_consume('T'))
             {
+                designators = "HMS";
+                timeComponents = true;
                 continue;
             }
 
-            // note that the first parameter is used only to determine the duration type.
-            // this can be simplified with C++20 by using a template parameter.
-            auto parse_duration = [](auto duration, const std::string& part)
+            const size_t numberSize = input.find_first_not_of("0123456789.");
+
+            if (numberSize == std::string_view::npos)
             {
-                using duration_t = decltype(duration);
-                using rep_t = typename duration_t::rep;
-                (void)duration;
+                throw make_error();
+            }
 
-                rep_t count;
+            const std::string number{ input.substr(0, numberSize) };
+            const char designator = input[numberSize];
+            const size_t designatorPos = designators.find(designator);
 
-                if (std::from_chars_result result = std::from_chars(part.data(), part.data() + part.size(), count); result.ec != std::errc{})
-                {
-                    throw std::runtime_error{ "could not parse duration from string part: " + part  + " -> " + std::make_error_code(result.ec).message() };
-                }
+            if (number.find_first_of("0123456789") == std::string::npos || number.find('.') != number.rfind('.') || designatorPos == std::string_view::npos)
+            {
+                throw make_error();
+            }
 
-                return duration_t{ count };
-            };
+            const rep count = std::stod(number);
 
-            switch (part.back())
+            switch (designator)
             {
-                case 'Y': duration += parse_duration(date::years::zero(), part); break;
-                case 'W': duration += parse_duration(date::weeks::zero(), part); break;
-                case 'D': duration += parse_duration(date::days::zero(), part); break;
-                case 'T': preTimeDesignator = false; break;
-                case 'H': duration += parse_duration(std::chrono::hours::zero(), part); break;
-                case 'S': duration += std::chrono::duration_cast<std::chrono::nanoseconds>(base_t{ std::stod(part) }); break;
+                case 'Y': duration += std::chrono::duration<rep, date::years::period>{ count }; break;
+                case 'W': duration += std::chrono::duration<rep, date::weeks::period>{ count }; break;
+                case 'D': duration += std::chrono::duration<rep, date::days::period>{ count }; break;
+                case 'H': duration += std::chrono::duration<rep, std::chrono::hours::period>{ count }; break;
+                case 'S': duration += std::chrono::duration<rep, std::chrono::seconds::period>{ count }; break;
                 case 'M':
                 {
-                    if (preTimeDesignator)
+                    if (timeComponents)
                     {
-                        duration += parse_duration(date::months::zero(), part);
+                        duration += std::chrono::duration<rep, std::chrono::minutes::period>{ count };
                     }
                     else
                     {
-                        duration += parse_duration(std::chrono::minutes::zero(), part);
+                        duration += std::chrono::duration<rep, date::months::period>{ count };
                     }
 
                     break;
                 }
-                default: throw std::runtime_error{ "encountered invalid symbol while parsing duration: '" + std::string{ part.back() } + "'" };
             }
+
+            input.remove_prefix(numberSize + 1);
+            designators.remove_prefix(designatorPos + 1);
+            hasComponents = true;
+        }
+
+        if (!hasComponents)
+        {
+            throw make_error();
         }
 
-        return Duration{ duration };
+        return Duration{ negative ? -duration : duration };
     }
 
     using sys_time_t = date::sys_time<std::chrono::milliseconds>;
-- 
2.43.0


From 11da6b6cd48f2dd2e47f3a2ff916a5da6c269033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 23/90] fix: convert durations to normalized libc and POSIX
 times beyond 2038

---
 lib/include/dots/type/LibcTime.h  | 17 +++++++++++++----
 lib/include/dots/type/PosixTime.h | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/type/LibcTime.h b/lib/include/dots/type/LibcTime.h
index 26953c2..4529fe4 100644
--- a/lib/include/dots/type/LibcTime.h
+++ b/lib/include/dots/type/LibcTime.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <cmath>
 #include <ctime>
 #include <dots/type/Chrono.h>
 
@@ -67,11 +68,19 @@ namespace dots::type::libc
         }
 
         Timespec(Duration duration) :
-            Timespec(timespec{
-                static_cast<std::time_t>(duration.toSeconds()),
-                static_cast<long>(::nearbyint((duration.toFractionalSeconds() - duration.toSeconds()) * NanosecondsPerSecond))
-            })
+            Timespec()
         {
+            double seconds = std::floor(duration.toFractionalSeconds());
+            double nanoseconds = std::nearbyint((duration.toFractionalSeconds() - seconds) * NanosecondsPerSecond);
+
+            if (nanoseconds >= NanosecondsPerSecond)
+            {
+                nanoseconds = 0;
+                ++seconds;
+            }
+
+            m_timespec.tv_sec = static_cast<std::time_t>(seconds);
+            m_timespec.tv_nsec = static_cast<long>(nanoseconds);
         }
 
         Timespec(TimePoint timePoint) :
diff --git a/lib/include/dots/type/PosixTime.h b/lib/include/dots/type/PosixTime.h
index 81635c8..4e7b0cd 100644
--- a/lib/include/dots/type/PosixTime.h
+++ b/lib/include/dots/type/PosixTime.h
@@ -98,11 +98,19 @@ namespace dots::type::posix
         }
 
         Timeval(Duration duration) :
-            Timeval(timeval{
-                static_cast<time_t>(duration.toSeconds()),
-                static_cast<suseconds_t>(::nearbyint((duration.toFractionalSeconds() - duration.toSeconds()) * MicrosecondsPerSecond))
-            })
+            Timeval()
         {
+            double seconds = std::floor(duration.toFractionalSeconds());
+            double microseconds = std::nearbyint((duration.toFractionalSeconds() - seconds) * MicrosecondsPerSecond);
+
+            if (microseconds >= MicrosecondsPerSecond)
+            {
+                microseconds = 0;
+                ++seconds;
+            }
+
+            m_timeval.tv_sec = static_cast<time_t>(seconds);
+            m_timeval.tv_usec = static_cast<suseconds_t>(microseconds);
         }
 
         constexpr operator const timeval* () const
-- 
2.43.0


From bb93299b4fd0dd65b74d8ad46a04b3c9dcf831da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 24/90] fix: do not read the TZ environment variable if it is
 not set

---
 lib/include/dots/type/PosixTime.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/type/PosixTime.h b/lib/include/dots/type/PosixTime.h
index 4e7b0cd..680cd2d 100644
--- a/lib/include/dots/type/PosixTime.h
+++ b/lib/include/dots/type/PosixTime.h
@@ -13,14 +13,12 @@ namespace dots::type::posix
     {
         ScopedTimeZone(std::string_view timeZone)
         {
-            std::string_view currentTimeZone = ::getenv("TZ");
-
-            if (!currentTimeZone.empty())
+            if (const char* currentTimeZone = ::getenv("TZ"); currentTimeZone != nullptr)
             {
                 m_previousTimeZone = currentTimeZone;
             }
 
-            ::setenv("TZ", timeZone.data(), true);
+            ::setenv("TZ", std::string{ timeZone }.data(), true);
             ::tzset();
         }
 
-- 
2.43.0


From 36adf486996a3321d3fb480eb6b15008ec17fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 25/90] fix: write vectors of objects with type names in string
 notation

---
 .../dots/serialization/formats/TextWriter.h        | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 12a5f7f..0639685 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -48,16 +48,12 @@ namespace dots::serialization
         {
             if constexpr (format_t::ObjectFormat == TextFormat::ObjectFormat::WithTypeName)
             {
-                if (m_options.style == TextOptions::SingleLine)
+                if (m_options.style >= TextOptions::MultiLine || (m_options.style == TextOptions::SingleLine && m_nesting.empty()))
                 {
-                    if (m_nesting.empty())
-                    {
-                        writeString(objectTypeName);
-                    }
-                }
-                else if (m_options.style >= TextOptions::MultiLine)
-                {
-                    writeString(objectTypeName);
+                    writeString(objectTypeName, format_t::ObjectBegin);
+                    m_nesting.emplace(State::Object, true);
+
+                    return;
                 }
             }
             else
-- 
2.43.0


From 793d070607222f32c3369bbd761653f335fcb295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 26/90] fix: do not read beyond the end of names in error
 messages

---
 lib/src/type/DescriptorMap.cpp  | 4 ++--
 lib/src/type/EnumDescriptor.cpp | 2 +-
 lib/src/type/Registry.cpp       | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index b0c44d5..f8076f0 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -36,7 +36,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
             else
             {
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertContainedType)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
         }
         else
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 18f5086..81df0de 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -134,7 +134,7 @@ namespace dots::type
 
         if (it == m_enumerators.end())
         {
-            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + name.data() };
+            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + std::string{ name } };
         }
 
         return *it;
diff --git a/lib/src/type/Registry.cpp b/lib/src/type/Registry.cpp
index 0a39494..56745f4 100644
--- a/lib/src/type/Registry.cpp
+++ b/lib/src/type/Registry.cpp
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{std::string{"no type registered with name1: "} + name.data()};
+                throw std::logic_error{std::string{"no type registered with name1: "} + std::string{ name }};
             }
             else
             {
@@ -127,7 +127,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not an enum type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not an enum type" };
         }
 
         return descriptor;
@@ -144,7 +144,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not a struct type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not a struct type" };
         }
 
         return descriptor;
-- 
2.43.0


From af39ff60329bafee2dd83d0ba75dd60698db2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 27/90] fix: reject incomplete and inconsistent type
 descriptions

---
 lib/src/io/DescriptorConverter.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 1687fd0..546a427 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -14,6 +14,8 @@ namespace dots::io
 
     type::EnumDescriptor& DescriptorConverter::operator () (const EnumDescriptorData& enumData) const
     {
+        enumData._assertHasProperties(EnumDescriptorData::name_p + EnumDescriptorData::elements_p);
+
         if (type::EnumDescriptor* descriptor = m_registry.get().findEnumType(*enumData.name); descriptor != nullptr)
         {
             return *descriptor;
@@ -23,6 +25,7 @@ namespace dots::io
 
         for (const EnumElementDescriptor& enumeratorData : *enumData.elements)
         {
+            enumeratorData._assertHasProperties(EnumElementDescriptor::enum_value_p + EnumElementDescriptor::name_p + EnumElementDescriptor::tag_p);
             enumerators.emplace_back(*enumeratorData.tag, *enumeratorData.name, static_cast<type::DynamicEnum>(*enumeratorData.enum_value));
         }
 
@@ -31,6 +34,8 @@ namespace dots::io
 
     type::StructDescriptor& DescriptorConverter::operator () (const StructDescriptorData& structData) const
     {
+        structData._assertHasProperties(StructDescriptorData::name_p + StructDescriptorData::properties_p);
+
         if (type::StructDescriptor* descriptor = m_registry.get().findStructType(*structData.name); descriptor != nullptr)
         {
             return *descriptor;
@@ -52,15 +57,24 @@ namespace dots::io
         }
 
         const type::PropertyDescriptor* last = nullptr;
+        property_set_t properties;
 
         for (const StructPropertyData& propertyData : *structData.properties)
         {
+            propertyData._assertHasProperties(StructPropertyData::name_p + StructPropertyData::tag_p + StructPropertyData::isKey_p + StructPropertyData::type_p);
+
+            if (*propertyData.tag > property_set_t::LastProperty || property_set_t::FromIndex(*propertyData.tag) <= properties)
+            {
+                throw std::logic_error{ "invalid or duplicate tag of property '" + *propertyData.name + "': " + std::to_string(*propertyData.tag) };
+            }
+
+            properties += property_set_t::FromIndex(*propertyData.tag);
             type::Descriptor<>* descriptor = m_registry.get().findType(*propertyData.type);
 
             if (descriptor == nullptr)
             {
                 const std::string& typeName = *propertyData.type;
-                if (typeName.find("vector<") == std::string::npos)
+                if (typeName.rfind("vector<", 0) == std::string::npos || typeName.back() != '>')
                 {
                     throw std::logic_error{ "missing type dependency: " + typeName };
                 }
@@ -75,8 +89,16 @@ namespace dots::io
 
                 if (valueTypeDescriptor->type() == type::Type::Enum)
                 {
-                    auto& enumDescriptor = static_cast<type::Descriptor<type::DynamicEnum>&>(*valueTypeDescriptor);
-                    descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(enumDescriptor);
+                    if (auto* dynEnumDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicEnum>>(); dynEnumDescriptor == nullptr)
+                    {
+                        const auto& staticEnumDescriptor = valueTypeDescriptor->to<type::EnumDescriptor>();
+                        auto dynEnumDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicEnum>>(staticEnumDescriptor.name(), staticEnumDescriptor.enumerators());
+                        descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(*dynEnumDescriptor_);
+                    }
+                    else
+                    {
+                        descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(*dynEnumDescriptor);
+                    }
                 }
                 else if (valueTypeDescriptor->type() == type::Type::Struct)
                 {
@@ -109,7 +131,7 @@ namespace dots::io
             alignment = std::max(last->valueDescriptor().alignment(), alignment);
         }
 
-        size_t size = type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
+        size_t size = last == nullptr ? sizeof(type::PropertyArea) : type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
 
         return m_registry.get().registerType<type::Descriptor<type::DynamicStruct>>(*structData.name, flags, propertyDescriptors, sizeof(type::DynamicStruct) + size);
     }
-- 
2.43.0


From 5a68c771e77d91be67ab76509a7081e91bfe6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 28/90] fix: do not cache properties that were not transmitted

---
 lib/src/Container.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/Container.cpp b/lib/src/Container.cpp
index d6031bf..47263b8 100644
--- a/lib/src/Container.cpp
+++ b/lib/src/Container.cpp
@@ -142,7 +142,11 @@ namespace dots
 
         if (unknownInstance)
         {
-            auto itCreated = m_instances.emplace_hint(itUpper, instance, DotsCloneInformation{
+            // note: properties that are not part of the transmission must not be stored even if the instance has a value for them
+            type::AnyStruct created{ *m_descriptor };
+            created->_assign(instance, *header.attributes + instance._keyProperties());
+
+            auto itCreated = m_instances.emplace_hint(itUpper, std::move(created), DotsCloneInformation{
                 .lastOperation = DotsMt::create,
                 .lastUpdateFrom = header.sender,
                 .created = header.sentTime,
-- 
2.43.0


From 8a9b368eb167a0dfaeffd2874849ee8f8b1adfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 29/90] fix: keep a cached object when a message with an
 incomplete header is refused

---
 lib/src/Container.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/Container.cpp b/lib/src/Container.cpp
index 47263b8..7cf2d3c 100644
--- a/lib/src/Container.cpp
+++ b/lib/src/Container.cpp
@@ -137,6 +137,8 @@ namespace dots
 
     auto Container<type::Struct>::insert(const DotsHeader& header, const type::Struct& instance) & -> const value_t &
     {
+        // note: the header has to be accessed before the container is modified, because it might be incomplete
+        property_set_t attributes = *header.attributes;
         auto [itLower, itUpper] = m_instances.equal_range(instance);
         bool unknownInstance = itLower == itUpper;
 
@@ -144,7 +146,7 @@ namespace dots
         {
             // note: properties that are not part of the transmission must not be stored even if the instance has a value for them
             type::AnyStruct created{ *m_descriptor };
-            created->_assign(instance, *header.attributes + instance._keyProperties());
+            created->_assign(instance, attributes + instance._keyProperties());
 
             auto itCreated = m_instances.emplace_hint(itUpper, std::move(created), DotsCloneInformation{
                 .lastOperation = DotsMt::create,
@@ -163,7 +165,7 @@ namespace dots
             type::Struct& existing = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(existing, instance, *header.attributes);
+            updateWithoutKeys(existing, instance, attributes);
             cloneInfo.lastOperation = DotsMt::update;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
@@ -177,6 +179,7 @@ namespace dots
 
     auto Container<type::Struct>::remove(const DotsHeader& header, const type::Struct& instance) & -> node_t
     {
+        property_set_t attributes = *header.attributes;
         node_t node = m_instances.extract(instance);
 
         if (!node.empty())
@@ -184,7 +187,7 @@ namespace dots
             type::Struct& removed = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(removed, instance, *header.attributes);
+            updateWithoutKeys(removed, instance, attributes);
             cloneInfo.lastOperation = DotsMt::remove;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
-- 
2.43.0


From 68252239f394d4190584865771869542aaf3f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 30/90] fix: dispatch messages published by handlers after the
 current message

---
 lib/include/dots/Dispatcher.h | 19 +++++++-
 lib/src/Dispatcher.cpp        | 89 ++++++++++++++++++++++++++++++-----
 lib/src/HostTransceiver.cpp   |  7 +--
 3 files changed, 96 insertions(+), 19 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 86c61fa..34f9003 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <deque>
 #include <map>
 #include <unordered_map>
 #include <functional>
@@ -38,6 +39,7 @@ namespace dots
         using transmission_handler_t = tools::Handler<void(const io::Transmission&)>;
         template <typename T = type::Struct>
         using event_handler_t = tools::Handler<void(const Event<T>&)>;
+        using dispatched_handler_t = std::function<void(const io::Transmission&)>;
 
         /*!
          * @brief Construct a new Dispatcher object.
@@ -233,9 +235,18 @@ namespace dots
          * Note that transmission handlers will always be invoked first and
          * before any updates on the Container take place.
          *
+         * When called from within a handler, dispatching of the given
+         * transmission will be deferred until all handlers for the current
+         * transmission have been invoked. This ensures that all handlers
+         * observe transmissions in the same order.
+         *
          * @param transmission The transmission to dispatch.
+         *
+         * @param dispatchedHandler An optional handler to invoke after the
+         * transmission has been dispatched and before any deferred
+         * transmission is dispatched.
          */
-        void dispatch(const io::Transmission& transmission);
+        void dispatch(const io::Transmission& transmission, const dispatched_handler_t& dispatchedHandler = nullptr);
 
         /*!
          * @brief Get a specific container by type.
@@ -341,6 +352,10 @@ namespace dots
         template <typename HandlerPool>
         void removeHandler(HandlerPool& handlerPool, const type::StructDescriptor& descriptor, id_t id);
 
+        template <typename F>
+        void runExclusively(F&& f);
+
+        void dispatchImmediately(const io::Transmission& transmission, const dispatched_handler_t& dispatchedHandler);
         void dispatchTransmission(const io::Transmission& transmission);
         void dispatchEvent(const DotsHeader& header, const type::AnyStruct& instance);
 
@@ -355,5 +370,7 @@ namespace dots
         id_t m_nextId;
         error_handler_t m_errorHandler;
         bool m_clearingHandlers = false;
+        bool m_dispatching = false;
+        std::deque<std::pair<io::Transmission, dispatched_handler_t>> m_deferred;
     };
 }
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..444e383 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Dispatcher.h>
+#include <utility>
 
 namespace dots
 {
@@ -64,19 +65,22 @@ namespace dots
 
         if (!container.empty())
         {
-            DotsHeader header{
-                .typeName = descriptor.name(),
-                .fromCache = static_cast<uint32_t>(container.size()),
-                .removeObj = false,
-                .isFromMyself = false
-            };
-
-            for (const auto& [instance, cloneInfo] : container)
+            runExclusively([&]
             {
-                header.attributes = instance->_validProperties();
-                --*header.fromCache;
-                handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
-            }
+                DotsHeader header{
+                    .typeName = descriptor.name(),
+                    .fromCache = static_cast<uint32_t>(container.size()),
+                    .removeObj = false,
+                    .isFromMyself = false
+                };
+
+                for (const auto& [instance, cloneInfo] : container)
+                {
+                    header.attributes = instance->_validProperties();
+                    --*header.fromCache;
+                    handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                }
+            });
         }
 
         return id;
@@ -94,10 +98,69 @@ namespace dots
         removeHandler(m_eventHandlerPool, descriptor, id);
     }
 
-    void Dispatcher::dispatch(const io::Transmission& transmission)
+    void Dispatcher::dispatch(const io::Transmission& transmission, const dispatched_handler_t& dispatchedHandler/* = nullptr*/)
+    {
+        if (m_dispatching)
+        {
+            m_deferred.emplace_back(io::Transmission{ transmission.header(), transmission.instance() }, dispatchedHandler);
+            return;
+        }
+
+        runExclusively([&]{ dispatchImmediately(transmission, dispatchedHandler); });
+    }
+
+    template <typename F>
+    void Dispatcher::runExclusively(F&& f)
+    {
+        if (std::exchange(m_dispatching, true))
+        {
+            f();
+            return;
+        }
+
+        std::exception_ptr ePtr;
+
+        try
+        {
+            f();
+        }
+        catch (...)
+        {
+            ePtr = std::current_exception();
+        }
+
+        while (!m_deferred.empty())
+        {
+            auto [transmission, dispatchedHandler] = std::move(m_deferred.front());
+            m_deferred.pop_front();
+
+            try
+            {
+                dispatchImmediately(transmission, dispatchedHandler);
+            }
+            catch (...)
+            {
+                m_errorHandler(transmission.instance()->_descriptor(), std::current_exception());
+            }
+        }
+
+        m_dispatching = false;
+
+        if (ePtr != nullptr)
+        {
+            std::rethrow_exception(ePtr);
+        }
+    }
+
+    void Dispatcher::dispatchImmediately(const io::Transmission& transmission, const dispatched_handler_t& dispatchedHandler)
     {
         dispatchTransmission(transmission);
         dispatchEvent(transmission.header(), transmission.instance());
+
+        if (dispatchedHandler != nullptr)
+        {
+            dispatchedHandler(transmission);
+        }
     }
 
     template <typename HandlerPool>
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..d0757e1 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -69,9 +69,7 @@ namespace dots
             .isFromMyself = true
         };
 
-        io::Transmission transmission{ std::move(header), instance };
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
+        dispatcher().dispatch(io::Transmission{ std::move(header), instance }, [this](const io::Transmission& transmission){ transmit(transmission); });
     }
 
     void HostTransceiver::joinGroup(std::string_view/* name*/)
@@ -172,8 +170,7 @@ namespace dots
             }
         }
 
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
+        dispatcher().dispatch(transmission, [this](const io::Transmission& transmission){ transmit(transmission); });
 
         return !connection.closed();
     }
-- 
2.43.0


From 84ad6596461df439a792492edc6c8c784a89b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 31/90] fix: report errors of handlers that are called with
 cached objects on subscription

---
 lib/src/Dispatcher.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 444e383..7118791 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -78,7 +78,15 @@ namespace dots
                 {
                     header.attributes = instance->_validProperties();
                     --*header.fromCache;
-                    handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+
+                    try
+                    {
+                        handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                    }
+                    catch (...)
+                    {
+                        m_errorHandler(descriptor, std::current_exception());
+                    }
                 }
             });
         }
-- 
2.43.0


From 9bd3be97f8c224d10ad13d14fa9a273d82b97ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 32/90] fix: describe a type before its first instance is
 relayed

---
 lib/src/io/Channel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index b582bef..d3d1e56 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -81,6 +81,7 @@ namespace dots::io
     void Channel::transmit(const Transmission& transmission)
     {
         assert(m_initialized);
+        exportDependencies(transmission.instance()->_descriptor());
         exportDependencies(transmission.instance());
         transmitImpl(transmission);
     }
-- 
2.43.0


From dcbd57a5d9197554f89eab2fdab8e8326e69f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 33/90] fix: deliver only the published properties to
 host-local subscribers

---
 lib/src/HostTransceiver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index d0757e1..dffce53 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -69,7 +69,11 @@ namespace dots
             .isFromMyself = true
         };
 
-        dispatcher().dispatch(io::Transmission{ std::move(header), instance }, [this](const io::Transmission& transmission){ transmit(transmission); });
+        // note: local subscribers must not get to see any properties that are not part of the publication
+        type::AnyStruct published{ instance._descriptor() };
+        published->_assign(instance, *includedProperties);
+
+        dispatcher().dispatch(io::Transmission{ std::move(header), std::move(published) }, [this](const io::Transmission& transmission){ transmit(transmission); });
     }
 
     void HostTransceiver::joinGroup(std::string_view/* name*/)
-- 
2.43.0


From fcbd825b042db4c73308fc2decca9e15f5d3f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 34/90] fix: join types again after a guest has reconnected

---
 lib/src/GuestTransceiver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 60c3690..04ec3d7 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -45,6 +45,9 @@ namespace dots
         m_preloadPublishTypes = std::move(preloadPublishTypes);
         m_preloadSubscribeTypes = std::move(preloadSubscribeTypes);
 
+        // note: memberships end with the connection they were requested on
+        m_joinedGroups.clear();
+
         m_hostConnection = std::make_unique<Connection>(std::move(channel), false, std::move(authSecret));
         m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
             { &GuestTransceiver::handleTransmission, this },
-- 
2.43.0


From accdbf5d06ecb29bcc7fbf70e58d74b7e90d96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 35/90] fix: start with empty caches when a guest connects
 again

---
 lib/src/GuestTransceiver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 04ec3d7..f33b7fe 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -48,6 +48,14 @@ namespace dots
         // note: memberships end with the connection they were requested on
         m_joinedGroups.clear();
 
+        // note: the host provides all current objects again, while objects that were removed in the meantime would never
+        // disappear and outdated properties would get merged into new objects
+        for (auto& [descriptor, container] : dispatcher().pool())
+        {
+            (void)descriptor;
+            container.clear();
+        }
+
         m_hostConnection = std::make_unique<Connection>(std::move(channel), false, std::move(authSecret));
         m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
             { &GuestTransceiver::handleTransmission, this },
-- 
2.43.0


From b3f4fb4c62cd5d9544e2e2f54bce62abd24e2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 36/90] fix: close the connection when the host refuses it

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..af56942 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -338,6 +338,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "host refused the connection" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From b02d71e9db9e41bbbf106f3156ee11b2c5cc672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 37/90] fix: reject authentication responses that exceed the
 length of a digest

---
 lib/src/io/auth/Digest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/io/auth/Digest.cpp b/lib/src/io/auth/Digest.cpp
index dbb2f68..b3979e7 100644
--- a/lib/src/io/auth/Digest.cpp
+++ b/lib/src/io/auth/Digest.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/auth/Digest.h>
+#include <stdexcept>
 #include <PicoSHA2/picosha2.h>
 #include <boost/algorithm/hex.hpp>
 
@@ -18,6 +19,12 @@ namespace dots::io
         Digest([&]
         {
             value_t value = {};
+
+            if (stringValue.size() > 2 * value.size())
+            {
+                throw std::runtime_error{ "digest exceeds maximum length" };
+            }
+
             boost::algorithm::unhex(stringValue, value.begin());
 
             return value;
-- 
2.43.0


From e71d929618211d92669dcdc2c74ad492fd08fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 38/90] fix: enclose IPv6 hosts in brackets when building a URI

---
 lib/src/tools/Uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 0ce875c..38c34c1 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -13,7 +13,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& host, const std::string& port) :
-        Uri(scheme + "://" + host + ":" + port)
+        Uri(scheme + "://" + (host.find(':') != std::string::npos && host.front() != '[' ? "[" + host + "]" : host) + ":" + port)
     {
         /* do nothing */
     }
-- 
2.43.0


From 74b26763682c0674ca0311abea08a5e0f7a39af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 39/90] fix: do not read a nonce beyond the end of its text

---
 lib/src/io/auth/Nonce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/auth/Nonce.cpp b/lib/src/io/auth/Nonce.cpp
index 99f93c4..7d4091c 100644
--- a/lib/src/io/auth/Nonce.cpp
+++ b/lib/src/io/auth/Nonce.cpp
@@ -23,7 +23,7 @@ namespace dots::io
         Nonce([&]
         {
             value_t value;
-            std::istringstream iss{ stringValue.data() };
+            std::istringstream iss{ std::string{ stringValue } };
             iss >> std::setw(16) >> std::hex >> value;
 
             return value;
-- 
2.43.0


From c9dcd0a5d8e06ee37875386ae3ec235424c791c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 40/90] fix: report an error of a channel only once

---
 lib/src/io/Channel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index d3d1e56..1835fb8 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -141,6 +141,11 @@ namespace dots::io
 
     void Channel::processError(std::exception_ptr ePtr)
     {
+        if (!m_asyncReceiving)
+        {
+            return;
+        }
+
         try
         {
             m_asyncReceiving = false;
-- 
2.43.0


From d5b3e11920c6bb21c274f955694c072a5ced165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 41/90] fix: reject messages whose size differs from the
 announced one

---
 .../dots/io/channels/AsyncStreamChannel.h     | 69 ++++++++++++++-----
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 087397a..7318939 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -192,21 +192,24 @@ namespace dots::io
 
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
-                auto process_transmission = [this]
+                auto process_transmission = [this](size_t transmissionSize)
                 {
-                    Transmission transmission = deserializeTransmission();
+                    Transmission transmission = deserializeTransmission(transmissionSize);
                     processReceive(std::move(transmission));
                 };
 
-                auto process_header = [this, process_transmission]
+                auto process_header = [this, process_transmission](size_t headerSize)
                 {
-                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
+                    if (size_t transmissionSize = deserializeTransmissionSize(headerSize); transmissionSize <= m_serializer.inputAvailable())
                     {
-                        process_transmission();
+                        process_transmission(transmissionSize);
                     }
                     else
                     {
-                        asyncRead(transmissionSize, process_transmission);
+                        asyncRead(transmissionSize, [process_transmission, transmissionSize]
+                        {
+                            process_transmission(transmissionSize);
+                        });
                     }
                 };
 
@@ -214,13 +217,13 @@ namespace dots::io
                 {
                     if (size_t headerSize = deserializeHeaderSize(); headerSize <= m_serializer.inputAvailable())
                     {
-                        process_header();
+                        process_header(headerSize);
                     }
                     else
                     {
-                        asyncRead(headerSize, [process_header]
+                        asyncRead(headerSize, [process_header, headerSize]
                         {
-                            process_header();
+                            process_header(headerSize);
                         });
                     }
                 };
@@ -229,21 +232,24 @@ namespace dots::io
             }
             else
             {
-                auto process_transmission = [this]
+                auto process_transmission = [this](size_t transmissionSize)
                 {
-                    Transmission transmission = deserializeTransmission();
+                    Transmission transmission = deserializeTransmission(transmissionSize);
                     processReceive(std::move(transmission));
                 };
 
                 auto process_transmission_size = [this, process_transmission]
                 {
-                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
+                    if (size_t transmissionSize = deserializeTransmissionSize(TransmissionSizeSize); transmissionSize <= m_serializer.inputAvailable())
                     {
-                        process_transmission();
+                        process_transmission(transmissionSize);
                     }
                     else
                     {
-                        asyncRead(transmissionSize, process_transmission);
+                        asyncRead(transmissionSize, [process_transmission, transmissionSize]
+                        {
+                            process_transmission(transmissionSize);
+                        });
                     }
                 };
 
@@ -472,18 +478,42 @@ namespace dots::io
             return transmissionSize;
         }
 
+        /*!
+         * @brief Verify that deserialized data had its announced size.
+         *
+         * @param announcedSize The announced size of the data.
+         *
+         * @param inputAvailable The amount of input data that was available
+         * before the data was deserialized.
+         *
+         * @exception std::runtime_error Thrown if the sizes differ.
+         */
+        void verifySize(size_t announcedSize, size_t inputAvailable)
+        {
+            if (size_t size = inputAvailable - m_serializer.inputAvailable(); size != announcedSize)
+            {
+                throw std::runtime_error{ "received data of size " + std::to_string(size) + " instead of announced size " + std::to_string(announcedSize) };
+            }
+        }
+
         /*!
          * @brief Deserialize the size of the transmission from the current
          * input data.
          *
+         * @param headerSize The announced size of the transport header. Only
+         * used for v1 transmissions.
+         *
          * @return size_t The deserialized transmission size.
          */
-        size_t deserializeTransmissionSize()
+        size_t deserializeTransmissionSize([[maybe_unused]] size_t headerSize)
         {
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
+                size_t inputAvailable = m_serializer.inputAvailable();
+
                 m_transportHeader = {};
                 m_serializer.deserialize(m_transportHeader);
+                verifySize(headerSize, inputAvailable);
 
                 if (!m_transportHeader.payloadSize.isValid())
                 {
@@ -501,14 +531,19 @@ namespace dots::io
         /*!
          * @brief Deserialize a transmission from the current input data.
          *
+         * @param transmissionSize The announced size of the transmission.
+         *
          * @return Transmission The deserialized transmission.
          */
-        Transmission deserializeTransmission()
+        Transmission deserializeTransmission(size_t transmissionSize)
         {
+            size_t inputAvailable = m_serializer.inputAvailable();
+
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
                 type::AnyStruct instance{ registry().getStructType(*m_transportHeader.dotsHeader->typeName) };
                 m_serializer.deserialize(*instance);
+                verifySize(transmissionSize, inputAvailable);
 
                 return Transmission{ std::move(*m_transportHeader.dotsHeader), std::move(instance) };
             }
@@ -526,6 +561,8 @@ namespace dots::io
                     throw std::runtime_error("deserialization exception in type '" + instance->_descriptor().name() + "': " + se.what());
                 }
 
+                verifySize(transmissionSize, inputAvailable);
+
                 return Transmission{std::move(header), std::move(instance)};
             }
         }
-- 
2.43.0


From 0abab1d405576b56a7410868780df0b2623ba8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 42/90] fix: do not reserve memory for announced data that was
 not received

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 7318939..8032f87 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -309,6 +309,7 @@ namespace dots::io
     private:
 
         static constexpr size_t ReadBufferMinSize = 16 * 128;
+        static constexpr size_t ReadBufferMaxGrowth = 64 * 1024;
         static constexpr size_t WriteBufferMaxSize = 10 * 1024 * 1024;
 
         using transmission_size_t = std::conditional_t<TransmissionFormat == TransmissionFormat::v1, dots::uint16_t, dots::uint32_t>;
@@ -378,7 +379,9 @@ namespace dots::io
                 size_t availableBytes = m_serializer.inputAvailable();
 
                 std::copy(m_serializer.inputData(), m_serializer.inputDataEnd(), m_readBuffer.begin());
-                m_readBuffer.resize(std::max(ReadBufferMinSize, requiredBytes));
+                // note: the buffer grows with the data that was actually received, because the required size might have been
+                // specified by the peer
+                m_readBuffer.resize(std::max(ReadBufferMinSize, std::min(requiredBytes, 2 * availableBytes + ReadBufferMaxGrowth)));
                 m_serializer.setInput(m_readBuffer.data(), availableBytes);
 
                 uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
-- 
2.43.0


From 0c5bccb59e54e1d1419353427fa207962ad524eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 43/90] fix: limit the write buffer for cached payloads too

---
 .../dots/io/channels/AsyncStreamChannel.h     | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 8032f87..59099fc 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -570,6 +570,21 @@ namespace dots::io
             }
         }
 
+        /*!
+         * @brief Verify that further payloads can be added to the current write
+         * buffer.
+         *
+         * @exception std::runtime_error Thrown if the write buffer exceeds its
+         * maximum size.
+         */
+        void verifyWriteBufferSize() const
+        {
+            if (m_serializer.output().size() > WriteBufferMaxSize)
+            {
+                throw std::runtime_error{ "async write buffer exceeded maximum size" };
+            }
+        }
+
         /*!
          * @brief Serialize a transmission into the current write buffer.
          *
@@ -587,10 +602,7 @@ namespace dots::io
          */
         iterator_t serializeTransmission(const DotsHeader& header, const type::Struct& instance)
         {
-            if (m_serializer.output().size() > WriteBufferMaxSize)
-            {
-                throw std::runtime_error{ "async write buffer exceeded maximum size" };
-            }
+            verifyWriteBufferSize();
 
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
@@ -697,6 +709,7 @@ namespace dots::io
 
                 if (transmission.id() == cacheId)
                 {
+                    verifyWriteBufferSize();
                     writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                 }
                 else
-- 
2.43.0


From 62a0547346e98a66afafb79ead508dedfacc0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 44/90] fix: transmit only the selected properties to WebSocket
 clients

---
 lib/src/io/channels/WebSocketChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 733056b..fa88abb 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -94,7 +94,7 @@ namespace dots::io
     {
         m_serializer.writer().writeArrayBegin();
         m_serializer.serialize(header);
-        m_serializer.serialize(instance);
+        m_serializer.serialize(instance, *header.attributes);
         m_serializer.writer().writeArrayEnd();
 
         m_stream.write(asio::buffer(m_serializer.output()));
-- 
2.43.0


From 17d99cd444e9594c85282409cf2e89dc5bc10f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 45/90] fix: keep listening when a single connection fails

---
 .../dots/io/channels/WebSocketListener.h      |  6 ++
 lib/src/io/Listener.cpp                       |  5 ++
 lib/src/io/channels/TcpListener.cpp           | 16 ++--
 lib/src/io/channels/UdsListener.cpp           | 16 ++--
 lib/src/io/channels/WebSocketListener.cpp     | 75 +++++++++++--------
 5 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 2baa38c..74ed700 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -1,9 +1,11 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
 #include <dots/io/Listener.h>
+#include <dots/io/channels/WebSocketChannel.h>
 
 namespace dots::io
 {
@@ -24,9 +26,13 @@ namespace dots::io
 
     private:
 
+        void asyncHandshake(std::shared_ptr<WebSocketChannel::ws_stream_t> stream);
+
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
+        bool m_acceptPending = false;
+        std::shared_ptr<bool> m_alive = std::make_shared<bool>(true);
     };
 }
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 11cc860..62096ca 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -19,6 +19,11 @@ namespace dots::io
 
     void Listener::processAccept(channel_ptr_t channel)
     {
+        if (!m_asyncAcceptActive)
+        {
+            return;
+        }
+
         if ((*m_acceptHandler)(*this, std::move(channel)))
         {
             asyncAcceptImpl();
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b3850d3..b4132a3 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/TcpListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::details
 {
@@ -79,17 +80,12 @@ namespace dots::io::details
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure TCP socket -> " } + e.what());
+                // note: this only concerns the accepted connection, so the listener must remain available for other clients
+                LOG_WARN_S("failed to accept TCP connection -> " << e.what());
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close TCP socket -> " } + e.what());
-                }
+                boost::system::error_code ignored;
+                m_socket.close(ignored);
+                asyncAcceptImpl();
             }
         });
     }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index a052332..f05cf6f 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/asio.h>
 #if defined(BOOST_ASIO_HAS_LOCAL_SOCKETS)
 #include <dots/io/channels/UdsListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::posix::details
 {
@@ -81,17 +82,12 @@ namespace dots::io::posix::details
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure UDS socket -> " } + e.what());
+                // note: this only concerns the accepted connection, so the listener must remain available for other clients
+                LOG_WARN_S("failed to accept UDS connection -> " << e.what());
 
-                    m_socket.shutdown(asio::local::stream_protocol::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close UDS socket -> " } + e.what());
-                }
+                boost::system::error_code ignored;
+                m_socket.close(ignored);
+                asyncAcceptImpl();
             }
         });
     }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 8f54ba3..6a61e43 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/io/channels/WebSocketListener.h>
 #include <algorithm>
 #include <dots/io/channels/WebSocketChannel.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -44,48 +45,60 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
+        // note: the next client is already being awaited while the handshakes of previous clients are still pending
+        if (m_acceptPending)
+        {
+            return;
+        }
+
+        m_acceptPending = true;
         m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
         {
-            try
+            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
-                if (error == asio::error::operation_aborted || !m_acceptor.is_open())
-                {
-                    return;
-                }
+                return;
+            }
 
-                if (error)
-                {
-                    processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-                    return;
-                }
+            m_acceptPending = false;
 
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
+            if (error)
+            {
+                processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
+                return;
+            }
+
+            // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
+            asyncHandshake(std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket)));
+            asyncAcceptImpl();
+        });
+    }
 
-                stream.set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
-                stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
-                {
-                    res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
-                    res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
-                }));
+    void WebSocketListener::asyncHandshake(std::shared_ptr<WebSocketChannel::ws_stream_t> stream)
+    {
+        stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
+        stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+        {
+            res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
+            res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
+        }));
 
-                stream.accept();
+        auto& stream_ = *stream;
+        stream_.async_accept([this, stream{ std::move(stream) }, alive = std::weak_ptr<bool>{ m_alive }](const boost::system::error_code& error)
+        {
+            if (alive.expired())
+            {
+                return;
+            }
 
-                processAccept(make_channel<WebSocketChannel>(std::move(stream)));
+            try
+            {
+                verifyErrorCode(error);
+                processAccept(make_channel<WebSocketChannel>(std::move(*stream)));
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure WebSocket stream -> " } + e.what());
-
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close WebSocket stream -> " } + e.what());
-                }
+                // note: this only concerns the accepted connection, so the listener must remain available for other clients
+                LOG_WARN_S("failed to accept WebSocket connection -> " << e.what());
             }
         });
     }
-- 
2.43.0


From fcbb087e6c2cf30940b3c942d264e4af37136000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 46/90] fix: keep the WebSocket stream until its pending
 operations have completed

---
 lib/include/dots/io/channels/WebSocketChannel.h | 16 +++++++++++++---
 lib/src/io/channels/WebSocketChannel.cpp        | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketChannel.h b/lib/include/dots/io/channels/WebSocketChannel.h
index 1bb00bc..00b8e62 100644
--- a/lib/include/dots/io/channels/WebSocketChannel.h
+++ b/lib/include/dots/io/channels/WebSocketChannel.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <string_view>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
@@ -19,7 +20,7 @@ namespace dots::io
         WebSocketChannel(key_t key, ws_stream_t&& stream);
         WebSocketChannel(const WebSocketChannel& other) = delete;
         WebSocketChannel(WebSocketChannel&& other) = delete;
-        ~WebSocketChannel() override = default;
+        ~WebSocketChannel() override;
 
         WebSocketChannel& operator = (const WebSocketChannel& rhs) = delete;
         WebSocketChannel& operator = (WebSocketChannel&& rhs) = delete;
@@ -31,8 +32,17 @@ namespace dots::io
 
     private:
 
-        ws_stream_t m_stream;
-        boost::beast::flat_buffer m_buffer;
+        // note: pending operations of the stream access the stream and the buffer until they are completed, even after
+        // the channel was destroyed
+        struct StreamData
+        {
+            ws_stream_t stream;
+            boost::beast::flat_buffer buffer;
+        };
+
+        std::shared_ptr<StreamData> m_data;
+        ws_stream_t& m_stream;
+        boost::beast::flat_buffer& m_buffer;
         serialization::JsonSerializer m_serializer;
     };
 }
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index fa88abb..8c08d33 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -14,7 +14,9 @@ namespace dots::io
 
     WebSocketChannel::WebSocketChannel(key_t key, asio::io_context& ioContext, std::string_view host, std::string_view port) :
         Channel(key),
-        m_stream{ ioContext },
+        m_data{ new StreamData{ ws_stream_t{ ioContext }, {} } },
+        m_stream{ m_data->stream },
+        m_buffer{ m_data->buffer },
         m_serializer{ { serialization::TextOptions::Minified } }
     {
         try
@@ -54,15 +56,22 @@ namespace dots::io
 
     WebSocketChannel::WebSocketChannel(key_t key, ws_stream_t&& stream) :
         Channel(key),
-        m_stream(std::move(stream))
+        m_data{ new StreamData{ std::move(stream), {} } },
+        m_stream{ m_data->stream },
+        m_buffer{ m_data->buffer }
     {
         initEndpoints(Endpoint{ "ws", m_stream.next_layer().socket().local_endpoint() }, Endpoint{ "ws", m_stream.next_layer().socket().remote_endpoint() });
     }
 
+    WebSocketChannel::~WebSocketChannel()
+    {
+        m_stream.next_layer().close();
+    }
+
     void WebSocketChannel::asyncReceiveImpl()
     {
         m_buffer.consume(m_buffer.size());
-        m_stream.async_read(m_buffer, [&, this_{ weak_from_this() }](std::error_code ec, size_t/* bytes*/)
+        m_stream.async_read(m_buffer, [this, this_{ weak_from_this() }, data{ m_data }](std::error_code ec, size_t/* bytes*/)
         {
             try
             {
-- 
2.43.0


From b274123e0f906dc53a797cfc8108eeaa051007b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 47/90] fix: do not leave a partial transmission in the write
 buffer

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 4 +++-
 lib/src/io/channels/WebSocketChannel.cpp          | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 59099fc..b8d3ccf 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -655,6 +655,8 @@ namespace dots::io
             }
             else
             {
+                // note: accessed before anything is written, so that an invalid header does not leave a partial transmission
+                const property_set_t& attributes = *header.attributes;
                 buffer_t& writeBuffer = m_serializer.output();
 
                 // create storage area for transmission size
@@ -663,7 +665,7 @@ namespace dots::io
 
                 // serialize header and instance
                 m_serializer.serialize(header);
-                m_serializer.serialize(instance, *header.attributes);
+                m_serializer.serialize(instance, attributes);
 
                 // serialize transmission size into previously created storage
                 // area. note that the transmission size is encoded as a fixed size
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 8c08d33..241e51f 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -101,9 +101,12 @@ namespace dots::io
 
     void WebSocketChannel::transmitImpl(const DotsHeader& header, const type::Struct& instance)
     {
+        // note: accessed before anything is written, so that an invalid header does not leave a partial transmission
+        const property_set_t& attributes = *header.attributes;
+
         m_serializer.writer().writeArrayBegin();
         m_serializer.serialize(header);
-        m_serializer.serialize(instance, *header.attributes);
+        m_serializer.serialize(instance, attributes);
         m_serializer.writer().writeArrayEnd();
 
         m_stream.write(asio::buffer(m_serializer.output()));
-- 
2.43.0


From 317a40bacfc3e9fd960c76bd1445927dd1754920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 48/90] fix: reject messages without attributes from the peer

---
 lib/src/Connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index af56942..d21bd00 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -262,6 +262,7 @@ namespace dots
             {
                 instance._assertHasProperties(instance._keyProperties());
                 DotsHeader& header = transmission.header();
+                header._assertHasProperties(DotsHeader::attributes_p);
 
                 if (m_selfId == HostId)
                 {
-- 
2.43.0


From 2985afa8f57cde134e66768d006151f154b4deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 49/90] fix: do not block while writing to WebSocket clients

---
 .../dots/io/channels/WebSocketChannel.h       | 11 +++-
 lib/src/io/channels/WebSocketChannel.cpp      | 56 +++++++++++++++++--
 2 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketChannel.h b/lib/include/dots/io/channels/WebSocketChannel.h
index 00b8e62..b1fb469 100644
--- a/lib/include/dots/io/channels/WebSocketChannel.h
+++ b/lib/include/dots/io/channels/WebSocketChannel.h
@@ -1,7 +1,9 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <deque>
 #include <memory>
+#include <string>
 #include <string_view>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
@@ -32,14 +34,21 @@ namespace dots::io
 
     private:
 
-        // note: pending operations of the stream access the stream and the buffer until they are completed, even after
+        static constexpr size_t WriteBufferMaxSize = 10 * 1024 * 1024;
+
+        // note: pending operations of the stream access the stream and the buffers until they are completed, even after
         // the channel was destroyed
         struct StreamData
         {
             ws_stream_t stream;
             boost::beast::flat_buffer buffer;
+            std::deque<std::string> writeQueue;
+            size_t writeQueueSize = 0;
+            bool released = false;
         };
 
+        static void AsyncWrite(std::weak_ptr<Channel> channel, std::shared_ptr<StreamData> data);
+
         std::shared_ptr<StreamData> m_data;
         ws_stream_t& m_stream;
         boost::beast::flat_buffer& m_buffer;
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 241e51f..b508d1c 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -14,7 +14,7 @@ namespace dots::io
 
     WebSocketChannel::WebSocketChannel(key_t key, asio::io_context& ioContext, std::string_view host, std::string_view port) :
         Channel(key),
-        m_data{ new StreamData{ ws_stream_t{ ioContext }, {} } },
+        m_data{ new StreamData{ ws_stream_t{ ioContext }, {}, {} } },
         m_stream{ m_data->stream },
         m_buffer{ m_data->buffer },
         m_serializer{ { serialization::TextOptions::Minified } }
@@ -56,7 +56,7 @@ namespace dots::io
 
     WebSocketChannel::WebSocketChannel(key_t key, ws_stream_t&& stream) :
         Channel(key),
-        m_data{ new StreamData{ std::move(stream), {} } },
+        m_data{ new StreamData{ std::move(stream), {}, {} } },
         m_stream{ m_data->stream },
         m_buffer{ m_data->buffer }
     {
@@ -65,7 +65,13 @@ namespace dots::io
 
     WebSocketChannel::~WebSocketChannel()
     {
-        m_stream.next_layer().close();
+        m_data->released = true;
+
+        // note: transmissions that are still being written keep the stream open
+        if (m_data->writeQueue.empty())
+        {
+            m_stream.next_layer().close();
+        }
     }
 
     void WebSocketChannel::asyncReceiveImpl()
@@ -101,6 +107,11 @@ namespace dots::io
 
     void WebSocketChannel::transmitImpl(const DotsHeader& header, const type::Struct& instance)
     {
+        if (m_data->writeQueueSize > WriteBufferMaxSize)
+        {
+            throw std::runtime_error{ "async write buffer exceeded maximum size" };
+        }
+
         // note: accessed before anything is written, so that an invalid header does not leave a partial transmission
         const property_set_t& attributes = *header.attributes;
 
@@ -109,7 +120,44 @@ namespace dots::io
         m_serializer.serialize(instance, attributes);
         m_serializer.writer().writeArrayEnd();
 
-        m_stream.write(asio::buffer(m_serializer.output()));
+        m_data->writeQueueSize += m_serializer.output().size();
+        m_data->writeQueue.emplace_back(std::move(m_serializer.output()));
         m_serializer.output().clear();
+
+        if (m_data->writeQueue.size() == 1)
+        {
+            AsyncWrite(weak_from_this(), m_data);
+        }
+    }
+
+    void WebSocketChannel::AsyncWrite(std::weak_ptr<Channel> channel, std::shared_ptr<StreamData> data)
+    {
+        auto& data_ = *data;
+        data_.stream.async_write(asio::buffer(data_.writeQueue.front()), [channel{ std::move(channel) }, data{ std::move(data) }](std::error_code ec, size_t/* bytes*/)
+        {
+            if (ec)
+            {
+                data->writeQueue.clear();
+                data->writeQueueSize = 0;
+            }
+            else
+            {
+                data->writeQueueSize -= data->writeQueue.front().size();
+                data->writeQueue.pop_front();
+            }
+
+            if (!data->writeQueue.empty())
+            {
+                AsyncWrite(channel, data);
+            }
+            else if (data->released)
+            {
+                data->stream.next_layer().close();
+            }
+            else if (auto this_ = std::static_pointer_cast<WebSocketChannel>(channel.lock()); ec && this_ != nullptr)
+            {
+                this_->processError(std::make_exception_ptr(std::system_error{ ec }));
+            }
+        });
     }
 }
-- 
2.43.0


From b2c1bfac440d495faa6fa282b76ed9c23d147665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 50/90] fix: keep listening after a temporary lack of resources

---
 lib/include/dots/io/Listener.h            |  3 +++
 lib/src/io/Listener.cpp                   | 24 +++++++++++++++++++++++
 lib/src/io/channels/TcpListener.cpp       |  5 +++++
 lib/src/io/channels/UdsListener.cpp       |  5 +++++
 lib/src/io/channels/WebSocketListener.cpp |  5 +++++
 5 files changed, 42 insertions(+)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 32fddc6..bb11c7e 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -3,6 +3,7 @@
 #pragma once
 #include <memory>
 #include <optional>
+#include <dots/asio.h>
 #include <dots/tools/Handler.h>
 #include <dots/io/Channel.h>
 
@@ -30,12 +31,14 @@ namespace dots::io
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
         void verifyErrorCode(std::error_code errorCode);
+        bool retryAccept(const boost::system::error_code& error, const asio::any_io_executor& executor);
 
     private:
 
         bool m_asyncAcceptActive = false;
         std::optional<accept_handler_t> m_acceptHandler;
         std::optional<error_handler_t> m_errorHandler;
+        std::shared_ptr<asio::steady_timer> m_retryTimer;
     };
 
     using listener_ptr_t = std::unique_ptr<Listener>;
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 62096ca..03bd2a2 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/Listener.h>
+#include <chrono>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -49,6 +51,28 @@ namespace dots::io
         processError(std::make_exception_ptr(std::runtime_error{ what }));
     }
 
+    bool Listener::retryAccept(const boost::system::error_code& error, const asio::any_io_executor& executor)
+    {
+        // note: a lack of resources is only temporary, because they become available again when other connections end
+        if (error != asio::error::no_descriptors && error != boost::system::errc::too_many_files_open_in_system && error != asio::error::no_buffer_space && error != asio::error::no_memory)
+        {
+            return false;
+        }
+
+        LOG_WARN_S("failed to accept connection -> " << error.message());
+
+        m_retryTimer = std::make_shared<asio::steady_timer>(executor, std::chrono::milliseconds{ 100 });
+        m_retryTimer->async_wait([this, timer = std::weak_ptr<asio::steady_timer>{ m_retryTimer }](const boost::system::error_code& error)
+        {
+            if (!error && !timer.expired())
+            {
+                asyncAcceptImpl();
+            }
+        });
+
+        return true;
+    }
+
     void Listener::verifyErrorCode(std::error_code errorCode)
     {
         if (errorCode)
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b4132a3..ee4eecc 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -56,6 +56,11 @@ namespace dots::io::details
 
             if (error)
             {
+                if (retryAccept(error, m_acceptor.get_executor()))
+                {
+                    return;
+                }
+
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on TCP endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
                 return;
             }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index f05cf6f..74445d8 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -60,6 +60,11 @@ namespace dots::io::posix::details
 
             if (error)
             {
+                if (retryAccept(error, m_acceptor.get_executor()))
+                {
+                    return;
+                }
+
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on UDS endpoint at path '" + m_endpoint.path() + "' -> " + error.message() }));
                 return;
             }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 6a61e43..a8c99c4 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -63,6 +63,11 @@ namespace dots::io
 
             if (error)
             {
+                if (retryAccept(error, m_acceptor.get_executor()))
+                {
+                    return;
+                }
+
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
                 return;
             }
-- 
2.43.0


From 098ffe6328b897b905fee3d32c1b7724d7555830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 51/90] fix: do not connect when resolving the endpoint failed

---
 lib/src/io/channels/TcpChannel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 2079e98..9d52044 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -44,6 +44,7 @@ namespace dots::io::details
             if (error)
             {
                 onConnect(error);
+                return;
             }
 
             stream().async_connect(*endpoint, [this, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
-- 
2.43.0


From 3b40335b2209a211c31e9b190a274ac718c8c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 52/90] fix: transmit the key properties of received objects in
 any case

---
 lib/src/Connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index d21bd00..b0d700f 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -263,6 +263,7 @@ namespace dots
                 instance._assertHasProperties(instance._keyProperties());
                 DotsHeader& header = transmission.header();
                 header._assertHasProperties(DotsHeader::attributes_p);
+                *header.attributes += instance._keyProperties();
 
                 if (m_selfId == HostId)
                 {
-- 
2.43.0


From 5f9f7a3b8643e8b628e1e1c92d1a0a88dc28c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 53/90] fix: move nested static structs of run-time defined
 structs

---
 lib/src/type/StructDescriptor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/StructDescriptor.cpp b/lib/src/type/StructDescriptor.cpp
index 4db3bfe..1085e6e 100644
--- a/lib/src/type/StructDescriptor.cpp
+++ b/lib/src/type/StructDescriptor.cpp
@@ -68,7 +68,7 @@ namespace dots::type
 
     Typeless& StructDescriptor::construct(Typeless& value, Typeless&& other) const
     {
-        return Typeless::From(construct(value.to<Struct>(), other.to<Struct>()));
+        return Typeless::From(construct(value.to<Struct>(), std::move(other).to<Struct>()));
     }
 
     Struct& StructDescriptor::construct(Struct& instance, Struct&& other) const
-- 
2.43.0


From 405a38074d5cbbe5ec633f7c84312dde6c3ca9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 54/90] fix: size rebuilt vectors of static structs correctly

---
 lib/src/io/DescriptorConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 546a427..b8b03c9 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -105,7 +105,7 @@ namespace dots::io
                     if (auto* dynStructDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicStruct>>(); dynStructDescriptor == nullptr)
                     {
                         const auto& staticStructDescriptor = valueTypeDescriptor->to<type::StructDescriptor>();
-                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), staticStructDescriptor.size());
+                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), sizeof(type::DynamicStruct) + staticStructDescriptor.size() - staticStructDescriptor.areaOffset());
                         descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicStruct>>>(*dynStructDescriptor_, false);
                     }
                     else
-- 
2.43.0


From 7a412045e88a33ca9fb23900885b72eaafa2586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:27 +0000
Subject: [PATCH 55/90] fix: describe a type once per connection

---
 lib/src/io/Channel.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index 1835fb8..0e32b2b 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -203,7 +203,11 @@ namespace dots::io
             else if (const auto* enumDescriptor = descriptor.as<type::EnumDescriptor>(); enumDescriptor != nullptr)
             {
                 exportDependencies(enumDescriptor->underlyingDescriptor());
-                transmit(DescriptorConverter{ registry() }(*enumDescriptor));
+
+                if (m_sharedTypeNames.emplace(enumDescriptor->name()).second)
+                {
+                    transmit(DescriptorConverter{ registry() }(*enumDescriptor));
+                }
             }
             else if (const auto* structDescriptor = descriptor.as<type::StructDescriptor>(); structDescriptor != nullptr)
             {
@@ -214,7 +218,10 @@ namespace dots::io
                         exportDependencies(propertyDescriptor.valueDescriptor());
                     }
 
-                    transmit(DescriptorConverter{ registry() }(*structDescriptor));
+                    if (m_sharedTypeNames.emplace(structDescriptor->name()).second)
+                    {
+                        transmit(DescriptorConverter{ registry() }(*structDescriptor));
+                    }
                 }
             }
         }
-- 
2.43.0


From 97dedbe401085652ab6cead6a589c4af97d6328e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 56/90] fix: compile moving assignment of part of a generated
 struct

---
 lib/include/dots/type/StaticStruct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/type/StaticStruct.h b/lib/include/dots/type/StaticStruct.h
index db15854..8fab9e9 100644
--- a/lib/include/dots/type/StaticStruct.h
+++ b/lib/include/dots/type/StaticStruct.h
@@ -120,7 +120,7 @@ namespace dots::type
                     }
                     else
                     {
-                        propertyThis.destroy();
+                        propertyThis = dots::invalid;
                     }
                 };
                 (void)assign;
-- 
2.43.0


From f465194f39be538160edec5a8795ecfe42943298 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 57/90] fix: destroy the object an AnyStruct holds when another
 is moved into it

---
 lib/include/dots/type/AnyStruct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/AnyStruct.h b/lib/include/dots/type/AnyStruct.h
index cd5ce80..0bb19f8 100644
--- a/lib/include/dots/type/AnyStruct.h
+++ b/lib/include/dots/type/AnyStruct.h
@@ -37,7 +37,12 @@ namespace dots::type
             return *this = rhs.get();
         }
 
-        AnyStruct& operator = (AnyStruct&& rhs) = default;
+        AnyStruct& operator = (AnyStruct&& rhs)
+        {
+            AnyStruct moved{ std::move(rhs) };
+            _instance.swap(moved._instance);
+            return *this;
+        }
 
         AnyStruct& operator = (const Struct& rhs)
         {
-- 
2.43.0


From 55e416a5496debbba83171720c2a87a403330b8b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 58/90] fix: order values of property sets totally

---
 lib/include/dots/type/PropertySet.h | 15 +++++++++++++++
 lib/include/dots/type/Vector.h      | 14 ++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/lib/include/dots/type/PropertySet.h b/lib/include/dots/type/PropertySet.h
index 0fc1231..54a5a43 100644
--- a/lib/include/dots/type/PropertySet.h
+++ b/lib/include/dots/type/PropertySet.h
@@ -3,6 +3,7 @@
 #pragma once
 #include <cstdint>
 #include <bitset>
+#include <functional>
 #include <limits>
 
 namespace dots::type
@@ -237,3 +238,17 @@ namespace dots::type
         value_t m_value;
     };
 }
+
+namespace std
+{
+    // note: the operators of property sets compare for inclusion, which orders
+    // only some of them. Ordering values, such as keys, requires a total order
+    template <>
+    struct less<dots::type::PropertySet>
+    {
+        constexpr bool operator () (const dots::type::PropertySet& lhs, const dots::type::PropertySet& rhs) const
+        {
+            return lhs.toValue() < rhs.toValue();
+        }
+    };
+}
diff --git a/lib/include/dots/type/Vector.h b/lib/include/dots/type/Vector.h
index f440ea5..7fca2c6 100644
--- a/lib/include/dots/type/Vector.h
+++ b/lib/include/dots/type/Vector.h
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <algorithm>
+#include <functional>
 #include <vector>
 #include <dots/type/Typeless.h>
 
@@ -125,3 +127,15 @@ namespace dots::type
         }
     };
 }
+
+namespace std
+{
+    template <typename T>
+    struct less<dots::type::Vector<T>>
+    {
+        bool operator () (const dots::type::Vector<T>& lhs, const dots::type::Vector<T>& rhs) const
+        {
+            return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), std::less<typename dots::type::Vector<T>::vector_t::value_type>{});
+        }
+    };
+}
-- 
2.43.0


From 6a1fd26296c38b177c612bc59a7605f3fbb7d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 59/90] fix: exchange everything iterators over properties
 consist of

---
 lib/include/dots/type/PropertyIterator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/dots/type/PropertyIterator.h b/lib/include/dots/type/PropertyIterator.h
index d257ea3..df890a0 100644
--- a/lib/include/dots/type/PropertyIterator.h
+++ b/lib/include/dots/type/PropertyIterator.h
@@ -44,13 +44,19 @@ namespace dots::type
         void swap(PropertyIterator& other) noexcept
         {
             std::swap(m_area, other.m_area);
+            std::swap(m_descriptors, other.m_descriptors);
             std::swap(m_descriptorIt, other.m_descriptorIt);
+            std::swap(m_properties, other.m_properties);
+            std::swap(m_proxy, other.m_proxy);
         }
         void swap(PropertyIterator&& other)
         {
             m_area = other.m_area;
             other.m_area = nullptr;
+            m_descriptors = other.m_descriptors;
             m_descriptorIt = std::move(other.m_descriptorIt);
+            m_properties = other.m_properties;
+            m_proxy = std::move(other.m_proxy);
         }
 
         auto operator ++ () -> PropertyIterator&
-- 
2.43.0


From f94658ab8e943c8fd20be3280371e2449aa6f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 60/90] fix: report which types a descriptor map contains

---
 lib/src/type/DescriptorMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index f8076f0..c50c890 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -71,7 +71,7 @@ namespace dots::type
 
     bool DescriptorMap::contains(std::string_view name) const
     {
-        return find(name) == nullptr;
+        return find(name) != nullptr;
     }
 
     std::pair<Descriptor<>*, bool> DescriptorMap::tryEmplace(Descriptor<>& descriptor)
-- 
2.43.0


From 6df14ef9cc9267caa6af312d128f2a4f651e6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 61/90] fix: do not find removed containers by name

---
 lib/src/ContainerPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..802b8e3 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -127,6 +127,11 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
+        {
+            m_nameCache.erase(it);
+        }
+
         return node;
     }
 
-- 
2.43.0


From 2c531641fce9773be5b63759d8215cd186fe9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 62/90] fix: forget the authority of a URI when one without is
 assigned

---
 lib/src/tools/Uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 38c34c1..3d57239 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -277,11 +277,13 @@ namespace dots::tools
     {
         try
         {
+            m_authority = {};
             m_userName = {};
             m_userPassword = {};
             m_hostDelimited = {};
             m_host = {};
             m_port = {};
+            m_path = {};
 
             std::string_view remainder = m_uriStr;
             std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, "://", false);
-- 
2.43.0


From d187be2092f4c0378022bd8999f6676310b0d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 63/90] fix: end the scheme of a URI at its first colon

---
 lib/src/tools/Uri.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 3d57239..e786ad4 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -286,14 +286,15 @@ namespace dots::tools
             m_path = {};
 
             std::string_view remainder = m_uriStr;
-            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, "://", false);
+            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, ":", false);
 
-            if (m_scheme.empty())
+            if (m_scheme.empty() || !starts_with(remainder, "//"))
             {
-                std::tie(m_scheme, m_path) = split_right_at_first_of(remainder, ":", false);
+                m_path = remainder;
             }
             else
             {
+                remainder.remove_prefix(2);
                 std::tie(m_authority, m_path) = split_before_first_of(remainder, "/", false);
 
                 if (!m_authority.empty())
-- 
2.43.0


From cea9f3b15f3fdc2e6581b53ccd7b8ba493c92e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 64/90] fix: set the authority of a URI that has none without
 repeating the path

---
 lib/src/tools/Uri.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index e786ad4..28564bd 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -87,12 +87,17 @@ namespace dots::tools
     {
         if (m_authority.empty())
         {
-            std::string schemeAndAuthority;
-            schemeAndAuthority += m_scheme;
-            schemeAndAuthority += "://";
-            schemeAndAuthority += authority;
-            schemeAndAuthority += m_path;
-            replace(m_scheme, schemeAndAuthority);
+            if (!m_path.empty() && m_path.front() != '/')
+            {
+                throw std::runtime_error{ "cannot set authority on URI whose path does not begin with '/': " + m_uriStr };
+            }
+
+            std::string uriStr;
+            uriStr += m_scheme;
+            uriStr += "://";
+            uriStr += authority;
+            uriStr += m_path;
+            replace(m_uriStr, uriStr);
         }
         else
         {
-- 
2.43.0


From f990043d133f0d17d712357d844b084bbe4eebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 65/90] fix: set user, password and port of URIs with IPv6
 hosts or empty parts

---
 lib/src/tools/Uri.cpp | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 28564bd..7185b85 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -119,11 +119,14 @@ namespace dots::tools
                 throw std::runtime_error{ "cannot set user name on URI without a host" };
             }
 
-            std::string userAtHost;
-            userAtHost += userName;
-            userAtHost += '@';
-            userAtHost += m_host;
-            replace(m_host, userAtHost);
+            std::string user{ userName };
+
+            if (m_authority.find('@') == std::string_view::npos)
+            {
+                user += '@';
+            }
+
+            replace(m_authority.substr(0, 0), user);
         }
         else
         {
@@ -147,9 +150,14 @@ namespace dots::tools
 
             std::string userNameAndPassword;
             userNameAndPassword += m_userName;
-            userNameAndPassword += ':';
-            userNameAndPassword += userPassword;
-            replace(m_userName, userNameAndPassword);
+
+            if (!userPassword.empty())
+            {
+                userNameAndPassword += ':';
+                userNameAndPassword += userPassword;
+            }
+
+            replace(m_authority.substr(0, m_authority.find('@')), userNameAndPassword);
         }
         else
         {
@@ -208,10 +216,15 @@ namespace dots::tools
             }
 
             std::string hostAndPort;
-            hostAndPort += m_host;
-            hostAndPort += ':';
-            hostAndPort += port;
-            replace(m_host, hostAndPort);
+            hostAndPort += m_hostDelimited;
+
+            if (!port.empty())
+            {
+                hostAndPort += ':';
+                hostAndPort += port;
+            }
+
+            replace(m_authority.substr(static_cast<size_t>(m_hostDelimited.data() - m_authority.data())), hostAndPort);
         }
         else
         {
-- 
2.43.0


From bd80bfdd0f4be2ecb47899d8ce8790e0a3775900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 66/90] fix: ignore host bits when comparing IP networks

---
 lib/src/tools/IpNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/tools/IpNetwork.cpp b/lib/src/tools/IpNetwork.cpp
index 23c6f3b..f57c58e 100644
--- a/lib/src/tools/IpNetwork.cpp
+++ b/lib/src/tools/IpNetwork.cpp
@@ -109,7 +109,7 @@ namespace dots::tools
         }
         else
         {
-            return isStrictSubnetOf(network) || m_network == network.m_network;
+            return isStrictSubnetOf(network) || std::visit([](const auto& network){ return network_t{ network.canonical() }; }, m_network) == std::visit([](const auto& network){ return network_t{ network.canonical() }; }, network.m_network);
         }
     }
 
-- 
2.43.0


From 4c5529aacadf3a9635355e8c235a4d0effbf7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 67/90] fix: let IPv6 networks contain the addresses of all
 interfaces

---
 lib/src/tools/IpNetwork.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/src/tools/IpNetwork.cpp b/lib/src/tools/IpNetwork.cpp
index f57c58e..be589d6 100644
--- a/lib/src/tools/IpNetwork.cpp
+++ b/lib/src/tools/IpNetwork.cpp
@@ -4,6 +4,19 @@
 
 namespace dots::tools
 {
+    // note: the interface that an address is bound to only matters for networks that are bound to an interface as well
+    static IpNetwork::network_v6_t scope_to(const IpNetwork::network_v6_t& network, const IpNetwork::network_v6_t& other)
+    {
+        asio::ip::address_v6 address = network.address();
+
+        if (other.address().scope_id() == 0)
+        {
+            address.scope_id(0);
+        }
+
+        return { address, network.prefix_length() };
+    }
+
     IpNetwork::IpNetwork(network_t network) :
         m_network{ std::move(network) }
     {
@@ -97,7 +110,8 @@ namespace dots::tools
         }
         else/* if (isIpv6())*/
         {
-            return std::get<network_v6_t>(m_network).is_subnet_of(std::get<network_v6_t>(network.m_network));
+            const auto& network_ = std::get<network_v6_t>(network.m_network);
+            return scope_to(std::get<network_v6_t>(m_network), network_).is_subnet_of(network_);
         }
     }
 
@@ -107,9 +121,18 @@ namespace dots::tools
         {
             return false;
         }
-        else
+        else if (isStrictSubnetOf(network))
+        {
+            return true;
+        }
+        else if (isIpv4())
+        {
+            return std::get<network_v4_t>(m_network).canonical() == std::get<network_v4_t>(network.m_network).canonical();
+        }
+        else/* if (isIpv6())*/
         {
-            return isStrictSubnetOf(network) || std::visit([](const auto& network){ return network_t{ network.canonical() }; }, m_network) == std::visit([](const auto& network){ return network_t{ network.canonical() }; }, network.m_network);
+            const auto& network_ = std::get<network_v6_t>(network.m_network);
+            return scope_to(std::get<network_v6_t>(m_network), network_).canonical() == network_.canonical();
         }
     }
 
-- 
2.43.0


From 54052daa17e8d92703b3efcb521835695e558649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 68/90] fix: reject IP prefix lengths beyond the range of an
 integer

---
 lib/src/tools/IpNetwork.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/tools/IpNetwork.cpp b/lib/src/tools/IpNetwork.cpp
index be589d6..11a930a 100644
--- a/lib/src/tools/IpNetwork.cpp
+++ b/lib/src/tools/IpNetwork.cpp
@@ -55,6 +55,10 @@ namespace dots::tools
                     return asio::ip::make_network_v6(address.to_v6(), DefaultV6PrefixLength);
                 }
             }
+            else if (network.size() - pos - 1 > 3) // note: the prefix length would otherwise get truncated if it exceeds the range of an integer
+            {
+                throw std::runtime_error("could not create network from invalid input string: '" + network + "'");
+            }
             else if (auto networkV4 = asio::ip::make_network_v4(network, ec); !ec.failed())
             {
                 return networkV4;
-- 
2.43.0


From 8ee2cd77547799a592b0e32664c02ae6f69792ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 69/90] fix: let subscriptions follow transceivers that are
 moved

The handlers that end a subscription captured the transceiver it was
made with, so that ending it after that transceiver had been moved
accessed the moved-from, or even destroyed, object.
---
 lib/include/dots/Transceiver.h |  9 +++++----
 lib/src/Transceiver.cpp        | 25 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 2151e9e..51b4e6b 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -58,7 +58,7 @@ namespace dots
         );
         Transceiver(const Transceiver& other) = delete;
         Transceiver(Transceiver&& other) noexcept;
-        virtual ~Transceiver() = default;
+        virtual ~Transceiver();
 
         Transceiver& operator = (const Transceiver& rhs) = delete;
         Transceiver& operator = (Transceiver&& rhs) noexcept;
@@ -236,7 +236,7 @@ namespace dots
                 joinGroup(T::_Descriptor().name());
                 Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
 
-                return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id](Transceiver& this_){ this_.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
             else
             {
@@ -587,9 +587,10 @@ namespace dots
     {
         return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (this_.lock())
+            // note that the transceiver might have been moved or be in the process of being destroyed
+            if (auto this__ = this_.lock(); this__ != nullptr && *this__ != nullptr)
             {
-                unsubscribeHandler();
+                unsubscribeHandler(**this__);
             }
         } };
     }
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 10f2ca6..e5ed569 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -37,8 +37,21 @@ namespace dots
         *m_this = this;
     }
 
+    Transceiver::~Transceiver()
+    {
+        if (m_this != nullptr)
+        {
+            *m_this = nullptr;
+        }
+    }
+
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
+        if (m_this != nullptr)
+        {
+            *m_this = nullptr;
+        }
+
         m_nextId = rhs.m_nextId;
         m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
         m_removeIds = std::move(rhs.m_removeIds);
@@ -122,7 +135,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& this_){ this_.m_dispatcher.removeTransmissionHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -135,7 +148,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& this_){ this_.m_dispatcher.removeEventHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
@@ -153,15 +166,15 @@ namespace dots
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
         m_registry.forEach(handler_);
 
-        return makeSubscription([&, id(id)]
+        return makeSubscription([id(id)](Transceiver& this_)
         {
-            if (id == m_currentlyDispatchingId)
+            if (id == this_.m_currentlyDispatchingId)
             {
-                m_removeIds.emplace_back(id);
+                this_.m_removeIds.emplace_back(id);
             }
             else
             {
-                m_newTypeHandlers.extract(id);
+                this_.m_newTypeHandlers.extract(id);
             }
         });
     }
-- 
2.43.0


From d86091e5d2564bd4fcdb231344ad46c9fe113218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 70/90] fix: keep handlers of new types that end while they are
 executed

A handler that registered another type was not regarded as being
executed any more afterwards, so that ending its own subscription
destroyed it while it was running. Subscriptions that had ended also
were still called for the type being handled.
---
 lib/include/dots/Transceiver.h |  2 +-
 lib/src/Transceiver.cpp        | 28 ++++++++++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 51b4e6b..ad8d6de 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -571,7 +571,7 @@ namespace dots
         void handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept;
 
         id_t m_nextId;
-        std::optional<id_t> m_currentlyDispatchingId;
+        size_t m_dispatchDepth;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         type::Registry m_registry;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index e5ed569..063468e 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Transceiver.h>
+#include <algorithm>
+#include <utility>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -12,6 +14,7 @@ namespace dots
                              type::Registry::StaticTypePolicy staticTypePolicy/* = StaticTypePolicy::All*/,
                              std::optional<transition_handler_t> transitionHandler/* = std::nullopt*/) :
         m_nextId(0),
+        m_dispatchDepth(0),
         m_this(std::make_shared<Transceiver*>(this)),
         m_registry{ [this_{ m_this }](const type::Descriptor<>& descriptor){ (*this_)->handleNewType(descriptor); }, staticTypePolicy },
         m_dispatcher{ [this_{ m_this }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr){ (*this_)->handleDispatchError(descriptor, ePtr); } },
@@ -24,7 +27,7 @@ namespace dots
 
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
-        m_currentlyDispatchingId{ other.m_currentlyDispatchingId },
+        m_dispatchDepth(other.m_dispatchDepth),
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -53,7 +56,7 @@ namespace dots
         }
 
         m_nextId = rhs.m_nextId;
-        m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
+        m_dispatchDepth = rhs.m_dispatchDepth;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_registry = std::move(rhs.m_registry);
@@ -168,7 +171,8 @@ namespace dots
 
         return makeSubscription([id(id)](Transceiver& this_)
         {
-            if (id == this_.m_currentlyDispatchingId)
+            // handlers must not be destroyed while they might be executed
+            if (this_.m_dispatchDepth > 0)
             {
                 this_.m_removeIds.emplace_back(id);
             }
@@ -186,27 +190,35 @@ namespace dots
 
     void Transceiver::handleNewType(const type::Descriptor<>& descriptor) noexcept
     {
+        // note that handlers might register further types
+        ++m_dispatchDepth;
+
         for (const auto& [id, handler] : m_newTypeHandlers)
         {
+            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(descriptor);
             }
             catch (const std::exception& e)
             {
                 LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
             }
+        }
 
-            m_currentlyDispatchingId = std::nullopt;
+        if (--m_dispatchDepth > 0)
+        {
+            return;
         }
 
-        for (id_t id : m_removeIds)
+        for (id_t id : std::exchange(m_removeIds, {}))
         {
             m_newTypeHandlers.extract(id);
         }
-
-        m_removeIds.clear();
     }
 
     void Transceiver::handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept
-- 
2.43.0


From 1783602373a434abb118c8c9b364db6764f4d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 71/90] fix: end failed subscriptions to new types

A handler that threw when called for the types already known remained
registered without a subscription that could end it, and a handler that
registered a type at that point could be informed about it twice.
---
 lib/src/Transceiver.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 063468e..72986be 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -166,10 +166,12 @@ namespace dots
 
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
-        const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry.forEach(handler_);
+        // note that the handler might register further types, which it will already be informed about by then
+        std::vector<std::shared_ptr<const type::Descriptor<>>> descriptors;
+        m_registry.forEach([&](const type::Descriptor<>& descriptor){ descriptors.emplace_back(descriptor.shared_from_this()); });
 
-        return makeSubscription([id(id)](Transceiver& this_)
+        const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
+        Subscription subscription = makeSubscription([id(id)](Transceiver& this_)
         {
             // handlers must not be destroyed while they might be executed
             if (this_.m_dispatchDepth > 0)
@@ -181,6 +183,13 @@ namespace dots
                 this_.m_newTypeHandlers.extract(id);
             }
         });
+
+        for (const auto& descriptor : descriptors)
+        {
+            handler_(*descriptor);
+        }
+
+        return subscription;
     }
 
     void Transceiver::remove(const type::Struct& instance)
-- 
2.43.0


From 48971cde54923b18aa4882af5d84a229ebfd5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 72/90] fix: compile the set of properties of generated types
 with clang

---
 lib/include/dots/type/StaticStruct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/dots/type/StaticStruct.h b/lib/include/dots/type/StaticStruct.h
index 8fab9e9..8791911 100644
--- a/lib/include/dots/type/StaticStruct.h
+++ b/lib/include/dots/type/StaticStruct.h
@@ -355,7 +355,11 @@ namespace dots::type
 
         static constexpr PropertySet _Properties()
         {
+            #ifdef __clang__
+            PropertySet Properties = std::apply([](auto&&... args)
+            #else
             constexpr PropertySet Properties = std::apply([](auto&&... args)
+            #endif
             {
                 if constexpr (sizeof...(args) == 0)
                 {
-- 
2.43.0


From 2954c404a44f508be3b7f1b78b54583ff5e3322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 73/90] fix: compile generated structs with a property named P

---
 dots-cg-cpp/src/struct.dots.h.dotsT | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dots-cg-cpp/src/struct.dots.h.dotsT b/dots-cg-cpp/src/struct.dots.h.dotsT
index e67f760..a44e326 100644
--- a/dots-cg-cpp/src/struct.dots.h.dotsT
+++ b/dots-cg-cpp/src/struct.dots.h.dotsT
@@ -129,7 +129,7 @@ namespace dots::types
             {% for property in attributes %}
             {% if not loop.first %}else {% endif %}if constexpr (std::is_same_v<P, {{property.name}}_pt>)
             {
-                return {{property.name}};
+                return this->{{property.name}};
             }
             {% endfor %}
             else
-- 
2.43.0


From e7bbe6f691e7ec8d5cda6d224e22550779af1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 74/90] fix: compile generated structs with properties named
 like types of their vectors

---
 dots-cg-cpp/src/config_cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dots-cg-cpp/src/config_cpp.py b/dots-cg-cpp/src/config_cpp.py
index 8f87a3c..43ae46c 100644
--- a/dots-cg-cpp/src/config_cpp.py
+++ b/dots-cg-cpp/src/config_cpp.py
@@ -1,6 +1,6 @@
 struct_templates = ["struct.dots.h.dotsT"]
 enum_templates   = ["enum.dots.h.dotsT"]
-vector_format    = "vector_t<{}>"
+vector_format    = "vector_t<types::{}>"
 
 type_mapping     = {
     "bool": "bool_t",
-- 
2.43.0


From 7700a8c32b76def2cdbfe872740f9f693b1db4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 75/90] fix: keep comments ending in a backslash from
 continuing on the next line

---
 dots-cg-cpp/src/config_cpp.py       | 10 ++++++++++
 dots-cg-cpp/src/enum.dots.h.dotsT   |  2 +-
 dots-cg-cpp/src/struct.dots.h.dotsT |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dots-cg-cpp/src/config_cpp.py b/dots-cg-cpp/src/config_cpp.py
index 43ae46c..29efdc2 100644
--- a/dots-cg-cpp/src/config_cpp.py
+++ b/dots-cg-cpp/src/config_cpp.py
@@ -23,3 +23,13 @@ type_mapping     = {
     "uuid": "uuid_t",
 }
 
+
+def line_comment(text):
+    # a backslash at the end would continue the comment on the next line
+    text = str(text)
+    return text + "." if text.endswith("\\") else text
+
+
+filters          = {
+    "line_comment": line_comment,
+}
diff --git a/dots-cg-cpp/src/enum.dots.h.dotsT b/dots-cg-cpp/src/enum.dots.h.dotsT
index b547ab5..f3056ec 100644
--- a/dots-cg-cpp/src/enum.dots.h.dotsT
+++ b/dots-cg-cpp/src/enum.dots.h.dotsT
@@ -19,7 +19,7 @@ namespace dots::types
     enum class {{name}} : int32_t
     {
     {% for elem in items %}
-        {{elem.name}} = {{elem.value}}{% if not loop.last %},{% endif %} ///< {{elem.comment}}
+        {{elem.name}} = {{elem.value}}{% if not loop.last %},{% endif %} ///< {{elem.comment | line_comment}}
     {% endfor %}
     };
 }
diff --git a/dots-cg-cpp/src/struct.dots.h.dotsT b/dots-cg-cpp/src/struct.dots.h.dotsT
index a44e326..94910bc 100644
--- a/dots-cg-cpp/src/struct.dots.h.dotsT
+++ b/dots-cg-cpp/src/struct.dots.h.dotsT
@@ -149,9 +149,9 @@ namespace dots::types
         #if (!defined DOTS_ACKNOWLEDGE_DEPRECATION_OF_{{name}}_{{property.name}})
         [[deprecated]]
         #endif
-        {{property.name}}_pt {{property.name}}; // [DEPRECATED] {{property.tag}}: {% if property.key %}[key] {% endif %}{{property.type}} {{property.name}} // [DEPRECATED] {{property.comment}}
+        {{property.name}}_pt {{property.name}}; // [DEPRECATED] {{property.tag}}: {% if property.key %}[key] {% endif %}{{property.type}} {{property.name}} // [DEPRECATED] {{property.comment | line_comment}}
         {% else %}
-        {{property.name}}_pt {{property.name}}; // {{property.tag}}: {% if property.key %}[key] {% endif %}{{property.type}} {{property.name}} // {{property.comment}}
+        {{property.name}}_pt {{property.name}}; // {{property.tag}}: {% if property.key %}[key] {% endif %}{{property.type}} {{property.name}} // {{property.comment | line_comment}}
         {% endif %}
 {% endfor %}
     };
-- 
2.43.0


From f05404909c3bb8cbbf9d8abce137b37c9f6ed1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 76/90] fix: authenticate applications with a separately given
 secret

---
 lib/include/dots/Application.h      |  1 +
 lib/include/dots/GuestTransceiver.h | 27 +++++++++++++++++++++++++++
 lib/src/Application.cpp             |  8 ++++----
 lib/src/GuestTransceiver.cpp        |  7 +++++--
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index e75a624..cd02c35 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -260,6 +260,7 @@ namespace dots
         void parseHostTransceiverArgs(int argc, char* argv[]);
 
         std::optional<io::Endpoint> m_openEndpoint;
+        std::optional<std::string> m_authSecret;
         std::vector<io::Endpoint> m_listenEndpoints;
         std::unique_ptr<signal_set_storage> m_signals;
         int m_exitCode;
diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 8324d57..74343b4 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -205,6 +205,33 @@ namespace dots
          */
         const Connection& open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, io::Endpoint endpoint);
 
+        /*!
+         * @brief Asynchronously open and establish a host connection via a
+         * specific endpoint.
+         *
+         * @param preloadPublishTypes The publish types to preload.
+         *
+         * @param preloadSubscribeTypes The subscribe types to preload.
+         *
+         * @param authSecret The secret to use for authentication if requested
+         * by the host. This takes precedence over a secret that is part of
+         * @p endpoint .
+         *
+         * @param endpoint The endpoint to use to create a channel and
+         * asynchronously open and establish a host connection. The channel
+         * type will be determined by the endpoint's scheme.
+         *
+         * @return const Connection& A reference to the host connection after
+         * asynchronous receiving has started.
+         *
+         * @exception std::logic_error Thrown if another host connection has
+         * already been opened.
+         *
+         * @exception std::runtime_error Thrown if the endpoint has an
+         * unsupported URI scheme.
+         */
+        const Connection& open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, std::optional<std::string> authSecret, io::Endpoint endpoint);
+
         /*!
          * @brief Asynchronously open and establish a host connection via a
          * specific endpoint.
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a477bef..25da701 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -32,12 +32,12 @@ namespace dots
                 type::Registry::StaticTypePolicy::All,
                 transition_handler_t{ &Application::handleGuestTransceiverTransition, this }
             ));
-            transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
+            transceiver->open(io::global_publish_types(), io::global_subscribe_types(), m_authSecret, *m_openEndpoint);
         }
         else
         {
             transceiver = &*m_guestTransceiverStorage;
-            transceiver->open(*m_openEndpoint);
+            transceiver->open({}, {}, m_authSecret, *m_openEndpoint);
         }
 
         m_transceiver = transceiver;
@@ -195,11 +195,11 @@ namespace dots
 
         if (auto it = args.find("dots-auth-secret"); it != args.end())
         {
-            m_openEndpoint->setUserPassword(it->second.as<std::string>());
+            m_authSecret = it->second.as<std::string>();
         }
         else if (const char* dotsAuthSecret = ::getenv("DOTS_AUTH_SECRET"); dotsAuthSecret != nullptr)
         {
-            m_openEndpoint->setUserPassword(dotsAuthSecret);
+            m_authSecret = dotsAuthSecret;
         }
 
         if (auto it = args.find("dots-log-level"); it != args.end())
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index f33b7fe..91492fc 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -184,9 +184,12 @@ namespace dots
 {
     const Connection& GuestTransceiver::open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, io::Endpoint endpoint)
     {
-        std::optional<std::string> authSecret;
+        return open(std::move(preloadPublishTypes), std::move(preloadSubscribeTypes), std::nullopt, std::move(endpoint));
+    }
 
-        if (!endpoint.userPassword().empty())
+    const Connection& GuestTransceiver::open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, std::optional<std::string> authSecret, io::Endpoint endpoint)
+    {
+        if (authSecret == std::nullopt && !endpoint.userPassword().empty())
         {
             authSecret = endpoint.userPassword();
         }
-- 
2.43.0


From eeb436f107c0b52b07c0643c16fa72dc1fc0fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 77/90] fix: run applications on a given guest transceiver

---
 lib/src/Application.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 25da701..d57ae81 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,7 +23,7 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
-        if (m_guestTransceiverStorage == std::nullopt || &*m_guestTransceiverStorage == &global_transceiver())
+        if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
             transceiver = &global_transceiver_create(GuestTransceiver(
-- 
2.43.0


From 17d9d662be7e29aea0116a0403f6092fcfb867b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 78/90] fix: report access to a missing host connection as
 documented

---
 lib/src/GuestTransceiver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 91492fc..6e30682 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -32,6 +32,11 @@ namespace dots
 
     const Connection& GuestTransceiver::connection() const
     {
+        if (m_hostConnection == nullptr)
+        {
+            throw std::runtime_error{ "attempt to access closed connection" };
+        }
+
         return *m_hostConnection;
     }
 
-- 
2.43.0


From db53c6d0a796d3568b76ad765e5e0f0b12afa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 79/90] fix: do not exit a destroyed application

---
 lib/src/Application.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index d57ae81..effa730 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -45,7 +45,14 @@ namespace dots
         if (handleExitSignals)
         {
             m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals->signalSet.async_wait([this](boost::system::error_code error, int/* signalNumber*/)
+            {
+                // note: the application might already have been destroyed if waiting was aborted
+                if (!error)
+                {
+                    exit();
+                }
+            });
         }
 
         for (;;)
@@ -86,7 +93,14 @@ namespace dots
         if (handleExitSignals)
         {
             m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals->signalSet.async_wait([this](boost::system::error_code error, int/* signalNumber*/)
+            {
+                // note: the application might already have been destroyed if waiting was aborted
+                if (!error)
+                {
+                    exit();
+                }
+            });
         }
     }
 
-- 
2.43.0


From 3879123a7f3a31e79afa599c4dc6e141a208f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 80/90] fix: end application construction when no connection
 can be established

---
 lib/src/Application.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index effa730..a1d96d9 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -66,9 +66,9 @@ namespace dots
             {
                 break;
             }
-            else
+            else if (transceiver->connection().closed() || ioContext().run_one() == 0)
             {
-                ioContext().run_one();
+                throw std::runtime_error{ "connection was closed before it could be established" };
             }
         }
 
-- 
2.43.0


From 93213456eb4080dbb9574b0ccb39787a5147c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 81/90] fix: destroy the global transceiver when application
 construction fails

---
 lib/src/Application.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a1d96d9..a4b34b2 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,6 +23,10 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
+        // note: the destructor will not be called if construction fails
+        auto destroyGlobalTransceiver = [](void*){ global_transceiver_destroy(); };
+        std::unique_ptr<void, decltype(destroyGlobalTransceiver)> failureGuard{ nullptr, destroyGlobalTransceiver };
+
         if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
@@ -32,6 +36,7 @@ namespace dots
                 type::Registry::StaticTypePolicy::All,
                 transition_handler_t{ &Application::handleGuestTransceiverTransition, this }
             ));
+            failureGuard.reset(transceiver);
             transceiver->open(io::global_publish_types(), io::global_subscribe_types(), m_authSecret, *m_openEndpoint);
         }
         else
@@ -73,6 +78,7 @@ namespace dots
         }
 
         transceiver->publish(DotsClient{ .id = transceiver->connection().selfId(), .running = true });
+        failureGuard.release();
     }
 
     Application::Application(const std::string& name, std::optional<GuestTransceiver> guestTransceiver/* = std::nullopt*/, bool handleExitSignals/* = true*/) :
-- 
2.43.0


From 2795675ed1ffccbb1b0ddc8e97a6c9ae61472971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 82/90] fix: run applications on event loops that have been
 used before

---
 lib/src/Application.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a4b34b2..9493888 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -46,6 +46,7 @@ namespace dots
         }
 
         m_transceiver = transceiver;
+        ioContext().restart();
 
         if (handleExitSignals)
         {
@@ -94,6 +95,7 @@ namespace dots
     {
         parseHostTransceiverArgs(argc, argv);
         m_transceiver = &*m_hostTransceiverStorage;
+        ioContext().restart();
         m_hostTransceiverStorage->listen(m_listenEndpoints);
 
         if (handleExitSignals)
-- 
2.43.0


From 2dcdc681dc922f1e7ebd9b8f0e3165a102e2de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:15 +0000
Subject: [PATCH 83/90] fix: handle accepted connections after listeners were
 destroyed

---
 lib/include/dots/io/Listener.h                |  3 +++
 lib/include/dots/io/channels/TcpListener.h    |  1 -
 lib/include/dots/io/channels/UdsListener.h    |  1 -
 .../dots/io/channels/WebSocketListener.h      |  2 --
 lib/src/io/channels/TcpListener.cpp           | 20 +++++++++----------
 lib/src/io/channels/UdsListener.cpp           | 16 +++++++--------
 lib/src/io/channels/WebSocketListener.cpp     | 10 ++++------
 7 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index bb11c7e..c2de561 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -33,6 +33,9 @@ namespace dots::io
         void verifyErrorCode(std::error_code errorCode);
         bool retryAccept(const boost::system::error_code& error, const asio::any_io_executor& executor);
 
+        // note: accepts that have already been completed are still handled after the listener was destroyed
+        std::shared_ptr<bool> m_alive = std::make_shared<bool>(true);
+
     private:
 
         bool m_asyncAcceptActive = false;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 44449eb..681fa04 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -34,7 +34,6 @@ namespace dots::io::details
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
         payload_cache_t m_payloadCache;
     };
 
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index abe8f6c..de44cd6 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -33,7 +33,6 @@ namespace dots::io::posix::details
 
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
-        asio::local::stream_protocol::socket m_socket;
         payload_cache_t m_payloadCache;
     };
 
diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 74ed700..3d864f8 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -31,8 +31,6 @@ namespace dots::io
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
         bool m_acceptPending = false;
-        std::shared_ptr<bool> m_alive = std::make_shared<bool>(true);
     };
 }
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index ee4eecc..da5212d 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -17,7 +17,6 @@ namespace dots::io::details
         m_address{ std::move(address) },
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ 0, buffer_t{} }
     {
         try
@@ -47,9 +46,9 @@ namespace dots::io::details
     template <typename TChannel>
     void GenericTcpListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, alive = std::weak_ptr<bool>{ m_alive }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (alive.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -67,21 +66,20 @@ namespace dots::io::details
 
             try
             {
-                m_socket.non_blocking(true);
-                m_socket.set_option(asio::ip::tcp::no_delay(true));
-                m_socket.set_option(asio::ip::tcp::socket::keep_alive(true));
+                socket.non_blocking(true);
+                socket.set_option(asio::ip::tcp::no_delay(true));
+                socket.set_option(asio::ip::tcp::socket::keep_alive(true));
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(socket), &m_payloadCache));
             }
             catch (const std::exception& e)
             {
@@ -89,7 +87,7 @@ namespace dots::io::details
                 LOG_WARN_S("failed to accept TCP connection -> " << e.what());
 
                 boost::system::error_code ignored;
-                m_socket.close(ignored);
+                socket.close(ignored);
                 asyncAcceptImpl();
             }
         });
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 74445d8..3b2e80d 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -18,7 +18,6 @@ namespace dots::io::posix::details
     GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, std::string_view path, std::optional<int> backlog/* = std::nullopt*/) :
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ 0, UdsChannel::buffer_t{} }
     {
         try
@@ -51,9 +50,9 @@ namespace dots::io::posix::details
     template <typename TChannel>
     void GenericUdsListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, alive = std::weak_ptr<bool>{ m_alive }](const boost::system::error_code& error, asio::local::stream_protocol::socket socket)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (alive.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -71,19 +70,18 @@ namespace dots::io::posix::details
 
             try
             {
-                m_socket.non_blocking(true);
+                socket.non_blocking(true);
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
-                // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(socket), &m_payloadCache));
             }
             catch (const std::exception& e)
             {
@@ -91,7 +89,7 @@ namespace dots::io::posix::details
                 LOG_WARN_S("failed to accept UDS connection -> " << e.what());
 
                 boost::system::error_code ignored;
-                m_socket.close(ignored);
+                socket.close(ignored);
                 asyncAcceptImpl();
             }
         });
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index a8c99c4..656c8da 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -16,8 +16,7 @@ namespace dots::io
     WebSocketListener::WebSocketListener(asio::io_context& ioContext, std::string address, std::string port, std::optional<int> backlog/* = std::nullopt*/) :
         m_address{ std::move(address) },
         m_port{ std::move(port) },
-        m_acceptor{ ioContext },
-        m_socket{ ioContext }
+        m_acceptor{ ioContext }
     {
         try
         {
@@ -52,9 +51,9 @@ namespace dots::io
         }
 
         m_acceptPending = true;
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, alive = std::weak_ptr<bool>{ m_alive }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (alive.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -72,8 +71,7 @@ namespace dots::io
                 return;
             }
 
-            // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-            asyncHandshake(std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket)));
+            asyncHandshake(std::make_shared<WebSocketChannel::ws_stream_t>(std::move(socket)));
             asyncAcceptImpl();
         });
     }
-- 
2.43.0


From 110efa578795dc43e5c765477e19a7b14b51c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:37 +0000
Subject: [PATCH 84/90] fix: publish the status of the daemon

---
 bin/dotsd/src/DotsDaemon.cpp | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/bin/dotsd/src/DotsDaemon.cpp b/bin/dotsd/src/DotsDaemon.cpp
index 50a7c0c..b477826 100644
--- a/bin/dotsd/src/DotsDaemon.cpp
+++ b/bin/dotsd/src/DotsDaemon.cpp
@@ -94,31 +94,31 @@ namespace dots
         {
             DotsDaemonStatus ds{ m_daemonStatus };
 
+            #ifdef __unix__
+            struct rusage usage;
+            ::getrusage(RUSAGE_SELF, &usage);
+
+            ds.resourceUsage = DotsResourceUsage{
+                .minorFaults = static_cast<int32_t>(usage.ru_minflt),
+                .majorFaults = static_cast<int32_t>(usage.ru_majflt),
+                .inBlock = static_cast<int32_t>(usage.ru_inblock),
+                .outBlock = static_cast<int32_t>(usage.ru_oublock),
+                .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
+                .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
+                .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
+                .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
+                .maxRss = static_cast<int32_t>(usage.ru_maxrss),
+                .userCpuTime = type::posix::Timeval{ usage.ru_utime },
+                .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
+            };
+            #endif
+            ds.cache = DotsCacheStatus{
+                .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
+                .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
+            };
+
             if (m_daemonStatus._diffProperties(ds))
             {
-                #ifdef __unix__
-                struct rusage usage;
-                ::getrusage(RUSAGE_SELF, &usage);
-
-                ds.resourceUsage = DotsResourceUsage{
-                    .minorFaults = static_cast<int32_t>(usage.ru_minflt),
-                    .majorFaults = static_cast<int32_t>(usage.ru_majflt),
-                    .inBlock = static_cast<int32_t>(usage.ru_inblock),
-                    .outBlock = static_cast<int32_t>(usage.ru_oublock),
-                    .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
-                    .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
-                    .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
-                    .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
-                    .maxRss = static_cast<int32_t>(usage.ru_maxrss),
-                    .userCpuTime = type::posix::Timeval{ usage.ru_utime },
-                    .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
-                };
-                #endif
-                ds.cache = DotsCacheStatus{
-                    .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
-                    .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
-                };
-
                 transceiver().publish(ds);
                 m_daemonStatus = ds;
             }
-- 
2.43.0


From 76c1d647534d89a507776ffdb1661c0e52adfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 85/90] fix: tolerate handlers that remove objects while a host
 removes objects

---
 lib/src/HostTransceiver.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index dffce53..3c63baf 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -190,7 +190,7 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
+                std::vector<type::AnyStruct> cleanupInstances;
 
                 for (const auto& [descriptor, container] : pool())
                 {
@@ -200,15 +200,19 @@ namespace dots
                         {
                             if (connection.peerId() == cloneInfo.lastUpdateFrom)
                             {
-                                cleanupInstances.emplace_back(&*instance);
+                                cleanupInstances.emplace_back(instance->_descriptor())->_assign(instance, instance->_keyProperties());
                             }
                         }
                     }
                 }
 
-                for (const type::Struct* instance : cleanupInstances)
+                // note: local handlers might already have removed or updated some of the instances
+                for (const type::AnyStruct& instance : cleanupInstances)
                 {
-                    remove(*instance);
+                    if (const auto* clone = pool().get(instance->_descriptor()).findClone(instance); clone != nullptr && clone->second.lastUpdateFrom == connection.peerId())
+                    {
+                        remove(instance);
+                    }
                 }
 
                 m_guestConnections.erase(&connection);
@@ -298,22 +302,26 @@ namespace dots
         clearCache._assertHasProperties(DotsClearCache::typeNames_p);
         const vector_t<string_t>& typeNames = *clearCache.typeNames;
 
+        std::vector<type::AnyStruct> removeInstances;
+
         for (auto& [descriptor, container] : pool())
         {
             if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
             {
-                std::vector<const type::Struct*> removeInstances;
-
                 for (const auto& [instance, cloneInformation] : container)
                 {
                     (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
+                    removeInstances.emplace_back(instance->_descriptor())->_assign(instance, instance->_keyProperties());
                 }
+            }
+        }
 
-                for (const type::Struct* instance : removeInstances)
-                {
-                    remove(*instance);
-                }
+        // note: local handlers might already have removed some of the instances
+        for (const type::AnyStruct& instance : removeInstances)
+        {
+            if (pool().get(instance->_descriptor()).find(instance) != nullptr)
+            {
+                remove(instance);
             }
         }
     }
-- 
2.43.0


From 615db290c0d52fb511ec7a82ca5d8bd8994673f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 86/90] fix: allow serializers to be used again after errors

---
 .../dots/serialization/formats/TextReader.h   | 13 ++++++
 lib/include/dots/type/TypeVisitor.h           | 44 +++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 2429cb4..863ae5e 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -23,6 +23,19 @@ namespace dots::serialization
             /* do nothing */
         }
 
+        void setInput(const value_t* inputData, size_t inputDataSize)
+        {
+            Reader<std::string>::setInput(inputData, inputDataSize);
+            m_nesting = {};
+        }
+
+        void setInput(const data_t& input)
+        {
+            setInput(input.data(), input.size());
+        }
+
+        void setInput(data_t&& input) = delete;
+
         size_t nestingLevel() const
         {
             return m_nesting.size();
diff --git a/lib/include/dots/type/TypeVisitor.h b/lib/include/dots/type/TypeVisitor.h
index 11505d7..488e560 100644
--- a/lib/include/dots/type/TypeVisitor.h
+++ b/lib/include/dots/type/TypeVisitor.h
@@ -37,6 +37,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(const T& instance, PropertySet includedProperties)
         {
+            visit_guard_t<true> guard{ *this };
             visitBegin<true>();
             visitStructInternal<true, T>(instance, includedProperties);
             visitEnd<true>();
@@ -45,6 +46,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(T& instance, PropertySet includedProperties)
         {
+            visit_guard_t<false> guard{ *this };
             visitBegin<false>();
             visitStructInternal<false, T>(instance, includedProperties);
             visitEnd<false>();
@@ -53,6 +55,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(const T& property, bool first = true)
         {
+            visit_guard_t<true> guard{ *this };
             visitBegin<true>();
             visitPropertyInternal<true, T>(property, first);
             visitEnd<true>();
@@ -61,6 +64,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(T& property, bool first = true)
         {
+            visit_guard_t<false> guard{ *this };
             visitBegin<false>();
             visitPropertyInternal<false, T>(property, first);
             visitEnd<false>();
@@ -69,6 +73,7 @@ namespace dots::type
         template <typename T>
         void visit(const T& value, const Descriptor<T>& descriptor)
         {
+            visit_guard_t<true> guard{ *this };
             visitBegin<true>();
             visitTypeInternal<true>(value, descriptor);
             visitEnd<true>();
@@ -77,6 +82,7 @@ namespace dots::type
         template <typename T>
         void visit(T& value, const Descriptor<T>& descriptor)
         {
+            visit_guard_t<false> guard{ *this };
             visitBegin<false>();
             visitTypeInternal<false>(value, descriptor);
             visitEnd<false>();
@@ -85,6 +91,7 @@ namespace dots::type
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<is_property<Ts>>...>, int> = 0>
         void visit(const Ts&... values)
         {
+            visit_guard_t<true> guard{ *this };
             visitBegin<true>();
             visitTypeInternal<true, Ts...>(values...);
             visitEnd<true>();
@@ -93,6 +100,7 @@ namespace dots::type
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<std::is_const<Ts>>..., std::negation<is_property<Ts>>...>, int> = 0>
         void visit(Ts&... values)
         {
+            visit_guard_t<false> guard{ *this };
             visitBegin<false>();
             visitTypeInternal<false, Ts...>(values...);
             visitEnd<false>();
@@ -199,6 +207,42 @@ namespace dots::type
         template <bool Condition, typename U>
         using const_t = std::conditional_t<Condition, std::add_const_t<U>, U>;
 
+        // note: restores the visiting level when a visit is aborted by an exception, so that the visitor can be used again
+        template <bool Const>
+        struct visit_guard_t
+        {
+            visit_guard_t(TypeVisitor& visitor) : m_level(level(visitor)), m_initialLevel(m_level)
+            {
+                /* do nothing */
+            }
+
+            visit_guard_t(const visit_guard_t& other) = delete;
+
+            ~visit_guard_t()
+            {
+                m_level = m_initialLevel;
+            }
+
+            visit_guard_t& operator = (const visit_guard_t& rhs) = delete;
+
+        private:
+
+            static size_t& level(TypeVisitor& visitor)
+            {
+                if constexpr (Const)
+                {
+                    return visitor.m_constVisitingLevel;
+                }
+                else
+                {
+                    return visitor.m_nonConstVisitingLevel;
+                }
+            }
+
+            size_t& m_level;
+            size_t m_initialLevel;
+        };
+
         template <bool Const>
         size_t incrementVisitingLevel()
         {
-- 
2.43.0


From 05162ee247cf1b4e7596deb45b60d7bcff4321a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 87/90] fix: leave no parts of objects that cannot be
 serialized

---
 .../dots/io/channels/AsyncStreamChannel.h     | 13 +++++++--
 lib/include/dots/serialization/Serializer.h   | 28 +++++++++++++++----
 .../dots/serialization/formats/TextWriter.h   | 27 ++++++++++++++++++
 .../dots/serialization/formats/Writer.h       | 10 +++++++
 lib/src/io/channels/WebSocketChannel.cpp      | 19 ++++++++++---
 5 files changed, 85 insertions(+), 12 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index b8d3ccf..a26b37f 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -664,8 +664,17 @@ namespace dots::io
                 writeBuffer.resize(writeBuffer.size() + TransmissionSizeSize);
 
                 // serialize header and instance
-                m_serializer.serialize(header);
-                m_serializer.serialize(instance, attributes);
+                try
+                {
+                    m_serializer.serialize(header);
+                    m_serializer.serialize(instance, attributes);
+                }
+                catch (...)
+                {
+                    // note: an instance that cannot be serialized must not leave a partial transmission
+                    writeBuffer.resize(beginIndex);
+                    throw;
+                }
 
                 // serialize transmission size into previously created storage
                 // area. note that the transmission size is encoded as a fixed size
diff --git a/lib/include/dots/serialization/Serializer.h b/lib/include/dots/serialization/Serializer.h
index bc0ce74..7089be4 100644
--- a/lib/include/dots/serialization/Serializer.h
+++ b/lib/include/dots/serialization/Serializer.h
@@ -110,22 +110,19 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_base_of_v<type::Struct, T>, int> = 0>
         size_t serialize(const T& instance, const property_set_t& includedProperties)
         {
-            visit(instance, includedProperties);
-            return lastSerializeSize();
+            return serializeRevertible([&]{ visit(instance, includedProperties); });
         }
 
         template <typename T>
         size_t serialize(const T& value, const type::Descriptor<T>& descriptor)
         {
-            visit(value, descriptor);
-            return lastSerializeSize();
+            return serializeRevertible([&]{ visit(value, descriptor); });
         }
 
         template <typename T>
         size_t serialize(const T& value)
         {
-            visit(value);
-            return lastSerializeSize();
+            return serializeRevertible([&]{ visit(value); });
         }
 
         template <typename T, std::enable_if_t<!std::is_const_v<T> && std::is_base_of_v<type::Struct, T>, int> = 0>
@@ -257,6 +254,25 @@ namespace dots::serialization
 
     private:
 
+        // note: reverts the output if an object cannot be serialized, so that there are no parts of it between other objects
+        template <typename F>
+        size_t serializeRevertible(F&& serialize)
+        {
+            const auto state = m_writer.state();
+
+            try
+            {
+                serialize();
+            }
+            catch (...)
+            {
+                m_writer.restore(state);
+                throw;
+            }
+
+            return lastSerializeSize();
+        }
+
         Derived& derived()
         {
             return static_cast<Derived&>(*this);
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 0639685..e966a8a 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -21,11 +21,38 @@ namespace dots::serialization
             /* do nothing */
         }
 
+        struct state_t
+        {
+            size_t outputSize;
+            size_t nestingLevel;
+            bool first;
+        };
+
         size_t nestingLevel() const
         {
             return m_nesting.size();
         }
 
+        state_t state() const
+        {
+            return { output().size(), m_nesting.size(), m_nesting.empty() || m_nesting.top().second };
+        }
+
+        void restore(const state_t& state)
+        {
+            output().resize(state.outputSize);
+
+            while (m_nesting.size() > state.nestingLevel)
+            {
+                m_nesting.pop();
+            }
+
+            if (!m_nesting.empty())
+            {
+                m_nesting.top().second = state.first;
+            }
+        }
+
         void writeArrayBegin()
         {
             writeString(format_t::ArrayBegin);
diff --git a/lib/include/dots/serialization/formats/Writer.h b/lib/include/dots/serialization/formats/Writer.h
index e4947a4..e4390b1 100644
--- a/lib/include/dots/serialization/formats/Writer.h
+++ b/lib/include/dots/serialization/formats/Writer.h
@@ -20,6 +20,16 @@ namespace dots::serialization
             return m_output;
         }
 
+        size_t state() const
+        {
+            return m_output.size();
+        }
+
+        void restore(size_t state)
+        {
+            m_output.resize(state);
+        }
+
     private:
 
         data_t m_output;
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index b508d1c..1015ef3 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -115,10 +115,21 @@ namespace dots::io
         // note: accessed before anything is written, so that an invalid header does not leave a partial transmission
         const property_set_t& attributes = *header.attributes;
 
-        m_serializer.writer().writeArrayBegin();
-        m_serializer.serialize(header);
-        m_serializer.serialize(instance, attributes);
-        m_serializer.writer().writeArrayEnd();
+        const auto writerState = m_serializer.writer().state();
+
+        try
+        {
+            m_serializer.writer().writeArrayBegin();
+            m_serializer.serialize(header);
+            m_serializer.serialize(instance, attributes);
+            m_serializer.writer().writeArrayEnd();
+        }
+        catch (...)
+        {
+            // note: an instance that cannot be serialized must not leave a partial transmission
+            m_serializer.writer().restore(writerState);
+            throw;
+        }
 
         m_data->writeQueueSize += m_serializer.output().size();
         m_data->writeQueue.emplace_back(std::move(m_serializer.output()));
-- 
2.43.0


From af915db9dc90193be3c79ab8ca5cd343ae725820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 88/90] fix: describe types again whose descriptions could not
 be transmitted

---
 lib/src/io/Channel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index 0e32b2b..145dc0c 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -192,10 +192,9 @@ namespace dots::io
 
     void Channel::exportDependencies(const type::Descriptor<>& descriptor)
     {
+        // note: types only count as shared once their descriptions have been transmitted successfully
         if (bool isNewSharedType = m_sharedTypeDescriptors.count(&descriptor) == 0; isNewSharedType)
         {
-            m_sharedTypeDescriptors.emplace(&descriptor);
-
             if (const auto* vectorDescriptor = descriptor.as<type::VectorDescriptor>(); vectorDescriptor != nullptr)
             {
                 exportDependencies(vectorDescriptor->valueDescriptor());
@@ -204,9 +203,10 @@ namespace dots::io
             {
                 exportDependencies(enumDescriptor->underlyingDescriptor());
 
-                if (m_sharedTypeNames.emplace(enumDescriptor->name()).second)
+                if (m_sharedTypeNames.count(enumDescriptor->name()) == 0)
                 {
                     transmit(DescriptorConverter{ registry() }(*enumDescriptor));
+                    m_sharedTypeNames.emplace(enumDescriptor->name());
                 }
             }
             else if (const auto* structDescriptor = descriptor.as<type::StructDescriptor>(); structDescriptor != nullptr)
@@ -218,12 +218,15 @@ namespace dots::io
                         exportDependencies(propertyDescriptor.valueDescriptor());
                     }
 
-                    if (m_sharedTypeNames.emplace(structDescriptor->name()).second)
+                    if (m_sharedTypeNames.count(structDescriptor->name()) == 0)
                     {
                         transmit(DescriptorConverter{ registry() }(*structDescriptor));
+                        m_sharedTypeNames.emplace(structDescriptor->name());
                     }
                 }
             }
+
+            m_sharedTypeDescriptors.emplace(&descriptor);
         }
 
     }
-- 
2.43.0


From 251566306b13f6d237651e58fb06b1bc00146914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 89/90] fix: assign default values to enums through their
 descriptors

---
 lib/include/dots/type/EnumDescriptor.h | 1 +
 lib/src/type/EnumDescriptor.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/lib/include/dots/type/EnumDescriptor.h b/lib/include/dots/type/EnumDescriptor.h
index 0b8f266..c7eedaa 100644
--- a/lib/include/dots/type/EnumDescriptor.h
+++ b/lib/include/dots/type/EnumDescriptor.h
@@ -102,6 +102,7 @@ namespace dots::type
 
         void destruct(Typeless& value) const override;
 
+        Typeless& assign(Typeless& lhs) const override;
         Typeless& assign(Typeless& lhs, const Typeless& rhs) const override;
         Typeless& assign(Typeless& lhs, Typeless&& rhs) const override;
 
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 81df0de..5d23a30 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -65,6 +65,11 @@ namespace dots::type
         underlyingDescriptor().destruct(value);
     }
 
+    Typeless& EnumDescriptor::assign(Typeless& lhs) const
+    {
+        return underlyingDescriptor().assign(lhs);
+    }
+
     Typeless& EnumDescriptor::assign(Typeless& lhs, const Typeless& rhs) const
     {
         return underlyingDescriptor().assign(lhs, rhs);
-- 
2.43.0


From bf56aafbbd0823b508b5e54d789ada51591c377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 90/90] fix: ignore local accepts of destroyed guests and
 listeners

---
 lib/include/dots/io/channels/LocalChannel.h | 3 +++
 lib/src/io/channels/LocalListener.cpp       | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index e672e9b..544bb87 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -28,7 +28,10 @@ namespace dots::io
 
     private:
 
+        friend struct LocalListener;
+
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::weak_ptr<LocalChannel> m_peer;
+        std::shared_ptr<bool> m_alive = std::make_shared<bool>(true);
     };
 }
diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index 0558e73..e3ef585 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -12,8 +12,14 @@ namespace dots::io
 
     void LocalListener::accept(LocalChannel& peer)
     {
-        asio::post(m_ioContext.get(), [&]
+        // note: the listener and the peer might be destroyed before the accept is processed
+        asio::post(m_ioContext.get(), [this, &peer, alive = std::weak_ptr<bool>{ m_alive }, peerAlive = std::weak_ptr<bool>{ peer.m_alive }]
         {
+            if (alive.expired() || peerAlive.expired())
+            {
+                return;
+            }
+
             auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
             peer.link(*channel);
             channel->link(peer);
-- 
2.43.0

