From ab641b1736afe910e8ad5016916de1a780fe73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 01/41] fix: refuse a padded integer that does not fit instead
 of writing past the buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..5a19f65 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -45,6 +45,10 @@ void BufferedOut::addPadding(const char* p)
     auto realSize = p - pos;
     if (realSize < integerWidth)
     {
+        if (dataBuf.end() - pos < integerWidth)
+        {
+            return;
+        }
         memmove(pos + integerWidth - realSize, pos, realSize);
         auto paddingSize = integerWidth - realSize;
         auto paddingPos = pos;
-- 
2.43.0


From 65404b2677f4730d86963bdb82de3fae8893c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 02/41] fix: keep all digits of an integer longer than the
 requested width

---
 BufferedOut.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 5a19f65..fbc7b74 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -56,8 +56,9 @@ void BufferedOut::addPadding(const char* p)
         {
             *(paddingPos++) = fillChar;
         }
+        realSize = integerWidth;
     }
-    pos += integerWidth;
+    pos += realSize;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From 2318693cadbcb7a09cd60cf7b4f4e02de2fe296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 03/41] fix: do not write a byte's hex digits past the end of
 the buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index fbc7b74..4ff0e0a 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -160,6 +160,10 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
+    if (dataBuf.end() - pos < 2)
+    {
+        return *this;
+    }
     char digits[] = "0123456789ABCDEF";
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
-- 
2.43.0


From c44062567447216a6b77e5751e90ebfdd92b40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 04/41] fix: float output: sign of (-1;0), non-integer-range
 values, missing room

---
 BufferedOut.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 4ff0e0a..46ae4f4 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -1,6 +1,9 @@
+#include <algorithm>
 #include <charconv>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include "BufferedOut.h"
 
 namespace
@@ -8,9 +11,24 @@ namespace
 
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
+    const auto limit = -float(std::numeric_limits<int>::min());
+    if (!(val >= -limit && val < limit))
+    {
+        const std::string_view text = std::isnan(val) ? "nan" : std::isinf(val) ? "inf" : "ovf";
+        return static_cast<std::size_t>(last - first) < text.size() ? first : std::copy(text.begin(), text.end(), first);
+    }
     int n = int(val);
+    auto start = first;
+    if (n == 0 && val < 0 && precision > 0 && first != last)
+    {
+        *(first++) = '-';
+    }
     auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    if (ec != std::errc {})
+    {
+        return start;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From 39ff91a2b35a0b23eb11c03b857451ab0bd54222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 05/41] fix: do not truncate the size of text beyond 64 KiB

---
 BufferedOut.h               | 4 ++--
 arduino/SerialOut.cpp       | 5 +++++
 esp32-esp-idf/SerialOut.cpp | 5 +++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
diff --git a/arduino/SerialOut.cpp b/arduino/SerialOut.cpp
index 1d434ea..4abde66 100644
--- a/arduino/SerialOut.cpp
+++ b/arduino/SerialOut.cpp
@@ -4,6 +4,11 @@
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
+    while (dataView.size() > UINT16_MAX)
+    {
+        uartDevice.Send(dataView.begin(), UINT16_MAX, 100);
+        dataView = dataView.subspan(UINT16_MAX);
+    }
     uartDevice.Send(dataView.begin(), dataView.size(), 100);
     bufferedOut.clear();
 }
diff --git a/esp32-esp-idf/SerialOut.cpp b/esp32-esp-idf/SerialOut.cpp
index 1d434ea..4abde66 100644
--- a/esp32-esp-idf/SerialOut.cpp
+++ b/esp32-esp-idf/SerialOut.cpp
@@ -4,6 +4,11 @@
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
+    while (dataView.size() > UINT16_MAX)
+    {
+        uartDevice.Send(dataView.begin(), UINT16_MAX, 100);
+        dataView = dataView.subspan(UINT16_MAX);
+    }
     uartDevice.Send(dataView.begin(), dataView.size(), 100);
     bufferedOut.clear();
 }
-- 
2.43.0


From 10439eec5aa99e1309b2f324b0cdd7ffdcf5be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 06/41] fix: do not pass the null pointer of an empty string
 view to memcpy

---
 BufferedOut.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 46ae4f4..51b21ff 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -191,8 +191,11 @@ BufferedOut &BufferedOut::operator<<(unsigned char b)
 BufferedOut &BufferedOut::operator<<(std::string_view str)
 {
     auto effectiveSize = std::min(str.size(), static_cast<size_t>(dataBuf.end() - pos));
-    std::memcpy(pos, str.data(), effectiveSize);
-    pos += effectiveSize;
+    if (effectiveSize != 0)
+    {
+        std::memcpy(pos, str.data(), effectiveSize);
+        pos += effectiveSize;
+    }
     return *this;
 }
 
-- 
2.43.0


From 8f9d4928b9ebeb34c8e909bde881fa68b19d3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 07/41] fix: do not access stored objects through misaligned
 references

---
 PersistentStorage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..d27c132 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -9,6 +9,7 @@
 #include <optional>
 #include <array>
 #include <memory>
+#include <new>
 #include <cstdint>
 #include <array>
 #include "MemoryView.h"
@@ -80,7 +81,10 @@ public:
         {
             if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
             {
-                return node.data;
+                // the record may be misaligned for T, so the object is copied out of it first
+                alignas(T) unsigned char object[sizeof(T)];
+                std::memcpy(object, static_cast<const void*>(&node.data), sizeof(T));
+                return *std::launder(reinterpret_cast<const T*>(object));
             }
         }
         return std::nullopt;
-- 
2.43.0


From 922ea9c2770b2e3b2fce4fad7eb702bfe1ecfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 08/41] fix: refuse to store objects under names that do not
 fit the record

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index d27c132..c83fe8d 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -63,6 +63,11 @@ public:
             // no more free nodes
             return false;
         }
+        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)
+        {
+            // the name would be stored incompletely and never found again
+            return false;
+        }
         auto &node = getNode<T>(free_head_);
         for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
         {
-- 
2.43.0


From 89e00db73a0a26ab9b548539eaca960a724b8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/41] fix: refuse to store objects whose size the record
 cannot describe

---
 PersistentStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index c83fe8d..0d596b9 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -58,7 +58,7 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
-        if (free_head_ + recordSize > buffer_.size())
+        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max() || free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
             return false;
-- 
2.43.0


From 5fba7869aef5ea4ee59d30625433e2fd9c9336b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 10/41] fix: do not take a damaged record shorter than its
 descriptor for a stored one

---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..520f68e 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From c8ca54e24641faf3e5f94ee18537538c82b12d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 11/41] fix: an empty rectangle has no border to draw

---
 graphics/Canvas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphics/Canvas.cpp b/graphics/Canvas.cpp
index 7d9e604..a760b75 100644
--- a/graphics/Canvas.cpp
+++ b/graphics/Canvas.cpp
@@ -97,6 +97,10 @@ void Canvas::drawVerticalLine(Point startPos, const int line_height)
 
 void Canvas::drawRectangle(Rect rect)
 {
+    if (rect.size.width <= 0 || rect.size.height <= 0)
+    {
+        return;
+    }
     rect = transformCoords(rect);
     drawHorizontalLine(rect.topLeft, rect.size.width);
     drawHorizontalLine(rect.bottomLeft(), rect.size.width);
-- 
2.43.0


From 32f4d82ca4870468cd0db246775aee3ea44abb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 12/41] fix: frame buffers of more than one bit per pixel have
 the declared width

---
 graphics/SimpleFrameBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..4896673 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,7 +9,7 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
         selectedColor = (1 << colorDepth) - 1;
     }
     int getWidth() const override { return effectiveWidth; }
@@ -88,7 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From 1dd7b0b79aa7bd861b6213c4183f4600c8a42a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/41] fix: place two-bit pixels at their own bits

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 4896673..22af0a5 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From f0fef6ce26f5e669a42242c33fd7ee242c4f0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 14/41] fix: colour mask of 32 bits per pixel

---
 graphics/SimpleFrameBuffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 22af0a5..047987d 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -10,7 +10,7 @@ public:
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
         static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -88,6 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
+    static constexpr uint32_t colorMask = UINT32_MAX >> (32 - colorDepth);
     static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
-- 
2.43.0


From ead10a03c9b6e5088b80fce7eb468e2ca268299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 15/41] fix: look up characters above 0x7E on platforms with
 signed char, none in the 0x7F..0x9F gap

---
 graphics/EmbeddedFont.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..de8aa47 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -4,13 +4,18 @@
 namespace embedded::fonts
 {
 
-EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
+EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char character) const
 {
+    const auto symbol = static_cast<uint8_t>(character);
     if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
     {
         return getBitmap(fontDescriptor.first);
     }
     auto pos = symbol - fontDescriptor.first;
+    if (symbol > '~' && symbol < 0xA0)
+    {
+        return getBitmap(fontDescriptor.first);
+    }
     if (symbol > '~')
     {
         pos -= (0xA0 - '~' - 1);
-- 
2.43.0


From 56906f479becd7c1d3caa970235f126852518f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 16/41] fix: end of a glyph's bitmap, out of bounds read for
 the last glyph

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index de8aa47..91fcf96 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -28,7 +28,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char character) cons
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From 4b48a6250bb973bb74e32c00f148ed5567a6dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 17/41] fix: text bounds contain all pixels of the text

---
 graphics/EmbeddedFont.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 91fcf96..61c2543 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -44,21 +44,21 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int pen = 0;
+        int minLeft = 255;
+        int maxRight = -255;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = pen + bitmap.offset.width;
+            minLeft = std::min(minLeft, left);
+            maxRight = std::max(maxRight, left + bitmap.effectiveSize.width);
+            pen += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.topLeft.x = - minLeft;
+        result.size.width = maxRight - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 55ee04a8ef081bc32cd7ff4008b3e1b9a5350263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 18/41] fix: Arduino UART receive time limits across the
 roll-over of millis()

---
 arduino/PacketUart.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..8e20c26 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -10,10 +10,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const uint32_t startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (static_cast<uint32_t>(millis() - startTime) < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -67,9 +66,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    const uint32_t startTime = millis();
+    while (timeoutMilliseconds == 0 || static_cast<uint32_t>(millis() - startTime) < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From ecc85a481ccea2afb8a5ce9e49a68837aea71b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 19/41] fix: Arduino framed UART receive made up the end byte
 and wrote beyond tiny buffers

---
 arduino/PacketUart.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 8e20c26..851ebcd 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -48,8 +48,13 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -60,6 +65,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+        return 0;
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -73,8 +80,13 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+            {
+                if (buffer[currentPos++] == endByte)
+                {
+                    break;
+                }
+            }
             break;
         }
     }
-- 
2.43.0


From aab3e894787b4e582b917b0cbd03c0c4bbe1d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 20/41] fix: ESP UART driver errors were reported as 65535
 bytes

---
 esp32-esp-idf/PacketUart.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..bd74f8f 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,14 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    const auto result = uartDevice.sendBlocking(buffer, bufferSize);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 3d521941550cd091d579a65da6c866a68af1c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 21/41] fix: ESP UART receive time limits: clock roll-over and
 unrelated bytes

---
 esp32-esp-idf/PacketUart.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index bd74f8f..4c88a4c 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -22,12 +22,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const uint32_t startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -48,26 +48,30 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const uint32_t startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos] == startByte)
+            {
+                ++currentPos;
                 break;
+            }
         }
         else
         {
             return 0;
         }
     }
-    ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    if (currentPos == 0)
+        return 0;
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From a1d11e447cdafcf143d5123b0d17e80f57a55e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 22/41] fix: ESP SPI release condition was reversed, the bus
 was never freed

---
 esp32-esp-idf/SpiBus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..57a0530 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -79,7 +79,7 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) == ESP_OK)
         {
             spiDevice = nullptr;
             return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
-- 
2.43.0


From 38a33d1e00d1e507a1f4651a211c9029c65659fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 23/41] fix: ESP SPI bus stayed allocated when adding the
 device failed

---
 esp32-esp-idf/SpiBus.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 57a0530..357e10f 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -72,7 +72,12 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
-- 
2.43.0


From 797efb679f3e4d53ccf9b6985e7bf9cc5788a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 24/41] fix: ESP analog reads left the converter unit claimed,
 every later read failed

---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From cd7ba97f28304aa28bba2f956ea5d10e86df8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 25/41] fix: ESP light sleep: clock roll-over, time passing
 between two clock reads, long sleeps

---
 esp32-esp-idf/SleepFunctions.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..696e82b 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,18 +8,18 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint32_t tickstart = getMillisecondTicks();
+    uint32_t elapsed = 0;
 
-    while ((getMillisecondTicks() < wait))
+    while ((elapsed = getMillisecondTicks() - tickstart) < milliseconds)
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup((milliseconds - elapsed) * 1000ull);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
+            elapsed = getMillisecondTicks() - tickstart;
+            if (elapsed < milliseconds)
             {
-                delay(wait - current);
+                delay(milliseconds - elapsed);
             }
         }
     }
-- 
2.43.0


From 79e513b888eac2cd925a2bc9fa86536b5a283a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 26/41] fix: font converter crashed on every FreeType error (no
 error string)

---
 gfx-font-converter/FreeTypeFace.cpp    |  7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp | 10 ++++++++--
 gfx-font-converter/FreeTypeLibrary.h   |  3 +++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..30a42ff 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,6 +1,7 @@
 #include "FreeTypeFace.h"
 
 #include "FreeTypeGlyph.h"
+#include "FreeTypeLibrary.h"
 
 #include <string>
 #include <stdexcept>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..7f3df31 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -7,13 +7,19 @@
 
 #include <stdexcept>
 
+std::string getErrorText(const FT_Error errorCode)
+{
+    const char* const text = FT_Error_String(errorCode);
+    return text != nullptr ? text : "FreeType error " + std::to_string(errorCode);
+}
+
 FreeTypeLibrary::FreeTypeLibrary()
 : ftLibrary(nullptr, FT_Done_FreeType)
 {
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +32,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
diff --git a/gfx-font-converter/FreeTypeLibrary.h b/gfx-font-converter/FreeTypeLibrary.h
index bacbace..89128f7 100644
--- a/gfx-font-converter/FreeTypeLibrary.h
+++ b/gfx-font-converter/FreeTypeLibrary.h
@@ -6,6 +6,9 @@
 
 class FreeTypeFace;
 
+// Textual description of the error; FT_Error_String() gives none unless FreeType was built with error strings.
+std::string getErrorText(FT_Error errorCode);
+
 class FreeTypeLibrary
 {
 public:
-- 
2.43.0


From bf6155e3ce0c5442635851fa097ad5f461b8df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 27/41] fix: font converter aborted on malformed numbers
 (exception outside of the handler)

---
 gfx-font-converter/FontConverterConfig.cpp | 20 ++++++++++++++++++--
 gfx-font-converter/main.cpp                | 20 ++++++++++----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 0b5e7a3..b198fa1 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -3,6 +3,22 @@
 #include <getopt.h>
 #include <cctype>
 #include <algorithm>
+#include <stdexcept>
+
+namespace
+{
+int parseNumber(const char option, const char* const text)
+{
+    try
+    {
+        return std::stoi(text);
+    }
+    catch (const std::exception&)
+    {
+        throw std::runtime_error(std::string("Invalid value of option -") + option + ": '" + text + "'");
+    }
+}
+}
 
 FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
@@ -19,10 +35,10 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
                 outputDirectory = optarg;
                 break;
             case 'd':
-                DPI = std::stoi(optarg);
+                DPI = parseNumber('d', optarg);
                 break;
             case 's':
-                fontSize = std::stoi(optarg);
+                fontSize = parseNumber('s', optarg);
                 break;
             case 'e':
                 encoding = optarg;
diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..587a8b7 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -254,18 +254,18 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
 int main(int argc, char* argv[])
 {
-    FontConverterConfig config(argc, argv);
-    const auto &fontFileName = config.getFontFileName();
-    if (config.getPrintHelp() || fontFileName.empty())
-    {
-        std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
-                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
-                  << std::endl;
-        return 1;
-    }
-
     try
     {
+        const FontConverterConfig config(argc, argv);
+        const auto &fontFileName = config.getFontFileName();
+        if (config.getPrintHelp() || fontFileName.empty())
+        {
+            std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
+                      << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
+                      << std::endl;
+            return 1;
+        }
+
         const std::filesystem::path fontFilePath(fontFileName);
         const auto
                 fontName =
-- 
2.43.0


From 1c2ec74b59c2cba55e116aad172cd5a3d2479964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 28/41] fix: font converter silently wrote wrong tables for
 glyphs the format cannot hold

---
 gfx-font-converter/main.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 587a8b7..1d93702 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -3,6 +3,8 @@
 #include <filesystem>
 #include <fstream>
 #include <iomanip>
+#include <limits>
+#include <stdexcept>
 #include <vector>
 #include <optional>
 
@@ -18,6 +20,17 @@
 
 using GlyphDescriptor = embedded::fonts::GlyphDescriptor;
 
+// Converts the value to the type it has in the font tables
+template<typename T>
+T toTableValue(const long value, const char* const what)
+{
+    if (value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max())
+    {
+        throw std::runtime_error(std::string(what) + " " + std::to_string(value) + " doesn't fit the font format");
+    }
+    return static_cast<T>(value);
+}
+
 class BufferedStreamBase
 {
 protected:
@@ -210,6 +223,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
 {
+    const int verticalShift = toTableValue<uint8_t>(sizeMetricsHeight, "line height");
     std::ofstream outputFile;
     const auto outputFileName = (outputDir / (fontName + ".h")).string();
     outputFile.open(outputFileName, std::ios::out);
@@ -245,7 +259,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
     bufferedOut << "  " << fontName << "Glyphs,\n";
 
     bufferedOut << "  0x" << (uint8_t)first << ", 0x" << (uint8_t)last << ", ";
-    bufferedOut << sizeMetricsHeight;
+    bufferedOut << verticalShift;
     bufferedOut << " };\n";
 
     const auto view = bufferedOut.asStringView();
@@ -288,6 +302,7 @@ int main(int argc, char* argv[])
             std::vector<uint8_t> bitmapData;
             VectorStream vectorStream(bitmapData);
             BitStream bitStream(vectorStream);
+            size_t totalSize = 0;
             EncodingConverter iconvHolder(config.getEncoding().c_str(), "UCS-4LE");
             for (auto i = first, j = 0; i <= last; i = (i == '~') ? 0xA0 : i + 1, ++j)
             {
@@ -307,10 +322,12 @@ int main(int argc, char* argv[])
                 }
                 bitStream.flush();
                 const auto bitmapSize = bitmapData.size();
-                table.emplace_back(GlyphData { { static_cast<uint16_t>(bitmapSize), {
-                        static_cast<unsigned char>(bitmap.width), static_cast<unsigned char>(bitmap.rows) }
-                                            , static_cast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16), {
-                        static_cast<char>(bitmapGlyphRec.left), static_cast<char>((1 - bitmapGlyphRec.top)) } }
+                toTableValue<uint16_t>(totalSize, "bitmap offset");
+                totalSize += bitmapSize;
+                table.emplace_back(GlyphData { { toTableValue<uint16_t>(bitmapSize, "bitmap size"), {
+                        toTableValue<uint8_t>(bitmap.width, "glyph width"), toTableValue<uint8_t>(bitmap.rows, "glyph height") }
+                                            , toTableValue<uint8_t>(bitmapGlyphRec.root.advance.x >> 16, "glyph advance"), {
+                        toTableValue<int8_t>(bitmapGlyphRec.left, "glyph offset"), toTableValue<int8_t>(1L - bitmapGlyphRec.top, "glyph offset") } }
                                             , std::move(bitmapData) });
 
             }
-- 
2.43.0


From 3044ebfc6897a9cf09668a081353f506cbbc8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 29/41] fix: font converter read grey-scale bitmaps as
 monochrome, refused huge glyphs only after packing them

---
 gfx-font-converter/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 1d93702..d757162 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -310,6 +310,12 @@ int main(int argc, char* argv[])
 
                 const auto &bitmapGlyphRec = glyph.getBitmapGlyph();
                 const auto &bitmap = bitmapGlyphRec.bitmap;
+                const auto width = toTableValue<uint8_t>(bitmap.width, "glyph width");
+                const auto height = toTableValue<uint8_t>(bitmap.rows, "glyph height");
+                if (width != 0 && height != 0 && bitmap.pixel_mode != FT_PIXEL_MODE_MONO)
+                {
+                    throw std::runtime_error("Glyph " + std::to_string(i) + " isn't monochrome");
+                }
 
                 for (unsigned y = 0; y < bitmap.rows; ++y)
                 {
@@ -325,7 +331,7 @@ int main(int argc, char* argv[])
                 toTableValue<uint16_t>(totalSize, "bitmap offset");
                 totalSize += bitmapSize;
                 table.emplace_back(GlyphData { { toTableValue<uint16_t>(bitmapSize, "bitmap size"), {
-                        toTableValue<uint8_t>(bitmap.width, "glyph width"), toTableValue<uint8_t>(bitmap.rows, "glyph height") }
+                        width, height }
                                             , toTableValue<uint8_t>(bitmapGlyphRec.root.advance.x >> 16, "glyph advance"), {
                         toTableValue<int8_t>(bitmapGlyphRec.left, "glyph offset"), toTableValue<int8_t>(1L - bitmapGlyphRec.top, "glyph offset") } }
                                             , std::move(bitmapData) });
-- 
2.43.0


From f03c0cc6600fbf62f98e6462fcaae6b0292337e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 30/41] fix: font converter reported success although the
 output could not be written

---
 gfx-font-converter/main.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index d757162..32b179b 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -219,6 +219,16 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+// A failed write is only noticed at the latest when the file is closed
+void closeFile(std::ofstream &file, const std::string &fileName)
+{
+    file.close();
+    if (!file)
+    {
+        throw std::runtime_error("output file " + fileName + " was not written completely");
+    }
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -264,6 +274,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
     const auto view = bufferedOut.asStringView();
     outputFile.write(view.data(), view.end() - view.begin());
+    closeFile(outputFile, outputFileName);
 }
 
 int main(int argc, char* argv[])
@@ -353,6 +364,7 @@ int main(int argc, char* argv[])
                 {
                     outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                 }
+                closeFile(outputFile, bitmapsFileName);
             }
             {
                 std::ofstream outputFile;
@@ -376,6 +388,7 @@ int main(int argc, char* argv[])
                     offset += glyph.bitmapData.size();
                     outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
                 }
+                closeFile(outputFile, glyphsFileName);
             }
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
-- 
2.43.0


From e8d74befe2e9ae4eb9e1cefb24ac90f932c7b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 31/41] fix: font converter shifted negative and huge font
 sizes (undefined behaviour)

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 32b179b..8ef07d0 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -300,7 +300,7 @@ int main(int argc, char* argv[])
                          std::filesystem::path(config.getOutputDirectory()) : std::filesystem::path(argv[0]).parent_path();
 
         const auto dpi = config.getDPI();
-        const FT_F26Dot6 fontSize = config.getFontSize() << 6;
+        const FT_F26Dot6 fontSize = static_cast<FT_F26Dot6>(config.getFontSize()) * 64;
         const auto first = config.getFirstChar();
         const auto last = config.getLastChar();
         std::vector<GlyphData> table;
-- 
2.43.0


From 0741a9c403811ce86a7b5583e750fed0e2edcc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 32/41] fix: font converter took characters for glyph indexes
 if the font has no Unicode character map

---
 gfx-font-converter/FreeTypeLibrary.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 7f3df31..720eb20 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -34,5 +34,11 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     {
         throw std::runtime_error(std::string("Failed to create FreeType face: ") + getErrorText(errorCode));
     }
-    return FreeTypeFace(ftFaceRaw);
+    FreeTypeFace ftFace(ftFaceRaw);
+    if (ftFaceRaw->charmap == nullptr)
+    {
+        // FreeType would take the character codes for glyph indexes
+        throw std::runtime_error("The font has no Unicode character map");
+    }
+    return ftFace;
 }
\ No newline at end of file
-- 
2.43.0


From cee88725688442b7c00eeb7933dd4a9972212da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 33/41] fix: generated font headers did not compile for file
 names such as DejaVuSans-Bold.ttf

---
 gfx-font-converter/main.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 8ef07d0..29a15d1 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -229,13 +229,32 @@ void closeFile(std::ofstream &file, const std::string &fileName)
     }
 }
 
-void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
+// File names may contain anything, C++ identifiers may not
+std::string toIdentifier(std::string name)
+{
+    for (auto &c: name)
+    {
+        const bool allowed = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+        if (!allowed)
+        {
+            c = '_';
+        }
+    }
+    if (name.empty() || (name.front() >= '0' && name.front() <= '9'))
+    {
+        name.insert(0, 1, '_');
+    }
+    return name;
+}
+
+void writeHeaderFile(const std::string &fontFileName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
 {
     const int verticalShift = toTableValue<uint8_t>(sizeMetricsHeight, "line height");
     std::ofstream outputFile;
-    const auto outputFileName = (outputDir / (fontName + ".h")).string();
+    const auto fontName = toIdentifier(fontFileName);
+    const auto outputFileName = (outputDir / (fontFileName + ".h")).string();
     outputFile.open(outputFileName, std::ios::out);
     if (!outputFile.is_open())
     {
-- 
2.43.0


From 65789507cf325f1aa73eccc865835ce765da29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 34/41] fix: encoding conversion mixed up characters after a
 multi-byte one, lost four-byte ones

---
 gfx-font-converter/EncodingConverter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..be63007 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -31,7 +31,7 @@ std::string EncodingConverter::convert(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -39,6 +39,7 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -56,7 +57,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -64,5 +65,6 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 77bfb1cb4510276d384a961f9d0ac11dc6452e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 35/41] fix: CP1255, CP1258 and similar character sets gave
 each code the glyph of its predecessor

---
 gfx-font-converter/EncodingConverter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index be63007..5350ad4 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -39,6 +39,8 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    // Some converters (e.g. CP1255, CP1258) hold a character back, it could be combined with the next one
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
@@ -65,6 +67,8 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    // Some converters (e.g. CP1255, CP1258) hold a character back, it could be combined with the next one
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From f23d358854209e17660d864c70c317e2a3930666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 36/41] fix: header of a font without any pixels did not
 compile (empty array)

---
 gfx-font-converter/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 29a15d1..29b7378 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -271,6 +271,10 @@ void writeHeaderFile(const std::string &fontFileName, const std::filesystem::pat
                 hexStringStream << byte;
             }
         }
+        if (hexStringStream.getBytesWritten() == 0)
+        {
+            hexStringStream << uint8_t {}; // an array can't be empty
+        }
     }
     {
         TextGlyphStream textGlyphStream(outputFile, fontName, encoding);
-- 
2.43.0


From 970638d43c8809200d94c6c28cb4005ebb809f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 37/41] fix: SpiBus: a release that failed half way can be
 completed, also by the destructor

---
 esp32-esp-idf/SpiBus.cpp | 18 +++++++++++++-----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 357e10f..1cbb47a 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -61,6 +61,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     {
         return false;
     }
+    initialized = true;
 
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
@@ -74,7 +75,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
 
     if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
     {
-        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        release();
         return false;
     }
     return true;
@@ -84,12 +85,19 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice) == ESP_OK)
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        spiDevice = nullptr;
+    }
+    if (initialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
+        {
+            return false;
+        }
+        initialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..d810185 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -26,6 +26,7 @@ public:
 
 private:
     int spiBusNumber;
+    bool initialized = false;
     spi_device_t* spiDevice = nullptr;
     uint32_t maxTransferSize = 0;
 };
-- 
2.43.0


From d50cac90d5b78f80625e681ed85b32f37e418636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 38/41] fix: EmbeddedFont: fonts that contain only codes above
 0x9F recursed endlessly

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 61c2543..957333a 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -16,7 +16,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char character) cons
     {
         return getBitmap(fontDescriptor.first);
     }
-    if (symbol > '~')
+    if (symbol > '~' && fontDescriptor.first <= '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
-- 
2.43.0


From a0c3c37cac5fcd5a1ab544ca72550ca24eb0eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 39/41] fix: define PersistentStorage::DescriptorSize, which
 was only declared

---
 PersistentStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 520f68e..390e321 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -1,5 +1,7 @@
 #include "PersistentStorage.h"
 
+const size_t embedded::PersistentStorage::DescriptorSize = sizeof(NodeDescriptor);
+
 embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
 : buffer_(storage), free_head_(0)
 {
-- 
2.43.0


From 05eaa96104a571e0ec15b2f229737f937a99a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:26 +0000
Subject: [PATCH 40/41] fix: accept the long options of the font converter, as
 documented

---
 gfx-font-converter/FontConverterConfig.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index b198fa1..3e91ac4 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -24,7 +24,15 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
     int opt;
     encoding = "ASCII";
-    while ((opt = getopt(argc, argv, "f:o:d:s:e:bh")) != -1)
+    static const option longOptions[] = {
+            { "font", required_argument, nullptr, 'f' },
+            { "output", required_argument, nullptr, 'o' },
+            { "dpi", required_argument, nullptr, 'd' },
+            { "size", required_argument, nullptr, 's' },
+            { "encoding", required_argument, nullptr, 'e' },
+            { nullptr, 0, nullptr, 0 }
+    };
+    while ((opt = getopt_long(argc, argv, "f:o:d:s:e:bh", longOptions, nullptr)) != -1)
     {
         switch (opt)
         {
-- 
2.43.0


From 82c131a3373f02f87f57d14017f56092ab31bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 41/41] fix: default output directory of a font converter
 started by its bare name

---
 gfx-font-converter/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 29b7378..4a00831 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -321,6 +321,12 @@ int main(int argc, char* argv[])
                 std::to_string(config.getLastChar() > 127 ? 8 : 7) + "b";
         auto outputDir = std::filesystem::is_directory(config.getOutputDirectory()) ?
                          std::filesystem::path(config.getOutputDirectory()) : std::filesystem::path(argv[0]).parent_path();
+        if (outputDir.empty())
+        {
+            // Started by its bare name: the executable was found in the PATH
+            std::error_code ignored;
+            outputDir = std::filesystem::read_symlink("/proc/self/exe", ignored).parent_path();
+        }
 
         const auto dpi = config.getDPI();
         const FT_F26Dot6 fontSize = static_cast<FT_F26Dot6>(config.getFontSize()) * 64;
-- 
2.43.0

