#!/usr/bin/env python3
"""Behaviour-preserving edits of the library: every check has to stay quiet on them (development aid, no registered command).

  equivalents.py [-j N] [ID-REGEX]      applies each edit to a scratch copy, builds and tests it, runs the related checks
"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf, threading, time
V, W, REPO = os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/tmp/equivwork", "/repo"
E = []   # (id, props, [(file, old, new) or (file, None, whole new text)])


def eq(i, props, *edits):
    E.append((i, props.split(), edits))


# ---------------------------------------------------------------- text output
ints = ["int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
ONE = """BufferedOut &BufferedOut::operator<<(%s n)
{
    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);
    if (ec == std::errc {})
    {
        adjustPos(p);
    }
    return *this;
}
"""
eq("buf-template", "T01 T02 T03 O01 N01 N02 N03",
   ("BufferedOut.h", "    void adjustPos(char* p);\n", "    void adjustPos(char* p);\n    template<typename T> BufferedOut &writeInteger(T n);\n"),
   ("BufferedOut.cpp", ONE % "int", """template<typename T>
BufferedOut &BufferedOut::writeInteger(T n)
{
    const auto result = std::to_chars(pos, dataBuf.end(), n);
    if (result.ec != std::errc {})
    {
        return *this;
    }
    adjustPos(result.ptr);
    return *this;
}

BufferedOut &BufferedOut::operator<<(int n) { return writeInteger(n); }
"""),
   *[("BufferedOut.cpp", ONE % t, "BufferedOut &BufferedOut::operator<<(%s n) { return writeInteger(n); }\n" % t) for t in ints[1:]])
eq("buf-manualdigits", "T01 T02 T03 O01 N03",
   ("BufferedOut.cpp", ONE % "unsigned long long", """BufferedOut &BufferedOut::operator<<(unsigned long long n)
{
    char digits[24];
    char* d = digits + sizeof(digits);
    do
    {
        *--d = static_cast<char>('0' + n % 10);
        n /= 10;
    } while (n != 0);
    const std::ptrdiff_t count = digits + sizeof(digits) - d;
    if (count <= dataBuf.end() - pos)
    {
        std::memcpy(pos, d, count);
        adjustPos(pos + count);
    }
    return *this;
}
"""))
eq("buf-padding", "T01 T02 T03 N03",
   ("BufferedOut.cpp", """        memmove(pos + integerWidth - realSize, pos, realSize);
        auto paddingSize = integerWidth - realSize;
        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }
        realSize = integerWidth;
""", """        std::copy_backward(pos, pos + realSize, pos + integerWidth);
        std::fill_n(pos, integerWidth - realSize, fillChar);
        realSize = integerWidth;
"""))
eq("buf-cstring", "T01 T02 O01",
   ("BufferedOut.cpp", """    pos = append(pos, dataBuf.end(), str);
    return *this;
""", """    return *this << std::string_view(str, strnlen(str, dataBuf.end() - pos));
"""), ("BufferedOut.cpp", """char* append(char* dst, const char* end, const char* str)
{
    while (*str && dst != end)
    {
        *(dst++) = *(str++);
    }
    return dst;
}
""", ""))
eq("buf-hex", "T01 T02 N02 N03",
   ("BufferedOut.cpp", """    for (size_t i = 0; i < size; ++i)
    {
        *this << span[i];
    }
    return *this;
""", """    for (const auto b: span.first(size))
    {
        *this << b;
    }
    return *this;
"""), ("BufferedOut.cpp", """    char digits[] = "0123456789ABCDEF";
    *(pos++) = digits[(b & 0xF0u) >> 4];
    *(pos++) = digits[b & 0xFu];
""", """    for (int shift = 4; shift >= 0; shift -= 4)
    {
        const auto nibble = (b >> shift) & 0xF;
        *(pos++) = static_cast<char>(nibble < 10 ? '0' + nibble : 'A' + nibble - 10);
    }
"""))
eq("buf-float", "T01 T02 T04 N03",
   ("BufferedOut.cpp", """    if (precision > 0 && pos < last)
    {
        float f = std::abs(val) - std::abs(float(n));
        *(pos++) = '.';
        while (precision > 0 && pos != last)
        {
            f *= 10;
            n = int(f);
            *(pos++) = char('0' + n);
            f -= float(n);
            --precision;
        }
    }
    return pos;
""", """    if (precision == 0 || pos == last)
    {
        return pos;
    }
    *(pos++) = '.';
    float rest = std::fabs(val - float(n));
    for (; precision != 0 && pos != last; --precision)
    {
        rest *= 10.0f;
        const auto digit = static_cast<int>(rest);
        *(pos++) = static_cast<char>(digit + '0');
        rest -= static_cast<float>(digit);
    }
    return pos;
"""))
eq("buf-float-digits", "T01 T02 T04 N03 O01",    # other correct digits (nearest, double arithmetic) are allowed as well
   ("BufferedOut.cpp", """        float f = std::abs(val) - std::abs(float(n));
        *(pos++) = '.';
        while (precision > 0 && pos != last)
        {
            f *= 10;
            n = int(f);
            *(pos++) = char('0' + n);
            f -= float(n);
            --precision;
        }
""", """        double f = std::abs(double(val) - double(n));
        *(pos++) = '.';
        for (; precision > 0 && pos != last; --precision)
        {
            f *= 10;
            const int d = int(f);
            *(pos++) = char('0' + d);
            f -= d;
        }
"""))
eq("buf-index", "T01 T02 T03 T04 O01 N01 N02",
   ("BufferedOut.h", "size() const { return pos - dataBuf.begin(); }", "size() const { return static_cast<decltype(dataBuf)::size_type>(pos - dataBuf.data()); }"),
   ("BufferedOut.h", """        if (pos != dataBuf.end())
        {
            *(pos++) = c;
        }
""", """        if (size() >= capacity())
        {
            return;
        }
        *pos = c;
        ++pos;
"""))
# ---------------------------------------------------------------- views, values, geometry
eq("view-subspan", "M01 T01 S01",
   ("MemoryView.h", """        if (offset >= size_)
            return {};
        if (count == npos)
            return MemoryView<T>(begin_ + offset, size_ - offset);
        return MemoryView<T>(begin_ + offset, std::min(size_ - offset, count));
""", """        if (offset < size_)
        {
            const size_type available = size_ - offset;
            return MemoryView<T>(begin_ + offset, available < count ? available : count);
        }
        return {};
"""), ("MemoryView.h", """        if (count >= size_)
            return *this;
        return MemoryView<T>(begin_, count);
""", """        return MemoryView<T>(begin_, count < size_ ? count : size_);
"""), ("MemoryView.h", """        if (count >= size_)
            return *this;
        return MemoryView<T>(begin_ + size_ - count, count);
""", """        const size_type n = count < size_ ? count : size_;
        return MemoryView<T>(end() - n, n);
"""))
eq("view-end", "M01 T01 N01",
   ("MemoryView.h", "    T* begin_;\n    size_type size_;\n", "    T* begin_;\n    size_type size_; // number of elements\n"),
   ("MemoryView.h", "constexpr reference back() const { return *(begin_ + size_ - 1); }", "constexpr reference back() const { return begin_[size_ - 1]; }"),
   ("MemoryView.h", "constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }", "constexpr reverse_iterator rbegin() const { return std::make_reverse_iterator(end()); }"))
eq("endian-builtin", "E01 N03",
   ("EndianConversion.h", """    return ((in & 0xff000000ul) >> 24) | ((in & 0x00FF0000ul) >> 8) | ((in & 0x0000FF00ul) << 8) |
           ((in & 0xFFul) << 24);
""", "    return __builtin_bswap32(in);\n"),
   ("EndianConversion.h", """    auto in = *bytes;
    in = ((in & 0xff000000) >> 24) | ((in & 0x00FF0000) >> 8) | ((in & 0x0000FF00) << 8) | ((in & 0xFF) << 24);
    *bytes = (in >> 16) | (in << 16);
""", """    const auto in = *bytes;
    *bytes = ((in & 0xFF00FF00u) >> 8) | ((in & 0x00FF00FFu) << 8);
"""))
eq("geometry", "G01 V02 V01 V06 N03",
   ("graphics/BaseGeometry.h", "        return { topLeft.x + size.width - 1, topLeft.y };", "        return { static_cast<T>(topLeft.x + (size.width - 1)), topLeft.y };"),
   ("graphics/BaseGeometry.h", "        return topLeft + (size - Size<T> { 1, 1 });", "        return { topRight().x, bottomLeft().y };"),
   ("graphics/BaseGeometry.h", "        return x != other.x || y != other.y;", "        return !(*this == other);"),
   ("graphics/BaseGeometry.h", """        x += size.width;
        y += size.height;
        return *this;
""", """        return *this = *this + size;
"""))
# ---------------------------------------------------------------- storage
eq("stor-const", "S01 S02 S03 S04 S05 N02",
   ("PersistentStorage.h", """        auto &node = getNode<T>(free_head_);
        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += recordSize;
        return true;
""", """        writeRecord(getNode<T>(free_head_), idx, object);
        free_head_ += recordSize;
        return true;
"""), ("PersistentStorage.h", """    template<typename T>
    std::size_t getIdx(""", """    template<typename T>
    static void writeRecord(Node<T> &node, std::string_view idx, const T &object)
    {
        const auto length = idx.copy(node.idx.data(), node.idx.size());
        std::memset(node.idx.data() + length, 0, node.idx.size() - length);
        node.size = sizeof(Node<T>);
        std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));
    }

    template<typename T>
    std::size_t getIdx("""))
eq("stor-find", "S01 S02 S03 S04 S05",
   ("PersistentStorage.h", """        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)
        {
            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);
            if (node.idx == idx && node.size == sizeof(Node<T>))
            {
                return pos;
            }
            pos += node.size;
        }
        return wrongPos;
""", """        std::size_t pos = 0;
        while (pos + sizeof(NodeDescriptor) <= free_head_)
        {
            const auto &descriptor = getNodeDescriptor(pos);
            if (descriptor.size == sizeof(Node<T>) && descriptor.idx == idx)
            {
                return pos;
            }
            pos += descriptor.size;
        }
        return wrongPos;
"""))
eq("stor-payload-first", "S01 S02 S03 S04 S05",   # the name and size last: as crash safe as before
   ("PersistentStorage.h", """        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));
""", """        std::memcpy(&node.data, &object, sizeof(T));
        auto pos = idx.copy(node.idx.data(), node.idx.size());
        while (pos < node.idx.size())
        {
            node.idx[pos++] = '\\0';
        }
        node.size = recordSize;
"""))
eq("stor-open", "S01 S02 S03 S04 S05",
   ("PersistentStorage.cpp", """    if (init)
    {
        std::memset(buffer_.begin(), 0, buffer_.size());
    }
    else
    {
        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size >= sizeof(NodeDescriptor)
              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
        {
            free_head_ += getNodeDescriptor(free_head_).size;
        }
    }
""", """    if (init)
    {
        for (auto &b: buffer_)
        {
            b = 0;
        }
        return;
    }
    for (;;)
    {
        const std::size_t rest = buffer_.size() - free_head_;
        if (rest < sizeof(NodeDescriptor))
        {
            break;
        }
        const std::size_t recordSize = getNodeDescriptor(free_head_).size;
        if (recordSize < sizeof(NodeDescriptor) || recordSize > rest)
        {
            break;
        }
        free_head_ += recordSize;
    }
"""))
eq("stor-name", "S01 S02 S03 S04",
   ("PersistentStorage.h", """    auto effectiveLength = rhs.size();
    if (std::string_view(std::begin(lhs), effectiveLength) != rhs)
    {
        return false;
    }
    for (auto pos = effectiveLength; pos < lhs.size(); ++pos)
    {
        if (lhs[pos] != '\\0')
        {
            return false;
        }
    }

    return true;
""", """    for (std::size_t pos = 0; pos < N; ++pos)
    {
        if (lhs[pos] != (pos < rhs.size() ? rhs[pos] : '\\0'))
        {
            return false;
        }
    }
    return true;
"""))
# ---------------------------------------------------------------- graphics
eq("canvas-clipped-spans", "V01 V02 V03 V04 V05",
   ("graphics/Canvas.cpp", """    for (int i = 0; i < line_width; ++i, ++startPos.x)
    {
        setIfVisible(startPos);
    }
""", """    if (startPos.y < 0 || startPos.y >= size.height)
    {
        return;
    }
    const long long from = std::max<long long>(startPos.x, 0);
    const long long to = std::min<long long>(static_cast<long long>(startPos.x) + line_width, size.width);
    for (long long x = from; x < to; ++x)
    {
        frameBuffer.drawPixel(static_cast<int>(x), startPos.y);
    }
"""), ("graphics/Canvas.cpp", """    for (int i = 0; i < line_height; ++i, ++startPos.y)
    {
        setIfVisible(startPos);
    }
""", """    const auto endY = startPos.y + line_height;
    while (startPos.y < endY)
    {
        setIfVisible(startPos);
        ++startPos.y;
    }
"""))
eq("canvas-rect-order", "V01 V02 V04 N02",
   ("graphics/Canvas.cpp", """    drawHorizontalLine(rect.topLeft, rect.size.width);
    drawHorizontalLine(rect.bottomLeft(), rect.size.width);
    drawVerticalLine(rect.topLeft, rect.size.height);
    drawVerticalLine(rect.topRight(), rect.size.height);
""", """    const auto [width, height] = rect.size;
    drawVerticalLine(rect.topRight(), height);
    drawVerticalLine(rect.topLeft, height);
    if (width > 2)
    {
        drawHorizontalLine(rect.bottomLeft() + Size { 1, 0 }, width - 2);
        drawHorizontalLine(rect.topLeft + Size { 1, 0 }, width - 2);
    }
"""))
eq("canvas-filled", "V01 V02 V04",
   ("graphics/Canvas.cpp", """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }
""", """    const auto height = bottomRight.y - topLeft.y + 1;
    for (; topLeft.x <= bottomRight.x; ++topLeft.x)
    {
        drawVerticalLine(topLeft, height);
    }
"""))
eq("canvas-circle", "V01 V02 V05",
   ("graphics/Canvas.cpp", """        setIfVisible(center + Size { -xPos, yPos });
        setIfVisible(center + Size { xPos, yPos });
        setIfVisible(center + Size { xPos, -yPos });
        setIfVisible(center + Size { -xPos, -yPos });
        if (filled)
        {
            drawHorizontalLine(center + Size { xPos, yPos }, 2 * (-xPos) + 1);
            drawHorizontalLine(center + Size { xPos, -yPos }, 2 * (-xPos) + 1);
        }
""", """        if (filled)
        {
            drawHorizontalLine(center + Size { xPos, yPos }, 1 - 2 * xPos);
            drawHorizontalLine(center + Size { xPos, -yPos }, 1 - 2 * xPos);
        }
        else
        {
            for (const int signX: { -1, 1 })
            {
                for (const int signY: { -1, 1 })
                {
                    setIfVisible({ center.x + signX * xPos, center.y + signY * yPos });
                }
            }
        }
"""))
eq("canvas-line-endpoints", "V01 V02 V03",
   ("graphics/Canvas.cpp", """    if (diffX == 0)
    {
        drawVerticalLine({ start.x, std::min(start.y, end.y) }, diffY + 1);
        return;
    }

    if (diffY == 0)
    {
        drawHorizontalLine({ std::min(start.x, end.x), start.y }, diffX + 1);
        return;
    }
""", """    if (diffY == 0 && diffX != 0)
    {
        drawHorizontalLine({ std::min(start.x, end.x), start.y }, diffX + 1);
        return;
    }

    if (diffX == 0)
    {
        drawVerticalLine({ start.x, std::min(start.y, end.y) }, diffY + 1);
        return;
    }
"""), ("graphics/Canvas.cpp", """    while (longCoord <= longMax)
    {
        setIfVisible(start);
""", """    for (auto steps = longDiff; steps >= 0; --steps)
    {
        drawVisible(start);
"""), ("graphics/Canvas.cpp", "void Canvas::drawHorizontalLine(", "void Canvas::drawVisible(const Point &point)\n{\n    setIfVisible(point);\n}\n\nvoid Canvas::drawHorizontalLine("),
   ("graphics/Canvas.h", "    void drawVerticalLine(Point", "    void drawVisible(const Point &point);\n    void drawVerticalLine(Point"))
eq("canvas-char", "V01 V02 V06 V07 R01 N01 N02 N03",
   ("graphics/Canvas.cpp", """    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }
        }
    }
""", """    unsigned mask = 0x80;
    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if (*ptr & mask)
            {
                setIfVisible(matrix * Point { pos.x + i, pos.y + j } + shifts);
            }
            mask >>= 1;
            if (mask == 0)
            {
                mask = 0x80;
                ++ptr;
            }
        }
    }
"""))
eq("canvas-transform", "V01 V02 V03 V04 V05 V06",
   ("graphics/Canvas.cpp", """    //return getTransformMatrix()*pos + getShifts();
    switch (rotate)
    {
        case Rotation::Rotation90:
            return { size.width - 1 - pos.y, pos.x };
        case Rotation::Rotation180:
            return { size.width - 1 - pos.x, size.height - 1 - pos.y };
        case Rotation::Rotation270:;
            return { pos.y, size.height - 1 - pos.x };
        default:
            return { pos.x, pos.y };
    }
""", "    return getTransformMatrix() * pos + getShifts();\n"))
eq("frame-rows", "F01 F02 V01 N02 N03",
   ("graphics/SimpleFrameBuffer.h", """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }
""", """        for (int y = 0; y < height; ++y)
        {
            for (int x = 0; x < effectiveWidth; ++x)
            {
                drawPixel(x, y, color);
            }
        }
"""), ("graphics/SimpleFrameBuffer.h", """            buffer[pixelOffset] = color >> 24;
            buffer[pixelOffset + 1] = (color >> 16) & 0xFF;
            buffer[pixelOffset + 2] = (color >> 8) & 0xFF;
            buffer[pixelOffset + 3] = color & 0xFF;
""", """            for (int i = 0; i < 4; ++i)
            {
                buffer[pixelOffset + i] = uint8_t(color >> (24 - 8 * i));
            }
"""), ("graphics/SimpleFrameBuffer.h", """            buffer[pixelOffset] &= ~mask;
            buffer[pixelOffset] |= (color & 15) << (4 - (posX % 2) * 4);
""", """            const auto value = (color & 15) * 0x11;
            buffer[pixelOffset] = (buffer[pixelOffset] & ~mask) | (value & mask);
"""))
eq("frame-memset", "F01 F02 V01",
   ("graphics/SimpleFrameBuffer.h", """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }
""", """        if constexpr (colorDepth == 8)
        {
            buffer.fill(static_cast<uint8_t>(color));
            return;
        }
        if constexpr (colorDepth == 1)
        {
            buffer.fill(color != 0 ? 0xFF : 0);
            return;
        }
        for (int i = 0; i < effectiveWidth * height; ++i)
        {
            drawPixel(i % effectiveWidth, i / effectiveWidth, color);
        }
"""))
eq("font-lookup", "R01 V06 V07 N01 N03",
   ("graphics/EmbeddedFont.cpp", """    const auto symbol = static_cast<uint8_t>(character);
    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
    {
        return getBitmap(fontDescriptor.first);
    }
    auto pos = symbol - fontDescriptor.first;
    if (symbol > '~' && symbol < 0xA0)
    {
        return getBitmap(fontDescriptor.first);
    }
    if (symbol > '~' && fontDescriptor.first <= '~')
    {
        pos -= (0xA0 - '~' - 1);
    }

    if (pos >= fontDescriptor.glyph.size())
    {
        return getBitmap(fontDescriptor.first);
    }
""", """    auto symbol = static_cast<uint8_t>(character);
    const bool gap = symbol > '~' && symbol < 0xA0;
    if (gap || symbol < fontDescriptor.first || symbol > fontDescriptor.last)
    {
        symbol = fontDescriptor.first;
    }
    std::size_t pos = symbol - fontDescriptor.first - (symbol >= 0xA0 && fontDescriptor.first <= '~' ? 0xA0 - '~' - 1 : 0);
    if (pos >= fontDescriptor.glyph.size())
    {
        pos = 0;
    }
"""))
eq("font-bounds", "V07 N03",
   ("graphics/EmbeddedFont.cpp", """    Rect<int> result{};
    if (view.length() > 0)
    {
""", """    if (view.empty())
    {
        return {};
    }
    Rect<int> result{};
    {
"""), ("graphics/EmbeddedFont.cpp", """        for (std::size_t i = 0; i < view.size(); ++i)
        {
            const auto& bitmap = getBitmap(view[i]);
""", """        for (const char c: view)
        {
            const auto bitmap = getBitmap(c);
"""))
# ---------------------------------------------------------------- Arduino
eq("ard-receive-block", "U01 U02 U03 U04 N01 O01",
   ("arduino/PacketUart.cpp", """        int nextByte = uartDevice.read();
        if (nextByte >= 0)
        {
            buffer[currentPos++] = (uint8_t)nextByte;
        }
        else
        {
            delay(1);
        }
""", """        if (uartDevice.available() <= 0)
        {
            ::delay(1);
            continue;
        }
        buffer[currentPos] = static_cast<uint8_t>(uartDevice.read());
        ++currentPos;
"""))
eq("ard-until-direct", "U01 U02 U03 U04",
   ("arduino/PacketUart.cpp", """    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
    {
        if (buffer[currentPos++] == endByte)
        {
            break;
        }
    }
    uartDevice.setTimeout(oldTimeout);
    return currentPos;
}

uint16_t PacketUart::ReceiveBetween""", """    bool done = bufferSize == 0;
    while (!done)
    {
        uint8_t next;
        if (uartDevice.readBytes(&next, 1) != 1)
        {
            break;
        }
        buffer[currentPos++] = next;
        done = next == endByte || currentPos == bufferSize;
    }
    uartDevice.setTimeout(oldTimeout);
    return currentPos;
}

uint16_t PacketUart::ReceiveBetween"""))
eq("ard-timeout-guard", "U01 U02 U03 U04 U05 O01 N01",
   ("arduino/PacketUart.cpp", "static_assert(sizeof(HardwareSerial)", """namespace
{
class TimeoutGuard
{
public:
    TimeoutGuard(HardwareSerial &device, uint32_t timeout) : device(device), oldTimeout(device.getTimeout())
    {
        if (timeout > 0)
        {
            device.setTimeout(timeout);
        }
    }
    ~TimeoutGuard() { device.setTimeout(oldTimeout); }
private:
    HardwareSerial &device;
    const unsigned long oldTimeout;
};
}

static_assert(sizeof(HardwareSerial)"""),
   ("arduino/PacketUart.cpp", """    auto oldTimeout = uartDevice.getTimeout();
    if (timeoutMilliseconds > 0)
    {
        uartDevice.setTimeout(timeoutMilliseconds);
    }
    auto result = uartDevice.write(buffer, bufferSize);
    uartDevice.flush(false);
    uartDevice.setTimeout(oldTimeout);
    return result;
""", """    const TimeoutGuard guard(uartDevice, timeoutMilliseconds);
    const auto result = uartDevice.write(buffer, bufferSize);
    uartDevice.flush();
    return static_cast<uint16_t>(result);
"""))
eq("ard-send-no-timeout", "U05 O01",
   ("arduino/PacketUart.cpp", """    auto oldTimeout = uartDevice.getTimeout();
    if (timeoutMilliseconds > 0)
    {
        uartDevice.setTimeout(timeoutMilliseconds);
    }
    auto result = uartDevice.write(buffer, bufferSize);
    uartDevice.flush(false);
    uartDevice.setTimeout(oldTimeout);
    return result;
""", """    (void)timeoutMilliseconds; // the stream's time-out has no influence on writing
    const auto result = uartDevice.write(buffer, bufferSize);
    uartDevice.flush(false);
    return result;
"""))
eq("ard-spi-loop", "P01 P02 N01 N02",
   ("arduino/SpiBus.cpp", """    spi.beginTransaction(spiSettings);
    if (in == nullptr)
    {
        if (out != nullptr)
            read(spi, out, length);
    }
    else if (out == nullptr)
    {
        write(spi, in, length);
    }
    else
    {
        readAndWrite(spi, in, out, length);
    }
    spi.endTransaction();
    return true;
""", """    if (in == nullptr && out == nullptr)
    {
        return true;
    }
    spi.beginTransaction(spiSettings);
    for (uint16_t i = 0; i < length; ++i)
    {
        const uint8_t received = spi.transfer(in != nullptr ? in[i] : static_cast<uint8_t>(0xFF));
        if (out != nullptr)
        {
            out[i] = received;
        }
    }
    spi.endTransaction();
    return true;
"""))
eq("ard-spi-whole", "P01 P02 N01 N02",
   ("arduino/SpiBus.cpp", """                const auto dwords = size / 4;
                spi.transferBytes(in, out, dwords * 4);
                if (uint16_t rest = size % 4)
                {
                    readAndWrite(spi, in + dwords * 4, out + dwords * 4, rest);
                }
                return;
""", """                const uint16_t bulk = size & ~3u;
                spi.transferBytes(in, out, bulk);
                for (uint16_t i = bulk; i < size; ++i)
                {
                    out[i] = spi.transfer(in[i]);
                }
                return;
"""), ("arduino/SpiBus.cpp", """                const auto dwords = size / 4;
                spi.transferBytes(in, nullptr, dwords * 4);
                if (uint16_t rest = size % 4)
                {
                    write(spi, in + dwords * 4, rest);
                }
                return;
""", """                spi.writeBytes(in, size);
                return;
"""))
eq("ard-i2c-bytes", "I01 H01 N01",
   ("arduino/I2CDevice.cpp", """    auto result = impl.i2c.write((uint8_t*)data, count);
    return (impl.i2c.endTransmission(true) == 0) && result == count;
""", """    uint16_t written = 0;
    while (written < count && impl.i2c.write(data[written]) == 1)
    {
        ++written;
    }
    const bool acknowledged = impl.i2c.endTransmission() == 0;
    return acknowledged && written == count;
"""), ("arduino/I2CDevice.cpp", """    for (uint16_t i = 0; i < count; ++i) {
        data[i] = impl.i2c.read();
    }
    return true;
""", """    return impl.i2c.readBytes(data, count) == count;
"""))
eq("ard-i2c-reset", "H01",
   ("arduino/I2CBus.cpp", """    uint8_t data = 0x06;
    i2c.beginTransmission(0);
    i2c.write(data);
    i2c.endTransmission();
""", """    constexpr uint8_t generalCallAddress = 0;
    constexpr uint8_t resetCommand[] = { 0x06 };
    i2c.beginTransmission(generalCallAddress);
    i2c.write(resetCommand, sizeof(resetCommand));
    i2c.endTransmission(true);
"""))
eq("ard-gpio", "D01 H01 N01",
   ("arduino/GpioDigitalPin.cpp", """    uint8_t pinType = type == Direction::Input ? INPUT : OUTPUT;
    if (mode == PullMode::Up)
    {
        pinType |= PULLUP;
    }
    else if (mode == PullMode::Down)
    {
        pinType |= PULLDOWN;
    }
    pinMode(gpioPin.pin, pinType);
    return true;
""", """    uint8_t pull = 0;
    switch (mode)
    {
        case PullMode::Up: pull = PULLUP; break;
        case PullMode::Down: pull = PULLDOWN; break;
        case PullMode::None: break;
    }
    pinMode(gpioPin.pin, (type == Direction::Input ? INPUT : OUTPUT) | pull);
    return true;
"""), ("GpioDigitalPin.h", """        if (level)
            set();
        else
            reset();
""", """        level ? set() : reset();
"""))
eq("ard-delay-micro", "L01",
   ("arduino/Delays.cpp", "    ::delayMicroseconds(microseconds);\n", """    const uint32_t start = ::micros();
    while (static_cast<uint32_t>(::micros() - start) < microseconds)
    {
    }
"""))
eq("ser-flush", "O01 N01 U05",
   ("arduino/SerialOut.cpp", """    auto dataView = bufferedOut.data();
    while (dataView.size() > UINT16_MAX)
    {
        uartDevice.Send(dataView.begin(), UINT16_MAX, 100);
        dataView = dataView.subspan(UINT16_MAX);
    }
    uartDevice.Send(dataView.begin(), dataView.size(), 100);
    bufferedOut.clear();
""", """    constexpr std::size_t maxPart = 4096;
    const auto dataView = bufferedOut.data();
    for (std::size_t sent = 0; sent < dataView.size(); sent += maxPart)
    {
        const auto part = dataView.subspan(sent, maxPart);
        uartDevice.Send(part.begin(), static_cast<uint16_t>(part.size()), 100);
    }
    bufferedOut.clear();
"""), ("esp32-esp-idf/SerialOut.cpp", """    auto dataView = bufferedOut.data();
    while (dataView.size() > UINT16_MAX)
    {
        uartDevice.Send(dataView.begin(), UINT16_MAX, 100);
        dataView = dataView.subspan(UINT16_MAX);
    }
    uartDevice.Send(dataView.begin(), dataView.size(), 100);
""", """    auto rest = bufferedOut.data();
    while (!rest.empty())
    {
        const auto part = rest.first(UINT16_MAX);
        uartDevice.Send(part.begin(), static_cast<uint16_t>(part.size()));
        rest = rest.subspan(part.size());
    }
"""))
# ---------------------------------------------------------------- ESP-IDF
eq("esp-until-deadline", "U01 U02 U03 U04",
   ("esp32-esp-idf/PacketUart.cpp", """    const uint32_t startTime = embedded::getMillisecondTicks();
    uint32_t elapsed = 0;
    while ( currentPos < bufferSize
            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
    {
        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
        {
            if (buffer[currentPos++] == endByte)
            {
                break;
            }
        }
    }

    return currentPos;
""", """    const uint32_t startTime = embedded::getMillisecondTicks();
    for (bool finished = false; !finished && currentPos < bufferSize;)
    {
        uint32_t remaining = 0;
        if (timeoutMilliseconds != 0)
        {
            const uint32_t elapsed = embedded::getMillisecondTicks() - startTime;
            if (elapsed >= timeoutMilliseconds)
            {
                break;
            }
            remaining = timeoutMilliseconds - elapsed;
        }
        uint8_t received;
        if (uartDevice.receiveBlocking(&received, 1, remaining) == 1)
        {
            buffer[currentPos++] = received;
            finished = received == endByte;
        }
    }
    return currentPos;
"""))
eq("esp-receive", "U01 U03 U04 U05 O01",
   ("esp32-esp-idf/PacketUart.cpp", """    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
    return result > 0 ? result : 0;
""", """    return static_cast<uint16_t>(std::max(0, uartDevice.receiveBlocking(buffer, bufferSize, timeout)));
"""), ("esp32-esp-idf/SimpleUartDevice.cpp", """    auto result = uart_write_bytes(uartNum, (const char *) data, size);
    if (result > 0)
    {
        uart_wait_tx_done(uartNum, portMAX_DELAY);
    }
    return result;
""", """    const int written = uart_write_bytes(uartNum, data, size);
    if (written <= 0)
    {
        return written;
    }
    uart_wait_tx_done(uartNum, portMAX_DELAY);
    return written;
"""), ("esp32-esp-idf/SimpleUartDevice.cpp", "    const auto delayTicks = timeoutMilliseconds / portTICK_PERIOD_MS;\n", "    const TickType_t delayTicks = pdMS_TO_TICKS(timeoutMilliseconds);\n"))
eq("esp-uart-init", "H01 U05",
   ("esp32-esp-idf/SimpleUartDevice.cpp", """            .baud_rate = baudRate,
            .data_bits = static_cast<uart_word_length_t>(dataBits),
            .parity = static_cast<uart_parity_t>(parityCheck),
            .stop_bits = static_cast<uart_stop_bits_t>(stopBits),
            .flow_ctrl = static_cast<uart_hw_flowcontrol_t>(flowCtrl),
            .rx_flow_ctrl_thresh = static_cast<uint8_t>((flowCtrl == FlowControl::Disable ? 0 : 122)),
            .source_clk = UART_SCLK_APB,
#if __GNUC__ > 8
            .flags = {}
#endif
    };
""", """    };
    uartConfig.baud_rate = baudRate;
    uartConfig.data_bits = static_cast<uart_word_length_t>(dataBits);
    uartConfig.parity = static_cast<uart_parity_t>(parityCheck);
    uartConfig.stop_bits = static_cast<uart_stop_bits_t>(stopBits);
    uartConfig.flow_ctrl = static_cast<uart_hw_flowcontrol_t>(flowCtrl);
    uartConfig.rx_flow_ctrl_thresh = flowCtrl == FlowControl::Disable ? 0 : 122;
    uartConfig.source_clk = UART_SCLK_APB;
"""), ("esp32-esp-idf/SimpleUartDevice.cpp", """    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));
    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));
""", ""), ("esp32-esp-idf/SimpleUartDevice.cpp", """ * 2, 0, 0, nullptr, intrAllocFlags));
""", """ * 2, 0, 0, nullptr, intrAllocFlags));
    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));
    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));
"""))
eq("esp-spi-transmit", "P01 P02 N01 N02",
   ("esp32-esp-idf/SpiBus.cpp", """    spi_transaction_t transaction{};
    transaction.user= nullptr;
    while (length > 0)
    {
        const auto effectiveLength = std::min(length , maxTransferSize);
""", """    while (length > 0)
    {
        spi_transaction_t transaction{};
        const auto effectiveLength = std::min(length , maxTransferSize);
"""), ("esp32-esp-idf/SpiBus.cpp", "spi_device_polling_transmit(", "spi_device_transmit("))
eq("esp-spi-rxlength0", "P01 P02",
   ("esp32-esp-idf/SpiBus.cpp", """        if (sendBytes != nullptr)
        {
            transaction.tx_buffer = sendBytes;
            transaction.length = 8 * effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            transaction.rx_buffer = receiveBytes;
            transaction.rxlength = 8 * effectiveLength;
        }
""", """        const auto bits = 8 * effectiveLength;
        transaction.tx_buffer = sendBytes;
        transaction.rx_buffer = receiveBytes;
        transaction.length = sendBytes != nullptr ? bits : 0;
        transaction.rxlength = receiveBytes != nullptr ? bits : 0;
"""))
eq("esp-spi-cleanup", "P02 P01",
   ("esp32-esp-idf/SpiBus.cpp", """    if (spiDevice != nullptr)
    {
        if (spi_bus_remove_device(spiDevice) != ESP_OK)
        {
            return false;
        }
        spiDevice = nullptr;
    }
    if (initialized)
    {
        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
        {
            return false;
        }
        initialized = false;
    }
    return true;
""", """    bool released = spiDevice == nullptr || spi_bus_remove_device(spiDevice) == ESP_OK;
    if (released)
    {
        spiDevice = nullptr;
        released = !initialized || spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
        initialized = initialized && !released;
    }
    return released;
"""))
eq("esp-i2c-links", "I01 H01 N01",
   ("esp32-esp-idf/I2CDevice.cpp", """    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;
""", """    const i2c_cmd_handle_t cmd = i2c_cmd_link_create();
    i2c_master_start(cmd);
    i2c_master_write_byte(cmd, (deviceAddress << 1) | I2C_MASTER_WRITE, true);
    if (count > 0)
    {
        i2c_master_write(cmd, data, count, true);
    }
    i2c_master_stop(cmd);
    const auto result = i2c_master_cmd_begin(impl.bus, cmd, timeout / portTICK_PERIOD_MS);
    i2c_cmd_link_delete(cmd);
    return result == ESP_OK;
"""), ("esp32-esp-idf/I2CBus.cpp", "10 / portTICK_PERIOD_MS", "pdMS_TO_TICKS(10)"))
eq("esp-gpio", "D01 H01",
   ("esp32-esp-idf/GpioDigitalPin.cpp", """    gpio_config_t conf = {
            .pin_bit_mask = (1ULL<<gpioPin.pin),
            .mode = (type == Direction::Input ? GPIO_MODE_INPUT : GPIO_MODE_OUTPUT),
            .pull_up_en = pullMode == PullMode::Up ? GPIO_PULLUP_ENABLE : GPIO_PULLUP_DISABLE,
            .pull_down_en = pullMode == PullMode::Down ? GPIO_PULLDOWN_ENABLE : GPIO_PULLDOWN_DISABLE,
            .intr_type = GPIO_INTR_DISABLE,
    };

    return gpio_config(&conf) == ESP_OK;
""", """    gpio_config_t conf {};
    conf.pin_bit_mask = BIT64(gpioPin.pin);
    conf.mode = type == Direction::Input ? GPIO_MODE_INPUT : GPIO_MODE_OUTPUT;
    conf.pull_up_en = static_cast<gpio_pullup_t>(pullMode == PullMode::Up);
    conf.pull_down_en = static_cast<gpio_pulldown_t>(pullMode == PullMode::Down);
    conf.intr_type = GPIO_INTR_DISABLE;
    const auto error = gpio_config(&conf);
    return error == ESP_OK;
"""))
eq("esp-adc", "A01",
   ("esp32-esp-idf/AnalogPin.cpp", """        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)
        {
            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
            {
                result = -1;
            }
        }
        adc_oneshot_del_unit(handle);
    }
    return result;
""", """        int value = 0;
        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK
            && adc_oneshot_read(handle, channel, &value) == ESP_OK)
        {
            result = value;
        }
        adc_oneshot_del_unit(handle);
    }
    return result;
"""))
eq("esp-delays", "L01",
   ("esp32-esp-idf/Delays.cpp", "    vTaskDelay(milliseconds / portTICK_PERIOD_MS);\n", "    const TickType_t ticks = milliseconds / portTICK_PERIOD_MS;\n    vTaskDelay(ticks);\n"),
   ("esp32-esp-idf/Delays.cpp", """    if (microseconds){
        auto current = static_cast<uint64_t>(esp_timer_get_time());
        uint64_t expected = current + microseconds;
        if (expected < current)
        {
            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);
        }
        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);
    }
""", """    const auto start = esp_timer_get_time();
    while (esp_timer_get_time() - start < static_cast<int64_t>(microseconds))
    {
    }
"""))
eq("esp-delay-rom", "L01",
   ("esp32-esp-idf/Delays.cpp", "#include <esp_timer.h>\n", "#include <esp_timer.h>\n#include <rom/ets_sys.h>\n"),
   ("esp32-esp-idf/Delays.cpp", """    if (microseconds){
        auto current = static_cast<uint64_t>(esp_timer_get_time());
        uint64_t expected = current + microseconds;
        if (expected < current)
        {
            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);
        }
        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);
    }
""", """    ets_delay_us(microseconds);
"""))
eq("esp-sleep", "L01",
   ("esp32-esp-idf/SleepFunctions.h", """        if (esp_light_sleep_start() != ESP_OK)
        {
            elapsed = getMillisecondTicks() - tickstart;
            if (elapsed < milliseconds)
            {
                delay(milliseconds - elapsed);
            }
        }
""", """        const auto error = esp_light_sleep_start();
        elapsed = getMillisecondTicks() - tickstart;
        if (error != ESP_OK && elapsed < milliseconds)
        {
            delay(milliseconds - elapsed);
        }
"""))
# ---------------------------------------------------------------- converter
eq("conv-bitstream", "K03 K01 K02 K05",
   ("gfx-font-converter/BitStream.h", """        if (bit)
        {
            buffer |= 1 << (7 - bitCount);
        }
        if (++bitCount == 8)
        {
            stream << buffer;
            buffer = 0;
            bitCount = 0;
        }
        return *this;
""", """        buffer = static_cast<uint8_t>(buffer | (bit ? 0x80u >> bitCount : 0u));
        ++bitCount;
        if (bitCount >= 8)
        {
            flush();
        }
        return *this;
"""))
eq("conv-shared", "K04 K01 K05",
   ("gfx-font-converter/EncodingConverter.cpp", None, '''#include "EncodingConverter.h"

#include <cerrno>
#include <cstring>
#include <sstream>

EncodingConverter::EncodingConverter(const char* from, const char* to)
: descriptor(iconv_open(to, from))
{
    if (descriptor == (iconv_t) -1)
    {
        std::stringstream str;
        if (errno == EINVAL)
        {
            str << "conversion from " << from <<" to " << to << " not available";
        }
        else
        {
            str << "iconv_open filed, errno is " << errno;
        }
        throw(std::runtime_error(str.str()));
    }
}

std::string EncodingConverter::convert(char symbol) {
    buf[inSize] = symbol;
    size_t inBufSize = 1 + inSize;
    char outBuf[4] = {};
    size_t outBytesLeft = sizeof(outBuf);
    char *inptr = &buf[0];
    char *outptr = &outBuf[0];
    const auto result = iconv(descriptor, &inptr, &inBufSize, &outptr, &outBytesLeft);
    if (result != (size_t) -1)
    {
        iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
        inSize = 0;
        return std::string(outBuf, outptr);
    }
    if (errno != EINVAL)
    {
        inSize = 0;
        return {};
    }
    ++inSize;
    if (inSize == sizeof(buf))
    {
        inSize = 0;
    }
    return {};
}

uint32_t EncodingConverter::convertRaw(char symbol) {
    const auto text = convert(symbol);
    uint32_t result = 0;
    std::memcpy(&result, text.data(), text.size());
    return result;
}
'''))
eq("conv-write", "K01 K02 K05",
   ("gfx-font-converter/main.cpp", """                    union
                    {
                        GlyphDescriptor glyphDescriptor;
                        std::array<char, sizeof(GlyphDescriptor)> bytes;
                    } descriptor;
                    descriptor.glyphDescriptor = glyph.descriptor;
                    descriptor.glyphDescriptor.bitmapOffset = offset;
                    offset += glyph.bitmapData.size();
                    outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
""", """                    auto descriptor = glyph.descriptor;
                    descriptor.bitmapOffset = offset;
                    offset += glyph.bitmapData.size();
                    outputFile.write(reinterpret_cast<const char*>(&descriptor), sizeof(descriptor));
"""), ("gfx-font-converter/main.cpp", """                for (unsigned y = 0; y < bitmap.rows; ++y)
                {
                    for (unsigned x = 0; x < bitmap.width; ++x)
                    {
                        const auto byte = x / 8;
                        const uint8_t bit = 0x80 >> (x & 7);
                        bitStream << ((bitmap.buffer[y * bitmap.pitch + byte] & bit) != 0);
                    }
                }
                bitStream.flush();
""", """                for (unsigned y = 0; y < bitmap.rows; ++y)
                {
                    const auto* const row = bitmap.buffer + y * bitmap.pitch;
                    for (unsigned x = 0; x < bitmap.width; ++x)
                    {
                        bitStream << static_cast<bool>((row[x >> 3] >> (7 - x % 8)) & 1);
                    }
                }
                bitStream.flush();
"""))
eq("conv-header-format", "K01 K02 K05",   # other white space, same tables
   ("gfx-font-converter/main.cpp", "int bytesInLine = 12,", "int bytesInLine = 16,"),
   ("gfx-font-converter/main.cpp", "embedded::BufferedOut::width { 5 };", "embedded::BufferedOut::width { 6 };"))
eq("conv-streams", "K01 K02 K05",
   ("gfx-font-converter/main.cpp", """    std::array<char, 1024> buffer {};
    embedded::BufferedOut bufferedOut(buffer);
    // Output font structure
    bufferedOut << "const GFXfont " << fontName << " = {\\n";
    bufferedOut << "  " << fontName << "Bitmaps,\\n";
    bufferedOut << "  " << fontName << "Glyphs,\\n";

    bufferedOut << "  0x" << (uint8_t)first << ", 0x" << (uint8_t)last << ", ";
    bufferedOut << verticalShift;
    bufferedOut << " };\\n";

    const auto view = bufferedOut.asStringView();
    outputFile.write(view.data(), view.end() - view.begin());
    closeFile(outputFile, outputFileName);
""", """    // Output font structure
    outputFile << "const GFXfont " << fontName << " = {\\n  " << fontName << "Bitmaps,\\n  " << fontName << "Glyphs,\\n  "
               << std::hex << "0x" << first << ", 0x" << last << ", " << std::dec << verticalShift << " };\\n";
    closeFile(outputFile, outputFileName);
"""))
eq("conv-config", "K01 K02",
   ("gfx-font-converter/FontConverterConfig.cpp", """    for (auto& c : encoding)
    {
        c = static_cast<char>(std::toupper(c));
    }

    if (encoding == "ASCII")
    {
        lastChar = '~';
    }
    else
    {
        lastChar = 0xFF;
    }
""", """    std::transform(encoding.begin(), encoding.end(), encoding.begin(),
                   [](const unsigned char c) { return static_cast<char>(std::toupper(c)); });
    lastChar = encoding == "ASCII" ? '~' : 0xFF;
"""))


lock = threading.Lock()


def run(e, k):
    i, props, edits = e
    d = os.path.join(W, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (REPO, d), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if old is None:
            t = new
        elif t.count(old) != 1:
            return i, "EDIT-FAILS %s (%d matches)" % (f, t.count(old))
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)
    r = subprocess.run("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON >/dev/null 2>&1; ninja -C _build 2>&1 | tail -30", cwd=d, shell=True, capture_output=True, text=True)
    if "error:" in r.stdout:
        return i, "NO-COMPILE " + r.stdout[-1500:]
    for b, wd in (("tests", "_build/tests"), ("graphics-tests", "tests/data")):
        r = subprocess.run([os.path.join(d, "_build/tests", b)], cwd=os.path.join(d, wd), capture_output=True, text=True)
        if r.returncode:
            return i, "TESTS-FAIL " + r.stdout[-800:]
    bad = []
    props = os.environ.get("EQ_PROPS", "").split() or props        # other checks, together with VF_SCALE: only alarms count
    for p in props:
        env = dict(os.environ, VF_REPO=d, VF_NCPU=os.environ.get("EQ_NCPU", "4"), VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([sys.executable, os.path.join(V, "run.py"), p], capture_output=True, text=True, errors="replace", env=env)
        if (r.returncode if "VF_SCALE" not in env else r.returncode == 1) or "VIOLATION" in r.stdout:
            bad.append("%s rc=%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-900:]))
    return i, "quiet " + " ".join(props) if not bad else "NOT QUIET " + "\n".join(bad)


def main():
    a = sys.argv[1:]
    j = 2
    if a and a[0] == "-j":
        j = int(a[1]); a = a[2:]
    rx = a[0] if a else "."
    todo = [e for e in E if re.search(rx, e[0])]
    q, bad = list(todo), []

    def work(k):
        while True:
            with lock:
                if not q:
                    return
                e = q.pop(0)
            r = run(e, k)
            with lock:
                print("%s: %s" % r, flush=True)
                if not r[1].startswith("quiet"):
                    bad.append(r[0])
    with cf.ThreadPoolExecutor(j) as pool:
        list(pool.map(work, range(j)))
    subprocess.run(["rm", "-rf", W])
    print("%d edits, not quiet: %s" % (len(todo), bad))
    sys.exit(bool(bad))


main()
