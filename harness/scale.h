// An actor whose arguments are large: long texts and byte lists, many objects, long lines, big transfers (N07).
#pragma once
#include "devices.h"
namespace work
{
struct LargeText : Actor
{
    std::vector<char> mem; embedded::BufferedOut out;
    explicit LargeText(uint64_t seed) : Actor(seed), mem(size_t(r.range(2000, 150000))), out(embedded::MemoryView<char>(mem.data(), mem.size())) {}
    const char* name() const override { return "large text"; }
    void step() override
    {
        const size_t n = size_t(r.range(0, 3) ? r.range(500, 20000) : r.range(20000, 70000));
        std::vector<uint8_t> bytes(n); for (auto& b: bytes) b = r.byte();
        std::string text; for (size_t i = 0; i < n; ++i) text += char(r.range(1, 127));
        const int w = int(n);
        switch (r.range(0, 7))
        {
        case 0: LIB("<< many bytes", out << embedded::ConstBytesView(bytes.data(), n)); break;
        case 1: LIB("<< long text", out << text.c_str()); break;
        case 2: { std::string_view v(text); LIB("<< long view", out << v); break; }
        case 3: LIB("<< wide number", out << embedded::BufferedOut::width { w } << embedded::BufferedOut::fill { '0' } << w); break;
        case 4: LIB("<< wide long", out << embedded::BufferedOut::width { w } << -(1234567890123ll)); break;
        case 5: LIB("<< precise", out << embedded::BufferedOut::precision { 1 + w % 60 } << 1.25f); break;
        case 6: LIB("<< character", out << 'x'); break;
        default: LIB("clear", out.clear());
        }
        if (out.size() + 1000 > out.capacity()) LIB("clear", out.clear());
        d.add(out.size());
    }
};
struct ManyObjects : Actor
{
    std::vector<uint8_t> mem; std::unique_ptr<embedded::PersistentStorage> store; int known = 0;
    explicit ManyObjects(uint64_t seed) : Actor(seed), mem(size_t(r.range(2000, 20000)))
    {
        LIB("region init", store = std::make_unique<embedded::PersistentStorage>(embedded::BytesView(mem.data(), mem.size())));
        fill(int(r.range(100, 600)));
    }
    const char* name() const override { return "many objects"; }
    static std::string id(int i) { return { char(33 + i % 90), char(33 + i / 90 % 90), char(33 + i / 8100) }; }
    void fill(int n) { for (; n > 0; --n, ++known) { std::string s = id(known); bool ok = false; LIB("store", ok = store->set(std::string_view(s), uint8_t(known))); if (!ok) break; } }
    void step() override
    {
        std::string s = id(int(r.range(0, known)));
        uint64_t got = 0; uint32_t v = uint32_t(r.next());
        switch (r.range(0, 4))
        {
        case 0: LIB("load", if (auto o = store->get<uint8_t>(std::string_view(s))) got = *o + 1u); break;
        case 1: LIB("load other type", if (auto o = store->get<uint32_t>(std::string_view(s))) got = *o); break;
        case 2: LIB("store again", got = store->set(std::string_view(s), uint8_t(v))); break;
        case 3: fill(int(r.range(1, 100))); break;
        default: LIB("reopen", store = std::make_unique<embedded::PersistentStorage>(embedded::BytesView(mem.data(), mem.size()), false));
        }
        d.add(got);
    }
};
struct LongLines : Actor
{
    SimpleFrameBuffer<1000, 1200, 1> fb; Canvas canvas { fb };
    explicit LongLines(uint64_t seed) : Actor(seed) { fb.clear(0); canvas.setColor(1); }
    const char* name() const override { return "long lines"; }
    void step() override
    {
        auto c = [this] { return Canvas::Point { int(r.range(-300, 1500)), int(r.range(-300, 1500)) }; };
        auto p = c(), q = c();
        std::string text; for (int64_t n = r.range(50, 3000); n > 0; --n) text += char(r.range(1, 255));
        LIB("rotation", canvas.setRotation(static_cast<Canvas::Rotation>(r.range(0, 3))));
        switch (r.range(0, 6))
        {
        case 0: LIB("line", canvas.drawLine(p, q)); break;
        case 1: q.y = p.y; LIB("line", canvas.drawLine(p, q)); break;
        case 2: q.x = p.x; LIB("line", canvas.drawLine(p, q)); break;
        case 3: LIB("rectangle", canvas.drawRectangle({ p, Canvas::Size { std::abs(q.x), std::abs(q.y) } })); break;
        case 4: LIB("filled rectangle", canvas.drawFilledRectangle({ p, Canvas::Size { std::abs(q.x), std::abs(q.y) } })); break;
        case 5: { const int radius = std::abs(q.x); LIB("circle", canvas.drawCircle(p, radius, radius % 2)); break; }
        default: LIB("text", canvas.drawStringAt(p, text, r.chance(1, 2) ? latinFont() : embedded::fonts::FreeSans15pt));
        }
        d.add(uint64_t(p.x));
    }
};
struct LongPackets : Actor
{
    std::unique_ptr<sim::World> world = std::make_unique<sim::World>();
    embedded::PacketUart::UartDevice dev { 1 }; embedded::PacketUart port { dev };
    std::vector<char> mem; embedded::SerialOut out;
    std::vector<uint8_t> big;
    explicit LongPackets(uint64_t seed) : Actor(seed), mem(size_t(r.range(2000, 30000))), out(embedded::MemoryView<char>(mem.data(), mem.size()), port), big(65536)
    {
        world->rng.s = r.next(); world->us = 1000000;
        for (auto& b: big) b = r.byte();
    }
    const char* name() const override { return "long packets"; }
    void line(size_t n)
    {
        auto& u = world->uart[1]; uint64_t at = world->us; const bool same = r.chance(1, 3);
        u.line.clear();
        for (size_t i = 0; i < n; ++i) { at += uint64_t(r.range(0, 20)); u.line.push_back({ at, same ? uint8_t(2) : uint8_t(r.chance(1, 2000) ? 3 : r.range(0, 255)) }); }
    }
    void step() override
    {
        WorldScope s(world.get());
        const size_t len = size_t(r.range(500, 8000)); const auto n = uint16_t(len); uint64_t got = 0;
        const auto T = uint16_t(r.range(50, 2000));
        switch (r.range(0, 5))
        {
        case 0: LIB("uart send", got = port.Send(big.data(), n)); break;
        case 1: line(len); LIB("uart receive", got = port.Receive(big.data(), n, T)); break;
        case 2: line(len); LIB("uart until", got = port.ReceiveUntil(big.data(), n, 3, T)); break;
        case 3: line(len); LIB("uart between", got = port.ReceiveBetween(big.data(), n, 2, 3, T)); break;
        case 4: LIB("serial bytes", out << embedded::ConstBytesView(big.data(), len)); break;
        default: LIB("serial end", out << embedded::SerialOut::end {}); world->uart[1].sent.clear();
        }
        d.add(got);
    }
};
}
