// N08: the work of a call is bounded by what it was given.  Library code counts every block it executes and every byte its
// memory and string functions touch; each call, on small and on very large arguments, has to stay below a fixed amount plus
// a multiple of the size of its arguments.
#include <cstddef>
#include <cstdint>
namespace mon
{
inline uint64_t work = 0;
}
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++mon::work; }     // (of the library only where driver stand-ins take part)
#define PLAIN extern "C" __attribute__((no_sanitize_coverage, noinline, used, optimize("no-tree-loop-distribute-patterns")))
namespace mon { bool inDriver(); __attribute__((no_sanitize_coverage)) inline void bytes(size_t n) { if (!inDriver()) work += 1 + n / 8; } }
extern "C" void* counted_memmove(void* d, const void* s, size_t n) asm("memmove");
PLAIN void* counted_memmove(void* d, const void* s, size_t n)
{
    mon::bytes(n);
    auto a = static_cast<unsigned char*>(d); auto b = static_cast<const unsigned char*>(s);
    if (a < b) for (size_t i = 0; i < n; ++i) a[i] = b[i]; else while (n--) a[n] = b[n];
    return d;
}
extern "C" void* counted_memcpy(void* d, const void* s, size_t n) asm("memcpy");
PLAIN void* counted_memcpy(void* d, const void* s, size_t n) { mon::bytes(n); auto a = static_cast<unsigned char*>(d); auto b = static_cast<const unsigned char*>(s); for (size_t i = 0; i < n; ++i) a[i] = b[i]; return d; }
extern "C" void* counted_memset(void* d, int c, size_t n) asm("memset");
PLAIN void* counted_memset(void* d, int c, size_t n) { mon::bytes(n); auto a = static_cast<unsigned char*>(d); for (size_t i = 0; i < n; ++i) a[i] = static_cast<unsigned char>(c); return d; }
extern "C" int counted_memcmp(const void* p, const void* q, size_t n) asm("memcmp");
PLAIN int counted_memcmp(const void* p, const void* q, size_t n)
{
    mon::bytes(n);
    auto a = static_cast<const unsigned char*>(p); auto b = static_cast<const unsigned char*>(q);
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
extern "C" size_t counted_strlen(const char* s) asm("strlen");
PLAIN size_t counted_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; mon::bytes(n); return n; }
#define LIB(name, ...) do { __VA_ARGS__; } while (0)
#include "devices.h"
__attribute__((no_sanitize_coverage)) bool mon::inDriver() { return sim::InMock::depth > 0; }
using namespace vf;

namespace
{
struct Bound { const char* op; uint64_t fixed, each; };
bool show = false;
std::map<std::string, std::pair<double, std::string>> worst;
uint64_t checked = 0;
// runs f; at most fixed + each * size units of work
template<class F> void op(const Bound& b, uint64_t size, F f)
{
    auto& w = sim::w();
    const uint64_t calls = w.driverCalls, before = mon::work;
    f();
    const uint64_t used = mon::work - before, waits = sim::w().driverCalls - calls;
    const uint64_t most = b.fixed + b.each * (size + waits);
    ++checked;
    cov(fmt("calls: %s", b.op).c_str());
    if (size > 1000) cov(fmt("large: %s", b.op).c_str());
    if (show)
    {
        auto& m = worst[b.op]; const double share = double(used) / double(most);
        if (share > m.first) m = { share, fmt("%llu of %llu at size %llu", (unsigned long long)used, (unsigned long long)most, (unsigned long long)size) };
    }
    if (used > most)
        fail("work", fmt("\"%s\" given %llu units to handle did %llu units of work (at most %llu + %llu for each are granted)", b.op, (unsigned long long)size, (unsigned long long)used, (unsigned long long)b.fixed, (unsigned long long)b.each));
}
constexpr uint64_t F = 5000;        // fixed part
int64_t scale(Rng& r) { switch (r.range(0, 3)) { case 0: return r.range(0, 60); case 1: return r.range(0, 2000); case 2: return r.range(0, 20000); default: return r.range(0, 70000); } }

#ifndef VF_DEVICES
void text()
{
    auto& r = rng();
    std::vector<char> mem(size_t(scale(r)));
    embedded::BufferedOut out(embedded::MemoryView<char>(mem.data(), mem.size()));
    std::string s; std::vector<uint8_t> bytes;
    { size_t n = size_t(scale(r)); s.resize(n); bytes.resize(n); for (size_t i = 0; i < n; ++i) { bytes[i] = r.byte(); s[i] = char(1 + bytes[i] % 127); } }
    for (int64_t i = r.range(1, 8); i > 0; --i)
    {
        const size_t room = mem.size() - out.size(); const size_t n = s.size();
        const int wide = int(r.chance(1, 3) ? r.range(1000000, INT32_MAX) : scale(r));
        const size_t pad = std::min(room, size_t(wide));
        const uint64_t v = r.interesting64();
        switch (r.range(0, 9))
        {
        case 0: op({ "text << string", F, 48 }, n, [&] { out << s.c_str(); }); break;
        case 1: op({ "text << view", F, 16 }, n, [&] { out << std::string_view(s); }); break;
        case 2: op({ "text << bytes", F, 80 }, n, [&] { out << embedded::ConstBytesView(bytes.data(), n); }); break;
        case 3: op({ "text << padded int", F, 48 }, pad, [&] { out << embedded::BufferedOut::width { wide } << embedded::BufferedOut::fill { '.' } << int(v); }); break;
        case 4: op({ "text << padded long", F, 48 }, pad, [&] { out << embedded::BufferedOut::width { wide } << (long long)v; }); break;
        case 5: op({ "text << padded unsigned", F, 48 }, pad, [&] { out << embedded::BufferedOut::width { wide } << (unsigned long)v; }); break;
        case 6: { float f = float(int(v)) / 256.f; if (r.chance(1, 3)) { uint32_t b = uint32_t(v); memcpy(&f, &b, 4); }
                  op({ "text << float", F, 80 }, pad, [&] { out << embedded::BufferedOut::precision { wide } << f; }); break; }
        case 7: op({ "text << byte", F, 0 }, 0, [&] { out << uint8_t(v) << char(v); }); break;
        case 8: op({ "text read", F, 0 }, 0, [&] { if (out.asStringView().size() + out.data().size() + out.capacity() == 1) out.addChar('a'); }); break;
        default: op({ "text clear", F, 0 }, 0, [&] { out.clear(); });
        }
    }
}

struct Wide { uint8_t b[9000]; };
struct Some { uint8_t b[40]; };
void storage()
{
    auto& r = rng();
    std::vector<uint8_t> mem(size_t(scale(r)));
    uint64_t objects = 0, known = 0;
    const embedded::BytesView region(mem.data(), mem.size());
    const bool damaged = r.chance(1, 4);
    if (damaged)
    {   // chains of the smallest records, of none, of anything
        int kind = int(r.range(0, 3));
        for (size_t at = 0; at + 6 <= mem.size();)
        {
            uint16_t size = uint16_t(kind == 0 ? 6 : kind == 1 ? r.range(0, 12) : kind == 2 ? r.range(6, 9) : r.range(0, 65535));
            memcpy(&mem[at], &size, 2); mem[at + 2] = uint8_t(r.range(33, 120)); at += size < 6 ? 6 : size; if (size < 6 && kind == 1) break;
        }
        objects = mem.size() / 6 + 1;
    }
    std::optional<embedded::PersistentStorage> store;
    if (damaged) op({ "region reopen", F, 60 }, objects, [&] { store.emplace(region, false); });
    else op({ "region init", F, 8 }, mem.size(), [&] { store.emplace(region, true); });
    auto id = [](uint64_t i) { return std::string { char(33 + i % 90), char(33 + i / 90 % 90), char(33 + i / 8100) }; };
    const uint64_t fill = uint64_t(scale(r)) / 8;
    for (uint64_t i = 0; i < fill && known < 9000; ++i)
    {   // filled without the library where many are wanted (the library looks every name up)
        if (i >= 60 && !damaged) break;
        std::string s = id(known); bool ok = false;
        op({ "store new", F, 120 }, objects + 1, [&] { ok = store->set(std::string_view(s), uint8_t(known)); });
        if (!ok || i > 300) break;
        ++known; ++objects;
    }
    if (!damaged && known == 60)
    {
        size_t at = 60 * 7;
        for (; at + 7 <= mem.size() && known < fill; at += 7, ++known) { uint16_t size = 7; memcpy(&mem[at], &size, 2); auto s = id(known); memcpy(&mem[at + 2], s.data(), 3); mem[at + 5] = 0; mem[at + 6] = uint8_t(known); }
        objects = known;
        op({ "region reopen", F, 60 }, objects, [&] { store.emplace(region, false); });
    }
    auto& s = *store;
    for (int64_t i = r.range(1, 10); i > 0; --i)
    {
        std::string nm = id(uint64_t(r.range(0, int64_t(known) + 1)));
        if (r.chance(1, 6)) nm.assign(size_t(scale(r)), 'n');
        const std::string_view name(nm); const uint8_t v = r.byte(); uint64_t got = 0;
        const uint64_t look = objects + nm.size() / 8 + 1;
        static Wide wide; static Some some;
        switch (r.range(0, 7))
        {
        case 0: op({ "load", F, 120 }, look, [&] { if (auto o = s.get<uint8_t>(name)) got = *o; }); break;
        case 1: op({ "load large", F, 120 }, look + sizeof(Wide), [&] { if (auto o = s.get<Wide>(name)) got = o->b[8]; }); break;
        case 2: op({ "load other type", F, 120 }, look, [&] { if (auto o = s.get<uint64_t>(name)) got = *o; }); break;
        case 3: { bool ok = false; op({ "store large", F, 120 }, look + sizeof(Wide), [&] { ok = s.set(name, wide); }); objects += ok; break; }
        case 4: { bool ok = false; op({ "store", F, 120 }, look + sizeof(Some), [&] { ok = s.set(name, some); }); objects += ok; break; }
        case 5: { bool ok = false; op({ "store", F, 120 }, look, [&] { ok = s.set(name, v); }); objects += ok; break; }
        case 6: op({ "region reopen", F, 60 }, objects, [&] { store.emplace(region, false); }); break;
        default: op({ "load", F, 120 }, look, [&] { if (auto o = s.get<Some>(name)) got = o->b[1]; });
        }
    }
}

template<class FB> void canvasOn()
{
    auto& r = rng();
    auto fb = std::make_unique<FB>(); Canvas canvas(*fb);
    const int w = fb->getWidth(), h = fb->getHeight(); const uint64_t area = uint64_t(w) * uint64_t(h);
    op({ "clear", F, 48 }, area, [&] { canvas.clear(uint32_t(r.next())); });
    for (int64_t i = r.range(1, 12); i > 0; --i)
    {
        auto coord = [&](int n) { return int(r.chance(1, 4) ? r.range(-70000, 70000) : r.chance(1, 3) ? r.range(-2000, 2000) : r.range(-n / 2, n + n / 2)); };
        const Canvas::Point a { coord(w), coord(h) }; Canvas::Point b { coord(w), coord(h) };
        if (r.chance(1, 4)) b.x = a.x; else if (r.chance(1, 4)) b.y = a.y;
        const Canvas::Size size { int(scale(r)), int(scale(r)) };
        const uint64_t extent = uint64_t(size.width) + uint64_t(size.height);
        const int radius = int(scale(r));
        const uint64_t length = uint64_t(std::max(std::abs(a.x - b.x), std::abs(a.y - b.y))) + 1;
        op({ "rotation", F, 0 }, 0, [&] { canvas.setRotation(static_cast<Canvas::Rotation>(r.range(0, 3))); });
        const auto& font = r.chance(1, 2) ? work::latinFont() : embedded::fonts::FreeSans15pt;
        std::string text(size_t(scale(r)) / 4, ' '); for (auto& c: text) c = char(r.byte());
        switch (r.range(0, 9))
        {
        case 0: case 1: op({ "line", F, 120 }, length, [&] { canvas.drawLine(a, b); }); break;
        case 2: op({ "rectangle", F, 120 }, extent * 2, [&] { canvas.drawRectangle({ a, size }); }); break;
        case 3: op({ "filled rectangle", F, 120 }, area + extent, [&] { canvas.drawFilledRectangle({ a, size }); }); break;
        case 4: op({ "circle", F, 800 }, uint64_t(radius), [&] { canvas.drawCircle(a, radius); }); break;
        case 5: { const int small = std::min(radius, 700); op({ "filled circle", F, 300 }, uint64_t(small) * uint64_t(small) + uint64_t(small), [&] { canvas.drawCircle(a, small, true); }); break; }
        case 6: op({ "text", F, 24000 }, text.size(), [&] { canvas.drawStringAt(a, text, font); }); break;
        case 7: op({ "text bounds", F, 400 }, text.size(), [&] { if (font.getTextBounds(text).size.width == -1) canvas.setColor(1); }); break;
        case 8: op({ "glyph", F, 24000 }, 1, [&] { canvas.setColor(canvas.drawCharAt(a, char(radius), font) ? 3 : 1); }); break;
        default: op({ "pixel", F, 0 }, 0, [&] { canvas.drawPixel(a); canvas.drawPixel({ w / 2, h / 2 }); });
        }
        op({ "canvas asked", F, 0 }, 0, [&] { if (canvas.getSize().width == 1 && canvas.getImage().size() == 1 && canvas.getRotation() == Canvas::Rotation::Rotation90) canvas.setColor(1); });
    }
}
void canvas()
{
    switch (rng().range(0, 5))
    {
    case 0: canvasOn<SimpleFrameBuffer<1000, 300, 1>>(); break;
    case 1: canvasOn<SimpleFrameBuffer<40, 900, 2>>(); break;
    case 2: canvasOn<SimpleFrameBuffer<64, 48, 4>>(); break;
    case 3: canvasOn<SimpleFrameBuffer<300, 200, 8>>(); break;
    case 4: canvasOn<SimpleFrameBuffer<33, 25, 16>>(); break;
    default: canvasOn<SimpleFrameBuffer<200, 400, 32>>();
    }
}
void values()
{
    auto& r = rng();
    std::vector<uint32_t> mem(size_t(scale(r)) + 1);
    embedded::MemoryView<uint32_t> v(mem.data(), mem.size());
    const size_t a = size_t(scale(r)), b = size_t(scale(r)); uint32_t x = uint32_t(r.next());
    op({ "view parts", F, 0 }, 0, [&] { auto s = v.subspan(a, b).first(b).last(a); auto y = s.as_bytes(); if (!y.empty() && y.size() == 9) mem[0] = y[0]; });
    op({ "byte order", F, 0 }, 0, [&] { x = embedded::changeEndianess(x); embedded::changeEndianess16x2(&x); mem[0] = x; });
}
#else
void port()
{
    auto& r = rng(); auto& w = sim::w();
    embedded::PacketUart::UartDevice dev(1); embedded::PacketUart port(dev);
    std::vector<uint8_t> buf(size_t(std::min<int64_t>(scale(r), 65535)) + 1);
    auto& u = w.uart[1];
    for (int64_t i = r.range(1, 5); i > 0; --i)
    {
        const size_t n = buf.size() - 1; uint64_t handled = n;
        for (auto& b: buf) b = r.byte();
        // everything is on the line already: no call has to wait for it
        const size_t ready = size_t(scale(r)) / 2; u.line.resize(u.taken);
        const bool ends = ready > 1 && r.chance(1, 2);
        for (size_t k = 0; k < ready; ++k) u.line.push_back({ w.us, uint8_t(r.range(4, 255)) });
        if (ends) { u.line[u.taken + size_t(r.range(0, int64_t(ready) - 2))].value = 2; u.line.back().value = 3; }
        const bool enough = ready >= n; uint64_t calls = w.driverCalls; const char* what = ""; bool waits = false;
        auto limit = [&](bool noWait) { waits = !noWait; w.cost = noWait ? 1 : 200; return uint16_t(noWait ? 60000 : 400); };
        switch (r.range(0, 4))
        {
        case 0: op({ what = "uart send", F, 80 }, n, [&] { port.Send(buf.data(), uint16_t(n)); }); break;
        case 1: { const auto T = limit(enough); op({ what = "uart receive", F, 120 }, n, [&] { port.Receive(buf.data(), uint16_t(n), T); }); break; }
        case 2: { const auto T = limit(enough || ends); op({ what = "uart until", F, 120 }, n, [&] { port.ReceiveUntil(buf.data(), uint16_t(n), 3, T); }); break; }
        case 3: { const auto T = limit(ends); handled = n + ready; op({ what = "uart between", F, 120 }, handled, [&] { port.ReceiveBetween(buf.data(), uint16_t(n), 2, 3, T); }); break; }
        default:
        {
            std::vector<char> mem(size_t(scale(r)) + 1);
            embedded::SerialOut out(embedded::MemoryView<char>(mem.data(), mem.size()), port);
            op({ "serial text", F, 80 }, n, [&] { out << embedded::ConstBytesView(buf.data(), n) << "text"; });
            handled = mem.size(); calls = w.driverCalls;
            op({ what = "serial end", F, 80 }, handled, [&] { out << embedded::SerialOut::end {}; });
        }
        }
        calls = w.driverCalls - calls;
        if (!waits)
        {
            cov("driver calls bounded");
            if (calls > 100 + 12 * handled) fail("driver-calls", fmt("\"%s\" of %llu bytes made %llu driver calls although nothing had to be waited for", what, (unsigned long long)handled, (unsigned long long)calls));
        }
    }
}
void buses()
{
    auto& r = rng(); auto& w = sim::w();
    auto limit = [&](const char* what, uint64_t size, uint64_t before) {
        cov("driver calls bounded");
        if (w.driverCalls - before > 100 + 12 * size) fail("driver-calls", fmt("\"%s\" of %llu bytes made %llu driver calls", what, (unsigned long long)size, (unsigned long long)(w.driverCalls - before)));
    };
    embedded::GpioPinDefinition a { uint8_t(r.range(0, 30)) };
#ifdef VF_ESP
    embedded::GpioPinDefinition b { 31 }, c { 32 };
    embedded::SpiBus bus(1); bool up = false;
    op({ "spi init", F, 0 }, 0, [&] { up = bus.init(a, b, c, 1000000, embedded::SpiBus::DuplexMode::Full); });
    if (!up) fail("harness", "the bus could not be set up");
#else
    SPIClass spi; embedded::SpiBus bus(spi);
#endif
#ifdef VF_ESP
    simesp::i2c[1] = {}; auto& wire = simesp::i2c[1].wire;
    embedded::I2CBus two(1); op({ "i2c init", F, 0 }, 0, [&] { two.init(21, 22, 100000); });
#else
    TwoWire lines; auto& wire = lines.wire; embedded::I2CBus two(lines);
#endif
    wire.present.insert(0x42); wire.dataSeed = r.next();
    embedded::I2CDevice i2c(two, uint16_t(0x42));
    embedded::SpiDevice dev(bus);
    embedded::GpioDigitalPin pin(a); embedded::AnalogPin analog(a);
    std::vector<uint8_t> out(size_t(std::min<int64_t>(scale(r), 60000)) + 1, 1), in(out.size());
    const auto n = uint16_t(out.size()); int got = 0;
    for (int64_t i = r.range(1, 6); i > 0; --i)
    {
        const uint64_t before = w.driverCalls;
        const auto k = uint16_t(std::min<int64_t>(scale(r) + 1, n));
        switch (r.range(0, 7))
        {
        case 5: op({ "i2c send", F, 120 }, k, [&] { got += i2c.sendSync(out.data(), k); }); limit("i2c send", k, before); break;
        case 6: op({ "i2c receive", F, 120 }, k, [&] { got += i2c.receiveSync(in.data(), k); }); limit("i2c receive", k, before); break;
        case 7: op({ "i2c exchange", F, 120 }, uint64_t(k) + n / 2 + 1, [&] { got += i2c.sendThenReceive(out.data(), k, in.data(), uint16_t(n / 2 + 1)); }); limit("i2c exchange", uint64_t(k) + n / 2 + 1, before); break;
        case 0: op({ "spi send", F, 120 }, n, [&] { got += dev.sendSync(out.data(), n); }); limit("spi send", n, before); break;
        case 1: op({ "spi exchange", F, 120 }, n, [&] { got += dev.sendAndReceive(out.data(), in.data(), n); }); limit("spi exchange", n, before); break;
        case 2: op({ "pin", F, 0 }, 0, [&] { got += pin.init(); pin.set(); pin.reset(); got += pin.check(); }); limit("pin", 0, before); break;
        case 3: op({ "chip select", F, 0 }, 0, [&] { embedded::ChipSelector cs(pin); ++got; }); limit("chip select", 0, before); break;
        default: op({ "analog", F, 0 }, 0, [&] { got += analog.singleRead(); }); limit("analog", 0, before);
        }
    }
    sigAdd(uint64_t(got));
}
#endif
}

int main(int argc, char** argv)
{
    show = getenv("VF_EFFORT") != nullptr;
    return run(argc, argv, [] {
        auto& r = rng();
        sim::reset(r.next()); sim::w().us = 1000000;
        checked = 0;
#ifdef VF_DEVICES
#ifdef VF_ESP
        simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::pinSetup.clear();
        for (auto& u: simesp::uartSetup) u = {};
#endif
        if (r.chance(1, 2)) port(); else buses();
#else
        switch (r.range(0, 9))
        {
        case 0: case 1: case 2: text(); break;
        case 3: case 4: case 5: storage(); break;
        case 6: values(); break;
        default: canvas();
        }
#endif
        cov("calls bounded", checked);
        if (checked) nontrivial();
        sigAdd(checked); sigAdd(mon::work);
        trace("%llu calls, %llu units of work", (unsigned long long)checked, (unsigned long long)mon::work);
        if (show) { static int k = 0; if (++k % 500 == 0) for (auto& [n, m]: worst) fprintf(stderr, "EFFORT %-22s %.3f %s\n", n.c_str(), m.first, m.second.c_str()); }
    });
}
