// U01..U05, O01: packet reception/sending and serial output on both platform back-ends over a simulated port.
#include "sim.h"
#ifdef VF_ESP
#include "esp32-esp-idf/PacketUartImpl.h"
#include "freertos/FreeRTOS.h"
static const uint64_t TICK_US = SIM_TICK_MS * 1000;
#else
#include "arduino/PacketUartImpl.h"
static const uint64_t TICK_US = 1000;
#endif
#include "SerialOut.h"
#include <cstdint>
using namespace vf;
using embedded::PacketUart;

namespace
{
enum Kind { Rx, Until, Between };
const char* kindName[] = { "Receive", "ReceiveUntil", "ReceiveBetween" };

struct Scenario
{
    PacketUart::UartDevice dev { 1 };
    PacketUart port { dev };
    uint8_t start = 0x02, end = 0x03;
    size_t cursor = 0;                 // next byte of the line to be returned
    uint64_t callAt = 0, doneAt = 0, preempted = 0;
    unsigned long setting = 1000;      // Arduino stream time-out
    sim::Uart& u() { return sim::w().uart[1]; }

    void clockAndCosts(bool preempt, uint32_t shortest)
    {
        auto& w = sim::w(); auto& r = rng();
        switch (r.range(0, 7))
        {
        case 0: w.us = uint64_t(r.range(0, 5000000)); break;
        case 1: case 2: case 3: // the millisecond counter rolls over during the scenario
            w.us = ((uint64_t(r.range(1, 3)) << 32) - uint64_t(r.range(0, 1 + 3 * int64_t(shortest)))) * 1000 - uint64_t(r.range(0, 999)); break;
        case 4: w.us = ((1ull << 31) - uint64_t(r.range(0, 300))) * 1000; break;
        case 5: w.us = (uint64_t(r.range(1, 2000)) << 32) - uint64_t(r.range(0, 300000)); break;    // microseconds
        default: w.us = r.next() % (1ull << 45); break;
        }
        w.cost = uint64_t(r.pick({ 1, 3, 20, 100, 300 }));
        if (preempt && r.chance(1, 3)) { w.preemptOneIn = int(r.range(3, 60)); w.preemptMax = uint64_t(r.range(100, 40000)); }
    }
    void makeLine(size_t n, int alphabet, std::vector<uint32_t> timeouts)
    {
        auto& r = rng();
        if (n > 12) for (auto& t: timeouts) t = std::min(t, 1000u);       // bounds the length of the story
        uint64_t at = sim::w().us - std::min<uint64_t>(sim::w().us, uint64_t(r.range(0, 30000)));
        int style = int(r.range(0, 4));
        for (size_t i = 0; i < n; ++i)
        {
            switch (style == 4 ? int(r.range(0, 3)) : style)
            {
            case 0: at += uint64_t(r.range(0, 100)); break;
            case 1: at += uint64_t(r.range(100, 20000)); break;
            case 2: { uint64_t t = r.pick(timeouts); at += t * 1000 / uint64_t(r.range(1, 12)) + uint64_t(r.range(0, 2000)); break; }
            default: at += r.chance(1, 5) ? uint64_t(r.pick(timeouts)) * 1000 + uint64_t(r.range(0, 3000)) : uint64_t(r.range(50, 600)); break;
            }
            uint8_t v;
            switch (r.range(0, 9))
            {
            case 0: v = start; break;
            case 1: v = end; break;
            case 2: v = r.byte(); break;
            default: v = uint8_t(0x41 + r.range(0, alphabet)); break;
            }
            u().line.push_back({ at, v });
        }
    }
    int64_t findFrom(size_t p, uint8_t v) { for (; p < u().line.size(); ++p) if (u().line[p].value == v) return int64_t(p); return -1; }

    struct Result { uint16_t n; bool complete; };
    // time-out 0 has no stated limit: used only where the line brings what completes the call
    bool mayUseZero(Kind k, size_t size)
    {
        size_t left = u().line.size() - cursor;
        if (k == Rx) return true;
        if (k == Until) return size == 0 || left >= size || findFrom(cursor, end) >= 0;
        int64_t s = findFrom(cursor, start);
        return size < 2 || (s >= 0 && (u().line.size() - size_t(s) >= size || findFrom(size_t(s) + 1, end) >= 0));
    }
    Result call(Kind k, uint8_t* buf, uint16_t size, uint16_t T)
    {
        auto& w = sim::w();
        uint64_t lastArrival = u().line.empty() ? w.us : u().line.back().at;
        callAt = w.us;
        uint64_t limit = T ? T : uint64_t(setting) + 20;
        w.deadline = std::max(w.us, lastArrival) + (limit + 200) * 1000 + 4 * TICK_US + 200 * w.cost;
        if (u().line.size() > 10000) w.deadline += 8 * w.cost * u().line.size() + (w.preemptOneIn ? 1000000000 : 0);
        if (w.preemptOneIn) w.deadline += 60000000;
        uint64_t p0 = w.preempted;
        const bool leaveOut = k == Rx && T == 200 && rng().chance(1, 2);
        if (leaveOut) cov("limits left out");
        uint16_t n = k == Rx ? leaveOut ? port.Receive(buf, size) : port.Receive(buf, size, T)
                   : k == Until ? port.ReceiveUntil(buf, size, end, T)
                                : port.ReceiveBetween(buf, size, start, end, T);
        doneAt = w.us; preempted = w.preempted - p0;
        w.deadline = UINT64_MAX;
        bool complete = false;
        if (n >= size) complete = true;
        else if (k == Until) complete = n > 0 && buf[n - 1] == end;
        else if (k == Between) complete = size < 2 || (n > 1 && buf[n - 1] == end);
        if (tracing()) trace("%s(size %u, T %u) at %llu us -> %u [%s] in %llu us; ", kindName[k], size, T, (unsigned long long)callAt, n, hex(buf, std::min<size_t>(n, size)).c_str(), (unsigned long long)(doneAt - callAt));
        return { n, complete };
    }
    // U01 (and the content part of U04): what was returned is what came, from the cursor on
    void judgeContent(Kind k, const uint8_t* buf, uint16_t n)
    {
        auto& line = u().line;
        size_t from = cursor;
        if (k == Between)
        {
            int64_t s = findFrom(cursor, start);
            if (n == 0)
            {
                size_t upTo = std::max(cursor, u().taken);
                VF_CHECK(s < 0 || size_t(s) >= upTo, "start-byte-lost", "%s returned nothing but consumed the start byte at position %lld of the line", kindName[k], (long long)s);
                cursor = upTo;
                return;
            }
            VF_CHECK(s >= 0, "invented-packet", "ReceiveBetween returned %u bytes [%s] though no start byte came", n, hex(buf, n).c_str());
            from = size_t(s);
        }
        VF_CHECK(from + n <= line.size(), "invented-bytes", "%s returned %u bytes [%s], only %zu had come", kindName[k], n, hex(buf, n).c_str(), line.size() - from);
        for (size_t i = 0; i < n; ++i)
        {
            VF_CHECK(buf[i] == line[from + i].value, "bytes-differ", "%s: byte %zu is %02x, the line brought %02x (position %zu); returned [%s]", kindName[k], i, buf[i], line[from + i].value, from + i, hex(buf, n).c_str());
            VF_CHECK(line[from + i].at <= doneAt, "bytes-early", "%s: byte %zu returned before it arrived", kindName[k], i);
        }
        cursor = from + n;
    }
    void judgeStop(Kind k, const uint8_t* buf, uint16_t n, uint16_t size)
    {
        if (k == Rx || n == 0) return;
        size_t first = 0;
        if (k == Between)
        {
            VF_CHECK(buf[0] == start, "no-start-byte", "ReceiveBetween result does not begin with the start byte: [%s]", hex(buf, n).c_str());
            first = 1;
        }
        for (size_t i = first; i + 1 < n; ++i)
            VF_CHECK(buf[i] != end, "beyond-end-byte", "%s continued past the end byte at %zu: [%s]", kindName[k], i, hex(buf, n).c_str());
        if (n > first && buf[n - 1] == end) cov("ended with the end byte");
        else if (n == size) cov("ended for lack of room");
        else cov("ended by time");
    }
    void judgeTime(Kind k, Result r, uint16_t T)
    {
        auto& w = sim::w();
        uint64_t spent = doneAt - callAt;
        uint64_t tol = 2 * TICK_US;
        if (!r.complete)
        {
            VF_CHECK(spent + tol >= uint64_t(T) * 1000, "gave-up-early", "%s with a limit of %u ms gave up after %llu us with %u bytes (clock at call: %llu us)", kindName[k], T, (unsigned long long)spent, r.n, (unsigned long long)callAt);
            cov("time ran out");
        }
        uint64_t last = callAt;
        if (r.n && cursor > 0 && cursor - 1 < u().takenAt.size()) last = std::max(last, u().takenAt[cursor - 1]);
        uint64_t latest = last + uint64_t(T) * 1000 + 2 * TICK_US + 3000 + 100 * w.cost + preempted;
        VF_CHECK(doneAt <= latest, "too-late", "%s with a limit of %u ms returned %llu us after the call and %llu us after the last byte it accepted (clock at call: %llu us)", kindName[k], T, (unsigned long long)spent, (unsigned long long)(doneAt - last), (unsigned long long)callAt);
        if ((callAt / 1000) >> 32 != (doneAt / 1000) >> 32) { cov("calls across the clock's roll-over"); nontrivial(); }
        if (preempted) cov("preempted calls");
    }
};

uint16_t pickTimeout(bool longOnes)
{
    auto& r = rng();
    if (longOnes && r.chance(1, 150)) return uint16_t(r.pick({ 65535, 40000, 32768 }));
    if (r.chance(1, 3)) return uint16_t(r.chance(1, longOnes ? 60 : 20) ? r.notable(1, 65535) : r.chance(1, 2) ? r.notable(1, 1100) : r.range(1, 300));
    return uint16_t(r.pick({ 1, 2, 5, 9, 10, 11, 19, 20, 33, 50, 100, 200, 500, 1000 }));
}

void receiveCase(const std::string& prop)
{
    auto& r = rng();
    sim::reset(r.next());
    const bool timing = prop == "U03", bounds = prop == "U04";
    Scenario s;
    // start and end bytes: usual, above 0x7F, equal to each other
    s.start = r.chance(1, 3) ? r.byte() : 0x02; s.end = r.chance(1, 3) ? r.byte() : r.chance(1, 12) ? s.start : 0x03;
    const int calls = historyLength(1, timing ? 3 : 7, 300);
    std::vector<uint32_t> Ts; for (int i = 0; i < calls; ++i) Ts.push_back(calls > 7 ? uint32_t(r.range(1, 12)) : pickTimeout(timing));
    const bool large = !timing && r.chance(1, 300);
    s.clockAndCosts(timing, *std::min_element(Ts.begin(), Ts.end()));
    if (large || calls > 7) sim::w().cost = std::max<uint64_t>(sim::w().cost, 100);
    sim::w().cost = std::max<uint64_t>(sim::w().cost, *std::max_element(Ts.begin(), Ts.end()) / 100);    // bounds the polls of long waits
    s.makeLine(size_t(large ? r.range(30000, 80000) : calls > 7 ? r.range(100, 1500) : r.chance(1, 10) ? r.range(100, 600) : r.range(0, 40)), int(r.range(0, 20)), Ts);
    if (large)
    {   // mostly waiting in the driver already, with few end bytes
        auto& line = s.u().line;
        if (r.chance(4, 5)) for (auto& b: line) b.at = line.front().at;
        const bool one = r.chance(1, 2);        // no end byte before the last position
        if (r.chance(3, 4)) for (auto& b: line) if (b.value == s.end && s.end != s.start && (one || !r.chance(1, 500))) b.value = uint8_t(s.end ^ 0x40) == s.start ? uint8_t(s.end ^ 0x20) : uint8_t(s.end ^ 0x40);
    }
    if (timing && r.chance(1, 3)) // unrelated bytes keep arriving
    {
        uint64_t at = sim::w().us, step = uint64_t(r.range(200, 5000));
        uint8_t noise = 0; while (noise == s.start || noise == s.end) ++noise;
        s.u().line.clear();
        uint64_t total = 0; for (auto t: Ts) total += t;
        size_t n = std::min<size_t>(size_t((total + 400) * 1000 / step), 4000);
        for (size_t i = 0; i < n; ++i) s.u().line.push_back({ at += step, noise });
        cov("continuous noise");
    }
#ifndef VF_ESP
    s.setting = (unsigned long)(r.pick({ 0, 1, 50, 1000, 1000, 5000 }));
    s.dev.setTimeout(s.setting);
#else
    if (bounds && r.chance(1, 3)) { s.u().failReads = int(r.range(1, 4)); cov("driver errors injected"); }
#endif
    for (int i = 0; i < calls; ++i)
    {
        Kind k = Kind(r.range(0, 2));
        uint16_t size = uint16_t(bounds ? r.pick({ 0, 1, 2, 3, 1, 2, 5, 9 }) : r.chance(1, 5) ? r.range(1, 140) : r.chance(1, 12) ? r.notable(1, 65535) : r.pick({ 1, 2, 3, 4, 6, 8, 12, 20, 64, 300 }));
        if (large && r.chance(1, 4)) size = uint16_t(r.range(32760, 65535));
        else if (large && r.chance(2, 3)) { size = uint16_t(r.pick({ 256, 257, 511, 1000, 32767, 32768, 40000, 65535, int(r.range(100, 70000) & 0xffff), int(r.notable(100, 65535)) })); cov("large buffers"); }
        uint16_t T = uint16_t(Ts[size_t(i)]);
        if (!timing && r.chance(1, 4) && s.mayUseZero(k, size) && s.u().failReads == 0
#ifndef VF_ESP
            && (s.setting >= 1000 || k == Rx)
#endif
        ) T = 0;
        Block b(size); memset(b.data(), 0xA5, size);
        note("%s size %u T %u at %llu us", kindName[k], size, T, (unsigned long long)sim::w().us);
        size_t errors = s.u().readErrors;
        auto res = s.call(k, b.data(), size, T);
        bool failed = s.u().readErrors != errors;
        cov("receive calls"); cov(kindName[k]);
        sigAdd(uint64_t(k) | uint64_t(size) << 4 | uint64_t(res.n) << 20 | uint64_t(T) << 40);
        if (res.n > 32767) cov(k == Rx ? "Receive of more than 32767 bytes" : k == Until ? "ReceiveUntil of more than 32767 bytes" : "ReceiveBetween of more than 32767 bytes");
        if (res.n) { cov("bytes returned", res.n); nontrivial(); }
        VF_CHECK(res.n <= size, "count-beyond-buffer", "%s reported %u bytes for a buffer of %u%s", kindName[k], res.n, size, failed ? " (driver reported an error)" : "");
        VF_CHECK(s.u().taken >= s.cursor + res.n || (k == Between && res.n == 0), "count-beyond-received", "%s reported %u bytes, only %zu were read from the driver", kindName[k], res.n, s.u().taken - std::min(s.u().taken, s.cursor));
        if (failed) cov("calls with a driver error");
        if (size < 3) cov("tiny buffers");
        size_t before = s.cursor;
        s.judgeContent(k, b.data(), res.n);
        if (k == Between && s.cursor - before > res.n) cov("bytes before a start byte discarded", s.cursor - before - res.n);
        if (prop == "U02") s.judgeStop(k, b.data(), res.n, size);
        if (timing && T) s.judgeTime(k, res, T);
    }
    if (prop == "U01")
    {   // what no call consumed is still there
        sim::w().preemptOneIn = 0;
        if (!s.u().line.empty()) sim::w().us = std::max(sim::w().us, s.u().line.back().at + 1);
        for (int idle = 0; idle < 2; )
        {
            size_t rest = s.u().line.size() - s.cursor;
            const auto room = uint16_t(std::min<size_t>(rest + 3, 65535));
            Block b(room);
            auto res = s.call(Rx, b.data(), room, 50);
            s.judgeContent(Rx, b.data(), res.n);
            if (res.n == 0) ++idle;
        }
        VF_CHECK(s.cursor == s.u().line.size(), "bytes-lost", "%zu bytes that no call returned or skipped are gone (of %zu)", s.u().line.size() - s.cursor, s.u().line.size());
        cov("drained histories");
    }
}

void u05()
{
    auto& r = rng();
    sim::reset(r.next());
    Scenario s;
    s.clockAndCosts(false, 100);
    s.makeLine(size_t(r.range(0, 20)), 5, { 20, 50 });
    std::vector<uint8_t> expect;
    int calls = historyLength(1, 8, 200);
    for (int i = 0; i < calls; ++i)
    {
#ifndef VF_ESP
        unsigned long was = (unsigned long)(r.chance(1, 3) ? r.notable(0, 5000000000ll) : r.pick({ 0, 1, 7, 1000, 60000, 100000 }));
        s.dev.setTimeout(was); s.setting = was;
#endif
        if (r.chance(1, 3))
        {
            uint8_t buf[32]; Kind k = Kind(r.range(0, 2)); uint16_t size = uint16_t(r.range(0, 32));
            uint16_t T = uint16_t(r.chance(1, 3) ? r.range(1, 300) : r.pick({ 1, 10, 100 }));
            s.call(k, buf, size, T);
            cov("receives between");
        }
        else
        {
            size_t n = size_t(r.chance(1, 60) ? r.pick({ 65535, 40000, 32768, 256 }) : r.chance(1, 25) ? r.notable(0, r.chance(1, 3) ? 65535 : 5000) : r.range(0, 140));
            Block b(n); r.fill(b.data(), n);
            auto& u = s.u();
            u.failSend = r.chance(1, 5); u.acceptLimit = r.chance(1, 4) ? size_t(r.range(0, int64_t(n))) : SIZE_MAX;
            size_t had = u.sent.size();
            note("Send %zu fail %d limit %zu", n, u.failSend, u.acceptLimit);
            sim::w().deadline = sim::w().us + 600000000;
            uint16_t got = s.port.Send(b.data(), uint16_t(n), uint32_t(r.chance(1, 3) ? r.notable(0, 5000000000ll) : r.pick({ 0, 1, 100, 70000 })));
            sim::w().deadline = UINT64_MAX;
            size_t put = u.sent.size() - had;
            if (tracing()) trace("Send(%zu)%s limit %zu -> %u, wire +%zu; ", n, u.failSend ? " failing" : "", u.acceptLimit, got, put);
            VF_CHECK(put <= n && (put == 0 || !memcmp(u.sent.data() + had, b.data(), put)), "wire-differs", "%zu bytes given, the driver got %zu that are not their beginning", n, put);
            if (!u.failSend && u.acceptLimit == SIZE_MAX) VF_CHECK(put == n, "not-all-handed-over", "of %zu bytes only %zu were handed to the driver", n, put);
            VF_CHECK(got == put, "wrong-count", "Send of %zu bytes returned %u, the driver accepted %zu%s", n, got, put, u.failSend ? " (it reported an error)" : "");
            VF_CHECK(sim::w().us >= u.busyUntil, "still-sending", "Send of %zu bytes returned %llu us before the last of the %zu accepted bytes left the port", n, (unsigned long long)(u.busyUntil - sim::w().us), put);
            if (put) cov("accepted bytes had left on return");
            cov("sends"); if (u.failSend) cov("failed sends"); else if (put < n) cov("partial sends"); else cov("complete sends");
            if (put) nontrivial();
            sigAdd(put << 8 | n);
            u.failSend = false; u.acceptLimit = SIZE_MAX;
        }
#ifndef VF_ESP
        VF_CHECK(s.dev.getTimeout() == was, "setting-changed", "the port's stream time-out was %lu before the call and is %lu after it", was, s.dev.getTimeout());
        cov("settings compared");
#endif
    }
}

// messages through SerialOut: exact expectation for text and integers that fit, the same buffer class as
// reference for floats and for what happens when the buffer is full
void o01()
{
    auto& r = rng();
    sim::reset(r.next());
    PacketUart::UartDevice dev { 1 };
    PacketUart port { dev };
    size_t cap = size_t(r.chance(1, 400) ? r.pick({ 65535, 65536, 70000, 140000 }) : r.chance(1, 10) ? r.pick({ 127, 128, 129, 254, 255, 256, 257, 300, 1000, 1024 }) : r.chance(1, 3) ? r.range(1, 8) : r.range(1, 120));
    Block b(cap); Block rb(cap);
    embedded::SerialOut out(embedded::MemoryView<char>(reinterpret_cast<char*>(b.data()), cap), port);
    embedded::BufferedOut ref(embedded::MemoryView<char>(reinterpret_cast<char*>(rb.data()), cap));
    auto& u = sim::w().uart[1];
    int messages = historyLength(1, 6);
    for (int m = 0; m < messages; ++m)
    {
        std::string exact, desc; bool fits = true, plain = true;
        size_t had = u.sent.size();
        int items = int(r.range(0, 7));
        for (int i = 0; i < items; ++i)
        {
            std::string piece;
            switch (r.range(0, 9))
            {
            case 0: case 1:
            {
                size_t n = size_t(cap > 1000 && r.chance(1, 2) ? r.range(0, int64_t(cap) + 10) : r.chance(1, 20) ? r.range(15, 600) : r.range(0, 14));
                const bool any = r.chance(1, 4);
                for (size_t j = 0; j < n; ++j) piece += char(any ? r.range(1, 255) : r.range(0x20, 0x7e));
                if (n && r.chance(1, 8)) { r.fill(piece.data(), n); for (char& c: piece) if (!c) c = '0'; }
                out << piece.c_str(); ref << piece.c_str(); break;
            }
            case 2: { int v = int(r.interesting64()); piece = std::to_string(v); out << v; ref << v; break; }
            case 3: { unsigned v = unsigned(r.interesting64()); piece = std::to_string(v); out << v; ref << v; break; }
            case 4: { long v = long(r.interesting64()); piece = std::to_string(v); out << v; ref << v; break; }
            case 5: { unsigned long v = r.interesting64(); piece = std::to_string(v); out << v; ref << v; break; }
            case 6: { long long v = (long long)(r.interesting64()); piece = std::to_string(v); out << v; ref << v; break; }
            case 7: { unsigned long long v = r.interesting64(); piece = std::to_string(v); out << v; ref << v; break; }
            case 8:
            {
                if (r.chance(1, 2)) { uint8_t p = uint8_t(r.range(0, 6)); out << embedded::SerialOut::precision { p }; ref << embedded::BufferedOut::precision { p }; }
                float f = r.chance(1, 3) ? float(r.notable(-4000000000ll, 4000000000ll)) * (r.chance(1, 2) ? 1.f : 0.1f) : r.chance(1, 6) ? float(r.range(-20, 20)) / 2.f : float(r.range(-100000, 100000)) / 64.f; out << f; ref << f; plain = false; break;
            }
            default:
            {
                if (r.chance(1, 2)) { uint8_t c = r.byte(); out << c; ref << c; plain = false; }
                else
                {
                    uint8_t raw[300]; size_t n = size_t(r.chance(1, 20) ? r.range(10, 300) : r.range(0, 9)); r.fill(raw, sizeof raw);
                    embedded::ConstBytesView v(raw, n); out << v; ref << v; plain = false;
                }
            }
            }
            exact += piece;
        }
        if (exact.size() > cap) fits = false;
        bool line = r.chance(1, 2);
        std::string expected(reinterpret_cast<const char*>(ref.data().begin()), ref.data().size());
        if (plain && fits) { VF_CHECK(expected == exact, "text-differs", "the message text is '%s', expected '%s'", quote(expected).c_str(), quote(exact).c_str()); cov("exact messages"); }
        if (expected.size() == cap) cov("full buffers");
        if (line) { expected += '\n'; }
        ref.clear();
        // the port may take only a part of it (driver error, full queue): the next messages are not affected
        bool partial = expected.size() < 65535 && r.chance(1, 8);
        if (partial) { if (r.chance(1, 3)) u.failSend = true; u.acceptLimit = size_t(r.range(0, int64_t(expected.size()))); }
        sim::w().deadline = sim::w().us + 10000000;
        if (line) out << embedded::SerialOut::endl {}; else out << embedded::SerialOut::end {};
        sim::w().deadline = UINT64_MAX;
        std::string got(u.sent.begin() + long(had), u.sent.end());
        u.failSend = false; u.acceptLimit = SIZE_MAX;
        if (partial && got.size() < expected.size())
        {
            size_t k = 0; for (char c: expected) if (k < got.size() && got[k] == c) ++k;
            VF_CHECK(k == got.size(), "wire-differs", "message %d, cut by the port: wire '%s', expected nothing but parts of '%s' in order", m, quote(got.substr(0, 200)).c_str(), quote(expected.substr(0, 200)).c_str());
            cov("messages cut by the port");
            if (tracing()) trace("cap %zu %s cut by the port after %zu bytes; ", cap, line ? "endl" : "end", got.size());
            continue;
        }
        if (tracing()) trace("cap %zu %s '%s'; ", cap, line ? "endl" : "end", quote(got.substr(0, 60)).c_str());
        VF_CHECK(got.size() == expected.size(), "wire-length", "message %d: %zu bytes on the wire, %zu expected (capacity %zu, %s): '%s' instead of '%s'", m, got.size(), expected.size(), cap, line ? "endl" : "end", quote(got.substr(0, 100)).c_str(), quote(expected.substr(0, 100)).c_str());
        VF_CHECK(got == expected, "wire-differs", "message %d: wire '%s', expected '%s'", m, quote(got.substr(0, 200)).c_str(), quote(expected.substr(0, 200)).c_str());
        cov("messages"); if (line) cov("lines"); if (got.size() > 65535) cov("messages beyond 64 KiB");
        if (!got.empty()) nontrivial();
        sigAdd(got.substr(0, 64)); sigAdd(got.size());
    }
}
}

int main(int argc, char** argv)
{
    return run(argc, argv, [] {
        const auto& p = st().prop;
        if (p == "U05") u05();
        else if (p == "O01") o01();
        else receiveCase(p);
    });
}
