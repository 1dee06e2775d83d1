// T01..T04: monitors of the formatted text buffer.
#include "vf.h"
#include "BufferedOut.h"

using embedded::BufferedOut;
using embedded::BytesView;
using embedded::ConstBytesView;
using vf::rng;

namespace
{
// independent decimal rendering
std::string dec(unsigned __int128 v, bool neg)
{
    std::string r;
    do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
    if (neg) r.insert(r.begin(), '-');
    return r;
}
template<class T> std::string dec(T v)
{
    __int128 x = v;
    return x < 0 ? dec((unsigned __int128)(-x), true) : dec((unsigned __int128)x, false);
}
std::string hexByte(uint8_t b) { static const char d[] = "0123456789ABCDEF"; return { d[b >> 4], d[b & 15] }; }

// A buffer with surroundings: exact heap block (sanitizer red zones) or a window in a canary arena.
struct Buf
{
    size_t cap;
    bool arena;
    std::unique_ptr<vf::Block> block;
    std::vector<uint8_t> mem;
    size_t off = 0;
    explicit Buf(size_t cap, bool arenaMode) : cap(cap), arena(arenaMode)
    {
        uint8_t fill = rng().byte();
        if (arena)
        {
            off = 4096 + size_t(rng().range(0, 15));
            mem.assign(off + cap + 8192, 0xA7);
        }
        else block = std::make_unique<vf::Block>(cap, size_t(rng().range(0, 9)));
        memset(data(), fill, cap);
    }
    char* data() { return arena ? reinterpret_cast<char*>(mem.data() + off) : reinterpret_cast<char*>(block->data()); }
    bool intact()
    {
        if (!arena) return block->leadIntact();
        for (size_t i = 0; i < off; ++i) if (mem[i] != 0xA7) return false;
        for (size_t i = off + cap; i < mem.size(); ++i) if (mem[i] != 0xA7) return false;
        return true;
    }
};

bool roomy = false;     // the case's buffer has room for very long texts
size_t randomCapacity(bool big)
{
    switch (rng().next() % 12)
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return size_t(rng().range(2, 5));
    case 3: return 128;
    case 4: return size_t(rng().range(60, 1100));
    case 5: if (big && rng().chance(1, 8)) return size_t(rng().chance(1, 3) ? rng().range(130000, 140000) : rng().range(65530, 70000)); return size_t(rng().range(1, 30));
    default: return size_t(rng().range(1, 48));
    }
}

size_t randomCap(bool big) { size_t c = randomCapacity(big); roomy = c > 60000; return c; }

std::string randomString(bool nulAllowed)
{
    size_t n = rng().chance(1, 6) ? size_t(rng().range(0, 60)) : size_t(rng().range(0, 9));
    if (rng().chance(1, roomy ? 5 : 40)) { n = size_t(rng().chance(1, roomy ? 2 : 12) ? rng().pick<int64_t>({ 32767, 32768, 65535, 65536, 65537, 66000 }) : rng().pick<int64_t>({ 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000 })); if (rng().chance(1, 2)) n = size_t(rng().chance(1, 2) ? rng().range(10, 1030) : rng().notable(0, 5000)); vf::cov("long texts"); }
    std::string s;
    s.reserve(n);
    while (s.size() < n)
    {
        char c = char(rng().chance(1, 4) ? rng().next() : uint64_t(rng().range('a', 'z')));
        if (!c && !nulAllowed) c = 'N';
        s += c;
    }
    if (n && rng().chance(1, 6))
    {
        // whole texts of one structure: repeated, blank, all-ones and counting contents
        rng().fill(s.data(), n);
        if (!nulAllowed) for (char& c: s) if (!c) c = 'N';
    }
    return s;
}

void checkViews(BufferedOut& out, Buf& buf)
{
    VF_CHECK(out.capacity() == buf.cap, "capacity", "capacity() %zu, buffer %zu", size_t(out.capacity()), buf.cap);
    VF_CHECK(out.size() <= buf.cap, "size-beyond-capacity", "size() %zu > capacity %zu", size_t(out.size()), buf.cap);
    const auto sv = out.asStringView();
    const auto d = out.data();
    const auto cd = static_cast<const BufferedOut&>(out).data();
    VF_CHECK(sv.size() == out.size(), "view-size", "asStringView %zu, size() %zu", sv.size(), size_t(out.size()));
    VF_CHECK(d.size() == out.size() && cd.size() == out.size(), "view-size", "data() %zu / const data() %zu, size() %zu", size_t(d.size()), size_t(cd.size()), size_t(out.size()));
    VF_CHECK((const char*)d.begin() == buf.data() && (const char*)cd.begin() == buf.data() && sv.data() == buf.data(), "view-address", "views do not start at the buffer");
    VF_CHECK(static_cast<uint8_t*>(out) == (uint8_t*)buf.data() && static_cast<const uint8_t*>(static_cast<const BufferedOut&>(out)) == (uint8_t*)buf.data(), "view-address", "pointer conversion");
}

// --- one write of an integer of a random type; returns its exact text
std::string writeInt(BufferedOut& out)
{
    uint64_t r = rng().interesting64();
    if (rng().chance(1, 4)) r = uint64_t(rng().notable(-(1ll << 40), 1ll << 40));
    if (rng().chance(1, 12)) r = rng().pick<uint64_t>({ 0x8000000000000000ull, 0x7fffffffffffffffull, ~0ull, 0x80000000ull, 0x7fffffffull, 0xffffffffull, 0xffffffff80000000ull });
    switch (rng().next() % 8)
    {
    case 0: { int v = int(r); out << v; vf::cov("int"); return dec(v); }
    case 1: { unsigned v = unsigned(r); out << v; vf::cov("unsigned"); return dec(v); }
    case 2: { long v = long(r); out << v; vf::cov("long"); return dec(v); }
    case 3: { unsigned long v = r; out << v; vf::cov("unsigned long"); return dec(v); }
    case 4: { long long v = (long long)r; out << v; vf::cov("long long"); return dec(v); }
    case 5: { unsigned long long v = r; out << v; vf::cov("unsigned long long"); return dec(v); }
    case 6: { short v = short(r); out << v; vf::cov("short"); return dec(v); }
    default: { uint16_t v = uint16_t(r); out << v; vf::cov("uint16_t"); return dec(v); }
    }
}

void caseT01()
{
    Buf buf(randomCap(true), rng().chance(1, 3));
    BufferedOut out(embedded::MemoryView<char>(buf.data(), buf.cap));
    std::string model;
    int width = 0;
    char fill = ' ';
    vf::trace("capacity %zu:", buf.cap);
    vf::sigAdd(buf.cap);
    int ops = vf::historyLength(1, 24);
    auto verify = [&](const char* op) {
        const auto sv = out.asStringView();
        VF_CHECK(sv == std::string_view(model), "content", "after %s: capacity %zu content '%s' (%zu) expected '%s' (%zu)", op, buf.cap, std::string(sv.substr(0, 200)).c_str(), sv.size(), model.substr(0, 200).c_str(), model.size());
        VF_CHECK(memcmp(buf.data(), model.data(), model.size()) == 0, "content", "after %s: raw buffer differs", op);
        checkViews(out, buf);
    };
    for (int i = 0; i < ops; ++i)
    {
        size_t room = buf.cap - model.size();
        switch (rng().next() % 11)
        {
        case 0:
        {
            auto s = randomString(false);
            vf::trace(" str%zu", s.size()); vf::sigAdd(s);
            out << s.c_str();
            if (s.size() > room) { vf::cov("string cut"); vf::nontrivial(); }
            model += s.substr(0, room);
            verify("const char*");
            break;
        }
        case 1:
        {
            auto s = randomString(true);
            vf::trace(" sv%zu", s.size()); vf::sigAdd(s);
            if (s.empty() && rng().chance(1, 2)) out << std::string_view();
            else
            {
                // exact copy so that reading past the view is seen
                vf::Block b(s.size()); memcpy(b.data(), s.data(), s.size());
                out << std::string_view(reinterpret_cast<char*>(b.data()), s.size());
            }
            if (s.size() > room) { vf::cov("string cut"); vf::nontrivial(); }
            model += s.substr(0, room);
            verify("string_view");
            break;
        }
        case 2:
        {
            char c = char(rng().next());
            if (rng().chance(1, 2)) out << c; else out.addChar(c);
            vf::trace(" c"); vf::sigAdd(uint8_t(c));
            if (room) model += c; else { vf::cov("char refused"); vf::nontrivial(); }
            verify("char");
            break;
        }
        case 3: case 4: case 5:
        {
            auto s = writeInt(out);
            vf::trace(" int:%s/w%d", s.c_str(), width); vf::sigAdd(s);
            if (width > 0 && s.size() < size_t(width)) { s.insert(0, size_t(width) - s.size(), fill); vf::cov("padded"); }
            if (s.size() <= room) { model += s; width = 0; if (s.size() == room) { vf::cov("exact fit"); vf::nontrivial(); } }
            else
            {
                vf::cov("integer refused"); vf::nontrivial();
                out << BufferedOut::width { 0 }; // whether a refused integer consumes the width is unspecified
                width = 0;
            }
            verify("integer");
            break;
        }
        case 6:
        {
            uint8_t b = rng().byte();
            out << b;
            vf::trace(" u8:%02x", b); vf::sigAdd(b);
            if (room >= 2) model += hexByte(b); else { vf::cov("byte refused"); vf::nontrivial(); }
            verify("unsigned char");
            break;
        }
        case 7:
        {
            size_t n = size_t(rng().range(0, rng().chance(1, 5) ? 40 : 6));
            if (rng().chance(1, 40)) n = size_t(rng().pick<int64_t>({ 127, 128, 129, 255, 256, 257, 300, 600, 32768, 65536 }));
            vf::Block b(n);
            rng().fill(b.data(), n); for (size_t k = 0; k < n; ++k) vf::sigAdd(b.data()[k]);
            vf::trace(" bytes%zu", n);
            if (rng().chance(1, 2)) out << ConstBytesView(b.data(), n); else out << BytesView(b.data(), n);
            size_t fit = std::min(n, room / 2);
            if (fit < n) { vf::cov("bytes cut"); vf::nontrivial(); }
            for (size_t k = 0; k < fit; ++k) model += hexByte(b.data()[k]);
            verify("bytes");
            break;
        }
        case 8:
            width = int(rng().chance(1, 25) ? rng().pick<int64_t>({ 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000, int64_t(room), int64_t(room) + 1, 65535, 65536, 66000 }) : rng().range(0, rng().chance(1, 4) ? 60 : 12));
            out << BufferedOut::width { width };
            vf::trace(" w%d", width); vf::sigAdd(uint64_t(width));
            verify("width");
            break;
        case 9:
            fill = char(rng().range(33, 126));
            out << BufferedOut::fill { fill };
            vf::trace(" f%c", fill); vf::sigAdd(uint8_t(fill));
            verify("fill");
            break;
        default:
            if (rng().chance(1, 3))
            {
                out.clear();
                model.clear(); width = 0; fill = ' ';
                vf::trace(" clear"); vf::sigAdd(7);
                vf::cov("clear");
                verify("clear");
                if (buf.cap >= 8 && rng().chance(1, 2))
                {
                    // default precision is in force again: no fraction digits
                    out << BufferedOut::precision { 3 } << 1.25f;
                    out.clear();
                    out << 2.25f;
                    VF_CHECK(out.asStringView().find('.') == std::string_view::npos && !out.asStringView().empty(), "clear-precision", "after clear() a float printed as '%s'", std::string(out.asStringView()).c_str());
                    out.clear();
                    vf::cov("clear resets precision");
                }
            }
            else
            {
                out << BufferedOut::precision { int(rng().range(0, 5)) };
                verify("precision");
            }
        }
    }
    VF_CHECK(buf.intact(), "surroundings", "memory around the buffer changed");
    if (ops > 4) vf::nontrivial();
    vf::cov("writes checked", uint64_t(ops));
}

void caseT02()
{
    Buf buf(randomCap(true), rng().chance(1, 2));
    BufferedOut out(embedded::MemoryView<char>(buf.data(), buf.cap));
    vf::trace("capacity %zu:", buf.cap);
    vf::sigAdd(buf.cap);
    int ops = vf::historyLength(1, 20);
    if (buf.cap > 60000)
    {
        // get close to the end quickly
        std::string s(size_t(rng().range(65500, int64_t(buf.cap))), 'x');
        out << std::string_view(s);
        vf::cov("beyond 64 KiB", out.size() > 65535);
        checkViews(out, buf);
    }
    for (int i = 0; i < ops; ++i)
    {
        size_t before = out.size();
        switch (rng().next() % 10)
        {
        case 0: { auto s = randomString(false); vf::trace(" str%zu", s.size()); vf::sigAdd(s); out << s.c_str(); break; }
        case 1: { auto s = randomString(true); vf::trace(" sv%zu", s.size()); vf::sigAdd(s); out << std::string_view(s); break; }
        case 2: { vf::trace(" c"); out << 'c'; break; }
        case 3: case 4:
        {
            auto s = writeInt(out); vf::trace(" int:%s", s.c_str()); vf::sigAdd(s);
            break;
        }
        case 5: { uint8_t b = rng().byte(); vf::trace(" u8"); vf::sigAdd(b); out << b; break; }
        case 6:
        {
            size_t n = size_t(rng().range(0, 80));
            vf::Block b(n); memset(b.data(), 0x5a, n);
            vf::trace(" bytes%zu", n); vf::sigAdd(n);
            out << ConstBytesView(b.data(), n);
            break;
        }
        case 7:
        {
            // padding requests up to far beyond the room
            int w = int(rng().pick<int64_t>({ rng().range(0, 40), int64_t(buf.cap - out.size()), int64_t(buf.cap - out.size()) + rng().range(-2, 2), rng().range(0, 5000), INT_MAX, -5, INT_MIN, int64_t(buf.cap) }));
            out << BufferedOut::width { w };
            if (rng().chance(1, 2)) out << BufferedOut::fill { char(rng().next()) };
            vf::trace(" w%d", w); vf::sigAdd(uint64_t(w));
            if (w > 0 && size_t(w) > buf.cap - out.size()) { vf::cov("width beyond room"); vf::nontrivial(); }
            auto s = writeInt(out);
            vf::trace(" int:%s", s.c_str()); vf::sigAdd(s);
            break;
        }
        case 8:
        {
            uint32_t bits = uint32_t(rng().next());
            float f; memcpy(&f, &bits, 4);
            int p = int(rng().pick<int64_t>({ rng().range(0, 9), rng().range(0, 100), -1, INT_MAX, INT_MIN }));
            if (rng().chance(1, 2)) f = float(rng().range(-100000, 100000)) / 128.f;
            vf::trace(" p%d f%g", p, double(f)); vf::sigAdd(bits ^ uint64_t(p));
            out << BufferedOut::precision { p } << f;
            vf::cov("float");
            break;
        }
        default:
            if (rng().chance(1, 4)) { out.clear(); before = 0; vf::trace(" clear"); }
            // fill up so that the next writes meet a full (or nearly full) buffer
            if (rng().chance(1, 2) && buf.cap < 2000)
            {
                size_t keep = size_t(rng().range(0, 3));
                while (out.size() + keep < buf.cap) out.addChar('.');
                vf::trace(" fill-%zu", keep); vf::sigAdd(keep);
                vf::cov("nearly full");
                vf::nontrivial();
            }
        }
        VF_CHECK(out.size() >= before, "size-shrank", "size() went from %zu to %zu without clear()", before, size_t(out.size()));
        checkViews(out, buf);
    }
    VF_CHECK(buf.intact(), "surroundings", "memory around the buffer changed (capacity %zu)", buf.cap);
    vf::cov("writes checked", uint64_t(ops));
    if (ops > 4) vf::nontrivial();
}

void caseT03()
{
    Buf buf(8192, false);
    BufferedOut out(embedded::MemoryView<char>(buf.data(), buf.cap));
    std::string model;
    int width = 0; char fill = ' ';
    int ops = vf::historyLength(2, 40);
    for (int i = 0; i < ops; ++i)
    {
        if (ops > 40 && model.size() > 5000) break;
        switch (rng().next() % 6)
        {
        case 0: width = int(rng().chance(1, 12) && model.size() < 4000 ? rng().chance(1, 2) ? rng().range(30, 2000) : rng().pick<int64_t>({ 126, 127, 128, 129, 254, 255, 256, 257, 258, 275, 276, 300, 512, 1023 }) : rng().range(0, 30)); out << BufferedOut::width { width }; vf::trace(" w%d", width); break;
        case 1: if (rng().chance(1, 2)) { fill = char(rng().range(1, 255)); out << BufferedOut::fill { fill }; vf::trace(" fill%d", fill); } break;
        case 2: // does not consume the width
            switch (rng().next() % 5)
            {
            case 0: { auto s = randomString(false); if (model.size() + s.size() > 6000) s.resize(5); out << s.c_str(); model += s.c_str(); vf::trace(" str"); break; }
            case 1: { auto s = randomString(true); if (model.size() + s.size() > 6000) s.resize(5); out << std::string_view(s); model += s; vf::trace(" sv"); break; }
            case 2: out << ';'; model += ';'; vf::trace(" c"); break;
            case 3: { uint8_t b = rng().byte(); out << b; model += hexByte(b); vf::trace(" u8"); break; }
            default: { uint8_t b[2] = { rng().byte(), rng().byte() }; out << ConstBytesView(b); model += hexByte(b[0]) + hexByte(b[1]); vf::trace(" bytes"); }
            }
            vf::cov("text between");
            break;
        default:
        {
            auto s = writeInt(out);
            vf::trace(" %s/w%d", s.c_str(), width);
            vf::sigAdd(s); vf::sigAdd(uint64_t(width));
            if (width > 0)
            {
                if (s.size() >= size_t(width)) { vf::cov("longer than field", s.size() > size_t(width)); }
                else { s.insert(0, size_t(width) - s.size(), fill); vf::cov("padded"); vf::cov("padded by more than 100", width > 120); }
                vf::nontrivial();
            }
            if (s.size() >= 10) vf::nontrivial();
            width = 0;
            model += s;
            vf::cov("integers checked");
        }
        }
        VF_CHECK(out.asStringView() == std::string_view(model), "integer-text", "content ends '%s' expected '%s'",
                 std::string(out.asStringView().substr(out.size() > 40 ? out.size() - 40 : 0)).c_str(), model.substr(model.size() > 40 ? model.size() - 40 : 0).c_str());
    }
}

float randomFloat()
{
    uint32_t bits = uint32_t(rng().next());
    float f;
    switch (rng().next() % 14)
    {
    case 0: break;
    case 12: case 13:
    {   // integer parts next to powers of two and ten, with fractions representable there
        double k = rng().chance(2, 3) ? std::ldexp(1.0, int(rng().range(0, 31))) : std::pow(10.0, double(rng().range(0, 9)));
        double v = k + double(rng().range(-2, 2)) + (rng().chance(1, 2) ? std::ldexp(double(rng().range(0, 255)), -8) : rng().pick<double>({ 0, 0.5, 0.25, 0.1, 0.9, 0.999, 0.001 }));
        return float(rng().chance(1, 2) ? -v : v);
    }
    case 1: { f = float(rng().range(-2000, 2000)) / 1000.f; return f; }
    case 2: { f = float(rng().range(-100000, 100000)) / float(rng().range(1, 1000)); return f; }
    case 3: return float(int32_t(bits));
    case 4: { f = float(rng().range(-20, 20)); return std::nextafterf(f, rng().chance(1, 2) ? 1e9f : -1e9f); }
    case 5: return rng().pick<float>({ 0.f, -0.f, 2147483648.f, -2147483648.f, 2147483520.f, -2147483904.f, INFINITY, -INFINITY, NAN, 1e38f, -1e38f, 1e-40f, -1e-40f, 0.99999994f, -0.99999994f, 9.9999994f, 4294967296.f, 9.223372e18f });
    case 6: return -float(rng().range(1, 999)) / 1000.f;
    case 7: { int e = int(rng().range(-30, 31)); return std::ldexp(float(rng().range(-16777215, 16777215)) / 16777216.f, e); }
    case 8: { int k = int(rng().range(0, 6)); float p = std::pow(10.f, float(-k)); return float(rng().range(-30, 30)) + (rng().chance(1, 2) ? p : 1 - p); }
    default: { f = float(rng().range(-1000000, 1000000)) / 4096.f; return f; }
    }
    memcpy(&f, &bits, 4);
    return f;
}

void caseT04()
{
    float f = randomFloat();
    if (rng().chance(1, 8)) f = std::ldexp(f, int(rng().range(-3, 3)));
    uint32_t bits; memcpy(&bits, &f, 4);
    int p = int(rng().range(0, 9));
    vf::sigAdd(bits); vf::sigAdd(uint64_t(p));
    vf::trace("value %.9g (0x%08x) precision %d", double(f), bits, p);
    vf::note("value %.9g (0x%08x) precision %d", double(f), bits, p);
    Buf big(200, false);
    BufferedOut out(embedded::MemoryView<char>(big.data(), big.cap));
    std::string prefix = rng().chance(1, 2) ? "ab=" : "";
    out << prefix.c_str() << BufferedOut::precision { p };
    if (rng().chance(1, 3)) out << BufferedOut::width { 0 };
    out << f;
    auto all = out.asStringView();
    VF_CHECK(all.substr(0, prefix.size()) == prefix, "float-prefix", "earlier content changed");
    std::string t(all.substr(prefix.size()));
    vf::trace(" -> '%s'", t.c_str());
    const bool inRange = std::isfinite(f) && double(f) > -2147483649.0 && double(f) < 2147483648.0;
    const bool hasDigit = t.find_first_of("0123456789") != std::string::npos;
    if (inRange)
    {
        // strict shape
        size_t i = 0;
        bool neg = false;
        if (i < t.size() && t[i] == '-') { neg = true; ++i; }
        size_t intDigits = 0;
        while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++intDigits; }
        size_t frac = 0;
        bool point = false;
        if (i < t.size() && t[i] == '.') { point = true; ++i; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++frac; } }
        VF_CHECK(i == t.size() && intDigits > 0, "float-shape", "value %.9g precision %d printed '%s'", double(f), p, t.c_str());
        VF_CHECK(point == (p > 0) && frac == size_t(p), "float-digits", "value %.9g precision %d printed '%s'", double(f), p, t.c_str());
        VF_CHECK(intDigits == 1 || t[neg] != '0', "float-shape", "leading zero: value %.9g printed '%s'", double(f), t.c_str());
        const bool nonzero = t.find_first_of("123456789") != std::string::npos;
        if (nonzero) VF_CHECK(neg == std::signbit(f), "float-sign", "value %.9g precision %d printed '%s'", double(f), p, t.c_str());
        if (!std::signbit(f)) VF_CHECK(!neg, "float-sign", "value %.9g printed '%s'", double(f), t.c_str());
        long double parsed = strtold(t.c_str(), nullptr);
        long double err = fabsl(parsed - (long double)f);
        VF_CHECK(err <= powl(10.0L, -p) * (1 + 1e-12L) + 6e-8L, "float-value", "value %.9g precision %d printed '%s'", double(f), p, t.c_str());
        vf::cov("finite checked");
        if (p > 0 && f != std::trunc(f)) vf::nontrivial();
        if (f < 0 && f > -1) vf::cov("negative fraction");
        // the same in every smaller buffer: a prefix of the full text, integer part whole or absent
        size_t intLen = neg + intDigits;
        for (int k = 0; k < 3; ++k)
        {
            size_t cap = size_t(rng().range(0, int64_t(t.size())));
            Buf small(cap, false);
            BufferedOut o2(embedded::MemoryView<char>(small.data(), cap));
            o2 << BufferedOut::precision { p } << f;
            auto s = std::string(o2.asStringView());
            VF_CHECK(s.size() <= t.size() && t.compare(0, s.size(), s) == 0, "float-cut", "capacity %zu: '%s' is not a prefix of '%s'", cap, s.c_str(), t.c_str());
            VF_CHECK(s.empty() || s.size() >= intLen, "float-cut", "capacity %zu: '%s' shows only part of the integer digits of '%s'", cap, s.c_str(), t.c_str());
            if (cap >= t.size()) VF_CHECK(s == t, "float-cut", "capacity %zu suffices but '%s' was written for '%s'", cap, s.c_str(), t.c_str());
            vf::cov("cut checked");
        }
        if (p == 9 || !nonzero) vf::cov("extreme digits");
    }
    else
    {
        vf::cov("special checked");
        vf::nontrivial();
        if (hasDigit)
        {
            char* end = nullptr;
            long double parsed = strtold(t.c_str(), &end);
            VF_CHECK(end && !*end && std::isfinite(f) && fabsl(parsed - (long double)f) <= powl(10.0L, -p) + 6e-8L, "float-wrong-number", "value %.9g printed as '%s'", double(f), t.c_str());
        }
    }
    // precision stays in force, width and fill do not affect floats: a second identical write repeats the text
    if (inRange && prefix.empty() && 2 * t.size() <= big.cap)
    {
        out << f;
        VF_CHECK(out.asStringView() == t + t, "float-repeat", "second write gave '%s' after '%s'", std::string(out.asStringView()).c_str(), t.c_str());
    }
}
} // namespace

int main(int argc, char** argv)
{
    return vf::run(argc, argv, [] {
        auto& p = vf::st().prop;
        if (p == "T01") caseT01();
        else if (p == "T02") caseT02();
        else if (p == "T03") caseT03();
        else if (p == "T04") caseT04();
        else { fprintf(stderr, "no such property here\n"); _exit(98); }
    });
}
