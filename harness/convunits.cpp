// K03: BitStream against a bit vector; K04: EncodingConverter against independent decoders.
#include "vf.h"
#include "gfx-font-converter/BitStream.h"
#include "gfx-font-converter/EncodingConverter.h"
#include <iconv.h>
#include <stdexcept>
using namespace vf;

namespace
{
struct CodePage { const char* name; uint32_t cp[256]; };
const CodePage codePages[] = {
#include "codepages.inc"
};
constexpr uint32_t kSkip = 0xFFFFFFFF, kUndefined = 0xFFFFFFFE;
constexpr int nCodePages = int(sizeof codePages / sizeof *codePages);

struct Sink { std::vector<uint8_t> got; Sink& operator<<(uint8_t b) { got.push_back(b); return *this; } };

void k03(Rng& r)
{
    Sink sink; BitStream<Sink> s(sink);
    std::vector<uint8_t> want; std::vector<bool> open;     // complete bytes; bits since the last flush or byte boundary
    auto bit = [&](bool b) { open.push_back(b); if (open.size() == 8) { uint8_t v = 0; for (int i = 0; i < 8; ++i) v = uint8_t(v << 1 | open[size_t(i)]); want.push_back(v); open.clear(); } };
    int n = int(r.range(1, 200)); int bias = int(r.range(0, 8)), bytesEvery = int(r.range(1, 12)), flushEvery = int(r.range(2, 40)); bool unaligned = false;
    for (int i = 0; i < n; ++i)
    {
        if (r.chance(1, flushEvery))
        {
            s.flush(); cov("flushes");
            if (!open.empty()) { cov("padded flushes"); while (!open.empty()) bit(false); }
            trace("flush ");
        }
        else if (r.chance(1, bytesEvery))
        {
            uint8_t b = r.byte(); s << b; if (!open.empty()) { unaligned = true; cov("bytes at a bit position"); }
            for (int k = 7; k >= 0; --k) bit(b >> k & 1);
            cov("bytes"); trace("byte %02x ", b);
        }
        else { bool b = r.chance(bias, 8); s << b; bit(b); cov("bits"); trace("%d ", b); }
        VF_CHECK(sink.got.size() == want.size(), "byte-count", "after operation %d %zu bytes came out, %zu are complete", i, sink.got.size(), want.size());
        for (size_t k = want.size() > 2 ? want.size() - 2 : 0; k < want.size(); ++k) VF_CHECK(sink.got[k] == want[k], "bits-differ", "byte %zu is %02x instead of %02x", k, sink.got[k], want[k]);
    }
    s.flush(); while (!open.empty()) bit(false);
    VF_CHECK(sink.got == want, "bits-differ", "the bytes differ after the last flush");
    s.flush();
    VF_CHECK(sink.got == want, "flush-leaves", "a second flush emitted %zu more bytes", sink.got.size() - want.size());
    cov("bytes compared", want.size());
    if (unaligned) nontrivial();
    for (auto b: want) sigAdd(b);
}

std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
std::string words(uint32_t c, bool wide, bool big)
{
    std::string s; auto unit = [&](uint32_t v, int n) { for (int i = 0; i < n; ++i) s += char(v >> 8 * (big ? n - 1 - i : i)); };
    if (wide) unit(c, 4);
    else if (c < 0x10000) unit(c, 2);
    else { c -= 0x10000; unit(0xd800 | c >> 10, 2); unit(0xdc00 | (c & 0x3ff), 2); }
    return s;
}
uint32_t randomCp(Rng& r)
{
    for (;;)
    {
        uint32_t c = uint32_t(r.chance(1, 4) ? r.range(1, 0x7f) : r.chance(1, 3) ? r.range(0x80, 0x7ff) : r.chance(1, 2) ? r.range(0x800, 0xfffd) : r.range(0x10000, 0x10ffff));
        if ((c < 0xd800 || c > 0xdfff) && c != 0xfeff) return c;
    }
}
// one character at once, by a converter of its own; empty: the set lacks it or it is no single character
std::string encodeAlone(const char* enc, uint32_t c)
{
    iconv_t d = iconv_open(enc, "UCS-4LE"), back = iconv_open("UCS-4LE", enc);
    if (d == iconv_t(-1) || back == iconv_t(-1)) { fprintf(stderr, "no %s\n", enc); _exit(98); }
    char out[16]; char* in = reinterpret_cast<char*>(&c); size_t n = 4, m = sizeof out; char* o = out; std::string s;
    if (iconv(d, &in, &n, &o, &m) == 0 && iconv(d, nullptr, nullptr, &o, &m) == 0) s.assign(out, sizeof out - m);
    if (!s.empty())
    {
        uint32_t b[4] = {}; in = &s[0]; n = s.size(); o = reinterpret_cast<char*>(b); m = sizeof b;
        if (iconv(back, &in, &n, &o, &m) != 0 || m != sizeof b - 4 || b[0] != c || s.size() > 4) s.clear();
    }
    iconv_close(d); iconv_close(back);
    return s;
}

void k04(Rng& r)
{
    bool raw = r.chance(1, 2);
    auto feed = [&](EncodingConverter& c, const std::string& bytes, uint32_t want, const char* enc, bool judged) {
        for (size_t i = 0; i < bytes.size(); ++i)
        {
            bool last = i + 1 == bytes.size();
            if (raw)
            {
                uint32_t got = c.convertRaw(bytes[i]);
                if (judged) VF_CHECK(got == (last ? want : 0), last ? "code-point" : "incomplete", "%s: byte %zu of %s gave U+%04X instead of U+%04X", enc, i + 1, hex(bytes.data(), bytes.size()).c_str(), got, last ? want : 0);
            }
            else
            {
                std::string got = c.convert(bytes[i]), w = last && want ? utf8(want) : "";
                if (last && !want && bytes == std::string(1, 0)) w = std::string(1, 0);
                if (judged) VF_CHECK(got == w, last ? "text" : "incomplete", "%s: byte %zu of %s gave text %s instead of %s", enc, i + 1, hex(bytes.data(), bytes.size()).c_str(), hex(got.data(), got.size()).c_str(), hex(w.data(), w.size()).c_str());
            }
        }
        cov(raw ? "raw characters" : "text characters"); sigAdd(bytes);
    };
    int n = int(r.range(1, 60));
    if (r.chance(1, 2))
    {
        auto& p = codePages[r.range(0, nCodePages - 1)];
        EncodingConverter c(p.name, raw ? "UCS-4LE" : "UTF-8");
        trace("%s: ", p.name);
        bool ordered = r.chance(1, 3); int at = int(r.range(0, 255));
        for (int i = 0; i < n; ++i)
        {
            int b = ordered ? (at + i) & 255 : int(r.range(0, 255)); uint32_t cp = p.cp[b];
            if (cp == kUndefined)
            {   // nothing, and no trace of it
                std::string t; uint32_t v = 0; if (raw) v = c.convertRaw(char(b)); else t = c.convert(char(b));
                VF_CHECK(v == 0 && t.empty(), "undefined-byte", "%s: undefined byte %02x gave something", p.name, b); cov("invalid bytes");
            }
            else feed(c, std::string(1, char(b)), cp, p.name, cp != kSkip);
            trace("%02x ", b);
        }
        cov("8-bit histories");
    }
    else
    {
        static const char* own[] = { "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE" };
        static const char* cjk[] = { "GB18030", "GBK", "EUC-JP", "SHIFT_JIS", "EUC-KR", "BIG5", "EUC-TW", "CP949", "CP932" };
        bool o = r.chance(3, 5); int k = int(o ? r.range(0, 4) : r.range(0, 8)); const char* enc = o ? own[k] : cjk[k];
        EncodingConverter c(enc, raw ? "UCS-4LE" : "UTF-8");
        trace("%s: ", enc);
        for (int i = 0; i < n; ++i)
        {
            uint32_t cp = randomCp(r);
            if (!o && r.chance(2, 3)) cp = uint32_t(r.range(0x4e00, 0x9fa5));
            std::string b = !o ? encodeAlone(enc, cp) : k == 0 ? utf8(cp) : words(cp, k > 2, k % 2 == 0);
            if (b.empty()) continue;
            feed(c, b, cp, enc, true);
            trace("U+%04X ", cp);
            cov(b.size() == 1 ? "1 byte" : b.size() == 2 ? "2 bytes" : b.size() == 3 ? "3 bytes" : "4 bytes");
            if (o && k == 0 && r.chance(1, 6))
            {   // invalid on their own or inside a character
                std::string bad = r.pick<std::string>({ "\xff", "\x80", "\xbf", "\xfe", "\xc3\xff", "\xe2\x82\xff", "\xf0\x9f\xff", "\xf0\xff", "\xe2\xff" });
                for (char x: bad)
                {
                    std::string t; uint32_t v = 0; if (raw) v = c.convertRaw(x); else t = c.convert(x);
                    VF_CHECK(v == 0 && t.empty(), "invalid-byte", "%s: invalid bytes %s gave something", enc, hex(bad.data(), bad.size()).c_str());
                }
                cov("invalid bytes"); trace("(%s) ", hex(bad.data(), bad.size()).c_str());
            }
        }
        cov("multi-byte histories");
    }
    nontrivial();
}
}
int main(int argc, char** argv)
{
    return run(argc, argv, [] { auto& r = rng(); if (st().prop == "K03") k03(r); else k04(r); });
}
