// F01, F02, V01..V07, R01: frame buffers, canvas, fonts.
#include "vf.h"
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"
#include "graphics/GFXFontsAdapter.h"

using vf::rng;
using embedded::fonts::EmbeddedFont;
using embedded::fonts::FontDescriptor;
using embedded::fonts::GlyphDescriptor;

namespace
{
// ---------------------------------------------------------------- frame buffers
struct FbPtr
{
    FrameBufferBase* fb; std::function<void()> del;
    ~FbPtr() { del(); }
};
template<class T> struct Dirty
{
    // created in dirty, exactly sized memory
    static FrameBufferBase* make(std::function<void()>& del)
    {
        void* mem = ::operator new(sizeof(T), std::align_val_t(alignof(T)));
        memset(mem, rng().byte(), sizeof(T));
        T* t = new (mem) T();
        del = [t] { ::operator delete(static_cast<void*>(t), std::align_val_t(alignof(T))); };
        return t;
    }
};
struct FbKind { int w, h, depth; FrameBufferBase* (*make)(std::function<void()>&); };
template<int w, int h, int d> constexpr FbKind fb() { return { w, h, d, Dirty<SimpleFrameBuffer<w, h, uint8_t(d)>>::make }; }
const std::vector<FbKind> kinds = {
    fb<8, 1, 1>(), fb<8, 5, 1>(), fb<16, 7, 1>(), fb<24, 9, 1>(), fb<48, 60, 1>(), fb<296, 128, 1>(), fb<128, 3, 1>(), fb<600, 100, 1>(),
    fb<4, 1, 2>(), fb<4, 5, 2>(), fb<8, 3, 2>(), fb<12, 7, 2>(), fb<20, 4, 2>(), fb<200, 200, 2>(),
    fb<2, 1, 4>(), fb<2, 5, 4>(), fb<6, 3, 4>(), fb<10, 7, 4>(), fb<14, 2, 4>(), fb<400, 100, 4>(),
    fb<1, 1, 8>(), fb<3, 5, 8>(), fb<7, 2, 8>(), fb<13, 4, 8>(), fb<320, 240, 8>(),
    fb<1, 1, 16>(), fb<3, 5, 16>(), fb<7, 3, 16>(), fb<11, 2, 16>(), fb<320, 240, 16>(),
    fb<1, 1, 24>(), fb<3, 5, 24>(), fb<7, 3, 24>(), fb<5, 4, 24>(), fb<240, 100, 24>(),
    fb<1, 1, 32>(), fb<3, 5, 32>(), fb<7, 3, 32>(), fb<5, 4, 32>(), fb<160, 120, 32>(),
};
// larger than any counter of 16 bits, offsets beyond 2^22 bits and 2^16 rows or columns
const std::vector<FbKind> bigKinds = {
    fb<800, 600, 16>(), fb<1024, 600, 32>(), fb<4096, 300, 1>(), fb<2048, 1030, 8>(), fb<70000, 8, 8>(), fb<8, 70000, 1>(), fb<4, 70000, 4>(), fb<1280, 800, 24>(), fb<2000, 600, 2>(), fb<2, 33000, 4>(), fb<33000, 3, 16>(),
};
FbPtr makeFb(const FbKind& k)
{
    FbPtr p { nullptr, {} };
    p.fb = k.make(p.del);
    return p;
}
uint32_t maxColor(int depth) { return depth == 32 ? 0xffffffffu : (1u << depth) - 1; }
uint32_t randomColor(int depth)
{
    switch (rng().next() % 7)
    {
    case 0: return 0;
    case 1: return maxColor(depth);
    case 2: return maxColor(depth) & ~1u;
    case 3: return 1u << (rng().next() % unsigned(depth));
    case 4: return uint32_t(rng().notable(0, 0xffffffffll)) & maxColor(depth);
    default: return uint32_t(rng().next()) & maxColor(depth);
    }
}
using Bytes = std::vector<uint8_t>;
Bytes imageOf(FrameBufferBase& fb) { auto v = fb.getImage(); return Bytes(v.begin(), v.end()); }
// independent pixel access on a packed, row-major, most-significant-first image
uint32_t pixelOf(const Bytes& img, const FbKind& k, int x, int y)
{
    uint64_t bit = (uint64_t(y) * uint64_t(k.w) + uint64_t(x)) * uint64_t(k.depth);
    uint32_t v = 0;
    for (int i = 0; i < k.depth; ++i, ++bit) v = v << 1 | (img[bit / 8] >> (7 - bit % 8) & 1u);
    return v;
}
void putPixel(Bytes& img, const FbKind& k, int x, int y, uint32_t c)
{
    uint64_t bit = (uint64_t(y) * uint64_t(k.w) + uint64_t(x)) * uint64_t(k.depth);
    for (int i = k.depth - 1; i >= 0; --i, ++bit)
    {
        uint8_t m = uint8_t(0x80 >> (bit % 8));
        if (c >> i & 1u) img[bit / 8] |= m; else img[bit / 8] &= uint8_t(~m);
    }
}
void checkGeometry(FrameBufferBase& fb, const FbKind& k)
{
    VF_CHECK(fb.getWidth() == k.w && fb.getHeight() == k.h, "dimensions", "declared %dx%d, reported %dx%d (depth %d)", k.w, k.h, fb.getWidth(), fb.getHeight(), k.depth);
    const size_t bytes = size_t(k.w) * size_t(k.h) * size_t(k.depth) / 8;
    VF_CHECK(fb.getImage().size() == bytes, "image-size", "%dx%d depth %d: image of %zu bytes, expected %zu", k.w, k.h, k.depth, size_t(fb.getImage().size()), bytes);
    const FrameBufferBase& c = fb;
    VF_CHECK(c.getImage().size() == bytes && c.getImage().begin() == fb.getImage().begin(), "image-view", "constant image view differs");
}

const FbKind& randomKind() { auto* k = &rng().pick(kinds); if (k->w * k->h > 3000 && !rng().chance(1, 8)) k = &rng().pick(kinds); return *k; }
const FbKind& randomKindOrBig() { if (rng().chance(1, 300)) { vf::cov("frames beyond 65535 pixels"); return rng().pick(bigKinds); } return randomKind(); }

void caseF01()
{
    const auto& k = randomKindOrBig();
    auto p = makeFb(k);
    auto& fb = *p.fb;
    checkGeometry(fb, k);
    auto img = fb.getImage();
    rng().fill(&img[0], img.size());
    Bytes model(img.begin(), img.end());
    vf::trace("%dx%d depth %d:", k.w, k.h, k.depth);
    vf::note("%dx%d depth %d", k.w, k.h, k.depth);
    vf::sigAdd(uint64_t(k.w) * 100000 + uint64_t(k.h * 100 + k.depth));
    uint32_t color = maxColor(k.depth);
    Canvas canvas(fb);      // colours and pixels also reach the buffer through a canvas
    const bool all = k.w * k.h < 400 && rng().chance(1, 4);
    int ops = all ? k.w * k.h : int(rng().range(1, 60));
    for (int i = 0; i < ops; ++i)
    {
        uint32_t raw = color;
        bool beyond = false;
        if (i == 0 ? rng().chance(3, 4) : rng().chance(1, 2))
        {
            raw = randomColor(k.depth);
            // a colour with extra high bits selects its low ones (depths above one)
            if (k.depth > 1 && rng().chance(1, 5)) { beyond = true; raw |= ~maxColor(k.depth) & uint32_t(rng().next()); }
            if (rng().chance(1, 2)) fb.setColor(raw); else { canvas.setColor(raw); vf::cov("colours set through a canvas"); }
            color = raw & maxColor(k.depth);
        }
        int x = all ? i % k.w : int(rng().next() % unsigned(k.w)), y = all ? i / k.w : int(rng().next() % unsigned(k.h));
        if (!all && rng().chance(1, 6)) { x = rng().chance(1, 2) ? 0 : k.w - 1; y = rng().chance(1, 2) ? 0 : k.h - 1; }
        if (rng().chance(2, 3)) fb.drawPixel(x, y); else canvas.drawPixel({ x, y });
        putPixel(model, k, x, y, color);
        auto now = fb.getImage();
        if (memcmp(now.begin(), model.data(), model.size()) != 0)
        {
            Bytes cur(now.begin(), now.end());
            size_t at = 0;
            while (cur[at] == model[at]) ++at;
            vf::fail(pixelOf(cur, k, x, y) == color ? "other-pixel" : "pixel-value", vf::fmt("%dx%d depth %d: pixel (%d,%d) colour 0x%x reads 0x%x; first differing byte %zu: 0x%02x expected 0x%02x", k.w, k.h, k.depth, x, y, color, pixelOf(cur, k, x, y), at, cur[at], model[at]));
        }
        vf::sigAdd(uint64_t(x) << 40 | uint64_t(y) << 20 | color);
        if (beyond) vf::cov("colours with extra bits");
    }
    vf::cov(vf::fmt("pixels at depth %d", k.depth).c_str(), uint64_t(ops));
    // an interleaved clear neither changes the selected colour nor leaves anything
    if (rng().chance(1, 3))
    {
        uint32_t c = randomColor(k.depth);
        fb.clear(c);
        for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) putPixel(model, k, x, y, c);
        int x = int(rng().next() % unsigned(k.w)), y = int(rng().next() % unsigned(k.h));
        fb.drawPixel(x, y);
        putPixel(model, k, x, y, color);
        VF_CHECK(imageOf(fb) == model, "after-clear", "%dx%d depth %d: drawing 0x%x at (%d,%d) after clear(0x%x)", k.w, k.h, k.depth, color, x, y, c);
        vf::cov("drawn after clear");
    }
    vf::nontrivial();
}

void caseF02()
{
    const auto& k = randomKindOrBig();
    auto p = makeFb(k);
    auto& fb = *p.fb;
    vf::trace("%dx%d depth %d:", k.w, k.h, k.depth);
    vf::note("%dx%d depth %d", k.w, k.h, k.depth);
    checkGeometry(fb, k);
    Canvas canvas(fb);
    VF_CHECK(canvas.getSize().width == k.w && canvas.getSize().height == k.h, "dimensions", "canvas size");
    // brightest colour by default
    auto img = fb.getImage();
    rng().fill(&img[0], img.size());
    Bytes model(img.begin(), img.end());
    {
        int x = int(rng().next() % unsigned(k.w)), y = int(rng().next() % unsigned(k.h));
        fb.drawPixel(x, y);
        putPixel(model, k, x, y, maxColor(k.depth));
        VF_CHECK(imageOf(fb) == model, "default-color", "%dx%d depth %d: first pixel drawn has colour 0x%x", k.w, k.h, k.depth, pixelOf(imageOf(fb), k, x, y));
        vf::sigAdd(uint64_t(x) << 20 | uint64_t(y));
    }
    int n = int(rng().range(1, 4));
    for (int i = 0; i < n; ++i)
    {
        uint32_t c = randomColor(k.depth);
        if (rng().chance(1, 2)) rng().fill(&img[0], img.size());
        if (rng().chance(1, 3)) fb.setColor(randomColor(k.depth));
        // extra high bits select the colour of the low ones (depth one: any one colour, but the same everywhere)
        const bool beyond = rng().chance(1, 4) && k.depth < 32;
        const uint32_t raw = beyond ? c | (~maxColor(k.depth) & uint32_t(rng().next())) : c;
        if (rng().chance(1, 2)) fb.clear(raw); else canvas.clear(raw);
        auto now = imageOf(fb);
        if (beyond) { vf::cov("clears with extra bits"); if (k.depth == 1) c = pixelOf(now, k, 0, 0); }
        Bytes expect(now.size(), 0);
        for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) putPixel(expect, k, x, y, c);
        VF_CHECK(now == expect, "clear", "%dx%d depth %d: clear(0x%x) left other bits", k.w, k.h, k.depth, raw);
        vf::trace(" clear(0x%x)", raw);
        vf::sigAdd(raw);
        vf::cov(vf::fmt("clears at depth %d", k.depth).c_str());
    }
    vf::sigAdd(uint64_t(k.w) * 100000 + uint64_t(k.h * 100 + k.depth));
    vf::nontrivial();
}

// ---------------------------------------------------------------- canvas
using Pt = std::pair<int, int>;
using Pixels = std::set<Pt>;

struct Recorder final : FrameBufferBase
{
    int w, h;
    std::vector<uint8_t> set;
    uint64_t calls = 0;
    uint32_t lastColor = 0;
    Recorder(int w, int h) : w(w), h(h), set(size_t(w) * size_t(h), 0) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override { std::fill(set.begin(), set.end(), uint8_t(0)); }
    void setColor(uint32_t c) override { lastColor = c; }
    void drawPixel(int x, int y) override
    {
        ++calls;
        VF_CHECK(x >= 0 && x < w && y >= 0 && y < h, "outside-frame", "pixel (%d,%d) set outside the %dx%d frame", x, y, w, h);
        set[size_t(y) * size_t(w) + size_t(x)] = 1;
    }
    bool at(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h && set[size_t(y) * size_t(w) + size_t(x)]; }
    Pixels pixels(int dx = 0, int dy = 0) const
    {
        Pixels r;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (set[size_t(y) * size_t(w) + size_t(x)]) r.insert({ x - dx, y - dy });
        return r;
    }
};
// any size of frame: only the list of pixels is kept
struct Sparse final : FrameBufferBase
{
    int w, h;
    std::vector<Pt> list;
    bool sorted = true;
    Sparse(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override { list.clear(); }
    void setColor(uint32_t) override {}
    void drawPixel(int x, int y) override
    {
        VF_CHECK(x >= 0 && x < w && y >= 0 && y < h, "outside-frame", "pixel (%d,%d) set outside the %dx%d frame", x, y, w, h);
        if (list.size() < (1u << 24)) list.push_back({ x, y });
        sorted = false;
    }
    const std::vector<Pt>& pixels()
    {
        if (!sorted) { std::sort(list.begin(), list.end()); list.erase(std::unique(list.begin(), list.end()), list.end()); sorted = true; }
        return list;
    }
    bool at(int x, int y) { pixels(); return std::binary_search(list.begin(), list.end(), Pt { x, y }); }
};
const Canvas::Rotation rotations[4] = { Canvas::Rotation::Rotation0, Canvas::Rotation::Rotation90, Canvas::Rotation::Rotation180, Canvas::Rotation::Rotation270 };

// A font with its tables in exact heap blocks.
struct TestFont
{
    std::unique_ptr<vf::Block> bitmapBlock, glyphBlock;
    std::unique_ptr<FontDescriptor> desc;
    std::unique_ptr<EmbeddedFont> font;
    struct G { uint8_t w, h, adv; int8_t ox, oy; uint16_t off; std::vector<uint8_t> bits; };
    std::vector<G> glyphs;
    int first = 0, last = 0;
    bool shortTable = false;
    const EmbeddedFont& f() const { return *font; }
    // index of the glyph that has to represent the code
    int indexOf(int code) const
    {
        if (code < first || code > last || (code > 0x7e && code < 0xa0)) return 0;
        const int i = code <= 0x7e || first > 0x7e ? code - first : code - first - 33;
        return i < int(glyphs.size()) ? i : 0;
    }
};
TestFont randomFont(int maxDim)
{
    TestFont t;
    const bool wide = rng().chance(1, 2);
    t.first = int(rng().pick<int64_t>({ 32, 33, 'A', rng().range(1, 126), rng().range(1, 126), 126, 0 }));
    if (wide)
    {
        t.last = int(rng().pick<int64_t>({ 255, 255, 0xa0, rng().range(0xa0, 255) }));
        if (rng().chance(1, 2)) t.first = 32;
        else if (rng().chance(1, 4)) t.first = int(rng().range(0xa0, t.last));     // the upper half alone
    }
    else t.last = int(rng().pick<int64_t>({ 126, 126, t.first, rng().range(t.first, 126) }));
    int n = wide && t.first <= 0x7e ? t.last - t.first + 1 - 33 : t.last - t.first + 1;
    // a table that ends before the last character does not contain the rest
    if (n > 1 && rng().chance(1, 8)) { n = rng().chance(1, 2) ? n - 1 : int(rng().range(1, n - 1)); t.shortTable = true; }
    std::vector<uint8_t> bits;
    std::vector<GlyphDescriptor> gd;
    int style = int(rng().next() % 4);
    const int giant = maxDim > 16 && rng().chance(1, 3) ? int(rng().range(0, n - 1)) : -1;  // one very large glyph, or a number of them
    const bool crowd = rng().chance(1, 2);
    for (int i = 0; i < n; ++i)
    {
        TestFont::G g {};
        if (!rng().chance(1, 10)) { g.w = uint8_t(rng().range(0, maxDim)); g.h = uint8_t(rng().range(0, maxDim)); }
        if (rng().chance(1, 10)) { g.w = 8; }
        if (i == giant || (giant >= 0 && crowd && rng().chance(1, 8))) { const int64_t low = rng().pick<int64_t>({ 100, 181, 240, 255 }); g.w = uint8_t(rng().range(low, 255)); g.h = uint8_t(rng().range(low, 255)); vf::cov("glyphs beyond 10000 pixels"); }
        else if (rng().chance(1, 30) && maxDim > 8) { g.w = uint8_t(rng().range(0, 255)); g.h = uint8_t(rng().range(0, 3)); if (rng().chance(1, 2)) std::swap(g.w, g.h); }
        g.ox = int8_t(style == 0 ? 0 : style == 1 ? rng().range(0, 5) : style == 2 ? rng().range(-6, 6) : rng().range(-128, 127) / (rng().chance(1, 8) ? 1 : 12));
        g.oy = int8_t(style == 0 ? -int(g.h) : style == 3 && rng().chance(1, 8) ? rng().range(-128, 127) : rng().range(-maxDim - 4, 6));
        g.adv = uint8_t(rng().chance(1, 6) ? rng().range(0, 255) % (maxDim * 3 + 1) : rng().range(0, maxDim + 4));
        g.off = uint16_t(bits.size());
        size_t nb = size_t(g.w) * g.h;
        if (bits.size() + (nb + 7) / 8 > 60000) { g.w = g.h = 0; nb = 0; }
        int dens = int(rng().range(0, 4));
        g.bits.assign(nb, 0);
        for (size_t b = 0; b < nb; ++b) g.bits[b] = dens == 4 ? 1 : dens == 0 ? 0 : rng().chance(dens, 4);
        if (nb && rng().chance(1, 2)) { g.bits[nb - 1] = 1; g.bits[0] = 1; }
        for (size_t b = 0; b < nb; b += 8)
        {
            uint8_t v = 0;
            for (size_t j = 0; j < 8; ++j) if (b + j < nb) v |= uint8_t(g.bits[b + j] << (7 - j)); else v |= uint8_t(rng().next() & 1) << (7 - j); // padding bits are arbitrary
            bits.push_back(v);
        }
        if (rng().chance(1, 20)) bits.push_back(0xff); // fonts may align glyphs
        GlyphDescriptor d { g.off, { g.w, g.h }, g.adv, { g.ox, g.oy } };
        gd.push_back(d);
        t.glyphs.push_back(std::move(g));
    }
    if (bits.size() > 32767) vf::cov("fonts beyond 32767 bitmap bytes");
    t.bitmapBlock = std::make_unique<vf::Block>(bits.size());
    if (!bits.empty()) memcpy(t.bitmapBlock->data(), bits.data(), bits.size());
    t.glyphBlock = std::make_unique<vf::Block>(gd.size() * sizeof(GlyphDescriptor));
    memcpy(t.glyphBlock->data(), gd.data(), gd.size() * sizeof(GlyphDescriptor));
    t.desc = std::make_unique<FontDescriptor>();
    t.desc->bitmap = embedded::ConstBytesView(t.bitmapBlock->data(), bits.size());
    t.desc->glyph = embedded::MemoryView<const GlyphDescriptor>(reinterpret_cast<GlyphDescriptor*>(t.glyphBlock->data()), gd.size());
    t.desc->first = uint8_t(t.first);
    t.desc->last = uint8_t(t.last);
    t.desc->verticalShift = uint8_t(maxDim);
    t.font = std::make_unique<EmbeddedFont>(*t.desc);
    return t;
}
std::string randomText(const TestFont& t, int maxLen)
{
    std::string s;
    int n = int(rng().range(1, maxLen));
    for (int i = 0; i < n; ++i)
    {
        int c;
        switch (rng().next() % 8)
        {
        case 0: c = int(rng().next() & 255); break;
        case 1: c = int(rng().pick<int64_t>({ t.first, t.last, t.first - 1, t.last + 1, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0 })) & 255; break;
        default: c = int(rng().range(t.first, t.last));
        }
        s += char(c);
    }
    return s;
}

struct Shape
{
    int kind = 0; // 0 pixel, 1 line, 2 rect, 3 filled rect, 4 circle, 5 filled circle, 6 text
    int x = 0, y = 0, x2 = 0, y2 = 0; // second point / size / radius in x2
    const TestFont* font = nullptr;
    std::string text;
    std::string str() const
    {
        static const char* n[] = { "pixel", "line", "rect", "filled rect", "circle", "filled circle", "text" };
        return vf::fmt("%s(%d,%d; %d,%d%s)", n[kind], x, y, x2, y2, kind == 6 ? vf::fmt("; %zu chars", text.size()).c_str() : "");
    }
};
void draw(Canvas& c, const Shape& s, int dx = 0, int dy = 0)
{
    switch (s.kind)
    {
    case 0: c.drawPixel({ s.x + dx, s.y + dy }); break;
    case 1: c.drawLine({ s.x + dx, s.y + dy }, { s.x2 + dx, s.y2 + dy }); break;
    case 2: c.drawRectangle({ { s.x + dx, s.y + dy }, { s.x2, s.y2 } }); break;
    case 3: c.drawFilledRectangle({ { s.x + dx, s.y + dy }, { s.x2, s.y2 } }); break;
    case 4: c.drawCircle({ s.x + dx, s.y + dy }, s.x2); break;
    case 5: c.drawCircle({ s.x + dx, s.y + dy }, s.x2, true); break;
    default: c.drawStringAt({ s.x + dx, s.y + dy }, s.text, s.font->f());
    }
}
const TestFont& cachedFont()
{
    static TestFont t;
    t = randomFont(int(rng().range(1, 14)));
    return t;
}
// distances at which narrower arithmetic would change its mind
int notable()
{
    int v = int(rng().pick<int64_t>({ 64, 100, 127, 128, 129, 200, 255, 256, 257, 319, 320, 500, 511, 512, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 100000 }));
    if (rng().chance(1, 8)) v = int(rng().range(0, 1100));
    return rng().chance(2, 3) ? -v : v;
}
Shape randomShape(int w, int h, int reach, bool far = false)
{
    Shape s;
    s.kind = int(rng().next() % 7);
    auto cx = [&] { return int(rng().chance(1, 3) ? rng().range(-2, 2) + rng().pick<int64_t>({ 0, w - 1, w / 2 }) : rng().chance(1, 4) ? rng().range(-reach, w + reach) : rng().range(0, w - 1)); };
    auto cy = [&] { return int(rng().chance(1, 3) ? rng().range(-2, 2) + rng().pick<int64_t>({ 0, h - 1, h / 2 }) : rng().chance(1, 4) ? rng().range(-reach, h + reach) : rng().range(0, h - 1)); };
    s.x = cx(); s.y = cy();
    switch (s.kind)
    {
    case 1: s.x2 = cx(); s.y2 = cy(); if (rng().chance(1, 6)) s.x2 = s.x; if (rng().chance(1, 6)) s.y2 = s.y; break;
    case 2: case 3: s.x2 = int(rng().range(0, rng().chance(1, 5) ? w + reach : 9)); s.y2 = int(rng().range(0, rng().chance(1, 5) ? h + reach : 9)); break;
    case 4: case 5: s.x2 = int(rng().range(0, rng().chance(1, 5) ? reach : 12)); break;
    case 6: s.font = &cachedFont(); s.text = randomText(*s.font, 4); break;
    default: break;
    }
    if (far)
    {
        vf::cov("shapes at notable distances");
        const bool horizontal = rng().chance(1, 2), both = rng().chance(1, 6);
        if (horizontal || both) s.x = notable();
        if (!horizontal || both) s.y = notable();
        auto jitter = [] { return int(rng().range(-3, 3)); };
        switch (s.kind)
        {
        case 2: case 3: // sometimes reaching into the frame
            if (rng().chance(2, 3)) { s.x2 = std::max(0, -s.x + int(rng().range(-2, w + 3))); s.y2 = std::max(0, -s.y + int(rng().range(-2, h + 3))); }
            break;
        case 4: case 5:
            s.x2 = std::max(0, std::max(std::abs(s.x), std::abs(s.y)) + (rng().chance(1, 2) ? jitter() : int(rng().range(-60, 60))));
            if (s.kind == 5 && s.x2 > 700) s.kind = 4;
            break;
        default: break;
        }
    }
    return s;
}
void sig(const Shape& s) { vf::sigAdd(uint64_t(s.kind) | uint64_t(uint16_t(s.x)) << 8 | uint64_t(uint16_t(s.y)) << 24); vf::sigAdd(uint64_t(uint32_t(s.x2)) << 32 | uint32_t(s.y2)); vf::sigAdd(s.text); }

void caseV01()
{
    int w = int(rng().range(1, 40)), h = int(rng().range(1, 40));
    int rot = int(rng().next() % 4);
    const int reach = rng().chance(1, 10) ? 200 : 40;
    const int margin = 4 * reach + 400;
    int lw = rot % 2 ? h : w, lh = rot % 2 ? w : h;
    Recorder small(w, h);
    Canvas c(small);
    c.setRotation(rotations[rot]);
    Shape s = randomShape(lw, lh, reach, rng().chance(1, 10));
    vf::trace("%dx%d rotation %d: %s", w, h, rot * 90, s.str().c_str());
    vf::note("%dx%d rotation %d: %s", w, h, rot * 90, s.str().c_str());
    sig(s); vf::sigAdd(uint64_t(w * 1000 + h * 4 + rot));
    if (rng().chance(1, 30))
    {
        // far away: only the containment monitor applies, the frame must stay as it is where the shape cannot reach
        int big = int(rng().pick<int64_t>({ 1000, 1023, 1024, 4096, 32767, 32768, 40000, 65535, 65536, 70000, 100000, 1 << 20, 1 << 24, 1 << 28, 1 << 30, (1 << 30) + 12345 }));
        Shape f = s;
        if (f.kind == 6) big = std::max(big, 4096);
        f.x = int(rng().range(-reach, lw + reach)); f.y = int(rng().range(-reach, lh + reach));
        auto away = [&](int& v, int n) { v = rng().chance(1, 2) ? n + big - std::min(v, n) : -big + std::min(v, 0); };
        if (rng().chance(1, 2)) { away(f.x, lw); if (rng().chance(1, 2)) away(f.y, lh); } else away(f.y, lh);
        if (f.kind == 1) { f.x2 = f.x + int(rng().range(-9, 9)); f.y2 = f.y + int(rng().range(-9, 9)); }
        if (f.kind == 2 || f.kind == 3) { f.x2 = int(rng().range(0, 30)); f.y2 = int(rng().range(0, 30)); }
        if (f.kind == 4 || f.kind == 5) f.x2 = int(rng().range(0, 100));
        vf::trace("; far: %s", f.str().c_str());
        draw(c, f);
        VF_CHECK(small.pixels().empty(), "far-away", "%s set a pixel in a %dx%d frame", f.str().c_str(), w, h);
        vf::cov("far away shapes");
        return;
    }
    draw(c, s);
    Recorder large(w + 2 * margin, h + 2 * margin);
    Canvas lc(large);
    lc.setRotation(rotations[rot]);
    draw(lc, s, margin, margin);
    size_t visible = 0, total = 0;
    for (int y = 0; y < large.h; ++y) for (int x = 0; x < large.w; ++x)
    {
        const bool l = large.set[size_t(y) * size_t(large.w) + size_t(x)];
        total += l;
        const int sx = x - margin, sy = y - margin;
        if (sx < 0 || sy < 0 || sx >= w || sy >= h) continue;
        visible += l;
        const bool sm = small.at(sx, sy);
        VF_CHECK(sm == l, "clipping", "%dx%d rotation %d: %s: frame pixel (%d,%d) %s, in the larger frame %s", w, h, rot * 90, s.str().c_str(), sx, sy, sm ? "set" : "not set", l ? "set" : "not set");
    }
    if (visible && visible < total) { vf::cov("partly visible"); vf::nontrivial(); }
    if (!visible && total) vf::cov("invisible");
    if (visible && visible == total) vf::cov("fully visible");
    vf::cov("pixels set", small.calls);
    // a real frame buffer shows the same
    if (rng().chance(1, 3))
    {
        const auto& k = kinds[4]; // 48x60, depth 1
        auto p = makeFb(k);
        p.fb->clear(0);
        Canvas rc(*p.fb);
        rc.setRotation(rotations[rot]);
        rc.setColor(1);
        Recorder rr(k.w, k.h);
        Canvas rrc(rr);
        rrc.setRotation(rotations[rot]);
        for (int i = 0; i < 3; ++i)
        {
            Shape t = randomShape(rot % 2 ? k.h : k.w, rot % 2 ? k.w : k.h, 60);
            draw(rc, t); draw(rrc, t);
        }
        auto img = imageOf(*p.fb);
        for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) VF_CHECK(pixelOf(img, k, x, y) == uint32_t(rr.at(x, y)), "image", "frame buffer image differs at (%d,%d)", x, y);
        vf::cov("frame buffer images compared");
    }
}

Pt rotatePoint(int rot, int w, int h, int x, int y) // logical to frame coordinates
{
    switch (rot)
    {
    case 1: return { w - 1 - y, x };
    case 2: return { w - 1 - x, h - 1 - y };
    case 3: return { y, h - 1 - x };
    default: return { x, y };
    }
}

struct LineCheck { bool ok; std::string why; };
LineCheck lineOk(const Pixels& px, Pt a, Pt b)
{
    const int64_t dx = b.first - a.first, dy = b.second - a.second;
    const bool steep = std::llabs(dy) > std::llabs(dx);
    const int64_t L = std::max(std::llabs(dx), std::llabs(dy));
    if (!px.count(a) || !px.count(b)) return { false, vf::fmt("end point missing") };
    if (int64_t(px.size()) != L + 1) return { false, vf::fmt("%zu pixels for %lld steps", px.size(), (long long)L) };
    std::map<int64_t, int64_t> along;
    for (auto& p: px)
    {
        const int64_t m = steep ? p.second : p.first, n = steep ? p.first : p.second;
        if (along.count(m)) return { false, vf::fmt("two pixels at step %lld", (long long)m) };
        along[m] = n;
        const int64_t m0 = steep ? a.second : a.first, n0 = steep ? a.first : a.second, dm = steep ? dy : dx, dn = steep ? dx : dy;
        if (L)
        {
            // |n - (n0 + (m-m0)*dn/dm)| <= 1/2
            if (std::llabs(2 * ((n - n0) * dm - (m - m0) * dn)) > std::llabs(dm)) return { false, vf::fmt("pixel (%d,%d) is more than half a pixel off", p.first, p.second) };
        }
        const int64_t lo = std::min(m0, m0 + dm), hi = std::max(m0, m0 + dm);
        if (m < lo || m > hi) return { false, vf::fmt("pixel (%d,%d) beyond the end points", p.first, p.second) };
    }
    const std::pair<const int64_t, int64_t>* prev = nullptr;
    for (auto& e: along)
    {
        if (prev && (e.first != prev->first + 1 || std::llabs(e.second - prev->second) > 1)) return { false, vf::fmt("gap at step %lld", (long long)e.first) };
        prev = &e;
    }
    return { true, "" };
}

void caseV02()
{
    int w = int(rng().range(1, 50)), h = int(rng().range(1, 50));
    int rot = int(rng().range(1, 3));
    int lw = rot % 2 ? h : w, lh = rot % 2 ? w : h;
    Recorder turned(w, h), plain(lw, lh);
    Canvas tc(turned), pc(plain);
    VF_CHECK(tc.getRotation() == Canvas::Rotation::Rotation0, "initial-rotation", "a new canvas is rotated");
    tc.setRotation(rotations[rot]);
    VF_CHECK(tc.getRotation() == rotations[rot], "rotation", "getRotation()");
    VF_CHECK(tc.getSize().width == lw && tc.getSize().height == lh, "size", "%dx%d frame rotated by %d: canvas size %dx%d", w, h, rot * 90, tc.getSize().width, tc.getSize().height);
    VF_CHECK(pc.getSize().width == lw && pc.getSize().height == lh, "size", "unrotated canvas size %dx%d of %dx%d", pc.getSize().width, pc.getSize().height, lw, lh);
    Shape s = randomShape(lw, lh, 30);
    if (s.kind != 1 && rng().chance(1, 12)) do s = randomShape(lw, lh, 30, true); while (s.kind == 1);
    vf::trace("%dx%d rotation %d: %s", w, h, rot * 90, s.str().c_str());
    vf::note("%dx%d rotation %d: %s", w, h, rot * 90, s.str().c_str());
    sig(s); vf::sigAdd(uint64_t(w * 1000 + h * 4 + rot));
    if (s.kind == 1)
    {
        // lines: within half a pixel of the ideal (turned) line
        const int M = 130;
        Recorder big(w + 2 * M, h + 2 * M);
        Canvas bc(big);
        bc.setRotation(rotations[rot]);
        draw(bc, s, M, M);
        auto px = big.pixels(M, M);
        auto r = lineOk(px, rotatePoint(rot, w, h, s.x, s.y), rotatePoint(rot, w, h, s.x2, s.y2));
        VF_CHECK(r.ok, "rotated-line", "%dx%d rotation %d: line (%d,%d)-(%d,%d): %s", w, h, rot * 90, s.x, s.y, s.x2, s.y2, r.why.c_str());
        vf::cov("rotated lines");
        vf::nontrivial();
    }
    else
    {
        draw(tc, s);
        draw(pc, s);
        size_t n = 0;
        for (int y = 0; y < lh; ++y) for (int x = 0; x < lw; ++x)
        {
            auto [fx, fy] = rotatePoint(rot, w, h, x, y);
            const bool a = plain.at(x, y), b = turned.at(fx, fy);
            n += a;
            VF_CHECK(a == b, "rotated", "%dx%d rotation %d: %s: canvas pixel (%d,%d) is %s without rotation and %s with it", w, h, rot * 90, s.str().c_str(), x, y, a ? "set" : "clear", b ? "set" : "clear");
        }
        if (n > 0) vf::nontrivial();
        static const char* names[] = { "rotated pixels", "", "rotated rectangles", "rotated filled rectangles", "rotated circles", "rotated filled circles", "rotated texts" };
        vf::cov(names[s.kind]);
    }
    // frames of any size: small shapes anywhere
    if (rng().chance(1, 3))
    {
        auto dim = [] { return int(rng().chance(1, 3) ? rng().range(1, 400) : rng().chance(1, 2) ? rng().range(240, 1100) : rng().pick<int64_t>({ 255, 256, 257, 32767, 32768, 65535, 65536, 70000, 1 << 20 })); };
        const int W = dim(), H = dim(), LW = rot % 2 ? H : W, LH = rot % 2 ? W : H;
        Sparse st(W, H), sp(LW, LH);
        Canvas stc(st), spc(sp);
        stc.setRotation(rotations[rot]);
        VF_CHECK(stc.getSize().width == LW && stc.getSize().height == LH, "size", "%dx%d frame rotated by %d: canvas size %dx%d", W, H, rot * 90, stc.getSize().width, stc.getSize().height);
        Shape f = randomShape(LW, LH, 30);
        if (f.kind == 1) { f.x2 = f.x + int(rng().range(-40, 40)); f.y2 = f.y + int(rng().range(-40, 40)); }
        if (f.kind == 2 || f.kind == 3) { f.x2 = int(rng().range(0, rng().chance(1, 4) ? 300 : 20)); f.y2 = int(rng().range(0, 20)); if (rng().chance(1, 2)) std::swap(f.x2, f.y2); }
        if (f.kind == 4 || f.kind == 5) f.x2 = int(rng().chance(1, 5) ? rng().chance(1, 16) ? rng().range(600, 1500) : rng().pick<int64_t>({ 127, 128, 129, 254, 255, 256, 257, 300, 511, 512 }) + rng().range(0, 3) : rng().range(0, 40));
        if ((f.kind == 4 || f.kind == 5) && f.x2 > 255) vf::cov("circles beyond radius 255");
        if (f.kind == 1 && f.x != f.x2 && f.y != f.y2 && std::abs(f.x - f.x2) != std::abs(f.y - f.y2)) f.x2 = f.x;
        draw(stc, f); draw(spc, f);
        std::vector<Pt> turnedPixels;
        for (auto& p: sp.pixels()) turnedPixels.push_back(rotatePoint(rot, W, H, p.first, p.second));
        std::sort(turnedPixels.begin(), turnedPixels.end());
        VF_CHECK(turnedPixels == st.pixels(), "rotated", "%dx%d rotation %d: %s: %zu pixels rotated, %zu not, or at other places", W, H, rot * 90, f.str().c_str(), st.pixels().size(), turnedPixels.size());
        vf::cov("frames of any size");
        vf::cov("pixels in frames of any size", turnedPixels.size());
    }
    // transformed rectangles
    Canvas::Rect rect { { int(rng().range(-60, 60)), int(rng().range(-60, 60)) }, { int(rng().range(1, 60)), int(rng().range(1, 60)) } };
    auto t = tc.transformCoords(rect);
    int minX = INT_MAX, minY = INT_MAX, maxX = INT_MIN, maxY = INT_MIN;
    for (int cx: { 0, rect.size.width - 1 }) for (int cy: { 0, rect.size.height - 1 })
    {
        auto [x, y] = rotatePoint(rot, w, h, rect.topLeft.x + cx, rect.topLeft.y + cy);
        minX = std::min(minX, x); maxX = std::max(maxX, x); minY = std::min(minY, y); maxY = std::max(maxY, y);
    }
    VF_CHECK(t.topLeft.x == minX && t.topLeft.y == minY && t.size.width == maxX - minX + 1 && t.size.height == maxY - minY + 1, "transformed-rect", "%dx%d rotation %d: rectangle (%d,%d %dx%d) -> (%d,%d %dx%d) expected (%d,%d %dx%d)", w, h, rot * 90,
             rect.topLeft.x, rect.topLeft.y, rect.size.width, rect.size.height, t.topLeft.x, t.topLeft.y, t.size.width, t.size.height, minX, minY, maxX - minX + 1, maxY - minY + 1);
    auto u = pc.transformCoords(rect);
    VF_CHECK(u.topLeft == rect.topLeft && u.size.width == rect.size.width && u.size.height == rect.size.height, "transformed-rect", "unrotated rectangle changed");
    vf::cov("rectangles transformed");
}

// a line of which the frame shows a part, or a very long one
void clippedLine()
{
    const bool lengthy = rng().chance(1, 60);
    const int rot = int(rng().next() % 4);
    const int W = lengthy ? int(rng().pick<int64_t>({ 100000, 70000, 200 })) : int(rng().range(1, 80)), H = lengthy ? int(rng().pick<int64_t>({ 100000, 300, 66000 })) : int(rng().range(1, 80));
    const int LW = rot % 2 ? H : W, LH = rot % 2 ? W : H;
    const bool atNotable = rng().chance(1, 12);
    auto co = [&](int n) { return int(atNotable && rng().chance(1, 2) ? notable() : rng().chance(1, 3) ? rng().range(-2, n + 1) : lengthy ? rng().range(-100000, n + 100000) : rng().chance(1, 3) ? rng().range(-400, n + 400) : rng().range(-60, n + 60)); };
    int ax = co(LW), ay = co(LH), bx = co(LW), by = co(LH);
    if (rng().chance(1, 5)) bx = ax;
    else if (rng().chance(1, 4)) by = ay;
    else if (rng().chance(1, 5)) { bx = ax + int(rng().range(-300, 300)); by = ay + (rng().chance(1, 2) ? bx - ax : ax - bx); }
    vf::trace("%dx%d rotation %d line (%d,%d)-(%d,%d)", W, H, rot * 90, ax, ay, bx, by);
    vf::note("%dx%d rotation %d line (%d,%d)-(%d,%d)", W, H, rot * 90, ax, ay, bx, by);
    Sparse s(W, H), back(W, H);
    Canvas c(s), bc(back);
    c.setRotation(rotations[rot]); bc.setRotation(rotations[rot]);
    c.drawLine({ ax, ay }, { bx, by });
    bc.drawLine({ bx, by }, { ax, ay });
    VF_CHECK(s.pixels() == back.pixels(), "reversed-line", "%s differs when drawn from the other end", vf::st().desc.c_str());
    const Pt a = rotatePoint(rot, W, H, ax, ay), b = rotatePoint(rot, W, H, bx, by);
    const int64_t dx = b.first - a.first, dy = b.second - a.second;
    const bool steep = std::llabs(dy) > std::llabs(dx);
    const int64_t L = std::max(std::llabs(dx), std::llabs(dy)), sgn = (steep ? dy : dx) < 0 ? -1 : 1;
    const int64_t m0 = steep ? a.second : a.first, n0 = steep ? a.first : a.second, dn = steep ? dx : dy;
    auto inside = [&](int64_t m, int64_t n) { int64_t x = steep ? n : m, y = steep ? m : n; return x >= 0 && y >= 0 && x < W && y < H; };
    size_t found = 0;
    for (int64_t i = 0; i <= L; ++i)
    {
        // positions within half a pixel of the ideal one: n with |n - (n0 + i*dn/L)| <= 1/2
        const int64_t m = m0 + sgn * i;
        if (!(m >= 0 && m < (steep ? H : W))) continue;
        const int64_t num = L ? 2 * i * dn + L : 1, den = L ? 2 * L : 2;
        int64_t hi = n0 + (num >= 0 ? num / den : -((-num + den - 1) / den));   // floor(ideal + 1/2)
        int64_t lo = num % den == 0 ? hi - 1 : hi;
        int set = 0, in = 0;
        for (int64_t n = lo; n <= hi; ++n) if (inside(m, n)) { ++in; set += s.at(int(steep ? n : m), int(steep ? m : n)); }
        VF_CHECK(set <= 1, "clipped-line", "%s: two pixels at step %lld", vf::st().desc.c_str(), (long long)i);
        VF_CHECK(set == 1 || in < int(hi - lo + 1), "clipped-line", "%s: no pixel at step %lld although it is visible", vf::st().desc.c_str(), (long long)i);
        found += size_t(set);
    }
    VF_CHECK(found == s.pixels().size(), "clipped-line", "%s: %zu pixels are more than half a pixel off the line", vf::st().desc.c_str(), s.pixels().size() - found);
    for (auto& e: { a, b }) if (inside(steep ? e.second : e.first, steep ? e.first : e.second)) VF_CHECK(s.at(e.first, e.second), "clipped-line", "%s: visible end point missing", vf::st().desc.c_str());
    vf::cov("clipped lines");
    if (L > 65535) vf::cov("lines beyond 65535 pixels");
    if (found && found < size_t(L + 1)) { vf::cov("partly visible lines"); vf::nontrivial(); }
    vf::cov("line pixels", found);
    vf::sigAdd(uint64_t(uint32_t(ax)) << 32 | uint32_t(bx)); vf::sigAdd(uint64_t(uint32_t(ay)) << 32 | uint32_t(by)); vf::sigAdd(uint64_t(W) << 24 | uint64_t(H) << 2 | uint64_t(rot));
}

void caseV03()
{
    if (vf::st().idx % 4 == 3) return clippedLine();
    const int rot = rng().chance(1, 4) ? int(rng().range(1, 3)) : 0;
    int span = rng().chance(1, 20) ? 400 : rng().chance(1, 3) ? 60 : 14;
    int ax, ay, bx, by;
    if (vf::st().idx % 2 == 0)
    {
        // systematically all direction vectors up to 60x60
        uint64_t k = (vf::st().idx / 2 + vf::st().seed * 7919) % (121 * 121);
        ax = ay = 0;
        bx = int(k % 121) - 60; by = int(k / 121) - 60;
        vf::cov("systematic directions");
        span = 60;
    }
    else
    {
        ax = int(rng().range(-span, span)); ay = int(rng().range(-span, span)); bx = int(rng().range(-span, span)); by = int(rng().range(-span, span));
    }
    const int M = 2 * span + 4;
    const int W = 2 * M + 1 + int(rng().range(0, 3)), H = 2 * M + 1;
    vf::trace("line (%d,%d)-(%d,%d) rotation %d", ax, ay, bx, by, rot * 90);
    vf::note("line (%d,%d)-(%d,%d) rotation %d", ax, ay, bx, by, rot * 90);
    auto one = [&](int x0, int y0, int x1, int y1) {
        Recorder r(W, H);
        Canvas c(r);
        c.setRotation(rotations[rot]);
        c.drawLine({ x0 + M, y0 + M }, { x1 + M, y1 + M });
        return r.pixels();
    };
    auto p = one(ax, ay, bx, by);
    Pt a = rotatePoint(rot, W, H, ax + M, ay + M), b = rotatePoint(rot, W, H, bx + M, by + M);
    auto r = lineOk(p, a, b);
    VF_CHECK(r.ok, "line", "line (%d,%d)-(%d,%d) rotation %d: %s", ax, ay, bx, by, rot * 90, r.why.c_str());
    auto q = one(bx, by, ax, ay);
    VF_CHECK(p == q, "reversed-line", "line (%d,%d)-(%d,%d) rotation %d differs when drawn from the other end", ax, ay, bx, by, rot * 90);
    vf::cov("lines");
    vf::cov("line pixels", p.size());
    if (ax != bx && ay != by) { vf::nontrivial(); vf::cov("oblique lines"); }
    vf::sigAdd(uint64_t(uint32_t(bx - ax)) << 32 | uint32_t(by - ay)); vf::sigAdd(uint64_t(rot));
}

// rectangles of which the frame shows a part, in frames of any size
void clippedRect()
{
    const int rot = int(rng().next() % 4);
    auto dim = [] { return int(rng().chance(2, 3) ? rng().range(1, 60) : rng().chance(1, 2) ? rng().range(240, 1100) : rng().pick<int64_t>({ 255, 256, 32768, 65535, 65536, 70000, 1 << 20 })); };
    const int W = dim(), H = dim(), LW = rot % 2 ? H : W, LH = rot % 2 ? W : H;
    const bool filled = rng().chance(1, 2);
    auto size = [&](int n) { return int(rng().chance(1, 8) ? rng().range(0, 2) : rng().chance(1, 6) ? std::min<int64_t>(n + rng().range(-2, 40), 3000) : rng().chance(1, 4) ? rng().range(0, 300) : rng().range(0, 30)); };
    int w = size(LW), h = size(LH);
    if (int64_t(w) * h > 2000000) h = 2000000 / w;
    if (rng().chance(1, 10))
    {   // the frame shows a window of something huge
        auto huge = [&] { return int(rng().pick<int64_t>({ 64, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 4096, 32767, 32768, 40000, 65535, 65536, 100000 })); };
        auto vast = [&] { return int(rng().pick<int64_t>({ 1 << 20, 1 << 24, 1 << 30, (1 << 30) + 7 })); };
        if (rng().chance(2, 3)) w = filled && rng().chance(1, 3) ? vast() : huge();
        if (rng().chance(2, 3)) h = filled && rng().chance(1, 3) ? vast() : huge();
        if (filled && std::min<int64_t>(w, LW) * std::min<int64_t>(h, LH) > 1000000) { const bool tall = h >= w; const int shown = tall ? std::min(h, LH) : std::min(w, LW); (tall ? w : h) = int(rng().range(0, std::clamp(1000000 / std::max(shown, 1), 1, 20))); }
        vf::cov("huge rectangles", w > 3000 || h > 3000);
    }
    auto co = [&](int n, int len) { return int(rng().chance(1, 2) ? rng().range(-len - 1, 1) : rng().chance(1, 2) ? n - int(rng().range(-1, len + 1)) : rng().range(-len, n)); };
    const int x = co(LW, w), y = co(LH, h);
    vf::trace("%dx%d rotation %d %s (%d,%d %dx%d)", W, H, rot * 90, filled ? "filled" : "outline", x, y, w, h);
    vf::note("%s", vf::st().desc.c_str());
    Sparse s(W, H);
    Canvas c(s);
    c.setRotation(rotations[rot]);
    if (filled) c.drawFilledRectangle({ { x, y }, { w, h } }); else c.drawRectangle({ { x, y }, { w, h } });
    std::vector<Pt> expect;
    for (int64_t ly = std::max(y, 0); ly < std::min<int64_t>(y + h, LH); ++ly)
    {
        const bool edge = filled || ly == y || ly == y + h - 1;
        for (int64_t lx = std::max(x, 0); lx < std::min<int64_t>(x + w, LW); ++lx)
            if (edge || lx == x || lx == x + w - 1) expect.push_back(rotatePoint(rot, W, H, int(lx), int(ly)));
    }
    std::sort(expect.begin(), expect.end());
    if (expect != s.pixels())
    {
        auto& got = s.pixels();
        std::vector<Pt> d;
        std::set_symmetric_difference(expect.begin(), expect.end(), got.begin(), got.end(), std::back_inserter(d));
        vf::fail(filled ? "clipped-filled-rect" : "clipped-outline-rect", vf::fmt("%s: frame pixel (%d,%d) is %s (%zu differ)", vf::st().desc.c_str(), d[0].first, d[0].second, std::binary_search(got.begin(), got.end(), d[0]) ? "set although it does not belong to it" : "missing", d.size()));
    }
    const size_t full = filled ? size_t(w) * size_t(h) : w && h ? size_t(w) * 2 + size_t(h) * 2 - 4 + (w == 1 || h == 1 ? 0 : 0) : 0;
    if (!expect.empty() && expect.size() < full) { vf::cov("partly visible"); vf::nontrivial(); }
    if (W > 255 || H > 255) vf::cov("large frames");
    vf::cov(filled ? "filled" : "outline");
    if (!w || !h) vf::cov("empty");
    vf::sigAdd(uint64_t(W) << 32 | uint64_t(H)); vf::sigAdd(uint64_t(uint32_t(x)) << 32 | uint32_t(y)); vf::sigAdd((uint64_t(w) << 31 | uint64_t(h)) * 8 + uint64_t(filled * 4 + rot));
}

void caseV04()
{
    if (vf::st().idx % 2) return clippedRect();
    const int rot = int(rng().next() % 4);
    int x = int(rng().range(-10, 30)), y = int(rng().range(-10, 30));
    int w = int(rng().chance(1, 6) ? rng().range(0, 2) : rng().range(0, 40)), h = int(rng().chance(1, 6) ? rng().range(0, 2) : rng().range(0, 40));
    const int W = 96, H = 90, ox = 20, oy = 20; // everything inside the frame
    const bool filled = rng().chance(1, 2);
    Recorder r(W, H);
    Canvas c(r);
    c.setRotation(rotations[rot]);
    vf::trace("%s (%d,%d %dx%d) rotation %d", filled ? "filled" : "outline", x + ox, y + oy, w, h, rot * 90);
    vf::note("%s (%d,%d %dx%d) rotation %d", filled ? "filled" : "outline", x + ox, y + oy, w, h, rot * 90);
    Canvas::Rect rect { { x + ox, y + oy }, { w, h } };
    if (filled) c.drawFilledRectangle(rect); else c.drawRectangle(rect);
    for (int ly = 0; ly < (rot % 2 ? W : H); ++ly) for (int lx = 0; lx < (rot % 2 ? H : W); ++lx)
    {
        const int rx = lx - x - ox, ry = ly - y - oy;
        bool in = rx >= 0 && ry >= 0 && rx < w && ry < h;
        bool expect = filled ? in : in && (rx == 0 || ry == 0 || rx == w - 1 || ry == h - 1);
        auto [fx, fy] = rotatePoint(rot, W, H, lx, ly);
        VF_CHECK(r.at(fx, fy) == expect, filled ? "filled-rect" : "outline-rect", "%s rectangle (%d,%d %dx%d) rotation %d: pixel (%d,%d) is %s", filled ? "filled" : "outline", x + ox, y + oy, w, h, rot * 90, lx, ly, expect ? "missing" : "set although outside");
    }
    vf::cov(filled ? "filled" : "outline");
    if (!w || !h) vf::cov("empty");
    if (w == 1 || h == 1) vf::cov("one pixel thin");
    if (w > 2 && h > 2) vf::nontrivial();
    vf::sigAdd(uint64_t(w * 1000 + h)); vf::sigAdd(uint64_t(x + 100) * 1000 + uint64_t(y + 100)); vf::sigAdd(uint64_t(filled * 4 + rot));
}

// radii far beyond a display: only the ring, in a frame of any size
void largeCircle()
{
    const int radius = int(rng().chance(1, 3) ? rng().pick<int64_t>({ 8191, 8192, 16383, 16384, 16385, 20000, 32767, 32768, 40000, 65535, 65536 }) : rng().range(2000, 50000));
    const int rot = int(rng().next() % 4), C = radius + 3, W = 2 * C + 1;
    vf::trace("radius %d rotation %d", radius, rot * 90);
    vf::note("radius %d rotation %d", radius, rot * 90);
    Sparse s(W, W);
    Canvas c(s);
    c.setRotation(rotations[rot]);
    c.drawCircle({ C, C }, radius);
    auto& px = s.pixels();
    auto has = [&](int x, int y) { return s.at(x + C, y + C); };
    for (auto e: { Pt { radius, 0 }, Pt { -radius, 0 }, Pt { 0, radius }, Pt { 0, -radius } })
        VF_CHECK(has(e.first, e.second), "extreme-missing", "radius %d: extreme point (%d,%d) missing", radius, e.first, e.second);
    for (auto& p: px)
    {
        const int x = p.first - C, y = p.second - C;
        const int64_t d2 = int64_t(x) * x + int64_t(y) * y;
        VF_CHECK(d2 <= int64_t(radius + 1) * (radius + 1) && d2 >= int64_t(radius - 1) * (radius - 1), "off-circle", "radius %d: (%d,%d) is %.3f from the centre", radius, x, y, std::sqrt(double(d2)));
        VF_CHECK(has(-x, y) && has(x, -y), "asymmetric", "radius %d: (%d,%d) has no mirror image", radius, x, y);
        // a closed ring: every pixel has a neighbour on either side going round; in the first quadrant, from (radius,0) to (0,radius)
        if (x >= 0 && y >= 0 && x > 0) VF_CHECK(has(x, y + 1) || has(x - 1, y + 1) || has(x - 1, y), "gap", "radius %d: the ring ends at (%d,%d)", radius, x, y);
    }
    vf::cov("large circles");
    vf::cov("ring pixels", px.size());
    vf::sigAdd(uint64_t(radius) * 4 + uint64_t(rot));
    vf::nontrivial();
}

void caseV05()
{
    if (vf::st().idx % 40 == 39) return largeCircle();
    // radius = case number (systematic), rotations alternate; thorough continues to larger radii
    const int radius = int(vf::st().idx % (vf::st().tier == "thorough" ? 2500 : 420));
    const int rot = int((vf::st().idx / 7 + vf::st().seed) % 4);
    const int C = radius + 3, W = 2 * C + 1;
    vf::trace("radius %d rotation %d", radius, rot * 90);
    vf::note("radius %d rotation %d", radius, rot * 90);
    Recorder ring(W, W), disc(W, W);
    Canvas rc(ring), dc(disc);
    rc.setRotation(rotations[rot]);
    dc.setRotation(rotations[rot]);
    rc.drawCircle({ C, C }, radius);
    dc.drawCircle({ C, C }, radius, true);
    auto px = ring.pixels(C, C);
    for (auto e: { Pt { radius, 0 }, Pt { -radius, 0 }, Pt { 0, radius }, Pt { 0, -radius } })
        VF_CHECK(px.count(e), "extreme-missing", "radius %d: extreme point (%d,%d) missing", radius, e.first, e.second);
    for (auto& [x, y]: px)
    {
        VF_CHECK(px.count({ -x, y }) && px.count({ x, -y }), "asymmetric", "radius %d: (%d,%d) has no mirror image", radius, x, y);
        const double dist = std::sqrt(double(x) * x + double(y) * y);
        VF_CHECK(std::fabs(dist - radius) <= 1.0, "off-circle", "radius %d: (%d,%d) is %.3f from the centre", radius, x, y, dist);
    }
    // gap-free: 8-connected ring; closed: a 4-connected flood from outside never reaches the centre
    {
        Pixels seen;
        std::vector<Pt> q { *px.begin() };
        seen.insert(*px.begin());
        while (!q.empty())
        {
            auto [x, y] = q.back(); q.pop_back();
            for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) { Pt n { x + dx, y + dy }; if (px.count(n) && seen.insert(n).second) q.push_back(n); }
        }
        VF_CHECK(seen.size() == px.size(), "gap", "radius %d: the ring falls apart", radius);
    }
    std::vector<uint8_t> outside(size_t(W) * size_t(W), 0);
    std::vector<int> q { 0 };
    outside[0] = 1;
    while (!q.empty())
    {
        int i = q.back(); q.pop_back();
        int x = i % W, y = i / W;
        const int nx[4] = { x - 1, x + 1, x, x }, ny[4] = { y, y, y - 1, y + 1 };
        for (int k = 0; k < 4; ++k)
        {
            if (nx[k] < 0 || ny[k] < 0 || nx[k] >= W || ny[k] >= W) continue;
            int j = ny[k] * W + nx[k];
            if (outside[size_t(j)] || ring.set[size_t(j)]) continue;
            outside[size_t(j)] = 1;
            q.push_back(j);
        }
    }
    VF_CHECK(!outside[size_t(C) * size_t(W) + size_t(C)], "open", "radius %d: the ring is not closed", radius);
    for (int y = 0; y < W; ++y) for (int x = 0; x < W; ++x)
    {
        size_t i = size_t(y) * size_t(W) + size_t(x);
        VF_CHECK(disc.set[i] == !outside[i], "filled-circle", "radius %d: filled circle %s pixel (%d,%d)", radius, outside[i] ? "sets outside" : "misses", x - C, y - C);
    }
    vf::cov("circles");
    vf::cov("ring pixels", px.size());
    vf::sigAdd(uint64_t(radius) * 4 + uint64_t(rot));
    if (radius > 1) vf::nontrivial();
}

// expected pixels of one character at pen position (logical coordinates)
void expectGlyph(const TestFont& t, int code, int penX, int penY, Pixels& out, int w, int h)
{
    const auto& g = t.glyphs[size_t(t.indexOf(code))];
    const int left = penX + g.ox, top = penY + g.oy;
    if (left >= w || top >= h || left + g.w <= 0 || top + g.h <= 0) return;     // not visible
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x)
        if (g.bits[size_t(y) * g.w + size_t(x)]) out.insert({ left + x, top + y });
}

void caseV06()
{
    TestFont t = randomFont(int(rng().range(1, rng().chance(1, 6) ? 60 : 16)));
    const int rot = int(rng().next() % 4);
    const bool shipped = rng().chance(1, 10);
    int w = int(rng().range(20, 300)), h = int(rng().range(20, 120));
    Recorder r(w, h);
    Canvas c(r);
    c.setRotation(rotations[rot]);
    int lw = rot % 2 ? h : w, lh = rot % 2 ? w : h;
    const bool single = rng().chance(1, 3);
    std::string text = shipped ? std::string() : randomText(t, single ? 1 : 12);
    int px = int(rng().range(-10, lw)), py = int(rng().range(-10, lh + 10));
    if (rng().chance(1, 20)) { (rng().chance(1, 2) ? px : py) = notable(); vf::cov("texts at notable distances"); }
    auto largest = std::max_element(t.glyphs.begin(), t.glyphs.end(), [](auto& a, auto& b) { return a.bits.size() < b.bits.size(); });
    if (!shipped && largest->bits.size() > 4000 && rng().chance(3, 4))
    {   // the largest character, some part of it (often its end) in the frame
        int code = -1;
        for (int k = 0; k < 256 && code < 0; ++k) if (t.indexOf(uint8_t(k)) == int(largest - t.glyphs.begin())) code = k;
        if (code >= 0)
        {
            text[0] = char(code);
            px = int(rng().range(0, lw - 1)) - largest->ox - int(rng().chance(1, 2) ? rng().range(0, largest->w) : rng().range(largest->w - 8, largest->w));
            py = int(rng().range(0, lh - 1)) - largest->oy - int(rng().chance(1, 2) ? rng().range(0, largest->h) : rng().range(largest->h - 8, largest->h));
            vf::cov("ends of large glyphs shown"); vf::cov("parts of glyphs beyond 32767 pixels shown", largest->bits.size() > 32767);
        }
    }
    else if (!shipped && !single && rng().chance(1, 8))
    {   // a long text, of which some part shows
        for (size_t len = size_t(rng().pick<int64_t>({ 40, 127, 128, 130, 254, 255, 256, 257, 260, 300, 520, 1000, 1023, 1024, 1100 })); text.size() < len;) text += randomText(t, 12);
        int before = 0, stop = int(rng().chance(1, 2) ? int(text.size()) - rng().range(0, 8) : rng().range(0, int(text.size())));
        for (int i = 0; i < stop; ++i) before += t.glyphs[size_t(t.indexOf(uint8_t(text[size_t(i)])))].adv;
        px -= before;
        vf::cov("long texts", text.size() > 255);
    }
    else if (!shipped && !single && rng().chance(1, 30))
    {   // tens of thousands of pixels wide: some part shows
        auto wide = std::max_element(t.glyphs.begin(), t.glyphs.end(), [](auto& a, auto& b) { return a.adv < b.adv; });
        int code = -1;
        for (int k = 0; k < 256 && code < 0; ++k) if (t.indexOf(uint8_t(k)) == int(wide - t.glyphs.begin())) code = k;
        if (code >= 0 && wide->adv > 20)
        {
            std::string tail = randomText(t, 6);
            text += std::string(size_t(rng().pick<int64_t>({ 32767, 33000, 66000 })) / wide->adv, char(code)) + tail;
            int before = 0, stop = int(rng().chance(2, 3) ? int(text.size()) - rng().range(0, 8) : rng().range(0, int(text.size())));
            for (int i = 0; i < stop; ++i) before += t.glyphs[size_t(t.indexOf(uint8_t(text[size_t(i)])))].adv;
            if (rng().chance(3, 4)) px -= before;
            vf::cov("texts beyond 32767 pixels", text.size() * wide->adv > 32767);
        }
    }
    Pixels expect;
    if (shipped)
    {
        // the shipped font: consistency between lookup and drawing
        const auto& f = embedded::fonts::FreeSans15pt;
        int n = int(rng().range(1, 8));
        for (int i = 0; i < n; ++i) text += char(rng().range(32, 126));
        int x = px;
        for (char ch: text)
        {
            auto g = f.getBitmap(ch);
            for (int yy = 0; yy < g.effectiveSize.height; ++yy) for (int xx = 0; xx < g.effectiveSize.width; ++xx)
            {
                size_t b = size_t(yy) * g.effectiveSize.width + size_t(xx);
                if (g.bitmap.begin()[b / 8] >> (7 - b % 8) & 1) expect.insert({ x + g.offset.width + xx, py + g.offset.height + yy });
            }
            x += g.width;
        }
        c.drawStringAt({ px, py }, text, f);
        vf::cov("shipped font texts");
    }
    else if (single)
    {
        int code = uint8_t(text[0]);
        int adv = c.drawCharAt({ px, py }, text[0], t.f());
        expectGlyph(t, code, px, py, expect, lw, lh);
        VF_CHECK(adv == t.glyphs[size_t(t.indexOf(code))].adv, "advance", "character 0x%02x: advance %d expected %d", code, adv, t.glyphs[size_t(t.indexOf(code))].adv);
        vf::cov("characters");
    }
    else
    {
        vf::Block b(text.size()); memcpy(b.data(), text.data(), text.size());
        c.drawStringAt({ px, py }, std::string_view(reinterpret_cast<char*>(b.data()), text.size()), t.f());
        int x = px;
        for (unsigned char ch: text) { expectGlyph(t, ch, x, py, expect, lw, lh); x += t.glyphs[size_t(t.indexOf(ch))].adv; }
        vf::cov("strings");
    }
    vf::trace("%dx%d rotation %d font 0x%02x..0x%02x text %s at (%d,%d)", w, h, rot * 90, t.first, t.last, vf::hex(text.data(), text.size()).c_str(), px, py);
    size_t n = 0;
    for (int ly = 0; ly < lh; ++ly) for (int lx = 0; lx < lw; ++lx)
    {
        auto [fx, fy] = rotatePoint(rot, w, h, lx, ly);
        bool e = expect.count({ lx, ly }) != 0;
        n += e;
        VF_CHECK(r.at(fx, fy) == e, "glyph-pixels", "%dx%d rotation %d font 0x%02x..0x%02x text %s at (%d,%d): pixel (%d,%d) %s", w, h, rot * 90, t.first, t.last, vf::hex(text.data(), text.size()).c_str(), px, py, lx, ly, e ? "missing" : "set without a glyph bit");
    }
    vf::cov("glyph pixels", n);
    if (n) vf::nontrivial();
    vf::sigAdd(text); vf::sigAdd(uint64_t(px * 1000 + py)); vf::sigAdd(uint64_t(t.glyphs.size())); vf::sigAdd(uint64_t(rot)); vf::sigAdd(uint64_t(n));
}

void caseV07()
{
    const bool shipped = rng().chance(1, 5);
    TestFont t;
    if (!shipped) t = randomFont(int(rng().range(1, rng().chance(1, 6) ? 60 : 16)));
    const EmbeddedFont& f = shipped ? embedded::fonts::FreeSans15pt : t.f();
    std::string text;
    if (shipped) { int n = int(rng().range(1, 12)); for (int i = 0; i < n; ++i) text += char(rng().chance(1, 10) ? rng().next() : uint64_t(rng().range(32, 126))); }
    else text = randomText(t, int(rng().range(1, 10)));
    if (rng().chance(1, 60))
    {
        for (size_t len = size_t(rng().pick<int64_t>({ 40, 100, 127, 128, 130, 254, 255, 256, 257, 260, 300, 1000, 1023, 1024, 1100 })); text.size() < len;) text += shipped ? std::string(size_t(rng().range(1, 4)), char(rng().range(32, 126))) : randomText(t, 12);
        vf::cov("long texts", text.size() > 255);
    }
    else if (!shipped && rng().chance(1, 80))
    {   // a text of tens of thousands of pixels
        auto wide = std::max_element(t.glyphs.begin(), t.glyphs.end(), [](auto& a, auto& b) { return a.adv < b.adv; });
        if (wide->adv > 20)
        {
            int code = -1;
            for (int c = 0; c < 256 && code < 0; ++c) if (t.indexOf(uint8_t(c)) == int(wide - t.glyphs.begin())) code = c;
            if (code >= 0)
            {
                text += std::string(size_t(rng().pick<int64_t>({ 32000, 32767, 33000, 66000 })) / wide->adv, char(code)) + randomText(t, 6);
                vf::cov("texts beyond 32767 pixels", text.size() * wide->adv > 32767);
            }
        }
    }
    if (vf::st().idx % 50 == 0)
    {
        auto e = f.getTextBounds({});
        VF_CHECK(e.size.width == 0 && e.size.height == 0 && e.topLeft.x == 0 && e.topLeft.y == 0, "empty-bounds", "empty text has bounds %dx%d", e.size.width, e.size.height);
        vf::cov("empty texts");
    }
    auto b = f.getTextBounds(text);
    vf::trace("%s text %s bounds (%d,%d %dx%d)", shipped ? "shipped font" : vf::fmt("font 0x%02x..0x%02x", t.first, t.last).c_str(), vf::hex(text.data(), text.size()).c_str(), b.topLeft.x, b.topLeft.y, b.size.width, b.size.height);
    vf::note("%s", vf::st().desc.c_str());
    // extent of glyph boxes, pen start and base line
    int pen = 0, left = 0, right = INT_MIN, top = 0, bottom = 0;
    int total = 0;
    for (char ch: text)
    {
        int ox, oy, gw, gh, adv;
        if (shipped) { auto g = f.getBitmap(ch); ox = g.offset.width; oy = g.offset.height; gw = g.effectiveSize.width; gh = g.effectiveSize.height; adv = g.width; }
        else { auto& g = t.glyphs[size_t(t.indexOf(uint8_t(ch)))]; ox = g.ox; oy = g.oy; gw = g.w; gh = g.h; adv = g.adv; }
        left = std::min(left, pen + ox); right = std::max(right, pen + ox + gw);
        top = std::min(top, oy); bottom = std::max(bottom, oy + gh);
        pen += adv;
        total += std::abs(ox) + gw + adv;
    }
    right = std::max(right, 0);
    // render at the reported origin inside a large frame
    const int M = 300;
    const int originX = b.topLeft.x, originY = b.topLeft.y;
    VF_CHECK(std::abs(originX) < 5000 && std::abs(originY) < 1000, "origin", "reported origin (%d,%d)", originX, originY);
    const int W = total + 2 * M + std::abs(originX), H = 1400;
    Recorder r(W, H);
    Canvas c(r);
    const int X = M + 200, Y = 600;
    c.drawStringAt({ X + originX, Y + originY }, text, f);
    size_t n = 0;
    for (int y = 0; y < H; ++y)
    {
        const uint8_t* row = &r.set[size_t(y) * size_t(W)];
        const void* any = memchr(row, 1, size_t(W));
        if (!any) continue;
        for (int x = 0; x < W; ++x) if (row[x])
        {
            ++n;
            VF_CHECK(x >= X && x < X + b.size.width && y >= Y && y < Y + b.size.height, "pixel-outside-bounds", "%s: pixel (%d,%d) relative to the reported area of %dx%d", vf::st().desc.c_str(), x - X, y - Y, b.size.width, b.size.height);
        }
    }
    VF_CHECK(b.size.width <= right - left, "too-wide", "%s: width %d, extent %d", vf::st().desc.c_str(), b.size.width, right - left);
    VF_CHECK(b.size.height <= bottom - top, "too-high", "%s: height %d, extent %d", vf::st().desc.c_str(), b.size.height, bottom - top);
    vf::cov(shipped ? "shipped font texts" : "random font texts");
    vf::cov("text pixels", n);
    if (n && text.size() > 1) vf::nontrivial();
    vf::sigAdd(text); vf::sigAdd(uint64_t(b.size.width * 1000 + b.size.height)); vf::sigAdd(uint64_t(n));
}

void caseR01()
{
    if (vf::st().idx % 100 == 0)
    {
        // the shipped font, all codes, against the table as written in its header being in range
        const auto& f = embedded::fonts::FreeSans15pt;
        auto first = f.getBitmap(' ');
        for (int code = 0; code < 256; ++code)
        {
            auto g = f.getBitmap(char(code));
            size_t need = (size_t(g.effectiveSize.width) * g.effectiveSize.height + 7) / 8;
            VF_CHECK(g.bitmap.size() >= need, "bitmap-short", "shipped font, code 0x%02x: %zu bytes for %dx%d", code, size_t(g.bitmap.size()), g.effectiveSize.width, g.effectiveSize.height);
            uint64_t sum = 0;
            for (auto x: g.bitmap) sum += x;
            vf::sigAdd(sum);
            if (code < 0x20 || code > 0x7e) VF_CHECK(g.bitmap.begin() == first.bitmap.begin() && g.width == first.width, "absent-code", "shipped font, code 0x%02x is not the first character", code);
        }
        vf::cov("shipped font lookups", 256);
    }
    TestFont t = randomFont(int(rng().range(1, rng().chance(1, 6) ? 60 : 16)));
    vf::trace("font 0x%02x..0x%02x, %zu glyphs, %zu bitmap bytes", t.first, t.last, t.glyphs.size(), size_t(t.desc->bitmap.size()));
    vf::sigAdd(uint64_t(t.first * 256 + t.last)); vf::sigAdd(uint64_t(t.desc->bitmap.size()));
    if (t.first > 0x7e) vf::cov("fonts of upper codes only");
    for (int code = 0; code < 256; ++code)
    {
        vf::note("font 0x%02x..0x%02x, code 0x%02x", t.first, t.last, code);
        auto g = t.f().getBitmap(char(code));
        const auto& e = t.glyphs[size_t(t.indexOf(code))];
        const bool absent = t.indexOf(code) == 0 && code != t.first;
        const char* key = absent ? "absent-code" : "glyph";
        VF_CHECK(g.effectiveSize.width == e.w && g.effectiveSize.height == e.h && g.offset.width == e.ox && g.offset.height == e.oy && g.width == e.adv, key,
                 "font 0x%02x..0x%02x: code 0x%02x has size %dx%d offset (%d,%d) advance %d, expected %dx%d (%d,%d) %d", t.first, t.last, code, g.effectiveSize.width, g.effectiveSize.height, g.offset.width, g.offset.height, g.width, e.w, e.h, e.ox, e.oy, e.adv);
        const uint8_t* lo = t.desc->bitmap.begin();
        const uint8_t* hi = t.desc->bitmap.end();
        const size_t need = (e.bits.size() + 7) / 8;
        VF_CHECK(g.bitmap.begin() >= lo && g.bitmap.begin() <= hi && g.bitmap.size() <= size_t(hi - g.bitmap.begin()), "bitmap-outside", "font 0x%02x..0x%02x: code 0x%02x: bitmap of %zu bytes reaches beyond the font's data", t.first, t.last, code, size_t(g.bitmap.size()));
        VF_CHECK(g.bitmap.size() >= need, "bitmap-short", "font 0x%02x..0x%02x: code 0x%02x: bitmap of %zu bytes, %zu needed", t.first, t.last, code, size_t(g.bitmap.size()), need);
        for (size_t i = 0; i < e.bits.size(); ++i) VF_CHECK((g.bitmap.begin()[i / 8] >> (7 - i % 8) & 1) == e.bits[i], "bitmap-bits", "font 0x%02x..0x%02x: code 0x%02x: bit %zu differs", t.first, t.last, code, i);
        if (t.shortTable && absent && code >= t.first && code <= t.last && !(code > 0x7e && code < 0xa0)) vf::cov("codes beyond a short table");
        vf::cov(absent ? "absent codes" : code > 0x9f ? "8-bit codes" : "7-bit codes");
        if (!absent && size_t(t.indexOf(code)) == t.glyphs.size() - 1) vf::cov("last glyphs");
    }
    vf::nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    return vf::run(argc, argv, [] {
        auto& p = vf::st().prop;
        if (p == "F01") caseF01();
        else if (p == "F02") caseF02();
        else if (p == "V01") caseV01();
        else if (p == "V02") caseV02();
        else if (p == "V03") caseV03();
        else if (p == "V04") caseV04();
        else if (p == "V05") caseV05();
        else if (p == "V06") caseV06();
        else if (p == "V07") caseV07();
        else if (p == "R01") caseR01();
        else { fprintf(stderr, "no such property here\n"); _exit(98); }
    });
}
