// Source fonts for the converter checks: generated TrueType outlines and BDF bitmaps (the latter with exactly known
// pixels), and an independent rendering of any font through FreeType.
#pragma once
#include "vf.h"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_GLYPH_H
#include FT_MODULE_H
#include FT_DRIVER_H
#include FT_OUTLINE_H

namespace fontgen
{
using Bytes = std::vector<uint8_t>;
struct CodePage { const char* name; uint32_t cp[256]; };
static const CodePage codePages[] = {
#include "codepages.inc"
};
constexpr uint32_t kSkip = 0xFFFFFFFF, kUndefined = 0xFFFFFFFE;
constexpr size_t nCodePages = sizeof codePages / sizeof *codePages;

struct Glyph    // as the converter ought to emit it
{
    int w = 0, h = 0, left = 0, top = 0, advance = 0; bool advanceExact = true;
    std::vector<bool> bits;
    bool mono = true, ok = true;
    bool fits() const { return ok && mono && w <= 255 && h <= 255 && advance >= 0 && advance <= 255 && left >= -128 && left <= 127 && 1 - top >= -128 && 1 - top <= 127; }
    size_t bytes() const { return (size_t(w) * size_t(h) + 7) / 8; }
};

struct Source
{
    Bytes file; std::string ext;
    std::map<uint32_t, Glyph> known;    // BDF only
    int pixelSize = 0;                  // BDF only
};

inline void put(Bytes& b, uint64_t v, int n) { while (n--) b.push_back(uint8_t(v >> (8 * n))); }

// wild: bearings, advances and extents far outside the em square
inline Source makeTtf(vf::Rng& r, const std::vector<uint32_t>& cps, bool wild)
{
    int upem = int(r.pick({ 1000, 2048, 256 }));
    int lo = wild ? -3 * upem : -upem / 5, hi = wild ? 3 * upem : upem;
    auto co = [&] { return int(std::max<int64_t>(-16000, std::min<int64_t>(16000, r.range(lo, hi)))); };
    std::vector<uint32_t> sorted = cps; std::sort(sorted.begin(), sorted.end()); sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
    int nGlyphs = int(r.range(2, 40));
    Bytes glyf, loca, hmtx, cmap;
    for (int g = 0; g < nGlyphs; ++g)
    {
        put(loca, glyf.size(), 4);
        int lsb = 0;
        if (!r.chance(1, 8))
        {
            int nc = int(r.range(1, 3)); std::vector<int> ends; std::vector<std::pair<int, int>> pts; std::vector<uint8_t> flags;
            for (int c = 0; c < nc; ++c)
            {
                int n = int(r.range(3, 8));
                if (r.chance(1, 2)) { int x = co(), y = co(), w = int(r.range(1, upem / 2)), h = int(r.range(1, upem / 2)); pts.insert(pts.end(), { { x, y }, { x, y + h }, { x + w, y + h }, { x + w, y } }); flags.insert(flags.end(), 4, 1); }
                else for (int i = 0; i < n; ++i) { int x = co(), y = co(); pts.push_back({ x, y }); flags.push_back(uint8_t(r.chance(2, 3))); }
                ends.push_back(int(pts.size()) - 1);
            }
            int x0 = 99999, y0 = 99999, x1 = -99999, y1 = -99999;
            for (auto& p: pts) { x0 = std::min(x0, p.first); x1 = std::max(x1, p.first); y0 = std::min(y0, p.second); y1 = std::max(y1, p.second); }
            lsb = x0 + (r.chance(1, 3) ? int(r.range(-upem / 10, upem / 10)) : 0);
            put(glyf, uint16_t(nc), 2); for (int v: { x0, y0, x1, y1 }) put(glyf, uint16_t(v), 2);
            for (int e: ends) put(glyf, uint16_t(e), 2);
            put(glyf, 0, 2);
            glyf.insert(glyf.end(), flags.begin(), flags.end());
            int px = 0; for (auto& p: pts) { put(glyf, uint16_t(p.first - px), 2); px = p.first; }
            px = 0; for (auto& p: pts) { put(glyf, uint16_t(p.second - px), 2); px = p.second; }
            while (glyf.size() % 4) glyf.push_back(0);
        }
        put(hmtx, uint16_t(wild ? r.range(0, 5 * upem) : r.range(0, upem * 5 / 4)), 2); put(hmtx, uint16_t(lsb), 2);
    }
    put(loca, glyf.size(), 4);
    if (glyf.empty()) glyf.push_back(0);
    // cmap: one format 12 subtable
    put(cmap, 0, 2); put(cmap, 1, 2); put(cmap, 3, 2); put(cmap, 10, 2); put(cmap, 12, 4);
    put(cmap, 12, 2); put(cmap, 0, 2); put(cmap, 16 + 12 * sorted.size(), 4); put(cmap, 0, 4); put(cmap, sorted.size(), 4);
    for (auto c: sorted) { put(cmap, c, 4); put(cmap, c, 4); put(cmap, uint64_t(r.range(1, nGlyphs - 1)), 4); }
    Bytes head, hhea, maxp;
    put(head, 0x00010000, 4); put(head, 0x00010000, 4); put(head, 0, 4); put(head, 0x5F0F3CF5, 4); put(head, 0x000b, 2); put(head, uint64_t(upem), 2);
    put(head, 0, 8); put(head, 0, 8); for (int v: { lo, lo, hi, hi }) put(head, uint16_t(v), 2);
    put(head, 0, 2); put(head, 8, 2); put(head, 2, 2); put(head, 1, 2); put(head, 0, 2);
    int asc = int(r.range(upem / 2, upem)), desc = -int(r.range(0, upem / 2));
    put(hhea, 0x00010000, 4); put(hhea, uint16_t(asc), 2); put(hhea, uint16_t(desc), 2); put(hhea, uint16_t(r.range(0, upem / 5)), 2); put(hhea, uint16_t(5 * upem), 2);
    put(hhea, 0, 2); put(hhea, 0, 2); put(hhea, uint16_t(hi), 2); put(hhea, 1, 2); put(hhea, 0, 2); put(hhea, 0, 2); put(hhea, 0, 8); put(hhea, 0, 2); put(hhea, uint64_t(nGlyphs), 2);
    put(maxp, 0x00010000, 4); put(maxp, uint64_t(nGlyphs), 2); put(maxp, 40, 2); put(maxp, 4, 2); put(maxp, 0, 2); put(maxp, 0, 2); put(maxp, 1, 2);
    for (int i = 0; i < 8; ++i) put(maxp, 0, 2);
    std::vector<std::pair<const char*, Bytes*>> tabs = { { "cmap", &cmap }, { "glyf", &glyf }, { "head", &head }, { "hhea", &hhea }, { "hmtx", &hmtx }, { "loca", &loca }, { "maxp", &maxp } };
    Source s; s.ext = ".ttf"; auto& f = s.file;
    put(f, 0x00010000, 4); put(f, tabs.size(), 2); put(f, 64, 2); put(f, 2, 2); put(f, tabs.size() * 16 - 64, 2);
    size_t off = 12 + 16 * tabs.size();
    for (auto& t: tabs) { f.insert(f.end(), t.first, t.first + 4); put(f, 0, 4); put(f, off, 4); put(f, t.second->size(), 4); off += (t.second->size() + 3) / 4 * 4; }
    for (auto& t: tabs) { f.insert(f.end(), t.second->begin(), t.second->end()); while (f.size() % 4) f.push_back(0); }
    return s;
}

inline Source makeBdf(vf::Rng& r, const std::vector<uint32_t>& cps, int px, bool wild, bool blank = false)
{
    Source s; s.ext = ".bdf"; s.pixelSize = px;
    std::vector<uint32_t> sorted = cps; std::sort(sorted.begin(), sorted.end()); sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
    int mw = wild ? 300 : std::min(2 * px, 120), mo = wild ? 200 : std::min(px, 60);
    const int ascent = r.chance(1, 6) ? int(r.range(px, std::max(px, 190))) : px;      // the line height has nothing to do with the characters
    std::string t = vf::fmt("STARTFONT 2.1\nFONT -vf-Random-Medium-R-Normal--%d-%d-72-72-P-80-ISO10646-1\nSIZE %d 72 72\nFONTBOUNDINGBOX %d %d %d %d\nSTARTPROPERTIES 5\nPIXEL_SIZE %d\nFONT_ASCENT %d\nFONT_DESCENT %d\nCHARSET_REGISTRY \"ISO10646\"\nCHARSET_ENCODING \"1\"\nENDPROPERTIES\nCHARS %zu\n",
        px, px * 10, px, mw, mw, -mo, -mo, px, ascent, px / 4, sorted.size());
    for (auto c: sorted)
    {
        Glyph g; bool empty = blank || r.chance(1, 10), big = wild && r.chance(1, 60);
        g.w = empty ? 0 : int(r.range(1, big ? mw : std::min(mw, 40))); g.h = empty ? 0 : int(r.range(1, big ? mw : std::min(mw, 40)));
        if (big || !wild) { if (r.chance(1, 12)) g.w = empty ? 0 : int(r.range(1, mw)); }
        if (!empty && r.chance(1, 8)) (r.chance(1, 2) ? g.w : g.h) = int(r.range(1, 3));       // thin characters
        if (!empty) { int lim = big ? 200 : std::min(mo, 100); g.left = int(r.range(-lim, lim)); int y = int(r.range(-lim, lim)); g.top = y + g.h; }
        g.advance = int(r.range(0, big ? 400 : std::min(2 * px, 255)));
        t += vf::fmt("STARTCHAR U+%04X\nENCODING %u\nSWIDTH 500 0\nDWIDTH %d 0\nBBX %d %d %d %d\nBITMAP\n", c, c, g.advance, g.w, g.h, g.left, g.top - g.h);
        g.bits.resize(size_t(g.w) * size_t(g.h));
        int density = int(r.range(0, 8));
        for (int y = 0; y < g.h; ++y)
        {
            uint8_t b = 0; 
            for (int x = 0; x < (g.w + 7) / 8 * 8; ++x)
            {
                bool on = x < g.w && r.chance(density, 8);
                if (x < g.w) g.bits[size_t(y * g.w + x)] = on;
                b = uint8_t(b << 1 | on);
                if (x % 8 == 7) { t += vf::fmt("%02X", b); b = 0; }
            }
            t += "\n";
        }
        t += "ENDCHAR\n";
        s.known[c] = g;
    }
    t += "ENDFONT\n";
    s.file.assign(t.begin(), t.end());
    return s;
}

// independent rendering; face stays valid while the object lives
class Renderer
{
public:
    Renderer()
    {
        if (FT_Init_FreeType(&lib_)) { fprintf(stderr, "FreeType unavailable\n"); _exit(98); }
        FT_UInt v = TT_INTERPRETER_VERSION_35; FT_Property_Set(lib_, "truetype", "interpreter-version", &v);
    }
    ~Renderer() { close(); FT_Done_FreeType(lib_); }
    void close() { if (face_) FT_Done_Face(face_); face_ = nullptr; }
    bool open(const Bytes& file) { close(); data_ = file; static uint8_t none; return FT_New_Memory_Face(lib_, data_.empty() ? &none : data_.data(), FT_Long(data_.size()), 0, &face_) == 0; }
    bool mapped() const { return face_->charmap; }
    bool unicode() const { return face_->charmap && face_->charmap->encoding == FT_ENCODING_UNICODE; }
    bool size(int64_t points, int64_t dpi) { return FT_Set_Char_Size(face_, FT_F26Dot6(points * 64), FT_F26Dot6(points * 64), FT_UInt(dpi), FT_UInt(dpi)) == 0; }
    Glyph glyph(uint32_t cp)
    {
        Glyph g;
        FT_UInt index = FT_Get_Char_Index(face_, cp);
        if (FT_Load_Glyph(face_, index, FT_LOAD_TARGET_MONO) || FT_Render_Glyph(face_->glyph, FT_RENDER_MODE_MONO)) { g.ok = false; return g; }
        auto& s = *face_->glyph; auto& b = s.bitmap;
        if (s.format != FT_GLYPH_FORMAT_BITMAP) { g.ok = false; return g; }
        g.w = int(b.width); g.h = int(b.rows); g.left = s.bitmap_left; g.top = s.bitmap_top;
        g.advance = int(s.advance.x >> 6); g.advanceExact = (s.advance.x & 63) == 0;
        g.mono = b.pixel_mode == FT_PIXEL_MODE_MONO || b.rows == 0 || b.width == 0;
        if (g.mono && g.w <= 300 && g.h <= 300)
        {
            g.bits.resize(size_t(g.w) * size_t(g.h));
            for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) g.bits[size_t(y) * size_t(g.w) + size_t(x)] = (b.buffer[long(y) * b.pitch + x / 8] >> (7 - x % 8)) & 1;
        }
        return g;
    }
    double height() const { return double(face_->size->metrics.height) / 64.; }
private:
    FT_Library lib_ = nullptr; FT_Face face_ = nullptr; Bytes data_;
};
}
