// Workload actors over the public API: each owns its objects, does one seeded operation per step and folds
// everything observable into a digest.  Used by N01 (allocation monitor around every library call), N02
// (interleaving / threads against the same actor run alone) and N03 (same digests from every build).
// Arguments are always drawn into named locals first: evaluation order must not depend on the compiler.
#pragma once
#include "vf.h"
#include <optional>
#include "BufferedOut.h"
#include "PersistentStorage.h"
#include "EndianConversion.h"
#include "BaseGeometry.h"
#include "Canvas.h"
#include "SimpleFrameBuffer.h"
#include "EmbeddedFont.h"
#include "EmbeddedFonts.h"
#include "GFXFontsAdapter.h"

#ifndef LIB
#define LIB(name, ...) do { __VA_ARGS__; } while (0)
#endif

namespace work
{
struct Digest
{
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t v) { h = vf::mix(h ^ v); }
    void add(const void* p, size_t n) { uint64_t k = n; auto b = static_cast<const uint8_t*>(p); for (size_t i = 0; i < n; ++i) { k ^= b[i]; k *= 1099511628211ull; } add(k); }
};

// what the memory given to the library holds beforehand
inline thread_local size_t objectSize = 0;      // of the object being stored or loaded
inline int leftoverByte = -1;
inline uint8_t leftover(uint8_t usual) { return leftoverByte < 0 ? usual : uint8_t(leftoverByte); }

// Room for an object that can be replaced by a copy of itself at another address.
template<class T> class Hold
{
public:
    template<class... A> explicit Hold(A&&... a) : p(new (slot[0]) T(std::forward<A>(a)...)) {}
    ~Hold() { p->~T(); }
    Hold(const Hold&) = delete;
    Hold& operator=(const Hold&) = delete;
    T& operator*() { return *p; }
    const T& operator*() const { return *p; }
    T* operator->() { return p; }
    // false where the class does not allow copies
    bool copy()
    {
        if constexpr (std::is_copy_constructible_v<T>)
        {
            const int to = at() ? 0 : 1;
            T* n = new (slot[to]) T(*p);
            leave(n);
            return true;
        }
        return false;
    }
    // the copy is made by assigning to another object made from these arguments
    template<class... A> bool assign(A&&... a)
    {
        if constexpr (std::is_copy_assignable_v<T>)
        {
            T* n = new (slot[at() ? 0 : 1]) T(std::forward<A>(a)...);
            *n = *p;
            leave(n);
            return true;
        }
        return false;
    }
    // ... or to an older copy of this object, or to itself
    bool assignOlder(vf::Rng& q)
    {
        if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>)
        {
            if (q.chance(1, 4)) { T& self = *p; self = *p; return true; }
            if (!older) { older.emplace(*p); return false; }
            *older = *p;
            T* n = new (slot[at() ? 0 : 1]) T(*older);
            leave(n);
            if (q.chance(1, 2)) older.reset();
            return true;
        }
        return false;
    }
private:
    alignas(T) unsigned char slot[2][sizeof(T)];
    T* p;
    std::optional<T> older;
    bool at() const { return reinterpret_cast<const unsigned char*>(p) != slot[0]; }
    void leave(T* n) { T* old = p; old->~T(); memset(static_cast<void*>(old), 0xA5, sizeof(T)); p = n; }
};

struct Actor
{
    vf::Rng r;
    Digest d;
    explicit Actor(uint64_t seed) { r.s = vf::mix(seed); }
    virtual ~Actor() = default;
    virtual void step() = 0;
    // asks everything that can be asked without changing anything; choices come from q, answers go into the result
    virtual uint64_t look(vf::Rng& q) { (void)q; return 0; }
    // replaces objects of the library by copies of themselves; number of copies made
    virtual int relocate(vf::Rng& q) { (void)q; return 0; }
    // what copies made earlier have to say in the end (nullptr: nothing wrong)
    virtual const char* snapshots() { return nullptr; }
    virtual const char* name() const = 0;
};

struct TextActor : Actor
{
    std::vector<char> mem;
    Hold<embedded::BufferedOut> out;
    static size_t cap(vf::Rng& r) { return r.chance(1, 4) ? size_t(r.range(0, 12)) : r.chance(1, 12) ? size_t(r.range(200, r.chance(1, 4) ? 12000 : 2000)) : size_t(r.range(0, 200)); }
    explicit TextActor(uint64_t seed) : Actor(seed), mem(cap(r), char(leftover(0x55))), out(embedded::MemoryView<char>(mem.data(), mem.size())) {}
    const char* name() const override { return "text"; }
    int relocate(vf::Rng& q) override
    {
        char other[8]; memset(other, 'o', sizeof other);
        if (q.chance(1, 3)) return out.assign(embedded::MemoryView<char>(other, size_t(q.range(0, 8))));
        return q.chance(1, 2) ? out.assignOlder(q) : out.copy();
    }
    uint64_t look(vf::Rng&) override
    {
        const auto& o = *out; Digest a;
        auto sv = o.asStringView(); auto b = o.data(); auto p = static_cast<const uint8_t*>(o);
        a.add(sv.data(), sv.size()); a.add(b.begin(), b.size()); a.add(o.size()); a.add(o.capacity()); a.add(p, o.size());
        a.add(mem.data(), mem.size());
        return a.h;
    }
    void step() override
    {
        int k = int(r.range(0, 15));
        uint64_t v = r.interesting64();
        char tmp[5100]; int n = int(r.chance(1, 15) ? r.chance(1, 4) ? r.notable(0, 5000) : r.range(40, 699) : r.range(0, 39));
        for (int i = 0; i < n; ++i) { int64_t c = r.range(1, 255); tmp[i] = char(c); }
        tmp[n] = 0;
        switch (k)
        {
        case 0: LIB("text << int", *out << int(v)); break;
        case 1: LIB("text << unsigned", *out << unsigned(v)); break;
        case 2: LIB("text << long", *out << long(v)); break;
        case 3: LIB("text << unsigned long", *out << (unsigned long)v); break;
        case 4: LIB("text << long long", *out << (long long)v); break;
        case 5: LIB("text << unsigned long long", *out << (unsigned long long)v); break;
        case 6: LIB("text << const char*", *out << (const char*)tmp); break;
        case 7: { std::string_view sv(tmp, size_t(n)); LIB("text << string_view", *out << sv); break; }
        case 8: case 9:
        {
            float f; uint32_t bits = uint32_t(r.next()); memcpy(&f, &bits, 4);
            if (r.chance(2, 3)) { int64_t m = r.range(-4000000, 4000000); f = float(m) / 1024.f; if (r.chance(1, 4)) { int64_t whole = r.notable(-5000000000ll, 5000000000ll); f = float(whole); } }
            LIB("text << float", *out << f); break;
        }
        case 10: { uint8_t b = uint8_t(v); LIB("text << byte", *out << b); break; }
        case 11: { embedded::ConstBytesView bv(reinterpret_cast<const uint8_t*>(tmp), size_t(n)); LIB("text << bytes", *out << bv); break; }
        case 12: { char c = char(v); LIB("text << char", *out << c); break; }
        case 13: { int p = int(r.chance(1, 6) ? int64_t(int(v)) : r.range(-1, 12)); LIB("text << precision", *out << embedded::BufferedOut::precision { p }); break; }
        case 14: { int w = int(r.chance(1, 6) ? int64_t(int(v)) : r.chance(1, 8) ? r.notable(0, 2100) : r.range(-1, 25)); char f = char(r.range(0, 255)); LIB("text << width", *out << embedded::BufferedOut::width { w } << embedded::BufferedOut::fill { f }); break; }
        default: if (r.chance(1, 3)) LIB("text clear", out->clear());
        }
        auto sv = out->asStringView();
        d.add(sv.data(), sv.size());
    }
};

template<size_t N> struct alignas(N >= 8 && N % 8 == 0 ? 8 : 1) Blob { uint8_t b[N]; };
struct StorageActor : Actor
{
    std::vector<uint8_t> mem;
    std::unique_ptr<embedded::PersistentStorage> s, older;
    explicit StorageActor(uint64_t seed) : Actor(seed)
    {
        size_t n = size_t(r.chance(1, 12) ? r.chance(1, 12) ? r.range(60000, 80000) : r.range(400, 6000) : r.range(0, 400));
        mem.resize(n, leftover(0x77));
        auto* p = static_cast<embedded::PersistentStorage*>(operator new(sizeof(embedded::PersistentStorage)));
        LIB("storage create", new (p) embedded::PersistentStorage(embedded::BytesView(mem.data(), mem.size())));
        s.reset(p);
    }
    const char* name() const override { return "storage"; }
    int relocate(vf::Rng& q) override
    {
        using S = embedded::PersistentStorage;
        if constexpr (std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S>)
        {
            if (q.chance(1, 3)) { s = std::make_unique<S>(*s); return 1; }
            if (q.chance(1, 2))
            {
                // an older handle of the same region takes over
                if (!older) { older = std::make_unique<S>(*s); return 0; }
                *older = *s; s = std::move(older);
                return 1;
            }
            std::vector<uint8_t> other(size_t(q.range(0, 60)), 1);
            auto n = std::make_unique<S>(embedded::BytesView(other.data(), other.size()), q.chance(1, 2));
            if (q.chance(1, 2)) n->set("o", uint8_t(1));
            *n = *s; s = std::move(n);
            return 1;
        }
        return 0;
    }
    template<class T> void ask(Digest& a, std::string_view nm) const
    {
        const auto& c = *s; auto got = c.template get<T>(nm);
        a.add(got.has_value()); if (got) a.add(&*got, sizeof(T));
    }
    uint64_t look(vf::Rng& q) override
    {
        Digest a;
        for (int i = 0; i < 6; ++i)
        {
            char nm[80]; size_t n = size_t(q.chance(1, 30) ? q.range(5, 80) : q.range(0, 5));
            for (size_t k = 0; k < n; ++k) { int64_t c = q.chance(1, 8) ? q.range(0, 255) : q.range('a', 'c'); nm[k] = char(c); }
            std::string_view sv(nm, n);
            switch (q.range(0, 6))
            {
            case 0: ask<uint8_t>(a, sv); break;
            case 1: ask<uint16_t>(a, sv); break;
            case 2: ask<uint32_t>(a, sv); break;
            case 3: ask<uint64_t>(a, sv); break;
            case 4: ask<Blob<3>>(a, sv); break;
            case 5: ask<Blob<61>>(a, sv); break;
            default: ask<Blob<700>>(a, sv);
            }
        }
        a.add(mem.data(), mem.size());
        return a.h;
    }
    template<class T> void op(std::string_view nm)
    {
        struct Size { ~Size() { objectSize = 0; } } size; objectSize = sizeof(T);
        if (r.chance(1, 2))
        {
            T v; r.fill(reinterpret_cast<uint8_t*>(&v), sizeof v);
            bool ok = false; LIB("storage set", ok = s->set(nm, v)); d.add(ok);
        }
        else
        {
            std::optional<T> got; LIB("storage get", got = s->get<T>(nm));
            d.add(got.has_value()); if (got) d.add(&*got, sizeof(T));
        }
    }
    void step() override
    {
        char nm[80]; size_t n = size_t(r.chance(1, 30) ? r.range(5, 80) : r.range(0, 5));
        for (size_t i = 0; i < n; ++i) { int64_t c = r.chance(1, 8) ? r.range(0, 255) : r.range('a', 'c'); nm[i] = char(c); }
        std::string_view sv(nm, n);
        switch (r.range(0, 9))
        {
        case 8: if (r.chance(1, 8)) op<Blob<5000>>(sv); else op<Blob<700>>(sv); break;
        case 0: op<uint8_t>(sv); break;
        case 1: op<uint16_t>(sv); break;
        case 2: op<uint32_t>(sv); break;
        case 3: op<uint64_t>(sv); break;
        case 4: op<float>(sv); break;
        case 5: op<Blob<3>>(sv); break;
        case 6: op<Blob<24>>(sv); break;
        case 7: op<Blob<61>>(sv); break;
        default:
            if (r.chance(1, 4)) { auto* p = s.get(); bool init = r.chance(1, 3); LIB("storage reopen", new (p) embedded::PersistentStorage(embedded::BytesView(mem.data(), mem.size()), init)); }
        }
        d.add(mem.data(), mem.size());
    }
};

// an 8-bit font (codes 32..255) whose offsets reach from below the line to above it
inline const embedded::fonts::EmbeddedFont& latinFont()
{
    struct Data
    {
        std::array<uint8_t, 700> bits {}; std::array<embedded::fonts::GlyphDescriptor, 95 + 96> glyph {};
        std::unique_ptr<embedded::fonts::FontDescriptor> desc; std::unique_ptr<embedded::fonts::EmbeddedFont> font;
        Data()
        {
            vf::Rng g; g.s = 42;
            for (auto& b: bits) b = g.byte();
            uint16_t at = 0;
            for (auto& x: glyph)
            {
                uint8_t w = uint8_t(g.range(0, 7)), h = uint8_t(g.range(0, 4));
                uint8_t adv = uint8_t(g.range(0, 9)); int8_t ox = int8_t(g.range(-4, 3)), oy = int8_t(g.range(-9, 2));
                x.bitmapOffset = at; x.size.width = w; x.size.height = h; x.shift = adv; x.offset.width = ox; x.offset.height = oy;
                at = uint16_t(at + (w * h + 7) / 8);
            }
            desc = std::make_unique<embedded::fonts::FontDescriptor>(embedded::fonts::FontDescriptor { embedded::ConstBytesView(bits.data(), at), embedded::MemoryView<const embedded::fonts::GlyphDescriptor>(glyph.data(), glyph.size()), 32, 255, 12 });
            font = std::make_unique<embedded::fonts::EmbeddedFont>(*desc);
        }
    };
    static const Data data;
    return *data.font;
}

template<class FB> struct CanvasActor : Actor
{
    std::unique_ptr<FB> fb;
    std::unique_ptr<Canvas> canvas;
    const embedded::fonts::EmbeddedFont* font;
    explicit CanvasActor(uint64_t seed, const embedded::fonts::EmbeddedFont& f = embedded::fonts::FreeSans15pt) : Actor(seed), font(&f)
    {
        void* m = operator new(sizeof(FB)); memset(m, leftover(0), sizeof(FB));
        FB* p = nullptr; LIB("frame buffer create", p = new (m) FB()); fb.reset(p);
        void* c = operator new(sizeof(Canvas));
        Canvas* q = nullptr; LIB("canvas create", q = new (c) Canvas(*p)); canvas.reset(q);
        LIB("canvas clear", q->clear(0));
    }
    const char* name() const override { return "canvas"; }
    std::unique_ptr<embedded::fonts::EmbeddedFont> ownFont;
    std::vector<std::pair<std::unique_ptr<FB>, uint64_t>> kept;
    static uint64_t picture(const FB& f) { Digest a; auto i = f.getImage(); a.add(i.begin(), i.size()); return a.h; }
    static void scribble(FB& f, vf::Rng& q)
    {
        Canvas c(f); c.setColor(uint32_t(q.next()));
        if (q.chance(1, 3)) c.clear(uint32_t(q.next()));
        for (int i = 0; i < 4; ++i) { int x = int(q.range(0, f.getWidth() - 1)), y = int(q.range(0, f.getHeight() - 1)); c.drawLine({ x, y }, { y, x }); }
    }
    const char* snapshots() override
    {
        for (auto& [f, was]: kept) if (picture(*f) != was) return "a copy of the frame buffer changed while the original was drawn on";
        return nullptr;
    }
    int relocate(vf::Rng& q) override
    {
        if constexpr (std::is_copy_constructible_v<FB> && std::is_copy_constructible_v<Canvas> && std::is_copy_assignable_v<FB> && std::is_copy_constructible_v<embedded::fonts::EmbeddedFont>)
        {
            switch (q.range(0, 4))
            {
            case 0: canvas = std::make_unique<Canvas>(*canvas); return 1;
            case 1: case 2:
            {   // the frame buffer moves; a new canvas for it is turned like the old one
                std::unique_ptr<FB> n;
                if (q.chance(1, 2)) n = std::make_unique<FB>(*fb);
                else { n = std::make_unique<FB>(); scribble(*n, q); *n = *fb; }
                auto c = std::make_unique<Canvas>(*n); c->setRotation(canvas->getRotation());
                if (q.chance(1, 2)) scribble(*fb, q);       // the original goes another way
                canvas = std::move(c); fb = std::move(n);
                return 1;
            }
            case 3:
            {
                auto n = std::make_unique<FB>(*fb);
                if (q.chance(1, 2)) scribble(*n, q);
                const uint64_t now = picture(*n);
                if (kept.size() < 4) kept.emplace_back(std::move(n), now);
                return 1;
            }
            default: { auto n = std::make_unique<embedded::fonts::EmbeddedFont>(*font); ownFont = std::move(n); font = ownFont.get(); return 1; }
            }
        }
        return 0;
    }
    uint64_t look(vf::Rng& q) override
    {
        Digest a;
        const Canvas& c = *canvas; const FB& f = *fb;
        for (int i = 0; i < 4; ++i)
        {
            int x = int(q.range(-3000, 3000)), y = int(q.range(-3000, 3000)), w = int(q.range(0, 300)), h = int(q.range(0, 300));
            auto t = c.transformCoords(Canvas::Rect { { x, y }, { w, h } });
            a.add(uint64_t(uint32_t(t.topLeft.x)) << 32 | uint32_t(t.topLeft.y)); a.add(uint64_t(uint32_t(t.size.width)) << 32 | uint32_t(t.size.height));
            a.add(uint64_t(c.getRotation()));
            auto s = c.getSize(); a.add(uint64_t(s.width) << 20 | uint64_t(s.height));
            auto g = font->getBitmap(char(q.range(0, 255)));
            a.add(g.bitmap.begin(), g.bitmap.size()); a.add(uint64_t(g.width) << 32 | uint64_t(g.effectiveSize.width) << 24 | uint64_t(g.effectiveSize.height) << 16 | uint64_t(uint8_t(g.offset.width)) << 8 | uint8_t(g.offset.height));
            char txt[40]; size_t n = size_t(q.range(0, 40)); for (size_t k = 0; k < n; ++k) { int64_t v = q.range(0, 255); txt[k] = char(v); }
            auto b = font->getTextBounds(std::string_view(txt, n));
            a.add(uint64_t(uint32_t(b.topLeft.x)) << 32 | uint32_t(b.topLeft.y)); a.add(uint64_t(uint32_t(b.size.width)) << 32 | uint32_t(b.size.height));
        }
        auto i1 = c.getImage(), i2 = f.getImage(); a.add(i1.begin(), i1.size()); a.add(i2.begin(), i2.size());
        a.add(uint64_t(fb->getWidth()) << 20 | uint64_t(fb->getHeight()));
        return a.h;
    }
    Canvas::Point pt()
    {
        int w = fb->getWidth(), h = fb->getHeight(); bool far = r.chance(1, 12);
        bool farther = far && r.chance(1, 6);
        int x = int(farther ? r.notable(-70000, 70000) : far ? r.range(-5000, 5000) : r.range(-w / 2, w + w / 2)), y = int(farther ? r.notable(-70000, 70000) : far ? r.range(-5000, 5000) : r.range(-h / 2, h + h / 2));
        return { x, y };
    }
    void step() override
    {
        auto a = pt(), b = pt();
        bool vast = r.chance(1, 15);
        int w = int(vast ? r.notable(0, 40000) : r.range(-3, 60)), h = int(vast ? r.notable(0, 40000) : r.range(-3, 60)), rad = int(vast ? r.notable(0, 600) : r.range(0, 70));
        uint32_t col = uint32_t(r.next()); int rot = int(r.range(0, 3));
        char txt[2600]; size_t n = size_t(r.chance(1, 12) ? r.chance(1, 6) ? r.notable(0, 2600) : r.range(8, 300) : r.range(0, 7));
        for (size_t i = 0; i < n; ++i) { int64_t c = r.chance(1, 4) ? r.range(0, 255) : r.range(32, 126); txt[i] = char(c); }
        std::string_view sv(txt, n);
        Canvas::Rect rect { a, { w, h } };
        switch (r.range(0, 12))
        {
        case 0: LIB("canvas setColor", canvas->setColor(col)); break;
        case 1: if (r.chance(1, 4)) LIB("canvas clear", canvas->clear(col)); break;
        case 2: LIB("canvas setRotation", canvas->setRotation(Canvas::Rotation(rot))); break;
        case 3: LIB("canvas drawPixel", canvas->drawPixel(a)); break;
        case 4: LIB("canvas drawLine", canvas->drawLine(a, b)); break;
        case 5: LIB("canvas drawRectangle", canvas->drawRectangle(rect)); break;
        case 6: LIB("canvas drawFilledRectangle", canvas->drawFilledRectangle(rect)); break;
        case 7: LIB("canvas drawCircle", canvas->drawCircle(a, rad)); break;
        case 8: LIB("canvas drawFilledCircle", canvas->drawCircle(a, rad, true)); break;
        case 9: { int adv = 0; char c = char(col); LIB("canvas drawCharAt", adv = canvas->drawCharAt(a, c, *font)); d.add(uint64_t(adv)); break; }
        case 10: LIB("canvas drawStringAt", canvas->drawStringAt(a, sv, *font)); break;
        case 11: { Canvas::Rect t; LIB("canvas transformCoords", t = canvas->transformCoords(rect)); d.add(uint64_t(t.topLeft.x) ^ uint64_t(t.topLeft.y) << 16 ^ uint64_t(t.size.width) << 32 ^ uint64_t(t.size.height) << 48); break; }
        default: { Rect<int> t; LIB("font getTextBounds", t = bounds(sv)); d.add(uint64_t(uint16_t(t.topLeft.x)) | uint64_t(uint16_t(t.topLeft.y)) << 16 | uint64_t(uint16_t(t.size.width)) << 32 | uint64_t(uint16_t(t.size.height)) << 48); }
        }
        auto sz = canvas->getSize(); d.add(uint64_t(sz.width) << 20 | uint64_t(sz.height));
        const Canvas& cc = *canvas; embedded::ConstBytesView img; LIB("canvas getImage", img = cc.getImage());
        d.add(img.begin(), img.size());
    }
    template<class T> using Rect = embedded::Rect<T>;
    Rect<int> bounds(std::string_view sv) { return font->getTextBounds(sv); }
};

// views, byte order and geometry are values; the actor exercises them over its own array
struct ValueActor : Actor
{
    std::array<uint16_t, 64> data;
    explicit ValueActor(uint64_t seed) : Actor(seed) { for (auto& v: data) v = uint16_t(r.next()); }
    const char* name() const override { return "values"; }
    uint64_t look(vf::Rng& q) override
    {
        Digest a;
        embedded::MemoryView<uint16_t> v(data); const auto& c = v;
        for (int i = 0; i < 4; ++i)
        {
            size_t x = size_t(q.range(0, 70)), y = size_t(q.range(0, 70));
            auto s = c.subspan(x, y); auto f = c.first(x), l = c.last(y); auto b = s.as_bytes();
            a.add(s.begin(), s.size_bytes()); a.add(f.begin(), f.size_bytes()); a.add(l.begin(), l.size_bytes()); a.add(b.begin(), b.size());
            a.add(c.size()); a.add(c.empty()); if (!s.empty()) { a.add(s[0]); a.add(s.data() == s.begin()); }
        }
        a.add(data.data(), sizeof data);
        return a.h;
    }
    void step() override
    {
        embedded::MemoryView<uint16_t> v(data);
        size_t a = size_t(r.range(0, 70)), b = size_t(r.range(0, 70)); uint32_t x = uint32_t(r.next()), y = x;
        embedded::MemoryView<uint16_t> s; LIB("view subspan", s = v.subspan(a, b).first(b / 2 + 1).last(a / 2 + 1));
        embedded::ConstBytesView bytes; LIB("view bytes", bytes = s.as_bytes());
        d.add(bytes.begin(), bytes.size());
        uint32_t c = 0; LIB("byte order", c = embedded::changeEndianess(x); embedded::changeEndianess16x2(&y));
        d.add(c); d.add(y);
        int p = int(r.range(-1000, 1000)), q = int(r.range(-1000, 1000)), m = int(r.range(-9, 9)), o = int(r.range(1, 9));
        embedded::Point<int> pt { p, q }; embedded::Size<int> sz { q, m };
        LIB("geometry", pt += sz * m; pt = pt + sz / o; pt = embedded::Matrix2x2<int>(m, o, p % 7, q % 7) * pt);
        d.add(uint64_t(uint32_t(pt.x)) << 32 | uint32_t(pt.y));
        embedded::Rect<int> rc { pt, sz }; embedded::Rect<int16_t> small { embedded::Point<int16_t> { int16_t(p), int16_t(q) }, embedded::Size<int16_t> { int16_t(m), int16_t(o) } };
        embedded::Rect<int> wide { small };
        auto br = rc.bottomRight(); auto wr = wide.bottomRight();
        d.add(uint64_t(uint32_t(br.x)) << 32 | uint32_t(br.y)); d.add(uint64_t(uint32_t(wr.x)) << 32 | uint32_t(wr.y));
    }
};

inline std::unique_ptr<Actor> makeCoreActor(uint64_t seed)
{
    uint64_t k = vf::mix(seed ^ 0x5eed) % 12;
    switch (k)
    {
    case 0: case 1: case 2: return std::make_unique<TextActor>(seed);
    case 3: case 4: case 5: return std::make_unique<StorageActor>(seed);
    case 6: return std::make_unique<ValueActor>(seed);
    case 7: return std::make_unique<CanvasActor<SimpleFrameBuffer<64, 48, 1>>>(seed);
    case 8: return std::make_unique<CanvasActor<SimpleFrameBuffer<40, 30, 2>>>(seed, latinFont());
    case 9: return std::make_unique<CanvasActor<SimpleFrameBuffer<30, 40, 4>>>(seed, latinFont());
    case 10: return std::make_unique<CanvasActor<SimpleFrameBuffer<33, 25, 16>>>(seed);
    default: return std::make_unique<CanvasActor<SimpleFrameBuffer<25, 33, 32>>>(seed);
    }
}
}
