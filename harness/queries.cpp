// N04: asking changes nothing.  Two objects live through the same operations; one of them is asked everything that can be
// asked in between, and both must stay alike.  The same question twice gets the same answer; stored objects are read, and
// texts and images drawn from, memory that cannot be written.
#include "work.h"
using namespace vf;
namespace
{
// memory on pages of its own, which can be write-protected
struct Pages
{
    size_t size, room;
    uint8_t* base;
    explicit Pages(size_t n) : size(n), room((n + 8192) & ~size_t(4095)), base(static_cast<uint8_t*>(mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0))) { if (base == MAP_FAILED) { perror("mmap"); _exit(98); } }
    ~Pages() { munmap(base, room); }
    Pages(const Pages&) = delete;
    uint8_t* at() const { return base + room - 4096 - (size + 15) / 16 * 16; }
    void writable(bool on) const { if (mprotect(base, room, on ? PROT_READ | PROT_WRITE : PROT_READ) != 0) { perror("mprotect"); _exit(98); } }
};
struct Big { uint8_t b[200]; bool operator==(const Big& o) const { return !memcmp(b, o.b, sizeof b); } };

void twins()
{
    auto& r = rng();
    uint64_t seed = r.next();
    auto a = work::makeCoreActor(seed), b = work::makeCoreActor(seed);
    int steps = historyLength(1, 25, 200);
    VF_CHECK(a->d.h == b->d.h, "twins-differ", "two new objects of the same kind (%s) differ", a->name());
    for (int i = 0; i < steps; ++i)
    {
        int looks = int(r.range(0, 3));
        for (int k = 0; k < looks; ++k)
        {
            Rng q1; q1.s = r.next(); Rng q2 = q1;
            uint64_t first = b->look(q1), again = b->look(q2);
            VF_CHECK(first == again, "answers-differ", "%s, after %d operations: the same questions asked twice were answered differently", b->name(), i);
            cov("rounds of questions");
        }
        a->step(); b->step();
        VF_CHECK(a->d.h == b->d.h, "changed-by-looking", "%s: after %d operations the object that was looked at differs from the one that was not", b->name(), i + 1);
        cov("operations compared");
    }
    Rng q; q.s = r.next(); Rng q2 = q;
    VF_CHECK(a->look(q) == b->look(q2), "changed-by-looking", "%s: in the end the object that was looked at answers differently from the one that was not", b->name());
    cov((std::string("cases: ") + a->name()).c_str());
    sigAdd(a->d.h); nontrivial();
    trace("%s, %d operations", a->name(), steps);
}

void protectedStore()
{
    auto& r = rng();
    Pages p(size_t(r.range(8, 1500)));
    for (size_t i = 0; i < p.size; ++i) p.at()[i] = r.byte();
    auto store = std::make_unique<embedded::PersistentStorage>(embedded::BytesView(p.at(), p.size), true);
    auto& s = *store; size_t used = 0;
    std::map<std::string, std::pair<int, std::vector<uint8_t>>> model;
    int n = int(r.range(0, 10));
    auto name = [&] { std::string x; for (int k = int(r.range(1, 4)); k > 0; --k) x += char(r.range('a', 'd')); return x; };
    for (int i = 0; i < n; ++i)
    {
        auto nm = name(); if (model.count(nm)) continue;
        int kind = int(r.range(0, 3)); std::vector<uint8_t> v;
        auto put = [&](auto x) { r.fill(reinterpret_cast<uint8_t*>(&x), sizeof x); v.assign(reinterpret_cast<uint8_t*>(&x), reinterpret_cast<uint8_t*>(&x) + sizeof x); return s.set(nm, x); };
        bool ok = kind == 0 ? put(uint8_t()) : kind == 1 ? put(uint32_t()) : kind == 2 ? put(uint64_t()) : put(Big());
        if (ok) { model[nm] = { kind, v }; used += 6 + v.size(); }
    }
    if (r.chance(1, 2) && used <= p.size)
    {   // opened again; what lies behind the objects may be anything that is no object
        uint8_t* end = p.at() + used; size_t rest = p.size - used;
        for (size_t i = 0; i < rest; ++i) end[i] = r.byte();
        uint16_t mark = uint16_t(r.chance(1, 2) ? r.range(0, 5) : r.range(int64_t(rest) + 1, 65535));
        if (rest >= 2) memcpy(end, &mark, 2);
        store = std::make_unique<embedded::PersistentStorage>(embedded::BytesView(p.at(), p.size), false);
        cov("stores opened again");
    }
    p.writable(false);
    const auto& c = *store;
    for (int i = 0; i < 20; ++i)
    {
        auto nm = r.chance(1, 2) || model.empty() ? name() : std::next(model.begin(), r.range(0, int64_t(model.size()) - 1))->first;
        auto it = model.find(nm);
        int kind = it != model.end() && r.chance(3, 4) ? it->second.first : int(r.range(0, 3));
        auto check = [&](auto got) {
            bool there = it != model.end() && it->second.first == kind;
            VF_CHECK(got.has_value() == there, "wrong-answer", "read of object '%s' from write-protected memory: %s", nm.c_str(), there ? "not found" : "found though not stored with this size");
            if (there) { VF_CHECK(!memcmp(&*got, it->second.second.data(), it->second.second.size()), "wrong-answer", "read of object '%s' from write-protected memory gave another content", nm.c_str()); cov("objects read from protected memory"); }
        };
        note("get of '%s' from a write-protected region", nm.c_str());
        if (kind == 0) check(c.get<uint8_t>(nm)); else if (kind == 1) check(c.get<uint32_t>(nm)); else if (kind == 2) check(c.get<uint64_t>(nm)); else check(c.get<Big>(nm));
        cov("reads of protected memory");
        sigAdd(nm); sigAdd(uint64_t(kind));
    }
    p.writable(true);
    if (!model.empty()) nontrivial();
    trace("%zu objects in %zu bytes", model.size(), p.size);
}

// a font whose tables, descriptor and object lie in memory that cannot be written (as in flash), used for everything
void protectedFont()
{
    using namespace embedded::fonts;
    auto& r = rng();
    const int first = 32, last = r.chance(1, 2) ? 126 : 255, count = last < 128 ? 95 : 95 + 96;
    Pages p(4096 + 16 * 1024);
    uint8_t* at = p.at();
    auto* glyphs = reinterpret_cast<GlyphDescriptor*>(at);
    uint8_t* bits = at + sizeof(GlyphDescriptor) * size_t(count);
    size_t used = 0;
    for (int i = 0; i < count; ++i)
    {
        GlyphDescriptor g {};
        int w = int(r.range(0, 12)), h = int(r.range(0, 12));
        g.bitmapOffset = uint16_t(used); g.size.width = uint8_t(w); g.size.height = uint8_t(h); g.shift = uint8_t(r.range(0, 14)); g.offset.width = int8_t(r.range(-3, 3)); g.offset.height = int8_t(r.range(-12, 2));
        memcpy(&glyphs[i], &g, sizeof g);
        for (int k = 0; k < (w * h + 7) / 8; ++k) bits[used++] = r.byte();
    }
    uint8_t* rest = bits + ((used + 15) & ~size_t(15));
    rest += (16 - reinterpret_cast<uintptr_t>(rest) % 16) % 16;
    auto* desc = new (rest) FontDescriptor { embedded::ConstBytesView(bits, used), embedded::MemoryView<const GlyphDescriptor>(glyphs, size_t(count)), uint8_t(first), uint8_t(last), 14 };
    auto* font = new (rest + 256) EmbeddedFont(*desc);
    std::string text; for (int k = int(r.range(1, 20)); k > 0; --k) text += char(r.chance(1, 4) ? r.range(0, 255) : r.range(32, 126));
    auto draw = [&] {
        work::Digest d;
        SimpleFrameBuffer<120, 60, 2> fb; Canvas c(fb);
        c.clear(0); c.setColor(2); c.setRotation(Canvas::Rotation(text.size() % 4));
        c.drawStringAt({ 5, 25 }, text, *font);
        auto b = font->getTextBounds(text); d.add(uint64_t(uint32_t(b.size.width)) << 32 | uint32_t(b.size.height)); d.add(uint64_t(uint32_t(b.topLeft.x)) << 32 | uint32_t(b.topLeft.y));
        for (int k = 0; k < 256; ++k) { auto g = font->getBitmap(char(k)); d.add(g.bitmap.begin(), g.bitmap.size()); d.add(g.width); }
        auto img = fb.getImage(); d.add(img.begin(), img.size());
        return d.h;
    };
    const bool early = r.chance(3, 4);
    std::vector<uint8_t> was(p.base, p.base + p.room);
    if (early) p.writable(false);
    note("text drawn with a write-protected font");
    uint64_t before = draw();
    p.writable(false);
    uint64_t during = draw(), again = draw();
    p.writable(true);
    VF_CHECK(before == during && during == again, "answers-differ", "the same text drawn with the same font came out differently");
    VF_CHECK(!memcmp(was.data(), p.base, p.room), "font-written", "drawing a text changed the memory of the font");
    cov("texts drawn with a protected font"); nontrivial(); sigAdd(before);
    trace("text of %zu characters with a font of %d glyphs", text.size(), count);
}
}
int main(int argc, char** argv)
{
    return run(argc, argv, [] {
        switch (rng().range(0, 5))
        {
        case 0: protectedStore(); break;
        case 1: protectedFont(); break;
        default: twins();
        }
    });
}
