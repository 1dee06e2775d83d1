// S01..S05: monitors of the persistent storage.
#include "vf.h"
#include "PersistentStorage.h"
#include <ucontext.h>

using embedded::BytesView;
using embedded::PersistentStorage;
using vf::rng;

#ifdef VF_BYTEWISE_MEMORY
// Byte-wise memory functions (this build only): every byte a store writes becomes a possible crash point.
extern "C" void* memcpy(void* d, const void* s, size_t n)
{
    auto dd = static_cast<volatile char*>(d);
    auto ss = static_cast<const volatile char*>(s);
    while (n--) *dd++ = *ss++;
    return d;
}
extern "C" void* memmove(void* d, const void* s, size_t n)
{
    auto dd = static_cast<volatile char*>(d);
    auto ss = static_cast<const volatile char*>(s);
    if (dd < ss) while (n--) *dd++ = *ss++;
    else while (n--) dd[n] = ss[n];
    return d;
}
extern "C" void* memset(void* d, int c, size_t n)
{
    auto dd = static_cast<volatile char*>(d);
    while (n--) *dd++ = char(c);
    return d;
}
#endif

namespace
{
constexpr size_t overhead = 6; // documented in the unit tests: "6 is a size of NodeDescriptor"

template<size_t N> struct Blob { uint8_t b[N]; };
struct Xyz { int32_t x, y, z; };
struct alignas(16) A16 { uint8_t b[16]; };
struct alignas(32) A32 { uint8_t b[64]; };
struct Mixed { double d; uint64_t u; };
enum class En : uint16_t { a, b };

using Bytes = std::vector<uint8_t>;

struct Type
{
    size_t size;
    bool (*set)(PersistentStorage&, std::string_view, const uint8_t*);
    bool (*get)(const PersistentStorage&, std::string_view, Bytes&);
    const char* name;
};

template<class T> bool setT(PersistentStorage& s, std::string_view key, const uint8_t* bytes)
{
    auto object = std::make_unique<T>();
    memcpy(static_cast<void*>(object.get()), bytes, sizeof(T));
    const T& ref = *object;
    return s.set(key, ref);
}
template<class T> bool getT(const PersistentStorage& s, std::string_view key, Bytes& out)
{
    // large results are not kept on the stack
    auto r = std::make_unique<std::optional<T>>(s.get<T>(key));
    if (!*r) return false;
    out.resize(sizeof(T));
    memcpy(out.data(), static_cast<const void*>(&**r), sizeof(T));
    return true;
}
template<class T> constexpr Type type(const char* n) { return { sizeof(T), setT<T>, getT<T>, n }; }
#define B(N) type<Blob<N>>("blob" #N)
const std::vector<Type> small = {
    B(1), B(2), B(3), B(4), B(5), B(6), B(7), B(8), B(9), B(12), B(15), B(16), B(17), B(31), B(32), B(33),
    type<uint8_t>("u8"), type<uint16_t>("u16"), type<uint32_t>("u32"), type<int32_t>("i32"), type<uint64_t>("u64"), type<double>("double"),
    type<float>("float"), type<Xyz>("xyz"), type<A16>("a16"), type<A32>("a32"), type<Mixed>("mixed"), type<En>("enum"),
};
const std::vector<Type> medium = { B(64), B(100), B(249), B(250), B(255), B(256), B(300), B(506), B(513), B(1000) };
const std::vector<Type> large = { B(5000), B(30000), B(32762), B(65528), B(65529) };
const std::vector<Type> tooLarge = { B(65530), B(65531), B(65535), B(65536), B(65537), B(70000) };

struct Region
{
    vf::Block block;
    Region(size_t n, uint8_t fill) : block(n, size_t(rng().range(0, 17))) { for (size_t i = 0; i < n; ++i) block.data()[i] = fill; }
    BytesView view() { return { block.data(), block.size() }; }
    Bytes bytes() { return Bytes(block.data(), block.data() + block.size()); }
};

using Key = std::pair<std::string, size_t>;
// a name is at most four characters, filled up with zeros: trailing zeros do not make another name
struct KeyLess
{
    static std::string_view canon(const std::string& s) { std::string_view v(s); while (v.size() && v.size() <= 4 && !v.back()) v.remove_suffix(1); return v; }
    bool operator()(const Key& a, const Key& b) const { auto x = canon(a.first), y = canon(b.first); return x != y ? x < y : a.second < b.second; }
};
struct Model
{
    size_t cap = 0, used = 0;
    std::map<Key, Bytes, KeyLess> objects;
};

bool crowded = false;    // the case is about very many objects
std::string randomName(bool longToo)
{
    if (crowded && rng().chance(7, 8)) return vf::fmt("%d", int(rng().range(0, 9999)));
    static const std::vector<std::string> pool = { "", "a", "b", "ab", "abc", "abcd", "abce", "bcd", "key1", "key2", "k", "\xff\xfe", "\x80", "x y", "....", "\x7f" };
    if (longToo && rng().chance(1, 14))
    {
        static const std::vector<std::string> lng = { "abcde", "key10", "key1x", "a long name", "abcd ", "key1key1" };
        if (rng().chance(1, 4)) return std::string(size_t(rng().chance(1, 20) ? rng().notable(5, 70000) : rng().notable(5, 1100)), rng().chance(1, 2) ? 'a' : char(rng().next() | 1));
        return rng().pick(lng);
    }
    if (rng().chance(2, 3)) return rng().pick(pool);
    std::string s;
    size_t n = size_t(rng().range(0, 4));
    const bool zeros = rng().chance(1, 3);
    while (s.size() < n) { char c = char(rng().next()); if (zeros && rng().chance(1, 2)) c = 0; if (c || zeros) s += c; }
    if (s.find('\0') != s.npos) vf::cov("names with zero bytes");
    return s;
}

struct Choice { bool med = true, big = false; };
const Type& randomType(const Choice& c)
{
    if (c.big && rng().chance(1, 2)) return rng().chance(1, 3) ? rng().pick(tooLarge) : rng().pick(large);
    if (c.med && rng().chance(1, 6)) return rng().pick(medium);
    if (rng().chance(1, 400)) return rng().pick(tooLarge);
    return rng().pick(small);
}

Bytes randomBytes(size_t n)
{
    Bytes b(n);
    if (rng().chance(1, 6)) { uint8_t v = rng().pick<uint8_t>({ 0, 0xff, 1 }); for (auto& x: b) x = v; }
    else if (n > 256) { uint64_t s = rng().next(); for (auto& x: b) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = uint8_t(s >> 56); } }
    else rng().fill(b.data(), n);
    return b;
}

const Type& typeFor(size_t size)
{
    for (auto v: { &small, &medium, &large, &tooLarge }) for (auto& t: *v) if (t.size == size) return t;
    abort();
}

// name in its own exact block so that reading past the view is seen
struct Name
{
    vf::Block b;
    explicit Name(const std::string& s) : b(s.size()) { if (!s.empty()) memcpy(b.data(), s.data(), s.size()); }
    std::string_view view() { return { reinterpret_cast<char*>(b.data()), b.size() }; }
};

void expectAll(const PersistentStorage& s, const Model& m, const char* when)
{
    for (auto& [k, v]: m.objects)
    {
        Bytes got;
        Name n(k.first);
        bool ok = typeFor(k.second).get(s, n.view(), got);
        VF_CHECK(ok, "lost", "%s: object '%s' of %zu bytes is gone", when, k.first.c_str(), k.second);
        VF_CHECK(got == v, "changed", "%s: object '%s' of %zu bytes reads %s, stored %s", when, k.first.c_str(), k.second, vf::hex(got.data(), got.size()).c_str(), vf::hex(v.data(), v.size()).c_str());
    }
    vf::cov("objects re-read", m.objects.size());
}

// what the next store must do according to the specification
bool mustAccept(const Model& m, const std::string& name, size_t size)
{
    if (m.objects.count({ name, size })) return true;
    return name.size() <= 4 && size + overhead <= 65535 && m.cap - m.used >= size + overhead;
}
void apply(Model& m, const std::string& name, const Bytes& v)
{
    if (!m.objects.count({ name, v.size() })) m.used += v.size() + overhead;
    m.objects[{ name, v.size() }] = v;
}

size_t randomCap(bool& big)
{
    crowded = rng().chance(1, 150);
    if (crowded) { big = false; vf::cov("crowded regions"); return size_t(rng().range(3000, 9000)); }
    big = rng().chance(1, 300);
    if (big) return size_t(rng().pick<int64_t>({ 65535, 65536, 65534, 70000, 131072, rng().range(60000, 200000) }));
    switch (rng().next() % 10)
    {
    case 0: return size_t(rng().range(0, 12));
    case 1: return size_t(rng().range(500, 3000));
    case 2: case 3: return size_t(rng().range(13, 60));
    default: return size_t(rng().range(30, 400));
    }
}

// One random operation; both results and region checked. Returns a description.
void step(PersistentStorage& s, Region& r, Model& m, const Choice& c, bool checkBytes)
{
    const auto name = randomName(true);
    const Type* t = &randomType(c);
    std::string nm = name;
    if (!m.objects.empty() && rng().chance(1, 3))
    {
        auto it = m.objects.begin();
        std::advance(it, rng().range(0, int64_t(m.objects.size()) - 1));
        nm = it->first.first;
        if (rng().chance(2, 3)) t = &typeFor(it->first.second);
    }
    Name n(nm);
    vf::sigAdd(nm); vf::sigAdd(t->size);
    if (rng().chance(2, 3))
    {
        // an exactly fitting object now and then
        if (!c.big && rng().chance(1, 4)) for (auto& x: small) if (m.used + overhead + x.size == m.cap && rng().chance(1, 2)) t = &x;
        auto v = randomBytes(t->size);
        vf::Block src(v.size()); memcpy(src.data(), v.data(), v.size());
        const bool expect = mustAccept(m, nm, t->size);
        const bool update = m.objects.count({ nm, t->size }) != 0;
        Bytes before = checkBytes || !expect ? r.bytes() : Bytes();
        bool ok = t->set(s, n.view(), src.data());
        vf::trace(" set(%s,%zu)=%d", nm.c_str(), t->size, ok);
        VF_CHECK(ok == expect, "accept", "store of '%s' (%zu bytes) returned %d, region %zu, used %zu%s", nm.c_str(), t->size, ok, m.cap, m.used, update ? ", object exists" : "");
        if (ok)
        {
            if (!update && m.cap - m.used == t->size + overhead) { vf::cov("exact fit"); vf::nontrivial(); }
            apply(m, nm, v);
            vf::cov(update ? "updated" : "stored");
            if (update) vf::nontrivial();
        }
        else
        {
            VF_CHECK(r.bytes() == before, "refusal-writes", "refused store of '%s' (%zu bytes) changed the region", nm.c_str(), t->size);
            vf::cov(nm.size() > 4 ? "refused: name" : t->size + overhead > 65535 ? "refused: size" : "refused: room");
            vf::nontrivial();
        }
    }
    else
    {
        Bytes before = checkBytes ? r.bytes() : Bytes();
        Bytes got;
        bool ok = t->get(s, n.view(), got);
        auto it = m.objects.find({ nm, t->size });
        vf::trace(" get(%s,%zu)=%d", nm.c_str(), t->size, ok);
        VF_CHECK(ok == (it != m.objects.end()), "presence", "load of '%s' (%zu bytes) returned %s", nm.c_str(), t->size, ok ? "an object never stored" : "nothing");
        if (ok) VF_CHECK(got == it->second, "changed", "load of '%s' (%zu bytes) returned %s, stored %s", nm.c_str(), t->size, vf::hex(got.data(), got.size()).c_str(), vf::hex(it->second.data(), it->second.size()).c_str());
        if (checkBytes) VF_CHECK(before == r.bytes(), "load-writes", "a load changed the region");
        vf::cov(ok ? "loaded" : "absent");
    }
    VF_CHECK(r.block.leadIntact(), "surroundings", "bytes before the region changed");
}

void caseS01()
{
    bool big;
    Model m;
    m.cap = randomCap(big);
    Region r(m.cap, rng().byte());
    PersistentStorage s(r.view());
    vf::trace("region %zu:", m.cap);
    vf::sigAdd(m.cap);
    Choice c { m.cap > 100, big };
    int ops = crowded ? int(rng().range(300, 700)) : int(rng().range(1, big ? 12 : 40));
    if (crowded) c.med = false;
    for (int i = 0; i < ops; ++i)
    {
        step(s, r, m, c, false);
        if (!crowded || i % 40 == 39 || i + 1 == ops) expectAll(s, m, "after an operation");
    }
    if (m.objects.size() > 256) vf::cov("regions with more than 256 objects");
    if (m.objects.size() > 2) vf::nontrivial();
    if (big) vf::cov("regions beyond 64 KiB");
    vf::cov("operations", uint64_t(ops));
}

void caseS02()
{
    bool big;
    Model m;
    m.cap = randomCap(big);
    uint8_t dirt = rng().byte();
    auto r = std::make_unique<Region>(m.cap, dirt);
    if (!big && rng().chance(1, 2)) for (size_t i = 0; i < m.cap; ++i) r->block.data()[i] = rng().byte();
    auto s = std::make_unique<PersistentStorage>(r->view());
    for (size_t i = 0; i < m.cap; ++i) VF_CHECK(r->block.data()[i] == 0, "not-erased", "byte %zu of %zu is 0x%02x after initialisation", i, m.cap, r->block.data()[i]);
    vf::trace("region %zu:", m.cap);
    Choice c { m.cap > 100, big };
    int rounds = int(rng().range(1, 5));
    if (crowded) c.med = false;
    for (int k = 0; k < rounds; ++k)
    {
        int ops = crowded ? int(rng().range(100, 400)) : int(rng().range(0, big ? 6 : 14));
        for (int i = 0; i < ops; ++i) step(*s, *r, m, c, false);
        const auto image = r->bytes();
        if (rng().chance(1, 2))
        {
            // in place; the old object is abandoned
            s = std::make_unique<PersistentStorage>(r->view(), false);
            vf::trace(" reopen");
            vf::cov("reopened in place");
        }
        else
        {
            auto r2 = std::make_unique<Region>(m.cap, 0);
            if (m.cap) memcpy(r2->block.data(), image.data(), m.cap);
            auto s2 = std::make_unique<PersistentStorage>(r2->view(), false);
            // the original and the copy must go on alike
            Model m2 = m;
            uint64_t sg = vf::st().sig;
            int n = int(rng().range(0, 6));
            auto save2 = rng();
            for (int i = 0; i < n; ++i) step(*s, *r, m2, c, false);
            vf::st().sig = sg;
            rng() = save2;
            for (int i = 0; i < n; ++i) step(*s2, *r2, m, c, false);
            vf::trace(" moved");
            s = std::move(s2);
            r = std::move(r2);
            vf::cov("reopened as a copy");
        }
        expectAll(*s, m, "after reopening");
        if (m.objects.size() > 256) vf::cov("regions with more than 256 objects");
        // names and sizes never stored are still absent
        for (int i = 0; i < 4; ++i)
        {
            auto nm = randomName(true);
            auto& t = randomType(c);
            Bytes got;
            bool ok = t.get(*s, nm, got);
            VF_CHECK(ok == (m.objects.count({ nm, t.size }) != 0), "presence", "after reopening: load of '%s' (%zu) returned %d", nm.c_str(), t.size, ok);
        }
        // opening must not write
        if (rng().chance(1, 2))
        {
            auto b = r->bytes();
            PersistentStorage again(r->view(), false);
            VF_CHECK(b == r->bytes(), "open-writes", "opening without initialisation changed the region");
        }
        if (m.objects.size() > 1) vf::nontrivial();
        if (m.objects.size() > 1 && m.used == m.cap) vf::cov("reopened full");
    }
    if (rng().chance(1, 4))
    {
        PersistentStorage fresh(r->view(), true);
        for (size_t i = 0; i < m.cap; ++i) VF_CHECK(r->block.data()[i] == 0, "not-erased", "byte %zu of %zu is 0x%02x after re-initialisation", i, m.cap, r->block.data()[i]);
        for (auto& [k, v]: m.objects) { Bytes got; VF_CHECK(!typeFor(k.second).get(fresh, k.first, got), "survived-init", "object '%s' survived initialisation", k.first.c_str()); }
        Model m2; m2.cap = m.cap;
        for (int i = 0; i < 4; ++i) step(fresh, *r, m2, c, false);
        vf::cov("re-initialised");
    }
    if (big) vf::cov("regions beyond 64 KiB");
}

void caseS03()
{
    VF_CHECK(embedded::PersistentStorage::DescriptorSize == overhead, "published-overhead", "DescriptorSize is %zu, each object takes %zu bytes more than its size", embedded::PersistentStorage::DescriptorSize, overhead);
    bool big;
    Model m;
    m.cap = randomCap(big);
    if (rng().chance(1, 3)) { const auto& t = rng().pick(small); m.cap = t.size + overhead + size_t(rng().range(-2, 2)); big = false; }
    Region r(m.cap, rng().byte());
    PersistentStorage s(r.view());
    vf::trace("region %zu:", m.cap);
    vf::sigAdd(m.cap);
    Choice c { m.cap > 100, big };
    int ops = crowded ? int(rng().range(300, 700)) : int(rng().range(1, big ? 10 : 40));
    if (crowded) c.med = false;
    for (int i = 0; i < ops; ++i) step(s, r, m, c, true);
    if (m.objects.size() > 256) vf::cov("regions with more than 256 objects");
    expectAll(s, m, "at the end");
    // the free room is what the sum of the accepted objects leaves: fill it up to the last byte
    if (!big && m.cap - m.used > overhead && m.cap - m.used < 40)
    {
        size_t room = m.cap - m.used - overhead;
        for (auto& t: small) if (t.size == room + 1 && !m.objects.count({ "zz", t.size }))
        {
            auto v = randomBytes(t.size);
            auto b = r.bytes();
            VF_CHECK(!t.set(s, "zz", v.data()), "accept", "object of %zu bytes accepted with %zu bytes of room", t.size, room + overhead);
            VF_CHECK(b == r.bytes(), "refusal-writes", "refused store changed the region");
            break;
        }
        for (auto& t: small) if (t.size == room && !m.objects.count({ "zz", t.size }))
        {
            auto v = randomBytes(t.size);
            VF_CHECK(t.set(s, "zz", v.data()), "accept", "object of %zu bytes refused with %zu bytes of room", t.size, room + overhead);
            apply(m, "zz", v);
            expectAll(s, m, "after filling up");
            vf::cov("filled to the last byte");
            vf::nontrivial();
            break;
        }
    }
    if (big) vf::cov("regions beyond 64 KiB");
    vf::cov("operations", uint64_t(ops));
}

void caseS04()
{
    bool big = false;
    size_t cap = rng().chance(1, 60) ? size_t(rng().range(60000, 140000)) : rng().chance(1, 5) ? size_t(rng().range(0, 14)) : size_t(rng().range(6, 300));
    Region r(cap, 0);
    std::set<Key, KeyLess> keys;
    uint8_t* d = r.block.data();
    int kind = int(rng().next() % 6);
    vf::trace("region %zu kind %d:", cap, kind);
    auto randomFill = [&] { uint64_t x = rng().next() | 1; for (size_t i = 0; i < cap; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; d[i] = uint8_t(x >> 56); } };
    if (kind == 0) randomFill();
    else if (kind == 1) { uint8_t v = rng().pick<uint8_t>({ 0xff, 1, 2, 3, 4, 5, 6, 7, 0x80, 0x10 }); for (size_t i = 0; i < cap; ++i) d[i] = v; if (rng().chance(1, 2)) for (size_t i = 1; i < cap; i += 2) d[i] = 0; }
    else
    {
        // chain of records, valid or with damaged size fields, possibly over old garbage
        if (kind == 2) randomFill();
        size_t pos = 0;
        while (pos + 7 <= cap)
        {
            auto nm = randomName(false);
            auto& t = rng().chance(1, 8) ? rng().pick(medium) : rng().pick(small);
            size_t size = t.size + overhead;
            if (kind >= 3 && rng().chance(1, 5)) size = size_t(rng().pick<int64_t>({ 0, 1, 2, 3, 4, 5, 6, 7, 8, int64_t(cap - pos), int64_t(cap - pos) + 1, int64_t(cap - pos) - 1, 65535, 32768, 0x8001, rng().range(0, 65535), 13, 256 }));
            d[pos] = uint8_t(size); d[pos + 1] = uint8_t(size >> 8);
            for (size_t i = 0; i < 4; ++i) d[pos + 2 + i] = uint8_t(i < nm.size() ? nm[i] : 0);
            for (size_t i = pos + 6; i < pos + size && i < cap; ++i) d[i] = rng().byte();
            keys.insert({ nm, t.size });
            if (size == 0 || rng().chance(1, 10)) { vf::trace(" end@%zu", pos); if (rng().chance(1, 2)) break; pos += t.size + overhead; continue; }
            vf::trace(" %zu", size);
            pos += size;
        }
        if (kind == 5) for (int i = 0; i < 3 && cap; ++i) d[rng().next() % cap] ^= uint8_t(1u << (rng().next() % 8));
        if (kind == 4 && cap) // everything after some point lost
        { size_t cut = rng().next() % cap; uint8_t v = rng().pick<uint8_t>({ 0, 0xff }); for (size_t i = cut; i < cap; ++i) d[i] = v; }
    }
    vf::sigAdd(std::string_view(reinterpret_cast<char*>(d), std::min<size_t>(cap, 64)));
    vf::note("region %zu kind %d first bytes %s", cap, kind, vf::hex(d, cap, 120).c_str());
    // names present in the bytes as read by anyone following the sizes
    for (size_t pos = 0, n = 0; pos + 6 <= cap && n < 50; ++n)
    {
        size_t size = size_t(d[pos] | d[pos + 1] << 8);
        std::string nm(reinterpret_cast<char*>(d) + pos + 2, 4);
        while (!nm.empty() && !nm.back()) nm.pop_back();
        if (size > 6) for (auto& t: small) if (t.size + overhead == size) keys.insert({ nm, t.size });
        if (!size) break;
        pos += size;
    }
    const auto image = r.bytes();
    PersistentStorage s(r.view(), false);
    VF_CHECK(image == r.bytes(), "open-writes", "opening without initialisation changed the region");
    for (auto nm: { "a", "ab", "key1", "" }) keys.insert({ nm, rng().pick(small).size });
    std::map<Key, std::optional<Bytes>, KeyLess> seen;
    auto load = [&](const Key& k) -> std::optional<Bytes> {
        Bytes b;
        if (typeFor(k.second).get(s, k.first, b)) return b;
        return std::nullopt;
    };
    size_t present = 0;
    for (auto& k: keys) { seen[k] = load(k); if (seen[k]) ++present; }
    vf::cov("objects found in damaged regions", present);
    if (present) vf::nontrivial();
    int ops = int(rng().range(1, 10));
    Choice c { cap > 100, big };
    for (int i = 0; i < ops; ++i)
    {
        Key k { randomName(true), randomType(c).size };
        if (rng().chance(1, 2)) { auto it = keys.begin(); std::advance(it, rng().range(0, int64_t(keys.size()) - 1)); k = *it; }
        if (!seen.count(k)) { seen[k] = load(k); keys.insert(k); }
        auto before = r.bytes();
        auto v = randomBytes(k.second);
        bool ok = typeFor(k.second).set(s, k.first, v.data());
        vf::trace(" set(%s,%zu)=%d", k.first.c_str(), k.second, ok);
        if (ok)
        {
            auto got = load(k);
            VF_CHECK(got.has_value(), "not-loadable", "successful store of '%s' (%zu) cannot be loaded", k.first.c_str(), k.second);
            VF_CHECK(*got == v, "changed", "stored '%s' (%zu) reads back differently", k.first.c_str(), k.second);
            vf::cov(seen[k] ? "updated in damaged region" : "stored in damaged region");
            seen[k] = v;
            vf::nontrivial();
        }
        else
        {
            VF_CHECK(before == r.bytes(), "refusal-writes", "refused store changed the region");
            vf::cov("refused in damaged region");
        }
        for (auto& [k2, v2]: seen)
        {
            auto got = load(k2);
            VF_CHECK(got == v2, "other-changed", "store of '%s' (%zu) changed the load of '%s' (%zu): %s -> %s", k.first.c_str(), k.second, k2.first.c_str(), k2.second, v2 ? vf::hex(v2->data(), v2->size()).c_str() : "nothing", got ? vf::hex(got->data(), got->size()).c_str() : "nothing");
        }
        VF_CHECK(r.block.leadIntact(), "surroundings", "bytes before the region changed");
    }
    // what the storage now contains must survive a reopening, too
    if (rng().chance(1, 2))
    {
        PersistentStorage again(r.view(), false);
        for (auto& [k2, v2]: seen) if (v2)
        {
            Bytes b;
            bool ok = typeFor(k2.second).get(again, k2.first, b);
            VF_CHECK(ok && b == *v2, "lost-on-reopen", "object '%s' (%zu) is lost after reopening the damaged region", k2.first.c_str(), k2.second);
        }
        vf::cov("damaged region reopened");
    }
}

// ---- S05: crash after every instruction
struct Recorder
{
    volatile bool on = false;
    const uint8_t* region = nullptr;
    size_t size = 0;
    std::vector<uint8_t> last, log;     // as large as needed before the stepping starts
    const uint8_t* state(size_t k) const { return log.data() + k * size; }
    size_t count = 0;
    uint64_t steps = 0;
};
Recorder* g_rec;

void onTrap(int, siginfo_t*, void* uc)
{
    auto& rec = *g_rec;
    if (!rec.on)
    {
        static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
        return;
    }
    ++rec.steps;
    bool diff = false;
    uint8_t* last = rec.last.data();
    size_t from = 0;
    for (; from + 8 <= rec.size && !diff; from += 8) { uint64_t a, b; __builtin_memcpy(&a, last + from, 8); __builtin_memcpy(&b, rec.region + from, 8); diff = a != b; }
    for (; from < rec.size && !diff; ++from) diff = last[from] != rec.region[from];
    if (diff && rec.count < 400)
    {
        uint8_t* to = rec.log.data() + rec.count * rec.size;
        for (size_t i = 0; i < rec.size; ++i) to[i] = last[i] = rec.region[i];
        ++rec.count;
    }
}

inline void stepOn() { asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
inline void stepOff() { asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }

void caseS05()
{
    if (!g_rec)
    {
        g_rec = new Recorder;
        struct sigaction sa {};
        sa.sa_sigaction = onTrap;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGTRAP, &sa, nullptr);
    }
    auto& rec = *g_rec;
    Model m;
    crowded = rng().chance(1, 80);
    const bool far = !crowded && rng().chance(1, 60);         // records beyond the first 32 or 64 KiB
    m.cap = size_t(far ? rng().range(33000, 80000) : crowded ? rng().range(5000, 9000) : rng().range(20, 360));
    Region r(m.cap, 0xee);
    auto s = std::make_unique<PersistentStorage>(r.view());
    Choice c { false, false };
    int prior = crowded ? int(rng().range(265, 400)) : int(rng().range(0, 8));
    vf::trace("region %zu:", m.cap);
    if (far) c = { true, true };
    for (int i = 0; i < prior; ++i) step(*s, r, m, c, false);
    if (m.objects.size() > 256) vf::cov("regions with more than 256 objects");
    if (m.used > 32768) vf::cov("stores beyond the first 32 KiB"); 
    if (m.used > 65536) vf::cov("stores beyond the first 64 KiB");
    if (far) c = { false, false };
    if (rng().chance(1, 3)) s = std::make_unique<PersistentStorage>(r.view(), false);
    // the store that is interrupted
    std::string nm = randomName(false);
    const Type* t = &rng().pick(small);
    if (!m.objects.empty() && rng().chance(1, 2))
    {
        auto it = m.objects.begin();
        std::advance(it, rng().range(0, int64_t(m.objects.size()) - 1));
        nm = it->first.first;
        t = &typeFor(it->first.second);
        if (t->size > 2000) t = &rng().pick(small);
    }
    else if (m.cap - m.used > 64 && rng().chance(1, 6)) { const auto& q = rng().pick(medium); if (mustAccept(m, nm, q.size)) t = &q; } // sizes above 255: two significant size bytes
    auto v = randomBytes(t->size);
    const bool accept = mustAccept(m, nm, t->size);
    const bool update = m.objects.count({ nm, t->size }) != 0;
    vf::sigAdd(nm); vf::sigAdd(t->size); vf::sigAdd(m.used); vf::sigAdd(m.cap);
    rec.region = r.block.data();
    rec.size = m.cap;
    rec.count = 0;
    rec.steps = 0;
    rec.last.assign(rec.region, rec.region + m.cap);
    rec.log.resize(400 * m.cap);
    sigset_t block, old;
    sigemptyset(&block); sigaddset(&block, SIGPROF);
    sigprocmask(SIG_BLOCK, &block, &old);
    rec.on = true;
    stepOn();
    bool ok = t->set(*s, nm, v.data());
    stepOff();
    rec.on = false;
    sigprocmask(SIG_SETMASK, &old, nullptr);
    vf::trace(" crash in set(%s,%zu)=%d %s: %llu instructions, %zu states", nm.c_str(), t->size, ok, update ? "update" : "new", (unsigned long long)rec.steps, rec.count);
    VF_CHECK(ok == accept, "accept", "store returned %d", ok);
    if (rec.steps < 20) { fprintf(stderr, "single stepping does not work\n"); _exit(98); }
    vf::cov("instructions stepped", rec.steps);
    vf::cov("crash states", rec.count);
    if (rec.count > 1) vf::nontrivial();
    if (update) vf::cov("interrupted updates"); else if (ok) vf::cov("interrupted new stores");
    Model others = m;
    others.objects.erase({ nm, t->size });
    for (size_t k = 0; k <= rec.count; ++k)
    {
        // k == 0: before the first change
        if (k == 0) continue;
        Region r2(m.cap, 0);
        memcpy(r2.block.data(), rec.state(k - 1), m.cap);
        PersistentStorage s2(r2.view(), false);
        expectAll(s2, others, "after a crash");
        if (accept)
        {
            bool again = t->set(s2, nm, v.data());
            VF_CHECK(again, "not-repeatable", "crash state %zu of %zu: the interrupted store of '%s' (%zu bytes, region %zu, used %zu) cannot be repeated", k, rec.count, nm.c_str(), t->size, m.cap, m.used);
            Bytes got;
            VF_CHECK(t->get(s2, nm, got) && got == v, "not-repeatable", "crash state %zu: the repeated store does not read back", k);
            expectAll(s2, others, "after repeating the store");
            PersistentStorage s3(r2.view(), false);
            expectAll(s3, others, "after repeating the store and reopening");
            Bytes got3;
            VF_CHECK(t->get(s3, nm, got3) && got3 == v, "not-repeatable", "crash state %zu: the repeated store is lost on reopening", k);
        }
        if (rng().chance(1, 3))
        {
            // instead of repeating it, something else is stored next; the remains of the interrupted store must not matter
            Region r4(m.cap, 0);
            memcpy(r4.block.data(), rec.state(k - 1), m.cap);
            auto s4 = std::make_unique<PersistentStorage>(r4.view(), false);
            Model m4 = others;
            if (update) m4.used = m.used;
            Bytes cur;
            const bool there = t->get(*s4, nm, cur);  // the interrupted object: absent, old, new or mixed, but loaded the same from now on
            if (there) { m4.objects[{ nm, t->size }] = cur; if (!update) m4.used += t->size + overhead; }
            const int n = int(rng().range(1, 4));
            for (int i = 0; i < n; ++i)
            {
                step(*s4, r4, m4, c, false);
                if (rng().chance(1, 2)) s4 = std::make_unique<PersistentStorage>(r4.view(), false);
                expectAll(*s4, m4, "after a crash and other stores");
            }
            vf::cov("continued differently after a crash");
        }
    }
    if (ok)
    {
        // completed normally
        apply(m, nm, v);
        PersistentStorage s2(r.view(), false);
        expectAll(s2, m, "after completion");
    }
}
} // namespace

int main(int argc, char** argv)
{
    return vf::run(argc, argv, [] {
        auto& p = vf::st().prop;
        if (p == "S01") caseS01();
        else if (p == "S02") caseS02();
        else if (p == "S03") caseS03();
        else if (p == "S04") caseS04();
        else if (p == "S05") caseS05();
        else { fprintf(stderr, "no such property here\n"); _exit(98); }
    });
}
