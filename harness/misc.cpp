// M01, E01, G01: views, byte order, geometry.
#include "vf.h"
#include <sys/mman.h>
#include "MemoryView.h"
#include "EndianConversion.h"
#include "graphics/BaseGeometry.h"

using vf::rng;
using embedded::MemoryView;

namespace
{
struct Wide { uint64_t a, b, c; bool operator==(const Wide& o) const { return a == o.a && b == o.b && c == o.c; } };
#pragma pack(push, 1)
struct Odd { uint8_t a; uint16_t b; bool operator==(const Odd& o) const { return a == o.a && b == o.b; } };
#pragma pack(pop)

uint64_t tag(uint8_t v) { return v; }
uint64_t tag(char v) { return uint8_t(v); }
uint64_t tag(int v) { return uint64_t(unsigned(v)); }
uint64_t tag(uint64_t v) { return v; }
uint64_t tag(float v) { return uint64_t(v); }
uint64_t tag(const Wide& v) { return v.a; }
uint64_t tag(const Odd& v) { return v.a | uint64_t(v.b) << 8; }
template<class T> T make(size_t i)
{
    if constexpr (std::is_same_v<T, Wide>) return Wide { i * 7919 + 1, ~i, i };
    else if constexpr (std::is_same_v<T, Odd>) return Odd { uint8_t(i * 37 + 1), uint16_t(i * 101) };
    else if constexpr (std::is_same_v<T, float>) return float(i * 3 + 1);
    else return T(i * 37 + 11);
}

size_t randomCount(size_t n)
{
    switch (rng().next() % 8)
    {
    case 0: return 0;
    case 1: return n;
    case 2: return n ? n - 1 : 0;
    case 3: return n + 1;
    case 4: return rng().pick<size_t>({ SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX - n, SIZE_MAX - n + 1, size_t(1) << 32, (size_t(1) << 32) - 1, 65536, 65535, 256, 255 });
    default: return size_t(rng().range(0, int64_t(n) + 3));
    }
}

// expected: elements [at, at+len) of the base array
template<class V, class T>
void checkView(const V& v, T* base, size_t at, size_t len, const char* what)
{
    VF_CHECK(v.size() == len, "size", "%s: size %zu expected %zu", what, size_t(v.size()), len);
    VF_CHECK(v.empty() == (len == 0), "empty", "%s: empty()=%d size %zu", what, v.empty(), len);
    VF_CHECK(v.size_bytes() == len * sizeof(T), "size-bytes", "%s: size_bytes() %zu", what, size_t(v.size_bytes()));
    VF_CHECK(v.data() == v.begin(), "data", "%s: data() differs from begin()", what);
    VF_CHECK(size_t(v.end() - v.begin()) == len && size_t(v.cend() - v.cbegin()) == len && size_t(v.rend() - v.rbegin()) == len && size_t(v.crend() - v.crbegin()) == len, "iterators", "%s: iterator distance differs from size", what);
    if (len)
    {
        VF_CHECK(v.begin() == base + at, "address", "%s: view starts %td elements from the base, expected %zu", what, v.begin() - base, at);
        VF_CHECK(&v.front() == base + at && &v.back() == base + at + len - 1, "front-back", "%s: front()/back()", what);
    }
    size_t i = 0;
    for (auto& e: v) { VF_CHECK(&e == base + at + i && &v[i] == base + at + i, "element", "%s: element %zu is another one", what, i); ++i; }
    VF_CHECK(i == len, "iteration", "%s: iterated %zu of %zu", what, i, len);
    i = 0;
    for (auto it = v.cbegin(); it != v.cend(); ++it, ++i) VF_CHECK(&*it == base + at + i, "element", "%s: const iteration", what);
    i = len;
    for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; VF_CHECK(&*it == base + at + i, "element", "%s: reverse iteration", what); }
    i = len;
    for (auto it = v.crbegin(); it != v.crend(); ++it) { --i; VF_CHECK(&*it == base + at + i, "element", "%s: const reverse iteration", what); }
    auto b = v.as_bytes();
    VF_CHECK(b.size() == len * sizeof(T) && (len == 0 || (const void*)b.begin() == (const void*)(base + at)), "bytes-view", "%s: as_bytes() covers %zu bytes", what, size_t(b.size()));
    uint64_t sum = 0;
    for (auto x: b) sum += x;
    uint64_t sum2 = 0;
    for (size_t k = 0; k < len * sizeof(T); ++k) sum2 += reinterpret_cast<const uint8_t*>(base + at)[k];
    VF_CHECK(sum == sum2, "bytes-view", "%s: bytes differ", what);
}

template<class T>
void viewsOf()
{
    size_t n = size_t(rng().range(0, rng().chance(1, 500) ? 70000 : rng().chance(1, 20) ? 300 : 14));
    vf::Block block(n * sizeof(T) ? n * sizeof(T) : 0);
    T* base = reinterpret_cast<T*>(block.data());
    for (size_t i = 0; i < n; ++i) new (base + i) T(make<T>(i));
    MemoryView<T> v(base, n);
    MemoryView<T> v2(base, base + n);
    checkView(v, base, 0, n, "view");
    checkView(v2, base, 0, n, "view from two pointers");
    MemoryView<const T> cv = v;
    checkView(cv, base, 0, n, "constant view");
    size_t at = 0, len = n;
    MemoryView<T> cur = v;
    MemoryView<const T> ccur = cv;
    vf::trace("%zu x %zu:", n, sizeof(T));
    vf::sigAdd(n * 100 + sizeof(T));
    int steps = int(rng().range(1, 5));
    for (int s = 0; s < steps; ++s)
    {
        size_t a = randomCount(len), c = randomCount(len);
        vf::sigAdd(a); vf::sigAdd(c);
        MemoryView<T> before = cur;
        const char* what;
        size_t nat = at, nlen;
        switch (rng().next() % 4)
        {
        case 0:
            cur = cur.subspan(a); ccur = ccur.subspan(a);
            nlen = a >= len ? 0 : len - a; nat = a >= len ? at : at + a;
            what = "subspan(offset)"; vf::trace(" subspan(%zu)", a); vf::cov("subspan(offset)");
            break;
        case 1:
            cur = cur.subspan(a, c); ccur = ccur.subspan(a, c);
            nlen = a >= len ? 0 : std::min(len - a, c); nat = a >= len ? at : at + a;
            what = "subspan(offset,count)"; vf::trace(" subspan(%zu,%zu)", a, c); vf::cov("subspan(offset,count)");
            if (a < len && c < len - a) vf::nontrivial();
            if (a < len && c > len - a) { vf::cov("clipped"); vf::nontrivial(); }
            break;
        case 2:
            cur = cur.first(c); ccur = ccur.first(c);
            nlen = std::min(len, c); what = "first"; vf::trace(" first(%zu)", c); vf::cov("first");
            if (c > len) { vf::cov("clipped"); vf::nontrivial(); }
            break;
        default:
            cur = cur.last(c); ccur = ccur.last(c);
            nlen = std::min(len, c); nat = at + len - nlen; what = "last"; vf::trace(" last(%zu)", c); vf::cov("last");
            if (c > len) { vf::cov("clipped"); vf::nontrivial(); }
        }
        checkView(cur, base, nat, nlen, what);
        checkView(ccur, base, nat, nlen, what);
        checkView(before, base, at, len, "the view it was taken from");
        at = nat; len = nlen;
        if (len == 0 && rng().chance(1, 2)) break;
    }
    // writes through any view reach the shared memory
    if (len)
    {
        size_t k = rng().next() % len;
        cur[k] = make<T>(999);
        VF_CHECK(base[at + k] == make<T>(999), "shared", "write through a sub-view not visible");
        auto wb = cur.as_writable_bytes();
        VF_CHECK((void*)wb.begin() == (void*)(base + at) && wb.size() == len * sizeof(T), "bytes-view", "as_writable_bytes()");
    }
    for (size_t i = 0; i < n; ++i)
        if (!len || i < at || i >= at + len) VF_CHECK(base[i] == make<T>(i), "element", "an element changed");
    vf::cov("views checked", uint64_t(steps));
}

// views of very large ranges: no element is touched, only positions are compared
void hugeViews()
{
    static uint8_t* const space = [] {
        void* p = mmap(nullptr, size_t(3) << 33, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : static_cast<uint8_t*>(p);
    }();
    if (!space) { vf::cov("no address space for huge views"); return; }
    using E = uint32_t;
    E* const base = reinterpret_cast<E*>(space);
    auto big = [](size_t most) { return std::min<size_t>(most, rng().chance(1, 3) ? size_t(rng().range(0, 70000)) : rng().chance(1, 2) ? rng().pick<size_t>({ 32767, 32768, 65535, 65536, size_t(1) << 31, (size_t(1) << 31) - 1, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(5) << 30 }) : size_t(rng().next()) % (most + 1)); };
    size_t n = big(size_t(6) << 30), at = 0, len = n;
    MemoryView<E> v(base, n), w(base, base + n);
    VF_CHECK(w.size() == n && w.begin() == base, "size", "view from two pointers %zu elements apart has %zu", n, size_t(w.size()));
    for (int s = 0; s < 4; ++s)
    {
        const size_t a = big(len + 3), c = rng().chance(1, 4) ? randomCount(len) : big(len + 3);
        switch (rng().next() % 4)
        {
        case 0: v = v.subspan(a); if (a < len) { at += a; len -= a; } else len = 0; break;
        case 1: v = v.subspan(a, c); if (a < len) { at += a; len = std::min(len - a, c); } else len = 0; break;
        case 2: v = v.first(c); len = std::min(len, c); break;
        default: v = v.last(c); at += len - std::min(len, c); len = std::min(len, c);
        }
        VF_CHECK(v.size() == len && v.empty() == !len && v.size_bytes() == len * sizeof(E) && size_t(v.end() - v.begin()) == len && v.as_bytes().size() == len * sizeof(E), "size", "a part of a view of %zu elements has %zu, expected %zu", n, size_t(v.size()), len);
        if (!len) break;
        VF_CHECK(v.begin() == base + at && &v.back() == base + at + len - 1 && &v[len / 2] == base + at + len / 2, "address", "a part of a view of %zu elements begins at %td, expected %zu", n, v.begin() - base, at);
    }
    vf::cov("huge views");
    vf::sigAdd(n); vf::sigAdd(len);
}

void caseM01()
{
    if (rng().chance(1, 10)) hugeViews();
    switch (rng().next() % 8)
    {
    case 0: viewsOf<uint8_t>(); break;
    case 1: viewsOf<int>(); break;
    case 2: viewsOf<uint64_t>(); break;
    case 3: viewsOf<Wide>(); break;
    case 4: viewsOf<Odd>(); break;
    case 5: viewsOf<float>(); break;
    case 6:
    {
        viewsOf<char>();
        // text conversion
        size_t n = size_t(rng().range(0, 20));
        vf::Block b(n);
        rng().fill(b.data(), n);
        MemoryView<char> v(reinterpret_cast<char*>(b.data()), n);
        std::string_view sv = v;
        MemoryView<const char> cv = v;
        std::string_view sv2 = cv;
        VF_CHECK(sv.size() == n && sv2.size() == n && (!n || (sv.data() == v.begin() && sv2.data() == v.begin())), "text", "text view of %zu characters has %zu", n, sv.size());
        size_t a = randomCount(n), c = randomCount(n);
        std::string_view sub = v.subspan(a, c);
        VF_CHECK(sub == (a >= n ? std::string_view() : sv.substr(a, c)), "text", "text of subspan(%zu,%zu)", a, c);
        vf::cov("text views");
        break;
    }
    default:
    {
        // arrays
        int ar[7] = { 1, 2, 3, 4, 5, 6, 7 };
        std::array<int, 5> sa { 9, 8, 7, 6, 5 };
        MemoryView<int> v(ar), w(sa);
        checkView(v, ar, 0, 7, "array");
        checkView(w, sa.data(), 0, 5, "std::array");
        MemoryView<const int> cw(sa);
        checkView(cw, sa.data(), 0, 5, "const view of std::array");
        const int car[3] = { 1, 2, 3 };
        MemoryView<const int> cc(car);
        checkView(cc, car, 0, 3, "const array");
        MemoryView<int> none;
        checkView(none, static_cast<int*>(nullptr), 0, 0, "default view");
        checkView(none.subspan(randomCount(0), randomCount(0)), static_cast<int*>(nullptr), 0, 0, "subspan of the default view");
        checkView(none.first(randomCount(0)), static_cast<int*>(nullptr), 0, 0, "first of the default view");
        checkView(none.last(randomCount(0)), static_cast<int*>(nullptr), 0, 0, "last of the default view");
        vf::cov("arrays");
    }
    }
}

// --- E01
uint16_t ref16(uint16_t v) { uint8_t b[2], r[2]; memcpy(b, &v, 2); r[0] = b[1]; r[1] = b[0]; memcpy(&v, r, 2); return v; }
uint32_t ref32(uint32_t v) { uint8_t b[4], r[4]; memcpy(b, &v, 4); for (int i = 0; i < 4; ++i) r[i] = b[3 - i]; memcpy(&v, r, 4); return v; }
uint32_t refPair(uint32_t v) { uint8_t b[4], r[4]; memcpy(b, &v, 4); r[0] = b[1]; r[1] = b[0]; r[2] = b[3]; r[3] = b[2]; memcpy(&v, r, 4); return v; }

inline void check32(uint32_t v)
{
    const uint32_t e = ref32(v);
    const uint32_t g = embedded::changeEndianess(v);
    VF_CHECK(g == e, "swap32", "0x%08x -> 0x%08x expected 0x%08x", v, g, e);
    VF_CHECK(embedded::changeEndianess(g) == v, "swap32-twice", "0x%08x", v);
    uint32_t p = v;
    embedded::changeEndianess16x2(&p);
    VF_CHECK(p == refPair(v), "swap16x2", "0x%08x -> 0x%08x expected 0x%08x", v, p, refPair(v));
    embedded::changeEndianess16x2(&p);
    VF_CHECK(p == v, "swap16x2-twice", "0x%08x", v);
    const float f = embedded::changeEndianessToFloat(v);
    uint32_t fb; memcpy(&fb, &f, 4);
    VF_CHECK(fb == e, "swap-float", "0x%08x -> float bits 0x%08x expected 0x%08x", v, fb, e);
}
void caseE01()
{
    // one case = one block of 65536 values sharing the upper half (thorough: all of them, i.e. all 2^32 values)
    const bool thorough = vf::st().tier == "thorough";
    const uint64_t i = vf::st().idx;
    uint32_t hi = thorough ? uint32_t(i) : uint32_t(vf::mix(vf::st().seed * 7919 + i) & 0xffff);
    if (!thorough && i < 64) hi = uint32_t(i < 32 ? (i < 16 ? 1u << i : ~(1u << (i - 16))) : (i - 32) * 0x0842u) & 0xffff;
    for (uint32_t lo = 0; lo < 65536; ++lo) check32(hi << 16 | lo);
    if (i % 8 == 0) for (uint32_t v = 0; v < 65536; ++v)
    {
        uint16_t w = uint16_t(v);
        uint16_t g = embedded::changeEndianess(w);
        VF_CHECK(g == ref16(w), "swap16", "0x%04x -> 0x%04x", v, g);
        VF_CHECK(embedded::changeEndianess(g) == w, "swap16-twice", "0x%04x", v);
    }
    if (i % 8 == 0) vf::cov("16-bit values", 65536);
    vf::cov("32-bit values", 65536);
    vf::sigAdd(hi);
    vf::trace("values 0x%04x0000..0x%04xffff", hi, hi);
    vf::nontrivial();
}

// --- G01
template<class T> T val(int64_t lim)
{
    if constexpr (std::is_floating_point_v<T>) return T(rng().range(-lim, lim)) / 4;
    else
    {
        switch (rng().next() % 6)
        {
        case 0: return T(rng().range(-3, 3));
        case 1: return T(rng().pick<int64_t>({ lim, -lim, lim - 1, 1 - lim }));
        case 2: return T(std::min<int64_t>(lim, (int64_t(1) << rng().range(0, 62)) + rng().range(-1, 1)) * (rng().chance(1, 2) ? 1 : -1));
        case 3: return T(std::min<int64_t>(lim, rng().range(0, rng().chance(1, 2) ? 70 : 1100)) * (rng().chance(1, 2) ? 1 : -1));
        default: return T(rng().range(-lim, lim));
        }
    }
}
template<class T> bool eq(const embedded::Size<T>& s, __int128 w, __int128 h) { return __int128(s.width) == w && __int128(s.height) == h; }
#define SZ(s) (long long)(s).width, (long long)(s).height

template<class T> void geometry(int64_t lim)
{
    using S = embedded::Size<T>;
    using P = embedded::Point<T>;
    using R = embedded::Rect<T>;
    using I = __int128;
    const S a { val<T>(lim), val<T>(lim) }, b { val<T>(lim), val<T>(lim) };
    S a0 = a, b0 = b;
    auto same = [&] { return a.width == a0.width && a.height == a0.height && b.width == b0.width && b.height == b0.height; };
    vf::sigAdd(uint64_t(a.width)); vf::sigAdd(uint64_t(b.height)); vf::sigAdd(uint64_t(a.height)); vf::sigAdd(uint64_t(b.width));
    vf::trace("(%lld,%lld) (%lld,%lld)", SZ(a), SZ(b));
    VF_CHECK(eq(a + b, I(a.width) + b.width, I(a.height) + b.height), "size-add", "(%lld,%lld)+(%lld,%lld)", SZ(a), SZ(b));
    VF_CHECK(eq(a - b, I(a.width) - b.width, I(a.height) - b.height), "size-sub", "(%lld,%lld)-(%lld,%lld)", SZ(a), SZ(b));
    T k = rng().chance(1, 2) ? T(rng().range(-9, 9)) : T(rng().range(-300, 300));
    const S small { T(a.width / 512), T(a.height / 512) };
    VF_CHECK(eq(small * k, I(small.width) * k, I(small.height) * k), "size-mul", "(%lld,%lld)*%lld", SZ(small), (long long)k);
    T d = val<T>(lim);
    if (d == 0) d = 3;
    VF_CHECK(eq(a / d, I(a.width) / d, I(a.height) / d), "size-div", "(%lld,%lld)/%lld", SZ(a), (long long)d);
    VF_CHECK(same(), "operand-changed", "an operand changed");
    const P p { val<T>(lim), val<T>(lim) };
    auto q = p + a;
    VF_CHECK(I(q.x) == I(p.x) + a.width && I(q.y) == I(p.y) + a.height, "point-add", "point moved wrongly");
    P r = p;
    P& ref = (r += a);
    VF_CHECK(&ref == &r && r == q && !(r != q), "point-add-assign", "+= differs from +");
    // equality looks at both coordinates
    P o = p;
    if (rng().chance(1, 2)) o.x = T(p.x + (p.x > 0 ? -1 : 1));
    if (rng().chance(1, 2)) o.y = T(p.y + (p.y > 0 ? -1 : 1));
    const bool e = o.x == p.x && o.y == p.y;
    VF_CHECK((o == p) == e && (p == o) == e && (o != p) == !e && (p != o) == !e, "point-equal", "comparison of (%lld,%lld) and (%lld,%lld)", (long long)o.x, (long long)o.y, (long long)p.x, (long long)p.y);
    auto extent = [] { return T(rng().chance(1, 4) ? rng().pick<int64_t>({ 0, 1, 127, 128, 255, 256, 257, 511, 512, 599 }) : rng().range(0, 599)); };
    const S sz { extent(), extent() };
    const R rect { p, sz };
    auto m = rect + a;
    VF_CHECK(m.topLeft == q && eq(m.size, sz.width, sz.height), "rect-add", "rectangle moved wrongly");
    R rr = rect;
    R& rref = (rr += a);
    VF_CHECK(&rref == &rr && rr.topLeft == q && eq(rr.size, sz.width, sz.height), "rect-add-assign", "rectangle += differs");
    VF_CHECK(rect.topLeft == p && eq(rect.size, sz.width, sz.height), "operand-changed", "operand rectangle changed");
    auto bl = rect.bottomLeft(), tr = rect.topRight(), br = rect.bottomRight();
    VF_CHECK(I(bl.x) == p.x && I(bl.y) == I(p.y) + sz.height - 1, "corner", "bottomLeft");
    VF_CHECK(I(tr.x) == I(p.x) + sz.width - 1 && I(tr.y) == p.y, "corner", "topRight");
    VF_CHECK(I(br.x) == I(p.x) + sz.width - 1 && I(br.y) == I(p.y) + sz.height - 1, "corner", "bottomRight");
    T c[4];
    const bool unit = rng().chance(1, 2);          // as the rotations do: whole coordinates
    for (auto& x: c) x = unit ? T(rng().range(-1, 1)) : T(rng().chance(1, 2) ? rng().range(-7, 7) : rng().range(-130, 130));
    const P sp { T(p.x / (unit ? 1 : 512)), T(p.y / (unit ? 1 : 512)) };
    embedded::Matrix2x2<T> mx(c[0], c[1], c[2], c[3]);
    auto mv = mx * sp;
    VF_CHECK(I(mv.x) == I(c[0]) * sp.x + I(c[1]) * sp.y && I(mv.y) == I(c[2]) * sp.x + I(c[3]) * sp.y, "matrix", "matrix product");
    auto mv2 = mx * sp;
    VF_CHECK(mv2 == mv, "matrix", "second product differs");
    vf::cov("operand sets");
    if (a.width && b.width && a.width != a.height) vf::nontrivial();
}

void caseG01()
{
    switch (rng().next() % 4)
    {
    case 0: case 1: geometry<int>(INT_MAX / 2 - 600); break;
    case 2: geometry<long>(LONG_MAX / 2 - 600); break;
    default:
    {
        // conversions between coordinate types, narrow types
        const embedded::Rect<int> ri { { int(rng().range(-100, 100)), int(rng().range(-100, 100)) }, { int(rng().range(-100, 100)), int(rng().range(-100, 100)) } };
        const embedded::Rect<short> rs = ri;
        const embedded::Rect<long> rl = rs;
        const embedded::Rect<int8_t> r8 = rl;
        const embedded::Rect<float> rf = r8;
        const embedded::Rect<int> back = rf;
        auto ok = [&](auto& r) { return r.topLeft.x == ri.topLeft.x && r.topLeft.y == ri.topLeft.y && r.size.width == ri.size.width && r.size.height == ri.size.height; };
        VF_CHECK(ok(rs) && ok(rl) && ok(r8) && ok(rf) && ok(back), "rect-convert", "conversion changed a coordinate");
        const embedded::Point<short> ps { short(rng().range(-15000, 15000)), short(rng().range(-15000, 15000)) };
        const embedded::Size<short> ss { short(rng().range(-15000, 15000)), short(rng().range(-15000, 15000)) };
        auto moved = ps + ss;
        VF_CHECK(moved.x == ps.x + ss.width && moved.y == ps.y + ss.height, "point-add", "short point");
        const embedded::Size<int8_t> s8 { int8_t(rng().range(-60, 60)), int8_t(rng().range(-60, 60)) }, t8 { int8_t(rng().range(-60, 60)), int8_t(rng().range(-60, 60)) };
        auto d8 = s8 - t8;
        VF_CHECK(d8.width == s8.width - t8.width && d8.height == s8.height - t8.height, "size-sub", "8-bit size");
        const embedded::Rect<short> sr { ps, { short(rng().range(0, 5000)), short(rng().range(0, 5000)) } };
        VF_CHECK(sr.bottomLeft().y == sr.topLeft.y + sr.size.height - 1 && sr.bottomRight().x == sr.topLeft.x + sr.size.width - 1 && sr.bottomRight().y == sr.topLeft.y + sr.size.height - 1, "corner", "short corners");
        const embedded::Matrix2x2<int> cm(0, -1, 1, 0);
        (void)cm;
        vf::sigAdd(uint64_t(ps.x)); vf::sigAdd(uint64_t(ss.height)); vf::sigAdd(uint64_t(ri.topLeft.x));
        vf::trace("conversions (%d,%d %dx%d)", ri.topLeft.x, ri.topLeft.y, ri.size.width, ri.size.height);
        vf::nontrivial();
        vf::cov("conversions");
    }
    }
}
} // namespace

int main(int argc, char** argv)
{
    return vf::run(argc, argv, [] {
        auto& p = vf::st().prop;
        if (p == "M01") caseM01();
        else if (p == "E01") caseE01();
        else if (p == "G01") caseG01();
        else { fprintf(stderr, "no such property here\n"); _exit(98); }
    });
}
