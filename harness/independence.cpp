// N02: interleaved and parallel use of independent objects (TSan build); shared read-only objects.
#include "devices.h"
#include <thread>
#include <sys/wait.h>
#include <atomic>
using namespace vf;

namespace
{
struct Spec { int kind; uint64_t seed; int steps; };
void freshDrivers()
{
#ifdef VF_ESP
    simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::sleep = {}; simesp::pinSetup.clear();
    for (auto& u: simesp::uartSetup) u = {};
#endif
}
std::unique_ptr<work::Actor> make(const Spec& s)
{
    switch (s.kind)
    {
    case 0: return std::make_unique<work::SerialActor>(s.seed);
    case 1: return std::make_unique<work::BoardActor>(s.seed);
#ifdef VF_ESP
    case 2: return std::make_unique<work::BusActor>(s.seed, int(s.seed & 1));
#endif
    default: return work::makeCoreActor(s.seed);
    }
}
uint64_t alone(const Spec& s)
{
    auto a = make(s);
    for (int i = 0; i < s.steps; ++i) a->step();
    return a->d.h;
}

// --- what each object gives when used alone, in a process in which no other object of the library has ever existed
struct Fresh
{
    int ask = -1, answer = -1;
    void start()
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) _exit(98);
        fflush(nullptr);
        pid_t p = fork();
        if (p < 0) _exit(98);
        if (p == 0)
        {
            close(a[1]); close(b[0]);
            Spec s;
            while (read(a[0], &s, sizeof s) == ssize_t(sizeof s))
            {
                pid_t c = fork();
                if (c < 0) _exit(98);
                if (c == 0)
                {
                    uint64_t d = 0;
                    try { freshDrivers(); d = alone(s); } catch (...) { _exit(1); }
                    _exit(write(b[1], &d, sizeof d) == ssize_t(sizeof d) ? 0 : 1);
                }
                int rc = 0; waitpid(c, &rc, 0);
                if (rc != 0) { uint64_t none = 0; if (write(b[1], &none, sizeof none) != ssize_t(sizeof none)) _exit(98); }
            }
            _exit(0);
        }
        close(a[0]); close(b[1]);
        ask = a[1]; answer = b[0];
    }
    uint64_t operator()(const Spec& s) const
    {
        Spec c; memset(static_cast<void*>(&c), 0, sizeof c); c.kind = s.kind; c.seed = s.seed; c.steps = s.steps;
        uint64_t d = 0;
        if (write(ask, &c, sizeof c) != ssize_t(sizeof c) || read(answer, &d, sizeof d) != ssize_t(sizeof d)) _exit(98);
        return d;
    }
};
Fresh fresh;

// --- shared objects, read from all threads at once
struct Shared
{
    std::vector<uint8_t> region = std::vector<uint8_t>(300);
    embedded::PersistentStorage storage { embedded::BytesView(region.data(), region.size()) };
    SimpleFrameBuffer<48, 32, 4> fb;
    std::vector<uint32_t> values;
    explicit Shared(uint64_t seed)
    {
        Rng r; r.s = seed;
        for (int i = 0; i < 9; ++i) { char n[3] = { char('a' + i), 'x', 0 }; storage.set(std::string_view(n), uint64_t(r.next())); }
        Canvas c(fb); c.clear(3); c.setColor(9); c.drawCircle({ 20, 15 }, 12, true); c.drawStringAt({ 0, 24 }, "Ag", embedded::fonts::FreeSans15pt);
        for (int i = 0; i < 200; ++i) values.push_back(uint32_t(r.next()));
    }
};
uint64_t readShared(const Shared& s, uint64_t seed)
{
    Rng r; r.s = seed;
    work::Digest d;
    for (int i = 0; i < 60; ++i)
    {
        switch (r.range(0, 3))
        {
        case 0: { char n[3] = { char('a' + r.range(0, 10)), 'x', 0 }; auto v = s.storage.get<uint64_t>(n); d.add(v ? *v : 1); break; }
        case 1:
        {
            auto b = embedded::fonts::FreeSans15pt.getBitmap(char(r.range(0, 255)));
            d.add(b.bitmap.begin(), b.bitmap.size()); d.add(b.width);
            auto t = embedded::fonts::FreeSans15pt.getTextBounds("Text bounds"); d.add(uint64_t(t.size.width)); break;
        }
        case 2: { auto img = s.fb.getImage(); d.add(img.begin(), img.size()); break; }
        default:
        {
            size_t a = size_t(r.range(0, 200)), n = size_t(r.range(0, 200));
            embedded::MemoryView<const uint32_t> v(s.values.data(), s.values.size());
            auto p = v.subspan(a, n); d.add(p.begin(), p.size_bytes());
            for (auto x: p.first(3)) d.add(embedded::changeEndianess(x));
        }
        }
    }
    return d.h;
}
}

int main(int argc, char** argv)
{
    fresh.start();
    return run(argc, argv, [] {
        auto& r = rng();
        freshDrivers();
        int n = int(r.range(2, 6));
        std::vector<Spec> specs;
        int busAt = -1;
        for (int i = 0; i < n; ++i)
        {
            Spec s { int(r.range(0, 7)), r.next(), int(r.range(3, 25)) };
            if (s.kind == 2) { if (busAt >= 0) s.kind = 3; else busAt = i; }
            specs.push_back(s);
        }
        bool sameKind = r.chance(1, 3);     // twins: same class, different objects
        if (sameKind) for (auto& s: specs) { s.kind = specs[0].kind == 2 ? 3 : specs[0].kind; s.seed = specs[0].seed + (r.chance(1, 2) ? 0 : r.next()); }
        std::vector<uint64_t> expect;
        std::string what;
        for (auto& s: specs) { freshDrivers(); auto a = make(s); what += a->name(); what += ' '; a.reset(); expect.push_back(fresh(s)); cov("fresh processes"); }
        freshDrivers();
        if (st().idx % 2 == 0)
        {   // one thread, random interleaving of operations
            std::vector<std::unique_ptr<work::Actor>> a; std::vector<int> left; uint64_t sched = 0;
            for (auto& s: specs) { a.push_back(make(s)); left.push_back(s.steps); }
            for (;;)
            {
                std::vector<int> live; for (int i = 0; i < n; ++i) if (left[size_t(i)] > 0) live.push_back(i);
                if (live.empty()) break;
                int i = r.pick(live); sched = mix(sched ^ uint64_t(i)); a[size_t(i)]->step(); --left[size_t(i)]; cov("interleaved operations");
            }
            for (int i = 0; i < n; ++i)
                VF_CHECK(a[size_t(i)]->d.h == expect[size_t(i)], "interference", "object %d (%s) among %s gave another result than when used alone", i, a[size_t(i)]->name(), what.c_str());
            sigAdd(sched); cov("interleavings"); nontrivial();
            trace("interleaved: %s", what.c_str());
        }
        else
        {   // one thread per object, all reading the shared objects in between
            Shared shared(r.next());
            std::vector<uint64_t> got(size_t(n), 0), seen(size_t(n), 0), seenAlone;
            std::vector<uint64_t> seeds; for (int i = 0; i < n; ++i) seeds.push_back(r.next());
            for (int i = 0; i < n; ++i) seenAlone.push_back(readShared(shared, seeds[size_t(i)]));
            std::atomic<int> ready { 0 };
            std::atomic<bool> failed { false };
            std::vector<std::thread> th;
            for (int i = 0; i < n; ++i)
                th.emplace_back([&, i] {
                    try
                    {
                        freshDrivers();
                        ready.fetch_add(1);
                        while (ready.load() < n) std::this_thread::yield();
                        got[size_t(i)] = alone(specs[size_t(i)]);
                        seen[size_t(i)] = readShared(shared, seeds[size_t(i)]);
                        freshDrivers();
                    }
                    catch (...) { failed = true; }
                });
            for (auto& t: th) t.join();
            VF_CHECK(!failed, "interference", "an operation failed in a thread among %s", what.c_str());
            for (int i = 0; i < n; ++i)
            {
                VF_CHECK(got[size_t(i)] == expect[size_t(i)], "interference", "thread %d of %s gave another result than the object used alone", i, what.c_str());
                VF_CHECK(seen[size_t(i)] == seenAlone[size_t(i)], "shared-read", "thread %d read something else from the shared objects than a single thread", i);
                sigAdd(got[size_t(i)]);
            }
            cov("parallel runs"); cov("threads", uint64_t(n)); nontrivial();
            trace("%d threads: %s", n, what.c_str());
        }
        for (auto& s: specs) sigAdd(s.seed);
    });
}
