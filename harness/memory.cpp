// N01: allocation monitor around every library call (no sanitizer: it owns malloc here).
#include <cstddef>
#include <cstdint>
#include <cerrno>
namespace mon
{
extern thread_local int armed;
extern thread_local const char* op;
extern thread_local uint64_t allocs, calls;
struct Scope
{
    explicit Scope(const char* n) { op = n; ++calls; ++armed; }
    ~Scope() { --armed; }
};
}
#define LIB(name, ...) do { mon::Scope monScope_(name); __VA_ARGS__; } while (0)
#include "devices.h"
using namespace vf;

namespace mon
{
thread_local int armed = 0;
thread_local const char* op = "";
thread_local uint64_t allocs = 0, calls = 0;
thread_local const char* firstOp = nullptr;
thread_local const char* firstKind = nullptr;
thread_local size_t firstSize = 0;
inline void hit(const char* kind, size_t n)
{
    if (armed && sim::InMock::depth == 0)
    {
        if (allocs++ == 0) { firstOp = op; firstKind = kind; firstSize = n; }
    }
}
}
extern "C"
{
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { mon::hit("malloc", n); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { mon::hit("calloc", a * b); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { mon::hit("realloc", n); return __libc_realloc(p, n); }
void free(void* p) { if (p) mon::hit("free", 0); __libc_free(p); }
void* memalign(size_t a, size_t n) { mon::hit("memalign", n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { mon::hit("aligned_alloc", n); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { mon::hit("posix_memalign", n); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
void* operator new(size_t n) { return malloc(n); }
void* operator new[](size_t n) { return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

int main(int argc, char** argv)
{
    // the monitor sees an allocation when there is one
    { mon::Scope s("self test"); free(malloc(10)); }
    if (mon::allocs != 2) { fprintf(stderr, "allocation monitor does not work\n"); return 98; }
    mon::allocs = 0;
    return run(argc, argv, [] {
        auto& r = rng();
        uint64_t seed = r.next();
        (void)sim::w();
#ifdef VF_ESP
        simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::sleep = {}; simesp::pinSetup.clear();
        for (auto& u: simesp::uartSetup) u = {};
#else
        (void)SPI.open; (void)Wire.misuse;
#endif
        mon::allocs = 0;
        std::unique_ptr<work::Actor> a;
        switch (r.range(0, 5))
        {
        case 0: case 1: case 2: a = work::makeCoreActor(seed); break;
        case 3: a = std::make_unique<work::SerialActor>(seed); break;
#ifdef VF_ESP
        case 4: a = std::make_unique<work::BusActor>(seed, int(r.range(0, 1))); break;
#endif
        default: a = std::make_unique<work::BoardActor>(seed);
        }
        uint64_t c0 = mon::calls;
        int steps = historyLength(1, 30, 200);
        for (int i = 0; i < steps; ++i)
        {
            a->step();
            if (mon::allocs)
            {
                uint64_t n = mon::allocs; mon::allocs = 0;
                fail("heap-used", fmt("%s: %llu heap calls, the first one %s of %zu bytes", mon::firstOp, (unsigned long long)n, mon::firstKind, mon::firstSize));
            }
        }
        uint64_t n = mon::calls - c0;
        cov("library calls", n);
        std::string key = std::string("calls in ") + a->name();
        cov(key.c_str(), n);
        if (n) nontrivial();
        sigAdd(a->d.h);
        trace("%s actor, %d steps, %llu library calls without heap use", a->name(), steps, (unsigned long long)n);
    });
}
