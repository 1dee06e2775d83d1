// N07: the stack a call needs is small, whatever the arguments.  Every library call runs on a stack of its own, painted
// before; how far down it was overwritten is what the call (driver stand-ins included) needed.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <type_traits>
namespace mon
{
constexpr size_t SIZE = 512 * 1024;
constexpr uint64_t PAINT = 0xA5C3A5C3A5C3A5C3ull;
inline uint64_t* low = nullptr;                 // lowest word of the stack
inline ucontext_t outer, inner;
inline void (*body)(void*) = nullptr;
inline void* argument = nullptr;
inline uint64_t calls = 0;
inline size_t grant = 0;                        // size of the caller's object that is stored or loaded
inline size_t deepest = 0, dirty = SIZE;        // dirty: how much of the top is to be painted again
inline const char* deepestOp = "";
struct Max { const char* op; size_t depth; };
inline Max perOp[128];
inline void trampoline() { for (;;) { body(argument); swapcontext(&inner, &outer); } }
inline void prepare()
{
    auto* m = static_cast<uint8_t*>(mmap(nullptr, SIZE + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED || mprotect(m, 8192, PROT_NONE)) abort();
    low = reinterpret_cast<uint64_t*>(m + 8192);
}
inline size_t measure(void (*f)(void*), void* a)
{
    if (!low) prepare();
    const size_t words = SIZE / 8;
    for (size_t i = words - dirty / 8; i < words; ++i) low[i] = PAINT;
    getcontext(&inner);
    inner.uc_stack.ss_sp = low; inner.uc_stack.ss_size = SIZE; inner.uc_link = nullptr;
    makecontext(&inner, trampoline, 0);
    body = f; argument = a;
    swapcontext(&outer, &inner);
    size_t i = 0;
    while (i < words && low[i] == PAINT) ++i;
    const size_t used = (words - i) * 8;
    dirty = used + 64 < SIZE ? used + 64 : SIZE;
    return used;
}
template<class F> void call(const char* op, F f)
{
    using G = std::remove_reference_t<F>;
    size_t used = measure([](void* p) { (*static_cast<G*>(p))(); }, &f);
    used -= used > 4 * grant ? 4 * grant : used;
    ++calls;
    for (auto& p: perOp) { if (!p.op) p = { op, 0 }; if (p.op == op) { if (used > p.depth) p.depth = used; break; } }
    if (used > deepest) { deepest = used; deepestOp = op; }
}
}
#define LIB(name, ...) (mon::grant = work::objectSize, mon::call(name, [&] { __VA_ARGS__; }))
#include "scale.h"
using namespace vf;

namespace
{
constexpr size_t LIMIT = 3072;
size_t empty = 0;               // what a call that does nothing needs
__attribute__((noinline)) void eat(size_t n)
{
    volatile char room[1000]; room[0] = char(n); room[999] = 1;
    if (n) eat(n - 1);
    room[1] = room[0];
}
std::unique_ptr<work::Actor> make(int kind, uint64_t seed)
{
    switch (kind)
    {
    case 0: case 1: return std::make_unique<work::SerialActor>(seed);
    case 2: case 3: return std::make_unique<work::BoardActor>(seed);
#ifdef VF_ESP
    case 4: return std::make_unique<work::BusActor>(seed, int(seed & 1));
#endif
    case 15: return std::make_unique<work::LargeText>(seed);
    case 16: return std::make_unique<work::ManyObjects>(seed);
    case 17: return std::make_unique<work::LongLines>(seed);
    case 18: return std::make_unique<work::LongPackets>(seed);
    case 5: return std::make_unique<work::CanvasActor<SimpleFrameBuffer<2048, 40, 1>>>(seed);      // large frames
    case 6: return std::make_unique<work::CanvasActor<SimpleFrameBuffer<32, 2000, 2>>>(seed);
    default: return work::makeCoreActor(seed);
    }
}
}

int main(int argc, char** argv)
{
    // signal handlers have a stack of their own
    stack_t other {}; other.ss_size = 256 * 1024; other.ss_sp = mmap(nullptr, other.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (sigaltstack(&other, nullptr)) return 98;
    watchdogFlags = SA_ONSTACK;
    mon::call("empty", [] {});
    mon::call("empty", [] {});
    empty = mon::deepest;
    mon::call("self test", [] { eat(30); });
    if (mon::deepest < 30000 || empty > 2000) { fprintf(stderr, "the stack monitor does not work\n"); return 98; }
    return run(argc, argv, [] {
        auto& r = rng();
        const int what = int(r.range(0, 18));
        const uint64_t seed = r.next();
#ifdef VF_ESP
        simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::sleep = {}; simesp::pinSetup.clear();
        for (auto& u: simesp::uartSetup) u = {};
#endif
        mon::deepest = 0; mon::calls = 0; memset(mon::perOp, 0, sizeof mon::perOp);
        const int steps = historyLength(1, 30, 200);
        std::string name;
        { auto a = make(what, seed); name = a->name(); for (int i = 0; i < steps; ++i) { a->step();
            if (mon::deepest > empty + LIMIT) fail("stack", fmt("%s: \"%s\" needed %zu bytes of stack in operation %d (at most %zu are granted)", name.c_str(), mon::deepestOp, mon::deepest - empty, i + 1, LIMIT)); } }
        cov("library calls", mon::calls); cov(("calls in " + name).c_str(), mon::calls);
        if (getenv("VF_STACK")) for (auto& p: mon::perOp) if (p.op) fprintf(stderr, "STACK %s: %s %zu\n", name.c_str(), p.op, p.depth - empty);
        if (mon::calls) nontrivial();
        sigAdd(seed);
        trace("%s, %d operations, deepest %s %zu", name.c_str(), steps, mon::deepestOp, mon::deepest - empty);
    });
}
