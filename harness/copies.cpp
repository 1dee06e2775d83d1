// N05: a copy carries on where the original was.  Twin actors live through the same operations; the library's objects of one
// of them are replaced by copies of themselves (constructed or assigned, the original destroyed and its memory
// overwritten) in between.
#include "devices.h"
using namespace vf;

namespace
{
void freshDrivers()
{
#ifdef VF_ESP
    simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::sleep = {}; simesp::pinSetup.clear();
    for (auto& u: simesp::uartSetup) u = {};
#endif
}
std::unique_ptr<work::Actor> make(int kind, uint64_t seed)
{
    switch (kind)
    {
    case 0: return std::make_unique<work::SerialActor>(seed);
    case 1: return std::make_unique<work::BoardActor>(seed);
#ifdef VF_ESP
    case 2: return std::make_unique<work::BusActor>(seed, int(seed & 1));
#endif
    default: return work::makeCoreActor(seed);
    }
}
}

int main(int argc, char** argv)
{
    return run(argc, argv, [] {
        auto& r = rng();
        const int kind = int(r.range(0, 8));
        const uint64_t seed = r.next();
        const int steps = historyLength(2, 25, 200);
        std::vector<uint64_t> expected;
        freshDrivers();
        { auto a = make(kind, seed); for (int i = 0; i < steps; ++i) { a->step(); expected.push_back(a->d.h); } }
        freshDrivers();
        auto b = make(kind, seed);
        Rng q; q.s = r.next();
        int copies = 0;
        const int64_t often = r.pick({ 1, 2, 5 });
        for (int i = 0; i < steps; ++i)
        {
            while (q.chance(1, often + 1)) { const int n = b->relocate(q); copies += n; if (!n) break; }
            b->step();
            VF_CHECK(b->d.h == expected[size_t(i)], "copy-differs", "%s: after %d operations and %d copies the copied object gives something else than the one that never was copied", b->name(), i + 1, copies);
            cov("operations compared");
        }
        if (const char* wrong = b->snapshots()) fail("snapshot-changed", fmt("%s after %d operations: %s", b->name(), steps, wrong));
        cov("copies", uint64_t(copies)); cov((std::string("copies of ") + b->name()).c_str(), uint64_t(copies));
        if (copies) nontrivial();
        sigAdd(b->d.h); sigAdd(uint64_t(copies));
        trace("%s, %d operations, %d copies", b->name(), steps, copies);
        b.reset();
        freshDrivers();
    });
}
