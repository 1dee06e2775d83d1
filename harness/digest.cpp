// N03: the same seeded calls, one digest per case; run.py compares the digests of differently built libraries.
#include "work.h"
using namespace vf;
int main(int argc, char** argv)
{
    return run(argc, argv, [] {
        auto a = work::makeCoreActor(rng().next());
        int steps = historyLength(1, 25, 200);
        for (int i = 0; i < steps; ++i)
        {
            a->step();
            if (st().verbose) fprintf(stderr, "digest after step %d of the %s actor: %016llx\n", i, a->name(), (unsigned long long)a->d.h);
        }
        cov("operations", uint64_t(steps)); cov((std::string("cases: ") + a->name()).c_str());
        nontrivial();
        st().sig = a->d.h;
        trace("%s actor, %d operations, digest %016llx", a->name(), steps, (unsigned long long)a->d.h);
    });
}
