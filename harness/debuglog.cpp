// O02: the debug log of a debug build over the simulated port 0, on both back-ends.
#include "sim.h"
#ifdef VF_ESP
#include "esp32-esp-idf/PacketUartImpl.h"
#else
#include "arduino/PacketUartImpl.h"
#endif
#include "Debug.h"
#include "BufferedOut.h"
#include "debuglog_off.h"
#include <cstdint>
using namespace vf;

namespace
{
const size_t SIZE_MAX_PROBE = 100000;
size_t measured = 0;    // how much text one line holds: whatever the library chose, at least a usable line

std::string sentSince(size_t had) { auto& u = sim::w().uart[0]; return std::string(u.sent.begin() + long(had), u.sent.end()); }

// one statement; returns the text it should put on the wire without the newline (uncut)
std::string statement(int& evaluated, int& times)
{
    auto& r = rng();
    times = 1;
    auto once = [&evaluated](auto v) { ++evaluated; return v; };
    std::string s;
    size_t n = size_t(r.chance(1, 6) ? r.range(0, 400) : r.chance(1, 4) ? r.range(int64_t(measured) - 3, int64_t(measured) + 3) : r.range(0, 30));
    const bool any = r.chance(1, 4);    // any character but the terminator, line ends and upper codes included
    for (size_t j = 0; j < n; ++j) s += char(any ? r.range(1, 255) : r.range(0x20, 0x7e));
    if (n && r.chance(1, 8)) { r.fill(s.data(), n); for (char& c: s) if (!c) c = '0'; }
    int i = int(r.interesting64()); unsigned u = unsigned(r.interesting64()); long l = long(r.interesting64());
    unsigned long long ull = r.interesting64();
    unsigned char c = r.byte();
    char hex[3]; snprintf(hex, 3, "%02X", c);
    switch (r.range(0, 7))
    {
    case 0: DEBUG_LOG(once(s.c_str())); return s;
    case 1: DEBUG_LOG("i=" << once(i)); return "i=" + std::to_string(i);
    case 2: DEBUG_LOG("u=" << once(u) << ", l=" << l << ";"); return "u=" + std::to_string(u) + ", l=" + std::to_string(l) + ";";
    case 3: DEBUG_LOG(once(ull) << " " << c); return std::to_string(ull) + " " + hex;
    case 4: DEBUG_LOG(once(s.c_str()) << "|"); return s + "|";
    case 5:
    {
        // settings of one line do not reach into the next one
        DEBUG_LOG(embedded::SerialOut::precision { 3 } << once(1.5f)); return "1.500";
    }
    case 6: DEBUG_LOG(once(2.25f)); return "2";
    default:
    {
        if (r.chance(1, 2)) { DEBUG_LOG(once("")); return ""; }
    }
    times = 0;
    return std::string(1, '\0');
    }
}

void o02()
{
    auto& r = rng();
    sim::reset(r.next());
    auto& u = sim::w().uart[0];
    if (!measured)
    {
        std::string probe(SIZE_MAX_PROBE, 'x');
        DEBUG_LOG(probe.c_str());
        measured = u.sent.size() ? u.sent.size() - 1 : 0;
        VF_CHECK(measured >= 1 && u.sent.back() == '\n', "no-line", "a long line put %zu bytes on the wire%s", u.sent.size(), u.sent.empty() ? "" : ", without a newline at its end");
        u.sent.clear();
    }
    int lines = int(r.range(1, 10));
    for (int k = 0; k < lines; ++k)
    {
        size_t had = u.sent.size();
        int evaluated = 0, times = 1;
        bool cut = r.chance(1, 8);
        if (cut) { if (r.chance(1, 3)) u.failSend = true; else u.acceptLimit = size_t(r.range(0, 20)); }
        sim::w().deadline = sim::w().us + 60000000;
        std::string text = statement(evaluated, times);
        sim::w().deadline = UINT64_MAX;
        const bool failed = u.failSend; const size_t limit = u.acceptLimit;
        u.failSend = false; u.acceptLimit = SIZE_MAX;
        std::string got = sentSince(had);
        VF_CHECK(evaluated == times, "evaluations", "the logged expression was evaluated %d times, expected %d", evaluated, times);
        if (!times) { VF_CHECK(got.empty(), "spontaneous", "%zu bytes on the wire without a log statement", got.size()); continue; }
        const bool whole = text.size() <= measured;
        // a text too long is cut; a number that no longer fits is left out, so only strings are predicted exactly there
        std::string expect = text.substr(0, measured) + "\n";
        if (failed || limit < expect.size())
        {
            size_t m = 0; for (char c: expect) if (m < got.size() && got[m] == c) ++m;
            VF_CHECK(m == got.size(), "wire-differs", "line %d, cut by the port: '%s', expected parts of '%s' only", k, quote(got).c_str(), quote(expect).c_str());
            cov("lines cut by the port"); continue;
        }
        if (tracing()) trace("'%s'; ", quote(got.substr(0, 40)).c_str());
        VF_CHECK(got == expect, "wire-differs", "line %d: '%s' on the wire, expected '%s'", k, quote(got.substr(0, 250)).c_str(), quote(expect.substr(0, 250)).c_str());
        cov("lines"); if (!whole) cov("lines cut at the buffer's size"); if (text.size() == measured) cov("lines filling the buffer");
        nontrivial(); sigAdd(got);
    }
    for (int p = 1; p < 4; ++p) VF_CHECK(sim::w().uart[p].sent.empty(), "other-port", "%zu bytes went to port %d", sim::w().uart[p].sent.size(), p);
    size_t had = u.sent.size();
    int evaluated = 0, n = releaseBuildStatements(evaluated);
    VF_CHECK(n == 3 && evaluated == 0 && u.sent.size() == had, "release-build", "in a release build the log statements evaluated %d expressions and sent %zu bytes (%d statements around them)", evaluated, u.sent.size() - had, n);
    cov("release statements");
}
}

int main(int argc, char** argv) { return run(argc, argv, [] { o02(); }); }
