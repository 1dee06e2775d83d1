// Harness core: seeded cases, monitors' verdicts, coverage, watchdog, status page.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <memory>
#include <functional>

namespace vf
{
inline uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// byte number i of an endless supply: uniform for half of the seeds, otherwise constant, in runs, of few values, or ascending
inline uint8_t supply(uint64_t seed, uint64_t i)
{
    auto h = [](uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
    const uint64_t kind = (h(seed) >> 20) % 10; const uint8_t few[] = { 0, 0xff, 1, 0x80 };
    switch (kind)
    {
    case 0: return 0xff;
    case 1: return few[h(seed) & 3];
    case 2: return few[h(seed ^ (i / 7 * 77)) & 3];
    case 3: return few[h(seed ^ (i * 77)) & 3];
    case 4: return uint8_t(seed + i);
    default: return uint8_t(h(seed ^ (i * 77)) >> 13);
    }
}
struct Rng
{
    uint64_t s = 1;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    // inclusive range
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(next() % (uint64_t(hi - lo) + 1)); }
    bool chance(int num, int den) { return int(next() % den) < num; }
    uint8_t byte() { return uint8_t(next()); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
    // values at which code is likely to change its behaviour: small ones, and the surroundings of powers of two
    // and of the sizes that occur in drivers and displays
    int64_t notable(int64_t lo, int64_t hi)
    {
        int64_t v = 0;
        switch (next() % 4)
        {
        case 0: v = range(0, 1100); break;
        case 1: v = (int64_t(1) << (next() % 40)) + range(-2, 2); break;
        case 2: v = pick({ 10, 50, 100, 200, 240, 320, 400, 480, 500, 640, 800, 1000, 1920, 2000, 4092, 5000, 8184, 10000, 20000, 50000, 100000, 1000000 }) + (chance(1, 2) ? 0 : range(-1, 1)); break;
        default: v = hi - range(0, 3); break;
        }
        if (lo < 0 && chance(1, 2)) v = -v;
        return v < lo || v > hi ? range(lo, hi) : v;
    }
    // contents: uniform, all the same, with runs, few different values, ascending
    template<class P> void fill(P* out, size_t n)
    {
        const uint64_t kind = next() % 12; const uint8_t v = chance(1, 3) ? byte() : pick<uint8_t>({ 0, 0xff, 1, 0x20 });
        for (size_t i = 0; i < n; ++i) out[i] = kind == 0 ? P(v) : kind == 1 ? P(i) : kind == 2 ? P(pick<uint8_t>({ 0, 0xff, 1, 0x80 })) : P(byte());
        if (kind >= 3 && kind <= 5 && n)
        {   // a run at the beginning, at the end or anywhere
            size_t len = size_t(range(1, int64_t(n))), at = kind == 3 ? 0 : kind == 4 ? n - len : size_t(range(0, int64_t(n - len)));
            for (size_t i = 0; i < len; ++i) out[at + i] = P(v);
        }
    }
    // values near boundaries of an n-bit type as well as uniform and small ones
    uint64_t interesting64()
    {
        switch (next() % 6)
        {
        case 0: return next();
        case 1: return next() % 300;
        case 2: { uint64_t b = 1ull << (next() % 64); return b + uint64_t(range(-2, 2)); }
        case 3: { uint64_t p = 1; int k = int(next() % 20); while (k--) p *= 10; return p + uint64_t(range(-2, 2)); }
        case 4: return uint64_t(-range(0, 1000));
        default: return next() >> (next() % 64);
        }
    }
};

struct Violation
{
    std::string key, msg;
};

struct StatusPage
{
    volatile uint64_t caseIdx;
    volatile uint64_t running;
    char note[1000];
};

struct State
{
    std::string prop, tier = "quick", out, status, data;
    uint64_t seed = 1, start = 0, count = 1;
    bool verbose = false;
    StatusPage* page = nullptr;
    std::map<std::string, uint64_t> cov;
    std::vector<uint64_t> sigs;          // signatures of the non-trivial cases
    std::vector<std::string> samples;
    std::set<std::string> known;         // keys of known findings: counted, not fatal
    std::map<std::string, std::pair<uint64_t, std::string>> knownHits;
    uint64_t evals = 0;
    // current case
    uint64_t idx = 0, sig = 0;
    bool nontrivial = false;
    std::string desc;
    Rng rng;
};
inline State& st() { static State s; return s; }
inline Rng& rng() { return st().rng; }

inline void cov(const char* name, uint64_t n = 1) { st().cov[name] += n; }
// number of operations of a history: now and then enough to overrun a counter of one byte
inline int historyLength(int lo, int hi, int oneIn = 80)
{
    if (!rng().chance(1, oneIn)) return int(rng().range(lo, hi));
    cov("long histories");
    return int(rng().range(250, 540));
}
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
    if (!st().page) return;
    va_list ap; va_start(ap, fmt); vsnprintf(st().page->note, sizeof st().page->note, fmt, ap); va_end(ap);
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    va_list ap, ap2; va_start(ap, f); va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap); va_end(ap);
    std::string s(size_t(n) + 1, 0); vsnprintf(&s[0], s.size(), f, ap2); va_end(ap2); s.resize(size_t(n));
    return s;
}
[[noreturn]] inline void fail(const char* key, const std::string& msg) { throw Violation { key, msg }; }
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, ::vf::fmt(__VA_ARGS__)); } while (0)

inline void sigAdd(uint64_t v) { st().sig = mix(st().sig ^ v); }
inline void sigAdd(std::string_view v) { uint64_t h = 1469598103934665603ull; for (char c: v) { h ^= uint8_t(c); h *= 1099511628211ull; } sigAdd(h ^ v.size()); }
inline void sigAdd(const std::string& v) { sigAdd(std::string_view(v)); }
inline void nontrivial() { st().nontrivial = true; }
// cheap textual trace of the case; only kept for the first samples and on violation/replay
inline bool tracing() { return st().verbose || st().samples.size() < 3 || st().desc.size() < 600; }
inline void trace(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void trace(const char* f, ...)
{
    if (!st().verbose && st().desc.size() >= 1500) return;
    va_list ap; va_start(ap, f); char b[512]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
    st().desc += b;
}

inline std::string quote(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
inline std::string hex(const void* p, size_t n, size_t max = 64)
{
    std::string r; char b[4];
    for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, sizeof b, "%02x", static_cast<const uint8_t*>(p)[i]); r += b; }
    if (n > max) r += "...";
    return r;
}

inline int g_cpuTicks = 0;
inline void watchdog(int)
{
    if (++g_cpuTicks > 20)
    {
        static const char m[] = "VF-HANG: case exceeded 20 s of CPU time\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(97);
    }
}

inline void writeOut(const Violation* v)
{
    auto& s = st();
    if (s.out.empty()) return;
    FILE* f = fopen(s.out.c_str(), "w");
    if (!f) { perror("out"); _exit(98); }
    fprintf(f, "{\"evaluations\":%llu,\"cov\":{", (unsigned long long)s.evals);
    bool first = true;
    for (auto& [k, n]: s.cov) { fprintf(f, "%s%s:%llu", first ? "" : ",", quote(k).c_str(), (unsigned long long)n); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& x: s.samples) { fprintf(f, "%s%s", first ? "" : ",", quote(x).c_str()); first = false; }
    fprintf(f, "],\"known\":[");
    first = true;
    for (auto& [k, h]: s.knownHits) { fprintf(f, "%s{\"key\":%s,\"count\":%llu,\"msg\":%s}", first ? "" : ",", quote(k).c_str(), (unsigned long long)h.first, quote(h.second).c_str()); first = false; }
    fprintf(f, "],\"violation\":");
    if (v) fprintf(f, "{\"key\":%s,\"msg\":%s,\"case\":%llu,\"trace\":%s}", quote(v->key).c_str(), quote(v->msg).c_str(), (unsigned long long)s.idx, quote(s.desc).c_str());
    else fprintf(f, "null");
    fprintf(f, "}\n");
    fclose(f);
    f = fopen((s.out + ".sigs").c_str(), "wb");
    if (f) { if (!s.sigs.empty()) fwrite(s.sigs.data(), 8, s.sigs.size(), f); fclose(f); }
}

inline int watchdogFlags = 0;      // more flags for its handler (SA_ONSTACK)
inline int run(int argc, char** argv, const std::function<void()>& oneCase, const std::function<void()>& finish = {})
{
    auto& s = st();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(98); } return argv[++i]; };
        if (a == "--prop") s.prop = val();
        else if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--start") s.start = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--count") s.count = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--tier") s.tier = val();
        else if (a == "--out") s.out = val();
        else if (a == "--status") s.status = val();
        else if (a == "--data") s.data = val();
        else if (a == "--known") s.known.insert(val());
        else if (a == "--verbose") s.verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 98; }
    }
    if (!s.status.empty())
    {
        int fd = open(s.status.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(StatusPage)) != 0) { perror("status"); return 98; }
        s.page = static_cast<StatusPage*>(mmap(nullptr, sizeof(StatusPage), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (s.page == MAP_FAILED) { perror("mmap"); return 98; }
    }
    struct sigaction sa {};
    sa.sa_handler = watchdog;
    sa.sa_flags = SA_RESTART | vf::watchdogFlags;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &tv, nullptr);

    const char* const slowLog = getenv("VF_SLOW");
    uint64_t propHash = 1469598103934665603ull;
    for (char c: s.prop) { propHash ^= uint8_t(c); propHash *= 1099511628211ull; }
    for (uint64_t i = 0; i < s.count; ++i)
    {
        s.idx = s.start + i;
        s.rng.s = mix(mix(s.seed) ^ mix(propHash) ^ mix(s.idx * 0x9E3779B97F4A7C15ull + 12345));
        s.sig = 0; s.nontrivial = false; s.desc.clear();
        g_cpuTicks = 0;
        const clock_t cpu0 = clock();
        if (s.page) { s.page->caseIdx = s.idx; s.page->running = 1; s.page->note[0] = 0; }
        try
        {
            oneCase();
        }
        catch (const Violation& v)
        {
            if (s.known.count(v.key))
            {
                auto& h = s.knownHits[v.key];
                if (h.first++ == 0) h.second = v.msg;
            }
            else
            {
                if (s.verbose) fprintf(stderr, "trace: %s\n", s.desc.c_str());
                fprintf(stderr, "VF-VIOLATION key=%s case=%llu: %s\n", v.key.c_str(), (unsigned long long)s.idx, v.msg.c_str());
                writeOut(&v);
                return 1;
            }
        }
        ++s.evals;
        if (slowLog)
        {
            // Debugging aid for the generators: cases too near to the CPU watchdog's limit.
            const double spent = double(clock() - cpu0) / CLOCKS_PER_SEC;
            if (spent > 1.0)
                if (FILE* f = fopen(slowLog, "a"))
                {
                    fprintf(f, "%s case=%llu %.1f s %s\n", s.prop.c_str(), (unsigned long long)s.idx, spent, s.desc.substr(0, 150).c_str());
                    fclose(f);
                }
        }
        if (s.nontrivial) s.sigs.push_back(s.sig);
        if (s.nontrivial && s.samples.size() < 3 && !s.desc.empty()) s.samples.push_back(s.desc.substr(0, 1200));
    }
    g_cpuTicks = 0;
    if (s.page) s.page->running = 0;
    if (finish) finish();
    if (s.verbose) fprintf(stderr, "trace: %s\n", s.desc.c_str());
    writeOut(nullptr);
    return 0;
}

// Heap block placed so that its first/last byte touch red zones (exact size; size 0 allowed).
// 'misalign' shifts the block start within a 16 byte grid by allocating misalign bytes in front that are
// poisoned by being checked for changes (canary) - the right-hand side is ASan's red zone.
class Block
{
public:
    explicit Block(size_t n, size_t misalign = 0, uint8_t canary = 0xC5)
    : n_(n), lead_(misalign), canary_(canary), mem_(static_cast<uint8_t*>(malloc(n + misalign ? n + misalign : 1)))
    {
        memset(mem_, canary_, lead_);
    }
    ~Block() { free(mem_); }
    Block(const Block&) = delete;
    uint8_t* data() { return mem_ + lead_; }
    size_t size() const { return n_; }
    bool leadIntact() const { for (size_t i = 0; i < lead_; ++i) if (mem_[i] != canary_) return false; return true; }
private:
    size_t n_, lead_;
    uint8_t canary_;
    uint8_t* mem_;
};
} // namespace vf
