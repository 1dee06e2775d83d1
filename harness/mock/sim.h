// Simulated platform shared by the Arduino and ESP-IDF driver stand-ins: virtual clock, UART lines, SPI and
// I2C buses, pins, converters, with event logs, resource tables and fault injection.  Header-only (inline
// variables), one world per thread so that independence checks can run harness threads in parallel.
#pragma once
#include "vf.h"
#include <deque>

namespace sim
{
// digest of every field of the structures the library hands to a driver
inline thread_local uint64_t fieldDigest = 0;
template<class... T> inline void noteFields(T... v) { ((fieldDigest = (fieldDigest ^ uint64_t(v)) * 0x9E3779B97F4A7C15ull, fieldDigest ^= fieldDigest >> 29), ...); }

struct InMock  // marks driver stand-in code (its own allocations are not the library's)
{
    static inline thread_local int depth = 0;
    InMock() { ++depth; }
    ~InMock() { --depth; }
};

struct LineByte { uint64_t at; uint8_t value; };

struct Uart
{
    std::vector<LineByte> line;     // everything that ever arrives, in order of arrival
    size_t taken = 0;               // handed to the library so far
    std::vector<uint64_t> takenAt;
    std::vector<uint8_t> sent;
    std::vector<size_t> sendCalls;
    size_t acceptLimit = SIZE_MAX;  // driver accepts at most this many bytes per write
    bool failSend = false;
    int failReads = 0;              // this many read calls report a driver error
    uint64_t readErrors = 0, reads = 0, flushes = 0;
    uint64_t busyUntil = 0;         // when the last accepted byte has left the transmitter
    bool installed = false;
    size_t beforeRx = 0;
};

struct PinState
{
    int level = -1;                 // last driven level
    int input = 0;                  // level seen when reading
    int mode = -1;
    int analog = 0;
};
struct PinEvent { int pin; int level; uint64_t at; };

struct World
{
    uint64_t us = 0;                // the clock
    uint64_t cost = 1;              // largest duration of one driver or clock call in us (at least 1)
    uint64_t deadline = UINT64_MAX; // passing it means the call under test does not return
    uint64_t preemptMax = 0;        // occasional longer interruptions
    int preemptOneIn = 0;
    uint64_t preempted = 0;
    uint64_t clockReads = 0, driverCalls = 0;
    vf::Rng rng;
    Uart uart[4];
    PinState pin[256];
    std::vector<PinEvent> pinEvents;
};
inline thread_local World* tlsWorld = nullptr;
inline World& w() { if (!tlsWorld) { InMock m; tlsWorld = new World; } return *tlsWorld; }
inline void reset(uint64_t seed)
{
    InMock m;
    delete tlsWorld;
    tlsWorld = new World;
    tlsWorld->rng.s = seed;
}
inline void overdue(const char* what)
{
    vf::fail("never-returns", vf::fmt("%s: the call is still running at %llu us, past any time it may take", what, (unsigned long long)w().us));
}
// time passes in every driver call; now and then another task takes the processor
inline void step(const char* what)
{
    auto& x = w();
    ++x.driverCalls;
    x.us += 1 + x.rng.next() % x.cost;
    if (x.preemptOneIn && x.rng.next() % uint64_t(x.preemptOneIn) == 0)
    {
        uint64_t d = x.rng.next() % (x.preemptMax + 1);
        x.us += d; x.preempted += d;
    }
    if (x.us > x.deadline) overdue(what);
}
inline uint64_t clockUs() { step("clock"); ++w().clockReads; return w().us; }
inline void sleepUs(uint64_t d, const char* what) { auto& x = w(); x.us += d; if (x.us > x.deadline) overdue(what); }

// --- UART line
inline size_t arrived(const Uart& u)
{
    size_t n = u.taken;
    while (n < u.line.size() && u.line[n].at <= w().us) ++n;
    return n - u.taken;
}
inline int take(Uart& u)
{
    InMock m;
    if (u.taken >= u.line.size() || u.line[u.taken].at > w().us) return -1;
    u.takenAt.push_back(w().us);
    return u.line[u.taken++].value;
}
// waits for the next byte at most until 'until'
inline int takeBefore(Uart& u, uint64_t until, const char* what)
{
    if (u.taken < u.line.size() && u.line[u.taken].at <= until)
    {
        if (u.line[u.taken].at > w().us) w().us = u.line[u.taken].at;
        return take(u);
    }
    if (until > w().us) w().us = until;
    if (w().us > w().deadline) overdue(what);
    return -1;
}
constexpr uint64_t BYTE_US = 87;    // one byte at 115200 baud
// waits at most 'limit' for the transmitter to run empty
inline bool drain(Uart& u, uint64_t limit)
{
    if (u.busyUntil > w().us + limit) { w().us += limit; return false; }
    w().us = std::max(w().us, u.busyUntil);
    return true;
}
inline size_t send(Uart& u, const uint8_t* p, size_t n)
{
    InMock m;
    if (u.failSend) return 0;
    if (n > u.acceptLimit) n = u.acceptLimit;
    u.sent.insert(u.sent.end(), p, p + n);
    u.sendCalls.push_back(n);
    w().us += n * 10;
    // what was accepted last is in the transmitter's own buffer and leaves at the line's speed
    if (n) u.busyUntil = std::max(u.busyUntil, w().us) + std::min<size_t>(n, 128) * BYTE_US;
    return n;
}

// --- SPI wire: what the other side clocks out, and what it saw
struct SpiWire
{
    std::vector<uint8_t> mosi;      // bytes clocked out with data
    uint64_t clocked = 0;           // number of bytes clocked in total
    std::vector<uint8_t> miso;      // supply (repeats deterministically beyond the end)
    uint64_t misoSeed = 1;
    std::function<uint8_t(int out)> slave;  // if set: what answers on the bus (out: -1 while only receiving)
    uint8_t nextIn() { if (slave) return slave(-1); return vf::supply(misoSeed, clocked); }
    uint8_t inAt(uint64_t i) const { return vf::supply(misoSeed, i); }
    uint8_t exchange(uint8_t out) { InMock m; uint8_t b = slave ? slave(out) : nextIn(); mosi.push_back(out); ++clocked; return b; }
};

// --- I2C: one transaction as the addressed device saw it
struct I2cWrite { uint32_t addr; std::vector<uint8_t> bytes; bool stop; uint32_t ticks; };
struct I2cRead { uint32_t addr; size_t count; size_t delivered; uint32_t ticks; };
struct I2cWire
{
    std::set<uint32_t> present;             // devices that acknowledge their address
    std::map<uint32_t, size_t> acksUpTo;    // acknowledges at most this many data bytes
    std::map<uint32_t, size_t> hasBytes;    // delivers at most this many bytes
    bool busFault = false;
    uint64_t dataSeed = 1, dataPos = 0;
    std::vector<I2cWrite> writes;
    std::vector<I2cRead> reads;
    std::vector<char> order;                // 'w' / 'r'
    uint8_t dataAt(uint64_t i) const { return vf::supply(dataSeed, i); }
};
}
