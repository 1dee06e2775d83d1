// N06: what memory held before makes no difference.  The same operations are done several times; before each of them the
// stack, and at construction the objects' memory, hold something else.  Everything observable has to stay the same:
// texts, regions, images, results, bytes on the buses and every field of the structures handed to the drivers.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
namespace left
{
inline int kind = 0;            // 0: zeros, 1: ones, 2: 0xA5, 3..5: words of a small number, 6: anything
inline uint64_t state = 1;
inline bool armed = false;
inline uint64_t paints = 0;
inline uint8_t byte() { state = state * 6364136223846793005ull + 1442695040888963407ull; return uint8_t(state >> 56); }
__attribute__((noinline, no_sanitize("address"))) void fill(void* p, size_t n)
{
    switch (kind)
    {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0xA5, n); break;
    case 3: case 4: case 5: for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = (reinterpret_cast<uintptr_t>(p) + i) % 4 ? 0 : uint8_t(kind - 2); break;
    default: for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = byte();
    }
}
__attribute__((noinline, no_sanitize("address"))) void paint()
{
    uint8_t room[12000];
    fill(room, sizeof room);
    asm volatile("" :: "r"(room) : "memory");
    ++paints;
}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (left::armed) left::fill(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#define LIB(name, ...) do { left::paint(); __VA_ARGS__; } while (0)
#include "devices.h"
#ifdef VF_ESP
#include "esp32-esp-idf/SimpleUartDevice.h"
#endif
using namespace vf;

namespace
{
void freshDrivers()
{
    sim::fieldDigest = 0;
#ifdef VF_ESP
    simesp::resetSpi(); simesp::resetI2c(); simesp::resetAdc(); simesp::clearFaults(); simesp::sleep = {}; simesp::pinSetup.clear();
    for (auto& u: simesp::uartSetup) u = {};
    for (auto& p: simesp::i2c) p = {};
    simesp::lastCmdTicks = 0;
#endif
}
#ifdef VF_ESP
// set-up calls of every peripheral; each field the drivers are given counts
struct SetupActor : work::Actor
{
    std::unique_ptr<sim::World> world = std::make_unique<sim::World>();
    explicit SetupActor(uint64_t seed) : Actor(seed) { world->rng.s = r.next(); world->us = r.next() % (1ull << 40); }
    const char* name() const override { return "setup"; }
    void step() override
    {
        work::WorldScope s(world.get());
        using U = embedded::SimpleUartDevice;
        uint64_t got = 0; int n = int(r.range(0, 2)), p = int(r.range(0, 39)), q = int(r.range(0, 39)), k = int(r.range(0, 3)); uint32_t f = uint32_t(r.range(1000, 2000000));
        const int what = int(r.range(0, 5)), at = int(r.range(0, 12)), code = r.pick({ ESP_FAIL, ESP_ERR_TIMEOUT, ESP_ERR_NO_MEM });
        if (what != 0 && at < 5) { simesp::faults.failAt = at; simesp::faults.code = code; }       // a driver call fails
        switch (what)
        {
        case 0:
            switch (k)
            {
            case 0: LIB("uart init", got = U::init(n, p, q, int(f))); break;
            case 1: LIB("uart init", got = U::init(n, p, q, int(f), U::DataBits::Bits7, U::ParityCheck::Even)); break;
            case 2: LIB("uart init", got = U::init(n, p, q, int(f), U::DataBits::Bits8, U::ParityCheck::None, U::StopBits::Bits2, U::FlowControl::RTS)); break;
            default: simesp::uartSetup[n].installed = false;
            }
            break;
        case 1: { LIB("i2c init", embedded::I2CBus bus(n % 2); got = bus.init(p, q, f, k & 1, k & 2)); simesp::i2c[n % 2].installed = false; break; }
        case 2:
        {
            embedded::GpioPinDefinition a { uint8_t(p) }, b { uint8_t(q) }, c { uint8_t(n) };
            uint8_t out[30], in[30]; for (auto& x: out) x = r.byte();
            memset(in, 0, sizeof in);
            auto len = uint16_t(r.range(0, 30));
            alignas(embedded::SpiBus) unsigned char mem[sizeof(embedded::SpiBus)]; memset(mem, work::leftover(0), sizeof mem);
            embedded::SpiBus* bus = nullptr;
            LIB("spi bus", bus = new (mem) embedded::SpiBus(1 + n % 2));
            if (k) LIB("spi init", got = bus->init(a, b, c, f, k & 1 ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full));
            embedded::SpiDevice dev(*bus);
            if (got) LIB("spi send", got += dev.sendSync(out, len));
            if (got && (k & 1)) LIB("spi receive", got += dev.receiveSync(in, len));
            else if (got) LIB("spi exchange", got += dev.sendAndReceive(out, in, len));
            LIB("spi release", bus->~SpiBus());
            d.add(in, sizeof in);
            break;
        }
        case 3:
        {
            embedded::GpioPinDefinition a { uint8_t(p) };
            using P = embedded::GpioDigitalPin;
            LIB("pin init", got = P(a).init(k & 1 ? P::Direction::Input : P::Direction::Output, k == 1 ? P::PullMode::Up : k == 2 ? P::PullMode::Down : P::PullMode::None));
            break;
        }
        case 4:
        {
            embedded::GpioPinDefinition a { uint8_t(p) };
            for (auto& u: simesp::adc.value) for (auto& v: u) v = int(r.range(0, 4095));
            LIB("analog read", got = uint64_t(int64_t(embedded::AnalogPin(a).singleRead())));
            break;
        }
        default: { LIB("i2c probe", embedded::I2CBus bus(n % 2); got = bus.testAddress(uint8_t(p)); bus.resetBus()); }
        }
        cov("driver calls failed", uint64_t(simesp::faults.injected)); simesp::clearFaults();
        d.add(got); d.add(sim::fieldDigest); d.add(simesp::spi.misuse + simesp::adc.misuse + simesp::linkMisuse); d.add(simesp::lastCmdTicks);
    }
};
#endif
std::unique_ptr<work::Actor> make(int kind, uint64_t seed)
{
    switch (kind)
    {
    case 0: return std::make_unique<work::SerialActor>(seed);
    case 1: return std::make_unique<work::BoardActor>(seed);
#ifdef VF_ESP
    case 2: return std::make_unique<work::BusActor>(seed, int(seed & 1));
    case 3: return std::make_unique<SetupActor>(seed);
#endif
    default: return work::makeCoreActor(seed);
    }
}
}

// what an uninitialised variable of a called function holds
__attribute__((noinline)) bool sees(uint8_t what)
{
    volatile uint8_t room[64];
    int n = 0;
    for (auto& b: room) n += b == what;
    return n > 40;
}

int main(int argc, char** argv)
{
    // the monitor reaches uninitialised variables and fresh objects
    for (left::kind = 0; left::kind < 3; ++left::kind)
    {
        const auto what = uint8_t(left::kind == 0 ? 0 : left::kind == 1 ? 0xFF : 0xA5);
        left::paint();
        const bool stack = sees(what);
        left::armed = true; auto* p = static_cast<uint8_t*>(operator new(40)); left::armed = false;
        if (!stack || p[7] != what) { fprintf(stderr, "overwriting leftovers does not work\n"); return 98; }
        operator delete(p);
    }
    return run(argc, argv, [] {
        auto& r = rng();
        const int what = int(r.range(0, 9));
        const uint64_t seed = r.next();
        const int steps = historyLength(1, 20, 100);
        std::vector<uint64_t> expected;
        std::string name;
        static const int bytes[] = { 0, 0xFF, 0xA5, 1, 2, 3, 0x5A };
        static const std::vector<int> choices[] = { { 0, 3, 4, 5, 6 }, { 0, 1, 2, 5, 6 } };
        for (int k: choices[seed % 2])
        {
            freshDrivers();
            left::kind = k; left::state = seed | 1; work::leftoverByte = bytes[k];
            left::armed = true;
            {
                left::paint();
                auto a = make(what, seed);
                name = a->name();
                for (int i = 0; i < steps; ++i)
                {
                    a->step();
                    const uint64_t now = mix(a->d.h ^ sim::fieldDigest);
                    if (k == 0) { left::armed = false; expected.push_back(now); left::armed = true; }
                    else if (now != expected[size_t(i)])
                    {
                        left::armed = false;
                        fail("leftover-memory", fmt("%s: operation %d gives something else when the memory held %s before than when it held zeros", name.c_str(), i + 1, k == 1 ? "ones" : k == 2 ? "0xA5" : k < 6 ? "words of a small number" : "anything"));
                    }
                }
            }
            left::armed = false;
        }
        work::leftoverByte = -1;
        cov("operations compared", uint64_t(steps) * 4); cov(("cases: " + name).c_str());
        cov("times the stack was overwritten", left::paints); left::paints = 0;
        nontrivial();
        sigAdd(expected.back());
        trace("%s, %d operations", name.c_str(), steps);
    });
}
