// P01, P02 (SPI), I01 (I2C), H01 (set-up), D01 (pins), A01 (converters), L01 (time) on both back-ends.
#include "sim.h"
#ifdef VF_ESP
#include "freertos/FreeRTOS.h"
#include "freertos/task.h"
#include "driver/spi_master.h"
#include "driver/i2c.h"
#include "driver/uart.h"
#include "driver/gpio.h"
#include "esp_adc/adc_oneshot.h"
#include "esp_sleep.h"
#include "esp_timer.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "esp32-esp-idf/SpiBus.h"
#include "esp32-esp-idf/I2CBus.h"
#include "esp32-esp-idf/SimpleUartDevice.h"
#include "esp32-esp-idf/SleepFunctions.h"
#else
#include "Arduino.h"
#include "SPI.h"
#include "Wire.h"
#include "arduino/GpioPinDefinition.h"
#include "arduino/SpiBus.h"
#include "arduino/I2CBus.h"
#endif
#include "SpiDevice.h"
#include "I2CDevice.h"
#include "AnalogPin.h"
#include "GpioDigitalPin.h"
#include "Delays.h"
using namespace vf;
using embedded::GpioPinDefinition;
using embedded::SpiBus;
using embedded::SpiDevice;

namespace
{
void fillRandom(uint8_t* p, size_t n) { rng().fill(p, n); }
uint16_t pickLength()
{
    auto& r = rng();
    switch (r.range(0, 11))
    {
    case 0: case 1: case 2: case 3: return uint16_t(r.range(0, 9));
    case 4: case 5: case 6: return uint16_t(r.range(0, 200));
    case 7: return uint16_t(r.chance(1, 3) ? r.pick({ 63, 64, 65, 255, 256, 257, 4091, 4092, 4093, 4095, 4096, 8183, 8184, 8185, 12276 }) : r.notable(0, r.chance(1, 6) ? 65535 : 5000));
    case 8: return uint16_t(r.range(4000, 4200));
    case 9: return uint16_t(r.chance(1, 8) ? r.range(8000, 65535) : r.range(0, 1000));
    default: return uint16_t(r.range(0, 64));
    }
}

// ---------------------------------------------------------------- SPI
#ifdef VF_ESP
struct SpiPins { GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 }; };
#endif

void p01()
{
    auto& r = rng();
    sim::reset(r.next());
#ifdef VF_ESP
    simesp::resetSpi(); simesp::clearFaults();
    SpiPins pins;
    int host = int(r.range(1, 2));
    SpiBus bus(host);
    bool full = r.chance(1, 2);
    VF_CHECK(bus.init(pins.sck, pins.miso, pins.mosi, 1000000, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half), "init-failed", "bus initialisation failed without a fault");
    auto& wire = simesp::spi.wire[host];
    auto opened = [] { return uint64_t(0); };
#else
    SPIClass spi;
    SpiBus bus(spi, uint32_t(r.range(1, 80000000)));
    auto& wire = spi.wire;
    bool full = true;
    auto opened = [&] { return spi.outside; };
#endif
    wire.misoSeed = r.next();
    SpiDevice device(bus);
    const int ops = historyLength(1, 6);
    for (int i = 0; i < ops; ++i)
    {
        uint16_t n16 = ops > 6 && i % 32 ? uint16_t(r.range(0, 20)) : pickLength();
        int kind = int(r.range(0, 2));
#ifdef VF_ESP
        if (full && kind == 1) kind = 2;     // plain receive is a half duplex operation, exchange a full duplex one
        if (!full && kind == 2) kind = int(r.range(0, 1));
        bool fault = r.chance(1, 6);
        if (fault) { simesp::clearFaults(); simesp::faults.failAt = r.range(0, 3); simesp::faults.code = r.pick({ ESP_FAIL, ESP_ERR_TIMEOUT, ESP_ERR_NO_MEM }); }
#endif
        bool direct = r.chance(1, 4);
#ifdef VF_ESP
        uint32_t n = direct && r.chance(1, 20) ? uint32_t(r.pick<int64_t>({ 65536, 65537, 69632, 100000, r.range(60000, 200000) })) : n16;
        if (n > 65535) cov("more than 64 KiB");
#else
        const uint16_t n = n16;
        if (r.chance(1, 12))
        {   // bytes sent without a transaction of their own
            bool one = r.chance(1, 2);
            Block t(one ? 1 : n, size_t(r.range(0, 7))); fillRandom(t.data(), one ? 1 : n);
            size_t before = wire.mosi.size(), count = one ? 1 : n;
            std::vector<uint8_t> copy(t.data(), t.data() + count);
            if (one) bus.sendByte(copy[0]); else bus.sendBytes(t.data(), n);
            spi.outside = 0;
            VF_CHECK(wire.mosi.size() - before == count, "byte-count", "sending %zu bytes to the bus clocked %zu", count, wire.mosi.size() - before);
            for (size_t j = 0; j < count; ++j) VF_CHECK(wire.mosi[before + j] == copy[j] && t.data()[j] == copy[j], "sent-differs", "%zu bytes sent to the bus: byte %zu is %02x, given %02x", count, j, wire.mosi[before + j], copy[j]);
            VF_CHECK(t.leadIntact(), "before-buffer", "sending changed memory in front of the buffer");
            cov("bytes sent to the bus itself"); continue;
        }
#endif
        Block tx(n, size_t(r.range(0, 7))), rx(n, size_t(r.range(0, 7)));
        fillRandom(tx.data(), n); fillRandom(rx.data(), n);
        std::vector<uint8_t> sentCopy(tx.data(), tx.data() + n);
        size_t had = wire.mosi.size(); uint64_t clockedBefore = wire.clocked;
        note("kind %d length %u", kind, n);
        bool ok;
        if (kind == 0) ok = direct ? bus.transfer(tx.data(), nullptr, n) : device.sendSync(tx.data(), n);
        else if (kind == 1) ok = direct ? bus.transfer(nullptr, rx.data(), n) : device.receiveSync(rx.data(), n);
        else ok = direct ? bus.transfer(tx.data(), rx.data(), n) : device.sendAndReceive(tx.data(), rx.data(), n);
        bool failed = false;
#ifdef VF_ESP
        failed = simesp::faults.injected > 0;
        simesp::clearFaults();
#endif
        static const char* names[] = { "send", "receive", "exchange" };
        if (tracing()) trace("%s %u%s -> %d; ", names[kind], n, failed ? " (driver failure)" : "", ok);
        VF_CHECK(tx.leadIntact() && rx.leadIntact(), "before-buffer", "%s of %u bytes changed memory in front of a buffer", names[kind], n);
        VF_CHECK(n == 0 || !memcmp(tx.data(), sentCopy.data(), n), "source-changed", "%s of %u bytes changed the bytes to be sent", names[kind], n);
        cov("transfers"); cov(names[kind]);
        if (failed) { VF_CHECK(!ok, "failure-hidden", "%s of %u bytes: the driver failed, success was reported", names[kind], n); cov("driver failures"); continue; }
        VF_CHECK(ok, "spurious-failure", "%s of %u bytes reported failure although the driver did not fail", names[kind], n);
        uint64_t clocked = wire.clocked - clockedBefore;
        VF_CHECK(clocked == n, "byte-count", "%s of %u bytes clocked %llu bytes", names[kind], n, (unsigned long long)clocked);
        if (kind != 1)
            for (size_t j = 0; j < n; ++j)
                VF_CHECK(wire.mosi[had + j] == sentCopy[j], "sent-differs", "%s of %u bytes: byte %zu on the bus is %02x, given %02x", names[kind], n, j, wire.mosi[had + j], sentCopy[j]);
        if (kind != 0)
            for (size_t j = 0; j < n; ++j)
                VF_CHECK(rx.data()[j] == wire.inAt(clockedBefore + j), "received-differs", "%s of %u bytes: byte %zu is %02x, clocked in %02x", names[kind], n, j, rx.data()[j], wire.inAt(clockedBefore + j));
        VF_CHECK(opened() == 0, "outside-transaction", "%s of %u bytes used the bus outside a transaction", names[kind], n);
        if (n % 4) cov("odd lengths");
        if (n > 4092) cov("beyond the largest transaction");
        if (n) nontrivial();
        sigAdd(uint64_t(kind) << 16 | n);
    }
}

#ifdef VF_ESP
void p02()
{
    auto& r = rng();
    sim::reset(r.next());
    simesp::resetSpi(); simesp::clearFaults();
    auto& spi = simesp::spi;
    int host = int(r.range(1, 2));
    bool ready = false, stuck = false;   // stuck: the driver itself refused to give something back
    std::string log;
    auto balanced = [&](const char* when)
    {
        VF_CHECK(spi.misuse == 0, "driver-misuse", "%s: a driver object was used or freed that is not allocated [%s]", when, log.c_str());
        VF_CHECK(spi.host[host].devices.empty(), "device-leaked", "%s: %zu device(s) stay attached [%s]", when, spi.host[host].devices.size(), log.c_str());
        VF_CHECK(!spi.host[host].up, "bus-leaked", "%s: the bus stays initialised [%s]", when, log.c_str());
    };
    const int lives = historyLength(1, 3);
    for (int life = 0; life < lives; ++life)
    {
        {
            SpiBus bus(host);
            ready = false;
            int ops = lives > 3 ? int(r.range(1, 3)) : historyLength(1, 7);
            for (int i = 0; i < ops; ++i)
            {
                simesp::clearFaults();
                int64_t k = r.range(0, 9);
                if (k < 5 && !ready)
                {
                    GpioPinDefinition sck { uint8_t(r.range(0, 39)) }, miso { uint8_t(r.range(0, 39)) }, mosi { uint8_t(r.range(0, 39)) };
                    uint32_t f = uint32_t(r.range(1, 80000000));
                    bool full = r.chance(1, 2);
                    if (r.chance(1, 3)) { simesp::faults.failAt = r.range(0, 1); simesp::faults.code = r.pick({ ESP_FAIL, ESP_ERR_NO_MEM, ESP_ERR_INVALID_STATE }); }
                    if (simesp::faults.failAt == 1 && r.chance(1, 3)) simesp::faults.failFor = 2;     // undoing fails as well
                    size_t had = spi.added.size();
                    bool ok = bus.init(sck, miso, mosi, f, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half);
                    int faulted = simesp::faults.injected; simesp::clearFaults();
                    log += fmt("init%s->%d ", faulted ? "(fault)" : "", ok);
                    cov("initialisations");
                    if (faulted)
                    {
                        VF_CHECK(!ok, "init-failure-hidden", "a driver call of init failed, success was reported [%s]", log.c_str());
                        cov("failed initialisations"); nontrivial();
                        if (faulted > 1) { stuck = true; cov("failed initialisations that could not be undone"); }
                        if (!stuck) balanced("after a failed init");
                        continue;
                    }
                    if (!ok && stuck) continue;
                    stuck = false;
                    VF_CHECK(ok, "init-refused", "init failed though the driver accepts everything (bus not released earlier?) [%s]", log.c_str());
                    ready = true;
                    auto& c = spi.host[host].config;
                    VF_CHECK(c.mosi_io_num == mosi.pin && c.miso_io_num == miso.pin && c.sclk_io_num == sck.pin, "wrong-pins", "pins requested sck %u miso %u mosi %u, driver got %d %d %d", sck.pin, miso.pin, mosi.pin, c.sclk_io_num, c.miso_io_num, c.mosi_io_num);
                    VF_CHECK(spi.added.size() == had + 1, "device-count", "init attached %zu devices", spi.added.size() - had);
                    auto& d = spi.added.back();
                    VF_CHECK(uint32_t(d.clock_speed_hz) == f, "wrong-frequency", "frequency requested %u, driver got %d", f, d.clock_speed_hz);
                    VF_CHECK(bool(d.flags & SPI_DEVICE_HALFDUPLEX) == !full, "wrong-duplex", "%s duplex requested, driver flags %x", full ? "full" : "half", d.flags);
                    VF_CHECK(c.max_transfer_sz > 0, "no-transfer-size", "bus set up with a largest transfer of %d", c.max_transfer_sz);
                    VF_CHECK(c.quadwp_io_num < 0 && c.quadhd_io_num < 0 && d.spics_io_num < 0, "pins-claimed", "pins nobody named are claimed: write protect %d, hold %d, chip select %d", c.quadwp_io_num, c.quadhd_io_num, d.spics_io_num);
                    VF_CHECK(d.mode == 0 && d.queue_size > 0 && !(d.flags & (SPI_DEVICE_TXBIT_LSBFIRST | SPI_DEVICE_RXBIT_LSBFIRST)), "wrong-mode", "SPI mode %u, queue of %d, flags %x: mode 0, most significant bit first is the configuration of both platforms", d.mode, d.queue_size, d.flags);
                    cov("configurations compared");
                }
                else if (k < 5)
                {   // a second initialisation is refused by the driver; what is set up stays usable
                    if (stuck || !r.chance(1, 3)) continue;
                    GpioPinDefinition x { 4 }, y { 5 }, z { 6 };
                    bool ok = bus.init(x, y, z, 1000000, SpiBus::DuplexMode::Half);
                    log += fmt("init again->%d ", ok);
                    VF_CHECK(spi.misuse == 0, "driver-misuse", "a second init used or freed a driver object that is not allocated [%s]", log.c_str());
                    VF_CHECK(spi.host[host].devices.size() == 1, "device-count", "after a second init %zu devices are attached [%s]", spi.host[host].devices.size(), log.c_str());
                    cov("second initialisations");
                }
                else if (k < 7)
                {
                    uint8_t data[5] = { 1, 2, 3, 4, 5 };
                    if (!ready) { if (bus.transfer(data, nullptr, 5)) fail("transfer-accepted", fmt("a transfer on a bus that is not set up reported success [%s]", log.c_str())); spi.misuse = 0; cov("transfers refused"); log += "transfer-unready "; continue; }
                    bool ok = bus.transfer(data, nullptr, 5);
                    VF_CHECK(ok || stuck, "transfer-refused", "a transfer on a ready bus failed [%s]", log.c_str());
                    log += "transfer ";
                }
                else if (k < 9)
                {
                    bool inject = (ready || stuck) && r.chance(1, 4);
                    if (inject) { simesp::faults.failAt = r.range(0, 1); simesp::faults.code = r.pick({ ESP_FAIL, ESP_ERR_NO_MEM, ESP_ERR_INVALID_STATE }); }
                    bool held = spi.host[host].up;
                    bool ok = bus.release();
                    bool faulted = simesp::faults.injected; simesp::clearFaults();
                    log += fmt("release%s->%d ", faulted ? "(fault)" : "", ok);
                    if (faulted)
                    {
                        VF_CHECK(!ok, "release-failure-hidden", "a driver call of release failed, success was reported [%s]", log.c_str());
                        VF_CHECK(spi.misuse == 0, "driver-misuse", "driver object misused [%s]", log.c_str());
                        // the driver kept the bus, perhaps the device as well; releasing again has to complete it
                        stuck = true; cov("failed releases");
                        ready = !spi.host[host].devices.empty();
                        continue;
                    }
                    VF_CHECK(ok, "release-refused", "release failed though the driver accepts everything [%s]", log.c_str());
                    if (held) { cov("releases"); nontrivial(); }
                    if (stuck) cov("releases completed after a failure");
                    ready = stuck = false;
                    balanced("after release");
                }
            }
            log += "destroy ";
            if (ready) { cov("destroyed while ready"); nontrivial(); }
        }
        if (stuck) { cov("destroyed after a failed release"); stuck = false; }   // the destructor calls release() once more, with a driver that accepts it
        balanced("after destruction");
        cov("destructions");
        sigAdd(log);
    }
    if (tracing()) trace("%s", log.c_str());
}
#else
void p02()
{
    auto& r = rng();
    sim::reset(r.next());
    SPIClass spi;
    uint32_t f = uint32_t(r.range(1, 80000000));
    SpiBus bus(spi, f);
    SpiDevice device(bus);
    int ops = historyLength(1, 8);
    for (int i = 0; i < ops; ++i)
    {
        uint16_t n = uint16_t(r.range(0, 40));
        uint8_t a[40] = {}, b[40];
        uint64_t begins = spi.begins, ends = spi.ends;
        int kind = int(r.range(0, 2));
        bool none = r.chance(1, 10);
        if (none) n = 0;        // empty, without any memory
        uint8_t* pa = none ? nullptr : a; uint8_t* pb = none ? nullptr : b;
        if (kind == 0) device.sendSync(pa, n); else if (kind == 1) device.receiveSync(pb, n); else device.sendAndReceive(pa, pb, n);
        if (none) cov("empty transfers without memory");
        if (n == 0 && spi.begins == begins && spi.ends == ends) continue;
        VF_CHECK(spi.begins == begins + 1 && spi.ends == ends + 1, "not-bracketed", "a transfer of %u bytes made %llu begins and %llu ends of a transaction", n, (unsigned long long)(spi.begins - begins), (unsigned long long)(spi.ends - ends));
        VF_CHECK(spi.open == 0 && spi.badEnd == 0 && spi.nested == 0 && spi.outside == 0, "not-bracketed", "transfer of %u bytes: transaction left open %d, ended while closed %llu, nested %llu, bytes outside %llu", n, spi.open, (unsigned long long)spi.badEnd, (unsigned long long)spi.nested, (unsigned long long)spi.outside);
        auto& s = spi.settings.back();
        VF_CHECK(s._clock == f && s._bitOrder == MSBFIRST && s._dataMode == SPI_MODE0, "wrong-settings", "transaction settings %u Hz, order %u, mode %u; configured %u Hz, MSB first, mode 0", s._clock, s._bitOrder, s._dataMode, f);
        cov("transactions"); if (n) nontrivial();
        sigAdd(uint64_t(n) << 2 | unsigned(kind));
    }
    trace("%d transfers at %u Hz", ops, f);
}
#endif

// ---------------------------------------------------------------- I2C
void i01()
{
    auto& r = rng();
    sim::reset(r.next());
#ifdef VF_ESP
    simesp::resetI2c(); simesp::clearFaults();
    int port = int(r.range(0, 1));
    embedded::I2CBus bus(port);
    auto& wire = simesp::i2c[port].wire;
    uint32_t maxWait = uint32_t(r.chance(1, 2) ? r.notable(0, 1000000) : r.pick({ 10, 50, 200, 1000, 60000 }));
#else
    TwoWire two;
    two.bufferLimit = size_t(r.pick({ 32, 128, 128, 700, 70000 }));
    embedded::I2CBus bus(two);
    auto& wire = two.wire;
    uint32_t maxWait = 200;
#endif
    wire.dataSeed = r.next();
    uint16_t addr = uint16_t(r.range(1, 127)), other = uint16_t(r.range(1, 127));
    const bool plain = r.chance(1, 8);          // the limit left out
    if (plain) { maxWait = 200; cov("limits left out"); }
    embedded::I2CDevice dev = plain ? embedded::I2CDevice(bus, addr) : embedded::I2CDevice(bus, addr, maxWait);
    int ops = historyLength(1, 8);
    for (int i = 0; i < ops; ++i)
    {
        wire.present.clear(); wire.acksUpTo.clear(); wire.hasBytes.clear(); wire.busFault = r.chance(1, 12);
        if (other != addr) wire.present.insert(other);
        if (!r.chance(1, 8)) wire.present.insert(addr);
        uint16_t tx = uint16_t(r.chance(1, 20) ? r.range(100, 600) : r.range(0, 40)), rx = uint16_t(r.chance(1, 20) ? r.range(100, 600) : r.range(1, 40));
        if (r.chance(1, 15)) { const auto n = uint16_t(r.chance(1, 6) ? r.range(600, 65535) : r.chance(1, 4) ? r.notable(1, 65535) : r.chance(1, 3) ? r.range(41, 1100) : r.pick({ 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1024 })); (r.chance(1, 2) ? tx : rx) = n; cov("transfers beyond 600 bytes", n > 600); }
        if (r.chance(1, 4)) wire.acksUpTo[addr] = size_t(r.range(0, tx));
        if (r.chance(1, 4)) wire.hasBytes[addr] = size_t(r.range(0, rx));
        Block t(tx, size_t(r.range(0, 3))), b(rx, size_t(r.range(0, 3)));
        fillRandom(t.data(), tx); memset(b.data(), 0x5A, rx);
        size_t canTx = tx;
#ifndef VF_ESP
        canTx = std::min<size_t>(tx, two.bufferLimit);
#endif
        bool sends = !wire.busFault && wire.present.count(addr) && (!wire.acksUpTo.count(addr) || wire.acksUpTo[addr] >= canTx) && canTx == tx;
        bool delivers = !wire.busFault && wire.present.count(addr) && (!wire.hasBytes.count(addr) || wire.hasBytes[addr] >= rx);
        size_t w0 = wire.writes.size(), r0 = wire.reads.size(); uint64_t d0 = wire.dataPos; wire.order.clear();
        int kind = int(r.range(0, 2));
        static const char* names[] = { "send", "receive", "send-then-receive" };
        note("%s %u/%u", names[kind], tx, rx);
        bool ok = kind == 0 ? dev.sendSync(t.data(), tx) : kind == 1 ? dev.receiveSync(b.data(), rx) : dev.sendThenReceive(t.data(), tx, b.data(), rx);
        bool expect = kind == 0 ? sends : kind == 1 ? delivers : sends && delivers;
        if (tracing()) trace("%s tx %u rx %u (%s%s%s) -> %d; ", names[kind], tx, rx, wire.present.count(addr) ? "present" : "absent", wire.acksUpTo.count(addr) ? ", short ack" : "", wire.hasBytes.count(addr) ? ", short data" : "", ok);
        VF_CHECK(t.leadIntact() && b.leadIntact(), "before-buffer", "memory in front of a buffer changed");
        VF_CHECK(ok == expect, ok ? "false-success" : "false-failure", "%s of %u/%u bytes reported %s; device %s, acknowledges %zu of %u, delivers %zu of %u%s", names[kind], tx, rx, ok ? "success" : "failure", wire.present.count(addr) ? "present" : "absent", wire.acksUpTo.count(addr) ? wire.acksUpTo[addr] : size_t(tx), tx, wire.hasBytes.count(addr) ? wire.hasBytes[addr] : size_t(rx), rx, wire.busFault ? ", bus fault" : "");
        if (kind != 1 && !wire.busFault)
        {
            VF_CHECK(wire.writes.size() == w0 + 1, "writes", "%s made %zu write transactions", names[kind], wire.writes.size() - w0);
            auto& e = wire.writes.back();
            VF_CHECK(e.addr == addr, "wrong-address", "%s to device %u addressed %u", names[kind], addr, e.addr);
            VF_CHECK(e.bytes.size() <= tx && std::equal(e.bytes.begin(), e.bytes.end(), t.data()), "sent-differs", "%s: the device got %s", names[kind], hex(e.bytes.data(), e.bytes.size()).c_str());
            if (ok) VF_CHECK(e.bytes.size() == tx && e.stop, "sent-incomplete", "success reported, the device got %zu of %u bytes%s", e.bytes.size(), tx, e.stop ? "" : " and no stop");
#ifdef VF_ESP
            VF_CHECK(e.ticks == maxWait / SIM_TICK_MS || e.ticks == (maxWait + SIM_TICK_MS - 1) / SIM_TICK_MS, "wrong-limit", "time limit of %u ms passed to the driver as %u ticks of %d ms", maxWait, e.ticks, SIM_TICK_MS);
#endif
        }
        bool mayRead = kind == 1 || (kind == 2 && sends);
        VF_CHECK((wire.reads.size() > r0) == mayRead, "receive-after-failed-send", "%s: %s", names[kind], mayRead ? "nothing was requested from the device" : "data was requested although sending had failed");
        if (mayRead)
        {
            VF_CHECK(wire.reads.size() == r0 + 1, "reads", "%s made %zu read transactions", names[kind], wire.reads.size() - r0);
            auto& e = wire.reads.back();
            VF_CHECK(e.addr == addr, "wrong-address", "%s from device %u addressed %u", names[kind], addr, e.addr);
            VF_CHECK(e.count == rx, "wrong-count", "%s of %u bytes requested %zu", names[kind], rx, e.count);
            if (ok) for (size_t j = 0; j < rx; ++j)
                VF_CHECK(b.data()[j] == wire.dataAt(d0 + j), "received-differs", "%s: byte %zu is %02x, the device sent %02x", names[kind], j, b.data()[j], wire.dataAt(d0 + j));
#ifdef VF_ESP
            VF_CHECK(e.ticks == maxWait / SIM_TICK_MS || e.ticks == (maxWait + SIM_TICK_MS - 1) / SIM_TICK_MS, "wrong-limit", "time limit of %u ms passed to the driver as %u ticks of %d ms", maxWait, e.ticks, SIM_TICK_MS);
#endif
            if (kind == 2) VF_CHECK(wire.order.size() >= 2 && wire.order[0] == 'w', "order", "received before sending");
        }
        cov("operations"); cov(names[kind]); cov(ok ? "successes" : "failures");
        if (kind == 2 && !sends) cov("sends failed before a receive");
        if (ok) nontrivial();
        sigAdd(uint64_t(kind) | uint64_t(tx) << 4 | uint64_t(rx) << 20 | uint64_t(ok) << 50);
    }
}

// ---------------------------------------------------------------- set-up
void h01()
{
    auto& r = rng();
    sim::reset(r.next());
#ifdef VF_ESP
    simesp::clearFaults(); simesp::pinSetup.clear(); simesp::resetI2c();
    for (auto& u: simesp::uartSetup) u = {};
    switch (r.range(0, 3))
    {
    case 0:
    {   // pins
        uint8_t pin = uint8_t(r.chance(1, 4) ? r.range(0, 255) : r.range(0, 45));
        GpioPinDefinition def { pin };
        embedded::GpioDigitalPin p(def);
        bool in = r.chance(1, 2); int pull = int(r.range(0, 2));
        bool inject = r.chance(1, 5); if (inject) simesp::faults.failAt = 0;
        bool ok = p.init(in ? embedded::GpioDigitalPin::Direction::Input : embedded::GpioDigitalPin::Direction::Output, embedded::GpioDigitalPin::PullMode(pull));
        bool failed = simesp::faults.injected; simesp::clearFaults();
        bool valid = GPIO_IS_VALID_GPIO(int(pin)) && (in || GPIO_IS_VALID_OUTPUT_GPIO(int(pin)));
        trace("pin %u %s pull %d%s -> %d", pin, in ? "in" : "out", pull, failed ? " (driver failure)" : "", ok);
        VF_CHECK(ok == (valid && !failed), ok ? "false-success" : "false-failure", "init of pin %u as %s reported %s (pin %s, driver %s)", pin, in ? "input" : "output", ok ? "success" : "failure", valid ? "usable" : "not usable", failed ? "failed" : "accepted");
        cov("pins"); if (!valid) cov("invalid pins"); if (failed) cov("driver failures");
        for (auto& [n, s]: simesp::pinSetup) VF_CHECK(n == pin, "other-pin", "init of pin %u configured pin %d", pin, n);
        if (ok)
        {
            VF_CHECK(simesp::pinSetup.count(pin), "not-configured", "init of pin %u reported success, the driver was not told", pin);
            auto& s = simesp::pinSetup[pin];
            VF_CHECK(s.mode == (in ? GPIO_MODE_INPUT : GPIO_MODE_OUTPUT) || (!in && s.mode == GPIO_MODE_INPUT_OUTPUT), "wrong-direction", "pin %u requested as %s got mode %d", pin, in ? "input" : "output", s.mode);
            using PM = embedded::GpioDigitalPin::PullMode;
            VF_CHECK(s.up == (PM(pull) == PM::Up) && s.down == (PM(pull) == PM::Down), "wrong-pull", "pin %u pull mode %d: driver got up %d down %d", pin, pull, s.up, s.down);
            nontrivial();
        }
        sigAdd(uint64_t(pin) << 8 | unsigned(pull) << 1 | in);
        break;
    }
    case 1:
    {   // UART
        using U = embedded::SimpleUartDevice;
        int n = int(r.range(0, 2)), rx = int(r.range(0, 39)), tx = int(r.range(0, 39)), baud = int(r.pick({ 300, 9600, 115200, 921600, 5000000 }));
        U::DataBits db = r.pick({ U::DataBits::Bits5, U::DataBits::Bits6, U::DataBits::Bits7, U::DataBits::Bits8 });
        U::ParityCheck pc = r.pick({ U::ParityCheck::None, U::ParityCheck::Even, U::ParityCheck::Odd });
        U::StopBits sb = r.pick({ U::StopBits::Bits1, U::StopBits::Bit1_5, U::StopBits::Bits2 });
        U::FlowControl fc = r.pick({ U::FlowControl::Disable, U::FlowControl::RTS, U::FlowControl::CTS, U::FlowControl::RTS_CTS });
        if (r.chance(1, 4)) simesp::faults.failAt = r.range(0, 2);
        bool ok = false, aborted = false;
        const int left = int(r.range(0, 9));     // trailing parameters may be left out
        if (left < 4) { fc = U::FlowControl::Disable; cov("parameters left out"); }
        if (left < 3) sb = U::StopBits::Bits1;
        if (left < 2) pc = U::ParityCheck::None;
        if (left < 1) db = U::DataBits::Bits8;
        try { ok = left == 0 ? U::init(n, rx, tx, baud) : left == 1 ? U::init(n, rx, tx, baud, db) : left == 2 ? U::init(n, rx, tx, baud, db, pc) : left == 3 ? U::init(n, rx, tx, baud, db, pc, sb) : U::init(n, rx, tx, baud, db, pc, sb, fc); } catch (const simesp::Abort&) { aborted = true; }
        bool failed = simesp::faults.injected; simesp::clearFaults();
        trace("uart %d rx %d tx %d %d baud%s -> %d%s", n, rx, tx, baud, failed ? " (driver failure)" : "", ok, aborted ? " aborted" : "");
        cov("UARTs");
        if (failed) { VF_CHECK(!ok || aborted, "false-success", "UART init reported success although the driver failed"); cov("driver failures"); return; }
        VF_CHECK(ok, "false-failure", "UART init failed although the driver accepts the settings");
        auto& s = simesp::uartSetup[n]; auto& c = s.config;
        VF_CHECK(s.configured && s.pinsSet && s.installed, "not-configured", "UART %d: configured %d, pins %d, driver %d", n, s.configured, s.pinsSet, s.installed);
        VF_CHECK(s.rx == rx && s.tx == tx, "wrong-pins", "UART pins rx %d tx %d requested, driver got rx %d tx %d", rx, tx, s.rx, s.tx);
        VF_CHECK(s.rts == UART_PIN_NO_CHANGE && s.cts == UART_PIN_NO_CHANGE, "wrong-pins", "UART flow control pins changed to %d/%d", s.rts, s.cts);
        VF_CHECK(c.baud_rate == baud, "wrong-rate", "baud rate %d requested, driver got %d", baud, c.baud_rate);
        static const int pcv[] = { 0, -1, 2, 3 };
        VF_CHECK(int(c.data_bits) == int(db) && int(c.stop_bits) == int(sb) && int(c.parity) == pcv[int(pc)], "wrong-framing", "framing %d/%d/%d requested, driver got %d/%d/%d", int(db), int(pc), int(sb), c.data_bits, c.parity, c.stop_bits);
        int fcv = fc == U::FlowControl::Disable ? UART_HW_FLOWCTRL_DISABLE : fc == U::FlowControl::RTS ? UART_HW_FLOWCTRL_RTS : fc == U::FlowControl::CTS ? UART_HW_FLOWCTRL_CTS : UART_HW_FLOWCTRL_CTS_RTS;
        VF_CHECK(int(c.flow_ctrl) == fcv, "wrong-flow-control", "flow control %d requested, driver got %d", int(fc), c.flow_ctrl);
        // a receiver that is to signal when it is full needs a level within its buffer of 128 bytes at which it does
        if (fc == U::FlowControl::RTS || fc == U::FlowControl::RTS_CTS) { VF_CHECK(c.rx_flow_ctrl_thresh > 0 && c.rx_flow_ctrl_thresh < 128, "wrong-flow-control", "flow control %d with a receive level of %d", int(fc), int(c.rx_flow_ctrl_thresh)); cov("flow control levels"); }
        for (int k = 0; k < 3; ++k) if (k != n) VF_CHECK(!simesp::uartSetup[k].configured && !simesp::uartSetup[k].installed && !simesp::uartSetup[k].pinsSet, "other-port", "init of UART %d touched UART %d", n, k);
        // an installed driver is left alone
        auto was = s.config;
        try { ok = U::init(n, tx, rx, 1200); } catch (const simesp::Abort&) { ok = false; }
        VF_CHECK(ok && s.installs == 1, "reinstall", "second init of an installed UART: reported %d, %d installations", ok, s.installs);
        (void)was;
        nontrivial(); sigAdd(uint64_t(n) | uint64_t(rx) << 4 | uint64_t(tx) << 12 | uint64_t(baud) << 20);
        break;
    }
    case 2:
    {   // I2C bus
        int n = int(r.range(0, 1)), sda = int(r.range(0, 39)), scl = int(r.range(0, 39)); uint32_t f = uint32_t(r.range(1000, 1000000)); bool ps = r.chance(1, 2), pc = r.chance(1, 2);
        if (r.chance(1, 4)) simesp::faults.failAt = r.range(0, 1);
        embedded::I2CBus bus(n);
        const int left = int(r.range(0, 5));     // trailing parameters may be left out
        if (left < 2) pc = true;
        if (left == 0) ps = true;
        bool ok = left == 0 ? bus.init(sda, scl, f) : left == 1 ? bus.init(sda, scl, f, ps) : bus.init(sda, scl, f, ps, pc);
        if (left < 2) cov("parameters left out");
        bool failed = simesp::faults.injected; simesp::clearFaults();
        trace("i2c %d sda %d scl %d %u Hz%s -> %d", n, sda, scl, f, failed ? " (driver failure)" : "", ok);
        cov("I2C buses");
        VF_CHECK(ok == !failed, ok ? "false-success" : "false-failure", "I2C init reported %d, driver %s", ok, failed ? "failed" : "accepted");
        if (failed) { cov("driver failures"); return; }
        auto& p = simesp::i2c[n]; auto& c = p.config;
        VF_CHECK(p.configured && p.installed && p.mode == I2C_MODE_MASTER && c.mode == I2C_MODE_MASTER, "not-configured", "I2C %d: configured %d installed %d mode %d/%d", n, p.configured, p.installed, p.mode, c.mode);
        VF_CHECK(c.sda_io_num == sda && c.scl_io_num == scl, "wrong-pins", "I2C pins %d/%d requested, driver got %d/%d", sda, scl, c.sda_io_num, c.scl_io_num);
        VF_CHECK(c.master.clk_speed == f, "wrong-rate", "I2C frequency %u requested, driver got %u", f, c.master.clk_speed);
        VF_CHECK(c.sda_pullup_en == ps && c.scl_pullup_en == pc, "wrong-pull", "I2C pull-ups %d/%d requested, driver got %d/%d", ps, pc, c.sda_pullup_en, c.scl_pullup_en);
        VF_CHECK(!simesp::i2c[1 - n].configured && !simesp::i2c[1 - n].installed, "other-port", "init of bus %d touched the other", n);
        nontrivial(); sigAdd(uint64_t(n) | uint64_t(sda) << 4 | uint64_t(scl) << 12 | uint64_t(f) << 20);
        break;
    }
    default:
    {   // probe and reset
        int n = int(r.range(0, 1));
        embedded::I2CBus bus(n);
        auto& wire = simesp::i2c[n].wire;
        for (int i = 0; i < 5; ++i) wire.present.insert(uint32_t(r.range(1, 127)));
        for (int i = 0; i < 8; ++i)
        {
            uint8_t a = r.chance(1, 2) ? uint8_t(*std::next(wire.present.begin(), r.range(0, int64_t(wire.present.size()) - 1))) : uint8_t(r.range(1, 127));
            bool inject = r.chance(1, 6); if (inject) simesp::faults.failAt = 0;
            size_t w0 = wire.writes.size();
            bool ok = bus.testAddress(a);
            bool failed = simesp::faults.injected; simesp::clearFaults();
            VF_CHECK(ok == (wire.present.count(a) && !failed), ok ? "false-success" : "false-failure", "probe of address %u reported %d; device %s%s", a, ok, wire.present.count(a) ? "present" : "absent", failed ? ", driver failed" : "");
            if (!failed) VF_CHECK(wire.writes.size() == w0 + 1 && wire.writes.back().addr == a && wire.writes.back().bytes.empty(), "wrong-address", "probe of address %u: driver saw %zu transactions, last to %u with %zu bytes", a, wire.writes.size() - w0, wire.writes.size() ? wire.writes.back().addr : 0, wire.writes.size() ? wire.writes.back().bytes.size() : 0);
            VF_CHECK(simesp::links.empty(), "link-leaked", "a probe left %zu command link(s) allocated", simesp::links.size());
            VF_CHECK(simesp::linkMisuse == 0, "driver-misuse", "a command link was used or freed that is not allocated");
            cov("probes"); cov(ok ? "probes answered" : "probes unanswered"); if (failed) cov("driver failures");
            sigAdd(a);
        }
        wire.present.insert(0);
        size_t w0 = wire.writes.size();
        bus.resetBus();
        VF_CHECK(wire.writes.size() == w0 + 1 && wire.writes.back().addr == 0 && wire.writes.back().bytes == std::vector<uint8_t> { 6 }, "wrong-reset", "bus reset put something else on the bus than 06 to the general call address");
        VF_CHECK(simesp::links.empty(), "link-leaked", "reset left command links allocated");
        cov("bus resets"); nontrivial();
        trace("probes and reset on bus %d", n);
    }
    }
#else
    if (r.chance(1, 6))
    {
        TwoWire two; embedded::I2CBus bus(two);
        two.wire.present.insert(0);
        bus.resetBus();
        VF_CHECK(two.wire.writes.size() == 1 && two.wire.writes[0].addr == 0 && two.wire.writes[0].bytes == std::vector<uint8_t> { 6 } && two.wire.writes[0].stop, "wrong-reset", "bus reset put something else on the bus than 06 to the general call address");
        cov("bus resets"); nontrivial(); sigAdd(1);
        return;
    }
    uint8_t pin = r.byte();
    GpioPinDefinition def { pin };
    embedded::GpioDigitalPin p(def);
    bool in = r.chance(1, 2); int pull = int(r.range(0, 2));
    bool ok = p.init(in ? embedded::GpioDigitalPin::Direction::Input : embedded::GpioDigitalPin::Direction::Output, embedded::GpioDigitalPin::PullMode(pull));
    using PM = embedded::GpioDigitalPin::PullMode;
    int want = (in ? INPUT : OUTPUT) | (PM(pull) == PM::Up ? PULLUP : PM(pull) == PM::Down ? PULLDOWN : 0);
    trace("pin %u %s pull %d -> mode %d", pin, in ? "in" : "out", pull, sim::w().pin[pin].mode);
    VF_CHECK(ok, "false-failure", "init of pin %u failed", pin);
    for (int k = 0; k < 256; ++k) if (k != pin) VF_CHECK(sim::w().pin[k].mode == -1, "other-pin", "init of pin %u configured pin %d", pin, k);
    VF_CHECK(sim::w().pin[pin].mode == want, "wrong-mode", "pin %u as %s with pull %d: driver got mode %d, expected %d", pin, in ? "input" : "output", pull, sim::w().pin[pin].mode, want);
    cov("pins"); nontrivial(); sigAdd(uint64_t(pin) << 8 | unsigned(pull) << 1 | in);
#endif
}

// ---------------------------------------------------------------- devices sharing a bus
// Every simulated slave notes what it is sent while its chip select is low and answers with its own bytes.
struct Stop {};
struct Slave
{
    int bus = 0, pin = 0;
    uint32_t frequency = 0;
    uint64_t seed = 1, given = 0;
    std::vector<int> got;              // -1: a byte was clocked while the master only received
    uint8_t next() { return at(given++); }
    uint8_t at(uint64_t i) const { return uint8_t(mix(seed ^ i * 131) >> 17); }
};
#ifdef VF_ESP
struct SpiSide
{
    SpiBus bus;
    bool full;
    explicit SpiSide(int host) : bus(host) {}
};
#endif
void p03spi()
{
    auto& r = rng();
    auto& w = sim::w();
    int nbus = int(r.range(1, 2)), ndev = int(r.range(2, 6));
    std::vector<Slave> slaves { size_t(ndev) };
    std::vector<GpioPinDefinition> defs { size_t(ndev) };
    std::set<int> used;
    std::string trouble;
#ifdef VF_ESP
    simesp::resetSpi(); simesp::clearFaults();
    std::vector<std::unique_ptr<SpiSide>> sides;
    for (int b = 0; b < nbus; ++b) sides.push_back(std::make_unique<SpiSide>(1 + b));
    SpiPins pins;
    for (auto& s: sides) { s->full = r.chance(1, 2); VF_CHECK(s->bus.init(pins.sck, pins.miso, pins.mosi, uint32_t(r.range(1, 40000000)), s->full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half), "init-failed", "bus initialisation failed without a fault"); }
    auto wire = [](int b) -> sim::SpiWire& { return simesp::spi.wire[1 + b]; };
#else
    std::vector<std::unique_ptr<SPIClass>> spis;
    for (int b = 0; b < nbus; ++b) spis.push_back(std::make_unique<SPIClass>());
    auto wire = [&](int b) -> sim::SpiWire& { return spis[size_t(b)]->wire; };
    std::vector<std::unique_ptr<SpiBus>> buses;    // one per device, or shared by devices of the same speed
#endif
    std::vector<SpiBus*> busOf; std::vector<std::unique_ptr<embedded::GpioDigitalPin>> cs; std::vector<std::unique_ptr<SpiDevice>> devs;
    for (int i = 0; i < ndev; ++i)
    {
        auto& s = slaves[size_t(i)];
        do s.pin = r.pick({ 0, 1, 2, 3, 4, 5, 12, 13, 14, 15, 16, 17, 21, 22, 25, 26, 27, 32, 33 }); while (!used.insert(s.pin).second);
        s.bus = int(r.range(0, nbus - 1)); s.seed = r.next(); defs[size_t(i)].pin = uint8_t(s.pin);
#ifdef VF_ESP
        busOf.push_back(&sides[size_t(s.bus)]->bus);
#else
        int same = -1;
        for (int j = 0; j < i; ++j) if (slaves[size_t(j)].bus == s.bus) same = j;
        if (same >= 0 && r.chance(1, 3)) { busOf.push_back(busOf[size_t(same)]); s.frequency = slaves[size_t(same)].frequency; cov("bus objects shared"); }
        else { s.frequency = uint32_t(r.range(1, 80000000)); buses.push_back(std::make_unique<SpiBus>(*spis[size_t(s.bus)], s.frequency)); busOf.push_back(buses.back().get()); }
#endif
        cs.push_back(std::make_unique<embedded::GpioDigitalPin>(defs[size_t(i)]));
        devs.push_back(std::make_unique<SpiDevice>(*busOf.back()));
        VF_CHECK(cs.back()->init(), "pin-failed", "set-up of pin %d failed", s.pin);
        cs.back()->set();
    }
    for (int b = 0; b < nbus; ++b)
        wire(b).slave = [&, b](int out) -> uint8_t {
            uint8_t in = 0xFF; int selected = 0;
            for (auto& s: slaves)
                if (s.bus == b && w.pin[s.pin].level == 0)
                {
                    ++selected; in &= s.next(); s.got.push_back(out);
#ifndef VF_ESP
                    auto& m = *spis[size_t(b)];
                    if (m.open != 1 || m.active._clock != s.frequency || m.active._bitOrder != MSBFIRST || m.active._dataMode != SPI_MODE0)
                        if (trouble.empty()) trouble = fmt("a byte reached the device on pin %d at %u Hz, order %u, mode %u, %d transactions open; it is to be used at %u Hz, MSB first, mode 0", s.pin, m.active._clock, m.active._bitOrder, m.active._dataMode, m.open, s.frequency);
#endif
                }
            if (selected != 1 && trouble.empty()) trouble = fmt("a byte was clocked on bus %d with %d selected devices", b, selected);
            cov("bytes clocked");
            return in;
        };
    std::vector<std::vector<int>> expect { size_t(ndev) };      // what each slave must have been sent
    std::set<int> busy;                                          // buses with a selected device
    auto everything = [&](const char* when) {
        VF_CHECK(trouble.empty(), "bus-conflict", "%s: %s", when, trouble.c_str());
        for (int i = 0; i < ndev; ++i)
        {
            auto& s = slaves[size_t(i)]; auto& e = expect[size_t(i)];
            VF_CHECK(s.got.size() == e.size(), "wrong-device", "%s: the device on pin %d was clocked %zu bytes, its own transfers make %zu", when, s.pin, s.got.size(), e.size());
            size_t at = size_t(std::mismatch(e.begin(), e.end(), s.got.begin()).first - e.begin());
            VF_CHECK(at == e.size(), "sent-differs", "%s: byte %zu the device on pin %d was sent is %d, expected %d", when, at, s.pin, s.got[at], e[at]);
        }
    };
    std::function<void(int)> session = [&](int depth) {
        std::vector<int> free;
        for (int i = 0; i < ndev; ++i) if (!busy.count(slaves[size_t(i)].bus)) free.push_back(i);
        if (free.empty()) return;
        int i = r.pick(free);
        auto& s = slaves[size_t(i)];
        struct Busy { std::set<int>& b; int v; Busy(std::set<int>& x, int y) : b(x), v(y) { b.insert(v); } ~Busy() { b.erase(v); } } guard(busy, s.bus);
        embedded::ChipSelector selector(*cs[size_t(i)]);
        int ops = int(r.range(1, 4));
        for (int k = 0; k < ops; ++k)
        {
            uint16_t n = r.chance(1, 8) ? pickLength() : uint16_t(r.range(0, 70));
            int kind = int(r.range(0, 2));
            bool fault = false;
#ifdef VF_ESP
            bool full = sides[size_t(s.bus)]->full;
            if (full && kind == 1) kind = 2;
            if (!full && kind == 2) kind = int(r.range(0, 1));
            simesp::clearFaults();
            if (r.chance(1, 8)) { simesp::faults.failAt = r.range(0, 2); simesp::faults.code = r.pick({ ESP_FAIL, ESP_ERR_TIMEOUT }); }
#endif
            Block tx(n, size_t(r.range(0, 3))), rx(n, size_t(r.range(0, 3)));
            fillRandom(tx.data(), n); fillRandom(rx.data(), n);
            uint64_t given = s.given; size_t had = s.got.size();
            auto& d = *devs[size_t(i)];
            bool ok = kind == 0 ? d.sendSync(tx.data(), n) : kind == 1 ? d.receiveSync(rx.data(), n) : d.sendAndReceive(tx.data(), rx.data(), n);
#ifdef VF_ESP
            fault = simesp::faults.injected > 0; simesp::clearFaults();
#endif
            if (tracing()) trace("device %d(bus %d) %s %u%s; ", i, s.bus, kind == 0 ? "send" : kind == 1 ? "receive" : "exchange", n, fault ? " (driver failure)" : "");
            VF_CHECK(ok == !fault, ok ? "false-success" : "false-failure", "a transfer of %u bytes reported %d, the driver %s", n, ok, fault ? "failed" : "accepted");
            auto& e = expect[size_t(i)];
            size_t made = fault ? std::min<size_t>(s.got.size() - had, n) : n;      // an interrupted transfer may have begun
            for (size_t j = 0; j < made; ++j) e.push_back(kind == 1 ? (s.got.size() > had + j ? s.got[had + j] : -1) : tx.data()[j]);
            everything("after a transfer");
            if (kind != 0 && !fault) for (size_t j = 0; j < n; ++j) VF_CHECK(rx.data()[j] == s.at(given + j), "received-differs", "byte %zu of %u received from the device on pin %d is %02x, it sent %02x", j, n, s.pin, rx.data()[j], s.at(given + j));
            cov("transfers"); if (fault) cov("driver failures"); if (n) nontrivial();
            sigAdd(uint64_t(i) << 20 | uint64_t(kind) << 16 | n);
            if (depth > 0 && nbus > 1 && r.chance(1, 4)) { session(depth - 1); cov("sessions within a session of another bus"); everything("after a session on another bus"); }
            if (r.chance(1, 12)) { cov("sessions left by exception"); throw Stop {}; }
        }
        cov("sessions");
    };
    int sessions = int(r.range(2, 8));
    for (int k = 0; k < sessions; ++k)
    {
        try { session(1); } catch (const Stop&) {}
        for (auto& s: slaves) VF_CHECK(w.pin[s.pin].level == 1, "stays-selected", "after a session the device on pin %d is still selected", s.pin);
        everything("after a session");
#ifdef VF_ESP
        if (nbus > 1 && r.chance(1, 6))
        {   // one bus is set up anew, the other one goes on
            auto& b = sides[size_t(r.range(0, 1))];
            VF_CHECK(b->bus.release(), "release-refused", "release of an idle bus failed");
            b->full = r.chance(1, 2);
            VF_CHECK(b->bus.init(pins.sck, pins.miso, pins.mosi, 1000000, b->full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half), "init-failed", "a released bus could not be set up again");
            cov("buses set up again");
        }
#endif
    }
    for (int b = 0; b < nbus; ++b) wire(b).slave = {};
}
void p03i2c()
{
    auto& r = rng();
    int nbus = int(r.range(1, 2)), ndev = int(r.range(2, 6));
    struct Dev { int bus; uint16_t addr; uint32_t wait; };
    std::vector<Dev> dev;
#ifdef VF_ESP
    simesp::resetI2c(); simesp::clearFaults();
    std::vector<embedded::I2CBus> buses; for (int b = 0; b < nbus; ++b) buses.emplace_back(b);
    auto wire = [](int b) -> sim::I2cWire& { return simesp::i2c[b].wire; };
#else
    std::vector<std::unique_ptr<TwoWire>> two; for (int b = 0; b < nbus; ++b) two.push_back(std::make_unique<TwoWire>());
    std::vector<embedded::I2CBus> buses; for (auto& t: two) buses.emplace_back(*t);
    auto wire = [&](int b) -> sim::I2cWire& { return two[size_t(b)]->wire; };
#endif
    for (int b = 0; b < nbus; ++b) wire(b).dataSeed = r.next();
    std::vector<std::unique_ptr<embedded::I2CDevice>> devs;
    for (int i = 0; i < ndev; ++i)
    {
        Dev d { int(r.range(0, nbus - 1)), uint16_t(r.chance(1, 2) ? r.range(0x20, 0x23) : r.range(1, 127)), uint32_t(r.pick({ 10, 50, 200, 1000, 60000 })) };
        dev.push_back(d);
        devs.push_back(std::make_unique<embedded::I2CDevice>(buses[size_t(d.bus)], d.addr, d.wait));
        if (!r.chance(1, 5)) wire(d.bus).present.insert(d.addr);
    }
    int ops = historyLength(3, 14);
    for (int k = 0; k < ops; ++k)
    {
        int i = int(r.range(0, ndev - 1)); auto& d = dev[size_t(i)]; auto& x = wire(d.bus);
        size_t w0[2] = {}, r0[2] = {};
        for (int b = 0; b < nbus; ++b) { w0[b] = wire(b).writes.size(); r0[b] = wire(b).reads.size(); }
        uint64_t d0 = x.dataPos;
        uint16_t tx = uint16_t(r.range(1, 30)), rx = uint16_t(r.range(1, 30));
        Block t(tx), b(rx); fillRandom(t.data(), tx); memset(b.data(), 0x5A, rx);
        int kind = int(r.range(0, 2));
        bool present = x.present.count(d.addr), ok = kind == 0 ? devs[size_t(i)]->sendSync(t.data(), tx) : kind == 1 ? devs[size_t(i)]->receiveSync(b.data(), rx) : devs[size_t(i)]->sendThenReceive(t.data(), tx, b.data(), rx);
        if (tracing()) trace("device %d(bus %d address %u) kind %d -> %d; ", i, d.bus, d.addr, kind, ok);
        VF_CHECK(ok == present, ok ? "false-success" : "false-failure", "operation with device %u of bus %d reported %d; the device is %s", d.addr, d.bus, ok, present ? "present" : "absent");
        bool writes = kind != 1, reads = kind == 1 || (kind == 2 && present);
        for (int o = 0; o < nbus; ++o)
            VF_CHECK(wire(o).writes.size() - w0[o] == size_t(o == d.bus && writes) && wire(o).reads.size() - r0[o] == size_t(o == d.bus && reads), "wrong-bus", "operation with a device of bus %d: bus %d saw %zu write and %zu read transactions", d.bus, o, wire(o).writes.size() - w0[o], wire(o).reads.size() - r0[o]);
        if (writes)
        {
            auto& e = x.writes.back();
            VF_CHECK(e.addr == d.addr, "wrong-device", "data for device %u was sent to %u", d.addr, e.addr);
            if (ok) VF_CHECK(e.bytes == std::vector<uint8_t>(t.data(), t.data() + tx), "sent-differs", "device %u got %s", d.addr, hex(e.bytes.data(), e.bytes.size()).c_str());
#ifdef VF_ESP
            VF_CHECK(e.ticks == d.wait / SIM_TICK_MS || e.ticks == (d.wait + SIM_TICK_MS - 1) / SIM_TICK_MS, "wrong-limit", "time limit of device %u is %u ms, the driver got %u ticks of %d ms", d.addr, d.wait, e.ticks, SIM_TICK_MS);
#endif
        }
        if (reads)
        {
            auto& e = x.reads.back();
            VF_CHECK(e.addr == d.addr && e.count == rx, "wrong-device", "%u bytes of device %u: %zu bytes were requested from %u", rx, d.addr, e.count, e.addr);
            if (ok) for (size_t j = 0; j < rx; ++j) VF_CHECK(b.data()[j] == x.dataAt(d0 + j), "received-differs", "byte %zu of device %u is %02x, it sent %02x", j, d.addr, b.data()[j], x.dataAt(d0 + j));
#ifdef VF_ESP
            VF_CHECK(e.ticks == d.wait / SIM_TICK_MS || e.ticks == (d.wait + SIM_TICK_MS - 1) / SIM_TICK_MS, "wrong-limit", "time limit of device %u is %u ms, the driver got %u ticks of %d ms", d.addr, d.wait, e.ticks, SIM_TICK_MS);
#endif
        }
        cov("I2C operations"); if (ok) nontrivial();
        sigAdd(uint64_t(d.addr) << 40 | uint64_t(kind) << 32 | uint64_t(tx) << 8 | rx);
    }
}
void p03()
{
    sim::reset(rng().next());
    if (rng().chance(1, 3)) p03i2c(); else p03spi();
}

// ---------------------------------------------------------------- pins
struct Pins
{
    std::map<int, int> level;          // expected level of every pin ever driven
    std::vector<std::unique_ptr<GpioPinDefinition>> defs;
    std::vector<embedded::GpioDigitalPin> pins;
    std::vector<int> num;
    std::set<size_t> selected;

    void compare(const char* what)
    {
        auto& w = sim::w();
        for (int k = 0; k < 256; ++k)
        {
            int want = level.count(k) ? level[k] : -1;
            VF_CHECK(w.pin[k].level == want, "wrong-level", "after %s pin %d is %d, expected %d", what, k, w.pin[k].level, want);
        }
    }
    struct Guarded // destroyed after the selector: from then on the pin is to be high
    {
        Pins& p; size_t i;
        ~Guarded() { p.level[p.num[i]] = 1; p.selected.erase(i); }
    };
    void nest(int depth)
    {
        auto& r = rng();
        std::vector<size_t> open;
        for (size_t k = 0; k < pins.size(); ++k) if (!selected.count(k)) open.push_back(k);
        if (open.empty()) return;
        size_t i = r.pick(open);
        {
            Guarded g { *this, i };
            selected.insert(i);
            embedded::ChipSelector cs(pins[i]);
            level[num[i]] = 0;
            compare("selecting");
            cov("selections");
            if (tracing()) trace("select %d; ", num[i]);
            if (depth > 0 && r.chance(1, 2)) { nest(depth - 1); compare("inner selection"); }
            if (r.chance(1, 3)) { cov("left by exception"); trace("throw; "); throw Stop {}; }
            compare("work while selected");
        }
        if (tracing()) trace("deselect %d; ", num[i]);
        compare("deselecting");
    }
};
void d01()
{
    auto& r = rng();
    sim::reset(r.next());
#ifdef VF_ESP
    simesp::clearFaults();
#endif
    auto& w = sim::w();
    Pins p;
    int n = int(r.range(1, 5));
    std::set<int> used;
    while (int(used.size()) < n) used.insert(int(r.chance(1, 3) ? r.range(0, 255) : r.range(0, 45)));
    for (int k: used) { p.defs.push_back(std::make_unique<GpioPinDefinition>(GpioPinDefinition { uint8_t(k) })); p.pins.emplace_back(*p.defs.back()); p.num.push_back(k); }
    int ops = historyLength(1, 12);
    for (int k = 0; k < ops; ++k)
    {
        size_t i = size_t(r.range(0, n - 1));
        auto& pin = p.pins[i]; int number = p.num[i];
        sigAdd(uint64_t(number));
        switch (r.range(0, 5))
        {
        case 0: pin.set(); p.level[number] = 1; cov("sets"); break;
        case 1: pin.reset(); p.level[number] = 0; cov("resets"); break;
        case 2: { bool v = r.chance(1, 2); pin.set(v); p.level[number] = v; cov("set(level)"); break; }
        case 3:
            for (int j: p.num) w.pin[j].input = int(r.range(0, 1));
            for (size_t j = 0; j < p.pins.size(); ++j)
            {
                bool got = p.pins[j].check();
                VF_CHECK(got == (w.pin[p.num[j]].input != 0), "wrong-reading", "pin %d reads %d, its input is %d", p.num[j], got, w.pin[p.num[j]].input);
            }
            cov("reads"); break;
        default:
            try { p.nest(int(r.range(0, 3))); } catch (const Stop&) {}
            nontrivial();
        }
        p.compare("an operation");
    }
}

// ---------------------------------------------------------------- converters
void a01()
{
    auto& r = rng();
    sim::reset(r.next());
    auto& w = sim::w();
#ifdef VF_ESP
    simesp::resetAdc(); simesp::clearFaults();
    auto& adc = simesp::adc;
    int foreign = r.chance(1, 6) ? int(r.range(0, 1)) : -1;      // another user holds this unit
    adc_oneshot_unit_handle_t held = nullptr;
    if (foreign >= 0)
    {
        adc_oneshot_unit_init_cfg_t c { adc_unit_t(foreign), ADC_RTC_CLK_SRC_DEFAULT, ADC_ULP_MODE_DISABLE };
        adc_oneshot_new_unit(&c, &held);
    }
#endif
    int reads = historyLength(1, 20);
    for (int i = 0; i < reads; ++i)
    {
        uint8_t pin = uint8_t(r.chance(1, 6) ? r.range(0, 255) : r.range(0, 42));
        GpioPinDefinition def { pin };
        embedded::AnalogPin a(def);
#ifdef VF_ESP
        for (auto& u: adc.value) for (auto& v: u) v = int(r.range(0, 4095));
        int unit = -1, channel = -1;
        for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u) for (int c = 0; c < SOC_ADC_MAX_CHANNEL_NUM; ++c) if (adc_channel_io_map[u][c] == pin) { unit = u; channel = c; }
        simesp::clearFaults();
        if (r.chance(1, 4)) { simesp::faults.failAt = r.range(0, 2); simesp::faults.code = r.pick({ ESP_FAIL, ESP_ERR_TIMEOUT, ESP_ERR_INVALID_STATE }); }
        int got = a.singleRead();
        bool failed = simesp::faults.injected; simesp::clearFaults();
        int want = unit < 0 || failed || unit == foreign ? -1 : adc.value[unit][channel];
        if (tracing()) trace("pin %u%s -> %d; ", pin, failed ? " (driver failure)" : "", got);
        VF_CHECK(got == want, "wrong-value", "read %d of pin %u (unit %d channel %d%s%s) gave %d, expected %d", i, pin, unit, channel, failed ? ", driver failed" : "", unit >= 0 && unit == foreign ? ", unit held by another user" : "", got, want);
        for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u)
            VF_CHECK((adc.claimed[u] != nullptr) == (u == foreign), u == foreign ? "foreign-unit-freed" : "unit-stays-claimed", "after reading pin %u converter unit %d is %s", pin, u, adc.claimed[u] ? "still claimed" : "gone though another user holds it");
        VF_CHECK(adc.misuse == 0, "driver-misuse", "a converter unit was used or freed that is not claimed");
        cov("reads"); if (unit < 0) cov("pins without a channel"); if (failed) cov("driver failures"); if (unit >= 0 && unit == foreign) cov("units held by others");
        if (want >= 0) { nontrivial(); cov("values compared"); }
        sigAdd(uint64_t(pin) << 16 | uint64_t(uint16_t(got)));
#else
        for (auto& p: w.pin) p.analog = int(r.range(0, 4095));
        int got = a.singleRead();
        if (tracing()) trace("pin %u -> %d; ", pin, got);
        VF_CHECK(got == w.pin[pin].analog, "wrong-value", "pin %u reads %d, its value is %d", pin, got, w.pin[pin].analog);
        cov("reads"); cov("values compared"); nontrivial(); sigAdd(uint64_t(pin) << 16 | uint64_t(uint16_t(got)));
#endif
    }
    (void)w;
}

// ---------------------------------------------------------------- time
void l01()
{
    auto& r = rng();
    sim::reset(r.next());
    auto& w = sim::w();
#ifdef VF_ESP
    simesp::sleep = {}; simesp::clearFaults();
    const uint64_t tick = SIM_TICK_MS * 1000;
    int kind = int(r.range(0, 5));
#else
    const uint64_t tick = 0;
    int kind = int(r.range(0, 3));
#endif
    w.cost = uint64_t(r.pick({ 1, 2, 10, 100, 700 }));
    uint32_t ms = uint32_t(r.chance(1, 12) ? r.pick({ 4294966, 4294967, 4294968, 5000000, 86400000, 2147483647 }) : r.chance(1, 3) ? r.range(0, 30) : r.chance(1, 3) ? r.notable(0, 200000) : r.range(0, 20000));
    switch (r.range(0, 6))
    {
    case 0: w.us = uint64_t(r.range(0, 100000)); break;
    case 1: case 2: case 3: w.us = ((uint64_t(r.range(1, 3)) << 32) - uint64_t(r.range(0, int64_t(std::min<uint32_t>(ms, 1000000)) + 30))) * 1000 + uint64_t(r.range(0, 999)); break;
    case 4: w.us = (uint64_t(r.range(1, 300)) << 32) - uint64_t(r.range(0, 200000)); break;
    default: w.us = r.next() % (1ull << 44);
    }
    if (r.chance(1, 2)) { w.preemptOneIn = int(r.range(2, 20)); w.preemptMax = uint64_t(r.pick({ 500, 3000, 20000, 200000 })); }
    uint64_t t0 = w.us, wanted = uint64_t(ms) * 1000;
    auto judge = [&](const char* what, uint64_t tolerance, uint64_t slack)
    {
        uint64_t spent = w.us - t0;
        w.deadline = UINT64_MAX;
        if (tracing()) trace("%s of %llu us at %llu us took %llu us (%llu preempted)", what, (unsigned long long)wanted, (unsigned long long)t0, (unsigned long long)spent, (unsigned long long)w.preempted);
        VF_CHECK(spent + tolerance >= wanted, "too-short", "%s of %llu us returned after %llu us (clock at call: %llu us)", what, (unsigned long long)wanted, (unsigned long long)spent, (unsigned long long)t0);
        VF_CHECK(spent <= wanted + slack + w.preempted, "too-long", "%s of %llu us returned after %llu us, of which it was preempted for %llu (clock at call: %llu us)", what, (unsigned long long)wanted, (unsigned long long)spent, (unsigned long long)w.preempted, (unsigned long long)t0);
        if (t0 / 1000 >> 32 != w.us / 1000 >> 32) cov("across the millisecond roll-over");
        if (w.preempted) cov("preempted");
        if (wanted) nontrivial();
        sigAdd(wanted ^ t0 << 1);
    };
    auto arm = [&](uint64_t extra) { w.deadline = t0 + wanted + extra + (w.preemptOneIn ? wanted : 0) + 20000000; };
    switch (kind)
    {
    case 0:
        arm(0);
        embedded::delay(ms);
        judge("delay", tick, tick + 5 * w.cost + 2000); cov("delays");
        break;
    case 1:
    {
        uint32_t us = uint32_t(r.chance(1, 3) ? r.notable(0, 70000) : r.chance(1, 4) ? r.range(0, 40) : r.range(0, int64_t(w.cost) * 3000));
        if (r.chance(1, 20))
        {   // up to 67 minutes
            // (not up to the last microseconds of 32 bits: a wait on a 32-bit counter needs room for one reading)
            us = r.chance(1, 2) ? uint32_t(r.next()) : uint32_t(r.pick<int64_t>({ 0x7fffffff, 0x80000000, 0x80000001, 0xe0000000, 65535, 65536, 1000000, 16777216 }));
            us = std::min(us, 0xf0000000u);
            w.cost = std::max<uint64_t>(w.cost, us / 2000); cov("long microsecond delays");
        }
        wanted = us; arm(0);
        if (w.preemptOneIn) w.preemptOneIn *= 20;
        embedded::delayMicroseconds(us);
        judge("microsecond delay", 0, 5 * w.cost + 100); cov("microsecond delays");
        break;
    }
    case 2:
        for (int i = 0; i < 8; ++i)
        {
            uint64_t lo = w.us; uint32_t v = embedded::getMillisecondTicks(); uint64_t hi = w.us;
            VF_CHECK(uint32_t(v - uint32_t(lo / 1000)) <= hi / 1000 - lo / 1000, "wrong-ticks", "the millisecond clock reads %u between %llu and %llu us", v, (unsigned long long)lo, (unsigned long long)hi);
            w.us += r.next() % 5000; cov("millisecond readings"); sigAdd(v);
        }
        nontrivial();
        break;
    case 3:
        for (int i = 0; i < 8; ++i)
        {
            uint64_t lo = w.us; uint64_t v = embedded::getMicrosecondTicks(); uint64_t hi = w.us;
#ifdef VF_ESP
            bool ok = v >= lo && v <= hi;
#else
            bool ok = uint32_t(uint32_t(v) - uint32_t(lo)) <= hi - lo;     // the platform's counter has 32 bits
#endif
            VF_CHECK(ok, "wrong-ticks", "the microsecond clock reads %llu between %llu and %llu us", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi);
            w.us += r.next() % 5000; cov("microsecond readings"); sigAdd(v);
        }
        nontrivial();
        break;
#ifdef VF_ESP
    case 4:
        if (r.chance(1, 2)) simesp::sleep.refuseOneIn = int(r.range(1, 4));
        if (r.chance(1, 2)) simesp::sleep.earlyOneIn = int(r.range(1, 4));
        if (simesp::sleep.earlyOneIn == 1) simesp::sleep.earlyOneIn = 2;
        arm(0);
        embedded::ligntSleep(ms);
        judge("light sleep", std::max<uint64_t>(1000, tick), tick + 3000 + 40 * w.cost); cov("light sleeps");
        if (simesp::sleep.refused) cov("refused sleeps"); if (simesp::sleep.early) cov("early wake-ups");
        break;
    case 5:
        if (r.chance(1, 3)) ms = uint32_t(r.interesting64());
        embedded::deepSleep(ms);
        VF_CHECK(simesp::sleep.deeps == 1 && simesp::sleep.deepUs == uint64_t(ms) * 1000, "wrong-wake-up", "deep sleep of %u ms: entered %llu times with a wake-up after %llu us", ms, (unsigned long long)simesp::sleep.deeps, (unsigned long long)simesp::sleep.deepUs);
        cov("deep sleeps"); nontrivial(); sigAdd(ms); trace("deep sleep of %u ms", ms);
        break;
#endif
    }
}
}

int main(int argc, char** argv)
{
    return run(argc, argv, [] {
        const auto& p = st().prop;
        if (p == "P01") p01();
        else if (p == "P02") p02();
        else if (p == "P03") p03();
        else if (p == "I01") i01();
        else if (p == "H01") h01();
        else if (p == "D01") d01();
        else if (p == "A01") a01();
        else if (p == "L01") l01();
        else { fprintf(stderr, "no such property\n"); exit(98); }
    });
}
