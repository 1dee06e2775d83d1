// Actors over the platform back-ends (one simulated world each), for N01 and N02.
#pragma once
#include "sim.h"
#ifdef VF_ESP
#include "freertos/FreeRTOS.h"
#include "driver/spi_master.h"
#include "driver/i2c.h"
#include "driver/uart.h"
#include "driver/gpio.h"
#include "esp_adc/adc_oneshot.h"
#include "esp_sleep.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "esp32-esp-idf/SpiBus.h"
#include "esp32-esp-idf/I2CBus.h"
#include "esp32-esp-idf/PacketUartImpl.h"
#include "esp32-esp-idf/SleepFunctions.h"
#else
#include "Arduino.h"
#include "SPI.h"
#include "Wire.h"
#include "arduino/GpioPinDefinition.h"
#include "arduino/SpiBus.h"
#include "arduino/I2CBus.h"
#include "arduino/PacketUartImpl.h"
#endif
#include "SerialOut.h"
#include "SpiDevice.h"
#include "I2CDevice.h"
#include "AnalogPin.h"
#include "GpioDigitalPin.h"
#include "Delays.h"
#include "work.h"

namespace work
{
struct WorldScope
{
    sim::World* was;
    explicit WorldScope(sim::World* w) : was(sim::tlsWorld) { sim::tlsWorld = w; }
    ~WorldScope() { sim::tlsWorld = was; }
};
struct SerialActor : Actor
{
    std::unique_ptr<sim::World> world = std::make_unique<sim::World>();
    embedded::PacketUart::UartDevice dev;
    embedded::PacketUart port;
    Hold<embedded::PacketUart> direct;      // another one for the same port, which can be copied
    std::vector<char> mem;
    Hold<embedded::SerialOut> out;
    explicit SerialActor(uint64_t seed) : Actor(seed), dev(int(r.range(0, 2))), port(dev), direct(dev), mem(size_t(r.range(1, 60))), out(embedded::MemoryView<char>(mem.data(), mem.size()), port)
    {
        world->rng.s = r.next(); world->us = r.next() % (1ull << 43); world->cost = 50;
        for (auto& u: world->uart)
        {
            uint64_t at = world->us;
            for (int i = 0; i < 200; ++i) { at += uint64_t(r.range(0, 9000)); int64_t c = r.chance(1, 6) ? r.range(2, 3) : r.range(0, 255); u.line.push_back({ at, uint8_t(c) }); }
        }
    }
    const char* name() const override { return "serial"; }
    int relocate(vf::Rng& q) override { return q.chance(1, 2) ? out.copy() : direct.copy(); }
    void step() override
    {
        WorldScope s(world.get());
        uint64_t v = r.interesting64(); uint8_t buf[24] = {}; uint16_t size = uint16_t(r.range(0, 24)), T = uint16_t(r.range(1, 60)), n = 0;
        char txt[10]; size_t len = size_t(r.range(0, 9)); for (size_t i = 0; i < len; ++i) { int64_t c = r.range(32, 126); txt[i] = char(c); } txt[len] = 0;
        switch (r.range(0, 9))
        {
        case 0: LIB("uart Receive", n = direct->Receive(buf, size, T)); break;
        case 1: LIB("uart ReceiveUntil", n = direct->ReceiveUntil(buf, size, 3, T)); break;
        case 2: LIB("uart ReceiveBetween", n = direct->ReceiveBetween(buf, size, 2, 3, T)); break;
        case 3: r.fill(buf, sizeof buf); LIB("uart Send", n = direct->Send(buf, size)); break;
        case 4: LIB("serial << text", *out << txt << int(v) << (unsigned long long)v); break;
        case 5: { float f = float(int(v)) / 16.f; LIB("serial << float", *out << embedded::SerialOut::precision { 3 } << f); break; }
        case 6: { uint8_t b = uint8_t(v); embedded::ConstBytesView bv(buf, 5); LIB("serial << bytes", *out << b << bv); break; }
        case 7: LIB("serial end", *out << embedded::SerialOut::end {}); break;
        default: LIB("serial endl", *out << embedded::SerialOut::endl {});
        }
        d.add(n); d.add(buf, sizeof buf); d.add(world->us);
        for (auto& u: world->uart) { d.add(u.sent.data(), u.sent.size()); d.add(u.taken); }
    }
};
// pins, converters, time; on the Arduino back-end buses as well (their drivers are objects there)
struct BoardActor : Actor
{
    std::unique_ptr<sim::World> world = std::make_unique<sim::World>();
    embedded::GpioPinDefinition def;
    Hold<embedded::GpioDigitalPin> pin;
    Hold<embedded::AnalogPin> analog;
#ifndef VF_ESP
    SPIClass spi; TwoWire two;
    embedded::SpiBus spiBus { spi }; Hold<embedded::SpiDevice> spiDev { spiBus };
    embedded::I2CBus i2cBus { two }; Hold<embedded::I2CDevice> i2cDev { i2cBus, uint16_t(0x42) };
#endif
    explicit BoardActor(uint64_t seed) : Actor(seed), def { uint8_t(r.range(0, 39)) }, pin(def), analog(def)
    {
        world->rng.s = r.next(); world->us = r.next() % (1ull << 43);
        for (auto& p: world->pin) { p.input = int(r.range(0, 1)); p.analog = int(r.range(0, 4095)); }
#ifndef VF_ESP
        spi.wire.misoSeed = r.next(); two.wire.present.insert(0x42); two.wire.dataSeed = r.next();
#endif
    }
    const char* name() const override { return "board"; }
    int relocate(vf::Rng& q) override
    {
        switch (q.range(0, 3))
        {
        case 0: return pin.copy();
        case 1: return analog.copy();
#ifndef VF_ESP
        case 2: return spiDev.copy();
        default: return i2cDev.copy();
#else
        default: { if (!std::is_copy_constructible_v<embedded::GpioPinDefinition>) return 0; return pin.copy() + analog.copy(); }
#endif
        }
    }
    void step() override
    {
        WorldScope s(world.get());
        uint32_t t = uint32_t(r.range(0, 3000)); uint64_t got = 0; uint8_t buf[40] = {}; uint16_t n = uint16_t(r.range(0, 20));
        bool large = r.chance(1, 10);
        switch (r.range(0, 12))
        {
        case 0: LIB("pin init", got = pin->init()); break;
        case 1: LIB("pin set", pin->set()); break;
        case 2: LIB("pin reset", pin->reset()); break;
        case 3: LIB("pin check", got = pin->check()); break;
        case 4: LIB("chip select", embedded::ChipSelector cs(*pin)); break;
        case 5: LIB("analog read", got = uint64_t(int64_t(analog->singleRead()))); break;
        case 6: LIB("delay", embedded::delay(t)); break;
        case 7: LIB("delayMicroseconds", embedded::delayMicroseconds(t)); break;
        case 8: LIB("ticks", got = embedded::getMillisecondTicks() ^ embedded::getMicrosecondTicks()); break;
#ifndef VF_ESP
        case 9: case 10: case 11:
            if (large)
            {
                std::vector<uint8_t> big(size_t(r.range(21, 9000)), 0x3c); auto z = uint16_t(big.size()); int kind = int(r.range(0, 2));
                if (kind == 0) LIB("spi send", got = spiDev->sendSync(big.data(), z));
                else if (kind == 1) LIB("spi receive", got = spiDev->receiveSync(big.data(), z));
                else LIB("spi exchange", got = spiDev->sendAndReceive(big.data(), big.data(), z));
                d.add(big.data(), big.size());
                break;
            }
            switch (r.range(9, 11))
            {
            case 9: LIB("spi send", got = spiDev->sendSync(buf, n)); break;
            case 10: LIB("spi exchange", got = spiDev->sendAndReceive(buf, buf + 20, n)); break;
            default: LIB("spi receive", got = spiDev->receiveSync(buf, n));
            }
            break;
        default: LIB("i2c", got = i2cDev->sendThenReceive(buf, n, buf + 20, n));
#else
        default: LIB("light sleep", embedded::ligntSleep(t));
#endif
        }
        d.add(got); d.add(buf, sizeof buf); d.add(world->us); d.add(uint64_t(world->pin[def.pin].level + 1)); d.add(world->pinEvents.size());
    }
};
#ifdef VF_ESP
// ESP buses are numbered driver resources: one actor per bus number at a time
struct BusActor : Actor
{
    std::unique_ptr<sim::World> world = std::make_unique<sim::World>();
    int number;
    std::unique_ptr<embedded::SpiBus> bus;
    embedded::I2CBus i2c;
    Hold<embedded::I2CDevice> i2cDev;
    embedded::GpioPinDefinition a { 1 }, b { 2 }, c { 3 };
    BusActor(uint64_t seed, int n) : Actor(seed), number(n), bus(new embedded::SpiBus(1 + n)), i2c(n), i2cDev(i2c, uint16_t(0x20 + n))
    {
        WorldScope s(world.get());
        world->rng.s = r.next();
        simesp::spi.wire[1 + n] = {}; simesp::spi.wire[1 + n].misoSeed = r.next();
        simesp::i2c[n] = {}; simesp::i2c[n].wire.present.insert(uint32_t(0x20 + n)); simesp::i2c[n].wire.dataSeed = r.next();
    }
    ~BusActor() override { WorldScope s(world.get()); bus.reset(); }
    const char* name() const override { return "bus"; }
    int relocate(vf::Rng&) override { return i2cDev.copy(); }
    bool up = false;
    void step() override
    {
        WorldScope s(world.get());
        uint64_t got = 0; uint8_t buf[64] = {}; uint16_t n = uint16_t(r.range(1, 30));
        embedded::SpiDevice dev(*bus);
        std::vector<uint8_t> big(r.chance(1, 10) ? size_t(r.range(65, 14000)) : 0, 0x3c);
        switch (r.range(0, 7))
        {
        case 0: if (!up) { LIB("spi init", got = bus->init(a, b, c)); up = got; } break;
        case 1: if (r.chance(1, 3)) { LIB("spi release", got = bus->release()); up = false; } break;
        case 2: if (up && !big.empty()) LIB("spi send", got = dev.sendSync(big.data(), uint16_t(big.size()))); else if (up) LIB("spi send", got = dev.sendSync(buf, n)); break;
        case 3: if (up && !big.empty()) LIB("spi receive", got = dev.receiveSync(big.data(), uint16_t(big.size()))); else if (up) LIB("spi receive", got = dev.receiveSync(buf, n)); break;
        case 4: LIB("i2c send", got = i2cDev->sendSync(buf, n)); break;
        case 5: LIB("i2c receive", got = i2cDev->receiveSync(buf, n)); break;
        case 6: LIB("i2c probe", got = i2c.testAddress(uint8_t(0x20 + n % 4))); break;
        default: LIB("i2c init", got = i2c.init(1, 2, 100000));
        }
        d.add(got); d.add(buf, sizeof buf); d.add(big.data(), big.size()); d.add(simesp::spi.wire[1 + number].clocked);
    }
};
#endif
}
