#pragma once
#include "Arduino.h"
#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3
class SPISettings
{
public:
    SPISettings() = default;
    SPISettings(uint32_t clock, uint8_t bitOrder, uint8_t dataMode) : _clock(clock), _bitOrder(bitOrder), _dataMode(dataMode) {}
    uint32_t _clock = 1000000;
    uint8_t _bitOrder = MSBFIRST, _dataMode = SPI_MODE0;
};
class SPIClass
{
public:
    sim::SpiWire wire;
    int open = 0;
    uint64_t begins = 0, ends = 0, outside = 0, badEnd = 0, nested = 0;
    SPISettings active;
    std::vector<SPISettings> settings;
    void begin(int8_t = -1, int8_t = -1, int8_t = -1, int8_t = -1) {}
    void end() {}
    void beginTransaction(SPISettings s) { sim::InMock m; sim::step("spi"); ++begins; if (open) ++nested; ++open; active = s; settings.push_back(s); }
    void endTransaction() { sim::step("spi"); ++ends; if (!open) ++badEnd; else --open; }
    uint8_t transfer(uint8_t d) { check(); return wire.exchange(d); }
    uint16_t transfer16(uint16_t d) { check(); uint16_t h = wire.exchange(uint8_t(d >> 8)); return uint16_t(h << 8 | wire.exchange(uint8_t(d))); }
    uint32_t transfer32(uint32_t d) { uint32_t h = transfer16(uint16_t(d >> 16)); return h << 16 | transfer16(uint16_t(d)); }
    void transfer(void* p, uint32_t n) { auto b = static_cast<uint8_t*>(p); transferBytes(b, b, n); }
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t size)
    {
        check();
        for (uint32_t i = 0; i < size; ++i)
        {
            uint8_t in = wire.exchange(data ? data[i] : 0xFF);
            if (out) out[i] = in;
        }
    }
    void write(uint8_t d) { transfer(d); }
    void write16(uint16_t d) { transfer16(d); }
    void write32(uint32_t d) { transfer32(d); }
    void writeBytes(const uint8_t* p, uint32_t n) { transferBytes(p, nullptr, n); }
private:
    void check() { sim::step("spi"); if (!open) ++outside; }
};
inline thread_local SPIClass SPI;
