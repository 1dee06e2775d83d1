#pragma once
#include "Stream.h"
class TwoWire : public Stream
{
public:
    sim::I2cWire wire;
    size_t bufferLimit = 128;
    uint64_t misuse = 0;
    bool begin(int = -1, int = -1, uint32_t = 0) { return true; }
    void setClock(uint32_t) {}
    void beginTransmission(uint16_t a) { sim::InMock m; sim::step("i2c"); if (open_) ++misuse; open_ = true; cur_ = { a, {}, false, 0 }; }
    void beginTransmission(uint8_t a) { beginTransmission(uint16_t(a)); }
    void beginTransmission(int a) { beginTransmission(uint16_t(a)); }
    size_t write(uint8_t b) override { return write(&b, 1); }
    size_t write(const uint8_t* p, size_t n) override
    {
        sim::InMock m; sim::step("i2c");
        if (!open_) { ++misuse; return 0; }
        size_t k = std::min(n, bufferLimit - std::min(bufferLimit, cur_.bytes.size()));
        cur_.bytes.insert(cur_.bytes.end(), p, p + k);
        return k;
    }
    using Print::write;
    uint8_t endTransmission(bool stop = true)
    {
        sim::InMock m; sim::step("i2c");
        if (!open_) { ++misuse; return 4; }
        open_ = false;
        cur_.stop = stop;
        wire.order.push_back('w');
        auto a = cur_.addr;
        if (wire.busFault) return 4;
        if (!wire.present.count(a)) { cur_.bytes.clear(); wire.writes.push_back(cur_); return 2; }
        auto it = wire.acksUpTo.find(a);
        bool nack = it != wire.acksUpTo.end() && it->second < cur_.bytes.size();
        if (nack) cur_.bytes.resize(it->second);
        wire.writes.push_back(cur_);
        return nack ? 3 : 0;
    }
    size_t requestFrom(uint16_t a, size_t n, bool = true)
    {
        sim::InMock m; sim::step("i2c");
        rx_.clear();
        wire.order.push_back('r');
        size_t k = n;
        if (wire.busFault || !wire.present.count(a)) k = 0;
        else if (auto it = wire.hasBytes.find(a); it != wire.hasBytes.end()) k = std::min(n, it->second);
        for (size_t i = 0; i < k; ++i) rx_.push_back(wire.dataAt(wire.dataPos++));
        wire.reads.push_back({ a, n, k, 0 });
        return k;
    }
    size_t requestFrom(int a, int n) { return requestFrom(uint16_t(a), size_t(n), true); }
    size_t requestFrom(int a, int n, int s) { return requestFrom(uint16_t(a), size_t(n), s != 0); }
    uint8_t requestFrom(uint8_t a, uint8_t n) { return uint8_t(requestFrom(uint16_t(a), size_t(n), true)); }
    int available() override { sim::step("i2c"); return int(rx_.size()); }
    int read() override { sim::InMock m; sim::step("i2c"); if (rx_.empty()) return -1; int v = rx_.front(); rx_.pop_front(); return v; }
    int peek() override { sim::step("i2c"); return rx_.empty() ? -1 : rx_.front(); }
    size_t readBytes(uint8_t* p, size_t n) { size_t k = 0; for (int c; k < n && (c = read()) >= 0; ) p[k++] = uint8_t(c); return k; }
    size_t readBytes(char* p, size_t n) { return readBytes(reinterpret_cast<uint8_t*>(p), n); }
private:
    sim::I2cWrite cur_ {};
    bool open_ = false;
    std::deque<uint8_t> rx_;
};
inline thread_local TwoWire Wire;
