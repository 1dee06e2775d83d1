#pragma once
#include "Stream.h"
// Ports are views on sim::w().uart[number]; copies refer to the same port but keep their own time-out.
class HardwareSerial : public Stream
{
public:
    explicit HardwareSerial(int number = 0) : number_(number) {}
    void begin(unsigned long = 115200, uint32_t = 0, int8_t = -1, int8_t = -1) {}
    void end() {}
    int available() override { sim::step("available"); return int(sim::arrived(u())); }
    int peek() override { sim::step("peek"); return sim::arrived(u()) ? u().line[u().taken].value : -1; }
    int read() override
    {
        sim::step("read"); ++u().reads;
        return sim::take(u());
    }
    size_t read(uint8_t* p, size_t n) { sim::step("read"); ++u().reads; size_t k = 0; for (int c; k < n && (c = sim::take(u())) >= 0; ) p[k++] = uint8_t(c); return k; }
    size_t read(char* p, size_t n) { return read(reinterpret_cast<uint8_t*>(p), n); }
    // whole call limited by the time-out
    size_t readBytes(uint8_t* p, size_t n)
    {
        sim::step("readBytes"); ++u().reads;
        const uint64_t until = sim::w().us + uint64_t(_timeout) * 1000;
        size_t k = 0;
        for (int c; k < n && (c = sim::takeBefore(u(), until, "readBytes")) >= 0; ) p[k++] = uint8_t(c);
        return k;
    }
    size_t readBytes(char* p, size_t n) { return readBytes(reinterpret_cast<uint8_t*>(p), n); }
    // time-out per byte; the terminator is consumed, not stored
    size_t readBytesUntil(char terminator, uint8_t* p, size_t n)
    {
        size_t k = 0;
        while (k < n)
        {
            int c = timed();
            if (c < 0 || char(c) == terminator) break;
            p[k++] = uint8_t(c);
        }
        return k;
    }
    size_t readBytesUntil(char terminator, char* p, size_t n) { return readBytesUntil(terminator, reinterpret_cast<uint8_t*>(p), n); }
    bool find(char c) { for (int b; (b = timed()) >= 0; ) if (char(b) == c) return true; return false; }
    bool find(uint8_t c) { return find(char(c)); }
    size_t write(uint8_t c) override { sim::step("write"); return sim::send(u(), &c, 1); }
    size_t write(const uint8_t* p, size_t n) override { sim::step("write"); return sim::send(u(), p, n); }
    using Print::write;
    void flush() override { flush(true); }
    void flush(bool) { sim::step("flush"); ++u().flushes; sim::drain(u(), UINT64_MAX / 4); }
    operator bool() const { return true; }
    int number() const { return number_; }
private:
    sim::Uart& u() const { return sim::w().uart[number_]; }
    int timed()
    {
        sim::step("timedRead"); ++u().reads;
        return sim::takeBefore(u(), sim::w().us + uint64_t(_timeout) * 1000, "timedRead");
    }
    int number_;
};
inline thread_local HardwareSerial Serial { 0 };
