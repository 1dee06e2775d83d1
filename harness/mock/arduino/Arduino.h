// Stand-in for the Arduino core (arduino-esp32 semantics): 32-bit millisecond clock, pins.
#pragma once
#include "sim.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define OPEN_DRAIN 0x10
#define OUTPUT_OPEN_DRAIN 0x13
#define ANALOG 0xC0
#define LSBFIRST 0
#define MSBFIRST 1
typedef bool boolean;
typedef uint8_t byte;
namespace simarduino
{
struct Delays { std::vector<uint64_t> ms, us; };
inline thread_local Delays delays;
}
inline uint32_t millis() { return uint32_t(sim::clockUs() / 1000); }   // unsigned long is 32 bit on the targets
inline uint32_t micros() { return uint32_t(sim::clockUs()); }
inline void delay(uint32_t ms) { sim::step("delay"); sim::sleepUs(uint64_t(ms) * 1000, "delay"); }
inline void delayMicroseconds(uint32_t us) { sim::step("delayMicroseconds"); sim::sleepUs(us, "delayMicroseconds"); }
inline void yield() { sim::step("yield"); }
inline void pinMode(uint8_t pin, uint8_t mode) { sim::InMock m; sim::step("pinMode"); sim::w().pin[pin].mode = mode; }
inline void digitalWrite(uint8_t pin, uint8_t v)
{
    sim::InMock m; sim::step("digitalWrite");
    sim::w().pin[pin].level = v ? 1 : 0;
    sim::w().pinEvents.push_back({ pin, v ? 1 : 0, sim::w().us });
}
inline int digitalRead(uint8_t pin) { sim::step("digitalRead"); return sim::w().pin[pin].input ? HIGH : LOW; }
inline uint16_t analogRead(uint8_t pin) { sim::step("analogRead"); return uint16_t(sim::w().pin[pin].analog); }
template<class T, class U> inline auto min(T a, U b) -> decltype(a < b ? a : b) { return a < b ? a : b; }
template<class T, class U> inline auto max(T a, U b) -> decltype(a < b ? b : a) { return a < b ? b : a; }
#define constrain(amt, low, high) ((amt) < (low) ? (low) : ((amt) > (high) ? (high) : (amt)))
#define bitRead(value, bit) (((value) >> (bit)) & 1)
