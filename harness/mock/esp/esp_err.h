#pragma once
#include "sim.h"
#include <cstdint>
#include <cstddef>
#include <cstdlib>
typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL (-1)
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_INVALID_SIZE 0x104
#define ESP_ERR_NOT_FOUND 0x105
#define ESP_ERR_NOT_SUPPORTED 0x106
#define ESP_ERR_TIMEOUT 0x107
#define ESP_ERR_SLEEP_REJECT ESP_ERR_INVALID_STATE
namespace simesp
{
struct Abort { esp_err_t code; };   // ESP_ERROR_CHECK ends the program
// fault injection: the k-th driver call from now (counted over the calls that can fail) fails
struct Faults
{
    int64_t failAt = -1, failFor = 1;
    int64_t count = 0;
    esp_err_t code = ESP_FAIL;
    int injected = 0;
    bool hit(const char*) { if (failAt < 0) return false; const int64_t n = count++; if (n < failAt || n >= failAt + failFor) return false; ++injected; return true; }
};
inline thread_local Faults faults;
inline void clearFaults() { faults = {}; }
}
#define SIM_ENTER(name) sim::InMock simInMock_; sim::step(name)
#define SIM_FALLIBLE(name) SIM_ENTER(name); if (simesp::faults.hit(name)) return simesp::faults.code
#define ESP_ERROR_CHECK(x) do { esp_err_t simErr_ = (x); if (simErr_ != ESP_OK) throw simesp::Abort { simErr_ }; } while (0)
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) ([&]() -> esp_err_t { return (x); }())
inline const char* esp_err_to_name(esp_err_t) { return "ESP_ERR"; }
#define ESP_INTR_FLAG_IRAM (1 << 10)
#define BIT(n) (1UL << (n))
#define BIT64(n) (1ULL << (n))
