#pragma once
#include "esp_err.h"
namespace simesp
{
struct Sleep
{
    bool armed = false;
    uint64_t wakeupUs = 0;
    int refuseOneIn = 0, earlyOneIn = 0;   // hardware refuses to sleep / wakes up early
    uint64_t lights = 0, refused = 0, early = 0, deeps = 0, deepUs = 0, sleptUs = 0;
};
inline thread_local Sleep sleep;
struct DeepSleepEntered {};
}
typedef enum { ESP_SLEEP_WAKEUP_UNDEFINED, ESP_SLEEP_WAKEUP_ALL, ESP_SLEEP_WAKEUP_TIMER = 4 } esp_sleep_source_t;
inline esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us) { SIM_ENTER("sleep timer"); simesp::sleep.armed = true; simesp::sleep.wakeupUs = us; return ESP_OK; }
inline esp_err_t esp_sleep_disable_wakeup_source(esp_sleep_source_t) { SIM_ENTER("sleep"); simesp::sleep.armed = false; return ESP_OK; }
inline esp_err_t esp_light_sleep_start()
{
    auto& s = simesp::sleep; auto& x = sim::w();
    SIM_ENTER("light sleep");
    ++s.lights;
    if (s.refuseOneIn && x.rng.next() % uint64_t(s.refuseOneIn) == 0) { ++s.refused; return ESP_ERR_INVALID_STATE; }
    if (!s.armed) sim::overdue("light sleep without a wake-up source");
    uint64_t d = s.wakeupUs;
    if (s.earlyOneIn && x.rng.next() % uint64_t(s.earlyOneIn) == 0) { ++s.early; d = d ? x.rng.next() % d : 0; }
    s.sleptUs += d;
    sim::sleepUs(d, "light sleep");
    return ESP_OK;
}
inline void esp_deep_sleep_start() { SIM_ENTER("deep sleep"); ++simesp::sleep.deeps; simesp::sleep.deepUs = simesp::sleep.armed ? simesp::sleep.wakeupUs : UINT64_MAX; }
inline void esp_deep_sleep(uint64_t us) { esp_sleep_enable_timer_wakeup(us); esp_deep_sleep_start(); }
