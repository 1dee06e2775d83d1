#pragma once
#include "esp_err.h"
inline void ets_delay_us(uint32_t us) { sim::step("ets_delay_us"); sim::sleepUs(us, "ets_delay_us"); }
inline void esp_rom_delay_us(uint32_t us) { ets_delay_us(us); }
