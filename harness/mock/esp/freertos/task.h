#pragma once
#include "FreeRTOS.h"
inline void vTaskDelay(TickType_t t) { sim::step("vTaskDelay"); sim::sleepUs(simesp::ticksUs(t), "vTaskDelay"); }
inline TickType_t xTaskGetTickCount() { return TickType_t(sim::clockUs() / (SIM_TICK_MS * 1000)); }
inline void taskYIELD() { sim::step("yield"); }
