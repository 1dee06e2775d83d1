#pragma once
#include "esp_err.h"
#ifndef SIM_TICK_MS
#define SIM_TICK_MS 10
#endif
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned UBaseType_t;
#define configTICK_RATE_HZ (1000 / SIM_TICK_MS)
#define portTICK_PERIOD_MS ((TickType_t)(SIM_TICK_MS))
#define portTICK_RATE_MS portTICK_PERIOD_MS
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((TickType_t)(ms) * (TickType_t)configTICK_RATE_HZ) / (TickType_t)1000U))
#define pdTICKS_TO_MS(t) ((TickType_t)(((TickType_t)(t) * (TickType_t)1000U) / (TickType_t)configTICK_RATE_HZ))
#define pdTRUE 1
#define pdFALSE 0
namespace simesp
{
inline uint64_t ticksUs(TickType_t t) { return t == portMAX_DELAY ? UINT64_MAX / 4 : uint64_t(t) * SIM_TICK_MS * 1000; }
}
