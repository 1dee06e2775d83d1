#pragma once
#include "driver/gpio.h"
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
typedef enum { ADC_CHANNEL_0, ADC_CHANNEL_1, ADC_CHANNEL_2, ADC_CHANNEL_3, ADC_CHANNEL_4, ADC_CHANNEL_5, ADC_CHANNEL_6, ADC_CHANNEL_7, ADC_CHANNEL_8, ADC_CHANNEL_9 } adc_channel_t;
typedef enum { ADC_UNIT_1, ADC_UNIT_2 } adc_unit_t;
inline constexpr int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = {
    { 36, 37, 38, 39, 32, 33, 34, 35, -1, -1 },
    { 4, 0, 2, 15, 13, 12, 14, 27, 25, 26 } };
