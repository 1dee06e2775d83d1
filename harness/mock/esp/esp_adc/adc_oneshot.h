#pragma once
#include "esp_err.h"
#include "soc/adc_periph.h"
typedef enum { ADC_RTC_CLK_SRC_DEFAULT = 4, ADC_DIGI_CLK_SRC_DEFAULT = 5 } adc_oneshot_clk_src_t;
typedef enum { ADC_ULP_MODE_DISABLE = 0, ADC_ULP_MODE_FSM = 1 } adc_ulp_mode_t;
typedef enum { ADC_ATTEN_DB_0, ADC_ATTEN_DB_2_5, ADC_ATTEN_DB_6, ADC_ATTEN_DB_12, ADC_ATTEN_DB_11 = ADC_ATTEN_DB_12 } adc_atten_t;
typedef enum { ADC_BITWIDTH_DEFAULT = 0, ADC_BITWIDTH_9 = 9, ADC_BITWIDTH_10, ADC_BITWIDTH_11, ADC_BITWIDTH_12, ADC_BITWIDTH_13 } adc_bitwidth_t;
typedef struct { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; } adc_oneshot_unit_init_cfg_t;
typedef struct { adc_atten_t atten; adc_bitwidth_t bitwidth; } adc_oneshot_chan_cfg_t;
namespace simesp
{
struct AdcUnit { adc_unit_t unit; bool configured[SOC_ADC_MAX_CHANNEL_NUM] = {}; adc_atten_t atten = ADC_ATTEN_DB_0; adc_bitwidth_t width = ADC_BITWIDTH_DEFAULT; };
struct Adc
{
    AdcUnit* claimed[SOC_ADC_PERIPH_NUM] = {};
    int value[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = {};
    uint64_t misuse = 0, reads = 0, claims = 0;
};
inline thread_local Adc adc;
inline void resetAdc() { sim::InMock m; for (auto*& u: adc.claimed) { delete u; u = nullptr; } adc = {}; }
inline AdcUnit* adcUnit(AdcUnit* h) { for (auto* u: adc.claimed) if (u && u == h) return u; ++adc.misuse; return nullptr; }
}
typedef simesp::AdcUnit* adc_oneshot_unit_handle_t;
inline esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* out)
{
    SIM_FALLIBLE("adc_oneshot_new_unit");
    if (!c || !out || c->unit_id < 0 || c->unit_id >= SOC_ADC_PERIPH_NUM) return ESP_ERR_INVALID_ARG;
    sim::noteFields(c->unit_id, c->clk_src, c->ulp_mode);
    auto& a = simesp::adc;
    if (a.claimed[c->unit_id]) return ESP_ERR_NOT_FOUND;     // already in use
    ++a.claims;
    *out = a.claimed[c->unit_id] = new simesp::AdcUnit { c->unit_id };
    return ESP_OK;
}
inline esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t* c)
{
    SIM_FALLIBLE("adc_oneshot_config_channel");
    auto* u = simesp::adcUnit(h);
    if (!u || !c || ch < 0 || ch >= SOC_ADC_MAX_CHANNEL_NUM) return ESP_ERR_INVALID_ARG;
    sim::noteFields(ch, c->atten, c->bitwidth);
    u->configured[ch] = true; u->atten = c->atten; u->width = c->bitwidth;
    return ESP_OK;
}
inline esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out)
{
    sim::InMock m_; sim::step("adc_oneshot_read");
    if (simesp::faults.hit("adc_oneshot_read")) { if (out && sim::w().rng.chance(1, 2)) *out = 1234; return simesp::faults.code; }
    auto* u = simesp::adcUnit(h);
    if (!u || !out || ch < 0 || ch >= SOC_ADC_MAX_CHANNEL_NUM) return ESP_ERR_INVALID_ARG;
    ++simesp::adc.reads;
    if (!u->configured[ch]) { *out = 7; return ESP_OK; }
    *out = simesp::adc.value[u->unit][ch];
    return ESP_OK;
}
inline esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    SIM_ENTER("adc_oneshot_del_unit");
    auto* u = simesp::adcUnit(h);
    if (!u) return ESP_ERR_NOT_FOUND;
    simesp::adc.claimed[u->unit] = nullptr;
    delete u;
    return ESP_OK;
}
inline void adc_power_acquire() {}
inline void adc_power_release() {}
inline esp_err_t adc_oneshot_io_to_channel(int io, adc_unit_t* unit, adc_channel_t* ch)
{
    SIM_ENTER("adc_oneshot_io_to_channel");
    for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u) for (int c = 0; c < SOC_ADC_MAX_CHANNEL_NUM; ++c)
        if (adc_channel_io_map[u][c] == io) { *unit = adc_unit_t(u); *ch = adc_channel_t(c); return ESP_OK; }
    return ESP_ERR_NOT_FOUND;
}
