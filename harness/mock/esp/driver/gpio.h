#pragma once
#include "esp_err.h"
#define SOC_GPIO_PIN_COUNT 40
#define SOC_GPIO_VALID_GPIO_MASK 0xFF0EEFFFFFULL
#define SOC_GPIO_VALID_OUTPUT_GPIO_MASK 0x0F0EEFFFFFULL
#define GPIO_IS_VALID_GPIO(n) ((n) >= 0 && (n) < 64 && ((1ULL << ((n) & 63)) & SOC_GPIO_VALID_GPIO_MASK) != 0)
#define GPIO_IS_VALID_OUTPUT_GPIO(n) ((n) >= 0 && (n) < 64 && ((1ULL << ((n) & 63)) & SOC_GPIO_VALID_OUTPUT_GPIO_MASK) != 0)
typedef int gpio_num_t;
#define GPIO_NUM_NC (-1)
#define GPIO_NUM_MAX 40
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_INPUT_OUTPUT = 3, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_PULLUP_ONLY, GPIO_PULLDOWN_ONLY, GPIO_PULLUP_PULLDOWN, GPIO_FLOATING } gpio_pull_mode_t;
typedef enum { GPIO_INTR_DISABLE = 0, GPIO_INTR_POSEDGE, GPIO_INTR_NEGEDGE, GPIO_INTR_ANYEDGE } gpio_int_type_t;
typedef struct
{
    uint64_t pin_bit_mask;
    gpio_mode_t mode;
    gpio_pullup_t pull_up_en;
    gpio_pulldown_t pull_down_en;
    gpio_int_type_t intr_type;
} gpio_config_t;
namespace simesp
{
struct PinSetup { int configs = 0; gpio_mode_t mode = GPIO_MODE_DISABLE; bool up = false, down = false; gpio_int_type_t intr = GPIO_INTR_ANYEDGE; };
inline thread_local std::map<int, PinSetup> pinSetup;
inline thread_local uint64_t badPinCalls = 0;
}
inline esp_err_t gpio_config(const gpio_config_t* c)
{
    SIM_FALLIBLE("gpio_config");
    if (c) sim::noteFields(c->pin_bit_mask, c->mode, c->pull_up_en, c->pull_down_en, c->intr_type);
    if (!c || c->pin_bit_mask == 0 || (c->pin_bit_mask & ~SOC_GPIO_VALID_GPIO_MASK)) return ESP_ERR_INVALID_ARG;
    if ((c->mode & GPIO_MODE_OUTPUT) && (c->pin_bit_mask & ~SOC_GPIO_VALID_OUTPUT_GPIO_MASK)) return ESP_ERR_INVALID_ARG;
    for (int i = 0; i < 64; ++i) if (c->pin_bit_mask >> i & 1)
    {
        auto& p = simesp::pinSetup[i];
        ++p.configs; p.mode = c->mode; p.up = c->pull_up_en; p.down = c->pull_down_en; p.intr = c->intr_type;
    }
    return ESP_OK;
}
inline esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t m) { SIM_FALLIBLE("gpio_set_direction"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; auto& p = simesp::pinSetup[n]; ++p.configs; p.mode = m; return ESP_OK; }
inline esp_err_t gpio_set_pull_mode(gpio_num_t n, gpio_pull_mode_t m) { SIM_FALLIBLE("gpio_set_pull_mode"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; auto& p = simesp::pinSetup[n]; p.up = m == GPIO_PULLUP_ONLY || m == GPIO_PULLUP_PULLDOWN; p.down = m == GPIO_PULLDOWN_ONLY || m == GPIO_PULLUP_PULLDOWN; return ESP_OK; }
inline esp_err_t gpio_reset_pin(gpio_num_t n) { SIM_ENTER("gpio_reset_pin"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n] = {}; return ESP_OK; }
inline esp_err_t gpio_set_level(gpio_num_t n, uint32_t v)
{
    SIM_ENTER("gpio_set_level");
    if (n < 0 || n > 255) { ++simesp::badPinCalls; return ESP_ERR_INVALID_ARG; }
    sim::w().pin[n].level = v ? 1 : 0;
    sim::w().pinEvents.push_back({ n, v ? 1 : 0, sim::w().us });
    return ESP_OK;
}
inline int gpio_get_level(gpio_num_t n) { SIM_ENTER("gpio_get_level"); if (n < 0 || n > 255) { ++simesp::badPinCalls; return 0; } return sim::w().pin[n].input ? 1 : 0; }
inline esp_err_t gpio_pullup_en(gpio_num_t n) { SIM_FALLIBLE("gpio_pullup_en"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n].up = true; return ESP_OK; }
inline esp_err_t gpio_pullup_dis(gpio_num_t n) { SIM_FALLIBLE("gpio_pullup_dis"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n].up = false; return ESP_OK; }
inline esp_err_t gpio_pulldown_en(gpio_num_t n) { SIM_FALLIBLE("gpio_pulldown_en"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n].down = true; return ESP_OK; }
inline esp_err_t gpio_pulldown_dis(gpio_num_t n) { SIM_FALLIBLE("gpio_pulldown_dis"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n].down = false; return ESP_OK; }
inline esp_err_t gpio_set_intr_type(gpio_num_t n, gpio_int_type_t t) { SIM_FALLIBLE("gpio_set_intr_type"); if (!GPIO_IS_VALID_GPIO(n)) return ESP_ERR_INVALID_ARG; simesp::pinSetup[n].intr = t; return ESP_OK; }
inline esp_err_t gpio_intr_disable(gpio_num_t n) { return gpio_set_intr_type(n, GPIO_INTR_DISABLE); }
