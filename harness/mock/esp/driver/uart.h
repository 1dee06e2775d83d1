#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
#include "freertos/queue.h"
#include "hal/uart_types.h"
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
#define UART_FIFO_LEN 128
typedef void* QueueHandle_t;
namespace simesp
{
struct UartSetup
{
    bool configured = false, pinsSet = false, installed = false;
    uart_config_t config {};
    int tx = -9, rx = -9, rts = -9, cts = -9, rxBuffer = 0, txBuffer = 0, installs = 0;
};
inline thread_local UartSetup uartSetup[UART_NUM_MAX];
}
inline bool uart_is_driver_installed(uart_port_t n) { SIM_ENTER("uart"); return n >= 0 && n < UART_NUM_MAX && simesp::uartSetup[n].installed; }
inline esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c)
{
    SIM_FALLIBLE("uart_param_config");
    if (n < 0 || n >= UART_NUM_MAX || !c || c->rx_flow_ctrl_thresh >= UART_HW_FIFO_LEN(n)) return ESP_FAIL;
    sim::noteFields(c->baud_rate, c->data_bits, c->parity, c->stop_bits, c->flow_ctrl, c->rx_flow_ctrl_thresh, c->source_clk, c->flags.allow_pd, c->flags.backup_before_sleep);
    simesp::uartSetup[n].configured = true; simesp::uartSetup[n].config = *c;
    return ESP_OK;
}
inline esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts)
{
    SIM_FALLIBLE("uart_set_pin");
    if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL;
    auto& s = simesp::uartSetup[n];
    s.pinsSet = true; s.tx = tx; s.rx = rx; s.rts = rts; s.cts = cts;
    return ESP_OK;
}
inline esp_err_t uart_driver_install(uart_port_t n, int rxBuf, int txBuf, int, QueueHandle_t*, int)
{
    SIM_FALLIBLE("uart_driver_install");
    if (n < 0 || n >= UART_NUM_MAX || rxBuf <= UART_HW_FIFO_LEN(n) || (txBuf != 0 && txBuf <= UART_HW_FIFO_LEN(n))) return ESP_FAIL;
    auto& s = simesp::uartSetup[n];
    if (s.installed) return ESP_FAIL;
    s.installed = true; ++s.installs; s.rxBuffer = rxBuf; s.txBuffer = txBuf;
    return ESP_OK;
}
inline esp_err_t uart_driver_delete(uart_port_t n) { SIM_ENTER("uart"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].installed = false; return ESP_OK; }
inline int uart_write_bytes(uart_port_t n, const void* p, size_t size)
{
    SIM_ENTER("uart_write_bytes");
    if (n < 0 || n >= UART_NUM_MAX) return -1;
    auto& u = sim::w().uart[n];
    if (u.failSend) return -1;
    return int(sim::send(u, static_cast<const uint8_t*>(p), size));
}
inline int uart_tx_chars(uart_port_t n, const char* p, uint32_t size) { return uart_write_bytes(n, p, size); }
inline esp_err_t uart_wait_tx_done(uart_port_t n, TickType_t ticks)
{
    SIM_ENTER("uart_wait_tx_done");
    if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL;
    ++sim::w().uart[n].flushes;
    return sim::drain(sim::w().uart[n], simesp::ticksUs(ticks)) ? ESP_OK : ESP_ERR_TIMEOUT;
}
inline esp_err_t uart_get_buffered_data_len(uart_port_t n, size_t* size) { SIM_ENTER("uart"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; *size = sim::arrived(sim::w().uart[n]); return ESP_OK; }
inline int uart_read_bytes(uart_port_t n, void* p, uint32_t size, TickType_t ticks)
{
    SIM_ENTER("uart_read_bytes");
    if (n < 0 || n >= UART_NUM_MAX) return -1;
    auto& u = sim::w().uart[n];
    ++u.reads;
    if (u.failReads > 0) { --u.failReads; ++u.readErrors; return -1; }
    const uint64_t until = sim::w().us + simesp::ticksUs(ticks);
    uint32_t k = 0;
    for (int c; k < size && (c = sim::takeBefore(u, until, "uart_read_bytes")) >= 0; ) static_cast<uint8_t*>(p)[k++] = uint8_t(c);
    return int(k);
}
inline esp_err_t uart_flush_input(uart_port_t n) { SIM_ENTER("uart"); auto& u = sim::w().uart[n]; u.taken += sim::arrived(u); u.takenAt.resize(u.taken); return ESP_OK; }
inline esp_err_t uart_flush(uart_port_t n) { return uart_flush_input(n); }
inline esp_err_t uart_get_tx_buffer_free_size(uart_port_t n, size_t* size) { SIM_ENTER("uart"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; *size = size_t(simesp::uartSetup[n].txBuffer); return ESP_OK; }
inline esp_err_t uart_set_baudrate(uart_port_t n, uint32_t b) { SIM_FALLIBLE("uart_set_baudrate"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].config.baud_rate = int(b); return ESP_OK; }
inline esp_err_t uart_set_word_length(uart_port_t n, uart_word_length_t v) { SIM_FALLIBLE("uart_set_word_length"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].config.data_bits = v; return ESP_OK; }
inline esp_err_t uart_set_stop_bits(uart_port_t n, uart_stop_bits_t v) { SIM_FALLIBLE("uart_set_stop_bits"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].config.stop_bits = v; return ESP_OK; }
inline esp_err_t uart_set_parity(uart_port_t n, uart_parity_t v) { SIM_FALLIBLE("uart_set_parity"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].config.parity = v; return ESP_OK; }
inline esp_err_t uart_set_hw_flow_ctrl(uart_port_t n, uart_hw_flowcontrol_t v, uint8_t t) { SIM_FALLIBLE("uart_set_hw_flow_ctrl"); if (n < 0 || n >= UART_NUM_MAX) return ESP_FAIL; simesp::uartSetup[n].config.flow_ctrl = v; simesp::uartSetup[n].config.rx_flow_ctrl_thresh = t; return ESP_OK; }
