#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
#include "driver/gpio.h"
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2, SPI_HOST_MAX } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH1, SPI_DMA_CH2, SPI_DMA_CH_AUTO } spi_dma_chan_t;
#define SPICOMMON_BUSFLAG_SLAVE 0
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_IOMUX_PINS (1 << 1)
#define SPICOMMON_BUSFLAG_GPIO_PINS (1 << 2)
#define SPICOMMON_BUSFLAG_NATIVE_PINS SPICOMMON_BUSFLAG_IOMUX_PINS
#define SPI_DEVICE_TXBIT_LSBFIRST (1 << 0)
#define SPI_DEVICE_RXBIT_LSBFIRST (1 << 1)
#define SPI_DEVICE_3WIRE (1 << 2)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
#define SPI_TRANS_USE_RXDATA (1 << 2)
#define SPI_TRANS_USE_TXDATA (1 << 3)
typedef struct { int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num, data4_io_num, data5_io_num, data6_io_num, data7_io_num; int max_transfer_sz; uint32_t flags; int isr_cpu_id; int intr_flags; } spi_bus_config_t;
typedef struct spi_transaction_t spi_transaction_t;
typedef void (*transaction_cb_t)(spi_transaction_t*);
typedef struct { uint8_t command_bits, address_bits, dummy_bits, mode; uint16_t duty_cycle_pos, cs_ena_pretrans; uint8_t cs_ena_posttrans; int clock_speed_hz; int input_delay_ns; int spics_io_num; uint32_t flags; int queue_size; transaction_cb_t pre_cb, post_cb; } spi_device_interface_config_t;
struct spi_transaction_t
{
    uint32_t flags; uint16_t cmd; uint64_t addr; size_t length, rxlength; void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; };
    union { void* rx_buffer; uint8_t rx_data[4]; };
};
struct spi_device_t { int host; spi_device_interface_config_t config; sim::SpiWire wire; };
typedef spi_device_t* spi_device_handle_t;
namespace simesp
{
struct SpiHost { bool up = false; spi_bus_config_t config {}; std::set<spi_device_t*> devices; };
struct Spi
{
    SpiHost host[SPI_HOST_MAX];
    sim::SpiWire wire[SPI_HOST_MAX];
    uint64_t inits = 0, frees = 0, adds = 0, removes = 0, misuse = 0, transactions = 0, wrongDuplex = 0;
    std::vector<size_t> sizes;
    std::vector<spi_device_interface_config_t> added;
};
inline thread_local Spi spi;
inline void resetSpi() { sim::InMock m; for (auto& h: spi.host) for (auto* d: h.devices) delete d; spi = {}; }
inline spi_device_t* spiDevice(spi_device_t* d) { for (auto& h: spi.host) if (h.devices.count(d)) return d; ++spi.misuse; return nullptr; }
}
inline esp_err_t spi_bus_initialize(spi_host_device_t h, const spi_bus_config_t* c, int)
{
    SIM_FALLIBLE("spi_bus_initialize");
    if (h <= SPI1_HOST || h >= SPI_HOST_MAX || !c) return ESP_ERR_INVALID_ARG;
    sim::noteFields(c->mosi_io_num, c->miso_io_num, c->sclk_io_num, c->quadwp_io_num, c->quadhd_io_num, c->data4_io_num, c->data5_io_num, c->data6_io_num, c->data7_io_num, c->max_transfer_sz, c->flags, c->isr_cpu_id, c->intr_flags);
    auto& b = simesp::spi.host[h];
    if (b.up) return ESP_ERR_INVALID_STATE;
    b.up = true; b.config = *c; ++simesp::spi.inits;
    return ESP_OK;
}
inline esp_err_t spi_bus_free(spi_host_device_t h)
{
    SIM_FALLIBLE("spi_bus_free");
    if (h < SPI1_HOST || h >= SPI_HOST_MAX) return ESP_ERR_INVALID_ARG;
    auto& b = simesp::spi.host[h];
    if (!b.up) { ++simesp::spi.misuse; return ESP_ERR_INVALID_STATE; }
    if (!b.devices.empty()) return ESP_ERR_INVALID_STATE;
    b.up = false; ++simesp::spi.frees;
    return ESP_OK;
}
inline esp_err_t spi_bus_add_device(spi_host_device_t h, const spi_device_interface_config_t* c, spi_device_handle_t* out)
{
    SIM_FALLIBLE("spi_bus_add_device");
    if (h < SPI1_HOST || h >= SPI_HOST_MAX || !c || !out || c->clock_speed_hz <= 0) return ESP_ERR_INVALID_ARG;
    sim::noteFields(c->command_bits, c->address_bits, c->dummy_bits, c->mode, c->duty_cycle_pos, c->cs_ena_pretrans, c->cs_ena_posttrans, c->clock_speed_hz, c->input_delay_ns, c->spics_io_num, c->flags, c->queue_size, c->pre_cb != nullptr, c->post_cb != nullptr);
    auto& b = simesp::spi.host[h];
    if (!b.up) return ESP_ERR_INVALID_STATE;
    if (b.devices.size() >= 3) return ESP_ERR_NOT_FOUND;
    auto* d = new spi_device_t { int(h), *c, {} };
    b.devices.insert(d); ++simesp::spi.adds; simesp::spi.added.push_back(*c);
    *out = d;
    return ESP_OK;
}
inline esp_err_t spi_bus_remove_device(spi_device_handle_t d)
{
    SIM_FALLIBLE("spi_bus_remove_device");
    if (!simesp::spiDevice(d)) return ESP_ERR_INVALID_ARG;
    simesp::spi.host[d->host].devices.erase(d); ++simesp::spi.removes;
    delete d;
    return ESP_OK;
}
inline esp_err_t spi_device_polling_transmit(spi_device_handle_t d, spi_transaction_t* t)
{
    SIM_FALLIBLE("spi transmit");
    auto& s = simesp::spi;
    if (!simesp::spiDevice(d) || !t) return ESP_ERR_INVALID_ARG;
    sim::noteFields(t->flags, t->cmd, t->addr, t->length, t->rxlength, t->user != nullptr, t->flags & SPI_TRANS_USE_TXDATA ? true : t->tx_buffer != nullptr, t->flags & SPI_TRANS_USE_RXDATA ? true : t->rx_buffer != nullptr);
    auto& b = s.host[d->host];
    const bool half = d->config.flags & SPI_DEVICE_HALFDUPLEX;
    const size_t limit = size_t(b.config.max_transfer_sz) * 8;
    if (t->length > limit || t->rxlength > limit || t->length % 8 || t->rxlength % 8) return ESP_ERR_INVALID_ARG;
    if ((t->flags & SPI_TRANS_USE_TXDATA) && t->length > 32) return ESP_ERR_INVALID_ARG;
    if ((t->flags & SPI_TRANS_USE_RXDATA) && t->rxlength > 32) return ESP_ERR_INVALID_ARG;
    if (!half && t->rxlength > t->length) return ESP_ERR_INVALID_ARG;
    const uint8_t* tx = t->flags & SPI_TRANS_USE_TXDATA ? t->tx_data : static_cast<const uint8_t*>(t->tx_buffer);
    uint8_t* rx = t->flags & SPI_TRANS_USE_RXDATA ? t->rx_data : static_cast<uint8_t*>(t->rx_buffer);
    if (half && t->rxlength == 0 && rx) return ESP_ERR_INVALID_ARG;    // "rx length zero with rx buffer" is refused
    if (half && tx == nullptr && t->length) return ESP_ERR_INVALID_ARG;
    ++s.transactions;
    auto& x = s.wire[d->host];
    size_t n = t->length / 8, r = t->rxlength / 8;
    if (!half && t->rxlength == 0) r = n;
    s.sizes.push_back(std::max(n, r));
    if (half)
    {
        if (tx) for (size_t i = 0; i < n; ++i) x.exchange(tx[i]);
        if (rx) for (size_t i = 0; i < r; ++i) { rx[i] = x.nextIn(); ++x.clocked; }
    }
    else
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t in = x.exchange(tx ? tx[i] : 0);
            if (rx && i < r) rx[i] = in;
        }
    sim::w().us += n + r;
    return ESP_OK;
}
inline esp_err_t spi_device_transmit(spi_device_handle_t d, spi_transaction_t* t) { return spi_device_polling_transmit(d, t); }
inline thread_local spi_transaction_t* simPending = nullptr;
inline esp_err_t spi_device_polling_start(spi_device_handle_t d, spi_transaction_t* t, TickType_t) { simPending = t; return spi_device_polling_transmit(d, t); }
inline esp_err_t spi_device_polling_end(spi_device_handle_t, TickType_t) { return simPending ? (simPending = nullptr, ESP_OK) : ESP_ERR_INVALID_STATE; }
inline esp_err_t spi_device_queue_trans(spi_device_handle_t d, spi_transaction_t* t, TickType_t) { simPending = t; return spi_device_polling_transmit(d, t); }
inline esp_err_t spi_device_get_trans_result(spi_device_handle_t, spi_transaction_t** t, TickType_t) { if (!simPending) return ESP_ERR_TIMEOUT; *t = simPending; simPending = nullptr; return ESP_OK; }
inline esp_err_t spi_device_acquire_bus(spi_device_handle_t d, TickType_t) { SIM_FALLIBLE("acquire"); return simesp::spiDevice(d) ? ESP_OK : ESP_ERR_INVALID_ARG; }
inline void spi_device_release_bus(spi_device_handle_t d) { SIM_ENTER("release"); simesp::spiDevice(d); }
inline esp_err_t spi_bus_get_max_transaction_len(spi_host_device_t h, size_t* n) { SIM_ENTER("spi"); *n = size_t(simesp::spi.host[h].config.max_transfer_sz); return ESP_OK; }
