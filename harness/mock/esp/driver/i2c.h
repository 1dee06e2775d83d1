#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
#include "hal/i2c_types.h"
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
#define I2C_SCLK_SRC_FLAG_AWARE_DFS 1
typedef struct
{
    i2c_mode_t mode;
    int sda_io_num;
    int scl_io_num;
    bool sda_pullup_en;
    bool scl_pullup_en;
    union
    {
        struct { uint32_t clk_speed; } master;
        struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave;
    };
    uint32_t clk_flags;
} i2c_config_t;
typedef void* i2c_cmd_handle_t;
namespace simesp
{
struct I2cPort
{
    bool configured = false, installed = false;
    int installs = 0;
    i2c_config_t config {};
    i2c_mode_t mode = I2C_MODE_MAX;
    size_t slaveRx = 0, slaveTx = 0;
    sim::I2cWire wire;
};
struct CmdLink { std::vector<uint8_t> bytes; bool start = false, stop = false, ackCheck = true; std::vector<char> ops; uint64_t id; uint8_t* rx = nullptr; size_t rxCount = 0; bool rxSplit = false; };
inline thread_local I2cPort i2c[I2C_NUM_MAX];
inline thread_local std::set<CmdLink*> links;
inline thread_local uint64_t linkMisuse = 0, linkCreated = 0;
inline thread_local uint32_t lastCmdTicks = 0;
inline void resetI2c() { sim::InMock m; for (auto& p: i2c) p = {}; for (auto* l: links) delete l; links.clear(); linkMisuse = linkCreated = 0; }
}
inline esp_err_t i2c_param_config(i2c_port_t n, const i2c_config_t* c)
{
    SIM_FALLIBLE("i2c_param_config");
    if (n < 0 || n >= I2C_NUM_MAX || !c) return ESP_ERR_INVALID_ARG;
    sim::noteFields(c->mode, c->sda_io_num, c->scl_io_num, c->sda_pullup_en, c->scl_pullup_en, c->mode == I2C_MODE_MASTER ? c->master.clk_speed : 0, c->clk_flags);
    simesp::i2c[n].configured = true; simesp::i2c[n].config = *c;
    return ESP_OK;
}
inline esp_err_t i2c_driver_install(i2c_port_t n, i2c_mode_t mode, size_t rx, size_t tx, int)
{
    SIM_FALLIBLE("i2c_driver_install");
    if (n < 0 || n >= I2C_NUM_MAX) return ESP_ERR_INVALID_ARG;
    auto& p = simesp::i2c[n];
    if (p.installed) return ESP_FAIL;
    p.installed = true; ++p.installs; p.mode = mode; p.slaveRx = rx; p.slaveTx = tx;
    return ESP_OK;
}
inline esp_err_t i2c_driver_delete(i2c_port_t n) { SIM_ENTER("i2c"); if (n < 0 || n >= I2C_NUM_MAX || !simesp::i2c[n].installed) return ESP_ERR_INVALID_ARG; simesp::i2c[n].installed = false; return ESP_OK; }
namespace simesp
{
inline esp_err_t i2cWrite(i2c_port_t n, uint32_t a, const uint8_t* p, size_t size, TickType_t ticks)
{
    auto& x = i2c[n].wire;
    x.order.push_back('w');
    if (x.busFault) { x.writes.push_back({ a, {}, false, ticks }); return ESP_ERR_TIMEOUT; }
    if (!x.present.count(a)) { x.writes.push_back({ a, {}, true, ticks }); return ESP_FAIL; }
    size_t k = size;
    auto it = x.acksUpTo.find(a);
    if (it != x.acksUpTo.end() && it->second < k) k = it->second;
    sim::I2cWrite e { a, {}, true, ticks };
    e.bytes.assign(p, p + size);    // the driver reads all of them
    e.bytes.resize(k);
    x.writes.push_back(e);
    return k == size ? ESP_OK : ESP_FAIL;
}
inline esp_err_t i2cRead(i2c_port_t n, uint32_t a, uint8_t* p, size_t size, TickType_t ticks)
{
    auto& x = i2c[n].wire;
    x.order.push_back('r');
    size_t k = size;
    if (x.busFault || !x.present.count(a)) k = 0;
    else if (auto it = x.hasBytes.find(a); it != x.hasBytes.end()) k = std::min(size, it->second);
    for (size_t i = 0; i < k; ++i) p[i] = x.dataAt(x.dataPos++);
    x.reads.push_back({ a, size, k, ticks });
    return x.busFault ? ESP_ERR_TIMEOUT : k == size ? ESP_OK : ESP_FAIL;
}
}
inline esp_err_t i2c_master_write_to_device(i2c_port_t n, uint8_t a, const uint8_t* p, size_t size, TickType_t ticks)
{
    SIM_FALLIBLE("i2c_master_write_to_device");
    if (n < 0 || n >= I2C_NUM_MAX) return ESP_ERR_INVALID_ARG;
    return simesp::i2cWrite(n, a, p, size, ticks);
}
inline esp_err_t i2c_master_read_from_device(i2c_port_t n, uint8_t a, uint8_t* p, size_t size, TickType_t ticks)
{
    SIM_FALLIBLE("i2c_master_read_from_device");
    if (n < 0 || n >= I2C_NUM_MAX || size == 0) return ESP_ERR_INVALID_ARG;
    return simesp::i2cRead(n, a, p, size, ticks);
}
inline esp_err_t i2c_master_write_read_device(i2c_port_t n, uint8_t a, const uint8_t* p, size_t size, uint8_t* r, size_t rsize, TickType_t ticks)
{
    SIM_FALLIBLE("i2c_master_write_read_device");
    if (n < 0 || n >= I2C_NUM_MAX) return ESP_ERR_INVALID_ARG;
    if (auto e = simesp::i2cWrite(n, a, p, size, ticks)) return e;
    return simesp::i2cRead(n, a, r, rsize, ticks);
}
inline i2c_cmd_handle_t i2c_cmd_link_create() { SIM_ENTER("i2c"); auto* l = new simesp::CmdLink; l->id = ++simesp::linkCreated; simesp::links.insert(l); return l; }
inline simesp::CmdLink* simLink(i2c_cmd_handle_t h) { auto* l = static_cast<simesp::CmdLink*>(h); if (!simesp::links.count(l)) { ++simesp::linkMisuse; return nullptr; } return l; }
inline void i2c_cmd_link_delete(i2c_cmd_handle_t h) { SIM_ENTER("i2c"); if (auto* l = simLink(h)) { simesp::links.erase(l); delete l; } }
inline esp_err_t i2c_master_start(i2c_cmd_handle_t h) { SIM_ENTER("i2c"); auto* l = simLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back('S'); return ESP_OK; }
inline esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { SIM_ENTER("i2c"); auto* l = simLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back('P'); return ESP_OK; }
inline esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t b, bool ack) { SIM_ENTER("i2c"); auto* l = simLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back('b'); l->bytes.push_back(b); if (!ack) l->ackCheck = false; return ESP_OK; }
inline esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* p, size_t n, bool ack) { for (size_t i = 0; i < n; ++i) if (auto e = i2c_master_write_byte(h, p[i], ack)) return e; return ESP_OK; }
inline esp_err_t i2c_master_cmd_begin(i2c_port_t n, i2c_cmd_handle_t h, TickType_t ticks)
{
    SIM_FALLIBLE("i2c_master_cmd_begin");
    auto* l = simLink(h);
    if (!l || n < 0 || n >= I2C_NUM_MAX) return ESP_ERR_INVALID_ARG;
    simesp::lastCmdTicks = ticks;
    if (l->ops.size() < 3 || l->ops.front() != 'S' || l->ops.back() != 'P' || l->bytes.empty() || l->rxSplit) return ESP_ERR_INVALID_STATE;
    if (l->bytes[0] & 1)
    {
        if (l->bytes.size() != 1 || l->rxCount == 0) return ESP_ERR_INVALID_STATE;
        return simesp::i2cRead(n, l->bytes[0] >> 1, l->rx, l->rxCount, ticks);
    }
    if (l->rxCount) return ESP_ERR_INVALID_STATE;
    auto e = simesp::i2cWrite(n, l->bytes[0] >> 1, l->bytes.data() + 1, l->bytes.size() - 1, ticks);
    return e == ESP_FAIL && !l->ackCheck ? ESP_OK : e;
}
inline esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* p, size_t n, i2c_ack_type_t)
{
    SIM_ENTER("i2c");
    auto* l = simLink(h);
    if (!l || !p || n == 0) return ESP_ERR_INVALID_ARG;
    l->ops.push_back('r');
    if (l->rx && l->rx + l->rxCount != p) l->rxSplit = true;
    if (!l->rx) l->rx = p;
    l->rxCount += n;
    return ESP_OK;
}
inline esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* p, i2c_ack_type_t a) { return i2c_master_read(h, p, 1, a); }
#define I2C_LINK_RECOMMENDED_SIZE(n) (2 * 24 + 24 * 5 * (n))
inline i2c_cmd_handle_t i2c_cmd_link_create_static(uint8_t*, uint32_t) { return i2c_cmd_link_create(); }
inline void i2c_cmd_link_delete_static(i2c_cmd_handle_t h) { i2c_cmd_link_delete(h); }
