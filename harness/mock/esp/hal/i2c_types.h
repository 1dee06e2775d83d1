#pragma once
#include <cstdint>
typedef int i2c_port_t;
#define I2C_NUM_0 0
#define I2C_NUM_1 1
#define I2C_NUM_MAX 2
typedef enum { I2C_MODE_SLAVE = 0, I2C_MODE_MASTER, I2C_MODE_MAX } i2c_mode_t;
typedef enum { I2C_MASTER_WRITE = 0, I2C_MASTER_READ } i2c_rw_t;
typedef enum { I2C_MASTER_ACK = 0, I2C_MASTER_NACK, I2C_MASTER_LAST_NACK } i2c_ack_type_t;
