#pragma once
#include "driver/spi_master.h"
