#pragma once
#include "esp_err.h"
inline int64_t esp_timer_get_time() { return int64_t(sim::clockUs()); }
