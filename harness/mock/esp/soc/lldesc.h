#pragma once
#define LLDESC_MAX_NUM_PER_DESC (4096 - 4)
