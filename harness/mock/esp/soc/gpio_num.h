#pragma once
#include "driver/gpio.h"
