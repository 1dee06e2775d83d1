#pragma once
#include "FreeRTOS.h"
