#pragma once
#include "rom/ets_sys.h"
