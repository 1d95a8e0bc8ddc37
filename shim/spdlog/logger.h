#include "spdlog.h"
