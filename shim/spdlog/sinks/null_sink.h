#include "../spdlog.h"
