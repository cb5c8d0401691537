#pragma once
#include <zephyr/logging/log.h>
struct log_backend {};
inline const log_backend* log_backend_get_by_name(const char*) {
    static const log_backend b;
    return &b;
}
inline uint32_t log_filter_set(const log_backend*, uint32_t, int16_t, uint32_t level) {
    board::state().filter = static_cast<int>(level);
    return level;
}
