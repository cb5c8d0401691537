#pragma once
#include <zephyr/kernel.h>
enum { LOG_LEVEL_NONE, LOG_LEVEL_ERR, LOG_LEVEL_WRN, LOG_LEVEL_INF, LOG_LEVEL_DBG };
#define LOG_MODULE_REGISTER(...) static_assert(true, "")
#define LOG_MODULE_DECLARE(...) static_assert(true, "")
namespace board {
template<typename... A>
void log(int level, const char* format, A... a) {
    char line[2048];
    snprintf(line, sizeof line, format, a...);
    state().log.emplace_back(level, line);
}
} // namespace board
#define LOG_ERR(...) board::log(LOG_LEVEL_ERR, __VA_ARGS__)
#define LOG_WRN(...) board::log(LOG_LEVEL_WRN, __VA_ARGS__)
#define LOG_INF(...) board::log(LOG_LEVEL_INF, __VA_ARGS__)
#define LOG_DBG(...) board::log(LOG_LEVEL_DBG, __VA_ARGS__)
