// A stand-in for the Zephyr kernel: its clock, its sleeping and its panic are plain data.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace board {
struct Panic {};
struct State {
    uint64_t us = 0; // since it was started
    bool slept = false;
    std::vector<std::pair<int, std::string>> log; // level and line
    int filter = -1;
};
State& state();
} // namespace board

typedef struct { int64_t ticks; } k_timeout_t;
// a tick is 100 us
inline int64_t k_uptime_ticks() { return static_cast<int64_t>(board::state().us / 100); }
inline int64_t k_uptime_get() { return static_cast<int64_t>(board::state().us / 1000); }
inline uint32_t k_uptime_get_32() { return static_cast<uint32_t>(k_uptime_get()); }
inline uint32_t k_ticks_to_us_near32(int64_t t) { return static_cast<uint32_t>(t * 100); }
inline uint64_t k_ticks_to_us_near64(int64_t t) { return static_cast<uint64_t>(t) * 100; }
inline uint32_t k_ticks_to_us_floor32(int64_t t) { return static_cast<uint32_t>(t * 100); }
inline uint64_t k_ticks_to_us_floor64(int64_t t) { return static_cast<uint64_t>(t) * 100; }
inline int32_t k_msleep(int32_t ms) {
    if (ms > 0) board::state().us += static_cast<uint64_t>(ms) * 1000;
    board::state().slept = true;
    return 0;
}
inline int32_t k_usleep(int32_t us) { // sleeping ends on a tick
    if (us > 0) board::state().us = (board::state().us + static_cast<uint64_t>(us) + 99) / 100 * 100;
    board::state().slept = true;
    return 0;
}
inline int32_t k_sleep(k_timeout_t t) { return k_usleep(static_cast<int32_t>(t.ticks * 100)); }
inline void k_busy_wait(uint32_t us) { board::state().us += us; }
inline void k_yield() {}
inline void k_panic() { throw board::Panic{}; }
inline void k_oops() { throw board::Panic{}; }
#define K_MSEC(ms) (k_timeout_t{static_cast<int64_t>(ms) * 10})
#define K_USEC(us) (k_timeout_t{(static_cast<int64_t>(us) + 99) / 100})
