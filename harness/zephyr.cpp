#include "mbv.hpp"
#include "spine/platform/hal.hpp"
#include "spine/core/logging.hpp"
using mbv::J;
using namespace spn::logging;
static board::State board_;
board::State& board::state() { return board_; }

static void here(int level, const char* msg) {
    switch (level) {
// clang-format off
#line 7 "log.cpp"
    case 1: SPN_ERR("%s", msg); break; case 2: SPN_WARN("%s", msg); break; case 3: SPN_LOG("%s", msg); break; default: SPN_LOG_IMPL(LogLevel::DEBUG, "%s", msg);
#line 17 "zephyr.cpp"
        // clang-format on
    }
}
void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    bool panic = false;
    if (k == "new") {
        board_ = {};
        board_.us = static_cast<uint64_t>(op["ms"].i()) * 1000;
    }
    board_.log.clear();
    board_.slept = false;
    const auto before = board_.us;
    uint64_t asked = 0;
    if (k == "new" || k == "level") set_log_level(static_cast<LogLevel>(op["l"].i()));
    if (k == "pass") board_.us += static_cast<uint64_t>(op["us"].i());
    if (k == "delay") {
        const auto& how = op["how"].s();
        const auto us = op["us"].i();
        asked = static_cast<uint64_t>(us);
        if (how == "delay_us") HAL::delay_us(k_time_us(us));
        if (how == "delay_us_int") HAL::delay_us(static_cast<uint32_t>(us));
        if (how == "delay") HAL::delay(k_time_ms(us / 1000));
        if (how == "delay_ms") HAL::delay_ms(k_time_ms(us / 1000));
        if (how == "delay_ms_int") HAL::delay_ms(static_cast<uint32_t>(us / 1000));
    }
    if (k == "log") here(static_cast<int>(op["l"].i()), op["msg"].s().c_str());
    if (k == "halt") {
        try {
            op["msg"].s().empty() ? HAL::halt() : HAL::halt(op["msg"].s().c_str());
        } catch (const board::Panic&) { panic = true; }
    }
    bool shorter = false, longer = false;
    if (k == "delay") {
        const auto took = board_.us - before;
        shorter = took < asked;
        // sleeping may end on the next millisecond
        longer = took > asked + (asked >= 1000 ? 999 : 99);
        if (!shorter && !longer) board_.us = before + asked;
    }
    o.i("level", static_cast<int>(log_level())).i("filter", board_.filter).i("ms", HAL::millis().raw());
    o.i("us", static_cast<long long>(HAL::micros().raw()) - 1000LL * static_cast<long long>(HAL::millis().raw()));
    o.i("logged", board_.log.empty() ? 0 : board_.log.size() > 1 ? 99 : board_.log[0].first).s("text", board_.log.empty() ? "" : board_.log[0].second);
    o.b("short", shorter).b("long", longer).b("slept", board_.slept).b("panic", panic);
}
