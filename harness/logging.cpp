#include "mbv.hpp"
#include "capture.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
using mbv::J;
using namespace spn::logging;

static const int boot = static_cast<int>(log_level());

static void here(int level, const std::string& how, int n, const char* msg) {
    const auto l = static_cast<LogLevel>(level);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
    if (how == "plain") {
        switch (level) {
// clang-format off
#line 7 "log.cpp"
        case 1: SPN_ERR(msg); break; case 2: SPN_WARN(msg); break; case 3: SPN_LOG(msg); break; default: SPN_LOG_IMPL(l, msg);
#line 46 "logging.cpp"
        }
    } else if (how == "string") {
        switch (level) {
#line 7 "log.cpp"
        case 1: SPN_ERR("%s", msg); break; case 2: SPN_WARN("%s", msg); break; case 3: SPN_LOG("%s", msg); break; default: SPN_LOG_IMPL(l, "%s", msg);
#line 52 "logging.cpp"
        }
    } else if (how == "alias") {
        switch (level) {
#line 7 "log.cpp"
        case 1: ERR("%s", msg); break; case 2: WARN("%s", msg); break; case 3: LOG("%s", msg); break; default: DBG("%s", msg);
#line 58 "logging.cpp"
        }
    } else {
#line 7 "log.cpp"
        SPN_LOG_IMPL(l, "%d|%s", n, msg);
#line 63 "logging.cpp"
        // clang-format on
    }
#pragma GCC diagnostic pop
}

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    captured();
    if (k == "new") {
        spn::platform::MockStateInstance().millis = k_time_ms(op["hi"].i() * 10000 + op["lo"].i());
        spn::platform::MockStateInstance().micros = k_time_us(0);
    }
    if (k == "new" || k == "level") set_log_level(static_cast<LogLevel>(op["l"].i()));
    if (k == "adv") HAL::delay_ms(k_time_ms(op["d"].i()));
    if (k == "log") {
        // exactly as large as the message
        const auto& s = op["msg"].s();
        std::vector<char> m(s.c_str(), s.c_str() + s.size() + 1);
        here(op["l"].i(), op["how"].s(), op["n"].i(), m.data());
    }
    o.i("boot", boot).s("out", captured()).i("level", static_cast<int>(log_level()));
    std::vector<int> on;
    for (int l = 1; l <= 4; ++l) on.push_back(is_loggable(static_cast<LogLevel>(l)));
    o.ia("on", on);
}
