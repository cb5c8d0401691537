#include "mbv.hpp"
#include "spine/structure/time/timers.hpp"
using namespace spn::structure::time;

static const int64_t bases[] = {0, (1LL << 24) - 3, (1LL << 31) - 3, (1LL << 32) - 3, (1LL << 40) + 1, (1LL << 26) + 1, 86400000LL * 365 * 30 + 7};
// all times of a history are multiples of one unit, so that they may be beyond any 32 bit range
static const int64_t units[] = {1, 1LL << 24, (1LL << 30) + 1, 1LL << 31, (1LL << 32) + 7};
static int64_t unit = 1;
static k_time_ms ms(const mbv::J& d) { return k_time_ms(d.i() * unit); }
static int64_t in_units(int64_t t) { return t % unit ? -99 : t / unit; }
static std::unique_ptr<Timer> watch;
static std::unique_ptr<AlarmTimer> alarm_;
static std::unique_ptr<IntervalTimer> interval;
static int64_t now() { return HAL::millis().raw(); }

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    int64_t res = 0;
    if (k == "new") {
        watch.reset();
        alarm_.reset();
        interval.reset();
        spn::platform::MockStateInstance().millis = k_time_ms(bases[op["base"].z()]);
        spn::platform::MockStateInstance().micros = k_time_us(0);
        unit = units[op["unit"].z()];
        const auto& kind = op["kind"].s();
        const bool abs = op["abs"].b();
        if (kind == "watch") {
            // abs: the start is given, otherwise it is the present
            watch = abs || op["off"].i() != 0 ? std::make_unique<Timer>(k_time_ms(now()) + ms(op["off"])) : std::make_unique<Timer>();
        } else if (kind == "alarm") {
            alarm_ = abs || op["iv"].i() % 2 != 0 ? std::make_unique<AlarmTimer>(k_time_ms(abs ? now() : 0) + ms(op["iv"]), abs) : std::make_unique<AlarmTimer>(ms(op["iv"]));
        } else
            interval = std::make_unique<IntervalTimer>(ms(op["iv"]), op["catch"].b());
    }
    if (k == "adv") HAL::delay_ms(ms(op["d"]));
    if (k == "read") res = (op["reset"].b() ? watch->time_since_last() : watch->time_since_last(Timer::NoReset)).raw(), res = in_units(res);
    if (k == "reset") {
        if (interval)
            interval->reset();
        else if (op["off"].i() == 0)
            watch->reset();
        else
            watch->reset(k_time_ms(now()) + ms(op["off"]));
    }
    if (k == "check") res = interval ? interval->expired() : alarm_->expired();
    o.i("res", res);
    if (watch) o.i("el", in_units(watch->time_since_last(false).raw()));
    if (alarm_) o.i("due", in_units(alarm_->future().raw() - now())).i("left", in_units(alarm_->time_from_now().raw()));
    if (interval)
        o.i("due", in_units(interval->future().raw() - now())).i("left", in_units(interval->time_until_next().raw())).i("iv", in_units(interval->interval().raw()));
}
