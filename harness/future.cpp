#include "mbv.hpp"
#include "spine/eventsystem/pipeline.hpp"
using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;

static const int64_t bases[] = {0, (1LL << 24) - 3, (1LL << 31) - 3, (1LL << 32) - 3, (1LL << 40) + 1, (1LL << 26) + 1, 86400000LL * 365 * 30 + 7};
// all times of a history are multiples of one unit, so that they may be beyond any 32 bit range
static const int64_t units[] = {1, 1LL << 24, (1LL << 30) + 1, 1LL << 31, (1LL << 32) + 7};
static int64_t unit = 1;
static k_time_ms ms(int64_t d) { return k_time_ms(d * unit); }
static int64_t in_units(k_time_ms t) { return t.raw() % unit ? -99 : t.raw() / unit; }
static std::shared_ptr<Future> f[2];
static std::unique_ptr<Pipeline> pipe_;

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    int64_t res = 0;
    if (k == "new") {
        pipe_ = std::make_unique<Pipeline>(2);
        spn::platform::MockStateInstance().millis = k_time_ms(bases[op["base"].z()]);
        spn::platform::MockStateInstance().micros = k_time_us(0);
        unit = units[op["unit"].z()];
        const auto d = op["d"].ints();
        for (size_t i = 0; i < 2; ++i) f[i] = d[i] == 0 ? std::make_shared<Future>() : std::make_shared<Future>(ms(d[i]));
    }
    if (k == "adv") HAL::delay(ms(op["d"].i()));
    if (k == "resched") {
        auto& e = *f[op["k"].z() - 1];
        op["d"].i() == 0 ? e.reschedule() : e.reschedule(ms(op["d"].i()));
    }
    if (k == "push") {
        auto e = f[op["k"].z() - 1];
        pipe_->push(std::move(e));
    }
    if (k == "expire") {
        const auto e = pipe_->expire();
        res = e == f[0] ? 1 : e == f[1] ? 2 : -1;
    }
    o.i("res", res);
    const auto now = HAL::millis();
    o.ia("left", std::vector<long>{in_units(f[0]->time_until_future()), in_units(f[1]->time_until_future())});
    o.ia("due", std::vector<long>{in_units(f[0]->future() - now), in_units(f[1]->future() - now)});
    o.ia("expired", std::vector<int>{f[0]->expired(), f[1]->expired()});
    o.b("first", *f[0] < *f[1]).b("second", *f[1] < *f[0]).b("same", *f[0] == *f[1] && *f[1] == *f[0]);
    o.b("any", pipe_->contains_futures()).b("ready", pipe_->contains_expired_futures()).i("next", in_units(pipe_->time_until_next_future())).i("wait", pipe_->pipe().size());
}
