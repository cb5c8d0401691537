#include "mbv.hpp"
#include "spine/controller/sr_latch.hpp"
using spn::controller::SRLatch;

static const int64_t bases[] = {0, (1LL << 24) - 3, (1LL << 31) - 3, (1LL << 32) - 3, (1LL << 40) + 1};
// all times of a history are multiples of one unit, so that they may be beyond any 32 bit range
static const int64_t units[] = {1, 1LL << 24, (1LL << 30) + 1, 1LL << 31, (1LL << 32) + 7};
static int64_t unit = 1;
static k_time_ms ms(const mbv::J& d) { return k_time_ms(d.i() * unit); }
static std::unique_ptr<SRLatch> latch;

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "new") {
        latch.reset();
        spn::platform::MockStateInstance().millis = k_time_ms(bases[op["base"].z()]);
        spn::platform::MockStateInstance().micros = k_time_us(0);
        unit = units[op["unit"].z()];
        const auto& c = op["c"];
        latch = std::make_unique<SRLatch>(SRLatch::Config{.high = c["high"].i() / 4.0f, .low = c["low"].i() / 4.0f,
            .minimal_on_time = ms(c["minon"]), .maximal_on_time = ms(c["maxon"]),
            .minimal_off_time = ms(c["minoff"]), .maximal_off_time = ms(c["maxoff"])});
        latch->initialize();
    }
    if (k == "adv") HAL::delay_ms(ms(op["d"]));
    if (k == "read") latch->new_reading(op["v"].i() / 4.0f);
    o.b("on", latch->response());
}
