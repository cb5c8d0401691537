#include "mbv.hpp"
#include "spine/controller/pid.hpp"
using namespace spn::controller;

static std::unique_ptr<PID> pid;
static std::unique_ptr<PIDController> ctl;
static float in_, out_, sp_;

static PID::Proportionality prop(const mbv::J& op) { return op["onerr"].b() ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT; }
static PID::Direction dir(const mbv::J& op) { return op["rev"].b() ? PID::Direction::REVERSE : PID::Direction::FORWARD; }

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    bool upd = false;
    if (k == "new") {
        pid.reset();
        ctl.reset();
        spn::platform::MockStateInstance().millis = k_time_ms(1000000);
        spn::platform::MockStateInstance().micros = k_time_us(0);
        in_ = out_ = sp_ = 0;
        const auto& t = op["k"];
        const float p = t["p"].i(), i = t["i"].i(), d = t["d"].i();
        if (op["wrap"].b()) {
            // what has its default value is left out
            const auto& l = op["lim"];
            PID::Tunings tun = t["d"].i() ? PID::Tunings{.Kp = p, .Ki = i, .Kd = d} : t["i"].i() ? PID::Tunings{.Kp = p, .Ki = i} : PID::Tunings{.Kp = p};
            if (l["lo"].i() == 0 && l["hi"].i() == 255 && op["T"].i() == 100 && op["onerr"].b() && !op["rev"].b())
                pid = std::make_unique<PID>(PID::Config{.tunings = tun});
            else
                pid = std::make_unique<PID>(PID::Config{.tunings = tun, .output_lower_limit = float(op["lim"]["lo"].i()),
                .output_upper_limit = float(op["lim"]["hi"].i()), .sample_interval = k_time_ms(op["T"].i()), .proportionality = prop(op), .direction = dir(op)});
            pid->initialize();
        } else {
            ctl = op["onerr"].b() ? std::make_unique<PIDController>(&in_, &out_, &sp_, p, i, d, dir(op)) : std::make_unique<PIDController>(&in_, &out_, &sp_, p, i, d, prop(op), dir(op));
            ctl->set_output_limits(op["lim"]["lo"].i(), op["lim"]["hi"].i());
        }
    }
    if (k == "adv") HAL::delay_ms(k_time_ms(op["d"].i()));
    if (k == "sp") {
        if (pid) pid->set_target_setpoint(op["v"].i());
        sp_ = op["v"].i();
    }
    if (k == "read") {
        const int64_t ahead = op["ahead"].i();
        in_ = op["v"].i();
        if (!pid)
            upd = ctl->update(HAL::millis() + k_time_ms(ahead));
        else if (ahead)
            pid->new_reading(in_, HAL::millis() + k_time_ms(ahead));
        else
            pid->new_reading(in_);
    }
    if (k == "tune") {
        const auto& t = op["k"];
        if (pid)
        {
            const PID::Tunings n{.Kp = float(t["p"].i()), .Ki = float(t["i"].i()), .Kd = float(t["d"].i())};
            if (op["onerr"].b())
                pid->set_tunings(n);
            else
                pid->set_tunings(n, prop(op));
        }
        else
            ctl->set_tunings(t["p"].i(), t["i"].i(), t["d"].i(), prop(op));
    }
    if (k == "limits") ctl->set_output_limits(op["lim"]["lo"].i(), op["lim"]["hi"].i());
    if (k == "time") ctl->set_sampling_time(k_time_ms(op["T"].i()));
    if (k == "dir") ctl->set_controller_direction(dir(op));
    if (k == "again") {
        out_ = op["out"].i();
        ctl->initialize();
    }
    if (k == "same") upd = pid->tunings() == PID::Tunings{.Kp = float(op["k"]["p"].i()), .Ki = float(op["k"]["i"].i()), .Kd = float(op["k"]["d"].i())};
    if (k == "bare") {
        const auto b = PID(PID::Config{}).tunings();
        const auto tenths = [](float x) { return int64_t(std::lround(x * 1000)) % 100 ? -1 : int64_t(std::lround(x * 10)); };
        o.ia("k", std::vector<int64_t>{tenths(b.Kp), tenths(b.Ki), tenths(b.Kd)});
        return;
    }
    const auto ks = pid ? pid->tunings() : PID::Tunings{.Kp = ctl->Kp(), .Ki = ctl->Ki(), .Kd = ctl->Kd()};
    const float v = pid ? pid->response() : out_;
    o.i("out", std::round(v * 100.0L)).b("upd", upd).ia("k", std::vector<int64_t>{int64_t(mbv::scaled(ks.Kp, 1)), int64_t(mbv::scaled(ks.Ki, 1)), int64_t(mbv::scaled(ks.Kd, 1))})
        .i("err", pid ? mbv::scaled(pid->error(), 1) : 0)
        .i("sp", pid ? mbv::scaled(pid->setpoint(), 1) : 0);
}
