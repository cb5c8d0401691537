#include "mbv.hpp"
#include "spine/controller/pid.hpp"
using namespace spn::controller;

static PIDAutotuner tuner;
static int t = 1000;

// the code's gain against the average of the fractions
static bool near(double got, const mbv::J& want, double tol = 2e-5) {
    double sum = 0;
    for (const auto& f : want.a) {
        double x = 1 / M_PI;
        for (auto n : f["n"].ints()) x *= n;
        for (auto d : f["d"].ints()) x /= d;
        sum += x;
    }
    const double w = sum / want.a.size();
    return std::fabs(got - w) <= tol * std::fabs(w);
}
static int gains(double p, double i, double d, const mbv::J& w) { return near(p, w["p"]) + 2 * near(i, w["i"]) + 4 * near(d, w["d"]) == 7 ? 1 : 0; }

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    int64_t res = 0;
    if (k == "start") {
        const auto& c = op["c"];
        tuner.set_target_input_value(c["target"].i() / 2.0f);
        tuner.set_hysteresis(c["hyst"].i() / 2.0f);
        tuner.setOutputRange(c["lo"].i(), c["hi"].i());
        tuner.set_tuning_cycles(c["cycles"].i());
        tuner.set_loop_interval(k_time_ms(c["T"].i()));
        tuner.set_aggressiveness(PIDAutotuner::Aggressiveness(c["mode"].i()));
        tuner.start_tuning_loop(k_time_ms(t));
    }
    if (k == "tune") res = static_cast<int64_t>(mbv::scaled(tuner.do_autotune(op["v"].i() / 2.0f, k_time_ms(t += op["dt"].i())), 1));
    if (k == "gains") res = gains(tuner.get_Kp(), tuner.get_Ki(), tuner.get_Kd(), op["want"]);
    if (k == "auto") {
        const auto& c = op["c"];
        const auto vs = op["vs"].ints();
        std::vector<int64_t> outs;
        const int64_t band = std::abs(c["hyst"].i()), lo = c["lo"].i(), hi = c["hi"].i();
        PID pid(PID::Config{.output_lower_limit = float(lo), .output_upper_limit = float(hi), .sample_interval = k_time_ms(c["T"].i())});
        pid.initialize();
        const auto reading = [&] {
            if (outs.size() < vs.size()) return vs[outs.size()] / 2.0f;
            const bool up = op["from"].i() > 0 && std::all_of(outs.begin(), outs.end(), [&](auto v) { return v == hi; }) ? true : !outs.empty() && outs.back() == hi;
            return (up ? c["target"].i() + band + 1 : c["target"].i() - band - 1) / 2.0f;
        };
        const auto begin = HAL::millis();
        int64_t loops = 0;
        // what has its default value is left out (the default hysteresis is below the resolution of the readings)
        PID::TuneConfig tc{.setpoint = c["target"].i() / 2.0f};
        if (op["from"].i()) tc.startpoint = op["from"].i() / 2.0f;
        if (c["hyst"].i()) tc.hysteresis = c["hyst"].i() / 2.0f;
        if (c["cycles"].i() != 10) tc.cycles = c["cycles"].i();
        if (c["mode"].i() != 1) tc.aggressiveness = PIDAutotuner::Aggressiveness(c["mode"].i());
        const auto g = pid.autotune(tc,
                     [&](float v) {
                         outs.push_back(static_cast<int64_t>(mbv::scaled(v, 1)));
                         if (outs.size() > 100000) abort();
                     },
                     reading, [&] { ++loops; });
        o.ia("outs", outs).i("ms", (HAL::millis() - begin).raw()).i("loops", loops).i("res", gains(g.Kp, g.Ki, g.Kd, op["want"]));
        return;
    }
    o.i("res", res).b("done", tuner.is_finished()).i("cycle", tuner.is_finished() ? -1 : tuner.get_cycle());
}
