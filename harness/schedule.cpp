#include "mbv.hpp"
#include "spine/structure/time/schedule.hpp"
using spn::structure::time::Schedule;

static std::unique_ptr<Schedule> sched;
using L = const std::vector<Schedule::Block>;
static std::unique_ptr<Schedule> build(L& b) {
    switch (b.size()) {
    case 0: return std::make_unique<Schedule>(std::initializer_list<Schedule::Block>{});
    case 1: return std::make_unique<Schedule>(Schedule::Config{.blocks = {b[0]}});
    case 2: return std::make_unique<Schedule>(std::initializer_list<Schedule::Block>{b[0], b[1]});
    case 3: return std::make_unique<Schedule>(Schedule::Config{.blocks = {b[0], b[1], b[2]}});
    case 4: return std::make_unique<Schedule>(std::initializer_list<Schedule::Block>{b[0], b[1], b[2], b[3]});
    case 5: return std::make_unique<Schedule>(std::initializer_list<Schedule::Block>{b[0], b[1], b[2], b[3], b[4]});
    default: return std::make_unique<Schedule>(std::initializer_list<Schedule::Block>{b[0], b[1], b[2], b[3], b[4], b[5]});
    }
}
static int64_t value(int64_t t) { return static_cast<int64_t>(mbv::scaled(sched->value_at(k_time_s(t)), 2)); }
static int64_t next(int64_t t) { return sched->start_of_next_block(k_time_s(t)).raw(); }
template<typename F>
static std::string runs(F f) {
    std::string r = "[";
    int64_t last = 0;
    for (int64_t t = 0; t < 86400; ++t) {
        const int64_t v = f(t);
        if (t == 0 || v != last) r += (t ? ",[" : "[") + std::to_string(t) + "," + mbv::Out::integer(v) + "]";
        last = v;
        if (r.size() > 4000) break;
    }
    return r + "]";
}

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "new") {
        std::vector<Schedule::Block> b;
        for (auto& e : op["blocks"].a) b.push_back({k_time_s(e["s"].i()), k_time_s(e["d"].i()), static_cast<float>(e["v"].i()) / 2});
        sched = build(b);
        o.i("res", 0);
    } else if (k == "at")
        o.i("res", value(op["t"].i()));
    else if (k == "next")
        o.i("res", next(op["t"].i()));
    else if (k == "day")
        o.raw("res", runs(value));
    else
        o.raw("res", runs(next));
}
