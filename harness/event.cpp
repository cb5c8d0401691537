#include "mbv.hpp"
#include <array>
#include <cmath>
#include "spine/eventsystem/eventsystem.hpp"
using namespace spn::core;
using mbv::J;

struct System : EventSystem {
    using EventSystem::EventSystem;
    const spn::eventsystem::Pipeline& pipeline() const { return _pipeline; }
};

static const int64_t bases[] = {0, (1LL << 24) - 3, (1LL << 31) - 3, (1LL << 32) - 3, (1LL << 40) + 1, (1LL << 24) * 4 + 1, 86400000LL * 365};
static std::unique_ptr<System> sys;
static std::vector<std::shared_ptr<Event>> held;
static std::vector<std::weak_ptr<Event>> all;
static std::vector<J> script;
static std::vector<std::string> kinds;
static std::vector<std::array<int64_t, 4>> log_;
static std::vector<bool> busy;
static int64_t t0 = 0;

// all times of a history are multiples of one unit, so that they may be beyond any 32 bit range
static const int64_t units[] = {1, 1LL << 24, (1LL << 30) + 1, 1LL << 31, (1LL << 32) + 7};
static int64_t unit = 1;
static int64_t now() { return HAL::millis().raw(); }
static k_time_ms ms(const J& d) { return k_time_ms(d.i() * unit); }
static int64_t in_units(int64_t t) { return t % unit ? -99 : t / unit; }

// values are told apart by a number; what is really carried has any sign and size
static int64_t wide(int64_t v) { return v % 2 ? v + (1LL << 45) : v % 4 == 2 ? -v : v; }
static int64_t narrow(int64_t w) { return w >= (1LL << 45) ? w - (1LL << 45) : w < 0 ? -w : w; }
static Event::Data data(size_t id, int64_t v) {
    const auto& k = kinds[id];
    if (v == 0 || k == "none") return {};
    if (k == "u") return Event::Data(v == 3 ? 4294967295u : static_cast<uint32_t>(v) + (v % 2 ? 1u << 31 : 0));
    if (k == "f") return Event::Data((static_cast<float>(v) + 0.5f) * (v % 2 ? -1.f : 1.f));
    if (k == "s") return Event::Data(k_time_s(wide(v)));
    return Event::Data(k_time_ms(wide(v)));
}
static int64_t decoded(const Event& e, const std::string& k) {
    if (k == "u") return e.data().unsigned_value() == 4294967295u ? 3 : e.data().unsigned_value() & 0x7fffffffu;
    if (k == "f") return static_cast<int64_t>(mbv::scaled(std::fabs(e.data().value()) - 0.5f, 1));
    if (k == "s") return narrow(e.data().s().raw());
    if (k == "ms") return narrow(e.data().ms().raw());
    return -7;
}
static int64_t value(const Event& e) {
    if (!e.data().has_value()) return 0;
    if (e.id() >= kinds.size()) return -5;
    const auto& k = kinds[e.id()];
    try {
        const int64_t v = decoded(e, k);
        const auto same = data(e.id(), v); // the very same value
        const bool eq = k == "u" ? same.unsigned_value() == e.data().unsigned_value() : k == "f" ? same.value() == e.data().value() : k == "s" ? same.s() == e.data().s() : same.ms() == e.data().ms();
        return eq ? v : -8;
    } catch (...) {
        return -6;
    }
}

struct Handler : EventHandler {
    size_t h;
    Handler(System* s, size_t h) : EventHandler(s), h(h) {}
    void handle_event(const Event& e) override;
};
static std::vector<std::unique_ptr<Handler>> handlers;

static void make(size_t k, size_t id, const J& d, int64_t v) { held[k] = sys->event(id, ms(d), data(id, v)); }
static void run(const J& acts) {
    for (const auto& a : acts.a) {
        const auto& k = a["a"].s();
        if (k == "sched") sys->schedule(a["id"].z(), ms(a["d"]), data(a["id"].z(), a["v"].i()));
        if (k == "delay") HAL::delay(ms(a["d"]));
        if (k == "trig") sys->trigger(a["id"].z(), data(a["id"].z(), a["v"].i()));
        if (k == "make" && !held[a["k"].z()]) make(a["k"].z(), a["id"].z(), a["d"], a["v"].i());
        if (k == "drop" && !busy[a["k"].z()]) held[a["k"].z()].reset();
    }
}
void Handler::handle_event(const Event& e) {
    log_.push_back({int64_t(h), int64_t(e.id()), in_units(now() - t0), value(e)});
    J acts = script[h];
    script[h] = J{};
    run(acts);
}

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    log_.clear();
    int64_t res = 0;
    if (k == "new") {
        held.clear();
        sys.reset();
        handlers.clear();
        spn::platform::MockStateInstance().millis = k_time_ms(bases[op["base"].z()]);
        spn::platform::MockStateInstance().micros = k_time_us(0);
        unit = units[op["unit"].z()];
        const auto& hs = op["hs"];
        const size_t nids = hs.a.size(), cap = op["cap"].z();
        size_t hcap = 1;
        for (auto& l : hs.a) hcap = std::max(hcap, l.a.size() + op["spare"].z());
        sys = std::make_unique<System>(EventSystem::Config{.events_count = nids + 1, .events_cap = cap, .handler_cap = hcap,
            .delay_between_ticks = op["on"].b(), .min_delay_between_ticks = ms(op["min"]), .max_delay_between_ticks = ms(op["max"])});
        kinds = {"none"};
        for (auto& e : op["kinds"].a) kinds.push_back(e.s());
        while (kinds.size() < nids + 1) kinds.push_back("u");
        script.assign(op["nh"].z() + 1, J{});
        held.assign(op["slots"].z() + 1, nullptr);
        busy.assign(op["slots"].z() + 1, false);
        handlers.emplace_back(nullptr);
        for (size_t h = 1; h <= op["nh"].z(); ++h) handlers.push_back(std::make_unique<Handler>(sys.get(), h));
        for (size_t id = 1; id <= nids; ++id)
            for (auto h : hs.a[id - 1].ints()) sys->attach(id, handlers[h].get());
        all.clear();
        std::vector<std::shared_ptr<Event>> tmp;
        for (size_t i = 0; i < cap; ++i) {
            tmp.push_back(sys->event(size_t(1), k_time_ms(1)));
            all.push_back(tmp.back());
        }
    }
    t0 = now();
    if (k == "sched") sys->schedule(op["id"].z(), ms(op["d"]), data(op["id"].z(), op["v"].i()));
    if (k == "make") {
        make(op["k"].z(), op["id"].z(), op["d"], op["v"].i());
        res = held[op["k"].z()] != nullptr;
    }
    if (k == "drop") held[op["k"].z()].reset();
    if (k == "attach") sys->attach(op["id"].z(), handlers[op["h"].z()].get());
    if (k == "resched") held[op["k"].z()]->reschedule(ms(op["d"]));
    if (k == "schedh") {
        auto e = held[op["k"].z()];
        if (!op["keep"].b()) held[op["k"].z()].reset();
        sys->schedule(std::move(e));
    }
    if (k == "trigh") {
        busy[op["k"].z()] = true;
        sys->trigger(held[op["k"].z()]);
        busy[op["k"].z()] = false;
    }
    if (k == "trig") sys->trigger(op["id"].z(), data(op["id"].z(), op["v"].i()));
    if (k == "script") script[op["h"].z()] = op["acts"];
    if (k == "adv") HAL::delay(ms(op["d"]));
    if (k == "loop") {
        for (size_t i = 1; i < held.size(); ++i)
            for (auto& f : sys->pipeline().pipe()) busy[i] = busy[i] || (held[i] && f.get() == held[i].get());
        sys->loop();
        busy.assign(busy.size(), false);
    }
    if (k == "probe") {
        std::vector<std::shared_ptr<Event>> tmp;
        while (auto e = sys->event(size_t(1), k_time_ms(1), data(1, 1))) {
            if (tmp.size() > all.size() + 2) break;
            tmp.push_back(std::move(e));
        }
        res = tmp.size();
    }
    if (k == "destroy") sys.reset();

    if (k == "text") o.s("text", sys->pipeline_as_string());
    o.i("res", res).i("dt", in_units(now() - t0));
    std::string l3, lv, ids, hv;
    for (auto& e : log_) {
        const char* c = l3.empty() ? "" : ",";
        l3 += c + ("[" + std::to_string(e[0]) + "," + std::to_string(e[1]) + "," + mbv::Out::integer(e[2]) + "]");
        lv += c + ("[" + std::to_string(e[0]) + "," + std::to_string(e[1]) + "," + mbv::Out::integer(e[3]) + "]");
        ids += c + std::to_string(e[1]);
    }
    for (size_t i = 1; i < held.size(); ++i)
        hv += (i > 1 ? "," : "") + (held[i] ? "[" + std::to_string(held[i]->id()) + "," + mbv::Out::integer(value(*held[i])) + "]" : std::string("[0,0]"));
    o.raw("log_t", "[" + l3 + "]").raw("log_v", "[" + lv + "]").raw("ids", "[" + ids + "]").raw("held", "[" + hv + "]");
    o.i("next", sys ? in_units(sys->pipeline().time_until_next_future().raw()) : 0).i("wait", sys ? sys->pipeline().pipe().size() : 0);
    size_t alive = 0;
    if (!sys)
        for (auto& w : all) alive += !w.expired();
    o.i("alive", alive);
}
