// misuse of a debug build: every assertion ends the call that made it
#define MBV_NO_RECORDER
#define MBV_EXCEPTIONS // exceptions are part of what is observed
#include "mbv.hpp"
#include "spine/controller/pid.hpp"
#include "spine/core/debugging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/vector.hpp"
using mbv::J;
using namespace spn::structure;
using namespace spn::io;
namespace core = spn::core;

struct Reported {};
struct Judge : core::ExceptionHandler {
    void handle_exception(const core::Exception& e) override {
        if (std::string(e.error_type()) != "Assertion exception") std::abort();
        throw Reported{};
    }
};

struct Bare : Stream {
    void initialize() override {}
};
struct Lines : Stream {
    std::string in;
    void initialize() override {}
    bool read(uint8_t& v) override {
        if (in.empty()) return false;
        v = in[0];
        in.erase(0, 1);
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && read(b[k])) ++k;
        return k;
    }
    size_t available() const override { return in.size(); }
    size_t available_for_write() const override { return 0; }
    void flush() override {}
};
struct Obj {
    int id;
};
struct ObjPool : Pool<Obj> {
    using Pool<Obj>::Pool;
    std::vector<int> ids() {
        std::vector<int> r;
        for (auto& p : _pointers) r.push_back(p->id);
        return r;
    }
};
struct System : core::EventSystem {
    using EventSystem::EventSystem;
    size_t waiting() { return _pipeline.pipe().size(); }
};
struct Handler : core::EventHandler {
    using EventHandler::EventHandler;
    core::EventSystem* system() { return evsys(); }
    void base(const core::Event& e) { EventHandler::handle_event(e); }
    void handle_event(const core::Event&) override {}
};
struct Ana : spn::platform::AnalogueOutput<Ana> {
    void set_value_impl(float) {}
};

static std::string w = "none";
static std::unique_ptr<Vector<int>> vec;
static std::unique_ptr<ObjPool> pool;
static std::vector<std::shared_ptr<Obj>> objs;
using R = Result<int, float, std::string>;
static std::unique_ptr<R> res;
static core::Event::Data data;
static std::unique_ptr<BufferedStream> bs;
static std::unique_ptr<Transaction> tx, elsewhere;
static std::unique_ptr<System> sys;
static std::vector<std::shared_ptr<core::Event>> events;
static std::vector<int> attached;
static std::unique_ptr<Handler> handler;
static bool adopted;
static std::unique_ptr<spn::eventsystem::Pipeline> pipe_;
static Handler sink(nullptr);
static volatile long sum;

static std::unique_ptr<BufferedStream> stream(size_t out, bool line) {
    auto l = std::make_shared<Lines>();
    if (line) l->in = "a\r\n";
    BufferedStream::Config cfg;
    cfg.input_buffer_size = 8;
    cfg.output_buffer_size = out;
    auto b = std::make_unique<BufferedStream>(l, std::move(cfg));
    b->pull_in_data();
    return b;
}

static void on_vec(const J& op) {
    const auto& f = op["f"].s();
    const size_t i = op.has("i") ? op["i"].z() : 0;
    const int v = op.has("v") ? op["v"].i() : 0;
    if (f == "push_back") vec->push_back(v);
    if (f == "emplace_back") vec->emplace_back(int(v));
    if (f == "push_front") vec->push_front(v);
    if (f == "emplace_front") vec->emplace_front(int(v));
    if (f == "insert") vec->insert(i, v);
    if (f == "pop_back") sum = vec->pop_back();
    if (f == "pop_front") sum = vec->pop_front();
    if (f == "peek_back") sum = vec->peek_back();
    if (f == "peek_front") sum = vec->peek_front();
    if (f == "at") sum = vec->at(i);
    if (f == "index") sum = (*vec)[i];
    if (f == "const_index") sum = std::as_const(*vec)[i];
    if (f == "remove") sum = vec->remove(i);
}
static void on_pool(const J& op) {
    const auto& f = op["f"].s();
    if (f == "acquire") {
        if (auto p = pool->acquire()) objs.push_back(std::move(p));
    } else if (f == "depopulate") {
        auto p = pool->depopulate();
        objs.clear();
    } else if (f == "populate_raw") {
        auto p = std::make_unique<Obj>(Obj{int(op["v"].i())});
        pool->populate(p.get());
        p.release();
    } else if (f == "populate_value")
        pool->populate(Obj{int(op["v"].i())});
    else
        pool->populate(std::make_shared<Obj>(Obj{int(op["v"].i())}));
}
static void on_res(const std::string& f) {
    if (f == "value") sum = res->value();
    if (f == "arrow") sum = *res->operator->();
    if (f == "star") sum = **res;
    if (f == "unwrap") sum = res->unwrap();
    if (f == "intermediary") sum = res->intermediary_value().size();
    if (f == "unwrap_intermediary") sum = res->unwrap_intermediary_value().size();
    if (f == "error") sum = res->error_value();
    if (f == "unwrap_error") sum = res->unwrap_error_value();
}
static void on_data(const std::string& f) {
    if (f == "value") sum = data.value();
    if (f == "unsigned") sum = data.unsigned_value();
    if (f == "ms") sum = data.ms().raw();
    if (f == "s") sum = data.s().raw();
}
static void on_tx(const J& op) {
    const auto& f = op["f"].s();
    if (f == "commit") tx->commit();
    if (f == "abort") tx->abort();
    if (f == "away") elsewhere = std::make_unique<Transaction>(std::move(*tx));
    if (f == "incoming") sum = tx->incoming().size();
    if (f == "put") tx->outgoing('x');
    if (f == "puts") tx->outgoing("xxxxxxxx", op["v"].z());
}
static void on_ev(const J& op) {
    const auto& f = op["f"].s();
    const size_t v = op["v"].z();
    if (f == "attach") {
        sys->attach(v, &sink);
        attached.at(v) = 1;
    }
    if (f == "attach_null") sys->attach(0, nullptr);
    if (f == "trigger") sys->trigger(v);
    if (f == "trigger_null") sys->trigger(std::shared_ptr<core::Event>());
    if (f == "take") {
        if (auto e = sys->event(size_t(0), k_time_ms(1))) events.push_back(std::move(e));
    }
    if (f == "schedule") sys->schedule(size_t(0), k_time_ms(v));
    if (f == "detach") sys->detach(sink);
}
static void on_handler(const std::string& f) {
    if (f == "adopt") {
        handler->attach_event_system(sys.get());
        adopted = true;
    }
    if (f == "adopt_null") handler->attach_event_system(nullptr);
    if (f == "system" && handler->system() != sys.get()) std::abort();
    if (f == "handle") handler->base(core::Event());
}
static void once(const J& op) {
    using spn::structure::time::Schedule;
    using spn::controller::PIDController;
    const auto& f = op["f"].s();
    std::vector<int64_t> a;
    for (auto x : op["a"].ints()) a.push_back(x);
    static float in = 0, out = 0, sp = 0;
    if (f == "schedule") {
        auto b = [&](size_t i) { return Schedule::Block{k_time_s(0), k_time_s(a[i]), 1.0f}; };
        if (a.size() == 0) Schedule({});
        if (a.size() == 1) Schedule({b(0)});
        if (a.size() == 2) Schedule({b(0), b(1)});
        if (a.size() == 3) Schedule({b(0), b(1), b(2)});
    }
    if (f == "alarm") spn::structure::time::AlarmTimer(HAL::millis() + k_time_ms(a[0]), true);
    if (f == "ring") RingBuffer<int> r(static_cast<size_t>(a[0]));
    if (f == "pid") {
        spn::controller::PID::Config cfg;
        cfg.sample_interval = k_time_ms(a[0]);
        spn::controller::PID p(std::move(cfg));
    }
    if (f == "gains") {
        PIDController p(&in, &out, &sp, 1, 1, 1, PIDController::Direction::FORWARD);
        p.set_tunings(a[0], a[1], a[2], PIDController::Proportionality::ON_ERROR);
    }
    if (f == "wires") PIDController(a[0] ? &in : nullptr, a[1] ? &out : nullptr, a[2] ? &sp : nullptr, 1, 1, 1, PIDController::Proportionality::ON_ERROR, PIDController::Direction::FORWARD);
    if (f == "band") {
        using B = spn::filter::BandPass<float>;
        B::Config c{};
        c.mode = B::Mode::ABSOLUTE;
        c.mantissa = static_cast<float>(a[0]) / 10;
        c.decades = 1;
        B b(std::move(c));
    }
    if (f == "invert") {
        spn::filter::Invert<float> i({float(a[1]), float(a[2])});
        i.value(float(a[0]));
    }
    if (f == "fade") {
        Ana x;
        x.fade_to(a[0] / 10.0f, 1.0f, k_time_ms(1));
    }
    if (f == "stream") {
        Bare s;
        uint8_t b[4] = {};
        if (a[0] == 0) s.Stream::read(b, 4);
        if (a[0] == 1) s.Stream::read(b[0]);
        if (a[0] == 2) (void)s.available();
        if (a[0] == 3) (void)s.available_for_write();
        if (a[0] == 4) s.Stream::write(b, 4);
        if (a[0] == 5) s.Stream::write(b[0]);
        if (a[0] == 6) s.flush();
    }
    if (f == "nulls") {
        spn::filter::Stack<float> s(1);
        if (a[0]) s.attach_filter(nullptr);
        else s.attach_filter(std::make_unique<spn::filter::Passthrough<float>>(spn::filter::Passthrough<float>::Config{}));
        sum = s.value(1.0f);
    }
}

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (core::machine_exception_handler() == nullptr) {
        core::set_machine_exception_handler(std::make_unique<Judge>());
        spn::platform::MockStateInstance().millis = k_time_ms(1000);
    }
    bool asserted = false;
    if (k == "once" || k == "begin") w = "none";
    try {
        if (k == "new") {
            w = op["w"].s();
            const size_t n = op["n"].z();
            objs.clear();
            pool.reset();
            events.clear();
            tx.reset();
            elsewhere.reset();
            handler.reset();
            sys.reset();
            if (w == "vec") vec = std::make_unique<Vector<int>>(n);
            if (w == "pool") {
                pool = std::make_unique<ObjPool>(n);
                for (size_t i = 1; i <= n; ++i) pool->populate(Obj{int(i)});
            }
            if (w == "res") res = std::make_unique<R>(n == 1 ? R(5) : n == 2 ? R::intermediary(std::string("more")) : R::failed(2.0f));
            if (w == "data") data = n == 1 ? core::Event::Data(1.0f) : n == 2 ? core::Event::Data(uint32_t(1)) : n == 3 ? core::Event::Data(k_time_ms(1)) : n == 4 ? core::Event::Data(k_time_s(1)) : core::Event::Data();
            if (w == "tx") {
                bs = stream(n, true);
                tx = std::make_unique<Transaction>(bs.get());
            }
            if (w == "events" || w == "handler")
                sys = std::make_unique<System>(core::EventSystem::Config{.events_count = 2, .events_cap = w == "events" ? n : 1, .handler_cap = 1, .delay_between_ticks = false});
            attached = {0, 0};
            adopted = false;
            if (w == "handler") handler = std::make_unique<Handler>(nullptr);
            if (w == "pipe") pipe_ = std::make_unique<spn::eventsystem::Pipeline>(n);
        }
        if (k == "vec") on_vec(op);
        if (k == "pool") on_pool(op);
        if (k == "res") on_res(op["f"].s());
        if (k == "data") on_data(op["f"].s());
        if (k == "tx") on_tx(op);
        if (k == "begin") {
            auto b = stream(2, op["line"].b());
            Transaction t(op["stream"].b() ? b.get() : nullptr);
        }
        if (k == "ev") on_ev(op);
        if (k == "handler") on_handler(op["f"].s());
        if (k == "pipe") {
            if (op["f"].s() == "push") pipe_->push(std::make_shared<core::Future>(k_time_ms(op["v"].i())));
            else (void)pipe_->expire();
        }
        if (k == "once") once(op);
    } catch (const Reported&) {
        asserted = true;
    }
    std::vector<int> q;
    size_t b = 0;
    if (w == "vec")
        for (auto& x : *vec) q.push_back(x);
    if (w == "pool") q = pool->ids(), b = objs.size();
    if (w == "tx") b = tx->is_finalized();
    if (w == "events") q = attached, b = events.size() + sys->waiting();
    if (w == "handler") b = adopted;
    if (w == "pipe")
        for (auto& f : pipe_->pipe()) q.push_back(f->time_until_future().raw());
    o.b("asserted", asserted).ia("q", q).i("b", b);
}
