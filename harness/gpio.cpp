#include "mbv.hpp"
#include "spine/core/debugging.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
using mbv::J;
namespace sp = spn::platform;

static std::string pins;
static k_time_us t0;
static void pin(const char* w, long double v) {
    const auto at = (HAL::micros() - t0).raw();
    pins += (pins.empty() ? "{\"w\":" : ",{\"w\":") + mbv::quote(w) + ",\"v\":" + mbv::Out::num(v) + ",\"at\":" + (at % 1000 ? "-1" : std::to_string(at / 1000)) + "}";
}
struct Dig : sp::DigitalOutput<Dig> {
    void initialize_impl() { pin("init", 0); }
    void set_state_impl(spn::core::LogicalState s) { pin("dig", static_cast<int>(s)); }
};
struct Ana : sp::AnalogueOutput<Ana> {
    void initialize() { set_value(0); }
    void set_value_impl(float v) { pin("ana", mbv::scaled(v, 64)); }
};

// inputs of one's own, used through the bases only
static int inits, trigger, detached;
static bool called;
static void callback() { called = true; }
struct In : sp::DigitalInput<In> {
    bool level = false;
    void initialize() { ++inits; }
    bool state() const { return level; }
};
struct AnaIn : sp::AnalogueInput<AnaIn> {
    float level = 0;
    void initialize() { ++inits; }
    float read() { return level; }
};
struct AnaOut : sp::AnalogueOutput<AnaOut> {
    void initialize() { ++inits; }
    void set_value_impl(float) {}
};
struct Irq : sp::Interrupt<Irq> {
    void initialize() { ++inits; }
    void attach_interrupt(void (*f)(), TriggerType t) {
        trigger = static_cast<int>(t);
        if (f) f();
    }
    void detach_interrupt() { ++detached; }
};

struct Base {
    virtual ~Base() = default;
    virtual void run(const J& op) = 0;
    virtual bool dig() const = 0;
    virtual float val() const = 0;
};
template<typename D, typename A>
struct Rig : Base {
    D d;
    A a;
    Rig(D&& d, A&& a) : d(std::move(d)), a(std::move(a)) {}
    bool dig() const override { return d.state() == spn::core::LogicalState::ON; }
    float val() const override { return a.value(); }
    void run(const J& op) override {
        const auto& k = op["op"].s();
        if (k == "diginit") {
            if (op["dflt"].b())
                d.initialize();
            else
                d.initialize(op["v"].b());
        }
        if (k == "digset") {
            if (op["how"].s() == "bool")
                d.set_state(op["v"].b());
            else
                d.set_state(op["v"].b() ? spn::core::LogicalState::ON : spn::core::LogicalState::OFF);
        }
        if (k == "anainit") a.initialize();
        if (k == "flip") d.flip();
        if (k == "set") a.set_value(op["v"].i() / 64.0f);
        if (k == "fade") {
            const float to = op["to"].i() / 64.0f, inc = op["inc"].i() / 64.0f;
            const auto& how = op["how"].s();
            if (how == "full")
                a.fade_to(to, inc, k_time_ms(op["ms"].i()));
            else if (how == "pace")
                a.fade_to(to, inc);
            else
                a.fade_to(to);
        }
    }
};
// outputs whose pins cannot be watched: only what they report and how long it takes is compared
static std::unique_ptr<Base> rig;

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    pins.clear();
    if (k == "new") {
        if (op["how"].s() == "own")
            rig = std::make_unique<Rig<Dig, Ana>>(Dig{}, Ana{});
        else
            rig = std::make_unique<Rig<HAL::DigitalOutput, HAL::AnalogueOutput>>(HAL::DigitalOutput(HAL::DigitalOutput::Config{.pin = 1, .active_on_low = false}),
                                                                                HAL::AnalogueOutput(HAL::AnalogueOutput::Config{.pin = 2, .active_on_low = true}));
    }
    t0 = HAL::micros();
    if (k == "sense") {
        inits = detached = 0, trigger = -1, called = false;
        In in;
        AnaIn ain;
        AnaOut aout;
        Irq irq;
        sp::DigitalInput<In>& din = in;
        sp::AnalogueInput<AnaIn>& an = ain;
        sp::AnalogueOutput<AnaOut>& out = aout;
        sp::Interrupt<Irq>& ir = irq;
        din.initialize(), an.initialize(), out.initialize(), ir.initialize();
        in.level = op["v"].b();
        ain.level = op["a"].i() / 64.0f;
        using T = sp::Interrupt<Irq>::TriggerType;
        const auto t = static_cast<T>(op["trig"].i());
        if (op["call"].b())
            ir.attach_interrupt(callback, t);
        else if (t == T::UNDEFINED)
            ir.attach_interrupt();
        else
            ir.attach_interrupt(nullptr, t);
        ir.detach_interrupt();
        o.b("state", din.state() == spn::core::LogicalState::ON).i("read", mbv::scaled(an.read(), 64)).i("inits", inits);
        o.i("trigger", trigger).b("called", called).i("detached", detached);
        return;
    }
    if (k == "inputs") {
        HAL::DigitalInput in(HAL::DigitalInput::Config{.pin = 3});
        HAL::AnalogueInput an(HAL::AnalogueInput::Config{.pin = 4, .pull_up = false});
        HAL::Interrupt irq(HAL::Interrupt::Config{.pin = 5, .mode = spn::core::TriggerType::UNDEFINED, .pull_up = false, .callback = nullptr});
        in.initialize(), an.initialize(), irq.initialize();
        irq.attach_interrupt();
        irq.detach_interrupt();
        const auto took = (HAL::micros() - t0).raw();
        o.b("digital", in.state()).i("analogue", mbv::scaled(an.read(), 64)).i("took", took);
        return;
    }
    if (k != "new") rig->run(op);
    const auto took = (HAL::micros() - t0).raw();
    o.raw("pins", "[" + pins + "]");
    o.i("took", took % 1000 ? -1 : took / 1000).b("dig", rig->dig()).i("val", mbv::scaled(rig->val(), 64));
}
