#include "mbv.hpp"
#include "spine/platform/hal.hpp"
using mbv::J;
using Trigger = spn::core::TriggerType;

static board::State board_;
board::State& board::state() { return board_; }
HardwareSerial Serial;
static HardwareSerial port;
static char heap[16];
char* __brkval = heap;

enum { OUT_PIN = 4, IN_PIN = 5, PWM_PIN = 6, ADC_PIN = 8, IRQ_PIN = 17 };
static std::unique_ptr<HAL::DigitalOutput> out;
static std::unique_ptr<HAL::DigitalInput> in;
static std::unique_ptr<HAL::AnalogueOutput> pwm[2];
static std::unique_ptr<HAL::AnalogueInput> adc;
static std::unique_ptr<HAL::Interrupt> irq[2];
static std::unique_ptr<HAL::UART> uart;
static int fired;
static void first() { fired = fired ? 9 : 1; }
static void second() { fired = fired ? 9 : 2; }
typedef void (*Callback)();
static Callback callback(int64_t n) { return n == 1 ? first : n == 2 ? second : nullptr; }
static int mode(int pin) { return board_.mode.count(pin) ? board_.mode[pin] : -1; }
// anything done to a pin other than these
static bool stray(std::vector<int> pins) {
    const auto known = [&](int p) { return std::find(pins.begin(), pins.end(), p) != pins.end(); };
    for (auto& e : board_.mode)
        if (!known(e.first)) return true;
    for (auto& e : board_.level)
        if (!known(e.first)) return true;
    for (auto& e : board_.duty)
        if (!known(e.first)) return true;
    return false;
}
static void blank() {
    out.reset(), in.reset(), pwm[0].reset(), pwm[1].reset(), adc.reset(), irq[0].reset(), irq[1].reset(), uart.reset();
    board_ = {};
    Serial = {};
    __brkval = heap;
    port = {};
}
static void digital(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    bool seen = false;
    if (k == "newdigital") {
        blank();
        out = std::make_unique<HAL::DigitalOutput>(HAL::DigitalOutput::Config{.pin = OUT_PIN, .active_on_low = op["inv"].b()});
        in = std::make_unique<HAL::DigitalInput>(HAL::DigitalInput::Config{.pin = IN_PIN, .pull_up = op["pull"].b()});
    }
    if (k == "outinit") out->initialize(op["v"].b());
    if (k == "outset") {
        if (op["how"].s() == "bool")
            out->set_state(op["v"].b());
        else
            out->set_state(op["v"].b() ? spn::core::LogicalState::ON : spn::core::LogicalState::OFF);
    }
    if (k == "flip") out->flip();
    if (k == "ininit") in->initialize();
    if (k == "inread") {
        board_.reading[IN_PIN] = op["v"].b();
        seen = in->state();
    }
    o.i("omode", mode(OUT_PIN)).i("level", board_.level.count(OUT_PIN) ? board_.level[OUT_PIN] : -1).b("on", out->state() == spn::core::LogicalState::ON);
    o.i("imode", mode(IN_PIN)).b("seen", seen).b("stray", stray({OUT_PIN, IN_PIN}));
}
static void analogue(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    long read = 0;
    if (k == "newanalogue") {
        blank();
        for (int i = 0; i < 2; ++i)
            pwm[i] = std::make_unique<HAL::AnalogueOutput>(
                HAL::AnalogueOutput::Config{.pin = static_cast<uint8_t>(PWM_PIN + i), .active_on_low = op[i ? "inv2" : "inv"].b(), .resolution = static_cast<uint8_t>(op[i ? "res2" : "res"].i())});
        adc = std::make_unique<HAL::AnalogueInput>(HAL::AnalogueInput::Config{.pin = ADC_PIN, .pull_up = op["pull"].b()});
    }
    if (k == "anainit") pwm[op["k"].i() - 1]->initialize();
    if (k == "anaset") pwm[op["k"].i() - 1]->set_value(static_cast<float>(op["v"].i()) / 64.0f);
    if (k == "aininit") adc->initialize();
    if (k == "ainread") {
        board_.reading[ADC_PIN] = static_cast<int>(op["raw"].i());
        read = std::lround(adc->read() * 1024.0f);
    }
    std::vector<long> duty, val;
    std::string ends;
    for (int i = 0; i < 2; ++i) {
        const double d = board_.duty.count(PWM_PIN + i) ? board_.duty[PWM_PIN + i] : -2;
        duty.push_back(d == -2 ? -1 : d < 0 ? -9 : std::lround(d * 64));
        val.push_back(std::lround(pwm[i]->value() * 64));
        ends += d == 0 || d == 1 ? (i ? ",true" : "true") : (i ? ",false" : "false");
    }
    o.ia("duty", duty).ia("val", val).raw("ends", "[" + ends + "]").i("imode", mode(ADC_PIN)).i("read", read).b("stray", stray({PWM_PIN, PWM_PIN + 1, ADC_PIN}));
}
static void interrupt(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    fired = 0;
    if (k == "newirq") {
        blank();
        for (int i = 0; i < 2; ++i)
            irq[i] = std::make_unique<HAL::Interrupt>(HAL::Interrupt::Config{.pin = static_cast<uint8_t>(IRQ_PIN + i), .mode = static_cast<Trigger>(op[i ? "trig2" : "trig1"].i()),
                                                                             .pull_up = op["pull"].b(), .callback = callback(op[i ? "cb2" : "cb1"].i())});
    }
    const int i = op.has("k") ? static_cast<int>(op["k"].i()) - 1 : 0;
    if (k == "irqinit") irq[i]->initialize();
    if (k == "attach") {
        const auto t = static_cast<Trigger>(op["trig"].i());
        const auto c = callback(op["cb"].i());
        if (!c && t == Trigger::UNDEFINED)
            irq[i]->attach_interrupt();
        else if (t == Trigger::UNDEFINED)
            irq[i]->attach_interrupt(c);
        else
            irq[i]->attach_interrupt(c, t);
    }
    if (k == "detach") irq[i]->detach_interrupt();
    const auto number = [](int n) { return digitalPinToInterrupt(IRQ_PIN + n); };
    if (k == "edge") {
        const auto it = board_.interrupts.find(number(i));
        // 3 is a change, 1 rising, 2 falling on this board
        if (it != board_.interrupts.end() && (it->second.mode == 3 || it->second.mode == (op["edge"].i() == 0 ? 1 : 2))) it->second.callback();
    }
    std::vector<long> modes, att;
    size_t known = 0;
    for (int n = 0; n < 2; ++n) {
        modes.push_back(mode(IRQ_PIN + n));
        const auto it = board_.interrupts.find(number(n));
        known += it != board_.interrupts.end();
        att.push_back(it == board_.interrupts.end() ? 0 : it->second.callback == first ? 1 : it->second.callback == second ? 2 : 9);
    }
    o.ia("imodes", modes).ia("attached", att).i("fired", fired).b("stray", stray({IRQ_PIN, IRQ_PIN + 1}) || known != board_.interrupts.size());
}
static void serial(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    long res = 0;
    std::vector<uint8_t> vs, data;
    bool clean = true;
    if (op.has("vs"))
        for (auto x : op["vs"].ints()) vs.push_back(static_cast<uint8_t>(x));
    const std::string how = op.has("how") ? op["how"].s() : "";
    if (k == "newserial") {
        blank();
        port.room = op["room"].z();
        uart = std::make_unique<HAL::UART>(HAL::UART::Config{.stream = &port, .timeout = k_time_ms(op["timeout"].i())});
    }
    spn::io::Stream* s = uart.get();
    if (k == "serialinit") s->initialize();
    if (k == "arrive") port.rx.insert(port.rx.end(), vs.begin(), vs.end());
    if (k == "drain") port.room = op["room"].z(), port.tx.clear();
    if (k == "readone") {
        uint8_t v = 0xA5;
        res = s->read(v);
        if (res)
            data.push_back(v);
        else
            clean = v == 0xA5;
    }
    if (k == "readmany") {
        const auto n = op["n"].z();
        std::vector<uint8_t> b(n + 2, 0xA5);
        const auto got = how == "bytes" ? s->read(b.data() + 1, n) : s->read(reinterpret_cast<char*>(b.data() + 1), n);
        res = static_cast<long>(got);
        if (got <= n) data.assign(b.begin() + 1, b.begin() + 1 + static_cast<long>(got));
        clean = b.front() == 0xA5 && b.back() == 0xA5;
    }
    if (k == "write") {
        if (how == "byte")
            res = s->write(vs[0]);
        else if (how == "bytes")
            res = static_cast<long>(s->write(vs.data(), vs.size()));
        else if (how == "chars")
            res = static_cast<long>(s->write(reinterpret_cast<const char*>(vs.data()), vs.size()));
        else
            res = static_cast<long>(s->write(std::string_view(reinterpret_cast<const char*>(vs.data()), vs.size())));
    }
    if (k == "flush") {
        const int was = port.flushed;
        s->flush();
        res = port.flushed > was;
    }
    std::vector<long> tx;
    for (char c : port.tx) tx.push_back(static_cast<uint8_t>(c));
    o.i("res", res).ia("data", data).b("clean", clean).i("avail", s->available()).i("room", s->available_for_write()).ia("tx", tx).i("ms", board_.us / 1000);
}
static void clock(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "newclock") blank();
    Serial.room = 100000;
    Serial.tx.clear();
    if (k == "begin") HAL::initialize(HAL::Config{.baudrate = static_cast<uint32_t>(op["baud"].i())});
    if (k == "wait") {
        const auto& how = op["how"].s();
        const auto us = op["us"].i();
        if (how == "delay_us") HAL::delay_us(k_time_us(us));
        if (how == "delay_us_int") HAL::delay_us(static_cast<uint32_t>(us));
        if (how == "delay") HAL::delay(k_time_ms(us / 1000));
        if (how == "delay_ms") HAL::delay_ms(k_time_ms(us / 1000));
        if (how == "delay_ms_int") HAL::delay_ms(static_cast<uint32_t>(us / 1000));
    }
    if (k == "say") {
        const auto& how = op["how"].s();
        std::string text;
        for (size_t i = 0; i < op["len"].z(); ++i) text += static_cast<char>('a' + i % 23);
        const char* lit = text.c_str();
        if (how == "print") HAL::print(text);
        if (how == "printlit") HAL::print(lit);
        if (how == "println") HAL::println(text);
        if (how == "printf") HAL::printf("%s%c%d", text.size() > 2 ? text.substr(0, text.size() - 2).c_str() : "", text.size() > 1 ? '-' : '+', 7);
        auto want = how == "printf" ? (text.size() > 2 ? text.substr(0, text.size() - 2) : "") + (text.size() > 1 ? "-" : "+") + "7" : text + (how == "println" ? "\r\n" : "");
        o.i("length", Serial.tx.size()).b("right", want.compare(0, Serial.tx.size(), Serial.tx) == 0);
    }
    if (k == "grow") {
        // in units far larger than what the stack itself moves by
        const double unit = 16 << 20;
        const auto was = HAL::free_memory();
        __brkval = reinterpret_cast<char*>(reinterpret_cast<uintptr_t>(__brkval) + op["n"].z() * (16 << 20));
        o.i("lost", std::lround((static_cast<double>(was) - static_cast<double>(HAL::free_memory())) / unit));
    }
    if (k == "halt") {
        bool halted = false;
        try {
            op["msg"].b() ? HAL::halt("smoke") : HAL::halt();
        } catch (const board::Halted&) { halted = true; }
        o.b("halted", halted && !board_.interrupts_on);
        o.b("told", Serial.tx.find(op["msg"].b() ? "smoke" : "not specified") != std::string::npos);
        board_.interrupts_on = true;
    }
    o.i("ms", HAL::millis().raw()).i("us", HAL::micros().raw() - 1000 * HAL::millis().raw()).i("baud", Serial.baudrate);
}
void handle(const J& op, mbv::Out& o) {
    static std::string fam;
    const auto& k = op["op"].s();
    if (k.substr(0, 3) == "new") fam = k.substr(3);
    if (fam == "digital") digital(op, o);
    if (fam == "analogue") analogue(op, o);
    if (fam == "irq") interrupt(op, o);
    if (fam == "serial") serial(op, o);
    if (fam == "clock") clock(op, o);
}
