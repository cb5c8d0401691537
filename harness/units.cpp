#include "mbv.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"

#include <cmath>
#include <functional>
#include <tuple>

using namespace spnu;

template<typename... U> struct List {};
struct Own {}; // a family of the user's own, with every magnitude there is
template<typename M> using own = Unit<Own, M, RealRawType>;
// one list for every family, with the alias' names
#define FAMILIES                                                                                                       \
    FAM(gray) FAM(mole) FAM(farad_p, farad_n, farad_u, farad_m, farad) FAM(katal)                                      \
    FAM(coulomb_n, coulomb_u, coulomb_m, coulomb) FAM(siemens_u, siemens_m, siemens) FAM(amp_u, amp_m, amp)            \
    FAM(sievert) FAM(joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T)                    \
    FAM(newton, newton_k) FAM(hertz, hertz_k, hertz_M, hertz_G) FAM(lux) FAM(henry)                                    \
    FAM(meter_n, meter_u, meter_m, meter_c, meter_d, meter, meter_k) FAM(lumen) FAM(weber) FAM(tesla)                  \
    FAM(gram_u, gram_m, gram, gram_k) FAM(volt_u, volt_m, volt) FAM(watt_m, watt, watt_k, watt_M, watt_G)              \
    FAM(pascal, pascal_k, pascal_M) FAM(becquerel) FAM(ohm_m, ohm, ohm_k, ohm_M) FAM(kelvin) FAM(celsius)              \
    FAM(time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_M, time_Y) FAM(litre_ml, litre, cubic_metre)                  \
    FAM(own<Atto>, own<Femto>, own<Pico>, own<Nano>, own<Micro>, own<Milli>, own<Centi>, own<Deci>, own<Base>,          \
        own<Deca>, own<Hecto>, own<Kilo>, own<Mega>, own<Giga>, own<Tera>, own<Peta>, own<Exa>)

// a value scaled to the whole number that is expected: that number, or something else when it is off
static int64_t whole(double x) {
    const double n = std::nearbyint(x);
    if (!(std::fabs(x) < 1e15) || std::fabs(x - n) > 0.25 || std::fabs(x - n) > 1e-6 + 3e-6 * std::fabs(n)) return -1000000000 - static_cast<int64_t>(std::fmod(std::fabs(x), 1000.0));
    return static_cast<int64_t>(n);
}
// the same after several operations, where errors are relative to what was there before
static int64_t near(double x) {
    const double n = std::nearbyint(x);
    if (!(std::fabs(x) < 1e15) || std::fabs(x - n) > 0.25) return -1000000000 - static_cast<int64_t>(std::fmod(std::fabs(x), 1000.0));
    return static_cast<int64_t>(n);
}

template<typename A, typename B>
static std::string bits(const A& a, const B& b) {
    const bool c[] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
    std::string r = "[";
    for (int i = 0; i < 6; ++i) r += (i ? "," : "") + std::to_string(static_cast<int>(c[i]));
    return r + "]";
}

struct Thrower : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override { throw std::string(e.what()); }
};
template<typename F>
static std::string throws(F f) {
    auto before = spn::core::set_machine_exception_handler(std::make_unique<Thrower>());
    std::string r = "[0]";
    try {
        f();
    } catch (const std::string&) {
        r = "[1]";
    }
    spn::core::set_machine_exception_handler(std::move(before));
    return r;
}

struct Unit0 {
    virtual ~Unit0() = default;
    virtual float raw() const = 0;
    virtual bool negative() const = 0;
    virtual std::unique_ptr<Unit0> convert(size_t to, const std::string& how) const = 0;
    virtual void bin(const std::string& op, const Unit0& other, bool as) = 0;
    virtual void scalar(const std::string& op, int k, bool as) = 0;
    virtual void neg() = 0;
    virtual std::string cmp(const Unit0& other) const = 0;
    virtual std::string zero(const std::string& how) = 0;
};
using Maker = std::function<std::unique_ptr<Unit0>(float)>;
static std::vector<Maker> makers;      // by index, in the order of the list above

template<typename U, typename L> struct Held;
template<typename U, typename... Us>
struct Held<U, List<Us...>> : Unit0 {
    using L = List<Us...>;
    U u;
    size_t first; // index of the first of the family
    Held(U v, size_t f) : u(v), first(f) {}
    float raw() const override { return static_cast<float>(u.raw()); }
    bool negative() const override { return u.is_negative(); }
    template<typename F>
    void each(F f) const {
        size_t i = first;
        (f(static_cast<Us*>(nullptr), i++), ...);
    }
    std::unique_ptr<Unit0> convert(size_t to, const std::string& how) const override {
        std::unique_ptr<Unit0> r;
        each([&](auto* t, size_t i) {
            if (i != to) return;
            using T = std::decay_t<decltype(*t)>;
            T x(7);
            U copy(u);
            if (how == "make")
                x = T(u);
            else if (how == "assign")
                x = u;
            else
                x = std::move(copy);
            r = std::make_unique<Held<T, L>>(x, first);
        });
        return r;
    }
    template<typename F>
    void with(const Unit0& o, F f) const {
        each([&](auto* t, size_t) {
            using T = std::decay_t<decltype(*t)>;
            if (auto* h = dynamic_cast<const Held<T, L>*>(&o)) f(h->u);
        });
    }
    void bin(const std::string& op, const Unit0& other, bool as) override {
        with(other, [&](const auto& b) {
            if (op == "add") {
                if (as)
                    u += b;
                else
                    u = u + b;
            } else if (op == "sub") {
                if (as)
                    u -= b;
                else
                    u = u - b;
            } else if (op == "mulu")
                u = u * b;
            else
                u = u / b;
        });
    }
    void scalar(const std::string& op, int k, bool as) override {
        if (op == "mul") {
            if (as)
                u *= k;
            else
                u = u * k;
        } else {
            if (as)
                u /= k;
            else
                u = u / k;
        }
    }
    void neg() override { u = -u; }
    std::string cmp(const Unit0& other) const override {
        std::string r;
        with(other, [&](const auto& b) { r = bits(u, b); });
        return r;
    }
    std::string zero(const std::string& how) override {
        U keep(u);
        const auto r = throws([&] {
            if (how == "scalar")
                u = u / 0;
            else if (how == "assign")
                u /= 0;
            else
                u = u / U(0);
        });
        u = keep;
        return r;
    }
};
template<typename... Us>
static void family(List<Us...>) {
    const size_t first = makers.size();
    (makers.push_back([first](float v) -> std::unique_ptr<Unit0> { return std::make_unique<Held<Us, List<Us...>>>(Us(v), first); }), ...);
}
static void setup() {
    if (!makers.empty()) return;
#define FAM(...) family(List<__VA_ARGS__>{});
    FAMILIES
#undef FAM
}
// the specification lists the units in the same order, from one
static size_t idx(int64_t i) { return static_cast<size_t>(i) - 1; }
static std::unique_ptr<Unit0> reg;

/* compounds: millilitre or litre per second or minute */
struct Comp0 {
    virtual ~Comp0() = default;
    virtual std::unique_ptr<Comp0> convert(int to, bool assign) const = 0;
    virtual void bin(const std::string&, const Comp0&, bool) = 0;
    virtual void scalar(const std::string&, int, bool) = 0;
    virtual void neg() = 0;
    virtual void simplify(int by) = 0;
    virtual std::string cmp(const Comp0&) const = 0;
    virtual std::string zero(const std::string& how) = 0;
    virtual float raw() const = 0;
    virtual float num() const = 0;
    virtual float den() const = 0;
};
using C1 = CompoundUnit<litre_ml, time_s>;
using C2 = CompoundUnit<litre, time_s>;
using C3 = CompoundUnit<litre_ml, time_m>;
using C4 = CompoundUnit<litre, time_m>;
static std::unique_ptr<Comp0> comp;

template<typename C>
struct HeldC : Comp0 {
    C c;
    explicit HeldC(const C& v) : c(v) {}
    template<typename T>
    std::unique_ptr<Comp0> make(bool assign) const {
        if (!assign) return std::make_unique<HeldC<T>>(T(c));
        T x(typename T::NumeratorType(3), typename T::DenominatorType(2)); // whatever it was before
        x = c;
        return std::make_unique<HeldC<T>>(x);
    }
    std::unique_ptr<Comp0> convert(int to, bool assign) const override {
        switch (to) {
        case 1: return make<C1>(assign);
        case 2: return make<C2>(assign);
        case 3: return make<C3>(assign);
        default: return make<C4>(assign);
        }
    }
    template<typename F>
    static void with(const Comp0& o, F f) {
        if (auto* a = dynamic_cast<const HeldC<C1>*>(&o)) f(a->c);
        if (auto* a = dynamic_cast<const HeldC<C2>*>(&o)) f(a->c);
        if (auto* a = dynamic_cast<const HeldC<C3>*>(&o)) f(a->c);
        if (auto* a = dynamic_cast<const HeldC<C4>*>(&o)) f(a->c);
    }
    void bin(const std::string& op, const Comp0& other, bool as) override {
        with(other, [&](const auto& b) {
            if (op == "cadd") {
                if (as)
                    c += b;
                else
                    c = c + b;
            } else {
                if (as)
                    c -= b;
                else
                    c = c - b;
            }
        });
    }
    void scalar(const std::string& op, int k, bool as) override {
        if (op == "cmul") {
            if (as)
                c *= k;
            else
                c = c * k;
        } else {
            if (as)
                c /= k;
            else
                c = c / k;
        }
    }
    void neg() override { c = -c; }
    void simplify(int by) override { c.simplify(static_cast<RealRawType>(by)); }
    std::string cmp(const Comp0& o) const override {
        std::string r;
        with(o, [&](const auto& b) { r = bits(c, b); });
        return r;
    }
    std::string zero(const std::string& how) override {
        C keep(c);
        const auto r = throws([&] {
            if (how == "scalar")
                c = c / 0;
            else if (how == "assign")
                c /= 0;
            else
                (void)C(c.numerator(), typename C::DenominatorType(0)).raw();
        });
        c = keep;
        return r;
    }
    float raw() const override { return static_cast<float>(c.raw()); }
    float num() const override { return static_cast<float>(litre_ml(c.numerator()).raw()); }
    float den() const override { return static_cast<float>(time_s(c.denominator()).raw()); }
};
// p millilitre in q seconds, given in millilitre or litre (ni), in seconds or minutes (di)
template<typename C>
static std::unique_ptr<Comp0> load(int64_t p, int64_t q, int64_t ni, int64_t di) {
    const auto P = static_cast<float>(p), Q = static_cast<float>(q);
    if (ni == 1 && di == 1) return std::make_unique<HeldC<C>>(C(litre_ml(P), time_s(Q)));
    if (ni == 2 && di == 1) return std::make_unique<HeldC<C>>(C(litre(P / 1000), time_s(Q)));
    if (ni == 1) return std::make_unique<HeldC<C>>(C(litre_ml(P), time_m(Q / 60)));
    return std::make_unique<HeldC<C>>(C(litre(P / 1000), time_m(Q / 60)));
}
static std::unique_ptr<Comp0> load(int64_t kind, int64_t p, int64_t q, int64_t ni, int64_t di) {
    switch (kind) {
    case 1: return load<C1>(p, q, ni, di);
    case 2: return load<C2>(p, q, ni, di);
    case 3: return load<C3>(p, q, ni, di);
    default: return load<C4>(p, q, ni, di);
    }
}

void handle(const mbv::J& op, mbv::Out& o) {
    setup();
    const auto& k = op["op"].s();
    if (k == "pair") {
        const float x = static_cast<float>(op["n"].i()) / 4;
        const auto y = makers[idx(op["a"].i())](x)->convert(idx(op["b"].i()), op["how"].s());
        if (!y) return;
        o.i("v", whole(static_cast<double>(y->raw()) * 4 * static_cast<double>(op["den"].i()) / static_cast<double>(op["num"].i()) * std::pow(10.0, static_cast<double>(-op["e"].i()))));
    } else if (k == "pcmp") {
        const auto a = makers[idx(op["a"].i())](static_cast<float>(op["n"].i()));
        const auto b = makers[idx(op["b"].i())](static_cast<float>(op["k"].i()));
        o.raw("ab", a->cmp(*b));
        o.raw("ba", b->cmp(*a));
    } else if (k == "temp") {
        const float x = static_cast<float>(op["n"].i()) / 4;
        const auto& to = op["to"].s();
        float y = 0;
        if (to == "kelvin")
            y = to_kelvin(celsius(x)).raw();
        else if (to == "celsius")
            y = to_celsius(kelvin(x)).raw();
        else if (to == "kelvin same")
            y = to_kelvin(kelvin(x)).raw();
        else
            y = to_celsius(celsius(x)).raw();
        o.i("v", near(static_cast<double>(y) * 100));
    } else if (k == "lowest") {
        if (op["int"].b()) {
            CompoundUnit<k_time_ms, k_time_s> c(k_time_ms(op["x"].i()), k_time_s(op["y"].i()));
            c.simplify(static_cast<RealRawType>(op["d"].i()));
            o.i("n", c.numerator().raw());
            o.i("d", c.denominator().raw());
        } else {
            C1 c(litre_ml(static_cast<float>(op["x"].i())), time_s(static_cast<float>(op["y"].i())));
            c.simplify(static_cast<RealRawType>(op["d"].i()));
            o.i("n", near(c.numerator().raw()));
            o.i("d", near(c.denominator().raw()));
        }
    } else if (k[0] == 'c' && k != "conv" && k != "cmp") {
        std::string res = "[]";
        if (k == "cload") {
            comp = load(op["i"].i(), op["p"].i(), op["q"].i(), op["ni"].i(), op["di"].i());
            o.i("n", near(comp->num()));
            o.i("d", near(comp->den()));
        } else if (k == "cconv")
            comp = comp->convert(static_cast<int>(op["i"].i()), op["how"].s() == "assign");
        else if (k == "cadd" || k == "csub")
            comp->bin(k, *load(op["i"].i(), op["p"].i(), op["q"].i(), 1, 1), op["as"].b());
        else if (k == "cmul" || k == "cdiv")
            comp->scalar(k, static_cast<int>(op["k"].i()), op["as"].b());
        else if (k == "cneg")
            comp->neg();
        else if (k == "ccmp")
            res = comp->cmp(*load(op["i"].i(), op["p"].i(), op["q"].i(), 1, 1));
        else if (k == "czero")
            res = comp->zero(op["how"].s());
        const float raw = comp->raw();
        o.i("raw", near(static_cast<double>(raw) * static_cast<double>(op["mul"].i())));
        const auto same = comp->convert(1, false); // what the accessors say agrees with the value
        o.b("kept", std::fabs(static_cast<double>(comp->num()) - static_cast<double>(same->raw()) * static_cast<double>(comp->den())) <= 1e-4 * std::fabs(static_cast<double>(comp->num())) + 1e-3);
        o.raw("res", res);
    } else if (k == "simplify") {
        comp->simplify(static_cast<int>(op["by"].i()));
        o.i("raw", near(static_cast<double>(comp->raw()) * static_cast<double>(op["mul"].i())));
        o.b("kept", true);
        o.raw("res", "[]");
    } else {
        std::string res = "[]";
        if (k == "load")
            reg = makers[idx(op["i"].i())](static_cast<float>(op["n"].i()));
        else if (k == "conv")
            reg = reg->convert(idx(op["i"].i()), op["how"].s());
        else if (k == "add" || k == "sub" || k == "mulu" || k == "divu")
            reg->bin(k, *makers[idx(op["i"].i())](static_cast<float>(op["n"].i())), op.has("as") && op["as"].b());
        else if (k == "mul" || k == "div")
            reg->scalar(k, static_cast<int>(op["k"].i()), op["as"].b());
        else if (k == "neg")
            reg->neg();
        else if (k == "cmp")
            res = reg->cmp(*makers[idx(op["i"].i())](static_cast<float>(op["n"].i())));
        else if (k == "zero")
            res = reg->zero(op["as"].s());
        o.i("v", near(static_cast<double>(reg->raw()) * static_cast<double>(op["f"].i())));
        o.b("neg", reg->negative());
        o.raw("res", res);
    }
}
