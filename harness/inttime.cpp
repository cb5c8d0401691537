#include "mbv.hpp"
#include "spine/structure/units/si.hpp"
#include <tuple>
#include <variant>

using Any = std::variant<k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>;
static Any reg;

static Any unit(size_t u, int64_t v) {
    switch (u) {
    case 1: return k_time_us(v);
    case 2: return k_time_ms(v);
    case 3: return k_time_s(v);
    case 4: return k_time_m(v);
    case 5: return k_time_h(v);
    default: return k_time_d(v);
    }
}
static int64_t big(const mbv::J& j) {
    unsigned __int128 m = 0;
    for (size_t i = j["m"].a.size(); i-- > 0;) m = m * 10000 + j["m"].a[i].n;
    return j["n"].b() ? -static_cast<int64_t>(m) : static_cast<int64_t>(m);
}
static std::string limbs(int64_t v) {
    unsigned __int128 m = v < 0 ? -static_cast<__int128>(v) : static_cast<__int128>(v);
    std::string r;
    for (; m; m /= 10000) r += (r.empty() ? "" : ",") + std::to_string(static_cast<int>(m % 10000));
    return std::string("{\"n\":") + (v < 0 ? "true" : "false") + ",\"m\":[" + r + "]}";
}
using Rounding = float (*)(float);
static float fl(float x) { return std::floor(x); }
static float rd(float x) { return std::round(x); }
template<typename R>
static Any kernel(R r, const std::string& by) {
    if (by == "floor") return Any(to_kernel_time(r, fl));
    if (by == "round") return Any(to_kernel_time(r, rd));
    return Any(to_kernel_time(r));
}

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    std::string res = "0";
    if (k == "set")
        reg = unit(op["u"].z(), big(op["v"]));
    else if (k == "real") {
        const float x = op["half"].i() / 2.0f;
        switch (op["u"].z()) {
        case 1: reg = kernel(time_us(x), op["by"].s()); break;
        case 2: reg = kernel(time_ms(x), op["by"].s()); break;
        case 3: reg = kernel(time_s(x), op["by"].s()); break;
        case 4: reg = kernel(time_m(x), op["by"].s()); break;
        case 5: reg = kernel(time_h(x), op["by"].s()); break;
        default: reg = kernel(time_d(x), op["by"].s()); break;
        }
    } else if (k == "conv" || k == "back") {
        Any target = unit(op["u"].z(), 0);
        const auto before = reg;
        const std::string how = k == "back" ? "make" : op["how"].s();
        std::visit(
            [&](const auto& from, auto& to) {
                using To = std::decay_t<decltype(to)>;
                auto copy = from;
                if (how == "make")
                    to = To(from);
                else if (how == "assign")
                    to = from;
                else
                    to = std::move(copy);
            },
            reg, target);
        if (k == "conv")
            reg = target;
        else // a finer unit and back again
            std::visit(
                [&](const auto& from, const auto& fine) {
                    using From = std::decay_t<decltype(from)>;
                    res = From(fine) == from && fine == from && from == fine && !(from < fine) && !(fine < from) ? "1" : "0";
                },
                reg, target);
    } else if (k == "neg") {
        std::visit([](auto& a) { a = -a; }, reg);
    } else if (k == "mul" || k == "div") {
        const int n = static_cast<int>(op["k"].i());
        const bool as = op["as"].b();
        const auto by = [&](auto a, auto v) {
            if (k == "mul") {
                if (as)
                    a *= v;
                else
                    a = a * v;
            } else {
                if (as)
                    a /= v;
                else
                    a = a / v;
            }
            return a;
        };
        std::visit(
            [&](auto& a) {
                const auto was = a;
                a = by(was, n);
                // the type of the scalar makes no difference
                if (const auto b = by(was, static_cast<int64_t>(n)); b != a) a = b;
                if (n > 0) {
                    if (const auto b = by(was, static_cast<unsigned>(n)); b != a) a = b;
                    if (const auto b = by(was, static_cast<size_t>(n)); b != a) a = b;
                }
            },
            reg);
    } else {
        const Any other = unit(op["u"].z(), big(op["v"]));
        std::visit(
            [&](auto& a, const auto& b) {
                if (k == "add") {
                    if (op["as"].b())
                        a += b;
                    else
                        a = a + b;
                } else if (k == "sub") {
                    if (op["as"].b())
                        a -= b;
                    else
                        a = a - b;
                } else if (k == "mulu")
                    a = a * b;
                else if (k == "divu")
                    a = a / b;
                else {
                    const bool c[] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
                    res = "[";
                    for (int i = 0; i < 6; ++i) res += std::string(i ? "," : "") + (c[i] ? "1" : "0");
                    res += "]";
                }
            },
            reg, other);
    }
    const auto v = std::visit([](auto& a) { return static_cast<int64_t>(a.raw()); }, reg);
    o.raw("res", res).raw("v", limbs(v)).b("neg", std::visit([](auto& a) { return a.is_negative(); }, reg));
}
