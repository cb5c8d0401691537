#include "mbv.hpp"
#include "spine/platform/hal.hpp"
#include <array>
#include <cmath>
using std::pow;
using std::sqrt;
#include "spine/core/meta/unique_type_variant.hpp"
#include "spine/core/utils/concatenate.hpp"
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
using namespace spn::structure;
using mbv::J;

/* the point */
static std::vector<int64_t> reg;
static double unit = 1; // what one is, in the coordinates of the point
template<typename T>
static T in(int64_t v) {
    if constexpr (std::is_integral_v<T>) return static_cast<T>(v);
    else return static_cast<T>(static_cast<double>(v) * unit);
}
template<typename T, typename P>
struct Dim;
template<typename T>
struct Dim<T, XYPoint<T>> {
    static XYPoint<T> make(const std::vector<int64_t>& v) { return {in<T>(v[0]), in<T>(v[1])}; }
    static std::vector<T> get(const XYPoint<T>& p) { return {p.x, p.y}; }
};
template<typename T>
struct Dim<T, XYZPoint<T>> {
    static XYZPoint<T> make(const std::vector<int64_t>& v) { return {in<T>(v[0]), in<T>(v[1]), in<T>(v[2])}; }
    static std::vector<T> get(const XYZPoint<T>& p) { return {p.x, p.y, p.z}; }
};
static int64_t round_to(double x) {
    const double n = std::nearbyint(x);
    return std::fabs(x - n) < 1e-3 ? static_cast<int64_t>(n) : -1000000 - static_cast<int64_t>(std::fabs(x));
}
template<typename T, typename P>
static void point(const J& op, mbv::Out& o) {
    using D = Dim<T, P>;
    const auto& k = op["op"].s();
    std::vector<int64_t> res;
    P p = D::make(reg);
    const bool as = op.has("as") && op["as"].b();
    const double one = unit;
    if (k == "mul" || k == "div") unit = 1; // by how much, not by how far
    const P q = op.has("p") ? D::make(op["p"].ints()) : P();
    unit = one;
    for (auto c : D::get(P()))
        if (c != 0) res.push_back(-77); // a point nobody said anything about is the origin
    if (k == "add") {
        if (as)
            p.add(q);
        else
            p = p + q;
    } else if (k == "sub") {
        if (as)
            p.subtract(q);
        else
            p = p - q;
    } else if (k == "mul")
        p = as ? p.dot(q) : p * q;
    else if (k == "div")
        p = p / q;
    else if (k == "mod") {
        if constexpr (std::is_integral_v<T>) p = p % q;
    } else if (k == "scale")
        p.scalar_multiplication(static_cast<T>(op["k"].i()));
    else if (k == "eq")
        res = {p == q, p != q};
    else if (k == "mag")
        res.push_back(round_to(static_cast<double>(p.mag()) / unit));
    else if (k == "normalize")
        p.normalize();
    else if (k == "unit") {
        P u = p;
        const double m = static_cast<double>(p.mag()) / unit;
        u.normalize();
        if (std::fabs(static_cast<double>(u.mag()) - 1) > 1e-4) res.push_back(-78);
        for (auto c : D::get(u)) res.push_back(round_to(static_cast<double>(c) * m));
        res.push_back(round_to(m * m));
    }
    if (k == "point") p = D::make(op["p"].ints());
    reg.clear();
    for (auto c : D::get(p)) reg.push_back(round_to(static_cast<double>(c) / unit));
    o.ia("p", reg).ia("res", res);
}

/* joined literals: every list of up to three of these, and lists of literals of several types */
static constexpr char E[] = "", A[] = "a", BC[] = "bc", DEF[] = "def";
static std::string joined;
static bool ends;
static size_t joined_size;
template<typename S>
static void take(const S& s) {
    joined_size = s.size();
    ends = s.size() > 0 && s[s.size() - 1] == '\0';
    joined.assign(s.begin(), s.end() - (s.size() ? 1 : 0));
}
template<typename F>
static void literal(int64_t n, F f) {
    switch (n) {
    case 0: f(E); break;
    case 1: f(A); break;
    case 2: f(BC); break;
    default: f(DEF);
    }
}
using spn::core::utils::concat;
static void join(const std::vector<size_t>& n) {
    if (n.empty())
        take(concat());
    else
        literal(n[0], [&](auto& a) {
            if (n.size() == 1)
                take(concat(a));
            else
                literal(n[1], [&](auto& b) {
                    if (n.size() == 2)
                        take(concat(a, b));
                    else
                        literal(n[2], [&](auto& c) { take(concat(a, b, c)); });
                });
        });
}

/* lists of types */
namespace uv = spn::core::meta::unique_variant;
template<char C>
struct Tag {};
static std::vector<std::string> type_names;
template<char... C>
static void names_of(const uv::TypeList<Tag<C>...>&) {
    type_names = {std::string(1, C)...};
    using V = typename uv::ToVariant<uv::TypeList<Tag<'-'>, Tag<C>...>>::type;
    if (std::variant_size_v<V> != sizeof...(C) + 1) type_names.push_back("another size");
}
template<char... C>
static void unique(const std::string& rest) {
    if (rest.empty()) {
        names_of(uv::Unique<Tag<C>...>{});
        return;
    }
    if constexpr (sizeof...(C) < 4) {
        if (rest[0] == 'a') unique<C..., 'a'>(rest.substr(1));
        if (rest[0] == 'b') unique<C..., 'b'>(rest.substr(1));
        if (rest[0] == 'c') unique<C..., 'c'>(rest.substr(1));
    }
}

using T2 = Tuple<int, std::string>;
static std::unique_ptr<T2> tuple;

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "concat") {
        std::vector<size_t> n;
        for (auto& p : op["parts"].a) n.push_back(p.a.size());
        join(n);
        std::string t;
        for (char c : joined) t += (t.empty() ? "" : ",") + mbv::quote(std::string(1, c));
        o.raw("text", "[" + t + "]").i("size", joined_size).b("ends", ends);
    } else if (k == "unique") {
        std::string s;
        for (auto& p : op["types"].a) s += p.s();
        unique<>(s);
        std::string t;
        for (auto& c : type_names) t += (t.empty() ? "" : ",") + mbv::quote(c);
        o.raw("types", "[" + t + "]");
    } else if (k == "tuple" || k == "first" || k == "second" || k == "tcopy") {
        if (k == "tuple") tuple = std::make_unique<T2>(op["a"].i(), op["b"].s());
        if (k == "first") tuple->first() = op["a"].i();
        if (k == "second") tuple->second() = op["b"].s();
        if (k == "tcopy") {
            auto t = std::make_unique<T2>(*tuple);
            tuple->first() = -9;
            tuple->second() = "gone";
            tuple = std::move(t);
        }
        const T2& c = *tuple;
        o.i("a", c.first()).raw("b", mbv::quote(c.second()));
    } else {
        const size_t dim = k == "point" ? op["p"].a.size() : reg.size();
        if (k == "point") reg.assign(dim, 0);
        const auto run = [&](auto t) {
            using T = decltype(t);
            dim == 2 ? point<T, XYPoint<T>>(op, o) : point<T, XYZPoint<T>>(op, o);
        };
        const std::string num = op.has("num") ? op["num"].s() : "int";
        unit = num == "tiny" ? 1.0 / (1 << 20) : num == "huge" ? double(1 << 30) : 1;
        if (num == "float" || num == "huge") run(0.0f);
        else if (num == "double" || num == "tiny") run(0.0);
        else if (num == "short") run(static_cast<short>(0));
        else if (num == "long") run(static_cast<int64_t>(0));
        else run(0);
    }
}
