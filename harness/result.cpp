#include "mbv.hpp"
#include "spine/structure/result.hpp"
using spn::structure::Result;
using mbv::J;

// payload number n as each payload type
struct Big {
    std::shared_ptr<int> n; // shared with copies, gone when moved from
    std::string more;
};
template<typename T>
struct As {
    static T to(int n) { return static_cast<T>(n); }
    static int from(const T& v) { return static_cast<int>(v); }
};
template<>
struct As<std::string> {
    static std::string to(int n) { return "a payload too long to be stored in place " + std::to_string(n); }
    static int from(const std::string& s) { return s.size() < 42 ? -7 : to(atoi(s.c_str() + 41)) == s ? atoi(s.c_str() + 41) : -8; }
};
template<>
struct As<Big> {
    static Big to(int n) { return Big{std::make_shared<int>(n), As<std::string>::to(n)}; }
    static int from(const Big& b) { return !b.n ? -7 : As<std::string>::from(b.more) == *b.n ? *b.n : -8; }
};

struct Base {
    virtual ~Base() = default;
    virtual void run(const J& op, mbv::Out& o) = 0;
};

struct Ret {
    int calls = 0, arg = 0;
    std::string t = "none";
    int v = 0;
    std::string text() const {
        return "{\"calls\":" + std::to_string(calls) + ",\"arg\":" + std::to_string(arg) + ",\"t\":" + mbv::quote(t) + ",\"v\":" + std::to_string(v) + "}";
    }
};

/// state and payload as all the queries show it
template<typename R>
void look(const R& r, std::string& t, int& v) {
    const int ok = r.is_success(), fail = r.is_failed(), mid = r.is_intermediary();
    v = 0;
    if (ok + fail + mid > 1 || static_cast<bool>(r) != static_cast<bool>(ok)) {
        t = "odd";
    } else if (ok) {
        using T = std::decay_t<decltype(r.value())>;
        t = "ok";
        v = As<T>::from(r.value());
        if (&*r != &r.value() || r.operator->() != &r.value()) v = -9;
    } else if (fail) {
        t = "fail";
        v = As<std::decay_t<decltype(r.error_value())>>::from(r.error_value());
    } else if (mid) {
        t = "mid";
        v = As<std::decay_t<decltype(r.intermediary_value())>>::from(r.intermediary_value());
    } else
        t = "none";
}

template<typename T, typename E, typename I>
struct Rig : Base {
    using R = Result<T, E, I>;
    std::vector<R> rs;

    static R returned(R& r) { return r; }
    static R from_value(T& v) { return v; }
    static R made(const std::string& t, int v) {
        if (t == "ok") return R(As<T>::to(v));
        if (t == "fail") return R::failed(As<E>::to(v));
        if (t == "mid") return R::intermediary(As<I>::to(v));
        return R();
    }

    void run(const J& op, mbv::Out& o) override {
        const auto& k = op["op"].s();
        Ret ret;
        const size_t i = op.has("i") ? op["i"].z() - 1 : 0, j = op.has("j") ? op["j"].z() - 1 : 0;
        if (k == "new") {
            rs.clear();
            for (int n = 0; n < op["n"].i(); ++n) rs.emplace_back();
        } else if (k == "make") {
            const int v = op["v"].i();
            const auto &t = op["t"].s(), &how = op["how"].s();
            if (t == "none") {
                rs[i] = R();
            } else if (t == "ok") {
                T x = As<T>::to(v);
                const T c = As<T>::to(v);
                if (how == "lvalue") {
                    R r(x);
                    rs[i] = r;
                    if (As<T>::from(x) != v) ret.v = -1; // must not be moved from
                } else if (how == "const") {
                    const R r(c);
                    rs[i] = r;
                } else if (how == "temp") {
                    R r{As<T>::to(v)};
                    rs[i] = std::move(r);
                } else if (how == "assign") {
                    rs[i] = x;
                } else
                    rs[i] = from_value(x);
            } else if (t == "fail") {
                E x = As<E>::to(v);
                const E c = As<E>::to(v);
                if (how == "lvalue") rs[i] = R::failed(x);
                if (how == "const") rs[i] = R::failed(c);
                if (how == "temp") rs[i] = R::failed(As<E>::to(v));
                if constexpr (!std::is_same_v<T, E>) {
                    if (how == "short-lvalue") {
                        R r(x);
                        rs[i] = std::move(r);
                    }
                    if (how == "short-const") rs[i] = R(c);
                    if (how == "short-temp") rs[i] = R(As<E>::to(v));
                }
                if (how == "lvalue" && As<E>::from(x) != v) ret.v = -1;
            } else {
                I x = As<I>::to(v);
                const I c = As<I>::to(v);
                if (how == "lvalue") rs[i] = R::intermediary(x);
                if (how == "const") rs[i] = R::intermediary(c);
                if (how == "temp") rs[i] = R::intermediary(As<I>::to(v));
                if (how == "lvalue" && As<I>::from(x) != v) ret.v = -1;
            }
        } else if (k == "copy") {
            const auto& how = op["how"].s();
            const R& c = rs[j];
            if (how == "make") {
                R r(rs[j]);
                rs[i] = std::move(r);
            } else if (how == "make-const") {
                R r = c;
                rs[i] = std::move(r);
            } else if (how == "make-const-move") {
                R r(std::move(c));
                rs[i] = std::move(r);
            } else if (how == "assign") {
                rs[i] = rs[j];
            } else if (how == "assign-const") {
                rs[i] = c;
            } else
                rs[i] = returned(rs[j]);
        } else if (k == "move") {
            if (op["how"].s() == "make") {
                R r(std::move(rs[j]));
                if (i != j) rs[j] = R();
                rs[i] = std::move(r);
            } else if (i != j) {
                rs[i] = std::move(rs[j]);
                rs[j] = R();
            }
        } else if (k == "unwrap") {
            ret.t = op["t"].s();
            if (ret.t == "ok") ret.v = As<T>::from(rs[i].unwrap());
            if (ret.t == "fail") ret.v = As<E>::from(rs[i].unwrap_error_value());
            if (ret.t == "mid") ret.v = As<I>::from(rs[i].unwrap_intermediary_value());
            rs[i] = R();
        } else if (k == "combine") {
            const auto &c = op["k"].s(), &to = op["to"].s();
            const R& r = rs[i];
            auto next = [&](int v) {
                ++ret.calls;
                ret.arg = v;
                return (v + 1) % P;
            };
            std::optional<R> out;
            if (c == "map") out = r.map([&](const T& v) { return As<T>::to(next(As<T>::from(v))); });
            if (c == "map_error") out = r.map_error([&](const E& v) { return As<E>::to(next(As<E>::from(v))); });
            if (c == "map_intermediary") out = r.map_intermediary([&](const I& v) { return As<I>::to(next(As<I>::from(v))); });
            if (c == "and_then") out = r.and_then([&](const T& v) { return made(to, next(As<T>::from(v))); });
            if (c == "or_else") out = r.or_else([&](const E& v) { return made(to, next(As<E>::from(v))); });
            if (c == "chain")
                out = rs[i].chain([&](I& v) {
                    const int n = next(As<I>::from(v));
                    if (op["mut"].b()) v = As<I>::to((n + 1) % P);
                    return made(to, n);
                });
            if (c == "map_type") { // to the type of errors
                const auto x = r.map([&](const T& v) { return As<E>::to(next(As<T>::from(v))); });
                look(x, ret.t, ret.v);
            } else {
                look(*out, ret.t, ret.v);
                rs[j] = *std::move(out);
            }
        } else if (k == "match") {
            auto f = [&](const char* t) {
                return [&ret, t](const auto& v) {
                    ++ret.calls;
                    ret.t = t;
                    return ret.arg = As<std::decay_t<decltype(v)>>::from(v);
                };
            };
            ret.v = const_cast<const R&>(rs[i]).match(f("ok"), f("fail"), f("mid"));
        } else if (k == "or") {
            const auto& c = op["k"].s();
            const int d = op["d"].i();
            const R& r = rs[i];
            if (c == "value_or") ret.v = As<T>::from(r.value_or(As<T>::to(d)));
            if (c == "error_or") ret.v = As<E>::from(r.error_or(As<E>::to(d)));
            if (c == "unwrap_or_else")
                ret.v = As<T>::from(r.unwrap_or_else([&] {
                    ++ret.calls;
                    return As<T>::to(d);
                }));
            ret.t = ret.v == d ? "alt" : c == "error_or" ? "fail" : "ok";
        }
        std::string all;
        for (auto& r : rs) {
            std::string t;
            int v;
            look(r, t, v);
            all += (all.empty() ? "{\"t\":" : ",{\"t\":") + mbv::quote(t) + ",\"v\":" + std::to_string(v) + "}";
        }
        o.raw("ret", ret.text()).raw("rs", "[" + all + "]");
    }
    int P = 3;
};

static std::unique_ptr<Base> rig;
void handle(const J& op, mbv::Out& o) {
    if (op["op"].s() == "new") {
        const auto& k = op["kind"].s();
        if (k == "iii") rig = std::make_unique<Rig<int, int, int>>();
        if (k == "sss") rig = std::make_unique<Rig<std::string, std::string, std::string>>();
        if (k == "isi") rig = std::make_unique<Rig<int, std::string, int>>();
        if (k == "sis") rig = std::make_unique<Rig<std::string, int, std::string>>();
        if (k == "fif") rig = std::make_unique<Rig<float, int, float>>();
        if (k == "ifs") rig = std::make_unique<Rig<int, float, std::string>>();
        if (k == "bdi") rig = std::make_unique<Rig<Big, double, int>>();
        if (k == "ibb") rig = std::make_unique<Rig<int, Big, Big>>();
        if (k == "sii") rig = std::make_unique<Rig<std::string, int, int>>();
        if (!rig) _exit(96);
    }
    rig->run(op, o);
}
