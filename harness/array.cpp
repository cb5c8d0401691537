#include "mbv.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)); // of the address sanitizer
using spn::structure::Array;
// storage that the code took and has not given back
static bool tracking = false;
static const volatile void* held[256];
static size_t nheld = 0;
static void on_malloc(const volatile void* p, size_t) {
    if (tracking && nheld < 256) held[nheld++] = p;
}
static void on_free(const volatile void* p) {
    for (size_t i = 0; i < nheld; ++i)
        if (held[i] == p) {
            held[i] = held[--nheld];
            return;
        }
}
struct Base {
    virtual ~Base() = default;
    virtual void run(const mbv::J& op, mbv::Out& out) = 0;
};
template<typename T>
struct World : Base {
std::unique_ptr<Array<T>> a[2];
std::unique_ptr<T[]> ext; // exactly as long as it should be
size_t xlen = 0;

std::unique_ptr<Array<T>> list(const std::vector<int64_t>& v, Array<T>* into = nullptr) {
    auto mk = [&](std::initializer_list<T> l) -> std::unique_ptr<Array<T>> {
        if (!into) return std::make_unique<Array<T>>(l);
        *into = l;
        return nullptr;
    };
    auto m = [&](size_t i) { return static_cast<T>(v[i]); };
    switch (v.size()) {
    case 0: return mk({});
    case 1: return mk({m(0)});
    case 2: return mk({m(0), m(1)});
    case 3: return mk({m(0), m(1), m(2)});
    case 4: return mk({m(0), m(1), m(2), m(3)});
    default: return mk({m(0), m(1), m(2), m(3), m(4)});
    }
}
template<size_t N>
std::unique_ptr<Array<T>> over() {
    return std::make_unique<Array<T>>(reinterpret_cast<T(&)[N]>(*ext.get()));
}
std::string view(Array<T>& v) {
    const Array<T>& c = v;
    std::vector<T> q;
    for (size_t i = 0; i < v.size() && i < 10000; ++i) q.push_back(v[i]);
    const size_t n = q.size(), lim = n + 3;
    std::vector<std::string> bad;
    auto cmp = [&](const char* what, const std::vector<T>& got) {
        if (got != q) bad.push_back(what);
    };
    auto fwd = [&](auto it, auto end) {
        std::vector<T> r;
        for (; it != end && r.size() < lim; ++it) r.push_back(*it);
        return r;
    };
    auto post = [&](auto it, auto end) {
        std::vector<T> r;
        while (!(it == end) && r.size() < lim) r.push_back(*it++);
        return r;
    };
    auto down = [&](auto begin, auto it) { // from the end towards the beginning
        std::vector<T> r;
        while (it != begin && r.size() < lim) r.push_back(*--it);
        return std::vector<T>(r.rbegin(), r.rend());
    };
    auto rev = [](std::vector<T> r) { return std::vector<T>(r.rbegin(), r.rend()); };
    cmp("begin", fwd(v.begin(), v.end()));
    cmp("const begin", fwd(c.begin(), c.end()));
    cmp("cbegin", fwd(v.cbegin(), v.cend()));
    cmp("post-increment", post(v.begin(), v.end()));
    cmp("decrement", down(v.begin(), v.end()));
    cmp("const decrement", down(c.begin(), c.end()));
    cmp("rbegin", rev(fwd(v.rbegin(), v.rend())));
    cmp("const rbegin", rev(fwd(c.rbegin(), c.rend())));
    cmp("crbegin", rev(fwd(v.crbegin(), v.crend())));
    cmp("reverse post-increment", rev(post(v.rbegin(), v.rend())));
    cmp("reverse decrement", rev(down(v.rbegin(), v.rend())));
    if (n > 1) { // post-decrement from the last element
        auto it = v.begin();
        for (size_t i = 0; i + 1 < n; ++i) ++it;
        std::vector<T> r;
        for (size_t i = 0; i < n; ++i) r.push_back(*it--);
        cmp("post-decrement", rev(r));
        auto rt = v.rbegin();
        for (size_t i = 0; i + 1 < n; ++i) rt++;
        r.clear();
        for (size_t i = 0; i < n; ++i) r.push_back(*rt--);
        cmp("reverse post-decrement", r);
    }
    std::vector<T> at, cix, dat, cdat;
    for (size_t i = 0; i < n; ++i) {
        at.push_back(c.at(i));
        cix.push_back(c[i]);
        dat.push_back(v.data()[i]);
        cdat.push_back(c.data()[i]);
    }
    cmp("at", at);
    cmp("const []", cix);
    cmp("data", dat);
    cmp("const data", cdat);
    std::string l;
    for (auto& s : bad) l += (l.empty() ? "" : ",") + mbv::quote(s);
    mbv::Out o;
    o.ia("q", q).i("size", v.size()).i("max", v.max_size()).b("empty", v.empty());
    o.i("front", n ? static_cast<int64_t>(v.front()) : -1).i("back", n ? static_cast<int64_t>(v.back()) : -1).raw("agree", "[" + l + "]");
    return "{" + o.t + "}";
}

    void run(const mbv::J& op, mbv::Out& out) override {
    tracking = true;
    const auto& o = op["op"].s();
    size_t s = op.has("s") ? op["s"].z() - 1 : 0;
    if (o == "reset") {
        for (auto& x : a) x = std::make_unique<Array<T>>(0);
        for (auto& x : a) Array<T> gone(std::move(*x));
        auto x = op["x"].ints();
        xlen = x.size();
        ext.reset(new T[xlen]);
        for (size_t i = 0; i < xlen; ++i) ext[i] = static_cast<T>(x[i]);
    } else if (o == "new") {
        const auto& k = op["kind"].s();
        a[s].reset();
        if (k == "len")
            a[s] = std::make_unique<Array<T>>(op["n"].z());
        else if (k == "init")
            a[s] = std::make_unique<Array<T>>(op["n"].z(), static_cast<T>(op["v"].i()));
        else if (k == "list")
            a[s] = list(op["vs"].ints());
        else if (k == "buf") {
            if constexpr (std::is_same_v<T, uint8_t>) a[s] = std::make_unique<Array<T>>(ext.get(), xlen);
        } else
            switch (xlen) {
            case 1: a[s] = over<1>(); break;
            case 2: a[s] = over<2>(); break;
            case 3: a[s] = over<3>(); break;
            case 4: a[s] = over<4>(); break;
            default: a[s] = over<5>();
            }
    } else if (o == "set") {
        T v = static_cast<T>(op["v"].i());
        size_t i = op["i"].z();
        if (op["how"].s() == "[]")
            (*a[s])[i] = v;
        else if (op["how"].s() == "at")
            a[s]->at(i) = v;
        else {
            auto it = a[s]->begin();
            while (i--) ++it;
            *it = v;
        }
    } else if (o == "fill")
        a[s]->fill(static_cast<T>(op["v"].i()));
    else if (o == "poke")
        ext[op["i"].z()] = static_cast<T>(op["v"].i());
    else if (o == "list")
        list(op["vs"].ints(), a[s].get());
    else if (o == "move")
        *a[s] = std::move(*a[1 - s]);
    else if (o == "movec") {
        auto n = std::make_unique<Array<T>>(std::move(*a[1 - s]));
        a[s] = std::move(n);
    } else if (o == "copy")
        *a[s] = *a[1 - s];
    else if (o == "copyc") {
        auto n = std::make_unique<Array<T>>(*a[1 - s]);
        a[s] = std::move(n);
    } else if (o == "self") {
        auto& self = *a[s];
        if (op["how"].s() == "copy")
            *a[s] = self;
        else
            *a[s] = std::move(self);
    } else if (o == "swap")
        a[0]->swap(*a[1]);
    tracking = false;
    out.i("owned", static_cast<int64_t>(nheld) - 3); // but for the two arrays and ext
    out.raw("a", view(*a[0])).raw("b", view(*a[1]));
    out.ia("x", std::vector<T>(ext.get(), ext.get() + xlen));
}
};
static std::unique_ptr<Base> world;

void handle(const mbv::J& op, mbv::Out& out) {
    static const int hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    if (!hooked) _exit(96);
    if (op["op"].s() == "reset") {
        world.reset();
        const auto& e = op["elem"].s();
        if (e == "byte")
            world = std::make_unique<World<uint8_t>>();
        else if (e == "wide")
            world = std::make_unique<World<int64_t>>();
        else
            world = std::make_unique<World<int>>();
    }
    world->run(op, out);
}
