#include "mbv.hpp"
#include "spine/structure/vector.hpp"
#include <functional>
using spn::structure::Vector;

struct Obj {
    int id;
};
static std::vector<std::weak_ptr<Obj>> objs; // by id
static std::vector<std::vector<std::shared_ptr<Obj>>> held;

template<typename T>
struct E;
template<>
struct E<int> {
    static int make(int64_t v) { return static_cast<int>(v); }
    static int id(const int& v) { return v; }
    static void keep(int&&) {}
};
template<>
struct E<std::shared_ptr<Obj>> {
    static std::shared_ptr<Obj> make(int64_t v) {
        if (auto p = objs[v].lock()) return p;
        auto p = std::make_shared<Obj>(Obj{static_cast<int>(v)});
        objs[v] = p;
        return p;
    }
    static int id(const std::shared_ptr<Obj>& p) { return p ? p->id : -5; }
    static void keep(std::shared_ptr<Obj>&& p) { held[p->id].push_back(std::move(p)); }
};

struct Base {
    virtual ~Base() = default;
    virtual void apply(const mbv::J& op, mbv::Out& out) = 0;
    virtual void report(mbv::Out& out) = 0;
};

template<typename T>
struct World : Base {
    std::unique_ptr<Vector<T>> v;
    T ext[4]{};

    static std::unique_ptr<Vector<T>> list(const std::vector<int64_t>& a, Vector<T>* into = nullptr) {
        auto m = [&](size_t i) { return E<T>::make(a[i]); };
        auto mk = [&](std::initializer_list<T> l) -> std::unique_ptr<Vector<T>> {
            if (!into) return std::make_unique<Vector<T>>(l);
            *into = l;
            return nullptr;
        };
        switch (a.size()) {
        case 0: return mk({});
        case 1: return mk({m(0)});
        case 2: return mk({m(0), m(1)});
        case 3: return mk({m(0), m(1), m(2)});
        default: return mk({m(0), m(1), m(2), m(3)});
        }
    }
    explicit World(const mbv::J& op) {
        const auto& k = op["kind"].s();
        auto vs = op["vs"].ints();
        size_t cap = op["cap"].z();
        if (k == "cap")
            v = std::make_unique<Vector<T>>(cap);
        else if (k == "init")
            v = std::make_unique<Vector<T>>(cap, E<T>::make(vs[0]));
        else if (k == "list")
            v = list(vs);
        else {
            for (size_t i = 0; i < vs.size(); ++i) ext[i] = E<T>::make(vs[i]);
            T(&a)[4] = ext;
            switch (cap) {
            case 1: v = vs.empty() ? std::make_unique<Vector<T>>(reinterpret_cast<T(&)[1]>(a)) : std::make_unique<Vector<T>>(reinterpret_cast<T(&)[1]>(a), vs.size()); break;
            case 2: v = std::make_unique<Vector<T>>(reinterpret_cast<T(&)[2]>(a), vs.size()); break;
            case 3: v = std::make_unique<Vector<T>>(reinterpret_cast<T(&)[3]>(a), vs.size()); break;
            default: v = vs.empty() ? std::make_unique<Vector<T>>(a) : std::make_unique<Vector<T>>(a, vs.size());
            }
        }
    }
    void give(mbv::Out& out, T&& x, bool keep) {
        out.i("res", E<T>::id(x));
        if (keep) E<T>::keep(std::move(x));
    }
    void apply(const mbv::J& op, mbv::Out& out) override {
        const auto& o = op["op"].s();
        const bool keep = op.has("keep") && op["keep"].b();
        if (o == "popb") {
            T x = v->pop_back();
            return give(out, std::move(x), keep);
        }
        if (o == "popf") {
            T x = v->pop_front();
            return give(out, std::move(x), keep);
        }
        if (o == "remove") {
            T x = v->remove(op["i"].z());
            return give(out, std::move(x), keep);
        }
        if (o == "copy") {
            const auto& how = op["how"].s();
            mbv::Out in;
            auto show = [&](Vector<T>& w) {
                std::vector<int> q;
                for (size_t i = 0; i < w.size(); ++i) q.push_back(E<T>::id(w[i]));
                in.ia("q", q).i("cap", w.max_size());
            };
            if (how == "self") {
                Vector<T>& same = *v;
                *v = same;
                show(*v);
            } else if (how == "assign") {
                Vector<T> w(2, E<T>::make(1)); // whatever it holds is let go
                w = *v;
                show(w);
            } else {
                Vector<T> w(*v);
                if (how == "back") *v = w;
                show(w);
            }
            out.raw("res", "{" + in.t + "}");
            return;
        }
        if (o == "swap") {
            Vector<T> w(op["cap"].z());
            auto vs = op["vs"].ints();
            for (size_t i = 0; i < op["k"].z(); ++i) w.push_back(E<T>::make(vs[0]));
            for (auto x : vs) w.push_back(E<T>::make(x));
            for (size_t i = 0; i < op["k"].z(); ++i) T x = w.pop_front();
            v->swap(w);
            mbv::Out in;
            std::vector<int> q;
            for (size_t i = 0; i < w.size(); ++i) q.push_back(E<T>::id(w[i]));
            in.ia("q", q).i("cap", w.max_size());
            out.raw("res", "{" + in.t + "}");
            return;
        }
        if (op.has("own")) { // a reference to one of its own elements
            const T& x = (*v)[op["own"].z() - 1];
            if (o == "pushb") v->push_back(x);
            if (o == "pushf") v->push_front(x);
            if (o == "insert") v->insert(op["i"].z(), x);
            if (o == "fill") v->fill(x);
        } else if (o == "pushb") {
            T x = E<T>::make(op["v"].i());
            if (op["emp"].b())
                v->emplace_back(std::move(x));
            else
                v->push_back(x);
        } else if (o == "pushf") {
            T x = E<T>::make(op["v"].i());
            if (op["emp"].b())
                v->emplace_front(std::move(x));
            else
                v->push_front(x);
        } else if (o == "insert")
            v->insert(op["i"].z(), E<T>::make(op["v"].i()));
        else if (o == "set")
            (*v)[op["i"].z()] = E<T>::make(op["v"].i());
        else if (o == "clear")
            v->clear();
        else if (o == "fill")
            v->fill(E<T>::make(op["v"].i()));
        else if (o == "assign")
            list(op["vs"].ints(), v.get());
        else if (o == "move") {
            const auto& how = op["how"].s();
            bool left = true;
            if (how == "ctor") {
                auto w = std::make_unique<Vector<T>>(std::move(*v));
                left = v->empty() && v->size() == 0 && v->begin() == v->end();
                v = std::move(w);
            } else if (how == "self") {
                Vector<T>& same = *v;
                *v = std::move(same);
            } else {
                Vector<T> w(2, E<T>::make(1)); // whatever it holds is let go
                w = std::move(*v);
                left = v->empty() && v->size() == 0 && v->begin() == v->end();
                v = std::make_unique<Vector<T>>(1);
                *v = std::move(w);
                left = left && w.empty() && w.size() == 0 && w.begin() == w.end();
            }
            out.i("res", left ? 1 : 0);
            return;
        } else if (o == "hold")
            E<T>::keep(E<T>::make(op["v"].i()));
        else if (o == "unhold")
            held[op["v"].z()].pop_back();
        out.i("res", 0);
    }
    void report(mbv::Out& out) override {
        std::vector<int> q;
        for (size_t i = 0; i < v->size() && i < 10000; ++i) q.push_back(E<T>::id((*v)[i]));
        std::vector<std::string> bad;
        const Vector<T>& c = *v;
        const size_t lim = q.size() + 3;
        auto cmp = [&](const char* what, std::vector<int> got) {
            if (got != q) bad.push_back(what);
        };
        auto walk = [&](auto it, auto end) {
            std::vector<int> r;
            for (; it != end && r.size() < lim; ++it) r.push_back(E<T>::id(*it));
            return r;
        };
        auto back = [&](auto it, auto end) {
            auto r = walk(it, end);
            return std::vector<int>(r.rbegin(), r.rend());
        };
        cmp("iteration", walk(v->begin(), v->end()));
        cmp("const iteration", walk(c.begin(), c.end()));
        cmp("cbegin", walk(c.cbegin(), c.cend()));
        cmp("reverse", back(v->rbegin(), v->rend()));
        cmp("const reverse", back(c.rbegin(), c.rend()));
        cmp("crbegin", back(c.crbegin(), c.crend()));
        std::vector<int> at, cat, dat, cdat;
        for (size_t i = 0; i < q.size(); ++i) {
            at.push_back(E<T>::id(v->at(i)));
            cat.push_back(E<T>::id(c[i]));
            dat.push_back(E<T>::id(v->data()[i]));
            cdat.push_back(E<T>::id(c.data()[i]));
        }
        cmp("at", at);
        cmp("const []", cat);
        cmp("data", dat);
        cmp("const data", cdat);
        int f = -1, b = -1;
        if (!q.empty()) {
            f = E<T>::id(v->front());
            b = E<T>::id(v->back());
            if (f != E<T>::id(v->peek_front())) bad.push_back("peek_front");
            if (b != E<T>::id(v->peek_back())) bad.push_back("peek_back");
        }
        std::string l;
        for (auto& s : bad) l += (l.empty() ? "" : ",") + mbv::quote(s);
        out.ia("q", q).raw("agree", "[" + l + "]").i("size", v->size()).b("empty", v->empty()).b("full", v->full());
        out.i("cap", v->max_size()).i("front", f).i("back", b);
    }
};

static std::unique_ptr<Base> w;

void handle(const mbv::J& op, mbv::Out& out) {
    if (op["op"].s() == "new") {
        w.reset();
        size_t n = op["ids"].z();
        if (op["reset"].b()) {
            held.assign(n ? n + 1 : 0, {});
            objs.assign(n ? n + 1 : 0, {});
        }
        if (n)
            w = std::make_unique<World<std::shared_ptr<Obj>>>(op);
        else
            w = std::make_unique<World<int>>(op);
        out.i("res", 0);
    } else
        w->apply(op, out);
    w->report(out);
    std::vector<long> cnt;
    for (size_t i = 1; i < objs.size(); ++i) cnt.push_back(objs[i].use_count());
    out.ia("cnt", cnt);
}
