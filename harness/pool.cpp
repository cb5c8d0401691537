#include "mbv.hpp"
#include "spine/structure/pool.hpp"
using spn::structure::Pool;

struct Obj {
    int id;
    explicit Obj(int i) : id(i) { ++alive[i]; }
    Obj(Obj&& o) noexcept : id(o.id) {
        ++alive[id];
    }
    ~Obj() { --alive[id]; }
    static std::map<int, int> alive; // instances per id
};
std::map<int, int> Obj::alive;
static std::unique_ptr<Pool<Obj>> pool;
static std::vector<std::vector<std::shared_ptr<Obj>>> out;
static std::vector<std::weak_ptr<Obj>> weak;
static size_t n = 0;

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "new") {
        pool.reset();
        n = op["n"].z();
        out.assign(n + 1, {});
        weak.assign(n + 1, {});
        Obj::alive.clear();
        pool = std::make_unique<Pool<Obj>>(n);
        const auto& by = op["by"].s();
        for (size_t i = 1; i <= n; ++i) {
            if (by == "shared")
                pool->populate(std::make_shared<Obj>(i));
            else if (by == "raw")
                pool->populate(new Obj(i));
            else
                pool->populate(Obj(i));
        }
        // learn the addresses: take every object out and put it back in the same order
        for (size_t i = 1; i <= n; ++i) {
            auto p = pool->depopulate();
            std::shared_ptr<Obj> q = std::move(p);
            weak[q->id] = q;
            pool->populate(std::move(q));
        }
        o.i("res", 0);
    } else if (k == "acquire") {
        auto p = pool->acquire();
        int id = p ? p->id : 0;
        if (p) out[id].push_back(std::move(p));
        o.i("res", id);
    } else if (k == "depop") {
        std::shared_ptr<Obj> p = pool->depopulate();
        o.i("res", p->id);
        if (op["keep"].b()) out[p->id].push_back(std::move(p));
    } else if (k == "sweep") {
        const size_t m = op["n"].z();
        std::vector<std::shared_ptr<int>> got;
        auto big = std::make_unique<Pool<int>>(m);
        for (size_t i = 0; i < m; ++i) big->populate(std::make_shared<int>(static_cast<int>(i)));
        std::vector<char> seen(m, 0);
        while (auto p = big->acquire()) {
            if (seen[*p]) break;
            seen[*p] = 1;
            got.push_back(std::move(p));
        }
        const size_t c = got.size();
        const bool none = big->acquire() == nullptr;
        bool again = c == m;
        for (size_t i : {m - 1, m / 2, size_t(0)}) {
            if (!again) break;
            const int id = *got[i];
            got[i].reset();
            auto p = big->acquire();
            again = p && *p == id && big->acquire() != p;
            got[i] = std::move(p);
        }
        mbv::Out in;
        in.i("got", c).b("none", none).b("again", again);
        o.raw("res", "{" + in.t + "}");
    } else {
        if (k == "copy") out[op["v"].z()].push_back(out[op["v"].z()].back());
        if (k == "release") out[op["v"].z()].pop_back();
        if (k == "populate") pool->populate(out[op["v"].z()].back());
        if (k == "destroy") pool.reset();
        if (k == "self") {
            auto& self = *pool;
            *pool = std::move(self);
        }
        if (k == "move") {
            auto p = std::make_unique<Pool<Obj>>(n + 1);
            *p = std::move(*pool);
            pool = std::move(p);
        }
        o.i("res", 0);
    }
    o.i("size", pool ? pool->size() : 0).b("full", pool && pool->is_fully_populated());
    std::string al;
    std::vector<long> refs;
    for (size_t i = 1; i <= n; ++i) {
        bool a = Obj::alive[i] > 0;
        al += std::string(i > 1 ? "," : "") + (a ? "true" : "false");
        refs.push_back(weak[i].use_count());
    }
    o.raw("alive", "[" + al + "]").ia("refs", refs);
}
