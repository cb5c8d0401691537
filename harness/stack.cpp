#include "mbv.hpp"
#include "spine/structure/stack.hpp"
using spn::structure::Stack;

struct Obj {
    int id;
};
using Ptr = std::shared_ptr<Obj>;
static std::unique_ptr<Stack<int>> plain;
static std::unique_ptr<Stack<Ptr>> own;
static std::vector<std::weak_ptr<Obj>> objs;
static std::vector<std::vector<Ptr>> held;

static Ptr make(size_t v) {
    if (auto p = objs[v].lock()) return p;
    auto p = std::make_shared<Obj>(Obj{static_cast<int>(v)});
    objs[v] = p;
    return p;
}
template<typename S, typename T>
static void push(S& s, T& x, const mbv::J& op) {
    if (op["how"].s() == "push")
        s.push(x);
    else
        s.emplace(std::move(x));
}
void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "new") {
        plain.reset(), own.reset();
        held.clear(), objs.clear();
        if (op["kind"].s() == "own") {
            own = std::make_unique<Stack<Ptr>>(op["cap"].z());
            held.resize(op["ids"].z() + 1), objs.resize(op["ids"].z() + 1);
        } else
            plain = std::make_unique<Stack<int>>(op["cap"].z());
    }
    if (k == "push") {
        if (own) {
            auto p = make(op["v"].z());
            if (op["keep"].b()) held[p->id].push_back(p);
            push(*own, p, op);
        } else {
            int v = op["v"].i();
            push(*plain, v, op);
        }
    }
    if (k == "pop") own ? own->pop() : plain->pop();
    if (k == "put") {
        if (own)
            own->top() = make(op["v"].z());
        else
            plain->top() = op["v"].i();
    }
    if (k == "take") {
        auto p = own->top();
        held[p->id].push_back(p);
    }
    if (k == "release") held[op["v"].z()].pop_back();
    const auto size = own ? own->size() : plain->size();
    o.i("size", size).b("empty", own ? own->empty() : plain->empty());
    o.i("top", size == 0 ? -1 : own ? (own->top() ? own->top()->id : -5) : plain->top());
    std::vector<long> cnt;
    for (size_t i = 1; i < objs.size(); ++i) cnt.push_back(objs[i].use_count());
    o.ia("cnt", cnt);
}
