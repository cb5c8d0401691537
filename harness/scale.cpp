#include "mbv.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/vector.hpp"
using namespace spn::structure;
static std::unique_ptr<RingBuffer<int>> ring;
static std::unique_ptr<Vector<int>> vec;
static std::unique_ptr<Stack<int>> stack;
static size_t cap;

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    long res = 0;
    const size_t n = op.has("n") ? op["n"].z() : 0;
    int v = op.has("v") ? static_cast<int>(op["v"].i()) : 0;
    bool run = true;
    if (k == "new") {
        ring.reset(), vec.reset(), stack.reset();
        cap = op["cap"].z();
        if (op["kind"].s() == "ring") ring = std::make_unique<RingBuffer<int>>(cap);
        if (op["kind"].s() == "vector") vec = std::make_unique<Vector<int>>(cap);
        if (op["kind"].s() == "stack") stack = std::make_unique<Stack<int>>(cap);
    }
    if (k == "push" && ring) {
        if (op["bulk"].b()) {
            std::vector<int> vs(n);
            for (size_t i = 0; i < n; ++i) vs[i] = v + static_cast<int>(i);
            res = static_cast<long>(ring->push(vs.data(), n, op["roll"].b()));
        } else
            for (size_t i = 0; i < n; ++i) res += ring->push(v + static_cast<int>(i), op["roll"].b());
    }
    if (k == "push" && vec) {
        const auto was = vec->size();
        for (size_t i = 0; i < n && !vec->full(); ++i) vec->push_back(v + static_cast<int>(i));
        res = static_cast<long>(vec->size()) - static_cast<long>(was);
    }
    if (k == "push" && stack) {
        const auto was = stack->size();
        for (size_t i = 0; i < n && stack->size() < cap; ++i) {
            int x = v + static_cast<int>(i);
            stack->push(x);
        }
        res = static_cast<long>(stack->size()) - static_cast<long>(was);
    }
    if (k == "pushf") {
        const auto was = vec->size();
        for (size_t i = 0; i < n && !vec->full(); ++i) vec->push_front(v - static_cast<int>(i));
        res = static_cast<long>(vec->size()) - static_cast<long>(was);
    }
    if (k == "pop" && ring) {
        int first = 0;
        const bool any = ring->peek_at(first, 0);
        if (op["bulk"].b()) {
            std::vector<int> vs(n, -7);
            res = static_cast<long>(ring->pop(vs.data(), n));
            for (size_t i = 0; i < static_cast<size_t>(res) && i < n; ++i) run &= vs[i] == first + static_cast<int>(i);
        } else
            for (size_t i = 0; i < n; ++i) {
                int x = -7;
                if (!ring->pop(x)) break;
                run &= any && x == first + static_cast<int>(i);
                ++res;
            }
    }
    if (k == "pop" && vec)
        for (size_t i = 0; i < n && vec->size() > 0; ++i, ++res) {
            const int front = vec->front();
            const int x = vec->pop_front();
            run &= x == front;
        }
    if (k == "popb" && vec)
        for (size_t i = 0; i < n && vec->size() > 0; ++i, ++res) {
            const int back = vec->back();
            const int x = vec->pop_back();
            run &= x == back;
        }
    int was = 0;
    if (k == "popb" && stack)
        for (size_t i = 0; i < n && !stack->empty(); ++i, ++res) {
            if (i > 0) run &= stack->top() == was - 1;
            was = stack->top();
            stack->pop();
        }
    if (k == "dropl") res = static_cast<long>(ring->drop_last(n));
    if (k == "dropf") res = static_cast<long>(ring->drop_first(n));
    const size_t used = ring ? ring->used_space() : vec ? vec->size() : stack->size();
    int first = 0, last = 0;
    if (ring && used > 0) {
        ring->peek_at(first, 0), ring->peek_at(last, used - 1);
        int x = 0;
        for (size_t i = 0; i < used && run; ++i) run &= ring->peek_at(x, i) && x == first + static_cast<int>(i);
        run &= !ring->peek_at(x, used);
    }
    if (vec && used > 0) {
        first = vec->front(), last = vec->back();
        for (size_t i = 0; i < used && run; ++i) run &= (*vec)[i] == first + static_cast<int>(i);
        size_t seen = 0;
        for (const auto& x : *vec) run &= x == first + static_cast<int>(seen++);
        run &= seen == used;
    }
    if (stack && used > 0) first = 1, last = stack->top();
    const size_t room = ring ? ring->free_space() : vec ? cap - vec->size() : cap - stack->size();
    o.i("res", res).i("used", used).i("free", room).b("empty", ring ? ring->empty() : vec ? vec->empty() : stack->empty());
    o.b("full", ring ? ring->full() : vec ? vec->full() : stack->size() == cap).i("first", first).i("last", last).b("run", run).i("over", ring ? ring->overrun_space() : 0);
}
