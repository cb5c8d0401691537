#include "mbv.hpp"
#include "spine/structure/ringbuffer.hpp"
using spn::structure::RingBuffer;
static std::unique_ptr<RingBuffer<int>> rb;

void handle(const mbv::J& op, mbv::Out& out) {
    const auto& o = op["op"].s();
    if (o == "new") {
        rb = std::make_unique<RingBuffer<int>>(op["cap"].z());
        out.i("res", 0);
    } else if (o == "push")
        out.i("res", rb->push(static_cast<int>(op["v"].i()), op["roll"].b()) ? 1 : 0);
    else if (o == "pushn") {
        std::vector<int> v;
        for (auto x : op["vs"].ints()) v.push_back(static_cast<int>(x));
        out.i("res", rb->push(v.data(), v.size(), op["roll"].b()));
    } else if (o == "pop") {
        int v = -5;
        bool ok = rb->pop(v);
        out.i("res", ok ? v : -1);
    } else if (o == "pop0")
        out.i("res", rb->pop() ? 0 : -1);
    else if (o == "popn") {
        std::vector<int> v(op["n"].z(), -7);
        size_t n = rb->pop(v.data(), v.size());
        bool untouched = true;
        for (size_t i = n; i < v.size(); ++i) untouched &= v[i] == -7;
        v.resize(std::min(n, v.size()));
        if (!untouched) v.push_back(-9);
        out.ia("res", v);
    } else if (o == "peek") {
        int v = -5;
        out.i("res", rb->peek_at(v, op["i"].z()) ? v : -1);
    } else if (o == "peekp") {
        int* p = nullptr;
        out.i("res", rb->peek_at(&p, op["i"].z()) ? (p ? *p : -9) : -1);
    } else if (o == "dropl")
        out.i("res", rb->drop_last(op["n"].z()));
    else if (o == "dropf")
        out.i("res", rb->drop_first(op["n"].z()));
    else if (o == "clear") {
        rb->clear();
        out.i("res", 0);
    }
    out.i("used", rb->used_space()).i("free", rb->free_space()).b("empty", rb->empty()).b("full", rb->full());
    out.i("cap", rb->capacity()).i("over", rb->overrun_space());
    std::vector<int> q;
    int v;
    for (size_t i = 0; i < rb->capacity() + 1 && rb->peek_at(v, i); ++i) q.push_back(v);
    out.ia("q", q);
}
