#include "mbv.hpp"
#include "spine/structure/linebuffer.hpp"
using spn::structure::LineBuffer;
static std::unique_ptr<LineBuffer> lb;
static std::string delims; // the buffer keeps a view of it

static std::vector<int> bytes(const std::string_view& v) {
    std::vector<int> r;
    for (char c : v) r.push_back(static_cast<unsigned char>(c));
    return r;
}
static std::string str(const mbv::J& j) {
    std::string s;
    for (auto x : j.ints()) s += static_cast<char>(x);
    return s;
}

void handle(const mbv::J& op, mbv::Out& out) {
    const auto& o = op["op"].s();
    std::optional<size_t> known;
    if (op.has("known") && op["known"].b()) known = lb->length_of_next_line();
    if (o == "new") {
        lb.reset();
        delims = str(op["del"]);
        lb = std::make_unique<LineBuffer>(op["cap"].z(), delims);
        out.i("res", 0);
    } else if (o == "push")
        out.i("res", lb->push(std::string_view(str(op["vs"]))));
    else if (o == "pushr")
        out.i("res", lb->push(static_cast<char>(op["v"].i()), true) ? 1 : 0);
    else if (o == "setdel") {
        delims = str(op["del"]);
        lb->set_delimiters(delims);
        out.i("res", 0);
    } else if (o == "view") {
        auto v = lb->get_next_line_view(known);
        out.ia("res", v ? bytes(std::string(*v)) : std::vector<int>{-1});
    } else if (o == "copy") {
        size_t max = op["max"].z();
        auto before = lb->used_space();
        std::unique_ptr<char[]> buf(new char[max]); // exactly sized: the sanitizer sees any overrun
        for (size_t i = 0; i < max; ++i) buf[i] = '\x7f';
        size_t n = lb->get_next_line(buf.get(), max, known);
        std::vector<int> s{-1};
        if (lb->used_space() != before) {
            s = n < max ? bytes(std::string_view(buf.get(), n)) : std::vector<int>{-2};
            if (n < max && buf[n] != '\0') s = {-3};
        }
        std::string t = "{\"n\":" + mbv::Out::integer(n) + ",";
        mbv::Out in;
        in.ia("s", s);
        out.raw("res", t + in.t + "}");
    } else if (o == "drop")
        out.i("res", lb->drop_next_line(known) ? 1 : 0);
    else if (o == "pop") {
        char c = 0;
        bool ok = lb->pop(c);
        out.i("res", ok ? static_cast<unsigned char>(c) : -1);
    }
    out.i("used", lb->used_space()).i("free", lb->free_space()).b("has", lb->has_line());
    out.i("len", lb->length_of_next_line()).ia("del", bytes(lb->delimiters()));
    std::string q;
    char c;
    for (size_t i = 0; i < lb->capacity() + 1 && lb->peek_at(c, i); ++i) q += c;
    out.ia("q", bytes(q));
}
