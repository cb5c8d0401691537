#define MBV_EXCEPTIONS // exceptions are part of what is observed
#include "mbv.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include <deque>
using namespace spn::io;

static std::vector<int> bytes(const std::string_view& v) {
    std::vector<int> r;
    for (char c : v) r.push_back(static_cast<unsigned char>(c));
    return r;
}
static std::string str(const mbv::J& j) {
    std::string s;
    for (auto x : j.ints()) s += static_cast<char>(x);
    return s;
}

/// The underlying stream: bytes on offer, a budget of room, one failing read/write, whichever way it is called
struct Fake : Stream {
    std::deque<uint8_t> in;
    std::vector<uint8_t> sent;
    size_t room = 0;
    int64_t rfail = -1, wfail = -1, reads = 0, writes = 0;
    void initialize() override {}
    bool read(uint8_t& v) override {
        if (reads++ == rfail || in.empty()) return false;
        v = in.front();
        in.pop_front();
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && read(b[k])) ++k;
        return k;
    }
    size_t available() const override { return in.size(); }
    size_t available_for_write() const override { return room; }
    bool write(const uint8_t v) override {
        if (room == 0 || writes++ == wfail) return false;
        --room;
        sent.push_back(v);
        return true;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        size_t k = 0;
        while (k < n && write(b[k])) ++k;
        return k;
    }
    void flush() override {}
};

struct World {
    std::string delims;
    std::shared_ptr<Fake> f = std::make_shared<Fake>();
    std::unique_ptr<BufferedStream> bs;
    std::unique_ptr<Transaction> tx;
    explicit World(const mbv::J& op) : delims(str(op["del"])) {
        BufferedStream::Config cfg;
        // what is as configured when nothing is said is left unsaid
        if (op["icap"].z() != 1) cfg.input_buffer_size = op["icap"].z();
        if (op["ocap"].z() != 1) cfg.output_buffer_size = op["ocap"].z();
        if (delims != "\r\n") cfg.delimiters = delims;
        bs = std::make_unique<BufferedStream>(f, std::move(cfg));
    }
    size_t flush(size_t room, int64_t fail) {
        f->room = room;
        f->wfail = fail;
        f->writes = 0;
        f->sent.clear();
        auto n = bs->push_out_data();
        f->room = 0;
        return n;
    }
    std::string apply(const mbv::J& op) {
        const auto& o = op["op"].s();
        std::optional<size_t> known;
        if (op.has("known") && op["known"].b()) known = bs->length_of_next_line();
        mbv::Out out;
        if (o == "new") {
        } else if (o == "arrive") {
            for (auto x : op["vs"].ints()) f->in.push_back(static_cast<uint8_t>(x));
        } else if (o == "pull") {
            f->rfail = op["fail"].i();
            f->reads = 0;
            out.i("x", bs->pull_in_data());
            return out.t.substr(4);
        } else if (o == "view") {
            auto v = bs->get_next_line_view(known);
            out.ia("x", v ? bytes(std::string(*v)) : std::vector<int>{-1});
            return out.t.substr(4);
        } else if (o == "copy") {
            size_t max = op["max"].z(), before = bs->input_buffer_space_used();
            std::unique_ptr<char[]> buf(new char[max]);
            for (size_t i = 0; i < max; ++i) buf[i] = '\x7f';
            size_t n = bs->get_next_line(buf.get(), max, known);
            std::vector<int> s{-1};
            if (bs->input_buffer_space_used() != before) {
                s = n < max ? bytes(std::string_view(buf.get(), n)) : std::vector<int>{-2};
                if (n < max && buf[n] != '\0') s = {-3};
            }
            out.i("n", n).ia("s", s);
            return "{" + out.t + "}";
        } else if (o == "drop")
            return bs->drop_next_line(known) ? "1" : "0";
        else if (o == "write") {
            auto s = str(op["vs"]);
            bool roll = op["roll"].b();
            size_t n = s.size() == 1 ? bs->buffered_write(static_cast<uint8_t>(s[0]), roll)
                       : roll        ? bs->buffered_write(s.data(), s.size(), true)
                                     : bs->buffered_write(std::string_view(s));
            return mbv::Out::integer(n);
        } else if (o == "flush") {
            auto n = flush(op["room"].z(), op["fail"].i());
            out.i("n", n).ia("sent", f->sent);
            return "{" + out.t + "}";
        } else if (o == "dropl")
            return mbv::Out::integer(bs->output_buffer_drop_last(op["n"].z()));
        else if (o == "dropf")
            return mbv::Out::integer(bs->output_buffer_drop_first(op["n"].z()));
        else if (o == "begin") {
            tx.reset();
            auto t = bs->new_transaction();
            if (t) tx = std::make_unique<Transaction>(std::move(*t));
            return tx ? "1" : "0";
        } else if (o == "tassign") {
            auto t = bs->new_transaction();
            if (t) *tx = std::move(*t);
            return t ? "1" : "0";
        } else if (o == "reply") {
            auto s = str(op["vs"]);
            size_t n = op["one"].b() ? tx->outgoing(s[0]) : tx->outgoing(std::string_view(s));
            return mbv::Out::integer(n);
        } else if (o == "commit")
            tx->commit();
        else if (o == "abort")
            tx->abort();
        else if (o == "destroy")
            tx.reset();
        else if (o == "tmove") {
            auto n = std::make_unique<Transaction>(std::move(*tx));
            tx = std::move(n); // destroys the moved-from one
        } else if (o == "tself") {
            auto& t = *tx;
            *tx = std::move(t);
        }
        return "0";
    }
};
static std::unique_ptr<World> w;
static std::vector<mbv::J> history; // since the last "new"

void handle(const mbv::J& op, mbv::Out& out) {
    if (op["op"].s() == "new") {
        w.reset();
        w = std::make_unique<World>(op);
        history.clear();
    }
    history.push_back(op);
    out.raw("res", w->apply(op));
    out.i("iused", w->bs->input_buffer_space_used()).i("ileft", w->bs->input_buffer_space_left());
    out.i("oused", w->bs->output_buffer_space_used()).i("oleft", w->bs->output_buffer_space_left());
    out.i("len", w->bs->length_of_next_line()).b("has", w->bs->has_line()).ia("pend", w->f->in);
    bool fin = !w->tx || w->tx->is_finalized();
    out.b("tfin", fin).ia("tin", fin ? std::vector<int>{-1} : bytes(std::string(w->tx->incoming())));
    out.i("tused", w->tx ? w->tx->outgoing_space_used() : 0).i("tleft", w->tx ? w->tx->outgoing_space_left() : 0);
    // what a flush would deliver now: the same history on a second object, then flush everything
    static size_t before = 0;
    const bool skip = before == 0 && w->bs->output_buffer_space_used() == 0;
    before = w->bs->output_buffer_space_used();
    if (skip) {
        out.ia("q", std::vector<int>{});
        return;
    }
    const int assertions = mbv::Recorder::assertions();
    World probe(history[0]);
    for (auto& h : history) probe.apply(h);
    probe.flush(1000000, -1);
    out.ia("q", probe.f->sent);
    mbv::Recorder::assertions() = assertions;
}
