#include "mbv.hpp"
#include "spine/io/stream/buffered_stream.hpp"
using namespace spn::io;

/// The underlying stream: numbered bytes on offer, a budget of room
struct Fake : Stream {
    long next = 0, offered = 0, mark = 0;
    size_t room = 0;
    std::vector<uint8_t> sent;
    static uint8_t value(long k) { return static_cast<uint8_t>(k % 200); }
    void initialize() override {}
    bool read(uint8_t& v) override {
        if (next == offered) return false;
        ++next;
        v = next == mark ? 255 : value(next);
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && read(b[k])) ++k;
        return k;
    }
    size_t available() const override { return static_cast<size_t>(offered - next); }
    size_t available_for_write() const override { return room; }
    bool write(const uint8_t v) override {
        if (room == 0) return false;
        --room;
        sent.push_back(v);
        return true;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        size_t k = 0;
        while (k < n && write(b[k])) ++k;
        return k;
    }
    void flush() override {}
};

static std::shared_ptr<Fake> f;
static std::unique_ptr<BufferedStream> bs;
static std::unique_ptr<Transaction> tx;
static long gone; // the number of the last byte flushed

static std::string numbered(long from, size_t n) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(Fake::value(from + static_cast<long>(i)));
    return s;
}

void handle(const mbv::J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    long res = 0;
    bool run = true;
    if (k == "new") {
        tx.reset(), bs.reset();
        f = std::make_shared<Fake>();
        BufferedStream::Config cfg;
        cfg.input_buffer_size = cfg.output_buffer_size = op["cap"].z();
        cfg.delimiters = "\xff";
        bs = std::make_unique<BufferedStream>(f, std::move(cfg));
        gone = 0;
    }
    // the bytes read so far, less those still held, come before the first one held
    const long lo = f->next - static_cast<long>(bs->input_buffer_space_used());
    const auto is_line = [&](std::string_view v) { return v == numbered(lo + 1, v.size()) && lo + static_cast<long>(v.size()) + 1 == f->mark; };
    if (k == "feed") f->offered += op["n"].i();
    if (k == "mark") f->mark = ++f->offered;
    if (k == "pull") res = static_cast<long>(bs->pull_in_data());
    if (k == "view") {
        const auto v = bs->get_next_line_view();
        res = v ? static_cast<long>(v->size()) : -1;
        if (v) run = is_line(*v);
    }
    if (k == "copy") {
        const size_t n = bs->length_of_next_line();
        std::unique_ptr<char[]> b(new char[n + 1]);
        b[0] = 1;
        res = static_cast<long>(bs->get_next_line(b.get(), n));
        if (n > 0) run = is_line(std::string_view(b.get(), static_cast<size_t>(res))) && b[static_cast<size_t>(res)] == '\0';
    }
    if (k == "drop") res = bs->drop_next_line();
    if (k == "queue" || k == "reply") {
        const auto s = numbered(op["v"].i(), op["n"].z());
        res = static_cast<long>(tx ? tx->outgoing(s) : bs->buffered_write(std::string_view(s)));
    }
    if (k == "flush") {
        f->room = op["room"].z();
        f->sent.clear();
        res = static_cast<long>(bs->push_out_data());
        f->room = 0;
        run = std::string(f->sent.begin(), f->sent.end()) == numbered(gone + 1, static_cast<size_t>(res));
        gone += res;
    }
    if (k == "begin") {
        auto t = bs->new_transaction();
        if (t) tx = std::make_unique<Transaction>(std::move(*t));
        res = t.has_value();
    }
    if (k == "commit") tx->commit(), tx.reset();
    if (k == "abort") tx->abort(), tx.reset();
    if (tx) run &= is_line(tx->incoming());
    o.i("res", res).i("iused", bs->input_buffer_space_used()).i("ileft", bs->input_buffer_space_left()).i("len", bs->length_of_next_line());
    o.i("pend", f->available()).i("oused", bs->output_buffer_space_used()).i("oleft", bs->output_buffer_space_left());
    o.i("tin", tx ? static_cast<long>(tx->incoming().size()) : -1).i("tused", tx ? tx->outgoing_space_used() : 0).b("run", run);
}
