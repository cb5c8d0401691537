#include "mbv.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/structure/static_string.hpp"
#include <cmath>
#include <cstring>
#include <optional>
using mbv::J;
using spn::structure::StaticString;
namespace utils = spn::core::utils;

static const std::string from = "~FNRTVHI", to("\0\f\n\r\t\v\xe4\xa0", 8);
static std::string real(const J& j) {
    std::string r = mbv::text(j);
    for (auto& c : r)
        if (auto i = from.find(c); i != std::string::npos) c = to[i];
    return r;
}
static std::string shown(std::string_view v) {
    std::string r(v);
    for (auto& c : r)
        if (auto i = to.find(c); i != std::string::npos) c = from[i];
    return r;
}
/// a view of exactly the memory it is made of
struct Exact {
    std::unique_ptr<char[]> p;
    std::string_view v;
    explicit Exact(const std::string& s) : p(new char[s.size()]), v(p.get(), s.size()) { memcpy(p.get(), s.data(), s.size()); }
};

static std::unique_ptr<StaticString> str;
static size_t cap;
static const char* where;

static void show(mbv::Out& o, bool full) {
    o.chars("text", shown(str->view())).chars("c", shown(str->c_str())).i("size", str->size());
    o.b("stable", str->capacity() == cap && str->data() == where && str->data() == str->c_str()).b("full", full);
}

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "lstrip" || k == "rstrip") {
        const Exact t(real(op["t"])), d(real(op["d"]));
        const auto r = op["dflt"].b() ? (k == "lstrip" ? utils::lstrip(t.v) : utils::rstrip(t.v)) : k == "lstrip" ? utils::lstrip(t.v, d.v) : utils::rstrip(t.v, d.v);
        // a view into the text, not a copy
        const bool inside = r.data() >= t.v.data() && r.data() + r.size() <= t.v.data() + t.v.size();
        o.chars("text", inside || r.empty() ? shown(r) : "outside").i("off", r.empty() && k == "lstrip" ? static_cast<long>(t.v.size()) : inside ? r.data() - t.v.data() : r.empty() ? 0 : -1);
        return;
    }
    if (k == "search") {
        const Exact t(real(op["t"])), d(real(op["d"]));
        const auto f = utils::find_first_of(t.v, d.v);
        o.b("starts", utils::starts_with(t.v, d.v)).b("ends", utils::ends_with(t.v, d.v)).i("find", f == std::string::npos ? -1L : static_cast<long>(f));
        return;
    }
    if (k == "float") {
        const std::string s = real(op["t"]);
        const Exact t(s);
        const float a = utils::to_float(t.v);
        const std::string more = s + "75";
        const float b = utils::to_float(std::string_view(more).substr(0, s.size())); // part of a longer text
        o.i("milli", a == b ? std::llround(a * 1000.0) : -999999);
        return;
    }
    if (k == "ssearch") {
        const Exact d(real(op["d"]));
        o.b("starts", str->starts_with(d.v)).b("ends", str->ends_with(d.v));
        return;
    }
    bool full = false;
    if (k == "new") {
        str = std::make_unique<StaticString>(op["n"].z());
        cap = str->capacity();
        full = str->size() == cap && cap >= op["n"].z();
        str->set_size(0);
        where = str->data();
    } else if (k == "write") {
        const std::string s = real(op["t"]);
        char* p = str->data(s.size());
        memcpy(p, s.data(), s.size());
    } else if (k == "size") {
        str->set_size(op["k"].z());
    } else if (k == "over") {
        const size_t had = str->size();
        str->set_size(cap + 3);
        full = str->size() == cap;
        str->set_size(had);
    } else {
        const Exact d(op["dflt"].b() ? "" : real(op["d"]));
        auto& r = op["dflt"].b() ? (k == "slstrip" ? str->lstrip() : str->rstrip()) : k == "slstrip" ? str->lstrip(d.v) : str->rstrip(d.v);
        full = &r != str.get();
    }
    show(o, full);
}
