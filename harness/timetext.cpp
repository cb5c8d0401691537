#include "mbv.hpp"
#include "spine/core/utils/time_repr.hpp"
#include <cstring>
using mbv::J;

static int64_t big(const J& j) {
    unsigned __int128 m = 0;
    for (size_t i = j["m"].a.size(); i-- > 0;) m = m * 10000 + j["m"].a[i].n;
    return j["n"].b() ? -static_cast<int64_t>(m) : static_cast<int64_t>(m);
}
static std::string limbs(int64_t v) {
    unsigned __int128 m = v < 0 ? -static_cast<__int128>(v) : static_cast<__int128>(v);
    std::string r;
    for (; m; m /= 10000) r += (r.empty() ? "" : ",") + std::to_string(static_cast<int>(m % 10000));
    return std::string("{\"n\":") + (v < 0 ? "true" : "false") + ",\"m\":[" + r + "]}";
}
static std::string read(const std::string& s) {
    auto p = std::unique_ptr<char[]>(new char[s.size()]); // exactly as large as the view
    memcpy(p.get(), s.data(), s.size());
    const auto v = spn::core::utils::parse_time(std::string_view(p.get(), s.size()));
    int64_t raw = 0;
    if (v) raw = std::visit([](const auto& t) { return static_cast<int64_t>(t.raw()); }, *v);
    return std::string("{\"ok\":") + (v ? "true" : "false") + ",\"u\":" + std::to_string(v ? v->index() + 1 : 0) + ",\"v\":" + limbs(raw) + "}";
}

void handle(const J& op, mbv::Out& o) {
    using spn::core::utils::repr;
    std::string t;
    if (op["op"].s() == "repr") {
        const int64_t v = big(op["v"]);
        switch (op["u"].i()) {
        case 1: t = repr(k_time_us(v)); break;
        case 2: t = repr(k_time_ms(v)); break;
        case 3: t = repr(k_time_s(v)); break;
        case 4: t = repr(k_time_m(v)); break;
        case 5: t = repr(k_time_h(v)); break;
        default: t = repr(k_time_d(v)); break;
        }
        o.chars("text", t);
    } else
        t = mbv::text(op["text"]);
    o.raw("back", read(t));
}
