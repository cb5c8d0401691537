#define MBV_NO_RECORDER
#define MBV_EXCEPTIONS // exceptions are part of what is observed
#include "mbv.hpp"
#include "capture.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include <set>
using mbv::J;
namespace core = spn::core;

struct custom_exception : spn::runtime_exception {
    using runtime_exception::runtime_exception;
    const char* error_type() const override { return "Custom"; }
};

static std::string calls;
static std::set<int> alive;
static std::map<int, std::unique_ptr<core::ExceptionHandler>> mine; // those given back to the caller
static int plan = 0;
static const void* thrown;

struct Handler : core::ExceptionHandler {
    int id;
    explicit Handler(int i) : id(i) { alive.insert(i); }
    ~Handler() override { alive.erase(id); }
    void handle_exception(const core::Exception& e) override {
        const std::string type = e.error_type();
        const std::string kind = type == "Runtime exception" ? "runtime" : type == "Logic exception" ? "logic" : type == "Assertion exception" ? "assertion"
                                 : type == "Custom" ? "custom" : type == "Exception" ? "plain" : type;
        calls += (calls.empty() ? "" : ",") + ("{\"h\":" + std::to_string(id)) + ",\"kind\":" + mbv::quote(&e == thrown || !thrown ? kind : "another object") + ",\"msg\":" + mbv::quote(e.what()) + "}";
        if (plan && plan != id) {
            const int h = plan;
            plan = 0;
            const int self = id;
            auto old = core::set_machine_exception_handler(std::move(mine.at(h)));
            mine.erase(h);
            mine[self] = std::move(old);
        }
    }
};
static int id_of(const core::ExceptionHandler* h) { return h ? static_cast<const Handler*>(h)->id : 0; }

template<typename E>
static void raise(const std::string& how, const char* msg) {
    const E e(msg);
    thrown = &e;
    if (how == "call") spn::throw_exception(e);
    if (how == "member") e.throw_error();
    if (how == "copy") {
        E c(e);
        thrown = &c;
        spn::throw_exception(c);
    }
}
static std::unique_ptr<core::ExceptionHandler> take(int h) {
    if (h == 0) return nullptr;
    if (auto it = mine.find(h); it != mine.end()) {
        auto r = std::move(it->second);
        mine.erase(it);
        return r;
    }
    return std::make_unique<Handler>(h);
}

static int evaluated;
static bool holds;
static bool it_works(int) {
    ++evaluated;
    return holds;
}
static int assertions(const std::string& k, const std::string& cond) {
    int n = 0;
    (void)n;
    evaluated = 0;
    if (cond == "it_works(n)") {
        if (k == "assert") spn_assert(it_works(n));
        if (k == "expect") spn_expect(it_works(n));
    } else {
        if (k == "assert") spn_assert(n == 1 || it_works(2));
        if (k == "expect") spn_expect(n == 1 || it_works(2));
    }
    return evaluated;
}

void handle(const J& op, mbv::Out& o) {
    static bool first = true;
    const auto& k = op["op"].s();
    captured();
    calls.clear();
    int prev = 0;
    bool logged = false;
    if (first && core::machine_exception_handler() != nullptr) prev = -1;
    first = false;
    if (k == "new") {
        spn::logging::set_log_level(spn::logging::LogLevel::DEBUG);
        core::set_machine_exception_handler(nullptr);
        mine.clear();
        plan = 0;
    } else if (k == "install") {
        auto old = core::set_machine_exception_handler(take(op["h"].i()));
        prev = id_of(old.get());
        if (old) mine[prev] = std::move(old);
    } else if (k == "replace") {
        auto old = core::set_machine_exception_handler(take(op["h"].i()));
        prev = id_of(old.get());
        if (plan == prev) plan = 0;
    } else if (k == "drop") {
        if (plan == op["h"].i()) plan = 0;
        mine.erase(op["h"].i());
    } else if (k == "plan") {
        plan = op["h"].i();
    } else if (k == "assert" || k == "expect") {
        thrown = nullptr;
        holds = op["holds"].b();
        const int n = assertions(k, op["msg"].s());
        logged = captured().find(op["msg"].s()) != std::string::npos;
        if (n != op["evals"].i()) prev = 1000 + n;
    } else {
        const auto &kind = op["kind"].s(), &how = op["how"].s();
        std::vector<char> m(op["msg"].s().c_str(), op["msg"].s().c_str() + op["msg"].s().size() + 1);
        if (kind == "runtime") raise<spn::runtime_exception>(how, m.data());
        if (kind == "logic") raise<spn::logic_exception>(how, m.data());
        if (kind == "assertion") raise<spn::assertion_exception>(how, m.data());
        if (kind == "custom") raise<custom_exception>(how, m.data());
        if (kind == "plain") raise<core::Exception>(how, m.data());
        logged = captured().find(m.data()) != std::string::npos;
    }
    o.i("prev", prev).raw("calls", "[" + calls + "]").b("logged", logged).i("cur", id_of(core::machine_exception_handler())).ia("alive", alive);
}
