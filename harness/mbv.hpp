// Shared part of every adapter: reads one JSON operation per line on stdin, runs it on the real object
// (built from /repo's working tree) and writes one JSON observation per line.
#pragma once
#include "spine/core/exception.hpp"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

namespace mbv {

struct J {
    enum K { Null, Bool, Int, Str, Arr, Obj } k = Null;
    int64_t n = 0;
    std::string str;
    std::vector<J> a;
    std::map<std::string, J> o;

    const J& operator[](const char* key) const {
        auto it = o.find(key);
        if (it == o.end()) {
            fprintf(stderr, "adapter: missing field %s\n", key);
            _exit(97);
        }
        return it->second;
    }
    bool has(const char* key) const { return o.count(key) > 0; }
    int64_t i() const { return n; }
    size_t z() const { return static_cast<size_t>(n); }
    bool b() const { return n != 0; }
    const std::string& s() const { return str; }
    std::vector<int64_t> ints() const {
        std::vector<int64_t> r;
        for (auto& e : a) r.push_back(e.n);
        return r;
    }
};

struct Parser {
    const char* p;
    void ws() {
        while (*p == ' ' || *p == '\t') ++p;
    }
    J value() {
        ws();
        J j;
        if (*p == '{') {
            j.k = J::Obj;
            ++p;
            ws();
            while (*p != '}') {
                J key = value();
                ws();
                ++p; // :
                j.o[key.str] = value();
                ws();
                if (*p == ',') ++p;
                ws();
            }
            ++p;
        } else if (*p == '[') {
            j.k = J::Arr;
            ++p;
            ws();
            while (*p != ']') {
                j.a.push_back(value());
                ws();
                if (*p == ',') ++p;
                ws();
            }
            ++p;
        } else if (*p == '"') {
            j.k = J::Str;
            ++p;
            while (*p != '"') {
                if (*p == '\\') {
                    ++p;
                    switch (*p) {
                    case 'n': j.str += '\n'; break;
                    case 't': j.str += '\t'; break;
                    case 'r': j.str += '\r'; break;
                    case 'f': j.str += '\f'; break;
                    case 'b': j.str += '\b'; break;
                    case 'u': {
                        std::string h(p + 1, p + 5);
                        j.str += static_cast<char>(strtol(h.c_str(), nullptr, 16));
                        p += 4;
                        break;
                    }
                    default: j.str += *p;
                    }
                    ++p;
                } else
                    j.str += *p++;
            }
            ++p;
        } else if (*p == 't') {
            j.k = J::Bool;
            j.n = 1;
            p += 4;
        } else if (*p == 'f') {
            j.k = J::Bool;
            p += 5;
        } else if (*p == 'n') {
            p += 4;
        } else {
            j.k = J::Int;
            char* e;
            j.n = strtoll(p, &e, 10);
            if (e == p) {
                fprintf(stderr, "adapter: bad json at %s\n", p);
                _exit(97);
            }
            p = e;
        }
        return j;
    }
};

inline std::string quote(const std::string& s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c > 0x7e) {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        } else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

/// Builder of one observation. Integers beyond TLC's range are clamped to a sentinel no model value uses.
struct Out {
    std::string t;
    void key(const char* k) {
        if (!t.empty()) t += ",";
        t += quote(k) + ":";
    }
    static std::string num(long double v) {
        constexpr long double lim = 2000000000.0L;
        if (!(v == v)) return "-2000000007";
        if (v > lim) return "2000000007";
        if (v < -lim) return "-2000000009";
        return std::to_string(static_cast<long long>(v));
    }
    template<typename T>
    static std::string integer(T v) {
        return num(static_cast<long double>(v));
    }
    template<typename T>
    Out& i(const char* k, T v) {
        key(k);
        t += integer(v);
        return *this;
    }
    Out& b(const char* k, bool v) {
        key(k);
        t += v ? "true" : "false";
        return *this;
    }
    Out& s(const char* k, const std::string& v) {
        key(k);
        t += quote(v);
        return *this;
    }
    Out& raw(const char* k, const std::string& v) {
        key(k);
        t += v;
        return *this;
    }
    template<typename C>
    Out& ia(const char* k, const C& c) {
        key(k);
        t += "[";
        bool first = true;
        for (const auto& e : c) {
            if (!first) t += ",";
            first = false;
            t += integer(e);
        }
        t += "]";
        return *this;
    }
    /// bytes of a string as an array of one-character strings
    Out& chars(const char* k, const std::string& c) {
        key(k);
        t += "[";
        bool first = true;
        for (const char e : c) {
            if (!first) t += ",";
            first = false;
            t += quote(std::string(1, e));
        }
        t += "]";
        return *this;
    }
};

/// A float scaled to an integer: exact when v*scale is integral, sentinel 2000000011 otherwise.
inline long double scaled(long double v, long double scale) {
    long double x = v * scale;
    if (!(x == x)) return 2000000013.0L;
    if (x > 2000000000.0L || x < -2000000000.0L) return 2000000009.0L;
    if (static_cast<long double>(static_cast<long long>(x)) != x) return 2000000011.0L;
    return x;
}

inline std::string join(const std::vector<std::string>& chars) {
    std::string r;
    for (auto& c : chars) r += c;
    return r;
}
inline std::string text(const J& j) { // array of one-character strings
    std::string r;
    for (auto& e : j.a) r += e.str;
    return r;
}

/// Counts internal assertions (debug build) and records other exceptions.
struct Recorder : spn::core::ExceptionHandler {
    static int& assertions() {
        static int n = 0;
        return n;
    }
    static std::string& last() {
        static std::string s;
        return s;
    }
    static std::string& thrown() {
        static std::string s;
        return s;
    }
    static int& others() {
        static int n = 0;
        return n;
    }
    void handle_exception(const spn::core::Exception& e) override {
        if (std::string(e.error_type()) == "Assertion exception") {
            ++assertions();
            last() = e.what();
        } else {
            ++others();
            thrown() = e.what();
        }
    }
};

} // namespace mbv

void handle(const mbv::J& op, mbv::Out& out);

#ifndef MBV_NO_MAIN
int main() {
    FILE* obs = fdopen(dup(1), "w");
    if (!freopen("/dev/null", "w", stdout)) return 98;
#    ifndef MBV_NO_RECORDER
    spn::core::set_machine_exception_handler(std::make_unique<mbv::Recorder>());
#    endif
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        mbv::Parser p{line.c_str()};
        mbv::J op = p.value();
        mbv::Out out;
        mbv::Recorder::assertions() = 0;
#    if !defined(MBV_EXCEPTIONS) && !defined(MBV_NO_RECORDER)
        mbv::Recorder::others() = 0;
#    endif
        handle(op, out);
#    if !defined(MBV_EXCEPTIONS) && !defined(MBV_NO_RECORDER)
        if (mbv::Recorder::others() > 0) { // nothing here is expected to throw: left alone it would have halted the program
            fprintf(stderr, "an exception was thrown: %s\n", mbv::Recorder::thrown().c_str());
            abort();
        }
#    endif
#    if defined(DEBUG_SPINE) && !defined(MBV_NO_RECORDER)
        out.b("asserted", mbv::Recorder::assertions() > 0);
#    endif
        if (mbv::Recorder::assertions() > 0) {
            out.i("_a", mbv::Recorder::assertions());
            out.s("_am", mbv::Recorder::last());
        }
        fprintf(obs, "{%s}\n", out.t.c_str());
        fflush(obs);
    }
    _exit(0);
}
#endif
