#define MBV_EXCEPTIONS // exceptions are part of what is observed
#include "mbv.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include "spine/core/debugging.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;
using mbv::J;

struct Base {
    virtual ~Base() = default;
    virtual void run(const J& op, mbv::Out& o) = 0;
};

template<typename V>
struct Rig : Base {
    using F = Filter<V>;
    struct Known {
        F* p;
        int id;
        bool fresh;
        std::function<V(V)> call;
    };
    Stack<V> stack;
    std::vector<Known> in; // what should be attached, in order
    explicit Rig(size_t n) : stack(static_cast<uint8_t>(n)) {}
    static V q(const J& j) { return static_cast<V>(j.i()) / 4; }

    template<typename T>
    static std::unique_ptr<F> keep(std::unique_ptr<T> f, Known& k) {
        T* t = f.get();
        k.p = t;
        k.call = [t](V v) { return (*t)(v); };
        return f;
    }
    static std::unique_ptr<F> make(const J& c, Known& k) {
        const auto& kind = c["k"].s();
        if (kind == "pass") return keep(std::make_unique<Passthrough<V>>(typename Passthrough<V>::Config{}), k);
        if (kind == "inv") {
            if (c["dfl"].b()) return keep(std::make_unique<Invert<V>>(typename Invert<V>::Config{}), k);
            if (c["preset"].b() && c["lo"].i() == 0 && c["hi"].i() == 4) return keep(Invert<V>::NormalizedInverter(), k);
            if (c["preset"].b()) return keep(Invert<V>::NormalizedInverter(c["lo"].i() / 4.0f, c["hi"].i() / 4.0f), k);
            return keep(std::make_unique<Invert<V>>(typename Invert<V>::Config{.input_lower_limit = q(c["lo"]), .input_upper_limit = q(c["hi"])}), k);
        }
        if (kind == "map") {
            if (c["dfl"].b()) return keep(std::make_unique<MappedRange<V>>(typename MappedRange<V>::Config{}), k);
            if (c["preset"].b() && c["lo"].i() == 0 && c["hi"].i() == 4)
                return keep(c["ohi"].i() == 400 ? MappedRange<V>::Percentage() : MappedRange<V>::Permillage(), k);
            if (c["preset"].b())
                return keep(c["ohi"].i() == 400 ? MappedRange<V>::Percentage(c["lo"].i() / 4.0f, c["hi"].i() / 4.0f)
                                                : MappedRange<V>::Permillage(c["lo"].i() / 4.0f, c["hi"].i() / 4.0f), k);
            return keep(std::make_unique<MappedRange<V>>(typename MappedRange<V>::Config{.input_lower_limit = q(c["lo"]), .input_upper_limit = q(c["hi"]),
                .output_lower_limit = q(c["olo"]), .output_upper_limit = q(c["ohi"]), .throw_for_value_out_of_range = c["thr"].b()}), k);
        }
        if (kind == "ewma") {
            if (c["preset"].b()) return keep(c["K"].i() == 10 ? EWMA<V>::Short() : EWMA<V>::Long(), k);
            return keep(std::make_unique<EWMA<V>>(typename EWMA<V>::Config{.K = static_cast<V>(c["K"].i())}), k);
        }
        using B = BandPass<V>;
        if (c["dfl"].b()) return keep(std::make_unique<B>(typename B::Config{}), k);
        if (c["preset"].b()) return keep(B::Broad(), k);
        return keep(std::make_unique<B>(typename B::Config{.mode = c["rel"].b() ? B::Mode::RELATIVE : B::Mode::ABSOLUTE, .mantissa = q(c["m"]),
            .decades = static_cast<V>(c["dec"].i()), .offset = q(c["offset"]), .rejection_limit = static_cast<int>(c["limit"].i()),
            .throw_on_rejection_limit = c["thr"].b()}), k);
    }
    static long double show(V v) { return mbv::scaled(v, 4); }

    void run(const J& op, mbv::Out& o) override {
        const auto& k = op["op"].s();
        long double ret = 0;
        mbv::Recorder::others() = 0;
        if (k == "attach") {
            Known n{nullptr, static_cast<int>(op["id"].i()), true, {}};
            auto f = make(op["c"], n);
            const size_t had = stack.filter_slots_occupied();
            stack.attach_filter(std::move(f));
            if (stack.filter_slots_occupied() > had) in.push_back(n);
        } else if (k == "detach") {
            auto f = stack.detach_filter(static_cast<uint8_t>(op["i"].i()));
            ret = -1;
            if (f) {
                ret = -2;
                for (size_t i = 0; i < in.size(); ++i)
                    if (in[i].p == f.get()) {
                        ret = in[i].id;
                        in.erase(in.begin() + i);
                        break;
                    }
            }
        } else if (k == "sample") {
            for (auto& n : in) n.fresh = false;
            if (op["quiet"].b())
                stack.new_sample(q(op["s"]));
            else
                ret = show(stack.value(q(op["s"])));
        } else if (k == "direct") {
            auto& n = in.at(op["i"].z());
            n.fresh = false;
            ret = show(n.call(q(op["s"])));
        } else if (k == "reset") {
            for (auto& n : in) n.fresh = false;
            stack.reset_to(q(op["v"]));
        }
        o.i("ret", ret).i("thrown", mbv::Recorder::others());
        o.i("out", !in.empty() && in.back().fresh ? 0.0L : show(static_cast<const Stack<V>&>(stack).value()));
        o.i("slots", stack.filter_slots()).i("occ", stack.filter_slots_occupied());
        std::vector<long double> ids, vals;
        for (auto& n : in) {
            ids.push_back(n.id);
            vals.push_back(n.fresh ? 0 : show(static_cast<const F*>(n.p)->value()));
        }
        o.ia("ids", ids).ia("vals", vals);
    }
};

static std::unique_ptr<Base> rig;
void handle(const J& op, mbv::Out& o) {
    if (op["op"].s() == "new") {
        rig.reset();
        if (op["dbl"].b())
            rig = std::make_unique<Rig<double>>(op["slots"].z());
        else
            rig = std::make_unique<Rig<float>>(op["slots"].z());
    }
    rig->run(op, o);
}
