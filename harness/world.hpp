// Generated co-simulation systems: instrumented slaves and functions, and an
// independent reference model of what a fixed-step co-simulation must do.
#pragma once
#include "vh.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/model_description.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>

namespace world
{
using cosim::scalar_value;
using cosim::value_reference;
using cosim::variable_causality;
using cosim::variable_type;
using vh::cat;

inline cosim::time_point tp(std::int64_t ns) { return cosim::time_point(cosim::duration(ns)); }
inline std::int64_t ns(cosim::time_point t) { return t.time_since_epoch().count(); }

inline bool same(const scalar_value& a, const scalar_value& b)
{
    if (a.index() != b.index()) return false;
    if (a.index() == 0) {
        const double x = std::get<double>(a), y = std::get<double>(b);
        return std::memcmp(&x, &y, sizeof x) == 0;
    }
    return a == b;
}
inline std::string show(const scalar_value& v)
{
    switch (v.index()) {
        case 0: return cat(std::get<double>(v));
        case 1: return cat(std::get<int>(v));
        case 2: return std::get<bool>(v) ? "true" : "false";
        default: return "'" + std::get<std::string>(v) + "'";
    }
}
inline std::uint64_t hashv(const scalar_value& v)
{
    switch (v.index()) {
        case 0: {
            std::uint64_t u;
            const double d = std::get<double>(v);
            std::memcpy(&u, &d, 8);
            return vh::mix(u, 1);
        }
        case 1: return vh::mix(static_cast<std::uint32_t>(std::get<int>(v)), 2);
        case 2: return vh::mix(std::get<bool>(v), 3);
        default: return vh::mix(vh::hash_str(std::get<std::string>(v)), 4);
    }
}
// A value of the given type that is a function of h.
inline scalar_value make_value(variable_type t, std::uint64_t h)
{
    vh::rng r(h);
    switch (t) {
        case variable_type::real: {
            switch (r.range(0, 11)) {
                case 0: return 0.0;
                case 1: return -0.0;
                case 2: return std::numeric_limits<double>::infinity();
                case 3: return std::numeric_limits<double>::max();
                case 4: return std::numeric_limits<double>::denorm_min();
                case 5: return 1e-300 * static_cast<double>(r.range(-1000, 1000));
                default: return (r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.range(-8, 12)));
            }
        }
        case variable_type::integer:
            switch (r.range(0, 7)) {
                case 0: return std::numeric_limits<int>::min();
                case 1: return std::numeric_limits<int>::max();
                case 2: return 0;
                default: return static_cast<int>(r.range(-2000000000, 2000000000));
            }
        case variable_type::boolean: return (r.next() & 1) != 0;
        default: {
            std::string s;
            const auto kind = r.range(0, 6);
            const auto n = kind == 0 ? 0 : kind == 1 ? r.range(20, 200) : r.range(1, 12);
            for (long long i = 0; i < n; ++i) {
                const auto c = r.range(0, 40);
                s += c == 0 ? '\0' : c == 1 ? '\xc3' : static_cast<char>('a' + c % 26);
            }
            return s;
        }
    }
}

struct var_spec
{
    std::string name;
    value_reference ref = 0;
    variable_type type = variable_type::real;
    variable_causality causality = variable_causality::output;
    cosim::variable_variability variability = cosim::variable_variability::continuous;
    bool hasStart = false;
    scalar_value start;
    scalar_value value0; // the slave's own value before anything is set
};

struct slave_spec
{
    std::string name;
    std::vector<var_spec> vars;
    std::int64_t hint = 0; // step size hint (ns)
    bool feedthrough = false; // outputs follow inputs during initialisation
    std::uint64_t id = 0;
    int delay = 0; // max. artificial delay per call (microseconds)

    const var_spec* find(variable_type t, value_reference r) const
    {
        for (const auto& v : vars)
            if (v.type == t && v.ref == r) return &v;
        return nullptr;
    }
    cosim::model_description description() const
    {
        cosim::model_description d;
        d.name = "model_" + name;
        d.uuid = "uuid-" + name;
        for (const auto& v : vars) {
            cosim::variable_description vd;
            vd.name = v.name;
            vd.reference = v.ref;
            vd.type = v.type;
            vd.causality = v.causality;
            vd.variability = v.variability;
            if (v.hasStart) vd.start = v.start;
            d.variables.push_back(vd);
        }
        return d;
    }
};

using key = std::pair<int, value_reference>; // (type, ref)
inline key K(const var_spec& v) { return {static_cast<int>(v.type), v.ref}; }
using value_map = std::map<key, scalar_value>;

inline bool is_in(const var_spec& v)
{
    return v.causality == variable_causality::input || v.causality == variable_causality::parameter;
}

// Output values as a function of the values of all inputs.
inline void compute_outputs(const slave_spec& s, value_map& vals, std::uint64_t salt, bool useInputs)
{
    std::uint64_t h = vh::mix(s.id, salt);
    if (useInputs)
        for (const auto& v : s.vars)
            if (is_in(v)) h = vh::mix(h, hashv(vals.at(K(v))));
    for (const auto& v : s.vars)
        if (!is_in(v)) vals[K(v)] = make_value(v.type, vh::mix(h, v.ref * 8 + static_cast<int>(v.type)));
}

// ------------------------------------------------------------------ slave
enum class op { setup, start, step, get, set, end };
inline const char* op_name(op o)
{
    static const char* n[] = {"setup", "start_simulation", "do_step", "get_variables", "set_variables", "end_simulation"};
    return n[static_cast<int>(o)];
}

struct event
{
    op what;
    std::uint64_t begin = 0, end = 0; // positions in the global order
    std::int64_t t = 0, dt = 0;
    value_map values; // set: values written; get: values returned; step: effective inputs
    bool failed = false;
};

// Global order of call begins and ends.
struct order
{
    std::atomic<std::uint64_t> n{1};
    std::uint64_t tick() { return n.fetch_add(1); }
};

class vslave : public cosim::slave
{
public:
    vslave(slave_spec s, std::shared_ptr<order> ord) : spec(std::move(s)), ord_(std::move(ord))
    {
        for (const auto& v : spec.vars) vals[K(v)] = v.value0;
        compute_outputs(spec, vals, 7, spec.feedthrough);
    }

    slave_spec spec;
    mutable value_map vals;
    mutable std::vector<event> log;
    mutable std::vector<std::string> problems;
    std::uint64_t scheduleSeed = 0; // varies delays only
    std::function<cosim::step_result(op, long long)> fault; // may throw
    std::function<void(op, long long)> onCall; // called inside each call
    int stepsDone = 0;
    bool failedOnce = false;
    bool keepLog = true;

    cosim::model_description model_description() const override { return spec.description(); }

    void setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime, std::optional<double>) override
    {
        call c(*this, op::setup);
        c.e.t = ns(startTime);
        c.e.dt = stopTime ? ns(*stopTime) - ns(startTime) : -1;
        c.run();
        phase_ = 1;
        c.done();
    }
    void start_simulation() override
    {
        call c(*this, op::start);
        c.run();
        phase_ = 2;
        c.done();
    }
    void end_simulation() override
    {
        call c(*this, op::end);
        c.run();
        c.done();
    }
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        call c(*this, op::step);
        c.e.t = ns(t);
        c.e.dt = dt.count();
        for (const auto& v : spec.vars)
            if (is_in(v)) c.e.values[K(v)] = vals.at(K(v));
        const auto r = c.run();
        compute_outputs(spec, vals, vh::mix(1000 + static_cast<std::uint64_t>(stepsDone), static_cast<std::uint64_t>(ns(t)) * 3 + static_cast<std::uint64_t>(dt.count())), true);
        ++stepsDone;
        c.done();
        return r;
    }

    template<typename T>
    void get_t(variable_type t, gsl::span<const value_reference> refs, gsl::span<T> out) const
    {
        if (refs.size() == 0) return;
        call c(*this, op::get);
        c.run();
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) {
            const key k{static_cast<int>(t), refs[i]};
            const auto it = vals.find(k);
            if (it == vals.end()) {
                problem(cat("get of unknown variable ref ", refs[i], " type ", cosim::to_text(t)));
                continue;
            }
            out[i] = std::get<T>(it->second);
            if (keepLog) c.e.values[k] = it->second;
        }
        c.done();
    }
    template<typename T>
    void set_t(variable_type t, gsl::span<const value_reference> refs, gsl::span<const T> in)
    {
        if (refs.size() == 0) return;
        call c(*this, op::set);
        c.run();
        if (refs.size() != in.size()) problem("set: differing numbers of references and values");
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) {
            const key k{static_cast<int>(t), refs[i]};
            const auto it = vals.find(k);
            if (it == vals.end()) {
                problem(cat("set of unknown variable ref ", refs[i], " type ", cosim::to_text(t)));
                continue;
            }
            it->second = scalar_value(std::in_place_type<T>, in[i]);
            if (c.e.values.count(k)) problem(cat("variable ref ", refs[i], " set twice in one call"));
            c.e.values[k] = it->second;
        }
        if (phase_ < 2) compute_outputs(spec, vals, 7, spec.feedthrough);
        c.done();
    }

    void get_real_variables(gsl::span<const value_reference> r, gsl::span<double> v) const override { get_t<double>(variable_type::real, r, v); }
    void get_integer_variables(gsl::span<const value_reference> r, gsl::span<int> v) const override { get_t<int>(variable_type::integer, r, v); }
    void get_boolean_variables(gsl::span<const value_reference> r, gsl::span<bool> v) const override { get_t<bool>(variable_type::boolean, r, v); }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override { get_t<std::string>(variable_type::string, r, v); }
    void set_real_variables(gsl::span<const value_reference> r, gsl::span<const double> v) override { set_t<double>(variable_type::real, r, v); }
    void set_integer_variables(gsl::span<const value_reference> r, gsl::span<const int> v) override { set_t<int>(variable_type::integer, r, v); }
    void set_boolean_variables(gsl::span<const value_reference> r, gsl::span<const bool> v) override { set_t<bool>(variable_type::boolean, r, v); }
    void set_string_variables(gsl::span<const value_reference> r, gsl::span<const std::string> v) override { set_t<std::string>(variable_type::string, r, v); }

    int phase() const { return phase_; }
    long long calls() const { return callCount_.load(); }
    int overlaps() const { return overlaps_.load(); }

private:
    // One call in progress.  The occupancy counter is the only state shared
    // between overlapping calls; the log itself is written without locking on
    // purpose only when there's no overlap.
    struct call
    {
        const vslave& s;
        event e;
        long long nr;
        bool alone;
        bool finished = false;
        call(const vslave& sl, op o) : s(sl)
        {
            e.what = o;
            alone = s.inCall_.fetch_add(1, std::memory_order_relaxed) == 0;
            if (!alone) s.overlaps_.fetch_add(1);
            nr = s.callCount_.fetch_add(1);
            e.begin = s.ord_ ? s.ord_->tick() : 0;
        }
        cosim::step_result run()
        {
            auto& m = const_cast<vslave&>(s);
            if (s.spec.delay > 0) {
                vh::rng r(vh::mix(s.scheduleSeed ^ s.spec.id, static_cast<std::uint64_t>(nr)));
                const auto k = r.range(0, 9);
                if (k < 3) std::this_thread::yield();
                else if (k < 6) ::usleep(static_cast<useconds_t>(r.range(1, s.spec.delay)));
            }
            if (m.onCall) m.onCall(e.what, nr);
            auto res = cosim::step_result::complete;
            if (m.fault) {
                try {
                    res = m.fault(e.what, nr);
                    if (res != cosim::step_result::complete) {
                        e.failed = true;
                        m.failedOnce = true;
                    }
                } catch (...) {
                    e.failed = true;
                    m.failedOnce = true;
                    throw;
                }
            }
            return res;
        }
        void done() { finished = true; }
        ~call()
        {
            e.end = s.ord_ ? s.ord_->tick() : 0;
            if (alone && s.keepLog) s.log.push_back(std::move(e));
            s.inCall_.fetch_sub(1, std::memory_order_relaxed);
        }
    };
    void problem(const std::string& p) const { problems.push_back(p); }

    std::shared_ptr<order> ord_;
    int phase_ = 0;
    mutable std::atomic<int> inCall_{0};
    mutable std::atomic<int> overlaps_{0};
    mutable std::atomic<long long> callCount_{0};
};

// --------------------------------------------------------------- function
struct fun_io
{
    variable_type type;
    cosim::function_io_reference ref;
    bool isInput;
};
inline auto rk(const cosim::function_io_reference& r)
{
    return std::make_tuple(r.group, r.group_instance, r.io, r.io_instance);
}
using fun_key = std::tuple<int, int, int, int>;

struct fun_spec
{
    std::uint64_t id = 0;
    std::vector<cosim::function_io_group_description> groups;
    std::vector<fun_io> ios; // every instance of every port
};

inline void compute_function(const fun_spec& f, std::map<fun_key, scalar_value>& v)
{
    std::uint64_t h = vh::mix(f.id, 99);
    for (const auto& io : f.ios)
        if (io.isInput) h = vh::mix(h, hashv(v.at(rk(io.ref))));
    int i = 0;
    for (const auto& io : f.ios) {
        ++i;
        if (!io.isInput) v[rk(io.ref)] = make_value(io.type, vh::mix(h, i));
    }
}
inline scalar_value zero_value(variable_type t)
{
    switch (t) {
        case variable_type::real: return 0.0;
        case variable_type::integer: return 0;
        case variable_type::boolean: return false;
        default: return std::string();
    }
}

class vfunction : public cosim::function
{
public:
    explicit vfunction(fun_spec s) : spec(std::move(s))
    {
        for (const auto& io : spec.ios) vals[rk(io.ref)] = zero_value(io.type);
    }
    fun_spec spec;
    std::map<fun_key, scalar_value> vals;
    int calculations = 0;
    std::vector<std::string> problems;
    std::function<void(vfunction&)> onCalculate;

    cosim::function_description description() const override
    {
        cosim::function_description d;
        d.io_groups = spec.groups;
        return d;
    }
    template<typename T>
    void set(const cosim::function_io_reference& r, T v)
    {
        const auto it = vals.find(rk(r));
        if (it == vals.end() || !std::holds_alternative<T>(it->second)) {
            problems.push_back("value set on a port that doesn't exist or has another type");
            return;
        }
        it->second = std::move(v);
    }
    template<typename T>
    const T& get(const cosim::function_io_reference& r) const
    {
        const auto it = vals.find(rk(r));
        if (it == vals.end() || !std::holds_alternative<T>(it->second)) throw std::logic_error("read of a port that doesn't exist or has another type");
        return std::get<T>(it->second);
    }
    void set_real(const cosim::function_io_reference& r, double v) override { set<double>(r, v); }
    void set_integer(const cosim::function_io_reference& r, int v) override { set<int>(r, v); }
    void set_boolean(const cosim::function_io_reference& r, bool v) override { set<bool>(r, v); }
    void set_string(const cosim::function_io_reference& r, std::string_view v) override { set<std::string>(r, std::string(v)); }
    double get_real(const cosim::function_io_reference& r) const override { return get<double>(r); }
    int get_integer(const cosim::function_io_reference& r) const override { return get<int>(r); }
    bool get_boolean(const cosim::function_io_reference& r) const override { return get<bool>(r); }
    std::string_view get_string(const cosim::function_io_reference& r) const override { return get<std::string>(r); }
    void calculate() override
    {
        ++calculations;
        if (onCalculate) onCalculate(*this);
        compute_function(spec, vals);
    }
};

// ----------------------------------------------------------------- system
struct port // one end of a connection
{
    bool isFun = false;
    int index = 0; // simulator or function
    variable_type type = variable_type::real;
    value_reference ref = 0;
    cosim::function_io_reference io{};
    cosim::variable_id sim_id() const { return {index, type, ref}; }
    cosim::function_io_id fun_id() const { return {index, type, io}; }
};
inline std::string show(const port& p)
{
    return p.isFun ? cat("fun", p.index, "(", p.io.group, ".", p.io.group_instance, ".", p.io.io, ".", p.io.io_instance, ")")
                   : cat("sim", p.index, "(", cosim::to_text(p.type), " ", p.ref, ")");
}
struct conn
{
    port from, to;
};

struct system_spec
{
    std::int64_t base = 1000000, start = 0;
    std::vector<slave_spec> slaves;
    std::vector<fun_spec> funs;
    std::vector<conn> conns;
    struct init
    {
        int sim;
        var_spec var;
        scalar_value value;
    };
    std::vector<init> inits; // initial values, in the order they are set
    std::uint64_t orderSeed = 0; // how setting them is interleaved with connecting
    int workers = -1; // -1: default

    long long factor(int i) const
    {
        const auto h = slaves[static_cast<std::size_t>(i)].hint;
        return std::max<long long>(1, h / base);
    }
    std::string text() const
    {
        std::string s = cat("base ", base, " ns, start ", start, " ns, workers ", workers, "; sims:");
        for (std::size_t i = 0; i < slaves.size(); ++i) s += cat(" x", factor(static_cast<int>(i)), slaves[i].feedthrough ? "f" : "", "/", slaves[i].vars.size(), "v");
        s += cat("; ", funs.size(), " functions; connections:");
        for (const auto& c : conns) s += cat(" ", show(c.from), "->", show(c.to));
        if (!inits.empty()) s += "; initial values:";
        for (const auto& i : inits) s += cat(" sim", i.sim, ".", i.var.name, "=", show(i.value));
        return s;
    }
};

struct gen_options
{
    int maxSlaves = 6;
    int maxVars = 6;
    int maxFactor = 6;
    int maxFuns = 3;
    int connPercent = 60; // probability that an input gets a connection
    int delay = 0;
    int minSlaves = 1;
    bool realsOnly = false;
    bool allowFeedthrough = true;
    int initPercent = 35; // how many systems get initial values
    int minVars = 1;
    bool chain = false; // each simulator depends on the one before it
    int minBig = 1; // lower bound ...
    std::vector<long long> factorChoices; // step multiples to choose among, if any
    int bigFactor = 0; // ... upper bound of a few unusually long step sizes
};

// Once in a while, something is made far larger than usual: the number of
// simulators, the length of chains of connections, the number of steps, the
// step sizes, or the number of variables.  Returns the number of base steps to
// be taken (0 = nothing was changed).
inline long long scale_up(vh::rng& r, gen_options& o, int percent)
{
    if (!r.chance(percent)) return 0;
    switch (r.range(0, 9)) {
        case 0:
        case 1:
            o.minSlaves = 30;
            o.maxSlaves = static_cast<int>(r.range(30, 90));
            o.maxVars = 3;
            o.maxFuns = 12;
            o.delay = std::min(o.delay, 20);
            vh::count("scaled:many_simulators");
            return r.range(2, 6);
        case 2:
        case 3:
            o.minSlaves = static_cast<int>(r.range(8, 70));
            o.maxSlaves = o.minSlaves;
            o.minVars = 4;
            o.maxVars = 6;
            o.chain = true;
            o.realsOnly = true;
            o.maxFuns = 0;
            o.connPercent = 100;
            o.delay = 0;
            vh::count("scaled:long_chain");
            return r.range(1, 4);
        case 4:
        case 5:
            o.maxSlaves = std::max(o.minSlaves, 2);
            o.maxVars = 2;
            o.maxFuns = std::min(o.maxFuns, 1);
            o.bigFactor = static_cast<int>(r.chance(50) ? r.range(11, 23) : r.range(1, 23));
            if (o.bigFactor > 10) o.minBig = 11;
            o.delay = 0;
            vh::count("scaled:many_steps");
            return r.chance(45) ? r.range(200, 1500) : r.range(1500, 11000);
        case 6:
        case 7:
            o.maxSlaves = std::max(o.minSlaves, 3);
            o.maxVars = 3;
            o.maxFuns = std::min(o.maxFuns, 2);
            o.bigFactor = static_cast<int>(r.range(10, 1200));
            o.delay = 0;
            vh::count("scaled:large_step_sizes");
            return r.range(o.bigFactor, 3 * o.bigFactor);
        default:
            o.minVars = static_cast<int>(r.range(20, 150));
            o.maxVars = o.minVars;
            o.maxSlaves = std::max(o.minSlaves, 3);
            o.delay = std::min(o.delay, 20);
            vh::count("scaled:many_variables");
            return r.range(2, 6);
    }
}

// Step multiples that are extremely large, or have a least common multiple that
// is.  Returns the number of steps to run, or zero for the usual workload.
inline long long huge_factors(vh::rng& r, gen_options& o, int perMille)
{
    if (r.range(0, 999) >= perMille) return 0;
    o.delay = 0;
    o.maxVars = 4;
    o.minVars = 2;
    o.maxFuns = std::min(o.maxFuns, 2);
    o.connPercent = 90;
    vh::count("scaled:huge_step_multiples");
    long long n = 0;
    switch (r.range(0, 5)) {
        case 0:
            o.factorChoices = {65535, 65537};
            n = r.range(65535, 66500);
            break;
        case 1:
            o.factorChoices = {255, 257, 65537};
            n = r.range(255, 1500);
            break;
        case 2:
            o.factorChoices = {641, 6700417};
            n = r.range(641, 3000);
            break;
        case 3: // more than 2^31, or 2^32, by little or much
            o.factorChoices = {r.range(1, 5), (r.chance(50) ? 2147483648ll : 4294967296ll) + r.range(0, 6), 1ll << r.range(31, 38)};
            n = r.range(1, 30);
            break;
        case 4:
            o.factorChoices = {r.range(1, 9), r.range(2147480000ll, 2147490000ll), r.range(1, 1ll << 36)};
            n = r.range(1, 30);
            break;
        default:
            o.factorChoices = {1, r.range(46341, 70000), r.range(46341, 70000)};
            n = r.range(1, 200);
    }
    o.minSlaves = 2;
    o.maxSlaves = static_cast<int>(o.factorChoices.size()) + 1;
    if (r.chance(50)) std::reverse(o.factorChoices.begin(), o.factorChoices.end());
    return n;
}

inline slave_spec gen_slave(vh::rng& r, const gen_options& o, int index)
{
    slave_spec s;
    s.name = cat("s", index, r.chance(20) ? "_x" : "");
    s.id = r.next();
    s.delay = o.delay;
    const int n = static_cast<int>(r.range(std::min(o.minVars, o.maxVars), o.maxVars));
    std::set<key> used;
    for (int i = 0; i < n * 2; ++i) {
        var_spec v;
        v.type = o.realsOnly ? variable_type::real : static_cast<variable_type>(r.range(0, 3));
        v.ref = static_cast<value_reference>(r.chance(90) ? r.range(0, 2 * n) : r.range(0, 4294967295ll));
        if (!used.insert({static_cast<int>(v.type), v.ref}).second) continue;
        const auto c = r.range(0, 9);
        v.causality = c < 4 ? variable_causality::output
            : c < 8         ? variable_causality::input
            : c == 8        ? variable_causality::parameter
                            : (r.chance(50) ? variable_causality::calculated_parameter : variable_causality::local);
        v.name = cat(is_in(v) ? "in" : "out", "_", cosim::to_text(v.type)[0], v.ref);
        v.variability = v.causality == variable_causality::parameter ? cosim::variable_variability::tunable
            : v.type == variable_type::real                          ? cosim::variable_variability::continuous
                                                                     : cosim::variable_variability::discrete;
        v.hasStart = is_in(v) && r.chance(70);
        v.start = v.hasStart ? make_value(v.type, r.next()) : zero_value(v.type);
        v.value0 = is_in(v) ? v.start : zero_value(v.type);
        s.vars.push_back(v);
    }
    return s;
}

inline fun_spec gen_function(vh::rng& r, bool realsOnly)
{
    fun_spec f;
    f.id = r.next();
    const bool wide = r.chance(3);
    const int ng = static_cast<int>(r.range(1, wide ? 6 : 3));
    for (int g = 0; g < ng; ++g) {
        cosim::function_io_group_description gd;
        gd.name = cat("g", g);
        const int gc = static_cast<int>(r.range(1, wide ? 5 : 3));
        gd.count = gc;
        const int ni = static_cast<int>(r.range(1, wide ? 4 : 3));
        for (int i = 0; i < ni; ++i) {
            cosim::function_io_description d;
            d.name = cat("p", i);
            const auto t = realsOnly ? variable_type::real : static_cast<variable_type>(r.range(0, 3));
            d.type = t;
            const bool in = r.chance(55);
            d.causality = in ? variable_causality::input : variable_causality::output;
            const int ic = static_cast<int>(r.range(1, wide ? 5 : 2));
            d.count = ic;
            gd.ios.push_back(d);
            for (int a = 0; a < gc; ++a)
                for (int b = 0; b < ic; ++b) f.ios.push_back({t, cosim::function_io_reference{g, a, i, b}, in});
        }
        f.groups.push_back(gd);
    }
    return f;
}

// Adds some initial values for inputs and parameters, some of them repeatedly.
inline void gen_inits(vh::rng& r, system_spec& s, int n)
{
    for (int k = 0; k < n; ++k) {
        const auto i = static_cast<std::size_t>(r.range(0, static_cast<long long>(s.slaves.size()) - 1));
        if (!s.inits.empty() && r.chance(20)) {
            auto again = r.pick(s.inits);
            again.value = make_value(again.var.type, r.next());
            s.inits.push_back(again);
            continue;
        }
        std::vector<const var_spec*> ins;
        for (const auto& v : s.slaves[i].vars)
            if (is_in(v)) ins.push_back(&v);
        if (ins.empty()) continue;
        const auto* v = r.pick(ins);
        s.inits.push_back({static_cast<int>(i), *v, make_value(v->type, r.next())});
    }
}

inline system_spec gen_system(vh::rng& r, const gen_options& o)
{
    system_spec s;
    // With step multiples of any size, times must stay representable.
    static const std::int64_t bases[] = {1, 7, 1000, 999999, 1000000, 10000000, 33333333, 100000000, 1000000000};
    s.base = bases[r.range(0, o.factorChoices.empty() ? 8 : 4)];
    s.start = r.chance(50) ? 0 : r.chance(50) ? r.range(-1000000000000ll, 1000000000000ll) : s.base * r.range(-20, 20);
    const int n = static_cast<int>(r.range(o.minSlaves, o.maxSlaves));
    for (int i = 0; i < n; ++i) {
        auto sl = gen_slave(r, o, i);
        switch (r.range(0, 3)) {
            case 0: sl.hint = 0; break;
            case 1: sl.hint = s.base; break;
            case 2: sl.hint = s.base * r.range(1, o.maxFactor); break;
            default: sl.hint = s.base * r.range(0, o.maxFactor) + r.range(0, s.base - 1); break;
        }
        if (o.bigFactor && r.chance(60)) sl.hint = s.base * r.range(o.minBig, o.bigFactor);
        if (!o.factorChoices.empty())
            sl.hint = s.base * (i < static_cast<int>(o.factorChoices.size()) ? o.factorChoices[static_cast<std::size_t>(i)] : r.pick(o.factorChoices));
        s.slaves.push_back(std::move(sl));
    }
    const int nf = static_cast<int>(r.range(0, o.maxFuns));
    for (int i = 0; i < nf; ++i) s.funs.push_back(gen_function(r, o.realsOnly));

    const bool acyclic = o.chain || (o.allowFeedthrough && r.chance(40));
    if (acyclic)
        for (auto& sl : s.slaves) sl.feedthrough = true;
    // In an acyclic system, simulator i may only depend on simulators j<i, and
    // function f sits at a position between simulators.
    std::vector<int> funPos;
    for (int f = 0; f < nf; ++f) funPos.push_back(static_cast<int>(r.range(0, n - 1)));

    auto sourcesFor = [&](variable_type t, int limit, bool funsToo) {
        std::vector<port> p;
        for (int j = 0; j < n; ++j) {
            if (acyclic && (j > limit || (o.chain && j < limit))) continue;
            for (const auto& v : s.slaves[static_cast<std::size_t>(j)].vars)
                if ((v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter) && v.type == t) {
                    port q;
                    q.index = j;
                    q.type = t;
                    q.ref = v.ref;
                    p.push_back(q);
                }
        }
        if (funsToo)
            for (int f = 0; f < nf; ++f) {
                if (acyclic && funPos[static_cast<std::size_t>(f)] > limit) continue;
                for (const auto& io : s.funs[static_cast<std::size_t>(f)].ios)
                    if (!io.isInput && io.type == t) {
                        port q;
                        q.isFun = true;
                        q.index = f;
                        q.type = t;
                        q.io = io.ref;
                        p.push_back(q);
                    }
            }
        return p;
    };
    for (int i = 0; i < n; ++i)
        for (const auto& v : s.slaves[static_cast<std::size_t>(i)].vars) {
            if (v.causality != variable_causality::input || !r.chance(o.connPercent)) continue;
            auto src = sourcesFor(v.type, i - 1, true);
            if (src.empty()) continue;
            conn c;
            c.from = r.pick(src);
            c.to.index = i;
            c.to.type = v.type;
            c.to.ref = v.ref;
            s.conns.push_back(c);
        }
    for (int f = 0; f < nf; ++f)
        for (const auto& io : s.funs[static_cast<std::size_t>(f)].ios) {
            if (!io.isInput || !r.chance(o.connPercent + 20)) continue;
            auto src = sourcesFor(io.type, funPos[static_cast<std::size_t>(f)], false);
            if (src.empty()) continue;
            conn c;
            c.from = r.pick(src);
            c.to.isFun = true;
            c.to.index = f;
            c.to.type = io.type;
            c.to.io = io.ref;
            s.conns.push_back(c);
        }
    for (std::size_t i = s.conns.size(); i > 1; --i) std::swap(s.conns[i - 1], s.conns[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))]);
    s.orderSeed = r.next();
    if (r.chance(o.initPercent)) gen_inits(r, s, static_cast<int>(r.range(1, 12)));
    return s;
}

// A built system.
struct built
{
    system_spec spec;
    std::shared_ptr<order> ord;
    std::shared_ptr<cosim::fixed_step_algorithm> algo;
    std::unique_ptr<cosim::execution> exe;
    std::vector<std::shared_ptr<vslave>> slaves;
    std::vector<std::shared_ptr<vfunction>> funs;
};

inline std::shared_ptr<cosim::fixed_step_algorithm> make_algo(const system_spec& s)
{
    return std::make_shared<cosim::fixed_step_algorithm>(
        cosim::duration(s.base),
        s.workers < 0 ? std::optional<unsigned int>() : std::optional<unsigned int>(static_cast<unsigned>(s.workers)));
}

inline void connect(cosim::execution& e, const conn& c)
{
    if (c.from.isFun) e.connect_variables(c.from.fun_id(), c.to.sim_id());
    else if (c.to.isFun) e.connect_variables(c.from.sim_id(), c.to.fun_id());
    else e.connect_variables(c.from.sim_id(), c.to.sim_id());
}

inline void set_initial(cosim::execution& e, int sim, value_reference ref, const scalar_value& v)
{
    switch (v.index()) {
        case 0: e.set_real_initial_value(sim, ref, std::get<double>(v)); break;
        case 1: e.set_integer_initial_value(sim, ref, std::get<int>(v)); break;
        case 2: e.set_boolean_initial_value(sim, ref, std::get<bool>(v)); break;
        default: e.set_string_initial_value(sim, ref, std::get<std::string>(v)); break;
    }
}

inline built build(const system_spec& s, std::uint64_t scheduleSeed = 0, bool connectAll = true)
{
    built b;
    b.spec = s;
    b.ord = std::make_shared<order>();
    b.algo = make_algo(s);
    b.exe = std::make_unique<cosim::execution>(tp(s.start), b.algo);
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        auto sl = std::make_shared<vslave>(s.slaves[i], b.ord);
        sl->scheduleSeed = scheduleSeed;
        const auto idx = b.exe->add_slave(sl, s.slaves[i].name, cosim::duration(s.slaves[i].hint));
        VH_CHECK(idx == static_cast<int>(i), "simulator-index", "add_slave returned ", idx, " for simulator ", i);
        b.slaves.push_back(sl);
    }
    for (std::size_t i = 0; i < s.funs.size(); ++i) {
        auto f = std::make_shared<vfunction>(s.funs[i]);
        const auto idx = b.exe->add_function(f);
        VH_CHECK(idx == static_cast<int>(i), "function-index", "add_function returned ", idx, " for function ", i);
        b.funs.push_back(f);
    }
    // Connect and set initial values, in a random interleaving.
    vh::rng r(s.orderSeed);
    std::size_t c = connectAll ? 0 : s.conns.size(), i = 0;
    while (c < s.conns.size() || i < s.inits.size()) {
        const auto left = static_cast<long long>(s.conns.size() - c + s.inits.size() - i);
        if (r.range(0, left - 1) < static_cast<long long>(s.conns.size() - c)) connect(*b.exe, s.conns[c++]);
        else {
            const auto& x = s.inits[i++];
            set_initial(*b.exe, x.sim, x.var.ref, x.value);
        }
    }
    return b;
}

// -------------------------------------------------------- reference model
// Independent statement of what must be delivered when.  Works on base steps
// only; modifiers are functions of the raw value.
struct ref_model
{
    using modifier = std::function<scalar_value(const scalar_value&)>;
    struct sim_state
    {
        value_map in; // last value given to each input/parameter (raw)
        value_map out; // genuine outputs
        value_map visible; // what the others see
        std::map<key, modifier> inMod, outMod;
        int stepsDone = 0;
        std::vector<value_map> effective; // inputs in effect at each of its steps
    };
    const system_spec& spec;
    std::vector<sim_state> sims;
    std::vector<std::map<fun_key, scalar_value>> funs;
    std::vector<long long> factors;
    std::vector<std::vector<std::size_t>> fedBy; // the simulators that each function feeds
    long long step = 0;

    explicit ref_model(const system_spec& s) : spec(s)
    {
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            sim_state st;
            for (const auto& v : s.slaves[i].vars)
                if (is_in(v)) st.in[K(v)] = v.value0;
            sims.push_back(std::move(st));
            factors.push_back(s.factor(static_cast<int>(i)));
        }
        for (const auto& x : s.inits) sims[static_cast<std::size_t>(x.sim)].in[K(x.var)] = x.value;
        for (const auto& f : s.funs) {
            std::map<fun_key, scalar_value> m;
            for (const auto& io : f.ios) m[rk(io.ref)] = zero_value(io.type);
            funs.push_back(std::move(m));
        }
        for (std::size_t f = 0; f < s.funs.size(); ++f) {
            fedBy.emplace_back();
            for (const auto& c : s.conns)
                if (c.from.isFun && c.from.index == static_cast<int>(f)) fedBy.back().push_back(static_cast<std::size_t>(c.to.index));
        }
    }

    static key pk(const port& p) { return {static_cast<int>(p.type), p.ref}; }

    value_map all_inputs(std::size_t i) const
    {
        value_map m = sims[i].in;
        for (const auto& [k, f] : sims[i].inMod) m[k] = f(m.at(k));
        return m;
    }

    void update_visible(std::size_t i)
    {
        auto& s = sims[i];
        s.visible = s.out;
        for (const auto& [k, v] : all_inputs(i)) s.visible[k] = v;
        for (const auto& [k, f] : s.outMod) {
            const auto it = s.visible.find(k);
            if (it != s.visible.end()) it->second = f(it->second);
        }
    }

    // Transfers due after `step` base steps.
    void transfer()
    {
        auto due = [&](std::size_t sim) { return step % factors[sim] == 0; };
        auto funDue = [&](std::size_t f) { return std::all_of(fedBy[f].begin(), fedBy[f].end(), due); };
        for (const auto& c : spec.conns) {
            if (c.from.isFun) continue;
            const auto si = static_cast<std::size_t>(c.from.index), ti = static_cast<std::size_t>(c.to.index);
            if (c.to.isFun) {
                if (due(si) && funDue(ti)) funs[ti][rk(c.to.io)] = sims[si].visible.at(pk(c.from));
            } else {
                if (due(si) && due(ti)) sims[ti].in[pk(c.to)] = sims[si].visible.at(pk(c.from));
            }
        }
        for (std::size_t f = 0; f < funs.size(); ++f) {
            if (!funDue(f)) continue;
            compute_function(spec.funs[f], funs[f]);
            for (const auto& c : spec.conns)
                if (c.from.isFun && c.from.index == static_cast<int>(f)) sims[static_cast<std::size_t>(c.to.index)].in[pk(c.to)] = funs[f].at(rk(c.from.io));
        }
    }

    // Steady state of the initialisation phase.  Enough rounds for any chain.
    void initialize()
    {
        for (std::size_t n = 0; n < 2 * (sims.size() + funs.size()) + 2; ++n) {
            for (std::size_t i = 0; i < sims.size(); ++i) {
                value_map m = all_inputs(i);
                compute_outputs(spec.slaves[i], m, 7, spec.slaves[i].feedthrough);
                sims[i].out.clear();
                for (const auto& v : spec.slaves[i].vars)
                    if (!is_in(v)) sims[i].out[K(v)] = m.at(K(v));
                update_visible(i);
            }
            transfer();
        }
    }

    // Performs one base step; returns the simulators that finish a step of
    // their own at its end.
    std::set<int> do_step()
    {
        for (std::size_t i = 0; i < sims.size(); ++i) {
            if (step % factors[i] != 0) continue;
            auto& s = sims[i];
            value_map m = all_inputs(i);
            s.effective.push_back(m);
            const auto t = spec.start + step * spec.base;
            const auto dt = factors[i] * spec.base;
            compute_outputs(spec.slaves[i], m, vh::mix(1000 + static_cast<std::uint64_t>(s.stepsDone), static_cast<std::uint64_t>(t) * 3 + static_cast<std::uint64_t>(dt)), true);
            ++s.stepsDone;
            for (const auto& v : spec.slaves[i].vars)
                if (!is_in(v)) s.out[K(v)] = m.at(K(v));
            update_visible(i);
        }
        ++step;
        std::set<int> fin;
        for (std::size_t i = 0; i < sims.size(); ++i)
            if (step % factors[i] == 0) fin.insert(static_cast<int>(i));
        transfer();
        return fin;
    }
};

// Compares the inputs in effect at every step with the reference.
inline void check_effective(const built& b, const ref_model& m, const char* kind)
{
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        std::size_t n = 0;
        for (const auto& e : b.slaves[i]->log) {
            if (e.what != op::step) continue;
            VH_CHECK(n < m.sims[i].effective.size(), "extra-step", "simulator ", i, " took more steps than expected; ", b.spec.text());
            for (const auto& [k, v] : m.sims[i].effective[n]) {
                const auto& got = e.values.at(k);
                VH_CHECK(same(got, v), kind, "simulator ", i, " variable ", cosim::to_text(static_cast<variable_type>(k.first)), " ", k.second,
                    " had value ", show(got), " at its step ", n, ", expected ", show(v), "; ", b.spec.text());
            }
            ++n;
        }
        VH_CHECK(n == m.sims[i].effective.size(), "missing-step", "simulator ", i, " took ", n, " steps, expected ", m.sims[i].effective.size(), "; ", b.spec.text());
    }
}

inline void check_monitors(const built& b)
{
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        VH_CHECK(b.slaves[i]->overlaps() == 0, "overlapping-calls", "two calls were in progress at once on simulator ", i, "; ", b.spec.text());
        if (!b.slaves[i]->problems.empty()) throw vh::failed("slave-protocol", cat("simulator ", i, ": ", b.slaves[i]->problems[0], "; ", b.spec.text()));
    }
    for (std::size_t i = 0; i < b.funs.size(); ++i)
        if (!b.funs[i]->problems.empty()) throw vh::failed("function-protocol", cat("function ", i, ": ", b.funs[i]->problems[0], "; ", b.spec.text()));
}

inline std::uint64_t shape_hash(const system_spec& s)
{
    std::uint64_t h = vh::mix(static_cast<std::uint64_t>(s.workers) + 5, s.slaves.size() * 100 + s.funs.size());
    for (std::size_t i = 0; i < s.slaves.size(); ++i) h = vh::mix(h, static_cast<std::uint64_t>(s.factor(static_cast<int>(i))) * 100 + s.slaves[i].vars.size());
    for (const auto& c : s.conns) h = vh::mix(h, vh::hash_str(show(c.from) + show(c.to)));
    return h;
}

} // namespace world
