// C01-C08: the execution and its stepping algorithm, driven through the public
// API with generated systems of instrumented slaves.
#include "world.hpp"

#include <cosim/exception.hpp>

#include <future>

using namespace world;

namespace
{
const int workerChoices[] = {-1, 0, 1, 2, 3, 5, 7};

void pick_workers(vh::rng& rng, system_spec& s) { s.workers = workerChoices[rng.range(0, 6)]; }

// ---- C01: lifecycle automaton over one slave's call log.
void check_lifecycle(const built& b, bool started)
{
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        const auto& log = b.slaves[i]->log;
        int phase = 0;
        const auto who = [&](std::size_t n) { return cat("simulator ", i, ", call ", n, " (", op_name(log[n].what), "): "); };
        std::int64_t next = b.spec.start;
        const auto dt = b.spec.factor(static_cast<int>(i)) * b.spec.base;
        bool readSinceStep = true;
        for (std::size_t n = 0; n < log.size(); ++n) {
            const auto& e = log[n];
            if (n > 0) VH_CHECK(log[n - 1].end < e.begin, "overlapping-calls", who(n), "began before the previous one ended; ", b.spec.text());
            switch (e.what) {
                case op::setup:
                    VH_CHECK(phase == 0, "setup-twice", who(n), "set up again; ", b.spec.text());
                    VH_CHECK(e.t == b.spec.start, "setup-time", who(n), "start time ", e.t, " instead of ", b.spec.start);
                    phase = 1;
                    break;
                case op::start:
                    VH_CHECK(phase == 1, "start-order", who(n), "in phase ", phase, "; ", b.spec.text());
                    phase = 2;
                    break;
                case op::step:
                    VH_CHECK(phase == 2, "step-order", who(n), "in phase ", phase, "; ", b.spec.text());
                    VH_CHECK(e.t == next, "step-gap", who(n), "starts at ", e.t, ", expected ", next, "; ", b.spec.text());
                    VH_CHECK(e.dt == dt, "step-length", who(n), "has length ", e.dt, ", expected ", dt, "; ", b.spec.text());
                    next = e.t + e.dt;
                    readSinceStep = false;
                    break;
                case op::get:
                    VH_CHECK(phase >= 1, "get-order", who(n), "before setup; ", b.spec.text());
                    readSinceStep = true;
                    break;
                case op::set:
                    VH_CHECK(phase >= 1, "set-order", who(n), "before setup; ", b.spec.text());
                    break;
                case op::end: break;
            }
        }
        (void)readSinceStep;
        VH_CHECK(phase == (started ? 2 : 0), "phase", "simulator ", i, " ended in phase ", phase, "; ", b.spec.text());
        vh::count("calls_monitored", static_cast<long long>(log.size()));
    }
}

// Number of steps simulator i has begun after n base steps.
long long begun(long long factor, long long n) { return (n + factor - 1) / factor; }
} // namespace


VH_PROP(C01)
{
    gen_options o;
    o.delay = 60;
    o.maxVars = 4;
    o.maxFactor = static_cast<int>(rng.range(1, 9));
    if (rng.chance(10)) o.maxSlaves = 20;
    auto scaled = scale_up(rng, o, 2);
    if (!scaled) scaled = huge_factors(rng, o, 5);
    auto s = gen_system(rng, o);
    pick_workers(rng, s);
    auto b = build(s, rng.next());
    check_lifecycle(b, false);
    long long n = 0;
    const int bursts = static_cast<int>(rng.range(1, 4));
    for (int k = 0; k < bursts; ++k) {
        const auto m = scaled ? scaled / bursts + 1 : rng.range(1, 14);
        if (rng.chance(50)) {
            for (int j = 0; j < m; ++j) {
                const auto d = b.exe->step();
                VH_CHECK(d.count() == s.base, "base-step", "step returned ", d.count(), ", base step size is ", s.base);
            }
        } else {
            b.exe->simulate_until(b.exe->current_time() + cosim::duration(m * s.base));
        }
        n += m;
        VH_CHECK(ns(b.exe->current_time()) == s.start + n * s.base, "time", "current time ", ns(b.exe->current_time()), " after ", n, " steps; ", s.text());
    }
    check_monitors(b);
    check_lifecycle(b, true);
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        const auto want = begun(s.factor(static_cast<int>(i)), n);
        VH_CHECK(b.slaves[i]->stepsDone == want, "step-count", "simulator ", i, " took ", b.slaves[i]->stepsDone, " steps in ", n, " base steps, expected ", want, "; ", s.text());
    }
    vh::evaluated();
    vh::distinct(shape_hash(s));
    vh::count("base_steps", n);
    vh::sample(cat(s.text(), "; ", n, " base steps"));
}


VH_PROP(C02)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 6));
    o.connPercent = static_cast<int>(rng.range(30, 100));
    o.maxVars = static_cast<int>(rng.range(2, 8));
    auto scaled = scale_up(rng, o, 2);
    if (!scaled) scaled = huge_factors(rng, o, 8);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(70) || scaled > 10000 ? 0 : 2;
    auto b = build(s);
    ref_model m(s);
    m.initialize();
    const auto n = scaled ? scaled : rng.range(3, 40);
    for (long long i = 0; i < n; ++i) {
        b.exe->step();
        m.do_step();
    }
    check_monitors(b);
    check_effective(b, m, "wrong-input");
    // Nothing but connected inputs is ever written.
    long long delivered = 0;
    for (std::size_t i = 0; i < b.slaves.size(); ++i)
        for (const auto& e : b.slaves[i]->log)
            if (e.what == op::set)
                for (const auto& [k, v] : e.values) {
                    bool connected = false;
                    for (const auto& c : s.conns)
                        if (!c.to.isFun && c.to.index == static_cast<int>(i) && ref_model::pk(c.to) == k) connected = true;
                    for (const auto& x : s.inits)
                        if (x.sim == static_cast<int>(i) && K(x.var) == k) connected = true;
                    VH_CHECK(connected, "unconnected-written", "simulator ", i, " variable type ", k.first, " ref ", k.second, " was written although it isn't connected; ", s.text());
                    ++delivered;
                }
    for (std::size_t f = 0; f < b.funs.size(); ++f)
        for (const auto& io : s.funs[f].ios)
            if (io.isInput) {
                const auto& got = b.funs[f]->vals.at(rk(io.ref));
                const auto& want = m.funs[f].at(rk(io.ref));
                VH_CHECK(same(got, want), "wrong-function-input", "function ", f, " input ", io.ref.group, ".", io.ref.group_instance, ".", io.ref.io, ".", io.ref.io_instance,
                    " is ", show(got), ", expected ", show(want), " after ", n, " steps; ", s.text());
            }
    vh::evaluated();
    if (!s.conns.empty()) vh::distinct(shape_hash(s));
    vh::count("values_delivered", delivered);
    vh::count("connections", static_cast<long long>(s.conns.size()));
    int viaFun = 0;
    for (const auto& c : s.conns) viaFun += c.from.isFun;
    vh::count("connections_from_functions", viaFun);
    vh::sample(cat(s.text(), "; ", n, " base steps"));
}


namespace
{
struct trace_observer : cosim::observer
{
    struct rec
    {
        char what;
        int index;
        long long step;
        std::int64_t dt, t;
        bool operator==(const rec& o) const { return std::tie(what, index, step, dt, t) == std::tie(o.what, o.index, o.step, o.dt, o.t); }
        bool operator<(const rec& o) const { return std::tie(what, index, step, dt, t) < std::tie(o.what, o.index, o.step, o.dt, o.t); }
    };
    std::vector<rec> log;
    std::map<int, cosim::observable*> sims;
    std::function<void(const rec&)> hook;
    void add(rec r)
    {
        log.push_back(r);
        if (hook) hook(r);
    }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point t) override
    {
        sims[i] = o;
        add({'a', i, -1, 0, ns(t)});
    }
    void simulator_removed(cosim::simulator_index i, cosim::time_point t) override { add({'r', i, -1, 0, ns(t)}); }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override {}
    void variable_disconnected(cosim::variable_id, cosim::time_point) override {}
    void simulation_initialized(cosim::step_number n, cosim::time_point t) override { add({'i', -1, n, 0, ns(t)}); }
    void step_complete(cosim::step_number n, cosim::duration d, cosim::time_point t) override { add({'S', -1, n, d.count(), ns(t)}); }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, cosim::duration d, cosim::time_point t) override { add({'s', i, n, d.count(), ns(t)}); }
};

scalar_value read(const cosim::observable* o, const var_spec& v)
{
    switch (v.type) {
        case variable_type::real: return o->get_real(v.ref);
        case variable_type::integer: return o->get_integer(v.ref);
        case variable_type::boolean: return o->get_boolean(v.ref);
        default: return std::string(o->get_string(v.ref));
    }
}

// The part of a slave's log that must not depend on scheduling.
std::uint64_t semantic_hash(const vslave& s, std::string* text = nullptr)
{
    std::uint64_t h = 1;
    for (const auto& e : s.log) {
        h = vh::mix(h, static_cast<std::uint64_t>(e.what));
        h = vh::mix(h, static_cast<std::uint64_t>(e.t));
        h = vh::mix(h, static_cast<std::uint64_t>(e.dt));
        for (const auto& [k, v] : e.values) h = vh::mix(vh::mix(h, k.second * 8 + static_cast<unsigned>(k.first)), hashv(v));
        if (text) {
            *text += cat(op_name(e.what), " t=", e.t, " dt=", e.dt);
            for (const auto& [k, v] : e.values) *text += cat(" ", k.first, ":", k.second, "=", show(v));
            *text += "\n";
        }
    }
    return h;
}
} // namespace


VH_PROP(C03)
{
    gen_options o;
    o.minSlaves = 2;
    o.maxSlaves = 8;
    o.maxFactor = static_cast<int>(rng.range(1, 4));
    o.delay = 150;
    o.maxVars = 5;
    const auto scaled = scale_up(rng, o, 1);
    auto s = gen_system(rng, o);
    const auto n = scaled ? std::min<long long>(scaled, 2000) : rng.range(4, 20);
    // without delays and threads
    auto quiet = s;
    quiet.workers = 0;
    for (auto& x : quiet.slaves) x.delay = 0;
    auto base = build(quiet);
    auto obs0 = std::make_shared<trace_observer>();
    base.exe->add_observer(obs0);
    for (int i = 0; i < n; ++i) base.exe->step();
    ref_model m(s);
    m.initialize();
    for (int i = 0; i < n; ++i) m.do_step();
    check_effective(base, m, "wrong-input");

    const int counts[] = {1, 2, 7};
    const int reps = vh::thorough() ? 3 : 1;
    for (int w : counts)
        for (int rep = 0; rep < reps; ++rep) {
            s.workers = w;
            auto b = build(s, rng.next());
            auto obs = std::make_shared<trace_observer>();
            b.exe->add_observer(obs);
            if (rng.chance(50))
                for (int i = 0; i < n; ++i) b.exe->step();
            else
                b.exe->simulate_until(b.exe->current_time() + cosim::duration(n * s.base));
            check_monitors(b);
            for (std::size_t i = 0; i < b.slaves.size(); ++i)
                if (semantic_hash(*b.slaves[i]) != semantic_hash(*base.slaves[i])) {
                    std::string a, c;
                    semantic_hash(*base.slaves[i], &a);
                    semantic_hash(*b.slaves[i], &c);
                    std::size_t p = 0;
                    while (p < a.size() && p < c.size() && a[p] == c[p]) ++p;
                    while (p > 0 && a[p - 1] != '\n') --p;
                    throw vh::failed("schedule-dependent", cat("simulator ", i, " saw different calls with ", w, " workers: '", a.substr(p, 200), "' vs '", c.substr(p, 200), "'; ", s.text()));
                }
            auto x = obs0->log, y = obs->log;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            VH_CHECK(x == y, "schedule-dependent-notifications", "observer notifications differ with ", w, " workers; ", s.text());
            // How the steps of different simulators actually interleaved.
            std::vector<std::pair<std::uint64_t, int>> ord;
            for (std::size_t i = 0; i < b.slaves.size(); ++i)
                for (const auto& e : b.slaves[i]->log)
                    if (e.what == op::step) {
                        ord.push_back({e.begin, static_cast<int>(i)});
                        ord.push_back({e.end, static_cast<int>(i) + 1000});
                    }
            std::sort(ord.begin(), ord.end());
            std::uint64_t h = static_cast<std::uint64_t>(w);
            int depth = 0, maxDepth = 0;
            for (auto& [a, c] : ord) {
                h = vh::mix(h, static_cast<std::uint64_t>(c));
                depth += c < 1000 ? 1 : -1;
                maxDepth = std::max(maxDepth, depth);
            }
            if (maxDepth > 1) vh::distinct(h);
            vh::count("concurrent_runs", maxDepth > 1);
            vh::count("max_parallel_steps_sum", maxDepth);
            vh::evaluated();
        }
    vh::sample(cat(s.text(), "; ", n, " base steps with 0, 1, 2 and 7 workers"));
}


VH_PROP(C04)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 6));
    o.initPercent = 0; // the system is set up by hand below
    const auto scaled = scale_up(rng, o, 3);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(60) ? 0 : static_cast<int>(rng.range(1, 4));
    const auto ord = std::make_shared<order>();
    auto algo = make_algo(s);
    cosim::execution exe(tp(s.start), algo);

    struct watcher
    {
        std::shared_ptr<trace_observer> obs;
        long long from; // base steps done when added
        bool late;
        std::map<int, std::vector<var_spec>> reads;
        std::size_t seen = 0;
    };
    std::vector<std::unique_ptr<watcher>> ws;
    built b;
    b.spec = s;
    ref_model m(s);
    long long n = 0; // base steps completed according to the reference
    bool initDone = false;
    const vh::rng* rp = &rng;
    (void)rp;
    long long valuesRead = 0;

    auto addWatcher = [&] {
        auto w = std::make_unique<watcher>();
        w->obs = std::make_shared<trace_observer>();
        w->from = n;
        w->late = initDone;
        auto* wp = w.get();
        auto choice = std::make_shared<vh::rng>(rng.next());
        w->obs->hook = [wp, choice, &s, &m, &valuesRead](const trace_observer::rec& r) {
            auto* o = wp->obs.get();
            if (r.what == 'a') {
                for (const auto& v : s.slaves[static_cast<std::size_t>(r.index)].vars)
                    if (choice->chance(60)) {
                        o->sims.at(r.index)->expose_for_getting(v.type, v.ref);
                        wp->reads[r.index].push_back(v);
                    }
                VH_CHECK(o->sims.at(r.index)->name() == s.slaves[static_cast<std::size_t>(r.index)].name, "observable-name", "wrong name for simulator ", r.index);
                return;
            }
            if (wp->late) return; // newly selected variables have no value yet
            if (r.what != 's' && r.what != 'i') return;
            for (const auto& [idx, vars] : wp->reads) {
                if (r.what == 's' && idx != r.index) continue;
                for (const auto& v : vars) {
                    const auto got = read(o->sims.at(idx), v);
                    const auto it = m.sims[static_cast<std::size_t>(idx)].visible.find(K(v));
                    VH_CHECK(it != m.sims[static_cast<std::size_t>(idx)].visible.end(), "internal", "no reference value");
                    VH_CHECK(same(got, it->second), "stale-value", "in notification '", r.what, "' of step ", r.step, ", simulator ", idx, " variable ", v.name,
                        " reads ", show(got), ", expected ", show(it->second), "; ", s.text());
                    ++valuesRead;
                }
            }
        };
        exe.add_observer(w->obs);
        ws.push_back(std::move(w));
    };

    // Interleave adding observers and simulators.
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        if (rng.chance(30)) addWatcher();
        auto sl = std::make_shared<vslave>(s.slaves[i], ord);
        exe.add_slave(sl, s.slaves[i].name, cosim::duration(s.slaves[i].hint));
        b.slaves.push_back(sl);
    }
    for (const auto& f : s.funs) {
        auto fn = std::make_shared<vfunction>(f);
        exe.add_function(fn);
        b.funs.push_back(fn);
    }
    addWatcher();
    for (const auto& c : s.conns) connect(exe, c);
    if (rng.chance(30)) addWatcher();

    const auto total = scaled ? scaled : rng.range(1, 25);
    m.initialize();
    // The reference is advanced before the real step so that the values can be
    // compared inside the notifications; the initialisation notification comes
    // in the first step, so the first round is compared in a special way.
    auto reference0 = m;
    std::vector<std::set<int>> finished;
    {
        // initialisation notification happens inside the first step() call:
        // serve the reference's initial state to it, then advance it.
        bool advanced = false;
        auto advancer = std::make_shared<trace_observer>();
        (void)reference0;
        struct man : cosim::manipulator
        {
            std::function<void()> f;
            std::vector<std::int64_t> times;
            int added = 0;
            void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override { ++added; }
            void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
            void step_commencing(cosim::time_point t) override
            {
                times.push_back(ns(t));
                f();
            }
        };
        auto mp = std::make_shared<man>();
        mp->f = [&] {
            finished.push_back(m.do_step());
            initDone = true;
        };
        exe.add_manipulator(mp);
        VH_CHECK(mp->added == static_cast<int>(s.slaves.size()), "manipulator-added", "a manipulator was told of ", mp->added, " simulators of ", s.slaves.size());
        (void)advanced;
        for (n = 0; n < total;) {
            exe.step();
            ++n;
            if (rng.chance(6) && ws.size() < 12) addWatcher();
        }
        VH_CHECK(static_cast<long long>(mp->times.size()) == total, "step-commencing", "step_commencing called ", mp->times.size(), " times in ", total, " steps");
        for (long long k = 0; k < total; ++k)
            VH_CHECK(mp->times[static_cast<std::size_t>(k)] == s.start + k * s.base, "step-commencing", "step_commencing ", k, " was given time ", mp->times[static_cast<std::size_t>(k)]);
    }
    check_effective(b, m, "wrong-input");

    for (const auto& w : ws) {
        std::vector<trace_observer::rec> got = w->obs->log;
        std::size_t p = 0;
        // registration
        std::set<int> added;
        while (p < got.size() && got[p].what == 'a') {
            VH_CHECK(added.insert(got[p].index).second, "added-twice", "simulator ", got[p].index, " reported twice; ", s.text());
            VH_CHECK(got[p].t == s.start + w->from * s.base, "added-time", "simulator ", got[p].index, " reported with time ", got[p].t);
            ++p;
        }
        VH_CHECK(added.size() == s.slaves.size(), "added-missing", "observer was told of ", added.size(), " of ", s.slaves.size(), " simulators before initialisation; ", s.text());
        VH_CHECK(p < got.size() && got[p].what == 'i', "init-notification", "no initialisation notification in its place (observer added after ", w->from, " steps); ", s.text());
        VH_CHECK(got[p].step == w->from && got[p].t == s.start + w->from * s.base, "init-notification", "initialisation notification has step ", got[p].step, " and time ", got[p].t, ", expected step ", w->from);
        ++p;
        for (long long k = w->from; k < total; ++k) {
            std::set<int> fin;
            const auto t = s.start + (k + 1) * s.base;
            while (p < got.size() && got[p].what == 's') {
                VH_CHECK(fin.insert(got[p].index).second, "finished-twice", "simulator ", got[p].index, " reported twice as finished in step ", k + 1, "; ", s.text());
                VH_CHECK(got[p].step == k + 1 && got[p].t == t && got[p].dt == s.base, "finished-args", "simulator_step_complete(", got[p].index, ", step ", got[p].step, ", size ", got[p].dt, ", time ", got[p].t, ") in step ", k + 1, "; ", s.text());
                ++p;
            }
            VH_CHECK(fin == finished[static_cast<std::size_t>(k)], "finished-set", "wrong set of finished simulators in step ", k + 1, " (", fin.size(), " reported, ", finished[static_cast<std::size_t>(k)].size(), " expected); ", s.text());
            VH_CHECK(p < got.size() && got[p].what == 'S', "step-notification", "no step notification for step ", k + 1, "; ", s.text());
            VH_CHECK(got[p].step == k + 1 && got[p].t == t && got[p].dt == s.base, "step-args", "step_complete(step ", got[p].step, ", size ", got[p].dt, ", time ", got[p].t, ") in step ", k + 1, "; ", s.text());
            ++p;
        }
        VH_CHECK(p == got.size(), "extra-notification", "unexpected notification '", got[p].what, "' at the end; ", s.text());
        vh::count("notifications_checked", static_cast<long long>(got.size()));
        vh::count("late_observers", w->late);
    }
    vh::count("values_read", valuesRead);
    vh::evaluated();
    vh::distinct(vh::mix(shape_hash(s), ws.size()));
    vh::sample(cat(s.text(), "; ", ws.size(), " observers, ", total, " steps"));
}


namespace
{
struct boom
{
};
} // namespace

VH_PROP(C05)
{
    gen_options o;
    o.maxSlaves = 3;
    o.maxVars = 3;
    o.maxFactor = 3;
    o.delay = rng.chance(40) ? 100 : 0;
    auto s = gen_system(rng, o);
    pick_workers(rng, s);
    s.slaves[0].hint = 0; // one simulator steps at every base step
    auto b = build(s, rng.next());
    auto& exe = *b.exe;
    auto probe = b.slaves[0];

    std::atomic<long long> stepsBegun{0};
    std::atomic<long long> limit{-1}; // guards against simulations that never stop
    std::atomic<int> wantRunning{-1};
    std::atomic<bool> wrongRunning{false};
    std::function<void(long long)> atStep;
    long long failAt = -1;
    probe->onCall = [&](op what, long long) {
        if (what != op::step) return;
        const auto k = ++stepsBegun;
        if (wantRunning >= 0 && exe.is_running() != (wantRunning == 1)) wrongRunning = true;
        if (limit >= 0 && k > limit) throw std::runtime_error("runaway simulation");
        if (atStep) atStep(k);
    };
    probe->fault = [&](op what, long long) {
        if (what == op::step && failAt >= 0 && stepsBegun == failAt) throw std::runtime_error("deliberate failure");
        return cosim::step_result::complete;
    };

    long long n = 0; // base steps completed
    std::string story;
    auto expectTime = [&](const char* after) {
        VH_CHECK(ns(exe.current_time()) == s.start + n * s.base, "time", "after ", after, " the time is ", ns(exe.current_time()), ", expected ", s.start + n * s.base, " (", n, " steps); ", story, "; ", s.text());
        VH_CHECK(stepsBegun == n || failAt > 0, "steps", "after ", after, ", ", stepsBegun.load(), " steps were begun, expected ", n, "; ", story);
    };
    auto notRunning = [&](const char* after) {
        VH_CHECK(!exe.is_running(), "running-status", "is_running() is true after ", after, "; ", story, "; ", s.text());
    };
    // A target and the number of steps that reaching it takes.
    auto target = [&](long long& steps) {
        const auto k = rng.range(1, 12);
        std::int64_t off = 0;
        steps = k;
        if (s.base >= 1000) {
            switch (rng.range(0, 6)) {
                case 0: off = s.base / 2; steps = k + 1; break; // k + 0.5
                case 1: off = s.base * 9 / 1000; break; // within the tolerance
                case 2: off = s.base * 11 / 1000; steps = k + 1; break; // beyond it
                case 3: off = -s.base / 2; break; // k - 0.5
                case 4: off = -s.base * 9 / 1000; break;
                case 5: off = -s.base * 9 / 10; break;
                default: break;
            }
        }
        if (k == 1 && off < 0 && rng.chance(50)) off = 0;
        return tp(s.start + (n + k) * s.base + off);
    };

    notRunning("construction");
    const int acts = static_cast<int>(rng.range(3, 9));
    bool dead = false;
    for (int a = 0; a < acts && !dead; ++a) {
        const auto act = rng.range(0, 8);
        story += cat(" [", act, "@", n, "]");
        if (rng.chance(20)) exe.stop_simulation(); // nothing to stop: no effect
        atStep = nullptr;
        // a stop request clears the running status at once
        wantRunning = act == 1 || act == 2 || act == 7 || act >= 8 ? 1 : -1;
        limit = -1;
        switch (act) {
            case 0: { // plain steps
                wantRunning = -1;
                const auto k = rng.range(1, 4);
                for (int i = 0; i < k; ++i) {
                    exe.step();
                    ++n;
                }
                expectTime("step()");
                break;
            }
            case 1: { // until a time
                long long k;
                const auto t = target(k);
                limit = stepsBegun + k + 50;
                VH_CHECK(exe.simulate_until(t), "result", "simulate_until returned false without a stop request; ", story);
                n += k;
                expectTime("simulate_until");
                break;
            }
            case 2: { // until a time, asynchronously
                long long k;
                const auto t = target(k);
                limit = stepsBegun + k + 50;
                auto f = exe.simulate_until_async(t);
                VH_CHECK(f.get(), "result", "simulate_until_async returned false without a stop request; ", story);
                n += k;
                expectTime("simulate_until_async");
                break;
            }
            case 3:
            case 4: { // stopped from within a step, with or without an end time
                const auto k = rng.range(1, 6);
                const bool endless = rng.chance(50);
                limit = stepsBegun + k + 20;
                const auto at = stepsBegun + k;
                atStep = [&exe, at](long long i) { if (i == at) exe.stop_simulation(); };
                const auto t = endless ? std::optional<cosim::time_point>() : std::optional<cosim::time_point>(tp(s.start + (n + k + rng.range(0, 3)) * s.base));
                bool r;
                try {
                    r = act == 3 ? exe.simulate_until(t) : exe.simulate_until_async(t).get();
                } catch (const cosim::error&) {
                    throw vh::failed("stop-ignored", cat("a stop request during step ", k, " was ignored for 20 steps; ", story));
                }
                n += k;
                VH_CHECK(!r, "result", "a stopped simulation reported that it wasn't; ", story);
                expectTime("stopping");
                break;
            }
            case 5: { // stopped right after it was requested
                const auto before = stepsBegun.load();
                limit = before + 2000;
                auto f = exe.simulate_until_async(rng.chance(60) ? std::optional<cosim::time_point>() : std::optional<cosim::time_point>(tp(s.start + (n + 5000) * s.base)));
                if (rng.chance(30)) std::this_thread::yield();
                VH_CHECK(exe.is_running(), "running-status", "is_running() is false right after an asynchronous simulation was requested; ", story);
                const auto k0 = stepsBegun.load();
                (void)k0;
                exe.stop_simulation();
                const auto k1 = stepsBegun.load();
                bool r = false;
                try {
                    r = f.get();
                } catch (const cosim::error&) {
                    throw vh::failed("stop-lost", cat("a stop request made right after simulate_until_async returned was lost; ", story));
                }
                VH_CHECK(!r, "result", "a stopped simulation reported that it wasn't; ", story);
                VH_CHECK(stepsBegun - k1 <= 1, "late-stop", stepsBegun - k1, " steps were begun after the stop request; ", story);
                n += stepsBegun - before;
                expectTime("an immediate stop");
                vh::count("immediate_stops");
                break;
            }
            case 6: { // stopped by another thread at some moment
                const auto before = stepsBegun.load();
                limit = before + 200000;
                std::atomic<long long> k1{-1};
                std::atomic<bool> began{false};
                const auto waitFor = rng.range(0, 5);
                const auto us = rng.range(0, 400);
                std::thread th([&] {
                    // from the moment the call is known to be in progress
                    while (stepsBegun < before + 1 + waitFor) std::this_thread::yield();
                    if (us) ::usleep(static_cast<useconds_t>(us));
                    exe.stop_simulation();
                    k1 = stepsBegun.load();
                });
                bool r = true;
                bool runaway = false;
                try {
                    r = exe.simulate_until(std::nullopt);
                } catch (const cosim::error&) {
                    runaway = true;
                }
                th.join();
                VH_CHECK(!runaway, "stop-lost", "a stop request by another thread was ignored; ", story);
                VH_CHECK(!r, "result", "a stopped simulation reported that it wasn't; ", story);
                VH_CHECK(stepsBegun - k1 <= 1, "late-stop", stepsBegun - k1, " steps were begun after the stop request; ", story);
                n += stepsBegun - before;
                expectTime("a stop by another thread");
                vh::count("cross_thread_stops");
                break;
            }
            case 7: { // running status during an asynchronous run
                limit = stepsBegun + 2000;
                std::promise<void> go;
                auto ready = go.get_future().share();
                const auto at = stepsBegun + 1;
                atStep = [at, ready](long long i) { if (i == at) ready.wait(); };
                auto f = exe.simulate_until_async(tp(s.start + (n + 3) * s.base));
                while (stepsBegun < at) std::this_thread::yield();
                const bool running = exe.is_running();
                go.set_value();
                const bool r = f.get();
                VH_CHECK(running, "running-status", "is_running() is false during an asynchronous simulation; ", story);
                VH_CHECK(r, "result", "simulate_until_async returned false without a stop request; ", story);
                n += 3;
                expectTime("simulate_until_async");
                break;
            }
            default: { // a failure ends the run
                const auto k = rng.range(1, 4);
                failAt = stepsBegun + k;
                bool thrown = false;
                const bool async = rng.chance(40);
                try {
                    const auto t = tp(s.start + (n + 10) * s.base);
                    if (async) exe.simulate_until_async(t).get();
                    else exe.simulate_until(t);
                } catch (const cosim::error&) {
                    thrown = true;
                }
                n += k - 1;
                VH_CHECK(thrown, "error-lost", "a failing simulator didn't end the simulation with an exception; ", story);
                notRunning("a failed simulation");
                VH_CHECK(ns(exe.current_time()) == s.start + n * s.base, "time", "wrong time after a failure; ", story);
                dead = true;
                vh::count("failed_runs");
                break;
            }
        }
        notRunning("a simulation call");
        VH_CHECK(!wrongRunning, "running-status", "is_running() was false inside a simulation call; ", story);
        vh::evaluated();
        vh::distinct(vh::mix(vh::hash_str(story), static_cast<std::uint64_t>(s.base + s.workers)));
        vh::count(cat("action_", act));
    }
    vh::sample(cat(s.text(), "; actions@step: ", story));
    if (!dead) check_monitors(b);
    // keep callbacks from outliving what they refer to
    for (auto& sl : b.slaves) { sl->onCall = nullptr; sl->fault = nullptr; }
}


VH_PROP(C06)
{
    gen_options o;
    o.maxSlaves = 5;
    o.maxFactor = 3;
    o.maxVars = 4;
    o.delay = rng.chance(50) ? 300 : 0;
    if (rng.chance(2)) {
        o.minSlaves = 15;
        o.maxSlaves = static_cast<int>(rng.range(15, 60));
        o.maxVars = 2;
        o.delay = std::min(o.delay, 30);
        vh::count("scaled:many_simulators");
    }
    auto s = gen_system(rng, o);
    pick_workers(rng, s);
    // Names are what failures are attributed by; make them unmistakable.
    for (std::size_t i = 0; i < s.slaves.size(); ++i) s.slaves[i].name = cat("Sim<", i, ">");
    auto b = build(s, rng.next());
    auto obs = std::make_shared<trace_observer>();
    b.exe->add_observer(obs);
    bool anyObserved = false;
    for (std::size_t i = 0; i < s.slaves.size(); ++i)
        for (const auto& v : s.slaves[i].vars)
            if (rng.chance(50)) {
                obs->sims.at(static_cast<int>(i))->expose_for_getting(v.type, v.ref);
                anyObserved = true;
            }
    (void)anyObserved;

    // Where to fail.  Operation numbers are chosen by kind and ordinal.
    struct plan
    {
        op what;
        long long ordinal; // n'th operation of that kind in the phase
        int how; // 0..: exception types and step results
        int phase;
    };
    std::map<int, plan> plans;
    std::atomic<int> fired{0};
    std::vector<std::atomic<int>> firedBy(s.slaves.size());
    for (auto& f : firedBy) f = 0;
    const int k = rng.chance(60) ? 1 : static_cast<int>(rng.range(1, static_cast<long long>(s.slaves.size())));
    const op kinds[] = {op::setup, op::get, op::set, op::start, op::step, op::step, op::get, op::set};
    const auto whatAll = kinds[rng.range(0, 7)];
    const auto ordAll = rng.chance(5) ? rng.range(4, 300) : rng.range(0, 3);
    const int phaseAll = whatAll == op::step ? 2 : whatAll == op::setup ? 0 : whatAll == op::start ? 1 : static_cast<int>(rng.range(1, 2));
    for (int i = 0; i < k; ++i) {
        const auto who = static_cast<int>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
        plan p{whatAll, ordAll, static_cast<int>(rng.range(0, whatAll == op::step ? 6 : 4)), phaseAll};
        plans[who] = p;
    }
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        const auto it = plans.find(static_cast<int>(i));
        if (it == plans.end()) continue;
        const auto p = it->second;
        auto counter = std::make_shared<long long>(0);
        auto* sl = b.slaves[i].get();
        auto* fb = &firedBy[i];
        sl->fault = [p, counter, sl, &fired, fb](op what, long long) -> cosim::step_result {
            if (what != p.what || (p.phase > 0 && what != op::start && sl->phase() != p.phase)) return cosim::step_result::complete;
            if ((*counter)++ != p.ordinal && !(what == op::setup || what == op::start)) return cosim::step_result::complete;
            ++fired;
            *fb = 1;
            const auto msg = "deliberate(" + sl->spec.name + ")";
            switch (p.how) {
                case 0: throw std::runtime_error(msg);
                case 1: throw std::logic_error(msg);
                case 2: throw cosim::error(cosim::make_error_code(cosim::errc::model_error), msg);
                case 3: throw std::bad_alloc();
                case 4: throw 42;
                case 5: return cosim::step_result::failed;
                default: return cosim::step_result::canceled;
            }
        };
    }
    std::string story = cat("fail in ", op_name(whatAll), " #", ordAll, " of phase ", phaseAll, " by");
    for (auto& [i, p] : plans) story += cat(" ", i, "(how ", p.how, ")");
    story += "; " + s.text();

    bool thrown = false;
    std::string message;
    int code = -1; // 0: other exception, 1: cosim::error, 2: simulation_error
    long long n = 0;
    std::vector<int> calcBefore;
    std::vector<trace_observer::rec> logBefore;
    std::int64_t timeBefore = 0;
    const bool useUntil = rng.chance(40);
    for (int step = 0; step < (ordAll > 3 ? 320 : 25) && !thrown; ++step) {
        timeBefore = ns(b.exe->current_time());
        calcBefore.clear();
        for (auto& f : b.funs) calcBefore.push_back(f->calculations);
        logBefore = obs->log;
        try {
            if (useUntil) {
                b.exe->simulate_until(b.exe->current_time() + cosim::duration(s.base));
            } else
                b.exe->step();
            ++n;
        } catch (const cosim::error& e) {
            thrown = true;
            code = e.code() == cosim::errc::simulation_error ? 2 : 1;
            message = e.what();
        } catch (const std::exception& e) {
            thrown = true;
            code = 0;
            message = e.what();
        } catch (...) {
            thrown = true;
            code = 0;
        }
        if (!thrown && fired > 0) throw vh::failed("failure-swallowed", "a step succeeded although a simulator failed in it: " + story);
    }
    const auto after = b.ord->tick();
    // give calls that should not be in progress any more time to show up
    if (thrown && s.workers != 0) ::usleep(500);
    VH_CHECK(!fired || thrown, "failure-swallowed", story);
    VH_CHECK(fired || !thrown, "spurious-failure", message, "; ", story);
    if (thrown) {
        const bool stepping = std::any_of(obs->log.begin(), obs->log.end(), [](const auto& r) { return r.what == 'i'; });
        for (std::size_t i = 0; i < b.slaves.size(); ++i) {
            VH_CHECK(b.slaves[i]->overlaps() == 0, "overlapping-calls", "simulator ", i, "; ", story);
            VH_CHECK(b.slaves[i]->calls() == static_cast<long long>(b.slaves[i]->log.size()), "call-in-progress", "a call on simulator ", i, " was still in progress when the exception reached the caller; ", story);
            for (const auto& e : b.slaves[i]->log)
                VH_CHECK(e.end < after, "call-in-progress", "a call on simulator ", i, " ended after the exception had reached the caller; ", story);
        }
        VH_CHECK(ns(b.exe->current_time()) == timeBefore, "time-advanced", "time advanced in a failing step; ", story);
        auto expected = logBefore;
        auto got = obs->log;
        if (stepping && n == 0 && got.size() == expected.size() + 1 && got.back().what == 'i') got.pop_back();
        VH_CHECK(got == expected, "notified", "observers were notified of completion of a failing step; ", story);
        if (stepping) {
            VH_CHECK(code == 2, "error-code", "the exception (", message, ") doesn't carry the simulation error code; ", story);
            for (std::size_t i = 0; i < b.slaves.size(); ++i) {
                const bool named = message.find(s.slaves[i].name) != std::string::npos;
                if (firedBy[i]) {
                    VH_CHECK(named, "not-named", "simulator ", i, " failed but isn't named in '", message, "'; ", story);
                    if (plans[static_cast<int>(i)].how <= 2) VH_CHECK(message.find("deliberate(" + s.slaves[i].name + ")") != std::string::npos, "no-cause", "the cause given by simulator ", i, " isn't in '", message, "'; ", story);
                } else
                    VH_CHECK(!named, "wrongly-named", "simulator ", i, " is named in '", message, "' but didn't fail; ", story);
            }
            if (n > 0)
                for (std::size_t f = 0; f < b.funs.size(); ++f)
                    VH_CHECK(b.funs[f]->calculations == calcBefore[f], "transferred", "function ", f, " was evaluated after a failed step; ", story);
            // No value reaches anyone after the failing round: its sets all
            // come before its own step in the failing round.
            for (std::size_t i = 0; i < b.slaves.size(); ++i) {
                const auto& log = b.slaves[i]->log;
                long long steps = 0;
                for (const auto& e : log)
                    if (e.what == op::step) ++steps;
                const auto allowed = begun(s.factor(static_cast<int>(i)), n + 1);
                VH_CHECK(steps <= allowed, "extra-step", "simulator ", i, " took ", steps, " steps by round ", n + 1, "; ", story);
                if (!firedBy[i]) VH_CHECK(steps == allowed, "missing-step", "simulator ", i, " took ", steps, " steps by round ", n + 1, "; ", story);
            }
        }
        vh::count(cat("failed_in_", op_name(whatAll), stepping ? "_stepping" : "_init"));
        vh::distinct(vh::mix(shape_hash(s), vh::hash_str(story)));
        if (firedBy.size() > 1 && fired > 1) vh::count("several_failures");
    }
    vh::evaluated();
    vh::sample(story);
    for (auto& sl : b.slaves) sl->fault = nullptr;
}


VH_PROP(C07)
{
    gen_options o;
    o.maxVars = 4;
    o.maxSlaves = 4;
    o.maxFactor = 3;
    o.connPercent = 0;
    o.allowFeedthrough = false;
    const bool large = rng.chance(2);
    if (large) {
        o.minSlaves = o.maxSlaves = static_cast<int>(rng.range(5, 30));
        o.maxVars = static_cast<int>(rng.range(4, 40));
        o.maxFuns = 10;
        vh::count("scaled:many_connections");
    }
    auto s = gen_system(rng, o);
    s.conns.clear();
    s.workers = 0;
    auto b = build(s);

    auto randomPort = [&](bool wantOutput) {
        port p;
        p.type = static_cast<variable_type>(rng.range(0, 3));
        if (!s.funs.empty() && rng.chance(45)) {
            p.isFun = true;
            p.index = static_cast<int>(rng.range(0, static_cast<long long>(s.funs.size()) - 1));
            const auto& f = s.funs[static_cast<std::size_t>(p.index)];
            for (int tries = 0; tries < 6; ++tries) {
                const auto& io = f.ios[static_cast<std::size_t>(rng.range(0, static_cast<long long>(f.ios.size()) - 1))];
                p.io = io.ref;
                p.type = io.type;
                if (io.isInput != wantOutput) break;
            }
            switch (rng.range(0, 15)) { // spoil something
                case 0: p.io.group = static_cast<int>(rng.range(-1, 4)); break;
                case 1: p.io.group_instance = static_cast<int>(rng.range(-1, 4)); break;
                case 2: p.io.io = static_cast<int>(rng.range(-1, 4)); break;
                case 3: p.io.io_instance = static_cast<int>(rng.range(-1, 3)); break;
                case 4: p.type = static_cast<variable_type>(rng.range(0, 3)); break;
                case 5: p.index = static_cast<int>(rng.range(-1, static_cast<long long>(s.funs.size()))); break;
            }
        } else {
            p.index = static_cast<int>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
            const auto& vs = s.slaves[static_cast<std::size_t>(p.index)].vars;
            for (int tries = 0; tries < 8; ++tries) {
                const auto& v = vs[static_cast<std::size_t>(rng.range(0, static_cast<long long>(vs.size()) - 1))];
                p.ref = v.ref;
                p.type = v.type;
                if ((v.causality == variable_causality::output) == wantOutput) break;
            }
            switch (rng.range(0, 15)) {
                case 0: p.ref = static_cast<value_reference>(rng.range(0, 15)); break;
                case 1: p.type = static_cast<variable_type>(rng.range(0, 3)); break;
                case 2: p.index = static_cast<int>(rng.range(-1, static_cast<long long>(s.slaves.size()))); break;
                case 3: p.index = static_cast<int>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1)); break;
            }
        }
        return p;
    };
    auto valid = [&](const port& p, bool output) {
        if (p.index < 0) return false;
        if (p.isFun) {
            if (p.index >= static_cast<int>(s.funs.size())) return false;
            for (const auto& io : s.funs[static_cast<std::size_t>(p.index)].ios)
                if (rk(io.ref) == rk(p.io)) return io.type == p.type && io.isInput != output;
            return false;
        }
        if (p.index >= static_cast<int>(s.slaves.size())) return false;
        const auto* v = s.slaves[static_cast<std::size_t>(p.index)].find(p.type, p.ref);
        if (!v) return false;
        if (output) return v->causality == variable_causality::output || v->causality == variable_causality::calculated_parameter;
        return v->causality == variable_causality::input;
    };
    std::set<std::string> taken;
    const int tries = static_cast<int>(large ? rng.range(40, 1000) : rng.range(5, 40));
    int accepted = 0, rejected = 0;
    std::string story;
    std::set<int> why;
    for (int i = 0; i < tries; ++i) {
        conn c;
        c.from = randomPort(!rng.chance(6));
        c.to = randomPort(rng.chance(6));
        if (c.from.isFun && c.to.isFun) continue; // can't be expressed in the API
        // favour matching types
        for (int k = 0; k < 5 && c.to.type != c.from.type; ++k) {
            c.to = randomPort(false);
            if (c.from.isFun && c.to.isFun) c.to = randomPort(false);
        }
        if (c.from.isFun && c.to.isFun) continue;
        const bool vf = valid(c.from, true), vt = valid(c.to, false), types = c.from.type == c.to.type, dup = taken.count(show(c.to)) > 0;
        const bool ok = vf && vt && types && !dup;
        bool done = true;
        std::string what;
        try {
            connect(*b.exe, c);
        } catch (const std::exception& e) {
            done = false;
            what = e.what();
        }
        const char* reason = !vf ? "invalid source" : !vt ? "invalid target" : !types ? "type mismatch" : dup ? "target already connected" : "valid";
        VH_CHECK(!done || ok, cat("accepted-invalid:", !vf ? "source" : !vt ? "target" : !types ? "type" : "duplicate"), "connection ", show(c.from), " -> ", show(c.to), " was accepted: ", reason, "; ", s.text());
        VH_CHECK(done || !ok, "rejected-valid", "connection ", show(c.from), " -> ", show(c.to), " was rejected: ", what, "; ", s.text());
        if (done) {
            ++accepted;
            taken.insert(show(c.to));
            s.conns.push_back(c);
        } else {
            ++rejected;
            vh::count(cat("rejected_", !vf ? "source" : !vt ? "target" : !types ? "type" : "duplicate"));
        }
        story += cat(" ", show(c.from), "->", show(c.to), done ? "+" : "-");
        vh::evaluated();
    }
    // What was rejected has no effect.
    ref_model m(s);
    m.initialize();
    const auto n = rng.range(2, 12);
    for (int i = 0; i < n; ++i) {
        b.exe->step();
        m.do_step();
    }
    b.spec = s;
    check_monitors(b);
    check_effective(b, m, "effect-of-rejected");
    vh::count("accepted", accepted);
    vh::distinct(vh::hash_str(story));
    vh::sample(cat(accepted, " accepted, ", rejected, " rejected:", story));
}


VH_PROP(C08)
{
    gen_options o;
    o.maxFactor = 3;
    o.connPercent = static_cast<int>(rng.range(0, 60));
    o.initPercent = 0;
    const bool scaled = scale_up(rng, o, 2) > 0;
    auto s = gen_system(rng, o);
    if (rng.chance(70)) gen_inits(rng, s, static_cast<int>(rng.range(1, scaled ? 100 : 10)));
    s.workers = rng.chance(70) ? 0 : 3;
    auto b = build(s);
    auto set = [&](int sim, value_reference ref, const scalar_value& v) { set_initial(*b.exe, sim, ref, v); };
    std::map<std::pair<int, key>, scalar_value> expect;
    for (const auto& x : s.inits) expect[{x.sim, K(x.var)}] = x.value;
    std::string story;
    const int k = static_cast<int>(rng.range(s.inits.empty() ? 1 : 0, scaled ? 400 : 12));
    for (int i = 0; i < k; ++i) {
        const auto sim = static_cast<int>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
        std::vector<const var_spec*> ins;
        for (const auto& v : s.slaves[static_cast<std::size_t>(sim)].vars)
            if (is_in(v)) ins.push_back(&v);
        const bool good = !ins.empty() && rng.chance(80);
        const auto t = good ? variable_type::real : static_cast<variable_type>(rng.range(0, 3));
        if (good) {
            const auto* v = rng.pick(ins);
            const auto val = make_value(v->type, rng.next());
            set(sim, v->ref, val);
            expect[{sim, K(*v)}] = val;
            story += cat(" ", sim, ":", v->name, "=", show(val));
        } else {
            auto ref = static_cast<value_reference>(rng.range(0, 40));
            while (s.slaves[static_cast<std::size_t>(sim)].find(t, ref)) ++ref;
            const bool badSim = rng.chance(30);
            bool thrown = false;
            try {
                set(badSim ? static_cast<int>(s.slaves.size()) + static_cast<int>(rng.range(0, 3)) : sim, ref, make_value(t, rng.next()));
            } catch (const std::exception&) {
                thrown = true;
            }
            VH_CHECK(thrown, "bad-variable-accepted", "an initial value for a variable that doesn't exist was accepted (ref ", ref, "); ", s.text());
            vh::count("rejected_unknown");
        }
        vh::evaluated();
    }
    const auto n = rng.range(1, 6);
    ref_model m(s);
    for (auto& [w, v] : expect) m.sims[static_cast<std::size_t>(w.first)].in[w.second] = v;
    m.initialize();
    for (int i = 0; i < n; ++i) {
        b.exe->step();
        m.do_step();
        // too late now
        if (rng.chance(60) && !expect.empty()) {
            auto it = expect.begin();
            std::advance(it, rng.range(0, static_cast<long long>(expect.size()) - 1));
            bool thrown = false;
            try {
                set(it->first.first, it->first.second.second, make_value(static_cast<variable_type>(it->first.second.first), rng.next()));
            } catch (const std::exception&) {
                thrown = true;
            }
            VH_CHECK(thrown, "late-accepted", "an initial value was accepted after initialisation; ", s.text());
            vh::count("rejected_late");
        }
    }
    check_monitors(b);
    check_effective(b, m, "wrong-input");
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        std::map<key, scalar_value> seen; // last delivered before start
        std::map<key, std::vector<scalar_value>> all;
        bool started = false;
        for (const auto& e : b.slaves[i]->log) {
            if (e.what == op::start) started = true;
            if (e.what != op::set) continue;
            for (const auto& [kk, v] : e.values) {
                bool connected = false;
                for (const auto& c : s.conns)
                    if (!c.to.isFun && c.to.index == static_cast<int>(i) && ref_model::pk(c.to) == kk) connected = true;
                const bool initial = expect.count({static_cast<int>(i), kk}) > 0;
                VH_CHECK(connected || initial, "unset-written", "simulator ", i, " variable type ", kk.first, " ref ", kk.second, " was written although nothing was set; ", s.text());
                VH_CHECK(connected || !started, "initial-after-start", "simulator ", i, " variable type ", kk.first, " ref ", kk.second, " was written after the start of the simulation; ", s.text());
                if (!started) all[kk].push_back(v);
            }
        }
        for (const auto& [w, v] : expect) {
            if (w.first != static_cast<int>(i)) continue;
            const auto it = all.find(w.second);
            bool found = false;
            if (it != all.end())
                for (const auto& x : it->second) found = found || same(x, v);
            VH_CHECK(found, "initial-not-delivered", "initial value ", show(v), " of simulator ", i, " variable type ", w.second.first, " ref ", w.second.second, " wasn't delivered before the start;", story, "; ", s.text());
            vh::count("initial_values_delivered");
        }
    }
    if (!expect.empty()) vh::distinct(vh::hash_str(story));
    vh::sample(cat(s.text(), "; initial values:", story));
}
