// C12-C15: the built-in observers.
#include "mutate.hpp"
#include "world.hpp"

#include <cosim/manipulator.hpp>
#include <cosim/observer.hpp>
#include <cosim/timer.hpp>

#include <filesystem>
#include <fstream>
#include <regex>

using namespace world;
namespace fs = std::filesystem;

namespace
{
struct base_observer : cosim::observer
{
    std::map<int, cosim::observable*> sims;
    std::function<void(int, long long, std::int64_t)> onSimStep;
    std::function<void()> onInit;
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point) override { sims[i] = o; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override {}
    void variable_disconnected(cosim::variable_id, cosim::time_point) override {}
    void simulation_initialized(cosim::step_number, cosim::time_point) override
    {
        if (onInit) onInit();
    }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override {}
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, cosim::duration, cosim::time_point t) override
    {
        if (onSimStep) onSimStep(i, n, ns(t));
    }
};

template<typename T>
struct raw_array // std::vector<bool> has no data()
{
    std::unique_ptr<T[]> p;
    std::size_t n;
    explicit raw_array(std::size_t k, T fill = T()) : p(new T[k ? k : 1]), n(k)
    {
        for (std::size_t i = 0; i < k; ++i) p[i] = fill;
    }
    gsl::span<T> span() { return gsl::span<T>(p.get(), n); }
    T& operator[](std::size_t i) { return p[i]; }
};

// Reads variables of one type in one call.
std::vector<scalar_value> read_last(cosim::last_value_observer& o, int sim, variable_type t, const std::vector<value_reference>& refs)
{
    std::vector<scalar_value> r;
    gsl::span<const value_reference> rs(refs.data(), refs.size());
    switch (t) {
        case variable_type::real: {
            raw_array<double> v(refs.size());
            o.get_real(sim, rs, v.span());
            for (std::size_t i = 0; i < refs.size(); ++i) r.push_back(v[i]);
            break;
        }
        case variable_type::integer: {
            raw_array<int> v(refs.size());
            o.get_integer(sim, rs, v.span());
            for (std::size_t i = 0; i < refs.size(); ++i) r.push_back(v[i]);
            break;
        }
        case variable_type::boolean: {
            raw_array<bool> v(refs.size());
            o.get_boolean(sim, rs, v.span());
            for (std::size_t i = 0; i < refs.size(); ++i) r.push_back(bool(v[i]));
            break;
        }
        default: {
            raw_array<std::string> v(refs.size());
            o.get_string(sim, rs, v.span());
            for (std::size_t i = 0; i < refs.size(); ++i) r.push_back(v[i]);
        }
    }
    return r;
}
} // namespace


// ------------------------------------------------------------------ C12
VH_PROP(C12)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 5));
    o.maxSlaves = 5;
    o.maxVars = 8;
    const auto scaled = scale_up(rng, o, 2);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(70) ? 0 : 2;
    auto b = build(s);
    struct watch
    {
        std::shared_ptr<cosim::last_value_observer> obs;
        std::vector<value_map> now;
        std::vector<bool> valid;
    };
    std::vector<watch> ws;
    ref_model m(s);
    const auto n = scaled ? scaled : rng.range(1, 20);
    const int checkPercent = n > 100 ? 3 : 60, otherPercent = n > 100 ? 1 : 20;
    long long done = 0, compared = 0;
    auto addObs = [&] {
        watch w;
        w.obs = std::make_shared<cosim::last_value_observer>();
        b.exe->add_observer(w.obs);
        w.now.resize(s.slaves.size());
        w.valid.assign(s.slaves.size(), false);
        ws.push_back(std::move(w));
    };
    addObs();
    if (rng.chance(30)) addObs();
    m.initialize();
    std::vector<long long> begunAt(s.slaves.size(), 0); // base step at which the last own step began
    std::vector<long long> addedAt(ws.size(), -1);

    auto check = [&](int percent) {
        for (std::size_t w = 0; w < ws.size(); ++w)
            for (std::size_t i = 0; i < s.slaves.size(); ++i) {
                if (!ws[w].valid[i] || !rng.chance(percent)) continue;
                for (int t = 0; t < 4; ++t) {
                    std::vector<value_reference> refs;
                    for (const auto& v : s.slaves[i].vars)
                        if (static_cast<int>(v.type) == t && rng.chance(70)) refs.push_back(v.ref);
                    if (refs.empty()) continue;
                    for (std::size_t k = refs.size(); k > 1; --k) std::swap(refs[k - 1], refs[static_cast<std::size_t>(rng.range(0, static_cast<long long>(k) - 1))]);
                    if (rng.chance(20)) refs.push_back(refs[0]); // twice in one request
                    const auto got = read_last(*ws[w].obs, static_cast<int>(i), static_cast<variable_type>(t), refs);
                    for (std::size_t k = 0; k < refs.size(); ++k) {
                        const auto& want = ws[w].now[i].at({t, refs[k]});
                        VH_CHECK(same(got[k], want), "wrong-last-value", "after step ", done, " simulator ", i, " ", cosim::to_text(static_cast<variable_type>(t)), " ", refs[k], " reads ", show(got[k]), ", expected ", show(want), "; ", s.text());
                        ++compared;
                    }
                }
            }
    };
    for (done = 0; done < n;) {
        if (done > 0 && (n > 100 ? rng.chance(1) && ws.size() < 12 : rng.chance(10))) {
            addObs();
            addedAt.push_back(done);
        }
        std::vector<value_map> atStart;
        if (done == 0)
            for (const auto& x : m.sims) atStart.push_back(x.visible);
        b.exe->step();
        std::vector<bool> began(s.slaves.size());
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            if (done % m.factors[i] == 0) begunAt[i] = done;
        const auto fin = m.do_step();
        for (std::size_t w = 0; w < ws.size(); ++w)
            for (std::size_t i = 0; i < s.slaves.size(); ++i) {
                if (done == 0) {
                    ws[w].now[i] = atStart[i];
                    ws[w].valid[i] = true;
                }
                if (fin.count(static_cast<int>(i)) && begunAt[i] >= addedAt[w]) {
                    ws[w].now[i] = m.sims[i].visible;
                    ws[w].valid[i] = true;
                }
            }
        ++done;
        check(checkPercent);
        if (rng.chance(otherPercent)) { // unknown variables and simulators
            const auto i = static_cast<std::size_t>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
            value_reference bad = 4000000000u;
            const auto t = static_cast<variable_type>(rng.range(0, 3));
            while (s.slaves[i].find(t, bad)) ++bad;
            bool thrown = false;
            try {
                read_last(*ws[0].obs, rng.chance(50) ? static_cast<int>(i) : 99, t, {bad});
            } catch (const std::exception&) {
                thrown = true;
            }
            VH_CHECK(thrown, "unknown-variable", "reading a variable that doesn't exist gave no error");
            vh::count("unknown_rejected");
        }
    }
    check(100);
    check_monitors(b);
    vh::evaluated();
    vh::distinct(shape_hash(s));
    vh::count("values_compared", compared);
    vh::count("observers", static_cast<long long>(ws.size()));
    vh::sample(s.text());
}

// Readers in other threads.
VH_PROP(C12T)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 3));
    o.maxSlaves = 3;
    o.maxVars = 10;
    o.delay = static_cast<int>(rng.range(0, 60));
    auto s = gen_system(rng, o);
    s.workers = static_cast<int>(rng.range(0, 3));
    auto b = build(s, rng.next());
    auto obs = std::make_shared<cosim::last_value_observer>();
    auto before = std::make_shared<base_observer>(), after = std::make_shared<base_observer>();
    const auto ns_ = s.slaves.size();
    std::vector<std::atomic<int>> started(ns_), finished(ns_);
    for (std::size_t i = 0; i < ns_; ++i) started[i] = finished[i] = 0;
    before->onInit = [&] { for (auto& x : started) x++; };
    after->onInit = [&] { for (auto& x : finished) x++; };
    before->onSimStep = [&](int i, long long, std::int64_t) { started[static_cast<std::size_t>(i)]++; };
    after->onSimStep = [&](int i, long long, std::int64_t) { finished[static_cast<std::size_t>(i)]++; };
    b.exe->add_observer(before);
    b.exe->add_observer(obs);
    b.exe->add_observer(after);

    struct sample
    {
        int sim, type, lo, hi;
        std::vector<value_reference> refs;
        std::vector<scalar_value> values;
    };
    std::atomic<bool> stop{false};
    std::vector<std::vector<sample>> got(static_cast<std::size_t>(rng.range(1, 3)));
    std::vector<std::thread> threads;
    std::vector<std::string> errors(got.size());
    for (std::size_t k = 0; k < got.size(); ++k)
        threads.emplace_back([&, k, seed = rng.next()] {
            vh::rng r(seed);
            try {
                while (!stop && got[k].size() < 4000) {
                    sample x;
                    x.sim = static_cast<int>(r.range(0, static_cast<long long>(ns_) - 1));
                    x.type = static_cast<int>(r.range(0, 3));
                    for (const auto& v : s.slaves[static_cast<std::size_t>(x.sim)].vars)
                        if (static_cast<int>(v.type) == x.type && r.chance(85)) x.refs.push_back(v.ref);
                    if (x.refs.empty()) {
                        std::this_thread::yield();
                        continue;
                    }
                    x.lo = finished[static_cast<std::size_t>(x.sim)];
                    x.values = read_last(*obs, x.sim, static_cast<variable_type>(x.type), x.refs);
                    x.hi = started[static_cast<std::size_t>(x.sim)];
                    if (x.lo > 0) got[k].push_back(std::move(x));
                    if (r.chance(20)) ::usleep(static_cast<useconds_t>(r.range(1, 50)));
                }
            } catch (const std::exception& e) {
                errors[k] = e.what();
            }
        });
    ref_model m(s);
    m.initialize();
    std::vector<std::vector<value_map>> snaps(ns_);
    for (std::size_t i = 0; i < ns_; ++i) snaps[i].push_back(m.sims[i].visible);
    const auto n = rng.range(5, 60);
    std::string failure;
    try {
        for (long long k = 0; k < n; ++k) {
            b.exe->step();
            for (int i : m.do_step()) snaps[static_cast<std::size_t>(i)].push_back(m.sims[static_cast<std::size_t>(i)].visible);
            if (rng.chance(15)) ::usleep(static_cast<useconds_t>(rng.range(1, 200)));
        }
    } catch (const std::exception& e) {
        failure = e.what();
    }
    stop = true;
    for (auto& t : threads) t.join();
    if (!failure.empty()) throw vh::failed("unexpected-exception", failure);
    long long checked = 0, mid = 0;
    for (std::size_t k = 0; k < got.size(); ++k) {
        VH_CHECK(errors[k].empty(), "reader-exception", errors[k]);
        std::map<int, int> last; // snapshots never go back
        for (const auto& x : got[k]) {
            const auto& sn = snaps[static_cast<std::size_t>(x.sim)];
            int hit = -1;
            for (int j = std::max(x.lo, last[x.sim]); j <= x.hi && j <= static_cast<int>(sn.size()); ++j) {
                if (j < 1) continue;
                bool all = true;
                for (std::size_t q = 0; q < x.refs.size() && all; ++q) all = same(x.values[q], sn[static_cast<std::size_t>(j) - 1].at({x.type, x.refs[q]}));
                if (all) {
                    hit = j;
                    break;
                }
            }
            if (hit < 0) {
                std::string v;
                for (const auto& y : x.values) v += show(y) + " ";
                throw vh::failed("inconsistent-snapshot", cat("values ", v, "of simulator ", x.sim, " (", cosim::to_text(static_cast<variable_type>(x.type)), ") read between its steps ", x.lo - 1, " and ", x.hi - 1, " match no single step; ", s.text()));
            }
            last[x.sim] = hit;
            ++checked;
            if (x.lo != x.hi) ++mid;
        }
    }
    check_monitors(b);
    vh::evaluated();
    vh::distinct(vh::mix(shape_hash(s), static_cast<std::uint64_t>(checked)));
    vh::count("concurrent_reads", checked);
    vh::count("reads_overlapping_a_step", mid);
}

// ------------------------------------------------------------------ C13
VH_PROP(C13)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 5));
    o.maxSlaves = 4;
    o.maxVars = 6;
    o.realsOnly = rng.chance(50);
    const auto scaled = scale_up(rng, o, 2);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(70) ? 0 : 2;
    auto b = build(s);
    const bool longRun = scaled > 100;
    const std::size_t buf = longRun ? static_cast<std::size_t>(rng.range(1, scaled)) : rng.chance(15) ? 1 : rng.chance(70) ? static_cast<std::size_t>(rng.range(2, 12)) : static_cast<std::size_t>(rng.range(13, 60));
    const bool defaultBuffer = rng.chance(longRun ? 30 : 10); // 10000 samples
    auto obs = defaultBuffer ? std::make_shared<cosim::time_series_observer>() : std::make_shared<cosim::time_series_observer>(buf);
    auto helper = std::make_shared<base_observer>();
    ref_model m(s);
    m.initialize();
    const long long late = rng.chance(20) ? rng.range(1, 15) : 0; // steps before the observer is added
    b.exe->add_observer(helper);
    const bool preExposed = rng.chance(50);
    if (preExposed)
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            for (const auto& v : s.slaves[i].vars) helper->sims.at(static_cast<int>(i))->expose_for_getting(v.type, v.ref);
    for (long long k = 0; k < late; ++k) {
        b.exe->step();
        m.do_step();
    }
    b.exe->add_observer(obs);

    // reference
    struct point
    {
        long long step;
        std::int64_t t;
        scalar_value v;
    };
    using var = std::pair<int, key>;
    std::map<var, std::deque<point>> series; // observed variables
    std::vector<std::deque<std::pair<long long, std::int64_t>>> times(s.slaves.size());
    for (auto& t : times) t.push_back({late, s.start + late * s.base});
    if (late) vh::count("added_late");
    long long done = late, queries = 0, returned = 0, trimmed = 0;
    const std::size_t limit = defaultBuffer ? 10000 : buf;
    std::vector<long long> begunAt(s.slaves.size(), 0);
    std::string story;

    auto observable_vars = [&] {
        std::vector<std::pair<int, var_spec>> r;
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            for (const auto& v : s.slaves[i].vars) r.push_back({static_cast<int>(i), v});
        return r;
    }();
    auto toggle = [&] {
        const auto& [i, v] = rng.pick(observable_vars);
        const cosim::variable_id id{i, v.type, v.ref};
        const bool supported = v.type == variable_type::real || v.type == variable_type::integer;
        const bool stop = rng.chance(25);
        bool thrown = false;
        // a value is only there from the start of the simulator's next step
        if (!stop && !preExposed && done > 0 && done % m.factors[static_cast<std::size_t>(i)] != 0) return;
        try {
            if (stop) obs->stop_observing(id);
            else obs->start_observing(id);
        } catch (const std::exception&) {
            thrown = true;
        }
        VH_CHECK(thrown == !supported, "support", (stop ? "stop" : "start"), "_observing() of a ", cosim::to_text(v.type), " variable ", thrown ? "failed" : "succeeded");
        if (!supported) return;
        story += cat(" ", done, stop ? ":-" : ":+", i, ".", v.name);
        if (stop) series.erase({i, K(v)});
        else series[{i, K(v)}].clear();
    };
    auto trim = [&](auto& v) {
        while (v.size() > limit) {
            v.pop_front();
            ++trimmed;
        }
    };
    auto query = [&] {
        ++queries;
        const auto kind = rng.range(0, 9);
        const auto& [i, v] = rng.pick(observable_vars);
        const auto it = series.find({i, K(v)});
        if (kind <= 5 && (v.type == variable_type::real || v.type == variable_type::integer)) {
            const auto from = rng.chance(20) ? 0 : rng.range(-3, done + 3);
            const auto room = static_cast<std::size_t>(rng.chance(20) ? done + 5 : rng.range(0, longRun && rng.chance(20) ? 2000 : 8));
            raw_array<cosim::step_number> steps(room, -99);
            raw_array<cosim::time_point> ts(room);
            std::vector<point> want;
            bool none = false;
            if (it != series.end()) {
                if (it->second.empty()) none = true;
                for (const auto& p : it->second)
                    if (p.step >= from && p.step < from + static_cast<long long>(room)) want.push_back(p);
            }
            std::size_t k = 0;
            bool thrown = false;
            std::vector<scalar_value> values;
            try {
                if (v.type == variable_type::real) {
                    raw_array<double> x(room, -77.0);
                    k = obs->get_real_samples(i, v.ref, from, x.span(), steps.span(), ts.span());
                    for (std::size_t j = 0; j < room; ++j) values.push_back(x[j]);
                } else {
                    raw_array<int> x(room, -77);
                    k = obs->get_integer_samples(i, v.ref, from, x.span(), steps.span(), ts.span());
                    for (std::size_t j = 0; j < room; ++j) values.push_back(x[j]);
                }
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            if (none) {
                VH_CHECK(thrown || k == 0, "no-samples", "samples of a variable which has none");
                return;
            }
            const auto what = cat("get samples of ", i, ".", v.name, " from ", from, " with room for ", room, " after step ", done, " (buffer ", limit, ");", story, "; ", s.text());
            VH_CHECK(!thrown, "query-exception", what);
            VH_CHECK(k == want.size(), "sample-count", k, " samples instead of ", want.size(), ": ", what);
            for (std::size_t j = 0; j < k; ++j) {
                VH_CHECK(steps[j] == want[j].step, "sample-step", "sample ", j, " has step ", steps[j], " instead of ", want[j].step, ": ", what);
                VH_CHECK(ns(ts[j]) == want[j].t, "sample-time", "sample ", j, " has time ", ns(ts[j]), " instead of ", want[j].t, ": ", what);
                VH_CHECK(same(values[j], want[j].v), "sample-value", "sample ", j, " has value ", show(values[j]), " instead of ", show(want[j].v), ": ", what);
            }
            for (std::size_t j = k; j < room; ++j)
                VH_CHECK(steps[j] == -99 && same(values[j], v.type == variable_type::real ? scalar_value(-77.0) : scalar_value(-77)), "sample-overrun", "entries beyond the returned number were written: ", what);
            returned += static_cast<long long>(k);
        } else if (kind <= 7) {
            const auto& ts = times[static_cast<std::size_t>(i)];
            cosim::step_number out[2] = {-9, -9};
            long long first = ts.front().first, last = ts.back().first;
            std::string what;
            if (rng.chance(50)) {
                auto a = s.start + rng.range(-2, done + 2) * s.base + (rng.chance(40) ? rng.range(-1, 1) : 0);
                auto z = s.start + rng.range(-2, done + 2) * s.base + (rng.chance(40) ? rng.range(-1, 1) : 0);
                if (a > z) std::swap(a, z);
                for (const auto& [st, t] : ts)
                    if (t <= a) first = st;
                for (auto q = ts.rbegin(); q != ts.rend(); ++q)
                    if (q->second >= z) last = q->first;
                obs->get_step_numbers(i, tp(a), tp(z), gsl::span<cosim::step_number>(out, 2));
                what = cat("steps between ", a - s.start, " and ", z - s.start);
            } else {
                const auto d = rng.range(0, done + 3) * s.base + (rng.chance(40) ? rng.range(0, 1) : 0);
                for (const auto& [st, t] : ts)
                    if (t <= ts.back().second - d) first = st;
                obs->get_step_numbers(i, cosim::duration(d), gsl::span<cosim::step_number>(out, 2));
                what = cat("steps of the last ", d);
            }
            VH_CHECK(out[0] == first && out[1] == last, "step-numbers", what, " ns are ", out[0], "..", out[1], ", expected ", first, "..", last, " for simulator ", i, " after step ", done, " (buffer ", limit, "); ", s.text());
        } else {
            const auto& [i2, v2] = rng.pick(observable_vars);
            const auto it2 = series.find({i2, K(v2)});
            if (v.type != variable_type::real || v2.type != variable_type::real) return;
            const auto from = rng.range(-2, done + 2);
            const auto room = static_cast<std::size_t>(rng.range(0, longRun && rng.chance(20) ? 500 : 10));
            raw_array<double> a(room, -77.0), c(room, -77.0);
            bool thrown = false;
            std::size_t k = 0;
            try {
                k = obs->get_synchronized_real_series(i, v.ref, i2, v2.ref, from, a.span(), c.span());
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            const auto what = cat("synchronized series of ", i, ".", v.name, " and ", i2, ".", v2.name, " from ", from, " with room for ", room, " after step ", done, " (buffer ", limit, ");", story, "; ", s.text());
            if (it == series.end() || it2 == series.end() || it->second.empty() || it2->second.empty()) {
                VH_CHECK(thrown || k == 0, "no-samples", what);
                return;
            }
            VH_CHECK(!thrown, "query-exception", what);
            std::vector<std::pair<scalar_value, scalar_value>> want;
            for (const auto& p : it->second) {
                if (p.step < from || p.step >= from + static_cast<long long>(room)) continue;
                for (const auto& q : it2->second)
                    if (p.step == q.step) want.push_back({p.v, q.v});
            }
            VH_CHECK(k == want.size(), "sync-count", k, " pairs instead of ", want.size(), ": ", what);
            for (std::size_t j = 0; j < k; ++j)
                VH_CHECK(same(a[j], want[j].first) && same(c[j], want[j].second), "sync-value", "pair ", j, " is ", a[j], ", ", c[j], ", expected ", show(want[j].first), ", ", show(want[j].second), ": ", what);
            vh::count("synchronized_pairs", static_cast<long long>(k));
        }
    };

    const auto nt = rng.range(1, 6);
    for (int k = 0; k < nt; ++k) toggle();
    const auto n = late + (scaled ? (defaultBuffer && longRun && rng.chance(60) ? rng.range(10000, 13000) : scaled) : rng.range(1, 50));
    while (done < n) {
        if (done > late && (longRun ? rng.chance(1) && rng.chance(20) : rng.chance(15))) toggle();
        const bool first = done == 0;
        std::vector<value_map> atStart;
        if (done == 0)
            for (const auto& x : m.sims) atStart.push_back(x.visible);
        b.exe->step();
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            if (done % m.factors[i] == 0) begunAt[i] = done;
        const auto fin = m.do_step();
        ++done;
        const auto t = s.start + done * s.base;
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            if (first)
                for (auto& [id, sr] : series)
                    if (id.first == static_cast<int>(i)) sr.push_back({0, s.start, atStart[i].at(id.second)});
            if (!fin.count(static_cast<int>(i))) continue;
            for (auto& [id, sr] : series)
                if (id.first == static_cast<int>(i)) sr.push_back({done, t, m.sims[i].visible.at(id.second)});
            times[i].push_back({done, t});
        }
        for (auto& [id, sr] : series) trim(sr);
        for (auto& x : times) trim(x);
        for (int k = 0; k < 3; ++k)
            if (longRun ? rng.chance(1) : rng.chance(50)) query();
    }
    for (int k = 0; k < (longRun ? 60 : 20); ++k) query();
    if (longRun && trimmed > 0) vh::count("long_runs_dropping_samples");
    if (rng.chance(5)) {
        bool thrown = false;
        try {
            cosim::time_series_observer z(0);
        } catch (const std::exception&) {
            thrown = true;
        }
        VH_CHECK(thrown, "zero-buffer", "a buffer size of zero was accepted");
    }
    check_monitors(b);
    vh::evaluated();
    if (returned > 0) vh::distinct(vh::mix(shape_hash(s), vh::hash_str(story) + limit));
    vh::count("queries", queries);
    vh::count("samples_compared", returned);
    vh::count("samples_dropped_by_buffer", trimmed);
    vh::sample(cat("buffer ", limit, story, "; ", s.text()));
}

// ------------------------------------------------------------- C14, C15
namespace
{
std::string slurp(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
std::vector<std::string> lines_of(const std::string& t)
{
    std::vector<std::string> r;
    std::size_t p = 0;
    while (p < t.size()) {
        auto e = t.find('\n', p);
        if (e == std::string::npos) e = t.size();
        r.push_back(t.substr(p, e - p));
        p = e + 1;
    }
    return r;
}
std::vector<std::string> split(const std::string& t)
{
    std::vector<std::string> r;
    std::size_t p = 0;
    for (;;) {
        const auto e = t.find(',', p);
        r.push_back(t.substr(p, e == std::string::npos ? std::string::npos : e - p));
        if (e == std::string::npos) return r;
        p = e + 1;
    }
}
// Columns are grouped by type: reals, integers, booleans, strings.
std::vector<var_spec> columns(const std::vector<var_spec>& v)
{
    std::vector<var_spec> r;
    for (auto t : {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string})
        for (const auto& x : v)
            if (x.type == t) r.push_back(x);
    return r;
}
std::string header(const std::vector<var_spec>& cols)
{
    std::string h = "Time,StepCount";
    for (const auto& v : cols) h += "," + v.name;
    return h;
}
bool real_matches(const std::string& text, double want, int precision)
{
    char* end = nullptr;
    const double got = std::strtod(text.c_str(), &end);
    if (text.empty() || *end) return false;
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want) || std::isinf(got)) return want == got;
    const double six = std::fabs(want) * 5.1e-6 + 5e-324; // six significant digits
    // written with `precision` decimals, then read back with double accuracy
    if (precision >= 0) return std::fabs(got - want) <= 0.5000001 * std::pow(10.0, -precision) + std::fabs(want) * 1e-15;
    return std::fabs(got - want) <= six;
}
bool value_matches(const std::string& text, const scalar_value& v, int precision)
{
    switch (v.index()) {
        case 0: return real_matches(text, std::get<double>(v), precision);
        case 1: return text == std::to_string(std::get<int>(v));
        case 2: return text == (std::get<bool>(v) ? "1" : "0") || text == (std::get<bool>(v) ? "true" : "false");
        default: return text == std::get<std::string>(v);
    }
}
struct row
{
    long long step;
    std::int64_t t;
    value_map values;
};
std::string check_row(const std::string& line, const row& r, const std::vector<var_spec>& cols, int precision, bool withValues = true)
{
    const auto f = split(line);
    if (f.size() != cols.size() + 2) return cat(f.size(), " fields instead of ", cols.size() + 2);
    if (f[1] != std::to_string(r.step)) return cat("step count ", f[1], " instead of ", r.step);
    if (!real_matches(f[0], static_cast<double>(r.t) * 1e-9, -1)) return cat("time ", f[0], " instead of ", static_cast<double>(r.t) * 1e-9);
    for (std::size_t i = 0; withValues && i < cols.size(); ++i) {
        const auto& want = r.values.at(K(cols[i]));
        if (!value_matches(f[i + 2], want, precision)) return cat("value ", f[i + 2], " instead of ", show(want), " for ", cols[i].name);
    }
    return {};
}
// Log files of a simulator, in order of their names (which contain the time).
std::vector<fs::path> logs_of(const fs::path& dir, const std::string& sim, bool stamped)
{
    std::vector<fs::path> r;
    if (!fs::exists(dir)) return r;
    for (const auto& e : fs::directory_iterator(dir)) {
        const auto n = e.path().filename().string();
        if (stamped) {
            if (n.size() <= sim.size() + 5 || n.compare(0, sim.size() + 1, sim + "_") || n.compare(n.size() - 4, 4, ".csv")) continue;
            const auto mid = n.substr(sim.size() + 1, n.size() - sim.size() - 5);
            if (mid.find_first_not_of("0123456789_") != std::string::npos) continue;
            r.push_back(e.path());
        } else if (n == sim + ".csv")
            r.push_back(e.path());
    }
    std::sort(r.begin(), r.end());
    return r;
}
struct log_plan
{
    bool logged = false;
    std::size_t factor = 1;
    std::vector<var_spec> cols;
};
fs::path fresh_dir(long long i)
{
    const fs::path d = fs::path(vh::scratch_dir()) / ("log" + std::to_string(i));
    fs::remove_all(d);
    return d;
}
void shorten_names(system_spec& s, vh::rng& rng)
{
    for (auto& sl : s.slaves) {
        int k = 0;
        for (auto& v : sl.vars) v.name = cat("v", k++, rng.chance(20) ? ".sub" : rng.chance(20) ? "[2]" : "");
    }
}
} // namespace


VH_PROP(C14)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 4));
    o.maxSlaves = 4;
    o.maxVars = 6;
    const auto scaled = scale_up(rng, o, 1);
    auto s = gen_system(rng, o);
    if (scaled) s.start = 0;
    else if (rng.chance(80)) s.start = s.base * rng.range(0, 3);
    s.workers = 0;
    shorten_names(s, rng);
    const auto dir = fresh_dir(caseIndex) / (rng.chance(20) ? "a/b" : "");
    const int mode = static_cast<int>(rng.range(0, 9)); // 0-1: no config, 2-6: built, 7-9: from a file
    const bool stamped = mode >= 7 || mode <= 1 || rng.chance(50);
    int precision = -1;
    std::vector<log_plan> plan(s.slaves.size());
    cosim::file_observer_config cfg;
    std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<simulators>\n", story = cat("mode ", mode);
    if (mode <= 1) {
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            plan[i].logged = true;
            for (const auto& v : s.slaves[i].vars)
                if (v.causality != variable_causality::local) plan[i].cols.push_back(v);
        }
    } else {
        cfg.set_timestamped_filenames(stamped);
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            if (!rng.chance(75)) continue;
            auto& p = plan[i];
            p.logged = true;
            const bool hasFactor = rng.chance(60);
            if (hasFactor) p.factor = static_cast<std::size_t>(rng.range(1, scaled && rng.chance(70) ? scaled : 6));
            const auto f = hasFactor ? std::optional<size_t>(p.factor) : std::nullopt;
            std::vector<std::string> names;
            if (rng.chance(70))
                for (const auto& v : s.slaves[i].vars)
                    if (rng.chance(60)) p.cols.push_back(v);
            for (std::size_t k = p.cols.size(); k > 1; --k) std::swap(p.cols[k - 1], p.cols[static_cast<std::size_t>(rng.range(0, static_cast<long long>(k) - 1))]);
            for (const auto& v : p.cols) names.push_back(v.name);
            const bool all = names.empty();
            if (all) p.cols = s.slaves[i].vars;
            if (mode <= 6) {
                if (all && rng.chance(50)) cfg.log_all_simulator_variables(s.slaves[i].name, f);
                else if (names.size() > 1 && rng.chance(30)) { // in two calls
                    cfg.log_simulator_variables(s.slaves[i].name, {names[0]}, f);
                    cfg.log_simulator_variables(s.slaves[i].name, std::vector<std::string>(names.begin() + 1, names.end()), f);
                } else
                    cfg.log_simulator_variables(s.slaves[i].name, names, f);
            } else {
                xml += "  <simulator name=\"" + s.slaves[i].name + "\"" + (hasFactor ? " decimationFactor=\"" + std::to_string(p.factor) + "\"" : "") + ">\n";
                for (const auto& nme : names) xml += "    <variable name=\"" + nme + "\"/>\n" + (rng.chance(20) ? "<!-- x -->" : "");
                xml += "  </simulator>\n";
            }
            story += cat(" ", s.slaves[i].name, "/", p.factor, ":", all ? std::string("all") : header(p.cols));
        }
        if (mode <= 6) {
            if (rng.chance(20)) cfg.log_all_simulator_variables("nobody");
            if (rng.chance(30)) {
                precision = static_cast<int>(rng.range(0, 9));
                cfg.fixed_precision(precision);
            }
        }
        xml += "</simulators>\n";
    }
    std::map<std::size_t, std::vector<row>> rows;
    if (!stamped && rng.chance(30)) { // left over from an earlier run
        fs::create_directories(dir);
        for (auto& sl : s.slaves) std::ofstream((dir / (sl.name + ".csv"))) << "old contents\n1,2,3\n";
        vh::count("stale_files");
    }
    const long long n = scaled ? scaled : rng.range(1, 25);
    const long long late = rng.chance(25) ? rng.range(1, 12) : 0; // steps before the observer is added
    if (late) story += cat(", added after ", late, " steps");
    {
        auto b = build(s);
        std::shared_ptr<cosim::file_observer> obs;
        if (mode <= 1) obs = std::make_shared<cosim::file_observer>(dir.string());
        else if (mode <= 6) obs = std::make_shared<cosim::file_observer>(dir.string(), cfg);
        else {
            const std::string f = vh::scratch_dir() + "/LogConfig.xml";
            std::ofstream(f) << xml;
            if (rng.chance(50)) obs = std::make_shared<cosim::file_observer>(dir.string(), cosim::filesystem::path(f));
            else obs = std::make_shared<cosim::file_observer>(dir.string(), cosim::file_observer_config::parse(f));
        }
        ref_model m(s);
        m.initialize();
        if (late > 0) {
            // Variables which get observed from now on have valid values only
            // once their simulator has begun and completed another step.
            for (long long k = 1; k <= late; ++k) {
                b.exe->step();
                m.do_step();
            }
            vh::count("added_late");
        }
        b.exe->add_observer(obs);
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            rows[i].push_back({late, s.start + late * s.base, m.sims[i].visible});
        for (long long k = late + 1; k <= late + n; ++k) {
            b.exe->step();
            for (int i : m.do_step()) rows[static_cast<std::size_t>(i)].push_back({k, s.start + k * s.base, m.sims[static_cast<std::size_t>(i)].visible});
        }
        check_monitors(b);
        VH_CHECK(fs::path(obs->get_log_path().string()) == fs::absolute(dir), "log-path", "wrong log path");
    }
    long long total = 0;
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        const auto files = logs_of(dir, s.slaves[i].name, stamped);
        if (!plan[i].logged) {
            for (const auto& f : files) VH_CHECK(slurp(f).rfind("old contents", 0) == 0, "unselected-logged", "simulator ", i, " wasn't selected but logged; ", story);
            continue;
        }
        VH_CHECK(files.size() == 1, "log-files", files.size(), " log files for simulator ", i, "; ", story);
        const auto text = slurp(files[0]);
        const auto ls = lines_of(text);
        const auto cols = columns(plan[i].cols);
        VH_CHECK(!ls.empty() && text.back() == '\n' && ls[0] == header(cols), "header", "first line is '", ls.empty() ? "" : ls[0], "', expected '", header(cols), "'; ", story);
        std::vector<row> want;
        for (const auto& r : rows[i])
            if (r.step % static_cast<long long>(plan[i].factor) == 0) want.push_back(r);
        VH_CHECK(ls.size() == want.size() + 1, "row-count", ls.size() - 1, " rows, expected ", want.size(), " for simulator ", i, "; ", story, "; ", s.text(), "\n", text);
        for (std::size_t k = 0; k < want.size(); ++k) {
            const auto e = check_row(ls[k + 1], want[k], cols, precision, late == 0 || want[k].step - s.factor(static_cast<int>(i)) >= late);
            VH_CHECK(e.empty(), "row", "row ", k, " '", ls[k + 1], "' has ", e, " (simulator ", i, ", precision ", precision, "); ", story, "; ", s.text());
            ++total;
        }
    }
    fs::remove_all(fresh_dir(caseIndex));
    vh::evaluated();
    vh::count("rows_compared", total);
    if (total > 0) vh::distinct(vh::mix(shape_hash(s), vh::hash_str(story)));
    vh::sample(story + "; " + s.text());

    // Invalid configurations must be rejected, at the latest when the
    // observer is told of the simulator.
    if (rng.chance(40)) {
        const auto kind = rng.range(0, 5);
        bool thrown = false;
        std::string what;
        try {
            auto b = build(s);
            cosim::file_observer_config c;
            const auto& sl = s.slaves[0];
            auto fromXml = [&](const std::string& t) {
                const std::string f = vh::scratch_dir() + "/LogConfig.xml";
                std::ofstream(f) << t;
                return cosim::file_observer_config::parse(f);
            };
            const auto openTag = "<simulators><simulator name=\"" + sl.name + "\" decimationFactor=\"";
            switch (kind) {
                case 0: what = "unknown variable"; c.log_simulator_variables(sl.name, {"nosuchvariable"}); break;
                case 1: what = "decimation factor 0"; c.log_simulator_variables(sl.name, {}, 0); break;
                case 2: what = "decimation factor 0 for all variables"; c.log_all_simulator_variables(sl.name, 0); break;
                case 3: what = "decimation factor 0 in file"; c = fromXml(openTag + "0\"/></simulators>"); break;
                case 4: what = "negative decimation factor in file"; c = fromXml(openTag + "-2\"/></simulators>"); break;
                default: what = "malformed decimation factor in file"; c = fromXml(openTag + "often\"/></simulators>"); break;
            }
            auto obs = std::make_shared<cosim::file_observer>(dir.string(), c);
            b.exe->add_observer(obs);
            b.exe->step();
        } catch (const std::exception&) {
            thrown = true;
        }
        fs::remove_all(fresh_dir(caseIndex));
        VH_CHECK(thrown, "bad-config-accepted:" + what, what, " was accepted");
        vh::count("bad_configs_rejected");
    }
}


VH_PROP(C15)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 3));
    o.maxSlaves = 3;
    o.maxVars = 4;
    const auto scaled = scale_up(rng, o, 1);
    auto s = gen_system(rng, o);
    s.start = 0;
    s.workers = 0;
    shorten_names(s, rng);
    const auto dir = fresh_dir(caseIndex);
    const bool stamped = rng.chance(60);
    cosim::file_observer_config cfg;
    cfg.set_timestamped_filenames(stamped);
    std::vector<log_plan> plan(s.slaves.size());
    std::vector<bool> logged(s.slaves.size());
    const int logChance = rng.chance(75) ? 100 : rng.chance(50) ? 50 : 0;
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        plan[i].factor = static_cast<std::size_t>(rng.chance(60) ? 1 : rng.range(2, scaled ? 100 : 3));
        plan[i].cols = s.slaves[i].vars;
        logged[i] = rng.chance(logChance);
        if (logged[i]) cfg.log_all_simulator_variables(s.slaves[i].name, plan[i].factor);
    }
    const bool nothingLogged = std::none_of(logged.begin(), logged.end(), [](bool x) { return x; });
    auto b = build(s);
    auto obs = std::make_shared<cosim::file_observer>(dir.string(), cfg);
    ref_model m(s);
    m.initialize();
    bool on = true;
    std::string story;
    // per simulator: intervals with at least one step to record
    std::vector<std::vector<std::vector<row>>> intervals(s.slaves.size());
    for (auto& x : intervals) x.emplace_back();
    long long toggles = 0, rejected = 0, rowsChecked = 0, idleToggles = 0;
    long long k = 0;
    auto toggle = [&](bool start) {
        bool thrown = false;
        try {
            if (start) obs->start_recording();
            else obs->stop_recording();
        } catch (const std::exception&) {
            thrown = true;
        }
        story += cat(" ", k, start ? ":start" : ":stop");
        VH_CHECK(thrown == (start == on), "toggle-result", start ? "start" : "stop", "_recording() ", thrown ? "failed" : "succeeded", " while recording was ", on ? "on" : "off", ";", story);
        if (thrown) ++rejected;
        else {
            ++toggles;
            on = start;
            if (on)
                for (auto& x : intervals) x.emplace_back();
        }
        VH_CHECK(obs->is_recording() == on, "status", "is_recording() is ", !on, " but recording is ", on ? "on" : "off", ";", story);
    };
    if (rng.chance(30)) {
        for (int j = 0; j < 4 && rng.chance(70); ++j, ++idleToggles) toggle(rng.chance(50));
        story += " (added)";
    }
    b.exe->add_observer(obs);

    auto check = [&] {
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            const auto cols = columns(plan[i].cols);
            const auto h = header(cols);
            std::string text;
            for (const auto& f : logs_of(dir, s.slaves[i].name, stamped)) {
                const auto t = slurp(f);
                VH_CHECK(t.empty() || t.back() == '\n', "partial-row", "a file ends within a row; ", story);
                text += t;
            }
            const auto ls = lines_of(text);
            std::vector<std::vector<std::string>> got;
            for (const auto& l : ls) {
                if (l == h) got.emplace_back();
                else {
                    VH_CHECK(!got.empty(), "header", "rows before the first header; ", story);
                    got.back().push_back(l);
                }
            }
            got.erase(std::remove_if(got.begin(), got.end(), [](const auto& x) { return x.empty(); }), got.end());
            std::vector<std::vector<row>> want;
            for (const auto& iv : intervals[i]) {
                std::vector<row> w;
                for (const auto& r : iv)
                    if (r.step % static_cast<long long>(plan[i].factor) == 0) w.push_back(r);
                if (!w.empty()) want.push_back(w);
            }
            std::vector<std::string> gl;
            std::vector<row> wl;
            for (auto& x : got) gl.insert(gl.end(), x.begin(), x.end());
            for (auto& x : want) wl.insert(wl.end(), x.begin(), x.end());
            VH_CHECK(gl.size() == wl.size(), "row-count", gl.size(), " rows instead of ", wl.size(), " for simulator ", i, " after step ", k, ";", story, "; ", s.text(), "\n", text);
            VH_CHECK(got.size() == want.size() || !stamped, "interval-count", got.size(), " intervals logged instead of ", want.size(), "; ", story);
            for (std::size_t r = 0; r < gl.size(); ++r) {
                const auto e = check_row(gl[r], wl[r], cols, -1);
                VH_CHECK(e.empty(), "row", "row '", gl[r], "' has ", e, ";", story, "; ", s.text());
                ++rowsChecked;
            }
        }
    };
    const auto n = scaled ? scaled : rng.range(2, 30);
    const int busy = n > 100 ? 2 : static_cast<int>(rng.range(5, 60));
    for (k = 0; k < n;) {
        for (int j = 0; j < 4 && rng.chance(busy); ++j) {
            toggle(rng.chance(50));
            if (nothingLogged) ++idleToggles;
            if (!on && rng.chance(n > 100 ? 3 : 30)) check();
        }
        const bool first = k == 0;
        std::vector<value_map> atStart;
        if (first)
            for (const auto& x : m.sims) atStart.push_back(x.visible);
        b.exe->step();
        ++k;
        const auto fin = m.do_step();
        if (on)
            for (std::size_t i = 0; i < s.slaves.size(); ++i) {
                if (!logged[i]) continue;
                if (first) intervals[i].back().push_back({0, s.start, atStart[i]});
                if (fin.count(static_cast<int>(i))) intervals[i].back().push_back({k, s.start + k * s.base, m.sims[i].visible});
            }
    }
    if (rng.chance(50) && on) {
        obs->stop_recording();
        on = false;
        check();
    }
    b.exe.reset();
    obs.reset();
    check();
    fs::remove_all(dir);
    vh::evaluated();
    if (toggles > 0) vh::distinct(vh::hash_str(story) ^ shape_hash(s));
    vh::count("toggles", toggles);
    vh::count("toggles_with_nothing_to_log", idleToggles);
    vh::count("rejected_toggles", rejected);
    vh::count("rows_compared", rowsChecked);
    vh::sample(story + "; " + s.text());
}

// Several threads toggling while the simulation runs.
namespace
{
struct toggle_op
{
    int what; // 0 start, 1 stop, 2 is_recording
    bool ok; // start/stop succeeded; is_recording: result
    std::uint64_t a, z;
};
// Is the history a linearisation of an on/off switch?
bool linearizable(const std::vector<std::vector<toggle_op>>& h, bool initial)
{
    std::set<std::pair<std::vector<std::size_t>, bool>> seen;
    std::function<bool(std::vector<std::size_t>&, bool)> go = [&](std::vector<std::size_t>& pos, bool on) {
        std::uint64_t firstEnd = ~0ull;
        bool finished = true;
        for (std::size_t t = 0; t < h.size(); ++t)
            if (pos[t] < h[t].size()) {
                finished = false;
                firstEnd = std::min(firstEnd, h[t][pos[t]].z);
            }
        if (finished) return true;
        if (!seen.insert({pos, on}).second) return false;
        for (std::size_t t = 0; t < h.size(); ++t) {
            if (pos[t] >= h[t].size()) continue;
            const auto& x = h[t][pos[t]];
            if (x.a > firstEnd) continue;
            bool next = on;
            if (x.what == 2) {
                if (x.ok != on) continue;
            } else {
                const bool start = x.what == 0;
                if (x.ok != (on != start)) continue;
                if (x.ok) next = start;
            }
            ++pos[t];
            if (go(pos, next)) return true;
            --pos[t];
        }
        return false;
    };
    std::vector<std::size_t> pos(h.size(), 0);
    return go(pos, initial);
}
} // namespace


VH_PROP(C15T)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 2));
    o.maxSlaves = 3;
    o.maxVars = 4;
    o.delay = rng.chance(50) ? 30 : 0;
    auto s = gen_system(rng, o);
    s.start = 0;
    s.workers = static_cast<int>(rng.range(0, 2));
    shorten_names(s, rng);
    const auto dir = fresh_dir(caseIndex);
    auto b = build(s, rng.next());
    cosim::file_observer_config cfg;
    for (const auto& sl : s.slaves) cfg.log_all_simulator_variables(sl.name);
    auto obs = std::make_shared<cosim::file_observer>(dir.string(), cfg);
    auto before = std::make_shared<base_observer>(), after = std::make_shared<base_observer>();
    order ord;
    const auto count = s.slaves.size();
    struct span_t
    {
        long long step;
        std::uint64_t a = 0, z = 0;
    };
    std::vector<std::vector<span_t>> notes(count);
    before->onInit = [&] {
        const auto x = ord.tick();
        for (auto& v : notes) v.push_back({0, x, 0});
    };
    after->onInit = [&] {
        const auto x = ord.tick();
        for (auto& v : notes) v.back().z = x;
    };
    before->onSimStep = [&](int i, long long n, std::int64_t) { notes[static_cast<std::size_t>(i)].push_back({n, ord.tick(), 0}); };
    after->onSimStep = [&](int i, long long, std::int64_t) { notes[static_cast<std::size_t>(i)].back().z = ord.tick(); };
    b.exe->add_observer(before);
    b.exe->add_observer(obs);
    b.exe->add_observer(after);
    const auto nt = static_cast<std::size_t>(rng.range(1, 4));
    std::vector<std::vector<toggle_op>> h(nt);
    std::atomic<bool> go{false};
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < nt; ++t)
        threads.emplace_back([&, t, seed = rng.next(), ops = rng.range(2, 14)] {
            vh::rng r(seed);
            while (!go) std::this_thread::yield();
            for (int k = 0; k < ops; ++k) {
                toggle_op x;
                x.what = static_cast<int>(r.range(0, 8)) / 4;
                if (r.chance(40)) ::usleep(static_cast<useconds_t>(r.range(1, 150)));
                x.a = ord.tick();
                try {
                    x.ok = true;
                    if (x.what == 0) obs->start_recording();
                    else if (x.what == 1) obs->stop_recording();
                    else x.ok = obs->is_recording();
                } catch (const std::exception&) {
                    x.ok = false;
                }
                x.z = ord.tick();
                h[t].push_back(x);
            }
        });
    ref_model m(s);
    m.initialize();
    std::vector<std::map<long long, row>> rows(count);
    for (std::size_t i = 0; i < count; ++i) rows[i][0] = {0, s.start, m.sims[i].visible};
    go = true;
    const auto n = rng.range(5, 60);
    std::string failure;
    try {
        for (long long k = 1; k <= n; ++k) {
            b.exe->step();
            for (int i : m.do_step()) rows[static_cast<std::size_t>(i)][k] = {k, s.start + k * s.base, m.sims[static_cast<std::size_t>(i)].visible};
        }
    } catch (const std::exception& e) {
        failure = e.what();
    }
    for (auto& t : threads) t.join();
    if (!failure.empty()) throw vh::failed("unexpected-exception", failure);
    check_monitors(b);
    const bool finalOn = obs->is_recording();
    b.exe.reset();
    obs.reset();
    std::string story;
    {
        std::vector<std::pair<std::uint64_t, std::string>> all;
        for (std::size_t t = 0; t < nt; ++t)
            for (const auto& x : h[t]) all.push_back({x.a, cat(" T", t, "[", x.a, ",", x.z, "]", x.what == 0 ? "start" : x.what == 1 ? "stop" : "is", x.ok ? "+" : "-")});
        std::sort(all.begin(), all.end());
        for (auto& x : all) story += x.second;
    }
    auto hist = h;
    const auto endTick = ord.tick();
    hist.push_back({toggle_op{2, finalOn, endTick, ord.tick()}});
    VH_CHECK(linearizable(hist, true), "toggle-order", "no order of the requests explains their results:", story);
    // counting argument on the alternating sequence of successful toggles
    auto startsEndedBefore = [&](std::uint64_t x) { int c = 1; for (auto& v : h) for (auto& y : v) c += y.what == 0 && y.ok && y.z < x; return c; };
    auto startsBegunBefore = [&](std::uint64_t x) { int c = 1; for (auto& v : h) for (auto& y : v) c += y.what == 0 && y.ok && y.a < x; return c; };
    auto stopsEndedBefore = [&](std::uint64_t x) { int c = 0; for (auto& v : h) for (auto& y : v) c += y.what == 1 && y.ok && y.z < x; return c; };
    auto stopsBegunBefore = [&](std::uint64_t x) { int c = 0; for (auto& v : h) for (auto& y : v) c += y.what == 1 && y.ok && y.a < x; return c; };
    long long certain = 0, uncertain = 0;
    for (std::size_t i = 0; i < count; ++i) {
        const auto cols = columns(s.slaves[i].vars);
        const auto hd = header(cols);
        std::set<long long> logged;
        for (const auto& f : logs_of(dir, s.slaves[i].name, true)) {
            const auto text = slurp(f);
            VH_CHECK(text.empty() || text.back() == '\n', "partial-row", "a file ends within a row;", story);
            const auto ls = lines_of(text);
            VH_CHECK(!ls.empty() && ls[0] == hd, "header", "first line is '", ls.empty() ? "" : ls[0], "';", story);
            long long last = -1;
            for (const auto& l : ls) {
                if (l == hd) continue;
                const auto p = split(l);
                VH_CHECK(p.size() > 1, "row", "row '", l, "';", story);
                const auto step = std::strtoll(p[1].c_str(), nullptr, 10);
                VH_CHECK(rows[i].count(step), "row", "row '", l, "' is for a step that wasn't;", story);
                const auto e = check_row(l, rows[i].at(step), cols, -1);
                VH_CHECK(e.empty(), "row", "row '", l, "' has ", e, ";", story);
                VH_CHECK(step > last, "row-order", "rows out of order;", story);
                last = step;
                VH_CHECK(logged.insert(step).second, "duplicate-row", "step ", step, " of simulator ", i, " was logged twice;", story);
            }
        }
        for (const auto& x : notes[i]) {
            const bool surelyOn = startsEndedBefore(x.a) > stopsBegunBefore(x.z);
            const bool surelyOff = stopsEndedBefore(x.a) >= startsBegunBefore(x.z);
            if (surelyOn) VH_CHECK(logged.count(x.step), "lost-row", "step ", x.step, " [", x.a, ",", x.z, "] of simulator ", i, " was completed while recording but isn't in the log;", story);
            if (surelyOff) VH_CHECK(!logged.count(x.step), "extra-row", "step ", x.step, " [", x.a, ",", x.z, "] of simulator ", i, " was completed while not recording but is in the log;", story);
            (surelyOn || surelyOff ? certain : uncertain)++;
        }
    }
    fs::remove_all(dir);
    vh::evaluated();
    vh::distinct(vh::hash_str(story));
    vh::count("steps_decided", certain);
    vh::count("steps_overlapping_a_toggle", uncertain);
    for (auto& v : h)
        for (auto& x : v)
            if (x.what < 2) vh::count(x.ok ? "thread_toggles" : "thread_toggles_rejected");
    vh::sample(story);
}


// C32, log configurations
VH_PROP(C32L)
{
    gen_options o;
    o.maxSlaves = 3;
    o.maxVars = 5;
    auto s = gen_system(rng, o);
    s.workers = 0;
    shorten_names(s, rng);
    const auto dir = fresh_dir(caseIndex);
    auto text = [&] {
        std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<simulators>\n";
        for (const auto& sl : s.slaves) {
            if (rng.chance(30)) continue;
            xml += "  <simulator name=\"" + sl.name + "\"" + (rng.chance(60) ? cat(" decimationFactor=\"", rng.range(1, 5), "\"") : "") + ">\n";
            for (const auto& v : sl.vars)
                if (rng.chance(60)) xml += "    <variable name=\"" + v.name + "\"/>\n";
            xml += "  </simulator>\n<!-- x -->";
        }
        return xml + "</simulators>\n";
    };
    for (int k = 0; k < 5; ++k) {
        const auto doc = rng.chance(95) ? vh::mutate(rng, text(), text()) : text();
        const std::string f = vh::scratch_dir() + "/LogConfig.xml";
        std::ofstream(f, std::ios::binary | std::ios::trunc) << doc;
        vh::context(doc);
        vh::distinct(vh::hash_str(doc));
        if (rng.chance(2)) vh::sample(doc.substr(0, 200));
        std::optional<cosim::file_observer_config> c;
        if (!vh::survives("log configuration", [&] { c.emplace(cosim::file_observer_config::parse(f)); })) continue;
        auto b = build(s);
        vh::survives("logging", [&] {
            b.exe->add_observer(std::make_shared<cosim::file_observer>(dir.string(), *c));
            b.exe->step();
            b.exe->step();
        });
    }
    fs::remove_all(dir);
}


// C33: everything that may be used from other threads, at once.
namespace
{
void override_with(cosim::override_manipulator& m, int sim, const var_spec& v, const scalar_value& x)
{
    switch (v.type) {
        case variable_type::real: m.override_real_variable(sim, v.ref, std::get<double>(x)); break;
        case variable_type::integer: m.override_integer_variable(sim, v.ref, std::get<int>(x)); break;
        case variable_type::boolean: m.override_boolean_variable(sim, v.ref, std::get<bool>(x)); break;
        default: m.override_string_variable(sim, v.ref, std::get<std::string>(x)); break;
    }
}
} // namespace

VH_PROP(C33)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 3));
    o.maxSlaves = 3;
    o.maxVars = 6;
    o.delay = rng.chance(60) ? static_cast<int>(rng.range(1, 40)) : 0;
    auto s = gen_system(rng, o);
    s.workers = static_cast<int>(rng.range(-1, 3));
    // one more, which nobody depends on, to be overridden
    const int sink = static_cast<int>(s.slaves.size());
    do s.slaves.push_back(gen_slave(rng, o, sink));
    while (std::none_of(s.slaves.back().vars.begin(), s.slaves.back().vars.end(), is_in) && (s.slaves.pop_back(), true));
    shorten_names(s, rng);
    const auto count = s.slaves.size();
    const auto dir = fresh_dir(caseIndex);

    auto b = build(s, rng.next());
    auto last = std::make_shared<cosim::last_value_observer>();
    auto series = std::make_shared<cosim::time_series_observer>(static_cast<std::size_t>(rng.chance(50) ? 10000 : rng.range(1, 20)));
    cosim::file_observer_config cfg;
    for (const auto& sl : s.slaves) cfg.log_all_simulator_variables(sl.name);
    auto log = std::make_shared<cosim::file_observer>(dir.string(), cfg);
    auto man = std::make_shared<cosim::override_manipulator>();
    auto before = std::make_shared<base_observer>(), after = std::make_shared<base_observer>();
    std::vector<std::atomic<int>> started(count), finished(count);
    for (std::size_t i = 0; i < count; ++i) started[i] = finished[i] = 0;
    std::atomic<long long> steps{0};
    before->onInit = [&] { for (auto& x : started) x++; };
    after->onInit = [&] { for (auto& x : finished) x++; };
    before->onSimStep = [&](int i, long long, std::int64_t) { started[static_cast<std::size_t>(i)]++; };
    after->onSimStep = [&](int i, long long, std::int64_t) { finished[static_cast<std::size_t>(i)]++; };
    b.exe->add_observer(before);
    b.exe->add_observer(last);
    b.exe->add_observer(series);
    b.exe->add_observer(log);
    b.exe->add_observer(after);
    b.exe->add_manipulator(man);
    for (std::size_t i = 0; i < count; ++i)
        for (const auto& v : s.slaves[i].vars)
            if (v.type == variable_type::real || v.type == variable_type::integer) series->start_observing({static_cast<int>(i), v.type, v.ref});
    b.exe->step(); // initialises, so that there's something to read

    struct read_t
    {
        int sim, type, lo, hi;
        std::vector<value_reference> refs;
        std::vector<scalar_value> values;
    };
    struct sample_t
    {
        int sim;
        key k;
        long long step;
        std::int64_t time;
        scalar_value value;
    };
    const auto nt = static_cast<std::size_t>(rng.range(2, 5));
    std::vector<std::vector<read_t>> reads(nt);
    std::vector<std::vector<sample_t>> samples(nt);
    std::vector<std::map<key, std::optional<scalar_value>>> finals(nt); // last requests
    std::vector<std::vector<toggle_op>> toggles(nt);
    std::vector<std::map<std::string, long long>> did(nt);
    std::vector<std::string> errors(nt);
    std::atomic<int> running{static_cast<int>(nt)};
    order ord;
    const auto config = b.exe->get_real_time_config();
    const auto metrics = b.exe->get_real_time_metrics();
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < nt; ++t)
        threads.emplace_back([&, t, seed = rng.next()] {
            vh::rng r(seed);
            // each thread has its favourites
            std::vector<int> mix;
            for (int k = 0; k < 3; ++k) mix.push_back(static_cast<int>(r.range(0, 8)));
            const auto total = r.range(20, 150);
            try {
                for (int n = 0; n < total; ++n) {
                    if (r.chance(30)) ::usleep(static_cast<useconds_t>(r.range(1, 60)));
                    const auto sim = static_cast<int>(r.range(0, static_cast<long long>(count) - 1));
                    const auto& vars = s.slaves[static_cast<std::size_t>(sim)].vars;
                    switch (r.chance(60) ? r.pick(mix) : static_cast<int>(r.range(0, 8))) {
                        case 0:
                        case 1: {
                            read_t x;
                            x.sim = sim;
                            x.type = static_cast<int>(r.range(0, 3));
                            for (const auto& v : vars)
                                if (static_cast<int>(v.type) == x.type && r.chance(85)) x.refs.push_back(v.ref);
                            if (x.refs.empty()) break;
                            x.lo = finished[static_cast<std::size_t>(sim)];
                            x.values = read_last(*last, sim, static_cast<variable_type>(x.type), x.refs);
                            x.hi = started[static_cast<std::size_t>(sim)];
                            reads[t].push_back(std::move(x));
                            did[t]["reads_of_last_values"]++;
                            break;
                        }
                        case 2:
                        case 3: {
                            const auto& v = r.pick(vars);
                            if (v.type != variable_type::real && v.type != variable_type::integer) break;
                            const auto len = static_cast<std::size_t>(r.range(1, 30));
                            const auto from = r.range(0, 60);
                            raw_array<cosim::step_number> st(len);
                            raw_array<cosim::time_point> tm(len);
                            raw_array<double> dv(len);
                            raw_array<int> iv(len);
                            const auto got = v.type == variable_type::real ? series->get_real_samples(sim, v.ref, from, dv.span(), st.span(), tm.span()) : series->get_integer_samples(sim, v.ref, from, iv.span(), st.span(), tm.span());
                            for (std::size_t k = 0; k < got; ++k) {
                                sample_t x{sim, K(v), st[k], ns(tm[k]), {}};
                                if (v.type == variable_type::real) x.value = dv[k];
                                else x.value = iv[k];
                                samples[t].push_back(std::move(x));
                            }
                            if (r.chance(20)) {
                                raw_array<cosim::step_number> ab(2);
                                series->get_step_numbers(sim, cosim::duration(r.range(0, 20) * s.base), ab.span());
                                if (ab[0] > ab[1]) throw vh::failed("step-numbers", cat("step numbers ", ab[0], "..", ab[1]));
                            }
                            did[t]["reads_of_time_series"]++;
                            break;
                        }
                        case 4: {
                            // (each variable is one thread's business)
                            const auto& sv = s.slaves[static_cast<std::size_t>(sink)].vars;
                            const auto k = static_cast<std::size_t>(r.range(0, static_cast<long long>(sv.size()) - 1));
                            const auto& v = sv[k];
                            if (k % nt != t || !is_in(v) || v.type == variable_type::enumeration) break;
                            if (r.chance(70)) {
                                const auto x = make_value(v.type, r.next());
                                override_with(*man, sink, v, x);
                                finals[t][K(v)] = x;
                            } else {
                                man->reset_variable(sink, v.type, v.ref);
                                finals[t][K(v)] = std::nullopt;
                            }
                            did[t]["override_requests"]++;
                            break;
                        }
                        case 5: {
                            toggle_op x;
                            x.what = static_cast<int>(r.range(0, 8)) / 4;
                            x.a = ord.tick();
                            try {
                                x.ok = true;
                                if (x.what == 0) log->start_recording();
                                else if (x.what == 1) log->stop_recording();
                                else x.ok = log->is_recording();
                            } catch (const std::exception&) {
                                x.ok = false;
                            }
                            x.z = ord.tick();
                            if (toggles[t].size() < 8) toggles[t].push_back(x);
                            else if (x.what < 2) { // (too many to check)
                                toggles[t].push_back(x);
                                did[t]["many_toggles"]++;
                            }
                            did[t]["recording_requests"]++;
                            break;
                        }
                        case 6:
                            if (r.chance(30)) {
                                b.exe->stop_simulation();
                                did[t]["stop_requests"]++;
                            } else
                                did[t][b.exe->is_running() ? "seen_running" : "seen_not_running"]++;
                            break;
                        case 7: {
                            // at most some tens of microseconds per step
                            if (r.chance(40)) config->real_time_simulation.store(r.chance(50));
                            if (r.chance(60)) config->real_time_factor_target.store(static_cast<double>(s.base) / (1000.0 * static_cast<double>(r.range(1, 60))));
                            if (r.chance(40)) config->steps_to_monitor.store(static_cast<int>(r.range(1, 20)));
                            did[t]["setting_changes"]++;
                            break;
                        }
                        default: {
                            const double a = metrics->rolling_average_real_time_factor.load(), z = metrics->total_average_real_time_factor.load();
                            if (!(a >= 0) || !(z >= 0)) throw vh::failed("metrics", cat("metrics are ", a, " and ", z));
                            did[t]["metric_reads"]++;
                        }
                    }
                }
            } catch (const vh::failed& e) {
                errors[t] = e.what();
            } catch (const std::exception& e) {
                errors[t] = e.what();
            }
            --running;
        });
    std::string failure;
    long long runs = 0, stopped = 0;
    const auto maxSteps = rng.range(30, 200);
    auto stepsDone = [&] { return (ns(b.exe->current_time()) - s.start) / s.base; };
    try {
        while (running > 0 || stepsDone() < 5) {
            const auto at = stepsDone();
            if (at >= maxSteps) {
                ::usleep(50);
                if (running == 0) break;
                continue;
            }
            const auto target = at + rng.range(1, 20);
            switch (rng.range(0, 4)) {
                case 0: b.exe->step(); break;
                case 1:
                case 2: {
                    const bool ok = b.exe->simulate_until(tp(s.start + target * s.base));
                    if (ok) VH_CHECK(stepsDone() == target, "not-reached", "simulate_until ended at step ", stepsDone(), " instead of ", target);
                    else ++stopped;
                    break;
                }
                default: {
                    auto f = b.exe->simulate_until_async(tp(s.start + target * s.base));
                    if (f.wait_for(std::chrono::seconds(20)) != std::future_status::ready) throw vh::failed("stuck", "the simulation got stuck");
                    const bool ok = f.get();
                    if (ok) VH_CHECK(stepsDone() == target, "not-reached", "simulate_until_async ended at step ", stepsDone(), " instead of ", target);
                    else ++stopped;
                }
            }
            ++runs;
        }
    } catch (const std::exception& e) {
        failure = e.what();
    }
    for (auto& t : threads) t.join();
    if (!failure.empty()) throw vh::failed("unexpected-exception", failure);
    for (const auto& e : errors) VH_CHECK(e.empty(), "thread-failed", e);
    b.exe->step(); // so that the last requests take effect...
    for (int k = 0; k < 4; ++k) b.exe->step(); // ...for all
    check_monitors(b);
    VH_CHECK(!b.exe->is_running(), "still-running", "is_running() after everything");

    // What happened, without all that.
    const auto n = stepsDone();
    ref_model m(s);
    m.initialize();
    std::vector<std::vector<value_map>> snaps(count);
    std::vector<std::map<long long, row>> rows(count);
    for (std::size_t i = 0; i < count; ++i) {
        snaps[i].push_back(m.sims[i].visible);
        rows[i][0] = {0, s.start, m.sims[i].visible};
    }
    for (long long k = 1; k <= n; ++k)
        for (int i : m.do_step()) {
            snaps[static_cast<std::size_t>(i)].push_back(m.sims[static_cast<std::size_t>(i)].visible);
            rows[static_cast<std::size_t>(i)][k] = {k, s.start + k * s.base, m.sims[static_cast<std::size_t>(i)].visible};
        }
    for (int i = 0; i < sink; ++i) {
        // every step with the same inputs
        std::size_t k = 0;
        const auto& want = m.sims[static_cast<std::size_t>(i)].effective;
        for (const auto& e : b.slaves[static_cast<std::size_t>(i)]->log) {
            if (e.what != op::step) continue;
            VH_CHECK(k < want.size(), "step-count", "simulator ", i, " made more than ", want.size(), " steps");
            for (const auto& [key_, v] : want[k]) VH_CHECK(same(e.values.at(key_), v), "results-changed", "simulator ", i, " made step ", k, " with ", show(e.values.at(key_)), " instead of ", show(v), "; ", s.text());
            ++k;
        }
        VH_CHECK(k == want.size(), "step-count", "simulator ", i, " made ", k, " steps instead of ", want.size());
    }
    long long checked = 0;
    for (std::size_t t = 0; t < nt; ++t) {
        std::map<int, int> lastHit;
        for (const auto& x : reads[t]) {
            if (x.sim == sink) continue;
            const auto& sn = snaps[static_cast<std::size_t>(x.sim)];
            int hit = -1;
            for (int j = std::max({1, x.lo, lastHit[x.sim]}); j <= x.hi && j <= static_cast<int>(sn.size()); ++j) {
                bool all = true;
                for (std::size_t q = 0; q < x.refs.size() && all; ++q) all = same(x.values[q], sn[static_cast<std::size_t>(j) - 1].at({x.type, x.refs[q]}));
                if (all) {
                    hit = j;
                    break;
                }
            }
            std::string v;
            for (const auto& y : x.values) v += show(y) + " ";
            VH_CHECK(hit > 0, "inconsistent-snapshot", "values ", v, "of simulator ", x.sim, " read between its steps ", x.lo - 1, " and ", x.hi - 1, " match no single step; ", s.text());
            lastHit[x.sim] = hit;
            ++checked;
        }
        for (const auto& x : samples[t]) {
            const auto it = rows[static_cast<std::size_t>(x.sim)].find(x.step);
            VH_CHECK(it != rows[static_cast<std::size_t>(x.sim)].end(), "sample-step", "there's a sample of simulator ", x.sim, " for step ", x.step);
            VH_CHECK(x.time == it->second.t, "sample-time", "the sample of simulator ", x.sim, " for step ", x.step, " has time ", x.time, " instead of ", it->second.t);
            if (x.sim != sink) VH_CHECK(same(x.value, it->second.values.at(x.k)), "sample-value", "the sample of simulator ", x.sim, " for step ", x.step, " is ", show(x.value), " instead of ", show(it->second.values.at(x.k)));
            ++checked;
        }
    }
    // the last requests hold
    {
        const auto& lg = b.slaves[static_cast<std::size_t>(sink)]->log;
        const event* lastStep = nullptr;
        for (const auto& e : lg)
            if (e.what == op::step) lastStep = &e;
        for (const auto& f : finals)
            for (const auto& [k, v] : f) {
                const auto* spec = s.slaves[static_cast<std::size_t>(sink)].find(static_cast<variable_type>(k.first), k.second);
                const auto& got = lastStep->values.at(k);
                if (v) VH_CHECK(same(got, *v), "override-lost", "after the last request to override it with ", show(*v), ", the variable is ", show(got), "; ", s.text());
                else {
                    // (reset: the value it would have without)
                    const auto& want = m.sims[static_cast<std::size_t>(sink)].effective.back().at(k);
                    VH_CHECK(same(got, want), "reset-lost", "after the last request to reset it, variable ", spec->name, " is ", show(got), " instead of ", show(want), "; ", s.text());
                }
                ++checked;
            }
    }
    // recording
    bool few = true;
    for (const auto& d : did) few = few && !d.count("many_toggles");
    const bool finalOn = log->is_recording();
    if (few) {
        auto hist = toggles;
        const auto e = ord.tick();
        hist.push_back({toggle_op{2, finalOn, e, ord.tick()}});
        VH_CHECK(linearizable(hist, true), "toggle-order", "no order of the recording requests explains their results");
        vh::count("recording_histories_checked");
    }
    b.exe.reset();
    log.reset();
    for (std::size_t i = 0; i < static_cast<std::size_t>(sink); ++i) {
        const auto cols = columns(s.slaves[i].vars);
        const auto hd = header(cols);
        std::set<long long> seen;
        for (const auto& f : logs_of(dir, s.slaves[i].name, true)) {
            const auto ls = lines_of(slurp(f));
            for (const auto& l : ls) {
                if (l == hd) continue;
                const auto p = split(l);
                VH_CHECK(p.size() > 1, "row", "row '", l, "'");
                const auto step = std::strtoll(p[1].c_str(), nullptr, 10);
                VH_CHECK(rows[i].count(step), "row", "row '", l, "' is for a step that wasn't");
                const auto e = check_row(l, rows[i].at(step), cols, -1);
                VH_CHECK(e.empty(), "row", "row '", l, "' has ", e);
                VH_CHECK(seen.insert(step).second, "duplicate-row", "step ", step, " of simulator ", i, " was logged twice");
                vh::count("rows_checked");
            }
        }
    }
    fs::remove_all(dir);
    vh::evaluated(checked);
    vh::count("results_checked", checked);
    vh::count("runs", runs);
    vh::count("runs_stopped", stopped);
    std::uint64_t h = shape_hash(s);
    for (const auto& d : did)
        for (const auto& [k, c] : d) {
            vh::count(k, c);
            h = vh::mix(h, static_cast<std::uint64_t>(c));
        }
    vh::distinct(h);
    vh::sample(cat(nt, " threads, ", n, " steps in ", runs, " runs of which ", stopped, " were stopped, ", checked, " results checked; ", s.text()));
}
