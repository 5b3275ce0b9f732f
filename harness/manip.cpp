// C09-C11: overrides, scenarios and scenario files.
#include "mutate.hpp"
#include "world.hpp"

#include <cosim/exception.hpp>
#include <cosim/manipulator.hpp>
#include <cosim/scenario.hpp>
#include <cosim/scenario_parser.hpp>

#include <fstream>

using namespace world;

namespace
{
struct reading_observer : cosim::observer
{
    std::map<int, cosim::observable*> sims;
    std::function<void(int, long long)> onSimStep;
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point) override { sims[i] = o; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override {}
    void variable_disconnected(cosim::variable_id, cosim::time_point) override {}
    void simulation_initialized(cosim::step_number, cosim::time_point) override {}
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override {}
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, cosim::duration, cosim::time_point) override
    {
        if (onSimStep) onSimStep(i, n);
    }
};

scalar_value read(const cosim::observable* o, const var_spec& v)
{
    switch (v.type) {
        case variable_type::real: return o->get_real(v.ref);
        case variable_type::integer: return o->get_integer(v.ref);
        case variable_type::boolean: return o->get_boolean(v.ref);
        default: return std::string(o->get_string(v.ref));
    }
}

bool overridable(const var_spec& v)
{
    return v.causality == variable_causality::input || v.causality == variable_causality::parameter || v.causality == variable_causality::output ||
        v.causality == variable_causality::calculated_parameter;
}

// What the simulators show, compared with the reference model at the end of
// every base step, for variables exposed before their last step.
struct exposure
{
    std::shared_ptr<reading_observer> obs = std::make_shared<reading_observer>();
    std::map<std::pair<int, key>, bool> exposed; // true: valid by now
    long long compared = 0;

    void expose(const system_spec& s, vh::rng& rng, int percent)
    {
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            for (const auto& v : s.slaves[i].vars)
                if (rng.chance(percent) && !exposed.count({static_cast<int>(i), K(v)})) {
                    obs->sims.at(static_cast<int>(i))->expose_for_getting(v.type, v.ref);
                    exposed[{static_cast<int>(i), K(v)}] = false;
                }
    }
    // `finished`: simulators that took a step of their own in this base step
    void compare(const system_spec& s, const ref_model& m, long long step, const std::string& story)
    {
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            const bool stepped = (step - 1) % m.factors[i] == 0; // it was called in this base step
            for (const auto& v : s.slaves[i].vars) {
                auto it = exposed.find({static_cast<int>(i), K(v)});
                if (it == exposed.end()) continue;
                if (stepped) it->second = true;
                if (!it->second) continue;
                const auto got = read(obs->sims.at(static_cast<int>(i)), v);
                const auto& want = m.sims[i].visible.at(K(v));
                VH_CHECK(same(got, want), "wrong-visible-value", "after step ", step, " simulator ", i, " variable ", v.name, " (", cosim::to_text(v.causality), ") shows ", show(got), ", expected ", show(want), "; ", story, "; ", s.text());
                ++compared;
            }
        }
    }
};

using id_set = std::set<std::tuple<int, int, value_reference>>;
id_set modified_of(const cosim::execution& e)
{
    id_set r;
    const auto v = e.get_modified_variables();
    for (const auto& x : v) r.insert({x.simulator, static_cast<int>(x.type), x.reference});
    VH_CHECK(r.size() == v.size(), "modified-duplicates", "get_modified_variables() lists a variable more than once");
    return r;
}
std::string show_ids(const id_set& s)
{
    std::string o = "{";
    for (const auto& [a, b, c] : s) o += cat(" sim", a, ":", cosim::to_text(static_cast<variable_type>(b)), c);
    return o + " }";
}

void do_override(cosim::override_manipulator& m, int sim, const var_spec& v, const scalar_value& x)
{
    switch (v.type) {
        case variable_type::real: m.override_real_variable(sim, v.ref, std::get<double>(x)); break;
        case variable_type::integer: m.override_integer_variable(sim, v.ref, std::get<int>(x)); break;
        case variable_type::boolean: m.override_boolean_variable(sim, v.ref, std::get<bool>(x)); break;
        default: m.override_string_variable(sim, v.ref, std::get<std::string>(x)); break;
    }
}

// ---- C09, requests made between steps: exact comparison.
void sequential_overrides(vh::rng& rng)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 5));
    o.maxSlaves = 5;
    o.connPercent = static_cast<int>(rng.range(20, 100));
    const auto scaled = scale_up(rng, o, 2);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(70) ? 0 : 2;
    auto b = build(s);
    auto man = std::make_shared<cosim::override_manipulator>();
    exposure ex;
    b.exe->add_observer(ex.obs);
    b.exe->add_manipulator(man);
    ex.expose(s, rng, scaled > 100 ? 15 : 60);
    ref_model m(s);
    m.initialize();
    id_set overridden;
    std::string story;
    long long requests = 0;
    const auto n = scaled ? std::max(scaled, 3ll) : rng.range(3, 30);
    const int burst = rng.chance(2) ? 300 : 4; // requests between two steps
    const int busy = n > 100 ? 3 : burst > 4 ? 100 : static_cast<int>(rng.range(5, 80));
    for (long long step = 1; step <= n; ++step) {
        for (int k = 0; k < burst && rng.chance(busy); ++k) {
            const auto i = static_cast<int>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
            const auto& v = rng.pick(s.slaves[static_cast<std::size_t>(i)].vars);
            auto& sm = m.sims[static_cast<std::size_t>(i)];
            auto& mods = is_in(v) ? sm.inMod : sm.outMod;
            const auto kind = rng.range(0, 9);
            if (!overridable(v) || kind == 9) {
                // must be refused
                bool thrown = false;
                var_spec bad = v;
                int sim = i;
                if (overridable(v)) {
                    if (rng.chance(50)) {
                        bad.ref = 77777;
                        while (s.slaves[static_cast<std::size_t>(i)].find(bad.type, bad.ref)) ++bad.ref;
                    } else
                        sim = rng.chance(50) ? -1 : static_cast<int>(s.slaves.size());
                }
                const bool reset = rng.chance(40);
                try {
                    if (reset) man->reset_variable(sim, bad.type, bad.ref);
                    else do_override(*man, sim, bad, make_value(bad.type, rng.next()));
                } catch (const std::exception&) {
                    thrown = true;
                }
                VH_CHECK(thrown, "bad-request-accepted", "a request for simulator ", sim, ", variable ref ", bad.ref, " (", cosim::to_text(bad.causality), ") was accepted; ", s.text());
                vh::count("rejected_requests");
                continue;
            }
            ++requests;
            if (kind < 6) {
                const auto x = make_value(v.type, rng.next());
                do_override(*man, i, v, x);
                mods[K(v)] = [x](const scalar_value&) { return x; };
                overridden.insert({i, static_cast<int>(v.type), v.ref});
                story += cat(" ", step, ":sim", i, ".", v.name, "=", show(x));
            } else {
                man->reset_variable(i, v.type, v.ref);
                mods.erase(K(v));
                overridden.erase({i, static_cast<int>(v.type), v.ref});
                story += cat(" ", step, ":sim", i, ".", v.name, " reset");
            }
        }
        if (n <= 100 && rng.chance(10)) ex.expose(s, rng, 40);
        b.exe->step();
        m.do_step();
        const auto got = modified_of(*b.exe);
        VH_CHECK(got == overridden, "modified-set", "after step ", step, " the modified variables are ", show_ids(got), ", expected ", show_ids(overridden), ";", story, "; ", s.text());
        ex.compare(s, m, step, story);
    }
    check_monitors(b);
    try {
        check_effective(b, m, "wrong-input");
    } catch (const vh::failed& e) {
        throw vh::failed(e.kind, std::string(e.what()) + ";" + story);
    }
    vh::evaluated();
    if (requests > 0) vh::distinct(vh::hash_str(story));
    vh::count("requests", requests);
    if (burst > 4) vh::count("scaled:many_requests");
    vh::count("values_compared", ex.compared);
    vh::sample(cat("requests:", story, "; ", s.text()));
}

// ---- C09, requests made by other threads: each thread's requests for its
// variables must take effect in order, not before they were begun and not
// after the first step begun after they had been made.
void concurrent_overrides(vh::rng& rng)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 3));
    o.minSlaves = 2;
    o.maxSlaves = 3;
    o.maxFuns = 0;
    o.connPercent = 0;
    o.initPercent = 0;
    o.delay = 80;
    auto s = gen_system(rng, o);
    s.conns.clear();
    s.workers = static_cast<int>(rng.range(0, 4));
    auto b = build(s, rng.next());
    auto man = std::make_shared<cosim::override_manipulator>();
    exposure ex;
    b.exe->add_observer(ex.obs);
    b.exe->add_manipulator(man);
    ex.expose(s, rng, 100);

    struct request
    {
        std::uint64_t begin, end;
        std::optional<scalar_value> value; // none: reset
    };
    struct target
    {
        int sim;
        var_spec v;
        std::vector<request> reqs;
        int thread;
    };
    std::vector<target> targets;
    for (std::size_t i = 0; i < s.slaves.size(); ++i)
        for (const auto& v : s.slaves[i].vars)
            if (overridable(v) && targets.size() < 8) targets.push_back({static_cast<int>(i), v, {}, 0});
    if (targets.empty()) return;
    const int nt = static_cast<int>(rng.range(1, 3));
    for (auto& t : targets) t.thread = static_cast<int>(rng.range(0, nt - 1));

    // what each simulator showed at the end of each of its steps
    struct shown
    {
        std::uint64_t stepBegin; // when the step containing it was about to begin
        std::map<key, scalar_value> values;
    };
    std::vector<std::vector<shown>> seen(s.slaves.size());
    std::vector<std::uint64_t> stepStamps;
    ex.obs->onSimStep = [&](int i, long long) {
        shown x;
        const auto f = s.factor(i);
        x.stepBegin = stepStamps[stepStamps.size() - static_cast<std::size_t>(f)];
        for (const auto& v : s.slaves[static_cast<std::size_t>(i)].vars) x.values[K(v)] = read(ex.obs->sims.at(i), v);
        seen[static_cast<std::size_t>(i)].push_back(std::move(x));
    };
    auto step = [&] {
        stepStamps.push_back(b.ord->tick());
        b.exe->step();
    };
    step();
    std::atomic<bool> stop{false};
    std::atomic<int> running{nt};
    std::vector<std::thread> ths;
    for (int t = 0; t < nt; ++t) {
        const auto seed = rng.next();
        ths.emplace_back([&, t, seed] {
            vh::rng r(seed);
            std::vector<target*> mine;
            for (auto& x : targets)
                if (x.thread == t) mine.push_back(&x);
            const auto n = r.range(5, 60);
            for (int k = 0; k < n && !mine.empty() && !stop; ++k) {
                auto& x = *mine[static_cast<std::size_t>(r.range(0, static_cast<long long>(mine.size()) - 1))];
                request q;
                if (!r.chance(25)) q.value = make_value(x.v.type, r.next());
                q.begin = b.ord->tick();
                if (q.value) do_override(*man, x.sim, x.v, *q.value);
                else man->reset_variable(x.sim, x.v.type, x.v.ref);
                q.end = b.ord->tick();
                x.reqs.push_back(std::move(q));
                if (r.chance(60)) ::usleep(static_cast<useconds_t>(r.range(0, 300)));
            }
            --running;
        });
    }
    long long steps = 1;
    for (; steps < 400 && running > 0; ++steps) step();
    stop = true;
    for (auto& t : ths) t.join();
    for (int i = 0; i < 4; ++i) step();
    steps += 4;
    check_monitors(b);

    // offline: match what was seen with the requests
    id_set expect;
    long long effects = 0;
    for (const auto& x : targets) {
        if (!x.reqs.empty() && x.reqs.back().value) expect.insert({x.sim, static_cast<int>(x.v.type), x.v.ref});
        const auto& sl = *b.slaves[static_cast<std::size_t>(x.sim)];
        // the sequence of (stamp before the base step, stamp of the step call, value, genuine value)
        std::vector<std::tuple<std::uint64_t, std::uint64_t, scalar_value, scalar_value>> obs;
        std::size_t k = 0;
        const auto f = s.factor(x.sim);
        const event* lastStep = nullptr;
        std::vector<const event*> stepsOf;
        std::vector<scalar_value> genuine;
        for (const auto& e : sl.log) {
            if (e.what == op::step) {
                stepsOf.push_back(&e);
                genuine.emplace_back();
                lastStep = &e;
            } else if (e.what == op::get && lastStep && e.values.count(K(x.v)))
                genuine.back() = e.values.at(K(x.v));
        }
        if (is_in(x.v)) {
            for (; k < stepsOf.size(); ++k) obs.emplace_back(stepStamps.at(k * static_cast<std::size_t>(f)), stepsOf[k]->begin, stepsOf[k]->values.at(K(x.v)), x.v.value0);
        } else {
            for (; k < seen[static_cast<std::size_t>(x.sim)].size(); ++k) {
                const auto& sh = seen[static_cast<std::size_t>(x.sim)][k];
                obs.emplace_back(sh.stepBegin, stepsOf[k]->begin, sh.values.at(K(x.v)), genuine[k]);
            }
        }
        int at = -1; // last request in effect
        for (const auto& [before, call, val, gen] : obs) {
            int lo = -1, hi = -1;
            for (std::size_t q = 0; q < x.reqs.size(); ++q) {
                if (x.reqs[q].end < before) lo = static_cast<int>(q);
                if (x.reqs[q].begin < call) hi = static_cast<int>(q);
            }
            int found = -2;
            for (int q = std::max(lo, at); q <= hi; ++q) {
                const auto& w = q < 0 || !x.reqs[static_cast<std::size_t>(q)].value ? gen : *x.reqs[static_cast<std::size_t>(q)].value;
                if (same(w, val)) {
                    found = q;
                    break;
                }
            }
            VH_CHECK(found != -2, "override-order", "simulator ", x.sim, " variable ", x.v.name, " (", cosim::to_text(x.v.causality), ") had value ", show(val), " (genuine ", show(gen), "), which none of its requests ", std::max(lo, at), "..", hi, " of ", x.reqs.size(), " explains; ", s.text());
            if (found != at) ++effects;
            at = found;
        }
    }
    const auto got = modified_of(*b.exe);
    VH_CHECK(got == expect, "modified-set", "after all requests the modified variables are ", show_ids(got), ", expected ", show_ids(expect), "; ", s.text());
    vh::evaluated();
    vh::count("threaded_effects", effects);
    vh::count("threaded_runs");
    std::uint64_t h = shape_hash(s);
    for (const auto& x : targets)
        for (const auto& q : x.reqs) h = vh::mix(h, q.begin);
    vh::distinct(h);
}
} // namespace


VH_PROP(C09)
{
    if (caseIndex % 5 == 4) concurrent_overrides(rng);
    else sequential_overrides(rng);
}
VH_PROP(C09T) { concurrent_overrides(rng); }


namespace
{
// A modifier that depends on everything it is given.
scalar_value tweak(const scalar_value& v, std::uint64_t id, std::int64_t dt)
{
    const auto h = vh::mix(vh::mix(id, hashv(v)), static_cast<std::uint64_t>(dt));
    return make_value(static_cast<variable_type>(v.index()), h);
}

struct ref_event
{
    std::int64_t t;
    int sim;
    var_spec v;
    bool reset;
    std::uint64_t id;
};

cosim::scenario::event real_event(const ref_event& e)
{
    cosim::scenario::event r;
    r.time = tp(e.t);
    r.action.simulator = e.sim;
    r.action.variable = e.v.ref;
    r.action.is_input = is_in(e.v);
    const auto id = e.id;
    switch (e.v.type) {
        case variable_type::real: {
            cosim::scenario::real_modifier m;
            if (!e.reset) m.f = [id](double x, cosim::duration d) { return std::get<double>(tweak(x, id, d.count())); };
            r.action.modifier = m;
            break;
        }
        case variable_type::integer: {
            cosim::scenario::integer_modifier m;
            if (!e.reset) m.f = [id](int x, cosim::duration d) { return std::get<int>(tweak(x, id, d.count())); };
            r.action.modifier = m;
            break;
        }
        case variable_type::boolean: {
            cosim::scenario::boolean_modifier m;
            if (!e.reset) m.f = [id](bool x, cosim::duration d) { return std::get<bool>(tweak(x, id, d.count())); };
            r.action.modifier = m;
            break;
        }
        default: {
            cosim::scenario::string_modifier m;
            if (!e.reset) m.f = [id](std::string_view x, cosim::duration d) { return std::get<std::string>(tweak(std::string(x), id, d.count())); };
            r.action.modifier = m;
            break;
        }
    }
    return r;
}
} // namespace


VH_PROP(C10)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 4));
    o.maxSlaves = 4;
    o.maxVars = 4;
    o.connPercent = static_cast<int>(rng.range(20, 100));
    const auto scaled = scale_up(rng, o, 2);
    auto s = gen_system(rng, o);
    s.workers = rng.chance(80) ? 0 : 2;
    auto b = build(s);
    auto man = std::make_shared<cosim::scenario_manager>();
    exposure ex;
    b.exe->add_observer(ex.obs);
    b.exe->add_manipulator(man);
    ex.expose(s, rng, scaled > 100 ? 20 : 70);
    ref_model m(s);
    m.initialize();

    // reference
    std::vector<ref_event> pending; // in order of time
    std::vector<ref_event> fired;
    bool running = false;
    std::int64_t loadedAt = 0;
    std::optional<std::int64_t> end;
    std::string story;
    long long firedCount = 0, sameStepPairs = 0, cleanups = 0;

    auto mods = [&](const ref_event& e) -> auto& {
        auto& sm = m.sims[static_cast<std::size_t>(e.sim)];
        return is_in(e.v) ? sm.inMod : sm.outMod;
    };
    auto cleanup = [&] {
        for (const auto& e : fired) mods(e).erase(K(e.v));
        cleanups += !fired.empty();
        fired.clear();
        pending.clear();
        running = false;
    };

    const auto n = scaled ? std::max(scaled, 4ll) : rng.range(4, 40);
    const bool longRun = n > 100;
    std::int64_t now = s.start;
    auto load = [&] {
        if (running) {
            cleanup(); // replaces the running scenario
            vh::count("replaced");
        }
        std::vector<ref_event> evs;
        const auto ne = rng.chance(longRun ? 50 : 6) ? rng.range(9, 400) : rng.range(0, 8);
        std::vector<std::pair<int, var_spec>> vars;
        for (std::size_t i = 0; i < s.slaves.size(); ++i)
            for (const auto& v : s.slaves[i].vars)
                if (overridable(v)) vars.push_back({static_cast<int>(i), v});
        if (rng.chance(50) && vars.size() > 2) { // few variables, many events on each
            std::swap(vars[0], vars[static_cast<std::size_t>(rng.range(0, static_cast<long long>(vars.size()) - 1))]);
            vars.resize(static_cast<std::size_t>(rng.range(1, 2)));
        }
        std::set<std::tuple<int, key, std::int64_t>> used; // no two events at the same time for one variable
        const auto span = longRun ? rng.range(1, n) : rng.range(1, 12);
        for (int k = 0; k < ne && !vars.empty(); ++k) {
            // now and then one variable has a single event among many others
            const bool lone = k == 0 && ne > 8 && vars.size() > 1;
            const auto [sim, v] = lone ? vars.back() : rng.pick(vars);
            if (lone) vars.pop_back();
            ref_event e{0, sim, v, rng.chance(20), rng.next()};
            switch (rng.range(0, 4)) {
                case 0: e.t = s.base * rng.range(0, span); break; // exactly at a step
                case 1: e.t = s.base * rng.range(0, span) + 1; break;
                case 2: e.t = s.base * rng.range(0, span) - 1; break;
                case 3: e.t = rng.range(0, span * s.base); break;
                default: e.t = s.base * (span / 2) + rng.range(0, std::max<std::int64_t>(0, s.base - 1)); break;
            }
            if (!used.insert({sim, K(v), e.t}).second) continue;
            evs.push_back(e);
        }
        end.reset();
        if (rng.chance(65)) {
            const auto k = rng.range(0, span + 4);
            end = s.base * k + (rng.chance(50) ? 0 : rng.range(-1, std::max<std::int64_t>(0, s.base - 1)));
        }
        cosim::scenario::scenario sc;
        for (const auto& e : evs) sc.events.push_back(real_event(e));
        if (end) sc.end = tp(*end);
        // relative to now, or occasionally to some other moment
        loadedAt = rng.chance(80) ? now : now + s.base * rng.range(-3, 3);
        story += cat(" [load at ", (now - s.start), " rel. to ", loadedAt - s.start, ":");
        for (const auto& e : evs) story += cat(" ", e.t, ":sim", e.sim, ".", e.v.name, e.reset ? " reset" : "");
        story += end ? cat(" end ", *end, "]") : "]";
        man->load_scenario(sc, tp(loadedAt));
        pending = evs;
        std::stable_sort(pending.begin(), pending.end(), [](const auto& a, const auto& c) { return a.t < c.t; });
        fired.clear();
        running = true;
        vh::count("scenarios");
    };
    int loads = 0;
    VH_CHECK(!man->is_scenario_running(), "running-status", "a scenario is running before any was loaded");
    for (long long step = 1; step <= n; ++step) {
        if ((step == 1 && rng.chance(70)) || (loads < 3 && rng.chance(running ? (longRun ? 0 : 4) : 30))) {
            load();
            ++loads;
        } else if (running && rng.chance(longRun ? 1 : 4) && (!longRun || rng.chance(5))) {
            man->abort_scenario();
            cleanup();
            story += cat(" [abort at ", now - s.start, "]");
            vh::count("aborts");
        }
        VH_CHECK(man->is_scenario_running() == running, "running-status", "before step ", step, " is_scenario_running() is ", man->is_scenario_running(), ";", story, "; ", s.text());
        // reference
        if (running) {
            const auto rel = now - loadedAt;
            if (pending.empty() && (!end || rel >= *end)) {
                cleanup();
            } else {
                std::map<std::pair<int, key>, int> perVar;
                while (!pending.empty() && pending.front().t <= rel) {
                    const auto e = pending.front();
                    pending.erase(pending.begin());
                    if (e.reset) mods(e).erase(K(e.v));
                    else {
                        const auto dt = s.factor(e.sim) * s.base;
                        const auto id = e.id;
                        mods(e)[K(e.v)] = [id, dt](const scalar_value& x) { return tweak(x, id, dt); };
                    }
                    fired.push_back(e);
                    ++firedCount;
                    if (++perVar[{e.sim, K(e.v)}] == 2) ++sameStepPairs;
                }
            }
        }
        b.exe->step();
        m.do_step();
        now += s.base;
        VH_CHECK(man->is_scenario_running() == running, "running-status", "after step ", step, " is_scenario_running() is ", man->is_scenario_running(), ";", story, "; ", s.text());
        id_set expect;
        for (std::size_t i = 0; i < m.sims.size(); ++i)
            for (auto* mm : {&m.sims[i].inMod, &m.sims[i].outMod})
                for (const auto& [k, f] : *mm) expect.insert({static_cast<int>(i), k.first, k.second});
        const auto got = modified_of(*b.exe);
        VH_CHECK(got == expect, "modified-set", "after step ", step, " the modified variables are ", show_ids(got), ", expected ", show_ids(expect), ";", story, "; ", s.text());
        ex.compare(s, m, step, story);
    }
    check_monitors(b);
    try {
        check_effective(b, m, "wrong-input");
    } catch (const vh::failed& e) {
        throw vh::failed(e.kind, std::string(e.what()) + ";" + story);
    }
    vh::evaluated();
    if (firedCount) vh::distinct(vh::hash_str(story));
    vh::count("events_fired", firedCount);
    vh::count("same_step_events", sameStepPairs);
    vh::count("cleanups", cleanups);
    vh::count("values_compared", ex.compared);
    vh::sample(cat(story, "; ", n, " steps; ", s.text()));
}


// ------------------------------------------------------------------- C11
namespace
{
std::string fmt_double(double d, vh::rng& rng)
{
    char b[64];
    if (d == std::floor(d) && std::fabs(d) < 1e9 && rng.chance(50)) std::snprintf(b, sizeof b, "%.0f", d);
    else std::snprintf(b, sizeof b, rng.chance(50) ? "%.17g" : "%.17e", d);
    return b;
}
std::string json_string(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') (o += '\\') += static_cast<char>(c);
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
std::string yaml_string(const std::string& s, vh::rng& rng)
{
    bool plain = !s.empty() && std::isalpha(static_cast<unsigned char>(s[0])) && s.size() > 5;
    for (unsigned char c : s) plain = plain && (std::isalnum(c) || c == '_');
    const auto k = rng.range(0, 2);
    if (plain && k == 0) return s;
    if (k == 1 && s.find('\n') == std::string::npos && s.find('\t') == std::string::npos) {
        std::string o = "'";
        for (char c : s) {
            if (c == '\'') o += '\'';
            o += c;
        }
        return o + "'";
    }
    return json_string(s);
}

struct fake_manipulable : cosim::manipulable
{
    std::string n;
    cosim::model_description d;
    std::string name() const override { return n; }
    cosim::model_description model_description() const override { return d; }
    double get_real(value_reference) const override { return 0.0; }
    int get_integer(value_reference) const override { return 0; }
    bool get_boolean(value_reference) const override { return false; }
    std::string_view get_string(value_reference) const override { return {}; }
    void expose_for_setting(variable_type, value_reference) override {}
    void expose_for_getting(variable_type, value_reference) override {}
    void set_real_input_modifier(value_reference, std::function<double(double, cosim::duration)>) override {}
    void set_integer_input_modifier(value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_input_modifier(value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_input_modifier(value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
    void set_real_output_modifier(value_reference, std::function<double(double, cosim::duration)>) override {}
    void set_integer_output_modifier(value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_output_modifier(value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_output_modifier(value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
};

struct file_event
{
    double time;
    int sim;
    var_spec v;
    int action; // 0 override, 1 bias, 2 reset
    scalar_value value;
    bool reset_has_value = false;
};
const char* actionNames[] = {"override", "bias", "reset"};

std::string value_text(const file_event& e, bool yaml, vh::rng& rng)
{
    switch (e.v.type) {
        case variable_type::real: return fmt_double(std::get<double>(e.value), rng);
        case variable_type::integer: return cat(std::get<int>(e.value));
        case variable_type::boolean: return std::get<bool>(e.value) ? "true" : "false";
        default: return yaml ? yaml_string(std::get<std::string>(e.value), rng) : json_string(std::get<std::string>(e.value));
    }
}
} // namespace


VH_PROP(C11)
{
    // models
    gen_options o;
    o.maxSlaves = 4;
    o.maxVars = 6;
    const int nSims = static_cast<int>(rng.range(1, 4));
    std::vector<slave_spec> specs;
    std::vector<fake_manipulable> mans(static_cast<std::size_t>(nSims));
    std::unordered_map<cosim::simulator_index, cosim::manipulable*> map;
    for (int i = 0; i < nSims; ++i) {
        auto sp = gen_slave(rng, o, i);
        sp.name = cat(rng.chance(50) ? "model" : "Ship.engine ", i);
        int k = 0;
        for (auto& v : sp.vars) {
            v.name = cat("variable", k++, rng.chance(30) ? "[1]" : rng.chance(30) ? ".x" : "");
            if (rng.chance(30)) v.name = cat("shared_", k); // same names in several models
        }
        mans[static_cast<std::size_t>(i)].n = sp.name;
        mans[static_cast<std::size_t>(i)].d = sp.description();
        const int idx = nSims > 1 ? (i * 3 + 2) : 0; // indices needn't be contiguous
        map[idx] = &mans[static_cast<std::size_t>(i)];
        specs.push_back(std::move(sp));
    }
    auto indexOf = [&](int i) { return nSims > 1 ? i * 3 + 2 : 0; };

    std::vector<file_event> events;
    const bool large = rng.chance(2);
    if (large) vh::count("scaled:many_events");
    const auto ne = large ? rng.range(10, 300) : rng.range(0, 9);
    for (int k = 0; k < ne; ++k) {
        file_event e;
        e.sim = static_cast<int>(rng.range(0, nSims - 1));
        auto& vs = specs[static_cast<std::size_t>(e.sim)].vars;
        e.v = rng.pick(vs);
        if (!overridable(e.v)) continue;
        switch (rng.range(0, 3)) {
            case 0: e.time = static_cast<double>(rng.range(0, 100)); break;
            case 1: e.time = rng.unit(); break;
            case 2: e.time = rng.unit() * 1e6; break;
            default: e.time = static_cast<double>(rng.range(-50, 1000)) / 8; break;
        }
        e.action = static_cast<int>(rng.range(0, 2));
        if (e.v.type == variable_type::string && e.action == 1) e.action = 0;
        switch (e.v.type) {
            case variable_type::real: e.value = rng.chance(50) ? static_cast<double>(rng.range(-1000, 1000)) / 16 : (rng.unit() - 0.5) * 1e10; break;
            case variable_type::integer: e.value = static_cast<int>(rng.range(-1000000, 1000000)); break;
            case variable_type::boolean: e.value = rng.chance(50); break;
            default: {
                std::string t;
                const auto len = rng.chance(3) ? rng.range(15, 3000) : rng.range(0, 14);
                for (int i = 0; i < len; ++i) t += " abcXYZ_0123:#'\"\\{}[],&*!|>%@-\n\t"[rng.range(0, 31)];
                e.value = t;
            }
        }
        e.reset_has_value = rng.chance(40);
        events.push_back(e);
    }
    std::optional<double> end;
    if (rng.chance(60)) end = rng.chance(50) ? static_cast<double>(rng.range(0, 200)) : rng.unit() * 1e4;

    // defaults
    std::optional<std::string> defModel, defVar, defAction;
    if (rng.chance(50)) defModel = specs[static_cast<std::size_t>(rng.range(0, nSims - 1))].name;
    if (rng.chance(50)) {
        const auto& sp = specs[static_cast<std::size_t>(rng.range(0, nSims - 1))];
        defVar = rng.pick(sp.vars).name;
    }
    if (rng.chance(50)) defAction = actionNames[rng.range(0, 2)];

    // The same scenario as JSON and as YAML.
    auto fields = [&](const file_event& e, bool yaml, vh::rng& r) {
        std::vector<std::pair<std::string, std::string>> f;
        const auto str = [&](const std::string& s) { return yaml ? yaml_string(s, r) : json_string(s); };
        const auto& sp = specs[static_cast<std::size_t>(e.sim)];
        f.push_back({"time", fmt_double(e.time, r)});
        if (defModel != sp.name || r.chance(50)) f.push_back({"model", str(sp.name)});
        if (defVar != e.v.name || r.chance(50)) f.push_back({"variable", str(e.v.name)});
        if (defAction != actionNames[e.action] || r.chance(50)) f.push_back({"action", str(actionNames[e.action])});
        if (e.action != 2 || e.reset_has_value) f.push_back({"value", value_text(e, yaml, r)});
        for (std::size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))]);
        return f;
    };
    auto flow = [&](const std::vector<std::pair<std::string, std::string>>& f) {
        std::string o = "{";
        for (std::size_t i = 0; i < f.size(); ++i) o += cat(i ? ", " : "", "\"", f[i].first, "\": ", f[i].second);
        return o + "}";
    };
    std::vector<std::pair<std::string, std::string>> defs;
    if (defModel) defs.push_back({"model", json_string(*defModel)});
    if (defVar) defs.push_back({"variable", json_string(*defVar)});
    if (defAction) defs.push_back({"action", json_string(*defAction)});
    auto jsonText = [&](vh::rng& r) {
        std::vector<std::string> parts;
        if (!defs.empty()) parts.push_back("\"defaults\": " + flow(defs));
        std::string ev = "\"events\": [";
        for (std::size_t i = 0; i < events.size(); ++i) ev += cat(i ? ",\n  " : "\n  ", flow(fields(events[i], false, r)));
        parts.push_back(ev + "\n]");
        if (end) parts.push_back("\"end\": " + fmt_double(*end, r));
        if (r.chance(30)) parts.push_back("\"description\": \"about { this\"");
        for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))]);
        std::string t = "{\n";
        for (std::size_t i = 0; i < parts.size(); ++i) t += cat(i ? ",\n" : "", parts[i]);
        return t + "\n}\n";
    };
    auto yamlText = [&](vh::rng& r) {
        std::vector<std::string> parts;
        if (!defs.empty()) {
            std::string d = "defaults:\n";
            for (const auto& [k, v] : defs) d += "  " + k + ": " + v + "\n";
            parts.push_back(d);
        }
        std::string ev = events.empty() ? "events: []\n" : "events:\n";
        for (const auto& e : events) {
            const auto f = fields(e, true, r);
            if (r.chance(25)) {
                ev += "  - {";
                for (std::size_t i = 0; i < f.size(); ++i) ev += cat(i ? ", " : "", f[i].first, ": ", f[i].second);
                ev += "}\n";
            } else
                for (std::size_t i = 0; i < f.size(); ++i) ev += cat(i ? "    " : "  - ", f[i].first, ": ", f[i].second, r.chance(10) ? "  # note" : "", "\n");
        }
        parts.push_back(ev);
        if (end) parts.push_back("end: " + fmt_double(*end, r) + "\n");
        if (r.chance(30)) parts.push_back("description: some text\n");
        for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))]);
        std::string t;
        for (auto& p : parts) t += p;
        return t;
    };
    auto parse = [&](const std::string& text, const char* ext) {
        const cosim::filesystem::path p = vh::scratch_dir() + "/scenario." + ext;
        {
            std::ofstream f(p.string(), std::ios::binary | std::ios::trunc);
            f << text;
        }
        return cosim::parse_scenario(p, map);
    };
    auto compare = [&](const cosim::scenario::scenario& sc, const std::string& text) {
        VH_CHECK(sc.end.has_value() == end.has_value(), "end-time", "end time ", sc.end ? "present" : "absent", " for\n", text);
        if (end) VH_CHECK(*sc.end == cosim::to_time_point(*end), "end-time", "end time is ", ns(*sc.end) * 1, " for\n", text);
        VH_CHECK(sc.events.size() == events.size(), "event-count", sc.events.size(), " events from\n", text);
        for (std::size_t i = 0; i < events.size(); ++i) {
            const auto& e = events[i];
            const auto& g = sc.events[i];
            const auto who = cat("event ", i, " of\n", text);
            VH_CHECK(g.time == cosim::to_time_point(e.time), "event-time", "wrong time in ", who);
            VH_CHECK(g.action.simulator == indexOf(e.sim), "event-simulator", "simulator ", g.action.simulator, " in ", who);
            VH_CHECK(g.action.variable == e.v.ref, "event-variable", "variable ", g.action.variable, " in ", who);
            VH_CHECK(g.action.is_input == is_in(e.v), "event-direction", "is_input ", g.action.is_input, " in ", who);
            VH_CHECK(g.action.modifier.index() == e.value.index(), "event-type", "modifier type ", g.action.modifier.index(), " in ", who);
            const bool has = std::visit([](const auto& m) { return static_cast<bool>(m.f); }, g.action.modifier);
            VH_CHECK(has == (e.action != 2), "event-action", "modifier ", has ? "present" : "absent", " in ", who);
            if (!has) continue;
            const cosim::duration d(rng.range(1, 1000000));
            for (int k = 0; k < 3; ++k) switch (e.v.type) {
                    case variable_type::real: {
                        const double x = (rng.unit() - 0.5) * 100, w = std::get<double>(e.value);
                        const auto got = std::get<cosim::scenario::real_modifier>(g.action.modifier).f(x, d);
                        VH_CHECK(got == (e.action == 1 ? x + w : w), "event-value", "value ", x, " becomes ", got, " in ", who);
                        break;
                    }
                    case variable_type::integer: {
                        const int x = static_cast<int>(rng.range(-1000000, 1000000)), w = std::get<int>(e.value);
                        const auto got = std::get<cosim::scenario::integer_modifier>(g.action.modifier).f(x, d);
                        VH_CHECK(got == (e.action == 1 ? x + w : w), "event-value", "value ", x, " becomes ", got, " in ", who);
                        break;
                    }
                    case variable_type::boolean: {
                        if (e.action == 1) break; // no meaning is documented
                        const auto got = std::get<cosim::scenario::boolean_modifier>(g.action.modifier).f(k & 1, d);
                        VH_CHECK(got == std::get<bool>(e.value), "event-value", "value becomes ", got, " in ", who);
                        break;
                    }
                    default: {
                        const auto got = std::get<cosim::scenario::string_modifier>(g.action.modifier).f("something", d);
                        VH_CHECK(got == std::get<std::string>(e.value), "event-value", "value becomes '", got, "' in ", who);
                    }
                }
            vh::count("events_compared");
        }
    };
    const auto j = jsonText(rng), y = yamlText(rng);
    for (int k = 0; k < 2; ++k) {
        const auto& text = k ? y : j;
        cosim::scenario::scenario sc;
        try {
            sc = parse(text, k ? "yml" : "json");
        } catch (const std::exception& e) {
            throw vh::failed("valid-rejected", cat(e.what(), " for\n", text));
        }
        compare(sc, text);
        vh::evaluated();
    }
    if (!events.empty()) vh::distinct(vh::hash_str(j));
    vh::sample(y);

    // Spoilt variants must be rejected.
    for (int k = 0; k < 3 && !events.empty(); ++k) {
        const auto i = static_cast<std::size_t>(rng.range(0, static_cast<long long>(events.size()) - 1));
        const auto saved = events[i];
        const auto savedName = specs[static_cast<std::size_t>(saved.sim)].name;
        auto oldDef = std::make_tuple(defModel, defVar, defAction, defs);
        std::string what;
        std::string text;
        const auto only = events[i];
        auto f = [&] {
            std::vector<std::pair<std::string, std::string>> f = {
                {"time", fmt_double(only.time, rng)}, {"model", json_string(savedName)}, {"variable", json_string(only.v.name)},
                {"action", json_string(actionNames[only.action])}, {"value", value_text(only, false, rng)}};
            return f;
        }();
        const auto kind = rng.range(0, 11);
        switch (kind) {
            case 0: what = "unknown model"; f[1].second = "\"nosuchmodel\""; break;
            case 1: what = "unknown variable"; f[2].second = "\"nosuchvariable\""; break;
            case 2: what = "unknown action"; f[3].second = "\"nosuchaction\""; break;
            case 3: what = "no time"; f.erase(f.begin()); break;
            case 4: what = "no model"; f.erase(f.begin() + 1); break;
            case 5: what = "no variable"; f.erase(f.begin() + 2); break;
            case 6: what = "no action"; f.erase(f.begin() + 3); break;
            case 7:
                what = "no value";
                if (only.action == 2) continue;
                f.erase(f.begin() + 4);
                break;
            case 8:
                what = "value of a wrong type";
                if (only.action == 2 || only.v.type == variable_type::string) continue;
                f[4].second = rng.chance(50) ? "\"xyz\"" : "[1, 2]";
                break;
            case 9: what = "time of a wrong type"; f[0].second = rng.chance(50) ? "\"soon\"" : "{\"a\": 1}"; break;
            case 10: {
                what = "variable that can't be modified";
                const var_spec* v = nullptr;
                for (const auto& x : specs[static_cast<std::size_t>(only.sim)].vars)
                    if (!overridable(x)) v = &x;
                if (!v) continue;
                // names may be shared within the model
                bool unique = true;
                for (const auto& x : specs[static_cast<std::size_t>(only.sim)].vars) unique = unique && (&x == v || x.name != v->name);
                if (!unique) continue;
                f[2].second = json_string(v->name);
                f[3].second = "\"reset\"";
                break;
            }
            default:
                what = "bias for a string";
                if (only.v.type != variable_type::string) continue;
                f[3].second = "\"bias\"";
                break;
        }
        text = "{\"events\": [" + flow(f) + "]}";
        if (rng.chance(10)) {
            what = "truncated file";
            text = j.substr(0, j.size() / 2 + static_cast<std::size_t>(rng.range(0, static_cast<long long>(j.size()) / 2 - 3)));
        }
        bool thrown = false;
        try {
            parse(text, "json");
        } catch (const std::exception&) {
            thrown = true;
        }
        VH_CHECK(thrown, "bad-accepted:" + what, "accepted: ", text);
        vh::count("rejected_files");
        vh::evaluated();
        vh::distinct(vh::hash_str(text));
    }
    if (rng.chance(5)) {
        bool thrown = false;
        try {
            cosim::parse_scenario(vh::scratch_dir() + "/no/such/file.json", map);
        } catch (const std::exception&) {
            thrown = true;
        }
        VH_CHECK(thrown, "bad-accepted:missing file", "a file that doesn't exist was accepted");
    }
}


// C32, scenario files
VH_PROP(C32S)
{
    gen_options o;
    o.maxVars = 6;
    std::vector<slave_spec> specs;
    std::vector<fake_manipulable> mans(3);
    std::unordered_map<cosim::simulator_index, cosim::manipulable*> map;
    for (int i = 0; i < 3; ++i) {
        specs.push_back(gen_slave(rng, o, i));
        mans[static_cast<std::size_t>(i)].n = specs.back().name;
        mans[static_cast<std::size_t>(i)].d = specs.back().description();
        map[i] = &mans[static_cast<std::size_t>(i)];
    }
    auto text = [&](bool yaml) {
        auto name = [&](const std::string& s) { return yaml && rng.chance(50) ? yaml_string(s, rng) : json_string(s); };
        std::string t = yaml ? "" : "{";
        const auto& sp0 = rng.pick(specs);
        const bool defs = rng.chance(50);
        if (defs) {
            if (yaml) t += "defaults: " + std::string(rng.chance(30) ? "&d" : "") + "\n  model: " + name(sp0.name) + "\n  action: override\n";
            else t += "\"defaults\": {\"model\": " + name(sp0.name) + ", \"action\": \"override\"},\n";
        }
        t += yaml ? "events:\n" : "\"events\": [\n";
        const auto n = rng.range(1, 6);
        for (int k = 0; k < n; ++k) {
            const auto& sp = defs && rng.chance(50) ? sp0 : rng.pick(specs);
            const auto& v = rng.pick(sp.vars);
            file_event e{rng.unit() * 100, 0, v, static_cast<int>(rng.range(0, 2)), v.value0, true};
            if (v.type == variable_type::enumeration) e.value = 1;
            if (!overridable(v) && rng.chance(90)) {
                --k;
                if (rng.chance(20)) break;
                continue;
            }
            std::vector<std::pair<std::string, std::string>> f = {{"time", fmt_double(e.time, rng)}, {"variable", name(v.name)}, {"value", v.type == variable_type::enumeration ? "1" : value_text(e, yaml, rng)}};
            if (&sp != &sp0 || !defs || rng.chance(30)) f.push_back({"model", name(sp.name)});
            if (!defs || rng.chance(30)) f.push_back({"action", name(actionNames[e.action])});
            if (yaml) {
                for (std::size_t i = 0; i < f.size(); ++i) t += cat(i ? "    " : "  - ", f[i].first, ": ", f[i].second, "\n");
            } else {
                t += k ? ",\n{" : "{";
                for (std::size_t i = 0; i < f.size(); ++i) t += cat(i ? ", " : "", "\"", f[i].first, "\": ", f[i].second);
                t += "}";
            }
        }
        if (!yaml) t += "]";
        if (rng.chance(60)) t += yaml ? "end: 17.5\n" : ",\n\"end\": 17.5";
        return t + (yaml ? "" : "}\n");
    };
    for (int k = 0; k < 12; ++k) {
        const bool yaml = rng.chance(60);
        const auto doc = rng.chance(90) ? vh::mutate(rng, text(yaml), text(yaml)) : text(yaml);
        const std::string p = vh::scratch_dir() + (rng.chance(50) ? "/scenario.yml" : "/scenario.json");
        std::ofstream(p, std::ios::binary | std::ios::trunc) << doc;
        vh::context(doc);
        vh::distinct(vh::hash_str(doc));
        if (rng.chance(2)) vh::sample(doc.substr(0, 200));
        cosim::scenario::scenario sc;
        if (!vh::survives("scenario", [&] { sc = cosim::parse_scenario(p, map); })) continue;
        // use it
        for (const auto& e : sc.events) {
            VH_CHECK(map.count(e.action.simulator), "bad-index", "an event refers to simulator ", e.action.simulator);
            std::visit([&](const auto& m) {
                if (!m.f) return;
                using M = std::decay_t<decltype(m)>;
                if constexpr (std::is_same_v<M, cosim::scenario::real_modifier>) m.f(1.5, cosim::duration(1));
                else if constexpr (std::is_same_v<M, cosim::scenario::integer_modifier>) m.f(0, cosim::duration(1));
                else if constexpr (std::is_same_v<M, cosim::scenario::boolean_modifier>) m.f(true, cosim::duration(1));
                else m.f("x", cosim::duration(1));
            }, e.action.modifier);
            vh::count("events_accepted");
        }
    }
}
