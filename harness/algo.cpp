// C34: reconfiguration of the fixed-step algorithm, observed through the
// simulator and function interfaces it drives.
#include "world.hpp"

using namespace world;

namespace
{
struct fake_sim : cosim::simulator
{
    std::string simName;
    std::uint64_t id = 0;
    std::map<key, bool> isInput; // variables
    std::set<key> readable, writable; // exposed
    value_map outputs;
    value_map setNow; // set since the last check
    std::vector<std::pair<std::int64_t, std::int64_t>> stepsNow; // do_step calls since the last check
    int setups = 0, starts = 0, iterations = 0, steps = 0;
    std::int64_t setupTime = 0;
    bool removed = false;
    mutable std::vector<std::string> problems;
    int delay = 0;

    void touch(const char* what) const
    {
        if (removed) problems.push_back(cat(what, " called on ", simName, " after it was removed"));
    }
    void update()
    {
        for (const auto& [k, in] : isInput)
            if (!in) outputs[k] = make_value(static_cast<variable_type>(k.first), vh::mix(vh::mix(id, k.second * 8 + static_cast<unsigned>(k.first)), static_cast<std::uint64_t>(steps)));
    }

    std::string name() const override { return simName; }
    cosim::model_description model_description() const override
    {
        touch("model_description");
        return {};
    }
    void expose_for_getting(variable_type t, value_reference r) override
    {
        touch("expose_for_getting");
        if (!isInput.count({static_cast<int>(t), r})) problems.push_back("unknown variable exposed for reading");
        readable.insert({static_cast<int>(t), r});
    }
    void expose_for_setting(variable_type t, value_reference r) override
    {
        touch("expose_for_setting");
        const auto it = isInput.find({static_cast<int>(t), r});
        if (it == isInput.end() || !it->second) problems.push_back("unknown variable or output exposed for writing");
        writable.insert({static_cast<int>(t), r});
    }
    const scalar_value& get(variable_type t, value_reference r) const
    {
        touch("get");
        const key k{static_cast<int>(t), r};
        if (!readable.count(k)) problems.push_back(cat("variable ", r, " of ", simName, " read without having been exposed"));
        const auto it = outputs.find(k);
        if (it == outputs.end()) throw std::out_of_range("no such output");
        return it->second;
    }
    double get_real(value_reference r) const override { return std::get<double>(get(variable_type::real, r)); }
    int get_integer(value_reference r) const override { return std::get<int>(get(variable_type::integer, r)); }
    bool get_boolean(value_reference r) const override { return std::get<bool>(get(variable_type::boolean, r)); }
    std::string_view get_string(value_reference r) const override { return std::get<std::string>(get(variable_type::string, r)); }
    void set(variable_type t, value_reference r, scalar_value v)
    {
        touch("set");
        const key k{static_cast<int>(t), r};
        if (!writable.count(k)) problems.push_back(cat("variable ", r, " of ", simName, " set without having been exposed"));
        setNow[k] = std::move(v);
    }
    void set_real(value_reference r, double v) override { set(variable_type::real, r, v); }
    void set_integer(value_reference r, int v) override { set(variable_type::integer, r, v); }
    void set_boolean(value_reference r, bool v) override { set(variable_type::boolean, r, v); }
    void set_string(value_reference r, std::string_view v) override { set(variable_type::string, r, std::string(v)); }

    void set_real_input_modifier(value_reference, std::function<double(double, cosim::duration)>) override { touch("modifier"); }
    void set_integer_input_modifier(value_reference, std::function<int(int, cosim::duration)>) override { touch("modifier"); }
    void set_boolean_input_modifier(value_reference, std::function<bool(bool, cosim::duration)>) override { touch("modifier"); }
    void set_string_input_modifier(value_reference, std::function<std::string(std::string_view, cosim::duration)>) override { touch("modifier"); }
    void set_real_output_modifier(value_reference, std::function<double(double, cosim::duration)>) override { touch("modifier"); }
    void set_integer_output_modifier(value_reference, std::function<int(int, cosim::duration)>) override { touch("modifier"); }
    void set_boolean_output_modifier(value_reference, std::function<bool(bool, cosim::duration)>) override { touch("modifier"); }
    void set_string_output_modifier(value_reference, std::function<std::string(std::string_view, cosim::duration)>) override { touch("modifier"); }
    std::unordered_set<value_reference> none;
    const std::unordered_set<value_reference>& get_modified_real_variables() const override { return none; }
    const std::unordered_set<value_reference>& get_modified_integer_variables() const override { return none; }
    const std::unordered_set<value_reference>& get_modified_boolean_variables() const override { return none; }
    const std::unordered_set<value_reference>& get_modified_string_variables() const override { return none; }

    void setup(cosim::time_point t, std::optional<cosim::time_point>, std::optional<double>) override
    {
        touch("setup");
        ++setups;
        setupTime = ns(t);
    }
    void do_iteration() override
    {
        touch("do_iteration");
        ++iterations;
    }
    void start_simulation() override
    {
        touch("start_simulation");
        ++starts;
    }
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        touch("do_step");
        if (delay) ::usleep(static_cast<useconds_t>(delay));
        stepsNow.emplace_back(ns(t), dt.count());
        ++steps;
        update();
        return cosim::step_result::complete;
    }
};

struct c34_sim
{
    std::unique_ptr<fake_sim> fake;
    bool present = true;
    int factor = 1;
};
} // namespace


VH_PROP(C34)
{
    const std::int64_t base = rng.chance(50) ? 1000000 : rng.range(1, 1000000000);
    const std::int64_t start = rng.chance(60) ? 0 : rng.range(-1000000000, 1000000000);
    const int workers = rng.chance(80) ? 0 : static_cast<int>(rng.range(1, 3));
    cosim::fixed_step_algorithm algo{cosim::duration(base), static_cast<unsigned>(workers)};
    const bool large = rng.chance(3);
    if (large) vh::count("scaled:large_systems");
    const int maxFactor = static_cast<int>(large && rng.chance(50) ? rng.range(5, 12) : rng.range(1, 4));
    const int maxVars = static_cast<int>(large ? rng.range(6, 40) : 6);
    std::string story = cat("base ", base, ", workers ", workers, ";");

    std::vector<c34_sim> sims;
    std::vector<std::unique_ptr<vfunction>> funs;
    const bool realsOnly = rng.chance(50);
    auto addSim = [&](int index, int hintFactor) {
        auto f = std::make_unique<fake_sim>();
        f->simName = cat("sim", index);
        f->id = rng.next();
        f->delay = workers ? static_cast<int>(rng.range(0, 30)) : 0;
        const int n = static_cast<int>(rng.range(2, maxVars));
        for (int k = 0; k < n; ++k)
            f->isInput[{realsOnly ? 0 : static_cast<int>(rng.range(0, 3)), static_cast<value_reference>(rng.range(0, maxVars - 1))}] = rng.chance(50);
        f->update();
        algo.add_simulator(index, f.get(), hintFactor ? cosim::duration(base * hintFactor) : cosim::duration(0));
        story += cat(" +sim", index, "x", std::max(1, hintFactor));
        return c34_sim{std::move(f), true, std::max(1, hintFactor)};
    };
    const int n = static_cast<int>(large ? rng.range(2, 40) : rng.range(2, 6));
    for (int i = 0; i < n; ++i) sims.push_back(addSim(i, static_cast<int>(rng.range(0, maxFactor))));
    const int nf = static_cast<int>(rng.range(0, large ? 12 : 3));
    for (int i = 0; i < nf; ++i) {
        funs.push_back(std::make_unique<vfunction>(gen_function(rng, realsOnly)));
        algo.add_function(i, funs.back().get());
    }

    std::map<std::string, conn> conns; // by target
    std::vector<std::map<fun_key, scalar_value>> funVals; // expected
    for (const auto& f : funs) funVals.push_back(f->vals);
    auto funFactor = [&](int f) {
        int l = 1;
        for (const auto& [k, c] : conns)
            if (c.from.isFun && c.from.index == f) l = std::lcm(l, sims[static_cast<std::size_t>(c.to.index)].factor);
        return l;
    };
    auto ports = [&](bool source) {
        std::vector<port> ps;
        for (std::size_t i = 0; i < sims.size(); ++i) {
            if (!sims[i].present) continue;
            for (const auto& [k, in] : sims[i].fake->isInput)
                if (in != source) {
                    port p;
                    p.index = static_cast<int>(i);
                    p.type = static_cast<variable_type>(k.first);
                    p.ref = k.second;
                    ps.push_back(p);
                }
        }
        for (std::size_t i = 0; i < funs.size(); ++i)
            for (const auto& io : funs[i]->spec.ios)
                if (io.isInput != source) {
                    port p;
                    p.isFun = true;
                    p.index = static_cast<int>(i);
                    p.type = io.type;
                    p.io = io.ref;
                    ps.push_back(p);
                }
        return ps;
    };
    long long step = 0;
    bool initialized = false;
    std::set<std::string> kinds;
    auto reconfigure = [&] {
        switch (rng.range(0, 9)) {
            case 0:
            case 1:
            case 2:
            case 3: { // connect
                auto so = ports(true), ta = ports(false);
                if (so.empty() || ta.empty()) return;
                for (int k = 0; k < 12; ++k) {
                    conn c;
                    c.from = rng.pick(so);
                    c.to = rng.pick(ta);
                    if (c.from.type != c.to.type || (c.from.isFun && c.to.isFun) || conns.count(show(c.to))) continue;
                    if (c.from.isFun) algo.connect_variables(c.from.fun_id(), c.to.sim_id());
                    else if (c.to.isFun) algo.connect_variables(c.from.sim_id(), c.to.fun_id());
                    else algo.connect_variables(c.from.sim_id(), c.to.sim_id());
                    conns[show(c.to)] = c;
                    story += cat(" ", show(c.from), "->", show(c.to));
                    if (initialized) kinds.insert("connect");
                    vh::count("connects");
                    return;
                }
                return;
            }
            case 4:
            case 5:
            case 6: { // disconnect, sometimes what isn't connected
                if (rng.chance(15) || conns.empty()) {
                    auto ta = ports(false);
                    if (ta.empty()) return;
                    const auto t = rng.pick(ta);
                    if (t.isFun) algo.disconnect_variable(t.fun_id());
                    else algo.disconnect_variable(t.sim_id());
                    conns.erase(show(t));
                    story += cat(" x", show(t));
                    return;
                }
                auto it = conns.begin();
                std::advance(it, rng.range(0, static_cast<long long>(conns.size()) - 1));
                const auto c = it->second;
                if (c.to.isFun) algo.disconnect_variable(c.to.fun_id());
                else algo.disconnect_variable(c.to.sim_id());
                conns.erase(it);
                story += cat(" x", show(c.to));
                kinds.insert(c.from.isFun ? "disconnect_fs" : c.to.isFun ? "disconnect_sf" : "disconnect_ss");
                vh::count(c.from.isFun ? "disconnects_fs" : c.to.isFun ? "disconnects_sf" : "disconnects_ss");
                return;
            }
            case 7: { // remove a simulator
                std::vector<int> p;
                for (std::size_t i = 0; i < sims.size(); ++i)
                    if (sims[i].present) p.push_back(static_cast<int>(i));
                if (p.size() < 2 || rng.chance(40)) return;
                const int i = rng.pick(p);
                auto& x = sims[static_cast<std::size_t>(i)];
                algo.remove_simulator(i);
                x.fake->removed = true;
                x.present = false;
                for (auto it = conns.begin(); it != conns.end();) {
                    const auto& c = it->second;
                    if ((!c.from.isFun && c.from.index == i) || (!c.to.isFun && c.to.index == i)) it = conns.erase(it);
                    else ++it;
                }
                story += cat(" -sim", i);
                kinds.insert("remove");
                vh::count("removals");
                if (!initialized && rng.chance(50)) {
                    // the index can be used again
                    if (!x.fake->problems.empty()) throw vh::failed("removed-simulator-used", x.fake->problems[0] + "; " + story);
                    x.fake.release(); // kept alive: it must not be called any more
                    x = addSim(i, static_cast<int>(rng.range(0, maxFactor)));
                    kinds.insert("readd");
                }
                return;
            }
            default: { // change a step multiple, where this is well defined
                const auto i = static_cast<std::size_t>(rng.range(0, static_cast<long long>(sims.size()) - 1));
                const int f = static_cast<int>(rng.range(1, maxFactor));
                auto& x = sims[i];
                if (!x.present || step % std::lcm<long long>(f, x.factor) != 0) return;
                algo.set_stepsize_decimation_factor(static_cast<int>(i), f);
                story += cat(" sim", i, "x", f);
                if (f != x.factor) {
                    kinds.insert(initialized ? "factor" : "factor0");
                    vh::count("factor_changes");
                }
                x.factor = f;
                return;
            }
        }
    };
    auto value = [&](const port& p) { return sims[static_cast<std::size_t>(p.index)].fake->outputs.at({static_cast<int>(p.type), p.ref}); };
    auto checkTransfers = [&](bool all) {
        // What must have been set, given the outputs as they are now.
        std::vector<value_map> want(sims.size());
        auto due = [&](long long a, long long b) { return step % std::lcm<long long>(a, b) == 0; };
        for (const auto& [k, c] : conns) {
            if (c.from.isFun) continue;
            const int sf = sims[static_cast<std::size_t>(c.from.index)].factor;
            if (c.to.isFun) {
                if (due(sf, funFactor(c.to.index))) funVals[static_cast<std::size_t>(c.to.index)][rk(c.to.io)] = value(c.from);
            } else if (due(sf, sims[static_cast<std::size_t>(c.to.index)].factor)) {
                want[static_cast<std::size_t>(c.to.index)][{static_cast<int>(c.to.type), c.to.ref}] = value(c.from);
            }
        }
        for (std::size_t f = 0; f < funs.size(); ++f) {
            if (step % funFactor(static_cast<int>(f)) != 0) continue;
            compute_function(funs[f]->spec, funVals[f]);
            for (const auto& [k, c] : conns)
                if (c.from.isFun && c.from.index == static_cast<int>(f)) want[static_cast<std::size_t>(c.to.index)][{static_cast<int>(c.to.type), c.to.ref}] = funVals[f].at(rk(c.from.io));
        }
        for (std::size_t i = 0; i < sims.size(); ++i) {
            auto& s = *sims[i].fake;
            if (!s.problems.empty()) throw vh::failed(sims[i].present ? "simulator-protocol" : "removed-simulator-used", s.problems[0] + " at step " + std::to_string(step) + "; " + story);
            if (!sims[i].present) continue;
            for (const auto& [k, v] : want[i]) {
                const auto it = s.setNow.find(k);
                VH_CHECK(it != s.setNow.end(), "missing-transfer", "input ", k.second, " (type ", k.first, ") of sim", i, " was not set at step ", step, "; ", story);
                VH_CHECK(same(it->second, v), "wrong-transfer", "input ", k.second, " (type ", k.first, ") of sim", i, " was set to ", show(it->second), " at step ", step, ", expected ", show(v), "; ", story);
                vh::count("values_transferred");
            }
            for (const auto& [k, v] : s.setNow)
                VH_CHECK(want[i].count(k), "unexpected-transfer", "input ", k.second, " (type ", k.first, ") of sim", i, " was set to ", show(v), " at step ", step, "; ", story);
            s.setNow.clear();
        }
        for (std::size_t f = 0; f < funs.size(); ++f) {
            if (!funs[f]->problems.empty()) throw vh::failed("function-protocol", funs[f]->problems[0] + "; " + story);
            for (const auto& io : funs[f]->spec.ios)
                if (io.isInput) VH_CHECK(same(funs[f]->vals.at(rk(io.ref)), funVals[f].at(rk(io.ref))), "function-input", "input (", io.ref.group, ".", io.ref.group_instance, ".", io.ref.io, ".", io.ref.io_instance, ") of function ", f, " is ", show(funs[f]->vals.at(rk(io.ref))), " at step ", step, ", expected ", show(funVals[f].at(rk(io.ref))), "; ", story);
        }
        (void)all;
    };

    for (auto k = rng.range(0, large ? 300 : 20); k > 0; --k) reconfigure();
    algo.setup(tp(start), std::nullopt);
    for (auto k = rng.range(0, large ? 60 : 6); k > 0; --k) reconfigure();
    algo.initialize();
    initialized = true;
    story += " init;";
    for (std::size_t i = 0; i < sims.size(); ++i) {
        if (!sims[i].present) continue;
        const auto& s = *sims[i].fake;
        VH_CHECK(s.setups == 1 && s.setupTime == start && s.starts == 1 && s.iterations >= 1 && s.steps == 0, "initialisation", "sim", i, ": ", s.setups, " setups, ", s.iterations, " iterations, ", s.starts, " starts, ", s.steps, " steps; ", story);
    }
    checkTransfers(true);

    const auto rounds = large ? rng.range(5, 400) : rng.range(5, 50);
    for (long long k = 0; k < rounds; ++k) {
        if (rng.chance(35))
            for (auto j = rng.range(1, 3); j > 0; --j) reconfigure();
        const auto t = start + step * base;
        const auto [dt, finished] = algo.do_step(tp(t));
        VH_CHECK(dt.count() == base, "base-step", "do_step returned ", dt.count());
        ++step;
        story += ".";
        for (std::size_t i = 0; i < sims.size(); ++i) {
            auto& s = *sims[i].fake;
            const bool begins = sims[i].present && (step - 1) % sims[i].factor == 0;
            const bool ends = sims[i].present && step % sims[i].factor == 0;
            if (begins)
                VH_CHECK(s.stepsNow.size() == 1 && s.stepsNow[0].first == t && s.stepsNow[0].second == base * sims[i].factor, "step", "sim", i, " was asked for ", s.stepsNow.size(), " steps (expected one of ", base * sims[i].factor, " ns at ", t, ") at step ", step - 1, "; ", story);
            else
                VH_CHECK(s.stepsNow.empty(), sims[i].present ? "unexpected-step" : "removed-simulator-used", "sim", i, " was stepped at step ", step - 1, "; ", story);
            s.stepsNow.clear();
            VH_CHECK((finished.count(static_cast<int>(i)) > 0) == ends, "finished-set", "sim", i, finished.count(static_cast<int>(i)) ? " is" : " isn't", " in the set of finished simulators after ", step, " steps; ", story);
        }
        checkTransfers(false);
        vh::evaluated();
    }
    for (const auto& k : kinds) vh::count("runs_with_" + k);
    if (!kinds.empty()) vh::distinct(vh::hash_str(story));
    vh::sample(story);
}
