// C23: system structures against a reference model.
// C24: injection of system structures into executions.
// C27: the built-in functions.
#include "world.hpp"

#include <cosim/exception.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/utility.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>

using namespace world;

namespace
{
using cosim::full_variable_name;
using cosim::function_parameter_type;
using cosim::function_parameter_value;
using cosim::function_parameter_value_map;

std::string showp(const function_parameter_value& v)
{
    switch (v.index()) {
        case 0: return cat("real ", std::get<double>(v));
        case 1: return cat("int ", std::get<int>(v));
        default: return cat("type ", cosim::to_text(std::get<variable_type>(v)));
    }
}
std::string showp(const function_parameter_value_map& m)
{
    std::string s = "{";
    for (int i = 0; i < 12; ++i)
        if (m.count(i)) s += cat(i, "=", showp(m.at(i)), " ");
    return s + "}";
}

// A model which hands out instrumented slaves and remembers them.
struct vmodel : cosim::model
{
    slave_spec spec;
    std::shared_ptr<const cosim::model_description> descr;
    std::shared_ptr<order> ord;
    std::vector<std::pair<std::string, std::shared_ptr<vslave>>> instances;
    std::function<void(vslave&)> onInstantiate;

    vmodel(slave_spec s, std::shared_ptr<order> o) : spec(std::move(s)), ord(std::move(o))
    {
        descr = std::make_shared<cosim::model_description>(spec.description());
    }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return descr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view name) override
    {
        auto s = std::make_shared<vslave>(spec, ord);
        instances.emplace_back(std::string(name), s);
        if (onInstantiate) onInstantiate(*s);
        return s;
    }
};

// A function type with parameters, which may decide the numbers and types of
// its variables.
struct vfuntype : cosim::function_type
{
    cosim::function_type_description descr;
    std::uint64_t id = 0;
    std::vector<std::pair<function_parameter_value_map, vfunction*>> instances;
    std::vector<std::weak_ptr<int>> dummy;

    cosim::function_type_description description() const override { return descr; }

    const function_parameter_value& value(const function_parameter_value_map& m, int i) const
    {
        const auto it = m.find(i);
        return it == m.end() ? descr.parameters.at(static_cast<std::size_t>(i)).default_value : it->second;
    }
    template<typename T>
    T resolve(const std::variant<T, cosim::function_parameter_placeholder>& x, const function_parameter_value_map& m) const
    {
        if (x.index() == 0) return std::get<0>(x);
        return std::get<T>(value(m, std::get<1>(x).parameter_index));
    }
    fun_spec spec(const function_parameter_value_map& m) const
    {
        fun_spec f;
        f.id = id;
        for (int i = 0; i < static_cast<int>(descr.parameters.size()); ++i) {
            const auto& v = value(m, i);
            if (v.index() == 0) f.id = vh::mix(f.id, hashv(std::get<double>(v)));
            else if (v.index() == 1) f.id = vh::mix(f.id, static_cast<std::uint32_t>(std::get<int>(v)));
            else f.id = vh::mix(f.id, static_cast<std::uint64_t>(std::get<2>(v)) + 77);
        }
        for (int g = 0; g < static_cast<int>(descr.io_groups.size()); ++g) {
            const auto& gd = descr.io_groups[static_cast<std::size_t>(g)];
            cosim::function_io_group_description og;
            og.name = gd.name;
            const int gc = resolve<int>(gd.count, m);
            og.count = gc;
            for (int i = 0; i < static_cast<int>(gd.ios.size()); ++i) {
                const auto& io = gd.ios[static_cast<std::size_t>(i)];
                cosim::function_io_description d;
                d.name = io.name;
                const auto t = resolve<variable_type>(io.type, m);
                d.type = t;
                d.causality = io.causality;
                const int ic = resolve<int>(io.count, m);
                d.count = ic;
                og.ios.push_back(d);
                for (int a = 0; a < gc; ++a)
                    for (int b = 0; b < ic; ++b)
                        f.ios.push_back({t, cosim::function_io_reference{g, a, i, b}, io.causality == variable_causality::input});
            }
            f.groups.push_back(og);
        }
        return f;
    }
    std::unique_ptr<cosim::function> instantiate(const function_parameter_value_map& m) override
    {
        auto f = std::make_unique<vfunction>(spec(m));
        instances.emplace_back(m, f.get());
        return f;
    }
};

bool acceptable(const cosim::function_type_description& d, const function_parameter_value_map& m)
{
    for (const auto& [i, v] : m) {
        if (i < 0 || i >= static_cast<int>(d.parameters.size())) continue;
        const auto& p = d.parameters[static_cast<std::size_t>(i)];
        if (v.index() != static_cast<std::size_t>(p.type)) return false;
        if (p.type == function_parameter_type::real) {
            if (p.min_value && std::get<double>(v) < std::get<double>(*p.min_value)) return false;
            if (p.max_value && std::get<double>(v) > std::get<double>(*p.max_value)) return false;
        } else if (p.type == function_parameter_type::integer) {
            if (p.min_value && std::get<int>(v) < std::get<int>(*p.min_value)) return false;
            if (p.max_value && std::get<int>(v) > std::get<int>(*p.max_value)) return false;
        }
    }
    return true;
}

std::shared_ptr<vfuntype> gen_funtype(vh::rng& r, bool forRunning)
{
    auto f = std::make_shared<vfuntype>();
    f->id = r.next();
    const int np = static_cast<int>(r.range(0, 5));
    std::vector<int> counts, types;
    for (int i = 0; i < np; ++i) {
        cosim::function_parameter_description p;
        p.name = cat("p", i);
        switch (r.range(0, 3)) {
            case 0: {
                p.type = function_parameter_type::real;
                const double a = static_cast<double>(r.range(-40, 40)) / 4, b = a + static_cast<double>(r.range(0, 40)) / 4;
                p.default_value = (a + b) / 2;
                if (r.chance(60)) p.min_value = a;
                if (r.chance(60)) p.max_value = b;
                break;
            }
            case 1: {
                p.type = function_parameter_type::type;
                p.default_value = static_cast<variable_type>(r.range(0, 3));
                types.push_back(i);
                break;
            }
            default: {
                p.type = function_parameter_type::integer;
                const int a = static_cast<int>(r.range(0, 2)), b = static_cast<int>(r.range(a, 5));
                p.default_value = static_cast<int>(r.range(a, b));
                if (r.chance(75)) p.min_value = a;
                if (r.chance(75)) p.max_value = b;
                if (!forRunning || (p.min_value && p.max_value)) counts.push_back(i);
                break;
            }
        }
        f->descr.parameters.push_back(p);
    }
    auto count = [&](int max) -> std::variant<int, cosim::function_parameter_placeholder> {
        if (!counts.empty() && r.chance(50)) return cosim::function_parameter_placeholder{r.pick(counts)};
        return static_cast<int>(r.range(1, max));
    };
    const int ng = static_cast<int>(r.range(1, 3));
    for (int g = 0; g < ng; ++g) {
        cosim::function_io_group_description gd;
        gd.name = cat("g", g);
        gd.count = count(3);
        const int ni = static_cast<int>(r.range(1, 3));
        for (int i = 0; i < ni; ++i) {
            cosim::function_io_description d;
            d.name = (ni == 1 && r.chance(50)) ? std::string() : cat("v", i);
            if (!types.empty() && r.chance(50)) d.type = cosim::function_parameter_placeholder{r.pick(types)};
            else d.type = static_cast<variable_type>(r.range(0, 3));
            d.causality = r.chance(50) ? variable_causality::input : variable_causality::output;
            d.count = count(2);
            gd.ios.push_back(d);
        }
        f->descr.io_groups.push_back(gd);
    }
    return f;
}

function_parameter_value_map gen_params(vh::rng& r, const cosim::function_type_description& d, int spoilPercent)
{
    function_parameter_value_map m;
    for (int i = 0; i < static_cast<int>(d.parameters.size()); ++i) {
        if (r.chance(40)) continue;
        const auto& p = d.parameters[static_cast<std::size_t>(i)];
        if (r.chance(spoilPercent)) {
            // something of any type, near the limits
            switch (r.range(0, 2)) {
                case 0: m[i] = static_cast<double>(r.range(-80, 80)) / 4; break;
                case 1: m[i] = static_cast<int>(r.range(-1, 7)); break;
                default: m[i] = static_cast<variable_type>(r.range(0, 4)); break;
            }
            continue;
        }
        switch (p.type) {
            case function_parameter_type::real: {
                double v = static_cast<double>(r.range(-200, 200)) / 8;
                if (p.min_value) v = std::max(v, std::get<double>(*p.min_value));
                if (p.max_value) v = std::min(v, std::get<double>(*p.max_value));
                m[i] = v;
                break;
            }
            case function_parameter_type::integer: {
                int v = static_cast<int>(r.range(0, 6));
                if (p.min_value) v = std::max(v, std::get<int>(*p.min_value));
                if (p.max_value) v = std::min(v, std::get<int>(*p.max_value));
                m[i] = v;
                break;
            }
            default: m[i] = static_cast<variable_type>(r.range(0, 3)); break;
        }
    }
    return m;
}

// Runs f, which must succeed exactly if `ok`, with a system structure error
// otherwise.
template<typename F>
bool attempt(bool ok, const char* what, const std::string& detail, F f)
{
    bool done = false;
    std::string msg;
    try {
        f();
        done = true;
    } catch (const cosim::error& e) {
        msg = e.what();
        VH_CHECK(ok || e.code() == cosim::make_error_code(cosim::errc::invalid_system_structure), cat("error-code:", what),
            detail, ": error code is ", e.code().message(), " (", msg, ")");
    } catch (const vh::failed&) {
        throw;
    } catch (const std::exception& e) {
        msg = e.what();
        VH_CHECK(ok, cat("error-type:", what), detail, ": not reported as a system structure error, but as: ", msg);
    }
    VH_CHECK(done || !ok, cat("rejected-valid:", what), detail, " was rejected: ", msg);
    VH_CHECK(!done || ok, cat("accepted-invalid:", what), detail, " was accepted");
    return done;
}

bool same_vd(const cosim::variable_description& a, const cosim::variable_description& b)
{
    auto sameOpt = [](const std::optional<scalar_value>& x, const std::optional<scalar_value>& y) {
        return x.has_value() == y.has_value() && (!x || same(*x, *y));
    };
    return a.name == b.name && a.reference == b.reference && a.type == b.type && a.causality == b.causality &&
        a.variability == b.variability && sameOpt(a.start, b.start);
}
} // namespace


namespace
{
// Compares the predicates behind connections and initial values with the
// documented rules, with and without asking for the reason.
void check_predicates(vh::rng& rng)
{
    const auto anyType = [&] { return static_cast<variable_type>(rng.range(0, 3)); };
    const auto anyCausality = [&] { return static_cast<variable_causality>(rng.range(0, 4)); };
    for (int k = 0; k < 20; ++k) {
        cosim::variable_description vs, vt;
        vs.name = vt.name = "v";
        vs.reference = vt.reference = 0;
        cosim::function_io_description fs, ft;
        const auto st = anyType(), tt = rng.chance(70) ? st : anyType();
        const auto sc = rng.chance(60) ? variable_causality::output : anyCausality(), tc = rng.chance(60) ? variable_causality::input : anyCausality();
        vs.type = st, vt.type = tt, fs.type = st, ft.type = tt;
        vs.causality = fs.causality = sc;
        vt.causality = ft.causality = tc;
        vs.variability = static_cast<cosim::variable_variability>(rng.range(0, 4));
        vt.variability = static_cast<cosim::variable_variability>(rng.range(0, 4));
        const bool base = st == tt && (sc == variable_causality::output || sc == variable_causality::calculated_parameter) && tc == variable_causality::input;
        const bool modifiable = vt.variability != cosim::variable_variability::constant && vt.variability != cosim::variable_variability::fixed;
        const int kind = static_cast<int>(rng.range(0, 3));
        const scalar_value value = make_value(st, rng.next());
        const auto ask = [&](std::string* reason) {
            switch (kind) {
                case 0: return cosim::is_valid_connection(vs, vt, reason);
                case 1: return cosim::is_valid_connection(vs, ft, reason);
                case 2: return cosim::is_valid_connection(fs, vt, reason);
                default: return cosim::is_valid_variable_value(vt, value, reason);
            }
        };
        const bool want = kind == 3 ? st == tt : kind == 1 ? base : base && modifiable;
        const std::string before = "unchanged";
        std::string reason = before;
        const bool got = ask(&reason), silent = ask(nullptr);
        VH_CHECK(got == want && silent == want, "predicate", "predicate ", kind, " returned ", got, " and, without asking for a reason, ", silent, ", expected ", want, " for types ", static_cast<int>(st), ", ", static_cast<int>(tt),
            ", causalities ", static_cast<int>(sc), ", ", static_cast<int>(tc), ", variability ", static_cast<int>(vt.variability));
        VH_CHECK(want || (!reason.empty() && reason != before), "predicate-reason", "no reason was given");
        vh::count(want ? "predicates_true" : "predicates_false");
    }
}
} // namespace


VH_PROP(C23)
{
    check_predicates(rng);
    auto ord = std::make_shared<order>();
    // Models with overlapping sets of variable names.
    std::vector<std::shared_ptr<vmodel>> models;
    const bool large = rng.chance(3);
    if (large) vh::count("scaled:many_entities");
    const int nm = static_cast<int>(rng.range(1, 4));
    for (int i = 0; i < nm; ++i) {
        slave_spec s;
        s.name = cat("m", i);
        s.id = rng.next();
        const int nv = rng.chance(8) ? 0 : static_cast<int>(large ? rng.range(10, 120) : rng.range(3, 14));
        std::set<std::string> names;
        for (int k = 0; k < nv; ++k) {
            var_spec v;
            v.name = cat(large && rng.chance(20) ? "a.rather.long[variable].name." : "v", rng.range(0, large ? 60 : 9));
            if (!names.insert(v.name).second) continue;
            v.ref = static_cast<value_reference>(rng.range(0, large ? 80 : 5)); // may be shared
            v.type = static_cast<variable_type>(rng.range(0, rng.chance(10) ? 4 : 1));
            if (rng.chance(30)) v.type = static_cast<variable_type>(rng.range(0, 3));
            static const variable_causality cs[] = {variable_causality::output, variable_causality::output, variable_causality::output, variable_causality::input, variable_causality::input, variable_causality::input,
                variable_causality::calculated_parameter, variable_causality::parameter, variable_causality::local};
            v.causality = cs[rng.range(0, 8)];
            static const cosim::variable_variability vs[] = {cosim::variable_variability::continuous, cosim::variable_variability::discrete, cosim::variable_variability::tunable,
                cosim::variable_variability::fixed, cosim::variable_variability::constant};
            v.variability = vs[rng.range(0, rng.chance(60) ? 2 : 4)];
            if (rng.chance(40) && v.type != variable_type::enumeration) {
                v.hasStart = true;
                v.start = make_value(v.type, rng.next());
            }
            s.vars.push_back(v);
        }
        models.push_back(std::make_shared<vmodel>(s, ord));
    }
    std::vector<std::shared_ptr<cosim::function_type>> ftypes;
    const int nft = static_cast<int>(rng.range(1, 4));
    for (int i = 0; i < nft; ++i) {
        switch (rng.range(0, 4)) {
            case 0: ftypes.push_back(std::make_shared<cosim::linear_transformation_function_type>()); break;
            case 1: ftypes.push_back(std::make_shared<cosim::vector_sum_function_type>()); break;
            default: ftypes.push_back(gen_funtype(rng, false)); break;
        }
    }

    struct ent
    {
        std::shared_ptr<vmodel> model;
        std::shared_ptr<cosim::function_type> fun;
        std::int64_t hint = 0;
        function_parameter_value_map params;
        cosim::function_description descr; // of a function, resolved here
    };
    std::map<std::string, ent> ents;
    std::map<std::string, std::pair<full_variable_name, full_variable_name>> conns; // target text -> (source, target)
    cosim::variable_value_map values;
    std::map<std::string, scalar_value> expectedValues;
    cosim::system_structure sys;
    std::string story;

    auto resolve = [](const cosim::function_type_description& d, const function_parameter_value_map& m) {
        vfuntype t;
        t.descr = d;
        cosim::function_description r;
        r.io_groups = t.spec(m).groups;
        return r;
    };
    auto find_var = [&](const full_variable_name& n) -> const var_spec* {
        const auto it = ents.find(n.entity_name);
        if (it == ents.end() || !it->second.model) return nullptr;
        for (const auto& v : it->second.model->spec.vars)
            if (v.name == n.variable_name) return &v;
        return nullptr;
    };
    struct fio
    {
        int group, io;
        variable_type type;
        variable_causality causality;
        int count;
    };
    auto find_io = [&](const full_variable_name& n) -> std::optional<fio> {
        const auto it = ents.find(n.entity_name);
        if (it == ents.end() || !it->second.fun) return std::nullopt;
        const auto& gs = it->second.descr.io_groups;
        for (std::size_t g = 0; g < gs.size(); ++g) {
            if (gs[g].name != n.variable_group_name) continue;
            for (std::size_t i = 0; i < gs[g].ios.size(); ++i) {
                const auto& io = gs[g].ios[i];
                if (io.name != n.variable_name) continue;
                if (n.variable_group_instance < 0 || n.variable_group_instance >= std::get<int>(gs[g].count)) return std::nullopt;
                if (n.variable_instance < 0 || n.variable_instance >= std::get<int>(io.count)) return std::nullopt;
                return fio{static_cast<int>(g), static_cast<int>(i), std::get<variable_type>(io.type), io.causality, std::get<int>(io.count)};
            }
        }
        return std::nullopt;
    };
    std::vector<std::string> namePool;
    for (int i = 0; i < (large ? 60 : 8); ++i) namePool.push_back(cat("e", i));
    namePool.push_back("a b.c:d");
    if (large) namePool.push_back(std::string(1000, 'n'));
    namePool.push_back("");
    auto entName = [&]() -> std::string {
        if (!ents.empty() && rng.chance(90)) {
            auto it = ents.begin();
            std::advance(it, rng.range(0, static_cast<long long>(ents.size()) - 1));
            return it->first;
        }
        return rng.pick(namePool);
    };
    // A name for something that probably exists.
    auto varName = [&](bool preferSource) -> full_variable_name {
        const auto e = entName();
        const auto it = ents.find(e);
        const bool spoil = rng.chance(12);
        if (it != ents.end() && it->second.fun && !(spoil && rng.chance(30))) {
            const auto& gs = it->second.descr.io_groups;
            for (int tries = 0;; ++tries) {
                const auto& g = gs[static_cast<std::size_t>(rng.range(0, static_cast<long long>(gs.size()) - 1))];
                const auto& io = g.ios[static_cast<std::size_t>(rng.range(0, static_cast<long long>(g.ios.size()) - 1))];
                if ((io.causality == variable_causality::output) != preferSource && tries < 4) continue;
                full_variable_name n(e, g.name, static_cast<int>(rng.range(0, std::max(1, std::get<int>(g.count)) - 1)), io.name, static_cast<int>(rng.range(0, std::max(1, std::get<int>(io.count)) - 1)));
                if (spoil) {
                    switch (rng.range(0, 5)) {
                        case 0: n.variable_group_instance = std::get<int>(g.count); break;
                        case 1: n.variable_instance = std::get<int>(io.count); break;
                        case 2: n.variable_group_instance = -1; break;
                        case 3: n.variable_instance = static_cast<int>(rng.range(-2, -1)); break;
                        case 4: n.variable_name += "x"; break;
                        default: n.variable_group_name = cat("g", rng.range(0, 4)); break;
                    }
                }
                return n;
            }
        }
        if (it != ents.end() && it->second.model && !it->second.model->spec.vars.empty() && !spoil) {
            for (int tries = 0;; ++tries) {
                const auto& v = rng.pick(it->second.model->spec.vars);
                const bool isSource = v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter;
                if (isSource != preferSource && tries < 4) continue;
                return full_variable_name(e, v.name);
            }
        }
        return full_variable_name(e, cat(large && rng.chance(20) ? "a.rather.long[variable].name." : "v", rng.range(0, large ? 60 : 9)));
    };
    long long nAccepted = 0, nRejected = 0;
    auto checkAll = [&](const char* after) {
        std::set<std::string> seen;
        for (const auto& e : sys.entities()) {
            VH_CHECK(seen.insert(e.name).second, "entity-twice", "entity '", e.name, "' is listed twice after ", after, ";", story);
            const auto it = ents.find(e.name);
            VH_CHECK(it != ents.end(), "unknown-entity", "entity '", e.name, "' is listed after ", after, ", but was never accepted;", story);
            const auto& x = it->second;
            VH_CHECK(cosim::entity_type_to<cosim::model>(e.type) == x.model && cosim::entity_type_to<cosim::function_type>(e.type) == x.fun, "entity-type", "type of entity '", e.name, "';", story);
            if (x.model) VH_CHECK(e.step_size_hint.count() == x.hint, "entity-hint", "step size hint of '", e.name, "' is ", e.step_size_hint.count(), ", was ", x.hint);
            if (x.fun) VH_CHECK(e.parameter_values == x.params, "entity-params", "parameters of '", e.name, "' are ", showp(e.parameter_values), ", were ", showp(x.params));
        }
        VH_CHECK(seen.size() == ents.size(), "entity-missing", seen.size(), " entities are listed after ", after, ", expected ", ents.size(), ";", story);
        std::set<std::string> seenC;
        for (const auto& c : sys.connections()) {
            const auto k = cosim::to_text(c.target);
            VH_CHECK(seenC.insert(k).second, "connection-twice", "connection to ", k, " is listed twice after ", after, ";", story);
            const auto it = conns.find(k);
            VH_CHECK(it != conns.end(), "unknown-connection", "connection ", cosim::to_text(c.source), " -> ", k, " is listed after ", after, ";", story);
            VH_CHECK(c.source == it->second.first && c.target == it->second.second, "connection-changed", "connection to ", k, " comes from ", cosim::to_text(c.source), ", expected ", cosim::to_text(it->second.first), " after ", after, ";", story);
        }
        VH_CHECK(seenC.size() == conns.size(), "connection-missing", seenC.size(), " connections are listed after ", after, ", expected ", conns.size(), ";", story);
        VH_CHECK(values.size() == expectedValues.size(), "value-count", values.size(), " initial values after ", after, ", expected ", expectedValues.size(), ";", story);
        for (const auto& [n, v] : values) {
            const auto it = expectedValues.find(cosim::to_text(n));
            VH_CHECK(it != expectedValues.end() && same(it->second, v), "value", "initial value of ", cosim::to_text(n), " is ", show(v), " after ", after, ";", story);
        }
    };

    const int ops = static_cast<int>(large ? rng.range(60, 500) : rng.range(10, 60));
    for (int i = 0; i < ops; ++i) {
        const auto what = ents.size() < 2 ? 0 : rng.range(0, 9);
        if (what <= 1) {
            const auto name = rng.pick(namePool);
            ent x;
            bool ok = !name.empty() && !ents.count(name);
            std::string d;
            if (rng.chance(55)) {
                x.model = rng.pick(models);
                x.hint = rng.chance(8) ? -rng.range(1, 1000000000) : rng.chance(30) ? 0 : rng.range(1, 1000000000);
                ok = ok && x.hint >= 0;
                d = cat("adding simulator '", name, "' of ", x.model->spec.name, " with step size ", x.hint);
                const int how = static_cast<int>(rng.range(0, 1));
                attempt(ok, "entity", d + ";" + story, [&] {
                    if (how) sys.add_entity(name, x.model, cosim::duration(x.hint));
                    else sys.add_entity({name, x.model, cosim::duration(x.hint), {}});
                });
            } else {
                x.fun = rng.pick(ftypes);
                const auto descr = x.fun->description();
                x.params = gen_params(rng, descr, rng.chance(40) ? 40 : 0);
                const bool okp = acceptable(descr, x.params);
                ok = ok && okp;
                if (okp) x.descr = resolve(descr, x.params);
                d = cat("adding function '", name, "' with parameters ", showp(x.params));
                vh::count(okp ? "good_parameters" : "bad_parameters");
                const int how = static_cast<int>(rng.range(0, 1));
                attempt(ok, okp ? "entity" : "parameters", d + ";" + story, [&] {
                    if (how) sys.add_entity(name, x.fun, x.params);
                    else sys.add_entity({name, x.fun, {}, x.params});
                });
            }
            ok ? ++nAccepted : ++nRejected;
            if (ok) ents[name] = x;
            story += cat(" ", d, ok ? "+" : "-", ";");
            vh::count(ok ? "entities_accepted" : "entities_rejected");
        } else if (what <= 6) {
            auto s = varName(!rng.chance(8));
            auto t = varName(rng.chance(8));
            // steer towards compatible types
            auto typeOf = [&](const full_variable_name& n) {
                if (const auto* v = find_var(n)) return static_cast<int>(v->type);
                if (const auto f = find_io(n)) return static_cast<int>(f->type);
                return -1;
            };
            for (int k = 0; k < 6 && typeOf(s) != typeOf(t); ++k) t = varName(false);
            const bool sf = !s.is_simulator_variable(), tf = !t.is_simulator_variable();
            bool ok = true;
            const char* why = "";
            auto no = [&](const char* w) { if (ok) why = w; ok = false; };
            variable_type st{}, tt{};
            if (sf) {
                const auto f = find_io(s);
                if (!f) no("no source");
                else {
                    st = f->type;
                    if (f->causality != variable_causality::output) no("source causality");
                }
            } else {
                const auto* v = find_var(s);
                if (!v) no("no source");
                else {
                    st = v->type;
                    if (v->causality != variable_causality::output && v->causality != variable_causality::calculated_parameter) no("source causality");
                }
            }
            if (tf) {
                const auto f = find_io(t);
                if (sf) no("function to function");
                else if (!f) no("no target");
                else {
                    tt = f->type;
                    if (f->causality != variable_causality::input) no("target causality");
                }
            } else {
                const auto* v = find_var(t);
                if (!v) no("no target");
                else {
                    tt = v->type;
                    if (v->causality != variable_causality::input) no("target causality");
                    if (v->variability == cosim::variable_variability::constant || v->variability == cosim::variable_variability::fixed) no("target variability");
                }
            }
            if (ok && st != tt) no("types");
            if (ok && conns.count(cosim::to_text(t))) no("already connected");
            // Function names used where simulators are meant, and the reverse,
            // with the fields that don't apply: not specified.
            const auto d = cat("connecting ", cosim::to_text(s), " -> ", cosim::to_text(t), " (", ok ? "valid" : why, ")");
            attempt(ok, cat("connection", *why ? ":" : "", why).c_str(), d + ";" + story, [&] {
                if (rng.chance(50)) sys.connect_variables(s, t);
                else sys.connect_variables({s, t});
            });
            if (ok) conns.insert_or_assign(cosim::to_text(t), std::make_pair(s, t));
            ok ? ++nAccepted : ++nRejected;
            vh::count(ok ? "connections_accepted" : cat("connections_rejected:", why));
            story += cat(" ", d, ok ? "+" : "-", ";");
        } else if (what == 7) {
            auto n = varName(rng.chance(50));
            const auto* v = n.is_simulator_variable() ? find_var(n) : nullptr;
            const bool known = n.is_simulator_variable();
            const auto value = make_value(v && rng.chance(70) && v->type != variable_type::enumeration ? v->type : static_cast<variable_type>(rng.range(0, 3)), rng.next());
            const bool ok = known && v && v->variability != cosim::variable_variability::constant && static_cast<int>(v->type) == static_cast<int>(value.index());
            const auto d = cat("initial value ", show(value), " for ", cosim::to_text(n));
            attempt(ok, "initial-value", d + ";" + story, [&] { cosim::add_variable_value(values, sys, n, value); });
            if (ok) expectedValues.insert_or_assign(cosim::to_text(n), value);
            vh::count(ok ? "values_accepted" : "values_rejected");
            story += cat(" ", d, ok ? "+" : "-", ";");
        } else if (what == 8) {
            auto n = varName(rng.chance(50));
            if (rng.chance(10)) {
                // the other kind of name for the same entity
                if (n.is_simulator_variable()) n = full_variable_name(n.entity_name, "g0", n.variable_name);
                else n = full_variable_name(n.entity_name, n.variable_name);
            }
            if (n.is_simulator_variable()) {
                const auto* v = find_var(n);
                attempt(v != nullptr, "lookup", cat("description of ", cosim::to_text(n), ";", story), [&] {
                    const auto& got = sys.get_variable_description(n);
                    const auto descr = ents.at(n.entity_name).model->description();
                    const auto it = std::find_if(descr->variables.begin(), descr->variables.end(), [&](const auto& x) { return x.name == n.variable_name; });
                    VH_CHECK(it != descr->variables.end() && same_vd(got, *it), "description", "description of ", cosim::to_text(n), " differs;", story);
                });
            } else {
                const auto f = find_io(n);
                attempt(f.has_value(), "lookup", cat("description of ", cosim::to_text(n), ";", story), [&] {
                    const auto& got = sys.get_function_io_description(n);
                    VH_CHECK(got.group_index == f->group && got.io_index == f->io && got.description.name == n.variable_name &&
                            got.description.causality == f->causality && std::get<variable_type>(got.description.type) == f->type && std::get<int>(got.description.count) == f->count,
                        "description", "description of ", cosim::to_text(n), " differs;", story);
                });
            }
            vh::count("lookups");
        } else {
            const auto n = rng.chance(70) ? entName() : rng.pick(namePool);
            const auto* e = sys.find_entity(n);
            VH_CHECK((e != nullptr) == (ents.count(n) > 0), "find-entity", "find_entity('", n, "') is ", e ? "not null" : "null", ";", story);
            if (e) VH_CHECK(e->name == n, "find-entity", "find_entity('", n, "') returns '", e->name, "'");
        }
        checkAll("an operation");
        vh::evaluated();
    }
    // A copy is a structure of its own.
    if (rng.chance(20)) {
        auto copy = sys;
        copy.add_entity("copy only", models[0]);
        checkAll("changing a copy");
        VH_CHECK(copy.find_entity("copy only") && !sys.find_entity("copy only"), "copy", "copies aren't independent");
    }
    vh::count("accepted", nAccepted);
    vh::count("rejected", nRejected);
    vh::distinct(vh::hash_str(story));
    vh::sample(story);
}


VH_PROP(C24)
{
    gen_options o;
    o.maxFactor = static_cast<int>(rng.range(1, 6));
    o.maxFuns = 0;
    o.initPercent = 0;
    const bool large = rng.chance(3);
    if (large) {
        o.maxVars = static_cast<int>(rng.range(3, 40));
        vh::count("scaled:many_entities");
    }
    auto base = gen_system(rng, o);
    base.conns.clear();
    base.inits.clear();
    const bool feedthrough = false;
    auto ord = std::make_shared<order>();

    // Several entities may be of the same model or function type.
    std::vector<std::shared_ptr<vmodel>> models;
    for (auto& s : base.slaves) {
        s.feedthrough = feedthrough;
        models.push_back(std::make_shared<vmodel>(s, ord));
    }
    std::vector<std::shared_ptr<vfuntype>> ftypes;
    for (int i = static_cast<int>(rng.range(0, 2)); i > 0; --i) ftypes.push_back(gen_funtype(rng, true));

    cosim::system_structure sys;
    struct sim_ent
    {
        std::string name;
        std::shared_ptr<vmodel> model;
        std::int64_t hint;
    };
    struct fun_ent
    {
        std::string name;
        std::shared_ptr<vfuntype> type;
        function_parameter_value_map params;
        fun_spec spec;
    };
    std::vector<sim_ent> sims;
    std::vector<fun_ent> funs;
    const int n = static_cast<int>(large ? rng.range(7, 50) : rng.range(1, 6));
    for (int i = 0; i < n; ++i) {
        sim_ent e;
        e.name = cat(static_cast<char>('a' + rng.range(0, 25)), "_sim", i);
        e.model = rng.pick(models);
        e.hint = rng.chance(25) ? 0 : base.base * rng.range(0, o.maxFactor) + (rng.chance(50) ? 0 : rng.range(0, base.base - 1));
        sys.add_entity(e.name, e.model, cosim::duration(e.hint));
        sims.push_back(e);
        if (!ftypes.empty() && rng.chance(50)) {
            fun_ent f;
            f.name = cat(static_cast<char>('a' + rng.range(0, 25)), "_fun", i);
            f.type = rng.pick(ftypes);
            f.params = gen_params(rng, f.type->descr, 0);
            f.spec = f.type->spec(f.params);
            if (f.spec.ios.size() > (large ? 150u : 40u)) continue;
            sys.add_entity(f.name, f.type, f.params);
            funs.push_back(f);
        }
    }
    // Connections.
    struct c_t
    {
        full_variable_name from, to;
        conn c; // indices into sims/funs
    };
    std::vector<c_t> cs;
    auto simName = [&](std::size_t i, const var_spec& v) { return full_variable_name(sims[i].name, v.name); };
    auto funName = [&](std::size_t i, const fun_io& io) {
        const auto& g = funs[i].spec.groups[static_cast<std::size_t>(io.ref.group)];
        return full_variable_name(funs[i].name, g.name, io.ref.group_instance, g.ios[static_cast<std::size_t>(io.ref.io)].name, io.ref.io_instance);
    };
    auto simPort = [&](std::size_t i, const var_spec& v) {
        port p;
        p.index = static_cast<int>(i);
        p.type = v.type;
        p.ref = v.ref;
        return p;
    };
    auto funPort = [&](std::size_t i, const fun_io& io) {
        port p;
        p.isFun = true;
        p.index = static_cast<int>(i);
        p.type = io.type;
        p.io = io.ref;
        return p;
    };
    std::vector<std::pair<full_variable_name, port>> sources;
    for (std::size_t i = 0; i < sims.size(); ++i)
        for (const auto& v : sims[i].model->spec.vars)
            if (v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter) sources.emplace_back(simName(i, v), simPort(i, v));
    for (std::size_t i = 0; i < funs.size(); ++i)
        for (const auto& io : funs[i].spec.ios)
            if (!io.isInput) sources.emplace_back(funName(i, io), funPort(i, io));
    auto tryConnect = [&](const full_variable_name& tn, const port& tp_) {
        if (sources.empty() || !rng.chance(60)) return;
        for (int k = 0; k < 10; ++k) {
            const auto& s = rng.pick(sources);
            if (s.second.type != tp_.type || (s.second.isFun && tp_.isFun)) continue;
            cs.push_back({s.first, tn, conn{s.second, tp_}});
            return;
        }
    };
    for (std::size_t i = 0; i < sims.size(); ++i)
        for (const auto& v : sims[i].model->spec.vars)
            if (v.causality == variable_causality::input) tryConnect(simName(i, v), simPort(i, v));
    for (std::size_t i = 0; i < funs.size(); ++i)
        for (const auto& io : funs[i].spec.ios)
            if (io.isInput) tryConnect(funName(i, io), funPort(i, io));
    for (const auto& c : cs) sys.connect_variables(c.from, c.to);

    // Initial values, possibly of connected inputs too.
    cosim::variable_value_map values;
    std::vector<std::tuple<std::size_t, var_spec, scalar_value>> inits;
    for (std::size_t i = 0; i < sims.size(); ++i)
        for (const auto& v : sims[i].model->spec.vars)
            if (is_in(v) && rng.chance(40)) {
                const auto x = make_value(v.type, rng.next());
                if (rng.chance(50)) cosim::add_variable_value(values, sys, simName(i, v), x);
                else values.insert_or_assign(simName(i, v), x);
                inits.emplace_back(i, v, x);
            }
    // Sometimes one that must be refused.
    std::string bad;
    if (rng.chance(25)) {
        full_variable_name name("nobody", "nothing");
        scalar_value x = 1.0;
        const auto i = static_cast<std::size_t>(rng.range(0, static_cast<long long>(sims.size()) - 1));
        switch (rng.range(0, 4)) {
            case 0: bad = "unknown entity"; break;
            case 1: name = full_variable_name(sims[i].name, "no such variable"); bad = "unknown variable"; break;
            case 2:
                if (!funs.empty() && !funs[0].spec.ios.empty()) {
                    const auto& io = funs[0].spec.ios[0];
                    name = funName(0, io);
                    x = make_value(io.type, 3);
                    bad = "function variable";
                }
                break;
            case 3:
                if (!funs.empty()) {
                    name = full_variable_name(funs[0].name, "x");
                    bad = "function entity";
                }
                break;
            default:
                for (const auto& v : sims[i].model->spec.vars)
                    if (is_in(v)) {
                        name = simName(i, v);
                        x = make_value(static_cast<variable_type>((static_cast<int>(v.type) + 1 + rng.range(0, 2)) % 4), 5);
                        bad = "wrong type";
                    }
        }
        if (!bad.empty()) values.insert_or_assign(name, x);
    }
    std::string text = cat(sims.size(), " simulators, ", funs.size(), " functions;");
    for (const auto& c : cs) text += " " + cosim::to_text(c.from) + "->" + cosim::to_text(c.to);
    for (const auto& [i, v, x] : inits) text += cat(" ", sims[i].name, ":", v.name, "=", show(x));

    system_spec s = base;
    s.workers = rng.chance(70) ? 0 : 2;
    auto algo = make_algo(s);
    built b;
    b.ord = ord;
    b.algo = algo;
    b.exe = std::make_unique<cosim::execution>(tp(s.start), algo);
    // Something may be there already.
    std::shared_ptr<vslave> before;
    if (rng.chance(25)) {
        slave_spec x;
        x.name = "before";
        x.id = 5;
        before = std::make_shared<vslave>(x, ord);
        b.exe->add_slave(before, "before", cosim::duration(0));
    }
    const int offset = before ? 1 : 0;
    if (!bad.empty()) {
        bool threw = false;
        try {
            cosim::inject_system_structure(*b.exe, sys, values);
        } catch (const std::exception&) {
            threw = true;
        }
        VH_CHECK(threw, "accepted-initial-value:" + bad, "an initial value for an ", bad, " was accepted; ", text);
        vh::count("bad_values_rejected");
        vh::evaluated();
        return;
    }
    const auto maps = values.empty() && rng.chance(50) ? cosim::inject_system_structure(*b.exe, sys, {})
                                                       : cosim::inject_system_structure(*b.exe, sys, values);

    // The returned maps.
    VH_CHECK(maps.simulators.size() == sims.size(), "index-maps", maps.simulators.size(), " simulators in the index map, expected ", sims.size());
    VH_CHECK(maps.functions.size() == funs.size(), "index-maps", maps.functions.size(), " functions in the index map, expected ", funs.size());
    std::vector<int> simPos(sims.size(), -1), funPos(funs.size(), -1);
    std::set<int> used;
    for (std::size_t i = 0; i < sims.size(); ++i) {
        const auto it = maps.simulators.find(sims[i].name);
        VH_CHECK(it != maps.simulators.end(), "index-maps", "simulator '", sims[i].name, "' isn't in the index map");
        VH_CHECK(it->second >= offset && it->second < offset + static_cast<int>(sims.size()) && used.insert(it->second).second, "index-maps", "index of simulator '", sims[i].name, "' is ", it->second);
        simPos[i] = it->second - offset;
        VH_CHECK(b.exe->get_model_description(it->second).uuid == sims[i].model->descr->uuid, "index-maps", "simulator ", it->second, " isn't of the model of '", sims[i].name, "'");
    }
    used.clear();
    for (std::size_t i = 0; i < funs.size(); ++i) {
        const auto it = maps.functions.find(funs[i].name);
        VH_CHECK(it != maps.functions.end(), "index-maps", "function '", funs[i].name, "' isn't in the index map");
        VH_CHECK(it->second >= 0 && it->second < static_cast<int>(funs.size()) && used.insert(it->second).second, "index-maps", "index of function '", funs[i].name, "' is ", it->second);
        funPos[i] = it->second;
    }
    // One instance for each entity, with its name.
    std::size_t made = 0;
    for (const auto& m : models) made += m->instances.size();
    VH_CHECK(made == sims.size(), "instances", made, " slaves were instantiated for ", sims.size(), " simulators");
    s.slaves.assign(sims.size(), {});
    s.funs.assign(funs.size(), {});
    b.slaves.assign(sims.size(), nullptr);
    for (std::size_t i = 0; i < sims.size(); ++i) {
        const auto pos = static_cast<std::size_t>(simPos[i]);
        s.slaves[pos] = sims[i].model->spec;
        s.slaves[pos].hint = sims[i].hint;
        for (const auto& [name, sl] : sims[i].model->instances)
            if (name == sims[i].name) {
                VH_CHECK(!b.slaves[pos], "instances", "two slaves were instantiated for '", name, "'");
                b.slaves[pos] = sl;
            }
        VH_CHECK(b.slaves[pos], "instances", "no slave was instantiated with the name '", sims[i].name, "'");
    }
    for (std::size_t i = 0; i < funs.size(); ++i) s.funs[static_cast<std::size_t>(funPos[i])] = funs[i].spec;
    std::size_t madeF = 0;
    for (const auto& f : ftypes) madeF += f->instances.size();
    VH_CHECK(madeF == funs.size(), "instances", madeF, " functions were instantiated for ", funs.size(), " function entities");
    for (const auto& f : ftypes) {
        std::vector<std::string> want, got;
        for (const auto& e : funs)
            if (e.type == f) want.push_back(showp(e.params));
        for (const auto& [p, fun] : f->instances) got.push_back(showp(p));
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        VH_CHECK(want == got, "function-parameters", "functions were instantiated with other parameters than given; ", text);
    }
    // Names as seen by observers.
    struct name_observer : cosim::observer
    {
        std::map<int, std::string> names;
        void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point) override { names[i] = o->name(); }
        void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
        void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
        void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
        void simulation_initialized(cosim::step_number, cosim::time_point) override { }
        void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override { }
        void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
        void state_restored(cosim::step_number, cosim::time_point) { }
    };
    auto obs = std::make_shared<name_observer>();
    b.exe->add_observer(obs);
    for (std::size_t i = 0; i < sims.size(); ++i)
        VH_CHECK(obs->names[simPos[i] + offset] == sims[i].name, "simulator-name", "simulator ", simPos[i] + offset, " is called '", obs->names[simPos[i] + offset], "', expected '", sims[i].name, "'");

    // Run it, and compare with the reference model of the same system.
    for (const auto& c : cs) {
        auto x = c.c;
        x.from.index = x.from.isFun ? funPos[static_cast<std::size_t>(x.from.index)] : simPos[static_cast<std::size_t>(x.from.index)];
        x.to.index = x.to.isFun ? funPos[static_cast<std::size_t>(x.to.index)] : simPos[static_cast<std::size_t>(x.to.index)];
        s.conns.push_back(x);
    }
    for (const auto& [i, v, x] : inits) s.inits.push_back({simPos[i], v, x});
    b.spec = s;
    ref_model m(s);
    m.initialize();
    const auto steps = rng.range(1, 15);
    for (long long i = 0; i < steps; ++i) {
        b.exe->step();
        m.do_step();
    }
    if (before) VH_CHECK(before->stepsDone == steps, "other-simulator", "a simulator that was there before took ", before->stepsDone, " steps in ", steps);
    check_monitors(b);
    for (const auto& f : ftypes)
        for (const auto& [p, fun] : f->instances)
            if (!fun->problems.empty()) throw vh::failed("function-protocol", fun->problems[0] + "; " + text);
    check_effective(b, m, "injected-data-flow");
    // Exactly the initial values were set.
    for (std::size_t i = 0; i < b.slaves.size(); ++i) {
        std::set<key> may;
        for (const auto& c : s.conns)
            if (!c.to.isFun && c.to.index == static_cast<int>(i)) may.insert({static_cast<int>(c.to.type), c.to.ref});
        for (const auto& x : s.inits)
            if (x.sim == static_cast<int>(i)) may.insert(K(x.var));
        for (const auto& e : b.slaves[i]->log)
            if (e.what == op::set)
                for (const auto& [k, v] : e.values)
                    VH_CHECK(may.count(k), "unrequested-value", "simulator ", i, " got a value for variable ", k.second, " of type ", k.first, ", which is neither connected nor has an initial value; ", text);
        for (const auto& x : s.inits) {
            if (x.sim != static_cast<int>(i)) continue;
            bool delivered = false;
            for (const auto& e : b.slaves[i]->log) {
                if (e.what == op::start) break;
                if (e.what == op::set && e.values.count(K(x.var)) && same(e.values.at(K(x.var)), x.value)) delivered = true;
            }
            const bool connected = std::any_of(s.conns.begin(), s.conns.end(), [&](const auto& c) { return !c.to.isFun && c.to.index == x.sim && c.to.type == x.var.type && c.to.ref == x.var.ref; });
            VH_CHECK(delivered || connected, "initial-value", "initial value of ", x.var.name, " of simulator ", i, " wasn't delivered before it started; ", text);
        }
    }
    long long vals = 0;
    for (const auto& sl : b.slaves) vals += sl->stepsDone;
    vh::count("steps_compared", vals);
    vh::count("connections", static_cast<long long>(cs.size()));
    vh::count("functions", static_cast<long long>(funs.size()));
    vh::count("initial_values", static_cast<long long>(inits.size()));
    vh::evaluated();
    vh::distinct(vh::hash_str(text));
    vh::sample(text);
}


namespace
{
// How far a sum of products may be off when evaluated in any order.
bool close(double got, long double exact, long double magnitude)
{
    if (!std::isfinite(static_cast<double>(exact)) || magnitude > 1e300L) return true; // order-dependent overflow
    return std::fabs(static_cast<long double>(got) - exact) <= magnitude * 64 * 2.3e-16L + 1e-320L;
}
double special(vh::rng& r)
{
    switch (r.range(0, 9)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return 1e150 * (r.unit() - 0.5);
        case 3: return 1e-300 * (r.unit() - 0.5);
        case 4: return static_cast<double>(r.range(-5, 5));
        default: return (r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.range(-6, 9)));
    }
}
template<typename F>
bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
// Access through a reference that doesn't exist, or with another type.
template<typename Exists>
void bad_access(vh::rng& rng, cosim::function& f, Exists exists, const std::string& text)
{
    for (int k = 0; k < 12; ++k) {
        const cosim::function_io_reference r{static_cast<int>(rng.range(-1, 2)), static_cast<int>(rng.range(-1, 4)), static_cast<int>(rng.range(-1, 2)), static_cast<int>(rng.range(-1, 4))};
        const auto port = exists(r); // {type, isInput}
        for (int t = 0; t < 4; ++t) {
            const bool known = port && static_cast<int>(port->first) == t;
            bool got = false, set = false;
            switch (t) {
                case 0: got = !throws([&] { f.get_real(r); }); break;
                case 1: got = !throws([&] { f.get_integer(r); }); break;
                case 2: got = !throws([&] { f.get_boolean(r); }); break;
                default: got = !throws([&] { f.get_string(r); }); break;
            }
            VH_CHECK(got == known, got ? "read-of-missing-port" : "read-rejected", "reading (", r.group, ",", r.group_instance, ",", r.io, ",", r.io_instance, ") as type ", t, got ? " succeeded; " : " failed; ", text);
            if (known && port->second) continue; // don't disturb the inputs
            switch (t) {
                case 0: set = !throws([&] { f.set_real(r, 1.0); }); break;
                case 1: set = !throws([&] { f.set_integer(r, 1); }); break;
                case 2: set = !throws([&] { f.set_boolean(r, true); }); break;
                default: set = !throws([&] { f.set_string(r, "x"); }); break;
            }
            VH_CHECK(!set, known ? "output-set" : "write-to-missing-port", "setting (", r.group, ",", r.group_instance, ",", r.io, ",", r.io_instance, ") as type ", t, " succeeded; ", text);
            vh::count(known ? "output_sets_rejected" : "bad_accesses_rejected");
        }
    }
}

void check_description(const cosim::function_description& d, int inGroups, int dim, variable_type t, const std::string& text)
{
    VH_CHECK(d.io_groups.size() == 2, "description", "the description has ", d.io_groups.size(), " groups; ", text);
    for (int g = 0; g < 2; ++g) {
        const auto& gd = d.io_groups[static_cast<std::size_t>(g)];
        VH_CHECK(gd.name == (g == 0 ? "in" : "out"), "description", "group ", g, " is called '", gd.name, "'; ", text);
        VH_CHECK(gd.count.index() == 0 && std::get<int>(gd.count) == (g == 0 ? inGroups : 1), "description", "number of instances of group ", gd.name, "; ", text);
        VH_CHECK(gd.ios.size() == 1, "description", "group ", gd.name, " has ", gd.ios.size(), " variables; ", text);
        const auto& io = gd.ios[0];
        VH_CHECK(io.type.index() == 0 && std::get<variable_type>(io.type) == t, "description", "type of the variable in group ", gd.name, "; ", text);
        VH_CHECK(io.causality == (g == 0 ? variable_causality::input : variable_causality::output), "description", "causality of the variable in group ", gd.name, "; ", text);
        VH_CHECK(io.count.index() == 0 && std::get<int>(io.count) == dim, "description", "dimension of the variable in group ", gd.name, "; ", text);
    }
}

void linear_case(vh::rng& rng)
{
    cosim::linear_transformation_function_type type;
    function_parameter_value_map p;
    double offset = 0.0, factor = 1.0;
    bool bad = false;
    auto param = [&](int index, double& v) {
        if (rng.chance(20)) return; // default
        if (rng.chance(12)) {
            if (rng.chance(50)) p[index] = static_cast<int>(rng.range(-3, 3));
            else p[index] = variable_type::real;
            bad = true;
            return;
        }
        v = special(rng);
        p[index] = v;
    };
    param(cosim::linear_transformation_function_type::offset_parameter_index, offset);
    param(cosim::linear_transformation_function_type::factor_parameter_index, factor);
    const auto text = "linear transformation " + showp(p);
    std::unique_ptr<cosim::function> f;
    bool threw = false;
    try {
        f = type.instantiate(p);
    } catch (const std::exception&) {
        threw = true;
    }
    VH_CHECK(threw == bad, bad ? "bad-parameters-accepted" : "good-parameters-rejected", text);
    vh::evaluated();
    if (bad) {
        vh::count("bad_parameters_rejected");
        return;
    }
    if (rng.chance(30)) f = std::make_unique<cosim::linear_transformation_function>(offset, factor);
    check_description(f->description(), 1, 1, variable_type::real, text);
    const auto in = cosim::linear_transformation_function::in_io_reference, out = cosim::linear_transformation_function::out_io_reference;
    const auto n = rng.range(1, 10);
    double x = 0.0;
    for (long long i = 0; i < n; ++i) {
        if (i == 0 || rng.chance(80)) {
            x = special(rng);
            f->set_real(in, x);
        }
        if (rng.chance(20))
            bad_access(rng, *f, [&](const cosim::function_io_reference& r) -> std::optional<std::pair<variable_type, bool>> {
                if (r == in) return std::make_pair(variable_type::real, true);
                if (r == out) return std::make_pair(variable_type::real, false);
                return std::nullopt;
            }, text);
        f->calculate();
        if (rng.chance(10)) f->calculate(); // no history
        VH_CHECK(same(scalar_value(f->get_real(in)), scalar_value(x)), "input-read-back", "input reads ", f->get_real(in), ", was set to ", x, "; ", text);
        const auto got = f->get_real(out);
        const long double exact = static_cast<long double>(offset) + static_cast<long double>(factor) * x;
        VH_CHECK(close(got, exact, std::fabs(static_cast<long double>(offset)) + std::fabs(static_cast<long double>(factor) * x)), "linear-transformation", "output is ", got, ", expected ", static_cast<double>(exact), " for input ", x, "; ", text);
        vh::count("evaluations_linear");
    }
    vh::distinct(vh::hash_str(text + cat(x)));
    vh::sample(text);
}

template<typename T>
void vector_case(vh::rng& rng, cosim::function& f, int count, int dim, const std::string& text)
{
    constexpr bool real = std::is_same_v<T, double>;
    check_description(f.description(), count, dim, real ? variable_type::real : variable_type::integer, text);
    std::vector<std::vector<T>> in(static_cast<std::size_t>(count), std::vector<T>(static_cast<std::size_t>(dim)));
    const auto rounds = rng.range(1, 6);
    const int cap = 2000000000 / count;
    auto exists = [&](const cosim::function_io_reference& r) -> std::optional<std::pair<variable_type, bool>> {
        const auto t = real ? variable_type::real : variable_type::integer;
        if (r.io != 0 || r.io_instance < 0 || r.io_instance >= dim) return std::nullopt;
        if (r.group == 0 && r.group_instance >= 0 && r.group_instance < count) return std::make_pair(t, true);
        if (r.group == 1 && r.group_instance == 0) return std::make_pair(t, false);
        return std::nullopt;
    };
    for (long long k = 0; k < rounds; ++k) {
        for (int i = 0; i < count; ++i)
            for (int j = 0; j < dim; ++j) {
                if (k > 0 && rng.chance(50)) continue; // inputs keep their values
                const auto r = cosim::vector_sum_function<T>::in_io_reference(i, j);
                auto& x = in[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)];
                if constexpr (real) {
                    x = special(rng);
                    f.set_real(r, x);
                } else {
                    x = static_cast<int>(rng.range(-cap, cap));
                    f.set_integer(r, x);
                }
            }
        if (rng.chance(30)) bad_access(rng, f, exists, text);
        f.calculate();
        if (rng.chance(15)) f.calculate();
        for (int j = 0; j < dim; ++j) {
            long double sum = 0, mag = 0;
            for (int i = 0; i < count; ++i) {
                sum += in[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)];
                mag += std::fabs(static_cast<long double>(in[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)]));
            }
            const auto r = cosim::vector_sum_function<T>::out_io_reference(j);
            if constexpr (real) {
                const auto got = f.get_real(r);
                VH_CHECK(close(got, sum, mag), "vector-sum", "output ", j, " is ", got, ", expected ", static_cast<double>(sum), "; ", text);
            } else {
                const auto got = f.get_integer(r);
                VH_CHECK(got == static_cast<int>(sum), "vector-sum", "output ", j, " is ", got, ", expected ", static_cast<int>(sum), "; ", text);
            }
        }
        for (int i = 0; i < count; ++i)
            for (int j = 0; j < dim; ++j) {
                const auto r = cosim::vector_sum_function<T>::in_io_reference(i, j);
                scalar_value got;
                if constexpr (real) got = f.get_real(r);
                else got = f.get_integer(r);
                VH_CHECK(same(got, scalar_value(in[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)])), "input-read-back", "input (", i, ",", j, ") reads ", show(got), "; ", text);
            }
        vh::count("evaluations_vector");
    }
}

void vector_sum_case(vh::rng& rng)
{
    cosim::vector_sum_function_type type;
    function_parameter_value_map p;
    int count = 1, dim = 1;
    variable_type t = variable_type::real;
    bool bad = false;
    auto num = [&](int index, int& v) {
        if (rng.chance(20)) return;
        switch (rng.range(0, 19)) {
            case 0: p[index] = static_cast<double>(rng.range(1, 3)); bad = true; return;
            case 1: p[index] = variable_type::integer; bad = true; return;
            case 2: p[index] = static_cast<int>(-rng.range(0, 3)); bad = true; return;
            case 3: p[index] = std::numeric_limits<int>::min(); bad = true; return;
        }
        v = static_cast<int>(rng.chance(90) ? rng.range(1, 6) : rng.range(1, 60));
        p[index] = v;
    };
    num(cosim::vector_sum_function_type::inputCount_parameter_index, count);
    num(cosim::vector_sum_function_type::dimension_parameter_index, dim);
    if (rng.chance(75)) {
        const int ti = cosim::vector_sum_function_type::numericType_parameter_index;
        switch (rng.range(0, 12)) {
            case 0: p[ti] = 1; bad = true; break;
            case 1: p[ti] = 1.0; bad = true; break;
            case 2:
            case 3:
                t = static_cast<variable_type>(rng.range(2, 4));
                p[ti] = t;
                bad = true;
                break;
            default:
                t = rng.chance(50) ? variable_type::real : variable_type::integer;
                p[ti] = t;
        }
    }
    const auto text = "vector sum " + showp(p);
    std::unique_ptr<cosim::function> f;
    bool threw = false;
    try {
        f = type.instantiate(p);
    } catch (const std::exception&) {
        threw = true;
    }
    VH_CHECK(threw == bad, bad ? "bad-parameters-accepted" : "good-parameters-rejected", text);
    vh::evaluated();
    if (bad) {
        vh::count("bad_parameters_rejected");
        return;
    }
    // The description agrees with what the type's description says.
    const auto viaType = cosim::substitute_function_parameters(type.description(), p);
    check_description(viaType, count, dim, t, text + " (by substitution)");
    if (rng.chance(25)) {
        if (t == variable_type::real) f = std::make_unique<cosim::vector_sum_function<double>>(count, dim);
        else f = std::make_unique<cosim::vector_sum_function<int>>(count, dim);
    }
    if (t == variable_type::real) vector_case<double>(rng, *f, count, dim, text);
    else vector_case<int>(rng, *f, count, dim, text);
    vh::distinct(vh::hash_str(text));
    vh::sample(text);
}

// Direct construction with numbers that make no sense.
void bad_construction(vh::rng& rng)
{
    int c = static_cast<int>(rng.range(-3, 2)), d = static_cast<int>(rng.range(-3, 2));
    if (c >= 1 && d >= 1) (rng.chance(50) ? c : d) = static_cast<int>(-rng.range(0, 3));
    const bool a = throws([&] { cosim::vector_sum_function<double> f(c, d); });
    const bool b = throws([&] { cosim::vector_sum_function<int> f(c, d); });
    VH_CHECK(a && b, "bad-parameters-accepted", "vector_sum_function(", c, ", ", d, ") was accepted");
    vh::count("bad_constructions_rejected");
    vh::evaluated();
}

// What authors of function types use to look up parameters and to describe
// functions with parameters.
template<typename T>
void lookup(const cosim::function_type_description& d, const function_parameter_value_map& m, int i, const std::string& text)
{
    const bool exists = i >= 0 && i < static_cast<int>(d.parameters.size());
    std::optional<T> want;
    if (exists) {
        const auto& p = d.parameters[static_cast<std::size_t>(i)];
        const auto it = m.find(i);
        const auto& v = it == m.end() ? p.default_value : it->second;
        if (const auto x = std::get_if<T>(&v)) {
            want = *x;
            if constexpr (std::is_arithmetic_v<T>) {
                if (it != m.end() && p.min_value && *x < std::get<T>(*p.min_value)) want.reset();
                if (it != m.end() && p.max_value && *x > std::get<T>(*p.max_value)) want.reset();
            }
        }
    }
    std::optional<T> got;
    // (bounds are of the parameter's own type, so a value of another type
    // can't be compared with them)
    const bool threw = throws([&] { got = cosim::get_function_parameter<T>(d, m, i); });
    VH_CHECK(threw == !want, want ? "parameter-refused" : "parameter-not-refused", "parameter ", i, ": ", text);
    VH_CHECK(threw || *got == *want, "parameter-value", "parameter ", i, ": ", text);
    vh::count(threw ? "parameter_lookups_refused" : "parameter_lookups");
    vh::evaluated();
}

void helper_case(vh::rng& rng)
{
    const auto f = gen_funtype(rng, false);
    const auto& d = f->descr;
    // (values of a wrong type are for the look-ups that know the type)
    const auto m = gen_params(rng, d, rng.chance(40) ? 50 : 0);
    std::string text;
    for (const auto& [i, v] : m) {
        text += cat(i, "=");
        std::visit([&](const auto& x) {
            if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) text += cat(x, " ");
            else text += cat("type ", static_cast<int>(x), " ");
        }, v);
    }
    for (int i = -1; i <= static_cast<int>(d.parameters.size()); ++i) {
        const auto type = i < 0 || i >= static_cast<int>(d.parameters.size()) ? function_parameter_type::real : d.parameters[static_cast<std::size_t>(i)].type;
        const bool known = i >= 0 && i < static_cast<int>(d.parameters.size());
        if (!known || type == function_parameter_type::real) lookup<double>(d, m, i, text);
        if (!known || type == function_parameter_type::integer) lookup<int>(d, m, i, text);
        if (!known || type == function_parameter_type::type) lookup<variable_type>(d, m, i, text);
    }

    bool bad = false; // a parameter which the description needs
    const auto needs = [&](const auto& x) {
        const auto p = std::get_if<cosim::function_parameter_placeholder>(&x);
        if (!p) return;
        const auto it = m.find(p->parameter_index);
        if (it == m.end()) return;
        function_parameter_value_map one;
        one.insert(*it);
        if (!acceptable(d, one)) bad = true;
    };
    for (const auto& g : d.io_groups) {
        needs(g.count);
        for (const auto& io : g.ios) {
            needs(io.count);
            needs(io.type);
        }
    }
    cosim::function_description got;
    const bool threw = throws([&] { got = cosim::substitute_function_parameters(d, m); });
    VH_CHECK(threw == bad, bad ? "bad-parameters-accepted" : "good-parameters-rejected", "substitution: ", text);
    vh::count(bad ? "substitutions_refused" : "substitutions");
    vh::evaluated();
    if (bad) return;
    const auto want = f->spec(m);
    VH_CHECK(got.io_groups.size() == want.groups.size(), "substitution", "number of groups; ", text);
    for (std::size_t g = 0; g < want.groups.size(); ++g) {
        const auto &a = got.io_groups[g], &b = want.groups[g];
        VH_CHECK(a.name == b.name && std::get<int>(a.count) == std::get<int>(b.count) && a.ios.size() == b.ios.size(), "substitution", "group ", g, "; ", text);
        for (std::size_t i = 0; i < b.ios.size(); ++i)
            VH_CHECK(a.ios[i].name == b.ios[i].name && std::get<variable_type>(a.ios[i].type) == std::get<variable_type>(b.ios[i].type) && a.ios[i].causality == b.ios[i].causality && std::get<int>(a.ios[i].count) == std::get<int>(b.ios[i].count),
                "substitution", "variable ", i, " of group ", g, "; ", text);
    }
}
} // namespace

VH_PROP(C27)
{
    for (int i = 0; i < 20; ++i) {
        switch (rng.range(0, 5)) {
            case 5: helper_case(rng); break;
            case 0:
            case 1: linear_case(rng); break;
            case 2:
            case 3: vector_sum_case(rng); break;
            default: bad_construction(rng); break;
        }
    }
}
