// C25: OSP system description files.
// C26: SSP system structure files.
// C35: model look-up through resolvers.
// C32: mutated versions of those files.
#include "mutate.hpp"
#include "world.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/osp_config_parser.hpp>
#include <cosim/ssp/ssp_loader.hpp>
#include <cosim/system_structure.hpp>
#include <cosim/uri.hpp>

#include <zip.h>

#include <cmath>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <random>
#include <set>

using namespace world;

namespace vh
{
extern std::function<std::shared_ptr<cosim::fmi::fmu>(const cosim::filesystem::path&)> fmuImportHook;
}

namespace
{
namespace fs = std::filesystem;

template<typename C>
auto&& choose(vh::rng& r, C&& c) { return c[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(c.size()) - 1))]; }

using cosim::full_variable_name;
using vh::rng;

// ----------------------------------------------------------------- models

struct cmodel : cosim::model
{
    std::shared_ptr<cosim::model_description> descr = std::make_shared<cosim::model_description>();
    slave_spec spec;
    std::shared_ptr<order> ord;
    std::vector<std::shared_ptr<vslave>> instances;
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return descr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override
    {
        if (!ord) throw std::logic_error("unexpected instantiation");
        auto s = std::make_shared<vslave>(spec, ord);
        instances.push_back(s);
        return s;
    }
};

std::string undecode(std::string_view s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() && std::isxdigit(static_cast<unsigned char>(s[i + 1])) && std::isxdigit(static_cast<unsigned char>(s[i + 2]))) {
            r += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
            i += 2;
        } else
            r += s[i];
    }
    return r;
}

std::string pct(const std::string& s)
{
    std::string r;
    for (const char ch : s) {
        const auto c = static_cast<unsigned char>(ch);
        if (std::isalnum(c) || std::strchr("-._~/", ch)) r += ch;
        else {
            char b[4];
            std::snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    }
    return r;
}

// Knows models by their (decoded) absolute URIs.
struct table_resolver : cosim::model_uri_sub_resolver
{
    std::map<std::string, std::shared_ptr<cmodel>> models;
    std::vector<std::string> asked;
    static std::string key(const cosim::uri& u)
    {
        std::string s(u.scheme() ? std::string(*u.scheme()) : "");
        std::string a(u.authority() ? std::string(*u.authority()) : "");
        if (a == "localhost" && s == "file") a.clear();
        return s + "://" + a + undecode(u.path()) + (u.query() ? "?" + undecode(*u.query()) : "");
    }
    using cosim::model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        asked.push_back(key(u));
        const auto it = models.find(asked.back());
        return it == models.end() ? nullptr : it->second;
    }
};

// ----------------------------------------------------------------- XML text

std::string xesc(rng& r, const std::string& s)
{
    std::string o;
    for (const char c : s) {
        switch (c) {
            case '&': o += r.chance(50) ? "&amp;" : "&#38;"; break;
            case '<': o += "&lt;"; break;
            case '>': o += r.chance(50) ? "&gt;" : ">"; break;
            case '"': o += "&quot;"; break;
            case '\'': o += r.chance(50) ? "&apos;" : "&#x27;"; break;
            case '\n': o += "&#10;"; break;
            case '\t': o += "&#9;"; break;
            default: o += c; break;
        }
    }
    return o;
}

std::string number(rng& r, double v)
{
    std::ostringstream o;
    o << std::setprecision(17);
    switch (r.range(0, 3)) {
        case 0: o << v; break;
        case 1: o << std::scientific << v; break;
        case 2: o << std::scientific << std::uppercase << v; break;
        default: o << v; break;
    }
    auto s = o.str();
    if (r.chance(8) && v >= 0) s = "+" + s;
    return s;
}

// Values that survive being printed and read exactly.
double gen_real(rng& r)
{
    switch (r.range(0, 5)) {
        case 0: return static_cast<double>(r.range(-20, 20));
        case 1: return static_cast<double>(r.range(-100000, 100000)) / 1024;
        case 2: return std::ldexp(static_cast<double>(r.range(-1000, 1000)), static_cast<int>(r.range(-60, 60)));
        case 3: return static_cast<double>(r.range(-1000, 1000)) / 10;
        default: return static_cast<double>(r.range(-99999, 99999)) / 7;
    }
}

std::string gen_text(rng& r, bool ascii = false)
{
    static const std::vector<std::string> bits = {"a", "B", "x1", "_", " ", "&", "<", ">", "\"", "'", "\t", "\n", "  ", "%20", "#", "0", "true", ":", "\xC3\xA6", "\xC3\xB8", "\xE2\x82\xAC", "]]>"};
    std::string s;
    const auto n = r.range(0, r.chance(2) ? 400 : 6);
    for (int i = 0; i < n; ++i) s += bits[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(bits.size()) - (ascii ? 5 : 1)))];
    return s;
}

// A name of a variable, simulator, group or function.
std::string gen_name(rng& r, int i)
{
    static const std::vector<std::string> pre = {"v", "p_Crane.e", "der(x)", "Motor ", "a:b", "\xC3\xA5rm", "x&y", "n<1>", "in[0]", "out", "\xE6\x97\xA5", "", "", "", ""};
    return r.pick(pre) + static_cast<char>('a' + r.range(0, 3)) + std::to_string(i) + (r.chance(10) ? "[1]" : "");
}

void write(const fs::path& p, const std::string& s)
{
    fs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f << s;
    f.close();
    if (!f) vh::harness_error("cannot write " + p.string());
}

std::string dir_name(rng& r)
{
    static const std::vector<std::string> n = {"conf", "a b", "x%20y", "q#1", "w?z", "\xC3\xA6\xC3\xB8", "n&m", "c+d", "semi;colon", "eq=al", "t~", "conf.d", "[x]"};
    return r.pick(n);
}

// A directory for one case.
struct case_dir
{
    fs::path path;
    explicit case_dir(long long i) : path(fs::path(vh::scratch_dir()) / cat("case", i)) { fs::create_directories(path); }
    ~case_dir()
    {
        std::error_code e;
        fs::remove_all(path, e);
    }
};

// ----------------------------------------------------------------- systems

struct gvar
{
    std::string name;
    variable_type type;
    variable_causality causality;
};

// A group of variables, as in a model's OSP description.
struct group
{
    std::string kind, name;
    std::vector<group> groups;
    std::vector<std::string> vars;
};

struct gmodel
{
    std::string key; // decoded absolute URI
    std::string source; // what the file says
    std::string name, uuid;
    std::vector<gvar> vars;
    std::vector<group> groups;
    fs::path emd; // where its description goes (empty: none)
    int counter = 0;
    std::string add(rng& r, variable_type t, variable_causality c)
    {
        vars.push_back({gen_name(r, counter++), t, c});
        return vars.back().name;
    }
};

struct gsim
{
    std::string name;
    int model;
    std::optional<double> step;
    std::map<std::string, scalar_value> inits;
};

struct gfun
{
    std::string kind, name;
    double factor = 1, offset = 0;
    bool hasFactor = false, hasOffset = false;
    int inputs = 0, dimension = 1;
};

struct endpoint
{
    std::string entity, name;
};

struct gconn
{
    std::string kind;
    endpoint a, b; // signals first
};

struct osp
{
    fs::path dir, file;
    std::vector<gmodel> models;
    std::vector<gsim> sims;
    std::vector<gfun> funs;
    std::vector<gconn> conns;
    std::optional<double> start, end, base;
    bool prefix = false;
    std::set<std::pair<std::string, std::string>> expected; // source, target
    bool reject = false;
    std::string why;
    std::string emdDefect; // how the models' descriptions are damaged
    bool unclear = false; // may be accepted or rejected
};

int new_var(osp& o, rng& r, int sim, variable_type t, variable_causality c, std::string& name)
{
    name = o.models[static_cast<std::size_t>(o.sims[static_cast<std::size_t>(sim)].model)].add(r, t, c);
    return sim;
}

const std::vector<variable_type> kTypes = {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string};

variable_causality some_output(rng& r)
{
    return r.chance(15) ? variable_causality::calculated_parameter : variable_causality::output;
}

// The shape of a group connection: leaves have a direction for each member.
struct shape
{
    std::vector<shape> groups;
    struct leaf
    {
        bool aToB;
        variable_type type;
    };
    std::vector<leaf> vars;
    std::string kind;
};

shape gen_shape(rng& r, int depth)
{
    shape s;
    auto leaves = [&](int lo, int hi, variable_type t, int dir) {
        std::vector<shape::leaf> v;
        const auto n = r.range(lo, hi);
        for (int i = 0; i < n; ++i) v.push_back({dir < 0 ? r.chance(50) : dir == 1, t});
        return v;
    };
    switch (r.range(0, depth < 2 ? 4 : 2)) {
        case 0: s.kind = "Force"; s.vars = leaves(1, 3, variable_type::real, -1); break;
        case 1: s.kind = "LinearVelocity"; s.vars = leaves(1, 3, variable_type::real, -1); break;
        case 3: {
            s.kind = "LinearMechanicalPort";
            shape f, v;
            f.kind = "Force";
            f.vars = leaves(1, 3, variable_type::real, 1);
            v.kind = "LinearVelocity";
            v.vars = leaves(1, 3, variable_type::real, 0);
            s.groups = {f, v};
            break;
        }
        case 4: {
            s.kind = "Generic";
            const auto n = r.range(1, 3);
            for (int i = 0; i < n; ++i) s.groups.push_back(gen_shape(r, depth + 1));
            s.vars = leaves(0, 2, r.pick(kTypes), -1);
            break;
        }
        default: s.kind = "Generic"; s.vars = leaves(1, 5, r.pick(kTypes), -1); break;
    }
    return s;
}

// Makes a group for one side of a connection.
group realise(rng& r, osp& o, int sim, const shape& s, bool sideA, const std::string& name, std::vector<std::pair<std::string, bool>>& flat)
{
    group g;
    g.kind = s.kind;
    g.name = name;
    static const std::vector<std::string> nested = {"force", "velocity", "inner"};
    int k = 0;
    std::set<std::string> used;
    for (const auto& c : s.groups) {
        // Names of nested groups recur in different groups, but not in the same one.
        auto n = c.kind == "Force" ? "force" : c.kind == "LinearVelocity" ? "velocity" : "inner";
        auto nn = used.insert(n).second ? std::string(n) : cat(n, k);
        ++k;
        used.insert(nn);
        g.groups.push_back(realise(r, o, sim, c, sideA, nn, flat));
    }
    for (const auto& l : s.vars) {
        const bool out = l.aToB == sideA;
        std::string v;
        new_var(o, r, sim, l.type, out ? some_output(r) : variable_causality::input, v);
        g.vars.push_back(v);
        flat.emplace_back(v, out);
    }
    return g;
}

std::string ve(const std::string& sim, const std::string& var) { return cosim::to_text(full_variable_name(sim, var)); }

void gen_osp(rng& r, osp& o, const fs::path& root)
{
    o.dir = root / dir_name(r);
    if (r.chance(30)) o.dir /= dir_name(r);
    fs::create_directories(o.dir);
    o.file = o.dir / (r.chance(60) ? std::string("OspSystemStructure.xml") : "sys tem" + std::to_string(r.range(0, 9)) + ".xml");
    o.prefix = r.chance(15);

    const bool large = r.chance(3);
    if (large) vh::count("scaled:large_documents");
    const auto nm = r.range(1, large ? 15 : 4);
    for (int i = 0; i < nm; ++i) {
        gmodel m;
        m.name = cat("Model", i, r.chance(15) ? " \xC3\xA6" : "");
        m.uuid = cat("uuid", r.next());
        std::string fname = cat(r.chance(30) ? dir_name(r) : std::string("m"), i, ".fmu");
        fs::path emdDir;
        switch (r.range(0, 5)) {
            case 0: { // other scheme, resolved by name only
                m.source = cat("vmodel://host.example:", 1000 + i, "/x/", pct(fname));
                m.key = undecode(m.source);
                emdDir = o.dir;
                break;
            }
            case 1: { // in the query, next to the configuration
                const auto sub = r.chance(50) ? std::string("sub") : dir_name(r);
                if (sub.find('&') != std::string::npos) { --i; continue; }
                if (r.chance(50)) m.source = cat("proxyfmu://localhost?file=", pct(sub + "/" + fname));
                else m.source = cat("proxyfmu://localhost?file=file://", pct((o.dir / sub / fname).string()));
                m.key = undecode(m.source);
                emdDir = r.chance(70) ? o.dir / sub : o.dir;
                break;
            }
            case 2: { // absolute
                const auto d = root / "abs" / dir_name(r);
                m.source = cat(r.chance(30) ? "file://localhost" : "file://", pct((d / fname).string()));
                m.key = "file://" + (d / fname).string();
                emdDir = r.chance(70) ? d : o.dir;
                break;
            }
            case 3: { // above
                const auto sub = dir_name(r);
                m.source = cat("../", pct(sub), "/", pct(fname));
                m.key = "file://" + (o.dir.parent_path() / sub / fname).string();
                emdDir = r.chance(70) ? o.dir.parent_path() / sub : o.dir;
                break;
            }
            default: {
                const auto sub = r.chance(50) ? std::string() : dir_name(r) + "/";
                m.source = cat(r.chance(20) ? "./" : "", pct(sub + fname));
                m.key = "file://" + o.dir.string() + "/" + sub + fname;
                emdDir = r.chance(70) ? o.dir / sub : o.dir;
                break;
            }
        }
        m.emd = emdDir / (m.name + "_OspModelDescription.xml");
        const auto nv = r.range(0, large ? 60 : 5);
        for (int k = 0; k < nv; ++k)
            m.add(r, r.pick(kTypes), static_cast<variable_causality>(r.range(0, 4)));
        o.models.push_back(std::move(m));
    }
    const auto nsim = r.range(0, 9) ? r.range(1, large ? 40 : 5) : 0;
    std::set<std::string> names;
    for (int i = 0; i < nsim; ++i) {
        gsim s;
        s.name = gen_name(r, i);
        if (!names.insert(s.name).second) continue;
        s.model = static_cast<int>(r.range(0, nm - 1));
        if (r.chance(40)) s.step = r.chance(20) ? 0.0 : static_cast<double>(r.range(1, 5000)) / 1000;
        o.sims.push_back(s);
    }
    if (r.chance(60)) o.start = r.chance(30) ? 0.0 : static_cast<double>(r.chance(20) ? r.range(-900000000000, 900000000000) : r.range(-5000, 50000)) / 100;
    if (r.chance(50)) o.end = (o.start ? *o.start : 0.0) + (r.chance(15) ? 0.0 : static_cast<double>(r.range(0, 5000)) / 100);
    if (r.chance(60)) o.base = r.chance(20) ? 1e-9 * static_cast<double>(r.range(1, 1000)) : static_cast<double>(r.range(1, 20000)) / 10000;
    if (o.sims.empty()) return;

    auto anySim = [&] { return static_cast<int>(r.range(0, static_cast<std::int64_t>(o.sims.size()) - 1)); };
    auto simName = [&](int s) { return o.sims[static_cast<std::size_t>(s)].name; };

    // plain connections
    const auto nc = r.range(0, large ? 120 : 6);
    struct outvar { int sim; std::string name; variable_type type; };
    std::vector<outvar> outs;
    auto source = [&](variable_type t) {
        if (r.chance(40))
            for (const auto& v : outs)
                if (v.type == t && r.chance(60)) return v;
        outvar v;
        v.type = t;
        v.sim = anySim();
        new_var(o, r, v.sim, t, some_output(r), v.name);
        outs.push_back(v);
        return v;
    };
    for (int i = 0; i < nc; ++i) {
        const auto t = r.pick(kTypes);
        const auto v = source(t);
        const int b = anySim();
        std::string in;
        new_var(o, r, b, t, variable_causality::input, in);
        endpoint A{simName(v.sim), v.name}, B{simName(b), in};
        o.expected.emplace(ve(A.entity, A.name), ve(B.entity, B.name));
        if (r.chance(50)) std::swap(A, B);
        o.conns.push_back({"VariableConnection", A, B});
        vh::count("variable_connections");
    }
    // groups
    const auto ng = r.range(0, large ? 15 : 3);
    for (int i = 0; i < ng; ++i) {
        const int a = anySim(), b = anySim();
        const auto s = gen_shape(r, 0);
        std::vector<std::pair<std::string, bool>> fa, fb;
        const auto na = cat("port ", i, "A"), nb = cat("port ", i, "B");
        auto& ma = o.sims[static_cast<std::size_t>(a)].model;
        auto ga = realise(r, o, a, s, true, na, fa);
        auto gb = realise(r, o, b, s, false, nb, fb);
        o.models[static_cast<std::size_t>(ma)].groups.push_back(ga);
        o.models[static_cast<std::size_t>(o.sims[static_cast<std::size_t>(b)].model)].groups.push_back(gb);
        gconn c{"VariableGroupConnection", {simName(a), na}, {simName(b), nb}};
        if (r.chance(50)) std::swap(c.a, c.b);
        o.conns.push_back(c);
        for (std::size_t k = 0; k < fa.size(); ++k) {
            const auto x = ve(simName(a), fa[k].first), y = ve(simName(b), fb[k].first);
            if (fa[k].second) o.expected.emplace(x, y);
            else o.expected.emplace(y, x);
        }
        vh::count(s.groups.empty() ? "group_connections" : "bond_connections");
        vh::count("group_members", static_cast<long long>(fa.size()));
        if (r.chance(20) && s.groups.size() && s.vars.empty() && r.chance(50)) vh::count("nested_only");
    }
    // functions
    const auto nf = r.range(0, large ? 20 : 3);
    std::set<std::string> fnames;
    for (int i = 0; i < nf; ++i) {
        gfun f;
        f.name = gen_name(r, 1000 + i);
        if (!fnames.insert(f.name).second || names.count(f.name)) continue;
        auto input = [&](const std::string& signal, const std::string& target) {
            const auto v = source(variable_type::real);
            o.conns.push_back({"SignalConnection", {f.name, signal}, {simName(v.sim), v.name}});
            o.expected.emplace(ve(simName(v.sim), v.name), target);
        };
        auto output = [&](const std::string& signal, const std::string& src) {
            const auto n = r.chance(25) ? 2 : 1;
            if (n == 2) vh::count("fan_out");
            for (int k = 0; k < n; ++k) {
                const int b = anySim();
                std::string in;
                new_var(o, r, b, variable_type::real, variable_causality::input, in);
                o.conns.push_back({"SignalConnection", {f.name, signal}, {simName(b), in}});
                o.expected.emplace(src, ve(simName(b), in));
            }
        };
        switch (r.range(0, 2)) {
            case 0: {
                f.kind = "LinearTransformation";
                if ((f.hasFactor = r.chance(70))) f.factor = gen_real(r);
                if ((f.hasOffset = r.chance(70))) f.offset = gen_real(r);
                input("in", cosim::to_text(full_variable_name(f.name, "in", "")));
                output("out", cosim::to_text(full_variable_name(f.name, "out", "")));
                break;
            }
            case 1: {
                f.kind = "Sum";
                f.inputs = static_cast<int>(r.range(1, large ? 120 : 12));
                for (int k = 0; k < f.inputs; ++k)
                    input(cat("in[", k, "]"), cosim::to_text(full_variable_name(f.name, "in", k, "", 0)));
                output("out", cosim::to_text(full_variable_name(f.name, "out", "")));
                break;
            }
            default: {
                f.kind = "VectorSum";
                f.inputs = static_cast<int>(r.range(1, large ? 20 : 4));
                f.dimension = static_cast<int>(r.range(1, large ? 20 : 4));
                auto port = [&](const std::string& signal, bool in, int inst) {
                    const int s = anySim();
                    group g;
                    g.kind = "Generic";
                    g.name = cat("vec ", f.name, " ", signal, in ? "" : cat(" ", inst));
                    for (int j = 0; j < f.dimension; ++j) {
                        std::string v;
                        new_var(o, r, s, variable_type::real, in ? some_output(r) : variable_causality::input, v);
                        g.vars.push_back(v);
                        if (in) o.expected.emplace(ve(simName(s), v), cosim::to_text(full_variable_name(f.name, "in", inst, "", j)));
                        else o.expected.emplace(cosim::to_text(full_variable_name(f.name, "out", 0, "", j)), ve(simName(s), v));
                    }
                    o.models[static_cast<std::size_t>(o.sims[static_cast<std::size_t>(s)].model)].groups.push_back(g);
                    o.conns.push_back({"SignalGroupConnection", {f.name, signal}, {simName(s), g.name}});
                };
                for (int k = 0; k < f.inputs; ++k) port(cat("in[", k, "]"), true, k);
                const auto n = r.chance(25) ? 2 : 1;
                for (int k = 0; k < n; ++k) port("out", false, k);
                break;
            }
        }
        vh::count("functions:" + f.kind);
        o.funs.push_back(f);
    }
    // initial values
    for (auto& s : o.sims) {
        const auto& m = o.models[static_cast<std::size_t>(s.model)];
        for (const auto& v : m.vars) {
            if (!r.chance(25) || (v.causality != variable_causality::input && v.causality != variable_causality::parameter)) continue;
            switch (v.type) {
                case variable_type::real: s.inits[v.name] = gen_real(r); break;
                case variable_type::integer: s.inits[v.name] = static_cast<int>(r.chance(20) ? (r.chance(50) ? INT_MAX : INT_MIN) : r.range(-1000, 1000)); break;
                case variable_type::boolean: s.inits[v.name] = r.chance(50); break;
                default: s.inits[v.name] = gen_text(r); break;
            }
        }
    }
}

// Literal text that replaces parts of the document in spoilt variants.
struct spoil
{
    std::string initType; // wrong element for the last initial value
    std::string extraTop, extraSim, extraConn;
    std::string version = "0.1", xns = "http://opensimulationplatform.com/MSMI/OSPSystemStructure";
    std::string baseText, startText, endText, stepText, countText;
    std::string dropAttr;
};

std::string render(rng& r, const osp& o, const spoil& sp)
{
    const std::string p = o.prefix ? "osp:" : "";
    std::ostringstream x;
    auto nl = [&]() -> std::string { return r.chance(80) ? "\n" : r.chance(50) ? "" : " <!-- Connections <Simulators/> -->\n"; };
    auto q = [&](const std::string& s) { return "\"" + xesc(r, s) + "\""; };
    auto pad = [&](const std::string& s) { return r.chance(10) ? " " + s + "\n " : s; };
    if (r.chance(10)) x << "\xEF\xBB\xBF";
    if (r.chance(90)) x << "<?xml version=\"1.0\" encoding=\"" << (r.chance(50) ? "utf-8" : "UTF-8") << "\"" << (r.chance(20) ? " standalone=\"yes\"" : "") << "?>" << nl();
    x << "<" << p << "OspSystemStructure xmlns" << (o.prefix ? ":osp" : "") << "=\"" << sp.xns << "\" ";
    if (sp.dropAttr != "version") x << "version=\"" << sp.version << "\"";
    x << ">" << nl();
    auto simple = [&](const char* n, const std::optional<double>& v, const std::string& text) {
        if (!text.empty()) x << "<" << p << n << ">" << text << "</" << p << n << ">" << nl();
        else if (v) x << "<" << p << n << ">" << pad(number(r, *v)) << "</" << p << n << ">" << nl();
    };
    simple("StartTime", o.start, sp.startText);
    simple("EndTime", o.end, sp.endText);
    simple("BaseStepSize", o.base, sp.baseText);
    if (r.chance(50)) x << "<" << p << "Algorithm>fixedStep</" << p << "Algorithm>" << nl();
    x << sp.extraTop;
    x << "<" << p << "Simulators>" << nl();
    for (const auto& s : o.sims) {
        const auto& m = o.models[static_cast<std::size_t>(s.model)];
        std::vector<std::string> at;
        if (sp.dropAttr != "name") at.push_back("name=" + q(s.name));
        if (sp.dropAttr != "source") at.push_back("source=" + q(m.source));
        if (!sp.stepText.empty()) at.push_back("stepSize=" + q(sp.stepText));
        else if (s.step) at.push_back("stepSize=" + q(pad(number(r, *s.step))));
        std::shuffle(at.begin(), at.end(), std::mt19937(static_cast<unsigned>(r.next())));
        x << "<" << p << "Simulator";
        for (const auto& a : at) x << " " << a;
        x << ">" << nl();
        if (!s.inits.empty() || r.chance(10)) {
            x << "<" << p << "InitialValues>";
            for (const auto& [n, v] : s.inits) {
                x << "<" << p << "InitialValue variable=" << q(n) << ">";
                std::string el, val;
                switch (v.index()) {
                    case 0: el = "Real"; val = pad(number(r, std::get<double>(v))); break;
                    case 1: el = "Integer"; val = pad(std::to_string(std::get<int>(v))); break;
                    case 2: el = "Boolean"; val = pad(std::get<bool>(v) ? (r.chance(50) ? "true" : "1") : (r.chance(50) ? "false" : "0")); break;
                    default: el = "String"; val = std::get<std::string>(v); break;
                }
                if (!sp.initType.empty()) el = sp.initType;
                x << "<" << p << el << " value=" << q(val) << "/></" << p << "InitialValue>" << nl();
            }
            x << "</" << p << "InitialValues>";
        }
        x << sp.extraSim << "</" << p << "Simulator>" << nl();
    }
    x << "</" << p << "Simulators>" << nl();
    if (!o.funs.empty() || r.chance(10)) {
        x << "<" << p << "Functions>";
        for (const std::string kind : {"LinearTransformation", "Sum", "VectorSum"})
            for (const auto& f : o.funs) {
                if (f.kind != kind) continue;
                x << "<" << p << kind << " name=" << q(f.name);
                if (f.hasFactor) x << " factor=" << q(number(r, f.factor));
                if (f.hasOffset) x << " offset=" << q(number(r, f.offset));
                if (f.inputs) x << " inputCount=" << q(sp.countText.empty() ? (r.chance(10) ? "+" : "") + std::to_string(f.inputs) : sp.countText);
                if (kind == "VectorSum") x << " dimension=" << q((r.chance(10) ? "0" : "") + std::to_string(f.dimension));
                x << "/>" << nl();
            }
        x << "</" << p << "Functions>" << nl();
    }
    if (!o.conns.empty()) {
        x << "<" << p << "Connections>" << nl() << sp.extraConn;
        for (const auto& c : o.conns) {
            x << "<" << p << c.kind << ">";
            const bool group = c.kind.find("Group") != std::string::npos;
            auto var = [&](const endpoint& e) {
                x << "<" << p << "Variable" << (group ? "Group" : "") << (r.chance(50) ? " simulator=" + q(e.entity) + " name=" + q(e.name) : " name=" + q(e.name) + " simulator=" + q(e.entity)) << "/>" << nl();
            };
            auto sig = [&](const endpoint& e) {
                x << "<" << p << "Signal" << (group ? "Group" : "") << " function=" << q(e.entity) << " name=" << q(e.name) << "/>" << nl();
            };
            if (c.kind[0] == 'V') {
                var(c.a);
                var(c.b);
            } else if (r.chance(50)) {
                sig(c.a);
                var(c.b);
            } else {
                var(c.b);
                sig(c.a);
            }
            x << "</" << p << c.kind << ">" << nl();
        }
        x << "</" << p << "Connections>" << nl();
    }
    x << "</" << p << "OspSystemStructure>" << nl();
    return x.str();
}

void render_group(rng& r, std::ostringstream& x, const group& g, const std::string& p)
{
    x << "<" << p << g.kind << " name=\"" << xesc(r, g.name) << "\">\n";
    for (const auto& c : g.groups) render_group(r, x, c, p);
    for (const auto& v : g.vars) x << "<" << p << "Variable ref=\"" << xesc(r, v) << "\"" << (r.chance(20) ? " unit=\"force~N\"" : "") << (r.chance(50) ? "/>" : "></" + p + "Variable>") << "\n";
    x << "</" << p << g.kind << ">\n";
}

std::string render_emd(rng& r, const gmodel& m)
{
    std::ostringstream x;
    const std::string p = r.chance(15) ? "d:" : "";
    x << "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<" << p << "OspModelDescription xmlns" << (p.empty() ? "" : ":d") << "=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\" version=\"0.1\">\n";
    if (r.chance(40)) x << "<" << p << "UnitDefinitions><" << p << "Unit name=\"force~N\"><" << p << "BaseUnit kg=\"1\" m=\"1\" s=\"-2\"/></" << p << "Unit></" << p << "UnitDefinitions>\n";
    x << "<" << p << "VariableGroups>\n";
    for (const auto& g : m.groups) render_group(r, x, g, p);
    x << "</" << p << "VariableGroups>\n</" << p << "OspModelDescription>\n";
    return x.str();
}

std::shared_ptr<table_resolver> make_resolver(const osp& o)
{
    auto t = std::make_shared<table_resolver>();
    for (const auto& m : o.models) {
        auto c = std::make_shared<cmodel>();
        c->descr->name = m.name;
        c->descr->uuid = m.uuid;
        value_reference k = 0;
        for (const auto& v : m.vars) {
            cosim::variable_description d;
            d.name = v.name;
            d.reference = k++;
            d.type = v.type;
            d.causality = v.causality;
            d.variability = v.causality == variable_causality::parameter || v.causality == variable_causality::calculated_parameter ? cosim::variable_variability::tunable : cosim::variable_variability::discrete;
            c->descr->variables.push_back(d);
        }
        t->models[m.key] = c;
    }
    return t;
}

// Whether a time in the file was understood, within rounding.
bool near_time(std::int64_t ticks, double seconds)
{
    const double e = seconds * 1e9;
    return std::abs(static_cast<double>(ticks) - e) <= 1 + std::abs(e) * 1e-15;
}

std::optional<osp> spoil_osp(rng& r, const osp& o0, spoil& sp);
} // namespace


VH_PROP(C25)
{
    const case_dir tmp(caseIndex);
    const fs::path root = tmp.path;
    osp o;
    gen_osp(rng, o, root);
    spoil sp;
    if (rng.chance(45)) {
        auto s = spoil_osp(rng, o, sp);
        if (!s) return;
        o = std::move(*s);
        o.reject = true;
    }
    const auto resolver = make_resolver(o);
    cosim::model_uri_resolver top;
    top.add_sub_resolver(resolver);
    for (const auto& m : o.models) {
        if (m.emd.empty() || (m.groups.empty() && rng.chance(70))) continue;
        auto d = render_emd(rng, m);
        if (o.emdDefect == "truncated") d = d.substr(0, static_cast<std::size_t>(rng.range(0, static_cast<std::int64_t>(d.rfind("</")) + 1)));
        else if (o.emdDefect == "empty") d.clear();
        else if (o.emdDefect == "no groups") d = "<OspModelDescription xmlns=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\" version=\"0.1\"><UnitDefinitions/></OspModelDescription>";
        else if (o.emdDefect == "other document") d = "<?xml version=\"1.0\"?><html><body>VariableGroups</body></html>";
        else if (o.emdDefect == "not XML") d = "VariableGroups: []\n";
        else if (o.emdDefect == "unnamed") while (d.find(" name=") != std::string::npos) d.replace(d.find(" name="), 6, " nome=");
        write(m.emd, d);
    }
    auto doc = render(rng, o, sp);
    if (o.why == "truncated") doc = doc.substr(0, static_cast<std::size_t>(rng.range(0, static_cast<std::int64_t>(doc.rfind("</")) + 1)));
    if (o.why != "missing file") write(o.file, doc);
    fs::path given = o.file;
    if (o.file.filename() == "OspSystemStructure.xml" && rng.chance(40)) given = rng.chance(70) ? o.dir : o.dir / "";
    if (rng.chance(20)) given = fs::relative(given, fs::current_path());
    vh::context(cat(o.why.empty() ? "valid" : o.why, " ", given.string(), "\n", doc));
    vh::sample(cat(o.why.empty() ? "valid" : "spoilt: " + o.why, ", ", o.sims.size(), " simulators, ", o.funs.size(), " functions, ", o.expected.size(), " scalar connections, ", doc.size(), " bytes"));

    std::optional<cosim::osp_config> loaded;
    std::string error;
    try {
        loaded.emplace(cosim::load_osp_config(given.string(), top));
    } catch (const std::exception& e) {
        error = e.what();
    }
    vh::evaluated();
    if (o.unclear) {
        vh::count("unclear:" + o.why);
        return;
    }
    if (o.reject) {
        VH_CHECK(!loaded, cat("accepted:", o.why), "a file with a defect (", o.why, ") was loaded: ", doc);
        vh::count("rejected_files");
        vh::count("rejected:" + o.why);
        vh::distinct(vh::hash_str(o.why + doc));
        return;
    }
    VH_CHECK(loaded.has_value(), "rejected-valid", "a valid file was rejected: ", error, "\n", doc);
    vh::distinct(vh::hash_str(doc));
    const auto& c = *loaded;
    VH_CHECK(near_time(ns(c.start_time), o.start.value_or(0)), "start-time", "start time ", ns(c.start_time), " ns instead of ", o.start.value_or(0), " s");
    VH_CHECK(c.end_time.has_value() == o.end.has_value(), "end-time", "end time present: ", c.end_time.has_value(), ", in the file: ", o.end.has_value());
    if (o.end) VH_CHECK(near_time(ns(*c.end_time), *o.end), "end-time", "end time ", ns(*c.end_time), " ns instead of ", *o.end, " s");
    VH_CHECK(near_time(c.step_size.count(), o.base.value_or(0.1)), "step-size", "step size ", c.step_size.count(), " ns instead of ", o.base.value_or(0.1), " s");

    std::size_t entities = 0;
    for (const auto& e : c.system_structure.entities()) {
        (void)e;
        ++entities;
    }
    VH_CHECK(entities == o.sims.size() + o.funs.size(), "entity-count", entities, " entities instead of ", o.sims.size() + o.funs.size(), "\n", doc);
    std::size_t inits = 0;
    for (const auto& s : o.sims) {
        const auto* e = c.system_structure.find_entity(s.name);
        VH_CHECK(e, "simulator-missing", "simulator ", s.name, " is missing");
        const auto* m = std::get_if<std::shared_ptr<cosim::model>>(&e->type);
        VH_CHECK(m && *m, "simulator-type", s.name, " is not a simulator");
        VH_CHECK(*m == resolver->models.at(o.models[static_cast<std::size_t>(s.model)].key), "simulator-model", s.name, " has another model than ", o.models[static_cast<std::size_t>(s.model)].source);
        VH_CHECK(near_time(e->step_size_hint.count(), s.step.value_or(0)), "step-size-hint", s.name, ": step size ", e->step_size_hint.count(), " ns instead of ", s.step.value_or(0), " s");
        for (const auto& [n, v] : s.inits) {
            const auto it = c.initial_values.find(full_variable_name(s.name, n));
            VH_CHECK(it != c.initial_values.end(), "initial-value-missing", "no initial value for ", s.name, ":", n);
            VH_CHECK(same(it->second, v), "initial-value", s.name, ":", n, " is ", show(it->second), " instead of ", show(v));
            ++inits;
        }
        vh::count("simulators");
    }
    VH_CHECK(c.initial_values.size() == inits, "initial-value-count", c.initial_values.size(), " initial values instead of ", inits);
    vh::count("initial_values", static_cast<long long>(inits));
    for (const auto& f : o.funs) {
        const auto* e = c.system_structure.find_entity(f.name);
        VH_CHECK(e, "function-missing", "function ", f.name, " is missing");
        const auto* t = std::get_if<std::shared_ptr<cosim::function_type>>(&e->type);
        VH_CHECK(t && *t, "function-type", f.name, " is not a function");
        auto par = [&](int i) {
            const auto it = e->parameter_values.find(i);
            return it != e->parameter_values.end() ? it->second : (*t)->description().parameters.at(static_cast<std::size_t>(i)).default_value;
        };
        if (f.kind == "LinearTransformation") {
            VH_CHECK(dynamic_cast<cosim::linear_transformation_function_type*>(t->get()), "function-type", f.name, " is not a linear transformation");
            VH_CHECK(par(cosim::linear_transformation_function_type::factor_parameter_index) == cosim::function_parameter_value(f.factor), "factor", f.name, ": wrong factor instead of ", f.factor);
            VH_CHECK(par(cosim::linear_transformation_function_type::offset_parameter_index) == cosim::function_parameter_value(f.offset), "offset", f.name, ": wrong offset instead of ", f.offset);
        } else {
            using vs = cosim::vector_sum_function_type;
            VH_CHECK(dynamic_cast<vs*>(t->get()), "function-type", f.name, " is not a vector sum");
            VH_CHECK(par(vs::inputCount_parameter_index) == cosim::function_parameter_value(f.inputs), "input-count", f.name, ": wrong number of inputs");
            VH_CHECK(par(vs::dimension_parameter_index) == cosim::function_parameter_value(f.dimension), "dimension", f.name, ": wrong dimension");
            VH_CHECK(par(vs::numericType_parameter_index) == cosim::function_parameter_value(variable_type::real), "numeric-type", f.name, ": not a sum of reals");
        }
        vh::count("functions");
    }
    std::set<std::pair<std::string, std::string>> got;
    for (const auto& k : c.system_structure.connections())
        got.emplace(cosim::to_text(k.source), cosim::to_text(k.target));
    for (const auto& k : o.expected)
        VH_CHECK(got.count(k), "connection-missing", "no connection from ", k.first, " to ", k.second, "\n", doc);
    for (const auto& k : got)
        VH_CHECK(o.expected.count(k), "connection-extra", "unexpected connection from ", k.first, " to ", k.second, "\n", doc);
    vh::count("connections", static_cast<long long>(got.size()));
    vh::count("loaded");
}

namespace
{
// Whether a document asks for unreasonably many things.
bool excessive(const std::string& doc)
{
    for (const char* what : {"inputCount", "dimension"})
        for (auto p = doc.find(what); p != std::string::npos; p = doc.find(what, p + 1)) {
            const auto q = doc.find_first_of("\"'", p);
            if (q == std::string::npos) continue;
            const auto e = doc.find(doc[q], q + 1);
            if (e == std::string::npos || e - q > 4) return true;
        }
    if (doc.size() > 2 && (doc[0] == '\xff' || doc[1] == 0)) return true; // other encodings
    return false;
}

// Runs what was loaded.
void use(const cosim::system_structure& sys, const cosim::variable_value_map& values, cosim::duration step, cosim::time_point start, const std::vector<std::shared_ptr<cmodel>>& models, const std::shared_ptr<cosim::algorithm>& given)
{
    auto ord = std::make_shared<order>();
    for (const auto& m : models) {
        m->ord = ord;
        for (const auto& d : m->descr->variables) {
            var_spec v;
            v.name = d.name;
            v.ref = d.reference;
            v.type = d.type;
            v.causality = d.causality;
            v.variability = d.variability;
            switch (d.type) {
                case variable_type::real: v.value0 = 0.5; break;
                case variable_type::integer: v.value0 = 3; break;
                case variable_type::boolean: v.value0 = true; break;
                default: v.value0 = std::string("x"); break;
            }
            v.start = v.value0;
            m->spec.vars.push_back(v);
        }
    }
    if (step <= cosim::duration(0) || step > std::chrono::hours(1000) || std::abs(ns(start)) > 1000000000000000000) return;
    vh::survives("running what was loaded", [&] {
        std::shared_ptr<cosim::algorithm> a = given;
        if (!a) a = std::make_shared<cosim::fixed_step_algorithm>(step);
        cosim::execution exe(start, a);
        cosim::inject_system_structure(exe, sys, values);
        exe.step();
    });
}
} // namespace

// C32, OSP system structures and model descriptions
VH_PROP(C32O)
{
    const case_dir tmp(caseIndex);
    osp o;
    gen_osp(rng, o, tmp.path);
    spoil sp;
    if (rng.chance(20)) {
        if (auto s = spoil_osp(rng, o, sp)) o = std::move(*s);
    }
    const auto resolver = make_resolver(o);
    cosim::model_uri_resolver top;
    top.add_sub_resolver(resolver);
    std::string doc = render(rng, o, sp), all;
    const bool mainToo = rng.chance(75);
    std::string lastEmd = doc;
    bool changed = false;
    for (const auto& m : o.models) {
        if (m.emd.empty()) continue;
        auto d = render_emd(rng, m);
        lastEmd = d;
        if (!mainToo || rng.chance(30)) d = vh::mutate(rng, d, rng.chance(50) ? doc : d), changed = true;
        if (excessive(d)) continue;
        write(m.emd, d);
        all += d + "\n";
        vh::count("model_descriptions");
    }
    if (mainToo || !changed) doc = vh::mutate(rng, doc, rng.chance(30) ? lastEmd : doc);
    if (excessive(doc)) return;
    write(o.file, doc);
    vh::context(cat(o.file.string(), "\n", doc, "\n", all));
    vh::distinct(vh::hash_str(doc + all));
    if (rng.chance(5)) vh::sample(doc.substr(0, 300));
    std::optional<cosim::osp_config> loaded;
    const auto given = o.file.filename() == "OspSystemStructure.xml" && rng.chance(40) ? o.dir : o.file;
    vh::survives("OSP system structure", [&] { loaded.emplace(cosim::load_osp_config(given.string(), top)); });
    if (!loaded) return;
    std::vector<std::shared_ptr<cmodel>> models;
    for (const auto& [k, m] : resolver->models)
        if (auto c = std::dynamic_pointer_cast<cmodel>(m)) models.push_back(c);
    use(loaded->system_structure, loaded->initial_values, loaded->step_size, loaded->start_time, models, nullptr);
}

namespace
{
// Makes a copy of a valid configuration that must be rejected.
std::optional<osp> spoil_osp(rng& r, const osp& o0, spoil& sp)
{
    osp o = o0;
    auto pickConn = [&](const std::string& kind) -> gconn* {
        std::vector<gconn*> v;
        for (auto& c : o.conns)
            if (c.kind == kind) v.push_back(&c);
        return v.empty() ? nullptr : r.pick(v);
    };
    auto nameOf = [&](endpoint& e) -> std::string& { return r.chance(50) ? e.entity : e.name; };
    auto gvarOf = [&](const endpoint& e) -> gvar* {
        for (auto& s : o.sims)
            if (s.name == e.entity)
                for (auto& v : o.models[static_cast<std::size_t>(s.model)].vars)
                    if (v.name == e.name) return &v;
        return nullptr;
    };
    auto groupOf = [&](const endpoint& e) -> group* {
        for (auto& s : o.sims)
            if (s.name == e.entity)
                for (auto& g : o.models[static_cast<std::size_t>(s.model)].groups)
                    if (g.name == e.name) return &g;
        return nullptr;
    };
    auto done = [&](const char* why) -> std::optional<osp> {
        o.why = why;
        return o;
    };
    switch (r.range(0, 39)) {
        case 0: return done("missing file");
        case 1: return done("truncated");
        case 2: sp.version = r.chance(50) ? "0.2" : "1"; return done("version");
        case 3: sp.dropAttr = "version"; return done("no version");
        case 4: sp.xns = "http://opensimulationplatform.com/other"; return done("namespace");
        case 5: if (o.sims.empty()) return {}; sp.dropAttr = r.chance(50) ? "name" : "source"; return done("missing attribute");
        case 6: sp.extraTop = o.prefix ? "<osp:Unknown/>" : "<Unknown/>"; return done("unknown element");
        case 7: sp.baseText = r.chance(50) ? "0" : "-0.1"; return done("step size not positive");
        case 8: sp.startText = "3.5"; sp.endText = "3.25"; return done("end before start");
        case 9: {
            const std::string junk = choose(r, std::vector<std::string>{"abc", "1,5", "0x10", "1.0.0", "", "1e", "--1"});
            if (junk.empty()) return {};
            switch (r.range(0, 3)) {
                case 0: sp.baseText = junk; break;
                case 1: sp.startText = junk; break;
                case 2: sp.endText = junk; break;
                default: if (o.sims.empty()) return {}; sp.stepText = junk; break;
            }
            return done("not a number");
        }
        case 10: {
            bool any = false;
            for (auto& f : o.funs) any = any || f.inputs;
            if (!any) return {};
            sp.countText = choose(r, std::vector<std::string>{"0", "-1", "1.5", "x", "99999999999999999999"});
            return done("input count");
        }
        case 11: {
            if (o.sims.empty()) return {};
            auto& s = choose(r, o.sims);
            auto& m = o.models[static_cast<std::size_t>(s.model)];
            m.key += "x";
            return done("unknown model");
        }
        case 12: {
            if (o.sims.empty()) return {};
            o.sims.push_back(choose(r, o.sims));
            return done("duplicate simulator");
        }
        case 13: {
            if (o.sims.empty()) return {};
            choose(r, o.sims).inits["no such variable"] = 1.0;
            return done("initial value of unknown variable");
        }
        case 14: {
            for (auto& s : o.sims)
                for (auto& [n, v] : s.inits) {
                    if (v.index() == 0) v = std::string("2.5");
                    else if (v.index() == 1) v = true;
                    else if (v.index() == 2) v = 1;
                    else v = 1.5;
                    return done("initial value of wrong type");
                }
            return {};
        }
        case 15: {
            for (auto& s : o.sims)
                for (auto& [n, v] : s.inits)
                    if (v.index() != 3) {
                        sp.initType = choose(r, std::vector<std::string>{"Enumeration", "Float", "real"});
                        return done("initial value of unknown type");
                    }
            return {};
        }
        case 16: if (auto* c = pickConn("VariableConnection")) { nameOf(r.chance(50) ? c->a : c->b) += "?"; return done("connection to unknown variable"); } return {};
        case 17: if (auto* c = pickConn("VariableConnection")) {
            auto *a = gvarOf(c->a), *b = gvarOf(c->b);
            if (r.chance(50)) a->causality = b->causality = variable_causality::input;
            else a->causality = b->causality = variable_causality::output;
            return done("connection between alike variables");
        } return {};
        case 18: if (auto* c = pickConn("VariableConnection")) {
            auto* a = gvarOf(r.chance(50) ? c->a : c->b);
            a->type = a->type == variable_type::real ? variable_type::string : variable_type::real;
            for (auto& s : o.sims) s.inits.erase(a->name);
            return done("connection between different types");
        } return {};
        case 19: if (auto* c = pickConn(choose(r, std::vector<std::string>{"VariableConnection", "VariableGroupConnection", "SignalConnection", "SignalGroupConnection"}))) {
            // Repeats a connection: a target is connected twice.
            const auto k = *c;
            o.conns.push_back(k);
            return done("duplicate connection");
        } return {};
        case 20: if (auto* c = pickConn("SignalConnection")) { c->a.entity += "x"; return done("signal of unknown function"); } return {};
        case 21: if (auto* c = pickConn("SignalConnection")) { c->a.name = r.chance(50) ? "in[99]" : "nosuch"; return done("unknown signal"); } return {};
        case 22: if (auto* c = pickConn("SignalConnection")) { nameOf(c->b) += "?"; return done("signal to unknown variable"); } return {};
        case 23: if (pickConn("SignalConnection")) {
            // another one, to a function that isn't there
            gconn k = *pickConn("SignalConnection");
            k.a.entity = "no such function";
            o.conns.insert(o.conns.begin() + r.range(0, static_cast<std::int64_t>(o.conns.size())), k);
            return done("additional signal of unknown function");
        } return {};
        case 24: if (auto* c = pickConn("SignalConnection")) {
            auto* v = gvarOf(c->b);
            v->type = variable_type::integer;
            for (auto& s : o.sims) s.inits.erase(v->name);
            return done("signal to variable of wrong type");
        } return {};
        case 25: if (auto* c = pickConn("SignalConnection")) {
            auto* v = gvarOf(c->b);
            v->causality = c->a.name == "out" ? variable_causality::output : variable_causality::input;
            return done("signal in the wrong direction");
        } return {};
        case 26: if (auto* c = pickConn("VariableGroupConnection")) {
            const auto n = r.range(0, 2);
            if (n != 0) c->a.name = "no such group";
            if (n != 1) c->b.name = "no such group either";
            return done(n == 2 ? "unknown groups" : "unknown group");
        } return {};
        case 27: if (auto* c = pickConn("VariableGroupConnection")) {
            (r.chance(50) ? c->a : c->b).entity += "x";
            return done("group of unknown simulator");
        } return {};
        case 28: if (auto* c = pickConn("VariableGroupConnection")) {
            auto* g = groupOf(r.chance(50) ? c->a : c->b);
            while (!g->groups.empty() && r.chance(60)) g = &g->groups[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(g->groups.size()) - 1))];
            if (!g->vars.empty() && r.chance(50)) g->vars.pop_back();
            else {
                // another one
                if (g->vars.empty()) return {};
                g->vars.push_back(g->vars.front());
            }
            return done("groups of different sizes");
        } return {};
        case 29: if (auto* c = pickConn("VariableGroupConnection")) {
            auto* g = groupOf(r.chance(50) ? c->a : c->b);
            if (g->groups.empty()) return {};
            if (r.chance(50)) g->groups.pop_back();
            else {
                g->groups.push_back(g->groups.front());
                g->groups.back().name += "2";
            }
            return done("bonds of different sizes");
        } return {};
        case 30: if (auto* c = pickConn("VariableGroupConnection")) {
            auto* g = groupOf(r.chance(50) ? c->a : c->b);
            while (!g->groups.empty()) g = &g->groups.front();
            if (g->vars.empty()) return {};
            choose(r, g->vars) = "no such variable";
            return done("group with unknown variable");
        } return {};
        case 31: {
            bool any = false;
            for (auto& c : o.conns) any = any || c.kind.find("Group") != std::string::npos;
            if (!any) return {};
            for (auto& m : o.models)
                if (!m.groups.empty()) m.emd.clear();
            return done("no model description");
        }
        case 32: if (auto* c = pickConn("SignalGroupConnection")) {
            const auto n = r.range(0, 3);
            if (n == 0) c->a.entity += "x";
            else if (n == 1) c->a.name = "in[77]";
            else if (n == 2) c->b.entity += "x";
            else c->b.name = "no such group";
            return done("signal group of something unknown");
        } return {};
        case 33: if (auto* c = pickConn("SignalGroupConnection")) {
            auto* g = groupOf(c->b);
            if (r.chance(50)) {
                g->vars.pop_back();
                return done("too short group for a vector");
            }
            for (const auto& s : o.sims)
                if (s.name == c->b.entity) {
                    auto& m = o.models[static_cast<std::size_t>(s.model)];
                    g->vars.push_back(m.add(r, variable_type::real, c->a.name == "out" ? variable_causality::input : variable_causality::output));
                    break;
                }
            return done("too long group for a vector");
        } return {};
        case 34: {
            if (o.funs.empty()) return {};
            auto f = choose(r, o.funs);
            if (f.kind == "LinearTransformation") f.factor += 1;
            o.funs.push_back(f);
            return done("duplicate function");
        }
        case 35: if (pickConn("SignalConnection")) {
            // a required connection of a function is missing
            std::vector<std::size_t> v;
            for (std::size_t i = 0; i < o.conns.size(); ++i)
                if (o.conns[i].kind == "SignalConnection" && o.conns[i].a.name != "out") v.push_back(i);
            if (v.empty()) return {};
            o.conns.erase(o.conns.begin() + static_cast<std::ptrdiff_t>(r.pick(v)));
            return done("unconnected signal");
        } return {};
        case 37:
        case 38:
        case 39: {
            bool any = false;
            for (auto& c : o.conns) any = any || c.kind.find("Group") != std::string::npos;
            o.emdDefect = choose(r, std::vector<std::string>{"truncated", "empty", "no groups", "other document", "not XML", "unnamed"});
            o.unclear = !any;
            o.why = "model description: " + o.emdDefect;
            return o;
        }
        default: {
            if (o.funs.empty() || o.sims.empty()) return {};
            auto& f = choose(r, o.funs);
            const auto old = f.name;
            f.name = choose(r, o.sims).name;
            for (auto& c : o.conns)
                if (c.kind[0] == 'S' && c.a.entity == old) c.a.entity = f.name;
            return done("function named like a simulator");
        }
    }
}
} // namespace


// ===================================================================== C26

namespace
{
struct pset
{
    std::string name;
    std::string file; // empty: inline
    struct par
    {
        std::string name, element;
        scalar_value value;
        bool usable = true;
    };
    std::vector<par> pars;
};

struct scomp
{
    std::string name;
    int model = 0;
    std::optional<double> hint;
    std::vector<pset> sets;
};

struct sconn
{
    std::string a, ca, b, cb;
    bool linear = false, hasFactor = false, hasOffset = false;
    double factor = 1, offset = 0;
    variable_type type = variable_type::real;
};

struct ssp
{
    fs::path dir;
    bool archive = false;
    std::string ssdName; // without extension; empty: default
    bool giveFile = false;
    std::vector<gmodel> models;
    std::vector<scomp> comps;
    std::vector<sconn> conns;
    std::optional<double> start, stop, base;
    bool experiment = false;
    std::optional<int> workers;
    std::string why;
    bool reject = false;
    // text of spoilt parts
    std::string connectorType, algorithm = "osp:FixedStepAlgorithm", baseText, dropAttr, extraElement;
    bool dropSystem = false, dropElements = false, dropSsv = false, badSsv = false;
};

const char* ssc_type(variable_type t)
{
    switch (t) {
        case variable_type::real: return "Real";
        case variable_type::integer: return "Integer";
        case variable_type::boolean: return "Boolean";
        default: return "String";
    }
}

void gen_ssp(rng& r, ssp& s, const fs::path& root)
{
    s.dir = root / dir_name(r);
    s.archive = r.chance(40);
    if (r.chance(30)) s.ssdName = choose(r, std::vector<std::string>{"Other", "alt system", "v1.2"});
    s.giveFile = !s.archive && r.chance(30);
    const bool large = r.chance(3);
    if (large) vh::count("scaled:large_documents");
    const auto nm = r.range(1, large ? 12 : 3);
    for (int i = 0; i < nm; ++i) {
        gmodel m;
        m.name = cat("M", i);
        m.uuid = cat("uuid", r.next());
        m.source = cat(r.chance(60) ? "resources/" : "", r.chance(30) ? "a%20b" : "m", i, ".fmu");
        const auto nv = r.range(0, large ? 60 : 5);
        for (int k = 0; k < nv; ++k) m.add(r, r.pick(kTypes), static_cast<variable_causality>(r.range(0, 4)));
        s.models.push_back(m);
    }
    const auto nc = r.range(0, 9) ? r.range(1, large ? 40 : 5) : 0;
    std::set<std::string> names;
    for (int i = 0; i < nc; ++i) {
        scomp c;
        c.name = gen_name(r, i);
        if (!names.insert(c.name).second) continue;
        c.model = static_cast<int>(r.range(0, nm - 1));
        if (r.chance(40)) c.hint = static_cast<double>(r.range(0, 5000)) / 1000;
        s.comps.push_back(c);
    }
    if ((s.experiment = r.chance(70))) {
        if (r.chance(70)) s.start = static_cast<double>(r.chance(20) ? r.range(-900000000000, 50000) : r.range(-5000, 50000)) / 100;
        if (r.chance(40)) s.stop = static_cast<double>(r.range(50000, 60000)) / 100;
        if (r.chance(70)) s.base = static_cast<double>(r.range(1, 20000)) / 10000;
        if (s.base && r.chance(40)) s.workers = static_cast<int>(r.range(0, 4));
    }
    if (s.comps.empty()) return;
    const auto nk = r.range(0, large ? 120 : 8);
    for (int i = 0; i < nk; ++i) {
        sconn k;
        auto& a = r.pick(s.comps);
        auto& b = r.pick(s.comps);
        k.linear = r.chance(35);
        k.type = k.linear ? variable_type::real : r.pick(kTypes);
        k.a = a.name;
        k.b = b.name;
        k.ca = s.models[static_cast<std::size_t>(a.model)].add(r, k.type, some_output(r));
        if (!s.conns.empty() && r.chance(20) && s.conns.back().type == k.type) {
            k.a = s.conns.back().a;
            k.ca = s.conns.back().ca;
        }
        k.cb = s.models[static_cast<std::size_t>(b.model)].add(r, k.type, variable_causality::input);
        if (k.linear) {
            if ((k.hasFactor = r.chance(70))) k.factor = gen_real(r);
            if ((k.hasOffset = r.chance(70))) k.offset = gen_real(r);
        }
        s.conns.push_back(k);
    }
    static const std::vector<std::string> setNames = {"initialValues", "alternative", "set 3", ""};
    int files = 0;
    std::set<std::string> paths;
    for (auto& c : s.comps) {
        const auto n = r.range(0, 3);
        std::set<std::string> used;
        for (int i = 0; i < n; ++i) {
            pset p;
            p.name = r.pick(setNames);
            if (p.name.empty()) p.name = cat("own ", i);
            if (!used.insert(p.name).second) continue;
            if (r.chance(50)) {
                // (often files of the same name in different directories)
                static const std::vector<std::string> dirs = {"", "", "par/", "par/x/", "Par/", "./"};
                auto dir = r.pick(dirs);
                auto name = cat(dir, "set", r.range(0, 2), ".ssv");
                auto plain = dir == "./" ? name.substr(2) : name;
                if (!paths.insert(plain).second) name = cat(dir, "set", 3 + files++, ".ssv");
                p.file = name;
            }
            for (const auto& v : s.models[static_cast<std::size_t>(c.model)].vars) {
                if (!r.chance(35)) continue;
                pset::par q;
                q.name = v.name;
                auto t = v.type;
                if (r.chance(6)) { // a value that the variable cannot take
                    t = r.pick(kTypes);
                }
                switch (t) {
                    case variable_type::real: q.value = gen_real(r); break;
                    case variable_type::integer: q.value = static_cast<int>(r.range(-100000, 100000)); break;
                    case variable_type::boolean: q.value = r.chance(50); break;
                    default: q.value = gen_text(r); break;
                }
                q.element = ssc_type(t);
                q.usable = t == v.type && (v.causality == variable_causality::input || v.causality == variable_causality::parameter);
                p.pars.push_back(q);
            }
            if (r.chance(8)) p.pars.push_back({"no such variable", "Real", 1.0, false});
            std::shuffle(p.pars.begin(), p.pars.end(), std::mt19937(static_cast<unsigned>(r.next())));
            c.sets.push_back(p);
        }
    }
}

std::string render_set(rng& r, const pset& p, bool file)
{
    auto q = [&](const std::string& t) { return "\"" + xesc(r, t) + "\""; };
    std::ostringstream x;
    if (file) x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    x << "<ssv:ParameterSet version=\"1.0\" name=" << q(p.name) << (file ? " xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\"" : "") << ">\n<ssv:Parameters>\n";
    for (const auto& v : p.pars) {
        std::string val;
        switch (v.value.index()) {
            case 0: val = number(r, std::get<double>(v.value)); break;
            case 1: val = std::to_string(std::get<int>(v.value)); break;
            case 2: val = std::get<bool>(v.value) ? (r.chance(50) ? "true" : "1") : (r.chance(50) ? "false" : "0"); break;
            default: val = std::get<std::string>(v.value); break;
        }
        if (r.chance(10)) x << "<!-- <ssv:Parameter name=\"x\"/> -->";
        x << "<ssv:Parameter name=" << q(v.name) << ">" << (r.chance(60) ? "\n  " : "") << "<ssv:" << v.element << " value=" << q(val) << (r.chance(15) ? " unit=\"m\"" : "") << "/></ssv:Parameter>\n";
    }
    x << "</ssv:Parameters>\n</ssv:ParameterSet>\n";
    return x.str();
}

// The files of the configuration, by path.
std::map<std::string, std::string> render_ssp(rng& r, const ssp& s)
{
    std::map<std::string, std::string> files;
    auto q = [&](const std::string& t) { return "\"" + xesc(r, t) + "\""; };
    std::ostringstream x;
    if (r.chance(90)) x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    x << "<ssd:SystemStructureDescription ";
    if (s.dropAttr != "ssd name") x << "name=\"test\" ";
    x << "version=\"1.0\" xmlns:ssd=\"http://ssp-standard.org/SSP1/SystemStructureDescription\" xmlns:ssc=\"http://ssp-standard.org/SSP1/SystemStructureCommon\""
         " xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\" xmlns:osp=\"http://opensimulationplatform.com/SSP/OSPAnnotations\">\n";
    if (!s.dropSystem) {
        x << "<ssd:System name=\"sys\"" << (r.chance(30) ? " description=\"a &lt;system&gt;\"" : "") << ">\n";
        if (r.chance(10)) x << "<ssd:Connectors/>\n";
        if (!s.dropElements) {
            x << "<ssd:Elements>\n";
            for (const auto& c : s.comps) {
                const auto& m = s.models[static_cast<std::size_t>(c.model)];
                x << "<ssd:Component";
                if (s.dropAttr != "name") x << " name=" << q(c.name);
                if (s.dropAttr != "source") x << " source=" << q(m.source);
                x << (r.chance(20) ? " type=\"application/x-fmu-sharedlibrary\"" : "") << ">\n";
                std::map<std::string, variable_type> used;
                std::set<std::string> outs;
                for (const auto& k : s.conns) {
                    if (k.a == c.name && k.ca.find('?') == std::string::npos) { used[k.ca] = k.type; outs.insert(k.ca); }
                    if (k.b == c.name && k.cb.find('?') == std::string::npos) used[k.cb] = k.type;
                }
                if (!used.empty() || r.chance(20)) {
                    x << "<ssd:Connectors>\n";
                    for (const auto& [n, t] : used) {
                        x << "<ssd:Connector";
                        if (s.dropAttr != "connector name") x << " name=" << q(n);
                        if (s.dropAttr != "kind") x << " kind=\"" << (outs.count(n) ? "output" : "input") << "\"";
                        x << "><ssc:" << (s.connectorType.empty() ? ssc_type(t) : s.connectorType) << "/></ssd:Connector>\n";
                    }
                    x << "</ssd:Connectors>\n";
                }
                std::string anno;
                if (c.hint) anno = cat("<ssd:Annotations>", r.chance(20) ? "<ssc:Annotation type=\"org.example\"><x/></ssc:Annotation>" : "", "<ssc:Annotation type=\"com.opensimulationplatform\"><osp:StepSizeHint value=\"", number(r, *c.hint), "\"/></ssc:Annotation></ssd:Annotations>\n");
                const bool annoFirst = r.chance(30);
                if (annoFirst) x << anno;
                if (!c.sets.empty()) {
                    x << "<ssd:ParameterBindings>\n";
                    for (const auto& p : c.sets) {
                        if (p.file.empty()) x << "<ssd:ParameterBinding><ssd:ParameterValues>\n" << render_set(r, p, false) << "</ssd:ParameterValues></ssd:ParameterBinding>\n";
                        else {
                            x << "<ssd:ParameterBinding source=" << q(p.file) << "/>\n";
                            if (!s.dropSsv) files[p.file] = s.badSsv ? render_set(r, p, true).substr(0, static_cast<std::size_t>(r.range(0, 120))) : render_set(r, p, true);
                        }
                    }
                    x << "</ssd:ParameterBindings>\n";
                }
                if (!annoFirst) x << anno;
                x << "</ssd:Component>\n";
            }
            x << s.extraElement << "</ssd:Elements>\n";
        }
        if (!s.conns.empty() || r.chance(20)) {
            x << "<ssd:Connections>\n";
            for (const auto& k : s.conns) {
                x << "<ssd:Connection";
                if (s.dropAttr != "startElement") x << " startElement=" << q(k.a);
                x << " startConnector=" << q(k.ca) << " endElement=" << q(k.b);
                if (s.dropAttr != "endConnector") x << " endConnector=" << q(k.cb);
                if (k.linear) {
                    x << "><ssc:LinearTransformation";
                    if (k.hasOffset) x << " offset=" << q(number(r, k.offset));
                    if (k.hasFactor) x << " factor=" << q(number(r, k.factor));
                    x << "/></ssd:Connection>\n";
                } else
                    x << "/>\n";
            }
            x << "</ssd:Connections>\n";
        }
        x << "</ssd:System>\n";
    }
    if (s.experiment) {
        x << "<ssd:DefaultExperiment";
        if (s.start) x << " startTime=" << q(number(r, *s.start));
        if (s.stop) x << " stopTime=" << q(number(r, *s.stop));
        x << ">\n";
        if (s.base || r.chance(20)) {
            x << "<ssd:Annotations>\n";
            if (r.chance(20)) x << "<ssc:Annotation type=\"org.example\"><a:b xmlns:a=\"x\"/></ssc:Annotation>\n";
            if (s.base) {
                x << "<ssc:Annotation type=\"com.opensimulationplatform\"><osp:Algorithm><" << s.algorithm;
                if (s.dropAttr != "baseStepSize") x << " baseStepSize=" << q(s.baseText.empty() ? number(r, *s.base) : s.baseText);
                if (s.workers) x << " numWorkerThreads=" << q(std::to_string(*s.workers));
                x << "/></osp:Algorithm></ssc:Annotation>\n";
            }
            x << "</ssd:Annotations>\n";
        }
        x << "</ssd:DefaultExperiment>\n";
    }
    x << "</ssd:SystemStructureDescription>\n";
    files[(s.ssdName.empty() ? std::string("SystemStructure") : s.ssdName) + ".ssd"] = x.str();
    return files;
}

bool spoil_ssp(rng& r, ssp& s)
{
    auto done = [&](const char* why) {
        s.why = why;
        s.reject = true;
        return true;
    };
    auto varOf = [&](const std::string& comp, const std::string& n) -> gvar& {
        for (auto& c : s.comps)
            if (c.name == comp)
                for (auto& v : s.models[static_cast<std::size_t>(c.model)].vars)
                    if (v.name == n) return v;
        throw std::logic_error("varOf");
    };
    const bool conn = !s.conns.empty();
    switch (r.range(0, 24)) {
        case 0: return done("missing file");
        case 1: return done("truncated");
        case 2: s.dropSystem = true; return done("no system");
        case 3: s.dropElements = true; return done("no elements");
        case 4: if (s.comps.empty()) return false; s.dropAttr = r.chance(50) ? "name" : "source"; return done("component without name or source");
        case 5: if (!conn) return false; s.dropAttr = r.chance(50) ? "connector name" : "kind"; return done("connector without name or kind");
        case 6: if (!conn) return false; s.dropAttr = r.chance(50) ? "startElement" : "endConnector"; return done("connection without end");
        case 7: if (!conn) return false; s.connectorType = choose(r, std::vector<std::string>{"Enumeration", "Binary"}); return done("unsupported connector type");
        case 8: if (!conn) return false; s.connectorType = choose(r, std::vector<std::string>{"Float", "real", "Double"}); return done("unknown connector type");
        case 9: if (!conn) return false; { auto& k = r.pick(s.conns); (r.chance(50) ? k.a : k.b) += "x"; } return done("connection to unknown component");
        case 10: if (!conn) return false; { auto& k = r.pick(s.conns); (r.chance(50) ? k.ca : k.cb) += "?"; } return done("connection to unknown connector");
        case 11: if (!conn) return false; { auto& k = r.pick(s.conns); auto& v = varOf(k.a, k.ca); auto& w = varOf(k.b, k.cb); if (r.chance(50)) v.causality = w.causality = variable_causality::input; else v.causality = w.causality = variable_causality::output; } return done("connection between alike variables");
        case 12: if (!conn) return false; { auto& k = r.pick(s.conns); auto& v = r.chance(50) ? varOf(k.a, k.ca) : varOf(k.b, k.cb); v.type = v.type == variable_type::real ? variable_type::string : variable_type::real; } return done("connection between different types");
        case 13: if (!conn) return false; { const auto k = r.pick(s.conns); s.conns.push_back(k); } return done("duplicate connection");
        case 14: if (s.comps.empty()) return false; { auto c = r.pick(s.comps); if (r.chance(50)) c.sets.clear(); s.comps.push_back(c); } return done("duplicate component");
        case 15:
            for (auto& c : s.comps)
                for (auto& p : c.sets)
                    for (auto& v : p.pars) {
                        v.element = choose(r, std::vector<std::string>{"Enumeration", "Binary", "Float", "integer"});
                        return done("unsupported parameter type");
                    }
            return false;
        case 16:
            for (auto& c : s.comps)
                for (auto& p : c.sets)
                    for (auto& v : p.pars) {
                        v.element = choose(r, std::vector<std::string>{"Real", "Integer", "Boolean"});
                        v.value = std::string("a number");
                        return done("parameter value not a number");
                    }
            return false;
        case 17: if (!s.base) return false; s.algorithm = "osp:VariableStepAlgorithm"; return done("unknown algorithm");
        case 18: if (!s.base) return false; s.baseText = choose(r, std::vector<std::string>{"abc", "0", "-0.5", "1,5", " "}); return done("bad step size");
        case 19: if (!s.base) return false; s.dropAttr = "baseStepSize"; return done("no step size");
        case 20:
        case 21: {
            bool any = false;
            for (auto& c : s.comps)
                for (auto& p : c.sets) any = any || !p.file.empty();
            if (!any) return false;
            if (r.chance(50)) {
                s.dropSsv = true;
                return done("missing parameter file");
            }
            s.badSsv = true;
            return done("malformed parameter file");
        }
        case 22: if (s.comps.empty()) return false; s.models[static_cast<std::size_t>(r.pick(s.comps).model)].key = "unknown"; return done("unknown model");
        case 23: if (s.comps.empty()) return false; r.pick(s.comps).hint = -1.5; return done("negative step size hint");
        default: s.extraElement = choose(r, std::vector<std::string>{"<ssd:System name=\"inner\"><ssd:Elements/></ssd:System>", "<ssd:SignalDictionaryReference name=\"d\" dictionary=\"x\"/>"}); return done("unsupported element");
    }
}

void make_zip(const fs::path& p, const std::map<std::string, std::string>& files)
{
    int e = 0;
    auto* z = zip_open(p.c_str(), ZIP_CREATE | ZIP_TRUNCATE, &e);
    if (!z) vh::harness_error("zip_open");
    for (const auto& [n, c] : files) {
        auto* src = zip_source_buffer(z, c.data(), c.size(), 0);
        if (!src || zip_file_add(z, n.c_str(), src, ZIP_FL_ENC_UTF_8) < 0) vh::harness_error("zip_file_add");
    }
    if (zip_close(z) != 0) vh::harness_error("zip_close");
}

// Resolves files by name relative to the directory in the base URI.
struct ssp_resolver : cosim::model_uri_sub_resolver
{
    std::map<std::string, std::shared_ptr<cmodel>> models; // by source
    std::set<std::string> bases;
    std::string problem;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& base, const cosim::uri& ref) override
    {
        bases.insert(std::string(base.view()));
        const auto it = models.find(std::string(ref.view()));
        if (it == models.end()) return nullptr;
        // The file must be there now.
        const auto p = fs::path(cosim::file_uri_to_path(base)).parent_path() / undecode(ref.path());
        if (!fs::exists(p)) problem = "the model's file was not found at " + p.string();
        return it->second;
    }
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri&) override { return nullptr; }
};
} // namespace

// C32, SSP files
VH_PROP(C32P)
{
    const case_dir tmp(caseIndex);
    ssp s;
    gen_ssp(rng, s, tmp.path);
    if (rng.chance(20)) spoil_ssp(rng, s);
    auto res = std::make_shared<ssp_resolver>();
    std::vector<std::shared_ptr<cmodel>> models;
    for (const auto& m : s.models) {
        if (m.key == "unknown") continue;
        auto c = std::make_shared<cmodel>();
        c->descr->name = m.name;
        c->descr->uuid = m.uuid;
        value_reference k = 0;
        for (const auto& v : m.vars) {
            cosim::variable_description d;
            d.name = v.name;
            d.reference = k++;
            d.type = v.type;
            d.causality = v.causality;
            d.variability = cosim::variable_variability::tunable;
            c->descr->variables.push_back(d);
        }
        res->models[m.source] = c;
        models.push_back(c);
    }
    auto files = render_ssp(rng, s);
    const auto ssdFile = (s.ssdName.empty() ? std::string("SystemStructure") : s.ssdName) + ".ssd";
    const auto which = rng.range(0, 9);
    std::string all;
    for (auto& [n, c] : files) {
        if (n == ssdFile ? which < 7 : rng.chance(which < 7 ? 20 : 80)) c = vh::mutate(rng, c, rng.chance(30) ? files.begin()->second : c);
        if (n != ssdFile && rng.chance(3)) c.clear();
        all += n + ":\n" + c + "\n";
        if (n != ssdFile) vh::count("parameter_files");
    }
    for (const auto& m : s.models) files[undecode(m.source)] = "model " + m.name;
    cosim::filesystem::path given = s.dir;
    fs::create_directories(s.dir);
    if (s.archive) {
        given = s.dir / "x.ssp";
        make_zip(given, files);
    } else {
        for (const auto& [n, c] : files) write(s.dir / n, c);
        if (s.giveFile) given = s.dir / ssdFile;
    }
    vh::context(cat(given.string(), "\n", all));
    vh::distinct(vh::hash_str(all));
    if (rng.chance(5)) vh::sample(all.substr(0, 300));
    std::optional<cosim::ssp_configuration> loaded;
    vh::survives("SSP system structure", [&] {
        cosim::ssp_loader loader;
        auto top = std::make_shared<cosim::model_uri_resolver>();
        top->add_sub_resolver(res);
        loader.set_model_uri_resolver(top);
        if (!s.ssdName.empty()) loader.set_ssd_file_name(s.ssdName);
        loaded.emplace(loader.load(given));
    });
    if (!loaded) return;
    if (loaded->algorithm) {
        // steps of unreasonable sizes aren't run
        const auto step = all.find("baseStepSize=");
        if (step == std::string::npos) return;
        const double d = std::atof(all.c_str() + step + 14);
        if (!(d > 1e-9 && d < 1e6)) return;
    }
    auto ps = loaded->parameter_sets.begin();
    use(loaded->system_structure, ps == loaded->parameter_sets.end() ? cosim::variable_value_map() : ps->second, std::chrono::milliseconds(100), loaded->start_time, models, loaded->algorithm);
}


VH_PROP(C26)
{
    const case_dir tmp(caseIndex);
    ssp s;
    gen_ssp(rng, s, tmp.path);
    if (rng.chance(40) && !spoil_ssp(rng, s)) return;

    auto res = std::make_shared<ssp_resolver>();
    for (const auto& m : s.models) {
        if (m.key == "unknown") continue;
        auto c = std::make_shared<cmodel>();
        c->descr->name = m.name;
        c->descr->uuid = m.uuid;
        value_reference k = 0;
        for (const auto& v : m.vars) {
            cosim::variable_description d;
            d.name = v.name;
            d.reference = k++;
            d.type = v.type;
            d.causality = v.causality;
            d.variability = cosim::variable_variability::tunable;
            c->descr->variables.push_back(d);
        }
        res->models[m.source] = c;
    }
    auto files = render_ssp(rng, s);
    const auto ssdFile = (s.ssdName.empty() ? std::string("SystemStructure") : s.ssdName) + ".ssd";
    const auto doc = files[ssdFile];
    if (s.why == "truncated") {
        const auto end = doc.rfind("</");
        files[ssdFile] = doc.substr(0, static_cast<std::size_t>(rng.range(0, static_cast<std::int64_t>(end) + 1)));
    } else if (s.why == "missing file")
        files.erase(ssdFile);
    for (const auto& m : s.models) files[undecode(m.source)] = "model " + m.name;
    if (!s.ssdName.empty() || rng.chance(20)) files[s.ssdName.empty() ? "Other.ssd" : "SystemStructure.ssd"] = "<ssd:SystemStructureDescription name=\"decoy\"/>";

    cosim::filesystem::path given = s.dir;
    if (s.archive) {
        fs::create_directories(s.dir);
        given = s.dir / choose(rng, std::vector<std::string>{"x.ssp", "the system.ssp", "a.b.ssp"});
        make_zip(given, files);
    } else {
        for (const auto& [n, c] : files) write(s.dir / n, c);
        fs::create_directories(s.dir);
        if (s.giveFile) given = s.dir / ssdFile;
    }
    if (rng.chance(20)) given = fs::relative(given, fs::current_path());
    vh::context(cat(s.why.empty() ? "valid" : s.why, " ", given.string(), "\n", doc));
    vh::sample(cat(s.why.empty() ? "valid" : "spoilt: " + s.why, ", ", s.comps.size(), " components, ", s.conns.size(), " connections, ", s.archive ? "archive" : "directory", ", ", doc.size(), " bytes"));

    cosim::ssp_loader loader;
    auto top = std::make_shared<cosim::model_uri_resolver>();
    top->add_sub_resolver(res);
    loader.set_model_uri_resolver(top);
    if (!s.ssdName.empty() && (!s.giveFile || rng.chance(30))) loader.set_ssd_file_name(s.ssdName);
    std::optional<cosim::ssp_configuration> loaded;
    std::string error;
    try {
        loaded.emplace(loader.load(given));
    } catch (const std::exception& e) {
        error = e.what();
    }
    vh::evaluated();
    if (s.reject) {
        VH_CHECK(!loaded, cat("accepted:", s.why), "a configuration with a defect (", s.why, ") was loaded: ", doc);
        vh::count("rejected_files");
        vh::count("rejected:" + s.why);
        vh::distinct(vh::hash_str(s.why + doc));
        return;
    }
    VH_CHECK(loaded.has_value(), "rejected-valid", "a valid configuration was rejected: ", error, "\n", doc);
    VH_CHECK(res->problem.empty(), "model-file", res->problem);
    vh::distinct(vh::hash_str(doc));
    vh::count(s.archive ? "archives" : "directories");
    const auto& c = *loaded;
    VH_CHECK(near_time(ns(c.start_time), s.start.value_or(0)), "start-time", "start time ", ns(c.start_time), " ns instead of ", s.start.value_or(0), " s");
    VH_CHECK((c.algorithm != nullptr) == s.base.has_value(), "algorithm", "algorithm given: ", c.algorithm != nullptr, ", in the file: ", s.base.has_value());

    std::map<std::string, std::string> functions; // those we found, by what they are: name
    std::size_t sims = 0, funs = 0;
    for (const auto& e : c.system_structure.entities())
        (std::holds_alternative<std::shared_ptr<cosim::model>>(e.type) ? sims : funs)++;
    std::size_t linear = 0;
    for (const auto& k : s.conns) linear += k.linear;
    VH_CHECK(sims == s.comps.size(), "component-count", sims, " simulators instead of ", s.comps.size());
    VH_CHECK(funs == linear, "function-count", funs, " functions instead of ", linear);
    for (const auto& k : s.comps) {
        const auto* e = c.system_structure.find_entity(k.name);
        VH_CHECK(e, "component-missing", "component ", k.name, " is missing");
        const auto* m = std::get_if<std::shared_ptr<cosim::model>>(&e->type);
        VH_CHECK(m && *m == res->models.at(s.models[static_cast<std::size_t>(k.model)].source), "component-model", k.name, " has another model than ", s.models[static_cast<std::size_t>(k.model)].source);
        VH_CHECK(near_time(e->step_size_hint.count(), k.hint.value_or(0)), "step-size-hint", k.name, ": step size ", e->step_size_hint.count(), " ns instead of ", k.hint.value_or(0), " s");
        vh::count("components");
    }
    // connections
    std::map<std::string, std::string> sourceOf; // by target
    std::size_t scalar = 0;
    for (const auto& k : c.system_structure.connections()) {
        sourceOf[cosim::to_text(k.target)] = cosim::to_text(k.source);
        ++scalar;
    }
    VH_CHECK(scalar == s.conns.size() + linear, "connection-count", scalar, " connections instead of ", s.conns.size() + linear);
    std::set<std::string> usedFunctions;
    for (const auto& k : s.conns) {
        const auto from = ve(k.a, k.ca), to = ve(k.b, k.cb);
        VH_CHECK(sourceOf.count(to), "connection-missing", "no connection to ", to);
        if (!k.linear) {
            VH_CHECK(sourceOf[to] == from, "connection-source", to, " is connected to ", sourceOf[to], " instead of ", from);
            vh::count("connections");
            continue;
        }
        const cosim::system_structure::entity* f = nullptr;
        for (const auto& e : c.system_structure.entities())
            if (std::holds_alternative<std::shared_ptr<cosim::function_type>>(e.type) && cosim::to_text(full_variable_name(e.name, "out", "")) == sourceOf[to]) f = &e;
        VH_CHECK(f, "transformation-missing", to, " is connected to ", sourceOf[to], " and not to a linear transformation");
        VH_CHECK(usedFunctions.insert(f->name).second, "transformation-shared", "two connections share a transformation");
        VH_CHECK(dynamic_cast<cosim::linear_transformation_function_type*>(std::get<std::shared_ptr<cosim::function_type>>(f->type).get()), "transformation-type", "not a linear transformation");
        const auto in = cosim::to_text(full_variable_name(f->name, "in", ""));
        VH_CHECK(sourceOf.count(in) && sourceOf[in] == from, "transformation-source", "the transformation for ", to, " is connected to ", sourceOf[in], " instead of ", from);
        auto par = [&](int i) {
            const auto it = f->parameter_values.find(i);
            return it != f->parameter_values.end() ? it->second : cosim::linear_transformation_function_type().description().parameters.at(static_cast<std::size_t>(i)).default_value;
        };
        VH_CHECK(par(cosim::linear_transformation_function_type::factor_parameter_index) == cosim::function_parameter_value(k.factor), "factor", "wrong factor for ", to, " instead of ", k.factor);
        VH_CHECK(par(cosim::linear_transformation_function_type::offset_parameter_index) == cosim::function_parameter_value(k.offset), "offset", "wrong offset for ", to, " instead of ", k.offset);
        vh::count("transformations");
    }
    // parameter sets
    std::map<std::string, std::map<std::string, scalar_value>> sets;
    sets[""];
    for (const auto& k : s.comps)
        for (std::size_t i = 0; i < k.sets.size(); ++i) {
            sets[k.sets[i].name];
            for (const auto& p : k.sets[i].pars) {
                if (!p.usable) {
                    vh::count("parameters_skipped");
                    continue;
                }
                sets[k.sets[i].name][ve(k.name, p.name)] = p.value;
                if (i == 0) sets[""][ve(k.name, p.name)] = p.value;
                vh::count("parameters");
            }
        }
    VH_CHECK(c.parameter_sets.size() == sets.size(), "parameter-sets", c.parameter_sets.size(), " parameter sets instead of ", sets.size());
    for (const auto& [n, values] : sets) {
        const auto it = c.parameter_sets.find(n);
        VH_CHECK(it != c.parameter_sets.end(), "parameter-set-missing", "no parameter set called '", n, "'");
        std::map<std::string, scalar_value> got;
        for (const auto& [k, v] : it->second) got[cosim::to_text(k)] = v;
        for (const auto& [k, v] : values) {
            VH_CHECK(got.count(k), "parameter-missing", "parameter set '", n, "' has no value for ", k, "\n", doc);
            VH_CHECK(same(got[k], v), "parameter-value", "parameter set '", n, "': ", k, " is ", show(got[k]), " instead of ", show(v), "\n", doc);
        }
        for (const auto& [k, v] : got) VH_CHECK(values.count(k), "parameter-extra", "parameter set '", n, "' has a value for ", k, ": ", show(v));
    }
    // What was unpacked must be gone.
    if (s.archive)
        for (const auto& b : res->bases) {
            const auto d = fs::path(cosim::file_uri_to_path(b)).parent_path();
            VH_CHECK(!fs::exists(d), "unpacked-left", "the unpacked archive is still at ", d.string());
        }
    // The algorithm steps as configured.
    if (c.algorithm) {
        cosim::execution ex(c.start_time, c.algorithm);
        ex.step();
        VH_CHECK(near_time((ex.current_time() - c.start_time).count(), *s.base), "base-step-size", "the algorithm stepped by ", (ex.current_time() - c.start_time).count(), " ns instead of ", *s.base, " s");
        vh::count("algorithms");
    }
    vh::count("loaded");
}


// ===================================================================== C35

namespace
{
struct asked
{
    int who;
    bool two;
    std::string base, ref; // or only the URI in `ref`
    bool operator==(const asked& o) const { return who == o.who && two == o.two && base == o.base && ref == o.ref; }
};
std::string show_asked(const std::vector<asked>& v)
{
    std::string s;
    for (const auto& a : v) s += cat("#", a.who, "(", a.two ? a.base + ", " : std::string(), a.ref, ") ");
    return s;
}

struct refusal : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

enum class answer { none, model, fail };

struct recorder : cosim::model_uri_sub_resolver
{
    int id;
    std::vector<asked>* log;
    std::function<answer(const std::string&)> decide; // by the URI or reference asked for
    std::shared_ptr<cmodel> m = std::make_shared<cmodel>();
    std::shared_ptr<cosim::model> answer_it(const std::string& u)
    {
        switch (decide(u)) {
            case answer::none: return nullptr;
            case answer::model: return m;
            default: throw refusal(cat("resolver ", id, " fails on ", u));
        }
    }
    using cosim::model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        log->push_back({id, false, {}, std::string(u.view())});
        return answer_it(std::string(u.view()));
    }
};
struct recorder2 : recorder
{
    using recorder::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& b, const cosim::uri& r) override
    {
        log->push_back({id, true, std::string(b.view()), std::string(r.view())});
        return answer_it(std::string(r.view()));
    }
};

struct fake_fmu : cosim::fmi::fmu, std::enable_shared_from_this<fake_fmu>
{
    std::shared_ptr<cosim::model_description> descr = std::make_shared<cosim::model_description>();
    std::vector<std::string>* names = nullptr;
    cosim::fmi::fmi_version fmi_version() const override { return cosim::fmi::fmi_version::v2_0; }
    std::shared_ptr<const cosim::model_description> model_description() const override { return descr; }
    std::shared_ptr<cosim::fmi::slave_instance> instantiate_slave(std::string_view n) override
    {
        names->push_back(std::string(n));
        throw refusal("instantiate " + std::string(n));
    }
    std::shared_ptr<cosim::fmi::importer> importer() const override { return nullptr; }
};

std::string gen_uri(rng& r, bool absolute)
{
    static const std::vector<std::string> paths = {"/a/b", "/a/../b.fmu", "/x.fmu", "", "/", "/d/e/", "/a%20b/c"};
    static const std::vector<std::string> rel = {"b.fmu", "../up.fmu", "./x/y", "", "?q", "#f", "/root.fmu", "//other/x", "a/./b", "x%20y.fmu", "../../../z"};
    std::string s;
    if (absolute) {
        s = choose(r, std::vector<std::string>{"file", "http", "x-y", "proxyfmu"}) + ":";
        if (r.chance(80)) s += "//" + choose(r, std::vector<std::string>{"", "localhost", "h:80", "u@h"});
        s += s.find("//") == std::string::npos ? "/p" + r.pick(paths) : r.pick(paths);
        if (r.chance(20)) s += "?file=a.fmu";
        if (r.chance(10)) s += "#frag";
    } else
        s = r.pick(rel);
    return s;
}
} // namespace


VH_PROP(C35)
{
    vh::evaluated();
    if (rng.chance(65)) {
        // The generic resolver.
        std::vector<asked> log;
        std::vector<std::shared_ptr<recorder>> subs;
        std::vector<int> order; // of addition (may repeat)
        auto top = std::make_unique<cosim::model_uri_resolver>();
        const auto seed = rng.next();
        std::vector<int> odds;
        auto decision = [&odds, seed](int id, const std::string& u) {
            const auto h = vh::mix(seed + static_cast<std::uint64_t>(id), vh::hash_str(u)) % 100;
            const auto o = odds[static_cast<std::size_t>(id)];
            return static_cast<int>(h) < o ? answer::model : static_cast<int>(h) < o + 8 ? answer::fail : answer::none;
        };
        auto add = [&] {
            if (!subs.empty() && rng.chance(8)) {
                const auto& s = rng.pick(subs);
                order.push_back(s->id);
                top->add_sub_resolver(s);
                return;
            }
            std::shared_ptr<recorder> s;
            if (rng.chance(40)) s = std::make_shared<recorder2>();
            else s = std::make_shared<recorder>();
            s->id = static_cast<int>(subs.size());
            s->log = &log;
            odds.push_back(static_cast<int>(rng.range(0, 1) * rng.range(0, 70)));
            s->decide = [decision, id = s->id](const std::string& u) { return decision(id, u); };
            subs.push_back(s);
            order.push_back(s->id);
            top->add_sub_resolver(s);
        };
        const auto n = rng.range(0, rng.chance(3) ? 60 : 5);
        for (int i = 0; i < n; ++i) add();
        const auto ops = rng.range(1, 12);
        for (int k = 0; k < ops; ++k) {
            if (rng.chance(10)) add();
            if (rng.chance(5)) {
                auto moved = std::make_unique<cosim::model_uri_resolver>(std::move(*top));
                if (rng.chance(50)) {
                    *top = std::move(*moved);
                } else
                    top = std::move(moved);
            }
            const bool two = rng.chance(60);
            const auto base = gen_uri(rng, rng.chance(80)), ref = gen_uri(rng, two ? rng.chance(35) : rng.chance(85));
            const cosim::uri B(base), R(ref);
            const bool absolute = R.scheme().has_value() || (two && B.scheme().has_value());
            std::vector<asked> expected;
            std::shared_ptr<cmodel> model;
            std::string failure;
            if (absolute) {
                for (const int id : order) {
                    const auto& s = subs[static_cast<std::size_t>(id)];
                    std::string u;
                    if (two && std::dynamic_pointer_cast<recorder2>(s)) {
                        u = ref;
                        expected.push_back({id, true, base, ref});
                    } else {
                        // (a base that isn't absolute has no influence)
                        u = two ? std::string(cosim::resolve_reference(B.scheme() ? B : R, R).view()) : ref;
                        expected.push_back({id, false, {}, u});
                    }
                    const auto d = decision(id, u);
                    if (d == answer::model) model = s->m;
                    else if (d == answer::fail) failure = cat("resolver ", id, " fails on ", u);
                    if (d != answer::none) break;
                }
            }
            log.clear();
            std::shared_ptr<cosim::model> got;
            std::string what, kind;
            try {
                got = two ? top->lookup_model(B, R) : top->lookup_model(R);
            } catch (const refusal& e) {
                kind = "refusal";
                what = e.what();
            } catch (const std::invalid_argument& e) {
                kind = "invalid_argument";
                what = e.what();
            } catch (const std::runtime_error& e) {
                kind = "runtime_error";
                what = e.what();
            }
            const auto ctx = cat(two ? "base " + base + ", " : std::string(), "URI ", ref, ", ", order.size(), " resolvers: ");
            VH_CHECK(log == expected, "asked", ctx, "asked ", show_asked(log), "instead of ", show_asked(expected), what);
            if (!absolute) {
                VH_CHECK(kind == "invalid_argument", "relative-accepted", ctx, "a relative URI gave ", kind.empty() ? "a model" : kind, " ", what);
                vh::count("relative_rejected");
            } else if (!failure.empty()) {
                VH_CHECK(kind == "refusal" && what == failure, "failure-lost", ctx, "the resolver failed with '", failure, "', but the result was ", kind, " ", what);
                vh::count("failures");
            } else if (model) {
                VH_CHECK(kind.empty() && got == model, "wrong-model", ctx, kind.empty() ? "another model was returned" : kind + " " + what);
                vh::count("resolved");
                if (expected.size() > 1) vh::count("resolved_by_later");
                if (two) vh::count("resolved_with_base");
            } else {
                VH_CHECK(kind == "runtime_error", "unresolved", ctx, "no resolver knows the model, but the result was ", kind.empty() ? "a model" : kind, " ", what);
                vh::count("unresolved");
            }
            vh::distinct(vh::hash_str(ctx + show_asked(expected)));
        }
        return;
    }
    // FMU files.
    std::vector<std::string> imported, names;
    std::map<std::string, std::shared_ptr<fake_fmu>> fmus;
    const bool fails = rng.chance(10);
    vh::fmuImportHook = [&](const cosim::filesystem::path& p) -> std::shared_ptr<cosim::fmi::fmu> {
        imported.push_back(p.string());
        if (fails) throw refusal("cannot import " + p.string());
        auto& f = fmus[p.string()];
        f = std::make_shared<fake_fmu>();
        f->names = &names;
        f->descr->name = "model of " + p.string();
        return f;
    };
    struct unhook
    {
        ~unhook() { vh::fmuImportHook = nullptr; }
    } unhook_;
    std::shared_ptr<cosim::file_cache> cache;
    if (rng.chance(30)) cache = std::make_shared<cosim::temporary_file_cache>();
    const auto res = cosim::default_model_uri_resolver(cache);
    std::vector<asked> log;
    auto last = std::make_shared<recorder>();
    last->id = 0;
    last->log = &log;
    last->decide = [](const std::string&) { return answer::model; };
    const bool withLast = rng.chance(50);
    if (withLast) res->add_sub_resolver(last);
    const auto ops = rng.range(1, 10);
    for (int k = 0; k < ops; ++k) {
        // An absolute path and ways to refer to it.
        std::vector<std::string> segs;
        const auto depth = rng.range(1, 4);
        for (int i = 0; i < depth; ++i) segs.push_back(dir_name(rng));
        static const std::vector<std::string> exts = {".fmu", ".fmu", ".fmu", ".fmu", ".ssp", "", ".fmu.zip", "fmu", ".xml", ".fm"};
        const auto ext = rng.pick(exts);
        segs.back() += ext;
        std::string path;
        for (const auto& s : segs) path += "/" + s;
        bool handled = ext == ".fmu";
        std::string uri, base;
        bool two = rng.chance(50);
        if (two && rng.chance(70)) {
            // relative to a file at some depth of the same directories
            const auto at = static_cast<std::size_t>(rng.range(0, depth - 1));
            std::string b;
            for (std::size_t i = 0; i < at; ++i) b += "/" + segs[i];
            const auto down = rng.range(0, 2);
            for (int i = 0; i < down; ++i) b += "/down";
            base = cat("file://", rng.chance(30) ? "localhost" : "", pct(b), "/", rng.chance(50) ? "OspSystemStructure.xml" : "");
            for (int i = 0; i < down; ++i) uri += "../";
            if (rng.chance(20)) uri = "./" + uri;
            for (std::size_t i = at; i < segs.size(); ++i) uri += (i > at ? "/" : "") + pct(segs[i]);
        } else {
            std::string scheme = "file", authority;
            if (rng.chance(15)) {
                scheme = choose(rng, std::vector<std::string>{"http", "filex", "fil", "x-file"});
                handled = false;
            }
            if (rng.chance(40)) authority = "localhost";
            else if (rng.chance(15)) {
                authority = choose(rng, std::vector<std::string>{"example.com", "localhost2", "127.0.0.1"});
                handled = false;
            }
            // (file URIs without an authority are not "file://" URIs, see cosim::file_uri_to_path())
            uri = scheme + ":" + (authority.empty() && scheme != "file" && rng.chance(20) ? "" : "//" + authority) + pct(path);
            base = "file:///other/place/x.xml";
        }
        if (rng.chance(15)) uri += "?q=1";
        if (rng.chance(15)) uri += "#frag";
        imported.clear();
        log.clear();
        const cosim::uri U(uri);
        if (!U.scheme()) two = true;
        std::shared_ptr<cosim::model> got;
        std::string kind, what;
        const auto ctx = cat(two ? "base " + base + ", " : std::string(), "URI ", uri, ": ");
        try {
            got = two ? res->lookup_model(cosim::uri(base), U) : res->lookup_model(U);
        } catch (const refusal& e) {
            kind = "refusal";
            what = e.what();
        } catch (const std::runtime_error& e) {
            kind = "runtime_error";
            what = e.what();
        } catch (const std::exception& e) {
            kind = "other";
            what = e.what();
        }
        vh::distinct(vh::hash_str(ctx));
        if (handled) {
            VH_CHECK(imported == std::vector<std::string>{path}, "imported", ctx, "imported ", imported.empty() ? "nothing" : imported[0], " instead of ", path, " (", kind, " ", what, ")");
            VH_CHECK(log.empty(), "asked-more", ctx, "further resolvers were asked");
            if (fails) {
                VH_CHECK(kind == "refusal", "import-failure-lost", ctx, "import failed, but the result was ", kind, " ", what);
                vh::count("import_failures");
                continue;
            }
            VH_CHECK(kind.empty() && got, "not-resolved", ctx, kind, " ", what);
            VH_CHECK(got->description() == fmus[path]->descr, "description", ctx, "the description isn't the FMU's");
            const auto name = gen_name(rng, k);
            names.clear();
            try {
                got->instantiate(name);
            } catch (const refusal&) {
            }
            VH_CHECK(names == std::vector<std::string>{name}, "instantiate", ctx, "instantiating ", name, " was not passed on to the FMU");
            vh::count("fmus");
        } else {
            VH_CHECK(imported.empty(), "imported-other", ctx, "imported ", imported.empty() ? "" : imported[0]);
            if (withLast) VH_CHECK(got == last->m && log.size() == 1, "next-not-asked", ctx, "the next resolver was not asked: ", kind, " ", what);
            else VH_CHECK(kind == "runtime_error", "not-rejected", ctx, "not rejected: ", kind, " ", what);
            vh::count("not_fmus");
        }
    }
}
