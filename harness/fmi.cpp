// C30: the FMI adapters (importer, FMI 1.0 and 2.0 units, proxy), compiled from
// /repo and linked with a stand-in for the FMI Library and proxyfmu that plays
// the part of the model units, records and checks every call, and injects faults.
#include "vh.hpp"

#include "mock/mockfmi.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/error.hpp>
#include <cosim/exception.hpp>
#include <cosim/execution.hpp>
#include <cosim/file_cache.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/fmi/v1/fmu.hpp>
#include <cosim/fmi/v2/fmu.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/observer/last_value_observer.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/uri.hpp>

#include <cosim/log/logger.hpp>

#include <boost/log/attributes/value_extraction.hpp>
#include <boost/log/core.hpp>
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/log/sinks/unlocked_frontend.hpp>
#include <boost/make_shared.hpp>

#include <algorithm>
#include <filesystem>
#include <thread>
#include <zip.h>

#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>

namespace fs = std::filesystem;
using std::optional;
using std::shared_ptr;
using std::string;
using std::vector;
using mockfmi::hk;
using mockfmi::handle;
using mockfmi::spec;
using mockfmi::value;

namespace
{
// violations noticed inside the mock, possibly on other threads
std::mutex complaintsMutex;
vector<std::pair<string, string>> complaints;

void checkComplaints(const string& where)
{
    std::lock_guard<std::mutex> l(complaintsMutex);
    if (complaints.empty()) return;
    auto c = complaints.front();
    complaints.clear();
    throw vh::failed(c.first, c.second + " [" + where + "]");
}

void resetMock()
{
    {
        std::lock_guard<std::mutex> l(complaintsMutex);
        complaints.clear();
    }
    auto& h = hk();
    h.specs.clear();
    h.live.clear();
    h.instances.clear();
    h.contexts = h.lists = h.parsed = 0;
    h.status = nullptr;
    h.doStep = nullptr;
    h.born = nullptr;
    h.complain = [](const string& k, const string& m) {
        std::lock_guard<std::mutex> l(complaintsMutex);
        complaints.push_back({k, m});
    };
}

void checkReleased()
{
    checkComplaints("after everything was released");
    std::lock_guard<std::mutex> l(hk().m);
    VH_CHECK(hk().live.empty(), "resource-leak", hk().live.size(), " unit handles were never freed");
    VH_CHECK(hk().lists == 0, "resource-leak", hk().lists, " variable lists were never freed");
    VH_CHECK(hk().contexts == 0, "resource-leak", hk().contexts, " import contexts were never freed");
}

string ident(vh::rng& rng, int n = 8)
{
    string s;
    for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789"[rng.range(0, 35)];
    return s;
}

double anyReal(vh::rng& rng)
{
    switch (rng.range(0, 5)) {
        case 0: return 0.0;
        case 1: return -1.5e300;
        case 2: return 4.9e-324;
        default: return (rng.unit() - 0.5) * 1e4;
    }
}

value anyValue(vh::rng& rng, int type)
{
    switch (type) {
        case 0: return anyReal(rng);
        case 2: return rng.chance(50);
        case 3: return rng.chance(20) ? string() : rng.chance(10) ? string(3000, 'x') : ident(rng, static_cast<int>(rng.range(1, 30)));
        default: return rng.chance(10) ? -2147483647 - 1 : static_cast<int>(rng.range(-1000000, 1000000));
    }
}

shared_ptr<spec> makeSpec(vh::rng& rng, int version = 0)
{
    auto s = std::make_shared<spec>();
    s->version = version ? version : static_cast<int>(rng.range(1, 2));
    s->guid = ident(rng, 16);
    if (rng.chance(30)) s->guid = "{" + s->guid + "}";
    s->name = "model " + ident(rng);
    s->description = rng.chance(20) ? "" : "about " + ident(rng);
    s->author = rng.chance(20) ? "" : "by " + ident(rng);
    s->mversion = rng.chance(20) ? "" : "1." + ident(rng, 2);
    s->kind = s->version == 1 ? static_cast<int>(rng.range(1, 2)) : static_cast<int>(rng.range(2, 3));
    const int n = static_cast<int>(rng.range(0, 14));
    std::set<std::pair<int, unsigned>> used;
    for (int i = 0; i < n; ++i) {
        mockfmi::var v;
        v.name = "v" + std::to_string(i) + "." + ident(rng, 4);
        v.type = static_cast<int>(rng.range(0, 4));
        v.vr = rng.chance(5) ? 4294967295u : rng.chance(30) ? static_cast<unsigned>(rng.next()) : static_cast<unsigned>(rng.range(0, 20));
        if (!used.insert({v.type, v.vr}).second) continue;
        if (s->version == 1) {
            v.causality = static_cast<int>(rng.range(0, 3));
            v.variability = static_cast<int>(rng.range(0, 3));
        } else {
            v.causality = static_cast<int>(rng.range(0, 5));
            v.variability = static_cast<int>(rng.range(0, 4));
        }
        v.hasStart = rng.chance(60);
        v.start = anyValue(rng, v.type);
        s->vars.push_back(v);
    }
    std::lock_guard<std::mutex> l(hk().m);
    hk().specs[s->guid] = s;
    return s;
}

string modelDescriptionXml(const spec& s, const string& fmiVersion)
{
    return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<fmiModelDescription fmiVersion=\"" + fmiVersion + "\" modelName=\"x\" guid=\"" + s.guid + "\">\n</fmiModelDescription>\n";
}
string fmiVersionOf(vh::rng& rng, const spec& s)
{
    if (s.version == 1) return rng.chance(20) ? "1.0.1" : "1.0";
    return rng.chance(20) ? "2.0.3" : "2.0";
}

using files_t = vector<std::pair<string, string>>;
void writeZip(const fs::path& p, const files_t& files)
{
    fs::remove(p);
    int err = 0;
    auto* z = zip_open(p.string().c_str(), ZIP_CREATE | ZIP_TRUNCATE, &err);
    if (!z) vh::harness_error("zip_open failed for " + p.string());
    for (auto& [n, c] : files) {
        auto* src = zip_source_buffer(z, c.data(), c.size(), 0);
        const auto i = zip_file_add(z, n.c_str(), src, 0);
        if (i < 0) vh::harness_error("zip_file_add failed");
        if (n.find("stored") != string::npos) zip_set_file_compression(z, static_cast<zip_uint64_t>(i), ZIP_CM_STORE, 0);
    }
    if (zip_close(z) != 0) vh::harness_error("zip_close failed");
}
void writeDir(const fs::path& d, const files_t& files)
{
    for (auto& [n, c] : files) {
        fs::create_directories((d / n).parent_path());
        std::ofstream(d / n, std::ios::binary) << c;
    }
}
string slurp(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    return string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
fs::path freshDir()
{
    static int n = 0;
    auto d = fs::path(vh::scratch_dir()) / ("c" + std::to_string(++n));
    fs::create_directories(d);
    return d;
}
struct dirGuard
{
    fs::path p = freshDir();
    ~dirGuard()
    {
        std::error_code ec;
        fs::remove_all(p, ec);
    }
};

void checkDescription(const cosim::model_description& d, const spec& s)
{
    VH_CHECK(d.name == s.name && d.uuid == s.guid && d.description == s.description && d.author == s.author && d.version == s.mversion,
        "wrong-description", "name/uuid/description/author/version are ", d.name, "/", d.uuid, "/", d.description, "/", d.author, "/", d.version);
    size_t k = 0;
    for (auto& v : s.vars) {
        if (v.type == 4) continue;
        VH_CHECK(k < d.variables.size(), "wrong-description", "variable ", v.name, " is missing");
        auto& x = d.variables[k++];
        using C = cosim::variable_causality;
        using V = cosim::variable_variability;
        static const cosim::variable_type types[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::boolean, cosim::variable_type::string};
        C c;
        V u;
        if (s.version == 1) {
            c = v.causality == 0 ? (v.variability == 1 ? C::parameter : C::input) : v.causality == 1 ? C::output : C::local;
            static const V us[] = {V::constant, V::fixed, V::discrete, V::continuous};
            u = us[v.variability];
        } else {
            static const C cs[] = {C::parameter, C::calculated_parameter, C::input, C::output, C::local, C::local};
            static const V us[] = {V::constant, V::fixed, V::tunable, V::discrete, V::continuous};
            c = cs[v.causality];
            u = us[v.variability];
        }
        VH_CHECK(x.name == v.name && x.reference == v.vr && x.type == types[v.type], "wrong-description", "variable ", v.name, " is described as ", x.name, ", reference ", x.reference, " (", v.vr, ")");
        VH_CHECK(x.causality == c && x.variability == u, "wrong-description", "variable ", v.name, " has causality/variability ", static_cast<int>(x.causality), "/", static_cast<int>(x.variability));
        VH_CHECK(x.start.has_value() == v.hasStart, "wrong-description", "variable ", v.name, ": start value ", v.hasStart ? "missing" : "made up");
        if (v.hasStart) {
            bool same = false;
            switch (v.type) {
                case 0: same = std::holds_alternative<double>(*x.start) && std::get<double>(*x.start) == std::get<double>(v.start); break;
                case 1: same = std::holds_alternative<int>(*x.start) && std::get<int>(*x.start) == std::get<int>(v.start); break;
                case 2: same = std::holds_alternative<bool>(*x.start) && std::get<bool>(*x.start) == std::get<bool>(v.start); break;
                case 3: same = std::holds_alternative<string>(*x.start) && std::get<string>(*x.start) == std::get<string>(v.start); break;
            }
            VH_CHECK(same, "wrong-description", "variable ", v.name, " has the wrong start value");
        }
    }
    VH_CHECK(k == d.variables.size(), "wrong-description", d.variables.size() - k, " variables too many (enumerations are not supported)");
    vh::count("descriptions_checked");
}

// ------------------------------------------------------------ the slaves
enum class outcome { ok, step_failed, bad_value, error, other };
struct result
{
    outcome o = outcome::ok;
    std::error_code code;
    string msg;
};
template<typename F>
result attempt(F&& f)
{
    result r;
    try {
        if constexpr (std::is_same_v<decltype(f()), cosim::step_result>) {
            r.o = f() == cosim::step_result::complete ? outcome::ok : outcome::step_failed;
        } else {
            f();
        }
    } catch (const cosim::nonfatal_bad_value& e) {
        r.o = outcome::bad_value;
        r.msg = e.what();
    } catch (const cosim::error& e) {
        r.o = outcome::error;
        r.code = e.code();
        r.msg = e.what();
    } catch (const std::exception& e) {
        r.o = outcome::other;
        r.msg = e.what();
    }
    return r;
}

double asDouble(cosim::time_point t)
{
    return static_cast<double>(t.time_since_epoch().count()) / 1e9;
}

struct planned
{
    int at = -1, seen = 0, status = 0; // the operation that doesn't return ok
    bool log = false;
    string message, op;
};

void emitLog(handle& h, int status, const string& message)
{
    // logged in two pieces, through the format
    if (h.sp->version == 1)
        h.cb1.logger(&h, h.instanceName.c_str(), static_cast<fmi1_status_t>(status), "cat", "%s|%d|%s", "MOCK", 17, message.c_str());
    else
        h.cb2.logger(h.cb2.componentEnvironment, h.instanceName.c_str(), static_cast<fmi2_status_t>(status), "cat", "%s|%d|%s", "MOCK", 17, message.c_str());
}

void installPlan(planned& p)
{
    hk().status = [&p](handle& h, const string& op) {
        if (op == "instantiate") { // only asked for when it fails
            if (p.log) emitLog(h, 3, p.message);
            return 3;
        }
        if (p.seen++ != p.at) return 0;
        p.op = op;
        if (p.log) emitLog(h, p.status, p.message);
        return p.status;
    };
}

void checkOutcome(const result& r, const planned& p, bool hit, const string& op, int version)
{
    checkComplaints(op);
    const int s = hit ? p.status : 0;
    outcome want = outcome::ok;
    if (s == 2) {
        if (op == "do_step") want = outcome::step_failed;
        else if (op.substr(0, 3) == "set" && op != "setup") want = outcome::bad_value;
        else want = outcome::error;
    } else if (s > 2) {
        want = outcome::error;
    }
    VH_CHECK(r.o == want, "wrong-status-handling", op, " (FMI ", version, ") with status ", s, " had outcome ", static_cast<int>(r.o), " instead of ", static_cast<int>(want), ": ", r.msg);
    if (want == outcome::error) {
        const bool okCode = r.code == cosim::make_error_code(cosim::errc::model_error) ||
            (s == 5 && r.code == cosim::make_error_code(cosim::errc::unsupported_feature));
        VH_CHECK(okCode, "wrong-error-code", op, " with status ", s, " gave error code ", r.code.message());
    }
    if ((want == outcome::error && s != 5 || want == outcome::bad_value) && p.log) {
        VH_CHECK(r.msg.find("MOCK|17|" + p.message) != string::npos, "message-lost", op, " failed with the message '", r.msg.substr(0, 200), "', but the unit had logged '", p.message.substr(0, 200), "'");
        vh::count("messages_checked");
    }
    if (hit) vh::count("faults_injected");
}

// runs one slave instance through a random life; the calls that arrive are compared with the ones requested
void driveSlave(vh::rng& rng, cosim::slave& sl, handle& h, planned& p, const string& name)
{
    const int version = h.sp->version;
    size_t done = 0;
    auto news = [&] {
        vector<mockfmi::call> c(h.calls.begin() + static_cast<long>(done), h.calls.end());
        done = h.calls.size();
        return c;
    };
    {
        auto c = news();
        VH_CHECK(c.size() == 1 && c[0].op == "instantiate" && c[0].text == name && c[0].num[0] == 0 && c[0].num[1] == 0, "wrong-calls", "instantiation arrived as ", c.empty() ? "" : c[0].op, " ", c.empty() ? "" : c[0].text);
    }
    bool dead = false;
    const auto start = cosim::time_point(cosim::duration(rng.chance(30) ? 0 : rng.chance(50) ? rng.range(-1000000000000ll, 1000000000000ll) : rng.range(0, 4000000000000000000ll)));
    optional<cosim::time_point> stop;
    if (rng.chance(50)) stop = start + cosim::duration(rng.range(0, 1000000000000ll));
    optional<double> tol;
    if (rng.chance(50)) tol = rng.chance(20) ? 0.0 : rng.unit();

    auto run = [&](const string& op, auto&& f) {
        const auto before = p.seen;
        const auto r = attempt(f);
        const bool hit = p.at >= before && p.at < p.seen;
        checkOutcome(r, p, hit, op, version);
        vh::count("operations");
        if (r.o == outcome::error || r.o == outcome::step_failed) dead = true;
        return r;
    };
    auto expectCalls = [&](const string& what, const vector<mockfmi::call>& want) {
        auto c = news();
        bool same = c.size() <= want.size() && (c.size() == want.size() || dead);
        for (size_t i = 0; same && i < c.size(); ++i) same = c[i].op == want[i].op && c[i].num == want[i].num;
        if (!same) {
            std::ostringstream o;
            o.precision(17);
            o << what << " arrived as";
            for (auto& x : c) {
                o << " " << x.op << "(";
                for (auto d : x.num) o << d << ",";
                o << ")";
            }
            o << " instead of";
            for (auto& x : want) {
                o << " " << x.op << "(";
                for (auto d : x.num) o << d << ",";
                o << ")";
            }
            throw vh::failed("wrong-calls", o.str());
        }
    };
    const double stopDef = stop ? 1 : 0, stopNum = stop ? asDouble(*stop) : 0;

    auto access = [&](int times) {
        for (int k = 0; k < times && !dead; ++k) {
            const int type = static_cast<int>(rng.range(0, 3));
            vector<unsigned> all, vr;
            for (auto& v : h.sp->vars)
                if (v.type == type) all.push_back(v.vr);
            if (!all.empty() && !rng.chance(10))
                for (int i = static_cast<int>(rng.range(1, 6)); i > 0; --i) vr.push_back(rng.pick(all));
            const bool set = rng.chance(50);
            if (set) {
                std::sort(vr.begin(), vr.end());
                vr.erase(std::unique(vr.begin(), vr.end()), vr.end());
                for (size_t i = vr.size(); i > 1; --i) std::swap(vr[i - 1], vr[static_cast<size_t>(rng.range(0, static_cast<long long>(i) - 1))]);
            }
            static const char* const names[] = {"real", "integer", "boolean", "string"};
            const string op = string(set ? "set_" : "get_") + names[type];
            const auto n = vr.size();
            vector<double> r(n);
            vector<int> in(n);
            std::unique_ptr<bool[]> b(new bool[n + 1]);
            vector<string> s(n);
            vector<value> want;
            for (size_t i = 0; i < n; ++i) {
                const auto v = set ? anyValue(rng, type) : h.values.at({type, vr[i]});
                want.push_back(v);
                if (set) {
                    if (type == 0) r[i] = std::get<double>(v);
                    if (type == 1) in[i] = std::get<int>(v);
                    if (type == 2) b[i] = std::get<bool>(v);
                    if (type == 3) s[i] = std::get<string>(v);
                }
            }
            const gsl::span<const cosim::value_reference> vs(vr.data(), vr.size());
            const auto res = run(op, [&] {
                if (set) {
                    if (type == 0) sl.set_real_variables(vs, gsl::span<const double>(r.data(), n));
                    if (type == 1) sl.set_integer_variables(vs, gsl::span<const int>(in.data(), n));
                    if (type == 2) sl.set_boolean_variables(vs, gsl::span<const bool>(b.get(), n));
                    if (type == 3) sl.set_string_variables(vs, gsl::span<const string>(s.data(), n));
                } else {
                    if (type == 0) sl.get_real_variables(vs, gsl::span<double>(r.data(), n));
                    if (type == 1) sl.get_integer_variables(vs, gsl::span<int>(in.data(), n));
                    if (type == 2) sl.get_boolean_variables(vs, gsl::span<bool>(b.get(), n));
                    if (type == 3) sl.get_string_variables(vs, gsl::span<string>(s.data(), n));
                }
            });
            vector<unsigned> gotVr;
            vector<value> gotVal;
            for (auto& c : news()) {
                VH_CHECK(c.op == op, "wrong-calls", op, " arrived as ", c.op);
                gotVr.insert(gotVr.end(), c.vr.begin(), c.vr.end());
                gotVal.insert(gotVal.end(), c.values.begin(), c.values.end());
            }
            if (res.o != outcome::ok && res.o != outcome::bad_value) continue;
            VH_CHECK(gotVr == vr, "wrong-calls", op, " of ", n, " variables arrived for ", gotVr.size(), " variables, or other ones");
            if (set) {
                VH_CHECK(gotVal == want, "wrong-values", op, ": the unit received other values than requested");
            } else if (res.o == outcome::ok) {
                for (size_t i = 0; i < n; ++i) {
                    const bool same = type == 0 ? r[i] == std::get<double>(want[i]) : type == 1 ? in[i] == std::get<int>(want[i]) : type == 2 ? b[i] == std::get<bool>(want[i]) : s[i] == std::get<string>(want[i]);
                    VH_CHECK(same, "wrong-values", op, ": element ", i, " differs from what the unit returned");
                }
            }
            vh::count("values_passed", static_cast<long long>(n));
        }
    };

    run("setup", [&] { sl.setup(start, stop, tol); });
    if (version == 2)
        expectCalls("setup", {{"setup_experiment", {tol ? 1.0 : 0.0, tol.value_or(0.0), asDouble(start), stopDef, stopNum}, "", {}, {}}, {"enter_initialization", {}, "", {}, {}}});
    else
        expectCalls("setup", {});
    access(static_cast<int>(rng.range(0, 4)));
    if (dead) return;
    run("start_simulation", [&] { sl.start_simulation(); });
    if (version == 2)
        expectCalls("start_simulation", {{"exit_initialization", {}, "", {}, {}}});
    else
        expectCalls("start_simulation", {{"initialize", {asDouble(start), stopDef, stopNum}, "", {}, {}}});
    auto t = start;
    for (int k = static_cast<int>(rng.range(0, 6)); k > 0 && !dead; --k) {
        access(static_cast<int>(rng.range(0, 3)));
        if (dead) break;
        const auto dt = cosim::duration(rng.range(1, rng.chance(50) ? 1000 : 1000000000000ll));
        run("do_step", [&] { return sl.do_step(t, dt); });
        expectCalls("do_step", {{"do_step", {asDouble(t), asDouble(t + dt) - asDouble(t), 1.0}, "", {}, {}}});
        t += dt;
    }
    if (!dead) access(static_cast<int>(rng.range(0, 3)));
    if (!dead && rng.chance(60)) {
        run("end_simulation", [&] { sl.end_simulation(); });
        expectCalls("end_simulation", {{"terminate", {}, "", {}, {}}});
    }
}
} // namespace

VH_PROP(C30)
{
    resetMock();
    dirGuard dir;
    auto sp = makeSpec(rng);
    const bool packed = rng.chance(60);
    const files_t files = {{"modelDescription.xml", modelDescriptionXml(*sp, fmiVersionOf(rng, *sp))}, {"resources/data.txt", ident(rng)}};
    const int flaw = rng.chance(25) ? static_cast<int>(rng.range(1, 4)) : 0;
    if (flaw == 1) sp->parseOk = false;
    if (flaw == 2) sp->kind = sp->version == 1 ? (rng.chance(50) ? 0 : 3) : 1;
    if (flaw == 3) sp->dllOk = false;
    if (flaw == 4) sp->instOk = false;
    sp->singleton = rng.chance(20);
    const auto path = dir.p / (packed ? "unit.fmu" : "unit");
    if (packed) writeZip(path, files);
    else writeDir(path, files);
    vh::sample(vh::cat("FMI ", sp->version, packed ? " packed" : " unpacked", ", ", sp->vars.size(), " variables, flaw ", flaw, sp->singleton ? ", singleton" : ""));
    {
        auto importer = cosim::fmi::importer::create();
        shared_ptr<cosim::fmi::fmu> fmu;
        const auto imp = attempt([&] { fmu = packed ? importer->import(path) : importer->import_unpacked(path); });
        checkComplaints("import");
        if (flaw == 1 || flaw == 2) {
            VH_CHECK(imp.o == outcome::error, "bad-unit-accepted", "importing a unit that ", flaw == 1 ? "can't be parsed" : "isn't for co-simulation", " had outcome ", static_cast<int>(imp.o), " ", imp.msg);
            VH_CHECK(imp.code == cosim::make_error_code(flaw == 1 ? cosim::errc::bad_file : cosim::errc::unsupported_feature), "wrong-error-code", "import failed with ", imp.code.message());
            if (flaw == 1) VH_CHECK(imp.msg.find("MOCK-PARSE-ERROR") != string::npos, "message-lost", "the parser's message was replaced by '", imp.msg, "'");
            vh::count("bad_units_rejected");
            {
                std::lock_guard<std::mutex> l(hk().m);
                VH_CHECK(hk().live.empty(), "resource-leak", "a unit that was rejected is never freed");
            }
        } else {
            VH_CHECK(imp.o == outcome::ok, "good-unit-rejected", imp.msg);
            VH_CHECK(fmu->fmi_version() == (sp->version == 1 ? cosim::fmi::fmi_version::v1_0 : cosim::fmi::fmi_version::v2_0), "wrong-fmi-version", "wrong version reported");
            VH_CHECK(fmu->importer() == importer, "wrong-importer", "unit refers to another importer");
            checkDescription(*fmu->model_description(), *sp);
            handle* latest = nullptr;
            hk().born = [&](handle& h, bool b) { if (b) latest = &h; };
            vector<shared_ptr<cosim::fmi::slave_instance>> slaves;
            vector<std::pair<shared_ptr<cosim::fmi::slave_instance>, string>> kept;
            const int n = static_cast<int>(rng.range(1, 3));
            for (int k = 0; k < n; ++k) {
                planned p;
                if (rng.chance(60)) {
                    p.at = static_cast<int>(rng.range(0, 14));
                    p.status = static_cast<int>(rng.range(1, 5));
                }
                p.log = rng.chance(70);
                p.message = rng.chance(10) ? string(5000, 'm') : "100% " + ident(rng);
                installPlan(p);
                const string name = "inst" + std::to_string(k) + ident(rng, 3);
                shared_ptr<cosim::fmi::slave_instance> sl;
                latest = nullptr;
                const auto r = attempt([&] { sl = fmu->instantiate_slave(name); });
                checkComplaints("instantiate");
                if (sp->singleton && !slaves.empty()) {
                    VH_CHECK(r.o == outcome::error && r.code == cosim::make_error_code(cosim::errc::unsupported_feature), "singleton-instantiated-twice", "second instance of a unit that allows one: outcome ", static_cast<int>(r.o), " ", r.msg);
                    vh::count("singletons_protected");
                    slaves.clear();
                    hk().status = nullptr;
                    continue;
                }
                if (flaw == 3 || flaw == 4) {
                    VH_CHECK(r.o == outcome::error, "failure-hidden", "instantiation should have failed");
                    VH_CHECK(r.code == cosim::make_error_code(flaw == 3 ? cosim::errc::dl_load_error : cosim::errc::model_error), "wrong-error-code", "instantiation failed with ", r.code.message());
                    if (flaw == 3) VH_CHECK(r.msg.find("MOCK-DLL-ERROR") != string::npos, "message-lost", "the reason why the binary couldn't be loaded was replaced by '", r.msg, "'");
                    if (flaw == 4 && p.log) VH_CHECK(r.msg.find("MOCK|17|" + p.message) != string::npos, "message-lost", "the unit's message was replaced by '", r.msg.substr(0, 300), "'");
                    std::lock_guard<std::mutex> l(hk().m);
                    VH_CHECK(hk().live.size() == 1, "resource-leak", hk().live.size() - 1, " handles left behind by a failed instantiation");
                    vh::count("failed_instantiations");
                    hk().status = nullptr;
                    continue;
                }
                VH_CHECK(r.o == outcome::ok && latest, "instantiation-failed", r.msg);
                VH_CHECK(sl->fmu() == fmu, "wrong-fmu", "an instance refers to another unit");
                driveSlave(rng, *sl, *latest, p, name);
                checkDescription(sl->model_description(), *sp);
                hk().status = nullptr;
                if (rng.chance(50)) slaves.push_back(sl);
                sl.reset();
                checkComplaints("releasing an instance");
                vh::count("instances");
            }
            // whatever is released last keeps the rest alive
            if (!slaves.empty() && rng.chance(50)) {
                fmu.reset();
                importer.reset();
                checkDescription(slaves.back()->model_description(), *sp);
                VH_CHECK(hk().contexts == 1, "context-freed-early", "the import context was freed while an instance exists");
            }
            while (!slaves.empty()) slaves.erase(slaves.begin() + rng.range(0, static_cast<long long>(slaves.size()) - 1));
        }
    }
    hk().born = nullptr;
    checkReleased();
    vh::evaluated();
    vh::distinct(vh::mix(rng.next(), static_cast<std::uint64_t>(caseIndex)));
}

// ------------------------------------------------------------ log messages
namespace
{
// Collects (severity, message) of everything logged.
struct collector
{
    std::mutex m;
    vector<std::pair<int, string>> records;
};

collector& theCollector()
{
    static collector* c = [] {
        auto* x = new collector;
        struct sink : boost::log::sinks::basic_sink_backend<boost::log::sinks::concurrent_feeding>
        {
            collector* c;
            void consume(const boost::log::record_view& rec)
            {
                const auto sev = boost::log::extract<cosim::log::severity_level>("Severity", rec);
                const auto msg = boost::log::extract<string>("Message", rec);
                std::lock_guard<std::mutex> l(c->m);
                c->records.push_back({sev ? static_cast<int>(sev.get()) : -1, msg ? msg.get() : ""});
            }
        };
        const auto backend = boost::make_shared<sink>();
        backend->c = x;
        boost::log::core::get()->add_sink(boost::make_shared<boost::log::sinks::unlocked_sink<sink>>(backend));
        return x;
    }();
    return *c;
}
} // namespace

// What model units and the FMI Library say ends up in the log.
VH_PROP(C37F)
{
    resetMock();
    auto& col = theCollector();
    boost::log::core::get()->set_logging_enabled(true);
    dirGuard dir;
    struct unit
    {
        shared_ptr<spec> sp;
        string name;
        shared_ptr<cosim::fmi::slave_instance> slave;
        handle* h = nullptr;
        vector<std::pair<int, string>> want;
        string last;
        std::uint64_t seed;
    };
    vector<unit> units(static_cast<size_t>(rng.range(1, 5)));
    long long total = 0;
    {
        auto importer = cosim::fmi::importer::create();
        handle* latest = nullptr;
        hk().born = [&](handle& h, bool b) { if (b) latest = &h; };
        for (size_t i = 0; i < units.size(); ++i) {
            auto& u = units[i];
            u.sp = makeSpec(rng);
            const auto path = dir.p / ("u" + std::to_string(i));
            writeDir(path, {{"modelDescription.xml", modelDescriptionXml(*u.sp, fmiVersionOf(rng, *u.sp))}});
            u.name = "unit" + std::to_string(i) + ident(rng, 3);
            u.seed = rng.next();
            const auto fmu = importer->import_unpacked(path);
            u.slave = fmu->instantiate_slave(u.name);
            u.h = latest;
        }
        hk().born = nullptr;
        checkComplaints("instantiation");
        {
            std::lock_guard<std::mutex> l(col.m);
            col.records.clear();
        }
        const auto each = rng.range(1, 40);
        auto talk = [&](unit& u) {
            vh::rng r(u.seed);
            for (long long k = 0; k < each; ++k) {
                const int status = static_cast<int>(r.range(0, 5));
                static const cosim::log::severity_level levels[] = {cosim::log::trace, cosim::log::warning, cosim::log::debug, cosim::log::error, cosim::log::error, cosim::log::debug};
                static const char* const names[] = {"ok", "warning", "discard", "error", "fatal", "pending"};
                static const char* const odd[] = {"", "%s%n", "100%", "\n", "{}", "]"};
                auto text = "<" + u.name + "." + std::to_string(k) + ">" + odd[r.range(0, 5)];
                if (r.chance(5)) text += string(static_cast<size_t>(r.range(1000, 20000)), 'x');
                emitLog(*u.h, status, text);
                u.last = "MOCK|17|" + text;
                u.want.push_back({static_cast<int>(levels[status]), string("[FMI status=") + names[status] + ", category=cat] MOCK|17|" + text});
            }
        };
        vector<std::thread> ts;
        for (auto& u : units) ts.emplace_back([&talk, &u] { talk(u); });
        for (auto& t : ts) t.join();
        vector<std::pair<int, string>> got;
        auto take = [&] {
            std::lock_guard<std::mutex> l(col.m);
            got.swap(col.records);
            col.records.clear();
        };
        take();
        for (auto& u : units) {
            vector<std::pair<int, string>> mine;
            const auto tag = "<" + u.name + ".";
            for (auto& g : got)
                if (g.second.find(tag) != string::npos) mine.push_back(g);
            VH_CHECK(mine.size() == u.want.size(), "messages-lost", "unit ", u.name, " (FMI ", u.sp->version, ") said ", u.want.size(), " things, ", mine.size(), " were logged");
            for (size_t k = 0; k < mine.size(); ++k) {
                VH_CHECK(mine[k].second.find(u.want[k].second.substr(u.want[k].second.find("MOCK|17|"))) != string::npos, "text", "unit ", u.name, ": logged \"", mine[k].second.substr(0, 200), "\" instead of \"", u.want[k].second.substr(0, 200), "\"");
                VH_CHECK(mine[k].second.find("cat") != string::npos && mine[k].second.find(u.want[k].second.substr(12, u.want[k].second.find(',') - 12)) != string::npos, "text", "unit ", u.name, ": status or category is missing from \"", mine[k].second.substr(0, 200), "\"");
                VH_CHECK(mine[k].first == u.want[k].first, "severity", "unit ", u.name, " (FMI ", u.sp->version, "): \"", mine[k].second.substr(0, 200), "\" was logged with severity ", mine[k].first, " instead of ", u.want[k].first);
                vh::evaluated();
            }
            total += static_cast<long long>(mine.size());
        }
        // the library
        for (int k = static_cast<int>(rng.range(1, 10)); k > 0; --k) {
            static const jm_log_level_enu_t jl[] = {jm_log_level_fatal, jm_log_level_error, jm_log_level_warning, jm_log_level_info, jm_log_level_verbose, jm_log_level_debug};
            static const cosim::log::severity_level levels[] = {cosim::log::error, cosim::log::error, cosim::log::warning, cosim::log::info, cosim::log::debug, cosim::log::debug};
            const auto w = rng.range(0, 5);
            const auto text = "LIB%d " + ident(rng);
            mockfmi::lib_log(rng.pick(units).h->jm, jl[w], text);
            take();
            VH_CHECK(got.size() == 1 && got[0].second.find(text) != string::npos && got[0].second.find("FMIMOCK") != string::npos, "text", "message of the FMI Library \"", text, "\" was logged as \"", got.empty() ? "" : got[0].second, "\"");
            VH_CHECK(got[0].first == static_cast<int>(levels[w]), "severity", "message of the FMI Library with level ", static_cast<int>(jl[w]), " was logged with severity ", got[0].first);
            vh::count("library_messages");
        }
        // an error is explained by what that unit said last
        hk().status = [&](handle&, const string& op) { return op == "terminate" ? 0 : 3; };
        for (auto& u : units) {
            const auto r = attempt([&] {
                u.slave->setup(cosim::time_point(), {}, {});
                u.slave->start_simulation();
            });
            VH_CHECK(r.o == outcome::error && r.msg.find(u.last) != string::npos, "message-lost", "unit ", u.name, " had said \"", u.last.substr(0, 100), "\" and failed with \"", r.msg.substr(0, 200), "\"");
        }
        hk().status = nullptr;
        checkComplaints("failing");
        units.clear();
    }
    checkReleased();
    vh::count("unit_messages", total);
    vh::distinct(rng.next());
}

// --------------------------------------------------------- import histories
VH_PROP(C30I)
{
    resetMock();
    dirGuard dir;
    fs::create_directories(dir.p / "cache");
    const bool persistent = rng.chance(50);
    {
        shared_ptr<cosim::file_cache> cache;
        if (persistent) cache = std::make_shared<cosim::persistent_file_cache>(dir.p / "cache");
        else cache = std::make_shared<cosim::temporary_file_cache>();
        auto importer = cosim::fmi::importer::create(cache);
        struct unit
        {
            fs::path path;
            bool packed;
            shared_ptr<spec> sp;
            int flaw = 0; // of the file at present
            files_t files;
        };
        vector<shared_ptr<spec>> specs;
        for (int i = 0; i < 2; ++i) specs.push_back(makeSpec(rng));
        std::map<string, files_t> contents; // what a GUID stands for at present
        vector<unit> units;
        int generation = 0;
        auto write = [&](unit& u, int flaw) {
            u.flaw = flaw;
            auto& s = *u.sp;
            files_t f;
            string md = modelDescriptionXml(s, fmiVersionOf(rng, s));
            if (flaw == 1) md = modelDescriptionXml(s, rng.chance(50) ? "3.0" : "0.9");
            if (flaw == 2) md = "<?xml version=\"1.0\"?><fmiModelDescription modelName=\"x\" guid=\"" + s.guid + "\"/>";
            if (flaw == 3) md = "<?xml version=\"1.0\"?><fmiModelDescription fmiVersion=\"2.0\" modelName=\"x\"" + string(rng.chance(50) ? " guid=\"  \"" : "") + "/>";
            if (flaw == 4) md = md.substr(0, md.size() / 2);
            const int extra = static_cast<int>(rng.range(1, 4));
            for (int i = 0; i < extra; ++i) f.push_back({"resources/f" + std::to_string(i) + ".stored", "generation " + std::to_string(generation) + " " + ident(rng, static_cast<int>(rng.range(0, 400)))});
            if (flaw != 5) f.insert(f.begin() + rng.range(0, static_cast<long long>(f.size())), {"modelDescription.xml", md});
            if (!u.packed) fs::remove_all(u.path);
            if (u.packed) {
                writeZip(u.path, f);
                auto bytes = slurp(u.path);
                if (flaw == 6) std::ofstream(u.path, std::ios::binary | std::ios::trunc) << bytes.substr(0, bytes.size() / 2); // not an archive any more
                if (flaw == 7) { // damaged data in one file
                    const auto a = bytes.find("generation ");
                    if (a == string::npos) vh::harness_error("marker not found in archive");
                    bytes[a + 12] ^= 1;
                    std::ofstream(u.path, std::ios::binary | std::ios::trunc) << bytes;
                }
                // The importer tells from the times whether what it has is still good.
                fs::last_write_time(u.path, fs::file_time_type::clock::now() + std::chrono::seconds(generation ? generation * 10 : -1000));
            } else {
                writeDir(u.path, f);
            }
            u.files = f;
        };
        for (int i = 0; i < 4; ++i) {
            unit u;
            u.packed = i < 2 || rng.chance(50);
            u.sp = specs[static_cast<size_t>(i) % specs.size()];
            u.path = dir.p / ("u" + std::to_string(i) + (u.packed ? ".fmu" : ""));
            write(u, 0);
            units.push_back(u);
        }
        // other files for the same unit are exact copies, so that it's irrelevant which one is used
        auto align = [&](size_t i) {
            for (size_t j = 0; j < units.size(); ++j) {
                if (j == i || units[j].sp != units[i].sp) continue;
                units[j].files = units[i].files;
                units[j].flaw = units[i].flaw;
                if (units[j].packed) {
                    if (units[i].packed) {
                        fs::remove(units[j].path);
                        fs::copy_file(units[i].path, units[j].path);
                    } else {
                        writeZip(units[j].path, units[i].files);
                    }
                    fs::last_write_time(units[j].path, fs::file_time_type::clock::now() + std::chrono::seconds(generation ? generation * 10 : -1000));
                } else {
                    fs::remove_all(units[j].path);
                    writeDir(units[j].path, units[i].files);
                }
            }
        };
        for (size_t i = 0; i < 2; ++i) align(i);
        struct held
        {
            shared_ptr<cosim::fmi::fmu> fmu;
            shared_ptr<cosim::fmi::slave_instance> slave;
        };
        vector<held> holds;
        std::map<fs::path, std::weak_ptr<cosim::fmi::fmu>> byPath;
        std::map<string, std::weak_ptr<cosim::fmi::fmu>> byGuid;
        std::map<cosim::fmi::fmu*, files_t> holdsFiles;
        const int ops = static_cast<int>(rng.range(5, 25));
        string trace;
        for (int o = 0; o < ops; ++o) {
            const auto i = static_cast<size_t>(rng.range(0, static_cast<long long>(units.size()) - 1));
            auto& u = units[i];
            const auto what = rng.range(0, 9);
            if (what <= 4) {
                trace += vh::cat(" import", i);
                vh::context("import history:" + trace);
                shared_ptr<cosim::fmi::fmu> want;
                if (u.packed && byPath.count(u.path)) want = byPath[u.path].lock();
                const bool peekFails = u.flaw >= 1 && u.flaw <= 6 && !(u.flaw == 6 && !u.packed);
                const bool viaPath = !!want;
                if (!want && !peekFails && byGuid.count(u.sp->guid)) want = byGuid[u.sp->guid].lock();
                shared_ptr<cosim::fmi::fmu> got;
                const auto r = attempt([&] { got = u.packed ? importer->import(u.path) : importer->import_unpacked(u.path); });
                checkComplaints("import");
                if (want) {
                    VH_CHECK(r.o == outcome::ok && got == want, "not-shared", "importing the same unit (same ", viaPath ? "path" : "GUID", ") again gave ", r.o == outcome::ok ? "another object" : r.msg, "; history:", trace);
                    vh::count("shared_imports");
                } else if (peekFails || (u.flaw == 7 && u.packed)) {
                    VH_CHECK(r.o == outcome::error || r.o == outcome::other, "bad-unit-accepted", "flaw ", u.flaw, "; history:", trace);
                    vh::count("bad_files_rejected");
                } else {
                    VH_CHECK(r.o == outcome::ok, "good-unit-rejected", r.msg, "; history:", trace);
                    const auto d = u.sp->version == 1 ? std::dynamic_pointer_cast<cosim::fmi::v1::fmu>(got)->directory() : std::dynamic_pointer_cast<cosim::fmi::v2::fmu>(got)->directory();
                    if (!u.packed) VH_CHECK(fs::equivalent(d, u.path), "wrong-directory", "an unpacked unit is used from ", d);
                    checkDescription(*got->model_description(), *u.sp);
                    if (u.packed) byPath[u.path] = got;
                    byGuid[u.sp->guid] = got;
                    holdsFiles[got.get()] = u.files;
                    vh::count("fresh_imports");
                }
                if (got) {
                    const auto d = u.sp->version == 1 ? std::dynamic_pointer_cast<cosim::fmi::v1::fmu>(got)->directory() : std::dynamic_pointer_cast<cosim::fmi::v2::fmu>(got)->directory();
                    for (auto& [n, c] : holdsFiles[got.get()]) {
                        if (!want) VH_CHECK(fs::exists(d / n) && slurp(d / n) == c, "wrong-contents", "file ", n, " of an imported unit has the wrong contents; history:", trace);
                        vh::count("unit_files_checked");
                    }
                    held hd;
                    hd.fmu = got;
                    if (rng.chance(40)) {
                        const auto ri = attempt([&] { hd.slave = got->instantiate_slave("s"); });
                        VH_CHECK(ri.o == outcome::ok, "instantiation-failed", ri.msg);
                        if (rng.chance(50)) hd.fmu.reset(); // the instance keeps it alive
                    }
                    holds.push_back(hd);
                }
            } else if (what <= 7) {
                if (holds.empty()) continue;
                trace += " release";
                holds.erase(holds.begin() + rng.range(0, static_cast<long long>(holds.size()) - 1));
                checkComplaints("release");
            } else {
                // replace the files of a unit that isn't in use
                bool used = byGuid.count(u.sp->guid) && !byGuid[u.sp->guid].expired();
                if (used) continue;
                ++generation;
                write(u, rng.chance(50) ? 0 : static_cast<int>(rng.range(1, u.packed ? 7 : 4)));
                trace += vh::cat(" rewrite", i, "/", u.flaw);
                if (u.flaw == 0) align(i);
            }
        }
        vh::sample(trace);
        vh::distinct(vh::hash_str(trace));
        holds.clear();
    }
    checkReleased();
    vh::evaluated();
}

// A process that dies while it unpacks a unit into a shared cache
VH_PROP(C30K)
{
    resetMock();
    dirGuard dir;
    fs::create_directories(dir.p / "cache");
    auto sp = makeSpec(rng);
    files_t f = {{"modelDescription.xml", modelDescriptionXml(*sp, fmiVersionOf(rng, *sp))}};
    const int n = static_cast<int>(rng.range(1, 5));
    const int big = static_cast<int>(rng.range(0, n - 1));
    for (int i = 0; i < n; ++i) {
        string c = "x" + ident(rng, 20);
        if (i == big) c += string(200000, 'y') + ident(rng, 20);
        f.push_back({"resources/f" + std::to_string(i) + (rng.chance(50) ? ".stored" : ""), c});
    }
    std::swap(f[0], f[static_cast<size_t>(rng.range(0, n))]);
    const auto path = dir.p / "unit.fmu";
    const bool update = rng.chance(40);
    auto older = f;
    if (update) {
        for (auto& [nm, c] : older)
            if (nm != "modelDescription.xml") c = "old " + ident(rng);
        writeZip(path, older);
        fs::last_write_time(path, fs::file_time_type::clock::now() - std::chrono::seconds(1000));
        auto importer = cosim::fmi::importer::create(std::make_shared<cosim::persistent_file_cache>(dir.p / "cache"));
        importer->import(path);
        writeZip(path, f);
        fs::last_write_time(path, fs::file_time_type::clock::now() + std::chrono::seconds(10));
    } else {
        writeZip(path, f);
        fs::last_write_time(path, fs::file_time_type::clock::now() - std::chrono::seconds(1000));
    }
    const auto pid = ::fork();
    if (pid < 0) vh::harness_error("fork");
    if (pid == 0) {
        ::signal(SIGXFSZ, SIG_DFL);
        rlimit core{0, 0};
        ::setrlimit(RLIMIT_CORE, &core);
        rlimit lim{100000, 100000};
        ::setrlimit(RLIMIT_FSIZE, &lim);
        try {
            auto importer = cosim::fmi::importer::create(std::make_shared<cosim::persistent_file_cache>(dir.p / "cache"));
            importer->import(path);
        } catch (...) {
            ::_exit(3);
        }
        ::_exit(0);
    }
    int st = 0;
    ::waitpid(pid, &st, 0);
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGXFSZ) {
        vh::count("not_killed");
    } else {
        vh::count("killed_while_unpacking");
    }
    if (update) { // the file is older than what's in the cache by now
        fs::last_write_time(path, fs::file_time_type::clock::now() - std::chrono::seconds(rng.chance(50) ? 1 : -20));
    }
    {
        auto importer = cosim::fmi::importer::create(std::make_shared<cosim::persistent_file_cache>(dir.p / "cache"));
        auto fmu = importer->import(path);
        const auto d = sp->version == 1 ? std::dynamic_pointer_cast<cosim::fmi::v1::fmu>(fmu)->directory() : std::dynamic_pointer_cast<cosim::fmi::v2::fmu>(fmu)->directory();
        for (auto& [nm, c] : f)
            VH_CHECK(fs::exists(d / nm) && slurp(d / nm) == c, "partial-unit", "after another process was killed while unpacking the unit, it's used with an incomplete file ", nm);
    }
    checkReleased();
    vh::evaluated();
    vh::distinct(vh::mix(rng.next(), static_cast<std::uint64_t>(caseIndex)));
}

// ------------------------------------------------- whole systems of units
VH_PROP(C30S)
{
    resetMock();
    dirGuard dir;
    const int n = static_cast<int>(rng.range(2, 6));
    struct simm
    {
        shared_ptr<spec> sp;
        string name;
        cosim::simulator_index index = 0;
    };
    vector<simm> sims;
    vector<shared_ptr<spec>> specs;
    const int ns = static_cast<int>(rng.range(1, 3));
    for (int i = 0; i < ns; ++i) {
        auto s = makeSpec(rng, 0);
        s->vars.clear();
        for (int t = 0; t < 4; ++t) {
            for (int d = 0; d < 2; ++d) {
                mockfmi::var v;
                v.type = t;
                v.vr = static_cast<unsigned>(10 * d + t);
                v.name = vh::cat(d ? "out" : "in", t);
                v.causality = s->version == 1 ? d : (d ? 3 : 2);
                v.variability = s->version == 1 ? 2 : 3;
                v.hasStart = rng.chance(50);
                v.start = anyValue(rng, t);
                s->vars.push_back(v);
            }
        }
        writeZip(dir.p / ("m" + std::to_string(i) + ".fmu"), {{"modelDescription.xml", modelDescriptionXml(*s, fmiVersionOf(rng, *s))}});
        specs.push_back(s);
    }
    std::map<string, vector<std::map<std::pair<int, unsigned>, value>>> before, after; // by instance name: values at the start and end of each step
    std::map<string, vector<std::pair<double, double>>> times;
    std::mutex m;
    std::atomic<int> concurrent{0}, most{0};
    const bool slow = rng.chance(50);
    hk().doStep = [&](handle& h, double t, double dt) {
        const int c = ++concurrent;
        int mm = most;
        while (c > mm && !most.compare_exchange_weak(mm, c)) {}
        if (slow) ::usleep(300);
        auto snapshot = h.values;
        for (int ty = 0; ty < 4; ++ty) {
            auto& in = h.values.at({ty, static_cast<unsigned>(ty)});
            auto& out = h.values.at({ty, static_cast<unsigned>(10 + ty)});
            switch (ty) {
                case 0: out = std::get<double>(in) * 0.5 + t + 1; break;
                case 1: out = (std::get<int>(in) / 2) + static_cast<int>(h.calls.size()); break;
                case 2: out = !std::get<bool>(in); break;
                case 3: out = std::get<string>(in).substr(0, 20) + "x"; break;
            }
        }
        before.at(h.instanceName).push_back(snapshot);
        after.at(h.instanceName).push_back(h.values);
        times.at(h.instanceName).push_back({t, dt});
        --concurrent;
    };
    string failing, failingOp;
    std::atomic<int> failAfter{-1};
    bool fired = false;
    if (rng.chance(40)) {
        failing = "sim" + std::to_string(rng.range(0, n - 1));
        failAfter = static_cast<int>(rng.range(0, 25));
    }
    hk().status = [&](handle& h, const string& op) {
        emitLog(h, 0, "from " + h.instanceName); // all threads log all the time
        if (h.instanceName != failing || op == "terminate") return 0;
        if (failAfter-- != 0) return 0;
        emitLog(h, 3, "SPECIFIC-" + h.instanceName);
        std::lock_guard<std::mutex> l(m);
        fired = true;
        failingOp = op;
        return 3;
    };
    const auto step = cosim::duration(rng.range(1, 1000000000));
    const auto start = cosim::time_point(cosim::duration(rng.chance(50) ? 0 : rng.range(0, 1000000000000ll)));
    const int steps = static_cast<int>(rng.range(1, 8));

    struct conn
    {
        int from, to, type;
    };
    vector<conn> conns;
    string error;
    int made = 0;
    for (int i = 0; i < n; ++i) {
        const auto nm = "sim" + std::to_string(i);
        before[nm], after[nm], times[nm];
    }
    static const cosim::variable_type types[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::boolean, cosim::variable_type::string};
    {
        shared_ptr<cosim::file_cache> cache;
        if (rng.chance(30)) {
            fs::create_directories(dir.p / "cache");
            cache = std::make_shared<cosim::persistent_file_cache>(dir.p / "cache");
        }
        auto resolver = cosim::default_model_uri_resolver(cache);
        static const unsigned workers[] = {0, 1, 2, 4, 7};
        cosim::execution ex(start, std::make_shared<cosim::fixed_step_algorithm>(step, workers[rng.range(0, 4)]));
        auto obs = std::make_shared<cosim::last_value_observer>();
        if (rng.chance(50)) ex.add_observer(obs);
        try {
            for (int i = 0; i < n; ++i) {
                const int k = static_cast<int>(rng.range(0, ns - 1));
                simm s;
                s.sp = specs[static_cast<size_t>(k)];
                s.name = "sim" + std::to_string(i);
                const auto u = cosim::path_to_file_uri(dir.p / ("m" + std::to_string(k) + ".fmu"));
                auto model = resolver->lookup_model(u);
                checkDescription(*model->description(), *s.sp);
                s.index = ex.add_slave(model->instantiate(s.name), s.name);
                sims.push_back(s);
            }
            for (int to = 0; to < n; ++to)
                for (int ty = 0; ty < 4; ++ty)
                    if (rng.chance(60)) {
                        const conn c{static_cast<int>(rng.range(0, n - 1)), to, ty};
                        ex.connect_variables(
                            cosim::variable_id{sims[static_cast<size_t>(c.from)].index, types[ty], static_cast<unsigned>(10 + ty)},
                            cosim::variable_id{sims[static_cast<size_t>(c.to)].index, types[ty], static_cast<unsigned>(ty)});
                        conns.push_back(c);
                    }
            for (int s = 0; s < steps; ++s) {
                ex.step();
                made++;
            }
        } catch (const vh::failed&) {
            throw;
        } catch (const std::exception& e) {
            error = e.what();
        }
    }
    checkReleased();
    if (fired) {
        VH_CHECK(!error.empty(), "failure-hidden", "operation ", failingOp, " of ", failing, " failed, but the simulation went on");
        VH_CHECK(error.find(failing) != string::npos, "failure-not-attributed", "operation ", failingOp, " of ", failing, " failed with: ", error);
        VH_CHECK(failingOp == "terminate" || error.find("SPECIFIC-" + failing) != string::npos, "message-lost", "operation ", failingOp, " of ", failing, " failed with: ", error);
        vh::count("systems_failed");
    } else {
        VH_CHECK(error.empty() && made == steps, "unexpected-failure", error);
        vh::count("systems_completed");
    }
    for (auto& s : sims) {
        auto& ts = times[s.name];
        VH_CHECK(static_cast<int>(ts.size()) >= made && static_cast<int>(ts.size()) <= made + (fired ? 1 : 0), "wrong-calls", s.name, " made ", ts.size(), " steps, the co-simulation ", made);
        for (size_t k = 0; k < ts.size(); ++k) {
            const auto t = start + step * static_cast<int>(k);
            VH_CHECK(ts[k].first == asDouble(t) && ts[k].second == asDouble(t + step) - asDouble(t), "wrong-calls", "step ", k, " of ", s.name, " is from ", ts[k].first, " for ", ts[k].second, ", instead of ", asDouble(t), " and ", asDouble(t + step) - asDouble(t));
            vh::count("steps_checked");
        }
    }
    for (auto& c : conns) {
        const auto& from = sims[static_cast<size_t>(c.from)].name;
        const auto& to = sims[static_cast<size_t>(c.to)].name;
        for (size_t k = 0; k < before[to].size(); ++k) {
            if (k && k > after[from].size()) break;
            if (!k && before[from].empty()) break;
            const auto& got = before[to][k].at({c.type, static_cast<unsigned>(c.type)});
            const auto& want = k ? after[from][k - 1].at({c.type, static_cast<unsigned>(10 + c.type)}) : before[from][0].at({c.type, static_cast<unsigned>(10 + c.type)});
            VH_CHECK(got == want, "wrong-values", "input ", c.type, " of ", to, " in step ", k, " isn't what ", from, " had put out");
            vh::count("transfers_checked");
        }
    }
    if (most > 1) vh::count("systems_with_concurrent_steps");
    vh::evaluated();
    vh::distinct(vh::mix(rng.next(), static_cast<std::uint64_t>(most.load())));
}

// ----------------------------------------------------------------- proxies
namespace
{
struct proxyWorld
{
    proxyfmu::fmi::model_description md;
    vector<mockfmi::call> calls;
    std::map<std::pair<int, unsigned>, value> values;
    int failAt = -1, seen = 0, failHow = 0; // 1: status, 2: exception
    string failedOp;
    bool started = false, over = false;
    int terminated = 0, freed = 0, instances = 0, fmus = 0;
    string path, host;
    int port = 0;
    bool remote = false;
};
proxyWorld* pw = nullptr;

struct mockProxySlave : proxyfmu::fmi::slave
{
    mockProxySlave() { pw->instances++; }
    ~mockProxySlave() override { pw->instances--; }
    bool op(const char* name, vector<double> num)
    {
        mockfmi::call c;
        c.op = name;
        c.num = std::move(num);
        pw->calls.push_back(c);
        if (pw->freed) mockfmi::bad("use-after-free", string(name) + " after the instance was freed");
        if (pw->seen++ != pw->failAt) return true;
        pw->failedOp = name;
        if (pw->failHow == 2) throw std::runtime_error("connection lost");
        return false;
    }
    const proxyfmu::fmi::model_description& get_model_description() const override { return pw->md; }
    bool setup_experiment(double a, double b, double c) override { return op("setup_experiment", {a, b, c}); }
    bool enter_initialization_mode() override { return op("enter_initialization", {}); }
    bool exit_initialization_mode() override
    {
        const bool ok = op("exit_initialization", {});
        if (ok) pw->started = true;
        return ok;
    }
    bool step(double t, double dt) override { return op("do_step", {t, dt}); }
    bool reset() override { return op("reset", {}); }
    bool terminate() override
    {
        pw->terminated++;
        if (!pw->started) mockfmi::bad("illegal-call-order", "terminated although the simulation hadn't started");
        if (pw->terminated > 1) mockfmi::bad("illegal-call-order", "terminated twice");
        return op("terminate", {});
    }
    void freeInstance() override
    {
        const bool first = !pw->freed;
        const bool ok = op("free_instance", {});
        (void)ok;
        if (!first) mockfmi::bad("double-free", "instance freed twice");
        pw->freed++;
    }
    template<typename T>
    bool get(const char* n, int type, const vector<unsigned>& vr, vector<T>& v)
    {
        const bool ok = op(n, {});
        if (v.size() != vr.size()) mockfmi::bad("wrong-values", "result vector of the wrong size");
        for (size_t i = 0; i < vr.size(); ++i) {
            pw->calls.back().vr.push_back(vr[i]);
            pw->calls.back().values.push_back(pw->values.at({type, vr[i]}));
            if (ok) v[i] = std::get<T>(pw->values.at({type, vr[i]}));
        }
        return ok;
    }
    template<typename T>
    bool set(const char* n, int type, const vector<unsigned>& vr, const vector<T>& v)
    {
        const bool ok = op(n, {});
        if (v.size() != vr.size()) mockfmi::bad("wrong-values", "as many values as references expected");
        for (size_t i = 0; i < vr.size(); ++i) {
            pw->calls.back().vr.push_back(vr[i]);
            pw->calls.back().values.push_back(value(T(v[i])));
            if (ok) pw->values.at({type, vr[i]}) = T(v[i]);
        }
        return ok;
    }
    using vrs = vector<unsigned>;
    bool get_integer(const vrs& r, vector<int>& v) override { return get("get_integer", 1, r, v); }
    bool get_real(const vrs& r, vector<double>& v) override { return get("get_real", 0, r, v); }
    bool get_string(const vrs& r, vector<string>& v) override { return get("get_string", 3, r, v); }
    bool get_boolean(const vrs& r, vector<bool>& v) override { return get("get_boolean", 2, r, v); }
    bool set_integer(const vrs& r, const vector<int>& v) override { return set("set_integer", 1, r, v); }
    bool set_real(const vrs& r, const vector<double>& v) override { return set("set_real", 0, r, v); }
    bool set_string(const vrs& r, const vector<string>& v) override { return set("set_string", 3, r, v); }
    bool set_boolean(const vrs& r, const vector<bool>& v) override { return set("set_boolean", 2, r, v); }
};
} // namespace

namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path& p, const std::optional<remote_info>& r)
    : md_(pw->md)
{
    pw->fmus++;
    pw->path = p.string();
    pw->remote = r.has_value();
    if (r) pw->host = r->host(), pw->port = r->port();
}
const fmi::model_description& proxy_fmu::get_model_description() const { return md_; }
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string& n)
{
    mockfmi::call c;
    c.op = "instantiate";
    c.text = n;
    pw->calls.push_back(c);
    return std::make_unique<mockProxySlave>();
}
} // namespace proxyfmu::client

VH_PROP(C30P)
{
    resetMock();
    dirGuard dir;
    proxyWorld w;
    pw = &w;
    w.md.guid = ident(rng, 12);
    w.md.author = ident(rng);
    w.md.modelName = ident(rng);
    w.md.description = ident(rng);
    const int nv = static_cast<int>(rng.range(0, 12));
    static const char* const causalities[] = {"output", "input", "parameter", "local", "independent", ""};
    static const char* const variabilities[] = {"discrete", "fixed", "tunable", "constant", "continuous"};
    std::set<std::pair<int, unsigned>> used;
    for (int i = 0; i < nv; ++i) {
        proxyfmu::fmi::scalar_variable v;
        const int type = static_cast<int>(rng.range(0, 3));
        v.vr = static_cast<unsigned>(rng.chance(30) ? rng.next() : static_cast<std::uint64_t>(rng.range(0, 20)));
        if (!used.insert({type, v.vr}).second) continue;
        v.name = "v" + std::to_string(i);
        v.causality = causalities[rng.range(0, 5)];
        v.variability = variabilities[rng.range(0, 4)];
        const auto val = anyValue(rng, type);
        const bool has = rng.chance(60);
        if (type == 0) v.typeAttribute = proxyfmu::fmi::real{has ? optional<double>(std::get<double>(val)) : std::nullopt};
        if (type == 1) v.typeAttribute = proxyfmu::fmi::integer{has ? optional<int>(std::get<int>(val)) : std::nullopt};
        if (type == 2) v.typeAttribute = proxyfmu::fmi::boolean{has ? optional<bool>(std::get<bool>(val)) : std::nullopt};
        if (type == 3) v.typeAttribute = proxyfmu::fmi::string{has ? optional<string>(std::get<string>(val)) : std::nullopt};
        w.values[{type, v.vr}] = val;
        w.md.modelVariables.push_back(v);
    }
    // finding the model
    fs::create_directories(dir.p / "a/b");
    const string file = "unit " + ident(rng, 4);
    std::ofstream(dir.p / "a/b" / (file + ".fmu")) << "x";
    const auto abs = (dir.p / "a/b" / (file + ".fmu")).string();
    const bool local = rng.chance(50);
    const string host = rng.chance(50) ? "localhost" : "h" + ident(rng, 4) + ".example";
    const int port = local && host == "localhost" ? -1 : static_cast<int>(rng.range(1, 65535));
    const auto auth = host + (port < 0 ? "" : ":" + std::to_string(port));
    auto resolver = cosim::default_model_uri_resolver();
    const auto base = cosim::path_to_file_uri(dir.p / "a/system.xml");
    const int how = static_cast<int>(rng.range(0, 4));
    shared_ptr<cosim::model> model;
    const auto lookup = attempt([&] {
        switch (how) {
            case 0: model = resolver->lookup_model(base, cosim::uri("proxyfmu://" + auth + "?file=b/" + file + ".fmu")); break;
            case 1: model = resolver->lookup_model(base, cosim::uri("proxyfmu://" + auth + "?file=../a/./b/" + file + ".fmu")); break;
            case 2: model = resolver->lookup_model(base, cosim::uri("proxyfmu://" + auth + "?file=file://" + abs)); break;
            case 3: model = resolver->lookup_model(cosim::uri("proxyfmu://" + auth + "?file=" + abs)); break;
            case 4: model = resolver->lookup_model(base, cosim::uri("proxyfmu://" + auth + "?file=b/no-" + file + ".fmu")); break;
        }
    });
    if (how == 4) {
        VH_CHECK(lookup.o == outcome::error && lookup.code == cosim::make_error_code(cosim::errc::bad_file), "missing-file-accepted", "a model in a file that doesn't exist: outcome ", static_cast<int>(lookup.o), " ", lookup.msg);
        vh::count("missing_files_rejected");
        pw = nullptr;
        return;
    }
    VH_CHECK(lookup.o == outcome::ok && model, "model-not-found", "reference of kind ", how, ": ", lookup.msg);
    VH_CHECK(fs::exists(w.path) && fs::equivalent(w.path, abs), "wrong-model", "looked up ", abs, ", got ", w.path);
    VH_CHECK(w.remote == (port >= 0 || host != "localhost") && (!w.remote || (w.host == host && w.port == port)), "wrong-host", "looked up at ", auth, ", got ", w.host, ":", w.port);
    vh::count("models_found");
    const auto& d = *model->description();
    VH_CHECK(d.uuid == w.md.guid && d.author == w.md.author && d.name == w.md.modelName && d.description == w.md.description && d.variables.size() == w.md.modelVariables.size(), "wrong-description", "of proxy model");
    for (size_t i = 0; i < d.variables.size(); ++i) {
        const auto& x = d.variables[i];
        const auto& v = w.md.modelVariables[i];
        using C = cosim::variable_causality;
        using V = cosim::variable_variability;
        static const std::map<string, C> cs = {{"output", C::output}, {"input", C::input}, {"parameter", C::parameter}, {"local", C::local}, {"independent", C::local}, {"", C::local}};
        static const std::map<string, V> us = {{"discrete", V::discrete}, {"fixed", V::fixed}, {"tunable", V::tunable}, {"constant", V::constant}, {"continuous", V::continuous}};
        static const cosim::variable_type ts[] = {cosim::variable_type::integer, cosim::variable_type::real, cosim::variable_type::string, cosim::variable_type::boolean};
        VH_CHECK(x.name == v.name && x.reference == v.vr && x.type == ts[v.typeAttribute.index()] && x.causality == cs.at(v.causality) && x.variability == us.at(v.variability), "wrong-description", "variable ", v.name, " of proxy model");
        optional<value> st;
        if (v.is_integer()) { if (auto& o = std::get<0>(v.typeAttribute).start) st = *o; }
        else if (v.is_real()) { if (auto& o = std::get<1>(v.typeAttribute).start) st = *o; }
        else if (v.is_string()) { if (auto& o = std::get<2>(v.typeAttribute).start) st = *o; }
        else if (auto& o = std::get<3>(v.typeAttribute).start) st = *o;
        optional<value> got;
        if (x.start) std::visit([&](const auto& y) { got = value(y); }, *x.start);
        VH_CHECK(st == got, "wrong-description", "start value of ", v.name, " of proxy model");
    }
    vh::count("descriptions_checked");
    // driving an instance
    if (rng.chance(60)) {
        w.failAt = static_cast<int>(rng.range(0, 14));
        w.failHow = static_cast<int>(rng.range(1, 2));
    }
    const auto name = "n" + ident(rng, 4);
    auto sl = model->instantiate(name);
    VH_CHECK(w.calls.size() == 1 && w.calls[0].text == name, "wrong-calls", "instantiation arrived as ", w.calls.size(), " calls");
    size_t done = 1;
    bool dead = false;
    auto news = [&] {
        vector<mockfmi::call> c(w.calls.begin() + static_cast<long>(done), w.calls.end());
        done = w.calls.size();
        return c;
    };
    auto run = [&](const string& op, auto&& f, const vector<mockfmi::call>& want) {
        const auto before = w.seen;
        const auto r = attempt(f);
        checkComplaints(op);
        const bool hit = w.failAt >= before && w.failAt < w.seen;
        if (hit) {
            VH_CHECK(r.o == outcome::error || r.o == outcome::other, "failure-hidden", op, ": ", w.failedOp, " failed (", w.failHow == 1 ? "status" : "exception", "), but the outcome was ", static_cast<int>(r.o));
            if (w.failHow == 1) VH_CHECK(r.code == cosim::make_error_code(cosim::errc::model_error), "wrong-error-code", r.msg);
            vh::count("faults_injected");
            dead = true;
        } else {
            VH_CHECK(r.o == outcome::ok, "unexpected-failure", op, ": ", r.msg);
        }
        const auto c = news();
        bool same = c.size() == want.size() || (hit && c.size() <= want.size());
        for (size_t i = 0; same && i < c.size(); ++i) same = c[i].op == want[i].op && c[i].num == want[i].num && (hit || c[i].vr == want[i].vr && c[i].values == want[i].values);
        string got;
        for (auto& x : c) {
            got += " " + x.op;
            for (auto nn : x.num) got += vh::cat(" ", nn);
        }
        if (!want.empty())
            for (auto nn : want[0].num) got += vh::cat(" | ", nn);
        VH_CHECK(same, "wrong-calls", op, " arrived as", got);
        vh::count("operations");
    };
    const auto start = cosim::time_point(cosim::duration(rng.chance(30) ? 0 : rng.range(-1000000000000ll, 4000000000000ll)));
    optional<cosim::time_point> stop;
    if (rng.chance(50)) stop = start + cosim::duration(rng.range(1, 1000000000000ll));
    optional<double> tol;
    if (rng.chance(50)) tol = rng.unit();
    auto access = [&](int times) {
        for (int k = 0; k < times && !dead; ++k) {
            const int type = static_cast<int>(rng.range(0, 3));
            vector<unsigned> all, vr;
            for (auto& [key, v] : w.values)
                if (key.first == type) all.push_back(key.second);
            if (!all.empty())
                for (int i = static_cast<int>(rng.range(0, 5)); i > 0; --i) vr.push_back(rng.pick(all));
            const bool set = rng.chance(50);
            if (set) {
                std::set<unsigned> u(vr.begin(), vr.end());
                vr.assign(u.rbegin(), u.rend());
            }
            static const char* const names[] = {"real", "integer", "boolean", "string"};
            const string op = string(set ? "set_" : "get_") + names[type];
            const auto n = vr.size();
            vector<double> r(n);
            vector<int> in(n);
            std::unique_ptr<bool[]> b(new bool[n + 1]);
            vector<string> s(n);
            mockfmi::call want{op, {}, "", vr, {}};
            for (size_t i = 0; i < n; ++i) {
                const auto v = set ? anyValue(rng, type) : w.values.at({type, vr[i]});
                want.values.push_back(v);
                if (!set) continue;
                if (type == 0) r[i] = std::get<double>(v);
                if (type == 1) in[i] = std::get<int>(v);
                if (type == 2) b[i] = std::get<bool>(v);
                if (type == 3) s[i] = std::get<string>(v);
            }
            const gsl::span<const cosim::value_reference> vs(vr.data(), vr.size());
            run(op, [&] {
                if (set) {
                    if (type == 0) sl->set_real_variables(vs, gsl::span<const double>(r.data(), n));
                    if (type == 1) sl->set_integer_variables(vs, gsl::span<const int>(in.data(), n));
                    if (type == 2) sl->set_boolean_variables(vs, gsl::span<const bool>(b.get(), n));
                    if (type == 3) sl->set_string_variables(vs, gsl::span<const string>(s.data(), n));
                } else {
                    if (type == 0) sl->get_real_variables(vs, gsl::span<double>(r.data(), n));
                    if (type == 1) sl->get_integer_variables(vs, gsl::span<int>(in.data(), n));
                    if (type == 2) sl->get_boolean_variables(vs, gsl::span<bool>(b.get(), n));
                    if (type == 3) sl->get_string_variables(vs, gsl::span<string>(s.data(), n));
                }
            },
                n ? vector<mockfmi::call>{want} : vector<mockfmi::call>{});
            if (!set && !dead)
                for (size_t i = 0; i < n; ++i) {
                    const bool same = type == 0 ? r[i] == std::get<double>(want.values[i]) : type == 1 ? in[i] == std::get<int>(want.values[i]) : type == 2 ? b[i] == std::get<bool>(want.values[i]) : s[i] == std::get<string>(want.values[i]);
                    VH_CHECK(same, "wrong-values", op, ": element ", i, " differs from what the unit returned");
                }
            vh::count("values_passed", static_cast<long long>(n));
        }
    };
    bool ended = false;
    run("setup", [&] { sl->setup(start, stop, tol); }, {{"setup_experiment", {asDouble(start), stop ? asDouble(*stop) : 0.0, tol.value_or(0.0)}, "", {}, {}}, {"enter_initialization", {}, "", {}, {}}});
    access(static_cast<int>(rng.range(0, 3)));
    if (!dead) {
        run("start_simulation", [&] { sl->start_simulation(); }, {{"exit_initialization", {}, "", {}, {}}});
        auto t = start;
        for (int k = static_cast<int>(rng.range(0, 6)); k > 0 && !dead; --k) {
            access(static_cast<int>(rng.range(0, 2)));
            if (dead) break;
            const auto dt = cosim::duration(rng.range(1, 1000000000ll));
            run("do_step", [&] { return sl->do_step(t, dt); }, {{"do_step", {asDouble(t), asDouble(t + dt) - asDouble(t)}, "", {}, {}}});
            t += dt;
        }
        if (!dead && rng.chance(50)) {
            run("end_simulation", [&] { sl->end_simulation(); }, {{"terminate", {}, "", {}, {}}});
            ended = true;
        }
    }
    // whatever happens now, the program has to survive it
    if (rng.chance(50) && w.failAt < w.seen) {
        w.failAt = w.seen + static_cast<int>(rng.range(0, 1));
        w.failHow = 2;
    }
    if (dead && w.failHow == 2 && rng.chance(50)) w.failAt = w.seen; // the connection stays down
    sl.reset();
    model.reset();
    checkComplaints("release");
    bool freed = false;
    for (auto& c : w.calls) freed = freed || c.op == "free_instance";
    VH_CHECK(freed && w.instances == 0, "resource-leak", "the remote instance was never freed");
    VH_CHECK(!w.started || w.terminated == 1, "not-terminated", "an instance that was started is freed without being terminated");
    (void)ended;
    vh::count("instances");
    vh::evaluated();
    vh::distinct(vh::mix(rng.next(), static_cast<std::uint64_t>(caseIndex)));
    pw = nullptr;
}
