// C36, C37: how errors are reported, and how messages are logged.
#include "world.hpp"

#include <cosim/exception.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/log/logger.hpp>
#include <cosim/log/simple.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>
#include <cosim/utility/zip.hpp>

#include <boost/log/core.hpp>

#include <fstream>
#include <future>
#include <iostream>
#include <regex>
#include <thread>

#include <sys/time.h>
#include <zlib.h>

using namespace world;
namespace fs = cosim::filesystem;
namespace czip = cosim::utility::zip;

namespace
{

// ------------------------------------------------------------- C36: errors

const std::vector<cosim::errc> kErrcs = {cosim::errc::success, cosim::errc::bad_file, cosim::errc::unsupported_feature,
    cosim::errc::dl_load_error, cosim::errc::model_error, cosim::errc::nonfatal_bad_value, cosim::errc::simulation_error,
    cosim::errc::invalid_system_structure, cosim::errc::zip_error};

std::string gen_message(vh::rng& r)
{
    static const std::vector<std::string> parts = {"a", "file ", "\xc3\xa6", "%s", "%n", "{}", ":", " ", "\\", "\"", "\n", "0", "Simulation error: ", "x.fmu"};
    std::string s;
    const auto n = r.chance(3) ? r.range(100, 5000) : r.range(0, 8);
    for (long long i = 0; i < n; ++i) s += r.pick(parts);
    return s;
}

// What happened when something was done that must fail.
struct caught
{
    enum { nothing, cosim_error, nonfatal, zip_error, system_error, other } kind = nothing;
    std::error_code code;
    std::string what;
};

template<typename F>
caught run(F f)
{
    caught c;
    try {
        f();
    } catch (const czip::error& e) {
        c = {caught::zip_error, e.code(), e.what()};
    } catch (const cosim::nonfatal_bad_value& e) {
        c = {caught::nonfatal, e.code(), e.what()};
    } catch (const cosim::error& e) {
        c = {caught::cosim_error, e.code(), e.what()};
    } catch (const std::system_error& e) {
        c = {caught::system_error, e.code(), e.what()};
    } catch (const std::exception& e) {
        c = {caught::other, {}, e.what()};
    }
    return c;
}

void expect(const caught& c, int kind, cosim::errc code, const std::string& text, const std::string& desc)
{
    VH_CHECK(c.kind != caught::nothing, "not-reported", desc);
    VH_CHECK(c.kind == kind, "wrong-type", desc, ": reported as an exception of kind ", static_cast<int>(c.kind), ": ", c.what);
    VH_CHECK(c.code == cosim::make_error_code(code) && c.code == code, "wrong-code", desc, ": reported with code ", c.code.category().name(), ":", c.code.value(), ": ", c.what);
    VH_CHECK(c.what.find(c.code.message()) != std::string::npos, "wrong-text", desc, ": the message \"", c.what, "\" doesn't contain \"", c.code.message(), "\"");
    VH_CHECK(c.what.find(text) != std::string::npos, "wrong-text", desc, ": the message \"", c.what, "\" doesn't contain \"", text, "\"");
    vh::count("errors:" + c.code.message());
    vh::evaluated();
}

void error_objects(vh::rng& rng)
{
    const auto e = rng.pick(kErrcs);
    const auto code = cosim::make_error_code(e);
    VH_CHECK(code.value() == static_cast<int>(e) && code.category() == cosim::error_category(), "code", "code of ", static_cast<int>(e), " is ", code.value());
    VH_CHECK(static_cast<bool>(code) == (e != cosim::errc::success), "code", "success isn't success: ", static_cast<int>(e));
    const std::error_condition cond = e; // implicitly
    VH_CHECK(cond == cosim::make_error_condition(e) && code == cond && code == e, "condition", static_cast<int>(e));
    for (const auto o : kErrcs) {
        if (o == e) continue;
        VH_CHECK(code != o && cosim::make_error_code(o) != code && code.message() != cosim::make_error_code(o).message(), "codes-alike",
            static_cast<int>(e), " and ", static_cast<int>(o));
    }
    VH_CHECK(!code.message().empty() && code.category().name() && *code.category().name(), "no-message", static_cast<int>(e));
    VH_CHECK(code != std::error_code(code.value(), std::generic_category()) && code != std::error_code(code.value(), std::system_category()),
        "category", "a code is taken for one of another library: ", static_cast<int>(e));
    // (the category is one object, also for threads that come first)
    const auto* there = std::async(std::launch::async, [] { return &cosim::error_category(); }).get();
    VH_CHECK(there == &cosim::error_category(), "category", "another thread sees another category");

    const auto msg = gen_message(rng);
    const auto foreign = rng.chance(50);
    const auto ec = foreign ? std::make_error_code(rng.chance(50) ? std::errc::io_error : std::errc::no_such_file_or_directory) : code;
    const auto copied = rng.chance(50);
    const auto withText = rng.chance(70);
    bool ok = false;
    try {
        const cosim::error x = withText ? cosim::error(ec, msg) : cosim::error(ec);
        if (copied) std::rethrow_exception(std::async(std::launch::async, [x] { return std::make_exception_ptr(x); }).get());
        throw x;
    } catch (const cosim::nonfatal_bad_value&) {
    } catch (const std::runtime_error& x) {
        const auto* c = dynamic_cast<const cosim::error*>(&x);
        const std::string what = x.what();
        ok = c && c->code() == ec && what.find(ec.message()) != std::string::npos && (!withText || what.find(msg) != std::string::npos);
    }
    VH_CHECK(ok, "error-object", ec.message(), ", text \"", msg, "\"");
    const auto nf = run([&] { if (withText) throw cosim::nonfatal_bad_value(msg); throw cosim::nonfatal_bad_value(); });
    expect(nf, caught::nonfatal, cosim::errc::nonfatal_bad_value, withText ? msg : "", "nonfatal_bad_value");
    bool base = false;
    try { throw cosim::nonfatal_bad_value(msg); } catch (const cosim::error& x) { base = x.code() == cosim::errc::nonfatal_bad_value; }
    VH_CHECK(base, "error-object", "nonfatal_bad_value isn't an error");
    vh::count("error_objects");
    vh::evaluated();
}

void execution_errors(vh::rng& rng)
{
    gen_options o;
    o.maxSlaves = 4;
    auto s = gen_system(rng, o);
    s.workers = static_cast<int>(rng.range(-1, 3));
    auto b = build(s);
    const auto who = static_cast<std::size_t>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1));
    const bool fail = rng.chance(60);
    const auto text = cat("reason<", rng.range(0, 1000000), ">");
    const auto at = rng.range(0, 5);
    long long n = 0;
    const auto how = rng.range(0, 2);
    if (fail)
        b.slaves[who]->fault = [&](op what, long long) {
            if (what != op::step || n++ != at) return cosim::step_result::complete;
            if (how == 0) throw cosim::error(cosim::make_error_code(cosim::errc::model_error), text);
            if (how == 1) throw std::logic_error(text);
            throw std::system_error(std::make_error_code(std::errc::io_error), text);
        };
    // sometimes others fail in the same step, which is then the first
    std::vector<std::size_t> more;
    if (fail && rng.chance(40)) {
        for (std::size_t k = 0; k < s.slaves.size(); ++k)
            if (k == who || rng.chance(60)) more.push_back(k);
        for (const auto k : more)
            b.slaves[k]->fault = [text, k, how](op what, long long) {
                if (what != op::step) return cosim::step_result::complete;
                if (how == 0) throw cosim::error(cosim::make_error_code(cosim::errc::model_error), text + cat("(", k, ")"));
                throw std::runtime_error(text + cat("(", k, ")"));
            };
    }
    bool failed = false;
    for (int k = 0; k < 80 && !failed; ++k) {
        const auto c = run([&] { b.exe->step(); });
        if (c.kind != caught::nothing) {
            expect(c, caught::cosim_error, cosim::errc::simulation_error, s.slaves[who].name, "a sub-simulator failed");
            VH_CHECK(c.what.find(text) != std::string::npos, "wrong-text", "the reason \"", text, "\" is missing from \"", c.what, "\"");
            for (const auto i : more) {
                VH_CHECK(c.what.find(s.slaves[i].name) != std::string::npos && c.what.find(text + cat("(", i, ")")) != std::string::npos, "failure-lost",
                    more.size(), " sub-simulators failed in one step, but \"", c.what, "\" doesn't mention ", s.slaves[i].name, " and its reason ", text, "(", i, ")");
                vh::count("failed_together");
            }
            failed = true;
        } else if (rng.chance(20)) {
            const auto& sl = s.slaves[static_cast<std::size_t>(rng.range(0, static_cast<long long>(s.slaves.size()) - 1))];
            if (sl.vars.empty()) continue;
            const auto& v = sl.vars[static_cast<std::size_t>(rng.range(0, static_cast<long long>(sl.vars.size()) - 1))];
            const auto i = static_cast<int>(&sl - s.slaves.data());
            if (static_cast<int>(v.type) > 3) continue;
            const auto late = run([&] { set_initial(*b.exe, i, v.ref, make_value(v.type, rng.next())); });
            expect(late, caught::cosim_error, cosim::errc::unsupported_feature, "", "an initial value was set after the start");
        }
    }
}

struct small_model : cosim::model
{
    std::shared_ptr<cosim::model_description> d = std::make_shared<cosim::model_description>();
    small_model()
    {
        d->name = d->uuid = "m";
        for (int i = 0; i < 6; ++i) {
            cosim::variable_description v;
            v.name = cat("v", i);
            v.reference = static_cast<value_reference>(i);
            v.type = static_cast<variable_type>(i % 4);
            v.causality = i < 4 ? variable_causality::input : variable_causality::output;
            v.variability = v.type == variable_type::real ? cosim::variable_variability::continuous : cosim::variable_variability::discrete;
            d->variables.push_back(v);
        }
    }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view name) override
    {
        slave_spec s;
        s.name = std::string(name);
        for (const auto& v : d->variables) {
            var_spec x;
            x.name = v.name;
            x.ref = v.reference;
            x.type = v.type;
            x.causality = v.causality;
            x.variability = v.variability;
            x.value0 = zero_value(v.type);
            s.vars.push_back(x);
        }
        return std::make_shared<vslave>(s, std::make_shared<order>());
    }
};

void structure_errors(vh::rng& rng)
{
    cosim::system_structure ss;
    const auto m = std::make_shared<small_model>();
    const auto a = gen_message(rng).substr(0, 0) + cat("a", rng.range(0, 99));
    ss.add_entity(a, m);
    ss.add_entity("f", std::make_shared<cosim::linear_transformation_function_type>(), {});
    cosim::variable_value_map values;
    const auto refuse = [&](const std::string& text, const std::string& desc, const std::function<void()>& f) {
        expect(run(f), caught::cosim_error, cosim::errc::invalid_system_structure, text, desc);
    };
    switch (rng.range(0, 6)) {
        case 0: refuse(a, "an entity of the same name", [&] { ss.add_entity(a, m); }); break;
        case 1: refuse("nobody", "a value of an unknown entity", [&] { cosim::add_variable_value(values, ss, {"nobody", "v0"}, 1.0); }); break;
        case 2: refuse("no such", "a value of an unknown variable", [&] { cosim::add_variable_value(values, ss, {a, "no such"}, 1.0); }); break;
        case 3: refuse("v1", "a value of the wrong type", [&] { cosim::add_variable_value(values, ss, {a, "v1"}, 1.0); }); break;
        case 4: refuse("", "a connection to an unknown variable", [&] { ss.connect_variables({a, "v4"}, {a, "no such"}); }); break;
        case 5: {
            // into an execution
            cosim::execution e(tp(0), std::make_shared<cosim::fixed_step_algorithm>(cosim::duration(1000)));
            cosim::variable_value_map v;
            switch (rng.range(0, 3)) {
                case 0: v[{a, "v1"}] = 1.5; break;
                case 1: v[{"nobody", "v0"}] = 1.5; break;
                case 2: v[{a, "no such"}] = 1.5; break;
                default: v[{"f", "in", ""}] = 1.5; break;
            }
            refuse("", "an impossible initial value", [&] { cosim::inject_system_structure(e, ss, v); });
            break;
        }
        default: refuse("", "connections of different types", [&] { ss.connect_variables({a, "v4"}, {a, "v1"}); }); break;
    }
    VH_CHECK(values.empty(), "value-added", "a refused value was added");
    int n = 0;
    for (const auto& c : ss.connections()) (void)c, ++n;
    VH_CHECK(n == 0, "connection-added", "a refused connection was added");
}

void le(std::string& s, std::uint32_t v, int n)
{
    for (int i = 0; i < n; ++i) s += static_cast<char>((v >> (8 * i)) & 255);
}

// A ZIP file with one stored entry.
std::string one_entry(const std::string& name, const std::string& data, std::uint32_t crc)
{
    std::string z;
    const auto n = static_cast<std::uint32_t>(data.size());
    const auto common = [&](std::string& s) {
        le(s, 20, 2), le(s, 0, 2), le(s, 0, 2), le(s, 0, 2), le(s, 0x5821, 2);
        le(s, crc, 4), le(s, n, 4), le(s, n, 4), le(s, static_cast<std::uint32_t>(name.size()), 2), le(s, 0, 2);
    };
    z += "PK\3\4";
    common(z);
    z += name + data;
    const auto cd = static_cast<std::uint32_t>(z.size());
    z += "PK\1\2";
    le(z, 20, 2);
    common(z);
    le(z, 0, 2), le(z, 0, 2), le(z, 0, 2), le(z, 0x81a40000u, 4), le(z, 0, 4);
    z += name;
    const auto len = static_cast<std::uint32_t>(z.size()) - cd;
    z += "PK\5\6";
    le(z, 0, 2), le(z, 0, 2), le(z, 1, 2), le(z, 1, 2), le(z, len, 4), le(z, cd, 4), le(z, 0, 2);
    return z;
}

void archive_errors(vh::rng& rng, long long caseIndex)
{
    const fs::path dir = fs::path(vh::scratch_dir()) / cat("zip", caseIndex);
    fs::create_directories(dir / "t");
    const auto file = dir / "a.zip";
    std::string data;
    for (int i = static_cast<int>(rng.range(10, 3000)); i > 0; --i) data += static_cast<char>(rng.range(0, 255));
    const auto name = rng.chance(50) ? "x.txt" : "d/x.txt";
    const auto crc = static_cast<std::uint32_t>(crc32(0, reinterpret_cast<const Bytef*>(data.data()), static_cast<uInt>(data.size())));
    const bool bad = rng.chance(40);
    std::ofstream(file, std::ios::binary) << one_entry(name, data, bad ? crc + 1 : crc);
    const auto is_zip = [&](const std::string& text, const std::string& desc, const std::function<void()>& f) {
        expect(run(f), caught::zip_error, cosim::errc::zip_error, text, desc);
    };
    if (bad) {
        is_zip("", "a bad checksum", [&] { czip::archive(file).extract_all(dir / "t"); });
        is_zip("", "a bad checksum (single file)", [&] { czip::archive(file).extract_file_to(0, dir / "t"); });
    } else {
        czip::archive z(file);
        VH_CHECK(run([&] { z.extract_all(dir / "t"); }).kind == caught::nothing, "spurious-error", "a proper archive couldn't be extracted");
        const auto i = rng.chance(30) ? czip::invalid_entry_index : static_cast<czip::entry_index>(rng.range(1, 1000));
        is_zip("", "the name of an entry that doesn't exist", [&] { z.entry_name(i); });
        is_zip("", "an entry that doesn't exist", [&] { z.is_dir_entry(i); });
        is_zip("", "extraction of an entry that doesn't exist", [&] { z.extract_file_to(i, dir / "t"); });
        for (const auto& target : {dir / "nowhere", file}) {
            const auto c = run([&] { z.extract_all(target); });
            VH_CHECK(c.kind == caught::system_error, "wrong-type", "extraction to something that isn't a directory: ", c.what);
            VH_CHECK(c.what.find(target.filename().string()) != std::string::npos, "wrong-text", "the target is missing from \"", c.what, "\"");
            const auto c2 = run([&] { z.extract_file_to(0, target); });
            VH_CHECK(c2.kind == caught::system_error, "wrong-type", "extraction of a file to something that isn't a directory: ", c2.what);
            vh::count("errors:input/output", 2);
        }
    }
    const auto nothing = cat("nothing", rng.range(0, 99), ".zip");
    is_zip(nothing, "an archive that doesn't exist", [&] { czip::archive(dir / nothing); });
    std::ofstream(dir / "junk.zip") << gen_message(rng) << "junk";
    is_zip("junk.zip", "a file that isn't an archive", [&] { czip::archive(dir / "junk.zip"); });
    std::error_code ignored;
    fs::remove_all(dir, ignored);
}
} // namespace

VH_PROP(C36)
{
    for (int i = 0; i < 4; ++i) error_objects(rng);
    execution_errors(rng);
    for (int i = 0; i < 4; ++i) structure_errors(rng);
    archive_errors(rng, caseIndex);
    vh::distinct(rng.next());
}


// ------------------------------------------------------------ C37: logging
namespace
{
using cosim::log::severity_level;
const std::vector<severity_level> kLevels = {cosim::log::trace, cosim::log::debug, cosim::log::info, cosim::log::warning, cosim::log::error, cosim::log::fatal};
const std::vector<std::string> kLevelNames = {"trace", "debug", "info", "warning", "error", "fatal"};

// Takes what goes to the standard log stream. (The sink sees to it that
// records are written one at a time, which is one of the things checked.)
struct capture : std::streambuf
{
    std::string text;
    std::atomic<int> inside{0};
    std::atomic<int> overlaps{0};
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (inside.fetch_add(1) != 0) ++overlaps;
        text.append(p, static_cast<std::size_t>(n));
        inside.fetch_sub(1);
        return n;
    }
    int overflow(int c) override
    {
        const char ch = static_cast<char>(c);
        xsputn(&ch, 1);
        return c;
    }
};

capture& the_console()
{
    static capture* c = [] {
        auto* x = new capture;
        std::clog.rdbuf(x);
        cosim::log::setup_simple_console_logging();
        return x;
    }();
    return *c;
}

std::string line_text(vh::rng& r)
{
    static const std::vector<std::string> parts = {"a", "b ", "\xc3\xa6", "%s", "%1%", "{}", "] ", "[info] ", " ", "\\", "\"", "\t", "0", "12:34:56.789 "};
    std::string s;
    const auto n = r.chance(2) ? r.range(1000, 20000) : r.range(0, 8);
    for (long long i = 0; i < n; ++i) s += r.pick(parts);
    return s;
}

double day_time() // in seconds
{
    timeval tv;
    gettimeofday(&tv, nullptr);
    tm t;
    localtime_r(&tv.tv_sec, &t);
    return t.tm_hour * 3600.0 + t.tm_min * 60.0 + t.tm_sec + tv.tv_usec * 1e-6;
}
} // namespace

VH_PROP(C37)
{
    auto& console = the_console();
    boost::log::core::get()->set_logging_enabled(true);
    console.text.clear();
    const auto lo0 = static_cast<int>(rng.range(0, 5));
    const bool changing = rng.chance(25);
    const auto hi0 = changing ? static_cast<int>(rng.range(0, 5)) : lo0;
    const int lo = std::min(lo0, hi0), hi = std::max(lo0, hi0);
    cosim::log::set_global_output_level(kLevels[static_cast<std::size_t>(lo0)]);

    const auto threads = static_cast<std::size_t>(rng.chance(30) ? 1 : rng.range(2, 6));
    const auto each = rng.range(1, 60);
    struct message { int level; std::string text; double before, after; };
    std::vector<std::vector<message>> sent(threads);
    std::vector<std::uint64_t> seeds;
    for (std::size_t i = 0; i < threads; ++i) seeds.push_back(rng.next());
    std::atomic<std::size_t> running{threads};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < threads; ++i)
        ts.emplace_back([&, i] {
            vh::rng r(seeds[i]);
            while (!go) std::this_thread::yield();
            for (long long k = 0; k < each; ++k) {
                message m{static_cast<int>(r.range(0, 5)), cat("<", i, ".", k, ">") + line_text(r), day_time(), 0};
                if (r.chance(10)) {
                    m.level = 2; // the level of messages without one
                    BOOST_LOG(cosim::log::logger()) << m.text;
                } else
                    BOOST_LOG_SEV(cosim::log::logger(), kLevels[static_cast<std::size_t>(m.level)]) << m.text;
                m.after = day_time();
                sent[i].push_back(m);
                if (r.chance(10)) std::this_thread::yield();
            }
            --running;
        });
    long long changes = 0;
    go = true;
    // Simulations log something now and then, too.
    if (rng.chance(30)) {
        gen_options o;
        o.maxSlaves = 3;
        auto s = gen_system(rng, o);
        for (auto& sl : s.slaves) sl.hint += s.base / 3 + 1; // worth a warning
        auto b = build(s);
        b.exe->step();
        vh::count("simulations");
    }
    while (changing && running) {
        cosim::log::set_global_output_level(kLevels[static_cast<std::size_t>(++changes % 2 ? hi0 : lo0)]);
        std::this_thread::yield();
    }
    for (auto& t : ts) t.join();
    boost::log::core::get()->flush();

    const auto desc = cat(threads, " threads, ", each, " messages each, level ", kLevelNames[static_cast<std::size_t>(lo0)], changing ? cat("/", kLevelNames[static_cast<std::size_t>(hi0)], ", changed") : "");
    VH_CHECK(console.overlaps == 0, "overlapping-writes", desc);
    std::vector<std::size_t> next(threads, 0);
    std::size_t pos = 0;
    const auto& text = console.text;
    const auto required = [&](const message& m) { return m.level >= hi; };
    while (pos < text.size()) {
        const auto end = text.find('\n', pos);
        VH_CHECK(end != std::string::npos, "incomplete-line", desc, ": ", text.substr(pos, 300));
        const auto line = text.substr(pos, end - pos);
        pos = end + 1;
        // HH:MM:SS.ffffff [severity] message
        int h = 0, mi = 0, used = 0;
        double sec = 0;
        VH_CHECK(std::sscanf(line.c_str(), "%2d:%2d:%lf [%n", &h, &mi, &sec, &used) == 3 && used > 0, "line-format", desc, ": ", line.substr(0, 300));
        int level = -1;
        for (int l = 0; l < 6; ++l)
            if (line.compare(static_cast<std::size_t>(used), kLevelNames[static_cast<std::size_t>(l)].size(), kLevelNames[static_cast<std::size_t>(l)]) == 0) level = l;
        VH_CHECK(level >= 0, "line-format", desc, ": no severity in ", line.substr(0, 300));
        VH_CHECK(level >= lo, "level", desc, ": logged although its level is disabled: ", line.substr(0, 300));
        const auto close = line.find("] ", static_cast<std::size_t>(used));
        VH_CHECK(close != std::string::npos, "line-format", desc, ": ", line.substr(0, 300));
        const auto body = line.substr(close + 2);
        std::size_t who = 0, k = 0;
        vh::evaluated();
        if (std::sscanf(body.c_str(), "<%zu.%zu>", &who, &k) != 2) {
            vh::count("lines_of_the_library");
            continue;
        }
        VH_CHECK(who < threads && k < sent[who].size(), "unknown-line", desc, ": ", line.substr(0, 300));
        VH_CHECK(k >= next[who], "order", desc, ": message ", k, " of thread ", who, " is written after a later one (or twice)");
        for (std::size_t j = next[who]; j < k; ++j)
            VH_CHECK(!required(sent[who][j]), "missing", desc, ": message ", j, " of thread ", who, " with level ", kLevelNames[static_cast<std::size_t>(sent[who][j].level)], " is missing");
        next[who] = k + 1;
        const auto& m = sent[who][k];
        VH_CHECK(level == m.level, "severity", desc, ": logged with severity ", kLevelNames[static_cast<std::size_t>(level)], " instead of ", kLevelNames[static_cast<std::size_t>(m.level)]);
        VH_CHECK(body == m.text, "text", desc, ": \"", body.substr(0, 200), "\" instead of \"", m.text.substr(0, 200), "\"");
        const auto t = h * 3600.0 + mi * 60.0 + sec;
        const bool wraps = m.after < m.before;
        VH_CHECK(wraps || (t >= m.before - 0.05 && t <= m.after + 0.05), "time-stamp", desc, ": ", line.substr(0, 20), " was logged between ", m.before, " and ", m.after, " s");
        vh::count("lines_checked");
    }
    for (std::size_t i = 0; i < threads; ++i)
        for (std::size_t j = next[i]; j < sent[i].size(); ++j)
            VH_CHECK(!required(sent[i][j]), "missing", desc, ": message ", j, " of thread ", i, " with level ", kLevelNames[static_cast<std::size_t>(sent[i][j].level)], " is missing");
    if (changing) vh::count("level_changes", changes);
    vh::count("messages_sent", static_cast<long long>(threads) * each);
    vh::distinct(vh::hash_str(desc) ^ rng.next());
    vh::sample(desc);
}

