// Stand-in for the FMI Library and the model units behind it.  Every call is
// recorded, checked against the state machine of the FMI standards, and may be
// made to fail.  Include this in exactly one translation unit.
#pragma once
#include "fmilib.h"
#include "proxyfmu/client/proxy_fmu.hpp"

#include <atomic>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <variant>
#include <vector>

namespace mockfmi
{
using value = std::variant<double, int, bool, std::string>;

struct var
{
    std::string name;
    unsigned vr = 0;
    int type = 0; // 0 real, 1 integer, 2 boolean, 3 string, 4 enumeration
    int causality = 0, variability = 0; // the FMI Library's numbers
    bool hasStart = false;
    value start = 0.0;
};

struct spec
{
    int version = 2;
    std::string guid, name, description, author, mversion;
    int kind = 2;
    bool singleton = false, parseOk = true, dllOk = true, instOk = true;
    std::vector<var> vars;
};

struct call
{
    std::string op;
    std::vector<double> num;
    std::string text;
    std::vector<unsigned> vr;
    std::vector<value> values;
};

enum class st { parsed, loaded, instantiated, setUp, init, stepping, terminated };

struct handle
{
    std::shared_ptr<spec> sp;
    std::string dir, instanceName;
    jm_callbacks* jm = nullptr;
    st state = st::parsed;
    bool broken = false; // an operation reported error or fatal
    fmi1_callback_functions_t cb1{};
    fmi2_callback_functions_t cb2{};
    std::map<std::pair<int, unsigned>, value> values;
    std::vector<call> calls;
    std::vector<std::unique_ptr<char[]>> strings; // what the last get_string handed out
    std::atomic<int> inside{0};
};

struct hooks
{
    std::mutex m;
    std::map<std::string, std::shared_ptr<spec>> specs; // by GUID
    std::set<handle*> live;
    std::map<std::string, int> instances; // of singletons, by GUID
    int contexts = 0, lists = 0, parsed = 0;
    std::function<void(const std::string&, const std::string&)> complain; // kind, message
    // returns the status of an operation; 0 = ok
    std::function<int(handle&, const std::string&)> status;
    std::function<void(handle&, double, double)> doStep;
    std::function<void(handle&, bool)> born; // instantiated / about to be freed
};
inline hooks& hk()
{
    static hooks* h = new hooks;
    return *h;
}
inline void bad(const std::string& kind, const std::string& msg)
{
    if (hk().complain) hk().complain(kind, msg);
}

inline void set_error(jm_callbacks* c, const std::string& m)
{
    std::strncpy(c->errMessageBuffer, m.c_str(), JM_MAX_ERROR_MESSAGE_SIZE - 1);
    c->errMessageBuffer[JM_MAX_ERROR_MESSAGE_SIZE - 1] = 0;
}
// As in the FMI Library: every log message passes through the error buffer.
inline void lib_log(jm_callbacks* c, jm_log_level_enu_t l, const std::string& m)
{
    if (l > c->log_level || !c->logger) return;
    set_error(c, m);
    c->logger(c, "FMIMOCK", l, c->errMessageBuffer);
}

struct guard
{
    handle& h;
    std::string op;
    guard(handle& hh, std::string o) : h(hh), op(std::move(o))
    {
        // No lock here: it would hide races from ThreadSanitizer.  Use after
        // free is AddressSanitizer's business.
        if (h.inside.fetch_add(1)) bad("concurrent-calls", op + " while another call on the same instance is in progress");
    }
    ~guard() { h.inside.fetch_sub(1); }
};

inline void expect(handle& h, const char* op, std::initializer_list<st> ok)
{
    if (h.broken) return;
    for (auto s : ok)
        if (h.state == s) return;
    bad("illegal-call-order", std::string(op) + " (FMI " + std::to_string(h.sp->version) + ") in state " + std::to_string(static_cast<int>(h.state)));
}

inline int status(handle& h, const char* op)
{
    const int s = hk().status ? hk().status(h, op) : 0;
    if (s == 3 || s == 4) h.broken = true;
    return s;
}

template<typename H>
H* parse(jm_callbacks* jm, const char* dir, int version)
{
    std::ifstream f(std::string(dir) + "/modelDescription.xml", std::ios::binary);
    const std::string text{std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
    const auto a = text.find("guid=\"");
    std::string guid;
    if (a != std::string::npos) guid = text.substr(a + 6, text.find('"', a + 6) - a - 6);
    std::shared_ptr<spec> sp;
    {
        std::lock_guard<std::mutex> l(hk().m);
        hk().parsed++;
        auto it = hk().specs.find(guid);
        if (it != hk().specs.end()) sp = it->second;
    }
    if (!sp || !sp->parseOk) {
        lib_log(jm, jm_log_level_error, "MOCK-PARSE-ERROR " + guid);
        return nullptr;
    }
    if (sp->version != version) bad("wrong-fmi-version", "FMI " + std::to_string(sp->version) + " unit was parsed as FMI " + std::to_string(version));
    auto h = new H;
    h->sp = sp;
    h->dir = dir;
    h->jm = jm;
    for (auto& v : sp->vars) h->values[{v.type, v.vr}] = v.hasStart ? v.start : v.type == 0 ? value(0.0) : v.type == 2 ? value(false) : v.type == 3 ? value(std::string()) : value(0);
    std::lock_guard<std::mutex> l(hk().m);
    hk().live.insert(h);
    return h;
}

template<typename H>
void release(H* h)
{
    if (!h) {
        bad("null-handle", "a null handle was freed");
        return;
    }
    {
        std::lock_guard<std::mutex> l(hk().m);
        if (!hk().live.erase(h)) {
            bad("double-free", "a handle was freed twice");
            return;
        }
    }
    if (h->state != st::parsed) bad("resource-leak", "a handle was freed with its binary still loaded, state " + std::to_string(static_cast<int>(h->state)));
    lib_log(h->jm, jm_log_level_verbose, "Releasing FMU");
    delete h;
}

inline bool loadDll(handle& h)
{
    if (h.state != st::parsed) bad("illegal-call-order", "binary loaded twice");
    if (!h.sp->dllOk) {
        lib_log(h.jm, jm_log_level_fatal, "MOCK-DLL-ERROR " + h.sp->guid);
        return false;
    }
    h.state = st::loaded;
    return true;
}

template<typename H>
void unloadDll(H& h)
{
    if (h.state == st::parsed) {
        bad("illegal-call-order", "binary unloaded, but not loaded");
        return;
    }
    if (h.state != st::loaded) bad("resource-leak", "binary unloaded while an instance exists");
    h.state = st::parsed;
}

inline bool instantiated(handle& h, const char* name)
{
    expect(h, "instantiate", {st::loaded});
    h.instanceName = name ? name : "";
    if (!h.sp->instOk) return false;
    h.state = st::instantiated;
    if (h.sp->singleton) {
        std::lock_guard<std::mutex> l(hk().m);
        if (hk().instances[h.sp->guid]++) bad("singleton-instantiated-twice", "a unit that allows one instance per process was given two");
    }
    if (hk().born) hk().born(h, true);
    return true;
}

inline void freeInstance(handle& h)
{
    if (h.state == st::parsed || h.state == st::loaded) {
        bad("illegal-call-order", "instance freed, but there's none");
        return;
    }
    if (h.state == st::stepping && !h.broken) bad("not-terminated", "instance freed while simulating, without being terminated");
    h.state = st::loaded;
    if (h.sp->singleton) {
        std::lock_guard<std::mutex> l(hk().m);
        hk().instances[h.sp->guid]--;
    }
    if (hk().born) hk().born(h, false);
}

template<typename T, typename S>
void record_set(handle& h, const char* op, int type, const unsigned* vr, size_t n, const S* v, int status)
{
    call c;
    c.op = op;
    for (size_t i = 0; i < n; ++i) {
        c.vr.push_back(vr[i]);
        T x;
        if constexpr (std::is_same_v<T, std::string>) x = v[i];
        else if constexpr (std::is_same_v<T, bool>) {
            if (v[i] != 0 && v[i] != 1) bad("bad-boolean", "a boolean was passed as something else than 0 or 1");
            x = v[i] != 0;
        } else
            x = v[i];
        c.values.push_back(value(x));
        auto it = h.values.find({type, vr[i]});
        if (it == h.values.end()) bad("unknown-variable", std::string(op) + " of an unknown variable");
        else if (status == 0 || status == 1 || status == 2)
            it->second = x;
    }
    h.calls.push_back(std::move(c));
}

template<typename T, typename S>
void record_get(handle& h, const char* op, int type, const unsigned* vr, size_t n, S* v, int status)
{
    call c;
    c.op = op;
    h.strings.clear(); // strings are only valid until the next call
    for (size_t i = 0; i < n; ++i) {
        c.vr.push_back(vr[i]);
        auto it = h.values.find({type, vr[i]});
        if (it == h.values.end()) {
            bad("unknown-variable", std::string(op) + " of an unknown variable");
            continue;
        }
        c.values.push_back(it->second);
        if (status > 1) continue;
        const auto& x = std::get<T>(it->second);
        if constexpr (std::is_same_v<T, std::string>) {
            if (x.empty() && vr[i] % 2) {
                v[i] = nullptr; // some units do that
            } else {
                auto b = std::make_unique<char[]>(x.size() + 1);
                std::memcpy(b.get(), x.c_str(), x.size() + 1);
                v[i] = b.get();
                h.strings.push_back(std::move(b));
            }
        } else
            v[i] = static_cast<S>(x);
    }
    h.calls.push_back(std::move(c));
}

inline void record(handle& h, const char* op, std::vector<double> num, std::string text = "")
{
    h.strings.clear();
    call c;
    c.op = op;
    c.num = std::move(num);
    c.text = std::move(text);
    h.calls.push_back(std::move(c));
}
} // namespace mockfmi

struct fmi_xml_context_t { jm_callbacks* jm; };
struct fmi1_import_t : mockfmi::handle {};
struct fmi2_import_t : mockfmi::handle {};
struct fmi1_import_variable_list_t { std::shared_ptr<mockfmi::spec> sp; };
struct fmi2_import_variable_list_t { std::shared_ptr<mockfmi::spec> sp; };

using namespace mockfmi;
extern "C" {

jm_string jm_get_last_error(jm_callbacks* c) { return c->errMessageBuffer; }
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* c)
{
    hk().contexts++;
    auto* x = static_cast<fmi_xml_context_t*>(c->calloc(1, sizeof(fmi_xml_context_t)));
    x->jm = c;
    return x;
}
void fmi_import_free_context(fmi_import_context_t* c)
{
    hk().contexts--;
    std::lock_guard<std::mutex> l(hk().m);
    for (auto* h : hk().live)
        if (h->jm == c->jm) bad("context-freed-early", "the import context was freed before a unit imported with it");
    lib_log(c->jm, jm_log_level_verbose, "Releasing the import context");
    c->jm->free(c); // as in the FMI Library: the callbacks must still be there
}

#define MOCK_COMMON(N) \
    const char* fmi##N##_import_get_model_name(fmi##N##_import_t* h) { return h->sp->name.c_str(); } \
    const char* fmi##N##_import_get_GUID(fmi##N##_import_t* h) { return h->sp->guid.c_str(); } \
    const char* fmi##N##_import_get_description(fmi##N##_import_t* h) { return h->sp->description.c_str(); } \
    const char* fmi##N##_import_get_author(fmi##N##_import_t* h) { return h->sp->author.c_str(); } \
    const char* fmi##N##_import_get_model_version(fmi##N##_import_t* h) { return h->sp->mversion.c_str(); } \
    fmi##N##_fmu_kind_enu_t fmi##N##_import_get_fmu_kind(fmi##N##_import_t* h) { return static_cast<fmi##N##_fmu_kind_enu_t>(h->sp->kind); } \
    void fmi##N##_import_free(fmi##N##_import_t* h) { release(h); } \
    void fmi##N##_import_free_variable_list(fmi##N##_import_variable_list_t* l) \
    { \
        hk().lists--; \
        delete l; \
    } \
    size_t fmi##N##_import_get_variable_list_size(fmi##N##_import_variable_list_t* l) { return l->sp->vars.size(); } \
    const char* fmi##N##_import_get_variable_name(fmi##N##_import_variable_t* v) { return reinterpret_cast<var*>(v)->name.c_str(); } \
    fmi##N##_value_reference_t fmi##N##_import_get_variable_vr(fmi##N##_import_variable_t* v) { return reinterpret_cast<var*>(v)->vr; } \
    fmi##N##_base_type_enu_t fmi##N##_import_get_variable_base_type(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_base_type_enu_t>(reinterpret_cast<var*>(v)->type); } \
    fmi##N##_causality_enu_t fmi##N##_import_get_causality(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_causality_enu_t>(reinterpret_cast<var*>(v)->causality); } \
    fmi##N##_variability_enu_t fmi##N##_import_get_variability(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_variability_enu_t>(reinterpret_cast<var*>(v)->variability); } \
    int fmi##N##_import_get_variable_has_start(fmi##N##_import_variable_t* v) { return reinterpret_cast<var*>(v)->hasStart; } \
    fmi##N##_import_real_variable_t* fmi##N##_import_get_variable_as_real(fmi##N##_import_variable_t* v) { return reinterpret_cast<fmi##N##_import_real_variable_t*>(v); } \
    fmi##N##_import_integer_variable_t* fmi##N##_import_get_variable_as_integer(fmi##N##_import_variable_t* v) { return reinterpret_cast<fmi##N##_import_integer_variable_t*>(v); } \
    fmi##N##_import_bool_variable_t* fmi##N##_import_get_variable_as_boolean(fmi##N##_import_variable_t* v) { return reinterpret_cast<fmi##N##_import_bool_variable_t*>(v); } \
    fmi##N##_import_string_variable_t* fmi##N##_import_get_variable_as_string(fmi##N##_import_variable_t* v) { return reinterpret_cast<fmi##N##_import_string_variable_t*>(v); } \
    fmi##N##_real_t fmi##N##_import_get_real_variable_start(fmi##N##_import_real_variable_t* v) { return std::get<double>(reinterpret_cast<var*>(v)->start); } \
    fmi##N##_integer_t fmi##N##_import_get_integer_variable_start(fmi##N##_import_integer_variable_t* v) { return std::get<int>(reinterpret_cast<var*>(v)->start); } \
    fmi##N##_boolean_t fmi##N##_import_get_boolean_variable_start(fmi##N##_import_bool_variable_t* v) { return std::get<bool>(reinterpret_cast<var*>(v)->start); } \
    const char* fmi##N##_import_get_string_variable_start(fmi##N##_import_string_variable_t* v) { return std::get<std::string>(reinterpret_cast<var*>(v)->start).c_str(); } \
    void fmi##N##_import_destroy_dllfmu(fmi##N##_import_t* h) \
    { \
        guard g(*h, "destroy_dllfmu"); \
        unloadDll(*h); \
    } \
    fmi##N##_status_t fmi##N##_import_do_step(fmi##N##_import_t* h, double t, double dt, fmi##N##_boolean_t ns) \
    { \
        guard g(*h, "do_step"); \
        expect(*h, "do_step", {st::stepping}); \
        const int s = status(*h, "do_step"); \
        record(*h, "do_step", {t, dt, static_cast<double>(ns != 0)}); \
        if (s <= 1 && hk().doStep) hk().doStep(*h, t, dt); \
        return static_cast<fmi##N##_status_t>(s); \
    }

#define MOCK_ACCESS(N, NAME, TYPE, CT, T) \
    fmi##N##_status_t fmi##N##_import_get_##NAME(fmi##N##_import_t* h, const unsigned vr[], size_t n, CT v[]) \
    { \
        guard g(*h, "get_" #NAME); \
        expect(*h, "get_" #NAME, {st::instantiated, st::init, st::stepping, st::terminated}); \
        const int s = status(*h, "get_" #NAME); \
        record_get<T>(*h, "get_" #NAME, TYPE, vr, n, v, s); \
        return static_cast<fmi##N##_status_t>(s); \
    } \
    fmi##N##_status_t fmi##N##_import_set_##NAME(fmi##N##_import_t* h, const unsigned vr[], size_t n, const CT v[]) \
    { \
        guard g(*h, "set_" #NAME); \
        expect(*h, "set_" #NAME, {st::instantiated, st::setUp, st::init, st::stepping}); \
        const int s = status(*h, "set_" #NAME); \
        record_set<T>(*h, "set_" #NAME, TYPE, vr, n, v, s); \
        return static_cast<fmi##N##_status_t>(s); \
    }
MOCK_COMMON(1)
MOCK_COMMON(2)
MOCK_ACCESS(1, real, 0, double, double)
MOCK_ACCESS(1, integer, 1, int, int)
MOCK_ACCESS(1, boolean, 2, char, bool)
MOCK_ACCESS(1, string, 3, fmi1_string_t, std::string)
MOCK_ACCESS(2, real, 0, double, double)
MOCK_ACCESS(2, integer, 1, int, int)
MOCK_ACCESS(2, boolean, 2, int, bool)
MOCK_ACCESS(2, string, 3, fmi2_string_t, std::string)

fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t* c, const char* d) { return parse<fmi1_import_t>(c->jm, d, 1); }
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* d, fmi2_xml_callbacks_t*) { return parse<fmi2_import_t>(c->jm, d, 2); }
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* h) { return reinterpret_cast<fmi1_import_capabilities_t*>(h); }
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t* c) { return reinterpret_cast<fmi1_import_t*>(c)->sp->singleton; }
unsigned int fmi2_import_get_capability(fmi2_import_t* h, fmi2_capabilities_enu_t c) { return c == fmi2_cs_canBeInstantiatedOnlyOncePerProcess ? h->sp->singleton : 1; }
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t* h)
{
    hk().lists++;
    return new fmi1_import_variable_list_t{h->sp};
}
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* h, int)
{
    hk().lists++;
    return new fmi2_import_variable_list_t{h->sp};
}
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t* l, unsigned i) { return reinterpret_cast<fmi1_import_variable_t*>(&l->sp->vars.at(i)); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t i) { return reinterpret_cast<fmi2_import_variable_t*>(&l->sp->vars.at(i)); }

jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* h, fmi1_callback_functions_t cb, int registerGlobally)
{
    guard g(*h, "create_dllfmu");
    if (!loadDll(*h)) return jm_status_error;
    h->cb1 = cb;
    if (!cb.logger || !cb.allocateMemory || !cb.freeMemory) bad("missing-callback", "logger or memory callbacks are null");
    return jm_status_success;
}
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* h, fmi2_fmu_kind_enu_t k, const fmi2_callback_functions_t* cb)
{
    guard g(*h, "create_dllfmu");
    if (k != fmi2_fmu_kind_cs) bad("wrong-kind", "unit not loaded for co-simulation");
    if (!loadDll(*h)) return jm_status_error;
    h->cb2 = *cb;
    if (!cb->logger || !cb->allocateMemory || !cb->freeMemory) bad("missing-callback", "logger or memory callbacks are null");
    return jm_status_success;
}
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* h, fmi1_string_t name, fmi1_string_t, fmi1_string_t, double, fmi1_boolean_t visible, fmi1_boolean_t interactive)
{
    guard g(*h, "instantiate");
    const bool ok = instantiated(*h, name);
    if (!ok) status(*h, "instantiate");
    record(*h, "instantiate", {static_cast<double>(visible), static_cast<double>(interactive)}, name);
    return ok ? jm_status_success : jm_status_error;
}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* h, fmi2_string_t name, fmi2_type_t t, fmi2_string_t, fmi2_boolean_t visible)
{
    guard g(*h, "instantiate");
    if (t != fmi2_cosimulation) bad("wrong-kind", "unit not instantiated for co-simulation");
    const bool ok = instantiated(*h, name);
    if (!ok) status(*h, "instantiate");
    record(*h, "instantiate", {static_cast<double>(visible), 0}, name);
    return ok ? jm_status_success : jm_status_error;
}
void fmi1_import_free_slave_instance(fmi1_import_t* h)
{
    guard g(*h, "free_instance");
    freeInstance(*h);
}
void fmi2_import_free_instance(fmi2_import_t* h)
{
    guard g(*h, "free_instance");
    freeInstance(*h);
}
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* h, double start, fmi1_boolean_t stopDefined, double stop)
{
    guard g(*h, "initialize");
    expect(*h, "initialize", {st::instantiated});
    const int s = status(*h, "initialize");
    record(*h, "initialize", {start, static_cast<double>(stopDefined != 0), stopDefined ? stop : 0.0});
    if (s <= 1) h->state = st::stepping;
    return static_cast<fmi1_status_t>(s);
}
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* h)
{
    guard g(*h, "terminate");
    expect(*h, "terminate", {st::stepping});
    if (h->state == st::terminated) bad("illegal-call-order", "terminated twice");
    const int s = status(*h, "terminate");
    record(*h, "terminate", {});
    h->state = st::terminated;
    return static_cast<fmi1_status_t>(s);
}
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* h, fmi2_boolean_t tolDefined, double tol, double start, fmi2_boolean_t stopDefined, double stop)
{
    guard g(*h, "setup_experiment");
    expect(*h, "setup_experiment", {st::instantiated});
    const int s = status(*h, "setup_experiment");
    record(*h, "setup_experiment", {static_cast<double>(tolDefined != 0), tolDefined ? tol : 0.0, start, static_cast<double>(stopDefined != 0), stopDefined ? stop : 0.0});
    if (s <= 1) h->state = st::setUp;
    return static_cast<fmi2_status_t>(s);
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* h)
{
    guard g(*h, "enter_initialization");
    expect(*h, "enter_initialization", {st::setUp});
    const int s = status(*h, "enter_initialization");
    record(*h, "enter_initialization", {});
    if (s <= 1) h->state = st::init;
    return static_cast<fmi2_status_t>(s);
}
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* h)
{
    guard g(*h, "exit_initialization");
    expect(*h, "exit_initialization", {st::init});
    const int s = status(*h, "exit_initialization");
    record(*h, "exit_initialization", {});
    if (s <= 1) h->state = st::stepping;
    return static_cast<fmi2_status_t>(s);
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* h)
{
    guard g(*h, "terminate");
    expect(*h, "terminate", {st::stepping});
    if (h->state == st::terminated) bad("illegal-call-order", "terminated twice");
    const int s = status(*h, "terminate");
    record(*h, "terminate", {});
    h->state = st::terminated;
    return static_cast<fmi2_status_t>(s);
}
fmi2_status_t fmi2_import_reset(fmi2_import_t* h)
{
    guard g(*h, "reset");
    record(*h, "reset", {});
    h->state = st::instantiated;
    return fmi2_status_ok;
}
}
