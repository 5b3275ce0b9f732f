// C28: real-time pacing and metrics, on a virtual clock.
// C29: time conversions.
#include "vh.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>
#include <cosim/timer.hpp>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <limits>
#include <thread>

using vh::cat;
using vh::rng;
using i64 = std::int64_t;

// ------------------------------------------------------------ virtual clock
namespace vclock
{
std::atomic<bool> on{false};
std::atomic<i64> now{0}; // ns
std::atomic<i64> tick{1}; // added by each reading of the clock
std::atomic<i64> slept{0}; // sum of the sleeps asked for
std::atomic<i64> longest{0};
std::atomic<int> sleeps{0}, readings{0};
std::atomic<i64> overshoot{0}; // added to each sleep
std::atomic<i64> overslept{0}; // sum of that
std::atomic<int> interrupt{0}; // interrupt this many sleeps half-way

int sleep(const timespec* req, timespec* rem)
{
    if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) {
        errno = EINVAL;
        return EINVAL;
    }
    const auto d = static_cast<i64>(req->tv_sec) * 1000000000 + req->tv_nsec;
    ++sleeps;
    if (d > longest) longest = d;
    if (d > 1 && interrupt > 0) {
        --interrupt;
        const auto part = d / 2, rest = d - part;
        slept += part;
        now += part;
        if (rem) {
            rem->tv_sec = rest / 1000000000;
            rem->tv_nsec = rest % 1000000000;
        }
        errno = EINTR;
        return EINTR;
    }
    slept += d;
    now += d + overshoot;
    overslept += overshoot;
    return 0;
}
} // namespace vclock

extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (vclock::on.load(std::memory_order_relaxed) && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) {
        const auto t = vclock::now.fetch_add(vclock::tick) + vclock::tick;
        ++vclock::readings;
        ts->tv_sec = t / 1000000000;
        ts->tv_nsec = t % 1000000000;
        return 0;
    }
    return static_cast<int>(::syscall(SYS_clock_gettime, id, ts));
}
extern "C" int nanosleep(const timespec* req, timespec* rem)
{
    if (vclock::on) return vclock::sleep(req, rem) ? -1 : 0;
    return static_cast<int>(::syscall(SYS_nanosleep, req, rem));
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec* req, timespec* rem)
{
    if (vclock::on) {
        if (flags & TIMER_ABSTIME) {
            const auto until = static_cast<i64>(req->tv_sec) * 1000000000 + req->tv_nsec;
            const auto d = std::max<i64>(0, until - vclock::now);
            const timespec r{d / 1000000000, d % 1000000000};
            return vclock::sleep(&r, nullptr);
        }
        return vclock::sleep(req, rem);
    }
    return ::syscall(SYS_clock_nanosleep, id, flags, req, rem) == 0 ? 0 : errno;
}

namespace
{
struct virtual_time
{
    explicit virtual_time(rng& r)
    {
        vclock::now = r.range(1, 4000000) * 1000000000ll + r.range(0, 999999999);
        vclock::tick = r.chance(50) ? r.range(1, 60) : r.range(1, 2000);
        vclock::slept = vclock::longest = vclock::overshoot = vclock::overslept = 0;
        vclock::sleeps = vclock::readings = vclock::interrupt = 0;
        vclock::on = true;
    }
    ~virtual_time() { vclock::on = false; }
};

constexpr i64 resolution = 100000; // waits no longer than this may be left out

struct settings
{
    bool on = false;
    double factor = 1;
    int steps = 5;
    i64 sampling = -1; // ms
    bool operator==(const settings& o) const { return on == o.on && factor == o.factor && steps == o.steps && sampling == o.sampling; }
};

// What the timer should do.  Times are in nanoseconds; wall-clock times are
// intervals [lo, hi], because the timer reads the clock at unknown moments.
struct pacing_model
{
    settings seen; // the settings in use
    i64 sim0 = 0, lo0 = 0, hi0 = 0; // since when
    i64 rsim = 0, rlo = 0, rhi = 0;
    int count = 0;
    bool rollingKnown = true;
    double rolling = 1;
    std::string trace;

    void start(i64 sim, i64 lo, i64 hi)
    {
        sim0 = rsim = sim;
        lo0 = rlo = lo;
        hi0 = rhi = hi;
        count = 0;
        trace += cat("start(sim ", sim, ") ");
    }

    // One call of sleep(), or what else comes between two steps.
    //   enter, leave: wall-clock time before and after, slept: waits asked for,
    //   over: how much longer they took
    void slept(const settings& now, i64 sim, i64 enter, i64 leave, i64 slept, i64 over, double total, double rollingNow)
    {
        const bool changed = !(now == seen);
        if (trace.size() > 3000) trace.erase(0, trace.size() - 2500);
        trace += cat(changed ? cat("[settings: ", now.on ? "on" : "off", ", factor ", now.factor, ", ", now.steps, " steps, ", now.sampling, " ms] ") : std::string(), "sleep(sim ", sim, ", wall ", enter, "..", leave, ", slept ", slept, ", over ", over, ") ");
        vh::context(trace);
        if (changed) {
            // counts from here
            seen = now;
            start(sim, enter, leave);
        } else {
            ++count;
        }
        const i64 slack = 20 * vclock::tick + 20;
        const double simElapsed = static_cast<double>(sim - sim0);
        const bool pacing = seen.on && seen.factor > 0;
        vh::evaluated();
        if (pacing) {
            const double due = simElapsed / seen.factor;
            const double eps = std::fabs(due) * 1e-12 + static_cast<double>(slack);
            // not ahead
            const double wall = static_cast<double>(leave - lo0);
            VH_CHECK(due - wall <= resolution + eps, "ahead", "after waiting, simulation time is ", due - wall, " ns (wall-clock) ahead of the target; ", trace);
            // no unneeded waiting
            const double needed = std::max(0.0, due - static_cast<double>(enter - hi0));
            VH_CHECK(static_cast<double>(slept) <= needed + eps, "waited-too-long", "waited for ", slept, " ns, while ", needed, " ns were needed; ", trace);
            if (slept > 0) vh::count("waits");
            else if (needed == 0 && sim > sim0) vh::count("late_steps");
            vh::count("paced_steps");
        } else {
            VH_CHECK(slept == 0, "waited-while-off", "waited for ", slept, " ns though pacing is off; ", trace);
            vh::count("unpaced_steps");
        }
        // metrics
        const auto after = std::max(enter, leave - over - slack);
        auto within = [&](double v, double simD, i64 dLo, i64 dHi) {
            // v == simD / d for some d in [dLo, dHi]?
            if (dHi <= 0) return true;
            const double a = simD / static_cast<double>(dHi), b = dLo <= 0 ? std::numeric_limits<double>::infinity() : simD / static_cast<double>(dLo);
            const double lo = simD >= 0 ? a : b, hi = simD >= 0 ? b : a;
            const double e = 1e-9 * std::fabs(v);
            return v >= lo - e && v <= hi + e;
        };
        VH_CHECK(changed || within(total, simElapsed, std::max<i64>(0, after - hi0), leave - lo0), "total-factor", "the total real-time factor is ", total, ", expected ", simElapsed / static_cast<double>(leave - lo0), " (or at most ", simElapsed / static_cast<double>(std::max<i64>(1, after - hi0)), "); ", trace);
        vh::count("totals_checked");
        if (changed) {
            // (whether a value is reported right away, when nothing has been
            // measured yet, doesn't matter)
            rollingKnown = false;
            return;
        }
        int due = 0; // 0 no, 1 yes, 2 maybe
        if (seen.sampling > 0) {
            const auto p = static_cast<double>(seen.sampling) * 1e6;
            const auto dLo = static_cast<double>(after - rhi), dHi = static_cast<double>(leave - rlo);
            due = dLo > p ? 1 : dHi <= p ? 0 : 2;
        } else {
            due = seen.steps <= 0 ? 1 : count >= seen.steps ? 1 : 0;
        }
        if (due == 2) due = rollingKnown ? (rollingNow != rolling ? 1 : 2) : 2;
        if (due == 1) {
            VH_CHECK(within(rollingNow, static_cast<double>(sim - rsim), std::max<i64>(0, after - rhi), leave - rlo), "rolling-factor", "the rolling real-time factor is ", rollingNow, ", expected ", static_cast<double>(sim - rsim) / static_cast<double>(leave - rlo), " for the last ", count, " steps; ", trace);
            vh::count(seen.sampling > 0 ? "rolling_by_time" : "rolling_by_steps");
            rolling = rollingNow;
            rollingKnown = true;
            rsim = sim;
            rlo = after;
            rhi = leave;
            count = 0;
        } else if (due == 0) {
            if (rollingKnown) VH_CHECK(rollingNow == rolling, "rolling-factor-changed", "the rolling real-time factor changed to ", rollingNow, " from ", rolling, " after ", count, " steps; ", trace);
            rolling = rollingNow;
            rollingKnown = true;
        } else {
            // too close to call: the measurement has or has not begun anew
            rlo = std::min(rlo, after);
            rhi = leave;
            rollingKnown = false;
            vh::count("unclear");
            unclear = true;
        }
    }
    bool unclear = false;
};

settings gen_settings(rng& r, settings s)
{
    const auto c = r.range(0, 5);
    if (c == 0 || c == 5) s.on = !s.on;
    if (c == 1 || c == 5) {
        static const std::vector<double> fs = {1, 1, 2, 0.5, 0.1, 10, 1000, 1e-3, 3.7, 0, -1, -0.0, 1e9, 1.0 / 3, 0.99};
        s.factor = r.chance(60) ? r.pick(fs) : std::exp(r.unit() * 12 - 6);
        if (r.chance(2)) s.factor = r.chance(50) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    }
    if (c == 2 || c == 5) s.steps = static_cast<int>(r.chance(80) ? r.range(1, 8) : r.range(1, 40));
    if (c == 3) s.sampling = r.chance(30) ? -1 : r.chance(20) ? 0 : r.range(1, 2000);
    // c == 4: no change
    return s;
}

void apply(cosim::real_time_config& c, const settings& s)
{
    c.real_time_simulation = s.on;
    c.real_time_factor_target = s.factor;
    c.steps_to_monitor = s.steps;
    c.sampling_period_to_monitor = std::chrono::milliseconds(s.sampling);
}

cosim::time_point tp(i64 ns) { return cosim::time_point(cosim::duration(ns)); }

void direct(rng& rng)
{
    virtual_time vt(rng);
    cosim::real_time_timer timer;
    const auto config = timer.get_real_time_config();
    const auto metrics = timer.get_real_time_metrics();
    VH_CHECK(!config->real_time_simulation && config->real_time_factor_target == 1.0, "defaults", "pacing is on by default");
    pacing_model m;
    settings s;
    const bool longRun = rng.chance(4);
    if (longRun || rng.chance(70)) {
        s = gen_settings(rng, s);
        s.on = rng.chance(longRun ? 70 : 100);
        if (longRun && rng.chance(70)) s.steps = static_cast<int>(rng.range(9, 1200));
        apply(*config, s);
    }
    if (longRun) vh::count("scaled:many_steps");
    i64 sim = rng.chance(50) ? 0 : rng.range(-1000, 100000) * rng.range(1, 1000000000);
    const i64 dt0 = rng.chance(60) ? rng.range(1, 2000) * 1000000 : rng.range(1, 3000000000);
    const int workload = static_cast<int>(rng.range(0, 130)); // percent of the time available that computing takes
    const bool overshoots = rng.chance(40), interrupts = rng.chance(30), varying = rng.chance(30);
    auto start = [&] {
        const i64 lo = vclock::now;
        timer.start(tp(sim));
        m.start(sim, lo, vclock::now);
    };
    start();
    const auto steps = longRun ? rng.range(200, 4000) : rng.range(5, 120);
    for (int i = 0; i < steps; ++i) {
        if (rng.chance(longRun ? 0 : 2)) {
            vclock::now += rng.range(0, 100000000000ll);
            start();
        }
        const i64 dt = varying ? rng.range(0, 2 * dt0) : dt0;
        sim += dt;
        const double f = s.on && s.factor > 0 ? s.factor : 1.0;
        const double avail = std::min(static_cast<double>(dt) / f, 1e13);
        vclock::now += static_cast<i64>(avail * static_cast<double>(rng.range(0, workload)) / 50.0 * rng.unit());
        if (rng.chance(2)) vclock::now += static_cast<i64>(avail * 20 * rng.unit()); // a hiccup
        if (rng.chance(5) && (!longRun || rng.chance(1))) {
            s = gen_settings(rng, s);
            apply(*config, s);
            vh::count("changes");
        }
        vclock::overshoot = overshoots && rng.chance(50) ? rng.range(0, static_cast<i64>(avail) / 3 + 1000) : 0;
        vclock::interrupt = interrupts && rng.chance(30) ? static_cast<int>(rng.range(1, 3)) : 0;
        vclock::slept = vclock::overslept = 0;
        const i64 enter = vclock::now;
        timer.sleep(tp(sim));
        const i64 leave = vclock::now;
        vclock::interrupt = 0;
        m.slept(s, sim, enter, leave, vclock::slept, vclock::overslept, metrics->total_average_real_time_factor, metrics->rolling_average_real_time_factor);
        if (m.unclear) break;
    }
    vh::distinct(vh::hash_str(m.trace));
    if (rng.chance(2)) vh::sample(m.trace.substr(0, 600));
}

// --------------------------------------------------------- within executions
struct busy_slave : cosim::slave
{
    std::function<void()> work;
    cosim::model_description model_description() const override { return {}; }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    cosim::step_result do_step(cosim::time_point, cosim::duration) override
    {
        work();
        return cosim::step_result::complete;
    }
    void get_real_variables(gsl::span<const cosim::value_reference>, gsl::span<double>) const override { }
    void get_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<int>) const override { }
    void get_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<bool>) const override { }
    void get_string_variables(gsl::span<const cosim::value_reference>, gsl::span<std::string>) const override { }
    void set_real_variables(gsl::span<const cosim::value_reference>, gsl::span<const double>) override { }
    void set_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<const int>) override { }
    void set_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<const bool>) override { }
    void set_string_variables(gsl::span<const cosim::value_reference>, gsl::span<const std::string>) override { }
};

// Watches the boundaries of the steps.
struct boundaries : cosim::observer, cosim::manipulator
{
    std::function<void(i64)> begin, end;
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { }
    void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point t) override { end(t.time_since_epoch().count()); }
    void step_commencing(cosim::time_point t) override { begin(t.time_since_epoch().count()); }
};

void executed(rng& rng)
{
    virtual_time vt(rng);
    const i64 dt = rng.chance(70) ? rng.range(1, 500) * 1000000 : rng.range(1000000, 1000000000);
    const i64 t0 = rng.chance(50) ? 0 : rng.range(0, 10000) * 100000000;
    cosim::execution exe(tp(t0), std::make_unique<cosim::fixed_step_algorithm>(cosim::duration(dt), static_cast<unsigned>(rng.range(0, 2))));
    const auto config = exe.get_real_time_config();
    const auto metrics = exe.get_real_time_metrics();
    settings s;
    double avail = 0;
    const int workload = static_cast<int>(rng.range(0, 110));
    const auto salt = rng.next();
    std::atomic<std::uint64_t> calls{0};
    const auto n = rng.range(0, 3);
    auto update = [&](const settings& x) {
        s = x;
        apply(*config, s);
        avail = std::min(static_cast<double>(dt) / (s.on && s.factor > 0 ? s.factor : 1.0), 1e13);
    };
    update(s);
    for (int i = 0; i < n; ++i) {
        auto sl = std::make_shared<busy_slave>();
        sl->work = [&] {
            vh::rng r(vh::mix(salt, calls++));
            vclock::now += static_cast<i64>(avail * static_cast<double>(r.range(0, workload)) / 50.0 / static_cast<double>(n) * r.unit());
        };
        exe.add_slave(sl, cat("s", i), rng.chance(30) ? cosim::duration(dt * rng.range(1, 3)) : cosim::duration::zero());
    }
    pacing_model m;
    const auto b = std::make_shared<boundaries>();
    exe.add_observer(b);
    exe.add_manipulator(b);
    bool ended = false, running = false;
    i64 endSim = 0, endWall = 0, startLo = 0;
    settings atSleep;
    auto between = [&](i64) {
        if (!ended) return;
        ended = false;
        if (running) m.slept(atSleep, endSim, endWall, vclock::now, vclock::slept, vclock::overslept, metrics->total_average_real_time_factor, metrics->rolling_average_real_time_factor);
        else VH_CHECK(vclock::slept == 0, "single-step-waited", "step() waited for ", vclock::slept.load(), " ns");
        vh::count("executed_steps");
    };
    bool first = true;
    const bool longRun = rng.chance(3);
    b->begin = [&](i64 t) {
        if (running && first) m.start(t, startLo, vclock::now);
        else between(t);
        first = false;
    };
    b->end = [&](i64 t) {
        if (rng.chance(6) && (!longRun || rng.chance(2))) {
            update(gen_settings(rng, s));
            vh::count("changes");
        }
        atSleep = s;
        ended = true;
        endSim = t;
        endWall = vclock::now;
        vclock::slept = vclock::overslept = 0;
        vclock::overshoot = rng.chance(20) ? rng.range(0, static_cast<i64>(avail) / 3 + 1000) : 0;
    };
    if (rng.chance(70)) {
        auto x = gen_settings(rng, s);
        x.on = true;
        if (longRun) x.steps = static_cast<int>(rng.range(9, 700));
        update(x);
    }
    const auto phases = longRun ? 1 : rng.range(1, 4);
    i64 sim = t0;
    for (int p = 0; p < phases && !m.unclear; ++p) {
        if (rng.chance(25)) {
            const auto k = rng.range(1, 5);
            for (int i = 0; i < k; ++i) {
                exe.step();
                between(0);
                sim += dt;
                vh::count("single_steps");
            }
        } else {
            const auto k = longRun ? rng.range(100, 1500) : rng.range(1, 25);
            running = first = true;
            ended = false;
            startLo = vclock::now;
            exe.simulate_until(tp(sim + k * dt));
            between(0);
            running = false;
            sim += k * dt;
        }
        if (rng.chance(30)) vclock::now += rng.range(0, 100000000000ll);
        if (rng.chance(20)) update(gen_settings(rng, s));
    }
    vh::distinct(vh::hash_str(m.trace));
    if (rng.chance(2)) vh::sample(m.trace.substr(0, 600));
}

// Settings change in another thread at any time, while there's a long history
// that the new settings must not be applied to.
void concurrent_changes(rng& rng)
{
    virtual_time vt(rng);
    vclock::tick = 1;
    cosim::real_time_timer timer;
    const auto config = timer.get_real_time_config();
    const auto metrics = timer.get_real_time_metrics();
    const int mode = static_cast<int>(rng.range(0, 2));
    const i64 dt = 1000000;
    const double slow = 0.001;
    config->real_time_simulation = true;
    std::atomic<bool> done{false};
    std::atomic<long> changes{0};
    std::thread other([&, seed = rng.next()] {
        vh::rng r(seed);
        while (!done) {
            switch (mode) {
                case 0:
                    config->real_time_factor_target = slow;
                    ++changes;
                    for (volatile auto i = r.range(0, 20000); i > 0;) i = i - 1;
                    config->real_time_factor_target = 1000.0;
                    break;
                case 1:
                    config->real_time_factor_target = slow;
                    config->real_time_simulation = true;
                    ++changes;
                    for (volatile auto i = r.range(0, 20000); i > 0;) i = i - 1;
                    config->real_time_simulation = false;
                    break;
                default:
                    config->real_time_factor_target = slow;
                    config->steps_to_monitor = static_cast<int>(r.range(1, 10));
                    config->sampling_period_to_monitor = std::chrono::milliseconds(r.range(-1, 10));
                    ++changes;
                    for (volatile auto i = r.range(0, 20000); i > 0;) i = i - 1;
                    config->real_time_factor_target = 1000.0;
            }
            for (volatile auto i = r.range(0, 200000); i > 0;) i = i - 1;
            const double v = metrics->total_average_real_time_factor + metrics->rolling_average_real_time_factor;
            if (std::isnan(v)) changes += 0;
        }
    });
    struct joiner
    {
        std::atomic<bool>& d;
        std::thread& t;
        ~joiner()
        {
            d = true;
            t.join();
        }
    };
    {
        joiner j{done, other};
        i64 sim = 0;
        timer.start(tp(sim));
        for (int i = 0; i < 60000; ++i) {
            sim += dt;
            vclock::longest = 0;
            timer.sleep(tp(sim));
            // With the slowest factor, a step takes dt/slow, and all earlier
            // steps with the same settings have been waited for already.
            VH_CHECK(vclock::longest <= static_cast<i64>(static_cast<double>(dt) / slow * 1.001) + 1000, "jump", "a step of ", dt, " ns was followed by a wait of ", vclock::longest.load(), " ns when the settings were being changed");
        }
        vh::count("steps_with_concurrent_changes", 60000);
        vh::evaluated(60000);
    }
    vh::count("concurrent_changes", changes);
    vh::distinct(vh::mix(static_cast<std::uint64_t>(changes.load()), static_cast<std::uint64_t>(vclock::sleeps.load())));
}
} // namespace

VH_PROP(C28)
{
    (void)caseIndex;
    if (rng.chance(70)) direct(rng);
    else executed(rng);
}
VH_PROP(C28T)
{
    (void)caseIndex;
    concurrent_changes(rng);
}

// ===================================================================== C29
namespace
{
// Exact floor/ceiling of x * 1e9 for |x| < 9.3e9, by integer arithmetic.
void exact_ns(double x, i64& lo, i64& hi)
{
    int e;
    const double f = std::frexp(std::fabs(x), &e); // x = f * 2^e, f in [0.5, 1)
    const auto mant = static_cast<unsigned __int128>(static_cast<std::uint64_t>(std::ldexp(f, 53)));
    const int sh = e - 53;
    const unsigned __int128 p = mant * 1000000000u; // < 2^83
    unsigned __int128 q, rem;
    if (sh >= 0) {
        q = p << sh;
        rem = 0;
    } else if (-sh >= 100) {
        q = 0;
        rem = p != 0;
    } else {
        q = p >> -sh;
        rem = p & ((static_cast<unsigned __int128>(1) << -sh) - 1);
    }
    const auto a = static_cast<i64>(q), b = static_cast<i64>(q) + (rem != 0);
    if (x >= 0) {
        lo = a;
        hi = b;
    } else {
        lo = -b;
        hi = -a;
    }
}

double ulp(double x)
{
    x = std::fabs(x);
    return std::nextafter(x, std::numeric_limits<double>::infinity()) - x;
}

constexpr double range_limit = 9.2e9; // seconds

double gen_seconds(rng& r)
{
    double v;
    switch (r.range(0, 7)) {
        case 0: v = static_cast<double>(r.range(0, 100)) * 0.1; break;
        case 1: v = static_cast<double>(r.range(0, 1000000)) * 1e-3; break;
        case 2: v = static_cast<double>(r.range(0, 1000000000)) * 1e-9; break;
        case 3: v = std::exp(r.unit() * 43 - 20); break; // 2e-9 ... 1e10
        case 4: v = static_cast<double>(r.range(0, 9000000000ll)); break;
        case 5: v = static_cast<double>(r.range(0, 9200000000000000000ll)) * 1e-9; break;
        case 6: v = std::ldexp(1.0, static_cast<int>(r.range(-40, 32))) * (r.chance(50) ? 1.0 : 1.0 - DBL_EPSILON / 2); break;
        default: {
            static const std::vector<double> sp = {0.0, 1e-9, 0.5e-9, 1.5e-9, 1e-10, DBL_MIN, 4.9e-324, 1e-300, 0.1, 0.3, 1.0 / 3, 9.1e9, 1.0};
            v = r.pick(sp);
        }
    }
    if (r.chance(25)) v = -v;
    if (!(std::fabs(v) < range_limit)) v = std::fmod(v, range_limit);
    return v;
}

double gen_unrepresentable(rng& r)
{
    static const std::vector<double> sp = {std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e300, 1e19, 9.3e9, 9223372036.854775807 * 1.0000001, 1e10, DBL_MAX, 1.8446744073709552e10, 9223372036.9};
    const double v = r.pick(sp);
    return r.chance(50) ? v : -v;
}
} // namespace

VH_PROP(C29)
{
    (void)caseIndex;
    for (int k = 0; k < 40; ++k) {
        vh::evaluated();
        const double t = gen_seconds(rng);
        double d = gen_seconds(rng);
        if (rng.chance(30)) d = gen_seconds(rng) - t;
        vh::context(cat("t = ", t, ", d = ", d));
        // to simulation time
        i64 lo, hi;
        exact_ns(t, lo, hi);
        const i64 T = cosim::to_time_point(t).time_since_epoch().count();
        const double u9 = ulp(t * 1e9);
        // (the product t*1e9 is rounded too)
        VH_CHECK(static_cast<double>(T - lo) >= -1 - u9 && static_cast<double>(T - hi) <= 1 + u9, "inexact", std::hexfloat, t, std::defaultfloat, " s became ", T, " ns, expected ", lo, " or ", hi);
        VH_CHECK(cosim::to_duration(t).count() == T, "duration-differs", t, " s as a duration is ", cosim::to_duration(t).count(), " ns, as a time point ", T);
        vh::count("to_time_point");
        const double t2 = t + d;
        if (std::fabs(t2) < range_limit && std::fabs(d) < range_limit) {
            const auto D = cosim::to_duration(d, t);
            VH_CHECK(cosim::to_time_point(t) + D == cosim::to_time_point(t2), "not-additive", std::hexfloat, "t = ", t, ", d = ", d, ": the duration is ", std::dec, D.count(), " ns, but the times ", T, " and ", cosim::to_time_point(t2).time_since_epoch().count());
            vh::count("additions_to_simulation_time");
        }
        // monotonic
        const double t3 = rng.chance(50) ? std::nextafter(t, range_limit) : gen_seconds(rng);
        VH_CHECK((t3 >= t) ? cosim::to_time_point(t3) >= cosim::to_time_point(t) : cosim::to_time_point(t3) <= cosim::to_time_point(t), "order", "the order of ", t, " and ", t3, " s changed");
        // from simulation time
        i64 A = rng.chance(50) ? (static_cast<i64>(rng.next()) / 1024 * 1022) >> rng.range(0, 62) : static_cast<i64>(gen_seconds(rng) * 1e9);
        i64 B = rng.chance(50) ? (static_cast<i64>(rng.next()) / 1024 * 1022) >> rng.range(0, 62) : rng.range(0, 1000) * 1000000;
        i64 sum;
        const double a = cosim::to_double_time_point(tp(A));
        {
            // |a*1e9 - A| must be less than an ulp: compare exactly
            i64 l, h;
            exact_ns(a, l, h);
            const double tol = (ulp(static_cast<double>(A)) + ulp(a) * 1e9) / 2 + 1;
            VH_CHECK(static_cast<double>(l - A) <= tol && static_cast<double>(A - h) <= tol, "inexact-seconds", A, " ns became ", std::hexfloat, a, " s");
            VH_CHECK(A == 0 ? a == 0 : (a > 0) == (A > 0), "sign", A, " ns became ", a, " s");
            vh::count("to_seconds");
            if (std::fabs(a) < range_limit) {
                const i64 back = cosim::to_time_point(a).time_since_epoch().count();
                VH_CHECK(std::fabs(static_cast<double>(back - A)) <= tol + 1 + ulp(a * 1e9), "no-way-back", A, " ns became ", a, " s, which is ", back, " ns");
            }
        }
        if (!__builtin_add_overflow(A, B, &sum)) {
            const double dd = cosim::to_double_duration(cosim::duration(B), tp(A));
            const double b = cosim::to_double_time_point(tp(sum));
            // Exactly, or up to the rounding of the difference and sum.
            const double tol = (ulp(dd) + ulp(a + dd)) / 2;
            VH_CHECK(std::fabs((a + dd) - b) <= tol, "not-additive-seconds", std::hexfloat, a, " + ", dd, " != ", b, " (", std::dec, A, " and ", B, " ns)");
            if (A >= 0 && B >= 0 && B <= A) VH_CHECK(a + dd == b, "not-additive-seconds", std::hexfloat, a, " + ", dd, " != ", b, " (", std::dec, A, " and ", B, " ns)");
            vh::count(a + dd == b ? "additions_in_seconds_exact" : "additions_in_seconds_rounded");
        }
        vh::distinct(vh::mix(static_cast<std::uint64_t>(T), static_cast<std::uint64_t>(A)));
        // the ends of the range
        if (rng.chance(3)) {
            const double limit = std::nextafter(9223372036.854775807, 0.0) * (rng.chance(50) ? 1 : -1);
            const double x = rng.chance(50) ? limit : std::nextafter(limit, 0.0);
            try {
                exact_ns(x, lo, hi);
                const auto y = cosim::to_duration(x).count();
                VH_CHECK(std::fabs(static_cast<double>(y - lo)) <= 2048, "inexact", x, " s became ", y, " ns");
            } catch (const std::exception&) {
                // (may be taken as out of range)
            }
        }
        // out of range
        if (rng.chance(20)) {
            const double x = gen_unrepresentable(rng);
            vh::context(cat("x = ", x));
            bool rejected = false;
            try {
                const auto c = rng.range(0, 2);
                const auto y = c == 0 ? cosim::to_duration(x) : c == 1 ? cosim::to_time_point(x).time_since_epoch() : cosim::to_duration(x, 0.0);
                vh::context(cat(y.count()));
            } catch (const std::exception&) {
                rejected = true;
            }
            VH_CHECK(rejected, "unrepresentable-accepted", x, " s is out of range, but was converted");
            vh::count("unrepresentable_rejected");
        }
    }
}
