// Monitors for C19 (file locks) and C20 (persistent file cache), with agents in
// several threads of several processes.
#include "vh.hpp"

#include <cosim/file_cache.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/utility/concurrency.hpp>

#include <csignal>
#include <fstream>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>

namespace fs = cosim::filesystem;
using cosim::utility::file_lock;
using cosim::utility::file_lock_initial_state;
using vh::rng;
using std::string;

#if defined(__has_feature)
#    if __has_feature(thread_sanitizer)
#        define VH_TSAN 1
#    endif
#endif

// Closing a descriptor is where POSIX file locks get lost, so it's made slow
// when asked for.
static std::atomic<int> closeDelayUs{0};
#ifndef VH_TSAN
extern "C" int close(int fd)
{
    const int d = closeDelayUs.load(std::memory_order_relaxed);
    if (d > 0) {
        // mostly not at all, sometimes for long
        static std::atomic<unsigned> n{0};
        const auto k = vh::mix(n++, static_cast<std::uint64_t>(::getpid())) % 8;
        if (k < 3) ::usleep(static_cast<unsigned>(d) * static_cast<unsigned>(k + 1) / 3);
    }
    return static_cast<int>(::syscall(SYS_close, fd));
}
#endif

namespace
{

struct slot
{
    std::atomic<unsigned> cmd, done;
    int op, a, b;
    int rc;
    char text[400];
};
constexpr int maxAgents = 32;
struct shared_area
{
    slot s[maxAgents];
    std::atomic<int> quit;
};

// What an agent's thread does with a command.
struct executor
{
    virtual ~executor() = default;
    virtual int exec(int op, int a, int b, string& text) = 0;
};
using executor_factory = std::function<std::unique_ptr<executor>(int agent)>;

void agent_loop(shared_area* sh, int id, const executor_factory& make)
{
    auto& s = sh->s[id];
    auto ex = make(id);
    for (;;) {
        if (sh->quit) return;
        const auto c = s.cmd.load();
        if (c == s.done.load()) {
            ::usleep(30);
            continue;
        }
        string text;
        int rc = -1;
        try {
            rc = ex->exec(s.op, s.a, s.b, text);
        } catch (const std::exception& e) {
            rc = -2;
            text = e.what();
        } catch (...) {
            rc = -2;
            text = "(unknown exception)";
        }
        s.rc = rc;
        std::snprintf(s.text, sizeof s.text, "%s", text.c_str());
        s.done = c;
    }
}

// A set of agents: `procs` child processes with `threads` threads each.  With
// procs == 0 the threads are in this process.
class team
{
public:
    team(int procs, int threads, executor_factory make)
        : procs_(procs)
        , threads_(threads)
        , n_((procs ? procs : 1) * threads)
    {
        sh_ = static_cast<shared_area*>(::mmap(nullptr, sizeof(shared_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (sh_ == MAP_FAILED) vh::harness_error("mmap");
        new (sh_) shared_area();
        for (int p = 0; p < procs; ++p) {
            const auto pid = ::fork();
            if (pid < 0) vh::harness_error("fork");
            if (pid == 0) {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                std::vector<std::thread> ts;
                for (int t = 0; t < threads; ++t) ts.emplace_back([&, t, p] { agent_loop(sh_, p * threads + t, make); });
                for (auto& t : ts) t.join();
                std::_Exit(0);
            }
            pids_.push_back(pid);
        }
        if (procs == 0)
            for (int t = 0; t < threads; ++t) local_.emplace_back([this, t, make] { agent_loop(sh_, t, make); });
    }
    ~team()
    {
        sh_->quit = 1;
        for (auto p : pids_)
            if (p > 0) {
                ::kill(p, SIGKILL);
                ::waitpid(p, nullptr, 0);
            }
        for (auto& t : local_) t.join();
        ::munmap(sh_, sizeof(shared_area));
    }
    int size() const { return n_; }
    int proc_of(int agent) const { return agent / threads_; }
    bool alive(int agent) const { return procs_ == 0 || pids_[static_cast<std::size_t>(proc_of(agent))] > 0; }
    void issue(int agent, int op, int a, int b = 0)
    {
        auto& s = sh_->s[agent];
        s.op = op;
        s.a = a;
        s.b = b;
        s.cmd = s.cmd + 1;
    }
    bool ready(int agent)
    {
        auto& s = sh_->s[agent];
        if (s.done == s.cmd) return true;
        for (std::size_t p = 0; p < pids_.size(); ++p) {
            if (pids_[p] <= 0) continue;
            int st = 0;
            if (::waitpid(pids_[p], &st, WNOHANG) == pids_[p]) {
                pids_[p] = -1;
                throw vh::failed("agent-died", vh::cat("process ", p, " ended unexpectedly, status ", st));
            }
        }
        return false;
    }
    bool ready_within(int agent, int us)
    {
        const auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(us);
        while (!ready(agent)) {
            if (std::chrono::steady_clock::now() > end) return ready(agent);
            ::usleep(30);
        }
        return true;
    }
    void await(int agent)
    {
        while (!ready(agent)) ::usleep(30); // the watchdog looks after this
    }
    int rc(int agent) const { return sh_->s[agent].rc; }
    string text(int agent) const { return sh_->s[agent].text; }
    void kill_process(int p)
    {
        auto& pid = pids_[static_cast<std::size_t>(p)];
        ::kill(pid, SIGKILL);
        ::waitpid(pid, nullptr, 0);
        pid = -1;
    }
    int processes() const { return procs_; }

private:
    int procs_, threads_, n_;
    shared_area* sh_;
    std::vector<pid_t> pids_;
    std::vector<std::thread> local_;
};

void deadlock_error(const string& where)
{
    vh::count("spurious_deadlock_errors");
    static bool reported = false;
    if (!reported) {
        reported = true;
        vh::violation("spurious-deadlock-error", where);
    }
}
bool is_deadlock(const string& text) { return text.find("deadlock") != string::npos || text.find("Deadlock") != string::npos; }

// --------------------------------------------------------------------- C19
enum { opLock, opTry, opLockShared, opTryShared, opUnlock, opUnlockByDestruction, opUnlockByAssignment, opDrop, opMove };
const char* const opNames[] = {"lock", "try_lock", "lock_shared", "try_lock_shared", "unlock", "unlock (destroy)", "unlock (assign)", "drop", "move"};

struct lock_executor : executor
{
    string dir;
    int agent;
    struct item
    {
        std::unique_ptr<file_lock> l;
        int mode = 0; // 0 none, 1 shared, 2 exclusive
    };
    std::map<int, item> items;
    lock_executor(string d, int a) : dir(std::move(d)), agent(a) {}

    string path(int f, int alias)
    {
        const auto base = "f" + std::to_string(f);
        switch (alias % 5) {
            case 1: return dir + "/sub/../" + base;
            case 2: return dir + "/sym" + std::to_string(f);
            case 3: return dir + "/hard" + std::to_string(f);
            case 4: return dir + "/./sub/.././/" + base;
            default: return dir + "/" + base;
        }
    }
    int exec(int op, int f, int b, string&) override
    {
        auto& it = items[f];
        const bool onConstruction = (b & 64) != 0;
        switch (op) {
            case opLock:
            case opLockShared:
                if (!it.l || onConstruction) {
                    it.l.reset();
                    if (onConstruction) {
                        it.l = std::make_unique<file_lock>(path(f, b & 7), op == opLock ? file_lock_initial_state::locked : file_lock_initial_state::locked_shared);
                        it.mode = op == opLock ? 2 : 1;
                        return 1;
                    }
                    it.l = std::make_unique<file_lock>(path(f, b & 7));
                }
                if (op == opLock) it.l->lock();
                else it.l->lock_shared();
                it.mode = op == opLock ? 2 : 1;
                return 1;
            case opTry:
            case opTryShared: {
                if (!it.l) it.l = std::make_unique<file_lock>(path(f, b & 7));
                const bool ok = op == opTry ? it.l->try_lock() : it.l->try_lock_shared();
                if (ok) it.mode = op == opTry ? 2 : 1;
                return ok;
            }
            case opUnlock:
                if (it.mode == 2) it.l->unlock();
                else it.l->unlock_shared();
                it.mode = 0;
                return 1;
            case opUnlockByDestruction:
                it.l.reset();
                it.mode = 0;
                return 1;
            case opUnlockByAssignment:
                // overwriting a lock releases what it held
                *it.l = file_lock(b & 1 ? path(f, b & 7) : dir + "/other");
                if (!(b & 1)) it.l.reset();
                it.mode = 0;
                return 1;
            case opDrop:
                it.l.reset();
                return 1;
            case opMove:
                if (it.l) {
                    auto m = std::make_unique<file_lock>(std::move(*it.l));
                    it.l = std::move(m);
                }
                return 1;
        }
        return -1;
    }
};

string make_lock_files(int nFiles)
{
    static int n = 0;
    const auto dir = vh::scratch_dir() + "/l" + std::to_string(::getpid()) + "_" + std::to_string(n++);
    fs::create_directories(dir + "/sub");
    for (int f = 0; f < nFiles; ++f) {
        const auto p = dir + "/f" + std::to_string(f);
        std::ofstream(p).put('x');
        fs::create_symlink("f" + std::to_string(f), dir + "/sym" + std::to_string(f));
        fs::create_hard_link(p, dir + "/hard" + std::to_string(f));
    }
    return dir;
}

} // namespace

// One operation at a time, with a model of who holds what.
static void scripted_locks(rng& rng, bool processes)
{
    const int nFiles = static_cast<int>(rng.range(1, 3));
    const int procs = processes ? static_cast<int>(rng.range(1, 3)) : 0;
    const int threads = static_cast<int>(processes ? rng.range(1, 3) : rng.range(2, 5));
    const auto dir = make_lock_files(nFiles);
    const bool missing = rng.chance(20); // let the lock create the file
    if (missing)
        for (int f = 0; f < nFiles; ++f) {
            fs::remove(dir + "/f" + std::to_string(f));
            fs::remove(dir + "/hard" + std::to_string(f));
        }
    team t(procs, threads, [dir](int a) { return std::make_unique<lock_executor>(dir, a); });

    std::vector<std::map<int, int>> holders(static_cast<std::size_t>(nFiles)); // agent -> 1/2
    std::map<int, std::pair<int, int>> pending; // agent -> file, mode
    string log;
    auto note = [&](int a, const string& s) {
        log += vh::cat("a", a, "(p", t.proc_of(a), "):", s, "; ");
        if (log.size() > 3000) log.erase(0, log.size() - 2500);
        vh::context(log);
    };
    auto conflict = [&](int a, int f, int mode) {
        for (auto& [h, m] : holders[static_cast<std::size_t>(f)])
            if (h != a && (m == 2 || mode == 2)) return true;
        return false;
    };
    auto holdsAny = [&](int a) {
        for (auto& h : holders)
            if (h.count(a)) return true;
        return false;
    };
    auto waiting = [&](int f) {
        for (auto& [a, p] : pending)
            if (p.first == f) return true;
        return false;
    };
    auto granted = [&](int a, int f, int mode) {
        VH_CHECK(!conflict(a, f, mode), "exclusion", "agent ", a, " got a ", mode == 2 ? "exclusive" : "shared", " lock on file ", f,
            " while a conflicting lock is held. History: ", log);
        holders[static_cast<std::size_t>(f)][a] = mode;
        vh::evaluated();
    };
    // takes note of waiting agents that have got their lock
    auto collect = [&](bool one) {
        for (auto it = pending.begin(); it != pending.end();) {
            if (t.ready(it->first)) {
                const auto a = it->first;
                const auto p = it->second;
                it = pending.erase(it);
                note(a, vh::cat("-> rc ", t.rc(a), " ", t.text(a)));
                if (t.rc(a) == 1) {
                    granted(a, p.first, p.second);
                    vh::count("waits_ended");
                } else if (is_deadlock(t.text(a))) {
                    deadlock_error(vh::cat("waiting for file ", p.first, ": ", t.text(a), ". History: ", log));
                } else {
                    throw vh::failed("lock-failed", vh::cat("waiting for a lock: rc ", t.rc(a), " ", t.text(a), ". History: ", log));
                }
                if (one) return;
            } else {
                ++it;
            }
        }
    };
    // waits for the ones that have to get theirs now
    auto settle = [&] {
        for (;;) {
            collect(false);
            bool must = false;
            for (int f = 0; f < nFiles; ++f) {
                bool any = false, excl = false;
                for (auto& [a, p] : pending)
                    if (p.first == f) {
                        any = true;
                        excl |= p.second == 2;
                    }
                if (!any) continue;
                if (holders[static_cast<std::size_t>(f)].empty()) must = true;
                if (!excl) {
                    bool heldExcl = false;
                    for (auto& [h, m] : holders[static_cast<std::size_t>(f)]) heldExcl |= m == 2;
                    if (!heldExcl) must = true;
                }
            }
            if (!must) return;
            ::usleep(40);
        }
    };
    auto release = [&](int a, int f, int how) {
        holders[static_cast<std::size_t>(f)].erase(a);
        note(a, vh::cat(opNames[how], " f", f));
        t.issue(a, how, f, static_cast<int>(rng.range(0, missing ? 0 : 7)));
        // (others may now get it, even before this agent says it's done)
        t.await(a);
        VH_CHECK(t.rc(a) == 1, "unlock-failed", opNames[how], ": ", t.text(a), ". History: ", log);
        vh::evaluated();
        settle();
    };

    const int steps = static_cast<int>(rng.range(15, 60));
    for (int i = 0; i < steps; ++i) {
        std::vector<int> free;
        for (int a = 0; a < t.size(); ++a)
            if (t.alive(a) && !pending.count(a)) free.push_back(a);
        if (free.empty()) {
            // can't happen: agents that wait hold nothing, so someone must get a lock
            settle();
            collect(false);
            continue;
        }
        const int a = rng.pick(free);
        const int f = static_cast<int>(rng.range(0, nFiles - 1));
        const int alias = static_cast<int>(missing ? (rng.range(0, 1) ? 0 : 1) : rng.range(0, 4));
        auto& h = holders[static_cast<std::size_t>(f)];
        const auto k = rng.range(0, 99);
        if (processes && k < 3 && t.processes() > 1) {
            const int p = t.proc_of(a);
            note(a, "killed");
            t.kill_process(p);
            bool held = false;
            for (auto& hh : holders)
                for (auto it = hh.begin(); it != hh.end();)
                    if (t.proc_of(it->first) == p) {
                        it = hh.erase(it);
                        held = true;
                    } else ++it;
            bool left = false;
            for (auto it = pending.begin(); it != pending.end();)
                if (t.proc_of(it->first) == p) it = pending.erase(it);
                else ++it;
            for (int b = 0; b < t.size(); ++b) left |= t.alive(b);
            vh::count(held ? "processes_killed_holding" : "processes_killed");
            settle();
            if (!left) break;
            continue;
        }
        if (h.count(a)) {
            if (k < 70) release(a, f, static_cast<int>(rng.chance(60) ? opUnlock : rng.chance(50) ? opUnlockByDestruction : opUnlockByAssignment));
            else if (k < 75) {
                t.issue(a, opMove, f);
                t.await(a);
                note(a, vh::cat("move f", f));
                vh::count("moves");
            }
            continue;
        }
        const bool pend = waiting(f);
        if (k < 45) {
            const int mode = rng.chance(50) ? 2 : 1;
            const int op = mode == 2 ? opTry : opTryShared;
            const bool c = conflict(a, f, mode);
            note(a, vh::cat(opNames[op], " f", f));
            t.issue(a, op, f, alias);
            // "without blocking": the watchdog notices if it waits
            t.await(a);
            note(a, vh::cat("-> ", t.rc(a), " ", t.text(a)));
            VH_CHECK(t.rc(a) >= 0, "try-failed", opNames[op], ": ", t.text(a), ". History: ", log);
            if (t.rc(a) == 1) {
                granted(a, f, mode);
                vh::count("tries_succeeded");
                // (someone who waited before could in principle have been next)
            } else {
                vh::count(c ? "tries_refused" : "tries_lost_to_waiters");
                VH_CHECK(c || pend, "try-refused", opNames[op], " failed though nothing conflicts and nobody waits. History: ", log);
            }
            vh::evaluated();
            collect(false);
        } else if (k < 85) {
            const int mode = rng.chance(50) ? 2 : 1;
            const bool c = conflict(a, f, mode);
            if ((c || pend) && holdsAny(a)) continue;
            if (pending.size() + 1 >= free.size() + pending.size() && c) continue; // keep one free
            const int op = mode == 2 ? opLock : opLockShared;
            note(a, vh::cat(opNames[op], " f", f));
            t.issue(a, op, f, alias | (rng.chance(30) ? 64 : 0));
            if (c || pend) {
                pending[a] = {f, mode};
                if (c) {
                    if (t.ready_within(a, static_cast<int>(rng.range(0, 3000))) && t.rc(a) == 1) granted(a, f, mode); // reports it
                    vh::count("waits");
                }
                settle();
            } else {
                t.await(a);
                if (t.rc(a) != 1 && is_deadlock(t.text(a))) {
                    deadlock_error(vh::cat("locking file ", f, ": ", t.text(a), ". History: ", log));
                } else {
                    VH_CHECK(t.rc(a) == 1, "lock-failed", opNames[op], ": ", t.text(a), ". History: ", log);
                    granted(a, f, mode);
                    vh::count("locks_without_waiting");
                }
            }
        } else if (k < 95) {
            t.issue(a, opDrop, f);
            t.await(a);
            note(a, vh::cat("drop f", f));
        } else {
            t.issue(a, opMove, f);
            t.await(a);
        }
    }
    // everyone lets go; everyone who waits gets their turn
    for (int guard = 0; guard < 1000; ++guard) {
        bool any = false;
        for (int f = 0; f < nFiles; ++f) {
            while (!holders[static_cast<std::size_t>(f)].empty()) {
                const int a = holders[static_cast<std::size_t>(f)].begin()->first;
                release(a, f, opUnlock);
                any = true;
            }
        }
        settle();
        if (!any && pending.empty()) break;
    }
    VH_CHECK(pending.empty(), "waiter-left", "an agent still waits though everything was released. History: ", log);
    vh::distinct(vh::hash_str(log));
    if (rng.chance(3)) vh::sample(log);
    fs::remove_all(dir);
}

VH_PROP(C19) { (void)caseIndex; scripted_locks(rng, true); }
VH_PROP(C19L) { (void)caseIndex; scripted_locks(rng, false); }

namespace
{
struct stress_area
{
    // per process and file
    std::atomic<int> readers[8][4], writers[8][4];
    std::atomic<int> dying[8];
    std::atomic<long> acquired, refused, spurious, overlapsSeen;
    std::atomic<long> turns; // order of exclusive sections, for the coverage figures
    std::atomic<int> lastOwner[4];
    std::atomic<long> handovers;
    std::atomic<int> bad;
    char text[600];
};
}

static void stress_locks(rng& rng, bool processes)
{
    const int nFiles = static_cast<int>(rng.range(1, 2));
    const int procs = processes ? static_cast<int>(rng.range(2, 4)) : 1;
    const int threads = static_cast<int>(processes ? rng.range(1, 3) : rng.range(3, 6));
    const int rounds = static_cast<int>(processes ? rng.range(20, 60) : rng.range(30, 120));
    const int delay = static_cast<int>(rng.chance(70) ? rng.range(100, 1500) : 0);
    const bool killOne = processes && rng.chance(30);
    const bool fresh = rng.chance(70); // new lock objects all the time
    const int holdUs = static_cast<int>(rng.range(0, 300));
    const auto dir = make_lock_files(nFiles);
    auto* sh = static_cast<stress_area*>(::mmap(nullptr, sizeof(stress_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) stress_area();
    for (auto& x : sh->lastOwner) x = -1;

    auto bad = [sh](const char* kind, const string& msg) {
        int zero = 0;
        if (sh->bad.compare_exchange_strong(zero, 1)) {
            std::snprintf(sh->text, sizeof sh->text, "%s|%s", kind, msg.c_str());
            sh->bad = 2;
        }
    };
    auto check = [sh, procs, nFiles, bad](int p, int f, int mode) {
        (void)nFiles;
        int r = 0, w = 0;
        for (int q = 0; q < procs; ++q) {
            if (sh->dying[q]) continue;
            r += sh->readers[q][f];
            w += sh->writers[q][f];
        }
        if (sh->dying[p]) return;
        if (mode == 2 ? (w != 1 || r != 0) : (w != 0)) {
            // look again, in case a process was killed while we were counting
            for (int q = 0; q < procs; ++q)
                if (sh->dying[q]) return;
            bad("exclusion", vh::cat("holding a ", mode == 2 ? "exclusive" : "shared", " lock: ", r, " shared and ", w, " exclusive holders"));
        }
    };
    const auto seed = rng.next();
    auto worker = [=](int p, int t) {
        vh::rng r(vh::mix(seed, static_cast<std::uint64_t>(p * 100 + t)));
        std::map<int, std::unique_ptr<file_lock>> keep;
        for (int i = 0; i < rounds && !sh->bad; ++i) {
            const int f = static_cast<int>(r.range(0, nFiles - 1));
            const int alias = static_cast<int>(r.range(0, 2));
            const auto path = alias == 0 ? dir + "/f" + std::to_string(f) : alias == 1 ? dir + "/sym" + std::to_string(f) : dir + "/hard" + std::to_string(f);
            const int mode = r.chance(50) ? 2 : 1;
            const bool tryIt = r.chance(40);
            try {
                if (fresh && r.chance(70)) keep[f].reset();
                if (!keep[f]) keep[f] = std::make_unique<file_lock>(path);
                auto& l = *keep[f];
                bool ok = true;
                if (tryIt) ok = mode == 2 ? l.try_lock() : l.try_lock_shared();
                else if (mode == 2) l.lock();
                else l.lock_shared();
                if (!ok) {
                    sh->refused++;
                    continue;
                }
                auto& mine = mode == 2 ? sh->writers[p][f] : sh->readers[p][f];
                mine++;
                check(p, f, mode);
                sh->acquired++;
                if (holdUs) ::usleep(static_cast<unsigned>(r.range(0, holdUs)));
                else std::this_thread::yield();
                check(p, f, mode);
                if (sh->lastOwner[f].exchange(p * 100 + t) != p * 100 + t) sh->handovers++;
                mine--;
                const auto how = r.range(0, 3);
                if (how == 0) keep[f].reset();
                else if (mode == 2) l.unlock();
                else l.unlock_shared();
            } catch (const std::exception& e) {
                if (is_deadlock(e.what()) && procs > 1 && nFiles > 1) sh->spurious++;
                else bad("lock-failed", e.what());
            }
        }
    };
    if (processes) {
        std::vector<pid_t> pids;
        for (int p = 0; p < procs; ++p) {
            const auto pid = ::fork();
            if (pid == 0) {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                closeDelayUs = delay;
                std::vector<std::thread> ts;
                for (int t = 0; t < threads; ++t) ts.emplace_back(worker, p, t);
                for (auto& t : ts) t.join();
                std::_Exit(0);
            }
            pids.push_back(pid);
        }
        if (killOne) {
            ::usleep(static_cast<unsigned>(rng.range(500, 20000)));
            sh->dying[0] = 1;
            ::kill(pids[0], SIGKILL);
            vh::count("processes_killed");
        }
        for (std::size_t p = 0; p < pids.size(); ++p) {
            int st = 0;
            ::waitpid(pids[p], &st, 0);
            if (!(p == 0 && killOne) && st != 0) bad("agent-died", vh::cat("process ", p, " ended with status ", st));
        }
    } else {
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t) ts.emplace_back(worker, 0, t);
        for (auto& t : ts) t.join();
    }
    vh::evaluated(sh->acquired + sh->refused);
    vh::count("acquired", sh->acquired);
    vh::count("refused", sh->refused);
    vh::count("handovers", sh->handovers);
    vh::distinct(vh::mix(static_cast<std::uint64_t>(sh->handovers), static_cast<std::uint64_t>(sh->acquired * 1000 + sh->refused)));
    const auto spurious = sh->spurious.load();
    const int wasBad = sh->bad;
    const string text = sh->text;
    ::munmap(sh, sizeof(stress_area));
    fs::remove_all(dir);
    if (spurious) deadlock_error(vh::cat(spurious, " spurious deadlock errors with several threads in each of several processes and two files"));
    if (wasBad) {
        const auto bar = text.find('|');
        throw vh::failed(text.substr(0, bar), text.substr(bar + 1));
    }
}

VH_PROP(C19S) { (void)caseIndex; stress_locks(rng, true); }
VH_PROP(C19T) { (void)caseIndex; stress_locks(rng, false); }

// --------------------------------------------------------------------- C20
namespace
{
enum { opGetRw, opGetRo, opRelease, opCleanup, opWrite, opRead, opRecreate };
const char* const cacheOpNames[] = {"get_rw", "get_ro", "release", "cleanup", "write", "read", "recreate"};

string key_text(int k)
{
    static const std::vector<string> keys = {"a", "b", "a.b", "a/b", "..", ".", "", "key with spaces", "a.data", "a.lock", "lock", "%41", "A",
        "\xc3\xa6\xff", "../x", "{8c4e810f-3df3-4a00-8276-176fa3c9f000}", ".lock", ".data", "a.b.c", "lock.data", "x.lock.data", "~", "a\\b", "*", " ", "a "};
    if (k >= 26) return k % 3 ? vh::cat("key", k) : vh::cat(k, "/", string(static_cast<std::size_t>(k * 2), 'k'));
    return keys[static_cast<std::size_t>(k)];
}
constexpr int nCacheKeys = 26;

// Several files and a subdirectory that together say `token`; -1: empty, -2: something else
void write_token(const fs::path& d, int token)
{
    std::ofstream(d / "one") << token;
    fs::create_directories(d / "sub");
    std::ofstream(d / "sub" / "two") << token;
    std::ofstream(d / ".lock") << token;
}
int read_token(const fs::path& d)
{
    int n = 0;
    for (auto it = fs::recursive_directory_iterator(d); it != fs::recursive_directory_iterator(); ++it) ++n;
    if (n == 0) return -1;
    if (n != 4) return -2;
    int a = -3, b = -4, c = -5;
    std::ifstream(d / "one") >> a;
    std::ifstream(d / "sub" / "two") >> b;
    std::ifstream(d / ".lock") >> c;
    return a == b && b == c ? a : -2;
}

struct cache_executor : executor
{
    string root;
    int agent;
    std::unique_ptr<cosim::persistent_file_cache> cache;
    std::map<int, std::unique_ptr<cosim::file_cache::directory_rw>> rw;
    std::map<int, std::unique_ptr<cosim::file_cache::directory_ro>> ro;
    cache_executor(string r, int a) : root(std::move(r)), agent(a) {}
    fs::path path(int k) { return rw.count(k) ? rw[k]->path() : ro.at(k)->path(); }
    int exec(int op, int k, int b, string& text) override
    {
        if (!cache || op == opRecreate) {
            const auto p = agent % 3 == 1 ? root + "/../" + fs::path(root).filename().string() : root;
            auto fresh = std::make_unique<cosim::persistent_file_cache>(p);
            if (cache && b % 2) *cache = std::move(*fresh);
            else cache = std::move(fresh);
        }
        switch (op) {
            case opGetRw:
                rw[k] = cache->get_directory_rw(key_text(k));
                text = rw[k]->path().string();
                return 1;
            case opGetRo:
                try {
                    ro[k] = cache->get_directory_ro(key_text(k));
                } catch (const std::logic_error& e) {
                    ro.erase(k);
                    text = e.what();
                    return 0;
                } catch (...) {
                    ro.erase(k);
                    throw;
                }
                text = ro[k]->path().string();
                return 1;
            case opRelease:
                rw.erase(k);
                ro.erase(k);
                return 1;
            case opCleanup:
                cache->cleanup();
                return 1;
            case opWrite:
                write_token(path(k), b);
                return 1;
            case opRead:
                return read_token(path(k));
            case opRecreate:
                return 1;
        }
        return -9;
    }
};
} // namespace

static void scripted_cache(rng& rng, bool processes)
{
    static int n = 0;
    const auto base = vh::scratch_dir() + "/c" + std::to_string(::getpid()) + "_" + std::to_string(n++);
    fs::create_directories(base);
    const auto root = base + "/cache/root";
    const int procs = processes ? static_cast<int>(rng.range(1, 3)) : 0;
    const int threads = static_cast<int>(processes ? rng.range(1, 3) : rng.range(2, 5));
    std::vector<int> keys;
    const bool large = rng.chance(3);
    if (large) vh::count("scaled:many_keys");
    const auto nKeys = static_cast<std::size_t>(large ? rng.range(5, 80) : rng.range(1, 4));
    while (keys.size() < nKeys) {
        const int k = static_cast<int>(rng.range(0, large ? 110 : nCacheKeys - 1));
        bool dup = false;
        for (int x : keys) dup |= x == k;
        if (!dup) keys.push_back(k);
    }
    team t(procs, threads, [root](int a) { return std::make_unique<cache_executor>(root, a); });

    struct entry
    {
        // 0 doesn't exist, 1 exists with the given token, 2 either
        int exists = 0;
        int token = -1;
        std::map<int, int> holders;
        string path;
        bool touched = false; // asked for since the last definite cleanup (lock files may exist)
    };
    std::map<int, entry> entries;
    for (int k : keys) entries[k];
    struct pend
    {
        int op, key;
        std::set<int> untouched; // for cleanup: keys not held or asked for since it was requested
        std::set<int> held; //      ... and ones that have been in use all the time
        bool mayLack = true; // for get_ro: the key may not have existed at some time since
    };
    std::map<int, pend> pending;
    string log;
    auto note = [&](int a, const string& s) {
        log += vh::cat("a", a, "(p", t.proc_of(a), "):", s, "; ");
        if (log.size() > 3000) log.erase(0, log.size() - 2500);
        vh::context(log);
    };
    auto kname = [&](int k) { return '"' + vh::jesc(key_text(k)) + '"'; };
    auto holdsAny = [&](int a) {
        for (auto& [k, e] : entries)
            if (e.holders.count(a)) return true;
        return false;
    };
    auto conflict = [&](int k, int mode) {
        for (auto& [h, m] : entries[k].holders)
            if (m == 2 || mode == 2) return true;
        return false;
    };
    auto cleanupPending = [&] {
        for (auto& [a, p] : pending)
            if (p.op == opCleanup) return true;
        return false;
    };
    auto keyPending = [&](int k) {
        for (auto& [a, p] : pending)
            if (p.op != opCleanup && p.key == k) return true;
        return false;
    };
    auto touch = [&](int k) {
        for (auto& [a, p] : pending) {
            p.untouched.erase(k);
        }
    };
    auto drop_holder = [&](int k, int a) {
        entries[k].holders.erase(a);
        if (entries[k].holders.empty())
            for (auto& [b, p] : pending) p.held.erase(k);
    };
    auto checkContents = [&](int a, int k) {
        auto& e = entries[k];
        t.issue(a, opRead, k);
        t.await(a);
        const int got = t.rc(a);
        if (e.exists == 2) {
            VH_CHECK(got == e.token || got == -1, "contents", "key ", kname(k), " contains ", got, ", expected ", e.token, " or nothing. History: ", log);
            e.exists = 1;
            e.token = got;
        } else {
            VH_CHECK(got == e.token, "contents", "key ", kname(k), " contains ", got, ", expected ", e.token, " (-1: empty, -2: inconsistent) ", t.text(a), ". History: ", log);
        }
        vh::count("contents_checked");
    };
    // an agent has been given (or refused) what it asked for
    auto finished = [&](int a, int op, int k, bool mayLack) {
        auto& e = entries[k];
        const int rc = t.rc(a);
        // a cleanup in progress may have come first
        for (auto& [b, p] : pending)
            if (p.op == opCleanup && !p.held.count(k) && e.exists == 1 && e.holders.empty()) e.exists = 2;
        note(a, vh::cat("-> ", rc, rc < 0 ? " " + t.text(a) : ""));
        if (rc == -2 && is_deadlock(t.text(a))) throw vh::failed("spurious-deadlock-error", vh::cat(cacheOpNames[op], " ", kname(k), ": ", t.text(a), ". History: ", log));
        VH_CHECK(rc >= 0, "request-failed", cacheOpNames[op], " ", kname(k), ": ", t.text(a), ". History: ", log);
        vh::evaluated();
        if (rc == 0) {
            VH_CHECK(op == opGetRo && (e.exists != 1 || mayLack), "existing-key-refused", "get_ro of existing key ", kname(k), " threw ", t.text(a), ". History: ", log);
            // (The refusal may be older than what else has been heard of, so
            // it says nothing about whether the key exists now.)
            vh::count("unknown_keys_refused");
            return;
        }
        const int mode = op == opGetRw ? 2 : 1;
        VH_CHECK(!conflict(k, mode), "exclusion", "agent ", a, " got ", op == opGetRw ? "read-write" : "read-only", " access to ", kname(k),
            " while it's in conflicting use. History: ", log);
        VH_CHECK(op == opGetRw || e.exists != 0, "unknown-key-accepted", "get_ro of ", kname(k), ", which doesn't exist, succeeded. History: ", log);
        if (e.exists == 0) {
            e.exists = 1;
            e.token = -1;
        }
        e.holders[a] = mode;
        vh::count(mode == 2 ? "rw_granted" : "ro_granted");
        // where is it?
        const auto p = fs::path(t.text(a));
        VH_CHECK(fs::is_directory(p), "no-directory", p.string(), " isn't a directory. History: ", log);
        const auto c = fs::canonical(p).string();
        const auto cr = fs::canonical(root).string();
        VH_CHECK(c.size() > cr.size() + 1 && c.compare(0, cr.size() + 1, cr + "/") == 0, "outside-cache", "key ", kname(k), " is at ", c, ", outside ", cr);
        VH_CHECK(e.path.empty() || e.path == c, "directory-changed", "key ", kname(k), " was at ", e.path, ", is at ", c);
        e.path = c;
        for (auto& [ok, oe] : entries)
            if (ok != k && !oe.path.empty())
                VH_CHECK(oe.path != c && (oe.path + "/").compare(0, c.size() + 1, c + "/") != 0 && (c + "/").compare(0, oe.path.size() + 1, oe.path + "/") != 0,
                    "shared-directory", "keys ", kname(k), " and ", kname(ok), " are at ", c, " and ", oe.path);
        checkContents(a, k);
        if (mode == 2 && rng.chance(70)) {
            e.token = static_cast<int>(rng.range(1, 1000000));
            t.issue(a, opWrite, k, e.token);
            t.await(a);
            VH_CHECK(t.rc(a) == 1, "write-failed", t.text(a), ". History: ", log);
        }
    };
    auto cleaned = [&](int a, const pend& p) {
        note(a, vh::cat("-> cleanup ", t.rc(a), " ", t.text(a)));
        if (t.rc(a) == -2 && is_deadlock(t.text(a))) throw vh::failed("spurious-deadlock-error", vh::cat("cleanup: ", t.text(a), ". History: ", log));
        VH_CHECK(t.rc(a) == 1, "cleanup-failed", t.text(a), ". History: ", log);
        vh::evaluated();
        vh::count("cleanups");
        for (auto& [k, e] : entries) {
            if (p.held.count(k)) {
                // in use all the time: must be as it was
                VH_CHECK(fs::is_directory(e.path), "cleaned-in-use", "cleanup removed ", kname(k), " which is in use. History: ", log);
                vh::count("kept_by_cleanup");
                for (auto& [h, m] : e.holders)
                    if (!pending.count(h)) {
                        checkContents(h, k);
                        break;
                    }
            } else if (p.untouched.count(k)) {
                if (!e.path.empty()) VH_CHECK(!fs::exists(e.path), "not-cleaned", "cleanup left ", kname(k), " which isn't in use, at ", e.path, ". History: ", log);
                if (e.exists) vh::count("removed_by_cleanup");
                e.exists = 0;
                e.token = -1;
            } else if (e.exists && e.holders.empty()) {
                e.exists = 2;
            }
        }
    };
    auto collect = [&] {
        bool any = false;
        for (auto it = pending.begin(); it != pending.end();) {
            if (!t.ready(it->first)) {
                ++it;
                continue;
            }
            const auto a = it->first;
            const auto p = it->second;
            it = pending.erase(it);
            any = true;
            if (p.op == opCleanup) cleaned(a, p);
            else finished(a, p.op, p.key, p.mayLack);
            vh::count("waits_ended");
            it = pending.begin();
        }
        return any;
    };
    auto release = [&](int a, int k) {
        note(a, "release " + kname(k));
        drop_holder(k, a);
        touch(k);
        t.issue(a, opRelease, k);
        t.await(a);
        VH_CHECK(t.rc(a) == 1, "release-failed", t.text(a), ". History: ", log);
        collect();
    };
    auto start = [&](int a, int op, int k) {
        pend p{op, k, {}, {}, true};
        if (op == opCleanup) {
            for (auto& [kk, e] : entries) {
                if (!e.holders.empty()) p.held.insert(kk);
                else if (!keyPending(kk)) p.untouched.insert(kk);
            }
            for (auto& [b, q] : pending) q.mayLack = true;
        } else {
            p.mayLack = entries[k].exists != 1 || cleanupPending();
            touch(k);
        }
        note(a, vh::cat(cacheOpNames[op], " ", op == opCleanup ? string() : kname(k)));
        t.issue(a, op, k);
        return p;
    };

    const int steps = static_cast<int>(large ? rng.range(50, 300) : rng.range(10, 45));
    for (int i = 0; i < steps; ++i) {
        collect();
        std::vector<int> free;
        for (int a = 0; a < t.size(); ++a)
            if (!pending.count(a)) free.push_back(a);
        if (free.empty()) vh::harness_error("no free agents");
        const int a = rng.pick(free);
        const int k = rng.pick(keys);
        auto& e = entries[k];
        const auto c = rng.range(0, 99);
        if (e.holders.count(a)) {
            if (c < 50) release(a, k);
            else if (c < 65) checkContents(a, k);
            else if (c < 75 && !cleanupPending() && pending.empty()) {
                const auto p = start(a, opCleanup, 0);
                t.await(a);
                cleaned(a, p);
            }
            continue;
        }
        if (c < 75) {
            const int op = rng.chance(50) ? opGetRw : opGetRo;
            const bool conf = conflict(k, op == opGetRw ? 2 : 1);
            const bool mayWait = conf || keyPending(k) || cleanupPending();
            if (mayWait && (holdsAny(a) || free.size() < 2)) continue;
            const bool others = !pending.empty();
            const auto p = start(a, op, k);
            if (mayWait) {
                pending[a] = p;
                if (conf) {
                    vh::count("waits");
                    if (t.ready_within(a, static_cast<int>(rng.range(0, 3000)))) collect();
                }
            } else {
                t.await(a); // the watchdog looks after this
                finished(a, op, k, p.mayLack);
                if (others) vh::count("granted_while_others_wait");
            }
        } else if (c < 88) {
            if (holdsAny(a) && !pending.empty()) continue;
            if (cleanupPending()) continue;
            const bool mayWait = !pending.empty();
            if (mayWait && free.size() < 2) continue;
            const auto p = start(a, opCleanup, 0);
            if (mayWait) pending[a] = p;
            else {
                t.await(a);
                cleaned(a, p);
            }
        } else if (!holdsAny(a)) {
            t.issue(a, opRecreate, 0, static_cast<int>(rng.range(0, 1)));
            t.await(a);
            VH_CHECK(t.rc(a) == 1, "recreate-failed", t.text(a));
        }
    }
    // everything is let go of, and everyone gets their turn
    for (;;) {
        bool any = collect();
        for (int k : keys)
            while (!entries[k].holders.empty()) {
                release(entries[k].holders.begin()->first, k);
                any = true;
            }
        if (pending.empty() && !any) break;
        ::usleep(40);
    }
    // in the end, a cleanup leaves nothing but the cache's own lock file
    {
        const auto p = start(0, opCleanup, 0);
        t.await(0);
        cleaned(0, p);
        int files = 0;
        string left;
        for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) {
            ++files;
            left += it->path().string() + " ";
        }
        VH_CHECK(files <= 1, "not-cleaned", "after cleanup without any users the cache contains ", left, ". History: ", log);
        int outside = 0;
        for (auto it = fs::directory_iterator(base + "/cache"); it != fs::directory_iterator(); ++it) ++outside;
        VH_CHECK(outside == 1, "outside-cache", "the cache's parent directory has ", outside, " entries");
    }
    vh::distinct(vh::hash_str(log));
    if (rng.chance(3)) vh::sample(log);
    fs::remove_all(base);
}

VH_PROP(C20) { (void)caseIndex; scripted_cache(rng, true); }
VH_PROP(C20L) { (void)caseIndex; scripted_cache(rng, false); }

// Free-running workers.
namespace
{
struct cache_stress_area
{
    std::atomic<int> ro[4], rw[4];
    std::atomic<int> token[4]; // what a key's directory contains; -1 nothing
    std::atomic<long> granted, refused, cleanups, handovers;
    std::atomic<int> last[4];
    std::atomic<int> bad;
    char text[600];
};
}

static void stress_cache(rng& rng, bool processes)
{
    static int n = 0;
    const auto base = vh::scratch_dir() + "/s" + std::to_string(::getpid()) + "_" + std::to_string(n++);
    const auto root = base + "/cache";
    const int procs = processes ? static_cast<int>(rng.range(2, 4)) : 1;
    const int threads = static_cast<int>(processes ? rng.range(1, 2) : rng.range(3, 6));
    const int rounds = static_cast<int>(rng.range(10, 40));
    const int nKeys = static_cast<int>(rng.range(1, 3));
    const int key0 = static_cast<int>(rng.range(0, nCacheKeys - 1));
    const int delay = static_cast<int>(rng.chance(50) ? rng.range(100, 1000) : 0);
    const int holdUs = static_cast<int>(rng.range(0, 200));
    auto* sh = static_cast<cache_stress_area*>(::mmap(nullptr, sizeof(cache_stress_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) cache_stress_area();
    for (auto& x : sh->last) x = -1;
    for (auto& x : sh->token) x = -1;
    auto bad = [sh](const char* kind, const string& msg) {
        int zero = 0;
        if (sh->bad.compare_exchange_strong(zero, 1)) {
            std::snprintf(sh->text, sizeof sh->text, "%s|%s", kind, msg.c_str());
            sh->bad = 2;
        }
    };
    const auto seed = rng.next();
    auto worker = [=](int p, int t) {
        vh::rng r(vh::mix(seed, static_cast<std::uint64_t>(p * 100 + t)));
        cosim::persistent_file_cache cache(root);
        for (int i = 0; i < rounds && !sh->bad; ++i) {
            const int x = static_cast<int>(r.range(0, nKeys - 1));
            const auto key = key_text(key0 + x);
            const auto c = r.range(0, 99);
            try {
                if (c < 15) {
                    cache.cleanup();
                    sh->cleanups++;
                } else if (c < 55) {
                    auto h = cache.get_directory_rw(key);
                    if (++sh->rw[x] != 1 || sh->ro[x] != 0) bad("exclusion", "read-write access to " + key + " while it's in use");
                    const int was = read_token(h->path());
                    const int want = sh->token[x];
                    if (was != want && was != -1) bad("contents", vh::cat(key, " contains ", was, " instead of ", want));
                    const int tok = static_cast<int>(r.range(1, 1000000));
                    sh->token[x] = tok;
                    write_token(h->path(), tok);
                    if (holdUs) ::usleep(static_cast<unsigned>(r.range(0, holdUs)));
                    if (read_token(h->path()) != tok) bad("contents", vh::cat(key, " was changed by others while in read-write use"));
                    if (sh->ro[x] != 0 || sh->rw[x] != 1) bad("exclusion", "others got access to " + key + " while it's in read-write use");
                    if (sh->last[x].exchange(p * 100 + t) != p * 100 + t) sh->handovers++;
                    sh->granted++;
                    sh->rw[x]--;
                } else {
                    std::unique_ptr<cosim::file_cache::directory_ro> h;
                    try {
                        h = cache.get_directory_ro(key);
                    } catch (const std::logic_error&) {
                        sh->refused++;
                        continue;
                    }
                    sh->ro[x]++;
                    if (sh->rw[x] != 0) bad("exclusion", "read-only access to " + key + " while it's in read-write use");
                    const int want = sh->token[x];
                    int was = read_token(h->path());
                    // (a directory that another worker has just created is
                    // never seen empty: writers fill it before letting go)
                    if (was != want) bad("contents", vh::cat(key, " contains ", was, " instead of ", want, " on read-only access"));
                    if (holdUs) ::usleep(static_cast<unsigned>(r.range(0, holdUs)));
                    was = read_token(h->path());
                    if (was != want) bad("contents", vh::cat(key, " changed to ", was, " from ", want, " during read-only access"));
                    if (sh->rw[x] != 0) bad("exclusion", "read-write access to " + key + " while it's in read-only use");
                    sh->granted++;
                    sh->ro[x]--;
                }
            } catch (const std::exception& e) {
                bad("request-failed", key + ": " + e.what());
            }
        }
    };
    if (processes) {
        std::vector<pid_t> pids;
        for (int p = 0; p < procs; ++p) {
            const auto pid = ::fork();
            if (pid == 0) {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                closeDelayUs = delay;
                std::vector<std::thread> ts;
                for (int t = 0; t < threads; ++t) ts.emplace_back(worker, p, t);
                for (auto& t : ts) t.join();
                std::_Exit(0);
            }
            pids.push_back(pid);
        }
        for (std::size_t p = 0; p < pids.size(); ++p) {
            int st = 0;
            ::waitpid(pids[p], &st, 0);
            if (st != 0) bad("agent-died", vh::cat("process ", p, " ended with status ", st));
        }
    } else {
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t) ts.emplace_back(worker, 0, t);
        for (auto& t : ts) t.join();
    }
    vh::evaluated(sh->granted + sh->refused + sh->cleanups);
    vh::count("stress_granted", sh->granted);
    vh::count("stress_refused", sh->refused);
    vh::count("stress_cleanups", sh->cleanups);
    vh::count("handovers", sh->handovers);
    vh::distinct(vh::mix(static_cast<std::uint64_t>(sh->handovers), static_cast<std::uint64_t>(sh->granted * 1000 + sh->refused)));
    const int wasBad = sh->bad;
    const string text = sh->text;
    ::munmap(sh, sizeof(cache_stress_area));
    fs::remove_all(base);
    if (wasBad) {
        const auto bar = text.find('|');
        throw vh::failed(text.substr(0, bar), text.substr(bar + 1));
    }
}

VH_PROP(C20S) { (void)caseIndex; stress_cache(rng, true); }
VH_PROP(C20T) { (void)caseIndex; stress_cache(rng, false); }
