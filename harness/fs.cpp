// Monitors for C21 (temporary file cache), C22 (archives) and C31 (temporary
// directories and UUIDs).
#include "mutate.hpp"
#include "vh.hpp"

#include <cosim/error.hpp>
#include <cosim/file_cache.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/utility/filesystem.hpp>
#include <cosim/utility/uuid.hpp>
#include <cosim/utility/zip.hpp>

#include <fstream>
#include <memory>
#include <optional>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unordered_set>
#include <zip.h>
#include <zlib.h>

namespace fs = cosim::filesystem;
using vh::rng;
using std::string;

namespace
{

// A sandbox whose temporary directory the library is told to use.
struct sandbox
{
    string base, tmp;
    string oldTmp;
    sandbox()
    {
        static int n = 0;
        base = vh::scratch_dir() + "/b" + std::to_string(::getpid()) + "_" + std::to_string(n++);
        tmp = base + "/tmp";
        fs::create_directories(tmp);
        if (auto* o = std::getenv("TMPDIR")) oldTmp = o;
        ::setenv("TMPDIR", tmp.c_str(), 1);
    }
    ~sandbox()
    {
        ::setenv("TMPDIR", oldTmp.c_str(), 1);
        std::error_code ec;
        fs::remove_all(base, ec);
    }
};

std::vector<string> list(const fs::path& d)
{
    std::vector<string> r;
    for (auto it = fs::directory_iterator(d); it != fs::directory_iterator(); ++it) r.push_back(it->path().filename().string());
    std::sort(r.begin(), r.end());
    return r;
}

string join(const std::vector<string>& v)
{
    string s;
    for (auto& x : v) s += x + " ";
    return s;
}

// The whole tree below a directory: path -> "/" for directories, else contents
std::map<string, string> tree(const fs::path& d)
{
    std::map<string, string> r;
    for (auto it = fs::recursive_directory_iterator(d); it != fs::recursive_directory_iterator(); ++it) {
        const auto rel = it->path().string().substr(d.string().size() + 1);
        if (fs::is_symlink(fs::symlink_status(it->path()))) r[rel] = "-> " + fs::read_symlink(it->path()).string();
        else if (fs::is_directory(it->path())) r[rel] = "/";
        else {
            std::ifstream f(it->path(), std::ios::binary);
            std::ostringstream o;
            o << f.rdbuf();
            r[rel] = "=" + o.str();
        }
    }
    return r;
}

string diff(const std::map<string, string>& a, const std::map<string, string>& b)
{
    auto brief = [](const string& s) { return s.size() > 60 ? s.substr(0, 60) + vh::cat("...(", s.size(), ")") : s; };
    for (auto& [k, v] : a) {
        auto it = b.find(k);
        if (it == b.end()) return vh::cat("missing: ", k);
        if (it->second != v) return vh::cat("different: ", k, ": expected ", vh::jesc(brief(v)), ", got ", vh::jesc(brief(it->second)));
    }
    for (auto& [k, v] : b)
        if (!a.count(k)) return vh::cat("unexpected: ", k, " ", vh::jesc(brief(v)));
    return "";
}

string weird_key(rng& r)
{
    static const std::vector<string> keys = {"a", "b", "a.b", "a/b", "..", ".", "", "key with spaces", "%41", "A", "%2E%2E", "../..", "../x", "/", "/etc",
        "{8c4e810f-3df3-4a00-8276-176fa3c9f000}", "\xc3\xa6\xff", "~", "a\\b", "*", " ", "...", "./", "a/../b", "..data", "a "};
    if (r.chance(75)) return r.pick(keys);
    string s;
    const auto n = r.range(1, 12);
    for (int i = 0; i < n; ++i) s += static_cast<char>(r.range(1, 255));
    return s;
}

// --------------------------------------------------------------------- C21
struct handle
{
    int cache;
    string key;
    int mode;
    std::unique_ptr<cosim::file_cache::directory_rw> rw;
    std::unique_ptr<cosim::file_cache::directory_ro> ro;
    fs::path path() const { return rw ? rw->path() : ro->path(); }
};

} // namespace

VH_PROP(C21)
{
    (void)caseIndex;
    sandbox box;
    std::ofstream(box.base + "/sentinel") << "untouched";
    struct entry
    {
        string path;
        std::map<string, string> contents;
    };
    struct model
    {
        std::unique_ptr<cosim::temporary_file_cache> cache; // null when destroyed
        std::map<string, entry> entries;
        string root;
    };
    std::vector<model> caches;
    std::vector<handle> handles;
    string log;
    auto kname = [](const string& k) { return '"' + vh::jesc(k) + '"'; };
    auto inUse = [&](int c, const string& k, int mode) {
        int n = 0;
        for (auto& h : handles)
            if (h.cache == c && h.key == k && (mode == 0 || h.mode == mode)) ++n;
        return n;
    };
    std::vector<string> pool;
    const bool large = rng.chance(4);
    for (int i = 0; i < 4; ++i) pool.push_back(weird_key(rng));
    if (large) {
        const auto n = rng.range(5, 120);
        for (int i = 0; i < n; ++i) pool.push_back(rng.chance(70) ? vh::cat("key", i) : vh::cat("a/", string(static_cast<std::size_t>(rng.range(0, 200)), 'k'), i));
        vh::count("scaled:many_keys");
    }
    auto check = [&] {
        // exactly the live caches' directories exist
        std::set<string> want;
        for (std::size_t c = 0; c < caches.size(); ++c) {
            bool used = false;
            for (auto& h : handles) used |= h.cache == static_cast<int>(c);
            if (!caches[c].root.empty() && (caches[c].cache || used)) want.insert(caches[c].root);
        }
        const auto got = list(box.tmp);
        for (auto& g : got)
            if (!want.count(box.tmp + "/" + g)) {
                // a cache whose root we don't know yet?
                bool unknown = false;
                for (auto& m : caches) unknown |= m.cache && m.root.empty();
                VH_CHECK(unknown, "left-behind", "the temporary directory contains ", join(got), ", which no cache uses. History: ", log);
            }
        for (auto& w : want) VH_CHECK(fs::is_directory(w), "root-removed", w, " is gone though in use. History: ", log);
        VH_CHECK(join(list(box.base)) == "sentinel tmp ", "outside-touched", "next to the temporary directory: ", join(list(box.base)), ". History: ", log);
        for (auto& h : handles) {
            auto& e = caches[static_cast<std::size_t>(h.cache)].entries[h.key];
            VH_CHECK(fs::is_directory(h.path()), "no-directory", "the directory of ", kname(h.key), " is gone. History: ", log);
            const auto d = diff(e.contents, tree(h.path()));
            VH_CHECK(d.empty(), "contents", "directory of ", kname(h.key), ": ", d, ". History: ", log);
        }
        for (auto& m : caches)
            if (!m.root.empty() && m.cache)
                for (auto& [k, e] : m.entries) {
                    const auto d = diff(e.contents, tree(e.path));
                    VH_CHECK(d.empty(), "contents", "directory of ", kname(k), ": ", d, ". History: ", log);
                }
        vh::evaluated();
    };
    const int steps = static_cast<int>(large ? rng.range(60, 500) : rng.range(10, 60));
    for (int i = 0; i < steps; ++i) {
        const auto c = rng.range(0, 99);
        if (caches.empty() || c < 3) {
            if (caches.size() > 3) continue;
            caches.push_back({std::make_unique<cosim::temporary_file_cache>(), {}, ""});
            // find out where it is
            auto& m = caches.back();
            std::set<string> known;
            for (auto& x : caches) known.insert(x.root);
            std::vector<string> fresh;
            for (auto& g : list(box.tmp))
                if (!known.count(box.tmp + "/" + g)) fresh.push_back(box.tmp + "/" + g);
            if (fresh.size() == 1) m.root = fresh[0];
            log += vh::cat("new cache ", caches.size() - 1, "; ");
            continue;
        }
        const int ci = static_cast<int>(rng.range(0, static_cast<long long>(caches.size()) - 1));
        auto& m = caches[static_cast<std::size_t>(ci)];
        if (c < 6) {
            if (!m.cache) continue;
            log += vh::cat("destroy ", ci, "; ");
            m.cache.reset();
            vh::count("caches_destroyed");
        } else if (c < 9) {
            if (!m.cache) continue;
            auto n = std::make_unique<cosim::temporary_file_cache>(std::move(*m.cache));
            m.cache = std::move(n);
            log += vh::cat("move ", ci, "; ");
        } else if (c < 60) {
            if (!m.cache) continue;
            const auto key = rng.chance(85) ? rng.pick(pool) : weird_key(rng);
            const int mode = rng.chance(50) ? 2 : 1;
            const bool exists = m.entries.count(key) > 0;
            const bool want = mode == 2 ? inUse(ci, key, 0) == 0 : exists && inUse(ci, key, 2) == 0;
            handle h{ci, key, mode, nullptr, nullptr};
            string err;
            try {
                if (mode == 2) h.rw = m.cache->get_directory_rw(key);
                else h.ro = m.cache->get_directory_ro(key);
            } catch (const std::exception& e) {
                err = e.what();
                if (err.empty()) err = "(exception)";
            }
            log += vh::cat(mode == 2 ? "rw " : "ro ", ci, " ", kname(key), err.empty() ? " ok; " : " refused; ");
            vh::evaluated();
            VH_CHECK(want || !err.empty(), mode == 2 || exists ? "exclusion" : "unknown-key-accepted", mode == 2 ? "read-write" : "read-only", " access to ", kname(key),
                " was granted with ", inUse(ci, key, 1), " readers and ", inUse(ci, key, 2), " writers, exists: ", exists, ". History: ", log);
            VH_CHECK(!want || err.empty(), "refused", mode == 2 ? "read-write" : "read-only", " access to ", kname(key), " was refused: ", err, ". History: ", log);
            if (!want) {
                vh::count(exists ? "conflicts_refused" : "unknown_refused");
                continue;
            }
            vh::count(mode == 2 ? "rw_granted" : "ro_granted");
            if (mode == 1 && inUse(ci, key, 1) > 0) vh::count("shared_readers");
            VH_CHECK(fs::is_directory(h.path()), "no-directory", h.path().string(), " isn't a directory. History: ", log);
            const auto p = fs::canonical(h.path()).string();
            // below some directory of its own in the temporary directory
            const auto t = fs::canonical(box.tmp).string() + "/";
            VH_CHECK(p.compare(0, t.size(), t) == 0 && p.find('/', t.size()) != string::npos && p.find('/', t.size()) + 1 < p.size(),
                "outside-cache", kname(key), " is at ", p, ". History: ", log);
            const auto root = p.substr(0, p.find('/', t.size()));
            if (m.root.empty()) m.root = root;
            VH_CHECK(root == fs::canonical(m.root).string(), "outside-cache", kname(key), " is at ", p, ", outside ", m.root, ". History: ", log);
            if (exists) {
                VH_CHECK(m.entries[key].path == p, "directory-changed", kname(key), " was at ", m.entries[key].path, ", is at ", p);
            } else {
                for (auto& [k, e] : m.entries)
                    VH_CHECK(e.path != p && (e.path + "/").compare(0, p.size() + 1, p + "/") != 0 && (p + "/").compare(0, e.path.size() + 1, e.path + "/") != 0,
                        "shared-directory", "keys ", kname(k), " and ", kname(key), " are at ", e.path, " and ", p);
                m.entries[key].path = p;
            }
            handles.push_back(std::move(h));
        } else if (c < 80) {
            if (handles.empty()) continue;
            const auto k = static_cast<std::size_t>(rng.range(0, static_cast<long long>(handles.size()) - 1));
            log += vh::cat("release ", handles[k].cache, " ", kname(handles[k].key), "; ");
            handles.erase(handles.begin() + static_cast<long>(k));
        } else {
            // write something
            for (auto& h : handles) {
                if (h.mode != 2 || !rng.chance(50)) continue;
                const auto f = "f" + std::to_string(rng.range(0, 3));
                const auto text = std::to_string(rng.next());
                if (rng.chance(30)) fs::create_directories(h.path() / "d" / "e");
                std::ofstream(h.path() / f) << text;
                caches[static_cast<std::size_t>(h.cache)].entries[h.key].contents = tree(h.path());
                vh::count("writes");
            }
        }
        if (!large || rng.chance(10)) check();
    }
    for (auto& m : caches) m.cache.reset();
    check();
    handles.clear();
    check();
    VH_CHECK(list(box.tmp).empty(), "left-behind", "in the end, the temporary directory contains ", join(list(box.tmp)), ". History: ", log);
    vh::distinct(vh::hash_str(log));
    if (rng.chance(2)) vh::sample(log);
}

// --------------------------------------------------------------------- C31
static bool is_uuid4(const string& s)
{
    if (s.size() != 36) return false;
    for (std::size_t i = 0; i < 36; ++i) {
        if (i == 8 || i == 13 || i == 18 || i == 23) {
            if (s[i] != '-') return false;
        } else if (!std::isxdigit(static_cast<unsigned char>(s[i]))) return false;
    }
    return s[14] == '4' && (s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b' || s[19] == 'A' || s[19] == 'B');
}

VH_PROP(C31)
{
    (void)caseIndex;
    using cosim::utility::temp_dir;
    sandbox box;
    fs::create_directories(box.base + "/abs/existing");
    std::ofstream(box.base + "/afile") << "x";
    struct obj
    {
        std::unique_ptr<temp_dir> d;
        string path; // empty when moved from
        std::map<string, string> contents;
    };
    std::vector<obj> objs;
    std::set<string> everSeen;
    string log;
    auto check = [&] {
        for (auto& o : objs) {
            VH_CHECK(o.d->path().string() == o.path, "path-changed", "path is ", o.d->path().string(), ", expected ", o.path, ". History: ", log);
            if (o.path.empty()) continue;
            VH_CHECK(fs::is_directory(o.path), "directory-gone", o.path, " doesn't exist. History: ", log);
            const auto d = diff(o.contents, tree(o.path));
            VH_CHECK(d.empty(), "contents", o.path, ": ", d, ". History: ", log);
        }
        std::set<string> live;
        for (auto& o : objs) live.insert(o.path);
        for (auto& p : everSeen)
            if (!live.count(p)) VH_CHECK(!fs::exists(fs::symlink_status(p)), "not-removed", p, " is still there. History: ", log);
        VH_CHECK(join(list(box.base)) == "abs afile tmp " || join(list(box.base)) == "abs afile made tmp ", "outside-touched", join(list(box.base)), ". History: ", log);
        vh::evaluated();
    };
    auto created = [&](const string& p, const string& parent) {
        VH_CHECK(everSeen.insert(p).second, "not-unique", p, " was given out before. History: ", log);
        VH_CHECK(fs::is_directory(p) && fs::is_empty(p), "not-created", p, " isn't an empty directory. History: ", log);
        VH_CHECK(fs::equivalent(fs::path(p).parent_path(), parent), "wrong-place", p, " isn't directly below ", parent, ". History: ", log);
        vh::count("created");
    };
    const int steps = static_cast<int>(rng.range(5, 50));
    for (int i = 0; i < steps; ++i) {
        const auto c = rng.range(0, 99);
        auto some = [&]() -> obj& { return objs[static_cast<std::size_t>(rng.range(0, static_cast<long long>(objs.size()) - 1))]; };
        if (objs.empty() || c < 25) {
            static const char* const rel[] = {"rel", "rel/deep", "./rel", "rel/../other", "with space"};
            const auto k = rng.range(0, 4);
            obj o;
            string parent;
            if (k == 0) {
                o.d = std::make_unique<temp_dir>();
                parent = box.tmp;
            } else if (k == 1) {
                const string r = rel[rng.range(0, 4)];
                o.d = std::make_unique<temp_dir>(r);
                parent = box.tmp + "/" + r;
            } else if (k == 2) {
                parent = box.base + (rng.chance(50) ? "/abs/existing" : "/abs/new/sub");
                o.d = std::make_unique<temp_dir>(parent);
            } else if (k == 3) {
                parent = box.base + "/made/" + std::to_string(rng.range(0, 5));
                o.d = std::make_unique<temp_dir>(parent);
            } else {
                // below a file: can't be created
                bool threw = false;
                try {
                    temp_dir t(box.base + "/afile");
                } catch (const std::exception&) {
                    threw = true;
                }
                VH_CHECK(threw, "created-below-file", "a temporary directory was created below a file");
                vh::count("impossible_refused");
                continue;
            }
            o.path = o.d->path().string();
            log += "new " + parent.substr(box.base.size()) + "; ";
            created(o.path, parent);
            objs.push_back(std::move(o));
        } else if (c < 45) {
            auto& o = some();
            if (o.path.empty()) continue;
            const auto k = rng.range(0, 3);
            if (k == 0) std::ofstream(o.path + "/f" + std::to_string(rng.range(0, 9))) << rng.next();
            else if (k == 1) fs::create_directories(o.path + "/d/e/f" + std::to_string(rng.range(0, 9)));
            else if (k == 2) {
                std::error_code ec;
                // a link must not be followed when the directory is removed
                fs::create_directory_symlink(box.base + "/abs", o.path + "/link", ec);
            } else {
                const auto f = o.path + "/readonly";
                std::ofstream(f) << "r";
                fs::permissions(f, fs::perms::owner_read);
            }
            o.contents = tree(o.path);
            vh::count("filled");
        } else if (c < 60) {
            const auto k = static_cast<std::size_t>(rng.range(0, static_cast<long long>(objs.size()) - 1));
            log += "destroy; ";
            objs.erase(objs.begin() + static_cast<long>(k));
            vh::count("destroyed");
        } else if (c < 75) {
            auto& o = some();
            obj n;
            n.d = std::make_unique<temp_dir>(std::move(*o.d));
            n.path = o.path;
            n.contents = o.contents;
            o.path.clear();
            log += "move-construct; ";
            if (rng.chance(70)) o = std::move(n); // (replaces the moved-from object)
            else objs.push_back(std::move(n));
            vh::count("moved");
        } else if (c < 92) {
            auto& a = some();
            auto& b = some();
            if (&a == &b) continue;
            *a.d = std::move(*b.d);
            a.path = b.path;
            a.contents = b.contents;
            b.path.clear();
            log += "move-assign; ";
            vh::count("assigned");
        } else {
            // the owner's directory may be gone already
            auto& o = some();
            if (o.path.empty()) continue;
            fs::remove_all(o.path);
            log += "remove externally, destroy; ";
            const auto k = &o - objs.data();
            objs.erase(objs.begin() + k);
        }
        check();
    }
    objs.clear();
    check();
    VH_CHECK(fs::is_directory(box.base + "/abs/existing"), "followed-link", "removing a directory removed what a link in it points to");
    vh::distinct(vh::hash_str(log));
    if (rng.chance(2)) vh::sample(log);

    // UUIDs
    static std::unordered_set<string> all;
    for (int i = 0; i < 50; ++i) {
        const auto u = cosim::utility::random_uuid();
        VH_CHECK(is_uuid4(u), "bad-uuid", u);
        VH_CHECK(all.insert(u).second, "repeated-uuid", u);
        vh::count("uuids");
    }
}

// What C31M runs in a process started from scratch.
VH_PROP(C31X)
{
    (void)caseIndex;
    (void)rng;
    const auto out = ::getenv("VH_C31_OUT"), rounds = ::getenv("VH_C31_ROUNDS"), parent = ::getenv("VH_C31_PARENT");
    if (!out || !rounds || !parent) return;
    std::ofstream o(out);
    for (int i = 0; i < std::atoi(rounds); ++i) {
        cosim::utility::temp_dir d{fs::path(parent)};
        VH_CHECK(fs::is_empty(d.path()), "not-unique", "directory isn't empty: ", d.path());
        std::ofstream(d.path() / "mine") << "x";
        o << d.path().string() << "\n"
          << cosim::utility::random_uuid() << "\n";
        VH_CHECK(list(d.path()).size() == 1, "not-unique", "directory is shared: ", d.path());
    }
}

// Several threads in several processes at once.
VH_PROP(C31M)
{
    (void)caseIndex;
    using cosim::utility::temp_dir;
    sandbox box;
#if defined(__has_feature)
#    if __has_feature(thread_sanitizer)
    const int procs = 0;
#    else
    const int procs = static_cast<int>(rng.range(2, 5));
#    endif
#else
    const int procs = static_cast<int>(rng.range(2, 5));
#endif
    const int threads = static_cast<int>(rng.range(1, 4));
    const int rounds = static_cast<int>(rng.range(3, 12));
    const auto parent = rng.chance(50) ? string() : string("p");
    auto work = [&](int p, int t) -> string {
        const auto out = box.base + vh::cat("/out", p, "_", t);
        std::ofstream o(out);
        std::vector<std::unique_ptr<temp_dir>> keep;
        for (int i = 0; i < rounds; ++i) {
            auto d = std::make_unique<temp_dir>(parent);
            // nobody else's file may be in it
            if (!fs::is_empty(d->path())) return "directory isn't empty: " + d->path().string();
            std::ofstream(d->path() / "mine") << p << "_" << t << "_" << i;
            o << d->path().string() << "\n"
              << cosim::utility::random_uuid() << "\n";
            keep.push_back(std::move(d));
            if (i % 3 == 2) keep.erase(keep.begin());
            for (auto& k : keep)
                if (list(k->path()).size() != 1) return "directory is shared: " + k->path().string();
        }
        return "";
    };
    auto run_threads = [&](int p) -> string {
        std::vector<string> errs(static_cast<std::size_t>(threads));
        std::vector<std::thread> ts;
        const auto guarded = [&](int t) {
            try {
                errs[static_cast<std::size_t>(t)] = work(p, t);
            } catch (const std::exception& e) {
                errs[static_cast<std::size_t>(t)] = e.what();
            }
        };
        for (int t = 1; t < threads; ++t) ts.emplace_back(guarded, t);
        guarded(0); // (on the thread that came with the process)
        for (auto& t : ts) t.join();
        for (auto& e : errs)
            if (!e.empty()) return e;
        return "";
    };
    std::vector<bool> fresh(static_cast<std::size_t>(procs));
    for (auto&& f : fresh) f = rng.chance(25);
    // Processes and threads started from here must not continue a sequence
    // that has begun here.
    std::vector<string> before;
    if (rng.chance(60)) {
        for (int i = 0; i < 2; ++i) {
            temp_dir d{fs::path(parent)};
            before.push_back(d.path().string());
            before.push_back(cosim::utility::random_uuid());
        }
    }
    const auto after = [&] {
        if (before.empty()) return;
        const auto n = before.size();
        for (std::size_t i = 0; i < n; ++i) {
            temp_dir d{fs::path(parent)};
            before.push_back(d.path().string());
            before.push_back(cosim::utility::random_uuid());
        }
    };
    if (procs == 0) {
        const auto e = run_threads(0);
        VH_CHECK(e.empty(), "not-unique", e);
        after();
    } else {
        std::vector<pid_t> pids;
        for (int p = 0; p < procs; ++p) {
            const auto pid = ::fork();
            if (pid == 0) {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                if (fresh[static_cast<std::size_t>(p)]) {
                    ::setenv("VH_C31_OUT", (box.base + vh::cat("/out", p, "_0")).c_str(), 1);
                    ::setenv("VH_C31_ROUNDS", std::to_string(rounds).c_str(), 1);
                    ::setenv("VH_C31_PARENT", parent.c_str(), 1);
                    ::execl("/proc/self/exe", "fs", "--count", "1", "--out", (box.base + vh::cat("/err", p)).c_str(), "C31X", nullptr);
                    std::_Exit(4);
                }
                const auto e = run_threads(p);
                if (!e.empty()) {
                    std::ofstream(box.base + vh::cat("/err", p)) << e;
                    std::_Exit(3);
                }
                std::_Exit(0);
            }
            pids.push_back(pid);
        }
        after();
        for (std::size_t p = 0; p < pids.size(); ++p) {
            int st = 0;
            ::waitpid(pids[p], &st, 0);
            std::ifstream f(box.base + vh::cat("/err", p));
            std::ostringstream o;
            o << f.rdbuf();
            VH_CHECK(st == 0, "process-failed", "process ", p, ": status ", st, " ", o.str());
            if (fresh[p]) {
                VH_CHECK(o.str().find("\"viol\"") == string::npos, "not-unique", "process ", p, ": ", o.str());
                vh::count("fresh_processes");
            } else {
                vh::count("forked_processes");
            }
        }
    }
    std::set<string> seen;
    for (const auto& x : before) VH_CHECK(seen.insert(x).second, "not-unique", x, " was given out twice");
    for (int p = 0; p < std::max(procs, 1); ++p)
        for (int t = 0; t < (procs && fresh[static_cast<std::size_t>(p)] ? 1 : threads); ++t) {
            std::ifstream f(box.base + vh::cat("/out", p, "_", t));
            string line;
            int n = 0;
            while (std::getline(f, line)) {
                VH_CHECK(seen.insert(line).second, "not-unique", line, " was given out twice");
                if (n++ % 2) VH_CHECK(is_uuid4(line), "bad-uuid", line);
            }
            VH_CHECK(n == rounds * 2, "process-failed", "too few lines");
            vh::evaluated(n);
            vh::count("concurrent_creations", n / 2);
        }
    for (auto& e : list(box.tmp)) VH_CHECK(e == "p" && list(box.tmp + "/p").empty(), "not-removed", "left behind: ", e);
    vh::distinct(vh::mix(static_cast<std::uint64_t>(procs * 100 + threads), static_cast<std::uint64_t>(rounds * 2 + parent.size())));
}

// --------------------------------------------------------------------- C22
namespace
{

struct zentry
{
    string name, data;
    bool deflate = false;
    bool utf8flag = false;
    std::uint32_t crc = 0; // filled in by the writer unless forced
    bool forceCrc = false;
    long long forceSize = -1;
    string packed;
    bool descriptor = false; // sizes follow the data
};

void le16(string& s, unsigned v)
{
    s += static_cast<char>(v & 255);
    s += static_cast<char>((v >> 8) & 255);
}
void le32(string& s, std::uint32_t v)
{
    le16(s, v & 0xffff);
    le16(s, v >> 16);
}

string raw_deflate(const string& d, int level)
{
    z_stream z{};
    if (deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY) != Z_OK) vh::harness_error("deflateInit2");
    string out(deflateBound(&z, d.size()) + 16, '\0');
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data()));
    z.avail_in = static_cast<uInt>(d.size());
    z.next_out = reinterpret_cast<Bytef*>(out.data());
    z.avail_out = static_cast<uInt>(out.size());
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) vh::harness_error("deflate");
    out.resize(z.total_out);
    deflateEnd(&z);
    return out;
}

struct zfile
{
    string bytes;
    // where names are, so that mutations can leave them alone
    std::vector<std::pair<std::size_t, std::size_t>> names;
    std::vector<std::pair<std::size_t, std::size_t>> datas;
};

zfile write_zip(rng& r, std::vector<zentry>& es)
{
    zfile z;
    if (r.chance(15)) z.bytes += "prefix junk"; // allowed before the first entry
    const auto base = z.bytes.size();
    std::vector<std::size_t> offs;
    const bool prefixCounted = true;
    (void)prefixCounted;
    (void)base;
    const string comment = r.chance(20) ? "archive comment" : "";
    string cd;
    std::vector<std::pair<std::size_t, std::size_t>> cdNames;
    for (auto& e : es) {
        e.packed = e.deflate ? raw_deflate(e.data, static_cast<int>(r.range(0, 9))) : e.data;
        if (!e.forceCrc) e.crc = static_cast<std::uint32_t>(crc32(0, reinterpret_cast<const Bytef*>(e.data.data()), static_cast<uInt>(e.data.size())));
        const auto size = e.forceSize >= 0 ? static_cast<std::uint32_t>(e.forceSize) : static_cast<std::uint32_t>(e.data.size());
        const unsigned flags = (e.utf8flag ? 0x800u : 0u) | (e.descriptor ? 8u : 0u);
        string extra;
        if (r.chance(20)) {
            le16(extra, 0x5455); // extended timestamp
            le16(extra, 5);
            extra += '\1';
            le32(extra, 1700000000);
        }
        const auto off = z.bytes.size();
        string& b = z.bytes;
        le32(b, 0x04034b50);
        le16(b, 20);
        le16(b, flags);
        le16(b, e.deflate ? 8 : 0);
        le16(b, 0x6000);
        le16(b, 0x5821);
        le32(b, e.descriptor ? 0 : e.crc);
        le32(b, e.descriptor ? 0 : static_cast<std::uint32_t>(e.packed.size()));
        le32(b, e.descriptor ? 0 : size);
        le16(b, static_cast<unsigned>(e.name.size()));
        le16(b, static_cast<unsigned>(extra.size()));
        z.names.push_back({b.size(), e.name.size()});
        b += e.name;
        b += extra;
        z.datas.push_back({b.size(), e.packed.size()});
        b += e.packed;
        if (e.descriptor) {
            le32(b, 0x08074b50);
            le32(b, e.crc);
            le32(b, static_cast<std::uint32_t>(e.packed.size()));
            le32(b, size);
        }
        le32(cd, 0x02014b50);
        le16(cd, (3u << 8) | 20);
        le16(cd, 20);
        le16(cd, flags);
        le16(cd, e.deflate ? 8 : 0);
        le16(cd, 0x6000);
        le16(cd, 0x5821);
        le32(cd, e.crc);
        le32(cd, static_cast<std::uint32_t>(e.packed.size()));
        le32(cd, size);
        le16(cd, static_cast<unsigned>(e.name.size()));
        le16(cd, 0);
        le16(cd, 0);
        le16(cd, 0);
        le16(cd, 0);
        le32(cd, (e.name.empty() || e.name.back() != '/') ? 0x81a40000u : 0x41ed0010u);
        le32(cd, static_cast<std::uint32_t>(off));
        cdNames.push_back({cd.size(), e.name.size()});
        cd += e.name;
    }
    const auto cdOff = z.bytes.size();
    for (auto& n : cdNames) z.names.push_back({n.first + cdOff, n.second});
    z.bytes += cd;
    string& b = z.bytes;
    le32(b, 0x06054b50);
    le16(b, 0);
    le16(b, 0);
    le16(b, static_cast<unsigned>(es.size()));
    le16(b, static_cast<unsigned>(es.size()));
    le32(b, static_cast<std::uint32_t>(cd.size()));
    le32(b, static_cast<std::uint32_t>(cdOff));
    le16(b, static_cast<unsigned>(comment.size()));
    b += comment;
    return z;
}

string file_name(rng& r)
{
    static const std::vector<string> names = {"a", "b", "c", "readme.txt", "modelDescription.xml", "x y", "\xc3\xa6\xc3\xb8\xc3\xa5", "...", "..a", "a..", ".hidden", "-", "~", "a\\b", "C:", "nul", "name;with&chars", "%2e%2e"};
    if (r.chance(85)) return r.pick(names);
    string s;
    const auto n = r.range(1, r.chance(10) ? 250 : 60);
    for (int i = 0; i < n; ++i) s += static_cast<char>('a' + r.range(0, 25));
    return s;
}

string contents(rng& r)
{
    const auto k = r.range(0, 9);
    std::size_t n = k < 2 ? 0 : k < 7 ? static_cast<std::size_t>(r.range(1, 200)) : k < 9 ? static_cast<std::size_t>(r.range(200, 20000)) : 65536u + static_cast<std::size_t>(r.range(-2, 140000));
    if (k == 8) n = static_cast<std::size_t>(65536 * r.range(1, 2));
    if (r.chance(1)) n = static_cast<std::size_t>(r.range(65536 * 3, 4000000));
    string s(n, '\0');
    const bool text = r.chance(50);
    for (auto& c : s) c = static_cast<char>(text ? "abc \n"[r.next() % 5] : r.next());
    return s;
}

// A random set of entries that don't conflict
std::vector<zentry> good_entries(rng& r, std::map<string, string>& want)
{
    std::vector<zentry> es;
    std::set<string> files, dirs;
    const auto n = r.range(0, r.chance(2) ? 700 : r.chance(10) ? 40 : 8);
    for (int i = 0; i < n; ++i) {
        string path;
        const auto depth = r.range(0, r.chance(2) ? 12 : 4);
        bool ok = true;
        std::vector<string> parents;
        for (int d = 0; d < depth; ++d) {
            path += (d ? "/" : "") + file_name(r);
            if (files.count(path)) ok = false;
            parents.push_back(path);
        }
        if (!ok) continue;
        const bool dir = r.chance(25);
        if (dir && depth == 0) continue;
        zentry e;
        if (dir) {
            e.name = path + "/";
            bool dup = false;
            for (auto& x : es) dup |= x.name == e.name;
            if (dup) continue;
            // directories with contents of their own, which makes no sense but does no harm
            if (r.chance(8)) e.data = r.chance(50) ? "junk" : std::to_string(r.next());
            e.deflate = r.chance(30);
        } else {
            const auto f = (depth ? path + "/" : string()) + file_name(r);
            if (files.count(f) || dirs.count(f)) continue;
            e.name = f;
            e.data = i < 60 ? contents(r) : std::to_string(r.next());
            e.deflate = r.chance(60);
            e.descriptor = r.chance(15);
            files.insert(f);
        }
        e.utf8flag = r.chance(50);
        for (auto& p : parents) dirs.insert(p);
        es.push_back(std::move(e));
    }
    for (auto& d : dirs) want[d] = "/";
    for (auto& e : es)
        if (e.name.back() != '/') want[e.name] = "=" + e.data;
    return es;
}

string write_file(const string& path, const string& bytes)
{
    std::ofstream f(path, std::ios::binary);
    f << bytes;
    f.close();
    return path;
}

// Runs f; "" if it returned, else the kind of exception
template<typename F>
string attempt(F f)
{
    try {
        f();
        return "";
    } catch (const cosim::utility::zip::error& e) {
        return string("zip: ") + e.what();
    } catch (const std::system_error& e) {
        return string("system: ") + e.what();
    } catch (const std::exception& e) {
        return string("other: ") + e.what();
    }
}

} // namespace

VH_PROP(C22)
{
    (void)caseIndex;
    namespace zip = cosim::utility::zip;
    sandbox box;
    // Deep enough that no name below gets out of the sandbox.
    const string target = box.base + "/o1/o2/o3/o4/o5/target";
    fs::create_directories(target);
    const auto zipPath = box.base + "/z.zip";
    const auto kind = rng.range(0, 9);

    if (kind < 5) {
        // well formed: everything must come out as it went in
        std::map<string, string> want;
        auto es = good_entries(rng, want);
        const auto z = write_zip(rng, es);
        write_file(zipPath, z.bytes);
        string desc;
        for (auto& e : es) desc += vh::cat(vh::jesc(e.name), "(", e.data.size(), e.deflate ? "d" : "s", ") ");
        zip::archive ar;
        VH_CHECK(!ar.is_open(), "is_open", "a default-constructed archive is open");
        if (es.empty()) {
            // (opening an archive without entries is fine for libzip)
        }
        ar = zip::archive(zipPath);
        if (rng.chance(30)) {
            zip::archive other(std::move(ar));
            VH_CHECK(!ar.is_open() && other.is_open(), "move", "moved archive is open: ", ar.is_open(), other.is_open());
            ar = std::move(other);
            VH_CHECK(!other.is_open() && ar.is_open(), "move", "moved archive is open");
        }
        VH_CHECK(ar.entry_count() == es.size(), "entry-count", ar.entry_count(), " instead of ", es.size(), ": ", desc);
        for (std::size_t i = 0; i < es.size(); ++i) {
            auto& e = es[i];
            const bool dir = e.name.back() == '/';
            VH_CHECK(ar.entry_name(i) == e.name, "entry-name", "entry ", i, " is ", vh::jesc(ar.entry_name(i)), " instead of ", vh::jesc(e.name), ": ", desc);
            VH_CHECK(ar.find_entry(e.name) == i, "find-entry", vh::jesc(e.name), " found at ", ar.find_entry(e.name), " instead of ", i, ": ", desc);
            if (!dir || e.data.empty()) VH_CHECK(ar.is_dir_entry(i) == dir, "is-dir", vh::jesc(e.name), ": ", desc);
            else vh::count("directories_with_contents");
            vh::evaluated();
        }
        for (auto& e : es) {
            // names that aren't there
            for (auto& m : {e.name + "x", e.name.substr(0, e.name.size() - 1), "x/" + e.name, string("none"), e.name + "/"}) {
                bool there = false;
                for (auto& o : es) there |= o.name == m;
                if (!there) VH_CHECK(ar.find_entry(m) == zip::invalid_entry_index, "find-entry", vh::jesc(m), " isn't there but was found at ", ar.find_entry(m), ": ", desc);
            }
        }
        // what was there before is overwritten or left alone
        auto full = want;
        if (rng.chance(30)) {
            for (auto& e : es)
                if (e.name.find('/') == string::npos && rng.chance(50)) write_file(target + "/" + e.name, string(static_cast<std::size_t>(rng.range(0, 100000)), 'o'));
            if (!full.count("unrelated")) {
                write_file(target + "/unrelated", "keep");
                full["unrelated"] = "=keep";
            }
        }
        // (some names can't exist below others as files: good_entries avoids that)
        ar.extract_all(target);
        auto d = diff(full, tree(target));
        VH_CHECK(d.empty(), "extracted-wrong", d, ". Archive: ", desc);
        vh::evaluated();
        vh::count("extracted_archives");
        vh::count("extracted_entries", static_cast<long long>(es.size()));
        if (rng.chance(30)) { // again, over itself
            ar.extract_all(target);
            d = diff(full, tree(target));
            VH_CHECK(d.empty(), "extracted-wrong", "second time: ", d, ". Archive: ", desc);
        }
        // single files
        for (std::size_t i = 0; i < es.size(); ++i) {
            auto& e = es[i];
            const auto single = box.base + vh::cat("/single", i);
            fs::create_directories(single);
            fs::path p;
            const auto err = attempt([&] { p = ar.extract_file_to(i, single); });
            if (e.name.back() == '/') continue;
            const auto base = fs::path(e.name).filename().string();
            VH_CHECK(err.empty(), "extract-file", vh::jesc(e.name), ": ", err);
            VH_CHECK(p == fs::path(single) / base, "extract-file-path", vh::jesc(e.name), " was extracted to ", p.string());
            d = diff({{base, "=" + e.data}}, tree(single));
            VH_CHECK(d.empty(), "extract-file", vh::jesc(e.name), ": ", d);
            vh::evaluated();
            vh::count("single_files");
        }
        ar.discard();
        VH_CHECK(!ar.is_open(), "is_open", "open after discard");
        if (rng.chance(50)) {
            ar.open(zipPath);
            VH_CHECK(ar.is_open() && ar.entry_count() == es.size(), "reopen", "reopened archive is wrong");
        }
        // things that aren't directories
        const auto err = attempt([&] { zip::archive(zipPath).extract_all(zipPath); });
        VH_CHECK(!err.empty() && err[0] != 'o', "extract-to-file", "extracting into a file: ", err);
        const auto err2 = attempt([&] { zip::archive(zipPath).extract_all(box.base + "/nonexistent"); });
        VH_CHECK(!err2.empty() && err2[0] != 'o' && !fs::exists(box.base + "/nonexistent"), "extract-to-nothing", "extracting into nothing: ", err2);
        vh::distinct(vh::hash_str(desc));
        if (rng.chance(3)) vh::sample(desc);
    } else if (kind < 8) {
        // names that lead elsewhere
        std::map<string, string> want;
        auto es = good_entries(rng, want);
        const string abs = box.base + "/abs";
        fs::create_directories(abs);
        static const std::vector<string> bad = {"../evil", "../../evil", "a/../../evil", "./../evil", "../", "a/../../evil/", "../target/../evil", "..", "a/b/../../../evil",
            "../targetevil", "../target2/x", "../../../evil/x/y", "a/../../b/evil", "ok/../..", "./a/./../../evil"};
        static const std::vector<string> harmless = {"a/../b", "./a", "a//b", "a/./b/", "q/r/../s", "./", ".", "a/..", ""};
        zentry e;
        const auto k = rng.range(0, 9);
        bool mustFail = true;
        if (k < 6) e.name = rng.pick(bad);
        else if (k < 8) e.name = (rng.chance(30) ? "/" : "") + abs + "/evil" + (rng.chance(30) ? "/" : "");
        else {
            e.name = rng.pick(harmless);
            mustFail = false;
        }
        e.data = e.name.empty() || e.name.back() == '/' ? "" : "evil";
        e.deflate = false;
        const auto at = static_cast<long>(rng.range(0, static_cast<long long>(es.size())));
        es.insert(es.begin() + at, e);
        write_file(zipPath, write_zip(rng, es).bytes);
        auto before = tree(box.base);
        string err = attempt([&] { zip::archive(zipPath).extract_all(target); });
        auto after = tree(box.base);
        auto strip = [&](std::map<string, string>& t) {
            const string pre = "o1/o2/o3/o4/o5/target/";
            for (auto it = t.begin(); it != t.end();)
                if (it->first.compare(0, pre.size(), pre) == 0) it = t.erase(it);
                else ++it;
        };
        strip(before);
        strip(after);
        auto d = diff(before, after);
        vh::evaluated();
        VH_CHECK(d.empty(), "outside-target", "extracting an archive with the entry ", vh::jesc(e.name), " changed something outside the target: ", d, " (", err, ")");
        VH_CHECK(!mustFail || !err.empty(), "escape-accepted", "extracting an archive with the entry ", vh::jesc(e.name), " didn't fail");
        VH_CHECK(err.empty() || err[0] != 'o', "wrong-exception", err);
        VH_CHECK(!e.name.empty() || err.empty(), "empty-name", "an entry without a name made extraction fail: ", err);
        vh::count(mustFail ? "escaping_names" : "odd_names");
        // single-file extraction drops the directories
        {
            const auto single = box.base + "/o1/o2/o3/single";
            fs::create_directories(single);
            before = tree(box.base);
            err = attempt([&] {
                zip::archive a(zipPath);
                a.extract_file_to(static_cast<zip::entry_index>(at), single);
            });
            after = tree(box.base);
            const string pre = "o1/o2/o3/single/";
            for (auto it = after.begin(); it != after.end();)
                if (it->first.compare(0, pre.size(), pre) == 0) it = after.erase(it);
                else ++it;
            d = diff(before, after);
            VH_CHECK(d.empty(), "outside-target", "extracting the entry ", vh::jesc(e.name), " changed something outside the target: ", d, " (", err, ")");
            VH_CHECK(err.empty() || err[0] != 'o', "wrong-exception", err);
        }
        vh::distinct(vh::hash_str(vh::cat(e.name, "|", at, "|", es.size())));
    } else if (kind == 8) {
        // damaged archives (names are left alone, so that nothing can end up elsewhere)
        std::map<string, string> want;
        std::vector<zentry> es;
        while (es.empty()) es = good_entries(rng, want);
        // entry-level damage that must be noticed
        const auto how = rng.range(0, 5);
        zentry* victim = nullptr;
        for (auto& e : es)
            if (e.name.back() != '/' && e.data.size() > 2) victim = &e;
        bool mustFail = false;
        if (how == 0 && victim) {
            victim->forceCrc = true;
            victim->crc = static_cast<std::uint32_t>(rng.next());
            mustFail = true;
        } else if (how == 1 && rng.chance(50)) {
            zentry e; // an entry without a name
            e.data = rng.chance(50) ? "" : "nameless";
            es.push_back(e);
        }
        auto z = write_zip(rng, es);
        string& b = z.bytes;
        auto protectedByte = [&](std::size_t i) {
            for (auto& n : z.names)
                if (i >= n.first && i < n.first + n.second) return true;
            return false;
        };
        bool dataOnly = false;
        if (how == 2) b.resize(static_cast<std::size_t>(rng.range(0, static_cast<long long>(b.size()) - 1)));
        else if (how == 3) {
            const auto n = rng.range(1, 6);
            for (int i = 0; i < n; ++i) {
                const auto p = static_cast<std::size_t>(rng.range(0, static_cast<long long>(b.size()) - 1));
                if (!protectedByte(p)) b[p] = static_cast<char>(rng.next());
            }
        } else if (how == 4 && victim) {
            // inside the data: noticed by the checksum
            const auto& dd = z.datas[static_cast<std::size_t>(victim - es.data())];
            const auto p = dd.first + static_cast<std::size_t>(rng.range(0, static_cast<long long>(dd.second) - 1));
            b[p] = static_cast<char>(b[p] ^ (1 << rng.range(0, 7)));
            dataOnly = true;
        } else if (how == 5) {
            const auto n = static_cast<std::size_t>(rng.range(1, 40));
            const auto p = static_cast<std::size_t>(rng.range(0, static_cast<long long>(b.size()) - 1));
            if (rng.chance(50)) {
                if (z.names.empty() || p > z.names[es.size() - 1].first + 400) b.erase(p, n);
            } else b.insert(p, string(n, '\0'));
        }
        write_file(zipPath, b);
        string err;
        std::uint64_t count = 0;
        auto before = tree(box.base);
        err = attempt([&] {
            zip::archive a(zipPath);
            count = a.entry_count();
            for (std::uint64_t i = 0; i < count && i < 200; ++i) {
                attempt([&] {
                    const auto nm = a.entry_name(i);
                    a.find_entry(nm);
                });
                attempt([&] { a.is_dir_entry(i); });
            }
            a.find_entry("nothing");
            a.extract_all(target);
        });
        vh::evaluated();
        VH_CHECK(err.empty() || err[0] != 'o', "wrong-exception", err);
        if (mustFail) {
            VH_CHECK(!err.empty(), "damage-unnoticed", "an archive with a wrong checksum for ", victim->name, " was extracted without error");
            vh::count("bad_checksums");
        }
        if (dataOnly && err.empty()) {
            const auto d = diff(want, tree(target));
            VH_CHECK(d.empty(), "damage-unnoticed", "damaged data were extracted without error: ", d);
        }
        auto after = tree(box.base);
        const string pre = "o1/o2/o3/o4/o5/target/";
        for (auto it = after.begin(); it != after.end();)
            if (it->first.compare(0, pre.size(), pre) == 0) it = after.erase(it);
            else ++it;
        const auto d = diff(before, after);
        VH_CHECK(d.empty(), "outside-target", "extracting a damaged archive changed something outside the target: ", d);
        vh::count(err.empty() ? "damage_tolerated" : "damage_reported");
        vh::distinct(vh::hash_str(b));
    } else {
        // I/O errors: the "disk" is full for one file
        std::vector<zentry> es;
        std::map<string, string> want;
        while (es.empty()) es = good_entries(rng, want);
        zentry e;
        e.name = rng.chance(50) ? "full" : "fulldir/full";
        e.data = string(static_cast<std::size_t>(rng.chance(70) ? rng.range(1, 300) : rng.range(300, 200000)), 'x');
        e.deflate = rng.chance(50);
        const auto at = static_cast<long>(rng.range(0, static_cast<long long>(es.size())));
        es.insert(es.begin() + at, e);
        write_file(zipPath, write_zip(rng, es).bytes);
        if (e.name != "full") fs::create_directories(target + "/fulldir");
        fs::create_symlink("/dev/full", target + "/" + e.name);
        auto err = attempt([&] { zip::archive(zipPath).extract_all(target); });
        vh::evaluated();
        VH_CHECK(err.compare(0, 7, "system:") == 0, "write-error-unnoticed", "extracting ", e.data.size(), " bytes to a full disk: ", err.empty() ? "no error" : err);
        const auto single = box.base + "/single";
        fs::create_directories(single);
        fs::create_symlink("/dev/full", single + "/full");
        err = attempt([&] {
            zip::archive a(zipPath);
            a.extract_file_to(static_cast<zip::entry_index>(at), single);
        });
        VH_CHECK(err.compare(0, 7, "system:") == 0, "write-error-unnoticed", "extracting a file of ", e.data.size(), " bytes to a full disk: ", err.empty() ? "no error" : err);
        // not archives at all
        for (auto& p : {box.base + "/nothing.zip", box.base, write_file(box.base + "/text.zip", "this isn't an archive"), write_file(box.base + "/empty.zip", "PK")}) {
            err = attempt([&] { zip::archive a(p); });
            VH_CHECK(err.compare(0, 4, "zip:") == 0, "not-an-archive", p, ": ", err.empty() ? "no error" : err);
        }
        vh::count("io_errors");
        vh::distinct(vh::hash_str(vh::cat(e.name, e.data.size())));
    }
}


// C32, archives
VH_PROP(C32Z)
{
    (void)caseIndex;
    namespace zip = cosim::utility::zip;
    sandbox box;
    const string target = box.base + "/o1/o2/o3/o4/o5/o6/o7/target";
    fs::create_directories(target);
    const auto zipPath = box.base + "/z.zip";
    auto make = [&] {
        std::map<string, string> want;
        auto es = good_entries(rng, want);
        if (es.size() > 12) es.resize(12);
        for (auto& e : es)
            if (e.data.size() > 3000) e.data.resize(static_cast<std::size_t>(rng.range(0, 3000)));
        return write_zip(rng, es).bytes;
    };
    for (int k = 0; k < 6; ++k) {
        const auto good = make();
        auto bytes = good;
        if (rng.chance(50)) {
            // in the structures at the end
            const auto n = rng.range(1, 4);
            for (int i = 0; i < n && bytes.size() > 30; ++i) {
                const auto from = static_cast<long long>(bytes.size()) - std::min<long long>(static_cast<long long>(bytes.size()), rng.chance(50) ? 24 : 300);
                const auto at = static_cast<std::size_t>(rng.range(from, static_cast<long long>(bytes.size()) - 1));
                static const std::vector<unsigned char> odd = {0, 1, 2, 8, 9, 12, 14, 93, 99, 127, 128, 254, 255};
                bytes[at] = static_cast<char>(rng.pick(odd));
            }
        } else
            bytes = vh::mutate(rng, good, make());
        write_file(zipPath, bytes);
        // Only names that stay where they belong: what happens to others is
        // another property's business.
        bool safe = true;
        {
            int e = 0;
            if (auto* z = zip_open(zipPath.c_str(), ZIP_RDONLY, &e)) {
                const auto n = zip_get_num_entries(z, 0);
                for (zip_int64_t i = 0; i < n; ++i)
                    for (auto flags : {ZIP_FL_ENC_GUESS, ZIP_FL_ENC_RAW, ZIP_FL_ENC_STRICT}) {
                        const auto* name = zip_get_name(z, static_cast<zip_uint64_t>(i), flags);
                        if (!name) continue;
                        if (name[0] == '/' || string(name).find("..") != string::npos) safe = false;
                    }
                zip_discard(z);
            }
        }
        if (!safe) continue;
        vh::context(vh::jesc(bytes));
        vh::distinct(vh::hash_str(bytes));
        vh::survives("archive", [&] {
            zip::archive a(zipPath);
            const auto n = a.entry_count();
            for (std::uint64_t i = 0; i < n + 2 && i < 100; ++i) {
                attempt([&] {
                    const auto nm = a.entry_name(i);
                    a.find_entry(nm);
                });
                attempt([&] { a.is_dir_entry(i); });
            }
            const auto err = attempt([&] { a.extract_all(target); });
            const auto err2 = attempt([&] { a.extract_file_to(static_cast<zip::entry_index>(rng.range(0, 5)), target); });
            if (!err.empty()) throw std::runtime_error(err);
        });
        std::error_code ec;
        fs::remove_all(target, ec);
        fs::create_directories(target);
    }
}
