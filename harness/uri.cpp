// Monitors for C16 (parse/compose), C17 (reference resolution) and C18
// (percent-encoding, file URIs).
#include "mutate.hpp"
#include "vh.hpp"

#include <cosim/uri.hpp>

#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

using vh::rng;
using std::string;
using opt = std::optional<string>;

namespace
{

struct parts
{
    opt scheme, authority;
    string path;
    opt query, fragment;
};

string esc(const string& s) { return '"' + vh::jesc(s) + '"'; }
string esc(const opt& s) { return s ? esc(*s) : string("(none)"); }
string show(const parts& p)
{
    return vh::cat("scheme=", esc(p.scheme), " authority=", esc(p.authority), " path=", esc(p.path),
        " query=", esc(p.query), " fragment=", esc(p.fragment));
}

bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char c) { return c >= '0' && c <= '9'; }
bool schemeOk(const string& s)
{
    if (s.empty() || !alpha(s[0])) return false;
    for (char c : s)
        if (!alpha(c) && !digit(c) && c != '+' && c != '-' && c != '.') return false;
    return true;
}

string compose(const parts& p)
{
    string s;
    if (p.scheme) s += *p.scheme + ":";
    if (p.authority) s += "//" + *p.authority;
    s += p.path;
    if (p.query) s += "?" + *p.query;
    if (p.fragment) s += "#" + *p.fragment;
    return s;
}

// What the generic syntax says about an arbitrary string, written from RFC
// 3986 appendix B (and section 3.1 for the scheme).  Returns nothing if the
// string must be rejected; `unclear` if the standard and the documentation
// leave it open.
std::optional<parts> split(const string& s, bool& unclear)
{
    unclear = false;
    parts p;
    string rest = s;
    const auto d = rest.find_first_of(":/?#");
    if (d != string::npos && rest[d] == ':') {
        const auto head = rest.substr(0, d);
        if (schemeOk(head)) {
            p.scheme = head;
            rest = rest.substr(d + 1);
        } else {
            bool allScheme = true;
            for (char c : head)
                if (!alpha(c) && !digit(c) && c != '+' && c != '-' && c != '.') allScheme = false;
            if (allScheme) return std::nullopt; // empty or doesn't start with a letter
            unclear = true; // a colon in the first segment of a relative path
        }
    }
    if (rest.compare(0, 2, "//") == 0) {
        const auto e = rest.find_first_of("/?#", 2);
        p.authority = rest.substr(2, e == string::npos ? string::npos : e - 2);
        rest = e == string::npos ? "" : rest.substr(e);
    }
    auto e = rest.find_first_of("?#");
    p.path = rest.substr(0, e);
    rest = e == string::npos ? "" : rest.substr(e);
    if (!rest.empty() && rest[0] == '?') {
        e = rest.find('#');
        p.query = rest.substr(1, e == string::npos ? string::npos : e - 1);
        rest = e == string::npos ? "" : rest.substr(e);
    }
    if (!rest.empty()) p.fragment = rest.substr(1);
    return p;
}

template<typename T>
opt own(const T& v)
{
    if (!v) return std::nullopt;
    return string(*v);
}

parts get(const cosim::uri& u)
{
    return {own(u.scheme()), own(u.authority()), string(u.path()), own(u.query()), own(u.fragment())};
}
bool eq(const parts& a, const parts& b)
{
    return a.scheme == b.scheme && a.authority == b.authority && a.path == b.path && a.query == b.query && a.fragment == b.fragment;
}

// The components' views must lie inside the URI's own string.
void checkInside(const cosim::uri& u, const char* what)
{
    const auto v = u.view();
    auto in = [&](std::string_view x) {
        VH_CHECK(x.empty() || (x.data() >= v.data() && x.data() + x.size() <= v.data() + v.size()),
            "view-not-inside", what, " of ", esc(string(v)), ": a component's view isn't part of the URI's string");
    };
    if (u.scheme()) in(*u.scheme());
    if (u.authority()) in(*u.authority());
    in(u.path());
    if (u.query()) in(*u.query());
    if (u.fragment()) in(*u.fragment());
}

void expect(const cosim::uri& u, const parts& p, const string& text, const char* what)
{
    VH_CHECK(u.view() == text, "string", what, ": expected ", esc(text), ", got ", esc(string(u.view())));
    VH_CHECK(u.empty() == text.empty(), "empty", what, ": empty() is wrong for ", esc(text));
    const auto g = get(u);
    VH_CHECK(eq(g, p), "components", what, " of ", esc(text), ": expected ", show(p), ", got ", show(g));
    checkInside(u, what);
}

// Can these be put together so that parsing gives them back?
bool composable(const parts& p)
{
    if (p.scheme && !schemeOk(*p.scheme)) return false;
    if (p.authority && p.authority->find_first_of("/?#") != string::npos) return false;
    if (p.authority && !p.path.empty() && p.path[0] != '/') return false;
    if (p.path.find_first_of("?#") != string::npos) return false;
    if (p.query && p.query->find('#') != string::npos) return false;
    return true;
}
// Composable component-wise, but the whole reads differently (section 4.2 and
// 3.3); the documentation doesn't say what happens, so these aren't judged.
bool ambiguous(const parts& p)
{
    if (!p.authority && p.path.compare(0, 2, "//") == 0) return true;
    if (!p.scheme && !p.authority) {
        const auto d = p.path.find_first_of(":/");
        if (d != string::npos && p.path[d] == ':') return true;
    }
    return false;
}

template<typename F>
string thrown(F f)
{
    try {
        f();
        return "";
    } catch (const std::invalid_argument&) {
        return "invalid_argument";
    } catch (const std::exception& e) {
        return string("other: ") + e.what();
    }
}

std::optional<std::string_view> sv(const opt& o)
{
    if (!o) return std::nullopt;
    return std::string_view(*o);
}
cosim::uri make(const parts& p)
{
    return cosim::uri(sv(p.scheme), sv(p.authority), p.path, sv(p.query), sv(p.fragment));
}

std::uint64_t shape(const parts& p, int extra)
{
    auto cls = [](const string& s) {
        string r;
        for (char c : s) {
            const char k = alpha(c) ? 'a' : digit(c) ? '0' : (static_cast<unsigned char>(c) >= 0x80 ? 'X' : c);
            if (r.empty() || r.back() != k || k == '/' || k == '.') r += k;
        }
        return r;
    };
    return vh::hash_str(vh::cat(extra, "|", p.scheme ? cls(*p.scheme) : "~", "|", p.authority ? cls(*p.authority) : "~", "|",
        cls(p.path), "|", p.query ? cls(*p.query) : "~", "|", p.fragment ? cls(*p.fragment) : "~"));
}

void parseOne(const string& s)
{
    bool unclear = false;
    const auto want = split(s, unclear);
    std::optional<cosim::uri> u;
    const auto err = thrown([&] { u.emplace(s); });
    vh::evaluated();
    if (unclear) {
        vh::count("unclear_strings");
        VH_CHECK(err.empty() || err == "invalid_argument", "wrong-exception", "parsing ", esc(s), ": ", err);
        if (err.empty()) checkInside(*u, "parse");
        return;
    }
    if (!want) {
        vh::count("rejected_strings");
        VH_CHECK(err == "invalid_argument", "accepted-bad-string", "parsing ", esc(s), " should be rejected, but: ", err.empty() ? "accepted" : err);
        return;
    }
    VH_CHECK(err.empty(), "rejected-good-string", "parsing ", esc(s), ": ", err);
    expect(*u, *want, s, "parse");
    vh::count("parsed");
    // composing the parsed components gives the same string
    if (!ambiguous(*want)) {
        const auto again = make(*want);
        expect(again, *want, s, "recompose");
        VH_CHECK(again == *u && !(again != *u), "equality", "equal URIs compare different: ", esc(s));
    }
}

string word(rng& r, const string& chars, int maxLen)
{
    string s;
    auto n = r.range(0, r.chance(5) ? maxLen * 8 : maxLen);
    if (r.chance(1) && r.chance(10)) {
        n = r.chance(5) ? r.range(30000, 140000) : r.range(100, 3000);
        vh::count("scaled:long_words");
    }
    for (int i = 0; i < n; ++i) s += chars[static_cast<std::size_t>(r.range(0, static_cast<long long>(chars.size()) - 1))];
    return s;
}

const string unres = "abcXYZ019-._~";
const string subd = "!$&'()*+,;=";
const string pchar = unres + subd + ":@";

string pct(rng& r)
{
    static const char* h = "0123456789abcdefABCDEF";
    return string("%") + h[r.range(0, 21)] + h[r.range(0, 21)];
}

string seg(rng& r)
{
    const auto k = r.range(0, 19);
    if (k < 4) return "..";
    if (k < 7) return ".";
    if (k < 9) return "";
    if (k == 9) return "...";
    if (k == 10) return ".a";
    if (k == 11) return "a..";
    if (k == 12) return pct(r);
    if (k == 13) return word(r, pchar, 6);
    return string(1, "abcdefgh"[r.range(0, 7)]);
}

parts grammarUri(rng& r, bool absolute, bool forceRelative = false)
{
    parts p;
    if (absolute || (!forceRelative && r.chance(40))) {
        string s(1, "aAbzhHfZ"[r.range(0, 7)]);
        s += word(r, "azAZ09+-.", 4);
        p.scheme = s;
    }
    if (r.chance(50)) {
        p.authority = r.chance(20) ? string() : word(r, unres + subd + ":@[]%", 6);
    }
    string path;
    auto n = r.range(0, r.chance(10) ? 12 : 5);
    if (r.chance(1) && r.chance(10)) {
        n = r.range(13, 400);
        vh::count("scaled:many_segments");
    }
    bool root = r.chance(60);
    if (p.authority) root = true;
    if (n > 0 || r.chance(30)) {
        for (int i = 0; i < n; ++i) path += (i || root ? "/" : "") + seg(r);
        if (root && path.empty()) path = "/";
        if (r.chance(25)) path += "/";
    }
    p.path = path;
    if (!p.path.empty() && p.authority && p.path[0] != '/') p.path = "/" + p.path;
    if (r.chance(35)) p.query = word(r, pchar + "/?", 5);
    if (r.chance(35)) p.fragment = word(r, pchar + "/?", 5);
    return p;
}

string arbitrary(rng& r)
{
    static const string al = string("a:/?#%.@[]0+-_ \\\t\n\x7f\x80\xff", 21) + string(1, '\0');
    if (r.chance(60)) return word(r, al, 12);
    string s;
    const auto n = r.range(0, r.chance(5) ? 3000 : 20);
    for (int i = 0; i < n; ++i) s += static_cast<char>(r.range(0, 255));
    return s;
}

} // namespace

// All strings up to a length over the delimiters, then random ones.
VH_PROP(C16)
{
    static const char al[] = {'a', ':', '/', '?', '#', '.', '1', '%'};
    const int slices = 64;
    if (caseIndex < slices) {
        const int maxLen = vh::thorough() ? 8 : 6;
        for (int len = 0; len <= maxLen; ++len) {
            long long total = 1;
            for (int i = 0; i < len; ++i) total *= 8;
            for (long long k = caseIndex; k < total; k += slices) {
                string s;
                auto x = k;
                for (int i = 0; i < len; ++i) {
                    s += al[x % 8];
                    x /= 8;
                }
                parseOne(s);
            }
        }
        vh::count("exhaustive_slices");
        vh::distinct(vh::hash_str(vh::cat("slice", caseIndex)));
        return;
    }
    for (int i = 0; i < 60; ++i) {
        // grammar-conforming ones
        const auto p = grammarUri(rng, false);
        const auto text = compose(p);
        if (!ambiguous(p)) {
            parseOne(text);
            bool unclear = false;
            const auto q = split(text, unclear);
            if (!q || unclear || !eq(*q, p)) vh::harness_error("splitter disagrees with the generator on " + text);
        }
        parseOne(arbitrary(rng));
        // composing, possibly with something that doesn't belong
        auto b = p;
        const auto spoil = rng.range(0, 11);
        auto ins = [&](string& s, char c) { s.insert(static_cast<std::size_t>(rng.range(0, static_cast<long long>(s.size()))), 1, c); };
        switch (spoil) {
            case 0: b.scheme = ""; break;
            case 1: b.scheme = string(1, "1+-.:/?# \xc3%"[rng.range(0, 10)]) + "ab"; break;
            case 2: b.scheme = b.scheme.value_or("ab"); ins(*b.scheme, ":/?#%_~@ \xe9"[rng.range(0, 9)]); break;
            case 3: b.authority = b.authority.value_or("host"); ins(*b.authority, "/?#"[rng.range(0, 2)]); break;
            case 4: ins(b.path, "?#"[rng.range(0, 1)]); break;
            case 5: b.query = b.query.value_or("q"); ins(*b.query, '#'); break;
            case 6: b.authority = "h"; b.path = "rel" + b.path; break;
            case 7: b.fragment = b.fragment.value_or("f"); ins(*b.fragment, "#?/"[rng.range(0, 2)]); break;
            case 8: b.query = b.query.value_or("q"); ins(*b.query, "?/:"[rng.range(0, 2)]); break;
            default: break;
        }
        std::optional<cosim::uri> u;
        const auto err = thrown([&] { u.emplace(make(b)); });
        vh::evaluated();
        if (!composable(b)) {
            vh::count("compose_rejected");
            VH_CHECK(err == "invalid_argument", "composed-bad-components", show(b), " should be rejected, but: ",
                err.empty() ? "got " + esc(string(u->view())) : err);
            continue;
        }
        VH_CHECK(err.empty(), "compose-rejected-good", show(b), ": ", err);
        expect(*u, b, compose(b), "compose");
        vh::count("composed");
        vh::distinct(shape(b, 0));
        if (i == 0 && caseIndex < slices + 3) vh::sample(compose(b));
        // copies, moves, assignments (of short and long strings: inline and on the heap)
        const auto text2 = compose(b);
        cosim::uri c(*u);
        expect(c, b, text2, "copy");
        VH_CHECK(c == *u && !(c != *u), "equality", "a copy differs: ", esc(text2));
        cosim::uri m(std::move(c));
        expect(m, b, text2, "move");
        cosim::uri a;
        VH_CHECK(a.empty() && a.view().empty() && !a.scheme() && !a.authority() && a.path().empty() && !a.query() && !a.fragment(),
            "default", "default-constructed URI isn't empty");
        a = m;
        expect(a, b, text2, "copy assignment");
        const auto p2 = grammarUri(rng, false);
        if (composable(p2) && !ambiguous(p2)) {
            cosim::uri o = make(p2);
            VH_CHECK((o == a) == (compose(p2) == text2) && (o != a) == (compose(p2) != text2), "equality", esc(compose(p2)), " vs ", esc(text2));
            a = o;
            expect(a, p2, compose(p2), "copy assignment over another");
            expect(o, p2, compose(p2), "source of a copy assignment");
            o = std::move(m);
            expect(o, b, text2, "move assignment over another");
            using std::swap;
            swap(o, a);
            expect(a, b, text2, "swap");
            expect(o, p2, compose(p2), "swap");
            std::vector<cosim::uri> v;
            for (int k = 0; k < 5; ++k) v.push_back(k % 2 ? o : a);
            for (int k = 0; k < 5; ++k) expect(v[static_cast<std::size_t>(k)], k % 2 ? p2 : b, k % 2 ? compose(p2) : text2, "vector element");
            std::ostringstream os;
            os << o;
            VH_CHECK(os.str() == compose(p2), "stream", "streamed ", esc(os.str()), " for ", esc(compose(p2)));
        }
        expect(*u, b, text2, "original after copying");
    }
}

namespace
{

// Section 5.2.4 on a list of segments.
string removeDots(const string& path)
{
    string in = path;
    for (;;) {
        if (in.compare(0, 3, "../") == 0) in = in.substr(3);
        else if (in.compare(0, 2, "./") == 0) in = in.substr(2);
        else break;
    }
    if (in == "." || in == "..") return "";
    std::vector<string> out; // each "/seg", the first possibly without "/"
    std::size_t i = 0;
    if (!in.empty() && in[0] != '/') {
        i = in.find('/');
        if (i == string::npos) return in;
        out.push_back(in.substr(0, i));
    }
    while (i < in.size()) {
        auto e = in.find('/', i + 1);
        const bool last = e == string::npos;
        if (last) e = in.size();
        const auto s = in.substr(i + 1, e - i - 1);
        if (s == ".") {
            if (last) out.push_back("/");
        } else if (s == "..") {
            if (!out.empty()) out.pop_back();
            if (last) out.push_back("/");
        } else {
            out.push_back("/" + s);
        }
        i = e;
    }
    string r;
    for (auto& s : out) r += s;
    return r;
}

// Section 5.2.2, strict.
parts target(const parts& base, const parts& ref)
{
    parts t;
    t.fragment = ref.fragment;
    if (ref.scheme) {
        t.scheme = ref.scheme;
        t.authority = ref.authority;
        t.path = removeDots(ref.path);
        t.query = ref.query;
        return t;
    }
    t.scheme = base.scheme;
    if (ref.authority) {
        t.authority = ref.authority;
        t.path = removeDots(ref.path);
        t.query = ref.query;
        return t;
    }
    t.authority = base.authority;
    if (ref.path.empty()) {
        t.path = base.path;
        t.query = ref.query ? ref.query : base.query;
        return t;
    }
    t.query = ref.query;
    if (ref.path[0] == '/') {
        t.path = removeDots(ref.path);
    } else {
        string m;
        if (base.authority && base.path.empty()) {
            m = "/" + ref.path;
        } else {
            const auto k = base.path.rfind('/');
            m = (k == string::npos ? string() : base.path.substr(0, k + 1)) + ref.path;
        }
        t.path = removeDots(m);
    }
    return t;
}

void resolveOne(const string& baseText, const string& refText)
{
    bool u1 = false, u2 = false;
    const auto b = split(baseText, u1);
    const auto f = split(refText, u2);
    if (!b || !f || u1 || u2) return;
    const cosim::uri base(baseText), ref(refText);
    vh::evaluated();
    std::optional<cosim::uri> res;
    const auto err = thrown([&] { res.emplace(cosim::resolve_reference(base, ref)); });
    if (!b->scheme) {
        vh::count("relative_bases_rejected");
        VH_CHECK(err == "invalid_argument", "relative-base-accepted", "resolving ", esc(refText), " against ", esc(baseText), ": ",
            err.empty() ? "got " + esc(string(res->view())) : err);
        return;
    }
    const auto want = target(*b, *f);
    VH_CHECK(err.empty(), "resolution-failed", "resolving ", esc(refText), " against ", esc(baseText), " (", esc(compose(want)), "): ", err);
    VH_CHECK(res->view() == compose(want), "resolved-wrong", "resolving ", esc(refText), " against ", esc(baseText), ": expected ",
        esc(compose(want)), ", got ", esc(string(res->view())));
    if (!ambiguous(want)) {
        VH_CHECK(eq(get(*res), want), "resolved-components", "resolving ", esc(refText), " against ", esc(baseText), ": expected ",
            show(want), ", got ", show(get(*res)));
    }
    VH_CHECK(base.view() == baseText && ref.view() == refText, "changed-arguments", "resolving changed its arguments");
    vh::count("resolved");
    if (f->path.find('.') != string::npos) vh::count("resolved_with_dots");
    if (!f->scheme && !f->authority && !f->path.empty() && f->path[0] != '/') vh::count("resolved_by_merging");
}

const char* const rfcExamples[][2] = {
    {"g:h", "g:h"}, {"g", "http://a/b/c/g"}, {"./g", "http://a/b/c/g"}, {"g/", "http://a/b/c/g/"}, {"/g", "http://a/g"},
    {"//g", "http://g"}, {"?y", "http://a/b/c/d;p?y"}, {"g?y", "http://a/b/c/g?y"}, {"#s", "http://a/b/c/d;p?q#s"},
    {"g#s", "http://a/b/c/g#s"}, {"g?y#s", "http://a/b/c/g?y#s"}, {";x", "http://a/b/c/;x"}, {"g;x", "http://a/b/c/g;x"},
    {"g;x?y#s", "http://a/b/c/g;x?y#s"}, {"", "http://a/b/c/d;p?q"}, {".", "http://a/b/c/"}, {"./", "http://a/b/c/"},
    {"..", "http://a/b/"}, {"../", "http://a/b/"}, {"../g", "http://a/b/g"}, {"../..", "http://a/"}, {"../../", "http://a/"},
    {"../../g", "http://a/g"}, {"../../../g", "http://a/g"}, {"../../../../g", "http://a/g"}, {"/./g", "http://a/g"},
    {"/../g", "http://a/g"}, {"g.", "http://a/b/c/g."}, {".g", "http://a/b/c/.g"}, {"g..", "http://a/b/c/g.."},
    {"..g", "http://a/b/c/..g"}, {"./../g", "http://a/b/g"}, {"./g/.", "http://a/b/c/g/"}, {"g/./h", "http://a/b/c/g/h"},
    {"g/../h", "http://a/b/c/h"}, {"g;x=1/./y", "http://a/b/c/g;x=1/y"}, {"g;x=1/../y", "http://a/b/c/y"},
    {"g?y/./x", "http://a/b/c/g?y/./x"}, {"g?y/../x", "http://a/b/c/g?y/../x"}, {"g#s/./x", "http://a/b/c/g#s/./x"},
    {"g#s/../x", "http://a/b/c/g#s/../x"}, {"http:g", "http:g"}};

} // namespace

VH_PROP(C17)
{
    const int slices = 32;
    if (caseIndex < slices) {
        if (caseIndex == 0) {
            // the model itself, against the RFC's own examples
            bool u = false;
            for (auto& e : rfcExamples) {
                const auto t = target(*split("http://a/b/c/d;p?q", u), *split(e[0], u));
                if (compose(t) != e[1]) vh::harness_error(string("model is wrong on ") + e[0]);
                resolveOne("http://a/b/c/d;p?q", e[0]);
            }
        }
        // all paths over a few segments, on a few bases
        static const char* const pieces[] = {"a", "..", ".", "/", "..a", "?", "#"};
        static const char* const bases[] = {"s:", "s:/", "s:x", "s:x/y", "s:/x/y/", "s://h", "s://h/", "s://h/x/y?q#f", "s:..", "s:/../x//y", "s:x/../y", "s://"};
        const int maxLen = vh::thorough() ? 7 : 5;
        for (int len = 0; len <= maxLen; ++len) {
            long long total = 1;
            for (int i = 0; i < len; ++i) total *= 7;
            for (long long k = caseIndex; k < total; k += slices) {
                string s;
                auto x = k;
                for (int i = 0; i < len; ++i) {
                    s += pieces[x % 7];
                    x /= 7;
                }
                for (auto* b : bases) {
                    resolveOne(b, s);
                    if (len <= 4) resolveOne("s:" + s, b + 2);
                }
            }
        }
        vh::count("exhaustive_slices");
        vh::distinct(vh::hash_str(vh::cat("slice", caseIndex)));
        return;
    }
    for (int i = 0; i < 100; ++i) {
        const auto b = grammarUri(rng, rng.chance(92));
        const auto f = grammarUri(rng, false, rng.chance(85));
        resolveOne(compose(b), compose(f));
        auto sh = shape(f, 1) ^ (shape(b, 2) * 31);
        vh::distinct(sh);
        if (i == 0 && caseIndex < slices + 3) vh::sample(compose(b) + " + " + compose(f));
    }
}

namespace
{
bool unreserved(unsigned char c) { return alpha(static_cast<char>(c)) || digit(static_cast<char>(c)) || c == '-' || c == '_' || c == '.' || c == '~'; }

int hexv(char c)
{
    if (digit(c)) return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

string encodeModel(const string& s, const string& exempt)
{
    static const char* H = "0123456789ABCDEF";
    string o;
    for (unsigned char c : s) {
        if (unreserved(c) || (c && exempt.find(static_cast<char>(c)) != string::npos)) o += static_cast<char>(c);
        else { o += '%'; o += H[c >> 4]; o += H[c & 15]; }
    }
    return o;
}

std::optional<string> decodeModel(const string& s)
{
    string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            const int a = hexv(s[i + 1]), b = hexv(s[i + 2]);
            if (a < 0 || b < 0) return std::nullopt;
            o += static_cast<char>(a * 16 + b);
            i += 2;
        } else {
            o += s[i];
        }
    }
    return o;
}

string lower(string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
    return s;
}

// Exact heap copies, so that reading one byte too far is noticed.
struct exact
{
    std::vector<char> v;
    std::string_view sv() const { return {v.data(), v.size()}; }
    explicit exact(const string& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
};

string bytes(rng& r, int maxLen)
{
    string s;
    const auto n = r.range(0, r.chance(3) ? maxLen * 100 : maxLen);
    const auto mode = r.range(0, 3);
    for (int i = 0; i < n; ++i) {
        if (mode == 0) s += static_cast<char>(r.range(0, 255));
        else if (mode == 1) s += "abz09-._~%/+@:&= "[r.range(0, 16)];
        else if (mode == 2) s += r.chance(50) ? "%" : string(1, "0123456789abcdefABCDEFgG%"[r.range(0, 24)]);
        else s += r.chance(80) ? string(1, static_cast<char>(r.range(32, 126))) : string("\xc3\xa6");
    }
    return s;
}

void decodeOne(const string& s)
{
    const auto want = decodeModel(s);
    exact e(s);
    opt got;
    string err;
    try {
        got = cosim::percent_decode(e.sv());
    } catch (const std::exception& x) {
        err = x.what();
        if (err.empty()) err = "(no text)";
    }
    vh::evaluated();
    if (!want) {
        vh::count("bad_triplets_rejected");
        VH_CHECK(!got, "bad-triplet-accepted", "decoding ", esc(s), " gave ", esc(got));
    } else {
        vh::count("decoded");
        VH_CHECK(got && *got == *want, "decoded-wrong", "decoding ", esc(s), ": expected ", esc(*want), ", got ", esc(got), " ", err);
    }
}

} // namespace

VH_PROP(C18)
{
    if (caseIndex < 32) {
        // all byte pairs after a percent sign, and all short strings over a few characters
        for (int a = static_cast<int>(caseIndex); a < 256; a += 32) {
            for (int b = 0; b < 256; ++b) {
                decodeOne(string("%") + static_cast<char>(a) + static_cast<char>(b));
                if (b % 16 == 3) decodeOne(string("x%") + static_cast<char>(a) + static_cast<char>(b) + "y");
            }
            const string one(1, static_cast<char>(a));
            const auto e = cosim::percent_encode(exact(one).sv());
            VH_CHECK(lower(e) == lower(encodeModel(one, "")), "encoded-wrong", "encoding ", esc(one), " gave ", esc(e));
            vh::evaluated();
        }
        static const char al[] = {'%', '4', 'F', 'g', 'b', 'x'};
        for (int len = 0; len <= 6; ++len) {
            long long total = 1;
            for (int i = 0; i < len; ++i) total *= 6;
            for (long long k = caseIndex; k < total; k += 32) {
                string s;
                auto x = k;
                for (int i = 0; i < len; ++i) {
                    s += al[x % 6];
                    x /= 6;
                }
                decodeOne(s);
            }
        }
        vh::distinct(vh::hash_str(vh::cat("slice", caseIndex)));
        return;
    }
    for (int i = 0; i < 40; ++i) {
        const auto s = bytes(rng, 30);
        // encoding
        string exempt;
        if (rng.chance(60)) {
            const auto n = rng.range(0, 8);
            for (int k = 0; k < n; ++k) {
                const char c = static_cast<char>(rng.chance(70) ? rng.range(33, 126) : rng.range(1, 255));
                if (c != '%') exempt += c;
            }
        }
        exact e(s);
        const bool null = exempt.empty() && rng.chance(50);
        const auto enc = null ? cosim::percent_encode(e.sv()) : cosim::percent_encode(e.sv(), exempt.c_str());
        vh::evaluated();
        VH_CHECK(lower(enc) == lower(encodeModel(s, exempt)), "encoded-wrong", "encoding ", esc(s), " except ", esc(exempt), ": expected ",
            esc(encodeModel(s, exempt)), ", got ", esc(enc));
        const auto back = cosim::percent_decode(exact(enc).sv());
        VH_CHECK(back == s, "round-trip", esc(s), " -> ", esc(enc), " -> ", esc(back));
        vh::count("round_trips");
        vh::distinct(vh::hash_str(s + "|" + exempt));
        if (i == 0 && caseIndex < 35) vh::sample(esc(s) + " -> " + enc);
        decodeOne(s);
        decodeOne(bytes(rng, 6));

        // composing from unencoded components
        {
            parts p;
            if (rng.chance(70)) p.scheme = rng.chance(80) ? string("http") : string("a+b-c.d");
            if (rng.chance(60)) p.authority = bytes(rng, 8);
            p.path = bytes(rng, 12);
            if (p.authority && !p.path.empty() && p.path[0] != '/') p.path = "/" + p.path;
            if (!p.authority) while (p.path.compare(0, 2, "//") == 0) p.path = p.path.substr(1);
            if (rng.chance(50)) p.query = bytes(rng, 8);
            if (rng.chance(50)) p.fragment = bytes(rng, 8);
            const auto u = cosim::percent_encode_uri(sv(p.scheme), sv(p.authority), p.path, sv(p.query), sv(p.fragment));
            // ... and through text
            const cosim::uri v{string(u.view())};
            for (const cosim::uri* w : {&u, &v}) {
                const auto g = get(*w);
                auto dec = [](const opt& o) { return o ? opt(cosim::percent_decode(*o)) : opt(); };
                const parts d{g.scheme, dec(g.authority), cosim::percent_decode(g.path), dec(g.query), dec(g.fragment)};
                VH_CHECK(eq(d, p), "encode-uri", "percent_encode_uri(", show(p), ") gave ", esc(string(w->view())), " which reads ", show(d));
            }
            const parts want{p.scheme, p.authority ? opt(encodeModel(*p.authority, "@:+")) : opt(), encodeModel(p.path, "/+"),
                p.query ? opt(encodeModel(*p.query, "=&;/:+")) : opt(), p.fragment ? opt(encodeModel(*p.fragment, "")) : opt()};
            VH_CHECK(lower(compose(want)) == lower(string(u.view())), "encode-uri-text", "percent_encode_uri(", show(p), "): expected ", esc(compose(want)),
                ", got ", esc(string(u.view())));
            vh::count("uris_encoded");
            vh::evaluated();
        }

        // file URIs
        {
            string path;
            if (!rng.chance(5)) {
                const auto n = rng.range(0, 4);
                path = "/";
                for (int k = 0; k < n; ++k) {
                    auto c = bytes(rng, 8);
                    for (auto& ch : c)
                        if (ch == 0) ch = 'x';
                    path += c + (rng.chance(85) || k + 1 < n ? "/" : "");
                }
            }
            const auto u = cosim::path_to_file_uri(cosim::filesystem::path(path));
            vh::evaluated();
            if (path.empty()) {
                VH_CHECK(u.view() == "file:", "empty-path", "the empty path gave ", esc(string(u.view())));
            } else {
                VH_CHECK(u.scheme() == std::optional<std::string_view>("file") && u.authority() && u.authority()->empty() && !u.query() && !u.fragment(),
                    "file-uri", esc(path), " gave ", esc(string(u.view())));
                for (unsigned char c : string(u.view())) VH_CHECK(c > 32 && c < 127, "file-uri-chars", esc(path), " gave ", esc(string(u.view())));
                const auto re = cosim::uri(string(u.view()));
                VH_CHECK(eq(get(re), get(u)), "file-uri-reparsed", esc(path), ": ", show(get(u)), " reparsed as ", show(get(re)));
                const auto p = cosim::file_uri_to_path(re).string();
                VH_CHECK(p == path, "path-round-trip", esc(path), " -> ", esc(string(u.view())), " -> ", esc(p));
                const auto lp = cosim::file_uri_to_path(cosim::uri(std::string_view("file"), std::string_view("localhost"), u.path())).string();
                VH_CHECK(lp == path, "path-localhost", esc(path), " on localhost -> ", esc(lp));
                vh::count("paths");
            }
            // things that aren't local file URIs
            static const std::vector<std::pair<string, string>> heads = {
                {"http", "//"}, {"http", "//localhost"}, {"files", "//"}, {"fil", "//"}, {"file", "//remote"}, {"file", "//localhost:80"},
                {"file", "//localhos"}, {"file", "//localhosts"}, {"file", "//127.0.0.1"}, {"file", "//a@localhost"}, {"file", ""}, {"", "//"}, {"", "//localhost"}};
            const auto& h = heads[static_cast<std::size_t>(rng.range(0, static_cast<long long>(heads.size()) - 1))];
            if (path.compare(0, 2, "//") != 0) {
                const cosim::uri bad((h.first.empty() ? "" : h.first + ":") + h.second + string(cosim::percent_encode(path, "/+")));
                bool threw = false;
                string got;
                try {
                    got = cosim::file_uri_to_path(bad).string();
                } catch (const std::exception&) {
                    threw = true;
                }
                vh::count("non_file_uris");
                VH_CHECK(threw, "non-file-uri-accepted", esc(string(bad.view())), " gave the path ", esc(got));
            }
        }
        // relative paths aren't accepted
        if (rng.chance(30)) {
            auto c = bytes(rng, 8);
            for (auto& ch : c)
                if (ch == 0) ch = 'x';
            if (!c.empty() && c[0] != '/') {
                bool threw = false;
                try {
                    cosim::path_to_file_uri(cosim::filesystem::path(c));
                } catch (const std::exception&) {
                    threw = true;
                }
                VH_CHECK(threw, "relative-path-accepted", "path_to_file_uri accepted ", esc(c));
                vh::count("relative_paths_rejected");
            }
        }
    }
}


// C32, URIs
VH_PROP(C32U)
{
    (void)caseIndex;
    static const std::vector<string> seeds = {"", "http://user:pw@example.com:8080/a/b/../c?x=1&y=%20#frag", "file:///C:/Users/x%20y/z.fmu", "file://localhost/tmp/a", "file:relative", "proxyfmu://localhost?file=models/m.fmu",
        "urn:isbn:12345", "//host/path", "../../a/b?c#d", "?q", "#f", "a:b:c", "mailto:x@y", "fmu-proxy://[::1]:9090/?guid={abc}", "x://%41%zz%", ":", "/:", "http://", "http:///", "file:////a//b/./../c/.."};
    for (int k = 0; k < 60; ++k) {
        auto t = [&] {
            string s = rng.chance(60) ? rng.pick(seeds) : compose(grammarUri(rng, false));
            if (rng.chance(10)) s = string(static_cast<std::size_t>(rng.range(0, 40)), ' ');
            const auto n = rng.range(0, 4);
            for (int i = 0; i < n; ++i) {
                const auto at = static_cast<std::size_t>(rng.range(0, static_cast<long long>(s.size())));
                switch (rng.range(0, 5)) {
                    case 0: s.insert(at, 1, static_cast<char>(rng.range(0, 255))); break;
                    case 1: s.insert(at, 1, ":/?#%[]@.\\ "[rng.range(0, 10)]); break;
                    case 2:
                        if (at < s.size()) s.erase(at, static_cast<std::size_t>(rng.range(1, 4)));
                        break;
                    case 3: s.resize(at); break;
                    case 4: s.insert(at, rng.pick(vh::odd_values())); break;
                    default: s.insert(at, rng.pick(seeds));
                }
            }
            if (rng.chance(1)) s = string(static_cast<std::size_t>(rng.range(1000, 20000)), "/.%a:"[rng.range(0, 4)]);
            return s;
        };
        // on the heap, without room to spare
        const auto a = t(), b = t();
        vh::context(vh::jesc(a) + "  " + vh::jesc(b));
        vh::distinct(vh::hash_str(a));
        std::unique_ptr<char[]> buf(new char[a.size()]);
        std::copy(a.begin(), a.end(), buf.get());
        const std::string_view v(buf.get(), a.size());
        std::optional<cosim::uri> u, w;
        vh::survives("URI", [&] { u.emplace(string(v)); });
        vh::survives("URI", [&] { w.emplace(b); });
        vh::survives("percent-decoding", [&] { cosim::percent_decode(v); });
        vh::survives("percent-encoding", [&] { cosim::percent_encode(v, rng.chance(50) ? "/:" : nullptr); });
        if (u) {
            vh::survives("path of a file URI", [&] { cosim::file_uri_to_path(*u); });
            if (w) vh::survives("resolving", [&] { cosim::resolve_reference(*u, *w); });
        }
        vh::survives("file URI from a path", [&] { cosim::path_to_file_uri(cosim::filesystem::path(b)); });
        vh::survives("composing", [&] { cosim::uri(rng.chance(70) ? string("http") : a.substr(0, 5), rng.chance(50) ? std::optional<string>("host") : b, rng.chance(50) ? "/p/q" : a, b, a); });
        vh::survives("encoding a URI", [&] { cosim::percent_encode_uri(rng.chance(70) ? string("http") : a.substr(0, 5), b, rng.chance(50) ? "/" + a : a, b, a); });
    }
}
