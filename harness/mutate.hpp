// Mutations of text and binary documents.
#pragma once
#include "vh.hpp"

#include <string>
#include <vector>

namespace vh
{
inline std::size_t any_pos(rng& r, const std::string& s) { return static_cast<std::size_t>(r.range(0, static_cast<long long>(s.size()))); }

inline const std::vector<std::string>& odd_values()
{
    static const std::vector<std::string> v = {"", "0", "-1", "1", "-0", "1e308", "1e400", "-1e19", "1e19", "9.3e9", "1e-320", "nan", "NaN", "inf", "INF", "-inf", "2147483648", "-2147483649",
        "9223372036854775808", "99999999999999999999999", "0x10", "1.5", "1,5", " 1 ", "+3", "true", "false", "True", "1e", "e5", ".", "..", "../..", "/", "//", "%", "%4", "%zz", "%00", ":", "::", "a:b", "?", "#",
        "[", "]", "{", "}", "{}", "[]", "null", "~", "Real", "Integer", "Boolean", "String", "Enumeration", "output", "input", "parameter", "file:", "file://", "file:///", "http://x/y", "&lt;", "&amp;", "&#0;", "&#xD800;", "&bogus;",
        "<!-- ", " -->", "<![CDATA[", "]]>", "<?x ?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "xmlns=\"\"", "xmlns:ssd=\"x\"", "xmlns", "\xff", "\xc3", "\xed\xa0\x80", "\xef\xbb\xbf", "\xef\xbf\xbf", "\xf0\x9f\x98\x80", std::string(1, '\0'), "\r\n", "\t", "\x01",
        "&a", "*a", "!!binary x", "!!int a", "<<: *a", "- ", "? ", "---\n", "...\n", "%YAML 9.9\n", "|\n", ">\n", "\"", "'", "\\u0000", "\\x", "\\uD800"};
    return v;
}

// Tag, attribute and token boundaries.
inline std::string mutate_once(rng& r, std::string s, const std::string& other, bool valuesOnly)
{
    auto span = [&](long long maxLen) {
        const auto a = any_pos(r, s);
        const auto n = static_cast<std::size_t>(r.range(0, maxLen));
        return std::pair<std::size_t, std::size_t>(a, std::min(n, s.size() - a));
    };
    auto find_from = [&](const char* set) {
        if (s.empty()) return std::string::npos;
        auto p = s.find_first_of(set, any_pos(r, s));
        return p == std::string::npos ? s.find_first_of(set) : p;
    };
    switch (valuesOnly ? r.range(8, 11) : r.range(0, 17)) {
        case 0: // a byte
            if (!s.empty()) s[any_pos(r, s) % s.size()] = static_cast<char>(r.range(0, 255));
            break;
        case 1: // a bit
            if (!s.empty()) s[any_pos(r, s) % s.size()] ^= static_cast<char>(1 << r.range(0, 7));
            break;
        case 2: {
            const auto [a, n] = span(r.chance(80) ? 10 : 400);
            s.erase(a, n);
            break;
        }
        case 3: {
            const auto [a, n] = span(r.chance(80) ? 40 : 600);
            const auto t = s.substr(a, n);
            s.insert(any_pos(r, s), t);
            break;
        }
        case 4: {
            const auto [a, n] = span(30);
            auto t = s.substr(a, n), u = std::string();
            const auto k = r.range(1, 40);
            for (int i = 0; i < k; ++i) u += t;
            s.insert(a, u);
            break;
        }
        case 5: {
            const auto [a, n] = span(60);
            if (!other.empty()) {
                const auto b = any_pos(r, other);
                s.replace(a, n, other.substr(b, static_cast<std::size_t>(r.range(0, 200))));
            }
            break;
        }
        case 6: s = s.substr(0, any_pos(r, s)); break;
        case 7: s.insert(any_pos(r, s), r.pick(odd_values())); break;
        case 8:
        case 9: { // another value between quotes
            const auto a = find_from("\"'");
            if (a == std::string::npos) break;
            const auto b = s.find(s[a], a + 1);
            if (b == std::string::npos) break;
            s.replace(a + 1, b - a - 1, r.pick(odd_values()));
            break;
        }
        case 10:
        case 11: { // another number
            const auto a = find_from("0123456789");
            if (a == std::string::npos) break;
            auto b = a;
            while (b < s.size() && std::strchr("0123456789.eE+-", s[b]) && s[b]) ++b;
            s.replace(a, b - a, r.pick(odd_values()));
            break;
        }
        case 12: { // a tag less
            const auto a = find_from("<");
            if (a == std::string::npos) break;
            const auto b = s.find('>', a);
            if (b != std::string::npos) s.erase(a, b - a + 1);
            break;
        }
        case 13: { // a tag more
            const auto a = find_from("<");
            if (a == std::string::npos) break;
            const auto b = s.find('>', a);
            if (b == std::string::npos) break;
            const auto t = s.substr(a, b - a + 1);
            const auto c = find_from("<");
            s.insert(c, t);
            break;
        }
        case 14: { // an attribute less
            const auto a = s.find(' ', any_pos(r, s));
            if (a == std::string::npos) break;
            const auto q = s.find('"', a);
            if (q == std::string::npos) break;
            const auto e = s.find('"', q + 1);
            if (e != std::string::npos && s.substr(a, q - a).find_first_of("<>\n") == std::string::npos) s.erase(a, e - a + 1);
            break;
        }
        case 15: { // exchange two quoted strings
            const auto a = find_from("\""), b = find_from("\"");
            if (a == std::string::npos || b == std::string::npos) break;
            const auto ae = s.find('"', a + 1), be = s.find('"', b + 1);
            if (ae == std::string::npos || be == std::string::npos || !(ae < b)) break;
            const auto x = s.substr(a, ae - a), y = s.substr(b, be - b);
            s.replace(b, be - b, x);
            s.replace(a, ae - a, y);
            break;
        }
        case 16: { // remove an element with all it contains
            const auto a = find_from("<");
            if (a == std::string::npos || a + 1 >= s.size()) break;
            auto e = a + 1;
            while (e < s.size() && !std::strchr(" />\n", s[e])) ++e;
            const auto close = s.find("</" + s.substr(a + 1, e - a - 1), e);
            if (close == std::string::npos) break;
            const auto b = s.find('>', close);
            if (b == std::string::npos) break;
            if (r.chance(50)) {
                const auto t = s.substr(a, b - a + 1); // (or move it)
                s.erase(a, b - a + 1);
                if (r.chance(50) && !s.empty()) s.insert(find_from("<") == std::string::npos ? 0 : find_from("<"), t);
            } else
                s.erase(a, b - a + 1);
            break;
        }
        default: {
            if (r.chance(90)) break;
            if (r.chance(50)) { // other encodings
                std::string u = r.chance(50) ? "\xff\xfe" : "";
                for (const char c : s) {
                    u += c;
                    u += '\0';
                }
                s = u;
            } else
                s = r.chance(50) ? std::string() : std::string(static_cast<std::size_t>(r.range(1, 3000)), static_cast<char>(r.range(0, 255)));
        }
    }
    return s;
}

inline std::string mutate(rng& r, const std::string& doc, const std::string& other = {})
{
    auto s = doc;
    const auto n = r.chance(60) ? r.range(1, 2) : r.range(1, 8);
    const bool valuesOnly = r.chance(30);
    for (int i = 0; i < n; ++i) s = mutate_once(r, std::move(s), other.empty() ? doc : other, valuesOnly);
    if (s.size() > 200000) s.resize(200000);
    return s;
}

// Runs `f`, which may succeed or throw a standard exception.
template<typename F>
bool survives(const char* what, F f)
{
    evaluated();
    try {
        f();
        count(std::string("accepted:") + what);
        return true;
    } catch (const failed&) {
        throw;
    } catch (const std::exception&) {
        count(std::string("rejected:") + what);
    } catch (...) {
        throw failed(std::string("odd-exception:") + what, "an exception was thrown that isn't a std::exception");
    }
    return false;
}
} // namespace vh
