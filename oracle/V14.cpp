#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/io/filesystem.hpp>
using namespace vif; using namespace orc; typedef std::string S;
static S trimmed(const S& s) { std::size_t b = 0, e = s.size(); auto bl = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }; while (b < e && bl(s[b])) ++b; while (e > b && bl(s[e-1])) --e; return S(s.begin() + b, s.begin() + e); }
// components: (directory, name); the trailing blanks and separators of a directory path are not part of its name
static std::pair<S,S> parts(const S& s) {
    S t = s; while (!t.empty() && t.back() == ' ') t.pop_back();
    if (!t.empty() && t.back() == '/') { while (!t.empty() && t.back() == '/') t.pop_back(); if (t.empty()) return {"/", "/"}; } else t = s;
    S d, n; for (char c : t) { n.push_back(c); if (c == '/') { d += n; n.clear(); } } return {d.empty() ? S("./") : d, n}; }
static void one(const S& s) {
    auto p = parts(s); cur("get_basename", s); nontrivial(); check(p.second, file::get_basename(s)); cur("get_directory", s); check(p.first, file::get_directory(s));
    S d = file::get_directory(s), b = file::get_basename(s); check_true(!d.empty() && d.back() == '/', "directory ends with a separator"); check_true(b == "/" || b.find('/') == S::npos, "no separator in the base name");
    if (s.find_first_not_of(" /") != S::npos && s.find(' ') == S::npos) { cur("recompose", s); check(b, file::get_basename(d + b)); check(d, file::get_directory(d + b)); }
    cur("directorize", s); S t = trimmed(s), z = t; if (!t.empty() && t.back() != '/') z += '/'; check(z, file::directorize(s)); check(z, file::directorize(z));
    cur("is_absolute_path", s); S u = s; std::size_t k = 0; while (k < u.size() && (u[k] == ' ' || u[k] == '\t')) ++k; check(k < u.size() && u[k] == '/', file::is_absolute_path(s));
    std::size_t dot = S::npos; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '.') dot = i; S r, e; for (std::size_t i = 0; i < s.size(); ++i) (i < dot ? r : e).push_back(s[i]);
    cur("extension", s); check(r, file::remove_extension(s)); check(e, file::get_extension(s)); auto x = file::split_extension(s); check(r, x.first); check(e, x.second); check(s, file::remove_extension(s) + file::get_extension(s));
    vec1s v = {s, "a/b.c", s}; cur("vectorised", v); vec1s w = file::get_basename(v), y = file::get_directory(v), q = file::get_extension(v), m = file::remove_extension(v), o = file::directorize(v); vec1b ab = file::is_absolute_path(v); check(p.second, w[2]); check(p.first, y[2]); check(e, q[2]); check(r, m[2]); check(z, o[2]); check(S("b.c"), w[1]); check(S("a/"), y[1]); check(S(".c"), q[1]); check(S("a/b"), m[1]); check(bool(ab[0]), bool(ab[2]));
}
TEST(exhaustive) { all_strings(thorough ? 8 : 7, "/a. ", one); }
TEST(tabs) { all_strings(5, "/a\t\n", [](const S& s) { one(s); }); }
ORACLE_MAIN
