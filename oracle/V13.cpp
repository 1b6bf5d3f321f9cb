#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
using namespace vif; using namespace orc;
typedef std::string S; typedef std::vector<S> VS;
static bool at(const S& s, const S& t, std::size_t q) { if (q + t.size() > s.size()) return false; for (std::size_t k = 0; k < t.size(); ++k) if (s[q+k] != t[k]) return false; return true; }
static std::size_t first(const S& s, const S& t, std::size_t q = 0) { for (; q + t.size() <= s.size(); ++q) if (at(s, t, q)) return q; return npos; }
static bool in(char c, const S& t) { for (char d : t) if (c == d) return true; return false; }
static S sub(const S& s, std::size_t b, std::size_t e) { S r; for (; b < e && b < s.size(); ++b) r.push_back(s[b]); return r; }
static S rep(const S& s, const S& p, const S& r) { S o; if (p.empty()) return s; for (std::size_t i = 0; i < s.size();) { if (at(s, p, i)) { o += r; i += p.size(); } else o.push_back(s[i++]); } return o; }
static S trm(const S& s, const S& c) { std::size_t b = 0, e = s.size(); while (b < e && in(s[b], c)) ++b; while (e > b && in(s[e-1], c)) --e; return sub(s, b, e); }
static VS words(const S& s, const S& c) { VS r; S w; for (char x : s) { if (in(x, c)) { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(x); } if (!w.empty()) r.push_back(w); return r; }
static VS spl(const S& s, const S& p) { VS r; S w; for (std::size_t i = 0; i < s.size();) { if (!p.empty() && at(s, p, i)) { r.push_back(w); w.clear(); i += p.size(); } else w.push_back(s[i++]); } r.push_back(w); return r; }
static S join(const VS& v, const S& sep) { S r; for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }
static void strs(std::size_t n, const S& alpha, const std::function<void(const S&)>& f) { all_strings(n, alpha, f); }
static std::size_t L() { return thorough ? 7 : 6; }
TEST(find) { strs(L(), "ab", [](const S& s) { strs(3, "ab", [&](const S& t) { cur("find", s, t); nontrivial(); check(uint_t(first(s, t)), uint_t(find(s, t))); }); });
    strs(3, "ab", [](const S& s) { cur("find char*", s); check(uint_t(first(s, "ba")), uint_t(find(s, "ba"))); vec1s v = {s, "ab", ""}; vec1u r = find(v, "b"); check(uint_t(3), r.size()); check(uint_t(first(s, "b")), r[0]); check(uint_t(1), r[1]); check(uint_t(npos), r[2]); }); }
TEST(prefix) { strs(L(), "ab", [](const S& s) { strs(3, "ab", [&](const S& t) { bool b = at(s, t, 0), e = s.size() >= t.size() && at(s, t, s.size() - t.size());
    cur("begins_with", s, t); nontrivial(); check(b, begins_with(s, t)); cur("ends_with", s, t); check(e, ends_with(s, t));
    cur("erase_begin", s, t); if (b) check(sub(s, t.size(), s.size()), erase_begin(s, t)); else must_raise([&] { erase_begin(s, t); });
    cur("erase_end", s, t); if (e) check(sub(s, 0, s.size() - t.size()), erase_end(s, t)); else must_raise([&] { erase_end(s, t); });
    vec1s v = {s, "ba"}; cur("vectorised prefix", s, t); vec1b x = begins_with(v, t), y = ends_with(v, t); check(b, bool(x[0])); check(e, bool(y[0])); check(at("ba", t, 0), bool(x[1])); }); }); }
TEST(lengths) { strs(L(), "ab", [](const S& s) { cur("length", s); nontrivial(); check(uint_t(s.size()), uint_t(length(s))); check(s.size() == 0, empty(s));
    for (uint_t n : {0ul, 1ul, 2ul, 3ul, 5ul, 6ul, 7ul, 8ul, 100ul, ~0ul}) { uint_t m = std::min<uint_t>(n, s.size()); cur("keep/erase n", s, n);
        check(sub(s, 0, m), keep_first(s, n)); check(sub(s, s.size() - m, s.size()), keep_last(s, n)); check(sub(s, m, s.size()), erase_begin(s, n)); check(sub(s, 0, s.size() - m), erase_end(s, n)); }
    vec1s v = {s, "", "abcdef"}; cur("vectorised", s); vec1u l = length(v); check(uint_t(s.size()), l[0]); check(uint_t(0), l[1]); check(uint_t(6), l[2]); vec1s k = keep_first(v, 2), q = keep_last(v, 2), e = erase_begin(v, 1u); check(sub(s, 0, 2), k[0]); check(S(""), k[1]); check(S("ab"), k[2]); check(S("ef"), q[2]); check(S("bcdef"), e[2]);
    check(sub(s, 0, 1), keep_first(s)); check(sub(s, s.size() ? s.size()-1 : 0, s.size()), keep_last(s)); });
    strs(4, "ab", [](const S& s) { strs(4, "ab", [&](const S& t) { std::size_t m = std::min(s.size(), t.size()), d = std::max(s.size(), t.size()) - m; for (std::size_t i = 0; i < m; ++i) d += s[i] != t[i]; cur("distance", s, t); check(uint_t(d), uint_t(distance(s, t))); }); }); }
TEST(replace) { strs(L(), "ab", [](const S& s) { strs(3, "ab", [&](const S& t) { for (S r : {S(""), S("a"), S("b"), S("ab"), S("ba"), S("aab"), S("bbbb"), S("c")}) { cur("replace", s, t, r); nontrivial(); check(rep(s, t, r), replace(s, t, r)); } }); });
    strs(4, "ab", [](const S& s) { vec1s v = {s, "aba", ""}; cur("replace vec", v); vec1s r = replace(v, "a", "xa"); check(rep(s, "a", "xa"), r[0]); check(S("xabxa"), r[1]); check(S(""), r[2]); }); }
TEST(trim) { strs(L(), " \tx", [](const S& s) { cur("trim", s); nontrivial(); check(trm(s, " \t\n\r"), trim(s)); check(trm(s, " "), trim(s, " ")); check(trm(s, "x"), trim(s, "x")); check(trm(s, "x "), trim(s, "x ")); check(s, trim(s, "")); });
    for (S c : {S(" "), S("\t"), S("\n"), S("\r")}) { cur("trim default", c); check(S("a b"), trim(c + "a b" + c)); } vec1s v = {" a", "b ", ""}; vec1s r = trim(v); check(S("a"), r[0]); check(S("b"), r[1]); check(S(""), r[2]); }
TEST(words) { strs(L(), " ;a", [](const S& s) { for (S c : {S(" "), S(";"), S(" ;"), S("a")}) { VS w = words(s, c); cur("split_any_of", s, c); nontrivial(); vec1s r = split_any_of(s, c); check_inv(r); check(w, plain(r));
    for (int n = -4; n <= 4; ++n) { cur("get_word", s, n, c); long k = n < 0 ? long(w.size()) + n : n; if (k < 0 || k >= long(w.size())) must_raise([&] { get_word(s, n, c); }); else check(w[k], get_word(s, n, c)); } } }); }
TEST(split) { strs(L() + 1, "ab", [](const S& s) { strs(3, "ab", [&](const S& t) { cur("split", s, t); nontrivial(); vec1s r = split(s, t); check_inv(r); check(spl(s, t), plain(r)); check(s, collapse(r, t)); for (auto& p : plain(r)) check_true(t.empty() || first(p, t) == npos, "no separator in " + p); }); });
    strs(4, "a,", [](const S& s) { cur("split char*", s); check(spl(s, ","), plain(split(s, ","))); }); }
TEST(collapse) { all_upto<S>(4, {"", "a", "bc"}, [](const VS& v) { vec1s a = mk<S>(v); cur("collapse", a); nontrivial(); check(join(v, ""), collapse(a)); check(join(v, ","), collapse(a, ",")); check(join(v, "--"), collapse(a, "--")); check(join(v, ""), collapse(a, ""));
    if (v.size() == 4) { vec2s b = mkd<2,S>({{2, 2}}, v); check(join(v, "/"), collapse(b, "/")); } vec1u id; for (uint_t i = v.size(); i-- > 0;) id.push_back(i); VS w(v.rbegin(), v.rend()); cur("collapse view", a); check(join(w, "+"), collapse(a[id], "+")); check(join(w, ""), collapse(a[id])); }); }
TEST(cut) { strs(L() + 1, "ab", [](const S& s) { for (uint_t n = 1; n <= 9; ++n) { cur("cut", s, n); nontrivial(); VS e; for (std::size_t i = 0; i < s.size(); i += n) e.push_back(sub(s, i, i + n)); vec1s r = cut(s, n); check_inv(r); check(e, plain(r)); } });
    for (uint_t len = 0; len < 60; ++len) { S s; for (uint_t i = 0; i < len; ++i) s.push_back('A' + i % 50); for (uint_t n : {1ul, 7ul, 16ul, 59ul, 60ul, 1000ul, ~0ul}) { cur("cut", s, n); VS e; for (std::size_t i = 0; i < s.size(); i += std::min<uint_t>(n, 1000)) e.push_back(sub(s, i, i + std::min<uint_t>(n, 1000))); check(e, plain(cut(s, n))); } } }
TEST(wrap) { strs(thorough ? 9 : 8, " a", [](const S& s) { for (uint_t w = 1; w <= 6; ++w) for (uint_t ind = 0; ind <= 2 && ind < w; ++ind) { S h(ind, '>'); cur("wrap", s, w, h); nontrivial(); vec1s r = wrap(s, w, h); check_inv(r); VS all;
    for (uint_t i = 0; i < r.size(); ++i) { S l = r[i]; if (i) { check_true(at(l, h, 0), "indented line " + l); l = sub(l, h.size(), l.size()); } VS ws = words(l, " "); check_true(r[i].size() <= w || words(trm(l, " "), " ").size() <= 1, "line within the width: '" + r[i] + "'"); all.insert(all.end(), ws.begin(), ws.end()); }
    check(words(s, " "), all); if (s.size() <= w) check(s.empty() ? VS{} : VS{s}, plain(r));
    if (w >= 4 + ind) { cur("wrap ellipse", s, w, h); vec1s e = wrap(s, w, h, true); check_inv(e); for (uint_t i = 0; i < e.size(); ++i) check_true(e[i].size() <= w, "line within the width: '" + e[i] + "'"); } } }); }
TEST(case_) { for (int c = -128; c < 128; ++c) { S s = {char(c), 'a', char(c), 'Z'}; cur("to_upper/lower", c); nontrivial(); auto U = [](char x) { return x >= 'a' && x <= 'z' ? char(x - 32) : x; }; auto Lo = [](char x) { return x >= 'A' && x <= 'Z' ? char(x + 32) : x; };
    S u = s, l = s; for (auto& x : u) x = U(x); for (auto& x : l) x = Lo(x); check(u, to_upper(s)); check(l, to_lower(s)); check(U(char(c)), to_upper(char(c))); check(Lo(char(c)), to_lower(char(c))); vec1s v = {s, "", "aB"}; check(u, to_upper(v)[0]); check(S("AB"), to_upper(v)[2]); check(S("ab"), to_lower(v)[2]); } check(S(""), to_upper(S(""))); }
TEST(align) { strs(5, "ab", [](const S& s) { for (uint_t w = 0; w <= 9; ++w) for (char f : {' ', '.'}) { uint_t p = w > s.size() ? w - s.size() : 0; cur("align", s, w, f); nontrivial(); check(s + S(p, f), align_left(s, w, f)); check(S(p, f) + s, align_right(s, w, f)); check(S(p/2, f) + s + S(p - p/2, f), align_center(s, w, f)); }
    vec1s v = {s, "a", "abcdef"}; cur("align vec", v); vec1s l = align_left(v, 4), r = align_right(v, 4, '.'), c = align_center(v, 4); check(S("a   "), l[1]); check(S("abcdef"), l[2]); check(S("...a"), r[1]); check(S(" a  "), c[1]); check(s.size() < 4 ? s + S(4 - s.size(), ' ') : s, l[0]); }); }
TEST(blocks) { auto conv = [](S x) { return "<" + x + ">"; }; auto convs = [](vec1s x) { return "<" + collapse(x, "|") + ">"; };
    for (auto be : std::vector<std::pair<S,S>>{{"(", ")"}, {"((", "))"}, {"(", "("}, {"", ")"}, {"()", ""}, {"(", "))"}}) strs(L() + 1, "(a)", [&](const S& s) { const S& b = be.first; const S& e = be.second; S o; bool bad = false; std::size_t i = 0;
        while (true) { std::size_t p = first(s, b, i); if (p == npos) { o += sub(s, i, s.size()); break; } o += sub(s, i, p); p += b.size(); std::size_t q = first(s, e, p); if (q == npos) { bad = true; break; } o += conv(sub(s, p, q)); i = q + e.size(); }
        cur("replace_block", s, b, e); nontrivial(); if (bad) must_raise([&] { replace_block(s, b, e, conv); }); else check(o, replace_block(s, b, e, conv)); });
    for (auto bse : std::vector<std::array<S,3>>{{{"(", ",", ")"}}, {{"(", ",,", ")"}}, {{"((", ",", ")"}}, {{"(", ",", "))"}}}) strs(L() + 1, "(,)", [&](const S& s) { const S& b = bse[0]; const S& sp = bse[1]; const S& e = bse[2]; S o; bool bad = false; std::size_t i = 0;
        while (true) { std::size_t p = first(s, b, i); if (p == npos) { o += sub(s, i, s.size()); break; } o += sub(s, i, p); p += b.size(); std::size_t q = first(s, e, p); if (q == npos) { bad = true; break; } o += "<" + join(spl(sub(s, p, q), sp), "|") + ">"; i = q + e.size(); }
        cur("replace_blocks", s, b, sp, e); nontrivial(); if (bad) must_raise([&] { replace_blocks(s, b, sp, e, convs); }); else check(o, replace_blocks(s, b, sp, e, convs)); }); }
ORACLE_MAIN
