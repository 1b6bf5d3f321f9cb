#include "oracle.hpp"
using namespace vif; using namespace orc;
template<typename T> static void uniq(const std::vector<T>& v) {
    std::map<T,uint_t> first; for (std::size_t i = 0; i < v.size(); ++i) first.insert({v[i], i});
    std::vector<uint_t> e; std::vector<T> ev; for (auto& p : first) { e.push_back(p.second); ev.push_back(p.first); }
    vec<1,T> in = mk<T>(v); cur("unique_ids", v); if (v.size() > 1) nontrivial(); check(mk<uint_t>(e), unique_ids(in)); check(mk<T>(v), in);
    cur("unique_values", v); check(mk<T>(ev), unique_values(in));
    cur("unique_ids(sorted ids)", v); check(mk<uint_t>(e), unique_ids(in, sort(in))); check(mk<T>(ev), unique_values(in, sort(in)));
    auto s = in; inplace_sort(s); cur("unique_ids_sorted", s); auto us = unique_ids_sorted(s); std::vector<T> g; uint_t prev = npos; bool firsts = true; for (auto i : us.data) { g.push_back(s.data[i]); if (i > 0 && s.data[i-1] == s.data[i]) firsts = false; (void)prev; } check(ev, g); check_true(firsts, "positions of first occurrences");
    check(mk<T>(ev), unique_values_sorted(s));
}
template<typename T> static void two(const std::vector<T>& a, const std::vector<T>& b) {
    vec<1,T> x = mk<T>(a), y = mk<T>(b); if (!a.empty() && !b.empty()) nontrivial();
    std::vector<bool> in; for (auto& t : a) in.push_back(std::find(b.begin(), b.end(), t) != b.end());
    cur("is_any_of", a, b); check(mk<bool>(in), is_any_of(x, y)); for (std::size_t i = 0; i < a.size(); ++i) check(bool(in[i]), is_any_of(a[i], y));
    std::vector<uint_t> i1, i2; for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) if (a[i] == b[j]) { i1.push_back(i); i2.push_back(j); break; }
    vec1u id1 = {7, 7}, id2; cur("match", a, b); match(x, y, id1, id2); check(mk<uint_t>(i1), id1); check(mk<uint_t>(i2), id2); check(mk<T>(a), x); check(mk<T>(b), y);
}
template<typename T> static void sets(const std::vector<T>& a, const std::vector<T>& b) {
    // multiset semantics: min and max of the multiplicities
    std::map<T,int> ca, cb, all; for (auto& t : a) { ca[t]++; all[t]; } for (auto& t : b) { cb[t]++; all[t]; }
    std::vector<T> is, un; for (auto& p : all) { for (int k = 0; k < std::min(ca[p.first], cb[p.first]); ++k) is.push_back(p.first); for (int k = 0; k < std::max(ca[p.first], cb[p.first]); ++k) un.push_back(p.first); }
    vec<1,T> x = mk<T>(a), y = mk<T>(b); nontrivial();
    cur("set_intersection", a, b); check(mk<T>(is), set_intersection(x, y)); check(mk<T>(a), x); cur("set_union", a, b); check(mk<T>(un), set_union(x, y));
    inplace_sort(x); inplace_sort(y); cur("set_intersection_sorted", x, y); check(mk<T>(is), set_intersection_sorted(x, y)); cur("set_union_sorted", x, y); check(mk<T>(un), set_union_sorted(x, y));
}
TEST(unique_small) { all_upto<int>(6, {3, 1, 2, 0}, uniq<int>); all_upto<std::string>(4, {"b", "a", ""}, uniq<std::string>); }
TEST(unique_random) { for (int it = 0; it < 300; ++it) { std::vector<int> v(rnd(0, 200)); int m = rnd(0, 80); for (auto& x : v) x = rnd(-m, m); uniq(v); } }
TEST(unique_2d) { all_seq<int>(6, {0, 1, 2}, [](const std::vector<int>& v) { vec<2,int> m = mkd<2,int>({{3, 2}}, v); cur("unique(2d)", m); nontrivial(); check(unique_ids(mk<int>(v)), unique_ids(m)); check(unique_values(mk<int>(v)), unique_values(m)); }); }
TEST(two_small) { std::vector<std::vector<int>> all; all_upto<int>(4, {0, 1, 2}, [&](const std::vector<int>& v) { all.push_back(v); }); for (auto& a : all) for (auto& b : all) { two(a, b); } }
TEST(sets_small) { std::vector<std::vector<int>> all; all_upto<int>(4, {0, 1, 2}, [&](const std::vector<int>& v) { all.push_back(v); }); for (auto& a : all) for (auto& b : all) sets(a, b); }
TEST(two_strings) { std::vector<std::vector<std::string>> all; all_upto<std::string>(3, {"", "a", "b"}, [&](const std::vector<std::string>& v) { all.push_back(v); }); for (auto& a : all) for (auto& b : all) two(a, b); }
TEST(two_random) { for (int it = 0; it < (thorough ? 2000 : 300); ++it) { std::vector<int> a(rnd(0, 180)), b(rnd(0, 180)); int m = rnd(1, 200); for (auto& x : a) x = rnd(-m, m); for (auto& x : b) x = rnd(-m, m); two(a, b); sets(a, b); } }
TEST(two_sizes) { // sizes around any algorithm switch, distinct values and duplicates
    for (std::size_t n : {1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130}) for (std::size_t k : {0, 1, 5, 63, 64, 65, 130}) {
        std::vector<int> a(n), b(k); for (std::size_t i = 0; i < n; ++i) a[i] = (i*7919) % 131; for (std::size_t i = 0; i < k; ++i) b[i] = (i*104729) % 131; two(a, b); two(b, a); sets(a, b);
        for (auto& x : a) x %= 10; two(a, b); two(b, a); sets(a, b); }
}
TEST(two_nan) { double q = std::numeric_limits<double>::quiet_NaN(); for (int it = 0; it < 200; ++it) { std::vector<double> a(rnd(0, 100)), b(rnd(0, 100)); for (auto& x : a) x = rnd(0, 3) ? rnd(0, 50) : q; for (auto& x : b) x = rnd(0, 3) ? rnd(0, 50) : q; two(a, b); } }
TEST(two_views) { all_upto<int>(5, {0, 1, 2}, [](const std::vector<int>& v) {
    vec<1,int> base = mk<int>(v); vec1u id; for (std::size_t i = 0; i < v.size(); ++i) id.push_back(v.size()-1-i); std::vector<int> r(v.rbegin(), v.rend()); vec<1,int> ref = {1, 2, 2};
    vec1u a1, a2, b1, b2; cur("match(view)", v); match(base[id], ref, a1, a2); match(mk<int>(r), ref, b1, b2); check(b1, a1); check(b2, a2); check(is_any_of(mk<int>(r), ref), is_any_of(base[id], ref)); check(unique_ids(mk<int>(r)), unique_ids(base[id]));
    cur("set(view)", v); check(set_union(mk<int>(r), ref), set_union(base[id], ref)); check(set_intersection(mk<int>(r), ref), set_intersection(base[id], ref)); check(mk<int>(v), base); }); }
ORACLE_MAIN
