#include "oracle.hpp"
using namespace vif; using namespace orc;
static const double nan_ = std::numeric_limits<double>::quiet_NaN(), inf_ = std::numeric_limits<double>::infinity();
template<typename T> static bool less_(const T& a, const T& b) { return a < b; }
static bool less_(double a, double b) { if (a != a) return false; if (b != b) return true; return a < b; }
template<typename T> static void sorted(const std::vector<T>& v) {
    vec<1,T> in = mk<T>(v); cur("sort", v); if (v.size() > 1) nontrivial();
    std::vector<uint_t> ids(v.size()); for (std::size_t i = 0; i < v.size(); ++i) ids[i] = i;
    // insertion sort: the definition of a stable ordering
    for (std::size_t i = 1; i < ids.size(); ++i) for (std::size_t j = i; j > 0 && less_(v[ids[j]], v[ids[j-1]]); --j) std::swap(ids[j], ids[j-1]);
    check(mk<uint_t>(ids), sort(in)); check(mk<T>(v), in);
    std::vector<T> e; for (auto i : ids) e.push_back(v[i]);
    bool srt = true; for (std::size_t i = 1; i < v.size(); ++i) if (less_(v[i], v[i-1])) srt = false;
    cur("is_sorted", v); check(srt, is_sorted(in));
    cur("inplace_sort", v); inplace_sort(in); check(mk<T>(e), in); check_true(is_sorted(in), "is_sorted after inplace_sort");
}
TEST(sort_int) { all_upto<int>(6, {-1, 0, 2, 5}, sorted<int>); }
TEST(sort_double) { all_upto<double>(5, {-inf_, -1.5, 0.0, 2.0, nan_, inf_}, sorted<double>); }
TEST(sort_string) { all_upto<std::string>(4, {"", "a", "ab", "b"}, sorted<std::string>); }
TEST(sort_random) {
    for (int it = 0; it < (thorough ? 3000 : 300); ++it) { std::size_t n = rnd(0, 150); int m = rnd(1, 60); std::vector<int> v(n); for (auto& x : v) x = rnd(-m, m); sorted(v);
        std::vector<double> d(n); for (auto& x : d) x = rnd(0, 9) == 0 ? nan_ : double(rnd(-m, m))/4; sorted(d); }
}
TEST(sort_comparator) {
    all_upto<int>(6, {0, 1, 2}, [](const std::vector<int>& v) {
        cur("sort(comp)", v); nontrivial(); vec<1,int> in = mk<int>(v); auto comp = [](int a, int b) { return a > b; };
        std::vector<uint_t> ids(v.size()); for (std::size_t i = 0; i < v.size(); ++i) ids[i] = i;
        for (std::size_t i = 1; i < ids.size(); ++i) for (std::size_t j = i; j > 0 && comp(v[ids[j]], v[ids[j-1]]); --j) std::swap(ids[j], ids[j-1]);
        check(mk<uint_t>(ids), sort(in, comp)); std::vector<int> e; for (auto i : ids) e.push_back(v[i]); inplace_sort(in, comp); check(mk<int>(e), in);
    });
}
TEST(sort_2d_view) {
    all_seq<int>(6, {0, 1, 2}, [](const std::vector<int>& v) {
        vec<2,int> m = mkd<2,int>({{2, 3}}, v); cur("sort(2d)", m); nontrivial(); check(sort(mk<int>(v)), sort(m)); check(is_sorted(mk<int>(v)), is_sorted(m));
        vec<1,int> a = mk<int>(v); vec1u id = {5, 4, 3, 2, 1, 0}; std::vector<int> r(v.rbegin(), v.rend()); cur("sort(view)", v); check(sort(mk<int>(r)), sort(a[id])); check(is_sorted(mk<int>(r)), is_sorted(a[id]));
    });
}
template<typename T, typename X> static void search(const std::vector<T>& v, X x) {
    uint_t lo = npos, up = npos, e0 = npos, e1 = npos;
    for (std::size_t i = 0; i < v.size(); ++i) { if (v[i] <= x) lo = i; if (up == npos && v[i] > x) up = i; if (v[i] == x) { if (e0 == npos) e0 = i; e1 = i; } }
    vec<1,T> in = mk<T>(v); if (!v.empty()) nontrivial();
    cur("lower_bound", v, x); check(lo, lower_bound(in, x)); cur("upper_bound", v, x); check(up, upper_bound(in, x));
    cur("bounds", v, x); auto b = bounds(in, x); check(lo, b[0]); check(up, b[1]);
    cur("equal_range", v, x); auto e = equal_range(in, x); check(e0, e[0]); check(e1, e[1]);
}
template<typename T, typename X> static void search2(const std::vector<T>& v, X x1, X x2) {
    uint_t lo = npos, up = npos; for (std::size_t i = 0; i < v.size(); ++i) { if (v[i] <= x1) lo = i; if (up == npos && v[i] > x2) up = i; }
    vec<1,T> in = mk<T>(v); cur("bounds(x1,x2)", v, x1, x2); auto b = bounds(in, x1, x2); check(lo, b[0]); check(up, b[1]);
}
TEST(search_int) { all_upto<int>(6, {0, 2, 4, 6}, [](std::vector<int> v) { for (std::size_t i = 1; i < v.size(); ++i) if (v[i] < v[i-1]) return; for (int x = -1; x <= 7; ++x) { search(v, x); for (int y = x; y <= 7; ++y) search2(v, x, y); } }); }
TEST(search_double) { for (int it = 0; it < 3000; ++it) { std::vector<double> v(rnd(0, 60)); for (auto& x : v) x = rnd(-20, 20)*0.25; std::sort(v.begin(), v.end()); double x = rnd(-90, 90)*0.0625; search(v, x); search2(v, x, x + rnd(0, 20)*0.125); } }
TEST(search_string) { all_upto<std::string>(4, {"a", "b", "c"}, [](std::vector<std::string> v) { for (std::size_t i = 1; i < v.size(); ++i) if (v[i] < v[i-1]) return; for (std::string x : {"", "a", "aa", "b", "bb", "c", "d"}) search(v, x); }); }
ORACLE_MAIN
