#include "oracle.hpp"
using namespace vif; using namespace orc;
// 0: names element p; 1: must raise; 2: below -extent, raises or reaches some element of the array
template<typename I> int named(I i, uint_t n, uint_t& p) { bool neg = i < I(0); __int128 v = i; if (!neg) { if (v >= (__int128)n) return 1; p = uint_t(v); return 0; } if (n == 0) return 1; if (-v > (__int128)n) return 2; p = uint_t((__int128)n + v); return 0; }
template<typename A, typename R, typename W> void one(A& all, int st, uint_t p, R&& read, W&& write) {
    // all: the container of the elements (1 to n); p: flat position in it
    nontrivial(); std::vector<int> e = plain(all);
    if (st == 1) { must_raise(read); must_raise(write); check(e, plain(all)); return; }
    if (st == 0) { check(e[p], read()); write(); e[p] = 999; check(e, plain(all)); all.data[p] = int(p + 1); return; }
    int r = 0; if (!raises([&]() { r = read(); })) check_true(r >= 1 && r <= int(e.size()), "an element of the array (reading)");
    if (!raises([&]() { write(); })) { uint_t ch = 0; auto g = plain(all); for (uint_t k = 0; k < e.size(); ++k) if (g[k] != e[k]) { ++ch; all.data[k] = e[k]; } check(uint_t(1), ch); check(e.size(), g.size()); }
    check_inv(all);
}
template<typename I> std::vector<I> idx(long n) { std::vector<I> r; long lo = std::max<long>(-3*n - 2, std::numeric_limits<I>::min()), hi = std::numeric_limits<I>::max() < 2*n + 2 ? long(std::numeric_limits<I>::max()) : 2*n + 2; if (std::is_unsigned<I>::value) lo = 0; for (long i = lo; i <= hi; ++i) r.push_back(I(i)); for (I x : {std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), I(std::numeric_limits<I>::max()/2), I(std::numeric_limits<I>::max()/2 + 1), I(std::numeric_limits<I>::min()/2)}) r.push_back(x); if (sizeof(I) == 8) { r.push_back(I(1ul << 32)); r.push_back(I((1ul << 32) + 1)); if (std::is_signed<I>::value) { r.push_back(I(-(1l << 32))); r.push_back(I(-(1l << 32) - 1)); r.push_back(I(-4294967295l)); } } return r; }
template<typename I> void flat(uint_t n) {
    vec<1,int> v = iota<1,int>({{n}}); const vec<1,int>& cv = v;
    for (I i : idx<I>(n)) { uint_t p = 0; int st = named(i, n, p);
        cur("v[i], n", n, sizeof(I), std::is_signed<I>::value, i); one(v, st, p, [&]() { return int(v[i]); }, [&]() { v[i] = 999; }); one(v, st, p, [&]() { return int(cv[i]); }, [&]() { v(i) = 999; });
        cur("view[i], n", n, sizeof(I), std::is_signed<I>::value, i); auto w = v[_]; const auto& cw = w; one(v, st, p, [&]() { return int(w[i]); }, [&]() { w[i] = 999; }); one(v, st, p, [&]() { return int(cw(i)); }, [&]() { w(i) = 999; }); }
}
TEST(flat_i64) { for (uint_t n = 0; n <= 6; ++n) flat<int_t>(n); }
TEST(flat_u64) { for (uint_t n = 0; n <= 6; ++n) flat<uint_t>(n); }
TEST(flat_i32) { for (uint_t n = 0; n <= 6; ++n) { flat<int>(n); flat<unsigned int>(n); } }
TEST(flat_i16) { for (uint_t n = 0; n <= 6; ++n) { flat<short>(n); flat<unsigned short>(n); } flat<short>(200); }
TEST(flat_i8) { for (uint_t n : {0, 1, 2, 5, 100, 127, 128, 129, 200, 255, 256, 257, 300}) { flat<signed char>(n); flat<unsigned char>(n); flat<char>(n); } }
TEST(flat_wide) { for (uint_t n : {32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000}) { vec<1,int> v = iota<1,int>({{n}}); for (long t = -32768; t <= 65535; t += (t < -32700 || (t > -40 && t < 40) || (t > 32700 && t < 32800) || t > 65500 ? 1 : 37)) { if (t < 32768) { short i = t; uint_t p = 0; int st = named(i, n, p); cur("v[i16], n", n, i); nontrivial(); if (st == 0) check(int(p + 1), int(v[i])); } if (t >= 0) { unsigned short i = t; uint_t p = 0; int st = named(i, n, p); cur("v[u16], n", n, i); if (st == 0) check(int(p + 1), int(v[i])); else if (st == 1) must_raise([&]() { return v[i]; }); } } } }
template<typename I, typename J> void two(uint_t n, uint_t m) {
    vec<2,int> v = iota<2,int>({{n, m}}); const vec<2,int>& cv = v; auto w = v(_, _); const auto& cw = w;
    for (I i : idx<I>(n)) for (J j : idx<J>(m)) { uint_t p = 0, q = 0; int a = named(i, n, p), b = named(j, m, q); int st = a == 1 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0; uint_t f = p*m + q;
        cur("v(i,j)", v.dims, i, j); one(v, st, f, [&]() { return int(v(i, j)); }, [&]() { v(i, j) = 999; }); one(v, st, f, [&]() { return int(cv(i, j)); }, [&]() { v(i, j) = 999; });
        cur("view(i,j)", v.dims, i, j); one(v, st, f, [&]() { return int(w(i, j)); }, [&]() { w(i, j) = 999; }); one(v, st, f, [&]() { return int(cw(i, j)); }, [&]() { w(i, j) = 999; }); }
    for (I i : idx<I>(n*m)) { uint_t p = 0; int st = named(i, n*m, p); cur("v2[i]", v.dims, i); one(v, st, p, [&]() { return int(v[i]); }, [&]() { v[i] = 999; }); one(v, st, p, [&]() { return int(cw[i]); }, [&]() { w[i] = 999; }); }
}
TEST(two_i64) { for (uint_t n = 0; n < 4; ++n) for (uint_t m = 0; m < 4; ++m) two<int_t,int_t>(n, m); }
TEST(two_mix) { for (uint_t n = 0; n < 4; ++n) for (uint_t m = 0; m < 4; ++m) { two<signed char,uint_t>(n, m); two<unsigned int,int>(n, m); two<uint_t,short>(n, m); } }
TEST(three) { for (uint_t n = 0; n < 4; ++n) for (uint_t m = 0; m < 4; ++m) for (uint_t l = 0; l < 4; ++l) { vec<3,int> v = iota<3,int>({{n, m, l}}); const vec<3,int>& cv = v; auto w = v(_, _, _);
    for (int i = -int(n) - 1; i <= int(n); ++i) for (int_t j = -int_t(m) - 1; j <= int_t(m); ++j) for (short k = -short(l) - 1; k <= short(l); ++k) { uint_t p = 0, q = 0, r = 0; int a = named(i, n, p), b = named(j, m, q), c = named(k, l, r); int st = a == 1 || b == 1 || c == 1 ? 1 : a == 2 || b == 2 || c == 2 ? 2 : 0; uint_t f = (p*m + q)*l + r;
        cur("v(i,j,k)", v.dims, i, j, k); one(v, st, f, [&]() { return int(cv(i, j, k)); }, [&]() { v(i, j, k) = 999; }); one(v, st, f, [&]() { return int(w(i, j, k)); }, [&]() { w(i, j, k) = 999; });
        if (i >= 0 && j >= 0 && k >= 0) { cur("v(u,u,u)", v.dims, i, j, k); one(v, st, f, [&]() { return int(v(uint_t(i), uint_t(j), uint_t(k))); }, [&]() { v(uint_t(i), uint_t(j), uint_t(k)) = 999; }); if (st == 0) one(v, 0, f, [&]() { return int(v.safe(uint_t(i), uint_t(j), uint_t(k))); }, [&]() { v.safe(uint_t(i), uint_t(j), uint_t(k)) = 999; }); } } } }
TEST(four) { for (uint_t n = 1; n < 3; ++n) for (uint_t m = 1; m < 4; ++m) for (uint_t l = 1; l < 3; ++l) for (uint_t h = 1; h < 4; ++h) { vec<4,int> v = iota<4,int>({{n, m, l, h}}); const vec<4,int>& cv = v;
    for (int_t i = -int_t(n); i <= int_t(n); ++i) for (int_t j = -int_t(m); j <= int_t(m); ++j) for (int_t k = -int_t(l); k <= int_t(l); ++k) for (int_t o = -int_t(h); o <= int_t(h); ++o) { uint_t p = 0, q = 0, r = 0, s = 0; int st = named(i, n, p) | named(j, m, q) | named(k, l, r) | named(o, h, s); uint_t f = ((p*m + q)*l + r)*h + s; cur("v(i,j,k,l)", v.dims, i, j, k, o); one(v, st, f, [&]() { return int(cv(i, j, k, o)); }, [&]() { v(i, j, k, o) = 999; }); } } }
TEST(types) { for (uint_t n = 0; n < 5; ++n) { vec1b b(n); vec1s s(n); for (int_t i = -int_t(n) - 2; i <= int_t(n) + 1; ++i) { uint_t p = 0; int st = named(i, n, p); cur("bool/string element", n, i); nontrivial();
    if (st == 1) { must_raise([&]() { b[i] = true; }); must_raise([&]() { s[i] = "x"; }); } else if (st == 0) { b[i] = true; for (uint_t k = 0; k < n; ++k) check(k == p, bool(b.data[k])); check(true, bool(b[i])); b[i] = false; check(false, bool(b.data[p])); s[i] = "x"; for (uint_t k = 0; k < n; ++k) check(std::string(k == p ? "x" : ""), s.data[k]); s.data[p] = ""; } }
    if (n) { vec<1,int> v = iota<1,int>({{n}}); cur("front/back", v); check(1, v.front()); check(int(n), v.back()); v.front() = 7; check(7, v.data[0]); v.back() = 8; check(8, v.data[n-1]); auto w = v[_]; check(int(n == 1 ? 8 : 7), int(w.front())); check(8, int(w.back())); } } }
ORACLE_MAIN
