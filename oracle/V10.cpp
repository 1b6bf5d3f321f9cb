#include "oracle.hpp"
#include <vif/utility/generic.hpp>
using namespace vif; using namespace orc;
typedef std::vector<uint_t> P;
template<std::size_t D> P split(const std::array<uint_t,D>& d, uint_t i) { P r(D); for (std::size_t j = D; j-- > 0;) { r[j] = i % d[j]; i /= d[j]; } return r; }
template<std::size_t D> void conv(const std::array<uint_t,D>& d) {
    vec<D,int> v(d); uint_t n = prod(d); vec1u all; for (uint_t i = 0; i < n; ++i) all.push_back(n - 1 - i); cur("mult_ids of a list", d, all);
    if (n) { vec2u m = mult_ids(v, all), m2 = mult_ids(d, all); check_inv(m); check(m, m2); check(std::array<uint_t,2>{{D, n}}, m.dims); for (uint_t i = 0; i < n; ++i) { P e = split(d, all.data[i]); for (std::size_t j = 0; j < D; ++j) check(e[j], m.data[j*n + i]); } }
    for (uint_t i = 0; i < n; ++i) { cur("mult_ids", d, i); nontrivial(); P e = split(d, i); vec1u r = mult_ids(v, i); check(e, plain(r)); check(e, plain(mult_ids(d, i))); check(uint_t(D), uint_t(r.size()));
        cur("flat_id of a list", d, e); check(i, uint_t(flat_id(v, r))); check(i, uint_t(flat_id(d, r))); vec<1,int> s; for (uint_t x : e) s.push_back(int(x)); check(i, uint_t(flat_id(v, s)));
        for (std::size_t j = 0; j < D; ++j) { vec1u x = r; x.data[j] = d[j]; must_raise([&]() { flat_id(v, x); }); vec<1,int> y = s; y.data[j] -= int(d[j]); check(i, uint_t(flat_id(v, y))); }
        { vec1u x = r; x.push_back(0); must_raise([&]() { flat_id(v, x); }); x = r; x.data.pop_back(); x.dims[0] -= 1; must_raise([&]() { flat_id(v, x); }); } }
}
TEST(conversions) { for (uint_t a = 0; a <= 6; ++a) { conv<1>({{a}}); for (uint_t b = 0; b <= 6; ++b) { conv<2>({{a, b}}); for (uint_t c = 0; c <= 4; ++c) { conv<3>({{a, b, c}}); if (a < 4 && b < 4) for (uint_t e = 1; e <= 3; ++e) conv<4>({{a, b, c, e}}); } } } }
TEST(separate_arguments) { for (uint_t a = 1; a <= 4; ++a) for (uint_t b = 1; b <= 4; ++b) for (uint_t c = 1; c <= 4; ++c) { vec<3,int> v(a, b, c); vec<2,int> w(a, b); vec<1,int> u(a); for (uint_t i = 0; i <= a; ++i) { if (i < a) check(i, uint_t(flat_id(u, i))); else must_raise([&]() { flat_id(u, i); }); for (uint_t j = 0; j <= b; ++j) { cur("flat_id", v.dims, i, j); if (i < a && j < b) { check(i*b + j, uint_t(flat_id(w, i, j))); check(i*b + j, uint_t(flat_id(w.dims, int(i) - int(a), int(j) - int(b)))); } else must_raise([&]() { flat_id(w, i, j); }); for (uint_t k = 0; k <= c; ++k) { nontrivial(); if (i < a && j < b && k < c) check((i*b + j)*c + k, uint_t(flat_id(v, i, j, k))); else must_raise([&]() { flat_id(v, i, j, k); }); } } } } }
TEST(large) { for (int r = 0; r < (thorough ? 20000 : 2000); ++r) { std::array<uint_t,3> d{{uint_t(rnd(1, 2000000)), uint_t(rnd(1, 2000000)), uint_t(rnd(1, 2000000))}}; uint_t n = prod(d), i = uint_t(rnd(0, long(n - 1))); cur("mult_ids / flat_id", d, i); nontrivial(); vec1u m = mult_ids(d, i); check(split(d, i), plain(m)); check(i, uint_t(flat_id(d, m))); check(i, uint_t(flat_id(d, m[0], m[1], m[2]))); vec1u l = {i, n - 1, 0}; vec2u mm = mult_ids(d, l); for (uint_t q = 0; q < 3; ++q) for (uint_t j = 0; j < 3; ++j) check(split(d, l.data[q])[j], mm.data[j*3 + q]); } }
void traverse(const P& n, bool scalar) { uint_t tot = 1; for (uint_t x : n) tot *= x; vec1u ids(n.size()), lim = mk(n); for (uint_t i = 0; i < 2*tot; ++i) { cur("increment_index_list", n, i); nontrivial(); P e(n.size()); uint_t q = i % tot; for (std::size_t j = n.size(); j-- > 0;) { e[j] = q % n[j]; q /= n[j]; } check(e, plain(ids)); if (scalar) increment_index_list(ids, n[0]); else increment_index_list(ids, lim); check(uint_t(n.size()), uint_t(ids.size())); check_inv(ids); check(n, plain(lim)); } }
TEST(increment) { all_upto<uint_t>(thorough ? 5 : 4, P{1, 2, 3, 4}, [](const P& n) { traverse(n, false); }); for (uint_t k = 1; k <= 4; ++k) for (uint_t m = 1; m <= 4; ++m) traverse(P(k, m), true); vec1u e; cur("increment_index_list of an empty list", e); increment_index_list(e, 3); check(P{}, plain(e)); traverse(P{70, 3}, false); }
ORACLE_MAIN
