#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/astro/image.hpp>
using namespace vif; using namespace orc;
typedef vec<2,int> img_t;
static const int DEF = -7;
// expected image of given size: pixel (i,j) comes from source pixel f(i,j) if that lies in v, else DEF
template<typename T, typename F> static vec<2,T> from(const vec<2,T>& v, uint_t n, uint_t m, T def, F&& f) {
    std::vector<T> e; for (uint_t i = 0; i < n; ++i) for (uint_t j = 0; j < m; ++j) { std::pair<long,long> s = f(long(i), long(j));
        if (s.first >= 0 && s.second >= 0 && s.first < long(v.dims[0]) && s.second < long(v.dims[1])) e.push_back(v.data[s.first*v.dims[1]+s.second]); else e.push_back(def); }
    return mkd<2,T>({{n, m}}, e);
}
#define AT(a, b) [&](long i, long j) { return std::pair<long,long>(a, b); }
static long imod(long a, long n) { return n ? ((a % n) + n) % n : 0; }
template<typename F> static void sizes(uint_t mx, F&& f) { for (uint_t a = 0; a <= mx; ++a) for (uint_t b = 0; b <= mx; ++b) f(iota<2,int>({{a, b}})); }
static void t_enl(const img_t& v, std::array<uint_t,4> u) { cur("enlarge", v, u); nontrivial(); img_t c = v; check(from(v, v.dims[0]+u[0]+u[2], v.dims[1]+u[1]+u[3], DEF, AT(i-long(u[0]), j-long(u[1]))), astro::enlarge(v, u, DEF)); check(c, v); }
static void t_shr(const img_t& v, std::array<uint_t,4> u) { cur("shrink", v, u); nontrivial(); img_t c = v; img_t r = astro::shrink(v, u); check_inv(r); check(c, v);
    if (u[0]+u[2] >= v.dims[0] || u[1]+u[3] >= v.dims[1]) check_true(r.empty(), "an empty image"); else check(from(v, v.dims[0]-u[0]-u[2], v.dims[1]-u[1]-u[3], DEF, AT(i+long(u[0]), j+long(u[1]))), r); }
TEST(enlarge_shrink) {
    sizes(4, [](const img_t& v) { for (uint_t a = 0; a < 4; ++a) for (uint_t b = 0; b < 3; ++b) for (uint_t c = 0; c < 4; ++c) for (uint_t d = 0; d < 3; ++d) { t_enl(v, {{a,b,c,d}}); t_shr(v, {{a,b,c,d}}); }
        for (uint_t a = 0; a < 4; ++a) { cur("enlarge", v, a); check(astro::enlarge(v, std::array<uint_t,4>{{a,a,a,a}}, DEF), astro::enlarge(v, a, DEF)); cur("shrink", v, a); check(astro::shrink(v, std::array<uint_t,4>{{a,a,a,a}}), astro::shrink(v, a)); cur("enlarge default", v, a); check(astro::enlarge(v, a, 0), astro::enlarge(v, a)); } });
    for (int it = 0; it < 100; ++it) { img_t v = iota<2,int>({{uint_t(rnd(0, 30)), uint_t(rnd(0, 30))}}); std::array<uint_t,4> u{{uint_t(rnd(0, 20)), uint_t(rnd(0, 20)), uint_t(rnd(0, 20)), uint_t(rnd(0, 20))}}; t_enl(v, u); t_shr(v, u); }
}
TEST(flip) {
    sizes(7, [](const img_t& v) { long n = v.dims[0], m = v.dims[1]; img_t c = v; cur("flip_x", v); nontrivial(); check(from(v, n, m, DEF, AT(i, m-1-j)), astro::flip_x(v)); cur("flip_y", v); check(from(v, n, m, DEF, AT(n-1-i, j)), astro::flip_y(v)); check(c, v);
        cur("flip_x of a view", v); check(from(v, n, m, DEF, AT(i, m-1-j)), astro::flip_x(c(_,_))); cur("flip_y of a view", v); check(from(v, n, m, DEF, AT(n-1-i, j)), astro::flip_y(c(_,_))); check(c, v); });
}
static void t_sh(const img_t& v, long tx, long ty) {
    long n = v.dims[0], m = v.dims[1]; img_t c = v; cur("shift", v, tx, ty); nontrivial(); img_t e = from(v, n, m, DEF, AT(imod(i-tx, n), imod(j-ty, m))); check(e, astro::shift(v, tx, ty)); check(c, v); cur("inplace_shift", v, tx, ty); astro::inplace_shift(c, tx, ty); check(e, c);
}
static void t_tr(const img_t& v, long tx, long ty) {
    long n = v.dims[0], m = v.dims[1]; img_t c = v; cur("translate_integer", v, tx, ty); nontrivial(); img_t e = from(v, n, m, DEF, AT(i-tx, j-ty)); check(e, astro::translate_integer(v, tx, ty, DEF)); check(c, v); cur("inplace_translate_integer", v, tx, ty); astro::inplace_translate_integer(c, tx, ty, DEF); check(e, c);
    img_t w = v; cur("translate_integer of a view", v, tx, ty); check(e, astro::translate_integer(w(_,_), tx, ty, DEF)); check(v, w);
}
TEST(shift_translate) {
    sizes(4, [](const img_t& v) { for (long a = -9; a <= 9; ++a) for (long b = -9; b <= 9; ++b) { t_sh(v, a, b); t_tr(v, a, b); } t_tr(v, 1000000007L, -3); t_tr(v, 2, -(1L << 60)); t_sh(v, 1000000007L, -(1L << 60)); });
    for (int it = 0; it < 100; ++it) { img_t v = iota<2,int>({{uint_t(rnd(0, 20)), uint_t(rnd(0, 20))}}); t_sh(v, rnd(-50, 50), rnd(-50, 50)); t_tr(v, rnd(-25, 25), rnd(-25, 25)); }
}
static void t_sub(const img_t& v, long x0, long y0, long x1, long y1) {
    vec1i reg; reg.data = {x0, y0, x1, y1}; reg.dims[0] = 4; img_t c = v; cur("subregion (indices)", v, reg); nontrivial();
    std::vector<uint_t> a, b; for (long x = x0; x <= x1; ++x) for (long y = y0; y <= y1; ++y) if (x >= 0 && y >= 0 && x < long(v.dims[0]) && y < long(v.dims[1])) { a.push_back(x*v.dims[1]+y); b.push_back((x-x0)*(y1-y0+1)+(y-y0)); }
    vec1u rv = {1,2,3}, rr = {9}; astro::subregion(v, reg, rv, rr); check(mk<uint_t>(a), rv); check(mk<uint_t>(b), rr);
    if (x1 >= x0-1 && y1 >= y0-1) { cur("subregion (image)", v, reg); check(from(v, x1-x0+1, y1-y0+1, DEF, AT(i+x0, j+y0)), astro::subregion(v, reg, DEF)); }
    check(c, v);
}
static void t_rec(const img_t& v, long cy, long cx, uint_t n, uint_t m) { cur("recenter to dims", v, cy, cx, n, m); nontrivial(); img_t c = v; check(from(v, n, m, DEF, AT(i+cy-long(n)/2, j+cx-long(m)/2)), astro::recenter(v, cy, cx, {{n, m}}, DEF)); check(c, v); }
static void t_rec0(const img_t& v, long cy, long cx) { cur("recenter", v, cy, cx); nontrivial(); long n = v.dims[0], m = v.dims[1]; img_t c = v; check(from(v, n, m, DEF, AT(i+cy-n/2, j+cx-m/2)), astro::recenter(v, cy, cx, DEF)); check(c, v); }
TEST(regions) {
    sizes(3, [](const img_t& v) { for (long a = -4; a <= 5; ++a) for (long b = -4; b <= 5; ++b) for (long c = a-2; c <= 6; ++c) for (long d = b-2; d <= 6; ++d) t_sub(v, a, b, c, d); });
    for (int it = 0; it < 200; ++it) { img_t v = iota<2,int>({{uint_t(rnd(0, 20)), uint_t(rnd(0, 20))}}); long a = rnd(-30, 30), b = rnd(-30, 30); t_sub(v, a, b, a + rnd(0, 40), b + rnd(0, 40)); }
    cur("subregion of a 3-component region"); must_raise([]{ img_t v = iota<2,int>({{2, 2}}); vec1i r = {0,0,1}; vec1u x, y; astro::subregion(v, r, x, y); });
}
TEST(recentre) {
    sizes(4, [](const img_t& v) { for (long a = -7; a <= 9; ++a) for (long b = -7; b <= 9; ++b) { t_rec0(v, a, b); for (uint_t n = 0; n < 5; ++n) for (uint_t m = 0; m < 4; ++m) t_rec(v, a, b, n, m); } });
}
ORACLE_MAIN
