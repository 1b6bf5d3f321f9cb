#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/histogram.hpp>
using namespace vif; using namespace orc;
typedef std::vector<double> D;
static const double NaN = dnan;
static bool inb(double x, const vec2d& b, uint_t i) { return x >= b(0,i) && x < b(1,i); }
static void one(const D& v, const vec2d& b) {
    uint_t nb = b.dims[1]; vec1d a = mk<double>(v); vec1u e(nb); std::vector<std::vector<uint_t>> pos(nb);
    for (uint_t i = 0; i < nb; ++i) for (uint_t k = 0; k < v.size(); ++k) if (inb(v[k], b, i)) { ++e[i]; pos[i].push_back(k); }
    cur("histogram", a, b); nontrivial(); check(e, histogram(a, b)); check(mk<double>(v).size(), a.size());
    for (uint_t k = 0; k < v.size(); ++k) check_true(v[k] == a[k] || v[k] != v[k], "data unchanged");
    vec1d w(v.size()); vec<1,int> wi(v.size()); for (uint_t k = 0; k < v.size(); ++k) wi[k] = w[k] = 1 << (k % 20); vec1d ew(nb); for (uint_t i = 0; i < nb; ++i) for (auto k : pos[i]) ew[i] += w[k];
    cur("histogram weight", a, b); auto h = histogram(a, w, b); check(ew, h); auto hi = histogram(a, wi, b); for (uint_t i = 0; i < nb; ++i) check(int(ew[i]), hi[i]);
    cur("histogram func", a, b); std::vector<std::vector<uint_t>> got(nb); std::vector<int> calls(nb, 0);
    histogram(a, b, [&](uint_t i, vec1u ids) { check_true(i < nb, "bin index"); if (i < nb) { ++calls[i]; got[i].insert(got[i].end(), ids.begin(), ids.end()); } });
    for (uint_t i = 0; i < nb; ++i) { std::sort(got[i].begin(), got[i].end()); check_true(got[i] == pos[i], "positions in bin " + std::to_string(i)); check_true(calls[i] <= 1, "called once"); }
    for (uint_t i = 0; i < nb; ++i) { cur("in_bin", a, b, i); auto r = in_bin(a, b, i); check(v.size(), r.size()); vec1d s = b(_,i); auto r1 = in_bin(a, s); for (uint_t k = 0; k < v.size(); ++k) { check(inb(v[k], b, i), bool(r[k])); check(inb(v[k], b, i), bool(r1[k])); check(inb(v[k], b, i), in_bin(v[k], b, i)); check(inb(v[k], b, i), in_bin(v[k], s)); } }
    if (nb > 1) for (uint_t i = 0; i < nb; ++i) { cur("in_bin_open", a, b, i); auto r = in_bin_open(a, b, i); for (uint_t k = 0; k < v.size(); ++k) { bool ex = (i == 0 || v[k] >= b(0,i)) && (i == nb-1 || v[k] < b(1,i)) && v[k] == v[k]; check(ex, bool(r[k])); check(ex, in_bin_open(v[k], b, i)); } }
}
TEST(exhaustive) {
    vec2d b1 = make_bins_from_edges(vec1d{0, 1, 2, 3}), b2(2, 2), b3(2, 0), b4 = make_bins(0.0, 1.0); b2(0,0) = 0; b2(1,0) = 1; b2(0,1) = 2; b2(1,1) = 3;
    all_upto<double>(thorough ? 5 : 4, {-1, 0, 0.5, 1, 2, 3, NaN}, [&](const D& v) { one(v, b1); one(v, b2); one(v, b3); one(v, b4); });
}
TEST(random) { for (int it = 0; it < 1500; ++it) { D v(rnd(0, 60)); for (auto& x : v) x = rnd(0, 9) ? rnd(-20, 60)*0.5 : NaN; vec1d ed; double x = rnd(-5, 5); uint_t n = rnd(2, 10); for (uint_t i = 0; i < n; ++i) { ed.push_back(x); x += rnd(1, 6)*0.5; } one(v, make_bins_from_edges(ed)); } }
TEST(gaps) { for (int it = 0; it < 800; ++it) { D v(rnd(0, 30)); for (auto& x : v) x = rnd(-5, 40)*0.5; uint_t n = rnd(1, 6); vec2d b(2, n); double x = rnd(-5, 5); for (uint_t i = 0; i < n; ++i) { b(0,i) = x; x += rnd(1, 4)*0.5; b(1,i) = x; x += rnd(0, 2)*0.5; } one(v, b);
    if (n > 1) { vec2d r = b; for (uint_t i = 0; i < n; ++i) { r(0,i) = b(0,n-1-i); r(1,i) = b(1,n-1-i); } D u(v); vec1d a = mk<double>(v); vec1u h = histogram(a, b), g = histogram(a, r); cur("histogram reversed bins", a, r); for (uint_t i = 0; i < n; ++i) check(h[i], g[n-1-i]); } } }
TEST(two_dim) {
    for (int it = 0; it < 1500; ++it) {
        uint_t n = rnd(0, 12); D x(n), y(n); for (auto& q : x) q = rnd(0, 8) ? rnd(-1, 5) : NaN; for (auto& q : y) q = rnd(0, 8) ? rnd(-1, 5) : NaN;
        auto bx = make_bins_from_edges(vec1d{0, 1, 2, 4}); auto by = make_bins_from_edges(vec1d{0, 3, 4}); vec1d a = mk<double>(x), b = mk<double>(y); cur("histogram2d", a, b); nontrivial();
        vec2u e(3, 2); std::vector<std::vector<uint_t>> pos(6), got(6); for (uint_t i = 0; i < 3; ++i) for (uint_t j = 0; j < 2; ++j) for (uint_t k = 0; k < n; ++k) if (inb(x[k], bx, i) && inb(y[k], by, j)) { ++e(i,j); pos[i*2+j].push_back(k); }
        auto h = histogram2d(a, b, bx, by); check(uint_t(3), h.dims[0]); check(uint_t(2), h.dims[1]); for (uint_t i = 0; i < 6; ++i) check(e.safe[i], h.safe[i]);
        histogram2d(a, b, bx, by, [&](uint_t i, uint_t j, vec1u ids) { check_true(i < 3 && j < 2, "bin"); auto& g = got[i*2+j]; g.insert(g.end(), ids.begin(), ids.end()); });
        for (uint_t i = 0; i < 6; ++i) { std::sort(got[i].begin(), got[i].end()); check_true(got[i] == pos[i], "positions"); }
        vec2d m = mkd<2,double>({{n, 1}}, x); check(histogram(a, bx), histogram(m, bx));
    }
}
TEST(bins) {
    for (uint_t n = 1; n < 40; ++n) for (int lo = -3; lo < 3; ++lo) for (double w : {0.1, 1.0, 7.3}) {
        auto b = make_bins(double(lo), lo+w, n); cur("make_bins", lo, w, n); nontrivial(); check(uint_t(2), b.dims[0]); check(n, b.dims[1]); check(double(lo), b(0,0)); check_true(std::abs(b(1,n-1) - (lo+w)) < 1e-12, "covers the interval");
        for (uint_t i = 0; i < n; ++i) { check_true(b(0,i) < b(1,i), "increasing"); if (i) check(b(1,i-1), b(0,i)); check_true(std::abs(b(1,i)-b(0,i)-w/n) < 1e-12, "equal widths"); }
    }
    for (uint_t n = 2; n < 12; ++n) {
        vec1d ed; double x = -2; for (uint_t i = 0; i < n; ++i) { ed.push_back(x); x += rnd(1, 5); }
        auto b = make_bins_from_edges(ed); cur("make_bins_from_edges", ed); nontrivial(); check(n-1, b.dims[1]); for (uint_t i = 0; i+1 < n; ++i) { check(ed[i], b(0,i)); check(ed[i+1], b(1,i)); }
        auto c = make_bins_from_centers(ed); cur("make_bins_from_centers", ed); check(n, c.dims[1]); check(ed[0] - 0.5*(ed[1]-ed[0]), c(0,0)); check(ed[n-1] + 0.5*(ed[n-1]-ed[n-2]), c(1,n-1));
        for (uint_t i = 0; i < n; ++i) { if (i) { check(c(1,i-1), c(0,i)); check(0.5*(ed[i-1]+ed[i]), c(0,i)); } check_true(c(0,i) < ed[i] && ed[i] < c(1,i), "center inside"); }
        auto ce = bin_center(b); auto wi = bin_width(b); cur("bin_center/width", b); for (uint_t i = 0; i+1 < n; ++i) { check(0.5*(ed[i]+ed[i+1]), ce[i]); check(ed[i+1]-ed[i], wi[i]); vec1d s = b(_,i); check(ce[i], bin_center(s)); check(wi[i], bin_width(s)); }
    }
    vec1d s1(1), s0; cur("bins errors"); must_raise([&]{ make_bins_from_edges(s1); }); must_raise([&]{ make_bins_from_edges(s0); }); must_raise([&]{ make_bins_from_centers(s1); });
    vec2d bad(3, 2), ok(2, 2); vec1d d(3), w(4); must_raise([&]{ histogram(d, bad); }); must_raise([&]{ histogram(d, w, ok); }); must_raise([&]{ in_bin(d, bad, 0); }); must_raise([&]{ in_bin(d, ok, 2); }); must_raise([&]{ in_bin(1.0, ok, 2); }); must_raise([&]{ histogram2d(d, w, ok, ok); }); must_raise([&]{ histogram(d, bad, [](uint_t, vec1u) {}); }); must_raise([&]{ bin_center(bad); }); must_raise([&]{ bin_width(bad); });
}
TEST(cumulative) {
    all_upto<double>(5, {-1, 0, 2, 5}, [](const D& v) {
        vec1d a = mk<double>(v); vec<1,int> ai(v.size()); for (uint_t i = 0; i < v.size(); ++i) ai[i] = v[i]; cur("cumul", a); nontrivial(); auto c = cumul(a), r = cumul_reverse(a); auto ci = cumul(ai), ri = cumul_reverse(ai); check(v.size(), c.size()); check(v.size(), r.size());
        for (uint_t i = 0; i < v.size(); ++i) { double s = 0, t = 0; for (uint_t k = 0; k <= i; ++k) s += v[k]; for (uint_t k = i; k < v.size(); ++k) t += v[k]; check(s, c[i]); check(t, r[i]); check(int(s), ci[i]); check(int(t), ri[i]); }
    });
}
ORACLE_MAIN
