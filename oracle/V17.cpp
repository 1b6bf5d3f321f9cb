#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/interpolate.hpp>
#include <vif/math/reduce.hpp>
using namespace vif; using namespace orc;
typedef std::vector<double> dv;
static void near(double e, double g) { if (!(std::abs(e - g) <= 1e-9*(1 + std::abs(e)))) { fail(show(e), show(g)); if (sh->nfail > 4) throw too_many(); } }
static uint_t seg(const dv& x, double t) { uint_t s = 0; while (s + 2 < x.size() && x[s+1] <= t) ++s; return s; }
static double lin(const dv& x, const dv& y, double t) { uint_t s = seg(x, t); return y[s] + (y[s+1] - y[s])*(t - x[s])/(x[s+1] - x[s]); }
// tables: increasing positions with irregular gaps, values with no pattern
template<typename F> static void tables(F&& f) {
    const double G[] = {1, 2, 0.5, 4}; const double Y[] = {3, -1, 7, 0, 11, -5};
    for (uint_t n = 2; n <= 5; ++n) { uint_t tot = 1; for (uint_t i = 1; i < n; ++i) tot *= 4;
        for (uint_t c = 0; c < tot; ++c) { dv x{c % 3 - 1.0}, y{Y[c % 6]}; uint_t d = c; for (uint_t i = 1; i < n; ++i) { x.push_back(x.back() + G[d % 4]); y.push_back(Y[(c + i*i) % 6]); d /= 4; } f(x, y); } }
}
static dv positions(const dv& x) { dv r{x[0] - 3, x[0] - 0.25, x.back() + 0.25, x.back() + 10}; for (uint_t i = 0; i < x.size(); ++i) { r.push_back(x[i]); if (i) { r.push_back(0.5*(x[i] + x[i-1])); r.push_back(x[i-1] + 0.125*(x[i] - x[i-1])); r.push_back(x[i] - 0.125*(x[i] - x[i-1])); } } return r; }
TEST(linear) {
    tables([](const dv& x, const dv& y) {
        dv p = positions(x); for (uint_t i = 0; i + 1 < p.size(); i += 2) std::swap(p[i], p[p.size()-1-i]);
        vec1d X = mk<double>(x), Y = mk<double>(y), P = mk<double>(p);
        cur("interpolate (vector)", Y, X, P); nontrivial(); vec1d r = interpolate(Y, X, P); check_inv(r); check(p.size(), r.data.size()); for (uint_t i = 0; i < p.size(); ++i) near(lin(x, y, p[i]), r.data[i]);
        for (uint_t i = 0; i < p.size(); ++i) { cur("interpolate (scalar)", Y, X, p[i]); near(lin(x, y, p[i]), interpolate(Y, X, p[i])); }
        for (uint_t i = 0; i < x.size(); ++i) { cur("interpolate at a tabulated position", Y, X, x[i]); check(y[i], double(interpolate(Y, X, x[i]))); }
        cur("interpolate (views)", Y, X, P); vec1d rv = interpolate(Y[_], X[_], P[_]); check(r, rv);
        vec1d E = 0.5 + abs(Y); cur("interpolate with errors", Y, E, X, P); auto q = interpolate(Y, E, X, P); check(p.size(), q.first.data.size()); check(p.size(), q.second.data.size());
        for (uint_t i = 0; i < p.size(); ++i) { near(lin(x, y, p[i]), q.first.data[i]); uint_t s = seg(x, p[i]); double a = (p[i] - x[s])/(x[s+1] - x[s]); near(std::sqrt(std::pow(E.data[s]*(1 - a), 2) + std::pow(E.data[s+1]*a, 2)), q.second.data[i]); }
    });
    cur("interpolate between two points"); near(2.5, interpolate(1, 3, 10, 14, 13)); near(-1, interpolate(1, 3, 10, 14, 6)); auto pe = interpolate_err(1, 3, 3, 4, 10, 14, 12); near(2, pe.first); near(2.5, pe.second);
    vec1d e, a = {1.0}, b = {1.0, 2.0}, c = {1.0, 2.0, 3.0};
    cur("interpolate in an empty table"); must_raise([&]{ interpolate(e, e, b); }); must_raise([&]{ interpolate(e, e, 1.0); }); cur("interpolate in a table of one point"); must_raise([&]{ interpolate(a, a, b); }); must_raise([&]{ interpolate(a, a, 1.0); });
    cur("interpolate with tables of different sizes"); must_raise([&]{ interpolate(b, c, b); }); must_raise([&]{ interpolate(c, b, 1.0); }); must_raise([&]{ interpolate(c, c, b, b); }); must_raise([&]{ interpolate(c, b, c, b); });
    cur("interpolate at no position"); check(uint_t(0), interpolate(b, b, e).size());
}
// natural cubic spline by direct solution of its defining equations
struct spline_t { dv x, y, m; spline_t(const dv& x_, const dv& y_) : x(x_), y(y_), m(x_.size(), 0.0) {
    uint_t n = x.size(); if (n < 3) return; uint_t k = n - 2; std::vector<dv> A(k, dv(k + 1, 0.0));
    for (uint_t i = 0; i < k; ++i) { double h0 = x[i+1]-x[i], h1 = x[i+2]-x[i+1]; A[i][i] = 2*(h0 + h1); if (i) A[i][i-1] = h0; if (i + 1 < k) A[i][i+1] = h1; A[i][k] = 6*((y[i+2]-y[i+1])/h1 - (y[i+1]-y[i])/h0); }
    for (uint_t i = 0; i < k; ++i) { for (uint_t j = i + 1; j < k; ++j) { double f = A[j][i]/A[i][i]; for (uint_t l = i; l <= k; ++l) A[j][l] -= f*A[i][l]; } }
    for (uint_t i = k; i-- > 0;) { double s = A[i][k]; for (uint_t l = i + 1; l < k; ++l) s -= A[i][l]*m[l+1]; m[i+1] = s/A[i][i]; } }
    double at(double t) const { uint_t n = x.size(); if (t < x[0]) return y[0] + der(0, x[0])*(t - x[0]); if (t > x[n-1]) return y[n-1] + der(n-2, x[n-1])*(t - x[n-1]);
        uint_t s = seg(x, t); double h = x[s+1]-x[s], a = (x[s+1]-t)/h, b = (t-x[s])/h; return a*y[s] + b*y[s+1] + ((a*a*a-a)*m[s] + (b*b*b-b)*m[s+1])*h*h/6; }
    double der(uint_t s, double t) const { double h = x[s+1]-x[s], a = (x[s+1]-t)/h, b = (t-x[s])/h; return (y[s+1]-y[s])/h - (3*a*a-1)/6*h*m[s] + (3*b*b-1)/6*h*m[s+1]; } };
TEST(spline) {
    tables([](const dv& x, const dv& y) {
        dv p = positions(x); vec1d X = mk<double>(x), Y = mk<double>(y), P = mk<double>(p); spline_t s(x, y);
        cur("interpolate_3spline", Y, X, P); nontrivial(); vec1d r = interpolate_3spline(Y, X, P); check(p.size(), r.data.size()); for (uint_t i = 0; i < p.size(); ++i) near(s.at(p[i]), r.data[i]);
        for (uint_t i = 0; i < p.size(); ++i) { cur("interpolate_3spline (scalar)", Y, X, p[i]); near(s.at(p[i]), interpolate_3spline(Y, X, p[i])); }
        dv l; for (double t : x) l.push_back(2*t - 1); cur("interpolate_3spline of a straight line", mk<double>(l), X, P); vec1d q = interpolate_3spline(mk<double>(l), X, P); for (uint_t i = 0; i < p.size(); ++i) near(2*p[i] - 1, q.data[i]);
        dv g; for (uint_t i = 0; i < x.size(); ++i) g.push_back(i); spline_t sg(g, y); dv pg = positions(g); cur("interpolate_3spline on a regular grid", Y, mk<double>(pg)); vec1d u = interpolate_3spline(Y, mk<double>(pg)); for (uint_t i = 0; i < pg.size(); ++i) near(sg.at(pg[i]), u.data[i]);
        for (uint_t i = 0; i < pg.size(); ++i) { cur("interpolate_3spline on a regular grid (scalar)", Y, pg[i]); near(sg.at(pg[i]), interpolate_3spline(Y, pg[i])); }
    });
    vec1d e, a = {1.0}, b = {1.0, 2.0}, c = {1.0, 2.0, 3.0}; cur("interpolate_3spline of too few points or different sizes"); must_raise([&]{ interpolate_3spline(a, a, b); }); must_raise([&]{ interpolate_3spline(e, e, b); }); must_raise([&]{ interpolate_3spline(b, c, b); }); must_raise([&]{ interpolate_3spline(a, b); });
}
TEST(bilinear_maps) {
    for (uint_t n = 2; n < 5; ++n) for (uint_t m = 2; m < 5; ++m) {
        std::vector<double> z; for (uint_t i = 0; i < n*m; ++i) z.push_back(double((i*i*7 + 3*i) % 11)); vec2d map = mkd<2,double>({{n, m}}, z); dv gx, gy; for (uint_t i = 0; i < n; ++i) gx.push_back(i); for (uint_t j = 0; j < m; ++j) gy.push_back(j);
        auto ref = [&](double x, double y) { uint_t s = seg(gx, x), t = seg(gy, y); double a = x - s, b = y - t; return z[s*m+t]*(1-a)*(1-b) + z[s*m+t+1]*(1-a)*b + z[(s+1)*m+t]*a*(1-b) + z[(s+1)*m+t+1]*a*b; };
        vec1d mx = 10.0 + 2.0*mk<double>(gx), my = mk<double>(gy)*0.5 - 1.0;
        for (double x : positions(gx)) for (double y : positions(gy)) { cur("bilinear", map, x, y); nontrivial(); near(ref(x, y), bilinear(map, x, y)); cur("bilinear (grid)", map, x, y); near(ref(x, y), bilinear(map, mx, my, 10 + 2*x, 0.5*y - 1));
            cur("bilinear_strict", map, x, y); bool in = x >= 0 && y >= 0 && x < n - 1.0 && y < m - 1.0; near(in ? ref(x, y) : -99.0, bilinear_strict(map, x, y, -99.0)); }
        dv px = positions(gx), py = positions(gy); vec1d ax = 10.0 + 2.0*mk<double>(px), ay = 0.5*mk<double>(py) - 1.0; cur("rebin", map, ax, ay); vec2d r = rebin(map, mx, my, ax, ay); check(std::array<uint_t,2>{{px.size(), py.size()}}, r.dims); for (uint_t i = 0; i < px.size(); ++i) for (uint_t j = 0; j < py.size(); ++j) near(ref(px[i], py[j]), r.data[i*py.size()+j]);
    }
}
TEST(degenerate_maps) {
    for (uint_t n = 0; n < 3; ++n) for (uint_t m = 0; m < 3; ++m) {
        vec2d map(n, m); for (uint_t i = 0; i < n*m; ++i) map.data[i] = i + 1.0;
        for (double x : {-1.5, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 5.0}) for (double y : {-1.5, -0.5, 0.0, 0.75, 1.0, 3.0}) {
            bool in = x >= 0 && y >= 0 && x + 1 < n && y + 1 < m; cur("bilinear_strict on a small map", map, x, y); nontrivial(); if (!in) check(-99.0, bilinear_strict(map, x, y, -99.0)); cur("bicubic_strict on a small map", map, x, y); check(-99.0, bicubic_strict(map, x, y, -99.0));
            if (n < 2 || m < 2) { cur("bilinear on a map with less than two elements along a dimension", map, x, y); must_raise([&]{ bilinear(map, x, y); }); }
        }
    }
}
static double area(const dv& x, const dv& y, double a, double b) { double s = 0; for (uint_t i = 0; i + 1 < x.size(); ++i) { double l = std::max(a, x[i]), r = std::min(b, x[i+1]); if (l < r) { auto v = [&](double t) { return y[i] + (y[i+1]-y[i])*(t - x[i])/(x[i+1]-x[i]); }; s += 0.5*(v(l) + v(r))*(r - l); } } return s; }
static double steps(const dv& x, const dv& y, double a, double b) { double s = 0; for (uint_t i = 0; i + 1 < x.size(); ++i) { double l = std::max(a, x[i]), r = std::min(b, x[i+1]); if (l < r) s += y[i]*(r - l); } return s; }
TEST(integrals) {
    tables([](const dv& x, const dv& y) {
        vec1d X = mk<double>(x), Y = mk<double>(y); uint_t n = x.size(); dv p; for (double t : positions(x)) if (t >= x[0] && t <= x[n-1]) p.push_back(t);
        cur("integrate", X, Y); nontrivial(); near(area(x, y, x[0], x[n-1]), integrate(X, Y)); cur("cumul", X, Y); vec1d c = cumul(X, Y); check(n, c.size()); for (uint_t i = 0; i < n; ++i) near(area(x, y, x[0], x[i]), c.data[i]);
        dv bx(x.begin(), x.end() - 1), yb(y.begin(), y.end() - 1); bx.insert(bx.end(), x.begin() + 1, x.end()); vec2d B = mkd<2,double>({{2, n - 1}}, bx); vec1d YB = mk<double>(yb); cur("integrate (bins)", B, YB); near(steps(x, y, x[0], x[n-1]), integrate(B, YB));
        for (double a : p) for (double b : p) if (a <= b) {
            cur("integrate over a range", X, Y, a, b); near(area(x, y, a, b), integrate(X, Y, a, b)); cur("integrate over a range (bins)", B, YB, a, b); near(steps(x, y, a, b), integrate(B, YB, a, b));
            for (uint_t h = 0; h <= n; ++h) { if (h < n && x[h] > a) continue; uint_t hint = h == n ? npos : h; cur("integrate_hinted", X, Y, hint, a, b); near(area(x, y, a, b), integrate_hinted(X, Y, hint, a, b)); check_true(hint < n && x[hint] <= b, "a hint at or before the upper limit"); }
        }
        cur("integrate beyond the table", X, Y); must_raise([&]{ integrate(X, Y, x[0] - 1, x[n-1]); }); must_raise([&]{ integrate(X, Y, x[0], x[n-1] + 1); }); must_raise([&]{ integrate(B, YB, x[0], x[n-1] + 1); }); must_raise([&]{ integrate(B, YB, x[0] - 1, x[n-1]); });
    });
    vec1d e, a = {1.0}, b = {1.0, 2.0}; cur("integrate with tables of different sizes"); must_raise([&]{ integrate(a, b); }); must_raise([&]{ integrate(a, b, 1.0, 1.0); }); must_raise([&]{ integrate(e, e, 1.0, 1.0); }); must_raise([&]{ cumul(a, b); });
    cur("integrate of one point or nothing"); near(0, integrate(a, a)); near(0, integrate(e, e)); near(0, integrate(a, a, 1.0, 1.0)); check(uint_t(0), cumul(e, e).size());
}
ORACLE_MAIN
