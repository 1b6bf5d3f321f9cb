#include <vif/core/vec.hpp>
#include <vif/math/interpolate.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/histogram.hpp>
using namespace vif;
#define H extern "C" void
using v1 = vec<1,double>; using vi = vec<1,int>; using v2 = vec<2,double>;
extern "C" double h_seg(double y1, double y2, double x1, double x2, double x) { return interpolate(y1, y2, x1, x2, x); }
extern "C" double h_s(const v1& y, const v1& x, double p) { return interpolate(y, x, p); }
extern "C" int h_s_i(const vi& y, const vi& x, int p) { return interpolate(y, x, p); }
extern "C" double h_s_view(const v1& a, const vec<1,double*>& y, const v1& b, const vec<1,double*>& x, double p) { return interpolate(y, x, p); }
H h_v(const v1& y, const v1& x, const v1& p, v1& out) { out = interpolate(y, x, p); }
H h_ve(const v1& y, const v1& e, const v1& x, const v1& p, v1& out, v1& err) { auto r = interpolate(y, e, x, p); out = r.first; err = r.second; }
extern "C" double h_int(const v1& x, const v1& y) { return integrate(x, y); }
extern "C" double h_intb(const v2& x, const v1& y) { return integrate(x, y); }
H h_cumul(const v1& x, const v1& y, v1& out) { out = cumul(x, y); }
H h_cumul1(const v1& y, v1& out) { out = cumul(y); }
H h_cumulr(const v1& y, v1& out) { out = cumul_reverse(y); }
extern "C" double h_bil(const v2& m, double x, double y) { return bilinear(m, x, y); }
extern "C" double h_bils(const v2& m, double x, double y, double d) { return bilinear_strict(m, x, y, d); }
