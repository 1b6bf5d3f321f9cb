#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
using namespace vif;
#define H extern "C" void
// arithmetic: every overload (r: temporary, v: vector, s: scalar)
#define ARITH(N, OP, D, T) \
H h_##N##_vv(const vec<D,T>& a, const vec<D,T>& b, vec<D,T>& out) { out = a OP b; } \
H h_##N##_vs(const vec<D,T>& a, T s, vec<D,T>& out) { out = a OP s; } \
H h_##N##_sv(T s, const vec<D,T>& b, vec<D,T>& out) { out = s OP b; } \
H h_##N##_rv(vec<D,T>& a, const vec<D,T>& b, vec<D,T>& out) { out = std::move(a) OP b; } \
H h_##N##_rs(vec<D,T>& a, T s, vec<D,T>& out) { out = std::move(a) OP s; } \
H h_##N##_vr(const vec<D,T>& a, vec<D,T>& b, vec<D,T>& out) { out = a OP std::move(b); } \
H h_##N##_sr(T s, vec<D,T>& b, vec<D,T>& out) { out = s OP std::move(b); } \
H h_##N##_rr(vec<D,T>& a, vec<D,T>& b, vec<D,T>& out) { out = std::move(a) OP std::move(b); } \
H h_##N##_ww(const vec<D,T>& p, const vec<D,const T*>& a, const vec<D,const T*>& b, vec<D,T>& out) { out = a OP b; } \
H h_##N##_rw(const vec<D,T>& p, vec<D,T>& a, const vec<D,const T*>& b, vec<D,T>& out) { out = std::move(a) OP b; } \
H h_##N##_wr(const vec<D,T>& p, const vec<D,const T*>& a, vec<D,T>& b, vec<D,T>& out) { out = a OP std::move(b); }
ARITH(add, +, 2, double)
ARITH(sub, -, 2, double)
ARITH(mul, *, 2, double)
ARITH(div, /, 2, double)
ARITH(mod, %, 1, uint_t)
ARITH(udiv, /, 1, uint_t)
ARITH(usub, -, 1, uint_t)
ARITH(iadd, +, 1, int)
ARITH(sadd, +, 1, float)
H h_mix_vv(const vec<1,int>& a, const vec<1,double>& b, vec<1,double>& out) { out = a - b; }
H h_mix_vs(const vec<1,int>& a, double s, vec<1,double>& out) { out = a / s; }
H h_mix_sv(int s, const vec<1,double>& b, vec<1,double>& out) { out = s - b; }
H h_mix_rv(vec<1,double>& a, const vec<1,int>& b, vec<1,double>& out) { out = std::move(a) - b; }
H h_mix_vr(const vec<1,int>& a, vec<1,double>& b, vec<1,double>& out) { out = a / std::move(b); }
H h_mix_ii(const vec<1,int>& a, const vec<1,uint_t>& b, vec<1,uint_t>& out) { out = a + b; }
H h_str_vv(const vec1s& a, const vec1s& b, vec1s& out) { out = a + b; }
H h_str_vs(const vec1s& a, const std::string& s, vec1s& out) { out = a + s; }
H h_str_sv(const std::string& s, const vec1s& b, vec1s& out) { out = s + b; }
H h_str_rv(vec1s& a, const vec1s& b, vec1s& out) { out = std::move(a) + b; }
H h_str_vr(const vec1s& a, vec1s& b, vec1s& out) { out = a + std::move(b); }
// compound assignment
#define COMP(N, OP, D, T) \
H h_c##N##_v(vec<D,T>& a, const vec<D,T>& b) { a OP b; } \
H h_c##N##_s(vec<D,T>& a, T s) { a OP s; } \
H h_c##N##_w(const vec<D,T>& p, vec<D,T>& a, const vec<D,const T*>& b) { a OP b; } \
H h_c##N##_pv(vec<D,T>& p, vec<D,T*>& w, const vec<D,T>& b) { w OP b; } \
H h_c##N##_ps(vec<D,T>& p, vec<D,T*>& w, T s) { w OP s; }
COMP(add, +=, 2, double)
COMP(sub, -=, 2, double)
COMP(mul, *=, 2, double)
COMP(div, /=, 2, double)
COMP(isub, -=, 1, int)
H h_cmix_v(vec<1,double>& a, const vec<1,int>& b) { a -= b; }
// comparisons
#define CMP(N, OP, D, T) \
H h_##N##_vv(const vec<D,T>& a, const vec<D,T>& b, vec<D,bool>& out) { out = (a OP b); } \
H h_##N##_vs(const vec<D,T>& a, T s, vec<D,bool>& out) { out = (a OP s); } \
H h_##N##_sv(T s, const vec<D,T>& b, vec<D,bool>& out) { out = (s OP b); } \
H h_##N##_ww(const vec<D,T>& p, const vec<D,const T*>& a, const vec<D,const T*>& b, vec<D,bool>& out) { out = (a OP b); } \
H h_##N##_ws(const vec<D,T>& p, const vec<D,const T*>& a, T s, vec<D,bool>& out) { out = (a OP s); }
CMP(eq, ==, 2, double)
CMP(ne, !=, 2, double)
CMP(lt, <, 2, double)
CMP(le, <=, 2, double)
CMP(gt, >, 2, double)
CMP(ge, >=, 2, double)
CMP(ieq, ==, 1, int)
CMP(ine, !=, 1, int)
CMP(ilt, <, 1, int)
CMP(ile, <=, 1, int)
CMP(igt, >, 1, int)
CMP(ige, >=, 1, int)
H h_seq_vs(const vec1s& a, const std::string& s, vec1b& out) { out = (a == s); }
H h_seq_vv(const vec1s& a, const vec1s& b, vec1b& out) { out = (a != b); }
H h_cmix_lt(const vec<1,int>& a, const vec<1,double>& b, vec1b& out) { out = (a < b); }
// logical
#define LOGIC(N, OP) \
H h_##N##_vv(const vec2b& a, const vec2b& b, vec2b& out) { out = (a OP b); } \
H h_##N##_rv(vec2b& a, const vec2b& b, vec2b& out) { out = (std::move(a) OP b); } \
H h_##N##_vr(const vec2b& a, vec2b& b, vec2b& out) { out = (a OP std::move(b)); } \
H h_##N##_rr(vec2b& a, vec2b& b, vec2b& out) { out = (std::move(a) OP std::move(b)); } \
H h_##N##_vs(const vec2b& a, bool s, vec2b& out) { out = (a OP s); } \
H h_##N##_sv(bool s, const vec2b& b, vec2b& out) { out = (s OP b); } \
H h_##N##_rs(vec2b& a, bool s, vec2b& out) { out = (std::move(a) OP s); } \
H h_##N##_sr(bool s, vec2b& b, vec2b& out) { out = (s OP std::move(b)); } \
H h_##N##_ww(const vec2b& p, const vec<2,const bool*>& a, const vec<2,const bool*>& b, vec2b& out) { out = (a OP b); }
LOGIC(and, &&)
LOGIC(or, ||)
H h_not_v(const vec2b& a, vec2b& out) { out = !a; }
H h_not_r(vec2b& a, vec2b& out) { out = !std::move(a); }
H h_not_w(const vec2b& p, const vec<2,const bool*>& a, vec2b& out) { out = !a; }
H h_neg_v(const vec<2,double>& a, vec<2,double>& out) { out = -a; }
H h_neg_w(const vec<2,double>& p, const vec<2,double*>& a, vec<2,double>& out) { out = -a; }
H h_pos_v(const vec<2,double>& a, vec<2,double>& out) { out = +a; }
H h_pos_w(const vec<2,double>& p, const vec<2,double*>& a, vec<2,double>& out) { out = +a; }
// vectorised functions
extern "C" double vp_f1(double);
extern "C" double vp_f2(double, double);
extern "C" int vp_fi(double);
namespace vif {
    inline double vf1(double x) { return vp_f1(x); }
    inline double vf1x(double x, double y) { return vp_f2(x, y); }
    inline int vfi(double x) { return vp_fi(x); }
    inline double vf2(double x, double y) { return vp_f2(x, y); }
    VIF_VECTORIZE(vf1)
    VIF_VECTORIZE(vf1x)
    VIF_VECTORIZE(vfi)
    VIF_VECTORIZE2(vf2)
    VIF_VECTORIZE_REN(vren, vf1)
}
H h_f1_v(const vec<2,double>& a, vec<2,double>& out) { out = vf1(a); }
H h_f1_r(vec<2,double>& a, vec<2,double>& out) { out = vf1(std::move(a)); }
H h_f1_w(const vec<2,double>& p, const vec<2,const double*>& a, vec<2,double>& out) { out = vf1(a); }
H h_f1x_v(const vec<2,double>& a, double s, vec<2,double>& out) { out = vf1x(a, s); }
H h_f1x_r(vec<2,double>& a, double s, vec<2,double>& out) { out = vf1x(std::move(a), s); }
H h_fi_v(const vec<2,double>& a, vec<2,int>& out) { out = vfi(a); }
H h_fi_r(vec<2,double>& a, vec<2,int>& out) { out = vfi(std::move(a)); }
H h_f2_vv(const vec<2,double>& a, const vec<2,double>& b, vec<2,double>& out) { out = vf2(a, b); }
H h_f2_rv(vec<2,double>& a, const vec<2,double>& b, vec<2,double>& out) { out = vf2(std::move(a), b); }
H h_f2_vr(const vec<2,double>& a, vec<2,double>& b, vec<2,double>& out) { out = vf2(a, std::move(b)); }
H h_f2_rr(vec<2,double>& a, vec<2,double>& b, vec<2,double>& out) { out = vf2(std::move(a), std::move(b)); }
H h_f2_vs(const vec<2,double>& a, double s, vec<2,double>& out) { out = vf2(a, s); }
H h_f2_sv(double s, const vec<2,double>& b, vec<2,double>& out) { out = vf2(s, b); }
H h_f2_rs(vec<2,double>& a, double s, vec<2,double>& out) { out = vf2(std::move(a), s); }
H h_f2_sr(double s, vec<2,double>& b, vec<2,double>& out) { out = vf2(s, std::move(b)); }
H h_ren_v(const vec<2,double>& a, vec<2,double>& out) { out = vren(a); }
H h_ren_r(vec<2,double>& a, vec<2,double>& out) { out = vren(std::move(a)); }
H h_lf_v(const vec<2,double>& a, double s, vec<2,double>& out) { auto l = vectorize_lambda_first([](double x, double y) { return vp_f2(x, y); }); out = l(a, s); }
H h_lf_r(vec<2,double>& a, double s, vec<2,double>& out) { auto l = vectorize_lambda_first([](double x, double y) { return vp_f2(x, y); }); out = l(std::move(a), s); }
H h_l_vv(const vec<2,double>& a, const vec<2,double>& b, vec<2,double>& out) { auto l = vectorize_lambda([](double x, double y) { return vp_f2(x, y); }); out = l(a, b); }
H h_l_vs(const vec<2,double>& a, double s, vec<2,double>& out) { auto l = vectorize_lambda([](double x, double y) { return vp_f2(x, y); }); out = l(a, s); }
H h_l_sv(double s, const vec<2,double>& b, vec<2,double>& out) { auto l = vectorize_lambda([](double x, double y) { return vp_f2(x, y); }); out = l(s, b); }
H h_lf_str(const vec1s& a, const std::string& s, vec1s& out) { auto l = vectorize_lambda_first([](const std::string& x, std::string y) { return x + y; }); out = l(a, std::string(s)); }
H h_isnan(const vec<2,double>& a, vec<2,bool>& out) { out = is_nan(a); }
H h_isfin(const vec<2,double>& a, vec<2,bool>& out) { out = is_finite(a); }
H h_clamp(const vec<1,double>& a, double lo, double hi, vec<1,double>& out) { out = clamp(a, lo, hi); }
H h_sqrv(const vec<1,double>& a, vec<1,double>& out) { out = sqr(a); }
H h_absv(const vec<1,double>& a, vec<1,double>& out) { out = abs(a); }
H h_sqrtv(const vec<1,double>& a, vec<1,double>& out) { out = sqrt(a); }
H h_powsv(double s, const vec<1,double>& b, vec<1,double>& out) { out = pow(s, b); }
H h_powsr(double s, vec<1,double>& b, vec<1,double>& out) { out = pow(s, std::move(b)); }
