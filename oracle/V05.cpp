#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
using namespace vif; using namespace orc;
typedef std::array<uint_t,2> D2;
template<typename F> void pairs(F&& f) { for (uint_t a = 0; a <= 3; ++a) for (uint_t b = 0; b <= 3; ++b) f(D2{{a, b}}); f(D2{{5, 7}}); }
template<typename T> vec<2,T> fillr(const D2& d, long lo, long hi) { std::vector<T> v; for (uint_t i = 0; i < prod(d); ++i) v.push_back(T(rnd(lo, hi))); return mkd<2,T>(d, v); }
template<> vec<2,double> fillr<double>(const D2& d, long lo, long hi) { std::vector<double> v(prod(d)); for (auto& x : v) { long k = rnd(0, 9); x = k == 0 ? dnan : k == 1 ? dinf : k == 2 ? -0.0 : rnd(lo, hi)/4.0; } return mkd<2,double>(d, v); }
template<typename R, typename A, typename B, typename F> vec<2,R> expv(const vec<2,A>& a, const vec<2,B>& b, F&& f) { vec<2,R> r; r.dims = a.dims; for (uint_t i = 0; i < a.data.size(); ++i) r.data.push_back(f(A(a.data[i]), B(b.data[i]))); return r; }
template<typename T> vec<2,T> constant(const D2& d, T s) { return mkd<2,T>(d, std::vector<T>(prod(d), s)); }
template<typename R, typename T, typename F, typename G> void binary(const char* what, long lo, long hi, F&& ref, G&& op) {
    pairs([&](const D2& d) { for (int rep = 0; rep < (thorough ? 10 : 2); ++rep) {
        vec<2,T> a = fillr<T>(d, lo, hi), b = fillr<T>(d, lo, hi), a0 = a, b0 = b; T s = b.data.empty() ? T(1) : T(b.data[0]);
        vec<2,T> sv = constant<T>(d, s); cur(what, a, b); nontrivial();
        vec<2,R> e = expv<R>(a, b, ref), es = expv<R>(a, sv, ref), se = expv<R>(sv, b, ref);
        check(e, vec<2,R>(op(a, b))); check(es, vec<2,R>(op(a, s))); check(se, vec<2,R>(op(s, b)));
        check(e, vec<2,R>(op(vec<2,T>(a), b))); check(e, vec<2,R>(op(a, vec<2,T>(b)))); check(e, vec<2,R>(op(vec<2,T>(a), vec<2,T>(b))));
        check(es, vec<2,R>(op(vec<2,T>(a), s))); check(se, vec<2,R>(op(s, vec<2,T>(b))));
        check(a0, a); check(b0, b);
        check(e, vec<2,R>(op(a(_,_), b(_,_)))); check(e, vec<2,R>(op(a(_,_), b))); check(e, vec<2,R>(op(a, b(_,_)))); check(e, vec<2,R>(op(vec<2,T>(a), b(_,_)))); check(e, vec<2,R>(op(a(_,_), vec<2,T>(b))));
        check(es, vec<2,R>(op(a(_,_), s))); check(se, vec<2,R>(op(s, b(_,_)))); const vec<2,T>& ca = a; check(e, vec<2,R>(op(ca(_,_), b)));
        check(a0, a); check(b0, b);
        { vec<2,T> x = a; vec<2,R> r = op(x, x); check(expv<R>(a, a, ref), r); check(a0, x); }
        // different dimensions, including equal sizes
        for (D2 q : {D2{{d[1], d[0]}}, D2{{d[0] + 1, d[1]}}, D2{{d[0], d[1] + 1}}, D2{{1, d[0]*d[1]}}}) if (q != d) { vec<2,T> c = fillr<T>(q, 1, 5);
            must_raise([&]() { op(a, c); }); must_raise([&]() { op(vec<2,T>(a), c); }); must_raise([&]() { op(a, vec<2,T>(c)); }); must_raise([&]() { op(vec<2,T>(a), vec<2,T>(c)); }); must_raise([&]() { op(a(_,_), c); }); must_raise([&]() { op(a, c(_,_)); }); } } });
}
#define OPF(OP) [](auto&& x, auto&& y) { return std::forward<decltype(x)>(x) OP std::forward<decltype(y)>(y); }
#define ARI(N, OP, T, lo, hi) TEST(N) { binary<typename std::decay<decltype(T() OP T(1))>::type,T>(#N, lo, hi, [](T x, T y) { return x OP y; }, OPF(OP)); }
ARI(add_d, +, double, -20, 20) ARI(sub_d, -, double, -20, 20) ARI(mul_d, *, double, -20, 20) ARI(div_d, /, double, -20, 20)
ARI(add_i, +, int, -20, 20) ARI(sub_i, -, int, -20, 20) ARI(mul_i, *, int, -20, 20) ARI(div_i, /, int, 1, 20) ARI(mod_i, %, int, 1, 20) ARI(sub_u, -, uint_t, 0, 20) ARI(sub_f, -, float, -9, 9) ARI(mod_u, %, uint_t, 1, 9)
#define CMPT(N, OP, T) TEST(N) { binary<bool,T>(#N, -3, 3, [](T x, T y) { return x OP y; }, OPF(OP)); }
CMPT(eq_d, ==, double) CMPT(ne_d, !=, double) CMPT(lt_d, <, double) CMPT(le_d, <=, double) CMPT(gt_d, >, double) CMPT(ge_d, >=, double)
CMPT(eq_i, ==, int) CMPT(ne_i, !=, int) CMPT(lt_i, <, int) CMPT(le_i, <=, int) CMPT(gt_i, >, int) CMPT(ge_i, >=, int)
TEST(and_b) { binary<bool,bool>("&&", 0, 1, [](bool x, bool y) { return x && y; }, OPF(&&)); }
TEST(or_b) { binary<bool,bool>("||", 0, 1, [](bool x, bool y) { return x || y; }, OPF(||)); }
TEST(vectorized2) { binary<double,double>("atan2", -5, 5, [](double x, double y) { return std::atan2(x, y); }, [](auto&& x, auto&& y) { return vif::atan2(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); }
#define COMPT(N, OP, T, lo, hi) TEST(N) { pairs([&](const D2& d) { for (int rep = 0; rep < 3; ++rep) { vec<2,T> a = fillr<T>(d, lo, hi), b = fillr<T>(d, lo, hi), b0 = b; cur(#N, a, b); nontrivial(); auto ref = [](T x, T y) { x OP y; return x; }; T s = b.data.empty() ? T(1) : b.data[0]; vec<2,T> e = expv<T>(a, b, ref), es = expv<T>(a, constant<T>(d, s), ref); \
    { vec<2,T> x = a; check_true(&(x OP b) == &x, "returns the array"); check(e, x); } { vec<2,T> x = a; x OP b(_,_); check(e, x); } { vec<2,T> x = a; x(_,_) OP b; check(e, x); } { vec<2,T> x = a; x(_,_) OP b(_,_); check(e, x); } { vec<2,T> x = a; x OP s; check(es, x); } { vec<2,T> x = a; x(_,_) OP s; check(es, x); } check(b0, b); \
    for (D2 q : {D2{{d[1], d[0]}}, D2{{d[0] + 1, d[1]}}, D2{{1, d[0]*d[1]}}}) if (q != d) { vec<2,T> c = fillr<T>(q, 1, 5), x = a; must_raise([&]() { x OP c; }); must_raise([&]() { x(_,_) OP c; }); check(a, x); } } }); }
COMPT(cadd, +=, double, -20, 20) COMPT(csub, -=, double, -20, 20) COMPT(cmul, *=, double, -20, 20) COMPT(cdiv, /=, double, -20, 20) COMPT(csub_i, -=, int, -20, 20) COMPT(cdiv_i, /=, int, 1, 20)
TEST(mixed) { pairs([&](const D2& d) { vec<2,int> a = fillr<int>(d, -9, 9); vec<2,double> b = fillr<double>(d, -9, 9); vec<2,float> f; f.dims = d; for (double x : b.data) f.data.push_back(float(x)); cur("mixed types", a, b); nontrivial();
    auto sub = [](double x, double y) { return x - y; };
    check(expv<double>(a, b, sub), vec<2,double>(a - b)); check(expv<double>(b, a, sub), vec<2,double>(b - a)); check(expv<double>(b, a, sub), vec<2,double>(vec<2,double>(b) - a)); check(expv<double>(a, b, sub), vec<2,double>(a - vec<2,double>(b))); check(expv<double>(a, b, sub), vec<2,double>(vec<2,int>(a) - vec<2,double>(b)));
    check(expv<double>(a, constant<double>(d, 0.5), [](double x, double y) { return x*y; }), vec<2,double>(a*0.5)); check(expv<double>(a, constant<double>(d, 0.5), [](double x, double y) { return x*y; }), vec<2,double>(vec<2,int>(a)*0.5)); check(expv<double>(a, constant<double>(d, 0.5), [](double x, double y) { return y/x; }), vec<2,double>(0.5/vec<2,int>(a)));
    check(expv<double>(f, b, sub), vec<2,double>(vec<2,float>(f) - b)); check(expv<double>(f, constant<double>(d, 0.1), sub), vec<2,double>(vec<2,float>(f) - 0.1));
    { vec<2,double> x = b; x += a; check(expv<double>(b, a, [](double p, double q) { return p + q; }), x); }
    { vec<2,int> x = a; x *= 2.6; check(expv<int>(a, a, [](int p, int) { p *= 2.6; return p; }), x); }
    check(expv<bool>(a, b, [](double x, double y) { return x < y; }), vec<2,bool>(a < b)); }); }
TEST(unary) { pairs([&](const D2& d) { vec<2,double> a = fillr<double>(d, -9, 9), a0 = a; vec<2,bool> b = fillr<bool>(d, 0, 1); cur("unary", a, b); nontrivial();
    auto neg = [](double x, double) { return -x; }; check(expv<double>(a, a, neg), vec<2,double>(-a)); check(expv<double>(a, a, neg), vec<2,double>(-a(_,_))); check(a, vec<2,double>(+a)); check(a, vec<2,double>(+a(_,_))); check(expv<double>(a, a, neg), vec<2,double>(-vec<2,double>(a)));
    auto no = [](bool x, bool) { return !x; }; check(expv<bool>(b, b, no), vec<2,bool>(!b)); check(expv<bool>(b, b, no), vec<2,bool>(!b(_,_))); check(expv<bool>(b, b, no), vec<2,bool>(!vec<2,bool>(b))); check(a0, a); }); }
TEST(functions) { pairs([&](const D2& d) { vec<2,double> a = fillr<double>(d, -9, 9), a0 = a; cur("vectorised functions", a); nontrivial();
#define FN(f) { auto r = [](double x, double) { return double(std::f(x)); }; check(expv<double>(a, a, r), vec<2,double>(vif::f(a))); check(expv<double>(a, a, r), vec<2,double>(vif::f(vec<2,double>(a)))); check(expv<double>(a, a, r), vec<2,double>(vif::f(a(_,_)))); check(a0, a); }
    FN(sqrt) FN(cos) FN(sin) FN(tan) FN(exp) FN(log) FN(log10) FN(log2) FN(floor) FN(ceil) FN(round) FN(abs) FN(erf) FN(erfc) FN(atan) FN(asin) FN(acos) FN(sinh) FN(cosh) FN(tanh) FN(acosh) FN(asinh) FN(atanh) FN(tgamma)
    auto sq = [](double x, double) { return x*x; }; check(expv<double>(a, a, sq), vec<2,double>(sqr(a))); check(expv<double>(a, a, [](double x, double) { return 1.0/(x*x); }), vec<2,double>(invsqr(a)));
    auto cl = [](double x, double) { return x < -1.0 ? -1.0 : x > 2.0 ? 2.0 : x; }; check(expv<double>(a, a, cl), vec<2,double>(clamp(a, -1.0, 2.0))); check(expv<double>(a, a, cl), vec<2,double>(clamp(vec<2,double>(a), -1.0, 2.0)));
    auto pw = [](double x, double) { return std::pow(x, 1.5); }; check(expv<double>(a, a, pw), vec<2,double>(pow(a, 1.5))); check(expv<double>(a, a, pw), vec<2,double>(pow(vec<2,double>(a), 1.5))); check(expv<double>(a, a, [](double x, double) { return std::fmod(x, 1.5); }), vec<2,double>(fmod(a, 1.5)));
    check(expv<bool>(a, a, [](double x, double) { return x != x; }), vec<2,bool>(is_nan(a))); check(expv<bool>(a, a, [](double x, double) { return std::isfinite(x); }), vec<2,bool>(is_finite(a)));
    vec<1,double> v = flatten(a); vec<1,double> ev; for (double x : v.data) ev.data.push_back(std::pow(2.0, x)); ev.dims[0] = v.size(); check(ev, vec<1,double>(pow(2.0, v))); check(ev, vec<1,double>(pow(2.0, vec<1,double>(v))));
    { vec<2,int> n = fillr<int>(d, -9, 9), e = n; for (int& x : e.data) x = x >= 0 ? 1 : -1; check(e, vec<2,int>(sign(n))); } }); }
TEST(lambdas) { pairs([&](const D2& d) { vec<2,double> a = fillr<double>(d, -9, 9), b = fillr<double>(d, -9, 9), a0 = a; cur("vectorised lambdas", a, b); nontrivial();
    auto f = [](double x, double y) { return 2*x - y; }; auto l1 = vectorize_lambda_first(f); auto l = vectorize_lambda(f);
    check(expv<double>(a, constant<double>(d, 1.5), f), vec<2,double>(l1(a, 1.5))); check(expv<double>(a, constant<double>(d, 1.5), f), vec<2,double>(l1(vec<2,double>(a), 1.5))); check(f(1.0, 2.0), double(l1(1.0, 2.0)));
    check(expv<double>(a, b, f), vec<2,double>(l(a, b))); check(expv<double>(a, constant<double>(d, 1.5), f), vec<2,double>(l(a, 1.5))); check(expv<double>(constant<double>(d, 1.5), a, f), vec<2,double>(l(1.5, a))); check(f(1.0, 2.0), double(l(1.0, 2.0)));
    check(expv<double>(a, b, f), vec<2,double>(l(a(_,_), b)));
    { D2 q{{d[0] + 1, d[1]}}; vec<2,double> c = fillr<double>(q, 1, 5); must_raise([&]() { l(a, c); }); }
    { vec<2,double> x = a; vectorize_lambda([](double& p, double q) { p = p*q + 1; })(x, b); check(expv<double>(a, b, [](double p, double q) { return p*q + 1; }), x); }
    vec<2,std::string> s; s.dims = d; for (uint_t i = 0; i < prod(d); ++i) s.data.push_back("string number " + std::to_string(i) + " of the list"); auto cat = [](const std::string& x, std::string y) { return x + y; }; vec<2,std::string> es = s; for (auto& x : es.data) x += " with a long tail"; vec<2,std::string> s0 = s;
    check(es, vec<2,std::string>(vectorize_lambda_first(cat)(s, std::string(" with a long tail")))); check(s0, s); check(es, vec<2,std::string>(vectorize_lambda(cat)(s, std::string(" with a long tail")))); check(es, vec<2,std::string>(s + " with a long tail")); check(es, vec<2,std::string>(s + std::string(" with a long tail"))); check(es, vec<2,std::string>(vec<2,std::string>(s) + " with a long tail")); check(s0, s);
    { vec<2,std::string> x = s; x += " with a long tail"; check(es, x); } { vec<2,std::string> r = s + s; for (uint_t i = 0; i < s.size(); ++i) check(s0.data[i] + s0.data[i], r.data[i]); }
    check(s == s, constant<bool>(d, true)); check(s != s(_,_), constant<bool>(d, false)); }); }
ORACLE_MAIN
