#include "oracle.hpp"
#include <vif/utility/generic.hpp>
using namespace vif; using namespace orc;
typedef std::vector<uint_t> P;
// The statement under test is run on x itself, then with the right hand side read from a copy.
template<typename V, typename A, typename B> void same(const char* what, const V& v0, const P& a, const P& b, A&& direct, B&& copied) {
    cur(what, v0, a, b); nontrivial();
    V x = v0, y = v0; const V c = v0;
    bool e2 = raises([&]() { copied(y, c); }); bool e1 = raises([&]() { direct(x); });
    check_true(e1 == e2, e2 ? "an error, as with a copied source" : "no error, as with a copied source");
    if (!e1 && !e2) { check(y, x); check_inv(x); }
}
template<typename T> T val(long i) { return T(i); }
template<> std::string val<std::string>(long i) { return i % 2 ? "a rather long string, number " + std::to_string(i) : std::string(1, char('a' + i)); }
template<typename T> vec<1,T> base(uint_t n) { vec<1,T> v; for (uint_t i = 0; i < n; ++i) v.data.push_back(val<T>(i + 1)); v.dims[0] = n; return v; }
// expected result of dst[a] = src[b], element by element, from the values before
template<typename T> void lists(uint_t n, const P& pa, const P& pb) {
    typedef vec<1,T> V; V v = base<T>(n); vec1u a = mk(pa), b = mk(pb);
    same("v = v[b]", v, {}, pb, [&](V& x) { x = x[b]; }, [&](V& y, const V& c) { V t = c[b]; y = t; });
    same("v = c[b], const view", v, {}, pb, [&](V& x) { const V& c = x; x = c[b]; }, [&](V& y, const V& c) { V t = c[b]; y = t; });
    same("v = v(b)", v, {}, pb, [&](V& x) { x = x(b); }, [&](V& y, const V& c) { V t = c[b]; y = t; });
    same("v = v[_]", v, {}, {}, [&](V& x) { x = x[_]; }, [&](V&, const V&) {});
    same("v = v", v, {}, {}, [&](V& x) { V& z = x; x = z; }, [&](V&, const V&) {});
    same("v[a] = v[b]", v, pa, pb, [&](V& x) { x[a] = x[b]; }, [&](V& y, const V& c) { V t = c[b]; y[a] = t; });
    same("v[a] = c[b]", v, pa, pb, [&](V& x) { const V& c = x; x[a] = c[b]; }, [&](V& y, const V& c) { V t = c[b]; y[a] = t; });
    same("v[a] = v", v, pa, {}, [&](V& x) { x[a] = x; }, [&](V& y, const V& c) { V t = c; y[a] = t; });
    same("w = v[b] through named views", v, pa, pb, [&](V& x) { auto w = x[a]; auto u = x[b]; w = u; }, [&](V& y, const V& c) { V t = c[b]; y[a] = t; });
    same("v[_][a] = v[b]", v, pa, pb, [&](V& x) { x[_][a] = x[b]; }, [&](V& y, const V& c) { V t = c[b]; y[a] = t; });
    same("v[a] = v[_][b]", v, pa, pb, [&](V& x) { x[a] = x[_][b]; }, [&](V& y, const V& c) { V t = c[b]; y[a] = t; });
    same("v = v[_][b]", v, pa, pb, [&](V& x) { x = x[_][b]; }, [&](V& y, const V& c) { V t = c[b]; y = t; });
    same("w = w[b] of a view", v, pa, pb, [&](V& x) { auto w = x[a]; w = w[b]; }, [&](V& y, const V& c) { V t0 = c[a]; V t = t0[b]; y[a] = t; });
    if (n && !pb.empty() && pb[0] < n) { uint_t i = pb[0];
        same("v[a] = v[i]", v, pa, {i}, [&](V& x) { x[a] = x[i]; }, [&](V& y, const V& c) { T t = c[i]; y[a] = t; });
        same("v += v[i]", v, {}, {i}, [&](V& x) { x += x[i]; }, [&](V& y, const V& c) { T t = c[i]; y += t; });
        same("v[a] = v.safe[i] within view", v, pa, {i}, [&](V& x) { auto w = x[a]; w = x.safe[i]; }, [&](V& y, const V& c) { T t = c[i]; y[a] = t; }); }
}
template<typename T> void comp(uint_t n, const P& pa, const P& pb) {
    typedef vec<1,T> V; V v = base<T>(n); for (auto& q : v.data) q = q*q + T(1); vec1u a = mk(pa), b = mk(pb);
    bool dup = false; for (uint_t i = 0; i < pa.size(); ++i) for (uint_t j = 0; j < i; ++j) dup = dup || pa[i] == pa[j];
#define OPS(OP) \
    same("v " #OP " v[b]", v, {}, pb, [&](V& x) { x OP x[b]; }, [&](V& y, const V& c) { V t = c[b]; y OP t; }); \
    same("v " #OP " c[b]", v, {}, pb, [&](V& x) { const V& c = x; x OP c[b]; }, [&](V& y, const V& c) { V t = c[b]; y OP t; }); \
    same("v " #OP " v", v, {}, {}, [&](V& x) { x OP x; }, [&](V& y, const V& c) { y OP c; }); \
    if (!dup) { same("v[a] " #OP " v[b]", v, pa, pb, [&](V& x) { x[a] OP x[b]; }, [&](V& y, const V& c) { V t = c[b]; y[a] OP t; }); \
        same("v[a] " #OP " v", v, pa, {}, [&](V& x) { x[a] OP x; }, [&](V& y, const V& c) { y[a] OP c; }); } \
    if (n && !pb.empty() && pb[0] < n) { uint_t i = pb[0]; \
        same("v " #OP " v[i]", v, {}, {i}, [&](V& x) { x OP x[i]; }, [&](V& y, const V& c) { T t = c[i]; y OP t; }); \
        same("v " #OP " v.data[i]", v, {}, {i}, [&](V& x) { x OP x.data[i]; }, [&](V& y, const V& c) { T t = c[i]; y OP t; }); \
        if (!dup) same("v[a] " #OP " v[i]", v, pa, {i}, [&](V& x) { x[a] OP x[i]; }, [&](V& y, const V& c) { T t = c[i]; y[a] OP t; }); }
    OPS(+=) OPS(-=) OPS(*=) OPS(/=)
#undef OPS
}
template<typename F> void two(uint_t nmax, F&& f) { for (uint_t n = 0; n <= nmax; ++n) { std::vector<uint_t> al; for (uint_t i = 0; i <= n; ++i) al.push_back(i); for (uint_t k = 0; k <= 3; ++k) all_seq<uint_t>(k, al, [&](const P& a) { if (thorough || n < 3) all_seq<uint_t>(k, al, [&](const P& b) { f(n, a, b); }); else for (int r = 0; r < 3; ++r) { P b(k); for (auto& x : b) x = al[rnd(0, al.size() - 1)]; f(n, a, b); } }); } }
TEST(lists_int) { two(3, [](uint_t n, const P& a, const P& b) { lists<int>(n, a, b); }); }
TEST(lists_string) { two(2, [](uint_t n, const P& a, const P& b) { lists<std::string>(n, a, b); }); }
TEST(lists_double) { two(2, [](uint_t n, const P& a, const P& b) { lists<double>(n, a, b); }); }
TEST(compound_double) { two(3, [](uint_t n, const P& a, const P& b) { comp<double>(n, a, b); }); }
TEST(compound_int) { two(2, [](uint_t n, const P& a, const P& b) { comp<int>(n, a, b); }); }
TEST(long_vectors) { for (int r = 0; r < (thorough ? 400 : 40); ++r) { uint_t n = rnd(5, 200); P a(n), b(n); for (uint_t i = 0; i < n; ++i) a[i] = i; for (uint_t i = n - 1; i > 0; --i) std::swap(a[i], a[rnd(0, i)]); for (auto& x : b) x = rnd(0, n - 1); lists<int>(n, a, b); comp<double>(n, a, b); lists<std::string>(n, a, b); } }
TEST(ranges) {
    typedef vec<1,int> V;
    for (uint_t n = 1; n <= 6; ++n) for (uint_t k = 1; k <= n; ++k) for (uint_t i = 0; i + k <= n; ++i) for (uint_t j = 0; j + k <= n; ++j) { V v = base<int>(n);
        same("v[i-_-(i+k-1)] = v[j-_-(j+k-1)]", v, {i, j}, {k}, [&](V& x) { x[i-_-(i+k-1)] = x[j-_-(j+k-1)]; }, [&](V& y, const V& c) { V t = c[j-_-(j+k-1)]; y[i-_-(i+k-1)] = t; });
        same("v[i-_-(i+k-1)] += v[j-_-(j+k-1)]", v, {i, j}, {k}, [&](V& x) { x[i-_-(i+k-1)] += x[j-_-(j+k-1)]; }, [&](V& y, const V& c) { V t = c[j-_-(j+k-1)]; y[i-_-(i+k-1)] += t; });
        same("v = v[i-_-(i+k-1)]", v, {i}, {k}, [&](V& x) { x = x[i-_-(i+k-1)]; }, [&](V& y, const V& c) { V t = c[i-_-(i+k-1)]; y = t; });
        same("range of a range", v, {i, j}, {k}, [&](V& x) { auto w = x[i-_-(i+k-1)]; x[j-_-(j+k-1)] = w[_]; }, [&](V& y, const V& c) { V t = c[i-_-(i+k-1)]; y[j-_-(j+k-1)] = t; }); }
}
TEST(two_dims) {
    typedef vec<2,double> V;
    for (uint_t n = 1; n <= 3; ++n) for (uint_t m = 1; m <= 3; ++m) { V v = iota<2,double>({{n, m}}, 2.0);
        for (uint_t i = 0; i < n; ++i) for (uint_t j = 0; j < n; ++j) {
            same("v(i,_) = v(j,_)", v, {i}, {j}, [&](V& x) { x(i,_) = x(j,_); }, [&](V& y, const V& c) { vec<1,double> t = c(j,_); y(i,_) = t; });
            same("v(i,_) *= v(j,_)", v, {i}, {j}, [&](V& x) { x(i,_) *= x(j,_); }, [&](V& y, const V& c) { vec<1,double> t = c(j,_); y(i,_) *= t; }); }
        for (uint_t i = 0; i < m; ++i) for (uint_t j = 0; j < m; ++j) same("v(_,i) = v(_,j)", v, {i}, {j}, [&](V& x) { x(_,i) = x(_,j); }, [&](V& y, const V& c) { vec<1,double> t = c(_,j); y(_,i) = t; });
        for (uint_t i = 0; i < n*m; ++i) { same("v -= v[i]", v, {i}, {}, [&](V& x) { x -= x[i]; }, [&](V& y, const V& c) { double t = c[i]; y -= t; });
            same("v /= v(i,j)", v, {i}, {}, [&](V& x) { x /= x(i/m, i%m); }, [&](V& y, const V& c) { double t = c[i]; y /= t; }); }
        all_upto<uint_t>(3, n == 1 ? P{0} : n == 2 ? P{0,1} : P{0,1,2}, [&](const P& l) { vec1u ids = mk(l);
            same("v = v(ids,_)", v, l, {}, [&](V& x) { x = x(ids,_); }, [&](V& y, const V& c) { V t = c(ids,_); y = t; });
            if (l.size() == n) same("v(ids,_) = v", v, l, {}, [&](V& x) { x(ids,_) = x; }, [&](V& y, const V& c) { V t = c; y(ids,_) = t; });
            if (l.size() == n) same("v += v(ids,_)", v, l, {}, [&](V& x) { x += x(ids,_); }, [&](V& y, const V& c) { V t = c(ids,_); y += t; }); }); }
}
ORACLE_MAIN
