#include "oracle.hpp"
using namespace vif; using namespace orc;
inline long rr(long a, long b) { return b < a ? a : rnd(a, b); }
typedef std::vector<uint_t> P;      // positions selected in one dimension
struct Sel { bool err, open; P p; bool scalar; };   // open: an index below -extent was used (result left open, or error)
template<typename I> Sel list(const std::vector<I>& l, uint_t n) { Sel s{false, false, {}, false}; for (I i : l) { long v = long(i); if (i < I(0)) { if (n == 0) s.err = true; else if (-v > long(n)) { s.open = true; s.p.push_back(0); } else s.p.push_back(uint_t(long(n) + v)); } else { if (uint_t(i) >= n) s.err = true; else s.p.push_back(uint_t(i)); } } return s; }
Sel rngs(bool hb, long b, bool he, long e, uint_t n) { Sel s{false, false, {}, false}; if (hb && (b < 0 || uint_t(b) >= n)) s.err = true; if (he && (e < 0 || uint_t(e) >= n)) s.err = true; uint_t lo = hb ? b : 0, hi = he ? e : n - 1; if (he && hb && b > e + 1) s.err = true; if (!s.err && n) for (uint_t k = lo; k < hi + 1; ++k) s.p.push_back(k); return s; }
Sel scal(long i, uint_t n) { Sel s = list<long>({i}, n); s.scalar = true; return s; }
Sel all(uint_t n) { return rngs(false, 0, false, 0, n); }
// expected flat positions of a selection
P flat(const std::vector<Sel>& s, const std::vector<uint_t>& d) { P r; std::function<void(std::size_t, uint_t)> f = [&](std::size_t k, uint_t base) { if (k == s.size()) { r.push_back(base); return; } for (uint_t p : s[k].p) f(k + 1, base*d[k] + p); }; f(0, 0); return r; }
template<typename V> std::vector<uint_t> dv(const V& v) { return std::vector<uint_t>(v.dims.begin(), v.dims.end()); }
// A: the access, applied to const and non-const arrays
template<std::size_t OD, std::size_t D, typename A> void tst(const std::string& what, vec<D,int>& v, const std::vector<Sel>& s, std::vector<uint_t> d, A&& acc) {
    cur(what.c_str(), v); nontrivial();
    bool err = false, open = false, empty = false; for (auto& x : s) { err = err || x.err; open = open || x.open; empty = empty || (!x.scalar && x.p.empty()); }
    const vec<D,int>& cv = v; vec<D,int> before = v;
    if (err || open) { // an error, or (empty selections, indices below -extent) anything inside the array
        if (err && !empty && !open) { must_raise([&]() { acc(v); }); must_raise([&]() { acc(cv); }); }
        else raises([&]() { vec<OD,int> r = acc(v); check_inv(r); for (int x : r.data) check_true(x >= 1 && x <= int(v.size()), "elements of the array"); });
        check(before, v); return; }
    P p = flat(s, d); std::vector<uint_t> od; for (auto& x : s) if (!x.scalar) od.push_back(x.p.size());
    std::array<uint_t,OD> oda; for (std::size_t k = 0; k < OD; ++k) oda[k] = od[k];
    std::vector<int> e; for (uint_t x : p) e.push_back(v.data[x]);
    vec<OD,int> r1 = acc(v); check(mkd<OD,int>(oda, e), r1); vec<OD,int> r2 = acc(cv); check(mkd<OD,int>(oda, e), r2);
    { auto w = acc(v); check(dv(w), od); check(p.size(), w.data.size()); for (uint_t k = 0; k < p.size(); ++k) check_true(w.data[k] == &v.data[p[k]], "pointer to the selected element"); auto wc = acc(cv); for (uint_t k = 0; k < p.size(); ++k) check_true(wc.data[k] == &v.data[p[k]], "pointer to the selected element (const)"); }
    vec<D,int> x = v; acc(x) = 777; for (uint_t q : p) e.size(), before.data[q] = 777; check(before, x); before = v;
    x = v; vec<OD,int> src(oda); for (uint_t k = 0; k < p.size(); ++k) { src.data[k] = 1000 + k; before.data[p[k]] = 1000 + k; } acc(x) = src; check(before, x); before = v;
    { std::array<uint_t,OD> bd = oda; bd[0] += 1; vec<OD,int> bad(bd); if (bad.size() != p.size()) must_raise([&]() { acc(x) = bad; }); check(before, v); }
    // view of a view
    { auto w = v[_]; vec<1,int> t1 = flatten(acc(v)); check(plain(r1), plain(t1)); }
}

template<typename F> void lists(uint_t n, uint_t maxlen, F&& f) { std::vector<int> al; for (int i = -int(n) - 1; i <= int(n); ++i) al.push_back(i); all_upto<int>(maxlen, al, [&](const std::vector<int>& l) { f(l); }); }
template<typename T> vec<1,T> cv_(const std::vector<int>& l) { return mk<T>(std::vector<T>(l.begin(), l.end())); }
bool nonneg(const std::vector<int>& l) { for (int i : l) if (i < 0) return false; return true; }
TEST(flat_lists) { for (uint_t n = 0; n <= 4; ++n) { vec<1,int> v = iota<1,int>({{n}}); std::vector<uint_t> d{n};
    lists(n, n < 4 ? 3 : 2, [&](const std::vector<int>& l) { auto s = list<int>(l, n); std::string t = show(l);
        auto a = cv_<int>(l); auto b = cv_<int_t>(l); auto c = cv_<signed char>(l); auto u = cv_<uint_t>(l); const auto& ca = a;
        tst<1>("v[int]" + t, v, {s}, d, [&](auto& x) { return x[a]; }); tst<1>("v(int)" + t, v, {s}, d, [&](auto& x) { return x(a); });
        tst<1>("v[long]" + t, v, {s}, d, [&](auto& x) { return x[b]; }); tst<1>("v(int8)" + t, v, {s}, d, [&](auto& x) { return x(c); });
        tst<1>("v[view of int]" + t, v, {s}, d, [&](auto& x) { auto w = a[_]; return x[w]; }); tst<1>("v[const view of int]" + t, v, {s}, d, [&](auto& x) { auto w = b[_]; return x(w); });
        if (nonneg(l)) { tst<1>("v[uint]" + t, v, {s}, d, [&](auto& x) { return x[u]; }); tst<1>("v(uint)" + t, v, {s}, d, [&](auto& x) { return x(u); });
            if (!s.err) tst<1>("v.safe[uint]" + t, v, {s}, d, [&](auto& x) { return x.safe[u]; }); if (!s.err) tst<1>("v.safe(uint)" + t, v, {s}, d, [&](auto& x) { return x.safe(u); }); } }); }
    for (uint_t n = 0; n < 3; ++n) for (uint_t m = 0; m < 3; ++m) { vec<2,int> v = iota<2,int>({{n, m}}); lists(n*m, 2, [&](const std::vector<int>& l) { auto s = list<int>(l, n*m); auto b = cv_<int_t>(l); tst<1>("v2[long]" + show(l), v, {s}, {n*m}, [&](auto& x) { return x[b]; }); }); } }
template<typename F> void ranges(uint_t n, F&& f) { f(0, 0l, 0l); for (long b = -1; b <= long(n) + 1; ++b) { f(1, b, 0l); f(2, 0l, b); for (long e = -1; e <= long(n) + 1; ++e) f(3, b, e); } }
Sel rsel(int k, long b, long e, uint_t n) { return rngs(k & 1, b, k & 2, e, n); }
TEST(flat_ranges) { for (uint_t n = 0; n <= 5; ++n) { vec<1,int> v = iota<1,int>({{n}}); ranges(n, [&](int k, long b, long e) { auto s = rsel(k, b, e, n); std::string t = std::to_string(k) + " " + std::to_string(b) + " " + std::to_string(e); std::vector<uint_t> d{n}; uint_t ub = b, ue = e; int ib = b, ie = e;
        if (k == 0) { tst<1>("v[_]", v, {s}, d, [&](auto& x) { return x[_]; }); tst<1>("v(_)", v, {s}, d, [&](auto& x) { return x(_); }); tst<1>("v.safe[_]", v, {s}, d, [&](auto& x) { return const_cast<vec<1,int>&>(x).safe[_]; }); }
        if (k == 1) { tst<1>("v[b-_]" + t, v, {s}, d, [&](auto& x) { return x[b-_]; }); tst<1>("v(b-_)" + t, v, {s}, d, [&](auto& x) { return x(ib-_); }); }
        if (k == 2) { tst<1>("v[_-e]" + t, v, {s}, d, [&](auto& x) { return x[_-ue]; }); tst<1>("v(_-e)" + t, v, {s}, d, [&](auto& x) { return x(_-ie); }); }
        if (k == 3) { tst<1>("v[b-_-e]" + t, v, {s}, d, [&](auto& x) { return x[b-_-e]; }); tst<1>("v(b-_-e)" + t, v, {s}, d, [&](auto& x) { return x(ib-_-ie); }); if (!s.err) tst<1>("v.safe[b-_-e]" + t, v, {s}, d, [&](auto& x) { return const_cast<vec<1,int>&>(x).safe[ub-_-ue]; }); } }); } }
template<typename F> void dims2(uint_t m, F&& f) { for (uint_t a = 0; a < m; ++a) for (uint_t b = 0; b < m; ++b) f(a, b); }
TEST(two_scalar) { dims2(5, [&](uint_t n, uint_t m) { vec<2,int> v = iota<2,int>({{n, m}}); std::vector<uint_t> d{n, m};
    for (int i = -int(n) - 1; i <= int(n); ++i) { auto s = scal(i, n); std::string t = std::to_string(i); tst<1>("v(i,_) " + t, v, {s, all(m)}, d, [&](auto& x) { return x(i, _); }); if (i >= 0) tst<1>("v(u,_) " + t, v, {s, all(m)}, d, [&](auto& x) { return x(uint_t(i), _); });
        ranges(m, [&](int k, long b, long e) { auto r = rsel(k, b, e, m); if (k == 3) tst<1>("v(i,b-_-e) " + t + "," + std::to_string(b) + "," + std::to_string(e), v, {s, r}, d, [&](auto& x) { return x(i, b-_-e); }); if (k == 1) tst<1>("v(i,b-_) " + t + "," + std::to_string(b), v, {s, r}, d, [&](auto& x) { return x(i, b-_); }); if (k == 2) tst<1>("v(i,_-e) " + t + "," + std::to_string(e), v, {s, r}, d, [&](auto& x) { return x(i, _-e); }); });
        if (m < 4) lists(m, 2, [&](const std::vector<int>& l) { auto a = cv_<int>(l); tst<1>("v(i,ids) " + t + show(l), v, {s, list<int>(l, m)}, d, [&](auto& x) { return x(i, a); }); }); }
    for (int j = -int(m) - 1; j <= int(m); ++j) { auto s = scal(j, m); std::string t = std::to_string(j); tst<1>("v(_,j) " + t, v, {all(n), s}, d, [&](auto& x) { return x(_, j); });
        ranges(n, [&](int k, long b, long e) { auto r = rsel(k, b, e, n); if (k == 3) tst<1>("v(b-_-e,j) " + std::to_string(b) + "," + std::to_string(e) + "," + t, v, {r, s}, d, [&](auto& x) { return x(b-_-e, j); }); if (k == 1) tst<1>("v(b-_,j) " + std::to_string(b) + "," + t, v, {r, s}, d, [&](auto& x) { return x(b-_, j); }); if (k == 2) tst<1>("v(_-e,j) " + std::to_string(e) + "," + t, v, {r, s}, d, [&](auto& x) { return x(_-e, j); }); });
        if (n < 4) lists(n, 2, [&](const std::vector<int>& l) { auto a = cv_<int_t>(l); tst<1>("v(ids,j) " + show(l) + t, v, {list<int>(l, n), s}, d, [&](auto& x) { return x(a, j); }); }); } }); }
TEST(two_both) { dims2(4, [&](uint_t n, uint_t m) { vec<2,int> v = iota<2,int>({{n, m}}); std::vector<uint_t> d{n, m}; tst<2>("v(_,_)", v, {all(n), all(m)}, d, [&](auto& x) { return x(_, _); }); tst<2>("v(repeat<2>(_))", v, {all(n), all(m)}, d, [&](auto& x) { return x(repeat<2>(_)); });
    for (int k = 0; k < 400; ++k) { std::vector<int> a(rnd(0, 4)), b(rnd(0, 4)); for (auto& x : a) x = rr(-int(n) - (rnd(0, 9) == 0), int(n) - (rnd(0, 9) != 0)); for (auto& x : b) x = rr(-int(m) - (rnd(0, 9) == 0), int(m) - (rnd(0, 9) != 0)); auto va = cv_<int_t>(a), vb = cv_<int_t>(b); std::string t = show(a) + show(b); auto sa = list<int>(a, n), sb = list<int>(b, m);
        tst<2>("v(a,b)" + t, v, {sa, sb}, d, [&](auto& x) { return x(va, vb); }); tst<2>("v(a,_)" + t, v, {sa, all(m)}, d, [&](auto& x) { return x(va, _); }); tst<2>("v(_,b)" + t, v, {all(n), sb}, d, [&](auto& x) { return x(_, vb); });
        long p = rnd(-1, n), q = rnd(-1, n), r = rnd(-1, m), s = rnd(-1, m); std::string u = std::to_string(p) + "," + std::to_string(q) + "," + std::to_string(r) + "," + std::to_string(s); auto ra = rsel(3, p, q, n), rb = rsel(3, r, s, m);
        tst<2>("v(p-_-q,r-_-s)" + u, v, {ra, rb}, d, [&](auto& x) { return x(p-_-q, r-_-s); }); tst<2>("v(p-_-q,_)" + u, v, {ra, all(m)}, d, [&](auto& x) { return x(p-_-q, _); }); tst<2>("v(a,r-_-s)" + t + u, v, {sa, rb}, d, [&](auto& x) { return x(va, r-_-s); }); tst<2>("v(p-_,_-s)" + u, v, {rsel(1, p, 0, n), rsel(2, 0, s, m)}, d, [&](auto& x) { return x(p-_, _-s); }); } }); }
TEST(three) { for (uint_t n = 0; n < 4; ++n) for (uint_t m = 0; m < 4; ++m) for (uint_t l = 0; l < 4; ++l) { vec<3,int> v = iota<3,int>({{n, m, l}}); std::vector<uint_t> d{n, m, l};
    for (int i = -int(n) - 1; i <= int(n); ++i) { auto s = scal(i, n); std::string t = std::to_string(i); tst<2>("v(i,_,_) " + t, v, {s, all(m), all(l)}, d, [&](auto& x) { return x(i, _, _); }); for (int k = -int(l) - 1; k <= int(l); ++k) { std::string tt = t + "," + std::to_string(k); tst<1>("v(i,_,k) " + tt, v, {s, all(m), scal(k, l)}, d, [&](auto& x) { return x(i, _, k); }); } for (int j = -int(m) - 1; j <= int(m); ++j) { std::string tt = t + "," + std::to_string(j); tst<1>("v(i,j,_) " + tt, v, {s, scal(j, m), all(l)}, d, [&](auto& x) { return x(i, j, _); }); } }
    for (int j = -int(m) - 1; j <= int(m); ++j) { auto s = scal(j, m); std::string t = std::to_string(j); tst<2>("v(_,j,_) " + t, v, {all(n), s, all(l)}, d, [&](auto& x) { return x(_, j, _); }); for (int k = -int(l) - 1; k <= int(l); ++k) { std::string tt = t + "," + std::to_string(k); tst<1>("v(_,j,k) " + tt, v, {all(n), s, scal(k, l)}, d, [&](auto& x) { return x(_, j, k); }); } }
    for (int k = -int(l) - 1; k <= int(l); ++k) { std::string t = std::to_string(k); tst<2>("v(_,_,k) " + t, v, {all(n), all(m), scal(k, l)}, d, [&](auto& x) { return x(_, _, k); }); }
    tst<3>("v(_,_,_)", v, {all(n), all(m), all(l)}, d, [&](auto& x) { return x(_, _, _); });
    for (int q = 0; q < 20; ++q) { std::vector<int> a(rnd(0, 3)), b(rnd(0, 3)); for (auto& x : a) x = rr(-int(n), int(n) - (rnd(0, 9) != 0)); for (auto& x : b) x = rr(-int(l), int(l) - (rnd(0, 9) != 0)); auto va = cv_<int>(a); auto vb = cv_<int_t>(b); std::string t = show(a) + show(b); long e = rnd(0, m); tst<3>("v(a,_-e,b)" + t + std::to_string(e), v, {list<int>(a, n), rsel(2, 0, e, m), list<int>(b, l)}, d, [&](auto& x) { return x(va, _-e, vb); }); tst<2>("v(a,e,b)" + t + std::to_string(e), v, {list<int>(a, n), scal(e, m), list<int>(b, l)}, d, [&](auto& x) { return x(va, e, vb); }); } } }
// views of views, strides, other element types
TEST(nested) { for (int q = 0; q < (thorough ? 20000 : 3000); ++q) { uint_t n = rnd(1, 5), m = rnd(1, 5); vec<2,int> v = iota<2,int>({{n, m}}); const auto& cv = v; vec1u a(rnd(0, 5)), b(rnd(0, 5)); for (auto& x : a) x = rnd(0, n - 1); for (auto& x : b) x = rnd(0, m - 1); auto w = v(a, b); const auto& cw = w; vec<2,int> c = w; cur("view of view", v, a, b); nontrivial();
        P p; for (uint_t i : a) for (uint_t j : b) p.push_back(i*m + j);
        auto same = [&](const auto& r, const P& ex) { check(ex.size(), r.data.size()); for (uint_t k = 0; k < ex.size(); ++k) check_true(r.data[k] == &v.data[ex[k]], "pointer to the element of the original array"); };
        if (a.size() && b.size()) { int i = rr(-int(a.size()), int(a.size()) - 1), j = rr(-int(b.size()), int(b.size()) - 1); uint_t pi = i < 0 ? a.size() + i : i, pj = j < 0 ? b.size() + j : j; uint_t B = b.size();
            P r; for (uint_t k = 0; k < B; ++k) r.push_back(p[pi*B + k]); same(w(i, _), r); same(cw(i, _), r); r.clear(); for (uint_t k = 0; k < a.size(); ++k) r.push_back(p[k*B + pj]); same(w(_, j), r); same(cw(_, j), r);
            vec1i f(rnd(0, 4)); r.clear(); for (auto& x : f) { x = rr(-int(p.size()), int(p.size()) - 1); r.push_back(p[x < 0 ? p.size() + x : x]); } same(w[f], r); same(cw[f], r); uint_t lo = rnd(0, p.size() - 1), hi = rnd(lo, p.size() - 1); r.assign(p.begin() + lo, p.begin() + hi + 1); same(w[lo-_-hi], r); same(cw[lo-_-hi], r); same(w[_], p); same(w(_, _), p);
            must_raise([&]() { w(int(a.size()), _); }); must_raise([&]() { w[lo-_-p.size()]; }); must_raise([&]() { cw(_, uint_t(b.size())); });
            vec<2,int> x = v; auto xw = x(a, b); xw(i, _) = 55; vec<2,int> e = v; for (uint_t k = 0; k < B; ++k) e.data[p[pi*B + k]] = 55; check(e, x); xw[f] = 66; for (auto y : f) e.data[p[y < 0 ? p.size() + y : y]] = 66; check(e, x); } } }
TEST(strides) { for (uint_t n = 0; n < 5; ++n) for (uint_t m = 0; m < 5; ++m) { vec<2,int> v = iota<2,int>({{n, m}}); const auto& cv = v;
        for (int i = -int(n); i < int(n); ++i) { cur("stride(i,_)", v, i); nontrivial(); uint_t p = i < 0 ? n + i : i; std::vector<int> g, e; for (auto& x : v.stride(i, _)) g.push_back(x); for (uint_t k = 0; k < m; ++k) e.push_back(v.data[p*m + k]); check(e, g); g.clear(); for (auto& x : cv.stride(i, _)) g.push_back(x); check(e, g); vec<2,int> x = v, y = v; for (auto& t : x.stride(i, _)) t = 9; for (uint_t k = 0; k < m; ++k) y.data[p*m + k] = 9; check(y, x); }
        for (int j = -int(m); j < int(m); ++j) { cur("stride(_,j)", v, j); uint_t p = j < 0 ? m + j : j; std::vector<int> g, e; for (auto& x : v.stride(_, j)) g.push_back(x); for (uint_t k = 0; k < n; ++k) e.push_back(v.data[k*m + p]); check(e, g); g.clear(); for (auto& x : cv.stride(_, j)) g.push_back(x); check(e, g); vec<2,int> x = v, y = v; for (auto& t : x.stride(_, j)) t = 9; for (uint_t k = 0; k < n; ++k) y.data[k*m + p] = 9; check(y, x); }
        cur("stride out of range", v); must_raise([&]() { v.stride(uint_t(n), _); }); must_raise([&]() { v.stride(_, uint_t(m)); }); }
    for (uint_t n = 1; n < 4; ++n) for (uint_t m = 1; m < 4; ++m) for (uint_t l = 1; l < 4; ++l) { vec<3,int> v = iota<3,int>({{n, m, l}}); for (uint_t i = 0; i < n; ++i) for (uint_t k = 0; k < l; ++k) { cur("stride(i,_,k)", v, i, k); std::vector<int> g, e; for (auto& x : v.stride(i, _, k)) g.push_back(x); for (uint_t j = 0; j < m; ++j) e.push_back(v.data[(i*m + j)*l + k]); check(e, g); } for (uint_t j = 0; j < m; ++j) for (uint_t k = 0; k < l; ++k) { cur("stride(_,j,k)", v, j, k); std::vector<int> g, e; for (auto& x : v.stride(_, j, k)) g.push_back(x); for (uint_t i = 0; i < n; ++i) e.push_back(v.data[(i*m + j)*l + k]); check(e, g); } } }
TEST(types) { for (int q = 0; q < 2000; ++q) { uint_t n = rnd(1, 6); vec1b b(n); vec1s s(n); for (uint_t i = 0; i < n; ++i) { b.data[i] = rnd(0, 1); s.data[i] = std::to_string(rnd(0, 99)); } vec1i f(rnd(0, 5)); std::vector<bool> eb; std::vector<std::string> es; for (auto& x : f) { x = rr(-int(n), int(n) - 1); uint_t p = x < 0 ? n + x : x; eb.push_back(b.data[p]); es.push_back(s.data[p]); }
        cur("bool/string view", b, s, f); nontrivial(); vec1b rb = b[f]; vec1s rs = s[f]; check(mk<bool>(eb), rb); check(mk<std::string>(es), rs); b[f] = true; s[f] = "x"; for (auto x : f) { uint_t p = x < 0 ? n + x : x; check(true, bool(b.data[p])); check(std::string("x"), s.data[p]); } } }
ORACLE_MAIN
