#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/reduce.hpp>
using namespace vif; using namespace orc;
typedef std::vector<double> D;
static const double NaN = dnan;
static bool same(double a, double b) { return (a != a && b != b) || a == b; }
static void eqd(double e, double g) { check_true(same(e, g), "expected " + std::to_string(e) + " got " + std::to_string(g)); }
static D clean(const D& v) { D r; for (double x : v) if (x == x) r.push_back(x); std::sort(r.begin(), r.end()); return r; }
template<typename V> static void extremes(const V& a, const D& v) {
    uint_t lo = npos, hi = npos, hil = npos;
    for (uint_t i = 0; i < v.size(); ++i) if (v[i] == v[i]) { if (lo == npos || v[i] < v[lo]) lo = i; if (hi == npos || v[i] > v[hi]) hi = i; if (hil == npos || v[i] >= v[hil]) hil = i; }
    if (v.empty()) { must_raise([&]{ min(a); }); must_raise([&]{ max(a); }); must_raise([&]{ min_id(a); }); must_raise([&]{ max_id(a); }); must_raise([&]{ minmax(a); }); return; }
    if (lo == npos) { check_true(min(a) != min(a) && max(a) != max(a), "not-a-number expected"); check_true(min_id(a) < v.size() && max_id(a) < v.size(), "id"); return; }
    check(v[lo], double(min(a))); check(v[hi], double(max(a))); check(lo, min_id(a)); check(hi, max_id(a));
    uint_t id = 77; check(v[lo], double(min(a, id))); check(lo, id); check(v[hi], double(max(a, id))); check(hi, id);
    auto mm = minmax(a); check(v[lo], double(mm.first)); check(v[hi], double(mm.second));
    auto mi = minmax_ids(a); check(lo, mi.first); check(v[hi], v[mi.second]); check(hil, mi.second);
    std::pair<uint_t,uint_t> ids; mm = minmax(a, ids); check(v[lo], double(mm.first)); check(v[hi], double(mm.second)); check(lo, ids.first); check(hil, ids.second);
}
static void ranks(const D& v) {
    auto a = mk<double>(v); D c = clean(v);
    if (v.empty()) { must_raise([&]{ median(a); }); must_raise([&]{ percentile(a, 0.5); }); must_raise([&]{ percentiles(a, 0.5, 0.2); }); return; }
    if (c.empty()) { eqd(NaN, median(a)); eqd(NaN, percentile(a, 0.3)); auto r = percentiles(a, 0.1, 1.0); check(uint_t(2), r.size()); eqd(NaN, r[0]); eqd(NaN, r[1]); return; }
    eqd(c[c.size()/2], median(a));
    for (double p : {0.0, 0.1, 0.25, 0.5, 0.75, 0.99, 1.0}) { cur("percentile", a, p); eqd(c[std::min(uint_t(c.size()-1), uint_t(c.size()*p))], percentile(a, p)); }
    cur("percentiles", a); auto r = percentiles(a, 0.1, 0.5, 1.0); check(uint_t(3), r.size());
    eqd(c[uint_t(c.size()*0.1)], r[0]); eqd(c[uint_t(c.size()*0.5)], r[1]); eqd(c.back(), r[2]);
    auto b = a; cur("inplace_median", a); eqd(c[c.size()/2], inplace_median(b)); D s = clean(D(b.begin(), b.end())); check_true(s == c && b.size() == a.size(), "same elements");
}
TEST(extremes_exhaustive) {
    all_upto<double>(thorough ? 7 : 5, {1, 2, 3, NaN}, [](const D& v) { auto a = mk<double>(v); cur("min/max", a); nontrivial(); extremes(a, v); });
    all_upto<double>(thorough ? 8 : 6, {-1, 0, 1}, [](const D& v) { vec<1,int> a(v.size()); for (uint_t i = 0; i < v.size(); ++i) a.safe[i] = v[i]; cur("min/max int", a); nontrivial(); extremes(a, v); });
}
TEST(extremes_dims) {
    for (int it = 0; it < 2000; ++it) {
        uint_t p = rnd(0, 4), q = rnd(0, 4); D v(p*q); for (auto& x : v) x = rnd(0, 4) ? rnd(-3, 3) : NaN;
        auto m = mkd<2,double>({{p, q}}, v); cur("min/max 2d", m); nontrivial(); extremes(m, v);
        if (p*q) { vec1u ids; for (uint_t i = 0; i < p*q; ++i) ids.push_back(p*q-1-i); D r(v.rbegin(), v.rend()); vec1d f = flatten(m); cur("min/max view", f); extremes(f[ids], r); }
    }
}
TEST(ranks_exhaustive) { all_upto<double>(thorough ? 7 : 5, {1, 2, 3, NaN}, [](const D& v) { cur("median", v); nontrivial(); ranks(v); }); }
TEST(ranks_random) { for (int it = 0; it < 1500; ++it) { D v(rnd(0, 60)); int z = rnd(1, 6); for (auto& x : v) x = rnd(0, z) ? rnd(-20, 20) : NaN; cur("median", v); nontrivial(); ranks(v); } }
TEST(ranks_int) {
    for (int it = 0; it < 1500; ++it) { D v(rnd(1, 30)); vec<1,int> a(v.size()); for (uint_t i = 0; i < v.size(); ++i) a.safe[i] = v[i] = rnd(-9, 9); D c = clean(v); cur("median int", a); nontrivial();
        check(int(c[c.size()/2]), median(a)); for (double p : {0.0, 0.3, 0.9, 1.0}) check(int(c[std::min(uint_t(c.size()-1), uint_t(c.size()*p))]), percentile(a, p)); }
}
TEST(sums) {
    all_upto<double>(6, {-2, 0, 3}, [](const D& v) {
        auto a = mk<double>(v); vec<1,int> ai(v.size()); vec<1,unsigned char> au(v.size()); vec<1,bool> b(v.size()); double t = 0, t2 = 0; uint_t n = 0, tu = 0;
        for (uint_t i = 0; i < v.size(); ++i) { t += v[i]; t2 += v[i]*v[i]; ai.safe[i] = v[i]; au.safe[i] = 100 + v[i]; tu += 100 + v[i]; b.safe[i] = v[i] > 0; n += v[i] > 0; }
        cur("total", a); nontrivial(); check(t, total(a)); check(int_t(t), int_t(total(ai))); check(tu, uint_t(total(au))); check(n, count(b)); check(n, count(b[_]));
        if (v.size()) { eqd(t/v.size(), mean(a)); eqd(t/v.size(), mean(ai)); eqd(double(n)/v.size(), fraction_of(b)); check_true(std::abs(rms(a) - std::sqrt(t2/v.size())) < 1e-9, "rms");
            vec<1,bool> am(v.size()); uint_t na = 0, nb = 0; for (uint_t i = 0; i < v.size(); ++i) { am.safe[i] = v[i] != 0; na += v[i] != 0; nb += v[i] > 0; } if (na) eqd(double(nb)/na, fraction_of(b, am));
            vec1d w(v.size()); double tw = 0, tv = 0; for (uint_t i = 0; i < v.size(); ++i) { w.safe[i] = 1 << (i % 3); tw += w.safe[i]; tv += w.safe[i]*v[i]; } eqd(tv/tw, weighted_mean(a, w)); }
        must_raise([&]{ vec1d w(v.size()+1); weighted_mean(a, w); });
    });
    vec<1,int> big = replicate(2000000000, 5); cur("total large"); check(int_t(10000000000), int_t(total(big)));
}
TEST(elementwise) {
    all_seq<double>(3, {-1, 0, 2}, [](const D& v) { all_seq<double>(3, {-1, 0, 2}, [&](const D& w) {
        auto a = mk<double>(v), b = mk<double>(w); auto lo = min(a, b), hi = max(a, b); auto l2 = min(a, w[1]), h2 = max(a, w[1]); auto l3 = min(v[0], b), h3 = max(v[0], b); cur("elementwise min/max", a, b); nontrivial();
        check(uint_t(3), lo.size()); for (uint_t i = 0; i < 3; ++i) { check(std::min(v[i], w[i]), lo[i]); check(std::max(v[i], w[i]), hi[i]); check(std::min(v[i], w[1]), l2[i]); check(std::max(v[i], w[1]), h2[i]); check(std::min(v[0], w[i]), l3[i]); check(std::max(v[0], w[i]), h3[i]); }
    }); });
    vec1d a(2), b(3); cur("elementwise mismatch"); must_raise([&]{ min(a, b); }); must_raise([&]{ max(a, b); });
    vec<2,double> m(2, 3), n(3, 2); must_raise([&]{ min(m, n); }); must_raise([&]{ max(m, n); }); check_inv(min(m, m)); check_inv(max(1.0, m));
    check(1.0, min(1.0, 2.0)); check(2.0, max(1.0, 2.0));
}
template<std::size_t N> static void axis(const std::array<std::size_t,N>& ds) {
    std::size_t tot = 1; for (auto d : ds) tot *= d; D v(tot); for (auto& x : v) x = rnd(0, 6) ? rnd(-20, 20) : NaN;
    vec<N,double> m = mkd<N,double>(ds, v); vec<N,int> mi(m.dims); vec<N,bool> mb(m.dims); for (uint_t i = 0; i < tot; ++i) { mi.safe[i] = v[i] == v[i] ? v[i] : 0; mb.safe[i] = v[i] > 0; }
    for (uint_t d = 0; d < N; ++d) {
        std::vector<D> sl; std::array<std::size_t,N-1> od; for (uint_t i = 0, j = 0; i < N; ++i) if (i != d) od[j++] = ds[i];
        std::size_t pitch = 1, np = 1; for (uint_t i = 0; i < N; ++i) { if (i > d) pitch *= ds[i]; if (i != d) np *= ds[i]; }
        std::vector<std::vector<uint_t>> pos(np);
        // enumerate the elements in order, grouping them by the other coordinates
        for (uint_t i = 0; i < tot; ++i) { std::array<std::size_t,N> c; std::size_t r = i; for (int q = N-1; q >= 0; --q) { c[q] = r % ds[q]; r /= ds[q]; } std::size_t o = 0; for (uint_t q = 0; q < N; ++q) if (q != d) o = o*ds[q] + c[q]; pos[o].push_back(i); }
        cur("axis", m, d); nontrivial();
        uint_t calls = 0; run_dim(d, m, mi, [&](uint_t i, const vec1d& s, const vec<1,int>& t) { check(calls, i); ++calls; check(pos[i].size(), s.size()); check(pos[i].size(), t.size()); for (uint_t j = 0; j < s.size() && j < pos[i].size(); ++j) { eqd(v[pos[i][j]], s[j]); check(mi.safe[pos[i][j]], t[j]); } });
        check(uint_t(np), calls);
        auto chk = [&](const vec<N-1,double>& r, const char* w, std::function<double(const vec1d&)> f) { cur(w, m, d); for (uint_t i = 0; i < N-1; ++i) check(od[i], r.dims[i]); check_inv(r); for (uint_t i = 0; i < np && i < r.size(); ++i) { vec1d s; for (auto p : pos[i]) s.push_back(v[p]); eqd(f(s), r.safe[i]); } };
        chk(reduce(d, m, [](vec1d s) { double h = 0; for (double x : s) h = 3*h + (x == x ? x : 0.5); return h; }), "reduce", [](const vec1d& s) { double h = 0; for (double x : s) h = 3*h + (x == x ? x : 0.5); return h; });
        if (ds[d] || np == 0) { chk(partial_min(d, m), "partial_min", [](const vec1d& s) { return min(s); }); chk(partial_max(d, m), "partial_max", [](const vec1d& s) { return max(s); }); chk(partial_median(d, m), "partial_median", [](const vec1d& s) { return median(s); }); chk(partial_percentile(d, m, 0.3), "partial_percentile", [](const vec1d& s) { return percentile(s, 0.3); }); chk(partial_mean(d, m), "partial_mean", [](const vec1d& s) { return mean(s); }); }
        chk(partial_total(d, m), "partial_total", [](const vec1d& s) { return total(s); });
        auto c = partial_count(d, mb); cur("partial_count", mb, d); for (uint_t i = 0; i < np; ++i) { uint_t k = 0; for (auto p : pos[i]) k += mb.safe[p]; check(k, c.safe[i]); }
        auto t = partial_total(d, mi); cur("partial_total int", mi, d); for (uint_t i = 0; i < np; ++i) { int_t k = 0; for (auto p : pos[i]) k += mi.safe[p]; check(k, int_t(t.safe[i])); }
    }
    must_raise([&]{ partial_total(N, m); }); must_raise([&]{ reduce(N, m, [](vec1d s) { return 0.0; }); }); must_raise([&]{ run_dim(N, m, [](uint_t, vec1d) {}); });
}
TEST(axes) {
    for (std::size_t a = 0; a < 4; ++a) for (std::size_t b = 0; b < 4; ++b) { axis<2>({{a, b}}); for (std::size_t c = 0; c < 4; ++c) axis<3>({{a, b, c}}); }
    for (int i = 0; i < 40; ++i) { axis<3>({{std::size_t(rnd(1, 6)), std::size_t(rnd(1, 6)), std::size_t(rnd(1, 6))}}); axis<4>({{std::size_t(rnd(1, 4)), std::size_t(rnd(1, 4)), std::size_t(rnd(1, 4)), std::size_t(rnd(1, 4))}}); }
    vec<2,double> m(2, 3), n(3, 2); cur("run_dim mismatch"); must_raise([&]{ run_dim(0, m, n, [](uint_t, vec1d, vec1d) {}); });
}
TEST(weighted) {
    for (int it = 0; it < 2000; ++it) { D v(rnd(1, 8)), w(v.size()); double tw = 0; for (uint_t i = 0; i < v.size(); ++i) { v[i] = rnd(0, 5) ? rnd(-3, 3) : NaN; w[i] = rnd(0, 4); if (v[i] == v[i]) tw += w[i]; }
        double p = 0.25*rnd(0, 4), e = NaN; vec1u o; std::vector<uint_t> id; for (uint_t i = 0; i < v.size(); ++i) if (v[i] == v[i]) id.push_back(i); std::stable_sort(id.begin(), id.end(), [&](uint_t a, uint_t b) { return v[a] < v[b]; });
        double t = 0; if (tw > 0) for (auto i : id) { t += w[i]; if (t >= tw*p) { e = v[i]; break; } }
        cur("weighted_percentile", v, w, p); nontrivial(); eqd(e, weighted_percentile(mk<double>(v), mk<double>(w), p)); }
}
ORACLE_MAIN
