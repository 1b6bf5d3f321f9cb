#include "oracle.hpp"
using namespace vif; using namespace orc;
template<typename T> static std::vector<T> seqv(std::size_t n) { std::vector<T> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = T(10 + i); return v; }
static std::vector<std::string> seqs(std::size_t n) { std::vector<std::string> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = "s" + std::to_string(i); return v; }
template<typename T> static void rev(const std::vector<T>& v) {
    cur("reverse", v); if (v.size() > 1) nontrivial(); vec<1,T> in = mk<T>(v); std::vector<T> e(v.rbegin(), v.rend()); check(mk<T>(e), reverse(in)); check(mk<T>(v), in);
}
template<typename T> static void shf(const std::vector<T>& v, long n) {
    cur("shift", v, n); nontrivial(); std::vector<T> e(v.size()); long s = v.size();
    for (long i = 0; i < s; ++i) { long t = ((i + (n % s)) % s + s) % s; e[t] = v[i]; }
    vec<1,T> in = mk<T>(v); check(mk<T>(e), shift(in, n)); check(mk<T>(v), in); inplace_shift(in, n); check(mk<T>(e), in);
}
TEST(reverse_shift) {
    for (std::size_t n = 0; n < 14; ++n) { rev(seqv<int>(n)); rev(seqs(n)); { std::vector<bool> b(n); for (std::size_t i = 0; i < n; ++i) b[i] = (i*i+1) % 3 == 1; rev(b); }
        for (long k = -40; k <= 40; ++k) { shf(seqv<int>(n), k); if (k % 5 == 0) shf(seqs(n), k); }
        for (long k : {-1000000007L, 1000000007L, (1L << 62), -(1L << 62), LONG_MAX, LONG_MIN}) shf(seqv<int>(n), k); }
    for (int it = 0; it < 300; ++it) { std::size_t n = rnd(1, 300); rev(seqv<long>(n)); shf(seqv<long>(n), rnd(-2000, 2000)); }
}
TEST(transposed) {
    for (uint_t a = 0; a < 8; ++a) for (uint_t b = 0; b < 8; ++b) {
        vec<2,int> v = iota<2,int>({{a, b}}); vec<2,int> e = iota<2,int>({{b, a}}); for (uint_t i = 0; i < a; ++i) for (uint_t j = 0; j < b; ++j) e.data[j*a+i] = v.data[i*b+j];
        cur("transpose", v); nontrivial(); vec<2,int> c = v; check(e, transpose(v)); check(c, v); check(v, transpose(transpose(v)));
    }
}
TEST(replicated) {
    for (uint_t n = 0; n < 5; ++n) { cur("replicate(scalar)", 7, n); check(mk<int>(std::vector<int>(n, 7)), replicate(7, n));
        for (uint_t m = 0; m < 4; ++m) { cur("replicate(scalar)", 7, n, m); nontrivial(); check(mkd<2,int>({{n, m}}, std::vector<int>(n*m, 7)), replicate(7, n, m)); } }
    for (uint_t p = 0; p < 5; ++p) for (uint_t n = 0; n < 4; ++n) for (uint_t m = 0; m < 4; ++m) {
        vec<1,int> v = iota<1,int>({{p}}); std::vector<int> e; for (uint_t i = 0; i < n; ++i) for (uint_t j = 0; j < p; ++j) e.push_back(v.data[j]);
        cur("replicate(vec)", v, n); nontrivial(); check(mkd<2,int>({{n, p}}, e), replicate(v, n));
        std::vector<int> e3; for (uint_t i = 0; i < n*m; ++i) for (uint_t j = 0; j < p; ++j) e3.push_back(v.data[j]);
        cur("replicate(vec)", v, n, m); check(mkd<3,int>({{n, m, p}}, e3), replicate(v, n, m));
        vec<2,int> w = iota<2,int>({{m, p}}); std::vector<int> e2; for (uint_t i = 0; i < n; ++i) for (int x : w.data) e2.push_back(x);
        cur("replicate(2d)", w, n); check(mkd<3,int>({{n, m, p}}, e2), replicate(w, n));
    }
}
TEST(joined_1d) {
    for (std::size_t n = 0; n < 7; ++n) for (std::size_t m = 0; m < 7; ++m) {
        auto a = seqv<int>(n); std::vector<int> b(m); for (std::size_t i = 0; i < m; ++i) b[i] = -int(i) - 1;
        vec<1,int> x = mk<int>(a), y = mk<int>(b); std::vector<int> e = a; e.insert(e.end(), b.begin(), b.end());
        cur("append", x, y); nontrivial(); append(x, y); check(mk<int>(e), x); check(mk<int>(b), y);
        x = mk<int>(a); e = b; e.insert(e.end(), a.begin(), a.end()); cur("prepend", x, y); prepend(x, y); check(mk<int>(e), x); check(mk<int>(b), y);
        vec1s sx = mk<std::string>(seqs(n)), sy = mk<std::string>(seqs(m)); append(sx, sy); check(sx.dims[0], uint_t(n+m)); check_inv(sx);
        vec1d dx = mk<double>(std::vector<double>(n, 0.5)); cur("append(converting)", dx, y); append(dx, y); std::vector<double> ed(n, 0.5); for (int q : b) ed.push_back(q); check(mk<double>(ed), dx);
        // views as the added part
        if (m) { vec1u ids; for (std::size_t i = 0; i < m; ++i) ids.push_back(m-1-i); x = mk<int>(a); cur("append(view)", x, y); append(x, y[ids]); e = a; e.insert(e.end(), b.rbegin(), b.rend()); check(mk<int>(e), x);
                 x = mk<int>(a); cur("prepend(view)", x, y); prepend(x, y[ids]); e.assign(b.rbegin(), b.rend()); e.insert(e.end(), a.begin(), a.end()); check(mk<int>(e), x); }
    }
}
template<std::size_t D> static std::vector<std::array<uint_t,D>> alldims(uint_t mx) {
    std::vector<std::array<uint_t,D>> r; std::array<uint_t,D> d; d.fill(0);
    while (true) { r.push_back(d); std::size_t k = D; bool done = true; while (k > 0) { --k; if (++d[k] < mx) { done = false; break; } d[k] = 0; } if (done) return r; }
}
template<std::size_t D> static int at(const vec<D,int>& v, const std::array<uint_t,D>& ix) { std::size_t p = 0; for (std::size_t k = 0; k < D; ++k) p = p*v.dims[k] + ix[k]; return v.data[p]; }
template<std::size_t N, std::size_t D> static void joinN(uint_t mx) {
    for (auto& da : alldims<D>(mx)) for (auto& db : alldims<D>(mx)) {
        vec<D,int> a = iota<D,int>(da, 1), b = iota<D,int>(db, 1001); bool compat = true; for (std::size_t k = 0; k < D; ++k) if (k != N && da[k] != db[k]) compat = false;
        for (int pre = 0; pre < 2; ++pre) {
            vec<D,int> x = a; auto run = [&]() { if (pre) prepend<N>(x, b); else append<N>(x, b); };
            cur(pre ? "prepend<N>" : "append<N>", uint_t(N), a, b);
            if (a.data.empty() || b.data.empty()) {          // joining with nothing leaves the other part
                no_raise(run); check(a.data.empty() ? b : a, x); continue; }
            nontrivial();
            if (!compat) { must_raise(run); continue; }
            no_raise(run); std::array<uint_t,D> de = da; de[N] += db[N]; vec<D,int> e = iota<D,int>(de, 0); std::size_t q = 0;
            std::array<uint_t,D> ix; ix.fill(0);
            for (q = 0; q < e.data.size(); ++q) { std::size_t r = q; for (std::size_t k = D; k-- > 0;) { ix[k] = r % de[k]; r /= de[k]; }
                uint_t first = pre ? db[N] : da[N]; auto jx = ix; bool infirst = ix[N] < first; if (!infirst) jx[N] -= first;
                e.data[q] = (infirst != bool(pre)) ? at<D>(a, jx) : at<D>(b, jx); }
            check(e, x); check(iota<D,int>(db, 1001), b);
        }
    }
}
TEST(joined_2d) { joinN<0,2>(4); joinN<1,2>(4); }
TEST(joined_3d) { joinN<0,3>(3); joinN<1,3>(3); joinN<2,3>(3); }
static void rem1(std::size_t n, const std::vector<uint_t>& ids) {
    auto a = seqv<int>(n); vec<1,int> v = mk<int>(a); vec1u id = mk<uint_t>(ids); cur("remove", v, id); nontrivial();
    bool ok = true; std::vector<bool> del(n, false); for (auto i : ids) { if (i >= n || del[i]) { ok = false; break; } del[i] = true; }
    std::vector<int> e; for (std::size_t i = 0; i < n; ++i) if (!del[i]) e.push_back(a[i]);
    if (!ok) { must_raise([&]() { remove(v, id); }); must_raise([&]() { inplace_remove(v, id); }); return; }
    no_raise([&]() { check(mk<int>(e), remove(v, id)); check(mk<int>(a), v); inplace_remove(v, id); check(mk<int>(e), v); check(mk<uint_t>(ids), id); });
}
TEST(removed_1d) {
    for (std::size_t n = 0; n <= 5; ++n) { std::vector<uint_t> al; for (uint_t i = 0; i <= n; ++i) al.push_back(i); all_upto<uint_t>(n <= 4 ? 4 : 3, al, [&](const std::vector<uint_t>& ids) { rem1(n, ids); }); }
    for (int it = 0; it < 2000; ++it) { std::size_t n = rnd(1, 40); std::vector<uint_t> ids; for (std::size_t i = 0; i < n; ++i) if (rnd(0, 2) == 0) ids.push_back(i); std::shuffle(ids.begin(), ids.end(), rng); if (rnd(0, 4) == 0 && !ids.empty()) ids.push_back(ids[rnd(0, ids.size()-1)]); if (rnd(0, 6) == 0) ids.push_back(n + rnd(0, 3)); rem1(n, ids); }
}
TEST(removed_2d) {
    for (uint_t n = 0; n < 4; ++n) for (uint_t m = 1; m < 4; ++m) { std::vector<uint_t> al; for (uint_t i = 0; i <= n + 1; ++i) al.push_back(i);
        all_upto<uint_t>(4, al, [&](const std::vector<uint_t>& ids) {
            vec<2,int> v = iota<2,int>({{n, m}}); vec1u id = mk<uint_t>(ids); cur("remove(2d)", v, id); nontrivial();
            bool ok = true; std::vector<bool> del(n, false); for (auto i : ids) { if (i >= n || del[i]) { ok = false; break; } del[i] = true; }
            if (!ok) { must_raise([&]() { remove(v, id); }); return; }
            std::vector<int> e; uint_t k = 0; for (uint_t i = 0; i < n; ++i) if (!del[i]) { ++k; for (uint_t j = 0; j < m; ++j) e.push_back(v.data[i*m+j]); }
            no_raise([&]() { check(mkd<2,int>({{k, m}}, e), remove(v, id)); });
        }); }
}
ORACLE_MAIN
