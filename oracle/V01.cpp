#include "oracle.hpp"
using namespace vif; using namespace orc;
template<typename T> T val(std::size_t k) { return T(k + 1); }
template<> std::string val<std::string>(std::size_t k) { return "e" + std::to_string(k); }
template<> bool val<bool>(std::size_t k) { return k % 2 == 0; }
template<std::size_t D, typename T> vec<D,T> seq(const std::array<uint_t,D>& d) { std::vector<T> v(prod(d)); for (std::size_t i = 0; i < v.size(); ++i) v[i] = val<T>(i); return mkd<D,T>(d, v); }
template<typename F> void dims1(uint_t m, F&& f) { for (uint_t a = 0; a < m; ++a) f(std::array<uint_t,1>{{a}}); }
template<typename F> void dims2(uint_t m, F&& f) { for (uint_t a = 0; a < m; ++a) for (uint_t b = 0; b < m; ++b) f(std::array<uint_t,2>{{a, b}}); }
template<typename F> void dims3(uint_t m, F&& f) { for (uint_t a = 0; a < m; ++a) for (uint_t b = 0; b < m; ++b) for (uint_t c = 0; c < m; ++c) f(std::array<uint_t,3>{{a, b, c}}); }
template<std::size_t D, typename T> void basics(const std::array<uint_t,D>& d) {
    vec<D,T> v = seq<D,T>(d), e = seq<D,T>(d); std::vector<T> zero(prod(d), T());
    cur("construct", d); nontrivial(); check(mkd<D,T>(d, zero), vec<D,T>(d));
    cur("copy", v); vec<D,T> c(v); check(e, c); check(e, v);
    cur("move", v); vec<D,T> m(std::move(c)); check(e, m); check_inv(c); cur("use after move", v); c = v; check(e, c);
    cur("assign", v); vec<D,T> a; a = v; check(e, a); a = a; check(e, a); vec<D,T> b; std::array<uint_t,D> d1 = d; for (auto& x : d1) x += 1; b.resize(d1); b = v; check(e, b);
    cur("move-assign", v); vec<D,T> g; g.resize(d1); g = std::move(b); check(e, g); check_inv(b);
    cur("clear", v); g.clear(); check_inv(g); check(uint_t(0), uint_t(g.size())); for (auto x : g.dims) check(uint_t(0), uint_t(x));
    cur("flatten", v); { vec<1,T> f = flatten(v); check(plain(e), plain(f)); check_inv(f); check(e, v); vec<D,T> w = v; vec<1,T> f2 = flatten(std::move(w)); check(plain(e), plain(f2)); check_inv(f2); check_inv(w); }
    cur("default construct"); vec<D,T> z; check_inv(z); check(uint_t(0), uint_t(z.size()));
}
template<std::size_t D, typename T, typename ... A> void rsz(const std::array<uint_t,D>& from, const std::array<uint_t,D>& to, A ... args) {
    vec<D,T> v = seq<D,T>(from); std::vector<T> e = plain(v); e.resize(prod(to), T()); cur("resize", v, to); nontrivial(); v.resize(args...); check(mkd<D,T>(to, e), v);
}
template<std::size_t D, typename T, std::size_t E, typename ... A> void rfm(const std::array<uint_t,D>& from, const std::array<uint_t,E>& to, A ... args) {
    vec<D,T> v = seq<D,T>(from); std::vector<T> e = plain(v); cur("reform", v, to); nontrivial();
    if (prod(from) != prod(to)) { must_raise([&]() { reform(v, args...); }); check_inv(v); vec<D,T> w = v; must_raise([&]() { reform(std::move(w), args...); }); check_inv(w); return; }
    check(mkd<E,T>(to, e), reform(v, args...)); check(seq<D,T>(from), v); vec<D,T> w = v; check(mkd<E,T>(to, e), reform(std::move(w), args...)); check_inv(w);
}
TEST(basics) {
    dims1(6, [](std::array<uint_t,1> d) { basics<1,int>(d); basics<1,std::string>(d); basics<1,bool>(d); basics<1,double>(d); });
    dims2(4, [](std::array<uint_t,2> d) { basics<2,int>(d); basics<2,std::string>(d); basics<2,bool>(d); });
    dims3(4, [](std::array<uint_t,3> d) { basics<3,int>(d); basics<3,float>(d); });
    dims2(3, [](std::array<uint_t,2> p) { dims2(3, [&](std::array<uint_t,2> q) { basics<4,int>({{p[0], p[1], q[0], q[1]}}); cur("construct mixed", p, q); check(mkd<4,int>({{p[0], p[1], q[0], q[1]}}, std::vector<int>(prod(p)*prod(q))), vec<4,int>(p, q[0], q[1])); check(mkd<3,int>({{q[1], p[0], p[1]}}, std::vector<int>(prod(p)*q[1])), vec<3,int>(q[1], p)); }); });
}
TEST(resized) {
    dims1(7, [](std::array<uint_t,1> a) { dims1(7, [&](std::array<uint_t,1> b) { rsz<1,int>(a, b, b[0]); rsz<1,std::string>(a, b, b[0]); rsz<1,bool>(a, b, b[0]); rsz<1,double>(a, b, b); }); });
    dims2(4, [](std::array<uint_t,2> a) { dims2(4, [&](std::array<uint_t,2> b) { rsz<2,int>(a, b, b[0], b[1]); rsz<2,std::string>(a, b, b); }); });
    dims3(3, [](std::array<uint_t,3> a) { dims3(3, [&](std::array<uint_t,3> b) { rsz<3,int>(a, b, b[0], b[1], b[2]); }); });
    dims3(4, [](std::array<uint_t,3> b) { rsz<3,int>({{2, 1, 3}}, b, b[0], b[1], b[2]); });
}
TEST(reshaped) {
    dims2(5, [](std::array<uint_t,2> a) { dims2(5, [&](std::array<uint_t,2> b) { rfm<2,int>(a, b, b[0], b[1]); rfm<2,std::string>(a, b, b); }); for (uint_t n = 0; n < 18; ++n) { rfm<2,int>(a, std::array<uint_t,1>{{n}}, n); rfm<1,int>(std::array<uint_t,1>{{n}}, a, a[0], a[1]); } });
    dims3(4, [](std::array<uint_t,3> a) { dims2(7, [&](std::array<uint_t,2> b) { rfm<3,int>(a, b, b[0], b[1]); rfm<2,int>(b, a, a[0], a[1], a[2]); rfm<2,int>(b, a, a); }); });
    dims2(4, [](std::array<uint_t,2> a) { vec<2,int> v = seq<2,int>(a); cur("reform/flatten of a view", v); auto w = v(_, _); vec<1,int> f = flatten(w); check(plain(v), plain(f)); check_inv(f); vec<2,int> r = reform(w, a[1], a[0]); check(plain(v), plain(r)); check_inv(r); must_raise([&]() { reform(w, a[1], a[0], 2); if (prod(a) == 0) raise_error(); }); });
}
TEST(pushed) {
    for (uint_t n = 0; n < 20; ++n) { vec<1,int> v; vec1s s; vec1b b; std::vector<int> e; std::vector<std::string> es; std::vector<bool> eb; for (uint_t i = 0; i < n; ++i) { v.push_back(int(i)); e.push_back(i); s.push_back(val<std::string>(i)); es.push_back(val<std::string>(i)); b.push_back(i % 3 == 0); eb.push_back(i % 3 == 0); } cur("push_back", n); nontrivial(); check(mk<int>(e), v); check(mk<std::string>(es), s); check(mk<bool>(eb), b);
        if (n) { v.push_back(v[0]); e.push_back(e[0]); s.push_back(s[0]); es.push_back(es[0]); check(mk<int>(e), v); check(mk<std::string>(es), s); } }
    dims2(5, [](std::array<uint_t,2> d) { for (uint_t n = 0; n < 5; ++n) {
        vec<2,int> v = seq<2,int>(d); vec<1,int> x(n); for (uint_t i = 0; i < n; ++i) x.data[i] = 100 + i; cur("push_back(row)", v, x); nontrivial();
        if (v.data.empty()) { vec<2,int> w = v; w.push_back(x); check(mkd<2,int>({{1, n}}, plain(x)), w); }
        else if (n != d[1]) { vec<2,int> w = v; must_raise([&]() { w.push_back(x); }); check(v, w); must_raise([&]() { w.push_back(x[_]); }); }
        else { vec<2,int> w = v; std::vector<int> e = plain(v); for (int t : x.data) e.push_back(t); w.push_back(x); check(mkd<2,int>({{d[0]+1, n}}, e), w); vec<2,int> u = v; u.push_back(x[_]); check(w, u); w = v; w.push_back(w(0, _)); check_inv(w); check(plain(v).size() + n, plain(w).size()); for (uint_t i = 0; i < n; ++i) check(v.data[i], w.data[v.data.size()+i]); }
    } });
    dims3(3, [](std::array<uint_t,3> d) { dims2(3, [&](std::array<uint_t,2> x) { vec<3,int> v = seq<3,int>(d); vec<2,int> p = seq<2,int>(x); cur("push_back(2d)", v, p); nontrivial();
        if (v.data.empty()) { vec<3,int> w = v; w.push_back(p); check(mkd<3,int>({{1, x[0], x[1]}}, plain(p)), w); }
        else if (x[0] != d[1] || x[1] != d[2]) { vec<3,int> w = v; must_raise([&]() { w.push_back(p); }); check(v, w); }
        else { vec<3,int> w = v; std::vector<int> e = plain(v); for (int t : p.data) e.push_back(t); w.push_back(p); check(mkd<3,int>({{d[0]+1, d[1], d[2]}}, e), w); } }); });
}
TEST(lists) {
    cur("list"); nontrivial(); check(mk<int>({}), vec<1,int>{}); check(mk<int>({7}), vec<1,int>{7}); check(mk<int>({7,8,9}), vec<1,int>{7,8,9}); vec<1,int> v = {1,2,3,4}; v = {5}; check(mk<int>({5}), v); v = {6,7,8,9,10}; check(mk<int>({6,7,8,9,10}), v);
    check(mkd<2,int>({{1,2}}, {1,2}), vec<2,int>{{1,2}}); check(mkd<2,int>({{2,3}}, {1,2,3,4,5,6}), vec<2,int>{{1,2,3},{4,5,6}}); check(mkd<2,int>({{3,1}}, {1,2,3}), vec<2,int>{{1},{2},{3}});
    check(mkd<3,int>({{2,1,2}}, {1,2,3,4}), vec<3,int>{{{1,2}},{{3,4}}}); check(mkd<3,int>({{2,2,3}}, {1,2,3,4,5,6,7,8,9,10,11,12}), vec<3,int>{{{1,2,3},{4,5,6}},{{7,8,9},{10,11,12}}});
    vec<2,int> w; cur("ragged list"); must_raise([&]() { w = {{1,2},{3}}; }); must_raise([&]() { w = {{1},{2,3}}; }); vec<3,int> u; must_raise([&]() { u = {{{1,2},{3,4}},{{5,6}}}; }); must_raise([&]() { u = {{{1,2},{3}},{{5,6},{7,8}}}; }); must_raise([&]() { u = {{{1,2},{3,4}},{{5,6},{7}}}; });
}
TEST(conversions) {
    dims2(4, [](std::array<uint_t,2> d) { vec<2,int> v = seq<2,int>(d); vec<2,double> e; e.dims = d; for (int x : v.data) e.data.push_back(x); cur("convert", v); nontrivial(); vec<2,double> c(v); check(e, c); vec<2,double> a(9, 9); a = v; check(e, a);
        vec<2,int> w = v(_, _); check(v, w); check(v, v(_, _).concretise()); vec<2,double> b; b = v(_, _); check(e, b); vec<2,int> t(e); check(v, t); });
}
TEST(sequences) {
    // random histories of operations; the invariant and the content are compared with a plain std::vector after every step
    for (int it = 0; it < (thorough ? 20000 : 1500); ++it) {
        vec<1,int> v; std::vector<int> e; std::string h;
        for (int s = 0; s < 12; ++s) {
            int op = rnd(0, 11); uint_t n = rnd(0, 6); std::string o;
            if (op == 0) { v.resize(n); e.resize(n); o = "resize"; } else if (op == 1) { v.push_back(s); e.push_back(s); o = "push_back"; } else if (op == 2) { v.clear(); e.clear(); o = "clear"; }
            else if (op == 3) { vec<1,int> w = std::move(v); check_inv(v); v = w; o = "move"; } else if (op == 4) { vec<1,int> w; w = std::move(v); check_inv(v); v = std::move(w); check_inv(w); o = "move="; }
            else if (op == 5) { v = flatten(std::move(v)); o = "flatten"; } else if (op == 6) { v = reform(std::move(v), e.size()); o = "reform"; }
            else if (op == 7) { vec<1,int> w = iota<1,int>({{n}}); append(v, w); for (int x : w.data) e.push_back(x); o = "append"; } else if (op == 8) { vec<1,int> w = iota<1,int>({{n}}); prepend(v, w); e.insert(e.begin(), w.data.begin(), w.data.end()); o = "prepend"; }
            else if (op == 9 && !e.empty()) { uint_t k = rnd(0, e.size()-1); inplace_remove(v, vec1u{k}); e.erase(e.begin() + k); o = "remove"; } else if (op == 10) { v = vec<1,int>(n); e.assign(n, 0); o = "construct"; }
            else if (op == 11) { v = {s, s+1}; e = {s, s+1}; o = "list"; }
            h += o + "(" + std::to_string(n) + ") "; cur("history", h); nontrivial(); check_inv(v); check(mk<int>(e), v);
        }
    }
    for (int it = 0; it < (thorough ? 10000 : 800); ++it) {
        vec<2,int> v; std::string h;
        for (int s = 0; s < 10; ++s) {
            int op = rnd(0, 8); uint_t n = rnd(0, 3), m = rnd(0, 3); std::string o; vec<2,int> w = iota<2,int>({{n, m}});
            raises([&]() { if (op == 0) { o = "resize"; v.resize(n, m); } else if (op == 1) { o = "clear"; v.clear(); } else if (op == 2) { o = "append<0>"; append<0>(v, w); } else if (op == 3) { o = "append<1>"; append<1>(v, w); } else if (op == 4) { o = "prepend<1>"; prepend<1>(v, w); }
            else if (op == 5) { o = "push_back"; v.push_back(iota<1,int>({{m}})); } else if (op == 6) { o = "reform"; v = reform(v, n, m); } else if (op == 7) { o = "reform(move)"; vec<2,int> t = v; v = reform(std::move(t), n, m); check_inv(t); } else { o = "move"; w = std::move(v); check_inv(v); v = std::move(w); check_inv(w); } });
            h += o + "(" + std::to_string(n) + "," + std::to_string(m) + ") "; cur("history", h); nontrivial(); check_inv(v); check_inv(w);
        }
    }
}
ORACLE_MAIN
