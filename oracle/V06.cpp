#include "oracle.hpp"
using namespace vif; using namespace orc;
static std::vector<uint_t> def(const std::vector<bool>& v) { std::vector<uint_t> r; for (std::size_t i = 0; i < v.size(); ++i) if (v[i]) r.push_back(i); return r; }
static void one(const std::vector<bool>& v) {
    vec1b b = mk<bool>(v); auto d = def(v);
    cur("where", b); if (!d.empty() && d.size() < v.size()) nontrivial();
    auto w = where(b); check(mk<uint_t>(d), w);
    cur("where_first", b); check(d.empty() ? npos : d.front(), where_first(b));
    cur("where_last", b); check(d.empty() ? npos : d.back(), where_last(b));
    std::vector<bool> n(v.size()); for (std::size_t i = 0; i < v.size(); ++i) n[i] = !v[i];
    cur("complement", b, w); check(mk<uint_t>(def(n)), complement(b, w));
    check(mk<bool>(v), b);
}
TEST(exhaustive) { all_upto<bool>(thorough ? 14 : 10, {false, true}, [](const std::vector<bool>& v) { one(v); }); }
TEST(random_large) {
    for (int it = 0; it < (thorough ? 4000 : 500); ++it) { std::size_t n = rnd(0, 400); std::vector<bool> v(n); int p = rnd(0, 10); for (std::size_t i = 0; i < n; ++i) v[i] = rnd(0, 10) < p; one(v); }
}
TEST(dims) {
    for (uint_t a = 0; a < 4; ++a) for (uint_t b = 0; b < 4; ++b)
        all_seq<bool>(a*b, {false, true}, [&](const std::vector<bool>& v) {
            vec<2,bool> m = mkd<2,bool>({{a, b}}, v); cur("where", m); nontrivial(); auto d = def(v);
            check(mk<uint_t>(d), where(m)); check(d.empty() ? npos : d.front(), where_first(m)); check(d.empty() ? npos : d.back(), where_last(m));
            std::vector<bool> n(v.size()); for (std::size_t i = 0; i < v.size(); ++i) n[i] = !v[i];
            check(mk<uint_t>(def(n)), complement(m, mk<uint_t>(d)));
        });
}
TEST(view_operand) {
    all_upto<bool>(7, {false, true}, [&](const std::vector<bool>& v) {
        vec1b b = mk<bool>(v); vec1u ids; for (std::size_t i = 0; i < v.size(); ++i) ids.push_back(v.size()-1-i);
        std::vector<bool> r(v.rbegin(), v.rend()); auto d = def(r);
        cur("where(view)", b); check(mk<uint_t>(d), where(b[ids])); check(d.empty() ? npos : d.front(), where_first(b[ids])); check(d.empty() ? npos : d.back(), where_last(b[ids]));
    });
}
TEST(complement_any_order) {
    for (int it = 0; it < 3000; ++it) {
        std::size_t n = rnd(0, 20); std::vector<uint_t> ids; std::vector<bool> in(n, false);
        for (std::size_t i = 0; i < n; ++i) if (rnd(0, 1)) { ids.push_back(i); in[i] = true; }
        std::shuffle(ids.begin(), ids.end(), rng); vec1i v(n); cur("complement", v, ids); nontrivial();
        std::vector<uint_t> e; for (std::size_t i = 0; i < n; ++i) if (!in[i]) e.push_back(i);
        check(mk<uint_t>(e), complement(v, mk<uint_t>(ids)));
    }
}
ORACLE_MAIN
