#include <array>
#include <memory>
#include <mutex>
#include <thread>
#include <atomic>
#include "oracle.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif; using namespace orc;
static const uint_t M = 1300;
static std::atomic<int> calls[M]; static std::atomic<int> outside;
static void body(uint_t i) { if (i < M) ++calls[i]; else ++outside; }
static void run(thread::parallel_for& p, uint_t first, uint_t last, bool one) {
    for (auto& c : calls) c = 0; outside = 0; nontrivial();
    if (one) p.execute(body, last); else p.execute(body, first, last);
    check(0, int(outside)); std::vector<uint_t> bad; for (uint_t i = 0; i < M; ++i) if (int(calls[i]) != (i >= first && i < last)) bad.push_back(i); check(std::vector<uint_t>{}, bad); }
static void all(uint_t maxw, uint_t maxn, const std::vector<uint_t>& firsts) {
    for (uint_t w = 0; w <= maxw; ++w) { thread::parallel_for p(w); check(w, p.size());
        for (uint_t f : firsts) for (uint_t n = 0; n <= maxn; ++n) for (uint_t c : {0ul, 1ul, 2ul, 3ul, 7ul, 100ul}) { if (c && !w) continue; p.chunk_size = c; cur("execute (workers, first, last, chunk)", w, f, f + n, c); run(p, f, f + n, f == 0 && n % 2); } } }
TEST_T(small, 120) { all(4, thorough ? 14 : 9, {0, 1, 3, 10}); }
TEST_T(large, 120) { for (int it = 0; it < (thorough ? 400 : 120); ++it) { uint_t w = rnd(1, 6), f = rnd(0, 1) ? 0 : rnd(0, 300), n = rnd(0, 900), c = rnd(0, 1) ? 0 : rnd(1, 1000); thread::parallel_for p(w); p.chunk_size = c; cur("execute (workers, first, last, chunk)", w, f, f + n, c); run(p, f, f + n, false); } }
TEST_T(reuse, 120) { thread::parallel_for p(3); for (uint_t n : {5ul, 0ul, 40ul, 1ul, 3ul, 200ul}) { cur("execute again", n); run(p, 0, n, true); cur("execute again", n); run(p, 7, 7 + n, false); } }
ORACLE_MAIN
