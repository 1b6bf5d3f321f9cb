// Replay / bounded stand-in machinery: runs the real templates of /repo against executable
// transcriptions of the contracts, on exhaustively enumerated small inputs and seeded random ones.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <chrono>
#include <climits>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace orc { struct vif_error {}; [[noreturn]] inline void raise_error() { throw vif_error(); } }
// vif_check() ends in exit(EXIT_FAILURE); turn that into an exception so that the error is observable
#define exit(x) ::orc::raise_error()
#ifndef NO_LIBUNWIND
#define NO_LIBUNWIND
#endif
#ifndef NO_LIBDWARF
#define NO_LIBDWARF
#endif
#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>

namespace orc {
using namespace vif;
struct Shared { char cur[4096]; char fails[65536]; unsigned long evals, nontriv, nfail; char sample[3][512]; };
static Shared* sh;
static unsigned long seed = 1; static bool thorough = false;
static std::mt19937_64 rng;
inline long rnd(long lo, long hi) { return lo + long(rng() % (unsigned long)(hi - lo + 1)); }

// ---- rendering
inline std::string show(bool b) { return b ? "1" : "0"; }
inline std::string show(char c) { return std::string("'") + c + "'"; }
inline std::string show(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
inline std::string show(const char* s) { return show(std::string(s)); }
template<typename T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T,bool>::value && !std::is_same<T,char>::value, std::string>::type show(T t) {
    if (std::is_unsigned<T>::value && sizeof(T) == 8 && t == T(-1)) return "npos";
    return std::to_string(t); }
template<typename T> typename std::enable_if<std::is_floating_point<T>::value, std::string>::type show(T t) { std::ostringstream o; o << std::setprecision(17) << t; return o.str(); }
template<std::size_t N> std::string show(const std::array<uint_t,N>& a) { std::string r = "("; for (std::size_t i = 0; i < N; ++i) r += (i ? "x" : "") + std::to_string(a[i]); return r + ")"; }
template<typename T> std::string show(const std::vector<T>& v) { std::string r = "{"; for (std::size_t i = 0; i < v.size(); ++i) { if (r.size() > 600) { r += "..."; break; } r += (i ? "," : "") + show(T(v[i])); } return r + "}"; }
template<std::size_t D, typename T> typename std::enable_if<!std::is_pointer<T>::value, std::string>::type show(const vec<D,T>& v) {
    std::string r = D > 1 ? show(v.dims) : (v.dims[0] != v.data.size() ? show(v.dims) : ""); r += "{"; for (std::size_t i = 0; i < v.data.size(); ++i) { if (r.size() > 600) { r += "..."; break; } r += (i ? "," : "") + show(typename meta::rtype_t<T>(v.data[i])); } return r + "}"; }
template<typename A, typename B> std::string show(const std::pair<A,B>& p) { return "<" + show(p.first) + ";" + show(p.second) + ">"; }
inline std::string cat() { return ""; }
template<typename A, typename ... R> std::string cat(const A& a, const R& ... r) { return show(a) + (sizeof...(R) ? ", " : "") + cat(r...); }

// ---- case bookkeeping
static std::string curcase;
template<typename ... A> void cur(const char* fn, const A& ... a) {
    curcase = std::string(fn) + "(" + cat(a...) + ")";
    std::strncpy(sh->cur, curcase.c_str(), sizeof(sh->cur)-1);
    ++sh->evals;
    unsigned long e = sh->evals; int k = e == 7 ? 0 : e == 301 ? 1 : e == 5003 ? 2 : -1;
    if (k >= 0) std::strncpy(sh->sample[k], curcase.c_str(), 500);
}
inline void nontrivial() { ++sh->nontriv; }
inline void fail(const std::string& expected, const std::string& got) {
    ++sh->nfail;
    std::string l = curcase.substr(0, 1500) + " expected " + expected.substr(0, 700) + " got " + got.substr(0, 700) + "\n";
    std::size_t n = std::strlen(sh->fails);
    if (n + l.size() < sizeof(sh->fails)) std::strcpy(sh->fails + n, l.c_str());
}
struct too_many {};
// equality that treats NaN as equal to NaN
template<typename T> bool eq(const T& a, const T& b) { return a == b; }
inline bool eq(double a, double b) { return a == b || (a != a && b != b); }
inline bool eq(float a, float b) { return a == b || (a != a && b != b); }
template<typename T> bool eq(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(T(a[i]), T(b[i]))) return false; return true; }
template<std::size_t D, typename T> bool eq(const vec<D,T>& a, const vec<D,T>& b) {
    if (a.dims != b.dims || a.data.size() != b.data.size()) return false;
    for (std::size_t i = 0; i < a.data.size(); ++i) if (!eq(meta::rtype_t<T>(a.data[i]), meta::rtype_t<T>(b.data[i]))) return false;
    return true; }
template<typename T> void check(const T& expected, const T& got) { if (!eq(expected, got)) { fail(show(expected), show(got)); if (sh->nfail > 4) throw too_many(); } }
inline void check_true(bool b, const std::string& what) { if (!b) { fail(what, "the opposite"); if (sh->nfail > 4) throw too_many(); } }
/// run f; true if it raised the library's error
template<typename F> bool raises(F&& f) { try { f(); return false; } catch (vif_error&) { return true; } }
template<typename F> void must_raise(F&& f) { if (!raises(f)) { fail("an error", "normal return"); if (sh->nfail > 4) throw too_many(); } }
template<typename F> void no_raise(F&& f) { if (raises(f)) { fail("normal return", "an error"); if (sh->nfail > 4) throw too_many(); } }

// ---- generators
template<typename T> T gen_val(int) ;
/// all vectors over the alphabet of the given length
template<typename T, typename F> void all_seq(std::size_t n, const std::vector<T>& alpha, F&& f) {
    std::vector<std::size_t> ix(n, 0); std::vector<T> v(n);
    while (true) {
        for (std::size_t i = 0; i < n; ++i) v[i] = alpha[ix[i]];
        f(const_cast<const std::vector<T>&>(v));
        std::size_t k = n; while (k > 0) { --k; if (++ix[k] < alpha.size()) break; ix[k] = 0; if (k == 0) return; }
        if (n == 0) return;
    }
}
template<typename T, typename F> void all_upto(std::size_t nmax, const std::vector<T>& alpha, F&& f) { for (std::size_t n = 0; n <= nmax; ++n) all_seq<T>(n, alpha, f); }
inline void all_strings(std::size_t nmax, const std::string& alpha, const std::function<void(const std::string&)>& f) {
    all_upto<char>(nmax, std::vector<char>(alpha.begin(), alpha.end()), [&](const std::vector<char>& v) { f(std::string(v.begin(), v.end())); });
}
template<typename T> vec<1,T> mk(const std::vector<T>& v) { vec<1,T> r; r.data.assign(v.begin(), v.end()); r.dims[0] = v.size(); return r; }
template<> inline vec<1,bool> mk<bool>(const std::vector<bool>& v) { vec<1,bool> r; for (bool b : v) r.data.push_back(b); r.dims[0] = v.size(); return r; }
template<std::size_t D, typename T> vec<D,T> mkd(const std::array<uint_t,D>& d, const std::vector<T>& v) { vec<D,T> r; for (T b : v) r.data.push_back(b); for (std::size_t i = 0; i < D; ++i) r.dims[i] = d[i]; return r; }
template<std::size_t D> std::size_t prod(const std::array<uint_t,D>& d) { std::size_t n = 1; for (auto x : d) n *= x; return n; }
template<std::size_t D, typename T> vec<D,T> iota(const std::array<uint_t,D>& d, T first = 1) { std::vector<T> v(prod(d)); for (std::size_t i = 0; i < v.size(); ++i) v[i] = T(first + T(i)); return mkd<D,T>(d, v); }
template<std::size_t D, typename T> std::vector<meta::rtype_t<T>> plain(const vec<D,T>& v) { std::vector<meta::rtype_t<T>> r; for (auto x : v.data) r.push_back(x); return r; }
template<std::size_t D, typename T> std::vector<T> plain(const vec<D,T*>& v) { std::vector<T> r; for (auto x : v.data) r.push_back(*x); return r; }
template<std::size_t D, typename T> void check_inv(const vec<D,T>& v) { if (v.data.size() != prod(v.dims)) { fail("as many elements as the dimensions " + show(v.dims), std::to_string(v.data.size()) + " elements"); if (sh->nfail > 4) throw too_many(); } }

// ---- test registry
struct Test { const char* name; void (*f)(); int timeout; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, void (*f)(), int to) { tests().push_back({n, f, to}); } };
#define TEST(name) static void t_##name(); static orc::Reg r_##name(#name, t_##name, 60); static void t_##name()
#define TEST_T(name, to) static void t_##name(); static orc::Reg r_##name(#name, t_##name, to); static void t_##name()

inline int run_all(int argc, char** argv) {
    const char* s = getenv("VERIF_SEED"); if (s && *s) seed = strtoul(s, nullptr, 10);
    const char* t = getenv("VERIF_TIER"); thorough = t && std::string(t) == "thorough";
    const char* only = argc > 1 ? argv[1] : nullptr;
    struct Run { pid_t pid; Shared* sh; std::size_t i; std::string err; };
    std::vector<Run> runs; std::size_t next = 0; bool bad = false; std::size_t maxp = 8;
    std::vector<std::size_t> todo; for (std::size_t i = 0; i < tests().size(); ++i) if (!only || std::string(only) == tests()[i].name) todo.push_back(i);
    std::cout.setf(std::ios::unitbuf);
    while (next < todo.size() || !runs.empty()) {
        while (next < todo.size() && runs.size() < maxp) {
            Run r; r.i = todo[next++]; r.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
            std::memset((void*)r.sh, 0, sizeof(Shared));
            char tmpl[] = "/tmp/orcXXXXXX"; int fd = mkstemp(tmpl); r.err = tmpl;
            fflush(stdout);
            r.pid = fork();
            if (r.pid == 0) {
                sh = r.sh; dup2(fd, 2); close(fd); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
                std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr);
                struct rlimit_ {}; rng.seed(seed*7919 + std::hash<std::string>()(tests()[r.i].name));
                // CPU-time limit: a hang is told apart from a machine that is merely slow
                itimerval tv; tv.it_interval.tv_sec = 0; tv.it_interval.tv_usec = 0; tv.it_value.tv_sec = (thorough ? 6 : 1)*tests()[r.i].timeout; tv.it_value.tv_usec = 0;
                setitimer(ITIMER_PROF, &tv, nullptr); alarm((thorough ? 6 : 1)*600);
                try { tests()[r.i].f(); } catch (too_many&) {} catch (vif_error&) { fail("normal return", "an error raised by the library"); } catch (std::exception& e) { fail("normal return", std::string("exception ") + e.what()); }
                _Exit(0);
            }
            close(fd); runs.push_back(r);
        }
        int st; pid_t p = wait(&st);
        for (std::size_t k = 0; k < runs.size(); ++k) if (runs[k].pid == p) {
            Run& r = runs[k]; const char* nm = tests()[r.i].name; std::string f = r.sh->fails;
            if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
                std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? "did not terminate in time" : "killed by signal " + std::to_string(WTERMSIG(st))) : "memory error or abnormal exit";
                std::ifstream e(r.err); std::string l, sum; while (std::getline(e, l)) if (l.find("ERROR: AddressSanitizer") != l.npos || l.find("ssertion") != l.npos) { sum = l; break; }
                f += std::string(r.sh->cur).substr(0, 1500) + " " + why + " " + sum + "\n"; r.sh->nfail++;
            }
            unlink(r.err.c_str());
            printf("TEST %s evals=%lu nontrivial=%lu fails=%lu\n", nm, r.sh->evals, r.sh->nontriv, r.sh->nfail);
            for (int q = 0; q < 3; ++q) if (r.sh->sample[q][0]) printf("SAMPLE %s\n", r.sh->sample[q]);
            std::istringstream is(f); std::string l; while (std::getline(is, l)) printf("FAIL %s | %s\n", nm, l.c_str());
            if (r.sh->nfail) bad = true;
            munmap(r.sh, sizeof(Shared)); runs.erase(runs.begin() + k); break;
        }
    }
    fflush(stdout);
    return bad ? 1 : 0;
}
}
#define ORACLE_MAIN int main(int argc, char** argv) { return orc::run_all(argc, argv); }
