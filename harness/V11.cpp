#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/math/reduce.hpp>
using namespace vif;
#define H extern "C" void
#define U extern "C" uint_t
#define EXT(s, T, D) \
U h_min_id_##s(const vec<D,T>& v) { return min_id(v); } \
U h_max_id_##s(const vec<D,T>& v) { return max_id(v); } \
extern "C" T h_min_##s(const vec<D,T>& v) { return min(v); } \
extern "C" T h_max_##s(const vec<D,T>& v) { return max(v); } \
extern "C" T h_minp_##s(const vec<D,T>& v, uint_t& id) { return min(v, id); } \
extern "C" T h_maxp_##s(const vec<D,T>& v, uint_t& id) { return max(v, id); } \
H h_minmax_##s(const vec<D,T>& v, T& a, T& b) { auto p = minmax(v); a = p.first; b = p.second; } \
H h_minmaxp_##s(const vec<D,T>& v, T& a, T& b, uint_t& ia, uint_t& ib) { std::pair<uint_t,uint_t> i; auto p = minmax(v, i); a = p.first; b = p.second; ia = i.first; ib = i.second; } \
H h_minmax_ids_##s(const vec<D,T>& v, uint_t& a, uint_t& b) { auto p = minmax_ids(v); a = p.first; b = p.second; }
EXT(i, int, 1)
EXT(d, double, 1)
EXT(d2, double, 2)
U h_min_id_view(const vec<1,double>& p, const vec<1,double*>& v) { return min_id(v); }
U h_max_id_view(const vec<1,double>& p, const vec<1,double*>& v) { return max_id(v); }
H h_minmax_ids_view(const vec<1,double>& p, const vec<1,double*>& v, uint_t& a, uint_t& b) { auto q = minmax_ids(v); a = q.first; b = q.second; }
U h_count(const vec<1,bool>& v) { return count(v); }
U h_count2(const vec<2,bool>& v) { return count(v); }
U h_count_view(const vec<1,bool>& p, const vec<1,bool*>& v) { return count(v); }
extern "C" int_t h_total_i(const vec<1,int>& v) { return total(v); }
U h_total_u(const vec<2,unsigned char>& v) { return total(v); }
extern "C" double h_total_d(const vec<1,double>& v) { return total(v); }
extern "C" double h_mean_d(const vec<1,double>& v) { return mean(v); }
extern "C" double h_mean_i(const vec<2,int>& v) { return mean(v); }
extern "C" double h_fraction(const vec<1,bool>& v) { return fraction_of(v); }
extern "C" double h_weighted(const vec<1,double>& v, const vec<1,double>& w) { return weighted_mean(v, w); }
extern "C" double h_rms(const vec<1,double>& v) { return rms(v); }
#define EW(s, T, D) \
H h_emin_##s(const vec<D,T>& a, const vec<D,T>& b, vec<D,T>& out) { out = min(a, b); } \
H h_emax_##s(const vec<D,T>& a, const vec<D,T>& b, vec<D,T>& out) { out = max(a, b); } \
H h_emins_##s(const vec<D,T>& a, T x, vec<D,T>& out) { out = min(a, x); } \
H h_emaxs_##s(const vec<D,T>& a, T x, vec<D,T>& out) { out = max(a, x); } \
H h_smine_##s(T x, const vec<D,T>& a, vec<D,T>& out) { out = min(x, a); } \
H h_smaxe_##s(T x, const vec<D,T>& a, vec<D,T>& out) { out = max(x, a); }
EW(i, int, 1)
EW(d, double, 2)
#define RED(D, d) \
H h_red##D##_##d(const vec<D,int>& v, uint_t q, vec<D-1,int>& out) { out = reduce(d, v, [&](vec<1,int> t) { return t.safe[q]; }); } \
H h_redn##D##_##d(const vec<D,int>& v, vec<D-1,uint_t>& out) { out = reduce(d, v, [&](vec<1,int> t) { return t.size(); }); } \
H h_pcount##D##_##d(const vec<D,bool>& v, vec<D-1,uint_t>& out) { out = partial_count(d, v); } \
H h_pmax##D##_##d(const vec<D,double>& v, vec<D-1,double>& out) { out = partial_max(d, v); } \
H h_pmin##D##_##d(const vec<D,int>& v, vec<D-1,int>& out) { out = partial_min(d, v); }
RED(2, 0) RED(2, 1) RED(3, 0) RED(3, 1) RED(3, 2)
H h_red2_err(const vec<2,int>& v, uint_t d, vec<1,int>& out) { out = reduce(d, v, [&](vec<1,int> t) { return 0; }); }
H h_pcount2_err(const vec<2,bool>& v, uint_t d, vec<1,uint_t>& out) { out = partial_count(d, v); }
extern "C" int h_median_i(const vec<1,int>& v) { return median(v); }
extern "C" double h_median_d(const vec<1,double>& v) { return median(v); }
extern "C" double h_median_d2(const vec<2,double>& v) { return median(v); }
extern "C" double h_inplace_median(vec<1,double>& v) { return inplace_median(v); }
extern "C" double h_percentile(const vec<1,double>& v, double p) { return percentile(v, p); }
extern "C" double h_inplace_percentile(vec<1,double>& v, double p) { return inplace_percentile(v, p); }
extern "C" double h_wpercentile(const vec<1,double>& v, const vec<1,double>& w, double p) { return weighted_percentile(v, w, p); }
extern "C" double h_wmedian(const vec<1,double>& v, const vec<1,double>& w) { return weighted_median(v, w); }
H h_percentiles(const vec<1,double>& v, double p, double p2, vec<1,double>& out) { out = percentiles(v, p, p2); }
