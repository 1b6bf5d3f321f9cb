#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
#define U extern "C" uint_t
H h_mult1(const vec<1,int>& v, uint_t i, vec1u& out) { out = mult_ids(v, i); }
H h_mult2(const vec<2,int>& v, uint_t i, vec1u& out) { out = mult_ids(v, i); }
H h_mult3(const vec<3,int>& v, uint_t i, vec1u& out) { out = mult_ids(v, i); }
H h_mult1v(const vec<1,int>& v, const vec1u& i, vec2u& out) { out = mult_ids(v, i); }
H h_mult2v(const vec<2,int>& v, const vec1u& i, vec2u& out) { out = mult_ids(v, i); }
H h_mult3v(const vec<3,int>& v, const vec1u& i, vec2u& out) { out = mult_ids(v, i); }
H h_mult2d(const vec<2,int>& v, uint_t i, vec1u& out) { out = mult_ids(v.dims, i); }
U h_flat1(const vec<1,int>& v, uint_t i) { return flat_id(v, i); }
U h_flat2(const vec<2,int>& v, uint_t i, uint_t j) { return flat_id(v, i, j); }
U h_flat2d(const vec<2,int>& v, uint_t i, uint_t j) { return flat_id(v.dims, i, j); }
U h_flat3(const vec<3,int>& v, uint_t i, uint_t j, uint_t k) { return flat_id(v, i, j, k); }
U h_flat2i(const vec<2,int>& v, int i, int j) { return flat_id(v, i, j); }
U h_flat2v(const vec<2,int>& v, const vec1u& ids) { return flat_id(v, ids); }
U h_flat3v(const vec<3,int>& v, const vec1u& ids) { return flat_id(v, ids); }
U h_round1(const vec<1,int>& v, uint_t i) { return flat_id(v, mult_ids(v, i)); }
U h_round2(const vec<2,int>& v, uint_t i) { return flat_id(v, mult_ids(v, i)); }
U h_round3(const vec<3,int>& v, uint_t i) { return flat_id(v, mult_ids(v, i)); }
H h_back2(const vec<2,int>& v, uint_t i, uint_t j, vec1u& out) { out = mult_ids(v, flat_id(v, i, j)); }
H h_back3(const vec<3,int>& v, uint_t i, uint_t j, uint_t k, vec1u& out) { out = mult_ids(v, flat_id(v, i, j, k)); }
H h_inc_v(vec1u& ids, const vec1u& n) { increment_index_list(ids, n); }
H h_inc_s(vec1u& ids, uint_t n) { increment_index_list(ids, n); }
