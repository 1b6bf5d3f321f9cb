#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
// whole array from a view of itself
H h_perm(vec<1,int>& v, const vec1u& ids) { v = v[ids]; }
H h_perm_c(vec<1,double>& v, const vec1u& ids) { const vec<1,double>& c = v; v = c[ids]; }
H h_perm_s(vec1s& v, const vec1u& ids) { v = v[ids]; }
H h_perm_b(vec1b& v, const vec1u& ids) { v = v[ids]; }
H h_perm_p(vec<1,int>& v, const vec1u& ids) { v = v(ids); }
H h_sub(vec<1,int>& v, uint_t b, uint_t e) { v = v[b-_-e]; }
H h_self(vec<1,int>& v) { v = v[_]; }
H h_rows(vec<2,int>& v, const vec1u& ids) { v = v(ids, _); }
H h_from_view(vec<1,int>& p, const vec<1,int*>& w) { p = w; }
H h_from_cview(vec<1,int>& p, const vec<1,int*>& w) { const vec<1,int*>& c = w; p = c[_]; }
H h_assign_self(vec<1,int>& v) { v = v; }
// view from the array or another view of it
H h_vset_self(vec<1,int>& v, const vec1u& ids) { v[ids] = v; }
H h_vset_view(vec<1,int>& v, const vec1u& a, const vec1u& b) { v[a] = v[b]; }
H h_vset_cview(vec<1,double>& v, const vec1u& a, const vec1u& b) { const vec<1,double>& c = v; v[a] = c[b]; }
H h_vset_sview(vec1s& v, const vec1u& a, const vec1u& b) { v[a] = v[b]; }
H h_vset_vv(vec<1,int>& p, vec<1,int*>& w, const vec<1,int*>& u) { w = u; }
H h_vset_pv(vec<1,int>& p, vec<1,int*>& w) { w = p; }
H h_vset_vview(vec<1,int>& p, vec<1,int*>& w, const vec1u& ids) { w = w[ids]; }
H h_vset_elem(vec<1,int>& v, const vec1u& ids, uint_t i) { v[ids] = v[i]; }
H h_shiftl(vec<1,int>& v, uint_t b, uint_t n, uint_t d) { v[b-_-(b+n-1)] = v[d-_-(d+n-1)]; }
H h_row_row(vec<2,int>& v, uint_t i, uint_t j) { v(i, _) = v(j, _); }
H h_col_col(vec<2,int>& v, uint_t i, uint_t j) { v(_, i) = v(_, j); }
// compound assignment
H h_add_view(vec<1,double>& v, const vec1u& ids) { v += v[ids]; }
H h_sub_cview(vec<1,double>& v, const vec1u& ids) { const vec<1,double>& c = v; v -= c[ids]; }
H h_mul_self(vec<1,double>& v) { v *= v; }
H h_add_elem(vec<1,double>& v, uint_t i) { v += v[i]; }
H h_div_elem(vec<1,double>& v, uint_t i) { v /= v[i]; }
H h_add_elem_i(vec<1,uint_t>& v, uint_t i) { v += v[i]; }
H h_add_elem_s(vec1s& v, uint_t i) { v += v[i]; }
H h_vadd_self(vec<1,double>& p, vec<1,double*>& w) { w += p; }
H h_vadd_vv(vec<1,double>& p, vec<1,double*>& w, const vec<1,double*>& u) { w -= u; }
H h_vadd_elem(vec<1,double>& p, vec<1,double*>& w, uint_t i) { w *= p[i]; }
H h_vadd_velem(vec<1,double>& p, vec<1,double*>& w, uint_t i) { w += w[i]; }
H h_vadd_ids(vec<1,double>& v, const vec1u& a, const vec1u& b) { v[a] += v[b]; }
