#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
H h_ids(const vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_nc(vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_i(const vec<1,double>& v, const vec1i& ids, vec<1,double>& out) { out = v[ids]; }
H h_ids_i32(vec<1,int>& v, const vec<1,int>& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_flat2(vec<2,int>& v, const vec1u& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_view(vec<1,int>& v, vec1u& p, const vec<1,uint_t*>& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_viewc(const vec<1,int>& v, vec1u& p, const vec<1,uint_t*>& ids, vec<1,int>& out) { out = v[ids]; }
H h_ids_s(const vec1s& v, const vec1u& ids, vec1s& out) { out = v[ids]; }
H h_ids_b(vec1b& v, const vec1u& ids, vec1b& out) { out = v[ids]; }
H h_pids(const vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = v(ids); }
H h_pids_i(vec<1,int>& v, const vec1i& ids, vec<1,int>& out) { out = v(ids); }
H h_sids(const vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = v.safe[ids]; }
H h_sids_nc(vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = v.safe[ids]; }
H h_full(vec<1,int>& v, vec<1,int>& out) { out = v[_]; }
H h_full2(const vec<2,int>& v, vec<1,int>& out) { out = v[_]; }
H h_left(vec<1,int>& v, uint_t e, vec<1,int>& out) { out = v[_-e]; }
H h_right(const vec<1,int>& v, uint_t b, vec<1,int>& out) { out = v[b-_]; }
H h_lr(vec<1,int>& v, uint_t b, uint_t e, vec<1,int>& out) { out = v[b-_-e]; }
H h_lr_c(const vec<2,double>& v, uint_t b, uint_t e, vec<1,double>& out) { out = v[b-_-e]; }
H h_lr_i(vec<1,int>& v, int b, int e, vec<1,int>& out) { out = v[b-_-e]; }
H h_pfull(const vec<1,int>& v, vec<1,int>& out) { out = v(_); }
H h_pleft(vec<1,int>& v, uint_t e, vec<1,int>& out) { out = v(_-e); }
H h_plr(const vec<1,int>& v, uint_t b, uint_t e, vec<1,int>& out) { out = v(b-_-e); }
H h_row(const vec<2,int>& v, int_t i, vec<1,int>& out) { out = v(i, _); }
H h_row_n(const vec<2,int>& v, int_t i, vec<1,int>& out) { out = v(i, _); }
H h_row_u(vec<2,int>& v, uint_t i, vec<1,int>& out) { out = v(i, _); }
H h_col(const vec<2,int>& v, int_t j, vec<1,int>& out) { out = v(_, j); }
H h_col_n(const vec<2,int>& v, int_t j, vec<1,int>& out) { out = v(_, j); }
H h_col_u(vec<2,int>& v, uint_t j, vec<1,int>& out) { out = v(_, j); }
H h_all2(vec<2,int>& v, vec<2,int>& out) { out = v(_, _); }
H h_row_lr(const vec<2,int>& v, uint_t i, uint_t b, uint_t e, vec<1,int>& out) { out = v(i, b-_-e); }
H h_col_lr(vec<2,int>& v, uint_t b, uint_t e, uint_t j, vec<1,int>& out) { out = v(b-_-e, j); }
H h_row_ids(const vec<2,int>& v, uint_t i, const vec1u& ids, vec<1,int>& out) { out = v(i, ids); }
H h_col_ids(vec<2,int>& v, const vec1u& ids, uint_t j, vec<1,int>& out) { out = v(ids, j); }
H h_ids_full(const vec<2,int>& v, const vec1u& ids, vec<2,int>& out) { out = v(ids, _); }
H h_full_ids(vec<2,int>& v, const vec1u& ids, vec<2,int>& out) { out = v(_, ids); }
H h_ids_ids(const vec<2,int>& v, const vec1u& a, const vec1u& b, vec<2,int>& out) { out = v(a, b); }
H h_rect(const vec<2,int>& v, uint_t a, uint_t m, uint_t p, uint_t n, vec<2,int>& out) { out = v(a-_-(a+m-1), p-_-(p+n-1)); }
H h_3_i(const vec<3,int>& v, uint_t i, vec<2,int>& out) { out = v(i, _, _); }
H h_3_j(const vec<3,int>& v, uint_t j, vec<2,int>& out) { out = v(_, j, _); }
H h_3_k(vec<3,int>& v, uint_t k, vec<2,int>& out) { out = v(_, _, k); }
H h_3_ij(const vec<3,int>& v, uint_t i, uint_t j, vec<1,int>& out) { out = v(i, j, _); }
H h_3_ik(const vec<3,int>& v, uint_t i, uint_t k, vec<1,int>& out) { out = v(i, _, k); }
H h_3_jk(vec<3,int>& v, uint_t j, uint_t k, vec<1,int>& out) { out = v(_, j, k); }
H h_set_ids(vec<1,int>& v, const vec1u& ids, int x) { v[ids] = x; }
H h_set_ids_i(vec<1,double>& v, const vec1i& ids, double x) { v[ids] = x; }
H h_set_ids_b(vec1b& v, const vec1u& ids, bool x) { v[ids] = x; }
H h_set_ids_s(vec1s& v, const vec1u& ids, const std::string& x) { v[ids] = x; }
H h_set_pids(vec<1,int>& v, const vec1u& ids, int x) { v(ids) = x; }
H h_put_ids(vec<1,int>& v, const vec1u& ids, const vec<1,int>& w) { v[ids] = w; }
H h_put_ids_f(vec<1,double>& v, const vec1u& ids, const vec<1,float>& w) { v[ids] = w; }
H h_put_view(vec<1,int>& v, const vec1u& ids, vec<1,int>& p, const vec<1,int*>& w) { v[ids] = w; }
H h_set_lr(vec<1,int>& v, uint_t b, uint_t e, int x) { v[b-_-e] = x; }
H h_put_lr(vec<1,int>& v, uint_t b, uint_t e, const vec<1,int>& w) { v[b-_-e] = w; }
H h_set_row(vec<2,int>& v, int_t i, int x) { v(i, _) = x; }
H h_set_row_n(vec<2,int>& v, int_t i, int x) { v(i, _) = x; }
H h_put_row(vec<2,int>& v, uint_t i, const vec<1,int>& w) { v(i, _) = w; }
H h_set_col(vec<2,int>& v, int_t j, int x) { v(_, j) = x; }
H h_set_col_n(vec<2,int>& v, int_t j, int x) { v(_, j) = x; }
H h_put_col(vec<2,int>& v, uint_t j, const vec<1,int>& w) { v(_, j) = w; }
H h_set_ids_full(vec<2,int>& v, const vec1u& ids, int x) { v(ids, _) = x; }
H h_set_full_ids(vec<2,int>& v, const vec1u& ids, int x) { v(_, ids) = x; }
H h_set_ids_ids(vec<2,int>& v, const vec1u& a, const vec1u& b, int x) { v(a, b) = x; }
H h_put_rect(vec<2,int>& v, uint_t a, uint_t m, uint_t p, uint_t n, const vec<2,int>& w) { v(a-_-(a+m-1), p-_-(p+n-1)) = w; }
H h_set_3(vec<3,int>& v, uint_t i, uint_t k, int x) { v(i, _, k) = x; }
H h_vv_ids(vec<1,int>& p, vec<1,int*>& v, const vec1u& ids, vec<1,int>& out) { out = v[ids]; }
H h_vv_lr(vec<1,int>& p, const vec<1,int*>& v, uint_t b, uint_t e, vec<1,int>& out) { out = v[b-_-e]; }
H h_vv_row(vec<2,int>& p, vec<2,int*>& v, uint_t i, vec<1,int>& out) { out = v(i, _); }
H h_vv_col(vec<2,int>& p, vec<2,int*>& v, uint_t j, vec<1,int>& out) { out = v(_, j); }
H h_vv_set(vec<1,int>& p, vec<1,int*>& v, const vec1u& ids, int x) { v[ids] = x; }
H h_stride_col(const vec<2,int>& v, uint_t j, vec<1,int>& out) { out.resize(v.dims[0]); uint_t i = 0; for (auto& x : v.stride(_, j)) { out.safe[i] = x; ++i; } }
H h_stride_row(vec<2,int>& v, uint_t i, int x) { for (auto& y : v.stride(i, _)) { y = x; } }
