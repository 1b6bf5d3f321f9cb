#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
H h_reverse(const vec<1,int>& in, vec<1,int>& out) { out = reverse(in); }
H h_reverse_s(const vec1s& in, vec1s& out) { out = reverse(in); }
H h_inplace_shift(vec<1,int>& v, int_t n) { inplace_shift(v, n); }
H h_shift(const vec<1,double>& in, int_t n, vec<1,double>& out) { out = shift(in, n); }
H h_transpose(const vec<2,int>& in, vec<2,int>& out) { out = transpose(in); }
H h_replicate_s(int x, uint_t n, vec<1,int>& out) { out = replicate(x, n); }
H h_replicate_s2(int x, uint_t n, uint_t m, vec<2,int>& out) { out = replicate(x, n, m); }
H h_replicate_v(const vec<1,int>& in, uint_t n, vec<2,int>& out) { out = replicate(in, n); }
H h_replicate_v2(const vec<1,int>& in, uint_t n, uint_t m, vec<3,int>& out) { out = replicate(in, n, m); }
H h_append(vec<1,int>& v, const vec<1,int>& w) { append(v, w); }
H h_prepend(vec<1,int>& v, const vec<1,int>& w) { prepend(v, w); }
H h_append_s(vec1s& v, const vec1s& w) { append(v, w); }
H h_append_0(vec<2,int>& v, const vec<2,int>& w) { append<0>(v, w); }
H h_append_1(vec<2,int>& v, const vec<2,int>& w) { append<1>(v, w); }
H h_prepend_0(vec<2,int>& v, const vec<2,int>& w) { prepend<0>(v, w); }
H h_prepend_1(vec<2,int>& v, const vec<2,int>& w) { prepend<1>(v, w); }
H h_inplace_remove(vec<1,int>& v, const vec1u& ids) { inplace_remove(v, ids); }
H h_remove(const vec<1,int>& v, const vec1u& ids, vec<1,int>& out) { out = remove(v, ids); }
H h_inplace_remove2(vec<2,int>& v, const vec1u& ids) { inplace_remove(v, ids); }
