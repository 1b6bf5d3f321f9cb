#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
H h_ctor1(uint_t n, vec<1,int>& out) { out = vec<1,int>(n); }
H h_ctor2(uint_t n, uint_t m, vec<2,double>& out) { out = vec<2,double>(n, m); }
H h_ctor_dims(const vec<2,int>& in, vec<2,float>& out) { out = vec<2,float>(in.dims); }
H h_ctor_mixed(uint_t n, const vec<2,int>& in, vec<3,int>& out) { out = vec<3,int>(n, in.dims); }
H h_list1(int a, int b, int c, vec<1,int>& out) { out = vec<1,int>{a, b, c}; }
H h_list1_assign(int a, int b, vec<1,int>& out) { out = {a, b}; }
H h_list2(int a, int b, int c, int d, int e, int f, vec<2,int>& out) { out = {{a, b, c}, {d, e, f}}; }
H h_list2_bad(int a, int b, int c, vec<2,int>& out) { out = {{a, b}, {c}}; }
H h_copy(const vec<2,int>& in, vec<2,int>& out) { vec<2,int> t(in); out = t; }
H h_copy_s(const vec1s& in, vec1s& out) { vec1s t(in); out = t; }
H h_move(vec<2,int>& in, vec<2,int>& out) { vec<2,int> t(std::move(in)); out = std::move(t); }
H h_assign(const vec<2,int>& in, vec<2,int>& out) { out = in; }
H h_assign_self(vec<2,int>& v) { v = v; }
H h_assign_move(vec<2,int>& in, vec<2,int>& out) { out = std::move(in); }
H h_convert(const vec<2,int>& in, vec<2,double>& out) { out = in; }
H h_convert_ctor(const vec<1,int>& in, vec<1,double>& out) { vec<1,double> t(in); out = std::move(t); }
H h_concretise(const vec<2,int>& par, const vec<2,int*>& in, vec<2,int>& out) { out = in.concretise(); }
H h_resize1(vec<1,int>& v, uint_t n) { v.resize(n); }
H h_resize1_s(vec1s& v, uint_t n) { v.resize(n); }
H h_resize2(vec<2,double>& v, uint_t n, uint_t m) { v.resize(n, m); }
H h_clear(vec<2,int>& v) { v.clear(); }
H h_push_back(vec<1,int>& v, const int& x) { v.push_back(x); }
H h_push_back_s(vec1s& v, const std::string& x) { v.push_back(x); }
H h_push_back2(vec<2,int>& v, const vec<1,int>& x) { v.push_back(x); }
H h_push_back2v(vec<2,int>& v, const vec<1,int>& par, const vec<1,int*>& x) { v.push_back(x); }
H h_flatten(const vec<2,int>& in, vec<1,int>& out) { out = flatten(in); }
H h_flatten3(const vec<3,int>& in, vec<1,int>& out) { out = flatten(in); }
H h_flatten_move(vec<2,int>& in, vec<1,int>& out) { out = flatten(std::move(in)); }
H h_flatten_view(const vec<2,int>& par, const vec<2,int*>& in, vec<1,int>& out) { out = flatten(in); }
H h_reform(const vec<1,int>& in, uint_t n, uint_t m, vec<2,int>& out) { out = reform(in, n, m); }
H h_reform1(const vec<2,int>& in, uint_t n, vec<1,int>& out) { out = reform(in, n); }
H h_reform_move(vec<1,int>& in, uint_t n, uint_t m, vec<2,int>& out) { out = reform(std::move(in), n, m); }
H h_reform_view(const vec<1,int>& par, const vec<1,int*>& in, uint_t n, uint_t m, vec<2,int>& out) { out = reform(in, n, m); }
