#include <vif/core/vec.hpp>
using namespace vif;
#define H extern "C" void
H h_at_i64(const vec<1,int>& v, int_t i, int& x) { x = v[i]; }
H h_at_u64(const vec<1,int>& v, uint_t i, int& x) { x = v[i]; }
H h_at_i32(const vec<1,int>& v, int i, int& x) { x = v[i]; }
H h_at_u32(const vec<1,int>& v, unsigned int i, int& x) { x = v[i]; }
H h_at_i16(const vec<1,int>& v, short i, int& x) { x = v[i]; }
H h_at_u16(const vec<1,int>& v, unsigned short i, int& x) { x = v[i]; }
H h_at_i8(const vec<1,int>& v, signed char i, int& x) { x = v[i]; }
H h_at_u8(const vec<1,int>& v, unsigned char i, int& x) { x = v[i]; }
H h_at_2dflat(const vec<2,double>& v, int_t i, double& x) { x = v[i]; }
H h_call1(const vec<1,double>& v, int_t i, double& x) { x = v(i); }
H h_set_i64(vec<1,int>& v, int_t i, int x) { v[i] = x; }
H h_set_i8(vec<1,int>& v, signed char i, int x) { v[i] = x; }
H h_set_u64(vec<1,double>& v, uint_t i, double x) { v[i] = x; }
H h_set_b(vec<1,bool>& v, int_t i, bool x) { v[i] = x; }
H h_set_s(vec1s& v, int_t i, const std::string& x) { v[i] = x; }
H h_at2(const vec<2,int>& v, int_t i, int_t j, int& x) { x = v(i, j); }
H h_at2_mixed(const vec<2,int>& v, signed char i, uint_t j, int& x) { x = v(i, j); }
H h_set2(vec<2,int>& v, int_t i, int_t j, int x) { v(i, j) = x; }
H h_set2_u(vec<2,int>& v, uint_t i, uint_t j, int x) { v(i, j) = x; }
H h_at3(const vec<3,int>& v, int_t i, int_t j, int_t k, int& x) { x = v(i, j, k); }
H h_set3(vec<3,int>& v, int_t i, uint_t j, int k, int x) { v(i, j, k) = x; }
H h_at4(const vec<4,int>& v, uint_t i, uint_t j, uint_t k, uint_t l, int& x) { x = v(i, j, k, l); }
H h_view_at(vec<1,int>& p, vec<1,int*>& v, int_t i, int& x) { x = v[i]; }
H h_view_set(vec<1,int>& p, vec<1,int*>& v, int_t i, int x) { v[i] = x; }
H h_view_at2(vec<2,int>& p, vec<2,int*>& v, int_t i, int_t j, int& x) { x = v(i, j); }
H h_view_set2(vec<2,int>& p, vec<2,int*>& v, int_t i, int_t j, int x) { v(i, j) = x; }
H h_front(const vec<1,int>& v, int& x) { x = v.front(); }
H h_back(const vec<1,int>& v, int& x) { x = v.back(); }
H h_safe(const vec<1,int>& v, uint_t i, int& x) { x = v.safe[i]; }
H h_safe2(const vec<2,int>& v, uint_t i, uint_t j, int& x) { x = v.safe(i, j); }
H h_safe3_set(vec<3,int>& v, uint_t i, uint_t j, uint_t k, int x) { v.safe(i, j, k) = x; }
