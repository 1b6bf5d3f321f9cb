#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
H h_sort_i(const vec<1,int>& in, vec1u& out) { out = sort(in); }
H h_sort_d(const vec<1,double>& in, vec1u& out) { out = sort(in); }
H h_sort_s(const vec1s& in, vec1u& out) { out = sort(in); }
H h_sort_2d(const vec<2,double>& in, vec1u& out) { out = sort(in); }
H h_sort_view(const vec<1,double>& p, const vec<1,double*>& in, vec1u& out) { out = sort(in); }
H h_inplace_sort_i(vec<1,int>& v) { inplace_sort(v); }
H h_inplace_sort_d(vec<1,double>& v) { inplace_sort(v); }
extern "C" bool h_is_sorted_i(const vec<1,int>& in) { return is_sorted(in); }
extern "C" bool h_is_sorted_d(const vec<1,double>& in) { return is_sorted(in); }
extern "C" bool h_is_sorted_view(const vec<1,double>& p, const vec<1,double*>& in) { return is_sorted(in); }
extern "C" uint_t h_lower_i(const vec<1,int>& v, int x) { return lower_bound(v, x); }
extern "C" uint_t h_lower_d(const vec<1,double>& v, double x) { return lower_bound(v, x); }
extern "C" uint_t h_upper_i(const vec<1,int>& v, int x) { return upper_bound(v, x); }
extern "C" uint_t h_upper_d(const vec<1,double>& v, double x) { return upper_bound(v, x); }
H h_bounds_i(const vec<1,int>& v, int x, uint_t& a, uint_t& b) { auto r = bounds(v, x); a = r[0]; b = r[1]; }
H h_bounds_d(const vec<1,double>& v, double x, uint_t& a, uint_t& b) { auto r = bounds(v, x); a = r[0]; b = r[1]; }
H h_bounds2_d(const vec<1,double>& v, double x, double y, uint_t& a, uint_t& b) { auto r = bounds(v, x, y); a = r[0]; b = r[1]; }
H h_equal_range_i(const vec<1,int>& v, int x, uint_t& a, uint_t& b) { auto r = equal_range(v, x); a = r[0]; b = r[1]; }
H h_equal_range_d(const vec<1,double>& v, double x, uint_t& a, uint_t& b) { auto r = equal_range(v, x); a = r[0]; b = r[1]; }
H h_sort_c(const vec<1,double>& in, vec1u& out) { out = sort(in, [](double a, double b) { return a > b; }); }
H h_inplace_sort_c(vec<1,int>& v) { inplace_sort(v, [](int a, int b) { return a > b; }); }
H h_inplace_sort_s(vec1s& v) { inplace_sort(v); }
H h_inplace_sort_2d(vec<2,int>& v) { inplace_sort(v); }
extern "C" uint_t h_lower_view(const vec<1,double>& p, const vec<1,double*>& v, double x) { return lower_bound(v, x); }
extern "C" uint_t h_upper_view(const vec<1,double>& p, const vec<1,double*>& v, double x) { return upper_bound(v, x); }
H h_bounds_view(const vec<1,double>& p, const vec<1,double*>& v, double x, uint_t& a, uint_t& b) { auto r = bounds(v, x); a = r[0]; b = r[1]; }
extern "C" uint_t h_lower_di(const vec<1,double>& v, int x) { return lower_bound(v, x); }
H h_equal_range_s(const vec1s& v, const std::string& x, uint_t& a, uint_t& b) { auto r = equal_range(v, x); a = r[0]; b = r[1]; }
