#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/math/histogram.hpp>
using namespace vif;
#define H extern "C" void
H h_edges_d(const vec<1,double>& v, vec<2,double>& out) { out = make_bins_from_edges(v); }
H h_edges_i(const vec<1,int>& v, vec<2,int>& out) { out = make_bins_from_edges(v); }
H h_centers(const vec<1,double>& v, vec<2,double>& out) { out = make_bins_from_centers(v); }
H h_bins1(double mi, double ma, vec<2,double>& out) { out = make_bins(mi, ma); }
H h_binsn(double mi, double ma, uint_t n, vec<2,double>& out) { out = make_bins(mi, ma, n); }
extern "C" bool h_in1(double t, const vec<1,double>& b) { return in_bin(t, b); }
extern "C" bool h_in2(double t, const vec<2,double>& b, uint_t ib) { return in_bin(t, b, ib); }
extern "C" bool h_ino2(double t, const vec<2,double>& b, uint_t ib) { return in_bin_open(t, b, ib); }
extern "C" bool h_in1i(int t, const vec<1,int>& b) { return in_bin(t, b); }
H h_vin1(const vec<1,double>& v, const vec<1,double>& b, vec<1,bool>& out) { out = in_bin(v, b); }
H h_vin1_2(const vec<2,double>& v, const vec<1,double>& b, vec<2,bool>& out) { out = in_bin(v, b); }
H h_vin2(const vec<1,double>& v, const vec<2,double>& b, uint_t ib, vec<1,bool>& out) { out = in_bin(v, b, ib); }
H h_vino2(const vec<1,double>& v, const vec<2,double>& b, uint_t ib, vec<1,bool>& out) { out = in_bin_open(v, b, ib); }
H h_center(const vec<2,double>& b, vec<1,double>& out) { out = bin_center(b); }
extern "C" double h_center1(const vec<1,double>& b) { return bin_center(b); }
H h_width(const vec<2,double>& b, vec<1,double>& out) { out = bin_width(b); }
extern "C" double h_width1(const vec<1,double>& b) { return bin_width(b); }
H h_cumul(const vec<1,double>& v, vec<1,double>& out) { out = cumul(v); }
H h_cumulr(const vec<1,double>& v, vec<1,double>& out) { out = cumul_reverse(v); }
H h_cumul_i(const vec<1,long>& v, vec<1,long>& out) { out = cumul(v); }
H h_cumulr_i(const vec<1,long>& v, vec<1,long>& out) { out = cumul_reverse(v); }
H h_hist(const vec<1,double>& v, const vec<2,double>& b, vec<1,uint_t>& out) { out = histogram(v, b); }
H h_hist_i(const vec<1,int>& v, const vec<2,int>& b, vec<1,uint_t>& out) { out = histogram(v, b); }
H h_hist_2(const vec<2,double>& v, const vec<2,double>& b, vec<1,uint_t>& out) { out = histogram(v, b); }
H h_hist_view(const vec<1,double>& p, const vec<1,double*>& v, const vec<2,double>& b, vec<1,uint_t>& out) { out = histogram(v, b); }
