#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
#define H extern "C" void
H h_unique_ids_sorted(const vec<1,int>& in, vec1u& out) { out = unique_ids_sorted(in); }
H h_unique_ids(const vec<1,int>& in, vec1u& out) { out = unique_ids(in); }
H h_unique_ids_d(const vec<2,double>& in, vec1u& out) { out = unique_ids(in); }
H h_unique_ids_sid(const vec<1,int>& in, const vec1u& sid, vec1u& out) { out = unique_ids(in, sid); }
H h_unique_values(const vec<1,int>& in, vec<1,int>& out) { out = unique_values(in); }
H h_unique_values_sorted(const vec<1,int>& in, vec<1,int>& out) { out = unique_values_sorted(in); }
extern "C" bool h_any_scalar(int x, const vec<1,int>& w) { return is_any_of(x, w); }
H h_any(const vec<1,int>& v, const vec<1,int>& w, vec1b& out) { out = is_any_of(v, w); }
H h_any_d(const vec<2,double>& v, const vec<1,double>& w, vec2b& out) { out = is_any_of(v, w); }
H h_match(const vec<1,int>& v, const vec<1,int>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
H h_match_d(const vec<1,double>& v, const vec<1,double>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
H h_inter_sorted(const vec<1,int>& v, const vec<1,int>& w, int x, vec<1,int>& out) { out = set_intersection_sorted(v, w); }
H h_union_sorted(const vec<1,int>& v, const vec<1,int>& w, int x, vec<1,int>& out) { out = set_union_sorted(v, w); }
H h_match_long(const vec<1,int>& v, const vec<1,int>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
H h_match_short(const vec<1,int>& v, const vec<1,int>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
H h_match_long_d(const vec<1,double>& v, const vec<1,double>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
H h_match_short_d(const vec<1,double>& v, const vec<1,double>& w, vec1u& id1, vec1u& id2) { match(v, w, id1, id2); }
