#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
using namespace vif;
extern "C" void h_where(const vec<1,bool>& in, vec1u& out) { out = where(in); }
extern "C" void h_where2(const vec<2,bool>& in, vec1u& out) { out = where(in); }
extern "C" void h_where_view(const vec<1,bool>& p, const vec<1,bool*>& in, vec1u& out) { out = where(in); }
extern "C" uint_t h_where_first(const vec<1,bool>& in) { return where_first(in); }
extern "C" uint_t h_where_last(const vec<1,bool>& in) { return where_last(in); }
extern "C" uint_t h_where_first2(const vec<2,bool>& in) { return where_first(in); }
extern "C" uint_t h_where_last2(const vec<2,bool>& in) { return where_last(in); }
extern "C" void h_complement(const vec<1,int>& v, const vec1u& ids, vec1u& out) { out = complement(v, ids); }
