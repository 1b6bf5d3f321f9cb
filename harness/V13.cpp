#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
using namespace vif;
#define H extern "C" void
typedef std::string S;
extern "C" uint_t h_length(const S& s) { return length(s); }
extern "C" bool h_empty(const S& s) { return empty(s); }
H h_keep_first(const S& s, uint_t n, S& out) { out = keep_first(s, n); }
H h_keep_last(const S& s, uint_t n, S& out) { out = keep_last(s, n); }
extern "C" uint_t h_distance(const S& s, const S& t) { return distance(s, t); }
extern "C" uint_t h_find(const S& s, const S& t) { return find(s, t); }
H h_replace(const S& s, const S& t, const S& r, S& out) { out = replace(s, t, r); }
H h_trim(const S& s, const S& t, S& out) { out = trim(s, t); }
H h_trim1(const S& s, S& out) { out = trim(s); }
extern "C" bool h_begins(const S& s, const S& t) { return begins_with(s, t); }
extern "C" bool h_ends(const S& s, const S& t) { return ends_with(s, t); }
H h_erase_begin(const S& s, uint_t n, S& out) { out = erase_begin(s, n); }
H h_erase_end(const S& s, uint_t n, S& out) { out = erase_end(s, n); }
H h_erase_begin_p(const S& s, const S& t, S& out) { out = erase_begin(s, t); }
H h_erase_end_p(const S& s, const S& t, S& out) { out = erase_end(s, t); }
H h_upper(const S& s, S& out) { out = to_upper(s); }
H h_lower(const S& s, S& out) { out = to_lower(s); }
H h_left(const S& s, uint_t n, char f, S& out) { out = align_left(s, n, f); }
H h_right(const S& s, uint_t n, char f, S& out) { out = align_right(s, n, f); }
H h_center(const S& s, uint_t n, char f, S& out) { out = align_center(s, n, f); }
H h_split(const S& s, const S& t, vec1s& out) { out = split(s, t); }
H h_split_any(const S& s, const S& t, vec1s& out) { out = split_any_of(s, t); }
H h_cut(const S& s, uint_t n, vec1s& out) { out = cut(s, n); }
H h_collapse(const vec1s& v, S& out) { out = collapse(v); }
H h_collapse_sep(const vec1s& v, const S& t, S& out) { out = collapse(v, t); }
H h_word(const S& s, int n, const S& t, S& out) { out = get_word(s, n, t); }
H h_rword(const S& s, int n, const S& t, S& out) { out = get_word(s, n, t); }
H h_replace0(const S& s, const S& t, const S& r, S& out) { out = replace(s, t, r); }
H h_v_length(const vec1s& v, vec1u& out) { out = length(v); }
H h_v_find(const vec1s& v, const S& t, vec1u& out) { out = find(v, t); }
H h_v_begins(const vec1s& v, const S& t, vec1b& out) { out = begins_with(v, t); }
H h_v_ends(const vec1s& v, const S& t, vec1b& out) { out = ends_with(v, t); }
H h_v_keep_first(const vec1s& v, uint_t n, vec1s& out) { out = keep_first(v, n); }
H h_v_erase_end(const vec1s& v, uint_t n, vec1s& out) { out = erase_end(v, n); }
H h_v_left(const vec1s& v, uint_t n, char f, vec1s& out) { out = align_left(v, n, f); }
H h_v_trim(const vec1s& v, const S& t, vec1s& out) { out = trim(v, t); }
H h_wrap(const S& s, uint_t n, const S& t, vec1s& out) { out = wrap(s, n, t); }
