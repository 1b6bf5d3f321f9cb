#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
using namespace vif;
#define H extern "C" void
typedef std::string S;
H h_dirize(const S& s, S& out) { out = file::directorize(s); }
H h_base(const S& s, S& out) { out = file::get_basename(s); }
H h_dir(const S& s, S& out) { out = file::get_directory(s); }
extern "C" bool h_abs(const S& s) { return file::is_absolute_path(s); }
H h_rmext(const S& s, S& out) { out = file::remove_extension(s); }
H h_ext(const S& s, S& out) { out = file::get_extension(s); }
H h_splitext(const S& s, S& out, S& t) { auto p = file::split_extension(s); out = p.first; t = p.second; }
H h_recompose(const S& s, S& out) { out = file::remove_extension(s) + file::get_extension(s); }
H h_v_ext(const vec1s& v, vec1s& out) { out = file::get_extension(v); }
H h_v_rmext(const vec1s& v, vec1s& out) { out = file::remove_extension(v); }
H h_v_base(const vec1s& v, vec1s& out) { out = file::get_basename(v); }
H h_v_dir(const vec1s& v, vec1s& out) { out = file::get_directory(v); }
H h_v_dirize(const vec1s& v, vec1s& out) { out = file::directorize(v); }
H h_v_abs(const vec1s& v, vec1b& out) { out = file::is_absolute_path(v); }
