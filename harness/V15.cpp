#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/astro/image.hpp>
using namespace vif;
#define H extern "C" void
typedef vec<2,int> img_t;
// the upper margins are given through the size of the result: c = n - rows - a, d = m - columns - b
H h_enlarge(const img_t& v, uint_t a, uint_t b, uint_t n, uint_t m, int def, img_t& r) { r = astro::enlarge(v, std::array<uint_t,4>{{a,b,n-v.dims[0]-a,m-v.dims[1]-b}}, def); }
H h_enlarge1(const img_t& v, uint_t a, int def, img_t& r) { r = astro::enlarge(v, a, def); }
H h_shrink(const img_t& v, uint_t a, uint_t b, uint_t n, uint_t m, img_t& r) { r = astro::shrink(v, std::array<uint_t,4>{{a,b,v.dims[0]-a-n,v.dims[1]-b-m}}); }
H h_shrink_out(const img_t& v, uint_t a, uint_t b, uint_t c, uint_t d, img_t& r) { r = astro::shrink(v, std::array<uint_t,4>{{a,b,c,d}}); }
H h_shrink1(const img_t& v, uint_t a, img_t& r) { r = astro::shrink(v, a); }
H h_flip_x(const img_t& v, img_t& r) { r = astro::flip_x(v); }
H h_flip_y(const img_t& v, img_t& r) { r = astro::flip_y(v); }
H h_sub_none(const img_t& v, const vec1i& reg, vec1u& rv, vec1u& rr) { astro::subregion(v, reg, rv, rr); }
// region described by its overlap with the image: first row a0 and nn rows of overlap, lx rows below, hx rows above (same for columns, with the total ny);
// every region that overlaps the image is one of these sixteen cases (bits of n: clipped at low rows, low columns, high rows, high columns)
#define SUBI(n) H h_sub_##n(const img_t& v, int_t a0, int_t nn, int_t lx, int_t hx, int_t b0, int_t mm, int_t ly, int_t ny, vec1u& rv, vec1u& rr) { \
    int_t N = v.dims[0], M = v.dims[1]; int_t NN = (n & 1) && (n & 4) ? N : nn, A0 = (n & 1) ? 0 : (n & 4) ? N - nn : a0, LX = (n & 1) ? lx : 0, HX = (n & 4) ? hx : 0; \
    int_t MM = (n & 2) && (n & 8) ? M : mm, B0 = (n & 2) ? 0 : (n & 8) ? M - mm : b0, NY = (n & 10) ? ny : mm, LY = !(n & 2) ? 0 : (n & 8) ? ly : ny - mm; \
    astro::subregion(v, vec1i{A0 - LX, B0 - LY, A0 + NN - 1 + HX, B0 - LY + NY - 1}, rv, rr); }
SUBI(0) SUBI(1) SUBI(2) SUBI(3) SUBI(4) SUBI(5) SUBI(6) SUBI(7) SUBI(8) SUBI(9) SUBI(10) SUBI(11) SUBI(12) SUBI(13) SUBI(14) SUBI(15)
H h_sub(const img_t& v, const vec1i& reg, int def, img_t& r) { r = astro::subregion(v, reg, def); }
H h_recenter(const img_t& v, int_t cy, int_t cx, uint_t n, uint_t m, int def, img_t& r) { r = astro::recenter(v, cy, cx, std::array<uint_t,2>{{n, m}}, def); }
H h_recenter0(const img_t& v, int_t cy, int_t cx, int def, img_t& r) { r = astro::recenter(v, cy, cx, def); }
H h_shift(img_t& v, int_t tx, int_t ty) { astro::inplace_shift(v, tx, ty); }
H h_trans(img_t& v, int_t tx, int_t ty, int def) { astro::inplace_translate_integer(v, tx, ty, def); }
