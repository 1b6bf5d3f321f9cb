#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
#define H extern "C" void
H h_query(uint_t& i0, uint_t& i1, uint_t iend, uint_t di, uint_t& o0, uint_t& o1, uint_t& got) { thread::parallel_for p(0); p.i0 = i0; p.i1 = i1; p.iend = iend; p.di = di; got = p.query_chunk(o0, o1); i0 = p.i0; i1 = p.i1; }
