#include <vif/core/vec.hpp>
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
#define H extern "C" void
H h_exec0(uint_t w, uint_t chunk, uint_t first, uint_t last, vec1u& out) { thread::parallel_for p(w); p.chunk_size = chunk; p.execute([&](uint_t i) { out.safe[i] += 1; }, first, last); }
H h_exec10(uint_t w, uint_t chunk, uint_t last, vec1u& out) { thread::parallel_for p(w); p.chunk_size = chunk; p.execute([&](uint_t i) { out.safe[i] += 1; }, last); }
H h_execc(uint_t w, uint_t chunk, uint_t first, uint_t last, vec1u& out) { thread::parallel_for p(w); p.chunk_size = chunk; p.execute([&](uint_t i) { out.safe[i] += 1; }, first, last); }
H h_exec1c(uint_t w, uint_t chunk, uint_t last, vec1u& out) { thread::parallel_for p(w); p.chunk_size = chunk; p.execute([&](uint_t i) { out.safe[i] += 1; }, last); }
H h_execn(uint_t w, uint_t chunk, uint_t first, uint_t last, vec1u& out) { thread::parallel_for p(w); p.chunk_size = chunk; p.execute([&](uint_t i) { out.safe[i] += 1; }, first, last); }
