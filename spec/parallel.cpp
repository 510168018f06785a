// Distribution of a loop over threads.
#include <cstddef>

#include "fes/detail/thread.hpp"

namespace verif {

// Work done for a range of elements.
void work(size_t start, size_t end);

void probe_parallel(size_t size, size_t threads) {
  fes::detail::parallel_for(
      [](const size_t start, const size_t end) { work(start, end); }, size,
      threads);
}

}  // namespace verif
