// Instantiations of the real template whose contracts are discharged (the element types the code base uses).
#include "util/common/blocking_queue.hpp"
#include "util/common/buffer.hpp"
#include <memory>
namespace cbdc { template class blocking_queue_internal<std::shared_ptr<cbdc::buffer>, std::queue<std::shared_ptr<cbdc::buffer>>>;
template class blocking_queue_internal<size_t, std::priority_queue<size_t, std::vector<size_t>, std::greater<>>>; }
