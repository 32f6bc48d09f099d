// Message queues of 4 entries instead of 65536: the work thread's overflow path comes within reach of a few messages.
#pragma once
#include <cy_core.h>
namespace cyclone { template<typename T, uint32_t N = 4> using SmallQueue = LockFreeQueue<T, 4>; }
#define LockFreeQueue SmallQueue
