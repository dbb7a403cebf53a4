// Accounting and fault injection for heap blocks of the code under test
// (link with MEMTRACK_LD from harness.py).
#pragma once
#include <cstddef>
namespace memtrack {
void start();                   // start tracking (forgets earlier blocks)
void stop();
size_t live();                  // blocks allocated since start() and not freed
size_t liveBytes();
size_t allocations();           // allocations since start()
void failAfter(long n);         // n-th allocation from now on fails (0: the next); -1: never
void failOver(size_t bytes);    // requests larger than this fail; 0: never
bool failed();                  // an injected failure happened since start()
}
