// Deterministic scheduler: threads of the code under test run one at a time;
// every scheduling decision is a choice of the case.  Link with SCHED_LD.
#pragma once
#include "pbt.hh"
#include <functional>
#include <string>
#include <cstdint>
namespace sched {
// (re)start; preempt: one in n steps switches although the thread could go on
void reset(pbt::Gen & g, unsigned preempt);
// create a managed thread; may be called from managed threads, too
int spawn(const std::string & name, std::function<void()> fn);
// run until done() holds (checked between steps) or all threads have ended
void run(std::function<bool()> done = nullptr);
// hand all left over threads their cancellation and wait for their end
int self();                       // -1: not managed
void detach();                    // the calling thread is not managed any more (after fork)
bool active();                    // called from a managed thread
void yield();
// wait until ready() holds; cancel: this is a cancellation point
void block(const char * what, std::function<bool()> ready, bool cancelPoint);
// same with a timeout: false if it is not ready at the given time
bool blockUntil(const char * what, std::function<bool()> ready, int64_t until, bool cancelPoint);
void point(const char * what);    // non-blocking cancellation point
void cancel(int tid);
bool ended(int tid);
bool cancelled(int tid);          // ended by cancellation or cancellation pending
int64_t now();                    // virtual nanoseconds
void advance(int64_t ns);
void sleepFor(const char * what, int64_t ns, bool cancelPoint);
// called when no thread can run: true if it made progress possible
extern std::function<bool()> onIdle;
// called before every scheduling decision
extern std::function<void()> onStep;
// by how much a thread waking up from sleep() is late
extern int64_t (*overslept)();
extern bool spurious;             // condition variables wake up spuriously
uint64_t steps();
bool quiet(int except);           // no other thread can run now
std::string name();               // of the calling thread
std::string where();              // what every thread is doing
}
