// Deterministic cooperative scheduler.  Code under test is compiled with -fsanitize=thread -finstrument-functions and
// linked against vsched.cpp instead of a sanitizer runtime: every memory access, atomic operation and function entry of
// the code under test is a point at which the generated schedule may switch threads (fibers).  The schedule is drawn
// from the same choice sequence as the rest of the case, so it is recorded, replayed and shrunk with it.
#pragma once
#include "pbt.h"
#include <functional>
#include <vector>
namespace sched {
  // runs the given thread bodies concurrently under a schedule drawn from s; returns when all (and all threads they created) are done
  void run(pbt::Src& s, const std::vector<std::function<void()>>& threads);
  void yield();
  uint64_t now();       // logical time: schedule points passed so far
  int self();           // index of the running thread
  uint32_t switches();  // preemptions performed in the last run
  struct quiet { quiet(); ~quiet(); }; // no preemption while alive
  // while alive, malloc and friends serve checked memory: accesses to freed, unallocated or out-of-bounds heap bytes fail the case
  struct heap { heap(); ~heap(); long live() const; };
}
