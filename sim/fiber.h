#pragma once
#include <functional>
#include <cstddef>
namespace sim {
struct Team;
struct Fiber {
  void* sp = nullptr; char* stack = nullptr; size_t ssize = 0;
  int id = 0, rank = -1, tid = 0;
  Team* team = nullptr; int wsidx = 0; int singleidx = 0;
  bool parallel = false;      // member of a team with more than one thread
  bool child = false;
  bool done = false, waiting = false; const char* what = nullptr;
  std::function<bool()> ready; std::function<void()> entry;
  int locks = 0; int polls = 0;
  char eh[16] = {0}; int err = 0;
};
Fiber* cur();
Fiber* new_fiber(int rank, int tid, std::function<void()> entry);
void release_fiber(Fiber*);
void race_epoch();
}
