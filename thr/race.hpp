// Happens-before race detection: the library is compiled with -fsanitize=thread, this is the runtime. Without it: stubs
#pragma once
#include <cstddef>
namespace race {
void reset();                // a new execution
void acquire(const void *obj);
void release(const void *obj);
void barrier();              // everything before happens before everything after
extern int (*current)();     // index of the running thread, -1: its accesses are not examined
void ignore(int d);          // +1/-1: accesses of the running fiber are not examined
void freed(void *p, size_t size);
} // namespace race
