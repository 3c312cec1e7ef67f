// engines without the controlled scheduler: the queue of the shim has no scheduling points
#include <cstddef>
namespace thr {
void point(const char *) {}
void pushed() {}
void sync_push(const void *, int) {}
void sync_pop(const void *, int) {}
void queue_add(void *, const size_t *) {}
void queue_del(void *) {}
} // namespace thr
