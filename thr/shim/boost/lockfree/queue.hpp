// boost::lockfree::queue with scheduling points before every operation
#pragma once
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
#include <queue>
#include <cstddef>
#define queue queue_of_boost
#include_next <boost/lockfree/queue.hpp>
#undef queue
namespace thr {
void point(const char *what);
void pushed(); // after the operation
void sync_push(const void *q, int stage);
void sync_pop(const void *q, int stage);
void queue_add(void *q, const size_t *size);
void queue_del(void *q);
} // namespace thr
namespace boost {
namespace lockfree {
template <typename T, typename... Options> class queue : public queue_of_boost<T, Options...> {
    using base = queue_of_boost<T, Options...>;
    size_t n = 0;

  public:
    template <typename... A> explicit queue(A &&...a) : base(std::forward<A>(a)...) { thr::queue_add(this, &n); }
    ~queue() { thr::queue_del(this); }
    bool push(const T &v) {
        thr::point("queue push");
        thr::sync_push(this, 0);
        bool r = base::push(v);
        n += r;
        thr::sync_push(this, 1);
        thr::pushed();
        return r;
    }
    bool bounded_push(const T &v) {
        thr::point("queue push");
        thr::sync_push(this, 0);
        bool r = base::bounded_push(v);
        n += r;
        thr::sync_push(this, 1);
        thr::pushed();
        return r;
    }
    bool unsynchronized_push(const T &v) {
        thr::point("queue push");
        thr::sync_push(this, 0);
        bool r = base::unsynchronized_push(v);
        n += r;
        thr::sync_push(this, 1);
        thr::pushed();
        return r;
    }
    template <typename U> bool pop(U &v) {
        thr::point("queue pop");
        thr::sync_pop(this, 0);
        bool r = base::pop(v);
        n -= r;
        thr::sync_pop(this, 1);
        return r;
    }
    template <typename U> bool unsynchronized_pop(U &v) {
        thr::point("queue pop");
        thr::sync_pop(this, 0);
        bool r = base::unsynchronized_pop(v);
        n -= r;
        thr::sync_pop(this, 1);
        return r;
    }
    template <typename F> bool consume_one(F &&f) {
        T v;
        bool r = pop(v);
        if (r)
            f(v);
        return r;
    }
    template <typename F> size_t consume_all(F &&f) {
        size_t c = 0;
        while (consume_one(f))
            ++c;
        return c;
    }
    bool empty() {
        thr::point("queue empty?");
        thr::sync_pop(this, 0);
        bool r = base::empty();
        thr::sync_pop(this, 1);
        return r;
    }
};
} // namespace lockfree
} // namespace boost
