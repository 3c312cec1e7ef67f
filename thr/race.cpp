// Vector clocks of the controlled threads, shadow cells of the memory; data races are found in every explored schedule,
// whether or not the conflicting accesses are interleaved in it.
#include "race.hpp"
#include "mc.hpp"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/single_threaded.h>
#include <unistd.h>

extern char __data_start, _end;
namespace {
constexpr int MAXT = 16;
using Clk = uint32_t;
struct VC {
    Clk c[MAXT];
    void join(const VC &o) {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
VC vc[MAXT];
int ign[MAXT];
struct Slot {
    uint8_t tid, mask, write, pad;
    Clk clk;
    uintptr_t pc;
};
struct Cell { // of 8 bytes
    uint32_t gen;
    uint32_t n;
    Slot s[6];
};
uint32_t gen = 1;
struct Sync {
    const void *obj;
    uint32_t gen;
    VC v;
};
constexpr size_t NSYNC = 1 << 16;
Sync *syncs;
// cells are hashed by address: the arena is one range, globals are another one
constexpr size_t ARENA_CELLS = size_t(1) << 25; // 256 MB
Cell *heap_cells, *glob_cells;
char *arena_lo;
bool ready = false;

int me() { return race::current(); }
bool on() { return ready && race::current && race::current() >= 0; }
Sync &sync(const void *o) {
    size_t h = (reinterpret_cast<uintptr_t>(o) >> 2) * 0x9E3779B97F4A7C15ull >> 48;
    for (size_t i = 0; i < NSYNC; ++i) {
        auto &s = syncs[(h + i) & (NSYNC - 1)];
        if (s.gen != gen) {
            s.gen = gen;
            s.obj = o;
            memset(&s.v, 0, sizeof s.v);
            return s;
        }
        if (s.obj == o)
            return s;
    }
    abort();
}
Cell *cell(uintptr_t a) {
    auto lo = reinterpret_cast<uintptr_t>(arena_lo);
    if (a >= lo && (a - lo) / 8 < ARENA_CELLS)
        return &heap_cells[(a - lo) / 8];
    auto d = reinterpret_cast<uintptr_t>(&__data_start), e = reinterpret_cast<uintptr_t>(&_end);
    if (a >= d && a < e)
        return &glob_cells[(a - d) / 8];
    return nullptr;
}
struct Sym {
    uintptr_t a, size;
    std::string name;
};
std::string demangle(const char *n) {
    int st = 0;
    char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n;
    free(d);
    return r;
}
// symbol table of the executable
std::string function_of(uintptr_t pc) {
    static std::vector<Sym> *syms;
    if (!syms) {
        syms = new std::vector<Sym>();
        int fd = open("/proc/self/exe", O_RDONLY);
        struct stat st;
        if (fd >= 0 && !fstat(fd, &st)) {
            auto m = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
            if (m != MAP_FAILED) {
                auto h = (Elf64_Ehdr *)m;
                auto sh = (Elf64_Shdr *)(m + h->e_shoff);
                for (int i = 0; i < h->e_shnum; ++i)
                    if (sh[i].sh_type == SHT_SYMTAB) {
                        auto t = (Elf64_Sym *)(m + sh[i].sh_offset);
                        auto str = m + sh[sh[i].sh_link].sh_offset;
                        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
                            if (ELF64_ST_TYPE(t[k].st_info) == STT_FUNC && t[k].st_size)
                                syms->push_back({t[k].st_value, t[k].st_size, str + t[k].st_name});
                    }
            }
            close(fd);
        }
    }
    for (auto &s : *syms)
        if (pc - 1 >= s.a && pc - 1 < s.a + s.size) {
            auto n = demangle(s.name.c_str());
            // without arguments
            int depth = 0;
            for (size_t i = 0; i < n.size(); ++i) {
                if (n[i] == '<')
                    ++depth;
                if (n[i] == '>')
                    --depth;
                if (n[i] == '(' && !depth && n.compare(i, 21, "(anonymous namespace)"))
                    return n.substr(0, i);
            }
            return n;
        }
    return "?";
}
void report(const Slot &o, int tid, bool write, uintptr_t pc, uintptr_t addr) {
    if (mc::failed() || mc::warming())
        return;
    mc::ArenaOff off;
    auto a = function_of(o.pc), b = function_of(pc);
    auto x = a < b ? a + " | " + b : b + " | " + a;
    char h[16];
    uint32_t k = 2166136261u;
    for (char c : x)
        k = (k ^ (unsigned char)c) * 16777619u;
    snprintf(h, sizeof h, "race-%08x", k);
    mc::fail("*", h, "data race: %s by thread %d at %#lx in %s is not ordered with %s by thread %d at %#lx in %s", write ? "write" : "read", tid, (long)pc, b.c_str(),
             o.write ? "write" : "read", o.tid, (long)o.pc, a.c_str());
    (void)addr;
}
void access1(uintptr_t a, uint8_t mask, bool write, uintptr_t pc) {
    auto c = cell(a);
    if (!c)
        return;
    int t = me();
    if (c->gen != gen) {
        c->gen = gen;
        c->n = 0;
    }
    auto &v = vc[t];
    int mine = -1;
    for (uint32_t i = 0; i < c->n; ++i) {
        auto &s = c->s[i];
        if (s.tid == t) {
            if (s.mask == mask && s.write >= write) {
                if (s.clk == v.c[t])
                    return; // the same epoch
                if (s.write == write)
                    mine = int(i);
            }
            continue;
        }
        if ((s.mask & mask) && (s.write || write) && s.clk > v.c[s.tid])
            return report(s, t, write, pc, a);
    }
    if (mine < 0) {
        if (write) { // everything overwritten by it happened before
            uint32_t n = 0;
            for (uint32_t i = 0; i < c->n; ++i)
                if (c->s[i].mask & ~mask)
                    c->s[n++] = c->s[i];
            c->n = n;
        }
        if (c->n < 6)
            mine = int(c->n++);
        else
            mine = int((a >> 3) % 6);
    }
    c->s[mine] = Slot{uint8_t(t), mask, write, 0, v.c[t], pc};
}
void access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (!on() || ign[me()] > 0)
        return;
    while (n) {
        size_t o = a & 7, k = 8 - o < n ? 8 - o : n;
        access1(a & ~uintptr_t(7), uint8_t(((1u << k) - 1) << o), write, pc);
        a += k;
        n -= k;
    }
}
void acq(const void *o) {
    if (on())
        vc[me()].join(sync(o).v);
}
void rel(const void *o) {
    if (on()) {
        auto &v = vc[me()];
        sync(o).v.join(v);
        ++v.c[me()];
    }
}
bool acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } // consume, acquire, acq_rel, seq_cst
bool releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }
} // namespace

namespace race {
void reset() {
    if (!ready) {
        mc::ArenaOff off;
        __libc_single_threaded = 0; // reference counters of the standard library are atomic
        auto map = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
        heap_cells = (Cell *)map(ARENA_CELLS * sizeof(Cell));
        glob_cells = (Cell *)map((size_t(&_end - &__data_start) / 8 + 2) * sizeof(Cell));
        syncs = (Sync *)map(NSYNC * sizeof(Sync));
        arena_lo = mc::arena_base();
        mc::on_free = freed;
        ready = true;
    }
    ++gen;
    memset(vc, 0, sizeof vc);
    memset(ign, 0, sizeof ign);
    for (int i = 0; i < MAXT; ++i)
        vc[i].c[i] = 1;
}
int (*current)() = nullptr;
void barrier() {
    VC all{};
    for (auto &v : vc)
        all.join(v);
    for (int i = 0; i < MAXT; ++i) {
        vc[i] = all;
        ++vc[i].c[i];
    }
}
void acquire(const void *o) { acq(o); }
void release(const void *o) { rel(o); }
void ignore(int d) {
    if (on())
        ign[me()] += d;
}
void freed(void *p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }
} // namespace race

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                 \
    void __tsan_read##n(void *p) { access(A(p), n, false, PC); }                              \
    void __tsan_write##n(void *p) { access(A(p), n, true, PC); }                              \
    void __tsan_read_write##n(void *p) { access(A(p), n, true, PC); }                         \
    void __tsan_unaligned_read##n(void *p) { access(A(p), n, false, PC); }                    \
    void __tsan_unaligned_write##n(void *p) { access(A(p), n, true, PC); }                    \
    void __tsan_unaligned_read_write##n(void *p) { access(A(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(A(p), n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(A(p), n, true, PC); }
void __tsan_vptr_update(void **p, void *v) {
    if (*p != v)
        access(A(p), 8, true, PC);
}
void __tsan_vptr_read(void **p) { access(A(p), 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access(A(s), n, false, PC);
    access(A(d), n, true, PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access(A(s), n, false, PC);
    access(A(d), n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access(A(d), n, true, PC);
    return memset(d, c, n);
}
#define ATOMIC(B, T)                                                                                           \
    T __tsan_atomic##B##_load(const volatile T *p, int mo) {                                                   \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                            \
        if (acquires(mo))                                                                                      \
            acq((const void *)p);                                                                              \
        return v;                                                                                              \
    }                                                                                                          \
    void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                                                \
        if (releases(mo))                                                                                      \
            rel((const void *)p);                                                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                          \
    static inline void rmw##B(const volatile void *p, int mo) {                                                \
        if (acquires(mo))                                                                                      \
            acq((const void *)p);                                                                              \
        if (releases(mo))                                                                                      \
            rel((const void *)p);                                                                              \
    }                                                                                                          \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) {                                                \
        rmw##B(p, mo);                                                                                         \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) {                                               \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) {                                               \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) {                                               \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) {                                                \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) {                                               \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) {                                              \
        rmw##B(p, mo);                                                                                         \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                          \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {                \
        bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
        rmw##B(p, ok ? mo : fmo == 2 || fmo == 5 ? 2 : 0);                                                     \
        return ok;                                                                                             \
    }                                                                                                          \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {                      \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                         \
        return e;                                                                                              \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// local static variables
int __cxa_guard_acquire(uint64_t *g) {
    auto b = reinterpret_cast<uint8_t *>(g);
    acq(g);
    return b[0] ? 0 : 1;
}
void __cxa_guard_release(uint64_t *g) {
    auto b = reinterpret_cast<uint8_t *>(g);
    rel(g);
    b[0] = 1;
}
void __cxa_guard_abort(uint64_t *) {}
}
