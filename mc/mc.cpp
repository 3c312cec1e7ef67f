#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <new>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(a, s) __asan_poison_memory_region((a), (s))
#define UNPOISON(a, s) __asan_unpoison_memory_region((a), (s))
#else
#define POISON(a, s) ((void)(a), (void)(s))
#define UNPOISON(a, s) ((void)(a), (void)(s))
#endif

void (*mc::on_free)(void *, size_t) = nullptr;
const char *mc::every_property = nullptr;
int mc::bound_less = 0;
bool mc::every_property_judges_all = false;
// ---------------------------------------------------------------------------------
// arena
// ---------------------------------------------------------------------------------
namespace {
char *const ARENA_BASE = reinterpret_cast<char *>(0x200000000000ull);
constexpr size_t ARENA_SIZE = 512ull << 20;
bool arena_ready = false;
volatile bool arena_on = false;
char *arena_cur = nullptr;
size_t live_cnt = 0, live_sz = 0;
unsigned layout_salt = 0, layout_ctr = 0;
std::atomic_flag arena_lock = ATOMIC_FLAG_INIT;

struct Hdr {
    uint64_t magic;
    uint64_t size;
};
constexpr uint64_t M_LIVE = 0x5ca1ab1e0badf00dull, M_DEAD = 0xdeadbeefdeadbeefull;

struct SpinGuard {
    SpinGuard() {
        while (arena_lock.test_and_set(std::memory_order_acquire)) {
        }
    }
    ~SpinGuard() { arena_lock.clear(std::memory_order_release); }
};

void arena_init() {
    void *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != ARENA_BASE) {
        fprintf(stderr, "arena mmap failed\n");
        _exit(2);
    }
    arena_cur = ARENA_BASE;
    arena_ready = true;
}

inline bool in_arena(void *p) { return p >= ARENA_BASE && p < ARENA_BASE + ARENA_SIZE; }

void *arena_alloc(size_t sz, size_t al) {
    SpinGuard g;
    if (al < 16)
        al = 16;
    uintptr_t c = reinterpret_cast<uintptr_t>(arena_cur) + sizeof(Hdr);
    if (layout_salt) {
        // perturb the placement of blocks deterministically
        layout_ctr = layout_ctr * 1103515245u + 12345u + layout_salt;
        c += ((layout_ctr >> 16) % (1 + layout_salt * 3)) * 16;
    }
    c = (c + al - 1) / al * al;
    char *p = reinterpret_cast<char *>(c);
    size_t rounded = (sz + 15) / 16 * 16;
    if (p + rounded + 32 > ARENA_BASE + ARENA_SIZE) {
        fprintf(stderr, "arena exhausted\n");
        _exit(2);
    }
    Hdr *h = reinterpret_cast<Hdr *>(p - sizeof(Hdr));
    UNPOISON(h, sizeof(Hdr));
    h->magic = M_LIVE;
    h->size = sz;
    POISON(h, sizeof(Hdr));
    UNPOISON(p, sz);
    memset(p, 0xcd, sz);
    arena_cur = p + rounded + 16;
    ++live_cnt;
    live_sz += sz;
    return p;
}

void arena_free(void *p) {
    SpinGuard g;
    Hdr *h = reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr));
    UNPOISON(h, sizeof(Hdr));
    if (h->magic != M_LIVE) {
        fprintf(stderr, "ERROR: double free or invalid free of %p\n", p);
        abort();
    }
    h->magic = M_DEAD;
    size_t sz = h->size;
    if (mc::on_free)
        mc::on_free(p, sz);
    POISON(h, sizeof(Hdr));
    memset(p, 0xdd, sz);
    POISON(p, (sz + 15) / 16 * 16);
    --live_cnt;
    live_sz -= sz;
}

void arena_reset() {
    size_t used = arena_cur - ARENA_BASE;
    POISON(ARENA_BASE, (used + 4096) / 4096 * 4096);
    arena_cur = ARENA_BASE + 16;
    live_cnt = live_sz = 0;
    layout_ctr = 0;
}

void *do_new(size_t sz, size_t al) {
    if (arena_on)
        return arena_alloc(sz, al);
    void *p = al > 16 ? aligned_alloc(al, (sz + al - 1) / al * al) : malloc(sz ? sz : 1);
    if (!p)
        abort();
    return p;
}
void do_delete(void *p) {
    if (!p)
        return;
    if (in_arena(p))
        arena_free(p);
    else
        free(p);
}
} // namespace

void *operator new(size_t s) { return do_new(s, 16); }
void *operator new[](size_t s) { return do_new(s, 16); }
void *operator new(size_t s, std::align_val_t a) { return do_new(s, size_t(a)); }
void *operator new[](size_t s, std::align_val_t a) { return do_new(s, size_t(a)); }
void *operator new(size_t s, const std::nothrow_t &) noexcept { return do_new(s, 16); }
void *operator new[](size_t s, const std::nothrow_t &) noexcept { return do_new(s, 16); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

namespace mc {

ArenaOff::ArenaOff() : saved(arena_on) { arena_on = false; }
ArenaOff::~ArenaOff() { arena_on = saved; }
size_t arena_live() { return live_cnt; }
char *arena_base() { return ARENA_BASE; }
size_t arena_live_bytes() { return live_sz; }
void arena_layout(unsigned salt) { layout_salt = salt; }
void arena_dump(int max) {
    // walk is not possible with variable gaps; only totals
    fprintf(stderr, "arena: %zu live allocations, %zu bytes (max shown %d)\n", live_cnt, live_sz, max);
    int shown = 0;
    for (char *p = ARENA_BASE + 16; p < arena_cur && shown < max; p += 16) {
        UNPOISON(p, sizeof(Hdr));
        Hdr *h = reinterpret_cast<Hdr *>(p);
        if (h->magic == M_LIVE && h->size < (1u << 26)) {
            char *q = p + sizeof(Hdr);
            fprintf(stderr, "  live %p size %zu first-words", (void *)q, (size_t)h->size);
            size_t n = std::min<size_t>(h->size / 8, 4);
            for (size_t i = 0; i < n; ++i)
                fprintf(stderr, " %016llx", (unsigned long long)((uint64_t *)q)[i]);
            fprintf(stderr, "\n");
            ++shown;
            p = q + (h->size + 15) / 16 * 16 - 16;
        }
    }
}

// ---------------------------------------------------------------------------------
// execution record (in shared memory, survives a crash of the worker)
// ---------------------------------------------------------------------------------
constexpr int MAX_CHOICES = 6000;
constexpr int MAX_WORKERS = 16;
constexpr size_t SET_SIZE = 1u << 23;

struct Rec {
    uint16_t n, taken;
    uint8_t kind;
};

struct Slot { // one per worker
    std::atomic<int64_t> exec_start_us; // 0 = idle
    int job;
    int ncho;
    Rec cho[MAX_CHOICES];
    int has_fail;
    char prop[8];
    char sig[160];
    char msg[2048];
    int divergence;
};

struct Shared {
    std::atomic<int> next_job;
    std::atomic<int> stop;
    std::atomic<int> retry; // job + 1, which has to be repeated
    std::atomic<uint64_t> execs, transitions, choice_points, states, outcomes, pruned_over;
    std::atomic<uint64_t> set_states[SET_SIZE];
    std::atomic<uint64_t> set_out[SET_SIZE >> 2];
    Slot slots[MAX_WORKERS];
};

static Shared *S = nullptr;
static Slot *slot = nullptr;

static bool set_insert(std::atomic<uint64_t> *t, size_t n, uint64_t h) {
    if (!h)
        h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) % n;
    for (int k = 0; k < 64; ++k) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h)
            return false;
        if (!cur) {
            if (t[i].compare_exchange_strong(cur, h))
                return true;
            if (cur == h)
                return false;
        }
        i = (i + 1) % n;
    }
    return false; // table full: under-count
}

static std::string g_property;
static bool count_stats = true;
bool verbose = false;
const std::string &property() { return g_property; }
bool wants(const char *prop) { return g_property == prop; }

// current execution
static const Rec *ex_prefix = nullptr;
static int ex_prefix_n = 0;
static uint64_t ex_hash = 0;
static bool ex_active = false;
static uint64_t ex_steps = 0;
static bool ex_over = false;
static bool ex_warm = false;

static inline void hash_mix(const char *s) {
    uint64_t h = ex_hash ? ex_hash : 1469598103934665603ull;
    for (; *s; ++s) {
        h ^= (unsigned char)*s;
        h *= 1099511628211ull;
    }
    ex_hash = h;
}

static void note_state(const char *label) {
    if (!count_stats)
        return;
    uint64_t h = ex_hash * 31 + (uint64_t)(label ? label[0] * 131 + label[1] : 0);
    if (set_insert(S->set_states, SET_SIZE, h))
        S->states.fetch_add(1, std::memory_order_relaxed);
}

int choose(int n, Kind kind, const char *label) {
    if (n <= 1)
        return 0;
    if (!ex_active)
        return 0;
    int i = slot->ncho;
    if (i >= MAX_CHOICES) {
        if (!ex_over) {
            ex_over = true;
            S->pruned_over.fetch_add(1);
            fail("*", "horizon", "execution exceeded %d choice points (no progress / livelock), at '%s'", MAX_CHOICES, label);
        }
        return 0;
    }
    int taken = 0;
    if (i < ex_prefix_n) {
        if (ex_prefix[i].n != n || ex_prefix[i].kind != kind) {
            slot->divergence = 1;
            fprintf(stderr, "DIVERGENCE at choice %d (%s): recorded n=%d kind=%d, now n=%d kind=%d\n", i, label, ex_prefix[i].n,
                    ex_prefix[i].kind, n, kind);
            _exit(7);
        }
        taken = ex_prefix[i].taken;
    }
    if (taken >= n) {
        slot->divergence = 1;
        _exit(7);
    }
    slot->cho[i] = Rec{(uint16_t)n, (uint16_t)taken, (uint8_t)kind};
    slot->ncho = i + 1;
    if (count_stats)
        S->choice_points.fetch_add(1, std::memory_order_relaxed);
    note_state(label);
    if (verbose) {
        printf("    [choice %d] %s: %d of %d%s\n", i, label, taken, n, kind == DEV ? " (deviation if !=0)" : "");
        fflush(stdout);
    }
    return taken;
}

void step() {
    ++ex_steps;
    if (count_stats)
        S->transitions.fetch_add(1, std::memory_order_relaxed);
    if (ex_steps > 200000 && !ex_over) {
        ex_over = true;
        fail("*", "horizon", "execution exceeded 200000 steps (livelock)");
    }
}
bool failed() { return slot && slot->has_fail; }
bool warming() { return ex_warm; }
bool failing_or_over() { return ex_over; }

void obs(const char *fmt, ...) {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    hash_mix(buf);
    hash_mix(";");
    if (verbose) {
        printf("%s\n", buf);
        fflush(stdout);
    }
}

// ---- known findings ----------------------------------------------------------------
struct Known {
    std::string prop, scen, sig, text;
    int hits = 0;
};
static std::vector<Known> known;
static int *known_hits = nullptr; // shared
static const Scenario *cur_scn = nullptr;

static bool judge_all() { return g_property == "ALL" || (mc::every_property_judges_all && g_property == mc::every_property); }
static bool prop_match(const char *prop) { // "*", "P01" or "P01,P02"
    if (prop[0] == '*')
        return true;
    if (judge_all()) { // whatever the scenario decides
        for (auto &x : cur_scn->props)
            if (strstr(prop, x.c_str()))
                return true;
        return false;
    }
    const char *p = strstr(prop, g_property.c_str());
    return p != nullptr;
}

void fail(const char *prop, const char *sig, const char *fmt, ...) {
    char buf[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (verbose) {
        printf("!!! [%s/%s] %s\n", prop, sig, buf);
        fflush(stdout);
    }
    if (!slot)
        return;
    if (ex_warm || !prop_match(prop))
        return;
    if (slot->has_fail)
        return;
    for (size_t i = 0; i < known.size(); ++i) {
        auto &k = known[i];
        if ((k.prop == g_property || judge_all()) && cur_scn && (k.scen == cur_scn->name) && k.sig == sig) {
            if (known_hits && (k.prop == g_property || g_property == "ALL"))
                ++known_hits[i];
            return;
        }
    }
    slot->has_fail = 1;
    snprintf(slot->prop, sizeof slot->prop, "%s", g_property.c_str());
    snprintf(slot->sig, sizeof slot->sig, "%s", sig);
    snprintf(slot->msg, sizeof slot->msg, "%s", buf);
}

// ---------------------------------------------------------------------------------
// jobs
// ---------------------------------------------------------------------------------
struct Job {
    int scn, cfg, bound, shard, nshards;
};
static std::vector<Job> jobs;
std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> s;
    return s;
}
Reg::Reg(Scenario s) { scenarios().push_back(std::move(s)); }

static int64_t now_us() {
    timespec ts;
    syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &ts);
    return int64_t(ts.tv_sec) * 1000000 + ts.tv_nsec / 1000;
}

static void run_one(const Scenario &sc, int cfg, const Rec *prefix, int n) {
    // forget the previous execution
    slot->ncho = 0;
    slot->has_fail = 0;
    slot->divergence = 0;
    ex_prefix = prefix;
    ex_prefix_n = n;
    ex_hash = 0;
    ex_steps = 0;
    ex_over = false;
    cur_scn = &sc;
    slot->exec_start_us = now_us();
    {
        // warm-up, once per scenario and process: lazily initialised statics must not land in the arena
        static std::set<const Scenario *> warm;
        if (warm.insert(&sc).second) {
            ex_warm = true;
            bool v = verbose, cs = count_stats;
            verbose = count_stats = false;
            ex_active = false;
            sc.run(cfg);
            verbose = v;
            count_stats = cs;
            ex_warm = false;
            slot->ncho = 0;
            ex_hash = 0;
            ex_steps = 0;
            ex_over = false;
            slot->exec_start_us = now_us();
        }
    }
    arena_reset();
    layout_salt = 0;
    ex_active = true;
    arena_on = true;
    sc.run(cfg);
    arena_on = false;
    ex_active = false;
    slot->exec_start_us = 0;
    if (count_stats) {
        S->execs.fetch_add(1, std::memory_order_relaxed);
        if (set_insert(S->set_out, SET_SIZE >> 2, ex_hash * 31 + cfg + (uintptr_t)&sc))
            S->outcomes.fetch_add(1, std::memory_order_relaxed);
    }
}

// worker: returns exit code
static int work_job(int ji) {
    const Job &j = jobs[ji];
    const Scenario &sc = scenarios()[j.scn];
    slot->job = ji;
    std::vector<Rec> base;
    count_stats = j.shard == 0;
    run_one(sc, j.cfg, nullptr, 0);
    count_stats = true;
    if (slot->has_fail)
        return 3;
    base.assign(slot->cho, slot->cho + slot->ncho);
    // root alternatives
    struct Root {
        int i, alt;
    };
    std::vector<Root> roots;
    for (int i = 0; i < (int)base.size(); ++i) {
        if (base[i].kind == DEV && j.bound < 1)
            continue;
        for (int a = 1; a < base[i].n; ++a)
            roots.push_back({i, a});
    }
    for (size_t r = 0; r < roots.size(); ++r) {
        if ((int)(r % j.nshards) != j.shard)
            continue;
        std::vector<Rec> pre(base.begin(), base.begin() + roots[r].i + 1);
        pre.back().taken = roots[r].alt;
        const int fixed = pre.size();
        while (true) {
            run_one(sc, j.cfg, pre.data(), pre.size());
            if (slot->has_fail)
                return 3;
            if (S->stop.load(std::memory_order_relaxed))
                return 4;
            int n = slot->ncho;
            Rec *c = slot->cho;
            int cost = 0;
            // cost before position i
            std::vector<int> cb(n + 1, 0);
            for (int i = 0; i < n; ++i)
                cb[i + 1] = cb[i] + (c[i].kind == DEV && c[i].taken ? 1 : 0);
            (void)cost;
            int i = n - 1;
            for (; i >= fixed; --i) {
                int nc = cb[i] + (c[i].kind == DEV ? 1 : 0);
                if (c[i].taken + 1 < c[i].n && nc <= j.bound)
                    break;
            }
            if (i < fixed)
                break;
            pre.assign(c, c + i + 1);
            ++pre.back().taken;
        }
    }
    return 0;
}

static std::atomic<uint8_t> *job_done = nullptr; // shared

static std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if ((unsigned char)c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

// Executes one recorded execution in a fresh child; returns a description of how it ended ("" = ok)
static std::string replay_child(int scn, int cfg, const std::vector<Rec> &cho, bool verb, double limit_s) {
    slot = &S->slots[MAX_WORKERS - 1];
    slot->has_fail = 0;
    slot->divergence = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!verb) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        verbose = verb;
        count_stats = false;
        run_one(scenarios()[scn], cfg, cho.data(), cho.size());
        _exit(slot->has_fail ? 3 : 0);
    }
    int64_t t0 = now_us();
    int st;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p)
            break;
        if (now_us() - t0 > limit_s * 1e6) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return "hang";
        }
        usleep(2000);
    }
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0)
            return "";
        if (c == 3)
            return std::string("fail:") + slot->sig;
        if (c == 7)
            return "divergence";
        return "crash"; // ASAN exits with its own code
    }
    return "crash";
}

static std::string describe(const Scenario &s, int cfg) { return s.describe ? s.describe(cfg) : std::to_string(cfg); }

int main(int argc, char **argv, const char *engine) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0 && i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0)
            a[k.substr(2)] = argv[++i];
        else if (k.rfind("--", 0) == 0)
            a[k.substr(2)] = "1";
    }
    arena_init();
    POISON(ARENA_BASE, ARENA_SIZE);
    g_property = a.count("prop") ? a["prop"] : "ALL";
    Tier tier = a["tier"] == "thorough" ? Tier::thorough : Tier::quick;
    double budget = a.count("time") ? atof(a["time"].c_str()) : 60;
    int nw = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8;
    nw = std::min(nw, MAX_WORKERS - 2);
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slot = &S->slots[MAX_WORKERS - 1];
    known_hits = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    auto &sc = scenarios();
    std::sort(sc.begin(), sc.end(), [](auto &x, auto &y) { return x.name < y.name; });

    int deeper = a.count("deeper") ? atoi(a["deeper"].c_str()) : 0; // the quick check of a property with few executions
    for (auto &s : sc) {
        s.bound_quick = std::min(s.bound_quick + deeper, s.bound_thorough);
        if (every_property)
            s.props.insert(every_property);
        s.bound_quick = std::max(0, s.bound_quick - bound_less);
        s.bound_thorough = std::max(0, s.bound_thorough - bound_less);
    }
    if (a.count("list")) {
        for (auto &s : sc) {
            printf("%s configs=%d:", s.name.c_str(), s.configs(tier));
            for (auto &p : s.props)
                printf(" %s", p.c_str());
            printf("\n");
        }
        return 0;
    }
    if (a.count("known")) {
        FILE *f = fopen(a["known"].c_str(), "r");
        char line[2048];
        while (f && fgets(line, sizeof line, f)) {
            // finding|prop|scenario|signature|text
            std::string l = line;
            while (!l.empty() && (l.back() == '\n' || l.back() == '\r'))
                l.pop_back();
            if (l.rfind("finding|", 0) != 0)
                continue;
            std::vector<std::string> p;
            std::stringstream ss(l);
            std::string t;
            while (std::getline(ss, t, '|'))
                p.push_back(t);
            if (p.size() >= 5)
                known.push_back({p[1], p[2], p[3], p[4]});
        }
        if (f)
            fclose(f);
    }

    if (a.count("replay")) { // file: scenario\ncfg\nchoices...
        FILE *f = fopen(a["replay"].c_str(), "r");
        if (!f) {
            perror("replay");
            return 2;
        }
        char eng[64], prop[64], name[256];
        int cfg, n;
        if (fscanf(f, "engine %63s property %63s scenario %255s config %d choices %d", eng, prop, name, &cfg, &n) != 5)
            return 2;
        std::vector<Rec> c(n);
        for (auto &r : c) {
            int x, y, z;
            if (fscanf(f, "%d/%d/%d", &x, &y, &z) != 3)
                return 2;
            r.taken = x, r.n = y, r.kind = z;
        }
        fclose(f);
        if (!a.count("prop"))
            g_property = prop;
        for (size_t i = 0; i < sc.size(); ++i)
            if (sc[i].name == name) {
                printf("scenario %s, config %d: %s\n", name, cfg, describe(sc[i], cfg).c_str());
                auto r = replay_child(i, cfg, c, true, 60);
                printf("replay result: %s\n", r.empty() ? "no violation" : r.c_str());
                return r.empty() ? 0 : 1;
            }
        return 2;
    }
    if (a.count("once")) { // run a single default execution verbosely: --once scenario --cfg N
        for (size_t i = 0; i < sc.size(); ++i)
            if (sc[i].name == a["once"]) {
                int cfg = a.count("cfg") ? atoi(a["cfg"].c_str()) : 0;
                printf("scenario %s, config %d: %s\n", sc[i].name.c_str(), cfg, describe(sc[i], cfg).c_str());
                auto r = replay_child(i, cfg, {}, true, 60);
                printf("result: %s\n", r.empty() ? "ok" : r.c_str());
                return r.empty() ? 0 : 1;
            }
        return 2;
    }

    // --- build the job list: bound by bound, so the first counterexample is the shortest ----------
    int maxb = 0;
    std::string only = a.count("scenario") ? a["scenario"] : "";
    int boundarg = a.count("bound") ? atoi(a["bound"].c_str()) : -1;
    std::vector<int> sel;
    for (size_t i = 0; i < sc.size(); ++i) {
        if (g_property != "ALL" && !sc[i].props.count(g_property))
            continue;
        if (!only.empty() && sc[i].name.find(only) == std::string::npos)
            continue;
        sel.push_back(i);
        int b = boundarg >= 0 ? boundarg : tier == Tier::quick ? sc[i].bound_quick : sc[i].bound_thorough;
        maxb = std::max(maxb, b);
    }
    if (sel.empty()) {
        fprintf(stderr, "no scenario for %s in engine %s\n", g_property.c_str(), engine);
        return 2;
    }
    int cfgarg = a.count("cfg") ? atoi(a["cfg"].c_str()) : -1;
    for (int b = 0; b <= maxb; ++b) {
        for (int i : sel) {
            int sb = boundarg >= 0 ? boundarg : tier == Tier::quick ? sc[i].bound_quick : sc[i].bound_thorough;
            if (b > sb)
                continue;
            int nc = sc[i].configs(tier);
            int sh = b == 0 ? 1 : sc[i].shards;
            for (int c = 0; c < nc; ++c) {
                if (cfgarg >= 0 && c != cfgarg)
                    continue;
                for (int k = 0; k < sh; ++k)
                    jobs.push_back({i, c, b, k, sh});
            }
        }
    }
    job_done = (std::atomic<uint8_t> *)mmap(nullptr, jobs.size() + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    // --- warm-up: static initialisation of the library must not land in the arena ----
    // --- determinism self-check: the same execution twice gives the same observations ----
    int64_t t0 = now_us();
    std::vector<pid_t> pid(nw, 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            slot = &S->slots[w];
            int fd = open("/dev/null", O_WRONLY);
            if (!a.count("loud")) {
                dup2(fd, 1);
                dup2(fd, 2);
            }
            while (!S->stop) {
                int j = S->retry.exchange(0) - 1;
                if (j < 0)
                    j = S->next_job.fetch_add(1);
                if (j >= (int)jobs.size())
                    _exit(0);
                int r = work_job(j);
                if (r == 4)
                    _exit(0);
                if (r)
                    _exit(r);
                job_done[j] = 1;
            }
            _exit(0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < nw; ++w)
        spawn(w);
    int live = nw;
    bool timed_out = false;
    int viol = 0;
    struct V {
        int job;
        std::vector<Rec> cho;
        std::string how, sig, msg;
    };
    std::vector<V> vs;
    int errors = 0, repeats = 0;
    std::vector<std::pair<int64_t, int64_t>> seen(nw);
    auto cpu_us = [](pid_t p) -> int64_t {
        clockid_t c;
        timespec ts;
        if (clock_getcpuclockid(p, &c) || syscall(228 /*clock_gettime*/, c, &ts))
            return 0;
        return ts.tv_sec * 1000000ll + ts.tv_nsec / 1000;
    };
    while (live > 0) {
        usleep(3000);
        if (!timed_out && now_us() - t0 > budget * 1e6) {
            timed_out = true;
            S->stop = 1;
        }
        for (int w = 0; w < nw; ++w) {
            if (!pid[w])
                continue;
            auto &sl = S->slots[w];
            int64_t st = sl.exec_start_us;
            bool hang = false;
            // 15 seconds of CPU (the sandbox may be paused) or two minutes of real time
            if (st != seen[w].first)
                seen[w] = {st, cpu_us(pid[w])};
            if (st && now_us() - st > 15 * 1000000ll && (cpu_us(pid[w]) - seen[w].second > 15 * 1000000ll || now_us() - st > 120 * 1000000ll)) {
                kill(pid[w], SIGKILL);
                hang = true;
            }
            int status;
            pid_t r = waitpid(pid[w], &status, hang ? 0 : WNOHANG);
            if (r != pid[w])
                continue;
            pid[w] = 0;
            --live;
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0)
                continue;
            V v;
            v.job = sl.job;
            v.cho.assign(sl.cho, sl.cho + sl.ncho);
            int code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
            if (sl.has_fail) { // includes: failure recorded, then crashed
                v.how = std::string("fail:") + sl.sig;
                v.sig = sl.sig;
                v.msg = sl.msg;
            } else if (hang) {
                v.how = "hang";
                v.sig = "hang";
                v.msg = "execution did not terminate within 15 s";
            } else if (code == 7) {
                v.how = "divergence";
            } else if (code == 2) {
                v.how = "error";
            } else {
                v.how = "crash";
                v.sig = "crash";
                v.msg = "execution crashed (assertion, memory error or std::terminate)";
            }
            if (v.how == "divergence" || v.how == "error") {
                fprintf(stderr, "%s in scenario %s config %d (bound %d)\n", v.how.c_str(), sc[jobs[v.job].scn].name.c_str(), jobs[v.job].cfg,
                        jobs[v.job].bound);
                ++errors;
            } else {
                // replay before report (a known finding that crashes is matched by its signature "crash"/"hang")
                auto &jb = jobs[v.job];
                bool is_known = false;
                for (size_t i = 0; i < known.size(); ++i)
                    if (known[i].prop == g_property && known[i].scen == sc[jb.scn].name && known[i].sig == v.sig) {
                        ++known_hits[i];
                        is_known = true;
                    }
                if (viol) {
                    // already have a confirmed one
                } else if (is_known) {
                    job_done[v.job] = 1;
                } else {
                    std::string r1 = replay_child(jb.scn, jb.cfg, v.cho, false, 60), r2;
                    if (v.how != "hang")
                        r2 = replay_child(jb.scn, jb.cfg, v.cho, false, 60);
                    else
                        r2 = r1;
                    bool ok = !r1.empty() && r1 != "divergence" && r1 == r2;
                    if (!ok) {
                        fprintf(stderr, "UNCONFIRMED %s in %s config %d: replays gave '%s' '%s' (%s)\n", v.how.c_str(), sc[jb.scn].name.c_str(),
                                jb.cfg, r1.c_str(), r2.c_str(), v.msg.c_str());
                        if (v.how == "hang" && r1.empty() && ++repeats < 5)
                            S->retry = v.job + 1; // the machine was busy
                        else
                            ++errors;
                    } else {
                        vs.push_back(v);
                        ++viol;
                        S->stop = 1;
                    }
                }
            }
            if (!S->stop && (S->retry || S->next_job < (int)jobs.size()) && errors < 20) {
                spawn(w);
                ++live;
            }
        }
    }
    double wall = (now_us() - t0) / 1e6;
    uint64_t done = 0;
    int bound_done = maxb;
    for (size_t i = 0; i < jobs.size(); ++i) {
        if (job_done[i])
            ++done;
        else
            bound_done = std::min(bound_done, jobs[i].bound - 1);
    }
    bool exhaustive = done == jobs.size();
    std::string evd = a.count("out") ? a["out"] : "";
    std::string scnlist;
    for (int i : sel) {
        if (!scnlist.empty())
            scnlist += ", ";
        scnlist += sc[i].name + "(" + std::to_string(sc[i].configs(tier)) + " cfg)";
    }
    // determinism: replay the default execution of the first configuration of each scenario twice
    if (!evd.empty()) {
        FILE *f = fopen(evd.c_str(), "w");
        fprintf(f,
                "{\"engine\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"choice_points\":%llu,\"states\":%llu,\"outcomes\":%llu,"
                "\"jobs\":%zu,\"jobs_done\":%llu,\"bound\":%d,\"bound_completed\":%d,\"exhaustive\":%s,\"wall_s\":%.2f,\"violations\":%d,"
                "\"errors\":%d,\"scenarios\":\"%s\"}\n",
                engine, (unsigned long long)S->execs.load(), (unsigned long long)S->transitions.load(), (unsigned long long)S->choice_points.load(),
                (unsigned long long)S->states.load(), (unsigned long long)S->outcomes.load(), jobs.size(), (unsigned long long)done, maxb, bound_done,
                exhaustive ? "true" : "false", wall, viol, errors, esc(scnlist).c_str());
        fclose(f);
    }
    printf("[%s/%s] executions=%llu transitions=%llu states=%llu outcomes=%llu jobs=%llu/%zu bound=%d completed=%d wall=%.1fs%s\n", engine,
           g_property.c_str(), (unsigned long long)S->execs.load(), (unsigned long long)S->transitions.load(), (unsigned long long)S->states.load(),
           (unsigned long long)S->outcomes.load(), (unsigned long long)done, jobs.size(), maxb, bound_done, wall, timed_out ? " TIME-CAP" : "");
    for (size_t i = 0; i < known.size(); ++i)
        if (known[i].prop == g_property && known_hits[i])
            printf("KNOWN-FINDING: property=%s %s\n", g_property.c_str(), known[i].text.c_str());
    // samples for the evidence file: observation logs of the default schedules of some configurations
    if (!evd.empty()) {
        int shown = 0;
        for (int i : sel) {
            if (++shown > 6)
                break;
            int cfg = sc[i].configs(tier) * 2 / 3;
            if (cfgarg >= 0)
                cfg = cfgarg;
            int fd[2];
            if (pipe(fd))
                break;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                dup2(fd[1], 1);
                close(fd[0]);
                close(fd[1]);
                replay_child(i, cfg, {}, true, 20);
                fflush(stdout);
                _exit(0);
            }
            close(fd[1]);
            std::string out, line;
            FILE *f = fdopen(fd[0], "r");
            char buf[512];
            while (fgets(buf, sizeof buf, f)) {
                line = buf;
                if (line.find("[choice") != std::string::npos)
                    continue;
                while (!line.empty() && line.back() == '\n')
                    line.pop_back();
                if (out.size() < 700)
                    out += (out.empty() ? "" : "; ") + line;
            }
            fclose(f);
            waitpid(p, nullptr, 0);
            printf("SAMPLE %s cfg %d (%s): %s\n", sc[i].name.c_str(), cfg, describe(sc[i], cfg).c_str(), out.c_str());
        }
    }
    std::string rdir = a.count("replaydir") ? a["replaydir"] : "/tmp";
    int k = 0;
    for (auto &v : vs) {
        auto &jb = jobs[v.job];
        std::string path = rdir + "/" + g_property + "-" + engine + "-" + std::to_string(k++) + ".replay";
        FILE *f = fopen(path.c_str(), "w");
        if (f) {
            fprintf(f, "engine %s property %s scenario %s config %d choices %zu\n", engine, g_property.c_str(), sc[jb.scn].name.c_str(), jb.cfg,
                    v.cho.size());
            for (auto &r : v.cho)
                fprintf(f, "%d/%d/%d ", r.taken, r.n, r.kind);
            fprintf(f, "\n# %s: %s\n# configuration: %s\n# replay: /verif/check.py --replay %s\n", v.sig.c_str(), v.msg.c_str(),
                    describe(sc[jb.scn], jb.cfg).c_str(), path.c_str());
            fclose(f);
        }
        printf("  scenario=%s config=%d (%s) deviations<=%d signature=%s\n  %s\n", sc[jb.scn].name.c_str(), jb.cfg, describe(sc[jb.scn], jb.cfg).c_str(),
               jb.bound, v.sig.c_str(), v.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", g_property.c_str(), path.c_str());
    }
    fflush(stdout);
    if (viol)
        return 1;
    return errors ? 2 : 0;
}

} // namespace mc
