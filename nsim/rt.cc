// Simulator run time: scheduler, clock, memory checker, transport and disk faults for the native engine.
//
// The engine is compiled with -fsanitize=thread but linked against the hooks below instead of the sanitizer.
// Exactly one registered thread runs at a time; every load, store, atomic and synchronisation call is a place
// where another thread or a message delivery may be chosen.
#include <absl/container/internal/raw_hash_set.h>
#include <google/protobuf/message_lite.h>
#include <grpcpp/grpcpp.h>

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <algorithm>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)

extern "C" char __executable_start __attribute__((weak));
extern "C" const char __ehdr_start[] __attribute__((visibility("hidden")));
extern "C" const char _end[] __attribute__((visibility("hidden")));

extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);

// ------------------------------------------------------------------ heap
namespace
{
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SIZE = 64ull << 30;
constexpr uintptr_t SHADOW = 0x180000000000ull;
constexpr uintptr_t OWNER = 0x190000000000ull; // one byte per 8 bytes of the arena: the thread that uses them
constexpr uint8_t FREED = 0xFD;
constexpr size_t REDZONE = 32;

struct Header
{
    size_t size;
    size_t magic;
};
constexpr size_t MAGIC = 0x6e73696d68656170ull;

// Memory of simulated threads and of everything else (the simulator, other libraries) come from separate ranges, so that
// addresses seen by the code under test do not depend on how a run is recorded or replayed.
constexpr uintptr_t SIM_ARENA = ARENA + (16ull << 30);
std::atomic<uintptr_t> g_brk{0}, g_own_brk{0};
std::atomic<int> g_arena_state{0};
size_t g_limit = 3ull << 30;
uintptr_t g_start = 0;

void arena_init()
{
    int expected = 0;
    if (g_arena_state.compare_exchange_strong(expected, 1))
    {
        void *a = mmap(reinterpret_cast<void *>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *s = mmap(reinterpret_cast<void *>(SHADOW), ARENA_SIZE / 16, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *o = mmap(reinterpret_cast<void *>(OWNER), ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (a != reinterpret_cast<void *>(ARENA) || s != reinterpret_cast<void *>(SHADOW) || o != reinterpret_cast<void *>(OWNER))
        {
            static const char msg[] = "nsim: cannot reserve the simulated heap\n";
            (void)!write(2, msg, sizeof msg - 1);
            _exit(97);
        }
        g_own_brk = ARENA + 4096;
        g_brk = SIM_ARENA;
        g_arena_state = 2;
    }
    while (g_arena_state != 2)
        ;
}

inline bool in_arena(const void *p)
{
    return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SIZE;
}
inline uint8_t *shadow(uintptr_t a)
{
    return reinterpret_cast<uint8_t *>(SHADOW + ((a - ARENA) >> 4));
}

void bad_memory(const char *what, const void *p, size_t n, bool write, void *pc);
bool in_simulation();

void *heap_alloc(size_t size, size_t align)
{
    if (__builtin_expect(g_arena_state.load(std::memory_order_relaxed) != 2, 0))
        arena_init();
    if (align < 16)
        align = 16;
    if (size > (8ull << 30))
        return nullptr;
    const size_t body = (size + 15) & ~size_t(15);
    const size_t need = body + sizeof(Header) + REDZONE + align;
    const bool sim = in_simulation();
    uintptr_t base = (sim ? g_brk : g_own_brk).fetch_add((need + 15) & ~size_t(15));
    if (base - ARENA + need > ARENA_SIZE || (!sim && base + need > SIM_ARENA) || (sim && g_start && base - g_start > g_limit))
        return nullptr;
    uintptr_t user = (base + sizeof(Header) + align - 1) & ~(uintptr_t(align) - 1);
    auto *h = reinterpret_cast<Header *>(user) - 1;
    h->size = size;
    h->magic = MAGIC;
    uint8_t *s = shadow(user);
    __real_memset(s, 16, body >> 4);
    if (size & 15)
        s[body / 16 - 1] = size & 15;
    if (size <= (1 << 16))
        __real_memset(reinterpret_cast<void *>(user), 0xBE, size);
    return reinterpret_cast<void *>(user);
}

void heap_free(void *p, void *pc)
{
    if (!p)
        return;
    auto *h = reinterpret_cast<Header *>(p) - 1;
    if (h->magic != MAGIC)
        bad_memory("invalid-free", p, 0, true, pc);
    uint8_t *s = shadow(reinterpret_cast<uintptr_t>(p));
    if (h->size && *s == FREED)
        bad_memory("double-free", p, 0, true, pc);
    __real_memset(s, FREED, (h->size + 15) >> 4);
    if (h->size == 0)
        *s = FREED;
    else if (h->size <= (1 << 16))
        __real_memset(p, 0xDD, h->size);
}
} // namespace

extern "C"
{
    void *__real_malloc(size_t);
    void __real_free(void *);
    void *__real_calloc(size_t, size_t);
    void *__real_realloc(void *, size_t);
    void *__wrap_malloc(size_t n) { return heap_alloc(n, 16); }
    void *__wrap_calloc(size_t n, size_t m)
    {
        void *p = heap_alloc(n * m, 16);
        if (p)
            __real_memset(p, 0, n * m);
        return p;
    }
    void __wrap_free(void *p)
    {
        if (in_arena(p))
            heap_free(p, __builtin_return_address(0));
        else
            __real_free(p);
    }
    void *__wrap_realloc(void *p, size_t n)
    {
        if (!p)
            return heap_alloc(n, 16);
        if (!in_arena(p))
            return __real_realloc(p, n);
        void *q = heap_alloc(n, 16);
        if (q)
        {
            size_t old = (reinterpret_cast<Header *>(p) - 1)->size;
            __real_memcpy(q, p, old < n ? old : n);
            heap_free(p, __builtin_return_address(0));
        }
        return q;
    }
    int __wrap_posix_memalign(void **out, size_t align, size_t n)
    {
        *out = heap_alloc(n, align);
        return *out ? 0 : ENOMEM;
    }
    void *__wrap_aligned_alloc(size_t align, size_t n) { return heap_alloc(n, align); }
}

static void *op_new(size_t n, size_t align = 16)
{
    void *p = heap_alloc(n, align);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n); }
void *operator new[](size_t n) { return op_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, size_t(a)); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------ state
namespace
{
struct Frame
{
    uintptr_t lo, hi;
    void *pc;
};

enum State { READY, BLOCKED, DONE };

struct Th
{
    int tid = 0;
    int state = READY;
    std::atomic<int> go{0};
    const void *wait = nullptr;
    const char *why = "";
    int64_t deadline = -1;
    bool timed_out = false;
    bool in_rt = false;
    uintptr_t lo = 0, hi = 0;
    Frame *frames = nullptr;
    size_t depth = 0, cap = 0;
    pthread_t real{};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    bool external = false;
};

struct Rng
{
    uint64_t s = 1;
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    size_t below(size_t n) { return n ? next() % n : 0; }
};

struct Msg
{
    int id = 0;
    int64_t due = 0;
    int rank = 0;
    std::function<void()> fn;
};

struct Kind
{
    std::string name;
    double rate = 0;
    uint64_t fired = 0;
};
struct FaultRec
{
    std::string kind;
    double value = 0;
};
struct SchedRec
{
    int id = 0;
};
struct MutexRec
{
    Th *owner = nullptr;
    int count = 0;
};
struct RwRec
{
    Th *writer = nullptr;
    int readers = 0;
};
struct OnceRec
{
    int state = 0;
};

struct Sim
{
    bool on = false;
    bool replay = false;
    bool faults_on = false;
    uint64_t seed = 0;
    uint64_t steps = 0;
    uint64_t next = 0;        // next step at which event() must look
    uint64_t next_preempt = UINT64_MAX;
    uint64_t max_steps = 0;
    uint64_t last_block = 0;  // step at which the running thread was switched in
    uint64_t fair = 400000;
    double p_mem = 0, p_sync = 0, p_block = 0;
    double p_hot = 0, p_stall = 0; // preemption at data several threads use; share of those that stall
    bool forced = false;
    int nprocs = 2;
    int64_t now = 0;
    uint64_t switches = 0, preempts = 0, ihash = 0, calls = 0, delivered = 0;
    uint64_t fops = 0;
    int fault_budget = 0;
    Rng rng, frng;
    std::vector<Th *> threads;
    std::deque<Msg *> msgs;
    int msg_seq = 0;
    std::map<uint64_t, SchedRec> sched, rsched;
    std::map<uint64_t, FaultRec> faults, rfaults;
    std::vector<Kind *> kinds;
    std::unordered_map<const void *, MutexRec *> mutexes;
    std::unordered_map<const void *, RwRec *> rws;
    std::unordered_map<const void *, OnceRec *> onces;
    std::deque<std::string> logs;
    std::string data_dir;
    std::map<std::string, std::string> hdfs; // address of a folder -> folder
    int shuffle_dirs = 0;
};

Sim *S = nullptr;
Th *cur = nullptr;
typedef void (*FatalFn)(const char *kind, const char *message);
FatalFn g_fatal = nullptr;
bool g_dead = false;
thread_local Th *me __attribute__((tls_model("initial-exec"))) = nullptr;

constexpr int64_t EPOCH = 1600000000ll * 1000000000ll;
constexpr int MSG_BASE = 1000;

struct Rt
{
    Th *t;
    bool was;
    Rt() : t(me), was(t ? t->in_rt : false)
    {
        if (t)
            t->in_rt = true;
    }
    ~Rt()
    {
        if (t)
            t->in_rt = was;
    }
};

long raw_futex(std::atomic<int> *a, int op, int v)
{
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

void wait_token(Th *t)
{
    while (t->go.load(std::memory_order_acquire) == 0)
        raw_futex(&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    t->go.store(0, std::memory_order_relaxed);
}

void give_token(Th *t)
{
    cur = t;
    S->switches++;
    t->go.store(1, std::memory_order_release);
    raw_futex(&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

void mix(uint64_t v)
{
    S->ihash = (S->ihash ^ v) * 0x100000001b3ull;
    S->ihash ^= S->ihash >> 29;
}

std::string where()
{
    std::string out;
    char b[64];
    if (me && me->frames)
        for (size_t i = 0; i < me->depth && i < 14; ++i)
        {
            const auto &f = me->frames[me->depth - 1 - i];
            snprintf(b, sizeof b, " %lx", (unsigned long)(reinterpret_cast<uintptr_t>(f.pc) - reinterpret_cast<uintptr_t>(__ehdr_start)));
            out += b;
        }
    return out;
}

[[noreturn]] void die(const char *kind, const std::string &message)
{
    if (me)
        me->in_rt = true;
    if (g_dead)
        for (;;)
            pause();
    g_dead = true;
    if (S)
        S->on = false;
    if (g_fatal)
        g_fatal(kind, message.c_str());
    fprintf(stderr, "nsim: %s: %s\n", kind, message.c_str());
    _exit(98);
}

void bad_memory(const char *what, const void *p, size_t n, bool write, void *pc)
{
    char b[256];
    snprintf(b, sizeof b, "%s: %s of %zu bytes in thread %d, stack:", what, write ? "write" : "read", n, me ? me->tid : -1);
    char c[40];
    snprintf(c, sizeof c, " %lx", (unsigned long)(reinterpret_cast<uintptr_t>(pc) - reinterpret_cast<uintptr_t>(__ehdr_start)));
    (void)p;
    if (!S || !S->on)
        return;
    Rt guard;
    die("memory", std::string(b) + c + where());
}

inline void check(const void *p, size_t n, bool write, void *pc, Th *t)
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (LIKELY(a - ARENA < ARENA_SIZE))
    {
        const uint8_t s = *shadow(a);
        if (LIKELY(s == 16 && (a & 15) + n <= 16))
            return;
        for (uintptr_t g = a & ~uintptr_t(15); g < a + n; g += 16)
        {
            const uint8_t v = *shadow(g);
            if (v == 16)
                continue;
            if (v == FREED)
                bad_memory("heap-use-after-free", p, n, write, pc);
            const uintptr_t end = a + n < g + 16 ? a + n : g + 16;
            if (end - g > v)
                bad_memory("heap-out-of-bounds", p, n, write, pc);
        }
        return;
    }
    if (LIKELY(a >= t->lo && a < t->hi))
        return;
    if (a < 4096)
        bad_memory("null-dereference", p, n, write, pc);
    for (Th *o : S->threads)
    {
        if (a < o->lo || a >= o->hi || o == t)
            continue;
        if (o->state == DONE)
            bad_memory("use-of-finished-thread-stack", p, n, write, pc);
        // Everything below the innermost instrumented frame belongs to calls that returned.
        if (o->depth == 0 || a < o->frames[o->depth - 1].lo)
            bad_memory("use-of-returned-stack-frame", p, n, write, pc);
        return;
    }
}

void plan_next()
{
    uint64_t n = S->max_steps;
    if (S->replay)
    {
        auto it = S->rsched.lower_bound(S->steps + 1);
        if (it != S->rsched.end() && it->first < n)
            n = it->first;
    }
    else if (S->next_preempt < n)
        n = S->next_preempt;
    if (S->last_block + S->fair < n)
        n = S->last_block + S->fair;
    if (n <= S->steps)
        n = S->steps + 1;
    S->next = n;
}

void draw_preempt()
{
    if (S->replay || S->p_mem <= 0)
    {
        S->next_preempt = UINT64_MAX;
        return;
    }
    const double u = S->rng.unit();
    const double gap = __builtin_log(1 - u) / __builtin_log(1 - S->p_mem);
    S->next_preempt = S->steps + 1 + (gap > 1e9 ? 1000000000ull : uint64_t(gap));
}

void deliver(Msg *m)
{
    for (auto it = S->msgs.begin(); it != S->msgs.end(); ++it)
        if (*it == m)
        {
            S->msgs.erase(it);
            break;
        }
    if (m->due > S->now)
        S->now = m->due;
    S->now += 50000;
    S->delivered++;
    mix(0x3333 + m->rank);
    m->fn();
}

Msg *find_msg(int id)
{
    for (Msg *m : S->msgs)
        if (m->id == id)
            return m;
    return nullptr;
}

Th *find_thread(int id)
{
    return id >= 0 && id < int(S->threads.size()) ? S->threads[id] : nullptr;
}

struct Cand
{
    int id;
};

void candidates(std::vector<Cand> &out, bool others)
{
    for (Th *t : S->threads)
        if (t->state == READY && !(others && t == me))
            out.push_back({t->tid});
    for (Msg *m : S->msgs)
        if (m->due <= S->now)
            out.push_back({MSG_BASE + m->id});
}

void switch_to(Th *t, uint64_t site)
{
    mix((uint64_t(me->tid) << 40) ^ (uint64_t(t->tid) << 20) ^ site);
    S->last_block = S->steps;
    give_token(t);
    wait_token(me);
    S->last_block = S->steps;
}

bool block(const void *obj, int64_t deadline, const char *why);

constexpr int64_t STALLS[] = {1000000, 50000000, 2000000000};

// A preemption of the running thread in favour of id; -2, -3 and -4 stop the thread for a while.
void preempt(int id, uint64_t site)
{
    if (id <= -2 && id >= -4)
    {
        S->sched[S->steps] = {id};
        S->preempts++;
        mix((uint64_t(me->tid) << 40) ^ (uint64_t(-id) << 8) ^ site);
        block(nullptr, S->now + STALLS[-2 - id], "stall");
        return;
    }
    if (id >= MSG_BASE)
    {
        if (Msg *m = find_msg(id - MSG_BASE))
        {
            S->sched[S->steps] = {id};
            S->preempts++;
            deliver(m);
        }
        return;
    }
    Th *t = find_thread(id);
    if (t && t != me && t->state == READY)
    {
        S->sched[S->steps] = {id};
        S->preempts++;
        switch_to(t, site);
    }
}

void event(uint64_t site, bool sync)
{
    Rt guard;
    if (S->steps >= S->max_steps)
        die("steplimit", "step limit reached in thread " + std::to_string(me->tid) + ", stack:" + where());
    if (S->replay)
    {
        auto it = S->rsched.find(S->steps);
        if (it != S->rsched.end())
            preempt(it->second.id, site);
    }
    else if (sync || S->forced || S->steps >= S->next_preempt)
    {
        const bool hot = S->forced;
        S->forced = false;
        const bool mem = hot || S->steps >= S->next_preempt;
        const bool look = mem || S->rng.unit() < S->p_sync;
        if (mem && S->steps >= S->next_preempt)
            draw_preempt();
        if (hot && S->rng.unit() < S->p_stall)
            preempt(-2 - int(S->rng.below(3)), site);
        else if (look)
        {
            std::vector<Cand> c;
            candidates(c, true);
            if (!c.empty())
                preempt(c[S->rng.below(c.size())].id, site);
        }
    }
    if (S->steps - S->last_block >= S->fair)
    {
        // Long running thread: let the others move so that spinning code makes progress.
        S->last_block = S->steps;
        Th *best = nullptr;
        for (size_t i = 1; i <= S->threads.size() && !best; ++i)
        {
            Th *t = S->threads[(me->tid + i) % S->threads.size()];
            if (t != me && t->state == READY)
                best = t;
        }
        if (best)
            switch_to(best, site);
        else if (!S->msgs.empty())
            deliver(S->msgs.front());
        else
            for (Th *t : S->threads)
                if (t->state == BLOCKED && t->deadline >= 0)
                {
                    if (t->deadline > S->now)
                        S->now = t->deadline;
                    t->state = READY;
                    t->timed_out = true;
                    break;
                }
    }
    plan_next();
}

inline bool active()
{
    return me && S && S->on && !me->in_rt;
}

bool in_simulation()
{
    return active();
}

// Whether other threads use the same data: memory of the caller, stacks of other threads and heap
// cells that were last used by another thread.
inline bool hot(const void *p, bool w, const Th *t)
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a - ARENA < ARENA_SIZE)
    {
        uint8_t &o = *reinterpret_cast<uint8_t *>(OWNER + ((a - ARENA) >> 3));
        const uint8_t own = uint8_t(1 + t->tid % 127);
        if (LIKELY(o == own))
            return false;
        const bool shared = o != 0;
        o = shared ? 255 : own;
        return shared;
    }
    if (a >= t->lo && a < t->hi)
        return false;
    // constants of the library are read all the time
    return w || a < reinterpret_cast<uintptr_t>(__ehdr_start) || a >= reinterpret_cast<uintptr_t>(_end);
}

inline void mem(const void *p, size_t n, bool w, void *pc)
{
    Th *t = me;
    if (!t || t->in_rt || !S->on)
        return;
    check(p, n, w, pc, t);
    if (S->p_hot > 0 && !S->replay && hot(p, w, t) && S->rng.unit() < S->p_hot)
    {
        S->forced = true;
        S->next = 0;
    }
    if (__builtin_expect(++S->steps >= S->next, 0))
        event(reinterpret_cast<uintptr_t>(pc) - reinterpret_cast<uintptr_t>(__ehdr_start), false);
}

void point(uint64_t site)
{
    if (!active())
        return;
    ++S->steps;
    event(site, true);
}

// Chooses and starts the next thread while the calling thread cannot run.
void hand_over(bool finished)
{
    for (;;)
    {
        ++S->steps;
        if (S->steps >= S->max_steps)
            die("steplimit", "step limit reached while switching");
        std::vector<Cand> c;
        candidates(c, finished);
        if (c.empty())
        {
            int64_t t = INT64_MAX;
            for (Msg *m : S->msgs)
                if (m->due < t)
                    t = m->due;
            for (Th *o : S->threads)
                if (o->state == BLOCKED && o->deadline >= 0 && o->deadline < t)
                    t = o->deadline;
            if (t == INT64_MAX)
            {
                std::string s = "no thread can continue;";
                for (Th *o : S->threads)
                    if (o->state == BLOCKED)
                        s += " thread " + std::to_string(o->tid) + " waits in " + o->why + ";";
                die("deadlock", s);
            }
            if (t > S->now)
                S->now = t;
            for (Th *o : S->threads)
                if (o->state == BLOCKED && o->deadline >= 0 && o->deadline <= S->now)
                {
                    o->state = READY;
                    o->timed_out = true;
                }
            continue;
        }
        int id = c[0].id;
        if (S->replay)
        {
            auto it = S->rsched.find(S->steps);
            if (it != S->rsched.end())
                for (auto &x : c)
                    if (x.id == it->second.id)
                        id = x.id;
        }
        else if (c.size() > 1 && S->rng.unit() < S->p_block)
            id = c[S->rng.below(c.size())].id;
        if (id != c[0].id)
            S->sched[S->steps] = {id};
        if (id >= MSG_BASE)
        {
            deliver(find_msg(id - MSG_BASE));
            continue;
        }
        Th *t = find_thread(id);
        mix((uint64_t(me->tid) << 40) ^ (uint64_t(t->tid) << 20) ^ 0x77);
        S->last_block = S->steps;
        if (t == me)
        {
            plan_next();
            return;
        }
        give_token(t);
        if (!finished)
        {
            wait_token(me);
            S->last_block = S->steps;
            plan_next();
        }
        return;
    }
}

// Blocks the running thread until wake(obj) or the deadline; true when woken.
bool block(const void *obj, int64_t deadline, const char *why)
{
    Rt guard;
    me->state = BLOCKED;
    me->wait = obj;
    me->why = why;
    me->deadline = deadline;
    me->timed_out = false;
    hand_over(false);
    me->deadline = -1;
    me->wait = nullptr;
    return !me->timed_out;
}

int wake(const void *obj, int n)
{
    int k = 0;
    for (Th *t : S->threads)
        if (k < n && t->state == BLOCKED && t->wait == obj && !t->timed_out)
        {
            t->state = READY;
            t->wait = nullptr;
            ++k;
        }
    return k;
}

Msg *post(int64_t delay, int rank, std::function<void()> fn)
{
    auto *m = new Msg;
    m->id = S->msg_seq++;
    m->due = S->now + delay;
    m->rank = rank;
    m->fn = std::move(fn);
    S->msgs.push_back(m);
    return m;
}

const Kind *fault(std::initializer_list<const char *> names, double &value)
{
    if (!S->faults_on)
        return nullptr;
    const uint64_t op = S->fops++;
    if (S->replay)
    {
        auto it = S->rfaults.find(op);
        if (it == S->rfaults.end())
            return nullptr;
        for (auto *n : names)
            if (it->second.kind == n)
                for (Kind *k : S->kinds)
                    if (k->name == n)
                    {
                        k->fired++;
                        value = it->second.value;
                        S->faults[op] = it->second;
                        return k;
                    }
        return nullptr;
    }
    for (auto *n : names)
        for (Kind *k : S->kinds)
            if (k->rate > 0 && k->name == n)
            {
                const double u = S->frng.unit(), v = double(S->frng.below(1000000)) / 1e6;
                if (u < k->rate && S->fault_budget > 0)
                {
                    S->fault_budget--;
                    k->fired++;
                    value = v;
                    S->faults[op] = {k->name, v};
                    return k;
                }
            }
    return nullptr;
}

int64_t to_ns(const timespec *t)
{
    return int64_t(t->tv_sec) * 1000000000 + t->tv_nsec;
}

Th *thread_new()
{
    auto *t = new Th;
    t->tid = int(S->threads.size());
    S->threads.push_back(t);
    return t;
}

void stack_of_self(Th *t)
{
    pthread_attr_t attr;
    if (pthread_getattr_np(pthread_self(), &attr) == 0)
    {
        void *base;
        size_t size;
        pthread_attr_getstack(&attr, &base, &size);
        t->lo = reinterpret_cast<uintptr_t>(base);
        t->hi = t->lo + size;
        pthread_attr_destroy(&attr);
        for (Th *o : S->threads)
            if (o != t && o->state == DONE && o->lo < t->hi && t->lo < o->hi)
                o->lo = o->hi = 0;
    }
}

void *trampoline(void *arg)
{
    Th *t = static_cast<Th *>(arg);
    wait_token(t);
    me = t;
    t->in_rt = true;
    stack_of_self(t);
    S->last_block = S->steps;
    plan_next();
    t->in_rt = false;
    void *r = t->fn(t->arg);
    t->in_rt = true;
    t->state = DONE;
    wake(t, INT_MAX);
    hand_over(true);
    me = nullptr;
    return r;
}

void on_signal(int sig, siginfo_t *info, void *)
{
    signal(sig, SIG_DFL);
    if (getenv("NSIM_GDB"))
    {
        char c[200];
        snprintf(c, sizeof c, "gdb -batch -p %d -ex 'thread apply all bt 30' > /dev/shm/gdb.%d 2>&1", getpid(), getpid());
        if (system(c))
            return;
    }
    char b[120];
    snprintf(b, sizeof b, "signal %d (%s)%s, stack:", sig, strsignal(sig), info && info->si_addr && reinterpret_cast<uintptr_t>(info->si_addr) < 4096 ? " near null" : "");
    if (!S || !S->on || !me)
        return;
    die("crash", std::string(b) + where());
}

void on_terminate()
{
    std::string what = "uncaught exception";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception &x)
        {
            what = std::string("uncaught exception: ") + x.what();
        }
        catch (...)
        {
        }
    }
    die("crash", what + ", stack:" + where());
}
} // namespace

// ------------------------------------------------------------------ control interface
EXPORT void nsim_reset_config()
{
    auto *old = S;
    S = new Sim;
    (void)old;
}
EXPORT void nsim_set(const char *key, double v)
{
    const std::string k = key;
    if (k == "p_mem") S->p_mem = v;
    else if (k == "p_hot") S->p_hot = v;
    else if (k == "p_stall") S->p_stall = v;
    else if (k == "p_sync") S->p_sync = v;
    else if (k == "p_block") S->p_block = v;
    else if (k == "max_steps") S->max_steps = uint64_t(v);
    else if (k == "nprocs") S->nprocs = int(v);
    else if (k == "replay") S->replay = v != 0;
    else if (k == "fault_budget") S->fault_budget = int(v);
    else if (k == "faults") S->faults_on = v != 0;
    else if (k == "fair") S->fair = uint64_t(v);
    else if (k == "heap") g_limit = size_t(v);
    else if (k == "shuffle_dirs") S->shuffle_dirs = int(v);
    else
    {
        fprintf(stderr, "nsim: unknown setting %s\n", key);
        _exit(96);
    }
}
EXPORT void nsim_data_dir(const char *d) { S->data_dir = d; }
EXPORT void nsim_hdfs(const char *address, const char *folder) { S->hdfs[address] = folder; }
EXPORT void nsim_kind(const char *name, double rate)
{
    for (Kind *k : S->kinds)
        if (k->name == name)
        {
            k->rate = rate;
            return;
        }
    auto *k = new Kind;
    k->name = name;
    k->rate = rate;
    S->kinds.push_back(k);
}
EXPORT void nsim_replay_sched(uint64_t step, int id) { S->rsched[step] = {id}; }
EXPORT void nsim_replay_fault(uint64_t op, const char *kind, double v) { S->rfaults[op] = {kind, v}; }
EXPORT void nsim_begin(uint64_t seed, FatalFn fn)
{
    S->seed = seed;
    S->rng.s = seed * 2 + 1;
    S->frng.s = seed ^ 0x5555555555555555ull;
    g_fatal = fn;
    std::set_terminate(on_terminate);
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    {
        struct sigaction sa = {};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(sig, &sa, nullptr);
    }
    g_start = g_brk;
    Th *t = thread_new();
    t->external = true;
    stack_of_self(t);
    t->real = pthread_self();
    cur = t;
    me = t;
    draw_preempt();
    plan_next();
    S->on = true;
}
EXPORT void nsim_end()
{
    S->on = false;
    me = nullptr;
}
EXPORT int64_t nsim_now() { return S->now; }
EXPORT int nsim_live_threads()
{
    int n = 0;
    for (Th *t : S->threads)
        n += t->state != DONE;
    return n;
}
// Threads created by Python: new (by a running thread), begin/end (in the thread), join (by a running thread).
EXPORT int nsim_thread_new()
{
    Rt guard;
    Th *t = thread_new();
    t->external = true;
    return t->tid;
}
EXPORT void nsim_thread_begin(int tid)
{
    Th *t = S->threads[tid];
    wait_token(t);
    me = t;
    t->in_rt = true;
    stack_of_self(t);
    t->real = pthread_self();
    S->last_block = S->steps;
    plan_next();
    t->in_rt = false;
}
EXPORT void nsim_thread_end()
{
    Th *t = me;
    t->in_rt = true;
    t->state = DONE;
    wake(t, INT_MAX);
    hand_over(true);
    me = nullptr;
}
EXPORT void nsim_thread_join(int tid)
{
    Th *t = S->threads[tid];
    point(0x10);
    while (t->state != DONE)
        block(t, -1, "join");
}
EXPORT void nsim_point() { point(0x11); }
EXPORT void nsim_sleep(double seconds)
{
    if (active())
        block(&seconds, S->now + int64_t(seconds * 1e9), "sleep");
}

static void jstr(std::string &o, const std::string &s)
{
    o += '"';
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (uint8_t(c) < 32)
            o += ' ';
        else
            o += c;
    }
    o += '"';
}
EXPORT int nsim_fired(const char *name)
{
    for (Kind *k : S->kinds)
        if (k->name == name)
            return int(k->fired);
    return 0;
}

EXPORT size_t nsim_result(char *buf, size_t cap)
{
    Rt guard;
    std::string o = "{\"steps\":" + std::to_string(S->steps) + ",\"switches\":" + std::to_string(S->switches) +
                    ",\"preempts\":" + std::to_string(S->preempts) + ",\"ihash\":" + std::to_string(S->ihash) +
                    ",\"now\":" + std::to_string(S->now) + ",\"calls\":" + std::to_string(S->calls) +
                    ",\"delivered\":" + std::to_string(S->delivered) + ",\"threads\":" + std::to_string(S->threads.size()) +
                    ",\"heap\":" + std::to_string(g_brk - g_start) + ",\"fired\":{";
    bool first = true;
    for (Kind *k : S->kinds)
        if (k->fired)
        {
            o += first ? "" : ",";
            first = false;
            jstr(o, k->name);
            o += ":" + std::to_string(k->fired);
        }
    o += "},\"sched\":{";
    first = true;
    for (auto &x : S->sched)
    {
        o += (first ? "\"" : ",\"") + std::to_string(x.first) + "\":" + std::to_string(x.second.id);
        first = false;
    }
    o += "},\"faults\":{";
    first = true;
    for (auto &x : S->faults)
    {
        char b[40];
        snprintf(b, sizeof b, "%.6f", x.second.value);
        o += (first ? "\"" : ",\"") + std::to_string(x.first) + "\":[";
        jstr(o, x.second.kind);
        o += std::string(",") + b + "]";
        first = false;
    }
    o += "},\"logs\":[";
    first = true;
    for (auto &x : S->logs)
    {
        o += first ? "" : ",";
        first = false;
        jstr(o, x);
    }
    o += "]}";
    if (o.size() + 1 <= cap)
        __real_memcpy(buf, o.c_str(), o.size() + 1);
    return o.size() + 1;
}

namespace nsim
{
int64_t now_ns() { return EPOCH + (S ? S->now : 0); }
void fatal(const char *kind, const char *format, ...)
{
    char b[1024];
    va_list args;
    va_start(args, format);
    vsnprintf(b, sizeof b, format, args);
    va_end(args);
    die(kind, std::string(b) + ", stack:" + where());
}
void log(const char *severity, const char *format, ...)
{
    Rt guard;
    char b[1024];
    va_list args;
    va_start(args, format);
    vsnprintf(b, sizeof b, format, args);
    va_end(args);
    if (S)
    {
        S->logs.push_back(std::string(severity) + ": " + b);
        if (S->logs.size() > 40)
            S->logs.pop_front();
    }
}
} // namespace nsim

// ------------------------------------------------------------------ transport
namespace grpc
{
static const Status g_ok, g_cancelled(StatusCode::CANCELLED, "");
const Status &Status::OK = g_ok;
const Status &Status::CANCELLED = g_cancelled;
} // namespace grpc

namespace nsim
{
struct Event
{
    void *tag;
    bool ok;
};
struct Queue
{
    std::deque<Event> events;
    int pending = 0;
    bool shut = false;
    bool freed = false;
};
struct Chan
{
    std::string key;
    bool secure = false;
    Serv *direct = nullptr;
};
struct Slot
{
    std::string method;
    google::protobuf::MessageLite *request;
    Call **ctx;
    Queue *cq, *notify;
    void *tag;
};
struct Call
{
    int id = 0;
    std::string method, request, reply_bytes, message;
    Chan *chan = nullptr;
    std::string key;
    Serv *direct = nullptr;
    bool secure = false;
    Queue *cq = nullptr;
    google::protobuf::MessageLite *reply = nullptr;
    grpc::Status *status = nullptr;
    void *tag = nullptr;
    bool started = false, finishing = false, done = false, delivered = false, replied = false, wait_ready = false;
    bool lose_reply = false;
    int64_t reply_delay = 0, request_delay = 0;
    int code = 0;
    int64_t deadline = -1;
    Serv *serv = nullptr;
};
struct Serv
{
    std::vector<std::string> keys;
    std::vector<Queue *> cqs;
    std::deque<Slot *> slots;
    std::deque<Call *> waiting;
    std::deque<Call *> active;
    int inflight = 0;
    bool secure = false, up = false, shut = false, down = false;
};
} // namespace nsim

using namespace nsim;
namespace
{
std::map<std::string, Serv *> *g_listen;

std::string key_of(const std::string &address)
{
    const auto p = address.rfind(':');
    return p == std::string::npos ? address : address.substr(p + 1);
}

void push(Queue *q, void *tag, bool ok)
{
    q->pending--;
    q->events.push_back({tag, ok});
    wake(q, 1);
}

void begin_op(Queue *q, const char *what)
{
    if (q->freed)
        fatal("transport", "%s on a destroyed completion queue", what);
    if (q->shut)
        fatal("transport", "%s on a completion queue that was shut down", what);
    q->pending++;
}

bool alive(const void *p)
{
    if (!in_arena(p))
        return true;
    const uint8_t s = *shadow(reinterpret_cast<uintptr_t>(p));
    return s != FREED && s != 0;
}

void try_deliver(Call *c)
{
    if (!c->done || !c->finishing || c->delivered)
        return;
    c->delivered = true;
    if (!alive(c->status) || !alive(c->reply))
        fatal("memory", "reply of %s delivered into freed memory", c->method.c_str());
    if (c->code == 0 && !c->reply->ParseFromString(c->reply_bytes))
    {
        c->code = grpc::StatusCode::INTERNAL;
        c->message = "cannot parse reply";
    }
    *c->status = grpc::Status(static_cast<grpc::StatusCode>(c->code), c->message);
    push(c->cq, c->tag, true);
}

void complete(Call *c, int code, const std::string &message)
{
    if (c->done)
        return;
    c->done = true;
    c->code = code;
    c->message = message;
    if (c->serv)
        for (auto it = c->serv->active.begin(); it != c->serv->active.end(); ++it)
            if (*it == c)
            {
                c->serv->active.erase(it);
                break;
            }
    try_deliver(c);
}

void match(Serv *s, Slot *slot, Call *c)
{
    s->inflight++;
    c->serv = s;
    s->active.push_back(c);
    *slot->ctx = c;
    const bool ok = slot->request->ParseFromString(c->request);
    push(slot->cq, slot->tag, ok);
    if (!ok)
    {
        s->inflight--;
        complete(c, grpc::StatusCode::INTERNAL, "cannot parse request");
    }
    delete slot;
}

Serv *server_of(Call *c)
{
    if (c->direct)
        return c->direct;
    auto it = g_listen ? g_listen->find(c->key) : decltype(g_listen->end()){};
    if (!g_listen || it == g_listen->end())
        return nullptr;
    return it->second;
}

void arrive(Call *c)
{
    if (c->done)
        return;
    Serv *s = server_of(c);
    if (!s || !s->up || s->shut || s->down || s->secure != c->secure)
    {
        if (c->wait_ready)
        {
            post(100000000, 1, [c] { arrive(c); });
            return;
        }
        complete(c, grpc::StatusCode::UNAVAILABLE, "failed to connect to all addresses");
        return;
    }
    std::vector<Slot *> fit;
    for (Slot *x : s->slots)
        if (x->method == c->method)
            fit.push_back(x);
    if (fit.empty())
    {
        c->serv = s;
        s->active.push_back(c);
        s->waiting.push_back(c);
        return;
    }
    uint64_t h = (S->seed + 77) * 0x9E3779B97F4A7C15ull + uint64_t(c->id) * 0xBF58476D1CE4E5B9ull;
    h ^= h >> 31;
    Slot *pick = fit[h % fit.size()];
    for (auto it = s->slots.begin(); it != s->slots.end(); ++it)
        if (*it == pick)
        {
            s->slots.erase(it);
            break;
        }
    match(s, pick, c);
}

void drop_connection(Serv *s, const char *why)
{
    auto all = s->active;
    for (Call *c : all)
        complete(c, grpc::StatusCode::UNAVAILABLE, why);
    auto w = s->waiting;
    s->waiting.clear();
    for (Call *c : w)
        complete(c, grpc::StatusCode::UNAVAILABLE, why);
}
} // namespace

namespace nsim
{
Queue *queue_new()
{
    Rt guard;
    return new Queue;
}
void queue_free(Queue *q)
{
    Rt guard;
    if (!q->events.empty())
        fatal("transport", "completion queue destroyed before it was drained");
    q->freed = true;
}
void queue_shutdown(Queue *q)
{
    point(0x20);
    Rt guard;
    if (q->freed)
        fatal("transport", "shutdown of a destroyed completion queue");
    q->shut = true;
    wake(q, INT_MAX);
}
int queue_next(Queue *q, void **tag, bool *ok, int64_t deadline)
{
    point(0x21);
    Rt guard;
    for (;;)
    {
        if (q->freed)
            fatal("transport", "wait on a destroyed completion queue");
        if (!q->events.empty())
        {
            *tag = q->events.front().tag;
            *ok = q->events.front().ok;
            q->events.pop_front();
            return 1;
        }
        if (q->shut && q->pending == 0)
            return 0;
        if (!me)
            fatal("transport", "wait from an unknown thread");
        if (deadline >= 0 && S->now + EPOCH >= deadline)
            return 2;
        block(q, deadline < 0 ? -1 : deadline - EPOCH, "completion queue");
    }
}
Chan *chan_new(const std::string &target, bool secure)
{
    Rt guard;
    auto *c = new Chan;
    c->key = key_of(target);
    c->secure = secure;
    return c;
}
void chan_free(Chan *) {}
int chan_state(Chan *c)
{
    auto it = g_listen ? g_listen->find(c->key) : decltype(g_listen->end()){};
    return g_listen && it != g_listen->end() && it->second->up && !it->second->down ? 2 : 3;
}
bool chan_wait(Chan *c, int64_t deadline)
{
    Rt guard;
    while (chan_state(c) != 2)
    {
        if (deadline >= 0 && S->now + EPOCH >= deadline)
            return false;
        block(c, S->now + 100000000, "channel");
    }
    return true;
}
Call *call_new(Chan *chan, Queue *cq, const char *method, const google::protobuf::MessageLite &request, int64_t deadline, bool wait_ready)
{
    point(0x22);
    Rt guard;
    auto *c = new Call;
    c->id = int(S->calls++);
    c->method = method;
    c->chan = chan;
    c->key = chan->key;
    c->direct = chan->direct;
    c->secure = chan->secure;
    c->cq = cq;
    c->deadline = deadline;
    c->wait_ready = wait_ready;
    request.SerializeToString(&c->request);
    return c;
}
void call_start(Call *c)
{
    Rt guard;
    c->started = true;
    double v = 0;
    if (const Kind *k = fault({"net.unavailable", "net.status", "net.lost_reply", "net.reset", "net.slow_request", "net.slow_reply"}, v))
    {
        if (k->name == "net.unavailable")
        {
            post(int64_t(v * 2e9), 2, [c] { complete(c, grpc::StatusCode::UNAVAILABLE, "connection refused"); });
            return;
        }
        if (k->name == "net.status")
        {
            const int code = 1 + int(v * 16) % 16;   // any error status, with or without a text
            const bool text = int(v * 1000) % 2 == 0;
            post(int64_t(v * 2e9), 2, [c, code, text] { complete(c, code, text ? "injected" : ""); });
            return;
        }
        if (k->name == "net.lost_reply")
            c->lose_reply = true;
        if (k->name == "net.slow_request")
            c->request_delay = int64_t(v * 2e10);
        if (k->name == "net.slow_reply")
            c->reply_delay = int64_t(v * 2e10);
        if (k->name == "net.reset")
            post(int64_t(v * 1e6), 3, [c] {
                complete(c, grpc::StatusCode::UNAVAILABLE, "socket closed");
                if (Serv *s = server_of(c))
                    drop_connection(s, "socket closed");
            });
    }
    if (c->deadline >= 0)
        post(c->deadline - EPOCH > S->now ? c->deadline - EPOCH - S->now : 0, 4,
             [c] { complete(c, grpc::StatusCode::DEADLINE_EXCEEDED, "deadline exceeded"); });
    post(c->request_delay, 1, [c] { arrive(c); });
}
void call_finish(Call *c, google::protobuf::MessageLite *reply, grpc::Status *status, void *tag)
{
    {
        Rt guard;
        begin_op(c->cq, "call");
        c->reply = reply;
        c->status = status;
        c->tag = tag;
        c->finishing = true;
        try_deliver(c);
    }
    point(0x23);
}
void call_cancel(Call *c)
{
    Rt guard;
    complete(c, grpc::StatusCode::CANCELLED, "cancelled");
}
void call_drop(Call *c)
{
    (void)c;
}
bool call_cancelled(Call *c)
{
    return c->done && !c->replied;
}
Serv *serv_new()
{
    Rt guard;
    return new Serv;
}
void serv_free(Serv *) {}
bool serv_listen(Serv *s, const std::string &address, bool secure)
{
    Rt guard;
    if (!g_listen)
        g_listen = new std::map<std::string, Serv *>;
    const auto k = key_of(address);
    if (g_listen->count(k))
        return false;
    (*g_listen)[k] = s;
    s->keys.push_back(k);
    s->secure = secure;
    return true;
}
void serv_queue(Serv *s, Queue *q)
{
    Rt guard;
    s->cqs.push_back(q);
}
bool serv_start(Serv *s)
{
    s->up = true;
    return true;
}
void serv_shutdown(Serv *s, int64_t deadline)
{
    point(0x24);
    Rt guard;
    if (!s->shut)
    {
        s->shut = true;
        for (auto &k : s->keys)
            g_listen->erase(k);
        for (Slot *x : s->slots)
        {
            push(x->cq, x->tag, false);
            delete x;
        }
        s->slots.clear();
        auto w = s->waiting;
        s->waiting.clear();
        for (Call *c : w)
            complete(c, grpc::StatusCode::UNAVAILABLE, "server shutdown");
    }
    while (s->inflight > 0)
    {
        if (!block(s, deadline < 0 ? -1 : deadline - EPOCH, "server shutdown"))
        {
            drop_connection(s, "server shutdown");
            deadline = -1;
        }
    }
}
Chan *serv_channel(Serv *s)
{
    Rt guard;
    auto *c = new Chan;
    c->direct = s;
    c->secure = s->secure;
    return c;
}
void serv_request(Serv *s, const char *method, google::protobuf::MessageLite *request, Call **ctx, Queue *cq, Queue *notify, void *tag)
{
    {
        Rt guard;
        if (!s || !s->up)
            fatal("transport", "request for calls before the server started");
        begin_op(cq, "request for calls");
        if (s->shut)
            post(0, 5, [cq, tag] { push(cq, tag, false); });
        else
        {
            auto *slot = new Slot{method, request, ctx, cq, notify, tag};
            for (auto it = s->waiting.begin(); it != s->waiting.end(); ++it)
                if ((*it)->method == method)
                {
                    Call *c = *it;
                    s->waiting.erase(it);
                    for (auto a = s->active.begin(); a != s->active.end(); ++a)
                        if (*a == c)
                        {
                            s->active.erase(a);
                            break;
                        }
                    match(s, slot, c);
                    slot = nullptr;
                    break;
                }
            if (slot)
                s->slots.push_back(slot);
        }
    }
    point(0x25);
}
void reply_finish(Call *c, Queue *notify, const google::protobuf::MessageLite *reply, int code, const std::string &message, void *tag)
{
    {
        Rt guard;
        if (!c)
            fatal("transport", "reply without a call");
        if (c->replied)
            fatal("transport", "second reply to one call");
        begin_op(notify, "reply");
        c->replied = true;
        std::string bytes;
        if (reply && code == 0)
            reply->SerializeToString(&bytes);
        const int code_copy = code;
        const std::string text = message;
        post(c->reply_delay, 6, [c, bytes, code_copy, text] {
            if (c->done)
                return;
            if (c->lose_reply)
            {
                complete(c, grpc::StatusCode::UNAVAILABLE, "connection reset by peer");
                return;
            }
            c->reply_bytes = bytes;
            complete(c, code_copy, text);
        });
        post(0, 7, [c, notify, tag] {
            Serv *s = c->serv;
            push(notify, tag, !c->done || c->code == 0);
            s->inflight--;
            wake(s, INT_MAX);
        });
    }
    point(0x26);
}
} // namespace nsim

// Makes the server on this port unreachable (its calls fail) or reachable again.
EXPORT int nsim_server_down(const char *port, int down)
{
    Rt guard;
    auto it = g_listen ? g_listen->find(port) : decltype(g_listen->end()){};
    if (!g_listen || it == g_listen->end())
        return 0;
    it->second->down = down != 0;
    if (down)
        drop_connection(it->second, "socket closed");
    return 1;
}
EXPORT int nsim_server_inflight(const char *port)
{
    auto it = g_listen ? g_listen->find(port) : decltype(g_listen->end()){};
    return !g_listen || it == g_listen->end() ? -1 : it->second->inflight;
}

// ------------------------------------------------------------------ C library seams
extern "C"
{
    int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    int __real_pthread_join(pthread_t, void **);
    int __real_pthread_detach(pthread_t);
    int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
    {
        if (!active())
            return __real_pthread_create(out, attr, fn, arg);
        double v;
        {
            Rt guard;
            if (fault({"thread.create"}, v))
                return EAGAIN;
            Th *t = thread_new();
            t->fn = fn;
            t->arg = arg;
            int r = __real_pthread_create(&t->real, attr, trampoline, t);
            if (r)
                fatal("harness", "pthread_create failed: %d", r);
            *out = t->real;
        }
        point(0x30);
        return 0;
    }
    int __wrap_pthread_join(pthread_t id, void **out)
    {
        if (!active())
            return __real_pthread_join(id, out);
        point(0x31);
        for (size_t i = S->threads.size(); i-- > 0;)
        {
            Th *t = S->threads[i];
            if (!t->external && pthread_equal(t->real, id))
            {
                if (t == me)
                    return EDEADLK;
                while (t->state != DONE)
                    block(t, -1, "thread join");
                break;
            }
        }
        return __real_pthread_join(id, out);
    }
    int __wrap_pthread_detach(pthread_t id) { return __real_pthread_detach(id); }

    static MutexRec *mrec(const void *m)
    {
        auto &r = S->mutexes[m];
        if (!r)
            r = new MutexRec;
        return r;
    }
    int __real_pthread_mutex_lock(pthread_mutex_t *);
    int __real_pthread_mutex_trylock(pthread_mutex_t *);
    int __real_pthread_mutex_unlock(pthread_mutex_t *);
    int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_mutex_lock(m);
        check(m, sizeof *m, true, __builtin_return_address(0), me);
        point(0x32);
        Rt guard;
        MutexRec *r = mrec(m);
        if (r->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            r->count++;
            return 0;
        }
        while (r->owner)
            block(m, -1, "mutex");
        r->owner = me;
        r->count = 1;
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_mutex_trylock(m);
        point(0x33);
        Rt guard;
        MutexRec *r = mrec(m);
        if (r->owner)
            return EBUSY;
        r->owner = me;
        r->count = 1;
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_mutex_unlock(m);
        {
            Rt guard;
            MutexRec *r = mrec(m);
            if (r->owner == me && --r->count == 0)
            {
                r->owner = nullptr;
                wake(m, INT_MAX);
            }
        }
        point(0x34);
        return 0;
    }
    static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
    {
        point(0x35);
        Rt guard;
        MutexRec *r = mrec(m);
        r->owner = nullptr;
        r->count = 0;
        wake(m, INT_MAX);
        const bool woken = block(c, deadline, "condition variable");
        while (r->owner)
            block(m, -1, "mutex");
        r->owner = me;
        r->count = 1;
        return woken ? 0 : ETIMEDOUT;
    }
    int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
    int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
    {
        if (!active())
            return __real_pthread_cond_wait(c, m);
        return cond_wait(c, m, -1);
    }
    int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
    {
        return cond_wait(c, m, to_ns(t) - EPOCH);
    }
    int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t)
    {
        return cond_wait(c, m, to_ns(t) - EPOCH);
    }
    int __real_pthread_cond_signal(pthread_cond_t *);
    int __real_pthread_cond_broadcast(pthread_cond_t *);
    int __wrap_pthread_cond_signal(pthread_cond_t *c)
    {
        if (!active())
            return me ? 0 : __real_pthread_cond_signal(c);
        {
            Rt guard;
            wake(c, 1);
        }
        point(0x36);
        return 0;
    }
    int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
    {
        if (!active())
            return me ? 0 : __real_pthread_cond_broadcast(c);
        {
            Rt guard;
            wake(c, INT_MAX);
        }
        point(0x37);
        return 0;
    }
    static RwRec *rwrec(const void *m)
    {
        auto &r = S->rws[m];
        if (!r)
            r = new RwRec;
        return r;
    }
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
    int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_rwlock_rdlock(m);
        point(0x38);
        Rt guard;
        RwRec *r = rwrec(m);
        while (r->writer)
            block(m, -1, "shared mutex");
        r->readers++;
        return 0;
    }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_rwlock_wrlock(m);
        point(0x39);
        Rt guard;
        RwRec *r = rwrec(m);
        while (r->writer || r->readers)
            block(m, -1, "shared mutex");
        r->writer = me;
        return 0;
    }
    int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
    {
        point(0x3a);
        Rt guard;
        RwRec *r = rwrec(m);
        if (r->writer)
            return EBUSY;
        r->readers++;
        return 0;
    }
    int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m)
    {
        point(0x3b);
        Rt guard;
        RwRec *r = rwrec(m);
        if (r->writer || r->readers)
            return EBUSY;
        r->writer = me;
        return 0;
    }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
    {
        if (!active())
            return me ? 0 : __real_pthread_rwlock_unlock(m);
        {
            Rt guard;
            RwRec *r = rwrec(m);
            if (r->writer)
                r->writer = nullptr;
            else
                r->readers--;
            wake(m, INT_MAX);
        }
        point(0x3c);
        return 0;
    }
    int __real_pthread_once(pthread_once_t *, void (*)(void));
    int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
    {
        if (!active())
            return __real_pthread_once(o, fn);
        if (*o == 2) // completed by the C library before the run started
            return 0;
        point(0x3d);
        OnceRec *r;
        {
            Rt guard;
            auto &slot = S->onces[o];
            if (!slot)
                slot = new OnceRec;
            r = slot;
            while (r->state == 1)
                block(o, -1, "once");
            if (r->state == 2)
                return 0;
            r->state = 1;
        }
        try
        {
            fn();
        }
        catch (...)
        {
            Rt guard;
            r->state = 0;
            wake(o, INT_MAX);
            throw;
        }
        Rt guard;
        r->state = 2;
        *o = 2;
        wake(o, INT_MAX);
        return 0;
    }
    int __wrap_sem_wait(sem_t *s)
    {
        auto *v = reinterpret_cast<int *>(s);
        point(0x3e);
        while (*v <= 0)
            block(s, -1, "semaphore");
        --*v;
        return 0;
    }
    int __wrap_sem_post(sem_t *s)
    {
        auto *v = reinterpret_cast<int *>(s);
        ++*v;
        if (active())
        {
            wake(s, 1);
            point(0x3f);
        }
        return 0;
    }
    int __wrap_sem_trywait(sem_t *s)
    {
        auto *v = reinterpret_cast<int *>(s);
        point(0x40);
        if (*v <= 0)
        {
            errno = EAGAIN;
            return -1;
        }
        --*v;
        return 0;
    }

    long __real_syscall(long, long, long, long, long, long, long);
    long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
    {
        if (n != SYS_futex || !active())
            return __real_syscall(n, a, b, c, d, e, f);
        const int op = int(b) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        auto *addr = reinterpret_cast<int *>(a);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            point(0x41);
            if (*addr != int(c))
            {
                errno = EAGAIN;
                return -1;
            }
            int64_t deadline = -1;
            if (d)
                deadline = op == FUTEX_WAIT ? S->now + to_ns(reinterpret_cast<timespec *>(d)) : to_ns(reinterpret_cast<timespec *>(d)) - EPOCH;
            if (block(addr, deadline, "futex"))
                return 0;
            errno = ETIMEDOUT;
            return -1;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int k;
            {
                Rt guard;
                k = wake(addr, int(c));
            }
            point(0x42);
            return k;
        }
        return __real_syscall(n, a, b, c, d, e, f);
    }

    int __real_clock_gettime(clockid_t, timespec *);
    int __wrap_clock_gettime(clockid_t id, timespec *t)
    {
        if (!active())
            return __real_clock_gettime(id, t);
        S->now += 1000;
        const int64_t v = S->now + EPOCH;
        t->tv_sec = v / 1000000000;
        t->tv_nsec = v % 1000000000;
        point(0x43);
        return 0;
    }
    int __wrap_gettimeofday(timeval *t, void *)
    {
        timespec ts;
        __wrap_clock_gettime(CLOCK_REALTIME, &ts);
        t->tv_sec = ts.tv_sec;
        t->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    time_t __wrap_time(time_t *out)
    {
        timespec ts;
        __wrap_clock_gettime(CLOCK_REALTIME, &ts);
        if (out)
            *out = ts.tv_sec;
        return ts.tv_sec;
    }
    int __real_nanosleep(const timespec *, timespec *);
    int __wrap_nanosleep(const timespec *t, timespec *rem)
    {
        if (!active())
            return __real_nanosleep(t, rem);
        block(t, S->now + to_ns(t), "sleep");
        return 0;
    }
    int __wrap_clock_nanosleep(clockid_t, int flags, const timespec *t, timespec *)
    {
        if (active())
            block(t, flags & TIMER_ABSTIME ? to_ns(t) - EPOCH : S->now + to_ns(t), "sleep");
        return 0;
    }
    int __wrap_usleep(unsigned us)
    {
        if (active())
            block(&us, S->now + int64_t(us) * 1000, "sleep");
        return 0;
    }
    unsigned __wrap_sleep(unsigned s)
    {
        if (active())
            block(&s, S->now + int64_t(s) * 1000000000, "sleep");
        return 0;
    }
    int __wrap_sched_yield()
    {
        if (active())
        {
            S->last_block = S->steps >= S->fair ? S->steps - S->fair : 0;
            point(0x44);
        }
        return 0;
    }
    int __wrap_get_nprocs() { return S ? S->nprocs : 2; }

    void __wrap_abort()
    {
        die("crash", "abort called, stack:" + where());
    }
    void __wrap___assert_fail(const char *expr, const char *file, unsigned line, const char *)
    {
        const char *base = strrchr(file, '/');
        fatal("assert", "assertion failed: %s at %s:%u", expr, base ? base + 1 : file, line);
    }

    // Disk.
    static bool data_file(const char *path)
    {
        return active() && !S->data_dir.empty() && path && strncmp(path, S->data_dir.c_str(), S->data_dir.size()) == 0;
    }
    FILE *__real_fopen(const char *, const char *);
    FILE *__wrap_fopen(const char *path, const char *mode)
    {
        if (active() && path && mode[0] != 'r')
        {
            // Nothing is written outside of the folder of the run.
            point(0x52);
            if (!data_file(path) || strstr(path, "/../"))
            {
                errno = EACCES;
                return nullptr;
            }
        }
        if (data_file(path) && mode[0] == 'r')
        {
            point(0x50);
            double v;
            Rt guard;
            if (fault({"disk.open"}, v))
            {
                errno = v < 0.5 ? EIO : EMFILE;
                return nullptr;
            }
        }
        return __real_fopen(path, mode);
    }
    FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
    size_t __real_fread(void *, size_t, size_t, FILE *);
    size_t __wrap_fread(void *out, size_t size, size_t count, FILE *f)
    {
        if (active())
        {
            if (size * count)
                check(out, size * count, true, __builtin_return_address(0), me);
            point(0x51);
            double v;
            Rt guard;
            if (size * count)
                if (const Kind *k = fault({"disk.read", "disk.short_read"}, v))
                {
                    if (k->name == "disk.read")
                    {
                        errno = EIO;
                        return 0;
                    }
                    const size_t less = size_t(v * double(count));
                    return less ? __real_fread(out, size, less, f) : 0;
                }
        }
        return __real_fread(out, size, count, f);
    }
    ssize_t __real_read(int, void *, size_t);
    ssize_t __wrap_read(int fd, void *out, size_t n)
    {
        if (active())
        {
            double v;
            Rt guard;
            if (fault({"disk.read"}, v))
            {
                errno = EIO;
                return -1;
            }
        }
        return __real_read(fd, out, n);
    }

    // Hadoop file system: the library that the engine loads by name.
    struct HdfsFs { int magic; };
    struct HdfsFile { void *file; int type; int32_t flags; int fd; };
    struct HdfsInfo { int kind; char *name; time_t mod; int64_t size; short repl; int64_t block; char *owner; char *group; short perm; time_t access; };
    static HdfsFs g_hdfs = {0x68646673};
    static bool hdfs_path(const char *path, std::string &out)
    {
        const std::string p = path ? path : "";
        for (auto &[address, folder] : S->hdfs)
            if (p.compare(0, address.size(), address) == 0 && (p.size() == address.size() || p[address.size()] == '/'))
            {
                out = folder + p.substr(address.size());
                return true;
            }
        errno = ENOENT;
        return false;
    }
    // Every call of the library is a place to switch, may take long and may fail.
    static bool hdfs_call(const char *kind, HdfsFs *fs)
    {
        if (fs && fs != &g_hdfs)
            die("crash", "call with a file system that was never connected, stack:" + where());
        point(0x60);
        double v;
        const Kind *k;
        {
            Rt guard;
            k = fault({kind, "hdfs.slow"}, v);
        }
        if (k && k->name == "hdfs.slow")
        {
            block(&k, S->now + int64_t(v * 2e10), "remote storage");
            k = nullptr;
        }
        if (k)
            errno = v < 0.5 ? EIO : ETIMEDOUT;
        return k == nullptr;
    }
    // The result is there, but the caller goes on later.
    static void hdfs_late()
    {
        point(0x61);
        double v;
        const Kind *k;
        {
            Rt guard;
            k = fault({"hdfs.slow"}, v);
        }
        if (k)
            block(&k, S->now + int64_t(v * 2e10), "remote storage");
    }
    static char *hdfs_name(const std::string &s)
    {
        auto *p = static_cast<char *>(__wrap_malloc(s.size() + 1));
        __real_memcpy(p, s.c_str(), s.size() + 1);
        return p;
    }
    static void hdfs_info(HdfsInfo *i, const std::string &name, const struct stat &st)
    {
        *i = {S_ISDIR(st.st_mode) ? 'D' : 'F', hdfs_name(name), 0, S_ISDIR(st.st_mode) ? 0 : int64_t(st.st_size), 1, 1 << 27, hdfs_name("owner"), hdfs_name("group"), 0644, 0};
    }
    static HdfsFs *hdfs_connect(const char *host, uint16_t port)
    {
        if (!hdfs_call("hdfs.connect", nullptr))
            return nullptr;
        Rt guard;
        const std::string h = host ? host : "";
        for (auto &[address, folder] : S->hdfs)
        {
            const size_t from = address.find("://") + 3, end = address.find('/', from), colon = address.find(':', from);
            const std::string name = address.substr(0, colon < end ? colon : end);
            const int want = colon < end ? atoi(address.c_str() + colon + 1) : 0;
            if (h.compare(0, name.size(), name) == 0 && (h.size() == name.size() || h[name.size()] == '/') && port == want)
                return &g_hdfs;
        }
        errno = ECONNREFUSED;
        return nullptr;
    }
    static int32_t hdfs_exists(HdfsFs *fs, const char *path)
    {
        if (!hdfs_call("hdfs.info", fs))
            return -1;
        Rt guard;
        std::string p;
        struct stat st;
        return hdfs_path(path, p) && stat(p.c_str(), &st) == 0 ? 0 : -1;
    }
    static HdfsInfo *hdfs_get_info(HdfsFs *fs, const char *path)
    {
        if (!hdfs_call("hdfs.info", fs))
            return nullptr;
        Rt guard;
        std::string p;
        struct stat st;
        if (!hdfs_path(path, p) || stat(p.c_str(), &st))
            return nullptr;
        auto *i = static_cast<HdfsInfo *>(__wrap_malloc(sizeof(HdfsInfo)));
        hdfs_info(i, path, st);
        return i;
    }
    static int32_t hdfs_free_info(HdfsInfo *i, int32_t n)
    {
        if (n > 0)
            check(i, n * sizeof *i, false, __builtin_return_address(0), me);
        for (int32_t k = 0; k < n; ++k)
        {
            __wrap_free(i[k].name);
            __wrap_free(i[k].owner);
            __wrap_free(i[k].group);
        }
        __wrap_free(i);
        return 0;
    }
    static HdfsFile *hdfs_open(HdfsFs *fs, const char *path, int32_t, int32_t, short, int32_t)
    {
        if (!hdfs_call("hdfs.open", fs))
            return nullptr;
        Rt guard;
        std::string p;
        if (!hdfs_path(path, p))
            return nullptr;
        const int fd = open(p.c_str(), O_RDONLY);
        if (fd < 0)
            return nullptr;
        auto *f = static_cast<HdfsFile *>(__wrap_malloc(sizeof(HdfsFile)));
        *f = {nullptr, 1, 0, fd};
        return f;
    }
    static int32_t hdfs_read(HdfsFs *fs, HdfsFile *f, void *out, int32_t n)
    {
        check(f, sizeof *f, false, __builtin_return_address(0), me);
        if (!hdfs_call("hdfs.read", fs))
            return -1;
        if (n < 0)
        {
            errno = EINVAL;
            return -1;
        }
        if (n)
            check(out, n, true, __builtin_return_address(0), me);
        ssize_t r;
        {
            Rt guard;
            double v;
            if (n > 1 && fault({"hdfs.short_read"}, v))
                n = 1 + int32_t(v * double(n - 1));
            r = __real_read(f->fd, out, n);
        }
        hdfs_late();
        return int32_t(r);
    }
    static int32_t hdfs_close(HdfsFs *fs, HdfsFile *f)
    {
        check(f, sizeof *f, false, __builtin_return_address(0), me);
        close(f->fd);
        __wrap_free(f);
        return 0;
    }
    static int32_t hdfs_disconnect(HdfsFs *) { return 0; }
    static HdfsInfo *hdfs_list(HdfsFs *fs, const char *path, int32_t *n)
    {
        if (!hdfs_call("hdfs.list", fs))
            return nullptr;
        Rt guard;
        std::string p;
        if (!hdfs_path(path, p))
            return nullptr;
        std::vector<std::string> names;
        DIR *d = opendir(p.c_str());
        if (!d)
            return nullptr;
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.')
                names.push_back(e->d_name);
        closedir(d);
        std::sort(names.begin(), names.end());
        if (S->shuffle_dirs > 1) // not every store lists by name
            std::stable_sort(names.begin(), names.end(), [](const std::string &a, const std::string &b) {
                auto key = [](const std::string &x) {
                    uint64_t h = 1469598103934665603ull ^ uint64_t(S->shuffle_dirs);
                    for (unsigned char c : x)
                        h = (h ^ c) * 1099511628211ull;
                    return h ^ (h >> 29);
                };
                return key(a) < key(b);
            });
        *n = int32_t(names.size());
        if (names.empty())
            return nullptr;
        auto *out = static_cast<HdfsInfo *>(__wrap_malloc(names.size() * sizeof(HdfsInfo)));
        for (size_t k = 0; k < names.size(); ++k)
        {
            struct stat st;
            stat((p + "/" + names[k]).c_str(), &st);
            std::string full = path;
            while (full.size() > 1 && full.back() == '/')
                full.pop_back();
            hdfs_info(out + k, full + "/" + names[k], st);
        }
        return out;
    }
    void *__real_dlopen(const char *, int);
    void *__real_dlsym(void *, const char *);
    int __real_dlclose(void *);
    char *__real_dlerror();
    void *__wrap_dlopen(const char *path, int flags)
    {
        const char *base = path ? strrchr(path, '/') : nullptr;
        if (active() && base && strcmp(base, "/libhdfs.so") == 0)
            return &g_hdfs;
        return __real_dlopen(path, flags);
    }
    void *__wrap_dlsym(void *handle, const char *name)
    {
        if (handle != &g_hdfs)
            return __real_dlsym(handle, name);
        const struct { const char *name; void *fn; } all[] = {
            {"hdfsConnect", (void *)hdfs_connect}, {"hdfsExists", (void *)hdfs_exists}, {"hdfsGetPathInfo", (void *)hdfs_get_info},
            {"hdfsFreeFileInfo", (void *)hdfs_free_info}, {"hdfsOpenFile", (void *)hdfs_open}, {"hdfsRead", (void *)hdfs_read},
            {"hdfsCloseFile", (void *)hdfs_close}, {"hdfsDisconnect", (void *)hdfs_disconnect}, {"hdfsListDirectory", (void *)hdfs_list}};
        for (auto &x : all)
            if (strcmp(x.name, name) == 0)
                return x.fn;
        return nullptr;
    }
    int __wrap_dlclose(void *handle) { return handle == &g_hdfs ? 0 : __real_dlclose(handle); }
    char *__wrap_dlerror() { return active() ? nullptr : __real_dlerror(); }

    void *__real_memcpy(void *, const void *, size_t);
    void *__real_memmove(void *, const void *, size_t);
    void *__real_memset(void *, int, size_t);
    void *__wrap_memcpy(void *d, const void *s, size_t n)
    {
        if (n && active())
        {
            check(s, n, false, __builtin_return_address(0), me);
            mem(d, n, true, __builtin_return_address(0));
        }
        return __real_memcpy(d, s, n);
    }
    void *__wrap_memmove(void *d, const void *s, size_t n)
    {
        if (n && active())
        {
            check(s, n, false, __builtin_return_address(0), me);
            mem(d, n, true, __builtin_return_address(0));
        }
        return __real_memmove(d, s, n);
    }
    void *__wrap_memset(void *d, int c, size_t n)
    {
        if (n && active())
            mem(d, n, true, __builtin_return_address(0));
        return __real_memset(d, c, n);
    }
}

// ------------------------------------------------------------------ compiler hooks
#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void *pc)
    {
        Th *t = me;
        if (!t)
            return;
        if (t->depth == t->cap)
        {
            const size_t cap = t->cap ? t->cap * 2 : 256;
            auto *f = static_cast<Frame *>(__real_malloc(cap * sizeof(Frame)));
            if (t->frames)
                __real_memcpy(f, t->frames, t->depth * sizeof(Frame));
            __real_free(t->frames);
            t->frames = f;
            t->cap = cap;
        }
        void **own = static_cast<void **>(__builtin_frame_address(0));
        t->frames[t->depth++] = {reinterpret_cast<uintptr_t>(own) + 16, reinterpret_cast<uintptr_t>(own[0]) + 16, pc};
    }
    void __tsan_func_exit()
    {
        Th *t = me;
        if (t && t->depth)
            t->depth--;
    }
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { mem(p, n, false, PC); }                                                             \
    void __tsan_write##n(void *p) { mem(p, n, true, PC); }                                                             \
    void __tsan_unaligned_read##n(void *p) { mem(p, n, false, PC); }                                                   \
    void __tsan_unaligned_write##n(void *p) { mem(p, n, true, PC); }                                                   \
    void __tsan_volatile_read##n(void *p) { mem(p, n, false, PC); }                                                    \
    void __tsan_volatile_write##n(void *p) { mem(p, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void *p, size_t n) { if (n) mem(p, n, false, PC); }
    void __tsan_write_range(void *p, size_t n) { if (n) mem(p, n, true, PC); }
    void __tsan_vptr_update(void **p, void *) { mem(p, 8, true, PC); }
    void __tsan_vptr_read(void **p) { mem(p, 8, false, PC); }
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { atomic_hook((void *)p, sizeof(T), false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atomic_hook((void *)p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atomic_hook((void *)p, sizeof(T), true, PC); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
    static inline void atomic_hook(void *p, size_t n, bool w, void *pc)
    {
        Th *t = me;
        if (!t || t->in_rt || !S->on)
            return;
        check(p, n, w, pc, t);
        ++S->steps;
        event(reinterpret_cast<uintptr_t>(pc) - reinterpret_cast<uintptr_t>(__ehdr_start), S->p_sync > 0 && !S->replay && (S->steps & 7) == 0);
    }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

// ------------------------------------------------------------------ hash container support
// The packaged library cannot be linked into a shared object; these are its only definitions in use.
namespace absl
{
ABSL_NAMESPACE_BEGIN
namespace container_internal
{
alignas(16) ABSL_CONST_INIT const ctrl_t kEmptyGroup[16] = {
    ctrl_t::kSentinel, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty,    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty};
template FindInfo find_first_non_full(const ctrl_t *, size_t, size_t);
bool ShouldInsertBackwards(size_t hash, const ctrl_t *) { return (hash * 0x9E3779B97F4A7C15ull >> 59) % 13 > 6; }
void ConvertDeletedToEmptyAndFullToDeleted(ctrl_t *ctrl, size_t capacity)
{
    for (ctrl_t *pos = ctrl; pos < ctrl + capacity; pos += Group::kWidth)
        Group{pos}.ConvertSpecialToEmptyAndFullToDeleted(pos);
    __real_memcpy(ctrl + capacity + 1, ctrl, NumClonedBytes());
    ctrl[capacity] = ctrl_t::kSentinel;
}
} // namespace container_internal
ABSL_NAMESPACE_END
} // namespace absl
