#include "mcsched.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

// the linker redirects malloc() and free() of the code under test (Eigen) to __wrap_*
extern "C" void *__real_malloc(size_t n);
extern "C" void __real_free(void *p);

namespace
{
    const int MAX_THREADS = 8;
    const size_t STACK = 256 * 1024, ARENA = 4 * 1024 * 1024, HEADER = 16;
    typedef uint32_t Clock;

    struct Cell { uint32_t path; Clock wclk; uint8_t wtid; Clock r[MAX_THREADS]; };
    struct Header { uint64_t size; uint32_t state; uint32_t magic; };
    const uint32_t ALIVE = 0x616c6976, DEAD = 0x64656164;
}

namespace sched { int fill = 0xcd; uint64_t limit = 1500; }
namespace sched
{
    struct Sync { int owner; std::vector<int> waiters; Clock vc[MAX_THREADS]; };
}

namespace
{
    struct Thread
    {
        ucontext_t ctx;
        char *stack;
        std::function<void ()> f;
        enum State { READY, LOCK, JOIN, SLEEP, WAIT, TIMED_WAIT, AWAIT, DONE } state;
        std::function<bool ()> condition;
        sched::Sync *sync;
        int target;
        bool timed_out, local;
        uint64_t slept_at;
        Clock vc[MAX_THREADS];
        uint64_t steps;
        int held;
        char eh[16];
    };

    struct Runtime
    {
        bool on;                // a thread is running
        int in;                 // nesting of runtime code
        Thread t[MAX_THREADS];
        int n, cur, preemptions, bound;
        ucontext_t controller;
        uint32_t path;
        uint64_t progress, steps, accesses, path_steps;
        char *arena;
        size_t used, live;
        Cell *shadow;
        std::unordered_map<uintptr_t, Cell> *globals;
        std::unordered_map<uintptr_t, sched::Sync> *atomics;
        bool failed;
        sched::Error error;
        sched::Chooser choose;
        sched::Tracer trace;
        uintptr_t stacks_lo, stacks_hi;
    };
    Runtime R;
    bool ready = false;

    struct In { In() { ++R.in; } ~In() { --R.in; } };

    void init()
    {
        if (ready) return;
        ready = true;
        char *s = (char *) mmap(NULL, STACK * MAX_THREADS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < MAX_THREADS; ++i) R.t[i].stack = s + i * STACK;
        R.stacks_lo = (uintptr_t) s;
        R.stacks_hi = R.stacks_lo + STACK * MAX_THREADS;
        R.arena = (char *) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        R.shadow = (Cell *) mmap(NULL, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        R.globals = new std::unordered_map<uintptr_t, Cell>();
        R.atomics = new std::unordered_map<uintptr_t, sched::Sync>();
    }

    void joinClock(Clock *a, const Clock *b) { for (int i = 0; i < MAX_THREADS; ++i) if (b[i] > a[i]) a[i] = b[i]; }

    void toController()
    {
        Thread &t = R.t[R.cur];
        memcpy(t.eh, abi::__cxa_get_globals(), 16);
        int in = R.in;
        R.on = false;
        swapcontext(&t.ctx, &R.controller);
        R.on = true;
        R.in = in;
        memcpy(abi::__cxa_get_globals(), t.eh, 16);
    }

    void failNow(const std::string &key, const std::string &msg)
    {
        ++R.in;
        if (!R.failed)
        {
            R.failed = true;
            R.error.key = key;
            R.error.msg = msg;
        }
        toController();
        abort();
    }

    void entry(int i)
    {
        R.on = true;
        R.in = 0;
        memset(abi::__cxa_get_globals(), 0, 16);
        try { R.t[i].f(); }
        catch (const sched::Error &e) { ++R.in; R.failed = true; R.error = e; --R.in; }
        catch (const std::exception &e) { ++R.in; R.failed = true; R.error.key = "exception-in-thread"; R.error.msg = e.what(); --R.in; }
        catch (...) { ++R.in; R.failed = true; R.error.key = "exception-in-thread"; R.error.msg = "unknown exception"; --R.in; }
        ++R.in;
        R.t[i].state = Thread::DONE;
        ++R.progress;
        R.on = false;
        setcontext(&R.controller);
    }

    bool enabled(int i)
    {
        Thread &t = R.t[i];
        switch (t.state)
        {
            case Thread::READY: return true;
            case Thread::LOCK: return t.sync->owner < 0;
            case Thread::JOIN: return R.t[t.target].state == Thread::DONE;
            case Thread::SLEEP: return R.progress > t.slept_at;
            case Thread::TIMED_WAIT: return t.sync->owner < 0 && R.progress > t.slept_at;
            case Thread::AWAIT: return t.condition();
            default: return false;
        }
    }

    const char *NAMES[] = {"ready", "waits for a mutex", "waits for a thread", "sleeps", "waits for a condition", "waits for a condition with a timeout", "waits for an effect", "finished"};

    // current thread gives up control at a scheduling point with its state set
    void schedule()
    {
        ++R.in;
        toController();
        ++R.t[R.cur].steps;
        ++R.steps;
        --R.in;
    }

    void progress() { ++R.progress; }

    // ------------------------------------------------------------ memory
    void *site;
    extern "C" char __executable_start;
    void race(const char *what, uintptr_t p, int other)
    {
        char b[256];
        uintptr_t a = (uintptr_t) R.arena;
        bool in = p >= a && p < a + ARENA;
        snprintf(b, sizeof b, "%s by thread %d is not ordered with an access by thread %d (%s %zx, code at %p)", what, R.cur, other, in ? "allocated memory, offset" : "address", (size_t) (in ? p - a : p), (void *) ((char *) site - (char *) &__executable_start));
        failNow("data-race", b);
    }

    Cell *cell(uintptr_t p)
    {
        Cell *c;
        uintptr_t a = (uintptr_t) R.arena;
        if (p >= a && p < a + ARENA) c = R.shadow + (p - a);
        else if (p >= R.stacks_lo && p < R.stacks_hi) return NULL;
        else c = &(*R.globals)[p];
        if (c->path != R.path)
        {
            memset(c, 0, sizeof(Cell));
            c->path = R.path;
        }
        return c;
    }

    void checkAlive(uintptr_t p, size_t n);

    __attribute__((noinline)) void access(const void *ptr, size_t n, bool write)
    {
        if (!R.on || R.in) return;
        site = __builtin_return_address(0);
        ++R.in;
        ++R.accesses;
        uintptr_t p = (uintptr_t) ptr;
        if (!(p >= R.stacks_lo && p < R.stacks_hi))
        {
            checkAlive(p, n);
            Thread &t = R.t[R.cur];
            for (size_t k = 0; k < n; ++k)
            {
                Cell *c = cell(p + k);
                if (c == NULL) continue;
                if (c->wclk > 0 && c->wclk > t.vc[c->wtid]) race(write ? "a write" : "a read", p + k, c->wtid);
                if (write)
                {
                    for (int i = 0; i < MAX_THREADS; ++i) if (c->r[i] > t.vc[i]) race("a write", p + k, i);
                    c->wclk = t.vc[R.cur];
                    c->wtid = R.cur;
                }
                else c->r[R.cur] = t.vc[R.cur];
            }
        }
        --R.in;
    }

    // byte state of the arena: 0 never allocated, 1 alive, 2 dead
    uint8_t *bytes()
    {
        static uint8_t *b = (uint8_t *) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        return b;
    }

    void checkAlive(uintptr_t p, size_t n)
    {
        uintptr_t a = (uintptr_t) R.arena;
        if (p < a || p >= a + ARENA) return;
        uint8_t *b = bytes() + (p - a);
        for (size_t k = 0; k < n; ++k) if (b[k] != 1) failNow("released-memory", b[k] == 2 ? "access to released memory" : "access beyond an allocated block");
    }

    void *allocate(size_t n, size_t align)
    {
        ++R.in;
        if (align < 16) align = 16;
        size_t at = (R.used + HEADER + align - 1) / align * align;
        if (at + n + 16 > ARENA) { fprintf(stderr, "sched: arena is exhausted\n"); abort(); }
        char *p = R.arena + at;
        Header *h = (Header *) (p - HEADER);
        h->size = n;
        h->state = ALIVE;
        memset(bytes() + at, 1, n);
        memset(p, sched::fill, n);
        R.used = at + n + 16;
        ++R.live;
        --R.in;
        return p;
    }

    bool inArena(const void *p) { return R.arena != NULL && (const char *) p >= R.arena && (const char *) p < R.arena + ARENA; }

    void release(void *p)
    {
        Header *h = (Header *) ((char *) p - HEADER);
        if (R.on && !R.in)
        {
            if (h->state != ALIVE) failNow("released-memory", "a block of memory is released twice");
            access(p, h->size, true);
        }
        ++R.in;
        if (h->state == ALIVE)
        {
            h->state = DEAD;
            memset(bytes() + ((char *) p - R.arena), 2, h->size);
            memset(p, 0xdd, h->size);
            --R.live;
        }
        --R.in;
    }

    void *newMemory(size_t n)
    {
        if (R.on && !R.in) return allocate(n, 16);
        void *p = __real_malloc(n ? n : 1);
        if (p == NULL) throw std::bad_alloc();
        return p;
    }
    void deleteMemory(void *p)
    {
        if (p == NULL) return;
        if (inArena(p)) release(p); else __real_free(p);
    }
}

extern "C" void *__wrap_malloc(size_t n) { return newMemory(n); }
extern "C" void __wrap_free(void *p) { deleteMemory(p); }
extern "C" void *__wrap_calloc(size_t n, size_t m) { void *p = newMemory(n * m); memset(p, 0, n * m); return p; }
extern "C" void *__wrap_realloc(void *, size_t) { fprintf(stderr, "sched: realloc\n"); abort(); }

void *operator new(size_t n) { return newMemory(n); }
void *operator new[](size_t n) { return newMemory(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return newMemory(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return newMemory(n); }
void operator delete(void *p) noexcept { deleteMemory(p); }
void operator delete[](void *p) noexcept { deleteMemory(p); }
void operator delete(void *p, size_t) noexcept { deleteMemory(p); }
void operator delete[](void *p, size_t) noexcept { deleteMemory(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { deleteMemory(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { deleteMemory(p); }

namespace sched
{
    Quiet::Quiet() { ++R.in; }
    Quiet::~Quiet() { --R.in; }
    bool active() { return R.on; }
    int self() { return R.cur; }
    uint64_t clock() { return R.path_steps; }
    uint64_t steps() { return R.steps; }
    uint64_t accesses() { return R.accesses; }
    size_t liveAllocations() { return R.live; }
    int heldBy(int t) { return R.t[t].held; }
    void fail(const std::string &key, const std::string &msg) { failNow(key, msg); }
    void read(const void *p, size_t n) { access(p, n, false); }
    void write(const void *p, size_t n) { access(p, n, true); }
    std::string positions()
    {
        In in;
        std::string s;
        for (int i = 0; i < R.n; ++i) s += std::to_string(R.t[i].steps) + "/" + std::to_string(R.t[i].state) + " ";
        return s;
    }

    static int create(const std::function<void ()> &f)
    {
        if (R.n >= MAX_THREADS) { fprintf(stderr, "sched: too many threads\n"); abort(); }
        int i = R.n++;
        Thread &t = R.t[i];
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = NULL;
        makecontext(&t.ctx, (void (*)()) entry, 1, i);
        t.f = f;
        t.state = Thread::READY;
        t.sync = NULL;
        t.steps = 0;
        t.held = 0;
        t.timed_out = false;
        t.local = true;
        memset(t.vc, 0, sizeof t.vc);
        memset(t.eh, 0, sizeof t.eh);
        return i;
    }

    void run(const std::function<void ()> &body, const Chooser &choose, const Tracer &trace, int preemptions)
    {
        init();
        ++R.path;
        memset(bytes(), 0, R.used);
        R.n = 0;
        R.cur = 0;
        R.preemptions = 0;
        R.bound = preemptions;
        R.used = 0;
        R.live = 0;
        R.progress = 1;
        R.path_steps = 0;
        R.failed = false;
        R.globals->clear();
        R.atomics->clear();
        R.choose = choose;
        R.trace = trace;
        char eh[16];
        memcpy(eh, abi::__cxa_get_globals(), 16);
        R.in = 1;
        create(body);
        R.t[0].vc[0] = 1;
        int idle = 0, last = 0;
        for (;;)
        {
            // steps up to the next synchronisation operation are independent of the other threads (races are detected)
            int eager = -1;
            for (int i = 0; i < R.n && eager < 0; ++i)
            {
                Thread &t = R.t[i];
                if ((t.local || t.state == Thread::JOIN || t.state == Thread::SLEEP || t.state == Thread::AWAIT) && enabled(i)) eager = i;
            }
            int list[MAX_THREADS], n = 0;
            bool cur = R.n > 0 && enabled(last);
            bool voluntary = R.t[last].state == Thread::TIMED_WAIT;
            if (eager >= 0) list[n++] = eager;
            else
            {
                if (cur) list[n++] = last;
                for (int i = 0; i < R.n; ++i) if ((i != last || !cur) && enabled(i)) list[n++] = i;
            }
            bool done = true, sleepers = false;
            for (int i = 0; i < R.n; ++i)
            {
                if (R.t[i].state != Thread::DONE) done = false;
                if (R.t[i].state == Thread::SLEEP || (R.t[i].state == Thread::TIMED_WAIT && R.t[i].sync->owner < 0)) sleepers = true;
            }
            if (done) break;
            if (n == 0)
            {
                if (!sleepers || ++idle > 64)
                {
                    R.failed = true;
                    R.error.key = sleepers ? "no-termination" : "deadlock";
                    R.error.msg = "threads cannot finish:";
                    for (int i = 0; i < R.n; ++i) R.error.msg += " thread " + std::to_string(i) + " " + NAMES[R.t[i].state] + ";";
                    break;
                }
                ++R.progress;       // time passes
                continue;
            }
            if (++R.path_steps > limit)
            {
                R.failed = true;
                R.error.key = "no-termination";
                R.error.msg = "threads do not finish";
                break;
            }
            int pick = 0;
            if (n > 1)
            {
                if (cur && !voluntary && R.preemptions >= R.bound) pick = 0;
                else
                {
                    pick = R.choose(n, "thread");
                    if (cur && !voluntary && pick != 0) ++R.preemptions;
                }
            }
            int i = list[pick];
            if (R.trace) R.trace("thread " + std::to_string(i) + " (" + NAMES[R.t[i].state] + ") runs");
            if (R.t[i].state == Thread::TIMED_WAIT) R.t[i].timed_out = true;
            if (R.t[i].state != Thread::SLEEP && R.t[i].state != Thread::TIMED_WAIT) idle = 0;
            R.cur = i;
            if (eager < 0) last = i;
            R.t[i].local = false;
            swapcontext(&R.controller, &R.t[i].ctx);
            R.on = false;
            R.in = 1;
            memcpy(abi::__cxa_get_globals(), eh, 16);
            if (R.failed) break;
        }
        R.in = 0;
        for (int i = 0; i < R.n; ++i) R.t[i].f = std::function<void ()>();
        for (int i = 0; i < R.n; ++i) R.t[i].condition = std::function<bool ()>();
        if (R.failed) throw R.error;
    }

    int spawn(const std::function<void ()> &f)
    {
        In in;
        Thread &me = R.t[R.cur];
        int i = create(f);
        joinClock(R.t[i].vc, me.vc);
        R.t[i].vc[i] = 1;
        ++me.vc[R.cur];
        progress();
        me.state = Thread::READY;
        me.local = true;
        schedule();
        return i;
    }

    void join(int thread)
    {
        In in;
        Thread &me = R.t[R.cur];
        me.state = Thread::JOIN;
        me.target = thread;
        schedule();
        me.state = Thread::READY;
        joinClock(me.vc, R.t[thread].vc);
        progress();
    }

    void sleep()
    {
        In in;
        Thread &me = R.t[R.cur];
        me.state = Thread::SLEEP;
        me.slept_at = R.progress;
        schedule();
        me.state = Thread::READY;
    }

    void await(const std::function<bool ()> &condition)
    {
        In in;
        Thread &me = R.t[R.cur];
        me.condition = condition;
        me.state = Thread::AWAIT;
        schedule();
        me.state = Thread::READY;
        me.condition = std::function<bool ()>();
        progress();
    }

    void point(const char *)
    {
        In in;
        R.t[R.cur].state = Thread::READY;
        schedule();
        progress();
    }

    static Sync *makeSync()
    {
        Sync *s = new Sync();
        s->owner = -1;
        memset(s->vc, 0, sizeof s->vc);
        return s;
    }

    Mutex::Mutex() { In in; s_ = makeSync(); }
    Mutex::~Mutex() { In in; if (R.on && s_->owner >= 0) failNow("mutex", "a locked mutex is destroyed"); delete s_; }
    static void acquire(Sync *s)
    {
        Thread &me = R.t[R.cur];
        me.state = Thread::LOCK;
        me.sync = s;
        schedule();
        me.state = Thread::READY;
        s->owner = R.cur;
        ++me.held;
        joinClock(me.vc, s->vc);
    }
    static void releaseSync(Sync *s)
    {
        Thread &me = R.t[R.cur];
        if (s->owner != R.cur) failNow("mutex", "a mutex is unlocked by a thread which does not own it");
        s->owner = -1;
        --me.held;
        joinClock(s->vc, me.vc);
        ++me.vc[R.cur];
    }
    void Mutex::lock()
    {
        if (!R.on) return;
        In in;
        acquire(s_);
    }
    bool Mutex::try_lock()
    {
        if (!R.on) return true;
        In in;
        R.t[R.cur].state = Thread::READY;
        schedule();
        if (s_->owner >= 0) return false;
        s_->owner = R.cur;
        ++R.t[R.cur].held;
        joinClock(R.t[R.cur].vc, s_->vc);
        return true;
    }
    void Mutex::unlock()
    {
        if (!R.on) return;
        In in;
        releaseSync(s_);
        // an empty critical section of a polling thread is no progress for others; anything else may be
        progress();
    }

    Condition::Condition() { In in; s_ = makeSync(); }
    Condition::~Condition() { In in; delete s_; }
    void Condition::wait(Mutex &m)
    {
        In in;
        Thread &me = R.t[R.cur];
        Sync *ms = *(Sync **) &m;
        releaseSync(ms);
        s_->waiters.push_back(R.cur);
        me.state = Thread::WAIT;
        me.sync = ms;
        schedule();         // notify() changes the state to LOCK
        me.state = Thread::READY;
        ms->owner = R.cur;
        ++me.held;
        joinClock(me.vc, ms->vc);
    }
    bool Condition::timedWait(Mutex &m)
    {
        In in;
        Thread &me = R.t[R.cur];
        Sync *ms = *(Sync **) &m;
        releaseSync(ms);
        s_->waiters.push_back(R.cur);
        me.state = Thread::TIMED_WAIT;
        me.sync = ms;
        me.timed_out = false;
        me.slept_at = R.progress;
        schedule();
        me.state = Thread::READY;
        for (size_t i = 0; i < s_->waiters.size(); ++i) if (s_->waiters[i] == R.cur) { s_->waiters.erase(s_->waiters.begin() + i); break; }
        ms->owner = R.cur;
        ++me.held;
        joinClock(me.vc, ms->vc);
        bool notified = !me.timed_out;
        me.timed_out = false;
        return notified;
    }
    void Condition::notify(bool all)
    {
        In in;
        while (!s_->waiters.empty())
        {
            size_t k = 0;
            if (!all && s_->waiters.size() > 1) k = R.choose(s_->waiters.size(), "who is notified");
            Thread &t = R.t[s_->waiters[k]];
            s_->waiters.erase(s_->waiters.begin() + k);
            t.state = Thread::LOCK;
            if (!all) break;
        }
        progress();
    }
}

// ---------------------------------------------------------------- instrumentation
using sched::Sync;
namespace
{
    Sync &atomicSync(volatile void *p)
    {
        uintptr_t a = (uintptr_t) p;
        auto it = R.atomics->find(a);
        if (it == R.atomics->end())
        {
            it = R.atomics->insert(std::make_pair(a, Sync())).first;
            it->second.owner = -1;
            memset(it->second.vc, 0, sizeof it->second.vc);
        }
        return it->second;
    }
    void atomicPoint(const volatile void *p, size_t n, bool write)
    {
        if (!R.on || R.in) return;
        In in;
        uintptr_t a = (uintptr_t) p;
        if (!(a >= R.stacks_lo && a < R.stacks_hi))
        {
            uintptr_t ar = (uintptr_t) R.arena;
            if (!(a >= ar && a < ar + ARENA)) return;       // guards of static variables, reference counters of libraries
            checkAlive(a, n);
        }
        Thread &me = R.t[R.cur];
        me.state = Thread::READY;
        schedule();
        Sync &s = atomicSync((volatile void *) p);
        joinClock(me.vc, s.vc);
        if (write)
        {
            joinClock(s.vc, me.vc);
            ++me.vc[R.cur];
            progress();
        }
    }
}

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false); } \
    void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true); }
    void __tsan_vptr_read(void **p) { access(p, 8, false); }
    void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
    void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
    void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
    void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
    void *__tsan_memset(void *d, int v, unsigned long n) { access(d, n, true); return memset(d, v, n); }
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { atomicPoint(p, sizeof(T), false); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atomicPoint(p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atomicPoint(p, sizeof(T), true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atomicPoint(p, sizeof(T), true); T o = *p; if (o == e) *p = v; return o; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
}
