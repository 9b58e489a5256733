// Controlled scheduler: threads of the code under test are coroutines, every synchronisation operation is a point at
// which the explorer decides who runs next; all memory accesses (clang's thread sanitizer instrumentation is bound to
// this runtime instead of the one of the sanitizer) are checked for data races and for use of released memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sched
{
    struct Error { std::string key, msg; };

    // called by the scheduler: number of alternatives, label -> chosen alternative
    typedef std::function<uint32_t (uint32_t, const char *)> Chooser;
    typedef std::function<void (const std::string &)> Tracer;

    // runs 'body' as thread 0 until all threads have finished; throws Error
    void run(const std::function<void ()> &body, const Chooser &choose, const Tracer &trace, int preemptions);
    bool active();                              // executed by a thread of the scheduler?

    int  self();
    int  spawn(const std::function<void ()> &f);
    void join(int thread);
    void sleep();                               // lets others run
    void await(const std::function<bool ()> &condition);     // the thread continues as soon as the condition holds
    void point(const char *what);               // scheduling point
    void fail(const std::string &key, const std::string &msg);
    uint64_t clock();                           // number of executed synchronisation operations
    uint64_t steps();                           // all paths
    uint64_t accesses();                        // all paths: checked memory accesses
    extern int fill;                            // contents of new memory
    extern uint64_t limit;                      // of steps of one path
    std::size_t liveAllocations();              // of the threads of this path
    int heldBy(int thread);                     // number of mutexes held by a thread
    std::string positions();                    // how far each thread is
    // code of the harness: neither checked nor counted
    struct Quiet { Quiet(); ~Quiet(); };
    // accesses of the harness on behalf of libraries which are not instrumented
    void read(const void *p, std::size_t n);
    void write(const void *p, std::size_t n);

    struct Sync;
    class Mutex
    {
        public:
            Mutex(); ~Mutex();
            void lock(); bool try_lock(); void unlock();
        private:
            Sync *s_;
            Mutex(const Mutex &); Mutex &operator=(const Mutex &);
    };
    class Condition
    {
        public:
            Condition(); ~Condition();
            void wait(Mutex &m);
            bool timedWait(Mutex &m);           // may time out at any moment
            void notify(bool all);
        private:
            Sync *s_;
            Condition(const Condition &); Condition &operator=(const Condition &);
    };
}
