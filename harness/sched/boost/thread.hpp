// Stands in for <boost/thread.hpp>: the part of its interface used for logging, on top of the controlled scheduler.
#pragma once
#include <functional>
#include <boost/chrono/duration.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/atomic.hpp>
#include "mcsched.h"

namespace boost { template<class M> class unique_lock; }
namespace boost
{
    class mutex : public sched::Mutex { public: typedef boost::unique_lock<mutex> scoped_lock; };
    struct defer_lock_t {}; struct adopt_lock_t {}; struct try_to_lock_t {};
    static const defer_lock_t defer_lock = {};
    static const adopt_lock_t adopt_lock = {};

    template<class M> class unique_lock
    {
        public:
            unique_lock() : m_(NULL), own_(false) {}
            explicit unique_lock(M &m) : m_(&m), own_(false) { lock(); }
            unique_lock(M &m, defer_lock_t) : m_(&m), own_(false) {}
            unique_lock(M &m, adopt_lock_t) : m_(&m), own_(true) {}
            unique_lock(unique_lock &&o) : m_(o.m_), own_(o.own_) { o.m_ = NULL; o.own_ = false; }
            ~unique_lock() { if (own_) m_->unlock(); }
            void lock() { m_->lock(); own_ = true; }
            bool try_lock() { return own_ = m_->try_lock(); }
            void unlock() { m_->unlock(); own_ = false; }
            bool owns_lock() const { return own_; }
            M *mutex() const { return m_; }
        private:
            M *m_;
            bool own_;
            unique_lock(const unique_lock &); unique_lock &operator=(const unique_lock &);
    };
    template<class M> class lock_guard
    {
        public:
            explicit lock_guard(M &m) : m_(m) { m_.lock(); }
            lock_guard(M &m, adopt_lock_t) : m_(m) {}
            ~lock_guard() { m_.unlock(); }
        private:
            M &m_;
            lock_guard(const lock_guard &); lock_guard &operator=(const lock_guard &);
    };

    struct cv_status { enum type { no_timeout, timeout }; };
    class condition_variable
    {
        public:
            template<class L> void wait(L &l) { c_.wait(*l.mutex()); }
            template<class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
            template<class L, class D> cv_status::type wait_for(L &l, const D &) { return c_.timedWait(*l.mutex()) ? cv_status::no_timeout : cv_status::timeout; }
            template<class L, class D, class P> bool wait_for(L &l, const D &d, P p) { while (!p()) if (wait_for(l, d) == cv_status::timeout) return p(); return true; }
            template<class L, class D> bool timed_wait(L &l, const D &d) { return wait_for(l, d) == cv_status::no_timeout; }
            void notify_one() { c_.notify(false); }
            void notify_all() { c_.notify(true); }
        private:
            sched::Condition c_;
    };
    typedef condition_variable condition_variable_any;

    class thread
    {
        public:
            thread() : id_(-1) {}
            template<class F, class... A> explicit thread(F f, A... a) { id_ = sched::spawn(std::bind(f, a...)); }
            thread(thread &&o) : id_(o.id_) { o.id_ = -1; }
            thread &operator=(thread &&o) { id_ = o.id_; o.id_ = -1; return *this; }
            void swap(thread &o) { std::swap(id_, o.id_); }
            bool joinable() const { return id_ >= 0; }
            void join() { if (id_ < 0) throw std::runtime_error("boost thread: trying joining a thread which is not joinable"); sched::join(id_); id_ = -1; }
            void detach() { id_ = -1; }
        private:
            int id_;
            thread(const thread &); thread &operator=(const thread &);
    };

    namespace this_thread
    {
        template<class D> void sleep_for(const D &) { sched::sleep(); }
        template<class D> void sleep(const D &) { sched::sleep(); }
        inline void yield() { sched::sleep(); }
    }
}
