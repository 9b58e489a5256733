// C24: the threaded logger under all schedules: nothing is lost, duplicated, reordered, torn, raced, leaked or blocked.
#define MC_OWN_NEW     // see sched/mcsched.cpp
#include "mc.h"
#include "humoto/humoto.h"
#include "mcsched.h"
#include <memory>

namespace
{
    // an output device: remembers what was written and flushed, by whom
    class Sink : public std::streambuf
    {
        public:
            std::string text;
            size_t flushed;
            bool slow;
            Sink() : flushed(0), slow(false) {}
        protected:
            void use()
            {
                if (!sched::active()) return;
                sched::write(this, 1);
                if (slow)
                {
                    if (sched::heldBy(sched::self()) != 0) sched::fail("blocking-output", "a mutex is held during the output, log() has to wait for the device");
                    slow = false;
                    sched::point("output");
                }
            }
            virtual int overflow(int ch) { use(); sched::Quiet q; if (ch != EOF) text += (char) ch; return ch == EOF ? 0 : ch; }
            virtual std::streamsize xsputn(const char *s, std::streamsize n) { use(); sched::Quiet q; text.append(s, n); return n; }
            virtual int sync() { use(); sched::Quiet q; flushed = text.size(); return 0; }
    };
    struct Device
    {
        Sink sink;
        std::ostream stream;
        Device() : stream(&sink) {}
    };

    struct LogFile
    {
        int fd;
        std::string path;
        LogFile() { fd = memfd_create("log", 0); path = "/proc/self/fd/" + std::to_string(fd); }
        ~LogFile() { close(fd); }
        std::string get() const
        {
            std::string s;
            char b[4096];
            off_t at = 0;
            ssize_t n;
            while ((n = pread(fd, b, sizeof b, at)) > 0) { s.append(b, n); at += n; }
            return s;
        }
    };

    // columns of matrices are aligned with spaces
    std::string plain(const std::string &s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) if (s[i] != ' ' || (!r.empty() && r.back() != '\n' && r.back() != '[')) r += s[i];
        return r;
    }

    std::string number(double v) { char b[64]; snprintf(b, sizeof b, "%.15g", v); return b; }

    // a message of one of the kinds; the data is destroyed or overwritten as soon as log() returns.
    // Returns the text which must appear in the log.
    const int KINDS = 8;
    double value(int id) { return 10 + id + 1.0 / 3.0; }
    std::string textOf(int kind, int id)
    {
        std::string n = "m" + std::to_string(id);
        double v = value(id);
        switch (kind)
        {
            case 0: return n + " = " + std::to_string(id) + ";\n";
            case 1: return n + " = " + number(v) + ";\n";
            case 2: return n + " = 'string " + std::to_string(id) + "';\n";
            case 3: return n + " = 'chars " + std::to_string(id) + "';\n";
            case 4: return n + " = [" + number(v) + ";" + number(v + 1) + "];\n";
            case 5: return n + " = ...\n[" + number(v) + ", " + number(v + 1) + ";\n" + number(2 * v) + ", " + number(v) + "];\n";
            case 6: return n + " = ...\n[" + number(2 * v) + ";\n" + number(4 * v) + "];\n";
            default: return "raw message number " + std::to_string(id) + "\n";
        }
    }
    void send(humoto::Logger &logger, int kind, int id)
    {
        char name[32], text[64];
        snprintf(name, sizeof name, "m%d", id);
        humoto::LogEntryName *entry = new humoto::LogEntryName(name);
        double v = value(id);
        switch (kind)
        {
            case 0: { int *i = new int(id); logger.log(*entry, *i); *i = -1; delete i; break; }
            case 1: { double *d = new double(v); logger.log(*entry, *d); *d = -1; delete d; break; }
            case 2:
            {
                snprintf(text, sizeof text, "string %d", id);
                std::string *s = new std::string(text);
                logger.log(*entry, *s);
                (*s)[0] = '?';
                delete s;
                break;
            }
            case 3:
            {
                char *s = new char[64];
                snprintf(s, 64, "chars %d", id);
                logger.log(*entry, (const char *) s);
                s[0] = '?';
                delete[] s;
                break;
            }
            case 4:
            {
                std::vector<double> *d = new std::vector<double>();
                d->push_back(v);
                d->push_back(v + 1);
                logger.log(*entry, *d);
                (*d)[0] = -1;
                delete d;
                break;
            }
            case 5:
            {
                etools::Matrix2 *m = new etools::Matrix2();
                *m << v, v + 1, 2 * v, v;
                logger.log(*entry, *m);
                m->setZero();
                delete m;
                break;
            }
            case 6:
            {
                Eigen::VectorXd *m = new Eigen::VectorXd(3);
                *m << v, 2 * v, 5;
                logger.log(*entry, 2.0 * m->head(2));
                m->setZero();
                delete m;
                break;
            }
            default:
            {
                char *s = new char[64];
                snprintf(s, 64, "raw message number %d", id);
                logger.log((const char *) s);
                s[0] = '?';
                delete[] s;
            }
        }
        entry->add("overwritten");
        delete entry;
    }

    struct Sent { int kind, id; uint64_t from, to; };
    struct History
    {
        std::vector<Sent> sent;
        void log(humoto::Logger &logger, int kind, int id)
        {
            Sent s;
            s.kind = kind; s.id = id; s.from = sched::clock(); s.to = 0;
            size_t at;
            { sched::Quiet q; at = sent.size(); sent.push_back(s); }
            send(logger, kind, id);
            { sched::Quiet q; sent[at].to = sched::clock(); }
        }
    };

    // the log consists of the messages, each exactly once, in an order compatible with the order of the calls
    void verify(mc::Ctx &c, const std::vector<Sent> &sent, const std::string &output, const char *what)
    {
        std::string text = plain(output);
        std::vector<int> order;
        size_t at = 0;
        while (at < text.size())
        {
            int found = -1;
            for (size_t i = 0; i < sent.size(); ++i)
            {
                std::string t = textOf(sent[i].kind, sent[i].id);
                if (text.compare(at, t.size(), t) == 0) { found = i; at += t.size(); break; }
            }
            c.check(found >= 0, "torn-entry", std::string(what) + ": unexpected output: " + text.substr(at) + "\nwhole output: " + text);
            for (size_t k = 0; k < order.size(); ++k) c.check(order[k] != found, "duplicated-entry", std::string(what) + ": " + text);
            for (size_t k = 0; k < order.size(); ++k)
                c.check(!(sent[found].to < sent[order[k]].from), "order", std::string(what) + ": a message was written after one which was logged later: " + text);
            order.push_back(found);
        }
        c.check(order.size() == sent.size(), "lost-entry", std::string(what) + ": " + std::to_string(sent.size()) + " messages were logged, output: " + text);
    }

    void execute(mc::Ctx &c, const std::function<void ()> &body, int preemptions)
    {
        uint64_t before = sched::steps();
        sched::Tracer trace;
        if (c.verbose) trace = [&c](const std::string &s) { c.note(s); };
        try
        {
            sched::run([&]()
            {
                try { body(); }
                catch (const mc::Failure &f) { sched::fail(f.key, f.msg); }
            }, [&c](uint32_t n, const char *l) { uint32_t v = c.choose(n, l); c.state(sched::positions()); return v; }, trace, preemptions);
        }
        catch (const sched::Error &e) { c.fail(e.key, e.msg); }
        c.transitions += sched::steps() - before;
        c.checks += 1;
    }
}

// several threads log through one logger
MC_SCENARIO(producers, 24, 5)
{
    static const int SHAPES[][4] = {{1, 0, 0, 2}, {1, 0, 0, 4}, {2, 0, 0, 1}, {1, 1, 0, 1}, {2, 1, 0, 1}, {2, 2, 0, 0}, {1, 1, 1, 0}, {2, 2, 0, 1}, {1, 1, 1, 1}, {2, 2, 1, 0}, {3, 2, 0, 0}, {4, 0, 0, 0}};
    int shape = c.range(0, c.thorough ? 11 : 8, "messages of the threads");
    int start = c.range(0, 2, "way of initialisation");
    int end = c.range(0, 2, "way of finishing");
    int kind = c.range(0, KINDS - 1, "kind of messages");
    if (!c.thorough && kind != (shape * 5 + start * 3 + end) % KINDS) throw mc::Prune();
    bool slow = c.flip("slow device");
    Device a, b;
    a.sink.slow = slow;
    sched::fill = shape % 2 ? 0xcd : 0;
    History h, later;
    int parts = 0;
    c.step("start");
    execute(c, [&]()
    {
        std::unique_ptr<humoto::Logger> logger;
        int id = 0;
        if (start == 0) logger.reset(new humoto::Logger(a.stream));
        else
        {
            logger.reset(new humoto::Logger());
            if (start == 2) h.log(*logger, kind, id++);     // waits for the initialisation
            logger->initialize(a.stream);
        }
        std::vector<int> threads;
        for (int p = 0; p < 3; ++p)
        {
            int n = SHAPES[shape][p];
            if (n == 0) continue;
            int first = id;
            id += n;
            int t = sched::spawn([&, p, n, first]() { for (int i = 0; i < n; ++i) h.log(*logger, (kind + i + p) % KINDS, first + i); });
            sched::Quiet q;
            threads.push_back(t);
        }
        for (int i = 0; i < SHAPES[shape][3]; ++i) { h.log(*logger, (kind + 3) % KINDS, id); ++id; }
        for (size_t i = 0; i < threads.size(); ++i) sched::join(threads[i]);
        if (end == 1)
        {
            logger->initialize(b.stream);
            {
                sched::Quiet q;
                verify(c, h.sent, a.sink.text, "the first device after the change of the device");
                c.check(a.sink.flushed == a.sink.text.size(), "flush", "the first device is flushed");
            }
            later.log(*logger, kind, id++);
        }
        if (end == 2)
        {
            // everything is written and flushed without any further calls
            size_t expected = 0;
            {
                sched::Quiet q;
                for (size_t i = 0; i < h.sent.size(); ++i) expected += textOf(h.sent[i].kind, h.sent[i].id).size();
            }
            sched::await([&a, expected]() { return a.sink.flushed == a.sink.text.size() && plain(a.sink.text).size() == expected; });
        }
        logger.reset();
        {
            sched::Quiet q;
            threads = std::vector<int>();
        }
    }, c.thorough ? 3 : 2);
    verify(c, h.sent, a.sink.text, "the device");
    c.check(a.sink.flushed == a.sink.text.size(), "flush", "the device is flushed");
    verify(c, later.sent, b.sink.text, "the second device");
    c.check(b.sink.flushed == b.sink.text.size(), "flush", "the second device is flushed");
    c.check(sched::liveAllocations() == 0, "leak", std::to_string(sched::liveAllocations()) + " blocks of memory are not released");
}

// long queues
MC_SCENARIO(backlog, 16, 4)
{
    static const int LENGTHS[] = {17, 70, 140, 300, 1100};
    int length = c.range(0, 4, "messages"), n = LENGTHS[length];
    int start = c.range(0, 1, "logged before the initialisation");
    int end = c.range(0, 2, "way of finishing");
    int bursts = c.range(1, 3, "bursts");
    Device a, b;
    a.sink.slow = false;
    sched::fill = length % 2 ? 0xcd : 0;
    std::string expected;
    struct Limit { uint64_t old; explicit Limit(uint64_t x) : old(sched::limit) { sched::limit = x; } ~Limit() { sched::limit = old; } } limit(1500 + 20 * n * bursts);
    execute(c, [&]()
    {
        std::unique_ptr<humoto::Logger> logger(start ? new humoto::Logger() : new humoto::Logger(a.stream));
        int id = 0;
        for (int k = 0; k < bursts; ++k)
        {
            for (int i = 0; i < n; ++i)
            {
                send(*logger, id % KINDS, id);
                sched::Quiet q;
                expected += textOf(id % KINDS, id);
                ++id;
            }
            if (start && k == 0) logger->initialize(a.stream);
            else sched::sleep();
        }
        if (end == 1) { logger->initialize(b.stream); sched::Quiet q; c.check(plain(a.sink.text) == expected && a.sink.flushed == a.sink.text.size(), "previous-output", "an output is complete after the logger has got another one"); }
        if (end == 2) { size_t all = expected.size(); sched::await([&a, all]() { return a.sink.flushed == a.sink.text.size() && plain(a.sink.text).size() == all; }); }
        logger.reset();
    }, n <= (c.thorough ? 140 : 17) ? 1 : 0);
    c.check(plain(a.sink.text) == expected, "output", "a log of " + std::to_string(n * bursts) + " messages is not complete: " + std::to_string(plain(a.sink.text).size()) + " of " + std::to_string(expected.size()) + " characters");
    c.check(a.sink.flushed == a.sink.text.size(), "flush", "the device is flushed");
    c.check(b.sink.text.empty(), "output", "nothing was logged to the second device");
    c.check(sched::liveAllocations() == 0, "leak", std::to_string(sched::liveAllocations()) + " blocks of memory are not released");
}

// histories of operations on one logger
MC_SCENARIO(histories, 24, 4)
{
    int depth = c.thorough ? 5 : 4;
    int start = c.range(0, 2, "constructor");
    std::vector<int> ops;
    static const char *NAMES[] = {"log", "stream A", "stream B", "file 1", "file 2", "bad file", "wait"};
    for (int i = 0; i < depth; ++i)
    {
        int op = c.range(0, 7, "operation");
        if (op == 7) break;
        ops.push_back(op);
    }
    sched::fill = (ops.size() + start) % 2 ? 0xcd : 0;   // of new memory
    Device dev[2];
    LogFile file[2];
    std::string expected[4], pending;
    int current = -1;
    auto initialised = [&](int k)
    {
        current = k;
        if (k >= 2) expected[k].clear();
        expected[k] += pending;
        pending.clear();
    };
    if (start == 1) initialised(0);
    if (start == 2) initialised(2);
    std::string lastly[4];
    execute(c, [&]()
    {
        humoto::Logger *logger = start == 0 ? new humoto::Logger() : (start == 1 ? new humoto::Logger(dev[0].stream) : new humoto::Logger(file[0].path));
        int id = 0;
        for (size_t i = 0; i < ops.size(); ++i)
        {
            { sched::Quiet q; c.step(NAMES[ops[i]]); }
            switch (ops[i])
            {
                case 0:
                {
                    send(*logger, (id + start) % KINDS, id);
                    sched::Quiet q;
                    (current < 0 ? pending : expected[current]) += textOf((id + start) % KINDS, id);
                    ++id;
                    break;
                }
                case 1: case 2: { logger->initialize(dev[ops[i] - 1].stream); sched::Quiet q; initialised(ops[i] - 1); break; }
                case 3: case 4:
                {
                    logger->initialize(file[ops[i] - 3].path);
                    sched::Quiet q;
                    initialised(ops[i] - 1);
                    break;
                }
                case 5:
                {
                    bool failed = false;
                    try { logger->initialize("/proc/self/no_such_directory/log"); } catch (const std::runtime_error &) { failed = true; }
                    sched::Quiet q;
                    c.check(failed, "bad-file", "a file which cannot be opened must be reported");
                    current = -1;
                    break;
                }
                case 6: sched::sleep(); break;
            }
            // what went to the previous outputs is complete
            sched::Quiet q;
            for (int k = 0; k < 4; ++k)
            {
                if (k == current) continue;
                c.check(plain(k < 2 ? dev[k].sink.text : file[k - 2].get()) == expected[k], "previous-output", "an output is complete after the logger has got another one: got " + (k < 2 ? dev[k].sink.text : file[k - 2].get()) + "\nexpected " + expected[k]);
            }
        }
        delete logger;
    }, c.thorough ? 2 : 1);
    for (int k = 0; k < 4; ++k)
    {
        std::string got = k < 2 ? dev[k].sink.text : file[k - 2].get();
        c.check(plain(got) == expected[k], "output", "output " + std::to_string(k) + ": got " + got + "\nexpected " + expected[k]);
        if (k < 2) c.check(dev[k].sink.flushed == got.size(), "flush", "a stream is flushed");
    }
    c.check(sched::liveAllocations() == 0, "leak", std::to_string(sched::liveAllocations()) + " blocks of memory are not released");
}
