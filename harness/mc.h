// Bounded exhaustive explorer (stateless model checking of the real code).
//
// A scenario is a function of a Ctx. Every nondeterministic decision (which operation, which
// shape, which value, which thread runs) is made with Ctx::choose(); the explorer re-executes the
// scenario once for every path of the resulting choice tree (depth-first, no sampling). A path is
// identified by (scenario, choice vector), which is what a replay file stores.
#pragma once

#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>

namespace mc
{
    struct EigenAssertion : public std::logic_error
    {
        explicit EigenAssertion(const char *m) : std::logic_error(std::string("Eigen assertion failed: ") + m) {}
    };
}
// Eigen assertions are turned into exceptions: the harness treats an exception where the model
// predicts a value as a violation, and an uncontained abort would hide the rest of the exploration.
#ifndef eigen_assert
#define eigen_assert(x) do { if (!(x)) { throw mc::EigenAssertion(#x); } } while (false)
#endif

namespace mc
{
    struct Failure
    {
        std::string key;
        std::string msg;
    };
    struct Prune {};          // this combination is outside of the stated bound
    struct SkipShard {};      // path belongs to another worker

    inline double now()
    {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + 1e-9 * ts.tv_nsec;
    }

    struct Shared
    {
        volatile uint64_t executions;
        volatile uint32_t n;
        volatile uint32_t c[4096];
    };

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 33;
        return h;
    }
    inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
    {
        const unsigned char *b = (const unsigned char *) p;
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
        return h;
    }

    static uint64_t allocations = 0;    // of this path, see operator new
}

#ifndef MC_OWN_NEW
// nothing may rely on the previous contents of memory
#include <new>
void *operator new(std::size_t n)
{
    void *p = malloc(n ? n : 1);
    if (p == NULL) throw std::bad_alloc();
    memset(p, (++mc::allocations * 0x9e3779b97f4a7c15ULL) >> 63 ? 0x55 : 0, n);
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
#endif

namespace mc
{
    class Ctx
    {
        public:
            std::vector<uint32_t> prefix;
            std::vector<std::pair<uint32_t, uint32_t> > path;   // value, arity
            std::vector<std::string> trace;
            bool     verbose;
            bool     thorough;
            uint32_t shard, nshards, shard_depth;
            Shared  *shm;
            uint64_t transitions;
            uint64_t checks;
            std::unordered_set<uint64_t> states;
            uint64_t shash;
            std::string scenario;

            Ctx() : verbose(false), thorough(false), shard(0), nshards(1), shard_depth(1), shm(NULL), transitions(0), checks(0), shash(0) {}

            uint32_t choose(uint32_t n, const char *label = "")
            {
                if (n == 0) throw std::runtime_error("mc: empty choice");
                uint32_t v = 0;
                if (path.size() < prefix.size()) v = prefix[path.size()];
                if (v >= n) throw std::runtime_error("mc: stale choice vector");
                path.push_back(std::make_pair(v, n));
                if (shm != NULL && path.size() <= 4096)
                {
                    shm->c[path.size() - 1] = v;
                    shm->n = path.size();
                }
                if (verbose)
                {
                    std::stringstream s;
                    s << "choose " << label << " = " << v << " of " << n;
                    trace.push_back(s.str());
                }
                if (path.size() == shard_depth && nshards > 1)
                {
                    uint64_t h = 17;
                    for (size_t i = 0; i < path.size(); ++i) h = mix(h, path[i].first);
                    if (h % nshards != shard) throw SkipShard();
                }
                return v;
            }
            bool flip(const char *label = "") { return choose(2, label) == 1; }
            // inclusive range
            int range(int lo, int hi, const char *label = "") { return lo + (int) choose(hi - lo + 1, label); }
            template<class T> T pick(const std::vector<T> &v, const char *label = "") { return v[choose(v.size(), label)]; }
            template<class T, size_t N> T pick(const T (&v)[N], const char *label = "") { return v[choose(N, label)]; }

            // one transition of the system (an operation applied to the real code)
            void step(const std::string &what)
            {
                ++transitions;
                if (verbose) trace.push_back("step " + what);
            }
            void step(const char *what)
            {
                ++transitions;
                if (verbose) trace.push_back(std::string("step ") + what);
            }
            void note(const std::string &what)
            {
                if (verbose) trace.push_back("note " + what);
            }
            // canonical state reached
            void state(uint64_t h) { states.insert(mix(hashBytes(scenario.data(), scenario.size()), h)); }
            void state(const std::string &s) { state(hashBytes(s.data(), s.size())); }

            void fail(const std::string &key, const std::string &msg)
            {
                Failure f;
                f.key = key;
                f.msg = msg;
                throw f;
            }
            void check(bool ok, const char *key, const char *msg = "")
            {
                ++checks;
                if (!ok) fail(key, msg);
            }
            void check(bool ok, const char *key, const std::string &msg)
            {
                ++checks;
                if (!ok) fail(key, msg);
            }
            void near(double a, double b, const char *key, const char *what = "", double tol = 1e-9)
            {
                ++checks;
                double scale = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
                if (!(a == b || std::fabs(a - b) <= tol * scale))
                {
                    std::stringstream s;
                    s << std::setprecision(17) << what << ": got " << a << ", expected " << b;
                    fail(key, s.str());
                }
            }
            template<class A, class B>
            void nearM(const A &a, const B &b, const char *key, const char *what = "", double tol = 1e-9)
            {
                ++checks;
                bool ok = (a.rows() == b.rows()) && (a.cols() == b.cols());
                if (ok)
                {
                    double scale = 1.0;
                    for (long i = 0; i < a.rows() && ok; ++i)
                        for (long j = 0; j < a.cols(); ++j)
                        {
                            double s = std::max(std::fabs((double) a(i,j)), std::fabs((double) b(i,j)));
                            if (s < 1e15 && s > scale) scale = s;
                        }
                    for (long i = 0; i < a.rows() && ok; ++i)
                        for (long j = 0; j < a.cols(); ++j)
                        {
                            double x = a(i,j), y = b(i,j);
                            if (!(x == y || std::fabs(x - y) <= tol * scale)) { ok = false; break; }
                        }
                }
                if (!ok)
                {
                    std::stringstream s;
                    s << std::setprecision(17) << what << ": got " << a.rows() << "x" << a.cols() << "\n" << a
                      << "\nexpected " << b.rows() << "x" << b.cols() << "\n" << b;
                    fail(key, s.str());
                }
            }
            void prune() { throw Prune(); }
    };

    typedef std::function<void(Ctx &)> Body;

    struct Scenario
    {
        std::string name;
        Body body;
        uint32_t shards;
        uint32_t depth;
        bool thorough_only;
    };

    inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }

    struct Register
    {
        Register(const char *name, Body b, uint32_t shards = 1, uint32_t depth = 1, bool thorough_only = false)
        {
            Scenario s;
            s.name = name; s.body = b; s.shards = shards; s.depth = depth; s.thorough_only = thorough_only;
            scenarios().push_back(s);
        }
    };

// MC_SCENARIO(name, shards, shard depth) { body using Ctx &c }
#define MC_SCENARIO(name, shards, depth) \
    static void mc_body_##name(mc::Ctx &c); \
    static mc::Register mc_reg_##name(#name, mc_body_##name, shards, depth); \
    static void mc_body_##name(mc::Ctx &c)
#define MC_SCENARIO_THOROUGH(name, shards, depth) \
    static void mc_body_##name(mc::Ctx &c); \
    static mc::Register mc_reg_##name(#name, mc_body_##name, shards, depth, true); \
    static void mc_body_##name(mc::Ctx &c)

    inline std::string jesc(const std::string &s)
    {
        std::string o;
        for (size_t i = 0; i < s.size(); ++i)
        {
            unsigned char ch = s[i];
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o;
    }

    // Runs one path. Returns 0 ok, 1 failure, 2 pruned, 3 other shard
    inline int runPath(const Scenario &s, Ctx &c, Failure &f)
    {
        allocations = 0;
        c.path.clear();
        c.trace.clear();
        c.scenario = s.name;
        try
        {
            s.body(c);
        }
        catch (const Failure &x) { f = x; return 1; }
        catch (const Prune &) { return 2; }
        catch (const SkipShard &) { return 3; }
        catch (const std::exception &e) { f.key = "unexpected-exception"; f.msg = e.what(); return 1; }
        return 0;
    }

    inline bool advance(Ctx &c)
    {
        while (!c.path.empty() && c.path.back().first + 1 >= c.path.back().second) c.path.pop_back();
        if (c.path.empty()) return false;
        c.path.back().first += 1;
        c.prefix.resize(c.path.size());
        for (size_t i = 0; i < c.path.size(); ++i) c.prefix[i] = c.path[i].first;
        return true;
    }

    struct Result
    {
        uint64_t executions, transitions, checks, pruned;
        bool timeout;
        std::vector<std::pair<std::vector<uint32_t>, Failure> > failures;
        Result() : executions(0), transitions(0), checks(0), pruned(0), timeout(false) {}
    };

    inline std::string keyOf(const std::string &scenario, const std::string &key) { return scenario + "/" + key; }

    // worker: explores its part and writes <out>.json-ish text + <out>.st (state hashes)
    inline void worker(const Scenario &s, uint32_t shard, bool thorough, Shared *shm, const std::string &out,
                       const std::set<std::string> &known)
    {
        Ctx c;
        c.thorough = thorough;
        c.shard = shard;
        c.nshards = s.shards;
        c.shard_depth = s.depth;
        c.shm = shm;
        Result r;
        std::set<std::string> seen;
        std::ofstream log((out + ".txt").c_str());
        std::vector<uint32_t> sample;
        for (;;)
        {
            Failure f;
            int rc = runPath(s, c, f);
            if (rc == 3 || (c.path.size() < s.depth && s.shards > 1 && shard != 0 && rc != 3))
            {
                // not ours
            }
            else if (rc == 2) ++r.pruned;
            else
            {
                ++r.executions;
                shm->executions = shm->executions + 1;
                if (rc == 0 && sample.empty())
                {
                    for (size_t i = 0; i < c.path.size(); ++i) sample.push_back(c.path[i].first);
                    log << "S";
                    for (size_t i = 0; i < sample.size(); ++i) log << " " << sample[i];
                    log << "\n";
                }
                if (rc == 1)
                {
                    std::string k = keyOf(s.name, f.key);
                    if (seen.insert(k).second)
                    {
                        log << "F " << k << "\n";
                        for (size_t i = 0; i < c.path.size(); ++i) log << c.path[i].first << " ";
                        log << "\n" << jesc(f.msg) << "\n";
                        log.flush();
                    }
                    if (known.count(k) == 0) break;    // a new violation: stop here, it is reported
                }
            }
            shm->executions = shm->executions + 1;
            if (!advance(c)) break;
        }
        log << "R " << r.executions << " " << c.transitions << " " << c.checks << " " << r.pruned << "\n";
        log.close();
        FILE *fp = fopen((out + ".st").c_str(), "wb");
        std::vector<uint64_t> v(c.states.begin(), c.states.end());
        if (!v.empty()) fwrite(&v[0], 8, v.size(), fp);
        fclose(fp);
        _exit(0);
    }

    struct Job { size_t sc; uint32_t shard; pid_t pid; Shared *shm; std::string out; uint64_t last; double last_t; bool done; };

    inline std::vector<uint32_t> parseChoices(const std::string &line)
    {
        std::vector<uint32_t> v;
        std::stringstream ss(line);
        uint32_t x;
        while (ss >> x) v.push_back(x);
        return v;
    }

    inline int replay(const std::string &file)
    {
        std::ifstream in(file.c_str());
        std::string sc, ch, thor, line;
        while (std::getline(in, line))
        {
            if (line.compare(0, 10, "scenario: ") == 0) sc = line.substr(10);
            if (line.compare(0, 9, "choices: ") == 0) ch = line.substr(9);
            if (line.compare(0, 10, "thorough: ") == 0) thor = line.substr(10);
        }
        for (size_t i = 0; i < scenarios().size(); ++i)
        {
            if (scenarios()[i].name != sc) continue;
            Ctx c;
            c.prefix = parseChoices(ch);
            c.verbose = true;
            c.thorough = (thor == "1");
            Failure f;
            int rc = runPath(scenarios()[i], c, f);
            for (size_t k = 0; k < c.trace.size(); ++k) std::cout << c.trace[k] << "\n";
            if (rc == 1) std::cout << "FAILED " << f.key << ": " << f.msg << "\n";
            else std::cout << "no failure (rc " << rc << ")\n";
            return rc == 1 ? 1 : 0;
        }
        std::cerr << "unknown scenario\n";
        return 2;
    }

    // Re-runs one path in a fresh process and returns its trace; status says whether it failed again.
    inline std::string rerun(const Scenario &s, const std::vector<uint32_t> &choices, bool thorough, const std::string &tmp, int &status)
    {
        pid_t p = fork();
        if (p == 0)
        {
            alarm(120);
            Ctx c;
            c.prefix = choices;
            c.verbose = true;
            c.thorough = thorough;
            Failure f;
            std::ofstream o(tmp.c_str());
            int rc = runPath(s, c, f);
            size_t from = c.trace.size() > 400 ? c.trace.size() - 400 : 0;
            for (size_t k = from; k < c.trace.size(); ++k) o << c.trace[k] << "\n";
            if (rc == 1) o << "FAILED " << f.key << ": " << f.msg << "\n";
            o.close();
            _exit(rc == 1 ? 1 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st)) status = WEXITSTATUS(st); else status = 128 + WTERMSIG(st);
        std::ifstream i(tmp.c_str());
        std::stringstream b;
        b << i.rdbuf();
        return b.str();
    }

    // main of every explorer: explorer <outdir> <jobs> <thorough 0|1> [known keys file] | --replay FILE
    inline int main(int argc, char **argv)
    {
        if (argc >= 3 && std::string(argv[1]) == "--replay") return replay(argv[2]);
        if (argc < 4) { std::cerr << "usage: outdir jobs thorough [known]\n"; return 2; }
        std::string outdir = argv[1];
        size_t njobs = atoi(argv[2]);
        bool thorough = atoi(argv[3]) != 0;
        std::set<std::string> known;
        if (argc > 4)
        {
            std::ifstream in(argv[4]);
            std::string l;
            while (std::getline(in, l)) if (!l.empty()) known.insert(l);
        }
        const char *only = getenv("MC_ONLY");
        double stall = getenv("MC_STALL") ? atof(getenv("MC_STALL")) : 150.0;

        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);

        std::vector<Job> jobs;
        for (size_t i = 0; i < scenarios().size(); ++i)
        {
            if (scenarios()[i].thorough_only && !thorough) continue;
            if (only != NULL && scenarios()[i].name.find(only) == std::string::npos) continue;
            for (uint32_t k = 0; k < scenarios()[i].shards; ++k)
            {
                Job j;
                j.sc = i; j.shard = k; j.pid = 0; j.last = 0; j.last_t = 0; j.done = false;
                std::stringstream o;
                o << outdir << "/" << scenarios()[i].name << "." << k;
                j.out = o.str();
                j.shm = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                memset((void *) j.shm, 0, sizeof(Shared));
                jobs.push_back(j);
            }
        }
        struct Bad { size_t sc; std::vector<uint32_t> choices; std::string key, msg; };
        std::vector<Bad> bad;
        size_t next = 0, running = 0, finished = 0;
        const bool failfast = getenv("MC_FAILFAST") != NULL;
        bool failed_fast = false;
        while (finished < jobs.size())
        {
            while (running < njobs && next < jobs.size())
            {
                Job &j = jobs[next++];
                j.last_t = now();
                fflush(NULL);
                pid_t p = fork();
                if (p == 0)
                {
                    signal(SIGALRM, SIG_DFL);
                    worker(scenarios()[j.sc], j.shard, thorough, j.shm, j.out, known);
                }
                j.pid = p;
                ++running;
            }
            usleep(5000);
            for (size_t k = 0; k < next; ++k)
            {
                Job &j = jobs[k];
                if (j.done) continue;
                int st = 0;
                pid_t r = waitpid(j.pid, &st, WNOHANG);
                bool dead = false;
                std::string why;
                if (r == j.pid)
                {
                    dead = true;
                    if (WIFSIGNALED(st))
                    {
                        if (WTERMSIG(st) == SIGKILL)
                        {
                            std::cerr << "mc: worker was killed (out of memory?)\n";
                            return 2;
                        }
                        std::stringstream w; w << "the process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; why = w.str();
                    }
                    else if (WEXITSTATUS(st) != 0) { std::stringstream w; w << "the process exited with status " << WEXITSTATUS(st); why = w.str(); }
                }
                else
                {
                    if (j.shm->executions != j.last) { j.last = j.shm->executions; j.last_t = now(); }
                    else if (now() - j.last_t > stall)
                    {
                        kill(j.pid, SIGKILL);
                        waitpid(j.pid, &st, 0);
                        dead = true;
                        why = "no progress: the path does not terminate";
                    }
                }
                if (dead)
                {
                    j.done = true;
                    --running;
                    ++finished;
                    if (failfast && !why.empty()) failed_fast = true;
                    if (failfast && why.empty())
                    {
                        std::ifstream in((j.out + ".txt").c_str());
                        std::string l;
                        while (std::getline(in, l)) if (l[0] == 'F') failed_fast = true;
                    }
                    if (!why.empty())
                    {
                        Bad b;
                        b.sc = j.sc;
                        for (uint32_t i = 0; i < j.shm->n && i < 4096; ++i) b.choices.push_back((uint32_t) j.shm->c[i]);
                        b.key = keyOf(scenarios()[j.sc].name, why.find("terminate") != std::string::npos ? "hang" : "crash");
                        b.msg = why;
                        bad.push_back(b);
                    }
                }
            }
            if (failed_fast)    // for mutation campaigns only: the first violation is enough
            {
                for (size_t k = 0; k < next; ++k) if (!jobs[k].done) { kill(jobs[k].pid, SIGKILL); waitpid(jobs[k].pid, NULL, 0); }
                break;
            }
        }

        // collect
        std::unordered_set<uint64_t> states;
        uint64_t ex = 0, tr = 0, ch = 0, pr = 0;
        std::map<std::string, std::vector<uint64_t> > per;
        std::map<size_t, std::vector<uint32_t> > samples;
        for (size_t k = 0; k < jobs.size(); ++k)
        {
            std::ifstream in((jobs[k].out + ".txt").c_str());
            std::string l;
            while (std::getline(in, l))
            {
                if (l[0] == 'S') { if (!samples.count(jobs[k].sc)) samples[jobs[k].sc] = parseChoices(l.substr(1)); }
                else if (l[0] == 'F')
                {
                    Bad b;
                    b.sc = jobs[k].sc;
                    b.key = l.substr(2);
                    std::getline(in, l); b.choices = parseChoices(l);
                    std::getline(in, l); b.msg = l;
                    bad.push_back(b);
                }
                else if (l[0] == 'R')
                {
                    std::stringstream ss(l.substr(2));
                    uint64_t a, b, d, e;
                    ss >> a >> b >> d >> e;
                    ex += a; tr += b; ch += d; pr += e;
                    std::vector<uint64_t> &p = per[scenarios()[jobs[k].sc].name];
                    p.resize(2);
                    p[0] += a; p[1] += b;
                }
            }
            FILE *fp = fopen((jobs[k].out + ".st").c_str(), "rb");
            if (fp != NULL)
            {
                uint64_t buf[1024];
                size_t n;
                while ((n = fread(buf, 8, 1024, fp)) > 0) for (size_t i = 0; i < n; ++i) states.insert(buf[i]);
                fclose(fp);
            }
        }

        std::ofstream o((outdir + "/result.json").c_str());
        o << "{\"executions\": " << ex << ", \"transitions\": " << tr << ", \"checks\": " << ch << ", \"pruned\": " << pr
          << ", \"states\": " << states.size() << ",\n \"scenarios\": {";
        bool first = true;
        for (std::map<std::string, std::vector<uint64_t> >::iterator it = per.begin(); it != per.end(); ++it)
        {
            o << (first ? "" : ", ") << "\"" << it->first << "\": {\"executions\": " << it->second[0] << ", \"transitions\": " << it->second[1] << "}";
            first = false;
        }
        o << "},\n \"samples\": [";
        first = true;
        size_t cnt = 0;
        for (std::map<size_t, std::vector<uint32_t> >::iterator it = samples.begin(); it != samples.end() && cnt < 6; ++it, ++cnt)
        {
            int st = 0;
            std::string t = rerun(scenarios()[it->first], it->second, thorough, outdir + "/sample.txt", st);
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            o << (first ? "" : ",\n  ") << "{\"scenario\": \"" << scenarios()[it->first].name << "\", \"choices\": [";
            for (size_t i = 0; i < it->second.size(); ++i) o << (i ? "," : "") << it->second[i];
            o << "], \"trace\": \"" << jesc(t) << "\"}";
            first = false;
        }
        o << "],\n \"failures\": [";
        first = true;
        std::set<std::string> reported;
        int nbad = 0;
        for (size_t k = 0; k < bad.size(); ++k)
        {
            if (!reported.insert(bad[k].key).second) continue;
            std::stringstream rp;
            std::string kk = bad[k].key;
            for (size_t i = 0; i < kk.size(); ++i) if (!isalnum(kk[i]) && kk[i] != '-' && kk[i] != '_') kk[i] = '_';
            rp << outdir << "/replay-" << kk << ".txt";
            int st = 0;
            std::string t;
            bool again;
            if (bad[k].msg.find("does not terminate") != std::string::npos) { again = true; }
            else { t = rerun(scenarios()[bad[k].sc], bad[k].choices, thorough, outdir + "/rerun.txt", st); again = (st != 0); }
            std::ofstream rf(rp.str().c_str());
            rf << "scenario: " << scenarios()[bad[k].sc].name << "\nchoices: ";
            for (size_t i = 0; i < bad[k].choices.size(); ++i) rf << bad[k].choices[i] << " ";
            rf << "\nthorough: " << (thorough ? 1 : 0) << "\nkey: " << bad[k].key << "\nmessage: " << bad[k].msg
               << "\nreproduced: " << (again ? "yes" : "no") << "\n--- trace\n" << t;
            rf.close();
            o << (first ? "" : ",\n  ") << "{\"key\": \"" << jesc(bad[k].key) << "\", \"msg\": \"" << jesc(bad[k].msg.substr(0, 2000))
              << "\", \"replay\": \"" << jesc(rp.str()) << "\", \"reproduced\": " << (again ? "true" : "false")
              << ", \"known\": " << (known.count(bad[k].key) ? "true" : "false") << "}";
            first = false;
            ++nbad;
        }
        o << "]}\n";
        o.close();
        return 0;
    }
}
#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::main(argc, argv); }
#endif
