// C25: logs are sequences of Octave assignments to distinct names, which hold complete and exact values of the logged objects.
#ifdef MC_NO_LOGGER_THREAD
#define HUMOTO_GLOBAL_LOGGER_ENABLED        // default logger of all objects
#endif
#ifndef MC_LOG_VALUES
#include "cfgtree.h"
#include "logparse.h"
#include "wpg.h"
#include "pepper.h"
#include "humoto/kktsolver.h"
#else
#include "logparse.h"
#endif
#include <sys/mman.h>
#include <new>
using namespace logs;
#ifdef HUMOTO_GLOBAL_LOGGER_ENABLED
static std::stringstream global_output;
HUMOTO_INITIALIZE_GLOBAL_LOGGER(global_output);
#endif

template<class T> static Eigen::MatrixXd column(const std::vector<T> &v)
{
    Eigen::MatrixXd m(v.size(), 1);
    for (size_t i = 0; i < v.size(); ++i) m(i, 0) = (double) v[i];
    return m;
}
static const double reals[] = {0.0, -0.0, 1.0, -1.5, 1.0 / 3, 1e-300, -1e300, 1e20, 123456789012345.0, 0.1 + 0.2, 5e-324, HUGE_VAL, -HUGE_VAL, NAN};
static double cell(int salt, int i, int j) { return reals[(salt + 5 * i + 3 * j) % 14]; }
#ifdef MC_LOG_VALUES
// ------------------------------------------------------------------ values
// texts are logged under an explicit entry name
template<class T> struct IsText { enum { value = std::is_convertible<T, std::string>::value }; };
template<class T> static typename std::enable_if<IsText<T>::value>::type put(humoto::Logger &l, const std::string &n, const T &x, bool) { l.log(humoto::LogEntryName(n), x); }
template<class T> static typename std::enable_if<!IsText<T>::value>::type put(humoto::Logger &l, const std::string &n, const T &x, bool entry)
{
    if (entry) l.log(humoto::LogEntryName(n), x);
    else l.log(n, x);
}
template<class T> static void value(mc::Ctx &c, const T &x, const Value &v, const char *what, double tol = 1e-14, int form = -1)
{
    static const char *names[] = {"a", "a.b", "a{3}.c_d"};
    std::string n = names[form < 0 ? c.choose(3, "name") : form % 3];
    bool entry = IsText<T>::value || (form < 0 ? c.flip("explicit entry name") : form % 2);
    c.step(what);
    std::string text = written([&] (humoto::Logger &l)
    {
        put(l, n, x, entry);
        l.log("z", 7);
    });
    Map got;
    Parser p(text);
    c.state(text);
    if (!p.run(got)) { c.fail(std::string(what) + "-syntax", "not a sequence of assignments: " + p.error); return; }
    c.check(got.size() == 2 && got.count(n) && got.count("z") && same(got["z"], Value(7.0), 0), "entries", "one entry per message");
    if (got.count(n) && !same(got[n], v, tol)) c.fail(std::string(what) + "-value", "logged " + v.str() + ", read " + got[n].str());
}
MC_SCENARIO(scalars, 1, 1)
{
    switch (c.choose(9, "type"))
    {
        case 0: { double d = c.pick(reals); value(c, d, d, "double"); break; }
        case 1: { float f = c.pick(reals); value(c, f, (double) f, "float"); break; }
        case 2: { static const int v[] = {0, 1, -1, 2147483647, -2147483647 - 1, 100000}; int i = c.pick(v); value(c, i, (double) i, "int"); break; }
        case 3: { static const std::size_t v[] = {0, 1, 1000000, 4294967296u, 9007199254740991u}; std::size_t i = c.pick(v); value(c, i, (double) i, "size", 0); break; }
        case 4: { static const std::ptrdiff_t v[] = {0, -1, 1000000, -4294967296, 9007199254740991}; std::ptrdiff_t i = c.pick(v); value(c, i, (double) i, "ptrdiff", 0); break; }
        case 5: { bool b = c.flip(); value(c, b, b ? 1.0 : 0.0, "bool"); break; }
        case 6:
        {
            static const humoto::ConstraintActivationType::Type v[] = {humoto::ConstraintActivationType::INACTIVE, humoto::ConstraintActivationType::EQUALITY, humoto::ConstraintActivationType::LOWER_BOUND, humoto::ConstraintActivationType::UPPER_BOUND};
            humoto::ConstraintActivationType::Type x = c.pick(v);
            value(c, x, (double) x, "enum");
            break;
        }
        case 7:
        {
            static const humoto::SolverStatus::Status v[] = {humoto::SolverStatus::UNDEFINED, humoto::SolverStatus::OK, humoto::SolverStatus::MAX_ITER, humoto::SolverStatus::OTHER};
            humoto::SolverStatus::Status x = c.pick(v);
            value(c, x, (double) x, "status");
            break;
        }
        case 8: { unsigned u = c.flip() ? 4294967295u : 0; value(c, u, (double) u, "unsigned"); break; }
    }
}
static const char *strings[] = {"", "a", "a b", "1", "a.b", "[1]", "name = 1;", "100%", "it's", "'", "''", "a\"b", "\\n", "...", "a;b"};
MC_SCENARIO(texts, 1, 1)
{
    std::string s = c.pick(strings);
    char copy[32];
    strcpy(copy, s.c_str());
    switch (c.choose(5, "type"))
    {
        case 0: value(c, s, s, "string"); break;
        case 1: value(c, s.c_str(), s, "pointer"); break;
        case 2: { char *p = copy; value(c, p, s, "mutable-pointer"); break; }
        case 3: value(c, copy, s, "array"); break;
        case 4:
        {
            // literals
            switch (c.choose(3, "literal"))
            {
                case 0: value(c, "text", "text", "literal"); break;
                case 1: value(c, "", "", "literal"); break;
                case 2: value(c, "it's", "it's", "literal"); break;
            }
            break;
        }
    }
}
template<class T> static void vectors(mc::Ctx &c, const char *what, T (*element)(mc::Ctx &))
{
    std::vector<T> v;
    for (int i = c.choose(4, "size"); i > 0; --i) v.push_back(element(c));
    value(c, v, column(v), what, 1e-14);
}
static double elementD(mc::Ctx &c) { return c.pick(reals); }
static std::size_t elementS(mc::Ctx &c) { static const std::size_t v[] = {0, 7, 4294967296u}; return c.pick(v); }
static int elementI(mc::Ctx &c) { static const int v[] = {0, -3, 1000000}; return c.pick(v); }
static bool elementB(mc::Ctx &c) { return c.flip(); }
static humoto::ConstraintActivationType::Type elementA(mc::Ctx &c) { return c.flip() ? humoto::ConstraintActivationType::LOWER_BOUND : humoto::ConstraintActivationType::EQUALITY; }
MC_SCENARIO(std_vectors, 4, 1)
{
    switch (c.choose(5, "type"))
    {
        case 0: vectors<double>(c, "vector-double", elementD); break;
        case 1: vectors<std::size_t>(c, "vector-size", elementS); break;
        case 2: vectors<int>(c, "vector-int", elementI); break;
        case 3: vectors<bool>(c, "vector-bool", elementB); break;
        case 4: vectors<humoto::ConstraintActivationType::Type>(c, "vector-enum", elementA); break;
    }
}
template<class M> static M filled(int rows, int cols, int salt)
{
    M m;
    m.resize(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j)
    {
        double x = cell(salt, i, j);
        m(i, j) = std::is_integral<typename M::Scalar>::value ? (typename M::Scalar) (salt * 100000 + 31 * i - 7 * j) : (typename M::Scalar) x;
    }
    return m;
}
static int form = 0;
template<class D> static void matrixValue(mc::Ctx &c, const Eigen::DenseBase<D> &m, const char *what)
{
    Eigen::MatrixXd e(m.rows(), m.cols());
    auto x = m.eval();
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) e(i, j) = x(i, j);
    value(c, m.derived(), e, what, sizeof(typename D::Scalar) == 4 && !std::is_integral<typename D::Scalar>::value ? 1e-5 : 1e-14, form);
}
// matrices and expressions of all kinds
template<class M> static void expressions(mc::Ctx &c, const M &m, int kind)
{
    switch (kind)
    {
        case 0: matrixValue(c, m, "matrix"); break;
        case 1: matrixValue(c, m.transpose(), "transpose"); break;
        case 2: if (m.rows() == 0) throw mc::Prune(); matrixValue(c, m.row(m.rows() - 1), "row"); break;
        case 3: if (m.cols() == 0) throw mc::Prune(); matrixValue(c, m.col(m.cols() - 1), "column"); break;
        case 4: matrixValue(c, m.topRows(m.rows() / 2), "top"); break;
        case 5: matrixValue(c, m.block(m.rows() / 2, m.cols() / 2, m.rows() - m.rows() / 2, m.cols() - m.cols() / 2), "block"); break;
        case 6: matrixValue(c, m + m, "sum"); break;
        case 7: matrixValue(c, Eigen::Map<const M>(m.data(), m.rows(), m.cols()), "map"); break;
        case 8: matrixValue(c, m.array(), "array"); break;
        case 9: matrixValue(c, M::Constant(m.rows(), m.cols(), 3), "constant"); break;
        case 10: if (m.rows() == 0 || m.cols() == 0) throw mc::Prune(); matrixValue(c, m.template topLeftCorner<1, 1>(), "corner"); break;
        case 11: matrixValue(c, m.cwiseProduct(m), "product"); break;
        case 12: if (m.rows() == 0 || m.cols() == 0) throw mc::Prune(); matrixValue(c, m.col(0).head(m.rows() / 2), "head"); break;
        case 13: matrixValue(c, -m, "negative"); break;
    }
}
MC_SCENARIO(matrices, 16, 2)
{
    int salt = c.choose(4, "values");
    form = salt;
    int kind = c.choose(14, "expression");
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RowMajorXd;
    typedef Eigen::Matrix<double, 2, 3, Eigen::RowMajor> RowMajor23d;
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, 0, 3, 4> Bounded;
    typedef Eigen::Matrix<double, 2, Eigen::Dynamic> Half;
    int r = c.choose(4, "rows"), k = c.choose(4, "cols");
    switch (c.choose(15, "type"))
    {
        case 0: expressions(c, filled<Eigen::MatrixXd>(r, k, salt), kind); break;
        case 1: expressions(c, filled<RowMajorXd>(r, k, salt), kind); break;
        case 2: expressions(c, filled<Eigen::MatrixXf>(r, k, salt), kind); break;
        case 3: expressions(c, filled<Eigen::MatrixXi>(r, k, salt), kind); break;
        case 4: expressions(c, filled<Bounded>(r, k, salt), kind); break;
        case 5: if (r) throw mc::Prune(); expressions(c, filled<Half>(2, k, salt), kind); break;
        case 6: if (k) throw mc::Prune(); expressions(c, filled<Eigen::VectorXd>(r, 1, salt), kind); break;
        case 7: if (k) throw mc::Prune(); expressions(c, filled<Eigen::RowVectorXd>(1, r, salt), kind); break;
        case 8: if (r || k) throw mc::Prune(); expressions(c, filled<Eigen::Vector2d>(2, 1, salt), kind); break;
        case 9: if (r || k) throw mc::Prune(); expressions(c, filled<Eigen::Vector3d>(3, 1, salt), kind); break;
        case 10: if (r || k) throw mc::Prune(); expressions(c, filled<Eigen::RowVector3d>(1, 3, salt), kind); break;
        case 11: if (r || k) throw mc::Prune(); expressions(c, filled<Eigen::Matrix2d>(2, 2, salt), kind); break;
        case 12: if (r || k) throw mc::Prune(); expressions(c, filled<etools::Matrix3>(3, 3, salt), kind); break;
        case 13: if (r || k) throw mc::Prune(); expressions(c, filled<RowMajor23d>(2, 3, salt), kind); break;
        case 14: if (r || k) throw mc::Prune(); expressions(c, filled<etools::Vector6>(6, 1, salt), kind); break;
    }
}
// names of entries
MC_SCENARIO(names, 1, 1)
{
    static const char *starts[] = {"", "a", "a.b"};
    std::string ref = c.pick(starts, "start");
    humoto::LogEntryName n(ref);
    for (int i = c.choose(5, "parts"); i > 0; --i)
    {
        c.step("add");
        humoto::LogEntryName copy(n), *result = NULL;
        std::string before = ref;
        switch (c.choose(5, "part"))
        {
            case 0: result = &n.add("x"); ref = Expect::join(ref, "x"); break;
            case 1: result = &n.add(std::string("y_z")); ref = Expect::join(ref, "y_z"); break;
            case 2: result = &n.add(""); break;
            case 3: result = &n.add(std::string()); break;
            case 4: { std::size_t k = c.pick(std::vector<std::size_t>{0, 9, 41}, "index"); result = &n.add(k); ref += "{" + std::to_string(k + 1) + "}"; break; }
        }
        c.check(result == &n && n.getAsString() == ref, "name", n.getAsString() + " instead of " + ref);
        c.check(copy.getAsString() == before, "name", "copies are independent");
        std::stringstream s;
        s << n;
        c.check(s.str() == ref, "name", "output of a name");
    }
}
// outputs of a logger: each message is in the current output immediately (without a thread) or when the output is changed
struct Destination
{
    bool file;
    int fd;
    std::string path, expected;
    std::stringstream stream;
    explicit Destination(bool f) : file(f), fd(-1) { if (file) { fd = memfd_create("log", 0); path = "/proc/self/fd/" + std::to_string(fd); } }
    ~Destination() { if (file) close(fd); }
    std::string get()
    {
        if (!file) return stream.str();
        std::string s;
        char b[4096];
        off_t at = 0;
        ssize_t n;
        while ((n = pread(fd, b, sizeof b, at)) > 0) { s.append(b, n); at += n; }
        return s;
    }
};
MC_SCENARIO(outputs, 4, 2)
{
    Destination a(false), b(false), f(true), g(true);
    Destination *all[] = {&a, &b, &f, &g}, *now = NULL;
    std::vector<Destination *> used;
    int first = c.choose(5, "first output"), depth = c.thorough ? 6 : 4, message = 0;
    {
        std::unique_ptr<humoto::Logger> l;
        if (first == 4) l.reset(new humoto::Logger());
        else { now = all[first]; if (now->file) l.reset(new humoto::Logger(now->path)); else l.reset(new humoto::Logger(now->stream)); }
        for (int i = 0; i < depth; ++i)
        {
            int op = c.choose(now == NULL ? 5 : 8, "operation");
            if (op == 4) break;
            if (op < 4)
            {
                c.step("initialize");
                now = all[op];
                if (now->file) { now->expected.clear(); l->initialize(now->path); }       // a log file is written from its beginning
                else l->initialize(now->stream);
            }
            else
            {
                ++message;
                std::string n = "m" + std::to_string(message);
                c.step("log");
                if (op == 5) { l->log(n, message); now->expected += n + " = " + std::to_string(message) + ";\n"; }
                if (op == 6) { l->log("% " + n); now->expected += "% " + n + "\n"; }
                if (op == 7) { l->log("% comment"); now->expected += "% comment\n"; }
            }
#ifndef HUMOTO_USE_THREADS_FOR_LOGGING
            if (now) c.check(now->get() == now->expected, "immediate", "messages are written immediately");
#endif
        }
    }
    for (int i = 0; i < 4; ++i) c.check(all[i]->get() == all[i]->expected, "outputs", "messages of each output");
    c.state(a.expected + "|" + b.expected + "|" + f.expected + "|" + g.expected);
}
MC_SCENARIO(bad_files, 1, 1)
{
    std::stringstream s;
    bool threw = false;
    std::string bad = c.flip("directory") ? "/proc/self" : "/nonexistent/directory/file";
    c.step("bad file");
    try
    {
        if (c.flip("constructor")) humoto::Logger l(bad);
        else
        {
            humoto::Logger l;
            if (c.flip("stream")) { l.initialize(s); l.log("a", 1); }
            l.initialize(bad);
        }
    }
    catch (const std::exception &) { threw = true; }
    c.check(threw, "bad-file", "a file which cannot be opened is reported");
}

#else
// objects in memory with arbitrary previous contents
template<class T> struct Dirty
{
    void *memory;
    T *p;
    explicit Dirty(int fill)
    {
        memory = NULL;
        if (posix_memalign(&memory, 64, sizeof(T)) != 0) throw std::bad_alloc();
        memset(memory, fill, sizeof(T));
        p = new (memory) T();
    }
    ~Dirty() { p->~T(); free(memory); }
};

static const char *parents[] = {"", "p", "p.q{2}"};
static const char *own_names[] = {NULL, "n", ""};
// logs 'x' as a member of all parents, with all ways of naming it
template<class T, class F> static void logged(mc::Ctx &c, const T &x, const char *default_name, const char *what, F expect, bool indexed = false)
{
    std::string parent = parents[c.choose(3, "parent")];
    const char *name = own_names[c.choose(3, "name")];
    if (indexed && parent.empty() && name != NULL && *name == '\0') throw mc::Prune();      // elements of nothing
    humoto::LogEntryName entry(parent);
    c.step(what);
    std::string text = written([&] (humoto::Logger &l)
    {
        if (name == NULL)
        {
            if (parent.empty()) x.log(l);
            else x.log(l, entry);
        }
        else x.log(l, entry, name);
    });
    c.check(entry.getAsString() == parent, "parent", "the name of the parent is not changed");
    Expect e;
    e.in(Expect::join(parent, name == NULL ? default_name : name));
    expect(e);
    compare(c, text, e, what);
#ifdef HUMOTO_GLOBAL_LOGGER_ENABLED
    if (parent.empty() && name == NULL)
    {
        global_output.str("");
        x.log();
        compare(c, global_output.str(), e, "global");
        global_output.str("");
        HUMOTO_LOG("a", 1);
        HUMOTO_LOG_RAW("% comment");
        c.check(global_output.str() == "a = 1;\n% comment\n", "global-logger", "global logger");
    }
#endif
}

// ------------------------------------------------------------------ bodies, feet, stances
static double num3(int salt, int i, int j) { return hier::val(salt, i, j) / 7.0 + 1e-9 * j; }
static etools::Vector3 vec3(int salt, int i) { return etools::Vector3(num3(salt, i, 0), num3(salt, i, 1), num3(salt, i, 2)); }
static void expectPoint(Expect &e, const humoto::rigidbody::PointMassState &x, const std::string &p = "")
{
    e.add(Expect::join(p, "position"), x.position_).add(Expect::join(p, "velocity"), x.velocity_).add(Expect::join(p, "acceleration"), x.acceleration_);
}
static void expectRotary(Expect &e, const humoto::rigidbody::RotaryState &x, const std::string &p = "")
{
    e.add(Expect::join(p, "rpy"), x.rpy_).add(Expect::join(p, "angular_velocity"), x.angular_velocity_).add(Expect::join(p, "angular_acceleration"), x.angular_acceleration_);
}
static void expectBody(Expect &e, const humoto::rigidbody::RigidBodyState &x, const std::string &p = "") { expectPoint(e, x, p); expectRotary(e, x, p); }
MC_SCENARIO(bodies, 1, 1)
{
    int salt = c.choose(6, "values");
    humoto::rigidbody::RigidBodyState s;
    if (salt == 1) s.unset();
    if (salt > 1)
    {
        s.position_ = vec3(salt, 0); s.velocity_ = vec3(salt, 1); s.acceleration_ = vec3(salt, 2);
        s.rpy_ = vec3(salt, 3); s.angular_velocity_ = vec3(salt, 4); s.angular_acceleration_ = vec3(salt, 5);
    }
    switch (c.choose(4, "class"))
    {
        case 0: logged(c, (humoto::rigidbody::PointMassState &) s, "point_mass_state", "point-mass", [&] (Expect &e) { expectPoint(e, s); }); break;
        case 1: logged(c, (humoto::rigidbody::RotaryState &) s, "rotary_state", "rotary", [&] (Expect &e) { expectRotary(e, s); }); break;
        case 2: logged(c, s, "rigid_body_state", "rigid-body", [&] (Expect &e) { expectBody(e, s); }); break;
        case 3:
        {
            humoto::rigidbody::RigidBodyPose p;
            p.position_ = s.position_; p.rpy_ = s.rpy_;
            logged(c, p, "rigid_body_pose", "pose", [&] (Expect &e) { e.add("position", s.position_).add("rpy", s.rpy_); });
            break;
        }
    }
}
static void expectFoot(Expect &e, const humoto::walking::RobotFootParameters &x, const std::string &p)
{
    cfg::Tree t;
    cfg::Spec<humoto::walking::RobotFootParameters>::observe(x, t);
    for (size_t i = 0; i < t.m.size(); ++i) e.add(Expect::join(p, t.m[i].first), t.m[i].second.d);
}
MC_SCENARIO(feet, 1, 1)
{
    humoto::walking::RobotFootParameters f;
    int salt = c.choose(3, "values");
    if (salt)
    {
        cfg::Values v(salt);
        cfg::Tree root, t = cfg::Spec<humoto::walking::RobotFootParameters>::make(v);
        root.add("RobotFootParameters", t);
        cfg::File file;
        file.put(cfg::encode(cfg::MSGPACK, root, true));
        f.readConfig<humoto::config::msgpack::Reader>(file.path, true);
    }
    logged(c, f, "robot_foot_parameters", "foot", [&] (Expect &e) { expectFoot(e, f, ""); });
}
static void expectStance(Expect &e, const humoto::walking::Stance &x, const std::string &p)
{
    e.add(Expect::join(p, "type"), (double) x.type_).add(Expect::join(p, "previous_nonds_stance_type"), (double) x.previous_nonds_stance_type_)
     .add(Expect::join(p, "previous_nontds_stance_type"), (double) x.previous_nontds_stance_type_).add(Expect::join(p, "subtype"), (double) x.subtype_)
     .add(Expect::join(p, "duration_ms"), (double) x.duration_ms_).add(Expect::join(p, "total_duration_ms"), (double) x.total_duration_ms_);
}
MC_SCENARIO(stances, 4, 2)
{
    humoto::walking::StanceFSMParameters par;
    static const gait::ST::Type fs[] = {gait::ST::DS, gait::ST::LSS, gait::ST::RSS};
    par.first_stance_ = c.pick(fs, "first stance");
    par.first_ss_type_ = par.first_stance_ == gait::ST::RSS ? gait::ST::RSS : gait::ST::LSS;
    par.num_steps_ = c.pick(std::vector<int>{0, 2, 3, 4}, "steps");
    par.ss_duration_ms_ = 40; par.tds_duration_ms_ = 20; par.first_stance_duration_ms_ = 30; par.last_stance_duration_ms_ = 50;
    humoto::walking::StanceFiniteStateMachine fsm(par);
    for (int i = c.range(0, c.thorough ? 30 : 16, "time"); i > 0; --i) fsm.shiftTime(10);
    if (c.flip("stances"))
    {
        std::vector<humoto::walking::Stance> v = fsm.previewStances(60);
        if (v.empty()) throw mc::Prune();
        const humoto::walking::Stance &x = v.at(c.choose(v.size(), "stance"));
        logged(c, x, "stance", "stance", [&] (Expect &e) { expectStance(e, x, ""); });
        return;
    }
    logged(c, fsm, "stance_fsm", "fsm", [&] (Expect &e)
    {
        expectStance(e, fsm.current_stance_, "current_stance");
        e.add("ss_states_to_termination", (double) fsm.ss_states_to_termination_).add("current_time", (double) fsm.current_time_ms_).add("is_tds_started", fsm.is_tds_started_ ? 1.0 : 0.0);
    });
}

// ------------------------------------------------------------------ optimization
MC_SCENARIO(locations, 1, 1)
{
    humoto::Location l;
    if (c.flip("set")) l.set(c.pick(std::vector<std::size_t>{0, 7, 1000000}, "offset"), c.pick(std::vector<std::size_t>{0, 3}, "length"));
    logged(c, l, "location", "location", [&] (Expect &e) { e.add("offset", (double) l.offset_).add("length", (double) l.length_); });
}
static humoto::ConstraintActivationType::Type activation(int k)
{
    static const humoto::ConstraintActivationType::Type v[] = {humoto::ConstraintActivationType::INACTIVE, humoto::ConstraintActivationType::EQUALITY, humoto::ConstraintActivationType::LOWER_BOUND, humoto::ConstraintActivationType::UPPER_BOUND};
    return v[k % 4];
}
static Eigen::MatrixXd asColumn(const humoto::ActiveSetConstraints &a)
{
    Eigen::MatrixXd m(a.size(), 1);
    for (size_t i = 0; i < a.size(); ++i) m(i, 0) = (double) a[i];
    return m;
}
MC_SCENARIO(active_sets, 4, 2)
{
    std::vector<std::size_t> sizes;
    for (int i = c.choose(4, "levels"); i > 0; --i) sizes.push_back(c.range(0, 3, "size"));
    int salt = c.choose(4, "values");
    if (c.flip("violations"))
    {
        humoto::Violations v;
        v.initialize(sizes.size(), sizes);
        for (size_t i = 0; i < sizes.size(); ++i) for (size_t j = 0; j < sizes[i]; ++j) v[i].set(j, num3(salt, i, j), num3(salt + 1, i, j));
        logged(c, v, "violations", "violations", [&] (Expect &e)
        {
            for (size_t i = 0; i < sizes.size(); ++i)
            {
                Eigen::VectorXd a(sizes[i]), lo(sizes[i]), up(sizes[i]);
                for (size_t j = 0; j < sizes[i]; ++j) { a(j) = v[i][j]; lo(j) = v[i].getLower(j); up(j) = v[i].getUpper(j); }
                std::string b = e.base, k = Expect::index(b, i);
                e.in(k).add("violations", a).add("lower_bound_diff", lo).add("upper_bound_diff", up);
                e.in(b);
            }
        }, true);
        return;
    }
    humoto::ActiveSet a;
    a.initialize(sizes.size(), sizes);
    for (size_t i = 0; i < sizes.size(); ++i) for (size_t j = 0; j < sizes[i]; ++j) a[i][j] = activation(salt + i + 3 * j);
    logged(c, a, "active_set", "active-set", [&] (Expect &e) { for (size_t i = 0; i < sizes.size(); ++i) e.m[Expect::index(e.base, i)] = asColumn(a[i]); }, true);
}
MC_SCENARIO(solutions, 1, 1)
{
    static const humoto::SolverStatus::Status v[] = {humoto::SolverStatus::UNDEFINED, humoto::SolverStatus::OK, humoto::SolverStatus::MAX_ITER, humoto::SolverStatus::OTHER};
    Dirty<humoto::Solution> s(c.flip("memory") ? 0x55 : 0);
    int n = c.range(0, 3, "parts");
    if (n > 0)
    {
        humoto::SolutionStructure st;
        for (int i = 0; i < n; ++i) st.addSolutionPart("p" + std::to_string(i), i + 1);
        s.p->initialize(st, 0.0);
        for (long i = 0; i < s.p->x_.size(); ++i) s.p->x_(i) = cell(n, i, 2);
        s.p->return_status_ = c.pick(v, "status");
    }
    logged(c, *s.p, "solution", "solution", [&] (Expect &e) { e.add("x", s.p->x_).add("status", (double) s.p->return_status_); });
    if (n == 0) c.check(s.p->return_status_ == humoto::SolverStatus::UNDEFINED, "fresh", "status of a new solution is undefined");
}

static void expectContainer(Expect &e, const std::string &p, const humoto::constraints::ContainerAB &x) { e.add(p + ".A", x.getA()).add(p + ".b", x.getB()).add(p + ".number_of_variables", (double) x.getNumberOfVariables()); }
static void expectContainer(Expect &e, const std::string &p, const humoto::constraints::ContainerAL &x) { e.add(p + ".A", x.getA()).add(p + ".lb", x.getLowerBounds()).add(p + ".number_of_variables", (double) x.getNumberOfVariables()); }
static void expectContainer(Expect &e, const std::string &p, const humoto::constraints::ContainerALU &x) { e.add(p + ".A", x.getA()).add(p + ".lb", x.getLowerBounds()).add(p + ".ub", x.getUpperBounds()).add(p + ".number_of_variables", (double) x.getNumberOfVariables()); }
static void expectContainer(Expect &e, const std::string &p, const humoto::constraints::ContainerILU &x)
{
    Eigen::MatrixXd I(x.getIndices().size(), 1);
    for (long i = 0; i < I.rows(); ++i) I(i, 0) = x.getIndices()[i];
    e.add(p + ".A", I).add(p + ".lb", x.getLowerBounds()).add(p + ".ub", x.getUpperBounds()).add(p + ".number_of_variables", (double) x.getNumberOfVariables());
}
static void expectObjective(Expect &e, const humoto::QPObjective &q)
{
    e.add("objective.H", q.getHessian()).add("objective.g", q.getGradient()).add("objective.hessian_type", (double) q.getHessianType()).add("objective.status", (double) q.getStatus());
}
static void expectConstraints(Expect &e, const humoto::QPProblem_AB &q) { expectContainer(e, "constraints.equality_constraints", q.getEqualities()); }
static void expectConstraints(Expect &e, const humoto::QPProblem_AB_AL &q)
{
    expectContainer(e, "constraints.equality_constraints", q.getEqualities());
    expectContainer(e, "constraints.inequality_constraints", q.getInequalities());
}
static void expectConstraints(Expect &e, const humoto::QPProblem_ILU_ALU &q)
{
    expectContainer(e, "constraints.bounds", q.getSimpleBounds());
    expectContainer(e, "constraints.general_constraints", q.getGeneralConstraints());
    e.add("constraints.lb", q.getSolutionLowerBounds()).add("constraints.ub", q.getSolutionUpperBounds());
}
// a stack of arbitrary tasks
struct Stack
{
    hier::Model model;
    hier::Problem problem;
    humoto::OptimizationProblem opt;
    humoto::Solution solution;
    std::vector<std::vector<std::pair<humoto::TaskSharedPointer, hier::Holder> > > tasks;      // in the order of the hierarchy
    static const long n = 3;
    // the order of tasks in a level: general ones first (the last one pushed is the first), then simple ones in the order of pushing
    void push(int type, int level, long m, int salt)
    {
        hier::Holder h(new hier::SpecHolder);
        hier::Spec &s = h->spec;
        s.body = type / 5; s.bounds = type % 5; s.m = m; s.offset = 1;
        long w = s.body == hier::AS ? 2 : n;
        s.M.resize(m, w);
        s.idx.resize(m); s.gains.resize(m); s.lb.resize(m); s.ub.resize(m);
        for (long i = 0; i < m; ++i)
        {
            for (long j = 0; j < w; ++j) s.M(i, j) = num3(salt, i, j);
            s.idx[i] = (salt + i) % n;
            s.gains(i) = 2 + i;
            s.lb(i) = num3(salt, i, 5);
            s.ub(i) = s.lb(i) + 1.0 / 3;
        }
        humoto::TaskSharedPointer t = hier::make(h);
        t->setDescription("task " + std::to_string(salt));
        opt.pushTask(t, level);
        auto &v = tasks.at(level);
        if (s.simple()) v.push_back(std::make_pair(t, h));
        else v.insert(v.begin(), std::make_pair(t, h));
    }
    void form(bool guess = false)
    {
        problem.setSize(n);
        humoto::ActiveSet a;
        if (guess) opt.form(solution, a, model, problem);
        else opt.form(solution, model, problem);
    }
};
static void expectTask(Expect &e, const std::string &p, const humoto::TaskSharedPointer &t, const hier::Holder &h, bool formed, double gain)
{
    const hier::Spec &s = h->spec;
    hier::Peek *k = dynamic_cast<hier::Peek *>(t.get());
    std::string base = e.base;
    e.in(p);
    e.add("id", t->getDescription());
    if (s.body != hier::I) e.add("gain", gain);
    e.add("active_set_guess", asColumn(k->guess())).add("active_set_actual", asColumn(k->actual()));
    e.add("number_of_variables", formed ? (double) Stack::n : 0.0);
    Eigen::MatrixXd none;
    if (s.body == hier::A || s.body == hier::AS) e.add("A", formed ? s.M : none);
    if (s.body == hier::AS) e.add("offset", formed ? (double) s.offset : 0.0);
    if (s.simple())
    {
        Eigen::MatrixXd I(s.m, 1);
        for (long i = 0; i < s.m; ++i) I(i, 0) = s.idx[i];
        e.add("A", formed ? I : none);
    }
    if (s.body == hier::GI) e.add("Agains", formed ? Eigen::MatrixXd(s.gains) : none);
    if (s.bounds == hier::B) e.add("b", formed ? Eigen::MatrixXd(s.lb) : none);
    if (s.bounds == hier::LU || s.bounds == hier::L) e.add("lb", formed ? Eigen::MatrixXd(s.lb) : none);
    if (s.bounds == hier::LU || s.bounds == hier::U) e.add("ub", formed ? Eigen::MatrixXd(s.ub) : none);
    e.in(base);
}
static const int types[] = {hier::A * 5 + hier::LU, hier::AS * 5 + hier::B, hier::I * 5 + hier::L, hier::GI * 5 + hier::U, hier::A * 5 + hier::B0};
MC_SCENARIO(stacks, 16, 2)
{
    Stack s;
    bool single = c.flip("single");
    int levels = single ? 1 : c.range(1, 3, "levels");
    s.opt.reset(levels);
    s.tasks.resize(levels);
    int salt = 1;
    if (single)
    {
        int type = c.choose(20, "type");
        s.push(type, 0, c.range(1, 3, "constraints"), 3);
    }
    else
    {
        int total = c.range(0, c.thorough ? 4 : 3, "tasks");
        for (int i = 0; i < total; ++i) s.push(c.pick(types, "type"), c.choose(levels, "level"), 1 + (i & 1), salt++);
    }
    bool formed = c.flip("formed");
    for (auto &l : s.tasks) if (formed && l.empty()) throw mc::Prune();
    if (formed)
    {
        s.form(c.flip("guess"));
        if (c.flip("active set"))
        {
            humoto::ActiveSet a;
            s.opt.initializeActiveSet(a);
            for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) a[i][j] = activation(i + j);
            s.opt.processActiveSet(a);
        }
    }
    logged(c, s.opt, "", "stack", [&] (Expect &e)
    {
        std::string base = e.base;
        for (int i = 0; i < levels; ++i)
        {
            // locations: general constraints first
            std::size_t offset = 0;
            for (size_t j = 0; j < s.tasks[i].size(); ++j)
            {
                std::string p = Expect::index(Expect::index(Expect::join(base, "tasks"), i), j);
                const hier::Spec &x = s.tasks[i][j].second->spec;
                if (formed) { e.in(p).add("location.offset", (double) offset).add("location.length", (double) x.m); }
                else e.in(p).unknown("location.offset").unknown("location.length");
                offset += x.m;
                expectTask(e, p, s.tasks[i][j].first, s.tasks[i][j].second, formed, 0.0);
            }
        }
    });
}
template<class Q> static void qp(mc::Ctx &c, const char *what)
{
    Dirty<Q> q(c.flip("memory") ? 0x55 : 0);
    Stack s;
    int k = c.range(0, 3, "contents");      // nothing, objective, objective and constraints, no constraints
    if (k)
    {
        s.opt.reset(2);
        s.tasks.resize(2);
        s.push(c.flip("simple") ? hier::I * 5 + hier::B : hier::A * 5 + hier::B, 1, 2, 3);
        bool equalities = std::is_same<Q, humoto::QPProblem_AB>::value;
        if (k != 3) for (int i = c.range(0, 2, "constraints"); i >= 0; --i)
            s.push(equalities ? (i & 1 ? hier::A * 5 + hier::B0 : hier::I * 5 + hier::B) : (i & 1 ? hier::I * 5 + hier::LU : hier::A * 5 + hier::L), 0, 1 + i, 4 + i);
        else s.push(equalities ? hier::A * 5 + hier::B : hier::A * 5 + hier::U, 0, 1, 5);
        s.form();
        if (k == 1) q.p->initializeObjective(s.opt[1]);
        else s.opt.getQPProblem(*q.p, s.problem.getSolutionStructure(), c.flip("upper"));
        if (k == 3) q.p->getHessian();      // marks the objective as modified
    }
    else c.check(q.p->getStatus() == humoto::QPObjective::UNDEFINED && q.p->getHessianType() == humoto::QPObjective::HESSIAN_UNDEFINED, "fresh", "a new objective is undefined");
    const Q &constant = *q.p;
    logged(c, constant, "qp_problem", what, [&] (Expect &e) { expectObjective(e, constant); expectConstraints(e, constant); });
}
MC_SCENARIO(qp_problems, 4, 2)
{
    switch (c.choose(3, "type"))
    {
        case 0: qp<humoto::QPProblem_AB>(c, "qp-ab"); break;
        case 1: qp<humoto::QPProblem_AB_AL>(c, "qp-ab-al"); break;
        case 2: qp<humoto::QPProblem_ILU_ALU>(c, "qp-ilu-alu"); break;
    }
}
MC_SCENARIO(kkt, 2, 1)
{
    Dirty<humoto::kktsolver::Solver> k(c.flip("memory") ? 0x55 : 0);
    Expect ref;
    humoto::QPProblem_AB q;
    if (c.flip("solved"))
    {
        Stack s;
        bool two = c.flip("two levels");
        s.opt.reset(two ? 2 : 1);
        s.tasks.resize(two ? 2 : 1);
        s.push(hier::A * 5 + hier::B, two ? 1 : 0, 3, 3);
        s.push(hier::I * 5 + hier::B, two ? 1 : 0, 3, 4);
        if (two) s.push(hier::A * 5 + hier::B, 0, 1, 5);
        s.form();
        humoto::kktsolver::SolverParameters par;
        par.solve_two_levels_as_qp_ = true;
        k.p->setParameters(par);
        k.p->solve(s.solution, s.opt);
        s.opt.getQPProblem(q, s.problem.getSolutionStructure());
        const humoto::QPProblem_AB &constant = q;
        logged(c, *k.p, "kktsolver", "kkt", [&] (Expect &e)
        {
            e.base = Expect::join(e.base, "qp_problem");
            // the solver may change the objective which it has got: sizes and constraints are fixed
            e.unknown("objective.H").unknown("objective.g").unknown("objective.hessian_type").unknown("objective.status");
            expectConstraints(e, constant);
        });
        return;
    }
    const humoto::QPProblem_AB &constant = q;
    logged(c, *k.p, "kktsolver", "kkt-fresh", [&] (Expect &e)
    {
        e.base = Expect::join(e.base, "qp_problem");
        expectObjective(e, constant);
        expectConstraints(e, constant);
    });
}

// ------------------------------------------------------------------ walking pattern generator
static void expectWalkState(Expect &e, const humoto::wpg04::WalkState &w)
{
    e.add("theta", w.theta_).add("step_height", w.step_height_).add("cvel_ref", w.cvel_ref_).add("rotation", w.rotation_).add("R_cvel_ref", w.R_cvel_ref_).add("fd_bounds", w.fd_bounds_).add("cop_bounds", w.cop_bounds_);
    expectStance(e, w, "stance");
}
static void expectInterval(Expect &e, const humoto::wpg04::PreviewHorizonInterval &x)
{
    e.add("state_index", (double) x.state_index_).add("omega", x.omega_).add("T", x.T_).add("cvel_ref", x.cvel_ref_);
}
static void expectHorizon(Expect &e, const humoto::wpg04::PreviewHorizon &h)
{
    std::string b = e.base;
    e.add("variable_steps_indices", column(h.variable_steps_indices_));
    for (size_t i = 0; i < h.intervals_.size(); ++i) expectInterval(e.in(Expect::index(Expect::join(b, "interval"), i)), h.intervals_[i]);
    for (size_t i = 0; i < h.walk_states_.size(); ++i) expectWalkState(e.in(Expect::index(Expect::join(b, "state"), i)), h.walk_states_[i]);
    e.in(b);
}
static void expectState(Expect &e, const humoto::wpg04::ModelState &m, const std::string &p)
{
    e.add(Expect::join(p, "stance_type"), (double) m.stance_type_).add(Expect::join(p, "next_stance_type"), (double) m.next_stance_type_);
    expectPoint(e, m.com_state_, Expect::join(p, "com_state"));
    expectBody(e, m.feet_.getLeft(), Expect::join(p, "left_foot_state"));
    expectBody(e, m.feet_.getRight(), Expect::join(p, "right_foot_state"));
}
static void expectMPC(Expect &e, const humoto::wpg04::MPCforWPG &m)
{
    std::string b = e.base;
    e.in(Expect::join(b, "preview_horizon"));
    expectHorizon(e, m.preview_horizon_);
    e.in(b);
    e.add("R", m.R_.getRaw()).add("Rh", m.Rh_.getRaw()).add("V", m.V_).add("V0", m.V0_).add("Vfp", m.Vfp_).add("vfp", m.vfp_);
    e.add("S", m.S_).add("s", m.s_).add("Sdz", m.Sdz_).add("sdz", m.sdz_);
    e.add("cop_profile", m.cop_profile).add("dcop_profile", m.dcop_profile).add("cstate_profile", m.cstate_profile).add("footpos_profile", m.footpos_profile);
}
MC_SCENARIO(wpg_objects, 16, 3)
{
    wpg::Setup s = wpg::chooseSetup(c, true);
    if (s.par.ss_duration_ms_ != 2 * s.T || s.sub != s.T || (!c.thorough && s.N == 5)) throw mc::Prune();
    wpg::Loop l(s);
    int at = c.range(-1, c.thorough ? 12 : 6, "iteration");
    for (int i = 0; i <= at; ++i)
    {
        wpg::Plan p = l.ref.plan();
        if (l.mpc.update(l.model, l.fsm, l.ref.par) != humoto::ControlProblemStatus::OK) throw mc::Prune();
        humoto::Solution sol = l.solution(p.steps.size());
        l.fsm.shiftTime(l.s.sub);
        humoto::wpg04::ModelState m = l.mpc.getNextModelState(sol, l.fsm, l.model);
        bool landed; int which;
        l.ref.shift(l.s.sub, p, l.footpos(p.steps.size()), landed, which);
        ++l.iteration;
        if (i < at || c.flip("advance the model")) l.model.updateState(m);
    }
    switch (c.choose(6, "object"))
    {
        case 0: logged(c, l.model, "model", "wpg-model", [&] (Expect &e)
        {
            expectFoot(e, l.model, "foot_parameters");
            expectState(e, l.model.state_, "state");
            e.add("cstate", l.model.getCState()).add("current_support_position", l.model.current_support_position_);
        }); break;
        case 1: logged(c, l.model.state_, "model_state", "wpg-state", [&] (Expect &e) { expectState(e, l.model.state_, ""); }); break;
        case 2: logged(c, l.mpc, "mpcwpg", "wpg-mpc", [&] (Expect &e) { expectMPC(e, l.mpc); }); break;
        case 3: logged(c, l.mpc.preview_horizon_, "preview_horizon", "wpg-horizon", [&] (Expect &e) { expectHorizon(e, l.mpc.preview_horizon_); }); break;
        case 4: if (at < 0) throw mc::Prune(); logged(c, l.mpc.preview_horizon_.walk_states_.back(), "walk_state", "wpg-walk-state", [&] (Expect &e) { expectWalkState(e, l.mpc.preview_horizon_.walk_states_.back()); }); break;
        case 5: if (at < 0) throw mc::Prune(); logged(c, l.mpc.preview_horizon_.intervals_.back(), "preview_interval", "wpg-interval", [&] (Expect &e) { expectInterval(e, l.mpc.preview_horizon_.intervals_.back()); }); break;
    }
}

// ------------------------------------------------------------------ mobile robot
namespace pm = humoto::pepper_mpc;
static void expectMGState(Expect &e, const pm::ModelState &m, const std::string &p)
{
    e.add(Expect::join(p, "base_mass"), m.base_mass_).add(Expect::join(p, "body_mass"), m.body_mass_);
    expectBody(e, m.base_state_, Expect::join(p, "base_state"));
    expectPoint(e, m.body_state_, Expect::join(p, "body_state"));
}
static void expectMGInterval(Expect &e, const pm::PreviewHorizonInterval &x)
{
    e.add("base_height", x.base_height_).add("body_height", x.body_height_).add("base_mass", x.base_mass_).add("body_mass", x.body_mass_).add("T", x.T_).add("T_ms", (double) x.T_ms_);
    e.add("base_vel_ref", x.base_vel_ref_).add("base_pos_ref", x.base_pos_ref_).add("theta", x.theta_).add("rotation", x.rotation_);
    e.add("body_bounds", x.body_bounds_).add("cop_bounds", x.cop_bounds_).add("nominal_base_velocity_bounds", x.nominal_base_velocity_bounds_).add("nominal_base_acceleration_bounds", x.nominal_base_acceleration_bounds_);
}
static void expectMGHorizon(Expect &e, const pm::PreviewHorizon &h)
{
    std::string b = e.base;
    for (size_t i = 0; i < h.intervals_.size(); ++i) expectMGInterval(e.in(Expect::index(Expect::join(b, "interval"), i)), h.intervals_[i]);
    e.in(b);
}
MC_SCENARIO(mg_objects, 16, 3)
{
    pepper::Setup s = pepper::chooseSetup(c);
    if (s.sub != s.T || s.N > 3) throw mc::Prune();
    pm::Model model((pm::RobotParameters()));
    pm::MPCforMG mg(pm::MPCParameters(s.N, s.T, s.sub));
    pm::MotionParameters motion;
    motion.base_angular_velocity_ = 0.3;
    motion.base_velocity_ << 0.1, -0.2;
    model.updateState(pepper::initialState(s));
    int at = c.range(0, 3, "iteration");
    for (int i = 0; i < at; ++i)
    {
        mg.update(motion, model);
        Eigen::VectorXd x(4 * s.N);
        for (long j = 0; j < x.size(); ++j) x(j) = pepper::num(i + 2, j, 4);
        humoto::Solution sol = pepper::solution(mg, x);
        pm::ModelState m = mg.getNextModelState(sol, model);
        model.updateState(m);
    }
    switch (c.choose(5, "object"))
    {
        case 0: logged(c, model, "model", "mg-model", [&] (Expect &e)
        {
            expectMGState(e, model.state_, "state");
            e.add("mpc_state", model.getMPCState()).add("current_base_position", model.current_base_position_);
        }); break;
        case 1: logged(c, model.state_, "model_state", "mg-state", [&] (Expect &e) { expectMGState(e, model.state_, ""); }); break;
        case 2: logged(c, mg, "mpcmg", "mg-mpc", [&] (Expect &e)
        {
            std::string b = e.base;
            e.in(Expect::join(b, "preview_horizon"));
            expectMGHorizon(e, mg.preview_horizon_);
            e.in(b);
            e.add("R", mg.R_.getRaw()).add("S", mg.S_).add("s", mg.s_).add("sp", mg.sp_).add("Ap", mg.Ap_).add("sas", mg.sas_).add("Aas", mg.Aas_);
            e.add("sps", mg.sps_).add("Aps", mg.Aps_).add("sjs", mg.sjs_).add("Ajs", mg.Ajs_).add("base_controls", mg.base_controls_).add("body_controls", mg.body_controls_);
            e.add("cstate_profile", mg.cstate_profile_).add("jerk_profile", mg.base_jerk_profile_).add("cop_profile", mg.cop_profile_);
        }); break;
        case 3: logged(c, mg.preview_horizon_, "preview_horizon", "mg-horizon", [&] (Expect &e) { expectMGHorizon(e, mg.preview_horizon_); }); break;
        case 4: if (at == 0) throw mc::Prune(); logged(c, mg.preview_horizon_.intervals_.back(), "preview_interval", "mg-interval", [&] (Expect &e) { expectMGInterval(e, mg.preview_horizon_.intervals_.back()); }); break;
    }
}
#endif
