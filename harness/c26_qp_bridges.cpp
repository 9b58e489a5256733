// C26: bridges to the QP libraries: the library gets exactly the problem of the hierarchy, and its answer is reported faithfully.
// The libraries are replaced with recording stand-ins, which either answer as told or solve the problem exactly.
#include "cfgtree.h"
#include "hier.h"
#include "logparse.h"
#include "mocks/mockqp.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include <new>
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
typedef humoto::ConstraintActivationType CA;
enum { OASES = 0, MAD = 1, PROG = 2 };

// ------------------------------------------------------------------ one interface to the three bridges
struct Driver
{
    virtual ~Driver() {}
    // default parameters must not depend on the previous content of the memory
    static void *operator new(std::size_t n) { void *p = ::operator new(n); memset(p, 0x40, n); return p; }
    static void operator delete(void *p) { ::operator delete(p); }
    virtual void solve(humoto::Solution &s, const humoto::OptimizationProblem &h) = 0;
    virtual void setParameters(double reg, bool crash) = 0;
    virtual humoto::Solution *derived(void *where) const = 0;
    virtual double code(const humoto::Solution &s) const = 0;
    virtual void log(humoto::Logger &l) const = 0;
};
template<class S, class P, class D> struct DriverOf : public Driver
{
    S solver;
    P parameters;
    void solve(humoto::Solution &s, const humoto::OptimizationProblem &h) { solver.solve(s, h); }
    humoto::Solution *derived(void *where) const { return new (where) D; }
    void log(humoto::Logger &l) const { solver.log(l); }
};
struct Oases : public DriverOf<humoto::qpoases::Solver, humoto::qpoases::SolverParameters, humoto::qpoases::Solution>
{
    void setParameters(double, bool crash) { parameters.crash_on_any_failure_ = crash; solver.setParameters(parameters); }
    double code(const humoto::Solution &s) const { return dynamic_cast<const humoto::qpoases::Solution &>(s).qpoases_return_value_; }
};
struct Mad : public DriverOf<humoto::qpmad::Solver, humoto::qpmad::SolverParameters, humoto::qpmad::Solution>
{
    void setParameters(double reg, bool crash) { parameters.crash_on_any_failure_ = crash; parameters.regularization_factor_ = reg; solver.setParameters(parameters); }
    double code(const humoto::Solution &s) const { return dynamic_cast<const humoto::qpmad::Solution &>(s).qpmad_return_value_; }
};
struct Prog : public DriverOf<humoto::quadprogpp::Solver, humoto::quadprogpp::SolverParameters, humoto::quadprogpp::Solution>
{
    void setParameters(double reg, bool crash) { parameters.crash_on_any_failure_ = crash; parameters.regularization_factor_ = reg; solver.setParameters(parameters); }
    double code(const humoto::Solution &s) const { return dynamic_cast<const humoto::quadprogpp::Solution &>(s).quadprogpp_return_value_; }
};
static boost::shared_ptr<Driver> driver(int lib)
{
    if (lib == OASES) return boost::shared_ptr<Driver>(new Oases);
    if (lib == MAD) return boost::shared_ptr<Driver>(new Mad);
    return boost::shared_ptr<Driver>(new Prog);
}
static void fresh()
{
    mockqp::record() = mockqp::Record();
    mockqp::script() = mockqp::Script();
}

// ------------------------------------------------------------------ hierarchies and what they mean
struct World
{
    hier::Model model;
    hier::Problem problem;
    humoto::OptimizationProblem opt;
    std::vector<hier::Spec> specs;
    std::vector<int> levels;
    std::vector<humoto::TaskSharedPointer> tasks;
    long n;
    void reset(int number_of_levels, long size) { n = size; problem.setSize(n); opt.reset(number_of_levels); }
    void add(const hier::Spec &s, int level)
    {
        hier::Holder h(new hier::SpecHolder());
        h->spec = s;
        specs.push_back(s); levels.push_back(level);
        tasks.push_back(hier::make(h));
        opt.pushTask(tasks.back(), level);
    }
    int last() const { return (int) opt.getNumberOfLevels() - 1; }
    double objective(const Eigen::VectorXd &x, double reg) const
    {
        double f = 0.5 * reg * x.squaredNorm();
        for (size_t t = 0; t < specs.size(); ++t) if (levels[t] == last())
        {
            Eigen::VectorXd v = specs[t].dense(n) * x;
            for (long i = 0; i < specs[t].m; ++i) f += 0.5 * std::pow(v(i) - specs[t].lower(i), 2);
        }
        return f;
    }
    bool feasible(const Eigen::VectorXd &x) const
    {
        for (size_t t = 0; t < specs.size(); ++t) if (levels[t] != last())
        {
            Eigen::VectorXd v = specs[t].dense(n) * x;
            for (long i = 0; i < specs[t].m; ++i) if (v(i) < specs[t].lower(i) || v(i) > specs[t].upper(i)) return false;
        }
        return true;
    }
    // the same problem for the exact solver
    exactqp::QP qp(double reg) const
    {
        exactqp::QP q;
        q.H = Eigen::MatrixXd::Identity(n, n) * reg; q.g = Eigen::VectorXd::Zero(n);
        std::vector<Eigen::RowVectorXd> rows[2];
        std::vector<double> rhs[2];
        for (size_t t = 0; t < specs.size(); ++t)
        {
            Eigen::MatrixXd D = specs[t].dense(n);
            for (long i = 0; i < specs[t].m; ++i)
            {
                double lo = specs[t].lower(i), up = specs[t].upper(i);
                if (levels[t] == last()) { q.H += D.row(i).transpose() * D.row(i); q.g -= D.row(i).transpose() * lo; continue; }
                if (lo == up) { rows[0].push_back(D.row(i)); rhs[0].push_back(lo); continue; }
                if (lo > -humoto::g_infinity) { rows[1].push_back(D.row(i)); rhs[1].push_back(lo); }
                if (up < humoto::g_infinity) { rows[1].push_back(-D.row(i)); rhs[1].push_back(-up); }
            }
        }
        q.eq = rows[0].size();
        q.C.resize(rows[0].size() + rows[1].size(), n); q.d.resize(q.C.rows());
        long at = 0;
        for (int k = 0; k < 2; ++k) for (size_t i = 0; i < rows[k].size(); ++i, ++at) { q.C.row(at) = rows[k][i]; q.d(at) = rhs[k][i]; }
        return q;
    }
    bool gainedConstraints() const
    {
        for (size_t t = 0; t < specs.size(); ++t) if (levels[t] != last() && specs[t].body == hier::GI) return true;
        return false;
    }
};

static bool contradictory(const World &w)
{
    for (long v = 0; v < w.n; ++v)
    {
        double lo = -humoto::g_infinity, up = humoto::g_infinity;
        for (size_t t = 0; t < w.specs.size(); ++t) if (w.levels[t] != w.last() && w.specs[t].simple())
            for (long i = 0; i < w.specs[t].m; ++i) if ((long) w.specs[t].idx[i] == v) { lo = std::max(lo, w.specs[t].lower(i)); up = std::min(up, w.specs[t].upper(i)); }
        if (lo > up) return true;
    }
    return false;
}
static bool libraryFeasible(const mockqp::Record &r, const Eigen::VectorXd &x)
{
    for (long i = 0; i < x.size(); ++i) if (x(i) < r.lb(i) || x(i) > r.ub(i)) return false;
    for (long i = 0; i < r.A.rows(); ++i) { double v = r.A.row(i).dot(x); if (v < r.lbA(i) || v > r.ubA(i)) return false; }
    return true;
}

// the library must have been given the problem of the hierarchy
static void sameProblem(mc::Ctx &c, const World &w, const mockqp::Record &r, double reg)
{
    c.check(r.misuse.empty(), "misuse", "the library is called incorrectly: " + r.misuse);
    c.check(r.nv == w.n && r.H.rows() == w.n && r.g.size() == w.n, "size", "number of variables of the problem");
    c.check(r.H.isApprox(r.H.transpose(), 1e-14), "hessian", "the Hessian is not symmetric");
    Eigen::VectorXd x = Eigen::VectorXd::Zero(w.n);
    double f0 = w.objective(x, reg);
    for (long i = 0; i < w.n; ++i) for (long j = -1; j < w.n; ++j) for (int s = -1; s < 2; s += 2)
    {
        x.setZero();
        x(i) += s;
        if (j >= 0) x(j) += 2;
        c.near(0.5 * x.dot(r.H * x) + r.g.dot(x), w.objective(x, reg) - f0, "objective", "objective at a point (up to a constant)");
    }
    // all points of a grid
    const double lo = -5, hi = 5, step = w.n == 2 ? 0.5 : 1.0;
    x.setConstant(lo);
    for (;;)
    {
        bool e = w.feasible(x), g = libraryFeasible(r, x);
        if (e != g)
        {
            std::stringstream s;
            s << "point [" << x.transpose() << "] is " << (e ? "" : "not ") << "admissible for the hierarchy, but the library is told the opposite";
            c.fail("constraints", s.str());
        }
        long i = 0;
        for (; i < w.n; ++i) { x(i) += step; if (x(i) <= hi) break; x(i) = lo; }
        if (i == w.n) break;
    }
}

static hier::Spec chooseConstraint(mc::Ctx &c, int type, long n, int salt, int flavours)
{
    long m = c.range(1, 2, "rows");
    hier::Spec s = hier::chooseSpec(c, type, n, m, salt, false);
    int f = s.equality() ? 0 : (int) c.choose(flavours, "kind of bounds");
    if (f == 1) { if (s.bounds == hier::LU) s.ub(0) = s.lb(0); else throw mc::Prune(); }             // an equality in disguise
    if (f == 2) { if (s.bounds != hier::U) s.lb(m - 1) = -humoto::g_infinity; else s.ub(m - 1) = humoto::g_infinity; }
    if (f == 3) { if (s.bounds == hier::LU) s.ub(0) = humoto::g_infinity; else throw mc::Prune(); }
    return s;
}
static const int objectives[] = {hier::A*5+hier::B, hier::A*5+hier::B0, hier::AS*5+hier::B, hier::AS*5+hier::B0, hier::I*5+hier::B, hier::I*5+hier::B0, hier::GI*5+hier::B, hier::GI*5+hier::B0};

static void solveAndCompare(mc::Ctx &c, World &w, Driver &d, int lib, double reg)
{
    humoto::Solution solution;
    w.opt.form(solution, w.model, w.problem);
    fresh();
    bool threw = false;
    c.step("solve");
    try { d.solve(solution, w.opt); }
    catch (const std::runtime_error &e)
    {
        threw = true;
        // simple constraints with gains cannot be represented in these problems, which has to be reported
        if (mockqp::record().calls == 0 && w.gainedConstraints() && lib != PROG) { c.state("gains"); return; }
    }
    const mockqp::Record &r = mockqp::record();
    exactqp::QP q = w.qp(reg);
    exactqp::Result e = exactqp::solve(q);
    // contradictory bounds may be reported without the library
    if (threw && r.calls == 0 && contradictory(w)) { c.state("contradictory"); return; }
    c.check(r.calls == 1, "calls", "the library must be called once");
    sameProblem(c, w, r, reg);
    std::stringstream st;
    if (e.status == exactqp::Result::OK)
    {
        if (exactqp::certificate(q, e.x, e.u) > 1e-7) c.note("certificate " + std::to_string(exactqp::certificate(q, e.x, e.u)));
        c.check(exactqp::certificate(q, e.x, e.u) < 1e-7, "oracle", "the reference solution is not optimal");
        c.check(!threw && solution.return_status_ == humoto::SolverStatus::OK, "solvable", "a solvable problem is not solved");
        c.nearM(solution.x_, e.x, "minimizer", "solution", 1e-7);
        st << e.x.transpose() << "|" << e.u.transpose();
    }
    else
    {
        c.check(threw, "unsolvable", "no failure is reported for a problem which cannot be solved");
        c.check(solution.return_status_ != humoto::SolverStatus::OK, "unsolvable", "status of a failure");
    }
    st << lib << r.A << r.lb << r.ub;
    c.state(st.str());
}

MC_SCENARIO(problems_one_task, 16, 4)
{
    int lib = c.choose(3, "library");
    int levels = c.range(1, 2, "levels");
    World w;
    w.reset(levels, c.range(2, 3, "variables"));
    w.add(hier::chooseSpec(c, objectives[c.choose(8, "objective")], w.n, c.range(1, 2, "rows"), 3, false), levels - 1);
    if (c.flip("second objective")) { w.add(hier::chooseSpec(c, objectives[c.choose(8, "objective")], w.n, 2, 4, false), levels - 1); }
    if (levels == 2) w.add(chooseConstraint(c, c.choose(20, "constraint"), w.n, 1, 4), 0);
    double reg = lib == OASES ? 0.0 : 0.5 * c.choose(2, "regularization");
    boost::shared_ptr<Driver> d = driver(lib);
    d->setParameters(reg, true);
    solveAndCompare(c, w, *d, lib, reg);
    d.reset();
    c.check(mockqp::live() == 0, "leak", "objects of the library are not destroyed");
}

MC_SCENARIO(problems_two_tasks, 16, 4)
{
    int lib = c.choose(3, "library");
    World w;
    w.reset(2, 2);
    hier::Spec o = hier::chooseSpec(c, hier::A*5+hier::B, 2, 2, 3, false);
    if (c.flip("objective")) { o.body = hier::I; o.idx.push_back(0); o.idx.push_back(1); }
    w.add(o, 1);
    for (int i = 0; i < (c.thorough ? 3 : 2); ++i)
    {
        static const int few[] = {hier::A*5+hier::LU, hier::I*5+hier::L, hier::I*5+hier::U, hier::AS*5+hier::B};
        w.add(chooseConstraint(c, i < 2 ? (int) c.choose(20, "constraint") : few[c.choose(4, "constraint")], 2, i + 1, i < 1 ? 4 : 1), 0);
    }
    double reg = lib == OASES || !c.thorough ? 0.0 : 0.5 * c.choose(2, "regularization");
    boost::shared_ptr<Driver> d = driver(lib);
    d->setParameters(reg, true);
    solveAndCompare(c, w, *d, lib, reg);
    d.reset();
    c.check(mockqp::live() == 0, "leak", "objects of the library are not destroyed");
}

// one solver object, a sequence of different problems (sizes, constraints, regularization)
static void someWorld(mc::Ctx &c, World &w, int kind, int salt)
{
    w.reset(kind == 0 ? 1 : 2, kind == 3 ? 3 : 2);
    hier::Spec o;
    o.body = kind == 2 ? hier::GI : hier::A; o.bounds = hier::B; o.m = w.n;
    o.M = Eigen::MatrixXd::Identity(w.n, w.n) * 2; o.M(0, 1) = salt + 1;
    for (long i = 0; i < w.n; ++i) o.idx.push_back(i);
    o.gains.setConstant(w.n, 3.0); o.lb.setConstant(w.n, 4.0 + salt); o.ub = o.lb;
    w.add(o, w.last());
    if (kind == 0) return;
    hier::Spec s;
    s.body = kind == 1 ? hier::I : hier::A; s.bounds = kind == 2 ? hier::B : hier::LU; s.m = 1;
    s.idx.push_back(salt % w.n);
    s.M.setConstant(1, w.n, 1.0); s.lb.setConstant(1, -1.0 - salt); s.ub.setConstant(1, 1.0);
    w.add(s, 0);
    if (kind == 3) { s.body = hier::I; s.bounds = hier::U; s.idx[0] = 2; s.ub(0) = 0.0; w.add(s, 0); }
}

MC_SCENARIO(problem_histories, 16, 3)
{
    int lib = c.choose(3, "library");
    boost::shared_ptr<Driver> d = driver(lib);
    double reg = 0;
    World w[2];
    int depth = c.thorough ? 4 : 3;
    humoto::Solution solution;
    for (int k = 0; k < depth; ++k)
    {
        if (c.flip("set parameters"))
        {
            reg = lib == OASES ? 0.0 : 0.5 * c.choose(3, "regularization");
            d->setParameters(reg, true);
        }
        boost::shared_ptr<World> x(new World());
        someWorld(c, *x, c.choose(4, "problem"), k);
        bool twice = c.flip("solve twice");
        for (int i = 0; i < (twice ? 2 : 1); ++i) solveAndCompare(c, *x, *d, lib, reg);
    }
    d.reset();
    c.check(mockqp::live() == 0, "leak", "objects of the library are not destroyed");
}

// negative regularization is an error
MC_SCENARIO(regularization_domain, 1, 1)
{
    int lib = MAD + c.choose(2, "library");
    boost::shared_ptr<Driver> d = driver(lib);
    World w;
    someWorld(c, w, c.choose(4, "problem"), 0);
    humoto::Solution solution;
    w.opt.form(solution, w.model, w.problem);
    fresh();
    d->setParameters(-0.25 * (1 + c.choose(3)), c.flip("crash"));
    bool threw = false;
    c.step("solve");
    try { d->solve(solution, w.opt); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw, "negative-regularization", "negative regularization must be reported");
    c.check(mockqp::record().calls == 0, "negative-regularization", "problem with negative regularization is solved");
    c.state(lib);
}

// ------------------------------------------------------------------ answers of the libraries
struct Answer { int status; double value; humoto::SolverStatus::Status expected; };
static const Answer oases_answers[] = {
    {qpOASES::SUCCESSFUL_RETURN, 0, humoto::SolverStatus::OK}, {qpOASES::RET_MAX_NWSR_REACHED, 0, humoto::SolverStatus::MAX_ITER},
    {qpOASES::RET_INIT_FAILED_INFEASIBILITY, 0, humoto::SolverStatus::OTHER}, {qpOASES::RET_INIT_FAILED_UNBOUNDEDNESS, 0, humoto::SolverStatus::OTHER},
    {qpOASES::TERMINAL_LIST_ELEMENT, 0, humoto::SolverStatus::OTHER}, {qpOASES::RET_DIV_BY_ZERO, 0, humoto::SolverStatus::OTHER}};
static const Answer mad_answers[] = {
    {qpmad::Solver::OK, 0, humoto::SolverStatus::OK}, {qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS, 0, humoto::SolverStatus::MAX_ITER},
    {qpmad::Solver::INCONSISTENT, 0, humoto::SolverStatus::OTHER}, {qpmad::Solver::INFEASIBLE_EQUALITY, 0, humoto::SolverStatus::OTHER},
    {qpmad::Solver::INFEASIBLE_INEQUALITY, 0, humoto::SolverStatus::OTHER}};
static const Answer prog_answers[] = {
    {0, (double) QuadProgpp::Status::OK, humoto::SolverStatus::OK}, {0, (double) QuadProgpp::Status::FAILURE, humoto::SolverStatus::OTHER},
    {0, HUGE_VAL, humoto::SolverStatus::OTHER}, {0, -1.5, humoto::SolverStatus::OTHER}};

MC_SCENARIO(answers, 8, 2)
{
    int lib = c.choose(3, "library");
    boost::shared_ptr<Driver> d = driver(lib);
    bool crash = true;
    int depth = c.thorough ? 3 : 2;
    // solutions: of the base class, of the class of the library, of another library; they are reused
    void *memory = operator new(4096);
    memset(memory, 0xA5, 4096);
    int kind = c.choose(3, "class of the solution");
    humoto::Solution *solution = kind == 0 ? new (memory) humoto::Solution : driver((lib + kind - 1) % 3)->derived(memory);
    for (int k = 0; k < depth; ++k)
    {
        if (c.flip("change handling of failures")) { crash = !crash; d->setParameters(0, crash); }
        World w;
        someWorld(c, w, c.choose(4, "problem"), k);
        w.opt.form(*solution, w.model, w.problem);
        fresh();
        mockqp::Script &s = mockqp::script();
        s.exact = false;
        Answer a = lib == OASES ? c.pick(oases_answers, "answer") : (lib == MAD ? c.pick(mad_answers, "answer") : c.pick(prog_answers, "answer"));
        s.status = a.status; s.value = a.value; s.iterations = 3 + k;
        s.x.resize(w.n);
        for (long i = 0; i < w.n; ++i) s.x(i) = 10 * k + i + 0.5;
        bool threw = false;
        std::string message;
        c.step("solve");
        try { d->solve(*solution, w.opt); } catch (const std::runtime_error &e) { threw = true; message = e.what(); }
        bool ok = a.expected == humoto::SolverStatus::OK;
        c.check(threw == (!ok && crash), "failure", "an exception is due when the library fails and this is fatal");
        c.check(solution->return_status_ == a.expected, "status", "status of the solution");
        c.nearM(solution->x_, s.x, "x", "solution found by the library");
        c.nearM(solution->getSolutionPart("x"), s.x, "x", "solution by name");
        if (kind == 1)
        {
            c.near(d->code(*solution), lib == PROG ? a.value : a.status, "code", "return value of the library");
            if (lib == OASES) c.check(dynamic_cast<humoto::qpoases::Solution *>(solution)->number_of_iterations_ == 3 + k, "iterations", "number of iterations");
            std::string text = solution->getStatusDescription();
            if (lib == OASES)
            {
                c.check(text.find(qpOASES::MessageHandling::getErrorCodeMessage((qpOASES::returnValue) a.status)) != std::string::npos, "description", "description of the status: " + text);
                c.check(text.find(std::to_string(a.status)) != std::string::npos, "description", "code in the description: " + text);
            }
            else c.check((text.find("Ok") != std::string::npos) == ok, "description", "description of the status: " + text);
            if (threw) c.check(message.find(text) != std::string::npos, "message", "the exception must describe the failure: " + message);
        }
        std::stringstream st; st << lib << kind << a.status << a.value << threw << solution->x_.transpose();
        c.state(st.str());
    }
    d.reset();
    solution->~Solution();
    operator delete(memory);
    c.check(mockqp::live() == 0, "leak", "objects of the library are not destroyed");
}

// ------------------------------------------------------------------ qpOASES: active sets and guesses
// a constraint of the first level and its place in the problem of the library
struct Row { bool simple; long index; double lo, up; std::size_t place; };
static std::vector<Row> rowsOf(mc::Ctx &c, const World &w, const mockqp::Record &r)
{
    std::vector<Row> rows;
    const humoto::HierarchyLevel &lvl = w.opt[0];
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = lvl.tasks_.begin(); it != lvl.tasks_.end(); ++it)
        for (size_t t = 0; t < w.tasks.size(); ++t) if (w.tasks[t].get() == it->ptr_.get())
        {
            const hier::Spec &s = w.specs[t];
            Eigen::MatrixXd D = s.dense(w.n);
            for (long i = 0; i < s.m; ++i)
            {
                Row x;
                x.simple = s.simple(); x.lo = s.lower(i); x.up = s.upper(i); x.place = it->location_.offset_ + i;
                x.index = -1;
                if (x.simple) x.index = s.idx[i];
                else
                {
                    long found = 0;
                    for (long k = 0; k < r.A.rows(); ++k) if (r.A.row(k) == D.row(i) && r.lbA(k) == x.lo && r.ubA(k) == x.up) { x.index = k; ++found; }
                    c.check(found == 1, "rows", "a constraint must be present in the problem once");
                }
                rows.push_back(x);
            }
        }
    return rows;
}
static World *constrained(mc::Ctx &c, int max_tasks)
{
    World *w = new World();
    w->reset(2, 2);
    hier::Spec o = hier::chooseSpec(c, hier::I*5+hier::B, 2, 2, 3, false);
    o.idx[0] = 0; o.idx[1] = 1;
    w->add(o, 1);
    int k = c.range(1, max_tasks, "tasks");
    static const int types[] = {hier::A*5+hier::LU, hier::I*5+hier::LU, hier::I*5+hier::L, hier::I*5+hier::U, hier::I*5+hier::B, hier::A*5+hier::B, hier::A*5+hier::L, hier::AS*5+hier::U};
    for (int i = 0; i < k; ++i)
    {
        hier::Spec s;
        int type = types[c.choose(i == 2 ? 4 : 8, "constraint")];
        s.body = type / 5; s.bounds = type % 5; s.m = i == 0 ? c.range(1, 2, "rows") : 1;
        s.M.resize(s.m, s.body == hier::AS ? 1 : 2);
        s.offset = 1;
        s.lb.resize(s.m); s.ub.resize(s.m);
        for (long j = 0; j < s.m; ++j)
        {
            for (long l = 0; l < s.M.cols(); ++l) s.M(j, l) = 3 * i + j + 1 + 5 * l;      // all rows are distinct
            if (s.simple()) s.idx.push_back(c.choose(2, "variable"));
            int b = c.choose(s.bounds == hier::LU ? 3 : 2, "bounds");
            s.lb(j) = b == 0 ? -1.0 : 0.0; s.ub(j) = b == 2 ? 0.0 : (b == 0 ? 1.0 : 2.0);
        }
        w->add(s, 0);
    }
    return w;
}
static const char *shown(int t) { static const char *n[] = {"UNDEFINED", "INACTIVE", "LOWER_BOUND", "UPPER_BOUND", "EQUALITY"}; return n[t]; }

MC_SCENARIO(active_sets, 16, 5)
{
    boost::shared_ptr<World> w(constrained(c, c.thorough ? 3 : 2));
    humoto::qpoases::Solver solver;
    humoto::Solution solution;
    humoto::ActiveSet as;
    w->opt.form(solution, w->model, w->problem);
    // a first run reveals the problem of the library
    fresh();
    mockqp::script().exact = false;
    mockqp::script().x.setZero(2);
    if (contradictory(*w)) throw mc::Prune();
    solver.solve(solution, w->opt);
    std::vector<Row> rows = rowsOf(c, *w, mockqp::record());
    double lo[2] = {-humoto::g_infinity, -humoto::g_infinity}, up[2] = {humoto::g_infinity, humoto::g_infinity};
    for (size_t i = 0; i < rows.size(); ++i) if (rows[i].simple) { lo[rows[i].index] = std::max(lo[rows[i].index], rows[i].lo); up[rows[i].index] = std::min(up[rows[i].index], rows[i].up); }
    // what the library says
    mockqp::Script &s = mockqp::script();
    s.bounds.assign(2, 0);
    s.constraints.assign(rows.size(), 0);
    for (int v = 0; v < 2; ++v)
    {
        if (lo[v] > up[v]) throw mc::Prune();       // infeasible
        s.bounds[v] = (int) c.choose(3, "bound") - 1;
        if ((s.bounds[v] == -1 && lo[v] == -humoto::g_infinity) || (s.bounds[v] == 1 && up[v] == humoto::g_infinity)) throw mc::Prune();
    }
    for (size_t i = 0; i < rows.size(); ++i) if (!rows[i].simple)
    {
        int code = (int) c.choose(3, "constraint") - 1;
        if ((code == -1 && rows[i].lo == -humoto::g_infinity) || (code == 1 && rows[i].up == humoto::g_infinity)) throw mc::Prune();
        s.constraints[rows[i].index] = code;
    }
    std::vector<int> codes_b = s.bounds, codes_c = s.constraints;
    c.step("solve");
    solver.solve(solution, as, w->opt);
    c.check(as.size() == 2 && as[0].size() == rows.size() && as[1].size() == w->opt[1].getNumberOfConstraints(), "active-size", "size of the active set");
    std::stringstream st;
    std::size_t inequalities = 0;
    for (size_t i = 0; i < rows.size(); ++i)
    {
        const Row &x = rows[i];
        int code = x.simple ? codes_b[x.index] : codes_c[x.index];
        CA::Type e = CA::INACTIVE;
        if (x.lo == x.up) e = CA::EQUALITY;
        else if (code == -1 && (!x.simple || x.lo == lo[x.index])) e = CA::LOWER_BOUND;
        else if (code == 1 && (!x.simple || x.up == up[x.index])) e = CA::UPPER_BOUND;
        if (e == CA::LOWER_BOUND || e == CA::UPPER_BOUND) ++inequalities;
        if (as[0][x.place] != e) c.fail(x.lo == x.up ? "active-equality" : "active", std::string("constraint ") + std::to_string(x.place) + " is " + shown(as[0][x.place]) + " instead of " + shown(e));
        st << e;
    }
    for (size_t i = 0; i < as[1].size(); ++i) c.check(as[1][i] == CA::EQUALITY, "active-objective", "the objective consists of equalities");
    c.check(as[0].countActiveInequalities() == inequalities, "active-count", "number of active inequalities");
    // the active set as a guess: the library starts from the working set which it returned
    c.step("solve with the guess");
    solver.solve(solution, w->opt, as);
    const mockqp::Record &r = mockqp::record();
    c.check(r.misuse.empty(), "misuse", r.misuse);
    c.check(r.has_bound_guess && r.has_constraint_guess, "guess-given", "the guess does not reach the library");
    for (int v = 0; v < 2; ++v)
        c.check(r.bound_guess[v] == codes_b[v] || (lo[v] == up[v]), "guess-bounds", "guess of the bound of variable " + std::to_string(v));
    for (size_t i = 0; i < rows.size(); ++i) if (!rows[i].simple)
    {
        int g = r.constraint_guess[rows[i].index], e = codes_c[rows[i].index];
        c.check(rows[i].lo == rows[i].up ? (g == -1 || g == 1) : g == e, "guess-constraints", "guess of constraint " + std::to_string(i));
    }
    c.step("solve without a guess");
    solver.solve(solution, w->opt);
    c.check(!mockqp::record().has_bound_guess && !mockqp::record().has_constraint_guess && !mockqp::record().has_guess, "guess-used-again", "a guess is used twice");
    c.state(st.str());
}

// objective only
MC_SCENARIO(active_sets_unconstrained, 1, 1)
{
    humoto::qpoases::Solver solver;
    humoto::ActiveSet as;
    int depth = 3;
    for (int k = 0; k < depth; ++k)
    {
        World w;
        someWorld(c, w, c.choose(4, "problem"), k);
        humoto::Solution solution;
        w.opt.form(solution, w.model, w.problem);
        fresh();
        mockqp::script().exact = false;
        mockqp::script().x.setZero(w.n);
        c.step("solve");
        solver.solve(solution, as, w.opt);
        c.check(as.size() == w.opt.getNumberOfLevels(), "active-size", "levels of the active set");
        std::size_t last = w.opt.getNumberOfLevels() - 1;
        for (std::size_t l = 0; l <= last; ++l)
        {
            c.check(as[l].size() == w.opt[l].getNumberOfConstraints(), "active-size", "size of the active set");
            for (std::size_t i = 0; i < as[l].size(); ++i)
                c.check(as[l][i] == ((l == last || w.specs[1].equality()) ? CA::EQUALITY : CA::INACTIVE), "active-objective", "activity");
        }
        c.step("solve with a guess");
        solver.solve(solution, w.opt, as);
        c.check(mockqp::record().misuse.empty(), "misuse", mockqp::record().misuse);
        c.state(k * 16 + last);
    }
}

// arbitrary guesses
MC_SCENARIO(guesses, 16, 5)
{
    boost::shared_ptr<World> w(constrained(c, 2));
    humoto::qpoases::Solver solver;
    humoto::Solution solution;
    w->opt.form(solution, w->model, w->problem);
    fresh();
    mockqp::script().exact = false;
    mockqp::script().x.setZero(2);
    if (contradictory(*w)) throw mc::Prune();
    solver.solve(solution, w->opt);
    std::vector<Row> rows = rowsOf(c, *w, mockqp::record());
    humoto::ActiveSet guess;
    w->opt.initializeActiveSet(guess);
    guess.set(1, CA::EQUALITY);
    bool undefined = false;
    for (size_t i = 0; i < rows.size(); ++i)
    {
        guess[0][rows[i].place] = (CA::Type) c.choose(5, "guess");
        if (guess[0][rows[i].place] == CA::UNDEFINED) undefined = true;
    }
    bool threw = false;
    c.step("solve");
    fresh();
    mockqp::script().exact = false;
    mockqp::script().x.setZero(2);
    c.step("solve");
    try { solver.solve(solution, w->opt, guess); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw == undefined, "guess-undefined", "undefined guesses must be reported, others accepted");
    const mockqp::Record &r = mockqp::record();
    if (!threw)
    {
        c.check(r.misuse.empty(), "misuse", r.misuse);
        c.check(r.has_bound_guess && r.has_constraint_guess, "guess-given", "the guess does not reach the library");
        static const int codes[] = {99, 0, -1, 1, -1};
        for (size_t i = 0; i < rows.size(); ++i) if (!rows[i].simple)
            c.check(r.constraint_guess[rows[i].index] == codes[guess[0][rows[i].place]], "guess-constraints", "guess of a constraint");
        for (int v = 0; v < 2; ++v)
        {
            // several bounds of a variable: one of the active ones is used
            bool ok = true, active = false;
            for (size_t i = 0; i < rows.size(); ++i) if (rows[i].simple && rows[i].index == v && guess[0][rows[i].place] != CA::INACTIVE)
            {
                if (!active) { active = true; ok = false; }
                if (codes[guess[0][rows[i].place]] == r.bound_guess[v]) ok = true;
            }
            if (!active) ok = r.bound_guess[v] == 0;
            c.check(ok, "guess-bounds", "guess of a bound");
        }
    }
    else c.check(r.calls == 0, "guess-undefined", "the problem is solved with an undefined guess");
    c.step("solve without a guess");
    solver.solve(solution, w->opt);
    c.check(!mockqp::record().has_bound_guess && !mockqp::record().has_constraint_guess && !mockqp::record().has_guess, "guess-used-again", "a guess is used twice");
    std::stringstream st;
    for (size_t i = 0; i < rows.size(); ++i) st << guess[0][rows[i].place] << rows[i].index << rows[i].simple;
    c.state(st.str());
}

// all ways of calling, in sequences: guesses, limits and failures belong to one call
MC_SCENARIO(calls, 16, 3)
{
    humoto::qpoases::Solver solver;
    humoto::qpoases::SolverParameters current;
    int depth = c.thorough ? 3 : 2;
    for (int k = 0; k < depth; ++k)
    {
        World w;
        someWorld(c, w, c.choose(4, "problem"), k);
        humoto::qpoases::Solution solution, guess;
        w.opt.form(solution, w.model, w.problem);
        long size = w.n;
        bool wrong = false;
        int how = c.choose(9, "overload");
        bool gx = how == 2 || how == 6 || how == 7 || how == 8, gas = how == 3 || how == 4 || how == 6 || how == 7, get = how == 3 || how == 5 || how == 6 || how == 8;
        if (gx && c.flip("guess of a wrong size")) { wrong = true; size = c.flip("longer") ? w.n + 1 : w.n - 1; }
        hier::Problem p;
        p.setSize(size);
        p.initSolutionStructure(guess);
        guess.x_.resize(size);
        for (long i = 0; i < size; ++i) guess.x_(i) = 1 + k + i * 0.5;
        humoto::ActiveSet as, as_guess;
        w.opt.initializeActiveSet(as_guess);
        for (size_t l = 0; l < as_guess.size(); ++l) as_guess.set(l, l + 1 == as_guess.size() ? CA::EQUALITY : CA::UPPER_BOUND);
        bool set = c.flip("set parameters");
        if (set || how == 1)
        {
            current.max_number_of_iterations_ = 10 * k + 5;
            current.max_cpu_time_ = c.flip("limit of time") ? 0.25 * (k + 1) : 0.0;
            current.crash_on_any_failure_ = c.flip("failures are fatal");
            current.options_.epsNum = -0.5 - k;
        }
        if (set) { c.step("setParameters"); solver.setParameters(current); }
        fresh();
        mockqp::Script &s = mockqp::script();
        s.exact = false;
        s.x.setConstant(w.n, k + 1.0);
        bool fails = c.flip("failure");
        s.status = fails ? qpOASES::RET_INIT_FAILED_INFEASIBILITY : qpOASES::SUCCESSFUL_RETURN;
        bool threw = false;
        c.step("solve");
        try
        {
            switch (how)
            {
                case 0: solver.solve(solution, w.opt); break;
                case 1: solver.solve(solution, w.opt, current); break;
                case 2: solver.solve(solution, w.opt, guess); break;
                case 3: solver.solve(solution, as, w.opt, as_guess); break;
                case 4: solver.solve(solution, w.opt, as_guess); break;
                case 5: solver.solve(solution, as, w.opt); break;
                case 6: solver.solve(solution, as, w.opt, guess, as_guess); break;
                case 7: solver.solve(solution, w.opt, guess, as_guess); break;
                case 8: solver.solve(solution, as, w.opt, guess); break;
            }
        }
        catch (const std::runtime_error &) { threw = true; }
        const mockqp::Record &r = mockqp::record();
        if (wrong)
        {
            c.check(threw && r.calls == 0, "guess-size", "a guess of a wrong size must be reported");
            continue;
        }
        c.check(threw == (fails && current.crash_on_any_failure_), "failure", "an exception is due when the library fails and this is fatal");
        c.check(r.calls == 1 && r.misuse.empty(), "misuse", "the library is called incorrectly: " + r.misuse);
        sameProblem(c, w, r, 0.0);
        c.check(r.has_guess == gx, "guess", "guess of the solution");
        if (gx) c.nearM(r.guess, guess.x_, "guess", "guess of the solution");
        c.check(r.has_bound_guess == gas && r.has_constraint_guess == gas, "guess-active-set", "guess of the active set");
        if (gas)
        {
            for (int g : r.constraint_guess) c.check(g == 1, "guess-active-set", "guess of a constraint");
            for (long v = 0; v < w.n; ++v)
            {
                bool bounded = false;
                for (size_t t = 0; t < w.specs.size(); ++t) if (w.levels[t] != w.last() && w.specs[t].simple() && w.specs[t].idx[0] == v) bounded = true;
                c.check(r.bound_guess[v] == (bounded ? 1 : 0), "guess-active-set", "guess of a bound");
            }
        }
        c.check(!r.has_dual, "guess-dual", "dual variables are not guessed");
        c.check(r.max_iterations == current.max_number_of_iterations_, "limit-iterations", "limit on the number of iterations");
        c.check(r.has_time == (current.max_cpu_time_ != 0.0), "limit-time", "limit on the time");
        if (r.has_time) c.near(r.max_time, current.max_cpu_time_, "limit-time", "limit on the time");
        c.near(qpOASES::options().epsNum, current.options_.epsNum, "options", "options of the library");
        c.check(qpOASES::options().enableEqualities == qpOASES::BT_TRUE && qpOASES::options().enableRegularisation == qpOASES::BT_TRUE, "options", "options for MPC are used by default");
        if (get && !threw) c.check(as.size() == w.opt.getNumberOfLevels(), "active-size", "returned active set");
        c.check(mockqp::live() <= 3, "leak", "previous problems are not destroyed");
        std::stringstream st; st << how << fails << threw << current.max_cpu_time_ << w.n;
        c.state(st.str());
    }
}
MC_SCENARIO(lifetime, 1, 1)
{
    fresh();
    {
        humoto::qpoases::SolverParameters p;
        humoto::qpoases::Solver a, b(p);
        for (int k = 0; k < 3; ++k)
        {
            World w;
            someWorld(c, w, c.choose(4, "problem"), k);
            humoto::Solution s;
            w.opt.form(s, w.model, w.problem);
            c.step("solve");
            if (c.flip("solver")) a.solve(s, w.opt); else b.solve(s, w.opt);
            if (c.flip("reset")) a.setParameters(p);
            c.check(mockqp::live() >= 4 && mockqp::live() <= 6, "leak", "objects of the library");
        }
    }
    c.check(mockqp::live() == 0, "leak", "objects of the library are not destroyed");
    c.state(1);
}

// ------------------------------------------------------------------ options
namespace
{
    using cfg::Tree;
    using cfg::Values;
    struct Options
    {
        virtual ~Options() {}
        virtual Tree make(Values &v) const = 0;
        virtual Tree observe() const = 0;
        virtual std::string nested() const = 0;
        virtual void read(cfg::Bridge b, const std::string &path, bool strict) = 0;
        virtual void write(cfg::Bridge b, const std::string &path) = 0;
        virtual void use(World &w) = 0;         // solve something with these parameters
        virtual Tree used() const = 0;          // options of the library in the last call
    };
    void base(Tree &t, Values &v) { t.add("crash_on_any_failure", Tree::boolean(v.b())).add("solve_two_levels_as_qp", Tree::boolean(v.b())); }
    template<class P> void base(Tree &t, const P &p) { t.add("crash_on_any_failure", Tree::boolean(p.crash_on_any_failure_)).add("solve_two_levels_as_qp", Tree::boolean(p.solve_two_levels_as_qp_)); }
    template<class P, class S> struct OptionsOf : public Options
    {
        P p;
        void read(cfg::Bridge b, const std::string &path, bool strict)
        {
            if (b == cfg::MSGPACK) p.template readConfig<cfg::Msgpack::Reader>(path, strict);
            else p.template readConfig<cfg::Yaml::Reader>(path, strict);
        }
        void write(cfg::Bridge b, const std::string &path)
        {
            if (b == cfg::MSGPACK) p.template writeConfig<cfg::Msgpack::Writer>(path);
            else p.template writeConfig<cfg::Yaml::Writer>(path);
        }
        void use(World &w)
        {
            humoto::Solution x;
            w.opt.form(x, w.model, w.problem);
            fresh();
            mockqp::script().exact = false;
            mockqp::script().x.setZero(w.n);
            S s(p);
            s.solve(x, w.opt);
        }
    };
#define OASES_ENUMS(F) F(enableRamping) F(enableFarBounds) F(enableFlippingBounds) F(enableRegularisation) F(enableFullLITests) F(enableNZCTests) F(enableEqualities) F(enableInertiaCorrection) F(enableDropInfeasibles)
#define OASES_INTS(F) F(enableDriftCorrection) F(enableCholeskyRefactorisation) F(numRegularisationSteps) F(numRefinementSteps) F(dropBoundPriority) F(dropEqConPriority) F(dropIneqConPriority)
#define OASES_REALS(F) F(terminationTolerance) F(boundTolerance) F(boundRelaxation) F(epsNum) F(epsDen) F(maxPrimalJump) F(maxDualJump) F(initialRamping) F(finalRamping) F(initialFarBounds) F(growFarBounds) \
        F(epsFlipping) F(epsRegularisation) F(epsIterRef) F(epsLITests) F(epsNZCTests) F(rcondSMin)
    Tree oasesOptions(const qpOASES::Options &o)
    {
        Tree t;
#define OBSERVE(x) t.add(#x, Tree::integer(o.x));
        OASES_ENUMS(OBSERVE) OASES_INTS(OBSERVE)
        t.add("initialStatusBounds", Tree::integer(o.initialStatusBounds));
#undef OBSERVE
#define OBSERVE(x) t.add(#x, Tree(o.x));
        OASES_REALS(OBSERVE)
#undef OBSERVE
        return t;
    }
    struct OasesOptions : public OptionsOf<humoto::qpoases::SolverParameters, humoto::qpoases::Solver>
    {
        Tree make(Values &v) const
        {
            Tree t, o;
            base(t, v);
#define MAKE(x) o.add(#x, Tree::integer(v.e(2)));
            OASES_ENUMS(MAKE)
#undef MAKE
#define MAKE(x) o.add(#x, Tree::integer(v.u()));
            OASES_INTS(MAKE)
#undef MAKE
            o.add("initialStatusBounds", Tree::integer(v.e(3)));
#define MAKE(x) o.add(#x, Tree(v.d()));
            OASES_REALS(MAKE)
#undef MAKE
            return t.add("max_number_of_iterations", Tree::integer(v.u())).add("max_cpu_time", Tree(v.pos())).add("QPoasesParameters", o);
        }
        std::string nested() const { return "QPoasesParameters"; }
        Tree observe() const
        {
            Tree t;
            base(t, p);
            return t.add("max_number_of_iterations", Tree::integer(p.max_number_of_iterations_)).add("max_cpu_time", Tree(p.max_cpu_time_)).add("QPoasesParameters", oasesOptions(p.options_));
        }
        Tree used() const { return oasesOptions(qpOASES::options()); }
    };
    Tree madOptions(const qpmad::SolverParameters &p) { Tree t; return t.add("hessian_type", Tree::integer(p.hessian_type_)).add("tolerance", Tree(p.tolerance_)).add("max_iter", Tree::integer(p.max_iter_)); }
    struct MadOptions : public OptionsOf<humoto::qpmad::SolverParameters, humoto::qpmad::Solver>
    {
        Tree make(Values &v) const
        {
            Tree t, o;
            base(t, v);
            o.add("hessian_type", Tree::integer(v.e(3))).add("tolerance", Tree(v.pos())).add("max_iter", Tree::integer(v.u()));
            return t.add("regularization_factor", Tree(v.pos())).add("QPmadParameters", o);
        }
        std::string nested() const { return "QPmadParameters"; }
        Tree observe() const { Tree t; base(t, p); return t.add("regularization_factor", Tree(p.regularization_factor_)).add("QPmadParameters", madOptions(p.options_)); }
        Tree used() const { return madOptions(qpmad::options()); }
    };
    struct ProgOptions : public OptionsOf<humoto::quadprogpp::SolverParameters, humoto::quadprogpp::Solver>
    {
        Tree make(Values &v) const { Tree t; base(t, v); return t.add("regularization_factor", Tree(v.pos())); }
        std::string nested() const { return ""; }
        Tree observe() const { Tree t; base(t, p); return t.add("regularization_factor", Tree(p.regularization_factor_)); }
        Tree used() const { return Tree(); }
    };
    boost::shared_ptr<Options> options(int lib)
    {
        if (lib == OASES) return boost::shared_ptr<Options>(new OasesOptions());
        if (lib == MAD) return boost::shared_ptr<Options>(new MadOptions());
        return boost::shared_ptr<Options>(new ProgOptions());
    }
    void equal(mc::Ctx &c, cfg::Bridge b, const Tree &e, const Tree &g, const char *key, const std::string &what)
    {
        std::string why;
        bool ok = cfg::same(e, g, cfg::tolerance(b), false, why);
        c.check(ok, key, ok ? std::string() : what + ": " + why);
    }
}

MC_SCENARIO(configured_options, 8, 3)
{
    int lib = c.choose(3, "library");
    cfg::Bridge b = c.flip("format") ? cfg::YAML_ : cfg::MSGPACK;
    boost::shared_ptr<Options> o = options(lib), fresh_options = options(lib);
    Values v(c.range(0, 3, "values"));
    Tree t = o->make(v);
    Tree full = t;
    // one entry may be missing or be of another type
    std::vector<cfg::Path> all;
    cfg::paths(t, cfg::Path(), all);
    int what = c.choose(2, "kind of the file");
    cfg::Path damaged;
    if (what == 1)
    {
        damaged = all[c.choose(all.size(), "entry")];
        cfg::at(t, damaged, damaged.size() - 1)->erase(damaged.back());
    }
    bool strict = c.flip("strict");
    Tree root;
    root.add("SolverParameters", t);
    cfg::File in, out;
    in.put(cfg::encode(b, root, true));
    bool threw = false;
    c.step("read");
    try { o->read(b, in.path, strict); } catch (const std::exception &) { threw = true; }
    c.check(threw == (what == 1 && strict), "strictness", "a missing entry must be reported exactly in the strict mode: " + cfg::showPath(damaged));
    if (threw) { c.state(cfg::showPath(damaged)); return; }
    if (what == 0)
    {
        equal(c, b, t, o->observe(), "read", "parameters which were read");
        c.step("write");
        o->write(b, out.path);
        equal(c, b, root, cfg::decode(b, out.get(), &root), "written", "file which was written");
    }
    else
    {
        // a missing entry gets its default value, the rest is read
        Tree e = full, d = fresh_options->observe();
        if (damaged[0].find("crash") == 0 || damaged[0].find("solve_") == 0) { c.state(lib); return; }   // base parameters keep their values
        *cfg::at(e, damaged, damaged.size()) = *cfg::at(d, damaged, damaged.size());
        equal(c, b, e, o->observe(), "default", "parameters without " + cfg::showPath(damaged));
    }
    c.state(cfg::show(t));
    // the options reach the library
    if (!full.find("solve_two_levels_as_qp")->b) return;
    World w;
    someWorld(c, w, c.choose(4, "problem"), 1);
    c.step("solve");
    o->use(w);
    if (o->nested() != "")
    {
        Tree now = o->observe();
        equal(c, b, *now.find(o->nested()), o->used(), "options-used", "options of the library");
    }
}

// ------------------------------------------------------------------ logs
MC_SCENARIO(logs_of_bridges, 4, 2)
{
    int lib = c.choose(3, "library");
    boost::shared_ptr<Driver> d = driver(lib);
    int solved = c.range(0, 2, "number of problems solved");
    void *memory = operator new(4096);
    memset(memory, 0x5A, 4096);
    humoto::Solution *solution = d->derived(memory);
    World w;
    for (int k = 0; k < solved; ++k)
    {
        World x;
        someWorld(c, k + 1 == solved ? w : x, c.choose(4, "problem"), k);
        World &y = k + 1 == solved ? w : x;
        y.opt.form(*solution, y.model, y.problem);
        fresh();
        mockqp::script().exact = false;
        mockqp::script().iterations = 17;
        mockqp::script().x.setConstant(y.n, 1.5);
        c.step("solve");
        d->solve(*solution, y.opt);
    }
    static const char *extra[] = {"qpoases_return_value", "qpmad_return_value", "quadprogpp_return_value"};
    std::string text = logs::written([&] (humoto::Logger &l)
    {
        if (lib == OASES) static_cast<humoto::qpoases::Solution *>(solution)->log(l, humoto::LogEntryName(), "s");
        if (lib == MAD) static_cast<humoto::qpmad::Solution *>(solution)->log(l, humoto::LogEntryName(), "s");
        if (lib == PROG) static_cast<humoto::quadprogpp::Solution *>(solution)->log(l, humoto::LogEntryName(), "s");
    });
    logs::Map got;
    logs::Parser p(text);
    c.check(p.run(got), "log-syntax", p.error + " in " + text);
    c.check(got.count(std::string("s.") + extra[lib]) == 1, "log-missing", "return value of the library is not in the log: " + text);
    if (got["s.status"].m.size() != 1) c.fail("log-value", "status in " + text);
    c.check(got["s.status"].m(0) == solution->return_status_, "log-value", "status in the log");
    double r = got[std::string("s.") + extra[lib]].m(0);
    if (solved) c.near(r, d->code(*solution), "log-value", "return value in the log");
    if (lib == OASES)
    {
        c.check(got.count("s.number_of_iterations") == 1, "log-missing", "number of iterations is not in the log");
        double n = got["s.number_of_iterations"].m(0);
        if (solved) c.near(n, 17, "log-value", "number of iterations in the log");
        else c.check(n == 0, "log-fresh", "a fresh solution has undetermined entries: " + text);
    }
    if (!solved) c.check(r != (double) 0x5A5A5A5A && std::abs(r) < 1e6, "log-fresh", "a fresh solution has undetermined entries: " + text);
    if (solved)
    {
        text = logs::written([&] (humoto::Logger &l) { d->log(l); });
        logs::Map q;
        logs::Parser qp(text);
        c.check(qp.run(q), "log-syntax", qp.error + " in " + text);
        static const char *names[] = {"qpoases", "qpmad", "quadprogpp"};
        std::string prefix = std::string(names[lib]) + ".qp_problem.objective.";
        c.check(q.count(prefix + "g") == 1 && q.count(prefix + "H") == 1, "log-missing", "objective is not in the log: " + text);
        const mockqp::Record &rec = mockqp::record();
        logs::Value g = q[prefix + "g"];
        c.check(g.m.size() == rec.g.size(), "log-value", "gradient in the log");
        for (long i = 0; i < rec.g.size(); ++i) c.near(g.m(i), rec.g(i), "log-value", "gradient in the log");
    }
    c.state(text);
    d.reset();
    solution->~Solution();
    operator delete(memory);
}

