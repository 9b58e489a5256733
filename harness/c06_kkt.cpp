// C06: the KKT solver returns the minimiser subject to the equalities, whatever was solved before.
#include "hier.h"
#include "humoto/kktsolver.h"
using namespace hier;
typedef humoto::kktsolver::SolverParameters Par;

static const int eq_types[] = {A*5+B, A*5+B0, AS*5+B, AS*5+B0, I*5+B, I*5+B0, GI*5+B, GI*5+B0};

struct Prob
{
    std::vector<Spec> ctr, obj;
    long n;
    hier::Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    humoto::Solution solution;
    Eigen::MatrixXd H, At;
    Eigen::VectorXd g, b;

    void make()
    {
        opt.reset(ctr.empty() ? 1 : 2);
        for (size_t i = 0; i < ctr.size(); ++i) push(ctr[i], 0);
        for (size_t i = 0; i < obj.size(); ++i) push(obj[i], ctr.empty() ? 0 : 1);
        problem.setSize(n);
        opt.form(solution, model, problem);
        H.setZero(n, n);
        g.setZero(n);
        for (size_t i = 0; i < obj.size(); ++i)
        {
            Eigen::MatrixXd D = obj[i].dense(n);
            for (long r = 0; r < obj[i].m; ++r)
                for (long a = 0; a < n; ++a)
                {
                    g(a) -= D(r, a) * obj[i].lower(r);
                    for (long k = 0; k < n; ++k) H(a, k) += D(r, a) * D(r, k);
                }
        }
        long m = 0;
        for (size_t i = 0; i < ctr.size(); ++i) m += ctr[i].m;
        At.setZero(m, n);
        b.setZero(m);
        m = 0;
        for (size_t i = 0; i < ctr.size(); ++i)
        {
            At.middleRows(m, ctr[i].m) = ctr[i].dense(n);
            for (long r = 0; r < ctr[i].m; ++r) b(m + r) = ctr[i].lower(r);
            m += ctr[i].m;
        }
    }
    void push(const Spec &s, int level)
    {
        Holder h(new SpecHolder());
        h->spec = s;
        opt.pushTask(hier::make(h), level);
    }
    // 0 singular, 1 well conditioned
    bool regular() const
    {
        long m = At.rows();
        Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n + m, n + m);
        K.topLeftCorner(n, n) = H;
        K.topRightCorner(n, m) = At.transpose();
        K.bottomLeftCorner(m, n) = At;
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(K);
        return svd.singularValues()(n + m - 1) > 1e-4 * svd.singularValues()(0);
    }
    bool diagonal() const { for (size_t i = 0; i < obj.size(); ++i) if (!obj[i].simple()) return false; return true; }
    double objective(const Eigen::VectorXd &x) const { return 0.5 * x.dot(H * x) + g.dot(x); }
};

static Prob *chooseProb(mc::Ctx &c, long n, bool small, int salt)
{
    Prob *p = new Prob();
    p->n = n;
    int k = c.range(0, small ? 1 : 2, "constraint tasks");
    try
    {
        for (int i = 0; i < k; ++i) p->ctr.push_back(chooseSpec(c, eq_types[small ? 2 * c.choose(4, "type") : c.choose(8, "type")], n, 1 + (small ? 0 : (int) c.choose(n > 1 ? 2 : 1, "rows")), i + salt, false));
        int t = c.choose(small ? 3 : 4, "objective");
        // well conditioned objectives: identity-like indexed tasks, a dense one, mixtures
        Spec s;
        s.body = (t == 0) ? I : GI; s.bounds = B; s.m = n;
        for (long i = 0; i < n; ++i) s.idx.push_back(n - 1 - i);
        s.gains.resize(n); s.lb.resize(n);
        for (long i = 0; i < n; ++i) { s.gains(i) = 1 + (i + salt) % 3; s.lb(i) = val(salt, i, 3); }
        s.ub = s.lb;
        p->obj.push_back(s);
        if (t == 2) p->obj.push_back(chooseSpec(c, A*5+B, n, 2, 4 + salt, false));
        if (t == 3) p->obj.push_back(chooseSpec(c, AS*5+B0, n, 1, 3 + salt, false));
    }
    catch (...) { delete p; throw; }
    return p;
}

static void checkOptimal(mc::Ctx &c, Prob &p, const humoto::Solution &s, double tol)
{
    c.check(s.return_status_ == humoto::SolverStatus::OK, "status", "status of a solved problem");
    c.check(s.get_x().size() == p.n, "size", "size of the solution");
    for (long i = 0; i < p.n; ++i) c.check(std::isfinite(s.get_x()(i)), "finite", "solution is not finite");
    Eigen::VectorXd r = p.At * s.get_x() - p.b;
    for (long i = 0; i < r.size(); ++i) c.near(r(i), 0.0, "feasible", "equality constraint", tol);
    // stationarity on the null space of the constraints
    Eigen::VectorXd grad = p.H * s.get_x() + p.g;
    if (p.At.rows() == 0) for (long i = 0; i < p.n; ++i) c.near(grad(i), 0.0, "optimal", "gradient", tol * 10);
    else
    {
        Eigen::FullPivLU<Eigen::MatrixXd> lu(p.At);
        if (lu.rank() < p.n)
        {
            Eigen::MatrixXd Z = lu.kernel();
            Eigen::VectorXd zg = Z.transpose() * grad;
            for (long i = 0; i < zg.size(); ++i) c.near(zg(i), 0.0, "optimal", "gradient on the null space of the constraints", tol * 10);
        }
    }
}

static void setMethod(Par &par, int m)
{
    par.solution_method_ = m == 0 ? Par::LU : (m == 1 ? Par::QR : Par::CONSTRAINT_ELIMINATION_LLT);
}

MC_SCENARIO(kkt_single, 16, 4)
{
    long n = c.range(1, c.thorough ? 4 : 3, "variables");
    boost::shared_ptr<Prob> p(chooseProb(c, n, false, 0));
    p->make();
    if (!p->regular()) throw mc::Prune();
    int m = c.choose(3, "method");
    Par par;
    setMethod(par, m);
    humoto::kktsolver::Solver solver;
    int how = c.choose(2, "parameters");
    bool threw = false;
    c.step("solve");
    try
    {
        if (how == 0) { solver.setParameters(par); solver.solve(p->solution, p->opt); }
        else solver.solve(p->solution, p->opt, par);
    }
    catch (const std::runtime_error &) { threw = true; }
    bool reject = (m == 2 && !p->diagonal());
    c.check(threw == reject, "reject", "the elimination method needs a diagonal Hessian; anything else must be solved");
    std::stringstream st; st << n << p->H << p->g << p->At << p->b << m;
    c.state(st.str());
    if (reject) return;
    checkOptimal(c, *p, p->solution, m == 2 ? 1e-5 : 1e-7);
}

// one solver object solves a sequence of problems: the result must not depend on the past
MC_SCENARIO(kkt_histories, 16, 5)
{
    humoto::kktsolver::Solver solver;
    int depth = c.thorough ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        long n = c.range(1, 3, "variables");
        boost::shared_ptr<Prob> p(chooseProb(c, n, true, d));
        p->make();
        if (!p->regular()) throw mc::Prune();
        int m = c.choose(3, "method");
        Par par;
        setMethod(par, m);
        bool reject = (m == 2 && !p->diagonal());
        bool threw = false;
        c.step("solve");
        try { solver.solve(p->solution, p->opt, par); } catch (const std::runtime_error &) { threw = true; }
        c.check(threw == reject, "reject", "rejection depends on the past");
        if (!reject)
        {
            checkOptimal(c, *p, p->solution, m == 2 ? 1e-5 : 1e-7);
            humoto::kktsolver::Solver fresh(par);
            humoto::Solution s2 = p->solution;
            s2.x_.setConstant(n, 77.0);
            fresh.solve(s2, p->opt);
            c.nearM(p->solution.get_x(), s2.get_x(), "history", "a reused solver and a fresh one disagree");
        }
        std::stringstream st; st << n << p->H << p->g << p->At << p->b << m << reject;
        c.state(st.str());
        // problems that must be rejected between the good ones
        int bad = c.choose(4, "bad problem in between");
        if (bad > 0)
        {
            hier::Model model;
            Problem problem;
            problem.setSize(2);
            humoto::OptimizationProblem opt;
            opt.reset(bad == 1 ? 3 : 2);
            for (size_t l = 0; l < opt.getNumberOfLevels(); ++l)
            {
                Holder h(new SpecHolder());
                h->spec = chooseSpec(c, (bad == 2 && l == 0) || (bad == 3 && l == 1) ? A*5+LU : A*5+B, 2, 1, l, false);
                opt.pushTask(hier::make(h), l);
            }
            humoto::Solution s;
            opt.form(s, model, problem);
            bool t2 = false;
            c.step("solve a hierarchy which cannot be solved");
            try { solver.solve(s, opt); } catch (const std::runtime_error &) { t2 = true; }
            c.check(t2, "reject", "a hierarchy with three levels or with inequalities is accepted by the KKT solver");
        }
    }
}

// parameters: unknown method is rejected, defaults are restored
MC_SCENARIO(kkt_parameters, 1, 1)
{
    Par p;
    int k = c.choose(4, "changes");
    if (k & 1) p.solution_method_ = Par::CONSTRAINT_ELIMINATION_LLT;
    if (k & 2) { p.solution_method_ = Par::QR; p.elimination_regularization_factor_ = 1; }
    c.step("setDefaults");
    p.setDefaults();
    c.check(p.solution_method_ == Par::LU && p.elimination_regularization_factor_ == 1e-08, "defaults", "defaults of the method");
    boost::shared_ptr<Prob> pr(new Prob());
    pr->n = 1;
    pr->obj.push_back(chooseSpec(c, I*5+B, 1, 1, 0, false));
    pr->make();
    p.solution_method_ = (Par::Method) (k == 0 ? 0 : 4);
    humoto::kktsolver::Solver s(p);
    bool threw = false;
    c.step("solve");
    try { s.solve(pr->solution, pr->opt); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw, "unknown-method", "an unknown method is accepted");
    c.state(k);
}
