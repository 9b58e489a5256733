// C01: the quadratic objective exported from a hierarchy level is the sum of squared residuals of its tasks.
#include "hier.h"
using namespace hier;

static const int eq_types[8] = { A*5+B, A*5+B0, AS*5+B, AS*5+B0, I*5+B, I*5+B0, GI*5+B, GI*5+B0 };

struct Ref { Eigen::MatrixXd H; Eigen::VectorXd g; bool all_simple; long rows; };

static Ref reference(const std::vector<Spec> &specs, long n)
{
    Ref r;
    r.H = Eigen::MatrixXd::Zero(n, n);
    r.g = Eigen::VectorXd::Zero(n);
    r.all_simple = true;
    r.rows = 0;
    for (size_t k = 0; k < specs.size(); ++k)
    {
        Eigen::MatrixXd D = specs[k].dense(n);
        for (long i = 0; i < specs[k].m; ++i)
            for (long a = 0; a < n; ++a)
            {
                r.g(a) -= D(i, a) * specs[k].lower(i);
                for (long b = 0; b < n; ++b) r.H(a, b) += D(i, a) * D(i, b);
            }
        // a level is simple when every constraint on it is simple
        if (!specs[k].simple() && specs[k].m > 0) r.all_simple = false;
        r.rows += specs[k].m;
    }
    return r;
}

struct World
{
    Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    humoto::Solution solution;
    std::vector<Holder> holders;
    humoto::QPProblem_AB ab;
    humoto::QPProblem_AB_AL abal;
    humoto::QPProblem_ILU_ALU ilualu;
    World() { opt.reset(1); }
    void add(const Spec &s)
    {
        Holder h(new SpecHolder());
        h->spec = s;
        holders.push_back(h);
        opt.pushTask(make(h), opt.getNumberOfLevels() - 1);
    }
};

template<class QP>
static void checkQP(mc::Ctx &c, World &w, QP &qp, const Ref &r, bool upper, long n)
{
    c.step("getQPProblem");
    w.opt.getQPProblem(qp, w.solution, upper);
    const QP &cqp = qp;
    const Eigen::MatrixXd &H = cqp.getHessian();
    c.check(H.rows() == n && H.cols() == n, "hessian-size", "wrong size of the Hessian");
    for (long i = 0; i < n; ++i)
        for (long j = 0; j < (upper ? n : i + 1); ++j)
            c.near(H(i, j), r.H(i, j), "hessian", "Hessian entry");
    c.nearM(cqp.getGradient(), r.g, "gradient", "gradient");
    bool diag = cqp.getHessianType() == humoto::QPObjective::HESSIAN_DIAGONAL;
    bool lower = cqp.getHessianType() == humoto::QPObjective::HESSIAN_LOWER_TRIANGULAR;
    bool generic = cqp.getHessianType() == humoto::QPObjective::HESSIAN_GENERIC;
    c.check(diag || lower || generic, "hessian-type", "type of the Hessian is not set");
    if (diag)
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (i != j) c.check(r.H(i, j) == 0, "hessian-type", "Hessian is declared diagonal, but is not");
    if (r.all_simple) c.check(diag, "hessian-type", "Hessian of a simple objective must be declared diagonal");
    if (!r.all_simple) c.check(upper ? generic : lower, "hessian-type", "wrong declaration of the filled part of the Hessian");
    c.check(cqp.getStatus() == humoto::QPObjective::INITIALIZED, "status", "status after initialization");
}

template<class QP>
static void mutateQP(mc::Ctx &c, QP &qp, int how, const Ref &r, long n)
{
    if (how == 1)
    {
        c.step("regularize");
        qp.regularize(0.5);
        const QP &cqp = qp;
        for (long i = 0; i < n; ++i)
            for (long j = 0; j <= i; ++j) c.near(cqp.getHessian()(i, j), r.H(i, j) + (i == j ? 0.5 : 0.0), "regularize", "regularized Hessian");
        c.nearM(cqp.getGradient(), r.g, "regularize", "gradient changed by regularization");
        c.check(cqp.getStatus() == humoto::QPObjective::MODIFIED, "status", "status after regularization");
    }
    if (how == 2)
    {
        c.step("writable access to the Hessian");
        qp.getHessian().setConstant(3.0);
        qp.getGradient().setConstant(4.0);
        const QP &cqp = qp;
        c.check(cqp.getStatus() == humoto::QPObjective::MODIFIED, "status", "status after modification");
        c.check(cqp.getHessianType() != humoto::QPObjective::HESSIAN_DIAGONAL, "hessian-type", "a modified Hessian is declared diagonal");
    }
}

static void formAndCheck(mc::Ctx &c, World &w, long n, bool upper, int how)
{
    w.problem.setSize(n);
    std::vector<Spec> specs;
    for (size_t i = 0; i < w.holders.size(); ++i) specs.push_back(w.holders[i]->spec);
    for (size_t i = 0; i < specs.size(); ++i) c.note(specs[i].str());
    Ref r = reference(specs, n);
    c.step("form");
    bool threw = false;
    try { w.opt.form(w.solution, w.model, w.problem); } catch (const std::runtime_error &) { threw = true; }
    if (r.rows == 0)
    {
        c.check(threw, "empty-objective", "an empty level is accepted");
        throw mc::Prune();
    }
    c.check(!threw, "form-throws", "formation of a valid hierarchy throws");
    std::stringstream st;
    st << n << ";" << r.H << ";" << r.g;
    c.state(st.str());

    const humoto::HierarchyLevel &lvl = w.opt[w.opt.getNumberOfLevels() - 1];
    Eigen::MatrixXd H;
    Eigen::VectorXd g;
    if (how == 2) { H.setConstant(5, 5, 9.0); g.setConstant(1, 9.0); }
    if (how == 1) { H.setConstant(n, n, 9.0); g.setConstant(n, 9.0); }
    c.step("getObjective");
    lvl.getObjective(H, g);
    c.check(H.rows() == n && H.cols() == n, "objective-size", "wrong size");
    for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) c.near(H(i, j), r.H(i, j), "objective", "A'A entry");
    c.nearM(g, -r.g, "objective", "A'b");

    checkQP(c, w, w.ab, r, upper, n);
    checkQP(c, w, w.abal, r, upper, n);
    checkQP(c, w, w.ilualu, r, upper, n);
    mutateQP(c, w.ab, how, r, n);
    mutateQP(c, w.abal, how, r, n);
    mutateQP(c, w.ilualu, how, r, n);

}

// every single task, every placement and index vector; then re-formed with another shape
MC_SCENARIO(obj_single, 8, 2)
{
    int t = eq_types[c.choose(8, "type")];
    long n = c.range(1, c.thorough ? 5 : 4, "variables");
    long m = c.range(0, (n > 3) ? 2 : 3, "rows");
    World w;
    w.add(chooseSpec(c, t, n, m, c.choose(2, "salt"), true));
    bool upper = c.flip("upper part");
    int how = c.choose(3, "post");
    formAndCheck(c, w, n, upper, how);
    // the same objects again with other data
    long n2 = c.range(1, 3, "variables 2");
    long m2 = c.range(1, 2, "rows 2");
    w.holders[0]->spec = chooseSpec(c, t, n2, m2, 3, false);
    formAndCheck(c, w, n2, !upper, 0);
}

// all sequences of up to three tasks, with empty tasks among them
MC_SCENARIO(obj_sequences, 16, 3)
{
    long n = c.range(2, 3, "variables");
    int k = c.range(2, 3, "tasks");
    World w;
    int two_levels = c.choose(2, "constraint level present");
    if (two_levels)
    {
        w.opt.reset(2);
        Holder h(new SpecHolder());
        h->spec.body = I; h->spec.bounds = B; h->spec.m = 1; h->spec.idx.push_back(n - 1); h->spec.lb.setConstant(1, 3.0); h->spec.ub = h->spec.lb;
        w.opt.pushTask(make(h), 0);
    }
    for (int i = 0; i < k; ++i)
    {
        int t = eq_types[c.choose(8, "type")];
        long m = (k == 3) ? c.range(0, 1, "rows") * 2 : c.range(0, 2, "rows");
        Spec s;
        if (k == 3 && t / 5 == AS)
        {
            s.body = t / 5; s.bounds = t % 5; s.m = m; s.offset = i % 2; s.M.resize(m, n - 1);
            for (long a = 0; a < m; ++a) for (long b = 0; b < n - 1; ++b) s.M(a, b) = val(i, a, b);
            s.lb.resize(m); for (long a = 0; a < m; ++a) s.lb(a) = val(i + 1, a, 2);
            s.ub = s.lb;
        }
        else if (k == 3 && t / 5 != A)
        {
            s.body = t / 5; s.bounds = t % 5; s.m = m;
            for (long a = 0; a < m; ++a) s.idx.push_back((a + i) % n);
            s.gains.setConstant(m, 2.0 + i);
            s.lb.resize(m); for (long a = 0; a < m; ++a) s.lb(a) = val(i + 1, a, 2);
            s.ub = s.lb;
        }
        else s = chooseSpec(c, t, n, m, i, false);
        w.add(s);
    }
    formAndCheck(c, w, n, c.flip("upper part"), 0);
}

// histories: one problem object formed repeatedly while tasks change size; export objects are reused
MC_SCENARIO(obj_histories, 8, 2)
{
    World w;
    int k = c.range(1, 2, "tasks");
    for (int i = 0; i < k; ++i)
    {
        Spec s;
        int t = eq_types[c.choose(8, "type")];
        s.body = t / 5; s.bounds = t % 5;
        w.add(s);
    }
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        int v = c.choose(3, "shape");
        static const long ns[] = {1, 2, 3}, ms[] = {2, 1, 3};
        long n = ns[v], m = ms[v];
        for (int i = 0; i < k; ++i)
        {
            Spec s;
            int body = w.holders[i]->spec.body, bounds = w.holders[i]->spec.bounds;
            s.body = body; s.bounds = bounds; s.m = m;
            if (body == A) { s.M.resize(m, n); for (long a = 0; a < m; ++a) for (long b = 0; b < n; ++b) s.M(a, b) = val(d + i, a, b); }
            if (body == AS) { long wd = (n + 1) / 2; s.offset = n - wd; s.M.resize(m, wd); for (long a = 0; a < m; ++a) for (long b = 0; b < wd; ++b) s.M(a, b) = val(d + i, a, b); }
            if (s.simple()) for (long a = 0; a < m; ++a) s.idx.push_back((a + d) % n);
            s.gains.resize(m);
            s.lb.resize(m);
            for (long a = 0; a < m; ++a) { s.gains(a) = 1 + ((d + a) % 3); s.lb(a) = val(d + 3, a, 0); }
            s.ub = s.lb;
            w.holders[i]->spec = s;
        }
        formAndCheck(c, w, n, c.flip("upper part"), d == 0 ? (int) c.choose(3, "post") : 0);
    }
}

// levels which cannot be an objective are rejected
MC_SCENARIO(obj_rejected, 1, 1)
{
    World w;
    long n = 2;
    int k = c.range(1, 3, "tasks");
    bool ineq = false;
    for (int i = 0; i < k; ++i)
    {
        int t = c.choose(20, "type");
        Spec s = chooseSpec(c, t, n, 1, i, false);
        if (!s.equality()) ineq = true;
        w.add(s);
    }
    w.problem.setSize(n);
    w.opt.form(w.solution, w.model, w.problem);
    c.step("initializeObjective");
    bool threw = false;
    try { w.ab.initializeObjective(w.opt[0]); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw == ineq, "reject", "an objective with inequalities must be rejected, and only such an objective");
    c.check(w.opt[0].isEquality() == !ineq, "reject", "isEquality()");
    c.state(threw);
}


// the ready-made "zero variables" tasks: histories of gain changes, renamed targets, changed structures
MC_SCENARIO(obj_zero_variables, 8, 3)
{
    hier::Model model;
    Problem problem;
    humoto::Solution solution;
    humoto::OptimizationProblem opt;
    opt.reset(1);
    static const double gains[] = {2.0, 0.5, 3.0};
    double gain = gains[c.choose(2, "gain")];
    bool selected = c.flip("selected variables");
    humoto::IndexVector sel;
    static const char *ids[] = {"", "a", "b", "none"};
    std::string id;
    boost::shared_ptr<humoto::TaskZeroVariables> zero;
    boost::shared_ptr<humoto::TaskZeroSelectedVariables> zsel;
    if (selected)
    {
        sel.resize(c.range(1, 2, "count"));
        for (long i = 0; i < sel.size(); ++i) sel[i] = c.choose(3, "index");
        zsel.reset(new humoto::TaskZeroSelectedVariables(sel, gain));
        opt.pushTask(zsel, 0);
    }
    else
    {
        id = ids[c.choose(4, "id")];
        zero.reset(new humoto::TaskZeroVariables(gain, "zero", id));
        opt.pushTask(zero, 0);
    }
    // a constant companion keeps the level non-empty
    Holder h(new SpecHolder());
    h->spec.body = I; h->spec.bounds = B0; h->spec.m = 1; h->spec.idx.push_back(0);
    opt.pushTask(make(h), 0);
    int depth = c.thorough ? 5 : 4;
    for (int d = 0; d < depth; ++d)
    {
        int la = 1 + c.choose(2, "length of a"), lb = 3 - la + c.choose(2, "length of b");
        std::vector<std::pair<std::string, long> > parts;
        parts.push_back(std::make_pair(std::string("a"), (long) la));
        parts.push_back(std::make_pair(std::string("b"), (long) lb));
        problem.setParts(parts);
        long n = la + lb;
        c.step("form");
        opt.form(solution, model, problem);
        Eigen::VectorXd expected = Eigen::VectorXd::Zero(n);
        expected(0) += 1;
        if (selected) for (long i = 0; i < sel.size(); ++i) expected(sel[i]) += gain * gain;
        else
        {
            long from = 0, len = n;
            if (id == "a") len = la;
            if (id == "b") { from = la; len = lb; }
            if (id == "none") len = 0;
            for (long i = 0; i < len; ++i) expected(from + i) += gain * gain;
        }
        humoto::QPProblem_AB qp;
        opt.getQPProblem(qp, solution);
        const humoto::QPProblem_AB &cqp = qp;
        c.nearM(cqp.getHessian(), Eigen::MatrixXd(expected.asDiagonal()), "zero-variables", "Hessian of the task which zeroes variables");
        c.nearM(cqp.getGradient(), Eigen::VectorXd(Eigen::VectorXd::Zero(n)), "zero-variables", "gradient");
        std::stringstream st; st << expected.transpose() << ";" << gain << ";" << id;
        c.state(st.str());
        switch (c.choose(3, "change"))
        {
            case 1:
                gain = gains[(d + 1) % 3];
                c.step("setGain");
                if (selected) zsel->setGain(gain); else zero->setGain(gain);
                break;
            case 2:
                if (!selected) { id = ids[(d + 1) % 4]; c.step("setVariablesID " + id); zero->setVariablesID(id); }
                break;
        }
    }
}
