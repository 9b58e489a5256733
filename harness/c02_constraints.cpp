// C02: every exported form of the constraints of a level describes exactly the constraints of its tasks.
#include "hier.h"
using namespace hier;

struct Row { Eigen::VectorXd a; double l, u; };

struct World
{
    hier::Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    humoto::Solution solution;
    std::vector<Holder> holders;
    std::vector<humoto::TaskSharedPointer> tasks;
    humoto::constraints::ContainerALU all, general;
    humoto::constraints::ContainerILU simple;
    humoto::constraints::ContainerAB eq;
    humoto::constraints::ContainerAL ineq;
    humoto::QPProblem_AB qp_ab;
    humoto::QPProblem_AB_AL qp_abal;
    humoto::QPProblem_ILU_ALU qp_ilu;
    World() { opt.reset(2); }
    void add(const Spec &s)
    {
        Holder h(new SpecHolder());
        h->spec = s;
        holders.push_back(h);
        tasks.push_back(make(h));
        opt.pushTask(tasks.back(), 0);
    }
    void addObjective()
    {
        opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), 1);
    }
};

static bool feasible(const std::vector<Row> &rows, const Eigen::VectorXd &x)
{
    for (size_t i = 0; i < rows.size(); ++i)
    {
        double v = rows[i].a.dot(x);
        if (v < rows[i].l - 1e-12 || v > rows[i].u + 1e-12) return false;
    }
    return true;
}

static void addRows(std::vector<Row> &rows, const humoto::constraints::ContainerALU &k)
{
    for (std::size_t i = 0; i < k.getNumberOfConstraints(); ++i)
    {
        Row r;
        r.a = k.getA().row(i).transpose();
        r.l = k.getLowerBounds()(i);
        r.u = k.getUpperBounds()(i);
        rows.push_back(r);
    }
}
static void addRows(std::vector<Row> &rows, const humoto::constraints::ContainerAB &k)
{
    for (std::size_t i = 0; i < k.getNumberOfConstraints(); ++i)
    {
        Row r;
        r.a = k.getA().row(i).transpose();
        r.l = r.u = k.getB()(i);
        rows.push_back(r);
    }
}
static void addRows(std::vector<Row> &rows, const humoto::constraints::ContainerAL &k)
{
    for (std::size_t i = 0; i < k.getNumberOfConstraints(); ++i)
    {
        Row r;
        r.a = k.getA().row(i).transpose();
        r.l = k.getLowerBounds()(i);
        r.u = inf();
        rows.push_back(r);
    }
}

template<class K> static void checkDims(mc::Ctx &c, const K &k, size_t m, long n)
{
    c.check(k.getNumberOfConstraints() == m, "row-count", "wrong number of exported constraints");
    c.check(k.getNumberOfVariables() == (size_t) n, "variable-count", "wrong number of variables");
}

static void sameSet(mc::Ctx &c, const std::vector<Row> &a, const std::vector<Row> &b, long n, const char *what)
{
    // every point of the grid {-2..2}^n (half steps for n<=2)
    int k = (n <= 2) ? 13 : 5;
    double h = (n <= 2) ? 0.5 : 1.0;
    long total = 1;
    for (long i = 0; i < n; ++i) total *= k;
    for (long p = 0; p < total; ++p)
    {
        Eigen::VectorXd x(n);
        long q = p;
        for (long i = 0; i < n; ++i) { x(i) = (q % k - k / 2) * h; q /= k; }
        if (feasible(a, x) != feasible(b, x))
        {
            std::stringstream s;
            s << what << ": point " << x.transpose() << " is " << (feasible(b, x) ? "feasible" : "infeasible") << " for the tasks, but not for the exported constraints";
            c.fail("feasible-set", s.str());
        }
    }
    ++c.checks;
}

static void verify(mc::Ctx &c, World &w, long n, bool grid)
{
    w.problem.setSize(n);
    std::vector<const Spec *> specs;
    size_t rows = 0, ngen = 0, nsim = 0, neq = 0, none = 0;
    bool has_gi = false;
    for (size_t i = 0; i < w.holders.size(); ++i)
    {
        const Spec &s = w.holders[i]->spec;
        specs.push_back(&s);
        c.note(s.str());
        rows += s.m;
        (s.simple() ? nsim : ngen) += s.m;
        if (s.equality()) neq += s.m; else none += s.m * (s.twosided() ? 2 : 1);
        if (s.body == GI && s.m >= 0) has_gi = true;
    }
    c.step("form");
    bool threw = false;
    try { w.opt.form(w.solution, w.model, w.problem); } catch (const std::runtime_error &) { threw = true; }
    if (rows == 0) { c.check(threw, "empty-level", "a level without constraints is accepted"); throw mc::Prune(); }
    c.check(!threw, "form-throws", "formation of a valid hierarchy throws");
    const humoto::HierarchyLevel &lvl = w.opt[0];

    // counts
    c.check(lvl.getNumberOfConstraints() == rows, "counts", "number of constraints");
    c.check(lvl.getNumberOfSimpleConstraints() == nsim, "counts", "number of simple constraints");
    c.check(lvl.getNumberOfGeneralConstraints() == ngen, "counts", "number of general constraints");
    c.check(lvl.getNumberOfEqualityConstraints() == neq, "counts", "number of equalities");
    c.check(lvl.getNumberOfInequalityConstraints() == rows - neq, "counts", "number of inequalities");
    c.check(lvl.getNumberOfInequalityConstraintsOneSided() == none, "counts", "number of one-sided inequalities");
    c.check(lvl.isSimple() == (nsim == rows), "counts", "isSimple");
    c.check(lvl.isEquality() == (neq == rows), "counts", "isEquality");

    // locations: a permutation of the tasks, contiguous, general first
    c.check(lvl.tasks_.size() == w.tasks.size(), "locations", "number of tasks on the level");
    std::vector<int> used(rows, 0);
    std::vector<Row> ref(rows);
    std::vector<Row> spec_rows;
    std::stringstream st;
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = lvl.tasks_.begin(); it != lvl.tasks_.end(); ++it)
    {
        size_t k = 0;
        while (k < w.tasks.size() && w.tasks[k].get() != it->ptr_.get()) ++k;
        c.check(k < w.tasks.size(), "locations", "unknown task on the level");
        const Spec &s = *specs[k];
        c.check(it->location_.length_ == (size_t) s.m, "locations", "length of the location of a task");
        c.check(it->location_.offset_ + it->location_.length_ <= rows, "locations", "location is out of bounds");
        Eigen::MatrixXd D = s.dense(n);
        for (long i = 0; i < s.m; ++i)
        {
            size_t r = it->location_.offset_ + i;
            c.check(!used[r], "locations", "locations of tasks overlap");
            used[r] = 1;
            c.check(s.simple() == (r >= ngen), "locations", "general constraints must precede simple constraints");
            ref[r].a = D.row(i).transpose();
            ref[r].l = s.lower(i);
            ref[r].u = s.upper(i);
        }
        st << s.str() << D << "@" << it->location_.offset_ << ";";
    }
    c.state(st.str());
    spec_rows = ref;

    // all constraints: row r belongs to the constraint with this index
    c.step("getAllConstraints");
    lvl.getAllConstraints(w.all, w.solution);
    checkDims(c, w.all, rows, n);
    for (size_t r = 0; r < rows; ++r)
    {
        c.nearM(Eigen::VectorXd(w.all.getA().row(r).transpose()), ref[r].a, "all", "row of A");
        c.near(w.all.getLowerBounds()(r), ref[r].l, "all", "lower bound");
        c.near(w.all.getUpperBounds()(r), ref[r].u, "all", "upper bound");
    }
    c.step("getGeneralConstraints");
    lvl.getGeneralConstraints(w.general, w.solution);
    checkDims(c, w.general, ngen, n);
    for (size_t r = 0; r < ngen; ++r)
    {
        c.nearM(Eigen::VectorXd(w.general.getA().row(r).transpose()), ref[r].a, "general", "row of A");
        c.near(w.general.getLowerBounds()(r), ref[r].l, "general", "lower bound");
        c.near(w.general.getUpperBounds()(r), ref[r].u, "general", "upper bound");
    }
    c.step("getSimpleConstraints");
    threw = false;
    try { lvl.getSimpleConstraints(w.simple, w.solution); } catch (const std::runtime_error &) { threw = true; }
    // weighted simple constraints cannot be written as plain bounds: rejecting is fine, dropping is not
    c.check(!threw || has_gi, "simple", "export of simple constraints throws");
    bool simple_ok = !threw;
    if (simple_ok)
    {
        checkDims(c, w.simple, nsim, n);
        for (size_t r = 0; r < nsim; ++r)
        {
            Eigen::VectorXd a = Eigen::VectorXd::Zero(n);
            a(w.simple.getIndices()(r)) = 1.0;
            c.nearM(a, ref[ngen + r].a, "simple", "index");
            c.near(w.simple.getLowerBounds()(r), ref[ngen + r].l, "simple", "lower bound");
            c.near(w.simple.getUpperBounds()(r), ref[ngen + r].u, "simple", "upper bound");
        }
        // bounds on the whole solution
        Eigen::VectorXd lb = Eigen::VectorXd::Constant(n, -inf()), ub = Eigen::VectorXd::Constant(n, inf());
        bool inconsistent = false;
        for (size_t r = 0; r < nsim; ++r)
        {
            long v = w.simple.getIndices()(r);
            lb(v) = std::max(lb(v), ref[ngen + r].l);
            ub(v) = std::min(ub(v), ref[ngen + r].u);
            if (lb(v) > ub(v)) inconsistent = true;
        }
        Eigen::VectorXd glb, gub;
        glb.setConstant(7, 1.0);
        c.step("initializeSolutionBounds");
        threw = false;
        try { w.simple.initializeSolutionBounds(glb, gub); } catch (const std::runtime_error &) { threw = true; }
        c.check(threw == inconsistent, "solution-bounds", "contradictory bounds must be rejected, and only they");
        if (!threw)
        {
            if (nsim == 0) c.check(glb.size() == 0 && gub.size() == 0, "solution-bounds", "bounds of an unbounded problem");
            else
            {
                c.nearM(glb, lb, "solution-bounds", "lower");
                c.nearM(gub, ub, "solution-bounds", "upper");
            }
        }
    }
    c.step("getEqualityConstraints");
    lvl.getEqualityConstraints(w.eq, w.solution);
    checkDims(c, w.eq, neq, n);
    c.step("getInequalityConstraints");
    lvl.getInequalityConstraints(w.ineq, w.solution);
    checkDims(c, w.ineq, none, n);
    // every equality row appears, in the order of the rows of the level
    {
        size_t k = 0;
        std::vector<Row> e, q;
        for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = lvl.tasks_.begin(); it != lvl.tasks_.end(); ++it)
        {
            size_t ti = 0;
            while (w.tasks[ti].get() != it->ptr_.get()) ++ti;
            const Spec &s = *specs[ti];
            for (long i = 0; i < s.m; ++i)
            {
                Row r = ref[it->location_.offset_ + i];
                if (s.equality()) e.push_back(r);
                else
                {
                    if (s.bounds != U) { Row x = r; x.u = inf(); q.push_back(x); }
                    if (s.bounds != L) { Row x; x.a = -r.a; x.l = -r.u; x.u = inf(); q.push_back(x); }
                }
            }
        }
        for (k = 0; k < e.size(); ++k)
        {
            c.nearM(Eigen::VectorXd(w.eq.getA().row(k).transpose()), e[k].a, "equalities", "row of A");
            c.near(w.eq.getB()(k), e[k].l, "equalities", "b");
        }
        // one-sided rows: as a multiset
        std::vector<int> taken(q.size(), 0);
        c.check(q.size() == w.ineq.getNumberOfConstraints(), "inequalities", "number of one-sided rows");
        for (k = 0; k < q.size(); ++k)
        {
            size_t m = 0;
            for (; m < q.size(); ++m)
            {
                if (taken[m]) continue;
                if ((w.ineq.getA().row(m).transpose() - q[k].a).norm() < 1e-9 && std::fabs(w.ineq.getLowerBounds()(m) - q[k].l) < 1e-9) break;
            }
            c.check(m < q.size(), "inequalities", "a one-sided inequality is missing");
            taken[m] = 1;
        }
    }
    // the same through the QP problems
    c.step("getQPProblem AB_AL");
    w.opt.getQPProblem(w.qp_abal, w.solution);
    std::vector<Row> x1;
    addRows(x1, w.qp_abal.getEqualities());
    addRows(x1, w.qp_abal.getInequalities());
    c.check(w.qp_abal.getEqualities().getNumberOfConstraints() == neq, "qp-ab-al", "equalities");
    c.check(w.qp_abal.getInequalities().getNumberOfConstraints() == none, "qp-ab-al", "inequalities");
    if (grid) sameSet(c, x1, spec_rows, n, "AB_AL");
    if (neq == rows)
    {
        c.step("getQPProblem AB");
        w.opt.getQPProblem(w.qp_ab, w.solution);
        std::vector<Row> x2;
        addRows(x2, w.qp_ab.getEqualities());
        c.check(x2.size() == rows, "qp-ab", "equalities");
        if (grid) sameSet(c, x2, spec_rows, n, "AB");
    }
    else
    {
        threw = false;
        try { w.opt.getQPProblem(w.qp_ab, w.solution); } catch (const std::runtime_error &) { threw = true; }
        c.check(threw, "qp-ab", "inequalities are silently accepted by an equality-constrained QP");
    }
    c.step("getQPProblem ILU_ALU");
    threw = false;
    try { w.opt.getQPProblem(w.qp_ilu, w.solution); } catch (const std::runtime_error &) { threw = true; }
    if (!threw)
    {
        std::vector<Row> x3;
        addRows(x3, w.qp_ilu.getGeneralConstraints());
        for (long i = 0; i < w.qp_ilu.getSolutionLowerBounds().size(); ++i)
        {
            Row r;
            r.a = Eigen::VectorXd::Zero(n);
            r.a(i) = 1;
            r.l = w.qp_ilu.getSolutionLowerBounds()(i);
            r.u = w.qp_ilu.getSolutionUpperBounds()(i);
            x3.push_back(r);
        }
        c.check(w.qp_ilu.getGeneralConstraints().getNumberOfConstraints() == ngen, "qp-ilu-alu", "general constraints");
        c.check(w.qp_ilu.getSimpleBounds().getNumberOfConstraints() == nsim, "qp-ilu-alu", "simple constraints");
        if (grid) sameSet(c, x3, spec_rows, n, "ILU_ALU");
    }
    if (threw && !has_gi)
    {
        // the only legitimate reason: contradictory simple bounds
        std::vector<Row> s(spec_rows.begin() + ngen, spec_rows.end());
        std::vector<Row> none_rows;
        bool contradictory = false;
        for (size_t a = 0; a < s.size(); ++a) for (size_t b = 0; b < s.size(); ++b)
            if ((s[a].a - s[b].a).norm() < 1e-12 && s[a].l > s[b].u) contradictory = true;
        c.check(contradictory, "qp-ilu-alu", "formation of a valid QP throws");
    }
}

MC_SCENARIO(ctr_single, 8, 2)
{
    int t = c.choose(20, "type");
    long n = c.range(1, c.thorough ? 4 : 3, "variables");
    long m = c.range(0, 3, "rows");
    World w;
    w.addObjective();
    Spec s = chooseSpec(c, t, n, m, c.choose(2, "salt"), true);
    // bounds: equal, ordered, contradictory, infinite
    for (long i = 0; i < m; ++i)
    {
        int k = c.choose(i == 0 ? 4 : 2, "bounds");
        if (k == 1) s.ub(i) = s.lb(i);
        if (k == 2) s.ub(i) = s.lb(i) - 1;
        if (k == 3) { s.ub(i) = inf(); if (s.bounds == LU) s.lb(i) = -inf(); }
    }
    w.add(s);
    verify(c, w, n, true);
}

MC_SCENARIO(ctr_pairs, 16, 3)
{
    long n = c.range(2, 3, "variables");
    World w;
    int t0 = c.choose(20, "type"), t1 = c.choose(20, "type");
    w.add(chooseSpec(c, t0, n, c.range(0, 2, "rows"), 0, false));
    w.add(chooseSpec(c, t1, n, c.range(0, 2, "rows"), 1, false));
    w.addObjective();
    verify(c, w, n, true);
}

// three tasks of any types; then the same objects are formed again with another number of variables / rows
MC_SCENARIO(ctr_triples_reuse, 16, 2)
{
    long n = 2;
    World w;
    w.addObjective();
    int types[3];
    for (int i = 0; i < 3; ++i)
    {
        types[i] = c.choose(20, "type");
        Spec s;
        s.body = types[i] / 5; s.bounds = types[i] % 5;
        w.add(s);
    }
    int ticks = 2;
    for (int d = 0; d < ticks; ++d)
    {
        n = (d == 0) ? 3 : 2;
        int rot = c.choose(c.thorough ? 4 : 2, "row pattern");
        for (int i = 0; i < 3; ++i)
        {
            Spec s;
            s.body = types[i] / 5; s.bounds = types[i] % 5;
            s.m = (i + rot + d) % 3;
            if (s.body == A) { s.M.resize(s.m, n); for (long a = 0; a < s.m; ++a) for (long b = 0; b < n; ++b) s.M(a, b) = val(d + i, a, b); }
            if (s.body == AS) { s.offset = (i + d) % 2; s.M.resize(s.m, n - 1); for (long a = 0; a < s.m; ++a) for (long b = 0; b < n - 1; ++b) s.M(a, b) = val(d + i, a, b); }
            if (s.simple()) for (long a = 0; a < s.m; ++a) s.idx.push_back((a + d + i) % n);
            s.gains.resize(s.m); s.lb.resize(s.m); s.ub.resize(s.m);
            for (long a = 0; a < s.m; ++a) { s.gains(a) = 2 + a; s.lb(a) = -1 - i + a; s.ub(a) = 1 + i + a; }
            w.holders[i]->spec = s;
        }
        verify(c, w, n, d == 1);
    }
}

// one- and two-level hierarchies exported into the same QP objects: nothing leaks from the previous problem
MC_SCENARIO(ctr_levels_history, 4, 2)
{
    hier::Model model;
    humoto::QPProblem_AB qp_ab;
    humoto::QPProblem_AB_AL qp_abal;
    humoto::QPProblem_ILU_ALU qp_ilu;
    int depth = 3;
    for (int d = 0; d < depth; ++d)
    {
        int levels = c.range(1, 2, "levels");
        long n = c.range(1, 3, "variables");
        int kind = c.choose(4, "kind of constraints");
        humoto::OptimizationProblem opt;
        opt.reset(levels);
        Problem problem;
        humoto::Solution solution;
        problem.setSize(n);
        opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), levels - 1);
        static const int kinds[] = {A*5+B, I*5+LU, A*5+LU, I*5+B};
        if (levels == 1 && kind > 0) throw mc::Prune();
        if (levels == 2)
        {
            Holder h(new SpecHolder());
            h->spec.body = kinds[kind] / 5; h->spec.bounds = kinds[kind] % 5;
            h->spec.m = 1;
            h->spec.M.setConstant(1, n, 2.0);
            h->spec.idx.push_back(n - 1);
            h->spec.lb.setConstant(1, 1.0); h->spec.ub.setConstant(1, 2.0);
            opt.pushTask(make(h), 0);
        }
        opt.form(solution, model, problem);
        bool equality = (kind == 0 || kind == 3);
        bool simple = (kind == 1 || kind == 3);
        size_t ctr = levels - 1;
        c.step("getQPProblem");
        opt.getQPProblem(qp_abal, solution);
        checkDims(c, qp_abal.getEqualities(), equality ? ctr : 0, n);
        checkDims(c, qp_abal.getInequalities(), equality ? 0 : 2 * ctr, n);
        opt.getQPProblem(qp_ilu, solution);
        checkDims(c, qp_ilu.getGeneralConstraints(), simple ? 0 : ctr, n);
        checkDims(c, qp_ilu.getSimpleBounds(), simple ? ctr : 0, n);
        c.check(qp_ilu.getSolutionLowerBounds().size() == ((simple && ctr) ? n : 0), "bounds-leak", "size of the bounds");
        c.check(qp_ilu.getSolutionUpperBounds().size() == ((simple && ctr) ? n : 0), "bounds-leak", "size of the bounds");
        if (equality)
        {
            opt.getQPProblem(qp_ab, solution);
            checkDims(c, qp_ab.getEqualities(), ctr, n);
        }
        c.state(mc::mix(mc::mix(levels, n), kind));
    }
}

// hierarchies with other numbers of levels are rejected
MC_SCENARIO(ctr_levels_rejected, 1, 1)
{
    hier::Model model;
    Problem problem;
    problem.setSize(2);
    humoto::Solution solution;
    int levels = c.range(1, 4, "levels");
    humoto::OptimizationProblem opt;
    opt.reset(levels);
    for (int i = 0; i < levels; ++i) opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), i);
    bool threw = false;
    try { opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), levels); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw, "level-index", "a task is accepted on a level which does not exist");
    opt.form(solution, model, problem);
    humoto::QPProblem_AB_AL qp;
    threw = false;
    c.step("getQPProblem");
    try { opt.getQPProblem(qp, solution); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw == (levels > 2), "qp-levels", "number of levels of a QP");
    c.state(levels);
}

// the infeasible task of the core is infeasible, for every number of variables and after every change of it
MC_SCENARIO(ctr_infeasible, 4, 1)
{
    hier::Model model;
    humoto::OptimizationProblem opt;
    opt.reset(2);
    opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskInfeasibleInequality()), 0);
    opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), 1);
    for (int d = 0; d < (c.thorough ? 4 : 3); ++d)
    {
        long n = c.range(1, 4, "n");
        Problem problem;
        problem.setSize(n);
        humoto::Solution solution;
        c.step("form");
        opt.form(solution, model, problem);
        humoto::constraints::ContainerALU all;
        opt[0].getAllConstraints(all, solution);
        c.check(all.getNumberOfVariables() == (size_t) n, "infeasible", "number of variables");
        std::vector<Row> r, q, nothing;
        addRows(r, all);
        humoto::QPProblem_AB_AL qp;
        opt.getQPProblem(qp, solution);
        addRows(q, qp.getEqualities());
        addRows(q, qp.getInequalities());
        Eigen::VectorXd never = Eigen::VectorXd::Zero(n);
        Row no; no.a = never; no.l = 1; no.u = 1;
        nothing.push_back(no);
        sameSet(c, r, nothing, n, "infeasible task");
        sameSet(c, q, nothing, n, "infeasible task in a QP");
        c.state(mc::mix(n, d));
    }
}
