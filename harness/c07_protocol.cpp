// C07: the protocol of the solver interface: order of the steps, guesses, failures, admissible hierarchies.
#include "hier.h"
using namespace hier;

struct Par : public humoto::SolverParametersBase
{
    int tag;
    Par() : tag(0) {}
};

// a recording solver
struct Script
{
    humoto::SolverStatus::Status status;
    bool inputs_ok;
    std::vector<std::string> calls;
    const void *guess_sol, *guess_as, *out_as;
    int tag;
    double x;
};
struct FullSolver : public humoto::SolverGuessSolutionActiveSet<Par>
{
    Script *s;
    explicit FullSolver(Script *script) : s(script) {}
    void checkInputs(const humoto::OptimizationProblem &) const
    {
        s->calls.push_back("check");
        if (!s->inputs_ok) HUMOTO_THROW_MSG("bad inputs");
    }
    void reset() { s->calls.push_back("reset"); }
    void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) { s->calls.push_back("init"); }
    void setSolutionGuess(const humoto::Solution &g) { s->calls.push_back("guess_x"); s->guess_sol = &g; }
    void setActiveSet(const humoto::ActiveSet &a, const humoto::OptimizationProblem &) { s->calls.push_back("guess_as"); s->guess_as = &a; }
    void getActiveSet(humoto::ActiveSet &a, const humoto::OptimizationProblem &h)
    {
        s->calls.push_back("get_as");
        s->out_as = &a;
        h.initializeActiveSet(a);
    }
    void solveHierarchy(humoto::Solution &sol, const humoto::OptimizationProblem &)
    {
        s->calls.push_back("solve");
        s->tag = parameters_.tag;
        sol.x_.setConstant(s->x);
        sol.return_status_ = s->status;
    }
};
struct QPOnly : public humoto::QPSolverMixin<humoto::Solver<Par> >
{
    int solved;
    QPOnly() : solved(0) {}
    void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) {}
    void solveHierarchy(humoto::Solution &sol, const humoto::OptimizationProblem &) { ++solved; sol.return_status_ = humoto::SolverStatus::OK; sol.x_.setZero(); }
};

static std::string join(const std::vector<std::string> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += v[i] + " ";
    return s;
}

MC_SCENARIO(solve_protocol, 16, 3)
{
    hier::Model model;
    Problem problem;
    problem.setSize(2);
    humoto::OptimizationProblem opt;
    opt.reset(1);
    opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables()), 0);
    humoto::Solution solution;
    opt.form(solution, model, problem);

    Script sc;
    FullSolver solver(&sc);
    Par current;
    int depth = c.thorough ? 3 : 2;
    static const humoto::SolverStatus::Status statuses[] = {humoto::SolverStatus::OK, humoto::SolverStatus::MAX_ITER, humoto::SolverStatus::OTHER, humoto::SolverStatus::UNDEFINED};
    for (int d = 0; d < depth; ++d)
    {
        sc.calls.clear();
        if (c.flip("setParameters"))
        {
            current.tag = 10 * d + 1;
            current.crash_on_any_failure_ = c.flip("crash");
            c.step("setParameters");
            solver.setParameters(current);
            c.check(join(sc.calls) == "reset ", "set-parameters", "new parameters reset the solver");
            sc.calls.clear();
        }
        sc.status = statuses[c.choose(4, "status")];
        sc.inputs_ok = !c.flip("bad inputs");
        sc.guess_sol = sc.guess_as = sc.out_as = NULL;
        sc.x = d + 1;
        humoto::Solution guess;
        humoto::ActiveSet as, as_guess;
        std::vector<std::size_t> sizes(1, 1);
        as_guess.initialize(1, sizes);
        int kind = c.choose(9, "overload");
        bool gx = false, gas = false, get = false, threw = false;
        solution.return_status_ = humoto::SolverStatus::UNDEFINED;
        solution.x_.setConstant(-1);
        c.step("solve");
        try
        {
            switch (kind)
            {
                case 0: solver.solve(solution, opt); break;
                case 1: current.tag = 10 * d + 2; current.crash_on_any_failure_ = c.flip("crash"); solver.solve(solution, opt, current); break;
                case 2: gx = true; solver.solve(solution, opt, guess); break;
                case 3: gas = get = true; solver.solve(solution, as, opt, as_guess); break;
                case 4: gas = true; solver.solve(solution, opt, as_guess); break;
                case 5: get = true; solver.solve(solution, as, opt); break;
                case 6: gx = gas = get = true; solver.solve(solution, as, opt, guess, as_guess); break;
                case 7: gx = gas = true; solver.solve(solution, opt, guess, as_guess); break;
                case 8: gx = get = true; solver.solve(solution, as, opt, guess); break;
            }
        }
        catch (const std::runtime_error &) { threw = true; }
        std::string expected = "check ";
        bool failed = false;
        if (sc.inputs_ok)
        {
            expected += "init ";
            if (gx) expected += "guess_x ";
            if (gas) expected += "guess_as ";
            expected += "solve ";
            failed = current.crash_on_any_failure_ && sc.status != humoto::SolverStatus::OK;
            if (get && !failed) expected += "get_as ";
        }
        c.check(threw == (!sc.inputs_ok || failed), "failure", "an exception is due exactly when inputs are bad or the solver fails and this is configured to be fatal");
        // the two guesses are independent: either may be given first
        for (size_t i = 0; i + 1 < sc.calls.size(); ++i) if (sc.calls[i] == "guess_as" && sc.calls[i + 1] == "guess_x") std::swap(sc.calls[i], sc.calls[i + 1]);
        c.check(join(sc.calls) == expected, "order", "steps: got " + join(sc.calls) + "expected " + expected);
        if (sc.inputs_ok)
        {
            c.check(sc.guess_sol == (gx ? &guess : NULL), "guess", "guess of the solution");
            c.check(sc.guess_as == (gas ? &as_guess : NULL), "guess", "guess of the active set");
            if (get && !failed) c.check(sc.out_as == &as && as.size() == 1 && as[0].size() == 2, "active-set", "returned active set");
            c.check(sc.tag == current.tag, "parameters", "parameters of the solver");
            c.check(solution.return_status_ == sc.status, "status", "status is not preserved");
            c.near(solution.x_(0), sc.x, "solution", "solution");
        }
        std::stringstream st; st << kind << expected << threw << current.crash_on_any_failure_ << d;
        c.state(st.str());
    }
}

// solvers for QPs accept exactly the hierarchies which are QPs
MC_SCENARIO(solve_qp_inputs, 8, 2)
{
    int levels = c.range(0, 3, "levels");
    hier::Model model;
    Problem problem;
    problem.setSize(2);
    humoto::OptimizationProblem opt;
    opt.reset(levels);
    bool last_eq = true;
    for (int l = 0; l < levels; ++l)
    {
        int k = c.range(1, levels == 3 ? 1 : 2, "tasks");
        bool eq = true;
        for (int i = 0; i < k; ++i)
        {
            static const int types[] = {A*5+B, A*5+LU, I*5+B0, I*5+U, GI*5+L, AS*5+B};
            Holder h(new SpecHolder());
            h->spec = chooseSpec(c, types[c.choose(6, "type")], 2, 1, i, true);
            if (!h->spec.equality()) eq = false;
            opt.pushTask(hier::make(h), l);
        }
        last_eq = eq;
    }
    humoto::Solution solution;
    bool formed = c.flip("formed");
    if (levels == 0) formed = false;
    if (formed) opt.form(solution, model, problem);
    else problem.initSolutionStructure(solution);
    Par par;
    par.solve_two_levels_as_qp_ = !c.flip("disable");
    QPOnly solver;
    bool threw = false;
    c.step("solve");
    try { solver.solve(solution, opt, par); } catch (const std::runtime_error &) { threw = true; }
    bool ok = par.solve_two_levels_as_qp_ && formed && levels >= 1 && levels <= 2 && last_eq;
    c.check(threw == !ok, "qp-inputs", "a QP solver must accept one or two levels with equalities on the last level");
    c.check(solver.solved == (ok ? 1 : 0), "qp-inputs", "a rejected hierarchy is solved");
    c.state(levels * 16 + last_eq * 8 + formed * 4 + ok);
}
