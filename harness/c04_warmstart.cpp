// C04: warm-start bookkeeping over histories of formations, solutions and active sets.
#include "solparts.h"   // guesses of solutions
typedef humoto::ConstraintActivationType CA;

struct TaskModel
{
    Spec spec;
    int level;
    std::vector<int> actual;
    bool formed;
    Holder holder;
    humoto::TaskSharedPointer ptr;
};

static void buildSpec(Spec &s, int type, long m, long n, int salt)
{
    s = Spec();
    s.body = type / 5; s.bounds = type % 5; s.m = m;
    s.M.resize(m, s.body == AS ? 1 : n);
    for (long a = 0; a < m; ++a) for (long b = 0; b < s.M.cols(); ++b) s.M(a, b) = val(salt, a, b);
    for (long a = 0; a < m; ++a) s.idx.push_back((a + salt) % n);
    s.gains.setConstant(m, 2.0);
    s.lb.resize(m); s.ub.resize(m);
    for (long a = 0; a < m; ++a) { s.lb(a) = -1 + a; s.ub(a) = 2 + a; }
}

static const humoto::Location locationOf(mc::Ctx &c, humoto::OptimizationProblem &opt, const TaskModel &t)
{
    const humoto::HierarchyLevel &lvl = opt[t.level];
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = lvl.tasks_.begin(); it != lvl.tasks_.end(); ++it)
        if (it->ptr_.get() == t.ptr.get()) return it->location_;
    c.fail("locations", "task is not on its level");
    return humoto::Location();
}

static void history(mc::Ctx &c, int ntasks, int depth, bool all_types)
{
    hier::Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    opt.reset(2);
    std::vector<TaskModel> tasks;
    static const int some_types[] = {A*5+LU, AS*5+B, I*5+U, GI*5+B0, A*5+L, I*5+LU};
    for (int i = 0; i < ntasks; ++i)
    {
        TaskModel t;
        int type = all_types ? (int) c.choose(20, "type") : some_types[c.choose(i == 0 ? 6 : 3, "type")];
        t.level = (i == ntasks - 1) ? 1 : 0;
        t.formed = false;
        t.spec.body = type / 5; t.spec.bounds = type % 5;
        t.holder.reset(new SpecHolder());
        t.holder->spec = t.spec;
        t.ptr = make(t.holder);
        opt.pushTask(t.ptr, t.level);
        tasks.push_back(t);
    }
    humoto::Solution solution, guess, old;
    humoto::ActiveSet as_guess;
    bool have_old = false;
    std::vector<std::pair<std::string, long> > old_parts;
    Eigen::VectorXd old_x;
    long n = 2;
    for (int d = 0; d < depth; ++d)
    {
        // shapes of this iteration
        bool any_resize = false;
        for (size_t i = 0; i < tasks.size(); ++i)
        {
            TaskModel &t = tasks[i];
            int what = c.choose(t.formed ? 3 : 2, "size 1 / size 2 / unmodified");
            if (what == 2)
            {
                // precondition of "unmodified": the recorded active set belongs to this very formulation
                if (!t.actual.empty() && t.actual.size() != (size_t) t.spec.m) throw mc::Prune();
                t.holder->spec.unmodified = true;
                t.spec.unmodified = true;
            }
            else
            {
                if (t.formed && t.spec.m != what + 1) any_resize = true;
                buildSpec(t.spec, t.spec.body * 5 + t.spec.bounds, what + 1, n, (int) i + d);
                t.holder->spec = t.spec;
            }
            t.formed = true;
        }
        std::vector<std::pair<std::string, long> > parts;
        parts.push_back(std::make_pair(std::string("a"), 1L));
        parts.push_back(std::make_pair(std::string("b"), 1L));
        if (c.flip("swap parts")) std::swap(parts[0].first, parts[1].first);
        problem.setParts(parts);

        int variant = c.choose(have_old ? 4 : 2, "form variant");
        bool gas = false, gsol = false;
        switch (variant)
        {
            case 0: c.step("form"); opt.form(solution, model, problem); break;
            case 1: c.step("form with active set guess"); gas = true; opt.form(solution, as_guess, model, problem); break;
            case 2: c.step("form with both guesses"); gas = gsol = true; opt.form(solution, guess, as_guess, model, problem, old); break;
            case 3: c.step("form with solution guess"); gsol = true; opt.form(solution, guess, model, problem, old); break;
        }
        // structure of the solution
        c.check(solution.getNumberOfVariables() == (size_t) n && solution.x_.size() == n, "solution-size", "size of the solution");
        // guesses
        if (gsol)
        {
            c.check(guess.x_.size() == n, "solution-guess", "size of the guess");
            for (int k = 0; k < 2; ++k)
            {
                double expected = 0;
                for (int j = 0; j < 2; ++j) if (old_parts[j].first == parts[k].first) expected = old_x(j);
                c.near(guess.x_(k), expected, "solution-guess", "part of the old solution with the same name");
            }
        }
        if (gas)
        {
            c.check(as_guess.size() == 2, "as-levels", "number of levels");
            size_t total[2] = {0, 0};
            for (size_t i = 0; i < tasks.size(); ++i)
            {
                TaskModel &t = tasks[i];
                total[t.level] += t.spec.m;
                humoto::Location loc = locationOf(c, opt, t);
                c.check(loc.length_ == (size_t) t.spec.m, "locations", "length");
                bool reuse = t.spec.unmodified && !t.actual.empty();
                for (long r = 0; r < t.spec.m; ++r)
                {
                    int e = reuse ? t.actual[r] : (t.spec.equality() ? CA::EQUALITY : CA::INACTIVE);
                    if ((int) as_guess[t.level][loc.offset_ + r] != e)
                    {
                        std::stringstream m;
                        m << "task " << i << " (" << t.spec.str() << ", unmodified=" << t.spec.unmodified << ") row " << r << ": guess " << as_guess[t.level][loc.offset_ + r] << ", expected " << e;
                        c.fail("as-guess", m.str());
                    }
                    ++c.checks;
                }
            }
            for (int l = 0; l < 2; ++l) c.check(as_guess[l].size() == total[l], "as-size", "size of the guess");
        }
        for (size_t i = 0; i < tasks.size(); ++i) { tasks[i].spec.unmodified = false; tasks[i].holder->spec.unmodified = false; }

        // a "solver" returns a solution and an active set
        for (long k = 0; k < n; ++k) solution.x_(k) = 1 + d * 3 + k;
        int proc = c.choose(3, "active set returned");
        if (proc > 0)
        {
            humoto::ActiveSet as;
            opt.initializeActiveSet(as);
            c.check(as.size() == 2, "as-levels", "initializeActiveSet");
            static const CA::Type pat[2][3] = { {CA::LOWER_BOUND, CA::INACTIVE, CA::UPPER_BOUND}, {CA::INACTIVE, CA::UPPER_BOUND, CA::UPPER_BOUND} };
            for (size_t l = 0; l < 2; ++l)
            {
                c.check(as[l].size() == opt[l].getNumberOfConstraints(), "as-size", "initializeActiveSet");
                for (size_t r = 0; r < as[l].size(); ++r) as[l][r] = pat[proc - 1][(r + l + d) % 3];
            }
            c.step("processActiveSet");
            opt.processActiveSet(as);
            for (size_t i = 0; i < tasks.size(); ++i)
            {
                humoto::Location loc = locationOf(c, opt, tasks[i]);
                tasks[i].actual.clear();
                for (size_t r = 0; r < loc.length_; ++r) tasks[i].actual.push_back(as[tasks[i].level][loc.offset_ + r]);
            }
        }
        old = solution;
        old_x = solution.x_;
        old_parts = parts;
        have_old = true;
        (void) any_resize;
        std::stringstream st;
        for (size_t i = 0; i < tasks.size(); ++i)
        {
            st << tasks[i].spec.body << tasks[i].spec.bounds << tasks[i].spec.m << ":";
            for (size_t r = 0; r < tasks[i].actual.size(); ++r) st << tasks[i].actual[r];
            st << ";";
        }
        st << parts[0].first << d;
        c.state(st.str());
    }
}

MC_SCENARIO(warm_two_tasks, 16, 4) { history(c, 2, 2, false); }
MC_SCENARIO(warm_all_types, 16, 2) { history(c, 2, 2, true); }
// one task whose formulation changes or not over longer histories
static void deepHistory(mc::Ctx &c, int type, int depth)
{
    hier::Model model;
    Problem problem;
    problem.setSize(2);
    humoto::OptimizationProblem opt;
    opt.reset(1);
    Holder h(new SpecHolder()), fixed(new SpecHolder());
    h->spec.body = type / 5; h->spec.bounds = type % 5;
    buildSpec(fixed->spec, I * 5 + LU, 1, 2, 0);
    TaskModel t;
    t.level = 0;
    t.ptr = make(h);
    opt.pushTask(t.ptr, 0);
    opt.pushTask(make(fixed), 0);
    std::vector<int> actual;
    bool formed = false;
    for (int d = 0; d < depth; ++d)
    {
        int what = c.choose(formed ? 4 : 3, "size 1 / size 2 / size 0 / unmodified");
        bool unmodified = (what == 3);
        if (unmodified)
        {
            if (!actual.empty() && actual.size() != (size_t) h->spec.m) throw mc::Prune();
            h->spec.unmodified = true;
        }
        else
        {
            buildSpec(h->spec, type, what == 2 ? 0 : what + 1, 2, d);
        }
        formed = true;
        humoto::Solution solution;
        humoto::ActiveSet guess;
        bool gas = c.flip("guess");
        c.step(gas ? "form with guess" : "form");
        if (gas) opt.form(solution, guess, model, problem); else opt.form(solution, model, problem);
        humoto::Location loc = locationOf(c, opt, t);
        if (gas)
        {
            c.check(guess.size() == 1 && guess[0].size() == (size_t) h->spec.m + 1, "as-size", "size of the guess");
            bool reuse = unmodified && !actual.empty();
            for (long r = 0; r < h->spec.m; ++r)
                c.check((int) guess[0][loc.offset_ + r] == (reuse ? actual[r] : (h->spec.equality() ? CA::EQUALITY : CA::INACTIVE)), "as-guess", "guess of the active set differs from the activity which was returned last");
        }
        h->spec.unmodified = false;
        int proc = c.choose(3, "active set returned");
        if (proc > 0)
        {
            humoto::ActiveSet as;
            opt.initializeActiveSet(as);
            for (size_t r = 0; r < as[0].size(); ++r) as[0][r] = (proc == 1) ? CA::LOWER_BOUND : ((r % 2) ? CA::INACTIVE : CA::UPPER_BOUND);
            c.step("processActiveSet");
            opt.processActiveSet(as);
            actual.clear();
            for (size_t r = 0; r < loc.length_; ++r) actual.push_back(as[0][loc.offset_ + r]);
        }
        std::stringstream st;
        st << type << "." << h->spec.m << ":";
        for (size_t r = 0; r < actual.size(); ++r) st << actual[r];
        c.state(st.str());
    }
}
MC_SCENARIO(warm_deep, 16, 3)
{
    static const int types[] = {A*5+LU, I*5+U, AS*5+B};
    deepHistory(c, types[c.choose(3, "type")], c.thorough ? 5 : 4);
}
MC_SCENARIO(warm_deep_types, 16, 2) { deepHistory(c, c.choose(20, "type"), 3); }
MC_SCENARIO_THOROUGH(warm_three_tasks, 32, 5) { history(c, 3, 2, false); }

// active sets with a wrong number of levels are rejected
MC_SCENARIO(warm_rejected, 1, 1)
{
    hier::Model model;
    Problem problem;
    problem.setSize(2);
    humoto::Solution s;
    humoto::OptimizationProblem opt;
    int levels = c.range(1, 3, "levels");
    opt.reset(levels);
    for (int i = 0; i < levels; ++i) opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables()), i);
    opt.form(s, model, problem);
    int k = c.choose(5, "levels in the set");
    humoto::ActiveSet as;
    std::vector<std::size_t> sizes(k, 2);
    as.initialize(k, sizes);
    bool threw = false;
    c.step("processActiveSet");
    try { opt.processActiveSet(as); } catch (const std::runtime_error &) { threw = true; }
    c.check(threw == (k != levels), "reject", "number of levels of an active set");
    c.state(k * 10 + levels);
}

// reset() forgets the previous hierarchy entirely
MC_SCENARIO(warm_reset, 2, 1)
{
    hier::Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    for (int d = 0; d < 3; ++d)
    {
        int levels = c.range(1, 3, "levels");
        long n = c.range(1, 2, "variables");
        problem.setSize(n);
        c.step("reset");
        opt.reset(levels);
        c.check(opt.getNumberOfLevels() == (size_t) levels, "reset", "number of levels");
        for (int l = 0; l < levels; ++l) c.check(opt[l].tasks_.empty(), "reset", "tasks survive a reset");
        bool threw = false;
        humoto::Solution s;
        try { opt.form(s, model, problem); } catch (const std::runtime_error &) { threw = true; }
        c.check(threw, "empty-level", "a hierarchy with empty levels is accepted");
        for (int l = 0; l < levels; ++l)
            for (int k = 0; k <= l; ++k) opt.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables()), l);
        humoto::ActiveSet as;
        opt.form(s, as, model, problem);
        c.check(as.size() == (size_t) levels, "reset", "levels of the guess");
        for (int l = 0; l < levels; ++l)
        {
            c.check(as[l].size() == (size_t) (n * (l + 1)), "reset", "size of the guess");
            for (size_t r = 0; r < as[l].size(); ++r) c.check(as[l][r] == CA::EQUALITY, "reset", "guess for an equality");
        }
        c.state(mc::mix(levels, n));
    }
}
