// C03: active sets and violations computed for a given solution agree with the constraints.
#include "hier.h"
using namespace hier;
typedef humoto::ConstraintActivationType CA;

static CA::Type expectedActivity(const Spec &s, long i, double v)
{
    if (s.equality()) return CA::EQUALITY;
    if (s.bounds == L) return v <= s.lb(i) ? CA::LOWER_BOUND : CA::INACTIVE;
    if (s.bounds == U) return v >= s.ub(i) ? CA::UPPER_BOUND : CA::INACTIVE;
    if (s.lb(i) > s.ub(i)) return CA::UNDEFINED;
    if (s.lb(i) == s.ub(i)) return CA::EQUALITY;
    if (v <= s.lb(i)) return CA::LOWER_BOUND;
    if (v >= s.ub(i)) return CA::UPPER_BOUND;
    return CA::INACTIVE;
}

struct World
{
    hier::Model model;
    Problem problem;
    humoto::OptimizationProblem opt;
    humoto::Solution solution;
    std::vector<Holder> holders;
    std::vector<humoto::TaskSharedPointer> tasks;
    void add(const Spec &s, int level)
    {
        Holder h(new SpecHolder());
        h->spec = s;
        holders.push_back(h);
        tasks.push_back(make(h));
        opt.pushTask(tasks.back(), level);
    }
    const Spec &specOf(const humoto::TaskBase *t) const
    {
        for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i].get() == t) return holders[i]->spec;
        throw mc::Failure{"locations", "unknown task"};
    }
};

static void verify(mc::Ctx &c, World &w, humoto::ActiveSet &as, humoto::Violations &vi)
{
    c.step("determineActiveSet");
    w.opt.determineActiveSet(as, w.solution);
    c.step("computeViolations");
    w.opt.computeViolations(vi, w.solution);
    c.check(as.size() == w.opt.getNumberOfLevels(), "levels", "number of levels in the active set");
    c.check(vi.size() == w.opt.getNumberOfLevels(), "levels", "number of levels in the violations");
    long n = w.solution.getNumberOfVariables();
    std::stringstream st;
    for (size_t l = 0; l < w.opt.getNumberOfLevels(); ++l)
    {
        const humoto::HierarchyLevel &lvl = w.opt[l];
        c.check(as[l].size() == lvl.getNumberOfConstraints(), "size", "size of the active set");
        c.check(vi[l].size() == lvl.getNumberOfConstraints(), "size", "size of the violations");
        size_t act = 0, rows = 0;
        for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = lvl.tasks_.begin(); it != lvl.tasks_.end(); ++it)
        {
            const Spec &s = w.specOf(it->ptr_.get());
            Eigen::MatrixXd D = s.dense(n);
            rows += s.m;
            for (long i = 0; i < s.m; ++i)
            {
                size_t r = it->location_.offset_ + i;
                double v = D.row(i) * w.solution.x_;
                CA::Type e = expectedActivity(s, i, v);
                if (e == CA::LOWER_BOUND || e == CA::UPPER_BOUND) ++act;
                if (as[l][r] != e)
                {
                    std::stringstream m;
                    m << s.str() << " row " << i << " value " << v << " bounds " << s.lower(i) << ".." << s.upper(i) << ": activity " << as[l][r] << ", expected " << e;
                    c.fail("activity", m.str());
                }
                double lo = (s.bounds == U) ? 0.0 : v - s.lower(i);
                double up = (s.bounds == L) ? 0.0 : v - s.upper(i);
                double d = (lo < 0) ? lo : ((up > 0) ? up : 0.0);
                c.near(vi[l].getLower(r), lo, "violation-lower", "signed distance to the lower bound");
                c.near(vi[l].getUpper(r), up, "violation-upper", "signed distance to the upper bound");
                c.near(vi[l][r], d, "violation", "violation");
                bool satisfied = (v >= s.lower(i)) && (v <= s.upper(i));
                c.check((vi[l][r] == 0.0) == satisfied, "violation-iff", "violation is zero iff the constraint holds");
                st << (int) e << "," << d << ";";
            }
        }
        c.check(as[l].countActiveInequalities() == act, "count", "number of active inequalities");
        c.check(rows == lvl.getNumberOfConstraints(), "size", "rows");
    }
    c.state(st.str());
}

static void setX(mc::Ctx &c, World &w, int values)
{
    for (long i = 0; i < (long) w.solution.getNumberOfVariables(); ++i)
        w.solution.x_(i) = (double) ((int) c.choose(values, "x") - values / 2) * (values > 3 ? 0.5 : 1.0);
}

// one task with all bound configurations, with companions of every kind around it
MC_SCENARIO(act_single, 16, 2)
{
    int t = c.choose(20, "type");
    int comp = c.choose(5, "companion");
    long n = 2;
    World w;
    w.opt.reset(1);
    Spec s = chooseSpec(c, t, n, 2, 0, false);
    if (s.body == A || s.body == AS) for (long i = 0; i < s.m; ++i) for (long j = 0; j < s.M.cols(); ++j) s.M(i, j) = (i + j) % 2 ? -1.0 : 1.0;
    if (s.body == GI) s.gains << -1.0, 2.0;
    for (long i = 0; i < 2; ++i)
    {
        s.lb(i) = c.range(-1, 1, "lb");
        s.ub(i) = s.bounds == LU ? c.range(-1, 1, "ub") : (s.bounds == U ? s.lb(i) : s.ub(i));
    }
    static const int comps[] = {-1, A*5+L, I*5+U, AS*5+B, GI*5+LU};
    Spec k;
    if (comps[comp] >= 0)
    {
        k.body = comps[comp] / 5; k.bounds = comps[comp] % 5; k.m = 1;
        k.M.setConstant(1, k.body == AS ? 1 : n, 1.0);
        k.idx.push_back(1);
        k.gains.setConstant(1, 0.5);
        k.lb.setConstant(1, -0.5); k.ub.setConstant(1, 0.5);
    }
    bool before = comp > 0 ? c.flip("companion first") : false;
    if (comp > 0 && before) w.add(k, 0);
    w.add(s, 0);
    if (comp > 0 && !before) w.add(k, 0);
    w.problem.setSize(n);
    w.opt.form(w.solution, w.model, w.problem);
    humoto::ActiveSet as;
    humoto::Violations vi;
    setX(c, w, c.thorough ? 7 : 5);
    verify(c, w, as, vi);
}

// two levels, all pairs of types, several solutions in a row with the same output objects
MC_SCENARIO(act_levels, 16, 2)
{
    long n = 2;
    World w;
    w.opt.reset(2);
    int t[3];
    t[0] = c.choose(20, "type"); t[1] = c.choose(20, "type"); t[2] = (t[0] * 7 + 3) % 20;
    int arrangement = c.choose(4, "levels");
    for (int i = 0; i < 3; ++i)
    {
        Spec s;
        s.body = t[i] / 5; s.bounds = t[i] % 5; s.m = 1 + (i % 2);
        s.M.resize(s.m, s.body == AS ? 1 : n);
        for (long a = 0; a < s.m; ++a) for (long b = 0; b < s.M.cols(); ++b) s.M(a, b) = val(i, a, b);
        s.offset = 1;
        for (long a = 0; a < s.m; ++a) s.idx.push_back((a + i) % n);
        s.gains.resize(s.m); s.lb.resize(s.m); s.ub.resize(s.m);
        for (long a = 0; a < s.m; ++a) { s.gains(a) = 2 - 3 * a; s.lb(a) = -1 + a; s.ub(a) = 1 - (i == 2 ? 2 : 0); }
        static const int lv[4][3] = { {0, 0, 1}, {0, 1, 1}, {1, 0, 0}, {0, 1, 0} };
        w.add(s, lv[arrangement][i]);
    }
    humoto::ActiveSet as;
    humoto::Violations vi;
    w.problem.setSize(n);
    w.opt.form(w.solution, w.model, w.problem);
    setX(c, w, 3);
    verify(c, w, as, vi);
    w.solution.x_ = w.solution.x_ * -0.5 + Eigen::VectorXd::Constant(n, 0.25);
    verify(c, w, as, vi);
}

// ---- containers: operation sequences against a vector
typedef std::vector<int> MV;
static void sameAS(mc::Ctx &c, const humoto::ActiveSetConstraints &a, const MV &m)
{
    c.check(a.size() == m.size(), "container", "size of an active set");
    size_t cnt = 0;
    for (size_t i = 0; i < m.size(); ++i)
    {
        c.check((int) a[i] == m[i], "container", "element of an active set");
        if (m[i] == CA::LOWER_BOUND || m[i] == CA::UPPER_BOUND) ++cnt;
    }
    c.check(a.countActiveInequalities() == cnt, "container", "number of active inequalities");
}

MC_SCENARIO(act_container, 8, 2)
{
    humoto::ActiveSetConstraints a, other;
    MV m, mo;
    static const CA::Type fill[] = {CA::LOWER_BOUND, CA::INACTIVE, CA::UPPER_BOUND, CA::EQUALITY, CA::UNDEFINED};
    int osz = c.choose(4, "size of the other set");
    other.initialize(osz);
    mo.assign(osz, CA::UNDEFINED);
    sameAS(c, other, mo);
    for (int i = 0; i < osz; ++i) { other[i] = fill[i]; mo[i] = fill[i]; }
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(8, "operation");
        bool threw = false, expect = false;
        MV e = m;
        try
        {
            switch (op)
            {
                case 0: { int n = c.choose(4, "n"); c.step("initialize"); e.assign(n, CA::UNDEFINED); a.initialize(n); break; }
                case 1: { int n = c.choose(5, "n"); CA::Type t = fill[c.choose(3, "t")]; c.step("initialize with a value"); e.assign(n, t); a.initialize(n, t); break; }
                case 2: { CA::Type t = fill[c.choose(2, "t")]; c.step("set all"); std::fill(e.begin(), e.end(), t); a.set(t); break; }
                case 3:
                {
                    size_t o = c.choose(4, "offset"), l = c.choose(3, "length");
                    c.step("set a part");
                    expect = o + l > m.size();
                    if (!expect) std::fill(e.begin() + o, e.begin() + o + l, (int) CA::EQUALITY);
                    a.set(humoto::Location(o, l), CA::EQUALITY);
                    break;
                }
                case 4:
                {
                    size_t k = c.choose(4, "shift");
                    c.step("shift");
                    expect = k > m.size();
                    if (!expect)
                    {
                        for (size_t i = 0; i < m.size(); ++i) e[i] = (i + k < m.size()) ? m[i + k] : (int) CA::INACTIVE;
                    }
                    a.shift(k, CA::INACTIVE);
                    break;
                }
                case 5:
                {
                    size_t o = c.choose(3, "offset");
                    c.step("copyTo");
                    expect = o + mo.size() > m.size();
                    if (!expect) std::copy(mo.begin(), mo.end(), e.begin() + o);
                    a.copyTo(humoto::Location(o, mo.size()), other);
                    break;
                }
                case 6:
                {
                    size_t o = c.choose(3, "offset"), l = c.choose(4, "length");
                    c.step("copyFrom");
                    expect = (o + l > mo.size()) || (l != m.size());
                    if (!expect) e.assign(mo.begin() + o, mo.begin() + o + l);
                    a.copyFrom(other, humoto::Location(o, l));
                    break;
                }
                case 7:
                {
                    size_t o = c.choose(3, "offset"), l = c.choose(4, "length");
                    c.step("initialize from a part");
                    expect = (o + l > mo.size());
                    if (!expect) e.assign(mo.begin() + o, mo.begin() + o + l);
                    a.initialize(other, humoto::Location(o, l));
                    break;
                }
            }
        }
        catch (const std::runtime_error &) { threw = true; }
        c.check(threw == expect, "container-errors", "out-of-range operation on an active set must throw, and only it");
        if (!threw) m = e;
        sameAS(c, a, m);
        sameAS(c, other, mo);
        uint64_t h = m.size();
        for (size_t i = 0; i < m.size(); ++i) h = mc::mix(h, m[i]);
        c.state(h);
    }
}

struct V3 { double d, l, u; };
static V3 v3(double l, double u) { V3 v; v.l = l; v.u = u; v.d = l < 0 ? l : (u > 0 ? u : 0); return v; }

MC_SCENARIO(violations_container, 8, 2)
{
    humoto::ViolationsConstraints a, other;
    std::vector<V3> m, mo;
    int osz = c.choose(3, "size of the other");
    other.initialize(osz);
    for (int i = 0; i < osz; ++i) { double l = i - 0.5, u = 0.5 * i; other.set(i, l, u); mo.push_back(v3(l, u)); }
    int n0 = c.choose(4, "initial size");
    a.initialize(n0);
    a.setZero();
    m.assign(n0, v3(0, 0));
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(6, "operation");
        bool threw = false, expect = false;
        std::vector<V3> e = m;
        try
        {
            switch (op)
            {
                case 0:
                {
                    size_t i = c.choose(4, "index");
                    double l = c.range(-1, 1, "lower"), u = c.range(-1, 1, "upper");
                    c.step("set");
                    expect = i >= m.size();
                    if (!expect) e[i] = v3(l, u);
                    a.set(i, l, u);
                    break;
                }
                case 1: c.step("setZero"); e.assign(m.size(), v3(0, 0)); a.setZero(); break;
                case 2:
                {
                    size_t o = c.choose(4, "offset"), l = c.choose(3, "length");
                    c.step("setZero part");
                    expect = o + l > m.size();
                    if (!expect) for (size_t i = 0; i < l; ++i) e[o + i] = v3(0, 0);
                    a.setZero(humoto::Location(o, l));
                    break;
                }
                case 3:
                {
                    size_t o = c.choose(3, "offset");
                    c.step("copyTo");
                    expect = o + mo.size() > m.size();
                    if (!expect) std::copy(mo.begin(), mo.end(), e.begin() + o);
                    a.copyTo(humoto::Location(o, mo.size()), other);
                    break;
                }
                case 4:
                {
                    size_t o = c.choose(3, "offset"), l = c.choose(3, "length");
                    c.step("copyFrom");
                    expect = (o + l > mo.size()) || (l != m.size());
                    if (!expect) e.assign(mo.begin() + o, mo.begin() + o + l);
                    a.copyFrom(other, humoto::Location(o, l));
                    break;
                }
                case 5:
                {
                    size_t o = c.choose(3, "offset"), l = c.choose(3, "length");
                    c.step("initialize from a part");
                    expect = o + l > mo.size();
                    if (!expect) e.assign(mo.begin() + o, mo.begin() + o + l);
                    a.initialize(other, humoto::Location(o, l));
                    break;
                }
            }
        }
        catch (const std::runtime_error &) { threw = true; }
        c.check(threw == expect, "container-errors", "out-of-range operation on violations must throw, and only it");
        if (!threw) m = e;
        c.check(a.size() == m.size(), "container", "size");
        uint64_t h = m.size();
        for (size_t i = 0; i < m.size(); ++i)
        {
            c.near(a[i], m[i].d, "container", "violation");
            c.near(a.getLower(i), m[i].l, "container", "lower");
            c.near(a.getUpper(i), m[i].u, "container", "upper");
            h = mc::mix(h, (uint64_t) (100 + 10 * m[i].l + m[i].u * 1000));
        }
        c.state(h);
    }
}

// the kinds of activation can be told apart
MC_SCENARIO(kinds, 1, 1)
{
    typedef humoto::ConstraintActivationType CAT;
    static const CAT::Type t[] = {CAT::UNDEFINED, CAT::INACTIVE, CAT::LOWER_BOUND, CAT::UPPER_BOUND, CAT::EQUALITY};
    int i = c.choose(5, "first"), j = c.choose(5, "second");
    c.step("store");
    humoto::ActiveSetConstraints a;
    a.initialize(2, t[i]);
    a[1] = t[j];
    c.check(a[0] == t[i] && a[1] == t[j] && ((a[0] == a[1]) == (i == j)), "kinds", "kinds of activation");
    std::size_t active = 0;
    for (int k = 0; k < 2; ++k) if (a[k] == CAT::LOWER_BOUND || a[k] == CAT::UPPER_BOUND || a[k] == CAT::EQUALITY) ++active;
    c.check(active == (i >= 2) + (j >= 2), "kinds", "active constraints");
    c.state(i * 5 + j);
}

// active sets and violations of a whole hierarchy: levels are independent of each other
MC_SCENARIO(levels_container, 8, 2)
{
    typedef humoto::ConstraintActivationType CAT;
    static const CAT::Type fill[] = {CAT::LOWER_BOUND, CAT::INACTIVE, CAT::UPPER_BOUND, CAT::EQUALITY};
    humoto::ActiveSet as;
    humoto::Violations vi;
    std::vector<MV> m;
    std::vector<std::vector<V3> > mv;
    int depth = c.thorough ? 5 : 4;
    for (int d = 0; d < depth; ++d)
    {
        int op = d == 0 ? 0 : c.choose(5, "operation");
        bool threw_a = false, threw_v = false, expect = false;
        switch (op)
        {
            case 0:
            {
                int L = c.choose(3, "levels");
                std::vector<std::size_t> n(L);
                for (int i = 0; i < L; ++i) n[i] = c.choose(3, "number of constraints");
                c.step("initialize");
                as.initialize(L, n);
                vi.initialize(L, n);
                m.clear();
                mv.clear();
                for (int i = 0; i < L; ++i) { m.push_back(MV(n[i], CAT::UNDEFINED)); mv.push_back(std::vector<V3>(n[i], v3(0, 0))); }
                for (int i = 0; i < L; ++i) vi[i].setZero();
                break;
            }
            case 1:
            {
                std::size_t l = c.choose(3, "level");
                CAT::Type t = fill[c.choose(2, "type")];
                c.step("set a level");
                expect = l >= m.size();
                try { as.set(l, t); } catch (const std::runtime_error &) { threw_a = true; }
                try { vi.setZero(l); } catch (const std::runtime_error &) { threw_v = true; }
                if (!expect) { std::fill(m[l].begin(), m[l].end(), (int) t); std::fill(mv[l].begin(), mv[l].end(), v3(0, 0)); }
                break;
            }
            case 2:
            {
                std::size_t l = c.choose(3, "level");
                c.step("set an element");
                expect = l >= m.size() || m[l].empty();
                try { as[l][m.size() > l && m[l].size() ? m[l].size() - 1 : 0] = CAT::UPPER_BOUND; } catch (const std::runtime_error &) { threw_a = true; }
                try { vi[l].set(m.size() > l && m[l].size() ? m[l].size() - 1 : 0, -1.0, 0.5 + l); } catch (const std::runtime_error &) { threw_v = true; }
                if (!expect) { m[l].back() = CAT::UPPER_BOUND; mv[l].back() = v3(-1.0, 0.5 + l); }
                break;
            }
            case 3: c.step("reset"); as.reset(); vi.reset(); m.clear(); mv.clear(); break;
            case 4:
            {
                // read access out of range
                const humoto::ActiveSet &ca = as;
                const humoto::Violations &cv = vi;
                std::size_t l = c.choose(4, "level");
                c.step("read a level");
                expect = l >= m.size();
                try { c.check(ca[l].size() == m[l].size(), "levels", "size of a level"); } catch (const std::runtime_error &) { threw_a = true; }
                try { c.check(cv[l].size() == mv[l].size(), "levels", "size of a level"); } catch (const std::runtime_error &) { threw_v = true; }
                break;
            }
        }
        c.check(threw_a == expect, "levels-errors", "a missing level or constraint of an active set must be reported, and only it");
        c.check(threw_v == expect, "levels-errors", "a missing level or constraint of violations must be reported, and only it");
        c.check(as.size() == m.size() && vi.size() == mv.size(), "levels", "number of levels");
        uint64_t h = m.size();
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            sameAS(c, as[i], m[i]);
            c.check(vi[i].size() == mv[i].size(), "levels", "number of violations");
            h = mc::mix(h, m[i].size());
            for (std::size_t k = 0; k < mv[i].size(); ++k)
            {
                c.near(vi[i][k], mv[i][k].d, "levels", "violation");
                c.near(vi[i].getLower(k), mv[i][k].l, "levels", "lower difference");
                c.near(vi[i].getUpper(k), mv[i][k].u, "levels", "upper difference");
                h = mc::mix(h, m[i][k] * 1000 + (uint64_t) (mv[i][k].u * 10));
            }
        }
        c.state(h);
    }
}
