// Structures of solutions, their parts and guesses (C04, C05).
#pragma once
#include "hier.h"
using namespace hier;
typedef std::vector<std::pair<std::string, long> > Parts;

static const char *ids[] = {"a", "b", "c"};

static Parts chooseParts(mc::Ctx &c, int max_parts, int max_len)
{
    Parts p;
    int k = c.range(0, max_parts, "parts");
    std::vector<bool> used(3, false);
    for (int i = 0; i < k; ++i)
    {
        int left = 0;
        for (int j = 0; j < 3; ++j) if (!used[j]) ++left;
        int pick = c.choose(left, "id");
        for (int j = 0; j < 3; ++j)
        {
            if (used[j]) continue;
            if (pick-- == 0) { used[j] = true; p.push_back(std::make_pair(std::string(ids[j]), (long) c.range(0, max_len, "length"))); break; }
        }
    }
    return p;
}
static long total(const Parts &p) { long n = 0; for (size_t i = 0; i < p.size(); ++i) n += p[i].second; return n; }
static bool find(const Parts &p, const std::string &id, long &off, long &len)
{
    off = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        if (p[i].first == id) { len = p[i].second; return true; }
        off += p[i].second;
    }
    off = 0; len = 0;
    return false;
}
static std::string str(const Parts &p)
{
    std::stringstream s;
    for (size_t i = 0; i < p.size(); ++i) s << p[i].first << p[i].second << ",";
    return s.str();
}
static void build(mc::Ctx &c, humoto::SolutionStructure &s, const Parts &p)
{
    for (size_t i = 0; i < p.size(); ++i)
    {
        c.step("addSolutionPart " + p[i].first);
        s.addSolutionPart(p[i].first, p[i].second);
        c.check(s.isNonEmpty(), "nonempty", "a structure with a part is empty");
    }
    c.check(s.isNonEmpty() == !p.empty(), "nonempty", "isNonEmpty");
}
static void checkStructure(mc::Ctx &c, const humoto::SolutionStructure &s, const Parts &p)
{
    c.check(s.getNumberOfVariables() == (size_t) total(p), "variables", "number of variables");
    c.check(s.isNonEmpty() == !p.empty(), "nonempty", "isNonEmpty");
    for (int j = 0; j < 3; ++j)
    {
        long off, len;
        find(p, ids[j], off, len);
        humoto::Location l = s.getSolutionPartLocation(ids[j]);
        c.check(l.length_ == (size_t) len && l.offset_ == (size_t) off, "location", std::string("location of part ") + ids[j] + " of " + str(p));
        c.check(l == humoto::Location(off, len) && !(l != humoto::Location(off, len)), "location", "comparison of locations");
    }
    // parts of a matrix are the columns of the parts
    long n = total(p);
    Eigen::MatrixXd M(2, n);
    for (long i = 0; i < 2; ++i) for (long k = 0; k < n; ++k) M(i, k) = 10 * i + k;
    const Eigen::MatrixXd &cM = M;
    for (int j = 0; j < 3; ++j)
    {
        long off, len;
        find(p, ids[j], off, len);
        c.step("getMatrixPart");
        c.nearM(Eigen::MatrixXd(s.getMatrixPart(ids[j], cM)), Eigen::MatrixXd(cM.middleCols(off, len)), "matrix-part", "columns of a part");
        Eigen::MatrixXd W = M, E = M;
        s.getMatrixPart(ids[j], W).setConstant(-1);
        E.middleCols(off, len).setConstant(-1);
        c.nearM(W, E, "matrix-part", "writing to the columns of a part");
    }
}

MC_SCENARIO(sol_guess, 16, 4)
{
    Parts po = chooseParts(c, 3, 2), pn = chooseParts(c, 3, 2);
    humoto::SolutionStructure so, sn;
    for (size_t i = 0; i < po.size(); ++i) so.addSolutionPart(po[i].first, po[i].second);
    for (size_t i = 0; i < pn.size(); ++i) sn.addSolutionPart(pn[i].first, pn[i].second);
    humoto::Solution old, guess;
    old.initialize(so);
    for (long i = 0; i < old.x_.size(); ++i) old.x_(i) = 1 + i;
    Eigen::VectorXd before = old.x_;
    guess.initialize(so, 100.0);
    Eigen::VectorXd e = Eigen::VectorXd::Zero(total(pn));
    long off = 0;
    for (size_t i = 0; i < pn.size(); ++i)
    {
        long oo, ol;
        if (find(po, pn[i].first, oo, ol) && ol == pn[i].second) for (long k = 0; k < ol; ++k) e(off + k) = 1 + oo + k;
        off += pn[i].second;
    }
    c.step("initialize from an old solution");
    guess.initialize(sn, old);
    c.nearM(guess.get_x(), e, "guess", "guess of the solution");
    checkStructure(c, guess, pn);
    checkStructure(c, old, po);
    c.nearM(old.get_x(), before, "guess", "old solution is changed");
    c.state(str(po) + ";" + str(pn));
    // the same through the control problem
    if (!pn.empty())
    {
        Problem problem;
        problem.setParts(pn);
        humoto::Solution g2, s2;
        g2.initialize(so, 50.0);
        c.step("ControlProblem::guessSolution");
        problem.guessSolution(g2, old);
        c.nearM(g2.get_x(), e, "guess", "guess made by a control problem");
        problem.initSolutionStructure(s2);
        checkStructure(c, s2, pn);
        c.check(s2.get_x().size() == total(pn), "size", "size of the solution");
        checkStructure(c, problem.getSolutionStructure(), pn);
    }
    else
    {
        Problem problem;
        humoto::Solution s2;
        bool threw = false;
        try { problem.initSolutionStructure(s2); } catch (const std::runtime_error &) { threw = true; }
        c.check(threw, "empty-structure", "an empty structure is accepted");
    }
}

// histories: one solution object is initialized again and again, the old one is the previous solution
MC_SCENARIO(sol_histories, 16, 3)
{
    humoto::Solution sol, guess;
    Parts prev;
    Eigen::VectorXd prev_x;
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        Parts p = chooseParts(c, 2, 2);
        if (p.empty()) throw mc::Prune();
        humoto::SolutionStructure s;
        for (size_t i = 0; i < p.size(); ++i) s.addSolutionPart(p[i].first, p[i].second);
        if (d > 0)
        {
            c.step("guess");
            guess.initialize(s, sol);
            long off = 0;
            for (size_t i = 0; i < p.size(); ++i)
            {
                long oo, ol;
                bool same = find(prev, p[i].first, oo, ol) && ol == p[i].second;
                for (long k = 0; k < p[i].second; ++k)
                    c.near(guess.x_(off + k), same ? prev_x(oo + k) : 0.0, "guess", "guess over a history");
                off += p[i].second;
            }
        }
        c.step("initialize");
        sol.initialize(s);
        checkStructure(c, sol, p);
        for (long i = 0; i < sol.x_.size(); ++i) sol.x_(i) = 100 * d + i + 1;
        prev = p;
        prev_x = sol.x_;
        c.state(str(p) + (char) ('0' + d));
    }
}
