// C05: the structure of a solution, named parts and solution guesses.
#include "solparts.h"

MC_SCENARIO(sol_structure, 4, 3)
{
    Parts p = chooseParts(c, 3, c.thorough ? 3 : 2);
    humoto::SolutionStructure s;
    bool used = c.flip("structure was used before");
    if (used)
    {
        s.addSolutionPart("c", 2);
        s.addSolutionPart("z", 1);
        c.step("reset");
        s.reset();
        c.check(!s.isNonEmpty() && s.getNumberOfVariables() == 0, "reset", "structure after reset");
        c.check(s.getSolutionPartLocation("z") == humoto::Location(0, 0), "reset", "a part survives a reset");
    }
    build(c, s, p);
    checkStructure(c, s, p);
    c.state(str(p));

    humoto::Solution x;
    int how = c.choose(4, "initialization");
    double value = 0;
    if (how == 3)
    {
        humoto::SolutionStructure other;
        other.addSolutionPart("b", 3);
        x.initialize(other, 7.0);
    }
    c.step("initialize");
    if (how == 0 || how == 3) x.initialize(s);
    if (how == 1) x.initialize(s, value = 0.0);
    if (how == 2) x.initialize(s, value = 2.5);
    c.check(x.get_x().size() == total(p), "size", "size of the solution");
    checkStructure(c, x, p);
    if (how == 1 || how == 2) for (long i = 0; i < x.x_.size(); ++i) c.check(x.x_(i) == value, "fill", "initial value");
    if (how == 0) c.check(x.return_status_ == humoto::SolverStatus::UNDEFINED, "status", "status of a fresh solution");

    // reading and writing of parts
    for (long i = 0; i < x.x_.size(); ++i) x.x_(i) = i;
    const humoto::Solution &cx = x;
    for (int j = 0; j < 3; ++j)
    {
        long off, len;
        find(p, ids[j], off, len);
        c.step("getSolutionPart");
        c.nearM(cx.getSolutionPart(ids[j]), Eigen::VectorXd(cx.get_x().segment(off, len)), "part", "value of a part");
        c.nearM(Eigen::VectorXd(x.getSolutionPart(ids[j])), Eigen::VectorXd(cx.get_x().segment(off, len)), "part", "value of a part");
        Eigen::VectorXd e = x.x_;
        e.segment(off, len).setConstant(-5);
        c.step("write a part");
        x.getSolutionPart(ids[j]).setConstant(-5);
        c.nearM(x.x_, e, "part-write", "writing to a part");
    }
}

MC_SCENARIO(sol_data_range, 1, 1)
{
    long n = c.range(0, 3, "size");
    static const std::size_t offs[] = {0, 1, 2, 3, 4, (std::size_t) -1, (std::size_t) -2}, lens[] = {0, 1, 2, 3, 4, (std::size_t) -1};
    std::size_t o = c.pick(offs, "offset"), l = c.pick(lens, "length");
    humoto::SolutionStructure s;
    s.addSolutionPart("a", n);
    humoto::Solution x;
    x.initialize(s, 1.0);
    const humoto::Solution &cx = x;
    bool ok = (o <= (std::size_t) n) && (l <= (std::size_t) n - o);
    bool t1 = false, t2 = false;
    c.step("getData");
    try { Eigen::VectorXd v = cx.getData(humoto::Location(o, l)); c.check(v.size() == (long) l, "data", "length"); } catch (const std::runtime_error &) { t1 = true; }
    try { x.getData(humoto::Location(o, l)).setZero(); } catch (const std::runtime_error &) { t2 = true; }
    c.check(t1 == !ok && t2 == !ok, "data-range", "access outside of the solution must be rejected, and only it");
    if (!ok) c.nearM(cx.get_x(), Eigen::VectorXd(Eigen::VectorXd::Constant(n, 1.0)), "data-range", "rejected access changes the data");
    c.check(humoto::Location(o, l).checkLength(n) == ok, "data-range", "checkLength");
    c.state(mc::mix(mc::mix(n, o), l));
}

// a guess takes the parts of the old solution which have the same name and length
