// C14: interpolated trajectories meet their boundary conditions and their derivatives are derivatives.
#include "hier.h"
#include "humoto/walking.h"
using namespace humoto::rigidbody;
typedef TrajectoryEvaluationType TE;
typedef etools::Vector3 V3;
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

// exact for cubic polynomials
template<class F> static double deriv(F f, double t, double lo, double hi)
{
    double h = (hi - lo) / 64;
    if (t < lo + 2 * h) return (-11 * f(t) + 18 * f(t + h) - 9 * f(t + 2 * h) + 2 * f(t + 3 * h)) / (6 * h);
    if (t > hi - 2 * h) return (11 * f(t) - 18 * f(t - h) + 9 * f(t - 2 * h) - 2 * f(t - 3 * h)) / (6 * h);
    return (-f(t + 2 * h) + 8 * f(t + h) - 8 * f(t - h) + f(t - 2 * h)) / (12 * h);
}
static const double VALS[] = {0, 1, -2.5, 0.3};

MC_SCENARIO(polynomial, 1, 1)
{
    CubicPolynomial1D p;
    int depth = c.range(1, 2, "reused");
    double a = 0, b = 0, ad = 0, bd = 0;
    if (depth == 2) p.initialize(3, 4, 5, 6);
    switch (c.choose(3, "initialisation"))
    {
        case 0: if (depth == 2) p.initialize(0, 0); break;                 // constructor
        case 1: a = c.pick(VALS, "a"); b = c.pick(VALS, "b"); p.initialize(a, b); break;
        case 2: a = c.pick(VALS, "a"); b = c.pick(VALS, "b"); ad = c.pick(VALS, "adot"); bd = c.pick(VALS, "bdot"); p.initialize(a, ad, b, bd); break;
    }
    c.step("initialize");
    c.near(p.getPosition(0), a, "start", "initial position"); c.near(p.getPosition(1), b, "end", "final position");
    c.near(p.getVelocity(0), ad, "start-velocity", "initial velocity"); c.near(p.getVelocity(1), bd, "end-velocity", "final velocity");
    Eigen::VectorXd ts(9);
    for (int i = 0; i <= 8; ++i)
    {
        double t = i / 8.0;
        ts(i) = t;
        c.near(deriv([&](double x) { return p.getPosition(x); }, t, 0, 1), p.getVelocity(t), "velocity", "velocity is the derivative of the position", 1e-8);
        c.near(deriv([&](double x) { return p.getVelocity(x); }, t, 0, 1), p.getAcceleration(t), "acceleration", "acceleration is the derivative of the velocity", 1e-8);
        c.near(deriv([&](double x) { return p.getAcceleration(x); }, t, 0, 1), p.getJerk(), "jerk", "jerk is the derivative of the acceleration", 1e-8);
        c.near(p.eval(t, TE::POSITION), p.getPosition(t), "eval", "position"); c.near(p.eval(t, TE::VELOCITY), p.getVelocity(t), "eval", "velocity"); c.near(p.eval(t, TE::ACCELERATION), p.getAcceleration(t), "eval", "acceleration");
    }
    std::vector<double> v = p.eval(ts, TE::VELOCITY), x = p.eval(ts, TE::POSITION);
    c.check(v.size() == 9 && x.size() == 9, "eval-vector", "number of points");
    for (int i = 0; i < 9; ++i) { c.near(v[i], p.getVelocity(ts(i)), "eval-vector", "velocity"); c.near(x[i], p.getPosition(ts(i)), "eval-vector", "position"); }
    c.check(throws([&] { p.getPosition(-0.001); }) && throws([&] { p.getPosition(1.001); }) && throws([&] { p.getVelocity(1.001); }) && throws([&] { p.getVelocity(-0.001); }) && throws([&] { p.getAcceleration(-0.001); }) && throws([&] { p.getAcceleration(1.001); }), "time-range", "time out of [0, 1] is rejected");
    c.check(throws([&] { p.eval(0.5, TE::UNDEFINED); }), "bad-type", "undefined type is rejected");
    std::stringstream st; st << a << "," << ad << "," << b << "," << bd; c.state(st.str());
}
MC_SCENARIO(scaling, 1, 1)
{
    int n = c.range(2, 4, "points");
    Eigen::VectorXd t(n);
    static const double tv[] = {0, 1, -3, 7.5};
    for (int i = 0; i < n; ++i) t(i) = c.pick(tv, "time");
    double lo = t(0), hi = t(0);
    for (int i = 0; i < n; ++i) { lo = std::min(lo, t(i)); hi = std::max(hi, t(i)); }
    if (lo == hi) throw mc::Prune();
    c.step("scale");
    Eigen::VectorXd s = CubicPolynomial1D::scale(t);
    c.check(s.size() == n, "scale", "size");
    for (int i = 0; i < n; ++i) c.near(s(i), (t(i) - lo) / (hi - lo), "scale", "time scaled to [0, 1]");
}
static V3 vec(mc::Ctx &c, int base, const char *l)
{
    static const double v[][3] = {{0, 0, 0}, {1, -2, 0.25}, {-0.5, 0.75, -1}};
    (void) base;
    uint32_t k = c.choose(3, l);
    return V3(v[k][0], v[k][1], v[k][2]);
}
MC_SCENARIO(foot, 4, 3)
{
    humoto::walking::Simple3DFootTrajectory f;
    RigidBodyState sa, sb;
    uint32_t how = c.choose(3, "initialisation");
    V3 a = vec(c, 0, "a"), b = vec(c, 0, "b"), ad = V3::Zero(), bd = V3::Zero();
    static const double hs[] = {0.5, 0.0, 3.0, 1.25};
    double h = c.pick(hs, "step height");
    if (how > 0) { ad = vec(c, 0, "adot"); bd = vec(c, 0, "bdot"); }
    double th[4] = {0, 0, 0, 0};
    if (c.flip("reused")) { f.initialize(V3(1, 1, 1), V3(2, 2, 2), V3(3, 3, 1), V3(4, 4, 4), 5); }
    bool bad = b(2) > a(2) + h;
    auto init = [&]
    {
        if (how == 0) f.initialize(a, b, h);
        if (how == 1) f.initialize(a, ad, b, bd, h);
        if (how == 2)
        {
            th[0] = 0.1; th[1] = -1; th[2] = 2; th[3] = 0.5;
            sa.set(a, V3(7, 8, th[0]), ad, V3(9, 10, th[1])); sb.set(b, V3(-7, -8, th[2]), bd, V3(-9, -10, th[3]));
            f.initialize(sa, sb, h);
        }
    };
    c.step("initialize");
    if (bad) { c.check(throws(init), "too-low", "a step which is too low is rejected"); return; }
    init();
    c.nearM(f.eval(0, TE::POSITION), a, "start", "initial position"); c.nearM(f.eval(1, TE::POSITION), b, "end", "final position");
    c.nearM(f.eval(0, TE::VELOCITY), ad, "start-velocity", "initial velocity"); c.nearM(f.eval(1, TE::VELOCITY), bd, "end-velocity", "final velocity");
    c.near(f.evalz(0.5, TE::POSITION), a(2) + h, "height", "height in the middle"); c.near(f.evalz(0.5, TE::VELOCITY), 0, "height", "vertical velocity in the middle");
    c.near(f.evalz(0.5 + 1e-12, TE::POSITION), a(2) + h, "height", "height after the middle");
    c.near(f.evalTheta(0, TE::POSITION), th[0], "theta", "initial yaw"); c.near(f.evalTheta(1, TE::POSITION), th[2], "theta", "final yaw");
    c.near(f.evalTheta(0, TE::VELOCITY), th[1], "theta", "initial yaw rate"); c.near(f.evalTheta(1, TE::VELOCITY), th[3], "theta", "final yaw rate");
    double e = 1e-13;
    for (int i = 0; i <= 16; ++i)
    {
        double t = i / 16.0;
        double zl = t <= 0.5 ? 0.0 : 0.5 + e, zh = t <= 0.5 ? 0.5 : 1.0;
        struct Part { const char *n; std::function<double(double, TE::Type)> f; double lo, hi; };
        Part parts[] = {
            {"x", [&](double s, TE::Type k) { return f.evalx(s, k); }, 0, 1}, {"y", [&](double s, TE::Type k) { return f.evaly(s, k); }, 0, 1},
            {"z", [&](double s, TE::Type k) { return f.evalz(s, k); }, zl, zh}, {"theta", [&](double s, TE::Type k) { return f.evalTheta(s, k); }, 0, 1}};
        for (auto &p : parts)
        {
            c.near(p.f(t, TE::VELOCITY), deriv([&](double s) { return p.f(s, TE::POSITION); }, t, p.lo, p.hi), "velocity", p.n, 1e-8);
            c.near(p.f(t, TE::ACCELERATION), deriv([&](double s) { return p.f(s, TE::VELOCITY); }, t, p.lo, p.hi), "acceleration", p.n, 1e-8);
        }
        RigidBodyState s;
        s.rpy_ << 11, 12, 13;
        f.eval(s, t);
        for (int k = 0; k < 3; ++k)
        {
            c.near(s.position_(k), parts[k].f(t, TE::POSITION), "eval-state", "position"); c.near(s.velocity_(k), parts[k].f(t, TE::VELOCITY), "eval-state", "velocity"); c.near(s.acceleration_(k), parts[k].f(t, TE::ACCELERATION), "eval-state", "acceleration");
            c.near(f.eval(t, TE::VELOCITY)(k), parts[k].f(t, TE::VELOCITY), "eval", "velocity");
        }
        c.near(s.rpy_(2), f.evalTheta(t, TE::POSITION), "eval-state", "yaw"); c.near(s.angular_velocity_(2), f.evalTheta(t, TE::VELOCITY), "eval-state", "yaw rate"); c.near(s.angular_acceleration_(2), f.evalTheta(t, TE::ACCELERATION), "eval-state", "yaw acceleration");
        c.check(s.rpy_(0) == 11 && s.rpy_(1) == 12, "eval-state", "roll and pitch are kept");
    }
    c.check(throws([&] { f.evalx(1.01, TE::POSITION); }) && throws([&] { f.evalz(1.01, TE::POSITION); }) && throws([&] { f.evalz(-0.01, TE::POSITION); }), "time-range", "time out of [0, 1] is rejected");
    std::stringstream st; st << a.transpose() << ad.transpose() << b.transpose() << bd.transpose() << h << how; c.state(st.str());
}
