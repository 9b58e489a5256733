// C21: tasks of the mobile robot controller express the predicted motion.
#include "pepper.h"
using namespace pepper;
typedef humoto::ConstraintActivationType CA;
enum { VREF, PREF, BJERK, DJERK, COPC, DREF, COPB, DPB, VB, AB, COUNT };
static const char *names[] = {"velocity-reference", "position-reference", "base-jerk", "body-jerk", "cop-centering", "body-reference", "cop-bounds", "body-bounds", "velocity-bounds", "acceleration-bounds"};
struct Stack
{
    humoto::OptimizationProblem opt;
    double gain[6];
    explicit Stack(bool defaults)
    {
        typedef humoto::TaskSharedPointer P;
        static const double g[] = {2.0, 0.5, 0.25, -3.0, 1.5, 0.75};
        for (int i = 0; i < 6; ++i) gain[i] = defaults ? (i == 0 ? 1.0 : 0.707106781186548) : g[i];
        opt.reset(COUNT);
        if (defaults)
        {
            opt.pushTask(P(new pm::TaskBaseVelocityReference()), VREF); opt.pushTask(P(new pm::TaskBasePositionReference()), PREF);
            opt.pushTask(P(new pm::TaskBaseJerkMinimization()), BJERK); opt.pushTask(P(new pm::TaskBodyJerkMinimization()), DJERK);
            opt.pushTask(P(new pm::TaskCoPCentering()), COPC); opt.pushTask(P(new pm::TaskBodyPositionReference()), DREF);
        }
        else
        {
            opt.pushTask(P(new pm::TaskBaseVelocityReference(g[0])), VREF); opt.pushTask(P(new pm::TaskBasePositionReference(g[1])), PREF);
            opt.pushTask(P(new pm::TaskBaseJerkMinimization(g[2])), BJERK); opt.pushTask(P(new pm::TaskBodyJerkMinimization(g[3])), DJERK);
            opt.pushTask(P(new pm::TaskCoPCentering(g[4])), COPC); opt.pushTask(P(new pm::TaskBodyPositionReference(g[5])), DREF);
        }
        opt.pushTask(P(new pm::TaskCoPPositionBounds()), COPB); opt.pushTask(P(new pm::TaskBodyPositionBounds()), DPB);
        opt.pushTask(P(new pm::TaskBaseVelocityBounds()), VB); opt.pushTask(P(new pm::TaskBaseAccelerationBounds()), AB);
    }
};
// robot with other bounds
struct Robot : public pm::RobotParameters
{
    explicit Robot(int kind)
    {
        if (kind == 0) return;
        base_radius_ = 0.25 * kind + 0.125; max_nominal_base_velocity_ = 1.5 * kind; max_nominal_base_acceleration_ = 0.75 / kind;
        max_base_velocity_ = 20 * kind; max_base_acceleration_ = 30 * kind;
        body_bounds_ << -0.25, 0.125 * kind, -0.0625 * kind, 0.5;
        finalize();
    }
};
struct Sys
{
    Setup s;
    Robot robot;
    pm::Model model; pm::MPCforMG mg; std::deque<pm::MotionParameters> motion;
    Eigen::VectorXd b, d;
    double yaw;
    explicit Sys(const Setup &x) : s(x), robot(0), model(pm::RobotParameters()), mg(pm::MPCParameters(x.N, x.T, x.sub)), b(6), d(6), yaw(x.yaw)
    {
        for (int i = 0; i < 2; ++i)
        {
            pm::MotionParameters m;
            m.base_angular_velocity_ = 3 * num(s.salt, 8 + i);
            m.base_velocity_ << num(s.salt, 3 + i), num(s.salt, 6 + i);
            m.base_position_ << num(s.salt, 13 + i), num(s.salt, 16 + i);
            m.duration_ms_ = i == 1 ? pm::MotionParameters::UNLIMITED_DURATION : (std::ptrdiff_t) (2 * s.T);
            motion.push_back(m);
        }
        pm::ModelState m = initialState(s);
        b = vec(m.base_state_); d = vec(m.body_state_);
        model.updateState(m);
    }
    // other parameters and state of the robot for the same objects
    void reconfigure(const Setup &x, int kind)
    {
        s = x;
        robot = Robot(kind);
        mg.setParameters(pm::MPCParameters(x.N, x.T, x.sub));
        model.setParameters(robot);
        pm::ModelState m = initialState(s);
        b = vec(m.base_state_); d = vec(m.body_state_); yaw = x.yaw;
        model.updateState(m);
    }
};
static void checkTasks(mc::Ctx &c, const Sys &y, const Stack &st, const humoto::Solution &sol)
{
    std::size_t N = y.s.N;
    long n = 4 * N;
    humoto::constraints::ContainerALU k[COUNT];
    for (int i = 0; i < COUNT; ++i)
    {
        st.opt[i].getAllConstraints(k[i], sol);
        c.check((long) k[i].getNumberOfConstraints() == 2 * (long) N && k[i].getA().cols() == n, names[i], "dimensions");
        if (i <= DREF) c.nearM(k[i].getLowerBounds(), k[i].getUpperBounds(), names[i], "must be an equality");
    }
    // orientation and references over the horizon
    std::vector<double> th; std::vector<pm::MotionParameters> ref;
    double a = y.yaw;
    for (std::size_t i = 0; i < N; ++i)
    {
        const pm::MotionParameters &m = (y.motion.size() > 1 && (std::ptrdiff_t) ((i + 1) * y.s.T) <= y.motion[0].duration_ms_) ? y.motion[0] : y.motion.back();
        a += m.base_angular_velocity_ * y.s.Ts();
        th.push_back(a); ref.push_back(m);
    }
    const Robot &rp = y.robot;
    for (long j = -1; j < n; ++j)
    {
        Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
        if (j >= 0) x(j) = 1;
        Prediction p = predict(y.s, y.b, y.d, x);
        for (std::size_t i = 0; i < N; ++i)
        {
            V2 pb(p.base[i](0), p.base[i](3)), vb(p.base[i](1), p.base[i](4)), ab(p.base[i](2), p.base[i](5)), pd(p.body[i](0), p.body[i](3));
            V2 off = rot(-th[i]) * (pb - pd);
            V2 e[COUNT] = {vb - V2(rot(th[i]) * ref[i].base_velocity_), pb - ref[i].base_position_, p.jerk[i], x.segment(2 * N + 2 * i, 2), p.cop[i], off, p.cop[i], off, vb, ab};
            for (int q = 0; q < COUNT; ++q)
            {
                V2 v = k[q].getA().middleRows(2 * i, 2) * x;
                V2 lo = v - k[q].getLowerBounds().segment(2 * i, 2), up = v - k[q].getUpperBounds().segment(2 * i, 2);
                if (q <= DREF)
                {
                    double scale = std::max(1.0, e[q].norm());
                    c.nearM(V2(lo / scale), V2(st.gain[q] * e[q] / scale), names[q], "residual", 1e-7);
                    continue;
                }
                V2 bound;
                if (q == COPB) bound.setConstant(rp.base_radius_ / std::sqrt(2.0));
                if (q == VB) bound.setConstant(rp.max_nominal_base_velocity_ / std::sqrt(2.0));
                if (q == AB) bound.setConstant(rp.max_nominal_base_acceleration_ / std::sqrt(2.0));
                V2 l = -bound, u = bound;
                if (q == DPB) { l = rp.body_bounds_.col(0); u = rp.body_bounds_.col(1); }
                double scale = std::max(1.0, e[q].norm());
                c.nearM(V2(lo / scale), V2((e[q] - l) / scale), names[q], "lower bound", 1e-7);
                c.nearM(V2(up / scale), V2((e[q] - u) / scale), names[q], "upper bound", 1e-7);
            }
        }
    }
}
static CA::Type act(int salt, std::size_t i)
{
    static const CA::Type v[] = {CA::INACTIVE, CA::LOWER_BOUND, CA::UPPER_BOUND};
    return v[(salt * 5 + i * 7 + salt * i) % 3];
}
MC_SCENARIO(tasks, 32, 3)
{
    Sys y(chooseSetup(c));
    Stack st(c.flip("default gains"));
    humoto::ActiveSet guess, last;
    int steps = c.thorough ? 6 : 4;
    for (int it = 0; it < steps; ++it)
    {
        c.check(y.mg.update(y.motion, y.model) == humoto::ControlProblemStatus::OK, "status", "");
        humoto::Solution sol;
        st.opt.form(sol, guess, y.model, y.mg);
        c.step("form");
        checkTasks(c, y, st, sol);
        c.check(guess.size() == COUNT, "active-set", "levels");
        for (int q = 0; q < COUNT; ++q)
        {
            c.check(guess[q].size() == 2 * y.s.N, "active-set", "size");
            for (std::size_t i = 0; i < guess[q].size(); ++i)
            {
                CA::Type e = q <= DREF ? CA::EQUALITY : CA::INACTIVE;
                if (q > DREF && it > 0 && y.s.T <= y.s.sub && i + 2 < 2 * y.s.N) e = last[q][i + 2];
                c.check(guess[q][i] == e, "active-set", "the active set of the previous problem is shifted by one interval when the horizon is");
            }
        }
        humoto::ActiveSet as;
        st.opt.initializeActiveSet(as);
        for (int q = 0; q < COUNT; ++q) for (std::size_t i = 0; i < as[q].size(); ++i) as[q][i] = q <= DREF ? CA::EQUALITY : act(it + q, i);
        st.opt.processActiveSet(as);
        last = as;
        Eigen::VectorXd x(4 * y.s.N);
        for (long i = 0; i < x.size(); ++i) x(i) = num(y.s.salt + it, i, 4) / 4;
        sol.x_ = x;
        y.mg.parseSolution(sol);
        pm::ModelState m = y.mg.getModelState(y.model, y.s.sub);
        y.model.updateState(m);
        y.b = vec(m.base_state_); y.d = vec(m.body_state_); y.yaw = m.base_state_.rpy_.z();
        y.s.ms = m.base_mass_; y.s.md = m.body_mass_;
        y.mg.shift(y.motion, y.s.sub);
        std::stringstream ss; ss << y.s.N << "," << y.s.T << "," << y.s.sub << "," << y.s.salt << "," << it << y.motion.size();
        c.state(ss.str());
    }
}
// one set of objects is used with different parameters, robots and states
MC_SCENARIO(reconfigured, 32, 4)
{
    static const std::size_t Ts[] = {40, 100};
    Setup s;
    s.N = c.range(1, 3, "first horizon");
    s.sub = s.T = Ts[c.range(0, 1, "first sampling time")];
    s.hs = 0.25; s.hd = 0.5; s.ms = 8.0; s.md = 24.0; s.salt = 7; s.yaw = num(7, 5);
    int kind = c.range(0, 2, "robot parameters");
    Setup n = chooseSetup(c);
    if (n.sub != n.T || (!c.thorough && (n.N > 3 || n.salt == 1))) throw mc::Prune();
    Sys y(s);
    Stack st(true);
    humoto::ActiveSet guess, last;
    bool set = c.flip("guess the active set") && s.N == n.N;
    for (int it = 0; it < 3; ++it)
    {
        if (it == 1) y.reconfigure(n, kind);
        if (it == 2) y.reconfigure(s, 2 - kind);
        c.check(y.mg.update(y.motion, y.model) == humoto::ControlProblemStatus::OK, "status", "");
        humoto::Solution sol;
        c.step("form");
        if (set) st.opt.form(sol, guess, y.model, y.mg); else st.opt.form(sol, y.model, y.mg);
        checkTasks(c, y, st, sol);
        if (set)
        {
            for (int q = 0; q < COUNT; ++q)
                for (std::size_t i = 0; i < guess[q].size(); ++i)
                {
                    CA::Type e = q <= DREF ? CA::EQUALITY : CA::INACTIVE;
                    if (q > DREF && it > 0 && i + 2 < 2 * y.s.N) e = last[q][i + 2];
                    c.check(guess[q][i] == e, "active-set", "the active set of the previous problem is shifted by one interval when the horizon is");
                }
            st.opt.initializeActiveSet(last);
            for (int q = 0; q < COUNT; ++q) for (std::size_t i = 0; i < last[q].size(); ++i) last[q][i] = q <= DREF ? CA::EQUALITY : act(it + q, i);
            st.opt.processActiveSet(last);
        }
    }
    std::stringstream ss; ss << s.N << "," << s.T << "," << kind << set << ";" << n.N << "," << n.T << "," << n.hs << n.ms << n.salt;
    c.state(ss.str());
}
