// C20: predictions of the mobile robot controller are the motions of the two point masses.
#include "pepper.h"
using namespace pepper;
struct Sys
{
    Setup s;
    pm::Model model; pm::MPCforMG mg; pm::MotionParameters motion;
    Eigen::VectorXd b, d;
    double yaw, rate;
    explicit Sys(const Setup &x) : s(x), model(pm::RobotParameters()), mg(pm::MPCParameters(x.N, x.T, x.sub)), b(6), d(6), yaw(x.yaw), rate(3 * num(x.salt, 8))
    {
        motion.base_angular_velocity_ = rate;
        motion.base_velocity_ << 0.1, -0.2;
        pm::ModelState m = initialState(s);
        b = vec(m.base_state_); d = vec(m.body_state_);
        model.updateState(m);
    }
    double theta(double t) const { return yaw + rate * t; }
    // other parameters, state of the robot and motion for the same objects
    void reconfigure(const Setup &x)
    {
        s = x;
        mg.setParameters(pm::MPCParameters(x.N, x.T, x.sub));
        motion.base_angular_velocity_ = rate = 3 * num(x.salt + 4, 8);
        yaw = x.yaw;
        pm::ModelState m = initialState(s);
        b = vec(m.base_state_); d = vec(m.body_state_);
        model.updateState(m);
    }
};
static void checkState(mc::Ctx &c, const Sys &y, const pm::ModelState &m, const Eigen::VectorXd &b, const Eigen::VectorXd &d, double theta, const char *key)
{
    c.nearM(vec(m.base_state_), b, key, "base", 1e-8);
    c.nearM(vec(m.body_state_), d, key, "body", 1e-8);
    c.near(m.base_state_.rpy_.z(), theta, key, "orientation", 1e-8);
    c.check(m.base_state_.rpy_.head(2).norm() == 0 && m.base_state_.velocity_.z() == 0 && m.base_state_.acceleration_.z() == 0 && m.body_state_.velocity_.z() == 0 && m.body_state_.acceleration_.z() == 0, key, "planar motion");
    c.near(m.base_state_.position_.z(), y.s.hs, key, "height of the base");
    c.near(m.body_state_.position_.z(), y.s.hd, key, "height of the body");
    c.check(m.base_mass_ == y.s.ms && m.body_mass_ == y.s.md, "masses", "masses are constant");
}
static Eigen::VectorXd controls(const Sys &y, int salt)
{
    Eigen::VectorXd x(4 * y.s.N);
    for (long i = 0; i < x.size(); ++i) x(i) = num(salt, i, 4);
    return x;
}
static void checkProfiles(mc::Ctx &c, const Sys &y, const Prediction &p)
{
    std::size_t N = y.s.N;
    const pm::MPCforMG &mg = y.mg;
    if (mg.cstate_profile_.size() != 12 * (long) N || mg.cop_profile_.size() != 2 * (long) N || mg.base_jerk_profile_.size() != 2 * (long) N) { c.fail("profile", "size"); return; }
    for (std::size_t i = 0; i < N; ++i)
    {
        c.nearM(Eigen::VectorXd(mg.cstate_profile_.segment(6 * i, 6)), p.base[i], "profile-base", "state of the base", 1e-8);
        c.nearM(Eigen::VectorXd(mg.cstate_profile_.segment(6 * (N + i), 6)), p.body[i], "profile-body", "state of the body", 1e-8);
        c.nearM(V2(mg.cop_profile_.segment(2 * i, 2)), p.cop[i], "profile-cop", "center of pressure", 1e-8);
        double scale = std::max(1.0, p.jerk[i].norm());
        c.nearM(V2(mg.base_jerk_profile_.segment(2 * i, 2) / scale), V2(p.jerk[i] / scale), "profile-jerk", "jerk of the base", 1e-8);
    }
}
// all linear maps: origin and unit vectors; all times of the horizon
static void checkMaps(mc::Ctx &c, Sys &y, bool coarse)
{
    c.check(y.mg.update(y.motion, y.model) == humoto::ControlProblemStatus::OK, "status", "");
    long n = 4 * y.s.N;
    c.check(y.mg.getSolutionStructure().getNumberOfVariables() == (std::size_t) n, "variables", "number of variables");
    humoto::Location lb = y.mg.getSolutionStructure().getSolutionPartLocation(pm::BASE_VEL_VARIABLES_ID), ld = y.mg.getSolutionStructure().getSolutionPartLocation(pm::BODY_JERK_VARIABLES_ID);
    c.check(lb.offset_ == 0 && (long) lb.length_ == n / 2 && (long) ld.offset_ == n / 2 && (long) ld.length_ == n / 2, "variables", "locations");
    for (long j = -2; j < n; ++j)
    {
        Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
        if (j >= 0) x(j) = 1;
        if (j == -2) x = controls(y, y.s.salt + 11);
        Prediction p = predict(y.s, y.b, y.d, x);
        y.mg.parseSolution(solution(y.mg, x));
        c.step("parse");
        checkProfiles(c, y, p);
        checkState(c, y, y.mg.getNextModelState(y.model), p.base[0], p.body[0], y.theta(y.s.Ts()), "next");
        for (std::size_t t = 0; t <= y.s.N * y.s.T; t += coarse ? std::max<std::size_t>(1, y.s.T / 2) : (j < 0 || y.s.T < 10) ? 1 : y.s.T / 4)
        {
            Eigen::VectorXd b, d;
            at(y.s, y.b, y.d, x, p, t / 1000.0, b, d);
            checkState(c, y, y.mg.getModelState(y.model, t), b, d, y.theta(t / 1000.0), "state-ms");
            double td = t / 1000.0 + 0.0003;
            if (t == y.s.N * y.s.T) { c.check(throws([&] { y.mg.getModelState(y.model, td); }), "outside", "time outside of the horizon"); continue; }
            at(y.s, y.b, y.d, x, p, td, b, d);
            checkState(c, y, y.mg.getModelState(y.model, td), b, d, y.theta(td), "state-s");
        }
        c.check(throws([&] { y.mg.getModelState(y.model, (std::size_t) (y.s.N * y.s.T + 1)); }), "outside", "time outside of the horizon");
    }
}
MC_SCENARIO(maps, 32, 3)
{
    Sys y(chooseSetup(c));
    if (y.s.sub != y.s.T) throw mc::Prune();
    checkMaps(c, y, false);
    c.state(std::to_string(y.s.N) + "," + std::to_string(y.s.T) + "," + std::to_string(y.s.salt));
}
// one object is used with different parameters, states, masses and heights
static humoto::Solution shiftedGuess(mc::Ctx &c, const Sys &y, const humoto::Solution &old, std::size_t oldN)
{
    humoto::Solution guess;
    c.step("guess");
    y.mg.guessSolution(guess, old);
    std::size_t N = y.s.N;
    c.check(guess.getNumberOfVariables() == 4 * N && guess.x_.size() == 4 * (long) N, "guess", "size");
    for (std::size_t part = 0; part < 2; ++part)
        for (std::size_t i = 0; i < 2 * N; ++i)
            c.check(guess.x_(2 * N * part + i) == (i + 2 < 2 * oldN ? old.x_(2 * oldN * part + i + 2) : 0.0), "guess", "the guess is the old solution shifted by one interval, zero where there is no old value");
    return guess;
}
MC_SCENARIO(reconfigure, 64, 4)
{
    static const std::size_t Ts[] = {40, 100};
    Setup s;
    s.N = c.thorough ? c.range(1, 5, "first horizon") : c.range(1, 3, "first horizon");
    s.sub = s.T = Ts[c.range(0, 1, "first sampling time")];
    int k = c.range(0, 3, "first robot");
    s.hs = k & 1 ? 0.4 : 0.125; s.hd = k & 1 ? 0.3 : 0.75; s.ms = k & 2 ? 1.0 : 16.25; s.md = k & 2 ? 40.0 : 12.5;
    s.salt = 7; s.yaw = num(7, 5);
    Sys y(s);
    c.check(y.mg.update(y.motion, y.model) == humoto::ControlProblemStatus::OK, "status", "");
    humoto::Solution old = solution(y.mg, controls(y, 5));
    int used = c.range(0, 1, "previous use");
    if (used) { y.mg.parseSolution(old); y.mg.getNextModelState(y.model); }
    Setup n = chooseSetup(c);
    if (n.sub != n.T || (!c.thorough && n.salt == 1)) throw mc::Prune();
    y.reconfigure(n);
    c.step("reconfigured");
    pm::MotionParameters brief = y.motion;
    brief.duration_ms_ = n.N * n.T - 1;
    c.check(y.mg.update(brief, y.model) == humoto::ControlProblemStatus::STOPPED, "status", "a motion which is shorter than the horizon");
    c.check(throws([&] { y.mg.getNextModelState(y.model); }) && throws([&] { y.mg.getModelState(y.model, (std::size_t) 1); }) && throws([&] { y.mg.getModelState(y.model, 0.001); }), "protocol", "the solution of the previous problem is not valid");
    checkMaps(c, y, true);
    shiftedGuess(c, y, old, s.N);
    std::stringstream ss; ss << s.N << "," << s.T << "," << k << used << ";" << n.N << "," << n.T << "," << n.hs << n.ms << n.salt;
    c.state(ss.str());
}
// the closed loop
MC_SCENARIO(loops, 32, 3)
{
    Sys y(chooseSetup(c));
    int steps = c.thorough ? 5 : 3;
    humoto::Solution old;
    for (int it = 0; it < steps; ++it)
    {
        c.check(throws([&] { if (it == 0) y.mg.getNextModelState(y.model); else throw std::runtime_error(""); }), "protocol", "no solution yet");
        c.check(y.mg.update(y.motion, y.model) == humoto::ControlProblemStatus::OK, "status", "");
        c.check(throws([&] { y.mg.getNextModelState(y.model); }) && throws([&] { y.mg.getModelState(y.model, (std::size_t) 1); }) && throws([&] { y.mg.getModelState(y.model, 0.001); }), "protocol", "the solution of the previous problem is not valid");
        humoto::Solution guess;
        y.mg.guessSolution(guess, old);
        std::size_t n2 = 2 * y.s.N;
        c.check(guess.getNumberOfVariables() == 2 * n2, "guess", "size");
        for (std::size_t i = 0; i < 2 * n2; ++i)
        {
            double e = (it > 0 && (i % n2) + 2 < n2) ? old.x_(i + 2) : 0.0;
            c.check(guess.x_(i) == e, "guess", "the guess is the old solution shifted by one interval");
        }
        Eigen::VectorXd x = controls(y, y.s.salt + it * 7 + 1);
        Prediction p = predict(y.s, y.b, y.d, x);
        humoto::Solution sol = solution(y.mg, x);
        int mode = c.range(0, 2, "mode");
        pm::ModelState m;
        double t = y.s.sub / 1000.0;
        Eigen::VectorXd b, d;
        c.step("iteration");
        if (mode == 0)
        {
            m = y.mg.getNextModelState(sol, y.model);
            c.check(throws([&] { y.mg.getNextModelState(sol, y.model); }), "protocol", "a solution is processed once");
            t = y.s.Ts();
        }
        else
        {
            y.mg.parseSolution(sol);
            m = mode == 1 ? y.mg.getModelState(y.model, y.s.sub) : y.mg.getModelState(y.model, t);
        }
        checkProfiles(c, y, p);
        at(y.s, y.b, y.d, x, p, t, b, d);
        if (mode == 0) { b = p.base[0]; d = p.body[0]; }
        checkState(c, y, m, b, d, y.theta(t), "loop");
        y.model.updateState(m);
        y.yaw = y.theta(t); y.b = b; y.d = d;
        c.nearM(y.model.current_base_position_, V2(b(0), b(3)), "model", "position of the base");
        Eigen::VectorXd st(12); st << b, d;
        c.nearM(Eigen::VectorXd(y.model.getMPCState()), st, "model", "state", 1e-8);
        c.nearM(y.model.getCoP(), cop(y.s, b, d), "model", "center of pressure", 1e-8);
        c.nearM(y.model.getCoP(m), cop(y.s, b, d), "model", "center of pressure", 1e-8);
        c.near(y.model.getTheta(), y.yaw, "model", "orientation", 1e-8);
        c.near(y.model.getBaseOrientation(), y.yaw, "model", "orientation", 1e-8);
        c.near(y.model.getBaseHeight(), y.s.hs, "model", "height of the base");
        c.near(y.model.getBodyHeight(), y.s.hd, "model", "height of the body");
        c.check(y.model.getBaseMass() == y.s.ms && y.model.getBodyMass() == y.s.md, "masses", "masses are kept");
        c.nearM(vec(y.model.getBaseState()), b, "model", "base", 1e-8);
        c.nearM(vec(y.model.getBodyState()), d, "model", "body", 1e-8);
        old = sol;
        std::stringstream ss; ss << y.s.N << "," << y.s.T << "," << y.s.sub << "," << y.s.salt << "," << it << mode;
        c.state(ss.str());
    }
}
// states
// results of a new object, before any problem was formed
MC_SCENARIO(fresh, 1, 1)
{
    Sys y(chooseSetup(c));
    typedef humoto::pepper_mpc::MPCforMG M;
    void *where = ::operator new(sizeof(M));
    memset(where, c.flip("previous content of the memory") ? 0xff : 1, sizeof(M));
    M *m = c.flip("with parameters") ? new (where) M(humoto::pepper_mpc::MPCParameters(y.s.N)) : new (where) M;
    c.step("query");
    bool ok = throws([&] { m->getNextModelState(y.model); }) && throws([&] { m->getModelState(y.model, (std::size_t) 1); }) && throws([&] { m->getModelState(y.model, 0.001); });
    m->~M();
    ::operator delete(where);
    c.check(ok, "protocol", "results of a new object");
}
MC_SCENARIO(states, 1, 1)
{
    static const double v[] = {0.25, 0.5, -0.125};
    double bh = v[c.range(0, 2, "base height")], dh = v[c.range(0, 2, "body height")], off = v[c.range(0, 2, "offset")];
    int op = c.range(0, 4, "operation");
    double mb = v[c.range(0, 1, "mass")] * 8, md = v[c.range(0, 1, "mass")] * 12;
    Eigen::Vector3d pb(1, 2, bh), pd(3, off, dh);
    pm::ModelState m;
    m.base_state_.velocity_ << 1, 2, 3; m.base_state_.rpy_ << 0, 0, 4; m.body_state_.acceleration_ << 5, 6, 7;
    pm::ModelState k = m;
    c.step("state");
    if (op == 0)
    {
        pm::ModelState s(bh, dh, off);
        c.check(s.base_state_.position_.z() == bh && s.body_state_.position_.z() == dh && s.body_state_.position_.x() == off, "construct", "heights and offset");
        c.check(s.base_state_.position_.head(2).norm() == 0 && s.body_state_.position_.y() == 0 && s.base_state_.velocity_.norm() == 0 && s.body_state_.velocity_.norm() == 0, "construct", "the robot does not move");
        c.check(s.base_mass_ == pm::ModelState().base_mass_ && s.body_mass_ == pm::ModelState().body_mass_, "construct", "default masses");
        return;
    }
    if (op == 1 || op == 2)
    {
        if (op == 1) m.set(mb, md, pb, pd); else m = pm::ModelState(mb, md, pb, pd);
        c.check(m.base_state_.velocity_.norm() == 0 && m.base_state_.rpy_.norm() == 0 && m.body_state_.acceleration_.norm() == 0, "set", "the rest is reset");
    }
    if (op == 3)
    {
        m.update(mb, md, pb, pd, off);
        c.check(m.base_state_.rpy_ == Eigen::Vector3d(0, 0, off) && m.base_state_.velocity_ == k.base_state_.velocity_ && m.body_state_.acceleration_ == k.body_state_.acceleration_, "update", "the rest is kept");
    }
    if (op == 4)
    {
        humoto::rigidbody::RigidBodyState b; humoto::rigidbody::PointMassState d;
        b.setDefaults(); d.setDefaults();
        b.position_ = pb; d.position_ = pd;
        mb = m.base_mass_; md = m.body_mass_;
        m.set(b, d);
        c.check(m.base_state_.velocity_.norm() == 0, "set-states", "the states are replaced");
    }
    c.check(m.base_mass_ == mb && m.body_mass_ == md && m.base_state_.position_ == pb && m.body_state_.position_ == pd, "set", "values");
    pm::Model model;
    model.updateState(m);
    c.check(model.current_base_position_ == V2(pb.head(2)) && model.getBaseHeight() == bh && model.getBodyHeight() == dh, "model", "state of the model");
    // queries for another state than the one of the model
    pm::ModelState o;
    o.set(md + 1, mb + 2, Eigen::Vector3d(0.5, -1, dh + 0.25), Eigen::Vector3d(-2, 0.75, bh + 0.5));
    o.base_state_.acceleration_ << 1.5, -0.5, 0; o.body_state_.acceleration_ << -2.5, 0.75, 0; o.base_state_.velocity_ << 3, 4, 0; o.base_state_.rpy_.z() = 0.875;
    Setup so; so.ms = o.base_mass_; so.md = o.body_mass_; so.hs = dh + 0.25; so.hd = bh + 0.5;
    c.nearM(model.getCoP(o), cop(so, vec(o.base_state_), vec(o.body_state_)), "model", "center of pressure of a given state", 1e-9);
    c.nearM(Eigen::VectorXd(model.getMPCBaseState(o)), vec(o.base_state_), "model", "given state of the base");
    c.nearM(Eigen::VectorXd(model.getMPCBodyState(o)), vec(o.body_state_), "model", "given state of the body");
    c.check(model.getTheta(o) == 0.875, "model", "orientation of a given state");
    c.check(throws([&] { humoto::ModelState *x = nullptr; struct Other : humoto::ModelState { void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {} } o; x = &o; model.updateState(*x); }), "model", "a state of another kind");
    c.state(op * 100 + (int) (mb + md));
}
