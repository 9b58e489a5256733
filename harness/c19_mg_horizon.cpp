// C19: the preview horizon of the mobile robot follows the requested sequence of motions while it is shifted.
#include "pepper.h"
using namespace pepper;
typedef std::vector<std::pair<std::ptrdiff_t, int>> Line;   // (duration, index of the motion), -1: unlimited
static const std::size_t T = 3;
static pm::MotionParameters motion(std::ptrdiff_t d, int k)
{
    pm::MotionParameters m;
    m.base_velocity_ << num(k, 1), num(k, 2);
    m.base_position_ << num(k, 3), num(k, 4);
    m.base_angular_velocity_ = 20 * num(k, 5);
    m.duration_ms_ = d;
    return m;
}
// the motion requested at the time t, or 100 if it is not known
static int at(const Line &l, long t)
{
    for (auto &x : l) { if (x.first < 0 || t < x.first) return x.second; t -= x.first; }
    return 100;
}
// intervals belong to the motion during which they end
static bool plan(const Line &l, long shift, std::size_t N, std::vector<int> &r)
{
    r.clear();
    for (std::size_t i = 0; i < N; ++i) { int k = at(l, shift + (long) ((i + 1) * T) - 1); if (k == 100) return false; r.push_back(k); }
    return true;
}
static void checkHorizon(mc::Ctx &c, const pm::PreviewHorizon &h, const std::vector<int> &r, const pm::Model &model, double yaw)
{
    c.check(h.getPreviewHorizonLength() == r.size(), "length", "number of intervals");
    pm::RobotParameters rp;
    double th = yaw;
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        const pm::PreviewHorizonInterval &x = h.intervals_[i];
        pm::MotionParameters m = motion(0, r[i]);
        th += m.base_angular_velocity_ * T / 1000.0;
        c.near(x.theta_, th, "theta", "orientation");
        c.nearM(h.getRotationMatrix(i), rot(th), "theta", "rotation matrix");
        c.check(x.T_ms_ == T, "sampling", "milliseconds");
        c.near(x.T_, T / 1000.0, "sampling", "seconds");
        c.nearM(h.getBaseReferenceVelocity(i), V2(rot(th) * m.base_velocity_), "velocity", "velocity is given in the frame of the base");
        c.nearM(h.getBaseReferencePosition(i), m.base_position_, "position", "position is given in the global frame");
        c.near(x.base_height_, model.state_.base_state_.position_.z(), "heights", "height of the base");
        c.near(x.body_height_, model.state_.body_state_.position_.z(), "heights", "height of the body");
        c.near(x.base_mass_, model.state_.base_mass_, "masses", "mass of the base");
        c.near(x.body_mass_, model.state_.body_mass_, "masses", "mass of the body");
        Eigen::Matrix2d s; s << -1, 1, -1, 1; s /= std::sqrt(2.0);
        c.nearM(h.getCoPBounds(i), Eigen::Matrix2d(s * rp.base_radius_), "cop-bounds", "square inscribed in the base");
        c.nearM(h.getNominalBaseVelocityBounds(i), Eigen::Matrix2d(s * rp.max_nominal_base_velocity_), "velocity-bounds", "square inscribed in the circle of nominal velocities");
        c.nearM(h.getNominalBaseAccelerationBounds(i), Eigen::Matrix2d(s * rp.max_nominal_base_acceleration_), "acceleration-bounds", "square inscribed in the circle of nominal accelerations");
        c.nearM(h.getBodyBounds(i), rp.body_bounds_, "body-bounds", "bounds of the body");
    }
}
struct Sys
{
    pm::Model model; pm::MPCforMG mg; pm::MPCParameters par;
    double yaw;
    explicit Sys(std::size_t N, int salt) : model(pm::RobotParameters()), par(N, T, T)
    {
        Setup s; s.salt = salt; s.hs = 0.25; s.hd = 0.5; s.ms = 3; s.md = 5; s.yaw = yaw = num(salt, 9);
        model.updateState(initialState(s));
        mg.setParameters(par);
    }
    void turn(double y) { pm::ModelState m = model.state_; m.base_state_.rpy_.z() = yaw = y; model.updateState(m); }
};
static long amount(mc::Ctx &c, std::ptrdiff_t &arg)
{
    static const std::ptrdiff_t a[] = {pm::MPCforMG::DEFAULT_PREVIEW_HORIZON_SHIFT, 1, 2, 4, 0, 7};
    arg = a[c.range(0, c.thorough ? 5 : 3, "shift")];
    return arg < 0 ? (long) T : (long) arg;
}
static bool same(const Line &l, long shift, const std::deque<pm::MotionParameters> &q)
{
    Line k;
    for (auto &m : q)
    {
        int id = 100;
        for (int i = 0; i < 8; ++i) if ((motion(0, i).base_velocity_ - m.base_velocity_).norm() == 0 && motion(0, i).base_angular_velocity_ == m.base_angular_velocity_) id = i;
        k.push_back(std::make_pair(m.duration_ms_, id));
    }
    for (long t = 0; t < 60; ++t) if (at(l, shift + t) != at(k, t)) return false;
    return true;
}
// a queue of motions: all queues, all sequences of shifts until the end
MC_SCENARIO(queue, 64, 4)
{
    static const std::ptrdiff_t D[] = {0, 1, 2, 3, 4, 6, 7, -1};
    std::size_t N = c.range(1, 3, "horizon");
    int n = c.range(0, 3, "motions");
    Line l;
    std::deque<pm::MotionParameters> q;
    for (int i = 0; i < n; ++i)
    {
        std::ptrdiff_t d = D[c.range(0, 7, "duration")];
        l.push_back(std::make_pair(d, i));
        q.push_back(motion(d, i));
    }
    Sys s(N, 3);
    long shift = 0;
    int max = c.thorough ? 4 : 3;
    for (int it = 0; it < max; ++it)
    {
        std::vector<int> r;
        bool ok = plan(l, shift, N, r);
        bool both = c.flip("updateAndShift");
        std::deque<pm::MotionParameters> before = q;
        std::ptrdiff_t arg = -1;
        long a = T;
        humoto::ControlProblemStatus::Status st;
        if (both)
        {
            a = amount(c, arg);
            st = arg == -1 ? s.mg.updateAndShift(q, s.model) : s.mg.updateAndShift(q, s.model, arg);
        }
        else st = s.mg.update(q, s.model);
        c.step("update");
        c.check(st == (ok ? humoto::ControlProblemStatus::OK : humoto::ControlProblemStatus::STOPPED), "status", "stopped exactly when the motions do not cover the horizon");
        if (ok) checkHorizon(c, s.mg.preview_horizon_, r, s.model, s.yaw);
        if (both) { if (ok) shift += a; }
        else
        {
            c.check(same(l, shift, q), "update-only", "update does not change the motions");
            if (!ok) break;
            a = amount(c, arg);
            if (arg == -1) s.mg.shift(q); else s.mg.shift(q, arg);
            shift += a;
        }
        c.check(same(l, shift, q), "shift", "the motions are shifted by the given time");
        std::stringstream ss; for (auto &m : q) ss << m.duration_ms_ << " "; ss << N << "," << it << ok;
        c.state(ss.str());
        if (!ok) break;
        s.turn(num(it, 7, 3));
    }
}
// one motion
MC_SCENARIO(single, 16, 3)
{
    std::size_t N = c.range(1, 4, "horizon");
    std::ptrdiff_t d = c.range(-1, 20, "duration");
    int k = c.range(0, 2, "motion");
    pm::MotionParameters m = motion(d, k);
    Sys s(N, 4 + k);
    for (int it = 0; it < 4; ++it)
    {
        bool ok = d < 0 || d >= (std::ptrdiff_t) (N * T);
        std::ptrdiff_t arg = -1;
        long a = amount(c, arg);
        bool both = c.flip("updateAndShift");
        humoto::ControlProblemStatus::Status st;
        if (both) st = arg == -1 ? s.mg.updateAndShift(m, s.model) : s.mg.updateAndShift(m, s.model, arg);
        else st = s.mg.update(m, s.model);
        c.step("update");
        c.check(st == (ok ? humoto::ControlProblemStatus::OK : humoto::ControlProblemStatus::STOPPED), "status", "stopped exactly when the motion does not cover the horizon");
        if (ok) checkHorizon(c, s.mg.preview_horizon_, std::vector<int>(N, k), s.model, s.yaw);
        if (!both) { c.check(m.duration_ms_ == d, "update-only", "update does not change the motion"); if (arg == -1) s.mg.shift(m); else s.mg.shift(m, arg); }
        if ((!both || ok) && d >= 0) d = std::max<std::ptrdiff_t>(0, d - a);
        c.check(m.duration_ms_ == d, "shift", "duration of the motion");
        c.nearM(m.base_velocity_, motion(0, k).base_velocity_, "shift", "the motion is kept");
        c.state(std::to_string(N) + "," + std::to_string(d));
        s.turn(num(it, 7, 2));
    }
}
// search of intervals
MC_SCENARIO(offsets, 1, 1)
{
    static const std::size_t Ts[] = {1, 3, 100};
    std::size_t N = c.range(1, 5, "horizon"), t = Ts[c.range(0, 2, "T")];
    pm::Model model;
    pm::MPCforMG mg(pm::MPCParameters(N, t, t));
    c.check(mg.update(pm::MotionParameters(), model) == humoto::ControlProblemStatus::OK, "status", "idle motion is unlimited");
    c.check(mg.getPreviewHorizonLength() == N, "length", "");
    for (std::size_t o = 0; o <= N * t + 3; ++o)
    {
        std::size_t off = o, i = 0;
        bool out = throws([&] { i = mg.preview_horizon_.getIntervalIndexByTimeOffset(off); });
        c.check(out == (o > N * t), "offset", "offsets outside of the horizon are rejected");
        if (!out) c.check(i < N && i * t + off == o && off <= t, "offset", "index of the interval");
        double d = o / 1000.0;
        if (o != N * t)     // rounding
        {
            out = throws([&] { i = mg.preview_horizon_.getIntervalIndexByTimeOffset(d); });
            c.check(out == (o > N * t), "offset-double", "offsets outside of the horizon are rejected");
            if (!out) { c.check(i < N, "offset-double", "index"); c.near(i * t / 1000.0 + d, o / 1000.0, "offset-double", "index of the interval"); c.check(d <= t / 1000.0 + 1e-12, "offset-double", "offset"); }
        }
    }
    c.step("offsets");
    c.state(N * 1000 + t);
}
// idle motion, parameters
MC_SCENARIO(parameters, 1, 1)
{
    pm::MotionParameters m = motion(5, 1);
    if (c.flip("defaults")) m.setDefaults(); else m.setIdle();
    c.check(m.base_velocity_.norm() == 0 && m.base_angular_velocity_ == 0 && m.base_position_.norm() == 0 && m.duration_ms_ == pm::MotionParameters::UNLIMITED_DURATION, "idle", "idle motion");
    c.check(m.motion_mode_ == pm::MotionMode::MAINTAIN_VELOCITY, "idle", "mode");
    pm::MPCParameters p(c.range(1, 3, "N"), c.range(1, 5, "T"), c.range(1, 5, "Ts"));
    c.near(p.getSamplingTime(), p.sampling_time_ms_ / 1000.0, "parameters", "sampling time");
    c.near(p.getSubsamplingTime(), p.subsampling_time_ms_ / 1000.0, "parameters", "subsampling time");
    p.setDefaults();
    c.check(p.preview_horizon_length_ == 15 && p.sampling_time_ms_ == 100 && p.subsampling_time_ms_ == 100, "parameters", "defaults");
    c.near(p.getSamplingTime(), 0.1, "parameters", "defaults");
    pm::RobotParameters r;
    Eigen::Matrix2d s; s << -1, 1, -1, 1;
    c.nearM(r.getCoPBounds(), Eigen::Matrix2d(s * 0.7 / std::sqrt(2.0)), "robot", "bounds of the center of pressure");
    c.nearM(r.getNominalBaseVelocityBounds(), Eigen::Matrix2d(s * 0.5 / std::sqrt(2.0)), "robot", "bounds of the velocity");
    c.nearM(r.getNominalBaseAccelerationBounds(), Eigen::Matrix2d(s * 1.0 / std::sqrt(2.0)), "robot", "bounds of the acceleration");
    c.step("parameters");
    c.state(p.preview_horizon_length_);
}
