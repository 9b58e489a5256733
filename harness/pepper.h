// Reference of the mobile robot controller (pepper_mpc).
#pragma once
#include "mc.h"
#include "humoto/humoto.h"
#include "humoto/pepper_mpc.h"
namespace pepper
{
namespace pm = humoto::pepper_mpc;
typedef Eigen::Vector2d V2;
static inline double num(int salt, int i, int j = 0) { return (((salt * 37 + i * 61 + j * 23 + i * j * 11) % 97) - 48) / 32.0; }
static inline Eigen::Matrix2d rot(double a) { Eigen::Matrix2d r; r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return r; }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
// [x vx ax y vy ay] under a constant jerk
static inline Eigen::VectorXd jerk(const Eigen::VectorXd &x, const V2 &j, double t)
{
    Eigen::VectorXd r(6);
    for (int k = 0; k < 2; ++k)
    {
        double p = x(3 * k), v = x(3 * k + 1), a = x(3 * k + 2);
        r(3 * k) = p + v * t + a * t * t / 2 + j(k) * t * t * t / 6;
        r(3 * k + 1) = v + a * t + j(k) * t * t / 2;
        r(3 * k + 2) = a + j(k) * t;
    }
    return r;
}
// the constant jerk which gives velocity u after T
static inline V2 velocityJerk(const Eigen::VectorXd &x, const V2 &u, double T)
{
    return V2(2 * (u(0) - x(1) - x(2) * T) / (T * T), 2 * (u(1) - x(4) - x(5) * T) / (T * T));
}
static inline Eigen::VectorXd vec(const humoto::rigidbody::PointMassState &q)
{
    Eigen::VectorXd x(6);
    x << q.position_.x(), q.velocity_.x(), q.acceleration_.x(), q.position_.y(), q.velocity_.y(), q.acceleration_.y();
    return x;
}
static inline void setVec(humoto::rigidbody::PointMassState &q, const Eigen::VectorXd &x)
{
    q.position_.x() = x(0); q.velocity_.x() = x(1); q.acceleration_.x() = x(2);
    q.position_.y() = x(3); q.velocity_.y() = x(4); q.acceleration_.y() = x(5);
}
struct Setup
{
    std::size_t N, T, sub;
    double hs, hd, ms, md, yaw;
    int salt;
    double Ts() const { return T / 1000.0; }
};
static inline Setup chooseSetup(mc::Ctx &c)
{
    static const std::size_t Ts[] = {100, 40, 7};
    Setup s;
    s.N = c.range(1, c.thorough ? 7 : 4, "horizon");
    s.T = Ts[c.range(0, 2, "sampling time")];
    static const double hs[] = {0.125, 0.4}, hd[] = {0.75, 0.3}, ms[] = {16.25, 1.0}, md[] = {12.5, 40.0};
    int k = c.range(0, 3, "robot");
    s.hs = hs[k & 1]; s.hd = hd[(k >> 1) & 1]; s.ms = ms[(k >> 1) & 1]; s.md = md[k & 1];
    s.salt = c.range(0, 2, "initial state");
    s.yaw = s.salt == 0 ? 0.0 : num(s.salt, 5);
    int d = c.range(0, 2, "subsampling");
    s.sub = d == 0 ? s.T : (d == 1 ? (s.T + 1) / 2 : 1 + s.T / 10);
    return s;
}
static inline pm::ModelState initialState(const Setup &s)
{
    pm::ModelState m;
    Eigen::VectorXd b(6), d(6);
    for (int i = 0; i < 6; ++i) { b(i) = num(s.salt, i, 1); d(i) = num(s.salt, i, 2); }
    setVec(m.base_state_, b); setVec(m.body_state_, d);
    m.base_state_.position_.z() = s.hs; m.body_state_.position_.z() = s.hd;
    m.base_state_.rpy_.setZero(); m.base_state_.rpy_.z() = s.yaw;
    m.base_mass_ = s.ms; m.body_mass_ = s.md;
    return m;
}
struct Prediction { std::vector<Eigen::VectorXd> base, body; std::vector<V2> cop, jerk; };
static inline V2 cop(const Setup &s, const Eigen::VectorXd &b, const Eigen::VectorXd &d)
{
    V2 r;
    double g = humoto::g_gravitational_acceleration;
    for (int k = 0; k < 2; ++k)
        r(k) = (s.ms * (b(3 * k) - s.hs / g * b(3 * k + 2)) + s.md * (d(3 * k) - s.hd / g * d(3 * k + 2))) / (s.ms + s.md) - b(3 * k);
    return r;
}
static inline Prediction predict(const Setup &s, Eigen::VectorXd b, Eigen::VectorXd d, const Eigen::VectorXd &x)
{
    Prediction p;
    for (std::size_t i = 0; i < s.N; ++i)
    {
        V2 j = velocityJerk(b, x.segment(2 * i, 2), s.Ts());
        p.jerk.push_back(j);
        Eigen::VectorXd t = jerk(b, j, s.Ts()); b = t;
        t = jerk(d, x.segment(2 * s.N + 2 * i, 2), s.Ts()); d = t;
        p.base.push_back(b); p.body.push_back(d);
        p.cop.push_back(cop(s, b, d));
    }
    return p;
}
// motion at the time t (s) of the horizon
static inline void at(const Setup &s, const Eigen::VectorXd &b0, const Eigen::VectorXd &d0, const Eigen::VectorXd &x, const Prediction &p, double t, Eigen::VectorXd &b, Eigen::VectorXd &d)
{
    std::size_t i = std::min<std::size_t>(s.N - 1, (std::size_t) (t / s.Ts()));
    Eigen::VectorXd pb = i == 0 ? b0 : p.base[i - 1], pd = i == 0 ? d0 : p.body[i - 1];
    b = jerk(pb, p.jerk[i], t - i * s.Ts());
    d = jerk(pd, x.segment(2 * s.N + 2 * i, 2), t - i * s.Ts());
}
static inline humoto::Solution solution(const pm::MPCforMG &mg, const Eigen::VectorXd &x)
{
    humoto::Solution r;
    r.initialize(mg.getSolutionStructure(), 0.0);
    r.x_ = x;
    return r;
}
}
