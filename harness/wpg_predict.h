// Forward simulation of the plan.
#pragma once
#include "wpg.h"
#include "expo.h"
namespace wpg
{
inline Eigen::VectorXd simulate(const Eigen::VectorXd &x, const V2 &u, double h, double T, double t)
{
    // the matrix exponential depends only on (h, t): cached
    static std::map<std::pair<double, double>, Eigen::MatrixXd> cache;
    double w = std::sqrt(humoto::g_gravitational_acceleration / h);
    std::pair<double, double> key(h, t);
    if (cache.find(key) == cache.end())
    {
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(4, 4);
        M(0, 1) = 1; M(1, 2) = 1; M(2, 1) = w * w; M(2, 3) = -w * w;
        cache[key] = expo(M, t);
    }
    const Eigen::MatrixXd &E = cache[key];
    Eigen::VectorXd r(6);
    for (int k = 0; k < 2; ++k)
    {
        Eigen::VectorXd y(4);
        y << x.segment(3 * k, 3), (u(k) - (x(3 * k) - x(3 * k + 2) / (w * w))) / T;
        r.segment(3 * k, 3) = (E * y).head(3);
    }
    return r;
}
inline Eigen::VectorXd vec(const humoto::rigidbody::PointMassState &q)
{
    Eigen::VectorXd x(6);
    x << q.position_.x(), q.velocity_.x(), q.acceleration_.x(), q.position_.y(), q.velocity_.y(), q.acceleration_.y();
    return x;
}
struct Prediction
{
    std::vector<V2> cop, dcop, steps;
    std::vector<Eigen::VectorXd> x;     // x[k]: at the end of the interval
};
inline Prediction predict(const Loop &l, const Plan &p, const Eigen::VectorXd &cop, const Eigen::VectorXd &fp)
{
    Prediction r;
    V2 sup = l.ref.support();
    for (std::size_t i = 0; i < p.steps.size(); ++i)
    {
        V2 s = (i == 0 ? sup : r.steps.back());
        s += rot(p.steps[i].from) * V2(fp.segment(2 * i, 2));
        r.steps.push_back(s);
    }
    Eigen::VectorXd x = l.x;
    double w2 = humoto::g_gravitational_acceleration / l.s.h;
    for (std::size_t k = 0; k < l.s.N; ++k)
    {
        V2 base = p.in[k].steps == 0 ? sup : r.steps[p.in[k].steps - 1];
        V2 z = base + rot(p.in[k].theta) * V2(cop.segment(2 * k, 2));
        V2 z0(x(0) - x(2) / w2, x(3) - x(5) / w2);
        double T = p.in[k].ms / 1000.0;
        r.cop.push_back(z);
        r.dcop.push_back((z - z0) / T);
        Eigen::VectorXd y = simulate(x, z, l.s.h, T, T);
        x = y;
        r.x.push_back(x);
    }
    return r;
}
}
