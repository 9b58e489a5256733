// Exact references of the dynamics.
#pragma once
#include <Eigen/Core>
// exp(M t) by the Taylor series with scaling and squaring
static inline Eigen::MatrixXd expo(const Eigen::MatrixXd &M, double t)
{
    long n = M.rows();
    Eigen::MatrixXd a = M * t;
    double m = 0; for (long i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a.data()[i]));
    int k = 0; while (m > 0.25) { m /= 2; ++k; }
    a /= std::pow(2.0, k);
    Eigen::MatrixXd r = Eigen::MatrixXd::Identity(n, n), term = r;
    for (int i = 1; i < 25; ++i) { Eigen::MatrixXd x = term * a / i; term = x; r += term; }
    for (int i = 0; i < k; ++i) { Eigen::MatrixXd x = r * r; r = x; }
    return r;
}
// cart-table: x''' = w^2 (x' - z'), z' = (u - z(0))/T
static inline Eigen::VectorXd cartTable(const Eigen::VectorXd &x, double u, double w, double T, double t)
{
    double zd = (u - (x(0) - x(2) / (w * w))) / T;
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(4, 4);
    M(0, 1) = 1; M(1, 2) = 1; M(2, 1) = w * w; M(2, 3) = -w * w;
    Eigen::VectorXd y(4); y << x(0), x(1), x(2), zd;
    Eigen::VectorXd r = expo(M, t) * y;
    return r.head(3);
}
