// A small dense dual active set solver of strictly convex QPs (Goldfarb and Idnani) with certified results: the optimality
// conditions are checked by the caller with 'certificate', which does not depend on how the solution was found.
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <limits>
#include <cmath>
namespace exactqp
{
    // minimize 1/2 x'Hx + g'x  subject to C x = d (first 'eq' rows), C x >= d (the rest)
    struct QP
    {
        Eigen::MatrixXd H, C;
        Eigen::VectorXd g, d;
        long eq;
        QP() : eq(0) {}
    };
    struct Result
    {
        enum Status { OK, INFEASIBLE, NOT_CONVEX, STALLED } status;
        Eigen::VectorXd x, u;       // multipliers of all rows
        int iterations;
        bool certain;               // not close to degeneracy
        Result() : status(OK), iterations(0), certain(true) {}
    };

    inline double certificate(const QP &q, const Eigen::VectorXd &x, const Eigen::VectorXd &u)
    {
        double e = 0;
        Eigen::VectorXd grad = q.H * x + q.g;
        if (q.C.rows() > 0) grad -= q.C.transpose() * u;
        double scale = 1.0 + (q.g.size() ? q.g.cwiseAbs().maxCoeff() : 0);
        for (long i = 0; i < grad.size(); ++i) e = std::max(e, std::fabs(grad(i)) / scale);
        for (long i = 0; i < q.C.rows(); ++i)
        {
            double s = (q.C.row(i).dot(x) - q.d(i)) / (1.0 + q.C.row(i).cwiseAbs().maxCoeff() + std::fabs(q.d(i)));
            if (i < q.eq) { e = std::max(e, std::fabs(s)); continue; }
            e = std::max(e, -s);
            e = std::max(e, -u(i) / scale);
            e = std::max(e, std::fabs(s) * std::max(u(i), 0.0) / scale);
        }
        return std::isnan(e) ? HUGE_VAL : e;
    }

    inline Result solve(const QP &q)
    {
        Result r;
        long n = q.H.rows(), m = q.C.rows();
        Eigen::LLT<Eigen::MatrixXd> llt(q.H);
        if (llt.info() != Eigen::Success || (n > 0 && llt.matrixLLT().diagonal().cwiseAbs().minCoeff() < 1e-5 * llt.matrixLLT().diagonal().cwiseAbs().maxCoeff())) { r.status = Result::NOT_CONVEX; return r; }
        Eigen::MatrixXd Hi = llt.solve(Eigen::MatrixXd::Identity(n, n));
        r.x = -(Hi * q.g);
        r.u = Eigen::VectorXd::Zero(m);
        std::vector<long> act;
        std::vector<double> sgn;                // direction of an active row (-1 for equalities approached from above)
        std::vector<bool> in(m, false);
        const double eps = 1e-11;
        for (;;)
        {
            // next violated row: equalities first
            long p = -1;
            double worst = -1e-10, sp = 1;
            for (long i = 0; i < q.eq; ++i) if (!in[i]) { p = i; break; }
            if (p < 0) for (long i = q.eq; i < m; ++i) if (!in[i])
            {
                double norm = q.C.row(i).norm();
                double s = q.C.row(i).dot(r.x) - q.d(i);
                if (norm < 1e-14) { if (s < -1e-10) { r.status = Result::INFEASIBLE; return r; } continue; }
                s /= norm;
                if (s < worst) { worst = s; p = i; }
            }
            if (p < 0) return r;
            if (p < q.eq && q.C.row(p).dot(r.x) - q.d(p) > 0) sp = -1;
            double up = 0;
            for (;;)
            {
                if (++r.iterations > 1000) { r.status = Result::STALLED; return r; }
                Eigen::VectorXd np = sp * q.C.row(p).transpose();
                double s = np.dot(r.x) - sp * q.d(p);
                long k = act.size();
                Eigen::VectorXd z, rr(k);
                if (k == 0) z = Hi * np;
                else
                {
                    Eigen::MatrixXd N(n, k);
                    for (long j = 0; j < k; ++j) N.col(j) = sgn[j] * q.C.row(act[j]).transpose();
                    Eigen::MatrixXd M = N.transpose() * Hi * N;
                    rr = M.ldlt().solve(N.transpose() * (Hi * np));
                    z = Hi * (np - N * rr);
                }
                double zn = z.dot(np), full = np.dot(Hi * np);
                double t1 = HUGE_VAL, t2 = HUGE_VAL;
                long drop = -1;
                for (long j = 0; j < k; ++j) if (act[j] >= q.eq && rr(j) > eps)
                {
                    double t = sgn[j] * r.u(act[j]) / rr(j);
                    if (t < t1) { t1 = t; drop = j; }
                }
                if (zn > 1e-10 * std::max(full, 1e-300) && full > 0) t2 = -s / zn;
                double t = std::min(t1, t2);
                if (t == HUGE_VAL)
                {
                    // no direction: the row depends on the active ones
                    if (p < q.eq && std::fabs(s) < 1e-8) { in[p] = true; break; }    // redundant equality
                    r.status = Result::INFEASIBLE;
                    return r;
                }
                for (long j = 0; j < k; ++j) r.u(act[j]) -= sgn[j] * t * rr(j);
                up += t;
                if (t2 != HUGE_VAL) r.x += t * z;
                if (t == t2)
                {
                    r.u(p) = sp * up;
                    act.push_back(p); sgn.push_back(sp); in[p] = true;
                    break;
                }
                r.u(act[drop]) = 0;
                in[act[drop]] = false;
                act.erase(act.begin() + drop); sgn.erase(sgn.begin() + drop);
            }
        }
    }
}
